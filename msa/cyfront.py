"""Cython front end: Cython's own parse tree (no compilation, nothing executed) -> Python ast.

C-only constructs become ast nodes plus annotations:
  FunctionDef._c   = dict(kind, ret, params={name: ctype}, vars={name: ctype}, directives={name: const})
  Module._c        = dict(structs={name: [(field, ctype)]}, typedefs={name: ctype}, vars={name: ctype})
  a declaration of a struct variable becomes   v = __newstruct__('name')
  a cast <T>x becomes                          __cast__('T', x)
"""
import ast
import glob
import os


class Unsupported(Exception):
    pass


def _load():
    from Cython.Compiler import Errors
    Errors.init_thread()
    from Cython.Compiler.TreeFragment import parse_from_strings
    return parse_from_strings


def cython_version():
    import Cython
    return Cython.__version__


_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod, '**': ast.Pow, '//': ast.FloorDiv,
        '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}
_CMP = {'<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, 'is': ast.Is,
        'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, '<>': ast.NotEq}


class Conv:
    def __init__(self, fname):
        self.fname = fname
        self.structs = {}
        self.typedefs = {}
        self.modvars = {}
        self.fn = None

    # -- helpers
    def loc(self, node, n):
        pos = getattr(n, 'pos', None)
        line, col = (pos[1], pos[2]) if pos else (0, 0)
        for x in ast.walk(node):
            if isinstance(x, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.alias)) and not hasattr(x, 'lineno'):
                x.lineno = line
                x.col_offset = col
                x.end_lineno = line
                x.end_col_offset = col
        return node

    def vars(self):
        return self.fn['vars'] if self.fn is not None else self.modvars

    def ctype(self, t):
        k = type(t).__name__
        if k == 'CSimpleBaseTypeNode':
            if t.name is None:
                return 'object'
            if t.is_basic_c_type:
                s = {0: 'unsigned ', 1: '', 2: 'signed '}.get(t.signed, '')
                lg = {0: '', 1: 'long ', 2: 'long long ', -1: 'short '}.get(t.longness, '')
                nm = t.name
                r = s + lg + nm
                return ' '.join(r.split()).replace('long int', 'long').replace('short int', 'short')
            return '.'.join(list(t.module_path) + [t.name])
        if k == 'MemoryViewSliceTypeNode':
            return 'mv(%s,%d)' % (self.ctype(t.base_type_node), len(t.axes))
        if k == 'TemplatedTypeNode':
            base = self.ctype(t.base_type_node)
            if base.endswith('ndarray'):
                dt = self.typearg(t.positional_args[0]) if t.positional_args else 'object'
                nd = 1
                kw = t.keyword_args
                if kw is not None:
                    for it in kw.key_value_pairs:
                        if str(it.key.value) == 'ndim':
                            nd = int(it.value.value)
                return 'nd(%s,%d)' % (dt, nd)
            return base + '[]'
        if k == 'CConstTypeNode' or k == 'CConstOrVolatileTypeNode':
            return self.ctype(t.base_type)
        return '?' + k

    def typearg(self, n):
        k = type(n).__name__
        if k == 'NameNode':
            return str(n.name)
        if k == 'AttributeNode':
            return self.typearg(n.obj) + '.' + str(n.attribute)
        if hasattr(n, 'base_type'):
            return self.ctype(n.base_type)
        return self.ctype(n)

    def declname(self, d):
        """-> (name, default node, kind, extra)"""
        k = type(d).__name__
        if k == 'CNameDeclaratorNode':
            return d.name, d.default, ''
        if k == 'CPtrDeclaratorNode':
            n, df, kk = self.declname(d.base)
            return n, df, '*' + kk
        if k == 'CFuncDeclaratorNode':
            n, df, kk = self.declname(d.base)
            return n, df, kk
        if k == 'CArrayDeclaratorNode':
            n, df, kk = self.declname(d.base)
            return n, df, '[]' + kk
        raise Unsupported(k)

    # -- statements
    def block(self, n):
        if n is None:
            return []
        r = []
        if type(n).__name__ == 'StatListNode':
            for s in n.stats:
                r.extend(self.block(s))
            return r
        return self.stmt(n)

    def nonempty(self, b, n):
        return b or [self.loc(ast.Pass(), n)]

    def stmt(self, n):
        k = type(n).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('%s line %s' % (k, n.pos[1] if n.pos else '?'))
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        return [self.loc(x, n) for x in r]

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            return ast.Import([ast.alias(str(n.rhs.module_name.value), str(n.lhs.name))])
        return ast.Assign([self.e(n.lhs, ast.Store())], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.e(x, ast.Store()) for x in n.lhs_list], self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        raise Unsupported('parallel')

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.e(n.lhs, ast.Store()), _BIN[n.operator](), self.e(n.rhs))

    def s_IfStatNode(self, n):
        els = self.block(n.else_clause)
        for c in reversed(n.if_clauses):
            node = ast.If(self.e(c.condition), self.nonempty(self.block(c.body), c), els)
            els = [self.loc(node, c)]
        return els

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.nonempty(self.block(n.body), n), self.block(n.else_clause))

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        return ast.For(self.e(n.target, ast.Store()), self.e(seq), self.nonempty(self.block(n.body), n),
                       self.block(n.else_clause))

    def s_ForFromStatNode(self, n):
        # for x from a <= x < b
        lo = self.e(n.bound1)
        hi = self.e(n.bound2)
        if n.relation1 == '<':
            lo = ast.BinOp(lo, ast.Add(), ast.Constant(1))
        if n.relation2 == '<=':
            hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
        if n.relation1 not in ('<', '<=') or n.relation2 not in ('<', '<='):
            raise Unsupported('for-from')
        args = [lo, hi] + ([self.e(n.step)] if n.step is not None else [])
        return ast.For(self.e(n.target, ast.Store()), ast.Call(ast.Name('range', ast.Load()), args, []),
                       self.nonempty(self.block(n.body), n), [])

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type) if n.exc_type is not None else None, None)

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(n.condition), None)

    def s_GlobalNode(self, n):
        return ast.Global([str(x) for x in n.names])

    def s_DelStatNode(self, n):
        return ast.Delete([self.e(a, ast.Del()) for a in n.args])

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        level = max(0, int(n.module.level or 0))
        return ast.ImportFrom(mod, [ast.alias(str(a), str(t.name) if str(t.name) != str(a) else None)
                                    for a, t in n.items], level)

    def s_CImportStatNode(self, n):
        nm = str(n.module_name)
        if nm == 'cython':
            return None
        return ast.Import([ast.alias(nm, str(n.as_name) if n.as_name else None)])

    def s_FromCImportStatNode(self, n):
        level = max(0, int(n.relative_level or 0))
        al = []
        for t in n.imported_names:
            # (pos, name, as_name)
            al.append(ast.alias(str(t[1]), str(t[2]) if t[2] else None))
        r = ast.ImportFrom(str(n.module_name), al, level)
        r._cimport = True
        return r

    def s_CTypeDefNode(self, n):
        name, _, kk = self.declname(n.declarator)
        self.typedefs[str(name)] = self.ctype(n.base_type) + kk
        return None

    def s_CStructOrUnionDefNode(self, n):
        fields = []
        for a in n.attributes or []:
            t = self.ctype(a.base_type)
            for d in a.declarators:
                nm, _, kk = self.declname(d)
                fields.append((str(nm), t + kk))
        self.structs[str(n.name)] = fields
        return None

    def s_CVarDefNode(self, n):
        t = self.ctype(n.base_type)
        r = []
        for d in n.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            nm, default, kk = self.declname(d)
            nm = str(nm)
            self.vars()[nm] = t + kk
            if default is not None:
                r.append(ast.Assign([ast.Name(nm, ast.Store())], self.e(default)))
            elif t in self.structs and not kk:
                r.append(ast.Assign([ast.Name(nm, ast.Store())],
                                    ast.Call(ast.Name('__newstruct__', ast.Load()), [ast.Constant(t)], [])))
        return r

    def _func(self, n, name, args, kind, ret):
        outer = self.fn
        self.fn = dict(kind=kind, ret=ret, params={}, vars={}, directives={}, notnone=set())
        info = self.fn
        al = []
        defaults = []
        for a in args:
            if type(a).__name__ == 'CArgDeclNode':
                nm, dfl, kk = self.declname(a.declarator)
                t = self.ctype(a.base_type)
                if not nm:  # untyped argument: name is parsed as its type
                    nm, t = t, 'object'
                nm = str(nm)
                info['params'][nm] = t + kk
                if a.not_none:
                    info['notnone'].add(nm)
                al.append(ast.arg(nm, None))
                if a.default is not None:
                    defaults.append(self.e(a.default))
            else:
                raise Unsupported('arg ' + type(a).__name__)
        decs = []
        for d in n.decorators or []:
            de = self.e(d.decorator)
            decs.append(de)
            if isinstance(de, ast.Call) and isinstance(de.func, ast.Attribute):
                info['directives'][de.func.attr] = de.args[0].value if de.args and isinstance(de.args[0], ast.Constant) else None
        body = self.nonempty(self.block(n.body), n)
        f = ast.FunctionDef(name=str(name), args=ast.arguments(posonlyargs=[], args=al, vararg=None, kwonlyargs=[],
                                                              kw_defaults=[], kwarg=None, defaults=defaults),
                            body=body, decorator_list=[], returns=None, type_params=[])
        f._c = info
        self.fn = outer
        return f

    def s_DefNode(self, n):
        if n.star_arg or n.starstar_arg:
            raise Unsupported('star args')
        return self._func(n, n.name, n.args, 'def', 'object')

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        return self._func(n, d.base.name, d.args, 'cpdef' if n.overridable else 'cdef', self.ctype(n.base_type))

    def s_StatListNode(self, n):
        return self.block(n)

    # -- expressions
    def e(self, n, ctx=None):
        k = type(n).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('%s line %s' % (k, n.pos[1] if n.pos else '?'))
        r = m(n, ctx or ast.Load())
        return self.loc(r, n)

    def e_NameNode(self, n, ctx):
        return ast.Name(str(n.name), ctx)

    def e_IntNode(self, n, ctx):
        return ast.Constant(int(str(n.value), 0))

    def e_FloatNode(self, n, ctx):
        return ast.Constant(float(str(n.value)))

    def e_BoolNode(self, n, ctx):
        return ast.Constant(bool(n.value))

    def e_NoneNode(self, n, ctx):
        return ast.Constant(None)

    def e_UnicodeNode(self, n, ctx):
        return ast.Constant(str(n.value))

    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n, ctx):
        return ast.Constant(bytes(n.value))

    def e_TupleNode(self, n, ctx):
        return ast.Tuple([self.e(a, ctx) for a in n.args], ctx)

    def e_ListNode(self, n, ctx):
        return ast.List([self.e(a, ctx) for a in n.args], ctx)

    def e_DictNode(self, n, ctx):
        return ast.Dict([self.e(p.key) for p in n.key_value_pairs], [self.e(p.value) for p in n.key_value_pairs])

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ctx)

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(self.e(n.base), self.e(n.index), ctx)

    def e_SliceNode(self, n, ctx):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_SliceIndexNode(self, n, ctx):
        f = lambda x: None if x is None else self.e(x)
        return ast.Subscript(self.e(n.base), ast.Slice(f(n.start), f(n.stop), None), ctx)

    def _bin(self, n, ctx):
        return ast.BinOp(self.e(n.operand1), _BIN[n.operator](), self.e(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = _bin
    e_IntBinopNode = e_NumBinopNode = _bin

    def e_UnaryMinusNode(self, n, ctx):
        v = self.e(n.operand)
        return ast.UnaryOp(ast.USub(), v)

    def e_UnaryPlusNode(self, n, ctx):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_BoolBinopNode(self, n, ctx):
        return ast.BoolOp(ast.And() if n.operator == 'and' else ast.Or(), [self.e(n.operand1), self.e(n.operand2)])

    def e_PrimaryCmpNode(self, n, ctx):
        ops, cmps = [_CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            cmps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cmps)

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(self.e(n.condition), self.e(n.true_val), self.e(n.false_val))

    CARRAY = {'FloatArray': 'float', 'DoubleArray': 'double', 'IntArray': 'int', 'LongArray': 'long', 'UIntArray': 'unsigned int'}

    def e_SimpleCallNode(self, n, ctx):
        # growable typed arrays of cyarray: lists whose elements are converted on append
        f = n.function
        k = type(f).__name__
        if k == 'NameNode' and str(f.name) in self.CARRAY and not n.args:
            return ast.List([], ast.Load())
        if k == 'AttributeNode' and type(f.obj).__name__ == 'NameNode':
            at = str(f.attribute)
            ty = self.CARRAY.get(self.vars().get(str(f.obj.name), ''))
            if at in ('c_append', 'append') and ty and len(n.args) == 1:
                v = ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(ty), self.e(n.args[0])], [])
                return ast.Call(ast.Attribute(self.e(f.obj), 'append', ast.Load()), [v], [])
            if at == 'get_npy_array' and not n.args:
                return self.e(f.obj)
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n, ctx):
        pa = n.positional_args
        if type(pa).__name__ != 'TupleNode':
            raise Unsupported('star call')
        kws = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(str(it.key.value), self.e(it.value)))
        return ast.Call(self.e(n.function), [self.e(a) for a in pa.args], kws)

    def e_TypecastNode(self, n, ctx):
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(self.ctype(n.base_type)), self.e(n.operand)], [])

    def _comp(self, loop):
        # ForIn nest ending in ComprehensionAppend / yield expr
        gens = []
        node = loop
        while True:
            k = type(node).__name__
            if k == 'ForInStatNode':
                it = node.iterator
                seq = it.sequence if hasattr(it, 'sequence') else it
                gens.append(ast.comprehension(self.e(node.target, ast.Store()), self.e(seq), [], 0))
                node = node.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(node.if_clauses[0].condition))
                node = node.if_clauses[0].body
            elif k == 'StatListNode':
                node = node.stats[0]
            elif k == 'ComprehensionAppendNode':
                return self.e(node.expr), gens
            elif k == 'ExprStatNode':
                node = node.expr
            elif k == 'YieldExprNode':
                return self.e(node.arg), gens
            else:
                raise Unsupported('comprehension ' + k)

    def e_ComprehensionNode(self, n, ctx):
        elt, gens = self._comp(n.loop)
        return ast.ListComp(elt, gens)

    def e_GeneratorExpressionNode(self, n, ctx):
        elt, gens = self._comp(n.loop)
        # the iterable of the first generator may be passed as an argument of the implicit function
        return ast.GeneratorExp(elt, gens)

    def e_IteratorNode(self, n, ctx):
        return self.e(n.sequence, ctx)

    def e_JoinedStrNode(self, n, ctx):
        return ast.Call(ast.Name('__fstr__', ast.Load()), [self.e(v) for v in n.values], [])


def parse_pyx(path, fname=None):
    parse = _load()
    with open(path, encoding='utf-8') as f:
        src = f.read()
    name = os.path.splitext(os.path.basename(path))[0]
    tree = parse(name, src)
    c = Conv(path)
    body = c.block(tree.body)
    m = ast.Module(body, [])
    m._c = dict(structs=c.structs, typedefs=c.typedefs, vars=c.modvars)
    return m


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        m = parse_pyx(p)
        print(m._c)
        print(ast.unparse(ast.fix_missing_locations(m))[:6000])
