"""Width of the C types a raster value passes through in the compiled kernels (C01, C03, C04, C05, C07, C08, C09).

Type inference over the Cython syntax tree.  A *value* (element of a typed or untyped raster, field of a struct that carries one, arithmetic on
those) may never be stored in, passed as, or returned through a C type that cannot hold it: double or Python number -> float, 64 bit -> 32 bit
integer, signed -> unsigned, floating point -> integer.  Sums over a loop are kept in the widest type.  Cell coordinates and sizes (range
variables, .shape) are not values."""
import ast
from msa.report import Item

W = {'np.float32_t': ('f', 32), 'float': ('f', 32), 'np.float64_t': ('f', 64), 'double': ('f', 64), 'long double': ('f', 80), 'np.float_t': ('f', 64),
     'np.int8_t': ('i', 8), 'np.int16_t': ('i', 16), 'np.int32_t': ('i', 32), 'np.int64_t': ('i', 64), 'np.int_t': ('i', 64),
     'np.uint8_t': ('u', 8), 'np.uint16_t': ('u', 16), 'np.uint32_t': ('u', 32), 'np.uint64_t': ('u', 64), 'np.intp_t': ('i', 64),
     'int': ('i', 32), 'long': ('i', 64), 'long long': ('i', 64), 'short': ('i', 16), 'char': ('i', 8), 'signed char': ('i', 8),
     'unsigned int': ('u', 32), 'unsigned long': ('u', 64), 'unsigned long long': ('u', 64), 'unsigned short': ('u', 16), 'unsigned char': ('u', 8),
     'Py_ssize_t': ('i', 64), 'size_t': ('u', 64), 'bint': ('i', 32),
     'np.npy_float32': ('f', 32), 'np.npy_float64': ('f', 64), 'np.npy_int32': ('i', 32), 'np.npy_int64': ('i', 64)}
PY = ('o', 0)        # a Python number or element of an untyped array
COORD = {'r', 'c', 'row', 'col', 'rows', 'cols', 'x', 'y'}

CARRAY = {'FloatArray': 'float', 'DoubleArray': 'double', 'IntArray': 'int', 'UIntArray': 'unsigned int', 'LongArray': 'long'}

FUNCS = {'_fill': ('C01', 'C03', 'C04'), '_flow': ('C01', 'C05', 'C07', 'C08'), '_label': ('C01', 'C09', 'C16')}


def props_of(short, name):
    """properties a function of a kernel serves"""
    n = name.lower()
    if short == '_fill':
        return ('C01', 'C04') if 'flat' in n else ('C01', 'C03')
    if short == '_flow':
        if 'accum' in n:
            return ('C01', 'C07')
        if 'watershed' in n:
            return ('C01', 'C08')
        if 'terrain' in n:
            return ('C01', 'C05')
        return ('C01', 'C07', 'C08')
    if 'data' in n:
        return ('C01', 'C16')
    return ('C01', 'C09')


class V:
    """type of an expression: scalar (kind, bits), and whether it is a value rather than a coordinate, size or constant"""
    __slots__ = ('t', 'ct', 'value')

    def __init__(self, t, value=False, ct=None):
        self.t = t
        self.value = value
        self.ct = ct


class Infer:
    def __init__(self, P, mod, defs):
        self.mod = mod
        self.c = mod.tree._c
        self.typedefs = dict(defs)
        self.typedefs.update(self.c['typedefs'])
        self.funcs = {n.name: n for n in mod.tree.body if isinstance(n, ast.FunctionDef)}
        self.found = []
        self.sites = 0

    def base(self, ct):
        n = 0
        while ct in self.typedefs and n < 20:
            ct = self.typedefs[ct]
            n += 1
        return ct

    def scalar(self, ct):
        return W.get(self.base(ct))

    def struct(self, ct):
        return self.c['structs'].get(self.base(ct))

    def elem(self, ct):
        if ct and ct[:3] in ('mv(', 'nd('):
            return ct[3:].rsplit(',', 1)[0]
        return None

    def function(self, f):
        self.f = f
        self.vars = dict(self.c['vars'])
        self.vars.update(f._c['params'])
        self.vars.update(f._c['vars'])
        self.loop = 0
        # coordinates: targets of loops over ranges, and what indexes a row or column
        self.coord = set()
        for n in ast.walk(f):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id in ('range', 'xrange'):
                self.coord |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple):
                self.coord |= {x.id for x in ast.walk(n.slice) if isinstance(x, ast.Name)}
        # values: floating point variables, and what is computed from elements of rasters and fields of structs
        sc = {n: self.scalar(t) for n, t in self.vars.items()}
        self.values = {n for n, t in sc.items() if t and t[0] == 'f'}
        self.values |= {p for p, t in f._c['params'].items() if p not in self.coord and self.scalar(t) and t not in ('int', 'unsigned int', 'long', 'bint', 'Py_ssize_t')}
        while True:
            n = len(self.values)
            for a in ast.walk(f):
                if isinstance(a, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and a.value is not None:
                    for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                        if isinstance(t, ast.Name) and t.id not in self.coord and self.ev(a.value).value:
                            self.values.add(t.id)
            if len(self.values) == n:
                break
        self.found = [x for x in self.found if x[0] != self.mod.name + ':' + f.name]
        if f._c['kind'] == 'def':
            for p, t in f._c['params'].items():
                s = self.scalar(t)
                if s == ('f', 32):
                    self.sites += 1
                    self.report(f, 'parameter %s: Python number received as 32 bit float' % p)
        self.block(f.body)

    def report(self, node, what):
        self.found.append((self.mod.name + ':' + self.f.name, getattr(node, 'lineno', 0), what))

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.store(t, v, s, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, self.ev(s.value), s, s.value)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(s.target)
            new = self.arith(old, self.ev(s.value), s.op)
            self.store(s.target, new, s, None)
            self.accum(s.target, s.op, old, s)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ev(s.iter)
            else:
                self.ev(s.test)
            self.loop += 1
            self.block(s.body)
            self.loop -= 1
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.fits(v, self.f._c['ret'], s, 'the return value')
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, (ast.With, ast.Try)):
            for b in ('body', 'orelse', 'finalbody'):
                self.block(getattr(s, b, []) or [])
            for h in getattr(s, 'handlers', []):
                self.block(h.body)

    def accum(self, target, op, old, s):
        """x += y, x -= y in a loop: the running sum needs the widest type"""
        if self.loop and isinstance(op, (ast.Add, ast.Sub)) and old.t and old.t[0] == 'f':
            self.sites += 1
            if old.t[1] < 64:
                self.report(s, 'running sum %s kept in a %d bit float' % (ast.unparse(target), old.t[1]))
        elif self.loop and isinstance(op, (ast.Add, ast.Sub)) and isinstance(target, ast.Attribute) and old.t and old.t[0] in 'iu':
            self.sites += 1
            if old.t[1] < 32:
                self.report(s, 'count %s kept in %d bits' % (ast.unparse(target), old.t[1]))

    def store(self, t, v, s, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.store(x, self.ev(value.elts[i]) if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else V(None), s, None)
            return
        ct = self.ctype(t)
        if isinstance(t, ast.Name):
            if t.id in self.coord:
                return
            if value is not None and isinstance(value, ast.BinOp) and self.loop and isinstance(value.op, (ast.Add, ast.Sub)) and \
                    isinstance(value.left, ast.Name) and value.left.id == t.id:
                self.accum(t, value.op, self.ev(t), s)
        if ct is not None:
            self.fits(v, ct, s, ast.unparse(t))

    def ctype(self, t):
        """declared C type of a place or None"""
        if isinstance(t, ast.Name):
            return self.vars.get(t.id)
        if isinstance(t, ast.Attribute):
            b = self.ctype(t.value)
            st = self.struct(b) if b else None
            if st:
                return dict(st).get(t.attr)
            return None
        if isinstance(t, ast.Subscript):
            b = self.ctype(t.value)
            e = self.elem(b)
            return e
        return None

    def fits(self, v, ct, node, what):
        if v.ct is not None and self.struct(v.ct):
            return      # whole structs: Cython demands the same type
        d = self.scalar(ct)
        s = v.t
        if d is None or s is None or not v.value:
            return
        self.sites += 1
        bad = None
        if s[0] == 'o':
            if d == ('f', 32):
                bad = 'Python number or 64 bit element'
        elif s[0] == 'f':
            if d[0] != 'f':
                bad = '%d bit float' % s[1]
            elif d[1] < s[1]:
                bad = '%d bit float' % s[1]
        else:
            if d[0] == 'f':
                if d[1] < 64 and s[1] > 16:
                    bad = '%d bit integer' % s[1]
            elif d[1] < s[1] or s[0] == 'i' and d[0] == 'u' or s[0] == 'u' and d[0] == 'i' and d[1] <= s[1]:
                bad = '%s%d bit integer' % ('unsigned ' if s[0] == 'u' else '', s[1])
        if bad:
            self.report(node, '%s narrowed to %s in %s' % (bad, ('%s%d bit %s' % ('unsigned ' if d[0] == 'u' else '', d[1], 'float' if d[0] == 'f' else 'integer')), what))

    # ------------------------------------------------------------------ expressions
    def arith(self, a, b, op=None):
        val = a.value or b.value
        if a.t is None or b.t is None:
            return V(None, val)
        if 'o' in (a.t[0], b.t[0]):
            return V(PY, val)
        if isinstance(op, ast.Div) and a.t[0] != 'f' and b.t[0] != 'f':
            return V(('f', 64), val)
        if a.t[0] == 'f' or b.t[0] == 'f':
            x = [t for t in (a, b) if t.t[0] == 'f']
            w = [t.t[1] for t in x if t.value] or [t.t[1] for t in x]
            return V(('f', max(w)), val)
        x = [t.t for t in (a, b) if t.value] or [a.t, b.t]
        return V(max(x, key=lambda t: t[1]), val)

    def ev(self, e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or not isinstance(e.value, (int, float)):
                return V(None)
            return V(('f', 64) if isinstance(e.value, float) else ('i', 32))
        if isinstance(e, ast.Name):
            ct = self.vars.get(e.id)
            if ct is None:
                return V(None)
            s = self.scalar(ct)
            if s:
                return V(s, e.id in self.values and e.id not in self.c['vars'], ct)
            if ct == 'object':
                return V(PY, e.id not in self.coord)
            return V(None, False, ct)
        if isinstance(e, ast.Attribute):
            ct = self.ctype(e)
            if ct is not None:
                s = self.scalar(ct)
                return V(s, e.attr not in COORD, ct)
            self.ev(e.value)
            return V(None)
        if isinstance(e, ast.Subscript):
            ct = self.ctype(e)
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
                return V(None)
            self.ev(e.slice)
            if ct is not None:
                s = self.scalar(ct)
                return V(s, s is not None, ct)
            if isinstance(e.value, ast.Name) and self.vars.get(e.value.id) == 'object' and isinstance(e.slice, ast.Tuple):
                return V(PY, True)
            self.ev(e.value)
            return V(None)
        if isinstance(e, ast.BinOp):
            return self.arith(self.ev(e.left), self.ev(e.right), e.op)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            return V(None) if isinstance(e.op, ast.Not) else v
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.arith(self.ev(e.body), self.ev(e.orelse))
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            for x in ast.iter_child_nodes(e):
                if isinstance(x, ast.expr):
                    self.ev(x)
            return V(None)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == '__cast__' and len(e.args) == 2:
                v = self.ev(e.args[1])
                ct = e.args[0].value
                if v.value and self.scalar(ct) and not self.inindex(e):
                    self.fits(v, ct, e, 'a cast')
                return V(self.scalar(ct), v.value, ct)
            args = [self.ev(a) for a in e.args]
            if isinstance(e.func, ast.Name):
                g = self.funcs.get(e.func.id)
                if g is not None:
                    for (p, t), v in zip(g._c['params'].items(), args):
                        self.fits(v, t, e, 'parameter %s of %s' % (p, g.name))
                    s = self.scalar(g._c['ret'])
                    return V(s, s is not None, g._c['ret'])
                if e.func.id in ('min', 'max', 'abs', 'fabs', 'sqrt') and args:
                    r = args[0]
                    for a in args[1:]:
                        r = self.arith(r, a)
                    return r
            else:
                if isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'c_append', 'c_set', 'set') and args:
                    ct = CARRAY.get(self.base(self.ctype(e.func.value) or ''))
                    if ct:
                        self.fits(args[-1], ct, e, ast.unparse(e.func.value))
                self.ev(e.func)
            return V(None)
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                self.ev(x)
        return V(None)

    def inindex(self, e):
        return False

    def positions(self, f):
        """(places that hold a position in a raster or its extent, those of them kept in fewer than 32 bits)"""
        self.f = f
        self.vars = dict(self.c['vars'])
        self.vars.update(f._c['params'])
        self.vars.update(f._c['vars'])
        seen, bad = {}, []

        def place(x, n):
            if isinstance(x, ast.Attribute):
                key = ast.unparse(x)
            else:
                key = x.id
            t = self.ctype(x)
            s = self.scalar(t) if t else None
            if s is None or s[0] not in 'iu':
                return
            if key not in seen:
                seen[key] = t
                if s[1] < 32:
                    bad.append((self.mod.name + ':' + f.name, getattr(n, 'lineno', f.lineno), '%s, a position in a raster, is kept in %s (%d bits)' % (key, t, s[1])))

        def leaves(e, n):
            if isinstance(e, ast.Attribute) or isinstance(e, ast.Name):
                if not (isinstance(e, ast.Name) and e.id in self.c['vars'] and e.id not in f._c['vars']):
                    place(e, n)
            elif isinstance(e, ast.BinOp):
                leaves(e.left, n)
                leaves(e.right, n)
        for n in ast.walk(f):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.value, ast.Name) \
                    and n.value.id not in self.c['vars']:
                for e in n.slice.elts:
                    leaves(e, n)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    ts = t.elts if isinstance(t, ast.Tuple) else [t]
                    vs = n.value.elts if isinstance(n.value, ast.Tuple) and len(n.value.elts) == len(ts) else [n.value] * len(ts)
                    for a, b in zip(ts, vs):
                        if isinstance(b, ast.Subscript) and isinstance(b.value, ast.Attribute) and b.value.attr == 'shape' and isinstance(a, (ast.Name, ast.Attribute)):
                            place(a, n)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute)) and ast.unparse(n.value) in list(seen):
                for a in n.targets:
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        place(a, n)
        return seen, bad


def rule_for(short):
    name = 'malstroem.algorithms.speedups.' + short

    def rule(ctx):
        P = ctx.P
        text = 'type inference over the compiled kernel: no value passes through a C type narrower than its own'
        try:
            mod = P.modules[name]
            c = mod.tree._c
        except (KeyError, AttributeError):
            return [Item('widths' + short, FUNCS[short], 'undecided', where=name, detail='no Cython module ' + name, rule=text)]
        defs = {}
        for m in P.modules.values():
            d = getattr(m.tree, '_c', None)
            if d:
                defs.update(d['typedefs'])
        inf = Infer(P, mod, defs)
        items = []
        for f in inf.funcs.values():
            if not hasattr(f, '_c'):
                continue
            inf.found, inf.sites = [], 0
            inf.function(f)
            if not inf.sites:
                continue
            ref = name + ':' + f.name
            it = Item('widths_' + f.name, props_of(short, f.name), 'ok', where=ref, functions={ref}, sites=inf.sites, rule=text)
            if inf.found:
                it.status = 'violation'
                it.where = '%s line %d' % inf.found[0][:2]
                it.detail = '; '.join('line %d: %s' % x[1:] for x in inf.found[:5])
            items.append(it)
        if not items:
            return [Item('widths' + short, FUNCS[short], 'undecided', where=name, detail='no typed values found', rule=text)]
        return items
    rule.__name__ = 'widths' + short
    return rule


POSITIONS = {'_fill': ('C01', 'C03', 'C04'), '_flow': ('C01', 'C06'), '_label': ('C01', 'C09')}


def positions_rule(short):
    name = 'malstroem.algorithms.speedups.' + short

    def rule(ctx):
        P = ctx.P
        it = Item('positions' + short, POSITIONS[short], 'ok', where=name,
                  rule='type inference over the compiled kernel: row, column and extent of a raster are kept in at least 32 bits')
        c = getattr(P.modules[name].tree, '_c', None) if name in P.modules else None
        if c is None:
            it.status, it.detail = 'undecided', 'no Cython module ' + name
            return [it]
        defs = {}
        for m in P.modules.values():
            d = getattr(m.tree, '_c', None)
            if d:
                defs.update(d['typedefs'])
        inf = Infer(P, P.modules[name], defs)
        bad = []
        for f in inf.funcs.values():
            if hasattr(f, '_c'):
                seen, b = inf.positions(f)
                it.sites += len(seen)
                it.functions = set(it.functions) | {name + ':' + f.name}
                bad += b
        if bad:
            it.status, it.where = 'violation', '%s line %d' % bad[0][:2]
            it.detail = '; '.join('line %d: %s' % x[1:] for x in bad[:5])
        elif not it.sites:
            it.status, it.detail = 'undecided', 'no typed positions found'
        return [it]
    rule.__name__ = 'positions' + short
    return rule


RULES = [(FUNCS[s], rule_for(s)) for s in FUNCS] + [(POSITIONS[s], positions_rule(s)) for s in POSITIONS]
