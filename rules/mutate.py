"""Input arrays stay unchanged (C27): flow sensitive may-alias and effect summaries of every function, Python and compiled.

An abstract value is a set of (root, hops, same): root is a parameter; after `hops` element loads one arrives at the root's memory, or at something
reachable from it (same is False then).  A store through a value with hops 0 changes the caller's argument; a local container that merely holds
the argument has hops > 0."""
import ast

from msa.report import Item

PROP = ('C27',)

# what the base documents: parameters (by position, not counting self) a function may change
A = 'malstroem.algorithms.'
ALLOWED = {
    A + 'fill:_fill_terrain': {1}, A + 'fill:_fill_terrain_no_flats': {1}, A + 'fill:_fill_cell': {1}, A + 'fill:_fill_cell_no_flats': {1},
    A + 'fill:_initialize_filled': set(), A + 'fill:fill_terrain': set(), A + 'fill:fill_terrain_no_flats': set(), A + 'fill:minimum_safe_short_and_diag': set(),
    A + 'flow:_terrain_flow': set(), A + 'flow:terrain_flowdirection': set(), A + 'flow:set_edges_flow_outward': {0}, A + 'flow:is_upstream_cell': set(),
    A + 'flow:upstream_cells': set(), A + 'flow:trace_downstream': set(), A + 'flow:trace_accumulated_flow': {1}, A + 'flow:accumulated_flow': set(),
    A + 'flow:assign_watersheds_upstream': {1}, A + 'flow:watersheds_from_labels': {1},
    A + 'label:connected_components': set(), A + 'label:label_stats': set(), A + 'label:keep_labels': {1}, A + 'label:label_min_index': set(),
    A + 'label:label_max_index': set(), A + 'label:label_count': set(), A + 'label:label_data': set(), A + 'label:set_label_to_value': set(),
    A + 'net:_split_into_common_flow_groups': set(), A + 'net:_prune_common_flow': {0}, A + 'net:_untangle': {0},
    A + 'net:next_downstream_label': set(), A + 'net:pourpoint_network': set(), A + 'net:geometric_pourpoint_network': set(),
    'malstroem.bluespots:filterbluespots': set(), 'malstroem.bluespots:assemble_pourpoints': set(),
    'malstroem.approx:approx_bluespots': {0}, 'malstroem.approx:_cumulative_volume': set(), 'malstroem.approx:_labelvaluedict_to_list': set(),
    'malstroem.approx:_bin_waterlevel_z': set(),
    'malstroem.hyps:bluespot_hypsometry_stats': set(), 'malstroem.hyps:cumulative_volume': set(), 'malstroem.hyps:histogram_bins': set(),
    'malstroem.hyps:_hypsometrystats_to_flatdict': set(), 'malstroem.hyps:hypsometrystats_from_flatdict': set(), 'malstroem.hyps:assert_hypsometrystats_valid': set(),
    'malstroem.io:RasterWriter.write': set(), 'malstroem.io:VectorWriter.write_geojson_features': set(),
    'malstroem.vector:transform_cell_to_world': set(),
    A + 'speedups._fill:_fill_terrain': {1}, A + 'speedups._fill:_fill_terrain_no_flats': {1},
    A + 'speedups._flow:terrain_flow': set(), A + 'speedups._flow:trace_accumulated_flow': {1}, A + 'speedups._flow:trace_accumulated_flow_cython': {1},
    A + 'speedups._flow:accumulated_flow': set(), A + 'speedups._flow:assign_watersheds_upstream': {1},
    A + 'speedups._flow:assign_watersheds_upstream_32_cython': {1}, A + 'speedups._flow:assign_watersheds_upstream_64_cython': {1},
    A + 'speedups._flow:assign_watersheds_upstream_fallback_cython': {1},
    A + 'speedups._label:label_stats': set(), A + 'speedups._label:label_stats_fallback_cython': set(), A + 'speedups._label:label_stats_float32_int32_cython': set(),
    A + 'speedups._label:label_min_index': set(), A + 'speedups._label:label_min_index_float64_int32_cython': set(), A + 'speedups._label:label_min_index_fallback_cython': set(),
    A + 'speedups._label:label_data': set(), A + 'speedups._label:label_data_float32_int32_cython': set(), A + 'speedups._label:label_data_float64_int32_cython': set(),
    A + 'speedups._label:label_data_fallback_cython': set(),
}
# parameters (by position) that are arrays
ARRAYS = {A + 'fill:fill_terrain': {0}, A + 'fill:fill_terrain_no_flats': {0}, A + 'fill:minimum_safe_short_and_diag': {0}, A + 'fill:_initialize_filled': {0},
          A + 'flow:_terrain_flow': {0}, A + 'flow:terrain_flowdirection': {0}, A + 'flow:is_upstream_cell': {0}, A + 'flow:upstream_cells': {0},
          A + 'flow:trace_downstream': {0}, A + 'flow:trace_accumulated_flow': {0, 1}, A + 'flow:accumulated_flow': {0}, A + 'flow:assign_watersheds_upstream': {0, 1},
          A + 'flow:watersheds_from_labels': {0, 1}, A + 'label:connected_components': {0}, A + 'label:label_stats': {0, 1}, A + 'label:keep_labels': {0},
          A + 'label:label_min_index': {0, 1}, A + 'label:label_max_index': {0, 1}, A + 'label:label_count': {0}, A + 'label:label_data': {0, 1},
          A + 'label:set_label_to_value': {0}, A + 'net:next_downstream_label': {0, 1}, A + 'net:pourpoint_network': {0, 1}, A + 'net:geometric_pourpoint_network': {0, 1},
          'malstroem.approx:approx_bluespots': {0, 2}, 'malstroem.hyps:bluespot_hypsometry_stats': {0, 1}, 'malstroem.io:RasterWriter.write': {0},
          A + 'speedups._label:label_stats': {0, 1}, A + 'speedups._label:label_min_index': {0, 1}, A + 'speedups._label:label_data': {0, 1}}
# results that must be new memory: they are used next to the input afterwards
FRESH = {A + 'fill:fill_terrain', A + 'fill:fill_terrain_no_flats', A + 'fill:_initialize_filled', A + 'flow:_terrain_flow', A + 'flow:terrain_flowdirection',
         A + 'flow:accumulated_flow', A + 'label:connected_components', A + 'label:keep_labels', A + 'label:label_count', A + 'label:set_label_to_value',
         A + 'speedups._flow:terrain_flow', A + 'speedups._flow:accumulated_flow', 'malstroem.bluespots:filterbluespots'}

VIEW_FN = {'asarray', 'ascontiguousarray', 'asfortranarray', 'asanyarray', 'require', 'atleast_1d', 'atleast_2d', 'squeeze', 'ravel', 'reshape', 'transpose',
           'swapaxes', 'flip', 'flipud', 'fliplr', 'rot90', 'broadcast_to', 'expand_dims', 'moveaxis', 'real', 'diagonal', 'asarray_chkfinite', 'frombuffer'}
VIEW_METH = {'view', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'diagonal'}
VIEW_ATTR = {'T', 'flat', 'real', 'base'}
META_ATTR = {'shape', 'dtype', 'size', 'ndim', 'nbytes', 'itemsize', 'strides'}
MUT_METH = {'sort', 'fill', 'resize', 'put', 'partition', 'itemset', 'setfield', 'setflags', 'append', 'extend', 'insert', 'remove', 'clear', 'update', 'setdefault',
            'popitem', 'reverse', 'add', 'discard', 'difference_update', 'intersection_update', 'appendleft', 'popleft', 'pop', 'extendleft', 'rotate', '__setitem__', '__delitem__'}
ELEM_METH = {'get', 'values', 'items', 'pop', 'setdefault', 'popleft', 'popitem', '__getitem__', 'keys'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'enumerate', 'zip', 'iter', 'filter', 'copy', 'deque', 'OrderedDict', 'chain', 'next', 'min', 'max'}
MUT_FN = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'shuffle': 0, 'put_along_axis': 0, 'heappush': 0, 'heappop': 0, 'heapify': 0, 'insort': 0, 'setattr': 0}
OUT_KW = {'out', 'output'}
AT_FN = {'at'}
ARRAY_ATTR = {'shape', 'dtype', 'astype', 'ndim', 'ravel', 'reshape', 'flatten', 'T'}


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def params(f, method):
    a = f.args
    ns = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return ns[1:] if method else ns


def load(v):
    """an element of it"""
    return frozenset((r, 0, False) if h == 0 else (r, h - 1, d) for r, h, d in v)


def held(v, n=1):
    """a new container with it inside"""
    return frozenset((r, min(h + n, 4), d) for r, h, d in v)


def shallow(v):
    """a new container with the same elements"""
    return held(load(v))


class Sum:
    def __init__(self):
        self.mut = {}      # parameter -> (line, text)
        self.ret = set()   # (parameter, hops, same)

    def key(self):
        return (frozenset(self.mut), frozenset(self.ret))


class Fn:
    """one pass over a function with a given table of summaries"""

    def __init__(self, an, m, c, f):
        self.an, self.m, self.c, self.f = an, m, c, f
        self.ps = params(f, c is not None)
        self.sum = Sum()
        self.sites = 0
        self.shared = []
        self.nested = {n.name: n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef,)) and n is not f}
        self.arr = self.arrays()
        ct = getattr(f, '_c', None) or dict(params={}, vars={})
        self.ctypes = dict(ct.get('params', {}))
        self.ctypes.update(ct.get('vars', {}))
        ref = m.name + ':' + (c.name + '.' if c else '') + f.name
        self.arr |= {self.ps[i] for i in ARRAYS.get(ref, ()) if i < len(self.ps)}
        self.arr |= {n for n, t in self.ctypes.items() if t and t[:3] in ('mv(', 'nd(')}

    def scalar_c(self, n):
        """a C scalar is a copy, it never aliases"""
        t = self.ctypes.get(n)
        return bool(t) and t[:3] not in ('mv(', 'nd(') and t not in ('object', 'list', 'dict', 'tuple', 'set', 'np.ndarray', 'ndarray')

    def arrays(self):
        """names used like arrays"""
        out = set()
        for n in ast.walk(self.f):
            if isinstance(n, ast.Attribute) and n.attr in ARRAY_ATTR and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                sl = n.slice
                if isinstance(sl, ast.Tuple) or isinstance(sl, (ast.Compare,)):
                    out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy', 'ndimage'):
                out |= {a.id for a in n.args[:1] if isinstance(a, ast.Name)}
        while True:
            k = len(out)
            for n in ast.walk(self.f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name):
                    a, b = n.targets[0].id, n.value.id
                    if a in out or b in out:
                        out |= {a, b}
            if len(out) == k:
                return out

    def arrayish(self, e, env):
        b = e
        while isinstance(b, (ast.Subscript, ast.Attribute)):
            b = b.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute):
            return True
        return isinstance(b, ast.Name) and (b.id in self.arr or any(r in self.arr for r, h, d in env.get(b.id, ()) if d))

    def run(self):
        env = {p: frozenset({(p, 0, True)}) for p in self.ps if not self.scalar_c(p)}
        va = self.f.args.vararg
        if va:
            env[va.arg] = frozenset()
        self.block(self.f.body, env)
        return self.sum

    # -- environments
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def mutate(self, val, node, what):
        self.sites += 1
        for r, h, d in val:
            if h or r[0] == '@':
                continue
            self.sum.mut.setdefault(r, (getattr(node, 'lineno', 0), what))

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    def bind(self, t, val, env, node):
        if isinstance(t, ast.Name):
            env = dict(env)
            if not val and isinstance(node, ast.Assign) and isinstance(node.value, (ast.Call, ast.BinOp, ast.Subscript)):
                val = frozenset({('@%d.%d' % (t.lineno, t.col_offset), 0, True)})
            env[t.id] = frozenset() if self.scalar_c(t.id) else val
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                env = self.bind(x, load(val), env, node)
            return env
        if isinstance(t, ast.Starred):
            return self.bind(t.value, val, env, node)
        if isinstance(t, ast.Subscript):
            v = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(v, node, 'store to %s' % ast.unparse(t))
            return self.hold(t.value, val, env)
        if isinstance(t, ast.Attribute):
            v = self.ev(t.value, env)
            if not (isinstance(t.value, ast.Name) and t.value.id == 'self'):
                self.mutate(v, node, 'store to %s' % ast.unparse(t))
            return self.hold(t.value, val, env)
        return env

    def hold(self, e, val, env):
        """a local container now holds val"""
        b = e
        n = 1
        while isinstance(b, (ast.Subscript, ast.Attribute)):
            b = b.value
            n += 1
        if isinstance(b, ast.Name) and val and b.id != 'self' and not self.arrayish(b, env) and not self.scalar_c(b.id):
            env = dict(env)
            env[b.id] = env.get(b.id, frozenset()) | held(val, n)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            env = self.walrus(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.ev(x, env) for x in s.value.elts]
                    for x, y in zip(t.elts, vs):
                        env = self.bind(x, y, env, s)
                else:
                    env = self.bind(t, v, env, s)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                env = self.bind(s.target, self.ev(s.value, env), env, s)
            return env
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id, frozenset())
                if any(h == 0 and d for r, h, d in old) and (self.arrayish(s.target, env) or isinstance(s.value, (ast.List, ast.ListComp))):
                    self.mutate(frozenset(x for x in old if x[2]), s, 'in-place %s' % ast.unparse(s))
                return env
            return self.bind(s.target, v, env, s)
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return self.added(s.value, env)
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.sum.ret |= {x for x in self.ev(s.value, env) if x[0][0] != '@'}
            return None
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(s, ast.Raise):
                return None
            if self.loops:
                self.loops[-1].append(env)
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            env = self.walrus(s.test, env)
            return self.join(self.block(s.body, env), self.block(s.orelse, env))
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, env)
        if isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.bind(i.optional_vars, v, env, s)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            e1 = self.block(s.body, env)
            mid = self.join(env, e1)
            out = self.block(s.orelse, e1) if e1 is not None else None
            for h in s.handlers:
                out = self.join(out, self.block(h.body, mid))
            if s.finalbody:
                r = self.block(s.finalbody, self.join(out, mid))
                return r if out is not None else None
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), s, ast.unparse(s))
                elif isinstance(t, ast.Name):
                    env = {k: v for k, v in env.items() if k != t.id}
            return env
        if isinstance(s, ast.FunctionDef):
            # body of a local function: may run any time later with the captured names
            sub = Fn(self.an, self.m, None, s)
            sub.sum = self.sum
            inner = dict(env)
            for p in params(s, False):
                inner[p] = frozenset()
            keep = set(self.sum.ret)
            sub.ps = self.ps
            sub.arr |= self.arr
            sub.block(s.body, inner)
            self.sum.ret = keep
            self.sites += sub.sites
            return env
        if isinstance(s, (ast.Assert,)):
            self.ev(s.test, env)
            return env
        return env

    loops = None

    def loop(self, s, env):
        if self.loops is None:
            self.loops = []
        if isinstance(s, ast.For):
            v = self.ev(s.iter, env)
            v = load(v)
        for _ in range(8):
            e = env
            if isinstance(s, ast.For):
                e = self.bind(s.target, v, e, s)
                if isinstance(s.iter, ast.Call) and name_of(s.iter.func) in ('range', 'xrange'):
                    e = self.bind(s.target, frozenset(), e, s)
                elif isinstance(s.iter, ast.Call) and name_of(s.iter.func) == 'enumerate' and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                    e = self.bind(s.target.elts[0], frozenset(), e, s)
            else:
                self.ev(s.test, e)
                e = self.walrus(s.test, e)
            self.loops.append([])
            out = self.block(s.body, e)
            for x in self.loops.pop():
                out = self.join(out, x)
            new = self.join(env, out)
            if new == env:
                break
            env = new
        if s.orelse:
            env = self.join(env, self.block(s.orelse, env))
        return env

    def walrus(self, e, env):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                env = self.bind(n.target, self.ev(n.value, env), env, n)
        return env

    def added(self, e, env):
        """x.append(v): a local container now holds v"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'add', 'insert', 'extend', 'appendleft') and e.args:
            return self.hold(e.func.value, self.ev(e.args[-1], env), env)
        return env

    # -- expressions
    def ev(self, e, env):
        N = frozenset()
        if e is None:
            return N
        if isinstance(e, ast.Name):
            return env.get(e.id, N)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            if e.attr in META_ATTR:
                return N
            if e.attr in VIEW_ATTR:
                return v
            return load(v)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            sl = e.slice
            if not v:
                return N
            if isinstance(sl, ast.Slice):
                return v if self.arrayish(e.value, env) else shallow(v)
            if isinstance(sl, ast.Tuple):
                return v if any(isinstance(x, ast.Slice) for x in sl.elts) and all(self.basic(x) for x in sl.elts) else N
            if isinstance(sl, ast.Compare) or (isinstance(sl, ast.UnaryOp) and isinstance(sl.op, ast.Invert)):
                return N
            if self.arrayish(e.value, env) and not self.basic(sl):
                return N
            if isinstance(e.value, ast.Name) and self.ctypes.get(e.value.id, '')[:3] in ('mv(', 'nd('):
                return N
            return load(v)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, ast.BoolOp):
            r = N
            for x in e.values:
                r |= self.ev(x, env)
            return r
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = N
            for x in e.elts:
                r |= shallow(self.ev(x.value, env)) if isinstance(x, ast.Starred) else held(self.ev(x, env))
            return r
        if isinstance(e, ast.Dict):
            r = N
            for k, x in zip(e.keys, e.values):
                r |= shallow(self.ev(x, env)) if k is None else held(self.ev(x, env))
            return r
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            sub = dict(env)
            for g in e.generators:
                v = self.ev(g.iter, sub)
                sub = self.bind(g.target, load(v), sub, e)
                for c in g.ifs:
                    self.ev(c, sub)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, sub)
                v = self.ev(e.value, sub)
            else:
                v = self.ev(e.elt, sub)
            return held(v)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        if isinstance(e, ast.NamedExpr):
            return self.ev(e.value, env)
        if isinstance(e, ast.Lambda):
            sub = {k: v for k, v in env.items() if k not in {a.arg for a in e.args.args}}
            self.ev(e.body, sub)
            return N
        if isinstance(e, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.JoinedStr, ast.FormattedValue, ast.Slice, ast.Await)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return N
        return N

    def basic(self, x):
        """an index that yields a view or an element rather than a copy"""
        if isinstance(x, ast.Slice):
            return True
        if isinstance(x, ast.Constant):
            return isinstance(x.value, int) or x.value is Ellipsis or x.value is None or isinstance(x.value, str)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
            return self.basic(x.operand)
        if isinstance(x, ast.Name):
            return any(isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and name_of(n.iter.func) in ('range', 'enumerate') and
                       x.id in {y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)} for n in ast.walk(self.f)) or self.scalar_c(x.id)
        if isinstance(x, ast.BinOp):
            return self.basic(x.left) or self.basic(x.right)
        return False

    def call(self, e, env):
        N = frozenset()
        f = e.func
        n = name_of(f)
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        kx = {k.arg: k.value for k in e.keywords}
        for k in OUT_KW & set(kw):
            self.mutate(kw[k], e, '%s= of %s' % (k, n))
        tgt, meth = self.an.target(self, f)
        if tgt is not None:
            s = self.an.sums.get(id(tgt))
            if s is None:
                return N
            ps = params(tgt, meth)
            got = dict(zip(ps, args))
            got.update({k: v for k, v in kw.items() if k in ps})
            for p, why in s.mut.items():
                x = dict(zip(ps, e.args)).get(p) or kx.get(p)
                if isinstance(x, ast.Name):
                    mine = {r for r, h, d in env.get(x.id, ()) if h == 0 and d}
                    for y, v in env.items():
                        if y != x.id and mine & {r for r, h, d in v if h == 0 and d}:
                            self.shared.append((x.id, y, e.lineno, n))
                if got.get(p):
                    self.mutate(got[p], e, 'passed to %s, which changes its argument %s (line %d: %s)' % (n, p, why[0], why[1]))
            r = N
            for p, h, d in s.ret:
                v = got.get(p, N)
                r |= held(v if d else load(v), h)
            return r
        allv = frozenset().union(*args, *kw.values()) if args or kw else N
        if isinstance(f, ast.Name) and f.id in self.nested:
            return N
        if isinstance(f, ast.Attribute):
            isnp = isinstance(f.value, ast.Name) and self.m.globals.get(f.value.id, ('',))[0] == 'import' and f.value.id not in env
            if not isnp and not (isinstance(f.value, ast.Attribute) and self.root(f.value) in ('np', 'numpy')):
                o = self.ev(f.value, env)
                if n in MUT_METH and o:
                    self.mutate(o, e, '%s()' % ast.unparse(f))
                    return load(o) if n in ELEM_METH else N
                if n in VIEW_METH:
                    return o
                if n == 'astype':
                    c = kx.get('copy')
                    return N if c is None or (isinstance(c, ast.Constant) and c.value) else o
                if n == 'byteswap' and (e.args or 'inplace' in kw):
                    self.mutate(o, e, 'byteswap')
                if n in ELEM_METH:
                    return held(shallow(o)) if n == 'items' else shallow(o) if n == 'values' else load(o)
                if n == 'copy':
                    return N if self.arrayish(f.value, env) else shallow(o)
                return N
        if n in ('array', 'nan_to_num') and isinstance(f, ast.Attribute):
            c = kx.get('copy')
            if isinstance(c, ast.Constant) and not c.value and args:
                if n == 'nan_to_num':
                    self.mutate(args[0], e, 'nan_to_num in place')
                return args[0]
            return N
        if n == 'astype' and args:
            c = kx.get('copy')
            return N if c is None or (isinstance(c, ast.Constant) and c.value) else args[0]
        if n in VIEW_FN and args:
            return args[0]
        if n in AT_FN and args and isinstance(f, ast.Attribute) and self.root(f) in ('np', 'numpy'):
            self.mutate(args[0], e, ast.unparse(f))
            return N
        if n in MUT_FN and args:
            self.mutate(args[MUT_FN[n]], e, '%s()' % n)
            return N
        if isinstance(f, ast.Attribute) and self.root(f) in ('np', 'numpy') and n in UFUNC and len(args) > UFUNC[n]:
            self.mutate(args[UFUNC[n]], e, 'output argument of %s' % n)
            return args[UFUNC[n]]
        if n in SHALLOW:
            if n == 'copy' and self.arr_first(e, env):
                return N
            r = N
            for v in args:
                r |= load(v) if n in ('next', 'min', 'max') else held(shallow(v)) if n in ('enumerate', 'zip') else shallow(v)
            for k, v in kw.items():
                r |= held(v)
            return r
        if n == 'map':
            return shallow(allv)
        return N

    def arr_first(self, e, env):
        return bool(e.args) and self.arrayish(e.args[0], env)

    def root(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
        return f.id if isinstance(f, ast.Name) else None


UFUNC = {k: 2 for k in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'fmax', 'fmin', 'greater', 'less', 'equal', 'not_equal', 'greater_equal', 'less_equal', 'logical_and', 'logical_or', 'power')}
UFUNC.update({k: 1 for k in ('negative', 'abs', 'absolute', 'fabs', 'sqrt', 'isnan', 'floor', 'ceil', 'logical_not', 'square')})


class Analysis:
    def __init__(self, P):
        self.P = P
        self.fns = {}
        for m in P.modules.values():
            if m.name.startswith('specs'):
                continue
            for s in ast.walk(m.tree):
                if isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            self.fns[id(x)] = (m, s, x)
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef):
                    self.fns[id(s)] = (m, None, s)
                elif isinstance(s, (ast.Try, ast.If)):
                    for x in ast.walk(s):
                        if isinstance(x, ast.FunctionDef):
                            self.fns.setdefault(id(x), (m, None, x))
        self.sums = {k: Sum() for k in self.fns}
        self.sites = {}
        self.shared = {}
        for _ in range(12):
            changed = False
            for k, (m, c, f) in self.fns.items():
                fn = Fn(self, m, c, f)
                s = fn.run()
                self.sites[k] = fn.sites
                self.shared[k] = fn.shared
                if s.key() != self.sums[k].key():
                    changed = True
                self.sums[k] = s
            if not changed:
                break

    def target(self, fn, f):
        if isinstance(f, ast.Name):
            if f.id in fn.nested:
                return None, False
            g = fn.m.globals.get(f.id)
            return self.of(fn.m, g)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'self' and fn.c is not None:
                for mm, cc in self.P.mro(fn.m, fn.c):
                    for s in cc.body:
                        if isinstance(s, ast.FunctionDef) and s.name == f.attr:
                            return s, True
                return None, False
            d = []
            x = f
            while isinstance(x, ast.Attribute):
                d.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                g = fn.m.globals.get(x.id)
                if g and g[0] == 'import':
                    r = self.P.resolve_dotted('.'.join([g[1]] + d[::-1]))
                    if r[0] == 'glob':
                        return self.of(r[1], r[1].globals[r[2]])
        return None, False

    def of(self, m, g):
        n = 0
        while g and g[0] == 'import' and n < 10:
            r = self.P.resolve_dotted(g[1])
            n += 1
            if r[0] != 'glob':
                return None, False
            m, g = r[1], r[1].globals[r[2]]
        if g and g[0] == 'fn' and id(g[1]) in self.sums:
            return g[1], False
        return None, False


def rule(ctx):
    P = ctx.P
    text = 'may-alias and effect summary: no store, in-place operation or mutating call reaches memory of a parameter other than the documented in-place targets'
    fresh = 'may-alias summary: the result never shares memory with an argument'
    an = Analysis(P)
    items = []
    for k, (m, c, f) in an.fns.items():
        ref = m.name + ':' + (c.name + '.' if c else '') + f.name
        if ref not in ALLOWED:
            continue
        ps = params(f, c is not None)
        s = an.sums[k]
        it = Item('unchanged_' + ref.split('.', 1)[1].replace('algorithms.', ''), PROP, 'ok', where=ref, functions={ref}, sites=an.sites.get(k, 0) + len(ps), rule=text)
        bad = [(why[0], p, why[1]) for p, why in s.mut.items() if p in ps and ps.index(p) not in ALLOWED[ref]]
        if bad:
            it.status = 'violation'
            bad.sort()
            it.where = '%s line %d' % (ref, bad[0][0])
            it.detail = '; '.join('argument %s changed at line %d: %s' % (p, l, w) for l, p, w in bad)
        items.append(it)
        if ref in FRESH:
            it = Item('fresh_' + ref.split('.', 1)[1].replace('algorithms.', ''), PROP, 'ok', where=ref, functions={ref}, sites=1, rule=fresh)
            sh = sorted({p for p, h, d in s.ret if h == 0 and d and p in ps})
            if sh:
                it.status = 'violation'
                it.detail = 'the result may share memory with argument ' + ', '.join(sh)
            items.append(it)
    return items


def shared(ctx):
    """an array changed in place is not still in use under another name as if it were a separate array"""
    P = ctx.P
    text = 'may-alias analysis of the tools: an array handed to an in-place algorithm is not used afterwards under a second name'
    an = Analysis(P)
    items = []
    for k, (m, c, f) in an.fns.items():
        if m.is_pyx or m.name.startswith('malstroem.algorithms'):
            continue
        ref = m.name + ':' + (c.name + '.' if c else '') + f.name
        calls = [x for x in ast.walk(f) if isinstance(x, ast.Call) and inplace(an, m, c, f, x)]
        if not calls:
            continue
        it = Item('separate_' + ref.split('.', 1)[1], PROP, 'ok', where=ref, functions={ref}, sites=len(calls), rule=text)
        for x, y, line, fn in an.shared.get(k, ()):
            def later(n):
                st = [z.lineno for z in ast.walk(f) if isinstance(z, ast.Name) and z.id == n and isinstance(z.ctx, ast.Store) and z.lineno > line]
                return [z.lineno for z in ast.walk(f) if isinstance(z, ast.Name) and z.id == n and isinstance(z.ctx, ast.Load) and z.lineno > line and not any(q <= z.lineno for q in st)]
            if later(x) and later(y):
                it.status = 'violation'
                it.where = '%s line %d' % (ref, line)
                it.detail = '%s changes %s, which shares memory with %s, used at line %d' % (fn, x, y, later(y)[0])
                break
        items.append(it)
    return items


def inplace(an, m, c, f, x):
    class Q:
        pass
    q = Q()
    q.m, q.c, q.nested = m, c, {}
    t, meth = an.target(q, x.func)
    return t is not None and bool(an.sums[id(t)].mut)


RULES = [(PROP, rule), (PROP, shared)]
