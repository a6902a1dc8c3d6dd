"""Abstract interpreter: python ast (and converted Cython ast) -> value graph.

Every statement is visited a bounded number of times; both branches of a condition are joined with ite terms, loops
are summarised by loop-carried variables (mu) or closed folds.  No path enumeration and no iteration of loops.
"""
import ast
import math

from .terms import (T, BOOLS, mk, C, TRUE, FALSE, NONE, ZERO, ONE, isc, cv, isnumc, isbool, truthy, not_, and_, or_, ite, bin_, un_, walk, subst,
                    cmp_, idx_, subst, rebuild, mentions, show, known_distinct, assume_not)


class Giveup(Exception):
    """construct outside the analysed subset: the obligation is undecided, not violated"""


UNDEF = mk('undef')
MISSING = mk('missing')


class Loop:
    def __init__(self, lid):
        self.id = lid
        self.count = None
        self.init = {}
        self.next = {}
        self.bools = set()   # variables that only ever hold booleans
        self.stop = FALSE
        self.events = []
        self.children = []
        self.node = None
        self.parent = None


class Event:
    __slots__ = ('guard', 'kind', 'chan', 'args', 'loop', 'node', 'fn')

    def __init__(self, guard, kind, chan, args, loop=None, node=None, fn=None):
        self.guard = guard
        self.kind = kind
        self.chan = chan
        self.args = args
        self.loop = loop
        self.node = node
        self.fn = fn

    def __repr__(self):
        return 'Ev[%s] %s(%s)' % (show(self.guard, 3), self.kind, ', '.join(show(a, 4) if isinstance(a, T) else str(a) for a in self.args))


def typelimit(d, name):
    """np.iinfo(d).max and the like"""
    d = DTYPES.get(d.args[0], d.args[0]) if d.op == 'builtin' else cv(d) if isc(d) else None
    if d in ('float32', 'float64'):
        m, e = (24, 127) if d == 'float32' else (53, 1023)
        top = math.ldexp(2 - 2.0 ** (1 - m), e)
        v = dict(max=top, min=-top, eps=2.0 ** (1 - m), tiny=math.ldexp(1.0, 1 - e)).get(name)
        return None if v is None else C(v)
    if isinstance(d, str) and d.lstrip('u').startswith('int') and d[-1].isdigit() and name in ('max', 'min'):
        n = int(d.lstrip('u')[3:])
        if d[0] == 'u':
            return C(2 ** n - 1 if name == 'max' else 0)
        return C(2 ** (n - 1) - 1 if name == 'max' else -2 ** (n - 1))
    return None


class Frame:
    def __init__(self, fid, mod, node, parent, name):
        self.fid = fid
        self.mod = mod
        self.node = node
        self.parent = parent      # fid of closure frame
        self.name = name
        self.globals = set()
        self.nonlocals = set()
        self.c = getattr(node, '_c', None) if node is not None else None
        self.hook = None          # generator consumer
        self.keep = False
        self.callnode = None      # statement the call stands in


BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
       ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}

# defaults of trailing arguments, by position
REQ = object()
METHSIG = {'WriteArray': [('array', REQ), ('xoff', 0), ('yoff', 0)], 'GetLayer': [('iLayer', 0)], 'GetLayerByIndex': [('iLayer', 0)],
           'Create': [('utf8_path', REQ), ('xsize', REQ), ('ysize', REQ), ('bands', 1), ('eType', REQ), ('options', None)],
           'CreateDataSource': [('utf8_path', REQ), ('options', None)], 'Open': [('utf8_path', REQ), ('update', 0)],
           'CreateLayer': [('name', REQ), ('srs', None), ('geom_type', REQ), ('options', None)],
           'SetFrom': [('other', REQ), ('forgiving', 1)], 'CreateField': [('field_def', REQ), ('approx_ok', 1)],
           'GetRasterBand': [('nBand', REQ)], 'ExportToJson': [('as_object', False), ('options', None)]}


def methargs(name, args, kw):
    """arguments of a library method by position, without those at their default"""
    sig = METHSIG.get(name)
    if sig is None:
        return args, kw
    args, kw = list(args), dict(kw)
    for p, d in sig[len(args):]:
        if p in kw:
            args.append(kw.pop(p))
        elif d is not REQ and any(q in kw for q, _ in sig[len(args):]):
            args.append(C(d))
        else:
            break
    while args and len(args) <= len(sig) and not kw:
        d = sig[len(args) - 1][1]
        x = args[-1]
        if d is REQ or x is not NONE and not (isc(x) and type(cv(x)) in (int, bool) and d is not None and cv(x) == d) or x is NONE and d is not None:
            break
        args.pop()
    return args, kw


EXTCONST = {'numpy.inf': float('inf'), 'numpy.Inf': float('inf'), 'numpy.PINF': float('inf'), 'math.inf': float('inf'),
            'numpy.NINF': float('-inf'), 'numpy.Infinity': float('inf'), 'math.pi': 3.141592653589793, 'numpy.pi': 3.141592653589793,
            'numpy.e': 2.718281828459045, 'math.e': 2.718281828459045, 'numpy.newaxis': None,
            'osgeo.gdal.GA_ReadOnly': 0, 'osgeo.gdal.GA_Update': 1}


def extconst(name):
    return C(EXTCONST[name]) if name in EXTCONST else mk('builtin', name)


PURE_METHODS = {'get', 'keys', 'values', 'items', 'split', 'strip', 'lstrip', 'rstrip', 'replace', 'format', 'join',
                'lower', 'upper', 'startswith', 'endswith', 'ravel', 'reshape', 'flatten', 'astype', 'copy', 'min', 'max',
                'sum', 'mean', 'any', 'all', 'tolist', 'item', 'nonzero', 'argmin', 'argmax', 'cumsum', 'round', 'view',
                'transpose', 'count', 'index', 'encode', 'decode', 'isdigit', 'resolve', 'as_posix', 'ExportToJson',
                'ExportToWkt', 'get_npy_array', 'searchsorted', 'clip', 'squeeze', 'rpartition', 'partition', 'isoformat',
                'GetRasterBand', 'GetGeoTransform', 'GetProjection', 'GetProjectionRef', 'GetNoDataValue', 'GetMaskBand',
                'GetSpatialRef', 'GetLayerDefn', 'GetFieldCount', 'GetLayerCount', 'GetFieldDefn', 'GetDefnRef', 'GetLayerByName', 'GetLayerByIndex',
                'astimezone', 'dot', 'std', 'var', 'prod', 'repeat', 'title', 'zfill', 'find', 'isalpha'}
SETTERS = {'SetGeoTransform', 'SetProjection', 'SetNoDataValue', 'SetSpatialRef', 'SetDescription', 'SetMetadata'}
IGNORED_METHODS = {'FlushCache', 'info', 'debug', 'warning', 'error', 'exception', 'critical', 'warn', 'log'}

CINT32 = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'np.int_t', 'np.int32_t',
          'np.int64_t', 'np.uint32_t', 'np.uint64_t', 'np.intp_t', 'Py_ssize_t', 'size_t', 'ssize_t', 'np.npy_intp',
          'unsigned', 'signed int', 'np.uint_t', 'bint', 'cython.int', 'cython.long'}
CSMALL = {'np.uint8_t': 'uint8', 'np.int8_t': 'int8', 'np.uint16_t': 'uint16', 'np.int16_t': 'int16', 'char': 'int8',
          'unsigned char': 'uint8', 'short': 'int16', 'unsigned short': 'uint16'}
CFLOAT = {'np.float32_t': 'float32', 'float': 'float32', 'np.float64_t': 'float64', 'double': 'float64',
          'np.float_t': 'float64', 'np.double_t': 'float64'}

DTYPES = {'numpy.float32': 'float32', 'numpy.float64': 'float64', 'numpy.int32': 'int32', 'numpy.int64': 'int64',
          'numpy.uint8': 'uint8', 'numpy.int8': 'int8', 'numpy.uint16': 'uint16', 'numpy.int16': 'int16',
          'numpy.uint32': 'uint32', 'numpy.uint64': 'uint64', 'numpy.bool_': 'bool', 'bool': 'bool', 'float': 'float64',
          'int': 'int64', 'numpy.double': 'float64', 'numpy.single': 'float32', 'numpy.int_': 'int64',
          'numpy.float16': 'float16', 'numpy.intp': 'int64', 'numpy.ubyte': 'uint8', 'numpy.bool': 'bool'}
DTNAMES = set(DTYPES.values())

CANON = {'numpy.amax': 'amax', 'numpy.max': 'amax', 'numpy.amin': 'amin', 'numpy.min': 'amin', 'numpy.absolute': 'abs',
         'numpy.abs': 'abs', 'numpy.fabs': 'abs', 'math.fabs': 'abs', 'math.sqrt': 'sqrt', 'numpy.sqrt': 'sqrt',
         'math.floor': 'floor', 'numpy.floor': 'floor', 'math.ceil': 'ceil', 'numpy.ceil': 'ceil',
         'numpy.sum': 'asum', 'numpy.isnan': 'isnan', 'math.isnan': 'isnan', 'numpy.trunc': 'trunc',
         'numpy.round': 'round', 'numpy.around': 'round', 'numpy.round_': 'round', 'numpy.rint': 'round',
         'numpy.maximum': 'max', 'numpy.minimum': 'min', 'numpy.fmax': 'max', 'numpy.fmin': 'min',
         'numpy.logical_and': 'land', 'numpy.logical_or': 'lor', 'numpy.logical_not': 'lnot'}

NPSIG = {'numpy.histogram': ['a', 'bins', 'range', 'density', 'weights'], 'numpy.cumsum': ['a', 'axis', 'dtype', 'out'],
         'numpy.interp': ['x', 'xp', 'fp', 'left', 'right', 'period'], 'numpy.concatenate': ['arrays', 'axis'],
         'numpy.isclose': ['a', 'b', 'rtol', 'atol', 'equal_nan'], 'numpy.nextafter': ['x1', 'x2'],
         'numpy.bincount': ['x', 'weights', 'minlength'], 'scipy.ndimage.label': ['input', 'structure', 'output'],
         'numpy.can_cast': ['from_', 'to', 'casting'], 'numpy.arange': ['start', 'stop', 'step', 'dtype'],
         'osgeo.ogr.Open': ['utf8_path', 'update'], 'osgeo.gdal.Open': ['utf8_path', 'eAccess'],
         'osgeo.gdal.Polygonize': ['srcBand', 'maskBand', 'outLayer', 'iPixValField', 'options', 'callback', 'callback_data'],
         'osgeo.ogr.FieldDefn': ['name_null_ok', 'field_type'],
         'numpy.amax': ['a', 'axis'], 'numpy.amin': ['a', 'axis'], 'numpy.max': ['a', 'axis'], 'numpy.min': ['a', 'axis'],
         'numpy.sum': ['a', 'axis', 'dtype']}

PURE_EXT = ('numpy.', 'msa.', 'math.', 'os.path.', 'scipy.', 'itertools.', 'json.dumps', 'json.loads', 'pathlib.', 'operator.',
            'functools.', 'fractions.', 'collections.', 'enum.', 'string.', 're.')
PURE_EXT_EXACT = {'osgeo.gdal.ApplyGeoTransform', 'osgeo.gdal.GetDataTypeSize', 'osgeo.gdal.InvGeoTransform', 'osgeo.gdal.GetDriverByName', 'osgeo.ogr.GetDriverByName', 'os.listdir', 'os.scandir', 'os.getcwd', 'os.stat', 'glob.glob', 'glob.iglob'}
PURE_BUILTINS = {'len', 'abs', 'round', 'repr', 'ord', 'chr', 'hash', 'divmod', 'pow', 'type', 'id', 'format', 'sorted',
                 'set', 'frozenset', 'slice', 'complex', 'bytes', 'hasattr', 'issubclass', 'isinstance', 'callable', 'vars',
                 'object', 'iter', 'bin', 'hex', 'map', 'filter', 'next', 'print', 'super'}

EXC = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'RuntimeError', 'NotImplementedError',
       'ImportError', 'OSError', 'IOError', 'StopIteration', 'ArithmeticError', 'ZeroDivisionError', 'FileExistsError',
       'FileNotFoundError', 'AttributeError', 'LookupError', 'OverflowError', 'RuntimeWarning', 'Warning', 'UserWarning',
       'BaseException', 'SystemExit', 'KeyboardInterrupt', 'PermissionError', 'NotADirectoryError', 'UserWarning'}

BUILTINS = PURE_BUILTINS | EXC | {'range', 'enumerate', 'zip', 'min', 'max', 'sum', 'any', 'all', 'int', 'float', 'str',
                                  'bool', 'list', 'tuple', 'dict', 'reversed', 'getattr', 'setattr', 'open', 'eval', 'exec',
                                  'delattr', 'property', 'staticmethod', 'classmethod', 'input', 'locals', 'globals',
                                  '__import__', 'compile', 'exit', 'quit', 'NotImplemented', 'Ellipsis', '__name__', '__file__'}


FULLSLICE = mk('slice', NONE, NONE, NONE)


def structlike(v):
    """a struct, or a choice between structs"""
    if v.op == 'ite':
        return structlike(v.args[1]) and structlike(v.args[2])
    return v.op == 'struct'


class Interp:
    MAXUNROLL = 64

    def __init__(self, project, boundary=None, models=None, inline_depth=60, purefns=()):
        self.p = project
        self.boundary = boundary or {}     # 'mod:func' -> dict(mut=[param names], fresh=bool, multi=n)
        self.models = models or {}         # 'mod:Class' -> 'specmod:Class'
        self.S = {}
        self.guard = TRUE
        self.events = []
        self.loops = {}
        self.frames = []
        self.loopstack = []
        self.recnames = {}
        self.ctr = {'oid': 0, 'lid': 0, 'fid': 0, 'flag': 0}
        self.occ = {}
        self.fns = {}
        self.flags = []
        self.modframes = {}
        self.modval = {}
        self.steps = 0
        self.maxsteps = 200000
        self.inline_depth = inline_depth
        self.analysed = set()
        self.callsites = 0
        self.purefns = set(purefns)
        self.node = None
        self.prestate = {}
        self.owner = {}
        self.loc = {}

    # ------------------------------------------------------------------ ids
    def fresh(self, k):
        self.ctr[k] += 1
        return self.ctr[k]

    def newref(self, content):
        r = mk('ref', self.fresh('oid'))
        self.S[('o', r)] = content
        return r

    # ------------------------------------------------------------------ objects
    def get_path(self, t):
        comps = []
        while True:
            if t in self.owner and self.owner[t] is not t:
                t = self.owner[t]
                continue
            if t.op == 'idx':
                comps.append(t.args[1])
                t = t.args[0]
            elif t.op == 'store':
                t = t.args[0]
            elif t.op in ('mu', 'fin') and isinstance(t.args[1], tuple) and t.args[1][0] == 'o':
                t = t.args[1][1]
            elif t.op == 'fold' and t.args[0] in ('cat', 'upd'):
                t = t.args[2]
            else:
                break
        comps.reverse()
        return t, comps

    def content(self, root):
        return self.S.get(('o', root), root)

    def rel(self, q, p):
        """compare a store path q with a read path p: 'prefix' | 'diff' | None"""
        for a, b in zip(q, p):
            if a is b:
                if a.op == 'slice' or a.op == 'mcall':
                    return None
                continue
            if a.op == 'slice' or b.op == 'slice':
                return None
            if (a.op == 'an') != (b.op == 'an'):
                return 'diff'
            if known_distinct(a, b) is True:
                return 'diff'
            if a.op == 'an' and b.op == 'an':
                return 'diff'
            # x + c1 vs x + c2
            if self._offset_diff(a, b):
                return 'diff'
            return None
        return 'prefix' if len(q) <= len(p) else None

    def _offset_diff(self, a, b):
        def sp(t):
            if t.op == 'bin' and t.args[0] == '+' and isnumc(t.args[2]):
                return t.args[1], cv(t.args[2])
            return t, 0
        x, m = sp(a)
        y, n = sp(b)
        return x is y and m != n and not isnumc(x)

    def read(self, cont, path, depth=0):
        path = list(path)
        n = 0
        while True:
            n += 1
            if not path:
                return cont
            if n > 4000 or depth > 200:
                raise Giveup('read too deep')
            op = cont.op
            if op == 'store':
                q = cont.args[1].args
                r = self.rel(q, path)
                if r == 'diff' and any(isc(a) and isc(b) and isinstance(cv(a), int) and isinstance(cv(b), int) and (cv(a) < 0) != (cv(b) < 0)
                                       for a, b in zip(q, path)):
                    b = cont
                    while b.op == 'store':
                        b = b.args[0]
                    if b.op in ('full', 'cast', 'app', 'fold'):
                        # a[-1] is a[0] when there is only one
                        return self._nest(cont, path)
                if r == 'prefix':
                    cont = cont.args[2]
                    path = path[len(q):]
                    continue
                if r == 'diff':
                    cont = cont.args[0]
                    continue
                return self._nest(cont, path)
            if op == 'ref':
                if ('o', cont) not in self.S:
                    return self._nest(cont, path)
                cont = self.content(cont)
                continue
            if op == 'ite':
                return ite(cont.args[0], self.read(cont.args[1], path, depth + 1), self.read(cont.args[2], path, depth + 1))
            if op in ('tuple', 'list'):
                c = path[0]
                if isc(c) and isinstance(cv(c), int):
                    k = cv(c)
                    if -len(cont.args) <= k < len(cont.args):
                        cont = cont.args[k]
                        path = path[1:]
                        continue
                    return MISSING
                if c.op == 'slice' and all(isc(a) for a in c.args):
                    cont = idx_(cont, c)
                    path = path[1:]
                    continue
                return self._nest(cont, path)
            if op == 'fold' and cont.args[0] == 'cat' and path[0].op == 'lv' and cont.args[2].op == 'list' and not cont.args[2].args:
                # an element, counted from the start, of a list with one element per round
                fb = cont.args[3]
                if fb.op == 'cat' and fb.args[0].op == 'hole' and fb.args[1].op == 'list' and len(fb.args[1].args) == 1:
                    cont = subst(fb.args[1].args[0], {mk('lv', cont.args[1]): path[0]})
                    path = path[1:]
                    continue
            if op == 'cat' and isc(path[0]) and isinstance(cv(path[0]), int):
                k = cv(path[0])
                if k < 0 and cont.args[1].op == 'list' and len(cont.args[1].args) >= -k:
                    cont = cont.args[1].args[k]
                    path = path[1:]
                    continue
                if k >= 0 and cont.args[0].op == 'list' and len(cont.args[0].args) > k:
                    cont = cont.args[0].args[k]
                    path = path[1:]
                    continue
                if k >= 0 and cont.args[0].op == 'list' and cont.args[1].op != 'list':
                    path[0] = C(k - len(cont.args[0].args))
                    cont = cont.args[1]
                    continue
                return self._nest(cont, path)
            if op == 'dict':
                c = path[0]
                hit = None
                allk = True
                for i in range(0, len(cont.args), 2):
                    if cont.args[i] is c:
                        hit = cont.args[i + 1]
                    elif known_distinct(cont.args[i], c) is not True:
                        allk = False
                if hit is not None and allk:
                    cont = hit
                    path = path[1:]
                    continue
                if allk:
                    return MISSING
                return self._nest(cont, path)
            if op == 'struct':
                c = path[0]
                if c.op == 'an':
                    c = C(c.args[0])
                if isc(c) and isinstance(cv(c), str):
                    for i in range(1, len(cont.args), 2):
                        if cont.args[i] == cv(c):
                            cont = cont.args[i + 1]
                            path = path[1:]
                            break
                    else:
                        return MISSING
                    continue
                if isc(c) and isinstance(cv(c), int) and cont.args[0].startswith('nt:'):
                    k = cv(c)
                    cont = cont.args[2 + 2 * k]
                    path = path[1:]
                    continue
                return self._nest(cont, path)
            if op == 'full':
                sh = cont.args[0]
                nd = len(sh.args) if sh.op == 'tuple' else None
                ints = [c for c in path if not (isc(c) and isinstance(cv(c), str)) and c.op != 'an']
                if nd is not None and len(ints) == nd and all(self.scalarish(c) for c in ints):
                    return cont.args[1]
                return self._nest(cont, path)
            if op == 'obj':
                return MISSING
            if op == 'ddict':
                cont = cont.args[0]
                path = path[1:]
                continue
            if op == 'cast' and cont.args[1].op in ('full', 'store', 'sym', 'cast', 'idx', 'app') and all(c.op not in ('slice',) for c in path):
                # elementwise
                return self._nest(cont, path)
            return self._nest(cont, path)

    def scalarish(self, c):
        return c.op in ('lv',) or (isc(c) and isinstance(cv(c), int)) or (c.op == 'bin' and self.scalarish(c.args[1]) and self.scalarish(c.args[2]))

    def _nest(self, cont, path):
        for c in path:
            cont = idx_(cont, c)
        return cont

    def load(self, x, comp):
        """x[comp] (comp: term; 'an' terms select attributes)"""
        if x.op == 'ite':
            a, b = x.args[1], x.args[2]
            return ite(x.args[0], self.load(a, comp), self.load(b, comp))
        comps = [comp]
        if comp.op == 'tuple':
            comps = list(comp.args)
        root, path = self.get_path(x)
        cell = self.S.get(('o', root))
        if x.op in ('store', 'mu', 'fin', 'fold'):
            return self.read(x, comps)
        if cell is None:
            if root.op in ('tuple', 'list', 'struct', 'dict', 'cat', 'fold', 'full'):
                return self.read(x, comps)
            if x.op in ('store', 'mu', 'fin', 'fold'):
                return self.read(x, comps)
            t = x
            for c in comps:
                t = idx_(t, c)
            return t
        full = path + comps
        # slices in path: compose simple view x[a:b][i] only for full slices
        r = self.read(cell, full)
        if root.op == 'ref' and r.op == 'idx' and any(c.op == 'slice' for c in full) and not self.islist(cell):
            # view of an array: keep denoting it through its owner
            t = x
            for c in comps:
                t = mk('idx', t, c)
            return t
        if root.op == 'ref' and cell.op in ('fold', 'store') and r.op == 'idx':
            b = r
            while b.op == 'idx':
                b = b.args[0]
            if b.op in ('fold', 'store'):
                self.owner[b] = root
        if self.container(r):
            # a container held by value inside an object: keep denoting it through its owner
            t = x
            for c in comps:
                t = mk('idx', t, c)
            return t
        return r

    def container(self, r):
        if r.op in ('list', 'dict', 'ddict', 'cat', 'obj'):
            return True
        if r.op in ('store', 'fold'):
            b = r
            while b.op in ('store', 'fold'):
                b = b.args[0] if b.op == 'store' else b.args[2]
            return b.op in ('list', 'dict', 'ddict', 'cat', 'obj') or (r.op == 'fold' and r.args[0] == 'cat')
        return False

    def store(self, x, comps, val):
        """x[comps] = val"""
        if x.op == 'ite':
            def f(y):
                return lambda: self.store(y, comps, val)
            self.branch(x.args[0], f(x.args[1]), f(x.args[2]))
            return
        root, path = self.get_path(x)
        if root.op in ('dict', 'list', 'ddict', 'c', 'cat'):
            x = self.reown(x)
            if x is None:
                return      # element of an empty container: raises
            root, path = self.get_path(x)
        if root.op == 'ref' and ('o', root) not in self.S:
            raise Giveup('store to dead object')
        if root.op in ('dict', 'list', 'ddict', 'c', 'cat', 'struct'):
            raise Giveup('store into a value')
        root = self.reref(root, len(path))
        full = list(path) + list(comps)
        if self.cstruct(val):
            x = val
            while x.op == 'ite':
                x = x.args[1]

            def field(v, i):
                return v.args[i] if v.op == 'struct' else ite(v.args[0], field(v.args[1], i), field(v.args[2], i))
            for i in range(1, len(x.args), 2):
                self._store(root, full + [C(x.args[i])], field(val, i + 1))
            return
        self._store(root, full, val)

    def reref(self, root, n):
        """element containers of an opaque result are reached by the result's term: a write through them is a write into the object that holds it"""
        if root.op not in ('app', 'mcall') or ('o', root) in self.S:
            return root
        if n and root.op == 'app' and root.args[0] in ('sorted', 'listreverse', 'seqcopy'):
            raise Giveup('write through the elements of a copied list')
        held = [k[1] for k, v in self.S.items() if k[0] == 'o' and isinstance(v, T) and k[1].op == 'ref' and self.get_path(v)[0] is root]
        if not held:
            return root
        if len(held) > 1:
            raise Giveup('write into a value held by several objects')
        self.owner[root] = held[0]
        return held[0]

    def cstruct(self, v):
        if v.op == 'ite':
            return self.cstruct(v.args[1]) and self.cstruct(v.args[2])
        return v.op == 'struct' and not v.args[0].startswith('nt:')

    def _store(self, root, full, val):
        cont = self.content(root)
        # writing into a nested ref object: redirect to that object
        for n in range(1, len(full)):
            sub = self.read(cont, full[:n]) if cont.op in ('store', 'dict', 'list', 'obj', 'struct') else None
            if sub is not None and sub.op == 'ref':
                self._store(sub, full[n:], val)
                return
        self.S[('o', root)] = self.mkstore(cont, full, val)

    def mkstore(self, cont, full, val):
        if len(full) > 1 and isc(full[-1]) and isinstance(cv(full[-1]), str):
            full = [c for c in full if c is not FULLSLICE]
        q = mk('tuple', *full)
        if cont.op == 'store' and cont.args[1] is q and not any(c.op == 'slice' for c in full):
            return mk('store', cont.args[0], q, val)
        if cont.op == 'dict' and len(full) == 1 and isc(full[0]):
            a = list(cont.args)
            if all(isc(a[i]) for i in range(0, len(a), 2)):
                for i in range(0, len(a), 2):
                    if a[i] is full[0]:
                        a[i + 1] = val
                        return mk('dict', *a)
                return mk('dict', *(a + [full[0], val]))
        if cont.op == 'list' and len(full) == 1 and isc(full[0]) and isinstance(cv(full[0]), int):
            k = cv(full[0])
            if -len(cont.args) <= k < len(cont.args):
                a = list(cont.args)
                a[k] = val
                return mk('list', *a)
        return mk('store', cont, q, val)

    def reown(self, x):
        """a path into the value of an object: the object that holds this value"""
        t = x
        while t.op == 'idx':
            t = t.args[0]
        if t.op in ('list', 'dict') and not t.args and t is not x:
            return None

        def has(v):
            return v is t or (v.op == 'ite' and (has(v.args[1]) or has(v.args[2])))
        own = [k[1] for k, v in self.S.items() if k[0] == 'o' and k[1].op == 'ref' and has(v)]
        if len(own) == 1:
            self.owner[t] = own[0]
        return x

    def detach(self, o, c):
        """elements of o read so far keep their value when o is shortened or reordered"""
        root, path = self.get_path(o)
        if path:
            return
        bases = [o, root]
        if c.op in ('mu', 'fin', 'fold', 'store', 'cat'):
            bases.append(c)
        m = {}
        for k, v in list(self.S.items()):
            if k == ('o', root) or not isinstance(v, T):
                continue
            for t in walk([v]).values():
                if t.op == 'idx' and t not in m and any(t.args[0] is b for b in bases):
                    m[t] = mk('idx', mk('snap', c), t.args[1])
        if not m:
            return
        memo = {}
        for k, v in list(self.S.items()):
            if k == ('o', root) or not isinstance(v, T):
                continue
            self.S[k] = subst(v, m, memo)

    def setcontent(self, x, content):
        if x.op == 'ite':
            self.branch(x.args[0], lambda: self.setcontent(x.args[1], content), lambda: self.setcontent(x.args[2], content))
            return
        root, path = self.get_path(x)
        if root.op in ('dict', 'list', 'ddict', 'c', 'cat'):
            x = self.reown(x)
            if x is None:
                return
            root, path = self.get_path(x)
        if root.op in ('dict', 'list', 'ddict', 'c', 'cat', 'struct'):
            raise Giveup('store into a value')
        root = self.reref(root, len(path))
        if not path:
            self.S[('o', root)] = content
        else:
            cur = self.read(self.content(root), path)
            if cur.op == 'ref':
                self.S[('o', cur)] = content
            else:
                self._store(root, path, content)

    def cur(self, x):
        """current content of the object x denotes (value if it is not an object)"""
        if x.op == 'ite':
            return ite(x.args[0], self.cur(x.args[1]), self.cur(x.args[2]))
        root, path = self.get_path(x)
        cell = self.S.get(('o', root))
        if cell is None:
            return x
        if not path:
            if x.op in ('store', 'mu', 'fin', 'fold'):
                return x
            c = cell
        else:
            c = self.read(cell, path)
            if not self.container(c) and not self._mut_inside(cell, path):
                return x
        if c.op == 'ref' and c is not x:
            return self.cur(c)
        return c

    def _mut_inside(self, cell, path):
        """has the object at path been written into (a store strictly below path)?"""
        st = [cell]
        seen = set()
        while st:
            c = st.pop()
            if c.id in seen:
                continue
            seen.add(c.id)
            if c.op == 'store':
                q = c.args[1].args
                if len(q) > len(path) and self.rel(q[:len(path)], path) != 'diff':
                    return True
                st.append(c.args[0])
            elif c.op == 'ite':
                st += [c.args[1], c.args[2]]
            elif c.op == 'fold':
                st += [c.args[2], c.args[3]]
            elif c.op in ('mu', 'fin'):
                L = self.loops.get(c.args[0])
                if L is not None:
                    for d in (L.init, L.next):
                        if c.args[1] in d:
                            st.append(d[c.args[1]])
                    if c.args[1] not in L.next:
                        return True
            elif c.op == 'ref':
                if ('o', c) in self.S:
                    st.append(self.S[('o', c)])
        return False

    # values computed from their arguments: the arguments were read when the value was computed
    COMPUTED = {'bin', 'un', 'cmp', 'where', 'app', 'mcall', 'and', 'or', 'not', 'cast'}

    def freeze(self, t, memo=None, depth=0, val=False):
        """replace references by their current content, deeply; val: inside a computed value (objects that are not references were read earlier)"""
        if memo is None:
            memo = {}
        r = memo.get((t.id, val))
        if r is not None:
            return r
        if depth > 300:
            raise Giveup('freeze depth')
        key = (t.id, val)
        if t.op == 'ref':
            cell = self.S.get(('o', t))
            if cell is None:
                memo[key] = t
                return t
            memo[key] = mk('cyc')
            r = self.freeze(cell, memo, depth + 1, cell.op in self.COMPUTED)
        elif t.op in ('c', 'lv', 'mu', 'fin', 'hole'):
            r = t
        elif t.op == 'bound':
            r = t
        elif (t.op == 'sym' or t.op in self.COMPUTED) and not val and ('o', t) in self.S:
            cell = self.S[('o', t)]
            memo[key] = self._freeze_args(t, memo, depth, True)
            r = self.freeze(cell, memo, depth + 1, cell.op in self.COMPUTED)
        elif t.op == 'idx':
            c = self.cur(t) if not val else t
            if c is not t:
                memo[key] = t
                r = self.freeze(c, memo, depth + 1, val)
            else:
                # scalar read earlier from an object: keep the value as it was read
                root, path = self.get_path(t)
                if root.op == 'ref' and t.args[0].op == 'ref':
                    r = self._freeze_args(t, memo, depth, val)
                else:
                    r = mk('idx', self._freeze_noroot(t.args[0], memo, depth, val), self.freeze(t.args[1], memo, depth + 1, val))
        else:
            r = self._freeze_args(t, memo, depth, val or t.op in self.COMPUTED)
        memo[key] = r
        return r

    def _freeze_noroot(self, t, memo, depth, val=False):
        """freeze inside a path without re-reading the (possibly modified) root object"""
        if t.op == 'idx':
            return mk('idx', self._freeze_noroot(t.args[0], memo, depth, val), self.freeze(t.args[1], memo, depth + 1, val))
        if t.op == 'sym' or t.op in self.COMPUTED:
            return self._freeze_args(t, memo, depth, True) if t.op != 'sym' else t
        return self.freeze(t, memo, depth + 1, val)

    def _freeze_args(self, t, memo, depth, val=False):
        if t.op == 'store':
            # base of a store chain is a snapshot: do not re-read an opaque root
            b = t.args[0]
            fb = b if b.op == 'sym' else (self._freeze_args(b, memo, depth + 1, True) if b.op in self.COMPUTED else self.freeze(b, memo, depth + 1, val))
            return mk('store', fb, self._freeze_args(t.args[1], memo, depth + 1, True), self.freeze(t.args[2], memo, depth + 1, val))
        ch = False
        na = []
        for i, a in enumerate(t.args):
            if isinstance(a, T):
                if t.op == 'fold' and a.op == 'sym':
                    b = a
                else:
                    b = self.freeze(a, memo, depth + 1, val)
                ch = ch or b is not a
                na.append(b)
            else:
                na.append(a)
        return rebuild(t.op, na) if ch else t

    # ------------------------------------------------------------------ control
    def live(self):
        fl = [self.S[('f', f)] for f in self.flags if self.S.get(('f', f), FALSE) is not FALSE]
        if not fl:
            return TRUE
        return not_(or_(*fl))

    def setflag(self, f):
        self.S[('f', f)] = TRUE

    def setx(self, k, v):
        self.S[k] = v

    def branch(self, c, f, g=None, islive=False):
        c = truthy(c)
        if c is TRUE:
            f()
            return
        if c is FALSE:
            if g:
                g()
            return
        S0 = self.S
        g0 = self.guard
        self.S = dict(S0)
        self.guard = and_(g0, c)
        if islive:
            for fl in self.flags:
                if self.S.get(('f', fl), FALSE) is not FALSE:
                    self.S[('f', fl)] = FALSE
            lits = {}
            for a in (c.args if c.op == 'and' else (c,)):
                lits[a] = True
                lits[not_(a)] = False
            memo = {}
            for k, v in self.S.items():
                if k[0] in ('v', 'o', 'g') and v.op in ('ite', 'store'):
                    n = prune(v, lits, memo)
                    if n is not v:
                        self.S[k] = n
        if self.guard is not FALSE:
            f()
        A = self.S
        self.S = dict(S0)
        self.guard = and_(g0, not_(c))
        if g and self.guard is not FALSE:
            g()
        B = self.S
        self.guard = g0
        M = dict(A)
        for k in set(A) | set(B):
            a = A.get(k)
            b = B.get(k)
            if a is b:
                continue
            if a is None or b is None:
                if k[0] == 'f':
                    a = a or FALSE
                    b = b or FALSE
                elif k[0] == 'x':
                    M[k] = a or b
                    continue
                elif k[0] == 'o':
                    root = k[1]
                    if root.op == 'ref':
                        M[k] = a if a is not None else b
                        continue
                    a = a if a is not None else root
                    b = b if b is not None else root
                elif k[0] == 'g':
                    a = a if a is not None else S0.get(k, UNDEF)
                    b = b if b is not None else S0.get(k, UNDEF)
                    if UNDEF in (a, b):
                        d = self.globalval(k[1], k[2], assigned=False)
                        a = d if a is UNDEF else a
                        b = d if b is UNDEF else b
                else:
                    a = a if a is not None else UNDEF
                    b = b if b is not None else UNDEF
                    # a name only defined on one side: keep the defined value (use of the other is a NameError)
                    if a is UNDEF or b is UNDEF:
                        M[k] = mk('ite', c, a, b) if k[0] != 'v' else ite(c, a, b)
                        continue
            M[k] = self.joinobj(c, a, b) if k[0] == 'o' and a.op == 'store' and b.op == 'store' else ite(c, a, b)
        self.S = M

    def joinobj(self, c, a, b):
        """instances are joined attribute by attribute"""
        fa, fb = self.attrs(a), self.attrs(b)
        if fa is None or fb is None or fa[0] is not fb[0] or set(fa[1]) != set(fb[1]):
            return self.joinstores(c, a, b)
        r = fa[0]
        for k, v in fa[1].items():
            w = fb[1][k]
            r = mk('store', r, mk('tuple', k), v if v is w else ite(c, v, w))
        return r

    def joinstores(self, c, a, b):
        """both branches write the same places last, in the same order: one write each of the chosen value"""
        ch = []
        while a is not b and a.op == 'store' and b.op == 'store' and a.args[1] is b.args[1] and len(ch) < 20:
            ch.append((a.args[1], a.args[2], b.args[2]))
            a, b = a.args[0], b.args[0]
            if a is b:
                break
        if a is not b:
            for k, v, w in reversed(ch):
                a, b = mk('store', a, k, v), mk('store', b, k, w)
            return ite(c, a, b)
        for k, v, w in reversed(ch):
            a = mk('store', a, k, ite(c, v, w))
        return a

    def attrs(self, t):
        ch = []
        while t.op == 'store' and len(t.args[1].args) == 1 and t.args[1].args[0].op == 'an':
            ch.append((t.args[1].args[0], t.args[2]))
            t = t.args[0]
        if t.op != 'obj':
            return None
        return t, dict(reversed(ch))

    def block(self, stmts):
        for i, s in enumerate(stmts):
            self.stmt(s)
            lv = self.live()
            if lv is FALSE:
                return
            if lv is not TRUE:
                rest = stmts[i + 1:]
                if rest:
                    self.branch(lv, lambda: self.block(rest), None, islive=True)
                return

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Giveup('step budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Giveup('statement ' + type(s).__name__)
        old = self.node
        self.node = s
        m(s)
        self.node = old

    # ------------------------------------------------------------------ names
    @property
    def frame(self):
        return self.frames[-1]

    def frame_by_id(self, fid):
        return self.framereg[fid]

    framereg = None

    def newframe(self, mod, node, parent, name):
        if self.framereg is None:
            self.framereg = {}
        f = Frame(self.fresh('fid'), mod, node, parent, name)
        f.callnode = self.node
        self.framereg[f.fid] = f
        return f

    def lookup(self, name):
        f = self.frame
        if name not in f.globals:
            x = f
            while x is not None:
                k = ('v', x.fid, name)
                if k in self.S:
                    return self.S[k]
                x = self.framereg.get(x.parent) if x.parent is not None else None
        return self.globalval(f.mod.name, name)

    def globalval(self, modname, name, assigned=True):
        k = ('g', modname, name)
        if assigned and k in self.S:
            return self.S[k]
        mod = self.p.modules.get(modname)
        g = mod.globals.get(name) if mod else None
        if g is None:
            if name in BUILTINS or name in ('__cast__', '__newstruct__', '__fstr__'):
                return mk('builtin', name)
            if mod is not None and mod.is_pyx:
                if name in mod.c['structs']:
                    return mk('builtin', 'cstruct.' + name)
            # attribute of a package that is a submodule
            if modname + '.' + name in self.p.modules:
                return mk('mod', modname + '.' + name)
            if modname.startswith('specs.'):
                raise Giveup('the reference uses %s, which is not there' % name)
            return mk('app', 'unknown-name', C(name))
        if g[0] == 'fn':
            return self.fnterm(mod, g[1], None, mod.name + ':' + g[1].name)
        if g[0] == 'cls':
            return mk('cls', mod.name + ':' + g[1].name)
        if g[0] == 'import':
            return self.dotted(g[1])
        kk = (modname, name)
        if kk in self.modval:
            v = self.modval[kk]
            if isinstance(v, tuple):
                v, cells = v
                for ck, cval in cells.items():
                    self.S.setdefault(ck, cval)
            return v
        # evaluate the module level assignments of that name, in order
        fr = self.modframes.get(modname)
        if fr is None:
            fr = self.newframe(mod, None, None, '<module>')
            fr.c = dict(vars=mod.c['vars'], params={}, kind='module', ret='object')
            self.modframes[modname] = fr
        self.modval[kk] = mk('app', 'cyclic-global', C(name))
        S0, g0, e0, fl0, fr0 = self.S, self.guard, self.events, self.flags, self.frames
        self.S = {}
        self.guard, self.events, self.flags, self.frames = TRUE, [], [], [fr]
        try:
            for st in g[1]:
                if isinstance(st, ast.Assign) or isinstance(st, ast.AugAssign) or (isinstance(st, ast.AnnAssign) and st.value is not None):
                    self.stmt(st)
            v = self.S.get(('v', fr.fid, name), UNDEF)
            cells = {k2: x for k2, x in self.S.items() if k2[0] == 'o'}
        finally:
            self.S, self.guard, self.events, self.flags, self.frames = S0, g0, e0, fl0, fr0
        for ck, cval in cells.items():
            self.S.setdefault(ck, cval)
        self.modval[kk] = (v, cells)
        return v

    def dotted(self, d):
        r = self.p.resolve_dotted(d)
        if r[0] == 'mod':
            return mk('mod', r[1].name)
        if r[0] == 'glob':
            return self.globalval(r[1].name, r[2])
        return extconst(r[1])

    def fnterm(self, mod, node, fid, qual):
        key = qual if fid is None else '%s@%d#%d' % (qual, getattr(node, 'lineno', 0), fid)
        self.fns[key] = (mod, node, fid, qual)
        return mk('fn', key)

    # ------------------------------------------------------------------ C types
    def cbase(self, t, mod):
        """resolve C typedef names"""
        n = 0
        while n < 10:
            n += 1
            if t in mod.c['typedefs']:
                t = mod.c['typedefs'][t]
                continue
            g = mod.globals.get(t)
            if g and g[0] == 'import':
                r = self.p.resolve_dotted_c(g[1]) if hasattr(self.p, 'resolve_dotted_c') else None
                b, _, nm = g[1].rpartition('.')
                m2 = self.p.modules.get(b)
                if m2 is not None and nm in m2.c['typedefs']:
                    mod, t = m2, nm
                    continue
                if m2 is not None and nm in m2.c['structs']:
                    return nm
            break
        return t

    def structfields(self, t, mod):
        if t in mod.c['structs']:
            return mod.c['structs'][t]
        for m in self.p.modules.values():
            if m.is_pyx and t in m.c['structs']:
                return m.c['structs'][t]
        return None

    def cconv(self, t, v, mod):
        t = self.cbase(t, mod)
        if t in CSMALL:
            return self.cast(CSMALL[t], v)
        if t in CFLOAT:
            if CFLOAT[t] == 'float32':
                return self.cast('float32', v)
            return v if not isinstance(v, T) or v.op != 'cast' else v
        if t in CINT32:
            if v.op == 'c' and isinstance(cv(v), float):
                return C(int(cv(v)))
            if isbool(v) and t != 'bint':
                return v
            return v
        sf = self.structfields(t, mod)
        if sf is not None:
            if v.op == 'struct':
                return v
            if structlike(v):
                return v
            if v is UNDEF:
                return v
            a = []
            for f, ft in sf:
                a += [f, self.load(v, C(f))]
            return mk('struct', t, *a)
        return v

    def cast(self, dt, v):
        if v.op == 'c' and isinstance(cv(v), int) and not isinstance(cv(v), bool) and abs(cv(v)) < 128 and dt != 'bool':
            if dt.startswith('uint') and cv(v) < 0:
                return mk('cast', dt, v)
            return v
        if v.op == 'cast' and v.args[0] == dt:
            return v
        if v.op == 'c' and isinstance(cv(v), float) and dt == 'float64':
            return v
        if v.op == 'ite' and (isc(v.args[1]) or isc(v.args[2]) or v.args[1].op == 'ite' or v.args[2].op == 'ite'):
            return ite(v.args[0], self.cast(dt, v.args[1]), self.cast(dt, v.args[2]))
        if dt == 'float64' and v.op not in ('ref',):
            # widening of everything the package stores in arrays: value preserving
            return v
        return mk('cast', dt, v)

    def dtname(self, t):
        if t.op == 'builtin':
            return DTYPES.get(t.args[0])
        if t.op == 'c' and isinstance(cv(t), str):
            n = cv(t)
            return n if n in DTNAMES else DTYPES.get(n)
        if t.op == 'c' and cv(t) is None:
            return 'float64'
        return None

    # ------------------------------------------------------------------ statements
    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.setname(a.asname, self.dotted(a.name))
            else:
                self.setname(a.name.split('.')[0], self.dotted(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            pk = self.frame.mod.package(s.level)
            base = pk + ('.' + base if base else '')
        for a in s.names:
            if a.name != '*' and s.module not in ('__future__', 'builtins'):
                self.setname(a.asname or a.name, self.dotted(base + '.' + a.name))

    def s_Global(self, s):
        self.frame.globals |= set(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def setname(self, name, val):
        f = self.frame
        if f.c is not None:
            t = f.c['vars'].get(name) or f.c['params'].get(name)
            if t and t != 'object':
                val = self.cconv(t, val, f.mod)
        if name in f.globals:
            self.S[('g', f.mod.name, name)] = val
            return
        if name in f.nonlocals:
            x = self.framereg.get(f.parent)
            while x is not None:
                if ('v', x.fid, name) in self.S:
                    self.S[('v', x.fid, name)] = val
                    return
                x = self.framereg.get(x.parent) if x.parent is not None else None
        self.S[('v', f.fid, name)] = val

    def assign(self, t, val):
        if isinstance(t, ast.Name):
            self.setname(t.id, val)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = val
            if v.op == 'ref':
                c = self.cur(v)
                if c.op in ('list', 'tuple'):
                    v = c
            if star:
                i = star[0]
                n = len(t.elts)
                for j in range(i):
                    self.assign(t.elts[j], self.load(v, C(j)))
                self.assign(t.elts[i].value, self.load(v, mk('slice', C(i), C(-(n - 1 - i)) if n - 1 - i else NONE, NONE)))
                for j in range(i + 1, n):
                    self.assign(t.elts[j], self.load(v, C(j - n)))
                return
            if not star and v.op == 'idx' and v.args[1].op == 'slice':
                # r, c = x[:2]: the first two of x
                a, b, c = (cv(y) if isc(y) else REQ for y in v.args[1].args)
                if a in (None, 0) and c in (None, 1) and type(b) is int and b == len(t.elts):
                    v = v.args[0]
            vals = [self.load(v, C(j)) for j in range(len(t.elts))]
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name):
                cur = self.peekname(t.value.id)
                if cur is not None and structlike(cur):
                    self.setname(t.value.id, self.structset(cur, t.attr, val))
                    return
            self.setattribute(self.ev(t.value), t.attr, val)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            comps = self.lastix(o, list(i.args) if i.op == 'tuple' else [i])
            self.store(o, comps, val)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, val)
        else:
            raise Giveup('assign target')

    def peekname(self, name):
        f = self.frame
        x = f
        while x is not None:
            k = ('v', x.fid, name)
            if k in self.S:
                return self.S[k]
            x = self.framereg.get(x.parent) if x.parent is not None else None
        return None

    def structset(self, st, field, val):
        if st.op == 'ite':
            return ite(st.args[0], self.structset(st.args[1], field, val), self.structset(st.args[2], field, val))
        a = list(st.args)
        for i in range(1, len(a), 2):
            if a[i] == field:
                a[i + 1] = val
                return mk('struct', *a)
        raise Giveup('struct field')

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        op = BIN[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            v = self.ev(s.value)
            if cur.op == 'ref':
                c = self.cur(cur)
                if c.op in ('list', 'cat') or (c.op == 'fold' and c.args[0] == 'cat'):
                    self.setcontent(cur, self.cat(c, self.seqcontent(v)))
                    return
                if c.op not in ('struct',):
                    self.setcontent(cur, bin_(op, c, self.cur(v) if v.op == 'ref' else v))
                    return
            self.setname(s.target.id, self.binop(op, cur, v))
            return
        if isinstance(s.target, ast.Attribute):
            if isinstance(s.target.value, ast.Name):
                st = self.peekname(s.target.value.id)
                if st is not None and structlike(st):
                    v = self.ev(s.value)
                    self.setname(s.target.value.id, self.structset(st, s.target.attr, self.binop(op, self.load(st, C(s.target.attr)), v)))
                    return
            o = self.ev(s.target.value)
            cur = self.getattr(o, s.target.attr)
            v = self.ev(s.value)
            self.aug_into(op, cur, v, lambda nv: self.store(o, [self.attrkey(o, s.target.attr)], nv))
            return
        o = self.ev(s.target.value)
        i = self.ev(s.target.slice)
        comps = self.lastix(o, list(i.args) if i.op == 'tuple' else [i])
        if i.op != 'tuple':
            i = comps[0]
        cur = self.load(o, i)
        v = self.ev(s.value)
        self.aug_into(op, cur, v, lambda nv: self.store(o, comps, nv))

    def aug_into(self, op, cur, v, setter):
        if cur.op == 'ref':
            c = self.cur(cur)
            if c.op in ('list', 'cat') or (c.op == 'fold' and c.args[0] == 'cat'):
                self.setcontent(cur, self.cat(c, self.seqcontent(v)))
                return
        setter(self.binop(op, cur, v))

    def s_If(self, s):
        c = self.tv(self.ev(s.test))
        self.branch(c, lambda: self.block(s.body), (lambda: self.block(s.orelse)) if s.orelse else None)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        f = self.frame
        self.S[('x', 'ret', f.fid)] = v
        self.setflag(('r', f.fid))

    def s_Break(self, s):
        self.setflag(('b', self.loopids[-1]))

    def s_Continue(self, s):
        self.setflag(('c', self.loopids[-1]))

    loopids = None

    def s_Raise(self, s):
        name = 'reraise'
        args = []
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = ast.unparse(e)
        self.event('raise', 'control', [C(name)])
        self.setflag('x')

    def s_Assert(self, s):
        self.assertion(self.ev(s.test))

    def assertion(self, c):
        c = self.tv(c)
        if c is TRUE:
            return

        def f():
            self.event('raise', 'control', [C('AssertionError')])
            self.setflag('x')
        self.branch(not_(c), f)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.S.pop(('v', self.frame.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                i = self.ev(t.slice)
                c = self.cur(o)
                self.detach(o, c)
                if isc(i) and cv(i) == -1:
                    self.setcontent(o, mk('app', 'droplast', c))
                else:
                    self.setcontent(o, mk('app', 'delitem', c, i))
            elif isinstance(t, ast.Attribute):
                pass

    def s_FunctionDef(self, s):
        f = self.frame
        f.keep = True
        self.setname(s.name, self.fnterm(f.mod, s, f.fid, '%s.%s' % (f.name, s.name)))

    def s_ClassDef(self, s):
        raise Giveup('local class')

    # nothing but reading is released at the end
    PLAINWITH = {'os.scandir', 'numpy.errstate', 'warnings.catch_warnings'}

    def decorated(self, node, name):
        return any(ast.unparse(d).split('.')[-1] == name for d in getattr(node, 'decorator_list', ()))

    def s_With(self, s):
        exits = []
        for n, it in enumerate(s.items):
            v = self.ev(it.context_expr)
            if v.op == 'gen' and v.args[0] in self.fns and self.decorated(self.fns[v.args[0]][1], 'contextmanager'):
                # the body takes the place of the yield
                def body(x, it=it, rest=s.items[n + 1:]):
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, x)
                    if rest:
                        self.stmt(ast.copy_location(ast.With(items=rest, body=s.body), s))
                    else:
                        self.block(s.body)
                self.rungen(v, body)
                break
            if v.op in ('app', 'mcall') and v.args[0] in self.PLAINWITH:
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
                continue
            ch = self.chan(v)
            ent = mk('app', 'enter', v)
            self.event('enter', ch, [v])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent)
            exits.append((ch, v))
        else:
            self.block(s.body)
        # exit happens on every way out
        for ch, v in reversed(exits):
            self.event('exit', ch, [v])

    def s_Try(self, s):
        # the protected region either completes or fails at its first opaque call
        S0 = dict(self.S)
        ev0 = len(self.events)
        fl0 = dict((f, self.S.get(('f', f), FALSE)) for f in self.flags)
        g0 = self.guard
        self.block(s.body)
        first = None
        for e in self.events[ev0:]:
            if e.kind in ('call',):
                first = e
                break
        if first is None or not s.handlers:
            live = self.live()
            if s.orelse:
                self.branch(live, lambda: self.block(s.orelse), None, islive=True)
            self.final(s)
            return
        exc = mk('app', 'fails', first.args[0])
        A = self.S
        Aev = self.events[ev0:]
        del self.events[ev0:]
        # the failing call itself is part of both outcomes
        for e in Aev:
            if e is first:
                self.events.append(e)
                continue
            self.events.append(Event(and_(e.guard, not_(exc)), e.kind, e.chan, e.args, e.loop, e.node, e.fn))
        if s.orelse:
            self.S = A
            self.guard = and_(g0, not_(exc))
            self.branch(self.live(), lambda: self.block(s.orelse), None, islive=True)
            A = self.S
        self.S = dict(S0)
        self.guard = and_(g0, exc)
        hs = s.handlers
        if len(hs) == 1:
            self.handler(hs[0])
        else:
            def rec(i):
                if i == len(hs) - 1:
                    self.handler(hs[i])
                else:
                    self.branch(mk('app', 'exctype', C(ast.unparse(hs[i].type) if hs[i].type else '*'), exc),
                                lambda: self.handler(hs[i]), lambda: rec(i + 1))
            rec(0)
        B = self.S
        self.guard = g0
        self.S = S0
        self.branch(exc, lambda: self._setS(B), lambda: self._setS(A))
        self.final(s)

    def _setS(self, X):
        self.S = dict(X)

    def handler(self, h):
        if h.name:
            self.setname(h.name, mk('app', 'exception'))
        self.block(h.body)

    def final(self, s):
        if not s.finalbody:
            return
        saved = {f: self.S.get(('f', f), FALSE) for f in self.flags}
        rets = {k: v for k, v in self.S.items() if k[0] == 'x'}
        for f in self.flags:
            self.S[('f', f)] = FALSE
        self.block(s.finalbody)
        for f, v in saved.items():
            self.S[('f', f)] = or_(v, self.S.get(('f', f), FALSE))
        self.S.update(rets)

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        n = self.fresh('flag')
        if self.loopids is None:
            self.loopids = []
        B, CC = ('b', n), ('c', n)
        self.flags += [B, CC]

        def body(elem):
            self.loopids.append(n)
            self.assign(s.target, elem)
            self.block(s.body)
            self.loopids.pop()
            self.S[('f', CC)] = FALSE
        self.iterate(it, body, s)
        broke = self.S.get(('f', B), FALSE)
        self.flags.remove(B)
        self.flags.remove(CC)
        self.S.pop(('f', B), None)
        self.S.pop(('f', CC), None)
        if s.orelse:
            self.branch(not_(broke), lambda: self.block(s.orelse))

    def drained(self, s):
        """(list expression, target, reversed?, rest of the body) of `while L: x = L.pop() ...` with no other use of L"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and \
                (isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and t.comparators[0].value == 0 or isinstance(t.ops[0], ast.GtE) and t.comparators[0].value == 1):
            t = t.left
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name) or not s.body or s.orelse:
            return None
        pops = []

        def find(n):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == t.id:
                pops.append(n)
            elif isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef, ast.Try)):
                return
            elif isinstance(n, ast.If):
                find(n.test)
            elif isinstance(n, ast.For):
                find(n.iter)
            elif isinstance(n, ast.While):
                return
            else:
                for x in ast.iter_child_nodes(n):
                    find(x)
        find(s.body[0])
        if len(pops) != 1 or sum(isinstance(n, ast.Name) and n.id == t.id for x in s.body for n in ast.walk(x)) != 1:
            return None
        c = pops[0]
        if c.keywords:
            return None
        ar = [a.value if isinstance(a, ast.Constant) else -1 if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.USub) and
              isinstance(a.operand, ast.Constant) and a.operand.value == 1 else None for a in c.args]
        if c.func.attr == 'pop' and ar in ([], [-1]):
            back = True
        elif c.func.attr == 'pop' and ar == [0] or c.func.attr == 'popleft' and not ar:
            back = False
        else:
            return None

        def leaves(n):
            if isinstance(n, (ast.Return, ast.Break, ast.Raise, ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return False
            return any(leaves(x) for x in ast.iter_child_nodes(n))
        if any(leaves(x) for x in s.body):
            return None

        class Sub(ast.NodeTransformer):
            def visit_Call(self, n):
                if n is c:
                    return ast.copy_location(ast.Name(id='@drain', ctx=ast.Load()), n)
                return self.generic_visit(n)
        import copy
        memo = {id(c): c}
        first = copy.deepcopy(s.body[0], memo)
        return t, back, [Sub().visit(first)] + s.body[1:]

    def rotated(self, s):
        """`while True: A; if c: break; B` is `A; while not c: B; A`, and `while (x := e): B` is `x = e; while x: B; x = e`"""
        def has(n, kinds, top=True):
            if isinstance(n, kinds):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                return False
            if isinstance(n, (ast.For, ast.While)) and not top:
                return False
            return any(has(x, kinds, False) for x in ast.iter_child_nodes(n))
        if s.orelse:
            return None
        t = s.test
        if isinstance(t, ast.Constant) and t.value:
            for i, b in enumerate(s.body):
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Break):
                    A, B = s.body[:i], s.body[i + 1:]
                    if not A or any(has(x, (ast.Break, ast.Continue), False) for x in A) or \
                            any(has(x, (ast.Continue,), False) for x in B):
                        return None
                    w = ast.While(test=ast.UnaryOp(op=ast.Not(), operand=b.test), body=B + A, orelse=[])
                    return A + [w]
                if has(b, (ast.Break, ast.Continue), False):
                    return None
            return None
        ne = [t] if isinstance(t, ast.NamedExpr) else [t.left] if isinstance(t, ast.Compare) and isinstance(t.left, ast.NamedExpr) else []
        if ne and not any(has(x, (ast.Continue,), False) for x in s.body):
            A = ast.Assign(targets=[ast.Name(id=ne[0].target.id, ctx=ast.Store())], value=ne[0].value, type_comment=None)
            v = ast.Name(id=ne[0].target.id, ctx=ast.Load())
            test = v if t is ne[0] else ast.Compare(left=v, ops=t.ops, comparators=t.comparators)
            return [A, ast.While(test=test, body=s.body + [A], orelse=[])]
        return None

    def private(self, r):
        """only one variable and no container refers to r"""
        n = 0
        for k, v in self.S.items():
            if isinstance(v, T) and (v is r or k[0] != 'v' and mentions(v, lambda t: t is r)):
                n += 1
        return n <= 1

    def s_While(self, s):
        if not hasattr(s, '_rot'):
            s._rot = self.rotated(s)
            for x in s._rot or ():
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)
                    ast.fix_missing_locations(x)
        if s._rot is not None:
            self.block(s._rot)
            return
        d = s._drained if hasattr(s, '_drained') else self.drained(s)
        s._drained = d
        if d is not None:
            r = self.ev(d[0])
            c = self.cur(r)
            if r.op == 'ref' and self.islist(c) and self.private(r):
                v = ast.Name(id='@drain', ctx=ast.Store())
                it = ast.Name(id=d[0].id, ctx=ast.Load())
                if d[1]:
                    it = ast.Call(func=ast.Name(id='reversed', ctx=ast.Load()), args=[it], keywords=[])
                f = getattr(s, '_asfor', None)
                if f is None:
                    f = s._asfor = ast.For(target=v, iter=it, body=d[2], orelse=[], type_comment=None)
                    ast.copy_location(f, s)
                    ast.fix_missing_locations(f)
                self.stmt(f)
                self.setcontent(r, mk('list'))
                return
        n = self.fresh('flag')
        if self.loopids is None:
            self.loopids = []
        B, CC = ('b', n), ('c', n)
        self.flags += [B, CC]

        def one():
            c = self.tv(self.ev(s.test))

            def bd():
                self.loopids.append(n)
                self.block(s.body)
                self.loopids.pop()
                self.S[('f', CC)] = FALSE
            self.branch(c, bd)
            return c
        self.loop(None, lambda lv: one(), s)
        self.flags.remove(B)
        self.flags.remove(CC)
        broke = self.S.pop(('f', B), FALSE)
        self.S.pop(('f', CC), None)
        if s.orelse:
            self.branch(not_(broke), lambda: self.block(s.orelse))

    def seqlive(self, fs):
        """run closures in sequence, each only while still live"""
        for i, f in enumerate(fs):
            f()
            lv = self.live()
            if lv is FALSE:
                return
            if lv is not TRUE:
                rest = fs[i + 1:]
                if rest:
                    self.branch(lv, lambda: self.seqlive(rest), None, islive=True)
                return

    def iterate(self, it, body, node=None):
        """call body(elem) for the elements of the iterable value `it`"""
        if it.op == 'ite':
            self.branch(it.args[0], lambda: self.iterate(it.args[1], body, node), lambda: self.iterate(it.args[2], body, node))
            return
        if it.op == 'gen':
            self.rungen(it, body)
            return
        if it.op == 'iter':
            kind = it.args[0]
            if kind == 'range':
                a, b, st = it.args[1:]
                if all(isc(x) for x in (a, b, st)):
                    r = range(cv(a), cv(b), cv(st))
                    if len(r) <= self.MAXUNROLL:
                        self.seqlive([(lambda k=k: body(C(k))) for k in r])
                        return
                cnt = self.rangelen(a, b, st)
                self.loop(cnt, lambda lv: body(bin_('+', a, bin_('*', st, lv)) if st is not ONE else bin_('+', lv, a)), node)
                return
            if kind == 'prod':
                its = it.args[1:]

                def rec(i, acc):
                    if i == len(its):
                        body(mk('tuple', *acc))
                    else:
                        self.iterate(its[i], lambda e: rec(i + 1, acc + [e]), node)
                rec(0, [])
                return
            if kind == 'enum':
                seq, start = it.args[1], it.args[2]
                ac = self.access(seq)
                if ac is not None:
                    cnt, el, n = ac
                    self.counted(cnt, n, lambda k: body(mk('tuple', bin_('+', k, start), el(k))), node)
                    return
                # general: carry an explicit counter
                key = ('x', 'enum', self.fresh('flag'))
                self.S[key] = start

                def bd(e):
                    i = self.S[key]
                    self.S[key] = bin_('+', i, ONE)
                    body(mk('tuple', i, e))
                self.iterate(seq, bd, node)
                self.S.pop(key, None)
                return
            if kind == 'zip':
                acs = [self.access(x) for x in it.args[1:]]
                if all(a is not None for a in acs):
                    ns = [a[2] for a in acs]
                    cnts = []
                    for a in acs:
                        if a[0] not in cnts:
                            cnts.append(a[0])
                    cnt = cnts[0] if len(cnts) == 1 else mk('app', 'min', *sorted(cnts, key=lambda t: t.id))
                    n = min(ns) if all(x is not None for x in ns) else None
                    self.counted(cnt, n, lambda k: body(mk('tuple', *[a[1](k) for a in acs])), node)
                    return
                raise Giveup('zip of generators')
            if kind == 'rev':
                ac = self.access(it.args[1])
                if ac is None:
                    raise Giveup('reversed')
                cnt, el, n = ac
                last = bin_('-', cnt, ONE)
                self.counted(cnt, n, lambda k: body(el(bin_('-', last, k))), node)
                return
            if kind == 'items':
                d = it.args[1]
                self.iterdict(d, lambda k, v: body(mk('tuple', k, v)), node)
                return
            if kind == 'values':
                self.iterdict(it.args[1], lambda k, v: body(v), node)
                return
            if kind == 'keys':
                self.iterdict(it.args[1], lambda k, v: body(k), node)
                return
        c = self.cur(it)
        if c.op == 'gen' or c.op == 'iter':
            self.iterate(c, body, node)
            return
        if c.op in ('list', 'tuple') and len(c.args) <= self.MAXUNROLL:
            self.seqlive([(lambda e=e: body(e)) for e in c.args])
            return
        if c.op == 'dict' or (c.op in ('store', 'fold', 'mu', 'fin', 'ddict') and self.isdict(c)):
            self.iterdict(it, lambda k, v: body(k), node)
            return
        if c.op == 'cat':
            self.seqlive([lambda: self.iterate(c.args[0], body, node), lambda: self.iterate(c.args[1], body, node)])
            return
        if c.op == 'ite':
            self.branch(c.args[0], lambda: self.iterate(c.args[1], body, node), lambda: self.iterate(c.args[2], body, node))
            return
        if c.op == 'fold' and c.args[0] == 'cat':
            L1 = c.args[1]
            fs = []
            if not (c.args[2].op == 'list' and not c.args[2].args):
                fs.append(lambda: self.iterate(c.args[2], body, node))
            cnt = self.loops[L1].count
            fb = c.args[3]

            def one(lv):
                m = {mk('lv', L1): lv}
                self.iterbody(subst(fb, m), mk('hole', L1), body, node)
            fs.append(lambda: self.loop(cnt, one, node))
            self.seqlive(fs)
            return
        ac = self.access(it)
        if ac is None:
            raise Giveup('iterate ' + show(c, 2))
        cnt, el, n = ac
        self.counted(cnt, n, lambda k: body(el(k)), node)

    def iterbody(self, t, hole, body, node):
        if t is hole:
            return
        if t.op == 'ite':
            self.branch(t.args[0], lambda: self.iterbody(t.args[1], hole, body, node), lambda: self.iterbody(t.args[2], hole, body, node))
            return
        if t.op == 'cat':
            self.seqlive([lambda: self.iterbody(t.args[0], hole, body, node), lambda: self.iterate(t.args[1], body, node)])
            return
        if t.op == 'fold' and t.args[0] == 'cat':
            self.seqlive([lambda: self.iterbody(t.args[2], hole, body, node),
                          lambda: self.iterate(mk('fold', 'cat', t.args[1], mk('list'), t.args[3]), body, node)])
            return
        if t.op == 'list':
            self.iterate(t, body, node)
            return
        raise Giveup('fold body ' + show(t, 2))

    def isdict(self, c):
        return self.dictroot(c) is not None

    def dictroot(self, c):
        while True:
            if c.op == 'store':
                c = c.args[0]
            elif c.op == 'fold':
                c = c.args[2]
            elif c.op == 'ite':
                c = c.args[1]
            elif c.op in ('mu', 'fin'):
                L = self.loops.get(c.args[0])
                if L is not None and c.args[1] in L.init:
                    c = L.init[c.args[1]]
                elif (c.args[0], c.args[1]) in self.prestate:
                    c = self.prestate[(c.args[0], c.args[1])]
                else:
                    return None
            elif c.op == 'ref' and ('o', c) in self.S:
                c = self.S[('o', c)]
            else:
                return c if c.op in ('dict', 'ddict') else None

    def iterdict(self, d, body, node, c=None):
        c = self.cur(d) if c is None else c
        if c.op == 'ite' and all(x.op in ('dict', 'ite') for x in c.args[1:]):
            self.branch(c.args[0], lambda: self.iterdict(d, body, node, c.args[1]), lambda: self.iterdict(d, body, node, c.args[2]))
            return
        if c.op == 'dict':
            ks = [(c.args[i], c.args[i + 1]) for i in range(0, len(c.args), 2)]
            if all(isc(k) for k, _ in ks):
                self.seqlive([(lambda k=k, v=v: body(k, v)) for k, v in ks])
                return
        fc = self.freeze(c)
        cnt = mk('app', 'len', fc)

        def one(lv):
            k = mk('app', 'keyat', fc, lv)
            v = self.load(d, k) if d.op == 'ref' else idx_(d, k)
            body(k, v)
        self.loop(cnt, one, node)

    def counted(self, cnt, n, fn, node):
        if n is not None and n <= self.MAXUNROLL:
            self.seqlive([(lambda k=k: fn(C(k))) for k in range(n)])
        else:
            self.loop(cnt, fn, node)

    def access(self, x):
        """indexable sequence -> (count term, elem(k), const length or None)"""
        if x.op == 'iter':
            if x.args[0] == 'range':
                a, b, st = x.args[1:]
                n = len(range(cv(a), cv(b), cv(st))) if all(isc(y) for y in (a, b, st)) else None
                return self.rangelen(a, b, st), (lambda k: bin_('+', bin_('*', st, k), a)), n
            if x.args[0] == 'enum':
                ac = self.access(x.args[1])
                if ac is None:
                    return None
                return ac[0], (lambda k: mk('tuple', bin_('+', k, x.args[2]), ac[1](k))), ac[2]
            if x.args[0] == 'zip':
                acs = [self.access(y) for y in x.args[1:]]
                if any(a is None for a in acs):
                    return None
                cnts = []
                for a in acs:
                    if a[0] not in cnts:
                        cnts.append(a[0])
                cnt = cnts[0] if len(cnts) == 1 else mk('app', 'min', *sorted(cnts, key=lambda t: t.id))
                n = min(a[2] for a in acs) if all(a[2] is not None for a in acs) else None
                return cnt, (lambda k: mk('tuple', *[a[1](k) for a in acs])), n
            if x.args[0] == 'rev':
                ac = self.access(x.args[1])
                if ac is None:
                    return None
                last = bin_('-', ac[0], ONE)
                return ac[0], (lambda k: ac[1](bin_('-', last, k))), ac[2]
            return None
        if x.op == 'gen':
            return None
        c = self.cur(x)
        if c.op in ('list', 'tuple'):
            return C(len(c.args)), (lambda k: c.args[cv(k)] if isc(k) else self._nest(self.freeze(c), [k])), len(c.args)
        if c.op == 'struct' and c.args[0].startswith('nt:'):
            n = (len(c.args) - 1) // 2
            return C(n), (lambda k: c.args[2 + 2 * cv(k)]), n
        if c.op == 'gen' or (c.op == 'iter' and c.args[0] == 'prod'):
            return None
        if c.op == 'iter':
            return self.access(c)
        if c.op == 'fold' and c.args[0] == 'cat' and c.args[2].op == 'list' and not c.args[2].args:
            fb = c.args[3]
            if fb.op == 'cat' and fb.args[0].op == 'hole' and fb.args[1].op == 'list' and len(fb.args[1].args) == 1:
                L1 = c.args[1]
                el = fb.args[1].args[0]
                return self.loops[L1].count, (lambda k: subst(el, {mk('lv', L1): k})), None
        if self.isdict(c):
            return None
        if x.op == 'ref':
            fc = self.freeze(c)
            return self.length(fc), (lambda k: self.load(x, k)), None
        return self.length(self.freeze(c)), (lambda k: self.load(x, k)), None

    def length(self, c):
        if c.op in ('list', 'tuple'):
            return C(len(c.args))
        if c.op == 'ref':
            return self.length(self.cur(c))
        if c.op == 'c' and isinstance(cv(c), str):
            return C(len(cv(c)))
        if c.op == 'dict' and all(isc(c.args[i]) for i in range(0, len(c.args), 2)):
            return C(len(c.args) // 2)
        if c.op == 'cat':
            return bin_('+', self.length(c.args[0]), self.length(c.args[1]))
        if c.op == 'store' and not self.isdict(c):
            return self.length(c.args[0])
        if c.op == 'full' and c.args[0].op == 'tuple' and c.args[0].args:
            return c.args[0].args[0]
        if c.op == 'fold' and c.args[0] == 'upd' and not self.isdict(c):
            return self.length(c.args[2])
        if c.op == 'fold' and c.args[0] == 'cat':
            fb = c.args[3]
            if fb.op == 'cat' and fb.args[0].op == 'hole' and fb.args[1].op == 'list' and len(fb.args[1].args) == 1:
                return bin_('+', self.length(c.args[2]), self.loops[c.args[1]].count)
        if c.op in ('mu', 'fin') and isinstance(c.args[1], tuple) and c.args[1][0] == 'o' and c.args[1][1].op in ('sym', 'app', 'idx'):
            return self.length(c.args[1][1])
        if c.op == 'idx':
            b = self.before(c)
            if b is not None:
                return self.length(b)
        if c.op == 'cast':
            return self.length(c.args[1])
        if c.op == 'app' and c.args[0] == 'numpy.unique' and len(c.args) == 2:
            return mk('app', 'nunique', c.args[1])
        if c.op == 'bin' and c.args[0] in ('*', '/'):
            # an array times a number with a fraction
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if self.fractional(y) and not (c.args[0] == '/' and y is c.args[1]):
                    return self.length(x)
        return mk('app', 'len', c)

    def before(self, c):
        """the element c of a container as it was before a loop that only changes what is inside its elements: it is as long"""
        path, r = [], c
        while r.op == 'idx':
            path.insert(0, r.args[1])
            r = r.args[0]
        if r.op != 'fin' or not isinstance(r.args[1], tuple) or r.args[1][0] != 'o':
            return None
        L = self.loops.get(r.args[0])
        if L is None or r.args[1] not in (L.next or {}) or r.args[1] not in L.init:
            return None
        n = len(path)

        def keeps(t):
            if t.op == 'hole' or (t.op == 'mu' and t.args[1] == r.args[1]):
                return True
            if t.op == 'ite':
                return keeps(t.args[1]) and keeps(t.args[2])
            if t.op == 'fold' and t.args[0] == 'upd':
                return keeps(t.args[2]) and keeps(t.args[3])
            if t.op == 'store' and t.args[1].op == 'tuple':
                return len(t.args[1].args) > n + 1 and keeps(t.args[0])
            return False
        if not keeps(L.next[r.args[1]]):
            return None
        t = L.init[r.args[1]]
        for k in path:
            t = idx_(t, k)
        return t

    def fractional(self, t):
        if isnumc(t):
            return isinstance(cv(t), float) or getattr(cv(t), 'denominator', 1) != 1
        return t.op == 'bin' and t.args[0] == '*' and any(self.fractional(a) for a in t.args[1:])

    def rangelen(self, a, b, st):
        if a is ZERO and st is ONE:
            return b
        if all(isc(x) for x in (a, b, st)):
            return C(len(range(cv(a), cv(b), cv(st))))
        if st is ONE:
            return mk('app', 'nn', bin_('-', b, a))
        return mk('app', 'rangelen', a, b, st)

    def loop(self, count, one, node):
        """summarise: repeat one(lv) `count` times (None: while the term it returns is true)"""
        if count is not None and isc(count) and cv(count) == 0:
            return
        if count is not None and isc(count) and cv(count) == 1:
            one(ZERO)
            return
        lid = self.fresh('lid')
        lv = mk('lv', lid)
        S0 = self.S
        g0, ev0 = self.guard, self.events
        ctr0 = dict(self.ctr)
        occ0 = dict(self.occ)
        pre = dict(S0)
        mutated = []
        split = {}          # tuple- or struct-valued variables carried as separate components
        nosplit = set()
        pin = {}            # components of split instances the body leaves alone: they keep their value from before the loop
        nopin = set()

        def comp(k, j):
            return self.shapecomp(pre[k], split[k][0], j) if j in pin.get(k, ()) else mk('mu', lid, split[k][1][j])
        for rnd in range(24):
            for k in mutated:
                self.prestate[(lid, k)] = pre[k]
                if k in split:
                    for j, ck in enumerate(split[k][1]):
                        self.prestate[(lid, ck)] = self.shapecomp(pre[k], split[k][0], j)
            self.ctr = dict(ctr0)
            self.occ = dict(occ0)
            for l in [x for x in self.loops if x > lid]:
                del self.loops[l]
            self.S = dict(pre)
            for k in mutated:
                if k in split:
                    self.S[k] = self.shapemk(split[k][0], [comp(k, j) for j in range(len(split[k][1]))])
                else:
                    self.S[k] = mk('mu', lid, k)
            for f in self.flags:
                self.S[('f', f)] = FALSE
            start = dict(self.S)
            self.guard = TRUE
            self.events = []
            L = Loop(lid)
            BOOLS.difference_update([b for b in BOOLS if b[0] >= lid])
            L.node = node
            L.parent = self.loopstack[-1] if self.loopstack else None
            self.loops[lid] = L
            self.loopstack.append(lid)
            cond = one(lv)
            self.loopstack.pop()
            if count is not None:
                cond = TRUE
            end = self.S
            evs = self.events
            new = []
            for k in start:
                if k[0] in ('f',):
                    continue
                if end.get(k) is not start[k] and k not in mutated:
                    if k[0] == 'v' and k not in end:
                        continue
                    if k[0] == 'o' and k not in end:
                        continue
                    new.append(k)
            # cells of opaque roots and return slots first written in the body
            for k in end:
                if k not in start and k not in mutated and k[0] != 'f':
                    if k[0] == 'o' and k[1].op != 'ref' and not self.bodylocal(k[1], lid):
                        pre[k] = k[1]
                        new.append(k)
                    elif k[0] == 'g':
                        pre[k] = self.globalval(k[1], k[2], assigned=False)
                        new.append(k)
                    elif k[0] == 'x' and k[1] == 'ret':
                        pre[k] = UNDEF
                        new.append(k)
            bad = False
            for k in list(split):
                e = end.get(k, UNDEF)
                n = len(split[k][1])
                if any(self.shapecomp(e, split[k][0], j) is None for j in range(n)):
                    del split[k]
                    nosplit.add(k)
                    pin.pop(k, None)
                    bad = True
                    continue
                for j in list(pin.get(k, ())):
                    if self.shapecomp(e, split[k][0], j) is not comp(k, j):
                        pin[k].discard(j)
                        nopin.add((k, j))
                        bad = True
            if not new and not bad:
                for k in split:
                    if split[k][0][0] == 'obj':
                        for j in range(len(split[k][1])):
                            if j not in pin.get(k, ()) and (k, j) not in nopin and self.shapecomp(end[k], split[k][0], j) is comp(k, j):
                                pin.setdefault(k, set()).add(j)
                                bad = True
            for k in new:
                if k[0] in ('v', 'o') and k in pre and k not in nosplit:
                    sh = self.shapeof(pre[k])
                    if sh is not None and (k[0] == 'v' or sh[0] == 'obj'):
                        kk = k if k[0] == 'v' else ('v', -k[1].id)
                        split[k] = (sh, [kk + ('.', j) for j in range(self.shapelen(sh))])
            if not new and not bad:
                break
            mutated += new
        else:
            raise Giveup('loop does not stabilise')
        self.guard, self.events = g0, ev0
        fl = {f: end.get(('f', f), FALSE) for f in self.flags}
        stop = or_(not_(cond), *fl.values())
        # freeze objects created in the body
        self.S = end

        def local(t):
            return t.op == 'ref' and ('o', t) not in pre

        def fz(t):
            return self.freeze_local(t, local)
        L.count = count
        L.stop = fz(stop)
        for k in mutated:
            if k in split:
                e = end.get(k, UNDEF)
                for j, ck in enumerate(split[k][1]):
                    if j in pin.get(k, ()):
                        continue
                    L.init[ck] = self.shapecomp(pre[k], split[k][0], j)
                    L.next[ck] = fz(self.shapecomp(e, split[k][0], j))
                continue
            L.init[k] = pre[k]
            if k[0] == 'o' and pre[k].op in ('list', 'cat', 'store', 'dict'):
                L.init[k] = self.freeze_local(pre[k], lambda t: t.op == 'ref' and ('o', t) in pre and ('o', t) not in mutated)
            L.next[k] = fz(end.get(k, UNDEF))
        for e in evs:
            e.args = [fz(a) if isinstance(a, T) else a for a in e.args]
            e.guard = fz(e.guard)
        L.events = evs
        L.flagnext = {f: fz(v) for f, v in fl.items()}
        # new locals of the body that survive it
        newloc = [k for k in end if k not in pre and k[0] == 'v']
        for k in newloc:
            L.init[k] = UNDEF
            L.next[k] = fz(end[k])
        inner = [self.loops[x] for x in self.loops if x > lid]
        backward = {k for k in mutated if k[0] == 'o' and k not in split and self.forward(L, k)}
        self.soften(L, inner, cond)
        self.normalise(L, inner, cond)
        # state after the loop
        self.S = dict(pre)
        for k in mutated + newloc:
            if k in split:
                self.S[k] = self.shapemk(split[k][0], [self.shapecomp(pre[k], split[k][0], j) if j in pin.get(k, ()) else self.final_value(L, ck)
                                               for j, ck in enumerate(split[k][1])])
            else:
                self.S[k] = self.final_value(L, k)
                if k in backward:
                    self.S[k] = mk('app', 'listreverse', self.S[k])
        for f in self.flags:
            nv = L.flagnext[f]
            if nv is FALSE:
                self.S[('f', f)] = S0.get(('f', f), FALSE)
            else:
                L.init[('f', f)] = FALSE
                L.next[('f', f)] = nv
                self.S[('f', f)] = or_(S0.get(('f', f), FALSE), mk('fin', lid, ('f', f)))
        if L.events:
            self.events.append(Event(self.guard, 'loop', None, [], L, node, self.frame.name if self.frames else None))

    def forward(self, L, k):
        """a list that only gets elements in front is the reverse of one that gets them at its end"""
        M = mk('mu', L.id, k)
        one = lambda t: t.op == 'list' and len(t.args) <= 1
        found = []

        def turn(t):
            if t is M:
                return t
            if t.op == 'ite' and not mentions(t.args[0], lambda x: x is M):
                a, b = turn(t.args[1]), turn(t.args[2])
                return None if a is None or b is None else ite(t.args[0], a, b)
            if t.op == 'cat' and t.args[1] is M and one(t.args[0]) and not mentions(t.args[0], lambda x: x is M):
                found.append(t)
                return mk('cat', M, t.args[0])
            return None
        if not one(L.init.get(k, UNDEF)):
            return False
        t = turn(L.next.get(k, UNDEF))
        if t is None or not found:
            return False
        rest = [v for j, v in L.next.items() if j != k] + [L.stop] + [v for v in L.flagnext.values()] + [L.count]
        rest += [x for f in found for x in f.args[0].args] + [a for e in L.events for a in list(e.args) + [e.guard]]
        for x in rest:
            if isinstance(x, T) and (mentions(x, lambda y: y is M) or self.mentions_via_loops(x, M)):
                return False
        if L.events and any(e.loop is not None for e in L.events if hasattr(e, 'loop')):
            return False
        L.next[k] = t
        return True

    def shapeof(self, t):
        if t.op == 'tuple' and 0 < len(t.args) <= 8:
            return ('tuple', len(t.args))
        if t.op == 'struct' and len(t.args) > 1:
            return ('struct', t.args[0]) + tuple(t.args[1::2])
        if t.op == 'store':
            a = self.attrs(t)
            if a is not None:
                return ('obj', a[0]) + tuple(sorted(a[1], key=lambda x: x.args[0]))
        if t.op == 'ite':
            a, b = self.shapeof(t.args[1]), self.shapeof(t.args[2])
            return a if a == b else None
        return None

    def shapelen(self, sh):
        return sh[1] if sh[0] == 'tuple' else len(sh) - 2

    def shapecomp(self, t, sh, j):
        if t.op == 'ite':
            a, b = self.shapecomp(t.args[1], sh, j), self.shapecomp(t.args[2], sh, j)
            return None if a is None or b is None else ite(t.args[0], a, b)
        if t is UNDEF:
            return UNDEF
        if self.shapeof(t) != sh:
            return None
        if sh[0] == 'obj':
            return self.attrs(t)[1][sh[2 + j]]
        return t.args[j] if sh[0] == 'tuple' else t.args[2 + 2 * j]

    def shapemk(self, sh, comps):
        if sh[0] == 'tuple':
            return mk('tuple', *comps)
        if sh[0] == 'obj':
            r = sh[1]
            for n, c in zip(sh[2:], comps):
                r = mk('store', r, mk('tuple', n), c)
            return r
        a = [sh[1]]
        for n, c in zip(sh[2:], comps):
            a += [n, c]
        return mk('struct', *a)

    def bodylocal(self, root, lid):
        """opaque root that only exists inside the loop body"""
        return mentions(root, lambda t: t.op in ('lv', 'mu') and t.args[0] >= lid) or mentions(root, lambda t: t.op == 'mcall')

    def freeze_local(self, t, local, memo=None):
        if memo is None:
            memo = {}
        r = memo.get(t.id)
        if r is not None:
            return r
        if local(t):
            cell = self.S.get(('o', t))
            memo[t.id] = mk('cyc')
            r = self.freeze_local(cell, local, memo) if cell is not None else t
        elif t.op in ('c', 'lv', 'mu', 'fin', 'hole', 'sym'):
            r = t
        else:
            ch = False
            na = []
            for a in t.args:
                if isinstance(a, T):
                    b = self.freeze_local(a, local, memo)
                    ch = ch or b is not a
                    na.append(b)
                else:
                    na.append(a)
            r = rebuild(t.op, na) if ch else t
        memo[t.id] = r
        return r

    def final_value(self, L, k):
        f = self.foldof(L, k)
        if f is not None:
            return f
        return mk('fin', L.id, k)

    def foldof(self, L, k):
        nx = L.next[k]
        M = mk('mu', L.id, k)
        init = L.init[k]
        if nx is M:
            return init
        if L.count is None or L.stop is not FALSE:
            return None
        own = lambda t: t is M

        def clean(t):
            return not mentions(t, own) and not self.mentions_via_loops(t, M)
        if init is UNDEF:
            return None
        # sum
        if nx.op == 'bin' and nx.args[0] == '+' and nx.args[1] is M and clean(nx.args[2]):
            if not mentions(nx.args[2], lambda t: (t.op in ('mu', 'lv') and t.args[0] == L.id)):
                return bin_('+', init, bin_('*', L.count, nx.args[2]))
            return bin_('+', init, mk('fold', 'sum', L.id, ZERO, bin_('+', mk('hole', L.id), nx.args[2])))
        if nx.op == 'bin' and nx.args[0] == '+' and nx.args[2] is M and clean(nx.args[1]):
            return bin_('+', init, mk('fold', 'sum', L.id, ZERO, bin_('+', mk('hole', L.id), nx.args[1])))
        # boolean or/and with own value
        if nx.op == 'or' and M in nx.args:
            rest = or_(*[a for a in nx.args if a is not M])
            if clean(rest):
                return or_(init, mk('fold', 'any', L.id, FALSE, rest)) if isbool(init) else None
        if nx.op == 'and' and M in nx.args:
            rest = and_(*[a for a in nx.args if a is not M])
            if clean(rest) and isbool(init):
                return and_(init, mk('fold', 'all', L.id, TRUE, rest))
        if nx.op == 'ite' and nx.args[1] is TRUE and nx.args[2] is M and clean(nx.args[0]) and isbool(init):
            return or_(init, mk('fold', 'any', L.id, FALSE, nx.args[0]))
        if nx.op == 'ite' and nx.args[1] is M and nx.args[2] is FALSE and clean(nx.args[0]) and isbool(init):
            return and_(init, mk('fold', 'all', L.id, TRUE, nx.args[0]))
        if nx.op == 'ite' and nx.args[1] is FALSE and nx.args[2] is M and clean(nx.args[0]) and isbool(init):
            return and_(init, mk('fold', 'all', L.id, TRUE, not_(nx.args[0])))
        # conditional sum
        s = self.condsum(nx, M)
        if s is not None and clean(s):
            return bin_('+', init, mk('fold', 'sum', L.id, ZERO, bin_('+', mk('hole', L.id), s)))
        # container updates
        if k[0] == 'o' or k[0] == 'v':
            kind = self.updkind(nx, M)
            if kind is not None:
                body = subst(nx, {M: mk('hole', L.id)})
                if clean(body):
                    return mk('fold', kind, L.id, init, body)
        # last value, independent of earlier iterations
        return None

    def condsum(self, nx, M):
        if nx is M:
            return ZERO
        if nx.op == 'ite':
            a = self.condsum(nx.args[1], M)
            b = self.condsum(nx.args[2], M)
            if a is None or b is None:
                return None
            return ite(nx.args[0], a, b)
        if nx.op == 'bin' and nx.args[0] == '+' and nx.args[1].op != 'c':
            a = self.condsum(nx.args[1], M)
            if a is not None:
                return bin_('+', a, nx.args[2])
        return None

    def updkind(self, t, M):
        """is t a chain of functional updates on M whose other parts do not mention M?"""
        kinds = set()

        def rec(t, M):
            if t is M:
                return True
            if t.op == 'ite':
                return rec(t.args[1], M) and rec(t.args[2], M)
            if t.op == 'store':
                kinds.add('upd')
                return rec(t.args[0], M)
            if t.op == 'cat':
                kinds.add('cat')
                return rec(t.args[0], M)
            if t.op == 'fold' and t.args[0] in ('upd', 'cat'):
                kinds.add(t.args[0])
                return rec(t.args[2], M)
            return False
        if rec(t, M) and len(kinds) == 1:
            return kinds.pop()
        return None

    def mentions_via_loops(self, t, M):
        """does t depend on M through an inner loop's carried variables?"""
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x is M:
                return True
            if x.op in ('fin', 'mu'):
                L = self.loops.get(x.args[0])
                if L is not None and x.args[0] != M.args[0]:
                    if x.args[1] in L.init:
                        st.append(L.init[x.args[1]])
                    if x.args[1] in L.next:
                        st.append(L.next[x.args[1]])
                    st.append(L.stop)
                    if L.count is not None:
                        st.append(L.count)
            st.extend(a for a in x.args if isinstance(a, T))
        return False

    def substloops(self, L, inner, m):
        if not m:
            return
        memo = {}
        f = lambda t: subst(t, m, memo)

        def ev(evs):
            for e in evs:
                e.guard = f(e.guard)
                e.args = [f(a) if isinstance(a, T) else a for a in e.args]
        for X in [L] + inner:
            for d in (X.init, X.next):
                for k in list(d):
                    if X is L and d is X.init:
                        continue
                    d[k] = f(d[k])
            X.stop = f(X.stop)
            if X is not L and X.count is not None:
                X.count = f(X.count)
            ev(X.events)
            if hasattr(X, 'flagnext'):
                X.flagnext = {k: f(v) for k, v in X.flagnext.items()}

    def soften(self, L, inner, cond):
        """a body that can only be left by raising: the state after the loop only matters when nothing was raised"""
        x = L.flagnext.get('x', FALSE)
        if x is FALSE or any(v is not FALSE for f, v in L.flagnext.items() if f != 'x'):
            return
        memo = {}

        def f(t):
            return assume_not(t, x, memo)
        for d in [L.next] + [d for X in inner for d in (X.init, X.next)]:
            for k in list(d):
                d[k] = f(d[k])
        for X in inner:
            X.stop = f(X.stop)
            if X.count is not None:
                X.count = f(X.count)
        L.stop = f(not_(cond))
        L.flagnext['x'] = or_(mk('mu', L.id, ('f', 'x')), x)

    def booleans(self, L, inner):
        """loop variables that start as a boolean and are only ever given booleans: greatest fixpoint over the loop and those inside it"""
        cand = {}
        for X in [L] + inner:
            for k in X.next:
                if k[0] in 'vx' and X.init.get(k, UNDEF) is not UNDEF and X.next[k] is not UNDEF:
                    if k not in X.bools:
                        cand[(X.id, k)] = (mk('mu', X.id, k), mk('fin', X.id, k), X)
        if not cand:
            return
        BOOLS.update(cand)
        live = set(cand)
        while True:
            drop = [c for c in live if not (isbool(cand[c][2].init[c[1]]) and isbool(cand[c][2].next[c[1]]))]
            if not drop:
                break
            for c in drop:
                live.discard(c)
                BOOLS.discard(c)
        for lid, k in live:
            cand[(lid, k)][2].bools.add(k)
        if live:
            # rebuild what mentions them
            away = {}
            for c in live:
                for x in cand[c][:2]:
                    away[x] = mk('sym', 'away%d' % x.id, 'bool')
            self.substloops(L, inner, away)
            self.substloops(L, inner, {v: k for k, v in away.items()})

    def normalise(self, L, inner, cond):
        self.booleans(L, inner)
        lid = L.id
        lv = mk('lv', lid)
        mem = {}
        inv = lambda t: not mentions(t, lambda x: (x.op in ('mu', 'lv') and x.args[0] == lid) or x.op == 'mcall') and \
            not any(self.mentions_via_loops(t, mk('mu', lid, k)) for k in L.next if k[0] != 'f')
        # while -> counted
        if L.count is None and cond.op == 'cmp' and L.stop is not_(cond):
            for k in list(L.next):
                M = mk('mu', lid, k)
                nx = L.next[k]
                nb = nx.args[1] if (nx.op == 'ite' and nx.args[0] is cond) else (nx.args[2] if nx.op == 'ite' and nx.args[0] is not_(cond) else nx)
                st = self.step(nb, M)
                if st is None or not inv(st):
                    continue
                op, a, b = cond.args
                cnt = None
                init = L.init[k]
                if op == '<' and a is M and inv(b):
                    cnt = self.rangelen(init, b, st)
                elif op == '<' and b is M and inv(a):
                    cnt = self.rangelen(init, a, st)
                elif op == '<=' and a is M and inv(b):
                    cnt = self.rangelen(init, bin_('+', b, ONE), st)
                elif op == '<=' and b is M and inv(a):
                    cnt = self.rangelen(init, bin_('-', a, ONE), st)
                elif op == '!=' and a is M and inv(b):
                    cnt = self.rangelen(init, b, st)
                elif op == '!=' and b is M and inv(a):
                    cnt = self.rangelen(init, a, st)
                if cnt is None:
                    continue
                L.count = cnt
                self.substloops(L, inner, {cond: TRUE, not_(cond): FALSE})
                L.stop = FALSE
                break
        # induction variables
        if L.count is not None:
            for k in list(L.next):
                M = mk('mu', lid, k)
                st = self.step(L.next[k], M)
                if st is not None and inv(st) and L.init[k] is not UNDEF and L.stop is FALSE:
                    init = L.init[k]
                    if init.op == 'c' and not isnumc(init):
                        continue
                    val = bin_('+', init, bin_('*', st, lv))
                    if init is ZERO and st is ONE:
                        val = lv
                    nxt = L.next[k]
                    self.substloops(L, inner, {M: val})
                    L.next[k] = nxt
        # variables that only change in the first iteration
        if L.count is not None:
            for k in list(L.next):
                M = mk('mu', lid, k)
                if k[0] != 'v' or L.init[k] is UNDEF or L.next[k] is UNDEF or not inv(L.next[k]) or L.next[k].op == 'ref' or L.init[k].op == 'ref':
                    continue
                nxt = L.next[k]
                self.substloops(L, inner, {M: ite(cmp_('==', lv, ZERO), L.init[k], nxt)})
                L.next[k] = nxt
                L.events = self.splitwrites(L.events)
        # reads of fields no store of the loop can touch
        for k in list(L.next):
            if k[0] != 'o':
                continue
            M = mk('mu', lid, k)
            self.hoist_reads(L, inner, k, M)

    def splitwrites(self, evs):
        """writing one of two texts is writing the one or the other; writing no text is nothing"""
        out = []
        for e in evs:
            t = e.args[0] if e.kind == 'call' and len(e.args) == 1 else None
            if t is None or t.op != 'mcall' or t.args[0] != 'write' or len(t.args) != 4:
                out.append(e)
                continue
            x = t.args[3]
            if x.op == 'ite':
                for g, y in ((x.args[0], x.args[1]), (not_(x.args[0]), x.args[2])):
                    n = Event(and_(e.guard, g), e.kind, e.chan, [mk('mcall', 'write', t.args[1], t.args[2], y)], e.loop, e.node, e.fn)
                    out += self.splitwrites([n])
            elif not (isc(x) and cv(x) == ''):
                out.append(e)
        return out

    def step(self, nx, M):
        if nx.op == 'bin' and nx.args[0] == '+':
            if nx.args[1] is M:
                return nx.args[2]
            if nx.args[2] is M:
                return nx.args[1]
        if nx.op == 'bin' and nx.args[0] == '-' and nx.args[1] is M:
            return un_('-', nx.args[2])
        return None

    def hoist_reads(self, L, inner, k, M):
        qs = []
        ok = [True]
        seen = set()

        def collect(t):
            if t is M or t.id in seen:
                return
            seen.add(t.id)
            if t.op == 'store':
                qs.append(t.args[1].args)
                collect(t.args[0])
            elif t.op == 'ite':
                collect(t.args[1])
                collect(t.args[2])
            elif t.op == 'fold' and t.args[0] == 'upd':
                collect(t.args[2])
                collect(t.args[3])
            elif t.op == 'hole':
                pass
            elif t.op == 'fin' and t.args[1] == k:
                I = self.loops[t.args[0]]
                collect(I.init[k])
                collect(I.next[k])
            elif t.op == 'mu' and t.args[1] == k:
                pass
            else:
                ok[0] = False
        collect(L.next[k])
        if not ok[0] or not qs:
            return
        m = {}

        def scan(t, sc):
            st = [t]
            while st:
                x = st.pop()
                if x.id in sc:
                    continue
                sc.add(x.id)
                if x.op == 'idx':
                    p = []
                    y = x
                    while y.op == 'idx':
                        p.append(y.args[1])
                        y = y.args[0]
                    p.reverse()
                    if y is M or (y.op == 'mu' and y.args[1] == k and y.args[0] > L.id):
                        if all(self.pdiff(q, p) for q in qs):
                            m[x] = self._nest(L.init[k], p) if not ('o', L.init[k]) in self.S else self._nest(L.init[k], p)
                            st.extend(p)
                            continue
                        st.extend(p)
                        continue
                st.extend(a for a in x.args if isinstance(a, T))
        sc = set()
        for X in [L] + inner:
            for d in (X.next, X.init):
                for kk, t in d.items():
                    if X is L and d is X.init:
                        continue
                    scan(t, sc)
            scan(X.stop, sc)
            if X.count is not None and X is not L:
                scan(X.count, sc)
            for e in X.events:
                scan(e.guard, sc)
                for a in e.args:
                    if isinstance(a, T):
                        scan(a, sc)
        if m:
            self.substloops(L, inner, m)

    def pdiff(self, q, p):
        """store path q can never touch read path p (in any iteration)"""
        for a, b in zip(q, p):
            if a.op == 'an' and b.op == 'an' and a is not b:
                return True
            if isc(a) and isc(b) and known_distinct(a, b) is True:
                return True
        return False

    # ------------------------------------------------------------------ events / channels
    def chan(self, x):
        n = 0
        while n < 50:
            n += 1
            x = self.get_path(x)[0]
            if x.op == 'mcall':
                if isinstance(x.args[2], T) and x.args[2] is not NONE:
                    x = x.args[2]
                    continue
                return x
            if x.op == 'app' and len(x.args) > 1 and isinstance(x.args[1], T) and x.args[0] in ('enter', 'cast'):
                x = x.args[1]
                continue
            if x.op == 'ite':
                x = x.args[1] if not isc(x.args[1]) else x.args[2]
                continue
            return x
        return x

    def event(self, kind, chan, args):
        if self.guard is FALSE:
            return
        node, fn = self.node, self.frame.name if self.frames else None
        for i in range(len(self.frames) - 1, 0, -1):
            # a model of a function: the event is located where that is called
            f = self.frames[i]
            if not f.name.startswith('specs.') or f.callnode is None:
                break
            if not self.frames[i - 1].name.startswith('specs.'):
                node, fn = f.callnode, self.frames[i - 1].name
        self.events.append(Event(self.guard, kind, chan, [self.freeze(a) if isinstance(a, T) else a for a in args], None, node, fn))

    # ------------------------------------------------------------------ expressions
    def evb(self, e):
        return self.ev(e)

    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Giveup('expression ' + type(e).__name__)
        r = m(e)
        if r.id not in self.loc and self.frames and hasattr(e, 'lineno'):
            self.loc[r.id] = (self.frames[-1].mod.path, e.lineno, self.frames[-1].name)
        return r

    def e_Constant(self, e):
        if isinstance(e.value, (int, float, str, bytes, bool)) or e.value is None:
            return C(e.value)
        return mk('c', type(e.value).__name__, repr(e.value))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Giveup('starred tuple')
        return mk('tuple', *[self.ev(x) for x in e.elts])

    def e_List(self, e):
        acc = mk('list')
        for x in e.elts:
            if isinstance(x, ast.Starred):
                acc = self.cat(acc, self.seqcontent(self.ev(x.value)))
            else:
                acc = self.cat(acc, mk('list', self.ev(x)))
        return self.newref(acc)

    def e_Set(self, e):
        return self.newref(mk('app', 'set', mk('list', *[self.ev(x) for x in e.elts])))

    def e_Dict(self, e):
        r = self.newref(mk('dict'))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dictupdate(r, self.ev(v))
            else:
                self.store(r, [self.ev(k)], self.ev(v))
        return r

    def dictupdate(self, r, d):
        c = self.cur(d)
        if c.op == 'dict':
            for i in range(0, len(c.args), 2):
                self.store(r, [c.args[i]], c.args[i + 1])
            return
        if c.op == 'ite':
            self.branch(c.args[0], lambda: self.dictupdate(r, c.args[1]), lambda: self.dictupdate(r, c.args[2]))
            return
        self.setcontent(r, mk('app', 'dictmerge', self.cur(r), self.freeze(c)))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                parts.append(self.e_FormattedValue(v))
        return self.fstr(parts)

    def e_FormattedValue(self, e):
        v = self.freeze(self.ev(e.value))
        if e.conversion not in (-1, 115) or e.format_spec is not None:
            return mk('app', 'formatted', v, C(e.conversion), self.ev(e.format_spec) if e.format_spec is not None else NONE)
        return v

    def fstr(self, parts):
        """text made of the given parts: adjacent fixed parts are one part"""
        out = []
        for p in parts:
            for q in (p.args[1:] if p.op == 'app' and p.args[0] == 'fstr' else [p]):
                while q.op == 'app' and q.args[0] == 'str' and len(q.args) == 2:
                    q = q.args[1]
                if isc(q) and type(cv(q)) in (int, bool):
                    q = C(str(cv(q)))
                if isc(q) and cv(q) == '':
                    continue
                if out and isc(q) and isc(out[-1]) and isinstance(cv(q), str) and isinstance(cv(out[-1]), str):
                    out[-1] = C(cv(out[-1]) + cv(q))
                else:
                    out.append(q)
        if not out:
            return C('')
        if len(out) == 1:
            return self.b_str(out, {})
        return mk('app', 'fstr', *out)

    def formatstr(self, fmt, args, kw):
        """fmt.format(*args, **kw) for plain replacement fields, else None"""
        import string
        parts = []
        auto = 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(C(lit))
                if name is None:
                    continue
                if name == '' or name.isdigit():
                    i = int(name) if name else auto
                    auto += 1
                    v = args[i]
                elif name in kw:
                    v = kw[name]
                else:
                    return None
                if spec or conv not in (None, 's'):
                    if '{' in (spec or ''):
                        return None
                    v = mk('app', 'formatted', v, C(-1 if conv in (None, 's') else ord(conv)), C(spec) if spec else NONE)
                parts.append(v)
        except (ValueError, IndexError):
            return None
        return self.fstr(parts)

    def e_Lambda(self, e):
        f = self.frame
        f.keep = True
        if not hasattr(e, '_fn'):
            node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[],
                                   returns=None, type_params=[])
            ast.copy_location(node, e)
            e._fn = node
        return self.fnterm(f.mod, e._fn, f.fid, f.name + '.<lambda>')

    def e_IfExp(self, e):
        c = self.tv(self.ev(e.test))
        if c is TRUE:
            return self.ev(e.body)
        if c is FALSE:
            return self.ev(e.orelse)
        k = ('x', 'tmp', self.fresh('flag'))
        self.branch(c, lambda: self.setx(k, self.ev(e.body)), lambda: self.setx(k, self.ev(e.orelse)))
        v = self.S.pop(k, UNDEF)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def rec(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.tv(v)
            if isc(c):
                if cv(c) == isand:
                    return rec(i + 1)
                return v
            k = ('x', 'tmp', self.fresh('flag'))
            if isand:
                self.branch(c, lambda: self.setx(k, rec(i + 1)), lambda: self.setx(k, FALSE if isbool(v) else v))
            else:
                self.branch(c, lambda: self.setx(k, TRUE if isbool(v) else v), lambda: self.setx(k, rec(i + 1)))
            return self.S.pop(k, UNDEF)
        return rec(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.tv(v))
        v = self.val(v)
        if isinstance(e.op, ast.USub):
            return un_('-', v)
        if isinstance(e.op, ast.Invert):
            if isbool(v):
                return not_(v)
            return un_('~', v)
        return v

    def tv(self, v):
        """truth value term, looking through references"""
        if v.op == 'ite':
            return ite(v.args[0], self.tv(v.args[1]), self.tv(v.args[2]))
        if v.op == 'ref':
            c = self.cur(v)
            if c.op in ('list', 'tuple'):
                return C(len(c.args) > 0)
            if c.op == 'dict':
                return C(len(c.args) > 0)
            if c.op == 'obj' or (c.op == 'store' and self.baseop(c) == 'obj'):
                return TRUE
            if c.op == 'ref':
                return self.tv(c)
            if c.op == 'cat' and (c.args[1].op == 'list' and c.args[1].args or c.args[0].op == 'list' and c.args[0].args):
                return TRUE
            if c.op == 'ite':
                return ite(c.args[0], self.tvc(c.args[1]), self.tvc(c.args[2]))
            return mk('app', 'bool', self.freeze(c))
        return truthy(v)

    def tvc(self, c):
        if c.op in ('list', 'tuple', 'dict'):
            return C(len(c.args) > 0)
        if c.op == 'ite':
            return ite(c.args[0], self.tvc(c.args[1]), self.tvc(c.args[2]))
        if c.op == 'cat' and (c.args[1].op == 'list' and c.args[1].args or c.args[0].op == 'list' and c.args[0].args):
            return TRUE
        return mk('app', 'bool', self.freeze(c))

    def baseop(self, c):
        while c.op == 'store':
            c = c.args[0]
        return c.op

    def val(self, v):
        """value of v for arithmetic (contents instead of array references)"""
        if v.op == 'ref':
            return self.val(self.cur(v)) if ('o', v) in self.S else v
        if v.op == 'ite' and (v.args[1].op == 'ref' or v.args[2].op == 'ref'):
            return ite(v.args[0], self.val(v.args[1]), self.val(v.args[2]))
        if v.op in ('sym', 'app', 'mcall') and ('o', v) in self.S:
            return self.S[('o', v)]
        return v

    def binop(self, op, a, b):
        x, y = self.val(a), self.val(b)
        if op == '+' and (x.op in ('list', 'cat') or y.op in ('list', 'cat') or (x.op == 'fold' and x.args[0] == 'cat')):
            return self.newref(self.cat(x, y))
        if op == '+' and x.op == 'tuple' and y.op != 'tuple':
            return mk('cat', x, y)
        if op == '*' and x.op == 'list' and isc(y) and isinstance(cv(y), int):
            return self.newref(mk('list', *(x.args * cv(y))))
        if op == '%' and x.op == 'c' and isinstance(cv(x), str):
            import re
            fs = re.split(r'(%s)', cv(x)) if '%' not in cv(x).replace('%s', '') else []
            vs = list(y.args) if y.op == 'tuple' else [y]
            if fs.count('%s') == len(vs):
                vs.reverse()
                return self.fstr([self.freeze(vs.pop()) if f == '%s' else C(f) for f in fs])
            return mk('app', 'fstr', x, self.freeze(y))
        if op == '+' and any(isc(u) and isinstance(cv(u), str) for u in (x, y)) and all(
                isc(u) and isinstance(cv(u), str) or u.op == 'app' and u.args[0] in ('str', 'fstr') for u in (x, y)):
            return self.fstr([self.freeze(x), self.freeze(y)])
        if op in '&|' and isbool(x) and isbool(y):
            return and_(x, y) if op == '&' else or_(x, y)
        r = bin_(op, x, y)
        return r

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        r = self.binop(BIN[type(e.op)], a, b)
        # computed again after the first result was written to: another object
        return self.newref(r) if ('o', r) in self.S and r.op in self.COMPUTED else r

    def e_Compare(self, e):
        out = []
        a = self.ev(e.left)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r)
            o = CMP[type(op)]
            out.append(self.compare(o, a, b))
            a = b
        return and_(*out) if len(out) > 1 else out[0]

    def compare(self, o, a, b):
        if o in ('is', 'isnot'):
            if a.op == 'ref' and b.op == 'ref':
                return C((a is b) == (o == 'is'))
            x, y = a, b
            return cmp_(o, x, y)
        x, y = self.val(a), self.val(b)
        x, y = self.freeze(x), self.freeze(y)
        for p, q in ((x, y), (y, x)):
            dn = self.dtname(q) if q.op == 'builtin' else None
            if dn is not None:
                q2 = C(dn)
                pp = p
                if pp.op == 'builtin' and self.dtname(pp):
                    pp = C(self.dtname(pp))
                return cmp_(o, pp, q2)
        if o in ('in', 'notin'):
            r = self.contains(y, x)
            if r is not None:
                return r if o == 'in' else not_(r)
        if o in ('in', 'notin') and y.op == 'c' and isinstance(cv(y), str) and x.op != 'c':
            return mk('cmp', o, x, y)
        if o in ('in', 'notin') and y.op == 'dict' and all(isc(y.args[i]) for i in range(0, len(y.args), 2)):
            r = or_(*[cmp_('==', x, y.args[i]) for i in range(0, len(y.args), 2)])
            return r if o == 'in' else not_(r)
        return cmp_(o, x, y)

    def contains(self, c, k, depth=0):
        """key k in mapping c, when the mapping is built from a literal by stores; None: not of that form"""
        if depth > 200:
            return None
        if c.op == 'dict':
            return or_(*[cmp_('==', k, c.args[i]) for i in range(0, len(c.args), 2)]) if len(c.args) else FALSE
        if c.op == 'ite':
            a, b = self.contains(c.args[1], k, depth + 1), self.contains(c.args[2], k, depth + 1)
            return None if a is None or b is None else ite(c.args[0], a, b)
        if c.op == 'store' and len(c.args[1].args) == 1 and c.args[1].args[0].op != 'slice':
            r = self.contains(c.args[0], k, depth + 1)
            return None if r is None else or_(r, cmp_('==', k, c.args[1].args[0]))
        return None

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if o.op == 'ite':
            return ite(o.args[0], self.getattr(o.args[1], name), self.getattr(o.args[2], name))
        if o.op == 'app' and o.args[0] in ('numpy.finfo', 'numpy.iinfo') and len(o.args) == 2:
            x = typelimit(o.args[1], name)
            if x is not None:
                return x
        if o.op == 'mod':
            m = o.args[0]
            k = ('g', m, name)
            if k in self.S:
                return self.S[k]
            r = self.p.resolve_dotted(m + '.' + name)
            if r[0] == 'mod':
                return mk('mod', r[1].name)
            if r[0] == 'glob':
                return self.globalval(r[1].name, r[2])
            return extconst(r[1])
        if o.op == 'builtin':
            return extconst(o.args[0] + '.' + name)
        if o.op == 'cls':
            return self.clsattr(o, name)
        if o.op == 'super':
            mod, node, inst, after = o.args[0], None, o.args[1], o.args[2]
            r = self.findmethod(mod, name, after)
            if r is not None:
                return mk('bound', inst, self.fnterm(r[0], r[1], None, '%s:%s.%s' % (r[0].name, r[2], name)))
            return mk('builtin', 'super.' + name)
        if o.op == 'struct':
            for i in range(1, len(o.args), 2):
                if o.args[i] == name:
                    return o.args[i + 1]
            return mk('bound', o, mk('builtin', 'meth.' + name))
        if o.op == 'fn':
            return mk('app', 'fnattr', o, C(name))
        an = mk('an', name)
        root, path = self.get_path(o)
        base = self.cur(o) if o.op == 'ref' or ('o', root) in self.S else o
        bo = self.objbase(base)
        if bo is not None:
            if bo.op == 'obj':
                v = self.read(base, [an])
                if v is MISSING or (v.op == 'idx' and v.args[1] is an and self.findmethod(bo.args[0], name) is not None):
                    return self.instattr(o, bo.args[0], name)
                if v.op == 'idx' or v.op != 'missing':
                    return self.strip_missing(v, lambda: self.instattr(o, bo.args[0], name))
            if bo.op == 'struct':
                return self.load(o, an)
        if self.attrkey(o, name) is not an:
            return self.load(o, C(name))
        if name in ('shape', 'dtype', 'ndim', 'size', 'T') and name != 'T':
            return self.arrattr(self.cur(o), name)
        if name in ('name', 'char', 'kind', 'itemsize', 'str'):
            dt = self.cur(o)
            if dt.op == 'app' and dt.args[0] == 'dtype' and name == 'name':
                return dt       # a dtype is known by its name
            if dt.op == 'c' and cv(dt) in DTNAMES:
                n = cv(dt)
                if name == 'name':
                    return dt
                if name == 'kind':
                    return C('b' if n == 'bool' else n[0])
                if name == 'itemsize':
                    return C(1 if n == 'bool' else int(n.lstrip('intufloa')) // 8)
        if o.op in ('tuple', 'list', 'c'):
            return mk('bound', o, mk('builtin', 'meth.' + name))
        # opaque object: attribute value or method; decided by use
        v = self.load(o, an) if ('o', root) in self.S and path_has_store(self.S[('o', root)], path, an) else idx_(o, an)
        if o.op == 'ref' and v.op == 'idx' and v.args[1] is an and v.args[0] is base:
            # nothing known about the attribute of this object: a method of it
            return mk('idx', o, an)
        return v

    def strip_missing(self, v, f):
        if v is MISSING:
            return f()
        if v.op == 'ite':
            return ite(v.args[0], self.strip_missing(v.args[1], f), self.strip_missing(v.args[2], f))
        return v

    def objbase(self, c):
        while True:
            if c.op == 'store':
                c = c.args[0]
            elif c.op == 'ite':
                c = c.args[1]
            elif c.op in ('mu', 'fin'):
                L = self.loops.get(c.args[0])
                if L is None or c.args[1] not in L.init:
                    c = self.prestate.get((c.args[0], c.args[1]))
                    if c is None:
                        return None
                    continue
                c = L.init[c.args[1]]
            elif c.op == 'fold':
                c = c.args[2]
            elif c.op in ('obj', 'struct'):
                return c
            else:
                return None

    def arrattr(self, c, name):
        """shape / dtype / ndim / size of an array content, independent of element stores"""
        while True:
            if c.op == 'store' or (c.op == 'fold' and c.args[0] == 'upd'):
                c = c.args[0] if c.op == 'store' else c.args[2]
                continue
            if c.op == 'ref':
                n = self.cur(c)
                if n is c:
                    break
                c = n
                continue
            if c.op in ('mu', 'fin'):
                L = self.loops.get(c.args[0])
                if L is not None and c.args[1] in L.init:
                    c = L.init[c.args[1]]
                    continue
                if isinstance(c.args[1], tuple) and c.args[1][0] == 'o':
                    x = c.args[1][1]
                    if x.op == 'ref':
                        # initial content not registered yet (loop under construction)
                        return self.arrattr_mu(c, name)
                    c = x
                    continue
            if c.op == 'cast':
                if name == 'dtype':
                    return C(c.args[0])
                c = c.args[1]
                continue
            if c.op == 'ite':
                return ite(c.args[0], self.arrattr(c.args[1], name), self.arrattr(c.args[2], name))
            break
        if c.op == 'full':
            if name == 'shape':
                return c.args[0]
            if name == 'dtype':
                return c.args[2]
        if name == 'shape' and c.op == 'bin':
            return self.arrattr(c.args[1], name)
        if name == 'ndim':
            s = self.arrattr(c, 'shape')
            if s.op == 'tuple':
                return C(len(s.args))
            return mk('app', 'len', s)
        if name == 'shape' and c.op == 'app' and c.args[0] == 'like':
            return self.arrattr(c.args[1], 'shape')
        return mk('app', name, c)

    def arrattr_mu(self, c, name):
        # find the init content in the saved pre-state: search current S for the same key one loop out
        x = c.args[1][1]
        pre = self.prestate.get((c.args[0], c.args[1])) if hasattr(self, 'prestate') else None
        if pre is not None:
            return self.arrattr(pre, name)
        return mk('app', name, c)

    def clsattr(self, o, name):
        modname, _, cname = o.args[0].partition(':')
        mod = self.p.modules.get(modname)
        if mod is None:
            return mk('builtin', o.args[0] + '.' + name)
        node = mod.globals[cname][1]
        if self.isenum(mod, node):
            if name == '__members__':
                return mk('app', 'members', o)
            return mk('enum', o.args[0], name)
        r = self.findmethod(o.args[0], name)
        if r is not None:
            return self.fnterm(r[0], r[1], None, '%s:%s.%s' % (r[0].name, r[2], name))
        v = self.classvar(mod, node, name)
        if v is not None:
            return v
        return mk('builtin', o.args[0] + '.' + name)

    def isenum(self, mod, node):
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in ('Enum', 'IntEnum', 'Flag'):
                return True
            if isinstance(b, ast.Attribute) and b.attr in ('Enum', 'IntEnum'):
                return True
        return False

    def classvar(self, mod, node, name):
        for mm, cn in self.p.mro(mod, node):
            for s in cn.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    fr0 = self.frames
                    self.frames = [self.newframe(mm, None, None, '<class>')]
                    try:
                        return self.ev(s.value)
                    finally:
                        self.frames = fr0
        return None

    def findmethod(self, clskey, name, after=None):
        modname, _, cname = clskey.partition(':')
        mod = self.p.modules.get(modname)
        if mod is None or cname not in mod.globals:
            return None
        node = mod.globals[cname][1]
        skip = after is not None
        for mm, cn in self.p.mro(mod, node):
            if skip:
                if mm.name + ':' + cn.name == after:
                    skip = False
                continue
            for s in cn.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return mm, s, cn.name
        return None

    def instattr(self, o, clskey, name):
        r = self.findmethod(clskey, name)
        if r is not None:
            ft = self.fnterm(r[0], r[1], None, '%s:%s.%s' % (r[0].name, r[2], name))
            for d in r[1].decorator_list:
                if isinstance(d, ast.Name) and d.id == 'property':
                    return self.call(ft, [o], {})
                if isinstance(d, ast.Name) and d.id == 'staticmethod':
                    return ft
                if isinstance(d, ast.Name) and d.id == 'classmethod':
                    return mk('bound', mk('cls', clskey), ft)
            return mk('bound', o, ft)
        modname, _, cname = clskey.partition(':')
        mod = self.p.modules.get(modname)
        if mod is not None:
            v = self.classvar(mod, mod.globals[cname][1], name)
            if v is not None:
                return v
        if name == '__class__':
            return mk('cls', clskey)
        return idx_(o, mk('an', name))

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev(e.slice)
        return self.subscript(o, i)

    def lastix(self, o, comps):
        """a[len(a) - 1] is a[-1], in every dimension; a[i, :] is a[i]"""
        whole = lambda i: i.op == 'slice' and all(x is NONE for x in i.args) or i is C(Ellipsis)
        if len(comps) > 1 and whole(comps[-1]) and not whole(comps[0]):
            comps = list(comps)
            while len(comps) > 1 and whole(comps[-1]):
                comps.pop()
        if not any(i.op == 'bin' and i.args[0] == '+' and isc(i.args[2]) and cv(i.args[2]) == -1 for i in comps) or o.op == 'ite':
            return comps
        if self.get_path(o)[1]:
            return comps
        c = self.cur(o)
        out = []
        for d, i in enumerate(comps):
            if i.op == 'bin' and i.args[0] == '+' and isc(i.args[2]) and cv(i.args[2]) == -1 and \
                    (i.args[1] is idx_(self.arrattr(c, 'shape'), C(d)) or d == 0 and self.islist(c) and i.args[1] is self.length(c)):
                i = C(-1)
            out.append(i)
        return out

    def subscript(self, o, i):
        if o.op in ('cls', 'builtin', 'mod'):
            return mk('app', 'getitem', o, i)
        if i.op == 'tuple':
            i = self.lastix(o, list(i.args))
            i = i[0] if len(i) == 1 else mk('tuple', *i)
        elif i.op == 'bin':
            i = self.lastix(o, [i])[0]
        if i.op == 'tuple':
            # raster element
            return self.load(o, mk('tuple', *[self.ixval(c) for c in i.args]))
        i = self.ixval(i)
        if i.op == 'slice' and o.op == 'ref':
            c = self.cur(o)
            if c.op in ('list', 'cat') and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
                return self.newref(c)
            if c.op == 'list' and all(isc(a) for a in i.args):
                return self.newref(idx_(c, i))
            if self.islist(c) and i.args[0] is NONE and i.args[1] is NONE and isc(i.args[2]) and cv(i.args[2]) == -1:
                return self.newref(mk('app', 'listreverse', c))
        if o.op in ('tuple',) and i.op == 'slice' and i.args[0] is NONE and i.args[2] is NONE and o.op == 'tuple':
            return idx_(o, i)
        return self.load(o, i)

    def ixval(self, i):
        if i.op == 'ref':
            return self.freeze(i)
        if i.op == 'ite' and (i.args[1].op == 'ref' or i.args[2].op == 'ref'):
            return self.freeze(i)
        return i

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.ev(x)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e):
        raise Giveup('starred')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    # comprehensions
    def comp(self, gens, leaf):
        f = self.frame
        sub = self.newframe(f.mod, None, f.fid, f.name)
        sub.c = None

        def rec(i):
            if i == len(gens):
                leaf()
                return
            g = gens[i]
            if i == 0:
                self.frames.pop()
                it = self.ev(g.iter)
                self.frames.append(sub)
            else:
                it = self.ev(g.iter)

            def body(elem):
                self.assign(g.target, elem)
                conds = list(g.ifs)

                def cc(j):
                    if j == len(conds):
                        rec(i + 1)
                    else:
                        self.branch(self.tv(self.ev(conds[j])), lambda: cc(j + 1))
                cc(0)
            self.iterate(it, body, self.node)
        self.frames.append(sub)
        rec(0)
        self.frames.pop()
        for k in [k for k in self.S if k[0] == 'v' and k[1] == sub.fid]:
            del self.S[k]

    def e_ListComp(self, e):
        r = self.newref(mk('list'))

        def leaf():
            self.append(r, self.ev(e.elt))
        self.comp(e.generators, leaf)
        return r

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        r = self.e_ListComp(e)
        return self.newref(mk('app', 'set', self.freeze(r)))

    def e_DictComp(self, e):
        r = self.newref(mk('dict'))

        def leaf():
            k = self.ev(e.key)
            v = self.ev(e.value)
            self.store(r, [k], v)
        self.comp(e.generators, leaf)
        return r

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        f = self.frame
        while f is not None and f.hook is None and f.parent is not None:
            f = self.framereg.get(f.parent)
        if f is None or f.hook is None:
            raise Giveup('yield without consumer')
        fr = self.frames
        self.frames = f.consumer_frames
        li = self.loopids
        self.loopids = f.consumer_loopids
        try:
            f.hook(v)
        finally:
            self.frames = fr
            self.loopids = li
        return NONE

    def e_YieldFrom(self, e):
        it = self.ev(e.value)
        self.iterate(it, lambda v: self._yieldval(v), self.node)
        return NONE

    def _yieldval(self, v):
        f = self.frame
        fr = self.frames
        li = self.loopids
        self.frames = f.consumer_frames
        self.loopids = f.consumer_loopids
        try:
            f.hook(v)
        finally:
            self.frames = fr
            self.loopids = li

    def rungen(self, g, body):
        key = g.args[0]
        mod, node, fid, qual = self.fns[key]
        env = {a: v for a, v in zip(g.args[1], g.args[2:])}
        if sum(1 for f in self.frames if f.node is node) + sum(1 for q in self.active if q is node) > 0:
            # recursive generator: opaque sequence
            self.opaque_seq(g, body)
            return
        fr = self.newframe(mod, node, fid, qual)
        self.analysed.add(qual)
        for k, v in env.items():
            self.S[('v', fr.fid, k)] = v
        fr.hook = body
        fr.consumer_frames = self.frames
        fr.consumer_loopids = self.loopids
        R = ('r', fr.fid)
        self.flags.append(R)
        self.active.append(node)
        fr0 = self.frames
        li0 = self.loopids
        self.frames = fr0 + [fr]
        self.loopids = []
        try:
            self.block(node.body)
        finally:
            self.frames = fr0
            self.loopids = li0
            self.active.pop()
        self.flags.remove(R)
        self.S.pop(('f', R), None)
        self.S.pop(('x', 'ret', fr.fid), None)
        if not fr.keep:
            for k in [k for k in self.S if k[0] == 'v' and k[1] == fr.fid]:
                del self.S[k]

    active = None
    recnames = None

    def opaque_seq(self, g, body):
        args = [self.freeze(a) for a in g.args[2:]]
        seq = mk('app', self.recname(g.args[0].split('@')[0]), *args)
        self.loop(mk('app', 'len', seq), lambda lv: body(idx_(seq, lv)), self.node)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        self.callsites += 1
        args = []
        star = None
        f = self.ev(e.func) if not (isinstance(e.func, ast.Name) and e.func.id == 'super') else mk('builtin', 'super')
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.cur(self.ev(a.value))
                if v.op in ('tuple', 'list'):
                    args += list(v.args)
                elif v.op == 'struct' and v.args[0].startswith('nt:'):
                    args += [v.args[i] for i in range(2, len(v.args), 2)]
                else:
                    star = v
                    args.append(mk('app', 'star', self.freeze(v)))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.cur(self.ev(k.value))
                if v.op == 'dict':
                    for i in range(0, len(v.args), 2):
                        if isc(v.args[i]):
                            kw[cv(v.args[i])] = v.args[i + 1]
                else:
                    kw['**'] = self.freeze(v)
            else:
                kw[k.arg] = self.ev(k.value)
        old = self.node
        r = self.call(f, args, kw)
        self.node = old
        return r

    def call(self, f, args, kw):
        if f.op == 'ite':
            k = ('x', 'tmp', self.fresh('flag'))
            self.branch(f.args[0], lambda: self.setx(k, self.call(f.args[1], args, kw)),
                        lambda: self.setx(k, self.call(f.args[2], args, kw)))
            return self.S.pop(k, UNDEF)
        if f.op == 'fn':
            return self.callfn(f, args, kw)
        if f.op == 'bound':
            if f.args[1].op == 'fn':
                return self.callfn(f.args[1], [f.args[0]] + args, kw)
            if f.args[1].op == 'builtin':
                return self.method(f.args[0], f.args[1].args[0].split('.')[-1], args, kw)
        if f.op == 'cls':
            return self.instantiate(f, args, kw)
        if f.op == 'ntcls':
            return self.ntnew(f, args, kw)
        if f.op == 'partial':
            return self.call(f.args[0], list(f.args[1:]) + args, kw)
        if f.op == 'builtin':
            return self.callbuiltin(f.args[0], args, kw)
        if f.op == 'idx' and f.args[1].op == 'an':
            return self.method(f.args[0], f.args[1].args[0], args, kw)
        if f.op == 'ref':
            c = self.cur(f)
            bo = self.objbase(c)
            if bo is not None and bo.op == 'obj':
                m = self.getattr(f, '__call__')
                return self.call(m, args, kw)
        # opaque callable value
        fa = [self.freeze(a) for a in args] + [mk('kw', k, self.freeze(v)) for k, v in sorted(kw.items())]
        return mk('app', 'callvalue', self.freeze(f), *fa)

    def bind(self, mod, node, args, kw, qual):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            raise Giveup('too many arguments for ' + qual)
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwo:
                if k in env:
                    raise Giveup('duplicate argument %s for %s' % (k, qual))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise Giveup('unexpected keyword %s for %s' % (k, qual))
        nd = len(a.defaults)
        fr0 = self.frames
        for i, d in enumerate(a.defaults):
            n = names[len(names) - nd + i]
            if n not in env:
                self.frames = [self.newframe(mod, None, None, '<default>')]
                try:
                    env[n] = self.ev(d)
                finally:
                    self.frames = fr0
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                self.frames = [self.newframe(mod, None, None, '<default>')]
                try:
                    env[x.arg] = self.ev(d)
                finally:
                    self.frames = fr0
        for n in names + kwo:
            if n not in env:
                raise Giveup('missing argument %s for %s' % (n, qual))
        order = [(n, env[n]) for n in names + kwo]
        if a.vararg is not None:
            order.append((a.vararg.arg, mk('tuple', *rest)))
        if a.kwarg is not None:
            it = []
            for k, v in extra.items():
                it += [C(k), v]
            order.append((a.kwarg.arg, self.newref(mk('dict', *it))))
        return order

    def isgen(self, node):
        r = getattr(node, '_isgen', None)
        if r is None:
            r = False
            st = list(node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                st.extend(ast.iter_child_nodes(n))
            node._isgen = r
        return r

    def callfn(self, f, args, kw):
        mod, node, fid, qual = self.fns[f.args[0]]
        if qual in self.models:
            mod, node = self.p.fn(self.models[qual])
            fid, qual = None, self.models[qual]
        order = self.bind(mod, node, args, kw, qual)
        b = self.boundary.get(qual)
        if b is not None:
            return self.callboundary(qual, b, order)
        if self.active is None:
            self.active = []
        decos = [d for d in node.decorator_list]
        if self.isgen(node):
            return mk('gen', f.args[0], tuple(n for n, _ in order), *[v for _, v in order])
        if any(x is node for x in self.active) or len(self.active) > self.inline_depth:
            if order and order[0][1].op == 'ref':
                bo = self.objbase(self.cur(order[0][1]))
                if bo is not None and bo.op == 'obj':
                    order = order[1:]
            return self.callboundary(qual, dict(rec=True, name=self.recname(qual)), order)
        return self.inline(mod, node, fid, qual, order)

    def inline(self, mod, node, fid, qual, order):
        if self.active is None:
            self.active = []
        fr = self.newframe(mod, node, fid, qual)
        self.analysed.add(qual)
        for n, v in order:
            if fr.c is not None and n in fr.c['params'] and fr.c['params'][n] != 'object':
                v = self.cconv(fr.c['params'][n], v, mod)
            self.S[('v', fr.fid, n)] = v
        R = ('r', fr.fid)
        self.flags.append(R)
        self.active.append(node)
        fr0 = self.frames
        li0 = self.loopids
        self.frames = fr0 + [fr]
        self.loopids = []
        try:
            self.block(node.body)
        finally:
            self.frames = fr0
            self.loopids = li0
            self.active.pop()
        self.flags.remove(R)
        r = self.S.pop(('f', R), FALSE)
        ret = self.S.pop(('x', 'ret', fr.fid), NONE)
        if r is FALSE:
            ret = NONE
        elif r is not TRUE:
            ret = ite(r, self.cleanundef(ret, r), NONE) if self.live() is TRUE else ret
        if not fr.keep:
            for k in [k for k in self.S if k[0] == 'v' and k[1] == fr.fid]:
                del self.S[k]
        if fr.c is not None and fr.c['kind'] in ('cdef', 'cpdef') and fr.c['ret'] not in ('object', 'void'):
            ret = self.cconv(fr.c['ret'], ret, mod)
        return ret

    def cleanundef(self, ret, r):
        return ret

    def recname(self, qual):
        """recursive functions are named by the order in which their recursion is met"""
        return 'rec#%d' % self.recnames.setdefault(qual, len(self.recnames))

    def callboundary(self, qual, b, order):
        names = [n for n, _ in order]
        fa = [self.freeze(v) for _, v in order]
        t = mk('app', b.get('name', qual), *fa)
        for m in b.get('mut', ()):
            if m in names:
                v = dict(order)[m]
                newc = mk('app', qual + '!' + m, *fa)
                self.setcontent(v, newc)
        if b.get('event'):
            self.event('call', C(qual), [t])
        if b.get('rec'):
            self.event('call', C('rec'), [t])
            return t
        if b.get('fresh', True):
            n = b.get('multi')
            if n:
                return mk('tuple', *[self.newref(idx_(t, C(i))) for i in range(n)])
            if b.get('scalar'):
                return t
            return self.newref(t)
        return t

    def instantiate(self, f, args, kw):
        key = f.args[0]
        if key in self.models:
            key = self.models[key]
        modname, _, cname = key.partition(':')
        mod = self.p.modules[modname]
        node = mod.globals[cname][1]
        if self.isenum(mod, node):
            return mk('app', 'enumval', f, *[self.freeze(a) for a in args])
        o = self.newref(mk('obj', key))
        r = self.findmethod(key, '__init__')
        if r is not None:
            self.callfn(self.fnterm(r[0], r[1], None, '%s:%s.__init__' % (r[0].name, r[2])), [o] + args, kw)
        elif args or kw:
            # namedtuple-like base or dataclass: positional fields
            flds = [s.target.id for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            for n, v in list(zip(flds, args)) + list(kw.items()):
                self.store(o, [mk('an', n)], v)
        return o

    def ntnew(self, f, args, kw):
        name, fields = f.args[0], f.args[1]
        vals = dict(zip(fields, args))
        vals.update(kw)
        a = []
        for n in fields:
            if n not in vals:
                raise Giveup('namedtuple field')
            a += [n, vals[n]]
        return mk('struct', 'nt:' + name, *a)

    # -- sequences
    def cat(self, a, b):
        if a.op == 'list' and not a.args:
            return b
        if b.op == 'list' and not b.args:
            return a
        if a.op == 'list' and b.op == 'list':
            return mk('list', *(a.args + b.args))
        if b.op == 'fold' and b.args[0] == 'cat' and b.args[2].op == 'list' and not b.args[2].args and (b.args[1] not in self.loops or self.loops[b.args[1]].stop in (None, FALSE)):
            # appending to a list the elements a loop collects is collecting them in that list
            return mk('fold', 'cat', b.args[1], a, *b.args[3:])
        if a.op == 'cat' and a.args[1].op == 'list' and b.op == 'list':
            return mk('cat', a.args[0], mk('list', *(a.args[1].args + b.args)))
        if b.op == 'cat':
            return self.cat(self.cat(a, b.args[0]), b.args[1])
        return mk('cat', a, b)

    def append(self, x, v):
        self.setcontent(x, self.cat(self.cur(x), mk('list', v)))

    def seqcontent(self, it):
        """list content of any iterable value"""
        if it.op in ('gen', 'iter', 'ite') or (it.op == 'ref' and self.cur(it).op in ('gen', 'iter')):
            r = self.newref(mk('list'))
            self.iterate(it, lambda e: self.append(r, e), self.node)
            return self.cur(r)
        c = self.cur(it)
        if c.op == 'tuple':
            return mk('list', *c.args)
        if c.op in ('list', 'cat') or (c.op == 'fold' and c.args[0] == 'cat'):
            return c
        if self.isdict(c):
            r = self.newref(mk('list'))
            self.iterate(it, lambda e: self.append(r, e), self.node)
            return self.cur(r)
        if c.op == 'ite':
            r = self.newref(mk('list'))
            self.iterate(it, lambda e: self.append(r, e), self.node)
            return self.cur(r)
        return self.freeze(c)

    # -- methods on values
    def method(self, o, name, args, kw):
        if o.op == 'ite':
            k = ('x', 'tmp', self.fresh('flag'))
            self.branch(o.args[0], lambda: self.setx(k, self.call(self.getattr(o.args[1], name), args, kw)),
                        lambda: self.setx(k, self.call(self.getattr(o.args[2], name), args, kw)))
            return self.S.pop(k, UNDEF)
        c = self.cur(o)
        if c.op == 'c' and cv(c) is None:
            self.event('raise', 'control', [C('AttributeError')])
            self.setflag('x')
            return NONE
        if name in IGNORED_METHODS:
            return NONE
        fr = self.freeze
        if name in ('append', 'c_append', 'add') and len(args) == 1 and name != 'add':
            self.append(o, args[0])
            return NONE
        if name == 'extend' and len(args) == 1:
            self.setcontent(o, self.cat(c, self.seqcontent(args[0])))
            return NONE
        if name in ('pop', 'popleft', 'popitem') and not self.isdict(c) and not kw:
            i = C(0) if name == 'popleft' else (args[0] if args else C(-1))
            if len(args) == 2:
                v = mk('app', 'dictpop', fr(c), fr(args[0]), fr(args[1]))
                self.setcontent(o, mk('app', 'delitem', c, args[0]))
                return v
            if c.op == 'list' and isc(i) and isinstance(cv(i), int) and -len(c.args) <= cv(i) < len(c.args):
                a = list(c.args)
                v = a.pop(cv(i))
                self.setcontent(o, mk('list', *a))
                return v
            v = self.read(c, [i])
            if v.op == 'idx' and v.args[0] is c:
                v = mk('idx', mk('snap', c), i)
            self.detach(o, c)
            if isc(i) and cv(i) == -1 and c.op == 'cat' and c.args[1].op == 'list' and c.args[1].args:
                self.setcontent(o, self.cat(c.args[0], mk('list', *c.args[1].args[:-1])))
            elif isc(i) and cv(i) == -1:
                self.setcontent(o, mk('app', 'droplast', c))
            elif isc(i) and cv(i) == 0:
                self.setcontent(o, mk('app', 'dropfirst', c))
            else:
                self.setcontent(o, mk('app', 'delitem', c, i))
            return v
        if name == 'appendleft':
            self.detach(o, c)
            self.setcontent(o, self.cat(mk('list', args[0]), c))
            return NONE
        if name == 'insert' and len(args) == 2:
            self.detach(o, c)
            if isc(args[0]) and cv(args[0]) == 0:
                self.setcontent(o, self.cat(mk('list', args[1]), c))
            else:
                self.setcontent(o, mk('app', 'listinsert', c, args[0], args[1]))
            return NONE
        if name == 'remove' and len(args) == 1 and (self.islist(c) or o.op == 'ref' and c.op not in ('obj', 'store', 'set') and not self.isdict(c)):
            a0 = args[0]
            if c.op == 'list' and a0 in c.args:
                a = list(c.args)
                a.remove(a0)
                self.setcontent(o, mk('list', *a))
            elif o.op == 'ref' and (self.load(o, ZERO) is a0 or self.read(c, [ZERO]) is a0):
                self.detach(o, c)
                self.setcontent(o, mk('app', 'dropfirst', c))
            else:
                self.detach(o, c)
                self.setcontent(o, mk('app', 'listremove', c, fr(a0)))
            return NONE
        if name in ('reverse', 'sort') and self.islist(c):
            if c.op == 'list' and name == 'reverse':
                self.setcontent(o, mk('list', *reversed(c.args)))
            else:
                self.detach(o, c)
                if name == 'reverse' and c.op == 'app' and c.args[0] == 'listreverse':
                    self.setcontent(o, c.args[1])
                    return NONE
                self.setcontent(o, mk('app', 'list' + name, c, *[mk('kw', k, fr(v)) for k, v in sorted(kw.items())]))
            return NONE
        if name == 'clear' and not args:
            self.detach(o, c)
            self.setcontent(o, mk('dict') if self.isdict(c) else mk('list'))
            return NONE
        if name == 'fill' and len(args) == 1:
            sh = self.arrattr(c, 'shape')
            dt = self.arrattr(c, 'dtype')
            self.setcontent(o, mk('full', sh, self.val(args[0]), dt))
            return NONE
        if name == 'copy' and not args:
            return self.newref(c) if c.op not in ('struct',) else c
        if name == '_asdict' and c.op == 'struct':
            return self.newref(mk('dict', *[C(a) if isinstance(a, str) else a for a in c.args[1:]]))
        if name == '_replace' and c.op == 'struct':
            st = c
            for k, v in kw.items():
                st = self.structset(st, k, v)
            return st
        if name == 'update':
            for a in args:
                self.dictupdate(o, a)
            for k, v in kw.items():
                self.store(o, [C(k)], v)
            return NONE
        if name == 'setdefault' and len(args) == 2:
            k = args[0]
            cur = self.load(o, k)
            if cur is MISSING:
                self.store(o, [k], args[1])
                return args[1]
            return idx_(o, k) if cur.op == 'idx' else cur
        if name == 'get' and 1 <= len(args) <= 2 and (self.isdict(c) or c.op in ('sym', 'idx', 'app', 'mcall', 'store', 'fold', 'fin', 'mu')):
            d = args[1] if len(args) == 2 else NONE
            if self.isdict(c) and c.op == 'dict':
                v = self.read(c, [args[0]])
                if v is MISSING:
                    return d
                if v.op != 'idx':
                    return v
            fc = fr(c)
            fk = fr(args[0])
            root = self.dictroot(c)
            if root is not None and root.op == 'ddict' and o.op == 'ref' and fr(d) is fr(root.args[0]):
                return self.load(o, args[0])        # what the dict holds for an absent key anyway
            return ite(mk('cmp', 'in', fk, fc), self.load(o, args[0]) if o.op == 'ref' else idx_(o, args[0]), d)
        if name in ('items', 'values', 'keys') and not args:
            return mk('iter', name, o)
        if name in ('ravel', 'flatten') :
            return mk('app', 'ravel', fr(c))
        if name == 'astype' and args:
            dn = self.dtname(args[0])
            al = kw.get('casting')
            if al is not None and isc(al) and cv(al) in ('safe', 'no', 'equiv') and dn is not None and fr(c).op != 'cast':
                self.assertion(mk('app', 'msa.safecast', fr(c), C(dn)))
            if dn is not None:
                r = mk('cast', dn, fr(c))
            else:
                r = mk('app', 'castdt', fr(args[0]), fr(c))
            return self.newref(r)
        if name in ('min', 'max') and not args and not kw:
            return self.extreme('a' + name, fr(c))
        if name == 'sum' and not args and not kw:
            return mk('app', 'asum', fr(c))
        if name == 'type' and len(args) == 1:
            # dtype.type(x)
            return self.castdt(fr(o), self.val(args[0]))
        if name == 'join' and len(args) == 1:
            return mk('app', '.join', fr(o), fr(mk_list(self.seqcontent(args[0]))))
        if name == 'format':
            if isc(o) and isinstance(cv(o), str):
                r = self.formatstr(cv(o), [fr(a) for a in args], {k: fr(v) for k, v in kw.items()})
                if r is not None:
                    return r
            return mk('app', 'fstr', fr(o), *([fr(a) for a in args] + [mk('kw', k, fr(v)) for k, v in sorted(kw.items())]))
        if name == 'tolist':
            return self.newref(c)
        if name == 'item' and not args:
            return c
        if name in ('__getitem__',) and len(args) == 1:
            return self.subscript(o, args[0])
        if name in ('__setitem__',) and len(args) == 2:
            self.store(o, list(args[0].args) if args[0].op == 'tuple' else [args[0]], args[1])
            return NONE
        if name == 'get_npy_array':
            return o
        args, kw = methargs(name, args, kw)
        if name == 'round' and o.op not in ('c',) and not kw and len(args) <= 1 and not self.isdict(c):
            return self.callbuiltin('numpy.round', [o] + args, {})
        if name == 'clip' and 1 <= len(args) <= 2 and not kw:
            return self.clip(o, *(list(args) + [NONE])[:2])
        if name == 'joinpath' and len(args) == 1 and not kw and (o.op == 'app' and o.args[0] == 'pathlib.Path' or o.op == 'bin' and o.args[0] == '/'):
            return bin_('/', o, args[0])
        if name == 'GetLayer' and not kw and (not args or len(args) == 1 and isc(args[0])):
            name = 'GetLayerByName' if args and isinstance(cv(args[0]), str) else 'GetLayerByIndex'
        fa = [fr(a) for a in args] + [mk('kw', k, fr(v)) for k, v in sorted(kw.items())]
        if name == 'reshape' and len(args) == 1 and not kw:
            # v[l.ravel()].reshape(l.shape) is v[l]
            v = self.cur(args[0]) if args[0].op == 'ref' else args[0]
            if c.op == 'idx' and c.args[1].op == 'app' and c.args[1].args[0] == 'ravel' and fr(v) is self.arrattr(c.args[1].args[1], 'shape'):
                return self.newref(mk('idx', c.args[0], c.args[1].args[1]))
        if name in PURE_METHODS or name in self.puremethods or (c.op == 'c' and isinstance(cv(c), str)):
            t = mk('app', '.' + name, fr(c) if o.op == 'ref' or ('o', o) in self.S else fr(o), *fa)
            if name in self.puremethods:
                return self.newref(t)
            return t
        if name in ('is_dir', 'is_file', 'iterdir') and not args and not kw:
            x = fr(o)
            if x.op == 'app' and x.args[0] == 'pathlib.Path' and len(x.args) == 2:
                x = x.args[1]
            return mk('app', {'is_dir': 'os.path.isdir', 'is_file': 'os.path.isfile', 'iterdir': 'os.scandir'}[name], x)
        if name == 'exists' and not args and not kw and o.op == 'app' and o.args[0] == 'pathlib.Path' and len(o.args) == 2:
            return self.b_os_path_exists([o.args[1]], {})
        if name == 'ReadAsArray':
            return self.newref(mk('app', '.ReadAsArray', fr(c) if o.op == 'ref' else fr(o), *fa))
        # impure call on an opaque object
        recv = fr(o) if o.op not in ('ref',) else fr(c)
        if self.islist(c) or self.isdict(c):
            raise Giveup('container method ' + name)
        key = (name, recv.id, tuple(a.id for a in fa))
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        t = mk('mcall', name, n, recv, *fa)
        # setters of different attributes of one object commute
        self.event('call', mk('tuple', self.chan(o), C(name)) if name in SETTERS else self.chan(o), [t])
        return t

    puremethods = {'read', 'read_geojson_features'}

    def islist(self, c):
        while True:
            if c.op in ('list', 'cat'):
                return True
            if c.op == 'fold':
                if c.args[0] == 'cat':
                    return True
                c = c.args[2]
                continue
            if c.op == 'ite':
                c = c.args[1]
                continue
            if c.op in ('mu', 'fin'):
                L = self.loops.get(c.args[0])
                if L is not None and c.args[1] in L.init:
                    c = L.init[c.args[1]]
                    continue
                p = getattr(self, 'prestate', {}).get((c.args[0], c.args[1]))
                if p is not None:
                    c = p
                    continue
                return False
            if c.op == 'store':
                c = c.args[0]
                continue
            if c.op == 'app' and c.args[0] in ('droplast', 'dropfirst', 'delitem', 'listremove', 'listinsert', 'listreverse', 'listsort', 'list'):
                return True
            return False

    def castdt(self, dt, v):
        if dt.op == 'idx':
            dt = dt.args[0]
        if dt.op == 'c':
            return self.cast(cv(dt), v)
        return mk('app', 'castdt', dt, v)

    # -- builtins
    def callbuiltin(self, name, args, kw):
        fr = self.freeze
        h = getattr(self, 'b_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(args, kw)
            if r is not None:
                return r
        if name in DTYPES and len(args) == 1 and name not in ('bool', 'int', 'float'):
            return self.cast(DTYPES[name], self.val(args[0]))
        if name.startswith('cstruct.'):
            raise Giveup('struct constructor')
        if name in ('isinstance', 'issubclass'):
            return mk('app', name, *[fr(a) for a in args])
        if name in EXC:
            return mk('app', 'exc', C(name))
        base = name.rsplit('.', 1)[-1]
        if base in IGNORED_METHODS and name.split('.')[0] in ('logging', 'warnings', 'click', 'malstroem'):
            return NONE
        if name == 'logging.getLogger':
            return mk('app', 'logger')
        if name in CANON:
            a = [self.val(x) for x in args]
            if CANON[name] in ('max', 'min'):
                return self.minmax(CANON[name], a)
            if CANON[name] == 'land':
                return and_(*a)
            if CANON[name] == 'lor':
                return or_(*a)
            if CANON[name] == 'lnot':
                return not_(a[0])
        args, kw = self.normargs(name, args, kw)
        fa = [fr(a) for a in args] + [mk('kw', k, fr(v)) for k, v in sorted(kw.items())]
        nm = CANON.get(name, name)
        if name.startswith('numpy.testing.assert_'):
            fa = [a for a in fa if not (a.op == 'kw' and a.args[0] in ('err_msg', 'verbose'))][:2 if name != 'numpy.testing.assert_allclose' else 5]
            self.assertion(mk('app', name, *fa))
            return NONE
        if name in PURE_BUILTINS or any(name.startswith(p) for p in PURE_EXT) or name in PURE_EXT_EXACT or name in self.purefns:
            return self.arrresult(nm, fa)
        key = (nm, 0, tuple(a.id for a in fa))
        n = self.occ.get(key, 0)
        self.occ[key] = n + 1
        t = mk('mcall', nm, n, NONE, *fa)
        self.event('call', C('.'.join(name.split('.')[:2])), [t])
        return t

    FRESH_ARR = {'numpy.cumsum', 'numpy.concatenate', 'numpy.arange', 'numpy.bincount', 'numpy.linspace', 'numpy.clip'}

    ARITY = {'scipy.ndimage.label': 2, 'numpy.histogram': 2, 'osgeo.gdal.ApplyGeoTransform': 2, 'divmod': 2, 'os.path.split': 2,
             'os.path.splitext': 2, 'numpy.meshgrid': 2, 'math.modf': 2, 'math.frexp': 2}

    def extreme(self, nm, x):
        """largest or smallest element of an array"""
        if x.op == 'full' and len(x.args) > 1 and isnumc(x.args[1]):
            return x.args[1]
        if x.op == 'app' and x.args[0] == 'numpy.unique' and len(x.args) == 2:
            return self.extreme(nm, x.args[1])
        if x.op == 'un' and x.args[0] == '-':
            return un_('-', self.extreme('amin' if nm == 'amax' else 'amax', x.args[1]))
        if nm == 'amax' and x.op == 'app' and x.args[0] == 'abs' and len(x.args) == 2:
            return self.callbuiltin('max', [self.callbuiltin('abs', [self.extreme(n, x.args[1])], {}) for n in ('amax', 'amin')], {})
        return mk('app', nm, x)

    def arrresult(self, nm, fa):
        if nm in ('amax', 'amin') and len(fa) == 1:
            return self.extreme(nm, fa[0])
        if nm == 'numpy.nextafter' and len(fa) == 2 and all(isnumc(x) for x in fa):
            return C(math.nextafter(float(cv(fa[0])), float(cv(fa[1]))))
        t = mk('app', nm, *fa)
        n = self.ARITY.get(nm)
        if n and not any(x.op == 'kw' for x in fa):
            return mk('tuple', *[mk('idx', t, C(i)) for i in range(n)])
        if nm in self.FRESH_ARR:
            return self.newref(t)
        return t

    def b_numpy_interp(self, a, kw):
        a, kw = self.normargs('numpy.interp', a, kw)
        c = self.cur(a[0]) if a else NONE
        if c.op not in ('list', 'tuple') or kw:
            return None
        rest = [self.freeze(x) for x in a[1:]]
        return self.newref(mk('list', *[mk('app', 'numpy.interp', self.freeze(x), *rest) for x in c.args]))

    def clip(self, x, lo, hi):
        r = x
        if lo is not NONE:
            r = self.callbuiltin('numpy.maximum', [r, lo], {})
        if hi is not NONE:
            r = self.callbuiltin('numpy.minimum', [r, hi], {})
        return r

    def b_numpy_clip(self, a, kw):
        if kw.keys() - {'a_min', 'a_max'} or not 1 <= len(a) <= 3:
            return None
        a = list(a) + [kw.get(k, NONE) for k in ('a_min', 'a_max')[len(a) - 1:]]
        return self.clip(*a)

    def b_numpy_isclose(self, a, kw):
        eq = kw.get('equal_nan')
        a, kw = self.normargs('numpy.isclose', a, {k: v for k, v in kw.items() if k != 'equal_nan'})
        if len(a) != 2 or kw or eq is None or not isc(eq) or not cv(eq):
            return None
        x, n = self.val(a[0]), self.val(a[1])
        for p, q in ((x, n), (n, x)):
            if q.op in ('app', 'mcall') and q.args[0] == '.GetNoDataValue' or isnumc(q):
                # one number compared with all of them
                return ite(mk('app', 'isnan', q), mk('app', 'isnan', self.freeze(p)), mk('app', 'numpy.isclose', self.freeze(x), self.freeze(n)))
        return None

    def b_osgeo_gdal_ApplyGeoTransform(self, a, kw):
        if len(a) != 3 or kw:
            return None
        g = lambda i: self.load(a[0], C(i))
        x, y = self.val(a[1]), self.val(a[2])
        row = lambda i: bin_('+', bin_('+', g(i), bin_('*', g(i + 1), x)), bin_('*', g(i + 2), y))
        return mk('tuple', row(0), row(3))

    def normargs(self, name, args, kw):
        sig = NPSIG.get(name)
        if sig is None:
            return args, kw
        args = list(args)
        kw = dict(kw)
        if name == 'numpy.arange' and len(args) == 1 and 'stop' not in kw:
            args = [C(0)] + args
        for p in sig[len(args):]:
            if p in kw:
                args.append(kw.pop(p))
            elif name == 'osgeo.gdal.Polygonize' and p == 'options' and kw:
                args.append(NONE)
            else:
                break
        while len(args) > 1 and (args[-1] is NONE or (name in ('osgeo.ogr.Open', 'osgeo.gdal.Open') and isc(args[-1]) and cv(args[-1]) in (0, False))):
            args.pop()
        return args, kw

    def minmax(self, nm, a):
        out = []
        for x in a:
            for y in (x.args[1:] if x.op == 'app' and x.args[0] == nm else [x]):
                if y not in out:
                    out.append(y)
        if len(out) == 1:
            return out[0]
        if all(isnumc(x) for x in out):
            return C((min if nm == 'min' else max)(cv(x) for x in out))
        return mk('app', nm, *out)

    def b_range(self, a, kw):
        a = [self.val(x) for x in a]
        if len(a) == 1:
            return mk('iter', 'range', ZERO, a[0], ONE)
        if len(a) == 2:
            return mk('iter', 'range', a[0], a[1], ONE)
        return mk('iter', 'range', a[0], a[1], a[2])

    def b_enumerate(self, a, kw):
        return mk('iter', 'enum', a[0], a[1] if len(a) > 1 else kw.get('start', ZERO))

    def b_zip(self, a, kw):
        return mk('iter', 'zip', *a)

    def b_reversed(self, a, kw):
        return mk('iter', 'rev', a[0])

    def b_itertools_product(self, a, kw):
        return mk('iter', 'prod', *a)

    def b_numpy_ndindex(self, a, kw):
        if len(a) == 1:
            s = self.cur(a[0])
            dims = s.args if s.op == 'tuple' else [self.load(s, C(0)), self.load(s, C(1))]
        else:
            dims = a
        return mk('iter', 'prod', *[mk('iter', 'range', ZERO, d, ONE) for d in dims])

    def b_numpy_ndenumerate(self, a, kw):
        arr = a[0]
        s = self.arrattr(self.cur(arr), 'shape')
        d = [idx_(s, C(0)), idx_(s, C(1))]
        r0 = mk('iter', 'range', ZERO, d[0], ONE)
        r1 = mk('iter', 'range', ZERO, d[1], ONE)
        r = self.newref(mk('list'))
        self.iterate(r0, lambda i: self.iterate(r1, lambda j: self.append(r, mk('tuple', mk('tuple', i, j), self.load(arr, mk('tuple', i, j)))), self.node), self.node)
        return r

    def b_len(self, a, kw):
        c = self.cur(a[0])
        if c.op in ('gen', 'iter'):
            c = self.seqcontent(a[0])
        return self.length(self.freeze(c) if c.op != 'fold' else c)

    def b_list(self, a, kw):
        if not a:
            return self.newref(mk('list'))
        if a[0].op == 'iter' and a[0].args[0] == 'rev' and a[0].args[1].op == 'ref':
            c = self.cur(a[0].args[1])
            if self.islist(c) and c.op != 'list':
                return self.newref(mk('app', 'listreverse', c))
        return self.newref(self.seqcontent(a[0]))

    def b_tuple(self, a, kw):
        if not a:
            return mk('tuple')
        c = self.cur(a[0])
        if c.op == 'tuple':
            return c
        c = self.seqcontent(a[0])
        if c.op == 'list':
            return mk('tuple', *c.args)
        return mk('app', 'tuple', self.freeze(c))

    def b_collections_deque(self, a, kw):
        return self.b_list(a, kw)

    def b_collections_defaultdict(self, a, kw):
        d = {'list': mk('list'), 'int': ZERO, 'dict': mk('dict'), 'float': C(0.0)}.get(a[0].args[0] if a and a[0].op == 'builtin' else '')
        if d is None:
            raise Giveup('defaultdict')
        return self.newref(mk('ddict', d))

    def b_collections_OrderedDict(self, a, kw):
        return self.b_dict(a, kw)

    def b_dict(self, a, kw):
        r = self.newref(mk('dict'))
        if a:
            c = self.cur(a[0])
            if self.isdict(c):
                self.setcontent(r, c)
            elif c.op in ('iter', 'list', 'gen', 'fold', 'cat'):
                def st(e):
                    self.store(r, [self.load(e, C(0))], self.load(e, C(1)))
                self.iterate(a[0], st, self.node)
            else:
                self.setcontent(r, self.freeze(c))
        for k, v in kw.items():
            if k == '**':
                self.setcontent(r, mk('app', 'dictmerge', self.cur(r), v))
            else:
                self.store(r, [C(k)], v)
        return r

    def b_collections_namedtuple(self, a, kw):
        name = cv(a[0])
        f = self.cur(a[1])
        if f.op == 'c':
            fields = tuple(cv(f).replace(',', ' ').split())
        else:
            fields = tuple(cv(x) for x in f.args)
        return mk('ntcls', name, fields)

    def b_sum(self, a, kw):
        c = self.cur(a[0])
        k = ('x', 'acc', self.fresh('flag'))
        self.S[k] = a[1] if len(a) > 1 else kw.get('start', ZERO)
        if c.op == 'app' and c.args[0] == 'set' and len(c.args) == 2:
            # every value once: another sum than that of the sequence, whatever the values
            self.S.pop(k)
            return mk('app', 'sumdistinct', self.b_sum([c.args[1]], kw))
        if c.op in ('sym', 'idx', 'app', 'mcall') and c.op != 'gen':
            self.S.pop(k)
            return mk('app', 'asum', self.freeze(c))
        self.iterate(a[0], lambda e: self.setx(k, self.binop('+', self.S[k], e)), self.node)
        return self.S.pop(k, UNDEF)

    def b_any(self, a, kw):
        k = ('x', 'acc', self.fresh('flag'))
        self.S[k] = FALSE
        self.iterate(a[0], lambda e: self.setx(k, or_(self.S[k], self.tv(e))), self.node)
        return self.S.pop(k, UNDEF)

    def b_all(self, a, kw):
        k = ('x', 'acc', self.fresh('flag'))
        self.S[k] = TRUE
        self.iterate(a[0], lambda e: self.setx(k, and_(self.S[k], self.tv(e))), self.node)
        return self.S.pop(k, UNDEF)

    def plainseq(self, c):
        """[x for x in s] is s"""
        if c.op == 'fold' and c.args[0] == 'cat' and c.args[2].op == 'list' and not c.args[2].args:
            L = self.loops.get(c.args[1])
            b = c.args[3]
            if L is not None and L.count is not None and L.count.op == 'app' and L.count.args[0] == 'len' and (L.stop is None or L.stop is FALSE) \
                    and b.op == 'cat' and b.args[0].op == 'hole' and b.args[1].op == 'list' and len(b.args[1].args) == 1:
                e = b.args[1].args[0]
                x = L.count.args[1]
                if (e.op == 'app' and e.args[0] == 'keyat' and e.args[1] is x and e.args[2].op == 'lv') or \
                        (e.op == 'idx' and e.args[0] is x and e.args[1].op == 'lv'):
                    return x
        return c

    def _mm(self, nm, a, kw):
        if len(a) >= 2:
            if 'key' in kw:
                return mk('app', nm + 'key', *([self.freeze(x) for x in a] + [self.freeze(kw['key'])]))
            return self.minmax(nm, [self.val(x) for x in a])
        c = self.plainseq(self.seqcontent(a[0]))
        if c.op == 'list' and c.args and not kw:
            return self.minmax(nm, [self.val(x) for x in c.args])
        if c.op == 'app' and c.args[0] == 'shape' and not kw:
            # rasters have two dimensions
            return self.minmax(nm, [idx_(c, ZERO), idx_(c, ONE)])
        return mk('app', 'seq' + nm, self.freeze(c), *[mk('kw', k, self.freeze(v)) for k, v in sorted(kw.items())])

    def b_min(self, a, kw):
        return self._mm('min', a, kw)

    def b_max(self, a, kw):
        return self._mm('max', a, kw)

    def b_abs(self, a, kw):
        v = self.val(a[0])
        if isnumc(v):
            return C(abs(cv(v)))
        return mk('app', 'abs', v)

    b_numpy_abs = b_numpy_absolute = b_numpy_fabs = b_abs

    def b_int(self, a, kw):
        if not a:
            return ZERO
        v = self.val(a[0])
        if isc(v) and isinstance(cv(v), (int, float)):
            return C(int(cv(v)))
        return mk('app', 'int', self.freeze(v))

    def b_float(self, a, kw):
        if not a:
            return C(0.0)
        v = self.val(a[0])
        if isc(v):
            if isinstance(cv(v), (int, float)):
                return C(float(cv(v)))
            if isinstance(cv(v), str):
                try:
                    return C(float(cv(v)))
                except ValueError:
                    pass
        if v.op == 'app' and v.args[0] == 'float':
            return v
        return mk('app', 'float', self.freeze(v))

    def b_str(self, a, kw):
        v = self.val(a[0]) if a else C('')
        if isc(v) and isinstance(cv(v), str):
            return v
        if (v.op == 'app' and v.args[0] in ('str', 'fstr')) or (v.op == 'sym' and v.args[1] == 'str'):
            return v
        return mk('app', 'str', self.freeze(v))

    def b_bool(self, a, kw):
        return self.tv(a[0]) if a else FALSE

    def b_round(self, a, kw):
        return mk('app', 'round', *[self.freeze(self.val(x)) for x in a])

    def b_getattr(self, a, kw):
        if isc(a[1]) and isinstance(cv(a[1]), str):
            return self.getattr(a[0], cv(a[1]))
        return mk('app', 'getattr', *[self.freeze(x) for x in a])

    def attrkey(self, o, attr):
        """fields of the records in a typed memoryview are the fields of the numpy records"""
        mod = self.frame.mod if self.frames else None
        if mod is not None and mod.is_pyx and any(attr == f[0] for fs in mod.c['structs'].values() for f in fs):
            root, path = self.get_path(o)
            base = self.cur(o) if o.op == 'ref' or ('o', root) in self.S else o
            bo = self.objbase(base)
            if (bo is None or bo.op not in ('obj', 'struct')) and path and path[-1].op != 'an' and not (isc(path[-1]) and isinstance(cv(path[-1]), str)):
                return C(attr)
        return mk('an', attr)

    def setattribute(self, o, attr, val):
        if o.op == 'mod':
            self.S[('g', o.args[0], attr)] = val
            if not (self.frames and self.frame.name.startswith('specs.')):
                self.event('setglobal', 'mod:' + o.args[0], [C(o.args[0]), C(attr), val])
            return
        self.store(o, [self.attrkey(o, attr)], val)

    def b_setattr(self, a, kw):
        if isc(a[1]) and isinstance(cv(a[1]), str):
            self.setattribute(a[0], cv(a[1]), a[2])
            return NONE
        raise Giveup('setattr')

    def b_print(self, a, kw):
        return NONE

    def b_super(self, a, kw):
        # find the instance of the current method
        f = self.frame
        cls = f.name.split(':')
        q = cls[-1].split('.')[0]
        selfname = f.node.args.args[0].arg
        inst = self.S[('v', f.fid, selfname)]
        bo = self.objbase(self.cur(inst))
        return mk('super', bo.args[0], inst, f.mod.name + ':' + q)

    def b_open(self, a, kw):
        fa = [self.freeze(x) for x in a] + [mk('kw', k, self.freeze(v)) for k, v in sorted(kw.items())]
        t = mk('mcall', 'open', self.fresh('flag') * 0, NONE, *fa)
        self.event('call', C('open'), [t])
        return t

    def b_map(self, a, kw):
        r = self.newref(mk('list'))
        if len(a) == 2:
            self.iterate(a[1], lambda e: self.append(r, self.call(a[0], [e], {})), self.node)
        else:
            self.iterate(mk('iter', 'zip', *a[1:]), lambda e: self.append(r, self.call(a[0], list(e.args), {})), self.node)
        return r

    def b_filter(self, a, kw):
        r = self.newref(mk('list'))
        self.iterate(a[1], lambda e: self.branch(self.tv(self.call(a[0], [e], {}) if a[0] is not NONE else e), lambda: self.append(r, e)), self.node)
        return r

    def b_functools_partial(self, a, kw):
        if kw:
            raise Giveup('partial kw')
        return mk('partial', *a)

    def b_sorted(self, a, kw):
        return self.newref(mk('app', 'sorted', self.freeze(self.seqcontent(a[0])), *[mk('kw', k, self.freeze(v)) for k, v in sorted(kw.items())]))

    def b_isinstance(self, a, kw):
        c = self.cur(a[0])
        if a[1].op == 'builtin':
            n = a[1].args[0]
            if self.isdict(c):
                return C(n == 'dict')
            if c.op in ('list',) or self.islist(c):
                return C(n == 'list')
            if c.op == 'tuple':
                return C(n == 'tuple')
        return None

    # numpy
    def _shape(self, s):
        s = self.cur(s)
        if s.op in ('list',):
            s = mk('tuple', *s.args)
        if s.op in ('tuple',):
            return mk('tuple', *[self.val(x) for x in s.args])
        return s

    def dtypeterm(self, d):
        if d is None or d is NONE:
            return C('float64')
        n = self.dtname(d)
        if n:
            return C(n)
        return self.freeze(d)

    def mkfull(self, shape, value, dt):
        return self.newref(mk('full', shape, value, dt))

    def b_numpy_zeros(self, a, kw):
        sh = self._shape(a[0] if a else kw['shape'])
        if sh.op not in ('tuple',) and self.is_scalar_shape(sh):
            sh = mk('tuple', sh)
        return self.mkfull(sh, ZERO, self.dtypeterm(a[1] if len(a) > 1 else kw.get('dtype')))

    def is_scalar_shape(self, sh):
        return sh.op in ('bin', 'c', 'lv') or (sh.op == 'app' and sh.args[0] in ('len', 'int', 'amax'))

    def b_numpy_ones(self, a, kw):
        return self.mkfull(self._shape(a[0]), ONE, self.dtypeterm(a[1] if len(a) > 1 else kw.get('dtype')))

    def b_numpy_empty(self, a, kw):
        return self.mkfull(self._shape(a[0]), mk('sym', 'uninitialised', 'num'), self.dtypeterm(a[1] if len(a) > 1 else kw.get('dtype')))

    def b_numpy_full(self, a, kw):
        v = a[1] if len(a) > 1 else kw['fill_value']
        return self.mkfull(self._shape(a[0]), self.val(v), self.dtypeterm(a[2] if len(a) > 2 else kw.get('dtype')))

    def _like(self, a, kw, v, pos=1):
        c = self.cur(a[0])
        d = a[pos] if len(a) > pos else kw.get('dtype')
        dt = self.dtypeterm(d) if d is not None and d is not NONE else self.arrattr(c, 'dtype')
        return self.mkfull(self.arrattr(c, 'shape'), v, dt)

    def b_numpy_empty_like(self, a, kw):
        return self._like(a, kw, mk('sym', 'uninitialised', 'num'))

    def b_numpy_zeros_like(self, a, kw):
        return self._like(a, kw, ZERO)

    def b_numpy_ones_like(self, a, kw):
        return self._like(a, kw, ONE)

    def b_numpy_full_like(self, a, kw):
        return self._like(a, kw, self.val(a[1] if len(a) > 1 else kw['fill_value']), 2)

    def b_numpy_array(self, a, kw):
        c = self.cur(a[0])
        d = a[1] if len(a) > 1 else kw.get('dtype')
        if c.op in ('gen', 'iter'):
            c = self.seqcontent(a[0])
        r = self.freeze(c)
        if d is not None and self.dtname(d) and r.op not in ('list', 'tuple'):
            r = mk('cast', self.dtname(d), r)
        if d is not None and self.dtname(d) in ('float32', 'uint8', 'bool') and r.op in ('list', 'tuple'):
            r = mk('cast', self.dtname(d), r)
        return self.newref(r)

    def b_numpy_asarray(self, a, kw):
        if len(a) == 1 and not kw:
            if a[0].op == 'ref' and self.islist(self.cur(a[0])):
                return self.b_numpy_array(a, kw)
            return a[0]
        return self.b_numpy_array(a, kw)

    b_numpy_ascontiguousarray = b_numpy_asarray

    def b_numpy_copy(self, a, kw):
        return self.newref(self.freeze(self.cur(a[0])))

    def b_copy_copy(self, a, kw):
        return self.newref(self.cur(a[0]))

    def b_copy_deepcopy(self, a, kw):
        return self.newref(self.freeze(self.cur(a[0])))

    def b_numpy_where(self, a, kw):
        if len(a) == 3:
            x = self.freeze(self.val(a[0]))
            return self.newref(mk('where', truthy(x), self.freeze(self.val(a[1])), self.freeze(self.val(a[2]))))
        return None

    def b_numpy_ravel(self, a, kw):
        return mk('app', 'ravel', self.freeze(self.cur(a[0])))

    def b_math_pow(self, a, kw):
        return bin_('**', self.val(a[0]), self.val(a[1]))

    def b_numpy_sqrt(self, a, kw):
        v = self.val(a[0])
        if isnumc(v) and cv(v) >= 0:
            return C(float(cv(v)) ** 0.5)
        return mk('bin', '**', v, C(0.5))

    b_math_sqrt = b_numpy_sqrt

    def b_numpy_subtract(self, a, kw):
        return self.binop('-', a[0], a[1])

    def b_numpy_add(self, a, kw):
        return self.binop('+', a[0], a[1])

    def b_numpy_multiply(self, a, kw):
        return self.binop('*', a[0], a[1])

    def b_numpy_divide(self, a, kw):
        return self.binop('/', a[0], a[1])

    def b_numpy_dtype(self, a, kw):
        n = self.dtname(a[0])
        return C(n) if n else self.freeze(a[0])

    def b_numpy_errstate(self, a, kw):
        return mk('app', 'errstate')

    def b___cast__(self, a, kw):
        return self.cconv(cv(a[0]).rstrip('?'), a[1], self.frame.mod)

    def b___newstruct__(self, a, kw):
        n = cv(a[0])
        sf = self.structfields(n, self.frame.mod)
        x = []
        for f, _ in sf:
            x += [f, mk('sym', 'uninit', 'num')]
        return mk('struct', n, *x)

    def b___fstr__(self, a, kw):
        return self.fstr([self.freeze(x) for x in a])

    def b_os_path_join(self, a, kw):
        return mk('app', 'os.path.join', *[self.freeze(x) for x in a])

    def b_osgeo_gdal_PushErrorHandler(self, a, kw):
        return NONE

    b_osgeo_gdal_PopErrorHandler = b_osgeo_gdal_UseExceptions = b_osgeo_ogr_UseExceptions = b_osgeo_gdal_PushErrorHandler

    def b_os_path_exists(self, a, kw):
        x = self.freeze(a[0])
        return or_(mk('app', 'os.path.isdir', x), mk('app', 'os.path.isfile', x), mk('app', 'os.path.exists', x))

    HANDLES = {'Open', 'CreateDataSource', 'Create', 'CreateCopy', 'OpenEx', 'osgeo.ogr.Open', 'osgeo.gdal.Open', 'osgeo.gdal.OpenEx', 'CreateLayer', '.GetLayerByName', '.GetLayerByIndex', '.GetLayer'}

    def b_scipy_ndimage_label(self, a, kw):
        """the structuring element as nested lists, however it is written"""
        args, kw = self.normargs('scipy.ndimage.label', a, kw)
        if len(args) < 2 or kw:
            return None
        x = self.freeze(args[1])
        while x.op == 'app' and x.args[0] in ('numpy.array', 'numpy.asarray') and len(x.args) >= 2 or x.op == 'cast':
            x = x.args[1]
        if x.op == 'app' and x.args[0] == 'scipy.ndimage.generate_binary_structure' and len(x.args) == 3 and x.args[1] is C(2) and x.args[2] is C(2):
            x = mk('list', *[mk('list', ONE, ONE, ONE)] * 3)
        if x.op == 'full' and x.args[0].op == 'tuple' and len(x.args[0].args) == 2 and all(isc(y) and type(cv(y)) is int and 0 < cv(y) < 9 for y in x.args[0].args):
            n, m = (cv(y) for y in x.args[0].args)
            x = mk('list', *[mk('list', *[x.args[1]] * m)] * n)
        num = lambda t: mk(t.op, *[num(y) for y in t.args]) if t.op in ('list', 'tuple') else C(int(cv(t))) if isc(t) and isinstance(cv(t), (bool, float)) and cv(t) in (0, 1) else t
        x = num(x)
        if x is self.freeze(args[1]):
            return None
        return self.callbuiltin('scipy.ndimage.label', [args[0], x] + list(args[2:]), {})

    def b_json_dump(self, a, kw):
        if len(a) == 1 and 'fp' in kw:
            kw = dict(kw)
            a = [a[0], kw.pop('fp')]
        if len(a) != 2:
            return None
        return self.method(a[1], 'write', [self.callbuiltin('json.dumps', [a[0]], kw)], {})

    def b_msa_const(self, a, kw):
        """a number the reference reads off the code: without it there is nothing to compare with"""
        x = self.val(a[0])
        if not isnumc(x):
            raise Giveup('not a constant: ' + show(x, 4)[:120])
        return x

    def b_numpy_spacing(self, a, kw):
        x = self.val(a[0]) if len(a) == 1 and not kw else None
        if x is None or not (isnumc(x) and cv(x) >= 0 or x.op == 'app' and (x.args[0] == 'abs' or x.args[0] == 'max' and any(y.op == 'app' and y.args[0] == 'abs' or isnumc(y) and cv(y) >= 0 for y in x.args[1:]))):
            return None
        return bin_('-', self.callbuiltin('numpy.nextafter', [x, C(math.inf)], {}), x)

    def b_msa_holds(self, a, kw):
        """does an attribute of the object hold an open dataset or one of its layers?"""
        at = self.attrs(self.cur(a[0]))
        if at is None:
            raise Giveup('attributes of the object')
        r = FALSE
        for k, v in at[1].items():
            v = self.freeze(v)
            st, held = [v], False
            while st:
                x = st.pop()
                if x.op == 'ite':
                    st += x.args[1:]
                elif x.op in ('mcall', 'app') and x.args[0] in self.HANDLES:
                    held = True
            if held:
                r = or_(r, self.compare('isnot', v, NONE))
        return and_(self.guard, self.live(), r)

    def b_msa_wrote(self, a, kw):
        self.event('write', self.freeze(a[0]), [self.freeze(a[1])])
        return NONE

    def b_click_echo(self, a, kw):
        return NONE

    def b_warnings_warn(self, a, kw):
        return NONE

    # ------------------------------------------------------------------ entry
    def run(self, ref, args):
        """analyse function ref ('mod:fn' / 'mod:Class.method') with named argument terms; -> return term"""
        BOOLS.clear()
        try:
            return self.run1(ref, args)
        finally:
            BOOLS.clear()

    def run1(self, ref, args):
        r = self.p.fn(ref)
        if r is None:
            raise KeyError(ref)
        mod, node = r
        self.active = []
        self.flags = ['x']
        self.S[('f', 'x')] = FALSE
        self.frames = [self.newframe(mod, None, None, '<entry>')]
        self.loopids = []
        order = self.bind(mod, node, [], args, ref)
        if self.isgen(node):
            f = self.fnterm(mod, node, None, ref)
            g = mk('gen', f.args[0], tuple(n for n, _ in order), *[v for _, v in order])
            return self.newref(self.seqcontent(g))
        return self.inline(mod, node, None, ref, order)


def prune(t, lits, memo):
    """alternatives decided by literals known to hold"""
    r = memo.get(t.id)
    if r is not None:
        return r
    r = t
    if t.op == 'ite':
        d = lits.get(t.args[0])
        if d is None:
            c = t.args[0]
            ca = c.args if c.op == 'and' else (c,)
            if all(lits.get(a) is True for a in ca):
                d = True
            elif any(lits.get(a) is False for a in ca):
                d = False
            elif c.op == 'or' and any(lits.get(a) is True for a in c.args):
                d = True
        if d is True:
            r = prune(t.args[1], lits, memo)
        elif d is False:
            r = prune(t.args[2], lits, memo)
        else:
            a, b = prune(t.args[1], lits, memo), prune(t.args[2], lits, memo)
            if a is not t.args[1] or b is not t.args[2]:
                r = ite(t.args[0], a, b)
    elif t.op == 'store':
        a, v = prune(t.args[0], lits, memo), prune(t.args[2], lits, memo)
        if a is not t.args[0] or v is not t.args[2]:
            r = mk('store', a, t.args[1], v)
    memo[t.id] = r
    return r


def mk_list(c):
    return c


def path_has_store(cell, path, an):
    st = [cell]
    seen = set()
    while st:
        c = st.pop()
        if c.id in seen:
            continue
        seen.add(c.id)
        if c.op == 'store':
            q = c.args[1].args
            if len(q) > len(path) and q[len(path)] is an:
                return True
            st.append(c.args[0])
        elif c.op == 'ite':
            st += [c.args[1], c.args[2]]
        elif c.op in ('mu', 'fin', 'fold'):
            return True
    return False
