"""Value numbering of value-graph terms by random interpretation.

Two terms get the same value number in every drawn interpretation of their leaves iff they are congruent modulo the algebra
known here (exact rational arithmetic, comparisons, conditionals, functional updates, folds).  Leaves (parameters, elements
of opaque arrays, results of opaque calls, loop-carried values) are interpreted as random field elements keyed by their own
value number, so no program input is constructed and no loop is iterated: loop-carried variables get colours refined from the
value numbers of their initial and next values (partition refinement), reductions are numbered through their body at a
symbolic iteration.
"""
import hashlib
import fnmatch
import math
import re
import struct
import struct as _struct
from fractions import Fraction

from .terms import T, walk, show, isc, cv

_M = (1 << 61) - 1
_sh = {}


def _str(s):
    v = _sh.get(s)
    if v is None:
        v = int.from_bytes(hashlib.blake2b(s.encode('utf-8', 'replace'), digest_size=8).digest(), 'big')
        _sh[s] = v
    return v


def H(*parts):
    h = 0x9E3779B97F4A7C15
    for p in parts:
        if isinstance(p, str):
            p = _str(p)
        h = ((h ^ (p & 0xFFFFFFFFFFFFFFFF)) * 0xBF58476D1CE4E5B9 + (p >> 64 if p > 0 else 0)) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 29
        h = (h * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        h ^= h >> 32
    return h


class Err(Exception):
    """the interpretation makes an operation fail (None in arithmetic ...)"""


class Crash(Err):
    """None used as a number, a sequence or a record: a TypeError"""
    t = None


class Undecided(Exception):
    pass


class O:
    __slots__ = ('h', 'sel', 'dom')

    def __init__(self, h, sel='', dom=None):
        self.h = h
        self.sel = sel
        self.dom = dom

    def __eq__(self, o):
        return isinstance(o, O) and o.h == self.h

    def __hash__(self):
        return self.h

    def __repr__(self):
        return 'O<%s:%x>' % (self.sel, self.h & 0xffff)


class CastO(O):
    """array (or opaque value) converted to a data type"""
    __slots__ = ('dt', 'v')

    def __init__(self, dt, v):
        O.__init__(self, H('cast', dt, hv(v)), v.sel if isinstance(v, O) else '', None)
        self.dt = dt
        self.v = v


class Seq:
    """list or tuple with known elements"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Cat:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


class Over:
    """base object with element updates in order"""
    __slots__ = ('base', 'ent')

    def __init__(self, base, ent):
        self.base = base
        self.ent = ent      # tuple of (path values, value)


class Dic:
    __slots__ = ('ent',)

    def __init__(self, ent):
        self.ent = ent      # tuple of (key value, value)


class Sl:
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class An:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Full:
    __slots__ = ('shape', 'val', 'dt')

    def __init__(self, shape, val, dt):
        self.shape, self.val, self.dt = shape, val, dt


def isnum(v):
    return isinstance(v, (int, float, Fraction))


def hv(v):
    if v is None:
        return H('None')
    if isinstance(v, (int, bool)):
        return H('n', int(v) & _M if v >= 0 else (-int(v)) & _M, 1, 0 if v >= 0 else 1)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return hv(int(v))
        n = abs(v.numerator)
        return H('n', n % _M, v.denominator % _M, 0 if v >= 0 else 1)
    if isinstance(v, float):
        if v != v:
            return H('nan')
        if v in (math.inf, -math.inf):
            return H('inf', 1 if v > 0 else 0)
        return hv(Fraction(v))
    if isinstance(v, str):
        return H('s', v)
    if isinstance(v, O):
        return v.h
    if isinstance(v, Seq):
        return H('seq', *[hv(x) for x in v.items])
    if isinstance(v, Cat):
        return H('cat', hv(v.a), hv(v.b))
    if isinstance(v, Dic):
        return H('dict', *sorted(H(hv(k), hv(x)) for k, x in v.ent))
    if isinstance(v, Sl):
        return H('slice', hv(v.a), hv(v.b), hv(v.c))
    if isinstance(v, An):
        return H('an', v.n)
    if isinstance(v, Full):
        return H('full', hv(v.shape), hv(v.val), hv(v.dt))
    if isinstance(v, Over):
        d = {}
        for p, x in v.ent:
            hp = H(*[hv(c) for c in p])
            d[hp] = hv(x)
        return H('over', hv(v.base), *[H(a, b) for a, b in sorted(d.items())])
    raise TypeError(type(v))


NUMFN = {'abs', 'min', 'max', 'floor', 'ceil', 'trunc', 'int', 'float', 'round', 'isnan', 'sqrt', 'nn', 'rangelen', 'len', 'bool',
         'amin', 'amax', 'str', 'fstr', 'shape', 'ndim', 'size', 'dtype', 'not'}
#: functions known to be different functions: one in place of another is a difference, not a reformulation
DISTINCT = [{'argmin', 'argmax', '.argmin', '.argmax', 'numpy.argmin', 'numpy.argmax', 'numpy.nanargmin', 'numpy.nanargmax'},
            {'amin', 'amax', 'nunique', '.mean', 'numpy.mean', 'numpy.median', 'numpy.nanmin', 'numpy.nanmax'},
            {'seqmin', 'seqmax'}, {'minkey', 'maxkey'},
            {'floor', 'ceil', 'round', 'trunc', 'numpy.round', 'numpy.rint'}, {'any', 'all', 'numpy.any', 'numpy.all'},
            {'numpy.int16', 'numpy.int32'}, {'CommitTransaction', 'RollbackTransaction'},
            {'malstroem.algorithms.label:label_max_index', 'malstroem.algorithms.label:label_min_index'},
            {'malstroem.algorithms.fill:fill_terrain', 'malstroem.algorithms.fill:fill_terrain_no_flats'}]
INTERP = {'floor', 'ceil', 'trunc', 'round', 'abs', 'min', 'max', 'int', 'float', 'bool', 'isnan', 'sqrt', 'nn', 'rangelen', 'len',
          'str', 'fstr', 'shape', 'ndim', 'size', 'dtype', 'isinstance', 'tuple', 'list', 'star', 'exception', 'fails', 'exc', 'sumdistinct',
          'os.listdir', 'os.scandir', 'os.path.isdir', 'os.path.isfile', 'os.path.exists', 'os.path.join', 'glob.glob', 'glob.iglob', 'next', 'sorted',
          'os.path.basename', '.startswith', '.endswith', 'msa.safecast', 'set', 'frozenset'}


DTNAME = re.compile(r'(bool|u?int|float|complex)(\d*)$')


class Valuation:
    def __init__(self, seed, domains, consts, nonesel, strsel, nansel, enumsel=()):
        self.seed = seed
        self.mode = seed % 4
        self.cov = None
        self.inner = False      # rasters are large, every cell met is far from their edges
        self.anytype = False    # integer types that hold all values of an array are as good as one another
        self.nonzero = False    # no number is 0
        self.odd = ()           # constants only one side compares with
        self.domains = domains
        self.consts = consts
        self.nonesel = nonesel
        self.strsel = strsel
        self.nansel = nansel
        self.enumsel = dict(enumsel)
        self.cache = {}
        self.grid = ()          # names of rasters on one grid
        self.keyed = ()         # ids of terms read as records: never empty
        self.paths = {}         # path -> (directory, name)
        self.ntindex = {}       # field of a named tuple -> position

    def draw(self, h, salt, n):
        return H(self.seed, h, salt) % n

    def pick(self, h, salt, seq):
        return seq[self.draw(h, salt, len(seq))]

    def resolve(self, o):
        """what an opaque value is in this interpretation: None, a string, a number, nan or just itself"""
        r = self.cache.get(o.h)
        if r is None:
            r = self._resolve(o)
            if self.nonzero and r == 0 and isinstance(r, (int, float, Fraction)) and not isinstance(r, bool):
                r = 1 + self.draw(o.h, 'nonzero', 9)
            r = (r,)
            self.cache[o.h] = r
        return r[0]

    def _resolve(self, o):
        h = o.h
        if o.sel == 'ddict':
            return o
        dom = self.domains.get(o.sel)
        if dom is None:
            dom = o.dom
        if callable(dom):
            return dom(self, o)
        if isinstance(dom, (tuple, list)):
            return self.pick(h, 'dom', dom)
        if dom == 'shape':
            return (10 ** 8 if self.inner else 3) + self.draw(h, 'shape', 4)
        if dom == 'obj' or dom == 'tup':
            return o
        if dom == 'bool':
            return bool(self.draw(h, 'b', 2))
        if dom == 'pos':
            if self.odd and self.draw(h, 'near', 4):
                return abs(self.near(h)) or 1
            return Fraction(1 + self.draw(h, 'pos', 100000), 8) if self.draw(h, 'p2', 3) else Fraction(1 + self.draw(h, 'pos', 5))
        if dom == 'int':
            if self.inner:
                return 2 + self.draw(h, 'inner', 50000)
            if self.draw(h, 'i0', 3) == 0:
                return self.draw(h, 'i1', 4) - 1
            return self.draw(h, 'i2', 5000)
        if dom == 'nat':
            if o.sel == 'lv' and self.draw(h, 'long', 6) == 0:
                # a loop without a count goes on for long
                return self.pick(h, 'long2', (50, 1000, 1001, 10 ** 6) + tuple(int(c) for c in self.consts if 1 < c < 10 ** 7))
            return self.draw(h, 'i1', 7) + (2 if self.inner else 0)
        if dom == 'nz':
            return self.generic(h)
        if dom is None or dom == 'any':
            en = self.enumsel.get(o.sel)
            if en:
                k = self.draw(h, 'enum', len(en) + 1)
                if k < len(en):
                    return O(H('enum', *en[k]), 'enum', 'obj')
            if o.sel in self.nonesel and self.draw(h, 'none', 3) == 0:
                return None
            st = self.strsel.get(o.sel)
            if st:
                k = self.draw(h, 'str', len(st) + 1)
                if k < len(st):
                    return st[k]
                return 'str%d' % self.draw(h, 'strx', 1 << 30)
            if o.sel in self.nansel and self.draw(h, 'nan', 4) == 0:
                return math.nan
            return o
        if dom == 'f32' or dom == 'f32low':
            if dom == 'f32low' and self.mode != 1 and self.draw(h, 'low', 4):
                return Fraction(self.draw(h, 'f32', 1 << 20) - (1 << 20), 8)
            if self.odd and self.draw(h, 'near', 4):
                return Fraction(struct.unpack('f', struct.pack('f', max(min(self.near(h), 10 ** 30), -10 ** 30)))[0])
            if self.mode == 1:
                return self.draw(h, 'small', 7) - 2
            return Fraction(self.draw(h, 'f32', 1 << 21) - (1 << 19), 8)
        if dom == 'num' or dom == 'elev' or dom == 'numnan':
            if (dom == 'numnan' or o.sel in self.nansel) and self.draw(h, 'nan', 5) == 0:
                return math.nan
            return self.number(h)
        if dom == 'optnum':
            k = self.draw(h, 'none', 4)
            if k == 0:
                return None
            if k == 1:
                return 0
            if k == 2 and o.sel in self.nansel:
                return math.nan
            return self.number(h)
        if dom == 'str':
            st = self.strsel.get(o.sel) or ()
            k = self.draw(h, 'str', len(st) + 3)
            return st[k] if k < len(st) else '' if k == len(st) else 'str%d' % self.draw(h, 'strx', 1 << 30)
        raise ValueError(dom)

    def generic(self, h):
        d = (7, 10, 100, 1000, 3)[self.draw(h, 'den', 5)]
        n = 1 + self.draw(h, 'num', 900000)
        s = -1 if self.draw(h, 'sgn', 3) == 0 else 1
        return Fraction(s * n, d)

    def near(self, h):
        """a number that differs from others by the constants only one side compares with: as difference, as factor, or the constant itself"""
        b = Fraction(*((173, 7), (5000, 3))[self.draw(0, 'base', 2)])
        k = self.draw(h, 'odd', 9)
        c = self.pick(h, 'oddc', self.odd)
        d = self.pick(0, 'oddc', self.odd)
        m = self.draw(h, 'oddm', 4)
        if k < 2:
            return (c, c + 1, c - 1, -c)[m]
        if k == 2:
            return b * (c + d) / 2
        if k < 5:
            return b + (c / 2, c * 2, -c / 2, c)[m]
        if k == 5:
            return b * (c, (c + 1) / 2, 1, 1)[m]
        return b

    def limit(self, h):
        """an extreme value: at, next to and between the constants it may be compared with"""
        cs = sorted({int(c) for c in self.consts if isinstance(c, (int, float, Fraction)) and abs(c) < 10 ** 40})
        if not cs:
            return self.number(h)
        k = self.draw(h, 'limk', len(cs))
        m = self.draw(h, 'limm', 4)
        return cs[k] + m - 1 if m < 3 else (cs[k] + cs[(k + 1) % len(cs)]) // 2

    def number(self, h):
        if self.inner:
            return 2 + self.draw(h, 'inner', 50000)
        if self.odd and self.draw(h, 'near', 4):
            return self.near(h)
        if self.mode == 3 and self.draw(h, 'tiny', 8):
            # few different values: comparisons meet equality
            return self.pick(h, 'small', (0, 1, 2, 3, 4))
        if self.mode != 0:
            k = self.draw(h, 'kind', 8)
            if k == 0:
                return 0
            if k in (1, 2) or (self.mode == 2 and k in (3, 4, 5)):
                return self.pick(h, 'small', (1, 2, 3, -1, 4))
            if k == 3 and self.consts:
                return self.pick(h, 'const', self.consts)
        return self.generic(h)

    def num(self, o):
        r = self.resolve(o)
        if isinstance(r, O):
            r = self.cache.get(('n', o.h))
            if r is None:
                r = self.limit(o.h) if o.sel in ('amin', 'amax') and len(self.consts) > 2 and not self.inner and self.draw(o.h, 'limit', 2) else self.number(o.h)
                if self.nonzero and r == 0:
                    r = 1 + self.draw(o.h, 'nonzero', 9)
                self.cache[('n', o.h)] = r
        return r


INTRANGE = {}
for _b in (8, 16, 32, 64):
    INTRANGE['int%d' % _b] = (-(1 << _b - 1), (1 << _b - 1) - 1)
    INTRANGE['uint%d' % _b] = (0, (1 << _b) - 1)


class Eval:
    """value numbers of the terms of one program under one interpretation"""
    ROUNDS = 3

    def __init__(self, loops, val, rename=None):
        self.loops = loops
        self.v = val
        self.round = 0
        self.memo = {}
        self.env = ()
        self.tick = 0
        self.ticks = 0
        self.lstate = {}
        self.finals = {}
        self.colours = {}
        self.depth = {}
        self.rename = rename or {}
        self.opaque = set()
        self.busy = set()
        self.hole = {}
        self.holes = {}

    # -------------------------------------------------------------- basics
    def ev(self, t):
        key = (t.id, self.round, self.env, self.tick)
        r = self.memo.get(key)
        if r is None:
            try:
                r = (self._ev(t), None)
            except Err as e:
                if isinstance(e, Crash) and e.t is None:
                    e.t = t
                r = (None, e)
            self.memo[key] = r
        if r[1] is not None:
            raise r[1]
        return r[0]

    def h(self, t):
        try:
            return hv(self.ev(t))
        except Err:
            return H('err')

    def sc(self, v):
        """scalar meaning of a value"""
        if isinstance(v, CastO):
            if isinstance(v.v, O):
                r = self.sc(v.v)
                if not isinstance(r, O):
                    return self.castnum(v.dt, r) if r is not None and not isinstance(r, str) else r
            return v
        if isinstance(v, O):
            return self.v.resolve(v)
        return v

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, float):
            if v != v or v in (math.inf, -math.inf):
                return v
            return Fraction(repr(v))
        if isinstance(v, CastO):
            return self.num(self.castnum(v.dt, self.num(v.v)))
        if isinstance(v, O):
            r = self.v.num(v)
            if r is None:
                raise Crash('None used as a number')
            if isinstance(r, str):
                raise Err('not a number')
            return r if not isinstance(r, bool) else int(r)
        if isinstance(v, (Over, Full)):
            g = self.generic(v)
            return self.num(g)
        if isinstance(v, (Seq, Cat, Dic)):
            return self.v.num(O(H('asnum', hv(v))))
        if v is None:
            raise Crash('None used as a number')
        raise Err('not a number: %r' % (v,))

    def generic(self, v):
        """generic element of an array value"""
        if isinstance(v, Full):
            return v.val
        if isinstance(v, Over):
            return O(H('gen', hv(v)), self.sel(v))
        return v

    def sel(self, v):
        while isinstance(v, Over):
            v = v.base
        if isinstance(v, O):
            return v.sel
        return ''

    def dom(self, v):
        while isinstance(v, Over):
            v = v.base
        if isinstance(v, O):
            return v.dom
        return None

    def truth(self, v):
        v = self.sc(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, Fraction)):
            return v != 0
        if isinstance(v, float):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, Seq):
            return len(v.items) > 0
        if isinstance(v, Dic):
            return len(v.ent) > 0
        if isinstance(v, O):
            if v.dom == 'obj' or v.dom == 'tup' or self.v.domains.get(v.sel) == 'obj':
                return True
            return self.num(v) != 0
        if isinstance(v, Cat):
            for x in (v.a, v.b):
                if isinstance(x, Seq) and x.items:
                    return True
            return self.truth(O(H('len', hv(v))))
        return bool(self.v.draw(hv(v), 'truth', 2))

    def tb(self, t):
        if t.op == 'ite':
            return self.tb(t.args[1] if self.tb(t.args[0]) else t.args[2])
        v = self.ev(t)
        if t.id in self.v.keyed and isinstance(v, O) and not isinstance(v, CastO) and v.sel != 'ddict':
            r = self.v.resolve(v)
            r = True if isinstance(r, O) else self.truth(r)
        else:
            r = self.truth(v)
        cov = self.v.cov
        if cov is not None and t.op not in ('c', 'and', 'or', 'not'):
            cov[t] = cov.get(t, 0) | (2 if r else 1)
        return r

    # -------------------------------------------------------------- terms
    def _ev(self, t):
        f = getattr(self, 'x_' + t.op, None)
        if f is None:
            raise Undecided('term ' + t.op)
        return f(t)

    def x_c(self, t):
        if t.args[0] == 'nan':
            return math.nan
        v = t.args[1]
        if isinstance(v, float) and v not in (math.inf, -math.inf):
            return Fraction(repr(v))
        if isinstance(v, bytes):
            return 'bytes:%r' % v
        return v

    def x_sym(self, t):
        return O(H('sym', t.args[0]), t.args[0], t.args[1] if t.args[1] not in ('any',) else None)

    def x_snap(self, t):
        return self.ev(t.args[0])

    def x_undef(self, t):
        return O(H('undef'))

    def x_missing(self, t):
        raise Err('missing')

    def x_cyc(self, t):
        return O(H('cyc'))

    def x_ref(self, t):
        return O(H('ref', t.args[0]), 'ref', 'obj')

    def x_obj(self, t):
        return O(H('obj', self.rn(t.args[0])), 'obj', 'obj')

    def rn(self, s):
        return self.rename.get(s, s)

    def x_fn(self, t):
        q = t.args[0].split('@')[0]
        return O(H('fn', self.rn(q)), 'fn', 'obj')

    def x_cls(self, t):
        return O(H('cls', self.rn(t.args[0])), 'cls', 'obj')

    x_ntcls = lambda self, t: O(H('nt', t.args[0]), 'nt', 'obj')

    def x_mod(self, t):
        return O(H('mod', self.rn(t.args[0])), 'mod', 'obj')

    def x_builtin(self, t):
        from .interp import DTYPES
        n = t.args[0]
        if n in DTYPES:
            return DTYPES[n]
        return O(H('builtin', n), 'builtin', 'obj')

    def x_enum(self, t):
        return O(H('enum', self.rn(t.args[0]), t.args[1]), 'enum', 'obj')

    def x_bound(self, t):
        return O(H('bound', *[self.h(a) for a in t.args]), 'bound', 'obj')

    def x_partial(self, t):
        return O(H('partial', *[self.h(a) for a in t.args]), 'partial', 'obj')

    def x_gen(self, t):
        return O(H('gen', self.rn(t.args[0]), *[self.h(a) for a in t.args[2:]]), 'gen')

    def x_iter(self, t):
        return O(H('iter', t.args[0], *[self.h(a) for a in t.args[1:]]), 'iter')

    def x_super(self, t):
        return O(H('super'), 'super')

    def x_kw(self, t):
        return O(H('kw', t.args[0], self.h(t.args[1])), 'kw')

    def x_an(self, t):
        return An(t.args[0])

    def x_star(self, t):
        return O(H('star', self.h(t.args[0])))

    def x_tuple(self, t):
        return Seq([self.ev(a) for a in t.args])

    x_list = x_tuple

    def x_dict(self, t):
        d = []
        for i in range(0, len(t.args), 2):
            k = self.ev(t.args[i])
            hk = hv(k)
            d = [e for e in d if hv(e[0]) != hk]
            d.append((k, self.ev(t.args[i + 1])))
        return Dic(tuple(d))

    def x_ddict(self, t):
        return O(H('ddict', self.h(t.args[0])), 'ddict', self.ev(t.args[0]))

    def x_struct(self, t):
        return Dic(tuple((t.args[i], self.ev(t.args[i + 1])) for i in range(1, len(t.args), 2)))

    def x_slice(self, t):
        return Sl(*[self.ev(a) for a in t.args])

    def x_cat(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Seq(a.items + b.items)
        if isinstance(b, Seq) and not b.items:
            return a
        if isinstance(a, Seq) and not a.items:
            return b
        if isinstance(a, Cat) and isinstance(a.b, Seq) and isinstance(b, Seq):
            return Cat(a.a, Seq(a.b.items + b.items))
        return Cat(a, b)

    def x_and(self, t):
        for a in t.args:
            if not self.tb(a):
                return False
        return True

    def x_or(self, t):
        for a in t.args:
            if self.tb(a):
                return True
        return False

    def x_not(self, t):
        return not self.tb(t.args[0])

    def x_ite(self, t):
        return self.ev(t.args[1] if self.tb(t.args[0]) else t.args[2])

    def x_where(self, t):
        return self.generic(self.ev(t.args[1] if self.tb(t.args[0]) else t.args[2]))

    def x_bin(self, t):
        op = t.args[0]
        a, b = self.ev(t.args[1]), self.ev(t.args[2])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        a, b = self.sc(a), self.sc(b)
        if op == '+':
            if isinstance(a, Seq) and isinstance(b, Seq):
                return Seq(a.items + b.items)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                return O(H('strcat', hv(a), hv(b)))
        if op in '&|^' and isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == '&' else (a or b) if op == '|' else a != b
        if op == '/' and (isinstance(a, (str,)) or isinstance(b, str) or (isinstance(a, O) and a.sel == 'path')):
            return O(H('pathjoin', hv(a), hv(b)), 'path')
        x, y = self.num(a), self.num(b)
        fl = isinstance(x, float) or isinstance(y, float)
        if fl:
            x, y = float(x), float(y)
        try:
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                return x / y if fl else Fraction(x) / Fraction(y)
            if op == '//':
                return x // y
            if op == '%':
                return x % y
            if op == '**':
                if y == Fraction(1, 2):
                    if x < 0:
                        raise Err('sqrt')
                    return Fraction(repr(math.sqrt(x)))
                if isinstance(y, Fraction) and y.denominator == 1:
                    y = int(y)
                if isinstance(y, int) and abs(y) < 64:
                    return Fraction(x) ** y if not fl else x ** y
                return O(H('pow', hv(x), hv(y)))
            if op in ('&', '|', '^', '<<', '>>') and not fl:
                xi, yi = int(x), int(y)
                if xi == x and yi == y and abs(xi) < 1 << 62 and abs(yi) < 1 << 62:
                    if op == '&':
                        return xi & yi
                    if op == '|':
                        return xi | yi
                    if op == '^':
                        return xi ^ yi
                    if op == '<<' and 0 <= yi < 64:
                        return xi << yi
                    if op == '>>' and 0 <= yi < 64:
                        return xi >> yi
        except ZeroDivisionError:
            return O(H('div0', op, hv(x)), 'div0', 'nz')
        except (OverflowError, ValueError):
            raise Err('arith')
        return O(H('bin', op, hv(x), hv(y)))

    def x_un(self, t):
        a = self.ev(t.args[1])
        if t.args[0] == '-':
            return -self.num(a)
        if t.args[0] == '~':
            a = self.sc(a)
            if isinstance(a, bool):
                return not a
            return O(H('inv', hv(a)))
        return O(H('un', t.args[0], hv(a)))

    def same(self, a, b):
        a, b = self.sc(a), self.sc(b)
        if isnum(a) and isinstance(b, O):
            if b.dom == 'obj':
                return False
            b = self.num(b)
        elif isnum(b) and isinstance(a, O):
            if a.dom == 'obj':
                return False
            a = self.num(a)
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return False
        if isinstance(a, O) and isinstance(b, O) and a.h != b.h and a.dom != 'obj' and b.dom != 'obj':
            # two numeric leaves may coincide
            if a.sel == 'fn' or b.sel == 'fn':
                return False
            x, y = self.num(a), self.num(b)
            return hv(x) == hv(y)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Seq) and isinstance(b, O):
            return all(self.same(x, self.elem(b, (i,))) for i, x in enumerate(a.items))
        if isinstance(b, Seq) and isinstance(a, O):
            return self.same(b, a)
        if isinstance(a, (Over, Full)) and isnum(b):
            return self.same(self.generic(a), b)
        if isinstance(b, (Over, Full)) and isnum(a):
            return self.same(self.generic(b), a)
        return hv(a) == hv(b)

    def x_cmp(self, t):
        op = t.args[0]
        a, b = self.ev(t.args[1]), self.ev(t.args[2])
        return self.compare(op, a, b)

    def compare(self, op, a, b):
        if op == '==':
            return self.same(a, b)
        if op == '!=':
            return not self.same(a, b)
        if op in ('is', 'isnot'):
            x, y = self.sc(a), self.sc(b)
            if x is None or y is None:
                r = x is None and y is None
            elif isinstance(x, bool) and isinstance(y, bool):
                r = x == y
            elif isinstance(x, bool) and isinstance(y, O) or isinstance(y, bool) and isinstance(x, O):
                r = self.truth(x) == self.truth(y)
            else:
                r = hv(x) == hv(y)
            return r if op == 'is' else not r
        if op in ('in', 'notin'):
            b2 = self.sc(b)
            if isinstance(b2, Seq):
                r = any(self.same(a, x) for x in b2.items)
            elif isinstance(b2, Dic):
                r = any(self.same(a, k) for k, _ in b2.ent)
            elif isinstance(b2, str) and isinstance(self.sc(a), str):
                r = self.sc(a) in b2
            else:
                r = bool(self.v.draw(H(hv(self.sc(a)), hv(b2)), 'in', 2))
                if isinstance(b2, Over) and len(b2.ent[0][0]) == 1:
                    if any(len(p) == 1 and self.same(a, p[0]) for p, _ in b2.ent):
                        r = True
                if isinstance(b2, Cat):
                    for x in (b2.a, b2.b):
                        if isinstance(x, Seq) and any(self.same(a, y) for y in x.items):
                            r = True
            return r if op == 'in' else not r
        x, y = self.sc(a), self.sc(b)
        if isinstance(x, str) and isinstance(y, str):
            return x < y if op == '<' else x <= y
        if isinstance(x, Seq) and isinstance(y, Seq):
            for p, q in zip(x.items, y.items):
                if not self.same(p, q):
                    return self.compare('<', p, q)
            return len(x.items) < len(y.items) if op == '<' else len(x.items) <= len(y.items)
        x, y = self.num(x), self.num(y)
        if isinstance(x, float) or isinstance(y, float):
            x, y = float(x), float(y)
        return x < y if op == '<' else x <= y

    # -------------------------------------------------------------- arrays
    def x_full(self, t):
        return Full(self.ev(t.args[0]), self.ev(t.args[1]), self.ev(t.args[2]))

    def x_cast(self, t):
        dt = t.args[0]
        v = self.ev(t.args[1])
        return self.cast(dt, v)

    def cast(self, dt, v):
        if isinstance(v, Full):
            return Full(v.shape, self.cast(dt, v.val), dt)
        v = self.sc(v)
        if isinstance(v, (Seq, Dic, Cat)):
            return O(H('cast', dt, hv(v)), 'cast')
        if isinstance(v, O) or isinstance(v, Over):
            if dt in INTRANGE and self.v.anytype and isinstance(v, O) and not isinstance(v, CastO):
                # which of the types that hold all values is chosen is free
                lo, hi = INTRANGE[dt]
                h = hv(v)
                a, b = (self.num(O(H('app', n, h), n)) for n in ('amin', 'amax'))
                if lo <= min(a, b) and b <= hi:
                    return O(H('held', h), 'cast')
            return CastO(dt, v)
        return self.castnum(dt, v)

    def castnum(self, dt, v):
        x = self.num(v)
        if dt == 'float64':
            return x
        if dt == 'float32':
            if isinstance(x, float):
                return x
            try:
                return Fraction(_struct.unpack('f', _struct.pack('f', float(x)))[0])
            except OverflowError:
                return math.inf if x > 0 else -math.inf
        if dt == 'bool':
            return x != 0
        bits = {'uint8': 8, 'int8': 8, 'uint16': 16, 'int16': 16, 'uint32': 32, 'int32': 32, 'int64': 64, 'uint64': 64}.get(dt)
        if bits is None or isinstance(x, float):
            return O(H('castx', dt, hv(x)))
        i = int(x)
        i &= (1 << bits) - 1
        if not dt.startswith('u') and i >> (bits - 1):
            i -= 1 << bits
        return i

    def dims(self, arr):
        """concrete dimensions of an array value in this interpretation"""
        while True:
            if isinstance(arr, Over):
                arr = arr.base
            elif isinstance(arr, CastO):
                arr = arr.v
            else:
                break
        if isinstance(arr, Full):
            s = arr.shape
            if isinstance(s, Seq):
                return s.items
            if isnum(self.sc(s)):
                return (s,)
            return (self.elem(s, (0,)), self.elem(s, (1,)))
        return None

    def normpath(self, arr, p):
        d = None
        out = []
        for i, c in enumerate(p):
            c = self.sc(c)
            if isinstance(c, (int, Fraction)) and not isinstance(c, bool) and c < 0 and c == int(c):
                if d is None:
                    d = self.dims(arr) or ()
                    if not d and isinstance(arr, (O, Over)):
                        b = arr
                        while isinstance(b, Over):
                            b = b.base
                        if isinstance(b, O):
                            sh = O(H('app', 'shape', self.shapeh(b)), 'shape')
                            d = (self.elem(sh, (0,)), self.elem(sh, (1,))) if len(p) > 1 else ()
                if i < len(d):
                    c = self.num(d[i]) + c
            elif isinstance(c, Sl) and len(p) > 1:
                a = self.sc(c.a)
                c = Sl(0 if a is None else c.a, c.b, 1 if self.sc(c.c) is None else c.c)
            elif isinstance(c, Fraction) and c.denominator == 1:
                c = int(c)
            elif isinstance(c, Seq) and False:
                pass
            out.append(c)
        return tuple(out)

    def x_store(self, t):
        arr = self.ev(t.args[0])
        pt = t.args[1].args
        if len(pt) == 1 and self.ismask(pt[0]):
            m = self.tb(pt[0])
            v = self.ev(t.args[2])
            if m:
                return self.generic(v)
            return self.generic(arr) if not isinstance(arr, CastO) else arr
        p = self.normpath(arr, [self.ev(a) for a in pt])
        v = self.ev(t.args[2])
        return self.over(arr, p, v)

    def over(self, arr, p, v):
        if isinstance(arr, Dic) and len(p) == 1:
            hk = hv(p[0])
            if isinstance(p[0], An):
                hk = hv(p[0].n)
            out = []
            hit = False
            for k, x in arr.ent:
                if hv(k) == hk:
                    out.append((k, v))
                    hit = True
                else:
                    out.append((k, x))
            if not hit:
                out.append((p[0].n if isinstance(p[0], An) else p[0], v))
            return Dic(tuple(out))
        if isinstance(arr, Seq) and len(p) == 1 and isinstance(p[0], int) and -len(arr.items) <= p[0] < len(arr.items):
            x = list(arr.items)
            x[p[0]] = v
            return Seq(x)
        hp = [hv(c) for c in p]
        base = arr.base if isinstance(arr, Over) else arr
        ent = arr.ent if isinstance(arr, Over) else ()
        # no-op write
        old = self.elem(arr, p)
        if hv(old) == hv(v) and not any(isinstance(c, Sl) for c in p):
            return arr
        if not any(isinstance(c, Sl) for c in p):
            ent = tuple(e for e in ent if [hv(c) for c in e[0]] != hp)
        ent = ent + ((p, v),)
        # writing back the original value
        if not any(isinstance(c, Sl) for e in ent for c in e[0]):
            b = self.elem(base, p)
            if hv(b) == hv(v):
                ent = tuple(e for e in ent if e[0] is not p)
                if not ent:
                    return base
        return Over(base, ent)

    def ismask(self, t):
        if t.op in ('cmp', 'and', 'or', 'not'):
            return True
        if t.op == 'app' and t.args[0] in ('isnan', 'numpy.isclose', 'numpy.isfinite', 'numpy.logical_not', 'numpy.isinf', 'numpy.equal'):
            return True
        if t.op == 'ite':
            return self.ismask(t.args[1]) and self.ismask(t.args[2])
        if t.op == 'bin' and t.args[0] in ('&', '|', '^'):
            return self.ismask(t.args[1]) and self.ismask(t.args[2])
        if t.op == 'un' and t.args[0] == '~':
            return self.ismask(t.args[2] if len(t.args) > 2 else t.args[1])
        return False

    def covers(self, q, p):
        """does update path q cover read path p?  True False or None (unknown), and what remains of p"""
        rest = []
        for i, (a, b) in enumerate(zip(q, p)):
            if isinstance(a, Sl):
                if isinstance(b, Sl):
                    if hv(a) == hv(b):
                        continue
                    return None, None
                lo, hi = self.sc(a.a), self.sc(a.b)
                bb = self.sc(b)
                if not isinstance(bb, (int, Fraction)):
                    return None, None
                if lo is not None and isnum(lo) and bb < lo:
                    return False, None
                if hi is not None and isnum(hi) and hi >= 0 and bb >= hi:
                    return False, None
                if hi is not None and (not isnum(hi) or hi < 0):
                    return None, None
                rest.append(b)
                continue
            if isinstance(b, Sl):
                return None, None
            if isinstance(a, An) != isinstance(b, An):
                return False, None
            if isinstance(a, An):
                if a.n != b.n:
                    return False, None
                continue
            if not self.same(a, b):
                return False, None
        if len(q) > len(p):
            return None, None
        return True, tuple(rest) + tuple(p[len(q):])

    def elem(self, v, p):
        """element of a value at a path of values"""
        n = 0
        while p:
            n += 1
            if n > 500:
                raise Undecided('deep element')
            if isinstance(p[0], An) and p[0].n in self.v.ntindex and isinstance(v, (O, Seq)):
                p = [self.v.ntindex[p[0].n]] + list(p[1:])
            if type(v) is O and v.sel == 'ddict':
                v = v.dom
                p = p[1:]
                continue
            if type(v) is O:
                r = self.v.resolve(v)
                if r is None:
                    raise Crash('element of None')
                if isinstance(r, str):
                    if len(p) == 1 and isinstance(p[0], An):
                        m = DTNAME.match(r)
                        if m and p[0].n == 'kind':
                            return 'b' if r == 'bool' else r[0]
                        if m and p[0].n == 'itemsize':
                            return int(m.group(2)) // 8 if m.group(2) else 1
                        return O(H('strattr', hv(r), p[0].n), '.' + p[0].n)
                    return O(H('strelem', hv(r), *[hv(c) for c in p]))
                break
            if isinstance(v, Seq):
                c = self.sc(p[0])
                if isinstance(c, Fraction) and c.denominator == 1:
                    c = int(c)
                if isinstance(c, O) and not isinstance(c, CastO):
                    x = self.num(c)
                    c = int(x) % max(1, len(v.items)) if isnum(x) and not isinstance(x, float) and v.items else c
                if isinstance(c, int) and not isinstance(c, bool):
                    if -len(v.items) <= c < len(v.items):
                        v = v.items[c]
                        p = p[1:]
                        continue
                    raise Err('index')
                if isinstance(c, bool):
                    v = v.items[int(c)] if int(c) < len(v.items) else None
                    p = p[1:]
                    continue
                if isinstance(c, Sl):
                    ab = [self.sc(z) for z in (c.a, c.b, c.c)]
                    if all(z is None or isinstance(z, int) for z in ab):
                        v = Seq(v.items[slice(*ab)])
                        p = p[1:]
                        continue
                break
            if isinstance(v, Dic):
                c = p[0]
                if isinstance(c, An):
                    c = c.n
                for k, x in v.ent:
                    if self.same(k, c):
                        v = x
                        break
                else:
                    raise Err('key')
                p = p[1:]
                continue
            if isinstance(v, Full):
                d = self.dims(v)
                if any(isinstance(c, (Sl, Seq)) for c in p):
                    break
                if len(p) >= len(d or ()):
                    v = v.val
                    p = p[len(d):] if d else ()
                    continue
                break
            if isinstance(v, CastO):
                if all(not isinstance(c, Sl) for c in p):
                    e = self.elem(v.v, p)
                    return self.cast(v.dt, e)
                break
            if isinstance(v, Over):
                p = self.normpath(v, p)
                hit = None
                for q, x in reversed(v.ent):
                    c, rest = self.covers(q, p)
                    if c is None:
                        hit = 'unknown'
                        break
                    if c:
                        hit = (x, rest)
                        break
                if hit is None:
                    v = v.base
                    continue
                if hit == 'unknown':
                    break
                v, rest = hit
                if isnum(v) or v is None or isinstance(v, str):
                    return v
                p = rest
                continue
            if isnum(v) or v is None or isinstance(v, str):
                if v is None:
                    raise Crash('element of None')
                if isinstance(v, str):
                    return O(H('strelem', hv(v), *[hv(self.sc(c)) for c in p]))
                # broadcast scalar standing for the generic element of an array
                return O(H('elem', hv(v), *[hv(self.sc(c)) for c in p]), '')
            if isinstance(v, Cat):
                c = self.sc(p[0])
                if isinstance(c, int) and c < 0 and isinstance(v.b, Seq) and -c <= len(v.b.items):
                    v = v.b.items[c]
                    p = p[1:]
                    continue
                if isinstance(c, int) and c >= 0 and isinstance(v.a, Seq) and c < len(v.a.items):
                    v = v.a.items[c]
                    p = p[1:]
                    continue
            break
        if not p:
            return v
        h = hv(v)
        sel = self.sel(v)
        dom = self.dom(v)
        if sel == 'ddict':
            sel, dom = '', None
        if dom == 'tup':
            dom = None
        p = self.normpath(v, p)
        for c in p:
            cc = self.sc(c)
            if isinstance(cc, An) and cc.n in self.v.ntindex:
                cc = self.v.ntindex[cc.n]
            if isinstance(cc, An):
                sel, dom = '.' + cc.n, None
            elif isinstance(cc, str):
                sel, dom = cc, None
            h = H('elem', h, hv(self.canonidx(cc)))
        o = O(h, sel, dom)
        d = self.v.domains.get(sel, dom)
        if len(p) >= 2 and (isinstance(d, tuple) or d in self.NUMDOM) and all(isnum(c) or type(c) is O for c in p):
            return self.v.resolve(o)
        return o

    NUMDOM = {'num', 'elev', 'f32', 'f32low', 'nat', 'int', 'pos', 'numnan'}

    def canonidx(self, c):
        if isinstance(c, Fraction) and c.denominator == 1:
            return int(c)
        if isinstance(c, O) and not isinstance(c, CastO):
            # an index is its number, if it is one
            return c
        return c

    def x_idx(self, t):
        # split into root term and path, distributing over elementwise operations
        p = []
        x = t
        while x.op == 'idx':
            p.append(x.args[1])
            x = x.args[0]
        p.reverse()
        if len(p) == 1 and self.ismask(p[0]):
            return O(H('masked', self.h(x), self.h(p[0])), self.sel(self.ev(x)))
        pv = [self.ev(a) for a in p]
        if x.op in ('bin', 'cmp', 'where', 'un') and not any(isinstance(c, An) for c in pv):
            return self.elemwise(x, tuple(pv))
        v = self.ev(x)
        return self.elem(v, self.normpath(v, pv) if isinstance(v, (O, Over, Full)) else tuple(pv))

    def elemwise(self, x, p):
        def sub(a):
            if a.op in ('bin', 'cmp', 'where', 'un'):
                return self.elemwise(a, p)
            v = self.ev(a)
            if isinstance(v, (Over, Full, CastO)):
                return self.elem(v, p)
            if isinstance(v, O) and (v.dom is not None and isinstance(v.dom, str) and v.dom.startswith('arr') or self.v.domains.get('@' + v.sel)):
                return self.elem(v, p)
            if isinstance(v, O) and self.isarray(a):
                return self.elem(v, p)
            return v
        if x.op == 'bin':
            return self.binop(x.args[0], sub(x.args[1]), sub(x.args[2]))
        if x.op == 'cmp':
            return self.compare(x.args[0], sub(x.args[1]), sub(x.args[2]))
        if x.op == 'un':
            a = sub(x.args[1])
            return -self.num(a) if x.args[0] == '-' else O(H('un', x.args[0], hv(a)))
        if x.op == 'where':
            return sub(x.args[1]) if self.truth(sub(x.args[0])) else sub(x.args[2])

    ARRFN = {'numpy.cumsum', 'numpy.concatenate', 'numpy.arange', 'numpy.linspace', 'numpy.clip', 'numpy.asarray', 'numpy.array', 'numpy.histogram', 'numpy.bincount',
             'numpy.copy', 'numpy.sort', 'numpy.unique', 'numpy.diff', 'numpy.append', 'numpy.flip'}

    def isarray(self, t):
        if t.op in ('store', 'full', 'mu', 'fin') or (t.op == 'fold' and t.args[0] == 'upd'):
            return True
        if t.op == 'app' and t.args[0] in self.ARRFN:
            return True
        if t.op == 'idx' and (t.args[1].op == 'slice' or self.ismask(t.args[1])):
            return True
        return t.op == 'ite' and (self.isarray(t.args[1]) or self.isarray(t.args[2]))

    # -------------------------------------------------------------- calls
    def a_os_path_join(self, t):
        return O(H('app', 'os.path.join', *[hv(self.sc(self.ev(a))) for a in t.args[1:]]), 'os.path.join', 'obj')

    def x_app(self, t):
        name = t.args[0]
        f = getattr(self, 'a_' + name.replace('.', '_'), None) if isinstance(name, str) and name.replace('.', '_').isidentifier() else None
        if f is not None:
            r = f(t)
            if r is not NotImplemented:
                return r
        name = self.rn(name)
        hs = []
        for a in t.args[1:]:
            hs.append(hv(self.sc(self.ev(a))))
        if name.startswith('numpy.testing.assert_') and name.endswith('equal'):
            hs.sort()
        sel = name
        return O(H('app', name, *hs), sel)

    def x_mcall(self, t):
        return O(H('mcall', self.rn(t.args[0]), t.args[1], *[hv(self.sc(self.ev(a))) for a in t.args[2:]]), t.args[0])

    def nums(self, t):
        return [self.num(self.ev(a)) for a in t.args[1:]]

    # a directory listing: none, some, hidden or other files
    LISTINGS = ((), (), (), ('.gitkeep',), ('malstroem.gpkg',), ('notes.txt',), ('.a', '.b.tif'), ('data',), ('filled.tif', 'sub'), ('.x', 'y', 'flowdir.tif'))

    def listing(self, h):
        h0, name = self.v.paths.get(h, (h, None))
        if name is not None:
            return ()
        return self.LISTINGS[self.v.draw(h, 'listing', len(self.LISTINGS))]

    def path(self, d, name):
        h = H('path', d, name)
        self.v.paths[h] = (d, name)
        return O(h, 'path', 'obj')

    def patharg(self, t):
        return hv(self.sc(self.ev(t)))

    def a_amin(self, t):
        # never above the largest element
        if len(t.args) != 2:
            return NotImplemented
        h = hv(self.sc(self.ev(t.args[1])))
        try:
            return min(self.num(O(H('app', n, h), n)) for n in ('amin', 'amax'))
        except (TypeError, Undecided):
            return NotImplemented

    def a_os_listdir(self, t):
        return Seq(list(self.listing(self.patharg(t.args[1])))) if len(t.args) == 2 else NotImplemented

    def a_os_scandir(self, t):
        if len(t.args) != 2:
            return NotImplemented
        h = self.patharg(t.args[1])
        return Seq([self.path(h, n) for n in self.listing(h)])

    def a_glob_glob(self, t):
        p = self.v.paths.get(self.patharg(t.args[1])) if len(t.args) == 2 else None
        if p is None:
            return NotImplemented
        return Seq([self.path(p[0], n) for n in self.listing(p[0]) if fnmatch.fnmatchcase(n, p[1]) and (n[0] != '.' or p[1][:1] == '.')])

    a_glob_iglob = a_glob_glob

    def a_os_path_join(self, t):
        vs = [self.sc(self.ev(a)) for a in t.args[1:]]
        if len(vs) == 2 and isinstance(vs[1], str) and '/' not in vs[1] and vs[1]:
            return self.path(hv(vs[0]), vs[1])
        return O(H('app', 'os.path.join', *[hv(x) for x in vs]), 'os.path.join')

    def a_os_path_basename(self, t):
        p = self.v.paths.get(self.patharg(t.args[1]))
        return p[1] if p else NotImplemented

    def a_os_path_isdir(self, t):
        h = self.patharg(t.args[1])
        p = self.v.paths.get(h)
        if p is not None:
            return p[1] in self.listing(p[0]) and '.' not in p[1]
        return self.v.draw(h, 'isdir', 4) != 0

    def a_os_path_isfile(self, t):
        h = self.patharg(t.args[1])
        p = self.v.paths.get(h)
        if p is not None:
            return p[1] in self.listing(p[0]) and '.' in p[1]
        return self.v.draw(h, 'isdir', 4) == 0 and self.v.draw(h, 'isfile', 2) == 0

    def a_os_path_exists(self, t):
        if self.a_os_path_isdir(t) or self.a_os_path_isfile(t):
            return True
        h = self.patharg(t.args[1])
        return h not in self.v.paths and self.v.draw(h, 'special', 4) == 0

    def a_next(self, t):
        v = self.sc(self.ev(t.args[1]))
        if not isinstance(v, Seq):
            return NotImplemented
        if v.items:
            return v.items[0]
        if len(t.args) == 3:
            return self.ev(t.args[2])
        raise Err('next')

    def a_sorted(self, t):
        v = self.sc(self.ev(t.args[1])) if len(t.args) == 2 else None
        return Seq(sorted(v.items)) if isinstance(v, Seq) and all(isinstance(x, str) for x in v.items) else NotImplemented

    def a_set(self, t):
        v = self.sc(self.ev(t.args[1])) if len(t.args) == 2 else None
        return Seq(sorted(set(v.items))) if isinstance(v, Seq) and all(isinstance(x, str) for x in v.items) else NotImplemented

    a_frozenset = a_set

    def a__startswith(self, t):
        v = [self.sc(self.ev(a)) for a in t.args[1:]]
        return v[0].startswith(v[1]) if len(v) == 2 and all(isinstance(x, str) for x in v) else NotImplemented

    def a__endswith(self, t):
        v = [self.sc(self.ev(a)) for a in t.args[1:]]
        if len(v) == 2 and isinstance(v[1], Seq) and isinstance(v[0], str) and all(isinstance(x, str) for x in v[1].items):
            return v[0].endswith(tuple(v[1].items))
        return v[0].endswith(v[1]) if len(v) == 2 and all(isinstance(x, str) for x in v) else NotImplemented

    def a_msa_safecast(self, t):
        v = self.sc(self.ev(t.args[1]))
        return self.v.draw(hv(v), 'safe' + str(t.args[2].args[1]), 2) == 0

    def a_abs(self, t):
        x = self.nums(t)[0]
        return abs(x)

    def a_min(self, t):
        xs = self.nums(t)
        if any(isinstance(x, float) and x != x for x in xs):
            return math.nan
        return min(xs)

    def a_max(self, t):
        xs = self.nums(t)
        if any(isinstance(x, float) and x != x for x in xs):
            return math.nan
        return max(xs)

    def a_floor(self, t):
        x = self.nums(t)[0]
        return math.floor(x) if not isinstance(x, float) else x

    def a_ceil(self, t):
        x = self.nums(t)[0]
        return math.ceil(x) if not isinstance(x, float) else x

    def a_trunc(self, t):
        x = self.nums(t)[0]
        return math.trunc(x) if not isinstance(x, float) else x

    def a_int(self, t):
        v = self.sc(self.ev(t.args[1]))
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise Err('int')
        x = self.num(v)
        if isinstance(x, float):
            raise Err('int')
        return math.trunc(x)

    def a_float(self, t):
        v = self.sc(self.ev(t.args[1]))
        if isinstance(v, str):
            raise Err('float')
        return self.num(v)

    def a_round(self, t):
        xs = self.nums(t)
        if len(xs) == 1 and not isinstance(xs[0], float):
            return round(xs[0])
        if len(xs) == 2 and not isinstance(xs[0], float) and isinstance(xs[1], int):
            return round(Fraction(xs[0]), xs[1])
        return NotImplemented

    def a_isnan(self, t):
        v = self.sc(self.ev(t.args[1]))
        x = self.num(v)
        return isinstance(x, float) and x != x

    def a_nn(self, t):
        return max(0, self.num(self.ev(t.args[1])))

    def a_rangelen(self, t):
        a, b, s = self.nums(t)
        if all(not isinstance(x, float) and x == int(x) for x in (a, b, s)) and s != 0:
            return len(range(int(a), int(b), int(s)))
        return NotImplemented

    def a_bool(self, t):
        x = t.args[1]
        if x.op in ('mu', 'fin') and self.optional(x.args[0], x.args[1]):
            return self.compare('isnot', self.ev(x), None)
        return self.tb(x)

    def optional(self, lid, k):
        """a loop variable that is None or a tuple with elements"""
        L = self.loops[lid]

        def ok(t):
            if t.op == 'ite':
                return ok(t.args[1]) and ok(t.args[2])
            if t.op == 'tuple':
                return len(t.args) > 0
            if t.op == 'c':
                return t.args[1] is None
            return t.op == 'mu' and t.args[0] == lid and t.args[1] == k
        return k in L.init and k in L.next and ok(L.init[k]) and ok(L.next[k])

    def a_len(self, t):
        x = t.args[1]
        if x.op == 'app' and x.args[0] == 'ravel':
            b = self.ev(x.args[1])
            while isinstance(b, (Over, CastO)):
                b = b.base if isinstance(b, Over) else b.v
            if isinstance(b, O) and self.shapeh(b) != hv(b):
                return 1 + self.v.draw(self.shapeh(b), 'size', 5)
        v = self.sc(self.ev(t.args[1]))
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, Dic):
            return len(v.ent)
        if isinstance(v, str):
            return len(v)
        if v is None:
            raise Crash('length of None')
        if isinstance(v, Full):
            d = self.dims(v)
            return d[0]
        if isinstance(v, O):
            if self.num(v) == 0 and v.dom != 'obj':
                return 0
            return self.oddlen(v.h)
        return self.oddlen(hv(v))

    def oddlen(self, h):
        """a length; where one side compares with a number the other does not know, lengths around it too"""
        big = [int(c) for c in self.v.odd if isinstance(c, (int, float, Fraction)) and 4 < c < 10 ** 6]
        if big and not self.v.draw(h, 'oddlen', 3):
            return self.v.pick(h, 'oddlen2', tuple(big)) + self.v.draw(h, 'oddlen3', 3)
        return 1 + self.v.draw(h, 'len', 5)

    def a_shape(self, t):
        v = self.ev(t.args[1])
        if isinstance(v, Full):
            return v.shape
        b = v
        while isinstance(b, (Over, CastO)):
            b = b.base if isinstance(b, Over) else b.v
        if isinstance(b, Full):
            return b.shape
        return O(H('app', 'shape', self.shapeh(b)), 'shape', 'shape')

    def shapeh(self, b):
        """identity of the shape of an array: rasters the property requires to be on one grid share it"""
        if isinstance(b, O) and b.sel in self.v.grid and b.h == H('sym', b.sel):
            return H('grid')
        return hv(b)

    def a_fstr(self, t):
        out = []
        for a in t.args[1:]:
            try:
                v = self.sc(self.ev(a))
            except Err:
                out.append(H('err'))
                continue
            if isinstance(v, int) and not isinstance(v, bool):
                v = str(v)
            if not isinstance(v, str):
                out.append(hv(v))
            elif out and isinstance(out[-1], str):
                out[-1] += v
            else:
                out.append(v)
        if all(isinstance(x, str) for x in out):
            return ''.join(out)
        return O(H('fstr', *[hv(x) if isinstance(x, str) else x for x in out]), 'fstr')

    def a_str(self, t):
        v = self.sc(self.ev(t.args[1]))
        if isinstance(v, str):
            return v
        return O(H('str', hv(v)), 'str')

    def a_isinstance(self, t):
        return bool(self.v.draw(H(*[self.h(a) for a in t.args[1:]]), 'isinst', 2))

    def a_bool_(self, t):
        return NotImplemented

    # -------------------------------------------------------------- loops
    def ldepth(self, lid):
        d = self.depth.get(lid)
        if d is None:
            d = 0
            L = self.loops[lid]
            while L.parent is not None:
                d += 1
                L = self.loops[L.parent]
            self.depth[lid] = d
        return d

    def cnt(self, lid):
        L = self.loops[lid]
        if L.count is None:
            return None
        try:
            x = self.num(self.ev(L.count))
        except Err:
            return 3
        if isinstance(x, float):
            return 3
        if x != int(x) or x > 1000:
            return 2 + self.v.draw(hv(x), 'cnt', 5)
        return max(0, int(x))

    def x_lv(self, t):
        lid = t.args[0]
        n = self.cnt(lid)
        if n is None:
            return O(H('lv', self.ldepth(lid)), 'lv', 'nat')
        if n <= 0:
            n = 1
        for e in self.env:
            if isinstance(e, tuple) and e[0] == lid:
                return e[1]
        k = self.v.draw(H('lv', self.ldepth(lid)), 'lv', n)
        if lid in self.env:
            k = n - 1 - k
        return k

    def listed(self, lid):
        """number of turns of a loop over a directory listing"""
        n = self.loops[lid].count
        if n is None or n.op != 'app' or n.args[0] != 'len' or n.args[1].op != 'app' or n.args[1].args[0] not in ('os.listdir', 'os.scandir', 'glob.glob', 'sorted'):
            return None
        v = self.sc(self.ev(n.args[1]))
        return len(v.items) if isinstance(v, Seq) else None

    def turns(self, lid, n, f):
        old = self.env
        r = []
        try:
            for k in range(n):
                self.env = tuple(x for x in old if x != lid) + ((lid, k),)
                r.append(f())
        finally:
            self.env = old
        return r

    def run(self, lid, m):
        """a loop over a directory listing, turn by turn: the values of its variables after it"""
        L = self.loops[lid]

        def val(t):
            try:
                return (self.ev(t), None)
            except Err as e:
                return (None, e)
        s = {k: val(t) for k, t in L.init.items()}
        old, ost, otick = self.env, self.lstate.get(lid), self.tick
        try:
            for i in range(m):
                self.env = tuple(x for x in old if x != lid) + ((lid, i),)
                self.lstate[lid] = s
                self.ticks += 1
                self.tick = self.ticks
                n = {k: val(t) for k, t in L.next.items()}
                stop = self.tb(L.stop)
                s = {**s, **n}
                if stop:
                    break
        finally:
            self.env, self.lstate[lid], self.tick = old, ost, otick
        return s

    def mirrored(self, lid, f):
        old = self.env
        r0 = f()
        self.env = tuple(x for x in old if x != lid) + ((lid,) if lid not in old else ())
        try:
            r1 = f()
        finally:
            self.env = old
        return r0, r1

    def x_hole(self, t):
        k = self.hole.get(t.args[0])
        if k is not None:
            return k
        sel, dom = self.holes.get(t.args[0], ('hole', None))
        return O(H('hole', self.ldepth(t.args[0])), sel, dom)

    def x_fold(self, t):
        kind, lid, init, body = t.args
        n = self.cnt(lid)
        m = self.listed(lid)
        if m is not None and kind in ('any', 'all', 'sum', 'cat'):
            if kind in ('any', 'all'):
                return (any if kind == 'any' else all)(self.turns(lid, m, lambda: self.tb(body)))
            if kind == 'sum':
                return sum(self.turns(lid, m, lambda: self.num(self.ev(body.args[2]))))
            acc = self.ev(init)
            if isinstance(acc, Seq):
                def turn():
                    self.hole[lid] = self.acc
                    self.acc = self.ev(body)
                self.acc = acc
                h0 = self.hole.get(lid)
                self.turns(lid, m, turn)
                self.hole[lid] = h0
                return self.acc
        if kind in ('any', 'all'):
            if n == 0:
                return kind == 'all'
            a, b = self.mirrored(lid, lambda: self.tb(body))
            return (a or b) if kind == 'any' else (a and b)
        if kind == 'sum':
            if n == 0:
                return 0
            # body is hole + s

            def one():
                v = self.ev(body.args[2])
                if isinstance(v, str):
                    raise Undecided('string sum')
                return self.num(v)
            a, b = self.mirrored(lid, one)
            if isinstance(a, float) or isinstance(b, float):
                return float(a) + float(b)
            return Fraction(n, 2) * (a + b)
        if n == 0:
            return self.ev(init)
        iv = self.ev(init)
        # number the update through its body, as a function of the iteration
        depth = self.ldepth(lid)
        if lid not in self.holes and kind != 'cat':
            s, d = self.sel(iv), self.dom(iv)
            if s in self.v.domains:
                d = self.v.domains[s]
            if isinstance(d, str):
                self.holes[lid] = ('hole', d)
        b = self.ev(body)
        if isinstance(b, O) and b.h == H('hole', depth):
            # no update in this interpretation: still depends on the loop
            hb = H('noupd')
        else:
            hb = hv(b)
        hn = H('cnt', hv(self.num(self.ev(self.loops[lid].count))) if self.loops[lid].count is not None else 0)
        if self.sel(iv) == 'ddict':
            return O(H('fold', kind, hv(iv), hn, hb))
        return O(H('fold', kind, hv(iv), hn, hb), self.sel(iv), self.dom(iv) if not isinstance(self.dom(iv), tuple) else None)

    # colours
    def colour(self, lid, k, rnd):
        key = (lid, k, rnd, self.env, self.tick)
        c = self.colours.get(key)
        if c is not None:
            return c
        if key in self.busy:
            return H('busy', self.ldepth(lid))
        self.busy.add(key)
        L = self.loops[lid]
        old = self.round
        try:
            if rnd == 0:
                self.round = 0
                c = H('mu0', self.h(L.init[k]) if k in L.init else 0, self.ldepth(lid))
            else:
                prev = self.colour(lid, k, rnd - 1)
                self.round = rnd - 1
                c = H(prev, self.h(L.next[k]) if k in L.next else 0)
        finally:
            self.round = old
            self.busy.discard(key)
        self.colours[key] = c
        return c

    def selof(self, lid, k):
        L = self.loops[lid]
        t = L.init.get(k)
        n = 0
        while t is not None and n < 50:
            n += 1
            if t.op == 'sym':
                return t.args[0]
            if t.op in ('store', 'cast'):
                t = t.args[0] if t.op == 'store' else t.args[1]
            elif t.op in ('mu', 'fin'):
                L = self.loops[t.args[0]]
                t = L.init.get(t.args[1])
            elif t.op == 'fold':
                t = t.args[2]
            else:
                return ''
        return ''

    def domof(self, lid, k):
        L = self.loops[lid]
        st = [L.next.get(k)]
        while st:
            # a carried value that some round makes a pair (else None) is true whenever it is there
            t = st.pop()
            if t is not None and t.op == 'ite':
                st += t.args[1:]
            elif t is not None and t.op == 'tuple' and t.args:
                return 'tup'
        t = L.init.get(k)
        n = 0
        while t is not None and n < 50:
            n += 1
            if t.op == 'sym':
                return t.args[1] if t.args[1] != 'any' else None
            if t.op in ('store', 'cast'):
                t = t.args[0] if t.op == 'store' else t.args[1]
            elif t.op in ('mu', 'fin'):
                L = self.loops[t.args[0]]
                t = L.init.get(t.args[1])
            elif t.op == 'fold':
                t = t.args[2]
            elif isc(t) and isinstance(cv(t), bool):
                return 'bool'
            else:
                return None
        return None

    def x_mu(self, t):
        lid, k = t.args
        st = self.lstate.get(lid)
        if st is not None and k in st:
            if st[k][1] is not None:
                raise st[k][1]
            return st[k][0]
        r = O(H('mu', self.colour(lid, k, self.round)), self.selof(lid, k), self.domof(lid, k))
        return self.truth(r) if k in self.loops[lid].bools else r

    def loopcolour(self, lid):
        L = self.loops[lid]
        hc = H('while') if L.count is None else H('count', hv(self.num(self.ev(L.count))) if True else 0)
        return H('loop', hc, self.h(L.stop))

    def x_fin(self, t):
        lid, k = t.args
        L = self.loops[lid]
        m = self.listed(lid)
        if m is not None and m < 12:
            key = (lid, self.env, self.tick)
            s = self.finals.get(key)
            if s is None:
                s = self.finals[key] = self.run(lid, m)
            if k in s:
                if s[k][1] is not None:
                    raise s[k][1]
                return s[k][0]
        try:
            lc = self.loopcolour(lid)
        except Err:
            lc = H('err')
        r = O(H('fin', lc, self.colour(lid, k, self.round), self.h(L.next[k])), self.selof(lid, k), self.domof(lid, k))
        return self.truth(r) if k in self.loops[lid].bools else r

    # -------------------------------------------------------------- events
    def events(self, evs, pre=()):
        """-> dict channel hash -> list of (hash, event)"""
        out = {}
        for e in evs:
            if e.kind == 'raise':
                continue
            try:
                if not self.tb(e.guard):
                    continue
            except Err:
                continue
            if e.kind == 'loop':
                try:
                    lc = self.loopcolour(e.loop.id)
                    n = self.cnt(e.loop.id)
                except Err:
                    lc, n = H('err'), 1
                if n == 0:
                    continue
                inner = self.events(e.loop.events)
                for ch, lst in inner.items():
                    out.setdefault(ch, []).append((H('loop', lc, *[x[0] for x in lst]), e, lst))
                continue
            ch = hv(self.ev(e.chan)) if isinstance(e.chan, T) else H('chan', str(e.chan))
            hs = [e.kind]
            for a in e.args:
                hs.append(self.h(a) if isinstance(a, T) else H('x', str(a)))
            out.setdefault(ch, []).append((H(*hs), e, None))
        return out
