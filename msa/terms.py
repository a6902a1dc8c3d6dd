"""Hash-consed value-graph terms.

A term is (op, args); args are terms or plain python constants.  Two syntactically different programs that
compute the same thing are meant to build terms that are equal as functions of their leaves, not as trees;
msa.valu decides that equality.

op         args                                     meaning
c          (typename, value)                        constant
sym        (name, domain)                           parameter / free input
lv         (loopid,)                                iteration number of a counted loop, 0..count-1
mu         (loopid, key)                            value of a loop-carried variable at the start of an iteration
fin        (loopid, key)                            its value after the loop
hole       (loopid,)                                'the state before this iteration' inside a fold body
fold       (kind, loopid, init, body)               sum any all cat dict arr: closed form of a reduction
app        (name, a1, ..)                           pure call of a known opaque function (kw args normalised)
mcall      (name, occ, recv, a1, ..)                impure/opaque call result
attr       (x, name)   idx (x, i)                   selection
bin        (op, a, b)  un (op, a)  cmp (op, a, b)   arithmetic
and or not ite
tuple list dict struct slice
store      (arr, idx, val)                          functional array / object update
full       (shape, value, dtype)                    fresh array
ref        (oid,)                                   heap reference (only during interpretation)
fn cls mod bound builtin                            callables / modules
"""


class T:
    __slots__ = ('op', 'args', 'id', '_lv', '_mu', '__weakref__')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(('T', a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        T.n += 1
        t.id = T.n
        t._lv = None
        t._mu = None
        T.table[key] = t
    return t


def C(v):
    if isinstance(v, float) and v != v:
        return mk('c', 'nan', 'nan')
    return mk('c', type(v).__name__, v)


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
ZERO = C(0)
ONE = C(1)


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.args[1]


def isnumc(t):
    return t.op == 'c' and isinstance(t.args[1], (int, float)) and t.args[0] != 'nan'


BOOLOPS = ('cmp', 'and', 'or', 'not')


BOOLS = set()   # loop variables (loop, name) that only ever hold booleans


def isbool(t):
    if t.op in ('mu', 'fin'):
        return t.args in BOOLS
    if t.op == 'c':
        return isinstance(t.args[1], bool)
    if t.op in ('cmp', 'not'):
        return True
    if t.op in ('and', 'or'):
        return all(isbool(a) for a in t.args)
    if t.op == 'ite':
        return isbool(t.args[1]) and isbool(t.args[2])
    if t.op == 'fold':
        return t.args[0] in ('any', 'all')
    if t.op == 'app':
        return t.args[0] in ('bool', 'isinstance', 'callable', 'any', 'all')
    return False


def truthy(t):
    """boolean term for the truth value of t"""
    if isbool(t):
        return t
    if t.op == 'c':
        v = t.args[1]
        if t.args[0] == 'nan':
            return TRUE
        return C(bool(v))
    if t.op in ('tuple', 'list'):
        return C(len(t.args) > 0)
    if t.op in ('fn', 'cls', 'mod', 'bound', 'builtin'):
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    return mk('app', 'bool', t)


def not_(t):
    t = truthy(t)
    if t.op == 'c':
        return C(not cv(t))
    if t.op == 'not':
        return t.args[0]
    if t.op == 'ite':
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if t.op == 'cmp' and t.args[0] in NEG:
        return mk('cmp', NEG[t.args[0]], t.args[1], t.args[2])
    return mk('not', t)


NEG = {'==': '!=', '!=': '==', 'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}


def _lits(t, op):
    if t.op == op:
        return list(t.args)
    return [t]


def and_(*ts):
    out = []
    for t in ts:
        t = truthy(t)
        for x in _lits(t, 'and'):
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
        if x.op == 'not' and x.args[0].op == 'and' and all(y in out for y in x.args[0].args):
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(*ts):
    out = []
    for t in ts:
        t = truthy(t)
        for x in _lits(t, 'or'):
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
        if x.op == 'not' and x.args[0].op == 'or' and all(y in out for y in x.args[0].args):
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def facts(c, v, r):
    """truth values of conditions that follow at once from c having truth value v"""
    r[c.id] = v
    if c.op == 'not':
        facts(c.args[0], not v, r)
    elif c.op == 'and' and v or c.op == 'or' and not v:
        for a in c.args:
            facts(a, v, r)
    return r


def condunder(c, r, depth=0):
    v = r.get(c.id)
    if v is not None:
        return TRUE if v else FALSE
    if depth < 4:
        if c.op == 'not':
            return not_(condunder(c.args[0], r, depth + 1))
        if c.op == 'and' or c.op == 'or':
            na = [condunder(a, r, depth + 1) for a in c.args]
            if any(x is not y for x, y in zip(na, c.args)):
                return (and_ if c.op == 'and' else or_)(*na)
        if c.op == 'ite':
            return under(c, r, depth)
    return c


def under(t, r, depth=0):
    """t where the conditions in r are known: alternatives of nested selections that cannot be taken are dropped"""
    if t.op != 'ite':
        return condunder(t, r, depth) if t.op in ('and', 'or', 'not') else t
    if depth > 3:
        return t
    c = condunder(t.args[0], r, depth + 1)
    if c is TRUE:
        return under(t.args[1], r, depth + 1)
    if c is FALSE:
        return under(t.args[2], r, depth + 1)
    a, b = under(t.args[1], r, depth + 1), under(t.args[2], r, depth + 1)
    if c is t.args[0] and a is t.args[1] and b is t.args[2]:
        return t
    return ite(c, a, b)


def ite(c, a, b):
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isbool(a) and isbool(b):
        if a is c:
            a = TRUE
        if b is c:
            b = FALSE
        if a is TRUE and b is FALSE:
            return c
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == 'ite' or a.op in ('and', 'or', 'not'):
        a = under(a, facts(c, True, {}))
    if b.op == 'ite' or b.op in ('and', 'or', 'not'):
        b = under(b, facts(c, False, {}))
    if a is b:
        return a
    if isbool(a) and isbool(b) and (a.op == 'c' or b.op == 'c'):
        return ite(c, a, b)
    # if c then x else (if d then x else y)  ->  if c or d then x else y
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def bin_(op, a, b):
    if isnumc(a) and isnumc(b):
        x, y = cv(a), cv(b)
        try:
            if op == '+':
                return C(x + y)
            if op == '-':
                return C(x - y)
            if op == '*':
                return C(x * y)
            if op == '/' and y != 0:
                return C(x / y)
            if op == '//' and y != 0:
                return C(x // y)
            if op == '%' and y != 0:
                return C(x % y)
            if op == '**' and abs(y) < 100:
                return C(x ** y)
        except Exception:
            pass
    if a.op == 'c' and b.op == 'c' and op == '+' and isinstance(cv(a), str) and isinstance(cv(b), str):
        return C(cv(a) + cv(b))
    if op == '+':
        if a.op in ('tuple', 'list') and a.op == b.op:
            return mk(a.op, *(a.args + b.args))
        if isnumc(a) and cv(a) == 0:
            return b
        if isnumc(b) and cv(b) == 0:
            return a
        # (x + c1) + c2
        if isnumc(b) and a.op == 'bin' and a.args[0] == '+' and isnumc(a.args[2]):
            return bin_('+', a.args[1], C(cv(a.args[2]) + cv(b)))
        if isnumc(b) and a.op == 'bin' and a.args[0] == '-' and isnumc(a.args[2]):
            return bin_('+', a.args[1], C(cv(b) - cv(a.args[2])))
        if isnumc(a) and b.op != 'tuple':
            return bin_('+', b, a)
    if op == '-':
        if isnumc(b) and cv(b) == 0:
            return a
        if isnumc(b):
            return bin_('+', a, C(-cv(b)))
        if a is b and a.op in ('lv',):
            return ZERO
        # (x + c) - x
        if a.op == 'bin' and a.args[0] == '+' and a.args[1] is b and isnumc(a.args[2]):
            return a.args[2]
    if op == '*':
        if isnumc(a) and cv(a) == 1:
            return b
        if isnumc(b) and cv(b) == 1:
            return a
        if isnumc(b) and not isnumc(a):
            return mk('bin', '*', b, a)
    if op == '/' and isnumc(b) and cv(b) == 1:
        return a
    return mk('bin', op, a, b)


def un_(op, a):
    if op == '-' and isnumc(a):
        return C(-cv(a))
    if op == '+':
        return a
    return mk('un', op, a)


CALLABLE = ('fn', 'cls', 'mod', 'bound', 'builtin', 'enum')


def known_distinct(a, b):
    """True: certainly different objects/values, None: unknown"""
    if a is b:
        return False
    if a.op == 'c' and b.op == 'c':
        x, y = cv(a), cv(b)
        if a.args[0] == 'nan' or b.args[0] == 'nan':
            return True
        return not (x == y)
    fixed = ('fn', 'cls', 'mod', 'enum', 'builtin')
    if a.op in fixed and b.op in fixed:
        return True
    if (a.op in fixed + ('tuple', 'list', 'ref', 'struct', 'full', 'store', 'dict') and b is NONE) or \
       (b.op in fixed + ('tuple', 'list', 'ref', 'struct', 'full', 'store', 'dict') and a is NONE):
        return True
    if a.op == 'ref' and b.op == 'ref':
        return None
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args) != len(b.args):
            return True
        r = [known_distinct(x, y) for x, y in zip(a.args, b.args)]
        if True in r:
            return True
        if all(x is False for x in r):
            return False
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] == 'os.path.join' and len(a.args) == len(b.args) == 3 and a.args[1] is b.args[1]:
        x, y = a.args[2], b.args[2]
        if isc(x) and isc(y) and isinstance(cv(x), str) and isinstance(cv(y), str) and not any(c in cv(x) + cv(y) for c in '/\\.' if c != '.') \
                and cv(x) not in ('', '.', '..') and cv(y) not in ('', '.', '..'):
            return cv(x) != cv(y)
    return None


def neverNone(t):
    if t.op == 'ite':
        return neverNone(t.args[1]) and neverNone(t.args[2])
    while t.op == 'idx':
        t = t.args[0]
        if t.op == 'app' and isinstance(t.args[0], str) and t.args[0].startswith('numpy.'):
            return True
    return t.op in ('bin', 'un', 'cmp', 'cast', 'and', 'or', 'not', 'cat') or (t.op == 'app' and isinstance(t.args[0], str) and t.args[0].startswith('numpy.') and not t.args[0].startswith('numpy.testing'))


def cmp_(op, a, b):
    if op in ('>', '>='):
        op = {'>': '<', '>=': '<='}[op]
        a, b = b, a
    if op in ('is', 'isnot') and ((b.op == 'c' and cv(b) is None and neverNone(a)) or (a.op == 'c' and cv(a) is None and neverNone(b))):
        return C(op == 'isnot')
    if a.op == 'ite' and (b.op == 'c') and op in ('==', '!=', 'is', 'isnot'):
        if a.args[1].op in ('c', 'ite', 'ref', 'tuple') or a.args[2].op in ('c', 'ite', 'ref', 'tuple'):
            return ite(a.args[0], cmp_(op, a.args[1], b), cmp_(op, a.args[2], b))
    if op in ('==', '!=', 'is', 'isnot'):
        if a is b and a.op not in ('mcall',):
            return C(op in ('==', 'is'))
        d = known_distinct(a, b)
        if d is True:
            return C(op in ('!=', 'isnot'))
        if op in ('==', '!=') and a.op == 'tuple' and b.op == 'tuple':
            r = and_(*[cmp_('==', x, y) for x, y in zip(a.args, b.args)])
            return r if op == '==' else not_(r)
        if op in ('is', 'isnot'):
            if b.op in ('enum', 'fn', 'cls', 'builtin') or a.op in ('enum', 'fn', 'cls', 'builtin'):
                op = '==' if op == 'is' else '!='
        if a.op == 'c' and b.op != 'c':
            a, b = b, a
        if isinstance(cv(b), bool) if b.op == 'c' else False:
            if isbool(a) and op in ('==', 'is'):
                return a if cv(b) else not_(a)
            if isbool(a) and op in ('!=', 'isnot'):
                return not_(a) if cv(b) else a
        return mk('cmp', op, a, b)
    if isnumc(a) and isnumc(b):
        if op == '<':
            return C(cv(a) < cv(b))
        if op == '<=':
            return C(cv(a) <= cv(b))
    if op in ('in', 'notin') and b.op in ('tuple', 'list'):
        r = or_(*[cmp_('==', a, x) for x in b.args])
        return r if op == 'in' else not_(r)
    if op in ('in', 'notin') and a.op == 'c' and b.op == 'c' and isinstance(cv(b), str) and isinstance(cv(a), str):
        return C((cv(a) in cv(b)) == (op == 'in'))
    if a is b and op == '<':
        return FALSE
    if a is b and op == '<=':
        return TRUE
    if op in ('<', '<='):
        # lengths are whole numbers: one way to write a bound of them
        if a.op == 'app' and a.args[0] == 'len' and isc(b) and type(cv(b)) is int:
            return not_(mk('cmp', '<', C(cv(b) - (op == '<')), a))
        if op == '<=' and b.op == 'app' and b.args[0] == 'len' and isc(a) and type(cv(a)) is int:
            return mk('cmp', '<', C(cv(a) - 1), b)
    return mk('cmp', op, a, b)


_PROJ_CACHE = {}


def idx_(x, i):
    if x.op == 'app' and x.args[0] == 'numpy.unique' and len(x.args) == 2 and isc(i) and cv(i) in (0, -1):
        return mk('app', 'amin' if cv(i) == 0 else 'amax', x.args[1])
    if x.op in ('tuple', 'list') and isc(i) and isinstance(cv(i), int):
        n = len(x.args)
        k = cv(i)
        if -n <= k < n:
            return x.args[k]
    if x.op == 'ite' and (x.args[1].op in ('tuple', 'list', 'ite', 'struct') or x.args[2].op in ('tuple', 'list', 'ite', 'struct')):
        key = (x.id, i.id)
        r = _PROJ_CACHE.get(key)
        if r is None:
            r = ite(x.args[0], idx_(x.args[1], i), idx_(x.args[2], i))
            _PROJ_CACHE[key] = r
        return r
    if x.op in ('tuple', 'list') and i.op == 'slice' and all(isc(a) for a in i.args):
        return mk(x.op, *x.args[slice(*[cv(a) for a in i.args])])
    # (a[:2, i] is written a[:2][i] too: only for values taken from a record, which are one-dimensional)
    if x.op == 'idx' and x.args[1].op == 'slice' and fromrecord(x.args[0]) and isc(i) and type(cv(i)) is int and cv(i) >= 0:
        a, b, c = x.args[1].args
        if isc(a) and cv(a) in (None, 0) and isc(c) and cv(c) in (None, 1) and isc(b) and type(cv(b)) is int and cv(b) > cv(i):
            return idx_(x.args[0], i)
    # an index by an attribute of what is indexed: the attribute of the element found under a key is that key
    if x.op == 'idx' and x.args[0].op == 'fold' and isc(i) and x.args[0].args[0] == 'upd':
        f = x.args[0]
        b = f.args[3]
        if f.args[2].op == 'dict' and not f.args[2].args and b.op == 'store' and b.args[0].op == 'hole' and b.args[1].op == 'tuple' and len(b.args[1].args) == 1:
            k = b.args[1].args[0]
            if k.op == 'idx' and k.args[0] is b.args[2] and k.args[1] is i:
                return x.args[1]
    return mk('idx', x, i)


def fromrecord(t):
    n = 0
    while t.op == 'idx' and t.args[1].op != 'slice':
        if isc(t.args[1]) and isinstance(cv(t.args[1]), str):
            return n <= 1
        t = t.args[0]
        n += 1
    return False


def children(t):
    return [a for a in t.args if isinstance(a, T)]


def walk(roots, seen=None, loops=None):
    """all subterms; with loops (id -> Loop) also through the loop definitions"""
    if seen is None:
        seen = {}
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        st.extend(children(t))
        if loops is not None and t.op in ('mu', 'fin', 'lv', 'fold', 'hole', 'lev'):
            lid = t.args[1] if t.op == 'fold' else t.args[0]
            L = loops.get(lid)
            if L is not None:
                if L.count is not None:
                    st.append(L.count)
                if t.op in ('mu', 'fin'):
                    if t.args[1] in L.init:
                        st.append(L.init[t.args[1]])
                    if t.args[1] in L.next:
                        st.append(L.next[t.args[1]])
                    if L.stop is not None:
                        st.append(L.stop)
    return seen


def assume_not(t, x, memo=None):
    """t simplified under the assumption that x is false"""
    ds = []
    for d in (x.args if x.op == 'or' else (x,)):
        ds.append(d.args if d.op == 'and' else (d,))
    if memo is None:
        memo = {}

    def known(path):
        m = {}
        for d in ds:
            left = [c for c in d if c not in path]
            if len(left) == 1:
                m[left[0]] = FALSE
                n = not_(left[0])
                if n is not left[0]:
                    m[n] = TRUE
            elif not left:
                return None
        return m

    def rec(t, path):
        if t.op in ('c', 'sym', 'lv', 'mu', 'fin', 'hole') or (not any(isinstance(a, T) for a in t.args)):
            m = known(path)
            return m.get(t, t) if m else t
        key = (t.id, path)
        r = memo.get(key)
        if r is not None:
            return r
        m = known(path) or {}
        if t in m:
            r = m[t]
        elif t.op == 'ite':
            c = rec(t.args[0], path)
            if c is TRUE:
                r = rec(t.args[1], path)
            elif c is FALSE:
                r = rec(t.args[2], path)
            else:
                pos = path | frozenset(c.args if c.op == 'and' else (c,)) if rel(c) else path
                n = not_(c)
                neg = path | frozenset(n.args if n.op == 'and' else (n,)) if rel(n) else path
                r = ite(c, rec(t.args[1], pos), rec(t.args[2], neg))
        elif t.op == 'and':
            own = [a for a in t.args]
            out = []
            for i, a in enumerate(own):
                p = path | frozenset(b for j, b in enumerate(own) if j != i and b in atoms and (j > i or b in out))
                q = rec(a, p)
                out.append(q)
            r = and_(*out)
        else:
            na = [rec(a, path) if isinstance(a, T) else a for a in t.args]
            r = t if all(p is q for p, q in zip(na, t.args)) else rebuild(t.op, na)
        memo[key] = r
        return r
    atoms = {c for d in ds for c in d}

    def rel(c):
        return any(a in atoms for a in (c.args if c.op == 'and' else (c,)))
    return rec(t, frozenset())


def subst(t, m, memo=None):
    """replace terms (by identity) according to m {T: T}"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = subst(a, m, memo)
                ch = ch or (b is not a)
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t.op, na) if ch else t
    memo[t.id] = r
    return r


def rebuild(op, a):
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(*a)
    if op == 'bin':
        return bin_(*a)
    if op == 'un':
        return un_(*a)
    if op == 'cmp':
        return cmp_(*a)
    if op == 'idx':
        return idx_(*a)
    if op == 'app' and a[0] == 'bool':
        return truthy(a[1])
    return mk(op, *a)


def mentions(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        r = bool(pred(t)) or any(mentions(a, pred, memo) for a in t.args if isinstance(a, T))
        memo[t.id] = r
    return r


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        return repr(t.args[1])
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'lv':
        return 'k%s' % t.args[0]
    if depth <= 0:
        return '..'
    s = lambda a: show(a, depth - 1)
    if t.op in ('mu', 'fin'):
        return '%s%s[%s]' % (t.op, t.args[0], t.args[1])
    if t.op == 'bin':
        return '(%s %s %s)' % (s(t.args[1]), t.args[0], s(t.args[2]))
    if t.op == 'cmp':
        return '(%s %s %s)' % (s(t.args[1]), t.args[0], s(t.args[2]))
    if t.op == 'attr':
        return '%s.%s' % (s(t.args[0]), t.args[1])
    if t.op == 'idx':
        return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if t.op == 'ite':
        return '(%s ? %s : %s)' % tuple(s(a) for a in t.args)
    if t.op in ('app', 'mcall'):
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:] if not isinstance(a, str) or True))
    return '%s(%s)' % (t.op, ', '.join(s(a) for a in t.args))
