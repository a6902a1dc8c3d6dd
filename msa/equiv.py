"""Obligations: the value graph of package code against the value graph of a reference, per output."""
import copy
import os
import time
import traceback

from .terms import T, mk, C, walk, show, isc, cv, TRUE, FALSE, NONE
from .interp import Interp, Giveup
from . import valu
from .valu import Eval, Valuation, Err, Undecided, H, hv, O

SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = os.environ.get('VERIF_TIER', 'quick') == 'thorough'


REC = C('rec')


def dropcalls(evs):
    evs[:] = [e for e in evs if e.chan is not REC]
    for e in evs:
        if e.loop is not None:
            dropcalls(e.loop.events)


class Side:
    def __init__(self, I, outs):
        self.I = I
        self.outs = outs            # label -> term
        if not any(e.kind != 'loop' and e.kind != 'raise' and e.chan is not REC for e in allev(I.events)):
            dropcalls(I.events)     # recursive calls of a function without effects
        self.events = I.events
        self.loops = I.loops
        self.raises = I.S.get(('f', 'x'), FALSE)

    def roots(self):
        r = [t for t in self.outs.values()] + [self.raises]

        def ev(es):
            for e in es:
                r.append(e.guard)
                for a in e.args:
                    if isinstance(a, T):
                        r.append(a)
                if isinstance(e.chan, T):
                    r.append(e.chan)
                if e.loop is not None:
                    if e.loop.count is not None:
                        r.append(e.loop.count)
                    r.append(e.loop.stop)
                    ev(e.loop.events)
        ev(self.events)
        return r


# rasters that are on one grid wherever several of them are arguments
GRID = {'data', 'labelled', 'labeled', 'flowdir', 'accum', 'labeled_bluespots', 'dtm', 'filled', 'bluespotlabels', 'bluespot_labels', 'dem', 'terrain'}


def omitted(ob, *names):
    """the obligation for calls that leave parameters to their defaults"""
    r = copy.copy(ob)
    r.id = ob.id + '_defaults'
    r.args = {k: v for k, v in ob.args.items() if k not in names}
    return r


class Ob:
    """target and spec: 'module:function'; args: parameter -> domain of the value"""

    def __init__(self, id, target, spec, args, domains=None, boundary=None, models=None, mut=(), props=(), alts=(), raises=False, ret=True,
                 events=True, purefns=(), note='', puremethods=(), globs=(), grid=None, never=False, at='', inner=False, nonzero=False, anytype=False):
        self.id = id
        self.target = target
        self.spec = spec
        self.args = args
        self.domains = domains or {}
        self.boundary = boundary or {}
        self.models = models or {}
        self.mut = mut
        self.props = props
        self.alts = alts
        self.raises = raises
        self.ret = ret
        self.events = events
        self.purefns = purefns
        self.note = note
        self.puremethods = puremethods
        self.globs = globs
        self.at = at
        self.anytype = anytype
        self.nonzero = nonzero  # only interpretations in which no number is 0
        self.inner = inner      # only interpretations in which every cell is far from the edges of its raster
        self.never = never      # the property says the value is a constant: any interpretation giving another one is a witness
        self.grid = GRID & set(args) if grid is None else grid


class Result:
    def __init__(self, ob, status, **kw):
        self.ob = ob
        self.status = status        # 'ok' 'diff' 'undecided'
        self.where = kw.get('where', '')
        self.detail = kw.get('detail', '')
        self.valuations = kw.get('valuations', 0)
        self.effective = kw.get('effective', 0)
        self.functions = kw.get('functions', set())
        self.terms = kw.get('terms', 0)
        self.loops = kw.get('loops', 0)
        self.callsites = kw.get('callsites', 0)
        self.outputs = kw.get('outputs', [])
        self.time = kw.get('time', 0)
        self.normal = kw.get('normal', 0)            # interpretations under which the code returns
        self.conditions = kw.get('conditions', 0)    # branch conditions decided under some interpretation
        self.onesided = kw.get('onesided', [])       # (1 never true | 2 never false, condition)


_sidecache = {}


def side(project, ref, ob):
    key = (id(project), ref, tuple(sorted((k, v if isinstance(v, (str, tuple)) else id(v)) for k, v in ob.args.items())), repr(ob.boundary), repr(ob.models), ob.mut, ob.ret, ob.purefns, ob.puremethods, ob.globs)
    if key in _sidecache:
        return _sidecache[key]
    I = Interp(project, boundary=ob.boundary, models=ob.models, purefns=ob.purefns)
    if ob.puremethods:
        I.puremethods = I.puremethods | set(ob.puremethods)
    r = project.fn(ref)
    if r is None:
        raise KeyError(ref)
    node = r[1]
    names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    args = {}
    free = [n for n in names if n not in ob.args]
    for i, (n, d) in enumerate(ob.args.items()):
        v = d if isinstance(d, T) else mk('sym', n, d if isinstance(d, (str, tuple)) else 'any')
        if n in names:
            args[n] = v
        elif i < len(names) and names[i] in free:
            # renamed parameter: same position
            args[names[i]] = v
    byname = {v.args[0]: v for v in args.values() if v.op == 'sym'}
    ret = I.run(ref, args)
    outs = {}
    if ob.ret:
        outs['return value'] = I.freeze(ret)
    for m in ob.mut:
        s = byname.get(m)
        if s is None:
            continue
        outs['contents of ' + m] = I.freeze(I.S.get(('o', s), s))
    for mod, g in ob.globs:
        outs['global ' + g] = I.freeze(I.S.get(('g', mod, g), I.globalval(mod, g)))
    # every argument that is changed although it is not listed as an output
    for k, v in I.S.items():
        if k[0] == 'o' and k[1].op == 'sym' and k[1].args[0] not in ob.mut and k[1].args[0] in ob.args:
            f = I.freeze(v)
            if f is not k[1]:
                outs['contents of ' + k[1].args[0]] = f
    sd = Side(I, outs)
    _sidecache[key] = sd
    return sd


def keyname(x):
    """selector name of a term, as the evaluation will label it"""
    t = x
    while t.op in ('cast',):
        t = t.args[1]
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'idx':
        i = t.args[1]
        if i.op == 'an':
            return '.' + i.args[0]
        if i.op == 'c' and isinstance(cv(i), str):
            return cv(i)
        return keyname(t.args[0])
    if t.op in ('app', 'mcall'):
        return t.args[0]
    if t.op == 'store':
        return keyname(t.args[0])
    if t.op in ('mu', 'fin'):
        return ''
    return ''


def evidence(sides, keyed=()):
    consts = set()
    none = set()
    strs = {}
    nans = set()
    enums = {}

    def names(t):
        if t.op == 'ite':
            return names(t.args[1]) + names(t.args[2])
        k = keyname(t)
        return [k] if k else []
    lits = []

    def lit(x, into, d=0):
        if isc(x):
            v = cv(x)
            if isinstance(v, (int, float, valu.Fraction)) and not isinstance(v, bool) and v == v and 0 < abs(v) < 1e40:
                into.add(valu.Fraction(repr(v)) if isinstance(v, float) else valu.Fraction(v))
        elif d < 4 and (x.op in ('bin', 'un', 'ite') or x.op == 'app' and x.args[0] in ('min', 'max', 'abs', 'seqmin', 'seqmax')):
            for y in x.args:
                if isinstance(y, T):
                    lit(y, into, d + 1)
    for sd in sides:
        lits.append(set())
        seen = walk(sd.roots() + flat(sd.events), loops=sd.loops)
        for t in list(seen.values()):
            if t.op == 'app' and t.args[0] == 'bool' and t.args[1].id in keyed and t.args[1].op == 'sym':
                none.update(names(t.args[1]))       # a record that may be left out
            if t.op == 'cmp':
                a, b = t.args[1], t.args[2]
                lit(a, lits[-1])
                lit(b, lits[-1])
                for x, y in ((a, b), (b, a)):
                    if x.op == 'enum':
                        for n in names(y):
                            enums.setdefault(n, set()).add(x.args)
                    if isc(x):
                        v = cv(x)
                        if v is None:
                            none.update(names(y))
                        elif isinstance(v, str):
                            if x.args[0] == 'nan':
                                continue
                            for n in names(y):
                                strs.setdefault(n, set()).add(v)
                        elif isinstance(v, (int, float, valu.Fraction)) and not isinstance(v, bool) and abs(v) < 1e40:
                            f = valu.Fraction(repr(v)) if isinstance(v, float) else v
                            consts.update((f, f + 1, f - 1))
                    if t.args[0] in ('in', 'notin') and y.op == 'dict':
                        for i in range(0, len(y.args), 2):
                            if isc(y.args[i]) and isinstance(cv(y.args[i]), str):
                                for n in names(x):
                                    strs.setdefault(n, set()).add(cv(y.args[i]))
            elif t.op == 'idx' and t.args[0].op == 'dict':
                y = t.args[0]
                for i in range(0, len(y.args), 2):
                    if isc(y.args[i]) and isinstance(cv(y.args[i]), str):
                        for n in names(t.args[1]):
                            strs.setdefault(n, set()).add(cv(y.args[i]))
            elif t.op == 'app' and t.args[0] == 'isnan':
                nans.update(names(t.args[1]))
    odd = sorted(lits[0] ^ lits[-1])
    return sorted(consts, key=lambda x: (float(x), str(x))), odd, none, {k: sorted(v) for k, v in strs.items()}, nans, {k: sorted(v) for k, v in enums.items()}


def reach(roots, loops, ev=None):
    """terms the roots depend on; with an evaluation, only along the alternatives it takes (loop-free conditions)"""
    seen = {}
    st = list(roots)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen[t.id] = t
        if t.op == 'app' and t.args[0] == 'msa.safecast':
            continue        # free: the data type of a raster
        if t.op == 'ite' and ev is not None:
            try:
                c = ev.tb(t.args[0]) if loopfree(t.args[0]) else None
            except Exception:
                c = None
            if c is not None:
                st.append(t.args[0])
                st.append(t.args[1] if c else t.args[2])
                continue
        if t.op in ('mu', 'fin'):
            L = loops.get(t.args[0])
            if L is not None:
                k = t.args[1]
                for d in (L.init, L.next):
                    if k in d:
                        st.append(d[k])
                st.append(L.stop)
                if L.count is not None:
                    st.append(L.count)
        elif t.op in ('fold', 'lv'):
            L = loops.get(t.args[1] if t.op == 'fold' else t.args[0])
            if L is not None and L.count is not None:
                st.append(L.count)
        st.extend(a for a in t.args if isinstance(a, T))
    return seen


_lf = {}


def loopfree(t):
    r = _lf.get(t.id)
    if r is None:
        r = t.op not in ('mu', 'lv', 'hole') and all(loopfree(a) for a in t.args if isinstance(a, T))
        _lf[t.id] = r
    return r


def vocab(roots, loops, ev=None):
    v = set()
    sk = {}
    for t in reach(roots, loops, ev).values():
        if t.op in ('app', 'mcall'):
            n = t.args[0]
            if n not in valu.INTERP:
                v.add(n)
        elif t.op in ('lv', 'mu', 'fin', 'fold'):
            lid = t.args[1] if t.op == 'fold' else t.args[0]
            sk.setdefault(lid, set())
            if t.op == 'mu' or t.op == 'fin':
                if t.args[1][0] != 'f':
                    sk[lid].add(t.args[1])
        elif t.op == 'bin' and t.args[0] in ('**',):
            pass
    return v, sk


LISTED = ('os.listdir', 'os.scandir', 'glob.glob', 'sorted')


def skeleton(sk, loops):
    out = []
    for lid, ks in sk.items():
        L = loops[lid]
        if L.count is not None and L.count.op == 'app' and L.count.args[0] == 'len' and L.count.args[1].op == 'app' and L.count.args[1].args[0] in LISTED:
            continue        # evaluated entry by entry
        out.append(('w' if L.count is None else 'c', len(ks)) + (('none',) * (L.count is None and any(nullable(L, k) for k in ks))))
    return sorted(out)


def nullable(L, k):
    """None is one of the values a loop variable takes: it then also stands for the end of the loop"""
    st = [d[k] for d in (L.init, L.next) if k in d]
    while st:
        t = st.pop()
        if t is NONE:
            return True
        if t.op == 'ite':
            st += t.args[1:]
    return False


QUERIES = {'GetFID', 'GetGeometryRef', 'IsFieldSet', 'IsFieldNull', 'IsFieldSetAndNotNull', 'GetField', 'GetFieldAsInteger', 'GetFieldAsDouble',
           'GetFieldAsString', 'GetGeomFieldCount', 'GetStyleString', '.GetLayerCount'}
#: the words of the reference computations of the command line layer: whatever the code does with readers, writers and tools is put in them
FACADE = {'msa.' + x for x in ('disk_raster disk_layer substituted stored_array stored_features polygons stream_nodes stream_lines uniform_volumes '
          'raster_volumes routing_surface final_state_of hypsometry_of levels_of depths_of extents_of polygon_features').split()}


def comparable(ta, la, tb, lb, ea=None, eb=None):
    """None if a difference between the two terms is a real one, else the reason it cannot be judged"""
    va, sa = vocab([ta], la, ea)
    vb, sb = vocab([tb], lb, eb)
    extra = {x for x in va - vb} - FACADE
    if extra & {'numpy.isclose', 'osgeo.ogr.Open', 'osgeo.gdal.Open'}:
        extra -= vocab([tb], lb)[0] & {'numpy.isclose', 'osgeo.ogr.Open', 'osgeo.gdal.Open'}
    miss = {x for x in vb - va}
    for e in list(extra):
        for g in valu.DISTINCT:
            if e in g and (miss & g):
                extra.discard(e)
    if not miss:
        extra -= QUERIES    # all the reference uses is used, and the result depends on a property of the features besides
    if any(x.startswith('rec#') for x in miss):
        return 'recursion of the reference is not used'
    if extra:
        return 'uses ' + ', '.join(sorted(extra))
    ka, kb = skeleton(sa, la), skeleton(sb, lb)
    if ka != kb:
        aa, ab = atoms([ta], la), atoms([tb], lb)
        whole = {a.id for t in reach([ta], la).values() if t.op in ('app', 'mcall') and t.args[0] not in ('len', 'keyat') for a in t.args if isinstance(a, T)}
        if aa < {x for x in ab if not (x[0] == 'elements' and x[1] in whole and x not in aa)}:
            return None     # nothing new is used, and something the property depends on is not used at all
        return 'loop structure %s, reference %s' % (ka, kb)
    return None


def atoms(roots, loops):
    """inputs, keys, attributes and package functions a value depends on"""
    out = set()
    for t in reach(roots, loops).values():
        if t.op == 'sym':
            out.add(('sym', t.args[0]))
        elif t.op == 'c' and isinstance(cv(t), str) and t.args[0] != 'nan':
            out.add(('key', cv(t)))
        elif t.op == 'an':
            out.add(('attr', t.args[0]))
        elif t.op in ('lv', 'fold') and loops.get(t.args[0] if t.op == 'lv' else t.args[1]) is not None:
            n = loops[t.args[0] if t.op == 'lv' else t.args[1]].count
            if n is not None and n.op == 'app' and n.args[0] == 'len' and n.args[1].op in ('mcall', 'app', 'idx', 'sym'):
                out.add(('elements', n.args[1].id))
        elif t.op in ('app', 'mcall') and isinstance(t.args[0], str) and (':' in t.args[0] or t.op == 'mcall'):
            out.add(('call', t.args[0]))
    return out


def blame(ea, ta, eb, tb, depth=0):
    """smallest differing pair of subterms"""
    best = (ta, tb)
    seen = set()
    while depth < 400:
        depth += 1
        if (ta.id, tb.id) in seen:
            break
        seen.add((ta.id, tb.id))
        if ta.op == 'ite' and tb.op == 'ite':
            try:
                ca, cb = ea.tb(ta.args[0]), eb.tb(tb.args[0])
            except Exception:
                break
            if ca != cb:
                if ea.h(ta.args[0]) is not None:
                    ta, tb = ta.args[0], tb.args[0]
                    best = (ta, tb)
                    continue
            ta, tb = (ta.args[1], tb.args[1]) if ca else (ta.args[2], tb.args[2])
            best = (ta, tb)
            continue
        if ta.op == 'ite' or tb.op == 'ite':
            try:
                if ta.op == 'ite':
                    n = ta.args[1] if ea.tb(ta.args[0]) else ta.args[2]
                    if n.op == tb.op or n.op == 'ite':
                        ta = n
                        best = (ta, tb)
                        continue
                    break
                n = tb.args[1] if eb.tb(tb.args[0]) else tb.args[2]
                if n.op == ta.op or n.op == 'ite':
                    tb = n
                    best = (ta, tb)
                    continue
                break
            except Exception:
                break
        if ta.op != tb.op:
            break
        if ta.op in ('mu', 'fin'):
            La, Lb = ea.loops[ta.args[0]], eb.loops[tb.args[0]]
            ka, kb = ta.args[1], tb.args[1]
            pairs = []
            if ka in La.init and kb in Lb.init:
                pairs.append((La.init[ka], Lb.init[kb]))
            if La.count is not None and Lb.count is not None:
                pairs.append((La.count, Lb.count))
            pairs.append((La.stop, Lb.stop))
            if ka in La.next and kb in Lb.next:
                pairs.append((La.next[ka], Lb.next[kb]))
        elif len(ta.args) == len(tb.args):
            pairs = [(x, y) for x, y in zip(ta.args, tb.args) if isinstance(x, T) and isinstance(y, T)]
            if ta.op == 'fold':
                la, lb = ea.loops[ta.args[1]], eb.loops[tb.args[1]]
                if la.count is not None and lb.count is not None:
                    pairs.append((la.count, lb.count))
        else:
            break
        nxt = None
        for x, y in pairs:
            try:
                if ea.h(x) != eb.h(y):
                    nxt = (x, y)
                    break
            except Exception:
                continue
        if nxt is None:
            break
        ta, tb = nxt
        best = nxt
    return best


def locate(sd, t):
    """source position of a term"""
    st = [t]
    seen = set()
    while st:
        x = st.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        l = sd.I.loc.get(x.id)
        if l is not None and x.op not in ('c', 'sym'):
            return '%s:%d in %s' % l
        if x.op in ('mu', 'fin'):
            L = sd.loops.get(x.args[0])
            if L is not None and getattr(L.node, 'lineno', None):
                pass
        st.extend(a for a in x.args if isinstance(a, T))
    return ''


_CONTAINER = {n for c in (str, bytes, list, dict, set, tuple, int, float) for n in dir(c)} | \
    {'sum', 'any', 'all', 'max', 'min', 'astype', 'reshape', 'ravel', 'flatten', 'item', 'tolist', 'mean'}


def records(sides):
    """terms whose fields or (non container) methods the programs use: records and objects, which are true unless None"""
    r = set()

    def add(t):
        if t.op == 'ite':
            add(t.args[1])
            add(t.args[2])
        elif t.op != 'c':
            r.add(t.id)

    for s in sides:
        for e in allev(s.events):
            if e.kind == 'call' and isinstance(e.chan, T):
                add(e.chan)
        for t in walk(s.roots() + flat(s.events), loops=s.loops).values():
            if t.op == 'idx' and len(t.args) == 2 and (t.args[1].op == 'an' or isc(t.args[1]) and isinstance(cv(t.args[1]), str)):
                add(t.args[0])
            elif t.op == 'mcall' and t.args[2] is not NONE and t.args[0] not in _CONTAINER:
                add(t.args[2])
    return r


def check(project, ob, nval=None):
    t0 = time.time()
    best = None
    for spec in (ob.spec,) + tuple(ob.alts):
        r = check1(project, ob, spec, nval)
        r.time = time.time() - t0
        if r.status == 'ok':
            return r
        if best is None or (r.status == 'diff' and best.status == 'undecided'):
            best = r
    return best


def check1(project, ob, spec, nval=None):
    nval = nval or (400 if THOROUGH else 60)
    try:
        ts = side(project, ob.target, ob)
    except Giveup as e:
        return Result(ob, 'undecided', detail='outside the analysed subset: %s' % e)
    except RecursionError:
        return Result(ob, 'undecided', detail='outside the analysed subset: recursion')
    ss = side(project, spec, ob)
    keyed = records([ts, ss])
    consts, odd, none, strs, nans, enums = evidence([ts, ss], keyed)
    rename = {ob.target: '@main', spec: '@main'}
    labels = sorted(set(ts.outs) | set(ss.outs))
    eff = normal = 0
    allfns = {f for f in ts.I.analysed if f.startswith('malstroem')}
    stats = dict(functions=allfns, terms=len(walk(ts.roots(), loops=ts.loops)), loops=len(ts.loops), callsites=ts.I.callsites, outputs=labels)
    und = None
    skipped = {}
    cov = {}
    nt = {f: k for f, k in project.ntindex().items() if '.' + f not in (ob.domains or {})}
    i = -1
    full, began = nval, time.time()
    nval *= 40 if odd else 5
    while i + 1 < nval or (normal < full and i + 1 < 16 * full):
        i += 1
        if full <= i < nval and time.time() - began > (30 if odd else 3):
            break
        val = Valuation(H(SEED, i), ob.domains, consts, none, strs, nans, enums)
        val.mode = i % 4
        val.inner = ob.inner
        val.nonzero = ob.nonzero
        val.anytype = ob.anytype
        val.odd = odd if i % 3 else ()
        val.cov = cov
        val.keyed = keyed
        val.grid = ob.grid
        val.ntindex = nt
        ea = Eval(ts.loops, val)
        eb = Eval(ss.loops, val)
        ea.round = eb.round = Eval.ROUNDS
        try:
            try:
                ra, rb = ea.tb(ts.raises), eb.tb(ss.raises)
            except Err as e:
                skipped['err'] = skipped.get('err', 0) + 1
                continue
            if i >= nval and ra and rb:
                continue    # looking for interpretations under which the code returns
            if ra != rb:
                if ob.raises:
                    d = diff(ob, ts, ss, ea, eb, 'raising', ts.raises, ss.raises, i)
                    if isinstance(d, Result):
                        d.__dict__.update(stats)
                        return d
                    und = und or d
                skipped['raise'] = skipped.get('raise', 0) + 1
                continue
            ok = True
            if not ra:
                normal += 1
                for lb in labels:
                    a = ts.outs.get(lb)
                    b = ss.outs.get(lb)
                    if a is None or b is None:
                        pname = lb.split()[-1]
                        x = mk('sym', pname, ob.args.get(pname) if isinstance(ob.args.get(pname), str) else 'any')
                        a = a if a is not None else x
                        b = b if b is not None else x
                    try:
                        xa = ea.ev(a)
                        xb = eb.ev(b)
                    except Err as e:
                        if isinstance(e, valu.Crash) and crashes(e, ea, a, eb, b):
                            r = Result(ob, 'diff', where=locate(ts, e.t) or locate(ts, a), valuations=i + 1,
                                       detail='%s: code fails with a TypeError at %s (%s), property requires a result' % (lb, show(e.t, 5)[:300], e))
                            r.__dict__.update(stats)
                            return r
                        ok = False
                        skipped['err'] = skipped.get('err', 0) + 1
                        break
                    if hv(ea.sc(xa)) != hv(eb.sc(xb)) and not (valu.isnum(ea.sc(xa)) and isinstance(xb, O) and False):
                        d = diff(ob, ts, ss, ea, eb, lb, a, b, i)
                        if isinstance(d, Result):
                            d.__dict__.update(stats)
                            return d
                        und = und or d
                        ok = False
                        break
                if not ok:
                    continue
            if ob.events:
                va, vb = ea.events(ts.events), eb.events(ss.events)
                for ch in set(va) | set(vb):
                    la, lb = va.get(ch, []), vb.get(ch, [])
                    if [x[0] for x in la] != [x[0] for x in lb]:
                        d = evdiff(ob, ts, ss, ea, eb, la, lb, i)
                        if isinstance(d, Result):
                            d.__dict__.update(stats)
                            return d
                        und = und or d
                        ok = False
                        break
            if ok:
                eff += 1
        except Undecided as e:
            return Result(ob, 'undecided', detail='not representable: %s' % e, **stats)
        except RecursionError:
            return Result(ob, 'undecided', detail='term too deep', **stats)
    if und:
        return Result(ob, 'undecided', detail=und, valuations=i + 1, effective=eff, **stats)
    own = set(walk(ts.roots() + flat(ts.events), loops=ts.loops))
    stats['normal'] = normal
    stats['onesided'] = [(b, c) for c, b in cov.items() if b != 3 and c.id in own]
    stats['conditions'] = len([c for c in cov if c.id in own])
    if eff < max(4, full // 12):
        return Result(ob, 'undecided', detail='only %d of %d interpretations defined (%s)' % (eff, nval, skipped), valuations=i + 1, effective=eff, **stats)
    return Result(ob, 'ok', valuations=i + 1, effective=eff, **stats)


def crashes(e, ea, a, eb, b):
    """the code's value fails outside any loop where the property's does not"""
    if e.t is None or not loopfree(e.t):
        return False
    try:
        ea.ev(a)
        return False
    except Err:
        pass
    try:
        eb.ev(b)
        return True
    except Err:
        return False


def diff(ob, ts, ss, ea, eb, label, a, b, i):
    r = not (ob.never and label == 'return value') and comparable(a, ts.loops, b, ss.loops, ea, eb)
    if r and label == 'raising' and loopfree(a) and loopfree(b):
        # conditions are not all met on either side: what they are made of altogether counts
        r = comparable(a, ts.loops, b, ss.loops)
    if r:
        return '%s differs but is computed in another way (%s)' % (label, r)
    x, y = blame(ea, a, eb, b)
    wh = ob.at or locate(ts, x) or locate(ts, a)
    return Result(ob, 'diff', where=wh, valuations=i + 1,
                  detail='%s: code computes %s, property requires %s' % (label, show(x, 7)[:500], show(y, 7)[:500]))


def flat(evs):
    r = []
    for e in evs:
        r.append(e.guard)
        if isinstance(e.chan, T):
            r.append(e.chan)
        r += [a for a in e.args if isinstance(a, T)]
        if e.loop is not None:
            if e.loop.count is not None:
                r.append(e.loop.count)
            r.append(e.loop.stop)
            r += flat(e.loop.events)
    return r


def subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def presence(ts, ss, la, lb):
    """the effects differ only in that some happen on one side and not on the other, and the code uses nothing the reference does not use"""
    ka, kb = [x[0] for x in la], [x[0] for x in lb]
    if len(ka) == len(kb) or not (subseq(ka, kb) or subseq(kb, ka)):
        return False
    va, _ = vocab(ts.roots() + flat(ts.events), ts.loops)
    vb, _ = vocab(ss.roots() + flat(ss.events), ss.loops)
    if va - vb:
        return False
    few, many, evs = (ka, lb, ts.events) if len(ka) < len(kb) else (kb, la, ss.events)
    few = list(few)
    for x in many:
        k, e = x[0], x[1]
        if k in few:
            few.remove(k)
            continue
        if e.kind == 'loop':
            return False
        if not loopfree(e.guard):
            return False
        # the same effect on the other side: absent, or guarded by a condition that can be judged
        for o in evs:
            if o.kind == 'loop' and any(x.kind == e.kind and len(x.args) == len(e.args) and x.args[:1] == e.args[:1] for x in allev(o.loop.events)):
                return False
            if o.kind == e.kind and not loopfree(o.guard):
                return False
    return True


def allev(evs):
    r = []
    for e in evs:
        r.append(e)
        if e.loop is not None:
            r += allev(e.loop.events)
    return r


def evdiff(ob, ts, ss, ea, eb, la, lb, i):
    ta = mk('tuple', *flat([x[1] for x in la]))
    tb = mk('tuple', *flat([x[1] for x in lb]))
    r = comparable(ta, ts.loops, tb, ss.loops, ea, eb)
    n = 0
    while n < len(la) and n < len(lb) and la[n][0] == lb[n][0]:
        n += 1
    ea_ = la[n][1] if n < len(la) else None
    eb_ = lb[n][1] if n < len(lb) else None

    def de(e):
        if e is None:
            return 'nothing'
        if e.kind == 'loop':
            return 'loop(%s)' % '; '.join(de(x) for x in e.loop.events)[:400]
        return '%s %s' % (e.kind, ', '.join(show(x, 6) if isinstance(x, T) else str(x) for x in e.args)[:400])
    if r and presence(ts, ss, la, lb):
        r = None
        while n < len(la) and n < len(lb) and la[n][0] == lb[n][0]:
            n += 1
        ea_ = la[n][1] if n < len(la) else None
        eb_ = lb[n][1] if n < len(lb) else None
    if r:
        return 'effect differs but is computed in another way (%s): %s / %s' % (r, de(ea_), de(eb_))
    wh = ''
    e = ea_ or eb_
    if ea_ is not None:
        f = ea_.fn
        wh = '%s line %s' % (f, getattr(ea_.node, 'lineno', '?'))
    return Result(ob, 'diff', where=wh, valuations=i + 1, detail='effect %d: code does %s, property requires %s' % (n, de(ea_), de(eb_)))
