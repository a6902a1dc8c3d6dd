"""The outer fill loop (C03, C04): every sweep covers the interior, and the loop is only left after a sweep that changed nothing."""
import time

from msa.equiv import evidence, Side, SEED, THOROUGH
from msa.interp import Interp, Giveup
from msa.report import Item
from msa.terms import mk, C, subst, show, TRUE, FALSE, T
from msa import valu
from msa.valu import Eval, Valuation, Err, Undecided, H, hv

F = 'malstroem.algorithms.fill:'


class Unclear(Exception):
    pass


def summarise(P, ref, params, boundary):
    I = Interp(P, boundary=boundary)
    r = I.freeze(I.run(ref, {n: mk('sym', n, 'any') for n in params}))
    return I, Side(I, {'return value': r})


def params_of(P, ref):
    n = P.fn(ref)[1]
    return [a.arg for a in n.args.args]


def chain(ev, t, kernel, loops=None):
    """executed sweeps, outermost first, and what they started from"""
    out = []
    while True:
        if t.op == 'ite':
            t = t.args[1] if ev.tb(t.args[0]) else t.args[2]
        elif t.op == 'app' and t.args[0] == kernel + '!filled':
            out.append(t)
            t = t.args[2]
        else:
            return out, t


def resolve(ev, t):
    while t.op == 'ite':
        t = t.args[1] if ev.tb(t.args[0]) else t.args[2]
    return t


def rule_for(fname, kname, prop, dtype):
    kernel = F + kname
    mod, fn = F[:-1], fname

    def rule(ctx):
        P = ctx.P
        ids = ['%s_%s' % (fname, x) for x in ('start', 'bounds', 'exit')]
        texts = ['filling starts from the DEM on the edges and infinity inside, for the DEM converted to the elevation type',
                 'every sweep covers the first to the last interior row and column and gets the DEM%s' % (' and the two minimum drops' if prop == 'C04' else ''),
                 'the loop is left only after a sweep over the whole interior that reported no change']
        if P.fn(F + fname) is None or P.fn(kernel) is None:
            return [Item(i, (prop,), 'undecided', rule=t, detail='no %s or %s' % (fname, kname)) for i, t in zip(ids, texts)]
        params = params_of(P, F + fname)
        kargs = params_of(P, kernel)
        try:
            I, sd = summarise(P, F + fname, params, {kernel: dict(mut=(kargs[1],), scalar=True)})
            J, sp = summarise(P, 'specs.algo:initial_filled_of_%s' % fname, ['dtm'], {})
        except Giveup as e:
            return [Item(i, (prop,), 'undecided', rule=t, detail=str(e)) for i, t in zip(ids, texts)]
        consts, _, none, strs, nans, _ = evidence([sd, sp])
        bad = {}
        seen = {i: 0 for i in ids}
        und = None
        n = 1200 if THOROUGH else 400
        sweeps = 0
        wh = '%s.%s' % (F[:-1], fname)
        for i in range(n):
            val = Valuation(H(SEED, i), {kernel: (0, 1, 1, 1, 1) if i % 4 else (0, 1), 'shape': (1, 2, 3, 4, 4, 5, 6, 7, 8)}, consts, none, strs, nans)
            val.mode = i % 4
            val.odd = [c for c in consts if c > 4] if i % 3 else ()
            ev, es = Eval(sd.loops, val), Eval(sp.loops, val)
            ev.round = es.round = Eval.ROUNDS
            try:
                if ev.tb(sd.raises):
                    continue
                ret = resolve(ev, sd.outs['return value'])
                R, Cc = shape(ev)
                tiny = R < 3 or Cc < 3
                if ret.op != 'fin':
                    ch, base = chain(ev, ret, kernel)
                    if not ch and base.op != 'fin':
                        if hv(ev.sc(ev.ev(base))) == hv(es.sc(es.ev(sp.outs['return value']))):
                            seen[ids[0]] += 1
                            if not tiny:
                                bad.setdefault(ids[2], 'a raster of %d x %d cells is returned without any sweep' % (R, Cc))
                            else:
                                seen[ids[2]] += 1
                            continue
                    raise Unclear('result is not the state left by the sweep loop: ' + show(ret, 4)[:200])
                if tiny:
                    continue
                L = sd.loops[ret.args[0]]
                k = ret.args[1]
                nx = L.next[k]
                mus = {mk('mu', L.id, q): L.next[q] for q in L.next}
                ini = {mk('mu', L.id, q): L.init[q] for q in L.init}
                # start
                if hv(ev.sc(ev.ev(L.init[k]))) != hv(es.sc(es.ev(sp.outs['return value']))):
                    bad.setdefault(ids[0], 'starts from %s, required %s' % (show(L.init[k], 6)[:400], show(sp.outs['return value'], 6)[:400]))
                seen[ids[0]] += 1
                if L.count is not None:
                    raise Unclear('counted loop')
                # never left before a sweep
                s0 = subst(L.stop, ini)
                if ev.tb(s0):
                    c0, _ = chain(ev, subst(nx, ini), kernel)
                    if not c0:
                        bad.setdefault(ids[2], 'the loop is left before any sweep')
                # this iteration
                stop = ev.tb(L.stop)
                ch, base = chain(ev, nx, kernel)
                if base is not mk('mu', L.id, k):
                    raise Unclear('state changed by something else than a sweep: ' + show(base, 4)[:200])
                for s in ch:
                    sweeps += 1
                    seen[ids[1]] += 1
                    a = s.args[1:]
                    why = bounds(ev, es, a, R, Cc, params, prop)
                    if why:
                        bad.setdefault(ids[1], why + ' in ' + show(s, 3)[:300])
                if stop and ch:
                    ends = ch
                elif not stop and ev.tb(subst(L.stop, mus)):
                    c2, b2 = chain(ev, subst(nx, mus), kernel)
                    ends = c2 or ch
                else:
                    continue
                seen[ids[2]] += 1
                if not ends:
                    bad.setdefault(ids[2], 'the loop can be left without a sweep')
                    continue
                last = ends[0]
                flag = mk('app', kernel, *last.args[1:])
                if ev.tb(flag):
                    bad.setdefault(ids[2], 'the loop can be left although the last sweep changed cells: left when %s' % show(L.stop, 6)[:300])
            except (Err,):
                continue
            except (Unclear, Undecided) as e:
                und = str(e)
                break
        items = []
        for i, t in zip(ids, texts):
            it = Item(i, (prop,), 'ok', wh, '', I.analysed, rule=t, valuations=n, effective=seen[i], sites=sweeps if i == ids[1] else I.callsites, loops=len(sd.loops))
            it.functions = {f for f in it.functions if f.startswith('malstroem')}
            if und:
                it.status, it.detail = 'undecided', und
            elif i in bad:
                it.status, it.detail = 'violation', bad[i]
            elif seen[i] < 4:
                it.status, it.detail = 'undecided', 'rule applied to %d states only' % seen[i]
            items.append(it)
        return items
    rule.__name__ = 'filling_' + fname
    return rule


def shape(ev):
    d = mk('sym', 'dtm', 'any')
    s = mk('app', 'shape', d)
    return tuple(int(ev.num(ev.ev(mk('idx', s, C(j))))) for j in (0, 1))


def bounds(ev, es, a, R, Cc, params, prop):
    v = [ev.num(ev.ev(x)) for x in a[2:6]]
    if {v[0], v[1]} != {1, R - 2}:
        return 'rows %s to %s of %d swept, interior is 1 to %d' % (v[0], v[1], R, R - 2)
    if {v[2], v[3]} != {1, Cc - 2}:
        return 'columns %s to %s of %d swept, interior is 1 to %d' % (v[2], v[3], Cc, Cc - 2)
    want = hv(ev.sc(ev.ev(mk('cast', 'float32', mk('sym', params[0], 'any')))))
    if hv(ev.sc(ev.ev(a[0]))) != want:
        return 'sweep compares with %s instead of the DEM' % show(a[0], 4)[:200]
    if prop == 'C04':
        for x, p in zip(a[6:8], params[1:3]):
            if hv(ev.sc(ev.ev(x))) != hv(ev.sc(ev.ev(mk('sym', p, 'any')))):
                return 'minimum drop %s handed on instead of %s' % (show(x, 4)[:100], p)
    return None


RULES = [(('C03',), rule_for('fill_terrain', '_fill_terrain', 'C03', 'float32')),
         (('C04',), rule_for('fill_terrain_no_flats', '_fill_terrain_no_flats', 'C04', 'float64'))]
