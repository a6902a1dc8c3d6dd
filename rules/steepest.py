"""Ties and flats in the flow direction choice (C05): the stored code is a steepest strictly positive drop, 8 only without one."""
from fractions import Fraction

from msa.equiv import evidence, SEED, THOROUGH
from msa.interp import Giveup
from msa.report import Item
from msa.terms import mk, C, show, T, idx_, bin_
from msa.valu import Eval, Valuation, Err, Undecided, H
from rules.algo import A, COMPILED, registry
from rules.filling import summarise, params_of, Unclear

STEP = ((-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1))


TOP = 3 * 10 ** 6
NEAR = (TOP, TOP, TOP, TOP, TOP - 2 * 10 ** 6) + tuple(TOP - x for x in (1414213, 1414214, 1414205, 1414222, 1414150, 1414300, 1410000, 1420000)) + tuple(
    TOP - Fraction(2 * 10 ** 6 / 2 ** 0.5 * (1 + e)) for e in (1e-10, -1e-10, 1e-9, -1e-9, 1e-8, -1e-8))


def stored(ev, t, sd):
    """(row, column, value) of the last store the update body makes, or None"""
    while True:
        if t.op == 'ite':
            t = t.args[1] if ev.tb(t.args[0]) else t.args[2]
        elif t.op == 'fold' and t.args[0] == 'upd':
            t = t.args[3]
        elif t.op == 'store' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2:
            return t.args[1].args + (t.args[2],)
        elif t.op == 'hole':
            return None
        else:
            raise Unclear('directions are not written cell by cell: ' + show(t, 3)[:200])


def anystore(t):
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'store' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2:
            return x.args[1].args
        if x.op == 'ite':
            st += [x.args[1], x.args[2]]
        elif x.op == 'fold':
            st.append(x.args[3])
    return None


def runs(P, ref, it, n):
    """(drops per direction, stored code, term stored) under n interpretations of the elevations"""
    if P.fn(ref) is None:
        raise Unclear('no ' + ref)
    par = params_of(P, ref)[0]
    try:
        I, sd = summarise(P, ref, [par], {})
    except Giveup as e:
        raise Unclear(str(e))
    it.functions = set(it.functions) | {f for f in I.analysed if f.startswith('malstroem')}
    ret = sd.outs['return value']
    consts, _, none, strs, nans, _ = evidence([sd])
    z = mk('sym', par, 'any')
    if ret.op != 'fold' or ret.args[0] != 'upd':
        raise Unclear('result is not written cell by cell: ' + show(ret, 3)[:200])
    rc = anystore(ret.args[3])
    if rc is None:
        raise Unclear('no cell store')
    fracs = [Fraction(1, 2 ** 50)] + [Fraction(c) for c in consts if isinstance(c, (float, Fraction)) and 0 < abs(c) < 1e6 and c != int(c)]
    for i in range(n):
        top = (2, 3, 4, 6)[i % 4]
        # few levels: ties and flats; levels whose drops differ by little more and little less than the distance along a diagonal
        pool = tuple(range(top)) if i % 3 else NEAR
        if i % 5 == 4:
            # levels whose drops are far below any sensible elevation unit, or around a fraction the code mentions
            unit = fracs[(i // 5) % len(fracs)]
            pool = tuple(unit * k / 2 for k in range(top))
        val = Valuation(H(SEED, i), {par: pool}, (), none, strs, nans)
        val.mode = 0
        ev = Eval(sd.loops, val)
        try:
            s = stored(ev, ret.args[3], sd)
            r, c = (s or rc)[0], (s or rc)[1]
            code = ev.num(ev.ev(s[2])) if s else 8
            here = ev.num(ev.ev(idx_(idx_(z, r), c)))
            drops = []
            for d, (a, b) in enumerate(STEP):
                there = ev.num(ev.ev(idx_(idx_(z, bin_('+', r, C(a)) if a else r), bin_('+', c, C(b)) if b else c)))
                drops.append(float(here - there) / (2 ** 0.5 if a and b else 1))
        except Err:
            yield None
            continue
        yield tuple(drops), int(code), s


PURE_REF = lambda P: A + 'flow:_terrain_flow'
COMPILED_REF = lambda P: registry(P).get('flow._terrain_flow') or A + COMPILED['flow._terrain_flow']


def rule_for(ident, pick):
    def rule(ctx):
        P = ctx.P
        rt = 'under every ordering of the neighbours, ties and flats included, the direction is one of largest positive drop per distance and 8 exactly when no drop is positive'
        ref = pick(P)
        it = Item('steepest_' + ident, ('C05',), 'ok', rule=rt)
        n = 4000 if THOROUGH else 900
        it.valuations = n
        kinds = set()
        try:
            for x in runs(P, ref, it, n):
                if x is None:
                    continue
                drops, code, s = x
                it.effective += 1
                best = max(drops)
                kinds.add((best > 0, sum(1 for y in drops if abs(y - best) < 1e-6)))
                if best <= 0:
                    good = code == 8
                else:
                    good = 0 <= code <= 7 and drops[code] >= best * (1 - 1e-12) - 1e-9 * min(1, best)
                if not good:
                    it.status = 'violation'
                    it.where = ref
                    it.detail = 'drops %s (Up clockwise) give code %d; stored value %s' % (['%.8g' % y for y in drops], code, show(s[2], 5)[:400] if s else 'none')
                    return [it]
        except (Unclear, Undecided) as e:
            it.status, it.detail = 'undecided', str(e)
            return [it]
        it.outputs = ['%s drops, %d ways' % ('positive' if a else 'no positive', b) for a, b in sorted(kinds)]
        if it.effective < 20:
            it.status, it.detail = 'undecided', 'only %d interpretations defined' % it.effective
        return [it]
    rule.__name__ = 'steepest_' + ident
    return rule


def same_choice(ctx):
    """both versions store the same code for the same drops (C01)"""
    P = ctx.P
    it = Item('agree_steepest', ('C01',), 'ok', rule='for equal drops the pure and the compiled version store the same direction, ties, flats and nearly equal slopes included')
    n = 4000 if THOROUGH else 900
    it.valuations = n
    try:
        for x, y in zip(runs(P, PURE_REF(P), it, n), runs(P, COMPILED_REF(P), it, n)):
            if x is None or y is None or x[0] != y[0]:
                continue
            it.effective += 1
            if x[1] != y[1]:
                it.status = 'violation'
                it.where = COMPILED_REF(P)
                it.detail = 'drops %s (Up clockwise): pure version stores %d, compiled version %d' % (['%.8g' % d for d in x[0]], x[1], y[1])
                return [it]
    except (Unclear, Undecided) as e:
        it.status, it.detail = 'undecided', str(e)
        return [it]
    if it.effective < 20:
        it.status, it.detail = 'undecided', 'only %d interpretations comparable' % it.effective
    return [it]


RULES = [(('C05',), rule_for('pure', PURE_REF)), (('C05',), rule_for('compiled', COMPILED_REF)), (('C01',), same_choice)]
