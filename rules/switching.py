"""The speedup switch (C02): state of every accelerated name after each call sequence, and early bindings that would escape the switch."""
import ast
import itertools

from msa.interp import Interp, Giveup
from msa.report import Item
from msa.terms import show, TRUE, FALSE, subst, mk, C, isc
from rules.algo import A, COMPILED

SW = A + 'speedups'
SEQ = tuple(''.join(q) for n in range(5) for q in itertools.product('ed', repeat=n))


def resolvefn(P, mod, name):
    """module-level function a global name denotes at import, or None"""
    r = P.fn(mod + ':' + name)
    return r


def pairs(P):
    """(pure module, name) -> compiled function: every plain function of a compiled module whose pure twin exists"""
    out = {}
    for m in ('fill', 'flow', 'label'):
        pm, cm = P.modules.get(A + m), P.modules.get(SW + '._' + m)
        if pm is None or cm is None:
            continue
        for n, g in cm.globals.items():
            if g[0] != 'fn' or getattr(g[1], '_ckind', 'def') == 'cdef' or n.endswith('_cython'):
                continue
            for cand in (n, '_' + n):
                if pm.globals.get(cand, ('',))[0] == 'fn':
                    out[(A + m, cand)] = SW + '._' + m + ':' + n
                    break
    return out


def switch_rule(ctx):
    P = ctx.P
    rt = 'after every sequence of enable and disable calls each accelerated name denotes its compiled (enabled) or its pure (disabled) function, and `enabled` says which'
    want = pairs(P)
    items = []
    st = {}
    fns = set()
    sites = 0
    for q in SEQ:
        I = Interp(P)
        try:
            I.run('specs.switch:seq_' + q, {})
        except Giveup as e:
            return [Item('switch_states', ('C02',), 'undecided', rule=rt, detail=str(e))]
        avail = {}
        for k in I.S:
            if k[0] == 'g':
                pass
        st[q] = (I, dict(I.S))
        fns |= {f for f in I.analysed if f.startswith('malstroem')}
        sites += len(I.events)
    bad = []

    def value(q, mod, name):
        I, S = st[q]
        v = S.get(('g', mod, name))
        if v is None:
            v = I.globalval(mod, name)
        return I.freeze(v)
    und = None
    for q in SEQ:
        on = q.endswith('e')
        for (m, n), comp in sorted(want.items()):
            v = value(q, m, n)
            exp = comp if on else m + ':' + n
            got = v.args[0] if v.op == 'fn' else None
            if v.op == 'missing':
                bad.append('%s fails: there is no kept original of %s.%s (KeyError)' % (words(q), m, n))
            elif got is None:
                und = '%s.%s is %s after %s' % (m, n, show(v, 4)[:200], q)
            elif got != exp:
                bad.append('after %s, %s.%s denotes %s, required %s' % (words(q), m, n, got, exp))
        v = value(q, SW, 'enabled')
        if v not in (TRUE, FALSE):
            und = 'enabled is %s after %s' % (show(v, 4)[:200], q)
        elif (v is TRUE) != on:
            bad.append('after %s, speedups.enabled is %s' % (words(q), show(v)))
    # every other name the switch replaces
    for k, v in st['e'][1].items():
        if k[0] == 'g' and k[1] != SW and (k[1], k[2]) not in want and v.op == 'fn':
            d = value('ed', k[1], k[2])
            o = value('', k[1], k[2])
            if d is not o:
                bad.append('%s.%s is not restored by disable()' % (k[1], k[2]))
    status = 'violation' if bad else ('undecided' if und else 'ok')
    items.append(Item('switch_states', ('C02',), status, 'malstroem/algorithms/speedups/__init__.py', '; '.join(bad[:6]) or (und or ''), fns, sites=sites,
                      valuations=len(SEQ), effective=len(SEQ) * len(want), rule=rt, outputs=['%s.%s' % k for k in sorted(want)]))
    return items


def words(q):
    return ' '.join({'e': 'enable()', 'd': 'disable()'}[c] for c in q) or 'import only'


def capture_rule(ctx):
    """bindings made at import time of a name the switch replaces later"""
    P = ctx.P
    rt = 'no module binds an accelerated function (or the enabled flag) by value at import time'
    acc = {m + '.' + n for (m, n) in pairs(P)} | {A + k for k in COMPILED} | {SW + '.enabled'}
    bad = []
    n = 0
    for m in P.modules.values():
        if not m.name.startswith('malstroem') or m.is_pyx or m.name == SW:
            continue
        used = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        for name, g in m.globals.items():
            if g[0] == 'import' and g[1] in acc:
                n += 1
                if name in used:
                    bad.append((m, None, 'imports %s by name and uses it' % g[1]))
        for s, where in importtime(m.tree):
            for x in loads(s):
                n += 1
                d = dotted(m, x)
                if d in acc:
                    bad.append((m, x, 'binds %s at import time' % d))
    it = Item('early_binding', ('C02',), 'violation' if bad else 'ok', rule=rt, sites=n, functions={m.name for m in P.modules.values() if m.name.startswith('malstroem')})
    if bad:
        it.where = ', '.join('%s:%s' % (m.name, getattr(x, 'lineno', 1)) for m, x, _ in bad[:5])
        it.detail = '; '.join('%s %s' % (m.name, d) for m, _, d in bad[:5])
    return [it]


def importtime(tree):
    """expressions evaluated at import whose value is kept: right-hand sides and defaults"""
    out = []

    def block(body, where):
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                out.append((s.value, where))
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in s.args.defaults + [k for k in s.args.kw_defaults if k is not None]:
                    out.append((d, where))
            if isinstance(s, ast.ClassDef):
                block(s.body, where)
                for f in s.body:
                    pass
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
                    block(getattr(s, f, []) or [], where)
    block(tree.body, '')
    # defaults of nested functions and methods are evaluated when the enclosing body runs; methods of classes at import
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    for d in f.args.defaults + [k for k in f.args.kw_defaults if k is not None]:
                        out.append((d, c.name))
    return out


def loads(e):
    """names and attributes whose value (not call result) may be kept by the expression"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, ast.Call):
            st.extend(x.args)
            st.extend(k.value for k in x.keywords)
            continue
        if isinstance(x, (ast.Name, ast.Attribute)):
            yield x
            continue
        st.extend(ast.iter_child_nodes(x))


def dotted(m, x):
    parts = []
    while isinstance(x, ast.Attribute):
        parts.append(x.attr)
        x = x.value
    if not isinstance(x, ast.Name):
        return None
    g = m.globals.get(x.id)
    base = None
    if g is None:
        return None
    if g[0] == 'import':
        base = g[1]
    elif g[0] == 'fn':
        base = m.name + '.' + x.id
    else:
        return None
    return '.'.join([base] + parts[::-1])


RULES = [(('C02',), switch_rule), (('C02',), capture_rule)]
