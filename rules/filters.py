"""Filter expressions (C11): what the check lets through, that it guards the evaluation, and what the names in the expression denote."""
import ast
import re

from msa.equiv import Ob, side
from msa.interp import Interp, Giveup
from msa.report import Item
from msa.terms import T, isc, cv, show, walk, TRUE, C
from msa.valu import Eval, Valuation, Err, Undecided, H

U = 'malstroem.scripts._utils:'
WORDS = {'area', 'maxdepth', 'volume', 'and', 'or'}
CHARS = set('<>=!0123456789.()+- \t\r\n\f\v')
NAMES = {'area': 'area', 'maxdepth': 'max', 'volume': 'volume'}
EVALS = {'eval', 'exec', 'compile', '__import__'}


class Unclear(Exception):
    pass


class Weak(Exception):
    pass


class Part(Exception):
    pass


def part(t):
    """t drops some of the text it is taken from"""
    if t.op == 'idx' and t.args[0].op in ('app', 'mcall') and t.args[0].args[0] in ('.split', '.splitlines', '.partition', '.rpartition', '.rsplit'):
        return True
    if t.op == 'idx' and t.args[1].op == 'slice':
        return any(isc(b) and cv(b) is not None for b in t.args[1].args)
    return t.op in ('app', 'mcall') and t.args[0] in ('.strip', '.rstrip', '.lstrip') and len([a for a in t.args[1:] if isinstance(a, T)]) > 1


def literals(pattern):
    """texts a regular expression can match: words and single characters; None if that cannot be told"""
    try:
        from re import _parser as sp, _constants as sc
    except ImportError:
        import sre_parse as sp
        import sre_constants as sc
    out = set()
    bounded = []

    def seq(p):
        lit = ''
        single = False
        for op, av in p:
            n = str(op)
            if n == 'LITERAL':
                lit += chr(av)
            elif n in ('ASSERT', 'ASSERT_NOT', 'AT'):
                if lit or n != 'AT':
                    bounded.append(1)
                continue
            else:
                if lit:
                    out.add(lit)
                    lit = ''
                if n == 'IN':
                    for o, a in av:
                        o = str(o)
                        if o == 'LITERAL':
                            out.add(chr(a))
                        elif o == 'RANGE':
                            if a[1] - a[0] > 300:
                                raise Unclear('character range')
                            out.update(chr(x) for x in range(a[0], a[1] + 1))
                        elif o == 'CATEGORY':
                            k = str(a)
                            if k == 'CATEGORY_DIGIT':
                                out.update('0123456789')
                            elif k == 'CATEGORY_SPACE':
                                out.add(' ')
                            elif k == 'CATEGORY_WORD':
                                out.update('ax_0')
                            else:
                                raise Unclear(k)
                        else:
                            raise Unclear(o)
                elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    seq(av[2])
                elif n == 'SUBPATTERN':
                    seq(av[-1])
                elif n == 'BRANCH':
                    for b in av[1]:
                        seq(b)
                elif n == 'ANY':
                    out.add('<any character>')
                else:
                    raise Unclear(n)
        if lit:
            out.add(lit)
    try:
        seq(sp.parse(pattern))
    except re.error as e:
        raise Unclear('pattern %s' % e)
    return out, bool(bounded)


def const(t):
    if isc(t) and isinstance(cv(t), str):
        return cv(t)
    raise Unclear('text that is not constant: ' + show(t, 4)[:80])


def elements(t, I):
    """constant texts an index over a constant sequence runs through"""
    if isc(t) and isinstance(cv(t), str):
        return [cv(t)]
    if t.op == 'idx' and t.args[1].op in ('lv', 'bin', 'idx', 'sym', 'c'):
        b = t.args[0]
        if isc(b) and isinstance(cv(b), str):
            return list(cv(b))
        if b.op in ('list', 'tuple'):
            return [const(x) for x in b.args]
        if b.op == 'app' and b.args[0] in ('sorted', 'list', 'tuple', 'set'):
            return elements_of(b.args[1])
    if t.op == 'app' and t.args[0] == 'fstr' and isc(t.args[1]):
        # format of one element into a pattern
        fmt = cv(t.args[1])
        if len(t.args) == 3 and fmt.count('{}') == 1:
            return [fmt.replace('{}', x) for x in elements(t.args[2], I)]
    if t.op == 'bin' and t.args[0] == '+':
        return [a + b for a in elements(t.args[1], I) for b in elements(t.args[2], I)]
    raise Unclear('removed text ' + show(t, 5)[:100])


def elements_of(b):
    if isc(b) and isinstance(cv(b), str):
        return list(cv(b))
    if b.op in ('list', 'tuple'):
        return [const(x) for x in b.args]
    raise Unclear('sequence ' + show(b, 4)[:80])


def chain(t, loops, out, start):
    """steps (kind, removed texts, replacement) from the expression to t, in order"""
    if t is start:
        return
    if t.op == 'cast':
        return chain(t.args[1], loops, out, start)
    if t.op in ('app', 'mcall'):
        n = t.args[0]
        a = [x for x in t.args[1:] if isinstance(x, T)]
        if n == '.strip' or n == 'str':
            return chain(a[0], loops, out, start)
        if n == '.replace' and len(a) == 3:
            chain(a[0], loops, out, start)
            out.append(('replace', elements(a[1], None), const(a[2])))
            return
    s = sub(t)
    if s is not None:
        pat, rep, src = s
        chain(src, loops, out, start)
        ps = elements(pat, None)
        for p in ps:
            lits, bounded = literals(p)
            out.append(('sub', sorted(lits), const(rep), bounded))
        return
    if t.op == 'fin':
        L = loops[t.args[0]]
        k = t.args[1]
        chain(L.init[k], loops, out, start)
        n = L.next[k]
        inner = [x for x in walk([n]).values() if x.op == 'mu' and x.args[0] == t.args[0] and x.args[1] == k]
        if len(inner) != 1:
            raise Unclear('loop over the removed texts')
        chain(n, loops, out, inner[0])
        return
    if part(t):
        raise Part(t)
    raise Unclear('the checked text is ' + show(t, 4)[:120])


def sub(t):
    """re.sub(pattern, replacement, text) in whatever form it was summarised"""
    if t.op in ('app', 'call', 'mcall', 'ext'):
        a = list(t.args)
        n = a[0]
        if n in ('re.sub', 'regex.sub'):
            a = [x for x in a[1:] if isinstance(x, T) and x.op != 'kw' and not (isc(x) and cv(x) is None)]
            if len(a) >= 3:
                return a[-3:]
    return None


def graph(P, ref):
    o = Ob('x', ref, ref, {'filter': 'any'})
    return side(P, ref, o), o


def evalfn(P):
    """functions of the package that evaluate text"""
    out = []
    for m in P.modules.values():
        if not m.name.startswith('malstroem'):
            continue
        par = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                f = n.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'builtins' else None
                if nm in EVALS and n.args and not isinstance(n.args[0], ast.Constant):
                    if nm == 'compile' and isinstance(f, ast.Attribute):
                        continue
                    out.append((m, n, nm))
    return out


def owner(m, node):
    best = None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and any(x is node for x in ast.walk(n)):
            best = n
    return best


def rule(ctx):
    P = ctx.P
    R1 = 'the text given to eval is reached only when the check of the same text did not raise'
    R2 = 'what the check removes is documented vocabulary only, and removing a word never joins what surrounds it'
    R3 = 'each name of the expression is replaced by the statistic of that meaning'
    R4 = 'an empty filter yields a function that accepts everything'
    R5 = 'no other text is evaluated as code'
    pr = ('C11',)
    items = []
    # ---- evaluation sites
    sites = evalfn(P)
    it = Item('eval_sites', pr, 'ok', rule=R5, sites=len(sites))
    for m, n, nm in sites:
        f = owner(m, n)
        it.functions.add('%s:%s' % (m.name, f.name if f else '<module>')) if isinstance(it.functions, set) else None
        if m.name != 'malstroem.scripts._utils':
            it.status = 'violation'
            it.where = '%s line %d' % (m.name, n.lineno)
            it.detail = '%s of computed text' % nm
    items.append(it)
    # ---- the graph of parse_filter
    try:
        sd, ob = graph(P, U + 'parse_filter')
    except (KeyError, Giveup) as e:
        items.append(Item('filter_check', pr, 'undecided', detail='parse_filter: %s' % e, rule=R1))
        return items
    fns = {f for f in sd.I.analysed if f.startswith('malstroem')}
    x = [t for t in walk(sd.roots(), loops=sd.loops).values() if t.op == 'sym' and t.args[0] == 'filter']
    if not x:
        items.append(Item('filter_check', pr, 'undecided', detail='the expression is not used', rule=R1))
        return items
    x = x[0]
    ev = []

    def find(evs):
        for e in evs:
            if e.kind == 'call' and e.chan in EVALS or e.kind == 'call' and isinstance(e.chan, T) and isc(e.chan) and cv(e.chan) in EVALS:
                ev.append(e)
            if e.loop is not None:
                find(e.loop.events)
    find(sd.events)
    dom = Item('filter_dominates', pr, 'ok', rule=R1, functions=fns, sites=len(ev), terms=len(walk(sd.roots(), loops=sd.loops)))
    voc = Item('filter_vocabulary', pr, 'ok', rule=R2, functions=fns)
    nam = Item('filter_names', pr, 'ok', rule=R3, functions=fns)
    items += [dom, voc, nam]
    if not ev:
        for i in (dom, voc, nam):
            i.status, i.detail = 'undecided', 'expressions are not evaluated with eval'
    else:
        # domination: no interpretation evaluates the text and rejects it; rejection depends on the text
        rej = 0
        both = 0
        dep = any(t is x for t in walk([sd.raises], loops=sd.loops).values())
        try:
            for i in range(200):
                v = Valuation(H(991, i), {}, [], set(), {}, set())
                v.mode = i % 4
                e = Eval(sd.loops, v)
                e.round = Eval.ROUNDS
                try:
                    r = e.tb(sd.raises)
                    g = any(e.tb(y.guard) for y in ev)
                except Err:
                    continue
                dom.valuations += 1
                dom.effective += r
                rej += r
                if r and g:
                    both += 1
        except Undecided as e:
            dom.status, dom.detail = 'undecided', str(e)
        if dom.status == 'ok':
            if not dep or not rej:
                dom.status = 'violation'
                dom.where = '%s line %s' % (ev[0].fn, getattr(ev[0].node, 'lineno', '?'))
                dom.detail = 'eval is reached without any check of the text it evaluates'
            elif both:
                dom.status = 'violation'
                dom.where = '%s line %s' % (ev[0].fn, getattr(ev[0].node, 'lineno', '?'))
                dom.detail = 'the text is evaluated also when the check rejects it: check %s' % show(sd.raises, 7)[:300]
        # vocabulary
        try:
            steps = []
            tests = reject_tests(sd.raises, x, sd.loops)
            if not tests:
                raise Unclear('no test of the text found')
            for kind, t in tests:
                if kind == 'residue':
                    chain(t, sd.loops, steps, x)
                else:
                    lits, bounded = literals(t)
                    steps.append(('match', sorted(lits), '', True))
            voc.sites = sum(len(s[1]) for s in steps)
            voc.outputs = ['accepted: ' + ' '.join(sorted({w for s in steps for w in s[1]}))]
            for n, s in enumerate(steps):
                extra = [w for w in s[1] if not (w in WORDS or (len(w) == 1 and w in CHARS) or (w.strip('<>=!') == '' and len(w) == 2))]
                if extra:
                    voc.status = 'violation'
                    voc.detail = 'the check also accepts %s' % ', '.join(map(repr, extra))
                    break
                if s[0] in ('replace', 'sub') and s[2] == '':
                    flat = [(w, m) for m, z in enumerate(steps) for w in z[1]]
                    later = [w for w, m in flat if len(w) > 1 and m > n and w.isalpha() and steps[m][0] != 'match']
                    same = [w for i, w in enumerate(s[1]) if i and len(w) > 1 and w.isalpha()] if s[0] == 'replace' else []
                    if later or same:
                        w2 = (later or same)[-1]
                        voc.status = 'violation'
                        voc.detail = 'removing %r joins what surrounds it: %r passes the check' % (s[1][0], w2[:1] + s[1][0] + w2[1:])
                        break
            if voc.status == 'violation':
                voc.where = U + 'parse_filter'
        except Unclear as e:
            voc.status, voc.detail = 'undecided', str(e)
        except Part as e:
            t = e.args[0]
            if t in walk([a for y in ev for a in y.args if isinstance(a, T)], loops=sd.loops).values():
                voc.status, voc.detail = 'undecided', 'the checked text is ' + show(t, 4)[:120]
            else:
                voc.status, voc.where, voc.detail = 'violation', U + 'parse_filter', 'only a part of the evaluated text is checked: ' + show(t, 4)[:200]
        except Weak as e:
            voc.status, voc.where, voc.detail = 'violation', U + 'parse_filter', str(e)
        # names
        try:
            arg = [a for a in walk([a for a in ev[0].args if isinstance(a, T)]).values() if a.op in ('app', 'mcall') and a.args[0] == '.replace']
            if not arg:
                raise Unclear('no replacement of names')
            top = max(arg, key=lambda t: len(walk([t])))
            steps = []
            chain(top, sd.loops, steps, x)
            got = {}
            for w in NAMES:
                s = w
                for st in steps:
                    for r in st[1]:
                        s = s.replace(r, st[2])
                m = re.fullmatch(r'\s*\(?\s*\w+\s*(?:\[\s*["\'](\w+)["\']\s*\]|\.(\w+)|\.get\(\s*["\'](\w+)["\']\s*\))\s*\)?\s*', s)
                if not m:
                    raise Unclear('%r becomes %r' % (w, s))
                got[w] = m.group(1) or m.group(2) or m.group(3)
            nam.outputs = ['%s -> %s' % x for x in sorted(got.items())]
            nam.sites = len(got)
            if got != NAMES:
                nam.status = 'violation'
                nam.where = U + 'parse_filter'
                nam.detail = 'the expression reads %s' % ', '.join('%s as %s' % (w, got[w]) for w in got if got[w] != NAMES[w])
        except Unclear as e:
            nam.status, nam.detail = 'undecided', str(e)
    # ---- empty filter
    emp = Item('filter_empty', pr, 'ok', rule=R4)
    items.append(emp)
    for q in ('empty_filter', 'no_filter'):
        try:
            I = Interp(P)
            r = I.freeze(I.run('specs.tools:' + q, {}))
            emp.functions = set(emp.functions) | {f for f in I.analysed if f.startswith('malstroem')}
            emp.sites += 1
            if r is TRUE or isc(r) and cv(r) is True:
                continue
            if isc(r):
                emp.status, emp.where, emp.detail = 'violation', U + 'parse_filter', 'an empty filter gives %s' % show(r, 4)
            else:
                emp.status, emp.detail = 'undecided', show(r, 6)[:200]
        except Giveup as e:
            emp.status, emp.detail = 'undecided', str(e)
    return items


def reject_tests(r, x, loops):
    """parts of the raise condition that look at the text: residue terms whose truth rejects, patterns whose failure rejects"""
    out = []
    st = [(r, True)]
    seen = set()
    while st:
        t, pos = st.pop()
        if (t.id, pos) in seen:
            continue
        seen.add((t.id, pos))
        if t.op in ('and', 'or'):
            st += [(a, pos) for a in t.args]
        elif t.op == 'ite':
            st += [(a, pos) for a in t.args]
        elif t.op == 'not':
            st.append((t.args[0], not pos))
        elif t.op == 'app' and t.args[0] == 'bool':
            st.append((t.args[1], pos))
        elif t.op == 'cmp' and any(isc(a) and cv(a) in ('', None) for a in t.args[1:]):
            st += [(a, pos) for a in t.args[1:] if not isc(a)]
        elif t is x:
            continue
        elif any(y is x for y in walk([t], loops=loops).values()):
            n = t.args[0] if t.args else ''
            if n in ('.isalpha', '.isalnum', '.isidentifier', '.islower', '.isupper', '.isdigit', '.isnumeric', '.isdecimal', '.startswith', '.endswith'):
                raise Weak('only a rest of the text for which %s() holds is rejected' % n[1:] if pos else 'a rest of the text for which %s() holds is accepted' % n[1:])
            lens = [a for a in t.args[1:] if isinstance(a, T) and a.op == 'app' and a.args[0] == 'len'] if t.op == 'cmp' else []
            if lens:
                c = [cv(a) for a in t.args[1:] if isc(a)]
                if not c or not isinstance(c[0], int):
                    raise Unclear('length test ' + show(t, 4)[:80])
                import operator
                f = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne}.get(t.args[0])
                if f is None:
                    raise Unclear('length test ' + show(t, 4)[:80])
                ok = [n for n in range(1, 9) if (f(n, c[0]) if t.args[1] is lens[0] else f(c[0], n)) != pos]
                if ok:
                    raise Weak('a rest of %d characters is accepted' % ok[0])
                out.append(('residue', lens[0].args[1]))
                continue
            if n in ('re.fullmatch', 're.match'):
                pats = [a for a in t.args[1:] if isinstance(a, T) and isc(a) and isinstance(cv(a), str)]
                if n == 're.match' and not (pats and re.search(r'(\$|\\Z)$', cv(pats[0]))):
                    raise Unclear('pattern is not anchored')
                if not pats:
                    raise Unclear('pattern is not constant')
                out.append(('match', cv(pats[0])))
            else:
                out.append(('residue', t))
    return [x for i, x in enumerate(out) if x not in out[:i]]


RULES = [(('C11',), rule)]
