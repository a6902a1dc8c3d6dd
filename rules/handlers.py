"""GDAL error handling (C25): typestate of the error handler stack over every control-flow path, exceptional edges included, and exceptions enabled at import."""
import ast

from msa.report import Item

PUSH, POP = 'PushErrorHandler', 'PopErrorHandler'
SUPPRESS = {'suppress'}
NONRAISING = {PUSH, POP}
LIM = 4


class Unclear(Exception):
    pass


def callname(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def own(node):
    """sub-nodes evaluated with the statement: not the bodies of nested functions and classes"""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))


def raising(e, known=lambda c: False):
    """may evaluating this raise? (calls for which known(call) holds are accounted for elsewhere)"""
    for n in own(e):
        if isinstance(n, ast.Call):
            if callname(n) not in NONRAISING and not known(n):
                return True
        elif isinstance(n, (ast.Subscript, ast.BinOp, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr not in NONRAISING and not isinstance(n.value, ast.Name):
            return True
        elif isinstance(n, ast.Compare) and not all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
            return True
    return False


# a state is (delta, facts): delta = handlers pushed minus popped since entry, facts = ((name, truth), ...) about local flags
class Flow:
    def __init__(self, an, mod, fn, cls=None):
        self.an = an
        self.mod = mod
        self.fn = fn
        self.cls = cls
        self.yields = set()
        self.sites = 0
        self.lines = {}
        self.locals = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def run(self):
        out = self.block(self.fn.body, {(0, ())})
        res = dict(normal=set(), raises=set())
        for k, s in out.items():
            if k in ('next', 'return'):
                res['normal'] |= {d for d, f in s}
            elif k == 'raise':
                res['raises'] |= {d for d, f in s}
        return res

    # -- states
    def know(self, st, name, truth):
        d, f = st
        m = dict(f)
        if name in m and m[name] != truth:
            return None
        m[name] = truth
        return (d, tuple(sorted(m.items())))

    def forget(self, states, name):
        return {(d, tuple(x for x in f if x[0] != name and not x[0].startswith(name + '.'))) for d, f in states}

    def split(self, test, states):
        """(states where the test holds, states where it does not)"""
        if isinstance(test, ast.Constant):
            return (states, set()) if test.value else (set(), states)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            b, a = self.split(test.operand, states)
            return a, b
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                t, f = states, set()
                for v in test.values:
                    t, g = self.split(v, t)
                    f |= g
                return t, f
            t, f = set(), states
            for v in test.values:
                g, f = self.split(v, f)
                t |= g
            return t, f
        key = None
        if isinstance(test, ast.Name) and test.id in self.locals:
            key = test.id
        elif isinstance(test, (ast.Compare, ast.Attribute)) and all(isinstance(n, (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.Gt, ast.Lt, ast.GtE, ast.LtE)) for n in ast.walk(test)):
            names = sorted({n.id for n in ast.walk(test) if isinstance(n, ast.Name)})
            neg = isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
            if len(names) == 1:
                if neg:
                    test = ast.Compare(test.left, [ast.Is() if isinstance(test.ops[0], ast.IsNot) else ast.Eq()], test.comparators)
                key = names[0] + '.' + ast.dump(test)
                if neg:
                    t = {self.know(s, key, False) for s in states} - {None}
                    f = {self.know(s, key, True) for s in states} - {None}
                    return t, f
        if key is None:
            return states, states
        return {self.know(s, key, True) for s in states} - {None}, {self.know(s, key, False) for s in states} - {None}

    # -- expressions
    def expr(self, e, states):
        """effects of the calls in an expression: (states after, states at which an exception may leave it)"""
        exc = set()
        if e is None:
            return states, exc
        if raising(e, lambda c: self.an.summary_of_call(self, c) is not None):
            exc |= states
        for n in self.order(e):
            if isinstance(n, ast.Call):
                s = self.an.summary_of_call(self, n)
                if s is None:
                    continue
                self.sites += 1
                new = set()
                for d, f in states:
                    for x in s['normal']:
                        new.add((max(-LIM, min(LIM, d + x)), f))
                    for x in s['raises']:
                        exc.add((max(-LIM, min(LIM, d + x)), f))
                        if x:
                            self.lines.setdefault(d + x, n.lineno)
                    if s['normal'] != {0}:
                        self.lines.setdefault(n.lineno, n.lineno)
                states = new
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.yields |= states
                exc |= states
        return states, exc

    def order(self, e):
        """calls in evaluation order (arguments first)"""
        out = []

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                return
            for c in ast.iter_child_nodes(n):
                go(c)
            if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom)):
                out.append(n)
        go(e)
        return out

    # -- statements
    def merge(self, into, frm):
        for k, v in frm.items():
            into.setdefault(k, set()).update(v)

    def block(self, body, states):
        out = {}
        cur = set(states)
        for s in body:
            if not cur:
                break
            r = self.stmt(s, cur)
            cur = r.pop('next', set())
            self.merge(out, r)
        out.setdefault('next', set()).update(cur)
        return out

    def assign(self, targets, value, states):
        for t in targets:
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    states = self.forget(states, n.id)
        if len(targets) == 1 and isinstance(targets[0], ast.Name) and isinstance(value, ast.Constant):
            nm = targets[0].id
            states = {self.know(s, nm, bool(value.value)) for s in states}
            if value.value is None:
                k = nm + '.' + ast.dump(ast.parse('%s is None' % nm, mode='eval').body)
                states = {self.know(s, k, True) for s in states}
        return states

    def stmt(self, s, states):
        out = {}
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out['raise'] = set(states)
            out['next'] = set(states)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            n, x = self.expr(s.value, states)
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                if not isinstance(t, ast.Name):
                    n, x2 = self.expr(t, n)
                    x |= x2
                    if isinstance(t, (ast.Tuple, ast.List)):
                        x |= n
            if isinstance(s, ast.AugAssign):
                x |= states
            n = self.assign(tg, s.value if isinstance(s, ast.Assign) else None, n)
            return dict(next=n, **{'raise': x})
        if isinstance(s, ast.Expr):
            n, x = self.expr(s.value, states)
            return dict(next=n, **{'raise': x})
        if isinstance(s, ast.Return):
            n, x = self.expr(s.value, states)
            return {'return': n, 'raise': x}
        if isinstance(s, ast.Raise):
            n, x = self.expr(s.exc, states)
            return {'raise': n | x}
        if isinstance(s, ast.Assert):
            n, x = self.expr(s.test, states)
            return {'next': n, 'raise': x | n}
        if isinstance(s, ast.Delete):
            return {'next': set(states), 'raise': set(states)}
        if isinstance(s, ast.Break):
            return {'break': set(states)}
        if isinstance(s, ast.Continue):
            return {'continue': set(states)}
        if isinstance(s, ast.If):
            n, x = self.expr(s.test, states)
            t, f = self.split(s.test, n)
            out['raise'] = x
            self.merge(out, self.block(s.body, t))
            self.merge(out, self.block(s.orelse, f))
            return out
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(s, states)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s.items, s.body, states)
        if isinstance(s, ast.Try):
            return self.try_(s, states)
        if isinstance(s, ast.Match):
            n, x = self.expr(s.subject, states)
            out = {'raise': x | n, 'next': set(n)}
            for c in s.cases:
                self.merge(out, self.block(c.body, n))
            return out
        raise Unclear('statement %s' % type(s).__name__)

    def loop(self, s, states):
        out = {}
        seen = set()
        exits = set()
        cur = set(states)
        if not isinstance(s, ast.While):
            cur, x = self.expr(s.iter, cur)
            self.merge(out, {'raise': x | cur})
        for _ in range(60):
            new = cur - seen
            if not new:
                break
            seen |= new
            if isinstance(s, ast.While):
                n, x = self.expr(s.test, new)
                t, f = self.split(s.test, n)
                self.merge(out, {'raise': x})
            else:
                t, f = set(new), set(new)
                t = self.assign([s.target], None, t)
                self.merge(out, {'raise': set(new)})
            exits |= f
            r = self.block(s.body, t)
            cur = r.pop('next', set()) | r.pop('continue', set())
            self.merge(out, {'next': r.pop('break', set())})
            self.merge(out, r)
        r = self.block(s.orelse, exits)
        self.merge(out, r)
        return out

    def with_(self, items, body, states):
        if not items:
            return self.block(body, states)
        it = items[0]
        n, x = self.expr(it.context_expr, states)
        out = {'raise': x | (n if isinstance(it.context_expr, ast.Call) else set())}
        cm = self.an.context(self, it.context_expr)
        if cm is None:
            r = self.with_(items[1:], body, n)
            if isinstance(it.context_expr, ast.Call) and callname(it.context_expr) in SUPPRESS:
                self.merge(out, {'next': r.get('raise', set())})
            self.merge(out, r)
            return out
        self.sites += 1
        enter, leave, leave_exc, swallow = cm
        n2 = {(d + e, f) for d, f in n for e in enter}
        r = self.with_(items[1:], body, n2)
        for k, v in r.items():
            if k == 'raise':
                after = {(d + e, f) for d, f in v for e in leave_exc}
                self.merge(out, {'raise': after})
                if swallow:
                    self.merge(out, {'next': after})
            else:
                self.merge(out, {k: {(d + e, f) for d, f in v for e in leave}})
        return out

    def try_(self, s, states):
        r = self.block(s.body, states)
        exc = r.pop('raise', set())
        out = {}
        nxt = r.pop('next', set())
        self.merge(out, r)
        if s.orelse:
            self.merge(out, self.block(s.orelse, nxt))
        else:
            self.merge(out, {'next': nxt})
        caught = False
        for h in s.handlers:
            if not exc:
                break
            self.merge(out, self.block(h.body, self.assign([ast.Name(h.name, ast.Store())], None, exc) if h.name else exc))
            ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if h.type is None or any(isinstance(t, (ast.Name, ast.Attribute)) and (t.id if isinstance(t, ast.Name) else t.attr) in ('Exception', 'BaseException') for t in ts):
                caught = True
                break
        if not caught:
            self.merge(out, {'raise': exc})
        if s.finalbody:
            fin = {}
            for k, v in out.items():
                if not v:
                    continue
                f = self.block(s.finalbody, v)
                self.merge(fin, {k: f.pop('next', set())})
                self.merge(fin, f)
            out = fin
        return out


class Analysis:
    def __init__(self, P):
        self.P = P
        self.sums = {}
        self.active = set()
        self.flows = {}
        self.fns = {}
        for name, m in P.modules.items():
            if m.is_pyx or name.startswith('specs'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    for s in n.body:
                        if isinstance(s, ast.FunctionDef):
                            self.fns[id(s)] = (m, n, s)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    self.fns.setdefault(id(n), (m, None, n))
        self.touch = set()
        self.relevant()

    def relevant(self):
        """functions from which a push or pop can be reached"""
        calls = {}
        for k, (m, c, f) in self.fns.items():
            ns = {callname(x) for x in ast.walk(f) if isinstance(x, ast.Call)} | {callname_ctx(x) for x in ast.walk(f) if isinstance(x, ast.withitem)}
            calls[k] = ns
            if ns & {PUSH, POP}:
                self.touch.add(k)
        while True:
            names = {self.fns[k][2].name for k in self.touch} | {self.fns[k][1].name for k in self.touch if self.fns[k][1]}
            new = {k for k, ns in calls.items() if k not in self.touch and ns & names}
            if not new:
                return
            self.touch |= new

    def target(self, flow, c):
        """package function a call goes to"""
        f = c.func
        if isinstance(f, ast.Name):
            for n in ast.walk(flow.fn):
                if isinstance(n, ast.FunctionDef) and n.name == f.id and n is not flow.fn:
                    return n
            g = flow.mod.globals.get(f.id)
            if g and g[0] == 'fn':
                return g[1]
            if g and g[0] == 'cls':
                return g[1]
            if g and g[0] == 'import':
                return self.glob(self.P.resolve_dotted(g[1]))
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and flow.cls is not None:
                for mm, cc in self.P.mro(flow.mod, flow.cls):
                    for s in cc.body:
                        if isinstance(s, ast.FunctionDef) and s.name == f.attr:
                            return s
            d = []
            x = f
            while isinstance(x, ast.Attribute):
                d.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                g = flow.mod.globals.get(x.id)
                if g and g[0] == 'import':
                    r = self.glob(self.P.resolve_dotted('.'.join([g[1]] + d[::-1])))
                    if r is not None:
                        return r
                elif g and g[0] == 'cls' and len(d) == 1:
                    for s in g[1].body:
                        if isinstance(s, ast.FunctionDef) and s.name == d[0]:
                            return s
            # a method of an object: only if the package has one method of that name which matters
            c2 = [self.fns[k][2] for k in self.touch if self.fns[k][1] is not None and self.fns[k][2].name == f.attr]
            if len(c2) == 1:
                return c2[0]
        return None

    def glob(self, r):
        if r[0] == 'glob':
            g = r[1].globals[r[2]]
            if g[0] in ('fn', 'cls'):
                return g[1]
        return None

    def summary_of_call(self, flow, c):
        n = callname(c)
        if n == PUSH:
            return dict(normal={1}, raises=set())
        if n == POP:
            return dict(normal={-1}, raises=set())
        t = self.target(flow, c)
        if t is None or isinstance(t, ast.ClassDef):
            if isinstance(t, ast.ClassDef):
                init = next((s for s in t.body if isinstance(s, ast.FunctionDef) and s.name == '__init__'), None)
                if init is None or id(init) not in self.touch:
                    return None
                t = init
            else:
                return None
        if id(t) not in self.touch:
            return None
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_body(t)):
            return None
        return self.summary(t)

    def summary(self, fn):
        k = id(fn)
        if k in self.sums:
            return self.sums[k]
        if k in self.active:
            return None
        self.active.add(k)
        m, c, f = self.fns[k]
        fl = Flow(self, m, f, c)
        r = fl.run()
        self.active.discard(k)
        self.sums[k] = r
        self.flows[k] = fl
        return r

    def context(self, flow, e):
        """(deltas on entering, on leaving normally, on leaving with an exception, swallows exceptions?)"""
        if not isinstance(e, ast.Call):
            return None
        t = self.target(flow, e)
        if t is None:
            return None
        if isinstance(t, ast.ClassDef):
            ms = {s.name: s for s in t.body if isinstance(s, ast.FunctionDef)}
            if '__enter__' not in ms or '__exit__' not in ms or not (id(ms['__enter__']) in self.touch or id(ms['__exit__']) in self.touch):
                return None
            a, b = self.summary(ms['__enter__']), self.summary(ms['__exit__'])
            sw = any(isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True for x in ast.walk(ms['__exit__']))
            return a['normal'], b['normal'], b['normal'], sw
        if id(t) in self.touch and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_body(t)):
            s = self.summary(t)
            y = {d for d, f in self.flows[id(t)].yields}
            if len(y) != 1:
                raise Unclear('context manager %s yields in several states' % t.name)
            y = next(iter(y))
            exc = {d - y for d in s['raises'] if True}
            # before the yield an exception leaves with its own depth; those are part of 'raises' too
            return {y}, {d - y for d in s['normal']}, exc or {d - y for d in s['normal']}, False
        return None


def callname_ctx(w):
    return callname(w.context_expr) if isinstance(w.context_expr, ast.Call) else None


def own_body(f):
    for s in f.body:
        yield from own(s)


def balanced(ctx):
    P = ctx.P
    text = 'typestate of the GDAL error handler stack: every push is popped on every way out of the function, exceptional edges included'
    an = Analysis(P)
    items = []
    bare = []
    for k, (m, c, f) in an.fns.items():
        callees = {id(x.func) for x in ast.walk(f) if isinstance(x, ast.Call)}
        for x in ast.walk(f):
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if nm in (PUSH, POP) and id(x) not in callees:
                bare.append('%s line %d' % (m.name + ':' + f.name, x.lineno))
            if nm == 'SetErrorHandler':
                bare.append('%s line %d (SetErrorHandler)' % (m.name + ':' + f.name, x.lineno))
    callers = {}
    todo = []
    for k in sorted(an.touch, key=lambda k: (an.fns[k][0].name, an.fns[k][2].lineno)):
        m, c, f = an.fns[k]
        ref = m.name + ':' + (c.name + '.' if c else '') + f.name
        try:
            s = an.summary(f)
        except Unclear as e:
            items.append(Item('handlers_' + f.name, ('C25',), 'undecided', where=ref, detail=str(e), rule=text))
            continue
        fl = an.flows[k]
        for x in ast.walk(f):
            if isinstance(x, ast.Call):
                t = an.target(fl, x)
                ts = [s2 for s2 in t.body if isinstance(s2, ast.FunctionDef)] if isinstance(t, ast.ClassDef) else [t] if t is not None and t is not f else []
                for s2 in ts:
                    callers.setdefault(id(s2), set()).add(k)
        todo.append((k, ref, s, fl))
    uneven = {k for k, ref, s, fl in todo if (s['normal'] | s['raises']) - {0}}
    # a helper that only pushes or only pops is judged at its callers
    bad = {k for k in uneven if not callers.get(k) or callers[k] & uneven}
    direct = {k for k in bad if any(isinstance(x, ast.Call) and callname(x) in (PUSH, POP) for x in ast.walk(an.fns[k][2]))}
    report = direct or {k for k in bad if not callers.get(k)} or bad
    for k, ref, s, fl in todo:
        m, c, f = an.fns[k]
        it = Item('handlers_' + (c.name + '_' if c else '') + f.name, ('C25',), 'ok', where=ref, functions={ref}, sites=fl.sites, rule=text)
        what = ['%s leaves the handler stack %+d%s' % (kind, d, '' if abs(d) < LIM else ' or more')
                for kind, ds in (('returning', s['normal']), ('raising', s['raises'])) for d in sorted(ds) if d]
        if k in report:
            if bare:
                it.status = 'undecided'
                it.detail = 'handler functions used as values at ' + bare[0]
            else:
                it.status = 'violation'
                lines = [x.lineno for x in ast.walk(f) if isinstance(x, ast.Call) and callname(x) in (PUSH, POP)]
                it.where = '%s line %d' % (ref, lines[0] if lines else f.lineno)
                it.detail = '; '.join(what)
        elif k in bad:
            it.detail = 'inherits what is reported elsewhere'
        elif k in uneven:
            it.detail = 'helper judged at its callers: ' + '; '.join(what)
        items.append(it)
    for m in P.modules.values():
        if m.is_pyx or m.name.startswith('specs'):
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for x in ast.walk(st):
                if isinstance(x, ast.Call) and callname(x) in (PUSH, 'SetErrorHandler'):
                    items.append(Item('handlers_module', ('C25',), 'undecided', where='%s line %d' % (m.name, x.lineno), detail='handler changed at import', rule=text))
    if not items:
        items.append(Item('handlers', ('C25',), 'ok', where='malstroem', rule=text, detail='no handler is ever pushed'))
    if bare and not any(i.status == 'violation' for i in items):
        items.append(Item('handlers_values', ('C25',), 'undecided', where=bare[0], detail='handler functions used as values', rule=text))
    return items


# ---------------------------------------------------------------------------------------------------------------------

def executes(P, m, seen):
    """modules executed when m is imported: unconditional module level imports, transitively"""
    if m.name in seen:
        return
    seen.add(m.name)
    pk = m.name.split('.')
    for i in range(1, len(pk)):
        p = P.modules.get('.'.join(pk[:i]))
        if p is not None:
            executes(P, p, seen)
    for s in toplevel(m.tree.body):
        for d in imported(m, s):
            parts = d.split('.')
            for i in range(1, len(parts) + 1):
                p = P.modules.get('.'.join(parts[:i]))
                if p is not None:
                    executes(P, p, seen)


def toplevel(body):
    for s in body:
        yield s
        if isinstance(s, ast.Try):
            yield from toplevel(s.body)
            yield from toplevel(s.finalbody)
        elif isinstance(s, ast.With):
            yield from toplevel(s.body)


def imported(m, s):
    if isinstance(s, ast.Import):
        return [a.name for a in s.names]
    if isinstance(s, ast.ImportFrom):
        base = s.module or ''
        if s.level:
            pk = m.package(s.level)
            base = pk + ('.' + base if base else '')
        return [base] + [base + '.' + a.name for a in s.names]
    return []


def enables(m, name):
    """is the call name() made unconditionally when the module is imported?"""
    def calls(body):
        for s in toplevel(body):
            if isinstance(s, (ast.Expr, ast.Assign)):
                for x in own(s.value):
                    if isinstance(x, ast.Call):
                        yield x
    for x in calls(m.tree.body):
        if callname(x) == name:
            return x
        g = m.globals.get(x.func.id) if isinstance(x.func, ast.Name) else None
        if g and g[0] == 'fn':
            for y in calls(g[1].body):
                if callname(y) == name:
                    return y
    return None


def exceptions(ctx):
    P = ctx.P
    text = 'gdal.UseExceptions() is executed on import of every module of the command line, and exceptions are never switched off'
    out = []
    off = []
    anywhere = []
    for m in P.modules.values():
        if m.is_pyx or m.name.startswith('specs'):
            continue
        for x in ast.walk(m.tree):
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else x.name if isinstance(x, ast.alias) else None
            if nm == 'DontUseExceptions':
                off.append('%s line %d' % (m.name, getattr(x, 'lineno', 0)))
            if nm == 'UseExceptions':
                anywhere.append('%s line %d' % (m.name, getattr(x, 'lineno', 0)))
    if off:
        out.append(Item('exceptions_stay_on', ('C25',), 'violation', where=off[0], detail='GDAL exceptions are switched off', rule=text, sites=len(off)))
    else:
        out.append(Item('exceptions_stay_on', ('C25',), 'ok', where='malstroem', rule=text, sites=len(P.modules)))
    cmds = [m for m in P.modules.values() if m.name.startswith('malstroem.scripts.') and not m.is_pyx and
            any(isinstance(f, ast.FunctionDef) and any('command' in ast.dump(d) or 'group' in ast.dump(d) for d in f.decorator_list) for f in m.tree.body)]
    on = {m.name for m in P.modules.values() if not m.is_pyx and enables(m, 'UseExceptions') is not None}
    entry = P.modules.get('malstroem.scripts.cli')
    base = set()
    if entry is not None:
        executes(P, entry, base)
    for m in cmds:
        seen = set()
        executes(P, m, seen)
        it = Item('exceptions_in_' + m.name.rsplit('.', 1)[-1], ('C25',), 'ok', where=m.name, rule=text, functions={x for x in seen & on}, sites=len(seen))
        opens = reach_gdal(P, seen)
        if not (seen & on) and not (m.name in base and base & on):
            if not opens and m.name not in base:
                pass
            elif not anywhere:
                it.status = 'violation'
                it.detail = 'GDAL exceptions are never enabled'
            elif not on:
                it.status = 'undecided'
                it.detail = 'exceptions are enabled at %s, not when the module is imported' % anywhere[0]
            else:
                it.status = 'violation'
                it.detail = 'none of the modules that enable exceptions (%s) is imported' % ', '.join(sorted(on))
        out.append(it)
    return out


def reach_gdal(P, seen):
    return any(any(g[0] == 'import' and g[1].startswith('osgeo') for g in P.modules[s].globals.values()) for s in seen if s in P.modules)


RULES = [(('C25',), balanced), (('C25',), exceptions)]
