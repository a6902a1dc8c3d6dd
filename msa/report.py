"""Items: what one rule or obligation decided, and the driver that turns items into a verdict and evidence."""
import copy
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Item:
    """status: 'ok' (decided, holds) | 'violation' (decided, a construct breaks it) | 'undecided' (construct outside what the rule can judge)"""

    def __init__(self, id, props, status, where='', detail='', functions=(), terms=0, sites=0, valuations=0, effective=0, loops=0, rule='', outputs=(), time=0.0):
        self.id = id
        self.props = tuple(props)
        self.status = status
        self.where = where
        self.detail = detail
        self.functions = set(functions)
        self.terms = terms
        self.sites = sites
        self.valuations = valuations
        self.effective = effective
        self.loops = loops
        self.rule = rule
        self.outputs = list(outputs)
        self.time = time

    def row(self):
        d = dict(id=self.id, status=self.status, rule=self.rule)
        if self.where:
            d['where'] = self.where
        if self.detail:
            d['detail'] = self.detail[:1500]
        for k in ('terms', 'sites', 'valuations', 'effective', 'loops'):
            if getattr(self, k):
                d[k] = getattr(self, k)
        if self.functions:
            d['functions'] = sorted(self.functions)
        if self.outputs:
            d['outputs'] = self.outputs
        d['seconds'] = round(self.time, 3)
        return d


class Ctx:
    """shared per-run state: the parsed package, results computed once"""

    def __init__(self, root=None):
        from .project import Project, REPO
        self.root = root or REPO
        sp = os.path.join(VERIF, 'specs')
        extra = {'specs.' + f[:-3]: os.path.join(sp, f) for f in sorted(os.listdir(sp)) if f.endswith('.py') and f != '__init__.py'}
        self.P = Project(self.root, extra=extra)
        self.cache = {}

    def ob(self, ob):
        from .equiv import check
        if ob.id not in self.cache:
            t = time.time()
            try:
                r = check(self.P, ob)
                it = Item(ob.id, ob.props, dict(ok='ok', diff='violation', undecided='undecided')[r.status], r.where, r.detail, r.functions,
                          r.terms, r.callsites, r.valuations, r.effective, r.loops, rule='value graph of %s congruent to reference %s' % (ob.target, ob.spec),
                          outputs=r.outputs)
            except KeyError as e:
                it = Item(ob.id, ob.props, 'undecided', detail='no such definition: %s' % e)
            except RecursionError:
                it = Item(ob.id, ob.props, 'undecided', detail='analysis depth exceeded')
            except Exception as e:
                it = Item(ob.id, ob.props, 'undecided', detail='analysis failed: %r %s' % (e, traceback.format_exc(limit=-3)))
            it.time = time.time() - t
            self.cache[ob.id] = it
        return self.cache[ob.id]


def attributed(ctx, ob, suffix, props, rule, hit, miss, **restrict):
    """the part of an obligation one property is about: a deviation that is gone once the interpretations are restricted is a deviation in what the
    restriction leaves out; one that stays says nothing about that property"""
    it = ctx.ob(ob)
    res = Item(ob.id + suffix, props, it.status, where=it.where, functions=it.functions, terms=it.terms, sites=it.sites, valuations=it.valuations,
               effective=it.effective, loops=it.loops, time=it.time, rule=rule % ob.target)
    if it.status == 'violation':
        o = copy.copy(ob)
        o.id, o.props = ob.id + suffix + '_restricted', props
        for k, v in restrict.items():
            setattr(o, k, v)
        far = ctx.ob(o)
        if far.status == 'ok':
            res.detail = '%s: %s' % (hit, it.detail)
        else:
            res.status = 'undecided'
            res.detail = '%s (%s)' % (miss, it.detail[:200])
    elif it.status != 'ok':
        res.detail = it.detail
    return res


MODULES = ['rules.' + f[:-3] for f in sorted(os.listdir(os.path.join(VERIF, 'rules'))) if f.endswith('.py') and f != '__init__.py']


def items_for(ctx, prop):
    out = []
    for m in MODULES:
        mod = importlib.import_module(m)
        for props, fn in mod.RULES:
            if prop is None or prop in props:
                t = time.time()
                try:
                    got = fn(ctx)
                except Exception as e:
                    got = [Item(getattr(fn, '__name__', m), props, 'undecided', detail='rule failed: %r %s' % (e, traceback.format_exc(limit=-3)))]
                for it in got:
                    if not it.time:
                        it.time = (time.time() - t) / max(1, len(got))
                    if prop is None or prop in it.props:
                        out.append(it)
    return out


def known(prop):
    """listed findings of the property: (item id, text that must occur in the location or the detail, line)"""
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    r = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                f = dict(x.split('=', 1) for x in l.split(' | ')[0].split()[1:] if '=' in x)
                r.append((f.get('item'), f.get('at', ''), l))
    return r


LEVEL = 'other'
RULETEXT = ("Static analysis only: no function of the package is executed and no path condition is handed to a solver. Python and Cython sources are parsed "
            "from the current tree and every function is summarised as a value graph (one gated term per output, effect and loop-carried value, loops "
            "summarised symbolically by their step, never iterated). A property obligation compares that graph with the graph of a reference function "
            "of /verif/specs obtained by the same analysis; two graphs are equal when they are congruent under random interpretation of all opaque symbols "
            "(global value numbering by random interpretation). Structural rules (typestate over the CFG, call-site queries, constant tables, option "
            "provenance) decide the rest. An item is 'ok' when the rule holds on the construct, 'violation' when a specific construct breaks it, "
            "'undecided' when the construct is written in a way the rule cannot judge; undecided items are never reported as violations and count as not covered.")


def main(prop, root=None):
    t0 = time.time()
    sys.setrecursionlimit(30000)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ctx = Ctx(root)
    items = items_for(ctx, prop)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    kn = known(prop)
    bad = []
    for it in items:
        if it.status != 'violation':
            continue
        k = next((x for x in kn if x[0] == it.id and x[1] in (it.where + ' ' + it.detail)), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[2].split(' | ', 1)[-1]))
        else:
            bad.append(it)
    dec = [i for i in items if i.status != 'undecided']
    und = [i for i in items if i.status == 'undecided']
    funcs = sorted(set().union(*[i.functions for i in items]) if items else set())
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL, wall_s=round(time.time() - t0, 2), violations=len(bad),
              coverage=dict(explanation=RULETEXT, obligations=len(items), discharged=sum(1 for i in items if i.status == 'ok'), undecided=len(und),
                            functions_analysed=len(funcs), functions=funcs, call_sites=sum(i.sites for i in items), terms=sum(i.terms for i in items),
                            loops_summarised=sum(i.loops for i in items), interpretations=sum(i.valuations for i in items),
                            source_files=len(ctx.P.files), items=[i.row() for i in items]),
              assumptions=['reference functions in /verif/specs state the property', 'numpy, scipy, click and GDAL calls are opaque and behave as documented',
                           'analysed subset of Python/Cython semantics as described in DESIGN.md'])
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for i in items:
        if i.status == 'undecided':
            print('undecided %s: %s' % (i.id, i.detail[:300]))
    print('%s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed; %.1fs' % (
        prop, len(items), ev['coverage']['discharged'], len(und), len(bad), len(funcs), time.time() - t0))
    for n, it in enumerate(bad):
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.txt' % (prop, n))
        with open(rp, 'w') as f:
            f.write('property %s\nrule %s: %s\nat %s\n%s\n\nre-run: cd %s && %s check.py %s\n' % (prop, it.id, it.rule, it.where, it.detail, VERIF, sys.executable, prop))
        print('  %s at %s: %s' % (it.id, it.where, it.detail[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    if bad:
        return 1
    if not dec:
        print('nothing decided for %s' % prop)
        return 2
    return 0
