"""Obligations on the raster algorithms: each function against its reference in specs/algo.py, compiled and pure versions alike."""
import ast

from msa.equiv import Ob, omitted
from msa.report import Item, attributed
from msa.terms import mk

S = 'specs.algo:'
A = 'malstroem.algorithms.'
CELL = mk('tuple', mk('sym', 'row', 'nat'), mk('sym', 'col', 'nat'))
DIRS = tuple(range(9))
GRID = dict(fromrow='int', torow='int', fromcol='int', tocol='int')


def registry(P):
    """accelerated attribute -> compiled function, as enable() assigns them"""
    reg = {}
    m = P.modules.get(A + 'speedups')
    if m is None:
        return reg
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Attribute) \
                and isinstance(n.targets[0].value, ast.Name) and isinstance(n.value.value, ast.Name):
            pure, comp = n.targets[0].value.id, n.value.value.id
            if comp in ('_fill', '_flow', '_label'):
                reg[pure + '.' + n.targets[0].attr] = A + 'speedups.' + comp + ':' + n.value.attr
    return reg


COMPILED = {'fill._fill_terrain': 'speedups._fill:_fill_terrain', 'fill._fill_terrain_no_flats': 'speedups._fill:_fill_terrain_no_flats',
            'flow._terrain_flow': 'speedups._flow:terrain_flow', 'flow.trace_accumulated_flow': 'speedups._flow:trace_accumulated_flow',
            'flow.accumulated_flow': 'speedups._flow:accumulated_flow', 'flow.assign_watersheds_upstream': 'speedups._flow:assign_watersheds_upstream',
            'label.label_stats': 'speedups._label:label_stats', 'label.label_min_index': 'speedups._label:label_min_index',
            'label.label_data': 'speedups._label:label_data'}


def alts(base, *suffixes):
    return tuple(base + x for x in suffixes)


# id, pure target, spec, args, domains, keyword arguments, properties
PURE = {
    'fill._fill_terrain': ('sweep', S + 'sweep', dict(dtm='any', filled='any', **GRID), dict(dtm='f32low', filled='f32'),
                           dict(mut=('filled',), alts=alts(S + 'sweep', '_cols', '_count', '_cols_count')), ('C03',)),
    'fill._fill_terrain_no_flats': ('sweep_no_flats', S + 'sweep_no_flats', dict(dtm='any', filled='any', short='pos', diag='pos', **GRID),
                                    dict(dtm='f32low', filled='f32'),
                                    dict(mut=('filled',), alts=alts(S + 'sweep_no_flats', '_cols', '_count', '_cols_count', '_typed', '_typed_cols',
                                                                    '_typed_count', '_typed_cols_count')), ('C04',)),
    'flow._terrain_flow': ('d8', S + 'flow_interior', dict(terrain='any'), dict(terrain='nz'), {}, ('C05',)),
    'flow.trace_accumulated_flow': ('trace_accum', S + 'trace_accum', dict(flowdir='any', accum='any', cell=CELL),
                                    dict(flowdir=DIRS, cell='nat', accum=(0, 1, 2, 3)), dict(mut=('accum',)), ('C07',)),
    'flow.accumulated_flow': ('accumulate', S + 'accumulate_from_leaves', dict(flowdir='any'), dict(flowdir=DIRS), {}, ('C07',)),
    'flow.assign_watersheds_upstream': ('watershed', S + 'watershed', dict(flowdir='any', labelled='any', cell=CELL, unassigned='any'),
                                        dict(flowdir=DIRS, labelled=(0, 1, 2), unassigned=(0, 1, 2), cell='nat'), dict(mut=('labelled',)), ('C08',)),
    'label.label_stats': ('stats', S + 'stats', dict(data='any', labelled='any', nlabels='any'), dict(data='f32', labelled='nat', nlabels=(None, 5, 3)), {}, ('C09',)),
    'label.label_min_index': ('min_index', S + 'min_index', dict(data='any', labelled='any', nlabels='any'),
                              dict(data='f32', labelled='nat', nlabels=(None, 5, 3)), {}, ('C09',)),
    'label.label_data': ('collect', S + 'collect', dict(data='any', labelled='any', nlabels='any', background='any'),
                         dict(data='f32', labelled='nat', nlabels=(None, 5, 3), background='nat'), dict(alts=(S + 'collect_arrays', S + 'collect_rows')), ('C09',)),
}
CSPEC = {'flow.trace_accumulated_flow': S + 'trace_accum_codes', 'flow.accumulated_flow': S + 'accumulate_from_all_codes',
         'flow.assign_watersheds_upstream': S + 'watershed_records'}


# which of several equally steep neighbours is chosen is free (C05), but both versions choose the same one (C01)
TIES = {'flow._terrain_flow': dict(terrain='num')}


def pure_ob(name, ties=False):
    id, spec, args, dom, kw, props = PURE[name]
    m, f = name.split('.')
    kw = dict(kw)
    if ties and name in TIES:
        id, dom, props = id + '_ties', TIES[name], ('C01',)
    return Ob(id, A + m + ':' + f, spec, args, dom, props=props, alts=kw.pop('alts', ()), **kw)


def compiled_ob(name, P, ties=False):
    id, spec, args, dom, kw, props = PURE[name]
    kw = dict(kw)
    if ties and name in TIES:
        id, dom, props = id + '_ties', TIES[name], ('C01',)
    ref = registry(P).get(name) or A + COMPILED[name]
    if name in CSPEC:
        return Ob(id + '_compiled', ref, CSPEC[name], args, dom, props=props, alts=(spec,), **kw)
    return Ob(id + '_compiled', ref, spec, args, dom, props=props, alts=kw.pop('alts', ()), **kw)


OTHERS = [
    Ob('drop_factor', S + 'run_drop_factor', S + 'at_least_one', {}, props=('C04',)),
    Ob('minimum_safe', A + 'fill:minimum_safe_short_and_diag', S + 'minimum_safe', dict(dem='any'), props=('C04',)),
    Ob('initial_filled', A + 'fill:_initialize_filled', S + 'initial_filled', dict(dtm='any', dtype='any'), props=('C03', 'C04')),
    Ob('edges', A + 'flow:set_edges_flow_outward', S + 'edges_outward', dict(flowdir='any'), mut=('flowdir',), props=('C05',)),
    Ob('flowdirection', A + 'flow:terrain_flowdirection', S + 'flowdirection', dict(terrain='any', edges_flow_outward='bool'), dict(terrain='nz'), props=('C05',)),
    Ob('delta', A + 'flow:direction_to_delta', S + 'delta', dict(direction=(None,) + tuple(range(10))), raises=True, props=('C05',)),
    Ob('upstream', A + 'flow:upstream_cells', S + 'upstream', dict(flowdir='any', cell=CELL), dict(flowdir=DIRS, cell='nat'), props=('C05', 'C06')),
    Ob('downstream', A + 'flow:trace_downstream', S + 'downstream_cells', dict(flowdir='any', cell=CELL), dict(flowdir=DIRS, cell='nat'), props=('C06', 'C13')),
    Ob('watersheds', A + 'flow:watersheds_from_labels', S + 'watersheds', dict(flowdir='any', labelled='any', unassigned='any'),
       dict(flowdir=DIRS, labelled=(0, 1, 2), unassigned=(0, 1, 2)), mut=('labelled',), props=('C08',)),
    Ob('components', A + 'label:connected_components', S + 'components', dict(data='any'), props=('C10',)),
    Ob('max_index', A + 'label:label_max_index', S + 'max_index', dict(data='any', labelled='any', nlabels='any'),
       dict(data='f32', labelled='nat', nlabels=(None, 5, 3)), props=('C09',)),
    Ob('keep', A + 'label:keep_labels', S + 'keep', dict(labelled='any', keep_label='any', background='any'), props=('C10',)),
    Ob('count', A + 'label:label_count', S + 'count', dict(labelled='any'), props=('C09',)),
    Ob('values_of_labels', A + 'label:set_label_to_value', S + 'values_of_labels', dict(labelled='any', bluespot_values='any'), props=('C17',)),
    Ob('next_label', A + 'net:next_downstream_label', S + 'next_label', dict(flowdir='any', labeled='any', cell=CELL, background_label='any', geometry='bool'),
       dict(flowdir=DIRS, labeled='nat', cell='nat', background_label=(None, 0, 1, 2)), props=('C13',)),
    Ob('plain_network', A + 'net:pourpoint_network', S + 'plain_network', dict(flowdir='any', labeled='any', pour_points='any', background_label='any'),
       dict(flowdir=DIRS, labeled='nat', cell='nat', background_label=(None, 0, 1, 2)), props=('C13',)),
    Ob('junction_network', A + 'net:geometric_pourpoint_network', S + 'junction_network',
       dict(flowdir='any', labeled='any', pour_points='any', background_label='any'),
       dict(flowdir=DIRS, labeled='nat', cell='nat', background_label=(None, 0, 1, 2)), props=('C13',)),
    Ob('untangle', A + 'net:_untangle', S + 'untangle', dict(nodes='any', next_available_label='nat'), props=('C13',)),
    Ob('flow_groups', A + 'net:_split_into_common_flow_groups', S + 'common_flow_groups', dict(nodes='any'), props=('C13',)),
    Ob('insert_junction', A + 'net:_prune_common_flow', S + 'insert_junction', dict(nodes='any', new_label_id='nat'), mut=('nodes',), props=('C13',)),
]


def pair(name):
    """compiled and pure agree: both equal their references, or one of them does not (C01); if neither does, nothing is concluded"""
    def rule(ctx):
        p, c = ctx.ob(pure_ob(name, True)), ctx.ob(compiled_ob(name, ctx.P, True))
        it = Item('agree_' + PURE[name][0], ('C01',), 'ok', functions=p.functions | c.functions, terms=p.terms + c.terms, sites=p.sites + c.sites,
                  valuations=p.valuations + c.valuations, effective=min(p.effective, c.effective), loops=p.loops + c.loops,
                  rule='%s and its compiled replacement are congruent to references of the same result' % name, time=p.time + c.time)
        st = (p.status, c.status)
        if st == ('ok', 'ok'):
            return [it]
        if st in (('ok', 'violation'), ('violation', 'ok')):
            x, y = (c, 'compiled') if st[1] == 'violation' else (p, 'pure')
            it.status, it.where = 'violation', x.where
            it.detail = 'the %s version of %s deviates from the other: %s' % (y, name, x.detail)
            return [it]
        it.status = 'undecided'
        it.detail = 'pure: %s %s; compiled: %s %s' % (p.status, p.detail[:200], c.status, c.detail[:200])
        return [it]
    rule.__name__ = 'pair_' + name
    return rule


def edgewise(obs):
    """following directions at the edges and without a direction (C06): a kernel that deviates from its reference, but not where every cell met
    has a direction and all its neighbours, deviates because of one of the two"""
    def rule(ctx):
        return [attributed(ctx, ob, '_at_edges', ('C06',), '%s treats cells without direction and neighbours outside the raster like its reference',
                           'deviates only at edges or at cells without direction',
                           'deviates from its reference also away from the edges, so nothing is concluded about edges',
                           inner=True, domains=dict(ob.domains, flowdir=tuple(range(8)))) for ob in obs(ctx)]
    return rule


def zerowise(ob):
    """zero is a value (C24): a deviation that needs a number to be 0"""
    def rule(ctx):
        return [attributed(ctx, ob, '_at_zero', ('C24',), '%s treats 0 like any other number, as its reference does', 'deviates only when a number is 0',
                           'deviates from its reference also without zeros, so nothing is concluded about zero', nonzero=True)]
    return ('C24',), rule


def single(make, props):
    def rule(ctx):
        it = ctx.ob(make(ctx))
        return [it]
    return props, rule


RULES = []
for n in PURE:
    RULES.append((('C01',), pair(n)))
    RULES.append(single(lambda ctx, n=n: pure_ob(n), PURE[n][5]))
    RULES.append(single(lambda ctx, n=n: compiled_ob(n, ctx.P), PURE[n][5]))
for n in ('flow.trace_accumulated_flow', 'flow.accumulated_flow', 'flow.assign_watersheds_upstream'):
    RULES.append((('C06',), edgewise(lambda ctx, n=n: (pure_ob(n), compiled_ob(n, ctx.P)))))
RULES.append((('C06',), edgewise(lambda ctx: [o for o in OTHERS if o.id in ('next_label', 'plain_network', 'junction_network', 'watersheds')])))
for o in OTHERS:
    if o.id in ('next_label', 'plain_network', 'junction_network', 'untangle', 'flow_groups', 'insert_junction'):
        RULES.append(zerowise(o))
for o in OTHERS:
    RULES.append(single(lambda ctx, o=o: o, o.props))
for n, ps in (('label.label_stats', ('nlabels',)), ('label.label_min_index', ('nlabels',)), ('label.label_data', ('nlabels', 'background'))):
    if n in PURE:
        RULES.append(single(lambda ctx, n=n, ps=ps: omitted(pure_ob(n), *ps), PURE[n][5]))
        RULES.append(single(lambda ctx, n=n, ps=ps: omitted(compiled_ob(n, ctx.P), *ps), PURE[n][5]))
for o in OTHERS:
    ps = dict(flowdirection=('edges_flow_outward',), max_index=('nlabels',), keep=('background',), next_label=('background_label', 'geometry'),
              plain_network=('background_label',), junction_network=('background_label',)).get(o.id)
    if ps:
        RULES.append(single(lambda ctx, o=o, ps=ps: omitted(o, *ps), o.props))
