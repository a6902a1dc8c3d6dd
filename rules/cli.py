"""Obligations on the commands: every process_* function against specs/cli.py, with readers, writers and tools modelled over a symbolic file store."""
from msa.equiv import Ob
from rules.algo import zerowise
from rules.tools import BND

S = 'specs.cli:'
X = 'malstroem.scripts.'
MODELS = {'malstroem.io:' + c: S + c for c in ('RasterReader', 'RasterWriter', 'VectorReader', 'VectorWriter')}
MODELS.update({'malstroem.streams:StreamTool': S + 'StreamTool', 'malstroem.rain:SimpleVolumeTool': S + 'SimpleVolumeTool',
               'malstroem.rain:RasterVolumeTool': S + 'RasterVolumeTool', 'malstroem.network:FinalStateCalculator': S + 'FinalStateCalculator'})
FMODELS = {'malstroem.hyps:bluespot_hypsometry_io': S + 'bluespot_hypsometry_io', 'malstroem.approx:approx_water_level_io': S + 'approx_water_level_io',
           'malstroem.approx:approx_bluespots_io': S + 'approx_bluespots_io', 'malstroem.vector:vectorize_labels_file': S + 'vectorize_labels_file',
           'malstroem.vector:vectorize_labels_file_io': S + 'vectorize_labels_file_io'}
B = {k: v for k, v in BND.items() if k not in FMODELS}
B.update({X + '_utils:parse_filter': dict(scalar=True), 'malstroem.bluespots:assemble_pourpoints': {}})

# command -> function, options (in the order of the reference), and properties beyond C21
COMMANDS = {
    'filled': ('dem:process_filled', 'dem out', ('C20', 'C22', 'C26')),
    'depths': ('dem:process_depths', 'dem filled out', ('C20', 'C22', 'C26')),
    'flowdir': ('dem:process_flowdir', 'dem out', ('C20', 'C22', 'C26')),
    'accum': ('dem:process_accum', 'flowdir out', ('C20', 'C22')),
    'bspots': ('bluespot:process_bspots', 'depths out filter', ('C10', 'C20', 'C22')),
    'wsheds': ('bluespot:process_wsheds', 'bluespots flowdir out', ('C08', 'C20', 'C22')),
    'pourpts': ('bluespot:process_pourpoints', 'bluespots depths watersheds dem accum out format layername dsco lco', ('C12', 'C20', 'C22', 'C26')),
    'polys': ('bluespot:process_polys', 'raster out format layername dsco lco', ()),
    'network': ('stream:process_network', 'bluespots flowdir pourpoints pourpoints_layer out out_nodes_layer out_streams_layer format dsco lco', ('C20', 'C22')),
    'hyps': ('hyps:process_hypsometry', 'bluespots dem pourpoints pourpoints_layer zresolution out out_hyps_layer format dsco lco', ('C20', 'C22', 'C26')),
    'initvolumes': ('initvolume:process_volumes', 'nodes nodes_layer mm pr pr_unit bluespots out out_layer out_attribute format dsco lco', ('C15', 'C20', 'C22')),
    'finalvolumes': ('finalstate:process_net', 'inputvolumes inputvolumes_layer attribute out out_layer format dsco lco', ('C20', 'C22')),
    'finallevels': ('finalstate:process_finallevels', 'finalvols finalvols_layer hyps hyps_layer out out_layer format dsco lco', ('C20', 'C22')),
    'finalbluespots': ('finalstate:process_bluespots', 'bluespots dem finallevels finallevels_layer out_depths out_bluespots', ('C20', 'C22', 'C26')),
    'complete': ('complete:process_all', 'dem outdir accum filter mm zresolution vector', ('C20', 'C22', 'C23', 'C26')),
}
DOM = dict(mm=(None, 0.0, 2.5, 11), pr=(None, '', 'a', 'b'), bluespots='any', accum='any', vector='bool')
STR = ('format', 'out', 'layername', 'out_layer', 'out_nodes_layer', 'out_streams_layer', 'out_hyps_layer', 'out_attribute', 'out_depths', 'out_bluespots')


def projected(kind):
    """models that record only one aspect of what is written"""
    m = dict(MODELS, **FMODELS)
    for c in ('RasterWriter', 'VectorWriter'):
        m['malstroem.io:' + c] = m[S + c] = S + kind.capitalize() + c
    m['malstroem.vector:vectorize_labels_file_io'] = m[S + 'vectorize_labels_file_io'] = S + kind + '_vectorize_labels_file_io'
    return m


def ob(c, kind=None):
    f, args, props = COMMANDS[c]
    if kind:
        props = dict(georef=('C20',), path=('C23',))[kind]
    else:
        props = ('C21',) + tuple(p for p in props if p not in ('C20', 'C23'))
    a = {x: 'str' if x in STR else 'any' for x in args.split()}
    if c == 'complete':
        a['accum'] = a['vector'] = 'bool'
    if c == 'initvolumes':
        a['mm'] = DOM['mm']
    return Ob('command_' + c + ('_' + kind if kind else ''), X + f, S + c, a, boundary=B, models=projected(kind) if kind else dict(MODELS, **FMODELS),
              raises=kind != 'georef', ret=False, props=props)


NOFLATS = 'malstroem.algorithms.fill:fill_terrain_no_flats'


def drops():
    m = dict(MODELS, **FMODELS)
    for c in ('RasterWriter', 'VectorWriter'):
        m['malstroem.io:' + c] = m[S + c] = S + 'Drops' + c
    m[NOFLATS] = S + 'drops_no_flats'
    return m


def data():
    m = dict(MODELS, **FMODELS)
    for c in ('RasterReader', 'RasterWriter', 'VectorWriter'):
        m['malstroem.io:' + c] = m[S + c] = S + 'Data' + c
    m[NOFLATS] = S + 'data_no_flats'
    return m


def part(c, kind, props):
    f, args, _ = COMMANDS[c]
    a = {x: 'str' if x in STR else 'any' for x in args.split()}
    b = {k: v for k, v in B.items() if k != NOFLATS}
    return Ob('command_%s_%s' % (c, kind), X + f, S + c, a, boundary=b, models=drops() if kind == 'drops' else data(), ret=False, props=props)


def tool(id, args):
    return Ob(id, S + 'run_' + id, S + id, {x: 'any' for x in args.split()}, boundary={k: v for k, v in B.items() if k != NOFLATS},
              models={NOFLATS: S + 'drops_no_flats'}, ret=False, props=('C04',))


OBS = [ob(c) for c in COMMANDS] + [ob(c, 'georef') for c in COMMANDS if 'C20' in COMMANDS[c][2] or c == 'polys'] + [ob('complete', 'path')]
OBS += [part('flowdir', 'drops', ('C04',)), part('pourpts', 'drops', ('C04',)), tool('dem_drops', 'dem'), tool('bluespot_drops', 'depths flowdir dem')]
OBS += [part('filled', 'data', ('C03',)), part('flowdir', 'data', ('C05',)), part('accum', 'data', ('C07',)), part('wsheds', 'data', ('C08',)),
        part('network', 'data', ('C13',)), part('finalvolumes', 'data', ('C14',)), part('hyps', 'data', ('C16',)), part('finallevels', 'data', ('C17',)),
        part('finalbluespots', 'data', ('C17',))]
RULES = [(o.props, (lambda ctx, o=o: [ctx.ob(o)])) for o in OBS]
RULES += [zerowise(o) for o in OBS if o.id in ('command_initvolumes', 'command_complete', 'command_hyps', 'command_pourpts')]
