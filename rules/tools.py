"""Obligations on the tools: each process() as a value graph over the algorithms it calls, against specs/tools.py."""
from msa.equiv import Ob, omitted
from rules.algo import zerowise

S = 'specs.tools:'
L = 'malstroem.algorithms.label:'
FL = 'malstroem.algorithms.flow:'
FI = 'malstroem.algorithms.fill:'
N = 'malstroem.algorithms.net:'
# algorithms decided by their own obligations; opaque here
BND = {L + 'connected_components': dict(multi=2), L + 'label_stats': {}, L + 'label_count': {}, L + 'label_max_index': {}, L + 'label_min_index': {},
       L + 'keep_labels': {}, L + 'label_data': {}, L + 'set_label_to_value': {}, FL + 'watersheds_from_labels': dict(mut=('labelled',)),
       FL + 'terrain_flowdirection': {}, FL + 'accumulated_flow': {}, FI + 'fill_terrain': {}, FI + 'fill_terrain_no_flats': {},
       FI + 'minimum_safe_short_and_diag': dict(multi=2), N + 'pourpoint_network': {}, N + 'geometric_pourpoint_network': {},
       'malstroem.vector:vectorize_labels_file': {}}
READS = ('read', 'read_geojson_features')


def ob(id, t, s, args, props, dom=None, bnd=(), **kw):
    b = dict(BND)
    for x in bnd:
        b[x] = {}
    kw.setdefault('puremethods', READS)
    return Ob(id, t, S + s, args, dom or {}, boundary=b, props=props, **kw)


def A(s):
    return {x: 'any' for x in s.split()}


OBS = [
    ob('dem_tool', S + 'run_dem', 'dem_tool', A('input_dem output_filled output_flowdir output_depths output_accum'), ('C03', 'C04', 'C05', 'C07', 'C26', 'C20'), raises=True),
    ob('filter_bluespots', 'malstroem.bluespots:filterbluespots', 'passing', A('filterfunction cell_area raw_bluespot_stats'), ('C10',), dict(cell_area='num')),
    ob('assemble_pourpoints', 'malstroem.bluespots:assemble_pourpoints', 'pour_points', A('transform pp_pix bluespot_stats watershed_stats'), ('C12', 'C20'),
       dict(transform='num')),
    ob('bluespot_tool', S + 'run_bluespots', 'bluespot_tool',
       A('input_depths input_flowdir accept output_labels output_pourpoints output_watersheds input_accum input_dem output_labels_vector output_watersheds_vector'),
       ('C08', 'C10', 'C12'), bnd=('malstroem.bluespots:assemble_pourpoints',)),
    ob('stream_tool', S + 'run_streams', 'stream_tool', A('input_pourpoints input_bluespots input_flowdir output_nodes output_streams'), ('C13', 'C20')),
    ob('rain_event', S + 'run_events', 'node_events', A('nodes attribute'), ('C14',)),
    ob('network_index', S + 'run_index', 'node_index', A('nodes node'), ('C14',)),
    ob('node_event', S + 'run_node', 'node_event', A('nodes events node attribute'), ('C14',), mut=('events',)),
    ob('final_state', S + 'run_final', 'final_state', A('input_nodes attribute output'), ('C14',)),
    ob('uniform_rain', S + 'run_rain', 'rain_tool', A('input_nodes output attribute mm'), ('C15',), dict(mm='num')),
    ob('raster_rain', S + 'run_raster_rain', 'raster_rain_tool', A('input_nodes input_bluespots input_precip unit output attribute'), ('C15',), raises=True),
    ob('hyps_io', S + 'run_hyps', 'hyps_io', A('bluespots_reader dem_reader pourpoints_reader resolution hyps_writer'), ('C16',), dict(resolution='num', amax=(2, 3), seqmax=(2, 3)),
       bnd=('malstroem.hyps:bluespot_hypsometry_stats',), raises=True),
    ob('hyps_area', S + 'run_hyps_area', 'hyps_area', A('width height ids z'), ('C20',), dict(width='pos', height='pos')),
    ob('rain_area', S + 'run_rain_area', 'rain_area', A('width height ids water'), ('C20',), dict(width='pos', height='pos')),
    ob('filter_area', S + 'run_filter_area', 'filter_area', A('width height depths flowdir accum accept'), ('C20',), dict(width='pos', height='pos'),
       bnd=('malstroem.bluespots:assemble_pourpoints',)),
    ob('hyps_stats', 'malstroem.hyps:bluespot_hypsometry_stats', 'hyps_stats', A('bluespotlabels dem resolution labels_max background'), ('C16',), dict(resolution='pos')),
    ob('histogram_bins', 'malstroem.hyps:histogram_bins', 'bins_of', A('zmin zmax resolution'), ('C16',), dict(zmin='num', zmax='num', resolution='pos')),
    ob('flat_form', 'malstroem.hyps:hypsometrystats_from_flatdict', 'from_flat', A('d'), ('C16', 'C17')),
    ob('cumulative_volume', 'malstroem.hyps:cumulative_volume', 'cumulative_volume', A('h cell_area'), ('C16',)),
    ob('water_levels', S + 'run_levels', 'levels_io', A('finalvols_reader hyps_reader levels_writer'), ('C17',), raises=True),
    ob('extents_io', S + 'run_extents', 'extents_io',
       A('bluespot_labels_reader bluespot_water_levels_reader dem_reader approx_depths_writer approx_bluespot_labels_writer background_label'), ('C17',), raises=True),
    ob('extents', 'malstroem.approx:approx_bluespots', 'extents', A('bluespot_labels bluespot_water_levels dem background_label'), ('C17',), mut=('bluespot_labels',), raises=True),
]

for o in OBS:
    # inputs the reference accepts are accepted (the area obligations feed equal cells only)
    if not o.id.endswith('_area'):
        o.raises = True
RULES = [(o.props, (lambda ctx, o=o: [ctx.ob(o)])) for o in OBS]
RULES += [zerowise(o) for o in OBS if o.id in ('rain_event', 'network_index', 'node_event', 'final_state', 'extents_io', 'extents', 'stream_tool', 'assemble_pourpoints',
                                               'bluespot_tool', 'uniform_rain', 'raster_rain', 'hyps_stats')]
RULES += [(o.props, (lambda ctx, o=omitted(o, *ps): [ctx.ob(o)])) for o in OBS
          for ps in [dict(hyps_stats=('labels_max', 'background'), extents=('background_label',)).get(o.id)] if ps]
