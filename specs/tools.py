"""Reference computations of the tool layer: analysed, never executed. `run_*` compose the package's own tools."""
from collections import defaultdict, deque

import numpy as np

from malstroem import approx, bluespots, dem, hyps, network, rain, streams, vector
from malstroem.algorithms import dtypes, fill, flow, label, net
from malstroem.rain import Unit
from malstroem.scripts import _utils

# ---------------------------------------------------------------------------------------------- dem


def run_dem(input_dem, output_filled, output_flowdir, output_depths, output_accum):
    dem.DemTool(input_dem, output_filled, output_flowdir, output_depths, output_accum).process()


def dem_tool(input_dem, output_filled, output_flowdir, output_depths, output_accum):
    z = input_dem.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
    t = input_dem.transform
    assert abs(abs(t[1]) - abs(t[5])) < 0.01 * abs(t[1])
    filled = fill.fill_terrain(z)
    output_filled.write(filled)
    output_depths.write(filled - z)
    short, diag = fill.minimum_safe_short_and_diag(z)
    directions = flow.terrain_flowdirection(fill.fill_terrain_no_flats(z, short, diag), True)
    output_flowdir.write(directions)
    if output_accum:
        output_accum.write(flow.accumulated_flow(directions))


# ---------------------------------------------------------------------------------------------- bluespots (C10, C12)


def cell_size(transform):
    return abs(transform[1]) * abs(transform[5])


def passing(accept, cell_area, stats):
    keep = []
    for s in stats:
        keep.append(accept(dict(min=s['min'], max=s['max'], sum=s['sum'], count=s['count'], volume=s['sum'] * cell_area, area=s['count'] * cell_area)))
    return keep


def cell_centre(cell, transform):
    return vector.gdal.ApplyGeoTransform(transform, cell[1] + 0.5, cell[0] + 0.5)


def pour_points(transform, cells, stats, watershed_cells):
    area = cell_size(transform)
    points = []
    for i, (cell, s, n) in enumerate(zip(cells, stats, watershed_cells)):
        p = dict()
        p['bspot_id'] = i
        p['cell_row'] = int(cell['row'])
        p['cell_col'] = int(cell['col'])
        p['bspot_dmax'] = float(s['max'])
        p['bspot_area'] = s['count'] * area
        p['bspot_vol'] = s['sum'] * area
        p['wshed_area'] = n * area
        p['bspot_fumm'] = 1000 * (s['sum'] * area) / (n * area)
        x, y = cell_centre((cell['row'], cell['col']), transform)
        points.append(dict(id=i, geometry=dict(type='Point', coordinates=[x, y]), properties=p, type='Feature'))
    return points


def run_bluespots(input_depths, input_flowdir, accept, output_labels, output_pourpoints, output_watersheds, input_accum, input_dem,
                  output_labels_vector, output_watersheds_vector):
    bluespots.BluespotTool(input_depths, input_flowdir, accept, output_labels, output_pourpoints, output_watersheds, input_accum, input_dem,
                           output_labels_vector, output_watersheds_vector).process()


def bluespot_tool(input_depths, input_flowdir, accept, output_labels, output_pourpoints, output_watersheds, input_accum, input_dem,
                  output_labels_vector, output_watersheds_vector):
    assert input_accum or input_dem
    t = input_depths.transform
    assert abs(abs(t[1]) - abs(t[5])) < 0.01 * abs(t[1])
    depths = input_depths.read()
    labels, n = label.connected_components(depths)
    stats = label.label_stats(depths, labels)
    if accept:
        labels, n = label.connected_components(label.keep_labels(labels, passing(accept, cell_size(t), stats)))
        stats = label.label_stats(depths, labels)
    output_labels.write(labels)
    if output_labels_vector:
        output_labels_vector.write_geojson_features(vector.vectorize_labels_file(output_labels.filepath))
    directions = input_flowdir.read()
    watersheds = np.copy(labels)
    flow.watersheds_from_labels(directions, watersheds, 0)
    cells = label.label_count(watersheds)
    if output_watersheds:
        output_watersheds.write(watersheds)
    if output_watersheds_vector:
        output_watersheds_vector.write_geojson_features(vector.vectorize_labels_file(output_watersheds.filepath))
    if input_accum:
        where = label.label_max_index(input_accum.read(), labels, n)
    else:
        z = input_dem.read()
        short, diag = fill.minimum_safe_short_and_diag(z)
        where = label.label_min_index(fill.fill_terrain_no_flats(z, short, diag), labels, n)
    points = bluespots.assemble_pourpoints(t, where, stats, cells)
    output_pourpoints.write_geojson_features(dict(type='FeatureCollection', features=points))


# ---------------------------------------------------------------------------------------------- streams (C13)


def run_streams(input_pourpoints, input_bluespots, input_flowdir, output_nodes, output_streams):
    streams.StreamTool(input_pourpoints, input_bluespots, input_flowdir, output_nodes, output_streams).process()


def stream_tool(input_pourpoints, input_bluespots, input_flowdir, output_nodes, output_streams):
    t = input_flowdir.transform
    directions = input_flowdir.read()
    labels = input_bluespots.read()
    points = input_pourpoints.read_geojson_features()
    if output_streams is not None:
        nodes = net.geometric_pourpoint_network(directions, labels, points, 0)
    else:
        nodes = net.pourpoint_network(directions, labels, points, 0)
    by_id = {p['properties']['bspot_id']: p for p in points}
    features = []
    for n in nodes:
        p = by_id.get(n['id'], None)
        props = dict(nodeid=n['id'], dstrnodeid=n['downstream_id'], nodetype=n['nodetype'], cell_row=n['pix'][0], cell_col=n['pix'][1],
                     bspot_id=None, bspot_area=0.0, bspot_vol=0.0, wshed_area=0.0)
        if p:
            props['bspot_id'] = p['properties']['bspot_id']
            props['bspot_area'] = p['properties']['bspot_area']
            props['bspot_vol'] = p['properties']['bspot_vol']
            props['wshed_area'] = p['properties']['wshed_area']
        x, y = cell_centre(n['pix'], t)
        features.append(dict(id=n['id'], geometry=dict(type='Point', coordinates=[x, y]), properties=props, type='Feature'))
    output_nodes.write_geojson_features(features)
    if output_streams:
        lines = []
        for n in nodes:
            if n['geometry']:
                coords = [cell_centre(c, t) for c in n['geometry']]
                coords = [(xy[0], xy[1]) for xy in coords]
                lines.append(dict(id=n['id'], geometry=dict(type='LineString', coordinates=coords),
                                  properties=dict(nodeid=n['id'], dstrnodeid=n['downstream_id']), type='Feature'))
        output_streams.write_geojson_features(lines)


# ---------------------------------------------------------------------------------------------- network (C14)


def run_final(input_nodes, attribute, output):
    network.FinalStateCalculator(input_nodes, attribute, output).process()


def final_state(input_nodes, attribute, output):
    features = {f['properties']['nodeid']: f for f in input_nodes.read_geojson_features()}
    nodes = [f['properties'] for f in features.values()]
    events = node_events(nodes, attribute)
    for e in events:
        f = features[e['nodeid']]
        f['properties']['spillv'] = e['spillv']
        f['properties']['v'] = e['v']
        f['properties']['pctv'] = e['pctv']
    output.write_geojson_features(features.values())


def balance(node, inflow, attribute):
    local = float(node[attribute])
    capacity = float(node['bspot_vol'])
    total = local + inflow
    stored = min(total, capacity)
    spilled = max(0, total - capacity)
    e = dict(nodeid=node['nodeid'])
    e[attribute] = local
    e['spillv'] = spilled
    e['v'] = stored
    e['pctv'] = None if not capacity else 100.0 * stored / capacity
    return e


def run_events(nodes, attribute):
    n = network.Network()
    n.add_nodes(nodes)
    return n.rain_event(attribute)


def run_index(nodes, node):
    n = network.Network()
    n.add_nodes(nodes)
    return n.nodes, n.root_nodes, n.nodes_index, n.upstream_tree[node]


def node_index(nodes, node):
    seq = []
    roots = []
    by_id = {}
    upstream = defaultdict(list)
    for n in nodes:
        seq.append(n)
        by_id[n['nodeid']] = n
        upstream[n['dstrnodeid']].append(n['nodeid'])
        if n['dstrnodeid'] is None:
            roots.append(n['nodeid'])
    return seq, roots, by_id, upstream[node]


def run_node(nodes, events, node, attribute):
    n = network.Network()
    n.add_nodes(nodes)
    n._node_rain_values = events
    n._calc_node(node, attribute)
    return n._node_rain_values[node]


def node_event(nodes, events, node, attribute):
    by_id = {}
    upstream = defaultdict(list)
    for n in nodes:
        by_id[n['nodeid']] = n
        upstream[n['dstrnodeid']].append(n['nodeid'])
    inflow = 0.0
    up = upstream[node]
    if up:
        inflow = sum([events[u]['spillv'] for u in up])
    events[node] = balance(by_id[node], inflow, attribute)
    return events[node]


def node_events(nodes, attribute):
    by_id = {}
    upstream = defaultdict(list)
    outlets = []
    for n in nodes:
        by_id[n['nodeid']] = n
        upstream[n['dstrnodeid']].append(n['nodeid'])
        if n['dstrnodeid'] is None:
            outlets.append(n['nodeid'])
    events = {}
    for o in outlets:
        order = deque()
        todo = deque([o])
        while todo:
            i = todo.pop()
            order.append(i)
            todo.extend(upstream[i])
        while order:
            i = order.pop()
            inflow = 0.0
            up = upstream[i]
            if up:
                inflow = sum([events[u]['spillv'] for u in up])
            events[i] = balance(by_id[i], inflow, attribute)
    return list(events.values())


# ---------------------------------------------------------------------------------------------- rain (C15)


def run_rain(input_nodes, output, attribute, mm):
    rain.SimpleVolumeTool(input_nodes, output, attribute, mm).process()


def rain_tool(input_nodes, output, attribute, mm):
    nodes = input_nodes.read_geojson_features()
    for n in nodes:
        n['properties'][str(attribute)] = float(n['properties']['wshed_area']) * float(mm) * 0.001
    output.write_geojson_features(nodes)


def run_raster_rain(input_nodes, input_bluespots, input_precip, unit, output, attribute):
    rain.RasterVolumeTool(input_nodes, input_bluespots, input_precip, unit, output, attribute).process()


def raster_rain_tool(input_nodes, input_bluespots, input_precip, unit, output, attribute):
    nodes = input_nodes.read_geojson_features()
    ids = input_bluespots.read()
    water = input_precip.read()
    assert ids.shape == water.shape
    sums = label.label_stats(water, ids)['sum']
    if unit is Unit.mm:
        m3 = cell_size(input_bluespots.transform) * 1e-3
    elif unit is Unit.l:
        m3 = 1e-3
    elif unit is Unit.m3:
        m3 = 1
    else:
        raise NotImplementedError('unit')
    volumes = sums * m3
    for n in nodes:
        i = n['properties']['nodeid']
        v = 0
        if i <= len(volumes) - 1:
            v = volumes[i]
        n['properties'][str(attribute)] = v
    output.write_geojson_features(nodes)


# ---------------------------------------------------------------------------------------------- hypsometry (C16)


def run_hyps(bluespots_reader, dem_reader, pourpoints_reader, resolution, hyps_writer):
    hyps.bluespot_hypsometry_io(bluespots_reader, dem_reader, pourpoints_reader, resolution, hyps_writer)


def hyps_io(bluespots_reader, dem_reader, pourpoints_reader, resolution, hyps_writer):
    resolution = float(resolution)
    assert resolution > 0
    assert bluespots_reader.shape == dem_reader.shape
    for a, b in zip(bluespots_reader.resolution, dem_reader.resolution):
        np.testing.assert_almost_equal(a, b)
    labels = bluespots_reader.read()
    z = dem_reader.read()
    points = {p['properties']['bspot_id']: p for p in pourpoints_reader.read_geojson_features()}
    top = np.max(labels)
    assert top == max([p['properties']['bspot_id'] for p in points.values()])
    for i, h in hyps.bluespot_hypsometry_stats(labels, z, resolution, top, 0):
        p = points[i]['properties']
        p['hist_counts'] = '|'.join([str(c) for c in h.zhistogram.counts])
        p['hist_num_bins'] = h.zhistogram.bins.num_bins
        p['hist_lower_bound'] = h.zhistogram.bins.lower_bound
        p['hist_upper_bound'] = h.zhistogram.bins.upper_bound
        p['hist_resolution'] = h.zhistogram.bins.resolution
        p['zmin'] = h.zmin
        p['zmax'] = h.zmax
        p['cell_area'] = bluespots_reader.resolution[0] * bluespots_reader.resolution[1]
    hyps_writer.write_geojson_features(points.values())


def hyps_stats(bluespotlabels, dem, resolution, labels_max=None, background=0):
    if labels_max is None:
        labels_max = np.max(bluespotlabels)
    stats = label.label_stats(dem, bluespotlabels, labels_max)
    values = label.label_data(dem, bluespotlabels, labels_max, background)
    for i, z in enumerate(values):
        if i == background:
            counts = []
            bins = hyps.HistogramBinsInfo(0, 0, 0, -1)
        else:
            bins = bins_of(stats[i]['min'], stats[i]['max'], resolution)
            counts = np.histogram(z, bins.num_bins, (bins.lower_bound, bins.upper_bound))[0]
        yield i, hyps.HypsometryStats(hyps.Histogram(counts, bins), stats[i]['min'], stats[i]['max'])


def bins_of(zmin, zmax, resolution):
    first = int(np.floor(zmin * (1 / resolution)))
    last = int(np.floor(zmax * (1 / resolution)))
    n = last - first + 1
    return hyps.HistogramBinsInfo(n, first * resolution, first * resolution + n * resolution, resolution)


def run_roundtrip(h):
    return hyps.hypsometrystats_from_flatdict(hyps._hypsometrystats_to_flatdict(h))


def from_flat(d):
    n = int(d['hist_num_bins'])
    bins = hyps.HistogramBinsInfo(n, float(d['hist_lower_bound']), float(d['hist_upper_bound']), float(d['hist_resolution']))
    counts = [int(c) for c in d['hist_counts'].split('|')] if n > 0 else []
    return hyps.HypsometryStats(hyps.Histogram(counts, bins), float(d['zmin']), float(d['zmax']))


def cumulative_volume(h, cell_area):
    steps = cell_area * h.bins.resolution * np.cumsum(h.counts, dtype=np.float64)
    return np.cumsum(steps - steps[0])


# ---------------------------------------------------------------------------------------------- levels (C17)


def run_levels(finalvols_reader, hyps_reader, levels_writer):
    approx.approx_water_level_io(finalvols_reader, hyps_reader, levels_writer)


def levels_io(finalvols_reader, hyps_reader, levels_writer):
    by_id = {int(f['properties']['bspot_id']): f for f in hyps_reader.read_geojson_features()}
    features = [f for f in finalvols_reader.read_geojson_features() if f['properties']['nodetype'] == 'pourpoint']
    for f in features:
        p = f['properties']
        v = float(p['v'])
        q = by_id[int(p['bspot_id'])]['properties']
        h = hyps.hypsometrystats_from_flatdict(q)
        capacity = float(q['bspot_vol'])
        bins = h.zhistogram.bins
        if capacity == 0 or v / capacity > 0.9999:
            z = h.zmin + float(q['bspot_dmax'])
        else:
            cells_below = np.concatenate(([0.0], np.cumsum(h.zhistogram.counts, dtype=np.float64)[:-1]))
            volumes = np.cumsum(float(q['cell_area']) * bins.resolution * cells_below)
            centres = np.arange(0, bins.num_bins) * bins.resolution + bins.lower_bound + bins.resolution * 0.5
            z = np.interp([v], np.concatenate(([0.0], volumes[1:-1], [capacity])), np.concatenate(([h.zmin], centres[1:-1], [h.zmax])))[0]
        p['approx_z'] = float(z)
        p['approx_dmax'] = float(z) - h.zmin
    levels_writer.write_geojson_features(features)


def run_extents(bluespot_labels_reader, bluespot_water_levels_reader, dem_reader, approx_depths_writer, approx_bluespot_labels_writer, background_label):
    approx.approx_bluespots_io(bluespot_labels_reader, bluespot_water_levels_reader, dem_reader, approx_depths_writer, approx_bluespot_labels_writer,
                               background_label)


def levels_list(levels, background):
    top = max([k for k in levels.keys()])
    values = []
    for i in range(top + 1):
        if i == background:
            values.append(-999.0)
        else:
            values.append(levels[i])
    return values


def extents_io(bluespot_labels_reader, bluespot_water_levels_reader, dem_reader, approx_depths_writer, approx_bluespot_labels_writer, background_label):
    if not approx_depths_writer and not approx_bluespot_labels_writer:
        raise Exception('no output')
    levels = {int(f['properties']['bspot_id']): float(f['properties']['approx_z']) for f in bluespot_water_levels_reader.read_geojson_features()
              if f['properties']['nodetype'] == 'pourpoint'}
    depths = label.set_label_to_value(bluespot_labels_reader.read(), levels_list(levels, background_label)) - dem_reader.read()
    below = depths < 0
    depths[below] = 0
    if approx_depths_writer:
        approx_depths_writer.write(depths)
    if approx_bluespot_labels_writer:
        labels = bluespot_labels_reader.read()
        labels[below] = background_label
        approx_bluespot_labels_writer.write(labels)


def extents(bluespot_labels, bluespot_water_levels, dem, background_label=0):
    depths = label.set_label_to_value(bluespot_labels, levels_list(bluespot_water_levels, background_label)) - dem
    below = depths < 0
    depths[below] = 0
    bluespot_labels[below] = background_label
    return bluespot_labels, depths


def empty_filter():
    return _utils.parse_filter('')(dict())


def no_filter():
    return _utils.parse_filter(None)(dict())


# ---------------------------------------------------------------------------------------------- cell area of hypsometry (C20)


class OnePoint:
    def read_geojson_features(self):
        return [dict(type='Feature', geometry=None, properties=dict(bspot_id=1))]


class Kept:
    def write_geojson_features(self, features):
        self.areas = [f['properties']['cell_area'] for f in features]


def one_bluespot(bluespotlabels, dem, resolution, labels_max=None, background=0):
    yield 1, hyps.HypsometryStats(hyps.Histogram([1], hyps.HistogramBinsInfo(1, 0.0, 1.0, 1.0)), 0.0, 0.5)


class Grid:
    def __init__(self, width, height, data):
        self.resolution = (width, height)
        self.shape = (2, 2)
        self.transform = (0.0, width, 0.0, 0.0, 0.0, -height)
        self.crs = None
        self.data = data

    def read(self):
        return self.data


class OneNode:
    def read_geojson_features(self):
        return [dict(type='Feature', geometry=None, properties=dict(nodeid=1))]


class KeptVolume:
    def write_geojson_features(self, features):
        self.volumes = [f['properties']['v'] for f in features]


class Sink:
    def write(self, data):
        pass

    def write_geojson_features(self, features):
        pass


def run_hyps_area(width, height, ids, z):
    hyps.bluespot_hypsometry_stats = one_bluespot
    kept = Kept()
    hyps.bluespot_hypsometry_io(Grid(width, height, ids), Grid(width, height, z), OnePoint(), 1.0, kept)
    return kept.areas


def hyps_area(width, height, ids, z):
    return [a * (width * height) for a in run_hyps_area(1.0, 1.0, ids, z)]


def run_rain_area(width, height, ids, water):
    kept = KeptVolume()
    rain.RasterVolumeTool(OneNode(), Grid(width, height, ids), Grid(width, height, water), rain.Unit.mm, kept, 'v').process()
    return kept.volumes


def rain_area(width, height, ids, water):
    # whatever the units, the volume is proportional to the area of a cell
    return [v * (width * height) for v in run_rain_area(1.0, 1.0, ids, water)]


def run_filter_area(width, height, depths, flowdir, accum, accept):
    areas = []

    def seen(filterfunction, cell_area, raw_bluespot_stats):
        areas.append(cell_area)
        return [False]
    bluespots.filterbluespots = seen
    bluespots.BluespotTool(Grid(width, height, depths), Grid(width, height, flowdir), bool, Sink(), Sink(), Sink(), input_accum=Grid(width, height, accum)).process()
    return areas


def filter_area(width, height, depths, flowdir, accum, accept):
    return [width * height]
