"""Reference computations for malstroem.algorithms: analysed, never executed."""
import math
from collections import defaultdict, deque

import numpy as np
import scipy.ndimage

from malstroem.algorithms import dtypes, fill
from msa import const

# ---------------------------------------------------------------------------------------------- fill (C03, C04)


def lowered(filled, dtm, r, c):
    """value of cell r, c after one step: the larger of terrain and the lowest value of the 3 x 3 neighbourhood"""
    low = min(filled[r, c], filled[r - 1, c - 1], filled[r - 1, c], filled[r - 1, c + 1], filled[r, c - 1], filled[r, c + 1],
              filled[r + 1, c - 1], filled[r + 1, c], filled[r + 1, c + 1])
    return max(low, dtm[r, c])


def lowered_no_flats(filled, z, r, c, short, diag):
    low = min(filled[r, c],
              filled[r - 1, c] + short, filled[r, c - 1] + short, filled[r, c + 1] + short, filled[r + 1, c] + short,
              filled[r - 1, c - 1] + diag, filled[r - 1, c + 1] + diag, filled[r + 1, c - 1] + diag, filled[r + 1, c + 1] + diag)
    return max(low, z)


def sweep(dtm, filled, fromrow, torow, fromcol, tocol):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered(filled, dtm, r, c)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_count(dtm, filled, fromrow, torow, fromcol, tocol):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered(filled, dtm, r, c)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def sweep_cols(dtm, filled, fromrow, torow, fromcol, tocol):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered(filled, dtm, r, c)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_cols_count(dtm, filled, fromrow, torow, fromcol, tocol):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered(filled, dtm, r, c)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def sweep_no_flats(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_no_flats_count(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def sweep_no_flats_cols(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_no_flats_cols_count(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = dtm[r, c]
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def sweep_no_flats_typed(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = filled.dtype.type(dtm[r, c])
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_no_flats_typed_count(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for r in range(fromrow, torow + dr, dr):
        for c in range(fromcol, tocol + dc, dc):
            z = filled.dtype.type(dtm[r, c])
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def sweep_no_flats_typed_cols(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = False
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = filled.dtype.type(dtm[r, c])
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = True
    return changed


def sweep_no_flats_typed_cols_count(dtm, filled, fromrow, torow, fromcol, tocol, short, diag):
    dr = 1 if torow > fromrow else -1
    dc = 1 if tocol > fromcol else -1
    changed = 0
    for c in range(fromcol, tocol + dc, dc):
        for r in range(fromrow, torow + dr, dr):
            z = filled.dtype.type(dtm[r, c])
            if filled[r, c] > z:
                new = lowered_no_flats(filled, z, r, c, short, diag)
                if new != filled[r, c]:
                    filled[r, c] = new
                    changed = changed + 1
    return changed


def drop_factor():
    """the number of representable steps the code takes as the short drop (its choice), read off the code for a plane at elevation 1"""
    return fill.minimum_safe_short_and_diag(np.full((2, 2), 1.0))[0] * 2**52


def minimum_safe(dem):
    top = np.float64(max(abs(np.amax(dem)), abs(np.amin(dem))))
    short = (np.nextafter(top, np.float64(float('inf'))) - top) * const(drop_factor())
    return short, short * 2**0.5


def run_drop_factor():
    k = const(drop_factor())
    if k >= 1:
        return 1
    return k


def at_least_one():
    return 1


def initial_filled(dtm, dtype):
    f = np.full(dtm.shape, float('inf'), dtype=dtype)
    f[0, :] = dtm[0, :]
    f[:, 0] = dtm[:, 0]
    f[dtm.shape[0] - 1, :] = dtm[dtm.shape[0] - 1, :]
    f[:, dtm.shape[1] - 1] = dtm[:, dtm.shape[1] - 1]
    return f


def initial_filled_of_fill_terrain(dtm):
    return initial_filled(dtm.astype(dtypes.DTYPE_DTM), dtypes.DTYPE_DTM)


def initial_filled_of_fill_terrain_no_flats(dtm):
    return initial_filled(dtm.astype(dtypes.DTYPE_DTM), np.float64)


# ---------------------------------------------------------------------------------------------- flow (C05 .. C08)

DELTAS = ((-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1))


def edges_outward(flowdir):
    lr = flowdir.shape[0] - 1
    lc = flowdir.shape[1] - 1
    flowdir[0, :] = 0
    flowdir[lr, :] = 4
    flowdir[:, 0] = 6
    flowdir[:, lc] = 2
    flowdir[0, 0] = 7
    flowdir[0, lc] = 1
    flowdir[lr, 0] = 5
    flowdir[lr, lc] = 3


def delta(direction):
    if direction is None:
        return None
    if direction == 0:
        return (-1, 0)
    if direction == 1:
        return (-1, 1)
    if direction == 2:
        return (0, 1)
    if direction == 3:
        return (1, 1)
    if direction == 4:
        return (1, 0)
    if direction == 5:
        return (1, -1)
    if direction == 6:
        return (0, -1)
    if direction == 7:
        return (-1, -1)
    if direction == 8:
        return None
    raise Exception('unknown')


def steepest(terrain, r, c):
    z = terrain[r, c]
    best = 0.0
    code = 8
    for d in (0, 1, 2, 3, 4, 5, 6, 7):
        drop = z - terrain[r + DELTAS[d][0], c + DELTAS[d][1]]
        if d % 2 == 1:
            drop = drop / 2**0.5
        if drop > best:
            best = drop
            code = d
    return code


def flow_interior(terrain):
    flow = np.full(terrain.shape, 8, dtype=np.uint8)
    for r in range(1, terrain.shape[0] - 1):
        for c in range(1, terrain.shape[1] - 1):
            flow[r, c] = steepest(terrain, r, c)
    return flow


def flow_interior_rows_cols(terrain):
    flow = np.full(terrain.shape, 8, dtype=np.uint8)
    for c in range(1, terrain.shape[1] - 1):
        for r in range(1, terrain.shape[0] - 1):
            flow[r, c] = steepest(terrain, r, c)
    return flow


def flowdirection(terrain, edges_flow_outward=True):
    f = flow_interior(terrain)
    if edges_flow_outward:
        edges_outward(f)
    return f


def inside(shape, r, c):
    return 0 <= r < shape[0] and 0 <= c < shape[1]


def flows_here(flowdir, r, c, d):
    """does the neighbour of (r, c) in direction d flow into (r, c)"""
    nr = r + DELTAS[d][0]
    nc = c + DELTAS[d][1]
    if not inside(flowdir.shape, nr, nc):
        return False
    return flowdir[nr, nc] == (d + 4) % 8


def upstream(flowdir, cell):
    cells = []
    for d in (0, 1, 2, 3, 4, 5, 6, 7):
        if flows_here(flowdir, cell[0], cell[1], d):
            cells.append((cell[0] + DELTAS[d][0], cell[1] + DELTAS[d][1]))
    return cells


def step(cell, direction):
    d = delta(direction)
    return (cell[0] + d[0], cell[1] + d[1])


def downstream_cells(flowdir, cell):
    cell = tuple(cell)
    while cell is not None and inside(flowdir.shape, cell[0], cell[1]):
        yield cell
        d = delta(flowdir[cell[0], cell[1]])
        if d is None:
            cell = None
        else:
            cell = (cell[0] + d[0], cell[1] + d[1])


def trace_accum(flowdir, accum, cell):
    while inside(flowdir.shape, cell[0], cell[1]):
        total = 0
        unresolved = False
        for c in upstream(flowdir, cell):
            v = accum[c[0], c[1]]
            if v <= 0:
                unresolved = True
                break
            total = total + v
        if unresolved:
            break
        accum[cell[0], cell[1]] = total + 1
        code = flowdir[cell[0], cell[1]]
        if code == 8:
            break
        cell = step(cell, code)


def moved(cell, code):
    """the cell the flow direction code points to; the cell itself for any other code"""
    dr = 0
    dc = 0
    if code == 0 or code == 1 or code == 7:
        dr = -1
    if code == 3 or code == 4 or code == 5:
        dr = 1
    if code == 1 or code == 2 or code == 3:
        dc = 1
    if code == 5 or code == 6 or code == 7:
        dc = -1
    return (cell[0] + dr, cell[1] + dc)


def trace_accum_codes(flowdir, accum, cell):
    while inside(flowdir.shape, cell[0], cell[1]):
        total = 0
        unresolved = False
        for c in upstream(flowdir, cell):
            v = accum[c[0], c[1]]
            if v <= 0:
                unresolved = True
                break
            total = total + v
        if unresolved:
            break
        accum[cell[0], cell[1]] = total + 1
        code = flowdir[cell[0], cell[1]]
        if code == 8:
            break
        cell = moved(cell, code)


def accumulate_from_all_codes(flowdir):
    accum = np.zeros((flowdir.shape[0], flowdir.shape[1]))
    for r in range(flowdir.shape[0]):
        for c in range(flowdir.shape[1]):
            trace_accum_codes(flowdir, accum, (r, c))
    return accum


def accumulate_from_leaves(flowdir):
    accum = np.zeros(flowdir.shape, dtype=np.float64)
    for r in range(flowdir.shape[0]):
        for c in range(flowdir.shape[1]):
            if len(upstream(flowdir, (r, c))) == 0:
                trace_accum(flowdir, accum, (r, c))
    return accum


def accumulate_from_all(flowdir):
    accum = np.zeros((flowdir.shape[0], flowdir.shape[1]))
    for r in range(flowdir.shape[0]):
        for c in range(flowdir.shape[1]):
            trace_accum(flowdir, accum, (r, c))
    return accum


def watershed(flowdir, labelled, cell, unassigned):
    stack = deque([(cell[0], cell[1], unassigned)])
    while stack:
        r, c, below = stack.pop()
        here = labelled[r, c]
        if here == unassigned:
            labelled[r, c] = below
            here = below
        stack.extend([(n[0], n[1], here) for n in upstream(flowdir, (r, c))])


def watershed_records(flowdir, labelled, cell, unassigned):
    stack = [dict(r=cell[0], c=cell[1], label=unassigned)]
    while stack:
        e = stack.pop()
        r = e['r']
        c = e['c']
        here = labelled[r, c]
        if here == unassigned:
            labelled[r, c] = e['label']
            here = e['label']
        stack.extend([dict(r=n[0], c=n[1], label=here) for n in upstream(flowdir, (r, c))])


def edge_cells(shape):
    lr = shape[0] - 1
    lc = shape[1] - 1
    for c in range(lc + 1):
        yield (0, c)
        yield (lr, c)
    for r in range(1, lr):
        yield (r, 0)
        yield (r, lc)


def watersheds(flowdir, labelled, unassigned):
    for cell in edge_cells(flowdir.shape):
        watershed(flowdir, labelled, cell, unassigned)


# ---------------------------------------------------------------------------------------------- label (C09)


def components(data):
    return scipy.ndimage.label(data, structure=[[1, 1, 1], [1, 1, 1], [1, 1, 1]])


def stats(data, labelled, nlabels=None):
    if not nlabels:
        nlabels = np.max(labelled)
    s = np.zeros((nlabels + 1,), dtype=[('min', np.float64), ('max', np.float64), ('sum', np.float64), ('count', np.int64)])
    s[:]['min'] = float('inf')
    s[:]['max'] = float('-inf')
    for r in range(data.shape[0]):
        for c in range(data.shape[1]):
            v = data[r, c]
            e = s[labelled[r, c]]
            e['count'] += 1
            e['sum'] += v
            if v < e['min']:
                e['min'] = v
            if v > e['max']:
                e['max'] = v
    return s


def min_index(data, labelled, nlabels=None):
    if not nlabels:
        nlabels = np.max(labelled)
    m = np.zeros((nlabels + 1,), dtype=[('value', float), ('row', int), ('col', int)])
    m[:]['value'] = float('inf')
    m[:]['row'] = -1
    m[:]['col'] = -1
    for r in range(data.shape[0]):
        for c in range(data.shape[1]):
            v = data[r, c]
            e = m[labelled[r, c]]
            if v < e['value']:
                e['value'] = v
                e['row'] = r
                e['col'] = c
    return m


def max_index(data, labelled, nlabels=None):
    if not nlabels:
        nlabels = np.max(labelled)
    m = np.zeros((nlabels + 1,), dtype=[('value', float), ('row', int), ('col', int)])
    m[:]['value'] = float('-inf')
    m[:]['row'] = -1
    m[:]['col'] = -1
    for r in range(data.shape[0]):
        for c in range(data.shape[1]):
            v = data[r, c]
            e = m[labelled[r, c]]
            if v > e['value']:
                e['value'] = v
                e['row'] = r
                e['col'] = c
    return m


def keep(labelled, keep_label, background=0):
    keep_label[background] = False
    return np.array(keep_label).astype(bool)[labelled]


def count(labelled):
    return np.bincount(labelled.ravel())


def collect(data, labelled, nlabels=None, background=0):
    if not nlabels:
        nlabels = np.max(labelled)
    out = [[] for i in range(nlabels + 1)]
    flat = labelled.ravel()
    values = data.ravel()
    for i in range(len(flat)):
        if flat[i] == background:
            continue
        out[flat[i]].append(values[i])
    return out


def collect_arrays(data, labelled, nlabels=None, background=0):
    return [np.array(x) for x in collect(data, labelled, nlabels, background)]


def collect_rows(data, labelled, nlabels=None, background=0):
    # same order of values: ravel() is row-major
    if nlabels is None:
        nlabels = np.max(labelled)
    out = [[] for i in range(nlabels + 1)]
    for r in range(data.shape[0]):
        for c in range(data.shape[1]):
            if labelled[r, c] == background:
                continue
            out[labelled[r, c]].append(data[r, c])
    return [np.array(x) for x in out]


def values_of_labels(labelled, values):
    return np.array(values)[labelled.ravel()].reshape(labelled.shape)


# ---------------------------------------------------------------------------------------------- net (C13)


def enumerate_pourpoints(pour_points):
    for i, p in enumerate(pour_points):
        if 'properties' in p:
            i = p['properties']['bspot_id']
            p = (p['properties']['cell_row'], p['properties']['cell_col'])
        yield i, p


def next_label(flowdir, labeled, cell, background_label=None, geometry=False):
    start = labeled[cell[0], cell[1]]
    path = []
    for c in downstream_cells(flowdir, cell):
        here = labeled[c[0], c[1]]
        if geometry:
            path.append(c)
        if here != start and (background_label is None or here != background_label):
            return int(here), path
    return None, path


def plain_network(flowdir, labeled, pour_points, background_label=None):
    nodes = []
    for i, p in enumerate_pourpoints(pour_points):
        below, path = next_label(flowdir, labeled, p, background_label, False)
        nodes.append(dict(id=i, downstream_id=below, nodetype='pourpoint', pix=tuple(p)))
    return nodes


def common_flow_groups(nodes, n=2):
    if len(nodes) <= 1:
        return [nodes]
    groups = []
    rest = list(nodes)
    while rest:
        first = rest[0]
        path = first['geometry']
        group = [first]
        rest.remove(first)
        if len(path) > n:
            for other in list(rest):
                opath = other['geometry']
                if len(opath) > n and path[-1 * n] == opath[-1 * n]:
                    group.append(other)
                    rest.remove(other)
        groups.append(group)
    return groups


def insert_junction(nodes, label):
    below = nodes[0]['downstream_id']
    paths = [list(n['geometry']) for n in nodes]
    assert all([below == n['downstream_id'] for n in nodes])
    assert all([paths[0][-2] == p[-2] for p in paths])
    junction = dict(id=label, downstream_id=below, nodetype='junction', pix=None, geometry=None)
    shared = []
    while all([paths[0][-1] == p[-1] for p in paths]):
        shared.append(paths[0][-1])
        for p in paths:
            del p[-1]
    shared.reverse()
    junction['geometry'] = shared
    junction['pix'] = tuple(shared[0])
    for i, n in enumerate(nodes):
        n['downstream_id'] = junction['id']
        n['geometry'] = paths[i] + [junction['pix']]
    return nodes, junction


def untangle(nodes, label):
    for group in common_flow_groups(nodes, 2):
        if len(group) > 1:
            parts, junction = insert_junction(group, label)
            label = label + 1
            yield junction, label
            for n, label in untangle(parts, label):
                yield n, label
        else:
            yield group[0], label


def junction_network(flowdir, labeled, pour_points, background_label=None):
    by_target = defaultdict(list)
    for i, p in enumerate_pourpoints(pour_points):
        below, path = next_label(flowdir, labeled, p, background_label, True)
        by_target[below].append(dict(id=i, downstream_id=below, nodetype='pourpoint', pix=tuple(p), geometry=path))
    label = int(np.max(labeled) + 1)
    nodes = []
    for below, group in by_target.items():
        for node, label in untangle(group, label):
            nodes.append(node)
    return nodes
