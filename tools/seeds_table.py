"""planted bugs: each edit changes lines of the original repository; the demonstrations exercise the real code in a scratch directory"""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


LABEL = 'malstroem/algorithms/speedups/_label.pyx'
FLOW = 'malstroem/algorithms/speedups/_flow.pyx'

seed('c01-stats-fallback-narrow', 'C01',
     [(LABEL, "    cdef np.float64_t val\n    cdef np.int64_t lbl\n    cdef stat_record[:] records", "    cdef np.float32_t val\n    cdef np.int64_t lbl\n    cdef stat_record[:] records")],
     'data of a type the compiled fallback handles (float64 or integers) with values that do not fit 24 bits of mantissa',
     'compiled per label statistics round every value to 32 bit float while the pure version keeps 64 bits', '''
import numpy as np
from malstroem.algorithms import speedups, label
data = np.array([[16777217.0, 0.1], [3.0, 0.3]])
lab = np.array([[1, 1], [2, 2]], dtype=np.int64)
fast = label.label_stats(data, lab)
speedups.disable()
slow = label.label_stats(data, lab)
for k in ('min', 'max', 'sum', 'count'):
    assert np.array_equal(fast[k], slow[k]), (k, fast[k], slow[k])
''')

seed('c08-label-truncated', 'C08',
     [(FLOW, "cdef packed struct cell_label64_struct:\n    np.int_t r, c\n    np.int64_t label", "cdef packed struct cell_label64_struct:\n    np.int_t r, c\n    np.int32_t label")],
     '64 bit labels above 2**31',
     'the label carried upstream on the stack is truncated to 32 bits', '''
import numpy as np
from malstroem.algorithms import flow
fd = np.full((1, 4), 6, dtype=np.uint8)
big = 2 ** 33 + 7
lab = np.array([[0, big, 0, 0]], dtype=np.int64)
flow.watersheds_from_labels(fd, lab, 0)
assert lab.tolist() == [[0, big, big, big]], lab
''')

seed('c07-sum-narrow', 'C07',
     [(FLOW, "    cdef DTYPE_t_ACCUM s, upstream_accum\n", "    cdef np.float32_t s\n    cdef DTYPE_t_ACCUM upstream_accum\n")],
     'accumulated flow above 2**24 cells',
     'the sum of upstream cells is rounded to 32 bit float in compiled code', '''
import numpy as np
from malstroem.algorithms import flow
fd = np.full((1, 3), 2, dtype=np.uint8)
acc = np.array([[16777217.0, 0, 0]])
flow.trace_accumulated_flow(fd, acc, (0, 1))
assert acc.tolist() == [[16777217.0, 16777218.0, 16777219.0]], acc
''')

seed('c10-cell-area-squared-width', 'C10',
     [('malstroem/scripts/bluespot.py', "    cell_area = cell_width * cell_height\n", "    cell_area = cell_width ** 2\n")],
     'a depths raster whose cells are not square and a filter on area or volume',
     'the bluespot filter of the bspots command uses the wrong cell area', '''
import os, tempfile
import numpy as np
from osgeo import gdal
from click.testing import CliRunner
from malstroem import io
from malstroem.scripts.cli import cli
with tempfile.TemporaryDirectory() as d:
    depths = np.zeros((6, 6), dtype=np.float32)
    depths[2:4, 2:4] = 1.0
    io.RasterWriter(os.path.join(d, 'depths.tif'), (0, 1.0, 0, 0, 0, -2.0), None).write(depths)
    r = CliRunner().invoke(cli, ['bspots', '-depths', os.path.join(d, 'depths.tif'), '-out', os.path.join(d, 'o.tif'), '-filter', 'area > 5'])
    assert r.exit_code == 0, r.output
    got = io.RasterReader(os.path.join(d, 'o.tif')).read()
    assert got.max() == 1, got
''')

seed('c12-rotation-ignored', 'C12',
     [('malstroem/vector.py', "    x, y = gdal.ApplyGeoTransform(geotransform, col + 0.5, row + 0.5)\n",
       "    x = geotransform[0] + (col + 0.5) * geotransform[1]\n    y = geotransform[3] + (row + 0.5) * geotransform[5]\n")],
     'a raster with a rotated or sheared affine transform',
     'pour point and node coordinates ignore the rotation terms of the affine transform', '''
from malstroem.vector import transform_cell_to_world
x, y = transform_cell_to_world((3, 5), (100.0, 2.0, 0.5, 200.0, 0.25, -2.0))
assert abs(x - (100 + 5.5 * 2 + 3.5 * 0.5)) < 1e-9 and abs(y - (200 + 5.5 * 0.25 - 3.5 * 2)) < 1e-9, (x, y)
''')

seed('c14-equal-spills', 'C14',
     [('malstroem/network.py', "            upstream_volume = sum([un['spillv'] for un in upstream_event_values])\n", "            upstream_volume = sum({un['spillv'] for un in upstream_event_values})\n")],
     'two nodes directly upstream of the same node that spill exactly the same volume',
     'equal volumes spilled into a node are counted once: water is lost', '''
from malstroem.network import Network
net = Network()
net.add_nodes([dict(nodeid=1, dstrnodeid=3, wshed_area=1, bspot_vol=2, w=5), dict(nodeid=2, dstrnodeid=3, wshed_area=1, bspot_vol=2, w=5),
               dict(nodeid=3, dstrnodeid=None, wshed_area=1, bspot_vol=1, w=0)])
r = {e['nodeid']: e for e in net.rain_event('w')}
assert r[3]['spillv'] + r[3]['v'] == 6, r
''')

seed('c15-last-label', 'C15',
     [('malstroem/rain.py', "            if bsid <= max_id:\n", "            if bsid < max_id:\n")],
     'precipitation raster input; the bluespot with the largest id',
     'the node with the largest id in the raster receives no water', '''
import numpy as np
from malstroem import rain
class R:
    transform = (0, 2.0, 0, 0, 0, -2.0)
    def __init__(self, a): self.a = a
    def read(self): return self.a
class V:
    def read_geojson_features(self): return [dict(properties=dict(nodeid=i, keep='x')) for i in (1, 2, 3)]
    def write_geojson_features(self, f): self.out = list(f)
v = V()
rain.RasterVolumeTool(v, R(np.array([[0, 1], [2, 2]], dtype=np.int32)), R(np.array([[9., 1.], [2., 3.]])), rain.Unit.m3, v, 'w').process()
got = [f['properties']['w'] for f in v.out]
assert got == [1.0, 5.0, 0], got
''')

seed('c16-bins-by-width', 'C16',
     [('malstroem/hyps.py', "    num_bins = max_scaled - min_scaled + 1\n", "    num_bins = int((zmax - zmin) * scale) + 1\n")],
     'a bluespot whose lowest and highest cell lie in bins further apart than the elevation range alone suggests',
     'the histogram ends below the highest cell, which is then not counted', '''
import numpy as np
from malstroem import hyps
b = hyps.histogram_bins(0.9, 1.1, 1.0)
assert b.lower_bound <= 0.9 and b.upper_bound > 1.1 and b.num_bins == 2, b
''')


DEM_TIF = '''
import os, sys, tempfile
import numpy as np
from osgeo import gdal, ogr, osr
gdal.UseExceptions()
def tif(path, a, gdt, nodata=None, gt=(100.0, 2.0, 0.0, 200.0, 0.0, -2.0)):
    ds = gdal.GetDriverByName('GTiff').Create(path, a.shape[1], a.shape[0], 1, gdt)
    ds.SetGeoTransform(gt)
    s = osr.SpatialReference(); s.ImportFromEPSG(25832)
    ds.SetProjection(s.ExportToWkt())
    if nodata is not None: ds.GetRasterBand(1).SetNoDataValue(nodata)
    ds.GetRasterBand(1).WriteArray(a)
    ds.FlushCache()
'''

seed('c23-hidden-files', 'C23',
     [('malstroem/scripts/complete.py', "or os.listdir(outdir):", "or [f for f in os.listdir(outdir) if not f.startswith('.')]:")],
     'an output directory that holds nothing but hidden files',
     'complete writes into a directory that is not empty', DEM_TIF + '''
from click.testing import CliRunner
from malstroem.scripts.complete import process_all
with tempfile.TemporaryDirectory() as d:
    a = np.array([[9, 9, 9, 9, 9], [9, 1, 2, 9, 9], [9, 2, 3, 9, 9], [9, 9, 5, 9, 9], [9, 9, 9, 9, 9]], dtype=np.float32)
    dem = os.path.join(d, 'dem.tif'); tif(dem, a, gdal.GDT_Float32)
    out = os.path.join(d, 'out'); os.mkdir(out); open(os.path.join(out, '.keep'), 'w').close()
    r = CliRunner().invoke(process_all, ['-dem', dem, '-outdir', out, '-mm', '10', '-zresolution', '0.1'])
    assert r.exit_code != 0 and os.listdir(out) == ['.keep'], (r.exit_code, os.listdir(out))
''')

seed('c17-nearly-full', 'C17',
     [('malstroem/approx.py', "> 0.9999:", "> 0.99:")],
     'a bluespot filled to between 99 and 99.99 percent of its capacity',
     'the level of a bluespot that is not full is reported as its spill level', '''
from malstroem import approx
from malstroem.hyps import HypsometryStats, Histogram, HistogramBinsInfo, _hypsometrystats_to_flatdict
class V:
    def __init__(self, f=None): self.f = f
    def read_geojson_features(self): return self.f
    def write_geojson_features(self, f): self.out = list(f)
h = _hypsometrystats_to_flatdict(HypsometryStats(Histogram([1, 1, 1, 1], HistogramBinsInfo(4, 0.0, 4.0, 1.0)), 0.0, 3.5))
h.update(bspot_id=1, cell_area=1.0, bspot_dmax=3.9, bspot_vol=10.0)
w = V()
approx.approx_water_level_io(V([dict(properties=dict(bspot_id=1, nodetype='pourpoint', v=9.95))]), V([dict(properties=h)]), w)
z = w.out[0]['properties']['approx_z']
assert z < 3.5, z
''')

seed('c18-signed-range', 'C18',
     [('malstroem/io.py', "min_val >= -32768 and max_val <= 32767:", "min_val >= -32768 and max_val <= 65535:")],
     'an array of a type GeoTIFF lacks, with a negative value and a value above 32767',
     'values above 32767 are wrapped to negative ones when written', '''
import os, tempfile
import numpy as np
from malstroem import io
a = np.array([[-1, 40000], [5, 32767]], dtype=np.int64)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.tif')
    io.RasterWriter(p, (0, 1, 0, 0, 0, -1), None).write(a)
    b = io.RasterReader(p).read()
    assert (a == b).all(), b
''')

seed('c21-polys-options-swapped', 'C21',
     [('malstroem/scripts/bluespot.py', "vectorize_labels_file_io(raster, out, layername, format, dsco, lco)", "vectorize_labels_file_io(raster, out, layername, format, lco, dsco)")],
     'layer creation options given to the polys command',
     'datasource options are used for the layer and layer options for the datasource', DEM_TIF + '''
from click.testing import CliRunner
from malstroem.scripts.bluespot import process_polys
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'l.tif'); tif(p, np.array([[1, 1], [2, 0]], dtype=np.int32), gdal.GDT_Int32, 0)
    out = os.path.join(d, 'o.gpkg')
    r = CliRunner().invoke(process_polys, ['-raster', p, '-out', out, '-format', 'gpkg', '-layername', 'pol', '-lco', 'FID=theid'])
    ds = ogr.Open(out)
    assert r.exit_code == 0, (r.exception, r.output)
    assert ds.GetLayerByName('pol').GetFIDColumn() == 'theid', ds.GetLayerByName('pol').GetFIDColumn()
''')

seed('c28-reader-for-update', 'C28',
     [('malstroem/io.py', "ogr.Open(self.datasource, update=0)", "ogr.Open(self.datasource, update=1)")],
     'reading a vector layer (from a read-only place it fails, with SQLite formats the file is locked and may be changed)',
     'input datasources are opened for update', '''
from malstroem import io
calls = []
class Layer:
    def GetSpatialRef(self): return None
class DS:
    def GetLayerByName(self, n): return Layer()
class Stub:
    def __getattr__(self, k): return getattr(real, k)
    def Open(self, path, update=0):
        calls.append((path, update))
        return DS()
real = io.ogr
io.ogr = Stub()
io.VectorReader('some.gpkg', 'nodes')
assert calls and not any(u for _, u in calls), calls
''')

seed('c27-watershed-alias', 'C27',
     [('malstroem/bluespots.py', "watersheds = np.copy(labeled)", "watersheds = np.asarray(labeled)")],
     'bluespots whose watershed holds a cell of more accumulated flow (or lower terrain) outside the bluespot',
     'labelling watersheds overwrites the bluespot labels that pour points are found with', '''
import numpy as np
from malstroem import bluespots
class R:
    transform = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)
    def __init__(self, a): self.a = a
    def read(self): return self.a.copy()
class W:
    def write(self, a): self.a = np.array(a)
    def write_geojson_features(self, f): self.f = f
depths = np.zeros((3, 5)); depths[1, 3] = 1.0
flowdir = np.full((3, 5), 6, dtype=np.uint8)
accum = np.array([[1, 1, 1, 1, 1], [5, 9, 3, 2, 1], [1, 1, 1, 1, 1]], dtype=np.float64)
flowdir[1, :] = 2
accum[1, :] = [1, 9, 3, 2, 1]
p = W()
bluespots.BluespotTool(R(depths), R(flowdir), None, W(), p, W(), input_accum=R(accum)).process()
pp = [f['properties'] for f in p.f['features'] if f['properties']['bspot_id'] == 1][0]
assert (pp['cell_row'], pp['cell_col']) == (1, 3), pp
''')

seed('c11-power', 'C11',
     [('malstroem/scripts/_utils.py', "allowedchars = '<>=!0123456789.()'", "allowedchars = '<>=!0123456789.()*'")],
     'a filter expression with a multiplication or power operator',
     'expressions beyond comparisons are evaluated (9**9**9 hangs the process)', '''
from malstroem.scripts._utils import parse_filter
for f in ('area * 2 > 3', 'area > 2**2', '(area)*(volume) < 3'):
    try:
        parse_filter(f)
    except Exception:
        continue
    raise SystemExit('accepted: ' + f)
parse_filter('area > 20.5 and (maxdepth > 0.05 or volume > 2.5)')
''')

seed('c26-depths-of-raw-dem', 'C26',
     [('malstroem/dem.py', "dem = self.input_dem.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)", "dem = self.input_dem.read()")],
     'an integer DEM with elevations that 32 bit floats cannot represent',
     'depths are differences between the DEM as stored and the filled DEM as converted: not zero where nothing was filled', '''
import numpy as np
from malstroem import dem
class R:
    transform = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)
    def __init__(self, a): self.a = a
    def read(self): return self.a.copy()
class W:
    def write(self, a): self.a = np.array(a)
a = np.full((4, 5), 16777217, dtype=np.int32)
a[:, 0] = 3
d = W()
dem.DemTool(R(a), W(), W(), d).process()
assert (d.a == 0).all(), d.a
''')

seed('c13-ids-reused', 'C13',
     [('malstroem/algorithms/net.py', "next_available_label = int(np.max(labeled_bluespots) + 1)", "next_available_label = int(len(np.unique(labeled_bluespots)))")],
     'a label raster with a gap in its labels (a bluespot number without cells) and paths that merge before reaching a bluespot',
     'junction nodes get ids that belong to bluespots', '''
import numpy as np
from malstroem.algorithms import net
lab = np.zeros((3, 8), dtype=np.int32)
lab[0, 0] = 1; lab[2, 0] = 3; lab[1, 6] = 4
f = np.full((3, 8), 2, dtype=np.uint8)
f[0, 0] = 3; f[2, 0] = 1
pps = [dict(properties=dict(bspot_id=i, cell_row=r, cell_col=c)) for i, r, c in ((1, 0, 0), (3, 2, 0), (4, 1, 6))]
ids = [n['id'] for n in net.geometric_pourpoint_network(f, lab, pps, 0)]
assert len(set(ids)) == len(ids), ids
''')

seed('c25-exceptions-off', 'C25',
     [('malstroem/io.py', "gdal.UseExceptions()\n", "")],
     'opening a raster that does not exist',
     'GDAL runs without exceptions: failures to open or create are reported as missing values', '''
import subprocess, sys
out = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import malstroem.io; from osgeo import gdal; print(gdal.GetUseExceptions())'], capture_output=True, text=True)
assert out.stdout.strip() == '1', (out.stdout, out.stderr)
''')

seed('c04-drops-swapped', 'C04',
     [('malstroem/bluespots.py', "fill.fill_terrain_no_flats(dem, short, diag)", "fill.fill_terrain_no_flats(dem, diag, short)")],
     'pour points located with the DEM (no accumulated flow)',
     'the surface pour points are found on is raised by the diagonal drop for side neighbours and by the short one for corners', '''
import inspect
import numpy as np
from malstroem import bluespots
from malstroem.algorithms import fill
class R:
    transform = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)
    def __init__(self, a): self.a = a
    def read(self): return self.a.copy()
class W:
    def write(self, a): self.a = a
    def write_geojson_features(self, f): self.f = f
a = np.full((4, 5), 3.0, dtype=np.float32)
a[1:3, 1:4] = 1.0
real = fill.fill_terrain_no_flats
seen = []
def spy(*args, **kw):
    b = inspect.signature(real).bind(*args, **kw).arguments
    seen.append((b['short'], b['diag']))
    return real(*args, **kw)
fill.fill_terrain_no_flats = spy
bluespots.BluespotTool(R(fill.fill_terrain(a) - a), R(np.full((4, 5), 2, dtype=np.uint8)), None, W(), W(), W(), input_dem=R(a)).process()
assert all(0 < s < d for s, d in seen), seen
''')

seed('c03-passes-limited', 'C03',
     [('malstroem/algorithms/fill.py', "    while keep_going:\n", "    while keep_going and iteration < 40:\n")],
     'a terrain whose filling needs more than 38 rounds of sweeps: a long winding valley',
     'filling stops before the surface is the lowest one', '''
import numpy as np
from malstroem.algorithms import fill
n = 401
a = np.full((n, n), 100.0, dtype=np.float32)
# a spiral corridor
r, c, dr, dc = 1, 0, 0, 1
lo_r, hi_r, lo_c, hi_c = 1, n - 2, 1, n - 2
a[1, 0] = 1.0
a[1, 1] = 1.0
r, c = 1, 1
legs = 0
step = n - 3
while step > 1:
    for k in range(2):
        for i in range(step):
            r += dr; c += dc
            a[r, c] = 1.0
        dr, dc = dc, -dr
        legs += 1
        if k == 1 or legs == 1:
            step -= 2
f = fill.fill_terrain(a)
assert (f[a < 50] == 1.0).all(), (f[a < 50] != 1.0).sum()
''', first=True)

seed('c24-outlet-zero', 'C24',
     [('malstroem/network.py', "if downstream_id is None:", "if not downstream_id:")],
     'a node whose downstream node has id 0',
     'a node that flows to node 0 is taken for an outlet', '''
from malstroem import network
n = network.Network()
n.add_nodes([dict(nodeid=1, dstrnodeid=0), dict(nodeid=0, dstrnodeid=None), dict(nodeid=2, dstrnodeid=1)])
assert sorted(n.root_nodes) == [0], n.root_nodes
''')

seed('c02-early-binding', 'C02',
     [('malstroem/rain.py', "from .algorithms import label\n", "from .algorithms.label import label_stats\n"),
      ('malstroem/rain.py', "label.label_stats(", "label_stats(")],
     'disabling speedups after malstroem.rain was imported',
     'rain volumes keep using the compiled statistics after speedups were disabled', '''
import sys
import numpy as np
from malstroem import rain
from malstroem.algorithms import label, speedups
class R:
    transform = (0.0, 2.0, 0.0, 0.0, 0.0, -2.0)
    def __init__(self, a): self.a = a
    def read(self): return self.a
class V:
    def read_geojson_features(self): return [dict(properties=dict(nodeid=i)) for i in (1, 2)]
    def write_geojson_features(self, f): self.out = list(f)
speedups.disable()
seen = []
def trace(frame, event, arg):
    if event == 'call' and frame.f_code.co_name == 'label_stats':
        seen.append(frame.f_code.co_filename)
sys.setprofile(trace)
v = V()
rain.RasterVolumeTool(v, R(np.array([[0, 1], [2, 2]], dtype=np.int32)), R(np.ones((2, 2))), rain.Unit.m3, v, 'w').process()
sys.setprofile(None)
assert any(f.endswith('label.py') for f in seen), seen
''')

seed('c20-projection-of-other', 'C20',
     [('malstroem/scripts/bluespot.py', "io.RasterWriter(out, bspot_reader.transform, bspot_reader.crs, 0)", "io.RasterWriter(out, bspot_reader.transform, flowdir_reader.crs, 0)")],
     'a flow direction raster whose projection is missing or written differently from that of the bluespots',
     'watersheds get the transform of one input and the projection of another', DEM_TIF + '''
from click.testing import CliRunner
from malstroem import io
from malstroem.scripts.bluespot import process_wsheds
with tempfile.TemporaryDirectory() as d:
    b, f, o = (os.path.join(d, x) for x in ('b.tif', 'f.tif', 'o.tif'))
    tif(b, np.array([[1, 0, 0], [0, 0, 2]], dtype=np.int32), gdal.GDT_Int32, 0)
    io.RasterWriter(f, (100.0, 2.0, 0.0, 200.0, 0.0, -2.0), None).write(np.full((2, 3), 2, dtype=np.uint8))
    r = CliRunner().invoke(process_wsheds, ['-bluespots', b, '-flowdir', f, '-out', o])
    assert r.exit_code == 0, (r.exception, r.output)
    assert io.RasterReader(o).crs == io.RasterReader(b).crs, io.RasterReader(o).crs
''')

seed('c05-diagonal-narrow', 'C05',
     [(FLOW, "cdef DTYPE_t_FILLNOFLAT SQRT2 = 2**0.5", "cdef np.float32_t SQRT2 = 2**0.5")],
     'a diagonal drop within 2e-8 (relative) of sqrt(2) times the straight drop',
     'the distance to diagonal neighbours is rounded to 32 bits, so a straight drop that is the steepest loses (or wins) against a diagonal one', '''
import math
import numpy as np
from malstroem.algorithms import flow, speedups
assert speedups.available
for k in (1.0, 3.0, 7.0, 1234.5):
    for e in (1e-10, 1e-9, 5e-9, -1e-10, -1e-9, -5e-9):
        z = np.zeros((3, 3)) + 10 * k
        z[1, 1] = 5 * k
        z[1, 2] = 4 * k
        z[2, 2] = 5 * k - k * math.sqrt(2) * (1 + e)
        d = flow.terrain_flowdirection(z)[1, 1]
        assert d == (3 if e > 0 else 2), (k, e, d)
''')

seed('c06-cells-16-bit', 'C06',
     [(FLOW, "cdef packed struct cell_struct:\n    np.int_t r, c\n", "cdef packed struct cell_struct:\n    np.int16_t r, c\n")],
     'a raster with more than 32767 rows or columns',
     'the position of a cell wraps round, so that compiled code takes cells for outside the raster or reads and writes other cells', '''
import numpy as np
from malstroem.algorithms import flow, speedups
assert speedups.available
f = np.full((1, 40000), 2, dtype=np.uint8)
a = flow.accumulated_flow(f)
assert (a[0] == np.arange(1, 40001)).all(), a[0, 32760:32780]
''')

seed('c09-lowest-start', 'C09',
     [('malstroem/algorithms/label.py', "    lmax[:]['value'] = float('-inf')", "    lmax[:]['value'] = -999")],
     'a label all of whose cells are at or below the nodata substitute -999',
     'the position of the highest cell of such a label is reported as row -1, column -1', '''
import numpy as np
from malstroem.algorithms import label
data = np.array([[-1500.0, -1200.0, 3.0], [-999.0, -999.0, 4.0]])
lab = np.array([[1, 1, 3], [2, 2, 3]])
m = label.label_max_index(data, lab)
assert [(m[i]['value'], m[i]['row'], m[i]['col']) for i in (1, 2, 3)] == [(-1200.0, 0, 1), (-999.0, 1, 0), (4.0, 1, 2)], m
''')

seed('c19-null-geometry', 'C19',
     [('malstroem/io.py', "        while f:\n            yield f\n            f = self._lyr.GetNextFeature()\n", "        while f and f.GetFID() >= 0:\n            yield f\n            f = self._lyr.GetNextFeature()\n")],
     'a feature whose id is negative',
     'the features from the first one with a negative id on are not read', '''
import os
import tempfile
from osgeo import gdal, ogr, osr
gdal.UseExceptions()
from malstroem import io
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'v.gpkg')
    ds = ogr.GetDriverByName('GPKG').CreateDataSource(p)
    lyr = ds.CreateLayer('pts', None, ogr.wkbPoint)
    lyr.CreateField(ogr.FieldDefn('a', ogr.OFTInteger))
    for i, fid in enumerate((-5, 3, 4)):
        f = ogr.Feature(lyr.GetLayerDefn())
        f.SetField('a', i)
        f.SetFID(fid)
        lyr.CreateFeature(f)
    f = lyr = ds = None
    got = [f['properties']['a'] for f in io.VectorReader(p, 'pts').read_geojson_features()]
    assert got == [0, 1, 2], got
''')

seed('c22-other-substitute', 'C22',
     [('malstroem/scripts/complete.py', "    nodatasubst = -999\n", "    nodatasubst = -9999\n")],
     'a DEM with nodata cells',
     'complete substitutes nodata cells by another value than the step commands', DEM_TIF + '''
from click.testing import CliRunner
from malstroem import io
from malstroem.scripts.complete import process_all
from malstroem.scripts.dem import process_filled
with tempfile.TemporaryDirectory() as d:
    dem, out, o = os.path.join(d, 'dem.tif'), os.path.join(d, 'out'), os.path.join(d, 'filled.tif')
    os.mkdir(out)
    z = np.full((7, 7), 9.0, dtype=np.float32)
    z[3, 3] = 5
    z[2, 4] = -32768
    z[0, 0] = -32768
    tif(dem, z, gdal.GDT_Float32, -32768)
    r = CliRunner().invoke(process_all, ['-dem', dem, '-outdir', out, '-mm', '20', '-zresolution', '0.1'])
    s = CliRunner().invoke(process_filled, ['-dem', dem, '-out', o])
    assert s.exit_code == 0, (s.exception, s.output)
    f = os.path.join(out, 'filled.tif')
    assert os.path.exists(f), (r.exception, r.output)
    a, b = gdal.Open(f).ReadAsArray(), gdal.Open(o).ReadAsArray()
    assert np.array_equal(a, b), (a, b)
''')

seed('c08-tall-rasters', 'C08',
     [('malstroem/algorithms/_raster_utils.py', "    for r in range(1, maxr):\n", "    for r in range(1, min(maxr, maxc)):\n")],
     'a raster with more rows than columns, and a watershed that leaves it over the lower part of its left or right side',
     'cells that drain over part of the sides get no watershed', '''
import numpy as np
from malstroem.algorithms import flow
fd = np.full((7, 3), 6, dtype=np.uint8)
lab = np.zeros((7, 3), dtype=np.int32)
lab[5, 0] = 4
flow.watersheds_from_labels(fd, lab, 0)
assert lab[5].tolist() == [4, 4, 4], lab
''')

seed('c10-shallow-bluespots', 'C10',
     [('malstroem/bluespots.py', "label.connected_components(depths)\n", "label.connected_components(np.round(depths, 9))\n")],
     'a bluespot, or the only bridge between two, that is shallower than a nanometre',
     'bluespots of very small depth disappear or fall apart', '''
import numpy as np
from malstroem import bluespots


class R(object):
    transform = (0.0, 1.0, 0.0, 0.0, 0.0, -1.0)
    def __init__(self, a=None): self.a = a
    def read(self): return self.a
    def write(self, a): self.a = np.array(a)
    def write_geojson_features(self, a): self.a = a


d = np.zeros((5, 7))
d[2, 1:6] = 0.5
d[2, 3] = 2e-10
out = R()
acc = np.ones((5, 7))
bluespots.BluespotTool(R(d), R(np.full((5, 7), 0, dtype=np.uint8)), None, out, R(), R(), R(acc)).process()
assert out.a.max() == 1 and (out.a > 0).sum() == 5, out.a
''')

seed('c13-direct-joins', 'C13',
     [('malstroem/algorithms/net.py', "        if len(this_geom) > min_common_cells:\n", "        if len(this_geom) >= min_common_cells:\n"),
      ('malstroem/algorithms/net.py', "if len(other_geom) > min_common_cells and", "if len(other_geom) >= min_common_cells and")],
     'a pour point right next to its downstream bluespot, over which the path of another one leads',
     'a pour point itself is made a junction and its own stream is left with nothing', '''
import numpy as np
from malstroem.algorithms import net
n = lambda i, g: dict(id=i, downstream_id=9, nodetype='pourpoint', pix=g[0], geometry=g)
a = n(1, [(2, 1), (3, 1)])
b = n(2, [(1, 2), (2, 1), (3, 1)])
groups = net._split_into_common_flow_groups([a, b], 2)
assert [len(g) for g in groups] == [1, 1], groups
''')

seed('c19-single-layer', 'C19',
     [('malstroem/io.py', "        elif self.layername:\n", "        elif self.layername and self._ds.GetLayerCount() > 1:\n")],
     'a datasource with a single layer, and the name of another layer',
     'a reader for a layer that does not exist silently gives the features of another one', '''
import os
import tempfile
from osgeo import ogr
from malstroem import io
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'a.gpkg')
    ds = ogr.GetDriverByName('GPKG').CreateDataSource(p)
    ds.CreateLayer('pts', None, ogr.wkbPoint)
    ds = None
    try:
        r = io.VectorReader(p, 'streams')
    except Exception:
        r = None
    assert r is None, 'the layer streams does not exist'
''')

seed('c09-last-of-equals', 'C09',
     [('malstroem/algorithms/label.py', "            if val > record['value']:\n", "            if val >= record['value']:\n")],
     'two cells of a label that share the largest value',
     'the last of the cells with the largest value is given, not the first', '''
import numpy as np
from malstroem.algorithms import label
m = label.label_max_index(np.array([[3.0, 7.0, 7.0]]), np.array([[1, 1, 1]]))
assert (m[1]['row'], m[1]['col']) == (0, 1), m
''')

seed('c05-tiny-drop', 'C05',
     [('malstroem/algorithms/flow.py', "            i = FLOWDIR_NODIR\n            dzmax = 0.0\n", "            i = FLOWDIR_NODIR\n            dzmax = 1e-12\n")],
     'a cell whose steepest drop is smaller than 1e-12',
     'cells with a very small drop get no flow direction', '''
import numpy as np
from malstroem.algorithms import flow, speedups
speedups.disable()
t = np.full((3, 3), 1e-3)
t[1, 2] = 1e-3 - 1e-14
f = flow.terrain_flowdirection(t)
assert f[1, 1] == 2, f
''')
