"""Reference computations of the command line layer, over a symbolic file store: analysed, never executed.

The classes model readers and writers (their own behaviour against GDAL and OGR is decided by the io obligations): a write binds a path to a
value and is recorded as the effect `wrote`; a reader binds the value its path has when it is opened."""
import os

import click
import numpy as np
from msa import wrote, disk_raster, disk_layer, substituted, stored_array, stored_features, polygons, stream_nodes, stream_lines, uniform_volumes, \
    raster_volumes, routing_surface, final_state_of, hypsometry_of, levels_of, depths_of, extents_of, polygon_features
from osgeo import ogr

from malstroem.algorithms import dtypes, fill, flow, label
from malstroem.bluespots import BluespotTool, assemble_pourpoints, filterbluespots
from malstroem.dem import DemTool
from malstroem.scripts._utils import parse_filter
from specs.tools import Grid, Sink, bluespot_tool, cell_size, dem_tool, passing

FILES = {}
LAYERS = {}


class RasterFile:
    def __init__(self, transform, crs, nodata, data):
        self.transform = transform
        self.crs = crs
        self.nodata = nodata
        self.data = data


class Layer:
    def __init__(self, crs, features):
        self.crs = crs
        self.features = features


class RasterReader:
    def __init__(self, filepath, nodatasubst=None):
        self.filepath = filepath
        self.nodatasubst = nodatasubst
        self._file = FILES[filepath] if filepath in FILES else disk_raster(filepath)
        self.transform = self._file.transform
        self.crs = self._file.crs
        self.nodata = self._file.nodata

    def read(self):
        return substituted(self._file.data, self._file.nodata, self.nodatasubst)


class RasterWriter:
    def __init__(self, filepath, transform, crs, nodata=None):
        self.filepath = filepath
        self.transform = transform
        self.crs = crs
        self.nodata = nodata

    def write(self, data):
        FILES[self.filepath] = RasterFile(self.transform, self.crs, self.nodata, stored_array(data))
        wrote(self.filepath, ('raster', self.transform, self.crs, self.nodata, data))


class GeorefRasterWriter(RasterWriter):
    def write(self, data):
        FILES[self.filepath] = RasterFile(self.transform, self.crs, self.nodata, stored_array(data))
        wrote(self.filepath, (self.transform, self.crs))


class PathRasterWriter(RasterWriter):
    def write(self, data):
        FILES[self.filepath] = RasterFile(self.transform, self.crs, self.nodata, stored_array(data))
        wrote(self.filepath, 'file')


class VectorReader:
    def __init__(self, datasource, layername=None):
        self.datasource = datasource
        self.layername = layername
        self._layer = LAYERS[os.path.join(datasource, layername)] if os.path.join(datasource, layername) in LAYERS else disk_layer(datasource, layername)
        self.crs = self._layer.crs

    def read_geojson_features(self):
        return self._layer.features


class VectorWriter:
    def __init__(self, driver, datasource, layername, fields, geomtype, crs, dsco=[], lco=[]):
        self.driver = driver
        self.datasource = datasource
        self.layername = layername
        self.fields = list(fields) if fields else []
        self.geomtype = geomtype
        self.crs = crs
        self.dsco = dsco
        self.lco = lco

    def write_geojson_features(self, geojsonfeatures):
        LAYERS[os.path.join(self.datasource, self.layername)] = Layer(self.crs, stored_features(geojsonfeatures))
        wrote((self.datasource, self.layername), ('layer', self.driver, self.geomtype, self.crs, self.dsco, self.lco, geojsonfeatures))


class GeorefVectorWriter(VectorWriter):
    def write_geojson_features(self, geojsonfeatures):
        LAYERS[os.path.join(self.datasource, self.layername)] = Layer(self.crs, stored_features(geojsonfeatures))
        wrote((self.datasource, self.layername), self.crs)


class PathVectorWriter(VectorWriter):
    def write_geojson_features(self, geojsonfeatures):
        LAYERS[os.path.join(self.datasource, self.layername)] = Layer(self.crs, stored_features(geojsonfeatures))
        wrote(self.datasource, 'file')


# what a command computes, whatever it is called and however it is referenced
class DataRasterReader(RasterReader):
    def read(self):
        return self._file.data


class DataRasterWriter(RasterWriter):
    def write(self, data):
        FILES[self.filepath] = RasterFile(self.transform, self.crs, self.nodata, stored_array(data))
        wrote('raster', data)


class DataVectorWriter(VectorWriter):
    def write_geojson_features(self, geojsonfeatures):
        LAYERS[os.path.join(self.datasource, self.layername)] = Layer(self.crs, stored_features(geojsonfeatures))
        wrote('layer', geojsonfeatures)


def data_no_flats(dtm, short=0, diag=0):
    return routing_surface(dtm)


# the drops handed to the filling
class DropsRasterWriter(RasterWriter):
    def write(self, data):
        FILES[self.filepath] = RasterFile(self.transform, self.crs, self.nodata, stored_array(data))


class DropsVectorWriter(VectorWriter):
    def write_geojson_features(self, geojsonfeatures):
        LAYERS[os.path.join(self.datasource, self.layername)] = Layer(self.crs, stored_features(geojsonfeatures))


def drops_no_flats(dtm, short=0, diag=0):
    wrote('filled without flats', (dtm, short, diag))
    return routing_surface(dtm)


class StreamTool:
    def __init__(self, input_pourpoints, input_bluespots, input_flowdir, output_nodes, output_streams):
        self.input_pourpoints = input_pourpoints
        self.input_bluespots = input_bluespots
        self.input_flowdir = input_flowdir
        self.output_nodes = output_nodes
        self.output_streams = output_streams

    def process(self):
        f = (self.input_pourpoints.read_geojson_features(), self.input_bluespots.read(), self.input_flowdir.read(), self.input_flowdir.transform)
        self.output_nodes.write_geojson_features(stream_nodes(*f))
        if self.output_streams is not None:
            self.output_streams.write_geojson_features(stream_lines(*f))


class SimpleVolumeTool:
    def __init__(self, input_nodes, output_volumedata, output_volume_attribute, rainmm):
        self.input_nodes = input_nodes
        self.output_volumedata = output_volumedata
        self.attribute = output_volume_attribute
        self.rainmm = rainmm

    def process(self):
        self.output_volumedata.write_geojson_features(uniform_volumes(self.input_nodes.read_geojson_features(), self.attribute, self.rainmm))


class RasterVolumeTool:
    def __init__(self, input_nodes, input_bluespots, input_precip, input_precip_unit, output_volumedata, output_volume_attribute):
        self.input_nodes = input_nodes
        self.bluespots = input_bluespots
        self.precip = input_precip
        self.unit = input_precip_unit
        self.output_volumedata = output_volumedata
        self.attribute = output_volume_attribute

    def process(self):
        f = raster_volumes(self.input_nodes.read_geojson_features(), self.bluespots.read(), self.bluespots.transform, self.precip.read(), self.unit, self.attribute)
        self.output_volumedata.write_geojson_features(f)


class FinalStateCalculator:
    def __init__(self, input_nodes, input_volumes_attribute, output_events):
        self.input_nodes = input_nodes
        self.attribute = input_volumes_attribute
        self.output_events = output_events

    def process(self):
        self.output_events.write_geojson_features(final_state_of(self.input_nodes.read_geojson_features(), self.attribute))


def bluespot_hypsometry_io(bluespots_reader, dem_reader, pourpoints_reader, resolution, hyps_writer):
    f = hypsometry_of(bluespots_reader.read(), dem_reader.read(), dem_reader.transform, pourpoints_reader.read_geojson_features(), resolution)
    hyps_writer.write_geojson_features(f)


def approx_water_level_io(finalvols_reader, hyps_reader, levels_writer):
    levels_writer.write_geojson_features(levels_of(finalvols_reader.read_geojson_features(), hyps_reader.read_geojson_features()))


def approx_bluespots_io(bluespot_labels_reader, bluespot_water_levels_reader, dem_reader, approx_depths_writer, approx_bluespot_labels_writer, background_label=0):
    f = (bluespot_labels_reader.read(), bluespot_water_levels_reader.read_geojson_features(), dem_reader.read(), background_label)
    if approx_depths_writer:
        approx_depths_writer.write(depths_of(*f))
    if approx_bluespot_labels_writer:
        approx_bluespot_labels_writer.write(extents_of(*f))


def vectorize_labels_file(labeled_file, id_attribute='bspot_id'):
    f = FILES[labeled_file] if labeled_file in FILES else disk_raster(labeled_file)
    return polygon_features(f.data, f.nodata, f.transform, id_attribute)


def vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_dsco=[], out_lco=[], id_attribute='bspot_id', quiet=False):
    f = FILES[labeled_file] if labeled_file in FILES else disk_raster(labeled_file)
    p = polygons(f.data, f.nodata, f.transform, id_attribute)
    LAYERS[os.path.join(out_ds, out_layer)] = Layer(f.crs, p)
    wrote((out_ds, out_layer), ('layer', out_format, ogr.wkbPolygon, f.crs, out_dsco, out_lco, p))


# ---------------------------------------------------------------------------------------------- commands

NODATA = -999


def filled(dem, out):
    d = RasterReader(dem, NODATA)
    RasterWriter(out, d.transform, d.crs, NODATA).write(fill.fill_terrain(d.read()))


def depths(dem, filled, out):
    d = RasterReader(dem, NODATA)
    z = d.read().astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
    RasterWriter(out, d.transform, d.crs, NODATA).write(RasterReader(filled, NODATA).read() - z)


def flowdir(dem, out):
    d = RasterReader(dem, NODATA)
    z = d.read()
    short, diag = fill.minimum_safe_short_and_diag(z)
    RasterWriter(out, d.transform, d.crs, NODATA).write(flow.terrain_flowdirection(fill.fill_terrain_no_flats(z, short, diag), True))


def accum(flowdir, out):
    f = RasterReader(flowdir)
    RasterWriter(out, f.transform, f.crs).write(flow.accumulated_flow(f.read()))


def bspots(depths, out, filter):
    d = RasterReader(depths)
    values = d.read()
    labels, n = label.connected_components(values)
    if filter:
        keep = passing(parse_filter(filter), cell_size(d.transform), label.label_stats(values, labels))
        labels, n = label.connected_components(label.keep_labels(labels, keep))
    RasterWriter(out, d.transform, d.crs, 0).write(labels)


def wsheds(bluespots, flowdir, out):
    b = RasterReader(bluespots)
    w = b.read()
    flow.watersheds_from_labels(RasterReader(flowdir).read(), w, 0)
    RasterWriter(out, b.transform, b.crs, 0).write(w)


def pourpts(bluespots, depths, watersheds, dem, accum, out, format, layername, dsco, lco):
    labels = RasterReader(bluespots).read()
    d = RasterReader(depths)
    if not accum and not dem:
        raise Exception('neither')
    stats = label.label_stats(d.read(), labels)
    if accum:
        where = label.label_max_index(RasterReader(accum).read(), labels)
    else:
        z = RasterReader(dem, NODATA).read()
        short, diag = fill.minimum_safe_short_and_diag(z)
        where = label.label_min_index(fill.fill_terrain_no_flats(z, short, diag), labels)
    points = assemble_pourpoints(d.transform, where, stats, label.label_count(RasterReader(watersheds).read()))
    VectorWriter(format, out, layername, None, ogr.wkbPoint, d.crs, dsco, lco).write_geojson_features(dict(type='FeatureCollection', features=points))


def polys(raster, out, format, layername, dsco, lco):
    vectorize_labels_file_io(raster, out, layername, format, dsco, lco)


def network(bluespots, flowdir, pourpoints, pourpoints_layer, out, out_nodes_layer, out_streams_layer, format, dsco, lco):
    f = RasterReader(flowdir)
    StreamTool(VectorReader(pourpoints, pourpoints_layer), RasterReader(bluespots), f,
               VectorWriter(format, out, out_nodes_layer, None, ogr.wkbPoint, f.crs, dsco, lco),
               VectorWriter(format, out, out_streams_layer, None, ogr.wkbLineString, f.crs, dsco, lco)).process()


def hyps(bluespots, dem, pourpoints, pourpoints_layer, zresolution, out, out_hyps_layer, format, dsco, lco):
    d = RasterReader(dem, NODATA)
    bluespot_hypsometry_io(RasterReader(bluespots), d, VectorReader(pourpoints, pourpoints_layer), zresolution,
                           VectorWriter(format, out, out_hyps_layer, None, ogr.wkbNone, d.crs, dsco, lco))


def initvolumes(nodes, nodes_layer, mm, pr, pr_unit, bluespots, out, out_layer, out_attribute, format, dsco, lco):
    if mm is not None and pr:
        raise click.UsageError('both')
    if mm is None and not pr:
        raise click.UsageError('none')
    n = VectorReader(nodes, nodes_layer)
    w = VectorWriter(format, out, out_layer, None, ogr.wkbPoint, n.crs, dsco, lco)
    if mm is not None:
        SimpleVolumeTool(n, w, out_attribute, mm).process()
    else:
        if not bluespots:
            raise click.UsageError('no bluespots')
        RasterVolumeTool(n, RasterReader(bluespots), RasterReader(pr), pr_unit, w, out_attribute).process()


def finalvolumes(inputvolumes, inputvolumes_layer, attribute, out, out_layer, format, dsco, lco):
    v = VectorReader(inputvolumes, inputvolumes_layer)
    FinalStateCalculator(v, attribute, VectorWriter(format, out, out_layer, None, ogr.wkbPoint, v.crs, dsco, lco)).process()


def finallevels(finalvols, finalvols_layer, hyps, hyps_layer, out, out_layer, format, dsco, lco):
    v = VectorReader(finalvols, finalvols_layer)
    approx_water_level_io(v, VectorReader(hyps, hyps_layer), VectorWriter(format, out, out_layer, None, ogr.wkbNone, v.crs, dsco, lco))


def finalbluespots(bluespots, dem, finallevels, finallevels_layer, out_depths, out_bluespots):
    if not out_depths and not out_bluespots:
        raise click.UsageError('no output')
    b = RasterReader(bluespots)
    approx_bluespots_io(b, VectorReader(finallevels, finallevels_layer), RasterReader(dem, NODATA),
                        RasterWriter(out_depths, b.transform, b.crs) if out_depths else None,
                        RasterWriter(out_bluespots, b.transform, b.crs, 0) if out_bluespots else None)


def complete(dem, outdir, accum, filter, mm, zresolution, vector):
    if not os.path.isdir(outdir) or os.listdir(outdir):
        raise click.ClickException('not empty')
    accept = parse_filter(filter)
    gpkg = os.path.join(outdir, 'malstroem.gpkg')
    d = RasterReader(dem, NODATA)
    t, crs = d.transform, d.crs

    def raster(name, nodata=None):
        return RasterWriter(os.path.join(outdir, name), t, crs, nodata)

    def layer(name, kind):
        return VectorWriter('gpkg', gpkg, name, None, kind, crs, [], ['SPATIAL_INDEX=NO'])

    dem_tool(d, raster('filled.tif', NODATA), raster('flowdir.tif'), raster('bs_depths.tif'), raster('accum.tif') if accum else None)
    bluespot_tool(RasterReader(os.path.join(outdir, 'bs_depths.tif')), RasterReader(os.path.join(outdir, 'flowdir.tif')), accept,
                  raster('bluespots.tif', 0), layer('pourpoints', ogr.wkbPoint), raster('watersheds.tif', 0),
                  RasterReader(os.path.join(outdir, 'accum.tif')) if accum else None, d,
                  layer('bluespots', ogr.wkbPolygon) if vector else None, layer('watersheds', ogr.wkbPolygon) if vector else None)
    labels = RasterReader(os.path.join(outdir, 'bluespots.tif'))
    StreamTool(VectorReader(gpkg, 'pourpoints'), labels, RasterReader(os.path.join(outdir, 'flowdir.tif')), layer('nodes', ogr.wkbPoint),
               layer('streams', ogr.wkbLineString)).process()
    SimpleVolumeTool(VectorReader(gpkg, 'nodes'), layer('initvolumes', ogr.wkbPoint), 'inputv', mm).process()
    FinalStateCalculator(VectorReader(gpkg, 'initvolumes'), 'inputv', layer('finalstate', ogr.wkbPoint)).process()
    bluespot_hypsometry_io(labels, d, VectorReader(gpkg, 'pourpoints'), zresolution, VectorWriter('gpkg', gpkg, 'hypsometry', None, ogr.wkbNone, crs))
    approx_water_level_io(VectorReader(gpkg, 'finalstate'), VectorReader(gpkg, 'hypsometry'), VectorWriter('gpkg', gpkg, 'finallevels', None, ogr.wkbNone, crs))
    approx_bluespots_io(labels, VectorReader(gpkg, 'finallevels'), d, raster('finaldepths.tif'), raster('finalbluespots.tif', 0))
    vectorize_labels_file_io(os.path.join(outdir, 'finalbluespots.tif'), gpkg, 'finalbluespots', 'gpkg', [], ['SPATIAL_INDEX=NO'])


# polygonised layers take their reference from the raster they are made of
def georef_vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_dsco=[], out_lco=[], id_attribute='bspot_id', quiet=False):
    f = FILES[labeled_file] if labeled_file in FILES else disk_raster(labeled_file)
    LAYERS[os.path.join(out_ds, out_layer)] = Layer(f.crs, polygons(f.data, f.nodata, f.transform, id_attribute))
    wrote((out_ds, out_layer), (f.transform, f.crs))


def path_vectorize_labels_file_io(labeled_file, out_ds, out_layer, out_format, out_dsco=[], out_lco=[], id_attribute='bspot_id', quiet=False):
    f = FILES[labeled_file] if labeled_file in FILES else disk_raster(labeled_file)
    LAYERS[os.path.join(out_ds, out_layer)] = Layer(f.crs, polygons(f.data, f.nodata, f.transform, id_attribute))
    wrote(out_ds, 'file')


# ---------------------------------------------------------------------------------------------- drops in the tools


def run_dem_drops(dem):
    DemTool(Grid(1.0, 1.0, dem), Sink(), Sink(), Sink(), Sink()).process()


def dem_drops(dem):
    z = dem.astype(dtypes.DTYPE_DTM, casting='same_kind', copy=False)
    short, diag = fill.minimum_safe_short_and_diag(z)
    fill.fill_terrain_no_flats(z, short, diag)


def run_bluespot_drops(depths, flowdir, dem):
    BluespotTool(Grid(1.0, 1.0, depths), Grid(1.0, 1.0, flowdir), None, Sink(), Sink(), Sink(), input_dem=Grid(1.0, 1.0, dem)).process()


def bluespot_drops(depths, flowdir, dem):
    short, diag = fill.minimum_safe_short_and_diag(dem)
    fill.fill_terrain_no_flats(dem, short, diag)
