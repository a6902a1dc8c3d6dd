"""Reference computations of the reader and writer layer against GDAL and OGR calls: analysed, never executed."""
import json
from pathlib import Path
from tempfile import TemporaryDirectory

import numpy as np
from msa import holds
from osgeo import gdal, ogr, osr

from malstroem import io, vector

# ---------------------------------------------------------------------------------------------- rasters (C18, C20)


def run_raster_values(filepath, nodatasubst):
    return io.RasterReader(filepath, nodatasubst).read()


def raster_values(filepath, nodatasubst):
    band = gdal.Open(filepath).GetRasterBand(1)
    nodata = band.GetNoDataValue()
    data = band.ReadAsArray()
    if nodata is not None and nodatasubst is not None:
        mask = np.isnan(data) if np.isnan(nodata) else np.isclose(data, nodata)
        data = data.astype(np.result_type(data.dtype, np.min_scalar_type(nodatasubst)), copy=False)
        data[mask] = nodatasubst
    return data


def run_raster_meta(filepath):
    r = io.RasterReader(filepath)
    return dict(transform=r.transform, crs=r.crs, nodata=r.nodata, filepath=r.filepath)


def raster_meta(filepath):
    ds = gdal.Open(filepath)
    return dict(transform=ds.GetGeoTransform(), crs=ds.GetProjection(), nodata=ds.GetRasterBand(1).GetNoDataValue(), filepath=filepath)


def run_raster_size(filepath):
    r = io.RasterReader(filepath)
    return dict(shape=r.shape, resolution=r.resolution)


def raster_size(filepath):
    ds = gdal.Open(filepath)
    t = ds.GetGeoTransform()
    return dict(shape=(ds.RasterYSize, ds.RasterXSize), resolution=(abs(t[5]), abs(t[1])))


def run_raster_write(filepath, transform, crs, nodata, data):
    io.RasterWriter(filepath, transform, crs, nodata).write(data)


def raster_write(filepath, transform, crs, nodata, data):
    def write(data):
        options = dict(tiled='yes', compress='deflate', bigtiff='if_safer')
        if data.dtype == np.float64:
            kind = gdal.GDT_Float64
        elif data.dtype == np.float32:
            kind = gdal.GDT_Float32
        elif data.dtype == np.int32:
            kind = gdal.GDT_Int32
        elif data.dtype == np.uint32:
            kind = gdal.GDT_UInt32
        elif data.dtype == np.int16:
            kind = gdal.GDT_Int16
        elif data.dtype == np.uint16:
            kind = gdal.GDT_UInt16
        elif data.dtype == np.uint8:
            kind = gdal.GDT_Byte
        else:
            low = data.min()
            high = data.max()
            if data.dtype.kind in ('i', 'u'):
                if low >= 0 and high <= 255:
                    return write(data.astype('uint8'))
                if low >= 0 and high <= 65535:
                    return write(data.astype('uint16'))
                if low >= 0 and high <= 4294967295:
                    return write(data.astype('uint32'))
                if low < 0 and low >= -32768 and high <= 32767:
                    return write(data.astype('int16'))
                if low < 0 and low >= -2147483648 and high <= 2147483647:
                    return write(data.astype('int32'))
                raise NotImplementedError('no type')
            if low >= -3.4028235e+38 and high <= 3.4028235e+38:
                return write(data.astype('float32'))
            return write(data.astype('float64'))
        if data.dtype != np.float64:
            options['predictor'] = 2
        ds = gdal.GetDriverByName('gtiff').Create(filepath, data.shape[1], data.shape[0], 1, kind, ['{}={}'.format(k, v) for k, v in options.items()])
        assert ds is not None
        if transform:
            ds.SetGeoTransform(transform)
        if crs:
            ds.SetProjection(crs)
        band = ds.GetRasterBand(1)
        if nodata is not None:
            band.SetNoDataValue(nodata)
        band.WriteArray(data, 0, 0)

    write(data)


# ---------------------------------------------------------------------------------------------- vectors (C19, C20)


def run_vector_read(datasource, layername):
    r = io.VectorReader(datasource, layername)
    return (r.read_geojson_features(), r.crs)


def vector_read(datasource, layername):
    ds = ogr.Open(datasource, update=0)
    if ds is None:
        raise Exception('datasource')
    if isinstance(layername, int):
        layer = ds.GetLayerByIndex(layername)
    elif layername:
        layer = ds.GetLayerByName(str(layername))
    else:
        layer = ds.GetLayerByIndex(0)
    if layer is None:
        raise Exception('layer')
    features = []
    crs = layer.GetSpatialRef().ExportToWkt() if layer.GetSpatialRef() else None
    f = layer.GetNextFeature()
    while f:
        features.append(json.loads(f.ExportToJson()))
        f = layer.GetNextFeature()
    layer.ResetReading()
    return (features, crs)


def run_vector_write(driver, datasource, layername, fields, geomtype, crs, dsco, lco, features):
    io.VectorWriter(driver, datasource, layername, fields, geomtype, crs, dsco, lco).write_geojson_features(features)


def run_vector_held(driver, datasource, layername, fields, geomtype, crs, dsco, lco, features):
    w = io.VectorWriter(driver, datasource, layername, fields, geomtype, crs, dsco, lco)
    w.write_geojson_features(features)
    return holds(w)


def vector_held(driver, datasource, layername, fields, geomtype, crs, dsco, lco, features):
    run_vector_write(driver, datasource, layername, fields, geomtype, crs, dsco, lco, features)
    return False


def vector_write(driver, datasource, layername, fields, geomtype, crs, dsco, lco, features):
    fields = list(fields) if fields else []
    srs = osr.SpatialReference()
    if geomtype != ogr.wkbNone or crs:
        srs.ImportFromWkt(crs)
    drv = ogr.GetDriverByName(driver)
    try:
        ds = ogr.Open(datasource, update=1)
    except:
        ds = None
    if ds is None:
        ds = drv.CreateDataSource(datasource, options=dsco)
    if ds is None:
        raise Exception('datasource')
    layer = ds.GetLayerByName(str(layername))
    if layer is None:
        layer = ds.CreateLayer(str(layername), srs, geomtype, lco)
    with TemporaryDirectory() as d:
        p = Path(d) / 'tmp.geojson'
        with open(p, 'w') as f:
            if not isinstance(features, dict) or features.get('type', None) == 'Feature':
                f.write('{"type":"FeatureCollection","features":[')
                for i, feature in enumerate(features):
                    if i > 0:
                        f.write(',')
                    json.dump(feature, f)
                f.write(']}')
            else:
                json.dump(features, f)
        tmp = ogr.GetDriverByName('GeoJSON').Open(str(p))
        assert tmp is not None
        source = tmp.GetLayerByIndex(0)
        started = False
        f = source.GetNextFeature()
        while f:
            if not started:
                definition = f.GetDefnRef()
                for i in range(definition.GetFieldCount()):
                    fields.append(definition.GetFieldDefn(i))
                for x in fields:
                    layer.CreateField(x)
                started = True
                layer.StartTransaction()
            target = ogr.Feature(layer.GetLayerDefn())
            target.SetFrom(f, forgiving=1)
            err = layer.CreateFeature(target)
            if err:
                raise Exception('feature')
            f = source.GetNextFeature()
        if started:
            layer.CommitTransaction()


# ---------------------------------------------------------------------------------------------- polygons


def run_polygons(labeled_file, id_attribute):
    return list(vector.vectorize_labels_file(labeled_file, id_attribute))


def polygons(labeled_file, id_attribute):
    band = gdal.Open(labeled_file).GetRasterBand(1)
    ds = ogr.GetDriverByName('Memory').CreateDataSource('out')
    layer = ds.CreateLayer('poly', None, ogr.wkbPolygon)
    layer.CreateField(ogr.FieldDefn(id_attribute, ogr.OFTInteger))
    if gdal.Polygonize(band, band.GetMaskBand(), layer, 0, ['8CONNECTED=8']) != 0:
        raise Exception('failed')
    features = []
    f = layer.GetNextFeature()
    while f:
        features.append(json.loads(f.ExportToJson()))
        f.Destroy()
        f = layer.GetNextFeature()
    return features


def polygons_io(labeled_file, out_ds, out_layer, out_format, out_dsco, out_lco, id_attribute, quiet):
    src = gdal.Open(labeled_file)
    band = src.GetRasterBand(1)
    try:
        ds = ogr.Open(out_ds, update=1)
    except:
        ds = None
    if not ds:
        ds = ogr.GetDriverByName(out_format).CreateDataSource(out_ds, options=out_dsco)
    layer = ds.CreateLayer(out_layer, geom_type=ogr.wkbPolygon, srs=src.GetSpatialRef(), options=out_lco)
    layer.CreateField(ogr.FieldDefn(id_attribute, ogr.OFTInteger))
    gdal.Polygonize(band, band.GetMaskBand(), layer, 0, ['8CONNECTED=8'], callback=None if quiet else gdal.TermProgress_nocb)


def centre(cell, geotransform):
    return gdal.ApplyGeoTransform(geotransform, cell[1] + 0.5, cell[0] + 0.5)


# calls that leave optional parameters to their defaults
def run_raster_values_plain(filepath):
    return io.RasterReader(filepath).read()


def raster_values_plain(filepath):
    return raster_values(filepath, None)


def run_raster_write_plain(filepath, transform, crs, data):
    io.RasterWriter(filepath, transform, crs).write(data)


def raster_write_plain(filepath, transform, crs, data):
    raster_write(filepath, transform, crs, None, data)


def run_vector_read_plain(datasource):
    r = io.VectorReader(datasource)
    return (r.read_geojson_features(), r.crs)


def vector_read_plain(datasource):
    return vector_read(datasource, None)


def run_vector_write_plain(driver, datasource, layername, fields, geomtype, crs, features):
    io.VectorWriter(driver, datasource, layername, fields, geomtype, crs).write_geojson_features(features)


def vector_write_plain(driver, datasource, layername, fields, geomtype, crs, features):
    vector_write(driver, datasource, layername, fields, geomtype, crs, [], [], features)


def run_polygons_plain(labeled_file):
    return list(vector.vectorize_labels_file(labeled_file))


def polygons_plain(labeled_file):
    return polygons(labeled_file, 'bspot_id')
