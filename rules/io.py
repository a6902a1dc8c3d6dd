"""Obligations on readers, writers and polygonisation against GDAL and OGR calls (specs/io.py)."""
from msa.equiv import Ob
from msa.terms import mk
from rules.algo import zerowise

S = 'specs.io:'


def A(s):
    return {x: 'any' for x in s.split()}


OBS = [
    Ob('raster_values', S + 'run_raster_values', S + 'raster_values', A('filepath nodatasubst'), raises=True, props=('C18', 'C26')),
    Ob('raster_meta', S + 'run_raster_meta', S + 'raster_meta', A('filepath'), props=('C18', 'C20')),
    Ob('raster_size', S + 'run_raster_size', S + 'raster_size', A('filepath'), props=('C18',)),
    Ob('raster_zero', S + 'run_raster_values', S + 'raster_values', A('filepath nodatasubst'), {'.GetNoDataValue': (0, None), 'nodatasubst': (0, None)},
       raises=True, props=('C24',)),
    Ob('raster_write', S + 'run_raster_write', S + 'raster_write', A('filepath transform crs nodata data'), raises=True, anytype=True, props=('C18', 'C20')),
    Ob('vector_read', S + 'run_vector_read', S + 'vector_read', A('datasource layername'), raises=True, props=('C19', 'C20')),
    Ob('vector_write', S + 'run_vector_write', S + 'vector_write', A('driver datasource layername fields geomtype crs dsco lco features'), raises=True,
       props=('C19', 'C20')),
    Ob('vector_held', S + 'run_vector_held', S + 'vector_held', A('driver datasource layername fields geomtype crs dsco lco features'), events=False, never=True,
       at='malstroem/io.py in malstroem.io:VectorWriter.write_geojson_features', props=('C19',)),
    Ob('polygons', S + 'run_polygons', S + 'polygons', A('labeled_file id_attribute'), raises=True, props=('C19',)),
    Ob('polygons_io', 'malstroem.vector:vectorize_labels_file_io', S + 'polygons_io',
       A('labeled_file out_ds out_layer out_format out_dsco out_lco id_attribute quiet'), raises=True, props=('C19', 'C20', 'C21')),
    Ob('raster_values_defaults', S + 'run_raster_values_plain', S + 'raster_values_plain', A('filepath'), raises=True, props=('C18', 'C26')),
    Ob('raster_write_defaults', S + 'run_raster_write_plain', S + 'raster_write_plain', A('filepath transform crs data'), raises=True, anytype=True, props=('C18', 'C20')),
    Ob('vector_read_defaults', S + 'run_vector_read_plain', S + 'vector_read_plain', A('datasource'), raises=True, props=('C19', 'C20')),
    Ob('vector_write_defaults', S + 'run_vector_write_plain', S + 'vector_write_plain', A('driver datasource layername fields geomtype crs features'), raises=True,
       props=('C19', 'C20')),
    Ob('polygons_defaults', S + 'run_polygons_plain', S + 'polygons_plain', A('labeled_file'), raises=True, props=('C19',)),
    Ob('cell_centre', 'malstroem.vector:transform_cell_to_world', S + 'centre', dict(cell=mk('tuple', mk('sym', 'row', 'num'), mk('sym', 'col', 'num')), geotransform='any'), props=('C12', 'C20')),
]
RULES = [(o.props, (lambda ctx, o=o: [ctx.ob(o)])) for o in OBS]
RULES += [zerowise(o) for o in OBS if o.id in ('raster_write', 'raster_values', 'vector_read', 'vector_write', 'polygons')]
