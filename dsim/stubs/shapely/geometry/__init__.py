from shapely.geometry.base import BaseGeometry, BaseMultipartGeometry, collect
from shapely.geometry.point import Point
from shapely.geometry.linestring import LineString, LinearRing
from shapely.geometry.polygon import Polygon


class MultiPoint(BaseMultipartGeometry):
    def _make(self, p):
        return Point(p)


class MultiLineString(BaseMultipartGeometry):
    def _make(self, p):
        return LineString(p)


class MultiPolygon(BaseMultipartGeometry):
    def _make(self, p):
        return Polygon(p[0], p[1:] if len(p) > 1 else None)


class GeometryCollection(BaseMultipartGeometry):
    @property
    def __geo_interface__(self):
        return {'type': 'GeometryCollection',
                'geometries': [g.__geo_interface__ for g in self._parts]}


def mapping(ob):
    """GeoJSON-like mapping (shapely.geometry.mapping)."""
    return ob.__geo_interface__


def shape(context):
    """Geometry of a GeoJSON-like mapping (shapely.geometry.shape)."""
    ob = context.__geo_interface__ if hasattr(context, '__geo_interface__') \
        else context
    kind = ob.get('type').lower()
    if kind == 'point':
        return Point(ob['coordinates'])
    if kind == 'linestring':
        return LineString(ob['coordinates'])
    if kind == 'linearring':
        return LinearRing(ob['coordinates'])
    if kind == 'polygon':
        c = ob['coordinates']
        return Polygon(c[0], c[1:])
    if kind == 'multipoint':
        return MultiPoint(ob['coordinates'])
    if kind == 'multilinestring':
        return MultiLineString(ob['coordinates'])
    if kind == 'multipolygon':
        return MultiPolygon(ob['coordinates'])
    if kind == 'geometrycollection':
        parts = [shape(g) for g in ob.get('geometries', [])]
        return GeometryCollection(parts) if parts else BaseGeometry()
    raise ValueError('Unknown geometry type: %s' % kind)


asShape = shape
