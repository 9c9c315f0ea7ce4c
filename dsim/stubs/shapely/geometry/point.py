from shapely.geometry.base import BaseGeometry, CoordinateSequence, pt
import math


class Point(BaseGeometry):
    def __init__(self, *args):
        self._p = pt(args[0] if len(args) == 1 else args)

    def _points(self):
        return [self._p]

    def _atoms(self):
        return [self]

    def _dist(self, p):
        return math.dist(self._p, p)

    def _covers(self, p):
        return self._p == tuple(p)

    area = length = 0.0

    def _key(self):
        return self._p

    @property
    def coords(self):
        return CoordinateSequence([self._p])

    x = property(lambda self: self._p[0])
    y = property(lambda self: self._p[1])

    def buffer(self, distance, resolution=16, **kw):
        from shapely.geometry.polygon import Polygon
        n = 4 * resolution
        return Polygon([(self._p[0] + distance * math.cos(2*math.pi*k/n),
                         self._p[1] + distance * math.sin(2*math.pi*k/n))
                        for k in range(n)])

    def __array__(self, dtype=None):
        import numpy as np
        return np.array(self._p, dtype=dtype or np.float64)

    @property
    def __geo_interface__(self):
        return {'type': 'Point', 'coordinates': self._p}
