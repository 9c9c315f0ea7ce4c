from shapely.geometry.base import BaseGeometry
from shapely.geometry.linestring import LinearRing


def _inside(p, ring):
    x, y = p
    inside = False
    for (xi, yi), (xj, yj) in zip(ring, ring[1:]):
        if (yi > y) != (yj > y) and \
                x < (xj - xi) * (y - yi) / (yj - yi) + xi:
            inside = not inside
    return inside


class Polygon(BaseGeometry):
    def __init__(self, shell=None, holes=None):
        self.exterior = LinearRing(shell if shell is not None else ())
        self.interiors = [LinearRing(h) for h in holes or ()]

    def _points(self):
        return self.exterior._points()

    def _atoms(self):
        return [self] if self._points() else []

    def _covers(self, p):
        return _inside(p, self.exterior._pts) and not any(
            _inside(p, h._pts) for h in self.interiors)

    def _dist(self, p):
        if self._covers(p):
            return 0.0
        return min(r._dist(p) for r in [self.exterior] + self.interiors)

    @property
    def length(self):
        return self.exterior.length + sum(h.length for h in self.interiors)

    @property
    def boundary(self):
        from shapely.geometry.base import collect
        return collect([self.exterior] + self.interiors) \
            if self.interiors else self.exterior

    @property
    def centroid(self):
        from shapely.geometry.point import Point
        ring = self.exterior._pts
        w = [a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:])]
        return Point(*[sum(c * (a[k] + b[k]) for c, a, b in
                           zip(w, ring, ring[1:])) / (3 * sum(w))
                       for k in (0, 1)])

    def _key(self):
        return (self.exterior._key(),) + tuple(
            h._key() for h in self.interiors)

    @property
    def area(self):
        def size(p):
            return abs(sum(a[0] * b[1] - b[0] * a[1]
                           for a, b in zip(p, p[1:]))) / 2
        return size(self.exterior._pts) - sum(
            size(h._pts) for h in self.interiors)

    @property
    def is_valid(self):
        return self.area > 0

    @property
    def __geo_interface__(self):
        return {'type': 'Polygon', 'coordinates':
                tuple(tuple(r._pts) for r in
                      [self.exterior] + self.interiors)}
