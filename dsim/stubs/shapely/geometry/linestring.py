import math

from shapely.geometry.base import BaseGeometry, CoordinateSequence, pt


def _segment(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = 0.0 if n == 0 else max(0.0, min(1.0, (
        (p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def _overlap(a, b, c, d):
    """The part of the segment a-b that lies on c-d, as two parameters."""
    n = math.dist(a, b)
    if n == 0:
        return None
    ux, uy = (b[0] - a[0]) / n, (b[1] - a[1]) / n
    ts = []
    for p in (c, d):
        if abs(ux * (p[1] - a[1]) - uy * (p[0] - a[0])) > 1e-9:
            return None
        ts.append((ux * (p[0] - a[0]) + uy * (p[1] - a[1])) / n)
    lo, hi = max(0.0, min(ts)), min(1.0, max(ts))
    return (lo, hi) if hi > lo else None


class LineString(BaseGeometry):
    def __init__(self, coordinates=()):
        if isinstance(coordinates, LineString):
            coordinates = coordinates._pts
        self._pts = [pt(p) for p in coordinates]
        if len(self._pts) == 1:
            raise ValueError('LineStrings must have at least 2 tuples')

    def _points(self):
        return list(self._pts)

    def _atoms(self):
        return [self] if self._pts else []

    def _dist(self, p):
        return min([_segment(p, a, b)
                    for a, b in zip(self._pts, self._pts[1:])] or
                   [float('inf')])

    def _covers(self, p):
        return self._dist(p) <= 0

    @property
    def length(self):
        return sum(math.dist(a, b) for a, b in zip(self._pts, self._pts[1:]))

    area = 0.0

    @property
    def is_closed(self):
        return bool(self._pts) and self._pts[0] == self._pts[-1]

    @property
    def centroid(self):
        from shapely.geometry.point import Point
        total = self.length
        return Point(*[sum(math.dist(a, b) * (a[k] + b[k]) / 2
                           for a, b in zip(self._pts, self._pts[1:])) / total
                       for k in (0, 1)])

    def _minus(self, gone):
        """Without the parts that lie on segments of other lines."""
        out, cur = [], [self._pts[0]]
        for a, b in zip(self._pts, self._pts[1:]):
            pieces = [(0.0, 1.0)]
            for g in gone:
                if not isinstance(g, LineString):
                    continue
                for c, d in zip(g._pts, g._pts[1:]):
                    iv = _overlap(a, b, c, d)
                    if iv:
                        pieces = [q for lo, hi in pieces for q in
                                  ((lo, min(hi, iv[0])),
                                   (max(lo, iv[1]), hi)) if q[1] > q[0]]
            for lo, hi in pieces:
                p = tuple(a[k] + lo * (b[k] - a[k]) for k in (0, 1)) \
                    if lo > 0 else a
                q = tuple(a[k] + hi * (b[k] - a[k]) for k in (0, 1)) \
                    if hi < 1 else b
                if cur[-1] != p:
                    if len(cur) > 1:
                        out.append(cur)
                    cur = [p]
                cur.append(q)
        if len(cur) > 1:
            out.append(cur)
        if len(out) > 1 and out[0][0] == out[-1][-1]:
            out[0] = out.pop() + out[0][1:]
        if len(out) == 1 and out[0] == self._pts:
            return [self]
        return [LineString(p) for p in out]

    def _key(self):
        return tuple(self._pts)

    @property
    def coords(self):
        return CoordinateSequence(self._pts)

    def __array__(self, dtype=None):
        import numpy as np
        return np.array(self._pts, dtype=dtype or np.float64)

    @property
    def __geo_interface__(self):
        return {'type': type(self).__name__, 'coordinates': tuple(self._pts)}


class LinearRing(LineString):
    def __init__(self, coordinates=()):
        super().__init__(coordinates)
        if self._pts and self._pts[0] != self._pts[-1]:
            self._pts.append(self._pts[0])
