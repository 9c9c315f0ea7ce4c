import math

import numpy as np


class BaseGeometry(object):
    _parts = ()

    # -- predicates
    @property
    def is_empty(self):
        return not self._points()

    @property
    def is_valid(self):
        return True

    def __bool__(self):
        return not self.is_empty

    # -- coordinates
    def _points(self):
        return [p for g in self._parts for p in g._points()]

    @property
    def bounds(self):
        pts = self._points()
        if not pts:
            return ()
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        return min(xs), min(ys), max(xs), max(ys)

    # -- algebra
    def _atoms(self):
        return [a for g in self._parts for a in g._atoms()]

    def union(self, other):
        return collect(self._atoms() + other._atoms())

    __or__ = union

    def difference(self, other):
        gone = other._atoms()
        if isinstance(other, Buffered):
            return Difference(self, other) if other._near(self) else self
        mine = [a for a in self._atoms() if a not in gone]
        out = []
        for atom in mine:
            out.extend(atom._minus(gone))
        return collect(out)

    __sub__ = difference

    def _minus(self, gone):
        return [self]

    def buffer(self, distance, resolution=16, **kw):
        return Buffered(self, distance)

    def intersection(self, other):
        return self

    # -- points and geometries
    def _dist(self, p):
        """Distance of a point (0 inside)."""
        return min([g._dist(p) for g in self._parts] or [float('inf')])

    def _covers(self, p):
        return any(g._covers(p) for g in self._parts)

    def distance(self, other):
        if len(other._points()) == 1:
            return self._dist(other._points()[0])
        if len(self._points()) == 1:
            return other._dist(self._points()[0])
        raise NotImplementedError('distance of two shapes')

    def contains(self, other):
        return not other.is_empty and all(
            self._covers(p) for p in other._points())

    covers = contains

    def within(self, other):
        return other.contains(self)

    def intersects(self, other):
        return self.distance(other) <= 0

    def disjoint(self, other):
        return not self.intersects(other)

    @property
    def length(self):
        return sum(g.length for g in self._parts)

    @property
    def area(self):
        return sum(g.area for g in self._parts)

    @property
    def convex_hull(self):
        from scipy.spatial.qhull import _hull
        from shapely.geometry.polygon import Polygon
        from shapely.geometry.linestring import LineString
        pts = self._points()
        idx = _hull(pts)
        if len(idx) < 3:
            return LineString([pts[i] for i in (idx or range(len(pts)))])
        return Polygon([pts[i] for i in idx])

    # -- identity
    def equals(self, other):
        return self == other

    def __eq__(self, other):
        return type(self) is type(other) and \
            self._key() == other._key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._key())

    def _key(self):
        return tuple(g._key() for g in self._parts)

    def __repr__(self):
        return '<%s %r>' % (type(self).__name__, self._key())

    @property
    def geom_type(self):
        return type(self).__name__

    type = geom_type

    @property
    def __geo_interface__(self):
        if not self._parts:
            return {'type': 'GeometryCollection', 'geometries': []}
        return {'type': type(self).__name__,
                'coordinates': tuple(g.__geo_interface__['coordinates']
                                     for g in self._parts)}


class Buffered(BaseGeometry):
    """All points within a distance of a geometry."""

    def __init__(self, geom, distance):
        self._parts = (geom,)
        self._width = float(distance)

    def _atoms(self):
        return [self]

    def _key(self):
        return ('buffer', self._width) + self._parts[0]._key()

    @property
    def is_empty(self):
        return self._width <= 0 or self._parts[0].is_empty

    def _dist(self, p):
        return max(0.0, self._parts[0]._dist(p) - self._width)

    def _covers(self, p):
        return self._width > 0 and self._parts[0]._dist(p) <= self._width

    def _near(self, other):
        return not self.is_empty

    @property
    def bounds(self):
        a, b, c, d = self._parts[0].bounds
        w = self._width
        return a - w, b - w, c + w, d + w

    def _shapes(self):
        """Polygons that cover the buffer, one for each segment."""
        from shapely.geometry.polygon import Polygon
        out = []
        for atom in self._parts[0]._atoms():
            if isinstance(atom, Polygon):
                out.append(atom)
            for pts in [atom._points()] + [
                    h._points() for h in getattr(atom, 'interiors', ())]:
                for a, b in zip(pts, pts[1:]) if len(pts) > 1 else [pts * 2]:
                    out.append(capsule(a, b, self._width))
        return out

    def intersection(self, other):
        if self._width <= 0:
            return BaseGeometry()
        return collect([s for s in (clip(s, other) for s in self._shapes())
                        if s is not None])

    @property
    def convex_hull(self):
        return collect(self._shapes()).convex_hull


class Difference(BaseGeometry):
    """A geometry without a buffer.  Its hull is that of the whole."""

    def __init__(self, geom, gone):
        self._parts = (geom,)
        self._gone = gone

    def _atoms(self):
        return [self]

    def _key(self):
        return ('minus',) + self._parts[0]._key() + self._gone._key()

    def _covers(self, p):
        return self._parts[0]._covers(p) and not self._gone._covers(p)

    def _dist(self, p):
        if self._covers(p):
            return 0.0
        raise NotImplementedError


def capsule(a, b, r, n=16):
    from shapely.geometry.polygon import Polygon
    phi = math.atan2(b[1] - a[1], b[0] - a[0])
    pts = []
    for c, start in ((b, phi - math.pi / 2), (a, phi + math.pi / 2)):
        pts += [(c[0] + r * math.cos(start + math.pi * k / n),
                 c[1] + r * math.sin(start + math.pi * k / n))
                for k in range(n + 1)]
    return Polygon(pts)


def clip(poly, domain):
    """The part of a convex polygon inside a convex one (None: nothing).
    Holes lie inside of both."""
    from shapely.geometry.polygon import Polygon
    pts = poly._points()[:-1]
    ring = domain._points()
    if sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:])) < 0:
        ring = ring[::-1]
    for a, b in zip(ring, ring[1:]):
        def side(p):
            return (b[0] - a[0]) * (p[1] - a[1]) - \
                (b[1] - a[1]) * (p[0] - a[0])
        out = []
        for i, p in enumerate(pts):
            q = pts[i - 1]
            sp, sq = side(p), side(q)
            if (sp >= 0) != (sq >= 0):
                t = sq / (sq - sp)
                out.append((q[0] + t * (p[0] - q[0]),
                            q[1] + t * (p[1] - q[1])))
            if sp >= 0:
                out.append(p)
        pts = out
        if len(pts) < 3:
            return None
    return Polygon(pts, poly.interiors)


class BaseMultipartGeometry(BaseGeometry):
    _member = None

    def __init__(self, parts=()):
        self._parts = tuple(
            p if isinstance(p, BaseGeometry) else self._make(p)
            for p in parts)

    def _make(self, p):
        raise TypeError

    @property
    def geoms(self):
        return list(self._parts)

    def __iter__(self):
        return iter(self._parts)

    def __len__(self):
        return len(self._parts)

    def __getitem__(self, i):
        return self._parts[i]


class CoordinateSequence(object):
    def __init__(self, pts):
        self._pts = list(pts)

    def __getitem__(self, i):
        return self._pts[i]

    def __len__(self):
        return len(self._pts)

    def __iter__(self):
        return iter(self._pts)

    def __array__(self, dtype=None):
        return np.array(self._pts, dtype=dtype or np.float64)


def pt(p):
    p = tuple(float(c) for c in p)
    if len(p) != 2:
        raise ValueError('2D only')
    return p


def collect(atoms):
    from shapely.geometry import (GeometryCollection, MultiLineString,
                                  MultiPoint, MultiPolygon, Point, LineString,
                                  Polygon)
    out = []
    for a in atoms:
        if a not in out:
            out.append(a)
    if not out:
        return BaseGeometry()
    if len(out) == 1:
        return out[0]
    for kind, multi in ((Point, MultiPoint), (LineString, MultiLineString),
                        (Polygon, MultiPolygon)):
        if all(isinstance(a, kind) for a in out):
            return multi(out)
    return GeometryCollection(out)
