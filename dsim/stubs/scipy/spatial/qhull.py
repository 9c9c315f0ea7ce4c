"""Stand-in for scipy.spatial.qhull: triangulates the convex hull of the
points as a fan (the only use: sampling inside a convex polygon)."""
import numpy as np


class QhullError(RuntimeError):
    pass


def _hull(points):
    idx = sorted(range(len(points)), key=lambda i: (points[i][0],
                                                    points[i][1]))
    uniq = []
    for i in idx:
        if not uniq or tuple(points[uniq[-1]]) != tuple(points[i]):
            uniq.append(i)

    def cross(o, a, b):
        o, a, b = points[o], points[a], points[b]
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def half(seq):
        out = []
        for i in seq:
            while len(out) >= 2 and cross(out[-2], out[-1], i) <= 0:
                out.pop()
            out.append(i)
        return out[:-1]
    return half(uniq) + half(uniq[::-1])


class Delaunay(object):
    def __init__(self, points):
        points = np.asarray(points, dtype=np.float64)
        hull = _hull([tuple(float(c) for c in p) for p in points])
        if len(hull) < 3:
            raise QhullError('flat simplex')
        self.points = points
        self.simplices = np.array(
            [(hull[0], hull[k], hull[k + 1]) for k in range(1, len(hull) - 1)],
            dtype=np.int32)


class Voronoi(object):
    def __init__(self, points):
        raise QhullError('Voronoi is not provided by the stand-in')
