import numpy as np


class Path(object):
    """Even-odd point in polygon."""

    def __init__(self, vertices):
        self.vertices = np.asarray(vertices, dtype=np.float64)
        if self.vertices.ndim != 2 or self.vertices.shape[1] != 2:
            raise ValueError('vertices must be a 2D list or array with shape '
                             'Nx2')

    def contains_points(self, points):
        points = np.asarray(points)
        if points.dtype.kind not in 'fiu' or points.ndim != 2 or \
                points.shape[1] != 2:
            raise ValueError('points must be a 2D array of floats, Nx2')
        v = [(float(a), float(b)) for a, b in self.vertices]
        out = np.zeros(len(points), dtype=np.bool_)
        for k, (x, y) in enumerate(points):
            x, y, inside, j = float(x), float(y), False, len(v) - 1
            for i in range(len(v)):
                (xi, yi), (xj, yj) = v[i], v[j]
                if (yi > y) != (yj > y) and \
                        x < (xj - xi) * (y - yi) / (yj - yi) + xi:
                    inside = not inside
                j = i
            out[k] = inside
        return out
