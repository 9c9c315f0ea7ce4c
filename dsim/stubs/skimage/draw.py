import numpy as np


def line(r0, c0, r1, c1):
    n = int(max(abs(r1 - r0), abs(c1 - c0))) + 1
    return (np.rint(np.linspace(r0, r1, n)).astype(np.int64),
            np.rint(np.linspace(c0, c1, n)).astype(np.int64))


def polygon_perimeter(r, c):
    rr, cc = [], []
    for k in range(len(r) - 1):
        a, b = line(r[k], c[k], r[k + 1], c[k + 1])
        rr.append(a)
        cc.append(b)
    return np.concatenate(rr), np.concatenate(cc)


def polygon(r, c):
    from matplotlib.path import Path
    path = Path(np.stack((r, c), axis=1).astype(float))
    pts = [(i, j) for i in range(int(min(r)), int(max(r)) + 1)
           for j in range(int(min(c)), int(max(c)) + 1)]
    ok = path.contains_points(np.array(pts, dtype=float))
    sel = [p for p, o in zip(pts, ok) if o]
    return (np.array([p[0] for p in sel], dtype=np.int64),
            np.array([p[1] for p in sel], dtype=np.int64))
