"""Stand-in for scikit-fmm: signed distance to the zero contour, computed by
fast marching (first order) around masked cells."""
import heapq
import math

import numpy as np

FAR = float('inf')


def _march(start, wall, n, m, h):
    """Travel times from the cells of start (dict cell: time)."""
    t = [FAR] * (n * m)
    done = [False] * (n * m)
    heap = []
    for c, v in start.items():
        t[c] = v
        heap.append((v, c))
    heapq.heapify(heap)
    while heap:
        v, c = heapq.heappop(heap)
        if done[c]:
            continue
        done[c] = True
        i, j = divmod(c, m)
        for k, l in ((i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)):
            if not (0 <= k < n and 0 <= l < m):
                continue
            d = k * m + l
            if done[d] or wall[d]:
                continue
            a = min(t[d - m] if k and done[d - m] else FAR,
                    t[d + m] if k < n - 1 and done[d + m] else FAR)
            b = min(t[d - 1] if l and done[d - 1] else FAR,
                    t[d + 1] if l < m - 1 and done[d + 1] else FAR)
            if abs(a - b) >= h:
                new = min(a, b) + h
            else:
                new = (a + b + math.sqrt(2 * h * h - (a - b) ** 2)) / 2
            if new < t[d]:
                t[d] = new
                heapq.heappush(heap, (new, d))
    return t


def distance(phi, dx=1.0):
    data = np.ma.getdata(phi)
    n, m = data.shape
    wall = np.ma.getmaskarray(phi).ravel().tolist() \
        if isinstance(phi, np.ma.MaskedArray) else [False] * (n * m)
    inside = (data > 0).ravel().tolist()
    h = float(dx)
    front = ({}, {})        # cells next to the contour: outside, inside
    for i in range(n):
        for j in range(m):
            c = i * m + j
            if wall[c]:
                continue
            near = [0, 0]
            for axis, (k, l) in ((0, (i - 1, j)), (0, (i + 1, j)),
                                 (1, (i, j - 1)), (1, (i, j + 1))):
                if 0 <= k < n and 0 <= l < m and not wall[k * m + l] and \
                        inside[k * m + l] != inside[c]:
                    near[axis] = 1
            if any(near):
                front[inside[c]][c] = h / 2 / math.sqrt(sum(near))
    if not front[0] and not front[1]:
        raise ValueError('the array phi contains no zero contour (no zero '
                         'level set)')
    out = np.zeros(n * m)
    lost = np.zeros(n * m, dtype=bool)
    for side in (0, 1):
        t = _march(front[side], [w or s != bool(side) for w, s in
                                 zip(wall, inside)], n, m, h)
        for c, v in enumerate(t):
            if wall[c]:
                lost[c] = True
            elif inside[c] == bool(side):
                if v == FAR:
                    lost[c] = True
                else:
                    out[c] = v if side else -v
    out, lost = out.reshape(n, m), lost.reshape(n, m)
    if lost.any():
        return np.ma.MaskedArray(out, lost)
    return out
