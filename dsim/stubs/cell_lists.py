"""Stand-in for the ``cell_lists`` package (GitHub only): cell binning and
iteration over every unordered pair of points in the same or an adjacent cell,
each pair once.

``PAIR_SCHEDULE`` is the simulator's seam: a callable that receives the list
of pairs and returns it in the order (and with the orientation) the simulated
schedule wants."""
import numpy as np

PAIR_SCHEDULE = None


def add_to_cells(points, cell_size):
    points = np.asarray(points, dtype=np.float64)
    if not np.all(np.isfinite(points)):
        raise ValueError('cell_lists stub: non-finite position')
    cells = np.floor(points / cell_size).astype(np.int64)
    if len(cells) == 0:
        z = np.zeros(1, dtype=np.int64)
        return np.zeros(0, dtype=np.int64), z, z.copy(), np.array([1, 1])
    cells = cells - cells.min(axis=0)
    shape = cells.max(axis=0) + 1
    if shape[0] * shape[1] > 4000000:
        raise ValueError('cell_lists stub: positions diverged')
    flat = cells[:, 0] * shape[1] + cells[:, 1]
    n = int(shape[0] * shape[1])
    count = np.bincount(flat, minlength=n).astype(np.int64)
    offset = np.concatenate(([0], np.cumsum(count)[:-1])).astype(np.int64)
    order = np.argsort(flat, kind='stable').astype(np.int64)
    return order, count, offset, shape


def neighboring_cells(grid_shape):
    # Encoded: row length, then nothing else is needed by the iterator below.
    return np.array([int(grid_shape[0]), int(grid_shape[1])], dtype=np.int64)


def _pairs(cell_indices, neigh_cells, points_indices, cells_count,
           cells_offset):
    rows, cols = int(neigh_cells[0]), int(neigh_cells[1])
    pts = [int(p) for p in points_indices]
    count = [int(c) for c in cells_count]
    offset = [int(o) for o in cells_offset]

    def cell(k):
        return pts[offset[k]:offset[k] + count[k]]

    for k in cell_indices:
        k = int(k)
        if not count[k]:
            continue
        here = cell(k)
        for a in range(len(here)):
            for b in range(a + 1, len(here)):
                yield here[a], here[b]
        r, c = divmod(k, cols)
        for dr, dc in ((0, 1), (1, -1), (1, 0), (1, 1)):
            rr, cc = r + dr, c + dc
            if 0 <= rr < rows and 0 <= cc < cols:
                for i in here:
                    for j in cell(rr * cols + cc):
                        yield i, j


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices,
                           cells_count, cells_offset):
    pairs = _pairs(cell_indices, neigh_cells, points_indices, cells_count,
                   cells_offset)
    if PAIR_SCHEDULE is None:
        return pairs
    return iter(PAIR_SCHEDULE(list(pairs)))
