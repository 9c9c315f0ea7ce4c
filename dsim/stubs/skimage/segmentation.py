import numpy as np


def find_boundaries(mask, mode='outer'):
    m = np.asarray(mask, dtype=bool)
    near = np.zeros_like(m)
    near[1:] |= m[:-1]
    near[:-1] |= m[1:]
    near[:, 1:] |= m[:, :-1]
    near[:, :-1] |= m[:, 1:]
    return near & ~m
