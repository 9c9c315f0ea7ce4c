from numba import typeof  # noqa
