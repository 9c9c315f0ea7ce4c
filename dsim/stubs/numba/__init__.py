"""Stand-in for numba: every decorator runs the decorated Python function as
it is.  Only what crowddynamics imports; types are inert placeholders."""
import functools

import numpy as _np


class _Type(object):
    """Placeholder for a numba type: callable, indexable, chainable."""

    def __call__(self, *args, **kwargs):
        return self

    def __getitem__(self, item):
        return self


_T = _Type()
void = boolean = float64 = int64 = f8 = i8 = f4 = i4 = b1 = none = _T
bool_ = int32 = float32 = uint8 = u8 = _T


def optional(*_):
    return _T


def typeof(*_):
    return _T


def _identity(*args, **kwargs):
    if len(args) == 1 and not kwargs and callable(args[0]) and \
            not isinstance(args[0], _Type):
        return args[0]
    return lambda func: func


jit = njit = _identity
prange = range


def vectorize(*args, **kwargs):
    def decorator(func):
        @functools.wraps(func)
        def wrapper(x, *rest):
            if rest or isinstance(x, _np.ndarray) and x.ndim:
                arrs = _np.broadcast_arrays(x, *rest)
                flat = [func(*v) for v in zip(*(a.ravel() for a in arrs))]
                return _np.array(flat, dtype=_np.float64).reshape(
                    arrs[0].shape)
            return func(x)
        return wrapper
    if len(args) == 1 and not kwargs and callable(args[0]) and \
            not isinstance(args[0], _Type):
        return decorator(args[0])
    return decorator


guvectorize = vectorize


def generated_jit(*args, **kwargs):
    from numba import types

    def decorator(func):
        @functools.wraps(func)
        def wrapper(*values):
            kinds = [types.Array() if isinstance(v, _np.ndarray) and v.ndim
                     else types.Float() for v in values]
            return func(*kinds)(*values)
        return wrapper
    return decorator


from numba import types  # noqa
