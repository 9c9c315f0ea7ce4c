from numba import _T, void, boolean, float64, f8, i8, int64  # noqa


class Float(object):
    pass


class Integer(object):
    pass


class Array(object):
    pass


def UniTuple(*_):
    return _T


def Tuple(*_):
    return _T
