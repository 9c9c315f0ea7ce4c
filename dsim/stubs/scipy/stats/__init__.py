"""Stand-in for scipy.stats: truncated normal by inverse transform, drawing
its uniforms from numpy's global generator (or the given state)."""
import math

import numpy as np


def _cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


# Acklam's rational approximation refined by one Halley step.
def _ppf(p):
    if p <= 0.0:
        return -math.inf
    if p >= 1.0:
        return math.inf
    a = (-3.969683028665376e+01, 2.209460984245205e+02,
         -2.759285104469687e+02, 1.383577518672690e+02,
         -3.066479806614716e+01, 2.506628277459239e+00)
    b = (-5.447609879822406e+01, 1.615858368580409e+02,
         -1.556989798598866e+02, 6.680131188771972e+01,
         -1.328068155288572e+01)
    c = (-7.784894002430293e-03, -3.223964580411365e-01,
         -2.400758277161838e+00, -2.549732539343734e+00,
         4.374664141464968e+00, 2.938163982698783e+00)
    d = (7.784695709041462e-03, 3.224671290700398e-01,
         2.445134137142996e+00, 3.754408661907416e+00)
    if p < 0.02425:
        q = math.sqrt(-2 * math.log(p))
        x = (((((c[0]*q+c[1])*q+c[2])*q+c[3])*q+c[4])*q+c[5]) / \
            ((((d[0]*q+d[1])*q+d[2])*q+d[3])*q+1)
    elif p > 1 - 0.02425:
        q = math.sqrt(-2 * math.log(1 - p))
        x = -(((((c[0]*q+c[1])*q+c[2])*q+c[3])*q+c[4])*q+c[5]) / \
            ((((d[0]*q+d[1])*q+d[2])*q+d[3])*q+1)
    else:
        q = p - 0.5
        r = q * q
        x = (((((a[0]*r+a[1])*r+a[2])*r+a[3])*r+a[4])*r+a[5])*q / \
            (((((b[0]*r+b[1])*r+b[2])*r+b[3])*r+b[4])*r+1)
    e = _cdf(x) - p
    u = e * math.sqrt(2 * math.pi) * math.exp(x * x / 2)
    return x - u / (1 + x * u / 2)


class _TruncNorm(object):
    @staticmethod
    def rvs(a, b, loc=0.0, scale=1.0, size=1, random_state=None):
        if random_state is None:
            uniform = np.random.random_sample
        elif isinstance(random_state, np.random.RandomState):
            uniform = random_state.random_sample
        else:
            uniform = np.random.RandomState(random_state).random_sample
        u = np.atleast_1d(uniform(size))
        shape = u.shape
        fa, fb = _cdf(a), _cdf(b)
        x = np.array([min(max(_ppf(fa + float(v) * (fb - fa)), a), b)
                      for v in u.ravel()]).reshape(shape)
        return x * scale + loc


truncnorm = _TruncNorm()
