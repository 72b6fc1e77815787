"""Truncated power series in the time step, and derivatives along a flow"""
import numpy as np

ORDER = 5


class Series:
    """c[0] + c[1] h + ... + c[4] h^4"""

    def __init__(self, c):
        self.c = c

    def __add__(self, o):
        return Series([x + y for x, y in zip(self.c, coeffs(o))])

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return Series([x - y for x, y in zip(self.c, coeffs(o))])

    def __rsub__(self, o):
        return Series([y - x for x, y in zip(self.c, coeffs(o))])

    def __mul__(self, o):
        d = coeffs(o)
        out = [0, 0, 0, 0, 0]
        for i in range(ORDER):
            for j in range(ORDER - i):
                out[i + j] = out[i + j] + self.c[i] * d[j]
        return Series(out)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return Series([x / o for x in self.c])


def coeffs(o):
    if isinstance(o, Series):
        return o.c
    return [o, 0, 0, 0, 0]


def scalar(h):
    return Series([h, 0, 0, 0, 0])


def step():
    """the time step itself"""
    return Series([0, 1, 0, 0, 0])


def power(x, n):
    out = x * 0 + 1
    for i in range(n):
        out = out * x
    return out


def field(a):
    """polynomial vector field sum a_ij t^i y^j"""
    def f(t, y):
        out = 0
        for i in range(len(a)):
            for j in range(len(a[i])):
                out = out + power(t, i) * power(y, j) * a[i][j]
        return out
    return f


def exact(a, t, y):
    """coefficients of the solution through (t, y), by Picard iteration on series"""
    sol = scalar(y)
    f = field(a)
    tt = Series([t, 1, 0, 0, 0])
    for k in range(ORDER):
        g = f(tt, sol)
        sol = Series([y] + [g.c[i] / (i + 1) for i in range(ORDER - 1)])
    return sol.c
