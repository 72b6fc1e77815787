"""Reference formulas of the bosonic trial functions"""
import numpy as np


def gauss(x, s, a):
    """product of exp(-a (x - s)^2 / 2)"""
    return np.exp(-a * np.sum((x - s) * (x - s)) / 2)


def slope(x, s, a):
    """first derivative of the Gaussian over the Gaussian"""
    return -a * (x - s)


def curvature(x, s, a):
    """second derivative of the Gaussian over the Gaussian"""
    return a * a * (x - s) * (x - s) - a


def oscillators(x, s, a, c_lap, c_pot, freq):
    """sum over sites of -c_lap psi''/psi + c_pot x^2, zero-point energy removed"""
    n = x.shape[0]
    return -c_lap * np.sum(curvature(x, s, a)) + c_pot * np.sum(x * x) - n * freq / 2


def factorial(n):
    out = 1
    for i in range(n):
        out = out * (i + 1)
    return out


def coherent(alpha, nfock):
    """coefficients of a product of coherent states in the product number basis, first mode slowest"""
    m = len(alpha)
    out = [1]
    for i in range(m):
        nxt = []
        for c in out:
            for n in range(nfock):
                v = c * np.exp(-alpha[i] * alpha[i] / 2) / np.sqrt(factorial(n))
                for k in range(n):
                    v = v * alpha[i]
                nxt.append(v)
        out = nxt
    return np.array(out)


def decaying(m, nfock):
    out = [0]
    for i in range(m):
        out = [c + n for c in out for n in range(nfock)]
    return np.array([np.exp(-c) for c in out])


def overlaps(phi, psi):
    return np.einsum("wi,i->w", phi, np.conj(psi))
