"""Reference formulas of the lattice models, written from the Hamiltonian"""
import numpy as np


def bonds(L, periodic):
    b = [(i, i + 1) for i in range(L - 1)]
    if periodic:
        b = b + [(L - 1, 0)]
    return b


def hopping(L, periodic):
    """-1 for every bond, both directions; two sites on a ring are joined twice"""
    t = np.zeros((L, L))
    for i, j in bonds(L, periodic):
        t[i, j] = t[i, j] - 1.0
        t[j, i] = t[j, i] - 1.0
    return t


def both(a, b):
    """spin-orbital matrix from its two spin blocks"""
    m, n = a.shape
    k, l = b.shape
    out = np.zeros((m + k, n + l), dtype=complex)
    out[:m, :n] = a
    out[m:, n:] = b
    return out


def density(c, n):
    return np.einsum('ai,bi->ab', c[:, :n], c[:, :n])


def fock(t, U, pa, pb):
    """a spin feels the density of the other one on its site"""
    fa = t + 0.0
    fb = t + 0.0
    for i in range(t.shape[0]):
        fa[i, i] = fa[i, i] + U * pb[i, i]
        fb[i, i] = fb[i, i] + U * pa[i, i]
    return fa, fb


def energy(t, U, pa, pb):
    e = np.sum(t * pa) + np.sum(t * pb)
    for i in range(t.shape[0]):
        e = e + U * pa[i, i] * pb[i, i]
    return e


def onsite(U, a, b, c, d):
    """U sum_s a_sp b_sq c_sr d_st"""
    return U * np.einsum('sp,sq,sr,st->pqrt', a, b, c, d)


def pair(ca, cb):
    """amplitude of an antisymmetric pair of spin orbitals on a site"""
    L, n = ca.shape
    m = cb.shape[1]
    a = np.zeros((L, n + m), dtype=complex)
    b = np.zeros((L, n + m), dtype=complex)
    a[:, :n] = ca
    b[:, n:] = cb
    x = np.einsum('sp,sq->spq', a, b)
    return x - np.einsum('spq->sqp', x)


def anti(U, ca, cb):
    """<pq||rs> of U n_up n_down"""
    d = pair(ca, cb)
    return U * np.einsum('spq,srt->pqrt', d, d)


def plain(U, ca, cb):
    """<pq|rs>: every pair of spin orbitals on a site, spin conserved"""
    L, n = ca.shape
    m = cb.shape[1]
    a = np.zeros((L, n + m), dtype=complex)
    b = np.zeros((L, n + m), dtype=complex)
    a[:, :n] = ca
    b[:, n:] = cb
    x = np.einsum('sp,sr->spr', a, a) + np.einsum('sp,sr->spr', b, b)
    return U * np.einsum('spr,sqt->pqrt', x, x)


def rotate(x, c):
    return np.einsum('pi,pq,qj->ij', c, x, c)


def split(x, idx):
    """block of x along the listed orbitals of every axis"""
    return x[np.ix_(*idx)]


def coupling(L, periodic, g, gij):
    out = np.zeros((L, 2 * L, 2 * L), dtype=complex)
    for m in range(L):
        for s in (0, L):
            out[m, m + s, m + s] = g
            if gij is not None:
                for i, j in bonds(L, periodic):
                    out[m, i + s, j + s] = gij
                    out[m, j + s, i + s] = gij
    return out


class Solver:
    """records what a mean-field solver is handed"""

    def __init__(self, mol, ca, cb):
        self.mol = mol
        self.mo_coeff = [ca, cb]
        self.dm0 = None

    def kernel(self, dm0=None):
        self.dm0 = dm0
        return 0.0

    def make_rdm1(self):
        return self.dm0


class Bare:
    def __init__(self):
        self.nelectron = 0


def repulsion(L, U):
    e = np.zeros((L, L, L, L))
    for i in range(L):
        e[i, i, i, i] = U
    return e
