"""Reference: the Hamiltonian of electrons and modes in the determinant times number-state basis, from operator matrices."""
import numpy as np


def one_body(h, E, c):
    """sum_pq h_pq E_pq c with E[s] the matrices of the excitation operators of spin s"""
    return np.einsum("pq,pqab,by->ay", h, E, c)


def electron_one(h, Ea, Eb, c):
    return np.einsum("pq,pqab,bcx->acx", h, Ea, c) + np.einsum("pq,pqac,bcx->bax", h, Eb, c)


def excite(Ea, Eb, c):
    return np.einsum("pqab,bcx->pqacx", Ea, c) + np.einsum("pqac,bcx->pqbax", Eb, c)


def electron_two(eri, Ea, Eb, c):
    """1/2 sum (pq|rs) (E_pq E_rs - delta_qr E_ps)"""
    t = np.einsum("pqrs,rsacx->pqacx", eri, excite(Ea, Eb, c))
    two = np.einsum("pqab,pqbcx->acx", Ea, t) + np.einsum("pqac,pqbcx->bax", Eb, t)
    return 0.5 * two - 0.5 * electron_one(np.einsum("pqqs->ps", eri), Ea, Eb, c)


def repulsion(u, Ea, Eb, c):
    """sum_p u n_p,up n_p,down"""
    return u * np.einsum("ppab,ppcd,bdx->acx", Ea, Eb, c)


def coupling(g, Ea, Eb, X, c):
    """sum over modes of g_pq E_pq (b + b^dagger) with X[m] the displacement in the product of modes"""
    out = 0.0
    for m in range(len(X)):
        out = out + np.einsum("xy,acy->acx", X[m], electron_one(g[m], Ea, Eb, c))
    return out


def modes(N, w, c):
    out = 0.0
    for m in range(len(N)):
        out = out + w[m] * np.einsum("xy,acy->acx", N[m], c)
    return out


def apply_mode(B, c):
    return np.einsum("xy,acy->acx", B, c)


def density1(Ea, Eb, c):
    return np.einsum("acx,pqacx->pq", c, excite(Ea, Eb, c))


def density2(Ea, Eb, c):
    """<E_pq E_rs> - delta_qr <E_ps>"""
    t = excite(Ea, Eb, c)
    d = np.einsum("qpacx,rsacx->pqrs", t, t)
    k = np.eye(len(Ea))
    return d - np.einsum("qr,ps->pqrs", k, density1(Ea, Eb, c))


def photon_density(B, c):
    """<b_i^dagger b_j>"""
    rows = []
    for i in range(len(B)):
        row = []
        for j in range(len(B)):
            row.append(np.einsum("acx,acx->", apply_mode(B[i], c), apply_mode(B[j], c)))
        rows.append(row)
    return np.array(rows)


def root(k):
    return np.sqrt(k)


def reorder(d1, d2):
    return d2 - np.einsum("qr,ps->pqrs", np.eye(len(d1)), d1)


def hopping(C, B, w, c):
    out = 0.0
    for i in range(len(B)):
        for j in range(len(B)):
            out = out + w[i, j] * apply_mode(C[i], apply_mode(B[j], c))
    return out


def displaced(N, X, w, z, c):
    """w (n + z (b + b^dagger)), without the constant"""
    out = modes(N, w, c)
    for m in range(len(N)):
        out = out + w[m] * z[m] * apply_mode(X[m], c)
    return out


def at(a, m):
    return a[m]


def total(h, eri, g, w, Ea, Eb, X, C, B, c):
    el = electron_one(h, Ea, Eb, c) + electron_two(eri, Ea, Eb, c)
    return el + coupling(g, Ea, Eb, X, c) + hopping(C, B, w, c)


def diagonal(w):
    return np.diag(w)
