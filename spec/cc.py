"""Containers for the blocks of integrals."""
import numpy as np


class Blocks:
    pass


def blocks():
    return Blocks()


# ------------------------------------------------------------------ spin-orbital matrix elements over a mean field
def projector(c, n):
    return np.einsum("pi,qi->pq", c[:, :n], c[:, :n])


def orbitals(ca, cb, na, nb):
    """occupied and virtual spin orbitals: alpha first, over alpha then beta basis functions"""
    n = ca.shape[0]
    z = np.zeros((n, 1))
    def cut(a, b):
        za = np.zeros((n, a.shape[1]))
        zb = np.zeros((n, b.shape[1]))
        return np.concatenate((np.concatenate((a, zb), axis=1), np.concatenate((za, b), axis=1)), axis=0)
    return cut(ca[:, :na], cb[:, :nb]), cut(ca[:, na:], cb[:, nb:])


def two_spins(a, b):
    n = a.shape[0]
    z = np.zeros((n, n))
    return np.concatenate((np.concatenate((a, z), axis=1), np.concatenate((z, b), axis=1)), axis=0)


def repulsion(eri, g, dse):
    """(pq|rs) plus the dipole self-energy"""
    if dse:
        return eri + np.einsum("xpq,xrs->pqrs", g, g)
    return eri


def fock(h, eri, g, w, dse, pa, pb):
    v = repulsion(eri, g, dse)
    j = np.einsum("pqrs,rs->pq", v, pa + pb)
    return two_spins(h + j - np.einsum("prsq,rs->pq", v, pa), h + j - np.einsum("prsq,rs->pq", v, pb))


def rotated(f, c, d):
    return np.einsum("pi,pq,qj->ij", c, f, d)


def coupling_so(g, omega, c, d):
    """sqrt(omega / 2) lambda . d, the same for both spins"""
    out = []
    for k in range(len(omega)):
        out.append(np.sqrt(omega[k] / 2.0) * rotated(two_spins(g[k], g[k]), c, d))
    return np.array(out)


def mean_coupling(g, omega, pa, pb):
    return np.sqrt(omega / 2.0) * np.einsum("xpq,pq->x", g, pa + pb)


def antisymmetric(eri, g, dse, c1, c2, c3, c4):
    """<ij||kl> = (ik|jl) - (il|jk), spin conserved in each pair"""
    v = repulsion(eri, g, dse)
    n = v.shape[0]
    def chem(a, b, c, d):
        r = 0.0
        for s in range(2):
            for t in range(2):
                r = r + np.einsum("pqrs,pi,qj,rk,sl->ijkl", v, a[s * n:s * n + n], b[s * n:s * n + n], c[t * n:t * n + n], d[t * n:t * n + n])
        return r
    return chem(c1, c3, c2, c4).transpose(0, 2, 1, 3) - chem(c1, c4, c2, c3).transpose(0, 2, 3, 1)


# documented behaviour of the external routines
def ghf_jk(mol, dm, hermi=0, with_j=True, with_k=True, jkbuild=None, omega=None):
    n = dm.shape[0] // 2
    parts = np.stack((dm[:n, :n], dm[n:, n:], dm[:n, n:]))
    vj, vk = jkbuild(mol, parts.reshape(3, 1, n, n), 0, with_j, with_k, omega)
    j = vj[0, 0] + vj[1, 0]
    z = np.zeros((n, n))
    up = np.concatenate((vk[0, 0], vk[2, 0]), axis=1)
    down = np.concatenate((vk[2, 0].T, vk[1, 0]), axis=1)
    return two_spins(j, j), np.concatenate((up, down), axis=0)


def ao2mo_general(eri, coeffs, compact=True):
    return np.einsum("pqrs,pi,qj,rk,sl->ijkl", eri, coeffs[0], coeffs[1], coeffs[2], coeffs[3])


# ------------------------------------------------------------------ one iteration of the coupled-cluster equations
def pack_tril(mat, axis=-1, out=None):
    n = mat.shape[0]
    k = 0
    if out is None:
        out = np.zeros(n * (n + 1) // 2)
    for i in range(n):
        for j in range(i + 1):
            out[k] = mat[i, j]
            k += 1
    return out


def unpack_tril(v, filltriu=1, axis=-1, out=None):
    n = 0
    while n * (n + 1) // 2 < v.size:
        n += 1
    m = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i + 1):
            m[i, j] = v[k]
            m[j, i] = v[k]
            k += 1
    return m


class Diis:
    """extrapolation replaced by a free scale"""

    def __init__(self, scale):
        self.scale = scale
        self.space = 0

    def update(self, vec):
        return self.scale * vec


class System:
    def __init__(self, parts, scale):
        self.parts = parts
        self.scale = scale

    def eris(self):
        F, I, w, g, h, G, H = self.parts
        f = Blocks()
        f.oo, f.ov, f.vo, f.vv = F.oo.copy(), F.ov.copy(), F.vo.copy(), F.vv.copy()
        return f, I, w, g, h, G, H

    def hf_energy(self):
        return 0.0


def without_diagonal(F):
    f = Blocks()
    f.oo = F.oo - np.diag(np.diagonal(F.oo))
    f.vv = F.vv - np.diag(np.diagonal(F.vv))
    f.ov, f.vo = F.ov, F.vo
    return f


def residual(free, F, I, w, g, h, G, H, n1, n2, amps):
    """a stand-in for the right-hand sides: different for every argument"""
    r1, r2, rs, ru, rd = free
    t1, t2, s, u, d = amps
    a = r1 + 2.0 * t1 + F.vo + np.einsum("ab,bi->ai", F.vv, t1) - np.einsum("ji,aj->ai", F.oo, t1) + np.einsum("I,Iai->ai", s[0] + G, u[0])
    b = r2 + 3.0 * t2 + I.vvoo
    ss = [rs[k] + (5.0 + k) * s[k] for k in range(n1)]
    us = [ru[k] + (7.0 + k) * u[k] for k in range(n2)]
    ss[0] = ss[0] + w * H + np.einsum("Iia,Iai->I", g.ov, u[0])
    us[0] = us[0] + np.einsum("Iab,bi->Iai", h.vv, t1)
    ds = [None] * n2
    if d[0] is not None:
        ds = [rd[k] + (11.0 + k) * d[k] for k in range(n2)]
        a = a + np.einsum("Ijb,Iabij->ai", g.ov, d[0])
    return a, b, ss, us, ds


def gap(eo, ev, w, k, el):
    """energy of the excitation: electrons and k quanta, virtual minus occupied, with the sign of the denominators"""
    m = len(w)
    out = np.zeros((m,) * k + ((len(ev),) * el + (len(eo),) * el))
    if el == 1:
        out = out + (eo[None, :] - ev[:, None])
    if el == 2:
        out = out + (eo[None, None, :, None] + eo[None, None, None, :] - ev[:, None, None, None] - ev[None, :, None, None])
    for q in range(k):
        shape = [1] * (k + 2 * el)
        shape[q] = m
        out = out - w.reshape(shape)
    return out


def correlation(F, I, g, amps):
    t1, t2, s, u, d = amps
    e = np.einsum("ia,ai->", F.ov, t1) + 0.25 * np.einsum("ijab,abij->", I.oovv, t2) + 0.5 * np.einsum("ijab,ai,bj->", I.oovv, t1, t1)
    return e + np.einsum("Iia,Iai->", g.ov, u[0]) + np.einsum("Iia,ai,I->", g.ov, t1, s[0])


def electron_energy(t1, t2, f, eri):
    return np.einsum("ia,ai->", f, t1) + 0.25 * np.einsum("ijab,abij->", eri, t2) + 0.5 * np.einsum("ijab,ai,bj->", eri, t1, t1)


def guess(F, I, w, h, n1, n2, add):
    eo, ev, m = np.diagonal(F.oo), np.diagonal(F.vv), len(w)
    no, nv = len(eo), len(ev)
    t1 = F.vo / gap(eo, ev, w, 0, 1)
    t2 = I.vvoo / gap(eo, ev, w, 0, 2)
    s = [np.zeros((m,) * (k + 1)) for k in range(n1)]
    u = [np.zeros((m,) * (k + 1) + (nv, no)) for k in range(n2)]
    u[0] = h.vo / gap(eo, ev, w, 1, 1)
    d = [np.zeros((m,) * (k + 1) + (nv, nv, no, no)) if add else None for k in range(n2)]
    return t1, t2, s, u, d


def iterate(free, F, I, w, g, h, n1, n2, add, damp, steps, scale):
    """divide by the energy denominators, mix with the previous amplitudes, extrapolate"""
    eo, ev = np.diagonal(F.oo), np.diagonal(F.vv)
    none = np.zeros(len(w))
    amps = guess(F, I, w, h, n1, n2, add)
    f = without_diagonal(F)
    mix = lambda old, new, k, el: damp * old + (1.0 - damp) * new / gap(eo, ev, w, k, el)
    last = amps
    for n in range(steps):
        r = residual(free, f, I, w, g, h, none, none, n1, n2, amps)
        t1, t2 = mix(amps[0], r[0], 0, 1), mix(amps[1], r[1], 0, 2)
        s = [mix(amps[2][k], r[2][k], k + 1, 0) for k in range(n1)]
        u = [mix(amps[3][k], r[3][k], k + 1, 1) for k in range(n2)]
        d = [mix(amps[4][k], r[4][k], k + 1, 2) if add else None for k in range(n2)]
        last = (t1, t2, s, u, d)
        amps = scale * t1, scale * t2, [scale * x for x in s], [scale * x for x in u], [scale * x if add else None for x in d]
    return last, correlation(F, I, g, amps)
