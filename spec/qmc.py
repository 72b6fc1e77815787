"""Reference formulas for the stochastic part, written from the definitions in the
documentation (walker |phi>, trial |psi>, Hamiltonian h, L, g, omega)."""
import numpy as np


def overlap_matrix(phi, psi):
    """S_ij = <psi_j | phi_i>"""
    return np.einsum("zpi,pj->zij", phi, psi.conj())


def green(phi, psi):
    """G_pq = <psi| c+_p c_q |phi> / <psi|phi> for one spin"""
    S = overlap_matrix(phi, psi)
    X = np.linalg.inv(S)
    return np.einsum("pi,zij,zqj->zpq", psi.conj(), X, phi)


def ovlp_rhf(phia, psia):
    d = np.linalg.det(overlap_matrix(phia, psia))
    return d * d


def ovlp_uhf(phia, psia, phib, psib):
    return np.linalg.det(overlap_matrix(phia, psia)) * np.linalg.det(overlap_matrix(phib, psib))


def energy(Ga, Gb, h1a, h1b, L, enuc):
    """one- and two-body parts of <psi|H|phi>/<psi|phi>"""
    e1 = np.einsum("pq,zpq->z", h1a, Ga) + np.einsum("pq,zpq->z", h1b, Gb) + enuc
    J = np.einsum("npq,zpq->zn", L, Ga) + np.einsum("npq,zpq->zn", L, Gb)
    ej = 0.5 * np.einsum("zn,zn->z", J, J)
    ek = 0.5 * np.einsum("npq,nrs,zps,zrq->z", L, L, Ga, Ga) + 0.5 * np.einsum("npq,nrs,zps,zrq->z", L, L, Gb, Gb)
    return e1, ej - ek


def force_bias(Ga, Gb, L):
    return np.einsum("npq,zpq->zn", L, Ga) + np.einsum("npq,zpq->zn", L, Gb)


# ---------------------------------------------------------------- propagation
def mean_field_shift(psi, ncomp, L):
    """v_n = i <L_n> in the trial"""
    rho = psi.dot(psi.conj().T) * 2.0 / ncomp
    return 1j * np.einsum("npq,pq->n", L, rho)


def shifted_h1(h1, L, v):
    """one-body operator left after completing the squares about the mean field: the two-body operator
    1/2 sum L^2 is reordered to (sum of one-body squares) and each L is replaced by L - <L>"""
    h = h1 - 0.5 * np.einsum("npr,nrq->pq", L, L)
    return h - 1j * np.einsum("n,npq->pq", v, L)


def taylor(V, phi, order):
    out = phi
    t = phi
    for k in range(order):
        t = np.einsum("zpq,zqi->zpi", V, t) / (k + 1)
        out = out + t
    return out


def bounded(x, bound):
    """the force bias is scaled to unit modulus where it exceeds the bound"""
    a = np.abs(x)
    return np.where(a > bound, x / a, x)


def apply1(B, phi):
    return np.einsum("pq,zqi->zpi", B, phi)


def step(phia, phib, psia, psib, psi, ncomp, h1, L, dt, order, bound, weights, eprev, eshift, ebound, nw, nfields, scheme,
         eloc, nfake):
    from scipy.linalg import expm
    v = mean_field_shift(psi, ncomp, L)
    Ba = expm(-dt / 2 * shifted_h1(h1[0], L, v))
    Bb = expm(-dt / 2 * shifted_h1(h1[1], L, v))
    Ga = green(phia, psia)
    Gb = Ga if ncomp == 1 else green(phib, psib)
    old = ovlp_rhf(phia, psia) if ncomp == 1 else ovlp_uhf(phia, psia, phib, psib)
    vb = force_bias(Ga, Gb, L)
    xi = np.random.normal(0.0, 1.0, (nfields + nfake) * nw).reshape(nw, nfields + nfake)[:, :nfields]
    xbar = bounded(-np.sqrt(dt) * (1j * vb - v), bound)
    xs = xi - xbar
    V = 1j * np.sqrt(dt) * np.einsum("zn,npq->zpq", xs, L)
    pa = apply1(Ba, taylor(V, apply1(Ba, phia), order))
    pb = None
    if ncomp > 1:
        pb = apply1(Bb, taylor(V, apply1(Bb, phib), order))
    new = ovlp_rhf(pa, psia) if ncomp == 1 else ovlp_uhf(pa, psia, pb, psib)
    cfb = np.sum((xi - 0.5 * xbar) * xbar, axis=1)
    cmf = -np.sqrt(dt) * np.einsum("zn,n->z", xs, v)
    w, e = reweight(weights, new / old, cfb, cmf, dt, eprev, eshift, ebound, scheme, eloc)
    return pa, pb, w, e, new


def reweight(weights, ratio, cfb, cmf, dt, eprev, eshift, ebound, scheme, eloc):
    """phaseless weight: |exp(-dt((E+E_prev)/2 - E_shift))| max(0, cos(phase))"""
    if scheme == "hybrid":
        e = np.clip((-(np.log(ratio) + cfb + cmf) / dt).real, eshift - ebound, eshift + ebound)
        f = np.abs(np.exp(-dt * (0.5 * (e + eprev) - eshift)))
        phase = np.maximum(0, np.cos((-dt * e - cfb).imag))
        return weights * f * phase, e
    r = ratio * np.exp(cmf)
    phase = np.maximum(0, np.cos(np.angle(r)))
    return weights * np.exp(-dt * np.real(eloc)) * phase, eprev


# ---------------------------------------------------------------- bosons
def ladder_sum(dims, c):
    """sum_m c_m (b_m^+ + b_m) in the direct sum of the modes' Fock spaces"""
    n = sum(dims)
    H = np.zeros((n, n), dtype=np.complex128)
    off = 0
    for m in range(len(dims)):
        for k in range(1, dims[m]):
            H[off + k - 1, off + k] = np.sqrt(k) * c[m]
            H[off + k, off + k - 1] = np.sqrt(k) * c[m]
        off = off + dims[m]
    return H


def number_op(dims, freq):
    n = sum(dims)
    H = np.zeros((n, n), dtype=np.complex128)
    off = 0
    for m in range(len(dims)):
        for k in range(dims[m]):
            H[off + k, off + k] = freq[m] * k
        off = off + dims[m]
    return H


def boson_overlap(bphi, bpsi):
    return np.einsum("zn,n->z", bphi, bpsi.conj())


def boson_green(bphi, bpsi):
    """<psi| N><M |phi>/<psi|phi>: rows follow the walker, columns the trial"""
    return np.einsum("zm,n,z->zmn", bphi, bpsi.conj(), 1.0 / boson_overlap(bphi, bpsi))


def boson_energy(bphi, bpsi, dims, freq):
    return np.einsum("mn,zmn->z", number_op(dims, freq), boson_green(bphi, bpsi))


def coupling_energy(Ga, Gb, geb, bphi, bpsi, dims):
    c = np.einsum("xpq,zpq->zx", geb, Ga) + np.einsum("xpq,zpq->zx", geb, Gb)
    G = boson_green(bphi, bpsi)
    e = np.zeros(Ga.shape[0], dtype=np.complex128)
    for m in range(len(dims)):
        one = [1.0 if k == m else 0.0 for k in range(len(dims))]
        e = e + c[:, m] * np.einsum("mn,zmn->z", ladder_sum(dims, one), G)
    return e


def displacement_mean(weights, bphi, dims):
    """walker-averaged <b^+ + b> of every mode"""
    rho = np.einsum("z,zm,zn->mn", weights, bphi, bphi.conj()) / np.sum(weights)
    out = []
    for m in range(len(dims)):
        one = [1.0 if k == m else 0.0 for k in range(len(dims))]
        out.append(np.einsum("mn,mn->", ladder_sum(dims, one), rho))
    return np.array(out)


def boson_step_product(phia, phib, psia, psib, psi, ncomp, h1, L, geb, freq, dims, bphi, bpsi, dt, order, bound, weights,
                       eprev, eshift, ebound, nw, nfields, off):
    """one step with the bilinear term factorised over electrons and bosons"""
    from scipy.linalg import expm
    v = mean_field_shift(psi, ncomp, L)
    Ga = green(phia, psia)
    Gb = Ga if ncomp == 1 else green(phib, psib)
    old = ovlp_rhf(phia, psia) if ncomp == 1 else ovlp_uhf(phia, psia, phib, psib)
    Hb = number_op(dims, freq)
    nb = bphi
    add = 0
    if not off:
        old = old * boson_overlap(bphi, bpsi)
        rho = np.einsum("z,zpq->pq", weights, Ga + Gb) / np.sum(weights)
        c = np.einsum("pq,xpq->x", rho, geb)
        U = expm(-dt / 2 * Hb)
        nb = np.einsum("mn,zn->zm", U, bphi)
        add = np.einsum("x,xpq->pq", displacement_mean(weights, bphi, dims), geb)
    Ba = expm(-dt / 2 * (shifted_h1(h1[0], L, v) + add))
    Bb = Ba if ncomp == 1 else expm(-dt / 2 * (shifted_h1(h1[1], L, v) + add))
    vb = force_bias(Ga, Gb, L)
    xi = np.random.normal(0.0, 1.0, nfields * nw).reshape(nw, nfields)
    xbar = bounded(-np.sqrt(dt) * (1j * vb - v), bound)
    xs = xi - xbar
    V = 1j * np.sqrt(dt) * np.einsum("zn,npq->zpq", xs, L)
    pa = apply1(Ba, taylor(V, apply1(Ba, phia), order))
    pb = None
    if ncomp > 1:
        pb = apply1(Bb, taylor(V, apply1(Bb, phib), order))
    if not off:
        nb = np.einsum("mn,zn->zm", expm(-dt * ladder_sum(dims, c)), nb)
        nb = np.einsum("mn,zn->zm", U, nb)
    new = ovlp_rhf(pa, psia) if ncomp == 1 else ovlp_uhf(pa, psia, pb, psib)
    if not off:
        new = new * boson_overlap(nb, bpsi)
    cfb = np.sum((xi - 0.5 * xbar) * xbar, axis=1)
    cmf = -np.sqrt(dt) * np.einsum("zn,n->z", xs, v)
    w, e = reweight(weights, new / old, cfb, cmf, dt, eprev, eshift, ebound, "hybrid", None)
    return pa, pb, nb, w, e, new


def boson_step_decoupled(phia, phib, psia, psib, psi, ncomp, h1, L, nbare, le, lb, freq, nf, bphi, bpsi, dt, order, bound,
                         weights, eprev, eshift, ebound, nw, nfields, off):
    """one step with the bilinear term decoupled by auxiliary fields shared between electrons and bosons (single mode)"""
    from scipy.linalg import expm
    v = mean_field_shift(psi, ncomp, L)
    Ga = green(phia, psia)
    Gb = Ga if ncomp == 1 else green(phib, psib)
    old = ovlp_rhf(phia, psia) if ncomp == 1 else ovlp_uhf(phia, psia, phib, psib)
    Lb = np.einsum("x,mn->xmn", lb, ladder_sum([nf], [1.0]))
    Hb = number_op([nf], freq)
    nb = bphi
    h = h1 - 0.5 * np.einsum("npr,nrq->pq", L[:nbare], L[:nbare]) - 1j * np.einsum("n,npq->pq", v, L)
    if not off:
        G = boson_green(bphi, bpsi)
        old = old * boson_overlap(bphi, bpsi)
        vB = 1j * np.einsum("xmn,mn->x", Lb, np.einsum("m,n->mn", bpsi, bpsi.conj()))
        U = expm(-dt / 2 * (Hb - 1j * np.einsum("x,xmn->mn", vB, Lb)))
        nb = np.einsum("mn,zn->zm", U, bphi)
    Ba = expm(-dt / 2 * h[0])
    Bb = Ba if ncomp == 1 else expm(-dt / 2 * h[1])
    vb = force_bias(Ga, Gb, L)
    xi = np.random.normal(0.0, 1.0, nfields * nw).reshape(nw, nfields)
    xbar = bounded(-np.sqrt(dt) * (1j * vb - v), bound)
    xs = xi - xbar
    V = 1j * np.sqrt(dt) * np.einsum("zn,npq->zpq", xs, L)
    pa = apply1(Ba, taylor(V, apply1(Ba, phia), order))
    pb = None
    if ncomp > 1:
        pb = apply1(Bb, taylor(V, apply1(Bb, phib), order))
    cfb = np.sum((xi - 0.5 * xbar) * xbar, axis=1)
    cmf = -np.sqrt(dt) * np.einsum("zn,n->z", xs, v)
    new = ovlp_rhf(pa, psia) if ncomp == 1 else ovlp_uhf(pa, psia, pb, psib)
    if not off:
        xib = xi[:, nbare:]
        xb = bounded(-np.sqrt(dt) * (1j * np.einsum("xmn,zmn->zx", Lb, G) - vB), bound)
        W = 1j * np.sqrt(dt) * np.einsum("zx,xmn->zmn", xib - xb, Lb)
        t = nb
        for k in range(order):
            t = np.einsum("zmn,zn->zm", W, t) / (k + 1)
            nb = nb + t
        nb = np.einsum("mn,zn->zm", U, nb)
        cfb = cfb + np.sum((xib - 0.5 * xb) * xb, axis=1)
        cmf = cmf - np.sqrt(dt) * np.einsum("zx,x->z", xib - xb, vB)
        new = new * boson_overlap(nb, bpsi)
    w, e = reweight(weights, new / old, cfb, cmf, dt, eprev, eshift, ebound, "hybrid", None)
    return pa, pb, nb, w, e, new


def total(e1, e2, eb, eg, off):
    return e1 + e2 if off else e1 + e2 + eb + eg


def weighted(w, x):
    return np.sum(w * x.real)


def norm(w):
    return np.sum(w)


def bilinear_sums(le, lb, k, nm):
    """per mode: sum_x Le_x Lb_x, sum_x Le_x Le_x, sum_x Lb_x^2 over the k fields of that mode"""
    cross, ee, bb = [], [], []
    for m in range(nm):
        e = le[k * m:k * (m + 1)]
        b = lb[k * m:k * (m + 1)]
        cross.append(np.einsum("xpq,x->pq", e, b))
        ee.append(np.einsum("xpq,xqr->pr", e, e))
        bb.append(np.sum(b * b))
    return np.array(cross), np.array(ee), np.array(bb)


def bilinear_target(g, A, B):
    return np.einsum("mpq,m,m->mpq", g, A, B)


def shifted_overlap(ov, lsh, twice):
    return ov * np.exp(-2 * lsh) if twice else ov * np.exp(-lsh)


def sum2(a, b):
    return a + b


def qfactor(phi):
    """orthonormal basis of every walker's orbital space"""
    return np.array([np.linalg.qr(phi[k])[0] for k in range(phi.shape[0])])


def unit(b):
    return b / np.sqrt(np.sum(np.abs(b) ** 2, axis=1))[:, None]


def coherent(z, dims):
    """product coherent state amplitudes, mode after mode, normalised as one vector"""
    c = []
    for m in range(len(dims)):
        f = 1.0
        for n in range(dims[m]):
            if n > 0:
                f = f * n
            c.append(np.exp(-np.abs(z[m]) ** 2 / 2) * z[m] ** n / np.sqrt(f))
    c = np.array(c)
    return c / np.sqrt(np.sum(np.abs(c) ** 2))


def window(dt):
    return np.sqrt(2.0 / dt)


# ---------------------------------------------------------------- many ranks
def allsum(comm, x):
    return comm.allreduce(x, op=None)


def global_weighted(comm, w, x):
    return comm.allreduce(np.sum(w * x.real), op=None)


def shift_estimate(comm, ws, es):
    """weight-averaged energy over the walkers of all ranks and the steps since the last evaluation"""
    num = 0.0
    den = 0.0
    for k in range(len(ws)):
        num = num + comm.allreduce(np.sum(ws[k] * es[k]), op=None)
        den = den + comm.allreduce(np.sum(ws[k]), op=None)
    return num / den


def rescaled(comm, w, target, bound, clip):
    if clip:
        w = np.clip(w, -bound, bound)
    tot = comm.allreduce(np.sum(np.abs(w)), op=None)
    return w * target / tot, tot


def mean_density(comm, w, G):
    return comm.allreduce(np.einsum("z,zpq->pq", w, G), op=None) / comm.allreduce(np.sum(w), op=None)


def mean_displacement(comm, w, bphi, dims):
    rho = comm.allreduce(np.einsum("z,zm,zn->mn", w, bphi, bphi.conj()), op=None) / comm.allreduce(np.sum(w), op=None)
    out = []
    for m in range(len(dims)):
        one = [1.0 if k == m else 0.0 for k in range(len(dims))]
        out.append(np.einsum("mn,mn->", ladder_sum(dims, one), rho))
    return np.array(out)


def clipped(w, bound, clip):
    return np.clip(w, -bound, bound) if clip else w


# ---------------------------------------------------------------- population control
def ensemble(w, parts):
    """the state a weighted set of walkers stands for: sum_k w_k phi_k(up) x phi_k(down) x phi_k(boson)"""
    if len(parts) == 1:
        return np.einsum("k,kpi->pi", w, parts[0])
    if len(parts) == 2 and parts[1].ndim == 3:
        return np.einsum("k,kpi,kqj->piqj", w, parts[0], parts[1])
    if len(parts) == 2:
        return np.einsum("k,kpi,kx->pix", w, parts[0], parts[1])
    return np.einsum("k,kpi,kqj,kx->piqjx", w, parts[0], parts[1], parts[2])


# ---------------------------------------------------------------- the Hamiltonian handed to the propagator
def decompose(ch, g):
    """vectors whose outer products sum to the (coupling-dressed) two-electron integrals"""
    if g is None:
        return ch
    return np.concatenate((ch, g), axis=0)


def rotated(X, m):
    return np.einsum("ki,kl,lj->ij", X, m, X)


def rotated_all(X, m):
    return np.einsum("ki,nkl,lj->nij", X, m, X)


def one_body(X, h, g):
    """core Hamiltonian plus the one-body part of the dipole self-energy"""
    out = np.einsum("ki,kl,lj->ij", X, h, X)
    if g is not None:
        gr = np.einsum("ki,nkl,lj->nij", X, g, X)
        out = out + 0.5 * np.einsum("nij,njk->ik", gr, gr)
    return out


def two_body(L):
    return np.einsum("npq,nrs->pqrs", L, L)


def two_body_target(X, ch, g):
    c = np.einsum("ki,nkl,lj->nij", X, ch, X)
    out = np.einsum("npq,nrs->pqrs", c, c)
    if g is not None:
        gr = np.einsum("ki,nkl,lj->nij", X, g, X)
        out = out + np.einsum("npq,nrs->pqrs", gr, gr)
    return out


def coupling(X, g, freq):
    gr = np.einsum("ki,nkl,lj->nij", X, g, X)
    return np.einsum("n,nij->nij", np.sqrt(freq / 2), gr)


def dressed_eri(eri, g):
    if g is None:
        return eri + 0.0
    return eri + np.einsum("npq,nrs->pqrs", g, g)


def svd_vectors(U, s, thresh, nao):
    keep = s > thresh
    L = (U[:, keep] * np.sqrt(s[keep])).T
    return L.reshape(L.shape[0], nao, nao)
