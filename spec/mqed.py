"""Reference formulas for cavity QED mean-field theory (Pauli-Fierz Hamiltonian in the
dipole gauge; lambda = coupling, e = polarisation, g = lambda e.d, f = transformation
parameter, z = coherent displacement, r = squeezing, c = photon amplitudes)."""
import numpy as np


class Mol:
    """molecule whose integrals are free tensors"""

    def __init__(self, nao, nelec, r3, rr9, eri, h, s):
        self.verbose = 0
        self.stdout = None
        self.nelectron = nelec
        self._nao = nao
        self._r3 = r3
        self._rr9 = rr9
        self._eri = eri
        self._h = h
        self._s = s
        self.nelec = (nelec, nelec)
        self.spin = 0
        self.symmetry = False
        self._pseudo = None
        self.incore_anyway = False
        self._ecpbas = None
        self._atm = None
        self._bas = None
        self._env = None

    def nao_nr(self):
        return self._nao

    def intor_symmetric(self, name, comp=None):
        if name == "int1e_r":
            return self._r3.copy()
        return None

    def intor(self, name, aosym=None):
        if name == "int1e_rr":
            return self._rr9.copy()
        if name == "int2e":
            return self._eri.copy()
        if name == "int1e_ovlp":
            return self._s.copy()
        return None


def coupling(lam, e, r3):
    """lambda_X e_X . d  with d = -r"""
    return np.einsum("x,xc,cpq->xpq", lam, e, -r3)


def bilinear(lam, e, r3, omega):
    return np.einsum("x,x,xc,cpq->xpq", np.sqrt(omega / 2.0), lam, e, -r3)


def quadrupole(lam, e, rr9):
    """lambda_X^2 e_X e_X : Q with Q = -rr"""
    n = lam.shape[0]
    out = []
    for x in range(n):
        ee = np.outer(e[x], e[x]).reshape(-1)
        out.append(np.einsum("j,jpq->pq", ee, -rr9) * lam[x] ** 2)
    return np.array(out)


def displacement(g, dm):
    return np.einsum("xpq,pq->x", g, dm)


def gvar2(f, residue, dse):
    """weight of the squared dipole: 1, (1-f)^2, or (1-f)^2 - 1 without the self-energy"""
    if not residue:
        return np.ones(f.shape[0])
    if dse:
        return (1.0 - f) ** 2
    return (1.0 - f) ** 2 - 1.0


def dse_j(g, dm, w):
    return np.einsum("xpq,xrs,rs,x->pq", g, g, dm, w)


def dse_k(g, dm, w):
    return np.einsum("xpr,rs,xsq,x->pq", g, dm, g, w)


def dse_jk_slope(g, dm, f):
    d = -2.0 * (1.0 - f)
    return dse_j(g, dm, d) - 0.5 * dse_k(g, dm, d)


def quadrature(c, dims, k):
    """<b+ + b> of mode k in the photon state c (first column)"""
    start = 0
    for j in range(k):
        start = start + dims[j]
    n = dims[k]
    x = 0.0
    for m in range(n - 1):
        x = x + 2.0 * np.sqrt(m + 1) * c[start + m, 0] * c[start + m + 1, 0]
    return x


def dse_square(g, q, s, complete, s_inv):
    """one-electron matrix of the squared dipole: exact quadrupole or resolution of identity"""
    if complete:
        return -q
    return np.einsum("xpr,rs,xsq->xpq", g, s_inv, g)


def oei(g, z, w, sq, dse, eb, s, nelec, c, dims, omega, f):
    h = -np.einsum("xpq,x->pq", g, w * z)
    if dse:
        h = h + 0.5 * np.einsum("x,xpq->pq", w, sq)
    h = h + (0.5 * np.sum(w * z ** 2) + eb) * s / nelec
    for k in range(len(dims)):
        h = h + np.sqrt(omega[k] / 2.0) * (1.0 - f[k]) * quadrature(c, dims, k) * (g[k] - z[k] * s)
    return h


def oei_slope(g, z, sq, dse, s, nelec, c, dims, omega, f):
    d = -2.0 * (1.0 - f)
    h = -np.einsum("xpq,x->pq", g, d * z)
    if dse:
        h = h + 0.5 * np.einsum("x,xpq->pq", d, sq)
    h = h + 0.5 * np.sum(d * z ** 2) * s / nelec
    for k in range(len(dims)):
        h = h - np.sqrt(omega[k] / 2.0) * quadrature(c, dims, k) * (g[k] - z[k] * s)
    return h


def photon_block(n, omega, z, r):
    """one mode: squeezed number operator plus linear drive"""
    H = np.zeros((n, n))
    for m in range(n):
        H[m, m] = omega * (m * np.cosh(2.0 * r) + np.sinh(r) ** 2)
        if m + 1 < n:
            H[m, m + 1] = np.sqrt(m + 1) * z
            H[m + 1, m] = np.sqrt(m + 1) * z
    return H


def photon_ham(dims, omega, z, r):
    n = 0
    for d in dims:
        n = n + d
    H = np.zeros((n, n))
    i = 0
    for k in range(len(dims)):
        H[i:i + dims[k], i:i + dims[k]] = photon_block(dims[k], omega[k], z[k], r[k])
        i = i + dims[k]
    return H


class Scf:
    """the parts of the external mean-field base class that the analysed code calls"""

    def __init__(self, mol):
        self.mol = mol

    def get_ovlp(self, mol=None):
        return self.mol._s

    def mem_enough(self):
        return True

    def mem_short(self):
        return False


def hcore(mol):
    return mol._h.copy()


def coulomb_exchange(eri, dm):
    return np.einsum("pqrs,rs->pq", eri, dm), np.einsum("pqrs,qr->ps", eri, dm)


def veff(eri, dm, g, w, dse):
    """J - K/2 of the electron repulsion and of the dipole self-energy"""
    j, k = coulomb_exchange(eri, dm)
    v = j - 0.5 * k
    if dse:
        v = v + dse_j(g, dm, w) - 0.5 * dse_k(g, dm, w)
    return v


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def scale(x, a):
    return x * a


def energy(h, v, dm):
    """E1 + E2 with E2 = Tr(v D)/2"""
    return np.einsum("pq,qp->", h, dm) + 0.5 * np.einsum("pq,qp->", v, dm)


def pf_energy(h, eri, g, q, omega, z, dm, eb, nelec, s, c, dims):
    """Pauli-Fierz expectation value in |Slater> x |photon>, displaced by z"""
    e = np.einsum("pq,qp->", h, dm)
    j, k = coulomb_exchange(eri, dm)
    e = e + 0.5 * np.einsum("pq,qp->", j, dm) - 0.25 * np.einsum("pq,qp->", k, dm)
    n = np.einsum("pq,qp->", s, dm) / nelec
    d = np.einsum("xpq,pq->x", g, dm)
    d2 = -np.einsum("xpq,pq->x", q, dm) + d * d - 0.5 * np.einsum("xpq,qr,xrs,sp->x", g, dm, g, dm)
    e = e + 0.5 * np.sum(d2 - 2.0 * z * d + z * z * n) + eb * n
    for i in range(len(dims)):
        e = e + np.sqrt(omega[i] / 2.0) * quadrature(c, dims, i) * (d[i] - z[i] * n * nelec)
    return e


# ---------------------------------------------------------------- displaced (dressed) orbitals
def fact(n):
    r = 1
    for i in range(2, n + 1):
        r = r * i
    return r


def binom(n, k):
    return fact(n) / (fact(k) * fact(n - k))


class Laguerre:
    """generalised Laguerre polynomial L_n^(alpha)"""

    def __init__(self, n, alpha=0):
        self.n = n
        self.alpha = alpha

    def __call__(self, x):
        r = 0.0 * x
        for k in range(self.n + 1):
            r = r + (-1) ** k * binom(self.n + self.alpha, self.n - k) / fact(k) * x ** k
        return r


def disp_element(m, n, a):
    """<m|D|n> for m >= n, without the Gaussian factor; the table is used symmetrically"""
    r = 0.0 * a
    for k in range(n + 1):
        r = r + (-1) ** k * binom(m, n - k) / fact(k) * a ** (2 * k)
    return np.sqrt(fact(n) / fact(m)) * (-a) ** (m - n) * r


def disp_slope(m, n, a):
    """derivative in a of exp(-a^2/2) <m|D|n>, without the Gaussian factor"""
    d = m - n
    r = 0.0 * a
    for k in range(n + 1):
        w = (-1) ** k * binom(m, n - k) / fact(k) * (-1) ** d
        p = d + 2 * k
        r = r - w * a ** (p + 1)
        if p > 0:
            r = r + w * p * a ** (p - 1)
    return np.sqrt(fact(n) / fact(m)) * r


def fc(a, n, c):
    """expectation value of the displacement in the photon state c (n Fock states)"""
    g = np.exp(-0.5 * a ** 2)
    if n == 1:
        return g
    r = 0.0 * a
    for i in range(n):
        for j in range(n):
            r = r + c[i] * c[j] * disp_element(max(i, j), min(i, j), a)
    return g * r


def fc_slope(a, n, c):
    g = np.exp(-0.5 * a ** 2)
    if n == 1:
        return -a * g
    r = 0.0 * a
    for i in range(n):
        for j in range(n):
            r = r + c[i] * c[j] * disp_slope(max(i, j), min(i, j), a)
    return g * r


def dist1(eta):
    return eta[:, None] - eta[None, :]


def dist2(eta):
    return eta[:, None, None, None] - eta[None, :, None, None] + eta[None, None, :, None] - eta[None, None, None, :]


def width(r, omega):
    return np.exp(r) / omega


def to_do(U, A):
    return np.einsum("pu,pq,qv->uv", U, A, U)


def dm_to_do(U, S, dm):
    su = np.einsum("pq,qu->pu", S, U)
    return to_do(su, dm)


def residual(U, g, eta, omega, f):
    """diagonal dipole left over by the transformation"""
    gd = to_do(U, g) * np.sqrt(omega / 2.0) * f
    return np.einsum("pp->p", gd) - eta


def h_do(U, h, gd, omega):
    x = to_do(U, h)
    return x + np.diag(gd ** 2 / omega)


def dressed_h(U, hd, F):
    return to_do(np.linalg.inv(U), hd * F)


def eri_do(U, eri):
    return np.einsum("pu,qv,rw,st,pqrs->uvwt", U, U, U, U, eri)


def eri_of(L):
    return np.einsum("xpq,xrs->pqrs", L, L)


def veff_do(ed, dd, F2, gd, omega):
    """Fock-like potential in dipole orbitals: Franck-Condon weighted J - K/2 plus the residual dipole"""
    w = F2 * (ed - 0.5 * np.transpose(ed, (0, 3, 2, 1)))
    v = np.einsum("pqrs,rs->pq", w, dd)
    G = np.einsum("pp,p->", dd, gd)
    v = v + np.diag(2.0 * gd * G / omega)
    return v - np.einsum("p,q,qp->pq", gd, gd, dd) / omega


def symm(v):
    return 0.5 * (v + v.T)


def back(U, v):
    return to_do(np.linalg.inv(U), v)


def eta_gradient(hd, ed, dd, S1, S2, gd, omega):
    """derivative of the energy with respect to eta_p; S1, S2 = slopes of the Franck-Condon factors in eta_p"""
    G = np.einsum("pp,p->", dd, gd)
    e = -2.0 * np.einsum("pp,p->p", dd, gd) / omega
    e = e + 2.0 * np.einsum("pq,pq,pq->p", hd, dd, S1)
    e = e - (2.0 * np.einsum("pp->p", dd) * G - np.einsum("pq,qp,q->p", dd, dd, gd)) / omega
    w = S2 * (2.0 * ed - np.transpose(ed, (0, 3, 2, 1)))
    return e + np.einsum("pqrs,rs,pq->p", w, dd, dd)


def f_gradient(hd, ed, dd, X1, X2, gd, omega, f):
    """derivative of the energy with respect to the transformation strength (dipole and eta scale with f)"""
    G = np.einsum("pp,p->", dd, gd)
    e = 2.0 * np.einsum("pp,p,p->", dd, gd, gd)
    e = e + 2.0 * G * G - np.einsum("pq,pq,p,q->", dd, dd, gd, gd)
    e = e / omega / f + np.einsum("pq,pq,pq->", hd, dd, X1) / f
    w = X2 * (2.0 * ed - np.transpose(ed, (0, 3, 2, 1)))
    return e + 0.25 * np.einsum("pqrs,rs,pq->", w, dd, dd) / f


def squeeze_gradient(hd, ed, dd, X1, X2):
    e = np.einsum("pq,pq,pq->", hd, dd, X1)
    w = X2 * (2.0 * ed - np.transpose(ed, (0, 3, 2, 1)))
    return e + 0.25 * np.einsum("pqrs,rs,pq->", w, dd, dd)


def mul(a, b):
    return a * b


def neg_dist(d):
    return -d


def outer(c):
    return np.outer(c, c)


def fc_slope_no1(a, n, c):
    """what the code computes: the power-law part of the derivative is missing for adjacent Fock states"""
    g = np.exp(-0.5 * a ** 2)
    r = 0.0 * a
    for i in range(n):
        for j in range(n):
            m, k = max(i, j), min(i, j)
            s = disp_slope(m, k, a)
            if m - k == 1:
                lag = 0.0 * a
                for q in range(k + 1):
                    lag = lag + (-1) ** q * binom(m, k - q) / fact(q) * a ** (2 * q)
                s = s + np.sqrt(fact(k) / fact(m)) * lag
            r = r + c[i] * c[j] * s
    return g * r


# ---------------------------------------------------------------- photon state
def drive(g, dm, z, f, omega):
    return (np.einsum("xpq,pq->x", g, dm) - z) * (1.0 - f) * np.sqrt(omega / 2.0)


def unpack_half(A, n):
    """symmetric matrix whose packed off-diagonal entries hold the sum of both halves"""
    H = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            a = max(i, j)
            b = min(i, j)
            H[i, j] = A[a * (a + 1) // 2 + b] * (1.0 if i == j else 0.5)
    return H


def photon_energy(c, dims, omega, r):
    """<number operator of the squeezed modes> in the ground vector"""
    e = 0.0
    i = 0
    for k in range(len(dims)):
        for m in range(dims[k]):
            e = e + omega[k] * c[i + m, 0] ** 2 * (m * np.cosh(2.0 * r[k]) + np.sinh(r[k]) ** 2)
        i = i + dims[k]
    return e


def photon_energy_slope(c, dims, omega, r):
    out = []
    i = 0
    for k in range(len(dims)):
        e = 0.0
        for m in range(dims[k]):
            e = e + omega[k] * c[i + m, 0] ** 2 * (2.0 * m + 1.0) * np.sinh(2.0 * r[k])
        i = i + dims[k]
        out.append(e)
    return np.array(out)


def photon_dm(c, dims, mode):
    s = 0
    n = 0
    for k in range(len(dims)):
        if mode is None or k == mode:
            n = n + dims[k]
        elif k < mode:
            s = s + dims[k]
    return np.outer(c[s:s + n, 0], c[s:s + n, 0])


def photon_occ(c, dims):
    out = []
    i = 0
    for k in range(len(dims)):
        e = 0.0
        for m in range(dims[k]):
            e = e + m * c[i + m, 0] ** 2
        i = i + dims[k]
        out.append(e)
    return np.array(out)


def poisson(z, m):
    """<m|z> of a real coherent state"""
    return np.exp(-0.5 * z ** 2) * z ** m / np.sqrt(fact(m))


def original_rdm(rho, z, nf):
    n = rho.shape[0]
    t = np.zeros((nf, n, nf, n))
    for i in range(nf):
        for j in range(nf):
            t[i, :, j, :] = rho * poisson(z, i) * poisson(z, j)
    return t


def original_rdm_do(U, rho, z, nf):
    """orbital-dependent displacements z_p in the dipole orbitals (orthonormal basis)"""
    n = rho.shape[0]
    t = np.zeros((nf, n, nf, n))
    d = to_do(U, rho)
    for i in range(nf):
        for j in range(nf):
            t[i, :, j, :] = back(U, d * np.outer(poisson(z, i), poisson(z, j)))
    return t


def photon_rdm(t, rho):
    return np.einsum("mpnp->mn", t) / np.trace(rho)


def electron_rdm(t):
    return np.einsum("mpmq->pq", t)


# ---------------------------------------------------------------- variational parameters
def pack(parts):
    return np.hstack([p.ravel() for p in parts])


def step(x, p, g):
    return x - p * g


def commutator(s, d, f, C):
    """C^H (FDS - SDF) C"""
    x = np.einsum("pa,pq,qr,rs,sb->ab", C.conj(), f, d, s, C)
    y = np.einsum("pa,pq,qr,rs,sb->ab", C.conj(), s, d, f, C)
    return (x - y).ravel()


def commutator_plain(s, d, f):
    """FDS - SDF"""
    x = np.einsum("pq,qr,rs->ps", f, d, s)
    y = np.einsum("pq,qr,rs->ps", s, d, f)
    return (x - y).ravel()


def commutator_each(s, d, f, C):
    """the commutators of several blocks, one after the other"""
    out = []
    for i in range(len(f)):
        out.append(commutator_plain(s[i], d[i], f[i]) if C is None else commutator(s[i], d[i], f[i], C[i]))
    return np.hstack(out)


def shifted(f, s, dm, x):
    """virtual orbitals raised by x"""
    return f + x * (s - 0.5 * np.einsum("pq,qr,rs->ps", s, dm, s))


def level_shift(s, d, f, factor):
    return f + (s - np.einsum("pq,qr,rs->ps", s, d, s)) * factor


def rms_sum(parts):
    r = 0.0
    for p in parts:
        r = r + np.linalg.norm(p) / np.sqrt(p.size)
    return r


def flat(v):
    return v.ravel()


def density(mo, occ):
    return np.einsum("pi,i,qi->pq", mo, occ, mo)


def exp0(r):
    return np.exp(r)


def dot_eri_dm(eri, dm, hermi=0, with_j=True, with_k=True):
    """documented behaviour of the external routine: None for what is not requested"""
    n = dm.shape[-1]
    if dm.ndim > 2:
        many = dm.reshape(-1, n, n)
        pairs = [coulomb_exchange(eri, many[i]) for i in range(many.shape[0])]
        j = np.array([p[0] for p in pairs]).reshape(dm.shape)
        k = np.array([p[1] for p in pairs]).reshape(dm.shape)
    else:
        j, k = coulomb_exchange(eri, dm)
    if not with_j:
        j = None
    if not with_k:
        k = None
    return j, k


def direct_jk(mf, mol, dm, hermi=1, with_j=True, with_k=True, omega=None):
    return dot_eri_dm(mol._eri, dm, hermi, with_j, with_k)


class Cavity:
    def __init__(self, mf):
        self.mf = mf
        self.use_cs = True
        self.nmodes = 1
        self.z_alpha = np.zeros(1)
        self.couplings_var = np.zeros(1)
        self.squeezed_var = np.zeros(1)

    def update_cs(self, dm):
        self.mf.log.append(("cs", dm))

    def update_boson_coeff(self, dm, hph=None):
        self.mf.log.append(("photon", dm))


class SCF:
    """stands in for a mean-field object and notes what the self-consistency driver does with it"""

    def __init__(self, mol, mats, occs, energies, grads, norms, max_cycle):
        self.mol = mol
        self.mats = mats
        self.occs = occs
        self.energies = energies
        self.grads = grads
        self.norms = norms
        self.max_cycle = max_cycle
        self.qed = Cavity(self)
        self.log = []
        self.nmat = 0
        self.ne = 0
        self.ng = 0
        self.nn = 0
        self.nocc = 0
        self.verbose = 0
        self.stdout = None
        self.init_guess = "minao"
        self.diis = None
        self.chkfile = None
        self.check_convergence = None
        self.cycles = 0
        self.converged = False
        self.dm_do = None
        self.g_dipole = None
        self.P = mats[0]
        self.L = mats[1]
        self.conv_tol = 1e-6
        self.conv_tol_grad = 1e-3
        self.callback = None
        self.conv_check = True
        self.mo_coeff = None

    def fresh(self, what, *args):
        m = self.mats[self.nmat]
        self.nmat = self.nmat + 1
        self.log.append((what, m) + args)
        return m

    def get_ovlp(self, mol=None):
        return self.fresh("ovlp")

    def get_cholesky(self):
        pass

    def get_init_guess(self, mol=None, key="minao"):
        return self.fresh("guess")

    def init_var_params(self, dm):
        self.log.append(("init", dm))

    def set_var_params(self, params):
        self.log.append(("setvar", params))

    def get_h1e_DO(self, mol=None, dm=None):
        self.log.append(("dressed", dm))

    def get_bare_hcore(self, mol=None):
        return self.fresh("bare")

    def get_bare_veff(self, mol=None, dm=None, dm_last=0, vhf_last=0, hermi=1):
        return self.fresh("bareveff", dm)

    def get_hcore(self, mol=None, dm=None, dress=True):
        return self.fresh("hcore", dm)

    def get_veff(self, mol=None, dm=None, dm_last=0, vhf_last=0, hermi=1):
        return self.fresh("veff", dm, dm_last, vhf_last)

    def energy_tot(self, dm=None, h1e=None, vhf=None):
        e = self.energies[self.ne]
        self.ne = self.ne + 1
        self.log.append(("energy", e, dm, h1e, vhf))
        return e

    def get_fock(self, h1e=None, s1e=None, vhf=None, dm=None, cycle=-1, diis=None, diis_start_cycle=None,
                 level_shift_factor=None, damp_factor=None):
        return self.fresh("fock", h1e, s1e, vhf, dm, cycle, diis)

    def eig(self, fock, s1e):
        c = self.fresh("eig", fock, s1e)
        return self.mats[-1], c

    def get_occ(self, mo_energy=None, mo_coeff=None):
        o = self.occs[self.nocc]
        self.nocc = self.nocc + 1
        self.log.append(("occ", o, mo_coeff))
        return o

    def make_rdm1(self, mo_coeff=None, mo_occ=None):
        return self.fresh("rdm", mo_coeff, mo_occ)

    def grad_var_params(self, *args, **kw):
        self.log.append(("gradvar",))

    def norm_var_params(self):
        v = self.norms[self.nn]
        self.nn = self.nn + 1
        return v

    def get_grad(self, mo_coeff, mo_occ, fock=None):
        g = self.grads[self.ng]
        self.ng = self.ng + 1
        self.log.append(("grad", mo_coeff, mo_occ, fock))
        return np.array([g])

    def pre_kernel(self, envs):
        pass

    def check_sanity(self):
        pass

    def post_kernel(self, envs):
        pass

    def dump_flags(self):
        pass

    def build(self, mol=None):
        pass

    def dump_chk(self, envs):
        pass

    def _finalize(self):
        pass
