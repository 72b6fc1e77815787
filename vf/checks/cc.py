"""Coupled cluster of electrons and modes: residuals against the projected, similarity-transformed Hamiltonian."""
from itertools import combinations, permutations, product
from math import factorial, sqrt

from ..engine.interp import Ref, Tup, TopV

OPT = "openms/mqed/myqedcc_equations_opt.py"
MY = "openms/mqed/myqedcc_equations.py"
PLAIN = "openms/mqed/qedcc_equations.py"
ENTRY = {OPT: ("myqedcc_equations_opt", "new_qedccsd_sn_u2n"), MY: ("myqedcc_equations", "new_qedccsd_sn_u2n"),
         PLAIN: ("qedcc_equations", "qedccsd_sn_u2n")}


# ------------------------------------------------------------------ symmetries of the atoms
def order(ix):
    """sorted copy of a pair and its sign; 0 if equal"""
    return ((ix, 1) if ix[0] < ix[1] else ((ix[1], ix[0]), -1)) if ix[0] != ix[1] else (ix, 0)


def eri_canon(ix):
    a, s = order(ix[:2])
    b, t = order(ix[2:])
    return ((a + b) if a <= b else (b + a)), s * t


def amp_canon(nph, k):
    """bosonic indices symmetric, then k virtual and k occupied indices antisymmetric"""
    def f(ix):
        m = tuple(sorted(ix[:nph]))
        if k < 2:
            return m + ix[nph:], 1
        a, s = order(ix[nph:nph + 2])
        b, t = order(ix[nph + 2:])
        return m + a + b, s * t
    return f


def pair_canon(lead):
    return lambda ix: (ix[:lead] + tuple(sorted(ix[lead:])), 1)


# ------------------------------------------------------------------ reference, on values of the atoms
def cre(p, d):
    if d >> p & 1:
        return 0, d
    return (-1 if bin(d & ((1 << p) - 1)).count("1") & 1 else 1), d | 1 << p


def ann(p, d):
    if not d >> p & 1:
        return 0, d
    return (-1 if bin(d & ((1 << p) - 1)).count("1") & 1 else 1), d & ~(1 << p)


def apply(ops, d):
    """ops from the right: (function, orbital)"""
    s = 1
    for f, p in ops:
        t, d = f(p, d)
        if not t:
            return 0, d
        s *= t
    return s, d


class Reference:
    """P_mu exp(-T) H exp(T) |0> on determinants times number states"""

    def __init__(self, ev, no, nv, nm, n1, n2, u2):
        self.no, self.n, self.nm = no, no + nv, nm
        n = self.n
        v = lambda name, *ix: ev.rnd(name, tuple(ix))
        self.ref = (1 << no) - 1
        rg = range(n)
        f = {(p, q): v("F", p, q) for p in rg for q in rg}
        i4 = {}
        for p, q, r, s in product(rg, repeat=4):
            x = v("I", p, q, r, s)
            if x:
                i4[p, q, r, s] = x
        h = {(p, q): f[p, q] - sum(i4.get((p, k, q, k), 0) for k in range(no)) for p in rg for q in rg}
        # electronic operator as a table over determinants
        dets = [sum(1 << x for x in c) for c in combinations(rg, no)]
        self.el, self.g = {}, [{} for _ in range(nm)]
        for d in dets:
            row = {}
            for (p, q), x in h.items():
                s, e = apply([(ann, q), (cre, p)], d)
                if s:
                    row[e] = row.get(e, 0) + s * x
            for (p, q, r, t), x in i4.items():
                s, e = apply([(ann, r), (ann, t), (cre, q), (cre, p)], d)
                if s:
                    row[e] = row.get(e, 0) + 0.25 * s * x
            self.el[d] = row
            for m in range(nm):
                row = {}
                for p, q in product(rg, repeat=2):
                    s, e = apply([(ann, q), (cre, p)], d)
                    if s:
                        row[e] = row.get(e, 0) + s * v("g", m, p, q)
                self.g[m][d] = row
        # normal ordering with respect to the reference determinant
        shift = self.el[self.ref][self.ref]
        shg = [self.g[m][self.ref].get(self.ref, 0) for m in range(nm)]
        for d in dets:
            self.el[d][d] = self.el[d].get(d, 0) - shift
            for m in range(nm):
                self.g[m][d][d] = self.g[m][d].get(d, 0) - shg[m]
        self.w = [v("w", m) for m in range(nm)]
        # the cluster operator: (factor, electronic excitation, modes created)
        self.t = []
        oc, vi = range(no), range(nv)

        def add(name, k, nph, pre):
            for ms in product(range(nm), repeat=nph):
                if k == 0:
                    self.t.append((v(name, *ms) / factorial(nph), [], ms))
                elif k == 1:
                    for a, i in product(vi, oc):
                        self.t.append((v(name, *ms, a, i) / factorial(nph), [(ann, i), (cre, no + a)], ms))
                else:
                    for a, b in combinations(vi, 2):
                        for i, j in combinations(oc, 2):
                            self.t.append((v(name, *ms, a, b, i, j) / factorial(nph), self.double(a, b, i, j), ms))
        add("T1", 1, 0, 1)
        add("T2", 2, 0, 1)
        for k in range(n1):
            add("S%d" % k, 0, k + 1, 1)
        for k in range(n2):
            add("U1%d" % k, 1, k + 1, 1)
            if u2:
                add("U2%d" % k, 2, k + 1, 1)
        self.cut = max(n1, n2) + 1
        e = self.exp(1, {(self.ref, (0,) * nm): 1.0})
        self.r = self.exp(-1, self.ham(e))

    def double(self, a, b, i, j):
        """a^+ b^+ j i"""
        return [(ann, i), (ann, j), (cre, self.no + b), (cre, self.no + a)]

    def raised(self, ph, ms):
        x = list(ph)
        s = 1.0
        for m in ms:
            x[m] += 1
            s *= sqrt(x[m])
        return s, tuple(x)

    def cluster(self, vec):
        out = {}
        for (d, ph), x in vec.items():
            for c, ops, ms in self.t:
                if sum(ph) + len(ms) > self.cut:
                    continue
                s, e = apply(ops, d)
                if s:
                    f, q = self.raised(ph, ms)
                    k = (e, q)
                    out[k] = out.get(k, 0) + s * c * f * x
        return out

    def exp(self, sign, vec):
        out, term, k = dict(vec), vec, 1
        while term and k < 60:
            term = {q: sign * x / k for q, x in self.cluster(term).items() if x}
            for q, x in term.items():
                out[q] = out.get(q, 0) + x
            k += 1
        return out

    def ham(self, vec):
        out = {}

        def put(d, ph, x):
            out[d, ph] = out.get((d, ph), 0) + x
        for (d, ph), x in vec.items():
            put(d, ph, x * sum(w * k for w, k in zip(self.w, ph)))
            for e, y in self.el[d].items():
                put(e, ph, x * y)
            for m in range(self.nm):
                lo = list(ph)
                lo[m] -= 1
                hi = list(ph)
                hi[m] += 1
                for e, y in self.g[m][d].items():
                    if ph[m]:
                        put(e, tuple(lo), x * y * sqrt(ph[m]))
                    if sum(hi) <= self.cut:
                        put(e, tuple(hi), x * y * sqrt(hi[m]))
        return out

    def entry(self, ms, el):
        """projection on the excitation (a, i) or (a, b, i, j) and the modes ms"""
        if len(el) == 4:
            a, b, i, j = el
            if a == b or i == j:
                return 0.0
            ops = self.double(a, b, i, j)
        else:
            ops = [(ann, el[1]), (cre, self.no + el[0])] if el else []
        s, d = apply(ops, self.ref)
        f, ph = self.raised((0,) * self.nm, ms)
        return s * f * self.r.get((d, ph), 0.0)


# ------------------------------------------------------------------ obligations
def setup(ck, no, nv, nm, n1, n2, u2):
    it = ck.interp()
    it.max_steps = 10 ** 7
    sp = it.load("spec.cc")
    n = no + nv
    cut = {"o": (0, no), "v": (no, n)}

    def tensor(name, lead, rank, canon):
        full = it.atom(name, tuple(lead) + (n,) * rank, real=True, canon=canon)
        b = it.call(it.mod_attr(sp, "blocks"), [], {})
        for p in product("ov", repeat=rank):
            ix = Tup([it.slice(None, None)] * len(lead) + [it.slice(*cut[c]) for c in p])
            it.setattr(b, "".join(p), it.np.index(full, ix))
        return b
    F = tensor("F", (), 2, pair_canon(0))
    I = tensor("I", (), 4, eri_canon)
    g, h = tensor("g", (nm,), 2, pair_canon(1)), tensor("g", (nm,), 2, pair_canon(1))
    w = it.atom("w", (nm,), real=True)
    G, H = it.new_arr(it.arr(it.new_list([0.0] * nm))), it.new_arr(it.arr(it.new_list([0.0] * nm)))
    amp = lambda name, nph, k: it.atom(name, (nm,) * nph + (nv,) * k + (no,) * k, real=True, canon=amp_canon(nph, k))
    S = it.new_list([amp("S%d" % k, k + 1, 0) for k in range(n1)])
    U1 = it.new_list([amp("U1%d" % k, k + 1, 1) for k in range(n2)])
    U2 = it.new_list([amp("U2%d" % k, k + 1, 2) if u2 else None for k in range(n2)])
    return it, [F, I, w, g, h, G, H, n1, n2, Tup([amp("T1", 0, 1), amp("T2", 0, 2), S, U1, U2])]


def residuals(ck, site, cell):
    no, nv, nm, n1, n2, u2 = cell
    it, args = setup(ck, *cell)
    mod, fn = ENTRY[site]
    compare(ck, it, site, cell, it.items(it.call(it.mod_attr(it.load("openms.mqed." + mod), fn), args, {})), "")


def forms(ck, site, cell):
    """the separate functions for singles, doubles and their photon excitations"""
    it, args = setup(ck, *cell)
    m = it.load("openms.mqed." + ENTRY[site][0])
    f = lambda n, *a: it.call(it.mod_attr(m, n), list(args) + list(a), {})
    if site == PLAIN:
        one, two = it.items(f("qedccsd_T1T2_opt"))
        return compare(ck, it, site, cell, [one, two, None, None, None], "joint form, ")
    imds = f("Imds")
    it.call(it.getattr(imds, "build"), list(args), {})
    compare(ck, it, site, cell, [f("qedccsd_T1", imds), f("qedccsd_T2", imds), None, f("qedccsd_U1n", imds), f("qedccsd_U2n", imds)], "direct form, ")


def compare(ck, it, site, cell, r, form):
    no, nv, nm, n1, n2, u2 = cell
    tag = form + ENTRY[site][0] + ", %d occupied, %d virtual, %d mode%s, %s" % (no, nv, nm, "s"[:nm > 1], "n1=%d n2=%d%s" % (n1, n2, " with photon doubles" if u2 else ""))
    out = [("singles", r[0], 0, 2), ("doubles", r[1], 0, 4)]
    for lab, v, el, k in (("modes", r[2], 0, n1), ("singles with modes", r[3], 2, n2), ("doubles with modes", r[4], 4, n2 if u2 else 0)):
        vs = it.items(v) if isinstance(v, (Ref, Tup)) else []
        for q in range(k if v is not None else 0):
            out.append(("%s (%d)" % (lab, q + 1), vs[q], q + 1, el))
    refs = {}

    def reference(ev, t):
        if t not in refs:
            refs[t] = Reference(ev, *cell)
        return refs[t]
    for lab, v, nph, el in out:
        ck.equal_fn("%s, %s" % (lab, tag), it, v, lambda ev, t, ix, nph=nph: reference(ev, t).entry(ix[:nph], ix[nph:]),
                    [nm] * nph + ([nv, nv, no, no] if el == 4 else [nv, no] if el else []), site)


CELLS = [(2, 3, 1, 1, 1, True), (2, 3, 1, 2, 1, False), (2, 3, 1, 2, 2, True), (2, 3, 2, 2, 2, False), (3, 2, 1, 2, 2, False), (2, 3, 2, 1, 1, True), (2, 3, 2, 1, 1, False), (3, 2, 2, 2, 1, True), (2, 2, 2, 2, 1, True)]


def c01(ck):
    ck.rule("each residual returned by the equations equals the projection of exp(-T) H exp(T) on the excited determinant and number state")
    for site, cell in [(s, c) for s in (OPT, MY, PLAIN) for c in CELLS]:
        ck.guarded("residuals of %s, %s" % (ENTRY[site][1], (cell,)), lambda: residuals(ck, site, cell), site)
        ck.guarded("other forms in %s, %s" % (ENTRY[site][0], (cell,)), lambda: forms(ck, site, cell), site)


# ------------------------------------------------------------------ integrals handed to coupled cluster
BOS = "openms/lib/boson.py"
CC = "openms/mqed/ccsd.py"


def reference_state(ck, occ, nm, **opts):
    """a converged mean field over free integrals and orbitals; occ = (n_alpha, n_beta) or one number for closed shells"""
    from . import mqed
    x = mqed.M(ck, dims=(1,) * nm, nao=opts.pop("nao", 2), **opts)
    it = x.it
    call = lambda nme: (lambda it, a, kw: it.call(it.mod_attr(it.load("spec.cc"), nme), list(a), kw))
    it.overrides["pyscf.scf.ghf.get_jk"] = call("ghf_jk")
    it.overrides["pyscf.ao2mo.general"] = call("ao2mo_general")
    n = x.nao
    row = lambda k: it.new_arr(it.arr(it.new_list([1.0 if i < k else 0.0 for i in range(n)])))
    if isinstance(occ, int):
        x.na = x.nb = occ
        x.ca = x.cb = it.atom("C", (n, n), real=True)
        c, o = x.ca, it.np.binop("Mult", 2.0, row(occ))
    else:
        x.na, x.nb = occ
        x.ca, x.cb = it.atom("Ca", (n, n), real=True), it.atom("Cb", (n, n), real=True)
        c, o = it.new_list([x.ca, x.cb]), it.new_arr(it.arr(it.new_list([row(occ[0]), row(occ[1])])))
    x.set(x.mf, mo_coeff=c, mo_occ=o)
    zero = it.np.binop("Mult", 0.0, x.f)
    one = it.np.binop("Add", 1.0, zero)
    cp = lambda v: it.new_arr(it.arr(v))
    x.set(x.qed, _mf=x.mf, couplings_var=cp(zero), couplings_res=cp(one), dipole_ao=it.np.binop("Mult", -1.0, x.r3), quadrupole_ao=it.np.binop("Mult", -1.0, x.rr9))
    sp = lambda nme, *a: it.call(it.mod_attr(it.load("spec.cc"), nme), list(a), {})
    x.cc = sp
    x.pa, x.pb = sp("projector", x.ca, x.na), sp("projector", x.cb, x.nb)
    x.p = x.spec("add", x.pa, x.pb)
    x.dse = opts.get("dse", True)
    x.w1 = x.spec("gvar2", zero, False, x.dse)
    z = x.spec("displacement", x.g, x.p)
    dl = it.new_list([1] * nm)
    x.hd = x.spec("add", x.h, x.spec("oei", x.g, z, x.w1, x.spec("dse_square", x.g, x.q, x.s, True, None), x.dse, x.eb, x.s, x.nelec, x.c, dl, x.omega, zero))
    x.co, x.cv = it.items(sp("orbitals", x.ca, x.cb, x.na, x.nb))
    return x


def c03(ck):
    ck.rule("the Fock matrix, two-electron integrals and couplings handed to coupled cluster equal the spin-orbital matrix elements of the Pauli-Fierz Hamiltonian in the orbitals of the reference, entry by entry")
    for occ, nm, dse in ((1, 1, True), (1, 2, True), (1, 1, False), ((1, 2), 1, True), ((2, 1), 1, False)):
        tag = "%s, %d mode%s%s" % ("closed shell" if isinstance(occ, int) else "%d alpha and %d beta electrons" % occ, nm, "s" if nm > 1 else "", "" if dse else ", no self-energy")
        ck.guarded("integrals, " + tag, lambda: integrals(ck, occ, nm, dse, tag), BOS)
    ck.guarded("photon object without mean field", lambda: fresh_photon(ck), BOS)


def fresh_photon(ck):
    """coupling matrices that no mean field has stored yet; a core Hamiltonian stored by the user"""
    x = reference_state(ck, 1, 2)
    it = ck.cur = x.it
    x.set(x.mf, get_bare_hcore=it.native(lambda it, a, kw: x.h))
    h = it.new_arr(it.arr(x.h))
    x.m(x.qed, "get_mos")
    first = it.new_arr(it.arr(x.m(x.qed, "fock")))
    ck.equal("Fock matrix asked again with a stored core Hamiltonian", it, x.m(x.qed, "fock"), first, BOS)
    ck.equal("stored core Hamiltonian after building the Fock matrix", it, x.h, h, BOS)
    x.set(x.qed, gmat=None)
    x.m(x.qed, "kernel")
    ref = x.spec("coupling", x.lam, x.vec, x.r3)
    g, _ = it.items(x.m(x.qed, "gint"))
    for blk in ("oo", "ov", "vo", "vv"):
        ck.equal("coupling %s from the dipole integrals" % blk, it, x.get(g, blk),
                 x.cc("coupling_so", ref, x.omega, x.co if blk[0] == "o" else x.cv, x.co if blk[1] == "o" else x.cv), BOS)


def integrals(ck, occ, nm, dse, tag):
    big = not isinstance(occ, int)
    x = reference_state(ck, occ, nm, dse=dse, nao=3 if big else 2)
    it = ck.cur = x.it
    x.m(x.qed, "kernel")
    for turn in ("", ", second time"):
        f = x.m(x.qed, "g_fock")
        ref = x.cc("fock", x.hd, x.eri, x.g, x.w1, dse, x.pa, x.pb)
        for blk in ("oo", "ov", "vo", "vv"):
            ck.equal("Fock %s, %s%s" % (blk, tag, turn), it, x.get(f, blk), x.cc("rotated", ref, x.co if blk[0] == "o" else x.cv, x.co if blk[1] == "o" else x.cv), BOS)
    g, h = it.items(x.m(x.qed, "gint"))
    for who, v in (("coupling", g), ("conjugate coupling", h)):
        for blk in ("oo", "ov", "vo", "vv"):
            ck.equal("%s %s, %s" % (who, blk, tag), it, x.get(v, blk),
                     x.cc("coupling_so", x.g, x.omega, x.co if blk[0] == "o" else x.cv, x.co if blk[1] == "o" else x.cv), BOS)
    a, b = it.items(x.m(x.qed, "mfG"))
    for who, v in (("mean coupling", a), ("conjugate mean coupling", b)):
        ck.equal("%s, %s" % (who, tag), it, v, x.cc("mean_coupling", x.g, x.omega, x.pa, x.pb), BOS)
    ck.equal("photon energies, " + tag, it, x.m(x.qed, "get_omega"), it.np.binop("Mult", 1.0, x.omega), BOS)
    v = x.m(x.qed, "get_I")
    for blk in ("oovv", "vovo", "ooov", "oooo", "vvvv", "vvoo", "vooo", "vovv", "vvvo"):
        if big and blk in ("vvvv", "vovv", "vvvo", "vooo", "oooo"):
            continue
        cs = [x.co if c == "o" else x.cv for c in blk]
        ck.equal("two-electron integrals %s, %s" % (blk, tag), it, x.get(v, blk), x.cc("antisymmetric", x.eri, x.g, dse, *cs), BOS)


# ------------------------------------------------------------------ the iteration
def c04(ck):
    ck.rule("each iteration divides every residual by the energy denominator of its excitation, mixes with the previous amplitudes, extrapolates all of them, and takes the energy from the result; residuals replaced by free right-hand sides")
    for no, nv, nm, n1, n2, u2 in ((1, 2, 1, 1, 1, True), (1, 2, 2, 2, 2, False), (2, 2, 2, 2, 2, True), (1, 2, 1, 3, 2, False)):
        tag = "%d mode%s, n1=%d n2=%d%s" % (nm, "s"[:nm > 1], n1, n2, " with photon doubles" if u2 else "")
        ck.guarded("amplitude vector, " + tag, lambda: vectors(ck, (no, nv, nm, n1, n2, u2), tag), CC)
        for steps, diis in ((1, False), (1, True), (2, False), (2, True)):
            if steps == 2 and (no, nm) != (1, 1):
                continue
            tag2 = "%s, %d step%s%s" % (tag, steps, "s"[:steps > 1], ", extrapolated" if diis else "")
            ck.guarded("iteration, " + tag2, lambda: iteration(ck, (no, nv, nm, n1, n2, u2), steps, diis, tag2), CC)


def driver(ck, cell, damp, steps, diis):
    no, nv, nm, n1, n2, u2 = cell
    it, args = setup(ck, *cell)
    sp = lambda n, *a: it.call(it.mod_attr(it.load("spec.cc"), n), list(a), {})
    amp = lambda name, nph, k: it.atom(name, (nm,) * nph + (nv,) * k + (no,) * k, real=True, canon=amp_canon(nph, k))
    free = Tup([amp("R1", 0, 1), amp("R2", 0, 2), it.new_list([amp("RS%d" % k, k + 1, 0) for k in range(n1)]),
                it.new_list([amp("RU%d" % k, k + 1, 1) for k in range(n2)]), it.new_list([amp("RD%d" % k, k + 1, 2) for k in range(n2)])])
    scale = it.atom("scale", (), real=True)
    F, I, w, g, h, G, H = args[:7]
    G, H = it.atom("G", (nm,), real=True), it.atom("G", (nm,), real=True)
    box = sp("System", Tup([F, I, w, g, h, G, H]), scale)
    ov = it.overrides
    for m, f in ENTRY.values():
        ov[("openms.mqed." + m, f)] = lambda it, a, kw: sp("residual", free, *a)
    ov["cqcpy.cc_energy.cc_energy"] = lambda it, a, kw: sp("electron_energy", *a)
    ov["pyscf.lib.pack_tril"] = lambda it, a, kw: it.call(it.mod_attr(it.load("spec.cc"), "pack_tril"), list(a), kw)
    ov["pyscf.lib.unpack_tril"] = lambda it, a, kw: it.call(it.mod_attr(it.load("spec.cc"), "unpack_tril"), list(a), kw)
    ov["pyscf.lib.diis.DIIS"] = lambda it, a, kw: sp("Diis", scale)
    mod = it.load("openms.mqed.ccsd")
    lim = it.atom("limit", (), real=True)
    it.limits = [lim]
    at = {"_qed": box, "nfock1": n1, "nfock2": n2, "add_U2n": u2, "damp": damp, "ethresh": -lim, "tthresh": -lim, "useslow": False, "verbose": 0,
          "stdout": None, "max_cycle": steps, "diis": diis, "diis_space": 6, "diis_file": None, "diis_start_cycle": 0, "diis_start_energy_diff": lim,
          "incore_complete": True, "e_hf": it.atom("ehf", (), real=True), "max_memory": 1000}
    o = it.new_obj(it.mod_attr(mod, "CCSD"), at)
    it.setattr(o, "qed_eris", it.getattr(box, "eris"))
    return it, sp, o, mod, free, [F, I, w, g, h, n1, n2], scale, args[9]


def vectors(ck, cell, tag):
    no, nv, nm, n1, n2, u2 = cell
    it, sp, o, mod, free, sysargs, scale, amps = driver(ck, cell, 0.0, 1, False)
    ck.cur = it
    v = it.call(it.getattr(o, "amplitudes2vector"), it.items(amps), {})
    got = it.items(it.call(it.getattr(o, "vector2amplitudes"), [it.np.binop("Mult", scale, v), free], {}))
    want = it.items(amps)
    for k, lab in enumerate(("singles", "doubles")):
        ck.equal("%s restored, %s" % (lab, tag), it, got[k], it.np.binop("Mult", scale, want[k]), CC)
    for k, lab in ((2, "modes"), (3, "singles with modes"), (4, "doubles with modes")):
        if k == 4 and not u2:
            continue
        for q, (a, b) in enumerate(zip(it.items(got[k]), it.items(want[k]))):
            ck.equal("%s (%d) restored, %s" % (lab, q + 1, tag), it, a, it.np.binop("Mult", scale, b), CC)


def iteration(ck, cell, steps, diis, tag):
    it, sp, o, mod, free, sysargs, scale, amps = driver(ck, cell, 0.375, steps, diis)
    ck.cur = it
    r = it.items(it.call(it.mod_attr(mod, "kernel"), [o], {"ret": True}))
    last, e = it.items(sp("iterate", free, *sysargs, cell[5], 0.375, steps, scale if diis else 1.0))
    ehf = it.getattr(o, "e_hf")
    ck.equal("correlation energy, " + tag, it, r[1], e, CC)
    ck.equal("total energy, " + tag, it, r[0], it.np.binop("Add", ehf, e), CC)
    ck.equal("stored correlation energy, " + tag, it, it.getattr(o, "e_corr"), e, CC)
    got, want = it.items(r[2]), it.items(last)
    for k, lab in enumerate(("singles", "doubles")):
        ck.equal("%s, %s" % (lab, tag), it, got[k], want[k], CC)
    for k, lab in ((2, "modes"), (3, "singles with modes")):
        for q, (a, b) in enumerate(zip(it.items(got[k]), it.items(want[k]))):
            ck.equal("%s (%d), %s" % (lab, q + 1, tag), it, a, b, CC)
