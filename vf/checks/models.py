"""Lattice models."""
from itertools import product

from ..engine.interp import Tup
from ..engine.nf import E_const

HUB, HH, OV = "openms/models/hubbard.py", "openms/models/hh_model.py", "openms/lib/ov_blocks.py"
TWO = ["vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"]
FULL = ["vvvv", "vvvo", "vvov", "vovv", "ovvv", "vvoo", "vovo", "ovvo", "voov", "ovov", "oovv", "vooo", "ovoo", "oovo", "ooov", "oooo"]


def B(it, op, a, b):
    return it.np.binop(op, a, b)


class M:
    def __init__(self, ck, L, na, nb, ring):
        it = self.it = ck.interp()
        self.ck, self.L, self.na, self.nb, self.ring = ck, L, na, nb, ring
        self.bc = "p" if ring else None
        self.sp = it.load("spec.models")
        self.ca, self.cb = it.atom("ca", (L, L), real=True), it.atom("cb", (L, L), real=True)
        self.U = it.atom("U", (), real=True)
        self.t = self.s("hopping", L, ring)
        self.pa, self.pb = self.s("density", self.ca, na), self.s("density", self.cb, nb)
        self.C = self.s("both", self.ca, self.cb)
        self.occ = {"a": (list(range(na)), list(range(na, L))), "b": (list(range(nb)), list(range(nb, L)))}
        self.occ["g"] = ([i for i in range(na)] + [L + i for i in range(nb)],
                         [i for i in range(na, L)] + [L + i for i in range(nb, L)])

    def s(self, f, *a):
        return self.it.call(self.it.mod_attr(self.sp, f), list(a), {})

    def m(self, f, *a):
        return self.it.call(self.it.getattr(self.o, f), list(a), {})

    def tup(self, v):
        return list(self.it.items(v))

    def block(self, x, kind, spins):
        idx = [self.it.new_list([E_const(i) for i in self.occ[s][0 if k == "o" else 1]]) for k, s in zip(kind, spins)]
        return self.s("split", x, self.it.new_list(idx))

    def blocks(self, name, got, x, kinds, spins, site):
        for k in kinds:
            self.eq(f"{name}.{k}", self.it.getattr(got, k), self.block(x, k, spins), site)

    def eq(self, name, a, b, site):
        self.ck.equal(f"{name} L={self.L} na={self.na} nb={self.nb} {'ring' if self.ring else 'chain'}", self.it, a, b, site=site)

    def mean_field(self, x, site, const=None):
        fa, fb = self.tup(self.s("fock", self.t, self.U, self.pa, self.pb))
        self.F = self.s("both", fa, fb)
        self.eq("hopping", self.m("tmatS"), self.t, f"{site}:tmatS")
        self.eq("hopping in spin orbitals", self.m("tmat"), self.s("both", self.t, self.t), f"{site}:tmat")
        self.eq("Fock matrix", self.m("fock"), self.F, f"{site}:fock")
        e = self.s("energy", self.t, self.U, self.pa, self.pb)
        self.eq("mean-field energy", self.m("hf_energy"), e if const is None else B(self.it, "Add", e, const), f"{site}:hf_energy")
        for f in ("u_hcore_tot",):
            ha, hb = self.tup(self.m(f))
            self.eq("one-electron, first spin", ha, self.s("rotate", self.t, self.ca), f"{site}:{f}")
            self.eq("one-electron, second spin", hb, self.s("rotate", self.t, self.cb), f"{site}:{f}")
        self.eq("one-electron, spin orbitals", self.m("g_hcore_tot"),
                self.s("rotate", self.s("both", self.t, self.t), self.C), f"{site}:g_hcore_tot")
        V = self.s("anti", self.U, self.ca, self.cb)
        self.V = V
        self.blocks("antisymmetrised spin-orbital integrals", self.m("g_aint"), V, TWO, "gggg", f"{site}:g_aint")


def hubbard(ck, L, na, nb, ring, full):
    x = M(ck, L, na, nb, ring)
    it = x.it
    cls = it.mod_attr(it.load("openms.models.hubbard"), "Hubbard1D")
    x.o = it.call(cls, [E_const(L), E_const(na + nb), x.U], {"bc": x.bc, "ca": x.ca, "cb": x.cb})
    s = f"{HUB}:Hubbard1D"
    s = HUB
    x.mean_field(x, s)
    x.blocks("Fock blocks in spin orbitals", x.m("g_fock"), x.s("rotate", x.F, x.C), ["oo", "ov", "vo", "vv"], "gg", f"{s}:g_fock")
    f = x.tup(x.m("u_fock"))
    fa, fb = x.tup(x.s("fock", x.t, x.U, x.pa, x.pb))
    for nm, got, ref, c, sp in (("first", f[0], fa, x.ca, "aa"), ("second", f[1], fb, x.cb, "bb")):
        x.blocks(f"Fock blocks, {nm} spin", got, x.s("rotate", ref, c), ["oo", "ov", "vo", "vv"], sp, f"{s}:u_fock")
    x.eq("antisymmetrised integrals, spin orbitals", x.m("g_aint_tot"), x.V, f"{s}:g_aint_tot")
    x.eq("integrals, spin orbitals", x.m("g_int_tot"), x.s("plain", x.U, x.ca, x.cb), f"{s}:g_int_tot")
    ab = x.s("onsite", x.U, x.ca, x.cb, x.ca, x.cb)
    aa, bb = x.s("onsite", x.U, x.ca, x.ca, x.ca, x.ca), x.s("onsite", x.U, x.cb, x.cb, x.cb, x.cb)
    zero = B(it, "Mult", E_const(0), aa)
    for f, ra, rb in (("u_int_tot", aa, bb), ("u_aint_tot", zero, zero)):
        va, vb, vab = x.tup(x.m(f))
        x.eq(f"{f}, equal spins (first)", va, ra, f"{s}:{f}")
        x.eq(f"{f}, equal spins (second)", vb, rb, f"{s}:{f}")
        x.eq(f"{f}, opposite spins", vab, ab, f"{s}:{f}")
    va, vb, vab = x.tup(x.m("u_aint"))
    x.blocks("equal-spin blocks (first)", va, zero, TWO, "aaaa", f"{s}:u_aint")
    x.blocks("equal-spin blocks (second)", vb, zero, TWO, "bbbb", f"{s}:u_aint")
    x.blocks("opposite-spin blocks", vab, ab, FULL, "abab", f"{s}:u_aint")


def hh(ck, L, n, ring, hop, shift):
    x = M(ck, L, n, n, ring)
    it = x.it
    cls = it.mod_attr(it.load("openms.models.hh_model"), "HHModel")
    w, g = it.atom("w", (), nonneg=True), it.atom("g", (), real=True)
    gij = it.atom("gij", (), real=True) if hop else None
    x.o = it.call(cls, [E_const(L), E_const(L), E_const(2 * n), x.U, w], {"g": g, "gij": gij, "bc": x.bc, "ca": x.ca, "cb": x.cb, "shift": shift})
    gm = x.s("coupling", E_const(L), ring, g, gij)
    p = x.s("both", x.pa, x.pb)
    G = it.np.einsum(["Ipq,pq->I", gm, p], {})
    s = HH
    const = None
    if shift:
        const = B(it, "Mult", E_const(-1), B(it, "Div", it.np.einsum(["I,I->", G, G], {}), w))
    nm = f"{'on-site and bond' if hop else 'on-site'} coupling, {'shifted' if shift else 'bare'} bosons"
    old = x.eq
    x.eq = lambda name, a, b, site: old(f"{name} ({nm})", a, b, site)
    x.mean_field(x, s, const)
    F = x.F
    if shift:
        F = B(it, "Sub", F, B(it, "Div", B(it, "Mult", E_const(2), it.np.einsum(["I,Ipq->pq", G, gm], {})), w))
    R = x.s("rotate", F, x.C)
    x.blocks("Fock blocks", x.m("g_fock"), R, ["oo", "ov", "vo", "vv"], "gg", f"{s}:g_fock")
    eo, ev = x.tup(x.m("energies"))
    for nm2, e, k in (("occupied", eo, "oo"), ("virtual", ev, "vv")):
        x.eq(f"{nm2} orbital energies", e, it.np.einsum(["ii->i", x.block(R, k, "gg")], {}), f"{s}:energies")
    rot = it.np.einsum(["Ipq,pi,qj->Iij", gm, x.C, x.C], {})
    x.eq("coupling in orbitals", x.m("gint_tot"), rot, f"{s}:gint_tot")
    for i, got in enumerate(x.tup(x.m("gint"))):
        for k in ("oo", "ov", "vo", "vv"):
            idx = [it.new_list([E_const(j) for j in range(L)])] + [it.new_list([E_const(j) for j in x.occ["g"][0 if c == "o" else 1]]) for c in k]
            x.eq(f"coupling blocks {i}.{k}", it.getattr(got, k), x.s("split", rot, it.new_list(idx)), f"{s}:gint")
    for i, got in enumerate(x.tup(x.m("mfG"))):
        x.eq(f"mean coupling {i}", got, B(it, "Mult", E_const(0), G) if shift else G, f"{s}:mfG")
    x.eq("boson energies", x.m("omega"), B(it, "Mult", w, it.new_arr(it.arr(it.new_list([E_const(1)] * L)))), f"{s}:omega")


def orbitals(ck, L, ring, broken):
    """the mean field behind the default orbitals is that of the model's own hopping and repulsion"""
    keep = {}

    def uhf(it, a, kw):
        keep["mf"] = it.call(it.mod_attr(keep["sp"], "Solver"), [a[0], keep["ca"], keep["cb"]], {})
        return keep["mf"]

    it = ck.interp(overrides={"pyscf.gto.M": lambda it, a, kw: it.call(it.mod_attr(keep["sp"], "Bare"), [], {}),
                              "pyscf.scf.UHF": uhf, "pyscf.ao2mo.restore": lambda it, a, kw: a[1]})
    keep["sp"] = it.load("spec.models")
    keep["ca"], keep["cb"] = it.atom("ca", (L, L), real=True), it.atom("cb", (L, L), real=True)
    U, n = it.atom("U", (), real=True), 2 * (L // 2)
    w, g = it.atom("w", (), nonneg=True), it.atom("g", (), real=True)
    cls = it.mod_attr(it.load("openms.models.hh_model"), "HHModel")
    o = it.call(cls, [E_const(L), E_const(L), E_const(n), U, w], {"g": g, "bc": "p" if ring else None, "breaksym": broken})
    s = lambda f, *a: it.call(it.mod_attr(keep["sp"], f), list(a), {})
    tag = f"L={L} {'ring' if ring else 'chain'} {'broken symmetry' if broken else ''}"
    eq = lambda nm, a, b: ck.equal(f"default orbitals: {nm}, {tag}", it, a, b, site=f"{HH}:get_mo")
    mf = keep["mf"]
    h = it.call(it.getattr(mf, "get_hcore"), [], {})
    eq("hopping of the mean field", h, s("hopping", L, ring))
    eq("hopping of the model", h, it.call(it.getattr(o, "tmatS"), [], {}))
    if broken:
        eq("repulsion", it.getattr(mf, "_eri"), s("repulsion", L, U))
    eq("orbitals, first spin", it.getattr(o, "ca"), keep["ca"])
    eq("orbitals, second spin", it.getattr(o, "cb"), keep["cb"])
    eq("electrons", it.getattr(it.getattr(mf, "mol"), "nelectron"), E_const(n))
    for i, d in enumerate(it.items(it.getattr(mf, "dm0"))):
        eq(f"electrons of starting density {i}", it.np.einsum(["ii->", d], {}), E_const(n // 2))


def cut(ck):
    it = ck.interp()
    mod, sp = it.load("openms.lib.ov_blocks"), it.load("spec.models")
    no, nv = [1, 2, 1, 2], [2, 1, 3, 1]
    x = it.atom("I", tuple(a + b for a, b in zip(no, nv)))
    args = [x] + [E_const(v) for p in zip(no, nv) for v in p]
    for f, kinds in (("make_two_e_blocks", TWO), ("make_two_e_blocks_full", FULL)):
        got = it.call(it.mod_attr(mod, f), args, {})
        for k in kinds:
            idx = []
            for c, o, v in zip(k, no, nv):
                idx.append(it.new_list([E_const(j) for j in (range(o) if c == "o" else range(o, o + v))]))
            ref = it.call(it.mod_attr(sp, "split"), [x, it.new_list(idx)], {})
            ck.equal(f"{f}: {k}", it, it.getattr(got, k), ref, site=f"{OV}:{f}")


def h01(ck):
    ck.step_limit = max(ck.step_limit, 700.0)
    ck.rule("every matrix, energy and integral block returned by the model classes equals the one of the lattice Hamiltonian, "
            "entry by entry, for arbitrary orbital coefficients and parameters")
    for L, na, nb, ring in ((2, 1, 1, False), (3, 2, 1, True), (3, 1, 1, False)):
        ck.guarded(f"Hubbard L={L} na={na} nb={nb} {'ring' if ring else 'chain'}", lambda a=(L, na, nb, ring): hubbard(ck, *a, True), site=HUB)
    for L, n, ring, hop, shift in ((2, 1, True, False, True), (2, 1, False, True, False), (3, 1, True, True, True), (3, 1, False, True, True), (3, 2, True, False, False)):
        ck.guarded(f"Hubbard-Holstein L={L} n={n} {ring} {hop} {shift}", lambda a=(L, n, ring, hop, shift): hh(ck, *a), site=HH)
    for L, ring, br in ((2, False, True), (2, True, False), (4, True, True), (4, False, False)):
        ck.guarded(f"default orbitals L={L} {ring}", lambda a=(L, ring, br): orbitals(ck, *a), site=HH)
    ck.guarded("blocks", lambda: cut(ck), site=OV)
