"""From molecular integrals to the operators the propagator works with."""
from ..engine.nf import Arr, TopError
from ..engine.interp import AV, Oracle, TopV, num, Tup
from .ctx import Q
from .qmc_state import spec_of

QMC = "openms/qmc/qmc.py"
TOOLS = "openms/qmc/tools.py"


def system(ck, nm, ncomp):
    at = {}
    it = ck.interp(overrides={
        "pyscf.scf.hf.get_hcore": lambda it, a, kw: it.new_arr(it.arr(at["h"])),
        "pyscf.lo.orth.lowdin": lambda it, a, kw: it.new_arr(it.arr(at["X"])),
    })
    q = Q(it, ncomp)
    nao = q.nao
    at["h"] = it.atom("hcore", (nao, nao), real=True, sym=((0, 1),))
    at["X"] = it.atom("X", (nao, nao), real=True)
    at["mo"] = it.atom("moX", (nao, nao), real=True)
    at["s"] = it.atom("ovl", (nao, nao), real=True, sym=((0, 1),))
    at["eri"] = it.atom("eri", (nao, nao, nao, nao), real=True)
    at["enuc"] = it.atom("enuc", (), real=True)
    at["ch"] = it.atom("ch", (q.nchol, nao, nao), real=True, sym=((1, 2),))
    q.m(q.mol, "set_integrals", it.new_dict({"int1e_ovlp": at["s"], "int2e_sph": at["eri"], "int2e": at["eri"]}), at["enuc"])
    if nm:
        q.bosons([2] * nm)
        it.setattr(q.mol, "gmat", q.g)
        it.setattr(q.trial, "Gf", it.atom("Gf", (2, nao, nao), real=True))
    return it, q, at


def q08(ck):
    ck.rule("the one- and two-body tensors, couplings and constants returned by get_integrals equal the rotated Hamiltonian, given any exact decomposition of the two-electron integrals")
    for oao in (True, False):
        for nm in (0, 1, 2):
            for ncomp in (1, 2):
                for merge, block, dec, off in ((False, False, None, False), (True, False, None, False), (False, True, None, False),
                                               (False, False, 1, False), (False, False, 2, False), (False, False, 2, True)):
                    if nm == 0 and (merge or dec):
                        continue
                    if (dec or merge or block) and (ncomp == 2 or not oao):
                        continue
                    tag = "%s basis, %d mode(s), %s%s%s%s" % ("orthogonalised" if oao else "molecular-orbital", nm, "RHF" if ncomp == 1 else "UHF",
                        ", couplings merged into the two-electron integrals" if merge else "", ", blocked decomposition" if block else "",
                        ", bilinear term decoupled by scheme %d%s" % (dec, " with bosons off" if off else "") if dec else "")

                    def go():
                        it, q, at = system(ck, nm, ncomp)
                        f = spec_of(it)
                        tools = it.load("openms.qmc.tools")
                        seen = {}

                        def chols(it2, a, kw):
                            seen["g"] = kw.get("g")
                            return it.new_arr(it.arr(f("decompose", at["ch"], kw.get("g"))))
                        for n in ("chols_full", "chols_blocked"):
                            it.setvar(n, it.native(chols), tools.envloc)
                        cls = it.mod_attr(it.load("openms.qmc.qmc"), "QMCbase")
                        opts = it.new_dict({"decouple_bilinear": dec is not None, "decouple_scheme": dec or 1, "turnoff_bosons": off})
                        mc = it.new_obj(cls, {"mol": q.mol, "system": q.mol, "OAO": oao, "verbose": 0, "stdout": None, "merge_g2eri": merge,
                                              "fbinteraction": nm > 0, "chol_thresh": 1e-6, "block_decompose_eri": block, "ncomponents": ncomp,
                                              "propagator_options": opts, "trial": q.trial, "geb": None, "chol_bilinear": None,
                                              "mf": it.new_obj(None, {"mo_coeff": at["mo"]}, tag="mf")})
                        X = at["X"] if oao else at["mo"]
                        h1, L = it.items(q.m(mc, "get_integrals"))
                        g = q.g if nm else None
                        for c in range(ncomp):
                            ck.equal("one-body operator of spin %d, %s" % (c, tag), it, it.getitem(h1, c), f("one_body", X, at["h"], g), QMC)
                        ck.equal("spin components, " + tag, it, it.arr(h1).dims[0], ncomp, QMC)
                        nb = num(q.get(mc, "nbarefields"))
                        bare = it.np.index(L, it.slice(0, nb))
                        ck.equal("two-body operator, " + tag, it, f("two_body", bare), f("two_body_target", X, at["ch"], g), QMC)
                        ck.equal("nuclear energy, " + tag, it, q.get(mc, "nuc_energy"), at["enuc"], QMC)
                        ck.equal("number of fields, " + tag, it, q.get(mc, "nfields"), it.arr(L).dims[0], QMC)
                        if nm:
                            ck.equal("bilinear coupling, " + tag, it, q.get(mc, "geb"), f("coupling", X, g, q.freq), QMC)
                            ck.equal("input couplings unchanged, " + tag, it, q.get(q.mol, "gmat"), it.atom("g", (nm, q.nao, q.nao), real=True), QMC)
                        if dec:
                            le, lb = it.items(q.get(mc, "chol_bilinear"))
                            k = it.arr(lb).dims[0].as_int() // nm
                            cross, ee, bb = it.items(f("bilinear_sums", le, lb, k, nm))
                            ck.equal("fields of the bilinear term, " + tag, it, cross, f("coupling", X, g, q.freq), QMC)
                            if off:
                                ck.equal("no coupling fields with bosons off, " + tag, it, it.arr(L).dims[0], nb, QMC)
                            else:
                                ck.equal("electronic fields of the bilinear term, " + tag, it, it.np.index(L, it.slice(nb, None)), le, QMC)
                    ck.guarded("Hamiltonian, " + tag, go, QMC)
    full(ck)
    blocked(ck)


def full(ck):
    """the whole-matrix decomposition: u_n sqrt(s_n) over the singular values kept"""
    for nm in (0, 1, 2):
        for given in (False, True):
            tag = "%d coupling(s) merged%s" % (nm, ", integrals supplied" if given else "")

            def go():
                it = ck.interp()
                nao = 2
                f = spec_of(it)
                eri = lambda: it.atom("eri", (nao,) * 4, real=True)
                mol = it.call(it.mod_attr(it.load("spec.env"), "Mol"), [nao, 1, 1], {})
                it.call(it.getattr(mol, "set_integrals"), [it.new_dict({"int2e_sph": eri(), "int2e": eri()}), 0.0], {})
                n2 = num(nao * nao)
                U, sv = (lambda: it.atom("U", (n2, n2), real=True)), (lambda: it.atom("sv", (n2,), nonneg=True))
                th = it.atom("thr", (), nonneg=True)
                g = it.atom("g", (nm, nao, nao), real=True) if nm else None
                seen = []

                def svd(it2, a, kw):
                    seen.append(it.arr(a[0]))
                    return Tup((U(), sv(), it.atom("V", (n2, n2), real=True)))
                it.overrides["scipy.linalg.svd"] = it.overrides["numpy.linalg.svd"] = svd
                fn = it.mod_attr(it.load("openms.qmc.tools"), "chols_full")

                def path():
                    mine = eri()
                    r = it.call(fn, [mol], dict({"thresh": th, "g": g}, **({"eri": mine} if given else {})))
                    ref = f("svd_vectors", U(), sv(), th, nao)
                    return it.arr(r), it.arr(ref), it.arr(mine)
                ps = it.explore(path)
                ok = 0
                for facts, v in ps:
                    if isinstance(v, TopError) or any(isinstance(x, TopV) for x in v):
                        continue
                    if isinstance(v, Exception):
                        raise v
                    ok += 1
                    kept = it.arr(v[1]).dims[0].key
                    ck.equal("%s of the singular vectors kept (case %d), %s" % (kept, ok, tag), it, v[0], v[1], TOOLS)
                    if given and ok == 1:
                        ck.equal("supplied integrals unchanged, " + tag, it, v[2], eri(), TOOLS)
                if ok < 10:
                    ck.undecided("vectors kept, " + tag, "%d of %d selections analysed" % (ok, len(ps)), TOOLS)
                ck.equal("matrix decomposed, " + tag, it, seen[0], it.np.reshape(f("dressed_eri", eri(), g), Tup((n2, n2))), TOOLS)
            ck.guarded("whole-matrix decomposition, " + tag, go, TOOLS)


class Script(Oracle):
    """a chosen pivot sequence and number of rounds"""

    def __init__(self, pivots, rounds):
        Oracle.__init__(self, [])
        self.pivots = list(pivots)
        self.rounds = list(rounds)

    def choose(self, n):
        if not self.pivots:
            raise TopError("more pivots than expected")
        return self.pivots.pop(0)

    def decide(self, cond):
        if not self.rounds:
            raise TopError("more decisions than expected")
        return self.rounds.pop(0)


def blocked(ck):
    """the pivoted decomposition reproduces the rows of every pivot it has processed, whatever the order of the pivots"""
    nao = 2
    seqs = [(a, b, c) for a in range(4) for b in range(4) for c in range(4) if len({a, b, c}) == 3 and c == min({0, 1, 2, 3} - {a, b})]
    for nm in (0, 1, 2):
        for seq in seqs:
            for m in (1, 2):
                if m == 1 and seq[1] != min({0, 1, 2, 3} - {seq[0]}):
                    continue
                tag = "%d coupling(s) merged, pivots %s" % (nm, list(seq[:m]))

                def go():
                    it = ck.interp()
                    f = spec_of(it)
                    b = it.atom("b", (5, nao, nao), real=True)
                    mol = it.call(it.mod_attr(it.load("spec.env"), "Mol"), [nao, 1, 1], {})
                    eri = f("two_body", b)
                    it.call(it.getattr(mol, "set_integrals"), [it.new_dict({"int2e_sph": eri}), 0.0], {})
                    it.call(it.getattr(mol, "set_shells"), [nao], {})
                    g = it.atom("g", (nm, nao, nao), real=True) if nm else None
                    fn = it.mod_attr(it.load("openms.qmc.tools"), "chols_blocked")
                    it.oracle = Script(seq, [True] * m + [False])
                    try:
                        L = it.call(fn, [mol], {"thresh": it.atom("thr", (), nonneg=True), "g": g})
                    finally:
                        it.oracle = None
                    if isinstance(L, TopV) or isinstance(it.arr(L), TopV):
                        raise TopError("; ".join(it.tops[-3:]))
                    V, R = it.arr(f("two_body", L)), it.arr(f("dressed_eri", eri, g))
                    for p in seq[:m]:
                        j, l = divmod(p, nao)
                        pick = lambda a: it.np.index(it.new_arr(a), Tup((it.slice(None, None), it.slice(None, None), j, l)))
                        ck.equal("integrals (..|%d%d), %s" % (j, l, tag), it, pick(V), pick(R), TOOLS)
                ck.guarded("pivoted decomposition, " + tag, go, TOOLS)
