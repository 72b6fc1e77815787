"""The self-consistency drivers: what is reported belongs together and convergence is not claimed without cause."""
from ..engine.interp import TopV, num, is_num
from fractions import Fraction

from ..engine.nf import TopError

QED = "openms/mqed/qedhf.py"
SC = "openms/mqed/scqedhf.py"

# energies, orbital gradients, norms of the variational gradients (first energy is the initial one)
TOL, TOLG = "1e-6", "1e-3"
BIG = 64
CASES = [
    ("slow energy", 3, [0, -1, -2, -3, -4], [0, 0, 0, 0], [0, 0, 0, 0], True),
    ("rising energy", 3, [0, 1, 2, 3, 4], [0, 0, 0, 0], [0, 0, 0, 0], True),
    ("large orbital gradient", 3, [0, 0, 0, 0, 0], [1, 1, 1, 1], [0, 0, 0, 0], True),
    ("large gradient of the variational parameters", 3, [0, 0, 0, 0, 0], [0, 0, 0, 0], [1, 1, 1, 1], True),
    ("gradients exceeding the tolerance only together", 3, [0, 0, 0, 0, 0], ["0.0006"] * 4, ["0.0006"] * 4, True),
    ("convergence in the first cycle", 3, [0, 0, 0, 0, 0], [0, 0, 0, 0], [0, 0, 0, 0], True),
    ("convergence in the second cycle", 4, [0, -1, -1, -1, -1], [1, 0, 0, 0], [0, 0, 0, 0], True),
    ("convergence in the last cycle", 2, [0, -1, -1, -1, -1], [1, 0, 0, 0], [0, 0, 0, 0], True),
    ("convergence without the final check", 4, [0, -1, -1, -1, -1], [1, 0, 0, 0], [0, 0, 0, 0], False),
    ("no cycles", 0, [0, 0], [], [], True),
]


def expected(maxc, es, gs, vs, tol=1e-6, tolg=1e-3):
    for k in range(maxc):
        if abs(float(es[k + 1]) - float(es[k])) < tol and float(gs[k]) + float(vs[k]) < tolg:
            return k + 1
    return None


class Log:
    def __init__(self, it, rec):
        self.it = it
        self.ev = [[y for y in it.items(x)] for x in it.items(it.getattr(rec, "log"))]

    def same(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if is_num(a) and is_num(b):
            return num(a) == num(b)
        if is_num(a) or is_num(b):
            return False
        return self.it.same(a, b) is True

    def maker(self, what, value):
        """index of the operation that produced a value"""
        for i, e in enumerate(self.ev):
            if e[0] == what and self.same(e[1], value):
                return i
        return None

    def last(self, what, before):
        r = None
        for i, e in enumerate(self.ev[:before]):
            if e[0] == what:
                r = i
        return r


def m07(ck):
    ck.rule("from the log of recorder objects: the reported energy is energy_tot of the density of the reported orbitals with core Hamiltonian and "
            "potential of that density; convergence is reported exactly in the cycle that meets both tolerances")
    for modname, path in (("qedhf", QED), ("scqedhf", SC)):
        for tag, maxc, es, gs, vs, cc in CASES:
            for given, meth in ((True, False), (False, False), (True, True)):
                case(ck, modname, path, tag, maxc, es, gs, vs, cc, given, meth)


def case(ck, modname, path, tag, maxc, es, gs, vs, cc, given, meth):
    tag = "%s, %s, %s" % (modname, tag, "attributes of the object" if meth else "given density" if given else "guessed density")

    def go():
        it = ck.interp(flags={"NUMBA_AVAILABLE": False})
        n = it.size("nao")
        sp = it.load("spec.mqed")
        mats = [it.atom("X%d" % k, (n, n), real=True) for k in range(BIG)]
        occs = [it.atom("occ%d" % k, (n,), real=True) for k in range(8)]
        cst = lambda x: Fraction(x)
        # the spherical guess of the strong-coupling driver evaluates one more energy
        en = ([5] if modname == "scqedhf" and not given else []) + list(es) + [9] * 3
        rec = it.call(it.mod_attr(sp, "SCF"), [it.atom("mol", ()), it.new_list(mats), it.new_list(occs), it.new_list([cst(e) for e in en]),
                                               it.new_list([cst(g) for g in gs] + [cst(7)] * 3), it.new_list([cst(v) for v in vs] + [cst(7)] * 3), maxc], {})
        dm0 = it.atom("dm0", (n, n), real=True)
        k = it.mod_attr(it.load("openms.mqed." + modname), "kernel")
        kw = {"conv_tol": cst(TOL), "conv_tol_grad": cst(TOLG), "dump_chk": False, "conv_check": cc}
        if given:
            kw["dm0"] = dm0
        if meth:
            for n, v in (("conv_tol", cst(TOL)), ("conv_tol_grad", cst(TOLG)), ("conv_check", cc)):
                it.setattr(rec, n, v)
            cls = it.mod_attr(it.load("openms.mqed." + modname), "RHF")
            e = it.call(it.getattr(cls, "scf"), [rec], {"dm0": dm0, "dump_chk": False})
            conv, moc, occ = [it.getattr(rec, n) for n in ("converged", "mo_coeff", "mo_occ")]
            e2 = it.getattr(rec, "e_tot")
        else:
            conv, e, moe, moc, occ = it.items(it.call(k, [rec], kw))
            e2 = e
        log = Log(it, rec)
        bad = []
        n_exp = expected(maxc, es, gs, vs)
        want = n_exp is not None
        if isinstance(conv, TopV) or isinstance(e, TopV):
            raise TopError("; ".join(it.tops[-2:]))
        if conv is not want:
            bad.append("converged is reported as %s where the tolerances give %s" % (conv, want))
        cyc = it.getattr(rec, "cycles")
        if maxc > 0 and not (is_num(cyc) and num(cyc) == num(n_exp or maxc)):
            bad.append("%s cycles instead of %d" % (cyc, n_exp or maxc))
        # provenance of what is reported
        ie = None
        for i, x in enumerate(log.ev):
            if x[0] == "energy":
                ie = i
        nen = len([x for x in log.ev if x[0] == "energy"])
        x = log.ev[ie]
        if not (log.same(x[1], e) and log.same(x[1], e2)):
            bad.append("the energy reported is not the last one evaluated")
        dm, h, v = x[2], x[3], x[4]
        if maxc > 0:
            im = log.maker("rdm", dm)
            if im is None:
                bad.append("the last energy is not evaluated at a density built from orbitals")
            elif not (log.same(log.ev[im][2], moc) and log.same(log.ev[im][3], occ)):
                bad.append("the density of the reported energy is not that of the reported orbitals and occupations")
        ic = log.maker("eig", moc)
        if ic is None:
            bad.append("the reported orbitals do not come from the eigenvalue problem")
        else:
            f = log.maker("fock", log.ev[ic][2])
            if f is None:
                bad.append("the reported orbitals are not eigenvectors of a Fock matrix")
            else:
                # core Hamiltonian, potential and density of that Fock matrix belong together
                fk = log.ev[f]
                bad += consistent(log, fk[2], fk[4], fk[5], f, "the diagonalised Fock matrix")
            io = log.maker("occ", occ)
            if io is None or not log.same(log.ev[io][2], moc):
                bad.append("the reported occupations are not those of the reported orbitals")
        for i, x in enumerate(log.ev):
            if x[0] != "energy":
                continue
            if log.maker("hcore", x[3]) is None and log.maker("bare", x[3]) is not None:
                continue
            bad += consistent(log, x[3], x[4], x[2], i, "energy number %d" % len([y for y in log.ev[:i + 1] if y[0] == "energy"]))
            if modname == "qedhf":
                ih = log.maker("hcore", x[3])
                cs = log.last("cs", ih) if ih is not None else None
                if ih is not None and (cs is None or not log.same(log.ev[cs][1], x[2])):
                    bad.append("an energy is evaluated with a coherent state that is not that of its density")
        last = log.last("photon", len(log.ev))
        if maxc > 0:
            if last is None or not log.same(log.ev[last][1], dm):
                bad.append("the photon state left behind is not that of the reported density")
            cs = log.last("cs", len(log.ev))
            if cs is None or not log.same(log.ev[cs][1], dm):
                bad.append("the coherent state left behind is not that of the reported density")
        # gradients are taken at the orbitals of their cycle with a Fock matrix of their density
        for i, x in enumerate(log.ev):
            if x[0] == "grad":
                f = log.maker("fock", x[3])
                d = log.last("rdm", i)
                if f is None or d is None or not log.same(log.ev[f][5], log.ev[d][1]):
                    bad.append("a gradient is evaluated with the Fock matrix of another density")
                elif not (log.same(log.ev[d][2], x[1]) and log.same(log.ev[d][3], x[2])):
                    bad.append("a gradient is evaluated at orbitals other than those of its density")
        if bad:
            ck.violated("self-consistency driver, " + tag, "; ".join(dict.fromkeys(bad)), path)
        else:
            ck.held("self-consistency driver, " + tag, "%d operations, %d energies" % (len(log.ev), nen), path)
    ck.guarded("self-consistency driver, " + tag, go, path)


def consistent(log, h, v, dm, at, what):
    bad = []
    ih, iv = log.maker("hcore", h), log.maker("veff", v)
    if ih is None or iv is None:
        return [what + " uses something else than the core Hamiltonian and the potential"]
    if not log.same(log.ev[iv][2], dm):
        bad.append(what + " uses the potential of another density")
    if not log.same(log.ev[ih][2], dm):
        bad.append(what + " uses the core Hamiltonian of another density")
    pd, pv = log.ev[iv][3], log.ev[iv][4]
    if not (is_num(pd) and num(pd) == num(0)):
        ip = log.maker("veff", pv)
        if ip is None or not log.same(log.ev[ip][2], pd):
            bad.append("an incremental potential starts from a potential that is not that of its previous density")
    return bad
