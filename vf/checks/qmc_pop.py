"""Population control: every path of a resampling step over a small set of walkers."""
import itertools
import math

from ..engine import nf, nfeval
from ..engine.nf import Arr, E1, TopError
from ..engine.interp import TopV, AnalysisError
from .ctx import Q
from .qmc_mpi import local_walkers
from .qmc_state import spec_of

POP = "openms/qmc/population_control.py"
SIZES = {"nao": 2, "na": 1, "nb": 1, "nchol": 2}


class WEv(nfeval.Ev):
    """weights spread over two orders of magnitude, uniform draws fixed by the cell under study"""
    uni = {}

    def rnd(self, nm, idx):
        if nm in self.uni:
            return self.uni[nm]
        if nm == "w":
            return 10 ** (-2.2 + 3.2 * nfeval._u(self.seed, nm, idx))
        if nm == "tot0":
            return 0.5 + 4 * nfeval._u(self.seed, nm)
        if nm == "tot":
            return 200.0 if nfeval._u(self.seed, nm) < 0.7 else 12.0
        return super().rnd(nm, idx)


def inds(e):
    out = []
    for t in e.terms.values():
        for n, _ in t[2]:
            if n.is_ind():
                out.append(n)
    return out


def atoms(e, pre="uni"):
    """names of the uniform draws in an expression"""
    import re
    return set(re.findall(r"\b(%s\d+)\b" % pre, e.key if isinstance(e.key, str) else str(e.key)))


class Paths:
    """piecewise description of a randomised step; integrates exactly over its uniform draws"""

    def __init__(self, paths):
        self.paths = paths
        self.unis = sorted(set().union(*[atoms(f) for fs, _ in paths for f in fs]) if paths else [])
        self.nodes = {}
        for fs, _ in paths:
            for f in fs:
                for n in inds(f):
                    self.nodes[str(n.key)] = n

    def mk(self, t, uni):
        e = WEv((7, t), dict(SIZES))
        e.uni = uni
        return e

    def cells(self, t):
        """boxes of the draws on which no condition changes"""
        cuts = {u: {0.0, 1.0} for u in self.unis}
        for n in self.nodes.values():
            us = [u for u in self.unis if u in atoms_node(n)]
            if not us:
                continue
            if len(us) > 1:
                raise TopError("a condition on two draws")
            arg = node_arg(n)
            v = [self.mk(t, {**{u: 0.31 for u in self.unis}, us[0]: x}).expr(arg, {}) for x in (0.0, 0.5, 1.0)]
            v = [complex(x).real for x in v]
            if abs(v[0] + v[2] - 2 * v[1]) > 1e-9 * (1 + max(map(abs, v))):
                raise TopError("a condition that is not linear in the draw")
            if v[2] != v[0]:
                c = -v[0] / (v[2] - v[0])
                if 0 < c < 1:
                    cuts[us[0]].add(c)
        axes = []
        for u in self.unis:
            c = sorted(cuts[u])
            axes.append([(0.5 * (a + b), b - a) for a, b in zip(c, c[1:]) if b - a > 1e-13])
        for cell in itertools.product(*axes):
            yield {u: m for u, (m, _) in zip(self.unis, cell)}, math.prod([w for _, w in cell])

    def active(self, ev):
        out = []
        for fs, v in self.paths:
            if all(abs(complex(ev.expr(f, {})) - 1) < 1e-9 for f in fs):
                out.append(v)
        return out


def node_arg(n):
    return n.e


def atoms_node(n):
    return atoms(node_arg(n))


def total(ev, a):
    d, v = ev.arr(a)
    return d, v


def run(ck, method, ncomp, boson, n, size, whole=False):
    tag = "%s, %s%s, %d walkers%s" % (method, "RHF" if ncomp == 1 else "UHF", " with bosons" if boson else "", n, ", %d ranks" % size if size > 1 else "") + (", with rescaling" if whole else "")

    def go():
        it = ck.interp()
        q = Q(it, ncomp, nw=n)
        if boson:
            q.bosons([2])
        comm, mpi = local_walkers(it, q, size)
        f = spec_of(it)
        w = it.atom("w", (nf.E_const(n),), nonneg=True)
        tot0, tot = it.atom("tot0", (), nonneg=True), it.atom("tot", (), nonneg=True)
        q.set(q.walkers, {"weights": it.new_arr(it.arr(w)), "total_weight0": tot0, "total_weight": tot, "weights_org": it.new_arr(it.arr(w))})
        names = ["phiwa"] + (["phiwb"] if ncomp > 1 else []) + (["boson_phiw"] if boson else [])
        old = [it.new_arr(it.arr(q.get(q.walkers, x))) for x in names]
        for x in names:
            q.set(q.walkers, {x: it.new_arr(it.arr(q.get(q.walkers, x)))})
        if whole:
            w0, _ = it.items(f("rescaled", comm, w, tot0, it.np.binop("Mult", 0.1, tot), True))
        else:
            w0 = w
        fac = it.mod_attr(it.load("openms.qmc.population_control"), "population_control_factory")
        ref = it.arr(f("ensemble", w0, it.new_list(old)))
        rtot = it.arr(f("norm", w0))

        def path():
            if whole:
                q.m(q.walkers, "weight_control", 4, freq=5, method=method)
            else:
                it.call(fac, [q.walkers], {"method": method})
            w1 = q.get(q.walkers, "weights")
            new = [q.get(q.walkers, x) for x in names]
            for v in [w1] + new:
                if isinstance(v, TopV) or isinstance(it.arr(v), TopV):
                    raise TopError("; ".join(it.tops[-2:]))
            shapes = [it.arr(v).dims[0] for v in [w1] + new]
            if any(s.as_int() != n for s in shapes):
                return ("count", [str(s) for s in shapes], None, None)
            return ("ok", it.arr(w1), it.arr(f("norm", w1)), it.arr(f("ensemble", w1, it.new_list(new))))
        ps = Paths(it.explore(path, 1500))
        decide(ck, tag, ps, ref, rtot, n)
    ck.guarded(tag, go, POP)


def decide(ck, tag, ps, ref, rtot, n):
    used, bad, why = 0, None, ""
    ntr = 12 if ck.tier == "quick" else 60
    nseen = 0
    for t in range(ntr):
        acc = {}
        whole = True
        for uni, vol in ps.cells(t):
            ev = ps.mk(t, uni)
            act = ps.active(ev)
            if len(act) != 1:
                whole, why = False, "%d paths for one draw" % len(act)
                break
            v = act[0]
            if isinstance(v, Exception):
                whole, why = False, str(v)
                break
            nseen += 1
            wts = {k: fmtw(ev.rnd("w", (k,))) for k in range(n)}
            if v[0] == "count":
                bad = "%s walkers remain of %d (weights %s, draw %s)" % (v[1], n, wts, uni)
                break
            _, sw = total(ev, v[2])
            _, rw = total(ev, rtot)
            s, r = complex(list(sw.values())[0]), complex(list(rw.values())[0])
            if abs(s - r) > 1e-7 * max(1e-9, abs(r)):
                bad = "total weight %s instead of %s (weights %s, draw %s)" % (fmtw(s.real), fmtw(r.real), wts, uni)
                break
            _, ws = total(ev, v[1])
            if any(complex(x).real < -1e-12 or abs(complex(x).imag) > 1e-12 for x in ws.values()):
                bad = "a negative weight (weights %s, draw %s)" % (wts, uni)
                break
            d, e = total(ev, v[3])
            for k, x in e.items():
                acc[k] = acc.get(k, 0) + vol * complex(x)
        if bad:
            break
        if not whole:
            continue
        _, r = total(ps.mk(t, {u: 0.5 for u in ps.unis}), ref)
        sc = max(abs(complex(x)) for x in r.values())
        for k in r:
            if abs(acc.get(k, 0) - complex(r[k])) > 1e-6 * sc:
                bad = "expected ensemble at %s is %s instead of %s (weights %s)" % (k, nfeval.fmt(acc.get(k, 0)), nfeval.fmt(complex(r[k])), wts)
                break
        if bad:
            break
        used += 1
    name = "walker ensemble preserved in expectation, total weight and count exactly: " + tag
    if bad:
        ck.violated(name, bad, POP)
    elif used >= ntr // 2:
        ck.held(name, "%d paths, %d cells of the draws integrated exactly" % (len(ps.paths), nseen), POP)
    else:
        ck.undecided(name, why, POP)


def fmtw(x):
    return "%.4g" % x


def q11(ck):
    ns = (2, 3, 4) if ck.tier != "quick" else (2, 3)
    for method in ("branching", "reconfiguration", "comb"):
        for ncomp, boson in ((1, False), (2, False), (1, True), (2, True)):
            for n in ns:
                run(ck, method, ncomp, boson, n, 1)
        run(ck, method, 2, True, 3, 3)
        if method == "branching":
            run(ck, method, 2, True, 2, 1, True)
