"""Electron-boson local energy and propagation."""
from .ctx import Q

EST = "openms/qmc/estimators.py"
PROP = "openms/qmc/propagators.py"


def setup(ck, ncomp, dims, **opts):
    it = ck.interp(flags={"NUMBA_AVAILABLE": opts.pop("numba", False)})
    it.max_steps = 10 ** 7
    q = Q(it, ncomp)
    q.bosons(dims)
    h1b = it.atom("h1b", (q.nao, q.nao), real=True, sym=((0, 1),)) if ncomp > 1 else q.h1a
    q.h1b = h1b
    q.h1 = it.new_arr(it.np.stack_values([q.h1a, h1b]))
    q.dt = it.atom("dt", (), nonneg=True)
    q.bb = it.atom("bb", (), nonneg=True)
    kw = dict(dt=q.dt, taylor_order=2, bias_bound=q.bb, nbarefields=q.nchol)
    kw.update(opts)
    q.prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), "PhaselessElecBoson"), [], kw)
    q.set(q.prop, {"system": q.mol})
    q.w0 = it.atom("w", (q.nw,), nonneg=True)
    q.eh = it.atom("ehyb", (q.nw,), real=True)
    q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "ehybrid": q.eh})
    q.set(q.walkers, {"logshift": it.np.binop("Mult", 0, q.logshift)})
    q.es = it.atom("esh", (), real=True)
    q.geb = it.atom("geb", (len(dims), q.nao, q.nao), real=True)
    q.spec = lambda n, *a: it.call(it.mod_attr(it.load("spec.qmc"), n), list(a), {})
    return it, q


def q04(ck):
    """local energy of the coupled electron-boson system"""
    cases = [(False, 1, [3]), (True, 2, [2, 2]), (False, 2, [2, 3]), (True, 1, [2, 2])]
    for numba, ncomp, dims in cases[:ck.limit]:
        for off in (False, True):
            tag = "%s, modes %s%s" % ("RHF" if ncomp == 1 else "UHF", dims, ", bosons off" if off else "")

            def go():
                it, q = setup(ck, ncomp, dims, numba=numba, turnoff_bosons=off)
                q.set(q.prop, {"nbarefields": q.nchol, "geb": q.geb})
                q.m(q.trial, "half_rotate_integrals", q.h1, q.L)
                enuc = it.atom("enuc", (), real=True)
                r = it.items(q.m(q.prop, "local_energy", q.h1, q.L, q.walkers, q.trial, enuc=enuc))
                Ga = q.spec("green", q.phia, q.psia)
                Gb = q.spec("green", q.phib, q.psib) if ncomp > 1 else Ga
                e1, e2 = q.spec("energy", Ga, Gb, q.h1a, q.h1b, q.L, enuc)
                bd = it.new_list(list(dims))
                eb = q.spec("boson_energy", q.bphi, q.bpsi, bd, q.freq)
                eg = q.spec("coupling_energy", Ga, Gb, q.geb, q.bphi, q.bpsi, bd)
                tot = q.spec("total", e1, e2, eb, eg, off)
                avg = lambda x: q.spec("weighted", q.w0, x)
                ck.equal("local energies of the walkers, " + tag, it, q.get(q.walkers, "eloc"), tot, EST)
                ck.equal("total energy estimate, " + tag, it, r[0], avg(tot), PROP)
                ck.equal("weight norm, " + tag, it, r[1], q.spec("norm", q.w0), PROP)
                ck.equal("boson energy estimate, " + tag, it, r[4], avg(eb), PROP)
                ck.equal("coupling energy estimate, " + tag, it, r[5], avg(eg), PROP)
            ck.guarded("electron-boson energy, " + tag, go, EST)


def q05(ck):
    """one electron-boson propagation step"""
    cases = [(False, 1, [3], False), (True, 2, [2, 2], False), (False, 2, [2, 3], False), (True, 1, [2], True)]
    for numba, ncomp, dims, off in cases[:ck.limit]:
        tag = "product form, %s, modes %s%s" % ("RHF" if ncomp == 1 else "UHF", dims, ", bosons off" if off else "")

        def go():
            it, q = setup(ck, ncomp, dims, numba=numba, turnoff_bosons=off, decouple_bilinear=False)
            psi = q.get(q.trial, "psi")
            q.m(q.prop, "build", q.h1, q.L, q.trial, q.geb)
            q.m(q.trial, "half_rotate_integrals", q.h1, q.L)
            q.m(q.prop, "propagate_walkers", q.trial, q.walkers, q.L, q.es)
            it.st.heap["rng"] = 0
            bd = it.new_list(list(dims))
            r = it.items(q.spec("boson_step_product", *(refresh(it, q, ncomp) + [psi, ncomp, q.h1, q.L, q.geb, q.freq, bd,
                it.atom("bphi", (q.nw, sum(dims))), q.bpsi, q.dt, 2, q.bb, q.w0, q.eh, q.es, q.get(q.prop, "ebound"), q.nw, q.nchol, off])))
            compare(ck, it, q, ncomp, r, tag)
        ck.guarded("electron-boson step, " + tag, go, PROP)
    for numba, ncomp, off in [(False, 1, False), (True, 2, False), (False, 2, True)][:ck.limit]:
        tag = "decoupled form, %s%s" % ("RHF" if ncomp == 1 else "UHF", ", bosons off" if off else "")

        def go():
            nx = 3
            it, q = setup(ck, ncomp, [3], numba=numba, turnoff_bosons=off, decouple_bilinear=True)
            psi = q.get(q.trial, "psi")
            le = it.atom("le", (nx, q.nao, q.nao), real=True, sym=((1, 2),))
            lb = it.atom("lb", (nx,))
            L = q.L if off else it.new_arr(it.np.concat([it.arr(q.L), it.arr(le)], 0))
            q.set(q.prop, {"chol_bilinear": it.new_list([le, lb])})
            q.m(q.prop, "build", q.h1, L, q.trial, q.geb)
            q.m(q.trial, "half_rotate_integrals", q.h1, L)
            q.m(q.prop, "propagate_walkers", q.trial, q.walkers, L, q.es)
            it.st.heap["rng"] = 0
            nfl = it.arr(L).dims[0]
            r = it.items(q.spec("boson_step_decoupled", *(refresh(it, q, ncomp) + [psi, ncomp, q.h1, L, q.nchol, le, lb, q.freq, 3,
                it.atom("bphi", (q.nw, 3)), q.bpsi, q.dt, 2, q.bb, q.w0, q.eh, q.es, q.get(q.prop, "ebound"), q.nw, nfl, off])))
            compare(ck, it, q, ncomp, r, tag)
        ck.guarded("electron-boson step, " + tag, go, PROP)


def refresh(it, q, ncomp):
    pa = it.atom("phia", (q.nw, q.nao, q.na))
    pb = it.atom("phib", (q.nw, q.nao, q.nb)) if ncomp > 1 else None
    return [pa, pb, q.psia, q.psib if ncomp > 1 else None]


def compare(ck, it, q, ncomp, r, tag):
    ck.equal("alpha orbitals, " + tag, it, q.get(q.walkers, "phiwa"), r[0], PROP)
    if ncomp > 1:
        ck.equal("beta orbitals, " + tag, it, q.get(q.walkers, "phiwb"), r[1], PROP)
    ck.equal("boson amplitudes, " + tag, it, q.get(q.walkers, "boson_phiw"), r[2], PROP)
    ck.equal("weights, " + tag, it, q.get(q.walkers, "weights"), r[3], PROP)
    ck.equal("hybrid energy, " + tag, it, q.get(q.walkers, "ehybrid"), r[4], PROP)
    ck.equal("stored overlap, " + tag, it, q.get(q.walkers, "ovlp"), r[5], PROP)
