from .ctx import Q


def both(it, a, b):
    return it.np.stack([a, b])


def q01(ck):
    """local energy"""
    for numba in (False, True):
        for ncomp in (1, 2):
            tag = "%s kernels, %s" % ("numba" if numba else "native", "RHF" if ncomp == 1 else "UHF")

            def go():
                it = ck.interp(flags={"NUMBA_AVAILABLE": numba})
                q = Q(it, ncomp)
                h1b = it.atom("h1b", (q.nao, q.nao), real=True, sym=((0, 1),)) if ncomp > 1 else q.h1a
                h1 = it.new_arr(it.np.stack_values([q.h1a, h1b]))
                enuc = it.atom("enuc", (), real=True)
                q.m(q.trial, "half_rotate_integrals", h1, q.L)
                ov = q.m(q.trial, "ovlp_with_walkers_gf", q.walkers)
                est = it.load("openms.qmc.estimators")
                e1, e2 = it.call(it.mod_attr(est, "local_energy_SD_RHF" if ncomp == 1 else "local_energy_SD_UHF"),
                                 [q.trial, q.walkers], {"enuc": enuc})
                sp = it.load("spec.qmc")
                f = lambda n, *a: it.call(it.mod_attr(sp, n), list(a), {})
                Ga = f("green", q.phia, q.psia)
                Gb = f("green", q.phib, q.psib) if ncomp > 1 else Ga
                r1, r2 = f("energy", Ga, Gb, q.h1a, h1b, q.L, enuc)
                ck.equal("one-body local energy, " + tag, it, e1, r1, "openms/qmc/estimators.py")
                ck.equal("two-body local energy, " + tag, it, e2, r2, "openms/qmc/estimators.py")
            ck.guarded("local energy, " + tag, go, "openms/qmc")


def q02(ck):
    """one propagation step, from integrals to walker state and weight"""
    import itertools
    for numba, ncomp, scheme, order in [(False, 1, "hybrid", 2), (True, 2, "hybrid", 2), (False, 2, "hybrid", 3),
                                        (True, 1, "hybrid", 2), (False, 1, "local", 1), (False, 2, "local", 1)][:ck.limit]:
        tag = "%s, %s, %s scheme, order %d" % ("numba" if numba else "native", "RHF" if ncomp == 1 else "UHF", scheme, order)

        def go():
            it = ck.interp(flags={"NUMBA_AVAILABLE": numba})
            q = Q(it, ncomp)
            it.max_steps = 10 ** 7
            h1b = it.atom("h1b", (q.nao, q.nao), real=True, sym=((0, 1),)) if ncomp > 1 else q.h1a
            h1 = it.new_arr(it.np.stack_values([q.h1a, h1b]))
            dt = it.atom("dt", (), nonneg=True)
            prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), "Phaseless"), [], {
                "dt": dt, "energy_scheme": scheme, "taylor_order": order, "bias_bound": it.atom("bb", (), nonneg=True)})
            psi = q.get(q.trial, "psi")
            w = lambda: it.atom("w", (q.nw,), nonneg=True)
            eh = it.atom("ehyb", (q.nw,), real=True)
            el = it.atom("eloc", (q.nw,))
            q.set(q.walkers, {"weights": w(), "ehybrid": eh, "eloc": el})
            it.setattr(q.walkers, "logshift", it.np.binop("Mult", 0, q.logshift))
            q.m(prop, "build", h1, q.L, q.trial)
            q.m(q.trial, "half_rotate_integrals", h1, q.L)
            es = it.atom("esh", (), real=True)
            q.m(prop, "propagate_walkers", q.trial, q.walkers, q.L, es)
            it.st.heap["rng"] = 0
            pa = it.atom("phia", (q.nw, q.nao, q.na))
            pb = it.atom("phib", (q.nw, q.nao, q.nb)) if ncomp > 1 else None
            r = it.call(it.mod_attr(it.load("spec.qmc"), "step"), [
                pa, pb, q.psia, q.psib if ncomp > 1 else None, psi, ncomp, h1, q.L, dt, order, it.atom("bb", ()), w(), eh, es,
                q.get(prop, "ebound"), q.nw, q.nchol, scheme, el, 0], {})
            ck.equal("alpha orbitals, " + tag, it, q.get(q.walkers, "phiwa"), r[0])
            if ncomp > 1:
                ck.equal("beta orbitals, " + tag, it, q.get(q.walkers, "phiwb"), r[1])
            ck.equal("weights, " + tag, it, q.get(q.walkers, "weights"), r[2])
            if scheme == "hybrid":
                ck.equal("hybrid energy, " + tag, it, q.get(q.walkers, "ehybrid"), r[3])
            ck.equal("stored overlap, " + tag, it, q.get(q.walkers, "ovlp"), r[4])
        ck.guarded("step, " + tag, go)
