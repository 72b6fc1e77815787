"""Walker weights, overlaps, Green's functions, bilinear decomposition, orthonormalisation."""
from .ctx import Q

PROP = "openms/qmc/propagators.py"
TRIAL = "openms/qmc/trial.py"
TOOLS = "openms/qmc/tools.py"


def spec_of(it):
    return lambda n, *a: it.call(it.mod_attr(it.load("spec.qmc"), n), list(a), {})


def spin(n):
    return "RHF" if n == 1 else "UHF"


def q03(ck):
    """phaseless weight update"""
    for cls in ("Phaseless", "PhaselessElecBoson"):
        for scheme in ("hybrid", "local"):
            for eshift in ("real", "complex"):
                tag = "%s, %s scheme, %s energy shift" % (cls, scheme, eshift)

                def go():
                    it = ck.interp()
                    q = Q(it, 1)
                    dt = it.atom("dt", (), nonneg=True)
                    prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), cls), [], {"dt": dt, "energy_scheme": scheme})
                    w = it.atom("w", (q.nw,), nonneg=True)
                    eh = it.atom("ehyb", (q.nw,), real=True)
                    el = it.atom("eloc", (q.nw,))
                    q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "ehybrid": eh, "eloc": el})
                    o1, o2, cfb, cmf = [it.atom(x, (q.nw,)) for x in ("o1", "o2", "cfb", "cmf")]
                    es = it.atom("esh", (), real=True)
                    if eshift == "complex":
                        es = it.atom("eshc", ())
                    q.m(prop, "update_weight", q.walkers, o1, o2, cfb, cmf, es)
                    f = spec_of(it)
                    r = it.items(f("reweight", w, it.np.binop("Div", o2, o1), cfb, cmf, dt, eh, es, q.get(prop, "ebound"), scheme, el))
                    neww = q.get(q.walkers, "weights")
                    ck.equal("weights, " + tag, it, neww, r[0], PROP)
                    if scheme == "hybrid":
                        ck.equal("stored hybrid energy, " + tag, it, q.get(q.walkers, "ehybrid"), r[1], PROP)
                    ck.equal("stored overlap, " + tag, it, q.get(q.walkers, "ovlp"), o2, PROP)
                    a = it.arr(neww)
                    ck.nonneg("weights stay real and non-negative, " + tag, it, a, PROP)
                    ck.equal("energy window, " + tag, it, q.get(prop, "ebound"), it.call(it.mod_attr(it.load("spec.qmc"), "window"), [dt], {}), PROP)
                ck.guarded("weight update, " + tag, go, PROP)


def q06(ck):
    """decomposition of the bilinear coupling into auxiliary fields"""
    for scheme, k in ((1, 3), (2, 2), (3, 1)):
        for nm in (1, 2, 3):
            tag = "scheme %d, %d mode(s)" % (scheme, nm)

            def go():
                it = ck.interp()
                nao = it.size("nao")
                g = it.atom("g", (nm, nao, nao), real=True, sym=((1, 2),))
                A = it.atom("A", (nm,), real=True)
                B = it.atom("B", (nm,), real=True)
                fn = it.mod_attr(it.load("openms.qmc.tools"), "bilinear_decomposition")
                le, lb = it.items(it.call(fn, [A, B, g, scheme], {}))
                f = spec_of(it)
                if str(it.arr(lb).dims[0].key) != str(k * nm):
                    # another number of fields per mode: the sums over all fields must still agree
                    kk = it.arr(lb).dims[0].as_int()
                    if kk is None or kk % nm:
                        ck.undecided("fields, " + tag, "unexpected number of fields")
                        return
                    k_ = kk // nm
                else:
                    k_ = k
                cross, ee, bb = it.items(f("bilinear_sums", le, lb, k_, nm))
                ck.equal("coupling reproduced, " + tag, it, cross, f("bilinear_target", g, A, B), TOOLS)
                if scheme in (1, 2):
                    zero = it.np.binop("Mult", 0, g)
                    ck.equal("no spurious two-electron term, " + tag, it, ee, zero, TOOLS)
                    ck.equal("no spurious two-boson term, " + tag, it, bb, it.np.binop("Mult", 0, A), TOOLS)
            ck.guarded("bilinear decomposition, " + tag, go, TOOLS)


def q07(ck):
    """overlaps, Green's functions and force bias"""
    for numba in (False, True):
        for ncomp in (1, 2):
            for rot in (False, True):
                tag = "%s kernels, %s%s" % ("numba" if numba else "native", spin(ncomp), ", half-rotated integrals" if rot else "")

                def go():
                    it = ck.interp(flags={"NUMBA_AVAILABLE": numba})
                    q = Q(it, ncomp)
                    q.bosons([3])
                    f = spec_of(it)
                    h1 = it.new_arr(it.np.stack_values([q.h1a, q.h1a]))
                    if rot:
                        q.m(q.trial, "half_rotate_integrals", h1, q.L)
                    a = q.m(q.trial, "ovlp_with_walkers", q.walkers)
                    b = q.m(q.trial, "ovlp_with_walkers_gf", q.walkers)
                    ov = f("ovlp_rhf", q.phia, q.psia) if ncomp == 1 else f("ovlp_uhf", q.phia, q.psia, q.phib, q.psib)
                    ov = f("shifted_overlap", ov, q.logshift, ncomp == 1)
                    ck.equal("overlap, " + tag, it, a, ov, TRIAL)
                    ck.equal("overlap with Green's function, " + tag, it, b, ov, TRIAL)
                    Ga = f("green", q.phia, q.psia)
                    Gb = f("green", q.phib, q.psib) if ncomp > 1 else Ga
                    if not rot:
                        ck.equal("alpha Green's function, " + tag, it, q.get(q.walkers, "Ga"), Ga, TRIAL)
                        if ncomp > 1:
                            ck.equal("beta Green's function, " + tag, it, q.get(q.walkers, "Gb"), Gb, TRIAL)
                    else:
                        ck.equal("force bias, " + tag, it, q.m(q.trial, "get_vbias", q.walkers, q.L), f("force_bias", Ga, Gb, q.L), TRIAL)
                        prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), "PhaselessElecBoson"), [], {"dt": it.atom("dt", (), nonneg=True)})
                        q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True)})
                        q.m(prop, "update_GF", q.trial, q.walkers)
                        ck.equal("propagator's Green's function, " + tag, it, q.get(q.walkers, "Gf"), f("sum2", Ga, Gb), PROP)
                        ck.equal("averaged displacement, " + tag, it, q.get(q.walkers, "Qalpha"),
                                 f("displacement_mean", q.get(q.walkers, "weights"), q.bphi, it.new_list([3])), PROP)
                    ck.equal("boson overlap, " + tag, it, q.m(q.trial, "boson_ovlp_with_walkers", q.walkers), f("boson_overlap", q.bphi, q.bpsi), TRIAL)
                    ck.equal("boson Green's function, " + tag, it, q.get(q.walkers, "boson_Gf"), f("boson_green", q.bphi, q.bpsi), TRIAL)
                ck.guarded("overlaps, " + tag, go, TRIAL)
    for dims in ([3], [2, 3], [4, 1, 2]):
        def go():
            it = ck.interp()
            f = spec_of(it)
            z = it.atom("z", (len(dims),), real=True)
            r = it.call(it.mod_attr(it.load("openms.qmc.trial"), "initialize_boson_trial_with_z"), [z, it.new_list(list(dims))], {})
            ck.equal("coherent boson trial, dims %s" % dims, it, r, f("coherent", z, it.new_list(list(dims))), TRIAL)
        ck.guarded("coherent boson trial, dims %s" % dims, go, TRIAL)


def q12(ck):
    """re-orthonormalisation leaves the represented state unchanged"""
    for ncomp in (1, 2):
        for boson in (False, True):
            tag = spin(ncomp) + (" with bosons" if boson else "")

            def go():
                it = ck.interp()
                q = Q(it, ncomp)
                if boson:
                    q.bosons([3])
                f = spec_of(it)
                cls = it.mod_attr(it.load("openms.qmc.qmc"), "QMCbase")
                mc = it.new_obj(cls, {"walkers": q.walkers, "trial": q.trial, "verbose": 0, "stdout": None})
                q.m(mc, "orthogonalization")
                pa = it.atom("phia", (q.nw, q.nao, q.na))
                ck.equal("alpha orbitals, " + tag, it, q.get(q.walkers, "phiwa"), f("qfactor", pa), "openms/qmc/qmc.py")
                if ncomp > 1:
                    pb = it.atom("phib", (q.nw, q.nao, q.nb))
                    ck.equal("beta orbitals, " + tag, it, q.get(q.walkers, "phiwb"), f("qfactor", pb), "openms/qmc/qmc.py")
                if boson:
                    ck.equal("boson amplitudes, " + tag, it, q.get(q.walkers, "boson_phiw"), f("unit", it.atom("bphi", (q.nw, 3))), "openms/qmc/qmc.py")
            ck.guarded("orthonormalisation, " + tag, go, "openms/qmc/qmc.py")
