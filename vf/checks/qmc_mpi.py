"""Quantities measured over walkers that are distributed over ranks."""
from .ctx import Q
from .qmc_boson import setup
from .qmc_state import spec_of, spin

QMC = "openms/qmc/qmc.py"
PROP = "openms/qmc/propagators.py"
GW = "openms/qmc/generic_walkers.py"


def world(it, size):
    comm = it.new_obj(None, {"size": size, "rank": it.atom("rank", (), nonneg=True, local=True) if size > 1 else 0}, tag="comm")
    return comm, it.new_obj(None, {"size": size, "rank": it.atom("rank", (), nonneg=True, local=True) if size > 1 else 0, "comm": comm})


def local_walkers(it, q, size):
    from ..engine.nf import REG
    for n in ("phia", "phib", "bphi", "w", "eloc", "ehyb", "lsh"):
        REG.declare(n, local=size > 1)
    comm, mpi = world(it, size)
    it.setattr(q.walkers, "_mpi", mpi)
    return comm, mpi


def q09(ck):
    for size in (1, 3):
        where = "%d rank%s" % (size, "" if size == 1 else "s")
        # 1. electronic and coupled estimators
        for cls, ncomp, dims in (("Phaseless", 1, None), ("Phaseless", 2, None), ("PhaselessElecBoson", 1, [2]), ("PhaselessElecBoson", 2, [2, 2])):
            tag = "%s, %s, %s" % (cls, spin(ncomp), where)

            def go():
                if dims:
                    it, q = setup(ck, ncomp, dims)
                    q.set(q.prop, {"nbarefields": q.nchol, "geb": q.geb})
                    w = q.w0
                else:
                    it = ck.interp()
                    q = Q(it, ncomp)
                    q.h1b = q.h1a
                    q.h1 = it.new_arr(it.np.stack_values([q.h1a, q.h1a]))
                    q.prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), cls), [], {"dt": it.atom("dt", (), nonneg=True)})
                    q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True)})
                    w = it.atom("w", (q.nw,), nonneg=True)
                comm, mpi = local_walkers(it, q, size)
                f = spec_of(it)
                q.m(q.trial, "half_rotate_integrals", q.h1, q.L)
                enuc = it.atom("enuc", (), real=True)
                r = it.items(q.m(q.prop, "local_energy", q.h1, q.L, q.walkers, q.trial, enuc=enuc))
                el = q.get(q.walkers, "eloc")
                ck.equal("energy sum, " + tag, it, r[0], f("global_weighted", comm, w, el), PROP)
                ck.equal("weight sum, " + tag, it, r[1], f("allsum", comm, f("norm", w)), PROP)
                Ga = f("green", q.phia, q.psia)
                Gb = f("green", q.phib, q.psib) if ncomp > 1 else Ga
                e1, e2 = it.items(f("energy", Ga, Gb, q.h1a, q.h1b, q.L, 0.0))
                ck.equal("one-body sum, " + tag, it, r[2], f("global_weighted", comm, w, e1), PROP)
                ck.equal("two-body sum, " + tag, it, r[3], f("global_weighted", comm, w, e2), PROP)
                if dims:
                    bd = it.new_list(list(dims))
                    ck.equal("boson sum, " + tag, it, r[4], f("global_weighted", comm, w, f("boson_energy", q.bphi, q.bpsi, bd, q.freq)), PROP)
                    ck.equal("coupling sum, " + tag, it, r[5], f("global_weighted", comm, w, f("coupling_energy", Ga, Gb, q.geb, q.bphi, q.bpsi, bd)), PROP)
            ck.guarded("estimators, " + tag, go, PROP)
        # 2. running averages and the energy shift
        for freq in (1, 2, 3):
            tag = "every %d step(s), %s" % (freq, where)

            def go():
                it = ck.interp()
                q = Q(it, 1)
                comm, mpi = local_walkers(it, q, size)
                f = spec_of(it)
                cls = it.mod_attr(it.load("openms.qmc.qmc"), "QMCbase")
                names = it.new_list(["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"])
                zero = it.call(it.getattr(it.import_name("numpy"), "zeros"), [Tup4()], {})
                mc = it.new_obj(cls, {"walkers": q.walkers, "trial": q.trial, "verbose": 0, "stdout": None, "_mpi": mpi,
                                      "stacked_variables": names, "property_calc_freq": freq, "property_buffer": zero, "eshift": 0.0})
                q.m(mc, "property_stack", q.walkers, -1)
                for rnd in range(2):
                    ws, es = [], []
                    for k in range(freq):
                        from ..engine.nf import REG
                        t = "%d_%d" % (rnd, k)
                        w = it.atom("w" + t, (q.nw,), nonneg=True, local=True)
                        e = it.atom("eh" + t, (q.nw,), local=True)
                        ws.append(w)
                        es.append(e)
                        q.set(q.walkers, {"weights": w, "ehybrid": e, "eloc": it.atom("el" + t, (q.nw,), local=True),
                                          "weights_org": it.atom("wo" + t, (q.nw,), nonneg=True, local=True)})
                        q.m(mc, "property_stack", q.walkers, rnd * freq + k)
                    ck.equal("energy shift, evaluation %d, %s" % (rnd + 1, tag), it, q.get(mc, "eshift"),
                             f("shift_estimate", comm, it.new_list(ws), it.new_list(es)), QMC)
            ck.guarded("energy shift, " + tag, go, QMC)
        # 3. weight rescaling
        for step, act in ((4, True), (3, False), (0, False)):
            tag = "step %d, %s" % (step, where)

            def go():
                it = ck.interp()
                q = Q(it, 1)
                comm, mpi = local_walkers(it, q, size)
                f = spec_of(it)
                tot0 = it.atom("tot0", (), nonneg=True)
                tot = it.atom("tot", (), nonneg=True)
                q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "total_weight0": tot0, "total_weight": tot,
                                  "weights_org": it.atom("wo", (q.nw,), nonneg=True, local=True)})
                w = it.atom("w", (q.nw,), nonneg=True)
                q.m(q.walkers, "weight_control", step, freq=5, method=None)
                neww = q.get(q.walkers, "weights")
                bound = it.np.binop("Mult", 0.1, tot)
                r, s = it.items(f("rescaled", comm, w, tot0, bound, step > 0))
                if act:
                    ck.equal("rescaled weights, " + tag, it, neww, r, GW)
                    ck.equal("recorded total weight, " + tag, it, q.get(q.walkers, "total_weight"), s, GW)
                    ck.equal("raw norm, " + tag, it, q.get(q.walkers, "raw_norm"), f("allsum", comm, f("norm", q.get(q.walkers, "weights_org"))), GW)
                else:
                    ck.equal("weights between controls, " + tag, it, neww, f("clipped", w, bound, step > 0), GW)
                    ck.equal("recorded total weight, " + tag, it, q.get(q.walkers, "total_weight"), tot, GW)
            ck.guarded("weight rescaling, " + tag, go, GW)
        # 4. averages fed back into the coupled propagation
        for ncomp in (1, 2):
            tag = "%s, %s" % (spin(ncomp), where)

            def go():
                it, q = setup(ck, ncomp, [2, 3])
                q.set(q.prop, {"nbarefields": q.nchol, "geb": q.geb})
                comm, mpi = local_walkers(it, q, size)
                f = spec_of(it)
                q.m(q.trial, "half_rotate_integrals", q.h1, q.L)
                q.m(q.trial, "ovlp_with_walkers_gf", q.walkers)
                q.m(q.prop, "update_GF", q.trial, q.walkers)
                Ga = f("green", q.phia, q.psia)
                Gb = f("green", q.phib, q.psib) if ncomp > 1 else Ga
                ck.equal("averaged density, " + tag, it, q.get(q.walkers, "rho"), f("mean_density", comm, q.w0, f("sum2", Ga, Gb)), PROP)
                ck.equal("averaged displacement, " + tag, it, q.get(q.walkers, "Qalpha"), f("mean_displacement", comm, q.w0, q.bphi, it.new_list([2, 3])), GW)
            ck.guarded("fed-back averages, " + tag, go, PROP)


def Tup4():
    from ..engine.interp import Tup
    return Tup([4])
