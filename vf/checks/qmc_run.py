"""The main loop of a run, its random streams and its communication."""
from ..engine.nf import Arr, E1, Expr, REG, TopError
from ..engine.interp import AV, Ref, Tup, TopV, is_num, num
from ..engine.npmodel import is_local
from .ctx import Q
from .qmc_boson import setup
from .qmc_mpi import local_walkers, world
from .qmc_state import spec_of, spin

QMC = "openms/qmc/qmc.py"
PROP = "openms/qmc/propagators.py"
GW = "openms/qmc/generic_walkers.py"


def driver(ck, size=1, nsteps=7, renorm=2, pop=3, prop=3, method="comb", debug=False):
    it = ck.interp()
    nmeas = nsteps // prop + 2
    cls = it.mod_attr(it.load("openms.qmc.qmc"), "QMCbase")
    comm, mpi = world(it, size)
    dt = it.atom("dt", (), nonneg=True)
    at = {n: it.atom(n, (), real=True) for n in ("h1e", "ltensor", "geb", "nuc_energy")}
    mc = it.new_obj(cls, dict(at, **{"verbose": 0, "stdout": None, "_mpi": mpi, "dt": dt, "nsteps": nsteps, "renorm_freq": renorm,
                     "pop_control_freq": pop, "pop_control_method": method, "property_calc_freq": prop, "print_freq": 10,
                     "random_seed": it.atom("seed", (), nonneg=True), "eshift": it.atom("shift_init", (), real=True),
                     "wt_propagator": 0.0, "wt_observables": 0.0, "wt_weight_control": 0.0, "wt_ortho": 0.0, "wt_io": 0.0, "wt_tot": 0.0}))
    en = it.new_list([it.new_list([it.atom("E%d_%d" % (k, j), ()) for j in range(4)]) for k in range(nmeas)])
    sh = it.new_list([it.atom("shift%d" % k, (), real=True) for k in range(nsteps + 2)])
    rec = it.call(it.mod_attr(it.load("spec.env"), "Recorder"), [mc, en, sh], {})
    it.setattr(rec, "debug_mpi", debug)
    trial = it.new_obj(None, {}, tag="trial")
    for n, v in (("propagator", rec), ("walkers", rec), ("trial", trial)):
        it.setattr(mc, n, v)
    for n in ("dump_flags", "post_kernel", "orthogonalization", "property_stack"):
        it.setattr(mc, n, it.getattr(rec, n))
    return it, mc, rec, trial, at, dt


def expected(nsteps, renorm, pop, prop, method):
    ev = [("build",), ("orthogonalise",)]
    k = 0
    for s in range(nsteps):
        if (s + 1) % renorm == 0:
            ev.append(("orthogonalise",))
        ev.append(("propagate", "shift%d" % s))
        ev.append(("control", s, pop, method))
        ev.append(("stack", s))
        if (s + 1) % prop == 0:
            ev.append(("measure",))
            k += 1
    return ev, k


def same(it, a, b):
    if is_num(a) and is_num(b):
        return num(a) == num(b)
    return it.same(a, b)


def q14(ck):
    ck.rule("the sequence of state-changing operations of QMCbase.kernel, from recorder objects, equals the declared schedule")
    for nsteps, renorm, pop, prop, method in ((7, 2, 3, 3, "comb"), (6, 5, 2, 1, None), (5, 1, 5, 2, "branching"), (4, 3, 4, 4, "reconfiguration"), (3, 5, 5, 5, None)):
        tag = "%d steps, orthogonalisation every %d, control (%s) every %d, measurement every %d" % (nsteps, renorm, method, pop, prop)

        def go():
            it, mc, rec, trial, at, dt = driver(ck, 1, nsteps, renorm, pop, prop, method)
            r = it.call(it.getattr(mc, "kernel"), [], {})
            log = [it.items(x) for x in it.items(it.getattr(rec, "log"))]
            log = [x for x in log if not (x[0] == "stack" and same(it, x[2], -1) is True)]
            ev, nmeas = expected(nsteps, renorm, pop, prop, method)
            bad = None
            if len(log) != len(ev):
                bad = "%d operations instead of %d" % (len(log), len(ev))
            for i, (x, y) in enumerate(zip(log, ev)):
                if x[0] != y[0]:
                    bad = "operation %d is '%s' where '%s' is due" % (i, x[0], y[0])
                    break
            names = [x[0] for x in log]
            if bad:
                ck.violated("order of operations, " + tag, bad + ": " + " ".join(names)[:400], QMC)
            else:
                ck.held("order of operations, " + tag, "%d operations" % len(ev), QMC)
                for i, (x, y) in enumerate(zip(log, ev)):
                    nm = "operation %d (%s), %s" % (i, x[0], tag)
                    if x[0] == "propagate":
                        ck.equal("energy shift used by " + nm, it, x[4], it.atom(y[1], (), real=True), QMC)
                        ok = same(it, x[1], trial) and same(it, x[2], rec) and same(it, x[3], at["ltensor"])
                    elif x[0] == "control":
                        ok = same(it, x[1], y[1]) and same(it, x[2], y[2]) and same(it, x[3], y[3])
                    elif x[0] == "stack":
                        ok = same(it, x[1], rec) and same(it, x[2], y[1])
                    elif x[0] == "measure":
                        ok = same(it, x[1], at["h1e"]) and same(it, x[2], at["ltensor"]) and same(it, x[3], rec) and same(it, x[4], trial) and same(it, x[5], at["nuc_energy"])
                    elif x[0] == "build":
                        ok = same(it, x[1], at["h1e"]) and same(it, x[2], at["ltensor"]) and same(it, x[3], trial) and same(it, x[4], at["geb"])
                    else:
                        continue
                    if ok is True:
                        ck.held("arguments of " + nm, "", QMC)
                    elif ok is False:
                        ck.violated("arguments of " + nm, "called with %s" % ([str(v)[:40] for v in x[1:]],), QMC)
                    else:
                        ck.undecided("arguments of " + nm, "not comparable", QMC)
            ts, es = it.items(r)
            ts, es = it.items(ts), it.items(es)
            if len(ts) != nmeas or len(es) != nmeas:
                ck.violated("returned series, " + tag, "%d times and %d energies for %d measurements" % (len(ts), len(es), nmeas), QMC)
                return
            k = 0
            for s in range(nsteps):
                if (s + 1) % prop == 0:
                    ck.equal("energy %d, %s" % (k, tag), it, es[k],
                             it.np.binop("Div", it.atom("E%d_0" % k, ()), it.atom("E%d_1" % k, ())), QMC)
                    ck.equal("time %d, %s" % (k, tag), it, ts[k], it.np.binop("Mult", dt, s), QMC)
                    k += 1
        ck.guarded("schedule, " + tag, go, QMC)
    # the period of population control is applied by the walkers themselves
    for freq in (1, 2, 3):
        for step in range(0, 6):
            tag = "step %d, period %d" % (step, freq)

            def go():
                it = ck.interp()
                q = Q(it, 1)
                comm, mpi = local_walkers(it, q, 1)
                f = spec_of(it)
                tot0, tot = it.atom("tot0", (), nonneg=True), it.atom("tot", (), nonneg=True)
                w = it.atom("w", (q.nw,), nonneg=True)
                q.set(q.walkers, {"weights": it.new_arr(it.arr(w)), "total_weight0": tot0, "total_weight": tot, "weights_org": it.new_arr(it.arr(w))})
                q.m(q.walkers, "weight_control", step, freq=freq, method=None)
                bound = it.np.binop("Mult", 0.1, tot)
                if (step + 1) % freq == 0:
                    ref = it.items(f("rescaled", comm, w, tot0, bound, step > 0))[0]
                else:
                    ref = f("clipped", w, bound, step > 0)
                ck.equal("weights after population control, " + tag, it, q.get(q.walkers, "weights"), ref, GW)
            ck.guarded("population control period, " + tag, go, GW)


# ---------------------------------------------------------------- random streams
def depends(e, name):
    import re
    return isinstance(e, Expr) and re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % name, str(e.key)) is not None


def judge_draws(ck, it, name, kind, site):
    """kind: 'same' every rank uses the seeded stream itself; 'own' every rank its own stream"""
    if not it.draws:
        ck.undecided(name, "no random draw was reached", site)
        return
    for fn, seed, where in it.draws:
        if isinstance(seed, TopV):
            ck.undecided(name, "seed not analysed: %s" % seed.why, site)
            return
        if seed is None:
            ck.violated(name, "the draw '%s' in %s uses a generator that the run's seed does not determine" % (fn, where), site)
            return
        if not depends(seed, "seed"):
            ck.violated(name, "the generator of '%s' in %s is seeded with %s, not with the run's seed" % (fn, where, seed.key), site)
            return
        if kind == "own" and not is_local(seed):
            ck.violated(name, "every rank seeds the generator of '%s' with %s: all ranks repeat the same walkers" % (fn, seed.key), site)
            return
        if kind == "same" and is_local(seed):
            ck.violated(name, "ranks that must share one stream seed it with %s" % seed.key, site)
            return
    ck.held(name, "%d draws" % len(it.draws), site)


FOREIGN = ("random.", "secrets.", "os.urandom", "uuid.", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator")


def foreign(ck, it, name, site):
    bad = sorted("%s in %s" % (p, w) for p, w in it.ext if p.startswith(FOREIGN) and not p.endswith(".seed"))
    if bad:
        ck.violated(name, "random numbers from a source the run's seed does not determine: " + "; ".join(bad[:4]), site)
    else:
        ck.held(name, "%d external functions called" % len(it.ext), site)


def q13(ck):
    ck.rule("every draw reachable in a run comes from a generator whose seed is a function of random_seed (and of the rank when ranks sample independently)")
    for size in (1, 3):
        for debug in (False, True):
            tag = "%d rank%s%s" % (size, "" if size == 1 else "s", ", shared stream for debugging" if debug else "")

            def go():
                it, mc, rec, trial, at, dt = driver(ck, size, debug=debug)
                comm = it.getattr(it.getattr(mc, "_mpi"), "comm")
                it.setattr(rec, "comm", comm)
                it.draws.clear()
                it.call(it.getattr(mc, "kernel"), [], {})
                judge_draws(ck, it, "draws of a run follow its seed, " + tag, "own" if size > 1 and not debug else "same", QMC)
            ck.guarded("seeding, " + tag, go, QMC)
    # the parts of a step draw from that stream and from nothing else
    for cls, ncomp in (("Phaseless", 1), ("Phaseless", 2), ("PhaselessElecBoson", 1)):
        tag = "%s, %s" % (cls, spin(ncomp))

        def go():
            if cls == "Phaseless":
                it = ck.interp()
                it.max_steps = 10 ** 7
                q = Q(it, ncomp)
                h1 = it.new_arr(it.np.stack_values([q.h1a, q.h1a]))
                q.prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), cls), [], {"dt": it.atom("dt", (), nonneg=True), "taylor_order": 2})
                q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "ehybrid": it.atom("ehyb", (q.nw,), real=True)})
                extra = []
            else:
                it, q = setup(ck, ncomp, [2])
                h1, extra = q.h1, [q.geb]
            it.draws.clear()
            it.ext.clear()
            it.st.heap["rngseed"] = num(it.atom("seed", (), nonneg=True))
            q.m(q.prop, "build", h1, q.L, q.trial, *extra)
            q.m(q.trial, "half_rotate_integrals", h1, q.L)
            if it.draws:
                ck.violated("preparing a propagator draws nothing, " + tag, str(it.draws[0][2]), PROP)
            q.m(q.prop, "propagate_walkers", q.trial, q.walkers, q.L, it.atom("esh", (), real=True))
            judge_draws(ck, it, "draws of a step follow the seed, " + tag, "same", PROP)
            foreign(ck, it, "no other source of randomness in a step, " + tag, PROP)
        ck.guarded("draws of a step, " + tag, go, PROP)
    for method in ("branching", "reconfiguration", "comb"):
        def go():
            it = ck.interp()
            q = Q(it, 2, nw=2)
            comm, mpi = local_walkers(it, q, 1)
            it.st.heap["rngseed"] = num(it.atom("seed", (), nonneg=True))
            w = it.atom("w", (num(2),), nonneg=True)
            for n in ("phiwa", "phiwb"):
                q.set(q.walkers, {n: it.new_arr(it.arr(q.get(q.walkers, n)))})
            q.set(q.walkers, {"weights": w})
            fac = it.mod_attr(it.load("openms.qmc.population_control"), "population_control_factory")
            it.draws.clear()
            it.ext.clear()
            it.explore(lambda: it.call(fac, [q.walkers], {"method": method}))
            judge_draws(ck, it, "draws of population control follow the seed, " + method, "same", "openms/qmc/population_control.py")
            foreign(ck, it, "no other source of randomness in population control, " + method, "openms/qmc/population_control.py")
        ck.guarded("draws of population control, " + method, go, "openms/qmc/population_control.py")


# ---------------------------------------------------------------- communication
def judge_events(ck, it, name, site, need=1):
    for op, pc, where in it.events:
        if isinstance(pc, TopV):
            ck.undecided(name, "condition of %s in %s not analysed" % (op, where), site)
            return
        if is_local(pc):
            ck.violated(name, "whether a rank takes part in %s (%s) depends on rank-local data: %s" % (op, where, str(pc.key)[:200]), site)
            return
    if len(it.events) < need:
        ck.undecided(name, "no communication reached", site)
        return
    ck.held(name, "%d operations: %s" % (len(it.events), " ".join(e[0] for e in it.events)[:200]), site)


def q10(ck):
    ck.rule("every collective is executed under a path condition that is the same on all ranks; the one-process communicator is the identity")
    n = "all ranks take part in the same communication, "
    for cls, ncomp, dims in (("Phaseless", 1, None), ("Phaseless", 2, None), ("PhaselessElecBoson", 1, [2]), ("PhaselessElecBoson", 2, [2, 2])):
        tag = "%s, %s" % (cls, spin(ncomp))

        def go():
            if dims:
                it, q = setup(ck, ncomp, dims)
                q.set(q.prop, {"nbarefields": q.nchol, "geb": q.geb})
            else:
                it = ck.interp()
                q = Q(it, ncomp)
                q.h1 = it.new_arr(it.np.stack_values([q.h1a, q.h1a]))
                q.prop = it.call(it.mod_attr(it.load("openms.qmc.propagators"), cls), [], {"dt": it.atom("dt", (), nonneg=True), "taylor_order": 2})
                q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "ehybrid": it.atom("ehyb", (q.nw,), real=True)})
            local_walkers(it, q, 3)
            q.m(q.prop, "build", q.h1, q.L, q.trial, *([q.geb] if dims else []))
            q.m(q.trial, "half_rotate_integrals", q.h1, q.L)
            it.events.clear()
            q.m(q.prop, "local_energy", q.h1, q.L, q.walkers, q.trial, enuc=it.atom("enuc", (), real=True))
            judge_events(ck, it, n + "measurement, " + tag, PROP)
            it.events.clear()
            q.m(q.prop, "propagate_walkers", q.trial, q.walkers, q.L, it.atom("esh", (), real=True))
            judge_events(ck, it, n + "propagation, " + tag, PROP, need=0)
        ck.guarded("communication, " + tag, go, PROP)
    for freq in (1, 3):
        def go():
            it = ck.interp()
            q = Q(it, 1)
            comm, mpi = local_walkers(it, q, 3)
            cls = it.mod_attr(it.load("openms.qmc.qmc"), "QMCbase")
            names = it.new_list(["weights", "unscaled_weights", "walker_hybrid_energies", "walker_local_energies"])
            zero = it.call(it.getattr(it.import_name("numpy"), "zeros"), [Tup([4])], {})
            mc = it.new_obj(cls, {"walkers": q.walkers, "trial": q.trial, "verbose": 0, "stdout": None, "_mpi": mpi,
                                  "stacked_variables": names, "property_calc_freq": freq, "property_buffer": zero, "eshift": 0.0})
            q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "ehybrid": it.atom("ehyb", (q.nw,), real=True),
                              "eloc": it.atom("eloc", (q.nw,)), "weights_org": it.atom("wo", (q.nw,), nonneg=True, local=True)})
            it.events.clear()
            for s in range(-1, 2 * freq):
                q.m(mc, "property_stack", q.walkers, s)
            judge_events(ck, it, n + "running averages every %d step(s)" % freq, QMC)
        ck.guarded("communication of running averages", go, QMC)

    def go():
        it = ck.interp()
        q = Q(it, 1)
        local_walkers(it, q, 3)
        q.set(q.walkers, {"weights": it.atom("w", (q.nw,), nonneg=True), "total_weight0": it.atom("tot0", (), nonneg=True), "total_weight": it.atom("tot", (), nonneg=True)})
        step = it.atom("step", (), nonneg=True)
        it.events.clear()
        q.m(q.walkers, "weight_control", 4, freq=5, method=None)
        q.get(q.walkers, "raw_norm")
        judge_events(ck, it, n + "weight control", "openms/qmc/generic_walkers.py", 2)
    ck.guarded("communication of weight control", go, "openms/qmc/generic_walkers.py")
    for method in ("branching", "reconfiguration", "comb"):
        def go():
            it = ck.interp()
            q = Q(it, 2, nw=2)
            local_walkers(it, q, 3)
            for x in ("phiwa", "phiwb"):
                q.set(q.walkers, {x: it.new_arr(it.arr(q.get(q.walkers, x)))})
            q.set(q.walkers, {"weights": it.atom("w", (num(2),), nonneg=True)})
            fac = it.mod_attr(it.load("openms.qmc.population_control"), "population_control_factory")
            seqs = []

            def path():
                it.events.clear()
                it.call(fac, [q.walkers], {"method": method})
                seqs.append(tuple(e[0] for e in it.events))
            it.explore(path)
            name = n + "population control, " + method
            if len(set(seqs)) > 1:
                ck.violated(name, "ranks whose walkers take different paths communicate differently: %s" % sorted(set(seqs)), "openms/qmc/population_control.py")
            else:
                ck.held(name, "%d paths, each %s" % (len(seqs), list(set(seqs))), "openms/qmc/population_control.py")
        ck.guarded("communication of population control, " + method, go, "openms/qmc/population_control.py")

    def go():
        it, mc, rec, trial, at, dt = driver(ck, 3)
        it.setattr(rec, "comm", it.getattr(it.getattr(mc, "_mpi"), "comm"))
        it.events.clear()
        it.call(it.getattr(mc, "kernel"), [], {})
        judge_events(ck, it, n + "main loop", QMC, 10)
    ck.guarded("communication of the main loop", go, QMC)
    fake(ck)
    spread(ck)


def fake(ck):
    site = "openms/__mpi__.py"

    def go():
        it = ck.interp()
        m = it.load("openms.__mpi__")
        k = it.size("nw")
        w = it.call(it.mod_attr(m, "MPIWrapper"), [], {})
        for a, v in (("size", 1), ("rank", 0)):
            ck.equal("one process: " + a, it, it.getattr(w, a), v, site)
        comm = it.getattr(w, "comm")
        c = lambda n, *a, **kw: it.call(it.getattr(comm, n), list(a), kw)
        x = it.atom("x", (k,))
        r = c("allreduce", x, op=None)
        ck.equal("one process: allreduce returns its argument", it, r, it.atom("x", (k,)), site)
        it.np.store(r, 0, 0.0) if isinstance(r, AV) else None
        ck.equal("one process: the reduced value is not the send buffer", it, x, it.atom("x", (k,)), site)
        ck.equal("one process: bcast returns its argument", it, c("bcast", it.atom("x", (k,)), root=0), it.atom("x", (k,)), site)
        for op in ("Allreduce", "Gather", "Scatter", "Reduce", "Allgather"):
            b = it.call(it.getattr(it.import_name("numpy"), "zeros"), [k], {})
            c(op, it.atom("x", (k,)), b)
            ck.equal("one process: %s copies its argument" % op, it, b, it.atom("x", (k,)), site)
        g = it.items(c("gather", it.atom("x", (k,))))
        if len(g) == 1:
            ck.equal("one process: gather lists its argument", it, g[0], it.atom("x", (k,)), site)
        else:
            ck.violated("one process: gather lists its argument", "%d entries" % len(g), site)
        for op, v in (("Get_size", 1), ("Get_rank", 0)):
            ck.equal("one process: " + op, it, c(op), v, site)
    ck.guarded("one-process communicator", go, site)


def spread(ck):
    """the ranks' walkers make up the requested population"""
    site = "openms/qmc/generic_walkers.py"
    for total, size in ((7, 3), (6, 3), (3, 3), (5, 1), (9, 4)):
        def go():
            got = []
            it = ck.interp()
            env = it.load("spec.env")
            mpi = it.load("openms.__mpi__")
            it.setvar("MPIWrapper", it.mod_attr(env, "World"), mpi.envloc)
            it.setvar("SIZE", size, env.envloc)
            tag = "%d walkers on %d rank%s" % (total, size, "" if size == 1 else "s")
            displs = None
            for r in range(size):
                it.setvar("RANK", r, env.envloc)
                q = Q(it, 1)
                w = it.call(it.mod_attr(q.walkmod, "Walkers_so"), [q.trial], {"nwalkers": total})
                n = num(it.getattr(w, "nwalkers")).as_int()
                if n is None:
                    raise TopError("number of local walkers")
                ck.equal("first walker of rank %d, %s" % (r, tag), it, it.getitem(it.getattr(w, "displs"), r), sum(got), site)
                ck.equal("local count on record for rank %d, %s" % (r, tag), it, it.getitem(it.getattr(w, "walker_counter"), r), n, site)
                got.append(n)
                wt = it.arr(it.getattr(w, "weights"))
                ck.equal("initial weights of rank %d, %s" % (r, tag), it, wt, it.call(it.getattr(it.import_name("numpy"), "ones"), [n], {}), site)
                for a in ("total_weight0", "total_weight"):
                    ck.equal("%s of rank %d is the population's, %s" % (a, r, tag), it, it.getattr(w, a), total, site)
            if sum(got) != total:
                ck.violated("local populations add up, " + tag, "%s" % got, site)
            elif max(got) - min(got) > 1:
                ck.violated("local populations are balanced, " + tag, "%s" % got, site)
            else:
                ck.held("local populations add up, " + tag, str(got), site)
        ck.guarded("distribution of %d walkers over %d" % (total, size), go, site)
