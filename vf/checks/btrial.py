"""Bosonic trial functions."""
from ..engine.nf import E_const

BT = "openms/qmc/trial_boson.py"


def wave(ck, which):
    it = ck.interp()
    sp, mod = it.load("spec.btrial"), it.load("openms.qmc.trial_boson")
    s = lambda f, *a: it.call(it.mod_attr(sp, f), list(a), {})
    B = it.np.binop
    m, w = it.atom("mass", (), nonneg=True), it.atom("freq", (), nonneg=True)
    n = it.size("nsite")
    x, sh = it.atom("x", (n,), real=True), it.atom("s", (n,), real=True)
    key = "qshift" if which == "TrialQ" else "pshift"
    o = it.call(it.mod_attr(mod, which), [], {"mass": m, "freq": w, key: sh})
    mw = B("Mult", m, w)
    half = lambda v: B("Div", v, E_const(2))
    if which == "TrialQ":
        a, cl, cp, val = mw, half(B("Div", E_const(1), m)), half(B("Mult", mw, w)), "qvalue"
    else:
        a, cl, cp, val = B("Div", E_const(1), mw), half(B("Mult", mw, w)), half(B("Div", E_const(1), m)), "pvalue"
    f = lambda nm, v: it.call(it.getattr(o, nm), [v], {})
    tag = "position" if which == "TrialQ" else "momentum"
    for kind, sv, reset in (("shift given at construction", sh, False), ("shift updated", it.atom("s2", (n,), real=True), True)):
        if reset:
            if which == "TrialP":
                continue
            f("update_Q_shift", sv)
        q = lambda nm, got, ref: ck.equal(f"{tag}: {nm}, {kind}", it, got, ref, site=f"{BT}:{which}")
        q("gradient", f("gradient", x), s("slope", x, sv, a))
        q("laplacian", f("laplacian", x), s("curvature", x, sv, a))
        q("local energy", f("local_energy", x), s("oscillators", x, sv, a, cl, cp, w))
        x3, s3 = it.atom("x3", (3,), real=True), it.atom("s3", (3,), real=True)
        it.setattr(o, key, s3)
        q("value", f(val, x3), s("gauss", x3, s3, a))
        q("local energy of three sites", f("local_energy", x3), s("oscillators", x3, s3, a, cl, cp, w))
        it.setattr(o, key, sv)
    # default shift
    o2 = it.call(it.mod_attr(mod, which), [], {"mass": m, "freq": w})
    o = o2
    ck.equal(f"{tag}: gradient without shift", it, f("gradient", x), s("slope", x, E_const(0), a), site=f"{BT}:{which}.gradient")
    ck.equal(f"{tag}: local energy of the unshifted function vanishes", it, f("local_energy", x), E_const(0), site=f"{BT}:{which}.local_energy")


def fock(ck, m, n):
    it = ck.interp()
    sp, mod = it.load("spec.btrial"), it.load("openms.qmc.trial_boson")
    s = lambda f, *a: it.call(it.mod_attr(sp, f), list(a), {})
    mk = lambda: it.call(it.mod_attr(mod, "TrivialFock"), [m, n], {})
    al = it.atom("alpha", (m,), real=True)
    o = mk()
    it.call(it.getattr(o, "build"), [], {"alpha": al})
    tag = f"{m} modes, {n} states each"
    ck.equal(f"coherent product state, {tag}", it, it.getattr(o, "boson_psi"), s("coherent", al, n), site=f"{BT}:TrivialFock.build")
    o = mk()
    it.call(it.getattr(o, "build"), [], {})
    ck.equal(f"default state, {tag}", it, it.getattr(o, "boson_psi"), s("decaying", m, n), site=f"{BT}:TrivialFock.build")
    p, q = it.atom("phi", (it.size("nw"), m * n)), it.atom("psi", (m * n,))
    got = it.call(it.mod_attr(mod, "calc_trial_walker_ovlp"), [p, q], {})
    ck.equal(f"overlap with walkers, {tag}", it, got, s("overlaps", p, q), site=f"{BT}:calc_trial_walker_ovlp")


def b01(ck):
    ck.rule("gradient and Laplacian are the logarithmic derivatives of the trial function, the local energy is that of the "
            "oscillators, the expansion in number states is that of the coherent product, for all displacements and parameters")
    for w in ("TrialQ", "TrialP"):
        ck.guarded(w, lambda w=w: wave(ck, w), site=BT)
    for m, n in ((1, 4), (2, 3), (3, 2)):
        ck.guarded(f"number states {m} {n}", lambda a=(m, n): fock(ck, *a), site=BT)
