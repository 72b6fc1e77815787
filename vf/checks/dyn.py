"""Time stepping."""
from ..engine.nf import E_const

RK = "openms/qmd/propagator.py"


def rk(ck, nt, ny):
    it = ck.interp()
    sp, mod = it.load("spec.rk"), it.load("openms.qmd.propagator")
    s = lambda f, *a: it.call(it.mod_attr(sp, f), list(a), {})
    a = it.new_list([it.new_list([it.atom(f"a{i}{j}", (), real=True) for j in range(ny)]) for i in range(nt)])
    t, y = it.atom("t", (), real=True), it.atom("y", (), real=True)
    out = it.call(it.mod_attr(mod, "rk4"), [s("field", a), t, s("scalar", y), s("step")], {})
    got = it.items(it.getattr(out, "c"))
    want = it.items(s("exact", a, t, y))
    for k in range(5):
        ck.equal(f"coefficient of dt^{k}, right-hand side of degree {nt - 1} in time and {ny - 1} in the solution", it, got[k], want[k], site=f"{RK}:rk4")


def d01(ck):
    ck.rule("the Taylor coefficients of one step in dt, up to the fourth, equal those of the exact solution for every "
            "polynomial right-hand side of the listed degrees (arbitrary coefficients, time and starting value)")
    for nt, ny in ((1, 2), (4, 1), (2, 4), (3, 3)):
        ck.guarded(f"degree {nt - 1}, {ny - 1}", lambda a=(nt, ny): rk(ck, *a), site=RK)
