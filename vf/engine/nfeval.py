"""Random interpretation of *normal forms*.

Two different normal forms may still denote the same function (the normal form is not
complete for every identity of matrix functions).  Before a difference is reported, both
terms are evaluated at pseudo-random values of their atoms; only terms that differ there
are different functions.  What is evaluated is the analysis result (a term over declared
atoms), never the analysed program.
"""
import cmath
import hashlib
import math
import time
import itertools

from . import nf
from .nf import REG


class EvalError(Exception):
    pass


def _h(*parts):
    s = "|".join(str(p) for p in parts)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


def _u(*parts):
    return (_h(*parts) % (1 << 52)) / float(1 << 52)


class Ev:
    def __init__(self, seed=0, sizes=None, ints=None, scale=1.0):
        self.scale = scale
        self.big = 1e6
        self.seed = seed
        self.sizes = dict(sizes or {})      # explicit size / integer values
        self.ints = dict(ints or {})        # name -> function(idx) -> int
        self.memo = {}
        self.rank = 0
        self.nranks = 3
        self.budget = 3000000
        self.funcs = {}

    # -------------------------------------------------------------- atoms
    def symval(self, n):
        nm = n.name
        if nm in self.sizes:
            return self.sizes[nm]
        if nm in REG.ints:
            v = 2 + _h(self.seed, "size", nm) % 2
            self.sizes[nm] = v
            return v
        v = self.rnd(nm, ())
        return v.conjugate() if n.cj and isinstance(v, complex) else v

    def rnd(self, nm, idx):
        rk = self.rank if nm in REG.local else "-"
        if nm in REG.ints:
            f = self.ints.get(nm)
            if f is not None:
                return f(idx)
            return 1 + _h(self.seed, nm, idx, rk, "i") % 3
        cj = False
        if nm in REG.canon:
            idx, sg = REG.canon[nm](idx)
            return sg * self.rnd0(nm, idx, rk, False, None) if sg else 0.0
        herm = REG.herm.get(nm)
        if herm and idx[herm[0]] > idx[herm[1]]:
            l = list(idx)
            l[herm[0]], l[herm[1]] = l[herm[1]], l[herm[0]]
            idx = tuple(l)
            cj = True
        for grp in REG.sym.get(nm, ()):
            sub = sorted(idx[g] for g in grp)
            l = list(idx)
            for g, e in zip(grp, sub):
                l[g] = e
            idx = tuple(l)
        return self.rnd0(nm, idx, rk, cj, herm)

    def rnd0(self, nm, idx, rk, cj, herm):
        a = _u(self.seed, nm, idx, rk, "r")
        if nm.startswith("uni"):
            return a
        if nm in REG.nonneg:
            return (0.2 + a) * self.scale
        re = (2 * a - 1) * self.scale
        if nm in REG.real:
            return re
        if herm and idx[herm[0]] == idx[herm[1]]:
            return complex(re, 0)
        im = (2 * _u(self.seed, nm, idx, rk, "c") - 1) * self.scale
        return complex(re, -im if cj else im)

    # -------------------------------------------------------------- nodes
    def fvenv(self, fv, env):
        return tuple(sorted((v, env[v]) for v in fv if v in env))

    def node(self, n, env):
        k = n.kind
        if k == "iv":
            try:
                return env[n.name]
            except KeyError:
                raise EvalError("free variable " + n.name)
        if k == "num":
            return n.p
        if k == "sym":
            return self.symval(n)
        mk = (n.key, self.fvenv(n.fv, env), self.rank)
        r = self.memo.get(mk)
        if r is None:
            r = self.node1(n, env)
            self.memo[mk] = r
        return r

    def node1(self, n, env):
        k = n.kind
        if k == "el":
            idx = tuple(self.int(self.expr(e, env)) for e in n.idx)
            v = self.rnd(n.name, idx)
            return v.conjugate() if n.cj and isinstance(v, complex) else v
        if k == "par":
            return self.expr(n.e, env)
        if k == "ind":
            old, self.big = self.big, 1e300
            try:
                v = self.expr(n.e, env)
            finally:
                self.big = old
            if n.op == "eq":
                return 1 if abs(v) < 1e-9 else 0
            return 1 if complex(v).real < -1e-12 else 0
        if k == "win":
            v = complex(self.expr(n.e, env)).real
            m = complex(self.expr(n.m, env)).real
            return 1 if -1e-9 <= v < m - 1e-9 else 0
        if k == "bool":
            args = [self.expr(a, env) for a in n.args]
            return 1 if self.opaque("B" + n.name, args).real > 0 else 0
        if k == "fn":
            return self.fn(n, env)
        if k == "mat":
            return self.mat(n, env)
        raise EvalError("node " + k)

    def opaque(self, name, args):
        z = 2 * math.pi * _u(self.seed, "op", name)
        re = math.sin(z)
        im = math.cos(z)
        s1 = s2 = 0.0
        for i, a in enumerate(args):
            a = complex(a)
            for j, x in enumerate((a.real, a.imag)):
                if not abs(x) < 1e12:
                    raise EvalError("magnitude %.3g in %s" % (abs(tot), e.key[:300]))
                s1 += (0.3 + _u(self.seed, name, i, j, 1)) * x
                s2 += (0.3 + _u(self.seed, name, i, j, 2)) * x
        return complex(math.sin(s1 + z) + 0.1 * re, math.cos(s2 - z) + 0.1 * im)

    def int(self, v):
        v = complex(v)
        r = round(v.real)
        if abs(v.real - r) > 1e-6 or abs(v.imag) > 1e-9:
            raise EvalError("index is not an integer")
        return int(r)

    def fn(self, n, env):
        name = n.name
        if name == "ranksum":
            old = self.rank
            tot = 0
            for r in range(self.nranks):
                self.rank = r
                tot += self.expr(n.args[0], env)
            self.rank = old
            return tot
        args = [self.expr(a, env) for a in n.args]
        a = complex(args[0]) if args else 0j
        if name == "exp":
            if a.real > 60:
                raise EvalError("overflow")
            return cmath.exp(a)
        if name == "log":
            if a == 0:
                raise EvalError("log 0")
            return cmath.log(a)
        if name == "abs":
            return abs(a)
        if name == "conj":
            return a.conjugate()
        if name in ("sin", "cos", "sinh", "cosh", "tanh", "tan"):
            if abs(a) > 50:
                raise EvalError("overflow")
            return getattr(cmath, name)(a)
        if name == "arctan":
            return cmath.atan(a)
        if name == "angle":
            return cmath.phase(a)
        if name == "sign":
            return (a.real > 0) - (a.real < 0)
        if name == "max":
            return max(complex(x).real for x in args)
        if name == "min":
            return min(complex(x).real for x in args)
        if name == "fact":
            k = self.int(a)
            if k < 0 or k > 60:
                raise EvalError("fact")
            return math.factorial(k)
        if name == "floor":
            return math.floor(a.real)
        if name == "ceil":
            return math.ceil(a.real)
        if name == "int":
            return int(a.real)
        if name == "idiv":
            return math.floor(a.real / complex(args[1]).real + 1e-12)
        if name == "mod":
            return self.int(a) % self.int(args[1])
        if name == "m1pow":
            return -1 if self.int(a) % 2 else 1
        if name == "powi":
            return self.pw(args[0], complex(args[1]).real)
        if name == "powx":
            return self.pw(args[0], args[1])
        if name == "unf":
            k, pos = self.int(args[0]), self.int(args[1])
            dims = [self.int(d) for d in args[2:]]
            for p in range(len(dims) - 1, -1, -1):
                k, r = divmod(k, dims[p])
                if p == pos:
                    return r if p else r + k * dims[p]
            raise EvalError("unf")
        if name == "fuse":
            h = len(args) // 2
            r = 0
            for i, d in zip(args[:h], args[h:]):
                r = r * self.int(d) + self.int(i)
            return r
        f = self.funcs.get(name)
        if f is not None:
            return f(*args)
        return self.opaque(name, args)

    def pw(self, b, e):
        e = complex(e)
        b = complex(b)
        if b == 0:
            if e == 0:
                return 1
            if e.real > 0:
                return 0
            raise EvalError("0 ** negative")
        if e.imag == 0 and abs(e.real - round(e.real)) < 1e-12:
            return b ** int(round(e.real))
        return cmath.exp(e * cmath.log(b))

    def lam(self, a, env):
        key = (a.key, self.fvenv(a.fv, env), self.rank, "lam")
        r = self.memo.get(key)
        if r is not None:
            return r
        dims = [self.int(self.expr(d, env)) for d in a.dims]
        out = {}
        for ix in itertools.product(*[range(d) for d in dims]):
            e2 = dict(env)
            e2.update(zip(a.vars, ix))
            out[ix] = self.expr(a.body, e2)
        self.memo[key] = (dims, out)
        return dims, out

    def mat(self, n, env):
        if n.name == "let":
            a = n.arrs[0]
            idx = [self.int(self.expr(e, env)) for e in n.idx]
            e2 = dict(env)
            e2.update(zip(a.vars, idx))
            v = self.expr(a.body, e2)
            return complex(v).conjugate() if n.cj else v
        idx = tuple(self.int(self.expr(e, env)) for e in n.idx)
        fv = nf.EMPTY
        for a in n.arrs:
            fv = fv | a.fv
        key = ("M", n.name, n.extra, tuple(a.key for a in n.arrs), self.fvenv(fv, env), self.rank)
        r = self.memo.get(key)
        if r is None:
            r = self.mat1(n, [self.lam(a, env) for a in n.arrs])
            self.memo[key] = r
        v = r(idx) if callable(r) else r[idx]
        return complex(v).conjugate() if n.cj else v

    def mat1(self, n, vals):
        name = n.name
        dims, a = vals[0]
        if name == "det":
            return {(): det(dims[0], a)}
        if name == "inv":
            return inv(dims[0], a)
        if name == "expm":
            return expm(dims[0], a)
        flat = []
        for d, v in vals:
            flat += [v[k] for k in sorted(v)]
        base = self.opaque("mat:" + name + n.extra, flat)
        return lambda ix: self.opaque("mi:" + name, [base * (1 + 0.37 * i) + i for i in ix] + [base])

    # -------------------------------------------------------------- expr
    def expr(self, e, env):
        tot = 0
        for c, b, f in e.terms.values():
            cc = complex(float(c[0]), float(c[1])) if c[1] else float(c[0])
            if not b:
                tot += cc * self.prod(f, env)
            else:
                tot += cc * self.summ(list(b), list(f), env)
        if not abs(tot) < self.big:
            raise EvalError("magnitude %.3g in %s" % (abs(tot), e.key[:300]))
        return tot

    def prod(self, f, env):
        r = 1
        # indicators first: they guard partial operations
        for n, ex in f:
            if n.is_ind():
                if not self.node(n, env):
                    return 0
        for n, ex in f:
            if n.is_ind():
                continue
            v = self.node(n, env)
            if ex == 1:
                r = r * v
            else:
                r = r * self.pw(v, float(ex))
        return r

    def summ(self, b, f, env):
        names = {q for q, _ in b}
        if len(b) < 2 or any(sz.fv & names for _, sz in b):
            return self.nested(b, f, env)
        size = {q: self.int(self.expr(sz, env)) for q, sz in b}
        # tables over the bound variables each factor depends on; indicators guard the partial ones
        tabs = []
        env = dict(env)
        for n, ex in f:
            vs = tuple(sorted(n.fv & names))
            tab = {}
            for ix in itertools.product(*[range(size[v]) for v in vs]):
                self.tick()
                for v, k in zip(vs, ix):
                    env[v] = k
                try:
                    x = self.node(n, env)
                    if ex != 1:
                        x = self.pw(x, float(ex))
                    tab[ix] = x
                except (EvalError, ZeroDivisionError, OverflowError) as exc:
                    tab[ix] = None
                    self.last = str(exc)
            tabs.append((vs, tab))
        todo = set(names)
        while todo:
            best = None
            for v in sorted(todo):
                sc = set()
                for vs, _ in tabs:
                    if v in vs:
                        sc |= set(vs)
                c = 1
                for w in sc:
                    c *= size[w]
                if best is None or c < best[0]:
                    best = (c, v, sc)
            _, v, sc = best
            todo.discard(v)
            sc.discard(v)
            out = tuple(sorted(sc))
            use = [t for t in tabs if v in t[0]]
            tabs = [t for t in tabs if v not in t[0]]
            new = {}
            full = out + (v,)
            pos = [tuple(full.index(w) for w in vs) for vs, _ in use]
            for ix in itertools.product(*[range(size[w]) for w in out]):
                tot = 0
                for k in range(size[v]):
                    self.tick()
                    jx = ix + (k,)
                    p = 1
                    bad = False
                    for (vs, tab), ps in zip(use, pos):
                        x = tab[tuple(jx[i] for i in ps)]
                        if x is None:
                            bad = True
                        elif x == 0:
                            p = 0
                            break
                        else:
                            p = p * x
                    if p == 0:
                        continue
                    if bad:
                        tot = None
                        break
                    tot += p
                new[ix] = tot
            tabs.append((out, new))
        r = 1
        bad = False
        for vs, tab in tabs:
            x = tab[()]
            if x is None:
                bad = True
            elif x == 0:
                return 0
            else:
                r = r * x
        if bad:
            raise EvalError("partial operation: " + self.last)
        return r

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise EvalError("budget")

    def nested(self, b, f, env):
        """nested sum, pulling out of the inner sums the factors that do not depend on them"""
        if not b:
            return self.prod(f, env)
        names = [q for q, _ in b]
        # choose the next variable whose size is closed under env
        for i, (q, sz) in enumerate(b):
            if not any(v in names for v in sz.fv):
                break
        rest = b[:i] + b[i + 1:]
        rn = {x for x, _ in rest}
        now = [t for t in f if not (t[0].fv & rn)]
        later = [t for t in f if t[0].fv & rn]
        n = self.int(self.expr(sz, env))
        tot = 0
        env = dict(env)
        for k in range(n):
            self.tick()
            env[q] = k
            p = self.prod(now, env)
            if p != 0:
                tot += p * self.nested(rest, later, env) if rest or later else p
        return tot

    def arr(self, a):
        dims = [self.int(self.expr(d, {})) for d in a.dims]
        out = {}
        for ix in itertools.product(*[range(d) for d in dims]):
            env = {"@%d" % i: k for i, k in enumerate(ix)}
            out[ix] = complex(self.expr(a.body, env))
        return dims, out


# ------------------------------------------------------------------ small dense linear algebra
def det(n, a):
    m = [[complex(a[(i, j)]) for j in range(n)] for i in range(n)]
    d = 1
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-13:
            return 0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            f = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= f * m[i][c]
    return d


def inv(n, a):
    m = [[complex(a[(i, j)]) for j in range(n)] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-12:
            raise EvalError("singular")
        m[i], m[p] = m[p], m[i]
        f = m[i][i]
        m[i] = [x / f for x in m[i]]
        for r in range(n):
            if r != i:
                f = m[r][i]
                if f:
                    m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return {(i, j): m[i][n + j] for i in range(n) for j in range(n)}


def expm(n, a):
    big = max([abs(v) for v in a.values()] + [0])
    if big > 40:
        raise EvalError("expm magnitude")
    s = max(0, int(math.ceil(math.log(big * n + 1e-30, 2))) + 3) if big > 0.1 else 0
    m = [[complex(a[(i, j)]) / 2 ** s for j in range(n)] for i in range(n)]
    r = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    t = [row[:] for row in r]
    for k in range(1, 25):
        t = [[sum(t[i][l] * m[l][j] for l in range(n)) / k for j in range(n)] for i in range(n)]
        r = [[r[i][j] + t[i][j] for j in range(n)] for i in range(n)]
    for _ in range(s):
        r = [[sum(r[i][l] * r[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
    return {(i, j): r[i][j] for i in range(n) for j in range(n)}


SCALES = (1.0, 1.6, 0.5, 2.4, 0.25, 1.3)


def differ(a, b, seed=1, trials=16, sizes=None, ints=None, budget=25.0):
    """'same' | ('differ', detail) | ('unknown', why) for two Arr.  Two independent assignments have to tell the terms
    apart before they count as different (guards against cancellation and branch cuts)."""
    why = ""
    agree = 0
    diffs = []
    t0 = time.time()
    for t in range(trials * 6):
        if agree >= trials and not diffs:
            break
        if not diffs and t >= trials * 2:
            break
        if time.time() - t0 > budget * (2 if diffs else 1) and (agree or t > 3):
            break
        ev = Ev((seed, t), sizes(t) if callable(sizes) else sizes, ints, SCALES[t % len(SCALES)])
        try:
            da, va = ev.arr(a)
            db, vb = ev.arr(b)
        except (EvalError, ZeroDivisionError, OverflowError, RecursionError, KeyError) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        d = None
        if da != db:
            d = "shapes %s and %s" % (da, db)
        else:
            scale = max([1e-8] + [abs(x) for x in va.values()] + [abs(x) for x in vb.values()])
            for k in va:
                if abs(va[k] - vb[k]) > 1e-6 * scale:
                    d = "at %s: %s versus %s (sizes %s)" % (
                        k, fmt(va[k]), fmt(vb[k]), {q: v for q, v in sorted(ev.sizes.items())})
                    break
        if d is None:
            agree += 1
        else:
            diffs.append(d)
            if len(diffs) == 2:
                return ("differ", diffs[0])
    if diffs:
        return ("unknown", "told apart only once: " + diffs[0])
    if agree:
        return ("same", "")
    return ("unknown", why)


def fmt(z):
    return "%.6g%+.6gj" % (z.real, z.imag)


def negative(a, seed=1, trials=8, sizes=None, ints=None):
    """can an entry of the array be negative or complex?  ('no'|'yes'|'unknown', detail)"""
    why = ""
    good = 0
    bad = []
    for t in range(trials * 2):
        ev = Ev((seed, "n", t), sizes(t) if callable(sizes) else sizes, ints, SCALES[t % len(SCALES)])
        try:
            _, va = ev.arr(a)
        except (EvalError, ZeroDivisionError, OverflowError, RecursionError, KeyError) as e:
            why = "%s: %s" % (type(e).__name__, e)
            continue
        good += 1
        for k, v in va.items():
            if v.real < -1e-9 * max(1.0, abs(v)) or abs(v.imag) > 1e-7 * max(1e-3, abs(v)):
                bad.append("at %s: %s" % (k, fmt(v)))
                break
        if len(bad) == 2:
            return ("yes", bad[0])
    if good and not bad:
        return ("no", "")
    return ("unknown", why or "; ".join(bad))
