"""Tensor-polynomial normal form.

Abstract values of the value-flow analysis.  A scalar value is an `Expr`: a finite
sum of monomials  coef * SUM_{bound indices} prod(node ** exponent)  kept in a
canonical form (AC of + and *, alpha-equivalence of the bound indices, Kronecker
delta elimination, idempotent 0/1 indicators, exp/log laws).  An array value is an
`Arr`: axis sizes plus an Expr in the axis variables @0, @1, ...

Nothing here executes the analysed program; these are terms.
"""
from fractions import Fraction as F
import hashlib
import itertools
import re

ZERO = (F(0), F(0))
ONE = (F(1), F(0))


class TopError(Exception):
    """value leaves the decidable fragment"""


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    if d == 0:
        raise TopError("division by literal zero")
    return (a[0] / d, -a[1] / d)


def ckey(c):
    if c[1] == 0:
        return str(c[0])
    return "(%s,%sj)" % c


# ------------------------------------------------------------------ registry
class Registry:
    """declared facts about atoms: real / nonneg / symmetric axis groups"""

    def __init__(self):
        self.real = set()
        self.nonneg = set()
        self.sym = {}
        self.ints = set()
        self.herm = {}
        self.local = set()      # atoms whose value differs between ranks
        self.canon = {}         # name -> function(index) -> (representative index, sign); sign 0 for vanishing entries

    def declare(self, name, real=False, nonneg=False, sym=None, herm=None, local=False, canon=None):
        if canon:
            self.canon[name] = canon
        if local:
            self.local.add(name)
        if real or nonneg:
            self.real.add(name)
        if nonneg:
            self.nonneg.add(name)
        if sym:
            self.sym[name] = tuple(sym)
        if herm:
            self.herm[name] = tuple(herm)


REG = Registry()
CACHE = {}


def reset():
    REG.__init__()
    CACHE.clear()


_fresh = itertools.count()


def fresh(prefix="f"):
    return "%s%d" % (prefix, next(_fresh))


# ------------------------------------------------------------------ nodes
class Node:
    __slots__ = ("key", "fv", "_h")
    kind = "?"

    @property
    def h(self):
        try:
            return self._h
        except AttributeError:
            h = 0
            for e in self.children():
                h = max(h, e.h)
            for a in getattr(self, "arrs", ()):
                h = max(h, a.h)
            self._h = h
            return h

    def __eq__(self, o):
        return isinstance(o, Node) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def children(self):
        return ()

    # rebuild as an Expr after substitution in the children
    def subst(self, m):
        raise NotImplementedError

    def conj(self):
        return E_node(self)

    def is_ind(self):
        return False


EMPTY = frozenset()


class IV(Node):
    kind = "iv"
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self.key = name
        self.fv = frozenset((name,))

    def subst(self, m):
        r = m.get(self.name)
        return E_node(self) if r is None else r


class Sym(Node):
    kind = "sym"
    __slots__ = ("name", "cj")

    def __init__(self, name, cj=False):
        if cj and name in REG.real:
            cj = False
        self.name = name
        self.cj = cj
        self.key = "$" + name + ("*" if cj else "")
        self.fv = EMPTY

    def subst(self, m):
        return E_node(self)

    def conj(self):
        return E_node(Sym(self.name, not self.cj))


class El(Node):
    kind = "el"
    __slots__ = ("name", "idx", "cj")

    def __init__(self, name, idx, cj=False):
        idx = tuple(idx)
        if cj and name in REG.real:
            cj = False
        h = REG.herm.get(name)
        if h and cj:
            a, b = h
            l = list(idx)
            l[a], l[b] = l[b], l[a]
            idx = tuple(l)
            cj = False
        for grp in REG.sym.get(name, ()):
            sub = sorted((idx[g] for g in grp), key=lambda e: e.key)
            l = list(idx)
            for g, e in zip(grp, sub):
                l[g] = e
            idx = tuple(l)
        self.name = name
        self.idx = idx
        self.cj = cj
        self.key = name + ("*" if cj else "") + "[" + ",".join(e.key for e in idx) + "]"
        fv = EMPTY
        for e in idx:
            fv = fv | e.fv
        self.fv = fv

    def children(self):
        return self.idx

    def subst(self, m):
        return E_node(El(self.name, [e.subst(m) for e in self.idx], self.cj))

    def conj(self):
        return E_node(El(self.name, self.idx, not self.cj))


class Fn(Node):
    """uninterpreted / lightly interpreted scalar function of scalar Exprs"""
    kind = "fn"
    __slots__ = ("name", "args")
    REALV = {"abs", "max", "min", "clip", "len", "unf", "fuse", "norm", "angle", "fact", "idiv", "mod",
             "floor", "ceil", "Win", "int", "psum_len"}
    COMM = {"max", "min"}
    # functions with f(conj x) = conj f(x)
    CJ = {"exp", "log", "sin", "cos", "sinh", "cosh", "tanh", "pow", "laguerre", "gate", "tan", "arctan"}

    def __init__(self, name, args):
        args = tuple(args)
        if name in Fn.COMM:
            args = tuple(sorted(args, key=lambda a: a.key))
        self.name = name
        self.args = args
        self.key = name + "(" + ",".join(a.key for a in args) + ")"
        fv = EMPTY
        for a in args:
            fv = fv | a.fv
        self.fv = fv

    def children(self):
        return self.args

    def subst(self, m):
        return mk_fn(self.name, [a.subst(m) for a in self.args])

    def conj(self):
        if self.name in Fn.REALV:
            return E_node(self)
        if self.name in Fn.CJ:
            return mk_fn(self.name, [a.conj() for a in self.args])
        if self.name == "conj":
            return self.args[0]
        return E_node(Fn("conj", [E_node(self)]))


class Mat(Node):
    """element of a matrix function applied to whole arrays"""
    kind = "mat"
    __slots__ = ("name", "arrs", "idx", "cj", "extra")
    REALV = {"norm"}
    CJ = {"inv", "det", "expm", "rec", "eigvec", "matpow", "solve"}

    def __init__(self, name, arrs, idx, cj=False, extra=""):
        self.name = name
        self.arrs = tuple(close(a) for a in arrs)
        self.idx = tuple(idx)
        self.cj = cj
        self.extra = extra
        if name == "let":
            if cj and extra == "r":
                self.cj = cj = False
            self.key = "let#" + extra + hashlib.sha1(self.arrs[0].key.encode()).hexdigest()[:20]
            if cj:
                self.key += "*"
            self.key += "[" + ",".join(e.key for e in self.idx) + "]"
        else:
            self.key = name + extra + ("*" if cj else "") + "{" + ";".join(a.key for a in self.arrs) + "}[" + ",".join(
                e.key for e in self.idx) + "]"
        fv = EMPTY
        for a in self.arrs:
            fv = fv | a.fv
        for e in self.idx:
            fv = fv | e.fv
        self.fv = fv

    def children(self):
        return self.idx

    def subst(self, m):
        ck = ("m", self.key, tuple(sorted((k, v.key) for k, v in m.items() if k in self.fv)))
        r = CACHE.get(ck)
        if r is None:
            r = CACHE[ck] = mk_mat(self.name, [a.subst(m) for a in self.arrs], [e.subst(m) for e in self.idx], self.cj,
                                   self.extra)
        return r

    def conj(self):
        if self.name in Mat.REALV:
            return E_node(self)
        if self.name in Mat.CJ:
            return mk_mat(self.name, [a.conj() for a in self.arrs], self.idx, self.cj, self.extra)
        return E_node(Mat(self.name, self.arrs, self.idx, not self.cj, self.extra))


class Ind(Node):
    """indicator [e == 0] or [e < 0]"""
    kind = "ind"
    __slots__ = ("op", "e")

    def __init__(self, op, e):
        self.op = op
        self.e = e
        self.key = "[" + e.key + (" ==0]" if op == "eq" else " <0]")
        self.fv = e.fv

    def children(self):
        return (self.e,)

    def subst(self, m):
        return mk_ind(self.op, self.e.subst(m))

    def is_ind(self):
        return True


class Win(Node):
    """indicator [0 <= e < m]"""
    kind = "win"
    __slots__ = ("e", "m")

    def __init__(self, e, m):
        self.e = e
        self.m = m
        self.key = "[0<=" + e.key + "<" + m.key + "]"
        self.fv = e.fv | m.fv

    def children(self):
        return (self.e, self.m)

    def subst(self, m):
        return mk_win(self.e.subst(m), self.m.subst(m))

    def is_ind(self):
        return True


class Bool(Node):
    """uninterpreted boolean"""
    kind = "bool"
    __slots__ = ("name", "args")

    def __init__(self, name, args=()):
        self.name = name
        self.args = tuple(args)
        self.key = "?" + name + "(" + ",".join(a.key for a in self.args) + ")"
        fv = EMPTY
        for a in self.args:
            fv = fv | a.fv
        self.fv = fv

    def children(self):
        return self.args

    def subst(self, m):
        return E_node(Bool(self.name, [a.subst(m) for a in self.args]))

    def is_ind(self):
        return True


class Num(Node):
    kind = "num"
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p
        self.key = "#%d" % p
        self.fv = EMPTY

    def subst(self, m):
        return E_node(self)


class Par(Node):
    """multi-term base of a power"""
    kind = "par"
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e
        self.key = "<" + e.key + ">"
        self.fv = e.fv

    def children(self):
        return (self.e,)

    def subst(self, m):
        return self.e.subst(m)

    def conj(self):
        return self.e.conj()


# ------------------------------------------------------------------ Expr
class Expr:
    """terms: dict mono-key -> (coef, bounds, factors)
       bounds: tuple[(name, size Expr)], factors: tuple[(Node, exponent Fraction)]"""
    __slots__ = ("terms", "_key", "_fv", "_h")

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._fv = None
        self._h = None

    @property
    def h(self):
        """nesting height of the closed arrays inside"""
        if self._h is None:
            h = 0
            if "{" in self.key or "let#" in self.key:
                for c, b, f in self.terms.values():
                    for n, _ in f:
                        h = max(h, n.h)
                    for _, sz in b:
                        h = max(h, sz.h)
            self._h = h
        return self._h

    @property
    def key(self):
        if self._key is None:
            if not self.terms:
                self._key = "0"
            else:
                parts = []
                for k in sorted(self.terms):
                    c = self.terms[k][0]
                    parts.append(k if c == ONE else (ckey(c) + ("*" + k if k else "")))
                    if k == "" and c == ONE:
                        parts[-1] = "1"
                self._key = "+".join(parts) if len(parts) == 1 else "(" + " + ".join(parts) + ")"
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            fv = EMPTY
            for c, b, f in self.terms.values():
                s = EMPTY
                for n, _ in f:
                    s = s | n.fv
                for nm, sz in b:
                    s = s | sz.fv
                s = s - {nm for nm, _ in b}
                fv = fv | s
            self._fv = fv
        return self._fv

    def __eq__(self, o):
        return isinstance(o, Expr) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def is_const(self):
        return all(k == "" for k in self.terms)

    def const(self):
        if not self.terms:
            return ZERO
        return self.terms[""][0]

    def is_zero(self):
        return not self.terms

    def as_int(self):
        if self.is_const():
            c = self.const()
            if c[1] == 0 and c[0].denominator == 1:
                return int(c[0])
        return None

    def as_frac(self):
        if self.is_const():
            c = self.const()
            if c[1] == 0:
                return c[0]
        return None

    def single_iv(self):
        """name if this Expr is exactly one index variable"""
        if len(self.terms) == 1:
            (c, b, f), = self.terms.values()
            if c == ONE and not b and len(f) == 1 and f[0][1] == 1 and f[0][0].kind == "iv":
                return f[0][0].name
        return None

    # -- arithmetic
    def __add__(self, o):
        if not self.terms:
            return o
        if not o.terms:
            return self
        t = dict(self.terms)
        for k, (c, b, f) in o.terms.items():
            if k in t:
                nc = cadd(t[k][0], c)
                if nc == ZERO:
                    del t[k]
                else:
                    t[k] = (nc, b, f)
            else:
                t[k] = (c, b, f)
        return Expr(t)

    def __neg__(self):
        return self.scale((F(-1), F(0)))

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == ZERO:
            return E0
        if c == ONE:
            return self
        return Expr({k: (cmul(c, t[0]), t[1], t[2]) for k, t in self.terms.items()})

    def __mul__(self, o):
        if not self.terms or not o.terms:
            return E0
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        if len(self.terms) * len(o.terms) > 6000:
            raise TopError("expression too large")
        acc = Acc()
        for c1, b1, f1 in self.terms.values():
            for c2, b2, f2 in o.terms.values():
                acc.add_raw(cmul(c1, c2), *_merge(b1, f1, b2, f2))
        return acc.expr()

    def power(self, p):
        p = F(p)
        if p == 0:
            return E1
        if p == 1:
            return self
        if p.denominator == 1 and p > 0 and (len(self.terms) > 1 or any(t[1] for t in self.terms.values())):
            if len(self.terms) > 1 and p > 6:
                return E_pow_node(Par(self), p)
            r = self
            for _ in range(int(p) - 1):
                r = r * self
            return r
        if not self.terms:
            if p > 0:
                return E0
            raise TopError("0 ** negative")
        if len(self.terms) == 1:
            (c, b, f), = self.terms.values()
            if not b:
                # (c * prod n^e)^p
                if p.denominator == 1 or not f or (len(f) == 1 and c[1] == 0 and c[0] > 0 and abs(f[0][1]) <= 1
                                                   and abs(p) < 1):
                    r = const_power(c, p)
                    acc = Acc()
                    acc.add_raw(ONE, (), [(n, e * p) for n, e in f])
                    return r * acc.expr()
                pulled, rest = _pos_split(f, p)
                if pulled is None and c[1] == 0 and c[0] > 0 and c != ONE:
                    return const_power(c, p) * self.scale(cinv(c)).power(p)
                if pulled is not None:
                    acc = Acc()
                    acc.add_raw(c, (), rest)
                    return pulled * acc.expr().power(p)
                return E_pow_node(Par(self), p)
        # factor the content out
        c0, red = content(self)
        if p.denominator != 1 and not (c0[1] == 0 and c0[0] > 0) and not is_pos(red):
            m = abs(c0[0]) if c0[1] == 0 else abs(c0[1])
            c0, red = (m, F(0)), self.scale((1 / m, F(0)))
        if c0 != ONE:
            return const_power(c0, p) * red.power(p)
        g = self._common()
        if g is not None and p.denominator != 1:
            (gc, gb, gf), = g.terms.values()
            pulled, rest = _pos_split(gf, p)
            if pulled is None:
                g = None
            else:
                acc = Acc()
                acc.add_raw(ONE, (), [(n, e) for n, e in gf if not any(n.key == m.key for m, _ in rest)])
                return pulled * (self * acc.expr().power(-1)).power(p)
        if g is not None:
            return g.power(p) * (self * g.power(-1)).power(p)
        return E_pow_node(Par(self), p)

    def _common(self):
        """a common monomial factor of all terms (free nodes only), or None"""
        if len(self.terms) < 2:
            # single term with bound sum: pull the factors that do not use the bounds
            (c, b, f), = self.terms.values()
            bn = {n for n, _ in b}
            out = [(n, e) for n, e in f if not (n.fv & bn) and not n.is_ind()]
            if out:
                acc = Acc()
                acc.add_raw(ONE, (), out)
                return acc.expr()
            return None
        common = None
        for c, b, f in self.terms.values():
            bn = {n for n, _ in b}
            d = {}
            for n, e in f:
                if n.is_ind() or (n.fv & bn):
                    continue
                d[n.key] = (n, e)
            if common is None:
                common = d
            else:
                nc = {}
                for k, (n, e) in common.items():
                    if k in d and (e > 0) == (d[k][1] > 0):
                        nc[k] = (n, min(e, d[k][1], key=abs))
                common = nc
            if not common:
                return None
        acc = Acc()
        acc.add_raw(ONE, (), list(common.values()))
        return acc.expr()

    def __truediv__(self, o):
        return self * o.power(-1)

    def subst(self, m):
        m = {k: v for k, v in m.items() if k in self.fv}
        if not m:
            return self
        return self._map_nodes(lambda n: n.subst(m) if (n.fv & m.keys()) else None, m)

    def _map_nodes(self, fn, m=None):
        """rebuild, replacing nodes by Exprs (fn returns Expr or None to keep)"""
        acc = Acc()
        for c, b, f in self.terms.values():
            b2 = b
            f2 = f
            if b:
                ren = {n: E_iv(fresh()) for n, _ in b}
                b2 = tuple((ren[n].single_iv(), sz.subst(m) if m else sz) for n, sz in b)
                f2 = None
            simple = []
            extra = None
            for n, e in f:
                if b and (n.fv & ren.keys()):
                    r0 = n.subst(ren)
                    cur = (r0, e)
                else:
                    cur = (None, e)
                # renamed node as Expr?
                if cur[0] is not None:
                    ex = cur[0]
                    ex = ex._map_nodes_once(fn) if ex is not None else None
                    p = ex.power(e) if e != 1 else ex
                    extra = p if extra is None else extra * p
                else:
                    r = fn(n)
                    if r is None:
                        simple.append((n, e))
                    else:
                        p = r.power(e) if e != 1 else r
                        extra = p if extra is None else extra * p
            if extra is None:
                acc.add_raw(c, b2, simple)
            else:
                for c3, b3, f3 in extra.terms.values():
                    bb, ff = _merge((), simple, b3, f3)
                    acc.add_raw(cmul(c, c3), tuple(b2) + tuple(bb), ff)
        return acc.expr()

    def _map_nodes_once(self, fn):
        # self is a renamed node (single node Expr normally); apply fn on its top nodes
        return self._map_nodes(fn) if not any(t[1] for t in self.terms.values()) else self._map_nodes(fn)

    def conj(self):
        acc = Acc()
        for c, b, f in self.terms.values():
            b2 = b
            if b:
                ren = {n: E_iv(fresh()) for n, _ in b}
                b2 = tuple((ren[n].single_iv(), sz) for n, sz in b)
                f = [(n.subst(ren), e) for n, e in f]
            else:
                f = [(E_node(n), e) for n, e in f]
            ex = E1
            for ne, e in f:
                cj = E1
                # ne is normally a single node
                cj = _conj_nodeexpr(ne)
                ex = ex * (cj.power(e) if e != 1 else cj)
            for c3, b3, f3 in ex.terms.values():
                bb, ff = _merge((), (), b3, f3)
                acc.add_raw(cmul((c[0], -c[1]), c3), tuple(b2) + tuple(bb), ff)
        return acc.expr()

    def real(self):
        return (self + self.conj()).scale((F(1, 2), F(0)))

    def imag(self):
        return (self - self.conj()).scale((F(0), F(-1, 2)))

    def is_real(self):
        return self == self.conj()


def _pos_split(f, p):
    """split prod n^e for a fractional power p: (non-negative part)^p as an Expr (None if there is none), other factors"""
    pulled = None
    rest = []
    fs = list(f)
    while fs:
        n, e = fs.pop(0)
        r = None
        if node_pos(n):
            r = E_pow_node(n, e * p)
        elif e.denominator == 1 and e.numerator % 2 == 0 and node_real(n):
            r = mk_abs(E_node(n)).power(e * p)
        else:
            cj = n.conj()
            ck = next((i for i, (m, e2) in enumerate(fs) if e2 == e and m.key == cj.key), None)
            if ck is not None:
                fs.pop(ck)
                r = mk_abs(E_node(n)).power(2 * e * p)
        if r is None:
            rest.append((n, e))
        else:
            pulled = r if pulled is None else pulled * r
    return pulled, rest


def _conj_nodeexpr(ne):
    if len(ne.terms) == 1:
        (c, b, f), = ne.terms.values()
        if not b:
            r = E_const((c[0], -c[1]))
            for n, e in f:
                cj = n.conj()
                r = r * (cj.power(e) if e != 1 else cj)
            return r
    return ne.conj()


def _merge(b1, f1, b2, f2):
    """product of two monomials with disjoint fresh bound names"""
    if b1:
        ren = {n: E_iv(fresh()) for n, _ in b1}
        b1 = tuple((ren[n].single_iv(), sz.subst(ren)) for n, sz in b1)
        f1 = _ren(f1, ren)
    if b2:
        ren = {n: E_iv(fresh()) for n, _ in b2}
        b2 = tuple((ren[n].single_iv(), sz.subst(ren)) for n, sz in b2)
        f2 = _ren(f2, ren)
    return tuple(b1) + tuple(b2), list(f1) + list(f2)


def _ren(f, ren):
    """rename index variables in factors; a renamed node is again one node (with exponent)"""
    out = []
    for n, e in f:
        if n.fv & ren.keys():
            if n.kind == "par":
                out.append((Par(n.e.subst(ren)), e))
                continue
            r = n.subst(ren)
            if len(r.terms) != 1:
                raise TopError("rename changed shape: %s" % r.key)
            (c, b, ff), = r.terms.values()
            if b or c != ONE:
                raise TopError("rename changed shape: %s" % r.key)
            out.extend((nn, ee * e) for nn, ee in ff)
        else:
            out.append((n, e))
    return out


class Acc:
    """accumulates raw monomials into a canonical Expr"""

    def __init__(self):
        self.t = {}

    def add_raw(self, c, bounds, factors):
        if c == ZERO:
            return
        norm_mono(c, tuple(bounds), list(factors), self)

    def put(self, c, bounds, factors, key):
        if c == ZERO:
            return
        if key in self.t:
            nc = cadd(self.t[key][0], c)
            if nc == ZERO:
                del self.t[key]
            else:
                self.t[key] = (nc, bounds, factors)
        else:
            self.t[key] = (c, bounds, factors)

    def expr(self):
        return Expr(self.t)


E0 = Expr({})
E1 = Expr({"": (ONE, (), ())})


def E_const(c):
    if isinstance(c, tuple):
        return E0 if c == ZERO else Expr({"": (c, (), ())})
    if isinstance(c, complex):
        return E_const((F(repr(c.real)) if c.real else F(0), F(repr(c.imag)) if c.imag else F(0)))
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            raise TopError("non-finite literal")
        return E_const((F(repr(c)), F(0)))
    return E_const((F(c), F(0)))


def E_node(n):
    return Expr({n.key: (ONE, (), ((n, F(1)),))})


def E_pow_node(n, p):
    acc = Acc()
    acc.add_raw(ONE, (), [(n, p)])
    return acc.expr()


def E_iv(name):
    return E_node(IV(name))


def E_sym(name, **kw):
    if kw:
        REG.declare(name, **kw)
    return E_node(Sym(name))


def E_el(name, idx):
    return E_node(El(name, idx))


def _factor_int(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def content(e):
    """(g, e/g): a rename-invariant scalar content of e (positive rational gcd, unit phase)"""
    from math import gcd
    num = 0
    den = 1
    pos = neg = 0
    allim = True
    for c, b, f in e.terms.values():
        for x in c:
            if x:
                num = gcd(num, abs(x.numerator))
                den = den * x.denominator // gcd(den, x.denominator)
        if c[0]:
            allim = False
    unit = ONE
    if allim:
        unit = (F(0), F(1))
        e = e.scale((F(0), F(-1)))
    for c, b, f in e.terms.values():
        s = c[0] if c[0] else c[1]
        if s > 0:
            pos += 1
        else:
            neg += 1
    flip = neg > pos
    if neg == pos and not e.fv:
        k0 = min(e.terms)
        c = e.terms[k0][0]
        flip = (c[0] if c[0] else c[1]) < 0
    g = F(num, den)
    if flip:
        g = -g
    if g != 1:
        e = e.scale((1 / g, F(0)))
    return cmul(unit, (g, F(0))), e


def const_power(c, p):
    if p.denominator == 1:
        k = int(p)
        base = c if k >= 0 else cinv(c)
        r = ONE
        for _ in range(abs(k)):
            r = cmul(r, base)
        return E_const(r)
    if c[1] == 0 and c[0] > 0:
        acc = Acc()
        fs = [(Num(q), e * p) for q, e in _factor_int(c[0].numerator).items()]
        fs += [(Num(q), -e * p) for q, e in _factor_int(c[0].denominator).items()]
        acc.add_raw(ONE, (), fs)
        return acc.expr()
    if c[1] == 0 and c[0] < 0 and p.denominator == 2:
        k = p.numerator % 4
        unit = [(F(1), F(0)), (F(0), F(1)), (F(-1), F(0)), (F(0), F(-1))][k]
        return const_power((-c[0], F(0)), p).scale(unit)
    return E_pow_node(Par(E_const(c)), p)


# ------------------------------------------------------------------ monomial normalisation
def _linear_in(e, v):
    """e as a*v + rest with constant a; returns (a, rest) or None"""
    a = F(0)
    rest = {}
    for k, (c, b, f) in e.terms.items():
        hit = [x for x in f if v in x[0].fv] or [1 for nm, sz in b if v in sz.fv]
        if not hit:
            rest[k] = (c, b, f)
            continue
        if b or len(f) != 1 or f[0][1] != 1 or f[0][0].kind != "iv" or c[1] != 0:
            return None
        a += c[0]
    return a, Expr(rest)


def norm_mono(c, bounds, factors, acc):
    """normalise one raw monomial and put the result(s) in acc"""
    work = [(c, bounds, factors)]
    guard = 0
    while work:
        guard += 1
        if guard > 400:
            raise TopError("normalisation does not settle")
        c, bounds, factors = work.pop()
        res = _norm_step(c, bounds, factors)
        if res is None:
            continue
        kind, payload = res
        if kind == "again":
            work.extend(payload)
        else:
            c, bounds, factors = payload
            b, f, key = canon(bounds, factors)
            acc.put(c, b, f, key)


def _expand_into(c, bounds, rest, expr, e):
    """replace a factor by expr**e (an Expr): list of raw monomials"""
    p = expr.power(e) if e != 1 else expr
    out = []
    for c3, b3, f3 in p.terms.values():
        bb, ff = _merge((), rest, b3, f3)
        out.append((cmul(c, c3), tuple(bounds) + tuple(bb), ff))
    return out


def _norm_step(c, bounds, factors):
    # 1. merge equal bases
    c0 = c
    d = {}
    order = []
    for n, e in factors:
        if e == 0:
            continue
        if n.key in d:
            d[n.key][1] += e
        else:
            d[n.key] = [n, e]
            order.append(n.key)
    fs = []
    expargs = None
    for k in order:
        n, e = d[k]
        if e == 0:
            continue
        if n.kind in ("ind", "win", "bool"):
            if e < 0:
                raise TopError("division by indicator")
            fs.append((n, F(1)))
            continue
        if n.kind == "num":
            ip = e.numerator // e.denominator
            if ip:
                c = cmul(c, (F(n.p) ** ip, F(0)))
                e = e - ip
            if e:
                fs.append((n, e))
            continue
        if n.kind == "par":
            if e.denominator == 1 and e > 0 and e <= 6:
                rest = [(d[q][0], d[q][1]) for q in order if q != k]
                return "again", _expand_into(c0, bounds, rest, n.e, e)
            fs.append((n, e))
            continue
        if n.kind == "fn" and n.name == "exp":
            a = n.args[0].scale((e, F(0)))
            expargs = a if expargs is None else expargs + a
            continue
        if n.kind == "fn" and n.name == "abs" and e.denominator == 1 and (e >= 2 or e <= -2):
            half = e.numerator // 2 if e > 0 else -((-e.numerator) // 2)
            rem = e - 2 * half
            sq = (n.args[0] * n.args[0].conj())
            rest = [(d[q][0], d[q][1]) for q in order if q != k]
            if rem:
                rest.append((n, rem))
            return "again", _expand_into(c0, bounds, rest, sq, F(half))
        fs.append((n, e))
    if expargs is not None and not expargs.is_zero():
        # pull out coef*log(x) terms
        pulled = []
        keep = {}
        for k, (cc, bb, ff) in expargs.terms.items():
            if not bb and cc[1] == 0 and len(ff) == 1 and ff[0][1] == 1 and ff[0][0].kind == "fn" and ff[0][0].name == "log":
                pulled.append((ff[0][0].args[0], cc[0]))
            else:
                keep[k] = (cc, bb, ff)
        ke = Expr(keep)
        if pulled:
            rest = list(fs)
            if not ke.is_zero():
                rest.append((Fn("exp", (ke,)), F(1)))
            x = E1
            for base, p in pulled:
                x = x * base.power(p)
            return "again", _expand_into(c, bounds, rest, x, F(1))
        fs.append((Fn("exp", (ke,)), F(1)))
    factors = fs

    # 2. index eliminations on bound variables
    for bi, (bn, sz) in enumerate(bounds):
        users = [i for i, (n, e) in enumerate(factors) if bn in n.fv]
        if not users:
            if any(bn in s.fv for q, s in bounds if q != bn):
                continue
            # sum of a constant: times the size
            nb = bounds[:bi] + bounds[bi + 1:]
            return "again", _expand_into(c, nb, list(factors), sz, F(1))
        for i in users:
            n, e = factors[i]
            if n.kind == "ind" and n.op == "eq":
                lin = _linear_in(n.e, bn)
                if lin and abs(lin[0]) == 1:
                    sol = lin[1].scale((-1 / lin[0], F(0)))
                    nb = bounds[:bi] + bounds[bi + 1:]
                    rest = factors[:i] + factors[i + 1:]
                    m = {bn: sol}
                    ex = mk_win(sol, sz, dict(nb))
                    for n2, e2 in rest:
                        if bn in n2.fv:
                            r = n2.subst(m)
                            ex = ex * (r.power(e2) if e2 != 1 else r)
                        else:
                            pass
                    keep = [(n2, e2) for n2, e2 in rest if bn not in n2.fv]
                    nb = tuple((q, s.subst(m)) for q, s in nb)
                    return "again", _expand_into(c, nb, keep, ex, F(1))
            if n.kind == "win" and bn not in n.m.fv:
                lin = _linear_in(n.e, bn)
                if lin and lin[0] == 1:
                    r = _window(c, bounds, factors, bi, i, lin[1])
                    if r is not None:
                        return "again", r
        # fused index used only through unfuse with one set of dims
        r = _split_fused(c, bounds, factors, bi)
        if r is not None:
            return "again", r
    # 2b. a delta between free index variables: use one representative everywhere else
    bset = {q for q, _ in bounds}
    for i, (n, e) in enumerate(factors):
        if n.kind == "ind" and n.op == "eq":
            cand = sorted((v for v in n.fv if v not in bset), key=_vorder)
            for v in cand:
                lin = _linear_in(n.e, v)
                if not lin or abs(lin[0]) != 1:
                    continue
                sol = lin[1].scale((-1 / lin[0], F(0)))
                if any(_vorder(w) < _vorder(v) for w in sol.fv if w not in bset):
                    continue
                users = [j for j, (n2, e2) in enumerate(factors) if j != i and v in n2.fv]
                ub = any(v in sz.fv for _, sz in bounds)
                if not users and not ub:
                    break
                m = {v: sol}
                ex = E1
                for j in users:
                    n2, e2 = factors[j]
                    r = n2.subst(m)
                    ex = ex * (r.power(e2) if e2 != 1 else r)
                keep = [(n2, e2) for j, (n2, e2) in enumerate(factors) if j not in users]
                nb = tuple((q, s.subst(m)) for q, s in bounds)
                return "again", _expand_into(c, nb, keep, ex, F(1))
    # 3. range facts: indicators decided by the ranges of bound variables
    bd = dict(bounds)
    for i, (n, e) in enumerate(factors):
        if n.kind in ("ind", "win") and (n.fv & bd.keys()):
            v = decide_ind(n, bd)
            if v == 0:
                return None
            if v == 1:
                return "again", [(c, bounds, factors[:i] + factors[i + 1:])]
    # 4. windows over the same variable part: intersect
    wins = [(i, n) for i, (n, e) in enumerate(factors) if n.kind == "win"]
    if len(wins) > 1:
        for a in range(len(wins)):
            for b in range(a + 1, len(wins)):
                i, w1 = wins[a]
                j, w2 = wins[b]
                d = w2.e - w1.e             # w2: -d <= e1 < m2 - d
                if d.fv & w1.e.fv and not d.is_const():
                    continue
                lo = hi = None
                if ge0(d, bd):
                    lo = E0
                elif ge0(-d, bd):
                    lo = -d
                h2 = w2.m - d
                if ge0(h2 - w1.m, bd):
                    hi = w1.m
                elif ge0(w1.m - h2, bd):
                    hi = h2
                if lo is None or hi is None:
                    continue
                rest = [factors[k] for k in range(len(factors)) if k not in (i, j)]
                r = mk_win(w1.e - lo, hi - lo, bd)
                return "again", _expand_into(c, bounds, rest, r, F(1))
    return "done", (c, bounds, factors)


def _vorder(v):
    """preference for elimination: loop variables first, then later axes"""
    if v[0] == "L":
        return (0, v)
    if v[0] in "@%&!":
        return (1, tuple(-ord(ch) for ch in v))
    return (2, v)


def _window(c, bounds, factors, bi, i, o):
    bn, N = bounds[bi]
    n, _ = factors[i]
    m = n.m
    s = -o                      # window is [s, s+m)
    rest = factors[:i] + factors[i + 1:]
    if s.is_zero() and N == m:
        return [(c, bounds, rest)]
    bd = {q: z for q, z in bounds}
    if ge0(s, bd):
        if ge0(N - s - m, bd) or "psum" in s.key:
            L = m
        elif ge0(m - (N - s), bd):
            L = N - s
        else:
            return None
    elif ge0(-s, bd):           # starts below 0: [0, s+m)
        if ge0(N - s - m, bd):
            L = s + m
            if not ge0(L, bd):
                return None
            nb = bounds[:bi] + ((bn, L),) + bounds[bi + 1:]
            return [(c, nb, rest)]
        elif ge0(s + m - N, bd):
            return [(c, bounds, rest)]
        else:
            return None
    else:
        return None
    if s.is_zero():
        nb = bounds[:bi] + ((bn, L),) + bounds[bi + 1:]
        return [(c, nb, rest)]
    t = fresh()
    m_ = {bn: E_iv(t) + s}
    nb = bounds[:bi] + ((t, L),) + bounds[bi + 1:]
    ex = E1
    for n2, e2 in rest:
        if bn in n2.fv:
            r = n2.subst(m_)
            ex = ex * (r.power(e2) if e2 != 1 else r)
    keep = [(n2, e2) for n2, e2 in rest if bn not in n2.fv]
    nb = tuple((q, z.subst(m_) if q != t else z) for q, z in nb)
    return _expand_into(c, nb, keep, ex, F(1))


def _unf_uses(e, v, found):
    """collect ways v occurs in Expr e: 'bare' or dims-key of unf"""
    for c, b, f in e.terms.values():
        for n, ex in f:
            _unf_node(n, v, found)
        for nm, sz in b:
            if v in sz.fv:
                found.add("bare")


def _unf_node(n, v, found):
    if v not in n.fv:
        return
    if n.kind == "iv":
        found.add("bare")
        return
    if n.kind == "fn" and n.name == "unf" and n.args[0].single_iv() == v:
        found.add(tuple(a for a in n.args[2:]))
        return
    if n.kind == "mat":
        for a in n.arrs:
            if v in a.fv:
                for d in a.dims:
                    _unf_uses(d, v, found)
                _unf_uses(a.body, v, found)
    for ch in n.children():
        if v in ch.fv:
            _unf_uses(ch, v, found)


def _split_fused(c, bounds, factors, bi):
    bn, sz = bounds[bi]
    if not any("unf(" in n.key for n, e in factors if bn in n.fv):
        return None
    found = set()
    for n, e in factors:
        _unf_node(n, bn, found)
    if len(found) != 1 or "bare" in found:
        return None
    dims = list(found)[0]
    names = [fresh() for _ in dims]
    fused = mk_fn("fuse", [E_iv(x) for x in names] + list(dims))
    m = {bn: fused}
    nb = bounds[:bi] + tuple(zip(names, dims)) + bounds[bi + 1:]
    ex = E1
    for n2, e2 in factors:
        if bn in n2.fv:
            r = n2.subst(m)
            ex = ex * (r.power(e2) if e2 != 1 else r)
    keep = [(n2, e2) for n2, e2 in factors if bn not in n2.fv]
    return _expand_into(c, nb, keep, ex, F(1))


# ------------------------------------------------------------------ range reasoning
NONNEG_PREFIX = ()


def node_nonneg(n, ranges):
    if n.kind == "iv":
        return True            # every index variable is >= 0
    if n.kind == "sym":
        return n.name in REG.nonneg
    if n.kind == "el":
        return n.name in REG.nonneg
    if n.kind == "fn":
        return n.name in ("abs", "len", "fuse", "unf", "exp_real", "norm", "fact", "psum")
    if n.kind in ("ind", "win", "bool", "num"):
        return True
    if n.kind == "mat":
        return n.name == "norm"
    return False


def ge0(e, ranges=None):
    """provably e >= 0 (sizes and indices are nonnegative; @ and bound vars bounded by size-1)"""
    if e.is_zero():
        return True
    ranges = ranges or {}
    # substitute negative linear occurrences of ranged variables by size-1
    for v in list(e.fv):
        if v in ranges:
            lin = _linear_in(e, v)
            if lin is None:
                return False
            a, rest = lin
            if a < 0:
                e = rest + (ranges[v] - E1).scale((a, F(0)))
            elif a > 0:
                e = rest
    for c, b, f in e.terms.values():
        if c[1] != 0:
            return False
        if c[0] < 0:
            return False
        for n, ex in f:
            if ex.denominator != 1 or (ex < 0) or (ex.numerator % 2 and not node_nonneg(n, ranges)):
                return False
    return True


def decide_ind(n, ranges):
    if n.kind == "win":
        if ge0(n.e, ranges) and ge0(n.m - n.e - E1, ranges):
            return 1
        if ge0(-n.e - E1, ranges) or ge0(n.e - n.m, ranges):
            return 0
        # exact match: e is a variable whose range is m
        v = n.e.single_iv()
        if v and v in ranges and ranges[v] == n.m:
            return 1
        return None
    if n.kind == "ind":
        if n.op == "eq":
            if ge0(n.e - E1, ranges) or ge0(-n.e - E1, ranges):
                return 0
            return None
        if n.op == "lt":
            if ge0(n.e, ranges):
                return 0
            if ge0(-n.e - E1, ranges) and is_intval(n.e):
                return 1
            return None
    return None


def is_intval(e):
    for c, b, f in e.terms.values():
        if c[1] != 0 or c[0].denominator != 1:
            return False
        for n, ex in f:
            if ex.denominator != 1 or ex < 0:
                return False
            if n.kind == "iv":
                continue
            if n.kind == "sym" and (n.name in REG.ints):
                continue
            if n.kind == "el" and n.name in REG.ints:
                continue
            if n.kind == "fn" and n.name in ("len", "fuse", "unf", "psum"):
                continue
            return False
    return True


def mk_win(e, m, ranges=None):
    v = Win(e, m)
    d = decide_ind(v, ranges or {})
    if d == 0:
        return E0
    if d == 1:
        return E1
    return E_node(v)


def mk_ind(op, e):
    """indicator Expr for [e==0] / [e<0]"""
    if e.is_const():
        c = e.const()
        if op == "eq":
            return E1 if c == ZERO else E0
        if c[1] == 0:
            return E1 if c[0] < 0 else E0
    if op == "eq":
        c0, red = content(e)
        e = red
        ne = -e
        if ne.key < e.key:
            e = ne
        if is_intval(e):
            pass
        return E_node(Ind(op, e))
    neg = sum(1 for c, b, f in e.terms.values() if c[0] < 0)
    if is_intval(e):
        if neg > len(e.terms) - neg:
            return E1 - E_node(Ind("lt", -e - E1))
        return E_node(Ind(op, e))
    c0, red = content(e)
    if c0[1] != 0:
        return E_node(Ind(op, e))
    if c0[0] < 0:
        red = -red
    return E_node(Ind(op, red))


# ------------------------------------------------------------------ canonical naming of bound variables
def canon(bounds, factors):
    if not bounds:
        fs = sorted(factors, key=lambda t: (t[0].key, t[1]))
        key = "*".join(n.key if e == 1 else n.key + "^" + str(e) for n, e in fs)
        return (), tuple(fs), key
    names = [n for n, _ in bounds]
    nset = set(names)
    # free b-names in the factors decide where canonical numbering starts
    fvs = EMPTY
    for n, e in factors:
        fvs = fvs | n.fv
    for q, sz in bounds:
        fvs = fvs | sz.fv
    start = 0
    for v in fvs:
        if v not in nset and v[0] == "b" and v[1:].isdigit():
            start = max(start, int(v[1:]) + 1)
    # colour refinement
    col = {n: "s:" + sz.key for n, sz in bounds}
    for _ in range(len(names)):
        new = {}
        for v in names:
            occ = []
            for n, e in factors:
                if v in n.fv:
                    occ.append(render(n, {w: ("!" if w == v else "c" + col[w]) for w in names}) + "^" + str(e))
            new[v] = col[v] + "|" + ";".join(sorted(occ))
        # compress
        ranks = {s: i for i, s in enumerate(sorted(set(new.values())))}
        newc = {v: "%d" % ranks[new[v]] for v in names}
        if len(set(newc.values())) == len(set(col.values())) and _ >= 1:
            col = newc
            break
        col = newc
    groups = {}
    for v in names:
        groups.setdefault(col[v], []).append(v)
    gl = [groups[k] for k in sorted(groups, key=lambda s: int(s) if s.isdigit() else 0)]
    ncand = 1
    for g in gl:
        for i in range(2, len(g) + 1):
            ncand *= i
    best = None
    perms = itertools.product(*[itertools.permutations(g) for g in gl]) if ncand <= 720 else [tuple(map(tuple, gl))]
    for pm in perms:
        order = [v for g in pm for v in g]
        ren = {v: E_iv("b%d" % (start + i)) for i, v in enumerate(order)}
        # two-step renaming avoids clashes with present b-names; the intermediate names are fresh because a factor
        # may itself be canonicalised (and renamed) on the way
        tn = [fresh("t") for _ in order]
        f1 = _ren(factors, {v: E_iv(n) for v, n in zip(order, tn)})
        f2 = _ren(f1, {n: E_iv("b%d" % (start + i)) for i, n in enumerate(tn)})
        fs = sorted(f2, key=lambda t: (t[0].key, t[1]))
        szd = dict(bounds)
        bs = tuple(("b%d" % (start + i), szd[v].subst(ren)) for i, v in enumerate(order))
        key = "S{" + ",".join(n + ":" + s.key for n, s in bs) + "}" + "*".join(
            n.key if e == 1 else n.key + "^" + str(e) for n, e in fs)
        if best is None or key < best[2]:
            best = (bs, tuple(fs), key)
    return best


def render(n, names):
    """key of a node with variables shown by colour; order-insensitive for symmetric positions"""
    if n.kind == "iv":
        return names.get(n.name, n.name)
    if not (n.fv & names.keys()):
        return n.key
    if n.kind == "el":
        parts = [render_e(e, names) for e in n.idx]
        for grp in REG.sym.get(n.name, ()):
            sub = sorted(parts[g] for g in grp)
            for g, s in zip(grp, sub):
                parts[g] = s
        return n.name + ("*" if n.cj else "") + "[" + ",".join(parts) + "]"
    if n.kind == "fn":
        parts = [render_e(e, names) for e in n.args]
        if n.name in Fn.COMM:
            parts.sort()
        return n.name + "(" + ",".join(parts) + ")"
    if n.kind == "mat":
        return n.name + n.extra + "{" + ";".join(
            ",".join(render_e(d, names) for d in a.dims) + "|" + render_e(a.body, names) for a in n.arrs) + "}[" + ",".join(
            render_e(e, names) for e in n.idx) + "]" + ("*" if n.cj else "")
    if n.kind == "bool":
        return "?" + n.name + "(" + ",".join(render_e(e, names) for e in n.args) + ")"
    if n.kind == "ind":
        return "[" + render_e(n.e, names) + n.op + "]"
    if n.kind == "win":
        return "[W" + render_e(n.e, names) + "<" + render_e(n.m, names) + "]"
    if n.kind == "par":
        return "<" + render_e(n.e, names) + ">"
    return n.key


def render_e(e, names):
    if not (e.fv & names.keys()):
        return e.key
    parts = []
    for c, b, f in e.terms.values():
        nm = names
        if b:
            nm = dict(names)
            for q, sz in b:
                nm[q] = "#" + (sz.key)
        parts.append(ckey(c) + "*" + "*".join(sorted(render(n, nm) + "^" + str(ex) for n, ex in f)))
    return "+".join(sorted(parts))


# ------------------------------------------------------------------ smart constructors
def mk_fn(name, args):
    args = list(args)
    a = args[0] if args else None
    if name == "exp":
        if a.is_zero():
            return E1
        acc = Acc()
        acc.add_raw(ONE, (), [(Fn("exp", (a,)), F(1))])
        return acc.expr()
    if name == "log":
        return mk_log(a)
    if name == "abs":
        return mk_abs(a)
    if name == "conj":
        return a.conj()
    if name in ("cos", "cosh"):
        if a.is_zero():
            return E1
        # even: canonical sign
        na = -a
        return E_node(Fn(name, (a if a.key <= na.key else na,)))
    if name in ("sin", "sinh", "tanh", "arctan", "tan"):
        if a.is_zero():
            return E0
        c0, red = content(a)
        if c0[1] == 0 and c0[0] < 0:
            return -E_node(Fn(name, (-a,)))
        return E_node(Fn(name, (a,)))
    if name in ("max", "min"):
        a, b = args
        if a == b:
            return a
        fa, fb = a.as_frac(), b.as_frac()
        if fa is not None and fb is not None:
            return E_const(max(fa, fb) if name == "max" else min(fa, fb))
        return E_node(Fn(name, (a, b)))
    if name == "unf":
        # unf(k, pos, d0, d1, ...)
        k, pos = args[0], args[1].as_int()
        dims = args[2:]
        n = _as_node(k)
        if n is not None and n.kind == "fn" and n.name == "fuse":
            h = len(n.args) // 2
            if tuple(n.args[h:]) == tuple(dims):
                return n.args[pos]
        if len(dims) == 1:
            return k
        if k.is_zero():
            return E0
        return E_node(Fn("unf", args))
    if name == "fuse":
        h = len(args) // 2
        if h == 1:
            return args[0]
        idx, dims = args[:h], args[h:]
        # fuse(unf(k,0),unf(k,1)) = k
        ns = [_as_node(i) for i in idx]
        if all(n is not None and n.kind == "fn" and n.name == "unf" for n in ns):
            k = ns[0].args[0]
            if all(n.args[0] == k and n.args[1].as_int() == p and tuple(n.args[2:]) == tuple(dims) for p, n in enumerate(ns)):
                return k
        # unit dims
        keep = [(i, d) for i, d in zip(idx, dims) if d.as_int() != 1]
        if len(keep) < h:
            if not keep:
                return E0
            if len(keep) == 1:
                return keep[0][0]
            return mk_fn("fuse", [i for i, _ in keep] + [d for _, d in keep])
        if all(i.is_zero() for i in idx):
            return E0
        return E_node(Fn("fuse", args))
    if name == "fact":
        k = a.as_int()
        if k is not None and 0 <= k <= 30:
            r = 1
            for i in range(2, k + 1):
                r *= i
            return E_const(r)
        return E_node(Fn("fact", args))
    if name in ("idiv", "mod"):
        x, y = args[0].as_int(), args[1].as_int()
        if x is not None and y:
            return E_const(x // y if name == "idiv" else x % y)
        return E_node(Fn(name, args))
    if name in ("angle",):
        return E_node(Fn(name, args))
    return E_node(Fn(name, args))


def _as_node(e):
    if len(e.terms) == 1:
        (c, b, f), = e.terms.values()
        if c == ONE and not b and len(f) == 1 and f[0][1] == 1:
            return f[0][0]
    return None


def is_pos(e):
    """provably real and >= 0 (for abs/log/sqrt simplification)"""
    for c, b, f in e.terms.values():
        if c[1] != 0 or c[0] < 0:
            return False
        for n, ex in f:
            if not node_pos(n) and not (ex.denominator == 1 and ex.numerator % 2 == 0 and node_real(n)):
                return False
    return True


def node_pos(n):
    if n.kind == "fn":
        if n.name == "exp":
            return n.args[0].is_real()
        if n.name == "max":
            return any(is_pos(a) for a in n.args)
        return n.name in ("abs", "len", "cosh", "fact", "norm", "psum", "fuse", "unf")
    if n.kind in ("sym", "el"):
        return n.name in REG.nonneg
    if n.kind in ("iv", "num", "ind", "win", "bool"):
        return True
    if n.kind == "mat":
        return n.name == "norm"
    return False


def node_real(n):
    if n.kind in ("iv", "num", "ind", "win", "bool"):
        return True
    if n.kind in ("sym", "el"):
        return n.name in REG.real
    return E_node(n).is_real()


def mk_abs(a):
    if a.is_zero():
        return E0
    if is_pos(a):
        return a
    if len(a.terms) == 1:
        (c, b, f), = a.terms.values()
        if not b:
            r = E1
            if c[1] == 0:
                r = E_const(abs(c[0]))
            elif c[0] == 0:
                r = E_const(abs(c[1]))
            else:
                r = const_power((c[0] ** 2 + c[1] ** 2, F(0)), F(1, 2))
            if len(f) == 1 and f[0][1] == 1:
                n = f[0][0]
                if n.kind == "fn" and n.name == "exp":
                    return r * mk_fn("exp", [n.args[0].real()])
                if node_pos(n):
                    return r * E_node(n)
                # |conj x| = |x|
                base = E_node(n)
                cj = base.conj()
                pick = base if base.key <= cj.key else cj
                if node_real(n):
                    pick = base
                return r * E_node(Fn("abs", (pick,)))
            for n, e in f:
                r = r * mk_abs(E_node(n)).power(e)
            return r
    # canonical sign / phase
    c0, red = content(a)
    if c0 != ONE:
        return mk_abs(E_const(c0)) * mk_abs(red)
    cj = a.conj()
    pick = a if a.key <= cj.key else cj
    return E_node(Fn("abs", (pick,)))


def mk_log(a):
    if a == E1:
        return E0
    if len(a.terms) == 1:
        (c, b, f), = a.terms.values()
        if not b:
            r = E0
            if c != ONE:
                r = r + E_node(Fn("log", (E_const(c),)))
            for n, e in f:
                if n.kind == "fn" and n.name == "exp":
                    r = r + n.args[0].scale((e, F(0)))
                else:
                    r = r + E_node(Fn("log", (E_node(n),))).scale((e, F(0)))
            return r
    return E_node(Fn("log", (a,)))


TRANSPOSABLE = {"inv", "expm"}


def mk_mat(name, arrs, idx, cj=False, extra=""):
    arrs = [close(a) for a in arrs]
    idx = list(idx)
    if name in ("inv", "expm") and len(arrs) == 1 and arrs[0].ndim == 2:
        t = arrs[0].transpose((1, 0))
        if t.key < arrs[0].key:
            arrs = [t]
            idx = [idx[1], idx[0]]
    if name == "det":
        t = arrs[0].transpose((1, 0))
        if t.key < arrs[0].key:
            arrs = [t]
    return E_node(Mat(name, arrs, idx, cj, extra))


LET_WEIGHT = 12
_MU = re.compile(r"mu\d+_")


def weight(e):
    return sum(len(f) for _, _, f in e.terms.values())


def let(a):
    """name a large array value by its content (value numbering): equal contents get equal names"""
    if weight(a.body) <= LET_WEIGHT or _MU.search(a.body.key):
        return a
    ext = "r" if a.body.is_real() else ""
    return Arr(a.dims, E_node(Mat("let", [close(a)], [E_iv("@%d" % i) for i in range(a.ndim)], False, ext)), simp=False)


def esum(body, name, size):
    """SUM_{name < size} body"""
    acc = Acc()
    for c, b, f in body.terms.values():
        bb, ff = _merge((), (), b, f)
        nm = fresh()
        ren = {name: E_iv(nm)}
        ff2 = []
        extra = E1
        for n, e in ff:
            if name in n.fv:
                r = n.subst(ren)
                ff2.extend(_ren([(n, e)], ren))
            else:
                ff2.append((n, e))
        acc.add_raw(c, ((nm, size),) + tuple((q, s.subst(ren)) for q, s in bb), ff2)
    return acc.expr()


def gate(c, a, b):
    if c == E1:
        return a
    if c.is_zero():
        return b
    if a == b:
        return a
    return c * a + (E1 - c) * b


# ------------------------------------------------------------------ arrays
class Arr:
    """dims: tuple[Expr]; body: Expr over @0..@{n-1}"""
    __slots__ = ("dims", "body", "_key", "_fv", "real_dtype")

    def __init__(self, dims, body, simp=True):
        self.dims = tuple(dims)
        if simp and self.dims:
            body = simp_ranges(body, {"@%d" % i: d for i, d in enumerate(self.dims)})
        self.body = body
        self._key = None
        self._fv = None

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def key(self):
        if self._key is None:
            self._key = "A(" + ",".join(d.key for d in self.dims) + ")" + self.body.key
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            fv = self.body.fv - {"@%d" % i for i in range(len(self.dims))}
            for d in self.dims:
                fv = fv | d.fv
            self._fv = fv
        return self._fv

    def __eq__(self, o):
        return isinstance(o, Arr) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def at(self, idx):
        return self.body.subst({"@%d" % i: e for i, e in enumerate(idx)})

    def subst(self, m):
        # the axis variables @0.. of this array are bound here
        own = {"@%d" % i for i in range(self.ndim)}
        m = {k: v for k, v in m.items() if k in self.fv and k not in own}
        if not m:
            return self
        return Arr([d.subst(m) for d in self.dims], self.body.subst(m))

    def conj(self):
        return Arr(self.dims, self.body.conj(), simp=False)

    def transpose(self, perm):
        # result axis k is source axis perm[k]
        b = self.body.subst({"@%d" % p: E_iv("@%d" % k) for k, p in enumerate(perm)})
        return Arr([self.dims[p] for p in perm], b, simp=False)


class Lam:
    """an array nested inside an expression: its axis variables carry the nesting height,
    so that outer axes stay free and substitutable"""
    __slots__ = ("dims", "body", "h", "key", "fv", "vars")

    def __init__(self, dims, body_of, names):
        """body_of: Expr over the (fresh) axis variables names; closed here"""
        self.dims = tuple(dims)
        n = len(self.dims)
        self.h = 1 + max([body_of.h] + [d.h for d in self.dims])
        self.vars = tuple("&%d_%d" % (self.h, i) for i in range(n))
        self.body = body_of.subst({names[i]: E_iv(self.vars[i]) for i in range(n)})
        self.key = "A(" + ",".join(d.key for d in self.dims) + ")" + self.body.key
        fv = self.body.fv - set(self.vars)
        for d in self.dims:
            fv = fv | d.fv
        self.fv = fv

    @property
    def ndim(self):
        return len(self.dims)

    def _open(self):
        names = [fresh("%") + "q" for _ in self.dims]
        return names, self.body.subst({v: E_iv(n) for v, n in zip(self.vars, names)})

    def _close(self, dims, body, names):
        return Lam(dims, body, names)

    def subst(self, m):
        m = {k: v for k, v in m.items() if k in self.fv}
        if not m:
            return self
        ck = ("s", self.key, tuple(sorted((k, v.key) for k, v in m.items())))
        r = CACHE.get(ck)
        if r is None:
            r = CACHE[ck] = self._subst(m)
        return r

    def _subst(self, m):
        names, body = self._open()
        rg = {n: d.subst(m) for n, d in zip(names, self.dims)}
        body = simp_ranges(body.subst(m), rg)
        return self._close([d.subst(m) for d in self.dims], body, names)

    def conj(self):
        ck = ("c", self.key)
        r = CACHE.get(ck)
        if r is None:
            names, body = self._open()
            r = CACHE[ck] = self._close(self.dims, body.conj(), names)
        return r

    def transpose(self, perm):
        ck = ("t", self.key, perm)
        r = CACHE.get(ck)
        if r is None:
            names, body = self._open()
            r = CACHE[ck] = self._close([self.dims[p] for p in perm], body, [names[p] for p in perm])
        return r

    def at(self, idx):
        return self.body.subst(dict(zip(self.vars, idx)))

    def __eq__(self, o):
        return isinstance(o, Lam) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


def close(a):
    """Arr (axes @k) -> Lam"""
    if isinstance(a, Lam):
        return a
    n = a.ndim
    names = [fresh("%") + "q" for _ in range(n)]
    return Lam(a.dims, a.body.subst({"@%d" % i: E_iv(nm) for i, nm in enumerate(names)}), names)


def scalar(e):
    return Arr((), e)


def simp_ranges(e, ranges):
    """drop indicators decided by the ranges of the axis variables"""
    if "[" not in e.key:
        return e
    need = False
    for c, b, f in e.terms.values():
        for n, ex in f:
            if n.kind in ("ind", "win") and (n.fv & ranges.keys()):
                need = True
    if not need:
        return e

    acc = Acc()
    for c, b, f in e.terms.values():
        dead = False
        keep = []
        rg = dict(ranges)
        rg.update(dict(b))
        for n, ex in f:
            if n.kind in ("ind", "win"):
                v = decide_ind(n, rg)
                if v == 0:
                    dead = True
                    break
                if v == 1:
                    continue
            keep.append((n, ex))
        if not dead:
            acc.add_raw(c, b, keep)
    return acc.expr()
