"""Models of numpy / scipy / builtin operations over the tensor-polynomial domain."""
import itertools
import math
from fractions import Fraction as F

from . import nf
from .nf import (E0, E1, Arr, E_const, E_el, E_iv, E_node, E_sym, Expr, Fn, Mat, REG, TopError, esum, fresh, gate,
                 mk_abs, mk_fn, mk_ind, mk_mat, mk_win)
from .interp import (AV, Bound, Builtin, CDict, CEnv, ClassVal, CList, CObj, CRec, CSym, Enum, ExtMod, FuncVal, MaskVal, MaskView,
                     Method, ModuleVal, OpaqueStr, Ref, Slice, SymRange, TopV, Tup, Zip, cmp_ind, is_num, num, simp_num)

ax = lambda k: E_iv("@%d" % k)
NPMODS = ("numpy", "autoray", "cupy", "jax.numpy")
ELEM = {
    "exp": lambda b: mk_fn("exp", [b]), "log": lambda b: mk_fn("log", [b]), "sin": lambda b: mk_fn("sin", [b]),
    "cos": lambda b: mk_fn("cos", [b]), "sinh": lambda b: mk_fn("sinh", [b]), "cosh": lambda b: mk_fn("cosh", [b]),
    "tanh": lambda b: mk_fn("tanh", [b]), "tan": lambda b: mk_fn("tan", [b]),
    "sqrt": lambda b: b.power(F(1, 2)), "abs": mk_abs, "absolute": mk_abs, "fabs": mk_abs,
    "conj": lambda b: b.conj(), "conjugate": lambda b: b.conj(), "real": lambda b: b.real(), "imag": lambda b: b.imag(),
    "square": lambda b: b * b, "negative": lambda b: -b, "angle": lambda b: mk_fn("angle", [b]),
    "reciprocal": lambda b: b.power(-1), "factorial": lambda b: mk_fn("fact", [b]), "sign": lambda b: mk_fn("sign", [b]),
    "floor": lambda b: mk_fn("floor", [b]), "ceil": lambda b: mk_fn("ceil", [b]), "arctan": lambda b: mk_fn("arctan", [b]),
    "logical_not": lambda b: E1 - b, "real_if_close": lambda b: b, "isnan": lambda b: E0, "isinf": lambda b: E0,
    "gamma": lambda b: mk_fn("fact", [b - E1]),
}
BIN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
       "matmul": "MatMult", "logical_and": "And", "logical_or": "Or", "floor_divide": "FloorDiv", "mod": "Mod",
       "greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE", "equal": "Eq"}


class NP:
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------ helpers
    def bcast(self, arrs):
        """broadcast Arrs to common dims; returns dims, bodies"""
        n = max(a.ndim for a in arrs)
        dims = []
        for k in range(n):
            d = None
            for a in arrs:
                j = k - (n - a.ndim)
                if j < 0:
                    continue
                x = a.dims[j]
                if x.as_int() == 1:
                    if d is None:
                        d = x
                    continue
                if d is None or d.as_int() == 1:
                    d = x
                elif d != x:
                    if d.as_int() is not None and x.as_int() is not None:
                        self.it.crash("shapes %s and %s do not broadcast" % tuple(
                            "(%s)" % ", ".join(str(q) for q in a.dims) for a in (arrs * 2)[:2]))
                    raise TopError("shape mismatch %s vs %s" % (d, x))
            dims.append(d)
        bodies = []
        for a in arrs:
            m = {}
            for j in range(a.ndim):
                k = j + (n - a.ndim)
                if a.dims[j].as_int() == 1 and dims[k].as_int() != 1:
                    m["@%d" % j] = E0
                elif k != j:
                    m["@%d" % j] = ax(k)
            bodies.append(a.body.subst(m) if m else a.body)
        return dims, bodies

    def map1(self, fn, v, kind="n"):
        it = self.it
        if isinstance(v, TopV):
            return v
        if isinstance(v, MaskView):
            a = it.arr(v.av)
            if isinstance(a, TopV):
                return a
            return MaskVal(Arr(a.dims, fn(a.body)), v.mask)
        if isinstance(v, MaskVal):
            return MaskVal(Arr(v.arr.dims, fn(v.arr.body)), v.mask)
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        return it.new_arr(Arr(a.dims, fn(a.body)), kind)

    def scalar_op(self, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            return a / b
        if op == "Pow":
            p = b.as_frac()
            if p is not None:
                return a.power(p)
            # symbolic exponent
            if a.as_frac() == 1:
                return E1
            if a.is_const() and a.as_frac() == -1:
                return E_node(Fn("m1pow", (b,)))
            return mk_fn("powx", [a, b])
        if op == "FloorDiv":
            x, y = a.as_int(), b.as_int()
            if x is not None and y:
                return E_const(x // y)
            if y is not None and y > 0 and nf.is_intval(a):
                # exact division of every coefficient
                if all((t[0][0] / y).denominator == 1 for t in a.terms.values()):
                    return a.scale((F(1, y), F(0)))
            q = a / b
            if nf.is_intval(q):
                return q
            return mk_fn("idiv", [a, b])
        if op == "Mod":
            return mk_fn("mod", [a, b])
        if op in ("BitAnd", "And"):
            return a * b
        if op in ("BitOr", "Or"):
            return a + b - a * b
        if op == "BitXor":
            return a + b - a * b - a * b
        if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            return cmp_ind(op, a - b)
        raise TopError("operator " + op)

    def binop(self, op, a, b):
        it = self.it
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if isinstance(a, (MaskView, MaskVal)) or isinstance(b, (MaskView, MaskVal)):
            return self.mask_binop(op, a, b)
        if is_num(a) and is_num(b):
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
                if op == "Add":
                    return a + b
                if op == "Sub":
                    return a - b
                if op == "Mult":
                    return a * b
                if op == "FloorDiv" and b:
                    return a // b
                if op == "Mod" and b:
                    return a % b
                if op == "Pow" and b >= 0 and b < 64:
                    return a ** b
                if op == "LShift" and 0 <= b < 128:
                    return a << b
                if op == "RShift" and b >= 0:
                    return a >> b
                if op == "BitAnd":
                    return a & b
                if op == "BitOr":
                    return a | b
                if op == "BitXor":
                    return a ^ b
            if op == "MatMult":
                raise TopError("matmul of scalars")
            return simp_num(self.scalar_op(op, num(a), num(b)))
        if op == "MatMult":
            return self.matmul(a, b)
        x, y = it.arr(a), it.arr(b)
        if isinstance(x, TopV):
            return x
        if isinstance(y, TopV):
            return y
        if op in ("BitAnd", "BitOr") and (self.intlike(a) or self.intlike(b)):
            return self.bits(op, x, y)
        dims, (p, q) = self.bcast([x, y])
        kind = "n"
        if op in ("BitAnd", "BitOr", "And", "Or", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
            kind = "b"
        elif op in ("Add", "Sub", "Mult") and all(getattr(v, "kind", None) == "i" or isinstance(v, int) for v in (a, b)):
            kind = "i"
        return it.new_arr(Arr(dims, self.scalar_op(op, p, q)), kind)

    @staticmethod
    def intlike(v):
        return isinstance(v, int) and not isinstance(v, bool)

    def bits(self, op, x, y):
        """bitwise operation on arrays of known integers"""
        it = self.it
        dims, (p, q) = self.bcast([x, y])
        ns = [d.as_int() for d in dims]
        if any(n is None for n in ns) or len(ns) != 1:
            raise TopError("operator %s" % op)
        vals = []
        for k in range(ns[0]):
            u, v = [e.subst({"@0": E_const(k)}).as_int() for e in (p, q)]
            if u is None or v is None:
                raise TopError("operator %s on unknown integers" % op)
            vals.append(u & v if op == "BitAnd" else u | v)
        return it.new_arr(it.arr(it.new_list(vals)), "i")

    def mask_binop(self, op, a, b):
        it = self.it
        mask = None
        xs = []
        for v in (a, b):
            if isinstance(v, MaskView):
                x = it.arr(v.av)
                mk = v.mask
            elif isinstance(v, MaskVal):
                x, mk = v.arr, v.mask
            elif is_num(v):
                x, mk = Arr((), num(v)), None
            else:
                raise TopError("boolean selection mixed with array")
            if isinstance(x, TopV):
                return x
            if mk is not None:
                if mask is not None and mask != mk:
                    raise TopError("different selections")
                mask = mk
            xs.append(x)
        dims, (p, q) = self.bcast(xs)
        # evaluated under the mask: avoids 0/0 outside
        return MaskVal(Arr(dims, self.scalar_op(op, p, q)), mask)

    def compare(self, op, a, b):
        return self.binop(op, a, b)

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b):
        it = self.it
        x, y = it.arr(a), it.arr(b)
        if isinstance(x, TopV):
            return x
        if isinstance(y, TopV):
            return y
        if x.ndim == 0 or y.ndim == 0:
            raise TopError("matmul of scalars")
        squeeze_l = x.ndim == 1
        squeeze_r = y.ndim == 1
        if squeeze_l:
            x = Arr((E1,) + x.dims, x.body.subst({"@0": ax(1)}))
        if squeeze_r:
            y = Arr(y.dims + (E1,), y.body)
        nb = max(x.ndim, y.ndim) - 2
        K = x.dims[-1]
        if K != y.dims[-2]:
            raise TopError("matmul shapes %s %s" % (K, y.dims[-2]))
        s = fresh("s")
        mx = {"@%d" % (x.ndim - 2): ax(nb), "@%d" % (x.ndim - 1): E_iv(s)}
        my = {"@%d" % (y.ndim - 2): E_iv(s), "@%d" % (y.ndim - 1): ax(nb + 1)}
        dims = []
        for k in range(nb):
            jx = k - (nb - (x.ndim - 2))
            jy = k - (nb - (y.ndim - 2))
            d = None
            for arr, j, m in ((x, jx, mx), (y, jy, my)):
                if j < 0:
                    continue
                dj = arr.dims[j]
                if dj.as_int() != 1:
                    if d is not None and d != dj:
                        raise TopError("matmul batch")
                    d = dj
            if d is None:
                d = E1
            for arr, j, m in ((x, jx, mx), (y, jy, my)):
                if j >= 0:
                    m["@%d" % j] = E0 if (arr.dims[j].as_int() == 1 and d.as_int() != 1) else ax(k)
            dims.append(d)
        body = esum(x.body.subst(mx) * y.body.subst(my), s, K)
        dims += [x.dims[-2], y.dims[-1]]
        r = Arr(dims, body)
        if squeeze_l:
            r = self._drop(r, nb)
            if squeeze_r:
                r = self._drop(r, nb)
        elif squeeze_r:
            r = self._drop(r, nb + 1)
        return it.new_arr(r)

    def _drop(self, a, k):
        m = {"@%d" % k: E0}
        for j in range(k + 1, a.ndim):
            m["@%d" % j] = ax(j - 1)
        return Arr(a.dims[:k] + a.dims[k + 1:], a.body.subst(m))

    def dot(self, a, b):
        it = self.it
        x, y = it.arr(a), it.arr(b)
        if isinstance(x, TopV):
            return x
        if isinstance(y, TopV):
            return y
        if x.ndim == 0 or y.ndim == 0:
            return self.binop("Mult", a, b)
        K = x.dims[-1]
        ya = 0 if y.ndim == 1 else y.ndim - 2
        if K != y.dims[ya]:
            raise TopError("dot shapes %s %s" % (K, y.dims[ya]))
        return it.new_arr(self._tdot(x, y, [x.ndim - 1], [ya]))

    def _tdot(self, x, y, xa, ya):
        names = [fresh("s") for _ in xa]
        mx, my = {}, {}
        dims = []
        k = 0
        for j in range(x.ndim):
            if j in xa:
                mx["@%d" % j] = E_iv(names[xa.index(j)])
            else:
                mx["@%d" % j] = ax(k)
                dims.append(x.dims[j])
                k += 1
        for j in range(y.ndim):
            if j in ya:
                my["@%d" % j] = E_iv(names[ya.index(j)])
            else:
                my["@%d" % j] = ax(k)
                dims.append(y.dims[j])
                k += 1
        body = x.body.subst(mx) * y.body.subst(my)
        for nm, j in zip(names, xa):
            body = esum(body, nm, x.dims[j])
        return Arr(dims, body)

    def tensordot(self, a, b, axes=2):
        it = self.it
        x, y = it.arr(a), it.arr(b)
        if isinstance(x, TopV):
            return x
        if isinstance(y, TopV):
            return y
        if isinstance(axes, int):
            xa = list(range(x.ndim - axes, x.ndim))
            ya = list(range(axes))
        else:
            p, q = it.items(axes)
            xa = [p] if isinstance(p, int) else it.items(p)
            ya = [q] if isinstance(q, int) else it.items(q)
        xa = [j % x.ndim for j in xa]
        ya = [j % y.ndim for j in ya]
        for i, j in zip(xa, ya):
            if x.dims[i] != y.dims[j]:
                raise TopError("tensordot shapes")
        return it.new_arr(self._tdot(x, y, xa, ya))

    def einsum(self, args, kw):
        it = self.it
        if not isinstance(args[0], str):
            raise TopError("einsum spec")
        spec = args[0].replace(" ", "")
        ops = [it.arr(a) for a in args[1:]]
        for o in ops:
            if isinstance(o, TopV):
                return o
        if "->" in spec:
            lhs, rhs = spec.split("->")
        else:
            lhs = spec
            allc = lhs.replace(",", "").replace(".", "")
            rhs = "".join(sorted(c for c in set(allc) if allc.count(c) == 1))
        ins = lhs.split(",")
        if len(ins) != len(ops):
            raise TopError("einsum arity")
        if "..." in spec:
            ell = 0
            for s, o in zip(ins, ops):
                if "..." in s:
                    ell = max(ell, o.ndim - (len(s) - 3))
            el = "".join(chr(0x391 + k) for k in range(ell))
            ins2 = []
            for s, o in zip(ins, ops):
                if "..." in s:
                    k = o.ndim - (len(s) - 3)
                    ins2.append(s.replace("...", el[ell - k:]))
                else:
                    ins2.append(s)
            ins = ins2
            rhs = rhs.replace("...", el) if "..." in rhs else el + rhs
        dim = {}
        names = {c: "e" + fresh("s") for s in ins for c in s}
        body = None
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                raise TopError("einsum rank %s" % spec)
            m = {}
            for j, c in enumerate(s):
                d = o.dims[j]
                if c in dim:
                    if dim[c] != d:
                        if d.as_int() == 1:
                            m["@%d" % j] = E0
                            continue
                        if dim[c].as_int() == 1:
                            raise TopError("einsum broadcast")
                        if d.as_int() is not None and dim[c].as_int() is not None:
                            it.crash("einsum %s: axis %s has sizes %s and %s" % (spec, c, dim[c], d))
                        raise TopError("einsum shapes %s: %s vs %s" % (spec, dim[c], d))
                else:
                    dim[c] = d
                m["@%d" % j] = E_iv(names[c])
            b = o.body.subst(m)
            body = b if body is None else body * b
            # sum out indices used by nobody later
        for c in sorted(names):
            if c not in rhs:
                body = esum(body, names[c], dim[c])
        body = body.subst({names[c]: ax(k) for k, c in enumerate(rhs)})
        r = it.new_arr(Arr([dim[c] for c in rhs], body))
        if isinstance(kw.get("out"), AV):
            it.store_all(kw["out"], r)
            return kw["out"]
        return r

    def batched(self, name, a, nidx, extra=""):
        """matrix function on the last two axes -> Expr at idx"""
        n = a.ndim
        nms = [nf.fresh("%") + "q", nf.fresh("%") + "q"]
        body2 = a.body.subst({"@%d" % (n - 2): E_iv(nms[0]), "@%d" % (n - 1): E_iv(nms[1])})
        lam = nf.Lam(a.dims[-2:], body2, nms)
        return lam

    def linalg(self, name, args, kw):
        it = self.it
        a = it.arr(args[0])
        if isinstance(a, TopV):
            return a
        n = a.ndim
        if name == "norm":
            if len(args) > 1 or kw:
                raise TopError("norm options")
            body = esum_all(mk_abs(a.body).power(2), a.dims)
            return body.power(F(1, 2))
        if n < 2:
            raise TopError("linalg on vector")
        lam = self.batched(name, a, 2)
        if name in ("inv", "expm"):
            return it.new_arr(Arr(a.dims, mk_mat(name, [lam], [ax(n - 2), ax(n - 1)])))
        if name == "pinv":
            return it.new_arr(Arr(a.dims[:-2] + (a.dims[-1], a.dims[-2]), mk_mat("pinv", [lam], [ax(n - 2), ax(n - 1)])))
        if name == "det":
            return it.new_arr(Arr(a.dims[:-2], mk_mat("det", [lam], [])))
        if name == "slogdet":
            d = mk_mat("det", [lam], [])
            ab = mk_abs(d)
            return Tup((it.new_arr(Arr(a.dims[:-2], d / ab)), it.new_arr(Arr(a.dims[:-2], mk_fn("log", [ab])))))
        if name == "solve":
            b = it.arr(args[1])
            if isinstance(b, TopV):
                return b
            inv = it.new_arr(Arr(a.dims, mk_mat("inv", [lam], [ax(n - 2), ax(n - 1)])))
            return self.matmul(inv, args[1])
        if name in ("eigh", "eig"):
            w = it.new_arr(Arr(a.dims[:-1], E_node(Mat("eigval", [lam], [ax(n - 2)], False, name))))
            v = it.new_arr(Arr(a.dims, E_node(Mat("eigvec", [lam], [ax(n - 2), ax(n - 1)], False, name))))
            return Tup((w, v))
        if name in ("eigvalsh", "eigvals"):
            return it.new_arr(Arr(a.dims[:-1], E_node(Mat("eigval", [lam], [ax(n - 2)], False, "eigh"))))
        if name == "qr":
            mode = args[1] if len(args) > 1 else kw.get("mode", "reduced")
            full = it.np_scipy_qr if hasattr(it, "np_scipy_qr") else False
            K = a.dims[-1]
            q = it.new_arr(Arr(a.dims[:-2] + (a.dims[-2], K), E_node(Mat("qrQ", [lam], [ax(n - 2), ax(n - 1)]))))
            r = it.new_arr(Arr(a.dims[:-2] + (K, K), E_node(Mat("qrR", [lam], [ax(n - 2), ax(n - 1)]))))
            return Tup((q, r))
        if name == "cholesky":
            return it.new_arr(Arr(a.dims, E_node(Mat("chol", [lam], [ax(n - 2), ax(n - 1)]))))
        if name == "svd":
            return Tup((it.top("svd"), it.top("svd"), it.top("svd")))
        if name == "matrix_power":
            k = simp_num(args[1])
            if isinstance(k, int) and 1 <= k <= 6:
                r = args[0]
                for _ in range(k - 1):
                    r = self.matmul(r, args[0])
                return r
        raise TopError("linalg." + name)

    # ------------------------------------------------------------ shapes
    def dims_of(self, shp):
        it = self.it
        if isinstance(shp, TopV):
            raise TopError("unknown shape")
        if is_num(shp):
            return [num(shp)]
        return [num(x) if not isinstance(x, TopV) else self._bad() for x in it.items(shp)]

    def _bad(self):
        raise TopError("unknown shape")

    def full(self, shp, val, kind="n"):
        return self.it.new_arr(Arr(self.dims_of(shp), val), kind)

    def stack_values(self, items):
        """list of values -> Arr with leading axis"""
        it = self.it
        if not items:
            return Arr((E0,), E0)
        arrs = [it.arr(x) for x in items]
        for a in arrs:
            if isinstance(a, TopV):
                return a
        d = arrs[0].dims
        for a in arrs:
            if a.dims != d:
                raise TopError("ragged stack")
        return self.stack(arrs)

    def stack(self, arrs, axis=0):
        n = arrs[0].ndim
        axis = axis % (n + 1)
        body = E0
        for k, a in enumerate(arrs):
            m = {"@%d" % j: ax(j + 1) for j in range(n) if j >= axis}
            b = a.body.subst(m)
            if len(arrs) > 1:
                b = b * mk_ind("eq", ax(axis) - E_const(k))
            body = body + b
        dims = list(arrs[0].dims)
        dims.insert(axis, E_const(len(arrs)))
        return Arr(dims, body)

    def concat(self, arrs, axis=0):
        n = arrs[0].ndim
        axis = axis % n
        for a in arrs:
            if a.ndim != n or any(a.dims[j] != arrs[0].dims[j] for j in range(n) if j != axis):
                raise TopError("concatenate shapes")
        tot = E0
        body = E0
        for a in arrs:
            b = a.body.subst({"@%d" % axis: ax(axis) - tot}) if not tot.is_zero() else a.body
            body = body + b * mk_win(ax(axis) - tot, a.dims[axis])
            tot = tot + a.dims[axis]
        dims = list(arrs[0].dims)
        dims[axis] = tot
        return Arr(dims, body)

    def reshape_map(self, old, new):
        """index exprs of old axes in terms of new axes"""
        old = list(old)
        new = list(new)
        tot = E1
        for d in old:
            tot = tot * d
        unk = [k for k, d in enumerate(new) if d.as_int() == -1]
        if unk:
            rest = E1
            for k, d in enumerate(new):
                if k != unk[0]:
                    rest = rest * d
            if rest.is_zero():
                raise TopError("reshape")
            q = divide_size(tot, rest)
            if q is None:
                raise TopError("reshape -1: %s / %s" % (tot, rest))
            new[unk[0]] = q
        else:
            t2 = E1
            for d in new:
                t2 = t2 * d
            if t2 != tot:
                for x, y in ((t2, tot), (tot, t2)):
                    r = divide_size(x, y)
                    if r is not None and r.as_int() not in (None, 0, 1):
                        self.it.crash("cannot reshape %s to %s" % ([d.key for d in old], [d.key for d in new]))
                raise TopError("reshape %s -> %s" % (old, new))
        # drop unit axes
        oi = [k for k, d in enumerate(old) if d.as_int() != 1]
        ni = [k for k, d in enumerate(new) if d.as_int() != 1]
        res = {k: E0 for k in range(len(old)) if k not in oi}
        i = j = 0
        while i < len(oi) or j < len(ni):
            if i >= len(oi) or j >= len(ni):
                raise TopError("reshape groups")
            a, b = [oi[i]], [ni[j]]
            pa, pb = old[oi[i]], new[ni[j]]
            i += 1
            j += 1
            while pa != pb:
                # extend the group whose product divides the other
                if i < len(oi) and (divide_size(pb, pa) is not None or j >= len(ni)):
                    pa = pa * old[oi[i]]
                    a.append(oi[i])
                    i += 1
                elif j < len(ni):
                    pb = pb * new[ni[j]]
                    b.append(ni[j])
                    j += 1
                elif i < len(oi):
                    pa = pa * old[oi[i]]
                    a.append(oi[i])
                    i += 1
                else:
                    raise TopError("reshape groups")
            flat = mk_fn("fuse", [ax(k) for k in b] + [new[k] for k in b]) if len(b) > 1 else ax(b[0])
            if len(a) == 1:
                res[a[0]] = flat
            else:
                for p, k in enumerate(a):
                    res[k] = mk_fn("unf", [flat, E_const(p)] + [old[q] for q in a])
        return new, [res[k] for k in range(len(old))]

    def reshape(self, v, shp):
        it = self.it
        new = self.dims_of(shp)
        if isinstance(v, AV):
            dims, mp = self.reshape_map(v.dims, new)
            base = it.st.heap[v.loc]
            if isinstance(base, TopV):
                return AV(v.loc, dims, None, v.kind) if False else base
            imap = v.imap or [ax(k) for k in range(base.ndim)]
            m = {"@%d" % k: e for k, e in enumerate(mp)}
            return AV(v.loc, dims, tuple(e.subst(m) for e in imap), v.kind)
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        dims, mp = self.reshape_map(a.dims, new)
        return it.new_arr(Arr(dims, a.body.subst({"@%d" % k: e for k, e in enumerate(mp)})))

    def transpose(self, v, perm=None):
        it = self.it
        if isinstance(v, AV):
            n = v.ndim
            if perm is None:
                perm = list(range(n))[::-1]
            perm = [p % n for p in perm]
            base = it.st.heap[v.loc]
            if isinstance(base, TopV):
                return base
            imap = v.imap or [ax(k) for k in range(base.ndim)]
            m = {"@%d" % p: ax(k) for k, p in enumerate(perm)}
            return AV(v.loc, [v.dims[p] for p in perm], tuple(e.subst(m) for e in imap), v.kind)
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        if a.ndim == 0:
            return v
        return self.transpose(it.new_arr(a), perm)

    # ------------------------------------------------------------ reductions
    def reduce(self, name, v, axis=None, keepdims=False):
        it = self.it
        if isinstance(v, TopV):
            return v
        if isinstance(v, MaskView):
            a = it.arr(v.av)
            if isinstance(a, TopV):
                return a
            if name != "sum":
                raise TopError("reduction of a selection")
            return simp_num(esum_all(a.body * v.mask.body, a.dims))
        if isinstance(v, MaskVal):
            if name != "sum":
                raise TopError("reduction of a selection")
            return simp_num(esum_all(v.arr.body * v.mask.body, v.arr.dims))
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        n = a.ndim
        if axis is None:
            axes = list(range(n))
        elif isinstance(axis, int):
            axes = [axis % n]
        else:
            axes = [k % n for k in it.items(axis)]
        if name in ("sum", "mean"):
            body = a.body
            names = {k: fresh("s") for k in axes}
            body = body.subst({"@%d" % k: E_iv(names[k]) for k in axes})
            for k in axes:
                body = esum(body, names[k], a.dims[k])
            if name == "mean":
                for k in axes:
                    body = body / a.dims[k]
        elif name in ("max", "min", "prod", "argmax", "argmin", "any", "all", "std", "var"):
            if n == 0:
                return v
            small = a.dims[axes[0]].as_int() if len(axes) == 1 else None
            if small is not None and small <= 8 and name in ("max", "min", "prod"):
                vals = [a.body.subst({"@%d" % axes[0]: E_const(i)}) for i in range(small)]
                body = vals[0]
                for x in vals[1:]:
                    body = body * x if name == "prod" else mk_fn(name, [body, x])
            else:
                nms = [nf.fresh("%") + "q" for _ in axes]
                ph = {"@%d" % k: E_iv(nms[i]) for i, k in enumerate(axes)}
                lam = nf.Lam([a.dims[k] for k in axes], a.body.subst(ph), nms)
                body = E_node(Mat("r" + name, [lam], []))
        else:
            raise TopError("reduction " + name)
        if keepdims:
            return it.new_arr(Arr([E1 if k in axes else d for k, d in enumerate(a.dims)], body))
        m = {}
        dims = []
        for k in range(n):
            if k not in axes:
                m["@%d" % k] = ax(len(dims))
                dims.append(a.dims[k])
        return it.new_arr(Arr(dims, body.subst(m)))

    def trace(self, v, offset=0, axis1=0, axis2=1):
        it = self.it
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        if offset != 0:
            raise TopError("trace offset")
        n = a.ndim
        axis1 %= n
        axis2 %= n
        s = fresh("s")
        m = {}
        dims = []
        for k in range(n):
            if k in (axis1, axis2):
                m["@%d" % k] = E_iv(s)
            else:
                m["@%d" % k] = ax(len(dims))
                dims.append(a.dims[k])
        return it.new_arr(Arr(dims, esum(a.body.subst(m), s, a.dims[axis1])))

    def diag(self, v, k=0):
        it = self.it
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        if a.ndim == 1:
            n = a.dims[0]
            if k == 0:
                return it.new_arr(Arr((n, n), a.body * mk_ind("eq", ax(0) - ax(1))))
            kk = abs(k)
            N = n + E_const(kk)
            # element (i, i+k) = v[i]
            if k > 0:
                return it.new_arr(Arr((N, N), a.body * mk_ind("eq", ax(1) - ax(0) - E_const(k)) * mk_win(ax(0), n)))
            return it.new_arr(Arr((N, N), a.body.subst({"@0": ax(1)}) * mk_ind("eq", ax(0) - ax(1) - E_const(kk)) * mk_win(ax(1), n)))
        if a.ndim == 2 and k == 0:
            return it.new_arr(Arr((a.dims[0],), a.body.subst({"@1": ax(0)})))
        raise TopError("diag")

    # ------------------------------------------------------------ indexing
    def norm_idx(self, v, i):
        """index tuple with Ellipsis expanded"""
        idx = list(i) if isinstance(i, tuple) else [i]
        used = 0
        for x in idx:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, AV) and x.kind == "b":
                used += x.ndim
            else:
                used += 1
        out = []
        seen = False
        for x in idx:
            if x is Ellipsis:
                out += [Slice(None, None, None)] * (v.ndim - used)
                seen = True
            else:
                out.append(x)
        if not seen:
            out += [Slice(None, None, None)] * (v.ndim - used)
        return out

    def pos(self, x, d):
        """normalise a scalar position"""
        x = num(x)
        k = x.as_int()
        if k is not None and k < 0:
            return d + x
        # expressions with a negative constant and nothing else negative stay as they are
        return x

    def slice_bounds(self, s, d):
        step = 1 if s.step is None else simp_num(s.step)
        if isinstance(step, TopV) or isinstance(s.lo, TopV) or isinstance(s.hi, TopV):
            raise TopError("slice bound")
        if step == -1 and s.lo is None and s.hi is None:
            return "rev", None, d
        if step == 2 and s.hi is None:
            raise TopError("strided slice")
        if step != 1:
            raise TopError("strided slice")
        lo = E0 if s.lo is None else self.pos(s.lo, d)
        hi = d if s.hi is None else self.pos(s.hi, d)
        # numpy clips at the end
        kd, kh = d.as_int(), hi.as_int()
        if kd is not None and kh is not None and kh > kd:
            hi = d
        n = hi - lo
        if n.as_int() is not None and n.as_int() < 0:
            n = E0
        return "fwd", lo, n

    def mask_list(self, i):
        """path-sensitive mode: a one-dimensional mask of known length becomes the list of positions it selects"""
        it = self.it
        if isinstance(i, tuple):
            return Tup([self.mask_list(x) for x in i]) if any(isinstance(x, AV) and x.kind == "b" for x in i) else i
        if not (isinstance(i, AV) and i.kind == "b" and i.ndim == 1):
            return i
        n = i.dims[0].as_int()
        mk = it.arr(i)
        if n is None or n > 6 or isinstance(mk, TopV):
            return i
        out = []
        for k in range(n):
            e = mk.body.subst({"@0": E_const(k)})
            c = e.as_frac()
            if (c != 0) if c is not None else it.oracle.decide(e):
                out.append(k)
        if not out:
            raise TopError("empty selection")
        return it.new_arr(self.stack_values([num(k) for k in out]), "i")

    def index(self, v, i):
        it = self.it
        if it.oracle is not None:
            i = self.mask_list(i)
        i = self.all_true(v, i)
        fm = self.axis_mask(v, i)
        if fm is not None:
            a = it.arr(v)
            return a if isinstance(a, TopV) else MaskVal(a, fm)
        sel = self.sel_index(v, i)
        if sel is not None:
            r = self.index(v, sel[0])
            if isinstance(r, TopV):
                return r
            r = it.arr(r)
            return r if isinstance(r, TopV) else MaskVal(r, sel[1])
        if isinstance(i, AV) and i.kind == "b":
            mk = it.arr(i)
            if isinstance(mk, TopV):
                return mk
            if mk.dims == v.dims[:len(mk.dims)]:
                return MaskView(v, Arr(v.dims, mk.body))
            raise TopError("partial boolean index")
        if isinstance(i, Ref):
            c = it.st.heap[i.loc]
            if isinstance(c, CObj) and c.tag == "tri":
                return self.tri_index(v, i, c)
            i = it.new_arr(it.arr(i), "i")
            if isinstance(i, TopV):
                return i
        base = it.st.heap[v.loc]
        if isinstance(base, TopV):
            return base
        idx = self.norm_idx(v, i)
        adv = [x for x in idx if isinstance(x, (AV, Ref)) or (isinstance(x, (tuple,)) and not isinstance(x, Slice))]
        if adv:
            return self.gather(v, idx)
        m = {}
        dims = []
        src = 0
        for x in idx:
            if isinstance(x, TopV):
                return x
            if x is None:
                dims.append(E1)
                continue
            d = v.dims[src]
            if isinstance(x, Slice):
                kind, lo, n = self.slice_bounds(x, d)
                if kind == "rev":
                    m["@%d" % src] = d - E1 - ax(len(dims))
                else:
                    m["@%d" % src] = ax(len(dims)) + lo
                dims.append(n)
            elif is_num(x):
                p = self.pos(x, d)
                kd, kp = d.as_int(), p.as_int()
                if kd is not None and kp is not None and not (0 <= kp < kd):
                    raise TopError("index out of range")
                m["@%d" % src] = p
            else:
                raise TopError("index %s" % type(x).__name__)
            src += 1
        imap = v.imap or [ax(k) for k in range(base.ndim)]
        imap = tuple(e.subst(m) for e in imap)
        if not dims:
            e = base.body.subst({"@%d" % k: x for k, x in enumerate(imap)})
            e = nf.simp_ranges(e, it.ranges)
            if v.kind == "b":
                return e
            return simp_num(e)
        return AV(v.loc, dims, imap, v.kind)

    def gather(self, v, idx):
        it = self.it
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        advs = []
        for x in idx:
            if isinstance(x, TopV):
                return x
            if isinstance(x, (AV, Ref)) or isinstance(x, tuple):
                y = it.arr(x)
                if isinstance(y, TopV):
                    return y
                advs.append(y)
            elif is_num(x):
                advs.append(None)
        arrs = [y for y in advs if y is not None]
        bd, bodies = self.bcast(arrs)
        nb = len(bd)
        # position of the broadcast axes: where the first advanced index is, if contiguous
        first = None
        contiguous = True
        last = None
        for k, x in enumerate(idx):
            isadv = isinstance(x, (AV, Ref, tuple)) or is_num(x)
            if isinstance(x, (AV, Ref, tuple)) or (is_num(x)):
                if first is None:
                    first = k
                elif last != k - 1:
                    contiguous = False
                last = k
        outdims = []
        m = {}
        src = 0
        bi = iter(bodies)
        placed = False
        slots = []
        if not contiguous:
            slots.append("B")
            placed = True
        for k, x in enumerate(idx):
            if x is None:
                slots.append(("new",))
                continue
            if isinstance(x, Slice):
                slots.append(("sl", src, x))
            elif is_num(x):
                m["@%d" % src] = self.pos(x, a.dims[src])
                if not placed:
                    slots.append("B")
                    placed = True
            else:
                m["@%d" % src] = ("adv", next(bi))
                if not placed:
                    slots.append("B")
                    placed = True
            src += 1
        pos = 0
        boff = 0
        for s in slots:
            if s == "B":
                boff = pos
                outdims += bd
                pos += nb
            elif s[0] == "new":
                outdims.append(E1)
                pos += 1
            else:
                kind, lo, n = self.slice_bounds(s[2], a.dims[s[1]])
                m["@%d" % s[1]] = (ax(pos) + lo) if kind == "fwd" else a.dims[s[1]] - E1 - ax(pos)
                outdims.append(n)
                pos += 1
        sh = {"@%d" % j: ax(j + boff) for j in range(nb)}
        for k in list(m):
            if isinstance(m[k], tuple):
                m[k] = m[k][1].subst(sh)
        return it.new_arr(Arr(outdims, a.body.subst(m)), v.kind)

    def tri_indices(self, name, args, kw):
        it = self.it
        n = num(args[0] if args else kw["n"])
        if name == "diag_indices":
            if len(args) > 1 or kw:
                raise TopError("diag_indices")
            a = it.new_arr(Arr((n,), ax(0)), "i")
            return Tup((a, a))
        k = num(args[1] if len(args) > 1 else kw.get("k", 0))
        if len(args) > 2 or set(kw) - {"k", "n"}:
            raise TopError(name)
        kn, kk = n.as_int(), k.as_int()
        if kn is not None and kk is not None:
            pr = [(i, j) for i in range(kn) for j in range(kn) if (j - i >= kk if name == "triu_indices" else j - i <= kk)]
            return Tup((it.new_list([p for p, _ in pr]), it.new_list([q for _, q in pr])))
        d = ax(1) - ax(0) - k
        mask = Arr((n, n), E1 - mk_ind("lt", d if name == "triu_indices" else -d))
        return Tup((MaskVal(Arr((n, n), ax(0)), mask), MaskVal(Arr((n, n), ax(1)), mask)))

    def all_true(self, v, i):
        """a selection that is identically true selects everything"""
        one = not isinstance(i, tuple)
        idx = (i,) if one else i
        if not any(isinstance(x, AV) and x.kind == "b" and x.ndim == 1 for x in idx):
            return i
        out = []
        for x in idx:
            if isinstance(x, AV) and x.kind == "b" and x.ndim == 1:
                m = self.it.arr(x)
                if not isinstance(m, TopV) and m.body == E1:
                    x = Slice(None, None, None)
            out.append(x)
        return out[0] if one else Tup(out)

    def axis_mask(self, v, i):
        """v[:, mask]: the mask of the selected columns over the full shape, or None"""
        if not isinstance(i, tuple) or sum(isinstance(x, AV) and x.kind == "b" for x in i) != 1:
            return None
        k = 0
        for x in i:
            if isinstance(x, AV):
                break
            if not (isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None):
                return None
            k += 1
        if any(not (isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None) for x in i[k + 1:]):
            return None
        mk = self.it.arr(i[k])
        if isinstance(mk, TopV) or mk.ndim != 1 or k >= v.ndim or mk.dims[0] != v.dims[k]:
            return None
        if mk.body == E1:
            return None
        return Arr(v.dims, mk.body.subst({"@0": ax(k)}))

    def sel_index(self, v, i):
        """subscripts with symbolic selections: returns (subscripts with full-shape arrays, mask) or None"""
        idx = i if isinstance(i, tuple) else (i,)
        mask = None
        out = []
        for x in idx:
            if isinstance(x, MaskVal):
                if mask is not None and mask != x.mask:
                    raise TopError("different selections")
                mask = x.mask
                out.append(self.it.new_arr(x.arr, "i"))
            else:
                out.append(x)
        if mask is None:
            return None
        if any(not isinstance(x, MaskVal) and not is_num(x) for x in idx):
            raise TopError("selection mixed with slices")
        return Tup(out), mask

    def tri_index(self, v, i, c):
        raise TopError("triangular index")

    # ------------------------------------------------------------ stores
    def store(self, v, i, val):
        it = self.it
        if isinstance(i, TopV):
            it.havoc_val(v)
            return
        if isinstance(val, TopV):
            it.havoc_val(v)
            return
        fm = self.axis_mask(v, i)
        if fm is not None:
            cur = it.arr(v)
            if isinstance(val, MaskVal) and val.mask == fm and val.arr.dims == fm.dims:
                x = val.arr.body
            elif is_num(val):
                x = num(val)
            else:
                raise TopError("store into selected columns")
            if not isinstance(cur, TopV):
                self.store_view(v, it.new_arr(Arr(cur.dims, gate(fm.body, x, cur.body))))
            return
        sel = self.sel_index(v, i)
        if sel is not None:
            self.sel_store(v, i if isinstance(i, tuple) else (i,), sel[1], val)
            return
        if isinstance(i, AV) and i.kind == "b":
            mk = it.arr(i)
            cur = it.arr(v)
            if isinstance(mk, TopV) or isinstance(cur, TopV):
                it.havoc_val(v)
                return
            if mk.dims != v.dims[:len(mk.dims)]:
                raise TopError("partial boolean store")
            mk = Arr(v.dims, mk.body)
            if isinstance(val, MaskVal):
                if val.mask != mk:
                    raise TopError("different selections")
                x = val.arr
            elif isinstance(val, MaskView):
                x = it.arr(val.av)
            else:
                x = it.arr(val)
                if not isinstance(x, TopV) and x.ndim and x.dims != v.dims:
                    raise TopError("boolean store of an array")
            if isinstance(x, TopV):
                it.havoc_val(v)
                return
            dims, (p, q) = self.bcast([x, cur])
            self.store_view(v, it.new_arr(Arr(cur.dims, gate(mk.body, p, q))))
            return
        if isinstance(i, AV) or isinstance(i, Ref) or (isinstance(i, tuple) and any(isinstance(x, (AV, Ref)) for x in i)):
            self.scatter(v, i, val)
            return
        if isinstance(it.st.heap[v.loc], TopV) and not self.whole(v, i):
            return
        t = self.index_view(v, i)
        self.store_view(t, val)

    def whole(self, v, i):
        full = lambda x: isinstance(x, Slice) and x.lo is None and x.hi is None and x.step is None
        if v.imap is not None:
            return False
        return i is Ellipsis or full(i) or (isinstance(i, tuple) and not isinstance(i, Slice) and all(full(x) or x is Ellipsis for x in i))

    def sel_store(self, v, idx, mask, val):
        """v[p, q] = val for a selection of index pairs; distinct pairs only"""
        it = self.it
        cur = it.arr(v)
        if isinstance(cur, TopV):
            return
        if isinstance(val, MaskVal):
            if val.mask != mask:
                raise TopError("different selections")
            x = val.arr
        elif is_num(val):
            x = Arr((), num(val))
        else:
            raise TopError("store of an array into a selection")
        if len(idx) != cur.ndim:
            raise TopError("selection store")
        m = {}
        cond = E1
        for k, e in enumerate(idx):
            if isinstance(e, MaskVal):
                lin = e.arr.body.single_iv()
                if lin is None or lin in m:
                    raise TopError("selection store")
                m[lin] = ax(k)
            else:
                cond = cond * mk_ind("eq", ax(k) - self.pos(e, cur.dims[k]))
        if len(m) != mask.ndim:
            raise TopError("selection store")
        cond = cond * mask.body.subst(m)
        self.store_view(v, it.new_arr(Arr(cur.dims, gate(cond, x.body.subst(m), cur.body))))

    def index_view(self, v, i):
        """AV view, also for full scalar indexing"""
        it = self.it
        base = it.st.heap[v.loc]
        if isinstance(base, TopV):
            return v
        idx = self.norm_idx(v, i)
        m = {}
        dims = []
        src = 0
        for x in idx:
            if isinstance(x, TopV):
                it.havoc_val(v)
                return v
            if x is None:
                dims.append(E1)
                continue
            d = v.dims[src]
            if isinstance(x, Slice):
                kind, lo, n = self.slice_bounds(x, d)
                if kind == "rev":
                    raise TopError("reversed store")
                m["@%d" % src] = ax(len(dims)) + lo
                dims.append(n)
            elif is_num(x):
                m["@%d" % src] = self.pos(x, d)
            else:
                raise TopError("store index")
            src += 1
        imap = v.imap or [ax(k) for k in range(base.ndim)]
        return AV(v.loc, dims, tuple(e.subst(m) for e in imap), v.kind)

    def store_view(self, v, val):
        it = self.it
        base = it.st.heap[v.loc]
        if isinstance(base, TopV):
            if v.imap is None and not isinstance(val, TopV):
                x = it.arr(val)
                if not isinstance(x, TopV):
                    _, (p, _) = self.bcast([x, Arr(v.dims, E0)])
                    it.st.heap[v.loc] = Arr(v.dims, p)
            return
        x = it.arr(val)
        if isinstance(x, TopV):
            it.st.heap[v.loc] = x
            return
        # leading unit axes of the value may be dropped
        while x.ndim > len(v.dims) and x.dims[0].as_int() == 1:
            x = self._drop(x, 0)
        if x.ndim > len(v.dims):
            raise TopError("store rank")
        dims, (p, _) = self.bcast([x, Arr(v.dims, E0)])
        if tuple(dims) != tuple(v.dims):
            raise TopError("store shape %s into %s" % (dims, v.dims))
        if v.imap is None:
            it.st.heap[v.loc] = Arr(base.dims, p)
            return
        cond, sol = self.invert(v, base)
        newbody = gate(cond, p.subst(sol), base.body) if cond != E1 else p.subst(sol)
        it.st.heap[v.loc] = Arr(base.dims, newbody)

    def invert(self, v, base):
        """imap: view axes -> base axes.  Returns (cond over base axes, view axes in terms of base axes)"""
        n = len(v.dims)
        cond = E1
        sol = {}
        groups = {}
        for k, e in enumerate(v.imap):
            vs = sorted(x for x in e.fv if x.startswith("@"))
            b = E_iv("!%d" % k)
            if not vs:
                if base.dims[k].as_int() == 1:
                    continue
                cond = cond * mk_ind("eq", b - e)
                continue
            if len(vs) == 1 and vs[0] not in sol:
                lin = nf._linear_in(e, vs[0])
                if lin and lin[0] == 1:
                    off = lin[1]
                    sol[vs[0]] = b - off
                    d = v.dims[int(vs[0][1:])]
                    if not (off.is_zero() and d == base.dims[k]):
                        cond = cond * mk_win(b - off, d)
                    continue
                n0 = nf._as_node(e)
                if n0 is not None and n0.kind == "fn" and n0.name == "unf":
                    groups.setdefault((vs[0], tuple(n0.args[2:])), {})[n0.args[1].as_int()] = (k, n0.args[0])
                    continue
            n0 = nf._as_node(e)
            if n0 is not None and n0.kind == "fn" and n0.name == "fuse":
                h = len(n0.args) // 2
                ds = list(n0.args[h:])
                ok = True
                for p, q in enumerate(n0.args[:h]):
                    vv = q.single_iv()
                    if vv is None or vv in sol:
                        ok = False
                        break
                    sol[vv] = mk_fn("unf", [b, E_const(p)] + ds)
                if ok:
                    continue
            raise TopError("store through this view")
        for (vv, ds), parts in groups.items():
            if len(parts) != len(ds) or vv in sol:
                raise TopError("store through reshaped view")
            for p, (k, arg) in parts.items():
                if arg.single_iv() != vv:
                    raise TopError("store through reshaped view")
            sol[vv] = mk_fn("fuse", [E_iv("!%d" % parts[p][0]) for p in range(len(ds))] + list(ds))
        for j in range(n):
            if "@%d" % j not in sol:
                if v.dims[j].as_int() == 1:
                    sol["@%d" % j] = E0
                else:
                    raise TopError("store through broadcast view")
        back = {"!%d" % k: ax(k) for k in range(base.ndim)}
        # simultaneous: substitute '!' by '@' afterwards
        cond = cond.subst(back)
        sol = {k: e.subst(back) for k, e in sol.items()}
        return cond, sol

    def scatter_mixed(self, v, idx, arrs, val):
        """one number stored along one-dimensional index arrays of known length, next to full slices and positions"""
        it = self.it
        if not is_num(val) or all(a is not None for a in arrs) or None in idx:
            return False
        adv = [a for a in arrs if a is not None]
        if any(a.ndim != 1 or a.dims[0].as_int() is None for a in adv) or len({a.dims[0].as_int() for a in adv}) != 1:
            return False
        if any(isinstance(x, Slice) and not self.whole(AV(v.loc, v.dims, None, v.kind), x) for x in idx):
            return False
        for j in range(adv[0].dims[0].as_int()):
            pos = []
            for x, a in zip(idx, arrs):
                pos.append(x if a is None else simp_num(a.body.subst({"@0": E_const(j)})))
            self.store_view(self.index_view(v, Tup(pos)), val)
        return True

    def scatter(self, v, i, val):
        """a[idx] = val with integer index arrays: only diagonal patterns a[arange, arange] = x"""
        it = self.it
        idx = self.norm_idx(v, i)
        arrs = []
        for x in idx:
            if isinstance(x, (AV, Ref)):
                a = it.arr(x)
                if isinstance(a, TopV):
                    it.havoc_val(v)
                    return
                arrs.append(a)
            elif isinstance(x, Slice) or is_num(x):
                arrs.append(None)
            else:
                raise TopError("scatter")
        if self.scatter_mixed(v, idx, arrs, val):
            return
        if not all(a is not None and a.ndim == 1 for a in arrs) or v.imap is not None:
            it.havoc_val(v)
            it.top("scatter store")
            return
        x = it.arr(val)
        cur = it.arr(v)
        if isinstance(x, TopV) or isinstance(cur, TopV):
            it.havoc_val(v)
            return
        n = arrs[0].dims[0]
        s = fresh("s")
        cond = E1
        for k, a in enumerate(arrs):
            lin = nf._linear_in(a.body, "@0")
            if not lin or lin[0] != 1 or lin[1].fv:
                it.havoc_val(v)
                it.top("scatter store")
                return
            cond = cond * mk_ind("eq", ax(k) - a.body.subst({"@0": E_iv(s)}))
        xb = x.body.subst({"@0": E_iv(s)}) if x.ndim == 1 else x.body
        sel = esum(cond, s, n)
        it.st.heap[v.loc] = Arr(cur.dims, cur.body * (E1 - sel) + esum(cond * xb, s, n))

    # ------------------------------------------------------------ attributes
    def arr_attr(self, v, name):
        it = self.it
        if isinstance(v, MaskView):
            if name in ("real", "imag"):
                return self.map1(ELEM[name], v)
            return Method(v, name)
        if name == "shape":
            return Tup(simp_num(d) for d in v.dims)
        if name == "ndim":
            return v.ndim
        if name == "size":
            r = E1
            for d in v.dims:
                r = r * d
            return simp_num(r)
        if name == "T":
            return self.transpose(v)
        if name in ("real", "imag"):
            return self.map1(ELEM[name], v)
        if name == "dtype":
            return OpaqueStr()
        if name == "flat":
            return self.reshape(v, -1)
        if name in ("nbytes", "itemsize"):
            return it.top("nbytes")
        return Method(v, name)

    def num_attr(self, o, name):
        e = num(o)
        if name == "real":
            return simp_num(e.real())
        if name == "imag":
            return simp_num(e.imag())
        if name == "T":
            return o
        if name == "shape":
            return Tup(())
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "dtype":
            return OpaqueStr()
        return Method(o, name)

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw):
        it = self.it
        if isinstance(o, Ref):
            c = it.st.heap[o.loc]
            if isinstance(c, TopV):
                return c
            if isinstance(c, CList):
                return self.list_method(o, c, name, args, kw)
            if isinstance(c, CDict):
                return self.dict_method(o, c, name, args, kw)
            if isinstance(c, CSym):
                if name == "append":
                    it.st.heap[o.loc] = TopV("append to symbolic list")
                    return None
                if name in ("copy",):
                    return o
                raise TopError("symbolic list.%s" % name)
            if isinstance(c, CObj) and c.tag == "comm":
                return self.comm_method(o, c, name, args, kw)
            if isinstance(c, CObj) and c.tag in ("seedseq", "rng"):
                return self.seed_method(o, c, name, args, kw)
            return it.unknown_call(TopV("method %s" % name), [o] + list(args), kw)
        if isinstance(o, (AV, MaskView, Expr, int, float, complex)):
            return self.arr_method(o, name, args, kw)
        if isinstance(o, str):
            return self.str_method(o, name, args, kw)
        if isinstance(o, OpaqueStr):
            if name in ("format", "join", "ljust", "rjust", "center", "strip", "lower", "upper"):
                return OpaqueStr()
            return it.top("string")
        if isinstance(o, tuple):
            if name == "index":
                for k, x in enumerate(o):
                    if it.same(x, args[0]):
                        return k
            if name == "count":
                return sum(1 for x in o if it.same(x, args[0]))
        return it.top("method %s" % name)

    def str_method(self, o, name, args, kw):
        if name in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace", "isdigit", "find", "ljust", "rjust", "center", "capitalize"):
            if all(isinstance(a, (str, int)) for a in args):
                r = getattr(str(o), name)(*args)
                if isinstance(r, list):
                    return self.it.new_list(r)
                return r
        return OpaqueStr()

    def list_method(self, o, c, name, args, kw):
        it = self.it
        if name == "append":
            it.st.heap[o.loc] = CList(c.items + (args[0],))
            return None
        if name == "extend":
            it.st.heap[o.loc] = CList(c.items + tuple(it.items(args[0])))
            return None
        if name == "copy":
            return it.new_list(c.items)
        if name == "insert" and isinstance(args[0], int):
            l = list(c.items)
            l.insert(args[0], args[1])
            it.st.heap[o.loc] = CList(l)
            return None
        if name == "pop":
            l = list(c.items)
            k = args[0] if args else -1
            if isinstance(k, int) and l:
                v = l.pop(k)
                it.st.heap[o.loc] = CList(l)
                return v
        if name == "index":
            for k, x in enumerate(c.items):
                if it.same(x, args[0]):
                    return k
        if name == "reverse":
            it.st.heap[o.loc] = CList(c.items[::-1])
            return None
        it.st.heap[o.loc] = TopV("list.%s" % name)
        return it.top("list.%s" % name)

    def dict_method(self, o, c, name, args, kw):
        it = self.it
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default")
            if isinstance(args[0], TopV):
                return args[0]
            return c.d.get(args[0], d)
        if name == "keys":
            return it.new_list(list(c.d.keys()))
        if name == "values":
            return it.new_list(list(c.d.values()))
        if name == "items":
            return it.new_list([Tup((k, v)) for k, v in c.d.items()])
        if name == "copy":
            return it.new_dict(c.d)
        if name == "update":
            d = dict(c.d)
            for a in args:
                ca = it.st.heap.get(a.loc) if isinstance(a, Ref) else None
                if isinstance(ca, CDict):
                    d.update(ca.d)
                else:
                    it.st.heap[o.loc] = TopV("dict.update")
                    return None
            d.update(kw)
            it.st.heap[o.loc] = CDict(d)
            return None
        if name in ("pop", "setdefault"):
            k = args[0]
            if k in c.d:
                v = c.d[k]
                if name == "pop":
                    d = dict(c.d)
                    del d[k]
                    it.st.heap[o.loc] = CDict(d)
                return v
            v = args[1] if len(args) > 1 else None
            if name == "setdefault":
                d = dict(c.d)
                d[k] = v
                it.st.heap[o.loc] = CDict(d)
            return v
        return it.top("dict.%s" % name)

    def comm_method(self, o, c, name, args, kw):
        """communicator in a many-rank world: reductions are uninterpreted linear sums over ranks"""
        it = self.it
        if name not in ("Get_rank", "Get_size"):
            it.events.append((name, it.st.pc, it.where[-1] if it.where else "?"))
        if name in ("allreduce", "reduce"):
            v = args[0]
            op = kw.get("op", args[1] if len(args) > 1 else None)
            if c.attrs.get("size") == 1:
                return v
            r = self.rank_sum(v)
            if isinstance(op, ExtMod) and not op.path.endswith("SUM"):
                if op.path.rsplit(".", 1)[-1] not in ("MAX", "MIN", "PROD", "LAND", "LOR"):
                    return it.top("allreduce op")
                # not the sum: some other value
                return self.binop("Add", r, it.atom(fresh("rank_" + op.path.rsplit(".", 1)[-1].lower()), (), real=True))
            if name == "reduce":
                # only the root rank receives the sum
                root = kw.get("root", args[2] if len(args) > 2 else 0)
                return self.binop("Mult", r, num(it.compare("Eq", c.attrs.get("rank"), root)))
            return r
        if name in ("Allreduce", "Reduce"):
            if len(args) >= 2 and isinstance(args[1], AV):
                it.store_all(args[1], args[0] if c.attrs.get("size") == 1 else self.rank_sum(args[0]))
                return None
        if name in ("Get_rank",):
            return c.attrs.get("rank")
        if name in ("Get_size",):
            return c.attrs.get("size")
        if name in ("Barrier", "barrier"):
            return None
        if name in ("bcast",):
            return args[0]
        for a in args:
            it.havoc_val(a)
        return it.top("comm.%s" % name)

    def rank_sum(self, v):
        """sum over ranks: R(x), linear: distributes over + and rank-independent scalars are not known, so
        it is kept as an opaque tag on each monomial"""
        it = self.it
        if isinstance(v, TopV):
            return v
        if isinstance(v, Ref) or isinstance(v, tuple):
            v = it.new_arr(it.arr(v))
        if is_num(v):
            return num(rank_sum_e(num(v)))
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        return it.new_arr(Arr(a.dims, rank_sum_e(a.body)))

    def arr_method(self, o, name, args, kw):
        it = self.it
        if name in ("conj", "conjugate"):
            return self.map1(ELEM["conj"], o)
        if name in ("copy", "astype", "view", "toarray", "get", "squeeze"):
            if name == "squeeze":
                return self.squeeze(o)
            if isinstance(o, AV):
                a = it.arr(o)
                k = o.kind
                if name == "astype" and args and isinstance(args[0], Builtin) and args[0].name == "int":
                    k = "i"
                if isinstance(a, TopV):
                    return a
                return it.new_arr(a, k)
            if isinstance(o, MaskView):
                return self.map1(lambda b: b, o)
            return o
        if name in ("sum", "mean", "max", "min", "prod", "any", "all", "argmax", "argmin", "std"):
            return self.reduce(name, o, args[0] if args else kw.get("axis"), kw.get("keepdims", False))
        if name == "dot":
            return self.dot(o, args[0])
        if name == "reshape":
            shp = args[0] if len(args) == 1 else Tup(args)
            return self.reshape(o, shp)
        if name in ("ravel", "flatten"):
            r = self.reshape(o, -1)
            if name == "flatten" and isinstance(r, AV):
                return it.new_arr(it.arr(r), r.kind)
            return r
        if name == "transpose":
            p = args
            if len(args) == 1 and not isinstance(args[0], int):
                p = it.items(args[0])
            return self.transpose(o, list(p) if p else None)
        if name == "swapaxes":
            n = o.ndim
            p = list(range(n))
            a, b = args[0] % n, args[1] % n
            p[a], p[b] = p[b], p[a]
            return self.transpose(o, p)
        if name == "trace":
            return self.trace(o, *args, **kw)
        if name == "fill":
            it.store_all(o, args[0])
            return None
        if name == "tolist":
            a = it.arr(o)
            if isinstance(a, TopV):
                return a
            if a.ndim == 1 and a.dims[0].as_int() is None:
                iv = fresh("L")
                return Ref(it.alloc(CSym(a.dims[0], iv, simp_num(a.body.subst({"@0": E_iv(iv)})))))
            return it.new_list([self.arr_method(x, "tolist", [], {}) if isinstance(x, AV) else x for x in it.items(o)])
        if name == "item":
            if is_num(o):
                return o
            a = it.arr(o)
            return simp_num(a.body.subst({"@%d" % k: E0 for k in range(a.ndim)}))
        if name == "diagonal":
            return self.diag(o)
        if name == "clip":
            return self.clip([o] + list(args), kw)
        if name == "round":
            return o
        if name in ("is_integer",):
            return it.top("is_integer")
        if name == "cumsum":
            return self.cumsum(o)
        if name in ("argsort", "searchsorted"):
            return getattr(self, name)([o] + list(args), kw)
        if name in ("nonzero", "sort", "repeat", "take"):
            if name == "repeat":
                return self.repeat([o] + list(args), kw)
            if name == "sort":
                it.havoc_val(o)
            return it.top("array.%s" % name)
        if name == "resize":
            it.havoc_val(o)
            return None
        return it.top("array.%s" % name)

    def squeeze(self, o):
        a = self.it.arr(o)
        if isinstance(a, TopV):
            return a
        for k in range(a.ndim - 1, -1, -1):
            if a.dims[k].as_int() == 1:
                a = self._drop(a, k)
        return self.it.new_arr(a)

    def argsort(self, args, kw):
        """the ascending order of a known number of entries: every permutation is a path"""
        it = self.it
        a = it.arr(args[0])
        if isinstance(a, TopV):
            return a
        n = a.dims[0].as_int() if a.ndim == 1 else None
        if it.oracle is None or n is None or n > 5:
            return it.top("argsort")
        left, perm = list(range(n)), []
        while left:
            perm.append(left.pop(it.oracle.choose(len(left))))
        v = [a.body.subst({"@0": E_const(p)}) for p in perm]
        for x, y in zip(v, v[1:]):
            if x != y:
                it.oracle.facts.append(num(cmp_ind("LtE", x - y)))
        return it.new_arr(self.stack_values([num(p) for p in perm]))

    def searchsorted(self, args, kw):
        it = self.it
        a, b = it.arr(args[0]), it.arr(args[1])
        if isinstance(a, TopV) or isinstance(b, TopV):
            return it.top("searchsorted")
        side = kw.get("side", args[2] if len(args) > 2 else "left")
        n = a.dims[0].as_int() if a.ndim == 1 else None
        if n is not None and b.ndim == 0 and side in ("left", "right"):
            import bisect
            xs = [a.body.subst({"@0": E_const(k)}).as_frac() for k in range(n)]
            y = b.body.as_frac()
            if y is not None and all(x is not None for x in xs):
                return (bisect.bisect_left if side == "left" else bisect.bisect_right)(xs, y)
        m = 1 if b.ndim == 0 else b.dims[0].as_int() if b.ndim == 1 else None
        if it.oracle is None or n is None or m is None or n > 5 or m > 5 or side not in ("left", "right"):
            return it.top("searchsorted")
        ks = []
        for j in range(m):
            x = b.body.subst({"@0": E_const(j)})
            k = it.oracle.choose(n + 1)
            if k > 0:
                it.oracle.facts.append(num(cmp_ind("Lt" if side == "left" else "LtE", a.body.subst({"@0": E_const(k - 1)}) - x)))
            if k < n:
                it.oracle.facts.append(num(cmp_ind("LtE" if side == "left" else "Lt", x - a.body.subst({"@0": E_const(k)}))))
            ks.append(k)
        return ks[0] if b.ndim == 0 else it.new_arr(self.stack_values([num(k) for k in ks]))

    def cumsum(self, o):
        it = self.it
        a = it.arr(o)
        if isinstance(a, TopV):
            return a
        if a.ndim != 1:
            raise TopError("cumsum")
        s = fresh("s")
        return it.new_arr(Arr(a.dims, esum(a.body.subst({"@0": E_iv(s)}), s, ax(0) + E1)))

    def repeat(self, args, kw):
        it = self.it
        a = it.arr(args[0])
        if isinstance(a, TopV):
            return a
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
        if a.ndim == 0:
            return it.new_arr(Arr((num(args[1]),), a.body))
        if axis is None and a.ndim > 1:
            raise TopError("repeat")
        axis = axis or 0
        if not is_num(args[1]):
            raise TopError("repeat counts")
        if a.dims[axis].as_int() == 1:
            dims = list(a.dims)
            dims[axis] = num(args[1])
            return it.new_arr(Arr(dims, a.body.subst({"@%d" % axis: E0})))
        n, r = a.dims[axis], num(args[1])
        dims = list(a.dims)
        dims[axis] = n * r
        return it.new_arr(Arr(dims, a.body.subst({"@%d" % axis: mk_fn("unf", [ax(axis), E0, n, r])})))

    def clip(self, args, kw):
        it = self.it
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        r = args[0]
        if lo is not None:
            r = self.minmax("max", r, lo)
        if hi is not None:
            r = self.minmax("min", r, hi)
        out = kw.get("out")
        if isinstance(out, AV) and not isinstance(r, TopV):
            it.store_all(out, r)
        return r

    def minmax(self, name, a, b):
        it = self.it
        if isinstance(a, TopV) or isinstance(b, TopV):
            return TopV("minmax")
        x, y = it.arr(a), it.arr(b)
        if isinstance(x, TopV) or isinstance(y, TopV):
            return TopV("minmax")
        dims, (p, q) = self.bcast([x, y])
        return it.new_arr(Arr(dims, mk_fn(name, [p, q])))

    # ------------------------------------------------------------ external attributes and calls
    CONST = {"pi": ("pi", True), "e": ("euler_e", True)}

    def ext_attr(self, o, name):
        p = o.path + "." + name
        base = o.path.split(".")[0]
        if name in ("newaxis",):
            return None
        if base in ("numpy", "math", "scipy") and name == "pi":
            return E_sym("pi", nonneg=True)
        if p in ("numpy.inf", "math.inf", "numpy.nan"):
            return self.it.top("non-finite")
        return ExtMod(p)

    def ext_getitem(self, o, i):
        if o.path == "numpy.r_" and not isinstance(i, Slice):
            parts = list(i) if isinstance(i, Tup) else [i]
            if len(parts) == 1:
                return self.it.as_array(parts[0]) if hasattr(self.it, "as_array") else self.it.new_arr(self.it.arr(parts[0]), "i")
            return self.call_np("concatenate", [Tup(parts)], {})
        if o.path.endswith(".ogrid") or o.path.endswith(".mgrid"):
            parts = i if isinstance(i, tuple) else (i,)
            ns = []
            for x in parts:
                if not isinstance(x, Slice) or x.hi is None or x.step is not None:
                    raise TopError("grid")
                lo = E0 if x.lo is None else num(x.lo)
                ns.append((lo, num(x.hi) - lo))
            out = []
            for k, (lo, n) in enumerate(ns):
                if o.path.endswith(".ogrid"):
                    dims = tuple(n if j == k else E1 for j in range(len(ns)))
                else:
                    dims = tuple(m for _, m in ns)
                out.append(self.it.new_arr(Arr(dims, ax(k) + lo), "i"))
            return out[0] if len(out) == 1 and not isinstance(i, tuple) else Tup(out)
        return self.it.top("subscript of %s" % o.path)

    def ext_call(self, f, args, kw):
        it = self.it
        path = f.path
        parts = path.split(".")
        name = parts[-1]
        it.ext.add((path, it.where[-1] if it.where else "?"))
        if path in it.overrides:
            return it.overrides[path](it, args, kw)
        if parts[0] in ("numpy", "scipy", "math", "autoray", "cupy", "cmath"):
            if "linalg" in parts[:-1] or (parts[0] == "scipy" and name in ("expm",)):
                if name == "block_diag":
                    return self.block_diag(args)
                return self.linalg(name, args, kw)
            if "random" in parts[:-1]:
                return self.rng_call(name, args, kw)
            if name == "einsum":
                return self.einsum(args, kw)
            return self.np_call(name, args, kw)
        if parts[0] == "time" or name in ("time", "perf_counter", "process_time"):
            return E_sym("clock")
        if name == "einsum":
            return self.einsum(args, kw)
        if path in ("pyscf.lib.dot", "pyscf.lib.numpy_helper.dot", "pyscf.lib.ddot"):
            return self.dot(args[0], args[1])
        if path in ("pyscf.lib.tag_array",):
            return args[0]
        if path.endswith("functools.reduce") or name == "reduce":
            seq = it.items(args[1])
            r = seq[0]
            for x in seq[1:]:
                r = it.call(args[0], [r, x], {})
            return r
        if path.startswith(("warnings.", "logging.", "sys.")):
            return None
        if path in ("copy.copy", "copy.deepcopy"):
            v = args[0]
            if isinstance(v, AV):
                return it.new_arr(it.arr(v), v.kind)
            if isinstance(v, Ref):
                c = it.st.heap[v.loc]
                if isinstance(c, CDict):
                    return it.new_dict(c.d)
                if isinstance(c, CList):
                    return it.new_list(c.items)
            if is_num(v) or isinstance(v, (str, type(None))):
                return v
            return it.top("copy")
        if path == "itertools.product":
            seqs = [it.items(a) for a in args]
            rep = kw.get("repeat", 1)
            import itertools
            return it.new_list([Tup(t) for t in itertools.product(*(seqs * rep))])
        if name in ("njit", "jit", "prange"):
            if name == "prange":
                return self.builtin("range", args, kw)
            return args[0] if args else it.top(name)
        return it.top("external %s" % path)

    def block_diag(self, args):
        it = self.it
        arrs = []
        for a in args:
            x = it.arr(a)
            if isinstance(x, TopV):
                return x
            arrs.append(x)
        r = c = E0
        body = E0
        for a in arrs:
            if a.ndim != 2:
                raise TopError("block_diag")
            m = {"@0": ax(0) - r, "@1": ax(1) - c}
            body = body + a.body.subst(m) * mk_win(ax(0) - r, a.dims[0]) * mk_win(ax(1) - c, a.dims[1])
            r = r + a.dims[0]
            c = c + a.dims[1]
        return it.new_arr(Arr((r, c), body))

    def rng_call(self, name, args, kw):
        it = self.it
        if name == "seed":
            it.st.heap["rngseed"] = self.seed_value(args[0] if args else kw.get("seed"))
            return None
        if name in ("SeedSequence", "PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"):
            return it.new_obj(None, {"entropy": self.seed_value(args[0] if args else kw.get("entropy"))}, tag="seedseq")
        if name in ("default_rng", "RandomState", "Generator"):
            return it.new_obj(None, {"entropy": self.seed_value(args[0] if args else kw.get("seed"))}, tag="rng")
        return self.draw(name, args, kw, it.st.heap.get("rngseed"))

    def seed_value(self, v):
        """what a generator's stream depends on: an expression, or None for system entropy"""
        it = self.it
        if v is None or isinstance(v, TopV):
            return v
        if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CObj):
            return it.st.heap[v.loc].attrs.get("entropy")
        a = it.arr(v)
        if isinstance(a, TopV):
            return a
        return a.body

    def seed_method(self, o, c, name, args, kw):
        it = self.it
        e = c.attrs.get("entropy")
        if c.tag == "rng":
            return self.draw(name, args, kw, e)
        if name == "generate_state":
            if not isinstance(e, Expr):
                return TopV("unseeded state")
            return it.new_arr(Arr((num(args[0]),), mk_fn("seedstate", [e, ax(0)])))
        if name == "spawn":
            n = num(args[0]).as_int()
            if not isinstance(e, Expr) or n is None:
                return TopV("spawn")
            return it.new_obj(None, {"entropy": e, "n": n}, tag="seedspawn")
        return it.top("SeedSequence." + name)

    def draw(self, name, args, kw, seed):
        it = self.it
        it.draws.append((name, seed, it.where[-1] if it.where else "?"))
        size = None
        if name == "normal":
            loc = args[0] if args else kw.get("loc", 0)
            sc = args[1] if len(args) > 1 else kw.get("scale", 1)
            size = args[2] if len(args) > 2 else kw.get("size")
        elif name in ("randn", "standard_normal", "random", "rand", "random_sample"):
            loc, sc = 0, 1
            size = Tup(args) if name in ("randn", "rand") and args else (args[0] if args else kw.get("size"))
        elif name == "uniform":
            lo = args[0] if args else kw.get("low", 0)
            hi = args[1] if len(args) > 1 else kw.get("high", 1)
            size = args[2] if len(args) > 2 else kw.get("size")
            loc, sc = lo, self.binop("Sub", hi, lo)
        else:
            return it.top("rng." + name)
        key = "rng"
        k = it.st.heap.get(key, 0)
        if isinstance(k, TopV):
            return k
        it.st.heap[key] = k + 1
        kind = "xi" if name in ("normal", "randn", "standard_normal") else "uni"
        nm = "%s%d" % (kind, k)
        REG.declare(nm, real=True)
        if size is None:
            r = E_el(nm, [E0])
        else:
            dims = self.dims_of(size)
            idx = mk_fn("fuse", [ax(j) for j in range(len(dims))] + dims) if len(dims) > 1 else ax(0)
            r = it.new_arr(Arr(dims, E_el(nm, [idx])))
        if simp_num(sc) != 1:
            r = self.binop("Mult", r, sc)
        if simp_num(loc) != 0:
            r = self.binop("Add", r, loc)
        return r

    def np_call(self, name, args, kw):
        it = self.it
        for a in args:
            if isinstance(a, TopV) and name not in ("array", "asarray"):
                return a
        if name in ELEM:
            if len(args) != 1:
                raise TopError(name)
            v = args[0]
            if is_num(v):
                return simp_num(ELEM[name](num(v)))
            r = self.map1(ELEM[name], v)
            if isinstance(kw.get("out"), AV) and not isinstance(r, TopV):
                it.store_all(kw["out"], r)
            return r
        if name in BIN and len(args) >= 2:
            r = it.binop(BIN[name], args[0], args[1])
            if isinstance(kw.get("out"), AV) and not isinstance(r, TopV):
                it.store_all(kw["out"], r)
                return kw["out"]
            return r
        if name in ("zeros", "empty", "ones") and isinstance(kw.get("dtype"), Ref) and isinstance(it.st.heap[kw["dtype"].loc], CList):
            n = num(args[0] if is_num(args[0]) else it.items(args[0])[0]).as_int()
            if n is None:
                return it.top("structured array")
            names = [it.items(x)[0] for x in it.items(kw["dtype"])]
            return Ref(it.alloc(CRec({f: it.new_arr(Arr((E_const(n),), E1 if name == "ones" else E0)) for f in names}, n)))
        if name == "ndarray" and (len(args) > 2 and args[2] is not None or kw.get("buffer") is not None):
            raise TopError("array over a buffer")
        if name in ("zeros", "empty", "ones", "full", "ndarray"):
            if name in ("empty", "ndarray"):
                dims = self.dims_of(args[0])
                nm = fresh("undef")
                return it.new_arr(Arr(dims, E_el(nm, [ax(k) for k in range(len(dims))])))
            val = E0 if name == "zeros" else E1 if name == "ones" else num(args[1])
            return self.full(args[0], val)
        if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
            a = it.arr(args[0])
            if isinstance(a, TopV):
                return a
            val = E1 if name == "ones_like" else num(args[1]) if name == "full_like" else E0
            return it.new_arr(Arr(a.dims, val))
        if name in ("eye", "identity"):
            n = num(args[0])
            m2 = num(args[1]) if len(args) > 1 and args[1] is not None and name == "eye" else n
            k = kw.get("k", 0)
            return it.new_arr(Arr((n, m2), mk_ind("eq", ax(0) - ax(1) + num(k))))
        if name in ("array", "asarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "copy", "require"):
            v = args[0]
            if isinstance(v, TopV):
                return v
            if isinstance(v, AV):
                if name in ("array", "copy"):
                    return it.new_arr(it.arr(v), v.kind)
                return v
            if isinstance(v, MaskView):
                return v
            a = it.arr(v)
            if isinstance(a, TopV):
                return a
            if name == "atleast_1d" and a.ndim == 0:
                a = Arr((E1,), a.body)
            if a.ndim == 0:
                return simp_num(a.body)
            return it.new_arr(a)
        if name in ("dot", "inner", "vdot"):
            if name == "vdot":
                return self.dot(self.reshape(self.map1(ELEM["conj"], args[0]), -1), self.reshape(args[1], -1))
            return self.dot(args[0], args[1])
        if name == "tensordot":
            return self.tensordot(args[0], args[1], kw.get("axes", args[2] if len(args) > 2 else 2))
        if name == "outer":
            x, y = it.arr(self.reshape(args[0], -1) if isinstance(args[0], AV) else args[0]), it.arr(args[1])
            if isinstance(x, TopV) or isinstance(y, TopV):
                return TopV("outer")
            return it.new_arr(self._tdot(x, y, [], []))
        if name == "kron":
            x, y = it.arr(args[0]), it.arr(args[1])
            if isinstance(x, TopV) or isinstance(y, TopV):
                return TopV("kron")
            if x.ndim != y.ndim:
                raise TopError("kron")
            mx, my, dims = {}, {}, []
            for k in range(x.ndim):
                mx["@%d" % k] = mk_fn("unf", [ax(k), E0, x.dims[k], y.dims[k]])
                my["@%d" % k] = mk_fn("unf", [ax(k), E1, x.dims[k], y.dims[k]])
                dims.append(x.dims[k] * y.dims[k])
            return it.new_arr(Arr(dims, x.body.subst(mx) * y.body.subst(my)))
        if name in ("argmax", "argmin") and it.oracle is not None and len(args) == 1 and not kw:
            a = it.arr(args[0])
            n = a.dims[0].as_int() if isinstance(a, Arr) and a.ndim == 1 else None
            if n is not None and n <= 16:
                k = it.oracle.choose(n)
                for j in range(n):
                    d = a.body.subst({"@0": E_const(j)}) - a.body.subst({"@0": E_const(k)})
                    if not d.is_const():
                        it.oracle.facts.append(num(cmp_ind("LtE" if name == "argmax" else "GtE", d)))
                return k
        if name in ("sum", "mean", "max", "min", "amax", "amin", "prod", "any", "all", "argmax", "argmin", "std", "var"):
            nm = {"amax": "max", "amin": "min"}.get(name, name)
            v = args[0]
            if isinstance(v, Ref):
                v = it.new_arr(it.arr(v))
            if is_num(v):
                return v
            return self.reduce(nm, v, args[1] if len(args) > 1 else kw.get("axis"), kw.get("keepdims", False))
        if name == "trace":
            return self.trace(args[0], **{k: v for k, v in kw.items() if k in ("axis1", "axis2", "offset")})
        if name == "transpose":
            p = args[1] if len(args) > 1 else kw.get("axes")
            return self.transpose(args[0], it.items(p) if p is not None else None)
        if name == "swapaxes":
            return self.arr_method(args[0], "swapaxes", args[1:], kw)
        if name == "moveaxis":
            v = args[0]
            n = v.ndim
            s, d = args[1] % n, args[2] % n
            p = [k for k in range(n) if k != s]
            p.insert(d, s)
            return self.transpose(v, p)
        if name == "reshape":
            return self.reshape(args[0], args[1])
        if name == "ravel":
            return self.reshape(args[0], -1)
        if name == "diag":
            return self.diag(args[0], kw.get("k", args[1] if len(args) > 1 else 0))
        if name == "diagonal":
            return self.diag(args[0])
        if name == "where":
            if len(args) == 1:
                return it.top("where(cond)")
            c, a, b = it.arr(args[0]), it.arr(args[1]), it.arr(args[2])
            if any(isinstance(x, TopV) for x in (c, a, b)):
                return TopV("where")
            dims, (p, q, r) = self.bcast([c, a, b])
            return it.new_arr(Arr(dims, gate(p, q, r)))
        if name == "clip":
            return self.clip(args, kw)
        if name in ("maximum", "minimum", "fmax", "fmin"):
            return self.minmax("max" if "max" in name else "min", args[0], args[1])
        if name == "arange":
            a = [num(x) for x in args]
            if len(a) == 1:
                return it.new_arr(Arr((a[0],), ax(0)), "i")
            if len(a) == 2:
                return it.new_arr(Arr((a[1] - a[0],), ax(0) + a[0]), "i")
            raise TopError("arange step")
        if name in ("triu_indices", "tril_indices", "diag_indices"):
            return self.tri_indices(name, args, kw)
        if name == "linspace":
            n = num(args[2] if len(args) > 2 else kw.get("num", 50))
            a, b = num(args[0]), num(args[1])
            return it.new_arr(Arr((n,), a + (b - a) * ax(0) / (n - E1)))
        if name == "ndindex" and not kw:
            dims = list(it.items(args[0])) if len(args) == 1 and not is_num(args[0]) else list(args)
            ns = [num(d).as_int() for d in dims]
            if any(x is None for x in ns) or math.prod(ns) > 4096:
                raise TopError("ndindex")
            return it.new_list([Tup(t) for t in itertools.product(*[range(x) for x in ns])])
        if name == "ix_" and not kw:
            out = []
            for k, x in enumerate(args):
                y = it.arr(x)
                if isinstance(y, TopV):
                    return y
                if len(y.dims) != 1 or (isinstance(x, AV) and x.kind == "b"):
                    raise TopError("ix_")
                dims = [y.dims[0] if j == k else E1 for j in range(len(args))]
                out.append(it.new_arr(Arr(dims, y.body.subst({"@0": ax(k)})), "i"))
            return Tup(out)
        if name in ("concatenate", "hstack", "vstack", "stack", "append"):
            if name == "append":
                seq = [args[0], args[1]]
            else:
                if isinstance(args[0], Ref) and isinstance(it.st.heap[args[0].loc], CSym):
                    c = it.st.heap[args[0].loc]
                    if name == "stack" and kw.get("axis", 0) == 0:
                        return it.new_arr(it.arr(args[0]))
                    return self.concat_sym(c, kw.get("axis", args[1] if len(args) > 1 else 0), name)
                seq = it.items(args[0])
            arrs = [it.arr(x) for x in seq]
            if any(isinstance(x, TopV) for x in arrs):
                return TopV(name)
            axis = kw.get("axis", args[1] if len(args) > 1 and name != "append" else 0)
            if name == "stack":
                if any(a.dims != arrs[0].dims for a in arrs):
                    raise TopError("stack")
                return it.new_arr(self.stack(arrs, axis))
            arrs = [Arr((E1,), a.body) if a.ndim == 0 else a for a in arrs]
            if name == "hstack":
                axis = 0 if arrs[0].ndim == 1 else 1
            if name == "vstack":
                arrs = [Arr((E1,) + a.dims, a.body.subst({"@0": ax(1)})) if a.ndim == 1 else a for a in arrs]
                axis = 0
            if axis is None:
                arrs = [it.arr(self.reshape(it.new_arr(a), -1)) for a in arrs]
                axis = 0
            return it.new_arr(self.concat(arrs, axis))
        if name == "expand_dims":
            a = it.arr(args[0])
            if isinstance(a, TopV):
                return a
            axes = args[1] if len(args) > 1 else kw["axis"]
            if isinstance(axes, (Tup, Ref)):
                ks = [num(k).as_int() for k in it.items(axes)]
                if any(k is None for k in ks):
                    raise TopError("expand_dims")
                nd = len(a.dims) + len(ks)
                for k in sorted(k % nd for k in ks):
                    a = self.stack([a], k)
                return it.new_arr(a)
            return it.new_arr(self.stack([a], axes))
        if name == "squeeze":
            return self.squeeze(args[0])
        if name == "repeat":
            return self.repeat(args, kw)
        if name == "tile":
            a = it.arr(args[0])
            r = args[1]
            if isinstance(a, TopV):
                return a
            reps = [r] if is_num(r) else it.items(r)
            if len(reps) > a.ndim and all(simp_num(x) == 1 for x in reps[len(reps) - a.ndim:]):
                k = len(reps) - a.ndim
                m = {"@%d" % j: ax(j + k) for j in range(a.ndim)}
                return it.new_arr(Arr([num(x) for x in reps[:k]] + list(a.dims), a.body.subst(m)))
            raise TopError("tile")
        if name == "cumsum":
            return self.cumsum(args[0])
        if name in ("argsort", "searchsorted"):
            return getattr(self, name)(args, kw)
        if name == "count_nonzero":
            return self.reduce("sum", args[0])
        if name in ("isrealobj", "iscomplexobj", "allclose", "isclose", "array_equal", "isreal", "iscomplex"):
            return it.top(name)
        if name == "ndim":
            return args[0].ndim if isinstance(args[0], AV) else 0
        if name == "shape":
            return it.getattr(args[0], "shape")
        if name == "size":
            return it.getattr(args[0], "size")
        if name in ("float64", "complex128", "int64", "complex64", "float32", "int32", "double", "complex_", "float_"):
            return args[0]
        if name in ("copyto",):
            it.store_all(args[0], args[1])
            return None
        if name == "fill_diagonal":
            v = args[0]
            a, x = it.arr(v), it.arr(args[1])
            if isinstance(a, TopV) or isinstance(x, TopV):
                it.havoc_val(v)
                return None
            d = mk_ind("eq", ax(0) - ax(1))
            it.store_all(v, it.new_arr(Arr(a.dims, gate(d, x.body, a.body))))
            return None
        if name == "isscalar":
            return is_num(args[0])
        if name == "block":
            raise TopError("block")
        if name in ("multi_dot",):
            seq = it.items(args[0])
            r = seq[0]
            for x in seq[1:]:
                r = self.dot(r, x)
            return r
        if name == "round":
            return args[0]
        if name == "comb":
            return simp_num(mk_fn("fact", [num(args[0])]) / mk_fn("fact", [num(args[1])]) / mk_fn("fact", [num(args[0]) - num(args[1])]))
        if name == "broadcast_to":
            a = it.arr(args[0])
            dims = self.dims_of(args[1])
            _, (p, _) = self.bcast([a, Arr(dims, E0)])
            return it.new_arr(Arr(dims, p))
        if name in ("csr_matrix", "csc_matrix", "coo_matrix"):
            return args[0]
        return it.top("numpy.%s" % name)

    def concat_sym(self, c, axis, name):
        it = self.it
        a = it.arr(c.elem)
        if isinstance(a, TopV):
            return a
        if name == "hstack" and a.ndim > 1:
            axis = 1
        # ragged / regular blocks along axis
        d = a.dims[axis]
        off = esum(d.subst({c.iv: E_iv("LS_")}), "LS_", E_iv(c.iv)) if c.iv in d.fv else d * E_iv(c.iv)
        tot = esum(d.subst({c.iv: E_iv("LS_")}), "LS_", c.n)
        body = a.body.subst({"@%d" % axis: ax(axis) - off}) * mk_win(ax(axis) - off, d)
        body = esum(body.subst({c.iv: E_iv("LT_")}), "LT_", c.n)
        dims = list(a.dims)
        dims[axis] = tot
        return it.new_arr(Arr(dims, body))

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kw):
        it = self.it
        if name == "_noop":
            return None
        if name == "range":
            a = list(args)
            if any(isinstance(x, TopV) for x in a):
                return TopV("range")
            if len(a) == 1:
                return SymRange(0, a[0])
            return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
        if name == "divmod" and len(args) == 2:
            return Tup((it.binop("FloorDiv", args[0], args[1]), it.binop("Mod", args[0], args[1])))
        if name == "len":
            v = args[0]
            if isinstance(v, TopV):
                return v
            if isinstance(v, (tuple, str)):
                return len(v)
            if isinstance(v, AV):
                return simp_num(v.dims[0])
            if isinstance(v, SymRange):
                return simp_num(num(v.hi) - num(v.lo))
            if isinstance(v, Ref):
                c = it.st.heap[v.loc]
                if isinstance(c, CList):
                    return len(c.items)
                if isinstance(c, CRec):
                    return c.n
                if isinstance(c, CDict):
                    return len(c.d)
                if isinstance(c, CSym):
                    return simp_num(c.n)
                if isinstance(c, CObj) and isinstance(c.cls, ClassVal):
                    k, a = c.cls.find("__len__")
                    if k is not None:
                        return it.call_func(a, [v], {})
            if v is None or isinstance(v, bool):
                it.crash("object of type '%s' has no len()" % type(v).__name__)
            return it.top("len")
        if name == "enumerate":
            if isinstance(args[0], TopV):
                return args[0]
            return Enum(args[0], args[1] if len(args) > 1 else kw.get("start", 0))
        if name == "zip":
            if any(isinstance(x, TopV) for x in args):
                return TopV("zip")
            return Zip(list(args))
        if name in ("list", "tuple"):
            if not args:
                return it.new_list([]) if name == "list" else Tup(())
            v = args[0]
            if isinstance(v, TopV):
                return v
            if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CSym):
                c = it.st.heap[v.loc]
                return Ref(it.alloc(c))
            if isinstance(v, AV) and v.dims[0].as_int() is None:
                iv = fresh("L")
                return Ref(it.alloc(CSym(v.dims[0], iv, it.getitem(v, E_iv(iv)))))
            if isinstance(v, SymRange):
                sp = it.iter_spec(v)
                if sp[0] == "sym":
                    iv = fresh("L")
                    return Ref(it.alloc(CSym(sp[1], iv, sp[2](E_iv(iv)))))
            seq = it.items(v)
            return it.new_list(seq) if name == "list" else Tup(seq)
        if name == "dict":
            d = {}
            if args:
                c = it.st.heap.get(args[0].loc) if isinstance(args[0], Ref) else None
                if isinstance(c, CDict):
                    d.update(c.d)
                else:
                    for p in it.items(args[0]):
                        k, v = it.items(p)
                        d[k] = v
            d.update(kw)
            return it.new_dict(d)
        if name == "sum":
            v = args[0]
            if isinstance(v, TopV):
                return v
            init = args[1] if len(args) > 1 else 0
            if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CSym):
                c = it.st.heap[v.loc]
                a = it.arr(c.elem)
                if isinstance(a, TopV):
                    return a
                r = it.new_arr(Arr(a.dims, esum(a.body.subst({c.iv: E_iv("LS_")}), "LS_", c.n)))
                return self.binop("Add", r, init) if not (isinstance(init, int) and init == 0) else r
            if isinstance(v, AV) and v.dims[0].as_int() is None:
                return self.reduce("sum", v, 0)
            r = init
            for x in it.items(v):
                r = it.binop("Add", r, x) if not (isinstance(r, int) and r == 0) else x
            return r
        if name == "abs":
            return self.np_call("abs", args, kw)
        if name in ("max", "min"):
            if len(args) == 1:
                v = args[0]
                if isinstance(v, AV):
                    return self.reduce(name, v)
                if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CSym):
                    return self.reduce(name, it.new_arr(it.arr(v)))
                if isinstance(v, TopV):
                    return v
                seq = it.items(v)
            else:
                seq = list(args)
            r = seq[0]
            for x in seq[1:]:
                if isinstance(r, TopV) or isinstance(x, TopV):
                    return TopV(name)
                r = simp_num(mk_fn(name, [num(r), num(x)]))
            return r
        if name in ("int", "float", "complex", "round"):
            if not args:
                return 0
            v = args[0]
            if isinstance(v, str):
                try:
                    return int(v) if name == "int" else E_const(float(v))
                except ValueError:
                    raise TopError("literal")
            if is_num(v):
                if name == "int" and isinstance(v, Expr):
                    if nf.is_intval(v):
                        return v
                    k = v.as_frac()
                    if k is not None:
                        return int(k)
                    return mk_fn("int", [v])
                if name == "complex" and len(args) > 1:
                    return simp_num(num(v) + num(args[1]).scale((F(0), F(1))))
                if isinstance(v, bool):
                    return int(v)
                return v
            if isinstance(v, AV) and all(d.as_int() == 1 for d in v.dims):
                return self.arr_method(v, "item", [], {})
            return it.top(name)
        if name == "bool":
            return it.truth(args[0])
        if name == "str":
            return args[0] if isinstance(args[0], str) else str(args[0]) if isinstance(args[0], int) else OpaqueStr()
        if name == "isinstance":
            return self.isinst(args[0], args[1])
        if name == "hasattr":
            o, a = args
            if isinstance(o, Ref) and isinstance(a, str):
                c = it.st.heap[o.loc]
                if isinstance(c, CObj) and not c.havoc:
                    if a in c.attrs:
                        return True
                    if isinstance(c.cls, ClassVal):
                        if c.cls.find(a)[0] is not None:
                            return True
                        if all(isinstance(b, ClassVal) or b == Builtin for k in c.cls.mro() for b in k.bases):
                            return it.top("hasattr") if c.tag == "partial" else False
                        if a in getattr(it, "absent", ()):
                            return False
            if isinstance(o, AV) and a in ("orbsym", "tag", "mo_coeff", "mo_occ"):
                return False        # plain arrays carry no tags
            return it.top("hasattr")
        if name == "getattr":
            o, a = args[0], args[1]
            if isinstance(a, str):
                if len(args) > 2:
                    h = self.builtin("hasattr", [o, a], {})
                    if h is False:
                        return args[2]
                return it.getattr(o, a)
            return it.top("getattr")
        if name == "setattr":
            if isinstance(args[1], str):
                it.setattr(args[0], args[1], args[2])
                return None
            it.havoc_val(args[0])
            return None
        if name in ("sorted", "reversed"):
            seq = it.items(args[0])
            if name == "reversed":
                return it.new_list(seq[::-1])
            if all(isinstance(x, (int, str)) for x in seq) and not kw:
                return it.new_list(sorted(seq))
            raise TopError("sorted")
        if name == "map":
            return it.new_list([it.call(args[0], [x], {}) for x in it.items(args[1])])
        if name in ("any", "all"):
            v = args[0]
            if isinstance(v, AV):
                return self.reduce(name, v)
            cs = [it.truth(x) for x in it.items(v)]
            if any(isinstance(c, TopV) for c in cs):
                return TopV(name)
            if all(isinstance(c, bool) for c in cs):
                return any(cs) if name == "any" else all(cs)
            return it.top(name)
        if name == "type":
            v = args[0]
            if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CObj):
                return it.st.heap[v.loc].cls
            return it.top("type")
        if name == "callable":
            return isinstance(args[0], (FuncVal, Bound, ClassVal, Builtin, ExtMod, Method))
        if name == "pow":
            return it.binop("Pow", args[0], args[1])
        if name == "slice":
            a = list(args)
            if len(a) == 1:
                return Slice(None, a[0], None)
            return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
        if name in ("set", "filter", "iter"):
            seq = it.items(args[0]) if args else []
            return Tup(seq)
        if name.endswith("Error") or name == "Exception":
            return None
        return it.top("builtin %s" % name)

    def isinst(self, v, t):
        it = self.it
        if isinstance(v, TopV) or isinstance(t, TopV):
            return TopV("isinstance")
        if isinstance(t, tuple):
            rs = [self.isinst(v, x) for x in t]
            if any(r is True for r in rs):
                return True
            if any(isinstance(r, TopV) for r in rs):
                return TopV("isinstance")
            return False
        if isinstance(t, Builtin):
            n = t.name
            if n == "int":
                if isinstance(v, bool):
                    return True
                if isinstance(v, int):
                    return True
                if isinstance(v, Expr):
                    return True if nf.is_intval(v) else False
                return False
            if n in ("float", "complex"):
                if isinstance(v, Expr):
                    if nf.is_intval(v):
                        return False
                    return TopV("isinstance") if n == "complex" else True
                return False
            if n == "str":
                return isinstance(v, (str, OpaqueStr))
            if n == "bool":
                return isinstance(v, bool)
            if n == "list":
                return isinstance(v, Ref) and isinstance(it.st.heap[v.loc], (CList, CSym))
            if n == "dict":
                return isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CDict)
            if n == "tuple":
                return isinstance(v, tuple)
            return TopV("isinstance")
        if isinstance(t, ExtMod):
            nm = t.path.split(".")[-1]
            if nm == "ndarray":
                return isinstance(v, AV)
            if nm in ("integer", "int64", "int32"):
                return False
            if nm in ("Number",):
                return is_num(v)
            if (v is None or isinstance(v, (bool, str))) and t.path.split(".")[0] in ("pyscf", "numpy", "scipy", "h5py"):
                return False
            return TopV("isinstance")
        if isinstance(t, ClassVal):
            if isinstance(v, Ref) and isinstance(it.st.heap[v.loc], CObj):
                c = it.st.heap[v.loc].cls
                return isinstance(c, ClassVal) and t in c.mro()
            return False
        return TopV("isinstance")


def esum_all(body, dims):
    names = [fresh("s") for _ in dims]
    body = body.subst({"@%d" % k: E_iv(n) for k, n in enumerate(names)})
    for n, d in zip(names, dims):
        body = esum(body, n, d)
    return body


def divide_size(a, b):
    """a / b when it is a polynomial"""
    if b.is_zero():
        return None
    if a == b:
        return E1
    q = a * b.power(-1) if len(b.terms) == 1 else None
    if q is not None:
        for c, bb, f in q.terms.values():
            if c[0].denominator != 1:
                return None
            for n, e in f:
                if e < 0 or e.denominator != 1:
                    return None
        return q
    if len(a.terms) >= 1:
        # try  a = x * b  with x a quotient of leading monomials
        ka = sorted(a.terms)
        kb = sorted(b.terms)[0]
        (cb, bb, fb) = b.terms[kb]
        for k in ka:
            c, b1, f1 = a.terms[k]
            acc = nf.Acc()
            acc.add_raw(nf.cmul(c, nf.cinv(cb)), b1, list(f1) + [(n, -e) for n, e in fb])
            x = acc.expr()
            try:
                if x * b == a and all(e > 0 and e.denominator == 1 for t in x.terms.values() for n, e in t[2]):
                    return x
            except TopError:
                pass
    return None


def rank_sum_e(e):
    """opaque linear sum over ranks, monomial by monomial"""
    out = E0
    for k, (c, b, f) in e.terms.items():
        mono = Expr({k: (nf.ONE, b, f)})
        if all(n.kind in ("num",) for n, _ in f) and not b:
            # rank-independent constant: times the number of ranks
            out = out + E_node(Fn("ranksum", (mono,))).scale(c)
        else:
            out = out + E_node(Fn("ranksum", (mono,))).scale(c)
    return out


def is_local(e):
    """the value may differ between ranks (sums over ranks do not)"""
    for k, (c, b, f) in e.terms.items():
        for n, _ in f:
            if node_local(n):
                return True
        for x in b:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, Expr) and is_local(y):
                    return True
    return False


def node_local(n):
    if n.kind == "fn" and n.name == "ranksum":
        return False
    if getattr(n, "name", None) in REG.local:
        return True
    for ch in n.children():
        if isinstance(ch, Expr):
            if is_local(ch):
                return True
        elif isinstance(ch, Arr):
            if is_local(ch.body) or any(is_local(d) for d in ch.dims):
                return True
        elif node_local(ch):
            return True
    return False
