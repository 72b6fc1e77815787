"""Gated value-flow analysis of Python source over the tensor-polynomial domain (nf.py).

The analysis maps every variable, attribute and array cell of a function (and of everything it
calls inside the repository) to a normal form over the function's symbolic inputs with symbolic
shapes.  Control-flow joins become gates, counted loops are summarised by their closed form
(sum / map / block write), nothing is enumerated and no analysed code is executed.  Whatever
leaves the decidable fragment becomes Top.
"""
import ast
import itertools
import os
from fractions import Fraction as F

from . import nf
from .nf import (E0, E1, Arr, E_const, E_el, E_iv, E_node, E_sym, El, Expr, Fn, Ind, IV, Lam, Mat, REG,
                 Sym, TopError, Win, esum, fresh, gate, mk_fn, mk_ind, mk_mat, mk_win)


class TopV:
    __slots__ = ("why",)

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Ref:
    """reference to a heap object (list / dict / instance / symbolic list)"""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(("ref", self.loc))

    def __repr__(self):
        return "Ref%d" % self.loc


class AV:
    """array reference: a heap cell, optionally through an index map (a view)"""
    __slots__ = ("loc", "dims", "imap", "kind")

    def __init__(self, loc, dims, imap=None, kind="n"):
        self.loc = loc
        self.dims = tuple(dims)
        self.imap = imap
        self.kind = kind

    @property
    def ndim(self):
        return len(self.dims)

    def __eq__(self, o):
        return isinstance(o, AV) and o.loc == self.loc and o.dims == self.dims and o.imap == self.imap

    def __hash__(self):
        return hash(("av", self.loc))

    def __repr__(self):
        return "AV%d%s" % (self.loc, list(self.dims))


class MaskView:
    __slots__ = ("av", "mask")

    def __init__(self, av, mask):
        self.av = av
        self.mask = mask


class MaskVal:
    """values at the selected positions, kept as a full-shape array"""
    __slots__ = ("arr", "mask")

    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask


class Tup(tuple):
    pass


class Str(str):
    pass


class OpaqueStr:
    pass


class FuncVal:
    __slots__ = ("node", "mod", "envloc", "defaults", "kwdefaults", "cls", "name", "decos")

    def __init__(self, node, mod, envloc, cls=None, decos=()):
        self.node = node
        self.mod = mod
        self.envloc = envloc
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.defaults = []
        self.kwdefaults = {}
        self.decos = decos


class ClassVal:
    __slots__ = ("name", "mod", "bases", "attrs", "node")

    def __init__(self, name, mod, bases, attrs, node):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.attrs = attrs
        self.node = node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Bound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class ExtMod:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, ExtMod) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return "<ext %s>" % self.path


class Method:
    """bound builtin method"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class Builtin:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class ModuleVal:
    __slots__ = ("name", "path", "envloc", "tree", "interp", "loading", "bound")

    def __repr__(self):
        return "<module %s>" % self.name


class SuperVal:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo = lo
        self.hi = hi
        self.step = step


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow"}


class SymRange:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step=1):
        self.lo = lo
        self.hi = hi
        self.step = step


# ---------------------------------------------------------------- heap contents (treated as immutable)
class CList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class CDict:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class CObj:
    __slots__ = ("cls", "attrs", "havoc", "tag")

    def __init__(self, cls, attrs, havoc=False, tag=None):
        self.cls = cls
        self.attrs = attrs
        self.havoc = havoc
        self.tag = tag


class CRec:
    """a structured array of known length: one column array per field"""
    __slots__ = ("cols", "n")

    def __init__(self, cols, n):
        self.cols = cols
        self.n = n


class RowV:
    """one row of a structured array (a view)"""

    def __init__(self, ref, i):
        self.ref = ref
        self.i = i


class Oracle:
    """path-sensitive mode: undecided conditions are enumerated, each outcome recorded as a fact of the path"""

    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.facts = []

    def choose(self, n):
        k = len(self.trace)
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def decide(self, cond):
        for f in self.facts:
            if f == cond:
                return True
            if f == E1 - cond:
                return False
        r = self.choose(2) == 0
        self.facts.append(cond if r else E1 - cond)
        return r


class CEnv:
    __slots__ = ("vars", "parent", "mod")

    def __init__(self, vars, parent, mod):
        self.vars = vars
        self.parent = parent
        self.mod = mod


class CSym:
    """list of symbolic length: element at index iv"""
    __slots__ = ("n", "iv", "elem")

    def __init__(self, n, iv, elem):
        self.n = n
        self.iv = iv
        self.elem = elem


class Heap(dict):
    """locations of module-level objects are shared by all states"""
    perm = {}

    def __missing__(self, k):
        return Heap.perm[k]


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=E1):
        self.heap = Heap(heap) if heap is not None else Heap()
        self.pc = pc

    def fork(self):
        return State(self.heap, self.pc)


def is_num(v):
    return isinstance(v, (bool, int, float, complex, F, Expr))


def num(v):
    if isinstance(v, Expr):
        return v
    if isinstance(v, bool):
        return E1 if v else E0
    return E_const(v)


def simp_num(e):
    """Expr -> python int when constant integer"""
    if isinstance(e, Expr):
        k = e.as_int()
        if k is not None:
            return k
    return e


def replace_atoms(x, fns):
    """replace El/Sym nodes by name: fns[name](idx, cj) -> Expr"""
    if isinstance(x, Arr):
        return Arr([replace_atoms(d, fns) for d in x.dims], replace_atoms(x.body, fns))
    if not any(nm in x.key for nm in fns):
        return x

    def one(n):
        if n.kind in ("el", "sym") and n.name in fns:
            idx = [replace_atoms(e, fns) for e in getattr(n, "idx", ())]
            return fns[n.name](idx, n.cj)
        if not any(nm in n.key for nm in fns):
            return None
        if n.kind == "el":
            return E_node(El(n.name, [replace_atoms(e, fns) for e in n.idx], n.cj))
        if n.kind == "fn":
            return mk_fn(n.name, [replace_atoms(e, fns) for e in n.args])
        if n.kind == "mat":
            arrs = []
            for a in n.arrs:
                names, body = a._open()
                arrs.append(a._close([replace_atoms(d, fns) for d in a.dims], replace_atoms(body, fns), names))
            return mk_mat(n.name, arrs, [replace_atoms(e, fns) for e in n.idx], n.cj, n.extra)
        if n.kind == "ind":
            return mk_ind(n.op, replace_atoms(n.e, fns))
        if n.kind == "win":
            return mk_win(replace_atoms(n.e, fns), replace_atoms(n.m, fns))
        if n.kind == "bool":
            return E_node(nf.Bool(n.name, [replace_atoms(a, fns) for a in n.args]))
        if n.kind == "par":
            return replace_atoms(n.e, fns)
        return None
    acc = nf.Acc()
    for c, b, f in x.terms.values():
        ren = {q: E_iv(fresh()) for q, _ in b}
        b2 = []
        for q, sz in b:
            b2.append((ren[q].single_iv(), replace_atoms(sz.subst(ren), fns)))
        f2 = nf._ren(list(f), ren) if b else list(f)
        ex = E1
        keep = []
        for n, e in f2:
            r = one(n)
            if r is None:
                keep.append((n, e))
            else:
                ex = ex * (r.power(e) if e != 1 else r)
        for c3, b3, f3 in ex.terms.values():
            bb, ff = nf._merge((), keep, b3, f3)
            acc.add_raw(nf.cmul(c, c3), tuple(b2) + tuple(bb), ff)
    return acc.expr()


class Outcome:
    __slots__ = ("st", "rets", "breaks", "conts")

    def __init__(self, st, rets=None, breaks=None, conts=None):
        self.st = st
        self.rets = rets or []
        self.breaks = breaks or []
        self.conts = conts or []


class AnalysisError(Exception):
    pass


class Crash(Exception):
    """the analysed program raises here, whatever its input"""


_interps = itertools.count()


class Interp:
    MAXDEPTH = 40
    UNROLL = 24

    def __init__(self, root, flags=None, specroot=None, overrides=None):
        nf.reset()
        self.root = root
        self.flags = {"QMCLIB_AVAILABLE": False, "NUMBA_AVAILABLE": False, "FDTD_AVAILABLE": False}
        self.flags.update(flags or {})
        self.specroot = specroot
        self.modules = {}
        self.nloc = next(_interps) * 10 ** 8
        self.st = State()
        self.depth = 0
        self.tops = []          # reasons for Top, for the evidence
        self.inlined = set()    # (module, qualname) of every function analysed
        self.overrides = overrides or {}
        self.limits = []
        self.broken = {}        # modules whose import certainly fails
        self.where = []
        self.ranges = {}
        self.loading = 0
        self.steps = 0
        self.max_steps = 400000
        self.oracle = None
        self.trydepth = 0
        self.events = []        # communication, in program order: (operation, path condition, function)
        self.draws = []         # random draws: (kind, what the generator was seeded with, function)
        self.ext = set()        # external functions the analysed code calls
        from . import npmodel
        self.np = npmodel.NP(self)

    def crash(self, why):
        """an operation that certainly raises; only claimed where the path condition is trivially true"""
        if self.trydepth == 0 and not self.loading and not isinstance(self.st.pc, TopV) and self.st.pc == E1:
            raise Crash("%s (in %s)" % (why, self.where[-1] if self.where else "?"))
        raise TopError(why)

    def native(self, fn):
        """a callable of the analysis, usable as a value of the analysed program"""
        path = "analysis.native%d" % len(self.overrides)
        self.overrides[path] = fn
        return ExtMod(path)

    @staticmethod
    def slice(lo, hi):
        return Slice(lo, hi, None)

    def explore(self, fn, limit=600):
        """every path through fn(): [(facts, value or the TopError that stopped the path)]"""
        st0 = self.st
        out = []
        prefix = []
        try:
            while True:
                if len(out) >= limit:
                    raise TopError("more than %d paths" % limit)
                self.st = st0.fork()
                self.oracle = o = Oracle(prefix)
                try:
                    v = fn()
                except (TopError, Crash) as ex:
                    v = ex
                out.append((list(o.facts), v))
                tr = list(o.trace)
                while tr and tr[-1][0] + 1 >= tr[-1][1]:
                    tr.pop()
                if not tr:
                    return out
                prefix = [c for c, _ in tr[:-1]] + [tr[-1][0] + 1]
        finally:
            self.oracle = None
            self.st = st0

    # ------------------------------------------------------------ heap helpers
    def alloc(self, content):
        self.nloc += 1
        self.st.heap[self.nloc] = content
        return self.nloc

    def top(self, why):
        if len(self.tops) < 400 and not self.loading:
            self.tops.append("%s @ %s" % (why, "/".join(self.where[-2:])))
        return TopV(why)

    def new_arr(self, a, kind="n"):
        if isinstance(a, TopV):
            return a
        a = nf.let(a)
        if not a.dims:
            return simp_num(a.body)
        return AV(self.alloc(a), a.dims, None, kind)

    def new_list(self, items):
        return Ref(self.alloc(CList(items)))

    def new_dict(self, d):
        return Ref(self.alloc(CDict(dict(d))))

    def new_obj(self, cls, attrs=None, tag=None):
        return Ref(self.alloc(CObj(cls, dict(attrs or {}), False, tag)))

    def atom(self, name, dims, kind="n", **facts):
        """declare an input array atom"""
        if facts:
            REG.declare(name, **facts)
        dims = [num(d) for d in dims]
        if not dims:
            return E_sym(name)
        return self.new_arr(Arr(dims, E_el(name, [E_iv("@%d" % i) for i in range(len(dims))])), kind)

    def size(self, name):
        REG.declare(name, nonneg=True)
        REG.ints.add(name)
        return E_sym(name)

    def read(self, v):
        """AV -> Arr"""
        c = self.st.heap[v.loc]
        if isinstance(c, TopV):
            return c
        if v.imap is None:
            return c
        m = {"@%d" % i: e for i, e in enumerate(v.imap)}
        return Arr(v.dims, c.body.subst(m))

    def arr(self, v):
        """any value -> Arr (or TopV)"""
        if isinstance(v, TopV):
            return v
        if isinstance(v, Arr):
            return v
        if isinstance(v, AV):
            return self.read(v)
        if is_num(v):
            return Arr((), num(v))
        if isinstance(v, Ref):
            c = self.st.heap[v.loc]
            if isinstance(c, CList):
                return self.np.stack_values(c.items)
            if isinstance(c, CSym):
                a = self.arr(c.elem)
                if isinstance(a, TopV):
                    return a
                for d in a.dims:
                    if c.iv in d.fv:
                        raise TopError("ragged list to array")
                n = a.ndim
                m = {"@%d" % i: E_iv("@%d" % (i + 1)) for i in range(n)}
                m[c.iv] = E_iv("@0")
                return Arr((c.n,) + a.dims, a.body.subst(m))
            if isinstance(c, CObj) and c.tag == "arraylike":
                return self.arr(c.attrs["value"])
        if isinstance(v, tuple):
            return self.np.stack_values(v)
        if isinstance(v, MaskView):
            raise TopError("boolean selection used as an array")
        if isinstance(v, SymRange) and v.step == 1:
            return Arr((num(v.hi) - num(v.lo),), E_iv("@0") + num(v.lo))
        raise TopError("not an array: %r" % (type(v).__name__,))

    # ------------------------------------------------------------ values: equality / merge
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, TopV) or isinstance(b, TopV):
            return isinstance(a, TopV) and isinstance(b, TopV)
        if is_num(a) and is_num(b):
            if isinstance(a, bool) != isinstance(b, bool):
                return False
            return num(a) == num(b)
        try:
            if isinstance(a, tuple) and isinstance(b, tuple):
                return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
            return type(a) == type(b) and a == b
        except Exception:
            return False

    def merge_val(self, c, a, b, sa, sb, out):
        """value of gate(c, a [in sa], b [in sb]) in state out"""
        if self.same(a, b):
            return a
        if isinstance(c, TopV):
            return TopV("join under an undecided condition")
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if is_num(a) and is_num(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return c if a else E1 - c
            return simp_num(gate(c, num(a), num(b)))
        if isinstance(a, (AV,)) and isinstance(b, (AV,)) or (isinstance(a, AV) and is_num(b)) or (isinstance(b, AV) and is_num(a)):
            save = self.st
            try:
                self.st = sa
                xa = self.arr(a)
                self.st = sb
                xb = self.arr(b)
            finally:
                self.st = save
            if isinstance(xa, TopV) or isinstance(xb, TopV):
                return TopV("join")
            if xa.dims != xb.dims:
                return TopV("join of different shapes")
            r = Arr(xa.dims, gate(c, xa.body, xb.body))
            self.nloc += 1
            out.heap[self.nloc] = r
            return AV(self.nloc, r.dims, None, a.kind if isinstance(a, AV) else b.kind)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return Tup(self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = sa.heap.get(a.loc), sb.heap.get(b.loc)
            if isinstance(ca, CList) and isinstance(cb, CList) and len(ca.items) == len(cb.items):
                items = [self.merge_val(c, x, y, sa, sb, out) for x, y in zip(ca.items, cb.items)]
                self.nloc += 1
                out.heap[self.nloc] = CList(items)
                return Ref(self.nloc)
        return TopV("join of different kinds")

    def merge_content(self, c, a, b, sa, sb, out):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                return a
            if isinstance(c, TopV):
                return TopV("join under an undecided condition")
            if a.dims != b.dims:
                return TopV("join of shapes")
            return Arr(a.dims, gate(c, a.body, b.body))
        if type(a) != type(b):
            return TopV("join of kinds")
        if isinstance(a, CList):
            if len(a.items) != len(b.items):
                return TopV("join of list lengths")
            return CList([self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, CDict):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                if k in a.d and k in b.d:
                    d[k] = self.merge_val(c, a.d[k], b.d[k], sa, sb, out)
                else:
                    d[k] = TopV("join of dict keys")
            return CDict(d)
        if isinstance(a, CObj):
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    d[k] = self.merge_val(c, a.attrs[k], b.attrs[k], sa, sb, out)
                else:
                    d[k] = TopV("attribute set on one side of a join")
            return CObj(a.cls, d, a.havoc or b.havoc, a.tag)
        if isinstance(a, CEnv):
            d = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                if k in a.vars and k in b.vars:
                    d[k] = self.merge_val(c, a.vars[k], b.vars[k], sa, sb, out)
                else:
                    d[k] = TopV("variable set on one side of a join")
            return CEnv(d, a.parent, a.mod)
        if isinstance(a, CSym):
            if a.n == b.n and self.same(a.elem, b.elem):
                return a
            return TopV("join of symbolic lists")
        return TopV("join")

    def merge_states(self, c, sa, sb):
        out = State({}, None)
        for k in list(sa.heap.keys()) + [k for k in sb.heap if k not in sa.heap]:
            out.heap[k] = self.merge_content(c, sa.heap.get(k), sb.heap.get(k), sa, sb, out)
        if isinstance(sa.pc, TopV) or isinstance(sb.pc, TopV):
            out.pc = TopV("pc")
        else:
            out.pc = sa.pc + sb.pc
        return out

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = None
        if name.startswith("spec.") and self.specroot:
            path = os.path.join(self.specroot, name[5:].replace(".", "/") + ".py")
        else:
            base = os.path.join(self.root, name.replace(".", "/"))
            if os.path.isfile(base + ".py"):
                path = base + ".py"
            elif os.path.isfile(os.path.join(base, "__init__.py")):
                path = os.path.join(base, "__init__.py")
        if path is None or not os.path.isfile(path):
            return None
        try:
            with open(path) as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        except SyntaxError:
            return None
        m = ModuleVal()
        m.name = name
        m.path = path
        m.tree = tree
        m.bound = bound_names(tree)
        m.interp = self
        n0 = self.nloc
        m.envloc = self.alloc(CEnv({"__name__": name}, None, m))
        self.modules[name] = m
        m.loading = True
        save = self.st.pc
        self.where.append(name)
        self.loading += 1
        for s in tree.body:
            try:
                self.exec_stmt(s, m.envloc, m)
            except (TopError, AnalysisError, RecursionError):
                pass
        self.loading -= 1
        self.where.pop()
        m.loading = False
        self.st.pc = save
        for k in range(n0 + 1, self.nloc + 1):
            if k in self.st.heap:
                Heap.perm[k] = self.st.heap[k]
        return m

    def import_name(self, dotted):
        """module object for a dotted path"""
        top = dotted.split(".")[0]
        if top in ("openms", "spec"):
            m = self.load(dotted)
            if m is not None:
                return m
            return ExtMod(dotted)
        return ExtMod(dotted)

    def mod_attr(self, m, name):
        if name in self.flags:
            return self.flags[name]
        env = self.st.heap[m.envloc]
        if name in env.vars:
            return env.vars[name]
        sub = self.load(m.name + "." + name)
        if sub is not None:
            return sub
        return None

    # ------------------------------------------------------------ environments
    def getvar(self, name, envloc):
        loc = envloc
        mod = None
        while loc is not None:
            env = self.st.heap[loc]
            if isinstance(env, TopV):
                return env
            mod = env.mod
            if name in env.vars:
                v = env.vars[name]
                if name in self.flags and env.parent is None:
                    return self.flags[name]
                return v
            loc = env.parent
        if name in BUILTINS:
            return Builtin(name)
        if isinstance(mod, ModuleVal) and name not in PYBUILTINS and mod.bound is not None and name not in mod.bound:
            self.crash("name '%s' is not defined" % name)
        return self.top("name %s" % name)

    def setvar(self, name, val, envloc):
        env = self.st.heap[envloc]
        if isinstance(env, TopV):
            return
        d = dict(env.vars)
        d[name] = val
        self.st.heap[envloc] = CEnv(d, env.parent, env.mod)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, envloc, mod):
        """execute in self.st; returns Outcome (st None when nothing falls through)"""
        out = Outcome(self.st)
        for s in stmts:
            o = self.exec_stmt(s, envloc, mod)
            if o is not None:
                out.rets += o.rets
                out.breaks += o.breaks
                out.conts += o.conts
                if o.st is None:
                    out.st = None
                    return out
                self.st = o.st
        out.st = self.st
        return out

    def havoc_assigned(self, node, envloc):
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setvar(n.id, TopV("unsupported statement"), envloc)

    def exec_stmt(self, s, envloc, mod):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("step limit")
        t = type(s).__name__
        fn = getattr(self, "s_" + t, None)
        if fn is None:
            self.havoc_assigned(s, envloc)
            self.top("statement %s" % t)
            return None
        try:
            return fn(s, envloc, mod)
        except TopError as e:
            self.top("%s line %d: %s" % (t, s.lineno, e))
            self.havoc_targets(s, envloc, mod)
            return None

    def havoc_targets(self, s, envloc, mod):
        tg = []
        if isinstance(s, ast.Assign):
            tg = s.targets
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            tg = [s.target]
        elif isinstance(s, ast.For):
            self.havoc_modified([s], envloc, mod)
            return
        for x in tg:
            self.assign(x, TopV("outside the fragment"), envloc, mod)

    def s_Pass(self, s, e, m):
        return None

    def s_Import(self, s, e, m):
        for a in s.names:
            if a.asname:
                self.setvar(a.asname, self.import_name(a.name), e)
            else:
                top = a.name.split(".")[0]
                self.setvar(top, self.import_name(top), e)

    def s_ImportFrom(self, s, e, m):
        base = s.module or ""
        if s.level:
            parts = m.name.split(".")
            if not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        src = self.import_name(base)
        for a in s.names:
            nm = a.asname or a.name
            if a.name == "*":
                if isinstance(src, ModuleVal):
                    for k, v in self.st.heap[src.envloc].vars.items():
                        if not k.startswith("_"):
                            self.setvar(k, v, e)
                continue
            if a.name in self.flags:
                self.setvar(nm, self.flags[a.name], e)
                continue
            if isinstance(src, ModuleVal):
                v = self.mod_attr(src, a.name)
                if v is None:
                    if self.trydepth == 0 and src.bound is not None and a.name not in src.bound and not self.on_disk(src, a.name):
                        self.broken.setdefault(m.name, "cannot import name '%s' from '%s'" % (a.name, src.name))
                    v = ExtMod(base + "." + a.name)
                self.setvar(nm, v, e)
            else:
                self.setvar(nm, ExtMod(base + "." + a.name), e)

    @staticmethod
    def on_disk(mod, name):
        """a submodule in any form, compiled ones included"""
        if not mod.path.endswith("__init__.py"):
            return False
        try:
            return any(f.split(".")[0] == name for f in os.listdir(os.path.dirname(mod.path)))
        except OSError:
            return True

    def s_FunctionDef(self, s, e, m):
        fv = self.make_func(s, e, m)
        self.setvar(s.name, fv, e)

    def make_func(self, s, e, m, cls=None):
        decos = []
        for d in getattr(s, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            decos.append(t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "?"))
        fv = FuncVal(s, m, e, cls, tuple(decos))
        for d in s.args.defaults:
            try:
                fv.defaults.append(self.ev(d, e, m))
            except TopError:
                fv.defaults.append(TopV("default"))
        for k, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                fv.kwdefaults[k.arg] = self.ev(d, e, m)
        return fv

    def s_ClassDef(self, s, e, m):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b, e, m))
            except TopError:
                bases.append(TopV("base"))
        cv = ClassVal(s.name, m, bases, {}, s)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                cv.attrs[x.name] = self.make_func(x, e, m, cv)
            elif isinstance(x, ast.Assign):
                for tg in x.targets:
                    if isinstance(tg, ast.Name):
                        if isinstance(x.value, ast.Name) and x.value.id in cv.attrs:
                            cv.attrs[tg.id] = cv.attrs[x.value.id]
                        else:
                            try:
                                cv.attrs[tg.id] = self.ev(x.value, e, m)
                            except TopError:
                                cv.attrs[tg.id] = TopV("class attribute")
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                cv.attrs[x.target.id] = self.ev(x.value, e, m)
        self.setvar(s.name, cv, e)

    def s_Expr(self, s, e, m):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, e, m)

    def s_Assert(self, s, e, m):
        return None

    def s_Raise(self, s, e, m):
        if self.trydepth == 0 and not self.loading and not isinstance(self.st.pc, TopV) and self.st.pc == E1:
            self.crash("raise " + (ast.unparse(s.exc)[:80] if s.exc is not None else ""))
        return Outcome(None)

    def s_Delete(self, s, e, m):
        return None

    def s_Global(self, s, e, m):
        return None

    def s_Nonlocal(self, s, e, m):
        return None

    def s_Return(self, s, e, m):
        try:
            v = self.ev(s.value, e, m) if s.value is not None else None
        except TopError as ex:
            v = self.top("return line %d: %s" % (s.lineno, ex))
        return Outcome(None, [(self.st, v)])

    def s_Break(self, s, e, m):
        return Outcome(None, breaks=[self.st])

    def s_Continue(self, s, e, m):
        return Outcome(None, conts=[self.st])

    def s_Assign(self, s, e, m):
        v = self.ev(s.value, e, m)
        for t in s.targets:
            self.assign(t, v, e, m)

    def s_AnnAssign(self, s, e, m):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, e, m), e, m)

    def s_With(self, s, e, m):
        for it in s.items:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, TopV("with"), e, m)
        return self.exec_block(s.body, e, m)

    def s_Try(self, s, e, m):
        # the exception-free execution
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body):
            ext = False
            for x in s.body:
                if isinstance(x, ast.Import) and any(a.name.split(".")[0] in ABSENT for a in x.names):
                    ext = True
                if isinstance(x, ast.ImportFrom) and (x.module or "").split(".")[0] in ABSENT:
                    ext = True
            if ext and s.handlers:
                return self.exec_block(s.handlers[0].body, e, m)
        self.trydepth += 1
        try:
            o = self.exec_block(s.body + s.orelse, e, m)
        finally:
            self.trydepth -= 1
        if o.st is None and not o.rets and not o.breaks and not o.conts and s.handlers:
            return o
        if s.finalbody and o.st is not None:
            self.st = o.st
            o2 = self.exec_block(s.finalbody, e, m)
            o.st = o2.st
            o.rets += o2.rets
        return o

    def s_If(self, s, e, m):
        c = self.cond(s.test, e, m)
        if c is True:
            return self.exec_block(s.body, e, m)
        if c is False:
            return self.exec_block(s.orelse, e, m)
        st0 = self.st
        pc0 = st0.pc
        sa, sb = st0.fork(), st0.fork()
        if isinstance(c, TopV) or isinstance(pc0, TopV):
            sa.pc = sb.pc = TopV("pc")
        else:
            sa.pc = pc0 * c
            sb.pc = pc0 * (E1 - c)
        self.st = sa
        oa = self.exec_block(s.body, e, m)
        self.st = sb
        ob = self.exec_block(s.orelse, e, m)
        out = Outcome(None, oa.rets + ob.rets, oa.breaks + ob.breaks, oa.conts + ob.conts)
        if oa.st is None and ob.st is None:
            return out
        raised_a = oa.st is None and not (oa.rets or oa.breaks or oa.conts)
        raised_b = ob.st is None and not (ob.rets or ob.breaks or ob.conts)
        if oa.st is None:
            out.st = ob.st
            if raised_a:
                out.st.pc = pc0
        elif ob.st is None:
            out.st = oa.st
            if raised_b:
                out.st.pc = pc0
        else:
            out.st = self.merge_states(c, oa.st, ob.st)
            if not (oa.rets or ob.rets or oa.breaks or ob.breaks or oa.conts or ob.conts):
                out.st.pc = pc0
        self.st = out.st
        return out

    def s_AugAssign(self, s, e, m):
        op = type(s.op).__name__
        rhs = self.ev(s.value, e, m)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(t.id, e)
            if isinstance(cur, AV) and not isinstance(rhs, TopV):
                r = self.np.binop(op, cur, rhs)
                self.store_all(cur, r)
                return
            if isinstance(cur, AV):
                self.havoc_val(cur)
                return
            if isinstance(cur, Ref) and op == "Add":
                c = self.st.heap[cur.loc]
                if isinstance(c, CList):
                    self.st.heap[cur.loc] = CList(c.items + tuple(self.items(rhs)))
                    return
            self.setvar(t.id, self.binop(op, cur, rhs), e)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, e, m)
            cur = self.getattr(o, t.attr)
            if isinstance(cur, AV) and not isinstance(rhs, TopV):
                r = self.np.binop(op, cur, rhs)
                self.store_all(cur, r)
                return
            if isinstance(cur, AV):
                self.havoc_val(cur)
                return
            self.setattr(o, t.attr, self.binop(op, cur, rhs))
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, e, m)
            i = self.ev_index(t.slice, e, m)
            cur = self.getitem(o, i)
            r = self.binop(op, cur, rhs)
            self.setitem(o, i, r)
            return
        raise TopError("augassign target")

    # ------------------------------------------------------------ loops
    def s_While(self, s, e, m):
        out = Outcome(self.st)
        for k in range(self.UNROLL + 1):
            c = self.cond(s.test, e, m)
            if c is False:
                if s.orelse:
                    o = self.exec_block(s.orelse, e, m)
                    out.rets += o.rets
                    out.st = o.st
                    return out
                out.st = self.st
                return out
            if c is not True or k == self.UNROLL:
                r = self.counted_while(s, e, m)
                if r is not None:
                    out.st = self.st
                    return out
                self.top("while line %d" % s.lineno)
                self.havoc_modified(s.body, e, m)
                out.st = self.st
                return out
            o = self.exec_block(s.body, e, m)
            out.rets += o.rets
            if o.breaks:
                if o.st is None and not o.conts and len(o.breaks) == 1 and not o.rets:
                    self.st = o.breaks[0]
                    out.st = self.st
                    return out
                self.top("break line %d" % s.lineno)
                self.havoc_modified(s.body, e, m)
                out.st = self.st
                return out
            st = o.st
            if o.conts:
                if st is None and len(o.conts) == 1:
                    st = o.conts[0]
                else:
                    self.havoc_modified(s.body, e, m)
                    out.st = self.st
                    return out
            if st is None:
                out.st = None
                return out
            self.st = st
        return out

    def counted_while(self, s, e, m):
        """while i < n: ...; i += 1   with i an integer counter"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        v = t.left.id
        incs = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == v]
        if len(incs) != 1 or incs[0] is not s.body[-1]:
            return None
        step = self.ev(incs[0].value, e, m)
        lo = self.getvar(v, e)
        hi = self.ev(t.comparators[0], e, m)
        if simp_num(step) != 1 or not is_num(lo) or not is_num(hi):
            return None
        for x in s.body[:-1]:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store):
                    return None
                if isinstance(n, (ast.Break, ast.Continue)):
                    return None
        n = num(hi) - num(lo)
        self.sym_loop(n, lambda iv: {v: simp_num(num(lo) + iv)}, s.body[:-1], e, m, names=[v])
        self.setvar(v, simp_num(num(hi)), e)
        return True

    def s_For(self, s, e, m):
        it = self.ev(s.iter, e, m)
        if isinstance(it, TopV):
            self.havoc_modified([s], e, m)
            return None
        seq = self.iter_spec(it)
        if seq is None:
            raise TopError("iteration over %s" % type(it).__name__)
        kind = seq[0]
        if kind == "items":
            out = Outcome(self.st)
            for v in seq[1]:
                self.assign(s.target, v, e, m)
                o = self.exec_block(s.body, e, m)
                out.rets += o.rets
                if o.breaks:
                    if o.st is None and not o.conts and not o.rets and len(o.breaks) == 1:
                        self.st = o.breaks[0]
                        out.st = self.st
                        return out
                    # conditional break: give up on everything the loop writes
                    self.st = o.breaks[0]
                    self.top("conditional break line %d" % s.lineno)
                    self.havoc_modified([s], e, m)
                    out.st = self.st
                    return out
                st = o.st
                if o.conts:
                    if st is None and len(o.conts) == 1 and not o.rets:
                        st = o.conts[0]
                    elif st is not None and len(o.conts) == 1 and not isinstance(o.conts[0].pc, TopV):
                        cs = o.conts[0]
                        pc0 = cs.pc + st.pc if not isinstance(st.pc, TopV) else TopV("pc")
                        st = self.merge_states(cs.pc, cs, st)
                        if isinstance(pc0, Expr):
                            st.pc = pc0
                    else:
                        self.st = o.conts[0]
                        self.top("continue line %d" % s.lineno)
                        self.havoc_modified([s], e, m)
                        st = self.st
                if st is None:
                    out.st = None
                    return out
                self.st = st
            if s.orelse:
                o = self.exec_block(s.orelse, e, m)
                out.rets += o.rets
                self.st = o.st
            out.st = self.st
            return out
        _, n, itemfn = seq
        names = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]

        def bind(iv):
            return ("target", s.target, itemfn(iv))
        self.sym_loop(n, bind, s.body, e, m, names=names)
        return None

    def iter_spec(self, it):
        """('items', [values]) or ('sym', n, fn(iv)->value)"""
        if isinstance(it, SymRange):
            n = num(it.hi) - num(it.lo)
            st = simp_num(it.step)
            if st == -1:
                n = num(it.lo) - num(it.hi)
                k = n.as_int()
                if k is not None and k <= self.UNROLL:
                    return ("items", [simp_num(num(it.lo) - E_const(i)) for i in range(k)])
                return ("sym", n, lambda iv: simp_num(num(it.lo) - iv))
            if st != 1:
                lo, hi = simp_num(num(it.lo)), simp_num(num(it.hi))
                if all(isinstance(x, int) for x in (lo, hi, st)):
                    return ("items", list(range(lo, hi, st))) if len(range(lo, hi, st)) <= self.UNROLL else None
                return None
            k = n.as_int()
            if k is not None and k <= self.UNROLL:
                return ("items", [simp_num(num(it.lo) + E_const(i)) for i in range(max(k, 0))])
            return ("sym", n, lambda iv: simp_num(num(it.lo) + iv))
        if isinstance(it, tuple):
            return ("items", list(it))
        if isinstance(it, str):
            return ("items", list(it))
        if isinstance(it, Ref):
            c = self.st.heap[it.loc]
            if isinstance(c, CList):
                return ("items", list(c.items))
            if isinstance(c, CDict):
                return ("items", list(c.d.keys()))
            if isinstance(c, CRec):
                return ("items", [RowV(it, i) for i in range(c.n)])
            if isinstance(c, CSym):
                return ("sym", c.n, lambda iv, it=it: self.getitem(it, iv))
            return None
        if isinstance(it, AV):
            k = it.dims[0].as_int()
            if k is not None and k <= self.UNROLL:
                return ("items", [self.getitem(it, i) for i in range(k)])
            return ("sym", it.dims[0], lambda iv: self.getitem(it, iv))
        if isinstance(it, Zip):
            specs = [self.iter_spec(x) for x in it.parts]
            if any(x is None for x in specs):
                return None
            if all(x[0] == "items" for x in specs):
                return ("items", [Tup(t) for t in zip(*[x[1] for x in specs])])
            if any(x[0] == "items" for x in specs):
                # mix: only when the concrete ones are long lists - undecided
                k = min(len(x[1]) for x in specs if x[0] == "items")
                return ("items", [Tup(x[1][i] if x[0] == "items" else x[2](E_const(i)) for x in specs) for i in range(k)])
            return ("sym", specs[0][1], lambda iv: Tup(x[2](iv) for x in specs))
        if isinstance(it, Enum):
            sp = self.iter_spec(it.part)
            if sp is None:
                return None
            if sp[0] == "items":
                return ("items", [Tup((simp_num(num(it.start) + E_const(i)), v)) for i, v in enumerate(sp[1])])
            return ("sym", sp[1], lambda iv: Tup((simp_num(num(it.start) + iv), sp[2](iv))))
        return None

    # -- modified locations
    def diff_heap(self, a, b):
        """locations of a changed in b: list of ('cell',loc) / ('slot',loc,name) / ('list',loc)"""
        out = []
        for loc, ca in a.items():
            cb = b.get(loc)
            if cb is ca or cb is None:
                continue
            if isinstance(ca, Arr) and isinstance(cb, Arr):
                if ca != cb:
                    out.append(("cell", loc))
            elif isinstance(ca, CEnv) and isinstance(cb, CEnv):
                for k in cb.vars:
                    if k not in ca.vars or not self.same(ca.vars[k], cb.vars[k]):
                        out.append(("slot", loc, k))
            elif isinstance(ca, CObj) and isinstance(cb, CObj):
                for k in cb.attrs:
                    if k not in ca.attrs or not self.same(ca.attrs[k], cb.attrs[k]):
                        out.append(("slot", loc, k))
            elif isinstance(ca, CDict) and isinstance(cb, CDict):
                for k in cb.d:
                    if k not in ca.d or not self.same(ca.d[k], cb.d[k]):
                        out.append(("slot", loc, k))
            elif isinstance(ca, CList) and isinstance(cb, CList):
                if len(ca.items) != len(cb.items) or not all(self.same(x, y) for x, y in zip(ca.items, cb.items)):
                    out.append(("list", loc))
            elif isinstance(ca, TopV):
                continue
            else:
                out.append(("cell", loc))
        return out

    def slot_get(self, heap, loc, k):
        c = heap[loc]
        d = c.vars if isinstance(c, CEnv) else c.attrs if isinstance(c, CObj) else c.d if isinstance(c, CDict) else None
        if d is None:
            return None
        return d.get(k, MISSING)

    def slot_set(self, heap, loc, k, v):
        c = heap[loc]
        if isinstance(c, CEnv):
            d = dict(c.vars)
            d[k] = v
            heap[loc] = CEnv(d, c.parent, c.mod)
        elif isinstance(c, CObj):
            d = dict(c.attrs)
            d[k] = v
            heap[loc] = CObj(c.cls, d, c.havoc, c.tag)
        elif isinstance(c, CDict):
            d = dict(c.d)
            d[k] = v
            heap[loc] = CDict(d)

    def havoc_keys(self, keys):
        for k in keys:
            if k[0] in ("cell", "list"):
                self.st.heap[k[1]] = TopV("loop")
            else:
                self.slot_set(self.st.heap, k[1], k[2], TopV("loop"))

    def havoc_modified(self, stmts, e, m):
        """Top for everything the statements may write (found by analysing them once)"""
        st0 = self.st
        try:
            self.st = st0.fork()
            self.st.pc = TopV("havoc")
            body = stmts
            if len(stmts) == 1 and isinstance(stmts[0], ast.For):
                self.assign(stmts[0].target, TopV("loop variable"), e, m)
                body = stmts[0].body
            elif len(stmts) == 1 and isinstance(stmts[0], ast.While):
                body = stmts[0].body
            o = self.exec_block(body, e, m)
            sts = [x for x in ([o.st] + o.breaks + o.conts + [r[0] for r in o.rets]) if x is not None]
        except TopError:
            sts = [self.st]
        keys = []
        for s in sts:
            for k in self.diff_heap(st0.heap, s.heap):
                if k not in keys:
                    keys.append(k)
        self.st = st0
        self.havoc_keys(keys)
        for s in stmts:
            self.havoc_assigned(s, e)

    def sym_loop(self, n, bind, stmts, e, m, names=()):
        """closed form of  for iv in range(n): stmts"""
        n = num(n)
        st0 = self.st
        ivn = fresh("L")
        iv = E_iv(ivn)
        self.ranges[ivn] = n
        keys = []
        place = {}
        res = None
        for attempt in range(6):
            st = st0.fork()
            st.pc = E1
            place = {}
            for k in keys:
                self.place_symbol(k, st, st0, place)
            self.st = st
            base = dict(st.heap)
            b = bind(iv)
            if isinstance(b, tuple) and b and b[0] == "target":
                self.assign(b[1], b[2], e, m)
            else:
                for nm, v in b.items():
                    self.setvar(nm, v, e)
            o = self.exec_block(stmts, e, m)
            bad = o.rets or o.breaks
            stf = o.st
            if o.conts and not bad:
                if stf is None and len(o.conts) == 1:
                    stf = o.conts[0]
                elif stf is not None and len(o.conts) == 1 and isinstance(o.conts[0].pc, Expr) and isinstance(stf.pc, Expr):
                    stf = self.merge_states(o.conts[0].pc, o.conts[0], stf)
                else:
                    bad = True
            if bad or stf is None:
                self.st = st0
                self.top("early exit from a symbolic loop")
                allk = list(keys)
                for s2 in [x for x in [o.st] + o.breaks + o.conts + [r[0] for r in o.rets] if x is not None]:
                    for k in self.diff_heap(st0.heap, s2.heap):
                        if k not in allk:
                            allk.append(k)
                self.havoc_keys(allk)
                return
            new = [k for k in self.diff_heap(st0.heap, stf.heap) if k not in keys]
            # locations that changed relative to their placeholder
            if not new:
                res = stf
                break
            keys += new
        if res is None:
            self.st = st0
            self.havoc_keys(keys)
            self.top("loop does not settle")
            return
        self.solve_loop(keys, place, st0, res, ivn, n)

    def place_symbol(self, k, st, st0, place):
        if k[0] == "cell":
            c = st0.heap[k[1]]
            if isinstance(c, Arr):
                nm = fresh("mu") + "_"
                self.copy_facts(c.body, nm)
                st.heap[k[1]] = Arr(c.dims, E_el(nm, [E_iv("@%d" % i) for i in range(c.ndim)]))
                place[k] = (nm, "arr", c)
            return
        if k[0] == "slot":
            v = self.slot_get(st0.heap, k[1], k[2])
            if v is MISSING or v is None:
                return
            if is_num(v) and not isinstance(v, bool):
                nm = fresh("mu") + "_"
                self.copy_facts(num(v), nm)
                self.slot_set(st.heap, k[1], k[2], E_sym(nm))
                place[k] = (nm, "num", num(v))
                return
            if isinstance(v, AV):
                save = self.st
                self.st = st0
                a = self.arr(v)
                self.st = save
                if isinstance(a, TopV):
                    return
                nm = fresh("mu") + "_"
                self.copy_facts(a.body, nm)
                self.nloc += 1
                st.heap[self.nloc] = Arr(a.dims, E_el(nm, [E_iv("@%d" % i) for i in range(a.ndim)]))
                self.slot_set(st.heap, k[1], k[2], AV(self.nloc, a.dims, None, v.kind))
                place[k] = (nm, "av", a, self.nloc)

    def copy_facts(self, e, nm):
        if nf.is_intval(e):
            REG.ints.add(nm)
            REG.declare(nm, nonneg=True)

    def solve_loop(self, keys, place, st0, res, ivn, n):
        """replace the post-loop contents of `keys` by closed forms"""
        iv = E_iv(ivn)
        eqs = {}
        lists = {}
        others = []
        save = self.st
        self.st = res
        for k in keys:
            if k[0] == "list":
                lists[k] = (st0.heap[k[1]], res.heap[k[1]])
                continue
            if k[0] == "cell":
                c = res.heap[k[1]]
                if k in place and isinstance(c, Arr):
                    eqs[k] = (place[k][0], place[k][2], c)
                else:
                    others.append(k)
                continue
            v = self.slot_get(res.heap, k[1], k[2])
            if k in place:
                p = place[k]
                if p[1] == "num" and is_num(v):
                    eqs[k] = (p[0], Arr((), p[2]), Arr((), num(v)))
                    continue
                if p[1] == "av" and isinstance(v, AV):
                    try:
                        a = self.arr(v)
                    except TopError:
                        a = TopV("x")
                    if isinstance(a, Arr) and a.ndim == p[2].ndim:
                        # the bound cell itself may have been written in place
                        eqs[k] = (p[0], p[2], a)
                        continue
                others.append(k)
            else:
                others.append(k)
        mus = {eqs[k][0]: k for k in eqs}
        closed = {}       # mu name -> (Arr C(iv), Arr final)
        pending = dict(eqs)
        progress = True
        while pending and progress:
            progress = False
            for k in list(pending):
                mu, init, R = pending[k]
                fns = {}
                for q, (C, Fi) in closed.items():
                    fns[q] = self._atom_fn(C)
                try:
                    if fns:
                        R = replace_atoms(R, fns)
                    rest = [q for q in mus if q != mu and q in R.key]
                    if rest:
                        continue
                    cf = self.closed_form(mu, init, R, ivn, n)
                except TopError as ex:
                    self.top("loop recurrence: %s" % ex)
                    cf = None
                progress = True
                del pending[k]
                if cf is None:
                    self.top("loop recurrence for %s" % (k,))
                    others.append(k)
                    mus_bad = mu
                    closed_top = closed.setdefault("!top", set()) if False else None
                    self._bad = getattr(self, "_bad", set())
                    self._bad.add(mu)
                else:
                    closed[mu] = cf
        bad = {pending[k][0] for k in pending} | {eqs[k][0] for k in eqs if eqs[k][0] not in closed}
        for k in pending:
            others.append(k)
        fns_final = {q: self._atom_fn(C) for q, (C, Fi) in closed.items()}
        last = {ivn: n - E1}

        def fin_arr(a):
            """value at the end of the last iteration"""
            if any(b in a.key for b in bad):
                return TopV("loop")
            if fns_final:
                a = replace_atoms(a, fns_final)
            return Arr([d.subst(last) for d in a.dims], a.body.subst(last))

        out = res            # new cells allocated in the body stay available
        newheap = Heap(st0.heap)
        # cells created inside the loop: value in the last iteration
        created = [l for l in res.heap if l not in st0.heap]
        for l in created:
            c = res.heap[l]
            if isinstance(c, Arr):
                try:
                    newheap[l] = fin_arr(c)
                except TopError:
                    newheap[l] = TopV("loop")
            else:
                newheap[l] = c
        self._raw_created = {l: res.heap[l] for l in created}
        stn = State(newheap, st0.pc)
        newheap = stn.heap
        stn.pc = st0.pc
        self.st = stn
        for k in eqs:
            mu = eqs[k][0]
            if mu in closed:
                fin = closed[mu][1]
                if k[0] == "cell":
                    newheap[k[1]] = fin
                else:
                    p = place[k]
                    if p[1] == "num":
                        self.slot_set(newheap, k[1], k[2], simp_num(fin.body))
                    else:
                        v = self.slot_get(res.heap, k[1], k[2])
                        if v.loc == p[3] and v.imap is None:
                            # in-place update of the same array: same object as before the loop
                            old = self.slot_get(st0.heap, k[1], k[2])
                            self.store_all(old, self.new_arr(fin))
                        else:
                            self.slot_set(newheap, k[1], k[2], self.new_arr(fin, v.kind))
        for k in others:
            if k[0] == "cell":
                newheap[k[1]] = TopV("loop")
                continue
            old = self.slot_get(st0.heap, k[1], k[2])
            v = self.slot_get(res.heap, k[1], k[2])
            if k in place:
                self.slot_set(newheap, k[1], k[2], TopV("loop"))
            elif old is MISSING or old is None:
                # assigned in the body on every iteration: last value
                self.slot_set(newheap, k[1], k[2], self.loop_last(v, fin_arr, last, bad, fns_final))
            else:
                self.slot_set(newheap, k[1], k[2], self.loop_last(v, fin_arr, last, bad, fns_final) if not isinstance(old, Ref) else TopV("loop"))
        for k, (c0, c1) in lists.items():
            newheap[k[1]] = TopV("list in loop")
            if isinstance(c0, CList) and isinstance(c1, CList) and not c0.items and len(c1.items) == 1:
                el = self.lift(c1.items[0], res, fns_final, bad)
                newheap[k[1]] = CSym(n, ivn, el) if not isinstance(el, TopV) else el

    def lift(self, v, res, fns, bad):
        """value at iteration iv, with closed forms for carried symbols"""
        if isinstance(v, TopV):
            return v
        if is_num(v):
            e = num(v)
            if any(b in e.key for b in bad):
                return TopV("loop")
            return simp_num(replace_atoms(e, fns) if fns else e)
        if isinstance(v, AV):
            save = self.st
            self.st = res
            a = self.arr(v)
            self.st = save
            if isinstance(a, TopV) or any(b in a.key for b in bad):
                return TopV("loop")
            return self.new_arr(replace_atoms(a, fns) if fns else a, v.kind)
        if isinstance(v, tuple):
            return Tup(self.lift(x, res, fns, bad) for x in v)
        if isinstance(v, (str, type(None))):
            return v
        return TopV("element kind")

    def loop_last(self, v, fin_arr, last, bad, fns):
        if is_num(v):
            e = num(v)
            if any(b in e.key for b in bad):
                return TopV("loop")
            if fns:
                e = replace_atoms(e, fns)
            return simp_num(e.subst(last))
        if isinstance(v, AV):
            if v.imap is not None:
                # a view: value only
                try:
                    return AV(v.loc, [d.subst(last) for d in v.dims], tuple(x.subst(last) for x in v.imap), v.kind) if not any(
                        b in x.key for b in bad for x in v.imap) and not fns else TopV("view in loop")
                except TopError:
                    return TopV("view")
            return AV(v.loc, [d.subst(last) for d in v.dims], None, v.kind)
        if isinstance(v, tuple):
            return Tup(self.loop_last(x, fin_arr, last, bad, fns) for x in v)
        if isinstance(v, Ref):
            return TopV("object created in a loop")
        return v

    def _atom_fn(self, C):
        def f(idx, cj):
            r = C.at(idx) if C.ndim else C.body
            return r.conj() if cj else r
        return f

    def closed_form(self, mu, init, R, ivn, n):
        """(C(iv), final) for  mu' = R(mu, iv), mu(0) = init"""
        iv = E_iv(ivn)
        nd = init.ndim
        own = [E_iv("@%d" % i) for i in range(nd)]
        prev = {ivn: iv - E1}
        # split R = a*mu + t
        a_terms = nf.Acc()
        t_terms = nf.Acc()
        if mu not in R.key:
            if R.dims != init.dims:
                dimsn = [d.subst({ivn: n - E1}) for d in R.dims]
                return (Arr(R.dims, E_sym(fresh("undef"))), Arr(dimsn, R.body.subst({ivn: n - E1})))
            c0 = mk_ind("eq", iv)
            C = Arr(init.dims, gate(c0, init.body, R.body.subst(prev)))
            return C, Arr(R.dims, R.body.subst({ivn: n - E1}))
        if R.dims != init.dims:
            raise TopError("carried array changes shape")
        for c, b, f in R.body.terms.values():
            hit = [(q, (nd_, ex)) for q, (nd_, ex) in enumerate(f) if nd_.kind in ("el", "sym") and nd_.name == mu]
            inner = [nd_ for nd_, ex in f if mu in nd_.key and not (nd_.kind in ("el", "sym") and nd_.name == mu)]
            inner += [1 for q_, sz in b if mu in sz.key]
            if not inner and len(hit) == 1 and hit[0][1][1] == 1 and not hit[0][1][0].cj and (
                    hit[0][1][0].kind == "sym" or all(
                        x == y or (d.as_int() == 1 and x.is_zero()) for x, y, d in zip(hit[0][1][0].idx, own, init.dims))):
                q = hit[0][0]
                a_terms.add_raw(c, b, f[:q] + f[q + 1:])
            else:
                t_terms.add_raw(c, b, f)
        a = a_terms.expr()
        t = t_terms.expr()
        tt = mu in t.key
        one_minus = E1 - a
        # iteration axis: an axis index tied to iv by a delta present in every t-term
        axis = self._delta_axis(t, ivn, nd)
        if tt:
            # the map rule: at iteration iv only the slice tied to iv is read, still holding its initial value
            if axis is None:
                raise TopError("recurrence reads earlier iterations")
            k, off = axis
            ok = [True]

            def chk(idx, cj):
                if idx[k] != own[k] and idx[k] != iv + off:
                    ok[0] = False
                r = init.at(idx)
                return r.conj() if cj else r
            t = replace_atoms(t, {mu: chk})
            # the slice must not have been touched by an earlier iteration: a is 1 or 1-delta
            if not ok[0]:
                raise TopError("recurrence reads another slice")
        S = lambda ex, hi: esum(ex.subst({ivn: E_iv("LS_")}), "LS_", hi)
        if a == E1:
            if ivn not in t.fv:
                return Arr(init.dims, init.body + iv * t), Arr(init.dims, init.body + n * t)
            return (Arr(init.dims, init.body + S(t, iv)), Arr(init.dims, init.body + S(t, n)))
        # overwrite under a condition that selects disjoint positions for different iterations
        cond = one_minus
        if cond * cond == cond and (self._disjoint(cond, ivn, nd)) and cond * t == t:
            C = Arr(init.dims, init.body * (E1 - S(cond, iv)) + S(t, iv))
            Fi = Arr(init.dims, init.body * (E1 - S(cond, n)) + S(t, n))
            return C, Fi
        if a.is_zero() and not tt:
            raise TopError("unreachable")
        if t.is_zero() and ivn not in a.fv and nd == 0:
            # geometric
            base = E_node(Fn("powi", (a, iv)))
            return Arr((), init.body * base), Arr((), init.body * E_node(Fn("powi", (a, n))))
        raise TopError("recurrence a=%s" % a.key[:80])

    def _delta_axis(self, t, ivn, nd):
        found = None
        for c, b, f in t.terms.values():
            here = None
            for n, ex in f:
                if n.kind == "ind" and n.op == "eq" and ivn in n.fv:
                    for k in range(nd):
                        v = "@%d" % k
                        if v in n.fv:
                            l1 = nf._linear_in(n.e, ivn)
                            l2 = nf._linear_in(n.e, v)
                            if l1 and l2 and l1[0] == -l2[0] and abs(l1[0]) == 1:
                                off = (n.e - (E_iv(v) - E_iv(ivn)).scale((l2[0], F(0)))).scale((-l2[0], F(0)))
                                # n.e = l2*(@k - iv) + r  ->  @k = iv - r/l2
                                here = (k, off)
            if here is None:
                return None
            if found is None:
                found = here
            elif found[0] != here[0] or found[1] != here[1]:
                return None
        return found

    def _disjoint(self, cond, ivn, nd):
        for c, b, f in cond.terms.values():
            ok = False
            for n, ex in f:
                if n.kind == "ind" and n.op == "eq" and ivn in n.fv:
                    l = nf._linear_in(n.e, ivn)
                    if l and abs(l[0]) == 1:
                        ok = True
                if n.kind == "win" and ivn in n.fv:
                    # consecutive blocks: window [s(i), s(i)+m(i)) with s a prefix sum of m
                    for k in range(nd):
                        l = nf._linear_in(n.e, "@%d" % k)
                        if l and l[0] == 1:
                            s = -l[1]
                            nxt = s.subst({ivn: E_iv(ivn) + E1})
                            pf = self._prefix_step(s, ivn)
                            if pf is not None and pf == n.m:
                                ok = True
                            elif (nxt - s) == n.m:
                                ok = True
            if not ok:
                return False
        return True

    def _prefix_step(self, s, ivn):
        """s = const + SUM_{b<iv} d(b)  ->  d(iv)"""
        step = E0
        for c, b, f in s.terms.values():
            fvs = set()
            for n, _ in f:
                fvs |= n.fv
            hits = [(q, sz) for q, sz in b if ivn in sz.fv]
            if not hits and ivn not in fvs:
                continue
            if len(hits) == 1 and hits[0][1].single_iv() == ivn and ivn not in fvs and len(b) == 1:
                acc = nf.Acc()
                acc.add_raw(c, (), nf._ren(list(f), {hits[0][0]: E_iv(ivn)}))
                step = step + acc.expr()
            elif not b and len(f) == 1 and f[0][0].kind == "iv" and f[0][1] == 1:
                step = step + E_const(c)
            elif not b and sum(1 for n, ex in f if n.kind == "iv" and n.name == ivn and ex == 1) == 1 and sum(1 for n, ex in f if ivn in n.fv) == 1:
                acc = nf.Acc()
                acc.add_raw(c, (), [(n, ex) for n, ex in f if not (n.kind == "iv" and n.name == ivn)])
                step = step + acc.expr()
            else:
                return None
        return step

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, e, m):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, e)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            try:
                items = self.items(v, n if not star else None)
            except TopError:
                items = None
            if items is None or (not star and len(items) != n):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, TopV("unpack"), e, m)
                return
            if star:
                i = star[0]
                k = len(items) - (n - 1)
                items = items[:i] + [self.new_list(items[i:i + k])] + items[i + k:]
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, e, m)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, e, m), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, e, m)
            try:
                i = self.ev_index(t.slice, e, m)
                self.setitem(o, i, v)
            except TopError as ex:
                self.top("store line %d: %s" % (t.lineno, ex))
                self.havoc_val(o)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, e, m)

    def items(self, v, n=None):
        """concrete sequence of a value"""
        if isinstance(v, TopV):
            if n is not None:
                return [v] * n
            raise TopError("unpack Top")
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            c = self.st.heap[v.loc]
            if isinstance(c, CList):
                return list(c.items)
            if isinstance(c, CDict):
                return list(c.d.keys())
            if isinstance(c, CRec):
                return [RowV(v, i) for i in range(c.n)]
            if isinstance(c, CSym) and n is not None:
                return [self.getitem(v, i) for i in range(n)]
            k = c.n.as_int() if isinstance(c, CSym) else None
            if k is not None:
                return [self.getitem(v, i) for i in range(k)]
        if isinstance(v, AV):
            k = v.dims[0].as_int()
            if k is None:
                k = n
            if k is not None:
                return [self.getitem(v, i) for i in range(k)]
        if isinstance(v, SymRange):
            sp = self.iter_spec(v)
            if sp and sp[0] == "items":
                return sp[1]
        if isinstance(v, (Zip, Enum)):
            sp = self.iter_spec(v)
            if sp and sp[0] == "items":
                return sp[1]
        if isinstance(v, str):
            return list(v)
        raise TopError("unpack %s" % type(v).__name__)

    def havoc_val(self, v):
        if isinstance(v, AV):
            self.st.heap[v.loc] = TopV("havoc")
        elif isinstance(v, Ref):
            c = self.st.heap[v.loc]
            if isinstance(c, CObj):
                self.st.heap[v.loc] = CObj(c.cls, {}, True, c.tag)
            else:
                self.st.heap[v.loc] = TopV("havoc")

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, TopV):
            return o
        if o is None and not hasattr(None, name):
            self.crash("attribute %s of None" % name)
        if isinstance(o, ModuleVal):
            v = self.mod_attr(o, name)
            if v is None:
                return ExtMod(o.name + "." + name)
            return v
        if isinstance(o, ExtMod):
            return self.np.ext_attr(o, name)
        if isinstance(o, Ref):
            c = self.st.heap[o.loc]
            if isinstance(c, TopV):
                return c
            if isinstance(c, CObj):
                if name in c.attrs:
                    return c.attrs[name]
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return self.top("__dict__")
                if c.havoc:
                    return TopV("object escaped to unknown code")
                if isinstance(c.cls, ClassVal):
                    k, a = c.cls.find(name)
                    if k is not None:
                        if isinstance(a, FuncVal):
                            if "property" in a.decos:
                                return self.call_func(a, [o], {})
                            if "staticmethod" in a.decos:
                                return a
                            return Bound(a, o)
                        return a
                if c.tag in ("comm", "seedseq", "rng"):
                    return Method(o, name)
                if isinstance(c.cls, Builtin):
                    return Method(o, name)
                return self.top("attribute %s of %s" % (name, getattr(c.cls, "name", c.cls)))
            return Method(o, name)
        if isinstance(o, SuperVal):
            mro = self.st.heap[o.self_.loc].cls.mro() if isinstance(o.self_, Ref) and isinstance(self.st.heap[o.self_.loc], CObj) and isinstance(
                self.st.heap[o.self_.loc].cls, ClassVal) else o.cls.mro()
            i = mro.index(o.cls) if o.cls in mro else 0
            for k in mro[i + 1:]:
                if name in k.attrs:
                    a = k.attrs[name]
                    if isinstance(a, FuncVal):
                        if "property" in a.decos:
                            return self.call_func(a, [o.self_], {})
                        return Bound(a, o.self_)
                    return a
            if name == "__init__":
                return Builtin("_noop")
            return self.top("super().%s" % name)
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            k, a = o.find(name)
            if k is not None:
                if isinstance(a, FuncVal) and "classmethod" in a.decos:
                    return Bound(a, o)
                return a
            return self.top("class attribute %s.%s" % (o.name, name))
        if isinstance(o, (AV, MaskView)):
            return self.np.arr_attr(o, name)
        if is_num(o):
            return self.np.num_attr(o, name)
        if isinstance(o, (str, tuple, OpaqueStr, SymRange, type(None))):
            return Method(o, name)
        if isinstance(o, FuncVal) and name == "__name__":
            return o.name
        if isinstance(o, (Bound, FuncVal)):
            return self.top("function attribute")
        return self.top("attribute %s" % name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.st.heap[o.loc]
            if isinstance(c, CObj):
                if isinstance(c.cls, ClassVal):
                    k, a = c.cls.find(name)
                    if isinstance(a, FuncVal) and (name + ".setter" in a.decos or "setter" in a.decos):
                        self.call_func(a, [o, v], {})
                        return
                d = dict(c.attrs)
                d[name] = v
                self.st.heap[o.loc] = CObj(c.cls, d, c.havoc, c.tag)
                return
        if isinstance(o, AV) and name == "shape":
            raise TopError("shape assignment")
        if isinstance(o, ClassVal):
            o.attrs[name] = v
            return
        self.top("attribute store")

    # ------------------------------------------------------------ items
    def getitem(self, o, i):
        if isinstance(o, TopV):
            return o
        if isinstance(i, TopV):
            return i
        if isinstance(o, RowV):
            return self.getitem(self.getitem(o.ref, i), o.i)
        if isinstance(o, Ref) and isinstance(self.st.heap[o.loc], CObj) and self.st.heap[o.loc].tag == "seedspawn" and is_num(i):
            return self.new_obj(None, {"entropy": nf.mk_fn("seedchild", [self.st.heap[o.loc].attrs["entropy"], num(i)])}, tag="seedseq")
        if isinstance(o, Ref) and isinstance(self.st.heap[o.loc], CRec):
            c = self.st.heap[o.loc]
            if isinstance(i, str):
                if i not in c.cols:
                    raise TopError("no field " + i)
                return c.cols[i]
            k = simp_num(i) if is_num(i) else i
            if isinstance(k, int):
                if not -c.n <= k < c.n:
                    raise TopError("index out of range")
                return RowV(o, k % c.n)
            if isinstance(i, (AV, Ref)):
                cols = {f: self.np.index(a, i) for f, a in c.cols.items()}
                n = {a.dims[0].as_int() for a in cols.values() if isinstance(a, AV)}
                if len(n) != 1 or None in n or any(not isinstance(a, AV) for a in cols.values()):
                    raise TopError("record selection")
                return Ref(self.alloc(CRec({f: self.new_arr(self.arr(a), a.kind) for f, a in cols.items()}, n.pop())))
            raise TopError("record index")
        if isinstance(o, AV):
            return self.np.index(o, i)
        if isinstance(o, tuple) or isinstance(o, str):
            if isinstance(i, Slice):
                return type(o)(o[self.pyslice(i)]) if not isinstance(o, str) else o[self.pyslice(i)]
            k = simp_num(i) if is_num(i) else i
            if isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise TopError("index out of range")
            if isinstance(k, Expr):
                return self.getitem(self.new_list(o), k)
            raise TopError("tuple index")
        if isinstance(o, Ref):
            c = self.st.heap[o.loc]
            if isinstance(c, TopV):
                return c
            if isinstance(c, CList):
                if isinstance(i, Slice):
                    return self.new_list(c.items[self.pyslice(i)])
                k = simp_num(i) if is_num(i) else i
                if isinstance(k, int):
                    if -len(c.items) <= k < len(c.items):
                        return c.items[k]
                    raise TopError("list index out of range")
                if isinstance(k, Expr):
                    a = self.arr(o)
                    if isinstance(a, TopV):
                        return a
                    return self.np.index(self.new_arr(a), k)
                raise TopError("list index")
            if isinstance(c, CDict):
                k = simp_num(i) if is_num(i) else i
                try:
                    if k in c.d:
                        return c.d[k]
                except TypeError:
                    pass
                return self.top("dict key %r" % (k,))
            if isinstance(c, CSym):
                if isinstance(i, Slice):
                    raise TopError("slice of symbolic list")
                k = num(i)
                if k.as_int() is not None and k.as_int() < 0:
                    k = c.n + k
                return self.subst_val(c.elem, {c.iv: k})
            if isinstance(c, CObj) and isinstance(c.cls, ClassVal):
                kk, a = c.cls.find("__getitem__")
                if kk is not None:
                    return self.call_func(a, [o, i], {})
            if isinstance(c, CObj) and c.tag == "arraylike":
                return self.getitem(c.attrs["value"], i)
        if isinstance(o, SymRange):
            if isinstance(i, Slice):
                kind, lo, n = self.np.slice_bounds(i, num(o.hi) - num(o.lo))
                if kind != "fwd":
                    raise TopError("reversed range")
                return SymRange(simp_num(num(o.lo) + lo), simp_num(num(o.lo) + lo + n))
            k = num(i)
            if k.as_int() is not None and k.as_int() < 0:
                return simp_num(num(o.hi) + k)
            return simp_num(num(o.lo) + k)
        if isinstance(o, ExtMod):
            return self.np.ext_getitem(o, i)
        if isinstance(o, MaskView):
            raise TopError("index of a boolean selection")
        raise TopError("subscript of %s" % type(o).__name__)

    def subst_val(self, v, mp):
        if is_num(v):
            return simp_num(num(v).subst(mp))
        if isinstance(v, AV):
            a = self.arr(v)
            if isinstance(a, TopV):
                return a
            n = a.ndim
            # substitution values may use @-axes only through scalars; elements are evaluated at scalar indices
            return self.new_arr(Arr([d.subst(mp) for d in a.dims], a.body.subst(mp)), v.kind)
        if isinstance(v, tuple):
            return Tup(self.subst_val(x, mp) for x in v)
        if isinstance(v, Ref):
            c = self.st.heap[v.loc]
            if isinstance(c, CList):
                return self.new_list([self.subst_val(x, mp) for x in c.items])
            if isinstance(c, CSym):
                return Ref(self.alloc(CSym(c.n.subst(mp), c.iv, self.subst_val(c.elem, mp))))
        return v

    def pyslice(self, s):
        def g(x):
            if x is None:
                return None
            x = simp_num(x)
            if not isinstance(x, int):
                raise TopError("symbolic slice of a list")
            return x
        return slice(g(s.lo), g(s.hi), g(s.step))

    def setitem(self, o, i, v):
        if isinstance(o, TopV):
            return
        if isinstance(o, RowV):
            self.setitem(self.getitem(o.ref, i), o.i, v)
            return
        if isinstance(o, Ref) and isinstance(self.st.heap[o.loc], CRec):
            if not isinstance(i, str):
                raise TopError("record store")
            self.store_all(self.st.heap[o.loc].cols[i], v)
            return
        if isinstance(o, AV):
            self.np.store(o, i, v)
            return
        if isinstance(o, Ref):
            c = self.st.heap[o.loc]
            if isinstance(c, TopV):
                return
            if isinstance(c, CList):
                if isinstance(i, Slice):
                    items = list(c.items)
                    items[self.pyslice(i)] = self.items(v)
                    self.st.heap[o.loc] = CList(items)
                    return
                k = simp_num(i) if is_num(i) else i
                if isinstance(k, int) and -len(c.items) <= k < len(c.items):
                    items = list(c.items)
                    items[k] = v
                    self.st.heap[o.loc] = CList(items)
                    return
                self.st.heap[o.loc] = TopV("list store")
                return
            if isinstance(c, CDict):
                k = simp_num(i) if is_num(i) else i
                if isinstance(k, (str, int, tuple)) and not isinstance(k, bool):
                    d = dict(c.d)
                    d[k] = v
                    self.st.heap[o.loc] = CDict(d)
                    return
                self.st.heap[o.loc] = TopV("dict store")
                return
            if isinstance(c, CSym):
                self.st.heap[o.loc] = TopV("symbolic list store")
                return
            if isinstance(c, CObj) and isinstance(c.cls, ClassVal):
                kk, a = c.cls.find("__setitem__")
                if kk is not None:
                    self.call_func(a, [o, i, v], {})
                    return
        if isinstance(o, MaskView):
            raise TopError("store through a boolean selection")
        raise TopError("item store")

    def store_all(self, av, val):
        """av[...] = val (in place)"""
        if isinstance(val, TopV):
            self.havoc_val(av)
            return
        self.np.store_view(av, val)

    # ------------------------------------------------------------ expressions
    def ev(self, x, e, m):
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError("step limit")
        fn = getattr(self, "e_" + type(x).__name__, None)
        if fn is None:
            raise TopError("expression %s" % type(x).__name__)
        return fn(x, e, m)

    def e_Constant(self, x, e, m):
        v = x.value
        if isinstance(v, float):
            return simp_float(v)
        if isinstance(v, complex):
            return E_const(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, x, e, m):
        return self.getvar(x.id, e)

    def e_JoinedStr(self, x, e, m):
        parts = []
        for p in x.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
            else:
                if p.format_spec is None:
                    try:
                        v = self.ev(p.value, e, m)
                    except TopError:
                        return OpaqueStr()
                    if isinstance(v, (str, int)):
                        parts.append(str(v))
                        continue
                return OpaqueStr()
        return "".join(parts)

    def e_Tuple(self, x, e, m):
        out = []
        for y in x.elts:
            if isinstance(y, ast.Starred):
                out += self.items(self.ev(y.value, e, m))
            else:
                out.append(self.ev(y, e, m))
        return Tup(out)

    def e_List(self, x, e, m):
        return self.new_list(self.e_Tuple(x, e, m))

    def e_Set(self, x, e, m):
        return Tup(self.e_Tuple(x, e, m))

    def e_Dict(self, x, e, m):
        d = {}
        for k, v in zip(x.keys, x.values):
            if k is None:
                o = self.ev(v, e, m)
                c = self.st.heap[o.loc] if isinstance(o, Ref) else None
                if isinstance(c, CDict):
                    d.update(c.d)
                    continue
                raise TopError("dict unpack")
            kk = self.ev(k, e, m)
            try:
                hash(kk)
            except TypeError:
                raise TopError("dict key")
            d[kk] = self.ev(v, e, m)
        return self.new_dict(d)

    def e_Attribute(self, x, e, m):
        return self.getattr(self.ev(x.value, e, m), x.attr)

    def e_Starred(self, x, e, m):
        raise TopError("starred")

    def e_NamedExpr(self, x, e, m):
        v = self.ev(x.value, e, m)
        self.assign(x.target, v, e, m)
        return v

    def ev_index(self, x, e, m):
        if isinstance(x, ast.Tuple):
            return Tup(self.ev_index(y, e, m) for y in x.elts)
        if isinstance(x, ast.Slice):
            g = lambda y: None if y is None else self.ev(y, e, m)
            return Slice(g(x.lower), g(x.upper), g(x.step))
        return self.ev(x, e, m)

    def e_Subscript(self, x, e, m):
        o = self.ev(x.value, e, m)
        i = self.ev_index(x.slice, e, m)
        return self.getitem(o, i)

    def e_Slice(self, x, e, m):
        return self.ev_index(x, e, m)

    def e_Lambda(self, x, e, m):
        fv = FuncVal(x, m, e)
        for d in x.args.defaults:
            fv.defaults.append(self.ev(d, e, m))
        return fv

    def e_IfExp(self, x, e, m):
        c = self.cond(x.test, e, m)
        if c is True:
            return self.ev(x.body, e, m)
        if c is False:
            return self.ev(x.orelse, e, m)
        a = self.ev(x.body, e, m)
        b = self.ev(x.orelse, e, m)
        return self.merge_val(c, a, b, self.st, self.st, self.st)

    def e_UnaryOp(self, x, e, m):
        if isinstance(x.op, ast.Not):
            c = self.cond(x.operand, e, m)
            if isinstance(c, bool):
                return not c
            if isinstance(c, TopV):
                return c
            return E1 - c
        v = self.ev(x.operand, e, m)
        if isinstance(v, TopV):
            return v
        if isinstance(x.op, ast.USub):
            if isinstance(v, int) and not isinstance(v, bool):
                return -v
            if is_num(v):
                return simp_num(-num(v))
            return self.np.map1(lambda b: -b, v)
        if isinstance(x.op, ast.UAdd):
            return v
        if isinstance(x.op, ast.Invert):
            if isinstance(v, AV):
                return self.np.map1(lambda b: E1 - b, v, kind="b")
            if is_num(v):
                return E1 - num(v)
        raise TopError("unary")

    def e_BinOp(self, x, e, m):
        a = self.ev(x.left, e, m)
        b = self.ev(x.right, e, m)
        return self.binop(type(x.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if a is None or b is None:
            self.crash("operator %s on None" % op)
        if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mult" and isinstance(a, str) and isinstance(b, int):
                return a * b
            return OpaqueStr()
        if op == "BitOr" and (isinstance(a, (ClassVal, ExtMod, Builtin)) or isinstance(b, (ClassVal, ExtMod, Builtin))):
            return TopV("type union")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return Tup(tuple(a) + tuple(b))
        if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
            return Tup(tuple(a) * b)
        la = self.st.heap.get(a.loc) if isinstance(a, Ref) else None
        lb = self.st.heap.get(b.loc) if isinstance(b, Ref) else None
        if isinstance(la, TopV):
            return la
        if isinstance(lb, TopV):
            return lb
        nm = DUNDER.get(op)
        if nm:
            for x, l, y, pre in ((a, la, b, "__"), (b, lb, a, "__r")):
                if isinstance(l, CObj) and isinstance(l.cls, ClassVal):
                    kk, f = l.cls.find(pre + nm + "__")
                    if kk is not None:
                        return self.call_func(f, [x, y], {})
        if isinstance(la, CList) and isinstance(lb, CList) and op == "Add":
            return self.new_list(la.items + lb.items)
        if isinstance(la, CList) and op == "Mult" and is_num(b):
            k = simp_num(b)
            if isinstance(k, int):
                return self.new_list(la.items * k)
            if len(la.items) == 1:
                return Ref(self.alloc(CSym(num(k), fresh("L"), la.items[0])))
        if isinstance(lb, CList) and op == "Mult" and is_num(a):
            return self.binop(op, b, a)
        if isinstance(la, CObj) and isinstance(la.cls, ClassVal) or isinstance(lb, CObj) and isinstance(lb.cls, ClassVal):
            return self.top("operator on objects")
        return self.np.binop(op, a, b)

    def e_BoolOp(self, x, e, m):
        isand = isinstance(x.op, ast.And)
        acc = None
        lastv = None
        for y in x.values:
            v = self.ev(y, e, m)
            c = self.truth(v)
            if isinstance(c, bool):
                if isand and not c:
                    return False if acc is not None or isinstance(v, bool) else v
                if not isand and c:
                    if acc is None:
                        return v
                    if isinstance(acc, TopV):
                        return acc
                    return True
                lastv = v
                continue
            if isinstance(c, TopV):
                acc = c
                continue
            if isinstance(acc, TopV):
                continue
            if acc is None:
                acc = c
            else:
                acc = acc * c if isand else acc + c - acc * c
            lastv = None
        if acc is None:
            return lastv
        return acc

    def cond(self, x, e, m):
        try:
            v = self.ev(x, e, m)
        except TopError as ex:
            return self.top("condition: %s" % ex)
        c = self.truth(v)
        if self.oracle is not None and isinstance(c, Expr):
            return self.oracle.decide(c)
        return c

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, TopV):
            return v
        if isinstance(v, Expr):
            k = v.as_frac()
            if k is not None:
                return k != 0
            if v * v == v and all(n.is_ind() for t in v.terms.values() for n, _ in t[2]):
                return v
            return E1 - mk_ind("eq", v)
        if isinstance(v, Ref):
            c = self.st.heap[v.loc]
            if isinstance(c, CList):
                return bool(c.items)
            if isinstance(c, CDict):
                return bool(c.d)
            if isinstance(c, CObj):
                return True
            return TopV("truth")
        if isinstance(v, (FuncVal, ClassVal, Bound, ModuleVal, ExtMod, Method, Builtin)):
            return True
        return self.top("truth of %s" % type(v).__name__)

    def e_Compare(self, x, e, m):
        left = self.ev(x.left, e, m)
        res = True
        for op, y in zip(x.ops, x.comparators):
            right = self.ev(y, e, m)
            r = self.compare(type(op).__name__, left, right)
            if r is False:
                return False
            if isinstance(r, TopV):
                return r
            if r is True:
                pass
            elif res is True:
                res = r
            else:
                res = self.np.binop("Mult", res, r)
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, TopV) or isinstance(b, TopV):
                return TopV("is")
            r = self.same(a, b) if (a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or isinstance(a, (Ref, AV, ClassVal))) else None
            if r is None:
                return self.top("is")
            return r if op == "Is" else not r
        if isinstance(a, TopV):
            return a
        if isinstance(b, TopV):
            return b
        if op in ("In", "NotIn"):
            try:
                its = self.items(b)
            except TopError:
                return self.top("in")
            if isinstance(b, str) and isinstance(a, str):
                r = a in b
            elif isinstance(a, (OpaqueStr,)):
                return self.top("in")
            elif is_num(a) and all(is_num(x) for x in its):
                if all(num(x).is_const() for x in its) and num(a).is_const():
                    r = any(num(x) == num(a) for x in its)
                else:
                    return self.top("in")
            elif any(isinstance(x, TopV) for x in its):
                return self.top("in")
            else:
                r = any(self.same(a, x) for x in its)
            return r if op == "In" else not r
        if isinstance(a, (AV, MaskView)) or isinstance(b, (AV, MaskView)):
            return self.np.compare(op, a, b)
        if is_num(a) and is_num(b):
            x, y = num(a), num(b)
            d = x - y
            for lim in self.limits:
                # a threshold of the analysis that every value stays below (or above, negated)
                for p, q, o in ((x, y, op), (y, x, SWAP.get(op))):
                    if q == lim and o in ORDER and p != lim and p != -lim:
                        return o in ("Lt", "LtE")
                    if q == -lim and o in ORDER and p != lim and p != -lim:
                        return o in ("Gt", "GtE")
            d = nf.simp_ranges(d, self.ranges)
            if d.is_const():
                c = d.const()
                if op == "Eq":
                    return c == nf.ZERO
                if op == "NotEq":
                    return c != nf.ZERO
                if c[1] != 0:
                    return self.top("complex comparison")
                return {"Lt": c[0] < 0, "LtE": c[0] <= 0, "Gt": c[0] > 0, "GtE": c[0] >= 0}[op]
            r = cmp_ind(op, d)
            r = nf.simp_ranges(r, self.ranges)
            if r == E1:
                return True
            if r.is_zero():
                return False
            # sizes: nonnegative integers
            if r.terms and len(r.terms) == 1:
                pass
            return self.size_decide(op, d, r)
        if isinstance(a, (OpaqueStr,)) or isinstance(b, (OpaqueStr,)):
            return self.top("string comparison")
        if op in ("Eq", "NotEq"):
            la = self.seq_items(a)
            lb = self.seq_items(b)
            if la is not None and lb is not None:
                if len(la) != len(lb):
                    r = False
                else:
                    r = True
                    for x, y in zip(la, lb):
                        q = self.compare("Eq", x, y)
                        if q is not True:
                            r = q
                            break
                if isinstance(r, bool):
                    return r if op == "Eq" else not r
                if isinstance(r, Expr):
                    return r if op == "Eq" else E1 - r
                return self.top("sequence comparison")
            r = self.same(a, b)
            return r if op == "Eq" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        return self.top("comparison")

    def seq_items(self, a):
        if isinstance(a, tuple):
            return list(a)
        if isinstance(a, Ref):
            c = self.st.heap[a.loc]
            if isinstance(c, CList):
                return list(c.items)
        return None

    def size_decide(self, op, d, r):
        return r

    # comprehensions
    def e_ListComp(self, x, e, m):
        return self.comp(x, e, m)

    def e_GeneratorExp(self, x, e, m):
        return self.comp(x, e, m)

    def e_SetComp(self, x, e, m):
        return self.comp(x, e, m)

    def comp(self, x, e, m):
        env = self.alloc(CEnv({}, e, m))
        return self.comp_gen(x.elt, list(x.generators), env, m)

    def comp_gen(self, elt, gens, env, m):
        g = gens[0]
        it = self.ev(g.iter, env, m)
        if isinstance(it, TopV):
            return it
        sp = self.iter_spec(it)
        if sp is None:
            raise TopError("comprehension over %s" % type(it).__name__)
        if sp[0] == "items":
            out = []
            for v in sp[1]:
                self.assign(g.target, v, env, m)
                ok = True
                for c in g.ifs:
                    q = self.cond(c, env, m)
                    if q is False:
                        ok = False
                        break
                    if q is not True:
                        raise TopError("comprehension filter")
                if not ok:
                    continue
                if len(gens) > 1:
                    r = self.comp_gen(elt, gens[1:], env, m)
                    out += self.items(r)
                else:
                    out.append(self.ev(elt, env, m))
            return self.new_list(out)
        if g.ifs or len(gens) > 1:
            raise TopError("symbolic comprehension with filter")
        ivn = fresh("L")
        self.ranges[ivn] = sp[1]
        self.assign(g.target, sp[2](E_iv(ivn)), env, m)
        v = self.ev(elt, env, m)
        if isinstance(v, TopV):
            return v
        return Ref(self.alloc(CSym(sp[1], ivn, v)))

    def e_DictComp(self, x, e, m):
        env = self.alloc(CEnv({}, e, m))
        g = x.generators[0]
        sp = self.iter_spec(self.ev(g.iter, env, m))
        if sp is None or sp[0] != "items" or len(x.generators) > 1:
            raise TopError("dict comprehension")
        d = {}
        for v in sp[1]:
            self.assign(g.target, v, env, m)
            q = True
            for c in g.ifs:
                q = self.cond(c, env, m)
                if not isinstance(q, bool):
                    raise TopError("filter")
                if not q:
                    break
            if q:
                d[self.ev(x.key, env, m)] = self.ev(x.value, env, m)
        return self.new_dict(d)

    # ------------------------------------------------------------ calls
    def e_Call(self, x, e, m):
        # super()
        if isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args:
            env = self.st.heap[e]
            cls = self.getvar("__class__", e)
            slf = self.getvar("__self__", e)
            if isinstance(cls, ClassVal):
                return SuperVal(cls, slf)
            return self.top("super")
        f = self.ev(x.func, e, m)
        if isinstance(f, TopV) and self.ignorable(x.func):
            return None
        if self.is_logging(f, x):
            return None
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                try:
                    args += self.items(self.ev(a.value, e, m))
                except TopError:
                    return self.unknown_call(f, args, {})
            else:
                try:
                    args.append(self.ev(a, e, m))
                except TopError as ex:
                    args.append(self.top("argument line %d: %s" % (x.lineno, ex)))
        kw = {}
        for k in x.keywords:
            try:
                v = self.ev(k.value, e, m)
            except TopError as ex:
                v = self.top("argument line %d: %s" % (x.lineno, ex))
            if k.arg is None:
                c = self.st.heap.get(v.loc) if isinstance(v, Ref) else None
                if isinstance(c, CDict):
                    for kk, vv in c.d.items():
                        kw[kk] = vv
                continue
            kw[k.arg] = v
        return self.call(f, args, kw)

    def ignorable(self, fx):
        return False

    def is_logging(self, f, x):
        if isinstance(f, Builtin) and f.name == "print":
            return True
        if isinstance(f, FuncVal) and f.mod.name.endswith("lib.logger"):
            return True
        if isinstance(f, Bound) and isinstance(f.fn, FuncVal) and f.fn.mod.name.endswith("lib.logger"):
            return True
        if isinstance(f, ExtMod) and (f.path.startswith(("warnings.", "pyscf.lib.logger", "logging.", "sys.stdout")) or ".logger." in f.path or f.path.endswith((".original_print", ".chkfile.dump"))):
            return True
        if isinstance(f, FuncVal) and f.name in ("original_print", "wall_time"):
            return True
        return False

    def call(self, f, args, kw):
        if isinstance(f, TopV):
            return self.unknown_call(f, args, kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return self.np.builtin(f.name, args, kw)
        if isinstance(f, ExtMod):
            return self.np.ext_call(f, args, kw)
        if isinstance(f, Method):
            return self.np.method(f.obj, f.name, args, kw)
        if isinstance(f, Ref):
            c = self.st.heap[f.loc]
            if isinstance(c, CObj) and isinstance(c.cls, ClassVal):
                k, a = c.cls.find("__call__")
                if k is not None:
                    return self.call_func(a, [f] + list(args), kw)
        return self.unknown_call(TopV("call of %s" % type(f).__name__), args, kw)

    def unknown_call(self, f, args, kw):
        self.top("unknown call (%s)" % f.why if isinstance(f, TopV) else "unknown call")
        for a in list(args) + list(kw.values()):
            self.havoc_val(a)
        return TopV("unknown call")

    def instantiate(self, cls, args, kw):
        o = self.new_obj(cls)
        k, init = cls.find("__init__")
        if k is not None and isinstance(init, FuncVal):
            self.call_func(init, [o] + list(args), kw)
        return o

    def call_func(self, f, args, kw):
        nm = "%s.%s" % (f.cls.name, f.name) if f.cls else f.name
        key = (f.mod.name, nm)
        ov = self.overrides.get(key) or self.overrides.get(nm)
        if ov is not None:
            return ov(self, args, kw)
        if f.mod.name in self.broken:
            self.crash(self.broken[f.mod.name])
        if self.depth >= self.MAXDEPTH:
            return self.top("call depth")
        if self.where.count(f.mod.name + ":" + nm) > 2:
            return self.top("recursion in %s" % nm)
        node = f.node
        env = {}
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
                if p in kw and p != pos[0]:
                    kw.pop(p)
            elif p in kw:
                env[p] = kw.pop(p)
            elif i >= len(pos) - nd:
                env[p] = f.defaults[i - (len(pos) - nd)]
            else:
                env[p] = TopV("missing argument %s" % p)
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(pos):])
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                env[p.arg] = TopV("missing argument %s" % p.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(kw)
        if f.cls is not None:
            env["__class__"] = f.cls
            if args:
                env["__self__"] = args[0]
        envloc = self.alloc(CEnv(env, f.envloc, f.mod))
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, envloc, f.mod)
        self.inlined.add(key)
        self.where.append(f.mod.name + ":" + nm)
        self.depth += 1
        pc0 = self.st.pc
        try:
            self.st.pc = E1
            o = self.exec_block(node.body, envloc, f.mod)
            rets = list(o.rets)
            if o.st is not None:
                rets.append((o.st, None))
            if not rets:
                # every path raises
                raise TopError("%s always raises" % nm)
            # merge from the last
            st, v = rets[-1]
            for s2, v2 in reversed(rets[:-1]):
                c = s2.pc
                mst = self.merge_states(c, s2, st)
                v = self.merge_val(c, v2, v, s2, st, mst)
                st = mst
            self.st = st
            self.st.pc = pc0
            return v
        finally:
            self.depth -= 1
            self.where.pop()


class _Missing:
    pass


MISSING = _Missing()


class Zip:
    def __init__(self, parts):
        self.parts = parts


class Enum:
    def __init__(self, part, start=0):
        self.part = part
        self.start = start


def simp_float(v):
    if v != v or v in (float("inf"), float("-inf")):
        return TopV("non-finite literal")
    return simp_num_f(E_const(v))


def simp_num_f(e):
    return e


ORDER = ("Lt", "LtE", "Gt", "GtE")
SWAP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}


def cmp_ind(op, d):
    if op == "Eq":
        return mk_ind("eq", d)
    if op == "NotEq":
        return E1 - mk_ind("eq", d)
    if op == "Lt":
        return mk_ind("lt", d)
    if op == "GtE":
        return E1 - mk_ind("lt", d)
    if op == "Gt":
        return mk_ind("lt", -d)
    if op == "LtE":
        return E1 - mk_ind("lt", -d)
    raise TopError("comparison " + op)


ABSENT = {"mpi4py", "cupy", "torch", "jax", "meep", "qiskit", "openfermion", "tiledarray", "_qmclib"}

BUILTINS = {"len", "divmod", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "sum", "abs", "max", "min", "int", "float",
            "complex", "bool", "str", "print", "isinstance", "hasattr", "getattr", "setattr", "sorted", "reversed", "map",
            "any", "all", "round", "type", "callable", "super", "pow", "divmod", "id", "repr", "open", "slice", "object",
            "ValueError", "NotImplementedError", "RuntimeError", "TypeError", "Exception", "KeyError", "AssertionError",
            "property", "staticmethod", "classmethod", "filter", "vars", "iter", "next", "ImportError", "_noop", "AttributeError"}

import builtins as _b
PYBUILTINS = set(dir(_b)) | {"__file__", "__name__", "__class__"}


def bound_names(tree):
    """every name a module binds anywhere, None when that cannot be known"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
            if n.id in ("exec", "eval", "globals", "setattr"):
                return None
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.alias):
            if n.name == "*":
                return None
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("exec", "globals"):
            return None
    return out
