"""Configuration interaction for electrons and modes."""
from itertools import combinations, product

from ..engine.interp import Ref, Tup, num
from ..engine.nf import E_const, Expr

FCI = "openms/mqed/qedfci.py"


def strings(n, k):
    """occupation strings in the order of pyscf.fci.cistring"""
    return sorted(sum(1 << i for i in c) for c in combinations(range(n), k))


def excitations(n, k):
    """rows (a, i, target, sign) for every string: E_ai = a^dagger_a a_i"""
    ss = strings(n, k)
    pos = {s: j for j, s in enumerate(ss)}
    out = []
    for s in ss:
        occ = [i for i in range(n) if s >> i & 1]
        rows = [(i, i, pos[s], 1) for i in occ]
        for i in occ:
            for a in range(n):
                if s >> a & 1:
                    continue
                t = s & ~(1 << i)
                sg = 1
                for b in range(n):
                    if t >> b & 1 and (b < i) != (b < a):
                        sg = -sg
                rows.append((a, i, pos[t | 1 << a], sg))
        out.append(rows)
    return out


class F:
    def __init__(self, ck, norb, nelec, nb):
        it = self.it = ck.interp(overrides={
            "pyscf.fci.cistring.gen_linkstr_index": lambda it, a, kw: self.links(it, a),
            "pyscf.fci.cistring.gen_strings4orblist": lambda it, a, kw: self.strs(it, a),
            "pyscf.fci.cistring.make_strings": lambda it, a, kw: self.strs(it, a),
            "pyscf.fci.cistring.num_strings": lambda it, a, kw: len(strings(int(num(a[0]).as_int()), int(num(a[1]).as_int()))),
            "pyscf.fci.direct_spin1._unpack_nelec": lambda it, a, kw: self.unpack(it, a),
            "pyscf.fci.rdm.reorder_rdm": lambda it, a, kw: self.reorder(it, a),
            "pyscf.lib.dot": lambda it, a, kw: it.np.matmul(a[0], a[1]),
        })
        it.max_steps = 10 ** 7
        self.norb, self.nelec, self.nb = norb, nelec, list(nb)
        self.mod = it.load("openms.mqed.qedfci")
        self.sp = it.load("spec.fci")
        self.na, self.nbs = len(strings(norb, nelec[0])), len(strings(norb, nelec[1]))
        self.nm = len(nb)
        self.shape = [self.na, self.nbs] + [x + 1 for x in nb]
        self.c = it.atom("c", self.shape, real=True)
        n = norb
        self.h = it.atom("h", (n, n), real=True, sym=((0, 1),))
        self.eri = it.atom("eri", (n, n, n, n), real=True)
        self.g = it.atom("g", (max(self.nm, 1), n, n), real=True, sym=((1, 2),))
        self.w = it.atom("w", (max(self.nm, 1),), nonneg=True)
        self.Ea, self.Eb = self.matrices(nelec[0]), self.matrices(nelec[1])
        tot = 1
        for x in self.shape[2:]:
            tot *= x
        self.tot = tot
        self.cx = it.np.reshape(self.c, Tup([self.na, self.nbs, tot]))
        self.states = it.new_arr(self.table((self.nm,), lambda i: self.nb[i])) if self.nm else it.new_list([])

    # constant tables as arrays
    def table(self, dims, f):
        def rec(pre):
            if len(pre) == len(dims):
                v = f(*pre)
                return v if isinstance(v, Expr) else E_const(v)
            return self.it.new_list([rec(pre + [i]) for i in range(dims[len(pre)])])
        return self.it.arr(rec([]))

    def matrices(self, k):
        ex = excitations(self.norb, k)
        m = {}
        for s, rows in enumerate(ex):
            for a, i, t, sg in rows:
                m[(a, i, t, s)] = sg
        n, d = self.norb, len(ex)
        return self.it.new_arr(self.table((n, n, d, d), lambda a, i, t, s: m.get((a, i, t, s), 0)))

    def mode(self, m, what):
        """b, b^dagger + b or b^dagger b of mode m in the product of all modes"""
        dims = self.shape[2:]
        states = list(product(*[range(d) for d in dims]))
        el = {}
        for y, s in enumerate(states):
            t = list(s)
            if what == "n":
                el[(y, y)] = E_const(s[m])
                continue
            if what in "xb" and s[m] > 0:
                t[m] -= 1
                el[(states.index(tuple(t)), y)] = sqrt(self.it, s[m])
            if what in "xc" and s[m] + 1 < dims[m]:
                t = list(s)
                t[m] += 1
                el[(states.index(tuple(t)), y)] = sqrt(self.it, s[m] + 1)
        return self.it.new_arr(self.table((len(states), len(states)), lambda a, b: el.get((a, b), 0)))

    # models of the string tables of pyscf
    def ints(self, it, a):
        n = len(it.items(a[0])) if not hasattr(a[0], "lo") else int((num(a[0].hi) - num(a[0].lo)).as_int())
        return n, int(num(a[1]).as_int())

    def links(self, it, a):
        n, k = self.ints(it, a)
        return it.new_list([it.new_list([Tup(list(r)) for r in rows]) for rows in excitations(n, k)])

    def strs(self, it, a):
        n, k = self.ints(it, a)
        s = strings(n, k)
        return it.new_arr(self.table((len(s),), lambda i: s[i]))

    def unpack(self, it, a):
        return Tup(it.items(a[0])) if not isinstance(a[0], int) else Tup([a[0] - a[0] // 2, a[0] // 2])

    def reorder(self, it, a):
        """dm2[p,q,r,s] = <E_pq E_rs> -> <p^+ r^+ s q>, as pyscf.fci.rdm.reorder_rdm"""
        d1, d2 = a[0], a[1]
        r = it.call(it.mod_attr(self.sp, "reorder"), [d1, d2], {})
        return Tup([d1, r])

    def f(self, name, *a, **kw):
        return self.it.call(self.it.mod_attr(self.mod, name), list(a), kw)

    def s(self, name, *a):
        return self.it.call(self.it.mod_attr(self.sp, name), list(a), {})

    def cut(self, v):
        """a vector as array over strings and all modes together"""
        return self.it.np.reshape(v, Tup([self.na, self.nbs, self.tot]))


def sqrt(it, k):
    return num(it.call(it.mod_attr(it.load('spec.fci'), 'root'), [k], {}))


def c02(ck):
    ck.rule("each contraction of qedfci applied to a free vector equals the operator of the Hamiltonian term applied to it, entry by entry")
    for norb, nelec in ((2, (1, 1)), (3, (2, 1))):
        for nb in ((), (2,), (1, 2)):
            tag = "%d orbitals, %d+%d electrons, number states %s" % (norb, nelec[0], nelec[1], list(nb))
            ck.guarded("contractions, " + tag, lambda: electrons(ck, norb, nelec, nb, tag), FCI)
            if nb:
                ck.guarded("mode terms, " + tag, lambda: modes(ck, norb, nelec, nb, tag), FCI)
                ck.guarded("eigenvalue problem, " + tag, lambda: problem(ck, norb, nelec, nb, tag), FCI) if norb == 2 and nb else None
    tag = "3 orbitals, 2+2 electrons"
    ck.guarded("density matrices, " + tag, lambda: densities(ck, 3, (2, 2), tag), FCI)


def electrons(ck, norb, nelec, nb, tag):
    x = F(ck, norb, nelec, nb)
    it = x.it
    ne = Tup(list(nelec))
    a = (norb, ne, x.nm, x.states)
    eq = lambda nme, v, r: ck.equal("%s, %s" % (nme, tag), it, x.cut(v), r, FCI)
    one = x.s("electron_one", x.h, x.Ea, x.Eb, x.cx)
    op = it.atom("op", (norb, norb), real=True)
    eq("one-electron operator", x.f("contract_1e", op, x.c, *a), x.s("electron_one", op, x.Ea, x.Eb, x.cx))
    u = it.atom("u", (), real=True)
    eq("on-site repulsion", x.f("contract_2e_hubbard", u, x.c, *a), x.s("repulsion", u, x.Ea, x.Eb, x.cx))
    d1 = x.s("density1", x.Ea, x.Eb, x.cx)
    ck.equal("one-electron density matrix, " + tag, it, x.f("make_rdm1e", x.c, norb, ne), d1, FCI)
    if norb == 2 or not nb:
        h2 = x.f("absorb_h1e", x.h, x.eri, norb, ne, 0.5)
        ref = it.np.binop("Add", one, x.s("electron_two", x.eri, x.Ea, x.Eb, x.cx))
        eq("electronic Hamiltonian", x.f("contract_2e", h2, x.c, *a), ref)
        eq("electronic Hamiltonian (spin singlet form)", x.f("contract_2e_spin0", h2, x.c, *a), ref)
    if norb == 2:
        r1, r2 = it.items(x.f("make_rdm12e", x.c, norb, ne))
        ck.equal("density matrix of the pair routine, " + tag, it, r1, d1, FCI)
        ck.equal("pair density matrix, " + tag, it, r2, x.s("density2", x.Ea, x.Eb, x.cx), FCI)


def densities(ck, norb, nelec, tag):
    x = F(ck, norb, nelec, ())
    it = x.it
    r1, r2 = it.items(x.f("make_rdm12e", x.c, norb, Tup(list(nelec))))
    ck.equal("density matrix of the pair routine, " + tag, it, r1, x.s("density1", x.Ea, x.Eb, x.cx), FCI)
    ck.equal("pair density matrix, " + tag, it, r2, x.s("density2", x.Ea, x.Eb, x.cx), FCI)


def problem(ck, norb, nelec, nb, tag):
    """the operator and the shift of the eigenvalue problem solved by kernel"""
    got = []
    x = F(ck, norb, nelec, nb)
    it = x.it
    val = it.atom("lowest", (), real=True)

    def solve(it, a, kw):
        got.append(a)
        return Tup([val, x.c])
    ov = it.overrides
    ov["pyscf.lib.davidson"] = solve
    ov["pyscf.lib.make_diag_precond"] = lambda it, a, kw: None
    ov["openms.mqed.qedfci.make_hdiag"] = lambda it, a, kw: None
    e0 = it.atom("e_electrons", (), real=True)
    ov["pyscf.fci.direct_spin1.kernel"] = lambda it, a, kw: Tup([e0, it.atom("c_electrons", (x.na, x.nbs), real=True)])
    core = it.atom("ecore", (), real=True)
    for name, w in (("energies", x.w), ("matrix", it.atom("w2", (x.nm, x.nm), real=True, sym=((0, 1),)))):
        del got[:]
        r = it.items(x.f("kernel", x.h, x.eri, norb, Tup(list(nelec)), x.nm, x.states, x.g, w, ecore=core))
        if len(got) != 1:
            ck.violated("operator of the eigenvalue problem, %s" % tag, "the eigenvalue solver is called %d times" % len(got), FCI)
            continue
        hc = it.call(got[0][0], [it.np.reshape(x.c, Tup([-1]))], {})
        lst = it.new_list
        X, B, C = [lst([x.mode(m, k) for m in range(x.nm)]) for k in "xbc"]
        w2 = w if name == "matrix" else x.s("diagonal", w)
        ref = x.s("total", x.h, x.eri, x.g, w2, x.Ea, x.Eb, X, C, B, x.cx)
        ck.equal("operator of the eigenvalue problem, %s, %s" % (name, tag), it, x.cut(hc), ref, FCI)
        ck.equal("energy of electrons alone, %s, %s" % (name, tag), it, r[0], e0, FCI)
        ck.equal("total energy, %s, %s" % (name, tag), it, r[1], it.np.binop("Add", val, core), FCI)
        ck.equal("state, %s, %s" % (name, tag), it, x.cut(r[2]), x.cx, FCI)


def modes(ck, norb, nelec, nb, tag):
    x = F(ck, norb, nelec, nb)
    it = x.it
    ne = Tup(list(nelec))
    a = (norb, ne, x.nm, x.states)
    eq = lambda nme, v, r: ck.equal("%s, %s" % (nme, tag), it, x.cut(v), r, FCI)
    lst = it.new_list
    X, N, B = [lst([x.mode(m, k) for m in range(x.nm)]) for k in ("x", "n", "b")]
    C = lst([x.mode(m, "c") for m in range(x.nm)])
    eq("electron-boson coupling", x.f("contract_eb", x.g, x.c, *a), x.s("coupling", x.g, x.Ea, x.Eb, X, x.cx))
    w2 = it.atom("w2", (x.nm, x.nm), real=True, sym=((0, 1),))
    eq("boson energies", x.f("contract_bb", x.w, x.c, *a), x.s("modes", N, x.w, x.cx))
    eq("boson energies and hopping", x.f("contract_bb", w2, x.c, *a), x.s("hopping", C, B, w2, x.cx))
    z = it.atom("z", (x.nm,), real=True)
    eq("boson energies around a displacement", x.f("contract_bb", x.w, x.c, *a, zalpha=z), x.s("displaced", N, X, x.w, z, x.cx))
    for m in range(x.nm):
        eq("annihilation in mode %d" % m, x.f("des_boson", x.c, *a, m), x.s("apply_mode", x.s("at", B, m), x.cx))
        eq("creation in mode %d" % m, x.f("cre_boson", x.c, *a, m), x.s("apply_mode", x.s("at", C, m), x.cx))
    ck.equal("boson density matrix, " + tag, it, x.f("make_rdm1p", x.c, *a), x.s("photon_density", B, x.cx), FCI)
    if norb == 2:
        h2 = x.eri
        el = x.cut(x.f("contract_2e", h2, x.c, *a))
        tot = it.np.binop("Add", it.np.binop("Add", el, x.s("coupling", x.g, x.Ea, x.Eb, X, x.cx)), x.s("modes", N, x.w, x.cx))
        eq("all terms", x.f("contract_all", x.h, h2, x.g, x.w, x.c, *a), tot)
