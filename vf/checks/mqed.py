"""Cavity QED mean-field theory."""
from ..engine.interp import Slice, Tup

BOS = "openms/lib/boson.py"
QED = "openms/mqed/qedhf.py"
SC = "openms/mqed/scqedhf.py"
VT = "openms/mqed/vtqedhf.py"


def eightfold(ix):
    """two-electron integrals in chemists' order"""
    a, b = tuple(sorted(ix[:2])), tuple(sorted(ix[2:]))
    return min(a + b, b + a), 1


class M:
    """a mean-field object of one of the repository's classes over free integrals"""

    def __init__(self, ck, cls="qedhf", dims=(1,), **opts):
        it = self.it = ck.interp(flags={"NUMBA_AVAILABLE": False}, overrides={
            "pyscf.scf.hf.dot_eri_dm": lambda it, a, kw: it.call(it.mod_attr(it.load("spec.mqed"), "dot_eri_dm"), list(a), kw),
            "pyscf.scf.hf.SCF.get_jk": lambda it, a, kw: it.call(it.mod_attr(it.load("spec.mqed"), "direct_jk"), list(a), kw),
            "pyscf.scf.hf.level_shift": lambda it, a, kw: it.call(it.mod_attr(it.load("spec.mqed"), "level_shift"), list(a), kw),
            "scipy.special.genlaguerre": lambda it, a, kw: it.call(it.mod_attr(it.load("spec.mqed"), "Laguerre"), list(a), kw),
            "pyscf.scf.hf.get_hcore": lambda it, a, kw: it.call(it.mod_attr(it.load("spec.mqed"), "hcore"), list(a[:1]), {})})
        it.max_steps = 10 ** 7
        it.absent = {"Hph_sc"}
        self.dims = list(dims)
        n = self.nm = len(dims)
        self.nao = opts.get("nao") or it.size("nao")
        nao = self.nao
        self.spec = lambda nme, *a: it.call(it.mod_attr(it.load("spec.mqed"), nme), list(a), {})
        at = it.atom
        self.nelec = at("nelec", (), nonneg=True)
        self.r3 = at("r3", (3, nao, nao), real=True, sym=((1, 2),))
        self.rr9 = at("rr9", (9, nao, nao), real=True, sym=((1, 2),))
        self.eri = at("eri", (nao, nao, nao, nao), real=True, **({"canon": eightfold} if opts.get("nao") else {}))
        self.h = at("h", (nao, nao), real=True, sym=((0, 1),))
        self.s = at("s", (nao, nao), real=True, sym=((0, 1),))
        self.mol = self.spec("Mol", nao, self.nelec, self.r3, self.rr9, self.eri, self.h, self.s)
        self.g = at("g", (n, nao, nao), real=True, sym=((1, 2),))
        self.q = at("q", (n, nao, nao), real=True, sym=((1, 2),))
        self.omega = at("omega", (n,), nonneg=True)
        self.lam = at("lam", (n,), nonneg=True)
        self.vec = at("vec", (n, 3), real=True)
        self.f = at("f", (n,), real=True)
        self.z = at("z", (n,), real=True)
        self.r = at("r", (n,), real=True)
        self.c = at("c", (sum(dims), sum(dims)), real=True)
        if opts.get("even"):
            # photon states of definite parity: Fock components two apart
            par = [(k + (opts["even"] == "odd") + 1) % 2 for d in dims for k in range(d)]
            self.c = it.new_arr(it.arr(it.np.binop("Mult", it.new_arr(it.arr(it.new_list([it.new_list([p]) for p in par]))), self.c)))
        self.eb = at("eb", (), real=True)
        self.dm = at("dm", (nao, nao), real=True, sym=((0, 1),))
        bos = it.load("openms.lib.boson")
        one = it.np.binop("Sub", 1.0, self.f)
        qa = {"_mol": self.mol, "verbose": 0, "stdout": None, "nelectron": self.nelec, "nao": nao, "add_nuc_dipole": False,
              "origin_shift": None, "complete_basis": opts.get("complete", True), "omega": self.omega, "nmodes": n, "boson_freq": self.omega,
              "gfac": self.lam, "vec": self.vec, "nboson_states": it.new_list(list(dims)), "use_cs": opts.get("use_cs", True),
              "z_alpha": self.z, "couplings_var": self.f, "couplings_res": it.new_arr(it.arr(one)), "optimize_varf": opts.get("varf", False),
              "add_dse": opts.get("dse", True), "squeezed_cs": False, "optimize_vsq": opts.get("vsq", False), "squeezed_var": self.r,
              "couplings": self.lam, "couplings_bilinear": at("lb", (n,), real=True), "couplings_self": at("ls", (n,), real=True),
              "e_boson_grad_r": at("ebg", (n,), real=True), "boson_type": "Photon", "boson_coeff": self.c, "e_boson": self.eb,
              "dipole_ao": None, "quadrupole_ao": None, "shift": False, "gmat": self.g, "q_lambda_ao": self.q, "ptot": None, "pa": None,
              "pb": None, "ca": None, "cb": None, "na": None, "nb": None, "const": None}
        self.qed = it.new_obj(it.mod_attr(bos, "Photon"), qa)
        mod = it.load("openms.mqed." + cls)
        self.cls = it.mod_attr(mod, "RHF")
        ma = {"mol": self.mol, "nao": nao, "verbose": 0, "stdout": None, "bare_h1e": None, "oei": None, "qed": self.qed, "_eri": self.eri,
              "direct_scf": False, "scf_summary": it.new_dict({}), "max_cycle": 50}
        self.mf = it.new_obj(self.cls, ma)
        base = self.spec("Scf", self.mol)
        it.setattr(self.mf, "get_ovlp", it.getattr(base, "get_ovlp"))
        it.setattr(self.mf, "_is_mem_enough", it.getattr(base, "mem_enough"))
        it.setattr(self.qed, "_mf", self.mf)
        if cls != "qedhf":
            self.dressed(opts)

    def dressed(self, opts):
        """transformed methods: dipole orbitals U, displacements eta, Cholesky vectors or exact integrals"""
        it, n, nao = self.it, self.nm, self.nao
        at = it.atom
        self.U = at("U", (n, nao, nao), real=True)
        self.eta = at("eta", (n, nao), real=True)
        self.gd = at("gd", (n, nao), real=True)
        self.hd = at("hd", (nao, nao), real=True, sym=((0, 1),))
        self.dd = at("dd", (n, nao, nao), real=True, sym=((1, 2),))
        self.L = at("L", (it.size("nchol"), nao, nao), real=True, sym=((1, 2),))
        self.ed = self.spec("eri_of", self.L)
        zero = it.np.binop("Mult", 0.0, self.eta)
        cp = lambda v: it.new_arr(it.arr(v))
        self.set(self.mf, eta=self.eta, ao2dipole=self.U, g_dipole=cp(self.gd), h1e_DO=cp(self.hd), dm_do=cp(self.dd), eta_grad=zero,
                 ltensor=self.L if opts.get("cd") else None, eri_DO=self.ed, CD_anyway=bool(opts.get("cd")), precond=at("prec", (), real=True),
                 bare_h1e=self.h, vhf_dse=None, grad_vhf_dse=None, grad_oei=None, dipole_degen_thresh=1e-8, dipole_fock_shift=1e-3,
                 vlf_grad=it.np.binop("Mult", 0.0, self.f), vsq_grad=it.np.binop("Mult", 0.0, self.r))

    def at0(self, a, *i):
        return self.it.getitem(a, Tup(i) if len(i) > 1 else i[0])

    def m(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def set(self, o, **kw):
        for k, v in kw.items():
            self.it.setattr(o, k, v)


def m01(ck):
    """light-matter coupling operators"""
    def go():
        x = M(ck, dims=(1, 1))
        it = x.it
        x.set(x.qed, gmat=None, q_lambda_ao=None)
        x.m(x.qed, "get_gmatao")
        ck.equal("coupling matrices", it, x.get(x.qed, "gmat"), x.spec("coupling", x.lam, x.vec, x.r3), BOS)
        x.m(x.qed, "get_q_dot_lambda")
        ck.equal("squared coupling matrices", it, x.get(x.qed, "q_lambda_ao"), x.spec("quadrupole", x.lam, x.vec, x.rr9), BOS)
        ck.equal("coupling matrices, direct", it, x.m(x.qed, "get_gmat_ao"), x.spec("coupling", x.lam, x.vec, x.r3), BOS)
        x.set(x.qed, quadrupole_ao=x.m(x.qed, "get_quadrupole_ao"))
        ck.equal("squared coupling matrices, direct", it, x.m(x.qed, "get_q_lambda_ao"), x.spec("quadrupole", x.lam, x.vec, x.rr9), BOS)
    ck.guarded("coupling matrices", go, BOS)
    for dims in ((1,), (3,), (2, 3)):
        for residue in (False, True):
            for dse in (True, False):
                for complete in (True, False):
                    for cs in (True, False):
                        tag = "Fock %s%s%s%s%s" % (list(dims), ", dressed" if residue else "", "" if dse else ", no self-energy", "" if complete else ", incomplete basis", "" if cs else ", fixed displacement")

                        def go():
                            x = M(ck, dims=dims, dse=dse, complete=complete, use_cs=cs)
                            it = x.it
                            r = x.m(x.qed, "add_oei_ao", x.dm, s1e=x.s, residue=residue, compute_grad=residue)
                            z = x.spec("displacement", x.g, x.dm) if cs else x.z
                            w = x.spec("gvar2", x.f, residue, dse)
                            if residue:
                                r, grad = it.items(r)
                            ck.cur = it
                            sinv = None
                            sq = x.spec("dse_square", x.g, x.q, x.s, complete, sinv) if complete or not dse else None
                            if sq is None:
                                return
                            dl = it.new_list(list(dims))
                            ref = x.spec("oei", x.g, z, w, sq, dse, x.eb, x.s, x.nelec, x.c, dl, x.omega, x.f)
                            ck.equal("one-electron matrix, " + tag, it, r, ref, BOS)
                            if residue:
                                ref = x.spec("oei_slope", x.g, z, sq, dse, x.s, x.nelec, x.c, dl, x.omega, x.f)
                                ck.equal("its slope in f, " + tag, it, grad, ref, BOS)
                        ck.guarded("one-electron matrix, " + tag, go, BOS)


def m02(ck):
    """mean-field potential and energy of QED Hartree-Fock"""
    for residue in (False, True):
        for dse in (True, False):
            tag = "%s%s" % ("dressed" if residue else "bare", "" if dse else ", no self-energy")

            def go():
                x = M(ck, dims=(1, 2), dse=dse)
                it = x.it
                w = x.spec("gvar2", x.f, residue, dse)
                r = it.items(x.m(x.mf, "get_dse_jk", x.dm, residue=residue, compute_grad=residue))
                ck.equal("self-energy J, " + tag, it, r[0], x.spec("dse_j", x.g, x.dm, w), QED)
                ck.equal("self-energy K, " + tag, it, r[1], x.spec("dse_k", x.g, x.dm, w), QED)
                if residue:
                    ck.equal("self-energy slope in f, " + tag, it, r[2], x.spec("dse_jk_slope", x.g, x.dm, x.f), QED)
                many = it.atom("dms", (2, x.nao, x.nao), real=True, sym=((1, 2),))
                outs = [("", QED, it.items(x.m(x.mf, "get_dse_jk", many, residue=residue, compute_grad=residue)))]
                if dse:
                    outs.append((" of the photon object", BOS, it.items(x.m(x.qed, "get_dse_jk", many, residue=residue))))
                for who, site, got in outs:
                    for i in range(2):
                        d = x.at0(many, i)
                        ck.equal("self-energy J%s, density %d of two, %s" % (who, i, tag), it, x.at0(got[0], i), x.spec("dse_j", x.g, d, w), site)
                        ck.equal("self-energy K%s, density %d of two, %s" % (who, i, tag), it, x.at0(got[1], i), x.spec("dse_k", x.g, d, w), site)
                        if len(got) > 2:
                            ck.equal("self-energy slope in f, density %d of two, %s" % (i, tag), it, x.at0(got[2], i), x.spec("dse_jk_slope", x.g, d, x.f), site)
                if dse:
                    r = it.items(x.m(x.qed, "get_dse_jk", x.dm, residue=residue))
                    ck.equal("self-energy J of the photon object, " + tag, it, r[0], x.spec("dse_j", x.g, x.dm, w), BOS)
                    ck.equal("self-energy K of the photon object, " + tag, it, r[1], x.spec("dse_k", x.g, x.dm, w), BOS)
            ck.guarded("self-energy J/K, " + tag, go, QED)
    for dse in (True, False):
        for direct in (False, True):
            for cs in (True, False):
                tag = "%s%s%s" % ("coherent state" if cs else "fixed displacement", "" if dse else ", no self-energy", ", incremental" if direct else "")

                def go():
                    x = M(ck, dims=(1, 2), dse=dse, use_cs=cs)
                    it = x.it
                    dm2 = it.atom("dm2", (x.nao, x.nao), real=True, sym=((0, 1),))
                    w = x.spec("gvar2", x.f, False, dse)
                    ref = x.spec("veff", x.eri, x.dm, x.g, w, dse)
                    bare = x.spec("veff", x.eri, x.dm, x.g, w, False)
                    if not direct and cs:
                        x.set(x.mf, _eri=None, _is_mem_enough=it.getattr(x.spec("Scf", x.mol), "mem_short"))
                        jk = it.items(x.m(x.mf, "get_jk", x.mol, x.dm))
                        j, k = it.items(x.spec("coulomb_exchange", x.eri, x.dm))
                        if dse:
                            j = x.spec("add", j, x.spec("dse_j", x.g, x.dm, w))
                            k = x.spec("add", k, x.spec("dse_k", x.g, x.dm, w))
                        ck.equal("Coulomb matrix without stored integrals, " + tag, it, jk[0], j, QED)
                        ck.equal("exchange matrix without stored integrals, " + tag, it, jk[1], k, QED)
                        x.set(x.mf, _eri=x.eri, _is_mem_enough=it.getattr(x.spec("Scf", x.mol), "mem_enough"))
                        ck.equal("Coulomb matrix alone, " + tag, it, it.items(x.m(x.mf, "get_jk", x.mol, x.dm, with_k=False))[0], j, QED)
                        ck.equal("exchange matrix alone, " + tag, it, it.items(x.m(x.mf, "get_jk", x.mol, x.dm, with_j=False))[1], k, QED)
                    if direct:
                        x.set(x.mf, _eri=None, direct_scf=True)
                        old = x.spec("veff", x.eri, dm2, x.g, w, dse)
                        v = x.m(x.mf, "get_veff", x.mol, x.dm, dm2, it.new_arr(it.arr(old)))
                    else:
                        v = x.m(x.mf, "get_veff", x.mol, x.dm)
                    ck.equal("potential, " + tag, it, v, ref, QED)
                    x.set(x.mf, _eri=x.eri, direct_scf=False)
                    ck.equal("bare potential, " + tag, it, x.m(x.mf, "get_bare_veff", x.mol, x.dm), bare, QED)
                    h = x.m(x.mf, "get_hcore", x.mol, x.dm)
                    z = x.spec("displacement", x.g, x.dm) if cs else x.z
                    dl = it.new_list([1, 2])
                    ref1 = x.spec("add", x.h, x.spec("oei", x.g, z, w, x.spec("dse_square", x.g, x.q, x.s, True, None), dse, x.eb, x.s, x.nelec, x.c, dl, x.omega, it.np.binop("Mult", 1.0, x.f)))
                    ck.equal("core Hamiltonian, " + tag, it, h, ref1, QED)
                    ck.equal("core Hamiltonian without density, " + tag, it, x.m(x.mf, "get_hcore", x.mol), x.h, QED)
                    e = it.items(x.m(x.mf, "energy_elec", x.dm, h, v))
                    ck.equal("electronic energy, " + tag, it, e[0], x.spec("energy", ref1, ref, x.dm), QED)
                    e2 = it.items(x.m(x.mf, "energy_elec", x.dm))
                    ck.equal("electronic energy, default arguments, " + tag, it, e2[0], x.spec("energy", ref1, ref, x.dm), QED)
                    if not direct:
                        fk = x.m(x.mf, "get_fock", h, x.s, v, x.dm)
                        ck.equal("Fock matrix, " + tag, it, fk, x.spec("add", ref1, ref), QED)
                        x.set(x.mf, level_shift=0.25, diis=None, damp=0.0, diis_start_cycle=1)
                        fk = x.m(x.mf, "get_fock", h, x.s, v, x.dm, 2, None)
                        ck.equal("level-shifted Fock matrix, " + tag, it, fk, x.spec("shifted", x.spec("add", ref1, ref), x.s, x.dm, 0.25), QED)
                    if dse:
                        x.set(x.qed, couplings_var=it.np.binop("Mult", 0.0, x.f), couplings_res=it.np.binop("Add", 1.0, it.np.binop("Mult", 0.0, x.f)))
                        e3 = it.items(x.m(x.mf, "energy_elec", x.dm))
                        pf = x.spec("pf_energy", x.h, x.eri, x.g, x.q, x.omega, z, x.dm, x.eb, x.nelec, x.s, x.c, dl)
                        ck.equal("energy is the Pauli-Fierz expectation value, " + tag, it, e3[0], pf, QED)
                ck.guarded("mean field, " + tag, go, QED)


def m03(ck):
    """dressed Hamiltonian of the transformed methods"""
    for cls, site in (("scqedhf", SC), ("vtqedhf", VT)):
        for n in (1, 2, 3):
            tag0 = "%s, %d Fock states" % (cls, n)

            def go():
                x = M(ck, cls, dims=(n,))
                ck.cur = it = x.it
                wd = x.spec("width", x.at0(x.r, 0), x.at0(x.omega, 0))
                eta0 = x.at0(x.eta, 0)
                c0 = x.at0(x.c, Slice(None, None, None), 0)
                a1 = x.spec("scale", wd, x.spec("dist1", eta0))
                a2 = x.spec("scale", wd, x.spec("dist2", eta0))
                ck.equal("one-body Franck-Condon factor, " + tag0, it, x.m(x.mf, "FC_factor", x.eta, 0), x.spec("fc", a1, n, c0), SC)
                ck.equal("two-body Franck-Condon factor, " + tag0, it, x.m(x.mf, "FC_factor", x.eta, 0, False), x.spec("fc", a2, n, c0), SC)
                x.m(x.mf, "get_h1e_DO", x.mol, x.dm)
                U, om, f = x.at0(x.U, 0), x.at0(x.omega, 0), x.at0(x.f, 0)
                gd = x.spec("residual", U, x.at0(x.g, 0), eta0, om, f)
                hd = x.spec("h_do", U, x.h, gd, om)
                dd = x.spec("dm_to_do", U, x.s, x.dm)
                ck.equal("residual dipole, " + tag0, it, x.at0(x.get(x.mf, "g_dipole"), 0), gd, SC)
                ck.equal("one-electron matrix in dipole orbitals, " + tag0, it, x.get(x.mf, "h1e_DO"), hd, SC)
                ck.equal("density matrix in dipole orbitals, " + tag0, it, x.at0(x.get(x.mf, "dm_do"), 0), dd, SC)
            ck.guarded("dressing, " + tag0, go, SC)

            for cd, par in ((False, "even"), (True, "even")) + (((False, "odd"), (True, "odd")) if n == 2 else ()):
                tag = tag0 + (", Cholesky" if cd else "") + (", odd photon state" if par == "odd" else "")

                def go():
                    x = M(ck, cls, dims=(n,), cd=cd, even=par)
                    ck.cur = it = x.it
                    wd = x.spec("width", x.at0(x.r, 0), x.at0(x.omega, 0))
                    eta0 = x.at0(x.eta, 0)
                    c0 = x.at0(x.c, Slice(None, None, None), 0)
                    U, om, f = x.at0(x.U, 0), x.at0(x.omega, 0), x.at0(x.f, 0)
                    F1 = x.spec("fc", x.spec("scale", wd, x.spec("dist1", eta0)), n, c0)
                    F2 = x.spec("fc", x.spec("scale", wd, x.spec("dist2", eta0)), n, c0)
                    dd = x.spec("dm_to_do", U, x.s, x.dm)
                    gd = x.at0(x.gd, 0)
                    ref1 = x.spec("dressed_h", U, x.hd, F1)
                    refv = x.spec("back", U, x.spec("symm", x.spec("veff_do", x.ed, dd, F2, gd, om)))
                    if cls == "vtqedhf":
                        w = x.spec("gvar2", x.f, True, True)
                        z = x.spec("displacement", x.g, x.dm)
                        dl = it.new_list([n])
                        ref1 = x.spec("add", ref1, x.spec("oei", x.g, z, w, x.spec("dse_square", x.g, x.q, x.s, True, None), True, x.eb, x.s, x.nelec, x.c, dl, x.omega, x.f))
                        refv = x.spec("add", refv, x.spec("sub", x.spec("dse_j", x.g, x.dm, w), x.spec("scale", 0.5, x.spec("dse_k", x.g, x.dm, w))))
                    h = x.m(x.mf, "get_hcore", x.mol, x.dm)
                    ck.equal("dressed core Hamiltonian, " + tag, it, h, ref1, site)
                    v = x.m(x.mf, "get_veff", x.mol, x.dm)
                    ck.equal("dressed potential, " + tag, it, v, refv, site)
                    e = it.items(x.m(x.mf, "energy_elec", x.dm, h, v))
                    ck.equal("electronic energy, " + tag, it, e[0], x.spec("energy", ref1, refv, x.dm), site)
                ck.guarded("dressed Hamiltonian, " + tag, go, site)


def m04(ck):
    """gradients of the variational parameters are derivatives of the energy"""
    for n in (2, 3, 4):
        def go():
            x = M(ck, dims=(n,))
            ck.cur = it = x.it
            a = it.atom("a", (x.nao, x.nao), real=True)
            c0 = x.at0(x.c, Slice(None, None, None), 0)
            pdm = x.spec("outer", c0)
            for nm, extra in (("displacement_deriv", False), ("displacement_deriv_vt", True), ("displacement_deriv_vsq", True)):
                ref, wrong = x.spec("fc_slope", a, n, c0), x.spec("fc_slope_no1", a, n, c0)
                if extra:
                    ref, wrong = x.spec("mul", ref, a), x.spec("mul", wrong, a)
                ck.equal("%s, any photon state, %d Fock states" % (nm, n), it, x.m(x.qed, nm, 0, a, pdm), ref, BOS, wrong=wrong)
            ck.equal("displacement_matrix, %d Fock states" % n, it, x.m(x.qed, "displacement_matrix", 0, a, pdm), x.spec("fc", a, n, c0), BOS)
            ck.equal("displacement_exp_val, %d Fock states" % n, it, x.m(x.qed, "displacement_exp_val", 0, a, pdm), x.spec("fc", a, n, c0), BOS)
        ck.guarded("displacement derivative, %d Fock states" % n, go, BOS)
    for cls, site in (("scqedhf", SC), ("vtqedhf", VT)):
        for n in (1, 2, 3):
            for cd, par in ((False, "even"), (True, "even")) + (((False, "odd"), (True, "odd")) if n == 2 else ()):
                tag = "%s, %d Fock states%s%s" % (cls, n, ", Cholesky" if cd else "", ", odd photon state" if par == "odd" else "")

                def go():
                    x = M(ck, cls, dims=(n,), cd=cd, varf=True, vsq=True, even=par)
                    ck.cur = it = x.it
                    om, f = x.at0(x.omega, 0), x.at0(x.f, 0)
                    wd = x.spec("width", x.at0(x.r, 0), om)
                    eta0 = x.at0(x.eta, 0)
                    c0 = x.at0(x.c, Slice(None, None, None), 0)
                    a1 = x.spec("scale", wd, x.spec("dist1", eta0))
                    a2 = x.spec("scale", wd, x.spec("dist2", eta0))
                    S1, S2 = x.spec("fc_slope", a1, n, c0), x.spec("fc_slope", a2, n, c0)
                    gd, dd = x.at0(x.gd, 0), x.at0(x.dd, 0)
                    x.m(x.mf, "get_eta_gradient", x.dd, x.gd, x.dm)
                    ref = x.spec("eta_gradient", x.hd, x.ed, dd, x.spec("scale", wd, S1), x.spec("scale", wd, S2), gd, om)
                    ck.equal("displacement gradient, " + tag, it, x.at0(x.get(x.mf, "eta_grad"), 0), ref, SC)
                    if cls == "scqedhf":
                        return
                    X1, X2 = x.spec("mul", a1, S1), x.spec("mul", a2, S2)
                    x.set(x.mf, eta_grad=it.np.binop("Mult", 0.0, x.eta))
                    x.m(x.mf, "grad_var_params", x.dd, x.gd, x.dm)
                    ck.equal("displacement gradient of the joint update, " + tag, it, x.at0(x.get(x.mf, "eta_grad"), 0), ref, VT)
                    rf = x.spec("f_gradient", x.hd, x.ed, dd, X1, X2, gd, om, f)
                    ck.equal("transformation-strength gradient, " + tag, it, x.at0(x.get(x.mf, "vlf_grad"), 0), rf, VT)
                    rs = x.spec("add", x.spec("squeeze_gradient", x.hd, x.ed, dd, X1, X2), x.at0(x.get(x.qed, "e_boson_grad_r"), 0))
                    ck.equal("squeezing gradient, " + tag, it, x.at0(x.get(x.mf, "vsq_grad"), 0), rs, VT)
                ck.guarded("gradients, " + tag, go, site)


def m05(ck):
    """photon state: Hamiltonian, energy, density matrices, occupations"""
    for dims in ((1,), (2,), (3,), (2, 3)):
        tag = "Fock %s" % list(dims)

        def go():
            x = M(ck, dims=dims)
            ck.cur = it = x.it
            dl = it.new_list(list(dims))
            n = sum(dims)
            bos = it.load("openms.lib.boson")
            za = it.atom("za", (len(dims),), real=True)
            ck.equal("photon Hamiltonian, " + tag, it, it.call(it.mod_attr(bos, "get_bosonic_Ham"), [len(dims), dl, x.omega, za, x.r], {}),
                     x.spec("photon_ham", dl, x.omega, za, x.r), BOS)
            for mode in [None] + list(range(len(dims))):
                ck.equal("photon density matrix of mode %s, %s" % (mode, tag), it, x.m(x.qed, "get_boson_dm", mode), x.spec("photon_dm", x.c, dl, mode), BOS)
            ck.equal("photon occupations, " + tag, it, x.m(x.qed, "get_boson_occ"), x.spec("photon_occ", x.c, dl), BOS)
            for sc in (False, True):
                if sc and len(dims) > 1:
                    continue
                seen = []
                cv = it.atom("cv%d" % sc, (n, n), real=True)

                def eigh(it, a, kw):
                    seen.append(it.new_arr(it.arr(a[0])))
                    return Tup((it.atom("ev", (n,), real=True), it.new_arr(it.arr(cv))))
                it.overrides["scipy.linalg.eigh"] = eigh
                t2 = tag + (", with dressing" if sc else "")
                ref = x.spec("photon_ham", dl, x.omega, x.spec("drive", x.g, x.dm, x.z, x.f, x.omega), x.r)
                if sc:
                    hp = it.atom("hp", (n * (n + 1) // 2,), real=True)
                    x.set(x.qed, Hph_sc=hp)
                    ref = x.spec("add", ref, x.spec("unpack_half", hp, n))
                x.m(x.qed, "update_boson_coeff", x.dm)
                if len(seen) == 1:
                    ck.equal("diagonalised photon Hamiltonian, " + t2, it, seen[0], ref, BOS)
                else:
                    ck.undecided("diagonalised photon Hamiltonian, " + t2, "%d diagonalisations" % len(seen), BOS)
                c2 = x.get(x.qed, "boson_coeff")
                ck.equal("photon energy, " + t2, it, x.get(x.qed, "e_boson"), x.spec("photon_energy", cv, dl, x.omega, x.r), BOS)
                ck.equal("photon energy slope in the squeezing, " + t2, it, x.get(x.qed, "e_boson_grad_r"), x.spec("photon_energy_slope", cv, dl, x.omega, x.r), BOS)
                ck.equal("stored photon state, " + t2, it, x.spec("photon_dm", c2, dl, None), x.spec("photon_dm", cv, dl, None), BOS)
        ck.guarded("photon state, " + tag, go, BOS)
    for cls, site in (("qedhf", QED), ("scqedhf", SC), ("vtqedhf", VT)):
        def go():
            x = M(ck, cls, dims=(1,))
            ck.cur = it = x.it
            mo = it.atom("mo", (x.nao, it.size("na")), real=True)
            occ = it.np.binop("Add", 2.0, it.np.binop("Mult", 0.0, it.atom("occ", (it.size("na"),), nonneg=True)))
            rho = x.spec("density", mo, occ)
            nf = 3
            r = it.items(x.m(x.mf, "make_rdm1_org", mo, occ, nf))
            if cls == "qedhf":
                t = x.spec("original_rdm", rho, x.at0(x.z, 0), nf)
            else:
                z = x.spec("scale", it.np.binop("Div", x.at0(x.f, 0), x.at0(x.omega, 0)), x.at0(x.eta, 0))
                if cls == "vtqedhf":
                    z = x.spec("mul", z, x.spec("exp0", x.at0(x.r, 0)))
                t = x.spec("original_rdm_do", x.at0(x.U, 0), rho, z, nf)
            ck.equal("density matrix of the original frame, " + cls, it, r[0], t, site)
            ck.equal("electronic part, " + cls, it, r[1], x.spec("electron_rdm", t), site)
        ck.guarded("original frame, " + cls, go, site)


def m06(ck):
    """variational parameters survive the extrapolation vector"""
    for cls, site in (("scqedhf", SC), ("vtqedhf", VT)):
        for varf in (False, True):
            for vsq in (False, True):
                if cls == "scqedhf" and (varf or vsq):
                    continue
                for nm in (1, 2):
                    tag = "%s, %d modes%s%s" % (cls, nm, ", f optimised" if varf else "", ", squeezing optimised" if vsq else "")

                    def go():
                        x = M(ck, cls, dims=(1,) * nm, varf=varf, vsq=vsq)
                        ck.cur = it = x.it
                        at = it.atom
                        ge, gf, gr = at("ge", (nm, x.nao), real=True), at("gf", (nm,), real=True), at("gr", (nm,), real=True)
                        x.set(x.mf, eta_grad=ge, vlf_grad=gf, vsq_grad=gr)
                        vs = [x.eta] + ([x.f] if varf else []) + ([x.r] if vsq else [])
                        gs = [ge] + ([gf] if varf else []) + ([gr] if vsq else [])
                        v, g = it.items(x.m(x.mf, "pre_update_var_params"))
                        ck.equal("packed variables, " + tag, it, x.spec("flat", v), x.spec("pack", it.new_list(vs)), site)
                        ck.equal("packed gradients, " + tag, it, x.spec("flat", g), x.spec("pack", it.new_list(gs)), site)
                        n2 = lambda k, o: at(k + "2", tuple(it.arr(o).dims), real=True)
                        e2, f2, r2, F2 = n2("eta", x.eta), n2("f", x.f), n2("r", x.r), at("F2", (x.nao, x.nao), real=True)
                        new = [e2] + ([f2] if varf else []) + ([r2] if vsq else [])
                        vec = x.spec("pack", it.new_list([F2] + new))
                        fk = x.m(x.mf, "set_params", vec, Tup((x.nao, x.nao)))
                        ck.equal("unpacked Fock matrix, " + tag, it, fk, F2, site)
                        ck.equal("unpacked displacements, " + tag, it, x.get(x.mf, "eta"), e2, site)
                        ck.equal("unpacked transformation strength, " + tag, it, x.get(x.qed, "couplings_var"), f2 if varf else x.f, site)
                        ck.equal("unpacked squeezing, " + tag, it, x.get(x.qed, "squeezed_var"), r2 if vsq else x.r, site)
                        ck.equal("residual coupling follows f, " + tag, it, x.get(x.qed, "couplings_res"), it.np.binop("Sub", 1.0, f2 if varf else x.f), site)
                        x2 = M(ck, cls, dims=(1,) * nm, varf=varf, vsq=vsq)
                        it2 = x2.it
                        ge, gf, gr = [it2.atom(k, d, real=True) for k, d in (("ge", (nm, x2.nao)), ("gf", (nm,)), ("gr", (nm,)))]
                        x2.set(x2.mf, eta_grad=ge, vlf_grad=gf, vsq_grad=gr, eta=it2.new_arr(it2.arr(x2.eta)))
                        x2.set(x2.qed, couplings_var=it2.new_arr(it2.arr(x2.f)), squeezed_var=it2.new_arr(it2.arr(x2.r)))
                        p = x2.get(x2.mf, "precond")
                        nrm = x2.m(x2.mf, "norm_var_params")
                        parts = [ge] if cls == "scqedhf" else [ge, gf, gr]
                        ck.equal("gradient norm, " + tag, it2, nrm, x2.spec("rms_sum", it2.new_list(parts)), site)
                        x2.m(x2.mf, "update_var_params")
                        for what, o, nme, old, gr_, on in (("displacements", x2.mf, "eta", x2.eta, ge, True), ("strength", x2.qed, "couplings_var", x2.f, gf, varf),
                                                           ("squeezing", x2.qed, "squeezed_var", x2.r, gr, vsq)):
                            ck.equal("gradient step of the %s, %s" % (what, tag), it2, x2.get(o, nme), x2.spec("step", old, p, gr_) if on else old, site)
                        f3 = x2.spec("step", x2.f, p, gf) if varf else x2.f
                        ck.equal("residual coupling after a gradient step, %s" % tag, it2, x2.get(x2.qed, "couplings_res"), it2.np.binop("Sub", 1.0, f3), site)
                    ck.guarded("parameter vector, " + tag, go, site)

    def go():
        x = M(ck, "vtqedhf", dims=(1,))
        ck.cur = it = x.it
        di = it.load("openms.mqed.diis")
        f, cor, vg = it.atom("F", (x.nao, x.nao), real=True, sym=((0, 1),)), it.atom("Co", (x.nao, x.nao), real=True), it.atom("vg", (it.size("nvar"),), real=True)
        fn = it.mod_attr(di, "get_err_vec")
        ck.equal("error vector", it, it.call(fn, [x.s, x.dm, f, None, None], {}), x.spec("commutator_plain", x.s, x.dm, f), "openms/mqed/diis.py")
        ref = x.spec("commutator", x.s, x.dm, f, cor)
        ck.equal("error vector, orthonormal basis", it, it.call(fn, [x.s, x.dm, f, cor, None], {}), ref, "openms/mqed/diis.py")
        n, DI = x.nao, "openms/mqed/diis.py"
        H = lambda nm, *lead: it.atom(nm, lead + (n, n), herm=(len(lead), len(lead) + 1))
        cx = lambda nm, *lead: it.atom(nm, lead + (n, n))
        g = lambda a, i: it.getitem(a, i)
        s1, d1, f1, c1 = H("Sc"), H("Dc"), H("Fc"), cx("Xc")
        ck.equal("error vector, complex", it, it.call(fn, [s1, d1, f1, None, None], {}), x.spec("commutator_plain", s1, d1, f1), DI)
        ck.equal("error vector, complex, orthonormal basis", it, it.call(fn, [s1, d1, f1, c1, None], {}), x.spec("commutator", s1, d1, f1, c1), DI)
        d2, f2, c2 = H("Du", 2), H("Fu", 2), cx("Xu", 2)
        L = lambda a, k: it.new_list([g(a, i) for i in range(k)])
        ss = it.new_list([s1, s1])
        for c, tag in ((None, ""), (c2, ", orthonormal basis")):
            ck.equal("error vector, two spins%s" % tag, it, it.call(fn, [s1, d2, f2, c, None], {}),
                     x.spec("commutator_each", ss, L(d2, 2), L(f2, 2), c if c is None else L(c, 2)), DI)
        for k in (1, 2, 3):
            sk, dk, fk, xk = H("Sk%d" % k, k), H("Dk%d" % k, k), H("Fk%d" % k, k), cx("Xk%d" % k, k)
            for c, tag in ((None, ""), (xk, ", orthonormal basis")):
                ck.equal("error vector, %d blocks%s" % (k, tag), it, it.call(fn, [sk, dk, fk, c, None], {}),
                         x.spec("commutator_each", L(sk, k), L(dk, k), L(fk, k), c if c is None else L(c, k)), DI)
        sk, du, fu = H("Skk", 3), H("Duk", 2, 3), H("Fuk", 2, 3)
        both = lambda a: it.new_list([g(g(a, i), j) for i in range(2) for j in range(3)])
        ck.equal("error vector, two spins in 3 blocks", it, it.call(fn, [sk, du, fu, None, None], {}),
                 x.spec("commutator_each", it.new_list([g(sk, j) for i in range(2) for j in range(3)]), both(du), both(fu), None), DI)
        ck.equal("error vector with parameters", it, it.call(fn, [x.s, x.dm, f, cor, vg], {}), x.spec("pack", it.new_list([ref, vg])), "openms/mqed/diis.py")
    ck.guarded("error vector", go, "openms/mqed/diis.py")
