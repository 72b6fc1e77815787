"""Analysis contexts: objects of the repository's classes whose fields are free atoms."""
from ..engine.nf import REG, E_sym
from ..engine.interp import Ref, AV, TopV, CObj


class Q:
    """a trial/walker pair with symbolic contents"""

    def __init__(self, it, ncomp=1, boson=False, real_psi=False, rank_local=False, nw=None):
        self.it = it
        self.nao, self.na, self.nb, self.nw, self.nchol = [it.size(x) for x in ("nao", "na", "nb", "nw", "nchol")]
        if nw is not None:
            self.nw = nw
        self.ncomp = ncomp
        env = it.load("spec.env")
        self.trialmod = it.load("openms.qmc.trial")
        self.walkmod = it.load("openms.qmc.generic_walkers")
        self.h1a = it.atom("h1", (self.nao, self.nao), real=True, sym=((0, 1),))
        self.L = it.atom("L", (self.nchol, self.nao, self.nao), real=True, sym=((1, 2),))
        nb = self.nb if ncomp > 1 else self.na
        self.mol = it.call(it.mod_attr(env, "Mol"), [self.nao, self.na, nb], {})
        mf = it.call(it.mod_attr(env, "MeanField"), [self.mol, it.atom("mo", (self.nao, self.nao))], {})
        TrialHF = it.mod_attr(self.trialmod, "TrialHF")
        self.trial = it.call(TrialHF, [self.mol], {"mf": mf, "ncomponents": ncomp})
        psia = it.atom("psia", (self.nao, self.na))
        at = {"psia": psia, "psi": psia, "nalpha": self.na, "nbeta": nb, "nao": self.nao, "_numdets": 1,
              "verbose": 0, "ncomponents": ncomp}
        self.psia = psia
        if ncomp > 1:
            at["psib"] = self.psib = it.atom("psib", (self.nao, self.nb))
            at["psi"] = it.np.concat([psia, self.psib], 1) if False else psia
        self.set(self.trial, at)
        W = it.mod_attr(self.walkmod, "Walkers_so")
        self.walkers = it.call(W, [self.trial], {"nwalkers": self.nw})
        wt = {"nwalkers": self.nw, "nalpha": self.na, "nbeta": nb, "ncomponents": ncomp, "nao": self.nao}
        self.phia = wt["phiwa"] = it.atom("phia", (self.nw, self.nao, self.na))
        if ncomp > 1:
            self.phib = wt["phiwb"] = it.atom("phib", (self.nw, self.nao, self.nb))
        # replaced by resampling: no operation may fall back on the array the walkers were created with
        wt["phiw"] = it.atom("phiw0", (self.nw, self.nao, it.np.binop("Add", self.na, self.nb) if ncomp > 1 else self.na))
        wt["logshift"] = self.logshift = it.atom("lsh", (self.nw,), real=True)
        self.set(self.walkers, wt)

    def bosons(self, dims):
        """give the system bosonic modes with the listed Fock dimensions; returns (freq, trial, walker amplitudes)"""
        it = self.it
        n = sum(dims)
        self.dims = dims
        self.freq = it.atom("freq", (len(dims),), nonneg=True)
        self.g = it.atom("g", (len(dims), self.nao, self.nao), real=True)
        self.m(self.mol, "set_bosons", self.freq, it.new_list(list(dims)), None)
        self.bpsi = it.atom("bpsi", (n,))
        self.bphi = it.atom("bphi", (self.nw, n))
        it.setattr(self.trial, "boson_psi", self.bpsi)
        it.setattr(self.walkers, "boson_phiw", self.bphi)

    def set(self, o, attrs):
        for k, v in attrs.items():
            self.it.setattr(o, k, v)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def m(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name), list(args), kw)
