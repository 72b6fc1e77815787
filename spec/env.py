"""Stand-ins for the external objects the analysed code is handed (interpreted, never executed)."""
import numpy as np

SIZE = 1
RANK = 0
COMM = None


class World:
    """MPI environment with a chosen rank and size"""

    def __init__(self, verbose=1):
        self.verbose = verbose
        self.size = SIZE
        self.rank = RANK
        self.comm = COMM


class Mol:
    def __init__(self, nao, na, nb):
        self.verbose = 0
        self.stdout = None
        self.nelectron = na + nb
        self.spin = na - nb
        self.nelec = (na, nb)
        self._nao = nao

    def nao_nr(self):
        return self._nao

    def set_integrals(self, ints, enuc):
        self._ints = ints
        self._enuc = enuc

    def intor(self, name, aosym="s1", shls_slice=None, comp=None, hermi=0):
        v = self._ints[name]
        if shls_slice is None:
            return v + 0.0
        a = shls_slice
        return v[a[0]:a[1], a[2]:a[3], a[4]:a[5], a[6]:a[7]] + 0.0

    def energy_nuc(self):
        return self._enuc

    def set_shells(self, n):
        """n shells of one s function each"""
        self.nbas = n

    def bas_angular(self, i):
        return 0

    def bas_nctr(self, i):
        return 1

    def set_bosons(self, freq, nboson_states, gmat):
        self.boson_freq = freq
        self.nmodes = len(nboson_states)
        self.nboson_states = nboson_states
        self.gmat = gmat


class MeanField:
    def __init__(self, mol, mo_coeff):
        self.mol = mol
        self.mo_coeff = mo_coeff
        self.verbose = 0
        self.stdout = None


class Recorder:
    """stands in for propagator and walkers of a run and notes what the main loop does with them"""

    def __init__(self, mc, energies, shifts):
        self.mc = mc
        self.energies = energies
        self.shifts = shifts
        self.nmeas = 0
        self.nstack = 0
        self.log = []
        self.debug_mpi = False
        self.verbose = 0
        self.stdout = None
        self.weights_org = None
        self.comm = None

    def touch(self):
        """every operation of a run draws random numbers and talks to the other ranks"""
        if self.comm is not None:
            self.comm.allreduce(1.0, op=None)
            np.random.normal(0.0, 1.0, 3)

    @property
    def raw_norm(self):
        self.touch()
        return 1.0

    def dump_flags(self):
        pass

    def post_kernel(self):
        pass

    def build(self, h1e, ltensor, trial, geb=None):
        self.log.append(("build", h1e, ltensor, trial, geb))

    def orthogonalization(self):
        self.touch()
        self.log.append(("orthogonalise",))

    def propagate_walkers(self, trial, walkers, ltensor, eshift=0.0, verbose=0):
        self.touch()
        self.log.append(("propagate", trial, walkers, ltensor, eshift))

    def weight_control(self, step, freq=5, method="reconfiguration"):
        self.touch()
        self.log.append(("control", step, freq, method))

    def property_stack(self, walkers, step):
        self.touch()
        self.log.append(("stack", walkers, step))
        self.mc.eshift = self.shifts[self.nstack]
        self.nstack = self.nstack + 1

    def local_energy(self, h1e, ltensor, walkers, trial, enuc=0.0):
        self.touch()
        self.log.append(("measure", h1e, ltensor, walkers, trial, enuc))
        e = self.energies[self.nmeas]
        self.nmeas = self.nmeas + 1
        return e
