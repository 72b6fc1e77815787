prop("Q01", "Walker local energies equal the mixed estimator of the Hamiltonian",
     "For every walker and every Hartree-Fock trial (restricted or unrestricted), the one-body and two-body local energies computed from the half-rotated integrals equal the mixed expectation value <trial|H|walker>/<trial|walker> evaluated with the full one-particle Green's function: one-body trace plus half the Coulomb minus half the exchange contraction of the Cholesky vectors, for each spin. The plain and the just-in-time compiled kernels give the same value.",
     I, "all orbital matrices, integrals, Cholesky vectors and sizes; plain and compiled kernels; restricted and unrestricted",
     "tests compare total energies of a few molecules after a few steps; a wrong spin factor, index or kernel variant that is unused or compensates there goes unseen",
     ["openms/qmc/estimators.py", "openms/qmc/trial.py"],
     [("local energy kernels", "openms/qmc/estimators.py: local_energy_SD_RHF, local_energy_SD_UHF, ecoul_*, exx_*"),
      ("half rotation", "openms/qmc/trial.py: half_rotate_integrals, TrialHF.half_rotate_integrals")])
prop("Q02", "An electronic propagation step applies the stated short-time propagator",
     "One propagation step maps every walker's orbitals to half one-body propagator, truncated exponential of the field-shifted two-body operator, half one-body propagator, where the one-body operator carries the reordering and mean-field corrections and the fields are shifted by the bounded optimal force bias. The weight factor is built from the overlap ratio, force-bias and mean-field terms of the same step. This holds for restricted and unrestricted walkers, plain and compiled kernels, both energy schemes and every expansion order.",
     I, "all walkers, trials, integrals, time steps, field samples, expansion orders and weights",
     "tests run short trajectories with one seed and compare averaged energies to a tolerance; they do not exercise unrestricted, large-bias or high-order branches",
     ["openms/qmc/propagators.py", "openms/qmc/trial.py"],
     [("propagator construction", "openms/qmc/propagators.py: PropagatorBase.build"),
      ("step", "openms/qmc/propagators.py: Phaseless.propagate_walkers and the functions it calls")])
prop("Q03", "The phaseless weight update is bounded, real and non-negative",
     "The weight update multiplies each walker's weight by |exp(-dt((E+E_prev)/2 - E_shift))| max(0, cos(phase)) in the hybrid scheme, with E the hybrid energy of this step clamped to the window sqrt(2/dt) around the real energy shift and E_prev the value stored by the previous step, and by exp(-dt Re E_local) max(0, cos(arg)) in the local scheme. Weights stay real and non-negative for every overlap ratio, force-bias and mean-field factor, and the hybrid energy and overlap stored are the ones of this step.",
     I, "all overlaps, bias factors, previous energies, real or complex energy shifts",
     "clamping, sign changes and complex shifts only occur for rare walkers; averaged energies hide them",
     ["openms/qmc/propagators.py"],
     [("weight update", "openms/qmc/propagators.py: Phaseless.update_weight")])
prop("Q04", "Electron-boson local energy is assembled mode by mode",
     "For a coupled electron-boson system the walker local energy is the electronic local energy plus, unless bosons are switched off, the sum over modes of frequency times occupation and the sum over modes of the electronic coupling expectation value times the displacement in that mode's own Fock block. The reported totals are the weight-weighted sums of the real parts, for any number of modes with any Fock dimensions.",
     I, "all walkers, couplings, frequencies, weights; one or several modes with equal or different Fock dimensions",
     "tests use one or identical modes; a block offset error changes nothing with one mode",
     ["openms/qmc/estimators.py", "openms/qmc/propagators.py"],
     [("boson and coupling energies", "openms/qmc/estimators.py: local_eng_boson_2nd, local_eng_eboson"),
      ("assembly", "openms/qmc/propagators.py: PhaselessElecBoson.local_energy")])
prop("Q05", "An electron-boson propagation step treats both subsystems consistently",
     "One coupled step applies half the free boson evolution, the electronic step, the bilinear coupling and the second half boson evolution; in the factorised form electrons feel the walker-averaged displacement and bosons the walker-averaged electronic density, in the decoupled form both see the same auxiliary fields with their own force bias and mean-field shift. The overlap ratio entering the weight includes the boson overlap, and with bosons switched off the boson state is untouched and the step is the electronic one.",
     I, "all walkers, boson amplitudes, couplings, frequencies, field samples; factorised and decoupled forms; bosons on and off",
     "tests run single-seed trajectories of one molecule with a tolerance wider than the effect of a missing boson factor",
     ["openms/qmc/propagators.py", "openms/qmc/generic_walkers.py", "openms/qmc/trial.py"],
     [("coupled step", "openms/qmc/propagators.py: PhaselessElecBoson.build, propagate_walkers, propagate_bosons_2nd, propagate_bosons_bilinear"),
      ("displacement average", "openms/qmc/generic_walkers.py: get_boson_dm, get_boson_bdag_plus_b")])
prop("Q06", "The bilinear coupling decomposition reproduces the coupling exactly",
     "For every mode the products of the electronic and bosonic factors of the auxiliary fields generated for the bilinear term sum to the coupling matrix times both prefactors. In the first two schemes the squares of the electronic factors, and of the bosonic factors, cancel within each mode, so no spurious interaction is introduced.",
     I, "all coupling matrices and prefactors, any number of modes, all three schemes",
     "tests look at energies of runs with one scheme and one mode; cross-mode or cancellation errors are below their tolerance",
     ["openms/qmc/tools.py"], [("decomposition", "openms/qmc/tools.py: bilinear_decomposition")])
prop("Q07", "Overlaps, Green's functions and force bias agree along every code path",
     "The walker-trial overlap is the product of the spin determinants (squared for restricted walkers) scaled down by the walker's stored log shift, whether or not Green's functions are requested and whichever kernel variant is used. Electronic and bosonic Green's functions are the mixed density matrices of walker and trial, the force bias is their contraction with the Cholesky vectors summed over both spins, and the boson trial built from displacements is the normalised concatenation of coherent-state amplitudes of the modes.",
     I, "all walker and trial matrices, log shifts, displacements and Fock dimensions; plain and compiled kernels; rotated and unrotated integrals",
     "tests exercise one kernel variant with zero log shift and restricted walkers",
     ["openms/qmc/trial.py", "openms/qmc/propagators.py", "openms/qmc/generic_walkers.py"],
     [("overlap and Green's function", "openms/qmc/trial.py: calc_trial_walker_ovlp, calc_trial_walker_ovlp_gf, trial_walker_ovlp_*"),
      ("force bias", "openms/qmc/trial.py: TrialHF.get_vbias"),
      ("coherent trial", "openms/qmc/trial.py: initialize_boson_trial_with_z")])
prop("Q09", "Measured averages are over the walkers of all ranks",
     "With walkers distributed over several ranks, every quantity that is reported or fed back into the propagation is the average over the whole population: the weighted sums behind the total, one-body, two-body, boson and coupling energies and their common weight sum, the energy shift built from accumulated weights and hybrid energies, the total weight used to rescale the weights, and the electron density and boson displacement used by the coupled propagator. With one rank the same quantities are the plain local averages.",
     I, "all walkers, weights, energies and trial states; one rank and several ranks; accumulation over one, two or three steps",
     "tests run on a single rank, where a missing reduction changes nothing",
     ["openms/qmc/propagators.py", "openms/qmc/generic_walkers.py", "openms/qmc/qmc.py"],
     [("energy sums", "openms/qmc/propagators.py: Phaseless.local_energy, PhaselessElecBoson.local_energy"),
      ("shift and weights", "openms/qmc/qmc.py: property_stack; openms/qmc/generic_walkers.py: weight_control"),
      ("fed-back averages", "openms/qmc/propagators.py: update_GF; openms/qmc/generic_walkers.py: get_boson_bdag_plus_b")])
prop("Q12", "Re-orthonormalising walkers does not change the state they represent",
     "Walker stabilisation replaces the orbitals of each spin of each walker by an orthonormal basis of the same space and rescales the boson amplitudes of each walker to unit norm. Nothing else about the represented state changes: no spin is mixed with the other, no walker with another, and the relative phases of the boson amplitudes are kept.",
     I, "all walker orbitals and boson amplitudes, restricted and unrestricted",
     "tests never compare a state before and after stabilisation, and real positive amplitudes hide a lost phase",
     ["openms/qmc/qmc.py"], [("stabilisation", "openms/qmc/qmc.py: qr_ortho, QMCbase.orthogonalization")])
prop("M01", "Coupling matrices and the photon one-electron term follow Pauli-Fierz",
     "For every mode the coupling matrix is the coupling strength times the polarisation dotted into the electronic dipole, and the squared coupling is the strength squared times the polarisation tensor contracted with the quadrupole. The one-electron matrix added to the core Hamiltonian is, per mode, minus the weighted displacement times the coupling, plus half the weighted squared dipole when the self-energy is on, plus the bilinear term sqrt(omega/2) times the photon displacement amplitude of that mode's Fock block times the coupling relative to its coherent displacement, plus the constant (half the weighted squared displacement and the photon energy) shared among the electrons through the overlap; the weight is 1, or (1-f)^2 in the transformed frame. The matrix reported as its slope in f is the derivative of the f-dependent weights.",
     I, "all dipole and quadrupole integrals, densities, couplings, frequencies, displacements, photon amplitudes and f; one or several modes with equal or different Fock dimensions; self-energy on and off; coherent and fixed displacement",
     "tests use one mode and compare converged energies of single molecules",
     ["openms/lib/boson.py"],
     [("coupling matrices", "openms/lib/boson.py: get_gmatao, get_q_dot_lambda, get_gmat_ao, get_q_lambda_ao"),
      ("one-electron term", "openms/lib/boson.py: add_oei_ao")])
prop("M02", "QED-HF potential, Fock matrix and energy are the Pauli-Fierz mean field",
     "The QED Hartree-Fock potential is the Coulomb minus half the exchange of the electron repulsion plus that of the dipole self-energy with the frame's weight, whether built from stored integrals, without them, or incrementally from a previous density, and with Coulomb or exchange requested alone. The core Hamiltonian is the bare one plus the photon one-electron term (bare without a density), the Fock matrix is their sum (plus the requested level shift of the virtual space), and the electronic energy is the trace with the core Hamiltonian plus half the trace with the potential, which equals the expectation value of the Pauli-Fierz Hamiltonian in the product of Slater determinant and photon state.",
     I, "all integrals, densities, couplings, displacements and photon amplitudes; several modes; self-energy on and off",
     "tests compare converged energies of single molecules with stored integrals only",
     ["openms/mqed/qedhf.py", "openms/lib/boson.py"],
     [("potential", "openms/mqed/qedhf.py: RHF.get_dse_jk, get_jk, get_veff, get_bare_veff"),
      ("energy and Fock", "openms/mqed/qedhf.py: RHF.get_hcore, energy_elec, get_fock")])
prop("M03", "The dressed Hamiltonian of SC- and VT-QED-HF is Franck-Condon weighted",
     "In strong-coupling and variational-transformation QED-HF (one mode) the one- and two-electron integrals in the dipole orbitals are weighted by the Franck-Condon factor, the photon state's expectation value of the displacement by exp(r)/omega times the difference of orbital displacements; the residual dipole adds its square over omega to the one-electron diagonal and its direct and exchange terms to the potential; dressed matrices are returned in atomic orbitals, and the variational method adds the residual photon one-electron and self-energy terms. Exact integrals and Cholesky vectors of the same integrals give the same potential and energy, for photon states of definite parity.",
     I, "all dipole orbitals, displacements, integrals, densities, squeezing and photon amplitudes; exact and Cholesky integrals; one to three Fock states",
     "tests compare converged energies of one molecule at a loose tolerance, mostly without photons in excited Fock states",
     ["openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/lib/boson.py"],
     [("Franck-Condon factor", "openms/mqed/scqedhf.py: RHF.FC_factor; openms/lib/boson.py: displacement_matrix"),
      ("dressed integrals", "openms/mqed/scqedhf.py: RHF.get_h1e_DO, get_hcore, get_veff; openms/mqed/vtqedhf.py: RHF.get_hcore, get_veff")])
prop("M04", "Gradients of the variational parameters are derivatives of the energy",
     "In the transformed methods (one mode) the reported gradient with respect to each orbital displacement is the derivative of the energy in that displacement at fixed density, the gradient with respect to the transformation strength f is its derivative along the scaling of dipole and displacements with f, and the gradient with respect to the squeezing is its derivative through the width of the displacements plus that of the photon energy. Exact and Cholesky integrals give the same gradients. The derivative of the displacement matrix element used for several Fock states is the derivative of the matrix element used in the energy.",
     I, "all densities, dipole orbitals, displacements, integrals, f and squeezing; photon states of definite parity with one to three Fock states; exact and Cholesky integrals",
     "a wrong gradient still converges, only to a slightly different or slower solution that energy tolerances accept",
     ["openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/lib/boson.py"],
     [("displacement gradient", "openms/mqed/scqedhf.py: RHF.get_eta_gradient, gaussian_derivative_vectorized"),
      ("f and squeezing gradients", "openms/mqed/vtqedhf.py: RHF.grad_var_params, get_vsq_gradient, gaussian_derivative_f_vector, gaussian_derivative_sq_vector"),
      ("displacement derivative", "openms/lib/boson.py: displacement_deriv_kernel, displacement_deriv, displacement_deriv_vt, displacement_deriv_vsq")])
prop("M05", "Photon energy, state and density matrices match the photon Hamiltonian",
     "The photon Hamiltonian that is diagonalised has one block per mode with frequency times the squeezed number operator on the diagonal and the drive (1-f) sqrt(omega/2) times the dipole relative to its coherent displacement on the first off-diagonals with harmonic-oscillator factors, plus the dressing of the electronic Hamiltonian where present. The stored photon energy is the expectation value of its undriven part in the lowest eigenvector and the stored slope is that value's derivative in the squeezing. Photon density matrices and occupations are those of the stored amplitudes in each mode's own block, and density matrices in the original frame carry coherent-state amplitudes exp(-z^2/2) z^m/sqrt(m!) (orthonormal basis for orbital-dependent displacements).",
     I, "all densities, couplings, frequencies, squeezing and amplitudes; one or two modes with different Fock dimensions",
     "tests never look at the photon state, only at total energies with mostly empty modes",
     ["openms/lib/boson.py", "openms/mqed/qedhf.py", "openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py"],
     [("photon Hamiltonian", "openms/lib/boson.py: get_bosonic_Ham, Boson.update_boson_coeff"),
      ("density matrices", "openms/lib/boson.py: get_boson_dm, get_boson_occ; openms/mqed/*: RHF.make_rdm1_org")])
prop("M06", "Variational parameters survive the DIIS vector and the gradient step",
     "For every combination of optimised parameters, the packed vector of variables and the packed vector of gradients list the same parameters in the same order, and unpacking an extrapolated vector restores the Fock matrix and exactly the optimised parameters from their own entries, leaves the others untouched and keeps the residual coupling equal to 1-f. A gradient step moves each optimised parameter by minus the step length times its own gradient and no other, the convergence norm covers all of them, and the error vector is the orbital commutator (in the orthonormal basis when given) followed by the parameter gradients.",
     I, "all parameter values and gradients, one and two modes, all combinations of optimised displacement, transformation strength and squeezing",
     "a swapped or dropped block changes the path of the extrapolation, not an assertion in a test",
     ["openms/mqed/scqedhf.py", "openms/mqed/vtqedhf.py", "openms/mqed/diis.py"],
     [("packing", "openms/mqed/vtqedhf.py: RHF.pre_update_var_params, set_params, update_var_params, norm_var_params; openms/mqed/scqedhf.py: same"),
      ("error vector", "openms/mqed/diis.py: get_err_vec")])
prop("Q08", "The sampled Hamiltonian is the molecular Hamiltonian in the chosen basis",
     "The one-body matrices, Cholesky fields and bilinear couplings handed to the propagation represent exactly the molecular Hamiltonian: one-body matrix and couplings are congruence-transformed to the working basis (orthogonalised atomic orbitals or molecular orbitals), the products of the fields sum to the two-electron integrals (plus half the couplings' dipole self-energy when that is merged, and the bilinear fields when the coupling is decoupled), for one or several modes and both spin forms, and the caller's integrals and couplings are left unchanged. Both Cholesky routines return vectors whose products reproduce the integrals up to the threshold, coupling modes included.",
     I, "all integrals, overlap matrices, couplings, numbers of modes, basis choices, decomposition schemes and thresholds",
     "tests run one or two molecules in one basis and compare energies within statistical error; a lost mode or a mutated input is invisible there",
     ["openms/qmc/qmc.py", "openms/qmc/tools.py"],
     [("integral pipeline", "openms/qmc/qmc.py: QMCbase.get_integrals"),
      ("decompositions", "openms/qmc/tools.py: get_h1e_chols, chols_full, chols_blocked, bilinear_decomposition")])
prop("Q10", "All ranks take part in the same communication",
     "Whether a collective operation of a Monte Carlo run (measurement, propagation, running averages, weight control, population control, main loop) is executed never depends on data local to one rank, so no rank waits for an operation another skips. Without MPI the one-process communicator behaves as the identity: size one, rank zero, reductions and broadcasts return their argument, buffer operations copy it and do not alias it. The walkers of a parallel run are split into contiguous, disjoint blocks that cover the population.",
     ["configurations", "schedules", "inputs"], "all numbers of ranks, all local walker data, all methods of population control and both propagators",
     "tests run on a single process",
     ["openms/qmc/propagators.py", "openms/qmc/generic_walkers.py", "openms/qmc/population_control.py", "openms/__mpi__.py"],
     [("collectives", "openms/qmc/propagators.py, openms/qmc/generic_walkers.py, openms/qmc/population_control.py: calls of comm.*"),
      ("one-process communicator", "openms/__mpi__.py: FakeComm"),
      ("distribution", "openms/qmc/generic_walkers.py: BaseWalkers.__init__")],
     technique="effect analysis of collective operations with path conditions and a rank-dependence lattice, on the value-flow interpretation of the source")
prop("Q11", "Population control preserves the walker ensemble",
     "Each method of population control (pair branching, stochastic reconfiguration, comb) keeps the number of walkers and the total weight exactly, and the expected weight carried by every walker state equals its weight before: every resampled walker is a copy (orbitals of both spins and boson amplitudes together) of one old walker, and the average over the random numbers of the new weight of its copies is the old weight. Distributing the walkers over ranks does not change this.",
     H, "all weights, walkers, random numbers, spin forms, with and without bosons",
     "bias in resampling is a property of the distribution over random numbers; a test sees one sample",
     ["openms/qmc/population_control.py", "openms/qmc/generic_walkers.py"],
     [("resampling", "openms/qmc/population_control.py: comb_resampling, stochastic_reconfiguration, branching_dp0, population_control_factory"),
      ("packing", "openms/qmc/generic_walkers.py: weight_control, _pack_walkers, _unpack_walkers")],
     technique="path-sensitive value-flow analysis: every path's selection is compared with the reference; expectations over the uniform draws are integrated from the path conditions")
prop("Q13", "A seed fixes a run and ranks draw independently",
     "Every random number drawn in a run (auxiliary fields, population control) comes from the generator that the run seeds from its random_seed before the first draw, so equal seeds give equal runs; with several ranks each rank's stream is seeded by the seed and the rank, except when the shared debugging stream is requested, in which case all ranks draw the same numbers. No time, hash, environment or unseeded generator enters.",
     H, "all seeds, numbers of ranks, propagators and methods of population control",
     "tests use one process and one seed",
     ["openms/qmc/qmc.py", "openms/qmc/propagators.py", "openms/qmc/population_control.py"],
     [("seeding", "openms/qmc/qmc.py: QMCbase.kernel"),
      ("draws", "openms/qmc/propagators.py and openms/qmc/population_control.py: np.random.*")],
     technique="effect analysis of random draws with the provenance of the generator's seed, on the value-flow interpretation of the source")
prop("Q14", "A run follows the declared schedule of operations",
     "For every number of steps and every period, a run builds its propagator, orthonormalises, and then performs in each step: orthonormalisation on the steps that are multiples of its period, one propagation with the current energy shift, population control with its period and method, and measurement on the multiples of the measurement period; recorded energies are those of that measurement in order, with the matching times, and the integrals handed to every operation are the run's own.",
     ["configurations", "histories"], "all step counts, periods and population control methods",
     "tests use one period for everything and few steps; an off-by-one in a period or a stale shift changes results within statistical error",
     ["openms/qmc/qmc.py"], [("main loop", "openms/qmc/qmc.py: QMCbase.kernel")],
     technique="effect-sequence analysis of the main loop by interpretation of its source with recorder objects")
prop("M07", "What a self-consistent calculation reports belongs together",
     "A self-consistent QED-HF, SC-QED-HF or VT-QED-HF calculation of any length reports an energy that is the energy functional at the density of the orbitals and occupations it reports, with core Hamiltonian and potential of that same density (incremental potentials start from the matching previous density and potential), orbitals that diagonalise a Fock matrix whose parts share one density, and leaves coherent and photon state of that density behind. It is reported converged exactly when in some cycle within the limit the energy changed by less than its tolerance and the orbital gradient plus the variational gradients' norm is below theirs.",
     H, "all sequences of energies and gradients, cycle limits, starting densities, with and without the final check",
     "tests look at the final energy of converged calculations only; a stale intermediate changes it by less than their tolerance",
     ["openms/mqed/qedhf.py", "openms/mqed/scqedhf.py"],
     [("drivers", "openms/mqed/qedhf.py: kernel, RHF.scf; openms/mqed/scqedhf.py: kernel, RHF.scf")],
     technique="effect-sequence and provenance analysis of the drivers by interpretation of their source with recorder objects")
prop("C02", "Electron-mode full CI applies exactly the Hamiltonian it is given",
     "In the full configuration interaction of electrons and modes, every contraction of a CI vector equals the corresponding operator applied to it, for every vector, integral and coupling: the one-electron operator on both spins, the two-electron repulsion (also with the one-electron part absorbed, and in the spin-singlet form), the on-site repulsion, the bilinear coupling sum_m g^m_pq E_pq (b_m + b_m^dagger) with sqrt(n+1) ladder factors and each mode's own number-state cut-off, the mode energies given as a vector or as a matrix w_ij b_i^dagger b_j, also around a displacement, and the single-mode creation and annihilation operators. The eigenvalue problem that the solver hands to the diagonaliser is that of the sum of all terms, the returned total energy is its eigenvalue plus the core energy, and the reduced density matrices (electron, electron pair, boson) are the expectation values of the matching operators in the vector.",
     ["configurations", "data_values"], "all CI vectors, integrals, couplings and mode energies; numbers of orbitals, electrons, modes and number states by finite cells (two and three orbitals, open and closed shells, zero to two modes with unequal cut-offs)",
     "no test of the repository calls this solver",
     ["openms/mqed/qedfci.py"],
     [("contractions", "openms/mqed/qedfci.py: contract_1e, contract_2e, contract_2e_spin0, contract_2e_hubbard, contract_eb, contract_bb, cre_boson, des_boson, contract_all"),
      ("solver", "openms/mqed/qedfci.py: kernel"), ("density matrices", "openms/mqed/qedfci.py: make_rdm1e, make_rdm12e, make_rdm1p")])
prop("C01", "QED coupled cluster residuals are the projected Hamiltonian",
     "For every set of amplitudes, integrals, mode energies and couplings, the residuals returned by each version of the QED coupled cluster equations (plain, and the two versions with intermediates, in their joint and separate forms) are the projections of exp(-T) H exp(T) |0> on the singly and doubly excited determinants, on the number states of the modes, and on their products, with H the normal-ordered Pauli-Fierz Hamiltonian and T the cluster operator of the given amplitudes: electron singles and doubles, one- and two-photon amplitudes, singles with one or two photons and doubles with one photon, for any number of modes and orbitals, and doubles with two photons for one mode. So all versions agree with each other, and converged amplitudes do not depend on the version used.",
     ["configurations", "data_values"], "all amplitudes with their index symmetries, all antisymmetric two-electron integrals, Fock blocks, couplings and mode energies; orbital and mode counts by finite cells",
     "no test of the repository touches these equations; a wrong prefactor or index in one of hundreds of contractions shifts energies by amounts no sampled reference shows",
     ["openms/mqed/qedcc_equations.py", "openms/mqed/myqedcc_equations.py", "openms/mqed/myqedcc_equations_opt.py"],
     [("plain equations", "openms/mqed/qedcc_equations.py: qedccsd_sn_u2n, qedccsd_T1, qedccsd_T2, qedccsd_Sn, qedccsd_U1n, qedccsd_U2n"),
      ("with intermediates", "openms/mqed/myqedcc_equations.py, openms/mqed/myqedcc_equations_opt.py: new_qedccsd_sn_u2n, Imds.build")])

prop("C03", "QED coupled cluster receives the Hamiltonian of its reference",
     "For every molecule, coupling, mode set and converged orbitals (closed or open shell), the quantities that the photon object hands to coupled cluster are the spin-orbital matrix elements of the Pauli-Fierz Hamiltonian in the reference's orbitals: each block of the Fock matrix is h + J - K of the two spins' densities with the photon-mediated one-electron terms and the dipole self-energy; each block of the two-electron integrals is antisymmetrised <pq||rs> with spin conserved, including the self-energy exactly when the reference includes it; each block of the coupling, and the mean coupling, is sqrt(omega/2) lambda.d of the matching mode. Asking twice returns the same values, whatever core Hamiltonian the mean field supplies.",
     ["configurations", "data_values"], "all orbitals, integrals with their eightfold symmetry, couplings and frequencies; two or three orbitals, one and two modes, closed shell and unequal spins, with and without self-energy",
     "the repository's coupled-cluster tests cannot be imported here, and use one mode, closed shell and one molecule",
     ["openms/lib/boson.py", "openms/lib/ov_blocks.py"],
     [("integrals", "openms/lib/boson.py: Photon.get_mos, Photon.fock, Photon.g_fock, Photon.get_I, Photon.gint, Photon.mfG, Photon.get_gmat_so")])
prop("C04", "Coupled-cluster iterations solve for zero residual",
     "For every right-hand side, orbital energies, mode energies and starting amplitudes, one iteration of the QED coupled-cluster solver replaces each amplitude by the mix of its old value and the right-hand side (evaluated with the diagonal of the Fock matrix removed, at the current amplitudes) divided by the energy denominator of exactly that excitation - occupied minus virtual orbital energies minus the energy of every mode quantum, along the matching axis, for any number of modes and photon orders - so amplitudes are stationary exactly when all residuals vanish. Extrapolation acts on all amplitudes (packing into a vector and unpacking restores every one), the starting amplitudes are the first-order ones, and the returned correlation and total energy are those of the final amplitudes.",
     ["configurations", "data_values", "histories"], "all right-hand sides and amplitudes; one and two modes, photon orders one to three, with and without doubles-with-photons, one and two iterations, with and without extrapolation; the coherent-state reference, whose mean coupling vanishes",
     "the repository's coupled-cluster tests cannot be imported here; they use one mode, where a wrong mode axis broadcasts unnoticed",
     ["openms/mqed/ccsd.py"],
     [("iteration", "openms/mqed/ccsd.py: kernel, getDsn, getD1p, getD2p, epcc_energy, eph_energy"), ("amplitude vector", "openms/mqed/ccsd.py: CCSD.amplitudes2vector, CCSD.vector2amplitudes, CCSD.run_diis")])

prop("H01", "Lattice models return the matrix elements of their Hamiltonian",
     "For every repulsion, hopping geometry, orbital coefficients, coupling and boson energy, the Hubbard and Hubbard-Holstein models return exactly the matrix elements of their Hamiltonian: hopping -1 over every bond of the chain or ring (one bond for two sites on an open chain), spin-orbital one- and two-electron integrals in the orbital basis (plain and antisymmetrised, per spin and in spin orbitals) with every occupied/virtual block being the corresponding slice, Fock matrix and mean-field energy equal to the expectation value of the Hamiltonian in the determinant, coupling tensors in the orbital basis, and, with shifted bosons, the energy and Fock shift that completing the square produces. The default orbitals come from a mean field with the model's own hopping.",
     ["configurations", "data_values"], "all coefficients and parameters; two to four sites, open and periodic, unequal occupations, with and without bond coupling and shift",
     "no test of the repository uses these models",
     ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/lib/ov_blocks.py"],
     [("Hubbard chain", "openms/models/hubbard.py: Hubbard1D"), ("Hubbard-Holstein", "openms/models/hh_model.py: HHModel, get_mo"),
      ("blocks", "openms/lib/ov_blocks.py: block_diag, make_two_e_blocks, make_two_e_blocks_full")])
prop("B01", "Bosonic trial functions, their derivatives and local energies agree",
     "For every displacement, mass, frequency and configuration, the position and momentum trial functions of the bosons are the shifted Gaussians of an oscillator, their gradient and Laplacian are the first and second derivatives divided by the function, and the local energy is the oscillator Hamiltonian applied to the function and divided by it with the zero-point energy removed. The number-state trial expands a product of coherent states (or the decaying default) in the product basis, and its overlap with walkers conjugates the trial.",
     ["data_values"], "all displacements, masses, frequencies, configurations; number of modes and number states by finite cells",
     "no test of the repository evaluates these functions",
     ["openms/qmc/trial_boson.py"],
     [("oscillator trials", "openms/qmc/trial_boson.py: TrialQ, TrialP"), ("number states", "openms/qmc/trial_boson.py: TrivialFock.build, coherent_state_coeff, calc_trial_walker_ovlp")])
prop("D01", "A Runge-Kutta step is accurate to fourth order",
     "For every right-hand side, starting time, value and step size, one step of the integrator of the molecular dynamics returns the starting value plus the increment whose expansion in the step size agrees with that of the exact solution through the fourth power, for right-hand sides that depend on time, on the solution, or on both.",
     ["data_values"], "polynomial right-hand sides with arbitrary coefficients (degrees up to three in time and in the solution), arbitrary starting point; the first five expansion coefficients are compared exactly",
     "the tests compare a few steps on two functions with a loose tolerance",
     ["openms/qmd/propagator.py"],
     [("integrator", "openms/qmd/propagator.py: rk4")])
