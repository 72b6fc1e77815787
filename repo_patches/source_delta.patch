From ecc626992ed27f126d6f25d24db447be0426ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:45 +0000
Subject: [PATCH 01/33] fix: advance the block offset over the modes in
 local_eng_eboson

---
 openms/qmc/estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 5a58a9f..948edb8 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -675,6 +675,7 @@ def local_eng_eboson(omega, nboson_states, geb, Gfermions, Gboson):
         a = backend.diag(backend.sqrt(backend.arange(1, mdim)), k=1)
         h_od = a + a.T
         Hb[:, idx:idx+mdim, idx:idx+mdim] += h_od[None, :, :] * zalpha[:, imode][:, None, None]
+        idx += mdim
     eg = backend.einsum("zNM,zNM->z", Hb, Gboson)
     return eg
 
-- 
2.43.0


From 235a9e6939a9f9b44c41f627e731e34720e5ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:45 +0000
Subject: [PATCH 02/33] fix: build the free-boson Hamiltonian for modes with
 different Fock dimensions

---
 openms/qmc/estimators.py  | 6 ++----
 openms/qmc/propagators.py | 6 +++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/openms/qmc/estimators.py b/openms/qmc/estimators.py
index 948edb8..5f3f499 100644
--- a/openms/qmc/estimators.py
+++ b/openms/qmc/estimators.py
@@ -626,11 +626,9 @@ def local_eng_boson_2nd(omega, nboson_states, Gb):
     Gb: ndarray, bosonic green function
     """
     # bosonc energy
-    basis = backend.asarray(
-        [backend.arange(mdim) for mdim in nboson_states]
+    waTa = backend.hstack(
+        [omega[m] * backend.arange(mdim) for m, mdim in enumerate(nboson_states)]
     )
-
-    waTa = backend.einsum("m, mF->mF", omega, basis).ravel()
     eb = backend.einsum("F,zFF->z", waTa, Gb)
     #print("Debug: Bosonic Gf = ", Gb)
     #print("Debug: waTa =       ", waTa)
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 01f7e8c..b957812 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1131,10 +1131,10 @@ class PhaselessElecBoson(Phaseless):
         self.geb = geb
 
         nmodes = self.system.nmodes
-        basis = backend.asarray(
-            [backend.arange(mdim) for mdim in self.system.nboson_states]
+        waTa = backend.hstack(
+            [self.system.boson_freq[m] * backend.arange(mdim)
+             for m, mdim in enumerate(self.system.nboson_states)]
         )
-        waTa = backend.einsum("m, mF->mF", self.system.boson_freq, basis).ravel()
         self.Hb = backend.diag(waTa)
         # logger.debug(self, f"Debug: Hb = {self.Hb}")
 
-- 
2.43.0


From cf1d3d188324419be7448e2ca141721d21095690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:05 +0000
Subject: [PATCH 03/33] fix: keep the phases of the boson amplitudes when
 walkers are normalised

---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index daa5471..850cef7 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -736,7 +736,7 @@ class QMCbase(object):
             ortho_walkers = backend.zeros_like(self.walkers.boson_phiw)
             norms = backend.einsum('ij,ij->i', self.walkers.boson_phiw, self.walkers.boson_phiw.conj())
             norms = backend.sqrt(norms)
-            self.walkers.boson_phiw = backend.abs(self.walkers.boson_phiw / norms[:, None])
+            self.walkers.boson_phiw = self.walkers.boson_phiw / norms[:, None]
             # for iw in range(self.walkers.boson_phiw.shape[0]):
             #    ortho_walkers[iw] = backend.linalg.qr(self.walkers.boson_phiw[iw])[0]
             # self.walkers.boson_phiw = ortho_walkers
-- 
2.43.0


From 179ab0747d6370d9fef8ef77853ecd48534d5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:55 +0000
Subject: [PATCH 04/33] fix: gather the coupled local energies over the MPI
 ranks

---
 openms/qmc/propagators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index b957812..5fd50f0 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1208,6 +1208,12 @@ class PhaselessElecBoson(Phaseless):
         eb = backend.dot(walkers.weights, eb.real)
         eg = backend.dot(walkers.weights, eg.real)
 
+        if walkers._mpi.size > 1:
+            # the super().local_energy only gathered norm, e1, and e2
+            etot = walkers._mpi.comm.allreduce(etot, op=MPI.SUM)
+            eb = walkers._mpi.comm.allreduce(eb, op=MPI.SUM)
+            eg = walkers._mpi.comm.allreduce(eg, op=MPI.SUM)
+
         logger.debug(self, f"Debug: total energy (unnormalized) is {etot}")
         logger.debug(self, f"Debug: e1 (unnormalized) is {e1}")
         logger.debug(self, f"Debug: e2 (unnormalized) is {e2}")
-- 
2.43.0


From 08cc8a5c74a7fb1db67af320a3152d2f85d8e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 05/33] fix: average the density and boson displacement over
 the walkers of every MPI rank

---
 openms/qmc/generic_walkers.py |  8 +++++++-
 openms/qmc/propagators.py     | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/openms/qmc/generic_walkers.py b/openms/qmc/generic_walkers.py
index ba23203..8e288b8 100644
--- a/openms/qmc/generic_walkers.py
+++ b/openms/qmc/generic_walkers.py
@@ -344,8 +344,14 @@ class Walkers_so(BaseWalkers):
         # Q_{a, nm} = <m| b^\dag_a + b_a|n>
         Qalpha = backend.zeros(trial.mol.nmodes, dtype=backend.complex128)
         sum_boson_DM = {}
+        norm = backend.sum(self.weights)
+        if self._mpi.size > 1:
+            norm = self._mpi.comm.allreduce(norm, op=MPI.SUM)
         for imode in range(trial.mol.nmodes):
-            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode]) / backend.sum(self.weights)
+            sum_boson_DM[imode] = backend.einsum("z, znm->nm", self.weights, boson_mode_DM[imode])
+            if self._mpi.size > 1:
+                sum_boson_DM[imode] = self._mpi.comm.allreduce(sum_boson_DM[imode], op=MPI.SUM)
+            sum_boson_DM[imode] /= norm
 
         for mode_index, mdim in enumerate(trial.mol.nboson_states):
             Qmat = backend.diag(backend.sqrt(backend.arange(1, mdim)), k = 1) \
diff --git a/openms/qmc/propagators.py b/openms/qmc/propagators.py
index 5fd50f0..34c666c 100644
--- a/openms/qmc/propagators.py
+++ b/openms/qmc/propagators.py
@@ -1760,10 +1760,12 @@ class PhaselessElecBoson(Phaseless):
         # logger.debug(self, f"walkers.Gf.shape = {walkers.Gf.shape}")
 
         if not self.decouple_bilinear:
-            walkers.rho = (
-                backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
-                / backend.sum(walkers.weights)
-            )
+            rho = backend.einsum("z, zpq->pq", walkers.weights, walkers.Gf)
+            norm = backend.sum(walkers.weights)
+            if walkers._mpi.size > 1:
+                rho = walkers._mpi.comm.allreduce(rho, op=MPI.SUM)
+                norm = walkers._mpi.comm.allreduce(norm, op=MPI.SUM)
+            walkers.rho = rho / norm
         # logger.debug(self, f"test DM = {backend.trace(walkers.rho)}")
 
         # get Qalpha in either 1st or 2nd quantization
-- 
2.43.0


From ed694c20c084919db565ef00cd478f8344d06d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 06/33] fix: chain-rule factor in the multi-photon displacement
 gradient

---
 openms/mqed/scqedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index 4b5e6dc..ff2a7aa 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -868,7 +868,7 @@ class RHF(qedhf.RHF):
             ci = self.qed.boson_coeff[idx : idx + mdim, idx]
             pdm = numpy.outer(numpy.conj(ci), ci)
 
-            derivative = self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
+            derivative = tmp * self.qed.displacement_deriv(imode, tmp * diff_eta, pdm)
 
         # Apply vacuum derivative formula
         else:
-- 
2.43.0


From ef45d051f02492228ff9ec638bd5d49d1b86a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 07/33] fix: direct get_jk of QED-HF no longer calls itself

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 12abcb3..559079a 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -585,7 +585,7 @@ class RHF(hf.RHF):
                 self._eri = mol.intor("int2e", aosym="s8")
             vj, vk = hf.dot_eri_dm(self._eri, dm, hermi, with_j, with_k)
         else:
-            vj, vk = RHF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
+            vj, vk = hf.SCF.get_jk(self, mol, dm, hermi, with_j, with_k, omega)
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-- 
2.43.0


From 1798afc6100dbd095c2376451b3603373c622327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 08/33] fix: QED-HF get_jk with only J or only K requested

---
 openms/mqed/qedhf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 559079a..4e85f53 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -589,8 +589,10 @@ class RHF(hf.RHF):
 
         if self.qed.add_dse:
             vj_dse, vk_dse = self.get_dse_jk(dm)
-            vj += vj_dse
-            vk += vk_dse
+            if with_j:
+                vj += vj_dse
+            if with_k:
+                vk += vk_dse
 
         return vj, vk
 
-- 
2.43.0


From ea3e2e99d4a938d6d9819216b423882fec044517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 09/33] fix: level shift in the QED-HF Fock matrix

---
 openms/mqed/qedhf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 4e85f53..9aa2bec 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -393,7 +393,7 @@ def get_fock(
         params = diis.update(s1e, dm, f, mf, h1e, vhf, var=variables, var_grad=gradients)
         f = mf.set_params(params, fock_shape=f.shape)
     if abs(level_shift_factor) > 1e-4:
-        f = level_shift(s1e, dm * 0.5, f, level_shift_factor) # TODO: will produce error if level_shift is used
+        f = hf.level_shift(s1e, dm * 0.5, f, level_shift_factor)
     return f
 
 
-- 
2.43.0


From 30c3b348ca048bcff8c720ec0c9dfcc6e50c97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:44 +0000
Subject: [PATCH 10/33] fix: squeezing parameter is restored from the DIIS
 vector when f is fixed

---
 openms/mqed/vtqedhf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index 90370b6..c21759e 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -577,8 +577,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if params.size > fsize and self.qed.optimize_vsq:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
@@ -602,8 +602,8 @@ class RHF(scqedhf.RHF):
                 self.vlf_grad.shape
             )
             self.qed.update_couplings()
+            fsize += varsize
 
-        fsize += varsize
         if self.qed.optimize_vsq and params.size > fsize:
             self.qed.squeezed_var = params[fsize :].reshape(
                 self.vsq_grad.shape
-- 
2.43.0


From ed54cded08ae05cceec6be9dd65be22da701443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:54 +0000
Subject: [PATCH 11/33] fix: coherent-state amplitudes in the original-frame
 density matrices

---
 openms/mqed/qedhf.py   | 4 ++--
 openms/mqed/scqedhf.py | 4 ++--
 openms/mqed/vtqedhf.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openms/mqed/qedhf.py b/openms/mqed/qedhf.py
index 9aa2bec..7c476e0 100644
--- a/openms/mqed/qedhf.py
+++ b/openms/mqed/qedhf.py
@@ -838,8 +838,8 @@ class RHF(hf.RHF):
                 zalpha = self.qed.z_alpha[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * zalpha ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
                 rho_tmp = rho * zm * zn
                 # back to AO
                 rho_tot[m, :, n, :] = rho_tmp
diff --git a/openms/mqed/scqedhf.py b/openms/mqed/scqedhf.py
index ff2a7aa..0706e4e 100644
--- a/openms/mqed/scqedhf.py
+++ b/openms/mqed/scqedhf.py
@@ -1160,8 +1160,8 @@ class RHF(qedhf.RHF):
                 zalpha /= self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(factorial(m))
-                zn = z0 * (-zalpha) ** n * numpy.sqrt(factorial(n))
+                zm = z0 * zalpha ** m / numpy.sqrt(factorial(m))
+                zn = z0 * zalpha ** n / numpy.sqrt(factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
diff --git a/openms/mqed/vtqedhf.py b/openms/mqed/vtqedhf.py
index c21759e..5ee901c 100644
--- a/openms/mqed/vtqedhf.py
+++ b/openms/mqed/vtqedhf.py
@@ -657,9 +657,9 @@ class RHF(scqedhf.RHF):
                 zalpha /= self.qed.omega[imode]
 
                 z0 = numpy.exp(-0.5 * zalpha ** 2)
-                zm = z0 * zalpha ** m * numpy.sqrt(math.factorial(m))
+                zm = z0 * zalpha ** m / numpy.sqrt(math.factorial(m))
                 # zn = z0 * (-zalpha) ** n * numpy.sqrt(math.factorial(n))
-                zn = z0 * (zalpha) ** n * numpy.sqrt(math.factorial(n))
+                zn = z0 * (zalpha) ** n / numpy.sqrt(math.factorial(n))
 
                 rho_tmp = rho_DO * numpy.outer(zm, zn)
                 # back to AO
-- 
2.43.0


From 891f2c7cf9022e0a338e9fc662a2e9c32d0fff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:01 +0000
Subject: [PATCH 12/33] fix: seed the generator the propagation draws from on
 every MPI rank

QMCbase.kernel created a seeded Generator and discarded it, so in a run on
several ranks the global generator used by the propagators stayed unseeded
and random_seed had no effect.
---
 openms/qmc/qmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/qmc.py b/openms/qmc/qmc.py
index 850cef7..42bd0b2 100644
--- a/openms/qmc/qmc.py
+++ b/openms/qmc/qmc.py
@@ -917,7 +917,7 @@ class QMCbase(object):
             # Create a rank-specific seed using SeedSequence
             ss = backend.random.SeedSequence(self.random_seed)
             child_seeds = ss.spawn(self._mpi.size)
-            backend.random.default_rng(child_seeds[self._mpi.rank])
+            backend.random.seed(child_seeds[self._mpi.rank].generate_state(4))
         else:
             backend.random.seed(self.random_seed)
 
-- 
2.43.0


From 48b5fbf71bec81c9416a32256c7c172c595e09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 13/33] fix: chols_full no longer adds the couplings to the
 caller's integrals

---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index 899920f..ea4a430 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -408,7 +408,7 @@ def chols_full(mol, eri=None, thresh=1.e-12, aosym="s1", g=None):
         eri = mol.intor('int2e_sph', aosym='s1')
     nao = eri.shape[0]
     if g is not None:
-        eri += numpy.einsum("npq, nrs->pqrs", g, g)
+        eri = eri + numpy.einsum("npq, nrs->pqrs", g, g)
 
     eri = eri.reshape((nao**2, -1))
     u, s, v = scipy.linalg.svd(eri)
-- 
2.43.0


From 4e81f6c4036a7338f5494cbb06ac227654e5f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 14/33] fix: sum the coupling modes in the blocked Cholesky
 decomposition

_compute_eri_chunk kept the mode index in the dressed integral column, so the
decomposition failed for more than one mode.
---
 openms/qmc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/qmc/tools.py b/openms/qmc/tools.py
index ea4a430..6d17963 100644
--- a/openms/qmc/tools.py
+++ b/openms/qmc/tools.py
@@ -577,7 +577,7 @@ def _compute_eri_chunk(mol, nao, sj, sl, indices4bas, j, l, delta_max, g=None):
 
     if g is not None:
         # Add the modified term \sum_n g_{n,ij} g_{n,kl} dynamically
-        mod_chunk = numpy.einsum("n,njk->njk", g[:, j, l], g)
+        mod_chunk = numpy.einsum("n,njk->jk", g[:, j, l], g)
         eri_chunk += mod_chunk.reshape(nao * nao)
 
     return eri_chunk / numpy.sqrt(delta_max)
-- 
2.43.0


From 62eb646988cf21ee6e2c39f9451a84b41c9952de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 15/33] fix: undefined name in the one-electron contraction of
 QED-FCI

---
 openms/mqed/qedfci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index cc1e913..09d3d1c 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -105,7 +105,7 @@ def contract_1e(h1e, fcivec, norb, nelec, nmode=0, boson_states=None):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
 
     ci0 = fcivec.reshape(cishape)
-    fcinew = np.zeros_like(ci0)
+    fcinew = numpy.zeros_like(ci0)
 
     # Alpha spin contraction
     for str0, tab in enumerate(link_indexa):
-- 
2.43.0


From 914d7a5b155ce20f6ccc76ba70d0c5a3c3e31388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:49 +0000
Subject: [PATCH 16/33] fix: boson term of QED-FCI with a matrix of boson
 energies and several modes

---
 openms/mqed/qedfci.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 09d3d1c..75d3202 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -348,23 +348,25 @@ def contract_bb(Hbb, fcivec, norb, nelec, nmode, boson_states, zalpha=None):
     fcinew = numpy.zeros(cishape)
 
     #
-    # w_x b^+_x b_x
-    for imode in range(nmode):
-        nboson = boson_states[imode]
-        boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
-        for i in range(1, nboson+1):
-            slices0 = slices_for(imode, nmode, i)
-            fcinew[slices0] += ci0[slices0] * (Hbb[imode] * i)
+    # w_xy b^+_x b_y
+    if Hbb.ndim == 1:
+        Hbb = numpy.diag(Hbb)
+    for jmode in range(nmode):
+        des = des_boson(fcivec, norb, nelec, nmode, boson_states, jmode)
+        for imode in range(nmode):
+            des_cre = cre_boson(des, norb, nelec, nmode, boson_states, imode)
+            fcinew += Hbb[imode, jmode] * des_cre.reshape(cishape)
 
     # coherent state
     if zalpha is not None:
+        wz = numpy.dot(Hbb, zalpha)
         for imode in range(nmode):
             nboson = boson_states[imode]
             boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
             for i in range(nboson):
                 slices1 = slices_for_cre(imode, nmode, i)
                 slices0 = slices_for(imode, nmode, i)
-                tmp = zalpha[imode] * (boson_cre[i] * Hbb[imode])
+                tmp = wz[imode] * boson_cre[i]
                 fcinew[slices1] += tmp * ci0[slices0]
                 fcinew[slices0] += tmp * ci0[slices1]
     """
-- 
2.43.0


From 71f2ef2c5600f68d5fa30c69a1b0cbff8c21ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 17/33] fix: undefined name and mode count in the boson density
 matrix of QED-FCI

---
 openms/mqed/qedfci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 75d3202..5a5a72b 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -793,7 +793,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
     cishape = fboson_ci_shape(norb, nelec, nmode, boson_states)
     ci0 = fcivec.reshape(cishape)
 
-    t1 = numpy.zeros((norb,) + cishape)
+    t1 = numpy.zeros((nmode,) + cishape)
     for imode in range(nmode):
         nboson = boson_states[imode]
         boson_cre = numpy.sqrt(numpy.arange(1, nboson + 1))
@@ -802,7 +802,7 @@ def make_rdm1p(fcivec, norb, nelec, nmode, boson_states):
             slices0 = slices_for(imode, nmode, i)
             t1[(imode,) + slices0] += ci0[slices1] * boson_cre[i]
 
-    rdm1 = lib.dot(t1.reshape(nsite, -1), t1.reshape(nsite, -1).T)
+    rdm1 = lib.dot(t1.reshape(nmode, -1), t1.reshape(nmode, -1).T)
     return rdm1
 
 
-- 
2.43.0


From 7bdff715f33e573362bdc88ccb7466662da78751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 18/33] fix: undefined name in the spin-resolved two-electron
 contraction of QED-FCI

---
 openms/mqed/qedfci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/mqed/qedfci.py b/openms/mqed/qedfci.py
index 5a5a72b..9e0ca7a 100644
--- a/openms/mqed/qedfci.py
+++ b/openms/mqed/qedfci.py
@@ -146,7 +146,7 @@ def contract_2e(eri, fcivec, norb, nelec, nmode, boson_states):
     if isinstance(eri, list):
         g2e_aa = ao2mo.restore(1, eri[0], norb)
         g2e_ab = ao2mo.restore(1, eri[1], norb)
-        g2e_bb = ao2mo.restore(1, eri[2], nsorb)
+        g2e_bb = ao2mo.restore(1, eri[2], norb)
 
         t2a = numpy.dot(g2e_aa.reshape(norb**2, -1), t1a.reshape(norb**2, -1))
         t2a += numpy.dot(g2e_ab.reshape(norb**2, -1), t1b.reshape(norb**2, -1))
-- 
2.43.0


From ef3bd1db881932acfb29449a98eb8ea7dfe5fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:04 +0000
Subject: [PATCH 19/33] fix: shape error in QED-CCSD doubles with several modes

The unused sum of virtual orbital energies and mode energies only broadcasts
when there is one mode or as many modes as virtual orbitals.
---
 openms/mqed/myqedcc_equations.py     | 3 ---
 openms/mqed/myqedcc_equations_opt.py | 3 ---
 openms/mqed/qedcc_equations.py       | 2 --
 3 files changed, 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index b829782..db73950 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -804,7 +804,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1616,7 +1615,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2554,7 +2552,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a9070b6..a54f317 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -817,7 +817,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
@@ -1629,7 +1628,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
@@ -2572,7 +2570,6 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     #e_denom = 1 / (eps_occ.reshape(-1, 1, 1, 1) + eps_occ.reshape(-1, 1) - eps_vir.reshape(-1, 1, 1) - eps_vir_p_w)
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 1936a63..a3809fc 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -591,7 +591,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
         return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
@@ -1386,7 +1385,6 @@ def single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
 
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
-    eps_vir_p_w = eps_vir + w
 
     U2n = [None]*nfock2
     if U2nold[0] is None: return U2n
-- 
2.43.0


From b0f0abf5f996f69deac78081b35214cba99d6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:29 +0000
Subject: [PATCH 20/33] fix: terms counted twice in the plain two-photon
 singles of QED-CCSD

---
 openms/mqed/qedcc_equations.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index a3809fc..649974d 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -513,16 +513,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 0.625*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
-- 
2.43.0


From e6f9bfc7a9cac042253b69bcc7eb4858ad87d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:44 +0000
Subject: [PATCH 21/33] fix: single-mode branch of the plain QED-CCSD doubles

The branch for one mode misses terms; the general code covers one mode,
as in the other versions of these equations, where the branch is disabled.
---
 openms/mqed/qedcc_equations.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index 649974d..e8e8db4 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -582,8 +582,6 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     eps_occ = F.oo.diagonal()
     eps_vir = F.vv.diagonal()
 
-    if nm == 1: # if single mode, we use faster single mode code (reducing indexing overhead)
-        return single_qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps)
 
 
     U2n = [None]*nfock2
-- 
2.43.0


From 029e1aa652c8b1c75ad41a11337f5824c7f5b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:36 +0000
Subject: [PATCH 22/33] fix: mode index of two-photon singles in the photon
 doubles of QED-CCSD

---
 openms/mqed/myqedcc_equations.py     | 8 ++++----
 openms/mqed/myqedcc_equations_opt.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index db73950..23c055e 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -1016,11 +1016,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2794,11 +2794,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index a54f317..7a3b9db 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -1029,11 +1029,11 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
@@ -2812,11 +2812,11 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
 
         gtov = einsum('xac,ci->xai', g.vv, T1old)
         gtov -= einsum('xki,ak->xai', g.oo, T1old)
-        temp_abij = einsum('xai,xybj->xabij', gtov, U1nold[1])
+        temp_abij = einsum('xai,xybj->yabij', gtov, U1nold[1])
         #T2temp = - einsum('bi,aj->abij', T1old, T1old)
         T2temp = T2old - einsum('bi,aj->abij', T1old, T1old)
         Wmvo = einsum('xkc,acik->xai', g.ov, T2temp)
-        temp_abij += einsum('xai,xybj->xabij', Wmvo, U1nold[1])
+        temp_abij += einsum('xai,xybj->yabij', Wmvo, U1nold[1])
         U2n[0] += temp_abij
         U2n[0] -= temp_abij.transpose((0,2,1,3,4))
         U2n[0] -= temp_abij.transpose((0,1,2,4,3))
-- 
2.43.0


From 08f028b43d83a36a5a5ea985d2da3ad7df719450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:51 +0000
Subject: [PATCH 23/33] fix: two-photon singles of the optimised QED-CCSD
 equations

The half of the repulsion with doubles that is not in the intermediates was
left out, terms with photon doubles were counted twice, and terms written for
one order of the two modes were not symmetrised.
---
 openms/mqed/myqedcc_equations.py     | 15 ++++++++++-----
 openms/mqed/myqedcc_equations_opt.py | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 23c055e..497dff4 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -2408,6 +2408,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     #U1n[1] += -1.0*einsum('Kjb,Jbi,IKaj->IJai', g.ov, U1nold[0], U1nold[1], optimize = True)
 
     #----------------------------
+    Xov = einsum('ijab,xybj->xyia', I.oovv, U1nold[1])
+    U1n[1] += 0.5*einsum('xyjb,abij->xyai', Xov, T2old)
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
@@ -2490,29 +2492,29 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
@@ -2539,6 +2541,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # terms written for one order of the two modes count for both
+    U1n[1] = 0.5 * (U1n[1] + U1n[1].transpose((1,0,2,3)))
+
     return U1n
 
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 7a3b9db..6820e26 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -2424,6 +2424,8 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     #U1n[1] += -1.0*einsum('Kjb,Jbi,IKaj->IJai', g.ov, U1nold[0], U1nold[1], optimize = True)
 
     #----------------------------
+    Xov = einsum('ijab,xybj->xyia', I.oovv, U1nold[1])
+    U1n[1] += 0.5*einsum('xyjb,abij->xyai', Xov, T2old)
     U1n[1] += einsum('jabi,IJbj->IJai', imds.Wovvo, U1nold[1])
     U1n[1] -= 0.5*einsum('ab,IJbi->IJai', Xvv, U1nold[1])
     U1n[1] -= 0.5*einsum('ji,IJaj->IJai', Xoo, U1nold[1])
@@ -2506,29 +2508,29 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         # vovv
         U1n[1] += -0.5*einsum('jkbc,aj,IJcbki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ovvo
-        U1n[1] += -1.0*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         # ov
-        U1n[1] += 2.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
+        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
 
         #vovv
-        U1n[1] += -2.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
         # ovvo
-        U1n[1] += -2.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += -1.0*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
 
-        U1n[1] += 4.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
+        U1n[1] += 2.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         #U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
@@ -2555,6 +2557,9 @@ def qedccsd_U1n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         #U1n[1] += -1.0*einsum('Kjb,bi,IK,Jaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
         #U1n[1] += -1.0*einsum('Kjb,bi,JK,Iaj->IJai', g.ov, T1old, Snold[1], U1nold[0], optimize = True)
 
+    # terms written for one order of the two modes count for both
+    U1n[1] = 0.5 * (U1n[1] + U1n[1].transpose((1,0,2,3)))
+
     return U1n
 
 
-- 
2.43.0


From 0f916e04a9ef4742648566e740cd3dfa33d1e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:35 +0000
Subject: [PATCH 24/33] fix: missing products of singles in the two-photon
 doubles of QED-CCSD

---
 openms/mqed/myqedcc_equations.py     | 22 ++++++++++++++++++++++
 openms/mqed/myqedcc_equations_opt.py | 22 ++++++++++++++++++++++
 openms/mqed/qedcc_equations.py       | 11 +++++++++++
 3 files changed, 55 insertions(+)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index 497dff4..ebe39ca 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -1437,6 +1437,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    # products of four singles with the repulsion
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
 
     U2n[1][0,0] = U22
 
@@ -3239,6 +3250,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    # products of four singles with the repulsion
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
 
     U2n[1][0,0] = U22
 
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 6820e26..8bea2fd 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -1450,6 +1450,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    # products of four singles with the repulsion
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
 
     U2n[1][0,0] = U22
 
@@ -3257,6 +3268,17 @@ def qedccsd_U2n_opt(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    # products of four singles with the repulsion
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
 
     U2n[1][0,0] = U22
 
diff --git a/openms/mqed/qedcc_equations.py b/openms/mqed/qedcc_equations.py
index e8e8db4..962d12c 100644
--- a/openms/mqed/qedcc_equations.py
+++ b/openms/mqed/qedcc_equations.py
@@ -1195,6 +1195,17 @@ def qedccsd_U2n(F, I, w, g, h, G, H, nfock1, nfock2, amps):
     U22 += -2.0 * einsum('kc,ai,cj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
     U22 += 2.0 * einsum('kc,ci,aj,bk->abij', g.ov[0], U11old, U11old, U11old, optimize = True)
 
+    # products of four singles with the repulsion
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U12old, T1old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U12old, T1old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U12old, T1old, optimize = True)
+    U22 += 1.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, T1old, U12old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, U11old, T1old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, U11old, T1old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, U11old, T1old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, U11old, T1old, U11old, optimize = True)
+    U22 += 2.0*einsum('klcd,di,cj,bk,al->abij', I.oovv, T1old, T1old, U11old, U11old, optimize = True)
 
     U2n[1][0,0] = U22
 
-- 
2.43.0


From 33853a55554b19db841b3ef397bc472eda622d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:08 +0000
Subject: [PATCH 25/33] fix: two-photon singles in the direct form of the
 QED-CCSD equations

Terms with photon doubles were counted twice and the mode energies were not
symmetric in the two modes.
---
 openms/mqed/myqedcc_equations.py     | 13 ++-----------
 openms/mqed/myqedcc_equations_opt.py | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/openms/mqed/myqedcc_equations.py b/openms/mqed/myqedcc_equations.py
index ebe39ca..88e5609 100644
--- a/openms/mqed/myqedcc_equations.py
+++ b/openms/mqed/myqedcc_equations.py
@@ -696,7 +696,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U1n[1] += -1.0*einsum('ji,IJaj->IJai', F.oo, U1nold[1])
     U1n[1] += 1.0*einsum('ab,IJbi->IJai', F.vv, U1nold[1])
 
-    U1n[1] += 2.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('J,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
 
@@ -726,16 +727,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
diff --git a/openms/mqed/myqedcc_equations_opt.py b/openms/mqed/myqedcc_equations_opt.py
index 8bea2fd..b49827a 100644
--- a/openms/mqed/myqedcc_equations_opt.py
+++ b/openms/mqed/myqedcc_equations_opt.py
@@ -709,7 +709,8 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
     U1n[1] += -1.0*einsum('ji,IJaj->IJai', F.oo, U1nold[1])
     U1n[1] += 1.0*einsum('ab,IJbi->IJai', F.vv, U1nold[1])
 
-    U1n[1] += 2.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
+    U1n[1] += 1.0*einsum('J,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('I,JIai->IJai', w, U1nold[1])
     #U1n[1] += 1.0*einsum('J,IJai->IJai', w, U1nold[1])
 
@@ -739,16 +740,6 @@ def qedccsd_U1n(F, I, w, g, h, G, H, nfock1, nfock2, amps, imds):
         U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,ci,IJabkj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += 0.125*einsum('jkbc,ci,JIbakj->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,cj,IJabki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        #U1n[1] += -0.375*einsum('jkbc,cj,JIbaki->IJai', I.oovv, T1old, U2nold[1], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Iaj,Jcbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Ici,Jabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Icj,Jabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jaj,Icbki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += -0.5*einsum('jkbc,Jci,Iabkj->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
-        U1n[1] += 1.0*einsum('jkbc,Jcj,Iabki->IJai', I.oovv, U1nold[0], U2nold[0], optimize = True)
         if nfock1 > 1:
             U1n[1] += -1.0*einsum('Kjb,IK,Jabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
             U1n[1] += -1.0*einsum('Kjb,JK,Iabji->IJai', g.ov, Snold[1], U2nold[0], optimize = True)
-- 
2.43.0


From f50cd4e59867f2ce11b1ec090146ca0bec0a0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 26/33] fix: single bond of the open two-site Hubbard-Holstein
 chain

---
 openms/models/hh_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/models/hh_model.py b/openms/models/hh_model.py
index cf5d487..827eaea 100644
--- a/openms/models/hh_model.py
+++ b/openms/models/hh_model.py
@@ -150,7 +150,7 @@ class HHModel(object):
             nn = self._nn(i)
             t[i, nn[0]] = -1.0
             t[i, nn[1]] = -1.0
-        if L == 2:
+        if L == 2 and self.bc == "p":
             t[0, -1] += -1
             t[-1, 0] += -1
         return t
-- 
2.43.0


From a35b337f832d19b35f67b6f89db9e396be60f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 27/33] fix: two-electron integrals for QED-CC follow add_dse

The Fock matrix honours add_dse=False but get_I always added the dipole
self-energy to the repulsion integrals.
---
 openms/lib/boson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index 19c10f0..ef55182 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2152,8 +2152,9 @@ class Photon(Boson):
         else:
             # add the DSE-mediated eri
             bare_eri =  self._mol.intor("int2e", aosym="s1")
-            for mode in range(self.nmodes):
-                bare_eri += numpy.einsum("pq,rs->pqrs", self.gmat[mode], self.gmat[mode])
+            if self.add_dse:
+                for mode in range(self.nmodes):
+                    bare_eri += numpy.einsum("pq,rs->pqrs", self.gmat[mode], self.gmat[mode])
             eri = ao2mo.general(bare_eri, [C,]*4, compact=False).reshape([self.nmo,]*4)
 
         eri[:nao, nao:] = eri[nao:, :nao] = eri[:, :, :nao, nao:] = eri[:, :, nao:, :nao] = 0
-- 
2.43.0


From 648795053bbd751d79f8146e6088e6c4d832afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 28/33] fix: Photon.fock does not modify the core Hamiltonian
 of the mean field

A user-supplied (stored) core Hamiltonian was updated in place, so each
call added the photon contribution once more.
---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index ef55182..f82b978 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2072,7 +2072,7 @@ class Photon(Boson):
 
         # add DSE-oei contribution
         if not self.shift:
-            h1 += self.add_oei_ao(self.pa+self.pb)
+            h1 = h1 + self.add_oei_ao(self.pa+self.pb)
 
 
         ptot = block_diag(self.pa, self.pb)
-- 
2.43.0


From e69c6955edad1ec0129dc8960df1526aa6eacb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 29/33] fix: get_gmat_so stores the coupling matrices it needs

The result of get_gmat_ao was discarded, so a Photon object whose mean
field had not set gmat failed with gmat None.
---
 openms/lib/boson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openms/lib/boson.py b/openms/lib/boson.py
index f82b978..7fd5b51 100644
--- a/openms/lib/boson.py
+++ b/openms/lib/boson.py
@@ -2234,7 +2234,7 @@ class Photon(Boson):
         if self.pa is None: self.get_mos()
 
 
-        self.get_gmat_ao()
+        self.get_gmatao()
         # gmatso
         #gmatso = [
         #    block_diag(self.gmat[i], self.gmat[i]) for i in range(len(self.gmat))
-- 
2.43.0


From eeb2620de507bb6506c602620e3ffc4263c25672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 30/33] fix: QED-CC denominators add the mode energy along the
 new mode axis

expand_dims put the modes on the last (occupied orbital) axis, which is
only right for a single mode.
---
 openms/mqed/ccsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openms/mqed/ccsd.py b/openms/mqed/ccsd.py
index 1526cf9..c76f42e 100644
--- a/openms/mqed/ccsd.py
+++ b/openms/mqed/ccsd.py
@@ -73,7 +73,7 @@ def getD1p(eo, ev, w, nfock):
     D1p = [None] * nfock
     D1p[0] = eo[None, None, :] - ev[None, :, None] - w[:, None, None]
     for i in range(1, nfock):
-        D1p[i] = D1p[i-1][None,...] - numpy.expand_dims(w, axis=tuple(range(i+2)))
+        D1p[i] = D1p[i-1][None,...] - numpy.expand_dims(w, axis=tuple(range(1, i+3)))
     return D1p
 
 def getD2p(eo, ev, w, nfock):
@@ -89,7 +89,7 @@ def getD2p(eo, ev, w, nfock):
         - w[:,None,None,None,None]
 
     for i in range(1, nfock):
-        D2p[i] = D2p[i-1][None,...] - numpy.expand_dims(w, axis=tuple(range(i+4)))
+        D2p[i] = D2p[i-1][None,...] - numpy.expand_dims(w, axis=tuple(range(1, i+5)))
     return D2p
 
 
-- 
2.43.0


From 2b5970b3df1b7e23ae82ce081743c0f5fd6af4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:55 +0000
Subject: [PATCH 31/33] fix: vector2amplitudes returns the boson amplitudes of
 the vector

The slices were bound to the loop variable only, so DIIS extrapolated the
electronic amplitudes and kept the old boson and coupled amplitudes.
---
 openms/mqed/ccsd.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/openms/mqed/ccsd.py b/openms/mqed/ccsd.py
index c76f42e..be100e8 100644
--- a/openms/mqed/ccsd.py
+++ b/openms/mqed/ccsd.py
@@ -505,18 +505,19 @@ class CCSD(lib.StreamObject):
         T2 = T2.reshape(nocc,nvir,nocc,nvir).transpose(0,2,1,3)
         T2 = numpy.asarray(T2, order='C')
 
-        if Sn is not None:
-            for S in Sn:
-                S = vector[idx:idx+S.size].reshape(S.shape)
+        def unpack(old, idx):
+            new = []
+            for S in old:
+                new.append(vector[idx:idx+S.size].reshape(S.shape))
                 idx += S.size
+            return new, idx
+
+        if Sn is not None:
+            Sn, idx = unpack(Sn, idx)
         if U1n is not None:
-            for S in U1n:
-                S = vector[idx:idx+S.size].reshape(S.shape)
-                idx += S.size
+            U1n, idx = unpack(U1n, idx)
         if self.add_U2n and U2n is not None:
-            for S in U2n:
-                S = vector[idx:idx+S.size].reshape(S.shape)
-                idx += S.size
+            U2n, idx = unpack(U2n, idx)
 
         return (T1, T2, Sn, U1n, U2n)
 
-- 
2.43.0


From c215c379cc852b416897448a5aa4783487e7e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 32/33] fix: do not import the absent module epcc_equations in
 QED-CC

The module is not part of the repository and nothing of it is used.
---
 openms/mqed/ccsd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/openms/mqed/ccsd.py b/openms/mqed/ccsd.py
index be100e8..b0c131d 100644
--- a/openms/mqed/ccsd.py
+++ b/openms/mqed/ccsd.py
@@ -22,7 +22,6 @@ import numpy
 import sys
 from cqcpy import cc_equations
 from cqcpy import cc_energy
-from . import epcc_equations
 from . import qedcc_equations
 #from . import myqedcc_equations
 from . import myqedcc_equations_opt as myqedcc_equations
-- 
2.43.0


From 9e25d628c2e0da81071ed3075d11f046b30b3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 33/33] fix: QED-CC iterations do not call the undefined
 boson_occ

Every calculation with photons ended in a NameError for the sake of one
column of the iteration printout.
---
 openms/mqed/ccsd.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/openms/mqed/ccsd.py b/openms/mqed/ccsd.py
index b0c131d..bd40308 100644
--- a/openms/mqed/ccsd.py
+++ b/openms/mqed/ccsd.py
@@ -283,15 +283,9 @@ def kernel(mycc, eris=None, t1=None, t2=None, Sn=None, Un=None,
         else:
             Eccsd = epcc_energy(T1old,T2old,None, None,F.ov,I.oovv,None, None, None)
 
-        if g is not None:
-            nocc = boson_occ(Sn, U1n[0], g.ov, nfock)
-
         Ediff = abs(Eccsd - Eold)
         if mycc.verbose > 0:
-            if g is not None:
-                print(' {:2d}  {:.10f}   {:.4E}  {:.4E}  {:.10f}'.format(istep+1, Eccsd, res, normt, nocc[0]), flush=True)
-            else:
-                print(' {:2d}  {:.10f}   {:.4E}  {:.4E}'.format(istep+1, Eccsd, res, normt), flush=True)
+            print(' {:2d}  {:.10f}   {:.4E}  {:.4E}'.format(istep+1, Eccsd, res, normt), flush=True)
         if Ediff < ethresh and res < tthresh:
             converged = True
 
-- 
2.43.0

