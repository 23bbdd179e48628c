From 3d9e7acda3a15a2f66fd78f2cdfd99c1b27677fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 01/84] fix: do not sum the global-wf 2-DM energy over MPI
 ranks

The global 2-DM is known on all ranks; only the fragment sum is rank-local.
---
 vayesta/ewf/ewf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..48b414b 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -394,7 +394,6 @@ class EWF(Embedding):
         e1 = np.sum(fock * dm1)
         return e1 / self.ncells
 
-    @mpi.with_allreduce()
     def get_dm_corr_energy_e2(self, dm2="projected-lambda", t_as_lambda=None):
         """Correlation energy due to cumulant"""
         if t_as_lambda is None:
@@ -420,6 +419,8 @@ class EWF(Embedding):
                 if ex is None or (t_as_lambda is not None and (t_as_lambda != x.opts.t_as_lambda)):
                     ex = x.make_fragment_dm2cumulant_energy(t_as_lambda=t_as_lambda)
                 e2 += x.symmetry_factor * x.sym_factor * ex
+            if mpi:
+                e2 = mpi.world.allreduce(e2)
         else:
             raise ValueError("Unknown value for dm2: '%s'" % dm2)
         return e2 / self.ncells
-- 
2.43.0


From 303bd3b2d949ec30bff2c126f097db26c2be86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 02/84] fix: global-wf 1-DM without T1 under MPI reduced
 undefined occ-vir blocks

---
 vayesta/ewf/rdm.py  | 5 ++++-
 vayesta/ewf/urdm.py | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 83f63a1..7d42d6e 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -434,7 +434,10 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        doo, dov, dvv = mpi.nreduce(doo, dov, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        if with_t1:
+            doo, dov, dvv = mpi.nreduce(doo, dov, dvv, target=mpi_target, logfunc=emb.log.timingv)
+        else:
+            doo, dvv = mpi.nreduce(doo, dvv, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 3577f8b..0983cfe 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -668,9 +668,12 @@ def make_rdm1_ccsd_global_wf(
 
     if mpi:
         rma.clear()
-        dooa, doob, dvoa, dvob, dvva, dvvb = mpi.nreduce(
-            dooa, doob, dvoa, dvob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv
-        )
+        if with_t1:
+            dooa, doob, dvoa, dvob, dvva, dvvb = mpi.nreduce(
+                dooa, doob, dvoa, dvob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv
+            )
+        else:
+            dooa, doob, dvva, dvvb = mpi.nreduce(dooa, doob, dvva, dvvb, target=mpi_target, logfunc=emb.log.timingv)
         # Make sure no more MPI calls are made after returning some ranks early!
         if mpi_target not in (None, mpi.rank):
             return None
-- 
2.43.0


From cf6917c29e7dfbc665bb6cf1592e826082f947d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:44 +0000
Subject: [PATCH 03/84] fix: slow global-wf 1-DM ignored mpi_target

---
 vayesta/ewf/rdm.py  | 2 ++
 vayesta/ewf/urdm.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 7d42d6e..6acd793 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -212,6 +212,8 @@ def make_rdm1_ccsd_global_wf(
         mockcc = _get_mockcc(emb.mo_coeff, emb.mf.max_memory)
         # dm1 = pyscf.cc.ccsd_rdm.make_rdm1(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_mf=False)
         dm1 = ccsd_rdm.make_rdm1(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_mf=False)
+        if mpi_target not in (None, mpi.rank):
+            return None
         return dm1
 
     # === Fast algorithm via fragment-fragment loop
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 0983cfe..cb4e319 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -214,6 +214,8 @@ def make_rdm1_ccsd_global_wf(
         mockcc = _get_mockcc(emb.mo_coeff, emb.mf.max_memory)
         # dm1 = pyscf.cc.uccsd_rdm.make_rdm1(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_mf=False)
         dm1a, dm1b = uccsd_rdm.make_rdm1(mockcc, t1=t1, t2=t2, l1=l1, l2=l2, with_mf=False)
+        if mpi_target not in (None, mpi.rank):
+            return None
         return dm1a, dm1b
 
     # === Fast algorithm via fragment-fragment loop
-- 
2.43.0


From 98bcf7508967969bcc5bdf6dff98dc6742446545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 04/84] fix: projected-lambda 2-DM with mpi_target hung in
 make_rdm1

make_rdm1 reduces over all MPI processes, but the ranks which are not the
target had already returned.
---
 vayesta/ewf/rdm.py  | 6 ++----
 vayesta/ewf/urdm.py | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 6acd793..3a3130e 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -550,15 +550,13 @@ def make_rdm2_ccsd_proj_lambda(
         rx = x.get_overlap("mo|cluster")
         dm2x = x.make_fragment_dm2cumulant(t_as_lambda=t_as_lambda, sym_t2=sym_t2, approx_cumulant=approx_cumulant)
         dm2 += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2x, rx, rx, rx, rx)
+    # make_rdm1 is a collective operation and needs to be called by all MPI ranks
+    dm1 = emb.make_rdm1() if (with_dm1 is True) else with_dm1
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
         if mpi_target not in (None, mpi.rank):
             return None
     if isinstance(with_dm1, np.ndarray) or with_dm1:
-        if with_dm1 is True:
-            dm1 = emb.make_rdm1()
-        else:
-            dm1 = with_dm1
         if not approx_cumulant:
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
         # Remove half of the mean-field contribution
diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index cb4e319..4e633b3 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -803,15 +803,14 @@ def make_rdm2_ccsd_proj_lambda(emb, ao_basis=False, t_as_lambda=None, with_dm1=T
         dm2aa += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xaa, ra, ra, ra, ra)
         dm2ab += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xab, ra, ra, rb, rb)
         dm2bb += einsum("ijkl,Ii,Jj,Kk,Ll->IJKL", dm2xbb, rb, rb, rb, rb)
+    # make_rdm1 is a collective operation and needs to be called by all MPI ranks
+    dm1 = emb.make_rdm1() if (with_dm1 is True) else with_dm1
     if mpi:
         dm2aa, dm2ab, dm2bb = mpi.nreduce(dm2aa, dm2ab, dm2bb, target=mpi_target, logfunc=emb.log.timingv)
         if mpi_target not in (None, mpi.rank):
             return None
     if with_dm1:
-        if with_dm1 is True:
-            dm1a, dm1b = emb.make_rdm1()
-        else:
-            dm1a, dm1b = (with_dm1[0].copy(), with_dm1[1].copy())
+        dm1a, dm1b = (dm1[0].copy(), dm1[1].copy())
         nocca, noccb = emb.nocc
         dm1a[np.diag_indices(nocca)] -= 0.5
         dm1b[np.diag_indices(noccb)] -= 0.5
-- 
2.43.0


From 6e25e0ef42c1a5c7e70288c6c0d55bf7e1a2fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 05/84] fix: global amplitudes in AO basis failed on ranks
 other than mpi_target

---
 vayesta/ewf/amplitudes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vayesta/ewf/amplitudes.py b/vayesta/ewf/amplitudes.py
index c501fe6..b9bbc75 100644
--- a/vayesta/ewf/amplitudes.py
+++ b/vayesta/ewf/amplitudes.py
@@ -41,6 +41,8 @@ def get_global_t1_rhf(emb, get_lambda=False, mpi_target=None, ao_basis=False, fo
     # --- MPI
     if mpi:
         t1 = mpi.nreduce(t1, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if ao_basis:
         t1 = dot(emb.mo_coeff_occ, t1, emb.mo_coeff_vir.T)
     return t1
@@ -85,6 +87,8 @@ def get_global_t2_rhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
     # --- MPI
     if mpi:
         t2 = mpi.nreduce(t2, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if ao_basis:
         t2 = einsum(
             "Ii,Jj,ijab,Aa,Bb->IJAB", emb.mo_coeff_occ, emb.mo_coeff_occ, t2, emb.mo_coeff_vir, emb.mo_coeff_vir
@@ -125,6 +129,8 @@ def get_global_t1_uhf(emb, get_lambda=False, mpi_target=None, ao_basis=False):
     # --- MPI
     if mpi:
         t1a, t1b = mpi.nreduce(t1a, t1b, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if ao_basis:
         t1a = dot(emb.mo_coeff_occ[0], t1a, emb.mo_coeff_vir[0].T)
         t1b = dot(emb.mo_coeff_occ[1], t1b, emb.mo_coeff_vir[1].T)
@@ -166,6 +172,8 @@ def get_global_t2_uhf(emb, get_lambda=False, symmetrize=True, mpi_target=None, a
     # --- MPI
     if mpi:
         t2aa, t2ab, t2bb = mpi.nreduce(t2aa, t2ab, t2bb, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if ao_basis:
         coa, cob = emb.mo_coeff_occ
         cva, cvb = emb.mo_coeff_vir
-- 
2.43.0


From 7cee3b9b06f51ec4b9d3d175805e55d86b6347a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 06/84] fix: democratic density-matrices failed on ranks other
 than mpi_target

---
 vayesta/core/qemb/rdm.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/qemb/rdm.py b/vayesta/core/qemb/rdm.py
index 7071f06..3926bd1 100644
--- a/vayesta/core/qemb/rdm.py
+++ b/vayesta/core/qemb/rdm.py
@@ -41,6 +41,8 @@ def make_rdm1_demo_rhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
         dm1 += einsum("xi,ij,px,qj->pq", px, dm1x, rx, rx)
     if mpi:
         dm1 = mpi.nreduce(dm1, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1[np.diag_indices(emb.nocc)] += 2
     if symmetrize:
@@ -85,6 +87,8 @@ def make_rdm1_demo_uhf(emb, ao_basis=False, with_mf=True, symmetrize=True, mpi_t
     if mpi:
         dm1a = mpi.nreduce(dm1a, target=mpi_target, logfunc=emb.log.timingv)
         dm1b = mpi.nreduce(dm1b, target=mpi_target, logfunc=emb.log.timingv)
+        if mpi_target not in (None, mpi.rank):
+            return None
     if with_mf is True:
         dm1a[np.diag_indices(emb.nocc[0])] += 1
         dm1b[np.diag_indices(emb.nocc[1])] += 1
@@ -231,10 +235,15 @@ def make_rdm2_demo_rhf(
         dm2 += einsum("xi,ijkl,px,qj,rk,sl->pqrs", px, dm2x, rx, rx, rx, rx)
     if mpi:
         dm2 = mpi.nreduce(dm2, target=mpi_target, logfunc=emb.log.timingv)
+    # The 1-DM is a collective operation and needs to be performed by all MPI ranks
+    if with_dm1 and part_cumulant:
+        dm1 = make_rdm1_demo_rhf(emb, with_mf=(not approx_cumulant))
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     # Add non-cumulant contribution (unless added above, for part_cumulant=False)
     if with_dm1 and part_cumulant:
         if approx_cumulant:
-            ddm1 = make_rdm1_demo_rhf(emb, with_mf=False)
+            ddm1 = dm1
             ddm1[np.diag_indices(emb.nocc)] += 1
             for i in range(emb.nocc):
                 dm2[i, i, :, :] += 2 * ddm1
@@ -242,7 +251,6 @@ def make_rdm2_demo_rhf(
                 dm2[:, i, i, :] -= ddm1
                 dm2[i, :, :, i] -= ddm1
         else:
-            dm1 = make_rdm1_demo_rhf(emb)
             dm2 += einsum("ij,kl->ijkl", dm1, dm1) - einsum("ij,kl->iklj", dm1, dm1) / 2
 
     if symmetrize:
@@ -317,9 +325,14 @@ def make_rdm2_demo_uhf(
         dm2aa = mpi.nreduce(dm2aa, target=mpi_target, logfunc=emb.log.timingv)
         dm2bb = mpi.nreduce(dm2bb, target=mpi_target, logfunc=emb.log.timingv)
         dm2ab = mpi.nreduce(dm2ab, target=mpi_target, logfunc=emb.log.timingv)
+    # The 1-DM is a collective operation and needs to be performed by all MPI ranks
+    if with_dm1 and part_cumulant:
+        dm1 = make_rdm1_demo_uhf(emb, with_mf=(not approx_cumulant))
+    if mpi and mpi_target not in (None, mpi.rank):
+        return None
     if with_dm1 and part_cumulant:
         if approx_cumulant:
-            ddm1a, ddm1b = make_rdm1_demo_uhf(emb, with_mf=False)
+            ddm1a, ddm1b = dm1
             ddm1a[np.diag_indices(emb.nocc[0])] += 0.5
             ddm1b[np.diag_indices(emb.nocc[1])] += 0.5
             for i in range(emb.nocc[0]):
@@ -335,7 +348,7 @@ def make_rdm2_demo_uhf(
                 dm2bb[i, :, :, i] -= ddm1b
                 dm2ab[:, :, i, i] += ddm1a
         else:
-            dm1a, dm1b = make_rdm1_demo_uhf(emb)
+            dm1a, dm1b = dm1
             dm2aa += einsum("ij,kl->ijkl", dm1a, dm1a) - einsum("ij,kl->iklj", dm1a, dm1a)
             dm2bb += einsum("ij,kl->ijkl", dm1b, dm1b) - einsum("ij,kl->iklj", dm1b, dm1b)
             dm2ab += einsum("ij,kl->ijkl", dm1a, dm1b)
-- 
2.43.0


From 00794189cf75fa95b20cc6288ce238e80faeb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 07/84] fix: DMET energy with mpi_target failed on all other
 ranks

---
 vayesta/core/qemb/qemb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..75d0956 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1294,6 +1294,9 @@ class Embedding:
 
         if part_cumulant:
             dm1 = self.make_rdm1_demo(ao_basis=True)
+        if mpi and mpi_target not in (None, mpi.rank):
+            return None
+        if part_cumulant:
             if not approx_cumulant:
                 vhf = self.get_veff_for_energy(dm1=dm1, with_exxdiv=False)
             elif int(approx_cumulant) == 1:
-- 
2.43.0


From 92f79f3db2c61c34963932ee63d91bf7ecbf7536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:28 +0000
Subject: [PATCH 08/84] fix: auxiliary fragments contributed to the DMET energy

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 75d0956..59008e8 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1286,7 +1286,7 @@ class Embedding:
             Electronic DMET energy.
         """
         e_dmet = 0.0
-        for x in self.get_fragments(active=True, mpi_rank=mpi.rank, sym_parent=None):
+        for x in self.get_fragments(contributes=True, mpi_rank=mpi.rank, sym_parent=None):
             wx = x.symmetry_factor
             e_dmet += wx * x.get_fragment_dmet_energy(part_cumulant=part_cumulant, approx_cumulant=approx_cumulant)
         if mpi:
-- 
2.43.0


From 224b495fa0fad47372b9924578dcb4a4d2282d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 09/84] fix: e_nonlocal summed auxiliary fragments and ignored
 MPI ranks

---
 vayesta/core/qemb/qemb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 59008e8..0c54b99 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -585,7 +585,10 @@ class Embedding:
     def e_nonlocal(self):
         if self.opts.ext_rpa_correction is None:
             return 0.0
-        e_local = sum([x.results.e_corr_rpa * x.symmetry_factor for x in self.get_fragments(sym_parent=None)])
+        fragments = self.get_fragments(contributes=True, mpi_rank=mpi.rank, sym_parent=None)
+        e_local = sum([x.results.e_corr_rpa * x.symmetry_factor for x in fragments])
+        if mpi:
+            e_local = mpi.nreduce(e_local)
         return self.e_rpa - (e_local / self.ncells)
 
     # Embedding properties
-- 
2.43.0


From e9845dd649b7cf4afc8238c6bba5257091875379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 10/84] fix: auxiliary and inactive fragments entered the
 global self-energy

---
 vayesta/core/qemb/self_energy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/qemb/self_energy.py b/vayesta/core/qemb/self_energy.py
index 69d95a0..25cbd64 100644
--- a/vayesta/core/qemb/self_energy.py
+++ b/vayesta/core/qemb/self_energy.py
@@ -41,7 +41,10 @@ def make_self_energy_moments(emb, n_se_mom, use_sym=True, proj=1, eta=1e-2):
     static_potential = np.zeros_like(fock)
     self_energy_moms = np.zeros((n_se_mom, fock.shape[1], fock.shape[1]))
 
-    fragments = emb.get_fragments(sym_parent=None) if use_sym else emb.get_fragments()
+    if use_sym:
+        fragments = emb.get_fragments(contributes=True, sym_parent=None)
+    else:
+        fragments = emb.get_fragments(contributes=True)
     for i, f in enumerate(fragments):
         # Calculate self energy from cluster moments
         th, tp = f.results.moms
@@ -152,7 +155,10 @@ def make_self_energy_1proj(emb, use_sym=True, use_svd=True, eta=1e-2, aux_shift_
         couplings_l, couplings_r = [], []
     else:
         couplings = []
-    fragments = emb.get_fragments(sym_parent=None) if use_sym else emb.get_fragments()
+    if use_sym:
+        fragments = emb.get_fragments(contributes=True, sym_parent=None)
+    else:
+        fragments = emb.get_fragments(contributes=True)
     for i, f in enumerate(fragments):
         # Calculate self energy from cluster moments
         th, tp = f.results.moms
@@ -286,7 +292,10 @@ def make_self_energy_2proj(emb, use_sym=True, eta=1e-2):
     static_potential = np.zeros_like(fock)
     couplings, energies = [], []
 
-    fragments = emb.get_fragments(sym_parent=None) if use_sym else emb.get_fragments()
+    if use_sym:
+        fragments = emb.get_fragments(contributes=True, sym_parent=None)
+    else:
+        fragments = emb.get_fragments(contributes=True)
     for i, f in enumerate(fragments):
         # Calculate self energy from cluster moments
         th, tp = f.results.moms
-- 
2.43.0


From d5dc2cdbed933c90eb71aba49d93a9ea31e34845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 11/84] fix: unrestricted 2-DM energy of the supercell was
 added to the energy per cell

---
 vayesta/ewf/uewf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/ewf/uewf.py b/vayesta/ewf/uewf.py
index 17c87c9..86f9313 100644
--- a/vayesta/ewf/uewf.py
+++ b/vayesta/ewf/uewf.py
@@ -149,6 +149,7 @@ class UEWF(REWF, UEmbedding):
             e2 += einsum("pqrs,pqrs", eriab, dm2ab)
             eribb = self.get_eris_array(self.mo_coeff[1])
             e2 += einsum("pqrs,pqrs", eribb, dm2bb) / 2
+            e2 = e2 / self.ncells
         # Use fragment-local 2-DM
         else:
             e2 = self.get_dm_corr_energy_e2(t_as_lambda=t_as_lambda)
-- 
2.43.0


From c0a9361438fad43e78a7888e9a5160b0c1b458fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 12/84] fix: DMET and EDMET correlation energies were per
 supercell

e_tot adds them to e_mf, which is the energy per unit cell.
---
 vayesta/dmet/dmet.py   | 4 ++--
 vayesta/edmet/edmet.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 950a4b7..85cbbdf 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -66,7 +66,7 @@ class DMET(Embedding):
         self.iteration = 0
         self.cluster_results = {}
         self.results = []
-        self.e_dmet = self.e_mf - self.mf.energy_nuc()
+        self.e_dmet = self.e_mf - self.e_nuc
 
         self.log.timing("Time for DMET setup: %s", time_string(timer() - t_start))
 
@@ -198,7 +198,7 @@ class DMET(Embedding):
                 emf += frag.get_fragment_mf_energy() * nsym[x]
                 # print(e1 + e2, e1, e2)
                 # print(frag.get_fragment_dmet_energy())
-            self.e_corr = e1 + e2 - emf
+            self.e_corr = (e1 + e2 - emf) / self.ncells
             self.log.info("Total DMET energy {:8.4f}".format(self.e_tot))
             self.log.info("Energy Contributions: 1-body={:8.4f}, 2-body={:8.4f}".format(e1, e2))
             if self.opts.oneshot:
diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index f175011..462d9c3 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -185,7 +185,7 @@ class EDMET(RDMET):
                 efb += efb_contrib * nsym[x]
                 emf += frag.get_fragment_mf_energy() * nsym[x]
 
-            self.e_corr = e1 + e2 + efb + self.e_nonlocal - emf
+            self.e_corr = (e1 + e2 + efb + self.e_nonlocal - emf) / self.ncells
             self.log.info("Total EDMET energy {:12.8f}".format(self.e_tot))
             self.log.info(
                 "Energy Contributions: 1-body={:12.8f} \n"
@@ -358,7 +358,7 @@ class EDMET(RDMET):
             "Numerical integration of the adiabatic connection modified nonlocal energy estimate by %6.4e",
             new_correction - orig_correction,
         )
-        return self.e_tot + new_correction - orig_correction
+        return self.e_tot + (new_correction - orig_correction) / self.ncells
 
     def run_exact_full_ac(self, xc_kernel=None, deg=5, calc_local=False, cluster_constrain=False, npoints=48):
         """During calculation we only calculate the linearised nonlocal correlation energy, since this is relatively
-- 
2.43.0


From 47fa27f4138492274fb823a90ddce649fa612f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 13/84] fix: packing of arrays for MPI used a type code removed
 from NumPy

np.dtype('a8') raises a TypeError with NumPy 2; 'S8' is the same type.
---
 vayesta/core/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..13ddbff 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,14 +19,14 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
+    val = np.asarray(dtint).view("S8")[()]
     dtype = np.dtype(val)
     return dtype
 
-- 
2.43.0


From 370ad3c90561b71d6565cfca2d69aefdb951ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:27 +0000
Subject: [PATCH 14/84] fix: option filters of get_fragments were lost when
 flags were also given

---
 vayesta/core/qemb/qemb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 0c54b99..c8a296f 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1155,6 +1155,8 @@ class Embedding:
                 skip = _skip(attr, filt)
                 if skip:
                     break
+            if skip:
+                continue
             # Check flags:
             for key, filt in flags.items():
                 attr = getattr_recursive(frag.flags, key)
-- 
2.43.0


From 4fe636d6a2d2ea8f3cf299c32daf44e8f4210437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 15/84] fix: spinalg.eigh used scipy without importing it

---
 vayesta/core/spinalg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/spinalg.py b/vayesta/core/spinalg.py
index 67c81ce..3f85437 100644
--- a/vayesta/core/spinalg.py
+++ b/vayesta/core/spinalg.py
@@ -2,6 +2,7 @@
 same functions"""
 
 import numpy as np
+import scipy.linalg
 from vayesta.core import util
 
 __all__ = ["add_numbers", "hstack_matrices"]
-- 
2.43.0


From 61e9a227228ffb71188463f433eb1a01e747f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 16/84] fix: setattr_recursive called the undefined rgetattr

---
 vayesta/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/util.py b/vayesta/core/util.py
index 38e3863..adadd9a 100644
--- a/vayesta/core/util.py
+++ b/vayesta/core/util.py
@@ -563,7 +563,7 @@ def getattr_recursive(obj, attr, *args):
 
 def setattr_recursive(obj, attr, val):
     pre, _, post = attr.rpartition(".")
-    return setattr(rgetattr(obj, pre) if pre else obj, post, val)
+    return setattr(getattr_recursive(obj, pre) if pre else obj, post, val)
 
 
 @contextmanager
-- 
2.43.0


From e2d15024c1198608da97dc7746041c340b86f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 17/84] fix: QPEWDMET referred to the undefined SymmetryError

---
 vayesta/core/scmf/qpewdmet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/scmf/qpewdmet.py b/vayesta/core/scmf/qpewdmet.py
index 8e6d7e3..42d71bc 100644
--- a/vayesta/core/scmf/qpewdmet.py
+++ b/vayesta/core/scmf/qpewdmet.py
@@ -6,6 +6,7 @@ import pyscf.scf
 import vayesta
 from vayesta.core.scmf.scmf import SCMF
 from vayesta.core.foldscf import FoldedSCF
+from vayesta.core.util import SymmetryError
 from vayesta.lattmod import LatticeRHF
 from vayesta.core.qemb.self_energy import make_self_energy_1proj, make_self_energy_2proj
 from dyson import Lehmann, AuxiliaryShift
-- 
2.43.0


From b41260e4489869f56f2fec5a952659916f06ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 18/84] fix: RDM wave functions could not be packed for MPI

---
 vayesta/core/types/wf/rdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index 52d05be..eb848e7 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -2,7 +2,9 @@ import numpy as np
 
 from vayesta.core import spinalg
 from vayesta.core.util import dot, einsum, callif
+from vayesta.core.helper import pack_arrays, unpack_arrays
 from vayesta.core.types import wf as wf_types
+from vayesta.core.types.orbitals import SpatialOrbitals
 from vayesta.core.types.wf.project import (
     project_c1,
     project_c2,
@@ -88,7 +90,7 @@ class RRDM_WaveFunction(wf_types.WaveFunction):
 
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
-        data = (mo, dm1, dm2, self.projector)
+        data = (mo, self.dm1, self.dm2, self.projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
-- 
2.43.0


From 5623a64f01895383614e3540e8d2fff84a33ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 19/84] fix: EDMET for an ROHF reference called an undefined
 class

---
 vayesta/edmet/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/edmet/__init__.py b/vayesta/edmet/__init__.py
index 5985eb2..f8d43e6 100644
--- a/vayesta/edmet/__init__.py
+++ b/vayesta/edmet/__init__.py
@@ -19,5 +19,5 @@ def EDMET(mf, *args, **kwargs):
         return UEDMET(mf, *args, **kwargs)
     elif isinstance(mf, (pyscf.scf.rohf.ROHF, pyscf.pbc.scf.rohf.ROHF, pyscf.pbc.scf.krohf.KROHF)):
         log.warning("Converting ROHF reference to UHF")
-        return UEMET(mf.to_uhf(), *args, **kwargs)
+        return UEDMET(mf.to_uhf(), *args, **kwargs)
     return REDMET(mf, *args, **kwargs)
-- 
2.43.0


From 2d36e462377217c5cefd7dad9c3cbc9e0e4ef0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:03 +0000
Subject: [PATCH 20/84] fix: CCSD(T) fragment energy failed for given
 amplitudes or integrals

---
 vayesta/ewf/ccsd_t.py   | 26 ++++++++++++++------------
 vayesta/ewf/fragment.py |  2 +-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/vayesta/ewf/ccsd_t.py b/vayesta/ewf/ccsd_t.py
index 046379a..2085fc4 100644
--- a/vayesta/ewf/ccsd_t.py
+++ b/vayesta/ewf/ccsd_t.py
@@ -36,7 +36,9 @@ def calc_fragment_rccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
 
     if t2 is None:
         t2T = fragment.results.wf.as_ccsd().t2.transpose(2,3,0,1)
-        
+    else:
+        t2T = t2.transpose(2,3,0,1)
+
 
     fvo = fragment.hamil.get_fock(with_exxdiv=True)[nocc:,:nocc]
 
@@ -232,17 +234,17 @@ def calc_fragment_uccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     fVO = fockb[noccb:,:noccb]
 
     if eris is not None:
-        eris_ovvv = numpy.asarray(eris.get_ovvv()).conj()
-        eris_ovoo = numpy.asarray(eris.ovoo).conj()
-        eris_ovov = numpy.asarray(eris.ovov).conj()
-        eris_OVVV = numpy.asarray(eris.get_OVVV()).conj()
-        eris_OVOO = numpy.asarray(eris.OVOO).conj()
-        eris_OVOV = numpy.asarray(eris.OVOV).conj()
-        eris_ovVV = numpy.asarray(eris.get_ovVV()).conj()
-        eris_OVvv = numpy.asarray(eris.get_OVvv()).conj()
-        eris_ovOO = numpy.asarray(eris.ovOO).conj()
-        eris_OVoo = numpy.asarray(eris.OVoo).conj()
-        eris_ovOV = numpy.asarray(eris.ovOV).conj()
+        eris_ovvv = np.asarray(eris.get_ovvv()).conj()
+        eris_ovoo = np.asarray(eris.ovoo).conj()
+        eris_ovov = np.asarray(eris.ovov).conj()
+        eris_OVVV = np.asarray(eris.get_OVVV()).conj()
+        eris_OVOO = np.asarray(eris.OVOO).conj()
+        eris_OVOV = np.asarray(eris.OVOV).conj()
+        eris_ovVV = np.asarray(eris.get_ovVV()).conj()
+        eris_OVvv = np.asarray(eris.get_OVvv()).conj()
+        eris_ovOO = np.asarray(eris.ovOO).conj()
+        eris_OVoo = np.asarray(eris.OVoo).conj()
+        eris_ovOV = np.asarray(eris.ovOV).conj()
     else:
         eris_ovvv = fragment.hamil.get_eris_bare(block='ovvv').conj()
         eris_ovoo = fragment.hamil.get_eris_bare(block='ovoo').conj()
diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 0c2462a..2722827 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -305,7 +305,7 @@ class Fragment(BaseFragment):
         if self.opts.calc_e_dm_corr:
             results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(hamil=self.hamil)
         if self.base.opts.calc_e_ccsd_t_corr:
-            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self, wf.t1, wf.t2)
+            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self, t1=wf.t1, t2=wf.t2)
 
         return results
 
-- 
2.43.0


From 2cb971613de35aa1bdd1c060bebf1ca20cd76b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:34 +0000
Subject: [PATCH 21/84] fix: unrestricted spin-spin correlation without
 projectors used undefined names

---
 vayesta/misc/corrfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/corrfunc.py b/vayesta/misc/corrfunc.py
index 67c46dd..01ef961 100644
--- a/vayesta/misc/corrfunc.py
+++ b/vayesta/misc/corrfunc.py
@@ -76,7 +76,7 @@ def spinspin_z_unrestricted(dm1, dm2, proj1=None, proj2=None):
         proj2 = proj1
     if proj1 is None:
         ssz = einsum("iijj->", dm2aa) / 4 + einsum("iijj->", dm2bb) / 4 - einsum("iijj->", dm2ab) / 2
-        ssz += (np.trace(dma) + np.trace(dmb)) / 4
+        ssz += (np.trace(dm1a) + np.trace(dm1b)) / 4
         return ssz
     p1a, p1b = _get_proj_per_spin(proj1)
     p2a, p2b = _get_proj_per_spin(proj2)
-- 
2.43.0


From 6a12e6c9985cdc02218f138b0bc711cebbec94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 22/84] fix: ssURPA.ao2mo used pyscf without importing it

---
 vayesta/rpa/ssurpa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/rpa/ssurpa.py b/vayesta/rpa/ssurpa.py
index 3dd10c8..eff6c31 100644
--- a/vayesta/rpa/ssurpa.py
+++ b/vayesta/rpa/ssurpa.py
@@ -1,5 +1,6 @@
 from vayesta.rpa.ssrpa import ssRPA
 import numpy as np
+import pyscf.ao2mo
 import scipy.linalg
 
 from timeit import default_timer as timer
-- 
2.43.0


From 258a237e9cb64450c67f963a8a19aa8331f7c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 23/84] fix: intercluster MP2 failed on a master rank without
 fragment pairs

---
 vayesta/ewf/icmp2.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/vayesta/ewf/icmp2.py b/vayesta/ewf/icmp2.py
index b4aa6e7..3808dcd 100644
--- a/vayesta/ewf/icmp2.py
+++ b/vayesta/ewf/icmp2.py
@@ -247,8 +247,13 @@ def get_intercluster_mp2_energy_rhf(
                 if ix + iy == 0:
                     emb.log.debugv("Intercluster MP2 energies:")
                 xystr = "%s <- %s:" % (x.id_name, y.id_name)
-                estr = energy_string
-                emb.log.debugv("  %-12s  direct= %s  exchange= %s  total= %s", xystr, estr(ed), estr(ex), estr(ed + ex))
+                emb.log.debugv(
+                    "  %-12s  direct= %s  exchange= %s  total= %s",
+                    xystr,
+                    energy_string(ed),
+                    energy_string(ex),
+                    energy_string(ed + ex),
+                )
 
         if mpi:
             e_direct = mpi.world.allreduce(e_direct)
@@ -260,9 +265,9 @@ def get_intercluster_mp2_energy_rhf(
             emb.log.info(
                 "  %-12s  direct= %s  exchange= %s  total= %s",
                 "Total:",
-                estr(e_direct),
-                estr(e_exchange),
-                estr(e_icmp2),
+                energy_string(e_direct),
+                energy_string(e_exchange),
+                energy_string(e_icmp2),
             )
         coll.clear()  # Important in order to not run out of MPI communicators
 
@@ -430,8 +435,13 @@ def get_intercluster_mp2_energy_uhf(emb, bno_threshold=1e-9, direct=True, exchan
                 if ix + iy == 0:
                     emb.log.debugv("Intercluster MP2 energies:")
                 xystr = "%s <- %s:" % (x.id_name, y.id_name)
-                estr = energy_string
-                emb.log.debugv("  %-12s  direct= %s  exchange= %s  total= %s", xystr, estr(ed), estr(ex), estr(ed + ex))
+                emb.log.debugv(
+                    "  %-12s  direct= %s  exchange= %s  total= %s",
+                    xystr,
+                    energy_string(ed),
+                    energy_string(ex),
+                    energy_string(ed + ex),
+                )
 
         if mpi:
             e_direct = mpi.world.allreduce(e_direct)
@@ -443,9 +453,9 @@ def get_intercluster_mp2_energy_uhf(emb, bno_threshold=1e-9, direct=True, exchan
             emb.log.info(
                 "  %-12s  direct= %s  exchange= %s  total= %s",
                 "Total:",
-                estr(e_direct),
-                estr(e_exchange),
-                estr(e_icmp2),
+                energy_string(e_direct),
+                energy_string(e_exchange),
+                energy_string(e_icmp2),
             )
         coll.clear()  # Important in order to not run out of MPI communicators
 
-- 
2.43.0


From 7cdb5d03aafcda265a29d43475169a0bd21a9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 24/84] fix: unrestricted fragment energy with axis1 !=
 'fragment' used undefined slices

---
 vayesta/ewf/ufragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index a015d9d..7b047ac 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -46,6 +46,8 @@ class Fragment(RFragment, BaseFragment):
         if axis1 == "fragment":
             pxa, pxb = self.get_overlap("proj|cluster-occ")
             oaf, obf = np.s_[: pxa.shape[0]], np.s_[: pxb.shape[0]]
+        else:
+            oaf = obf = np.s_[:]
 
         # Doubles energy
         # TODO: loop to reduce memory?
-- 
2.43.0


From ae226fec5a3da84e71d6575a8a57ca7455e8313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 25/84] fix: callback solver without wave function in its
 results failed

---
 vayesta/solver/callback.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/solver/callback.py b/vayesta/solver/callback.py
index a8a29c5..32ed0f3 100644
--- a/vayesta/solver/callback.py
+++ b/vayesta/solver/callback.py
@@ -37,6 +37,7 @@ class CallbackSolver(ClusterSolver):
             wf = RDM_WaveFunction(self.hamil.mo, dm1, dm2)
         else:
             self.log.warn("No wavefunction results returned by callback!")
+            wf = None
 
         if 'hole_moments' in results:
             self.log.info("Hole moments found in callback results.")
-- 
2.43.0


From 380ff146572107bda4e4c6ad5b5d9a9579cbaabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 26/84] fix: tailoring of only T1 or only T2 failed in a log
 message

---
 vayesta/solver/coupling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index b93ba97..d2b2681 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -189,10 +189,8 @@ def tailor_with_fragments(solver, fragments, project=False, tailor_t1=True, tail
         """Add external correction to T1 and T2 amplitudes."""
         t1, t2 = kwargs["t1new"], kwargs["t2new"]
         # Collect all changes to the amplitudes in dt1 and dt2:
-        if tailor_t1:
-            dt1 = spinalg.zeros_like(t1)
-        if tailor_t2:
-            dt2 = spinalg.zeros_like(t2)
+        dt1 = spinalg.zeros_like(t1)
+        dt2 = spinalg.zeros_like(t2)
 
         # Loop over all *other* fragments/cluster X
         for y, fy in enumerate(fragments):
@@ -218,9 +216,13 @@ def tailor_with_fragments(solver, fragments, project=False, tailor_t1=True, tail
             if tailor_t1:
                 t1x = transform_amplitude(t1, rxy_occ, rxy_vir)
                 dt1y = spinalg.subtract(wfy.t1, t1x)
+            else:
+                dt1y = spinalg.zeros_like(wfy.t1)
             if tailor_t2:
                 t2x = transform_amplitude(t2, rxy_occ, rxy_vir)
                 dt2y = spinalg.subtract(wfy.t2, t2x)
+            else:
+                dt2y = spinalg.zeros_like(wfy.t2)
 
             # Project first one/two occupied index/indices onto fragment(y) space:
             if project:
-- 
2.43.0


From bbea15aa2267f6c6a028b53a28662d820b037cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 27/84] fix: external correction without given Hamiltonian
 unpacked wrong integrals

---
 vayesta/solver/coupling.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index d2b2681..028bcd2 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -576,20 +576,19 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         # if passed in. Otherwise, form the required integrals
         # for this parent cluster. Note that not all of these are needed.
         if hamil is None:
-            _, govvv_x, gvvov_x, gooov_x, govoo_x = _integrals_for_extcorr(fx, fock)
+            hamil = fx.hamil
+        eri_generator = hamil.get_eris_bare
+
+        if emb.spinsym == "restricted":
+            govvv_x = None
+            gvvov_x = eri_generator("vvov")
+            gooov_x = eri_generator("ooov")
+            govoo_x = eri_generator("ovoo")
         else:
-            eri_generator = hamil.get_eris_bare
-
-            if emb.spinsym == "restricted":
-                govvv_x = None
-                gvvov_x = eri_generator("vvov")
-                gooov_x = eri_generator("ooov")
-                govoo_x = eri_generator("ovoo")
-            else:
-                govvv_x = (eri_generator("ovvv"), eri_generator("ovVV"), eri_generator("OVVV"))
-                gvvov_x = (eri_generator("vvov"), eri_generator("vvOV"), eri_generator("VVOV"))
-                gooov_x = (eri_generator("ooov"), eri_generator("ooOV"), eri_generator("OOOV"))
-                govoo_x = (eri_generator("ovoo"), eri_generator("ovOO"), eri_generator("OVOO"))
+            govvv_x = (eri_generator("ovvv"), eri_generator("ovVV"), eri_generator("OVVV"))
+            gvvov_x = (eri_generator("vvov"), eri_generator("vvOV"), eri_generator("VVOV"))
+            gooov_x = (eri_generator("ooov"), eri_generator("ooOV"), eri_generator("OOOV"))
+            govoo_x = (eri_generator("ovoo"), eri_generator("ovOO"), eri_generator("OVOO"))
 
     # delta-T1 and delta-T2 amplitudes, to be added to the CCSD amplitudes
     if emb.spinsym == "restricted":
-- 
2.43.0


From 50f35fcbee434affde841d7e8b9c267de2b4f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:46 +0000
Subject: [PATCH 28/84] fix: plot3d passed grid sizes which CubeFile does not
 accept

---
 vayesta/core/qemb/fragment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..2e6ff13 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -1146,11 +1146,10 @@ class Fragment:
 
     def plot3d(self, filename, gridsize=(100, 100, 100), **kwargs):
         """Write cube density data of fragment orbitals to file."""
-        nx, ny, nz = gridsize
         directory = os.path.dirname(filename)
         if directory:
             os.makedirs(directory, exist_ok=True)
-        cube = CubeFile(self.mol, filename=filename, nx=nx, ny=ny, nz=nz, **kwargs)
+        cube = CubeFile(self.mol, filename=filename, gridsize=gridsize, **kwargs)
         cube.add_orbital(self.c_frag)
         cube.write()
 
-- 
2.43.0


From d68584b5ba919b5ebaf916db818a91f4d2a00b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:58 +0000
Subject: [PATCH 29/84] fix: make_counterpoise_fragments used numpy by an
 undefined name

---
 vayesta/misc/gto_helper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vayesta/misc/gto_helper.py b/vayesta/misc/gto_helper.py
index 59fcc08..9a3b295 100644
--- a/vayesta/misc/gto_helper.py
+++ b/vayesta/misc/gto_helper.py
@@ -73,7 +73,7 @@ def make_counterpoise_fragments(mol, fragments, full_basis=True, add_rest_fragme
     atom_symbols = [mol.atom_symbol(atm_id) for atm_id in range(mol.natm)]
 
     def make_frag_mol(frag):
-        f_mask = numpy.isin(atom_symbols, frag)
+        f_mask = np.isin(atom_symbols, frag)
         if sum(f_mask) == 0:
             raise ValueError("No atoms found for fragment: %r", frag)
         fmol = mol.copy()
@@ -108,12 +108,12 @@ def make_counterpoise_fragments(mol, fragments, full_basis=True, add_rest_fragme
 
     # Add fragment containing all atoms not part of any specified fragments
     if add_rest_fragment:
-        rest_mask = numpy.full((mol.natm,), True)
+        rest_mask = np.full((mol.natm,), True)
         # Set all atoms to False that are part of a fragment
         for frag in fragments:
-            rest_mask = numpy.logical_and(numpy.isin(atom_symbols, frag, invert=True), rest_mask)
-        if numpy.any(rest_mask):
-            rest_frag = numpy.asarray(atom_symbols)[rest_mask]
+            rest_mask = np.logical_and(np.isin(atom_symbols, frag, invert=True), rest_mask)
+        if np.any(rest_mask):
+            rest_frag = np.asarray(atom_symbols)[rest_mask]
             fmol = make_frag_mol(rest_frag)
             fmols.append(fmol)
 
-- 
2.43.0


From f4c64a1363900b1e6925faef289c959c5fad7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:24 +0000
Subject: [PATCH 30/84] fix: restricted dRPA with an empty excitation space of
 one spin used undefined energies

---
 vayesta/rpa/ssrpa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/rpa/ssrpa.py b/vayesta/rpa/ssrpa.py
index cb6c886..6ed7cdb 100644
--- a/vayesta/rpa/ssrpa.py
+++ b/vayesta/rpa/ssrpa.py
@@ -192,6 +192,7 @@ class ssRPA:
         eps = eps.reshape((self.ova,))
 
         if self.ov_rot is not None:
+            epsa = epsb = np.zeros((0,))
             if self.ov_rot[0].shape[0] > 0:
                 epsa = einsum("pn,n,qn->pq", self.ov_rot[0], eps, self.ov_rot[0])
                 epsa, ca = scipy.linalg.eigh(epsa)
-- 
2.43.0


From d0a80489090d967cba9d5de893c9084fc55d8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:24 +0000
Subject: [PATCH 31/84] fix: NICheckInf did not pass a logger to its base class

---
 vayesta/rpa/rirpa/NI_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/NI_eval.py b/vayesta/rpa/rirpa/NI_eval.py
index 1a0c101..175eaea 100644
--- a/vayesta/rpa/rirpa/NI_eval.py
+++ b/vayesta/rpa/rirpa/NI_eval.py
@@ -425,8 +425,8 @@ def gen_ClenCur_quad_semiinf(a, npoints):
 
 
 class NICheckInf(NumericalIntegratorClenCurInfinite):
-    def __init__(self, exponent, npoints):
-        super().__init__((), (), npoints, even=True)
+    def __init__(self, exponent, npoints, log=None):
+        super().__init__((), (), npoints, log, even=True)
         self.exponent = exponent
 
     def eval_contrib(self, freq):
-- 
2.43.0


From 46caa8ec6faa08c49206d401a8ad147a00c00866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 32/84] fix: EOS tool without --lattice used an undefined
 function

---
 vayesta/tools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/tools/eos.py b/vayesta/tools/eos.py
index 533f03b..9bdf3dd 100755
--- a/vayesta/tools/eos.py
+++ b/vayesta/tools/eos.py
@@ -149,7 +149,7 @@ def cmdline_tool():
     parser.add_argument("--value-at", type=float)
     args = parser.parse_args()
 
-    volume_func = lambda x: x
+    volume_func = inv_volume_func = lambda x: x
     if args.lattice == "diamond":
         volume_func = lambda x: (x**3) / 4
         inv_volume_func = lambda v: np.power(4 * v, 1.0 / 3)
-- 
2.43.0


From 7d096293c4e2e580c5083d47242387af98072fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 33/84] fix: Bath.spinsym read an attribute fragments do not
 have

---
 vayesta/core/bath/bath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/bath/bath.py b/vayesta/core/bath/bath.py
index 44e2487..1750f3d 100644
--- a/vayesta/core/bath/bath.py
+++ b/vayesta/core/bath/bath.py
@@ -18,7 +18,7 @@ class Bath:
 
     @property
     def spinsym(self):
-        return self.fragment.spinsym
+        return self.base.spinsym
 
     @property
     def mf(self):
-- 
2.43.0


From 4b3fd42ff17d7cd98a1cb745666d0aef9eb8ff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 34/84] fix: target orbitals of the RPA bosonic bath read
 attributes fragments do not have

---
 vayesta/core/bosonic_bath/qba_rpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/bosonic_bath/qba_rpa.py b/vayesta/core/bosonic_bath/qba_rpa.py
index 70697b6..f6ab80d 100644
--- a/vayesta/core/bosonic_bath/qba_rpa.py
+++ b/vayesta/core/bosonic_bath/qba_rpa.py
@@ -78,7 +78,7 @@ class RPA_Boson_Target_Space(Bath):
 
     def _get_target_orbitals(self):
         if self.target_orbitals == "full":
-            return self.fragment.c_occ, self.fragment.c_vir
+            return self.fragment.cluster.c_active_occ, self.fragment.cluster.c_active_vir
         elif self.target_orbitals == "dmet":
             dmet_bath = self.fragment._dmet_bath
             return dmet_bath.c_cluster_occ, dmet_bath.c_cluster_vir
-- 
2.43.0


From fdd4a2ca0eeb366c6f2fdeefab2205b2e6780dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 35/84] fix: UEWF.t1_diagnostic did not accept the warntol
 argument of EWF.t1_diagnostic

---
 vayesta/ewf/uewf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/ewf/uewf.py b/vayesta/ewf/uewf.py
index 86f9313..c2440f9 100644
--- a/vayesta/ewf/uewf.py
+++ b/vayesta/ewf/uewf.py
@@ -30,7 +30,7 @@ class UEWF(REWF, UEmbedding):
     get_global_t1 = get_global_t1_uhf
     get_global_t2 = get_global_t2_uhf
 
-    def t1_diagnostic(self, warn_tol=0.02):
+    def t1_diagnostic(self, warntol=0.02):
         # Per cluster
         for f in self.get_fragments(active=True, mpi_rank=mpi.rank):
             t1 = f.results.wf.t1
@@ -39,7 +39,7 @@ class UEWF(REWF, UEmbedding):
                 continue
             nelec = t1[0].shape[0] + t1[1].shape[0]
             t1diag = (np.linalg.norm(t1[0]) / np.sqrt(nelec), np.linalg.norm(t1[1]) / np.sqrt(nelec))
-            if max(t1diag) > warn_tol:
+            if max(t1diag) > warntol:
                 self.log.warning("T1 diagnostic for %-20s alpha= %.5f beta= %.5f", str(f) + ":", *t1diag)
             else:
                 self.log.info("T1 diagnostic for %-20s alpha= %.5f beta= %.5f", str(f) + ":", *t1diag)
@@ -48,7 +48,7 @@ class UEWF(REWF, UEmbedding):
         if mpi.is_master:
             nelec = t1[0].shape[0] + t1[1].shape[0]
             t1diag = (np.linalg.norm(t1[0]) / np.sqrt(nelec), np.linalg.norm(t1[1]) / np.sqrt(nelec))
-            if max(t1diag) > warn_tol:
+            if max(t1diag) > warntol:
                 self.log.warning("Global T1 diagnostic: alpha= %.5f beta= %.5f", *t1diag)
             else:
                 self.log.info("Global T1 diagnostic: alpha= %.5f beta= %.5f", *t1diag)
-- 
2.43.0


From 300d90a213a19dd79493ae454f3340a030601d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 36/84] fix: argument order of get_fragment_energy differed
 between restricted and unrestricted fragments

---
 vayesta/ewf/ufragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index 7b047ac..4ef2cee 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -19,7 +19,7 @@ class Fragment(RFragment, BaseFragment):
         self.opts.c_cas_vir = c_vir
         return c_occ, c_vir
 
-    def get_fragment_energy(self, c1, c2, hamil=None, fock=None, axis1="fragment", c2ba_order="ba"):
+    def get_fragment_energy(self, c1, c2, hamil=None, fock=None, c2ba_order="ba", axis1="fragment"):
         """Calculate fragment correlation energy contribution from projected C1, C2.
 
         Parameters
-- 
2.43.0


From 10496ddeead2f904e8f8b25cfd5a6e8f705d2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 37/84] fix: unrestricted make_fragment_dm2cumulant did not
 accept sym_dm2

---
 vayesta/ewf/ufragment.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index 4ef2cee..9690f3f 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -144,11 +144,11 @@ class Fragment(RFragment, BaseFragment):
         return e_singles, e_doubles, e_corr
 
     @with_doc(RFragment._get_projected_gamma1_intermediates)
-    def _get_projected_gamma1_intermediates(self, t_as_lambda=None, sym_t2=True):
+    def _get_projected_gamma1_intermediates(self, t_as_lambda=False, sym_t2=True):
         raise NotImplementedError
 
     @with_doc(RFragment._get_projected_gamma2_intermediates)
-    def _get_projected_gamma2_intermediates(self, t_as_lambda=None, sym_t2=True):
+    def _get_projected_gamma2_intermediates(self, t_as_lambda=False, sym_t2=True):
         t1, t2, l1, l2, t1x, t2x, l1x, l2x = self._ccsd_amplitudes_for_dm(t_as_lambda=t_as_lambda, sym_t2=sym_t2)
         # Only incore for UCCSD:
         # d2 = pyscf.cc.uccsd_rdm._gamma2_intermediates(None, t1, t2, l1x, l2x)
@@ -172,7 +172,9 @@ class Fragment(RFragment, BaseFragment):
         d2 = (d2ovov, *d2)
         return d2
 
-    def make_fragment_dm2cumulant(self, t_as_lambda=None, sym_t2=True, approx_cumulant=True, full_shape=True):
+    def make_fragment_dm2cumulant(
+        self, t_as_lambda=False, sym_t2=True, sym_dm2=True, full_shape=True, approx_cumulant=True
+    ):
         if int(approx_cumulant) != 1:
             raise NotImplementedError
 
@@ -205,7 +207,7 @@ class Fragment(RFragment, BaseFragment):
         return dm2
 
     @log_method()
-    def make_fragment_dm2cumulant_energy(self, hamil=None, t_as_lambda=None, sym_t2=True, approx_cumulant=True):
+    def make_fragment_dm2cumulant_energy(self, hamil=None, t_as_lambda=False, sym_t2=True, approx_cumulant=True):
         if hamil is None:
             hamil = self.hamil
         if self.solver == "MP2":
-- 
2.43.0


From f689f0113a48f47c3769e7f5efaed62207407dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 38/84] fix: population analysis of unrestricted embedding took
 its arguments in another order

---
 vayesta/core/qemb/uqemb.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index 80b020a..d259aaf 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -267,7 +267,18 @@ class UEmbedding(Embedding):
     def make_rdm2_demo(self, *args, **kwargs):
         return make_rdm2_demo_uhf(self, *args, **kwargs)
 
-    def pop_analysis(self, dm1, mo_coeff=None, local_orbitals="lowdin", write=True, minao="auto", mpi_rank=0, **kwargs):
+    def pop_analysis(
+        self,
+        dm1,
+        mo_coeff=None,
+        local_orbitals="lowdin",
+        minao="auto",
+        write=True,
+        filename=None,
+        filemode="a",
+        orbital_resolved=False,
+        mpi_rank=0,
+    ):
         # IAO / PAOs are spin dependent - we need to build them here:
         if isinstance(local_orbitals, str) and local_orbitals.lower() == "iao+pao":
             local_orbitals = self.get_lo_coeff("iao+pao", minao=minao)
@@ -275,9 +286,9 @@ class UEmbedding(Embedding):
         for s, spin in enumerate(("alpha", "beta")):
             mo = mo_coeff[s] if mo_coeff is not None else None
             lo = local_orbitals if isinstance(local_orbitals, str) else local_orbitals[s]
-            pop.append(super().pop_analysis(dm1[s], mo_coeff=mo, local_orbitals=lo, write=False, **kwargs))
+            pop.append(super().pop_analysis(dm1[s], mo_coeff=mo, local_orbitals=lo, write=False))
         if write and (mpi.rank == mpi_rank):
-            self.write_population(pop, **kwargs)
+            self.write_population(pop, filename=filename, filemode=filemode, orbital_resolved=orbital_resolved)
         return pop
 
     def get_atomic_charges(self, pop):
-- 
2.43.0


From 7093e305c63a12ffc1ccdd03a7b69140f90b145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 39/84] fix: fragment symmetry check of unrestricted embedding
 has to raise SymmetryError and accept symtol

---
 vayesta/core/qemb/uqemb.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index d259aaf..600acd2 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -9,7 +9,7 @@ from vayesta.core.qemb.qemb import Embedding
 from vayesta.core.qemb.ufragment import UFragment
 
 from vayesta.core.ao2mo.postscf_ao2mo import postscf_ao2mo
-from vayesta.core.util import dot, einsum, log_method, with_doc
+from vayesta.core.util import SymmetryError, dot, einsum, log_method, with_doc
 from vayesta.core import spinalg
 from vayesta.core.ao2mo import kao2gmo_cderi
 from vayesta.core.ao2mo import postscf_kao2gmo_uhf
@@ -225,14 +225,16 @@ class UEmbedding(Embedding):
         self.mf.mo_energy = mo_energy
         self.mf.e_tot = self.mf.energy_tot(dm=dm, h1e=self.get_hcore(), vhf=veff)
 
-    def check_fragment_symmetry(self, dm1, charge_tol=1e-6, spin_tol=1e-6):
+    def check_fragment_symmetry(self, dm1, symtol=1e-6, spin_tol=None):
+        if spin_tol is None:
+            spin_tol = symtol
         frags = self.get_symmetry_child_fragments(include_parents=True)
         for group in frags:
             parent, children = group[0], group[1:]
             for child in children:
                 charge_err, spin_err = parent.get_symmetry_error(child, dm1=dm1)
-                if (charge_err > charge_tol) or (spin_err > spin_tol):
-                    raise RuntimeError(
+                if (charge_err > symtol) or (spin_err > spin_tol):
+                    raise SymmetryError(
                         "%s and %s not symmetric: charge error= %.3e spin error= %.3e !"
                         % (parent.name, child.name, charge_err, spin_err)
                     )
-- 
2.43.0


From 6b94bef0b6ed24c73310c76a5dc8937cb1de5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 40/84] fix: unrestricted get_fragment_projector did not accept
 inverse by position

---
 vayesta/core/qemb/ufragment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/ufragment.py b/vayesta/core/qemb/ufragment.py
index dee4fbd..e4a7248 100644
--- a/vayesta/core/qemb/ufragment.py
+++ b/vayesta/core/qemb/ufragment.py
@@ -109,12 +109,12 @@ class UFragment(Fragment):
     # Amplitude projection
     # --------------------
 
-    def get_fragment_projector(self, coeff, c_proj=None, **kwargs):
+    def get_fragment_projector(self, coeff, c_proj=None, inverse=False):
         if c_proj is None:
             c_proj = self.c_proj
         projectors = []
         for s in range(2):
-            projectors.append(super().get_fragment_projector(coeff[s], c_proj=c_proj[s], **kwargs))
+            projectors.append(super().get_fragment_projector(coeff[s], c_proj=c_proj[s], inverse=inverse))
         return tuple(projectors)
 
     def get_fragment_mf_energy(self):
-- 
2.43.0


From 6df04f129de673aa1a082fba519bbaaafeb4893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 41/84] fix: unrestricted make_dmet_bath used the reference
 orbitals of both spins for each spin channel

---
 vayesta/core/bath/dmet.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/bath/dmet.py b/vayesta/core/bath/dmet.py
index c0f38c0..e18525d 100644
--- a/vayesta/core/bath/dmet.py
+++ b/vayesta/core/bath/dmet.py
@@ -306,12 +306,21 @@ class DMET_Bath_UHF(DMET_Bath_RHF):
         nao = self.mol.nao_nr()
         return np.zeros((2, nao, 0)), self.c_env_vir
 
-    def make_dmet_bath(self, c_env, dm1=None, **kwargs):
+    def make_dmet_bath(self, c_env, dm1=None, c_ref=None, nbath=None, verbose=True, reftol=0.8):
         if dm1 is None:
             dm1 = self.mf.make_rdm1()
         results = []
         for s, spin in enumerate(("alpha", "beta")):
             self.log.info("Making %s-DMET bath", spin)
             # Use restricted DMET bath routine for each spin:
-            results.append(super().make_dmet_bath(c_env[s], dm1=2 * dm1[s], **kwargs))
+            results.append(
+                super().make_dmet_bath(
+                    c_env[s],
+                    dm1=2 * dm1[s],
+                    c_ref=(c_ref[s] if c_ref is not None else None),
+                    nbath=(nbath[s] if isinstance(nbath, (tuple, list)) else nbath),
+                    verbose=verbose,
+                    reftol=reftol,
+                )
+            )
         return tuple(zip(*results))
-- 
2.43.0


From 51b14740aed32a8761d9b47abd57e15271321f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 42/84] fix: DMET.get_corrfunc did not accept the positional
 arguments of its base class

---
 vayesta/dmet/dmet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 85cbbdf..5a4eb91 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -292,12 +292,12 @@ class DMET(Embedding):
     def make_rdm2(self, *args, **kwargs):
         return self.make_rdm2_demo(*args, **kwargs)
 
-    def get_corrfunc(self, kind, dm1=None, dm2=None, **kwargs):
+    def get_corrfunc(self, kind, dm1=None, dm2=None, *args, **kwargs):
         if dm1 is None:
             dm1 = self.make_rdm1()
         if dm2 is None:
             dm2 = self.make_rdm2()
-        return super().get_corrfunc(kind, dm1=dm1, dm2=dm2, **kwargs)
+        return super().get_corrfunc(kind, dm1, dm2, *args, **kwargs)
 
 
 DMET.make_rdm1.__doc__ = DMET.make_rdm1_demo.__doc__
-- 
2.43.0


From 443d1a0e1cbef09bc54598a1848e747761ea74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 43/84] fix: ssURPA.ao2mo did not accept compact

---
 vayesta/rpa/ssurpa.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vayesta/rpa/ssurpa.py b/vayesta/rpa/ssurpa.py
index eff6c31..223e0cf 100644
--- a/vayesta/rpa/ssurpa.py
+++ b/vayesta/rpa/ssurpa.py
@@ -130,22 +130,22 @@ class ssURPA(ssRPA):
         fullv[self.ova :, self.ova :] = vbb
         return fullv
 
-    def ao2mo(self, mo_coeff=None):
+    def ao2mo(self, mo_coeff=None, compact=False):
         """Get the ERIs in MO basis"""
         mo_coeff = self.mo_coeff if mo_coeff is None else mo_coeff
         # Just in case have spin dependent integrals...
         if isinstance(self.mf._eri, tuple):
-            eris_aa = pyscf.ao2mo.kernel(self.mf._eri[0], mo_coeff[0], compact=False)
-            eris_bb = pyscf.ao2mo.kernel(self.mf._eri[2], mo_coeff[1], compact=False)
+            eris_aa = pyscf.ao2mo.kernel(self.mf._eri[0], mo_coeff[0], compact=compact)
+            eris_bb = pyscf.ao2mo.kernel(self.mf._eri[2], mo_coeff[1], compact=compact)
             eris_ab = pyscf.ao2mo.kernel(
-                self.mf._eri[1], (mo_coeff[0], mo_coeff[0], mo_coeff[1], mo_coeff[1]), compact=False
+                self.mf._eri[1], (mo_coeff[0], mo_coeff[0], mo_coeff[1], mo_coeff[1]), compact=compact
             )
         else:
             # Call three-times to spin-restricted embedding
             self.log.debugv("Making (aa|aa) ERIs...")
-            eris_aa = super().ao2mo(mo_coeff[0])
+            eris_aa = super().ao2mo(mo_coeff[0], compact=compact)
             self.log.debugv("Making (bb|bb) ERIs...")
-            eris_bb = super().ao2mo(mo_coeff[1])
+            eris_bb = super().ao2mo(mo_coeff[1], compact=compact)
             self.log.debugv("Making (aa|bb) ERIs...")
-            eris_ab = super().ao2mo((mo_coeff[0], mo_coeff[0], mo_coeff[1], mo_coeff[1]))
+            eris_ab = super().ao2mo((mo_coeff[0], mo_coeff[0], mo_coeff[1], mo_coeff[1]), compact=compact)
         return (eris_aa, eris_ab, eris_bb)
-- 
2.43.0


From 5751c8120b6e41418e087e5894f4f6eb8c1d438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 44/84] fix: unrestricted electron count check did not accept
 fragments and nelec and counted fragments of different levels

---
 vayesta/core/qemb/uqemb.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index 600acd2..a11a18d 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -246,14 +246,18 @@ class UEmbedding(Embedding):
                     spin_err,
                 )
 
-    def _check_fragment_nelectron(self):
+    def _check_fragment_nelectron(self, fragments=None, nelec=None):
+        if fragments is None:
+            fragments = self.get_fragments(flags=dict(is_envelop=True))
         nelec_frags = (
-            sum([f.sym_factor * f.nelectron[0] for f in self.loop()]),
-            sum([f.sym_factor * f.nelectron[1] for f in self.loop()]),
+            sum([f.sym_factor * f.nelectron[0] for f in fragments]),
+            sum([f.sym_factor * f.nelectron[1] for f in fragments]),
         )
         self.log.info("Total number of mean-field electrons over all fragments= %.8f , %.8f", *nelec_frags)
         if abs(nelec_frags[0] - np.rint(nelec_frags[0])) > 1e-4 or abs(nelec_frags[1] - np.rint(nelec_frags[1])) > 1e-4:
             self.log.warning("Number of electrons not integer!")
+        if nelec is not None and max(abs(nelec_frags[0] - nelec[0]), abs(nelec_frags[1] - nelec[1])) > 1e-6:
+            self.log.warning("Number of mean-field electrons in fragments not equal to the target number of electrons.")
         return nelec_frags
 
     # --- Other
-- 
2.43.0


From c6dff15ab7bcbd6f2f8f0901ab694ee11dd17c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:27 +0000
Subject: [PATCH 45/84] fix: get_heff of electron-boson Hamiltonians did not
 accept with_exxdiv

---
 vayesta/solver/hamiltonian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 71b54c8..0a4c06f 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -870,8 +870,8 @@ class EB_RClusterHamiltonian(RClusterHamiltonian):
             -sum(np.multiply(self._polaritonic_shift**2, freqs)),
         )
 
-    def get_heff(self, eris=None, fock=None, with_vext=True):
-        heff = super().get_heff(eris, fock, with_vext)
+    def get_heff(self, eris=None, fock=None, with_vext=True, with_exxdiv=False):
+        heff = super().get_heff(eris, fock, with_vext, with_exxdiv)
         if self.opts.polaritonic_shift:
             fock_shift = self.get_polaritonic_fock_shift(self.unshifted_couplings)
             if not np.allclose(fock_shift[0], fock_shift[1]):
@@ -917,8 +917,8 @@ class EB_UClusterHamiltonian(UClusterHamiltonian, EB_RClusterHamiltonian):
             return self.get_polaritonic_shifted_couplings()
         return self.unshifted_couplings
 
-    def get_heff(self, eris=None, fock=None, with_vext=True):
-        heff = super().get_heff(eris, fock, with_vext)
+    def get_heff(self, eris=None, fock=None, with_vext=True, with_exxdiv=False):
+        heff = super().get_heff(eris, fock, with_vext, with_exxdiv)
 
         if self.opts.polaritonic_shift:
             fock_shift = self.get_polaritonic_fock_shift(self.unshifted_couplings)
-- 
2.43.0


From d40716e03991ed9556fca89ea3abf01b4998c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:39 +0000
Subject: [PATCH 46/84] fix: identity operation did not accept the arguments
 other symmetry operations accept

---
 vayesta/core/symmetry/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 85ffe88..5004f0f 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -149,7 +149,7 @@ class SymmetryIdentity(SymmetryOperation):
     def __repr__(self):
         return "Identity"
 
-    def __call__(self, a, **kwargs):
+    def __call__(self, a, *args, **kwargs):
         return a
 
     def apply_to_point(self, r0):
-- 
2.43.0


From 77d29a37616fc9528311f80ba4c00117f1f61185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:01 +0000
Subject: [PATCH 47/84] fix: threads raced on the largest imaginary part of the
 transformed integrals

---
 vayesta/libs/core/src/j3c_kao2gmo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vayesta/libs/core/src/j3c_kao2gmo.c b/vayesta/libs/core/src/j3c_kao2gmo.c
index 6988ef2..c0b9998 100644
--- a/vayesta/libs/core/src/j3c_kao2gmo.c
+++ b/vayesta/libs/core/src/j3c_kao2gmo.c
@@ -65,6 +65,7 @@ int64_t j3c_k2gamma(
     size_t ri, rj, rk;
     size_t idx;
     double rtmp = 0.0;
+    double rmax = 0.0;  // Largest imaginary element found by this thread
     double complex *work1 = malloc(K3N2 * sizeof(double complex));
     double complex *work2 = malloc(K3N2 * sizeof(double complex));
 
@@ -110,8 +111,8 @@ int64_t j3c_k2gamma(
             i = rk*K2N2 + a*K2N + b*K2 + rj*K + ri;
             rtmp = fabs(cimag(work1[i]));
             //printf("imaginary part = %.2e\n", rtmp);
-            if (rtmp > *max_imag) {
-                *max_imag = rtmp;
+            if (rtmp > rmax) {
+                rmax = rtmp;
             //if (rtmp > max_imag) {
                 //if (ierr == 0) {
                  //   printf("ERROR: signficant imaginary part= %.2e !\n", rtmp);
@@ -131,6 +132,13 @@ int64_t j3c_k2gamma(
         }}}}}
     }
 
+#pragma omp critical
+    {
+        if (rmax > *max_imag) {
+            *max_imag = rmax;
+        }
+    }
+
     free(work1);
     free(work2);
     }
-- 
2.43.0


From 125e62bc4999e0bd2f765d53cb4bf95851d50fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:01 +0000
Subject: [PATCH 48/84] fix: unprotected write of the error flag by all threads

---
 vayesta/libs/core/src/j3c_kao2gmo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/libs/core/src/j3c_kao2gmo.c b/vayesta/libs/core/src/j3c_kao2gmo.c
index c0b9998..c972874 100644
--- a/vayesta/libs/core/src/j3c_kao2gmo.c
+++ b/vayesta/libs/core/src/j3c_kao2gmo.c
@@ -192,6 +192,7 @@ int64_t j3c_kao2gmo(
     double complex *work2 = malloc(nao*nao * sizeof(double complex));
     if (!(work && work2)) {
         printf("Error allocating temporary memory in j3c_kao2gamma. Exiting.\n");
+#pragma omp atomic write
         ierr = 1;
     }
 // Do not perform calculation if any threads did not get memory
-- 
2.43.0


From ac75917ce5a5e83444be0adb8a4697352010c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 49/84] fix: log indentation was not restored if the
 construction of bath orbitals failed

---
 vayesta/core/bath/bno.py           | 7 +++----
 vayesta/core/bosonic_bath/bbath.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 71dd601..d46cb69 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -105,10 +105,9 @@ class BNO_Bath(Bath):
             return c_env, tuple(2 * [np.zeros(0)]), None
         self.log.info("Making %s BNOs", self.occtype.capitalize())
         self.log.info("-------%s-----", len(self.occtype) * "-")
-        self.log.changeIndentLevel(1)
-        coeff, occup, ecorr = self.make_bno_coeff()
-        self.log_histogram(occup)
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            coeff, occup, ecorr = self.make_bno_coeff()
+            self.log_histogram(occup)
         self.coeff = coeff
         self.occup = occup
         return coeff, occup, ecorr
diff --git a/vayesta/core/bosonic_bath/bbath.py b/vayesta/core/bosonic_bath/bbath.py
index 859ba1a..2d4031e 100644
--- a/vayesta/core/bosonic_bath/bbath.py
+++ b/vayesta/core/bosonic_bath/bbath.py
@@ -28,10 +28,9 @@ class Bosonic_Bath(Bath):
         mystr = "Making Bosonic Bath"
         self.log.info("%s", mystr)
         self.log.info("-" * len(mystr))
-        self.log.changeIndentLevel(1)
-        coeff, occup = self.make_boson_coeff()
-        self.log_histogram(occup)
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            coeff, occup = self.make_boson_coeff()
+            self.log_histogram(occup)
         self.coeff = coeff
         self.occup = occup
         return coeff, occup
-- 
2.43.0


From b4730d6c1835a656ac80a390569f3111b1e61431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 50/84] fix: log indentation was not restored if the
 construction of a DMET bath failed

---
 vayesta/core/bath/dmet.py | 57 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/vayesta/core/bath/dmet.py b/vayesta/core/bath/dmet.py
index e18525d..d3c3b0c 100644
--- a/vayesta/core/bath/dmet.py
+++ b/vayesta/core/bath/dmet.py
@@ -40,35 +40,34 @@ class DMET_Bath_RHF(Bath):
         # --- DMET bath
         self.log.info("Making DMET Bath")
         self.log.info("----------------")
-        self.log.changeIndentLevel(1)
-        t0 = timer()
-        c_dmet, n_dmet, c_env_occ, c_env_vir = self.make_dmet_bath(self.fragment.c_env)
-
-        # --- Separate occupied and virtual in cluster
-        cluster = [self.c_frag, c_dmet]
-        self.base._check_orthonormal(*cluster, mo_name="cluster MO")
-        tol = self.base.opts.bath_options["occupation_tolerance"]
-        c_cluster_occ, c_cluster_vir = self.fragment.diagonalize_cluster_dm(*cluster, tol=tol)
-        # Canonicalize
-        c_cluster_occ = self.fragment.canonicalize_mo(c_cluster_occ)[0]
-        c_cluster_vir = self.fragment.canonicalize_mo(c_cluster_vir)[0]
-        if self.base.is_rhf:
-            self.log.info(
-                "Cluster orbitals:  n(occ)= %3d  n(vir)= %3d", c_cluster_occ.shape[-1], c_cluster_vir.shape[-1]
-            )
-        else:
-            self.log.info(
-                "Alpha-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
-                c_cluster_occ[0].shape[-1],
-                c_cluster_vir[0].shape[-1],
-            )
-            self.log.info(
-                " Beta-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
-                c_cluster_occ[1].shape[-1],
-                c_cluster_vir[1].shape[-1],
-            )
-        self.log.timing("Time for DMET bath:  %s", time_string(timer() - t0))
-        self.log.changeIndentLevel(-1)
+        with self.log.indent():
+            t0 = timer()
+            c_dmet, n_dmet, c_env_occ, c_env_vir = self.make_dmet_bath(self.fragment.c_env)
+
+            # --- Separate occupied and virtual in cluster
+            cluster = [self.c_frag, c_dmet]
+            self.base._check_orthonormal(*cluster, mo_name="cluster MO")
+            tol = self.base.opts.bath_options["occupation_tolerance"]
+            c_cluster_occ, c_cluster_vir = self.fragment.diagonalize_cluster_dm(*cluster, tol=tol)
+            # Canonicalize
+            c_cluster_occ = self.fragment.canonicalize_mo(c_cluster_occ)[0]
+            c_cluster_vir = self.fragment.canonicalize_mo(c_cluster_vir)[0]
+            if self.base.is_rhf:
+                self.log.info(
+                    "Cluster orbitals:  n(occ)= %3d  n(vir)= %3d", c_cluster_occ.shape[-1], c_cluster_vir.shape[-1]
+                )
+            else:
+                self.log.info(
+                    "Alpha-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
+                    c_cluster_occ[0].shape[-1],
+                    c_cluster_vir[0].shape[-1],
+                )
+                self.log.info(
+                    " Beta-cluster orbitals:  n(occ)= %3d  n(vir)= %3d",
+                    c_cluster_occ[1].shape[-1],
+                    c_cluster_vir[1].shape[-1],
+                )
+            self.log.timing("Time for DMET bath:  %s", time_string(timer() - t0))
 
         self.c_dmet = c_dmet
         self.n_dmet = n_dmet
-- 
2.43.0


From c1f0e27f73632a9108167cbe70a60d3f43637467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 51/84] fix: log indentation was not restored if a DMET
 fragment calculation failed

---
 vayesta/dmet/dmet.py   | 18 ++++++++----------
 vayesta/edmet/edmet.py | 21 +++++++++------------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 5a4eb91..25e5234 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -230,16 +230,14 @@ class DMET(Embedding):
             msg = "Now running %s" % (frag)
             self.log.info(msg)
             self.log.info(len(msg) * "-")
-            self.log.changeIndentLevel(1)
-            try:
-                result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
-            except DMETFragmentExit as e:
-                exit = True
-                self.log.info("Exiting %s", frag)
-                self.log.changeIndentLevel(-1)
-                raise e
-            self.cluster_results[frag.id] = result
-            self.log.changeIndentLevel(-1)
+            with self.log.indent():
+                try:
+                    result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
+                except DMETFragmentExit as e:
+                    exit = True
+                    self.log.info("Exiting %s", frag)
+                    raise e
+                self.cluster_results[frag.id] = result
             if exit:
                 break
             # Project rdm into fragment space; currently in cluster canonical orbitals.
diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index 462d9c3..92bcb09 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -289,18 +289,15 @@ class EDMET(RDMET):
             msg = "Now running %s" % (frag)
             self.log.info(msg)
             self.log.info(len(msg) * "*")
-            self.log.changeIndentLevel(1)
-
-            try:
-                result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
-            except EDMETFragmentExit as e:
-                exit = True
-                self.log.info("Exiting %s", frag)
-                self.log.changeIndentLevel(-1)
-                raise e
-
-            self.cluster_results[frag.id] = result
-            self.log.changeIndentLevel(-1)
+            with self.log.indent():
+                try:
+                    result = frag.kernel(construct_bath=construct_bath, chempot=chempot)
+                except EDMETFragmentExit as e:
+                    exit = True
+                    self.log.info("Exiting %s", frag)
+                    raise e
+
+                self.cluster_results[frag.id] = result
             if exit:
                 break
 
-- 
2.43.0


From ebb007ae09f9642265c4ef5db84d69c2aa6ec59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 52/84] fix: fragments added after a failed symmetry or
 secondary-fragment context were recorded in it

---
 vayesta/core/fragmentation/fragmentation.py | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 395d624..a146db1 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -200,8 +200,10 @@ class Fragmentation:
         if self.secfrag_register:
             raise NotImplementedError("Rotational symmetries have to be added before adding secondary fragments")
         self.sym_register.append([])
-        yield
-        fragments = self.sym_register.pop()
+        try:
+            yield
+        finally:
+            fragments = self.sym_register.pop()
         fragments_sym = self.emb.create_rotsym_fragments(
             order, axis, center, fragments=fragments, unit=unit, symbol="R%d" % len(self.sym_register)
         )
@@ -216,8 +218,10 @@ class Fragmentation:
         if self.secfrag_register:
             raise NotImplementedError("Symmetries have to be added before adding secondary fragments")
         self.sym_register.append([])
-        yield
-        fragments = self.sym_register.pop()
+        try:
+            yield
+        finally:
+            fragments = self.sym_register.pop()
         fragments_sym = self.emb.create_invsym_fragments(center, fragments=fragments, unit=unit, symbol="I")
         self.log.info("Adding %d inversion-symmetric fragments", len(fragments_sym))
         self.fragments.extend(fragments_sym)
@@ -230,8 +234,10 @@ class Fragmentation:
         if self.secfrag_register:
             raise NotImplementedError("Symmetries have to be added before adding secondary fragments")
         self.sym_register.append([])
-        yield
-        fragments = self.sym_register.pop()
+        try:
+            yield
+        finally:
+            fragments = self.sym_register.pop()
         fragments_sym = self.emb.create_mirrorsym_fragments(
             axis, center=center, fragments=fragments, unit=unit, symbol="M"
         )
@@ -248,8 +254,10 @@ class Fragmentation:
         if self.secfrag_register:
             raise NotImplementedError("Nested secondary fragments")
         self.secfrag_register.append([])
-        yield
-        fragments = self.secfrag_register.pop()
+        try:
+            yield
+        finally:
+            fragments = self.secfrag_register.pop()
         fragments_sec = self._create_secondary_fragments(
             fragments, bno_threshold=bno_threshold, bno_threshold_factor=bno_threshold_factor, solver=solver
         )
-- 
2.43.0


From 7ca5892f42e5e68ca7f8ba201917dd673463fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 53/84] fix: log indentation was not restored if the creation
 of fragments failed

---
 vayesta/core/fragmentation/fragmentation.py | 77 +++++++++++----------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index a146db1..b8bb9b7 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -59,44 +59,51 @@ class Fragmentation:
 
     def __enter__(self):
         self.log.changeIndentLevel(1)
-        self._time0 = timer()
-        self.kernel()
+        try:
+            self._time0 = timer()
+            self.kernel()
+        except BaseException:
+            # __exit__ is not called in this case
+            self.log.changeIndentLevel(-1)
+            raise
         return self
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
-        if exc_type is not None:
-            return
-
-        if self.add_symmetric:
-            # Rotational + inversion symmetries are now done within own context
-            # Translation symmetry are done in the fragmentation context (here):
-            translation = self.emb.symmetry.translation
-            if translation is not None:
-                fragments_sym = self.emb.create_transsym_fragments(translation, fragments=self.fragments)
-                self.log.info(
-                    "Adding %d translationally-symmetry related fragments from %d base fragments",
-                    len(fragments_sym),
-                    len(self.fragments),
-                )
-                self.fragments.extend(fragments_sym)
-
-        # Add fragments to embedding class
-        self.log.debug("Adding %d fragments to embedding class", len(self.fragments))
-        self.emb.fragments.extend(self.fragments)
-
-        # Check if fragmentation is (occupied) complete and orthonormal:
-        orth = self.emb.has_orthonormal_fragmentation()
-        comp = self.emb.has_complete_fragmentation()
-        occcomp = self.emb.has_complete_occupied_fragmentation()
-        self.log.info(
-            "Fragmentation: orthogonal= %r, occupied-complete= %r, virtual-complete= %r",
-            self.emb.has_orthonormal_fragmentation(),
-            self.emb.has_complete_occupied_fragmentation(),
-            self.emb.has_complete_virtual_fragmentation(),
-        )
-        self.log.timing("Time for %s fragmentation: %s", self.name, time_string(timer() - self._time0))
-        del self._time0
-        self.log.changeIndentLevel(-1)
+        try:
+            if exc_type is not None:
+                return
+
+            if self.add_symmetric:
+                # Rotational + inversion symmetries are now done within own context
+                # Translation symmetry are done in the fragmentation context (here):
+                translation = self.emb.symmetry.translation
+                if translation is not None:
+                    fragments_sym = self.emb.create_transsym_fragments(translation, fragments=self.fragments)
+                    self.log.info(
+                        "Adding %d translationally-symmetry related fragments from %d base fragments",
+                        len(fragments_sym),
+                        len(self.fragments),
+                    )
+                    self.fragments.extend(fragments_sym)
+
+            # Add fragments to embedding class
+            self.log.debug("Adding %d fragments to embedding class", len(self.fragments))
+            self.emb.fragments.extend(self.fragments)
+
+            # Check if fragmentation is (occupied) complete and orthonormal:
+            orth = self.emb.has_orthonormal_fragmentation()
+            comp = self.emb.has_complete_fragmentation()
+            occcomp = self.emb.has_complete_occupied_fragmentation()
+            self.log.info(
+                "Fragmentation: orthogonal= %r, occupied-complete= %r, virtual-complete= %r",
+                self.emb.has_orthonormal_fragmentation(),
+                self.emb.has_complete_occupied_fragmentation(),
+                self.emb.has_complete_virtual_fragmentation(),
+            )
+            self.log.timing("Time for %s fragmentation: %s", self.name, time_string(timer() - self._time0))
+            del self._time0
+        finally:
+            self.log.changeIndentLevel(-1)
 
     # --- Adding fragments:
 
-- 
2.43.0


From 9e99b32a224de4f6d9cca361696cb16351dadab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 54/84] fix: windows stayed locked if a remote put or get
 failed

---
 vayesta/mpi/rma.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vayesta/mpi/rma.py b/vayesta/mpi/rma.py
index 6312184..282f3f4 100644
--- a/vayesta/mpi/rma.py
+++ b/vayesta/mpi/rma.py
@@ -51,8 +51,10 @@ class RMA_Dict:
             assert self.shape == data.shape
             assert self.dtype == data.dtype
             self.rma_lock()
-            self.rma_put(data)
-            self.rma_unlock()
+            try:
+                self.rma_put(data)
+            finally:
+                self.rma_unlock()
 
         def remote_init(self):
             # if self.dtype == type(None):
@@ -83,8 +85,10 @@ class RMA_Dict:
                 return None
             buf = np.empty(self.shape, dtype=self.dtype)
             self.rma_lock(shared_lock=shared_lock)
-            self.rma_get(buf)
-            self.rma_unlock()
+            try:
+                self.rma_get(buf)
+            finally:
+                self.rma_unlock()
             return buf
 
         @property
-- 
2.43.0


From f068ec63be41fc3b7c73975594ab2e7dcd7b5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 55/84] fix: population file was not closed if writing it
 failed

---
 vayesta/core/qemb/qemb.py | 42 +++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index c8a296f..4980034 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1509,25 +1509,29 @@ class Embedding:
             if dirname:
                 os.makedirs(dirname, exist_ok=True)
             f = open(filename, filemode)
-            write = lambda fmt, *args: f.write((fmt + "\n") % args)
-            tstamp = datetime.now()
-            self.log.info('Writing population analysis to file "%s". Time-stamp: %s', filename, tstamp)
-            write("# Time-stamp: %s", tstamp)
-            write("# Population analysis")
-            write("# -------------------")
-
-        for atom, charge in enumerate(charges):
-            write("%3d %-7s  q= % 11.8f  s= % 11.8f", atom, self.mol.atom_symbol(atom) + ":", charge, spins[atom])
-            if orbital_resolved:
-                aos = aoslices[atom]
-                for ao in range(aos[0], aos[1]):
-                    label = aolabels[ao]
-                    if np.ndim(pop[0]) == 1:
-                        write("    %4d %-16s= % 11.8f  % 11.8f" % (ao, label, pop[0][ao], pop[1][ao]))
-                    else:
-                        write("    %4d %-16s= % 11.8f" % (ao, label, pop[ao]))
-        if filename is not None:
-            f.close()
+
+        try:
+            if filename is not None:
+                write = lambda fmt, *args: f.write((fmt + "\n") % args)
+                tstamp = datetime.now()
+                self.log.info('Writing population analysis to file "%s". Time-stamp: %s', filename, tstamp)
+                write("# Time-stamp: %s", tstamp)
+                write("# Population analysis")
+                write("# -------------------")
+
+            for atom, charge in enumerate(charges):
+                write("%3d %-7s  q= % 11.8f  s= % 11.8f", atom, self.mol.atom_symbol(atom) + ":", charge, spins[atom])
+                if orbital_resolved:
+                    aos = aoslices[atom]
+                    for ao in range(aos[0], aos[1]):
+                        label = aolabels[ao]
+                        if np.ndim(pop[0]) == 1:
+                            write("    %4d %-16s= % 11.8f  % 11.8f" % (ao, label, pop[0][ao], pop[1][ao]))
+                        else:
+                            write("    %4d %-16s= % 11.8f" % (ao, label, pop[ao]))
+        finally:
+            if filename is not None:
+                f.close()
 
     def _check_fragment_nelectron(self, fragments=None, nelec=None):
         if fragments is None:
-- 
2.43.0


From f101827fda4bfbd1897299ef49539ee5cd6b8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 56/84] fix: cell of CubeFile was lost if its state could not
 be saved

---
 vayesta/misc/cubefile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vayesta/misc/cubefile.py b/vayesta/misc/cubefile.py
index bfdf671..c92f628 100644
--- a/vayesta/misc/cubefile.py
+++ b/vayesta/misc/cubefile.py
@@ -134,8 +134,11 @@ class CubeFile:
 
     def save_state(self, filename):
         cell, self.cell = self.cell, None  # Do not pickle cell
-        pickle.dump(self, open(filename, "wb"))
-        self.cell = cell  # Restore self.cell
+        try:
+            with open(filename, "wb") as f:
+                pickle.dump(self, f)
+        finally:
+            self.cell = cell  # Restore self.cell
 
     @classmethod
     def load_state(cls, filename, cell=None):
-- 
2.43.0


From 400cc491266925958d5e6cc7ca4a98ab9754822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 57/84] fix: an unknown type of bosonic bath was silently
 ignored

---
 vayesta/core/qemb/fragment.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 2e6ff13..b94df32 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -980,8 +980,11 @@ class Fragment:
     def make_bosonic_bath_target(self):
         """Get the target space for bosonic bath orbitals. This can either be the DMET cluster or the full space, and
         can include a projection onto the fragment."""
-        if self.opts.bosonic_bath_options["bathtype"] != "rpa":
+        bathtype = self.opts.bosonic_bath_options["bathtype"]
+        if bathtype is None:
             return None, 0
+        if bathtype != "rpa":
+            raise NotImplementedError("bosonic bathtype= %s" % bathtype)
 
         target_space = RPA_Boson_Target_Space(
             self,
@@ -993,8 +996,11 @@ class Fragment:
 
     def make_bosonic_cluster(self, m0_target):
         """Set bosonic component of the cluster."""
-        if self.opts.bosonic_bath_options["bathtype"] != "rpa":
+        bathtype = self.opts.bosonic_bath_options["bathtype"]
+        if bathtype is None:
             return
+        if bathtype != "rpa":
+            raise NotImplementedError("bosonic bathtype= %s" % bathtype)
 
         self._boson_bath_factory = RPA_QBA_Bath(self, target_m0=m0_target)
 
-- 
2.43.0


From 78bfb04779935592bcd207ebd2027e4d65edff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 58/84] fix: an unknown boundary condition was treated as
 antiperiodic in translations

---
 vayesta/core/symmetry/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/symmetry/operation.py b/vayesta/core/symmetry/operation.py
index 5004f0f..acee241 100644
--- a/vayesta/core/symmetry/operation.py
+++ b/vayesta/core/symmetry/operation.py
@@ -300,7 +300,8 @@ class SymmetryTranslation(SymmetryOperation):
 
     @property
     def boundary_phases(self):
-        return np.asarray([1 if (b.lower() == "pbc") else -1 for b in self.boundary])
+        phases = {"pbc": 1, "apbc": -1}
+        return np.asarray([phases[b.lower()] for b in self.boundary])
 
     @property
     def vector_xyz(self):
-- 
2.43.0


From cc5296cecb38b14644e3875007d1274e2ce653ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 59/84] fix: an unknown canonicalization of Brueckner orbitals
 was treated as Fock

---
 vayesta/misc/brueckner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/misc/brueckner.py b/vayesta/misc/brueckner.py
index cf5a808..ff4c9f4 100644
--- a/vayesta/misc/brueckner.py
+++ b/vayesta/misc/brueckner.py
@@ -88,6 +88,8 @@ def update_mf(mf, t1, mo_coeff=None, inplace=False, canonicalize=True, damping=0
     bmo_occ, bmo_vir = update_mo_coeff(mo_coeff, t1, ovlp, damping=damping, diis=diis)
     # Diagonalize one-electron Hamiltonian or Fock matrix within occupied and virtual space:
     if canonicalize:
+        if isinstance(canonicalize, str) and canonicalize not in ("hcore", "fock"):
+            raise ValueError("canonicalize= %r" % canonicalize)
         if canonicalize == "hcore":
             h1e = mf.get_hcore()
         else:
-- 
2.43.0


From bed2d3a71d90c1822238e739ec6ab943233a90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 60/84] fix: an unknown initial guess of the FCI solver was
 silently ignored

---
 vayesta/solver/fci.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vayesta/solver/fci.py b/vayesta/solver/fci.py
index a79d1a2..a3c98df 100644
--- a/vayesta/solver/fci.py
+++ b/vayesta/solver/fci.py
@@ -68,6 +68,8 @@ class FCI_Solver(ClusterSolver):
             ci = cisd.wf.as_fci().ci
         elif self.opts.init_guess in ["mf", "meanfield"]:
             ci = None
+        elif self.opts.init_guess is not None:
+            raise ValueError("init_guess= %r" % self.opts.init_guess)
 
         if self.opts.init_guess_noise and ci is not None:
             ci += self.opts.init_guess_noise * np.random.random(ci.shape)
@@ -114,6 +116,8 @@ class UFCI_Solver(UClusterSolver, FCI_Solver):
         if na == nb:
             super().kernel(ci)
             return
+        if self.opts.init_guess not in (None, "CISD", "mf", "meanfield"):
+            raise ValueError("init_guess= %r" % self.opts.init_guess)
         # Only consider this functionality when it's needed.
         if ci is None and self.opts.init_guess == "CISD":
             self.log.warning(
-- 
2.43.0


From 3e6c0301de292d7a6e23adf7ac84ead1b6566a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 61/84] fix: an unknown first axis of the amplitudes was
 treated as unprojected in the fragment energy

---
 vayesta/ewf/fragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 2722827..02e4ff7 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -376,6 +376,8 @@ class Fragment(BaseFragment):
         e_corr : float
             Total fragment correlation energy contribution.
         """
+        if axis1 not in ("fragment", "cluster"):
+            raise ValueError("axis1= %r" % axis1)
         if axis1 == "fragment":
             px = self.get_overlap("proj|cluster-occ")
 
-- 
2.43.0


From bac6756ecf734dfe4338930c2fd7bbb3dd9cdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 62/84] fix: an unknown first axis of the amplitudes was
 treated as unprojected in the unrestricted fragment energy

---
 vayesta/ewf/ufragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index 9690f3f..7d5ecf4 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -43,6 +43,8 @@ class Fragment(RFragment, BaseFragment):
         e_corr: float
             Total fragment correlation energy contribution.
         """
+        if axis1 not in ("fragment", "cluster"):
+            raise ValueError("axis1= %r" % axis1)
         if axis1 == "fragment":
             pxa, pxb = self.get_overlap("proj|cluster-occ")
             oaf, obf = np.s_[: pxa.shape[0]], np.s_[: pxb.shape[0]]
-- 
2.43.0


From bb81aed01a7a638457977d4df2d666c4099dc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 63/84] fix: an unknown order of the opposite-spin amplitudes
 was ignored in the unrestricted DM1

---
 vayesta/ewf/urdm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/urdm.py b/vayesta/ewf/urdm.py
index 4e633b3..d8f40f9 100644
--- a/vayesta/ewf/urdm.py
+++ b/vayesta/ewf/urdm.py
@@ -36,6 +36,8 @@ def make_rdm1_ccsd(
         (alpha, beta) one-particle reduced density matrix in AO (if `ao_basis=True`) or MO basis (default).
     """
 
+    if ba_order not in ("ab", "ba"):
+        raise ValueError("ba_order= %r" % ba_order)
     nocca, noccb = emb.nocc
     nvira, nvirb = emb.nvir
     # --- Fast algorithm via fragment-fragment loop:
-- 
2.43.0


From cffae2c10c553c727fd395f0131a0d4123a4af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 64/84] fix: an unknown order of the opposite-spin amplitudes
 was ignored in the unrestricted fragment energy

---
 vayesta/ewf/ufragment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index 7d5ecf4..d03cbe2 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -43,6 +43,8 @@ class Fragment(RFragment, BaseFragment):
         e_corr: float
             Total fragment correlation energy contribution.
         """
+        if c2ba_order not in ("ab", "ba"):
+            raise ValueError("c2ba_order= %r" % c2ba_order)
         if axis1 not in ("fragment", "cluster"):
             raise ValueError("axis1= %r" % axis1)
         if axis1 == "fragment":
-- 
2.43.0


From faa11bcec642011c4d444fa890c118519142d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 65/84] fix: an unknown name of an exchange-correlation kernel
 was taken for a kernel

---
 vayesta/rpa/rpa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/rpa/rpa.py b/vayesta/rpa/rpa.py
index 0cc43fe..ee94256 100644
--- a/vayesta/rpa/rpa.py
+++ b/vayesta/rpa/rpa.py
@@ -163,6 +163,9 @@ class RPA:
                 ),
             )
 
+        elif isinstance(xc_kernel, str):
+            raise ValueError("xc_kernel= %r" % xc_kernel)
+
         else:
             self.log.info("RPA using provided arbitrary exchange-correlation kernel.")
             assert len(xc_kernel) == 4
-- 
2.43.0


From 4425455ee30f11b99a9de204ad60eed0dbfa9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 66/84] fix: an unknown correction of the RIRPA energy was
 silently ignored

---
 vayesta/rpa/rirpa/RIRPA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index a257a61..041eea3 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -403,6 +403,8 @@ class ssRIRRPA:
                 e3 += einsum("np,np->", ri_a_xc[0], ri_a_xc[1]) - einsum("np,np->", ri_b_xc[0], ri_b_xc[1]) / 2
             elif correction.lower() == "xc_ac":
                 pass
+            else:
+                raise ValueError("correction= %r" % correction)
         self.e_corr_ss = 0.5 * (e1 + e2 - e3)
         self.log.info(
             "Total RIRPA Energy Calculation wall time:  %s",
-- 
2.43.0


From b30302498d0f5dfab06c94381234429146259fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:03 +0000
Subject: [PATCH 67/84] fix: an unknown DIIS variable of Brueckner-DMET
 silently switched DIIS off

---
 vayesta/core/scmf/brueckner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/scmf/brueckner.py b/vayesta/core/scmf/brueckner.py
index ab80905..3588f4d 100644
--- a/vayesta/core/scmf/brueckner.py
+++ b/vayesta/core/scmf/brueckner.py
@@ -13,6 +13,8 @@ class Brueckner_RHF(SCMF):
     def __init__(self, *args, diis_obj="dm1", **kwargs):
         super().__init__(*args, **kwargs)
         self.diis_obj = diis_obj.lower()
+        if self.diis_obj not in ("t1", "dm1"):
+            raise ValueError("diis_obj= %r" % diis_obj)
 
     # def get_diis(self):
     #    """PC-DIIS"""
-- 
2.43.0


From bc7ac9014ca570f0bd97c71c2cacbaecd8c0a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:40 +0000
Subject: [PATCH 68/84] fix: an unknown transformation driver failed only after
 the exit for empty orbital sets

---
 vayesta/core/ao2mo/kao2gmo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vayesta/core/ao2mo/kao2gmo.py b/vayesta/core/ao2mo/kao2gmo.py
index ca2ab4a..e608114 100644
--- a/vayesta/core/ao2mo/kao2gmo.py
+++ b/vayesta/core/ao2mo/kao2gmo.py
@@ -110,6 +110,9 @@ def kao2gmo_cderi(gdf, mo_coeffs, make_real=True, blksize=None, tril_kij=True, d
             assert ierr == 0
             return buf
 
+    else:
+        raise ValueError("Unknown driver: %r" % driver)
+
     nmo1 = mo_coeffs[0].shape[-1]
     nmo2 = mo_coeffs[1].shape[-1]
     mo1 = einsum("kR,Rai->kai", phase.conj(), mo_coeffs[0].reshape(nk, nao, nmo1))
-- 
2.43.0


From 1e3e6b01e3955f6f6922349b4fa4075e426c6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:40 +0000
Subject: [PATCH 69/84] fix: an unknown boundary condition of the 1D Hubbard
 model ended in an unrelated error

---
 vayesta/lattmod/latt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 03400ce..326873e 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -131,6 +131,8 @@ class Hubbard1D(Hubbard):
             bfac = 1
         elif boundary.upper() == "APBC":
             bfac = -1
+        else:
+            raise ValueError("Invalid boundary: %s" % boundary)
         self.bfac = bfac
         h1e = np.zeros((nsite, nsite))
         for i in range(nsite - 1):
-- 
2.43.0


From 95020ab97cfc15ebbe8081631a38859b4910a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 70/84] fix: the CISD solver reported convergence without
 looking at the CISD calculation

---
 vayesta/solver/cisd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/cisd.py b/vayesta/solver/cisd.py
index 46a7cca..aa06ad1 100644
--- a/vayesta/solver/cisd.py
+++ b/vayesta/solver/cisd.py
@@ -31,7 +31,7 @@ class RCISD_Solver(ClusterSolver):
         ecisd, civec = mycisd.kernel()
         c0, c1, c2 = mycisd.cisdvec_to_amplitudes(civec)
         self.wf = CISD_WaveFunction(self.hamil.mo, c0, c1, c2)
-        self.converged = True
+        self.converged = mycisd.converged
 
     def get_solver_class(self):
         return ci.RCISD
-- 
2.43.0


From a009fa06f9ae29f5cc7450b785c14b52d6ba7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 71/84] fix: tailored CCSD reported convergence although the
 FCI calculation it is tailored with did not converge

---
 vayesta/solver/tccsd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vayesta/solver/tccsd.py b/vayesta/solver/tccsd.py
index 8694e2d..fd84509 100644
--- a/vayesta/solver/tccsd.py
+++ b/vayesta/solver/tccsd.py
@@ -17,6 +17,10 @@ class TRCCSD_Solver(RCCSD_Solver):
         c_cas_occ: np.array = None
         c_cas_vir: np.array = None
 
+    def kernel(self, *args, **kwargs):
+        super().kernel(*args, **kwargs)
+        self.converged = self.converged and self.fci_converged
+
     def get_callback(self):
         # Just need to generate FCI soln to reduced cluster, then make callback function.
         orbs = Orbitals(hstack_matrices(self.opts.c_cas_occ, self.opts.c_cas_vir), occ=self.opts.c_cas_occ.shape[-1])
@@ -33,6 +37,7 @@ class TRCCSD_Solver(RCCSD_Solver):
             fci.v_ext = dot(r.T, self.v_ext, r)
 
         fci.kernel()
+        self.fci_converged = fci.converged
         if not fci.converged:
             self.log.error("FCI not converged!")
         wf = fci.wf.as_ccsd()
-- 
2.43.0


From d02d878b0b44afb21c758a38e39607acf157ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 72/84] fix: EDMET fragments were reported as converged
 whatever the solver did, and the electron-boson FCI solver had no flag

---
 vayesta/edmet/fragment.py            |  2 +-
 vayesta/solver/eb_fci/ebfci.py       |  4 +++-
 vayesta/solver/eb_fci/ebfci_slow.py  | 15 +++++++++++++--
 vayesta/solver/eb_fci/uebfci_slow.py | 15 +++++++++++++--
 vayesta/solver/ebfci.py              |  1 +
 5 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/vayesta/edmet/fragment.py b/vayesta/edmet/fragment.py
index 89c8988..7fa68eb 100644
--- a/vayesta/edmet/fragment.py
+++ b/vayesta/edmet/fragment.py
@@ -726,7 +726,7 @@ class EDMETFragment(DMETFragment):
             self.check_qba_approx(dm1)
         dm_eb = wf.make_rdm_eb()
         self._results = results = self.Results(
-            fid=self.id, n_active=self.cluster.norb_active, converged=True, wf=wf, dm1=dm1, dm2=dm2, dm_eb=dm_eb
+            fid=self.id, n_active=self.cluster.norb_active, converged=cluster_solver.converged, wf=wf, dm1=dm1, dm2=dm2, dm_eb=dm_eb
         )
         results.e1, results.e2, results.e_fb = self.get_edmet_energy_contrib()
 
diff --git a/vayesta/solver/eb_fci/ebfci.py b/vayesta/solver/eb_fci/ebfci.py
index 55b8728..87ea139 100644
--- a/vayesta/solver/eb_fci/ebfci.py
+++ b/vayesta/solver/eb_fci/ebfci.py
@@ -28,6 +28,7 @@ class REBFCI:
         self.freqs = freqs
         self.couplings = couplings
         self.opts = self.Options().replace(**kwargs)
+        self.converged = False
 
     @property
     def norb(self):
@@ -46,7 +47,7 @@ class REBFCI:
         h1e, eris = self.get_hamil(eris)
         couplings = self.hamil.couplings
         bos_freqs = self.hamil.bos_freqs
-        self.e_fci, self.civec = self.solver.kernel(
+        self.e_fci, self.civec, self.converged = self.solver.kernel(
             h1e,
             eris,
             couplings,
@@ -57,6 +58,7 @@ class REBFCI:
             max_occ=self.opts.max_boson_occ,
             tol=self.opts.conv_tol,
             max_cycle=self.opts.max_cycle,
+            returnconv=True,
         )
         return self.e_fci, self.civec
 
diff --git a/vayesta/solver/eb_fci/ebfci_slow.py b/vayesta/solver/eb_fci/ebfci_slow.py
index 33362f6..45857e3 100644
--- a/vayesta/solver/eb_fci/ebfci_slow.py
+++ b/vayesta/solver/eb_fci/ebfci_slow.py
@@ -320,6 +320,7 @@ def kernel(
     verbose=0,
     ecore=0,
     returnhop=False,
+    returnconv=False,
     adj_zero_pho=False,
     **kwargs,
 ):
@@ -340,8 +341,18 @@ def kernel(
     if returnhop:
         return hop, ci0, hdiag
 
-    e, c = lib.davidson(hop, ci0.reshape(-1), precond, tol=tol, max_cycle=max_cycle, verbose=verbose, **kwargs)
-    return e + ecore, c.reshape(cishape)
+    conv, e, c = lib.davidson1(
+        lambda xs: [hop(x) for x in xs],
+        ci0.reshape(-1),
+        precond,
+        tol=tol,
+        max_cycle=max_cycle,
+        verbose=verbose,
+        **kwargs,
+    )
+    if returnconv:
+        return e[0] + ecore, c[0].reshape(cishape), bool(conv[0])
+    return e[0] + ecore, c[0].reshape(cishape)
 
 
 def kernel_multiroot(
diff --git a/vayesta/solver/eb_fci/uebfci_slow.py b/vayesta/solver/eb_fci/uebfci_slow.py
index 05936d5..1c2fd06 100644
--- a/vayesta/solver/eb_fci/uebfci_slow.py
+++ b/vayesta/solver/eb_fci/uebfci_slow.py
@@ -326,6 +326,7 @@ def kernel(
     verbose=0,
     ecore=0,
     returnhop=False,
+    returnconv=False,
     adj_zero_pho=False,
     **kwargs,
 ):
@@ -345,8 +346,18 @@ def kernel(
     if returnhop:
         return hop, ci0, hdiag
 
-    e, c = lib.davidson(hop, ci0.reshape(-1), precond, tol=tol, max_cycle=max_cycle, verbose=verbose, **kwargs)
-    return e + ecore, c.reshape(cishape)
+    conv, e, c = lib.davidson1(
+        lambda xs: [hop(x) for x in xs],
+        ci0.reshape(-1),
+        precond,
+        tol=tol,
+        max_cycle=max_cycle,
+        verbose=verbose,
+        **kwargs,
+    )
+    if returnconv:
+        return e[0] + ecore, c[0].reshape(cishape), bool(conv[0])
+    return e[0] + ecore, c[0].reshape(cishape)
 
 
 def kernel_multiroot(
diff --git a/vayesta/solver/ebfci.py b/vayesta/solver/ebfci.py
index e681ad1..1991aeb 100644
--- a/vayesta/solver/ebfci.py
+++ b/vayesta/solver/ebfci.py
@@ -28,6 +28,7 @@ class EB_EBFCI_Solver(ClusterSolver):
             conv_tol=self.opts.conv_tol or 1e-12,
         )
         e_fci, civec = solver.kernel()
+        self.converged = solver.converged
         self.wf = WaveFunction(self.hamil.mo)
         self.wf.make_rdm1 = lambda *args, **kwargs: solver.make_rdm1(*args, **kwargs)
         self.wf.make_rdm2 = lambda *args, **kwargs: solver.make_rdm2(*args, **kwargs)
-- 
2.43.0


From 9fb46181ddda5b20894f50570443160adf777c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 73/84] fix: the results of DMET fragments did not tell if the
 solver had converged

---
 vayesta/dmet/fragment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/dmet/fragment.py b/vayesta/dmet/fragment.py
index d23b854..84925e8 100644
--- a/vayesta/dmet/fragment.py
+++ b/vayesta/dmet/fragment.py
@@ -82,6 +82,7 @@ class DMETFragment(Fragment):
             fid=self.id,
             wf=cluster_solver.wf,
             n_active=self.cluster.norb_active,
+            converged=cluster_solver.converged,
             dm1=cluster_solver.wf.make_rdm1(),
             dm2=cluster_solver.wf.make_rdm2(),
         )
-- 
2.43.0


From 0a9419a6214be4c1e65a6e74fb90c03890956f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 74/84] fix: DMET and EDMET were reported as converged although
 a fragment's solver had not converged

---
 vayesta/dmet/dmet.py   | 4 +++-
 vayesta/edmet/edmet.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 25e5234..f6277ab 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -209,8 +209,10 @@ class DMET(Embedding):
             delta = sum((vcorr_new - self.vcorr).reshape(-1) ** 2) ** (0.5)
             self.log.info("Delta Vcorr {:6.4e}".format(delta))
             if delta < self.opts.conv_tol:
-                self.converged = True
+                self.converged = all(f.results.converged for f in sym_parents)
                 self.log.info("DMET converged after %d iterations" % iteration)
+                if not self.converged:
+                    self.log.error("Some fragments did not converge!")
                 break
             self.vcorr = vcorr_new
         else:
diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index 92bcb09..fa1feb4 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -209,8 +209,10 @@ class EDMET(RDMET):
 
             xc_kernel_new = self.get_updated_correlation_kernel(curr_dd0, curr_dd1, sym_parents, sym_children)
             if delta < self.opts.conv_tol and delta_prop < self.opts.conv_tol:
-                self.converged = True
+                self.converged = all(f.results.converged for f in sym_parents)
                 self.log.info("EDMET converged after %d iterations" % iteration)
+                if not self.converged:
+                    self.log.error("Some fragments did not converge!")
                 break
             else:
                 self.vcorr = vcorr_new
-- 
2.43.0


From 9383296a54ad3371883e5a1e6fd4be13a1cbbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 75/84] fix: self-consistent mean-field calculations were
 reported as converged although the embedding was not, or because an earlier
 run was

---
 vayesta/core/scmf/scmf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/scmf/scmf.py b/vayesta/core/scmf/scmf.py
index 063406e..e4dea5c 100644
--- a/vayesta/core/scmf/scmf.py
+++ b/vayesta/core/scmf/scmf.py
@@ -92,6 +92,7 @@ class SCMF:
         else:
             diis = None
 
+        self.converged = False
         e_last = dm1_last = None
         for self.iteration in range(1, self.maxiter + 1):
             self.log.info("%s iteration %3d", self.name, self.iteration)
@@ -127,7 +128,9 @@ class SCMF:
             self.log.output(fmt, self.name, self.iteration, estr(de), ddm, estr(e_mf), estr(e_corr), estr(e_tot))
             if conv:
                 self.log.info("%s converged in %d iterations", self.name, self.iteration)
-                self.converged = True
+                self.converged = self.emb.converged
+                if not self.converged:
+                    self.log.error("The embedding calculation of the last %s iteration did not converge!", self.name)
                 break
             e_last, dm1_last = e_tot, dm1
 
-- 
2.43.0


From d66a7d21efcb5812ded28e29a8377cd67d5bbbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 76/84] fix: QP-EWDMET was reported as converged although the
 relaxation of the Fock matrix had not converged

---
 vayesta/core/scmf/qpewdmet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/scmf/qpewdmet.py b/vayesta/core/scmf/qpewdmet.py
index 42d71bc..8ec5a01 100644
--- a/vayesta/core/scmf/qpewdmet.py
+++ b/vayesta/core/scmf/qpewdmet.py
@@ -48,6 +48,7 @@ class QPEWDMET_RHF(SCMF):
         self.self_energy = None
         self.static_potential = None
         self.static_potential_last = None
+        self.fock_scf_converged = True
         self.static_potential_conv_tol = static_potential_conv_tol
         self.proj = proj
         self.store_hist = store_hist 
@@ -204,6 +205,7 @@ class QPEWDMET_RHF(SCMF):
             return self.emb.mf.get_hcore() + v
         mf.get_hcore = get_hcore
         e_tot = mf.kernel()
+        self.fock_scf_converged = mf.converged
 
 
         # def get_fock(dm):
@@ -234,7 +236,7 @@ class QPEWDMET_RHF(SCMF):
         if self.static_potential_last is not None:
             dv = np.abs(self.static_potential - self.static_potential_last).sum()
             if dv < self.static_potential_conv_tol:
-                return True, dv, ddm
+                return self.fock_scf_converged, dv, ddm
         return False, dv, ddm
 
     def get_greens_function(self):
-- 
2.43.0


From fb1b36927f49efb25bb38e8a0f5303d20b248a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 77/84] fix: the embedding was reported as converged although
 the chemical potential had not been found

---
 vayesta/core/qemb/qemb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 4980034..0edc26a 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1739,6 +1739,7 @@ class Embedding:
                 )
             if not bisect.converged:
                 self.log.error("Chemical potential not found!")
+                self.converged = False
             return result
 
         self.kernel = kernel.__get__(self)
-- 
2.43.0


From b69ba8aa23f3f674fe713a2fe387b7fc4786db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:53 +0000
Subject: [PATCH 78/84] fix: a repeated chemical potential search was reported
 as converged because the previous one was

---
 vayesta/misc/cptbisect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vayesta/misc/cptbisect.py b/vayesta/misc/cptbisect.py
index 812bdcf..7134c9d 100644
--- a/vayesta/misc/cptbisect.py
+++ b/vayesta/misc/cptbisect.py
@@ -16,6 +16,7 @@ class ChempotBisection:
         self.log = log or vayesta.log
 
     def kernel(self, *args, **kwargs):
+        self.converged = False
         cpt1 = self.cpt
         err1 = self.func(cpt1, *args, **kwargs)
         if abs(err1) <= self.tol:
-- 
2.43.0


From bd55540f8fbe28399ea544bb0a3ea13e3b5f2fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 79/84] fix: self-energies in the MO basis were allocated with
 the number of atomic orbitals

---
 vayesta/core/qemb/self_energy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/qemb/self_energy.py b/vayesta/core/qemb/self_energy.py
index 25cbd64..94c1970 100644
--- a/vayesta/core/qemb/self_energy.py
+++ b/vayesta/core/qemb/self_energy.py
@@ -37,9 +37,9 @@ def make_self_energy_moments(emb, n_se_mom, use_sym=True, proj=1, eta=1e-2):
     """
 
     fock = emb.get_fock()
-    static_self_energy = np.zeros_like(fock)
+    static_self_energy = np.zeros((emb.nmo, emb.nmo))
     static_potential = np.zeros_like(fock)
-    self_energy_moms = np.zeros((n_se_mom, fock.shape[1], fock.shape[1]))
+    self_energy_moms = np.zeros((n_se_mom, emb.nmo, emb.nmo))
 
     if use_sym:
         fragments = emb.get_fragments(contributes=True, sym_parent=None)
@@ -148,7 +148,7 @@ def make_self_energy_1proj(emb, use_sym=True, use_svd=True, eta=1e-2, aux_shift_
     """
 
     fock = emb.get_fock()
-    static_self_energy = np.zeros_like(fock)
+    static_self_energy = np.zeros((emb.nmo, emb.nmo))
     static_potential = np.zeros_like(fock)
     energies = []
     if use_svd:
@@ -288,7 +288,7 @@ def make_self_energy_2proj(emb, use_sym=True, eta=1e-2):
     """
 
     fock = emb.get_fock()
-    static_self_energy = np.zeros_like(fock)
+    static_self_energy = np.zeros((emb.nmo, emb.nmo))
     static_potential = np.zeros_like(fock)
     couplings, energies = [], []
 
-- 
2.43.0


From fb16b76276f650684db29dca34d3d50fd637e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 80/84] fix: inter-cluster MP2 subtracted the beta-alpha part
 of the negative-definite integrals from the alpha-beta block

---
 vayesta/ewf/icmp2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/icmp2.py b/vayesta/ewf/icmp2.py
index 3808dcd..1549eb4 100644
--- a/vayesta/ewf/icmp2.py
+++ b/vayesta/ewf/icmp2.py
@@ -385,7 +385,7 @@ def get_intercluster_mp2_energy_uhf(emb, bno_threshold=1e-9, direct=True, exchan
                 if cx.cderi_neg is not None:
                     eris_aa -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[0])
                     eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[1])
-                    eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
+                    eris_ba -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
                     eris_bb -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[1])
                 # Alpha-alpha
                 eijab_aa = eia_xa[:, None, :, None] + eia_ya[None, :, None, :]
-- 
2.43.0


From 5dde77bdc438a80d19995ae196f1e5f222540ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 81/84] fix: without symmetrisation, the beta-beta correction
 of the projected 2-DM used the beta-alpha amplitudes

---
 vayesta/ewf/ufragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index d03cbe2..82f5f0c 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -170,7 +170,7 @@ class Fragment(RFragment, BaseFragment):
         ) / 2
         d2ovov[1][:] += dtau.transpose(0, 2, 1, 3)
         # dOVOV:
-        dtau = (t2x[2] - t2[2] + einsum("ia,jb->ijab", t1x[1] - t1[1], 2 * t1[1])) / 4
+        dtau = (t2x[-1] - t2[-1] + einsum("ia,jb->ijab", t1x[1] - t1[1], 2 * t1[1])) / 4
         d2ovov[3][:] += dtau.transpose(0, 2, 1, 3)
         d2ovov[3][:] -= dtau.transpose(0, 3, 1, 2)
         d2 = (d2ovov, *d2)
-- 
2.43.0


From fef124fa81549e92f7b5b62212df655eebf36b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 82/84] fix: without cRPA excitations, the screening arrays did
 not have the size of the cluster

---
 vayesta/core/screening/screening_crpa.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vayesta/core/screening/screening_crpa.py b/vayesta/core/screening/screening_crpa.py
index f8fa88d..df0e06f 100644
--- a/vayesta/core/screening/screening_crpa.py
+++ b/vayesta/core/screening/screening_crpa.py
@@ -15,6 +15,12 @@ class cRPAError(RuntimeError):
     pass
 
 
+def _get_cluster_size(fragment):
+    """Number of alpha and beta orbitals of the fragment's cluster."""
+    norb = fragment.cluster.norb_active
+    return (norb, norb) if isinstance(norb, (int, np.integer)) else norb
+
+
 def get_frag_W(mf, fragment, pcoupling=True, only_ov_screened=False, log=None):
     """Generates screened coulomb interaction due to screening at the level of cRPA.
     Note that this currently scales as O(N_frag N^6), so is not practical without further refinement.
@@ -41,8 +47,8 @@ def get_frag_W(mf, fragment, pcoupling=True, only_ov_screened=False, log=None):
         l_a, l_b, crpa = set_up_W_crpa(mf, fragment, pcoupling, only_ov_screened, log=log)
     except cRPAError as e:
         freqs = np.zeros((0,))
-        nmo = mf.mo_coeff.shape[1]
-        couplings = (np.zeros((0, nmo, nmo)), np.zeros((0, nmo, nmo)))
+        na, nb = _get_cluster_size(fragment)
+        couplings = (np.zeros((0, na, na)), np.zeros((0, nb, nb)))
     else:
         freqs = crpa.freqs_ss
         couplings = (l_a, l_b)
@@ -76,8 +82,8 @@ def get_frag_deltaW(mf, fragment, pcoupling=True, only_ov_screened=False, log=No
     try:
         l_a, l_b, crpa = set_up_W_crpa(mf, fragment, pcoupling, only_ov_screened=only_ov_screened, log=log)
     except cRPAError as e:
-        nmo = mf.mo_coeff.shape[1]
-        delta_w = tuple([np.zeros([nmo] * 4)] * 4)
+        na, nb = _get_cluster_size(fragment)
+        delta_w = (np.zeros([na] * 4), np.zeros((na, na, nb, nb)), np.zeros([nb] * 4))
         crpa = None
     else:
         # Have a factor of -2 due to negative value of RPA dd response, and summation of
-- 
2.43.0


From ed906c904d52600dfbbb30ea03d2502a0b86284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:56 +0000
Subject: [PATCH 83/84] fix: the beta-alpha block of unrestricted 2-DM wave
 functions was taken from the wrong block, with the axes of amplitudes

---
 vayesta/core/types/wf/rdm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index eb848e7..bb48431 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -136,7 +136,7 @@ class URDM_WaveFunction(RRDM_WaveFunction):
     def dm2ba(self):
         if len(self.dm2) == 4:
             return self.dm2[2]
-        return self.dm2[2].transpose(1, 0, 3, 2)
+        return self.dm2[1].transpose(2, 3, 0, 1)
     
     @property
     def dm2bb(self):
@@ -222,7 +222,12 @@ class URDM_WaveFunction(RRDM_WaveFunction):
     def project(self, projector, inplace):
         wf = self if inplace else self.copy()
         wf.dm1 = project_uc1(wf.dm1, projector)
-        wf.dm2 = project_uc2(wf.dm2, projector)
+        wf.dm2 = (
+            project_c2(wf.dm2aa, projector[0]),
+            project_c2(wf.dm2ab, projector[0]),
+            project_c2(wf.dm2ba, projector[1]),
+            project_c2(wf.dm2bb, projector[1]),
+        )
         wf.projector = projector
         return wf
 
-- 
2.43.0


From ca1fc8e11c6cabed0f2709fd5a922fb7dfa61201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:46 +0000
Subject: [PATCH 84/84] fix: the compressed beta-beta Cholesky vectors of a
 cluster were those of the alpha channel

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 0a4c06f..6d0bcd9 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -737,7 +737,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
                 return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[0]))
+            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
             if cderi_neg[0] is not None:
                 cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
             if cderi_neg[1] is not None:
-- 
2.43.0

