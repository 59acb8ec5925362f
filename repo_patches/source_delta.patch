From cf82a944e12b8513a6a756e812a54a12a94b8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:52 +0000
Subject: [PATCH 01/28] fix: compare symmetry with == so that any 'spin' string
 doubles leads and baths

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
-- 
2.43.0


From 1eeaf7bbcddef0b5a05a34fd289b5e8d58b95332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 02/28] fix: keep tleads_array and Tba0 in step with changed
 tunneling amplitudes

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..e630061 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From f4c4bc6cee73a896e9fa3107894d0bf9db1f5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 03/28] fix: allow repeated removal of Fock states with 'Lin'
 indexing and reset the state order

---
 qmeq/indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..beb4c72 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -625,7 +625,8 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        # For 'Lin' indexing chargelst does not contain Lin indices anymore after the first removal
+        chargelst_lin = construct_chargelst(self.nsingle) if self.indexing == 'Lin' else self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
@@ -662,6 +663,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From be7302969c74e458cb8a5e1e6d7c99b8c4baaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 04/28] fix: do not append to the caller's list of states when
 setting statesdm

---
 qmeq/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index beb4c72..96a48eb 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -720,7 +720,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1098,7 +1098,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From 02fc4b0fe657fb0a2d85691e5019f189ced53bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 05/28] fix: state queries of diagonal-only approaches, removed
 states and absent amplitudes

---
 qmeq/builder/various.py | 49 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..8c76acf 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -99,26 +99,24 @@ def get_phi0(self, b_, bp_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    b = self.si.states_order[b_]
-    bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    si = self.si
+    b = si.states_order[b_]
+    bp = si.states_order[bp_]
+    bcharge = si.ind_qn[b][0]
+    bpcharge = si.ind_qn[bp][0]
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
-        if b == bp:
-            ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
-            phi0bbp = self.phi0[ind]
-    elif bcharge == bpcharge:
-        ind = self.si.get_ind_dm0(b, bp, bcharge, maptype=1)
-        conj = self.si.get_ind_dm0(b, bp, bcharge, maptype=3)
+    # There are no elements between different charges or for the removed states
+    if bcharge == bpcharge and b in si.statesdm[bcharge] and bp in si.statesdm[bcharge]:
+        ind = si.get_ind_dm0(b, bp, bcharge, maptype=1)
         if ind != -1:
-            if type(self.si).__name__ == 'StateIndexingDMc':
+            if type(si).__name__ == 'StateIndexingDMc' or ind < si.npauli:
                 phi0bbp = self.phi0[ind]
-            else:
-                ndm0, npauli = self.si.ndm0, self.si.npauli
+            # Some approaches (Pauli, RTD) have just the diagonal elements
+            elif len(self.phi0) > si.npauli:
+                conj = si.get_ind_dm0(b, bp, bcharge, maptype=3)
+                ndm0, npauli = si.ndm0, si.npauli
                 phi0bbp = (self.phi0[ind] + 1j*self.phi0[ndm0-npauli+ind]
-                           * (+1 if conj else -1)
-                           * (0 if ind < npauli else 1))
+                           * (+1 if conj else -1))
     return phi0bbp
 
 
@@ -141,19 +139,24 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    # Some approaches (Pauli, Lindblad, RTD) have no current amplitudes
+    if self.phi1 is None:
         return None
     else:
-        c = self.si.states_order[c_]
-        b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        si = self.si
+        c = si.states_order[c_]
+        b = si.states_order[b_]
+        ccharge = si.ind_qn[c][0]
+        bcharge = si.ind_qn[b][0]
         phi1cb = 0.0
+        # There are no amplitudes for the removed states
+        if c not in si.statesdm[ccharge] or b not in si.statesdm[bcharge]:
+            return phi1cb
         if ccharge == bcharge+1:
-            ind = self.si.get_ind_dm1(c, b, bcharge)
+            ind = si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
         elif ccharge+1 == bcharge:
-            ind = self.si.get_ind_dm1(b, c, ccharge)
+            ind = si.get_ind_dm1(b, c, ccharge)
             phi1cb = self.phi1[l, ind].conjugate()
         return phi1cb
 
-- 
2.43.0


From 13f060455723bab9e89363d38a0010cb1996fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 06/28] fix: do not append to the caller's list when sorting
 eigenstates

---
 qmeq/builder/various.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 8c76acf..9a03803 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -76,7 +76,7 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt)+[-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
-- 
2.43.0


From 7baaeb36339be4a02f901368138c4e5f3cc0533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 07/28] fix: removed coherences are excluded from the
 enumeration of density matrix elements

---
 qmeq/builder/various.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 9a03803..c29e4a5 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -264,6 +264,7 @@ def remove_coherences(self, dE):
             b, bp = si.inddm0[ind]
             if abs(E[b]-E[bp]) > dE:
                 si.mapdm0[i] = -1
+                si.booldm0[i] = False
             else:
                 ilst.append(i)
                 indlst.append(ind)
@@ -281,8 +282,13 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        if si.booldm0[ilst[i]]:
+            inddm0.update({int(indlst[i]): si.inddm0[int(si.mapdm0[ilst[i]])]})
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From c5df873ff59a7862b1a9ebb753f84d4a0037e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 08/28] fix: allow setting solmethod before the arrays are
 prepared

---
 qmeq/approach/aprclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..ddf6a79 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -66,7 +66,9 @@ class Approach(object):
     @solmethod.setter
     def solmethod(self, value):
         self.funcp.solmethod = value
-        self.prepare_solver()
+        # Without the prepared arrays the solver gets determined in prepare_kern()
+        if self.is_prepared:
+            self.prepare_solver()
 
     @property
     def mfreeq(self):
-- 
2.43.0


From ab3cebc1db33ec142c56fe73259448f74cc11b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 09/28] fix: switching mfreeq after a solve prepares the arrays
 and the solver anew

---
 qmeq/approach/aprclass.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index ddf6a79..416f39c 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -75,6 +75,9 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if value == self.funcp.mfreeq:
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
 
     @property
@@ -199,14 +202,15 @@ class Approach(object):
         solmethod = self.funcp.solmethod
         # Determine the proper solution method
         if self.funcp.mfreeq:
-            solmethod = solmethod if solmethod is not None else 'krylov'
+            if solmethod is None or solmethod in {'solve', 'lsqr', 'lsmr'}:
+                solmethod = 'krylov'
             self.funcp.solmethod = solmethod
             return
 
         symq = self.funcp.symq
-        if solmethod is None:
+        if solmethod not in {'solve', 'lsqr'}:
             solmethod = 'solve' if symq else 'lsqr'
-        if not symq and solmethod != 'lsqr' and solmethod != 'lsmr':
+        if not symq and solmethod != 'lsqr':
             print("WARNING: Using solmethod=lsqr, because the kernel is not symmetric, symq=False.")
             solmethod = 'lsqr'
 
-- 
2.43.0


From e0a48283e3b946574ca6eca17571063d975e25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 10/28] fix: use the current arrays in compiled approaches
 after reassignment

---
 qmeq/approach/base/c_RTD.pyx | 15 +++++++--------
 qmeq/approach/c_aprclass.pxd |  2 ++
 qmeq/approach/c_aprclass.pyx | 21 ++++++++++++++-------
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..94e1537 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -120,14 +120,7 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.set_parameter_views()
 
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
@@ -140,8 +133,14 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
+    cdef void set_parameter_views(self):
+        Approach.set_parameter_views(self)
+        self._tleads_array = self.leads.tleads_array
+
+
     cdef void clean_arrays(self):
         self.ImGamma = False
+        self.set_parameter_views()
 
         if not self._mfreeq:
             self._kern[::1] = 0.0
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..d5453fd 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -64,6 +64,8 @@ cdef class Approach:
 
     cdef void clean_arrays(self)
 
+    cdef void set_parameter_views(self)
+
     cpdef void solve_kern(self)
 
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..850e47b 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -128,6 +128,16 @@ cdef class Approach:
         self._energy_current[::1] = 0.0
         self._heat_current[::1] = 0.0
 
+        self.set_parameter_views()
+
+    cdef void set_parameter_views(self):
+        self._tlst = self.leads.tlst
+        self._mulst = self.leads.mulst
+        self._dlst = self.leads.dlst
+
+        self._Ea = self.qd.Ea
+        self._Tba = self.leads.Tba
+
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
 
@@ -141,12 +151,7 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.set_parameter_views()
 
     def prepare_kernel_handler(self):
         if self.funcp.mfreeq:
@@ -291,7 +296,9 @@ cdef class ApproachElPh(Approach):
         self._Vbbp = self.baths.Vbbp
 
     cdef void clean_arrays(self):
-        pass
+        self._tlst_ph = self.baths.tlst_ph
+        self._dlst_ph = self.baths.dlst_ph
+        self._Vbbp = self.baths.Vbbp
 
     def restart(self):
         ApproachElPhPy.restart(self)
-- 
2.43.0


From 55c8f2797939c2e5ac41519bd5af1dc96b99fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 11/28] fix: RTD with restricted states and with corrections
 switched on later

---
 qmeq/approach/base/RTD.py    | 40 ++++++++++++------------
 qmeq/approach/base/c_RTD.pxd |  1 +
 qmeq/approach/base/c_RTD.pyx | 59 ++++++++++++++++++++++--------------
 3 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..adafa82 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -66,22 +66,23 @@ class ApproachPyRTD(Approach):
 
         self.W2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype)
 
+        self.ImGamma = False
         self.generate_LN()
         self.LE = np.zeros((kern_size, kern_size), dtype=self.dtype)
 
-        if self.off_diag_corrections:
-            kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
-            self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        # Note that the corrections can be switched on and off between the solutions
+        kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
+        self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         kh.set_matrix_list()
 
@@ -96,12 +97,11 @@ class ApproachPyRTD(Approach):
         self.W2.fill(0.0)
         self.LE.fill(0.0)
 
-        if self.off_diag_corrections:
-            self.ReWnd.fill(0.0)
-            self.ImWnd.fill(0.0)
-            self.ReWdn.fill(0.0)
-            self.ImWdn.fill(0.0)
-            self.Lnn.fill(0.0)
+        self.ReWnd.fill(0.0)
+        self.ImWnd.fill(0.0)
+        self.ReWdn.fill(0.0)
+        self.ImWdn.fill(0.0)
+        self.Lnn.fill(0.0)
 
     def generate_kern(self):
         r""" Generates all kernels including tunnel processes of orders :math:`t^2` and :math:`t^4`.
@@ -213,7 +213,7 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = 2 * np.array([self.qd.Ea[b] for states in self.si.statesdm for b in states])
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pxd b/qmeq/approach/base/c_RTD.pxd
index 75ede3f..2276bb5 100644
--- a/qmeq/approach/base/c_RTD.pxd
+++ b/qmeq/approach/base/c_RTD.pxd
@@ -23,6 +23,7 @@ cdef class ApproachRTD(Approach):
     cdef long_t nbr_Wdd2_copies
 
     cpdef long_t get_kern_size(self)
+    cdef void prepare_off_diag_arrays(self)
     cdef void add_off_diag_corrections(self, KernelHandlerRTD)
     cdef void generate_row_1st_order_kernel(self, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_row_1st_energy_kernel(self, long_t, long_t, KernelHandlerRTD) nogil
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 94e1537..cf6caaf 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -79,7 +77,10 @@ cdef class ApproachRTD(Approach):
         cdef long_t nleads = kh.nleads
         cdef long_t ndm1 = kh.ndm1
         cdef long_t kern_size = self.get_kern_size()
-        cdef long_t kern_size2
+
+        self.ImGamma = False
+        # For parallel
+        self.nbr_Wdd2_copies = min(kh.npauli, openmp.omp_get_max_threads())
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
@@ -89,25 +90,9 @@ cdef class ApproachRTD(Approach):
 
         self.generate_LN()
 
+        self.ReWnd = None
         if self.funcp.off_diag_corrections:
-            kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
-            self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
-
-            self._ReWnd = self.ReWnd
-            self._ImWnd = self.ImWnd
-            self._ReWdn = self.ReWdn
-            self._ImWdn = self.ImWdn
-            self._Lnn = self.Lnn
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+            self.prepare_off_diag_arrays()
 
         self._kern = self.kern
         self._bvec = self.bvec
@@ -133,6 +118,33 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
+    cdef void prepare_off_diag_arrays(self):
+        cdef KernelHandlerRTD kh = self._kernel_handler
+
+        cdef long_t nleads = kh.nleads
+        cdef long_t kern_size = self.get_kern_size()
+        cdef long_t kern_size2
+
+        kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
+        self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
+
+        self._ReWnd = self.ReWnd
+        self._ImWnd = self.ImWnd
+        self._ReWdn = self.ReWdn
+        self._ImWdn = self.ImWdn
+        self._Lnn = self.Lnn
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
+
+
     cdef void set_parameter_views(self):
         Approach.set_parameter_views(self)
         self._tleads_array = self.leads.tleads_array
@@ -157,6 +169,9 @@ cdef class ApproachRTD(Approach):
         self._Wdd2[::1] = 0.0
 
         if self.funcp.off_diag_corrections:
+            # The corrections may have been switched on after the preparation
+            if self.ReWnd is None:
+                self.prepare_off_diag_arrays()
             self._ReWnd[::1] = 0.0
             self._ImWnd[::1] = 0.0
             self._ReWdn[::1] = 0.0
@@ -260,7 +275,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From 6f2dd54a75a8f82f0c609b71e05b8b28f5501bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 12/28] fix: construct the system with a custom approach class

---
 qmeq/builder/builder_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..9d26ebb 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -125,7 +125,6 @@ class BuilderBase(object):
             self.Approach = self.globals['Approach'+approach_string]
         elif issubclass(kerntype, Approach):
             self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
 
     def _init_create_setup(self):
         data = self.data
-- 
2.43.0


From b56de9e67adae3cfcf6f34c283048baa84e91396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 13/28] fix: switching the approach keeps the states, baths and
 their order

---
 qmeq/builder/builder_base.py | 13 ++++++++++++-
 qmeq/builder/builder_elph.py | 13 +++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 9d26ebb..647aa34 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -165,11 +165,22 @@ class BuilderBase(object):
         icn = self.Approach.indexing_class_name
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
-            self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self.si = self.create_si(self.globals[icn])
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def create_si(self, si_class):
+        """Creates state indexing of a given class, which has the same states as self.si."""
+        si = self.si
+        si_new = si_class(si.nsingle, si.indexing, si.symmetry, si.nleads)
+        si_new.nbaths = si.nbaths
+        if si.removed_fock_states is not None:
+            si_new.remove_fock_states(np.flatnonzero(si.removed_fock_states))
+        si_new.states_order = si.states_order
+        si_new.set_statesdm(si.statesdm[:si.ncharge])
+        return si_new
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..6d911fa 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -37,7 +37,7 @@ except ImportError:
 
 attribute_map_elph = dict(
     # StateIndexing
-    baths='si', velph='baths',
+    nbaths='si', velph='baths',
     # PhononBaths
     tlst_ph='baths', dlst_ph='baths',
     Vbbp='baths', bath_func='baths',
@@ -112,14 +112,11 @@ class BuilderElPh(BuilderBase):
 
     def change_si(self):
         BuilderBase.change_si(self)
+        self.baths.si = self.si
         self.create_si_elph()
 
     def create_si_elph(self):
-        si = self.si
-        si_elph = StateIndexingDMc(si.nsingle, si.indexing,
-                                   si.symmetry, si.nleads)
-        si_elph.nbaths = si.nbaths
-        self.si_elph = si_elph
+        self.si_elph = self.create_si(StateIndexingDMc)
 
     def add(self,
             hsingle=None, coulomb=None, tleads=None, mulst=None, tlst=None, dlst=None,
@@ -139,6 +136,10 @@ class BuilderElPh(BuilderBase):
         BuilderBase.remove_states(self, dE)
         self.si_elph.set_statesdm(self.si.statesdm)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm)
+
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
-- 
2.43.0


From c11f9696ee9539bbcbc84ace60db19ba050bbd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 14/28] fix: many-body input with any charge offset,
 restriction, queries and approach switching

---
 qmeq/builder/builder_base.py | 42 +++++++++++++++++++++++++-----------
 qmeq/builder/builder_elph.py |  1 +
 qmeq/builder/various.py      |  2 +-
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 647aa34..350bb96 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -8,6 +8,7 @@ from ..wrappers.mytypes import longnp
 from ..approach.aprclass import Approach
 from ..indexing import StateIndexingDM
 from ..indexing import StateIndexingDMc
+from ..indexing import make_quantum_numbers
 from ..qdot import QuantumDot
 from ..leadstun import LeadsTunneling
 from .funcprop import FunctionProperties
@@ -325,6 +326,8 @@ class BuilderManyBody(BuilderBase):
         nleads by nmany by nmany array, which contains many-body tunneling amplitude matrix.
     """
 
+    Na = None
+
     def __init__(self,
                  Ea=None, Na=[0], Tba=None,
                  mulst={}, tlst={}, dband={}, kpnt=None,
@@ -349,21 +352,34 @@ class BuilderManyBody(BuilderBase):
         self.qd.Ea = Ea
         self.leads.Tba = Tba
 
+    def create_si(self, si_class):
+        si_new = BuilderBase.create_si(self, si_class)
+        if self.Na is not None:
+            self._set_many_body_states(si_new, self.si.nmany)
+            si_new.states_order = self.si.states_order
+            si_new.set_statesdm(self.si.statesdm[:self.si.ncharge])
+        return si_new
+
     def _init_state_indexing(self, Na, Ea):
-        Na = np.array(Na, dtype=int)
-        nmin, nmax = Na.min(), Na.max()
-        ncharge = nmax-nmin+1
+        self.Na = np.array(Na, dtype=int)
         nmany = len(Ea) if Ea is not None else 0
+        self._set_many_body_states(self.si, nmany)
+
+    def _set_many_body_states(self, si, nmany):
+        nmin, nmax = self.Na.min(), self.Na.max()
+        ncharge = nmax-nmin+1
 
         statesdm = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
-
-        self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+            statesdm[self.Na[i]-nmin].append(i)
+
+        si.nmany = nmany
+        si.ncharge = ncharge
+        si.chargelst = statesdm
+        si.qn_ind, si.ind_qn = make_quantum_numbers(si)
+        si.states_order = list(range(nmany))
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(statesdm)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index 6d911fa..c1b5d2a 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -184,6 +184,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self._set_many_body_states(self.si_elph, self.si.nmany)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index c29e4a5..1c99c11 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -307,7 +307,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From 73fcecc3326267468a3c1e668e3641eb7bd4244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 15/28] fix: zero Coulomb elements in lists given to change()
 and Coulomb arrays of any type

---
 qmeq/qdot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..a46cf67 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,10 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            if isinstance(coulomb, np.ndarray):
+                # All entries of an array have the type of U
+                m, n, k, l = [int(np.real(i)) for i in (m, n, k, l)]
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +842,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 0485cca4f79e0afef0b7d558bef0e181838812e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 16/28] fix: validate approach, integral type and matrix-free
 mode at construction and on switching

---
 qmeq/approach/aprclass.py    |  7 ++++++-
 qmeq/approach/c_aprclass.pyx |  2 +-
 qmeq/builder/builder_base.py | 25 +++++++++++++++++++------
 qmeq/builder/builder_elph.py |  8 ++++++++
 qmeq/builder/validation.py   |  4 ++--
 5 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 416f39c..3595824 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -75,6 +75,9 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        # Imported here, because the builder package imports this module
+        from ..builder.validation import validate_mfreeq
+        value = validate_mfreeq(self.kerntype, value)
         if value == self.funcp.mfreeq:
             return
         self.is_prepared = False
@@ -102,7 +105,9 @@ class Approach(object):
         return self.funcp.itype
     @itype.setter
     def itype(self, value):
-        self.funcp.itype = value
+        # Imported here, because the builder package imports this module
+        from ..builder.validation import validate_itype
+        self.funcp.itype = validate_itype(value, self.kerntype)
 
     #endregion Properties
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 850e47b..faac001 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -49,7 +49,7 @@ cdef class Approach:
     @mfreeq.setter
     def mfreeq(self, value):
         ApproachPy.mfreeq.fset(self, value)
-        self._mfreeq = value
+        self._mfreeq = self.funcp.mfreeq
 
     @property
     def symq(self):
diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 350bb96..1a323cf 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -24,6 +24,7 @@ from .various import use_all_states
 
 from .validation import validate_kerntype
 from .validation import validate_itype
+from .validation import validate_mfreeq
 from .validation import validate_indexing
 
 # -----------------------------------------------------------
@@ -110,12 +111,16 @@ class BuilderBase(object):
 
     def _init_validate_data(self):
         data = self.data
+        data.kerntype = self.validate_kerntype(data.kerntype)
         data.itype = validate_itype(data.itype, data.kerntype)
-        data.kerntype = validate_kerntype(data.kerntype)
+        data.mfreeq = validate_mfreeq(data.kerntype, data.mfreeq)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
                                           data.kerntype)
 
+    def validate_kerntype(self, kerntype):
+        return validate_kerntype(kerntype)
+
     def _init_set_globals(self):
         self.globals = globals()
 
@@ -124,7 +129,8 @@ class BuilderBase(object):
         if isinstance(kerntype, str):
             approach_string = kerntype[0].capitalize() + kerntype[1:]
             self.Approach = self.globals['Approach'+approach_string]
-        elif issubclass(kerntype, Approach):
+        else:
+            # Custom approach class, either derived from the Python or the compiled Approach
             self.Approach = kerntype
 
     def _init_create_setup(self):
@@ -188,16 +194,23 @@ class BuilderBase(object):
 
     def set_kerntype(self, value):
         if isinstance(value, str):
+            value = self.validate_kerntype(value)
             if self.appr.kerntype != value:
+                indexing, symmetry = validate_indexing(self.si.indexing, self.si.symmetry, value)
+                if indexing != self.si.indexing:
+                    print('WARNING: Keeping kerntype=\''+self.appr.kerntype+'\', because indexing=\''
+                          + self.si.indexing+'\' cannot be changed.')
+                    return
+                self.funcp.itype = validate_itype(self.funcp.itype, value)
+                self.funcp.mfreeq = validate_mfreeq(value, self.funcp.mfreeq)
                 approach_string = value[0].capitalize() + value[1:]
                 self.Approach = self.globals['Approach'+approach_string]
                 self.change_si()
                 self.appr = self.Approach(self)
         else:
-            if issubclass(value, Approach):
-                self.Approach = value
-                self.change_si()
-                self.appr = self.Approach(self)
+            self.Approach = value
+            self.change_si()
+            self.appr = self.Approach(self)
     kerntype = property(get_kerntype, set_kerntype)
 
     # indexing
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index c1b5d2a..302b305 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -95,6 +95,14 @@ class BuilderElPh(BuilderBase):
         data = self.data
         data.itype_ph = validate_itype_ph(data.itype_ph)
 
+    def validate_kerntype(self, kerntype):
+        kerntype = BuilderBase.validate_kerntype(self, kerntype)
+        if kerntype in {'RTD', 'pyRTD'}:
+            print("WARNING: Electron-phonon coupling is not supported by the RTD approach. " +
+                  "Using default kerntype=\'Pauli\'.")
+            kerntype = 'Pauli'
+        return kerntype
+
     def _init_set_globals(self):
         self.globals = globals()
 
diff --git a/qmeq/builder/validation.py b/qmeq/builder/validation.py
index 9135908..c60f7a0 100644
--- a/qmeq/builder/validation.py
+++ b/qmeq/builder/validation.py
@@ -32,8 +32,8 @@ def validate_itype_ph(itype_ph):
     return itype_ph
 
 def validate_mfreeq(kerntype, mfreeq):
-    if mfreeq and kerntype in {'RTD', 'pyRTD'}:
-        print("WARNING: mfreeq=True is not supported by the RTD approach. Using default mfreeq=False.")
+    if mfreeq and kerntype in {'RTD', 'pyRTD', '2vN', 'py2vN'}:
+        print("WARNING: mfreeq=True is not supported by the " + kerntype + " approach. Using default mfreeq=False.")
         mfreeq = False
     return mfreeq
 
-- 
2.43.0


From e321b447c9eb74c330b552ca1bbe73d599283275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 17/28] fix: in-scattering term of the compiled Lindblad
 approach with phonons

---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..4779640 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From a467cdffec2d4abbb5f484c5440e842e6e628361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 18/28] fix: switching the approach of many-body systems with
 states in any order

---
 qmeq/builder/builder_base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 1a323cf..2d1c4ad 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -366,11 +366,15 @@ class BuilderManyBody(BuilderBase):
         self.leads.Tba = Tba
 
     def create_si(self, si_class):
-        si_new = BuilderBase.create_si(self, si_class)
-        if self.Na is not None:
-            self._set_many_body_states(si_new, self.si.nmany)
-            si_new.states_order = self.si.states_order
-            si_new.set_statesdm(self.si.statesdm[:self.si.ncharge])
+        # The builder has no many-body states yet during the initialisation
+        if self.Na is None:
+            return BuilderBase.create_si(self, si_class)
+        si = self.si
+        si_new = si_class(si.nsingle, si.indexing, si.symmetry, si.nleads)
+        si_new.nbaths = si.nbaths
+        self._set_many_body_states(si_new, si.nmany)
+        si_new.states_order = si.states_order
+        si_new.set_statesdm(si.statesdm[:si.ncharge])
         return si_new
 
     def _init_state_indexing(self, Na, Ea):
-- 
2.43.0


From 5f93d98cb9109be688911df057354436a4fb690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 19/28] fix: RTD corrections with removed coherences

---
 qmeq/approach/c_kernel_handler.pyx | 3 +++
 qmeq/approach/kernel_handler.py    | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..d22444a 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,9 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        # Removed coherences do not contribute
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..d661f41 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -293,6 +293,9 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        # Removed coherences do not contribute
+        if indx1 == -1 or indx2 == -1:
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
@@ -392,7 +395,11 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        # Removed coherences do not contribute
+        if indx == -1:
+            return
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From 847c6a733bdc079df9ee013a1360b4e3e03c3af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 20/28] fix: poles and residues of RTD follow bandwidth and
 temperature

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index adafa82..468d354 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -929,7 +929,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index cf6caaf..e2a9ec5 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -979,6 +979,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From 285715c907d2215d0c97dde943318e0695057dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 21/28] fix: compiled approaches with real tunneling matrices
 (mtype_leads=float)

---
 qmeq/approach/base/c_lindblad.pyx | 3 +--
 qmeq/approach/base/c_neumann2.pyx | 2 +-
 qmeq/approach/c_aprclass.pyx      | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..438e624 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -38,8 +38,7 @@ cdef class ApproachLindblad(Approach):
 
     cdef void prepare_arrays(self):
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..bd17823 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -108,7 +108,7 @@ cdef class TermsCalculator2vN:
         self.Ek_grid_ext = self.appr.Ek_grid_ext
 
         self.Ea = self.appr.qd.Ea
-        self.Tba = self.appr.leads.Tba
+        self.Tba = np.asarray(self.appr.leads.Tba, dtype=complexnp)
 
         self.fkp = self.appr.fkp
         self.fkm = self.appr.fkm
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index faac001..7587460 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -136,7 +136,7 @@ cdef class Approach:
         self._dlst = self.leads.dlst
 
         self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self._Tba = np.asarray(self.leads.Tba, dtype=complexnp)
 
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
-- 
2.43.0


From f0ac20b8de884ca11fc07952270e6446088ac968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 22/28] fix: extended energy grid of the 2vN approach covers
 the two-electron terms for bands that are not symmetric

---
 qmeq/approach/base/neumann2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 4e69f90..9223aab 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -168,8 +168,8 @@ class Approach2vN(ApproachBase2vN):
                 lst.append(dmin-E[b]+E[bp])
         for charge in range(si.ncharge-2):
             for d, b in itertools.product(si.statesdm[charge+2], si.statesdm[charge]):
-                lst.append(dmin+E[d]-E[b])
-                lst.append(dmax+E[d]-E[b])
+                lst.append(-dmin+E[d]-E[b])
+                lst.append(-dmax+E[d]-E[b])
 
         self.funcp.emax = max(lst)
         self.funcp.emin = min(lst)
-- 
2.43.0


From ec365397d25209498848570c885736e6fc14c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 23/28] fix: energies at the edges of the 2vN grid were dropped
 depending on rounding

---
 qmeq/approach/base/neumann2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 9223aab..cbc4cdd 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -195,8 +195,8 @@ class Approach2vN(ApproachBase2vN):
         step = Ek_grid[1]-Ek_grid[0]
         emin = ext_fct*(emin_-dmin)+dmin
         emax = ext_fct*(emax_-dmax)+dmax
-        ext_left = np.sort(-np.arange(-dmin+step, -emin+step, step))
-        ext_right = np.arange(dmax+step, emax+step, step)
+        ext_left = np.sort(-np.arange(-dmin+step, -emin+1.5*step, step))
+        ext_right = np.arange(dmax+step, emax+1.5*step, step)
 
         self.Ek_grid_ext = np.concatenate((ext_left, Ek_grid, ext_right))
         self.funcp.kpnt_left, self.funcp.kpnt_right = len(ext_left), len(ext_right)
-- 
2.43.0


From d8c7f5f5caf1341d9be96c9172062046c0c62476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:38 +0000
Subject: [PATCH 24/28] fix: RTD compares temperatures of leads relative to
 their size

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/specfunc/c_specfunc.pyx | 4 ++--
 qmeq/specfunc/specfunc.py    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 468d354..abd95ce 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -122,7 +122,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..8d86f3b 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -322,7 +322,7 @@ cdef complex_t integralD(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -339,7 +339,7 @@ cdef complex_t integralX(double_t p1, double_t eta1, double_t E1, double_t E2, d
             double_t T2, double_t mu1, double_t mu2, double_t D, double_t[:,:] b_and_R, bint ImGamma) nogil:
     cdef complex_t ret
     cdef double_t lambda1, lambda2, lambda3
-    if fabs(T2-T1) < TMIN and not ImGamma:
+    if fabs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) /T1
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..44a901f 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -494,7 +494,7 @@ def integralD(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
     TMIN = 1e-5
-    if abs(T2-T1) < TMIN and not ImGamma:
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - mu1) /T1
@@ -543,7 +543,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
     """
 
     TMIN = 1e-10
-    if abs(T2-T1) < TMIN and not ImGamma:
+    if abs(T2-T1) < TMIN*T1 and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
         lambda3 = (E3 - eta1*mu2) / T1
-- 
2.43.0


From 43116207a73895bc9c0f00f8a8e56628b9104a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 25/28] fix: RTD regularises degenerate states relative to the
 temperature

---
 qmeq/approach/base/RTD.py    |  2 +-
 qmeq/approach/base/c_RTD.pyx | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index abd95ce..6f175a0 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -905,7 +905,7 @@ class ApproachPyRTD(Approach):
         # Variables names follow Leijnse et al PRB 78, 235424 (2008).
         E = self.qd.Ea
 
-        minE = 1e-10
+        minE = 1e-10*max(self.leads.tlst)
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index e2a9ec5..7a5361a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -961,10 +961,16 @@ cdef class ApproachRTD(Approach):
 
 
     cdef void generate_row_inverse_Liouvillian(self, long_t a1, long_t b1, long_t charge, KernelHandlerRTD kh) nogil:
-        cdef double_t minE, E1
+        cdef double_t minE, E1, maxTemp
         cdef double_t [:] E = self._Ea
+        cdef double_t [:] tlst = self._tlst
+        cdef long_t i
 
-        minE = 1e-10
+        maxTemp = 0.0
+        for i in range(kh.nleads):
+            if tlst[i] > maxTemp:
+                maxTemp = tlst[i]
+        minE = 1e-10*maxTemp
         E1 = E[a1] - E[b1]
         if minE > E1 >= 0:
             E1 = minE
-- 
2.43.0


From cda43ba55ae64a1e7ccf1d12bdd4dc99af6bde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 26/28] fix: update_Tba0 and update_Vbbp0 kept a reference to
 the containers of the caller

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 9bc9b95..4a49736 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -330,6 +330,6 @@ class PhononBaths(object):
         """
         si = self.si
         si.nbaths = nbaths
-        self.velph = make_velph_dict(velph, si)
+        self.velph = dict(make_velph_dict(velph, si))
         self.mtype = mtype
         self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index e630061..5faae9e 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -547,7 +547,7 @@ class LeadsTunneling(object):
         si = self.si
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
-        self.tleads = make_tleads_dict(tleads, si)
+        self.tleads = dict(make_tleads_dict(tleads, si))
         self.tleads_array = make_tleads_array(self.tleads, self.si)
         self.mtype = mtype
         self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From f3ce2ca7baa35f8f9db4f2c98fba6dcc66ebe755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 27/28] fix: matrix-free solution methods which keep the
 residual (lm, df-sane) saw it overwritten and gave wrong results

---
 qmeq/approach/aprclass.py    | 2 +-
 qmeq/approach/c_aprclass.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 3595824..f753327 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -300,7 +300,7 @@ class Approach(object):
 
         self.dphi0_dt[norm_row] = norm-1
 
-        return self.dphi0_dt
+        return np.array(self.dphi0_dt)
 
     #endregion Generation
 
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7587460..36f0c60 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -227,7 +227,7 @@ cdef class Approach:
 
         self._dphi0_dt[norm_row] = norm-1
 
-        return self._dphi0_dt
+        return np.array(self._dphi0_dt)
 
 
     #endregion Generation
-- 
2.43.0


From cbaa47ebb37bd6706d5ec59d08f7c924a9f39c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 28/28] fix: currents of a matrix-free solution were those of
 the last trial vector instead of the solution

---
 qmeq/approach/aprclass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index f753327..ec5f426 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -363,6 +363,9 @@ class Approach(object):
             self.phi0.fill(0.0)
             self.success = False
 
+        # The kernel handler has been acting on the trial vectors
+        self.kernel_handler.set_phi0(self.phi0)
+
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
         phi0_init[0] = 1.0
-- 
2.43.0

