From 6b922e262b7ad7aa331620cb1e904d0dcf26b55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 01/44] fix: remove_coherences relabels inddm0 and announces
 the change of states

A second call used the labels from before the first one, and an already
prepared approach kept arrays of the old size.
---
 qmeq/builder/various.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 18ed2c6..f2b2595 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -278,8 +278,12 @@ def remove_coherences(self, dE):
     # Relabel the density matrix elements
     si.ndm0 = count+1
     si.ndm0r = 2*si.ndm0-si.npauli
+    inddm0 = {}
     for i in range(len(indlst)):
+        inddm0[indlst[i]] = si.inddm0[si.mapdm0[ilst[i]]]
         si.mapdm0[ilst[i]] = indlst[i]
+    si.inddm0 = inddm0
+    si.states_changed = True
 
 
 def remove_states(self, dE):
-- 
2.43.0


From d8c8354facaded4aa563be92d83b2afc75f7674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 02/44] fix: set_statesdm of Pauli and 2vN indexing does not
 append to the caller's list

use_all_states() handed over chargelst, which grew with every call.
---
 qmeq/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 0a9f834..22116d3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -718,7 +718,7 @@ class StateIndexingPauli(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.npauli_ = 0
         for j1 in range(self.ncharge):
@@ -1096,7 +1096,7 @@ class StateIndexingDMc(StateIndexing):
         statesdm: list
             List containing indices of many-body state under consideration.
         """
-        self.statesdm = statesdm
+        self.statesdm = list(statesdm)
         self.statesdm.append([])
         self.ndm0_, self.ndm1_, self.npauli_ = 0, 0, 0
         for j1 in range(self.ncharge):
-- 
2.43.0


From 1d48b3de419f01d3a8b66d51288099eb54f78df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 03/44] fix: approach switches and many-body systems keep
 consistent state indexing

Switching to or from 2vN dropped removed Fock states, removed states and the
number of baths; for many-body systems remove_states, use_all_states and such a
switch used the indexing of a system without states.
---
 qmeq/builder/builder_base.py | 47 ++++++++++++++++++++++++++----------
 qmeq/builder/various.py      |  2 +-
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index c8e0ff3..4bbb19e 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -167,10 +167,19 @@ class BuilderBase(object):
         # noinspection PyTypeHints
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
+            self._copy_si_state(si, self.si)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
 
+    def _copy_si_state(self, si_old, si):
+        """Transfers the number of baths and the state restrictions to a new state indexing object."""
+        si.nbaths = si_old.nbaths
+        si.states_order = si_old.states_order
+        if si_old.removed_fock_states is not None:
+            si.remove_fock_states(np.flatnonzero(si_old.removed_fock_states))
+        si.set_statesdm(si_old.statesdm[:si_old.ncharge])
+
     # kerntype
     def get_kerntype(self):
         return self.appr.kerntype
@@ -315,6 +324,8 @@ class BuilderManyBody(BuilderBase):
         nleads by nmany by nmany array, which contains many-body tunneling amplitude matrix.
     """
 
+    Na = None
+
     def __init__(self,
                  Ea=None, Na=[0], Tba=None,
                  mulst={}, tlst={}, dband={}, kpnt=None,
@@ -340,20 +351,30 @@ class BuilderManyBody(BuilderBase):
         self.leads.Tba = Tba
 
     def _init_state_indexing(self, Na, Ea):
-        Na = np.array(Na, dtype=int)
+        self.Na = np.array(Na, dtype=int)
+        self.nmany = len(Ea) if Ea is not None else 0
+        self._set_many_body_indexing(self.si)
+
+    def _set_many_body_indexing(self, si):
+        """Makes the state indexing object describe the given many-body states."""
+        Na, nmany = self.Na, self.nmany
         nmin, nmax = Na.min(), Na.max()
         ncharge = nmax-nmin+1
-        nmany = len(Ea) if Ea is not None else 0
 
-        statesdm = [[] for _ in range(ncharge)]
+        chargelst = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            statesdm[Na[i]].append(i)
-
-        self.Na = Na
-        self.si.nmany = nmany
-        self.si.ncharge = ncharge
-        self.si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
-        self.si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
-        self.si.lenlst = np.zeros(ncharge, dtype=longnp)
-        self.si.dictdm = np.zeros(nmany, dtype=longnp)
-        self.si.set_statesdm(statesdm)
+            chargelst[Na[i]].append(i)
+
+        si.nmany = nmany
+        si.ncharge = ncharge
+        si.chargelst = chargelst
+        si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
+        si.shiftlst1 = np.zeros(ncharge, dtype=longnp)
+        si.lenlst = np.zeros(ncharge, dtype=longnp)
+        si.dictdm = np.zeros(nmany, dtype=longnp)
+        si.set_statesdm(chargelst)
+
+    def _copy_si_state(self, si_old, si):
+        if self.Na is not None:
+            self._set_many_body_indexing(si)
+        BuilderBase._copy_si_state(self, si_old, si)
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index f2b2595..cb20c8e 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -302,7 +302,7 @@ def remove_states(self, dE):
         (Modifies) List containing indices of many-body state under consideration.
     """
     Emax = min(self.qd.Ea)+dE
-    statesdm = [[] for _ in range(self.si.nsingle+1)]
+    statesdm = [[] for _ in range(self.si.ncharge)]
     for charge in range(self.si.ncharge):
         for b in self.si.chargelst[charge]:
             if self.qd.Ea[b] < Emax:
-- 
2.43.0


From c871413bf72947adb6d76badd46aad093e238b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 04/44] fix: keep the phonon state indexing in step with the
 electronic one

It was built for zero levels in BuilderManyBodyElPh, forgot restrictions at
approach switches and was not reset by use_all_states; the attribute map sent
'baths' instead of 'nbaths' to the state indexing.
---
 qmeq/builder/builder_elph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index e67122f..c05bee5 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -37,7 +37,7 @@ except ImportError:
 
 attribute_map_elph = dict(
     # StateIndexing
-    baths='si', velph='baths',
+    nbaths='si', velph='baths',
     # PhononBaths
     tlst_ph='baths', dlst_ph='baths',
     Vbbp='baths', bath_func='baths',
@@ -112,13 +112,14 @@ class BuilderElPh(BuilderBase):
 
     def change_si(self):
         BuilderBase.change_si(self)
+        self.baths.si = self.si
         self.create_si_elph()
 
     def create_si_elph(self):
         si = self.si
         si_elph = StateIndexingDMc(si.nsingle, si.indexing,
                                    si.symmetry, si.nleads)
-        si_elph.nbaths = si.nbaths
+        self._copy_si_state(si, si_elph)
         self.si_elph = si_elph
 
     def add(self,
@@ -139,6 +140,10 @@ class BuilderElPh(BuilderBase):
         BuilderBase.remove_states(self, dE)
         self.si_elph.set_statesdm(self.si.statesdm)
 
+    def use_all_states(self):
+        BuilderBase.use_all_states(self)
+        self.si_elph.set_statesdm(self.si.statesdm)
+
     def remove_fock_states(self, lin_state_indices):
         BuilderBase.remove_fock_states(self, lin_state_indices)
         self.baths._init_coupling()
@@ -183,6 +188,7 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
             indexing='charge')
 
         self._init_state_indexing(Na, Ea)
+        self._set_many_body_indexing(self.si_elph)
 
         self.qd.Ea = Ea
         self.leads.Tba = Tba
-- 
2.43.0


From c8b018210d2ad75f95642cd2cb8816225b51a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 05/44] fix: compiled approaches use the present parameter
 arrays at every solve

The typed views were taken once when the work arrays were allocated, so that an
assigned mulst, tlst, dlst, Ea, Tba, Vbbp or bath parameter was ignored.
---
 qmeq/approach/base/c_RTD.pyx | 14 ++++++--------
 qmeq/approach/c_aprclass.pxd |  2 ++
 qmeq/approach/c_aprclass.pyx |  9 +++++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index b2584bd..511a216 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -120,14 +120,7 @@ cdef class ApproachRTD(Approach):
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
-        self._tlst = self.leads.tlst
-        self._tleads_array = self.leads.tleads_array
-
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
-
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self.set_parameter_views()
 
         self._Wdd = self.Wdd2[0,...]
         self._WE1 = self.WE1
@@ -140,6 +133,11 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
+    cdef void set_parameter_views(self):
+        Approach.set_parameter_views(self)
+        self._tleads_array = self.leads.tleads_array
+
+
     cdef void clean_arrays(self):
         self.ImGamma = False
 
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 1cd4ba8..8074c4e 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -62,6 +62,8 @@ cdef class Approach:
 
     cdef void prepare_arrays(self)
 
+    cdef void set_parameter_views(self)
+
     cdef void clean_arrays(self)
 
     cpdef void solve_kern(self)
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 7274314..bfc9d41 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -103,6 +103,7 @@ cdef class Approach:
 
     cpdef void prepare_kern(self):
         if self.is_prepared and not self.si.states_changed:
+            self.set_parameter_views()
             self.clean_arrays()
             return
 
@@ -141,6 +142,10 @@ cdef class Approach:
         self._energy_current = self.energy_current
         self._heat_current = self.heat_current
 
+        self.set_parameter_views()
+
+    cdef void set_parameter_views(self):
+        """Makes the views point to the present parameter arrays."""
         self._tlst = self.leads.tlst
         self._mulst = self.leads.mulst
         self._dlst = self.leads.dlst
@@ -286,6 +291,10 @@ cdef class ApproachElPh(Approach):
         self._kernel_handler.elph = self.kernel_handler_elph
 
     cdef void prepare_arrays(self):
+        pass
+
+    cdef void set_parameter_views(self):
+        Approach.set_parameter_views(self)
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
-- 
2.43.0


From 81f6a18c6a41e2afd6d65994dde20e2ea1eefc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 06/44] fix: RTD allocates its per-thread copies when the work
 arrays are prepared

The number was fixed at construction from the number of states at that time
(zero levels for many-body systems), and too small afterwards.
---
 qmeq/approach/base/c_RTD.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 511a216..8c8136a 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -56,8 +56,6 @@ cdef class ApproachRTD(Approach):
         self.ImGamma = False
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
-        # For parallel
-        self.nbr_Wdd2_copies = min(self.si.npauli, openmp.omp_get_max_threads())
 
     cpdef long_t get_kern_size(self):
         return self._kernel_handler.npauli
@@ -83,6 +81,8 @@ cdef class ApproachRTD(Approach):
 
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
         self.rez = np.zeros(2, dtype=doublenp)
+        # One copy for every thread, which can get a part of the loop over the states
+        self.nbr_Wdd2_copies = max(1, openmp.omp_get_max_threads())
         self.Wdd2 = np.zeros((self.nbr_Wdd2_copies, nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE1 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
         self.WE2 = np.zeros((nleads, kern_size, kern_size), dtype=self.dtype, order='F')
-- 
2.43.0


From b509589793ea47768591ede253b0668240fb5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 07/44] fix: RTD energy currents use the energies of the states
 taking part

The i-th kept state was given the energy of state number i.
---
 qmeq/approach/base/RTD.py    | 4 +++-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a5d1a10..86f9400 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -213,7 +213,9 @@ class ApproachPyRTD(Approach):
         """
         kh = self.kernel_handler
         nleads = self.si.nleads
-        LE = 2 * self.qd.Ea
+        LE = 2 * np.array([self.qd.Ea[a] for charge in range(self.si.ncharge)
+                           for a in self.si.statesdm[charge]
+                           if self.si.get_ind_dm0(a, a, charge, 2)])
 
         current = np.zeros(nleads, dtype=doublenp)
         energy_current = np.zeros(nleads, dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 8c8136a..ae2fbbd 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -259,7 +259,7 @@ cdef class ApproachRTD(Approach):
         LE = np.zeros(kh.npauli, dtype=doublenp)
 
         for i in range(kh.npauli):
-            LE[i] = 2.0 * Ea[i]
+            LE[i] = 2.0 * Ea[kh.all_bbp[i, 0]]
 
         for l in range(nleads):
             current[l] = 0.5 * np.dot(self.LN, np.dot(kh.Wdd.base[l, :, :], self.phi0))
-- 
2.43.0


From d83b0062219a32a639f1b42538a67bfc13097f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 08/44] fix: off-diagonal corrections of RTD can be switched on
 after a solve

The arrays were allocated only if the option was set when the work arrays were
prepared.
---
 qmeq/approach/base/RTD.py    | 36 +++++++++++++--------------
 qmeq/approach/base/c_RTD.pyx | 48 +++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 44 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 86f9400..a2d6a69 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -69,19 +69,18 @@ class ApproachPyRTD(Approach):
         self.generate_LN()
         self.LE = np.zeros((kern_size, kern_size), dtype=self.dtype)
 
-        if self.off_diag_corrections:
-            kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
-            self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
-            self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        kern_size2 = 2 * self.si.ndm0 - 2 * self.si.npauli
+        self.ReWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ImWnd = np.zeros((nleads, kern_size2, kern_size), dtype=self.dtype)
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype)
+        self.Lnn = np.zeros((kern_size2, kern_size2), dtype=self.dtype)
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         kh.set_matrix_list()
 
@@ -96,12 +95,11 @@ class ApproachPyRTD(Approach):
         self.W2.fill(0.0)
         self.LE.fill(0.0)
 
-        if self.off_diag_corrections:
-            self.ReWnd.fill(0.0)
-            self.ImWnd.fill(0.0)
-            self.ReWdn.fill(0.0)
-            self.ImWdn.fill(0.0)
-            self.Lnn.fill(0.0)
+        self.ReWnd.fill(0.0)
+        self.ImWnd.fill(0.0)
+        self.ReWdn.fill(0.0)
+        self.ImWdn.fill(0.0)
+        self.Lnn.fill(0.0)
 
     def generate_kern(self):
         r""" Generates all kernels including tunnel processes of orders :math:`t^2` and :math:`t^4`.
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index ae2fbbd..abf47b6 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -89,25 +89,24 @@ cdef class ApproachRTD(Approach):
 
         self.generate_LN()
 
-        if self.funcp.off_diag_corrections:
-            kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
-            self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
-            self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
-            self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
-
-            self._ReWnd = self.ReWnd
-            self._ImWnd = self.ImWnd
-            self._ReWdn = self.ReWdn
-            self._ImWdn = self.ImWdn
-            self._Lnn = self.Lnn
-
-            kh.ReWnd = self.ReWnd
-            kh.ImWnd = self.ImWnd
-            kh.ReWdn = self.ReWdn
-            kh.ImWdn = self.ImWdn
-            kh.Lnn = self.Lnn
+        kern_size2 = 2 * kh.ndm0 - 2 * kh.npauli
+        self.ReWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ImWnd = np.zeros((kern_size2, kern_size), dtype=self.dtype, order='F')
+        self.ReWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.ImWdn = np.zeros((nleads, kern_size, kern_size2), dtype=self.dtype, order='F')
+        self.Lnn = np.zeros(kern_size2, dtype=self.dtype)
+
+        self._ReWnd = self.ReWnd
+        self._ImWnd = self.ImWnd
+        self._ReWdn = self.ReWdn
+        self._ImWdn = self.ImWdn
+        self._Lnn = self.Lnn
+
+        kh.ReWnd = self.ReWnd
+        kh.ImWnd = self.ImWnd
+        kh.ReWdn = self.ReWdn
+        kh.ImWdn = self.ImWdn
+        kh.Lnn = self.Lnn
 
         self._kern = self.kern
         self._bvec = self.bvec
@@ -155,12 +154,11 @@ cdef class ApproachRTD(Approach):
         self._WE2[::1] = 0.0
         self._Wdd2[::1] = 0.0
 
-        if self.funcp.off_diag_corrections:
-            self._ReWnd[::1] = 0.0
-            self._ImWnd[::1] = 0.0
-            self._ReWdn[::1] = 0.0
-            self._ImWdn[::1] = 0.0
-            self._Lnn[::1] = 0.0
+        self._ReWnd[::1] = 0.0
+        self._ImWnd[::1] = 0.0
+        self._ReWdn[::1] = 0.0
+        self._ImWdn[::1] = 0.0
+        self._Lnn[::1] = 0.0
 
 
     cpdef void generate_kern(self):
-- 
2.43.0


From 0282b3920742928700c60466cc3c38619e470b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 09/44] fix: RTD leaves out removed coherences

Their index is -1; the compiled approach wrote outside of its arrays.
---
 qmeq/approach/c_kernel_handler.pyx | 2 ++
 qmeq/approach/kernel_handler.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 0396d79..d789ca8 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -272,6 +272,8 @@ cdef class KernelHandlerRTD(KernelHandler):
                     long_t bcharge, long_t a, long_t ap, long_t acharge, int_t mi) nogil:
         cdef long_t indx1 = self.get_ind_dm0(b, bp, bcharge)
         cdef long_t indx2 = self.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:  # Neglected coherence
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 6ba4fad..1c30d5e 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -293,6 +293,8 @@ class KernelHandlerRTD(KernelHandler):
 
         indx1 = self.si.get_ind_dm0(b, bp, bcharge)
         indx2 = self.si.get_ind_dm0(a, ap, acharge)
+        if indx1 == -1 or indx2 == -1:  # Neglected coherence
+            return
         if b != bp:
             indx1 -= self.npauli
             if b > bp:
-- 
2.43.0


From 2560e220be82fd4c5c16f924755cfb376c7f5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 10/44] fix: compiled kernel handler does not list removed
 coherences

They were written past the end of the list of elements, and elements behind them
were dropped from the kernel.
---
 qmeq/approach/c_kernel_handler.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index d789ca8..7440e18 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -85,7 +85,7 @@ cdef class KernelHandler:
                         continue
                     b = self.statesdm[bcharge, i]
                     bp = self.statesdm[bcharge, j]
-                    if self.is_unique(b, bp, bcharge):
+                    if self.is_included(b, bp, bcharge) and self.is_unique(b, bp, bcharge):
                         self.all_bbp[ind, 0] = b
                         self.all_bbp[ind, 1] = bp
                         self.all_bbp[ind, 2] = bcharge
-- 
2.43.0


From 8eb14e595857d8b682653f11fe75d9285b811888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 11/44] fix: switching mfreeq on a solved system prepares for
 the new mode

The arrays and the kernel handler of the other mode stayed in use, together with
a solution method the new mode does not know.
---
 qmeq/approach/aprclass.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 98a6ddd..33643dc 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -73,7 +73,13 @@ class Approach(object):
         return self.funcp.mfreeq
     @mfreeq.setter
     def mfreeq(self, value):
+        if bool(value) == bool(self.funcp.mfreeq):
+            return
+        self.is_prepared = False
         self.funcp.mfreeq = value
+        # A direct solution method cannot be used for a matrix-free solution and vice versa
+        if (self.funcp.solmethod in {'solve', 'lsqr'}) == bool(value):
+            self.funcp.solmethod = None
 
     @property
     def symq(self):
-- 
2.43.0


From 8c5f35484ced62240541a364540469fcd867eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 12/44] fix: solmethod of a compiled approach can be set before
 the first solve

The LAPACK solver was created for a kernel which did not exist yet.
---
 qmeq/approach/c_aprclass.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index bfc9d41..c5a3081 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -163,7 +163,7 @@ cdef class Approach:
 
     def prepare_solver(self):
         ApproachPy.prepare_solver(self)
-        if self.funcp.mfreeq:
+        if self.funcp.mfreeq or self.kern is None:
             return
 
         solmethod = self.funcp.solmethod
-- 
2.43.0


From a84b49a85fb6240c0be4f6504e75f43a945f71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 13/44] fix: make_kern_copy takes effect on an already prepared
 system

---
 qmeq/approach/c_aprclass.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index c5a3081..2d5e680 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -87,6 +87,7 @@ cdef class Approach:
     @make_kern_copy.setter
     def make_kern_copy(self, value):
         self._make_kern_copy = value
+        self.is_prepared = False
 
     #endregion Properties
 
-- 
2.43.0


From 6ee4c92c80f163f52dfdae67253009aa37dd45c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 14/44] fix: compare symmetry and itype by value

---
 qmeq/baths.py                     | 2 +-
 qmeq/leadstun.py                  | 4 ++--
 qmeq/specfunc/c_specfunc_elph.pyx | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 38bb530..81cc39a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -164,7 +164,7 @@ def make_velph_dict(velph, si, add_zeros=False):
     else:
         velph_dict = {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         velph_dict_spin = dict(velph_dict)
         for j0 in velph_dict:
             j1, j2, j3 = j0
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 41622c7..baf672d 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -284,7 +284,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
     else:
         return {}
     #
-    if si.symmetry is 'spin':
+    if si.symmetry == 'spin':
         tleads_dict_spin = dict(tleads_dict)
         for j0 in tleads_dict:
             j1, j2 = j0
@@ -356,7 +356,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
     else:
         lst_arr = np.zeros(npar, dtype=doublenp)
     #
-    if si.symmetry is 'spin' and use_symmetry:
+    if si.symmetry == 'spin' and use_symmetry:
         return np.concatenate((lst_arr, lst_arr))
     else:
         return lst_arr
diff --git a/qmeq/specfunc/c_specfunc_elph.pyx b/qmeq/specfunc/c_specfunc_elph.pyx
index 7e9c586..cdb4054 100644
--- a/qmeq/specfunc/c_specfunc_elph.pyx
+++ b/qmeq/specfunc/c_specfunc_elph.pyx
@@ -97,7 +97,7 @@ cdef class Func1vNElPh:
         self.T = T
         if self.bath_func_q:
             self.dos = self.bath_func[l]
-        if self.itype is 0:
+        if self.itype == 0:
             self.val0, err = quad(self.iplus, Rm, Rp,
                                   weight='cauchy', wvar=alpha,
                                   epsabs=1.0e-6, epsrel=1.0e-6, limit=self.limit)
@@ -106,6 +106,6 @@ cdef class Func1vNElPh:
                                   weight='cauchy', wvar=alpha,
                                   epsabs=1.0e-6, epsrel=1.0e-6, limit=self.limit)
             self.val1 = self.val1 + (-1.0j*pi*self.iminus(alpha) if Rm < alpha < Rp else 0)
-        elif self.itype is 2:
+        elif self.itype == 2:
             self.val0 = -1.0j*pi*self.iplus(alpha) if Rm < alpha < Rp else 0
             self.val1 = -1.0j*pi*self.iminus(alpha) if Rm < alpha < Rp else 0
-- 
2.43.0


From d8f766e75870cc722c0302343aed16990148b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 15/44] fix: coulomb elements given as a list or array can be
 changed to zero

---
 qmeq/qdot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 7ab2f5d..0cd0085 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -624,7 +624,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
         return hsingle_dict
 
 
-def make_coulomb_dict(qd, coulomb):
+def make_coulomb_dict(qd, coulomb, add_zeros=False):
     """
     Makes Coulomb matrix element dictionary.
 
@@ -634,6 +634,8 @@ def make_coulomb_dict(qd, coulomb):
         Contains coulomb matrix elements.
     qd : QuantumDot
         QuantumDot object.
+    add_zeros : bool
+        Flag indicating whether to add zeros to dictionary.
 
     Returns
     -------
@@ -649,7 +651,8 @@ def make_coulomb_dict(qd, coulomb):
         coulomb_dict = {}
         for j0 in coulomb:
             m, n, k, l, U = j0
-            if U != 0:
+            m, n, k, l = [int(np.real(j1)) for j1 in (m, n, k, l)]
+            if U != 0 or add_zeros:
                 coulomb_dict.update({(m, n, k, l): U})
     else:
         return {}
@@ -837,7 +840,7 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
-        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
         hsingle_add = {}
         coulomb_add = {}
-- 
2.43.0


From 24d515eb47496594123da893fce6ae5f4766e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 16/44] fix: tleads_array and update_Tba0/update_Vbbp0 follow
 the stored single-particle amplitudes

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 81cc39a..9bc9b95 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -332,4 +332,4 @@ class PhononBaths(object):
         si.nbaths = nbaths
         self.velph = make_velph_dict(velph, si)
         self.mtype = mtype
-        self.Vbbp0 = elph_construct_Vbbp(self, velph)
+        self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index baf672d..808427a 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -507,6 +507,7 @@ class LeadsTunneling(object):
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
                         self.tleads.update({j0: tleads_diff})
+            self.tleads_array = make_tleads_array(self.tleads, self.si)
             # Add the differences
             self.add(tleads_add, updateq=False, lstq=False)
 
@@ -547,6 +548,6 @@ class LeadsTunneling(object):
         si.nleads = nleads
         si.nleads_sym = nleads//2 if si.symmetry == 'spin' else nleads
         self.tleads = make_tleads_dict(tleads, si)
-        self.tleads_array = make_tleads_array(tleads, self.si)
+        self.tleads_array = make_tleads_array(self.tleads, si)
         self.mtype = mtype
-        self.Tba0 = construct_Tba(self, tleads)
+        self.Tba0 = construct_Tba(self, self.tleads)
-- 
2.43.0


From 27993669e5429b98dcea2289fa3ce08cf25b31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 17/44] fix: single-particle dictionaries given by the caller
 are copied, parameter arrays are not changed before an edit is complete

---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 6 +++---
 qmeq/qdot.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 9bc9b95..4affd7c 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -149,7 +149,7 @@ def make_velph_dict(velph, si, add_zeros=False):
         velph[(bath, state1, state2)] gives the coupling.
     """
     if isinstance(velph, dict):
-        velph_dict = velph
+        velph_dict = dict(velph)
     elif isinstance(velph, list):
         velph_dict = {}
         for j0 in velph:
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 808427a..c0a71f4 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -268,7 +268,7 @@ def make_tleads_dict(tleads, si, add_zeros=False):
         tleads[(lead, state)] gives the tunneling amplitude.
     """
     if isinstance(tleads, dict):
-        tleads_dict = tleads
+        tleads_dict = dict(tleads)
     elif isinstance(tleads, list):
         tleads_dict = {}
         for j0 in tleads:
@@ -346,7 +346,7 @@ def make_array(lst_old, lst, si, npar=None, use_symmetry=True):
         if lst_old is None:
             lst_arr = np.zeros(npar, dtype=doublenp)
         else:
-            lst_arr = lst_old[0:npar]
+            lst_arr = np.array(lst_old[0:npar])
         for j1 in lst:
             lst_arr[j1] = lst[j1]
     elif isinstance(lst, (list, np.ndarray)):
@@ -368,7 +368,7 @@ def make_array_dlst(dlst_old, dlst, si, npar=None, use_symmetry=True):
     if dlst_old is None:
         lst_arr = np.zeros((npar, 2), dtype=doublenp)
     else:
-        lst_arr = dlst_old[0:npar]
+        lst_arr = np.array(dlst_old[0:npar])
     #
     if isinstance(dlst, numbers.Number):
         lst_arr[:, 0] = -dlst*np.ones(npar, dtype=doublenp)
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 0cd0085..9867f77 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -595,7 +595,7 @@ def make_hsingle_dict(qd, hsingle, add_zeros=False):
     si = qd.si
     #
     if isinstance(hsingle, dict):
-        hsingle_dict = hsingle
+        hsingle_dict = dict(hsingle)
     elif isinstance(hsingle, list):
         hsingle_dict = {}
         for j0 in hsingle:
@@ -646,7 +646,7 @@ def make_coulomb_dict(qd, coulomb, add_zeros=False):
     si = qd.si
     #
     if isinstance(coulomb, dict):
-        coulomb_dict = coulomb
+        coulomb_dict = dict(coulomb)
     elif isinstance(coulomb, (list, np.ndarray)):
         coulomb_dict = {}
         for j0 in coulomb:
-- 
2.43.0


From 0d6b66ae9ce17c81699da0144119bfe8cc5370cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 18/44] fix: edits of single-particle parameters are stored
 together with the matrices derived from them

---
 qmeq/baths.py    | 32 ++++++++++++++++------
 qmeq/leadstun.py | 35 +++++++++++++++++-------
 qmeq/qdot.py     | 71 ++++++++++++++++++++++++++++++------------------
 3 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 4affd7c..0f0f59a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -248,14 +248,30 @@ class PhononBaths(object):
             if dlst_ph is not None:
                 self.dlst_ph += make_array_dlst(None, dlst_ph, self.si, self.si.nbaths, False)
         if velph is not None:
+            velph_new = dict(self.velph)
             if updateq:
                 velph = make_velph_dict(velph, self.si)
                 for j0 in velph:
-                    if j0 in self.velph:
-                        self.velph[j0] += velph[j0]
+                    if j0 in velph_new:
+                        velph_new[j0] += velph[j0]
                     else:
-                        self.velph.update({j0: velph[j0]})
-            self.Vbbp0 = elph_construct_Vbbp(self, velph, self.Vbbp0)
+                        velph_new.update({j0: velph[j0]})
+            self._set_velph(velph_new, velph)
+
+    def _set_velph(self, velph, velph_add):
+        """
+        Stores single particle couplings together with the many-body matrix derived from them.
+        Nothing is stored if an intermediate step fails.
+
+        Parameters
+        ----------
+        velph : dict
+            The new single particle electron-phonon couplings.
+        velph_add : dict
+            The values to be added to the many-body electron-phonon couplings.
+        """
+        Vbbp0 = elph_construct_Vbbp(self, velph_add, np.array(self.Vbbp0))
+        self.velph, self.Vbbp0 = velph, Vbbp0
 
     def change(self, velph=None, tlst_ph=None, dlst_ph=None):
         """
@@ -280,20 +296,20 @@ class PhononBaths(object):
         if velph is not None:
             velph = make_velph_dict(velph, self.si, True)
             # Find the differences from the previous electron-phonon coupling
-            velph_add = {}
+            velph_new, velph_add = dict(self.velph), {}
             for j0 in velph:
                 if j0 in self.velph:
                     velph_diff = velph[j0]-self.velph[j0]
                     if velph_diff != 0:
                         velph_add.update({j0: velph_diff})
-                        self.velph[j0] += velph_diff
+                        velph_new[j0] += velph_diff
                 else:
                     velph_diff = velph[j0]
                     if velph_diff != 0:
                         velph_add.update({j0: velph_diff})
-                        self.velph.update({j0: velph_diff})
+                        velph_new.update({j0: velph_diff})
             # Add the differences
-            self.add(velph_add, updateq=False, lstq=False)
+            self._set_velph(velph_new, velph_add)
 
     def rotate(self, vecslst, indexing=None):
         """
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index c0a71f4..01ab81f 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -464,15 +464,31 @@ class LeadsTunneling(object):
             if dlst is not None:
                 self.dlst += make_array_dlst(None, dlst, self.si)
         if tleads is not None:
+            tleads_new = dict(self.tleads)
             if updateq:
                 tleads = make_tleads_dict(tleads, self.si)
                 for j0 in tleads:
-                    if j0 in self.tleads:
-                        self.tleads[j0] += tleads[j0]
+                    if j0 in tleads_new:
+                        tleads_new[j0] += tleads[j0]
                     else:
-                        self.tleads.update({j0: tleads[j0]})
-                self.tleads_array = make_tleads_array(self.tleads, self.si)
-            self.Tba0 = construct_Tba(self, tleads, self.Tba0)
+                        tleads_new.update({j0: tleads[j0]})
+            self._set_tleads(tleads_new, tleads)
+
+    def _set_tleads(self, tleads, tleads_add):
+        """
+        Stores single particle amplitudes together with everything derived from them.
+        Nothing is stored if an intermediate step fails.
+
+        Parameters
+        ----------
+        tleads : dict
+            The new single particle tunneling amplitudes.
+        tleads_add : dict
+            The values to be added to the many-body tunneling amplitudes.
+        """
+        tleads_array = make_tleads_array(tleads, self.si)
+        Tba0 = construct_Tba(self, tleads_add, np.array(self.Tba0))
+        self.tleads, self.tleads_array, self.Tba0 = tleads, tleads_array, Tba0
 
     def change(self, tleads=None, mulst=None, tlst=None, dlst=None):
         """
@@ -495,21 +511,20 @@ class LeadsTunneling(object):
         if tleads is not None:
             tleads = make_tleads_dict(tleads, self.si, True)
             # Find the differences from the previous tunneling amplitudes
-            tleads_add = {}
+            tleads_new, tleads_add = dict(self.tleads), {}
             for j0 in tleads:
                 if j0 in self.tleads:
                     tleads_diff = tleads[j0]-self.tleads[j0]
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
-                        self.tleads[j0] += tleads_diff
+                        tleads_new[j0] += tleads_diff
                 else:
                     tleads_diff = tleads[j0]
                     if tleads_diff != 0:
                         tleads_add.update({j0: tleads_diff})
-                        self.tleads.update({j0: tleads_diff})
-            self.tleads_array = make_tleads_array(self.tleads, self.si)
+                        tleads_new.update({j0: tleads_diff})
             # Add the differences
-            self.add(tleads_add, updateq=False, lstq=False)
+            self._set_tleads(tleads_new, tleads_add)
 
     def rotate(self, vecslst, indexing=None):
         """
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 9867f77..283a466 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -1,5 +1,7 @@
 """Module for constructing many-body quantum dot Hamiltonian and diagonalising it."""
 
+import copy
+
 import numpy as np
 
 from .indexing import empty_szlst
@@ -779,29 +781,45 @@ class QuantumDot(object):
             and the Coulomb matrix elements will be updated.
             The many-body Hamiltonian will be updates in either case.
         """
+        hsingle_new, coulomb_new = dict(self.hsingle), dict(self.coulomb)
         if updateq:
             hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
             coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
             for j0 in hsingle:
-                if j0 in self.hsingle:
-                    self.hsingle[j0] += hsingle[j0]
+                if j0 in hsingle_new:
+                    hsingle_new[j0] += hsingle[j0]
                 else:
-                    self.hsingle.update({j0: hsingle[j0]})
+                    hsingle_new.update({j0: hsingle[j0]})
             for j0 in coulomb:
-                if j0 in self.coulomb:
-                    self.coulomb[j0] += coulomb[j0]
+                if j0 in coulomb_new:
+                    coulomb_new[j0] += coulomb[j0]
                 else:
-                    self.coulomb.update({j0: coulomb[j0]})
-        #
+                    coulomb_new.update({j0: coulomb[j0]})
+        self._set_hamiltonian(hsingle_new, coulomb_new, hsingle, coulomb)
+
+    def _set_hamiltonian(self, hsingle_new, coulomb_new, hsingle, coulomb):
+        """
+        Stores single-particle Hamiltonian and Coulomb matrix elements together with
+        the many-body Hamiltonian derived from them.
+        Nothing is stored if an intermediate step fails.
+
+        Parameters
+        ----------
+        hsingle_new,coulomb_new : dict
+            The new values of the matrix elements.
+        hsingle,coulomb : dict
+            The values to be added to the many-body Hamiltonian.
+        """
+        hamlst = copy.deepcopy(self.hamlst)
         if self.si.indexing == 'sz':
             for charge in range(self.si.ncharge):
                 for sz in szrange(charge, self.si.nsingle):
                     szlst = self.si.get_lst(charge, sz)
                     szind = sz_to_ind(sz, charge, self.si.nsingle)
-                    self.hamlst[charge][szind] = construct_ham_coulomb(self, coulomb, szlst,
-                                                                       self.hamlst[charge][szind])
-                    self.hamlst[charge][szind] = construct_ham_hopping(self, hsingle, szlst,
-                                                                       self.hamlst[charge][szind])
+                    hamlst[charge][szind] = construct_ham_coulomb(self, coulomb, szlst,
+                                                                  hamlst[charge][szind])
+                    hamlst[charge][szind] = construct_ham_hopping(self, hsingle, szlst,
+                                                                  hamlst[charge][szind])
         elif self.si.indexing == 'ssq':
             for charge in range(self.si.ncharge):
                 szlow = -(charge % 2)
@@ -809,17 +827,18 @@ class QuantumDot(object):
                 for sz in szrng:
                     szlst = self.si.get_lst(charge, sz)
                     szind = sz_to_ind(sz, charge, self.si.nsingle)
-                    self.hamlst[charge][szind] = construct_ham_coulomb(self, coulomb, szlst,
-                                                                       self.hamlst[charge][szind])
-                    self.hamlst[charge][szind] = construct_ham_hopping(self, hsingle, szlst,
-                                                                       self.hamlst[charge][szind])
+                    hamlst[charge][szind] = construct_ham_coulomb(self, coulomb, szlst,
+                                                                  hamlst[charge][szind])
+                    hamlst[charge][szind] = construct_ham_hopping(self, hsingle, szlst,
+                                                                  hamlst[charge][szind])
         else:
             for charge in range(self.si.ncharge):
                 chargelst = self.si.get_lst(charge)
-                self.hamlst[charge] = construct_ham_coulomb(self, coulomb, chargelst,
-                                                            self.hamlst[charge])
-                self.hamlst[charge] = construct_ham_hopping(self, hsingle, chargelst,
-                                                            self.hamlst[charge])
+                hamlst[charge] = construct_ham_coulomb(self, coulomb, chargelst,
+                                                       hamlst[charge])
+                hamlst[charge] = construct_ham_hopping(self, hsingle, chargelst,
+                                                       hamlst[charge])
+        self.hsingle, self.coulomb, self.hamlst = hsingle_new, coulomb_new, hamlst
 
     def change(self, hsingle=None, coulomb=None, updateq=True):
         """
@@ -842,8 +861,8 @@ class QuantumDot(object):
         hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle, True)
         coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb, True)
         #
-        hsingle_add = {}
-        coulomb_add = {}
+        hsingle_new, hsingle_add = dict(self.hsingle), {}
+        coulomb_new, coulomb_add = dict(self.coulomb), {}
         # Find the differences from the previous single-particle Hamiltonian
         # and from the previous Coulomb matrix elements
         for j0 in hsingle:
@@ -852,28 +871,28 @@ class QuantumDot(object):
                 if hsingle_diff != 0:
                     hsingle_add.update({j0: hsingle_diff})
                     if updateq:
-                        self.hsingle[j0] += hsingle_diff
+                        hsingle_new[j0] += hsingle_diff
             else:
                 hsingle_diff = hsingle[j0]
                 if hsingle_diff != 0:
                     hsingle_add.update({j0: hsingle_diff})
                     if updateq:
-                        self.hsingle.update({j0: hsingle_diff})
+                        hsingle_new.update({j0: hsingle_diff})
         for j0 in coulomb:
             if j0 in self.coulomb:
                 coulomb_diff = coulomb[j0]-self.coulomb[j0]
                 if coulomb_diff != 0:
                     coulomb_add.update({j0: coulomb_diff})
                     if updateq:
-                        self.coulomb[j0] += coulomb_diff
+                        coulomb_new[j0] += coulomb_diff
             else:
                 coulomb_diff = coulomb[j0]
                 if coulomb_diff != 0:
                     coulomb_add.update({j0: coulomb_diff})
                     if updateq:
-                        self.coulomb.update({j0: coulomb_diff})
+                        coulomb_new.update({j0: coulomb_diff})
         # Then add the differences
-        self.add(hsingle_add, coulomb_add, False)
+        self._set_hamiltonian(hsingle_new, coulomb_new, hsingle_add, coulomb_add)
 
     def diagonalise_charge(self, charge=None, sz=None, ssq=None):
         """Diagonalises Hamiltonian for given charge.
-- 
2.43.0


From a6dd486471e1f79cf5aa7c6367169803ec116e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 19/44] fix: Fock states can be removed repeatedly with 'Lin'
 indexing and reset the order of states

---
 qmeq/builder/builder_base.py | 2 +-
 qmeq/builder/various.py      | 2 +-
 qmeq/indexing.py             | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 4bbb19e..bf9abe4 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -175,9 +175,9 @@ class BuilderBase(object):
     def _copy_si_state(self, si_old, si):
         """Transfers the number of baths and the state restrictions to a new state indexing object."""
         si.nbaths = si_old.nbaths
-        si.states_order = si_old.states_order
         if si_old.removed_fock_states is not None:
             si.remove_fock_states(np.flatnonzero(si_old.removed_fock_states))
+        si.states_order = si_old.states_order
         si.set_statesdm(si_old.statesdm[:si_old.ncharge])
 
     # kerntype
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index cb20c8e..77d38d0 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -76,7 +76,7 @@ def sort_eigenstates(self, srt=None):
             self.qd.Ea_ext = construct_Ea_extended(self)
         else:
             self.qd.Ea_ext[0] = self.qd.Ea
-        srt.append(-1)
+        srt = list(srt) + [-1]
         self.si.states_order = np.array(multiarray_sort(self.qd.Ea_ext, srt)[-1], dtype=int)
     else:
         self.si.states_order = range(self.si.nmany)
diff --git a/qmeq/indexing.py b/qmeq/indexing.py
index 22116d3..70b9cd3 100644
--- a/qmeq/indexing.py
+++ b/qmeq/indexing.py
@@ -506,15 +506,18 @@ class StateIndexing(object):
             print("WARNING: For 'sz' or 'ssq' indexing, nsingle has to be even. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         elif indexing == 'Lin':
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         else:
             print("WARNING: The indexing has to be 'Lin', 'charge', or 'sz'. \
                    Using 'Lin' indexing.")
             self.indexing = 'Lin'
+            self.chargelst_lin = construct_chargelst(nsingle)
             self.chargelst = construct_chargelst(nsingle)
             self.i = list(range(self.nmany))
         self.j = make_inverse_map(self.i)
@@ -625,7 +628,7 @@ class StateIndexing(object):
             self.removed_fock_states[ind] = True
         self.nmany = self.nmany_ - sum(self.removed_fock_states)
 
-        chargelst_lin = self.chargelst if self.indexing == 'Lin' else self.chargelst_lin
+        chargelst_lin = self.chargelst_lin
         ncharge = self.ncharge
         for charge in range(ncharge):
             charge_states = []
@@ -662,6 +665,7 @@ class StateIndexing(object):
             self.j[self.i[j1]] = j1
 
         self.qn_ind, self.ind_qn = make_quantum_numbers(self)
+        self.states_order = list(range(self.nmany))
 
         self.states_changed = True
 
-- 
2.43.0


From 5f76a835a23596867f75a37d7af1b012ca348b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 20/44] fix: density matrix element lookups of removed states,
 Pauli and many-body systems

---
 qmeq/builder/builder_base.py |  3 +-
 qmeq/builder/various.py      | 61 ++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index bf9abe4..9447130 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -363,9 +363,10 @@ class BuilderManyBody(BuilderBase):
 
         chargelst = [[] for _ in range(ncharge)]
         for i in range(nmany):
-            chargelst[Na[i]].append(i)
+            chargelst[Na[i]-nmin].append(i)
 
         si.nmany = nmany
+        si.states_order = list(range(nmany))
         si.ncharge = ncharge
         si.chargelst = chargelst
         si.shiftlst0 = np.zeros(ncharge+1, dtype=longnp)
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index 77d38d0..b7f1ba7 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -27,6 +27,50 @@ def get_charge(self, b):
     return sum(self.si.get_state(b))
 
 
+def get_charge_index(self, b):
+    """
+    Get charge of the many-body state b counted from the lowest charge,
+    also when the many-body states are an input of the system.
+
+    Parameters
+    ----------
+    self : Builder or Approach.
+        The system given as Builder or Approach object.
+    b : int
+        Label of the many-body state.
+
+    Returns
+    -------
+    int
+        Position of the charge in self.si.chargelst.
+    """
+    for charge, states in enumerate(self.si.chargelst):
+        if b in states:
+            return charge
+    raise IndexError('There is no many-body state with the label ' + str(b) + '.')
+
+
+def is_included(self, b, charge):
+    """
+    Check if the many-body state b takes part in the transport calculations.
+
+    Parameters
+    ----------
+    self : Builder or Approach.
+        The system given as Builder or Approach object.
+    b : int
+        Label of the many-body state.
+    charge : int
+        Charge of the many-body state b, counted from the lowest charge.
+
+    Returns
+    -------
+    bool
+        True if the state is included.
+    """
+    return b in self.si.statesdm[charge]
+
+
 def multiarray_sort(arr, srt=[0]):
     """
     Sort rows of a two-dimensional array for a given
@@ -101,10 +145,13 @@ def get_phi0(self, b_, bp_):
     """
     b = self.si.states_order[b_]
     bp = self.si.states_order[bp_]
-    bcharge = sum(self.si.get_state(b))
-    bpcharge = sum(self.si.get_state(bp))
+    bcharge = get_charge_index(self, b)
+    bpcharge = get_charge_index(self, bp)
     phi0bbp = 0.0
-    if self.funcp.kerntype == 'Pauli':
+    if not is_included(self, b, bcharge) or not is_included(self, bp, bpcharge):
+        return phi0bbp
+    if len(self.phi0) == self.si.npauli:
+        # Approaches, which determine only the diagonal density matrix elements
         if b == bp:
             ind = self.si.get_ind_dm0(b, b, bcharge, maptype=1)
             phi0bbp = self.phi0[ind]
@@ -141,14 +188,16 @@ def get_phi1(self, l, c_, b_):
     phi0bbp : complex
         A matrix element of the reduced density matrix (complex number).
     """
-    if self.funcp.kerntype == 'Pauli':
+    if self.phi1 is None:
         return None
     else:
         c = self.si.states_order[c_]
         b = self.si.states_order[b_]
-        ccharge = sum(self.si.get_state(c))
-        bcharge = sum(self.si.get_state(b))
+        ccharge = get_charge_index(self, c)
+        bcharge = get_charge_index(self, b)
         phi1cb = 0.0
+        if not is_included(self, c, ccharge) or not is_included(self, b, bcharge):
+            return phi1cb
         if ccharge == bcharge+1:
             ind = self.si.get_ind_dm1(c, b, bcharge)
             phi1cb = self.phi1[l, ind]
-- 
2.43.0


From a8cbe2d50c88ff375bf32c5eeb2c745aaa24b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 21/44] fix: many-body builders copy the arrays given by the
 caller

---
 qmeq/builder/builder_base.py | 4 ++--
 qmeq/builder/builder_elph.py | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 9447130..d226ca7 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -347,8 +347,8 @@ class BuilderManyBody(BuilderBase):
 
         self._init_state_indexing(Na, Ea)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
+        self.qd.Ea = None if Ea is None else np.array(Ea)
+        self.leads.Tba = None if Tba is None else np.array(Tba)
 
     def _init_state_indexing(self, Na, Ea):
         self.Na = np.array(Na, dtype=int)
diff --git a/qmeq/builder/builder_elph.py b/qmeq/builder/builder_elph.py
index c05bee5..74a076c 100644
--- a/qmeq/builder/builder_elph.py
+++ b/qmeq/builder/builder_elph.py
@@ -1,5 +1,7 @@
 """Module containing Builder_elph and Builder_many_body_elph classes."""
 
+import numpy as np
+
 from .builder_base import BuilderBase
 from .builder_base import attribute_map
 from .builder_base import BuilderManyBody
@@ -190,6 +192,6 @@ class BuilderManyBodyElPh(BuilderElPh, BuilderManyBody):
         self._init_state_indexing(Na, Ea)
         self._set_many_body_indexing(self.si_elph)
 
-        self.qd.Ea = Ea
-        self.leads.Tba = Tba
-        self.baths.Vbbp = Vbbp
+        self.qd.Ea = None if Ea is None else np.array(Ea)
+        self.leads.Tba = None if Tba is None else np.array(Tba)
+        self.baths.Vbbp = None if Vbbp is None else np.array(Vbbp)
-- 
2.43.0


From 44a334751b688a0ca7a3471c21f2e07410d85776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 22/44] fix: RTD Ozaki expansion belongs to the present
 temperatures and bandwidths

---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a2d6a69..a850f61 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -929,7 +929,7 @@ class ApproachPyRTD(Approach):
             and the second columns contains the residues.
         """
         BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
 
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index abf47b6..71af0e6 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -961,6 +961,6 @@ cdef class ApproachRTD(Approach):
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
 
-        if self.BW_Ozaki_expansion < BW_T:
+        if self.BW_Ozaki_expansion != BW_T:
             self.Ozaki_poles_and_residues = BW_Ozaki(BW_T)
             self.BW_Ozaki_expansion = BW_T
\ No newline at end of file
-- 
2.43.0


From c4266eaac8acd9ea847bd9979bde7c0039a001f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 23/44] fix: RTD forgets complex matrix elements of an earlier
 set of states

---
 qmeq/approach/base/RTD.py    | 1 +
 qmeq/approach/base/c_RTD.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index a850f61..d4eeefa 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -49,6 +49,7 @@ class ApproachPyRTD(Approach):
 
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
+        self.ImGamma = False
 
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 71af0e6..5988f91 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -72,6 +72,7 @@ cdef class ApproachRTD(Approach):
 
     cdef void prepare_arrays(self):
         ApproachPy.prepare_arrays(self)
+        self.ImGamma = False
         cdef KernelHandlerRTD kh = self._kernel_handler
 
         cdef long_t nleads = kh.nleads
-- 
2.43.0


From 10fc2df87291452ae7db49d622d602db6feb0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 24/44] fix: errors inside compiled methods reach the caller
 instead of being swallowed

---
 qmeq/approach/base/c_RTD.pxd       |  8 ++++----
 qmeq/approach/base/c_RTD.pyx       | 20 ++++++++++----------
 qmeq/approach/base/c_lindblad.pyx  |  8 ++++----
 qmeq/approach/base/c_neumann1.pyx  |  8 ++++----
 qmeq/approach/base/c_neumann2.pxd  | 10 +++++-----
 qmeq/approach/base/c_neumann2.pyx  | 10 +++++-----
 qmeq/approach/base/c_pauli.pyx     |  8 ++++----
 qmeq/approach/base/c_redfield.pyx  |  8 ++++----
 qmeq/approach/c_aprclass.pxd       | 16 ++++++++--------
 qmeq/approach/c_aprclass.pyx       | 22 +++++++++++-----------
 qmeq/approach/c_kernel_handler.pxd | 16 ++++++++--------
 qmeq/approach/c_kernel_handler.pyx | 16 ++++++++--------
 qmeq/approach/elph/c_lindblad.pyx  |  8 ++++----
 qmeq/approach/elph/c_neumann1.pyx  |  8 ++++----
 qmeq/approach/elph/c_pauli.pyx     |  8 ++++----
 qmeq/approach/elph/c_redfield.pyx  |  8 ++++----
 qmeq/specfunc/c_specfunc.pxd       |  6 +++---
 qmeq/specfunc/c_specfunc.pyx       |  6 +++---
 qmeq/specfunc/c_specfunc_elph.pxd  | 12 ++++++------
 qmeq/specfunc/c_specfunc_elph.pyx  | 12 ++++++------
 qmeq/wrappers/c_lapack.pxd         | 10 +++++-----
 qmeq/wrappers/c_lapack.pyx         | 16 ++++++++--------
 22 files changed, 122 insertions(+), 122 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pxd b/qmeq/approach/base/c_RTD.pxd
index 75ede3f..a8cad87 100644
--- a/qmeq/approach/base/c_RTD.pxd
+++ b/qmeq/approach/base/c_RTD.pxd
@@ -22,8 +22,8 @@ cdef class ApproachRTD(Approach):
     cdef bool_t nsingle_warning_printed
     cdef long_t nbr_Wdd2_copies
 
-    cpdef long_t get_kern_size(self)
-    cdef void add_off_diag_corrections(self, KernelHandlerRTD)
+    cpdef long_t get_kern_size(self) except? -1
+    cdef void add_off_diag_corrections(self, KernelHandlerRTD) except *
     cdef void generate_row_1st_order_kernel(self, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_row_1st_energy_kernel(self, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_row_2nd_energy_kernel(self, long_t, long_t, KernelHandlerRTD) nogil
@@ -31,5 +31,5 @@ cdef class ApproachRTD(Approach):
     cdef void generate_col_nondiag_kern_1st_order_dn(self, long_t, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_col_nondiag_kern_1st_order_nd(self, long_t, long_t, KernelHandlerRTD) nogil
     cdef void generate_row_inverse_Liouvillian(self, long_t, long_t, long_t, KernelHandlerRTD) nogil
-    cdef void generate_LN(self)
-    cdef void set_Ozaki_params(self)
\ No newline at end of file
+    cdef void generate_LN(self) except *
+    cdef void set_Ozaki_params(self) except *
\ No newline at end of file
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 5988f91..64f6b5d 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -57,7 +57,7 @@ cdef class ApproachRTD(Approach):
         self.printed_warning_ImGamma = False
         self.nsingle_warning_printed = False
 
-    cpdef long_t get_kern_size(self):
+    cpdef long_t get_kern_size(self) except? -1:
         return self._kernel_handler.npauli
 
 
@@ -70,7 +70,7 @@ cdef class ApproachRTD(Approach):
         ApproachPyRTD.restart(self)
 
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachPy.prepare_arrays(self)
         self.ImGamma = False
         cdef KernelHandlerRTD kh = self._kernel_handler
@@ -133,12 +133,12 @@ cdef class ApproachRTD(Approach):
         kh.WE2 = self._WE2
 
 
-    cdef void set_parameter_views(self):
+    cdef void set_parameter_views(self) except *:
         Approach.set_parameter_views(self)
         self._tleads_array = self.leads.tleads_array
 
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         self.ImGamma = False
 
         if not self._mfreeq:
@@ -162,7 +162,7 @@ cdef class ApproachRTD(Approach):
         self._Lnn[::1] = 0.0
 
 
-    cpdef void generate_kern(self):
+    cpdef void generate_kern(self) except *:
         cdef long_t bcharge, b, bp, bcount, i, j
         cdef KernelHandlerRTD kh = self.kernel_handler
         cdef long_t ncharge = kh.ncharge
@@ -217,7 +217,7 @@ cdef class ApproachRTD(Approach):
             self.add_off_diag_corrections(kh)
 
 
-    cdef void add_off_diag_corrections(self, KernelHandlerRTD kh):
+    cdef void add_off_diag_corrections(self, KernelHandlerRTD kh) except *:
         cdef double_t[:,:,:] Wcorr = np.zeros(self._Wdd.shape, dtype=doublenp)
         cdef long_t l
 
@@ -232,7 +232,7 @@ cdef class ApproachRTD(Approach):
         self.kern[:kern_size, :kern_size] += np.sum(Wcorr, 0)
 
 
-    cdef void generate_LN(self):
+    cdef void generate_LN(self) except *:
         cdef KernelHandlerRTD kh = self._kernel_handler
         cdef double_t[:] charge_lst = np.zeros(kh.npauli, doublenp)
         cdef long_t i, charge
@@ -244,7 +244,7 @@ cdef class ApproachRTD(Approach):
         self.LN = charge_lst
 
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         cdef long_t i,l, nleads
         cdef double_t[:] Ea, LE, mulst, current, energy_current, heat_current
         cdef KernelHandlerRTD kh = self._kernel_handler
@@ -283,7 +283,7 @@ cdef class ApproachRTD(Approach):
                       ' particle state is connected to more than one lead.')
                 self.nsingle_warning_printed = True
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef int_t itype
         cdef long_t c, b, bcharge, cb, l, nleads
         cdef double_t Ecb, xcb
@@ -957,7 +957,7 @@ cdef class ApproachRTD(Approach):
         kh.add_matrix_element(1.0/E1, 0, a1, b1, charge, a1, b1, charge, 7)
 
 
-    cdef void set_Ozaki_params(self):
+    cdef void set_Ozaki_params(self) except *:
         cdef double_t[:,:] Ozaki_poles_and_residues
 
         cdef double_t BW_T = (abs(self.leads.dlst[0][0]) + abs(self.leads.dlst[0][1])) / 2.0 / min(self.leads.tlst)
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 8da6744..16deed8 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -36,7 +36,7 @@ cdef class ApproachLindblad(Approach):
 
     kerntype = 'Lindblad'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         Tba, mtype = self.leads.Tba, self.leads.mtype
         self.tLba = np.zeros(Tba.shape, dtype=mtype)
@@ -44,11 +44,11 @@ cdef class ApproachLindblad(Approach):
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         Approach.clean_arrays(self)
         self._tLba[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
@@ -150,7 +150,7 @@ cdef class ApproachLindblad(Approach):
                 kh.set_matrix_element(1j*fct_ccp, b, bp, bcharge, c, cp, ccharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] tLba = self._tLba
 
diff --git a/qmeq/approach/base/c_neumann1.pyx b/qmeq/approach/base/c_neumann1.pyx
index 67e8ee5..ffe1b0e 100644
--- a/qmeq/approach/base/c_neumann1.pyx
+++ b/qmeq/approach/base/c_neumann1.pyx
@@ -34,7 +34,7 @@ cdef class Approach1vN(Approach):
 
     kerntype = '1vN'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.phi1fct = np.zeros((nleads, ndm1, 2), dtype=complexnp)
@@ -46,13 +46,13 @@ cdef class Approach1vN(Approach):
         self._phi1 = self.phi1
         self._rez_complex = np.zeros(4, dtype=complexnp)
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         Approach.clean_arrays(self)
         self._phi1fct[::1] = 0.0
         self._phi1fct_energy[::1] = 0.0
         self._phi1[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef double_t [:] mulst = self._mulst
         cdef double_t [:] tlst = self._tlst
@@ -166,7 +166,7 @@ cdef class Approach1vN(Approach):
                 kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] Tba = self._Tba
 
diff --git a/qmeq/approach/base/c_neumann2.pxd b/qmeq/approach/base/c_neumann2.pxd
index a253605..d674642 100644
--- a/qmeq/approach/base/c_neumann2.pxd
+++ b/qmeq/approach/base/c_neumann2.pxd
@@ -35,13 +35,13 @@ cdef class TermsCalculator2vN:
     cdef complex_t [:, :, : ,:] hphi1k_delta
 
 
-    cdef void retrieve_approach_variables(self)
+    cdef void retrieve_approach_variables(self) except *
 
-    cdef void phi1k_local(self, long_t k, long_t l, KernelHandler kh)
+    cdef void phi1k_local(self, long_t k, long_t l, KernelHandler kh) except *
 
-    cdef void phi1k_iterate(self, long_t k, long_t l, KernelHandler kh)
+    cdef void phi1k_iterate(self, long_t k, long_t l, KernelHandler kh) except *
 
-    cdef complex_t func_2vN(self, double_t Ek, long_t l, int_t eta, complex_t [:, :] hfk)
+    cdef complex_t func_2vN(self, double_t Ek, long_t l, int_t eta, complex_t [:, :] hfk) except *
 
     cdef void get_at_k1(self, double_t Ek, long_t l, long_t cb, bint conj,
-                              complex_t fct, int_t eta, complex_t [:] term)
+                              complex_t fct, int_t eta, complex_t [:] term) except *
diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 5e92b5d..58cfbf8 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -99,7 +99,7 @@ cdef class TermsCalculator2vN:
                 for l in range(nleads):
                     self.phi1k_iterate(k, l, kh)
 
-    cdef void retrieve_approach_variables(self):
+    cdef void retrieve_approach_variables(self) except *:
         self.kernel_handler = self.appr.kernel_handler
 
         self.kpnt_left = self.appr.funcp.kpnt_left
@@ -118,7 +118,7 @@ cdef class TermsCalculator2vN:
         self.phi1k_delta = self.appr.phi1k_delta
         self.kern1k_inv = self.appr.kern1k_inv
 
-    cdef void phi1k_local(self, long_t k, long_t l, KernelHandler kh):
+    cdef void phi1k_local(self, long_t k, long_t l, KernelHandler kh) except *:
 
         cdef long_t i, j, j1, j2, l1
         cdef long_t acharge, bcharge, ccharge, dcharge, charge
@@ -233,7 +233,7 @@ cdef class TermsCalculator2vN:
         self.kern1k_inv[k, l, :] = kern1_inv
         self.phi1k_delta[k, l, :] = kern0
 
-    cdef void phi1k_iterate(self, long_t k, long_t l, KernelHandler kh):
+    cdef void phi1k_iterate(self, long_t k, long_t l, KernelHandler kh) except *:
 
         cdef long_t i, j, j1, j2, l1
         cdef long_t acharge, bcharge, ccharge, dcharge, charge
@@ -369,7 +369,7 @@ cdef class TermsCalculator2vN:
                             double_t Ek,
                             long_t l,
                             int_t eta,
-                            complex_t [:, :] hfk):
+                            complex_t [:, :] hfk) except *:
 
         cdef long_t b_idx, a_idx
         cdef double_t a, b
@@ -398,7 +398,7 @@ cdef class TermsCalculator2vN:
                         bint conj,
                         complex_t fct,
                         int_t eta,
-                        complex_t [:] term):
+                        complex_t [:] term) except *:
 
         cdef long_t b_idx, a_idx, bbp
         cdef double_t a, b
diff --git a/qmeq/approach/base/c_pauli.pyx b/qmeq/approach/base/c_pauli.pyx
index 294c936..c6699df 100644
--- a/qmeq/approach/base/c_pauli.pyx
+++ b/qmeq/approach/base/c_pauli.pyx
@@ -37,7 +37,7 @@ cdef class ApproachPauli(Approach):
     def get_kern_size(self):
         return self.si.npauli
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
         nleads, ndm1 = self.si.nleads, self.si.ndm1
         self.paulifct = np.zeros((nleads, ndm1, 2), dtype=doublenp)
@@ -45,11 +45,11 @@ cdef class ApproachPauli(Approach):
         self._paulifct = self.paulifct
         self._rez_real = np.zeros(2, dtype=doublenp)
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         Approach.clean_arrays(self)
         self._paulifct[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] Tba = self._Tba
         cdef double_t [:] mulst = self._mulst
@@ -120,7 +120,7 @@ cdef class ApproachPauli(Approach):
                 fctp += paulifct[l, cb, 1]
             kh.set_matrix_element_pauli(fctm, fctp, bb, cc)
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         cdef double_t [:] phi0 = self._phi0
         cdef double_t [:] E = self._Ea
         cdef double_t [:, :, :] paulifct = self._paulifct
diff --git a/qmeq/approach/base/c_redfield.pyx b/qmeq/approach/base/c_redfield.pyx
index a459ee3..21fd27e 100644
--- a/qmeq/approach/base/c_redfield.pyx
+++ b/qmeq/approach/base/c_redfield.pyx
@@ -34,13 +34,13 @@ cdef class ApproachRedfield(Approach):
 
     kerntype = 'Redfield'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach1vN.prepare_arrays(self)
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
@@ -125,7 +125,7 @@ cdef class ApproachRedfield(Approach):
                 kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         cdef double_t [:] E = self._Ea
         cdef complex_t [:, :, :] Tba = self._Tba
 
diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 8074c4e..4c31d3c 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -49,24 +49,24 @@ cdef class Approach:
     cdef bool_t _symq
     cdef long_t _norm_row
 
-    cpdef void generate_fct(self)
-    cpdef void generate_kern(self)
-    cpdef void generate_current(self)
+    cpdef void generate_fct(self) except *
+    cpdef void generate_kern(self) except *
+    cpdef void generate_current(self) except *
     cpdef generate_vec(self, phi0)
 
     cdef void generate_coupling_terms(self,
                 long_t b, long_t bp, long_t bcharge,
                 KernelHandler kh) nogil
 
-    cpdef void prepare_kern(self)
+    cpdef void prepare_kern(self) except *
 
-    cdef void prepare_arrays(self)
+    cdef void prepare_arrays(self) except *
 
-    cdef void set_parameter_views(self)
+    cdef void set_parameter_views(self) except *
 
-    cdef void clean_arrays(self)
+    cdef void clean_arrays(self) except *
 
-    cpdef void solve_kern(self)
+    cpdef void solve_kern(self) except *
 
 
 cdef class ApproachElPh(Approach):
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 2d5e680..18a3859 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -102,7 +102,7 @@ cdef class Approach:
     def get_kern_size(self):
         return ApproachPy.get_kern_size(self)
 
-    cpdef void prepare_kern(self):
+    cpdef void prepare_kern(self) except *:
         if self.is_prepared and not self.si.states_changed:
             self.set_parameter_views()
             self.clean_arrays()
@@ -119,7 +119,7 @@ cdef class Approach:
         self.si.states_changed = False
         self.is_prepared = True
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
 
         if not self._mfreeq:
             self._kern[::1] = 0.0
@@ -130,7 +130,7 @@ cdef class Approach:
         self._energy_current[::1] = 0.0
         self._heat_current[::1] = 0.0
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachPy.prepare_arrays(self)
 
         self._kern = self.kern
@@ -145,7 +145,7 @@ cdef class Approach:
 
         self.set_parameter_views()
 
-    cdef void set_parameter_views(self):
+    cdef void set_parameter_views(self) except *:
         """Makes the views point to the present parameter arrays."""
         self._tlst = self.leads.tlst
         self._mulst = self.leads.mulst
@@ -190,10 +190,10 @@ cdef class Approach:
                 bb = kh.get_ind_dm0(b, b, bcharge)
                 norm_vec[bb] += 1
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         pass
 
-    cpdef void generate_kern(self):
+    cpdef void generate_kern(self) except *:
         cdef double_t [:] E = self._Ea
         cdef KernelHandler kh = self._kernel_handler
 
@@ -211,7 +211,7 @@ cdef class Approach:
             KernelHandler kh) nogil:
         pass
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         pass
 
     cpdef generate_vec(self, phi0):
@@ -235,7 +235,7 @@ cdef class Approach:
 
     #region Solution
 
-    cpdef void solve_kern(self):
+    cpdef void solve_kern(self) except *:
         """Finds the stationary state using least squares or using LU decomposition."""
 
         # Replace one equation by the normalisation condition
@@ -291,16 +291,16 @@ cdef class ApproachElPh(Approach):
 
         self._kernel_handler.elph = self.kernel_handler_elph
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         pass
 
-    cdef void set_parameter_views(self):
+    cdef void set_parameter_views(self) except *:
         Approach.set_parameter_views(self)
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         pass
 
     def restart(self):
diff --git a/qmeq/approach/c_kernel_handler.pxd b/qmeq/approach/c_kernel_handler.pxd
index cc11dfa..c59625b 100644
--- a/qmeq/approach/c_kernel_handler.pxd
+++ b/qmeq/approach/c_kernel_handler.pxd
@@ -45,15 +45,15 @@ cdef class KernelHandler:
 
     cdef KernelHandler elph
 
-    cpdef void set_kern(self, kern)
+    cpdef void set_kern(self, kern) except *
 
-    cpdef void set_phi0(self, phi0)
+    cpdef void set_phi0(self, phi0) except *
 
-    cdef void set_statesdm(self, si)
+    cdef void set_statesdm(self, si) except *
 
-    cdef void set_all_bbp(self)
+    cdef void set_all_bbp(self) except *
 
-    cdef void set_all_ba(self)
+    cdef void set_all_ba(self) except *
 
     cdef bool_t is_included(self, long_t b, long_t bp, long_t bcharge) nogil
 
@@ -85,9 +85,9 @@ cdef class KernelHandlerMatrixFree(KernelHandler):
 
     cdef double_t [:] dphi0_dt
 
-    cpdef void set_dphi0_dt(self, double_t [:] dphi0_dt)
+    cpdef void set_dphi0_dt(self, double_t [:] dphi0_dt) except *
 
-    cdef double_t get_phi0_norm(self)
+    cdef double_t get_phi0_norm(self) except? -1
 
 
 cdef class KernelHandlerRTD(KernelHandler):
@@ -115,4 +115,4 @@ cdef class KernelHandlerRTD(KernelHandler):
     cdef void add_element_2nd_order(self, long_t, long_t, double_t, long_t, long_t, long_t,
                              long_t, long_t, long_t) nogil
 
-    cdef void set_matrix_list(self)
\ No newline at end of file
+    cdef void set_matrix_list(self) except *
\ No newline at end of file
diff --git a/qmeq/approach/c_kernel_handler.pyx b/qmeq/approach/c_kernel_handler.pyx
index 7440e18..9d7ffeb 100644
--- a/qmeq/approach/c_kernel_handler.pyx
+++ b/qmeq/approach/c_kernel_handler.pyx
@@ -55,7 +55,7 @@ cdef class KernelHandler:
         self.set_all_bbp()
         self.set_all_ba()
 
-    cdef void set_statesdm(self, si):
+    cdef void set_statesdm(self, si) except *:
         cdef int_t max_states = 0
         cdef int_t i, j
         statesdm = si.statesdm
@@ -72,7 +72,7 @@ cdef class KernelHandler:
             for j in range(self.statesdm_count[i]):
                 self.statesdm[i, j] = statesdm[i][j]
 
-    cdef void set_all_bbp(self):
+    cdef void set_all_bbp(self) except *:
         self.all_bbp = np.zeros((self.nelements, 3), dtype=longnp)
         cdef long_t bcharge, bcount, i, j, j_lower, b, bp, ind
         ind = 0
@@ -91,7 +91,7 @@ cdef class KernelHandler:
                         self.all_bbp[ind, 2] = bcharge
                         ind += 1
 
-    cdef void set_all_ba(self):
+    cdef void set_all_ba(self) except *:
         self.all_ba = np.zeros((self.ndm1, 3), dtype=longnp)
         cdef long_t bcharge, acharge, i, j, b, a, ind
 
@@ -107,11 +107,11 @@ cdef class KernelHandler:
                     self.all_ba[ind, 2] = acharge
                     ind += 1
 
-    cpdef void set_kern(self, kern):
+    cpdef void set_kern(self, kern) except *:
         if self.no_conjugates:
             self.kern = kern
 
-    cpdef void set_phi0(self, phi0):
+    cpdef void set_phi0(self, phi0) except *:
         if self.no_conjugates:
             self.phi0 = phi0
 
@@ -205,7 +205,7 @@ cdef class KernelHandlerMatrixFree(KernelHandler):
         KernelHandler.__init__(self, si, no_coherences)
         self.dphi0_dt = None
 
-    cpdef void set_dphi0_dt(self, double_t [:] dphi0_dt):
+    cpdef void set_dphi0_dt(self, double_t [:] dphi0_dt) except *:
         self.dphi0_dt = dphi0_dt
 
     cdef void set_energy(self,
@@ -247,7 +247,7 @@ cdef class KernelHandlerMatrixFree(KernelHandler):
 
         self.dphi0_dt[bb] = self.dphi0_dt[bb] + fctm*self.phi0[bb] + fctp*self.phi0[aa]
 
-    cdef double_t get_phi0_norm(self):
+    cdef double_t get_phi0_norm(self) except? -1:
 
         cdef long_t bcharge, bcount, b, bb, i
         cdef double_t norm = 0.0
@@ -320,5 +320,5 @@ cdef class KernelHandlerRTD(KernelHandler):
         # Flipping left-most and right-most vertices p0 = -p0 and p3 = -p3
         self.Wdd2[t_id, l, indx3, indx1] += -fct
 
-    cdef void set_matrix_list(self):
+    cdef void set_matrix_list(self) except *:
         pass
\ No newline at end of file
diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 876a824..5e06ab0 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -39,7 +39,7 @@ cdef class ApproachLindblad(ApproachElPh):
 
     kerntype = 'Lindblad'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         ApproachLindbladBase.prepare_arrays(self)
 
@@ -51,13 +51,13 @@ cdef class ApproachLindblad(ApproachElPh):
         self._tLbbp = self.tLbbp
         self._func_pauli_at_zero = self.func_pauli_at_zero
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         ApproachElPh.clean_arrays(self)
         ApproachLindbladBase.clean_arrays(self)
         self._tLbbp[::1] = 0.0
         self._func_pauli_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachLindbladBase.generate_fct(self)
 
         cdef complex_t [:, :, :] Vbbp = self._Vbbp
@@ -150,5 +150,5 @@ cdef class ApproachLindblad(ApproachElPh):
                 kh.set_matrix_element(1j*fct_bbpp, b, bp, bcharge, b, bpp, bcharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         ApproachLindbladBase.generate_current(self)
diff --git a/qmeq/approach/elph/c_neumann1.pyx b/qmeq/approach/elph/c_neumann1.pyx
index 001d06d..b6b073b 100644
--- a/qmeq/approach/elph/c_neumann1.pyx
+++ b/qmeq/approach/elph/c_neumann1.pyx
@@ -36,7 +36,7 @@ cdef class Approach1vN(ApproachElPh):
 
     kerntype = '1vN'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         Approach1vNBase.prepare_arrays(self)
 
@@ -47,13 +47,13 @@ cdef class Approach1vN(ApproachElPh):
         self._w1fct = self.w1fct
         self._func_1vN_elph_at_zero = self.func_1vN_elph_at_zero
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         ApproachElPh.clean_arrays(self)
         Approach1vNBase.clean_arrays(self)
         self._w1fct[::1] = 0.0
         self._func_1vN_elph_at_zero[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vNBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
@@ -203,5 +203,5 @@ cdef class Approach1vN(ApproachElPh):
                 kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         Approach1vNBase.generate_current(self)
diff --git a/qmeq/approach/elph/c_pauli.pyx b/qmeq/approach/elph/c_pauli.pyx
index dd3ab55..b5aa1f6 100644
--- a/qmeq/approach/elph/c_pauli.pyx
+++ b/qmeq/approach/elph/c_pauli.pyx
@@ -40,7 +40,7 @@ cdef class ApproachPauli(ApproachElPh):
     def get_kern_size(self):
         return self.si.npauli
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         ApproachElPh.prepare_arrays(self)
         ApproachPauliBase.prepare_arrays(self)
 
@@ -49,12 +49,12 @@ cdef class ApproachPauli(ApproachElPh):
 
         self._paulifct_elph = self.paulifct_elph
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         ApproachElPh.clean_arrays(self)
         ApproachPauliBase.clean_arrays(self)
         self._paulifct_elph[::1] = 0.0
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         ApproachPauliBase.generate_fct(self)
 
         cdef double_t [:] E = self._Ea
@@ -124,5 +124,5 @@ cdef class ApproachPauli(ApproachElPh):
                 fctp += paulifct[l, ba]
             kh.set_matrix_element_pauli(fctm, fctp, bb, aa)
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         ApproachPauliBase.generate_current(self)
diff --git a/qmeq/approach/elph/c_redfield.pyx b/qmeq/approach/elph/c_redfield.pyx
index 66832d2..05857d9 100644
--- a/qmeq/approach/elph/c_redfield.pyx
+++ b/qmeq/approach/elph/c_redfield.pyx
@@ -38,13 +38,13 @@ cdef class ApproachRedfield(ApproachElPh):
 
     kerntype = 'Redfield'
 
-    cdef void prepare_arrays(self):
+    cdef void prepare_arrays(self) except *:
         Approach1vN.prepare_arrays(self)
 
-    cdef void clean_arrays(self):
+    cdef void clean_arrays(self) except *:
         Approach1vN.clean_arrays(self)
 
-    cpdef void generate_fct(self):
+    cpdef void generate_fct(self) except *:
         Approach1vN.generate_fct(self)
 
     cdef void generate_coupling_terms(self,
@@ -155,5 +155,5 @@ cdef class ApproachRedfield(ApproachElPh):
                 kh.set_matrix_element(fct_ccp, b, bp, bcharge, c, cp, ccharge)
         # --------------------------------------------------
 
-    cpdef void generate_current(self):
+    cpdef void generate_current(self) except *:
         ApproachRedfieldBase.generate_current(self)
diff --git a/qmeq/specfunc/c_specfunc.pxd b/qmeq/specfunc/c_specfunc.pxd
index e124d94..e9b8f2c 100644
--- a/qmeq/specfunc/c_specfunc.pxd
+++ b/qmeq/specfunc/c_specfunc.pxd
@@ -12,10 +12,10 @@ cdef double_t cabs(complex_t z) nogil
 cdef double_t fermi_func(double_t) nogil
 
 cdef int_t func_pauli(double_t, double_t, double_t, double_t, double_t,
-                      int_t, double_t [:])
+                      int_t, double_t [:]) except? -1
 
 cdef int_t func_1vN(double_t, double_t, double_t, double_t, double_t,
-                    int_t, int_t, complex_t [:])
+                    int_t, int_t, complex_t [:]) except? -1
 
 cdef complex_t digamma(complex_t) nogil
 cdef complex_t polygamma(complex_t, long_t) nogil
@@ -30,4 +30,4 @@ cdef complex_t integralD(double_t, double_t, double_t, double_t, double_t, doubl
 cdef complex_t integralX(double_t, double_t, double_t, double_t, double_t, double_t, 
             double_t, double_t, double_t, double_t, double_t[:,:], bint) nogil
 cdef double_t[:,:] BW_Ozaki(double_t BW)
-cdef void diag_matrix_multiply(double_t[:], double_t[:,:])
\ No newline at end of file
+cdef void diag_matrix_multiply(double_t[:], double_t[:,:]) except *
\ No newline at end of file
diff --git a/qmeq/specfunc/c_specfunc.pyx b/qmeq/specfunc/c_specfunc.pyx
index 50d31bc..207dae8 100644
--- a/qmeq/specfunc/c_specfunc.pyx
+++ b/qmeq/specfunc/c_specfunc.pyx
@@ -149,7 +149,7 @@ cdef double_t delta_phi(double_t x1, double_t x2, double_t Dp, double_t Dm, doub
 @cython.cdivision(True)
 cdef int_t func_pauli(double_t Ecb, double_t mu, double_t T,
                       double_t Dm, double_t Dp, int_t itype,
-                      double_t [:] rez):
+                      double_t [:] rez) except? -1:
     cdef double_t alpha, Rm, Rp, cur0, cur1
     alpha = (Ecb-mu)/T
     Rm, Rp = (Dm-mu)/T, (Dp-mu)/T
@@ -168,7 +168,7 @@ cdef int_t func_pauli(double_t Ecb, double_t mu, double_t T,
 cdef int_t func_1vN(double_t Ecb, double_t mu, double_t T,
                     double_t Dm, double_t Dp,
                     int_t itype, int_t limit,
-                    complex_t [:] rez):
+                    complex_t [:] rez) except? -1:
     cdef double_t alpha, Rm, Rp, err
     cdef complex_t cur0, cur1, en0, en1, const0, const1
     # -------------------------
@@ -503,7 +503,7 @@ cdef double_t[:,:] Ozaki(long_t N):
     return b_and_R
 
 
-cdef void diag_matrix_multiply(double_t[:] D, double_t[:,:] M):
+cdef void diag_matrix_multiply(double_t[:] D, double_t[:,:] M) except *:
     """ Calculates D*M ehere D is the diagonal entries of a
     diagonal matrix. M is a matrix. M gets modified.
     """
diff --git a/qmeq/specfunc/c_specfunc_elph.pxd b/qmeq/specfunc/c_specfunc_elph.pxd
index 43a20cb..fc02162 100644
--- a/qmeq/specfunc/c_specfunc_elph.pxd
+++ b/qmeq/specfunc/c_specfunc_elph.pxd
@@ -9,11 +9,11 @@ from ..wrappers.c_mytypes cimport complex_t
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x)
+    cpdef double_t eval(self, double_t x) except? -1
 
 
 cdef class FuncBose:
-    cdef double_t eval(self, double_t x)
+    cdef double_t eval(self, double_t x) except? -1
 
 
 cdef class FuncPauliElPh:
@@ -25,7 +25,7 @@ cdef class FuncPauliElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public double_t val
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
 
 
 cdef class Func1vNElPh:
@@ -39,6 +39,6 @@ cdef class Func1vNElPh:
     cdef bath_func
     cdef bool_t bath_func_q
     cdef public complex_t val0, val1
-    cpdef double_t iplus(self, double_t x)
-    cpdef double_t iminus(self, double_t x)
-    cpdef void eval(self, double_t Ebbp, int_t l)
+    cpdef double_t iplus(self, double_t x) except? -1
+    cpdef double_t iminus(self, double_t x) except? -1
+    cpdef void eval(self, double_t Ebbp, int_t l) except *
diff --git a/qmeq/specfunc/c_specfunc_elph.pyx b/qmeq/specfunc/c_specfunc_elph.pyx
index cdb4054..4274a27 100644
--- a/qmeq/specfunc/c_specfunc_elph.pyx
+++ b/qmeq/specfunc/c_specfunc_elph.pyx
@@ -15,14 +15,14 @@ from libc.math cimport log
 
 
 cdef class Func:
-    cpdef double_t eval(self, double_t x):
+    cpdef double_t eval(self, double_t x) except? -1:
         return 1.
 
 
 @cython.cdivision(True)
 cdef class FuncBose:
     """Bose function."""
-    cdef double_t eval(self, double_t x):
+    cdef double_t eval(self, double_t x) except? -1:
         return 1./(exp(x)-1.)
 
 
@@ -42,7 +42,7 @@ cdef class FuncPauliElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val = 0.
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp
         T, omm, omp = self.tlst[l], self.dlst[l,0], self.dlst[l,1]
@@ -80,13 +80,13 @@ cdef class Func1vNElPh:
         self.bose, self.dos = FuncBose(), Func()
         self.val0, self.val1 = 0., 0.
 
-    cpdef double_t iplus(self, double_t x):
+    cpdef double_t iplus(self, double_t x) except? -1:
         return +self.dos.eval(self.T*x)*self.bose.eval(x)
 
-    cpdef double_t iminus(self, double_t x):
+    cpdef double_t iminus(self, double_t x) except? -1:
         return -self.dos.eval(self.T*x)*(1.+self.bose.eval(x))
 
-    cpdef void eval(self, double_t Ebbp, int_t l):
+    cpdef void eval(self, double_t Ebbp, int_t l) except *:
         cdef double_t T, omm, omp
         cdef double_t alpha, Rm, Rp, err
         cdef complex_t val0, val1
diff --git a/qmeq/wrappers/c_lapack.pxd b/qmeq/wrappers/c_lapack.pxd
index 3bec92c..e5b67b8 100644
--- a/qmeq/wrappers/c_lapack.pxd
+++ b/qmeq/wrappers/c_lapack.pxd
@@ -13,11 +13,11 @@ cdef class LapackSolver:
     cdef double [:, :] a_double
     cdef double [:, :] a_double_copy
 
-    cdef void solve(self)
+    cdef void solve(self) except *
 
-    cdef void determine_pointer_a(self, a, make_copy)
-    cdef void determine_pointer_b(self, b)
-    cdef void make_copy_of_a_double(self)
+    cdef void determine_pointer_a(self, a, make_copy) except *
+    cdef void determine_pointer_b(self, b) except *
+    cdef void make_copy_of_a_double(self) except *
 
 
 cdef class LapackSolverXGESV(LapackSolver):
@@ -55,7 +55,7 @@ cdef class LapackSolverXGELSD(LapackSolver):
 
     cdef int liwork
 
-    cdef void determine_work_size(self)
+    cdef void determine_work_size(self) except *
 
 
 cdef class LapackSolverDGELSD(LapackSolverXGELSD):
diff --git a/qmeq/wrappers/c_lapack.pyx b/qmeq/wrappers/c_lapack.pyx
index 0bac8c5..7f3d3cf 100644
--- a/qmeq/wrappers/c_lapack.pyx
+++ b/qmeq/wrappers/c_lapack.pyx
@@ -22,10 +22,10 @@ cimport scipy.linalg.cython_lapack
 
 cdef class LapackSolver:
 
-    cdef void solve(self):
+    cdef void solve(self) except *:
         pass
 
-    cdef void determine_pointer_a(self, a, make_copy):
+    cdef void determine_pointer_a(self, a, make_copy) except *:
         self.make_copy = make_copy
         cdef double [:, :] a_matrix
 
@@ -38,7 +38,7 @@ cdef class LapackSolver:
 
         self.a_double_pointer = &a_matrix[0, 0]
 
-    cdef void determine_pointer_b(self, b):
+    cdef void determine_pointer_b(self, b) except *:
         cdef double [:] b_vector
         cdef double [:, :] b_matrix
 
@@ -49,7 +49,7 @@ cdef class LapackSolver:
             b_matrix = b
             self.b_double_pointer = &b_matrix[0, 0]
 
-    cdef void make_copy_of_a_double(self):
+    cdef void make_copy_of_a_double(self) except *:
         if self.make_copy:
             self.a_double_copy[:] = self.a_double
 
@@ -80,7 +80,7 @@ cdef class LapackSolverDGESV(LapackSolverXGESV):
         self.determine_pointer_a(a, make_copy)
         self.determine_pointer_b(b)
 
-    cdef void solve(self):
+    cdef void solve(self) except *:
         self.make_copy_of_a_double()
         scipy.linalg.cython_lapack.dgesv(
             &self.n,
@@ -116,7 +116,7 @@ cdef class LapackSolverXGELSD(LapackSolver):
         if not self.iwork:
             raise MemoryError()
 
-    cdef void determine_work_size(self):
+    cdef void determine_work_size(self) except *:
         pass
 
     def __dealloc__(self):
@@ -138,7 +138,7 @@ cdef class LapackSolverDGELSD(LapackSolverXGELSD):
     def __dealloc__(self):
         free(self.work)
 
-    cdef void determine_work_size(self):
+    cdef void determine_work_size(self) except *:
         self.lwork = -1
         cdef double lwork
 
@@ -160,7 +160,7 @@ cdef class LapackSolverDGELSD(LapackSolverXGELSD):
 
         self.lwork = int(lwork)
 
-    cdef void solve(self):
+    cdef void solve(self) except *:
         self.make_copy_of_a_double()
         scipy.linalg.cython_lapack.dgelsd(
             &self.m,
-- 
2.43.0


From 2ab48d82c6550f751d37efd17711224bdefe83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 25/44] fix: compiled phonon-coupled Lindblad transfers
 coherences as the Python one does

---
 qmeq/approach/elph/c_lindblad.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/elph/c_lindblad.pyx b/qmeq/approach/elph/c_lindblad.pyx
index 5e06ab0..5ea12ad 100644
--- a/qmeq/approach/elph/c_lindblad.pyx
+++ b/qmeq/approach/elph/c_lindblad.pyx
@@ -126,7 +126,7 @@ cdef class ApproachLindblad(ApproachElPh):
                 fct_aap = 0
                 for l in range(nbaths):
                     for q in range(2):
-                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, a, q].conjugate()
+                        fct_aap += tLbbp[l, b, a, q]*tLbbp[l, bp, ap, q].conjugate()
                 kh.set_matrix_element(1j*fct_aap, b, bp, bcharge, a, ap, acharge)
         # --------------------------------------------------
         for i in range(bcount):
-- 
2.43.0


From cb5c190f70ea1c4ba117f8e38d0dc84324fd4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 26/44] fix: an interrupted iteration of 2vN leaves the
 completed ones as they were

---
 qmeq/approach/aprclass.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 33643dc..0a6ca71 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -566,16 +566,25 @@ class ApproachBase2vN(Approach):
         """Makes one iteration for solution of the 2vN integral equation."""
         self.prepare_kern()
 
-        self.iterate()
-        self.phi1k += self.phi1k_delta
-        self.determine_phi1_phi0()
-        self.niter += 1
-
-        self.generate_kern()
-        self.solve_kern()
-        self.generate_current()
-
-        self.iters.append(Iterations2vN(self))
+        # If the iteration is interrupted it has to be possible to continue from the last completed one
+        state = (self.is_zeroth_iteration, self.niter, self.phi1k, self.phi1k_delta)
+        count = len(self.iters)
+        try:
+            self.phi1k_delta = np.copy(self.phi1k_delta)
+            self.iterate()
+            self.phi1k = self.phi1k + self.phi1k_delta
+            self.determine_phi1_phi0()
+            self.niter += 1
+
+            self.generate_kern()
+            self.solve_kern()
+            self.generate_current()
+
+            self.iters.append(Iterations2vN(self))
+        except BaseException:
+            self.is_zeroth_iteration, self.niter, self.phi1k, self.phi1k_delta = state
+            del self.iters[count:]
+            raise
 
     def solve(self,
               qdq=True, rotateq=True, masterq=True, restartq=True,
-- 
2.43.0


From 5a1b77837c6b7ff565a9bdb8a30410a16e799366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 27/44] fix: the matrix-free root search does not receive the
 work array it keeps

---
 qmeq/approach/aprclass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index 0a6ca71..a3d57dc 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -350,7 +350,8 @@ class Approach(object):
             phi0_init = self.set_phi0_init()
 
         try:
-            self.sol0 = optimize.root(self.generate_vec, phi0_init, method=solmethod)
+            # The root finder may keep the vectors it receives, while generate_vec reuses its work array
+            self.sol0 = optimize.root(lambda phi0: np.array(self.generate_vec(phi0)), phi0_init, method=solmethod)
             self.phi0[:] = self.sol0.x
             self.success = self.sol0.success
         except Exception as exept:
-- 
2.43.0


From 2b70ca2c973640f27c54c3c1e5df4c175960f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 28/44] fix: currents of matrix-free solves belong to the
 solution, not to the last vector tried

---
 qmeq/approach/aprclass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index a3d57dc..bbb616a 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -358,6 +358,8 @@ class Approach(object):
             self.funcp.print_error(exept)
             self.phi0.fill(0.0)
             self.success = False
+        # The currents are those of the solution and not of the last vector that was tried
+        self.kernel_handler.set_phi0(self.phi0)
 
     def set_phi0_init(self):
         phi0_init = np.zeros(self.get_kern_size(), dtype=self.dtype)
-- 
2.43.0


From 10ab5c2db29ad4639eaec6988453dbefcf671b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 29/44] fix: a matrix-free solve with an initial guess of a
 wrong size or a result that is not finite is no success

---
 qmeq/approach/aprclass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/aprclass.py b/qmeq/approach/aprclass.py
index bbb616a..c4f8427 100644
--- a/qmeq/approach/aprclass.py
+++ b/qmeq/approach/aprclass.py
@@ -350,10 +350,12 @@ class Approach(object):
             phi0_init = self.set_phi0_init()
 
         try:
+            if np.size(phi0_init) != len(self.phi0):
+                raise ValueError("phi0_init has to have " + str(len(self.phi0)) + " elements.")
             # The root finder may keep the vectors it receives, while generate_vec reuses its work array
             self.sol0 = optimize.root(lambda phi0: np.array(self.generate_vec(phi0)), phi0_init, method=solmethod)
             self.phi0[:] = self.sol0.x
-            self.success = self.sol0.success
+            self.success = bool(self.sol0.success and np.all(np.isfinite(self.phi0)))
         except Exception as exept:
             self.funcp.print_error(exept)
             self.phi0.fill(0.0)
-- 
2.43.0


From 84d0d5124ead588f2f0360753f85631ef02292fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 30/44] fix: RTD does not use more threads than it has
 accumulators, when the limit is raised after the preparation

---
 qmeq/approach/base/c_RTD.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 64f6b5d..895c6fd 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -180,7 +180,7 @@ cdef class ApproachRTD(Approach):
                     break
 
         # Calcualte Wdd^2 first to be able to resuse memory (Wdd1 & Wdd1 write to the same memory).
-        for i in prange(kern_size, nogil=True):
+        for i in prange(kern_size, nogil=True, num_threads=self.nbr_Wdd2_copies):
             b = kh.all_bbp[i, 0]
             bcharge = kh.all_bbp[i, 2]
             self.generate_matrix_element_2nd_order(b, bcharge, kh)
-- 
2.43.0


From e3091b46ec6f1e649ae6b4750d731c9849a98d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:01 +0000
Subject: [PATCH 31/44] fix: a norm_row beyond the equations of a compiled
 approach is rejected instead of writing out of bounds

---
 qmeq/approach/c_aprclass.pxd |  1 +
 qmeq/approach/c_aprclass.pyx | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/c_aprclass.pxd b/qmeq/approach/c_aprclass.pxd
index 4c31d3c..f891a04 100644
--- a/qmeq/approach/c_aprclass.pxd
+++ b/qmeq/approach/c_aprclass.pxd
@@ -52,6 +52,7 @@ cdef class Approach:
     cpdef void generate_fct(self) except *
     cpdef void generate_kern(self) except *
     cpdef void generate_current(self) except *
+    cdef long_t get_norm_row(self, long_t nrows) except -1
     cpdef generate_vec(self, phi0)
 
     cdef void generate_coupling_terms(self,
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 18a3859..1d38e9a 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -214,8 +214,17 @@ cdef class Approach:
     cpdef void generate_current(self) except *:
         pass
 
-    cpdef generate_vec(self, phi0):
+    cdef long_t get_norm_row(self, long_t nrows) except -1:
+        """Row of the normalisation condition in a system of nrows equations."""
         cdef long_t norm_row = self._norm_row
+        if norm_row < 0:
+            norm_row += nrows
+        if norm_row < 0 or norm_row >= nrows:
+            raise IndexError('norm_row {} is out of bounds for {} equations'.format(self._norm_row, nrows))
+        return norm_row
+
+    cpdef generate_vec(self, phi0):
+        cdef long_t norm_row = self.get_norm_row(self._dphi0_dt.shape[0])
 
         cdef KernelHandlerMatrixFree kh = self._kernel_handler
         kh.set_phi0(phi0)
@@ -242,7 +251,7 @@ cdef class Approach:
         cdef double_t [:, :] kern = self._kern
         cdef double_t [:] bvec = self._bvec
 
-        cdef long_t norm_row = self._norm_row if self._symq else kern.shape[0] - 1
+        cdef long_t norm_row = self.get_norm_row(kern.shape[0]) if self._symq else kern.shape[0] - 1
         kern[norm_row, :] = self._norm_vec
         bvec[norm_row] = 1
 
-- 
2.43.0


From fe8a9748021916a2a80ef7750b691a56c9a9e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 32/44] fix: compiled approaches read beyond lead, bath and
 energy arrays with too few entries

---
 qmeq/approach/c_aprclass.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 1d38e9a..c3ee42b 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -27,6 +27,12 @@ from ..wrappers.c_lapack cimport LapackSolverDGESV
 from ..wrappers.c_lapack cimport LapackSolverDGELSD
 
 
+def check_shape(name, array, shape):
+    """Raises an IndexError if the array has fewer entries than the compiled loops read."""
+    if any(n < m for n, m in zip(np.shape(array), shape)):
+        raise IndexError('{} has the shape {}, {} is needed'.format(name, np.shape(array), shape))
+
+
 cdef class Approach:
 
     kerntype = 'not defined'
@@ -147,6 +153,13 @@ cdef class Approach:
 
     cdef void set_parameter_views(self) except *:
         """Makes the views point to the present parameter arrays."""
+        nleads, nmany = self.si.nleads, self.si.nmany
+        check_shape('tlst', self.leads.tlst, (nleads,))
+        check_shape('mulst', self.leads.mulst, (nleads,))
+        check_shape('dlst', self.leads.dlst, (nleads, 2))
+        check_shape('Ea', self.qd.Ea, (nmany,))
+        check_shape('Tba', self.leads.Tba, (nleads, nmany, nmany))
+
         self._tlst = self.leads.tlst
         self._mulst = self.leads.mulst
         self._dlst = self.leads.dlst
@@ -305,6 +318,11 @@ cdef class ApproachElPh(Approach):
 
     cdef void set_parameter_views(self) except *:
         Approach.set_parameter_views(self)
+        nbaths, nmany = self.si.nbaths, self.si.nmany
+        check_shape('tlst_ph', self.baths.tlst_ph, (nbaths,))
+        check_shape('dlst_ph', self.baths.dlst_ph, (nbaths, 2))
+        check_shape('Vbbp', self.baths.Vbbp, (nbaths, nmany, nmany))
+
         self._tlst_ph = self.baths.tlst_ph
         self._dlst_ph = self.baths.dlst_ph
         self._Vbbp = self.baths.Vbbp
-- 
2.43.0


From 354fb094e1c2fab25bf6f5a20e5f82566551cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 33/44] fix: a Python Lindblad system solved once with too
 small amplitude arrays kept jump operators of that size

---
 qmeq/approach/base/lindblad.py | 4 ++--
 qmeq/approach/elph/lindblad.py | 5 ++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/qmeq/approach/base/lindblad.py b/qmeq/approach/base/lindblad.py
index c241e8a..7c60f0b 100644
--- a/qmeq/approach/base/lindblad.py
+++ b/qmeq/approach/base/lindblad.py
@@ -19,8 +19,8 @@ class ApproachLindblad(Approach):
 
     def prepare_arrays(self):
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        nleads, nmany, mtype = self.si.nleads, self.si.nmany, self.leads.mtype
+        self.tLba = np.zeros((nleads, nmany, nmany), dtype=mtype)
 
     def clean_arrays(self):
         Approach.clean_arrays(self)
diff --git a/qmeq/approach/elph/lindblad.py b/qmeq/approach/elph/lindblad.py
index 74e89e9..3c7e44e 100644
--- a/qmeq/approach/elph/lindblad.py
+++ b/qmeq/approach/elph/lindblad.py
@@ -20,9 +20,8 @@ class ApproachLindblad(ApproachElPh):
 
     def prepare_arrays(self):
         ApproachLindbladBase.prepare_arrays(self)
-        Vbbp, mtype = self.baths.Vbbp, self.baths.mtype
-        tLbbp_shape = Vbbp.shape + (2,)
-        self.tLbbp = np.zeros(tLbbp_shape, dtype=mtype)
+        nbaths, nmany, mtype = self.si.nbaths, self.si.nmany, self.baths.mtype
+        self.tLbbp = np.zeros((nbaths, nmany, nmany, 2), dtype=mtype)
 
     def clean_arrays(self):
         ApproachLindbladBase.clean_arrays(self)
-- 
2.43.0


From 7d104d089056dfe6754c08916bd122ed50c39802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 34/44] fix: 2vN leaves out removed coherences

Their index is -1; the compiled approach wrote outside of its arrays, the Python one added to the last element.
---
 qmeq/approach/base/c_neumann2.pyx |  6 ++++--
 qmeq/approach/base/neumann2.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 58cfbf8..3d9fb6a 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -173,11 +173,13 @@ cdef class TermsCalculator2vN:
             for j in range(bcount):
                 b1 = statesdm[bcharge, j]
                 b1b = kh.get_ind_dm0(b1, b, bcharge)
-                kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
+                if b1b != -1:  # Otherwise neglected coherence
+                    kern0[cb, b1b] = kern0[cb, b1b] + fp*Tba[l, c, b1]
             for j in range(ccount):
                 c1 = statesdm[ccharge, j]
                 cc1 = kh.get_ind_dm0(c, c1, ccharge)
-                kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
+                if cc1 != -1:
+                    kern0[cb, cc1] = kern0[cb, cc1] - fm*Tba[l, c1, b]
             # ---------------------------------------------------------------------------
             # Phi[1] terms
             # 2nd and 7th terms
diff --git a/qmeq/approach/base/neumann2.py b/qmeq/approach/base/neumann2.py
index 4e69f90..c892d80 100644
--- a/qmeq/approach/base/neumann2.py
+++ b/qmeq/approach/base/neumann2.py
@@ -289,6 +289,8 @@ class Approach2vN(ApproachBase2vN):
             for b, bp in itertools.combinations_with_replacement(statesdm[charge], 2):
                 bbp = si.get_ind_dm0(b, bp, charge)
                 bpb = si.get_ind_dm0(bp, b, charge)
+                if bbp == -1:  # Neglected coherence
+                    continue
                 shuffle[bbp, bpb] = 1
                 shuffle[bpb, bbp] = 1
         phi1_phi0_conj = np.dot(np.conjugate(phi1_phi0), shuffle)
@@ -300,6 +302,8 @@ class Approach2vN(ApproachBase2vN):
             ccharge = charge+1
             for b, bp in itertools.product(statesdm[bcharge], statesdm[bcharge]):
                 bbp = si.get_ind_dm0(b, bp, bcharge)
+                if bbp == -1:
+                    continue
                 kern[bbp, bbp] = E[b]-E[bp]
 
                 for a1 in statesdm[acharge]:
@@ -482,10 +486,12 @@ class TermsCalculator2vN(object):
                 # Phi[0] terms
                 for b1 in statesdm[bcharge]:
                     b1b = si.get_ind_dm0(b1, b, bcharge)
-                    kern0[cb, b1b] += +Tba[l, c, b1]*fp
+                    if b1b != -1:
+                        kern0[cb, b1b] += +Tba[l, c, b1]*fp
                 for c1 in statesdm[ccharge]:
                     cc1 = si.get_ind_dm0(c, c1, ccharge)
-                    kern0[cb, cc1] += -Tba[l, c1, b]*fm
+                    if cc1 != -1:
+                        kern0[cb, cc1] += -Tba[l, c1, b]*fm
                 # ---------------------------------------------------------------------------
                 # Phi[1] terms
                 # 2nd and 7th terms
-- 
2.43.0


From 422699a135396a7186fd9dfba881fadd60d2ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 35/44] fix: the Python RTD approach failed when coherences had
 been removed

---
 qmeq/approach/kernel_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmeq/approach/kernel_handler.py b/qmeq/approach/kernel_handler.py
index 1c30d5e..a0542a5 100644
--- a/qmeq/approach/kernel_handler.py
+++ b/qmeq/approach/kernel_handler.py
@@ -394,7 +394,10 @@ class KernelHandlerRTD(KernelHandler):
         self.Lnn : ndarray
             (Modifies) the anti-commutator Liouvillian connecting non-diagonal elements
         """
-        indx = self.si.get_ind_dm0(a1, b1, charge) - self.npauli
+        indx = self.si.get_ind_dm0(a1, b1, charge)
+        if indx == -1:  # Neglected coherence
+            return
+        indx -= self.npauli
         if a1 > b1:
             indx += self.ndm0 - self.npauli
         self.Lnn[indx, indx] += fct
-- 
2.43.0


From f75ca48b903edb8727641b75474cbe5cb900fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:47 +0000
Subject: [PATCH 36/44] fix: switching to or from 2vN restored removed
 coherences

---
 qmeq/builder/builder_base.py |  4 ++++
 qmeq/builder/various.py      | 30 +++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index d226ca7..d30f86b 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -18,6 +18,7 @@ from .various import print_state
 from .various import print_all_states
 from .various import sort_eigenstates
 from .various import remove_coherences
+from .various import neglect_elements
 from .various import remove_states
 from .various import use_all_states
 
@@ -168,6 +169,9 @@ class BuilderBase(object):
         if not isinstance(si, self.globals[icn]):
             self.si = self.globals[icn](si.nsingle, si.indexing, si.symmetry, si.nleads)
             self._copy_si_state(si, self.si)
+            neglected = np.asarray(si.mapdm0) == -1
+            if np.any(neglected & (np.asarray(self.si.mapdm0) != -1)):
+                neglect_elements(self.si, neglected)
             self.qd.si = self.si
             self.leads.si = self.si
         self.si.states_changed = True
diff --git a/qmeq/builder/various.py b/qmeq/builder/various.py
index b7f1ba7..9b47214 100644
--- a/qmeq/builder/various.py
+++ b/qmeq/builder/various.py
@@ -301,18 +301,38 @@ def remove_coherences(self, dE):
         (Modifies) List showing which density matrix elements are mapped to each other due to symmetries
         and which density matrix elements are neglected (entries with values -1).
     """
-    # Find which coherences to remove
     si, E = self.si, self.qd.Ea
+    neglected = np.zeros(si.ndm0_, dtype=bool)
+    for i in range(si.ndm0_):
+        if si.mapdm0[i] != -1:
+            b, bp = si.inddm0[si.mapdm0[i]]
+            neglected[i] = abs(E[b]-E[bp]) > dE
+    neglect_elements(si, neglected)
+
+
+def neglect_elements(si, neglected):
+    """
+    Leave out density matrix elements and number the remaining ones again.
+
+    Parameters
+    ----------
+    si : StateIndexingDM
+        StateIndexingDM or StateIndexingDMc object.
+    neglected : ndarray
+        Boolean array with an entry for every entry of si.mapdm0.
+
+    si.mapdm0 : list
+        (Modifies) Entries of neglected elements become -1.
+    """
+    # Find which elements remain
     ilst, indlst = [], []
     for i in range(si.ndm0_):
         if si.mapdm0[i] != -1:
-            ind = si.mapdm0[i]
-            b, bp = si.inddm0[ind]
-            if abs(E[b]-E[bp]) > dE:
+            if neglected[i]:
                 si.mapdm0[i] = -1
             else:
                 ilst.append(i)
-                indlst.append(ind)
+                indlst.append(si.mapdm0[i])
     # Count the new number of density matrix elements
     srt = multiarray_sort(np.array([ilst, indlst]), [1, 0])
     ilst, indlst = srt[0], srt[1]
-- 
2.43.0


From cf5a4de21398a32d459944cd65c6670ffc49b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:53 +0000
Subject: [PATCH 37/44] fix: switching a system with indexing 'ssq' to 2vN or
 RTD gave wrong results

Their state bookkeeping does not know the reduced density matrix of 'ssq',
and the sums of the occupations and the currents came out wrong without
notice. A new system of this kind falls back on other indexing or is refused;
switching kerntype is now refused as well.
---
 qmeq/builder/builder_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index d30f86b..1e1c6f4 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -192,7 +192,11 @@ class BuilderBase(object):
         if isinstance(value, str):
             if self.appr.kerntype != value:
                 approach_string = value[0].capitalize() + value[1:]
-                self.Approach = self.globals['Approach'+approach_string]
+                approach = self.globals['Approach'+approach_string]
+                if self.si.indexing == 'ssq' and approach.kerntype in {'py2vN', '2vN', 'pyRTD', 'RTD'}:
+                    raise ValueError('The '+value+' approach cannot be used with indexing=\'ssq\'. '
+                                     + 'Consider constructing a new system using indexing=\'charge\'.')
+                self.Approach = approach
                 self.change_si()
                 self.appr = self.Approach(self)
         else:
-- 
2.43.0


From 78b3dce2a4a55478c43c287923c9eaed6c53a684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 38/44] fix: add with updateq=False took raw values only

The additions were not brought into the form of the recorded values: a missing
hsingle or coulomb and lists or arrays raised an error, and with
symmetry='spin' only one spin was changed.
---
 qmeq/baths.py    | 2 +-
 qmeq/leadstun.py | 2 +-
 qmeq/qdot.py     | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index 0f0f59a..ff308a2 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -249,8 +249,8 @@ class PhononBaths(object):
                 self.dlst_ph += make_array_dlst(None, dlst_ph, self.si, self.si.nbaths, False)
         if velph is not None:
             velph_new = dict(self.velph)
+            velph = make_velph_dict(velph, self.si)
             if updateq:
-                velph = make_velph_dict(velph, self.si)
                 for j0 in velph:
                     if j0 in velph_new:
                         velph_new[j0] += velph[j0]
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index 01ab81f..e166160 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -465,8 +465,8 @@ class LeadsTunneling(object):
                 self.dlst += make_array_dlst(None, dlst, self.si)
         if tleads is not None:
             tleads_new = dict(self.tleads)
+            tleads = make_tleads_dict(tleads, self.si)
             if updateq:
-                tleads = make_tleads_dict(tleads, self.si)
                 for j0 in tleads:
                     if j0 in tleads_new:
                         tleads_new[j0] += tleads[j0]
diff --git a/qmeq/qdot.py b/qmeq/qdot.py
index 283a466..846399d 100644
--- a/qmeq/qdot.py
+++ b/qmeq/qdot.py
@@ -759,7 +759,7 @@ class QuantumDot(object):
             self.valslst = [None]*si.ncharge
             self.vecslst = [None]*si.ncharge
             self.hamlst = [None]*si.ncharge
-        self.add(self.hsingle, self.coulomb, False)
+        self._set_hamiltonian(self.hsingle, self.coulomb, self.hsingle, self.coulomb)
         self.Ea = np.zeros(si.nmany, dtype=float)
         self.Ea_ext = None
 
@@ -782,9 +782,9 @@ class QuantumDot(object):
             The many-body Hamiltonian will be updates in either case.
         """
         hsingle_new, coulomb_new = dict(self.hsingle), dict(self.coulomb)
+        hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
+        coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
         if updateq:
-            hsingle = {} if hsingle is None else make_hsingle_dict(self, hsingle)
-            coulomb = {} if coulomb is None else make_coulomb_dict(self, coulomb)
             for j0 in hsingle:
                 if j0 in hsingle_new:
                     hsingle_new[j0] += hsingle[j0]
-- 
2.43.0


From 34f9c81128b20584e5eaaa14de13d10bf479b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 39/44] fix: the Python RTD approach failed for nearly equal
 temperatures

Whether poles are needed and which integrals use them was decided with three
different tolerances. Now as in the compiled approach.
---
 qmeq/approach/base/RTD.py | 2 +-
 qmeq/specfunc/specfunc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index d4eeefa..3c3e1b4 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -121,7 +121,7 @@ class ApproachPyRTD(Approach):
         ncharge, statesdm = si.ncharge, si.statesdm
         self.off_diag_corrections = self.funcp.off_diag_corrections
 
-        if (not np.all(np.isclose(self.leads.tlst, self.leads.tlst[0]))) or np.any(abs(self.leads.Tba.imag)>0):
+        if np.any(self.leads.tlst != self.leads.tlst[0]) or np.any(abs(self.leads.Tba.imag)>0):
             self.set_Ozaki_params()
 
         for bcharge in range(ncharge):
diff --git a/qmeq/specfunc/specfunc.py b/qmeq/specfunc/specfunc.py
index 6b9f7de..84681ae 100644
--- a/qmeq/specfunc/specfunc.py
+++ b/qmeq/specfunc/specfunc.py
@@ -542,7 +542,7 @@ def integralX(p1, eta1, E1, E2, E3, T1, T2, mu1, mu2, D, b_and_R, ImGamma):
         The integral value
     """
 
-    TMIN = 1e-10
+    TMIN = 1e-5
     if abs(T2-T1) < TMIN and not ImGamma:
         lambda1 = (E1 - mu1) / T1
         lambda2 = (E2 - mu1 - eta1 * mu2) / T1
-- 
2.43.0


From 2c0b0bc4900fb1e92373b18e9ff59d18fa38301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 40/44] fix: RTD used an itype that it does not support

The constructor replaces itype by 1 for this approach, but a later
assignment, or a switch from another approach, left the unsupported value,
which cuts the rates at the band edges.
---
 qmeq/approach/base/RTD.py    | 2 +-
 qmeq/approach/base/c_RTD.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmeq/approach/base/RTD.py b/qmeq/approach/base/RTD.py
index 3c3e1b4..14bb8c1 100644
--- a/qmeq/approach/base/RTD.py
+++ b/qmeq/approach/base/RTD.py
@@ -258,7 +258,7 @@ class ApproachPyRTD(Approach):
         mulst, tlst, dlst = self.leads.mulst, self.leads.tlst, self.leads.dlst
         ncharge, nleads, statesdm = si.ncharge, si.nleads, si.statesdm
 
-        itype = self.funcp.itype
+        itype = 1  # the only one that this approach supports
         paulifct = self.paulifct
         for charge in range(ncharge-1):
             ccharge = charge+1
diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 895c6fd..828ebc6 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -299,7 +299,7 @@ cdef class ApproachRTD(Approach):
         tlst = self._tlst
         dlst = self._dlst
         nleads = kh.nleads
-        itype = self.funcp.itype
+        itype = 1  # the only one that this approach supports
         paulifct = self._paulifct
         rez = self.rez
 
-- 
2.43.0


From b6b52cc338f762f98346f416866dc3b8e938afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 41/44] fix: solmethod could not be set after an interrupted
 preparation

The setter made a solver from arrays of which only the first existed.
---
 qmeq/approach/c_aprclass.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index c3ee42b..39583ae 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -177,7 +177,7 @@ cdef class Approach:
 
     def prepare_solver(self):
         ApproachPy.prepare_solver(self)
-        if self.funcp.mfreeq or self.kern is None:
+        if self.funcp.mfreeq or self.kern is None or self.bvec is None:
             return
 
         solmethod = self.funcp.solmethod
-- 
2.43.0


From 98222b4676d31ff1c7e5d4abbb6df0869da1ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 42/44] fix: an approach given as a class raised an error, or
 was ignored when assigned

The constructor read the approach before it existed for Python classes, and
compiled classes are not subclasses of the Python Approach: assigning one to
kerntype left the system as it was.
---
 qmeq/builder/builder_base.py | 46 +++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/qmeq/builder/builder_base.py b/qmeq/builder/builder_base.py
index 1e1c6f4..8cce052 100644
--- a/qmeq/builder/builder_base.py
+++ b/qmeq/builder/builder_base.py
@@ -39,6 +39,7 @@ from ..approach.base.RTD import ApproachPyRTD as ApproachPyRTD
 # Cython compiled modules
 
 try:
+    from ..approach.c_aprclass import Approach as CompiledApproach
     from ..approach.base.c_pauli import ApproachPauli
     from ..approach.base.c_lindblad import ApproachLindblad
     from ..approach.base.c_redfield import ApproachRedfield
@@ -47,6 +48,7 @@ try:
     from ..approach.base.c_RTD import ApproachRTD
 except ImportError as ie:
     print("WARNING: Cannot import Cython compiled modules for the approaches (builder_base.py).")
+    CompiledApproach = Approach
     ApproachPauli = ApproachPyPauli
     ApproachLindblad = ApproachPyLindblad
     ApproachRedfield = ApproachPyRedfield
@@ -110,23 +112,29 @@ class BuilderBase(object):
 
     def _init_validate_data(self):
         data = self.data
-        data.itype = validate_itype(data.itype, data.kerntype)
+        # The name of the approach also if its class is given
+        name = getattr(data.kerntype, 'kerntype', data.kerntype)
+        data.itype = validate_itype(data.itype, name)
         data.kerntype = validate_kerntype(data.kerntype)
+        name = getattr(data.kerntype, 'kerntype', data.kerntype)
         data.indexing, data.symmetry = validate_indexing(data.indexing,
                                           data.symmetry,
-                                          data.kerntype)
+                                          name)
 
     def _init_set_globals(self):
         self.globals = globals()
 
     def _init_set_approach_class(self):
-        kerntype = self.data.kerntype
+        self.Approach = self._get_approach_class(self.data.kerntype)
+
+    def _get_approach_class(self, kerntype):
+        """Returns the Approach class for the name of an approach or for a class."""
         if isinstance(kerntype, str):
             approach_string = kerntype[0].capitalize() + kerntype[1:]
-            self.Approach = self.globals['Approach'+approach_string]
-        elif issubclass(kerntype, Approach):
-            self.Approach = kerntype
-            self.kerntype = self.Approach.kerntype
+            return self.globals['Approach'+approach_string]
+        if isinstance(kerntype, type) and issubclass(kerntype, (Approach, CompiledApproach)):
+            return kerntype
+        raise TypeError('kerntype has to be a string or an Approach class')
 
     def _init_create_setup(self):
         data = self.data
@@ -189,21 +197,15 @@ class BuilderBase(object):
         return self.appr.kerntype
 
     def set_kerntype(self, value):
-        if isinstance(value, str):
-            if self.appr.kerntype != value:
-                approach_string = value[0].capitalize() + value[1:]
-                approach = self.globals['Approach'+approach_string]
-                if self.si.indexing == 'ssq' and approach.kerntype in {'py2vN', '2vN', 'pyRTD', 'RTD'}:
-                    raise ValueError('The '+value+' approach cannot be used with indexing=\'ssq\'. '
-                                     + 'Consider constructing a new system using indexing=\'charge\'.')
-                self.Approach = approach
-                self.change_si()
-                self.appr = self.Approach(self)
-        else:
-            if issubclass(value, Approach):
-                self.Approach = value
-                self.change_si()
-                self.appr = self.Approach(self)
+        if isinstance(value, str) and self.appr.kerntype == value:
+            return
+        approach = self._get_approach_class(value)
+        if self.si.indexing == 'ssq' and approach.kerntype in {'py2vN', '2vN', 'pyRTD', 'RTD'}:
+            raise ValueError('The '+approach.kerntype+' approach cannot be used with indexing=\'ssq\'. '
+                             + 'Consider constructing a new system using indexing=\'charge\'.')
+        self.Approach = approach
+        self.change_si()
+        self.appr = self.Approach(self)
     kerntype = property(get_kerntype, set_kerntype)
 
     # indexing
-- 
2.43.0


From e04f66985bd1cb4812c9cebc4edfc8ccfb9e1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 43/44] fix: the compiled approaches rejected real and integer
 parameter arrays

With mtype_leads=float, or arrays of another type assigned by the user, the
Python approaches work and the compiled ones raised a ValueError.
---
 qmeq/approach/base/c_RTD.pyx      |  4 ++--
 qmeq/approach/base/c_lindblad.pyx |  3 +--
 qmeq/approach/base/c_neumann2.pyx |  4 ++--
 qmeq/approach/c_aprclass.pyx      | 16 ++++++++--------
 4 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/qmeq/approach/base/c_RTD.pyx b/qmeq/approach/base/c_RTD.pyx
index 828ebc6..3fb265f 100644
--- a/qmeq/approach/base/c_RTD.pyx
+++ b/qmeq/approach/base/c_RTD.pyx
@@ -135,7 +135,7 @@ cdef class ApproachRTD(Approach):
 
     cdef void set_parameter_views(self) except *:
         Approach.set_parameter_views(self)
-        self._tleads_array = self.leads.tleads_array
+        self._tleads_array = np.asarray(self.leads.tleads_array, dtype=complexnp)
 
 
     cdef void clean_arrays(self) except *:
@@ -252,7 +252,7 @@ cdef class ApproachRTD(Approach):
         current = self._current
         energy_current = self._energy_current
         heat_current = self._heat_current
-        mulst = self.leads.mulst
+        mulst = self._mulst
         nleads = kh.nleads
         Ea = self._Ea
         LE = np.zeros(kh.npauli, dtype=doublenp)
diff --git a/qmeq/approach/base/c_lindblad.pyx b/qmeq/approach/base/c_lindblad.pyx
index 16deed8..88faf37 100644
--- a/qmeq/approach/base/c_lindblad.pyx
+++ b/qmeq/approach/base/c_lindblad.pyx
@@ -38,8 +38,7 @@ cdef class ApproachLindblad(Approach):
 
     cdef void prepare_arrays(self) except *:
         Approach.prepare_arrays(self)
-        Tba, mtype = self.leads.Tba, self.leads.mtype
-        self.tLba = np.zeros(Tba.shape, dtype=mtype)
+        self.tLba = np.zeros(self.leads.Tba.shape, dtype=complexnp)
 
         self._tLba = self.tLba
         self._rez_real = np.zeros(2, dtype=doublenp)
diff --git a/qmeq/approach/base/c_neumann2.pyx b/qmeq/approach/base/c_neumann2.pyx
index 3d9fb6a..8e07b8d 100644
--- a/qmeq/approach/base/c_neumann2.pyx
+++ b/qmeq/approach/base/c_neumann2.pyx
@@ -107,8 +107,8 @@ cdef class TermsCalculator2vN:
         self.Ek_grid = self.appr.Ek_grid
         self.Ek_grid_ext = self.appr.Ek_grid_ext
 
-        self.Ea = self.appr.qd.Ea
-        self.Tba = self.appr.leads.Tba
+        self.Ea = np.asarray(self.appr.qd.Ea, dtype=doublenp)
+        self.Tba = np.asarray(self.appr.leads.Tba, dtype=complexnp)
 
         self.fkp = self.appr.fkp
         self.fkm = self.appr.fkm
diff --git a/qmeq/approach/c_aprclass.pyx b/qmeq/approach/c_aprclass.pyx
index 39583ae..ed28c51 100644
--- a/qmeq/approach/c_aprclass.pyx
+++ b/qmeq/approach/c_aprclass.pyx
@@ -160,12 +160,12 @@ cdef class Approach:
         check_shape('Ea', self.qd.Ea, (nmany,))
         check_shape('Tba', self.leads.Tba, (nleads, nmany, nmany))
 
-        self._tlst = self.leads.tlst
-        self._mulst = self.leads.mulst
-        self._dlst = self.leads.dlst
+        self._tlst = np.asarray(self.leads.tlst, dtype=doublenp)
+        self._mulst = np.asarray(self.leads.mulst, dtype=doublenp)
+        self._dlst = np.asarray(self.leads.dlst, dtype=doublenp)
 
-        self._Ea = self.qd.Ea
-        self._Tba = self.leads.Tba
+        self._Ea = np.asarray(self.qd.Ea, dtype=doublenp)
+        self._Tba = np.asarray(self.leads.Tba, dtype=complexnp)
 
     def prepare_kernel_handler(self):
         if self.funcp.mfreeq:
@@ -323,9 +323,9 @@ cdef class ApproachElPh(Approach):
         check_shape('dlst_ph', self.baths.dlst_ph, (nbaths, 2))
         check_shape('Vbbp', self.baths.Vbbp, (nbaths, nmany, nmany))
 
-        self._tlst_ph = self.baths.tlst_ph
-        self._dlst_ph = self.baths.dlst_ph
-        self._Vbbp = self.baths.Vbbp
+        self._tlst_ph = np.asarray(self.baths.tlst_ph, dtype=doublenp)
+        self._dlst_ph = np.asarray(self.baths.dlst_ph, dtype=doublenp)
+        self._Vbbp = np.asarray(self.baths.Vbbp, dtype=complexnp)
 
     cdef void clean_arrays(self) except *:
         pass
-- 
2.43.0


From 95cbe5e41760e9a62108de322551455fd4d4e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:25 +0000
Subject: [PATCH 44/44] fix: change() truncated new values after integer lists
 or arrays had been assigned

system.mulst = [1, -1] followed by system.change(mulst={0: 0.5}) stored 0, as
the assigned list, or integer array, was written to; add() raised an error.
---
 qmeq/baths.py    | 9 +++++++++
 qmeq/leadstun.py | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/qmeq/baths.py b/qmeq/baths.py
index ff308a2..5bfd32a 100644
--- a/qmeq/baths.py
+++ b/qmeq/baths.py
@@ -9,6 +9,8 @@ from .leadstun import construct_full_pmtr
 from .leadstun import make_array
 from .leadstun import make_array_dlst
 
+from .wrappers.mytypes import doublenp
+
 
 def elph_construct_Vbbp(baths, velph, Vbbp_=None):
     """
@@ -222,6 +224,11 @@ class PhononBaths(object):
         self.Vbbp0 = elph_construct_Vbbp(self, self.velph)
         self.Vbbp = np.array(self.Vbbp0)
 
+    def _use_double(self):
+        """Converts lists and integer arrays assigned by the user, which cannot hold the values to come."""
+        self.tlst_ph = np.asarray(self.tlst_ph, dtype=doublenp)
+        self.dlst_ph = np.asarray(self.dlst_ph, dtype=doublenp)
+
     def add(self, velph=None, tlst_ph=None, dlst_ph=None, updateq=True, lstq=True):
         """
         Adds a value to single particle electron-phonon couplings
@@ -242,6 +249,7 @@ class PhononBaths(object):
         lstq : bool
             Determines if the values will be added to tlst_ph, dlst_ph.
         """
+        self._use_double()
         if lstq:
             if tlst_ph is not None:
                 self.tlst_ph += make_array(None, tlst_ph, self.si, self.si.nbaths, False)
@@ -288,6 +296,7 @@ class PhononBaths(object):
         dlst_ph : dict, list or ndarray
             Dictionary, list or numpy array containing bandwidths of the phonon baths.
         """
+        self._use_double()
         if tlst_ph is not None:
             self.tlst_ph[:] = make_array(self.tlst_ph, tlst_ph, self.si, self.si.nbaths, False)
         if dlst_ph is not None:
diff --git a/qmeq/leadstun.py b/qmeq/leadstun.py
index e166160..8dc7c39 100644
--- a/qmeq/leadstun.py
+++ b/qmeq/leadstun.py
@@ -440,6 +440,12 @@ class LeadsTunneling(object):
         self.Tba0 = construct_Tba(self, self.tleads)
         self.Tba = np.array(self.Tba0)
 
+    def _use_double(self):
+        """Converts lists and integer arrays assigned by the user, which cannot hold the values to come."""
+        self.mulst = np.asarray(self.mulst, dtype=doublenp)
+        self.tlst = np.asarray(self.tlst, dtype=doublenp)
+        self.dlst = np.asarray(self.dlst, dtype=doublenp)
+
     def add(self, tleads=None, mulst=None, tlst=None, dlst=None, updateq=True, lstq=True):
         """
         Adds a value to single particle tunneling amplitudes and correspondingly redefines
@@ -456,6 +462,7 @@ class LeadsTunneling(object):
         lstq : bool
             Determines if the values will be added to mulst, tlst, dlst.
         """
+        self._use_double()
         if lstq:
             if mulst is not None:
                 self.mulst += make_array(None, mulst, self.si)
@@ -501,6 +508,7 @@ class LeadsTunneling(object):
             Dictionaries describing what values to change.
             For example, tleads[(lead, state)] = the new value.
         """
+        self._use_double()
         if mulst is not None:
             self.mulst[:] = make_array(self.mulst, mulst, self.si)
         if tlst is not None:
-- 
2.43.0

