From ab97f16ad02f22630932fc1fc22e7ca5df5b4634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 01/20] fix: delete element and material type together with the
 element

---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..80d5986 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -103,6 +103,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From fffc21cff1b9ab86cae7e262095ef89d90e4ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 02/20] fix: store element properties as float whatever the
 type of the first element

---
 src/trusspy/handlers/handler_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 80d5986..6bcf9a5 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,8 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array([E.geometric_properties], dtype=float)
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 6e53411b46155fd950cd03c9f1b753912f9bba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 03/20] fix: keep one row per boundary also for a single
 boundary

---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..b981f3d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From 379d94677e7d089dcfcd33c33877a8ba897823eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 04/20] fix: thermal boundaries refer to elements

---
 src/trusspy/handlers/handler_boundary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index b981f3d..ceee683 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -72,11 +72,11 @@ class BoundaryHandler:
 
     def add_bound_T(self, B):
         # add thermal boundary
-        if self.Tnodes is None:
-            self.Tnodes = np.array([B.node])
+        if self.Telements is None:
+            self.Telements = np.array([B.element])
             self.Tvalues = np.array(B.value)
         else:
-            self.Tnodes = np.append(self.Tnodes, B.node)
+            self.Telements = np.append(self.Telements, B.element)
             self.Tvalues = np.vstack((self.Tvalues, B.value))
 
     def add_bounds_T(self, BB):
-- 
2.43.0


From 439fb8d95d58c0230b0022c6410316fcc5db6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 05/20] fix: build models without any external force

---
 src/trusspy/handlers/handler_extforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7e703ab..525e78d 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -43,8 +43,11 @@ class ExternalForceHandler:
         for F in FF:
             self.add_force(F)
 
-    def fix_forces(self, nodelist):
+    def fix_forces(self, nodelist, nsteps=1):
         # check for missing external forces --> set them all to zero
+        if self.nodes is None:
+            self.nodes = np.array([], dtype=int)
+            self.forces = np.zeros((0, 3 * nsteps))
 
         # are nodelist entries in force-nodes?
         mask = np.isin(nodelist, self.nodes, invert=True)
-- 
2.43.0


From 7c2d0b9831adeb5460fd96b19397cc9c4554e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 06/20] fix: reject elements with an unknown material type

---
 src/trusspy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..9cf01c8 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -539,6 +539,8 @@ Dutzler Andreas, Graz University of Technology, 2023
                 umat = umat_el
             elif mat_type == 2:
                 umat = umat_elplast_iso
+            else:
+                raise ValueError(f"Unknown material type {mat_type} of element {e}.")
 
             self.Analysis, state_v = truss(
                 e,
-- 
2.43.0


From f4701ee6796cef6c181badb3df5aa8325963672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 07/20] fix: print the initial control component

---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 9cf01c8..4e8be70 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 == None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
-- 
2.43.0


From 47a4a58db33ed5d9a67f68ace040a3af24dbca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 08/20] fix: give back the standard output stream when a run
 fails

---
 src/trusspy/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 4e8be70..1bdf0cf 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -201,6 +201,14 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        try:
+            self._run()
+        finally:
+            # give back the standard output stream
+            if self.logfile:
+                sys.stdout = self.stdout
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -437,9 +445,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From b5c06de107e80617f07b052179d2210508c51c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 09/20] fix: use the initial control component also if it is
 not locked

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..8047e0a 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -324,7 +324,7 @@ def pathfollow(
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-    if not j_fixed:
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From 74a16517a6257d6599124e208ec299a826999fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 10/20] fix: solve the increment also if the linear predictor
 meets the tolerances

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 8047e0a..1688111 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -410,7 +410,7 @@ def pathfollow(
         # -----------------------------------------------------------------
 
         # recylce loop
-        while nr_success_pre is not True:
+        while True:
             if verbose > 1:
                 print("")
             if verbose > 1:
-- 
2.43.0


From 3218818215970d5c5f0878aa2da9d4e97386be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 11/20] fix: no external force means zero force in every step

---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 1bdf0cf..3a040f3 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -141,7 +141,7 @@ Dutzler Andreas, Graz University of Technology, 2023
         # fix node sorting, undefined boundaries and undefined external forces
         self.Nodes.fix_nodes()
         self.Boundaries.fix_bounds_U(self.Nodes.labels)
-        self.ExtForces.fix_forces(self.Nodes.labels)
+        self.ExtForces.fix_forces(self.Nodes.labels, self.Settings.nsteps)
 
         if not (
             np.allclose(self.Nodes.labels, self.Boundaries.Unodes)
-- 
2.43.0


From 2c2943bfa852940d69353cb6553d67e11eb13b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 12/20] fix: do not record a solution that is not converged

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 3a040f3..375f270 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -405,7 +405,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 1688111..6924364 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -541,8 +541,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error, the last solution is not valid
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -554,10 +557,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From e478cf254f41ef36ebef625f9c34d498da07f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 13/20] fix: reject newton iterations without any iteration

---
 src/trusspy/solvers/zerosearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trusspy/solvers/zerosearch.py b/src/trusspy/solvers/zerosearch.py
index 5deb5c3..e73f84b 100644
--- a/src/trusspy/solvers/zerosearch.py
+++ b/src/trusspy/solvers/zerosearch.py
@@ -85,6 +85,9 @@ def newton(f, dfdx, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
     True
     """
 
+    if nfev < 1:
+        raise ValueError("At least one iteration is necessary.")
+
     success = False
 
     # NEWTON-RHAPSON ITERATIONS
-- 
2.43.0


From 00059f449dad6400f5ba07836122df9e016ded6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 14/20] fix: iterate at least once after the pre-identification
 of j

---
 src/trusspy/solvers/tpsolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 6924364..fd2f53a 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -435,7 +435,7 @@ def pathfollow(
                 x = x0 + Dx_pre / abs(Dxs_pre[-1])
 
             x, nr_success, n, f_norm, x_norm = newton(
-                f, dfdx, x, nfev - n_pre, ftol, xtol, verbose, *args
+                f, dfdx, x, max(nfev - n_pre, 1), ftol, xtol, verbose, *args
             )
 
             # TOTAL INCREMENTAL SOLUTION
@@ -497,7 +497,7 @@ def pathfollow(
                     nr_success,
                     b,
                     n,
-                    nfev - n_pre,
+                    max(nfev - n_pre, 1),
                     minfac,
                     maxfac,
                     reduce,
-- 
2.43.0


From d3b5380be61a9856e45a130afd9ba3f1761d9d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 15/20] fix: keep the order of movie frames beyond 999
 increments

---
 src/trusspy/tools/movie_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..90f7300 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,7 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From 91562c2784061e1a37d47cb75ad93114e5ed5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 16/20] fix: state variables belong to elements, not to nodes

---
 src/trusspy/tools/plot_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..217473c 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -219,7 +219,7 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
             y = R.r[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]]
         elif "State Variable" in Y:
             stv_index = int(Y[-1]) - 1
-            y = R.state_v[np.where(self.Nodes.labels == node)][0][stv_index]
+            y = R.state_v[np.where(self.Elements.labels == node)][0][stv_index]
         xx.append(x)
         yy.append(y)
 
@@ -246,7 +246,7 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
             x = R.r[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[X[-1]]]
         elif "State Variable" in X:
             stv_index = int(X[-1]) - 1
-            x = R.state_v[np.where(self.Nodes.labels == nodes[0])][0][stv_index]
+            x = R.state_v[np.where(self.Elements.labels == nodes[0])][0][stv_index]
 
         if "Displacement" in Y:
             y = R.U[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]
@@ -256,7 +256,7 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
             y = R.r[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]
         elif "State Variable" in Y:
             stv_index = int(Y[-1]) - 1
-            y = R.state_v[np.where(self.Nodes.labels == nodes[1])][0][stv_index]
+            y = R.state_v[np.where(self.Elements.labels == nodes[1])][0][stv_index]
         xx.append(x)
         yy.append(y)
 
-- 
2.43.0


From c5caf8f7c472f60e3aa6a3df0dc14e67d6c1d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 17/20] fix: draw elements between their own nodes for any node
 labels

---
 src/trusspy/tools/plot_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 217473c..ac15ff9 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -121,7 +121,8 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        # plot_elems counts nodes from one, in the order of the (sorted) labels
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From 8a68ee1a1c831e07743180081d227c4cab0c8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:23 +0000
Subject: [PATCH 18/20] fix: plot nodes, elements and external forces alone

---
 src/trusspy/tools/plot_utilities.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index ac15ff9..c65454e 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -15,18 +15,28 @@ from .helper_functions2 import plot_elems, plot_force, plot_hist, plot_nodes, pl
 from .movie_generator import png_to_gif
 
 
-def p_nodes(self):
-    plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
+def p_coords(self, config="undeformed"):
+    if config == "undeformed":
+        return self.Nodes.coords
+    return self.Nodes.coords + self.Results.R[-1].U
 
 
-def p_elements(self):
-    plot_elems(self.Elements.conns, self.Nodes.coords + self.Results.U, color="C0")
+def p_nodes(self, config="undeformed"):
+    plot_nodes(p_coords(self, config), color="C1")
 
 
-def p_extforces(self, step=1):
+def p_elements(self, config="undeformed"):
+    plot_elems(
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
+        p_coords(self, config),
+        color="C0",
+    )
+
+
+def p_extforces(self, config="undeformed", step=1):
     plot_force(
         self.ExtForces.forces[:, 3 * (step - 1) : 3 * step],
-        self.Nodes.coords + self.Results.U,
+        p_coords(self, config),
     )
 
 
-- 
2.43.0


From d1fff2cf5de04e96ef5d58ca93992595677cb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 19/20] fix: accept a list with one incremental limit per
 component

---
 src/trusspy/solvers/tpsolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index fd2f53a..cf8b708 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -317,6 +317,8 @@ def pathfollow(
             dxm[:-1] = np.ones(len(x) - 1) * dxmax[0]
             dxm[-1] = dxmax[-1]
             dxmax = dxm
+        else:
+            dxmax = np.array(dxmax, dtype=float)
 
     except:
         # if dxmax is a scalar: assign it to every component of dx
-- 
2.43.0


From 4518c01426d9edd996facb5be2ed499ac332b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 20/20] fix: Element accepts property arrays with more than one
 item

---
 src/trusspy/core/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/core/element.py b/src/trusspy/core/element.py
index 37f144b..d406c1a 100644
--- a/src/trusspy/core/element.py
+++ b/src/trusspy/core/element.py
@@ -68,12 +68,12 @@ class Element:
         self.elem_type = elem_type
         self.mat_type = mat_type
 
-        if material_properties != [np.nan] and mprop is not None:
+        if mprop is not None and list(material_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Material Properties. Use either "material_properties" or "mprop", not both.'
             )
 
-        if geometric_properties != [np.nan] and gprop is not None:
+        if gprop is not None and list(geometric_properties) != [np.nan]:
             raise TypeError(
                 'Wrong Geometric Properties. Use either "geometric_properties" or "gprop", not both.'
             )
-- 
2.43.0

