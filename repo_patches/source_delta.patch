From ece97a2fcd65d1e24b3e9818c1406e6fb9d306a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 1/8] fix: refuse repeated row labels with IndexError in
 Net.check and Mesh.check

---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From f9cf50070ecba85b4922268ab0d80dd9c50af60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 2/8] fix: Stack keeps only the connections of the network it
 is given

---
 src/fibermat/net.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..221223a 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -572,8 +572,16 @@ class Stack(Net):
         if linsol:
             # Update DataFrames
             mat.z = linsol.x
+            labels = net[[*"AB"]].values
             net = Net(mat, **net.attrs)
 
+            # Keep only the connections of the initial network (and end nodes)
+            mask = np.isin(net[[*"AB"]].values @ [len(mat), 1],
+                           labels @ [len(mat), 1])
+            mask |= (net.A.values == net.B.values)
+            net = net[mask]
+            net.reset_index(drop=True, inplace=True)
+
             # Remove nodes based on threshold distances between nodes
             mask = np.zeros(len(net))
             # : 0 if removed node
-- 
2.43.0


From 0d0500d3d2af3892ea58ccb9567a99d3f4ce7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 3/8] fix: stiffness, constraint and solve accept empty inputs

---
 src/fibermat/model.py  | 13 +++++++------
 src/fibermat/solver.py |  8 +++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..52e2745 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -132,11 +132,12 @@ def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):
     # Get material data
     fiber = mat.loc[fiber]
     l = mesh.s.loc[j].values - mesh.s.loc[i].values
-    if lmin is None:
-        lmin = np.min(l)
-    if lmax is None:
-        lmax = np.max(l)
-    l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
+    if len(l):
+        if lmin is None:
+            lmin = np.min(l)
+        if lmax is None:
+            lmax = np.max(l)
+        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
 
     # Timoshenko number : Ψ² = E / G * (h / l) ^ 2
     k0 = np.pi / 4 * fiber[[*"Gbh"]].prod(axis=1).values / l
@@ -268,7 +269,7 @@ def constraint(mat, mesh, **kwargs):
     zj = mesh.z.loc[j].values
     hi = mesh.h.loc[i].values
     hj = mesh.h.loc[j].values
-    Z = (mesh.z.values + 0.5 * mesh.h.values).max()  # : upper boundary position
+    Z = (mesh.z.values + 0.5 * mesh.h.values).max(initial=-np.inf)  # : upper boundary position
     i *= 2
     j *= 2
     k *= 3
diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..2f5a444 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -104,6 +104,12 @@ def solve(mat, mesh, packing=1., itermax=1000,
         Additional keyword arguments passed to matrix constructors.
 
     """
+    # Optional
+    if mat is None:
+        mat = Mat()
+    if mesh is None:
+        mesh = Mesh()
+
     # Assemble the quadratic programming system
     # TODO: pass a model as argument instead
     K, u, F, du, dF = stiffness(mat, mesh, **kwargs)
@@ -126,7 +132,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
     f_ = [f.copy()]
     F_ = [F.copy()]
     H_ = [H.copy()]
-    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max()]
+    Z_ = [(mesh.z.values + 0.5 * mesh.h.values).max() if len(mesh) else 0.0]
     rlambda_ = [1.0]
     mask_ = [(np.real(q - P @ x) <= tol)]
     err_ = [0]
-- 
2.43.0


From 6985558dcb02442484918e918f0ca3fd490a5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 4/8] fix: Interpolate returns single values and infinite
 bounds instead of NaN

---
 src/fibermat/interpolation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..1f133d8 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -58,12 +58,18 @@ class Interpolate(interp1d):
 
         """
         t = np.linspace(0, 1, len(y))
-        f = interp1d(t, y, axis=0,
+        # A single value is interpolated as a constant
+        x, y_ = (t, y) if len(y) > 1 else (np.array([0., 1.]), [*y, *y])
+        f = interp1d(x, y_, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
+        # Components that are always infinite (interp1d returns NaN)
+        self.infinite = np.all(np.isinf(np.array(y)), axis=0)
+        self.y0 = np.array(y[0])
         if size is not None:
             t = np.linspace(0, 1, size)
+            x = t if size > 1 else x
         # Initialize interpolation
-        super().__init__(t, f(t), axis=0,
+        super().__init__(x, f(x), axis=0,
                          bounds_error=False, fill_value=y[-1], **kwargs)
         # Set attributes
         self.t = t
@@ -86,7 +92,8 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        y = np.where(self.infinite, self.y0, super().__call__(t))
+        return y.astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0


From 569ba0c0d7f4773f2eece638c33c7c178155fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 5/8] fix: Settings recognises every infinite shear or tensile
 value

---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 7b44ed9188af250de90c0ff8cedfdd0ce0e282f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 6/8] fix: do not store a step whose error is not a number

With an inexact linear solver a later step can have a singular system; its error is
then NaN, which passed the test err > errtol, and NaN displacements were stored.
---
 src/fibermat/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 2f5a444..751a5ff 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -166,7 +166,7 @@ def solve(mat, mesh, packing=1., itermax=1000,
                 dU = -min(d[(d > tol) & (v > 0)] / v[(d > tol) & (v > 0)])
                 # Stopping criteria
                 stop = False
-                if err > errtol:
+                if not err <= errtol:
                     if verbose:
                         warnings.warn("Stopping criteria: err = {}".format(err),
                                       UserWarning)
-- 
2.43.0


From 2119728faac5a1f902db31e7b89a763226508c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 7/8] fix: vtk_mesh passes its keyword arguments on to
 vtk_fiber, as documented

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..7a86f6e 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -235,7 +235,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0


From bb5a2c1eb33ede2df50ba7ec9f50e493e8743416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:30 +0000
Subject: [PATCH 8/8] fix: interpolate exported fields between distinct nodes
 when nodes of a fiber coincide

---
 src/fibermat/render.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 7a86f6e..e2bd8fb 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -5,7 +5,6 @@ import numpy as np
 import pyvista as pv
 from matplotlib import pyplot as plt
 from scipy.interpolate import CubicHermiteSpline
-from sklearn.neighbors import KDTree
 from tqdm import tqdm
 
 from fibermat import Mat, Net, Stack, Mesh, solve
@@ -221,10 +220,9 @@ def vtk_mesh(mat=None, mesh=None,
         fiber = by_fiber.get_group(i)
         s = fiber.s.values[:, None]
         x = msh["xyz"][:, [0]] * 0.9999
-        k = KDTree(s).query(x, return_distance=False).ravel()
         s, x = s.ravel(), x.ravel()
-        # Correct indices (s_k <= x_i < s_{k+1}, k \in [-1, n])
-        k = k * (x > s[k]) + (k - 1) * (x <= s[k])
+        # Previous nodes (s_k < x_i <= s_{k+1}, k \in [-1, n])
+        k = np.searchsorted(s, x) - 1
         # Indices containing relative distances (np.floor(j) = k)
         j = ((x - s[k]) / (s[k + 1] - s[k]))
         # Correct issues for periodic mesh
-- 
2.43.0

