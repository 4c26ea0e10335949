From 3de770db159b0cdb97baf2020e2d787bbc5c6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 01/23] fix: double Mach reflection boundary passes the hydro
 state to the free condition

---
 fvhoe/boundary_conditions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 2718ebf..8a2436e 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -379,7 +379,13 @@ class BoundaryCondition:
                     out_refl = out.copy()
 
                     # set free bc
-                    _set_free_bc(out_free, slab_thickness, axis=i + 1, pos=pos)
+                    _set_free_bc(
+                        hs=self.hydro_state,
+                        u=out_free,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
 
                     # set reflective bc
                     _set_symmetric_bc(
-- 
2.43.0


From 475e5e85c1556cea6ec0be9c908e16bc5ba4b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 02/23] fix: PAD flags a violation of any bounded variable, not
 only of the last one

---
 fvhoe/slope_limiting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index a13f12d..7de93b3 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -229,8 +229,8 @@ def detect_troubled_cells(
     PAD_indicator = np.zeros_like(NAD_violation_magnitude)
     if PAD_bounds is not None:
         for var, (lowr, uppr) in PAD_bounds.items():
-            PAD_indicator[...] = (
-                u_candidate_inner[_hs(var)] - lowr
+            PAD_indicator[...] = np.minimum(
+                PAD_indicator, u_candidate_inner[_hs(var)] - lowr
             )  # lower PAD difference
             PAD_indicator[...] = np.minimum(
                 PAD_indicator, uppr - u_candidate_inner[_hs(var)]
-- 
2.43.0


From f0828e125992b4adb6f6af454d4f025b1c241bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 03/23] fix: the first step no longer divides its mean trouble
 by one substep too many

---
 fvhoe/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 1d70828..16fc12f 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -397,7 +397,7 @@ class EulerSolver(ODE):
         self.SED = SED
         self.SED_tolerance = SED_tolerance
         self.convex = convex
-        self.trouble_counter = 1
+        self.trouble_counter = 0
 
     def _init_array_allocation(self):
         """
-- 
2.43.0


From 6f397fb936a241719a750debdfcf9c12b8c5565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 04/23] fix: store one trouble value per cell so that trouble
 can be plotted

---
 fvhoe/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 16fc12f..31b6721 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -410,9 +410,9 @@ class EulerSolver(ODE):
         self.am.add("w", np.empty((nvars, nx, ny, nz)))
 
         # limiting
-        self.am.add("mean trouble", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean NAD mag", np.zeros((5, nx, ny, nz)))
-        self.am.add("mean PAD mag", np.zeros((5, nx, ny, nz)))
+        self.am.add("mean trouble", np.zeros((nx, ny, nz)))
+        self.am.add("mean NAD mag", np.zeros((nx, ny, nz)))
+        self.am.add("mean PAD mag", np.zeros((nx, ny, nz)))
 
         # fluxes
         self.am.add("F", np.empty((nvars, nx + 1, ny, nz)))
-- 
2.43.0


From 96281a22a9dd99a81833b0028265a8a28990e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 05/23] fix: saving a run whose initial condition is given as
 cell averages

---
 fvhoe/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 31b6721..3d26d66 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -916,6 +916,7 @@ class EulerSolver(ODE):
             # skip functions, arrays, etc
             if (
                 (callable(v) and k != "am")
+                or v is NotImplemented
                 or isinstance(v, np.ndarray)
                 or isinstance(v, cp_ndarray)
                 or k
-- 
2.43.0


From cf28c5266dd0f5e9c1eee533fd68f7319a9d216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 06/23] fix: ssprk2 evaluates its second stage at t + dt

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 69c9f5b..a1475e5 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -261,7 +261,7 @@ class ODE(ABC):
             dt, k0 = self.f(t, u)
             dt = _hit_target(t=t, dt=dt, target=target_time)
             u1 = u + dt * k0
-            _, k1 = self.f(t, u1)
+            _, k1 = self.f(t + dt, u1)
             unext = 0.5 * u + 0.5 * (u1 + dt * k1)
             return dt, unext
 
-- 
2.43.0


From 1b923fa2cefa6bb6bc5af06b53d9384e2540b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 07/23] fix: smooth extrema detection treats the left and right
 side of a flat curvature alike

---
 fvhoe/smooth_extrema_detection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fvhoe/smooth_extrema_detection.py b/fvhoe/smooth_extrema_detection.py
index 04c3df8..f00b775 100644
--- a/fvhoe/smooth_extrema_detection.py
+++ b/fvhoe/smooth_extrema_detection.py
@@ -33,9 +33,7 @@ def compute_1d_smooth_extrema_detector(
     # left detector
     vL = dU[slices[0]] - dU[slices[1]]
     alphaL = -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    alphaL[...] = (
-        -np.where(dv < 0, np.where(vL > 0, vL, 0), np.where(vL < 0, vL, 0)) / dv
-    )
+    alphaL[...] = np.where(np.abs(dv) <= eps, 1, alphaL)
     alphaL[...] = np.where(alphaL < 1, alphaL, 1)
 
     # right detector
-- 
2.43.0


From fce87f995234303953ab508ae1648ee8f8f11fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 08/23] fix: limit both copies of a periodic boundary face
 alike, so that limiting conserves

---
 fvhoe/slope_limiting.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/fvhoe/slope_limiting.py b/fvhoe/slope_limiting.py
index 7de93b3..ffc0a5e 100644
--- a/fvhoe/slope_limiting.py
+++ b/fvhoe/slope_limiting.py
@@ -295,14 +295,14 @@ def broadcast_to_troubled_interfaces(
         alloc_trouble[tuple(slices)] = trouble
         # apply periodic boundary conditions
         if periodic_x and xdim:
-            alloc_trouble[:2, 2:-2, 2:-2] = trouble[-2:, :, :]
-            alloc_trouble[-2:, 2:-2, 2:-2] = trouble[:2, :, :]
+            alloc_trouble[:2, :, :] = alloc_trouble[-4:-2, :, :]
+            alloc_trouble[-2:, :, :] = alloc_trouble[2:4, :, :]
         if periodic_y and ydim:
-            alloc_trouble[2:-2, :2, 2:-2] = trouble[:, -2:, :]
-            alloc_trouble[2:-2, -2:, 2:-2] = trouble[:, :2, :]
+            alloc_trouble[:, :2, :] = alloc_trouble[:, -4:-2, :]
+            alloc_trouble[:, -2:, :] = alloc_trouble[:, 2:4, :]
         if periodic_z and zdim:
-            alloc_trouble[2:-2, 2:-2, :2] = trouble[2:-2, 2:-2, -2:]
-            alloc_trouble[2:-2, 2:-2, -2:] = trouble[2:-2, 2:-2, :2]
+            alloc_trouble[:, :, :2] = alloc_trouble[:, :, -4:-2]
+            alloc_trouble[:, :, -2:] = alloc_trouble[:, :, 2:4]
     # broadcast troubled cells to interfaces
     if convex:
         # convex broadcast
@@ -378,6 +378,19 @@ def broadcast_to_troubled_interfaces(
             troubled_z_interfaces[:, :, :-1] = np.maximum(
                 troubled_z_interfaces[:, :, :-1], trouble
             )
+    # the first and last interfaces along a periodic dimension are the same face
+    if periodic_x and "x" in dims:
+        troubled_x_interfaces[[0, -1], :, :] = np.maximum(
+            troubled_x_interfaces[:1, :, :], troubled_x_interfaces[-1:, :, :]
+        )
+    if periodic_y and "y" in dims:
+        troubled_y_interfaces[:, [0, -1], :] = np.maximum(
+            troubled_y_interfaces[:, :1, :], troubled_y_interfaces[:, -1:, :]
+        )
+    if periodic_z and "z" in dims:
+        troubled_z_interfaces[:, :, [0, -1]] = np.maximum(
+            troubled_z_interfaces[:, :, :1], troubled_z_interfaces[:, :, -1:]
+        )
     troubled_x_interfaces = troubled_x_interfaces[np.newaxis, ...]
     troubled_y_interfaces = troubled_y_interfaces[np.newaxis, ...]
     troubled_z_interfaces = troubled_z_interfaces[np.newaxis, ...]
-- 
2.43.0


From d07ae24353401acdff267fb9b3b9501401e3ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 09/23] fix: integrate ignores downbeats in the past and
 accepts any iterable of them

---
 fvhoe/ode.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index a1475e5..2ee68ba 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -144,10 +144,9 @@ class ODE(ABC):
         elif isinstance(downbeats, np.ndarray):
             downbeats = downbeats.tolist()
 
-        downbeats = sorted(set([0] + downbeats + [T]))[
-            1:
-        ]  # get unique values and ignore 0
-        target_time = downbeats.pop(0) if exact else None
+        # get unique values and ignore those which have already passed
+        downbeats = sorted({t for t in [*downbeats, T] if t > self.t})
+        target_time = downbeats.pop(0) if exact and downbeats else None
 
         # initial snapshot
         self.snapshot()
-- 
2.43.0


From c139f4dedb7fde8e09dc4ddf3ff54f1d26f4d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:31 +0000
Subject: [PATCH 10/23] fix: a step cut short to reach a target time lands on
 it exactly

---
 fvhoe/ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 2ee68ba..bdc4fb9 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -186,7 +186,9 @@ class ODE(ABC):
         dt, self.am("u")[...] = self.stepper(
             self.t, self.am("u"), target_time=target_time
         )
-        self.t += dt
+        # land on the target without rounding error
+        hit_target = target_time is not None and dt == target_time - self.t
+        self.t = float(target_time) if hit_target else self.t + dt
         self.timestamps.append(self.t)
         self.step_count += 1
         self.step_helper_function()
-- 
2.43.0


From 3d8180a356cd3a7546bf1e4b420263d5270b3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 11/23] fix: integrate takes n steps whenever n is given, as
 documented

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index bdc4fb9..6291306 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -111,7 +111,7 @@ class ODE(ABC):
             snapshot_dir (str) : directory to save snapshots. if None, does not save
             overwrite (bool) : overwrite the snapshot directory if it exists
         """
-        predetermined_step_count = T is None
+        predetermined_step_count = n is not None
 
         # if given n, perform a simple time evolution
         if predetermined_step_count:
-- 
2.43.0


From de66ed2ff05753bbbd76e234a95c01a63a6e422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 12/23] fix: never fill ghost zones with uninitialized memory
 when the domain is thinner than them

---
 fvhoe/boundary_conditions.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8a2436e..7c8e806 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -99,12 +99,16 @@ def _set_periodic_bc(
         None, modifies u in place
     """
     st = slab_thickness
-    outer_l = hs(axis=axis, cut=(0, st))
-    inner_l = hs(axis=axis, cut=(st, 2 * st))
-    outer_r = hs(axis=axis, cut=(-st, 0))
-    inner_r = hs(axis=axis, cut=(-2 * st, -st))
-    u[outer_l] = u[inner_r]
-    u[outer_r] = u[inner_l]
+    n = u.shape[axis] - 2 * st  # number of cells in one period
+    # a domain which is thinner than the slab is repeated until the slab is full
+    for i in range(0, st, n):
+        m = min(n, st - i)
+        outer_l = hs(axis=axis, cut=(st - i - m, st - i))
+        inner_r = hs(axis=axis, cut=(st - i - m + n, st - i + n))
+        outer_r = hs(axis=axis, cut=(st + n + i, st + n + i + m))
+        inner_l = hs(axis=axis, cut=(st + i, st + i + m))
+        u[outer_l] = u[inner_r]
+        u[outer_r] = u[inner_l]
 
 
 def _set_symmetric_bc(
@@ -128,6 +132,10 @@ def _set_symmetric_bc(
         None, modifies u in place
     """
     st = slab_thickness
+    if u.shape[axis] < 3 * st:
+        raise ValueError(
+            f"Cannot mirror {u.shape[axis] - 2 * st} cells into a slab of thickness {st}"
+        )
     flip = hs(axis=axis, cut=(0, 0), step=-1)
     if pos == "l":
         outer = hs(axis=axis, cut=(0, st))
-- 
2.43.0


From 61663fbd1269564cda71ee474d05f9af3606f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 13/23] fix: invalid dirichlet values are reported as such
 without cupy

---
 fvhoe/boundary_conditions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 7c8e806..8b23ab5 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -45,8 +45,8 @@ def _set_dirichlet_bc(
 
     if callable(boundary_values):
         dirichlet_values = boundary_values(**kwargs)
-    elif isinstance(boundary_values, np.ndarray) or isinstance(
-        boundary_values, cp.ndarray
+    elif isinstance(boundary_values, np.ndarray) or (
+        CUPY_AVAILABLE and isinstance(boundary_values, cp.ndarray)
     ):
         dirichlet_values = np.ones_like(slab_view) * boundary_values.reshape(
             -1, 1, 1, 1
-- 
2.43.0


From a86b0f3f675bc59e5714126f7115e1378d6303fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 14/23] fix: plot_fields shows all six fields of a 2D
 simulation

---
 fvhoe/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 3d26d66..41ffbcf 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -986,7 +986,7 @@ class EulerSolver(ODE):
             varnames = ["rho", "P", "v", "vx", "vy", "vz"]
             varlabels = [r"$\rho$", r"$P$", r"$v$", r"$v_x$", r"$v_y$", r"$v_z$"]
             for i, j in product([0, 1], [0, 1, 2]):
-                im = self.plot_2d_slice(axs[i, j], param=varnames[i + j], **kwargs)
+                im = self.plot_2d_slice(axs[i, j], param=varnames[3 * i + j], **kwargs)
                 im_ax = fig.add_axes(
                     [
                         axs[i, j].get_position().x0 + axs[i, j].get_position().width,
@@ -995,7 +995,7 @@ class EulerSolver(ODE):
                         axs[i, j].get_position().height,
                     ]
                 )
-                fig.colorbar(im, cax=im_ax, label=varlabels[i + j])
+                fig.colorbar(im, cax=im_ax, label=varlabels[3 * i + j])
             return fig, axs
         raise NotImplementedError(
             "Plotting is only implemented for 1D and 2D simulations."
-- 
2.43.0


From 92b4241f075c96fda7f45f20080360d5ff2e78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 15/23] fix: plotting functions accept a snapshot list, as
 documented

---
 fvhoe/visualization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index f99747b..688df24 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -24,6 +24,16 @@ def get_snapshot_list(s) -> list:
         raise ValueError("s must be a snapshot list or a solver instance")
 
 
+def get_hydro_state(s) -> HydroState:
+    """
+    args:
+        s : snapshot list or solver
+    returns:
+        hydro state of the solver. a snapshot list has no named passive scalars
+    """
+    return HydroState() if isinstance(s, list) else s.hydro_state
+
+
 def get_indices_from_coordinates(
     snapshots: list,
     t: float = None,
@@ -161,7 +171,7 @@ def plot_1d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -238,7 +248,7 @@ def plot_2d_slice(
     returns:
         None : modifies the input Axes object
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, slices = get_indices_from_coordinates(snapshots, t, x, y, z)
 
@@ -332,7 +342,7 @@ def sample_circular_average(
         bin_average (array_like) : average of param in each bin
         r_average (array_like) : average radius in each bin
     """
-    hs = solver.hydro_state
+    hs = get_hydro_state(solver)
     snapshots = get_snapshot_list(solver)
     n, _ = get_indices_from_coordinates(snapshots, t)
 
-- 
2.43.0


From bb12008bf88ab9357d0a56f928eb94d0ed74737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 16/23] fix: overlay_trouble=True overlays all trouble, as
 documented

---
 fvhoe/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index 688df24..e852ee8 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -130,7 +130,7 @@ def plotting_trouble(snapshot: dict, mode: str, tol: float) -> np.ndarray:
         np.where(trouble > 0, 1, 0) == np.logical_or(NAD_mag > 0, PAD_mag > 0)
     ):
         raise ValueError("trouble must be consistent with NAD and PAD")
-    if mode == "all":
+    if mode == "all" or mode is True:
         out = np.where(PAD_mag > 0, 1, np.where(NAD_mag > tol, 1, 0))
     elif mode == "NAD":
         out = np.where(NAD_mag > tol, 1, 0)
-- 
2.43.0


From 27b75e27df496aea25a62cd688739c9b8a78e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 17/23] fix: scripting imports the initial condition by its
 current name

---
 fvhoe/scripting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/scripting.py b/fvhoe/scripting.py
index 7630fd2..8d8e8d1 100644
--- a/fvhoe/scripting.py
+++ b/fvhoe/scripting.py
@@ -1,5 +1,5 @@
 from fvhoe.boundary_conditions import BoundaryCondition
-from fvhoe.initial_conditions import kelvin_helmholtz_2d
+from fvhoe.initial_conditions import InitialCondition, KelvinHelmholtz2D
 from fvhoe.solver import EulerSolver
 import matplotlib.pyplot as plt
 import numpy as np
@@ -10,7 +10,7 @@ def EulerSolver_wrapper(
     project_pref: str,
     snapshot_parent_dir: str,
     summary_parent_dir: str = None,
-    ic: callable = kelvin_helmholtz_2d,
+    ic: InitialCondition = KelvinHelmholtz2D(),
     bc: BoundaryCondition = BoundaryCondition(),
     T: float = 1.0,
     integrator: int = -1,
@@ -26,7 +26,7 @@ def EulerSolver_wrapper(
         snapshot_parent_dir (str) : snapshot parent directory
         summary_parent_dir (str) : summary parent directory. used for saving output from snapshot
             helper functions. if None, no snapshot_helper_function is used.
-        ic (callable) : valid EulerSolver initial condition function
+        ic (InitialCondition) : valid EulerSolver initial condition
         bc (BoundaryCondition) : valid EulerSolver boundary condition object
         T (float) : simulation time
         integrator (int) : integrator order. if -1, EulerSolver.run() is used.
-- 
2.43.0


From 75addf47ce18a28c363163ab5fb489500b360388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:10 +0000
Subject: [PATCH 18/23] fix: reject passive scalars named like a hydrodynamic
 variable

---
 fvhoe/hydro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index b63f9f2..f3efe52 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -52,6 +52,11 @@ class HydroState:
         if len(self.passive_scalars) != len(set(self.passive_scalars)):
             raise ValueError("Duplicate passive scalar names.")
 
+        # check no passive scalar hides another variable
+        reserved_names = {*self.variable_map.keys(), "passive_scalars"}
+        if reserved_names & set(self.passive_scalars):
+            raise ValueError("Passive scalar name is already in use.")
+
         # add passive scalars to variable map
         if self.passive_scalars:
             for i, scalar in enumerate(self.passive_scalars, start=5):
-- 
2.43.0


From c4dd1a504fad8c59bc662af9b9d31f1f2207b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:33 +0000
Subject: [PATCH 19/23] fix: time-dependent boundaries are evaluated at the
 time of each Runge-Kutta stage

---
 fvhoe/solver.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fvhoe/solver.py b/fvhoe/solver.py
index 41ffbcf..c5af427 100644
--- a/fvhoe/solver.py
+++ b/fvhoe/solver.py
@@ -424,19 +424,22 @@ class EulerSolver(ODE):
         compute the RHS of the Euler equations
         """
         self.f_evaluation_count += 1
-        return self.hydrodynamics(u)
+        return self.hydrodynamics(u, t=t)
 
-    def hydrodynamics(self, u: np.ndarray) -> Tuple[float, np.ndarray]:
+    def hydrodynamics(
+        self, u: np.ndarray, t: float = None
+    ) -> Tuple[float, np.ndarray]:
         """
         compute the Euler equation dynamics from cell-average conserved values u
         args:
             u (array_like) : fv averages of conservative variables. has shape (nvars, nx, ny, nz)
+            t (float) : time of u. if None, the current time of the solver
         returns:
             dt, dudt (float, array_like) : time-step size, conservative variable dynamics
         """
         # high-order fluxes
         dt, (self.am("F")[...], self.am("G")[...], self.am("H")[...]) = (
-            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ")
+            self.hydrofluxes(u=u, p=self.p, timer_prefix="(high-order) ", t=t)
         )
 
         if self.a_posteriori_slope_limiting:
@@ -447,6 +450,7 @@ class EulerSolver(ODE):
                 H=self.am("H"),
                 dt=dt,
                 force_trouble=self.force_trouble,
+                t=t,
             )
 
         # compute conservative variable dynamics
@@ -459,6 +463,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         slope_limiter: str = None,
         timer_prefix: str = "",
+        t: float = None,
     ) -> Tuple[float, Tuple[np.ndarray, np.ndarray, np.ndarray]]:
         """
         compute the Euler equation fluxes F, G, H with degree p polynomials. optionally apply slope limiting.
@@ -468,6 +473,7 @@ class EulerSolver(ODE):
             p (Tuple[int, int, int]) : polynomial interpolation degree (px, py, pz)
             limiter (str) : None, 'minmod', 'moncen'
             timer_prefix (str) : prefix for timer categories
+            t (float) : time of u. if None, the current time of the solver
         returns:
             dt, (F, G, H) (tuple) : time-step size and numerical fluxes
                 dt (float) : time-step size
@@ -501,6 +507,7 @@ class EulerSolver(ODE):
                 gw if self.ydim else 0,
                 gw if self.zdim else 0,
             ),
+            t=t,
         )
 
         # time-step size
@@ -658,6 +665,7 @@ class EulerSolver(ODE):
         H: np.ndarray,
         dt: float,
         force_trouble: bool = False,
+        t: float = None,
     ) -> None:
         """
         revise fluxes to prevent oscillations
@@ -668,6 +676,7 @@ class EulerSolver(ODE):
             H (array_like) : z-fluxes. has shape (nvars, nx, ny, nz + 1)
             dt (float) : time-step size
             force_trouble (bool) : all cells are troubled
+            t (float) : time of u. if None, the current time of the solver
         returns:
             None : revise fluxes in place
         """
@@ -683,8 +692,10 @@ class EulerSolver(ODE):
             3 if self.ydim else 0,
             3 if self.zdim else 0,
         )
-        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw)
-        w_star = self.interpolate_primitives_from_conservatives(ustar, p=self.p, gw=gw)
+        w = self.interpolate_primitives_from_conservatives(u, p=self.p, gw=gw, t=t)
+        w_star = self.interpolate_primitives_from_conservatives(
+            ustar, p=self.p, gw=gw, t=t
+        )
 
         # detect troubled cells
         self.timer.start("(fallback scheme) troubled cell detection")
@@ -714,6 +725,7 @@ class EulerSolver(ODE):
                 p=(int(self.p[0] > 0), int(self.p[1] > 0), int(self.p[2] > 0)),
                 slope_limiter=self.slope_limiter,
                 timer_prefix="(fallback scheme) ",
+                t=t,
             )
 
             # get mask for troubled interfaces
@@ -756,6 +768,7 @@ class EulerSolver(ODE):
         p: Tuple[int, int, int],
         gw: Tuple[int, int, int] = (0, 0, 0),
         fv_average: bool = True,
+        t: float = None,
     ) -> np.ndarray:
         """
         interpolate finite volume primitives from finite volume conservatives
@@ -765,6 +778,7 @@ class EulerSolver(ODE):
             gw (Tuple[int, int, int]) : how many ghost zones w should have on each side (gx, gy, gz).
                 all values should be at least 0
             fv_average (bool) : whether u is cell-averaged or centroids
+            t (float) : time of u. if None, the current time of the solver
         returns:
             w (array_like) : primitive variables as finite volume averages or centroids
         """
@@ -781,7 +795,7 @@ class EulerSolver(ODE):
             interp_cost_z = get_stencil_size(p[2])
         gw = (gw[0] + interp_cost_x, gw[1] + interp_cost_y, gw[2] + interp_cost_z)
         self.timer.start("boundary conditions")
-        u_bc = self.bc.apply(u, gw=gw, t=self.t)
+        u_bc = self.bc.apply(u, gw=gw, t=self.t if t is None else t)
         self.timer.stop("boundary conditions")
         u_cell_centers = interpolate_cell_centers(u_bc, p=p)
         w_cell_centers = compute_primitives(hs, u_cell_centers, gamma=self.gamma)
-- 
2.43.0


From 8ea7fda13657ca3a6033b721173843d8124de7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:40 +0000
Subject: [PATCH 20/23] fix: a boundary which is periodic on one side only is
 filled on that side

---
 fvhoe/boundary_conditions.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/fvhoe/boundary_conditions.py b/fvhoe/boundary_conditions.py
index 8b23ab5..5a260c5 100644
--- a/fvhoe/boundary_conditions.py
+++ b/fvhoe/boundary_conditions.py
@@ -86,7 +86,7 @@ def _set_free_bc(
 
 
 def _set_periodic_bc(
-    hs: HydroState, u: np.ndarray, slab_thickness: int, axis: int
+    hs: HydroState, u: np.ndarray, slab_thickness: int, axis: int, pos: str
 ) -> None:
     """
     modify u to impose periodic boundaries
@@ -95,6 +95,7 @@ def _set_periodic_bc(
         u: (array_like) array to apply periodic boundary conditions to
         slab_thickness: (int) thickness of the slab to be copied
         axis: (int) axis to apply periodic boundary conditions
+        pos: (str) position of the slab to be filled, "l" or "r"
     returns:
         None, modifies u in place
     """
@@ -103,12 +104,15 @@ def _set_periodic_bc(
     # a domain which is thinner than the slab is repeated until the slab is full
     for i in range(0, st, n):
         m = min(n, st - i)
-        outer_l = hs(axis=axis, cut=(st - i - m, st - i))
-        inner_r = hs(axis=axis, cut=(st - i - m + n, st - i + n))
-        outer_r = hs(axis=axis, cut=(st + n + i, st + n + i + m))
-        inner_l = hs(axis=axis, cut=(st + i, st + i + m))
-        u[outer_l] = u[inner_r]
-        u[outer_r] = u[inner_l]
+        if pos == "l":
+            outer = hs(axis=axis, cut=(st - i - m, st - i))
+            inner = hs(axis=axis, cut=(st - i - m + n, st - i + n))
+        elif pos == "r":
+            outer = hs(axis=axis, cut=(st + n + i, st + n + i + m))
+            inner = hs(axis=axis, cut=(st + i, st + i + m))
+        else:
+            raise ValueError(f"Invalid pos '{pos}'")
+        u[outer] = u[inner]
 
 
 def _set_symmetric_bc(
@@ -372,13 +376,13 @@ class BoundaryCondition:
                         negate_var=f"m{dim}" if bc == "reflective" else None,
                     )
                 case "periodic":
-                    if pos == "l":  # do not apply periodic bc's twice
-                        _set_periodic_bc(
-                            hs=self.hydro_state,
-                            u=out,
-                            slab_thickness=slab_thickness,
-                            axis=i + 1,
-                        )
+                    _set_periodic_bc(
+                        hs=self.hydro_state,
+                        u=out,
+                        slab_thickness=slab_thickness,
+                        axis=i + 1,
+                        pos=pos,
+                    )
                 case "special-case-double-mach-reflection-y=0":
                     X = self.trim_slabs(gw=gw, axis=1, pos="l")[0][
                         np.newaxis, :, :1, :1
-- 
2.43.0


From 494f2ab3c83520607080d215ee850188998c222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:35 +0000
Subject: [PATCH 21/23] fix: radial averages with integer bin edges are not
 truncated

---
 fvhoe/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fvhoe/visualization.py b/fvhoe/visualization.py
index e852ee8..9f7e5fe 100644
--- a/fvhoe/visualization.py
+++ b/fvhoe/visualization.py
@@ -359,8 +359,8 @@ def sample_circular_average(
         param_data = get_velocity_magnitude(snapshots[n]["w"])
     else:
         param_data = snapshots[n]["w"][hs(param)]
-    r_average = np.empty_like(radii[:-1])
-    bin_average = np.empty_like(radii[:-1])
+    r_average = np.empty(len(radii) - 1)
+    bin_average = np.empty(len(radii) - 1)
 
     # sample
     for i, (little_r, big_r) in enumerate(zip(radii[:-1], radii[1:])):
-- 
2.43.0


From d414525ae4d3387bdc6ee48491e6c279d9c654d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 22/23] fix: honour progress_bar=False in runs of a given
 number of steps

---
 fvhoe/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fvhoe/ode.py b/fvhoe/ode.py
index 6291306..ad671fe 100644
--- a/fvhoe/ode.py
+++ b/fvhoe/ode.py
@@ -119,7 +119,7 @@ class ODE(ABC):
             self.snapshot()
             self.timer.stop("SNAPSHOTS")
             self.timer.start("TOTAL")
-            for _ in tqdm(range(n)):
+            for _ in tqdm(range(n), disable=not self.print_progress_bar):
                 self.take_step()
             self.timer.stop("TOTAL")
             self.timer.start("SNAPSHOTS")
-- 
2.43.0


From 67b9ab2827868e74ba57fe84f2b94c6f3d186f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:42 +0000
Subject: [PATCH 23/23] fix: states given as integers are converted in floating
 point

---
 fvhoe/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fvhoe/hydro.py b/fvhoe/hydro.py
index f3efe52..98bdb4b 100644
--- a/fvhoe/hydro.py
+++ b/fvhoe/hydro.py
@@ -157,7 +157,7 @@ def compute_primitives(hs: HydroState, u: np.ndarray, gamma: float) -> np.ndarra
     returns:
         w (array_like) : has variables names ["rho", "vx", "vy", "vz", "P", ...]
     """
-    w = np.empty_like(u)
+    w = np.empty_like(u, dtype=np.result_type(u.dtype, 1.0))
 
     # get slices
     rho = u[hs("rho")]
@@ -184,7 +184,7 @@ def compute_conservatives(hs: HydroState, w: np.ndarray, gamma: float) -> np.nda
     returns:
         u (array_like) : has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    u = np.empty_like(w)
+    u = np.empty_like(w, dtype=np.result_type(w.dtype, 1.0))
 
     # get slices
     rho = w[hs("rho")]
@@ -236,7 +236,7 @@ def compute_fluxes(
     returns:
         out (array_like) : fluxes in specified direction, has variables names ["rho", "mx", "my", "mz", "E", ...]
     """
-    out = np.empty_like(w)
+    out = np.empty_like(w, dtype=np.result_type(w.dtype, 1.0))
     v = w[hs("v" + dim)]  # velocity in dim-direction
 
     # assign values
-- 
2.43.0

