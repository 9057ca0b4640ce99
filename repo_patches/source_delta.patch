From cbc1070bf9f7f1d3a7dd2c9ca5aaa55f5196d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/46] fix: return_dict efficiencies no longer alias the
 harmonics index table

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..ba68182 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,8 +480,8 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
+            Rdict = {i1: {} for i1 in self.harmidx_dict}
+            Tdict = {i1: {} for i1 in self.harmidx_dict}
             for i1, i2 in self.harmonics.T:
                 i1 = int(i1)
                 i2 = int(i2)
-- 
2.43.0


From f419eb8af7be5fa3cbcac89cbbb33fb7a9653ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 02/46] fix: complex efficiencies do not require layers named
 Superstrate and Substrate

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index ba68182..2c06f92 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -508,8 +508,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From d1899a7121aab7920bceeead962a02c7213e50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 03/46] fix: return_dict with complex amplitudes indexes
 orders, not components

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2c06f92..9d76606 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -486,8 +486,8 @@ class Simulation:
                 i1 = int(i1)
                 i2 = int(i2)
                 idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+                Rdict[i1][i2] = R[..., idx]
+                Tdict[i1][i2] = T[..., idx]
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 7ded3b8595e8c0cb5618b12e011ff288e2298aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 04/46] fix: harmonics truncation sorts by the length of the
 reciprocal vectors

---
 nannos/lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..b133d8f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -128,9 +128,9 @@ class Lattice:
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-            return _circular_truncation(nh, self.reciprocal)
+            return _circular_truncation(nh, self.reciprocal.T)
         elif self.truncation == "parallelogrammic":
-            return _parallelogramic_truncation(nh, self.reciprocal)
+            return _parallelogramic_truncation(nh, self.reciprocal.T)
         else:
             return _one_dim_truncation(nh)
 
@@ -306,7 +306,7 @@ def _parallelogramic_truncation(nh, Lk):
     G = bk.meshgrid(xG, xG, indexing="ij")
     G = [g.flatten() for g in G]
 
-    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
 
@@ -338,7 +338,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From 2447b3c365cf9f3410a5877b3e8e2db94751b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 05/46] fix: default grid shape of the fields for uniform and
 anisotropic layers

---
 nannos/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 9d76606..01a506b 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -375,7 +375,11 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        if shape is None:
+            if layer.is_uniform:
+                shape = self.lattice.discretization
+            else:
+                shape = tuple(layer.epsilon.shape[-2:])
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From c4f77abdf04192a35f7bde09009d66babc3d97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 06/46] fix: circular truncation keeps a shell that fits
 exactly and never drops the zeroth order

---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index b133d8f..2ec9dfe 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -349,8 +349,8 @@ def _circular_truncation(nh, Lk):
         nGtmp = nh
 
     tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
-    for i in bk.arange(nGtmp - 1, -1, -1):
-        if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
+    for i in range(int(nGtmp), 0, -1):
+        if i == len(Gl2) or bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
     nh = i
 
-- 
2.43.0


From d9d3ada14a06dc9ca854bea313db173baa70655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 07/46] fix: negative layer indices count from the end of the
 stack in every query

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..efbb4ab 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -303,7 +303,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], id % len(layers)
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From a45a48b3bd2bb818681f5f91d11834ec26ef7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 08/46] fix: S-matrix of a stack without interfaces is the
 identity

---
 nannos/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 01a506b..82263e0 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -241,6 +241,7 @@ class Simulation:
         S12 = bk.zeros_like(S11)
         S21 = bk.zeros_like(S11)
         S22 = bk.array(bk.eye(2 * self.nh, dtype=COMPLEX))
+        S = [[S11, S12], [S21, S22]]
 
         if indices is None:
             n_interfaces = len(self.layers) - 1
-- 
2.43.0


From e671b2a44897edd1f3c617ca2ea8defe8b5fe071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 09/46] fix: fields in a layer without thickness (None)

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 82263e0..c897d66 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -928,5 +928,5 @@ def _build_Imatrix(layer1, layer2):
 def _translate_amplitudes(layer, z, ai, bi):
     q = layer.eigenvalues
     aim = ai * phasor(q, z)
-    bim = bi * phasor(q, layer.thickness - z)
+    bim = bi * phasor(q, (layer.thickness or 0) - z)
     return aim, bim
-- 
2.43.0


From fbf96e4acb5ca8e2a0998ff2d69f02c45652d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 10/46] fix: a simulation solves again layers that another
 simulation has solved since

---
 nannos/layers.py     |  3 +++
 nannos/simulation.py | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index efbb4ab..42f9bfa 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -66,6 +66,8 @@ class Layer:
         self.tangent_field_type = tangent_field_type
         self.iscopy = False
         self.original = self
+        # token of the solve that computed the current eigenmodes and matrices
+        self._solution = None
 
         if self.mu != 1:
             # TODO: case with magnetic materials
@@ -107,6 +109,7 @@ class Layer:
         return hasattr(self, "eigenvalues") and hasattr(self, "eigenvectors")
 
     def reset(self, param="all"):
+        self._solution = None
         if param == "eig":
             _reseter(self, "eigenvalues")
             _reseter(self, "eigenvectors")
diff --git a/nannos/simulation.py b/nannos/simulation.py
index c897d66..9f9ac33 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -149,9 +149,9 @@ class Simulation:
         self.bN = bk.array(bk.zeros(2 * self.nh, dtype=COMPLEX))
         self.index_zeroth_order = index_zeroth_order
 
-        # This is a boolean checking that the eigenproblems are solved for all layers
+        # Token of the last solve: the eigenproblems are solved if all layers hold it
         # TODO: This is to avoid solving again, but could be confusing
-        self.is_solved = False
+        self._solution = None
         # dictionary to store intermediate S-matrices
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
@@ -176,10 +176,22 @@ class Simulation:
     def get_layer_by_name(self, id):
         return self.get_layer(id)[0]
 
+    @property
+    def is_solved(self):
+        """Check if the eigenproblems are solved for all layers.
+
+        Layers hold their eigenmodes, and may have been solved again by another
+        simulation they belong to.
+        """
+        return self._solution is not None and all(
+            layer._solution is self._solution for layer in self.layers
+        )
+
     def solve(self):
         """Solve the grating problem."""
         _t0 = timer.tic()
         logger.info("Solving")
+        self._solution = object()
         layers_solved = []
         for layer in self.layers:
             _t0lay = timer.tic()
@@ -195,6 +207,7 @@ class Simulation:
                 # out = bk.conj(layer.eigenvectors).T @ layer.Qeps @ layer.eigenvectors
                 # layer.eigenvectors /= bk.diag(out)**0.5
 
+            layer._solution = self._solution
             layers_solved.append(layer)
 
             _t1lay = timer.toc(_t0lay, verbose=False)
@@ -202,7 +215,6 @@ class Simulation:
                 f"Done computing eigenpairs for layer {layer} in {_t1lay:0.3e}s"
             )
         self.layers = layers_solved
-        self.is_solved = True
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
 
@@ -211,7 +223,7 @@ class Simulation:
             _reseter(self, "S")
             self._intermediate_S = {}
         if param == "solve":
-            self.is_solved = False
+            self._solution = None
         if param == "all":
             self.reset("S")
             self.reset("solve")
-- 
2.43.0


From 6088c6b07a82e9e883394ce16898cb25210aa8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 11/46] fix: layer copies work for uniform layers, in any
 position, without the original and with their own material

---
 nannos/layers.py     |  2 +-
 nannos/simulation.py | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 42f9bfa..a1a2169 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -190,7 +190,7 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if self.iscopy and matrix is getattr(self.original, "matrix", None):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 9f9ac33..f261274 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -187,6 +187,21 @@ class Simulation:
             layer._solution is self._solution for layer in self.layers
         )
 
+    def _shares_eigenmodes(self, layer):
+        # A copy has the eigenmodes of the original if this simulation has
+        # solved it already, and if its material has not been changed since.
+        original = layer.original
+        return (
+            layer.iscopy
+            and not layer.is_uniform
+            and self._solution is not None
+            and original._solution is self._solution
+            and layer.epsilon is original.epsilon
+            and layer.mu is original.mu
+            and layer.tangent_field is original.tangent_field
+            and layer.tangent_field_type == original.tangent_field_type
+        )
+
     def solve(self):
         """Solve the grating problem."""
         _t0 = timer.tic()
@@ -606,7 +621,7 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if self._shares_eigenmodes(layer):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
-- 
2.43.0


From 428c905962dded8b24a8d9076457d2f497810422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 12/46] fix: the optimizer returns the design that reached the
 stop value

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..ebfcd9f 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = npo.array(x)
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 595879cfccbbb25fac5c6f502242ab09b618e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 13/46] fix: tangent formulations apply the inverse rule to the
 normal component of the field

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index f261274..c26a836 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -863,7 +863,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From cf29840501969bf073b104bfcb71008c81927d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 14/46] fix: in-plane axes of anisotropic layers are not
 swapped

---
 nannos/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c26a836..2287b27 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -678,7 +678,9 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                eps_para_hat = self._get_toeplitz_matrix(
+                    _in_plane_tensor(epsilon), transverse=True
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -803,7 +805,7 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
+            eb = block(_in_plane_tensor(epsilon))
             nu = inv2by2block(eb, N)
             # nu = _inv(epsilon[2,2])
             nu1 = bk.array(block2list(nu, N))
@@ -884,6 +886,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _in_plane_tensor(u):
+    # the in-plane electric field is stored as (-Ey, Ex)
+    return bk.stack([bk.stack([u[1, 1], -u[1, 0]]), bk.stack([-u[0, 1], u[0, 0]])])
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 622d4ecc149e77a1093b6005819e0f75ee12a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 15/46] fix: tangent field for any discretization

---
 nannos/formulations/tangent.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..c42cdbc 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -104,13 +104,13 @@ def _get_tangent_field_min(
     grid = bk.abs(grid)
     grid = grid / bk.max(grid)
     Nx, Ny = grid.shape
-    Nx_ds = min(2**6, Nx)
-    Ny_ds = min(2**6, Ny)
+    downsample_x = -(-Nx // 2**6)
+    downsample_y = -(-Ny // 2**6)
+    Nx_ds = -(-Nx // downsample_x)
+    Ny_ds = -(-Ny // downsample_y)
     # Nx_ds = min(int(Nx/2**3), Nx)
     # Ny_ds = min(int(Nx/2**3), Ny)
 
-    downsample_x = int(Nx / Nx_ds)
-    downsample_y = int(Ny / Ny_ds)
     shape_small = (Nx_ds, Ny_ds)
 
     xi = npg.linspace(0, 1, Nx)
@@ -172,8 +172,8 @@ def _get_tangent_field_min(
     def minifun(x):
         coefx = x[:nh] + 1j * x[nh : 2 * nh]
         coefy = x[2 * nh : 3 * nh] + 1j * x[3 * nh :]
-        ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-        ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+        ax = _get_amps(coefx, shape_small)
+        ay = _get_amps(coefy, shape_small)
         da = npg.real(npg.array([ax, ay]))
         obj = npg.mean(npg.abs(da - dgrid_f_downspl) ** 2)
         ### smoothness
@@ -198,8 +198,8 @@ def _get_tangent_field_min(
     coefx = xopt[:nh] + 1j * xopt[nh : 2 * nh]
     coefy = xopt[2 * nh : 3 * nh] + 1j * xopt[3 * nh :]
 
-    ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-    ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+    ax = _get_amps(coefx, shape_small)
+    ay = _get_amps(coefy, shape_small)
 
     # points_dsx = xi[::downsample_x]
     # points_dsy = yi[::downsample_y]
-- 
2.43.0


From e048cd957ad5054da8ff8728b4407828debdfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 16/46] fix: tangent formulations of anisotropic layers for any
 discretization

---
 nannos/simulation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 2287b27..cf0bd75 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -805,10 +805,15 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(_in_plane_tensor(epsilon))
-            nu = inv2by2block(eb, N)
+            e = _in_plane_tensor(epsilon)
+            det = e[0, 0] * e[1, 1] - e[1, 0] * e[0, 1]
             # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
+            nu1 = bk.stack(
+                [
+                    bk.stack([e[1, 1] / det, -e[0, 1] / det]),
+                    bk.stack([-e[1, 0] / det, e[0, 0] / det]),
+                ]
+            )
             nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
             nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
 
-- 
2.43.0


From d03a490a3cbe3dfa0c3102648317a5ab58820548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 17/46] fix: tangent formulation of anisotropic layers for 1D
 gratings

---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index cf0bd75..3a75a2d 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -696,7 +696,12 @@ class Simulation:
             elif self.formulation == "tangent":
                 if self.lattice.is_1D:
                     N, nuhat_inv = self._get_nu_hat_inv(layer)
-                    eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]
+                    if not layer.is_epsilon_anisotropic:
+                        nuhat_inv = [[eps_hat, self.ZeroG], [self.ZeroG, nuhat_inv]]
+                    # the inverse rule applies to Ex
+                    eps_para_hat = [
+                        [eps_para_hat[i][0], nuhat_inv[i][1]] for i in range(2)
+                    ]
                     Peps = block(eps_para_hat)
                 else:
                     t = layer.get_tangent_field(harmonics_tan, normalize=True)
-- 
2.43.0


From ade36d8abb405b0e6b37c286e0c27ecc46f7fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 18/46] fix: the optimizer runs with its default args

---
 nannos/optimize.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index ebfcd9f..e5d1b93 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -137,9 +137,7 @@ class TopologyOptimizer:
             self.print("-----------------------")
 
             proj_level = 2**iopt
-            args = list(self.args)
-            args[0] = proj_level
-            args = tuple(args)
+            args = (proj_level,) + tuple(self.args or ())[1:]
             if self.method == "scipy":
 
                 def fun_scipy(x, *args):
-- 
2.43.0


From 309533112e61e50ef217a143dc6b23937780780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 19/46] fix: the adaptive sampler pairs points and values when
 the initial points are not sorted

---
 nannos/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..e42d467 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -102,6 +102,7 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
                     new_x.append(x_new)
         return np.unique(new_x)
 
+    x = np.unique(np.array(x))
     y = _function_adapted(x)
     if hasattr(y[0], "__len__") and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
-- 
2.43.0


From 4b856f1abbedac4f7b60bd537b6a8d483daa5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 20/46] fix: the adaptive sampler accepts functions that return
 0-d arrays

---
 nannos/sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index e42d467..15cefc7 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -104,7 +104,8 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
 
     x = np.unique(np.array(x))
     y = _function_adapted(x)
-    if hasattr(y[0], "__len__") and len(y[0]) > 0:
+    is_scalar = not hasattr(y[0], "__len__") or getattr(y[0], "shape", None) == ()
+    if not is_scalar and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
         multi_output = True
     else:
-- 
2.43.0


From 97dded9c3c7e3ca5e0e0158750ee50f8e07509b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 21/46] fix: switching backend keeps the log level

---
 nannos/log.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nannos/log.py b/nannos/log.py
index 314f933..6bb9451 100644
--- a/nannos/log.py
+++ b/nannos/log.py
@@ -51,4 +51,6 @@ def set_log_level(level):
     logger.addHandler(stream)
 
 
-set_log_level("WARNING")
+if "logger" not in globals():
+    # keep the level set by the user when the package is reloaded
+    set_log_level("WARNING")
-- 
2.43.0


From a2e3cbb7e0bc4f1db9102ac633b1e799a6452261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 22/46] fix: 3D plot of structures with a non-square
 discretization

---
 nannos/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 3dcb6bb..68b2405 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -162,14 +162,13 @@ def plot_structure(
                         epsgrid = layer.epsilon
                     Nx, Ny = epsgrid.shape
                     # values = bk.reshape(epsgrid, (Nx, Ny, 1))
-                    epsgrid = epsgrid.T
                     values = epsgrid[:, :, None]
                     # Create the spatial reference
                     grid = pyvista.ImageData()
                     grid.dimensions = bk.array(values.shape) + 1
                     grid.origin = (x0, y0, z)  # The bottom left corner of the data set
                     grid.spacing = (1 / Nx, 1 / Ny, thickness)
-                    grid.cell_data[name] = values.flatten()  # Flatten the array!
+                    grid.cell_data[name] = epsgrid.T.flatten()  # Flatten the array!
                     vals = bk.unique(epsgrid)
                     for ival, v in enumerate(vals):
                         if v != 1:
-- 
2.43.0


From c8e5d193aae97bd286a88552366614820b617778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 23/46] fix: 3D plot of structures with layers without
 thickness

---
 nannos/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 68b2405..72f0b84 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -99,7 +99,7 @@ def plot_structure(
 
     p = plotter or pyvista.Plotter()
     name = r"permittivity (Re)"
-    null_thickness = null_thickness or bk.max([layer.thickness for layer in sim.layers])
+    null_thickness = null_thickness or max(layer.thickness or 0 for layer in sim.layers)
     bvs = sim.lattice.basis_vectors
 
     transform_matrix = bk.array(
@@ -116,7 +116,7 @@ def plot_structure(
             x0, y0 = jx, jy
 
             for ilayer, layer in enumerate(sim.layers):
-                thickness = layer.thickness
+                thickness = layer.thickness or 0
                 if thickness == 0:
                     thickness = null_thickness
                     # if float(layer.epsilon.real) != 1:
-- 
2.43.0


From b067796151739af524560c6126405b62c9d14b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 24/46] fix: the discretization check accounts for negative
 harmonics

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 3a75a2d..b37925b 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0


From d8658b09e6a5111c20b0c50c017510b756e2d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 25/46] fix: harmonics without the zeroth order are rejected

---
 nannos/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b37925b..563e181 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -136,6 +136,8 @@ class Simulation:
         for index_zeroth_order, h in enumerate(self.harmonics.T):
             if h[0] == 0 and h[1] == 0:
                 break
+        else:
+            raise ValueError("The harmonics must contain the zeroth order (0, 0)")
         self.a0 = []
         for i in range(self.nh * 2):
             if i == index_zeroth_order:
-- 
2.43.0


From 9bb6a94c6f79b03e984c515eb49f43576fcefde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 26/46] fix: stress tensor uses the permittivity of the
 formulation, and of anisotropic layers

---
 nannos/simulation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 563e181..b60b08a 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -567,10 +567,7 @@ class Simulation:
         else:
             exy = bk.hstack((-ey, ex))
 
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0


From 54f3d8bfc39978bb976928548c0e00fb69e29cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 27/46] fix: tangent fields are computed in cartesian
 coordinates

---
 nannos/formulations/tangent.py | 21 +++++++++++++++++----
 nannos/layers.py               |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index c42cdbc..09719d4 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -32,15 +32,27 @@ def _ft_filt(x, expo):
     return bk.array(bk.where(x == 0.0, 0.0 * x, f))
 
 
-def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5):
+def _to_cartesian(grad, vectors):
+    """Cartesian components of a gradient with respect to the grid indices."""
+    if vectors is None:
+        return grad
+    Nx, Ny = grad[0].shape
+    (ux, uy), (vx, vy) = vectors
+    det = ux * vy - uy * vx
+    scale = abs(det / (Nx * Ny)) ** 0.5 / det
+    gu, gv = grad[0] * (Nx * scale), grad[1] * (Ny * scale)
+    return [vy * gu - uy * gv, ux * gv - vx * gu]
+
+
+def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5, vectors=None):
     Nx, Ny = grid.shape
 
     grid = bk.hstack([grid, grid, grid])
     grid = bk.vstack([grid, grid, grid])
 
     xf = apply_filter(grid, rfilt)
-    v = bk.gradient(grid)
-    vf = bk.gradient(xf)
+    v = _to_cartesian(bk.gradient(grid), vectors)
+    vf = _to_cartesian(bk.gradient(xf), vectors)
     norma = norm(v)
     N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
@@ -70,6 +82,7 @@ def _get_tangent_field_min(
     rfilt=0,
     opt_backend="autograd",
     maxiter=1,
+    vectors=None,
 ):
     if opt_backend == "jax":
         from jax import grad
@@ -129,7 +142,7 @@ def _get_tangent_field_min(
     # xf = apply_filter(grid, rfilt=rfilt)
     xf = grid
 
-    dgrid = bk.stack(bk.gradient(xf))
+    dgrid = bk.stack(_to_cartesian(bk.gradient(xf), vectors))
     dgrid_fx = apply_filter(dgrid[0], rfilt=rfilt)
     dgrid_fy = apply_filter(dgrid[1], rfilt=rfilt)
     dgrid_f = bk.stack([dgrid_fx, dgrid_fy])
diff --git a/nannos/layers.py b/nannos/layers.py
index a1a2169..5be6c2c 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -274,6 +274,7 @@ class Layer:
             harmonics,
             normalize=normalize,
             type=self.tangent_field_type,
+            vectors=self.lattice.basis_vectors if self.lattice else None,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 3d171a01ffe4e49c15f4624770341573be449d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 28/46] fix: fft tangent field is normal to the interfaces in
 any direction

---
 nannos/formulations/tangent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 09719d4..de0f3eb 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -54,7 +54,8 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5, vectors=Non
     v = _to_cartesian(bk.gradient(grid), vectors)
     vf = _to_cartesian(bk.gradient(xf), vectors)
     norma = norm(v)
-    N = [bk.array(v[i]) * bk.abs(vf[i]) for i in range(2)]
+    normf = norm(vf)
+    N = [bk.array(v[i]) * normf for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
     fx = bk.fft.fftfreq(3 * Nx)
     fy = bk.fft.fftfreq(3 * Ny)
-- 
2.43.0


From bae9dac2723502ed88548da97ac5fe66486fda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 29/46] fix: the excitation keeps double precision and
 gradients with the torch backend

---
 nannos/excitation.py | 15 ++++++++++-----
 nannos/simulation.py |  4 ++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/nannos/excitation.py b/nannos/excitation.py
index 485dc57..33a64dd 100644
--- a/nannos/excitation.py
+++ b/nannos/excitation.py
@@ -41,7 +41,7 @@ class PlaneWave:
         k0 = 2 * pi * self.frequency_scaled
 
         self.wavenumber = k0
-        self.wavevector = k0 * bk.array(
+        self.wavevector = k0 * bk.stack(
             [
                 bk.sin(self.theta) * bk.cos(self.phi),
                 bk.sin(self.theta) * bk.sin(self.phi),
@@ -59,15 +59,20 @@ class PlaneWave:
         cy = cpsi * bk.cos(self.theta) * bk.sin(self.phi) + spsi * bk.cos(self.phi)
         cz = -cpsi * bk.sin(self.theta)
 
-        self.amplitude = bk.array([cx, cy, cz])
+        self.amplitude = bk.stack([cx, cy, cz])
 
         kt = self.wavevector
         omega = k0
-        K = bk.array([[kt[1] ** 2, -kt[0] * kt[1]], [-kt[0] * kt[1], kt[0] ** 2]])
-        Q = omega**2 * bk.array(bk.eye(2)) - K
+        K = bk.stack(
+            [
+                bk.stack([kt[1] ** 2, -kt[0] * kt[1]]),
+                bk.stack([-kt[0] * kt[1], kt[0] ** 2]),
+            ]
+        )
+        Q = omega**2 * bk.array(bk.eye(2, dtype=FLOAT)) - K
         q = (omega**2 - kt[0] ** 2 - kt[1] ** 2) ** 0.5
         C = bk.linalg.inv(Q) * (omega * q)
-        et = bk.array([-self.amplitude[1], self.amplitude[0]])
+        et = bk.stack([-self.amplitude[1], self.amplitude[0]])
         self.a0 = C @ et
         # self.a0 = -self.amplitude[1], self.amplitude[0]
         # self.a0 = self.amplitude[0], self.amplitude[1]
diff --git a/nannos/simulation.py b/nannos/simulation.py
index b60b08a..622bc4b 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -145,9 +145,9 @@ class Simulation:
             elif i == self.nh + index_zeroth_order:
                 a0 = self.excitation.a0[1]
             else:
-                a0 = 0
+                a0 = 0 * self.excitation.a0[0]
             self.a0.append(a0)
-        self.a0 = bk.array(self.a0, dtype=COMPLEX)
+        self.a0 = bk.stack(self.a0) + 0j
         self.bN = bk.array(bk.zeros(2 * self.nh, dtype=COMPLEX))
         self.index_zeroth_order = index_zeroth_order
 
-- 
2.43.0


From b03d72c0aab0c209ebcb5bc51dfaf900eb628daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 30/46] fix: area of the lattice for the torch and jax backends

---
 nannos/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 2ec9dfe..7074c0a 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,7 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        return bk.abs(bk.linalg.det(self.matrix))
 
     @property
     def matrix(self):
-- 
2.43.0


From d9f84cc9f3c6914c99d72a66e6e2d45356ae14c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 31/46] fix: grids, masks, filters and density maps keep double
 precision with the torch backend

---
 nannos/formulations/tangent.py |  7 +++++--
 nannos/geometry.py             |  7 ++++---
 nannos/lattice.py              |  4 ++--
 nannos/optimize.py             | 12 +++++++-----
 nannos/simulation.py           |  2 +-
 nannos/utils/helpers.py        |  4 ++--
 6 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index de0f3eb..40e99d5 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -10,9 +10,12 @@ from scipy.interpolate import RegularGridInterpolator
 from scipy.optimize import minimize
 
 from .. import backend as bk
+from .. import get_types
 from ..utils import apply_filter, norm
 from .fft import fourier_transform, inverse_fourier_transform
 
+FLOAT, COMPLEX = get_types()
+
 
 def _normalize(x, n, invalid=0, threshold=0.0):
     with npo.errstate(invalid="ignore"):
@@ -57,8 +60,8 @@ def _get_tangent_field_fft(grid, normalize=False, rfilt=4, expo=0.5, vectors=Non
     normf = norm(vf)
     N = [bk.array(v[i]) * normf for i in range(2)]
     N = [_normalize(N[i], norma) for i in range(2)]
-    fx = bk.fft.fftfreq(3 * Nx)
-    fy = bk.fft.fftfreq(3 * Ny)
+    fx = bk.array(npo.fft.fftfreq(3 * Nx), dtype=FLOAT)
+    fy = bk.array(npo.fft.fftfreq(3 * Ny), dtype=FLOAT)
     Fx, Fy = bk.meshgrid(fx, fy, indexing="ij")
     ghat = _ft_filt(Fx**2 + Fy**2, expo=expo) * Nx * Ny
     # ghat = apply_filter(Fx**2 + Fy**2, rfilt)
diff --git a/nannos/geometry.py b/nannos/geometry.py
index 7b67b04..0cdbf67 100644
--- a/nannos/geometry.py
+++ b/nannos/geometry.py
@@ -16,7 +16,7 @@ import shapely.affinity as sa
 import shapely.geometry as sg
 
 from . import backend as bk
-from . import get_backend
+from . import get_backend, get_types
 
 # from https://gist.github.com/perrette/a78f99b76aed54b6babf3597e0b331f8
 
@@ -106,8 +106,9 @@ def shape_mask(shp, x, y, m=None):
 
 
 def geometry_mask(geom, lattice, Nx, Ny):
-    x0 = bk.linspace(0, 1.0, Nx)
-    y0 = bk.linspace(0, 1.0, Ny)
+    FLOAT, _ = get_types()
+    x0 = bk.linspace(0, 1.0, Nx, dtype=FLOAT)
+    y0 = bk.linspace(0, 1.0, Ny, dtype=FLOAT)
     x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
     grid = bk.stack([x_, y_])
     x, y = grid[0][:, 0], grid[1][0, :]
diff --git a/nannos/lattice.py b/nannos/lattice.py
index 7074c0a..8d4b3fc 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -154,8 +154,8 @@ class Lattice:
 
         """
         Nx, Ny = self.discretization
-        x0 = bk.array(bk.linspace(0, 1.0, Nx))
-        y0 = bk.array(bk.linspace(0, 1.0, Ny))
+        x0 = bk.array(bk.linspace(0, 1.0, Nx, dtype=FLOAT))
+        y0 = bk.array(bk.linspace(0, 1.0, Ny, dtype=FLOAT))
         x_, y_ = bk.meshgrid(x0, y0, indexing="ij")
         return bk.stack([x_, y_])
 
diff --git a/nannos/optimize.py b/nannos/optimize.py
index e5d1b93..fe661cf 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -26,7 +26,7 @@ def project(x, beta=1, thres=0.5):
     x = bk.array(x)
 
     def tanh(z):
-        return bk.tanh(bk.array(z))
+        return bk.tanh(bk.array(z, dtype=FLOAT))
 
     return ((tanh(thres * beta)) + tanh(beta * (x - thres))) / (
         tanh(thres * beta) + (tanh((1 - thres) * beta))
@@ -34,24 +34,26 @@ def project(x, beta=1, thres=0.5):
 
 
 def multi_project(x, beta=1, Nthres=2):
-    thresholds = bk.linspace(0, 1, Nthres + 1)[1:-1]
+    thresholds = bk.linspace(0, 1, Nthres + 1, dtype=FLOAT)[1:-1]
     out = sum(project(x, beta, thres) for thres in thresholds)
     return out / len(thresholds)
 
 
 def multi_simp(x, epsilons, p=1):
-    epsilons = bk.array(epsilons) + 0j
+    epsilons = bk.array(epsilons, dtype=COMPLEX) + 0j
     nthres = len(epsilons)
     npts = nthres
     if nthres == 2:
         return simp(x, epsilons[0], epsilons[1], p)
-    pts = bk.linspace(0, 1, npts)
+    pts = bk.linspace(0, 1, npts, dtype=FLOAT)
 
     def pol(coefs, x):
         return sum(c * x ** (n * p) for n, c in enumerate(coefs))
 
     def mat(pts):
-        return bk.array([[_x ** (n * p) + 0j for n in range(npts)] for _x in pts])
+        return bk.array(
+            [[_x ** (n * p) + 0j for n in range(npts)] for _x in pts], dtype=COMPLEX
+        )
 
     M = mat(pts)
     coefs = bk.linalg.inv(M) @ epsilons
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 622bc4b..efd38cc 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -544,7 +544,7 @@ class Simulation:
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
-        o0 = bk.array(bk.zeros(self.nh))
+        o0 = bk.array(bk.zeros(self.nh, dtype=FLOAT))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
         return r, t
diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..808673e 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -141,8 +141,8 @@ def _apply_filter(x, rfilt, vectors=None):
     Nx, Ny = x.shape
 
     if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny))
+        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
+        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
 
     else:
         tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-- 
2.43.0


From ce630097915370017769f1fd748ccbe82c2c38b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 32/46] fix: user defined harmonics with the torch backend

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 8d4b3fc..c24157c 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -122,7 +122,7 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
+            nh = len(self.harmonics_array[0])
             return self.harmonics_array, nh
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
-- 
2.43.0


From 5ee9704daa2dc3ffa931fc0a3e2700a9271b8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 33/46] fix: single precision with the torch backend

---
 nannos/__init__.py   | 2 +-
 nannos/lattice.py    | 2 +-
 nannos/simulation.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 8f46675..4a482e9 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -281,7 +281,7 @@ elif "_TORCH" in globals():
 
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
-                return a.to(torch.device(DEVICE))
+                return a.to(torch.device(DEVICE), **kwargs)
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
diff --git a/nannos/lattice.py b/nannos/lattice.py
index c24157c..c9004d3 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -186,7 +186,7 @@ class Lattice:
 
         """
         if get_backend() == "torch":
-            return bk.tensordot(self.matrix, grid.double(), dims=([1], [0]))
+            return bk.tensordot(self.matrix, grid.to(FLOAT), dims=([1], [0]))
         else:
             return bk.tensordot(self.matrix, grid, axes=(1, 0))
 
diff --git a/nannos/simulation.py b/nannos/simulation.py
index efd38cc..75afef9 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -829,6 +829,7 @@ class Simulation:
 
     def _get_Peps(self, layer, eps_hat, t, direct=False):
         N, nuhat_inv = self._get_nu_hat_inv(layer)
+        t = [bk.array(comp, dtype=COMPLEX) for comp in t]
 
         if direct:
             T = block([[t[1], bk.conj(t[0])], [-t[0], bk.conj(t[1])]])
-- 
2.43.0


From 75c931ee419be8033105d0acb7c7e95551f2a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 34/46] fix: circular truncation keeps complete shells in
 single precision

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index c9004d3..58d3b1c 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -347,7 +347,7 @@ def _circular_truncation(nh, Lk):
     if nh < nGtmp:
         nGtmp = nh
 
-    tol = 1e-10 * max(u[0] ** 2, u[1] ** 2)
+    tol = max(1e-10, 100 * bk.finfo(FLOAT).eps) * max(u[0] ** 2, u[1] ** 2)
     for i in range(int(nGtmp), 0, -1):
         if i == len(Gl2) or bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-- 
2.43.0


From b6893a5100b01e807c384f82fe2520d13dec769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 35/46] fix: gradient of the complex amplitudes when some
 orders are evanescent

---
 nannos/simulation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 75afef9..c27fd9c 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -539,8 +539,8 @@ class Simulation:
         norma_t2 = nin**2 * (gamma_out / gamma_in0)
         norma_r2 = nin**2 * (gamma_in / gamma_in0)
 
-        norma_t = (norma_t2.real) ** 0.5
-        norma_r = (norma_r2.real) ** 0.5
+        norma_t = _sqrt_positive(norma_t2.real)
+        norma_r = _sqrt_positive(norma_r2.real)
 
         t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
         bx0 = self.get_field_fourier(0)[0, 0] * norma_r
@@ -896,6 +896,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _sqrt_positive(x):
+    # the gradient of the square root is not finite at 0 (evanescent orders)
+    return bk.where(x > 0, bk.where(x > 0, x, 1.0 + 0 * x) ** 0.5, 0 * x)
+
+
 def _in_plane_tensor(u):
     # the in-plane electric field is stored as (-Ey, Ex)
     return bk.stack([bk.stack([u[1, 1], -u[1, 0]]), bk.stack([-u[0, 1], u[0, 0]])])
-- 
2.43.0


From a2caa1eda8b752694feb38f3d743d70474122602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 36/46] fix: the optimizer runs with scipy and the torch
 backend

---
 nannos/optimize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index fe661cf..304f8cd 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -150,7 +150,16 @@ class TopologyOptimizer:
                     if self.callback is not None:
                         self.callback(x, y, *args)
                     self.current_iteration += 1
-                    return y
+                    return float(y)
+
+                def grad_scipy(x, *args):
+                    dy = self.grad_fun(bk.array(x, dtype=FLOAT), *args)
+                    dy = (
+                        dy.cpu()
+                        if (get_backend() == "torch" and DEVICE == "cuda")
+                        else dy
+                    )
+                    return npo.array(dy, dtype=npo.float64)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
                 options = {"maxiter": self.maxiter}
@@ -164,7 +173,7 @@ class TopologyOptimizer:
                         x0,
                         args=args,
                         method="L-BFGS-B",
-                        jac=self.grad_fun,
+                        jac=grad_scipy,
                         bounds=bounds,
                         options=options,
                     )
-- 
2.43.0


From 034186ddb4166dc98d483ebb76fe3deaa0e9ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 37/46] fix: the filter is centered, keeps the mean and accepts
 a zero radius in one direction

---
 nannos/utils/helpers.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index 808673e..967e630 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -133,32 +133,33 @@ def _reseter(prop, attr=None):
 
 
 def _apply_filter(x, rfilt, vectors=None):
-    if is_scalar(rfilt):
-        rfilt = (rfilt, rfilt)
+    rfilt = (rfilt, rfilt) if is_scalar(rfilt) else tuple(rfilt)
 
     if rfilt == (0, 0):
         return x
     Nx, Ny = x.shape
 
-    if vectors is None:
-        tx = bk.array(bk.linspace(-Nx / 2, Nx / 2, Nx, dtype=FLOAT))
-        ty = bk.array(bk.linspace(-Ny / 2, Ny / 2, Ny, dtype=FLOAT))
+    def bump(N, r, period):
+        # periodic kernel centered on the first sample
+        t = npo.fft.ifftshift(npo.arange(N) - N // 2) / N
+        t = bk.array(t, dtype=FLOAT) * period
+        if r == 0:
+            return bk.array(npo.eye(N)[0], dtype=FLOAT)
+        g = bk.exp(-(t**2) / r**2)
+        return g / bk.sum(g)
 
+    if vectors is None:
+        periods = Nx, Ny
     else:
-        tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
-        ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
-    bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
-    bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
-    bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-    bumpy /= bk.trapz(bumpy)  # normalize the integral to 1
+        periods = vectors[0][0], vectors[1][1]
+    bumpx, bumpy = [bump(N, r, p) for N, r, p in zip((Nx, Ny), rfilt, periods)]
     # make a 2-D kernel out of it
     kernel = bumpx[:, None] * bumpy[None, :]
     kernel_ft = fourier_transform(kernel, s=x.shape[:2], axes=(0, 1))
     img_ft = fourier_transform(x, axes=(0, 1))
     # convolve
     img2_ft = kernel_ft * img_ft
-    out = bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1)))
-    return bk.fft.fftshift(out) * (Nx * Ny)
+    return bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1))) * (Nx * Ny)
 
 
 apply_filter = jit(_apply_filter, static_argnums=(1))
-- 
2.43.0


From 620f9362c962b1484f10eb23b725524ae03c7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:35 +0000
Subject: [PATCH 38/46] fix: plots of structures and of lattices with negative
 components

---
 nannos/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nannos/plot.py b/nannos/plot.py
index 72f0b84..9f5eb18 100644
--- a/nannos/plot.py
+++ b/nannos/plot.py
@@ -76,8 +76,10 @@ def plot_layer(
     lx, ly = [bk.linalg.norm(bk.array(v, dtype=FLOAT)) for v in lattice.basis_vectors]
     lmax = max(lx, ly)
     delta = 0.1 * lmax
-    ax.set_xlim(-delta, nperx * bv[0][0] + npery * bv[1][0] + delta)
-    ax.set_ylim(-delta, nperx * bv[0][1] + npery * bv[1][1] + delta)
+    corners = [(i, j) for i in (0, nperx) for j in (0, npery)]
+    x, y = [[i * bv[0][k] + j * bv[1][k] for i, j in corners] for k in range(2)]
+    ax.set_xlim(min(x) - delta, max(x) + delta)
+    ax.set_ylim(min(y) - delta, max(y) + delta)
     if show_cell:
         plot_unit_cell(ax, bv, cellstyle)
     ax.set_aspect("equal")
@@ -138,7 +140,7 @@ def plot_structure(
                         val = layer.epsilon.real
                         grid.cell_data[name] = bk.array(val)
                         mesh = grid.extract_surface()
-                        mesh = mesh.transform(transform_matrix)
+                        mesh = mesh.transform(transform_matrix, inplace=False)
                         if layer_colors is not None:
                             kwargs["color"] = layer_colors[ilayer]
                         if layer_metallic is not None:
@@ -176,7 +178,7 @@ def plot_structure(
                                 [v - 1e-7 * abs(v), v + 1e-7 * abs(v)]
                             )
 
-                            threshed = threshed.transform(transform_matrix)
+                            threshed = threshed.transform(transform_matrix, inplace=False)
 
                             if layer_colors is not None:
                                 kwargs["color"] = layer_colors[ilayer][ival]
-- 
2.43.0


From 1668831d622477319d8bafbdc3fa80a937c817b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 39/46] fix: evanescent waves decay in real media whose
 imaginary part is a negative zero

---
 nannos/layers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 5be6c2c..cf2d2c8 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -164,13 +164,12 @@ class Layer:
         else:
             _mu = mu
 
-        q = (
-            bk.array(
-                _epsilon * _mu * omega**2 - kx**2 - ky**2,
-                dtype=COMPLEX,
-            )
-            ** 0.5
+        q2 = bk.array(
+            _epsilon * _mu * omega**2 - kx**2 - ky**2,
+            dtype=COMPLEX,
         )
+        # 0j clears the sign of a zero imaginary part: evanescent waves decay
+        q = (q2 + 0j) ** 0.5
         # q = bk.where(bk.imag(q) < 0.0, -q, q)
         self.eigenvalues = bk.array(bk.hstack((q, q)))
         self.eigenvectors = bk.array(bk.eye(2 * len(kx), dtype=COMPLEX))
-- 
2.43.0


From 228f60b2b4466813f16e2d7c52cae62694a48b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:01 +0000
Subject: [PATCH 40/46] fix: arrays given to layers are copied with the torch
 backend, as with the others

---
 nannos/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index 4a482e9..c206a3c 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -281,7 +281,8 @@ elif "_TORCH" in globals():
 
         def _array(a, **kwargs):
             if isinstance(a, backend.Tensor):
-                return a.to(torch.device(DEVICE), **kwargs)
+                # like other backends, array makes a copy
+                return a.to(torch.device(DEVICE), copy=True, **kwargs)
             else:
                 return backend.tensor(a, **kwargs).to(torch.device(DEVICE))
 
-- 
2.43.0


From 3c1b920562ddde5c963d8a1683d2b9c3f7c0662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 41/46] fix: diffraction orders that do not have two indices
 are refused

---
 nannos/simulation.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c27fd9c..b695103 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -588,15 +588,12 @@ class Simulation:
         return Tx, Ty, Tz
 
     def get_order_index(self, order):
-        try:
-            len(order) == 2
-        except Exception as e:
-            if self.lattice.is_1D and isinstance(order, int):
-                order = (order, 0)
-            else:
-                raise ValueError(
-                    "order must be a tuple of integers length 2 for bi-periodic gratings"
-                ) from e
+        if self.lattice.is_1D and isinstance(order, int):
+            order = (order, 0)
+        if not hasattr(order, "__len__") or len(order) != 2:
+            raise ValueError(
+                "order must be a tuple of integers length 2 for bi-periodic gratings"
+            )
         # return [
         #     k for k, i in enumerate(self.harmonics.T) if bk.allclose(i, bk.array(order))
         # ][0]
-- 
2.43.0


From 57c27653d6aac836c7cf128422754ed61da804f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 42/46] fix: the S-matrix accepts negative indices of layers
 and refuses wrong ones

---
 nannos/simulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index b695103..38bd8d6 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -277,7 +277,12 @@ class Simulation:
             stack = range(n_interfaces)
             logger.info("Computing total S-matrix")
         else:
-            stack = range(indices[0], indices[1])
+            n_layers = len(self.layers)
+            # as in other methods, negative indices count from the last layer
+            first, last = (i + n_layers if i < 0 else i for i in indices)
+            if not 0 <= first <= last < n_layers:
+                raise ValueError(f"Wrong indices of layers {indices}")
+            stack = range(first, last)
             logger.info(f"Computing S-matrix for indices {indices}")
 
         try:
-- 
2.43.0


From 60d0c47d6fc274d3df70cc64aaecf3ef88074962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 43/46] fix: the type asked for in get_tangent_field is used

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index cf2d2c8..0d1f4b2 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -272,7 +272,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
             vectors=self.lattice.basis_vectors if self.lattice else None,
         )
 
-- 
2.43.0


From 6d45be003af702bda4d0ffa9db12f93c0afd07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 44/46] fix: optimizations without a limit of iterations run
 with scipy as with nlopt

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index 304f8cd..3ebbaa9 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -162,7 +162,7 @@ class TopologyOptimizer:
                     return npo.array(dy, dtype=npo.float64)
 
                 bounds = [(0, 1) for _ in range(self.nvar)]
-                options = {"maxiter": self.maxiter}
+                options = {} if self.maxiter is None else {"maxiter": self.maxiter}
                 if self.options is not None:
                     options.update(self.options)
 
-- 
2.43.0


From 61b3c4dc8be47d1f555c6c6dbef669c6dc536fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 45/46] fix: layers whose matrices are being built belong to no
 simulation until they are solved

---
 nannos/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 38bd8d6..207ccbf 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -622,6 +622,9 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
+        # matrices and eigenmodes of the layer are no longer those of a simulation
+        # until it is solved, even if this is interrupted
+        layer._solution = None
         if self._shares_eigenmodes(layer):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
-- 
2.43.0


From e51297d6e5a21283499694de0ded2f7f03908009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 46/46] fix: a change of backend that has been interrupted can
 be made again

---
 nannos/__init__.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/nannos/__init__.py b/nannos/__init__.py
index c206a3c..09331d3 100644
--- a/nannos/__init__.py
+++ b/nannos/__init__.py
@@ -35,6 +35,10 @@ warnings.filterwarnings(
 
 available_backends = ["numpy", "scipy", "autograd"]
 
+if "_RELOADED" not in globals():
+    # False while the package is being reloaded, or if this has been interrupted
+    _RELOADED = True
+
 
 def print_info():
     print(f"nannos v{__version__}")
@@ -155,11 +159,14 @@ def set_backend(backend):
     global _JAX
     global _TORCH
     global _FORCE_BACKEND
+    global _RELOADED
 
     _FORCE_BACKEND = 1
 
-    if backend == get_backend():
+    if backend == get_backend() and _RELOADED:
         return
+    if backend in ["numpy", "scipy", "autograd", "jax", "torch"]:
+        _RELOADED = False
     #
     # _backend_env_var = os.environ.get("NANNOS_BACKEND")
     # if _backend_env_var is not None:
@@ -203,11 +210,22 @@ def _reload_package():
 
     import nannos
 
+    global _MODULES
+    global _RELOADED
+    _RELOADED = False
+
     importlib.reload(nannos)
 
-    its = [s for s in sys.modules.items() if s[0].startswith("nannos")]
-    for k, v in its:
-        importlib.reload(v)
+    # reloading changes the order of modules: keep that of the first time, so that
+    # modules come after those they depend on even if this has been interrupted
+    its = [s for s in sys.modules if s.startswith("nannos")]
+    if "_MODULES" not in globals():
+        _MODULES = its
+    its = [s for s in _MODULES if s in its] + [s for s in its if s not in _MODULES]
+    for k in its:
+        importlib.reload(sys.modules[k])
+
+    _RELOADED = True
 
 
 def get_backend():
-- 
2.43.0

