From aa1dd1c5d7059cf1cd2609afc7c3cc0648ea79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 01/20] fix: use the third invariant in the I3-I3 term of the
 invariants framework hessian

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From 53278674611496cc25b64ffa43c804e895b73f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 02/20] fix: use principal strains (not their indices) in the
 third-invariant term of the generalized hessian

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..7d0c110 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -285,7 +285,7 @@ class GeneralizedInvariantsModel:
         dEdλ = self.dEdλ
         d2Edλdλ = self.d2Edλdλ
 
-        Eγ = [2, 0, 1]
+        Eγ = self.E[[2, 0, 1]]
 
         d2WdEαdEβ = np.zeros((6, *dWdλα.shape[1:]))
 
-- 
2.43.0


From 347052df8b81248089c8bbe1e756e107c9d3b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/20] fix: evaluate the dilatational space at the spherical
 part of the deformation

---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From 16143e68221af46eb4ed57834b71d588c945a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/20] fix: do not drop the material elasticity term of the
 distortional space for small moduli

---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..8cf3b65 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b != 0):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From 6aecb4ac2c6eee93e44478805945587d70d27474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/20] fix: pass the old state variables to the hessian of the
 material

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From 5057d01a4a1ddf308e4c94b28db59e942c395276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/20] fix: support energies which are linear in an invariant
 in TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..40af775 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if getattr(fun, "requires_grad", False):
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
-- 
2.43.0


From 8aa1975c546f17ed6cfc850333cb0451d03eae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/20] fix: retain the graph in TorchModel for energies with
 coupled invariants

---
 src/hyperelastic/models/invariants/_torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 40af775..a39c4b0 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -72,7 +72,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -93,7 +93,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From 3b6eda3a6f2314d69615156a3288af103ceff61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/20] fix: support scalar-valued invariants (no trailing
 axes) in TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index a39c4b0..adac11e 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -59,7 +59,8 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        dtype = torch.get_default_dtype()
+        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From 74643c7490ba5750817c0a2ed4c604fa30583cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 09/20] fix: broadcast stress and elasticity for the undeformed
 force configuration, too

---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From c6a2bca4f90b0ba13e52e3618fb26c46d25e3dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 10/20] fix: support array-likes for the data of an experiment

---
 src/hyperelastic/lab/_experiment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index f3cfaa4..718399f 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ._plotting import LabPlotter
 
 
@@ -68,9 +70,9 @@ class Experiment(LabPlotter):
         self.time = time
         self.temperature = temperature
 
-        self.stretch = 1 + self.displacement / self.length
+        self.stretch = 1 + np.asarray(self.displacement) / self.length
 
     def stress(self):
         "Evaluate the stress as force per undeformed area."
 
-        return self.force / self.area
+        return np.asarray(self.force) / self.area
-- 
2.43.0


From 4795a47766d36d39a1641f7b3ae0e0314d0de1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 11/20] fix: take a floating-point copy of the initial
 parameters in Optimize

---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..fde06eb 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.array(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0


From e97c07686cf51e86c97a673f26e9f0b449deadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 12/20] fix: accept zero-valued second derivatives beside an
 omitted first derivative in the invariants framework

---
 src/hyperelastic/frameworks/_invariants.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 8ff22d7..559b321 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -165,17 +165,18 @@ class Invariants:
         ntrax = len(C.shape[1:])
         dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))
 
+        self.dI1dC = I
+        self.dI2dC = I1 * I - C
+        self.invC = invC = inv(C, determinant=self.I3)
+        self.dI3dC = I3 * invC
+
         if self.dWdI1 is not None:
-            self.dI1dC = I
             dWdC = dWdC + self.dWdI1 * self.dI1dC
 
         if self.dWdI2 is not None:
-            self.dI2dC = I1 * I - C
             dWdC = dWdC + self.dWdI2 * self.dI2dC
 
         if self.dWdI3 is not None:
-            self.invC = invC = inv(C, determinant=self.I3)
-            self.dI3dC = I3 * invC
             dWdC = dWdC + self.dWdI3 * self.dI3dC
 
         return dWdC, statevars_new
@@ -196,22 +197,22 @@ class Invariants:
             d2WdI1dI3,
         ) = self.material.hessian(self.I1, self.I2, self.I3, statevars)
         I = self.I
+        dI1dC = self.dI1dC
+        dI2dC = self.dI2dC
+        dI3dC = self.dI3dC
 
         ntrax = len(C.shape[1:])
         d2WdCdC = np.zeros((6, 6, *np.ones(ntrax, dtype=int)))
 
-        if self.dWdI1 is not None:
-            dI1dC = self.dI1dC
-            # d2I1dCdC = 0
-            # d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
+        # if self.dWdI1 is not None:
+        #     d2I1dCdC = 0
+        #     d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
 
         if self.dWdI2 is not None:
-            dI2dC = self.dI2dC
             d2I2dCdC = dya(I, I) - cdya(I, I)
             d2WdCdC = d2WdCdC + self.dWdI2 * d2I2dCdC
 
         if self.dWdI3 is not None:
-            dI3dC = self.dI3dC
             invC = self.invC
             d2I3dCdC = self.I3 * (dya(invC, invC) - cdya(invC, invC))
             d2WdCdC = d2WdCdC + self.dWdI3 * d2I3dCdC
-- 
2.43.0


From b9b1a17d1dcd0c9d6961957c3f0e46c046a9b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 13/20] fix: support integer-typed exponents and stretches in
 the generalized strain functions

---
 src/hyperelastic/models/generalized/_stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/generalized/_stretch.py b/src/hyperelastic/models/generalized/_stretch.py
index 4aced70..aeb4f0e 100644
--- a/src/hyperelastic/models/generalized/_stretch.py
+++ b/src/hyperelastic/models/generalized/_stretch.py
@@ -1,7 +1,7 @@
 def strain(stretch, exponent):
     "Seth-Hill strain as a function of the stretch (with first and second derivatives)."
 
-    k = exponent
+    k = 1.0 * exponent
     λ = stretch
 
     E = lambda λ, k: (λ**k - 1) / k  # noqa: E731
@@ -19,7 +19,7 @@ def deformation(stretch, exponent):
     """Generalized deformation as a function of the stretch (with first and second
     derivatives)."""
 
-    k = exponent
+    k = 1.0 * exponent
     λ = stretch
 
     Ck = lambda λ, k: λ**k  # noqa: E731
-- 
2.43.0


From 14e0e99e881614ffd731df8e9ee1e07011976e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 14/20] fix: inverse and crossed-dyadic product of integer
 tensors

inv and cdya computed in place in arrays of the operand's type and raised for
integer tensors, and with them the response at integer deformation gradients.
---
 src/hyperelastic/math/_voigt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..c51a518 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -431,7 +431,7 @@ def inv(A, determinant=None, out=None):
     else:
         detA = determinant
 
-    Ai = A[[1, 0, 0, 4, 3, 3]]
+    Ai = 1.0 * A[[1, 0, 0, 4, 3, 3]]
     Aj = A[[2, 2, 1, 5, 5, 4]]
     Ak = A[[4, 5, 3, 3, 0, 1]]
     Al = A[[4, 5, 3, 2, 4, 5]]
@@ -929,7 +929,7 @@ def cdya(A, B, out=None):
     if out is None:
         out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))
 
-    A, B = np.broadcast_arrays(A, B)
+    A, B = np.broadcast_arrays(1.0 * A, 1.0 * B)
     Aik, Bjl, Ail, Bkj = A[ik], B[jl], A[il], B[kj]
 
     values = np.multiply(Aik, Bjl, out=Aik) + np.multiply(Ail, Bkj, out=Ail)
-- 
2.43.0


From 284908d4ebdfa04936f9c4a44554af62ebb620ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 15/20] fix: support dyadic products of tensors without any
 points

---
 src/hyperelastic/math/_voigt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index c51a518..ecd481e 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -695,8 +695,8 @@ def dya(A, B, out=None):
     """
 
     return np.multiply(
-        A.reshape(-1, 1, *A.shape[1:]),
-        B.reshape(1, -1, *B.shape[1:]),
+        A[:, np.newaxis],
+        B[np.newaxis, :],
         out=out,
     )
 
-- 
2.43.0


From 69afb2f7511f1502ee111ef2a1fd44a4adcd9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 16/20] fix: Ogden: support integer-typed stretches

---
 src/hyperelastic/models/stretches/_ogden.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hyperelastic/models/stretches/_ogden.py b/src/hyperelastic/models/stretches/_ogden.py
index fd1baae..f8775d6 100644
--- a/src/hyperelastic/models/stretches/_ogden.py
+++ b/src/hyperelastic/models/stretches/_ogden.py
@@ -44,6 +44,7 @@ class Ogden:
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the principal stretches."""
 
+        stretches = 1.0 * stretches
         dWdλα = np.zeros_like(stretches)
 
         for mu, alpha in zip(self.mu, self.alpha):
@@ -55,6 +56,7 @@ class Ogden:
         """The hessian as the second partial derivatives of the strain energy function
         w.r.t. the principal stretches."""
 
+        stretches = 1.0 * stretches
         d2Wdλαdλα = np.zeros_like(stretches)
 
         for mu, alpha in zip(self.mu, self.alpha):
-- 
2.43.0


From e147aba5073b83b672b9d4a4cb128f181071dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 17/20] fix: generalized invariants: support integer-typed
 stretches

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index 7d0c110..de9034a 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -252,7 +252,7 @@ class GeneralizedInvariantsModel:
         self.dI2dE = self.c2 * (Eβ + Eγ)
         self.dI3dE = Eβ * Eγ
 
-        dWdλ = np.zeros_like(stretches)
+        dWdλ = np.zeros_like(1.0 * stretches)
 
         if self.dWdI1 is not None:
             dWdλ += self.dWdI1 * self.dI1dE * self.dEdλ
-- 
2.43.0


From 1f6fc03c1b5a68f8f9629005b38f847035257569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:55 +0000
Subject: [PATCH 18/20] fix: third-order deformation: support integer-typed
 invariants

---
 .../models/invariants/_third_order_deformation.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_third_order_deformation.py b/src/hyperelastic/models/invariants/_third_order_deformation.py
index 80d056c..19f1d6a 100644
--- a/src/hyperelastic/models/invariants/_third_order_deformation.py
+++ b/src/hyperelastic/models/invariants/_third_order_deformation.py
@@ -60,10 +60,10 @@ class ThirdOrderDeformation:
         dWdI3 = None
 
         if self.C10 != 0 or self.C11 != 0 or self.C20 != 0 or self.C30 != 0:
-            dWdI1 = 0
+            dWdI1 = 0.0
 
         if self.C01 != 0 or self.C11 != 0:
-            dWdI2 = 0
+            dWdI2 = 0.0
 
         if self.C10 != 0:
             dWdI1 += self.C10
-- 
2.43.0


From e36251219922e8bb719e781b32dee64bab499e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:43 +0000
Subject: [PATCH 19/20] fix: evaluate torch models at reversed views of arrays

torch.tensor() rejects NumPy arrays with negative strides.
---
 src/hyperelastic/models/invariants/_torch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index adac11e..7772f7a 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -1,3 +1,6 @@
+import numpy as np
+
+
 class TorchModel:
     r"""Isotropic hyperelastic material formulation based on a given strain energy
     density function ``fun(I1, I2, I3, **kwargs)`` per unit undeformed volume. The
@@ -60,7 +63,8 @@ class TorchModel:
         import torch
 
         dtype = torch.get_default_dtype()
-        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
+        # torch does not support arrays with negative strides
+        tensors = [torch.tensor(np.array(arg), dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From d4d2bb31f299f3edc9588fbd146e031262072170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:09 +0000
Subject: [PATCH 20/20] fix: repeated stretches are recognised relative to
 their size in the stretch-based hessian

---
 src/hyperelastic/frameworks/_stretches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 7280772..d5c59d8 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -171,7 +171,7 @@ class Stretches:
 
             if β != α:
                 v = λ[α] ** 2 - λ[β] ** 2
-                mask = np.isclose(v, 0)
+                mask = np.isclose(λ[α] ** 2, λ[β] ** 2, rtol=1e-8, atol=0)
 
                 f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                 f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
-- 
2.43.0

