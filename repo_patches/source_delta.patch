From bf72bf835b0299c24d9ef28be927283483e255e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/19] fix: use the second derivative w.r.t. the third
 invariant in the invariants-hessian

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From c304817fe0ec3a8a7709c4c19496b020b266a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 02/19] fix: second derivative of the third generalized
 invariant are strains, not indices

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..91f4ae5 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -319,7 +319,7 @@ class GeneralizedInvariantsModel:
             d2WdEαdEβ[3:] += self.dWdI2 * d2I2dEαdEβ
 
         if self.dWdI3 is not None:
-            d2I3dEαdEβ = Eγ
+            d2I3dEαdEβ = self.E[Eγ]
             d2WdEαdEβ[3:] += self.dWdI3 * d2I3dEαdEβ
 
         # in-place modification (avoid the creation of a new array)
-- 
2.43.0


From 0751406cb7c6c9b1cbbeddc0230ae4a39d9b2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 03/19] fix: pass the old state variables to the hessian of the
 material model

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From c9c4fb4230254a6229cb2d1849212520801cc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 04/19] fix: evaluate the dilatational space on the
 dilatational part of the deformation

---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From b89a4970d844e8acab661daa8b070675af3144fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 05/19] fix: do not drop small elasticity tensors in the
 distortional space

---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..8cf3b65 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b != 0):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From 4ba325fcb95e3fcb166a32cc2eef51fabac734a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 06/19] fix: torch-models which are linear in an invariant or
 depend on several invariants

---
 src/hyperelastic/models/invariants/_torch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..e1ec8a8 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if fun is not None and fun.requires_grad:
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
@@ -59,7 +59,8 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        dtype = torch.get_default_dtype()
+        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
@@ -72,7 +73,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -93,7 +94,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From 580c9f9d85e6a2ae484a3879b722cbd1e013af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 07/19] fix: broadcast deformation-independent tensors for the
 undeformed force configuration

---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From 5549ca68e807987e2efff8680387af4e4a702260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 08/19] fix: do not truncate fitted parameters for an
 integer-valued initial guess

---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..fde06eb 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.array(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0


From 9ab9c653bb33384e508fa9dadf2c86633baeed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 09/19] fix: accept array-like displacement and force data in
 experiments

---
 src/hyperelastic/lab/_experiment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index f3cfaa4..ddcff6c 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ._plotting import LabPlotter
 
 
@@ -61,8 +63,8 @@ class Experiment(LabPlotter):
         super().__init__()
 
         self.label = label
-        self.displacement = displacement
-        self.force = force
+        self.displacement = np.asarray(displacement)
+        self.force = np.asarray(force)
         self.area = area
         self.length = length
         self.time = time
-- 
2.43.0


From f76d0b083c8742461cefd2826c5173d1b627dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 10/19] fix: broadcast constant derivatives w.r.t. the
 principal stretches

---
 src/hyperelastic/frameworks/_stretches.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 7280772..041a0e5 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -126,7 +126,8 @@ class Stretches:
         self.λ, self.M = eigh(C, fun=np.sqrt)
 
         self.dWdλ, statevars_new = self.material.gradient(self.λ, statevars)
-        self.dWdλ = np.asarray(self.dWdλ)
+        newshape = self.λ[0].shape
+        self.dWdλ = np.array([np.broadcast_to(dW, newshape) for dW in self.dWdλ])
 
         self.dWdλC = self.dWdλ / (2 * self.λ)
 
-- 
2.43.0


From cf036de2ac15187e17ac4ed218a8ae1092554c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 11/19] fix: dyadic product of empty batches

---
 src/hyperelastic/math/_voigt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..ace2916 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -695,8 +695,8 @@ def dya(A, B, out=None):
     """
 
     return np.multiply(
-        A.reshape(-1, 1, *A.shape[1:]),
-        B.reshape(1, -1, *B.shape[1:]),
+        A.reshape(A.shape[0], 1, *A.shape[1:]),
+        B.reshape(1, B.shape[0], *B.shape[1:]),
         out=out,
     )
 
-- 
2.43.0


From b3ec4fcc54a7dc75992fa3e3af56bdedd8e7f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 12/19] fix: second derivatives w.r.t. an invariant whose first
 derivative is None

---
 src/hyperelastic/frameworks/_invariants.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 8ff22d7..7d68914 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -200,19 +200,20 @@ class Invariants:
         ntrax = len(C.shape[1:])
         d2WdCdC = np.zeros((6, 6, *np.ones(ntrax, dtype=int)))
 
-        if self.dWdI1 is not None:
-            dI1dC = self.dI1dC
-            # d2I1dCdC = 0
-            # d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
+        # a second derivative may be given even if the first derivative is None
+        dI1dC = I
+        dI2dC = self.I1 * I - C
+        invC = inv(C, determinant=self.I3)
+        dI3dC = self.I3 * invC
+
+        # d2I1dCdC = 0
+        # d2WdCdC = d2WdCdC + self.dWdI1 * d2I1dCdC
 
         if self.dWdI2 is not None:
-            dI2dC = self.dI2dC
             d2I2dCdC = dya(I, I) - cdya(I, I)
             d2WdCdC = d2WdCdC + self.dWdI2 * d2I2dCdC
 
         if self.dWdI3 is not None:
-            dI3dC = self.dI3dC
-            invC = self.invC
             d2I3dCdC = self.I3 * (dya(invC, invC) - cdya(invC, invC))
             d2WdCdC = d2WdCdC + self.dWdI3 * d2I3dCdC
 
-- 
2.43.0


From 87a2140428e6ed4755ae4d460c604538651f1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 13/19] fix: compare principal stretches relatively in the
 elasticity of the stretches framework

The absolute tolerance of np.isclose took different small principal stretches
for equal ones and replaced the difference quotient by its limit.
---
 src/hyperelastic/frameworks/_stretches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 041a0e5..79c6d53 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -172,7 +172,7 @@ class Stretches:
 
             if β != α:
                 v = λ[α] ** 2 - λ[β] ** 2
-                mask = np.isclose(v, 0)
+                mask = np.isclose(λ[α], λ[β], rtol=1e-8, atol=0)
 
                 f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                 f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
-- 
2.43.0


From 01e797fb37d2d068f2ce78c9977609b2ebbf672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 14/19] fix: inverse and crossed-dyadic products of integer
 tensors

Integer-valued tensors (e.g. an integer deformation gradient) raised a casting
error (or would have been truncated).
---
 src/hyperelastic/math/_voigt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index ace2916..5fafdaf 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -424,7 +424,7 @@ def inv(A, determinant=None, out=None):
 
     """
 
-    detAinvA = np.zeros_like(A)
+    A = A.astype(np.result_type(A, 1.0), copy=False)
 
     if determinant is None:
         detA = det(A)
@@ -929,7 +929,10 @@ def cdya(A, B, out=None):
     if out is None:
         out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))
 
-    A, B = np.broadcast_arrays(A, B)
+    dtype = np.result_type(A, B, 1.0)
+    A, B = np.broadcast_arrays(
+        A.astype(dtype, copy=False), B.astype(dtype, copy=False)
+    )
     Aik, Bjl, Ail, Bkj = A[ik], B[jl], A[il], B[kj]
 
     values = np.multiply(Aik, Bjl, out=Aik) + np.multiply(Ail, Bkj, out=Ail)
-- 
2.43.0


From 22c299970635129634cd96b3505364f8909d499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 15/19] fix: second derivatives w.r.t. the principal stretches
 given as an array of numbers

---
 src/hyperelastic/frameworks/_stretches.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 79c6d53..d8353c5 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -144,13 +144,12 @@ class Stretches:
         dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
-        if not isinstance(d2Wdλdλ, np.ndarray):
-            newshape = self.λ[0].shape
-            _d2Wdλdλ = np.zeros((6, *self.λ[0].shape))
-            for a in range(6):
-                if d2Wdλdλ[a] is not None:
-                    _d2Wdλdλ[a] = np.broadcast_to(d2Wdλdλ[a], newshape)
-            d2Wdλdλ = _d2Wdλdλ
+        newshape = self.λ[0].shape
+        _d2Wdλdλ = np.zeros((6, *newshape))
+        for a in range(6):
+            if d2Wdλdλ[a] is not None:
+                _d2Wdλdλ[a] = np.broadcast_to(d2Wdλdλ[a], newshape)
+        d2Wdλdλ = _d2Wdλdλ
 
         λ = self.λ
         M = self.M
-- 
2.43.0


From 4169f474467243c7f594ca81e4c04517636cd10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 16/19] fix: evaluate simulations at stretches of any array
 shape

---
 src/hyperelastic/lab/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_simulation.py b/src/hyperelastic/lab/_simulation.py
index 6871ce8..60786ce 100644
--- a/src/hyperelastic/lab/_simulation.py
+++ b/src/hyperelastic/lab/_simulation.py
@@ -114,7 +114,7 @@ class Simulation(LabPlotter):
         kwargs = {label: p for label, p in zip(self.labels, parameters)}
         mat = self.material(**kwargs)
         F = self.loadcase.defgrad(x)
-        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)
+        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(F.shape)
         return self.loadcase.stress(F, P)
 
     def stress(self):
-- 
2.43.0


From 40962be2dc9fba892a5c529cbab526d4944d6af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 17/19] fix: derivatives of torch models independent of the
 grad mode of the caller

---
 src/hyperelastic/models/invariants/_torch.py | 38 ++++++++++++--------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index e1ec8a8..fa6a36d 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -77,25 +77,35 @@ class TorchModel:
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
-        if not tensor:
-            I1, I2, I3 = self._astensors(I1, I2, I3)
+        import torch
 
-        f = self.fun(I1, I2, I3, **self.kwargs)
         kwargs = dict(numpy=numpy, create_graph=create_graph, retain_graph=retain_graph)
 
-        return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)
+        # the derivatives do not depend on the grad-mode of the caller
+        with torch.inference_mode(False), torch.enable_grad():
+            if not tensor:
+                I1, I2, I3 = self._astensors(I1, I2, I3)
+
+            f = self.fun(I1, I2, I3, **self.kwargs)
+
+            return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)
 
     def hessian(self, I1, I2, I3, statevars, numpy=True):
         """The hessian as the second partial derivatives of the strain energy function
         w.r.t. the invariants."""
-        I1, I2, I3 = self._astensors(I1, I2, I3)
-        dWdI1, dWdI2, dWdI3, statevars = self.gradient(
-            I1, I2, I3, statevars, tensor=True, create_graph=True, numpy=False
-        )
-
-        return [
-            self._grad(f, x, numpy=numpy, retain_graph=True)
-            for f, x in zip(
-                [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
+        import torch
+
+        # the derivatives do not depend on the grad-mode of the caller
+        with torch.inference_mode(False), torch.enable_grad():
+            I1, I2, I3 = self._astensors(I1, I2, I3)
+            dWdI1, dWdI2, dWdI3, statevars = self.gradient(
+                I1, I2, I3, statevars, tensor=True, create_graph=True, numpy=False
             )
-        ]
+
+            return [
+                self._grad(f, x, numpy=numpy, retain_graph=True)
+                for f, x in zip(
+                    [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1],
+                    [I1, I2, I3, I2, I3, I3],
+                )
+            ]
-- 
2.43.0


From 15188642a68fff297bf7a2a4b6b35585997e3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 18/19] fix: keep the mask of measured data

---
 src/hyperelastic/lab/_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index ddcff6c..5ba7b12 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -63,8 +63,8 @@ class Experiment(LabPlotter):
         super().__init__()
 
         self.label = label
-        self.displacement = np.asarray(displacement)
-        self.force = np.asarray(force)
+        self.displacement = np.asanyarray(displacement)
+        self.force = np.asanyarray(force)
         self.area = area
         self.length = length
         self.time = time
-- 
2.43.0


From ae69e4f56d6a9e3fa5f2f3bf692c06cd4cea7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 19/19] fix: derivatives of the deformation measure given as
 numbers

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index 91f4ae5..7359d4a 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -282,7 +282,7 @@ class GeneralizedInvariantsModel:
         dI1dE = self.dI1dE
         dI2dE = self.dI2dE
         dI3dE = self.dI3dE
-        dEdλ = self.dEdλ
+        dEdλ = np.broadcast_to(self.dEdλ, self.E.shape)
         d2Edλdλ = self.d2Edλdλ
 
         Eγ = [2, 0, 1]
-- 
2.43.0

