From e89acb259160f2eb69dc557b8b7bfbb1b53f4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 01/24] fix: do not train the user's prior tensors through the
 inference guide

The guide registered the prior location tensor itself as the trainable
parameter, so inference moved the prior along with the posterior.
---
 pyoptmat/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index c9d80e9..cff7abc 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -433,11 +433,11 @@ class HierarchicalStatisticalModel(PyroModule):
             ):
                 dim = loc_loc.dim()
                 loc_param = pyro.param(
-                    var + self.loc_suffix + self.param_suffix, loc_loc
+                    var + self.loc_suffix + self.param_suffix, loc_loc.detach().clone()
                 )
                 scale_param = pyro.param(
                     var + self.scale_suffix + self.param_suffix,
-                    scale_scale,
+                    scale_scale.detach().clone(),
                     constraint=constraints.positive,
                 )
 
@@ -456,7 +456,7 @@ class HierarchicalStatisticalModel(PyroModule):
             if self.include_noise:
                 eps_param = pyro.param(
                     "eps" + self.param_suffix,
-                    self.noise_prior,
+                    self.noise_prior.detach().clone(),
                     constraint=constraints.positive,
                 )
                 if self.type_noise:
-- 
2.43.0


From 5d0573eb919bc4764a8b16399ded23e3f5b76932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 02/24] fix: copy the initial parameter values given to
 DeterministicModel

Parameter(ic) shares storage with ic, so training modified the caller's
initial values (and any other model built from them).
---
 pyoptmat/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index cff7abc..e1f1259 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -134,7 +134,7 @@ class DeterministicModel(Module):
         # Add all the parameters
         self.params = names
         for name, ic in zip(names, ics):
-            setattr(self, name, Parameter(ic))
+            setattr(self, name, Parameter(ic.detach().clone()))
 
     def get_params(self):
         """
-- 
2.43.0


From 849345e46c6392ed7463d5e9d3911588882c2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 03/24] fix: allow PCR and hybrid factorizations to be applied
 more than once

The cyclic reduction overwrote the stored off diagonal blocks, so every
solve after the first used the reduced blocks and returned a wrong answer.
---
 pyoptmat/chunktime.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..33ef74b 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -228,18 +228,15 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # The reduction overwrites the off diagonal blocks, so work on a copy
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -354,20 +351,20 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
-        # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        # The reduction overwrites the off diagonal blocks, so work on a copy
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
         # To retain consistent sizes
-        self.B = self.B[1:]
+        B = B[1:]
 
         # We still need to solve the first block even if last is 0
 
@@ -382,7 +379,7 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v[i] = torch.linalg.lu_solve(
                 self.lu[i],
                 self.pivots[i],
-                v[i] - torch.bmm(self.B[i - 1], v[i - 1].clone()),
+                v[i] - torch.bmm(B[i - 1], v[i - 1].clone()),
             )
 
         return v
-- 
2.43.0


From 807bbae08ade5d00b55a10568dbc17b2fd32196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 04/24] fix: bidiagonal solves do not overwrite the caller's
 right hand side

contiguous() returns a view when there is only one batch entry or one
block, so the in place solves modified the vector passed in.
---
 pyoptmat/chunktime.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 33ef74b..2f7a4ab 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -163,7 +163,6 @@ class LUFactorization(BidiagonalOperator):
                 v.reshape((self.sbat, self.nblk, self.sblk))
                 .transpose(0, 1)
                 .unsqueeze(-1)
-                .contiguous()
             )
             .squeeze(-1)
             .transpose(0, 1)
@@ -209,6 +208,9 @@ class BidiagonalThomasFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
+        # thomas_solve works in place, leave the caller's right hand side alone
+        v = v.clone(memory_format=torch.contiguous_format)
+
         return thomas_solve(self.lu, self.pivots, self.B, v)
 
 
@@ -228,6 +230,9 @@ class BidiagonalPCRFactorization(LUFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
+        # The reduction works in place, leave the caller's right hand side alone
+        v = v.clone(memory_format=torch.contiguous_format)
+
         # The reduction overwrites the off diagonal blocks, so work on a copy
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
@@ -351,6 +356,9 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
         Args:
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
+        # The reduction works in place, leave the caller's right hand side alone
+        v = v.clone(memory_format=torch.contiguous_format)
+
         # The reduction overwrites the off diagonal blocks, so work on a copy
         B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
-- 
2.43.0


From 44e34ee0c58fab877fe819db8d6c1e0429e147d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 05/24] fix: Newton solvers do not overwrite the caller's
 starting point

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 2f7a4ab..31a82e6 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,7 +48,7 @@ def newton_raphson_chunk(
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver.solve(J, R)
+        x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..cb46282 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -114,7 +114,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver(J, R)
+        x = x - solver(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
@@ -418,7 +418,7 @@ class PreconditionerReuseNonlinearSolver:
                 return_iters=True,
                 tol=ltol,
             )
-            x -= dx
+            x = x - dx
             R, J = fn(x)
             if niter > l_refactor:
                 self._update_preconditioner(J)
-- 
2.43.0


From 5010c18f5da00743f7d92482b3439c0e0911ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 06/24] fix: report Newton solves that end with a non-finite
 residual

A NaN residual compares false against both tolerances, so the loops left
and returned the unsolved iterate as if it had converged, without a warning
and even with throw_on_fail=True.
---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 31a82e6..7fc991e 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,7 +53,7 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index cb46282..ee2c053 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +119,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +425,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if i == miter or not torch.all(torch.isfinite(nR)):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From 3d89da1a6dd35f58765b3220628f1ad58a7d833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 07/24] fix: raise if parameters change between adjoint forward
 and backward

The adjoint pass reevaluates the model, so after an in place parameter update
it silently returned the gradient at the new parameters.  AD raises here.
---
 pyoptmat/ode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..4763d6d 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -594,6 +594,8 @@ class IntegrateWithAdjoint(torch.autograd.Function):
             y = solver.integrate(times, cache_adjoint=True)
             # Save the info we will need for the backward pass
             ctx.solver = solver
+            # This makes torch check that the parameters do not change before backward
+            ctx.save_for_backward(*params[: len(solver.adjoint_params)])
             return y
 
     @staticmethod
@@ -603,6 +605,10 @@ class IntegrateWithAdjoint(torch.autograd.Function):
           ctx:            context object with state
           output_grad:    grads with which to dot product
         """
+        # The backward pass reevaluates the model, torch raises an exception here if
+        # the parameters changed since the forward pass
+        _ = ctx.saved_tensors
+
         with torch.no_grad():
             grad_tuple, lambda_0 = ctx.solver.rewind(output_grad)
 
-- 
2.43.0


From c3d2e2618015f2e758e30896cb3e051e30b3a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 08/24] fix: raise for second derivatives through the adjoint
 method

The adjoint backward pass is not differentiable, its contribution to
higher derivatives was silently dropped.
---
 pyoptmat/ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 4763d6d..d67e97b 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -38,6 +38,7 @@
     default value of 1.
 """
 import torch
+from torch.autograd.function import once_differentiable
 
 from pyoptmat import chunktime
 from pyoptmat.utility import mbmm
@@ -599,6 +600,7 @@ class IntegrateWithAdjoint(torch.autograd.Function):
             return y
 
     @staticmethod
+    @once_differentiable
     def backward(ctx, output_grad):
         """
         Args:
-- 
2.43.0


From 2304d482b9834b649682d72a2f89aa1c886f91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 09/24] fix: skip frozen parameters in the adjoint method

Parameters with requires_grad=False made the backward pass fail.
---
 pyoptmat/ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index d67e97b..3079ec4 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -667,7 +667,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
-    adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(
+        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+    )
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 2478ec3d629d4012b0e55eda8c15f51fd55d8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 10/24] fix: adjoint gradients do not depend on later changes
 to the input data

The interpolators kept views of the caller's times and data, so refilling
these buffers before the backward pass silently changed the gradient.
---
 pyoptmat/models.py  | 2 +-
 pyoptmat/utility.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..688482d 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -441,7 +441,7 @@ class BothBasedModel(nn.Module):
         self.rate_fn = rate_fn
         self.base_fn = base_fn
         self.T_fn = T_fn
-        self.control = control
+        self.control = control.clone()
 
         self.emodel = StrainBasedModel(self.model, self.rate_fn, self.T_fn)
         self.smodel = StressBasedModel(
diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..9f0dd8c 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -295,8 +295,10 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
     def __init__(self, times, data):
         super().__init__()
         # Transpose to put the shared dimension first
-        self.times = times.t()
-        self.values = data.t()
+        # Copy, so the interpolation (and adjoint passes that use it later) doesn't
+        # change if the caller reuses the input tensors
+        self.times = times.t().clone()
+        self.values = data.t().clone()
 
         self.slopes = torch.diff(self.values, dim=-1) / torch.diff(self.times, dim=-1)
 
-- 
2.43.0


From ce1d987518afe5bd96bf7f82a72fd2041ed799e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 11/24] fix: check each point is in exactly one interval when
 interpolating

For non-monotonic times a missing match in one batch member and a double match in
another cancel, which silently shifted the values of all members in between.
---
 pyoptmat/utility.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 9f0dd8c..69f4424 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -338,6 +338,13 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
             locs[..., 0], t == self.times[..., 0].unsqueeze(-1)
         )
 
+        # The selection below is only right if each point is in exactly one interval
+        if not torch.all(torch.sum(locs, d1) == 1):
+            raise ValueError(
+                "Cannot interpolate, either the requested times are outside the "
+                "provided times or the provided times are not monotonic"
+            )
+
         if squeeze:
             return poss[locs].squeeze(-1).t()
 
-- 
2.43.0


From 72a2b2fa63ff14261a0391aac0f923a5d46213fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 12/24] fix: process each test with its own cycle counts

Relaxation, creep and cyclic results were processed with the cycle counts of the
first test of that type in the batch.
---
 pyoptmat/experiments.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..9d8abae 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,11 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    rcurve = cycles == 1
+    _, index = torch.max(rcurve, 0)
+    start = predictions.gather(0, index.view(1, -1))
 
-    result[rcurve] = curve
-
-    return result
+    return torch.where(rcurve, predictions - start, 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -281,11 +277,10 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    for i in range(torch.max(cycles) + 1):
+        curr = cycles == i
+        vals, _ = torch.max(torch.where(curr, predictions, -torch.inf), 0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From 5629672688f34a1da5158dcb232c66f0f3faaaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 13/24] fix: derivatives of the Hayhurst-Leckie damage rate

They missed the factors (xi-phi) and xi/A, which made adjoint gradients wrong.
---
 pyoptmat/damage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..db41aae 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,7 +111,11 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
+        ), -(self.xi(T) - self.phi(T)) * (
+            (torch.abs(s) / self.A(T)) ** self.xi(T)
+        ) * (
+            1 - d
+        ) ** (
             self.xi(T) - self.phi(T) - 1
         )
 
@@ -126,7 +130,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From 297aeff37e8aa9f90bd9559e643d7c65e321618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 14/24] fix: complete the damage row of the Jacobian of the
 damaged model

The effective stress depends on damage, this contribution was missing, which
made adjoint gradients wrong.
---
 pyoptmat/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 688482d..9e5eba8 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,12 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(stress / (1 - d), d, t, T, erate)
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From b4c709afb0cd1ab8855d4de351d40601e3dd94da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 15/24] fix: complete the stress controlled Jacobian for rate
 dependent history

For models where the history rate depends on the strain rate the Jacobian missed
the change in strain rate with the state, which made adjoint gradients wrong.
---
 pyoptmat/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 9e5eba8..c1f4c1f 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -556,7 +556,9 @@ class StressBasedModel(nn.Module):
         ydot, J, Je, _ = self.model(t, yp, erate[..., 0], cT)
 
         # Rescale the jacobian
-        J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        # (the history rate can depend on the strain rate too)
+        Jrow = -J[..., :1, :] / Je[..., :1, None]
+        J = torch.cat([Jrow, J[..., 1:, :] + Je[..., 1:, None] * Jrow], dim=-2)
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From f29c679f1b113ebc16e2e24fe239dae75c9da6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 16/24] fix: previous initial guess with blocks longer than the
 history

The zero guess used for the first block was truncated as if it was the
increment of the previous block, so the solve failed with a shape error.
---
 pyoptmat/ode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 3079ec4..cecb85b 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -403,8 +403,8 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
-            guess = guess[blk:]
+                blk = self.n - result[k : k + self.n].shape[0]
+                guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
 
-- 
2.43.0


From 84f9f51a43975c898c2575c318b1b7e5235719f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 17/24] fix: replace a stored preconditioner that cannot be
 reused

---
 pyoptmat/solvers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index ee2c053..07fe6c4 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -389,6 +389,19 @@ class PreconditionerReuseNonlinearSolver:
     def _update_preconditioner(self, J):
         self.stored_preconditioner = LUPreconitionerOperator(J)
 
+    def _can_reuse(self, J):
+        """
+        Check the stored preconditioner can be used with the provided matrix
+
+        It can't be if the last problem had a different shape or if it was
+        formed from a matrix with non-finite entries
+        """
+        return (
+            self.stored_preconditioner is not None
+            and self.stored_preconditioner.LU.shape == J.shape
+            and bool(torch.all(torch.isfinite(self.stored_preconditioner.LU)))
+        )
+
     def solve(self, fn, x0, rtol=1e-6, atol=1e-10, miter=100, ltol=1e-10):
         """
         Solve the nonlinear system
@@ -396,7 +409,7 @@ class PreconditionerReuseNonlinearSolver:
         x = x0
         R, J = fn(x)
 
-        if not self.stored_preconditioner:
+        if not self._can_reuse(J):
             self._update_preconditioner(J)
 
         nR = torch.norm(R, dim=-1)
-- 
2.43.0


From 6de7dae1ffb319168de41bc8165528dc3544c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:57 +0000
Subject: [PATCH 18/24] fix: nan backpropogation gradients for static recovery
 of zero backstress

---
 pyoptmat/hardening.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/hardening.py b/pyoptmat/hardening.py
index 6492e2e..2dd65c9 100644
--- a/pyoptmat/hardening.py
+++ b/pyoptmat/hardening.py
@@ -1051,6 +1051,28 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         """
         return self.nback
 
+    def _static_recovery(self, h, T):
+        """
+        The :math:`\\left| h \\right|^{r-1}` term in the static recovery
+
+        The derivative of this function is infinite at :math:`h = 0` for :math:`r < 2`,
+        which turns the backpropogated gradients into nans.  So don't differentiate it there.
+
+        Args:
+          h (torch.tensor):   history
+          T (torch.tensor):   the temperature
+
+        Returns:
+          torch.tensor:       value of the static recovery term
+        """
+        p = self.r(T)[None, ...] - 1.0
+        zero = h == 0
+        return torch.where(
+            zero,
+            torch.abs(h.detach()) ** p,
+            torch.abs(torch.where(zero, 1.0, h)) ** p,
+        )
+
     def history_rate(self, s, h, t, ep, T, e):
         """
         The rate evolving the internal variables
@@ -1069,7 +1091,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return (
             self.C(T)[None, ...] * ep[..., None]
             - self.g(T)[None, ...] * h * torch.abs(ep)[..., None]
-            - self.b(T)[None, ...] * torch.abs(h) ** (self.r(T)[None, ...] - 1.0) * h
+            - self.b(T)[None, ...] * self._static_recovery(h, T) * h
         ).reshape(h.shape)
 
     def dhistory_rate_dstress(self, s, h, t, ep, T, e):
@@ -1107,9 +1129,7 @@ class ChabocheHardeningModelRecovery(KinematicHardeningModel):
         return torch.diag_embed(
             -self.g(T)[None, ...] * torch.abs(ep)[..., None]
         ).reshape(h.shape + (self.nback,)) + torch.diag_embed(
-            -self.b(T)[None, ...]
-            * self.r(T)[None, ...]
-            * torch.abs(h) ** (self.r(T)[None, ...] - 1.0)
+            -self.b(T)[None, ...] * self.r(T)[None, ...] * self._static_recovery(h, T)
         ).reshape(
             h.shape + (self.nback,)
         )
-- 
2.43.0


From c4d0a17ff3c7ea5fd3a267733c981de072aeb082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 19/24] fix: count the adjoint gradient of each parameter once

---
 pyoptmat/ode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cecb85b..d2239d2 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -667,8 +667,9 @@ def odeint_adjoint(
     # Grab parameters for backward
     if extra_params is None:
         extra_params = []
+    # Keep only one reference to each, or we would count its gradient twice
     adjoint_params = tuple(
-        p for p in (*func.parameters(), *extra_params) if p.requires_grad
+        {id(p): p for p in (*func.parameters(), *extra_params) if p.requires_grad}.values()
     )
 
     solver = FixedGridBlockSolver(
-- 
2.43.0


From 045ec25a7b77b85a8d577a1a6a4797065c3a4097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 20/24] fix: refuse every second derivative through the adjoint
 method

---
 pyoptmat/ode.py | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index d2239d2..83a2fad 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -38,7 +38,6 @@
     default value of 1.
 """
 import torch
-from torch.autograd.function import once_differentiable
 
 from pyoptmat import chunktime
 from pyoptmat.utility import mbmm
@@ -600,7 +599,6 @@ class IntegrateWithAdjoint(torch.autograd.Function):
             return y
 
     @staticmethod
-    @once_differentiable
     def backward(ctx, output_grad):
         """
         Args:
@@ -609,14 +607,50 @@ class IntegrateWithAdjoint(torch.autograd.Function):
         """
         # The backward pass reevaluates the model, torch raises an exception here if
         # the parameters changed since the forward pass
-        _ = ctx.saved_tensors
+        params = ctx.saved_tensors
 
         with torch.no_grad():
-            grad_tuple, lambda_0 = ctx.solver.rewind(output_grad)
+            grads, lambda_0 = ctx.solver.rewind(output_grad)
 
             if ctx.solver.y0.requires_grad:
-                return (None, None, *grad_tuple) + (lambda_0,)
-            return (None, None, *grad_tuple)
+                grads += (lambda_0,)
+
+        # The result depends on all of these, but we can't provide that derivative
+        if torch.is_grad_enabled():
+            grads = RefuseDerivative.apply(
+                len(grads), *grads, output_grad, ctx.solver.y0, *params
+            )
+
+        return (None, None, *grads)
+
+
+class RefuseDerivative(torch.autograd.Function):
+    # pylint: disable=abstract-method,arguments-differ
+    """
+    Connect results to the quantities they depend on, but raise an exception if
+    someone asks for the derivative
+    """
+
+    @staticmethod
+    def forward(ctx, n, *args):
+        """
+        Args:
+          ctx:            context object, not used
+          n:              number of results
+          args:           results followed by the quantities they depend on
+        """
+        return tuple(a.clone() for a in args[:n])
+
+    @staticmethod
+    def backward(ctx, *output_grads):
+        """
+        Args:
+          ctx:            context object, not used
+          output_grads:   grads with which to dot product
+        """
+        raise RuntimeError(
+            "The adjoint method does not provide second derivatives, use odeint instead"
+        )
 
 
 def odeint_adjoint(
-- 
2.43.0


From 44a158409202edeca396af6b1c3fcc3c180780d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 21/24] fix: nan backpropagation gradients for Larson-Miller
 damage at zero stress

---
 pyoptmat/damage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index db41aae..d0ec6a3 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -252,9 +252,8 @@ class LarsonMillerDamage(DamageModel):
             * (torch.abs(s) * (1 - d)) ** (-self.A(T) / T),
             10.0 ** (self.C(T) - self.B(T) / T)
             * self.A(T)
-            * torch.abs(s)
-            * (torch.abs(s) * (1 - d)) ** (-(self.A(T) + T) / T)
-            / T,
+            * (torch.abs(s) * (1 - d)) ** (-self.A(T) / T)
+            / ((1 - d) * T),
         )
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
-- 
2.43.0


From aa52dae8357fffdf9dcfb8414c15b5a5b9b761bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 22/24] fix: raise if frozen parameters change between adjoint
 forward and backward

---
 pyoptmat/ode.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 83a2fad..f902fc8 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -582,12 +582,14 @@ class IntegrateWithAdjoint(torch.autograd.Function):
     """
 
     @staticmethod
-    def forward(ctx, solver, times, *params):
+    def forward(ctx, solver, times, fixed, *params):
         """
         Args:
           ctx:        context object we can use to stash state
           solver:     ODE Solver object to use
           times:      times to provide output for
+          fixed:      model parameters that don't need a gradient
+          params:     parameters, and maybe initial conditions, that need a gradient
         """
         with torch.no_grad():
             # Do our first pass and get full results
@@ -595,7 +597,7 @@ class IntegrateWithAdjoint(torch.autograd.Function):
             # Save the info we will need for the backward pass
             ctx.solver = solver
             # This makes torch check that the parameters do not change before backward
-            ctx.save_for_backward(*params[: len(solver.adjoint_params)])
+            ctx.save_for_backward(*params[: len(solver.adjoint_params)], *fixed)
             return y
 
     @staticmethod
@@ -621,7 +623,7 @@ class IntegrateWithAdjoint(torch.autograd.Function):
                 len(grads), *grads, output_grad, ctx.solver.y0, *params
             )
 
-        return (None, None, *grads)
+        return (None, None, None, *grads)
 
 
 class RefuseDerivative(torch.autograd.Function):
@@ -702,9 +704,9 @@ def odeint_adjoint(
     if extra_params is None:
         extra_params = []
     # Keep only one reference to each, or we would count its gradient twice
-    adjoint_params = tuple(
-        {id(p): p for p in (*func.parameters(), *extra_params) if p.requires_grad}.values()
-    )
+    all_params = {id(p): p for p in (*func.parameters(), *extra_params)}.values()
+    adjoint_params = tuple(p for p in all_params if p.requires_grad)
+    fixed_params = tuple(p for p in all_params if not p.requires_grad)
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
@@ -715,4 +717,4 @@ def odeint_adjoint(
     if y0.requires_grad:
         adjoint_params += (y0,)
 
-    return wrapper.apply(solver, times, *adjoint_params)
+    return wrapper.apply(solver, times, fixed_params, *adjoint_params)
-- 
2.43.0


From f6d6ac21ef4417ce27438bd2bf57af648ff73a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 23/24] fix: load_results broadcast or passed on arrays of
 inconsistent size

---
 pyoptmat/experiments.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 9d8abae..722bd24 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -119,6 +119,18 @@ def load_results(xdata, device=torch.device("cpu")):
         [control_map[t] for t in xdata["control"].values], device=device
     )
 
+    # A short read would be broadcast or passed on unnoticed
+    for name, values in zip(
+        ["temperature", "strain", "stress", "cycle"], [temp, strain, stress, cycle]
+    ):
+        if values.shape != time.shape:
+            raise ValueError(
+                f"The shape of {name} {tuple(values.shape)} does not match "
+                f"the shape of time {tuple(time.shape)}"
+            )
+    if types.shape != time.shape[1:] or control.shape != time.shape[1:]:
+        raise ValueError("Need exactly one type and one control label per test")
+
     data = torch.empty((3,) + time.shape, device=device)
 
     data[0] = time
-- 
2.43.0


From 429bded173da730da6b9a45305d09f51f295667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 24/24] fix: load_results stored the measured results in the
 data type of the times

---
 pyoptmat/experiments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 722bd24..79d63bd 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -138,7 +138,9 @@ def load_results(xdata, device=torch.device("cpu")):
     data[2, :, control == 0] = strain[:, control == 0]
     data[2, :, control == 1] = stress[:, control == 1]
 
-    results = torch.empty_like(time)
+    results = torch.empty(
+        time.shape, dtype=torch.promote_types(strain.dtype, stress.dtype), device=device
+    )
     results[:, control == 0] = stress[:, control == 0]
     results[:, control == 1] = strain[:, control == 1]
 
-- 
2.43.0

