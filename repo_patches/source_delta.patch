From 8f93dccba2e2cc9babc93c82132f134ac4ad8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 01/43] fix: L2.prox no longer subtracts the dot-product term
 from the caller's x

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fa53e5f 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From 4818d5158a2e6ac34bfc9184c0dc93ae528051a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 02/43] fix: L2 never pairs a step with the Cholesky factor of
 another one

---
 pyproximal/proximal/L2.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index fa53e5f..93906c6 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -178,7 +178,8 @@ class L2(ProxOperator):
         # when using factorize, store the first tau*sigma=0 so that the
         # first time it will be recomputed (as tau cannot be 0)
         if self.densesolver == "factorize":
-            self.tausigma = 0.0
+            # step and Cholesky factor always replaced together
+            self._factor = (0.0, None)
 
         # create data term
         if (
@@ -239,12 +240,14 @@ class L2(ProxOperator):
                     else:
                         x = Op1.div(y, densesolver=self.densesolver)
                 else:
-                    if self.tausigma != tau * self.sigma:
+                    tausigma, cl = self._factor
+                    if tausigma != tau * self.sigma:
                         # recompute factorization
-                        self.tausigma = tau * self.sigma
-                        ATA = np.eye(self.Op.shape[1]) + self.tausigma * self.ATA
-                        self.cl = cho_factor(ATA)
-                    x = cho_solve(self.cl, y)
+                        tausigma = tau * self.sigma
+                        ATA = np.eye(self.Op.shape[1]) + tausigma * self.ATA
+                        cl = cho_factor(ATA)
+                        self._factor = (tausigma, cl)
+                    x = cho_solve(cl, y)
             elif self.normaleqs:
                 Op1 = Identity(self.Op.shape[1], dtype=self.Op.dtype) + float(
                     tau * self.sigma
-- 
2.43.0


From 26d26d2d402b19278ae5880b9bda2bba85d635b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 03/43] fix: warm start keeps its own copy of the last solution

---
 pyproximal/proximal/L2.py        | 2 +-
 pyproximal/proximal/Nonlinear.py | 2 +-
 pyproximal/proximal/Quadratic.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index 93906c6..d0650d5 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -284,7 +284,7 @@ class L2(ProxOperator):
                     **self.kwargs_solver,
                 )[0].ravel()
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             num = x + tau * self.sigma * self.b
             if self.q is not None:
diff --git a/pyproximal/proximal/Nonlinear.py b/pyproximal/proximal/Nonlinear.py
index 291a51c..9a240b0 100644
--- a/pyproximal/proximal/Nonlinear.py
+++ b/pyproximal/proximal/Nonlinear.py
@@ -100,5 +100,5 @@ class Nonlinear(ABC, ProxOperator):
         self.tau = tau
         x = self.optimize()
         if self.warm:
-            self.x0 = x
+            self.x0 = x.copy()
         return x
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 07ce21d..55762cc 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -111,7 +111,7 @@ class Quadratic(ProxOperator):
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
                 x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
             if self.warm:
-                self.x0 = x
+                self.x0 = x.copy()
         elif self.b is not None:
             x = x - tau * self.b
         return x
-- 
2.43.0


From c08948eccea895dc91beb921ae7c4ea94a4affaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 04/43] fix: IntersectionProj no longer overwrites its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From d19c4538184c04ab1a882bdaf4f89cba28b5339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 05/43] fix: Orthogonal evaluation no longer adds b to the
 output of Q in place

---
 pyproximal/proximal/Orthogonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..29884eb 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -77,7 +77,7 @@ class Orthogonal(ProxOperator):
 
     def __call__(self, x: NDArray) -> bool | float | int:
         y = self.Q.matvec(x)
-        y += self.b
+        y = y + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From 9b97a68ba94939c7cf609ee3ca8aa76e6a37e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 06/43] fix: PrimalDual does not add z in place to the output
 of A.rmatvec

---
 pyproximal/optimization/primaldual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..7d113a3 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
-- 
2.43.0


From 0396166aadd23119cdcf4810b1d34fe153f4f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 07/43] fix: AdaptivePrimalDual primal residual with z
 (spurious A.rmatvec(z), in-place update)

---
 pyproximal/optimization/primaldual.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 7d113a3..85c8b5d 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
@@ -370,12 +370,8 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        # (the contributions of z to the primal residual cancel out)
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 6bce797615d569cf185222499c5d6bab54c0b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 08/43] fix: parallel Dykstra no longer normalizes the caller's
 weights in place

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From 5e30466ac37df6ad68087160e457689347ae83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 09/43] fix: Quadratic.grad no longer returns the operator's
 own b

---
 pyproximal/proximal/Quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 55762cc..6a5fd99 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -133,7 +133,7 @@ class Quadratic(ProxOperator):
         if self.Op is not None and self.b is not None:
             g = self.Op.matvec(x) + self.b
         elif self.b is not None:
-            g = self.b
+            g = self.b.copy()
         else:
             g = 0.0
         return g
-- 
2.43.0


From 21df6b1e94665ee75d2e6661603aeaf009f4780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 10/43] fix: ADMML2 with gfirst=True updates u with A times the
 new x

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..0aef7fa 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1336,6 +1336,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From 57dae967ab770eaac53b9b1244c9cb54acdc72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 11/43] fix: evaluating LowRankFactorizedMatrix no longer swaps
 its x block

---
 pyproximal/utils/bilinear.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyproximal/utils/bilinear.py b/pyproximal/utils/bilinear.py
index ed63e3f..61a2e89 100644
--- a/pyproximal/utils/bilinear.py
+++ b/pyproximal/utils/bilinear.py
@@ -151,17 +151,12 @@ class LowRankFactorizedMatrix(BilinearOperator):
         # x can be concatenated [x,y] or just x if y is provided
         if y is None:
             x, y = x[: self.sizex], x[self.sizex :]
-        # store original self.x to restore after calculation,
-        # as _matvecy uses self.x
-        xold = self.x.copy()
-        # temporarily update self.x for _matvecy
-        self.updatex(x)
-        # compute residual: note that _matvecy(y) computes
-        # Op(X @ Y) where Y is obtained reshaping y into
-        # a matrix
-        res = self.d - self._matvecy(y)
-        # restore original self.x
-        self.updatex(xold)
+        # compute residual d - Op(X @ Y) directly from the
+        # inputs (self.x and self.y are not involved)
+        X = x.reshape(self.n, self.k) @ y.reshape(self.k, self.m)
+        if self.Op is not None:
+            X = self.Op @ X.ravel()
+        res = self.d - X.ravel()
         return float(np.linalg.norm(res) ** 2 / 2.0)
 
     def _matvecx(self, x: NDArray) -> NDArray:
-- 
2.43.0


From ca03bf9dc4b9f7927b59c2efe46b474b190dd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 12/43] fix: gradient tests no longer perturb the caller's x or
 the operator's blocks

---
 pyproximal/utils/gradtest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..453aa53 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -100,8 +100,9 @@ def gradtest_proximal(
         delta1 = delta * 1j
 
     # extract gradient value to test
-    x[iqx] = x[iqx] + delta1
     grad = g[iqx]
+    x = x.copy()
+    x[iqx] = x[iqx] + delta1
 
     # compute new function at perturbed location
     fdelta = Op(x)
@@ -202,7 +203,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.flatten(), Op.y.flatten()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 23cdf21df69bc6a601665e3e435ebd6181932530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 13/43] fix: PALM and iPALM evaluate H at the starting guesses
 in the first iteration

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..53dcbb9 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -166,6 +166,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -344,6 +346,8 @@ def iPALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     xold, yold = x0.copy(), y0.copy()
     for iiter in range(niter):
         # x step
-- 
2.43.0


From df3b80b27e3bfc664a3fc62f7aebdb941246ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 14/43] fix: PALM and iPALM backtrack the y block with the prox
 of g

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 53dcbb9..7168295 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -190,7 +190,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -377,7 +377,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 03f4fd183a3e33c0f74a0b93007732b403365823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 15/43] fix: iPALM backtracking of the y block (missing initial
 step, inertial point)

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 7168295..003e9da 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -341,7 +341,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
@@ -377,7 +377,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 221a929a6de6af944d39eed8367ae125186cb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 16/43] fix: PPXA starts from the weighted mean of the initial
 vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 0aef7fa..091ef5c 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1941,7 +1941,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From 90b955dd18353422e22b48fdabb4c7837cc2dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 17/43] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 091ef5c..2e10e68 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1962,7 +1962,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2096,7 +2096,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From 26a8f55bd903bf70786e602ae8a512cc9317a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 18/43] fix: GeneralizedProximalGradient no longer rejects
 weights that sum to one up to rounding

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 2e10e68..fcd2ae8 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -805,7 +805,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From f46c3f0587e9d2dda53d616cb070e5949e238772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 19/43] fix: ProximalPoint with tol no longer divides by a zero
 objective

---
 pyproximal/optimization/primal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fcd2ae8..d62a6fd 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -185,7 +185,8 @@ def ProximalPoint(
         if tol is not None:
             pfold = pf
             pf = prox(x)
-            if np.abs(1.0 - pf / pfold) < tol:
+            # (no division, as the objective may be zero)
+            if np.abs(float(pfold) - float(pf)) < tol * np.abs(float(pfold)):
                 tolbreak = True
 
         # show iteration logger
-- 
2.43.0


From 28bfd188012c5335b7d6c8e8d997555ed1338370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 20/43] fix: relaxed ProximalGradient relaxes from y^k as
 documented, also with backtracking

---
 pyproximal/optimization/primal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d62a6fd..d0016da 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -380,17 +380,15 @@ def ProximalGradient(
             if eta == 1.0:
                 x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
             else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
+                x = y + eta * (
+                    proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau) - y
                 )
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
             if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+                x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From cc4dddc4d1812220b7fc77dada116414c6f9a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 21/43] fix: AndersonProximalGradient stores the first residual
 and iterate in their own history

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d0016da..06f6948 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -625,10 +625,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
-- 
2.43.0


From 869fb66ede1e87671fe7668f81bcbbabc45473d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 22/43] fix: ProximalGradient gives bilinear operators the
 starting guess and their own copy of x

---
 pyproximal/optimization/primal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 06f6948..dae0c46 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -371,6 +371,10 @@ def ProximalGradient(
     pfg = np.inf
     tolbreak = False
 
+    # initialize internal parameters for bilinear operator
+    if isinstance(proxf, BilinearOperator):
+        proxf.updatexy(x.copy())
+
     # iterate
     for iiter in range(niter):
         xold = x.copy()
@@ -392,7 +396,7 @@ def ProximalGradient(
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-            proxf.updatexy(x)
+            proxf.updatexy(x.copy())
 
         # update y
         if acceleration == "vandenberghe":
-- 
2.43.0


From 935892db4bffdc52c23a0349136070ef27f5aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 23/43] fix: ProximalPoint displays the progress of
 complex-valued runs

---
 pyproximal/optimization/primal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index dae0c46..867c77e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -194,7 +194,11 @@ def ProximalPoint(
             if iiter < 10 or niter - iiter < 10 or iiter % (niter // 10) == 0:
                 if tol is None:
                     pf = prox(x)
-                msg = "%6g  %12.5e  %10.3e" % (iiter + 1, x[0], pf)
+                msg = "%6g  %12.5e  %10.3e" % (
+                    iiter + 1,
+                    np.real(to_numpy(x[0])),
+                    pf,
+                )
                 print(msg)
 
         # break if tolerance condition is met
-- 
2.43.0


From b97944ad065fdcf63b786c5659ad5d30edf62589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 24/43] fix: TwIST estimates alpha and beta from the
 eigenvalues of A^H A

---
 pyproximal/optimization/primal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 867c77e..f37241f 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1621,8 +1621,9 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H @ A
+            emin = float(np.real(AHA.eigs(neigs=1, which="SM")[0]))
+            emax = max(1.0, float(np.real(AHA.eigs(neigs=1, which="LM")[0])))
         else:
             emax, emin = eigs
         k = emin / emax
-- 
2.43.0


From a46295a7912bdae446ef35a943b0ea8dc9c7a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 25/43] fix: guarded Anderson proximal gradient compares with
 the objective of the accepted iterate

The safeguard compared the candidate with the objective of the previous
candidate, also when that one had been rejected, and show=True or a
tolerance changed the outcome of the test.
---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index f37241f..9139f26 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -685,6 +685,7 @@ def AndersonProximalGradient(
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From e32dd242d8c63408de9f755502bc22a7794d7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 26/43] fix: Quadratic without Op and b returns its (zero)
 gradient as a vector

---
 pyproximal/proximal/Quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 6a5fd99..14af883 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -135,5 +135,5 @@ class Quadratic(ProxOperator):
         elif self.b is not None:
             g = self.b.copy()
         else:
-            g = 0.0
+            g = np.zeros_like(x)
         return g
-- 
2.43.0


From 31a1d91138890ad89a16d5f3e9676023bac0fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 27/43] fix: L2 and Quadratic do not return the lsqr starting
 guess as the solution of a zero right-hand side

---
 pyproximal/proximal/L2.py        | 5 ++++-
 pyproximal/proximal/Quadratic.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index d0650d5..769c961 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -254,8 +254,11 @@ class L2(ProxOperator):
                 ) * (self.Op.H * self.Op)
                 if self.solver == "legacy":
                     if get_module_name(get_array_module(x)) == "numpy":
+                        # lsqr stops relative to the norm of y: with y=0 it
+                        # would hand back the starting guess
+                        x0 = self.x0 if np.any(y) else None
                         x = sp_lsqr(
-                            Op1, y, iter_lim=niter, x0=self.x0, **self.kwargs_solver
+                            Op1, y, iter_lim=niter, x0=x0, **self.kwargs_solver
                         )[0]
                     else:
                         x = lsqr(Op1, y, niter=niter, x0=self.x0, **self.kwargs_solver)[
diff --git a/pyproximal/proximal/Quadratic.py b/pyproximal/proximal/Quadratic.py
index 14af883..9318e63 100644
--- a/pyproximal/proximal/Quadratic.py
+++ b/pyproximal/proximal/Quadratic.py
@@ -109,7 +109,10 @@ class Quadratic(ProxOperator):
                 x = Op1.div(y)
             else:
                 Op1 = Identity(self.Op.shape[0], dtype=self.Op.dtype) + tau * self.Op
-                x = lsqr(Op1, y, iter_lim=self.niter, x0=self.x0)[0]
+                # lsqr stops relative to the norm of y: with y=0 it would hand
+                # back the starting guess
+                x0 = self.x0 if np.any(y) else None
+                x = lsqr(Op1, y, iter_lim=self.niter, x0=x0)[0]
             if self.warm:
                 self.x0 = x.copy()
         elif self.b is not None:
-- 
2.43.0


From 30041ac0f86cce929664ad00a950078fd07fb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 28/43] fix: prox of Huber switches to its linear part at alpha
 + tau

---
 pyproximal/proximal/Huber.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..30f05db 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -36,8 +36,8 @@ class Huber(ProxOperator):
 
         \prox_{\tau H_\alpha(\cdot)}(\mathbf{x}) =
         \begin{cases}
-        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha \\
-        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha
+        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha + \tau \\
+        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha + \tau
         \end{cases}
 
     """
@@ -60,14 +60,13 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        # the prox of the quadratic part is within [-alpha, alpha] if and only
+        # if x is within [-(alpha + tau), alpha + tau], see
+        # https://math.stackexchange.com/questions/1650411/
+        # proximal-operator-of-the-huber-loss-function
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
-        # alternative from https://math.stackexchange.com/questions/1650411/
-        # proximal-operator-of-the-huber-loss-function... currently commented
-        # as it does not provide the same result
-        # y = (1. - tau / np.maximum(np.abs(x), tau + self.alpha)) * x
-
         return y
 
 
-- 
2.43.0


From ca3cb09943c1264017efe493b406d1710a01dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 29/43] fix: L1BallProj leaves points inside the ball where
 they are

---
 pyproximal/projection/L1.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..c2a2649 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -30,7 +30,11 @@ class L1BallProj:
 
     .. math::
 
-        P_{L1_{r}} (\mathbf{x}) = sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(\mathbf{x})
+        P_{L1_{r}} (\mathbf{x}) =
+        \begin{cases}
+        \mathbf{x}, & ||\mathbf{x}||_1 \leq r \\
+        sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(|\mathbf{x}|), & ||\mathbf{x}||_1 > r
+        \end{cases}
 
     Note that this is the proximal operator of the corresponding
     indicator function :math:`\mathcal{I}_{L1_{r}}`.
@@ -49,6 +53,8 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From 518214f7e91d26e77b0511f83966a990e7270d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 30/43] fix: TwIST bounds the largest eigenvalue from below
 also when eigs is passed

---
 pyproximal/optimization/primal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 9139f26..463f1da 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1624,9 +1624,10 @@ def TwIST(
         if eigs is None:
             AHA = A.H @ A
             emin = float(np.real(AHA.eigs(neigs=1, which="SM")[0]))
-            emax = max(1.0, float(np.real(AHA.eigs(neigs=1, which="LM")[0])))
+            emax = float(np.real(AHA.eigs(neigs=1, which="LM")[0]))
         else:
             emax, emin = eigs
+        emax = max(1.0, emax)
         k = emin / emax
         rho = (1 - sqrt(k)) / (1 + sqrt(k))
         alpha = 1 + rho**2
-- 
2.43.0


From 100869951171cdd0cd36ab5ed3c8f78fe0993042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 31/43] fix: AndersonProximalGradient stays at an exact fixed
 point instead of returning NaN

---
 pyproximal/optimization/primal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 463f1da..88576bd 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -661,7 +661,13 @@ def AndersonProximalGradient(
         Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
-        alpha = Rinvones / (ones[None] @ Rinvones)
+        Rinvsum = ones @ Rinvones
+        if Rinvsum != 0.0:
+            alpha = Rinvones / Rinvsum
+        else:
+            # all residuals are zero (fixed point reached), use last iterate
+            alpha = np.zeros_like(ones)
+            alpha[0] = 1.0
 
         if not safeguard:
             # update auxiliary variable
-- 
2.43.0


From 53cdbf3debe7c62259c5f4487bd0517fece282b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 32/43] fix: adaptive SR3 stops its inner solver at an exact
 solution instead of returning NaN

---
 pyproximal/optimization/sr3.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..ecd7066 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -61,9 +61,13 @@ def _lsqr(
     data -= Op.matvec(x0)
     x = x0
     beta = np.linalg.norm(data)
+    if beta == 0:
+        return x
     u = data / beta
     v = Op.rmatvec(u)
     alpha = np.linalg.norm(v)
+    if alpha == 0:
+        return x
     v = v / alpha
     w = v
     phi_bar = beta
@@ -71,10 +75,12 @@ def _lsqr(
     for _ in range(iter_lim):
         u = Op.matvec(v) - alpha * u
         beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
+        if beta > 0:
+            u = u / beta
+            v = Op.rmatvec(u) - beta * v
+            alpha = np.linalg.norm(v)
+            if alpha > 0:
+                v = v / alpha
         rho = np.sqrt(rho_bar**2 + beta**2)
         c = rho_bar / rho
         s = beta / rho
@@ -83,6 +89,9 @@ def _lsqr(
         phi = c * phi_bar
         phi_bar = s * phi_bar
         x += (phi / rho) * w
+        if alpha == 0 or beta == 0:
+            # exact solution found
+            return x
         temp = Reg.matvec(x)
         z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
         if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-- 
2.43.0


From 9ec56425cf9e280b02228f6fddabd7c991ca2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 33/43] fix: backtracking of ProximalGradient and PALM accepts
 differences within round-off

---
 pyproximal/optimization/palm.py   | 3 ++-
 pyproximal/optimization/primal.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 003e9da..a247740 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -50,7 +50,8 @@ def _backtracking(
             z[ix] = proxf.prox(z[ix], tau)
         ft = ftilde(z[ix], x, H, grad, tau, ix)
         f = H(*z)
-        if f <= ft or tau < 1e-12:
+        # accept differences within round-off
+        if f <= ft + 10.0 * np.finfo(z[ix].dtype).eps * abs(ft) or tau < 1e-12:
             break
         tau *= beta
         iiterback += 1
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 88576bd..d2b9ba4 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -44,7 +44,8 @@ def _backtracking(
     while iiterback < niterback:
         z = proxg.prox(x - tau * proxf.grad(x), epsg * tau)
         ft = ftilde(z, x, proxf, tau)
-        if proxf(z) <= ft:
+        # accept differences within round-off
+        if proxf(z) <= ft + 10.0 * np.finfo(z.dtype).eps * abs(ft):
             break
         tau *= beta
         iiterback += 1
-- 
2.43.0


From c1a151cd6748c1ecde6e3e7280047e6d44245e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 34/43] fix: parallel Dykstra for Sum does not stop while the
 solution merely pauses

---
 pyproximal/proximal/_Dykstra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 683b030..a610363 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -112,7 +112,8 @@ def parallel_dykstra_prox(
         x = ncp.sum(w[:, None] * prox_z, axis=0)
         z = z + x - prox_z
 
-        if ncp.abs(x - x_old).max() < tol:
+        # x may pause while the individual solutions still differ
+        if max(ncp.abs(x - x_old).max(), ncp.abs(prox_z - x).max()) < tol:
             break
 
     return x
-- 
2.43.0


From d091f7f9533559c667a652cc717005eda2974a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 35/43] fix: IntersectionProj does not stop while the
 projection merely pauses

---
 pyproximal/projection/Intersection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..171d992 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -55,7 +55,7 @@ class IntersectionProj:
         x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
-            xold = x.copy()
+            xold, x12old = x.copy(), x12.copy()
             for i1 in range(self.k - 1):
                 for i2 in range(i1 + 1, self.k):
                     xtilde = x[i2] - x[i1] + x12[i1, i2]
@@ -68,6 +68,10 @@ class IntersectionProj:
                     x[i1] = x[i1] + 0.5 * (xdtilde - x12[i1, i2])
                     x[i2] = x[i2] - 0.5 * (xdtilde - x12[i1, i2])
                     x12[i1, i2] = xdtilde
-            if max(np.sum(np.abs(x - xold), axis=0)) < self.tol:
+            # x may pause while the corrections still change
+            if (
+                max(np.sum(np.abs(x - xold), axis=0)) < self.tol
+                and np.max(np.abs(x12 - x12old)) < self.tol
+            ):
                 break
         return x.ravel()
-- 
2.43.0


From 374cade3c85af161e997cbc2d10cda34854ae461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 36/43] fix: LinearizedADMM with z0 evaluates its first
 x-update at A x0 as documented

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d2b9ba4..693e58d 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1483,7 +1483,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From 22ddf617459317c54a4c051bf00c61cb6eda2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 37/43] fix: backtracking of ProximalGradient and PALM uses the
 complex inner product

---
 pyproximal/optimization/palm.py   | 4 +++-
 pyproximal/optimization/primal.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a247740..1a1dc33 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 693e58d..c16600b 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From fbbdf7b106ec7d0c6d76a7a141532d759eba5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 38/43] fix: ProximalGradient and AndersonProximalGradient
 display the progress of runs with a vector tau

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index c16600b..129737a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -445,7 +445,7 @@ def ProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
@@ -725,7 +725,7 @@ def AndersonProximalGradient(
                     pf,
                     pg,
                     pfg,
-                    tau,
+                    np.max(tau),
                 )
                 print(msg)
 
-- 
2.43.0


From 36757b2c03bc0da1a75ec9a52a1eaa5ceaa2c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 39/43] fix: GeneralizedProximalGradient does not relax
 accelerated iterations, as documented

---
 pyproximal/optimization/primal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 129737a..7a1a1d5 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -858,6 +858,9 @@ def GeneralizedProximalGradient(
 
     if tau is None:
         tau = 1.0
+    if acceleration not in [None, "None"]:
+        # relaxation is not used with acceleration
+        eta = 1.0
 
     # initialize model
     t = 1.0
-- 
2.43.0


From d71529a35bfc4c4a79e41901c2b49b90ab54572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 40/43] fix: dual prox of L1 projects complex vectors onto the
 disk of radius sigma

---
 pyproximal/proximal/L1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..f2273ab 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -148,7 +148,11 @@ class L1(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         if not isinstance(self.gdual, np.ndarray):
-            x = self.box(x)
+            if np.iscomplexobj(x):
+                # project onto the complex disk of radius sigma
+                x = x - _softthreshold(x, self.box.upper)
+            else:
+                x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
         return x
-- 
2.43.0


From 4537af9071a6d84d155c8768caf2006241f57ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 41/43] fix: L21 and L21_plus_L1 use the modulus of complex
 entries

---
 pyproximal/proximal/L21.py         | 6 +++---
 pyproximal/proximal/L21_plus_L1.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyproximal/proximal/L21.py b/pyproximal/proximal/L21.py
index bf59462..5cf2f17 100644
--- a/pyproximal/proximal/L21.py
+++ b/pyproximal/proximal/L21.py
@@ -65,13 +65,13 @@ class L21(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        f = self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+        f = self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         return float(f)
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = (1 - (tau * self.sigma) / np.maximum(aux, tau * self.sigma)) * x.ravel()
         return x
@@ -79,7 +79,7 @@ class L21(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         x = x.reshape(self.ndim, len(x) // self.ndim)
-        aux = np.sqrt(np.sum(x**2, axis=0))
+        aux = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
         aux = np.vstack([aux] * self.ndim).ravel()
         x = self.sigma * x.ravel() / np.maximum(aux, self.sigma)
         return x
diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..1277161 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -38,7 +38,7 @@ class L21_plus_L1(ProxOperator):
     def __call__(self, x: NDArray) -> float:
         return float(
             self.rho * self.sigma * np.sum(np.abs(x))
-            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(x**2, axis=0)))
+            + (1 - self.rho) * self.sigma * np.sum(np.sqrt(np.sum(np.abs(x) ** 2, axis=0)))
         )
 
     @_check_tau
-- 
2.43.0


From c49524a68068d58c597303dd58362c440e308b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:49 +0000
Subject: [PATCH 42/43] fix: Geman.prox returned zero for large entries when
 tau is tiny

For tau close to zero two roots of the cubic merge and round-off in the
discriminant made the prox see one real root only and return zero.
---
 pyproximal/proximal/Geman.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Geman.py b/pyproximal/proximal/Geman.py
index 371591d..0288079 100644
--- a/pyproximal/proximal/Geman.py
+++ b/pyproximal/proximal/Geman.py
@@ -83,8 +83,9 @@ class Geman(ProxOperator):
     ) -> tuple[NDArray, NDArray]:
         f = -((c - b**2.0 / 3.0) ** 3.0) / 27.0
         g = (2.0 * b**3.0 - 9.0 * b * c + 27.0 * d) / 27.0
-        idx = g**2.0 / 4.0 - f <= 0
+        # three real roots, up to round-off (two of them merge as tau tends to zero)
+        idx = g**2.0 / 4.0 - f <= 100.0 * np.finfo(f.dtype).eps * f
         sqrtf = np.sqrt(f[idx])
-        k = np.arccos(-(g[idx] / (2 * sqrtf)))
+        k = np.arccos(np.clip(-(g[idx] / (2 * sqrtf)), -1.0, 1.0))
         loc_mins = 2 * sqrtf ** (1 / 3.0) * np.cos(k / 3.0) - b[idx] / 3.0
         return idx, loc_mins
-- 
2.43.0


From a2213da94646e795deb08423805e9c02b3539040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:41 +0000
Subject: [PATCH 43/43] fix: TwIST default step choice failed on singular
 operators

With eigs=None the smallest eigenvalue of A^H A is found numerically; for a
rank-deficient A it can come out as a tiny negative number, whose square root
raised 'math domain error'.
---
 pyproximal/optimization/primal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 7a1a1d5..ac444b9 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1635,7 +1635,8 @@ def TwIST(
     if alpha is None or beta is None:
         if eigs is None:
             AHA = A.H @ A
-            emin = float(np.real(AHA.eigs(neigs=1, which="SM")[0]))
+            # rounding can turn the zero eigenvalue of a singular A.H @ A negative
+            emin = max(0.0, float(np.real(AHA.eigs(neigs=1, which="SM")[0])))
             emax = float(np.real(AHA.eigs(neigs=1, which="LM")[0]))
         else:
             emax, emin = eigs
-- 
2.43.0

