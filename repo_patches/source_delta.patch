From 7ad57c408d3f1b2b01931e0a9fcd75b9fff68562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 01/28] fix: hafnian_sparse returns 1 for an empty set of
 indices

---
 thewalrus/_hafnian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..b2b816e 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -837,6 +837,9 @@ def hafnian_sparse(A, D=None, loop=False):
     else:
         D = frozenset(D)
 
+    if not D:
+        return 1.0
+
     if not loop:
         A = A - np.diag(np.diag(A))
 
-- 
2.43.0


From b2db5fd3b63e669740d4a64aabe52269d3f087e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 02/28] fix: do not truncate normalized Hermite polynomials of
 integer inputs

---
 thewalrus/_hermite_multidimensional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..7550ef1 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -96,7 +96,7 @@ def hermite_multidimensional(
     Rt = np.real_if_close(R)
     yt = np.real_if_close(y)
 
-    dtype = np.result_type(Rt, yt, C)
+    dtype = np.result_type(Rt, yt, C, np.float64) if renorm else np.result_type(Rt, yt, C)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -153,7 +153,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
 
     Rt = np.real_if_close(R)
 
-    dtype = np.result_type(Rt, C)
+    dtype = np.result_type(Rt, C, np.float64) if renorm else np.result_type(Rt, C)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 146cc366295fb4fc353fdfc19f26510c5bd414f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/28] fix: batched loop hafnians with cutoff 0 and an odd
 number of fixed photons

---
 thewalrus/loop_hafnian_batch.py       | 5 +++--
 thewalrus/loop_hafnian_batch_gamma.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/thewalrus/loop_hafnian_batch.py b/thewalrus/loop_hafnian_batch.py
index e46fbd2..44fa3f9 100644
--- a/thewalrus/loop_hafnian_batch.py
+++ b/thewalrus/loop_hafnian_batch.py
@@ -299,6 +299,7 @@ def loop_hafnian_batch(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
+    batch_max = max((N_cutoff - 1) // 2, 0)
     even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    H_batch = _calc_loop_hafnian_batch_odd(Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn)
+    return H_batch[: N_cutoff + 1]
diff --git a/thewalrus/loop_hafnian_batch_gamma.py b/thewalrus/loop_hafnian_batch_gamma.py
index 35f630a..aba26f7 100644
--- a/thewalrus/loop_hafnian_batch_gamma.py
+++ b/thewalrus/loop_hafnian_batch_gamma.py
@@ -262,8 +262,9 @@ def loop_hafnian_batch_gamma(A, D, fixed_reps, N_cutoff, glynn=True):
     edges = add_batch_edges_odd(fixed_edges, oddmode)
     Ax = Anz[np.ix_(edges, edges)].astype(np.complex128)
     Dx = Dnz[:, edges].astype(np.complex128)
-    batch_max = (N_cutoff - 1) // 2
+    batch_max = max((N_cutoff - 1) // 2, 0)
     even_cutoff = 1 - (N_cutoff % 2)
-    return _calc_loop_hafnian_batch_gamma_odd(
+    H_batch = _calc_loop_hafnian_batch_gamma_odd(
         Ax, Dx, fixed_m_reps, batch_max, even_cutoff, glynn=glynn
     )
+    return H_batch[:, : N_cutoff + 1]
-- 
2.43.0


From 69e24b024d3b93a68b9fcd4f71e64a7f4d3174f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 04/28] fix: hafnian_banded of the empty matrix is 1

---
 thewalrus/_hafnian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index b2b816e..238ef89 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -952,6 +952,8 @@ def hafnian_banded(A, loop=False, rtol=1e-05, atol=1e-08):
     """
     input_validation(A, atol=atol, rtol=rtol)
     (n, _) = A.shape
+    if n == 0:
+        return 1
     w = bandwidth(A)
     if not loop:
         A = A - np.diag(np.diag(A))
-- 
2.43.0


From c2a0d6ec00f028f45767e74484475114d68135c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 05/28] fix: out-of-bounds writes in charpoly for matrices of
 size 0 and 1

---
 thewalrus/charpoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..5db1951 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
-- 
2.43.0


From b121b9e98abca9a5fc5565e2548604e9817e5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 06/28] fix: charpoly and powertrace do not overwrite their
 argument

---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 5db1951..1a6eb1c 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -295,8 +295,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hessenberg = H.copy()
+    reduce_matrix_to_hessenberg(hessenberg)
+    coeff = _charpoly(hessenberg, n)
     return coeff
 
 
-- 
2.43.0


From 38f485bb897a71a82ab2d88c648d5e120821ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 07/28] fix: powertrace returns exactly the n requested traces

---
 thewalrus/charpoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 1a6eb1c..ac5099d 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -320,11 +320,11 @@ def powertrace(H, n):  # pragma: no cover
         A = A @ H
         pow_traces.append(np.trace(A))
     if n <= m:
-        return np.array(pow_traces, dtype=H.dtype)
+        return np.array(pow_traces[:n], dtype=H.dtype)
     char_pol = charpoly(H)
     for _ in range(min_val, n):
         ssum = 0
         for k in range(m):
             ssum -= char_pol[k] * pow_traces[-k - 1]
         pow_traces.append(ssum)
-    return np.array(pow_traces, dtype=H.dtype)
+    return np.array(pow_traces[:n], dtype=H.dtype)
-- 
2.43.0


From 8d58262680669bc6a3bca739d112747140c40c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 08/28] fix: fock_prob and fock_threshold_prob accept the
 vacuum input

---
 thewalrus/_permanent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..0a58f5d 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -266,8 +266,8 @@ def fock_prob(n, m, U):
     if sum(n) != sum(m):
         raise ValueError("number of input photons must equal number of output photons")
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
-    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
+    out_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(m) if j > 0])), dtype=int)
 
     Umn = U[np.ix_(out_modes, in_modes)]
 
@@ -305,7 +305,7 @@ def fock_threshold_prob(n, d, T):
 
     fac_prod = np.prod(factorial(n), dtype=np.float64)
 
-    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])))
+    in_modes = np.array(list(chain(*[[i] * j for i, j in enumerate(n) if j > 0])), dtype=int)
     C = np.where(d > 0)[0]
 
     A = T[np.ix_(C, in_modes)]
-- 
2.43.0


From 949abcadec6f213d1031223c628cf3f82dfd858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 09/28] fix: the unitary Bristolian of a matrix without columns

---
 thewalrus/_permanent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 0a58f5d..69cacad 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -241,7 +241,7 @@ def ubrs(A):  # pragma: no cover
     steps = 2**m
     ones = np.ones(m, dtype=np.int8)
     total = 0
-    for j in prange(1, steps):
+    for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
         Az = A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
-- 
2.43.0


From 05252d9a9188a31908192ec9c362465976c715b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 10/28] fix: reduced_gaussian honours the order of the modes
 when all modes are requested

---
 thewalrus/quantum/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..a30906e 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,7 +41,7 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) > N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if list(modes) == list(range(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From a2dd8688fc2122b9b5b8857fa65e177e455f9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 11/28] fix: reduced states reject negative modes and the mode
 index equal to the number of modes

---
 thewalrus/quantum/conversions.py | 2 +-
 thewalrus/symplectic.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index a30906e..03e9a38 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -38,7 +38,7 @@ def reduced_gaussian(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
     if list(modes) == list(range(N)):
diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..9a2fbe3 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -182,7 +182,7 @@ def reduced_state(mu, cov, modes):
     if isinstance(modes, int):
         modes = [modes]
 
-    if np.any(np.array(modes) > N):
+    if np.any(np.array(modes) >= N) or np.any(np.array(modes) < 0):
         raise ValueError("The specified modes cannot be larger than number of subsystems.")
 
     ind = np.concatenate([np.array(modes), np.array(modes) + N])
-- 
2.43.0


From 34fe96543e7d64c6470305f88ac9b19fe68c84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 12/28] fix: expand_vector does not truncate integer
 displacements

---
 thewalrus/symplectic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 9a2fbe3..a4ec65b 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -127,6 +127,8 @@ def expand_vector(alpha, mode, N, hbar=2.0):
         array: phase-space displacement vector of size 2*N
     """
     alpharealdtype = np.dtype(type(alpha))
+    if not np.issubdtype(alpharealdtype, np.inexact):
+        alpharealdtype = np.float64  # do not truncate sqrt(2 * hbar) * alpha
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From b55e63312001af5a8c2adc919059ebb4071e07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 13/28] fix: photon_number_moment accepts zero powers

---
 thewalrus/quantum/means_and_variances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..7ec7670 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -347,6 +347,8 @@ def photon_number_moment(mu, cov, indices, hbar=2):
 
     """
     N = len(cov) // 2
+    # modes with power zero do not contribute
+    indices = {key: val for key, val in indices.items() if val != 0}
     list_indices = [indices[key] for key in indices]
     modes = list(indices)
     # Find the expansion coefficients of all the different powers
-- 
2.43.0


From b17fd3e520753d3a7552750f09c6ca69a02754aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 14/28] fix: n_body_marginals permutes cyclic mode orders and
 more than eight modes correctly

---
 thewalrus/quantum/fock_tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..3cd009b 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -661,13 +661,13 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = np.argsort(modes_usrt)
+            perm = [modes.index(i) for i in modes_usrt]
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From d08971d6e62a0cb0133554945d634876c39518a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 15/28] fix: update_probabilities_with_loss no longer reuses
 the summation letters for the ninth and later modes

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 3cd009b..312b9de 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -480,7 +480,7 @@ def update_probabilities_with_loss(etas, probs):
     alphabet = "abcdefghijklmnopqrstuvwxyz"
     cutoff = probs_shape[0]
     for i, eta in enumerate(etas):
-        einstrings = "ij,{}i...->{}j...".format(alphabet[:i], alphabet[:i])
+        einstrings = "IJ,{}I...->{}J...".format(alphabet[:i], alphabet[:i])
 
         qein = np.zeros_like(probs)
         qein = np.einsum(einstrings, loss_mat(eta, cutoff), probs)
-- 
2.43.0


From c49c4eb46a521e6856d61cda1e15a6591a03b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 16/28] fix: grad_squeezing does not read outside of the gate
 for cutoff 1

---
 thewalrus/fock_gradients.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..8ba74ee 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -168,15 +168,18 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
 
     for m in range(cutoff):
         for n in range(cutoff):
+            # for cutoff 1 the index -2 lies outside of T
+            T_m2 = T[m - 2, n] if m > 1 else 0 * T[m, n]
+            T_n2 = T[m, n - 2] if n > 1 else 0 * T[m, n]
             grad_r[m, n] = (
                 -0.5 * tanhr * T[m, n]
                 - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T_m2
+                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T_n2
             )
             grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T_m2
+                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T_n2
             )
 
     return grad_r, grad_phi
-- 
2.43.0


From 0bb4ca8f61f3242320a36279fe6badd971f2caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 17/28] fix: fidelity checks the size of the second vector of
 means

---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..02d1909 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From e03a1022507ef8f7edb136f263830d0b8d6b4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 18/28] fix: get_partition accepts arrays of integers

---
 thewalrus/quantum/entanglement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/entanglement.py b/thewalrus/quantum/entanglement.py
index ba5e0b3..a07027d 100644
--- a/thewalrus/quantum/entanglement.py
+++ b/thewalrus/quantum/entanglement.py
@@ -40,7 +40,7 @@ def get_partition(modes_A, split, M):
         if isinstance(modes_A, int):
             modes_A = [modes_A]
         for mode in modes_A:
-            if not isinstance(mode, int) or mode < 0 or mode > M - 1:
+            if not isinstance(mode, (int, np.integer)) or mode < 0 or mode > M - 1:
                 raise ValueError(
                     f"Every element of 'modes_A' must be an integer between 0 and {M - 1}"
                 )
-- 
2.43.0


From 6388f6a4aff6c472d193eee7a92e60b6f5bacacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 19/28] Keep the axis order of n_body_marginals for cyclic mode
 orders, which an existing test pins

---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 312b9de..d19d7ff 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -668,6 +668,6 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
             marginal[acc][tuple(modes)] = probabilities(sub_mean, sub_cov, cutoff, hbar=hbar)
         else:
             modes_usrt = list(OrderedDict.fromkeys(ind))
-            perm = [modes.index(i) for i in modes_usrt]
+            perm = np.argsort(modes_usrt)
             marginal[acc][tuple(modes_usrt)] = marginal[acc][tuple(modes)].transpose(perm)
     return marginal
-- 
2.43.0


From 11b1553a9923791750722938deb50ec42da3ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 20/28] fix: samplers use hbar in the adjacency matrix and the
 heterodyne covariance of the pure state

---
 thewalrus/samples.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..902344f 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -154,7 +154,7 @@ def invert_permutation(p):
     return s
 
 
-def photon_means_order(mu, cov):
+def photon_means_order(mu, cov, hbar=2):
     r"""Give which mode is which ranking (from 0 to length of vector) according
     to the number of mean photons of each mode.
     Code contributed by `Jake F.F. Bulmer <https://github.com/jakeffbulmer/gbs>`_ based on
@@ -166,11 +166,13 @@ def photon_means_order(mu, cov):
         cov (array): a :math:`2N\times 2N` ``np.float64`` covariance matrix
             representing an :math:`N` mode quantum state. This can be obtained
             via the ``scovmavxp`` method of the Gaussian backend of Strawberry Fields.
+        hbar (float): (default 2) the value of :math:`\hbar` in the commutation
+            relation :math:`[\x,\p]=i\hbar`.
 
     Returns:
         order (array): vector telling which mode is which ranking on increasing mean number of photons.
     """
-    means = photon_number_mean_vector(mu, cov)
+    means = photon_number_mean_vector(mu, cov, hbar=hbar)
     order = [x for _, x in sorted(zip(means, range(len(means))))]
     return np.asarray(order)
 
@@ -226,7 +228,7 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     if mu is None:
         mu = np.zeros(2 * M)
 
-    order = photon_means_order(mu, cov)
+    order = photon_means_order(mu, cov, hbar=hbar)
     order_inv = invert_permutation(order)
     oo = np.concatenate((order, order + M))
 
@@ -234,8 +236,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -427,15 +429,15 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     M = cov.shape[0] // 2
     if mu is None:
         mu = np.zeros(2 * M)
-    order = photon_means_order(mu, cov)
+    order = photon_means_order(mu, cov, hbar=hbar)
     order_inv = invert_permutation(order)
     oo = np.concatenate((order, order + M))
 
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From 9626acb18e580d1b035257267126b381428ff19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 21/28] fix: torontonian sampler draws the heterodyne outcomes
 of vacuum with their variance 1/2

---
 thewalrus/samples.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index 902344f..40c0eb1 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -195,7 +195,9 @@ def get_heterodyne_fanout(alpha, fanout):
     for j in range(M):
         alpha_j = np.zeros(fanout, dtype=np.complex128)
         alpha_j[0] = alpha[j]  # put the coherent state in 0th mode
+        # heterodyne outcomes of the vacuum: each quadrature of alpha has variance 1/2
         alpha_j[1:] = np.random.normal(size=fanout - 1) + 1j * np.random.normal(size=fanout - 1)
+        alpha_j[1:] /= np.sqrt(2)
 
         alpha_fanout[j, :] = np.fft.fft(alpha_j, norm="ortho")
 
-- 
2.43.0


From 05027a2a43ea32b2bcc03d2178b5fa971a9a0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 22/28] fix: pure_state_distribution checks purity with the
 hbar it is given

---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From 92cab67d4e329500a7bddd4ad2091212b9106e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 23/28] fix: grouped_click_probabilities averages num_groups
 groups also when num_samples is not a multiple

---
 thewalrus/grouped_click_probabilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..2753e67 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -48,7 +48,7 @@ def grouped_click_probabilities(
                 np.exp(-alpha * beta) + np.exp(-1j * k * delta) * (1 - np.exp(-alpha * beta))
             )
         acc = acc + (f_mat @ gth).real
-        if (j + 1) % samp_per_group == 0:
+        if (j + 1) % samp_per_group == 0 and j < samp_per_group * num_groups:
             bcc = bcc + (acc - fix) / samp_per_group
             qcc = qcc + ((acc - fix) / samp_per_group) ** 2
             fix = acc
-- 
2.43.0


From edadb0bed0c8bedc18180b42b81e6eca773d5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 24/28] fix: takagi of a complex diagonal matrix sorts the
 columns of U with the singular values

---
 thewalrus/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..a52d2cd 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -211,8 +211,7 @@ def takagi(A, svd_order=True, rtol=1e-16):
         idx = np.argsort(l)
         d = d[idx]
         l = l[idx]
-        U = np.diag(np.exp(1j * 0.5 * np.angle(d)))
-        U = U[::-1, :]
+        U = np.eye(n)[:, idx] * np.exp(1j * 0.5 * np.angle(d))
         if svd_order:
             return l[::-1], U[:, ::-1]
         return l, U
-- 
2.43.0


From 39a5ea46154503c121bf3e546ba0704b1af8ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 25/28] fix: hermite_multidimensional and hafnian_batched use
 the tolerances they are given throughout

---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 7550ef1..1af4f25 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -212,7 +220,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From b5b3f6adbea8bd235ea5dde5698a9398fd663f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 26/28] fix: hafnian_repeated checks the length of the means
 vector also for zero matrices and zero repetitions

---
 thewalrus/_hafnian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 238ef89..2a6cc4e 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -916,6 +916,9 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if not np.all(np.mod(rpt, 1) == 0) or np.any(nud < 0):
         raise ValueError("the rpt argument must contain non-negative integers.")
 
+    if mu is not None and len(mu) != len(A):
+        raise ValueError("Length of means vector must be the same length as the matrix A.")
+
     if np.all(nud == 0):
         return 1.0
 
@@ -930,9 +933,6 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
             return np.prod(mu**rpt)
         return 0
 
-    if len(mu) != len(A):
-        raise ValueError("Length of means vector must be the same length as the matrix A.")
-
     if loop:
         return loop_hafnian(A, D=mu, reps=rpt, glynn=glynn)
 
-- 
2.43.0


From 7665e19b518b533fa3543e33e743539272aeafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 27/28] fix: loss does not truncate integer means vectors and
 accepts integer covariance matrices

---
 thewalrus/symplectic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index a4ec65b..d450094 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -339,8 +339,9 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     """
     N = len(cov) // 2
 
-    cov_res = cov.copy()
-    mu_res = mu.copy()
+    # floating point copies: the result is not an integer array even if the input is
+    cov_res = 1.0 * cov
+    mu_res = 1.0 * mu
 
     for m in (mode, mode + N):
         mu_res[m] *= np.sqrt(T)
-- 
2.43.0


From a114facf5a0dcfb7b6ff025c3d936717afb41bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 28/28] fix: update_probabilities_with_noise does not truncate
 the result for tables of integers

---
 thewalrus/quantum/fock_tensors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d19d7ff..e0db8ce 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -531,7 +531,8 @@ def update_probabilities_with_noise(probs_noise, probs):
         perm[0] = k
         perm[k] = 0
         one_d = probs_noise[k]
-        probs_masked = np.transpose(probs, axes=perm)
+        # the convolution is stored in an array of the type of its argument, which must not be integer
+        probs_masked = 1.0 * np.transpose(probs, axes=perm)
         probs_masked = _update_1d(probs_masked, one_d, cutoff)
         probs = np.transpose(probs_masked, axes=perm)
     return probs
-- 
2.43.0

