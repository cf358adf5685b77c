From 6f4286faf9a42a784c399d6f09018b2c6f256461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 001/195] fix: FreqWeightedChi2Function uses the frequency
 weights it is given

The overrides were named _get_weights/_get_dweights, which nothing calls.
---
 pygsti/objects/objectivefns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 054c3e8..d944838 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -476,10 +476,10 @@ class FreqWeightedChi2Function(Chi2Function):
         self.fweights = fweights
         self.z = _np.zeros(self.KM, 'd')
 
-    def _get_weights(self, p):
+    def get_weights(self, p):
         return self.fweights
 
-    def _get_dweights(self, p, wts):
+    def get_dweights(self, p, wts):
         return self.z
 
 
-- 
2.43.0


From fcda7a7a964ae437e2e2c38fe04da1e9452def26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 002/195] fix: chi2 jacobian with omitted outcomes when the
 first residual is zero

Only a vanishing combined residual makes the derivative 0/0; a zero first
residual alone discarded the derivative of the omitted-probability term's norm.
---
 pygsti/objects/objectivefns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index d944838..8463de0 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -155,7 +155,7 @@ class Chi2Function(ObjectiveFunction):
                                           2 * self.N[self.firsts] * omitted_probs / clipped_oprobs)
         fullv = _np.sqrt(v[self.firsts]**2 + self.N[self.firsts] * omitted_probs**2 / clipped_oprobs)
         # avoid NaNs when both fullv and v[firsts] are zero - result should be *zero* in this case
-        fullv[v[self.firsts] == 0.0] = 1.0
+        fullv[fullv == 0.0] = 1.0
         dprobs[self.firsts, :] = (0.5 / fullv[:, None]) * (
             2 * v[self.firsts, None] * dprobs[self.firsts, :]
             - dprobs_factor_omitted[:, None] * dprobs_omitted_rowsum)
-- 
2.43.0


From 7a295a32d3f8033534f09e1f6054c005c6684970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 003/195] fix: verbose chi2 jacobian fills the SPAM penalty
 rows without a CPTP penalty too

---
 pygsti/objects/objectivefns.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 8463de0..45c6b55 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -422,9 +422,9 @@ class Chi2Function(ObjectiveFunction):
                 off += _cptp_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.cptp_penalty_factor,
                                               self.opBasis)
 
-                if self.spam_penalty_factor != 0:
-                    off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
-                                                  self.opBasis)
+            if self.spam_penalty_factor != 0:
+                off += _spam_penalty_jac_fill(self.jac[self.KM + off:, :], self.mdl, self.spam_penalty_factor,
+                                              self.opBasis)
 
         # Zero-out insignificant entries in jacobian -- seemed to help some, but leaving this out,
         # thinking less complicated == better
-- 
2.43.0


From b45cf859419d6c4a84bf7c287190676c11d0be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 004/195] fix: logl jacobian rows of the forcing terms are
 derivatives of their square roots

---
 pygsti/objects/objectivefns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index 45c6b55..ccab96a 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -944,7 +944,9 @@ class LogLFunction(ObjectiveFunction):
                                           self.opBasis)
 
         if self.forcefn_grad is not None:
-            self.jac[self.forceOffset:, :] = -self.forcefn_grad
+            # forcing terms are sqrt(forceShift - dot(forcefn_grad, x))
+            forceVec = self.forceShift - _np.dot(self.forcefn_grad, vectorGS)
+            self.jac[self.forceOffset:, :] = -0.5 * self.forcefn_grad / _np.sqrt(forceVec)[:, None]
 
         if self.check: _opt.check_jac(lambda v: self.poisson_picture_logl(v), vectorGS, self.jac,
                                       tol=1e-3, eps=1e-6, errType='abs')
-- 
2.43.0


From 6a3f3a9642b658e2786bbb930615844f5e321157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 005/195] fix: logl jacobian with omitted outcomes and a
 probability below min_p

The omitted probability is computed from clipped probabilities, whose
derivative is zero where the clip is active.
---
 pygsti/objects/objectivefns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/objectivefns.py b/pygsti/objects/objectivefns.py
index ccab96a..4d8cf60 100644
--- a/pygsti/objects/objectivefns.py
+++ b/pygsti/objects/objectivefns.py
@@ -924,7 +924,9 @@ class LogLFunction(ObjectiveFunction):
                             1.0, (-1.0 / self.a**2) * omitted_probs**2 + 2 * omitted_probs / self.a)
 
             for ii, i in enumerate(self.indicesOfCircuitsWithOmittedData):
-                self.dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[self.lookup[i], :], axis=0)
+                # omitted_probs is computed from the clipped probabilities (pos_probs)
+                unclipped = (self.probs[self.lookup[i]] >= self.min_p)
+                self.dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[self.lookup[i], :][unclipped, :], axis=0)
 
         dprobs *= dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
         #Note: this also sets jac[0:KM,:]
-- 
2.43.0


From e0580f1b95f92322748706beada08c3dd25b91cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 006/195] fix: list_to_slice of descending lists that reach
 index 0 and of repeated indices

---
 pygsti/tools/slicetools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/slicetools.py b/pygsti/tools/slicetools.py
index 4cad4b6..a1161dd 100644
--- a/pygsti/tools/slicetools.py
+++ b/pygsti/tools/slicetools.py
@@ -167,7 +167,8 @@ def list_to_slice(lst, array_ok=False, require_contiguous=True):
     if len(lst) == 1: return slice(start, start + 1)
     step = lst[1] - lst[0]; stop = start + step * len(lst)
 
-    if list(lst) == list(range(start, stop, step)):
+    #Note: a descending slice that includes index 0 would need a negative stop, which has a different meaning
+    if step != 0 and (step > 0 or stop >= 0) and list(lst) == list(range(start, stop, step)):
         if require_contiguous and step != 1:
             if array_ok: return _np.array(lst, _np.int64)
             else: raise ValueError("Slice must be contiguous (or array_ok must be True)!")
-- 
2.43.0


From dcecfa3a101ae3907e98e0a20cae521c170b1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 007/195] fix: slicetools.length of a slice whose stop is below
 its start

---
 pygsti/tools/slicetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/slicetools.py b/pygsti/tools/slicetools.py
index a1161dd..a598d87 100644
--- a/pygsti/tools/slicetools.py
+++ b/pygsti/tools/slicetools.py
@@ -28,7 +28,7 @@ def length(s):
     if s.start is None or s.stop is None:
         return 0
     if s.step is None:
-        return s.stop - s.start
+        return max(s.stop - s.start, 0)
     else:
         return len(range(s.start, s.stop, s.step))
 
-- 
2.43.0


From b39e6fb6da1321c9795f887f27ea9a57668bf5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 008/195] fix: gather_indices of index arrays with descending
 or repeated indices

---
 pygsti/tools/mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index 9301a17..b723906 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -648,7 +648,8 @@ def gather_indices(indices, index_owners, arToFill, arToFillInds,
             i = 0; N = len(lst)
             while i < N:
                 start = lst[i]
-                step = lst[i + 1] - lst[i] if i + 1 < N else None
+                step = lst[i + 1] - lst[i] if i + 1 < N else 1
+                if step <= 0: step = 1  # only increasing runs become slices
                 while i + 1 < N and lst[i + 1] - lst[i] == step: i += 1
                 stop = lst[i] + 1
                 slc_lst.append(slice(start, stop, None if step == 1 else step))
-- 
2.43.0


From abfa75061a264eeb26516224a2412c8785f2859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 009/195] fix: distribute_for_dot with more processors than
 indices

---
 pygsti/tools/mpitools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index b723906..ee4a3de 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -711,6 +711,7 @@ def distribute_for_dot(contracted_dim, comm):
     """
     loc_indices, _, _ = distribute_indices(
         list(range(contracted_dim)), comm, False)
+    if len(loc_indices) == 0: return slice(0, 0)  # more processors than indices
 
     #Make sure local columns are contiguous
     start, stop = loc_indices[0], loc_indices[-1] + 1
-- 
2.43.0


From 2a843afd57586766e000f07ffb5ed48f49925037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 010/195] fix: distribute_indices of an empty list among the
 processors of a comm

---
 pygsti/tools/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index ee4a3de..1a8a8e2 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -75,7 +75,7 @@ def distribute_indices(indices, comm, allow_split_comm=True):
     #if nprocs > 1 and len(indices)==1 and (comm is not None) and allow_split_comm:
     #    loc_comm = comm #split is unnecessary
     #el
-    if nprocs > len(indices) and (comm is not None) and allow_split_comm:
+    if nprocs > len(indices) > 0 and (comm is not None) and allow_split_comm:
         color = loc_indices[0] if isinstance(loc_indices[0], int) \
             else (int(hash(loc_indices[0])) >> 32)  # mpi4py only allows 32-bit ints
         loc_comm = comm.Split(color=color, key=rank)
-- 
2.43.0


From d55c51b1be805fb8b98f780956a36dabb7a0760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 011/195] fix: distribute_slice of an empty slice

---
 pygsti/tools/mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/mpitools.py b/pygsti/tools/mpitools.py
index 1a8a8e2..d3207db 100644
--- a/pygsti/tools/mpitools.py
+++ b/pygsti/tools/mpitools.py
@@ -297,7 +297,7 @@ def distribute_slice(s, comm, allow_split_comm=True):
         nprocs = comm.Get_size()
         rank = comm.Get_rank()
 
-    slices = slice_up_slice(s, min(nprocs, _slct.length(s)))
+    slices = slice_up_slice(s, max(min(nprocs, _slct.length(s)), 1))
     assert(len(slices) <= nprocs)
     loc_iSlices, slcOwners = \
         distribute_indices_base(list(range(len(slices))), nprocs, rank,
-- 
2.43.0


From 822244ef1fb264bac4c555e4db7f00c7ed6a71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 012/195] fix: logl_jacobian of sparse data when a probability
 is below the clip point

---
 pygsti/tools/likelihoodfns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 48d11ee..d9ed8a6 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -514,7 +514,9 @@ def logl_jacobian(model, dataset, circuit_list=None,
                 (-1.0 / a**2) * omitted_probs**2 + 2 * omitted_probs / a)
 
             for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-                dprobs_omitted_rowsum[ii, :] = _np.sum(dprobs[lookup[i], :], axis=0)
+                #Note: probs clipped at min_p have no effect on the omitted prob.
+                dprobs_omitted_rowsum[ii, :] = _np.sum(
+                    _np.where((probs[lookup[i]] < min_p)[:, None], 0.0, dprobs[lookup[i], :]), axis=0)
 
         jac = dprobs * dprobs_factor[:, None]  # (KM,N) * (KM,1)   (N = dim of vectorized model)
 
-- 
2.43.0


From 08c1bea46645abe7fb7fcd6fb94dc0bbeeaf0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 013/195] fix: sign and clipping of the omitted-outcome terms
 of logl_hessian

---
 pygsti/tools/likelihoodfns.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index d9ed8a6..c05360d 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -702,8 +702,10 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
 
             omitted_probs = 1.0 - _np.array([_np.sum(pos_probs[lookup[i]]) for i in indicesOfCircuitsWithOmittedData])
             for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-                dprobs12_omitted_rowsum[ii, :, :] = _np.sum(dprobs12[lookup[i], :, :], axis=0)
-                hprobs_omitted_rowsum[ii, :, :] = _np.sum(hprobs[lookup[i], :, :], axis=0)
+                #Note: probs clipped at min_p have no effect on the omitted prob.
+                clipped = (probs[lookup[i]] < min_p)[:, None, None]
+                dprobs12_omitted_rowsum[ii, :, :] = _np.sum(_np.where(clipped, 0.0, dprobs12[lookup[i], :, :]), axis=0)
+                hprobs_omitted_rowsum[ii, :, :] = _np.sum(_np.where(clipped, 0.0, hprobs[lookup[i], :, :]), axis=0)
 
             #Accomplish the same thing as the above commented-out lines,
             # but with more memory effiency:
@@ -721,7 +723,7 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
 
             if firsts is not None:
                 dprobs12_omitted_coeffs = totCnts[firsts] * _np.where(
-                    omitted_probs >= a, 0.0, (-2.0 / a**2) * omitted_probs + 2.0 / a)
+                    omitted_probs >= a, 0.0, (2.0 / a**2) * omitted_probs - 2.0 / a)
                 hprobs_omitted_coeffs = totCnts[firsts] * _np.where(
                     omitted_probs >= a, 1.0,
                     (-1.0 / a**2) * omitted_probs**2 + 2 * omitted_probs / a)
-- 
2.43.0


From 8d62ea4d9982e81423c5aa1e2c7b3f6f4849e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 014/195] fix: circuit_list=None in logl_max(check=True),
 logl_max_terms and two_delta_logl_terms

---
 pygsti/tools/likelihoodfns.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index c05360d..3f93343 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -1119,6 +1119,7 @@ def logl_max(model, dataset, circuit_list=None, poissonPicture=True,
     maxLogL = _np.sum(maxLogLTerms)  # sum over *all* dimensions
 
     if check:
+        if circuit_list is None: circuit_list = list(dataset.keys())
         L = 0
         for circuit in circuit_list:
             dsRow = dataset[circuit]
@@ -1165,15 +1166,15 @@ def logl_max_terms(model, dataset, circuit_list=None,
             if '_filledarrays' in kwargs: del kwargs['_filledarrays']
             return fn(*args, **kwargs)
 
+    if circuit_list is None:
+        circuit_list = list(dataset.keys())
+
     if evaltree_cache and 'evTree' in evaltree_cache:
         evalTree = evaltree_cache['evTree']
         lookup = evaltree_cache['lookup']
         outcomes_lookup = evaltree_cache['outcomes_lookup']
         nEls = evalTree.num_final_elements()
     else:
-        if circuit_list is None:
-            circuit_list = list(dataset.keys())
-
         _, lookup, outcomes_lookup, nEls = \
             smart(model.simplify_circuits, circuit_list, dataset)
         #Note: we don't actually need an evaltree, so we
@@ -1407,7 +1408,7 @@ def two_delta_logl_terms(model, dataset, circuit_list=None,
     Ns = dataset.get_degrees_of_freedom(ds_strs)
     k = max(Ns - mdl_dof, 1)
     # HACK - just take a single average #dof per circuit to use as chi_k distribution!
-    k = int(_np.ceil(k / (1.0 * len(circuit_list))))
+    k = int(_np.ceil(k / (1.0 * len(twoDeltaLogL_terms))))
 
     Nsigma = (twoDeltaLogL_terms - k) / _np.sqrt(2 * k)
     pvalue = _np.array([1.0 - _stats.chi2.cdf(x, k) for x in twoDeltaLogL_terms], 'd')
-- 
2.43.0


From 5d8668ac011b8f5be5296d568f998d18b9103cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 015/195] fix: two_delta_loglfn replaced the NaN entries of its
 argument by zeros

---
 pygsti/tools/likelihoodfns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 3f93343..b3bfd42 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -1584,7 +1584,7 @@ def two_delta_loglfn(N, p, f, minProbClip=1e-6, poissonPicture=True):
     cp = _np.clip(p, minProbClip, 1e10)  # effectively no upper bound
 
     nan_indices = _np.isnan(f)  # get indices of invalid entries
-    if not _np.isscalar(f): f[nan_indices] = 0.0
+    if not _np.isscalar(f): f = _np.where(nan_indices, 0.0, f)  # a copy, so the caller's array isn't modified
     #set nan's to zero to avoid RuntimeWarnings (invalid value)
 
     zf = _np.where(f < 1e-10, 0.0, f)  # set zero-freqs to zero
-- 
2.43.0


From b53a397f25eadbb65d9d3f36d5ec7cafa475d13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 016/195] fix: approximate chi2 hessian without the gradient
 used uninitialized derivatives

---
 pygsti/tools/chi2fns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 0696007..38b9ccf 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -325,7 +325,7 @@ def chi2(model, dataset, circuits=None,
     if compute_hprobs:
         smart(model.bulk_fill_hprobs, hprobs, evTree,
               probs, dprobs, clipTo, check, comm, _filledarrays=(0, 2, 3))
-    elif returnGradient:
+    elif returnGradient or returnHessian:
         smart(model.bulk_fill_dprobs, dprobs, evTree,
               probs, clipTo, check, comm, _filledarrays=(0, 2))
         for ii, i in enumerate(indicesOfCircuitsWithOmittedData):
-- 
2.43.0


From 0851f0536a312432288f601d5105162250aafd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 017/195] fix: gradient and hessian of chi2 where a probability
 is clipped

---
 pygsti/tools/chi2fns.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 38b9ccf..02267f1 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -350,12 +350,15 @@ def chi2(model, dataset, circuits=None,
 
     if returnGradient:
         t = ((probs - f) / cprobs)[:, None]  # (iElement, 0) = (KM,1)
-        dchi2 = N[:, None] * t * (2 - t) * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
+        # Note: weights of clipped probs are constant so only the numerator's derivative is left
+        dt_factor = _np.where((probs < minProbClipForWeighting)[:, None], 2, 2 - t)
+        dchi2 = N[:, None] * t * dt_factor * dprobs  # (KM,1) * (KM,1) * (KM,N)  (K=#spam, M=#strings, N=#vec_gs)
 
         #account for omitted probs
         if firsts is not None:
             t_firsts = (omitted_probs / clipped_oprobs)[:, None]
-            dchi2[firsts, :] -= N[firsts, None] * t_firsts * (2 - t_firsts) * dprobs_omitted_rowsum
+            dt_firsts = _np.where((omitted_probs != clipped_oprobs)[:, None], 2, 2 - t_firsts)
+            dchi2[firsts, :] -= N[firsts, None] * t_firsts * dt_firsts * dprobs_omitted_rowsum
 
         dchi2 = _np.sum(dchi2, axis=0)  # sum over operation sequences and spam labels => (N)
 
@@ -368,10 +371,17 @@ def chi2(model, dataset, circuits=None,
         dt = ((1.0 / cprobs - (probs - f) / cprobs**2)[:, None]
               * dprobs)[:, :, None]  # (KM,1) * (KM,N) = (KM,N) => (KM,N,1)
 
+        # Note: weights of clipped probs are constant so only the numerator's derivatives are left
+        clipped = (probs < minProbClipForWeighting)[:, None, None]
+        dt = _np.where(clipped, (dprobs / cprobs[:, None])[:, :, None], dt)
+        dt_factor = _np.where(clipped, 2, 2 - t)
+        ddt_factor = _np.where(clipped, 0, 1)
+
         if approximateHessian:  # neglect all hprobs-proportional terms
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p)
+            d2chi2 = N[:, None, None] * (dt * dt_factor * dprobs_p - ddt_factor * t * dt * dprobs_p)
         else:  # we have hprobs and can compute the true Hessian
-            d2chi2 = N[:, None, None] * (dt * (2 - t) * dprobs_p - t * dt * dprobs_p + t * (2 - t) * hprobs)
+            d2chi2 = N[:, None, None] * (dt * dt_factor * dprobs_p - ddt_factor * t * dt * dprobs_p
+                                         + t * dt_factor * hprobs)
 
         d2chi2 = _np.sum(d2chi2, axis=0)  # sum over operation sequences and spam labels => (N1,N2)
         # (KM,1,1) * ( (KM,N1,1) * (KM,1,1) * (KM,1,N2) + (KM,1,1) * (KM,N1,1) * \
-- 
2.43.0


From f80b872346d0c56835a3e1ffb50981bf583b8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 018/195] fix: logl_hessian of sparse data with a split
 evaluation tree

---
 pygsti/tools/likelihoodfns.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index b3bfd42..41a161f 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -813,6 +813,7 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
     tStart = _time.time()
 
     #Loop over subtrees
+    full_lookup, full_omitted = lookup, indicesOfCircuitsWithOmittedData
     for iSubTree in mySubTreeIndices:
         evalSubTree = subtrees[iSubTree]
         sub_nEls = evalSubTree.num_final_elements()
@@ -825,6 +826,16 @@ def logl_hessian(model, dataset, circuit_list=None, minProbClip=1e-6,
             evalSubTree = evalSubTree.copy()
             evalSubTree.recompute_spamtuple_indices(bLocal=True)
 
+            # likewise, restrict to this subtree the lookup of circuits with omitted data
+            # that is used by hessian_from_hprobs
+            parentEls = _np.arange(evalTree.num_final_elements())[evalSubTree.final_element_indices(evalTree)]
+            localEl = {iEl: k for k, iEl in enumerate(parentEls)}
+            lookup = {i: [localEl[iEl] for iEl in _slct.as_array(full_lookup[i]) if iEl in localEl]
+                      for i in full_omitted}
+            indicesOfCircuitsWithOmittedData = [i for i in full_omitted if len(lookup[i]) > 0]
+            firsts = _np.array([lookup[i][0] for i in indicesOfCircuitsWithOmittedData], 'i') \
+                if len(indicesOfCircuitsWithOmittedData) > 0 else None
+
         # Create views into pre-allocated memory
         probs = probs_mem[0:sub_nEls]
 
-- 
2.43.0


From 5b5fd893b961ee44974b5a17fc5798394451a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 019/195] fix: log-likelihood and chi2 of data sets with
 aliased operation labels

---
 pygsti/tools/chi2fns.py       | 4 +++-
 pygsti/tools/likelihoodfns.py | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygsti/tools/chi2fns.py b/pygsti/tools/chi2fns.py
index 02267f1..d88db37 100644
--- a/pygsti/tools/chi2fns.py
+++ b/pygsti/tools/chi2fns.py
@@ -241,8 +241,10 @@ def chi2(model, dataset, circuits=None,
         outcomes_lookup = evaltree_cache['outcomes_lookup']
     else:
         #OLD: evTree,lookup,outcomes_lookup = smart(model.bulk_evaltree,circuits)
+        # Note: simplify_circuits doesn't support aliased dataset (yet)
+        dstree = dataset if (opLabelAliases is None) else None
         evTree, _, _, lookup, outcomes_lookup = smart(model.bulk_evaltree_from_resources,
-                                                      circuits, comm, dataset=dataset)
+                                                      circuits, comm, dataset=dstree)
 
         #Fill cache dict if one was given
         if evaltree_cache is not None:
diff --git a/pygsti/tools/likelihoodfns.py b/pygsti/tools/likelihoodfns.py
index 41a161f..9864b48 100644
--- a/pygsti/tools/likelihoodfns.py
+++ b/pygsti/tools/likelihoodfns.py
@@ -150,8 +150,10 @@ def logl_terms(model, dataset, circuit_list=None,
         # Note: this is != circuit_list, as the tree hold *simplified* circuits
     else:
         #OLD: evalTree,lookup,outcomes_lookup = smart(model.bulk_evaltree,circuit_list, dataset=dataset)
+        # Note: simplify_circuits doesn't support aliased dataset (yet)
+        dstree = dataset if (opLabelAliases is None) else None
         evalTree, _, _, lookup, outcomes_lookup = smart(model.bulk_evaltree_from_resources,
-                                                        circuit_list, comm, dataset=dataset)
+                                                        circuit_list, comm, dataset=dstree)
 
         #Fill cache dict if one was given
         if evaltree_cache is not None:
@@ -1132,7 +1134,7 @@ def logl_max(model, dataset, circuit_list=None, poissonPicture=True,
     if check:
         if circuit_list is None: circuit_list = list(dataset.keys())
         L = 0
-        for circuit in circuit_list:
+        for circuit in _lt.apply_aliases_to_circuit_list(circuit_list, opLabelAliases):
             dsRow = dataset[circuit]
             N = dsRow.total  # sum of counts for all outcomes (all spam labels)
             for n in dsRow.counts.values():
@@ -1187,7 +1189,7 @@ def logl_max_terms(model, dataset, circuit_list=None,
         nEls = evalTree.num_final_elements()
     else:
         _, lookup, outcomes_lookup, nEls = \
-            smart(model.simplify_circuits, circuit_list, dataset)
+            smart(model.simplify_circuits, circuit_list, dataset if (opLabelAliases is None) else None)
         #Note: we don't actually need an evaltree, so we
         # won't make one here and so won't fill an empty
         # evaltree_cache.
-- 
2.43.0


From a7266ca63c71fd6e9ebeee6a081e1483096a767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 020/195] fix: Polynomial() and polynomial terms given with
 their variable indices in any order

---
 pygsti/objects/polynomial.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 1d9b428..ea13fe4 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -32,6 +32,19 @@ def _vinds_to_int(vinds, vindices_per_int, max_num_vars):
     return tuple(ret_tup)
 
 
+def _to_int_coeffs(items, vindices_per_int, max_num_vars):
+    """
+    Convert (variable-index-tuple, coefficient) pairs to a dict with integer keys.
+
+    Pairs whose tuples hold the same indices (in any order) are the same term, so their coefficients are added.
+    """
+    ret = {}
+    for vinds, coeff in items:
+        k = _vinds_to_int(tuple(sorted(vinds)), vindices_per_int, max_num_vars)
+        ret[k] = (ret[k] + coeff) if (k in ret) else coeff
+    return ret
+
+
 class FASTPolynomial(object):
     """
     Encapsulates a polynomial as a subclass of the standard Python dict.
@@ -115,7 +128,7 @@ class FASTPolynomial(object):
         """
         vindices_per_int = FASTPolynomial.get_vindices_per_int(max_num_vars)
 
-        int_coeffs = {_vinds_to_int(k, vindices_per_int, max_num_vars): v for k, v in coeffs.items()}
+        int_coeffs = _to_int_coeffs(coeffs.items() if coeffs is not None else [], vindices_per_int, max_num_vars)
         self._rep = replib.PolyRep(int_coeffs, max_num_vars, vindices_per_int)
 
     @property
-- 
2.43.0


From 0d6b72a0b5e33521c6c02e698b3a0ae398d16941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 021/195] fix: Polynomial.map_indices adds the terms that a
 mapping makes equal

---
 pygsti/objects/polynomial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index ea13fe4..c96becf 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -261,7 +261,9 @@ class FASTPolynomial(object):
         -------
         Polynomial
         """
-        return FASTPolynomial({mapfn(k): v for k, v in self.coeffs.items()}, self.max_num_vars)
+        int_coeffs = _to_int_coeffs([(mapfn(k), v) for k, v in self.coeffs.items()],
+                                    self._rep.vindices_per_int, self._rep.max_num_vars)
+        return FASTPolynomial.fromrep(replib.PolyRep(int_coeffs, self._rep.max_num_vars, self._rep.vindices_per_int))
 
     def map_indices_inplace(self, mapfn):
         """
@@ -282,9 +284,8 @@ class FASTPolynomial(object):
         -------
         None
         """
-        new_coeffs = {mapfn(k): v for k, v in self.coeffs.items()}
-        new_int_coeffs = {_vinds_to_int(k, self._rep.vindices_per_int, self._rep.max_num_vars): v
-                          for k, v in new_coeffs.items()}
+        new_int_coeffs = _to_int_coeffs([(mapfn(k), v) for k, v in self.coeffs.items()],
+                                        self._rep.vindices_per_int, self._rep.max_num_vars)
         self._rep.reinit(new_int_coeffs)
 
     def mapvec_indices(self, mapvec):
-- 
2.43.0


From e29e48a59af813e707fcca73f76230c4eaa00c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 022/195] fix: PolyRep.mapvec_indices_inplace adds the terms
 that a mapping makes equal and keeps keys sorted

---
 pygsti/objects/replib/fastreplib.pyx | 43 +++++++++-------------------
 pygsti/objects/replib/slowreplib.py  |  3 +-
 2 files changed, 15 insertions(+), 31 deletions(-)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 58215be..1acc44a 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -1352,42 +1352,25 @@ cdef class PolyRep:
 
     def mapvec_indices_inplace(self, np.ndarray[np.int64_t, ndim=1, mode='c'] mapfn_as_vector):
         cdef INT* mapfv = <INT*> mapfn_as_vector.data
-        cdef INT indx, nxt, i, m, k, new_i, new_indx;
-        cdef INT divisor = self.c_poly._max_num_vars + 1
+        cdef INT k
 
-        #REMOVE print "MAPPING divisor=", divisor
         cdef PolyVarsIndex new_PolyVarsIndex
+        cdef vector[INT] vinds
         cdef unordered_map[PolyVarsIndex, complex] new_coeffs
-        cdef vector[INT].iterator vit
+        cdef unordered_map[PolyVarsIndex, complex].iterator new_it
         cdef unordered_map[PolyVarsIndex, complex].iterator it = self.c_poly._coeffs.begin()
 
         while(it != self.c_poly._coeffs.end()): # for each coefficient
-            i_vec = deref(it).first._parts  # the vector[INT] beneath this PolyVarsIndex
-            new_PolyVarsIndex = PolyVarsIndex(i_vec.size())
-            #REMOVE print " ivec =", i_vec
-
-            #map i_vec -> new_PolyVarsIndex
-            vit = i_vec.begin(); k = 0
-            while(vit != i_vec.end()):
-                indx = deref(vit)
-                new_indx = 0; m=1
-                #REMOVE print "begin indx ",indx
-                while indx != 0:
-                    nxt = indx / divisor
-                    i = indx - nxt * divisor
-                    indx = nxt
-                    #REMOVE print indx, " -> nxt=", nxt, " i=",i
-
-                    # i-1 is variable index (the thing we map)
-                    new_i = mapfv[i-1]+1
-                    new_indx += new_i * m
-                    #REMOVE print "   new_i=",new_i," m=",m," => new_indx=",new_indx
-                    m *= divisor
-                #REMOVE print "Setting new ivec[",k,"] = ",new_indx
-                new_PolyVarsIndex._parts[k] = new_indx
-                inc(vit); k += 1
-            #REMOVE print " new_ivec =", new_PolyVarsIndex._parts
-            new_coeffs[new_PolyVarsIndex] = deref(it).second
+            vinds = self.c_poly.int_to_vinds(deref(it).first)
+            for k in range(<INT>vinds.size()):
+                vinds[k] = mapfv[vinds[k]]
+            stdsort(vinds.begin(), vinds.end()) # keys hold sorted indices
+            new_PolyVarsIndex = self.c_poly.vinds_to_int(vinds)
+            new_it = new_coeffs.find(new_PolyVarsIndex)
+            if new_it != new_coeffs.end(): # terms made equal by the mapping add
+                new_coeffs[new_PolyVarsIndex] = deref(new_it).second + deref(it).second
+            else:
+                new_coeffs[new_PolyVarsIndex] = deref(it).second
             inc(it)
 
         self.c_poly._coeffs.swap(new_coeffs)
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f2b2f0a..f3ca560 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -1135,7 +1135,8 @@ class PolyRep(dict):
         new_items = {}
         for k, v in self.items():
             new_vinds = tuple((mapfn_as_vector[j] for j in self._int_to_vinds(k)))
-            new_items[self._vinds_to_int(new_vinds)] = v
+            new_k = self._vinds_to_int(tuple(sorted(new_vinds)))
+            new_items[new_k] = (new_items[new_k] + v) if (new_k in new_items) else v
         self.clear()
         self.update(new_items)
 
-- 
2.43.0


From 648026b0559f00b8ef471509d454b83689236793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 023/195] fix: Polynomial.get_degree

---
 pygsti/objects/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index c96becf..1e04f5f 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -188,7 +188,8 @@ class FASTPolynomial(object):
         Return the largest sum-of-exponents for any term (monomial) within this
         polynomial. E.g. for x_2^3 + x_1^2*x_0^2 has degree 4.
         """
-        return 0 if len(self) == 0 else max([len(k) for k in self.coeffs.keys()])
+        coeffs = self.coeffs
+        return 0 if len(coeffs) == 0 else max([len(k) for k in coeffs.keys()])
 
     def evaluate(self, variable_values):
         """
-- 
2.43.0


From bb1585d6c08cd363bf3c50261547fe01bfd78138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 024/195] fix: zeroth power of a Polynomial

---
 pygsti/objects/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 1e04f5f..7e33515 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -425,7 +425,7 @@ class FASTPolynomial(object):
     def __pow__(self, n):
         ret = FASTPolynomial({(): 1.0}, self.max_num_vars)  # max_order updated by mults below
         cur = self
-        for i in range(int(_np.floor(_np.log2(n))) + 1):
+        while n > 0:
             rem = n % 2  # gets least significant bit (i-th) of n
             if rem == 1: ret *= cur  # add current power of x (2^i) if needed
             cur = cur * cur  # current power *= 2
-- 
2.43.0


From 889de790d906a355b171a31122912ff6b049e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 025/195] fix: number of variable indices packed in a signed
 integer

---
 pygsti/objects/polynomial.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/polynomial.py b/pygsti/objects/polynomial.py
index 7e33515..c5bb94e 100644
--- a/pygsti/objects/polynomial.py
+++ b/pygsti/objects/polynomial.py
@@ -66,10 +66,9 @@ class FASTPolynomial(object):
         This quantity is needed to directly construct Polynomial representations
         and is thus useful internally for forward simulators.
         """
-        # (max_num_vars+1) ** vindices_per_int <= 2**PLATFORM_BITS, so:
-        # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS
-        # vindices_per_int = int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        # (max_num_vars+1) ** vindices_per_int <= 2**(PLATFORM_BITS - 1) (the integers are signed), so:
+        # vindices_per_int * log2(max_num_vars+1) <= PLATFORM_BITS - 1
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))
 
     @classmethod
     def fromrep(cls, rep):
@@ -475,7 +474,7 @@ class SLOWPolynomial(dict):  # REMOVE THIS CLASS (just for reference)
         This quantity is needed to directly construct Polynomial representations
         and is thus useful internally for forward simulators.
         """
-        return int(_np.floor(PLATFORM_BITS / _np.log2(max_num_vars + 1)))
+        return int(_np.floor((PLATFORM_BITS - 1) / _np.log2(max_num_vars + 1)))
 
     @classmethod
     def fromrep(cls, rep):
-- 
2.43.0


From b9d2accd8a9559c29dcdf075d34dd15e74826167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 026/195] fix: PolyCRep copy constructor copies all members

---
 pygsti/objects/replib/fastreps.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index d77b213..4f12ebc 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2638,6 +2638,7 @@ namespace CReps {
   PolyCRep::PolyCRep(const PolyCRep& other) {
     _coeffs = other._coeffs;
     _max_num_vars = other._max_num_vars;
+    _vindices_per_int = other._vindices_per_int;
   }
 
   PolyCRep::~PolyCRep() { }
-- 
2.43.0


From 04b6e4c2132fe6c14e8805ebbab5488d6cbcd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:29 +0000
Subject: [PATCH 027/195] fix: declare PolyCRep.vinds_to_int (used when mapping
 polynomial indices)

---
 pygsti/objects/replib/fastreplib.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 1acc44a..a54d0a6 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -309,6 +309,7 @@ cdef extern from "fastreps.h" namespace "CReps":
         void add_abs_inplace(PolyCRep&)
         void add_scalar_to_all_coeffs_inplace(double complex offset)
         void scale(double complex scale)
+        PolyVarsIndex vinds_to_int(vector[INT] vinds)
         vector[INT] int_to_vinds(PolyVarsIndex indx_tup)
         unordered_map[PolyVarsIndex, complex] _coeffs
         INT _max_num_vars
-- 
2.43.0


From 6d40a858d59f2cff481de1dd70daf8a7c63e01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:29 +0000
Subject: [PATCH 028/195] fix: slowreplib product with the zero polynomial

---
 pygsti/objects/replib/slowreplib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f3ca560..84524a3 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -1478,7 +1478,7 @@ class PolyRep(dict):
 
     def degree(self):
         """ Used for debugging in slowreplib routines only"""
-        return max([len(self._int_to_vinds(k)) for k in self.keys()])
+        return max([len(self._int_to_vinds(k)) for k in self.keys()], default=0)
 
     #UNUSED TODO REMOVE
     #def __add__(self, x):
-- 
2.43.0


From ce5484722e3b416df3e806521e4e67aa8afa6544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:29 +0000
Subject: [PATCH 029/195] fix: slowreplib compact_real gives a real tape

---
 pygsti/objects/replib/slowreplib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 84524a3..9fe2a41 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -1325,8 +1325,8 @@ class PolyRep(dict):
         """
         Returns a real representation of this polynomial as a
         `(variable_tape, coefficient_tape)` 2-tuple of 1D nupy arrays.
-        The coefficient tape is *always* a complex array, even if
-        none of the polynomial's coefficients are complex.
+        The coefficient tape is *always* a real array: imaginary parts
+        of the polynomial's coefficients are dropped.
 
         Such compact representations are useful for storage and later
         evaluation, but not suited to polynomial manipulation.
@@ -1342,14 +1342,14 @@ class PolyRep(dict):
         vinds = {i: self._int_to_vinds(i) for i in self.keys()}
         nVarIndices = sum(map(len, vinds.values()))
         vtape = _np.empty(1 + nTerms + nVarIndices, _np.int64)  # "variable" tape
-        ctape = _np.empty(nTerms, complex)  # "coefficient tape"
+        ctape = _np.empty(nTerms, 'd')  # "coefficient tape"
 
         i = 0
         vtape[i] = nTerms; i += 1
         for iTerm, k in enumerate(sorted(self.keys())):
             v = vinds[k]  # so don't need to compute self._int_to_vinds(k)
             l = len(v)
-            ctape[iTerm] = self[k]
+            ctape[iTerm] = _np.real(self[k])
             vtape[i] = l; i += 1
             vtape[i:i + l] = v; i += l
         assert(i == len(vtape)), "Logic Error!"
-- 
2.43.0


From b55a3e69fafc077e01129a0fa931be82d3f9df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 030/195] fix: PolyCRep::int_to_vinds with keys of several
 integers (digits overwrote the loop counter)

---
 pygsti/objects/replib/fastreps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 4f12ebc..33a2b46 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2783,8 +2783,8 @@ namespace CReps {
   std::vector<INT> PolyCRep::int_to_vinds(PolyVarsIndex indx_tup) {
     std::vector<INT> ret;
     INT nxt, i, indx;
-    for(std::size_t i=0; i < indx_tup._parts.size(); i++) {
-      indx = indx_tup._parts[i];
+    for(std::size_t j=0; j < indx_tup._parts.size(); j++) {
+      indx = indx_tup._parts[j];
       while(indx != 0) {
         nxt = indx / (_max_num_vars+1);
 	i = indx - nxt*(_max_num_vars+1);
-- 
2.43.0


From e9c981c18ff35c4cecbf039f2a8362d631955cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 031/195] fix: Lindbladians of real-typed matrices lost their
 imaginary or fractional parts

---
 pygsti/tools/lindbladtools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/tools/lindbladtools.py b/pygsti/tools/lindbladtools.py
index 0c33f21..6e7aeef 100644
--- a/pygsti/tools/lindbladtools.py
+++ b/pygsti/tools/lindbladtools.py
@@ -43,9 +43,9 @@ def hamiltonian_to_lindbladian(hamiltonian, sparse=False):
     assert(hamiltonian.shape[0] == hamiltonian.shape[1])
     d = hamiltonian.shape[0]
     if sparse:
-        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=hamiltonian.dtype)
+        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=_np.result_type(hamiltonian.dtype, 'complex'))
     else:
-        lindbladian = _np.empty((d**2, d**2), dtype=hamiltonian.dtype)
+        lindbladian = _np.empty((d**2, d**2), dtype=_np.result_type(hamiltonian.dtype, 'complex'))
 
     for i, rho0 in enumerate(basis_matrices('std', d**2)):  # rho0 == input density mx
         rho1 = _np.sqrt(d) / 2 * (-1j * (_mt.safedot(hamiltonian, rho0) - _mt.safedot(rho0, hamiltonian)))
@@ -189,9 +189,9 @@ def nonham_lindbladian(Lm, Ln, sparse=False):
     Lm_dag = _np.conjugate(_np.transpose(Lm))
     d = Lm.shape[0]
     if sparse:
-        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=Lm.dtype)
+        lindbladian = _sps.lil_matrix((d**2, d**2), dtype=_np.result_type(Lm.dtype, Ln.dtype, 'd'))
     else:
-        lindbladian = _np.empty((d**2, d**2), dtype=Lm.dtype)
+        lindbladian = _np.empty((d**2, d**2), dtype=_np.result_type(Lm.dtype, Ln.dtype, 'd'))
 
 #    print("BEGIN VERBOSE") #DEBUG!!!
     for i, rho0 in enumerate(basis_matrices('std', d**2)):  # rho0 == input density mx
-- 
2.43.0


From c54dc568be5c15698901541d959ae3d2cff67d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 032/195] fix: EmbeddedBasis could not be hashed, so had no
 transformation matrices

---
 pygsti/objects/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 5889191..d1041fd 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -1266,7 +1266,7 @@ class EmbeddedBasis(LazyBasis):
         super(EmbeddedBasis, self).__init__(name, longname, dim, size, elshape, real, sparse)
 
     def __hash__(self):
-        return hash(tuple(hash(self.embedded_basis), self.target_labels, self.state_space_labels.labels))
+        return hash((hash(self.embedded_basis), tuple(self.target_labels), str(self.state_space_labels)))
 
     def _lazy_build_elements(self):
         """ Take a dense or sparse basis matrix and embed it. """
-- 
2.43.0


From 965a3b7c72afbd6d3b16c4a10381406d20b9a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 033/195] fix: imaginary parts of the elements of a sparse
 DirectSumBasis

---
 pygsti/objects/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index d1041fd..5b35002 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -859,7 +859,7 @@ class DirectSumBasis(LazyBasis):
             for lbl, vel in zip(compbasis.labels, compbasis.vector_elements):
                 assert(_sps.issparse(vel) == self.sparse), "Inconsistent sparsity!"
                 if self.sparse:
-                    mx = _sps.lil_matrix((self.dim, 1))
+                    mx = _sps.lil_matrix((self.dim, 1), dtype='complex')
                     mx[start:start + compbasis.dim, 0] = vel
                     compMxs.append(mx)
                 else:
-- 
2.43.0


From 63ce790f24db9ef00d3a5370d740f036e14741a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:43 +0000
Subject: [PATCH 034/195] fix: fast_jamiolkowski_iso_std_inv in direct-sum
 bases

---
 pygsti/tools/jamiolkowski.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/jamiolkowski.py b/pygsti/tools/jamiolkowski.py
index 0a640ea..ad6a36e 100644
--- a/pygsti/tools/jamiolkowski.py
+++ b/pygsti/tools/jamiolkowski.py
@@ -259,7 +259,8 @@ def fast_jamiolkowski_iso_std_inv(choiMx, opMxBasis):
     opMxInStdBasis = choiMx.reshape((N, N, N, N)) * N
     opMxInStdBasis = _np.swapaxes(opMxInStdBasis, 1, 2).flatten()
     opMxInStdBasis = opMxInStdBasis.reshape((N2, N2))
-    opMxBasis = _bt.build_basis_for_matrix(opMxInStdBasis, opMxBasis)
+    if not isinstance(opMxBasis, _Basis):
+        opMxBasis = _Basis.cast(opMxBasis, N2)  # make sure opMxBasis is a Basis; we'd like dimension to be N2
 
     #project operation matrix so it acts only on the space given by the desired state space blocks
     opMxInStdBasis = _bt.resize_std_mx(opMxInStdBasis, 'contract',
-- 
2.43.0


From c534773b2b22307b3c55a25e7c8af5f602fddc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 035/195] fix: stdmx_to_vec in the matrix-unit and unnormalized
 bases

---
 pygsti/tools/basistools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/tools/basistools.py b/pygsti/tools/basistools.py
index 01a6f04..46e99cf 100644
--- a/pygsti/tools/basistools.py
+++ b/pygsti/tools/basistools.py
@@ -506,13 +506,13 @@ def stdmx_to_vec(m, basis):
 
     assert(len(m.shape) == 2 and m.shape[0] == m.shape[1])
     basis = Basis.cast(basis, m.shape[0]**2)
-    v = _np.empty((basis.size, 1))
+    v = _np.empty((basis.size, 1), 'd' if basis.real else 'complex')
     for i, mx in enumerate(basis.elements):
-        if basis.real:
-            v[i, 0] = _np.real(_mt.trace(_np.dot(mx, m)))
-        else:
-            v[i, 0] = _np.real_if_close(_mt.trace(_np.dot(mx, m)))
-    return v
+        #Note: the (orthogonal) basis elements may be non-Hermitian and un-normalized
+        mxdag = _np.conjugate(_np.transpose(mx))
+        coeff = _mt.trace(_np.dot(mxdag, m)) / _np.real(_mt.trace(_np.dot(mxdag, mx)))
+        v[i, 0] = _np.real(coeff) if basis.real else coeff
+    return v if basis.real else _np.real_if_close(v)
 
 
 stdmx_to_ppvec = partial(stdmx_to_vec, basis='pp')
-- 
2.43.0


From f9104abb7b61392162dca0850c6f9f600badb84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 036/195] fix: sparse stochastic generators were overwritten by
 the affine ones

---
 pygsti/tools/optools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index 35f3b87..e9b1d0b 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -1663,7 +1663,7 @@ def lindblad_error_generators(dmbasis_ham, dmbasis_other, normalize,
                         assert(_np.isclose(normfn(otherLindbladTerms[i]), 1.0))
 
         elif other_mode == "diag_affine":
-            otherLindbladTerms = [[None] * (other_nMxs - 1)] * 2 if sparse else \
+            otherLindbladTerms = [[None] * (other_nMxs - 1) for k in range(2)] if sparse else \
                 _np.empty((2, other_nMxs - 1, d2, d2), 'complex')
             for i, Lm in enumerate(other_mxs[1:]):  # don't include identity
                 otherLindbladTerms[0][i] = _lt.nonham_lindbladian(Lm, Lm, sparse)
-- 
2.43.0


From 7782284df960ffb82397ad119f544043cdc61359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 037/195] fix: parameter values of the reldepol Lindblad
 parameterizations

---
 pygsti/tools/optools.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index e9b1d0b..f905852 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -2349,6 +2349,11 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherProj = _np.mean(otherProjs.clip(1e-16, 1e100))
                 otherParams = _np.array(_np.sqrt(_np.real(otherProj)), 'd')  # shape (1,)
 
+            elif param_mode == "reldepol":  # otherParams is a *single-element* 1D vector of the (common) diagonal el
+                assert(truncate or all([_np.isclose(v, otherProjs[0]) for v in otherProjs])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.array(_np.mean(_np.real(otherProjs)), 'd')  # shape (1,)
+
             elif param_mode == "cptp":  # otherParams is a 1D vector of the sqrts of diagonal els
                 assert(truncate or all([v >= -1e-12 for v in otherProjs])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
@@ -2370,6 +2375,12 @@ def lindblad_projections_to_paramvals(hamProjs, otherProjs, param_mode="cptp",
                 otherParams = _np.concatenate(([_np.sqrt(_np.real(depolProj))],
                                                otherProjs[1].real))  # shape (1+(bsO-1),)
 
+            elif param_mode == "reldepol":  # otherParams is a single unconstrained value + unconstrained affine coeffs
+                assert(truncate or all([_np.isclose(v, otherProjs[0, 0]) for v in otherProjs[0]])), \
+                    "Diagonal lindblad coefficients are not equal (truncate == False)!"
+                otherParams = _np.concatenate(([_np.mean(_np.real(otherProjs[0, :]))],
+                                               otherProjs[1].real))  # shape (1+(bsO-1),)
+
             elif param_mode == "cptp":  # Note: does not constrained affine coeffs to CPTP
                 assert(truncate or all([v >= -1e-12 for v in otherProjs[0]])), \
                     "Lindblad coefficients are not CPTP (truncate == False)!"
-- 
2.43.0


From e8ab88135c87f7b6952a539d3902096309cd7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 038/195] fix: flexible_change_basis ignored the basis its
 argument is given in

---
 pygsti/tools/basistools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/tools/basistools.py b/pygsti/tools/basistools.py
index 46e99cf..fc1d775 100644
--- a/pygsti/tools/basistools.py
+++ b/pygsti/tools/basistools.py
@@ -369,8 +369,8 @@ def flexible_change_basis(mx, startBasis, endBasis):
         resize = 'contract'
     stdBasis1 = startBasis.equivalent('std')
     stdBasis2 = endBasis.equivalent('std')
-    #start = change_basis(mx, startBasis, stdBasis1)
-    mid = resize_std_mx(mx, resize, stdBasis1, stdBasis2)
+    start = change_basis(mx, startBasis, stdBasis1)
+    mid = resize_std_mx(start, resize, stdBasis1, stdBasis2)
     end = change_basis(mid, stdBasis2, endBasis)
     return end
 
-- 
2.43.0


From f0027ecb54c10aed4b00a179494bfe65324a4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 039/195] fix: prep_stabilizer_state prepared the z-values on
 the qubits in reverse order

---
 pygsti/tools/symplectic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 21b4933..017e07f 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -543,9 +543,10 @@ def prep_stabilizer_state(nqubits, zvals=None):
     n = nqubits
     s = _np.fliplr(_np.identity(2 * n, int))  # flip b/c stab cols are *first*
     p = _np.zeros(2 * n, int)
-    if zvals:
+    if zvals is not None:
         for i, z in enumerate(zvals):
-            p[i] = p[i + n] = 2 if bool(z) else 0  # EGN TODO: check this is right -- (how to update the destabilizers?)
+            # the columns are flipped, so the stabilizer (anti-stabilizer) acting on qubit i is in column n-1-i (2n-1-i)
+            p[n - 1 - i] = p[2 * n - 1 - i] = 2 if bool(z) else 0
     return s, p
 
 
-- 
2.43.0


From 942a89b6e867edef6eeddf4cf1856516cd475d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 040/195] fix: bitstring_for_pauli overwrote half of the phase
 vector it was given

---
 pygsti/tools/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/symplectic.py b/pygsti/tools/symplectic.py
index 017e07f..3c1c99c 100644
--- a/pygsti/tools/symplectic.py
+++ b/pygsti/tools/symplectic.py
@@ -1546,7 +1546,7 @@ def bitstring_for_pauli(p):
     the phase-vector p creates when acting on the standard input state.
     """
     n = len(p) // 2
-    bitstring = p[n:]
+    bitstring = p[n:].copy()  # don't alter the phase vector we're given
     bitstring[bitstring > 0] = 1
     return list(bitstring)
 
-- 
2.43.0


From 5977de9992b69ec0d2a5f8008cf21d71f27f9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 041/195] fix: detmod2 of matrices whose integer determinant
 exceeds floating-point precision

---
 pygsti/tools/matrixmod2.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/matrixmod2.py b/pygsti/tools/matrixmod2.py
index 67ac68a..a292687 100644
--- a/pygsti/tools/matrixmod2.py
+++ b/pygsti/tools/matrixmod2.py
@@ -34,7 +34,17 @@ def detmod2(m):
     Returns the determinant of a matrix over the itegers
     modulo 2 (GL(n,2)).
     """
-    return _np.round(_np.linalg.det(m)) % 2
+    m = _np.array(_np.round(m), dtype='int') % 2  # exact: a floating-point determinant loses its parity as `m` grows
+    for i in range(len(m)):
+        pivots = _np.nonzero(m[i:, i])[0]
+        if len(pivots) == 0:
+            return 0
+        k = i + pivots[0]
+        m[[i, k]] = m[[k, i]]
+        for j in range(i + 1, len(m)):
+            if m[j, i]:
+                m[j] ^= m[i]
+    return 1
 
 # A utility function used by the random symplectic matrix sampler.
 
-- 
2.43.0


From 9e847536a4c36a36e280d62fc8da45aeebb63c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 042/195] fix: multidotmod2 (and so albert_factor of a 1x1
 matrix) failed on a single matrix

---
 pygsti/tools/matrixmod2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/tools/matrixmod2.py b/pygsti/tools/matrixmod2.py
index a292687..18cfb24 100644
--- a/pygsti/tools/matrixmod2.py
+++ b/pygsti/tools/matrixmod2.py
@@ -26,6 +26,8 @@ def multidotmod2(mlist):
     Returns the product over the itegers modulo 2 of
     a list of matrices.
     """
+    if len(mlist) == 1:  # multi_dot needs at least two matrices
+        return _np.array(mlist[0]) % 2
     return _np.linalg.multi_dot(mlist) % 2
 
 
-- 
2.43.0


From e9ffb30945e61e2f2d7b91497b8b51f21e3a5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 043/195] fix: initial rates of StochasticNoiseOp were ignored
 in its dense representation

---
 pygsti/objects/operation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index eb6873f..b4adcfd 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2159,7 +2159,7 @@ class StochasticNoiseOp(LinearOperator):
         if initial_rates is not None:
             assert(len(initial_rates) == self.basis.size - 1), \
                 "Expected %d initial rates but got %d!" % (len(initial_rates), self.basis.size - 1)
-            self.params[:] = self._rates_to_params(initial_rates)
+            self.params = self._rates_to_params(initial_rates)
         assert(evotype in ("densitymx", "svterm", "cterm"))
 
         if evotype == "densitymx":  # for now just densitymx is supported
@@ -2168,6 +2168,14 @@ class StochasticNoiseOp(LinearOperator):
             raise ValueError("Invalid evotype '%s' for %s" % (evotype, self.__class__.__name__))
 
         LinearOperator.__init__(self, rep, evotype)
+        self._update_rep()  # the rep must reflect the initial rates
+
+    def _update_rep(self):
+        """ Creates the dense error superoperator from the parameters """
+        errormap = _np.identity(self.dim)
+        for rate, ss in zip(self._params_to_rates(self.params), self.stochastic_superops):
+            errormap += rate * ss
+        self._rep.base[:, :] = errormap
 
     def _rates_to_params(self, rates):
         return _np.sqrt(_np.array(rates))
@@ -2363,12 +2371,7 @@ class StochasticNoiseOp(LinearOperator):
         None
         """
         self.params[:] = v
-
-        # Create dense error superoperator from paramvec
-        errormap = _np.identity(self.dim)
-        for rate, ss in zip(self._params_to_rates(v), self.stochastic_superops):
-            errormap += rate * ss
-        self._rep.base[:, :] = errormap
+        self._update_rep()
         if not nodirty: self.dirty = True
 
     #Transform functions? (for gauge opt)
-- 
2.43.0


From 414c6a378c07ac8ae94c648cf4531eac423c6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 044/195] fix: DepolarizeOp.copy failed, and passed on the rate
 of a single direction as the total

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index b4adcfd..d6d1589 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2432,7 +2432,7 @@ class DepolarizeOp(StochasticNoiseOp):
         DepolarizeOp
             A copy of this object.
         """
-        copyOfMe = DepolarizeOp(self.dim, self.basis, self.evotype, self._params_to_rates(self.to_vector())[0])
+        copyOfMe = DepolarizeOp(self.dim, self.basis, self._evotype, sum(self._params_to_rates(self.to_vector())))
         return self._copy_gpindices(copyOfMe, parent)
 
 
-- 
2.43.0


From 9d3a83dc71ff71b983366560a63e0564a6e48726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 045/195] fix: DepolarizeOp has a single parameter; derivatives
 of stochastic and depolarizing noise

---
 pygsti/objects/operation.py | 57 +++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index d6d1589..06656cf 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2155,11 +2155,11 @@ class StochasticNoiseOp(LinearOperator):
             self.stochastic_superops.append(_bt.change_basis(std_superop, 'std', self.basis))
 
         #Setup initial parameters
-        self.params = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
-        if initial_rates is not None:
-            assert(len(initial_rates) == self.basis.size - 1), \
-                "Expected %d initial rates but got %d!" % (len(initial_rates), self.basis.size - 1)
-            self.params = self._rates_to_params(initial_rates)
+        if initial_rates is None:
+            initial_rates = _np.zeros(self.basis.size - 1, 'd')  # note that basis.dim can be < self.dim (OK)
+        assert(len(initial_rates) == self.basis.size - 1), \
+            "Expected %d initial rates but got %d!" % (len(initial_rates), self.basis.size - 1)
+        self.params = self._rates_to_params(initial_rates)
         assert(evotype in ("densitymx", "svterm", "cterm"))
 
         if evotype == "densitymx":  # for now just densitymx is supported
@@ -2183,6 +2183,10 @@ class StochasticNoiseOp(LinearOperator):
     def _params_to_rates(self, params):
         return params**2
 
+    def _params_to_rates_deriv(self, params):
+        """ Derivative of `_params_to_rates`: an array of shape (num_rates, num_params) """
+        return _np.diag(2 * params)
+
     def _get_rate_poly_dicts(self):
         """ Return a list of dicts, one per rate, expressing the
             rate as a polynomial of the local parameters (tuple
@@ -2334,6 +2338,33 @@ class StochasticNoiseOp(LinearOperator):
         # so d( sum(abs(rates)) )/dparam_i = 2*param_i
         return 2 * self.to_vector()
 
+    def deriv_wrt_params(self, wrtFilter=None):
+        """
+        Construct a matrix whose columns are the vectorized derivatives of the
+        flattened operation matrix with respect to each of this operation's parameters.
+
+        Returns
+        -------
+        numpy array
+            Array of derivatives, shape == (dimension^2, num_params)
+        """
+        drates = self._params_to_rates_deriv(self.params)  # shape (num_rates, num_params)
+        superops = _np.array([ss.flatten() for ss in self.stochastic_superops])  # shape (num_rates, dimension^2)
+        derivMx = _np.dot(superops.real.T, drates)
+        return derivMx if (wrtFilter is None) else _np.take(derivMx, wrtFilter, axis=1)
+
+    def has_nonzero_hessian(self):
+        """
+        Returns whether this operation has a non-zero Hessian with
+        respect to its parameters, i.e. whether it only depends
+        linearly on its parameters or not.
+
+        Returns
+        -------
+        bool
+        """
+        return True  # rates are squares of the parameters
+
     def num_params(self):
         """
         Get the number of independent parameters which specify this gate.
@@ -2417,6 +2448,22 @@ class DepolarizeOp(StochasticNoiseOp):
     def _params_to_rates(self, params):
         return _np.array([params[0]**2] * (self.basis.size - 1), 'd')
 
+    def _params_to_rates_deriv(self, params):
+        return _np.array([[2 * params[0]]] * (self.basis.size - 1), 'd')
+
+    def get_total_term_magnitude_deriv(self):
+        """
+        Get the derivative of the total (sum) of the magnitudes of all this
+        operator's terms with respect to the operators (local) parameters.
+
+        Returns
+        -------
+        numpy array
+            An array of length self.num_params()
+        """
+        # abs(rates) = rates = param**2, and there are (basis.size-1) of them
+        return 2 * (self.basis.size - 1) * self.to_vector()
+
     def _get_rate_poly_dicts(self):
         """ Return a list of dicts, one per rate, expressing the
             rate as a polynomial of the local parameters (tuple
-- 
2.43.0


From a91c634a19fab38a98fcf426201d7d065e4ed91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 046/195] fix: zeroth-order term of DepolarizeOp subtracted the
 rate of only one direction

---
 pygsti/objects/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 06656cf..75f991d 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2279,7 +2279,8 @@ class StochasticNoiseOp(LinearOperator):
         if order == 0:
             polydict = {(): 1.0}
             for pd in self._get_rate_poly_dicts():
-                polydict.update({k: -v for k, v in pd.items()})  # subtracts the "rate" `pd` from `polydict`
+                for k, v in pd.items():  # subtracts the "rate" `pd` from `polydict`
+                    polydict[k] = polydict.get(k, 0.0) - v
             loc_terms = [_term.RankOnePolyOpTerm.simple_init(_Polynomial(polydict, mpv), IDENT, IDENT, self._evotype)]
 
         elif order == 1:
-- 
2.43.0


From 931500811dfbb8c31e2c93218d1d2b41a4e19901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 047/195] fix: derivative of 'reldepol'-parameterized
 LindbladErrorgen (coefficients equal the parameter, not its square)

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 75f991d..4d2b8ac 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7743,7 +7743,7 @@ class LindbladErrorgen(LinearOperator):
             elif self.param_mode == "reldepol":  # all coeffs same & == param
                 assert(len(otherParams) == 1), "Should only have 1 non-ham parameter in 'reldepol' case!"
                 #dOdp  = _np.einsum('alj->lj', self.otherGens)[:,:,None]
-                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None] * 2 * otherParams[0]
+                dOdp = _np.sum(_np.transpose(self.otherGens, (1, 2, 0)), axis=2)[:, :, None]
             elif self.param_mode == "cptp":  # (coeffs = params^2)
                 #dOdp  = _np.einsum('alj,a->lja', self.otherGens, 2*otherParams)
                 dOdp = _np.transpose(self.otherGens, (1, 2, 0)) * 2 * otherParams  # just a broadcast
-- 
2.43.0


From 8d01760cdb1567466fe7efb38a6c6a1b6768927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 048/195] fix: second derivatives of LindbladErrorgen in the
 'diag_affine' and 'reldepol' modes (uninitialized entries, wrong shape)

---
 pygsti/objects/operation.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 4d2b8ac..55b99f1 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7841,7 +7841,7 @@ class LindbladErrorgen(LinearOperator):
                 #d2Odp2  = _np.einsum('alj,aq->ljaq', self.otherGens, 2*_np.identity(nP,'d'))
                 d2Odp2 = _np.transpose(self.otherGens, (1, 2, 0))[:, :, :, None] * 2 * _np.identity(nP, 'd')
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == bsO - 1)
+                assert(nP == (1 if self.param_mode == "reldepol" else bsO - 1))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         elif self.nonham_mode == "diag_affine":
@@ -7851,19 +7851,17 @@ class LindbladErrorgen(LinearOperator):
             # Derivative of exponent wrt other param; shape == [d2,d2,nP,nP]
             if self.param_mode == "depol":
                 assert(nP == bsO)  # 1 diag param + (bsO-1) affine params
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
                 #d2Odp2[:,:,0,0]  = _np.einsum('alj->lj', self.otherGens[0]) * 2 # single diagonal term
                 d2Odp2[:, :, 0, 0] = _np.sum(self.otherGens[0], axis=0) * 2  # single diagonal term
-                d2Odp2[:, :, 1:, 1:] = 0  # 2nd deriv wrt. all affine params == 0
             elif self.param_mode == "cptp":
                 assert(nP == 2 * (bsO - 1)); hnP = bsO - 1  # half nP
-                d2Odp2 = _np.empty((d2, d2, nP, nP), 'complex')
+                d2Odp2 = _np.zeros((d2, d2, nP, nP), 'complex')
                 #d2Odp2[:,:,0:hnP,0:hnP] = _np.einsum('alj,aq->ljaq', self.otherGens[0], 2*_np.identity(nP,'d'))
                 d2Odp2[:, :, 0:hnP, 0:hnP] = _np.transpose(self.otherGens[0], (1, 2, 0))[
-                    :, :, :, None] * 2 * _np.identity(nP, 'd')
-                d2Odp2[:, :, hnP:, hnP:] = 0  # 2nd deriv wrt. all affine params == 0
+                    :, :, :, None] * 2 * _np.identity(hnP, 'd')
             else:  # param_mode == "unconstrained" or "reldepol"
-                assert(nP == 2 * (bsO - 1))
+                assert(nP == (bsO if self.param_mode == "reldepol" else 2 * (bsO - 1)))
                 d2Odp2 = _np.zeros([d2, d2, nP, nP], 'd')
 
         else:  # nonham_mode == "all" : all lindblad terms included
-- 
2.43.0


From bee57ea450b0068eee7a6f2b73b9ed3c4444305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 049/195] fix: sparse diagonal LindbladErrorgen without
 Hamiltonian terms failed

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 55b99f1..bafa43f 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -6883,7 +6883,7 @@ class LindbladErrorgen(LinearOperator):
                 if self.sparse:
                     otherGens = [_mt.safereal(_mt.safedot(leftTrans, _mt.safedot(mx, rightTrans)),
                                               inplace=True, check=True) for mx in otherGens]
-                    for mx in hamGens: mx.sort_indices()
+                    for mx in otherGens: mx.sort_indices()
                     # for faster addition ops in _construct_errgen_matrix
                 else:
                     #otherGens = _np.einsum("ik,akl,lj->aij", leftTrans, otherGens, rightTrans)
-- 
2.43.0


From 1062825dbec0137e7bb25d02a146c2f3229dc012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 050/195] fix: LinearOperator.hessian_wrt_params ignored its
 filters

---
 pygsti/objects/operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index bafa43f..816b557 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -910,7 +910,9 @@ class LinearOperator(_modelmember.ModelMember):
             Hessian with shape (dimension^2, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros((self.size, self.num_params(), self.num_params()), 'd')
+            n1 = self.num_params() if wrtFilter1 is None else len(wrtFilter1)
+            n2 = self.num_params() if wrtFilter2 is None else len(wrtFilter2)
+            return _np.zeros((self.size, n1, n2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
-- 
2.43.0


From d743fdd124d31ca1024fdcc31c6f83a1419d697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 051/195] fix: onenorm_upperbound of sparse LindbladErrorgens
 left out the non-Hamiltonian terms

---
 pygsti/objects/operation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 816b557..590ab2d 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7140,6 +7140,7 @@ class LindbladErrorgen(LinearOperator):
             if hamCoeffs is not None:
                 onenorm += _np.dot(self.hamGens_1norms, _np.abs(hamCoeffs))
                 if otherCoeffs is not None:
+                    onenorm += _np.dot(self.otherGens_1norms, _np.abs(otherCoeffs.flat))
                     coeffs = _np.concatenate((hamCoeffs, otherCoeffs.flat), axis=0)
                 else:
                     coeffs = hamCoeffs
-- 
2.43.0


From bf03dace697285588c9dd46798e7ec20c23b45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 052/195] fix: SPAMVec.hessian_wrt_params of vectors linear in
 their parameters failed

---
 pygsti/objects/spamvec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 36fc915..bf40cdd 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -783,7 +783,9 @@ class SPAMVec(_modelmember.ModelMember):
             Hessian with shape (dimension, num_params1, num_params2)
         """
         if not self.has_nonzero_hessian():
-            return _np.zeros(self.size, self.num_params(), self.num_params())
+            n1 = self.num_params() if wrtFilter1 is None else len(wrtFilter1)
+            n2 = self.num_params() if wrtFilter2 is None else len(wrtFilter2)
+            return _np.zeros((self.size, n1, n2), 'd')
 
         # FUTURE: create a finite differencing hessian method?
         raise NotImplementedError("hessian_wrt_params(...) is not implemented for %s objects" % self.__class__.__name__)
-- 
2.43.0


From a0f5066a853343d555894b4b92c9488863143bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 053/195] fix: CPTPSPAMVec.set_value and truncation left the
 state vector out of step with the parameters

---
 pygsti/objects/spamvec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index bf40cdd..4b4f61d 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1437,6 +1437,7 @@ class CPTPSPAMVec(DenseSPAMVec):
         self.Lmx = _np.zeros((self.dmDim, self.dmDim), 'complex')
 
         DenseSPAMVec.__init__(self, vector, "densitymx", "prep")
+        self._construct_vector()  # the (maybe truncated) state given by self.params
 
     def _set_params_from_vector(self, vector, truncate):
         density_mx = _np.dot(self.basis_mxs, vector)
@@ -1537,7 +1538,8 @@ class CPTPSPAMVec(DenseSPAMVec):
         None
         """
         try:
-            self._set_params_from_vector(vec, truncate=False)
+            self._set_params_from_vector(SPAMVec.convert_to_vector(vec), truncate=False)
+            self._construct_vector()
             self.dirty = True
         except AssertionError as e:
             raise ValueError("Error initializing the parameters of this "
-- 
2.43.0


From 01dc80ff77ed7973bec2a7aaf22c74ecdb36c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 054/195] fix: MarginalizedPOVM overwrote effect vectors of the
 POVM it marginalizes

---
 pygsti/objects/povm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 7d976c0..b3a0b4d 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1302,7 +1302,7 @@ class MarginalizedPOVM(POVM):
             for k in self._elements_to_sum[key]:
                 e = self.povm_to_marginalize[k]
                 if effect_vec is None:
-                    effect_vec = e.todense()
+                    effect_vec = _np.array(e.todense())  # a copy, as it is added to below
                 else:
                     effect_vec += e.todense()
             effect = _sv.StaticSPAMVec(effect_vec, self._evotype, 'effect')
-- 
2.43.0


From 111543709bf15b0c5396290018a930afcbc09bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 055/195] fix: effects of a TensorProdPOVM kept stale
 representations after their parameters changed

---
 pygsti/objects/povm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index b3a0b4d..d7e017f 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -798,6 +798,12 @@ class TensorProdPOVM(POVM):
         """
         for povm in self.factorPOVMs:
             povm.from_vector(v[povm.gpindices], close, nodirty)
+        self._update_effect_reps()
+
+    def _update_effect_reps(self):
+        """ Updates the representations of already-created effects after the factors have changed """
+        for effect in _collections.OrderedDict.values(self):
+            effect._update_rep()
 
     def depolarize(self, amount):
         """
@@ -820,7 +826,9 @@ class TensorProdPOVM(POVM):
             povm.depolarize(amount)
 
         #No need to re-init effect vectors since they don't store a (dense)
-        # version of their vector - they just create it from factorPOVMs on demand
+        # version of their vector - they just create it from factorPOVMs on demand.
+        # Only their representations hold data.
+        self._update_effect_reps()
         self.dirty = True
 
     def __str__(self):
-- 
2.43.0


From 7adae26705dd440860040fbb5436347a9147f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 056/195] fix: derivative of tensor-product effects whose
 factor effects use only part of their POVM's parameters

---
 pygsti/objects/spamvec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 4b4f61d..513ea90 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2161,6 +2161,8 @@ class TensorProdSPAMVec(SPAMVec):
             else:  # in effect case, POVM-factors hold global indices (b/c they're meant to be shareable)
                 local_inds = _modelmember._decompose_gpindices(
                     self.gpindices, fct.gpindices)
+                if vec.num_params() < fct.num_params():  # effect only depends on some of the POVM's parameters
+                    local_inds = _slct.as_array(local_inds)[vec.gpindices]
 
             assert(local_inds is not None), \
                 "Error: gpindices has not been initialized for factor %d - cannot compute derivative!" % i
-- 
2.43.0


From 43652ab04667db34f5c439797761013ea7239cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 057/195] fix: second derivatives of TensorProdSPAMVec
 (hessian_wrt_params was missing)

---
 pygsti/objects/spamvec.py | 68 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 513ea90..29c5ac2 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -2184,7 +2184,73 @@ class TensorProdSPAMVec(SPAMVec):
         -------
         bool
         """
-        return False
+        vecs = self.factors if (self._prep_or_effect == "prep") else \
+            [fct[lbl] for fct, lbl in zip(self.factors, self.effectLbls)]
+        return any([vec.has_nonzero_hessian() for vec in vecs])
+
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this SPAM vector with respect to its parameters.
+
+        This function returns a tensor whose first axis corresponds to the
+        flattened operation matrix and whose 2nd and 3rd axes correspond to the
+        parameters that are differentiated with respect to.
+
+        Parameters
+        ----------
+        wrtFilter1, wrtFilter2 : list
+            Lists of indices of the paramters to take first and second
+            derivatives with respect to.  If None, then derivatives are
+            taken with respect to all of the vectors's parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension, num_params1, num_params2)
+        """
+        assert(self._evotype in ("statevec", "densitymx"))
+        typ = complex if self._evotype == "statevec" else 'd'
+        nP = self.num_params()
+        hessianMx = _np.zeros((self.dim, nP, nP), typ)
+
+        if self._prep_or_effect == "prep":
+            vecs = self.factors
+            inds = [_slct.as_array(fct.gpindices) for fct in self.factors]  # factor vectors hold local indices
+        else:
+            vecs = [fct[lbl] for fct, lbl in zip(self.factors, self.effectLbls)]
+            inds = []
+            for fct, vec in zip(self.factors, vecs):
+                local_inds = _slct.as_array(_modelmember._decompose_gpindices(self.gpindices, fct.gpindices))
+                inds.append(local_inds[vec.gpindices] if vec.num_params() < fct.num_params() else local_inds)
+
+        def product(mxs):
+            ret = mxs[0]
+            for mx in mxs[1:]:
+                ret = _np.kron(ret, mx)
+            return ret
+
+        columns = [vec.todense().reshape((vec.dim, 1)) for vec in vecs]
+        derivs = [vec.deriv_wrt_params(None).reshape((vec.dim, vec.num_params())) for vec in vecs]
+        for i, vecA in enumerate(vecs):
+            nA = vecA.num_params()
+            if nA == 0: continue  # no contribution
+            if vecA.has_nonzero_hessian():
+                hess = vecA.hessian_wrt_params(None, None).reshape((vecA.dim, nA * nA))
+                block = product(columns[0:i] + [hess] + columns[i + 1:])
+                hessianMx[:, inds[i][:, None], inds[i][None, :]] += block.reshape((self.dim, nA, nA))
+            for j, vecB in enumerate(vecs[i + 1:], start=i + 1):
+                nB = vecB.num_params()
+                if nB == 0: continue
+                block = product(columns[0:i] + [derivs[i]] + columns[i + 1:j] + [derivs[j]] + columns[j + 1:])
+                block = block.reshape((self.dim, nA, nB))
+                hessianMx[:, inds[i][:, None], inds[j][None, :]] += block
+                hessianMx[:, inds[j][:, None], inds[i][None, :]] += _np.transpose(block, (0, 2, 1))
+
+        if wrtFilter1 is not None:
+            hessianMx = _np.take(hessianMx, wrtFilter1, axis=1)
+        if wrtFilter2 is not None:
+            hessianMx = _np.take(hessianMx, wrtFilter2, axis=2)
+        return hessianMx
 
     def __str__(self):
         s = "Tensor product %s vector with length %d\n" % (self._prep_or_effect, self.dim)
-- 
2.43.0


From 881aee2d34ab583596b42b1d3ebe0cb959746663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 058/195] fix: CPTPSPAMVec could not truncate vectors with
 negative eigenvalues

---
 pygsti/objects/spamvec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 29c5ac2..fc1f00b 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1461,11 +1461,13 @@ class CPTPSPAMVec(DenseSPAMVec):
             "`vec` must correspond to a positive density matrix (truncate == False)!"
 
         pos_evals = evals.clip(1e-16, 1e100)
+        if truncate: pos_evals = pos_evals / _np.sum(pos_evals)  # removing negative eigenvalues changes the trace
         density_mx = _np.dot(U, _np.dot(_np.diag(pos_evals), Ui))
         try:
             Lmx = _np.linalg.cholesky(density_mx)
         except _np.linalg.LinAlgError:  # Lmx not postitive definite?
             pos_evals = evals.clip(1e-12, 1e100)  # try again with 1e-12
+            if truncate: pos_evals = pos_evals / _np.sum(pos_evals)
             density_mx = _np.dot(U, _np.dot(_np.diag(pos_evals), Ui))
             Lmx = _np.linalg.cholesky(density_mx)
 
-- 
2.43.0


From e0c0ace01e8b50a1518d9f77df886d191bb572d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 059/195] fix: ComposedErrorgen.todense and tosparse could
 overwrite the first factor's matrix

---
 pygsti/objects/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 590ab2d..95758e6 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5965,7 +5965,7 @@ class ComposedErrorgen(LinearOperator):
             return _sps.csr_matrix((self.dim, self.dim), dtype='d')
         mx = self.factors[0].tosparse()
         for eg in self.factors[1:]:
-            mx += eg.tosparse()
+            mx = mx + eg.tosparse()  # not in place: mx may be a factor's own matrix
         return mx
 
     def todense(self):
@@ -5974,7 +5974,7 @@ class ComposedErrorgen(LinearOperator):
             return _np.zeros((self.dim, self.dim), 'd')
         mx = self.factors[0].todense()
         for eg in self.factors[1:]:
-            mx += eg.todense()
+            mx = mx + eg.todense()  # not in place: mx may be a factor's own matrix
         return mx
 
     #OLD: UNUSED - now use tosparse/todense
-- 
2.43.0


From 9836bb1844ee050c11af1df557d99016487bbb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 060/195] fix: ComposedErrorgen.hessian_wrt_params of factors
 whose parameters aren't contiguous

---
 pygsti/objects/operation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 95758e6..fcc4693 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5880,7 +5880,8 @@ class ComposedErrorgen(LinearOperator):
             factor_hessian = eg.hessian_wrt_params(None, None)  # do filtering at end
             rel_gpindices = _modelmember._decompose_gpindices(
                 self.gpindices, eg.gpindices)
-            hessianMx[:, rel_gpindices, rel_gpindices] += factor_hessian[:, :, :]
+            rel_inds = _slct.as_array(rel_gpindices)
+            hessianMx[:, rel_inds[:, None], rel_inds[None, :]] += factor_hessian[:, :, :]
 
         if wrtFilter1 is None:
             if wrtFilter2 is None:
-- 
2.43.0


From 39ef2a3f7cee3fa5d8dd0f09cb677741c546f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 061/195] fix: matrix of EmbeddedOps acting on targets of
 unequal dimension

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index fcc4693..137868f 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4952,7 +4952,7 @@ class EmbeddedOp(LinearOperator):
 
     def _iter_matrix_elements_precalc(self):
         divisor = 1; divisors = []
-        for l in self.targetLabels:
+        for l in reversed(self.targetLabels):  # last label varies fastest
             divisors.append(divisor)
             divisor *= self.state_space_labels.labeldims[l]  # e.g. 4 or 2 for qubits (depending on evotype)
 
-- 
2.43.0


From db9bf1f162ef5e6f299e8bf2bad3a93f5cd64be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 062/195] fix: LindbladErrorgen.get_coeffs with both
 return_basis and logscale_nonham failed

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 137868f..cc4f88a 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -7503,7 +7503,7 @@ class LindbladErrorgen(LinearOperator):
             hamC, otherC, self.ham_basis, self.other_basis, self.nonham_mode, return_basis)
 
         if logscale_nonham:
-            Ltermdict = Ltermdict_and_maybe_basis if return_basis else Ltermdict_and_maybe_basis
+            Ltermdict = Ltermdict_and_maybe_basis[0] if return_basis else Ltermdict_and_maybe_basis
             d2 = self.dim
             for k in Ltermdict.keys():
                 if k[0] == "S":  # reverse mapping: err_coeff -> err_rate
-- 
2.43.0


From ab6c41e182f009f4112b0a4b83f348d17db0ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:32 +0000
Subject: [PATCH 063/195] fix: Instrument.from_vector kept the caller's array,
 which later transform calls overwrote

---
 pygsti/objects/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/instrument.py b/pygsti/objects/instrument.py
index c157b22..5db3875 100644
--- a/pygsti/objects/instrument.py
+++ b/pygsti/objects/instrument.py
@@ -257,7 +257,7 @@ class Instrument(_gm.ModelMember, _collections.OrderedDict):
         assert(len(v) == self.num_params())
         for gate in self.values():
             gate.from_vector(v[gate.gpindices], close, nodirty)
-        self._paramvec = v
+        self._paramvec = _np.array(v, 'd')  # a copy: `v` belongs to the caller
 
     def transform(self, S):
         """
-- 
2.43.0


From 7b353d9d5b308a525b8d3939c37d124c7e255e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 064/195] fix: second derivatives of ComposedOp
 (hessian_wrt_params returned zeros)

---
 pygsti/objects/operation.py | 61 +++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index cc4f88a..3076213 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4566,6 +4566,67 @@ class ComposedOp(LinearOperator):
         """
         return any([op.has_nonzero_hessian() for op in self.factorops])
 
+    def hessian_wrt_params(self, wrtFilter1=None, wrtFilter2=None):
+        """
+        Construct the Hessian of this gate with respect to its parameters.
+
+        This function returns a tensor whose first axis corresponds to the
+        flattened operation matrix and whose 2nd and 3rd axes correspond to the
+        parameters that are differentiated with respect to.
+
+        Parameters
+        ----------
+        wrtFilter1, wrtFilter2 : list
+            Lists of indices of the paramters to take first and second
+            derivatives with respect to.  If None, then derivatives are
+            taken with respect to all of the gate's parameters.
+
+        Returns
+        -------
+        numpy array
+            Hessian with shape (dimension^2, num_params1, num_params2)
+        """
+        mxs = [op.todense() for op in self.factorops]
+        nums = [op.num_params() for op in self.factorops]
+        nP = self.num_params()
+        typ = complex if any([_np.iscomplexobj(mx) for mx in mxs]) else 'd'
+        hessianMx = _np.zeros((self.dim, self.dim, nP, nP), typ)
+
+        def product(mxs_to_compose):
+            ret = _np.identity(self.dim, 'd')
+            for mx in mxs_to_compose:
+                ret = _np.dot(mx, ret)
+            return ret
+
+        derivs = [op.deriv_wrt_params(None).reshape((self.dim, self.dim, n)) if n > 0 else None
+                  for op, n in zip(self.factorops, nums)]
+        inds = [_slct.as_array(_modelmember._decompose_gpindices(self.gpindices, op.gpindices)) if n > 0 else None
+                for op, n in zip(self.factorops, nums)]
+
+        for i, op in enumerate(self.factorops):
+            if nums[i] == 0: continue  # no contribution
+            pre = product(mxs[0:i])
+            if op.has_nonzero_hessian():
+                hess = op.hessian_wrt_params(None, None).reshape((self.dim, self.dim, nums[i], nums[i]))
+                hess = _np.tensordot(product(mxs[i + 1:]), hess, (1, 0))
+                hess = _np.transpose(_np.tensordot(hess, pre, (1, 0)), (0, 3, 1, 2))
+                hessianMx[:, :, inds[i][:, None], inds[i][None, :]] += hess
+            right = _np.tensordot(derivs[i], pre, (1, 0))  # axes: row, param of i, column
+            for j in range(i + 1, len(self.factorops)):
+                if nums[j] == 0: continue
+                left = _np.tensordot(product(mxs[j + 1:]), derivs[j], (1, 0))
+                left = _np.tensordot(left, product(mxs[i + 1:j]), (1, 0))  # axes: row, param of j, column
+                block = _np.transpose(_np.tensordot(left, right, (2, 0)), (0, 3, 1, 2))
+                hessianMx[:, :, inds[j][:, None], inds[i][None, :]] += block
+                hessianMx[:, :, inds[i][:, None], inds[j][None, :]] += _np.transpose(block, (0, 1, 3, 2))
+
+        hessianMx = hessianMx.reshape((self.dim**2, nP, nP))
+        if wrtFilter1 is not None:
+            hessianMx = _np.take(hessianMx, wrtFilter1, axis=1)
+        if wrtFilter2 is not None:
+            hessianMx = _np.take(hessianMx, wrtFilter2, axis=2)
+        return hessianMx
+
     def transform(self, S):
         """
         Update operation matrix G with inv(S) * G * S,
-- 
2.43.0


From 89e24f4de2b4429848d01ff39be38b1c25367cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 065/195] fix: ComposedOp.tosparse without factors failed

---
 pygsti/objects/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 3076213..3cb8c5b 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4258,6 +4258,8 @@ class ComposedOp(LinearOperator):
 
     def tosparse(self):
         """ Return the operation as a sparse matrix """
+        if len(self.factorops) == 0:
+            return _sps.identity(self.dim, dtype='d', format='csr')
         mx = self.factorops[0].tosparse()
         for op in self.factorops[1:]:
             mx = op.tosparse().dot(mx)
-- 
2.43.0


From 1cd621d1c08e0a86a84b059f00946a220d3a4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 066/195] fix: compiled representations of embedded operations
 dropped blocks after the active one

---
 pygsti/objects/replib/fastreps.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 33a2b46..cd87fdb 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -429,8 +429,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
@@ -1101,8 +1101,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
@@ -1165,8 +1165,8 @@ namespace CReps {
 	if(i != _iActiveBlock) {
 	  for(j=0; j<_blocksizes[i]; j++) // identity op on this block
 	    outstate_data[offset+j] = state_data[offset+j];
-	  offset += _blocksizes[i];
 	}
+	offset += _blocksizes[i];
       }
     }
 
-- 
2.43.0


From d624eb29febb3541b689554605050701b7d7429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 067/195] fix: adjoint action of compiled compositions of no
 operations read out of bounds

---
 pygsti/objects/replib/fastreps.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index cd87fdb..c1ad421 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -500,6 +500,12 @@ namespace CReps {
     DMStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     DMStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -1236,6 +1242,12 @@ namespace CReps {
     SVStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SVStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Note: same as acton(...) but reverse order of gates and perform adjoint_acton
     //Act with last gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
@@ -2279,6 +2291,12 @@ namespace CReps {
     SBStateCRep *tmp2, *tmp1 = out_state; //tmp1 already alloc'd
     SBStateCRep* t; // for swapping
 
+    //if length is 0 just copy state --> outstate
+    if(nfactors == 0) {
+      out_state->copy_from(state);
+      return out_state;
+    }
+
     //Act with first gate: output in tmp1
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
 
-- 
2.43.0


From 80e8a985fd6126bd0d9bd23ea05c0ff1f31ea8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 068/195] fix: compiled compositions kept their old factors
 when given new ones (wrong when pickled, dangling pointers)

---
 pygsti/objects/replib/fastreplib.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index a54d0a6..2ecf696 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -710,6 +710,7 @@ cdef class DMOpRep_Composed(DMOpRep):
         for i in range(nfactors):
             creps[i] = (<DMOpRep?>new_factor_op_reps[i]).c_gate
         (<DMOpCRep_Composed*>self.c_gate).reinit_factor_op_creps(creps)
+        self.factor_reps = new_factor_op_reps  # holds references to the representations used
 
 
 cdef class DMOpRep_Sum(DMOpRep):
@@ -1073,6 +1074,7 @@ cdef class SVOpRep_Composed(SVOpRep):
         for i in range(nfactors):
             creps[i] = (<SVOpRep?>new_factor_op_reps[i]).c_gate
         (<SVOpCRep_Composed*>self.c_gate).reinit_factor_op_creps(creps)
+        self.factor_reps = new_factor_op_reps  # holds references to the representations used
 
     def __reduce__(self):
         return (SVOpRep_Composed, (self.factor_reps, self.c_gate._dim))
-- 
2.43.0


From 34f74bf52f845ece243fda44320993699f11484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 069/195] fix: ComposedErrorgen.append and remove failed (and
 altered the list given to the constructor)

---
 pygsti/objects/operation.py          |  2 +-
 pygsti/objects/replib/fastreplib.pyx | 20 ++++++++++++++++++++
 pygsti/objects/replib/fastreps.cpp   |  8 ++++++++
 pygsti/objects/replib/fastreps.h     |  2 ++
 pygsti/objects/replib/slowreplib.py  |  6 ++++++
 5 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 3cb8c5b..76bf0ba 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -5633,7 +5633,7 @@ class ComposedErrorgen(LinearOperator):
         """
         assert(len(errgens_to_compose) > 0 or dim != "auto"), \
             "Must compose at least one error generator when dim='auto'!"
-        self.factors = errgens_to_compose
+        self.factors = list(errgens_to_compose)
 
         if dim == "auto":
             dim = errgens_to_compose[0].dim
diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index 2ecf696..f36ef6d 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -125,6 +125,7 @@ cdef extern from "fastreps.h" namespace "CReps":
 
     cdef cppclass DMOpCRep_Sum(DMOpCRep):
         DMOpCRep_Sum(vector[DMOpCRep*], INT) except +
+        void reinit_factor_creps(vector[DMOpCRep*])
         DMStateCRep* acton(DMStateCRep*, DMStateCRep*)
         DMStateCRep* adjoint_acton(DMStateCRep*, DMStateCRep*)
 
@@ -222,6 +223,7 @@ cdef extern from "fastreps.h" namespace "CReps":
 
     cdef cppclass SVOpCRep_Sum(SVOpCRep):
         SVOpCRep_Sum(vector[SVOpCRep*], INT) except +
+        void reinit_factor_creps(vector[SVOpCRep*])
         SVStateCRep* acton(SVStateCRep*, SVStateCRep*)
         SVStateCRep* adjoint_acton(SVStateCRep*, SVStateCRep*)
 
@@ -728,6 +730,15 @@ cdef class DMOpRep_Sum(DMOpRep):
     def __reduce__(self):
         return (DMOpRep_Sum, (self.factor_reps, self.c_gate._dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        cdef INT i
+        cdef INT nfactors = len(new_factor_reps)
+        cdef vector[DMOpCRep*] creps = vector[DMGateCRep_ptr](nfactors)
+        for i in range(nfactors):
+            creps[i] = (<DMOpRep?>new_factor_reps[i]).c_gate
+        (<DMOpCRep_Sum*>self.c_gate).reinit_factor_creps(creps)
+        self.factor_reps = new_factor_reps  # holds references to the representations used
+
 
 cdef class DMOpRep_Exponentiated(DMOpRep):
     cdef public DMOpRep exponentiated_op
@@ -1095,6 +1106,15 @@ cdef class SVOpRep_Sum(SVOpRep):
     def __reduce__(self):
         return (SVOpRep_Sum, (self.factor_reps, self.c_gate._dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        cdef INT i
+        cdef INT nfactors = len(new_factor_reps)
+        cdef vector[SVOpCRep*] creps = vector[SVGateCRep_ptr](nfactors)
+        for i in range(nfactors):
+            creps[i] = (<SVOpRep?>new_factor_reps[i]).c_gate
+        (<SVOpCRep_Sum*>self.c_gate).reinit_factor_creps(creps)
+        self.factor_reps = new_factor_reps  # holds references to the representations used
+
 
 cdef class SVOpRep_Exponentiated(SVOpRep):
     cdef public SVOpRep exponentiated_op
diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index c1ad421..14e8329 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -537,6 +537,10 @@ namespace CReps {
   {
   }
   DMOpCRep_Sum::~DMOpCRep_Sum() { }
+
+  void DMOpCRep_Sum::reinit_factor_creps(std::vector<DMOpCRep*> new_factor_creps) {
+    _factor_creps = new_factor_creps;
+  }
   
   DMStateCRep* DMOpCRep_Sum::acton(DMStateCRep* state, DMStateCRep* out_state) {
 
@@ -1281,6 +1285,10 @@ namespace CReps {
   {
   }
   SVOpCRep_Sum::~SVOpCRep_Sum() { }
+
+  void SVOpCRep_Sum::reinit_factor_creps(std::vector<SVOpCRep*> new_factor_creps) {
+    _factor_creps = new_factor_creps;
+  }
   
   SVStateCRep* SVOpCRep_Sum::acton(SVStateCRep* state, SVStateCRep* out_state) {
 
diff --git a/pygsti/objects/replib/fastreps.h b/pygsti/objects/replib/fastreps.h
index 0450165..f8f22b0 100644
--- a/pygsti/objects/replib/fastreps.h
+++ b/pygsti/objects/replib/fastreps.h
@@ -205,6 +205,7 @@ namespace CReps {
     public:
     std::vector<DMOpCRep*> _factor_creps;
     DMOpCRep_Sum(std::vector<DMOpCRep*> factor_creps, INT dim);
+    void reinit_factor_creps(std::vector<DMOpCRep*> new_factor_creps);
     virtual ~DMOpCRep_Sum();
     virtual DMStateCRep* acton(DMStateCRep* state, DMStateCRep* out_state);
     virtual DMStateCRep* adjoint_acton(DMStateCRep* state, DMStateCRep* out_state);
@@ -372,6 +373,7 @@ namespace CReps {
     public:
     std::vector<SVOpCRep*> _factor_creps;
     SVOpCRep_Sum(std::vector<SVOpCRep*> factor_creps, INT dim);
+    void reinit_factor_creps(std::vector<SVOpCRep*> new_factor_creps);
     virtual ~SVOpCRep_Sum();
     virtual SVStateCRep* acton(SVStateCRep* state, SVStateCRep* out_state);
     virtual SVStateCRep* adjoint_acton(SVStateCRep* state, SVStateCRep* out_state);
diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index 9fe2a41..e170c72 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -410,6 +410,9 @@ class DMOpRep_Sum(DMOpRep):
     def __reduce__(self):
         return (DMOpRep_Sum, (self.factor_reps, self.dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        self.factor_reps = new_factor_reps
+
     def acton(self, state):
         """ Act this gate map on an input state """
         output_state = DMStateRep(_np.zeros(state.base.shape, 'd'))
@@ -849,6 +852,9 @@ class SVOpRep_Sum(SVOpRep):
     def __reduce__(self):
         return (SVOpRep_Sum, (self.factor_reps, self.dim))
 
+    def reinit_factor_reps(self, new_factor_reps):
+        self.factor_reps = new_factor_reps
+
     def acton(self, state):
         """ Act this gate map on an input state """
         output_state = SVStateRep(_np.zeros(state.base.shape, complex))
-- 
2.43.0


From b37598b627cd44549399d596e0c1d5cc8424ffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 070/195] fix: copies of StochasticNoiseOp and DepolarizeOp
 lost the signs of their parameters

---
 pygsti/objects/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index 76bf0ba..f14ede8 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -2205,6 +2205,7 @@ class StochasticNoiseOp(LinearOperator):
             A copy of this object.
         """
         copyOfMe = StochasticNoiseOp(self.dim, self.basis, self._evotype, self._params_to_rates(self.to_vector()))
+        copyOfMe.from_vector(self.to_vector())  # rates don't fix the signs of the parameters
         return self._copy_gpindices(copyOfMe, parent)
 
     #to_dense / to_sparse?
@@ -2483,6 +2484,7 @@ class DepolarizeOp(StochasticNoiseOp):
             A copy of this object.
         """
         copyOfMe = DepolarizeOp(self.dim, self.basis, self._evotype, sum(self._params_to_rates(self.to_vector())))
+        copyOfMe.from_vector(self.to_vector())  # rates don't fix the signs of the parameters
         return self._copy_gpindices(copyOfMe, parent)
 
 
-- 
2.43.0


From 1c5da3d3ebdac0377a9bbb3b48c19744a29d69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 071/195] fix: effects of a LindbladPOVM kept old parameter
 indices (wrong derivatives)

---
 pygsti/objects/povm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index d7e017f..45b0197 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1097,8 +1097,17 @@ class LindbladPOVM(POVM):
         num_new_params = self.error_map.allocate_gpindices(startingIndex, parent, memo)  # *same* parent as this SPAMVec
         _gm.ModelMember.set_gpindices(
             self, self.error_map.gpindices, parent)
+        self._update_effect_gpindices()
         return num_new_params
 
+    def _update_effect_gpindices(self):
+        """ Updates the parameter indices of the effects that have been (lazily) created """
+        for key in self.keys():
+            if _collections.OrderedDict.__contains__(self, key):
+                effect = _collections.OrderedDict.__getitem__(self, key)
+                effect.terms = {}; effect.local_term_poly_coeffs = {}  # cached terms hold parameter indices
+                effect._set_only_my_gpindices(self.error_map.gpindices, self.parent)
+
     def submembers(self):
         """
         Get the ModelMember-derived objects contained in this one.
@@ -1147,6 +1156,7 @@ class LindbladPOVM(POVM):
         self.error_map.set_gpindices(gpindices, parent, memo)
         self.terms = {}  # clear terms cache since param indices have changed now
         _gm.ModelMember._set_only_my_gpindices(self, gpindices, parent)
+        self._update_effect_gpindices()
 
     def simplify_effects(self, prefix=""):
         """
-- 
2.43.0


From e2dd401c5789bd4f685df53b3df9e61ade0262a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 072/195] fix: keep circuits that differ only in their
 preparation apart in matrix evaluation trees

---
 pygsti/objects/matrixevaltree.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pygsti/objects/matrixevaltree.py b/pygsti/objects/matrixevaltree.py
index 40a6d1f..3d9321c 100644
--- a/pygsti/objects/matrixevaltree.py
+++ b/pygsti/objects/matrixevaltree.py
@@ -77,27 +77,29 @@ class MatrixEvalTree(EvalTree):
 
         #Extra processing step - matrix eval tree deals with simple circuits *without* their preps
         # since it's trivial to compute probabilities for different state preps when you have the
-        # process matrix.  The values of the simplified_circuit_list then become lists of *spamtuples*
+        # process matrix.  The values of simplified_circuit_elabels then become lists of *spamtuples*
         # rather than just lists of effect labels.
-        simplified_circuit_list = _collections.OrderedDict()
+        # (circuits which differ only in their prep are kept as separate, duplicate, entries)
+        circuit_list = []
+        self.simplified_circuit_spamTuples = []
         for simple_circuit_with_prep, elabels in simplified_circuit_elabels.items():
             if elabels == [None]:  # special case when there is no prep
-                simplified_circuit_list[simple_circuit_with_prep] = elabels
+                circuit_list.append(tuple(simple_circuit_with_prep))
+                self.simplified_circuit_spamTuples.append(elabels)
             else:
                 rhoLbl = simple_circuit_with_prep[0]  # assume first circuit layer is a prep
                 simple_circuit_no_prep = simple_circuit_with_prep[1:]
-                simplified_circuit_list[simple_circuit_no_prep] = [(rhoLbl, eLbl) for eLbl in elabels]
+                circuit_list.append(tuple(simple_circuit_no_prep))
+                self.simplified_circuit_spamTuples.append([(rhoLbl, eLbl) for eLbl in elabels])
 
         # opLabels : A list of all the length-0 & 1 operation labels to be stored
         #  at the beginning of the tree.  This list must include all the gate
-        #  labels contained in the elements of simplified_circuit_list
+        #  labels contained in the elements of circuit_list
         #  (including a special empty-string sentinel at the beginning).
         self.opLabels = [""] + self._get_opLabels(simplified_circuit_elabels)
         if numSubTreeComms is not None:
             self.distribution['numSubtreeComms'] = numSubTreeComms
 
-        circuit_list = [tuple(mdl) for mdl in simplified_circuit_list.keys()]
-        self.simplified_circuit_spamTuples = list(simplified_circuit_list.values())
         self.simplified_circuit_nEls = list(map(len, self.simplified_circuit_spamTuples))
         self.num_final_els = sum([len(v) for v in self.simplified_circuit_spamTuples])
         #self._compute_finalStringToEls() #depends on simplified_circuit_spamTuples
-- 
2.43.0


From 3896a4610eb408a6f2184c45fd443e84a6243a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 073/195] fix: allocate only the filtered columns in
 ForwardSimulator.bulk_dprobs

---
 pygsti/objects/forwardsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 4f2a925..0e69162 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -350,7 +350,7 @@ class ForwardSimulator(object):
             (so values are just `dp`).
         """
         nElements = evalTree.num_final_elements()
-        nDerivCols = self.Np
+        nDerivCols = self.Np if (wrtFilter is None) else len(wrtFilter)
 
         vdp = _np.empty((nElements, nDerivCols), 'd')
         vp = _np.empty(nElements, 'd') if returnPr else None
-- 
2.43.0


From 05c12c940fa868a26cdf2c5ce0bb680909f5f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 074/195] fix: honor both parameter filters in
 ForwardSimulator.bulk_hprobs

---
 pygsti/objects/forwardsim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/forwardsim.py b/pygsti/objects/forwardsim.py
index 0e69162..1af9ecc 100644
--- a/pygsti/objects/forwardsim.py
+++ b/pygsti/objects/forwardsim.py
@@ -452,14 +452,15 @@ class ForwardSimulator(object):
             else len(wrtFilter2)
 
         vhp = _np.empty((nElements, nDerivCols1, nDerivCols2), 'd')
-        vdp1 = _np.empty((nElements, self.Np), 'd') \
+        vdp1 = _np.empty((nElements, nDerivCols1), 'd') \
             if returnDeriv else None
-        vdp2 = vdp1.copy() if (returnDeriv and wrtFilter1 != wrtFilter2) else None
+        vdp2 = _np.empty((nElements, nDerivCols2), 'd') \
+            if (returnDeriv and wrtFilter1 != wrtFilter2) else None
         vp = _np.empty(nElements, 'd') if returnPr else None
 
         self.bulk_fill_hprobs(vhp, evalTree,
                               vp, vdp1, vdp2, clipTo, check, comm,
-                              wrtFilter1, wrtFilter1, wrtBlockSize1, wrtBlockSize2)
+                              wrtFilter1, wrtFilter2, wrtBlockSize1, wrtBlockSize2)
 
         ret = _collections.OrderedDict()
         for i, opstr in enumerate(circuits):
-- 
2.43.0


From b6571d650af218032f98826faaa1984818913ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 075/195] fix: MatrixForwardSimulator.dpr and hpr with
 parameter indices that are not a slice

---
 pygsti/objects/matrixforwardsim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index fb20e15..8fb0622 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -660,13 +660,13 @@ class MatrixForwardSimulator(ForwardSimulator):
         derivWrtAnyRhovec = scale * _np.dot(E, prod)
         dpr_drhos = _np.zeros((1, self.Np))
         _fas(dpr_drhos, [0, self.sos.get_prep(rholabel).gpindices],
-             _np.dot(derivWrtAnyRhovec, rhoVec.deriv_wrt_params()))  # may overflow, but OK
+             _np.dot(derivWrtAnyRhovec, rhoVec.deriv_wrt_params())[0])  # may overflow, but OK
 
         dpr_dEs = _np.zeros((1, self.Np))
         derivWrtAnyEvec = scale * _np.transpose(_np.dot(prod, rho))  # may overflow, but OK
         # (** doesn't depend on eIndex **) -- TODO: should also conjugate() here if complex?
         _fas(dpr_dEs, [0, EVec.gpindices],
-             _np.dot(derivWrtAnyEvec, EVec.deriv_wrt_params()))
+             _np.dot(derivWrtAnyEvec, EVec.deriv_wrt_params())[0])
 
         _np.seterr(**old_err)
 
@@ -756,12 +756,12 @@ class MatrixForwardSimulator(ForwardSimulator):
             dpr_drhos = _np.zeros((1, self.Np))
             derivWrtAnyRhovec = scale * _np.dot(E, prod)
             _fas(dpr_drhos, [0, self.sos.get_prep(rholabel).gpindices],
-                 _np.dot(derivWrtAnyRhovec, rhoVec.deriv_wrt_params()))  # may overflow, but OK
+                 _np.dot(derivWrtAnyRhovec, rhoVec.deriv_wrt_params())[0])  # may overflow, but OK
 
             dpr_dEs = _np.zeros((1, self.Np))
             derivWrtAnyEvec = scale * _np.transpose(_np.dot(prod, rho))  # may overflow, but OK
             _fas(dpr_dEs, [0, EVec.gpindices],
-                 _np.dot(derivWrtAnyEvec, EVec.deriv_wrt_params()))
+                 _np.dot(derivWrtAnyEvec, EVec.deriv_wrt_params())[0])
 
             dpr = dpr_drhos + dpr_dEs + dpr_dOps
 
@@ -785,7 +785,7 @@ class MatrixForwardSimulator(ForwardSimulator):
             derivWrtAnyRhovec = scale * _np.dot(E, prod)  # may overflow, but OK
             d2pr_d2rhos = _np.zeros((1, self.Np, self.Np))
             _fas(d2pr_d2rhos, [0, self.sos.get_prep(rholabel).gpindices, self.sos.get_prep(rholabel).gpindices],
-                 _np.tensordot(derivWrtAnyRhovec, self.sos.get_prep(rholabel).hessian_wrt_params(), (1, 0)))
+                 _np.tensordot(derivWrtAnyRhovec, self.sos.get_prep(rholabel).hessian_wrt_params(), (1, 0))[0])
             # _np.einsum('ij,jkl->ikl', derivWrtAnyRhovec, self.sos.get_prep(rholabel).hessian_wrt_params())
         else:
             d2pr_d2rhos = 0
@@ -794,7 +794,7 @@ class MatrixForwardSimulator(ForwardSimulator):
             derivWrtAnyEvec = scale * _np.transpose(_np.dot(prod, rho))  # may overflow, but OK
             d2pr_d2Es = _np.zeros((1, self.Np, self.Np))
             _fas(d2pr_d2Es, [0, self.sos.get_effect(elabel).gpindices, self.sos.get_effect(elabel).gpindices],
-                 _np.tensordot(derivWrtAnyEvec, self.sos.get_effect(elabel).hessian_wrt_params(), (1, 0)))
+                 _np.tensordot(derivWrtAnyEvec, self.sos.get_effect(elabel).hessian_wrt_params(), (1, 0))[0])
             # _np.einsum('ij,jkl->ikl',derivWrtAnyEvec,self.sos.get_effect(elabel).hessian_wrt_params())
         else:
             d2pr_d2Es = 0
-- 
2.43.0


From f28452841a02edda11b6f985eb1890136c7c64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 076/195] fix: column filters and non-slice parameter indices
 in MatrixForwardSimulator.hproduct

---
 pygsti/objects/matrixforwardsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/matrixforwardsim.py b/pygsti/objects/matrixforwardsim.py
index 8fb0622..a82ae68 100644
--- a/pygsti/objects/matrixforwardsim.py
+++ b/pygsti/objects/matrixforwardsim.py
@@ -463,7 +463,7 @@ class MatrixForwardSimulator(ForwardSimulator):
             if nDerivCols1 == 0: continue
 
             for l, opLabel2 in enumerate(revOpLabelList):
-                inds2 = gpindices1[opLabel2]
+                inds2 = gpindices2[opLabel2]
                 #nDerivCols2 = dop_dopLabel2[opLabel2].shape[1]
 
                 # FUTURE: we could add logic that accounts for the symmetry of the Hessian, so that
@@ -476,7 +476,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     xv.shape = (nDerivCols1, dim, dim)  # (reshape without copying - throws error if copy is needed)
                     y = _np.dot(_np.kron(xv, _np.transpose(prods[(l + 1, N - 1)])), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
                 elif l < m:
@@ -488,7 +488,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                     y = _np.dot(_np.kron(prods[(0, l - 1)], xv), dop_dopLabel2[opLabel2])
                     # above: (nDerivCols1,dim**2,dim**2) * (dim**2,nDerivCols2) = (nDerivCols1,dim**2,nDerivCols2)
 
-                    flattened_d2prod[:, inds1, inds2] += _np.swapaxes(y, 0, 1)
+                    _fas(flattened_d2prod, [None, inds1, inds2], _np.swapaxes(y, 0, 1), add=True)
                     # above: dim = (dim2, nDerivCols1, nDerivCols2);
                     # swapaxes takes (kl,vec_prod_indx,ij) => (vec_prod_indx,kl,ij)
 
@@ -501,7 +501,7 @@ class MatrixForwardSimulator(ForwardSimulator):
                         # (nDerivCols1,nDerivCols2,dim**2)
                         x = _np.dot(_np.transpose(hop_dopLabels[opLabel1], axes=(1, 2, 0)), x0); xv = x.view()
                         xv = _np.transpose(xv, axes=(2, 0, 1))  # (dim2, nDerivCols1, nDerivCols2)
-                        flattened_d2prod[:, inds1, inds2] += xv
+                        _fas(flattened_d2prod, [None, inds1, inds2], xv, add=True)
 
         if flat:
             return flattened_d2prod  # axes = (vectorized_op_el_index, model_parameter1, model_parameter2)
-- 
2.43.0


From 17740bf3a8983e737f8cc329bff57ee71fb8aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 077/195] fix: EvalTree.copy of split trees

---
 pygsti/objects/evaltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/evaltree.py b/pygsti/objects/evaltree.py
index 3be65a7..174b3f4 100644
--- a/pygsti/objects/evaltree.py
+++ b/pygsti/objects/evaltree.py
@@ -127,7 +127,8 @@ class EvalTree(list):
         newTree.parentIndexMap = self.parentIndexMap[:] \
             if (self.parentIndexMap is not None) else None
         newTree.subTrees = [st.copy() for st in self.subTrees]
-        newTree.original_index_lookup = self.original_index_lookup[:] \
+        newTree.distribution = self.distribution.copy()
+        newTree.original_index_lookup = self.original_index_lookup.copy() \
             if (self.original_index_lookup is not None) else None
         newTree.simplified_circuit_nEls = self.simplified_circuit_nEls[:]
         return newTree
-- 
2.43.0


From 4603a69e7e3e4bd10a88578d7605db638b5e5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 078/195] fix: split evaluation trees of circuits whose
 elements don't stay contiguous

A circuit with instruments expands into several simplified circuits, which a
split may separate: bulk_evaltree(..., minSubtrees=2) raised 'List does not
correspond to a slice!'. Keep the element indices as an array then, as the
unsplit case does.
---
 pygsti/objects/evaltree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/evaltree.py b/pygsti/objects/evaltree.py
index 174b3f4..ca097b4 100644
--- a/pygsti/objects/evaltree.py
+++ b/pygsti/objects/evaltree.py
@@ -684,7 +684,8 @@ class EvalTree(list):
         for ky, indices in element_indices.items():
             updated_elIndices[ky] = _slct.list_to_slice(
                 [permute_oldToNew[x] for x in
-                 (_slct.indices(indices) if isinstance(indices, slice) else indices)])
+                 (_slct.indices(indices) if isinstance(indices, slice) else indices)],
+                array_ok=True)  # b/c a circuit with instruments expands to several, which may be separated
 
         # Now update simplified_circuit_Xs
         updated_simplified_circuit_Xs = [simplified_circuit_Xs[iCur]
-- 
2.43.0


From 45d42aa77a1109fce7f9e372d2cc585382a7e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 079/195] fix: TPInstrumentOp.from_vector doesn't rely on the
 order of elements

An element only set some of the parameterized operations it depends on and
assumed lower-index elements had set the others.  Calculators go through their
cached operations in another order, so elements were computed from stale
parameters: derivatives of the map simulator were wrong for circuits with a
TPInstrument.
---
 pygsti/objects/operation.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index f14ede8..b4487a3 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4062,18 +4062,15 @@ class TPInstrumentOp(DenseOperator):
         -------
         None
         """
-        #Rely on the Instrument ordering of it's elements: if we're being called
-        # to init from v then this is within the context of a TPInstrument's gates
-        # having been simplified and now being initialized from a vector (within a
-        # calculator).  We rely on the Instrument elements having their
-        # from_vector() methods called in self.index order.
-
-        if self.index < len(self.param_ops) - 1:  # final element doesn't need to init any param gates
-            for i in self.dependents:  # re-init all my dependents (may be redundant)
-                if i == 0 and self.index > 0: continue  # 0th param-gate already init by index==0 element
-                paramop_local_inds = _modelmember._decompose_gpindices(
-                    self.gpindices, self.param_ops[i].gpindices)
-                self.param_ops[i].from_vector(v[paramop_local_inds], close, nodirty)
+        #If we're being called to init from v then this is within the context of a
+        # TPInstrument's gates having been simplified and now being initialized from
+        # a vector (within a calculator).  Elements may be initialized in any order
+        # (and some not at all), so re-init all my dependents (may be redundant).
+
+        for i in self.dependents:
+            paramop_local_inds = _modelmember._decompose_gpindices(
+                self.gpindices, self.param_ops[i].gpindices)
+            self.param_ops[i].from_vector(v[paramop_local_inds], close, nodirty)
 
         self._construct_matrix()
 
-- 
2.43.0


From 185f4e9154b56df7650dd3581532ad46a63d036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 080/195] fix: _findx and _fas accept numpy integers wherever
 integers are

---
 pygsti/tools/matrixtools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 234ecdd..50d53da 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -946,7 +946,7 @@ def _fas(a, inds, rhs, add=False):
     # index-list index is fine too.  The case we need to
     # deal with is indexing a multi-dimensional array with
     # one or more index-lists
-    if all([isinstance(i, (int, slice)) for i in inds]) or len(inds) == 1:
+    if all([isinstance(i, (int, _np.int64, slice)) for i in inds]) or len(inds) == 1:
         if add:
             a[inds] += rhs  # all integers or slices behave nicely
         else:
@@ -1065,14 +1065,14 @@ def _findx(a, inds, always_copy=False):
     # index-list index is fine too.  The case we need to
     # deal with is indexing a multi-dimensional array with
     # one or more index-lists
-    if all([isinstance(i, (int, slice)) for i in inds]) or len(inds) == 1:
+    if all([isinstance(i, (int, _np.int64, slice)) for i in inds]) or len(inds) == 1:
         return a[inds].copy() if always_copy else a[inds]  # all integers or slices behave nicely
 
     else:
         #Need to copy to a new array
         b = []; squeeze = []
         for ii, i in enumerate(inds):
-            if isinstance(i, int):
+            if isinstance(i, (int, _np.int64)):
                 b.append([i]); squeeze.append(ii)  # squeeze ii-th dimension at end
             elif isinstance(i, slice):
                 b.append(list(range(*i.indices(a.shape[ii]))))
-- 
2.43.0


From 08c837ef5712308f8de6dee08f2618cd90d9fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 081/195] fix: nullspace and nullspace_qr of complex matrices

The vectors returned were the conjugates of null vectors.
---
 pygsti/tools/matrixtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 50d53da..db07049 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -189,7 +189,7 @@ def nullspace(m, tol=1e-7):
     """
     _, s, vh = _np.linalg.svd(m)
     rank = (s > tol).sum()
-    return vh[rank:].T.copy()
+    return vh[rank:].conj().T.copy()
 
 
 def nullspace_qr(m, tol=1e-7):
@@ -213,7 +213,7 @@ def nullspace_qr(m, tol=1e-7):
     """
     #if M,N = m.shape, and q,r,p = _spl.qr(...)
     # q.shape == (N,N), r.shape = (N,M), p.shape = (M,)
-    q, r, _ = _spl.qr(m.T, mode='full', pivoting=True)
+    q, r, _ = _spl.qr(m.conj().T, mode='full', pivoting=True)
     rank = (_np.abs(_np.diagonal(r)) > tol).sum()
 
     #DEBUG: requires q,r,p = _sql.qr(...) above
-- 
2.43.0


From 07d47d29691bc678c0715d7a80297bf227079635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 082/195] fix: minweight_match_realmxeigs passes metricfn
 indices into its own arguments

With pass_indices_to_metricfn=True it passed indices into sub-lists of them.
---
 pygsti/tools/matrixtools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index db07049..bf654ed 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -913,10 +913,13 @@ def minweight_match_realmxeigs(a, b, metricfn=None,
     # real-pair -> conj-pair sub-optimally (i.e. there might be muliple
     # such conversions and we just choose one at random).
 
-    _, pairs1 = minweight_match(a[a_real], b[b_real], metricfn, True,
-                                pass_indices_to_metricfn)
-    _, pairs2 = minweight_match(a[a_reps], b[b_reps], metricfn, True,
-                                pass_indices_to_metricfn)
+    def match(a_inds, b_inds):
+        if pass_indices_to_metricfn:  # metricfn expects indices into a & b
+            return minweight_match(a_inds, b_inds, metricfn, True)
+        return minweight_match(a[a_inds], b[b_inds], metricfn, True)
+
+    _, pairs1 = match(a_real, b_real)
+    _, pairs2 = match(a_reps, b_reps)
 
     #pair1 gives matching of real values, pairs2 gives that of conj pairs.
     # Now just need to assemble a master pairs list to return.
-- 
2.43.0


From 7f03188b01e80f5c5d5e57e96d4e605c51cbbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 083/195] fix: sparse_equal with explicitly stored zeros or
 duplicate entries

---
 pygsti/objects/basis.py     | 5 +++++
 pygsti/tools/matrixtools.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 5b35002..270b655 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -33,6 +33,11 @@ def _sparse_equal(A, B, atol=1e-8):
     if _np.array_equal(A.shape, B.shape) == 0:
         return False
 
+    A, B = A.tocsr(copy=True), B.tocsr(copy=True)
+    for mx in (A, B):  # so that .data holds exactly the non-zero elements
+        mx.sum_duplicates()
+        mx.eliminate_zeros()
+
     r1, c1 = A.nonzero()
     r2, c2 = B.nonzero()
 
diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index bf654ed..11ddf2f 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -1539,6 +1539,11 @@ def sparse_equal(A, B, atol=1e-8):
     if _np.array_equal(A.shape, B.shape) == 0:
         return False
 
+    A, B = A.tocsr(copy=True), B.tocsr(copy=True)
+    for mx in (A, B):  # so that .data holds exactly the non-zero elements
+        mx.sum_duplicates()
+        mx.eliminate_zeros()
+
     r1, c1 = A.nonzero()
     r2, c2 = B.nonzero()
 
-- 
2.43.0


From f1e9264e40bb6e187a9872b6b1156e96eabb887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 084/195] fix: expm_multiply_fast passes the index type its
 compiled core takes

---
 pygsti/tools/matrixtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 11ddf2f..7c1fc8a 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -1441,7 +1441,8 @@ if _fastcalc is None:
 else:
     def expm_multiply_fast(prepA, v, tol=EXPM_DEFAULT_TOL):
         A, mu, m_star, s, eta = prepA
-        return _fastcalc.custom_expm_multiply_simple_core(A.data, A.indptr, A.indices,
+        return _fastcalc.custom_expm_multiply_simple_core(A.data, _np.ascontiguousarray(A.indptr, _np.int64),
+                                                          _np.ascontiguousarray(A.indices, _np.int64),
                                                           v, mu, m_star, s, tol, eta)
 
 
-- 
2.43.0


From 8a490a1dc232236d119984c329e1c6e74e6d1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 085/195] fix: decompose_gate_matrix compares eigenvectors and
 eigenvalues, not their indices, to find the fixed point

---
 pygsti/tools/optools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index f905852..d7aa406 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -901,7 +901,8 @@ def decompose_gate_matrix(operationMx):
             iToBreak = None
             if abs(_np.imag(op_evals[conjpair_eval_indices[0][0]])) < TOL and \
                abs(_np.imag(op_evals[conjpair_eval_indices[1][0]])) < TOL:
-                iToBreak = _np.argmax([_np.real(conjpair_eval_indices[0][0]), _np.real(conjpair_eval_indices[1][0])])
+                iToBreak = _np.argmax([_np.real(op_evals[conjpair_eval_indices[0][0]]),
+                                       _np.real(op_evals[conjpair_eval_indices[1][0]])])
             elif abs(_np.imag(op_evals[conjpair_eval_indices[0][0]])) < TOL: iToBreak = 0
             elif abs(_np.imag(op_evals[conjpair_eval_indices[1][0]])) < TOL: iToBreak = 1
 
@@ -939,8 +940,8 @@ def decompose_gate_matrix(operationMx):
             #iFixedPt = real_eval_indices[ _np.argmax( [ op_evals[i] for i in real_eval_indices ] ) ]
 
             # ...OR take eigenvector corresponding to a real unpaired eigenvalue closest to identity:
-            idmx = _np.array([[1], [0], [0], [0]], 'd')  # identity density mx
-            iFixedPt = real_eval_indices[_np.argmin([_np.linalg.norm(op_evecs[i] - idmx) for i in real_eval_indices])]
+            # (eigenvectors have unit norm and arbitrary sign)
+            iFixedPt = real_eval_indices[_np.argmax([abs(op_evecs[0, i]) for i in real_eval_indices])]
 
         else:
             #No unit or real eigenvalues => two complex conjugate pairs or unpaired complex evals --> bail out
-- 
2.43.0


From 2bec4ae9ba9e564f1ae18a752a6c24345d4078ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 086/195] fix: fidelity of rank-deficient states is accurate

scipy's sqrtm of a singular matrix is off by up to 1e-3.
---
 pygsti/tools/optools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygsti/tools/optools.py b/pygsti/tools/optools.py
index d7aa406..de2c404 100644
--- a/pygsti/tools/optools.py
+++ b/pygsti/tools/optools.py
@@ -39,6 +39,11 @@ def _flat_mut_blks(i, j, blockDims):
 
 
 def _hack_sqrtm(A):
+    if _np.linalg.norm(A - A.conj().T) <= 1e-10 * max(1.0, _np.linalg.norm(A)):
+        # sqrtm is inaccurate for rank-deficient matrices, so use the eigen-decomposition of Hermitian ones
+        ev, U = _np.linalg.eigh(A)
+        return _np.dot(U * _np.sqrt(ev.astype('complex')), U.conj().T)
+
     sqrt, _ = _spl.sqrtm(A, disp=False)  # Travis found this scipy function
     # to be incorrect in certain cases (we need a workaround)
     if _np.any(_np.isnan(sqrt)):  # this is sometimes a good fallback when sqrtm doesn't work.
-- 
2.43.0


From cfeee91ab3af8add885a898ed37fa426d5d853a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 087/195] fix: gate_dependence_of_errormaps finds norm1to1
 where it is defined

---
 pygsti/tools/rbtheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/rbtheory.py b/pygsti/tools/rbtheory.py
index da4dc6f..7a2d2b8 100644
--- a/pygsti/tools/rbtheory.py
+++ b/pygsti/tools/rbtheory.py
@@ -781,7 +781,7 @@ def gate_dependence_of_errormaps(mdl, target_model, norm='diamond', mxBasis=None
                                             mxBasis=mxBasis))
         elif norm == '1to1':
             gate_dif = error_gs.operations[gate] - error_gs.operations['Gavg']
-            delta.append(_optls.norm1to1(gate_dif, n_samples=1000, mxBasis=mxBasis, return_list=False))
+            delta.append(_mtls.norm1to1(gate_dif, n_samples=1000, mxBasis=mxBasis, return_list=False))
         else:
             raise ValueError("Only diamond or 1to1 norm available.")
 
-- 
2.43.0


From c429c98f8bc59dd17f42d7f9af0c7b6987b0fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 088/195] fix: expm_multiply_fast leaves its vector argument
 unchanged

---
 pygsti/tools/matrixtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/matrixtools.py b/pygsti/tools/matrixtools.py
index 7c1fc8a..3af1fa2 100644
--- a/pygsti/tools/matrixtools.py
+++ b/pygsti/tools/matrixtools.py
@@ -1443,7 +1443,7 @@ else:
         A, mu, m_star, s, eta = prepA
         return _fastcalc.custom_expm_multiply_simple_core(A.data, _np.ascontiguousarray(A.indptr, _np.int64),
                                                           _np.ascontiguousarray(A.indices, _np.int64),
-                                                          v, mu, m_star, s, tol, eta)
+                                                          v.copy(), mu, m_star, s, tol, eta)  # modifies its argument
 
 
 def _custom_expm_multiply_simple_core(A, B, mu, m_star, s, tol, eta):  # t == 1.0 replaced below
-- 
2.43.0


From 4772c7bb1a64505bd25930b21067fe04406d0697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 089/195] fix: gauge transformations of Lindblad-parameterized
 states and measurements keep predictions

---
 pygsti/objects/povm.py    |  9 +++++++--
 pygsti/objects/spamvec.py | 24 ++++++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/povm.py b/pygsti/objects/povm.py
index 45b0197..d2d6f42 100644
--- a/pygsti/objects/povm.py
+++ b/pygsti/objects/povm.py
@@ -1236,8 +1236,13 @@ class LindbladPOVM(POVM):
             A gauge group element which specifies the "S" matrix
             (and it's inverse) used in the above similarity transform.
         """
-        for lbl, effect in self.items():
-            effect.transform(S, 'effect')
+        if self._evotype != "densitymx":
+            raise ValueError("Cannot transform a LindbladPOVM with evotype %s" % self._evotype)
+        effects = list(self.items())
+        self.error_map.transform(S)  # shared by all the effects, so must be transformed just once
+        for _, effect in effects:
+            effect._transform_state_vec(S, 'effect')
+        self.base_povm = UnconstrainedPOVM([(lbl, effect.state_vec) for lbl, effect in effects])
         self.dirty = True
 
     def __str__(self):
diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index fc1f00b..90e32c3 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -3236,14 +3236,26 @@ class LindbladSPAMVec(SPAMVec):
         typ : { 'prep', 'effect' }
             Which type of SPAM vector is being transformed (see above).
         """
-        #Defer everything to LindbladOp's
-        # `spam_tranform` function, which applies either
-        # error_map -> inv(S) * error_map ("prep" case) OR
-        # error_map -> error_map * S      ("effect" case)
-        self.error_map.spam_transform(S, typ)
-        self._update_rep()
+        if self._evotype != "densitymx":
+            raise ValueError("Cannot transform a LindbladSPAMVec with evotype %s" % self._evotype)
+        # inv(S) * error_map * rho == (inv(S) * error_map * S) * (inv(S) * rho)      ("prep" case) and
+        # E^T * error_map * S      == (E^T * S) * (inv(S) * error_map * S)           ("effect" case)
+        self.error_map.transform(S)  # raises ValueError when this isn't possible
+        self._transform_state_vec(S, typ)
         self.dirty = True
 
+    def _transform_state_vec(self, S, typ):
+        """ Transform just the (parameter-less) vector that the error map acts on """
+        assert(typ == self._prep_or_effect), "Invalid typ argument: %s" % typ
+        if typ == 'prep':
+            newvec = _np.dot(S.get_transform_matrix_inverse(), self.state_vec.todense())
+            self.state_vec = StaticSPAMVec(newvec, self._evotype, typ)  # (may be shared with copies of self)
+            self._update_rep()
+        else:
+            newvec = _np.dot(_np.transpose(S.get_transform_matrix()), self.state_vec.todense())
+            self.state_vec = StaticSPAMVec(newvec, self._evotype, typ)
+            self._rep = replib.DMEffectRep_Errgen(self.error_map._rep, self.state_vec._rep, id(self.error_map))
+
     def depolarize(self, amount):
         """
         Depolarize this SPAM vector by the given `amount`.
-- 
2.43.0


From 601e2fef1c9dbeb1ff26f1963dc8e49de607cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 090/195] fix: transform repeated factors of composed
 operations just once

---
 pygsti/objects/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index b4487a3..c670b86 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4647,7 +4647,7 @@ class ComposedOp(LinearOperator):
             A gauge group element which specifies the "S" matrix
             (and it's inverse) used in the above similarity transform.
         """
-        for gate in self.factorops:
+        for gate in {id(gate): gate for gate in self.factorops}.values():  # a repeated factor just once
             gate.transform(S)
 
     def __str__(self):
@@ -6251,7 +6251,7 @@ class ComposedErrorgen(LinearOperator):
             A gauge group element which specifies the "S" matrix
             (and it's inverse) used in the above similarity transform.
         """
-        for eg in self.factors:
+        for eg in {id(eg): eg for eg in self.factors}.values():  # a repeated factor just once
             eg.transform(S)
 
     def onenorm_upperbound(self):
-- 
2.43.0


From b6035173468f22d0f5eb32f26f7f5f61bd1bff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 091/195] fix: Jacobian of the gauge optimization objective
 weighs items as the objective does

---
 pygsti/algorithms/gaugeopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/algorithms/gaugeopt.py b/pygsti/algorithms/gaugeopt.py
index 7a678af..6f6f3d7 100644
--- a/pygsti/algorithms/gaugeopt.py
+++ b/pygsti/algorithms/gaugeopt.py
@@ -410,7 +410,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, G in mdl_pre.operations.items():
                 # d(op_term) = S_inv * (-dS * S_inv * G * S + G * dS) = S_inv * (-dS * G' + G * dS)
                 #   Note: (S_inv * G * S) is G' (transformed G)
-                wt = itemWeights.get(lbl, opWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, opWeight))
                 left = -1 * _np.dot(dS, mdl_post.operations[lbl].todense())  # shape (n,d1,d2)
                 right = _np.swapaxes(_np.dot(G.todense(), dS), 0, 1)  # shape (d1, n, d2) -> (n,d1,d2)
                 result = _np.swapaxes(_np.dot(S_inv, left + right), 1, 2)  # shape (d1, d2, n)
@@ -421,7 +421,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             # -- Instrument terms
             # -------------------------
             for ilbl, Inst in mdl_pre.instruments.items():
-                wt = itemWeights.get(ilbl, opWeight)
+                wt = _np.sqrt(itemWeights.get(ilbl, opWeight))
                 for lbl, G in Inst.items():
                     # same calculation as for operation terms
                     left = -1 * _np.dot(dS, mdl_post.instruments[ilbl][lbl].todense())  # shape (n,d1,d2)
@@ -436,7 +436,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for lbl, rho in mdl_post.preps.items():
                 # d(rho_term) = -(S_inv * dS * S_inv) * rho
                 #   Note: (S_inv * rho) is transformed rho
-                wt = itemWeights.get(lbl, spamWeight)
+                wt = _np.sqrt(itemWeights.get(lbl, spamWeight))
                 Sinv_dS = _np.dot(S_inv, dS)  # shape (d1,n,d2)
                 result = -1 * _np.dot(Sinv_dS, rho.todense())  # shape (d,n)
                 my_jacMx[start:start + d] = wt * result
@@ -447,7 +447,7 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
             for povmlbl, povm in mdl_pre.povms.items():
                 for lbl, E in povm.items():
                     # d(ET_term) = E.T * dS
-                    wt = itemWeights.get(povmlbl + "_" + lbl, spamWeight)
+                    wt = _np.sqrt(itemWeights.get(povmlbl + "_" + lbl, spamWeight))
                     result = _np.dot(E.todense()[None, :], dS).T  # shape (1,n,d2).T => (d2,n,1)
                     my_jacMx[start:start + d] = wt * result.squeeze(2)  # (d2,n)
                     start += d
-- 
2.43.0


From 98b422cf274edcd84c55ac27e8365817a8fbd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 092/195] fix: gauge optimization with spamMetric fidelity or
 tracedist of any kind of state

---
 pygsti/algorithms/gaugeopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/algorithms/gaugeopt.py b/pygsti/algorithms/gaugeopt.py
index 6f6f3d7..28f4bf3 100644
--- a/pygsti/algorithms/gaugeopt.py
+++ b/pygsti/algorithms/gaugeopt.py
@@ -530,9 +530,9 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
                 elif spamMetric == "fidelity":
                     for preplabel, prep in mdl.preps.items():
                         wt = itemWeights.get(preplabel, spamWeight)
-                        rhoMx1 = _tools.vec_to_stdmx(prep, mxBasis)
+                        rhoMx1 = _tools.vec_to_stdmx(prep.todense(), mxBasis)
                         rhoMx2 = _tools.vec_to_stdmx(
-                            targetModel.preps[preplabel], mxBasis)
+                            targetModel.preps[preplabel].todense(), mxBasis)
                         ret += wt * (1.0 - _tools.fidelity(rhoMx1, rhoMx2))**2
 
                     for povmlabel, povm in mdl.povms.items():
@@ -543,9 +543,9 @@ def _create_objective_fn(model, targetModel, itemWeights=None,
                 elif spamMetric == "tracedist":
                     for preplabel, prep in mdl.preps.items():
                         wt = itemWeights.get(preplabel, spamWeight)
-                        rhoMx1 = _tools.vec_to_stdmx(prep, mxBasis)
+                        rhoMx1 = _tools.vec_to_stdmx(prep.todense(), mxBasis)
                         rhoMx2 = _tools.vec_to_stdmx(
-                            targetModel.preps[preplabel], mxBasis)
+                            targetModel.preps[preplabel].todense(), mxBasis)
                         ret += wt * _tools.tracedist(rhoMx1, rhoMx2)
 
                     for povmlabel, povm in mdl.povms.items():
-- 
2.43.0


From 5c779cd66ac49ea673c3c9c343a9a6a77a86a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 093/195] fix: mapping line labels and renaming keep the time
 and arguments of labels

---
 pygsti/objects/label.py | 68 ++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 2f2b3ed..00a3862 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -281,11 +281,12 @@ class LabelTup(Label, tuple):
         -------
         Label
         """
+        if self.sslbls is None: return self  # acts on everything, whatever its name
         if isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
             mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
-        return Label(self.name, mapped_sslbls)
+        return Label(self.name, mapped_sslbls, self.time)
 
     #OLD
     #def __iter__(self):
@@ -319,7 +320,7 @@ class LabelTup(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTup(self.name + s, self.sslbls)
+            return Label(self.name + s, self.sslbls, self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -358,7 +359,7 @@ class LabelTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTup(newname, self.sslbls) if (self.name == oldname) else self
+        return Label(newname, self.sslbls, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -447,6 +448,25 @@ class LabelStr(Label, str):
         """
         return self.startswith(prefix)
 
+    def map_state_space_labels(self, mapper):
+        """
+        Return a copy of this Label with all of the state-space-labels
+        (often just qubit labels) updated according to a mapping function.
+        Since this label has no state-space-labels, it is left unchanged.
+
+        Parameters
+        ----------
+        mapper : dict or function
+            A dictionary whose keys are the existing state-space-label values
+            and whose value are the new labels, or a function which takes a
+            single (existing label) argument and returns a new label.
+
+        Returns
+        -------
+        Label
+        """
+        return self
+
     def __str__(self):
         s = self[:]  # converts to a normal str
         if self.time != 0.0:
@@ -458,7 +478,7 @@ class LabelStr(Label, str):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelStr(self.name + str(s))
+            return LabelStr(self.name + str(s), self.time)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -491,7 +511,7 @@ class LabelStr(Label, str):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelStr(newname) if (self.name == oldname) else self
+        return LabelStr(newname, self.time) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -611,7 +631,7 @@ class LabelTupTup(Label, tuple):
         -------
         Label
         """
-        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)))
+        return LabelTupTup(tuple((lbl.map_state_space_labels(mapper) for lbl in self)), self.time)
 
     def __str__(self):
         """
@@ -664,7 +684,7 @@ class LabelTupTup(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)))
+        return LabelTupTup(tuple((x.replacename(oldname, newname) for x in self)), self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -826,14 +846,16 @@ class CircuitLabel(Label, tuple):
         -------
         Label
         """
-        if isinstance(mapper, dict):
-            mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
+        if self.sslbls is None:
+            mapped_sslbls = None
+        elif isinstance(mapper, dict):
+            mapped_sslbls = tuple([mapper[sslbl] for sslbl in self.sslbls])
         else:  # assume mapper is callable
-            mapped_sslbls = [mapper(sslbl) for sslbl in self.sslbls]
+            mapped_sslbls = tuple([mapper(sslbl) for sslbl in self.sslbls])
         return CircuitLabel(self.name,
                             tuple((lbl.map_state_space_labels(mapper) for lbl in self.components)),
                             mapped_sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def __str__(self):
         """
@@ -900,7 +922,7 @@ class CircuitLabel(Label, tuple):
         return CircuitLabel(self.name,
                             tuple((x.replacename(oldname, newname) for x in self.components)),
                             self.sslbls,
-                            self[2])
+                            self[2], self.time)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1065,6 +1087,7 @@ class LabelTupWithArgs(Label, tuple):
         -------
         Label
         """
+        if self.sslbls is None: return self  # acts on everything, whatever its name
         if isinstance(mapper, dict):
             mapped_sslbls = [mapper[sslbl] for sslbl in self.sslbls]
         else:  # assume mapper is callable
@@ -1093,7 +1116,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def __add__(self, s):
         if isinstance(s, str):
-            return LabelTupWithArgs(self.name + s, self.sslbls, self.time, self.args)
+            return Label(self.name + s, self.sslbls, self.time, self.args)
         else:
             raise NotImplementedError("Cannot add %s to a Label" % str(type(s)))
 
@@ -1132,7 +1155,7 @@ class LabelTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupWithArgs(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
+        return Label(newname, self.sslbls, self.time, self.args) if (self.name == oldname) else self
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
@@ -1171,15 +1194,16 @@ class LabelTupTupWithArgs(Label, tuple):
         """
         assert(time is None or isinstance(time, float)), "`time` must be a floating point value, received: " + str(time)
         assert(len(args) > 0), "`args` must be a nonempty list/tuple of hashable arguments"
-        tupOfLabels = (1 + len(args),) + args + tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
+        labels = tuple((Label(tup) for tup in tupOfTups))  # Note tup can be a Label
+        tupOfLabels = (1 + len(args),) + tuple(args) + labels
         # stores: (K, args, subLabels) where K is the index of the start of subLabels
 
         #if time is not None:
         #    assert(all([(time == l.time or l.time is None) for l in tupOfLabels[1 + len(args):]])), \
         #        "Component times do not match compound label time!"
         if time is None:
-            time = 0.0 if len(tupOfLabels) == 0 else \
-                max([lbl.time for lbl in tupOfLabels])
+            time = 0.0 if len(labels) == 0 else \
+                max([lbl.time for lbl in labels])
         return cls.__new__(cls, tupOfLabels, time)
 
     def __new__(cls, tupOfLabels, time=0.0):
@@ -1264,8 +1288,8 @@ class LabelTupTupWithArgs(Label, tuple):
         -------
         Label
         """
-        return LabelTupTupWithArgs(tuple((lbl.map_state_space_labels(mapper)
-                                          for lbl in self.components)), self.time, self.args)
+        return LabelTupTupWithArgs.init(tuple((lbl.map_state_space_labels(mapper)
+                                               for lbl in self.components)), self.time, self.args)
 
     def __str__(self):
         """
@@ -1281,7 +1305,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self]) + argstr + timestr + "]"
+        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -1328,8 +1352,8 @@ class LabelTupTupWithArgs(Label, tuple):
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-        return LabelTupTupWithArgs(tuple((x.replacename(oldname, newname) for x in self.components)),
-                                   self.time, self.args)
+        return LabelTupTupWithArgs.init(tuple((x.replacename(oldname, newname) for x in self.components)),
+                                        self.time, self.args)
 
     def issimple(self):
         """ Whether this is a "simple" (opaque w/a true name, from a
-- 
2.43.0


From 5abd0fe41bfae9c5744c98fdcb1d94409184fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 094/195] fix: expanding sub-circuits of parallel layers

---
 pygsti/objects/label.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 00a3862..ea27b17 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -710,6 +710,8 @@ class LabelTupTup(Label, tuple):
         """
         ret = []
         expanded_comps = [x.expand_subcircuits() for x in self.components]
+        if all([len(ec) == 1 and ec[0] is x for ec, x in zip(expanded_comps, self.components)]):
+            return (self,)  # nothing to expand
 
         #DEBUG TODO REMOVE
         #print("DB: expaned comps:")
@@ -722,7 +724,7 @@ class LabelTupTup(Label, tuple):
                 if i < len(expanded_comp):
                     ec.extend(expanded_comp[i].components)  # .components = vertical expansion
             #assert(len(ec) > 0), "Logic error!" #this is ok (e.g. an idle subcircuit)
-            ret.append(LabelTupTup.init(ec))
+            ret.append(Label(ec))  # a lone component is a layer by itself
         return tuple(ret)
 
     __hash__ = tuple.__hash__  # this is why we derive from tuple - using the
-- 
2.43.0


From 768bebc1822e1931a84a987fa2ac51caf5f8ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 095/195] fix: filter_circuit keeps arguments and names the new
 lines

---
 pygsti/construction/circuitconstruction.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 2b1aa2d..110964b 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -809,7 +809,7 @@ def filter_circuits(circuits, sslbls_to_keep, new_sslbls=None, drop=False, idle=
         ret = []
         for s in circuits:
             fs = filter_circuit(s, sslbls_to_keep, new_sslbls, idle)
-            if len(fs) > 0 or len(s) == 0: ret.append(fs)
+            if fs is not None and (len(fs) > 0 or len(s) == 0): ret.append(fs)
         return ret
     else:  # drop == False (the easy case)
         return [filter_circuit(s, sslbls_to_keep, new_sslbls, idle) for s in circuits]
@@ -854,14 +854,12 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
     lbls = []
     for lbl in circuit:
         sublbls = []; pintersect = False  # btwn lbl's sslbls & to-keep
-        for sublbl in lbl.components:
+        for sublbl in ((lbl,) if lbl.issimple() else lbl.components):
             if sublbl.sslbls is None \
                or set(sublbl.sslbls).issubset(sslbls_to_keep):  # then keep this comp
 
                 if sslbl_map:  # update state space labels
-                    new_sslbls = None if (sublbl.sslbls is None) else \
-                        tuple((sslbl_map[x] for x in sublbl.sslbls))
-                    sublbls.append(_Lbl(sublbl.name, new_sslbls))
+                    sublbls.append(sublbl.map_state_space_labels(sslbl_map))
                 else:  # leave labels as-is
                     sublbls.append(sublbl)
 
@@ -885,4 +883,4 @@ def filter_circuit(circuit, sslbls_to_keep, new_sslbls=None, idle=()):
             # is just an idle: add idle placeholder.
             if idle is not None: lbls.append(_Lbl(idle))
 
-    return _cir.Circuit(lbls, line_labels=sslbls_to_keep)
+    return _cir.Circuit(lbls, line_labels=sslbls_to_keep if (new_sslbls is None) else new_sslbls)
-- 
2.43.0


From d7c1237b2d1d8ec2a608b0fe11d0b1b2067c5d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 096/195] fix: editable circuits keep arguments, times and
 sub-circuits of their labels

---
 pygsti/objects/circuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 1925499..6646c6c 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -97,7 +97,10 @@ def _label_to_nested_lists_of_simple_labels(lbl, default_sslbls=None, always_ret
         lbl = _Label(lbl)  # e.g. a string or list/tuple of labels, etc.
     if lbl.issimple():  # a *simple* label - the elements of our lists
         if lbl.sslbls is None and default_sslbls is not None:
-            lbl = _Label(lbl.name, default_sslbls)
+            if isinstance(lbl, _CircuitLabel):
+                lbl = _CircuitLabel(lbl.name, lbl.components, tuple(default_sslbls), lbl.reps, lbl.time)
+            else:
+                lbl = _Label(lbl.name, default_sslbls, lbl.time, lbl.args)
         return [lbl] if always_return_list else lbl
     return [_label_to_nested_lists_of_simple_labels(l, default_sslbls, False)
             for l in lbl.components]  # a *list*
@@ -349,7 +352,8 @@ class Circuit(object):
             self._labels = layer_labels_objs
         else:
             self._labels = [_label_to_nested_lists_of_simple_labels(layer_lbl)
-                            for layer_lbl in layer_labels]
+                            for layer_lbl in (layer_labels_objs if expand_subcircuits and layer_labels_objs is not None
+                                              else layer_labels)]
 
         #Set self._static, _reps, _name
         self._static = not editable
-- 
2.43.0


From 5aa75bf017cf25e4e5854a95c015c83856670027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 097/195] fix: line labels of read-only circuits change neither
 content nor hash

---
 pygsti/objects/circuit.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 6646c6c..ae49954 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -411,11 +411,12 @@ class Circuit(object):
         if removed_line_labels:
             idling_line_labels = set(self.get_idling_lines())
             removed_not_idling = removed_line_labels - idling_line_labels
-            if removed_not_idling and self._static:
-                raise ValueError("Cannot remove non-idling lines %s from a read-only circuit!" %
-                                 str(removed_not_idling))
-            else:
+            if removed_not_idling:
+                if self._static:
+                    raise ValueError("Cannot remove non-idling lines %s from a read-only circuit!" %
+                                     str(removed_not_idling))
                 self.delete_lines(tuple(removed_not_idling))
+        if self._static: self._str = None  # because it contains the line labels
         self._line_labels = tuple(value)
 
     @property
@@ -997,8 +998,7 @@ class Circuit(object):
         -------
         None
         """
-        #assert(not self._static),"Cannot edit a read-only circuit!"
-        # Actually, this is OK even for static circuits because it won't affect the hashed value (labels only)
+        assert(not self._static), "Cannot edit a read-only circuit!"
         if insertBefore is None:
             i = len(self.line_labels)
         else:
@@ -1972,7 +1972,7 @@ class Circuit(object):
         -------
         None
         """
-        # OK even for static circuits because it won't affect the hashed value (labels only)
+        assert(not self._static), "Cannot edit a read-only circuit!"
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
 
@@ -2054,9 +2054,8 @@ class Circuit(object):
         -------
         None
         """
-        #assert(not self._static),"Cannot edit a read-only circuit!"
-        # Actually, this is OK even for static circuits because it won't affect the hashed value (labels only)
 
+        assert(not self._static), "Cannot edit a read-only circuit!"
         if idle_layer_labels:
             assert(all([toLabel(x).sslbls is None for x in idle_layer_labels])), "Idle layer labels must be *global*"
 
-- 
2.43.0


From ccfaf0238bcf7d372e264fc038dcff022e7a3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 098/195] fix: `in` looks for a label in layers that are a
 single label

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index ae49954..2932c82 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -502,7 +502,7 @@ class Circuit(object):
 
     def __contains__(self, x):
         """Note: this is not covered by __iter__ for case of contained CircuitLabels """
-        return any([(x == layer or x in layer) for layer in self._labels])
+        return any([(x == layer or x in layer.components) for layer in self.layertup])
 
     def __add__(self, x):
         if not isinstance(x, Circuit):
-- 
2.43.0


From 27445beb516cc8447e18711c18789713138dbe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 099/195] fix: sum of circuits when one has unnamed lines

---
 pygsti/objects/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 2932c82..394095a 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -518,8 +518,10 @@ class Circuit(object):
             else: s = xstr
 
         editable = not self._static or not x._static
-        added_labels = tuple([l for l in x.line_labels if l not in self.line_labels])
-        new_line_labels = self.line_labels + added_labels
+        # '*' stands for unnamed lines, so it gives way to any names
+        my_labels, x_labels = [() if (c.line_labels == ('*',)) else c.line_labels for c in (self, x)]
+        new_line_labels = my_labels + tuple([l for l in x_labels if l not in my_labels])
+        if len(new_line_labels) == 0: new_line_labels = self.line_labels or x.line_labels
         if new_line_labels != ('*',):
             s += "@(" + ','.join(map(str, new_line_labels)) + ")"  # matches to _opSeqToStr in circuit.py!
         return Circuit(self.layertup + x.layertup, new_line_labels,
-- 
2.43.0


From a264977e9c664bff4f885abdd3df4750521408d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 100/195] fix: Circuit.repeat(expand=False) keeps the
 sub-circuit

---
 pygsti/objects/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 394095a..a245191 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -538,7 +538,8 @@ class Circuit(object):
             s += "@" + mylines  # add line labels
         if ntimes > 1 and expand is False:
             reppedCircuitLbl = self.as_label(nreps=ntimes)
-            return Circuit((reppedCircuitLbl,), self.line_labels, None, not self._static, s, check=False)
+            return Circuit((reppedCircuitLbl,), self.line_labels, None, not self._static, s, check=False,
+                           expand_subcircuits=False)
         else:
             # just adds parens to string rep & copies
             return Circuit(self.layertup * ntimes, self.line_labels, None, not self._static, s, check=False)
-- 
2.43.0


From 7f4ae28d97babedef28e0cc939ff0adf753ae1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 101/195] fix: slices of layers and lines mean what Python
 slices mean

---
 pygsti/objects/circuit.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index a245191..ebb78fb 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -602,10 +602,7 @@ class Circuit(object):
         if layers is None:
             layers = list(range(len(self._labels)))
         elif isinstance(layers, slice):
-            if layers.start is None and layers.stop is None:
-                layers = ()
-            else:
-                layers = _slct.indices(layers, len(self._labels))
+            layers = list(range(*layers.indices(len(self._labels))))
         elif not isinstance(layers, (list, tuple)):
             layers = (layers,)
         return layers
@@ -616,7 +613,7 @@ class Circuit(object):
             lines = self.line_labels
         elif isinstance(lines, slice):
             if lines.start is None and lines.stop is None:
-                lines = ()
+                lines = self.line_labels
             else:
                 lines = _slct.indices(lines)
         elif not isinstance(lines, (list, tuple)):
@@ -626,7 +623,7 @@ class Circuit(object):
     def _proc_key_arg(self, key):
         """ Pre-process the key argument used by many methods """
         if isinstance(key, tuple):
-            if len(key) != 2: return IndexError("Index must be of the form <layerIndex>,<lineIndex>")
+            if len(key) != 2: raise IndexError("Index must be of the form <layerIndex>,<lineIndex>")
             layers = key[0]
             lines = key[1]
         else:
@@ -724,7 +721,7 @@ class Circuit(object):
             set `layers` to a slice or tuple containing just a single index.
         """
 
-        nonint_layers = not isinstance(layers, int)
+        nonint_layers = not _compat.isint(layers)
         layers = self._proc_layers_arg(layers)
         lines = self._proc_lines_arg(lines)
         if len(layers) == 0 or len(lines) == 0:
@@ -802,7 +799,7 @@ class Circuit(object):
 
         #Convert layers to a list/tuple of layer indices
         all_layers = bool(layers is None)  # whether we're assigning to *all* layers
-        int_layers = isinstance(layers, int)
+        int_layers = _compat.isint(layers)
         layers = self._proc_layers_arg(layers)
 
         #Convert lines to a list/tuple of line (state space) labels
-- 
2.43.0


From 77a61ec9ac16c826bc07f60872e53b9c4d01b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 102/195] fix: get_labels(strict=False) leaves out labels off
 the requested lines

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index ebb78fb..2a0c8e4 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -746,7 +746,7 @@ class Circuit(object):
                 else:
                     sslbls = set(sslbls)
                 if (strict and sslbls.issubset(lines)) or \
-                   (not strict and len(sslbls.intersection(lines)) >= 0):
+                   (not strict and len(sslbls.intersection(lines)) > 0):
                     ret_layer.append(l)
             ret.append(ret_layer)
 
-- 
2.43.0


From 1aaaab99b9fde778530ddbd46d352966066e0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 103/195] fix: set_labels checks widths and lines for any
 number of layers

---
 pygsti/objects/circuit.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 2a0c8e4..a337274 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -813,7 +813,6 @@ class Circuit(object):
             if isinstance(lbls, Circuit):  # special case: "box" a circuit assigned to a single layer
                 lbls = lbls.as_label()     # converts Circuit => CircuitLabel
             lbls = toLabel(lbls)
-            lbls_sslbls = None if (lbls.sslbls is None) else set(lbls.sslbls)
         else:
             if isinstance(lbls, Circuit):
                 assert(set(lbls.line_labels).issubset(self.line_labels)), \
@@ -824,31 +823,30 @@ class Circuit(object):
                 ("When assigning to a layer range (even w/len=1) `lbls` "
                  "must be  a *list or tuple* of label-like items")
             lbls = tuple(map(toLabel, lbls))
-            lbls_sslbls = None if any([l.sslbls is None for l in lbls]) \
-                else set(_itertools.chain(*[l.sslbls for l in lbls]))
 
-        if len(layers) == 0 or len(lines) == 0: return  # zero-area block
+            #If we're assigning to multiple layers, then divide up lbls into pieces to place in each layer
+            if all_layers:  # then we'll add new layers as needed
+                while len(lbls) > len(self._labels):
+                    self._labels.append([])
+                layers = self._proc_layers_arg(None)
+            else:
+                assert(len(layers) == len(lbls)), \
+                    "Block width mismatch: assigning %d layers to %d layers" % (len(lbls), len(layers))
 
-        #If we're assigning to multiple layers, then divide up lbls into pieces to place in each layer
-        if all_layers:  # then we'll add new layers as needed
-            while len(lbls) > len(self._labels):
-                self._labels.append([])
-        elif len(layers) > 1:
-            assert(len(layers) == len(lbls)), \
-                "Block width mismatch: assigning %d layers to %d layers" % (len(lbls), len(layers))
+        if len(layers) == 0 or (len(lines) == 0 and not all_lines): return  # zero-area block
+        lbls_sslbls = _accumulate_explicit_sslbls([lbls] if int_layers else lbls)
 
         # when processing `lbls`: if a label has sslbls == None, then applies to all
         # the lines being assigned.  If sslbl != None, then the labels must be
         # contained within the line labels being assigned (unless we're allowed to expand)
-        if lbls_sslbls is not None:
-            new_line_labels = set(lbls_sslbls) - set(self.line_labels)
-            if all_lines:  # then allow new lines to be added
-                if len(new_line_labels) > 0:
-                    self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
-            else:
-                assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
-                assert(set(lbls_sslbls).issubset(lines)), \
-                    "Unallowed state space labels: %s" % str(set(lbls_sslbls) - set(lines))
+        new_line_labels = lbls_sslbls - set(self.line_labels)
+        if all_lines:  # then allow new lines to be added
+            if len(new_line_labels) > 0:
+                self._line_labels = self.line_labels + tuple(sorted(new_line_labels))  # sort?
+        else:
+            assert(len(new_line_labels) == 0), "Cannot add new lines %s" % str(new_line_labels)
+            assert(lbls_sslbls.issubset(lines)), \
+                "Unallowed state space labels: %s" % str(lbls_sslbls - set(lines))
 
         assert(set(lines).issubset(self.line_labels)), \
             ("Specified lines (%s) must be a subset of this circuit's lines"
-- 
2.43.0


From ada28f7040ad7d836f45637c380e75cc1c193db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 104/195] fix: insert_idling_layers on some lines shifts all
 the later layers

---
 pygsti/objects/circuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index a337274..82f74ff 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -894,26 +894,29 @@ class Circuit(object):
         if insertBefore is None: insertBefore = len(self._labels)
         elif insertBefore < 0: insertBefore = len(self._labels) + insertBefore
 
+        if numToInsert == 0: return  # nothing to do
+
         if lines is None:  # insert complete layers
             for i in range(numToInsert):
                 self._labels.insert(insertBefore, [])
         else:  # insert layers only on given lines - shift existing labels to right
             for i in range(numToInsert):
                 self._labels.append([])  # add blank layers at end
-            for i in range(insertBefore, insertBefore + numToInsert):
+            for i in reversed(range(insertBefore, len(self._labels) - numToInsert)):
                 # move labels on `lines` to layer i+numToInsert
                 inds_to_delete = []
-                for k, lbl in enumerate(self._labels[i]):
+                for k, lbl in enumerate(self._layer_components(i)):
                     sslbls = _sslbls_of_nested_lists_of_simple_labels(lbl)
+                    sslbls = set(self.line_labels) if (sslbls is None) else set(sslbls)
                     if len(sslbls.intersection(lines)) > 0:  # then we need to move this label
                         if not sslbls.issubset(lines):
-                            raise ValueError("Cannot shift a block that is straddled by %s!" % _Label(lbl))
+                            raise ValueError("Cannot shift a block that is straddled by %s!" % str(_Label(lbl)))
                             #FUTURE: recover from this error gracefully so we don't leave the circuit in an intermediate
                             #state?
                         inds_to_delete.append(k)  # remove it from current layer
                         self._labels[i + numToInsert].append(lbl)  # and put it in the destination layer
                 for k in reversed(inds_to_delete):
-                    del self._labels[i][k]
+                    self._remove_layer_component(i, k)
 
     def append_idling_layers(self, numToInsert, lines=None):
         """
@@ -1199,7 +1202,7 @@ class Circuit(object):
                     new_layer.append(l)
                 elif not delete_straddlers and not set(sslbls).issubset(lines):
                     raise ValueError(("Cannot remove a block that is straddled by "
-                                      "%s when `delete_straddlers` == False!") % _Label(l))
+                                      "%s when `delete_straddlers` == False!") % str(_Label(l)))
             self._labels[i] = new_layer
         self._line_labels = tuple([x for x in self.line_labels if x not in lines])
 
-- 
2.43.0


From c84f5fb86508de611fd4a300230d09d8d10d4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 105/195] fix: inserting labels into layers at None or negative
 positions

---
 pygsti/objects/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 82f74ff..602dbd0 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -977,6 +977,8 @@ class Circuit(object):
         # lbls is expected to be a list/tuple of Label-like items, one per inserted layer
         lbls = tuple(map(toLabel, lbls))
         numLayersToInsert = len(lbls)
+        if layerToInsertBefore is None: layerToInsertBefore = len(self._labels)
+        elif layerToInsertBefore < 0: layerToInsertBefore = len(self._labels) + layerToInsertBefore
         self.insert_idling_layers(layerToInsertBefore, numLayersToInsert, lines)  # make space
         self.set_labels(lbls, slice(layerToInsertBefore, layerToInsertBefore + numLayersToInsert), lines)
         #Note: set_labels expects lbls to be a list/tuple of Label-like items b/c it's given a layer *slice*
@@ -1622,6 +1624,7 @@ class Circuit(object):
         -------
         None
         """
+        if j < 0: j = len(self._labels) + j
         del self[j]
         self.insert_labels_into_layers(circuit, j)
 
-- 
2.43.0


From 6987614a155b6122cd4d7907e4c13f0f1d5dfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 106/195] fix: insert_labels_as_lines and tensor_circuit of
 circuits

---
 pygsti/objects/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 602dbd0..14e8404 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1063,7 +1063,7 @@ class Circuit(object):
 
         if isinstance(lbls, Circuit):
             if line_labels == "auto": line_labels = lbls.line_labels
-            lbls = lbls.tup
+            lbls = lbls.layertup
         elif line_labels == "auto":
             line_labels = tuple(sorted(_accumulate_explicit_sslbls(lbls)))
 
@@ -1600,7 +1600,7 @@ class Circuit(object):
             if len(extra) > 0:
                 raise ValueError("`line_order` had nonpresent line labels %s." % str(extra))
 
-            new_line_labels = line_order
+            new_line_labels = tuple(line_order)
         else:
             new_line_labels = self.line_labels + circuit.line_labels
 
-- 
2.43.0


From 853efb4bdb5b01b9ae1d73a6bb9781218fc691c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 107/195] fix: serialize and parallelize keep sub-circuits and
 the order of gates

---
 pygsti/objects/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 14e8404..4d0ef2f 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1302,7 +1302,7 @@ class Circuit(object):
         for lbl in self.layertup:
             if len(lbl.components) == 0:  # special case of an empty-layer label,
                 serial_lbls.append(lbl)  # which we serialize as an atomic object
-            for c in lbl.components:
+            for c in ((lbl,) if lbl.issimple() else lbl.components):
                 serial_lbls.append(c)
         return Circuit(serial_lbls, self.line_labels, editable=False, check=False)
 
@@ -1341,7 +1341,7 @@ class Circuit(object):
         first_free = {'*': 0}
         for lbl in self.layertup:
             if can_break_labels:  # then process label components individually
-                for c in lbl.components:
+                for c in ((lbl,) if lbl.issimple() else lbl.components):
                     if c.sslbls is None:  # ~= acts on *all* sslbls
                         pos = max(list(first_free.values()))
                         #first position where all sslbls are free
@@ -1357,7 +1357,7 @@ class Circuit(object):
 
                     #update first_free
                     if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                        for k in first_free: first_free[k] = pos
+                        for k in first_free: first_free[k] = max(first_free[k], pos)
                     if c.sslbls is None:
                         for k in first_free: first_free[k] = pos + 1  # includes '*'
                     else:
@@ -1375,12 +1375,12 @@ class Circuit(object):
 
                 if len(parallel_lbls) < pos + 1: parallel_lbls.append([])
                 assert(pos < len(parallel_lbls))
-                for c in lbl.components:  # add *all* components of lbl in proper place
+                for c in ((lbl,) if lbl.issimple() else lbl.components):  # add *all* components of lbl in proper place
                     parallel_lbls[pos].append(c)
 
                 #update first_free
                 if adjacent_only:  # all labels/components following this one must at least be at 'pos'
-                    for k in first_free: first_free[k] = pos
+                    for k in first_free: first_free[k] = max(first_free[k], pos)
                 if lbl.sslbls is None:
                     for k in first_free: first_free[k] = pos + 1  # includes '*'
                 else:
-- 
2.43.0


From 57a2273129e484016bec3bcf5a4aa86a23f1a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 108/195] fix: expanding and factorizing sub-circuits of
 editable circuits

---
 pygsti/objects/circuit.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 4d0ef2f..58bb91e 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1404,20 +1404,17 @@ class Circuit(object):
         #Iterate in reverse so we don't have to deal with
         # added layers.
         for i in reversed(range(len(self._labels))):
-            circuits_to_expand = []
-            layers_to_add = 0
-
-            for l in self._layer_components(i):  # loop over labels in this layer
-                if isinstance(l, _CircuitLabel):
-                    circuits_to_expand.append(l)
-                    layers_to_add = max(layers_to_add, l.depth() - 1)
+            circuits_to_expand = [l for l in self._layer_components(i) if isinstance(l, _CircuitLabel)]
+            expansions = [subc.expand_subcircuits() for subc in circuits_to_expand]  # *all* levels of sub-circuits
+            layers_to_add = max([len(layers) - 1 for layers in expansions], default=0)
 
             if layers_to_add > 0:
                 self.insert_idling_layers(i + 1, layers_to_add)
-            for subc in circuits_to_expand:
-                self.clear_labels(slice(i, i + subc.depth()), subc.sslbls)  # remove the CircuitLabel
-                self.set_labels(subc.components * subc.reps, slice(i, i + subc.depth()),
-                                subc.sslbls)  # dump in the contents
+            for subc, layers in zip(circuits_to_expand, expansions):
+                self._remove_layer_component(i, self._layer_components(i).index(subc))  # remove the CircuitLabel
+                for k, layer in enumerate(layers):  # dump in the contents
+                    for lbl in _label_to_nested_lists_of_simple_labels(layer, subc.sslbls):
+                        self._append_layer_component(i + k, lbl)
 
     def factorize_repetitions(self):
         """
@@ -1448,7 +1445,7 @@ class Circuit(object):
             #Construct a sub-circuit label that repeats layer[iStart] nreps times
             # and stick it at layer iStart
             #print("Constructing %d reps at %d" % (nreps, iStart))
-            repCircuit = _CircuitLabel('', self._labels[iStart], None, nreps)
+            repCircuit = _CircuitLabel('', (toLabel(self._labels[iStart]),), None, nreps)
             self.clear_labels(iStart, None)  # remove existing labels (unnecessary?)
             self.set_labels(repCircuit, iStart, None)
             iLayersToRemove.extend(list(range(iStart + 1, iEnd)))
-- 
2.43.0


From 110a2cb67308c4e58eac40d54beb72136c506019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 109/195] fix: renaming and mapping gates in place keeps
 arguments and times, and takes functions

---
 pygsti/objects/circuit.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 58bb91e..a5d3d42 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1648,9 +1648,7 @@ class Circuit(object):
 
         def replace(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.name == old_gatename:
-                    newobj = _Label(new_gatename, obj.sslbls)
-                else: newobj = obj
+                newobj = obj.replacename(old_gatename, new_gatename)
             else:
                 newobj = [replace(sub) for sub in obj]
             return newobj
@@ -1887,13 +1885,16 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(gatename): return mapper.get(gatename, None) \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(gatename)
 
         def map_names(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                if obj.issimple():  # *simple* label
+                if isinstance(obj, _CircuitLabel):  # map the names within the sub-circuit
+                    newobj = _CircuitLabel(obj.name, tuple([map_names(comp) for comp in obj.components]),
+                                           obj.sslbls, obj.reps, obj.time)
+                elif obj.issimple():  # *simple* label
                     new_name = mapper_func(obj.name)
-                    newobj = _Label(new_name, obj.sslbls) \
+                    newobj = obj.replacename(obj.name, new_name) \
                         if (new_name is not None) else obj
                 else:  # compound label
                     newobj = _Label([map_names(comp) for comp in obj.components])
@@ -1922,15 +1923,13 @@ class Circuit(object):
 
         # If the mapper is a dict, turn it into a function
         def mapper_func(line_label): return mapper[line_label] \
-            if isinstance(mapper, dict) else mapper
+            if isinstance(mapper, dict) else mapper(line_label)
 
         self._line_labels = tuple((mapper_func(l) for l in self.line_labels))
 
         def map_sslbls(obj):  # obj is either a simple label or a list
             if isinstance(obj, _Label):
-                new_sslbls = [mapper_func(l) for l in obj.sslbls] \
-                    if (obj.sslbls is not None) else None
-                newobj = _Label(obj.name, new_sslbls)
+                newobj = obj.map_state_space_labels(mapper_func)
             else:
                 newobj = [map_sslbls(sub) for sub in obj]
             return newobj
-- 
2.43.0


From 7a7daa019e104a44c4642f5e2a80bbf98009409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 110/195] fix: replace_layers_with_aliases replaces each
 matching layer once

---
 pygsti/objects/circuit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index a5d3d42..fd47d67 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1732,9 +1732,8 @@ class Circuit(object):
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = cpy._labels
             for label, c in alias_dict.items():
-                while label in layers:
-                    i = layers.index(label)
-                    layers = layers[:i] + c._labels + layers[i + 1:]
+                label = toLabel(label)
+                layers = tuple(_itertools.chain(*[(c._labels if (lbl == label) else (lbl,)) for lbl in layers]))
             return Circuit(layers, self.line_labels)
 
         else:  # static case: so self._labels is a tuple of Labels
@@ -1742,9 +1741,8 @@ class Circuit(object):
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = self._labels  # a *tuple*
             for label, c in alias_dict.items():
-                while label in layers:
-                    i = layers.index(label)
-                    layers = layers[:i] + c._labels + layers[i + 1:]
+                label = toLabel(label)
+                layers = tuple(_itertools.chain(*[(c._labels if (lbl == label) else (lbl,)) for lbl in layers]))
             return Circuit(layers, self.line_labels)
 
     #def replace_identity(self, identity, convert_identity_gates = True): # THIS module only
-- 
2.43.0


From d94f69330e5d3f349e0d1828edb110121daa7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 111/195] fix: idle layers do not act on every line

---
 pygsti/objects/circuit.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index fd47d67..3cf866c 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1974,6 +1974,18 @@ class Circuit(object):
         assert(set(order) == set(self.line_labels)), "The line labels must be the same!"
         self._line_labels = tuple(order)
 
+    def _active_sslbls(self, idle_layer_labels=None):
+        """
+        The set of state-space labels this circuit's gates act on, or None when there are
+        gates which act on *all* of them.  Layers in `idle_layer_labels` are disregarded.
+        """
+        # Note: nested lists, not layer Labels, because an *empty* layer Label also has sslbls == None
+        layers = [_label_to_nested_lists_of_simple_labels(layer) for layer in self._labels] \
+            if self._static else self._labels
+        if idle_layer_labels:
+            layers = [layer for layer in layers if toLabel(layer) not in idle_layer_labels]
+        return _sslbls_of_nested_lists_of_simple_labels(layers, idle_layer_labels)
+
     def is_line_idling(self, line_label, idle_layer_labels=None):
         """
         Whether the line in question is idling in *every* circuit layer.
@@ -1994,13 +2006,7 @@ class Circuit(object):
         bool
             True if the line is idling. False otherwise.
         """
-        if self._static:
-            layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
-                if idle_layer_labels else self._labels
-            all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
-                else set(_itertools.chain(*[layer.sslbls for layer in layers]))
-        else:
-            all_sslbls = _sslbls_of_nested_lists_of_simple_labels(self._labels, idle_layer_labels)  # None or a set
+        all_sslbls = self._active_sslbls(idle_layer_labels)  # None or a set
 
         if all_sslbls is None:
             return False  # no lines are idling
@@ -2022,13 +2028,7 @@ class Circuit(object):
         -------
         tuple
         """
-        if self._static:
-            layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
-                if idle_layer_labels else self._labels
-            all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
-                else set(_itertools.chain(*[layer.sslbls for layer in layers]))
-        else:
-            all_sslbls = _sslbls_of_nested_lists_of_simple_labels(self._labels, idle_layer_labels)  # None or a set
+        all_sslbls = self._active_sslbls(idle_layer_labels)  # None or a set
 
         if all_sslbls is None:
             return ()
@@ -2057,13 +2057,7 @@ class Circuit(object):
         if idle_layer_labels:
             assert(all([toLabel(x).sslbls is None for x in idle_layer_labels])), "Idle layer labels must be *global*"
 
-        if self._static:
-            layers = list(filter(lambda x: x not in idle_layer_labels, self._labels)) \
-                if idle_layer_labels else self._labels
-            all_sslbls = None if any([layer.sslbls is None for layer in layers]) \
-                else set(_itertools.chain(*[layer.sslbls for layer in layers]))
-        else:
-            all_sslbls = _sslbls_of_nested_lists_of_simple_labels(self._labels, idle_layer_labels)  # None or a set
+        all_sslbls = self._active_sslbls(idle_layer_labels)  # None or a set
 
         if all_sslbls is None:
             return  # no lines are idling
-- 
2.43.0


From 6712a50f780f1a805e3f0969ec46d6a5ab74e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 112/195] fix: combine_oneQgates keeps arguments and does not
 cross global gates

---
 pygsti/objects/circuit.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 3cf866c..a3796f7 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -2148,26 +2148,29 @@ class Circuit(object):
                 layerB_comps = self._layer_components(ilayer + 1)
                 applies = []
                 for a, lblA in enumerate(layerA_comps):
-                    if not isinstance(lblA, _Label) or (lblA.sslbls is None) \
+                    if not isinstance(lblA, _Label) or isinstance(lblA, _CircuitLabel) or (lblA.sslbls is None) \
                        or (len(lblA.sslbls) != 1): continue  # only care about 1-qubit simple labels within a layer
                     #FUTURE: could relax the != 1 condition?
 
                     for b, lblB in enumerate(layerB_comps):
-                        if isinstance(lblB, _Label) and lblB.sslbls == lblA.sslbls:
+                        if isinstance(lblB, _Label) and not isinstance(lblB, _CircuitLabel) \
+                           and lblB.sslbls == lblA.sslbls:
                             #queue an apply rule if one exists
                             #print("CHECK for: ", (lblA.name,lblB.name))
-                            if (lblA.name, lblB.name) in oneQgate_relations:
+                            # (relations are between names, so don't apply to labels with arguments)
+                            if (lblA.name, lblB.name) in oneQgate_relations and not lblA.args and not lblB.args:
                                 new_Aname = oneQgate_relations[lblA.name, lblB.name]
-                                applies.append((a, b, new_Aname, lblA.sslbls))
+                                new_A = _Label(new_Aname, lblA.sslbls) if (new_Aname is not None) else None
+                                applies.append((a, b, new_A))
                                 break
 
                 layerA_sslbls = _sslbls_of_nested_lists_of_simple_labels(self._labels[ilayer])
                 for b, lblB in enumerate(layerB_comps):
                     if isinstance(lblB, _Label):
                         #see if layerA happens to *not* have anything on lblB.sslbls:
-                        if layerA_sslbls is None or \
+                        if layerA_sslbls is not None and \
                            (lblB.sslbls is not None and len(set(lblB.sslbls).intersection(layerA_sslbls)) == 0):
-                            applies.append((-1, b, lblB.name, lblB.sslbls))  # shift label over
+                            applies.append((-1, b, lblB))  # shift label over
                             break
 
                 if len(applies) > 0:
@@ -2177,13 +2180,13 @@ class Circuit(object):
                 #execute queued applies (outside of above loops)
                 sorted_applies = sorted(applies, key=lambda x: -x[1])  # sort in order of descending 'b' for removes
                 ilayer_inds_to_remove = []
-                for a, b, new_Aname, sslbls in sorted_applies:
-                    if a == -1:  # Note: new_Aname cannot be None here
-                        self._append_layer_component(ilayer, _Label(new_Aname, sslbls))
-                    elif new_Aname is None:
+                for a, b, new_A in sorted_applies:
+                    if a == -1:  # Note: new_A cannot be None here
+                        self._append_layer_component(ilayer, new_A)
+                    elif new_A is None:
                         ilayer_inds_to_remove.append(a)  # remove layer component - but wait to do so in order
                     else:
-                        self._replace_layer_component(ilayer, a, _Label(new_Aname, sslbls))
+                        self._replace_layer_component(ilayer, a, new_A)
                     self._remove_layer_component(ilayer + 1, b)
 
                 for a in sorted(ilayer_inds_to_remove, reverse=True):
-- 
2.43.0


From fd4d4f8f52a0efac232c23493cfb6be601e62fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 113/195] fix: get_layer_with_idles of empty layers and
 sub-circuits

---
 pygsti/objects/circuit.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index a3796f7..0ae9363 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -2342,7 +2342,8 @@ class Circuit(object):
         -------
         tuple
         """
-        return tuple(self.get_layer_label(j).components)
+        layer_lbl = self.get_layer_label(j)
+        return (layer_lbl,) if layer_lbl.issimple() else tuple(layer_lbl.components)
 
     def get_layer_label(self, j):
         """
@@ -2377,7 +2378,8 @@ class Circuit(object):
         -------
         tuple
         """
-        return tuple(self.get_layer_label_with_idles(j, idleGateName).components)
+        layer_lbl = self.get_layer_label_with_idles(j, idleGateName)
+        return (layer_lbl,) if layer_lbl.issimple() else tuple(layer_lbl.components)
 
     def get_layer_label_with_idles(self, j, idleGateName='I'):
         """
@@ -2395,12 +2397,13 @@ class Circuit(object):
         Label
         """
         layer_lbl = self.get_layer_label(j)  # (a Label)
-        if layer_lbl.sslbls is None:
+        components = list(self._layer_components(j))
+        sslbls = _sslbls_of_nested_lists_of_simple_labels(components)  # an *empty* layer has no sslbls
+        if sslbls is None:
             return layer_lbl  # all qubits used - no idles to pad
 
-        components = list(layer_lbl.components)
         for line_lbl in self.line_labels:
-            if line_lbl not in layer_lbl.sslbls:
+            if line_lbl not in sslbls:
                 components.append(_Label(idleGateName, line_lbl))
         return _Label(components)
 
-- 
2.43.0


From ac83cf080dca5b56c44a2eac74560de44550c65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 114/195] fix: data sets built from given outcome-label indices
 keep their own copy of them

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index dfa331a..fdd734c 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -765,7 +765,7 @@ class DataSet(object):
         #                  values = integer indices mapping oliData (integers) onto
         #                           the outcome labels.
         if outcomeLabelIndices is not None:
-            self.olIndex = outcomeLabelIndices
+            self.olIndex = _OrderedDict(outcomeLabelIndices)  # a copy, as this dict is updated in-place
             self.olIndex_max = max(self.olIndex.values()) if len(self.olIndex) > 0 else -1
         elif outcomeLabels is not None:
             tup_outcomeLabels = [_ld.OutcomeLabelDict.to_outcome(ol)
-- 
2.43.0


From a83b6ca167de93647d6bd929b77a48521b56f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 115/195] fix: static data sets may consist only of circuits
 without data

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index fdd734c..956697d 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -809,7 +809,7 @@ class DataSet(object):
             if len(self.cirIndex) > 0:
                 maxOlIndex = self.olIndex_max
                 if bStatic:
-                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else 0
+                    assert(max([_np.amax(self.oliData[i]) if (len(self.oliData[i]) > 0) else -1
                                 for i in self.cirIndex.values()]) <= maxOlIndex)
                     # self.oliData.shape[0] > maxIndex doesn't make sense since cirIndex holds slices
                 else:
-- 
2.43.0


From d7b8dc3128fab99390a5c2b00fa977588deb599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 116/195] fix: data set copies keep the outcome label indices
 (and comment) of the original

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 956697d..c75f1ae 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1965,7 +1965,7 @@ class DataSet(object):
         if self.bStatic:
             return self  # doesn't need to be copied since data can't change
         else:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex, comment=self.comment,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _copy.deepcopy(self.cirIndex)
             copyOfMe.oliData = [el.copy() for el in self.oliData]
@@ -1984,7 +1984,7 @@ class DataSet(object):
     def copy_nonstatic(self):
         """ Make a non-static copy of this DataSet. """
         if self.bStatic:
-            copyOfMe = DataSet(outcomeLabels=self.get_outcome_labels(),
+            copyOfMe = DataSet(outcomeLabelIndices=self.olIndex, comment=self.comment,
                                collisionAction=self.collisionAction)
             copyOfMe.cirIndex = _OrderedDict([(opstr, i) for i, opstr in enumerate(self.cirIndex.keys())])
             copyOfMe.oliData = []
-- 
2.43.0


From d939240f594d446870a0e7d9cb8978148d0d8794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 117/195] fix: data set copies do not share auxiliary
 information with the original

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index c75f1ae..79ad431 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1978,7 +1978,7 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)  # so inner dicts aren't shared
             return copyOfMe
 
     def copy_nonstatic(self):
@@ -2000,7 +2000,7 @@ class DataSet(object):
             copyOfMe.timeType = self.timeType
             copyOfMe.repType = self.repType
             copyOfMe.cnt_cache = None
-            copyOfMe.auxInfo = self.auxInfo.copy()
+            copyOfMe.auxInfo = _copy.deepcopy(self.auxInfo)  # so inner dicts aren't shared
             return copyOfMe
         else:
             return self.copy()
-- 
2.43.0


From 1319e6c374c6825296276485a1265ee408c03a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 118/195] fix: adding series data without repetition counts and
 recordZeroCnts=False

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 79ad431..5d71ba8 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1304,7 +1304,7 @@ class DataSet(object):
                 self.build_repetition_counts()
             repArray = _np.array(repCountList, self.repType)
 
-        if not recordZeroCnts:
+        if not recordZeroCnts and repArray is not None:
             # Go through repArray and remove any zeros, along with
             # corresponding elements of oliArray and timeArray
             mask = repArray != 0  # boolean array (note: == float comparison *is* desired)
-- 
2.43.0


From a23b5e3a8072418a8f8e4eb623cf0df9b4df2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 119/195] fix: removing a circuit given more than once removes
 no other circuit's data

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 5d71ba8..fb703eb 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1921,7 +1921,7 @@ class DataSet(object):
         # the actual removal operations
         self._remove(gstr_indices)
         for ky in auxkeys_to_remove:
-            del self.auxInfo[ky]
+            self.auxInfo.pop(ky, None)
 
         if len(missingStrs) > 0:  # Print a warning with missing strings
             missingStrs.append("...")  # so elipses are shown when there's more strings
@@ -1937,7 +1937,7 @@ class DataSet(object):
         # these are just lists.  Hard part is adjusting cirIndex values: we
         # need to subtract k from index n, where k is the number of indices
         # in `gstr_indices` less than n.
-        inds = sorted(list(gstr_indices))
+        inds = sorted(set(gstr_indices))  # each index is removed just once
 
         #remove indices from lists (high->low)
         for i in reversed(inds):
-- 
2.43.0


From b84ebd1aa7594fd4ac6532245041653b6fbe2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 120/195] fix: deleting a circuit from a data set also deletes
 its auxiliary information

---
 pygsti/objects/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index fb703eb..eacdd38 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -909,6 +909,7 @@ class DataSet(object):
         if not isinstance(circuit, _cir.Circuit):
             circuit = _cir.Circuit(circuit)
         self._remove([self.cirIndex[circuit]])
+        self.auxInfo.pop(circuit, None)
 
     def get_row(self, circuit, occurrence=0):
         """
-- 
2.43.0


From 30f81c529a9eb6c3794c88a2e37c182e4fce5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 121/195] fix: merge_outcomes accepts directives for outcomes
 absent from the data set

---
 pygsti/objects/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index eacdd38..97f0634 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1463,7 +1463,8 @@ class DataSet(object):
         for new_outcome, old_outcome_list in label_merge_dict.items():
             new_index = new_outcome_indices[new_outcome]
             for old_outcome in old_outcome_list:
-                oli_map[self.olIndex[old_outcome]] = new_index
+                if old_outcome in self.olIndex:  # directives for absent outcomes have no effect
+                    oli_map[self.olIndex[old_outcome]] = new_index
 
         #Future - when recordZeroCnts=False these may not need to be so large
         new_olis = _np.array(range(nNewOutcomes), _np.int64)
-- 
2.43.0


From 8d96ede304927303a2376eb305ece83a1ff61763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 122/195] fix: merge_outcomes of data sets having circuits
 without data

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 97f0634..f693b35 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1497,7 +1497,7 @@ class DataSet(object):
         circuitIndices = _OrderedDict()
         for key, dsrow in self.items():
 
-            last_t = dsrow.time[0]
+            last_t = dsrow.time[0] if len(dsrow.time) > 0 else None
 
             #Below code is faster version of: mapped_oli = [oli_map[x] for x in dsrow.oli]
             mapped_oli = dsrow.oli.copy()
-- 
2.43.0


From b907a41f62226e698f5987fbfae21319213818db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 123/195] fix: circuits without data contribute no degrees of
 freedom

---
 pygsti/objects/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index f693b35..1d18d92 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1109,6 +1109,7 @@ class DataSet(object):
         Nout = len(self.olIndex)
         for opstr in circuitList:
             dsRow = self[opstr]
+            if len(dsRow) == 0: continue  # no data => no degrees of freedom
             cur_t = dsRow.time[0]
             cur_outcomes = set()  # holds *distinct* outcomes at current time
             for ol, t, rep in dsRow:
-- 
2.43.0


From 86f10a63ee7bc9867c6bc2a67ec1efcea10a28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 124/195] fix: has_constant_totalcounts_pertime compares the
 circuits' counts with each other

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 1d18d92..b61a353 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1597,8 +1597,8 @@ class DataSet(object):
         circuit has the same total counts per time step (this will happen
         when the number of time-steps varies between circuit).
         """
+        numtotalcountspertime = None
         for key in self.keys():
-            numtotalcountspertime = None
             dsrow = self[key]
             if not dsrow.has_constant_totalcounts():
                 return False
-- 
2.43.0


From 1c0677975036a26bac21f04881cd60eccf385a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 125/195] fix: totalcounts_pertime raises an error when the
 counts are not constant

---
 pygsti/objects/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index b61a353..2b218f2 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1615,7 +1615,8 @@ class DataSet(object):
         Returns the total counts per time, if this is constant over times
         and circuits. When that doesn't hold, an error is raised.
         """
-        self.has_constant_totalcounts_pertime()
+        if not self.has_constant_totalcounts_pertime():
+            raise ValueError("The total counts per time is not the same for all times and circuits!")
         key = list(self.keys())[0]
         totalcountspertime = self[key].get_totalcounts_per_timestep()
 
-- 
2.43.0


From 57142f6cf7ad2f6a756ab786e793c8d8735da32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 126/195] fix: get_reps_timeseries gives totals per time also
 without repetition counts

---
 pygsti/objects/dataset.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 2b218f2..243858a 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -301,19 +301,16 @@ class DataSetRow(object):
         reps = []
         last_time = None
 
-        if self.reps is None:
-            return list(self.time), list(_np.ones(len(self.time), int))
-
-        else:
-            for t, rep in zip(self.time, self.reps):
-                if t != last_time:
-                    times.append(t)
-                    last_time = t
-                    reps.append(rep)
-                else:
-                    reps[-1] += rep
+        rowreps = self.reps if (self.reps is not None) else _np.ones(len(self.time), int)
+        for t, rep in zip(self.time, rowreps):
+            if t != last_time:
+                times.append(t)
+                last_time = t
+                reps.append(rep)
+            else:
+                reps[-1] += rep
 
-            return times, reps
+        return times, reps
 
     def get_number_of_times(self):
         """
-- 
2.43.0


From 0ecdfb2543ed6280bef9c978569201c096a87582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 127/195] fix: counts at a time exclude those at other, nearby
 times

---
 pygsti/objects/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 243858a..9837edf 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -422,7 +422,7 @@ class DataSetRow(object):
 
     def _get_single_count(self, outcome_label, timestamp=None):
         if timestamp is not None:
-            tslc = _np.where(_np.isclose(self.time, timestamp))[0]
+            tslc = _np.where(_np.isclose(self.time, timestamp, rtol=0., atol=1e-12))[0]
         else: tslc = slice(None)
 
         if self.reps is None:
@@ -447,7 +447,7 @@ class DataSetRow(object):
         # is zero)
         cntDict = _ld.OutcomeLabelDict()
         if timestamp is not None:
-            tslc = _np.where(_np.isclose(self.time, timestamp))[0]
+            tslc = _np.where(_np.isclose(self.time, timestamp, rtol=0., atol=1e-12))[0]
         else: tslc = slice(None)
 
         if self.reps is None:
-- 
2.43.0


From d2063702d7656e1883ff0e9df53f0bb9d6905e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 128/195] fix: timeseries at given time stamps includes all the
 counts at each of them

---
 pygsti/objects/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 9837edf..3825a23 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -545,7 +545,9 @@ class DataSetRow(object):
                     counts.append(0)
                     tsIndx += 1
 
-            if oli in olis and (timestamps is None or _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12)):
+            if oli in olis and (timestamps is None or _np.isclose(t, last_t, rtol=0., atol=1e-12)
+                                or (tsIndx < len(timestamps)
+                                    and _np.isclose(t, timestamps[tsIndx], rtol=0., atol=1e-12))):
                 if not _np.isclose(t, last_t, rtol=0., atol=1e-12):
                     times.append(t); tsIndx += 1
                     counts.append(0)
-- 
2.43.0


From 29935a11f8050223b71674c363e3f7386f39d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 129/195] fix: renaming outcome labels discards the counts
 cached under the old labels

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 3825a23..6a47aa2 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2312,3 +2312,5 @@ class DataSet(object):
         #Note: rebuild reverse-dict self.ol:
         self.olIndex = new_olIndex
         self.ol = _OrderedDict([(i, ol) for (ol, i) in self.olIndex.items()])
+        if self.bStatic:  # then cached counts hold old outcome labels
+            self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}
-- 
2.43.0


From ba80cb95cf8f4fbbe8558a6253abad11f0fd330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 130/195] fix: refuse to rename two outcome labels to the same
 one, which lost counts

---
 pygsti/objects/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 6a47aa2..2871fe9 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2302,6 +2302,9 @@ class DataSet(object):
             if isinstance(new, str): new = (new,)
             mapdict[old] = new
 
+        if len(set([mapdict.get(ol, ol) for ol in self.olIndex])) < len(self.olIndex):
+            raise ValueError("Distinct outcome labels must be given distinct names (see `merge_outcomes`)")
+
         new_olIndex = _OrderedDict()
         for ol, i in self.olIndex.items():
             if ol in mapdict:
-- 
2.43.0


From 2a7aec0f0680eed8860ba5519a140972a3d37cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 131/195] fix: loading a static data set without repetition
 counts

---
 pygsti/objects/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 2871fe9..1b2897e 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -2261,6 +2261,8 @@ class DataSet(object):
             self.timeData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
             if useReps:
                 self.repData = _np.lib.format.read_array(f)  # _np.load(f) doesn't play nice with gzip
+            else:
+                self.repData = None
             self.cnt_cache = {opstr: _ld.OutcomeLabelDict() for opstr in self.cirIndex}  # init cnt_cache afresh
         else:
             self.oliData = []
-- 
2.43.0


From 681688325a017baefbf39dc6e983611965ae09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 132/195] fix: process_circuits keeps auxiliary information of
 the same circuit whose data it keeps

---
 pygsti/objects/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 1b2897e..3ba4c09 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -1841,6 +1841,7 @@ class DataSet(object):
         if self.bStatic: raise ValueError("Cannot process_circuits on a static DataSet object")
 
         to_delete = []
+        orig_circuits = list(self.cirIndex.keys())
         new_cirIndex = _OrderedDict()
         for opstr, indx in self.cirIndex.items():
             new_gstr = processor_fn(opstr)
@@ -1873,7 +1874,7 @@ class DataSet(object):
 
         #Process self.auxInfo
         auxInfo = _DefaultDict(dict)
-        for opstr in self.auxInfo.keys():
+        for opstr in orig_circuits:  # same order as for data ("last" circuit's data is kept)
             new_gstr = processor_fn(opstr)
             if new_gstr is None:
                 continue
-- 
2.43.0


From 75d17e6760d2fe7742579c6705621803b769ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 133/195] fix: aggregated data sets do not turn recorded zero
 counts into counts

---
 pygsti/objects/multidataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c6744fe..d636e44 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -363,7 +363,7 @@ class MultiDataSet(object):
         agg_oli = _np.array(agg_oli, self.oliType)
         agg_time = _np.array(agg_time, self.timeType)
         agg_rep = _np.array(agg_rep, self.repType)
-        if _np.max(agg_rep) == 1: agg_rep = None  # don't store trivial reps
+        if _np.all(agg_rep == 1): agg_rep = None  # don't store trivial reps
 
         ds = _DataSet(agg_oli, agg_time, agg_rep,
                       circuitIndices=gstrSlices,
-- 
2.43.0


From ec45298890acb0a7657e8ec0e4a8cfa74a29cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 134/195] fix: aggregate multi-data sets having circuits
 without data

---
 pygsti/objects/multidataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index d636e44..ebb2077 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -330,7 +330,7 @@ class MultiDataSet(object):
             # Merge same-timestamp, same-outcome data
             sortedInds = [i for i, el in sorted(enumerate(concat_time), key=lambda x:x[1])]
             sorted_oli = []; sorted_time = []; sorted_rep = []
-            last_time = concat_time[sortedInds[0]]; cur_reps = {}
+            last_time = concat_time[sortedInds[0]] if (len(sortedInds) > 0) else None; cur_reps = {}
             for i in sortedInds:
                 if concat_time[i] != last_time:
                     # dump cur_reps at last_time and reset
-- 
2.43.0


From e3db4eb5aa1e4d1f132d590208c3fb8ca20688e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 135/195] fix: adding a data set to a multi-data set does not
 share its auxiliary information

---
 pygsti/objects/multidataset.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index ebb2077..7a30931 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -518,11 +518,8 @@ class MultiDataSet(object):
 
         # Update auxInfo
         if update_auxinfo and dataset.auxInfo:
-            if len(self.auxInfo) == 0:
-                self.auxInfo.update(dataset.auxInfo)
-            else:
-                for circuit, aux in dataset.auxInfo.items():
-                    self.auxInfo[circuit].update(aux)
+            for circuit, aux in dataset.auxInfo.items():
+                self.auxInfo[circuit].update(aux)  # Note: doesn't link self.auxInfo's dicts to dataset's
 
     def __str__(self):
         s = "MultiDataSet containing: %d datasets, each with %d strings\n" % (
-- 
2.43.0


From d825c52e8176444d814e14ae01a2e0579d77aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 136/195] fix: a multi-data set's copy does not share auxiliary
 information with it

---
 pygsti/objects/multidataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index 7a30931..c27c935 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -536,7 +536,8 @@ class MultiDataSet(object):
                             circuitIndices=_copy.deepcopy(self.cirIndex) if (self.cirIndex is not None) else None,
                             outcomeLabelIndices=_copy.deepcopy(self.olIndex) if (self.olIndex is not None) else None,
                             collisionActions=self.collisionActions, comments=_copy.deepcopy(self.comments),
-                            comment=(self.comment + " copy") if self.comment else None, auxInfo=self.auxInfo)
+                            comment=(self.comment + " copy") if self.comment else None,
+                            auxInfo=_copy.deepcopy(self.auxInfo))
 
     def __getstate__(self):
         toPickle = {'cirIndexKeys': list(map(_cir.CompressedCircuit,
-- 
2.43.0


From 4197d8a7309906c471d3ed22e0969a46b8fc7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 137/195] fix: add a data set without repetition counts to a
 multi-data set having them

---
 pygsti/objects/multidataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index c27c935..087361c 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -449,6 +449,8 @@ class MultiDataSet(object):
                     self.repDict = _OrderedDict(
                         [(nm, _np.ones(dataLen, self.repType)) for nm in self])
                 self.repDict[datasetName] = dataset.repData
+            elif self.repDict is not None:  # all data sets have repetition data or none do
+                self.repDict[datasetName] = _np.ones(len(dataset.oliData), self.repType)
 
         else:
             # Merge data due to differences in self.cirIndex and dataset.cirIndex, which can
-- 
2.43.0


From 8781dfc91430e58aa247b19e961aca9f76ec4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 138/195] fix: multi-data sets can hold data sets without data

---
 pygsti/objects/multidataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index 087361c..71a71ab 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -217,7 +217,7 @@ class MultiDataSet(object):
             if self.olIndex:  # Note: tests if not none and nonempty
                 maxOlIndex = max(self.olIndex.values())
                 for outcomeInds in self.oliDict.values():
-                    assert(_np.amax(outcomeInds) <= maxOlIndex)
+                    assert(len(outcomeInds) == 0 or _np.amax(outcomeInds) <= maxOlIndex)
         else:
             assert(timeDict is None), "Must specify `oliDict` also!"
             assert(repDict is None), "Must specify `oliDict` also!"
-- 
2.43.0


From 5307d8aa253d1a8445d495d48f94b4a0d3c083ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 139/195] fix: unpickled and loaded multi-data sets can have
 further data sets added

---
 pygsti/objects/multidataset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index 71a71ab..d8f4d26 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -559,6 +559,10 @@ class MultiDataSet(object):
         cirIndexKeys = [cgs.expand() for cgs in state_dict['cirIndexKeys']]
         self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals'])))
         self.olIndex = state_dict['olIndex']
+        if self.olIndex is None: self.cirIndex = None  # no data sets were added yet
+        self.oliType = _np.uint32
+        self.timeType = _np.float64
+        self.repType = _np.float32
         self.oliDict = state_dict['oliDict']
         self.timeDict = state_dict['timeDict']
         self.repDict = state_dict['repDict']
@@ -654,6 +658,10 @@ class MultiDataSet(object):
         #cirIndexKeys = [ cgs.expand() for cgs in state_dict['cirIndexKeys'] ]
         self.cirIndex = _OrderedDict(list(zip(cirIndexKeys, state_dict['cirIndexVals'])))
         self.olIndex = state_dict['olIndex']
+        if self.olIndex is None: self.cirIndex = None  # no data sets were added yet
+        self.oliType = _np.uint32
+        self.timeType = _np.float64
+        self.repType = _np.float32
         self.collisionActions = state_dict['collisionActions']
         self.auxInfo = state_dict.get('auxInfo', _DefaultDict(dict))  # backward compat
         self.comments = state_dict["comments"]
-- 
2.43.0


From 358600aa7df850a5b9cc6f74bfa9fd4bbd0e57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 140/195] fix: add outcome labels to a multi-data set that has
 none

---
 pygsti/objects/multidataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index d8f4d26..5cf12ac 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -409,7 +409,7 @@ class MultiDataSet(object):
         ds_oliData = dataset.oliData  # default - just use dataset's outcome indices as is...
         update_map = {}  # default - no updates needed
         if dataset.olIndex != self.olIndex:
-            next_olIndex = max(self.olIndex.values()) + 1
+            next_olIndex = max(self.olIndex.values(), default=-1) + 1
             for ol, i in dataset.olIndex.items():
                 if ol not in self.olIndex:  # then add a new outcome label
                     self.olIndex[ol] = next_olIndex; next_olIndex += 1
-- 
2.43.0


From 63ae135d9a55e6b8e69dbcda84d3c78f7ce1ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 141/195] fix: trim_to_constant_numtimesteps replaces, rather
 than adds to, 'keepseparate' data

---
 pygsti/construction/datasetconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/construction/datasetconstruction.py b/pygsti/construction/datasetconstruction.py
index 013df20..201eff2 100644
--- a/pygsti/construction/datasetconstruction.py
+++ b/pygsti/construction/datasetconstruction.py
@@ -509,6 +509,7 @@ def trim_to_constant_numtimesteps(ds):
         The trimmed dataset, obtained by potentially discarding some of the data.
     """
     trimmedds = ds.copy_nonstatic()
+    trimmedds.collisionAction = 'overwrite'  # so existing data is replaced below
     numtimes = []
     for circuit in ds.keys():
         numtimes.append(ds[circuit].get_number_of_times())
@@ -520,6 +521,7 @@ def trim_to_constant_numtimesteps(ds):
         trimmedseries = series[0:minnumtimes]
         trimmedds.add_series_data(circuit, trimmedseries, trimmedtimes, aux=ds.auxInfo[circuit])
 
+    trimmedds.collisionAction = ds.collisionAction
     trimmedds.done_adding_data()
 
     return trimmedds
-- 
2.43.0


From 75cd349c49615c289cc5ece624be2c21570183cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 142/195] fix: a row's fractions include the counts at all
 times, not just at time zero

---
 pygsti/objects/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/dataset.py b/pygsti/objects/dataset.py
index 3ba4c09..294898b 100644
--- a/pygsti/objects/dataset.py
+++ b/pygsti/objects/dataset.py
@@ -480,7 +480,7 @@ class DataSetRow(object):
         repetitions of each outcome label in the `outcomes` list, or
         equivalently, each outcome label index in this rows `.oli` member.
         """
-        cnts = self._get_counts(all_outcomes)
+        cnts = self._get_counts(all_outcomes=all_outcomes)
         total = sum(cnts.values())
         return _OrderedDict([(k, cnt / total) for k, cnt in cnts.items()])
 
-- 
2.43.0


From 1f92f0075571012b6ee5989174f911fde4b516ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 143/195] fix: create_circuit_list only loops over the
 variables an expression names

---
 pygsti/construction/circuitconstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 110964b..9286656 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -8,6 +8,7 @@
 # http://www.apache.org/licenses/LICENSE-2.0 or in the LICENSE file in the root pyGSTi directory.
 #***************************************************************************************************
 
+import re as _re
 import itertools as _itertools
 import numpy as _np
 import numpy.random as _rndm
@@ -82,7 +83,7 @@ def create_circuit_list(*args, **kwargs):
         if len(str_expression) == 0:
             lst.append(_cir.Circuit(())); continue  # special case
 
-        keysToLoop = [key for key in loopOrder if key in str_expression]
+        keysToLoop = [key for key in loopOrder if _re.search(r'\b%s\b' % _re.escape(key), str_expression)]
         loopListsToLoop = [loopLists[key] for key in keysToLoop]  # list of lists
         for allVals in _itertools.product(*loopListsToLoop):
             myLocals = {key: allVals[i] for i, key in enumerate(keysToLoop)}
-- 
2.43.0


From f9398cfb08218ec6ea3bce9a032a60a147f66af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 144/195] fix: create_circuit_list raises when an expression
 isn't a circuit, instead of repeating the previous one

---
 pygsti/construction/circuitconstruction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 9286656..adc3b3d 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -98,6 +98,8 @@ def create_circuit_list(*args, **kwargs):
                 opStr = _cir.Circuit(result)
             elif isinstance(result, str):
                 opStr = _cir.Circuit(None, stringrep=result)
+            else:
+                raise ValueError("Expression '%s' gave a %s, not a circuit" % (str_expression, str(type(result))))
             lst.append(opStr)
 
     return lst
-- 
2.43.0


From 9ace761b0633eae875d015be65cae0b09d9e899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 145/195] fix: list_strings_lgst_can_estimate looks for prep
 fiducials first and effect fiducials last

---
 pygsti/construction/circuitconstruction.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index adc3b3d..40a8886 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -502,21 +502,22 @@ def list_strings_lgst_can_estimate(dataset, prepStrs, effectStrs):
     """
 
     estimatable = []
-    circuits = list(dataset.keys())
-    pre = tuple(effectStrs[0]); l0 = len(pre)  # the first effect string
-    post = tuple(prepStrs[0]); l1 = len(post)  # the first prep string
+    circuits = _lt.remove_duplicates([tuple(s) for s in dataset.keys()])
+    circuit_set = set(circuits)
+    pre = tuple(prepStrs[0]); l0 = len(pre)  # the first prep string
+    post = tuple(effectStrs[0]); l1 = len(post)  # the first effect string
 
     def _root_is_ok(rootStr):
         for estr in effectStrs:
             for rhostr in prepStrs:
-                if tuple(rhostr) + tuple(rootStr) + tuple(estr) not in circuits:  # LEXICOGRAPHICAL VS MATRIX ORDER
+                if tuple(rhostr) + tuple(rootStr) + tuple(estr) not in circuit_set:  # LEXICOGRAPHICAL VS MATRIX ORDER
                     return False
         return True
 
     #check if string has first fiducial at beginning & end, and if so
     # strip that first fiducial off, leaving a 'root' string that we can test
     for s in circuits:
-        if s[0:l0] == pre and s[len(s) - l1:] == post:
+        if len(s) >= l0 + l1 and s[0:l0] == pre and s[len(s) - l1:] == post:
             root = s[l0:len(s) - l1]
             if _root_is_ok(root):
                 estimatable.append(root)
-- 
2.43.0


From 12a8e28f72a2adaf9f31d7b66791f79ef75d5a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 146/195] fix: manipulate_circuit replaces the matched labels
 when contexts overlap, and takes Circuit rules

---
 pygsti/construction/circuitconstruction.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/pygsti/construction/circuitconstruction.py b/pygsti/construction/circuitconstruction.py
index 40a8886..9578bbb 100644
--- a/pygsti/construction/circuitconstruction.py
+++ b/pygsti/construction/circuitconstruction.py
@@ -680,9 +680,10 @@ def manipulate_circuit(circuit, sequenceRules, line_labels="auto"):
 
     # flag labels as modified so signal they cannot be processed
     # by any further rules
+    sequenceRules = [(tuple(rule), tuple(replacement)) for rule, replacement in sequenceRules]
     circuit = tuple(circuit)  # make sure this is a tuple
     modified = _np.array([False] * len(circuit))
-    actions = [[] for i in range(len(circuit))]
+    actions = []  # (begin, end, replacement) tuples, where begin & end are indices of the original circuit
 
     #Step 0: compute prefixes and postfixes of rules
     ruleInfo = []
@@ -713,27 +714,16 @@ def manipulate_circuit(circuit, sequenceRules, line_labels="auto"):
             #if there's a match that doesn't double-modify
             if rule == circuit[i:i + n] and not any(modified[i + n_pre:i + n - n_post]):
                 # queue this replacement action
-                actions[i].append(k)
+                actions.append((i + n_pre, i + n - n_post, replacement[n_pre:len(replacement) - n_post]))
                 #print("MATCH! ==> acting rule %d at index %d" % (k,i)) #DEBUG
 
                 # and mark the modified region of the original string
                 modified[i + n_pre:i + n - n_post] = True
         i += 1
 
-    #Step 2: perform the actions (in reverse order so indices don't get messed up!)
-    N = len(circuit)
-    for i in range(N - 1, -1, -1):
-        for k in actions[i]:
-            #apply rule k at index i of circuit
-            rule, replacement = sequenceRules[k]
-            n_pre, n_post, n = ruleInfo[k]
-
-            begin = circuit[:i + n_pre]
-            repl = replacement[n_pre:len(replacement) - n_post]
-            end = circuit[i + n - n_post:]
-
-            circuit = begin + repl + end
-            #print("Applied rule %d at index %d: " % (k,i), begin, repl, end, " ==> ", circuit) #DEBUG
+    #Step 2: perform the actions (from last to first modified region so indices don't get messed up!)
+    for begin, end, repl in sorted(actions, key=lambda a: a[0:2], reverse=True):
+        circuit = circuit[:begin] + repl + circuit[end:]
 
     return _cir.Circuit(circuit, line_labels)
 
-- 
2.43.0


From 65b2cdbe2b579f194c6446201cadf9ce6108d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 147/195] fix: sorted_partitions yields independent arrays

---
 pygsti/tools/listtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/tools/listtools.py b/pygsti/tools/listtools.py
index 6e7fd54..d4a50f0 100644
--- a/pygsti/tools/listtools.py
+++ b/pygsti/tools/listtools.py
@@ -211,7 +211,7 @@ def sorted_partitions(n):
     # This loop first yields current partition, then generates next
     # partition. The loop stops when the current partition has all 1s
     while True:
-        yield p[0:k + 1]
+        yield p[0:k + 1].copy()  # p is modified below
 
         # Find the rightmost non-one value in p[]. Also, update the
         # rem_val so that we know how much value can be accommodated
-- 
2.43.0


From ff0d3f50e6febbc19e104340d1482a6aef57e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 148/195] fix: incd_product yields nothing when one of the
 lists is empty

---
 pygsti/tools/listtools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygsti/tools/listtools.py b/pygsti/tools/listtools.py
index d4a50f0..1052999 100644
--- a/pygsti/tools/listtools.py
+++ b/pygsti/tools/listtools.py
@@ -360,8 +360,7 @@ def incd_product(*args):
     try:
         t = [next(i) for i in iters]
     except StopIteration:  # at least one list is empty
-        yield incr, ()  # just yield one item w/empty tuple, like itertools.product
-        return
+        return  # yield nothing, like itertools.product
     yield incr, tuple(t)  # first yield is special b/c establishes baseline (incr==0)
 
     incr = N - 1
-- 
2.43.0


From 0f40a36dd73a13a8bcb55e0451b627a3defe0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 149/195] fix: nested LSGST and eLGST lists start from nothing
 when includeLGST is False

---
 pygsti/construction/stdlists.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/construction/stdlists.py b/pygsti/construction/stdlists.py
index 83eaec7..62daa33 100644
--- a/pygsti/construction/stdlists.py
+++ b/pygsti/construction/stdlists.py
@@ -171,7 +171,7 @@ def make_lsgst_lists(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList,
         fiducialPairs = {germ: lst for germ in germList}
 
     #running list of all strings so far (LGST strings or empty)
-    lsgst_list = lgst_list[:] if includeLGST else _gsc.circuit_list([()])
+    lsgst_list = lgst_list[:] if includeLGST else []
     lsgst_listOfLists = []  # list of lists to return
 
     Rfn = _getTruncFunction(truncScheme)
@@ -695,7 +695,7 @@ def make_elgst_lists(opLabelSrc, germList, maxLengthList,
     singleOps = _gsc.circuit_list([(g,) for g in opLabels])
 
     #running list of all strings so far (length-1 strs or empty)
-    elgst_list = singleOps[:] if includeLGST else _gsc.circuit_list([()])
+    elgst_list = singleOps[:] if includeLGST else []
     elgst_listOfLists = []  # list of lists to return
 
     Rfn = _getTruncFunction(truncScheme)
@@ -710,7 +710,7 @@ def make_elgst_lists(opLabelSrc, germList, maxLengthList,
 
         if nest:
             elgst_list += lst  # add new strings to running list
-            elgst_listOfLists.append(_lt.remove_duplicates(singleOps + elgst_list))
+            elgst_listOfLists.append(_lt.remove_duplicates(elgst_list))
         else:
             elgst_listOfLists.append(_lt.remove_duplicates(lst))
 
-- 
2.43.0


From e2815c31628ba6dd1340d94a8cbec951b382d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 150/195] fix: germs without an entry in fidPairs use all
 pairs, in lists as well as in structures

---
 pygsti/construction/stdlists.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygsti/construction/stdlists.py b/pygsti/construction/stdlists.py
index 62daa33..f454dfe 100644
--- a/pygsti/construction/stdlists.py
+++ b/pygsti/construction/stdlists.py
@@ -156,9 +156,11 @@ def make_lsgst_lists(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList,
         nPairsToKeep = int(round(float(keepFraction) * nPairs))
     else: rndm = None
 
+    allPossiblePairs = list(_itertools.product(range(len(prepStrs)), range(len(effectStrs))))
     if isinstance(fidPairs, dict) or hasattr(fidPairs, "keys"):
         fiducialPairs = {germ: [(prepStrs[i], effectStrs[j])
-                                for (i, j) in fidPairs[germ]]
+                                for (i, j) in fidPairs[germ]] if germ in fidPairs
+                         else list(_itertools.product(prepStrs, effectStrs))
                          for germ in germList}
         fidPairDict = fidPairs
     else:
@@ -191,7 +193,7 @@ def make_lsgst_lists(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList,
                     fiducialPairsThisIter = fiducialPairs[germ]
 
                 elif fidPairDict is not None:
-                    pair_indx_tups = fidPairDict[germ]
+                    pair_indx_tups = fidPairDict.get(germ, allPossiblePairs)
                     remainingPairs = [(prepStrs[i], effectStrs[j])
                                       for i in range(len(prepStrs))
                                       for j in range(len(effectStrs))
@@ -473,7 +475,7 @@ def make_lsgst_structs(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList
                     assert(0 <= nPairsToChoose <= nPairsRemaining)
                     # FUTURE: issue warnings when clipping nPairsToChoose?
 
-                    fiducialPairsThisIter = fidPairDict[germ] + \
+                    fiducialPairsThisIter = pair_indx_tups + \
                         [remainingPairs[k] for k in
                          sorted(rndm.choice(nPairsRemaining, nPairsToChoose,
                                             replace=False))]
-- 
2.43.0


From b0d78217f1d9ab9853d922cdfbbb37d0845f4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 151/195] fix: structures that aren't nested hold only the
 sequences of their own length, as lists do

---
 pygsti/construction/stdlists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/construction/stdlists.py b/pygsti/construction/stdlists.py
index f454dfe..1baa031 100644
--- a/pygsti/construction/stdlists.py
+++ b/pygsti/construction/stdlists.py
@@ -443,7 +443,7 @@ def make_lsgst_structs(opLabelSrc, prepStrs, effectStrs, germList, maxLengthList
             #Special LGST case
             missing_lgst = gss.add_unindexed(lgst_list, dscheck)
         else:
-            if includeLGST and i == 0:  # first maxlen, so add LGST seqs as empty germ
+            if includeLGST and nest and i == 0:  # first maxlen, so add LGST seqs as empty germ
                 #Note: no FPR on LGST strings
                 missing_list.extend(gss.add_plaquette(empty_germ, maxLen, empty_germ,
                                                       allPossiblePairs, dscheck))
-- 
2.43.0


From 1f55c41b36904e698b77ff3e4767f1c03e4fea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 152/195] fix: expanding the aliases of a plaquette keeps its
 fiducial pairs

---
 pygsti/objects/circuitstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index f16d54b..6a35d02 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -87,7 +87,7 @@ class CircuitPlaquette(object):
             s2 = s if (self.aliases is None) else \
                 s.replace_layers_with_aliases(self.aliases)
 
-            if new_fidpairs:
+            if new_fidpairs is not None:
                 prep, effect = self.fidpairs[k]
                 prep2 = prep if (self.aliases is None) else \
                     prep.replace_layers_with_aliases(self.aliases)
@@ -96,7 +96,7 @@ class CircuitPlaquette(object):
 
             if dsFilter is None or s2 in dsFilter:
                 new_elements.append((i, j, s2))
-                if new_fidpairs: new_fidpairs.append((prep2, effect2))
+                if new_fidpairs is not None: new_fidpairs.append((prep2, effect2))
 
         ret = CircuitPlaquette(self.base, self.rows, self.cols,
                                new_elements, None, new_fidpairs)
-- 
2.43.0


From c6d7ed60bd9c02d2a21901eb6f1eecc422496d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 153/195] fix: process the circuits of a plaquette without
 fiducial pairs

---
 pygsti/objects/circuitstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 6a35d02..2b359f7 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -168,7 +168,8 @@ class CircuitPlaquette(object):
         """
         P = processor_fn
         updated_elements = [(i, j, P(s)) for i, j, s in self.elements]
-        updated_fidpairs = [(P(prep), P(meas)) for prep, meas in self.fidpairs]
+        updated_fidpairs = [(P(prep), P(meas)) for prep, meas in self.fidpairs] \
+            if (self.fidpairs is not None) else None
         return CircuitPlaquette(P(self.base), self.rows, self.cols,
                                 updated_elements, updated_aliases, updated_fidpairs)
 
-- 
2.43.0


From e180092a78d8b1da6eee0e05f7b95e5bed82ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 154/195] fix: process_circuits files plaquettes under their
 processed germs

---
 pygsti/objects/circuitstructure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 2b359f7..63f0b4b 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -639,7 +639,8 @@ class LsGermsStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                           for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
@@ -1005,7 +1006,8 @@ class LsGermsSerialStructure(CircuitStructure):
         cpy.allstrs = list(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
         cpy.unindexed = list(map(P, self.unindexed))
-        cpy._plaquettes = {k: v.process_circuits(P, updated_aliases) for k, v in self._plaquettes.items()}
+        cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
+                           for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
         cpy._baseStrToLGerm = {P(base): (L, P(germ)) for base, (L, germ) in self._baseStrToLGerm.items()}
         return cpy
-- 
2.43.0


From b156b0f593f9baf86f9365ea90f2736aa2b933a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 155/195] fix: process_circuits lists circuits that become
 equal once

---
 pygsti/objects/circuitstructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 63f0b4b..1e5576e 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -636,9 +636,9 @@ class LsGermsStructure(CircuitStructure):
         cpy = LsGermsStructure(self.Ls, list(map(P, self.germs)),
                                list(map(P, self.prepStrs)), list(map(P, self.effectStrs)),
                                updated_aliases, self.sequenceRules)
-        cpy.allstrs = list(map(P, self.allstrs))
+        cpy.allstrs = _lt.remove_duplicates(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
-        cpy.unindexed = list(map(P, self.unindexed))
+        cpy.unindexed = _lt.remove_duplicates(map(P, self.unindexed))
         cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
                            for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
@@ -1003,9 +1003,9 @@ class LsGermsSerialStructure(CircuitStructure):
         cpy = LsGermsSerialStructure(self.Ls, list(map(P, self.germs)),
                                      self.nMinorRows, self.nMinorCols,
                                      updated_aliases, self.sequenceRules)
-        cpy.allstrs = list(map(P, self.allstrs))
+        cpy.allstrs = _lt.remove_duplicates(map(P, self.allstrs))
         cpy.allstrs_set = set(cpy.allstrs)
-        cpy.unindexed = list(map(P, self.unindexed))
+        cpy.unindexed = _lt.remove_duplicates(map(P, self.unindexed))
         cpy._plaquettes = {(L, P(germ)): v.process_circuits(P, updated_aliases)
                            for (L, germ), v in self._plaquettes.items()}
         cpy._firsts = [(L, P(germ)) for (L, germ) in self._firsts]
-- 
2.43.0


From b471558a669114fa52d56fc0e41cb26eba7fe4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 156/195] fix: truncating a structure adds no circuits to it
 and keeps only the given ones

---
 pygsti/objects/circuitstructure.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/circuitstructure.py b/pygsti/objects/circuitstructure.py
index 1e5576e..8619baf 100644
--- a/pygsti/objects/circuitstructure.py
+++ b/pygsti/objects/circuitstructure.py
@@ -554,21 +554,19 @@ class LsGermsStructure(CircuitStructure):
         #OLD iEffects = [i for i, eStr in enumerate(self.effectStrs) if eStr in effectStrs]
         #OLD fidpairs = list(_itertools.product(iPreps, iEffects))
         all_fidpairs = list(_itertools.product(list(range(len(prepStrs))), list(range(len(effectStrs)))))
+        if seqs is not None: seqs = set(seqs)
 
         for (L, germ), plaq in self._plaquettes.items():
             basestr = plaq.base
-            if seqs is None:
-                fidpairs = all_fidpairs
-            else:
-                fidpairs = []
-                for i, j in all_fidpairs:
-                    if prepStrs[i] + basestr + effectStrs[j] in seqs:
-                        fidpairs.append((i, j))
+            current_fidpairs = set(plaq.fidpairs)  # only keep pairs that are there now
+            fidpairs = [(i, j) for i, j in all_fidpairs if (prepStrs[i], effectStrs[j]) in current_fidpairs]
+            if seqs is not None:
+                fidpairs = [(i, j) for i, j in fidpairs if prepStrs[i] + basestr + effectStrs[j] in seqs]
 
             if (L in Ls) and (germ in germs):
                 cpy.add_plaquette(basestr, L, germ, fidpairs)
 
-        cpy.add_unindexed(self.unindexed)  # preserve unindexed strings
+        cpy.add_unindexed([s for s in self.unindexed if (seqs is None or s in seqs)])  # preserve unindexed strings
         return cpy
 
     def create_plaquette(self, baseStr, fidpairs=None):
-- 
2.43.0


From f23f54338aa51f8190a1bbf88e4127c9182f2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 157/195] fix: operation label aliases may be tuples of labels,
 as documented

---
 pygsti/objects/circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 0ae9363..8b35618 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -1719,7 +1719,7 @@ class Circuit(object):
         ----------
         alias_dict : dict
             A dictionary whose keys are layer Labels (or equivalent tuples or
-            strings), and whose values are Circuits.
+            strings), and whose values are Circuits (or tuples of labels).
 
         Returns
         -------
@@ -1729,6 +1729,7 @@ class Circuit(object):
             #Could to this in both cases, but is slow for large static circuits
             cpy = self.copy(editable=False)  # convert our layers to Labels
             if not alias_dict: return cpy
+            alias_dict = {label: (c if isinstance(c, Circuit) else Circuit(c)) for label, c in alias_dict.items()}
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = cpy._labels
             for label, c in alias_dict.items():
@@ -1738,6 +1739,7 @@ class Circuit(object):
 
         else:  # static case: so self._labels is a tuple of Labels
             if not alias_dict: return self  # no copy needed b/c static
+            alias_dict = {label: (c if isinstance(c, Circuit) else Circuit(c)) for label, c in alias_dict.items()}
             assert(all([c._static for c in alias_dict.values()])), "Alias dict values must be *static* circuits!"
             layers = self._labels  # a *tuple*
             for label, c in alias_dict.items():
-- 
2.43.0


From ac572ea91b080fcbd2a30e087e14820692ae1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 158/195] fix: the Python circuit parser reads state space
 labels as the compiled one does

---
 pygsti/io/circuitparser/slowcircuitparser.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pygsti/io/circuitparser/slowcircuitparser.py b/pygsti/io/circuitparser/slowcircuitparser.py
index f914751..fa20c3d 100644
--- a/pygsti/io/circuitparser/slowcircuitparser.py
+++ b/pygsti/io/circuitparser/slowcircuitparser.py
@@ -134,11 +134,8 @@ def _get_next_simple_lbl(s, start, end, integerize_sslbls, segment):
             else:
                 break
         if integerize_sslbls:
-            try:
-                val = int(s[last:i])
-            except:
-                val = s[last:i]
-            sslbls.append(val); last = i
+            is_int = all(['0' <= c <= '9' for c in s[last:i]])
+            sslbls.append(int(s[last:i]) if is_int else s[last:i]); last = i
         else:
             sslbls.append(s[last:i]); last = i
 
-- 
2.43.0


From 946f9d49d640e158b073c0a1a54cb508b8d738c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 159/195] fix: counts, times and repetitions are written with
 all their digits

---
 pygsti/io/stdinput.py |  2 +-
 pygsti/io/writers.py  | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index c73d159..7f2bb36 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -422,7 +422,7 @@ class StdInputParser(object):
                         elif parts[0] == 'outcomes:':
                             current_item['outcomes'] = parts[1:]  # no conversion needed
                         elif parts[0] == 'repetitions:':
-                            current_item['repetitions'] = [int(x) for x in parts[1:]]
+                            current_item['repetitions'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'aux:':
                             current_item['aux'] = parse_comment(" ".join(parts[1:]), filename, iLine)
                         else:
diff --git a/pygsti/io/writers.py b/pygsti/io/writers.py
index 5826a2c..045971b 100644
--- a/pygsti/io/writers.py
+++ b/pygsti/io/writers.py
@@ -68,6 +68,12 @@ def _outcome_to_str(x):
     else: return ":".join([str(i) for i in x])
 
 
+def _num_to_str(x):
+    """ Formats a number compactly, without losing any of its digits. """
+    s = "%g" % x
+    return s if float(s) == x else repr(float(x))
+
+
 def write_dataset(filename, dataset, circuit_list=None,
                   outcomeLabelOrder=None, fixedColumnMode=True, withTimes="auto"):
     """
@@ -147,24 +153,24 @@ def write_dataset(filename, dataset, circuit_list=None,
             if fixedColumnMode:
                 #output '--' for outcome labels that aren't present in this row
                 output.write(circuit_to_write.str + "  "
-                             + "  ".join([(("%g" % counts[ol]) if (ol in counts) else '--')
+                             + "  ".join([(_num_to_str(counts[ol]) if (ol in counts) else '--')
                                           for ol in outcomeLabels]))
                 if dataRow.aux: output.write(" # %s" % str(repr(dataRow.aux)))  # write aux info
                 output.write('\n')  # finish the line
 
             elif trivial_times:  # use expanded label:count format
                 output.write(circuit_to_write.str + "  "
-                             + "  ".join([("%s:%g" % (_outcome_to_str(ol), counts[ol]))
+                             + "  ".join([("%s:%s" % (_outcome_to_str(ol), _num_to_str(counts[ol])))
                                           for ol in outcomeLabels if ol in counts]))
                 if dataRow.aux: output.write(" # %s" % str(repr(dataRow.aux)))  # write aux info
                 output.write('\n')  # finish the line
 
             else:
                 output.write(circuit_to_write.str + "\n"
-                             + "times: " + "  ".join(["%g" % tm for tm in dataRow.time]) + "\n"
+                             + "times: " + "  ".join([_num_to_str(tm) for tm in dataRow.time]) + "\n"
                              + "outcomes: " + "  ".join([_outcome_to_str(ol) for ol in dataRow.outcomes]) + "\n")
                 if dataRow.reps is not None:
-                    output.write("repetitions: " + "  ".join(["%d" % rep for rep in dataRow.reps]) + "\n")
+                    output.write("repetitions: " + "  ".join([_num_to_str(rep) for rep in dataRow.reps]) + "\n")
                 if dataRow.aux:
                     output.write("aux: " + str(repr(dataRow.aux)) + "\n")
                 output.write('\n')  # blank line between circuits
@@ -230,7 +236,7 @@ def write_multidataset(filename, multidataset, circuit_list=None, outcomeLabelOr
             # circuit_to_write = _objs.DataSet.strip_occurence_tag(circuit) \
             #     if strip_occurence_tags else circuit
             cnts = [ds[circuit].counts.get(ol, '--') for ds in datasets for ol in outcomeLabels]
-            output.write(circuit.str + "  " + "  ".join([(("%g" % cnt) if (cnt != '--') else cnt)
+            output.write(circuit.str + "  " + "  ".join([(_num_to_str(cnt) if (cnt != '--') else cnt)
                                                          for cnt in cnts]) + '\n')
             #write aux info
             if multidataset.auxInfo[circuit]:
-- 
2.43.0


From dcf497573340789a75e895c5e4040d7e5f9887e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 160/195] fix: outcomes with several parts are read from
 time-stamped data files

---
 pygsti/io/stdinput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 7f2bb36..4f2777a 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -420,7 +420,7 @@ class StdInputParser(object):
                         if parts[0] == 'times:':
                             current_item['times'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'outcomes:':
-                            current_item['outcomes'] = parts[1:]  # no conversion needed
+                            current_item['outcomes'] = [tuple(x.split(':')) for x in parts[1:]]
                         elif parts[0] == 'repetitions:':
                             current_item['repetitions'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'aux:':
-- 
2.43.0


From 8a1e9c42c98918355470365d179b6c5cacaa29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 161/195] fix: auxiliary information of time-stamped data is
 read as it was written

---
 pygsti/io/stdinput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 4f2777a..f1cdf07 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -424,7 +424,7 @@ class StdInputParser(object):
                         elif parts[0] == 'repetitions:':
                             current_item['repetitions'] = [float(x) for x in parts[1:]]
                         elif parts[0] == 'aux:':
-                            current_item['aux'] = parse_comment(" ".join(parts[1:]), filename, iLine)
+                            current_item['aux'] = parse_comment(line[len('aux:'):], filename, iLine)  # may contain #'s
                         else:
                             raise ValueError("Invalid circuit data-line prefix: '%s'" % parts[0])
 
-- 
2.43.0


From 7fcb9e31f04cdf9312d9b12d71d6f381f7b6fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 162/195] fix: multi data set files keep auxiliary information
 and repeated circuits

---
 pygsti/io/writers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygsti/io/writers.py b/pygsti/io/writers.py
index 045971b..fb5ae20 100644
--- a/pygsti/io/writers.py
+++ b/pygsti/io/writers.py
@@ -228,16 +228,16 @@ def write_multidataset(filename, multidataset, circuit_list=None, outcomeLabelOr
                                                  for ol in outcomeLabels])
     # parser = _stdinput.StdInputParser()
 
-    # strip_occurence_tags = any([ca == "keepseparate" for ca in multidataset.collisionActions.values()])
+    strip_occurence_tags = any([ca == "keepseparate" for ca in multidataset.collisionActions.values()])
     datasets = [multidataset[dsl] for dsl in dsLabels]
     with open(str(filename), 'w') as output:
         output.write(headerString + '\n')
         for circuit in circuit_list:  # circuit should be a Circuit object here
-            # circuit_to_write = _objs.DataSet.strip_occurence_tag(circuit) \
-            #     if strip_occurence_tags else circuit
+            circuit_to_write = _objs.DataSet.strip_occurence_tag(circuit) \
+                if strip_occurence_tags else circuit
             cnts = [ds[circuit].counts.get(ol, '--') for ds in datasets for ol in outcomeLabels]
-            output.write(circuit.str + "  " + "  ".join([(_num_to_str(cnt) if (cnt != '--') else cnt)
-                                                         for cnt in cnts]) + '\n')
+            output.write(circuit_to_write.str + "  " + "  ".join([(_num_to_str(cnt) if (cnt != '--') else cnt)
+                                                                  for cnt in cnts]))
             #write aux info
             if multidataset.auxInfo[circuit]:
                 output.write(" # %s" % str(repr(multidataset.auxInfo[circuit])))
-- 
2.43.0


From e26ba0c8fccebaa5f2f8aa2ff71c1fe9dcb871ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 163/195] fix: values missing on one line of a multi data set
 file are not taken from the line before

---
 pygsti/io/stdinput.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index f1cdf07..9a0a6a3 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -588,9 +588,6 @@ class StdInputParser(object):
             datasets[dsLabel] = _objs.DataSet(outcomeLabels=outcomeLabels,
                                               collisionAction=collisionAction)
 
-        dsCountDicts = _OrderedDict()
-        for dsLabel in dsOutcomeLabels: dsCountDicts[dsLabel] = {}
-
         nLines = 0
         with open(filename, 'r') as datafile:
             nLines = sum(1 for line in datafile)
@@ -637,6 +634,7 @@ class StdInputParser(object):
                                       check=False, expand_subcircuits=False)  # , lookup=lookupDict)
                 #Note: don't expand subcircuits because we've already directed parse_dataline to expand if needed
                 bBad = ('BAD' in valueList)  # supresses warnings
+                dsCountDicts = _OrderedDict([(dsLabel, {}) for dsLabel in dsOutcomeLabels])
                 self._fillMultiDataCountDicts(dsCountDicts, fillInfo, valueList)
 
                 bSkip = False
-- 
2.43.0


From 7f553a43a158a4d17fd33ed4774346e97dce71f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 164/195] fix: lines of multi data set files may be marked BAD

---
 pygsti/io/stdinput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 9a0a6a3..3064631 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -714,6 +714,9 @@ class StdInputParser(object):
         return dsOutcomeLabels, fillInfo
 
     def _fillMultiDataCountDicts(self, countDicts, fillInfo, colValues):
+        if 'BAD' in colValues:
+            return  # indicates entire row is known to be BAD (no counts)
+
         countCols, freqCols, impliedCounts1Q = fillInfo
 
         for dsLabel, outcomeLabel, iCol in countCols:
-- 
2.43.0


From 8b13a2b7a0a0cff34cd0ac404f6783573ee1fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:43 +0000
Subject: [PATCH 165/195] fix: outcomes with several parts are read from multi
 data set files

---
 pygsti/io/stdinput.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 3064631..0773fc1 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -668,6 +668,9 @@ class StdInputParser(object):
     def _extractLabelsFromMultiDataColLabels(self, colLabels):
         dsOutcomeLabels = _OrderedDict()
         countCols = []; freqCols = []; impliedCounts1Q = []
+        def str_to_outcome(x):  # outcomes with several parts are tuples
+            return tuple(x.split(":")) if ":" in x else x
+
         for i, colLabel in enumerate(colLabels):
             wordsInColLabel = colLabel.split()  # split on whitespace into words
             if len(wordsInColLabel) < 3: continue  # allow other columns we don't recognize
@@ -675,7 +678,7 @@ class StdInputParser(object):
             if wordsInColLabel[-1] == 'count':
                 if len(wordsInColLabel) > 3:
                     _warnings.warn("Column label '%s' has more words than were expected (3)" % colLabel)
-                outcomeLabel = wordsInColLabel[-2]
+                outcomeLabel = str_to_outcome(wordsInColLabel[-2])
                 dsLabel = wordsInColLabel[-3]
                 if dsLabel not in dsOutcomeLabels:
                     dsOutcomeLabels[dsLabel] = [outcomeLabel]
@@ -685,7 +688,7 @@ class StdInputParser(object):
             elif wordsInColLabel[-1] == 'frequency':
                 if len(wordsInColLabel) > 3:
                     _warnings.warn("Column label '%s' has more words than were expected (3)" % colLabel)
-                outcomeLabel = wordsInColLabel[-2]
+                outcomeLabel = str_to_outcome(wordsInColLabel[-2])
                 dsLabel = wordsInColLabel[-3]
                 if '%s count total' % dsLabel not in colLabels:
                     raise ValueError("Frequency columns specified without"
-- 
2.43.0


From 6b0d29f8b1aa9f091555ab866c7fae0a0ab81af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 166/195] fix: sub-circuits are always written so that they are
 read as the same sub-circuit

---
 pygsti/objects/circuit.py | 10 +++++-----
 pygsti/objects/label.py   | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 8b35618..7a8d663 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -15,7 +15,7 @@ import itertools as _itertools
 import warnings as _warnings
 
 from . import labeldicts as _ld
-from .label import Label as _Label, CircuitLabel as _CircuitLabel
+from .label import Label as _Label, CircuitLabel as _CircuitLabel, _str_within_circuit
 from ..io import CircuitParser as _CircuitParser
 from ..tools import internalgates as _itgs
 from ..tools import compattools as _compat
@@ -142,13 +142,13 @@ def _opSeqToStr(seq, line_labels):
         if line_labels is None or line_labels == ('*',): return "{}"
         else: return "{}@(" + ','.join(map(str, line_labels)) + ")"
 
-    def process_lists(el): return el if not isinstance(el, list) else \
-        ('[%s]' % ''.join(map(str, el)) if (len(el) != 1) else str(el[0]))
+    def layer_to_str(el): return _str_within_circuit(el) if not isinstance(el, list) else \
+        ('[%s]' % ''.join(map(layer_to_str, el)) if (len(el) != 1) else layer_to_str(el[0]))
 
     if line_labels is None or line_labels == ('*',):
-        return ''.join(map(str, map(process_lists, seq)))
+        return ''.join(map(layer_to_str, seq))
     else:
-        return ''.join(map(str, map(process_lists, seq))) \
+        return ''.join(map(layer_to_str, seq)) \
             + "@(" + ','.join(map(str, line_labels)) + ")"
 
 
diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index ea27b17..6fa4e00 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -16,6 +16,11 @@ import inspect
 debug_record = {}
 
 
+def _str_within_circuit(lbl):
+    """ The string for `lbl` as a part of a circuit or layer """
+    return lbl._tostr(True) if isinstance(lbl, CircuitLabel) else str(lbl)
+
+
 class Label(object):
     """
     A label consisting of a string along with a tuple of
@@ -637,7 +642,7 @@ class LabelTupTup(Label, tuple):
         """
         Defines how a Label is printed out, e.g. Gx:0 or Gcnot:1:2
         """
-        return "[" + "".join([str(lbl) for lbl in self]) + "]"
+        return "[" + "".join([_str_within_circuit(lbl) for lbl in self]) + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
@@ -863,15 +868,22 @@ class CircuitLabel(Label, tuple):
         """
         Defines how a Label is printed out, e.g. Gx:0 or Gcnot:1:2
         """
+        return self._tostr(False)
+
+    def _tostr(self, always_parenthesize):
+        """
+        This label as a string. Within a circuit or layer, parentheses are needed
+        (even around a single layer) to be read as a sub-circuit again.
+        """
         if len(self.name) > 0:
             s = self.name
             if self.time != 0.0:
                 s += ("!%f" % self.time).rstrip('0').rstrip('.')
         else:
-            s = "".join([str(lbl) for lbl in self.components])
-            if self.time != 0.0:
-                s += ("!%f" % self.time).rstrip('0').rstrip('.')
-            if len(self.components) > 1:
+            s = "".join([_str_within_circuit(lbl) for lbl in self.components])
+            if self.time != 0.0 and all([lbl.time == 0.0 for lbl in self.components]):
+                s += ("!%f" % self.time).rstrip('0').rstrip('.')  # (otherwise given by the components' times)
+            if always_parenthesize or len(self.components) > 1:
                 s = "(" + s + ")"  # add parenthesis
         if self[2] != 1: s += "^%d" % self[2]
         return s
@@ -1307,7 +1319,7 @@ class LabelTupTupWithArgs(Label, tuple):
         else:
             timestr = ""
 
-        return "[" + "".join([str(lbl) for lbl in self.components]) + argstr + timestr + "]"
+        return "[" + "".join([_str_within_circuit(lbl) for lbl in self.components]) + argstr + timestr + "]"
 
     def __repr__(self):
         return "Label[" + str(self) + "]"
-- 
2.43.0


From 8f499a63d89a5e32d25efffb5d3ed90294615521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 167/195] fix: all outcomes of multi data set files are stored
 as outcome labels

---
 pygsti/io/stdinput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 0773fc1..1dc5bb4 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -634,7 +634,8 @@ class StdInputParser(object):
                                       check=False, expand_subcircuits=False)  # , lookup=lookupDict)
                 #Note: don't expand subcircuits because we've already directed parse_dataline to expand if needed
                 bBad = ('BAD' in valueList)  # supresses warnings
-                dsCountDicts = _OrderedDict([(dsLabel, {}) for dsLabel in dsOutcomeLabels])
+                dsCountDicts = _OrderedDict([(dsLabel, _objs.labeldicts.OutcomeLabelDict())
+                                             for dsLabel in dsOutcomeLabels])
                 self._fillMultiDataCountDicts(dsCountDicts, fillInfo, valueList)
 
                 bSkip = False
-- 
2.43.0


From 46ede1222b5212789e1bad65a43efa8175e2be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 168/195] fix: the string of a circuit repeated once without
 expanding it is that of the circuit

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 7a8d663..36ba6ca 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -532,7 +532,7 @@ class Circuit(object):
         assert((_compat.isint(ntimes) or _np.issubdtype(ntimes, int)) and ntimes >= 0)
         mystr, mylines = self._labels_lines_str()
         if ntimes > 1: s = "(%s)^%d" % (mystr, ntimes)
-        elif ntimes == 1: s = "(%s)" % mystr
+        elif ntimes == 1: s = mystr if (expand is False) else "(%s)" % mystr
         else: s = "{}"
         if mylines is not None:
             s += "@" + mylines  # add line labels
-- 
2.43.0


From 3d4b17869e81739b19f5848b621ab057a4f80f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 169/195] fix: auxiliary information of repeated circuits is
 read to the circuit it belongs to

---
 pygsti/io/stdinput.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/io/stdinput.py b/pygsti/io/stdinput.py
index 1dc5bb4..5b4a26d 100644
--- a/pygsti/io/stdinput.py
+++ b/pygsti/io/stdinput.py
@@ -651,6 +651,8 @@ class StdInputParser(object):
                             warnings.append("Dataline for circuit '%s' has zero counts." % s)
 
                 if not bSkip:
+                    for ds in datasets.values():  # all have the same circuits => the same occurrence tag
+                        opStr = ds._keepseparate_update_circuit(opStr)
                     for dsLabel, countDict in dsCountDicts.items():
                         datasets[dsLabel].add_count_dict(
                             opStr, countDict, recordZeroCnts=recordZeroCnts, update_ol=False)
-- 
2.43.0


From aa2748b866b91354a53eb8dcaf00882f4201f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 170/195] fix: repeating an empty circuit gives an empty
 circuit

---
 pygsti/objects/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 36ba6ca..671727b 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -536,7 +536,7 @@ class Circuit(object):
         else: s = "{}"
         if mylines is not None:
             s += "@" + mylines  # add line labels
-        if ntimes > 1 and expand is False:
+        if ntimes > 1 and expand is False and len(self._labels) > 0:
             reppedCircuitLbl = self.as_label(nreps=ntimes)
             return Circuit((reppedCircuitLbl,), self.line_labels, None, not self._static, s, check=False,
                            expand_subcircuits=False)
-- 
2.43.0


From 97f2c5665c04bf0d2da7b3498bb469f322d436d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 171/195] fix: an editable circuit's string follows its edits
 and must describe the whole circuit

---
 pygsti/objects/circuit.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 671727b..412e354 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -447,6 +447,8 @@ class Circuit(object):
     @property
     def str(self):
         """ The Python string representation of this Circuit."""
+        if not self._static and self._str is not None and not self._is_described_by(self._str):
+            self._str = None  # the circuit has been edited since its string was set
         if self._str is None:
             generated_str = _opSeqToStr(self._labels, self.line_labels)  # lazy generation
             if self._static:  # if we're read-only then cache the string one and for all,
@@ -455,6 +457,16 @@ class Circuit(object):
         else:
             return self._str
 
+    def _has_layers_of(self, stringrep):
+        """ Whether `stringrep` evaluates to this circuit's layers (with or without expanding sub-circuits) """
+        return any([Circuit(None, stringrep=stringrep, check=False, expand_subcircuits=expand).layertup == self.layertup
+                    for expand in (False, True)])
+
+    def _is_described_by(self, stringrep):
+        """ Whether `stringrep` evaluates to this circuit's layers and line labels """
+        return self._has_layers_of(stringrep) and \
+            Circuit(None, stringrep=stringrep, check=False).line_labels == self.line_labels
+
     def _labels_lines_str(self):
         """ Split the string representation up into layer-labels & line-labels parts """
         if '@' in self.str:
@@ -471,7 +483,7 @@ class Circuit(object):
         cparser = _CircuitParser()
         chk, chk_labels = cparser.parse(value)
 
-        if not all([my_layer in (chk_lbl, [chk_lbl]) for chk_lbl, my_layer in zip(chk, self._labels)]):
+        if not self._has_layers_of(value):
             raise ValueError(("Cannot set .str to %s because it doesn't"
                               " evaluate to %s (this circuit)") %
                              (value, self.str))
@@ -588,7 +600,8 @@ class Circuit(object):
         Circuit
         """
         if editable == "auto": editable = not self._static
-        return Circuit(self.layertup, self.line_labels, None, editable, self._str, check=False)
+        stringrep = self._str if (self._str is None) else self.str  # (updates an editable circuit's string)
+        return Circuit(self.layertup, self.line_labels, None, editable, stringrep, check=False)
 
     def clear(self):
         """
@@ -3149,6 +3162,7 @@ class Circuit(object):
         None
         """
         if not self._static:
+            if self._str is not None: self._str = self.str  # drops a string set before the last edit
             self._static = True
             self._labels = tuple([_Label(layer_lbl) for layer_lbl in self._labels])
 
-- 
2.43.0


From 95fb03ba667f9ab3b4369048cd135355d36cf821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 172/195] fix: arrays can be encoded with any version of numpy

---
 pygsti/io/jsoncodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 3842b99..a86bb4f 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -196,7 +196,7 @@ def encode_std_obj(py_obj, binary):
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
         data = py_obj.tobytes() if binary else tostr(_base64.b64encode(py_obj.tobytes()))
-        if(py_obj.dtype == _np.object): raise TypeError("Cannot serialize object ndarrays!")
+        if py_obj.dtype.hasobject: raise TypeError("Cannot serialize object ndarrays!")
         return {'__ndarray__': data,
                 'dtype': descr,
                 'kind': kind,
-- 
2.43.0


From da0f54d274b2ace157ec6eb0d75bcc102c998111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 173/195] fix: numpy complex numbers are decoded as numpy
 complex numbers

---
 pygsti/io/jsoncodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index a86bb4f..2de167d 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -176,7 +176,7 @@ def encode_std_obj(py_obj, binary):
                               for k, v in py_obj.items()]}
     elif isinstance(py_obj, _uuid.UUID):
         return {'__uuid__': str(py_obj.hex)}
-    elif isinstance(py_obj, complex):
+    elif isinstance(py_obj, complex) and not isinstance(py_obj, _np.number):
         rep = py_obj.__repr__()  # a string
         data = tobin(rep) if binary else rep  # binary if need be
         return {'__complex__': data}
-- 
2.43.0


From 562759a530e92cae86d7d21f79d541d203fad0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 174/195] fix: structured arrays can be decoded

---
 pygsti/io/jsoncodec.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 2de167d..0ae85d7 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -189,9 +189,9 @@ def encode_std_obj(py_obj, binary):
     elif isinstance(py_obj, _np.ndarray):
         # If the dtype is structured, store the interface description;
         # otherwise, store the corresponding array protocol type string:
-        if py_obj.dtype.kind == 'V':
+        if py_obj.dtype.names is not None:
             kind = 'V'
-            descr = tobin(py_obj.dtype.descr) if binary else tostr(py_obj.dtype.descr)
+            descr = py_obj.dtype.descr
         else:
             kind = ''
             descr = tobin(py_obj.dtype.str) if binary else tostr(py_obj.dtype.str)
@@ -374,8 +374,7 @@ def decode_std_obj(json_obj, binary):
         # Check if 'kind' is in json_obj to enable decoding of data
         # serialized with older versions:
         if json_obj[B('kind')] == 'V':
-            descr = [tuple(tostr(t) if isinstance(t, bytes) else t for t in d)
-                     for d in json_obj[B('dtype')]]
+            descr = decode_descr(json_obj[B('dtype')])
         else:
             descr = json_obj[B('dtype')]
         data = json_obj[B('__ndarray__')] if binary else \
@@ -395,6 +394,31 @@ def decode_std_obj(json_obj, binary):
         return getattr(module, tostr(fnname))
 
 
+def decode_descr(json_descr):
+    """
+    Restores the description of a structured numpy dtype (tuples are encoded as lists)
+
+    Parameters
+    ----------
+    json_descr : list
+        The JSON-compatible `descr` attribute of a dtype: a list of lists, each
+        holding a field's name, its type (a string or again a list of fields), and
+        optionally its shape.
+
+    Returns
+    -------
+    list of tuples
+    """
+    def as_str(x): return x if isinstance(x, str) else tostr(x)
+    fields = []
+    for field in json_descr:
+        name, typ = field[0:2]
+        name = tuple(map(as_str, name)) if isinstance(name, (tuple, list)) else as_str(name)
+        typ = decode_descr(typ) if isinstance(typ, (tuple, list)) else as_str(typ)
+        fields.append((name, typ) + tuple([tuple(shape) for shape in field[2:]]))
+    return fields
+
+
 def tostr(x):
     """
     Convert a value to the native string format.
-- 
2.43.0


From 0ac90fac90ce56a38fd43ad9c3e69d6aeca36e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 175/195] fix: objects without a __getstate__ of their own are
 encoded with any version of python

---
 pygsti/io/jsoncodec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygsti/io/jsoncodec.py b/pygsti/io/jsoncodec.py
index 0ae85d7..812ccf7 100644
--- a/pygsti/io/jsoncodec.py
+++ b/pygsti/io/jsoncodec.py
@@ -24,6 +24,13 @@ def class_hasattr(instance, attr):
     return hasattr(instance.__class__, attr)
 
 
+def is_default_getstate(instance):
+    """
+    Whether `instance` has just the `__getstate__` that python (3.11+) defines for every object.
+    """
+    return getattr(instance.__class__, '__getstate__', None) is getattr(object, '__getstate__', False)
+
+
 def encode_obj(py_obj, binary):
     """
     Returns JSON-compatible version of `py_obj`.
@@ -78,7 +85,7 @@ def encode_obj(py_obj, binary):
             state.update({'__init_args__': init_args})
         elif class_hasattr(py_obj, '__pygsti_getstate__'):
             state = py_obj.__pygsti_getstate__()  # must return a dict
-        elif class_hasattr(py_obj, '__getstate__'):
+        elif class_hasattr(py_obj, '__getstate__') and not is_default_getstate(py_obj):
             state = py_obj.__getstate__()
         elif hasattr(py_obj, '__dict__'):
             state = py_obj.__dict__  # take __dict__ as state
-- 
2.43.0


From a6d51e2997d927e48bb55b76628a1a49bebb297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 176/195] fix: copies of a label with a time have its name

---
 pygsti/objects/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 6fa4e00..3cac16d 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -506,7 +506,7 @@ class LabelStr(Label, str):
     def __reduce__(self):
         # Need to tell serialization logic how to create a new Label since it's derived
         # from the immutable tuple type (so cannot have its state set after creation)
-        return (LabelStr, (str(self), self.time), None)
+        return (LabelStr, (self.name, self.time), None)
 
     def tonative(self):
         """ Returns this label as native python types.  Useful for
-- 
2.43.0


From 979dd9fc552dc9223fb19675932505d2a1491a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 177/195] fix: the native form of a label with a time has its
 name

---
 pygsti/objects/label.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/label.py b/pygsti/objects/label.py
index 3cac16d..85408d8 100644
--- a/pygsti/objects/label.py
+++ b/pygsti/objects/label.py
@@ -512,7 +512,7 @@ class LabelStr(Label, str):
         """ Returns this label as native python types.  Useful for
             faster serialization.
         """
-        return str(self)
+        return self.name  # (without the time, like other labels)
 
     def replacename(self, oldname, newname):
         """ Returns a label with `oldname` replaced by `newname`."""
-- 
2.43.0


From 44f2574ce8eebc84083dc8e4bd11ccf7353c901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 178/195] fix: the copy of a multi data set doesn't share its
 counts with the original

---
 pygsti/objects/multidataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/multidataset.py b/pygsti/objects/multidataset.py
index 5cf12ac..ef256c0 100644
--- a/pygsti/objects/multidataset.py
+++ b/pygsti/objects/multidataset.py
@@ -534,7 +534,7 @@ class MultiDataSet(object):
 
     def copy(self):
         """ Make a copy of this MultiDataSet """
-        return MultiDataSet(self.oliDict, self.timeDict, self.repDict,
+        return MultiDataSet(_copy.deepcopy(self.oliDict), _copy.deepcopy(self.timeDict), _copy.deepcopy(self.repDict),
                             circuitIndices=_copy.deepcopy(self.cirIndex) if (self.cirIndex is not None) else None,
                             outcomeLabelIndices=_copy.deepcopy(self.olIndex) if (self.olIndex is not None) else None,
                             collisionActions=self.collisionActions, comments=_copy.deepcopy(self.comments),
-- 
2.43.0


From 38c81f12b2473d886210cb888e577f712825c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:35 +0000
Subject: [PATCH 179/195] fix: the copy of a circuit has the same sub-circuits

---
 pygsti/objects/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/circuit.py b/pygsti/objects/circuit.py
index 412e354..5903651 100644
--- a/pygsti/objects/circuit.py
+++ b/pygsti/objects/circuit.py
@@ -601,7 +601,8 @@ class Circuit(object):
         """
         if editable == "auto": editable = not self._static
         stringrep = self._str if (self._str is None) else self.str  # (updates an editable circuit's string)
-        return Circuit(self.layertup, self.line_labels, None, editable, stringrep, check=False)
+        return Circuit(self.layertup, self.line_labels, None, editable, stringrep, check=False,
+                       expand_subcircuits=False)  # any sub-circuits stay as they are
 
     def clear(self):
         """
-- 
2.43.0


From a4939b61294e18fe61a82503b9e095fbe4293c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 180/195] fix: standard target models can be parameterized by
 H+S terms

---
 pygsti/construction/stdtarget.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/construction/stdtarget.py b/pygsti/construction/stdtarget.py
index c18cd92..b6892bc 100644
--- a/pygsti/construction/stdtarget.py
+++ b/pygsti/construction/stdtarget.py
@@ -61,7 +61,7 @@ def _make_HScache_for_std_model(std_module, termOrder, maxLength, json_too=False
     mdl_terms = target_model.copy()
     mdl_terms.set_all_parameterizations("H+S terms")  # CPTP terms?
     my_calc_cache = {}
-    mdl_terms.set_simtype("termorder:%d" % termOrder, my_calc_cache)
+    mdl_terms.set_simtype("termorder", max_order=termOrder, cache=my_calc_cache)
 
     comm_method = "scheduler"
     if comm is not None and comm.Get_size() > 1 and comm_method == "scheduler":
@@ -346,7 +346,7 @@ def _copy_target(std_module, param_type, sim_type="auto", gscache=None):
             if _os.path.exists(key_fn) and _os.path.exists(val_fn):
                 calc_cache = _load_calccache(key_fn, val_fn)
 
-        mdl.set_simtype(simt, calc_cache)
+        mdl.set_simtype("termorder", max_order=int(simt.split(":")[1]), cache=calc_cache)
     else:
         if sim_type != "auto":
             mdl.set_simtype(sim_type)
-- 
2.43.0


From 5e16500e9b7ba79d51a8a570642fde86ff733abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 181/195] fix: the copy of a term-based evaluation tree can be
 used as the original

---
 pygsti/objects/termevaltree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pygsti/objects/termevaltree.py b/pygsti/objects/termevaltree.py
index a93fbfc..339d662 100644
--- a/pygsti/objects/termevaltree.py
+++ b/pygsti/objects/termevaltree.py
@@ -32,6 +32,10 @@ class TermEvalTree(EvalTree):
 
         # Trivially init other members - to be filled in by initialize() or by subtree creation
         self.simplified_circuit_elabels = None
+        self.pathset = None
+        self.percircuit_p_polys = {}
+        self.merged_compact_polys = None
+        self.merged_achievedsopm_compact_polys = None
 
         super(TermEvalTree, self).__init__(items)
 
@@ -411,6 +415,10 @@ class TermEvalTree(EvalTree):
         cpy = self._copyBase(TermEvalTree(self[:]))
         cpy.opLabels = self.opLabels[:]
         cpy.simplified_circuit_elabels = _copy.deepcopy(self.simplified_circuit_elabels)
+        cpy.pathset = self.pathset  # (path-sets and polynomials are replaced, not altered)
+        cpy.percircuit_p_polys = self.percircuit_p_polys.copy()
+        cpy.merged_compact_polys = self.merged_compact_polys
+        cpy.merged_achievedsopm_compact_polys = self.merged_achievedsopm_compact_polys
         return cpy
 
     def get_achieved_and_max_sopm(self, calc):
-- 
2.43.0


From 529f359caef47b639195b797f8ea6bc3a29f4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 182/195] fix: embedded bases are equal when their state spaces
 are

---
 pygsti/objects/basis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygsti/objects/basis.py b/pygsti/objects/basis.py
index 270b655..8ed4936 100644
--- a/pygsti/objects/basis.py
+++ b/pygsti/objects/basis.py
@@ -1305,7 +1305,10 @@ class EmbeddedBasis(LazyBasis):
     def __eq__(self, other):
         otherIsBasis = isinstance(other, EmbeddedBasis)
         if not otherIsBasis: return False  # can't be equal to a non-EmbeddedBasis
-        if self.target_labels != other.target_labels or self.state_space_labels != other.state_space_labels:
+        if self.target_labels != other.target_labels: return False
+        sslbls, other_sslbls = self.state_space_labels, other.state_space_labels
+        if (sslbls.labels, sslbls.labeldims, sslbls.labeltypes) != \
+           (other_sslbls.labels, other_sslbls.labeldims, other_sslbls.labeltypes):
             return False
         return self.embedded_basis == other.embedded_basis
 
-- 
2.43.0


From 5ed16d0a1a7605aacb97865d6db368f3134a00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 183/195] fix: stabilizer frames of computational states have
 their qubits in order

---
 pygsti/objects/stabilizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index d679eb4..6bf709d 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -79,8 +79,8 @@ class StabilizerFrame(object):
         p = _np.zeros(2 * nqubits, int)
         if zvals is not None:
             for i, z in enumerate(zvals):
-                p[i] = p[i + nqubits] = 2 if bool(z) else 0
-                # TODO: check this is right -- (how/need to update the destabilizers?)
+                # the columns are flipped: those acting on qubit i are nqubits-1-i and 2*nqubits-1-i
+                p[nqubits - 1 - i] = p[2 * nqubits - 1 - i] = 2 if bool(z) else 0
         return cls(s, [p], [1.0])
 
     def __init__(self, state_s, state_ps=None, amps=None):
-- 
2.43.0


From 1de6a46103e00bcc0e1eb249a39c84d8c7210ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 184/195] fix: tensor products of stabilizer frames keep the
 phases of the factors

---
 pygsti/objects/stabilizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index 6bf709d..f9750d1 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -824,11 +824,13 @@ def sframe_kronecker(sframe_factors):
     inds = [range(len(sf.ps)) for sf in sframe_factors]
     for ii in _itertools.product(*inds):
         pout = _np.zeros(2 * n, int); amp = 1.0
+        k = 0  # current qubit index
         for i, sf in zip(ii, sframe_factors):
             nq = sf.nqubits
             pout[k:k + nq] = sf.ps[i][0:nq]
             pout[n + k:n + k + nq] = sf.ps[i][nq:2 * nq]
             amp *= sf.a[i]
+            k += nq
         ps_out.append(pout)
         amps_out.append(amp)
 
-- 
2.43.0


From eb0278a1c37d57e955f109039dfabbf29085ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 185/195] fix: column sums of compiled stabilizer frames with
 several amplitudes

---
 pygsti/objects/replib/fastreps.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 14e8329..2624001 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -1628,12 +1628,12 @@ namespace CReps {
     for(INT p=0; p<_namps; p++) {
       pvec = &_pvectors[ _2n*p ]; // p-th vector
       pvec[i] = (pvec[i] + pvec[j] + 2* udot1(i,j)) % 4;
-      for(k=0; k<_n; k++) {
-	row = k*_2n;
-	s[row+i] = s[row+j] ^ s[row+i];
-	row = (k+_n)*_2n;
-	s[row+i] = s[row+j] ^ s[row+i];
-      }
+    }
+    for(k=0; k<_n; k++) {
+      row = k*_2n;
+      s[row+i] = s[row+j] ^ s[row+i];
+      row = (k+_n)*_2n;
+      s[row+i] = s[row+j] ^ s[row+i];
     }
   }
   
-- 
2.43.0


From e5af2af5cd79170cea838a1ac5bbcf36d4936d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 186/195] fix: parity checks of sampled amplitudes in compiled
 stabilizer frames

---
 pygsti/objects/replib/fastreps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 2624001..1005927 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -1963,7 +1963,7 @@ namespace CReps {
 	}
       }
       if(inds.size() > 0) {
-	INT parity = (gen_p/2 - (fixed1s % 2)) % 2; // effective parity
+	INT parity = (gen_p/2 + fixed1s) % 2; // effective parity
 	INT* b = new INT[qs_to_sample.size()]; //els are just 0 or 1
 	INT bi;
 	for(bi=0; bi<(INT)qs_to_sample.size(); bi++) b[bi] = 0;
@@ -1972,7 +1972,7 @@ namespace CReps {
 	  // tup == b
 	  INT tup_parity = 0;
 	  for(INT kk=0; kk<(INT)inds.size(); kk++) tup_parity += b[inds[kk]];
-	  if(tup_parity != parity) { // parity among inds is NOT allowed => set ampl to zero
+	  if(tup_parity % 2 != parity) { // parity among inds is NOT allowed => set ampl to zero
 	    if(std::isnan(amp_samples[k].real())) remaining -= 1; //need NAN check here -- TODO replace -1 sentinels
 	    amp_samples[k] = 0.0;
 	  }
-- 
2.43.0


From 10242629f4eb6bdc4df96f13ae2e765b7fb16823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 187/195] fix: pure-Python stabilizer representations can embed
 trivial operations

---
 pygsti/objects/replib/slowreplib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index e170c72..f3c791d 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -986,7 +986,7 @@ class SBOpRep_Embedded(SBOpRep):
         state.sframe.push_view(self.qubits)
         outstate = self.embedded.acton(state)  # works b/c sfame has "view filters"
         state.sframe.pop_view()  # return input state to original view
-        outstate.sframe.pop_view()
+        if outstate is not state: outstate.sframe.pop_view()
         return outstate
 
     def adjoint_acton(self, state):
@@ -994,7 +994,7 @@ class SBOpRep_Embedded(SBOpRep):
         state.sframe.push_view(self.qubits)
         outstate = self.embedded.adjoint_acton(state)  # works b/c sfame has "view filters"
         state.sframe.pop_view()  # return input state to original view
-        outstate.sframe.pop_view()
+        if outstate is not state: outstate.sframe.pop_view()
         return outstate
 
 
-- 
2.43.0


From dcf367b740aec52a804001697e465ad406c3f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 188/195] fix: probability check of stabilizer frames with
 several amplitudes

---
 pygsti/objects/stabilizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/stabilizer.py b/pygsti/objects/stabilizer.py
index f9750d1..7077bdd 100644
--- a/pygsti/objects/stabilizer.py
+++ b/pygsti/objects/stabilizer.py
@@ -740,7 +740,7 @@ class StabilizerFrame(object):
 
         #2nd method using anticommutator - but we don't know how to update
         # global phase of state here either.
-        if check:
+        if check and len(self.ps) == 1:  # (branches can interfere)
             p_chk = sum([abs(a)**2 * _symp.stabilizer_measurement_prob((self.s, pr), zvals)
                          for a, pr in zip(self.a, self.ps)])
             assert(_np.isclose(p, p_chk)), \
-- 
2.43.0


From f4ca3abf44f492798099386370da6e56b9d4cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:06 +0000
Subject: [PATCH 189/195] fix: pure-Python composed and embedded state-vector
 representations

---
 pygsti/objects/replib/slowreplib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/replib/slowreplib.py b/pygsti/objects/replib/slowreplib.py
index f3c791d..0e55ffc 100644
--- a/pygsti/objects/replib/slowreplib.py
+++ b/pygsti/objects/replib/slowreplib.py
@@ -758,7 +758,7 @@ class SVOpRep_Embedded(SVOpRep):
         super(SVOpRep_Embedded, self).__init__(dim)
 
     def __reduce__(self):
-        return (DMOpRep_Embedded, (self.embedded,
+        return (SVOpRep_Embedded, (self.embedded,
                                    self.numBasisEls, self.actionInds,
                                    self.blocksizes, self.embeddedDim,
                                    self.nComponents, self.iActiveBlock,
@@ -820,7 +820,7 @@ class SVOpRep_Composed(SVOpRep):
     # exactly the same as DM case
     def __init__(self, factor_op_reps, dim):
         #assert(len(factor_op_reps) > 0), "Composed gates must contain at least one factor gate!"
-        self.factors_reps = factor_op_reps
+        self.factor_reps = factor_op_reps
         super(SVOpRep_Composed, self).__init__(dim)
 
     def __reduce__(self):
@@ -839,7 +839,7 @@ class SVOpRep_Composed(SVOpRep):
         return state
 
     def reinit_factor_op_reps(self, new_factor_op_reps):
-        self.factors_reps = new_factor_op_reps
+        self.factor_reps = new_factor_op_reps
 
 
 class SVOpRep_Sum(SVOpRep):
-- 
2.43.0


From dccc9b19a28fbba430e7d149837e63e486a8a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:25 +0000
Subject: [PATCH 190/195] fix: tensor products of stabilizer states and effects

---
 pygsti/objects/spamvec.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pygsti/objects/spamvec.py b/pygsti/objects/spamvec.py
index 90e32c3..4d2758c 100644
--- a/pygsti/objects/spamvec.py
+++ b/pygsti/objects/spamvec.py
@@ -1758,7 +1758,8 @@ class TensorProdSPAMVec(SPAMVec):
         elif evotype == "stabilizer":
             if typ == "prep":
                 #Rep is stabilizer-rep tuple, just like StabilizerSPAMVec
-                sframe_factors = [f.todense() for f in self.factors]  # StabilizerFrame for each factor
+                sframe_factors = [_stabilizer.StabilizerFrame(f._rep.smatrix, f._rep.pvectors, f._rep.amps)
+                                  for f in self.factors]  # StabilizerFrame for each factor
                 rep = _stabilizer.sframe_kronecker(sframe_factors).torep()
 
                 #Sometimes ???
@@ -1771,8 +1772,8 @@ class TensorProdSPAMVec(SPAMVec):
             else:  # self._prep_or_effect == "effect", so each factor is a StabilizerZPOVM
                 # like above, but get a StabilizerEffectVec from each StabilizerZPOVM factor
                 factorPOVMs = self.factors
-                factorVecs = [factorPOVMs[i][self.effectLbls[i]] for i in range(1, len(factorPOVMs))]
-                outcomes = _np.array(list(_itertools.chain(*[f.outcomes for f in factorVecs])), _np.int64)
+                factorVecs = [factorPOVMs[i][self.effectLbls[i]] for i in range(len(factorPOVMs))]
+                outcomes = _np.array(list(_itertools.chain(*[f._rep.zvals for f in factorVecs])), _np.int64)
                 rep = replib.SBEffectRep(outcomes)
 
                 #OLD - now can remove outcomes prop?
@@ -1832,11 +1833,12 @@ class TensorProdSPAMVec(SPAMVec):
                 # kinda punt and just create a new rep and copy its data over to the existing
                 # rep instead of having some kind of update method within SBStateRep...
                 # (TODO FUTURE - at least a .copy_from method?)
-                sframe_factors = [f.todense() for f in self.factors]  # StabilizerFrame for each factor
+                sframe_factors = [_stabilizer.StabilizerFrame(f._rep.smatrix, f._rep.pvectors, f._rep.amps)
+                                  for f in self.factors]  # StabilizerFrame for each factor
                 new_rep = _stabilizer.sframe_kronecker(sframe_factors).torep()
                 self._rep.smatrix[:, :] = new_rep.smatrix[:, :]
                 self._rep.pvectors[:, :] = new_rep.pvectors[:, :]
-                self._rep.amps[:, :] = new_rep.amps[:, :]
+                self._rep.amps[:] = new_rep.amps[:]
             else:
                 pass  # I think the below (e.g. 'outcomes') is not altered by any parameters
                 #factorPOVMs = self.factors
@@ -1867,9 +1869,10 @@ class TensorProdSPAMVec(SPAMVec):
 
             if self._prep_or_effect == "prep":
                 # => self.factors should all be StabilizerSPAMVec objs
-                #Return stabilizer-rep tuple, just like StabilizerSPAMVec
-                sframe_factors = [f.todense() for f in self.factors]
-                return _stabilizer.sframe_kronecker(sframe_factors)
+                #Return state vector, just like StabilizerSPAMVec
+                sframe_factors = [_stabilizer.StabilizerFrame(f._rep.smatrix, f._rep.pvectors, f._rep.amps)
+                                  for f in self.factors]  # StabilizerFrame for each factor
+                return _stabilizer.sframe_kronecker(sframe_factors).to_statevec()
 
             else:  # self._prep_or_effect == "effect", so each factor is a StabilizerEffectVec
                 raise ValueError("Cannot convert Stabilizer tensor product effect to an array!")
-- 
2.43.0


From 791aa100366fb1e7d9e008cad293b83a4721e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 191/195] fix: compositions and powers of stabilizer operations
 can be embedded in larger states

---
 pygsti/objects/replib/fastreps.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index 1005927..e67bab4 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -2276,7 +2276,7 @@ namespace CReps {
     _factor_gate_creps[0]->acton(state, tmp1);
     
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(std::size_t i=1; i < nfactors; i++) {
@@ -2309,7 +2309,7 @@ namespace CReps {
     _factor_gate_creps[nfactors-1]->adjoint_acton(state, tmp1);
 
     if(nfactors > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=nfactors-2; i >= 0; i--) {
@@ -2378,7 +2378,7 @@ namespace CReps {
     _exponentiated_gate_crep->acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
@@ -2414,7 +2414,7 @@ namespace CReps {
     _exponentiated_gate_crep->adjoint_acton(state, tmp1);
     
     if(_power > 1) {
-      SBStateCRep temp_state(tmp1->_namps,_n); tmp2 = &temp_state;
+      SBStateCRep temp_state(tmp1->_namps,tmp1->_n); tmp2 = &temp_state;
 
       //Act with additional gates: tmp1 -> tmp2 then swap, so output in tmp1
       for(INT i=1; i < _power; i++) {
-- 
2.43.0


From 24aac4acf8a3bb532fd468c547945e068c2b0806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:12 +0000
Subject: [PATCH 192/195] fix: adjoint action of compiled sparse operations

---
 pygsti/objects/replib/fastreps.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pygsti/objects/replib/fastreps.cpp b/pygsti/objects/replib/fastreps.cpp
index e67bab4..7f68846 100644
--- a/pygsti/objects/replib/fastreps.cpp
+++ b/pygsti/objects/replib/fastreps.cpp
@@ -786,9 +786,17 @@ namespace CReps {
   }
 
   DMStateCRep* DMOpCRep_Sparse::adjoint_acton(DMStateCRep* state, DMStateCRep* out_state) {
-    //Need to take transpose of a CSR matrix then mult by vector...
-    assert(false); //ajoint_acton not implemented yet for Sparse gates (TODO LATER)
-    return NULL; //to avoid compiler warning
+    // csr_matvec with the transposed matrix: implements out_state = A^T * state
+    int r,k;
+    INT N = _dim; // = length(_A_indptr)-1
+    double* indata = state->_dataptr;
+    double* outdata = out_state->_dataptr;
+    for(r=0; r<N; r++) outdata[r] = 0;
+    for(r=0; r<N; r++) {
+      for(k=_A_indptr[r]; k<_A_indptr[r+1]; k++)
+	outdata[_A_indices[k]] += _A_data[k] * indata[r];
+    }
+    return out_state;
   }
 
   
-- 
2.43.0


From 212113c98d307018a06cdfe25599ca9c559cd01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 193/195] fix: powers of stabilizer operations

---
 pygsti/objects/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygsti/objects/operation.py b/pygsti/objects/operation.py
index c670b86..2bc5d3d 100644
--- a/pygsti/objects/operation.py
+++ b/pygsti/objects/operation.py
@@ -4729,7 +4729,7 @@ class ExponentiatedOp(LinearOperator):
             rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, dim)
         elif evotype == "stabilizer":
             nQubits = int(round(_np.log2(dim)))  # "stabilizer" is a unitary-evolution type mode
-            rep = replib.SVOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
+            rep = replib.SBOpRep_Exponentiated(self.exponentiated_op._rep, self.power, nQubits)
         else:
             raise ValueError("Invalid evotype: %s for ExponentiatedOp object" % evotype)
 
-- 
2.43.0


From 08feb7cba25b6d1306233bf44ecbc1987e099e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 194/195] fix: actions that compiled representations do not
 implement are refused

---
 pygsti/objects/replib/fastreplib.pyx | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pygsti/objects/replib/fastreplib.pyx b/pygsti/objects/replib/fastreplib.pyx
index f36ef6d..ca9ebbe 100644
--- a/pygsti/objects/replib/fastreplib.pyx
+++ b/pygsti/objects/replib/fastreplib.pyx
@@ -557,14 +557,16 @@ cdef class DMOpRep:
         cdef DMStateRep out_state = DMStateRep(np.empty(self.c_gate._dim, dtype='d'))
         #print("PYX acton called w/dim ", self.c_gate._dim, out_state.c_state._dim)
         # assert(state.c_state._dataptr != out_state.c_state._dataptr) # DEBUG
-        self.c_gate.acton(state.c_state, out_state.c_state)
+        if self.c_gate.acton(state.c_state, out_state.c_state) == NULL:
+            raise NotImplementedError("This operation has no such action!")
         return out_state
 
     def adjoint_acton(self, DMStateRep state not None):
         cdef DMStateRep out_state = DMStateRep(np.empty(self.c_gate._dim, dtype='d'))
         #print("PYX acton called w/dim ", self.c_gate._dim, out_state.c_state._dim)
         # assert(state.c_state._dataptr != out_state.c_state._dataptr) # DEBUG
-        self.c_gate.adjoint_acton(state.c_state, out_state.c_state)
+        if self.c_gate.adjoint_acton(state.c_state, out_state.c_state) == NULL:
+            raise NotImplementedError("This operation has no such action!")
         return out_state
 
     def aslinearoperator(self):
@@ -948,7 +950,8 @@ cdef class SVOpRep:
         cdef SVStateRep out_state = SVStateRep(np.empty(self.c_gate._dim, dtype=np.complex128))
         #print("PYX acton called w/dim ", self.c_gate._dim, out_state.c_state._dim)
         # assert(state.c_state._dataptr != out_state.c_state._dataptr) # DEBUG
-        self.c_gate.acton(state.c_state, out_state.c_state)
+        if self.c_gate.acton(state.c_state, out_state.c_state) == NULL:
+            raise NotImplementedError("This operation has no such action!")
         return out_state
 
     #FUTURE: adjoint acton
@@ -1231,7 +1234,8 @@ cdef class SBOpRep:
         cdef SBStateRep out_state = SBStateRep(np.empty((2*n,2*n), dtype=np.int64),
                                                np.empty((namps,2*n), dtype=np.int64),
                                                np.empty(namps, dtype=np.complex128))
-        self.c_gate.acton(state.c_state, out_state.c_state)
+        if self.c_gate.acton(state.c_state, out_state.c_state) == NULL:
+            raise NotImplementedError("This operation has no such action!")
         return out_state
 
     def adjoint_acton(self, SBStateRep state not None):
@@ -1240,7 +1244,8 @@ cdef class SBOpRep:
         cdef SBStateRep out_state = SBStateRep(np.empty((2*n,2*n), dtype=np.int64),
                                                np.empty((namps,2*n), dtype=np.int64),
                                                np.empty(namps, dtype=np.complex128))
-        self.c_gate.adjoint_acton(state.c_state, out_state.c_state)
+        if self.c_gate.adjoint_acton(state.c_state, out_state.c_state) == NULL:
+            raise NotImplementedError("This operation has no such action!")
         return out_state
 
 
-- 
2.43.0


From c21062ef6b07dc78f737174b7efaecf1907ddc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:50 +0000
Subject: [PATCH 195/195] fix: bulk map-based calculations for state vectors
 and stabilizer states

---
 pygsti/objects/mapforwardsim.py | 38 +++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pygsti/objects/mapforwardsim.py b/pygsti/objects/mapforwardsim.py
index a50e1ae..6e17fc5 100644
--- a/pygsti/objects/mapforwardsim.py
+++ b/pygsti/objects/mapforwardsim.py
@@ -22,6 +22,7 @@ from .label import Label as _Label
 from .mapevaltree import MapEvalTree as _MapEvalTree
 from .forwardsim import ForwardSimulator
 from . import replib
+from .replib import slowreplib as _slowreplib
 
 
 _dummy_profiler = _DummyProfiler()
@@ -76,6 +77,11 @@ class MapForwardSimulator(ForwardSimulator):
         """ Return a shallow copy of this MatrixForwardSimulator """
         return MapForwardSimulator(self.dim, self.sos, self.paramvec)
 
+    @property
+    def _block_calcs(self):
+        """ The module that computes blocks of probabilities (the compiled one is limited to density matrices) """
+        return replib if self.evotype == "densitymx" else _slowreplib
+
     def _rho_from_label(self, rholabel):
         # Note: caching here is *essential* to the working of bulk_fill_dprobs,
         # which assumes that the op returned will be affected by self.from_vector() calls.
@@ -438,7 +444,7 @@ class MapForwardSimulator(ForwardSimulator):
         nP2 = _slct.length(param_indices2) if isinstance(param_indices2, slice) else len(param_indices2)
         dprobs = _np.empty((nEls, nP2), 'd')
         dprobs2 = _np.empty((nEls, nP2), 'd')
-        replib.DM_mapfill_dprobs_block(calc, dprobs, slice(0, nEls), None, evalTree, param_indices2, comm)
+        calc._block_calcs.DM_mapfill_dprobs_block(calc, dprobs, slice(0, nEls), None, evalTree, param_indices2, comm)
 
         orig_vec = calc.to_vector().copy()
         for i in range(calc.Np):
@@ -446,7 +452,7 @@ class MapForwardSimulator(ForwardSimulator):
                 iFinal = iParamToFinal[i]
                 vec = orig_vec.copy(); vec[i] += eps
                 calc.from_vector(vec, close=True)
-                replib.DM_mapfill_dprobs_block(calc, dprobs2, slice(0, nEls), None, evalTree, param_indices2, subComm)
+                calc._block_calcs.DM_mapfill_dprobs_block(calc, dprobs2, slice(0, nEls), None, evalTree, param_indices2, subComm)
                 _fas(mxToFill, [dest_indices, iFinal, dest_param_indices2], (dprobs2 - dprobs) / eps)
         calc.from_vector(orig_vec)
 
@@ -511,7 +517,7 @@ class MapForwardSimulator(ForwardSimulator):
 
             # mxToFill is an array corresponding to the evalSubTree's parent's elements,
             # not evalSubTree's so pass felInds to _fill_probs_block
-            replib.DM_mapfill_probs_block(self, mxToFill, felInds, evalSubTree, mySubComm)
+            self._block_calcs.DM_mapfill_probs_block(self, mxToFill, felInds, evalSubTree, mySubComm)
 
         #collect/gather results
         subtreeElementIndices = [t.final_element_indices(evalTree) for t in subtrees]
@@ -612,14 +618,14 @@ class MapForwardSimulator(ForwardSimulator):
             felInds = evalSubTree.final_element_indices(evalTree)
 
             if prMxToFill is not None:
-                replib.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
+                self._block_calcs.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
 
             #Set wrtBlockSize to use available processors if it isn't specified
             blkSize = self._setParamBlockSize(wrtFilter, wrtBlockSize, mySubComm)
 
             if blkSize is None:  # wrtFilter gives entire computed parameter block
                 #Compute all requested derivative columns at once
-                replib.DM_mapfill_dprobs_block(self, mxToFill, felInds, None, evalSubTree, wrtSlice, mySubComm)
+                self._block_calcs.DM_mapfill_dprobs_block(self, mxToFill, felInds, None, evalSubTree, wrtSlice, mySubComm)
                 profiler.mem_check("bulk_fill_dprobs: post fill")
 
             else:  # Divide columns into blocks of at most blkSize
@@ -638,7 +644,7 @@ class MapForwardSimulator(ForwardSimulator):
 
                 for iBlk in myBlkIndices:
                     paramSlice = blocks[iBlk]  # specifies which deriv cols calc_and_fill computes
-                    replib.DM_mapfill_dprobs_block(self, mxToFill, felInds, paramSlice,
+                    self._block_calcs.DM_mapfill_dprobs_block(self, mxToFill, felInds, paramSlice,
                                                    evalSubTree, paramSlice, blkComm)
                     profiler.mem_check("bulk_fill_dprobs: post fill blk")
 
@@ -771,7 +777,7 @@ class MapForwardSimulator(ForwardSimulator):
             felInds = evalSubTree.final_element_indices(evalTree)
 
             if prMxToFill is not None:
-                replib.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
+                self._block_calcs.DM_mapfill_probs_block(self, prMxToFill, felInds, evalSubTree, mySubComm)
 
             #Set wrtBlockSize to use available processors if it isn't specified
             blkSize1 = self._setParamBlockSize(wrtFilter1, wrtBlockSize1, mySubComm)
@@ -780,13 +786,13 @@ class MapForwardSimulator(ForwardSimulator):
             if blkSize1 is None and blkSize2 is None:  # wrtFilter1 & wrtFilter2 dictate block
                 #Compute all requested derivative columns at once
                 if deriv1MxToFill is not None:
-                    replib.DM_mapfill_dprobs_block(self, deriv1MxToFill, felInds, None,
+                    self._block_calcs.DM_mapfill_dprobs_block(self, deriv1MxToFill, felInds, None,
                                                    evalSubTree, wrtSlice1, mySubComm)
                 if deriv2MxToFill is not None:
                     if deriv1MxToFill is not None and wrtSlice1 == wrtSlice2:
                         deriv2MxToFill[felInds, :] = deriv1MxToFill[felInds, :]
                     else:
-                        replib.DM_mapfill_dprobs_block(self, deriv2MxToFill, felInds,
+                        self._block_calcs.DM_mapfill_dprobs_block(self, deriv2MxToFill, felInds,
                                                        None, evalSubTree, wrtSlice2, mySubComm)
 
                 self.DM_mapfill_hprobs_block(mxToFill, felInds, None, None, evalSubTree,
@@ -819,7 +825,7 @@ class MapForwardSimulator(ForwardSimulator):
                 for iBlk1 in myBlk1Indices:
                     paramSlice1 = blocks1[iBlk1]
                     if derivMxToFill is not None:
-                        replib.DM_mapfill_dprobs_block(self, derivMxToFill, felInds, paramSlice1, evalSubTree,
+                        self._block_calcs.DM_mapfill_dprobs_block(self, derivMxToFill, felInds, paramSlice1, evalSubTree,
                                                        paramSlice1, blk1Comm)
 
                     for iBlk2 in myBlk2Indices:
@@ -1025,7 +1031,7 @@ class MapForwardSimulator(ForwardSimulator):
             dataset_rows = [dataset[dsCircuitsToUse[i]] for i in _slct.indices(evalSubTree.final_slice(evalTree))]
             num_outcomes = [num_total_outcomes[i] for i in _slct.indices(evalSubTree.final_slice(evalTree))]
 
-            replib.DM_mapfill_TDchi2_terms(self, mxToFill, felInds, num_outcomes,
+            self._block_calcs.DM_mapfill_TDchi2_terms(self, mxToFill, felInds, num_outcomes,
                                            evalSubTree, dataset_rows, minProbClipForWeighting,
                                            probClipInterval, mySubComm)
 
@@ -1094,12 +1100,12 @@ class MapForwardSimulator(ForwardSimulator):
         """
         def dchi2(destMx, dest_indices, dest_param_indices, num_tot_outcomes, evalSubTree,
                   dataset_rows, wrtSlice, fillComm):
-            replib.DM_mapfill_TDdchi2_terms(self, destMx, dest_indices, dest_param_indices, num_tot_outcomes,
+            self._block_calcs.DM_mapfill_TDdchi2_terms(self, destMx, dest_indices, dest_param_indices, num_tot_outcomes,
                                             evalSubTree, dataset_rows, minProbClipForWeighting,
                                             probClipInterval, wrtSlice, fillComm)
 
         def chi2(destMx, dest_indices, num_tot_outcomes, evalSubTree, dataset_rows, fillComm):
-            return replib.DM_mapfill_TDchi2_terms(self, destMx, dest_indices, num_tot_outcomes, evalSubTree,
+            return self._block_calcs.DM_mapfill_TDchi2_terms(self, destMx, dest_indices, num_tot_outcomes, evalSubTree,
                                                   dataset_rows, minProbClipForWeighting, probClipInterval, fillComm)
 
         return self.bulk_fill_timedep_deriv(evalTree, dataset, dsCircuitsToUse, num_total_outcomes,
@@ -1173,7 +1179,7 @@ class MapForwardSimulator(ForwardSimulator):
             dataset_rows = [dataset[dsCircuitsToUse[i]] for i in _slct.indices(evalSubTree.final_slice(evalTree))]
             num_outcomes = [num_total_outcomes[i] for i in _slct.indices(evalSubTree.final_slice(evalTree))]
 
-            replib.DM_mapfill_TDloglpp_terms(self, mxToFill, felInds, num_outcomes,
+            self._block_calcs.DM_mapfill_TDloglpp_terms(self, mxToFill, felInds, num_outcomes,
                                              evalSubTree, dataset_rows, minProbClip,
                                              radius, probClipInterval, mySubComm)
 
@@ -1242,12 +1248,12 @@ class MapForwardSimulator(ForwardSimulator):
         """
         def dloglpp(mxToFill, dest_indices, dest_param_indices, num_tot_outcomes, evalSubTree,
                     dataset_rows, wrtSlice, fillComm):
-            return replib.DM_mapfill_TDdloglpp_terms(self, mxToFill, dest_indices, dest_param_indices,
+            return self._block_calcs.DM_mapfill_TDdloglpp_terms(self, mxToFill, dest_indices, dest_param_indices,
                                                      num_tot_outcomes, evalSubTree, dataset_rows, minProbClip,
                                                      radius, probClipInterval, wrtSlice, fillComm)
 
         def loglpp(mxToFill, dest_indices, num_tot_outcomes, evalSubTree, dataset_rows, fillComm):
-            return replib.DM_mapfill_TDloglpp_terms(self, mxToFill, dest_indices, num_tot_outcomes, evalSubTree,
+            return self._block_calcs.DM_mapfill_TDloglpp_terms(self, mxToFill, dest_indices, num_tot_outcomes, evalSubTree,
                                                     dataset_rows, minProbClip, radius, probClipInterval, fillComm)
 
         return self.bulk_fill_timedep_deriv(evalTree, dataset, dsCircuitsToUse, num_total_outcomes,
-- 
2.43.0

