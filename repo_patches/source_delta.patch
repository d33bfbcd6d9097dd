From 4140c1a1a900fd5c10873ac731148630ba52968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:31 +0000
Subject: [PATCH 01/63] fix: DMDOperator with rescale_mode='auto' can be fitted
 again on other data

The factors of the first fit replaced the 'auto' option, so that a second fit
used stale factors or failed with a ValueError.
---
 pydmd/dmdoperator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdoperator.py b/pydmd/dmdoperator.py
index 5495f8d..4302eee 100644
--- a/pydmd/dmdoperator.py
+++ b/pydmd/dmdoperator.py
@@ -54,6 +54,9 @@ class DMDOperator:
     ):
         self._exact = exact
         self._rescale_mode = rescale_mode
+        self._auto_rescale = (
+            isinstance(rescale_mode, str) and rescale_mode == "auto"
+        )
         self._svd_rank = svd_rank
         self._forward_backward = forward_backward
         self._sorted_eigs = sorted_eigs
@@ -90,7 +93,7 @@ class DMDOperator:
                 msg = "Casting atilde from np.complex256 to np.complex128"
                 logging.info(msg)
 
-        if isinstance(self._rescale_mode, str) and self._rescale_mode == "auto":
+        if self._auto_rescale:
             self._rescale_mode = s
 
         self._Atilde = atilde
-- 
2.43.0


From 538bf51db94d356e5feac0b36932d79569ed660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:56 +0000
Subject: [PATCH 02/63] fix: CDMD honours rescale_mode='auto', Tikhonov and
 forward/backward with unequal ranks

The compressed operator never resolved 'auto' nor computed the norm used by the
Tikhonov term, and truncated the backward problem with a data-dependent rank
that may differ from the forward one; all three raised.
---
 pydmd/cdmd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydmd/cdmd.py b/pydmd/cdmd.py
index 973b22e..942983b 100644
--- a/pydmd/cdmd.py
+++ b/pydmd/cdmd.py
@@ -79,14 +79,19 @@ class CDMDOperator(DMDOperator):
 
         U, s, V = compute_svd(compressedX, svd_rank=self._svd_rank)
 
+        if self._tikhonov_regularization is not None:
+            self._norm_X = np.linalg.norm(compressedX)
         atilde = self._least_square_operator(U, s, V, compressedY)
 
         if self._forward_backward:
             # b stands for "backward"
-            bU, bs, bV = compute_svd(compressedY, svd_rank=self._svd_rank)
+            bU, bs, bV = compute_svd(compressedY, svd_rank=len(s))
             atilde_back = self._least_square_operator(bU, bs, bV, compressedX)
             atilde = sqrtm(atilde.dot(np.linalg.inv(atilde_back)))
 
+        if self._auto_rescale:
+            self._rescale_mode = s
+
         self._Atilde = atilde
         self._compute_eigenquantities()
         self._compute_modes(nonCompressedY, U, s, V)
-- 
2.43.0


From 0b3ba69351239f907882d6684a8151a44bf64255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:56 +0000
Subject: [PATCH 03/63] fix: SubspaceDMD accepts opt=True and
 rescale_mode='auto'

The optimal amplitudes looked up a missing attribute, and 'auto' was never
replaced by the singular values.
---
 pydmd/subspacedmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/subspacedmd.py b/pydmd/subspacedmd.py
index 0818e1b..e1df0e4 100644
--- a/pydmd/subspacedmd.py
+++ b/pydmd/subspacedmd.py
@@ -90,6 +90,9 @@ class SubspaceDMDOperator(DMDOperator):
 
         U, S, V = reducedsvd(Uq1)
 
+        if self._auto_rescale:
+            self._rescale_mode = S
+
         self._Atilde = self._least_square_operator(U, S, V, Uq2)
         self._compute_eigenquantities()
 
@@ -157,6 +160,7 @@ class SubspaceDMD(DMDBase):
         self._original_time = None
         self._dmd_time = None
         self._opt = opt
+        self._exact = True
 
         self._b = None
         self._snapshots_holder = None
-- 
2.43.0


From f70451b82a59a3259f261cb414eb9d12720fb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 04/63] fix: RDMD draws its test matrix for the data of each
 fit

The random test matrix of the first fit was kept as if the user had supplied
it, so that refitting failed or ignored the rank of the new data.
---
 pydmd/rdmd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/rdmd.py b/pydmd/rdmd.py
index 1eb8aa0..a5ffa6a 100644
--- a/pydmd/rdmd.py
+++ b/pydmd/rdmd.py
@@ -71,7 +71,7 @@ class RDMD(CDMD):
         :return: the compressed snapshots
         :rtype: numpy.ndarray
         """
-        Q, B, test_matrix = compute_rqb(
+        Q, B, _ = compute_rqb(
             self.snapshots,
             self._svd_rank,
             self._oversampling,
@@ -80,6 +80,5 @@ class RDMD(CDMD):
             self._seed,
         )
         self._compression_matrix = Q.conj().T
-        self._test_matrix = test_matrix
 
         return B
-- 
2.43.0


From 9b70ff6b0641bd6ea42681dc3db87787bcde3fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:31 +0000
Subject: [PATCH 05/63] fix: project complex data with the conjugate transpose
 of the basis

---
 pydmd/preprocessing/svd_projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/svd_projection.py b/pydmd/preprocessing/svd_projection.py
index 7c6dc08..2d4bff3 100644
--- a/pydmd/preprocessing/svd_projection.py
+++ b/pydmd/preprocessing/svd_projection.py
@@ -52,7 +52,7 @@ class _SvdProjectionPrePostProcessing(PrePostProcessing):
             svd_rank = self._svd_rank
         projection_matrix, _, _ = compute_svd(X, svd_rank)
 
-        return projection_matrix, projection_matrix.T.dot(X)
+        return projection_matrix, projection_matrix.conj().T.dot(X)
 
     @override
     def post_processing(
-- 
2.43.0


From d5d1894f583e56c88a6da8a9d75eb9e999c8bcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:04 +0000
Subject: [PATCH 06/63] fix: HankelDMD maps output instants to sampled instants
 correctly

The origin of time was subtracted twice, the output step was used in place of
the sampling step and float floor division lost instants, so that windows with
t0 != 0 or another step returned the wrong columns.
---
 pydmd/hankeldmd.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index d9c73d0..c36e4fe 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -127,11 +127,18 @@ class HankelDMD(DMDBase):
         :rtype: int
         """
         assert isinstance(time, Number) or np.asarray(time).ndim == 1
-        return max(
-            0,
-            (time - self.original_time["t0"]) // self.dmd_time["dt"]
-            - (self.original_time["t0"] + self._d - 1),
+        return max(0, self._snapshot_index(time) - (self._d - 1))
+
+    def _snapshot_index(self, time):
+        """
+        Index of the given time instant(s) in the sampling of the original
+        snapshots.
+        """
+        index = np.round(
+            (np.asarray(time) - self.original_time["t0"])
+            / self.original_time["dt"]
         )
+        return index.astype(int)
 
     def _update_sub_dmd_time(self):
         """
@@ -152,16 +159,11 @@ class HankelDMD(DMDBase):
         self._update_sub_dmd_time()
 
         # we want to return only the requested timesteps
-        time_index = min(
-            self._d - 1,
-            int(
-                (self.dmd_time["t0"] - self.original_time["t0"])
-                // self.dmd_time["dt"]
-            ),
+        time_index = (
+            self._snapshot_index(self.dmd_timesteps)
+            - self._sub_dmd.dmd_time["t0"]
         )
-        return self._sub_dmd.reconstructed_data[
-            :, time_index : time_index + len(self.dmd_timesteps)
-        ]
+        return self._sub_dmd.reconstructed_data[:, time_index]
 
     @property
     def modes(self):
-- 
2.43.0


From 9849440cec96009acd3ff34dba5213e9dbb02712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:20 +0000
Subject: [PATCH 07/63] fix: output instants never run past the end of the time
 window

np.arange with a float step could add an instant after tend (e.g. t0=0,
tend=0.2, dt=0.1), also when tend is not a multiple of dt.
---
 pydmd/dmdbase.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 2397a38..d9130ce 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -204,11 +204,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.dmd_time["t0"],
-            self.dmd_time["tend"] + self.dmd_time["dt"],
-            self.dmd_time["dt"],
-        )
+        return _timesteps(self.dmd_time)
 
     @property
     def original_timesteps(self):
@@ -218,11 +214,7 @@ class DMDBase:
         :return: the time intervals of the original snapshots.
         :rtype: numpy.ndarray
         """
-        return np.arange(
-            self.original_time["t0"],
-            self.original_time["tend"] + self.original_time["dt"],
-            self.original_time["dt"],
-        )
+        return _timesteps(self.original_time)
 
     @property
     def modes(self):
@@ -772,3 +764,13 @@ class DMDTimeDict(dict):
         if isinstance(o, dict):
             return all(map(lambda s: o[s] == self[s], ["t0", "tend", "dt"]))
         return False
+
+
+def _timesteps(time_dict):
+    """
+    Time instants described by a time dictionary: `t0`, `t0 + dt`, ... up to
+    and including `tend`, tolerating rounding errors in `tend`.
+    """
+    steps = (time_dict["tend"] - time_dict["t0"]) / time_dict["dt"]
+    n_steps = int(np.floor(steps * (1 + 1e-9) + 1e-9)) + 1
+    return time_dict["t0"] + time_dict["dt"] * np.arange(n_steps)
-- 
2.43.0


From d1b4ef9b1b3d71197bcdfce14a65e6a7217eac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:51 +0000
Subject: [PATCH 08/63] fix: optimal amplitudes use the modes of the model,
 whatever their scaling

The right-hand side was rebuilt from the raw reduced eigenvectors and a new SVD
of the snapshots, which is only the same for plain projected modes: with
rescaling, denoising, control or manifold constraints the amplitudes were wrong.
---
 pydmd/dmdbase.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index d9130ce..8b6260c 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -8,7 +8,6 @@ from copy import copy, deepcopy
 import numpy as np
 
 from .dmdoperator import DMDOperator
-from .utils import compute_svd
 
 
 class ActivationBitmaskProxy:
@@ -670,34 +669,18 @@ _set_initial_time_dictionary() has not been called, did you call fit()?"""
             np.conj(np.dot(vander, vander.conj().T)),
         )
 
-        if self._exact:
-            q = np.conj(
-                np.diag(
-                    np.linalg.multi_dot(
-                        [vander, self.snapshots.conj().T, self.modes]
-                    )
-                )
-            )
+        if self._exact or self._snapshots_holder_y:
+            X = self.snapshots
         else:
-            if self._snapshots_holder_y:
-                X = self.snapshots
-            else:
-                X = self.snapshots[:, :-1]
-
-            _, s, V = compute_svd(X, self.modes.shape[-1])
-
-            q = np.conj(
-                np.diag(
-                    np.linalg.multi_dot(
-                        [
-                            vander[:, : X.shape[1]],
-                            V,
-                            np.diag(s).conj(),
-                            self.operator.eigenvectors,
-                        ]
-                    )
+            X = self.snapshots[:, :-1]
+
+        q = np.conj(
+            np.diag(
+                np.linalg.multi_dot(
+                    [vander[:, : X.shape[1]], X.conj().T, self.modes]
                 )
             )
+        )
 
         return P, q
 
-- 
2.43.0


From 2c57097014e76910f0d8cdb3ed7296f726a6511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 09/63] fix: accept numpy arrays of indexes when selecting
 modes, as documented

---
 pydmd/dmdbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 8b6260c..06da160 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -503,7 +503,7 @@ class DMDBase:
         """
 
         if isinstance(key, (slice, int, list, np.ndarray)):
-            filter_function = lambda x: isinstance(x, int)
+            filter_function = lambda x: isinstance(x, (int, np.integer))
 
             if isinstance(key, (list, np.ndarray)):
                 if not all(map(filter_function, key)):
-- 
2.43.0


From 5488b986eb132d077161b4aff9dfe3dac53956cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 10/63] fix: a numpy integer rank truncates like the same
 Python integer

---
 pydmd/edmd.py  | 4 +++-
 pydmd/utils.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index b4374d8..98c549e 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -172,7 +172,9 @@ class EDMDOperator(DMDOperator):
         if 0 < self._svd_rank < 1:
             cumulative_energy = np.cumsum(s**2 / (s**2).sum())
             return np.searchsorted(cumulative_energy, self._svd_rank) + 1
-        elif self._svd_rank >= 1 and isinstance(self._svd_rank, int):
+        elif self._svd_rank >= 1 and isinstance(
+            self._svd_rank, (int, np.integer)
+        ):
             return min(self._svd_rank, len(s))
         else:
             return len(s)
diff --git a/pydmd/utils.py b/pydmd/utils.py
index 5f8927f..e82a3e2 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -83,7 +83,7 @@ def _compute_rank(
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
         rank = np.searchsorted(cumulative_energy, svd_rank) + 1
-    elif svd_rank >= 1 and isinstance(svd_rank, int):
+    elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
         rank = min(rows, cols)
-- 
2.43.0


From a3f9153d332a00ab94d3c26d10652b53167d0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 11/63] fix: OptDMD keeps modes with complex or negative
 eigenvalues

The pseudo-inverse of a diagonal dropped imaginary parts and treated negative
entries as zero, so that the corresponding eigenvectors vanished.
---
 pydmd/optdmd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 0ed6527..18a5325 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -30,9 +30,10 @@ def pinv_diag(x):
     factor = {"f": 1e2, "d": 1e4}
     rcond = factor[t] * np.finfo(t).eps
 
-    y = np.zeros(*x.shape)
+    y = np.zeros(x.shape, dtype=x.dtype)
 
-    y[x > rcond] = np.reciprocal(x[x > rcond])
+    nonzero = np.abs(x) > rcond
+    y[nonzero] = np.reciprocal(x[nonzero])
 
     return np.diag(y)
 
@@ -124,7 +125,7 @@ class DMDOptOperator(DMDOperator):
 
         # --> Rescale the left eigenvectors.
         m = np.diag(left_vecs.T.conj().dot(right_vecs))
-        left_vecs = left_vecs.dot(pinv_diag(m))
+        left_vecs = left_vecs.dot(pinv_diag(m.conj()))
 
         self._eigenvalues = vals
         self._eigenvectors = left_vecs
-- 
2.43.0


From 6cf5089d77bdcd746843d5947896ac50a22e6c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:42 +0000
Subject: [PATCH 12/63] fix: OptDMD.predict works with the eigenvalue
 factorization

It used a missing attribute, and the left eigenvectors were never stored.
---
 pydmd/optdmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 18a5325..1b88037 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -229,7 +229,7 @@ class OptDMD(DMDBase):
 
         elif self.factorization == "evd":
             # --> Compute DMD eigenvalues and right/left eigenvectors
-            self._input_space = self.eigs
+            self._input_space = self.operator.eigenvectors
             self._output_space = self.operator.right_eigenvectors
 
         return self
@@ -250,7 +250,7 @@ class OptDMD(DMDBase):
             Y = np.linalg.multi_dot(
                 [
                     self._output_space,
-                    np.diag(self._eigs),
+                    np.diag(self.eigs),
                     self._input_space.T.conj(),
                     X,
                 ]
-- 
2.43.0


From 2a1d16a57a25105cb52059d49a7d5772ff5112fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 13/63] fix: selecting modes again only removes modes among the
 active ones

The indexes computed on the active modes were applied to the whole bitmask, so
that a second selection removed unrelated modes.
---
 pydmd/dmd_modes_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index e8c3388..aed3bf7 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -69,7 +69,8 @@ def select_modes(
 
     if len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
-        tmp[cut_indexes] = False
+        # cut_indexes refer to the modes which are currently active
+        tmp[np.flatnonzero(tmp)[cut_indexes]] = False
         dmd.modes_activation_bitmask = tmp
 
     if return_indexes:
-- 
2.43.0


From 787d08eefc79542daeec374106490b1ca0b955da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 14/63] fix: select_modes honours nullify_amplitudes

---
 pydmd/dmd_modes_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index aed3bf7..1f0c79e 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -67,7 +67,9 @@ def select_modes(
     all_indexes = set(np.arange(len(dmd.eigs)))
     cut_indexes = np.array(list(all_indexes - set(selected_indexes)))
 
-    if len(cut_indexes) > 0:
+    if len(cut_indexes) > 0 and nullify_amplitudes:
+        dmd.amplitudes[cut_indexes] = 0
+    elif len(cut_indexes) > 0:
         tmp = np.array(dmd.modes_activation_bitmask)
         # cut_indexes refer to the modes which are currently active
         tmp[np.flatnonzero(tmp)[cut_indexes]] = False
-- 
2.43.0


From 25a022b2134701ca5bba7e076bd0143c4215a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 15/63] fix: the bounds of the eigenvalue threshold are
 inclusive, as documented

---
 pydmd/dmd_modes_tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index 1f0c79e..ff1a2a0 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -182,8 +182,8 @@ class ModesSelectors:
         eigs_module = np.abs(dmd.eigs)
 
         return np.logical_and(
-            eigs_module < up_threshold,
-            eigs_module > low_threshold,
+            eigs_module <= up_threshold,
+            eigs_module >= low_threshold,
         )
 
     @staticmethod
-- 
2.43.0


From 61177ee6e6aa222bb87f19fcb62b522ac9d43570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 16/63] fix: indexing a fitted instance keeps edits and never
 writes to the source

The sub-selection rebuilt its proxy from the shared operator: edits made on the
source were lost and edits on the sub-selection could reach the source.
---
 pydmd/dmdbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydmd/dmdbase.py b/pydmd/dmdbase.py
index 06da160..bcd4242 100644
--- a/pydmd/dmdbase.py
+++ b/pydmd/dmdbase.py
@@ -524,7 +524,9 @@ class DMDBase:
         mask[key] = True
 
         shallow_copy = copy(self)
-        shallow_copy._allocate_modes_bitmask_proxy()
+        shallow_copy._modes_activation_bitmask_proxy = deepcopy(
+            self._modes_activation_bitmask_proxy
+        )
         shallow_copy.modes_activation_bitmask = mask
 
         return shallow_copy
-- 
2.43.0


From abca03c80476703739140be887ca4f6f7b02da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 17/63] fix: finite differences and HAVOK delay matrices keep
 complex data

---
 pydmd/havok.py | 4 ++--
 pydmd/utils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 9325af8..e72a276 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -302,7 +302,7 @@ class HAVOK:
             )
 
         Hm = m - ((self._delays - 1) * self._lag)
-        H = np.empty((n * self._delays, Hm))
+        H = np.empty((n * self._delays, Hm), dtype=np.result_type(X, float))
         for i in range(self._delays):
             H[i * n : (i + 1) * n] = X[:, i * self._lag : i * self._lag + Hm]
 
@@ -324,7 +324,7 @@ class HAVOK:
         Hn, Hm = H.shape
         n = int(Hn / self._delays)
         m = int(Hm + ((self._delays - 1) * self._lag))
-        X = np.empty((n, m))
+        X = np.empty((n, m), dtype=np.result_type(H, float))
         for i in range(self._delays):
             X[:, i * self._lag : i * self._lag + Hm] = H[i * n : (i + 1) * n]
 
diff --git a/pydmd/utils.py b/pydmd/utils.py
index e82a3e2..a53f398 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -313,7 +313,7 @@ def differentiate(X, dt):
         raise ValueError("Please ensure that input data is a 1D or 2D array.")
     if X.ndim == 1:
         X = X[None]
-    X_prime = np.empty(X.shape)
+    X_prime = np.empty(X.shape, dtype=np.result_type(X, float))
     X_prime[:, 1:-1] = (X[:, 2:] - X[:, :-2]) / (2 * dt)
     X_prime[:, 0] = (-3 * X[:, 0] + 4 * X[:, 1] - X[:, 2]) / (2 * dt)
     X_prime[:, -1] = (3 * X[:, -1] - 4 * X[:, -2] + X[:, -3]) / (2 * dt)
-- 
2.43.0


From f1d526f6c372c9817490a13d3cf1744142d32c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 18/63] fix: HAVOK.compute_threshold with an integer p

The sign array was called like a function, and intersections are where the sign
changes.
---
 pydmd/havok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index e72a276..8caaadf 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -565,7 +565,7 @@ class HAVOK:
             # Use Gaussian intersection.
             a = gauss - hy
             sgn = np.sign(a)
-            ind_signchange = np.where(sgn(a[:-1]) * sgn(a[1:]) > 0)[0]
+            ind_signchange = np.where(sgn[:-1] * sgn[1:] < 0)[0]
             thres_1 = np.abs(hx[ind_signchange])
             thres_2 = np.abs(hx[ind_signchange + 1])
             threshold_candidates = np.sort(0.5 * (thres_1 + thres_2))
-- 
2.43.0


From a39590eaeb3e60baa8ff673b0b4c713171e06ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:07 +0000
Subject: [PATCH 19/63] fix: MrDMD reduces max_level only for the data that
 requires it

Once reduced for a short series, the level stayed reduced in later fits.
---
 pydmd/mrdmd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index a1ca06f..6bb7d60 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -76,6 +76,8 @@ class MrDMD(DMDBase):
         self.dmd = dmd
         self.max_cycles = max_cycles
         self.max_level = max_level
+        # level to go back to if a fit has to reduce `max_level`
+        self._unreduced_max_level = None
         self._build_tree()
 
     def __iter__(self):
@@ -478,11 +480,18 @@ Expected one item per level, got {} out of {} levels.""".format(
 
         self._snapshots_holder = Snapshots(X)
 
+        # Undo the reduction made for the data of a previous fit.
+        if self._unreduced_max_level is not None:
+            self.max_level = self._unreduced_max_level
+            self._unreduced_max_level = None
+            self._build_tree()
+
         # Redefine max level if it is too big.
         lvl_threshold = (
             int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
         )
         if self.max_level > lvl_threshold:
+            self._unreduced_max_level = self.max_level
             self.max_level = lvl_threshold
             self._build_tree()
             print(
-- 
2.43.0


From 29eca63b369ebd3d1db590c22bb9d356925107b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:07 +0000
Subject: [PATCH 20/63] fix: MrDMD rejects negative levels and windows

A negative window silently returned a window of another level.
---
 pydmd/mrdmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 6bb7d60..2e80d29 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -29,7 +29,7 @@ class BinaryTree:
 
     def __getitem__(self, val):
         level_, bin_ = val
-        if level_ > self.depth:
+        if not 0 <= level_ <= self.depth:
             raise ValueError(
                 """The level input parameter ({}) has to be less or equal than
                 the max_level ({}). Remember that the starting
@@ -38,7 +38,7 @@ class BinaryTree:
                 )
             )
 
-        if bin_ >= 2**level_:
+        if not 0 <= bin_ < 2**level_:
             raise ValueError("Invalid node")
 
         return self.tree[2**level_ + bin_ - 1]
@@ -437,7 +437,7 @@ Expected one item per level, got {} out of {} levels.""".format(
         :return: the start and end time and the period of the bin
         :rtype: dictionary
         """
-        if level > self.max_level:
+        if not 0 <= level <= self.max_level:
             raise ValueError(
                 "The level input parameter ({}) has to be less than the "
                 "max_level ({}). Remember that the starting index is 0".format(
@@ -445,7 +445,7 @@ Expected one item per level, got {} out of {} levels.""".format(
                 )
             )
 
-        if leaf >= 2**level:
+        if not 0 <= leaf < 2**level:
             raise ValueError("Invalid node")
 
         full_period = self.original_time["tend"] - self.original_time["t0"]
-- 
2.43.0


From fb69b5229510a6ffc8162caebbdf5b1b901b2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:07 +0000
Subject: [PATCH 21/63] fix: MrDMD does not round the residual of integer data

---
 pydmd/mrdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 2e80d29..d62a265 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -502,7 +502,7 @@ Expected one item per level, got {} out of {} levels.""".format(
         def slow_modes(dmd, rho):
             return np.abs(np.log(dmd.eigs)) < rho * 2 * np.pi
 
-        X = self.snapshots.copy()
+        X = self.snapshots.astype(np.result_type(self.snapshots, float))
         for level in self.dmd_tree.levels:
             n_leaf = 2**level
             Xs = np.array_split(X, n_leaf, axis=1)
-- 
2.43.0


From fa91f45bf6e6e46309b2184a07a8cf0dad2fbe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 22/63] fix: fitting a pre/post-processed DMD returns the
 wrapper

It returned the wrapped instance, whose reconstruction lacks the
post-processing.
---
 pydmd/preprocessing/pre_post_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 7ff0253..2d6e638 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -98,7 +98,8 @@ class PrePostProcessingDMD(Generic[S]):
         new_args, new_kwargs = PrePostProcessingDMD._replace_training_data(
             pre_processed_training_data, *args, **kwargs
         )
-        return self._dmd.fit(*new_args, **new_kwargs)
+        self._dmd.fit(*new_args, **new_kwargs)
+        return self
 
     def _reconstructed_data_with_post_processing(self) -> np.ndarray:
         data = self._dmd.reconstructed_data
-- 
2.43.0


From 27f1e5a17303a4620e43d66cc7490742bafb41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:07 +0000
Subject: [PATCH 23/63] fix: pre/post-processed DMD: saving and setting
 dmd_time act on the whole model

save() pickled only the wrapped instance and an assigned dmd_time stayed on the
wrapper without any effect.
---
 pydmd/preprocessing/pre_post_processing.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pydmd/preprocessing/pre_post_processing.py b/pydmd/preprocessing/pre_post_processing.py
index 2d6e638..4bc9c89 100644
--- a/pydmd/preprocessing/pre_post_processing.py
+++ b/pydmd/preprocessing/pre_post_processing.py
@@ -90,6 +90,23 @@ class PrePostProcessingDMD(Generic[S]):
     def modes_activation_bitmask(self, value):
         self._dmd.modes_activation_bitmask = value
 
+    @property
+    def dmd_time(self):
+        return self._dmd.dmd_time
+
+    @dmd_time.setter
+    def dmd_time(self, value):
+        self._dmd.dmd_time = value
+
+    def save(self, fname):
+        """
+        Save the object (wrapped instance and pre/post-processing) to `fname`
+        using the pickle module.
+
+        :param str fname: the name of file where the object will be saved.
+        """
+        DMDBase.save(self, fname)
+
     def _pre_processing_fit(self, *args, **kwargs):
         X = PrePostProcessingDMD._extract_training_data(*args, **kwargs)
         self._pre_processing_output, pre_processed_training_data = (
-- 
2.43.0


From a72b8a64973cf9cd5e37bb8ca877d973387acd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 24/63] fix: BOPDMD starts every fit from the requested rank,
 guess and basis

---
 pydmd/bopdmd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index b0f7fbd..edf1327 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1048,6 +1048,13 @@ class BOPDMD(DMDBase):
         self._use_proj = use_proj
         self._init_alpha = init_alpha
         self._proj_basis = proj_basis
+        # Values requested by the user. Each fit starts from these, since the
+        # attributes above are overwritten with the values used by the fit.
+        self._requested_options = {
+            "_svd_rank": svd_rank,
+            "_init_alpha": init_alpha,
+            "_proj_basis": proj_basis,
+        }
         self._num_trials = num_trials
         self._trial_size = trial_size
         self._eig_sort = eig_sort
@@ -1096,6 +1103,7 @@ class BOPDMD(DMDBase):
     @svd_rank.setter
     def svd_rank(self, value):
         self._svd_rank = value
+        self._requested_options["_svd_rank"] = value
 
     @property
     def compute_A(self):
@@ -1134,6 +1142,7 @@ class BOPDMD(DMDBase):
         :param value: The new eigenvalue guess.
         """
         self._init_alpha = value
+        self._requested_options["_init_alpha"] = value
 
     @property
     def proj_basis(self):
@@ -1156,6 +1165,7 @@ class BOPDMD(DMDBase):
         :param new_proj_basis: The new projection basis to assign.
         """
         self._proj_basis = new_proj_basis
+        self._requested_options["_proj_basis"] = new_proj_basis
 
     @property
     def num_trials(self):
@@ -1403,6 +1413,7 @@ class BOPDMD(DMDBase):
         """
         # Process the input data and convert to numpy.ndarrays.
         self._reset()
+        vars(self).update(self._requested_options)
         self._snapshots_holder = Snapshots(X)
         self._time = np.array(t).squeeze()
 
@@ -1494,6 +1505,7 @@ class BOPDMD(DMDBase):
         :type t: numpy.ndarray
         """
         self._reset()
+        vars(self).update(self._requested_options)
         self._time = np.asarray(t).squeeze()
         s = np.asarray(s).squeeze()
 
-- 
2.43.0


From 79665504acf2ecbee3c63ccc81be21898fa60dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 25/63] fix: BOPDMD conjugate_pairs always returns conjugate
 pairs

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index edf1327..64e6fb7 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -343,7 +343,7 @@ class BOPDMDOperator(DMDOperator):
                 a = 0.5 * (eig_1.real + eig_2.real)
                 b = 0.5 * (np.abs(eig_1.imag) + np.abs(eig_2.imag))
                 new_eigs[ind_1] = a + 1j * (b * np.sign(eig_1.imag))
-                new_eigs[ind_2] = a + 1j * (b * np.sign(eig_2.imag))
+                new_eigs[ind_2] = np.conj(new_eigs[ind_1])
 
             eigenvalues = np.copy(new_eigs)
 
-- 
2.43.0


From 636fc565f6a97f70f41bc49054bffdcd2a328032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 26/63] fix: BOPDMD stable constraint does not modify the
 caller's initial guess

---
 pydmd/bopdmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index 64e6fb7..d96ed84 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -349,6 +349,7 @@ class BOPDMDOperator(DMDOperator):
 
         if "stable" in self._eig_constraints:
             right_half = eigenvalues.real > 0.0
+            eigenvalues = np.array(eigenvalues, dtype="complex")
             eigenvalues[right_half] = 1j * eigenvalues[right_half].imag
         elif "imag" in self._eig_constraints:
             eigenvalues = 1j * eigenvalues.imag
-- 
2.43.0


From 489ba09f0a0e725b13182c7654d282f8f6198489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 27/63] fix: VarProDMD keeps all samples when the compression
 would leave at most one

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 88d336e..9eb0c61 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -392,7 +392,7 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         indices = select_best_samples_fast(res[2], compression)
 
         if indices.size <= 1:
-            indices = np.arange(res[2])
+            indices = np.arange(res[2].shape[-1])
 
     else:
         indices = np.arange(res[2].shape[-1])
-- 
2.43.0


From 4876139a7abedbfd62ecbcf9b493e0b66e4c6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:25 +0000
Subject: [PATCH 28/63] fix: VarProDMD modes belong to the returned eigenvalues

---
 pydmd/varprodmd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 9eb0c61..2ddcf19 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -415,6 +415,8 @@ def compute_varprodmd_any(  # pylint: disable=unused-variable
         opthelper,
         **optargs,
     )
+    # the last point evaluated by the optimizer may be a rejected one
+    _compute_dmd_rho(opt.x, time[indices], res[2][:, indices].T, opthelper)
     omegas.real = opt.x[: opt.x.shape[-1] // 2]
     omegas.imag = opt.x[opt.x.shape[-1] // 2 :]
     xi = res[-1] @ opthelper.b_matrix.T if use_proj else opthelper.b_matrix.T
-- 
2.43.0


From ec74070d2b110457616ee61862b5d7d164eb19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 29/63] fix: LANDO gradient of the RBF kernel has the right
 sign

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index ea487e7..d7a8b0c 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -582,7 +582,7 @@ class LANDO(DMDBase):
         # Kernel metric is RBF.
         centered_X = X - y[..., None]
         return np.diag(
-            -2
+            2
             * gamma
             * np.exp(-gamma * np.linalg.norm(centered_X, 2, axis=0) ** 2)
         ).dot(centered_X.T)
-- 
2.43.0


From 22265f9994957e08f33750aa5fcaed7920b1c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 30/63] fix: LANDO with an array x_rescale can be fitted again

---
 pydmd/lando.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index d7a8b0c..bdc0651 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -502,6 +502,7 @@ class LANDO(DMDBase):
         )
 
         # Keep track of the data rescaling factor.
+        self._requested_x_rescale = x_rescale
         self._x_rescale = x_rescale
 
         # Keep track of the last fixed point analysis.
@@ -972,6 +973,7 @@ class LANDO(DMDBase):
         or a numpy array. Also ensures that if `x_rescale` is an array, then it
         must possess the same shape as the flattened input snapshots.
         """
+        self._x_rescale = self._requested_x_rescale
         if not isinstance(self._x_rescale, (int, float, np.ndarray)):
             raise TypeError("x_rescale must be a float or a numpy array.")
         if isinstance(self._x_rescale, np.ndarray):
-- 
2.43.0


From f9014f73bf5ea0f3e46b5baedf7bc6093ec4dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 31/63] fix: LANDO does not report the linear operator of an
 earlier fixed point

---
 pydmd/lando.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index bdc0651..e268a3f 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -271,6 +271,7 @@ class LANDOOperator(DMDOperator):
         kernel_grad = kernel_gradient(self._sparse_dictionary, fixed_point)
         kernel_grad = np.multiply(kernel_grad, x_rescale)
         U, s, V = compute_svd(kernel_grad.T, self._svd_rank)
+        self._A = None
         if compute_A:
             self._A = self.weights.dot(kernel_grad)
             self._Atilde = np.linalg.multi_dot([U.conj().T, self._A, U])
-- 
2.43.0


From fbc2e910efc4d7fbfba13f2b5ac1e5955963c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 32/63] fix: LANDO.predict computes the requested number of
 points

---
 pydmd/lando.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index e268a3f..5212405 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -925,7 +925,7 @@ class LANDO(DMDBase):
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
 
-            t_eval = np.arange(0, tend * dt, dt)
+            t_eval = dt * np.arange(tend)
 
             sol = solve_ivp(
                 ode_sys,
-- 
2.43.0


From 94f94f48c1472aed35783c882830873a63f773b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:15 +0000
Subject: [PATCH 33/63] fix: LANDO.predict accepts multi-dimensional snapshots

---
 pydmd/lando.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index 5212405..e49bd94 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -915,12 +915,13 @@ class LANDO(DMDBase):
         if x0.shape != self.snapshots_shape:
             msg = "Input initial condition must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
+        x_shape = x0.shape
         x0 = x0.flatten()
 
         if continuous:
 
             def ode_sys(xt, x):
-                return self.f(x[..., None]).flatten()
+                return self.f(x.reshape(*x_shape, 1)).flatten()
 
             if solve_ivp_opts is None:
                 solve_ivp_opts = {}
@@ -941,7 +942,8 @@ class LANDO(DMDBase):
         Y = np.empty((len(x0), tend))
         Y[:, 0] = x0
         for i in range(tend - 1):
-            Y[:, i + 1] = self.f(Y[:, i][..., None]).flatten()
+            y = Y[:, i].reshape(*x_shape, 1)
+            Y[:, i + 1] = self.f(y).flatten()
 
         return Y
 
-- 
2.43.0


From f9bbf32feadbea96b8bec32938c890979864d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:40 +0000
Subject: [PATCH 34/63] fix: LANDO forgets the fixed point analysis of earlier
 data on a new fit

---
 pydmd/lando.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index e49bd94..d0a84d5 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -190,6 +190,8 @@ class LANDOOperator(DMDOperator):
             y_0 = Y[:, ind_0][..., None]
             C = np.sqrt(kernel_function(x_0, x_0))
             self._sparse_dictionary = np.copy(x_0)
+            self._eigenvalues = self._eigenvectors = self._modes = None
+            self._Atilde = self._A = None
             parsing_inds = parsing_inds[1:]
 
             # Initialize the online learning routine, if applicable.
-- 
2.43.0


From cdd697aad8a168b2727e9d1afb83fd7437ee4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:40 +0000
Subject: [PATCH 35/63] fix: VarProDMD forgets the selected modes of earlier
 data on a new fit

---
 pydmd/varprodmd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 2ddcf19..955331d 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -701,6 +701,7 @@ class VarProDMD(DMDBase):
         :rtype: object
         """
 
+        self._reset()
         self._snapshots_holder = Snapshots(X)
         (self._b, self._optres, self._indices) = self._Atilde.compute_operator(
             self._snapshots_holder.snapshots.astype(np.complex128), time
-- 
2.43.0


From f49aca8a0daea729104523675079bc851cad96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:33 +0000
Subject: [PATCH 36/63] fix: symmetric PiDMD keeps the imaginary part of
 Hermitian operators

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 181e0fb..6198a7e 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -118,7 +118,7 @@ def compute_symmetric(X, Y, svd_rank, skew_symmetric=False):
                 atilde[i, j] /= s[i] ** 2 + s[j] ** 2
         atilde += -atilde.conj().T - 1j * np.diag(np.diag(atilde.imag))
     else:  # symmetric
-        atilde = np.diag(np.diagonal(C).real / s)[:r, :r]
+        atilde = np.diag(np.diagonal(C).real / s)[:r, :r].astype(C.dtype)
         for i in range(r):
             for j in range(i + 1, r):
                 atilde[i, j] = s[i] * np.conj(C[j, i]) + s[j] * C[i, j]
-- 
2.43.0


From b4f014310bbfdbe3fbc617cd77a16055a4ef980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:33 +0000
Subject: [PATCH 37/63] fix: HAVOK.compute_threshold does not modify the
 caller's plot_kwargs

---
 pydmd/havok.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 8caaadf..28bad6e 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -578,8 +578,7 @@ class HAVOK:
 
         if plot:
             # Set the plotting parameters first.
-            if plot_kwargs is None:
-                plot_kwargs = {}
+            plot_kwargs = dict(plot_kwargs or {})
             if "figsize" not in plot_kwargs:
                 plot_kwargs["figsize"] = (5, 4)
             if "semilogy" not in plot_kwargs:
-- 
2.43.0


From e796e99fa2ebbb1253733ae746b51d941ac281a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 38/63] fix: COSTS and mrCOSTS do not modify or share the
 caller's pydmd_kwargs

---
 pydmd/costs.py   | 2 +-
 pydmd/mrcosts.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index 040322b..c3354fb 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -125,7 +125,7 @@ class COSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index b2de48a..fa16ec8 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -95,7 +95,7 @@ class mrCOSTS:
                 "use_proj": False,
             }
         else:
-            self._pydmd_kwargs = pydmd_kwargs
+            self._pydmd_kwargs = dict(pydmd_kwargs)
             self._pydmd_kwargs["eig_sort"] = pydmd_kwargs.get(
                 "eig_sort", "imag"
             )
-- 
2.43.0


From 8391ae6e4f5b615a685fe2963f3685a076c1d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 39/63] fix: COSTS plots do not modify the caller's keyword
 dictionaries

---
 pydmd/costs.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c3354fb..c5e7888 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -1089,19 +1089,16 @@ class COSTS:
             scale_reconstruction_kwargs
         )
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = dict(fig_kwargs or {})
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get("figsize", (6, 4))
 
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = dict(hf_plot_kwargs or {})
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_high_frequency).max()
         )
@@ -1193,8 +1190,7 @@ class COSTS:
 
         xr_sep = self.scale_reconstruction(**scale_reconstruction_kwargs)
 
-        if fig_kwargs is None:
-            fig_kwargs = {}
+        fig_kwargs = dict(fig_kwargs or {})
         fig_kwargs["sharex"] = fig_kwargs.get("sharex", True)
         fig_kwargs["figsize"] = fig_kwargs.get(
             "figsize", (6, 1.5 * len(self._cluster_centroids) + 1)
@@ -1202,15 +1198,13 @@ class COSTS:
 
         # Low frequency and input data often require separate plotting
         # parameters.
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -np.abs(data).max())
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", np.abs(data).max())
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "cividis")
 
         # High frequency components often require separate plotting parameters.
-        if hf_plot_kwargs is None:
-            hf_plot_kwargs = {}
+        hf_plot_kwargs = dict(hf_plot_kwargs or {})
         hf_plot_kwargs["vmin"] = hf_plot_kwargs.get(
             "vmin", -np.abs(xr_sep[1:, :, :]).max()
         )
@@ -1294,8 +1288,7 @@ class COSTS:
         """
         if scale_reconstruction_kwargs is None:
             scale_reconstruction_kwargs = {}
-        if plot_kwargs is None:
-            plot_kwargs = {}
+        plot_kwargs = dict(plot_kwargs or {})
         plot_kwargs["vmin"] = plot_kwargs.get("vmin", -3)
         plot_kwargs["vmax"] = plot_kwargs.get("vmax", 3)
         plot_kwargs["cmap"] = plot_kwargs.get("cmap", "RdBu_r")
-- 
2.43.0


From 8e96f312c0b2c94dfb4d8b565f045663f026ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 40/63] fix: mrCOSTS can be fitted again after a cluster sweep
 and keeps n_components_array

---
 pydmd/mrcosts.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index fa16ec8..daf277b 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -58,6 +58,7 @@ class mrCOSTS:
         cluster_sweep=False,
         transform_method=None,
     ):
+        self._requested_n_components_array = n_components_array
         self._n_components_array = n_components_array
         self._step_size_array = step_size_array
         self._window_length_array = window_length_array
@@ -288,7 +289,7 @@ class mrCOSTS:
 
         # Check for the n_components array and cluster sweeping.
         if self._cluster_sweep:
-            if self._n_components_array is not None:
+            if self._requested_n_components_array is not None:
                 raise ValueError(
                     (
                         "Only one of `cluster_sweep` and `n_components_array` "
@@ -296,6 +297,10 @@ class mrCOSTS:
                     )
                 )
             self._n_components_array = np.zeros(self._n_decompositions) * np.nan
+        else:
+            self._n_components_array = copy.copy(
+                self._requested_n_components_array
+            )
 
         # Set the global_svd flag if none was provided.
         if self._global_svd_array is None:
-- 
2.43.0


From 49215d2821d9b4d0a5c2dd31414f78e17203fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 41/63] fix: COSTS starts every fit from the requested rank

---
 pydmd/costs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydmd/costs.py b/pydmd/costs.py
index c5e7888..f9aa924 100644
--- a/pydmd/costs.py
+++ b/pydmd/costs.py
@@ -91,6 +91,7 @@ class COSTS:
         self._step_size = None
         self._window_length = None
         self._n_components = n_components
+        self._requested_svd_rank = svd_rank
         self._svd_rank = svd_rank
         self._global_svd = global_svd
         self._initialize_artificially = initialize_artificially
@@ -455,6 +456,7 @@ class COSTS:
         """
 
         # Prepare window and data properties.
+        self._svd_rank = self._requested_svd_rank
         self._window_length = window_length
         self._step_size = step_size
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
@@ -1516,6 +1518,7 @@ class COSTS:
         self._time_array = ds.time.values
         self._n_slides = ds.attrs["n_slides"]
         self._svd_rank = ds.attrs["svd_rank"]
+        self._requested_svd_rank = self._svd_rank
         self._n_data_vars = ds.attrs["n_data_vars"]
         self._n_time_steps = ds.attrs["n_time_steps"]
         self._n_components = ds.attrs["num_frequency_bands"]
-- 
2.43.0


From 62a3ed57c8e20896b76690077a38caf3f124de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:42 +0000
Subject: [PATCH 42/63] fix: mrCOSTS forgets the global clustering of earlier
 data on a new fit

---
 pydmd/mrcosts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index daf277b..0b838ae 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -307,6 +307,10 @@ class mrCOSTS:
             self._global_svd_array = [True] * n_decompositions
 
         self._costs_array = []
+        self._da_omega = None
+        self._omega_classes = None
+        self._n_components_global = None
+        self._cluster_centroids = None
         self._n_time_steps, self._n_data_vars = self._data_shape(data)
 
         x_iter = data
-- 
2.43.0


From 4fa56c17668bfc2fc907e74437a6f7b7989b6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:15 +0000
Subject: [PATCH 43/63] fix: energy-based rank never exceeds the number of
 singular values

---
 pydmd/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydmd/utils.py b/pydmd/utils.py
index a53f398..7918ae6 100644
--- a/pydmd/utils.py
+++ b/pydmd/utils.py
@@ -83,6 +83,8 @@ def _compute_rank(
     elif 0 < svd_rank < 1:
         cumulative_energy = np.cumsum(sigma_svd**2 / (sigma_svd**2).sum())
         rank = np.searchsorted(cumulative_energy, svd_rank) + 1
+        # the total may be rounded below the requested energy
+        rank = min(rank, sigma_svd.size)
     elif svd_rank >= 1 and isinstance(svd_rank, (int, np.integer)):
         rank = min(svd_rank, sigma_svd.size)
     else:
-- 
2.43.0


From 0fc0bee418063f5b2803fbd4f7d64e25abc6767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:48 +0000
Subject: [PATCH 44/63] fix: HankelDMD.dynamics counts a negative opt from the
 delay-embedded snapshots

---
 pydmd/hankeldmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index c36e4fe..5b486b1 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -140,6 +140,10 @@ class HankelDMD(DMDBase):
         )
         return index.astype(int)
 
+    def _translate_eigs_exponent(self, tpow):
+        # a negative `opt` is counted from the last delay-embedded snapshot
+        return self._sub_dmd._translate_eigs_exponent(tpow)
+
     def _update_sub_dmd_time(self):
         """
         Update the time dictionaries (`dmd_time` and `original_time`) of
-- 
2.43.0


From 9ab8ab1a86eb07fd271f17f657e47a8657aa01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 45/63] fix: HankelDMD accepts multi-dimensional snapshots and
 lists

---
 pydmd/hankeldmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/hankeldmd.py b/pydmd/hankeldmd.py
index 5b486b1..cf7036e 100644
--- a/pydmd/hankeldmd.py
+++ b/pydmd/hankeldmd.py
@@ -228,7 +228,7 @@ class HankelDMD(DMDBase):
 Expected at least d."""
             raise ValueError(msg.format(self._d))
 
-        self._sub_dmd.fit(X)
+        self._sub_dmd.fit(self.snapshots)
 
         # Default timesteps
         self._set_initial_time_dictionary(
-- 
2.43.0


From 6f10ed51d1be0a814888559b2d2ab2aed2738fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:28 +0000
Subject: [PATCH 46/63] fix: mrCOSTS keeps modes aligned with their classes
 when some rank is never high-frequency

---
 pydmd/mrcosts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/mrcosts.py b/pydmd/mrcosts.py
index 0b838ae..331656a 100644
--- a/pydmd/mrcosts.py
+++ b/pydmd/mrcosts.py
@@ -433,7 +433,7 @@ class mrCOSTS:
         ds_list = [c.to_xarray() for c in self._costs_array]
         # Remove the low-frequency bands.
         da_to_concat = [
-            ds_list[0].omega.where(ds_list[0].omega_classes > 0, drop=True)
+            ds_list[0].omega.where(ds_list[0].omega_classes > 0)
         ]
 
         # Interpolate the larger decomposition levels to the timestep of the
@@ -445,7 +445,7 @@ class mrCOSTS:
         # prior to discovering this mistake, but is more explicit than the
         # previous version.
         for ds in ds_list[1:]:
-            da = ds.omega.where(ds.omega_classes > 0, drop=True)
+            da = ds.omega.where(ds.omega_classes > 0)
             da_real = da.real
             da_imag = da.imag
 
-- 
2.43.0


From e75510de436b11205d4489f0fae30766587ef2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 47/63] fix: VarProDMD instances can be copied and saved

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index 955331d..c9f6897 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -677,7 +677,7 @@ class VarProDMD(DMDBase):
         # not used.
 
         if optargs is None:
-            optargs = OPT_DEF_ARGS
+            optargs = dict(OPT_DEF_ARGS)
 
         self._Atilde = VarProOperator(
             svd_rank, exact, sorted_eigs, compression, optargs
-- 
2.43.0


From 46314ec4bc3771c6cadb77c5b1c8b12f213f48d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:13 +0000
Subject: [PATCH 48/63] fix: integral contribution of wrapped models uses the
 data window

---
 pydmd/dmd_modes_tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydmd/dmd_modes_tuner.py b/pydmd/dmd_modes_tuner.py
index ff1a2a0..c40ce48 100644
--- a/pydmd/dmd_modes_tuner.py
+++ b/pydmd/dmd_modes_tuner.py
@@ -338,13 +338,13 @@ and `max_distance_from_unity_outside` can be not `None`"""
 
         # temporary reset dmd_time to original_time
         temp = dmd.dmd_time
-        dmd._dmd_time = dmd.original_time
+        dmd.dmd_time = dmd.original_time
 
         dynamics = dmd.dynamics
         modes = dmd.modes
 
         # reset dmd_time
-        dmd._dmd_time = temp
+        dmd.dmd_time = temp
 
         n_of_modes = modes.shape[1]
         integral_contributions = [
-- 
2.43.0


From c7cbae0212294aac702fd30c043fec7916b4ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 49/63] fix: circulant physics-informed operators of complex
 data

---
 pydmd/pidmd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/pidmd_utils.py b/pydmd/pidmd_utils.py
index 6198a7e..a8e9fb8 100644
--- a/pydmd/pidmd_utils.py
+++ b/pydmd/pidmd_utils.py
@@ -184,7 +184,7 @@ def compute_circulant(X, Y, circulant_opt, svd_rank, compute_A):
     flag is not True. Returns a dictionary of computed values.
     """
     nx = len(X)
-    fX = fft(X, axis=0)
+    fX = fft(X.conj(), axis=0)
     fY = fft(Y.conj(), axis=0)
     fX_norm = np.linalg.norm(fX, axis=1)
     eigenvalues = np.divide(np.diag(fX.dot(fY.conj().T)), fX_norm**2)
-- 
2.43.0


From 2020f9a8e8ced03a4dd9d379121b8b9fb6fecad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:35 +0000
Subject: [PATCH 50/63] fix: single control given as a vector to
 DMDc.reconstructed_data

---
 pydmd/dmdc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/dmdc.py b/pydmd/dmdc.py
index 63572a8..3b7ac5d 100644
--- a/pydmd/dmdc.py
+++ b/pydmd/dmdc.py
@@ -256,7 +256,7 @@ class DMDc(DMDBase):
         :rtype: numpy.ndarray
         """
         controlin = (
-            np.asarray(control_input)
+            np.atleast_2d(np.asarray(control_input))
             if control_input is not None
             else self._controlin
         )
-- 
2.43.0


From a818d43a43c327d7db93ead322a348382cf9cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 51/63] fix: multi-resolution depth for three snapshots

---
 pydmd/mrdmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index d62a265..68fb802 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -488,7 +488,8 @@ Expected one item per level, got {} out of {} levels.""".format(
 
         # Redefine max level if it is too big.
         lvl_threshold = (
-            int(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)) + 1
+            int(np.floor(np.log(self.snapshots.shape[1] / 4.0) / np.log(2.0)))
+            + 1
         )
         if self.max_level > lvl_threshold:
             self._unreduced_max_level = self.max_level
-- 
2.43.0


From eef24abecae3d3aabb3a4a15cc95af38aaca73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 52/63] fix: windows of MrDMD keep the data they were fitted on

---
 pydmd/mrdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/mrdmd.py b/pydmd/mrdmd.py
index 68fb802..2adb510 100644
--- a/pydmd/mrdmd.py
+++ b/pydmd/mrdmd.py
@@ -523,7 +523,7 @@ Expected one item per level, got {} out of {} levels.""".format(
                     for leaf in self.dmd_tree.index_leaves(level)
                 ]
             ).astype(X.dtype)
-            X -= newX
+            X = X - newX
 
         self._set_initial_time_dictionary(
             dict(t0=0, tend=self.snapshots.shape[1], dt=1)
-- 
2.43.0


From b8a087d664826acb03226c038b380cc7fe12cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:46 +0000
Subject: [PATCH 53/63] fix: soft thresholding of null entries

---
 pydmd/spdmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydmd/spdmd.py b/pydmd/spdmd.py
index 7eb4df9..f692b96 100644
--- a/pydmd/spdmd.py
+++ b/pydmd/spdmd.py
@@ -19,8 +19,11 @@ def soft_thresholding_operator(v, k):
     :return np.ndarray: The result of the application of the soft-tresholding
         operator on ´v´.
     """
+    magnitude = np.abs(v)
+    # null entries stay null
+    divisor = np.where(magnitude > 0, magnitude, 1)
     return np.multiply(
-        np.multiply(np.divide(1 - k, np.abs(v)), v), np.abs(v) > k
+        np.multiply(np.divide(1 - k, divisor), v), magnitude > k
     )
 
 
-- 
2.43.0


From ad01f88c360a6382fe9318827e64b0fd2e101de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:46 +0000
Subject: [PATCH 54/63] fix: time evolution of SpDMD when opt is a snapshot
 index

---
 pydmd/spdmd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydmd/spdmd.py b/pydmd/spdmd.py
index f692b96..73185f5 100644
--- a/pydmd/spdmd.py
+++ b/pydmd/spdmd.py
@@ -159,6 +159,13 @@ class SpDMD(DMD):
 
         return self
 
+    def _translate_eigs_exponent(self, tpow):
+        """
+        The sparse amplitudes always refer to the first snapshot, whatever the
+        value of `opt`.
+        """
+        return tpow
+
     def _update_alpha(self, beta, lmbd):
         """
         Update the vector :math:`\\alpha_k` of DMD amplitudes.
-- 
2.43.0


From 95d9a2aabfb1d8ae8935ea7c324834a0491eb8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:14 +0000
Subject: [PATCH 55/63] fix: LANDO modes and eigenvalues follow the last fixed
 point analysis

---
 pydmd/lando.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydmd/lando.py b/pydmd/lando.py
index d0a84d5..e64eac4 100644
--- a/pydmd/lando.py
+++ b/pydmd/lando.py
@@ -824,6 +824,10 @@ class LANDO(DMDBase):
             msg = "Input fixed point must have shape {}."
             raise ValueError(msg.format(self.snapshots_shape))
 
+        # Modes and amplitudes of an earlier fixed point are no longer valid.
+        self._modes_activation_bitmask_proxy = None
+        self._b = None
+
         self._compute_A = compute_A
         self._fixed_point = fixed_point
         self._bias = self.f(fixed_point[..., None])
@@ -875,6 +879,8 @@ class LANDO(DMDBase):
 
         # If a fixed point analysis was already done, redo it.
         if self.fitted:
+            self._modes_activation_bitmask_proxy = None
+            self._b = None
             self._bias = self.f(self._fixed_point[..., None])
             self.operator.compute_linear_operator(
                 self._rescale(self._fixed_point.flatten()),
-- 
2.43.0


From ff342f91132827db2fb658e0cece2f1b0957620c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:37 +0000
Subject: [PATCH 56/63] fix: EDMD uses orthonormal eigenvectors of the Gramian

---
 pydmd/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index 98c549e..d1640a4 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -137,7 +137,7 @@ class EDMDOperator(DMDOperator):
             extended feature matrix.
         :rtype: numpy.ndarray, numpy.ndarray
         """
-        G_eigenvalues, G_eigenvectors = np.linalg.eig(Gramian)
+        G_eigenvalues, G_eigenvectors = np.linalg.eigh(Gramian)
 
         # Note: The eigenvalues of the Gramian are the singular values of the
         # feature embedding matrix, squared. Hence in theory, the eigenvalues
-- 
2.43.0


From 9cc766da841a489306276802cc18d7f25c6a31db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:58 +0000
Subject: [PATCH 57/63] fix: EDMD eigenfunctions refer to the snapshots of the
 fit

---
 pydmd/edmd.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pydmd/edmd.py b/pydmd/edmd.py
index d1640a4..8349e34 100644
--- a/pydmd/edmd.py
+++ b/pydmd/edmd.py
@@ -53,6 +53,17 @@ class EDMDOperator(DMDOperator):
         self._modes = None
         self._svd_vals = None
         self._eigenvectors = None
+        self._kernel_snapshots = None
+
+    @property
+    def kernel_snapshots(self):
+        """
+        Get the snapshots with respect to which the kernel is evaluated.
+
+        :return: the input snapshots used to compute the operator.
+        :rtype: numpy.ndarray
+        """
+        return self._kernel_snapshots
 
     @property
     def svd_vals(self):
@@ -121,7 +132,8 @@ class EDMDOperator(DMDOperator):
 
         # Store Sigma and V_hat for eigenfunction computations.
         self._svd_vals = np.diag(Sigma)
-        self._eigenvectors = V_hat
+        self._eigenvectors = V_hat[:, nonzero_inds]
+        self._kernel_snapshots = X
 
         return Q, Sigma, V_hat
 
@@ -263,7 +275,7 @@ class EDMD(DMD):
 
         K_xx = pairwise_kernels(
             x[None],
-            self.snapshots.T,
+            self.operator.kernel_snapshots.T,
             self._kernel_metric,
             **self._kernel_params,
         )
-- 
2.43.0


From 9dd25962b9e8288539346d9023e4620fabae3984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:01 +0000
Subject: [PATCH 58/63] fix: start VarProDMD at the exponents of the
 trapezoidal rule, not at their reciprocals

---
 pydmd/varprodmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/varprodmd.py b/pydmd/varprodmd.py
index c9f6897..73a883c 100644
--- a/pydmd/varprodmd.py
+++ b/pydmd/varprodmd.py
@@ -263,7 +263,7 @@ def _varpro_preprocessing(
     dt_in = time[1:] - time[:-1]
     z_out = (data_out[:, 1:] - data_out[:, :-1]) / dt_in[None]
 
-    return z_out, y_out, data_out, u_r
+    return y_out, z_out, data_out, u_r
 
 
 def _compute_dmd_varpro(
-- 
2.43.0


From b4ae8a8647d442bbb3253fdef62b4aeba69c68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 59/63] fix: BOPDMD.fit_econ accepts a single singular value

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index d96ed84..c1071ea 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1508,7 +1508,7 @@ class BOPDMD(DMDBase):
         self._reset()
         vars(self).update(self._requested_options)
         self._time = np.asarray(t).squeeze()
-        s = np.asarray(s).squeeze()
+        s = np.atleast_1d(np.asarray(s).squeeze())
 
         if self._proj_basis is None or not self._use_proj:
             msg = """
-- 
2.43.0


From 00ab5617e45b555a739def528d847d581231b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 60/63] fix: a bagged BOPDMD forecasts at a single time

---
 pydmd/bopdmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydmd/bopdmd.py b/pydmd/bopdmd.py
index c1071ea..3b0c652 100644
--- a/pydmd/bopdmd.py
+++ b/pydmd/bopdmd.py
@@ -1599,7 +1599,7 @@ class BOPDMD(DMDBase):
         :rtype: numpy.ndarray or numpy.ndarray, numpy.ndarray
         """
         # Process the input data and convert to numpy.ndarray.
-        t = np.array(t).squeeze()
+        t = np.atleast_1d(np.array(t).squeeze())
 
         # Reject the input time vector if it isn't one-dimensional.
         if t.ndim > 1:
-- 
2.43.0


From 08b3fb89b492cfa1efcf2905b56785715504d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:37 +0000
Subject: [PATCH 61/63] fix: HAVOK simulates from the initial condition at the
 first time

---
 pydmd/havok.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index 28bad6e..e8a1051 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -790,10 +790,11 @@ class HAVOK:
         havok_system = StateSpace(self.A, self.B, C, D)
 
         # Reconstruct the linear dynamics using the HAVOK system.
+        # Note that lsim takes X0 to be the state at time 0.
         embeddings = lsim(
             havok_system,
             U=forcing,
-            T=time,
+            T=np.asarray(time) - time[0],
             X0=V0,
         )[1]
 
-- 
2.43.0


From 5f1096d43a4fa08cdb564d831fe3bfd922eb61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:04 +0000
Subject: [PATCH 62/63] fix: HAVOK simulates systems with a single linear
 coordinate

---
 pydmd/havok.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/havok.py b/pydmd/havok.py
index e8a1051..7683f01 100644
--- a/pydmd/havok.py
+++ b/pydmd/havok.py
@@ -798,7 +798,8 @@ class HAVOK:
             X0=V0,
         )[1]
 
-        return embeddings
+        # Note that lsim drops axes of length one.
+        return embeddings.reshape(len(time), -1)
 
     def _embeddings_to_original(self, V):
         """
-- 
2.43.0


From e49dcc5e4285494dc15e691e1b978d73887d4ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:39 +0000
Subject: [PATCH 63/63] fix: OptDMD does not depend on the units of the data

---
 pydmd/optdmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydmd/optdmd.py b/pydmd/optdmd.py
index 1b88037..0b51d8e 100644
--- a/pydmd/optdmd.py
+++ b/pydmd/optdmd.py
@@ -32,7 +32,8 @@ def pinv_diag(x):
 
     y = np.zeros(x.shape, dtype=x.dtype)
 
-    nonzero = np.abs(x) > rcond
+    # relative to the largest entry, whatever the units of the data
+    nonzero = np.abs(x) > rcond * np.max(np.abs(x), initial=0.0)
     y[nonzero] = np.reciprocal(x[nonzero])
 
     return np.diag(y)
-- 
2.43.0

