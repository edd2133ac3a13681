From 7b7854133b7887902e66e2a374b2d947f5cb7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 01/48] fix: sparse ECORR kernel returned one shared matrix for
 all parameter values

get_ndiag caches its result, but the cached matrix was overwritten in place
by later calls, so revisiting a parameter value gave the wrong covariance.
---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..f7cd982 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # get_ndiag caches what we return, so make a new matrix for each call
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 5cdf13c9b35180771d6cd806f511ffaba2da5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 02/48] fix: PhysicalEphemerisSignal returned one shared delay
 array for all parameter values

get_delay caches its result, but the cached array was overwritten by later
calls, so revisiting a parameter value gave the wrong delay.
---
 enterprise/signals/deterministic_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..e8ac83f 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -199,9 +199,11 @@ def PhysicalEphemerisSignal(
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # get_delay is cached, so return a new array for each call
+                ret = np.zeros_like(self._delay)
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 1a95f4293c2ae11d5fcb0bb49acae056ac5bc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 03/48] fix: set_default_params left stale cached results

The caches are keyed on varying parameters only, so changing constants after
an evaluation returned quantities computed with the old constants.
---
 enterprise/signals/signal_base.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..7a277f4 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -36,6 +36,13 @@ _py_version = version.split(" ")[0]
 logger = logging.getLogger(__name__)
 
 
+def _clear_caches(obj):
+    """Remove everything that `obj` has computed and saved from its (constant) parameter values."""
+    for attr in list(obj.__dict__):
+        if attr.startswith("_cache_") or attr in ("_idx", "_Fmat"):
+            del obj.__dict__[attr]
+
+
 def _simplememobyid_keycheck(key, arg):
     if isinstance(key, Sequence):
         return isinstance(arg, Sequence) and len(key) == len(arg) and all(e1 is e2 for e1, e2 in zip(key, arg))
@@ -132,6 +139,9 @@ class Signal(object):
                     msg = "{} not set! Check parameter dict.".format(par.name)
                     logger.warning(msg)
 
+        # cached results do not depend explicitly on constant parameters
+        _clear_caches(self)
+
     def get_ndiag(self, params):
         """Returns the diagonal of the white noise vector `N`.
 
@@ -874,6 +884,8 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            _clear_caches(self)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From 934e2ad7fef390b4715461c7cd93874f06639a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 04/48] fix: basis columns were combined with the wrong ones
 after a varying basis

Signals with varying basis parameters advanced the column count without
extending the hash list used to look up shared columns, so signals that
followed were mapped onto unrelated columns.
---
 enterprise/signals/signal_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 7a277f4..c7d59f7 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -926,6 +926,9 @@ def SignalCollection(metasignals):  # noqa: C901
                     elif signal.basis_params:
                         nf = Fmat.shape[1]
                         idx[signal] = list(range(cc, cc + nf))
+                        # keep hashlist aligned with the combined columns;
+                        # these columns vary, so they are never shared
+                        hashlist.extend([None] * nf)
                         cc += nf
 
             if not idx:
-- 
2.43.0


From f2842a86146b177f4ad9b49b4464d61b6da5d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 05/48] fix: overlapping cliques of the prior matrix were not
 merged

np.in1d does not look inside a set, so the cliques met by a new group of
correlated indices kept their old labels and were inverted separately,
which gave a wrong inverse and log determinant.
---
 enterprise/signals/signal_base.py | 5 +++--
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c7d59f7..c98da56 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -600,7 +600,7 @@ class PTA(object):
                 # I don't think this code is ever exercised...
                 # if maxidx == -1, then allidx = [-1]
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = self._clcount
+                    self._cliques[np.in1d(self._cliques, list(allidx - {-1}))] = self._clcount
 
                 self._clcount = self._clcount + 1
             else:
@@ -611,8 +611,9 @@ class PTA(object):
 
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
+                # (-1 marks indices that belong to no clique)
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.in1d(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..517eea0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.in1d(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From 2cdf185260c733967ce375cbdf0f27b11d6d81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 06/48] fix: partition inverse of the prior matrix
 double-counted and mis-indexed

With logdet=False and a dense private prior only the first row of each
pulsar's inverse was kept; with two common signals on the same basis the
auto terms and their log determinants were counted once per signal.
---
 enterprise/signals/signal_base.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c98da56..6fd0fd8 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -460,10 +460,10 @@ class PTA(object):
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
                 phiinvs = [phivec.inv(logdet) for phivec in phis]
-                phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
-                phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
                     ld = np.sum([pi[1] for pi in phiinvs])
+                    phiinvs = [pi[0] for pi in phiinvs]
+                phiinv = sl.block_diag(*[np.diag(pi) if pi.ndim == 1 else pi for pi in phiinvs])
                 phidiag = np.concatenate([np.diag(phi) if phi.ndim == 2 else phi for phi in phis])
             else:
                 phidiag = np.concatenate(phis)
@@ -495,10 +495,13 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
-                    invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
+            # the auto terms include the contributions of all signals, so they are counted once
+            csdict = list(self._commonsignals.values())[0]
+            for i, (cs1, csc1) in enumerate(csdict.items()):
+                invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
 
-                    if logdet:
-                        ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))
+                if logdet:
+                    ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))
 
             for k in range(len(crossdiag)):
                 cf = sl.cho_factor(invert[k, :, :])
@@ -506,7 +509,6 @@ class PTA(object):
                 if logdet:
                     ld += np.sum(2 * np.log(np.diag(cf[0])))
 
-            csdict = list(self._commonsignals.values())[0]
             for i, (cs1, csc1) in enumerate(csdict.items()):
                 block1, idx1 = slices[csc1], csc1._idx[cs1]
                 for j, (cs2, csc2) in enumerate(csdict.items()):
-- 
2.43.0


From 682528e4611c2a82e6e53f039ecc6957a08b2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 07/48] fix: sample() drew shared hyperparameters repeatedly

The bookkeeping compared Parameter objects with names, so a hyperparameter
was drawn again for every parameter that uses it and the returned value was
not the one used for the earlier parameters.
---
 enterprise/signals/parameter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..028f7d0 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,9 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
-            # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+        if par.name not in parvalues:
+            # sample hyperpars for this par (unless we already have them), skip parameter itself
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From df372980640dad4ad40888a0ff2a63046c3ae7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:21 +0000
Subject: [PATCH 08/48] fix: hypercube transform used unit-cube values of
 hyperparameters

The inverse cdf of a parameter with hyperparameters was evaluated with their
unit-cube coordinates instead of their transformed values.
---
 enterprise/signals/signal_base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6fd0fd8..c8f87f5 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -709,7 +709,18 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        # transform hyperparameters before the parameters that depend on them
+        prior = {}
+
+        def transform(par):
+            if par.name not in prior:
+                for hyperpar in par.params[1:]:
+                    transform(hyperpar)
+                prior[par.name] = par.get_ppf(value=params[par.name], params=prior)
+
+            return prior[par.name]
+
+        return np.hstack([transform(p) for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 0210a18624d34b4df55ad4a083f17ec07ef1d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 09/48] fix: parameters of nested Functions overwrote one
 another

Parameters of Functions given as keywords were saved under the inner keyword,
so an outer parameter or a second inner Function with the same keyword lost
its own parameter.
---
 enterprise/signals/parameter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 028f7d0..5af9cbf 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -481,7 +481,8 @@ def Function(func, name="", **func_kwargs):
             #   to self._params
             # - if they are Function classes, then we will instantiate
             #   them, save them to self._funcs, and add all of their
-            #   parameters to self._params
+            #   parameters to self._params (as kw.par, so they cannot be
+            #   confused with our own keywords or other functions')
             # - if they are something else, we will assume they are values,
             #   which we will save in self._defaults
 
@@ -501,10 +502,10 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._params.update(("{}.{}".format(kw, par), p) for par, p in parfunc._params.items())
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._params.update(("{}.{}".format(kw, par), p) for par, p in arg._params.items())
                 else:
                     self._defaults[kw] = arg
 
-- 
2.43.0


From 3585cf3a1dbe8cc5bea1d10b1b4532027978cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 10/48] fix: saving a pulsar to feather always failed

save_feather looked up attributes of FeatherPulsar on Pulsar, which is a
function, and the private _toas, which a FeatherPulsar does not have.
---
 enterprise/pulsar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..7404a29 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -731,8 +731,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
+        pydict["toas"] = pydict["toas"].astype(float)
 
         pydict.update(
             {
@@ -754,9 +754,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From e515262325d1f6076ed07e189343c87503e82209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 11/48] fix: filter_data left pulsar arrays inconsistent

Site TOAs, telescopes, pulsar and Sun positions were not filtered, planet
positions were masked in the wrong order for unsorted TOAs, columns that
merely sum to zero were dropped, fitpars did not follow the design matrix,
and giving only one of the two bounds failed.
---
 enterprise/pulsar.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 7404a29..0fa1fe4 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,19 +137,25 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask &= self._toas >= start_time * 86400
+        if end_time is not None:
+            mask &= self._toas <= end_time * 86400
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
+        self._telescope = self._telescope[mask]
+        self._pos_t = self._pos_t[mask, :]
 
+        # drop the parameters (e.g., DMX) that have no effect on the remaining TOAs
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -158,7 +164,10 @@ class BasePulsar(object):
                 self._flags[key] = self._flags[key][mask]
 
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From 6d8573f084e25f41b81806c254430b13bebdbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 12/48] fix: ECORR kernel failed for pulsars without multi-TOA
 epochs

With the fast-sherman-morrison and block methods an empty list of epochs
raised an exception, while the other methods correctly add no covariance.
---
 enterprise/signals/signal_base.py   | 2 +-
 enterprise/signals/white_signals.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c8f87f5..b3c04f6 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1171,7 +1171,7 @@ class BlockMatrix(object):
 
         if np.any(nvec != 0):
             s1 = set(np.arange(len(nvec)))
-            s2 = set(np.concatenate([np.arange(len(nvec))[slc] for slc in slices]))
+            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
             sd = s1.difference(s2)
             self._idx = np.array([s for s in sd])
 
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f7cd982..cc0328d 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -278,6 +278,9 @@ def EcorrKernelNoise(
 
         def _get_ndiag_fast_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
+            if not slices:
+                # FastShermanMorrison does not support an empty set of epochs
+                return signal_base.ShermanMorrison(jvec, slices)
             return fastshermanmorrison.FastShermanMorrison(jvec, slices)
 
         def _get_ndiag_block(self, params):
-- 
2.43.0


From 9aa06ed87b27171402a5f8bb59ebf89cf29d4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 13/48] fix: BlockMatrix.solve returned wrong shapes for
 single-column matrices

Results were squeezed or converted to float, so a basis with one column gave
a scalar, or failed when multiplied with a wider matrix.
---
 enterprise/signals/signal_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index b3c04f6..fa63671 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1190,6 +1190,7 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        xdim, zdim = X.ndim, Z.ndim
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1212,12 +1213,17 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        # drop only the axes that we have added
+        if xdim == 1:
+            return float(ZNX[0, 0]) if zdim == 1 else ZNX[:, 0]
+        else:
+            return ZNX[0, :] if zdim == 1 else ZNX
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        xdim = X.ndim
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1227,7 +1233,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX[:, 0] if xdim == 1 else NX
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From 36821bcc15d8a210b5d135e6d384bbb40c5d8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 14/48] fix: pulsars without a basis broke models that have one
 elsewhere

The likelihood of correlated models, and the conditional GP coefficients,
failed on the None that such pulsars return for TNr and TNT.
---
 enterprise/signals/signal_base.py |  6 +++---
 enterprise/signals/utils.py       | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index fa63671..dec077b 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -195,13 +195,13 @@ class LogLikelihood(object):
     @simplememobyid
     def _block_TNT(self, TNTs):
         if self.cholesky_sparse:
-            return sps.block_diag(TNTs, "csc")
+            return sps.block_diag([TNT for TNT in TNTs if TNT is not None], "csc")
         else:
-            return sl.block_diag(*TNTs)
+            return sl.block_diag(*[TNT for TNT in TNTs if TNT is not None])
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 517eea0..8b2b3c7 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -52,6 +52,12 @@ class ConditionalGP:
         TNTs = self.pta.get_TNT(params)
         phiinvs = self.pta.get_phiinv(params, logdet=False, method=self.phiinv_method)
 
+        # some pulsars may have no basis
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+        if not self.pta._commonsignals:
+            phiinvs = [phiinv for phiinv in phiinvs if phiinv is not None]
+
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
         if self.pta._commonsignals:
@@ -147,6 +153,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # some pulsars may have no basis
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -189,6 +199,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            # this pulsar may have no basis
+            if TNT is None:
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
-- 
2.43.0


From f490c5888292a058cb7896d52d26003c11c77ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 15/48] fix: get_coefficients(common_sparse=True) ignored the
 Cholesky permutation

The sparse factor refers to the permuted matrix, so the coefficients were
drawn with the covariances of other coefficients.
---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 8b2b3c7..3aba1c3 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -163,7 +163,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # L is the factor of the permuted Sigma
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From ca1092e4582cfb3a7d872d0b6ff51db61ca4f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 16/48] fix: get_coefficients mislabeled coefficients next to
 an unpaired common signal

For uncorrelated models it skipped common signals, but these still have
columns in the basis, so all later signals got the wrong coefficients.
---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 3aba1c3..bbbdcc2 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -222,7 +222,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From ca2a03c5da44d4bed9667e497718bda9ecac40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 17/48] fix: MarginalizingTimingModel failed when added after
 an ECORR kernel

The Sherman-Morrison and block kernels tried to add the marginalized matrix
to their diagonal, so a model worked or failed depending on signal order.
---
 enterprise/signals/gp_signals.py  | 3 +++
 enterprise/signals/signal_base.py | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..2e06365 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -820,6 +820,9 @@ def MarginalizingTimingModel(name="marginalizing_linear_timing_model", use_svd=F
 
 
 class MarginalizingNmat(object):
+    # SignalCollection.get_ndiag adds objects with this attribute before all others
+    wraps_ndiag = True
+
     def __init__(self, Mmat, Nmat=0):
         self.Mmat, self.Nmat = Mmat, Nmat
         self.Mprior = Mmat.shape[1] * np.log(1e40)
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index dec077b..77ce970 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -962,7 +962,12 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
-            return sum(ndiag for ndiag in ndiags if ndiag is not None)
+            # objects that wrap all other terms (see gp_signals.MarginalizingNmat) must come first
+            ndiags = sorted(
+                (ndiag for ndiag in ndiags if ndiag is not None),
+                key=lambda ndiag: not getattr(ndiag, "wraps_ndiag", False),
+            )
+            return sum(ndiags)
 
         @cache_call("delay_params")
         def get_delay(self, params):
-- 
2.43.0


From 61286025adad8a29a128ebbc9bf8be0996ffe996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 18/48] fix: signals with an empty basis broke the combined
 basis

---
 enterprise/signals/signal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 77ce970..a112bb9 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -949,7 +949,7 @@ def SignalCollection(metasignals):  # noqa: C901
                 return {}, None
             else:
                 ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
-- 
2.43.0


From cdee31df51d5777a2aa0eccacb9a822ad78fd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 19/48] fix: common GP with a coefficient vector of another
 name returned stale delays

---
 enterprise/signals/gp_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 2e06365..bd01355 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -357,7 +357,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # an instantiated coefficient vector may have any name
+                return [pp.name for pp in self._coefficients.values()]
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From c5a81e744f03f50c6b76ae840b17d8f9b61269d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 20/48] fix: repeated columns within one signal lost part of
 its prior

---
 enterprise/signals/signal_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index a112bb9..6e43601 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -923,10 +923,14 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            if (
+                                signal.basis_combine
+                                and colhash in hashlist
+                                and hashlist.index(colhash) not in idx[signal]
+                            ):
                                 # if we're combining the basis for this signal
-                                # and we have seen this column already, make a note
-                                # of where it was
+                                # and we have seen this column already (in another signal),
+                                # make a note of where it was
 
                                 j = hashlist.index(colhash)
                                 idx[signal].append(j)
-- 
2.43.0


From e121898b1c7e5bddf058dc623c37fffd494a861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 21/48] fix: white noise failed for pulsars that its selection
 does not match

---
 enterprise/signals/white_signals.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index cc0328d..cb795cb 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -40,6 +40,7 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
 
         def _do_selection(self, psr, vfn, selection):
             sel = selection(psr)
+            self._ntoas = len(psr.toas)
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
             self._ndiag, self._params = {}, {}
@@ -57,7 +58,8 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
 
         @signal_base.cache_call("ndiag_params")
         def get_ndiag(self, params):
-            ret = 0
+            # the selection may not match any TOA of this pulsar
+            ret = np.zeros(self._ntoas)
             for key, mask in zip(self._keys, self._masks):
                 ret += self._ndiag[key](params=params) * mask
             return signal_base.ndarray_alt(ret)
-- 
2.43.0


From 39e0b655f9d39624214c081e654f19b79b4458cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 22/48] fix: ECORR failed for pulsars that its selection does
 not match

---
 enterprise/signals/utils.py         | 3 +++
 enterprise/signals/white_signals.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index bbbdcc2..6af099d 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -774,6 +774,9 @@ def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t
 @function
 def create_quantization_matrix(toas, dt=1, nmin=2):
     """Create quantization matrix mapping TOAs to observing epochs."""
+    if len(toas) == 0:
+        return np.zeros((0, 0)), np.ones(0)
+
     isort = np.argsort(toas)
 
     bucket_ref = [toas[isort[0]]]
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index cb795cb..db348fc 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -297,6 +297,7 @@ def EcorrKernelNoise(
             idxs = sum([self._idxs[key] for key in sorted(self._idxs.keys())], [])
             jvec = np.concatenate(
                 [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
+                + [np.zeros(0)]  # the selection may not match any TOA of this pulsar
             )
             return (idxs, jvec)
 
-- 
2.43.0


From 9d377a1d60cfbf9d75c48a8c215f39d6e0558049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 23/48] fix: basis signals failed for pulsars that their
 selection does not match

---
 enterprise/signals/gp_signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index bd01355..6d57e76 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -46,6 +46,7 @@ def BasisGP(
         def _do_selection(self, psr, priorfn, basisfn, coefficients, selection):
             sel = selection(psr)
 
+            self._ntoas = len(psr.toas)
             self._keys = sorted(sel.masks.keys())
             self._masks = [sel.masks[key] for key in self._keys]
             self._prior, self._bases = {}, {}
@@ -100,7 +101,7 @@ def BasisGP(
                 basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
 
             nc = sum(F.shape[1] for F in basis.values())
-            self._basis = np.zeros((len(self._masks[0]), nc))
+            self._basis = np.zeros((self._ntoas, nc))
 
             # TODO: should this be defined here? it will cache phi
             self._phi = KernelMatrix(nc)
-- 
2.43.0


From 42057c84d6ef5a50e007f7ed1c402a2e3ee1785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 24/48] fix: pulsar attributes were passed to the wrong
 function arguments

selection_func supplied them positionally, so that an attribute that does
not come first in the signature landed in another argument (or clashed
with it).
---
 enterprise/signals/selections.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/enterprise/signals/selections.py b/enterprise/signals/selections.py
index 0b4f1e7..0c8ce18 100644
--- a/enterprise/signals/selections.py
+++ b/enterprise/signals/selections.py
@@ -25,28 +25,26 @@ def selection_func(func):
 
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
-        targs = list(args)
-
         # check for mask
         mask = kwargs.get("mask", Ellipsis)
         if "mask" in kwargs:
             del kwargs["mask"]
 
-        if len(targs) < len(funcargs) and "psr" in kwargs:
+        if len(args) < len(funcargs) and "psr" in kwargs:
             psr = kwargs["psr"]
 
             for funcarg in funcargs[len(args) :]:
                 if funcarg not in kwargs and hasattr(psr, funcarg):
                     attr = call_me_maybe(getattr(psr, funcarg))
                     if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
-                        targs.append(attr[mask])
+                        kwargs[funcarg] = attr[mask]
                     else:
-                        targs.append(attr)
+                        kwargs[funcarg] = attr
 
         if "psr" in kwargs and "psr" not in funcargs:
             del kwargs["psr"]
 
-        return func(*targs, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From fa9a9dd2622b122003ce5878ae1c0599ae0694a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 25/48] fix: explicit lists of sampling frequencies were
 rejected

modes is documented as a list or an array.
---
 enterprise/signals/gp_bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..bff45b1 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -49,7 +49,7 @@ def createfourierdesignmatrix_red(
     # define sampling frequencies
     if modes is not None:
         nmodes = len(modes)
-        f = modes
+        f = np.asarray(modes)
     elif fmin is None and fmax is None and not logf:
         # make sure partially overlapping sets of modes
         # have identical frequencies
-- 
2.43.0


From 097ee1cdd5b8b392530f0a7cdeb03dd4d96d3adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 26/48] fix: binary waveform functions no longer scale the
 caller's arrays of chirp mass and distance in place

---
 enterprise/signals/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 6af099d..b7576a8 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -382,7 +382,7 @@ def get_edot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dedt = -304 / (15 * mc) * (2 * np.pi * mc * F) ** (8 / 3) * e * (1 + 121 / 304 * e**2) / ((1 - e**2) ** (5 / 2))
 
@@ -401,7 +401,7 @@ def get_Fdot(F, mc, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     dFdt = (
         48
@@ -427,7 +427,7 @@ def get_gammadot(F, mc, q, e):
     """
 
     # chirp mass
-    mc *= const.Tsun
+    mc = mc * const.Tsun
 
     # total mass
     m = (((1 + q) ** 2) / q) ** (3 / 5) * mc
@@ -565,8 +565,8 @@ def get_an(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * (const.Mpc / const.c)
 
     omega = 2 * np.pi * F
 
@@ -600,8 +600,8 @@ def get_bn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * (const.Mpc / const.c)
 
     omega = 2 * np.pi * F
 
@@ -629,8 +629,8 @@ def get_cn(n, mc, dl, h0, F, e):
     """
 
     # convert to seconds
-    mc *= const.Tsun
-    dl *= const.Mpc / const.c
+    mc = mc * const.Tsun
+    dl = dl * (const.Mpc / const.c)
 
     omega = 2 * np.pi * F
 
-- 
2.43.0


From 72674fdd57796a4b8b6d1ced92eda702e928df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 27/48] fix: no cancellation of large terms in the wideband DM
 likelihood

---
 enterprise/signals/gp_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 6d57e76..1fe2857 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -750,8 +750,8 @@ def WidebandTimingModel(
 
             # now this is a bit wasteful, because it makes copies of the mean DMX and DMXERR
             # and only uses the first value, but it shouldn't cost us too much
-            expterm = -0.5 * np.sum(dm**2 / dme**2)
-            expterm += 0.5 * sum(mean_dm[which][0] ** 2 / mean_dme[which][0] ** 2 for which in self._dmwhich)
+            # same as -0.5 * sum(dm**2 / dme**2) + 0.5 * sum(mean_dm**2 / mean_dme**2), without cancellation
+            expterm = -0.5 * np.sum((dm - mean_dm) ** 2 / dme**2)
 
             # sum_i [-0.5 * log(dmerr**2)] = -sum_i log dmerr; same for mean_dmerr
             logterm = -np.sum(np.log(dme)) + sum(np.log(mean_dme[which][0]) for which in self._dmwhich)
-- 
2.43.0


From 243fbe4d864a69a2e518943b9c229683636250b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 28/48] fix: wideband timing model refuses TOAs in no or in
 several DMX intervals even if their numbers balance

---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 1fe2857..9e87d98 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -629,7 +629,7 @@ def WidebandTimingModel(
 
                 check += self._dmwhich[-1]
 
-            if np.sum(check) != self._ntoas:
+            if np.any(check != 1):
                 raise ValueError("WidebandTimingModel: cannot account for all TOAs in DMX intervals.")
 
             if "DM" in psr.fitpars:
-- 
2.43.0


From 1b88e471d1b721071fa18662781001a1254e5eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 29/48] fix: KernelMatrix added vectors at a slice to whole
 rows of a dense matrix

---
 enterprise/signals/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index b7576a8..1e91785 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -275,6 +275,8 @@ class KernelMatrix(np.ndarray):
             self[idx] += other
         else:
             if other.ndim == 1:
+                # an index array, since two slices would select a block instead of its diagonal
+                idx = np.arange(len(self))[idx]
                 self[idx, idx] += other
             else:
                 self._setcliques(idx)
@@ -291,6 +293,8 @@ class KernelMatrix(np.ndarray):
             self[idx] = other
         else:
             if other.ndim == 1:
+                # an index array, since two slices would select a block instead of its diagonal
+                idx = np.arange(len(self))[idx]
                 self[idx, idx] = other
             else:
                 self._setcliques(idx)
-- 
2.43.0


From bea47e6677172589d75ecc12230357e1ddd54ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 30/48] fix: backend flags truncated fe_be labels longer than
 any flag and failed without flags

---
 enterprise/pulsar.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 0fa1fe4..56025da 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -281,18 +281,20 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        # start from empty labels (the dtype widens as needed)
+        ret = np.zeros(len(self._toas), dtype="U1")
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            ret = np.array(
+                [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])], dtype="U"
+            )
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-                ret[:] = np.where(self._flags[flag] == "", ret, self._flags[flag])
+                ret = np.where(self._flags[flag] == "", ret, self._flags[flag])
 
         return ret[self._isort]
 
-- 
2.43.0


From 8b8690b3911b37bc0fd1f467d04518a93013477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 31/48] fix: save_feather stored the noise values of other
 pulsars whose names begin with this pulsar's name

---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 56025da..0c3bf17 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -775,7 +775,7 @@ class FeatherPulsar:
         noisedict = getattr(self, "noisedict", None) if noisedict is None else noisedict
         if noisedict:
             # only keep noisedict entries that are for this pulsar (requires pulsar name to be first part of the key!)
-            meta["noisedict"] = {par: val for par, val in noisedict.items() if par.startswith(self.name)}
+            meta["noisedict"] = {par: val for par, val in noisedict.items() if par.startswith(self.name + "_")}
 
         feather.write_feather(Table.from_pydict(pydict, metadata={"json": json.dumps(meta)}), filename)
 
-- 
2.43.0


From d9c1ca8ccb6f5714b3e5dd082bf00a17ecd40843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 32/48] fix: deflating an empty array (such as the flags of a
 pulsar without flags) failed

---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..bf43ba9 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -37,7 +37,8 @@ class PulsarInflater:
     def __init__(self, array):
         self.dtype, self.shape, self.nbytes = array.dtype, array.shape, array.nbytes
 
-        shm = shared_memory.SharedMemory(create=True, size=array.nbytes)
+        # (a SharedMemory buffer cannot be empty)
+        shm = shared_memory.SharedMemory(create=True, size=max(array.nbytes, 1))
         self.shmname = shm.name
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
-- 
2.43.0


From 2cd02a2bc84cdc86e41cb9b135f01299ec880eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 33/48] fix: shared pulsar arrays were destroyed when the first
 process that inflated them exited

---
 enterprise/pulsar_inflate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index bf43ba9..c3fe44c 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -51,6 +51,9 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # attaching registers the memory too: without this it is unlinked when the first user exits
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
         c.shm = shm
 
-- 
2.43.0


From 456c18331e503524457999b4d8d6613fe8b2e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 34/48] fix: plain views of inflated arrays crashed after the
 pulsar was gone

---
 enterprise/pulsar_inflate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index c3fe44c..1900a85 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -54,7 +54,8 @@ class PulsarInflater:
         # attaching registers the memory too: without this it is unlinked when the first user exits
         resource_tracker.unregister(shm._name, "shared_memory")
 
-        c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
+        # make the memmap itself the base of all views of the buffer, so that they keep the SharedMemory open
+        c = memmap(self.shape, dtype=self.dtype, buffer=shm.buf)
         c.shm = shm
 
         return c
-- 
2.43.0


From 50db3b77934f4137d5a9c73a24e6451ba8df2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 35/48] fix: PTA.summary counted common and fixed parameters
 once per pulsar and none without include_params

---
 enterprise/signals/signal_base.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6e43601..eab5d43 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -766,12 +766,16 @@ class PTA(object):
         row = ["Signal Name", "Signal Class", "no. Parameters"]
         summary += "{: <40} {: <30} {: <20}\n".format(*row)
         summary += "=" * 90 + "\n"
-        cpcount, copcount = 0, 0
+        # common and fixed parameters may appear in more than one signal or pulsar
+        common, fixed = set(), set()
         for sc in self._signalcollections:
             for sig in sc._signals:
                 for p in sig.param_names:
                     if sc.psrname not in p:
-                        cpcount += 1
+                        common.add(p)
+                for par in sig._params.values():
+                    if isinstance(par, ConstantParameter):
+                        fixed.add(par.name)
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
@@ -781,15 +785,13 @@ class PTA(object):
                     summary += "\n"
                     summary += "params:\n"
                     for par in sig._params.values():
-                        if isinstance(par, ConstantParameter):
-                            copcount += 1
                         summary += "{!s: <90}\n".format(par.__repr__())
                 summary += "_" * 90 + "\n"
         summary += "=" * 90 + "\n"
-        summary += "Total params: {}\n".format(len(self.param_names) + copcount)
+        summary += "Total params: {}\n".format(len(self.param_names) + len(fixed))
         summary += "Varying params: {}\n".format(len(self.param_names))
-        summary += "Common params: {}\n".format(cpcount)
-        summary += "Fixed params: {}\n".format(copcount)
+        summary += "Common params: {}\n".format(len(common))
+        summary += "Fixed params: {}\n".format(len(fixed))
         summary += "Number of pulsars: {}\n".format(len(self._signalcollections))
         if to_stdout:
             logger.info(summary)
-- 
2.43.0


From 802efcce9dc147a645db17e9a59c28d2de5de05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 36/48] fix: PTA.summary failed for Gaussian-process signals
 with coefficients

---
 enterprise/signals/signal_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index eab5d43..b47d24d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -778,7 +778,8 @@ class PTA(object):
                         fixed.add(par.name)
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
-                if "BasisGP" in sig.__class__.__name__:
+                # (signals that sample their coefficients have no basis to be marginalized over)
+                if "BasisGP" in sig.__class__.__name__ and sig.get_basis() is not None:
                     summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
                     summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
                 if include_params:
-- 
2.43.0


From 827688bbc68ab8468b4f60e0fb08392648b93da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 37/48] fix: find the par file when the tim file is in a
 symbolically linked directory

---
 enterprise/pulsar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 0c3bf17..4110b2b 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -823,7 +823,8 @@ def Pulsar(*args, **kwargs):
         timfiletup = os.path.split(timfile[0])
         dirname = timfiletup[0] or "./"
         reltimfile = timfiletup[-1]
-        relparfile = os.path.relpath(parfile[0], dirname)
+        # (".." is followed physically after chdir, also if dirname is a symbolic link)
+        relparfile = os.path.relpath(os.path.realpath(parfile[0]), os.path.realpath(dirname))
 
         if timing_package is None:
             if t2 is not None:
-- 
2.43.0


From a8643573cae0d0b203cad648d47f96b9aebd6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 38/48] fix: count a tim file's own TOAs next to its INCLUDEs
 when setting maxobs

---
 enterprise/pulsar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 4110b2b..ef27056 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,12 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        # a tim file can hold both TOAs and INCLUDEs
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From 58bca20f104adbf2e9b14dd994c2bbb63d0c65e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 39/48] fix: sparse likelihood reused a symbolic factorization
 for another sparsity pattern

---
 enterprise/signals/signal_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index b47d24d..c613d84 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -233,12 +233,16 @@ class LogLikelihood(object):
                 try:
                     Sigma_sp = TNT + sps.csc_matrix(phiinv)
 
-                    if hasattr(self, "cf_sp"):
+                    # the symbolic decomposition holds for one sparsity pattern only (cross terms may vanish)
+                    pattern = (Sigma_sp.indptr, Sigma_sp.indices)
+
+                    if hasattr(self, "cf_sp") and all(map(np.array_equal, pattern, self._cf_pattern)):
                         # Have analytical decomposition already. Just do update
                         self.cf_sp.cholesky_inplace(Sigma_sp)
                     else:
                         # Do analytical and numerical Sparse Cholesky
                         self.cf_sp = cholesky(Sigma_sp)
+                        self._cf_pattern = pattern
 
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
-- 
2.43.0


From 0910a95f92b7e85aaccdf3bf2f06d1fe505cc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:30 +0000
Subject: [PATCH 40/48] fix: tempo2 pulsars mark DMX parameters that are set
 but not fitted

The "fit" entry of Tempo2Pulsar.dmx compared the names with the list of parameters that are set, which holds them
all, so it was always true; WidebandTimingModel relies on it to reject DMX parameters that are not estimated.
---
 enterprise/pulsar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ef27056..f2285b1 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -575,7 +575,7 @@ class Tempo2Pulsar(BasePulsar):
                 "DMXerr": float(t2pulsar[par].err),
                 "DMXR1": float(t2pulsar[par[:3] + "R1" + par[3:]].val),
                 "DMXR2": float(t2pulsar[par[:3] + "R2" + par[3:]].val),
-                "fit": par in pars,
+                "fit": par in self.fitpars,
             }
             for par in pars
             if "DMX_" in par
-- 
2.43.0


From f20dac4d32dbe5ae4e21720cdd1a6a51f6682cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 41/48] fix: density of correlated normal values whose
 determinant under- or overflows

NormalPrior divided by the square root of the determinant, which is 0 or infinite in double precision for (e.g.)
28 values with microsecond deviations, although the density itself is representable: the log-density became +-inf.
---
 enterprise/signals/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 5af9cbf..2ab4906 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -245,7 +245,9 @@ def NormalPrior(value, mu, sigma):
 
     if np.ndim(sigma) == 2:
         dx = value - mu
-        return np.exp(-0.5 * np.dot(dx, np.dot(np.linalg.inv(sigma), dx))) / np.sqrt(np.linalg.det(2 * np.pi * sigma))
+        # (for many values the determinant may under- or overflow, although the density does not)
+        logdet = np.linalg.slogdet(2 * np.pi * sigma)[1]
+        return np.exp(-0.5 * np.dot(dx, np.dot(np.linalg.inv(sigma), dx)) - 0.5 * logdet)
     else:
         return np.exp(-0.5 * (value - mu) ** 2 / sigma**2) / np.sqrt(2 * np.pi * sigma**2)
 
-- 
2.43.0


From 3907f4e751567ea6af1aeb5f41bd5902d9626249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 42/48] fix: hd_orf of distinct pulsars closer than about 1e-8
 radians is 0.5, not nan

1 - cos rounds to zero (or below) there, and 0 * log(0) is nan.
---
 enterprise/signals/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 1e91785..73b6f3f 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -870,8 +870,9 @@ def hd_orf(pos1, pos2):
     if np.all(pos1 == pos2):
         return 1
     else:
-        omc2 = (1 - np.dot(pos1, pos2)) / 2
-        return 1.5 * omc2 * np.log(omc2) - 0.25 * omc2 + 0.5
+        # for very close positions, 1 - cos rounds to zero, or to less than zero
+        omc2 = max((1 - np.dot(pos1, pos2)) / 2, 0.0)
+        return 1.5 * ss.xlogy(omc2, omc2) - 0.25 * omc2 + 0.5
 
 
 @function
-- 
2.43.0


From 750fc6f0456433e974d132e6196d8884ad56b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 43/48] fix: delays of explicit GP coefficients change with the
 parameters of the basis

SignalCollection caches the summed delay by the delay parameters of its signals;
with coefficients=True these left out the parameters of the basis, so that the delay
(and the likelihood) stayed the old one when only those changed.
---
 enterprise/signals/gp_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 9e87d98..5dca4bc 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -136,7 +136,8 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay depends on the basis also
+                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -359,7 +360,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
             @property
             def delay_params(self):
                 # an instantiated coefficient vector may have any name
-                return [pp.name for pp in self._coefficients.values()]
+                # (and the delay depends on the basis also)
+                return [pp.name for pp in self._coefficients.values()] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 7c70a3e7ebe4d0f733a0dc5662725c0d93c14f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 44/48] fix: linear_interp_basis was empty for simultaneous
 TOAs

---
 enterprise/signals/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 73b6f3f..d4d6479 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -855,6 +855,10 @@ def linear_interp_basis(toas, dt=30 * 86400):
         M[idx, ii] = (toas[idx] - x[ii + 1]) / (x[ii] - x[ii + 1])
         M[idx, ii + 1] = (toas[idx] - x[ii]) / (x[ii + 1] - x[ii])
 
+    # simultaneous TOAs all sit on the only node
+    if len(x) == 1:
+        M[:] = 1.0
+
     # only return non-zero columns
     idx = M.sum(axis=0) != 0
 
-- 
2.43.0


From d85ec277e79ecd37fa6dd29a0dd405c8f554cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 45/48] fix: BasisGP keeps its labels when a basis function
 raises an error

The labels were replaced by an empty dictionary before the basis functions
ran. If one of them failed, the next evaluation at the previous (cached)
basis parameters found no labels and raised KeyError.
---
 enterprise/signals/gp_signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index 5dca4bc..ba1ce0b 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -96,9 +96,12 @@ def BasisGP(
         # than the last time
         @signal_base.cache_call("basis_params", limit=1)
         def _construct_basis(self, params={}):
-            basis, self._labels = {}, {}
+            # (nothing is changed until all bases have been evaluated without errors)
+            basis, labels = {}, {}
             for key, mask in zip(self._keys, self._masks):
-                basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
+                basis[key], labels[key] = self._bases[key](params=params, mask=mask)
+
+            self._labels = labels
 
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((self._ntoas, nc))
-- 
2.43.0


From 75172a6d14121b9e63d68d4ced98e2671e573e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 46/48] fix: cache_call lists a key only once its value has
 been computed

A call that raised an error left its key in the list without a cache entry.
Dropping that key later left one entry too many in the cache; for methods
with side effects (limit=1) a later call was then answered from the cache
while the instance had the state of another call, so that bases and
likelihoods belonged to other parameters.
---
 enterprise/signals/signal_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index c613d84..7b38961 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1100,8 +1100,9 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
+                # (if func fails, its key must not take up a place in the list)
                 cache[key] = func(self, params)
+                cache_list.append(key)
 
                 if len(cache_list) > limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
-- 
2.43.0


From e302807a248cd3e124c5cf6e0ff16e80c8a59866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 47/48] fix: conditional GP coefficients in models that also
 contain GPs with explicit coefficients

GPs built with coefficients=True contribute a delay and no basis, so
ConditionalGP and get_coefficients raised AttributeError for the other
processes of such models.
---
 enterprise/signals/utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d4d6479..f8b4c57 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -104,6 +104,11 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+
+                    # a GP with explicit coefficients is a delay, and adds no basis
+                    if sb is None:
+                        continue
+
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -180,7 +185,13 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+
+                        # a GP with explicit coefficients is a delay, and adds no basis
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -223,7 +234,13 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+
+                        # a GP with explicit coefficients is a delay, and adds no basis
+                        if sb is None:
+                            continue
+
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From 502fa3623de5a43c2e600950d36981d42a9c4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 48/48] fix: seeded phase shifts no longer reset numpy's global
 random state

Evaluating a Fourier basis with pseed called np.random.seed, so every model
evaluation restarted the random numbers of the program (e.g. of a sampler).
---
 enterprise/signals/gp_bases.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index bff45b1..7ac9fff 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -72,10 +72,13 @@ def createfourierdesignmatrix_red(
     if pshift or pseed is not None:
         if pseed is not None:
             # use the first toa to make a different seed for every pulsar
+            # (a generator of its own, so that the global one is left alone)
             seed = int(toas[0] / 17) + int(pseed)
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
+        else:
+            rng = np.random
 
-        ranphase = np.random.uniform(0.0, 2 * np.pi, nmodes)
+        ranphase = rng.uniform(0.0, 2 * np.pi, nmodes)
     else:
         ranphase = np.zeros(nmodes)
 
-- 
2.43.0

