From 02a9bd44acb2711d9d982b0c49a68eb97ebee4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 01/24] fix: do not modify the caller's Wilson object in
 from_wilson

Evaluating an observable wrote the CKM parameters into the options of the
user's Wilson instance but kept using (and filling) its old cache. Later
calls with the same instance then returned coefficients matched and run with
other parameters. Use a copy of the options, and keep the intermediate
results together with the coefficients and options they are valid for.
---
 flavio/physics/eft.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..f59f70f 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -168,11 +168,17 @@ class WilsonCoefficients(wilson.Wilson):
             return w
         fwc = cls()
         fwc.set_initial_wcxf(w.wc)
-        fwc._cache = w._cache
-        fwc._options = w._options
+        # work on a copy of the options: `w` must not be modified
+        fwc._options = w._options.copy()
         _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
-        if fwc.get_option('parameters') != _ckm_options:
-            fwc.set_option('parameters', _ckm_options)
+        fwc.set_option('parameters', _ckm_options)
+        # reuse the intermediate results of the last call with the same `w`,
+        # which are only valid for the same coefficients and options
+        wc, options, cache = getattr(w, '_flavio_cache', (None, None, None))
+        if wc is w.wc and options == fwc._options:
+            fwc._cache = cache
+        else:
+            w._flavio_cache = (w.wc, fwc._options, fwc._cache)
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From 7f4fff61db3f4ddff17be198c303ee3e86268b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 02/24] fix: drop superseded and removed constraints from the
 constraint list

remove_constraint left the constraint in the list used for random numbers
and dumps, so it still consumed random numbers and came back after a dump
and reload.
---
 flavio/classes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..b4ffd3e 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -200,7 +200,13 @@ class Constraints(object):
 
     def remove_constraint(self, parameter):
         """Remove existing constraint on a parameter."""
-        self._parameters.pop(parameter, None)
+        removed = self._parameters.pop(parameter, None)
+        if removed is None:
+            return
+        # drop the constraint if it does not apply to any other parameter
+        if not any(c is removed[1] for _, c in self._parameters.values()):
+            self._constraints = [(c, p) for c, p in self._constraints
+                                 if c is not removed[1]]
 
     def remove_constraints(self, parameter):
         warnings.warn("This function was renamed to `remove_constraint` "
@@ -378,6 +384,13 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # leave out parameters this constraint does not apply to anymore
+            exclude = tuple(i for i, p in enumerate(parameters)
+                            if self._parameters.get(p, None) != (i, constraint))
+            if exclude:
+                constraint = constraint.reduce_dimension(exclude=exclude)
+                parameters = [p for i, p in enumerate(parameters)
+                              if i not in exclude]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From ca79309a9ce00c3afab57adef06460d82169ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 03/24] fix: do not modify the caller's dictionary in
 Observable.argument_format

sm_covariance pops the name of an observable given as a dictionary, so
the second random point failed with a KeyError in the serial case.
---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b4ffd3e..5795dea 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -627,7 +627,7 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = dict(obs)
         if format == 'tuple':
             return t
         elif format == 'list':
-- 
2.43.0


From c7b4e4328029d33fa88ef401dda4047edee1209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 04/24] fix: do not truncate contour data to integers in the
 serial case

np.vectorize takes the output type from the first value, so all values were
truncated if the log-likelihood of the first point is an integer.
---
 flavio/plots/plotfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 6a044fd..67583b5 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -543,9 +543,11 @@ def likelihood_contour_data(
         raise ValueError("`yscale` must be 'linear' or 'log'.")
     x, y = np.meshgrid(_x, _y)
     if threads == 1:
-        @np.vectorize
-        def chi2_vect(x, y): # needed for evaluation on meshgrid
+        def chi2(x, y):
             return -2*log_likelihood([x,y])
+        # needed for evaluation on meshgrid; without `otypes`, the type of the
+        # first value would be used for all of them
+        chi2_vect = np.vectorize(chi2, otypes=[float])
         z = chi2_vect(x, y)
     else:
         xy = np.array([x, y]).reshape(2, steps**2).T
-- 
2.43.0


From 3f9f4b7c39ea6bf79b7285a4b28d8cc0d7b76a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 05/24] fix: clean up worker pools when a parallel computation
 fails

The pools of np_uncertainty, sm_covariance and likelihood_contour_data were
left running when an evaluation failed or was interrupted. A pool passed to
likelihood_contour_data is now left open for the caller (it was closed after
the first use) and is used for the default threads=1 as documented.
---
 flavio/functions.py           | 22 ++++++++++------------
 flavio/plots/plotfunctions.py | 14 ++++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..82082e7 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -69,19 +69,18 @@ def np_uncertainty(obs_name, wc_obj, *args, N=100, threads=1, **kwargs):
         all_pred = np.array([_obs_prediction_par(par, obs_name, wc_obj, *args, **kwargs) for par in par_random])
     else:
         # parallel
-        pool = Pool(threads)
         # convert args to kwargs
         _kwargs = kwargs.copy()
         obs_args = flavio.Observable[obs_name].arguments
         for i, a in enumerate(args):
             _kwargs[obs_args[i]] = a
-        all_pred = np.array(
-                    pool.map(
-                        partial(_obs_prediction_par,
-                        obs_name=obs_name, wc_obj=wc_obj, **_kwargs),
-                        par_random))
-        pool.close()
-        pool.join()
+        # the pool is terminated also if the computation fails
+        with Pool(threads) as pool:
+            all_pred = np.array(
+                        pool.map(
+                            partial(_obs_prediction_par,
+                            obs_name=obs_name, wc_obj=wc_obj, **_kwargs),
+                            par_random))
     return np.std(all_pred)
 
 def sm_uncertainty(obs_name, *args, N=100, threads=1, **kwargs):
@@ -280,10 +279,9 @@ def sm_covariance(obs_list, N=100, par_vary='all', par_obj=None, threads=1,
     if threads == 1:
         pred_map = map(func_map, par_random)
     else:
-        pool = Pool(threads)
-        pred_map = pool.map(func_map, par_random)
-        pool.close()
-        pool.join()
+        # the pool is terminated also if the computation fails
+        with Pool(threads) as pool:
+            pred_map = pool.map(func_map, par_random)
     all_pred = np.array(list(pred_map))
     return np.cov(all_pred.T)
 
diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 67583b5..7bdeb15 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -542,7 +542,7 @@ def likelihood_contour_data(
     else:
         raise ValueError("`yscale` must be 'linear' or 'log'.")
     x, y = np.meshgrid(_x, _y)
-    if threads == 1:
+    if threads == 1 and not pool:
         def chi2(x, y):
             return -2*log_likelihood([x,y])
         # needed for evaluation on meshgrid; without `otypes`, the type of the
@@ -551,16 +551,18 @@ def likelihood_contour_data(
         z = chi2_vect(x, y)
     else:
         xy = np.array([x, y]).reshape(2, steps**2).T
-        pool = pool or Pool(threads)
+        own_pool = None if pool else Pool(threads)
         try:
-            z = -2*np.array(pool.map(log_likelihood, xy )).reshape((steps, steps))
+            z = -2*np.array((pool or own_pool).map(log_likelihood, xy )).reshape((steps, steps))
         except PicklingError:
-            pool.close()
             raise PicklingError("When using more than 1 thread, the "
                                 "log_likelihood function must be picklable; "
                                 "in particular, you cannot use lambda expressions.")
-        pool.close()
-        pool.join()
+        finally:
+            # a pool passed by the caller is left for the caller to close
+            if own_pool:
+                own_pool.terminate()
+                own_pool.join()
 
     # get the correct values for 2D confidence/credibility contours for n sigma
     if isinstance(n_sigma, Number):
-- 
2.43.0


From 41297d44186277b7695534d80de375d53c021d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 06/24] fix: register citations also when cached values are
 used

The papers cited for the quark loop functions and the kinetic scheme masses
were registered inside cached functions, so they were missing in citations
collected after the function had been called with the same arguments.
---
 flavio/physics/bdecays/matrixelements.py | 30 +++++++++++++++++++-----
 flavio/physics/running/running.py        |  7 ++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..00e47d3 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -79,9 +78,12 @@ def F_17(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -91,11 +93,14 @@ def F_19(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -105,9 +110,12 @@ def F_27(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -117,6 +125,10 @@ def F_29(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +167,14 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA_cached(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +188,14 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB_cached(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..dab2eda 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -1,5 +1,6 @@
 """Functions to solve the renormalization group equations (RGEs) numerically."""
 
+import flavio
 from flavio.physics.running import betafunctions
 from flavio.physics.running import masses
 from scipy.integrate import odeint
@@ -201,6 +202,9 @@ def get_mc_KS(par, scale):
     r"""Get the $c$ quark mass in the kinetic scheme."""
     mcmc = par['m_c']
     alpha_s = get_alpha(par, mcmc)['alpha_s']
+    # to be registered also if the cached value is used
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     return _get_mc_KS(mcmc=mcmc, alpha_s=alpha_s, scale=scale, nl=3)
 
 
@@ -229,6 +233,9 @@ def get_mb_KS(par, scale):
     r"""Get the $b$ quark mass in the kinetic scheme."""
     mbmb = par['m_b']
     alpha_s = get_alpha(par, mbmb)['alpha_s']
+    # to be registered also if the cached value is used
+    flavio.citations.register("Gambino:2011cq")
+    flavio.citations.register("Benson:2003kp")
     return _get_mb_KS(mbmb=mbmb, alpha_s=alpha_s, scale=scale, nl=3)
 
 
-- 
2.43.0


From 991844ccbc1812b350b320fa7a1393480abf3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 07/24] fix: compare all inputs exactly before reusing cached
 predictions

MeasurementLikelihood compared only a hash of parameters and coefficient
values: points with equal hashes (e.g. -1 and -2), changed Wilson options,
implementations, configuration or redefined observables got the predictions
of the previous point. The dictionary returned is now a copy, and key and
values are stored together so that threads cannot mix them up.
---
 flavio/statistics/likelihood.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..4150b9f 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -1,3 +1,4 @@
+import copy
 import flavio
 from collections import Counter
 import warnings
@@ -60,8 +61,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
-        self._predictions_cache_values = None
+        self._predictions_cache = (None, None)
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
 
@@ -142,18 +142,34 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        key = self._get_predictions_cache_key(par_dict, wc_obj)
+        cached_key, all_predictions = self._predictions_cache
+        if key != cached_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
                 name = obs.pop('name')
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
-            self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            # key and values are set together
+            self._predictions_cache = (key, all_predictions)
+        return all_predictions.copy()
+
+    @staticmethod
+    def _get_predictions_cache_key(par_dict, wc_obj):
+        """Return an object that compares equal if and only if everything the
+        predictions depend on is the same. (Hashes are not sufficient as e.g.
+        `hash(-1.) == hash(-2.)`.)"""
+        wc = getattr(wc_obj, 'wc', None)
+        return (
+            frozenset(par_dict.items()),
+            None if wc is None else (wc.eft, wc.basis, wc.scale, wc.dict),
+            copy.deepcopy(getattr(wc_obj, '_options', None)),
+            # current definitions and configuration
+            copy.deepcopy(flavio.config),
+            [obs.prediction for obs in flavio.classes.Observable.instances.values()],
+            [imp.function for imp in flavio.classes.Implementation.instances.values()],
+        )
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From f22a44af90c8c249eaa0a2a4b2baf58edf50222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 08/24] fix: do not modify the parameter dictionary in form
 factor functions

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 7 ++++---
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..15cd201 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,9 +50,10 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
-    par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
-    par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
+    a0 = {'A12': par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2)),
+          'T2': par[par_prefix + ' a0_T1']}
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
-        a = [ par[par_prefix + ' a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0
+              else par[par_prefix + ' a' + str(j) + '_' + i] for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mB, mV, q2, t0=None)[:n])
     return ff
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..eaddea2 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,9 +50,10 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
-    par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
-    par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
+    a0 = {'fAperp': par[process+' SSE a0_fA0'],
+          'fT5perp': par[process+' SSE a0_fT50']}
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-        a = [ par[process+' SSE ' + 'a' + str(j) + '_' + i] for j in range(n) ]
+        a = [ a0[i] if j == 0 and i in a0
+              else par[process+' SSE ' + 'a' + str(j) + '_' + i] for j in range(n) ]
         ff[i] = pole(i, mres, q2)*np.dot(a, zs(mX, mP, par, q2)[:n])
     return ff
-- 
2.43.0


From d5e1ca5381946dc5e69a143dc6eac46afb7298d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 09/24] fix: leave constraints unchanged when an update is not
 valid

---
 flavio/classes.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 5795dea..7043229 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -147,6 +147,8 @@ class Constraints(object):
         `constraint` must be an instance of a child of ProbabilityDistribution.
 
         Note that if there already exists a constraint, it will be removed."""
+        for parameter in parameters:
+            hash(parameter)  # fail before any existing constraint is removed
         for num, parameter in enumerate(parameters):
             if is_parameter_constraint:
                 try: # check if parameter object already exists
@@ -451,21 +453,20 @@ class Constraints(object):
             meta = data.get('metadata', {})
             arguments = data['arguments']
             kwargs.update(arguments)
-            inst = instance or cls(*args, **kwargs)
-            for m in meta:
-                inst.__dict__[m] = meta[m]
         else:
-            inst = instance or cls(*args, **kwargs)
             constraints = data.copy()
+            meta = {}
+        # construct all the distributions before changing the instance, such
+        # that it is left as it was if one of the constraints is not valid
+        constraint_list = []
         for c in constraints:
             if pname not in c:
                 if 'values' not in c and len(c) == 1:
                     # this means we probably have a constraint of the
                     # form parameter: constraint_string
                     for k, v in c.items():  # this loop runs only once
-                        inst.set_constraint(k, v)
-                        break  # just to be sure
-                    continue
+                        parameters = [k]
+                        pds = constraints_from_string(v)
                 else:
                     # in this case something is clearly wrong. Mabye the
                     # wrong "pname" was used.
@@ -474,8 +475,12 @@ class Constraints(object):
             else:
                 parameters = [tuple(p) if isinstance(p, list) else p for p in c[pname]]
                 pds = dict2dist(c['values'])
-                combined_pd = convolve_distributions(pds)
-                inst.add_constraint(parameters, combined_pd)
+            constraint_list.append((parameters, convolve_distributions(pds)))
+        inst = instance or cls(*args, **kwargs)
+        for m in meta:
+            inst.__dict__[m] = meta[m]
+        for parameters, constraint in constraint_list:
+            inst.add_constraint(parameters, constraint)
         return inst
 
 
-- 
2.43.0


From 71b326df744cee46501938a102354e4f5f74cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 10/24] fix: draw gamma distributed numbers from the global
 random state

---
 flavio/statistics/probability.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..c900168 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -602,8 +602,8 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
-        return self.scipy_dist.rvs(size=size)
+    def get_random(self, size=None):
+        return self.loc + self.scale * np.random.standard_gamma(self.a, size)
 
     def cdf(self, x):
         return self.scipy_dist.cdf(x)
@@ -671,7 +671,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
@@ -681,7 +681,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
             return r[:size]
 
     def _get_random(self, size):
-        r = self.scipy_dist.rvs(size=size)
+        r = self.loc + self.scale * np.random.standard_gamma(self.a, size)
         return r[(r >= 0)]
 
     def cdf(self, x):
-- 
2.43.0


From 17ad0ea2df81c303fc17ddd7941311d6fd1c7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 11/24] fix: use a scalar central value when reducing to one
 dimension

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c900168..61c8d67 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1575,7 +1575,7 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         cv = np.delete(self.central_value, tuple(exclude))
         if len(xi) == 1:
             # if there is just 1 dimension left, use univariate
-            dist = NumericalDistribution(xi[0], y, cv)
+            dist = NumericalDistribution(xi[0], y, cv[0])
         else:
             dist = MultivariateNumericalDistribution(xi, y, cv)
         return dist
-- 
2.43.0


From 0e3b76498d04f6f33276d9b16557c1bbbb88ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 12/24] fix: load measurement and parameter files completely or
 not at all

---
 flavio/classes.py      |  24 ++++++
 flavio/measurements.py | 164 +++++++++++++++++++++--------------------
 flavio/parameters.py   |  79 ++++++++++----------
 3 files changed, 150 insertions(+), 117 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index 7043229..d336501 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -4,6 +4,7 @@
 import numpy as np
 from .config import config
 from collections import OrderedDict, defaultdict
+import contextlib
 import copy
 import flavio
 from flavio._parse_errors import constraints_from_string, \
@@ -67,6 +68,18 @@ class NamedInstanceClass(object, metaclass=NamedInstanceMetaclass):
         """Delete all instances."""
         cls.instances = OrderedDict()
 
+    @classmethod
+    @contextlib.contextmanager
+    def _restore_instances_on_error(cls):
+        """Context manager discarding all instances added in a block that is
+        left with an exception and restoring the ones they replaced."""
+        instances = getattr(cls, 'instances', OrderedDict()).copy()
+        try:
+            yield
+        except BaseException:
+            cls.instances = instances
+            raise
+
     @classmethod
     def find(cls, regex):
         """Find all instance names matching the regular expression `regex`."""
@@ -216,6 +229,17 @@ class Constraints(object):
                       DeprecationWarning)
         self.remove_constraint(parameter)
 
+    @contextlib.contextmanager
+    def _restore_constraints_on_error(self):
+        """Context manager restoring the constraints if a block is left with
+        an exception."""
+        constraints, parameters = self._constraints.copy(), self._parameters.copy()
+        try:
+            yield
+        except BaseException:
+            self._constraints, self._parameters = constraints, parameters
+            raise
+
     def get_central(self, parameter):
         """Get the central value of a parameter"""
         if parameter not in self._parameters.keys():
diff --git a/flavio/measurements.py b/flavio/measurements.py
index 611a865..f784136 100644
--- a/flavio/measurements.py
+++ b/flavio/measurements.py
@@ -12,92 +12,97 @@ import warnings
 def _load(obj):
     """Read measurements from a YAML stream or file."""
     measurements = yaml.safe_load(obj)
-    for m_name, m_data in measurements.items():
-        m = Measurement(m_name)
-        for arg in ['inspire', 'hepdata', 'experiment', 'url', 'description']:
-            if arg in m_data:
-                setattr(m, arg, m_data[arg])
-        if 'observables' in m_data:
-            # for multivariate constraints
-            pd = probability.dict2dist(m_data['values'])
-            pd = probability.convolve_distributions(pd)
-            # for observables without arguments (i.e. strings), this is trivial;
-            obs_list = [obs if isinstance(obs, str)
-            # for obs. with arguments, need to convert dict of the form
-            # {'name': myname, 'arg1': v1, ...} to a tuple of the form
-            # (myname, v1, ...)
-                        else tuple(
-                                [obs['name']]
-                              + [obs[arg] for arg in Observable[obs['name']].arguments])
-                        for obs in m_data['observables']]
-            m.add_constraint(obs_list, pd)
-        elif 'correlation' not in m_data:
-            # for univariate constraints
-            if isinstance(m_data['values'], list):
-                for value_dict in m_data['values']:
-                    args = Observable[value_dict['name']].arguments
-                    # numerical values of arguments, e.g. [1, 6]
-                    args_num = [value_dict[a] for a in args]
-                    # insert string name in front of argument values and turn it
-                    # into a tuple, e.g. ('FL(B0->K*mumu)', 1, 6)
-                    args_num.insert(0, value_dict['name'])
-                    obs_tuple = tuple(args_num)
-                    if isinstance(value_dict['value'], dict):
-                        m.set_constraint(obs_tuple, constraint_dict=value_dict['value'])
-                    else:
-                        m.set_constraint(obs_tuple, value_dict['value'])
-            else: # otherwise, 'values' is a dict just containing name: constraint_string
-                for obs, value in m_data['values'].items():
-                    if isinstance(value, dict) or isinstance(value, list):
-                        m.set_constraint(obs, constraint_dict=value)
-                    else:
-                        m.set_constraint(obs, value)
-        else:
-            # for multivariate normal constraints
-            observables = []
-            central_values = []
-            errors = []
-            if isinstance(m_data['values'], list):
-                for value_dict in m_data['values']:
-                    # if "value" is a list, it contains the values of observable
-                    # arguments (like q^2)
-                    args = Observable[value_dict['name']].arguments
-                    args_num = [value_dict[a] for a in args]
-                    error_dict = errors_from_string(value_dict['value'])
-                    args_num.insert(0, value_dict['name'])
-                    obs_tuple = tuple(args_num)
-                    observables.append(obs_tuple)
-                    central_values.append(error_dict['central_value'])
-                    squared_error = 0.
-                    for sym_err in error_dict['symmetric_errors']:
-                        squared_error += sym_err**2
-                    for asym_err in error_dict['asymmetric_errors']:
-                        squared_error += asym_err[0]*asym_err[1]
-                    errors.append(sqrt(squared_error))
-            else: # otherwise, 'values' is a dict just containing name: constraint_string
-                for obs, value in m_data['values'].items():
-                    observables.append(obs)
-                    error_dict = errors_from_string(value)
-                    central_values.append(error_dict['central_value'])
-                    squared_error = 0.
-                    for sym_err in error_dict['symmetric_errors']:
-                        squared_error += sym_err**2
-                    for asym_err in error_dict['asymmetric_errors']:
-                        squared_error += asym_err[0]*asym_err[1]
-                    errors.append(sqrt(squared_error))
-            correlation = _fix_correlation_matrix(m_data['correlation'], len(observables))
-            covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
-            m.add_constraint(observables, probability.MultivariateNormalDistribution(central_values, covariance))
+    with Measurement._restore_instances_on_error():
+        for m_name, m_data in measurements.items():
+            _load_measurement(m_name, m_data)
     return list(measurements.keys())
 
+def _load_measurement(m_name, m_data):
+    """Create a measurement from its name and a dictionary."""
+    m = Measurement(m_name)
+    for arg in ['inspire', 'hepdata', 'experiment', 'url', 'description']:
+        if arg in m_data:
+            setattr(m, arg, m_data[arg])
+    if 'observables' in m_data:
+        # for multivariate constraints
+        pd = probability.dict2dist(m_data['values'])
+        pd = probability.convolve_distributions(pd)
+        # for observables without arguments (i.e. strings), this is trivial;
+        obs_list = [obs if isinstance(obs, str)
+        # for obs. with arguments, need to convert dict of the form
+        # {'name': myname, 'arg1': v1, ...} to a tuple of the form
+        # (myname, v1, ...)
+                    else tuple(
+                            [obs['name']]
+                          + [obs[arg] for arg in Observable[obs['name']].arguments])
+                    for obs in m_data['observables']]
+        m.add_constraint(obs_list, pd)
+    elif 'correlation' not in m_data:
+        # for univariate constraints
+        if isinstance(m_data['values'], list):
+            for value_dict in m_data['values']:
+                args = Observable[value_dict['name']].arguments
+                # numerical values of arguments, e.g. [1, 6]
+                args_num = [value_dict[a] for a in args]
+                # insert string name in front of argument values and turn it
+                # into a tuple, e.g. ('FL(B0->K*mumu)', 1, 6)
+                args_num.insert(0, value_dict['name'])
+                obs_tuple = tuple(args_num)
+                if isinstance(value_dict['value'], dict):
+                    m.set_constraint(obs_tuple, constraint_dict=value_dict['value'])
+                else:
+                    m.set_constraint(obs_tuple, value_dict['value'])
+        else: # otherwise, 'values' is a dict just containing name: constraint_string
+            for obs, value in m_data['values'].items():
+                if isinstance(value, dict) or isinstance(value, list):
+                    m.set_constraint(obs, constraint_dict=value)
+                else:
+                    m.set_constraint(obs, value)
+    else:
+        # for multivariate normal constraints
+        observables = []
+        central_values = []
+        errors = []
+        if isinstance(m_data['values'], list):
+            for value_dict in m_data['values']:
+                # if "value" is a list, it contains the values of observable
+                # arguments (like q^2)
+                args = Observable[value_dict['name']].arguments
+                args_num = [value_dict[a] for a in args]
+                error_dict = errors_from_string(value_dict['value'])
+                args_num.insert(0, value_dict['name'])
+                obs_tuple = tuple(args_num)
+                observables.append(obs_tuple)
+                central_values.append(error_dict['central_value'])
+                squared_error = 0.
+                for sym_err in error_dict['symmetric_errors']:
+                    squared_error += sym_err**2
+                for asym_err in error_dict['asymmetric_errors']:
+                    squared_error += asym_err[0]*asym_err[1]
+                errors.append(sqrt(squared_error))
+        else: # otherwise, 'values' is a dict just containing name: constraint_string
+            for obs, value in m_data['values'].items():
+                observables.append(obs)
+                error_dict = errors_from_string(value)
+                central_values.append(error_dict['central_value'])
+                squared_error = 0.
+                for sym_err in error_dict['symmetric_errors']:
+                    squared_error += sym_err**2
+                for asym_err in error_dict['asymmetric_errors']:
+                    squared_error += asym_err[0]*asym_err[1]
+                errors.append(sqrt(squared_error))
+        correlation = _fix_correlation_matrix(m_data['correlation'], len(observables))
+        covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
+        m.add_constraint(observables, probability.MultivariateNormalDistribution(central_values, covariance))
+
 def _load_new(obj):
     """Read measurements from a YAML stream or file that are compatible
     with the format generated by the `get_yaml` method of
     `flavio.classes.Measurement`."""
     measurements = yaml.safe_load(obj)
     if isinstance(measurements, dict):
-        measurements = [Measurement.from_yaml_dict(measurements, pname='observables')]
-    else:
+        measurements = [measurements]
+    with Measurement._restore_instances_on_error():
         measurements = [Measurement.from_yaml_dict(m, pname='observables') for m in measurements]
     return [m.name for m in measurements]
 
@@ -156,7 +161,7 @@ def read_file(filename):
     with open(filename, 'r') as f:
         try:
             return _load_new(f)
-        except:
+        except Exception:
             f.seek(0) # rewind
             return _load(f)
 
@@ -167,6 +172,7 @@ def read_url(url):
     except:
         raise ImportError("You need to install the python requests module to load measurements from a URL.")
     res = requests.get(url)
+    res.raise_for_status()
     return _load(res.text)
 
 
diff --git a/flavio/parameters.py b/flavio/parameters.py
index 6f71a22..84397a0 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -14,12 +14,13 @@ from particle import Particle, data as p_data
 
 def _read_yaml_object_metadata(obj, constraints):
     parameters = yaml.safe_load(obj)
-    for parameter_name, info in parameters.items():
-        p = Parameter(parameter_name)
-        if 'description' in info and info['description'] is not None:
-            p.description = info['description']
-        if 'tex' in info and info['tex'] is not None:
-            p.tex = info['tex']
+    with Parameter._restore_instances_on_error():
+        for parameter_name, info in parameters.items():
+            p = Parameter(parameter_name)
+            if 'description' in info and info['description'] is not None:
+                p.description = info['description']
+            if 'tex' in info and info['tex'] is not None:
+                p.tex = info['tex']
 
 def read_file_metadata(filename, constraints):
     """Read parameter values from a YAML file."""
@@ -28,12 +29,13 @@ def read_file_metadata(filename, constraints):
 
 def _read_yaml_object_values(obj, constraints):
     parameters = yaml.safe_load(obj)
-    for parameter_name, value in parameters.items():
-        p = Parameter[parameter_name] # this will raise an error if the parameter doesn't exist!
-        if isinstance(value, dict):
-            constraints.set_constraint(parameter_name, constraint_dict=value)
-        else:
-            constraints.set_constraint(parameter_name, value)
+    with constraints._restore_constraints_on_error():
+        for parameter_name, value in parameters.items():
+            p = Parameter[parameter_name] # this will raise an error if the parameter doesn't exist!
+            if isinstance(value, dict):
+                constraints.set_constraint(parameter_name, constraint_dict=value)
+            else:
+                constraints.set_constraint(parameter_name, value)
 
 def _read_yaml_object_new(obj):
     """Read parameter constraints from a YAML stream or file that are compatible
@@ -44,33 +46,34 @@ def _read_yaml_object_new(obj):
 
 def _read_yaml_object_values_correlated(obj, constraints):
     list_ = yaml.safe_load(obj)
-    for parameter_group in list_:
-        parameter_names = []
-        central_values = []
-        errors = []
-        for dict_list in parameter_group['values']:
-            parameter_name, value = list(dict_list.items())[0]
-            Parameter[parameter_name] # this will raise an error if the parameter doesn't exist!
-            parameter_names.append(parameter_name)
-            error_dict = errors_from_string(value)
-            central_values.append(error_dict['central_value'])
-            squared_error = 0.
-            for sym_err in error_dict['symmetric_errors']:
-                squared_error += sym_err**2
-            for asym_err in error_dict['asymmetric_errors']:
-                squared_error += asym_err[0]*asym_err[1]
-            errors.append(sqrt(squared_error))
-        correlation = _fix_correlation_matrix(parameter_group['correlation'], len(parameter_names))
-        covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
-        if not np.all(np.linalg.eigvals(covariance) > 0):
-            # if the covariance matrix is not positive definite, try a dirty trick:
-            # multiply all the correlations by 0.99.
-            n_dim = len(correlation)
-            correlation = (correlation - np.eye(n_dim))*0.99 + np.eye(n_dim)
+    with constraints._restore_constraints_on_error():
+        for parameter_group in list_:
+            parameter_names = []
+            central_values = []
+            errors = []
+            for dict_list in parameter_group['values']:
+                parameter_name, value = list(dict_list.items())[0]
+                Parameter[parameter_name] # this will raise an error if the parameter doesn't exist!
+                parameter_names.append(parameter_name)
+                error_dict = errors_from_string(value)
+                central_values.append(error_dict['central_value'])
+                squared_error = 0.
+                for sym_err in error_dict['symmetric_errors']:
+                    squared_error += sym_err**2
+                for asym_err in error_dict['asymmetric_errors']:
+                    squared_error += asym_err[0]*asym_err[1]
+                errors.append(sqrt(squared_error))
+            correlation = _fix_correlation_matrix(parameter_group['correlation'], len(parameter_names))
             covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
-            # if it still isn't positive definite, give up.
-            assert np.all(np.linalg.eigvals(covariance) > 0), "The covariance matrix is not positive definite!" + str(covariance)
-        constraints.add_constraint(parameter_names, MultivariateNormalDistribution(central_values, covariance))
+            if not np.all(np.linalg.eigvals(covariance) > 0):
+                # if the covariance matrix is not positive definite, try a dirty trick:
+                # multiply all the correlations by 0.99.
+                n_dim = len(correlation)
+                correlation = (correlation - np.eye(n_dim))*0.99 + np.eye(n_dim)
+                covariance = np.outer(np.asarray(errors), np.asarray(errors))*correlation
+                # if it still isn't positive definite, give up.
+                assert np.all(np.linalg.eigvals(covariance) > 0), "The covariance matrix is not positive definite!" + str(covariance)
+            constraints.add_constraint(parameter_names, MultivariateNormalDistribution(central_values, covariance))
 
 def read_file(filename):
     """Read parameter values from a YAML file in the format generated by the
-- 
2.43.0


From 7a150fbdf7bf1194257260c4380c9e94a77d52e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 13/24] fix: keep the previous content of a file if saving
 fails

---
 flavio/measurements.py          |  3 ++-
 flavio/parameters.py            |  3 ++-
 flavio/statistics/likelihood.py |  5 +++--
 flavio/util.py                  | 36 +++++++++++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/flavio/measurements.py b/flavio/measurements.py
index f784136..1e2c34b 100644
--- a/flavio/measurements.py
+++ b/flavio/measurements.py
@@ -5,6 +5,7 @@ import pkgutil
 from flavio.classes import Measurement, Observable
 from flavio._parse_errors import constraints_from_string, errors_from_string
 from flavio.statistics import probability
+from flavio.util import open_replace
 import numpy as np
 from math import sqrt
 import warnings
@@ -152,7 +153,7 @@ def write_file(filename, measurements):
     instances."""
     measurement_instances = [m if isinstance(m, Measurement)
                              else Measurement[m] for m in measurements]
-    with open(filename, 'w') as f:
+    with open_replace(filename, 'w') as f:
         yaml.dump([m.get_yaml_dict(pname='observables')
                    for m in measurement_instances], f)
 
diff --git a/flavio/parameters.py b/flavio/parameters.py
index 84397a0..5ffab29 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -8,6 +8,7 @@ from flavio._parse_errors import errors_from_string
 import flavio
 import re
 from flavio.measurements import _fix_correlation_matrix
+from flavio.util import open_replace
 from math import sqrt
 from particle import Particle, data as p_data
 
@@ -94,7 +95,7 @@ def read_file_values_correlated(filename, constraints):
 
 def write_file(filename, constraints):
     """Write parameter constraints to a YAML file."""
-    with open(filename, 'w') as f:
+    with open_replace(filename, 'w') as f:
         yaml.dump(constraints.get_yaml_dict(), f)
 
 class FlavioParticle(Particle):
diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 4150b9f..4178bc3 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -8,6 +8,7 @@ import pickle
 from flavio.classes import NamedInstanceClass
 from flavio.statistics.probability import NormalDistribution, MultivariateNormalDistribution
 from flavio.io import instanceio as iio
+from flavio.util import open_replace
 
 
 class MeasurementLikelihood(iio.YAMLLoadable):
@@ -407,7 +408,7 @@ class SMCovariance(object):
         """
         if self._cov is None:
             raise ValueError("Call `get` or `compute` first.")
-        with open(filename, 'wb') as f:
+        with open_replace(filename, 'wb') as f:
             data = dict(covariance=self._cov,
                         observables=self.observables)
             pickle.dump(data, f)
@@ -538,7 +539,7 @@ class MeasurementCovariance(object):
         using `get` or `compute`."""
         if self._central_cov is None:
             raise ValueError("Call `get` or `compute` first.")
-        with open(filename, 'wb') as f:
+        with open_replace(filename, 'wb') as f:
             data = dict(central=self._central_cov[0],
                         covariance=self._central_cov[1],
                         observables=self.measurement_likelihood.observables)
diff --git a/flavio/util.py b/flavio/util.py
index 98bdcfa..d8c823e 100644
--- a/flavio/util.py
+++ b/flavio/util.py
@@ -4,6 +4,9 @@ import sys
 from itertools import chain
 import re
 import ast
+import contextlib
+import shutil
+import uuid
 
 
 def get_datapath(package, resource):
@@ -24,6 +27,39 @@ def get_datapath(package, resource):
     resource_name = os.path.join(*parts)
     return resource_name
 
+@contextlib.contextmanager
+def open_replace(filename, mode='w'):
+    """Context manager to open a file for writing that keeps its previous
+    content until the new content has been written completely.
+
+    If the block is left with an exception or the program is terminated before
+    the end of the block, the file is unchanged."""
+    target = os.path.realpath(filename)
+    directory = os.path.dirname(target)
+    if ((os.path.exists(target) and not os.path.isfile(target))
+            or not os.access(directory, os.W_OK)):
+        # devices, pipes etc. and directories where files cannot be replaced
+        with open(filename, mode) as f:
+            yield f
+        return
+    if os.path.exists(target):
+        # raise an error if writing is not permitted
+        open(target, 'r+').close()
+    temporary = os.path.join(directory, '.flavio-{}.tmp'.format(uuid.uuid4().hex))
+    try:
+        with open(temporary, mode.replace('w', 'x')) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        with contextlib.suppress(FileNotFoundError):
+            os.remove(temporary)
+        raise
+
+
 def extract_citations():
     string_in_parantheses_matcher = (
         r'\(\s*[rfuRFU]{0,2}".*?(?<!\\)"\s*\)' # string between (" ")
-- 
2.43.0


From e7148f541f2daf968d90db4fef6232e3fe1f1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 14/24] fix: never take an included file that cannot be read as
 a literal

---
 flavio/io/yaml.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/flavio/io/yaml.py b/flavio/io/yaml.py
index e51f541..9f9ddf0 100644
--- a/flavio/io/yaml.py
+++ b/flavio/io/yaml.py
@@ -23,8 +23,8 @@ class SafeIncludeLoader(yaml.SafeLoader):
     def __init__(self, stream):
         try:
             self._root = os.path.dirname(stream.name)
-        except AttributeError:
-            # this happens when `stream` is a string
+        except (AttributeError, TypeError):
+            # this happens when `stream` is a string or does not have a path
             self._root = None
         super().__init__(stream)
 
@@ -45,18 +45,25 @@ class SafeIncludeLoader(yaml.SafeLoader):
             filename = self._get_filename(file)
             if filename is None:
                 a.append(file)
-            else:
-                try:
-                    with open(filename, 'r') as f:
-                        a += yaml.load(f, self.__class__)
-                except OSError as e:
-                    if e.errno in [errno.ENOENT, errno.EINVAL, errno.EISDIR]:
-                        # ENOENT: FileNotFoundError
-                        # EINVAL: Invalid argument
-                        # EISDIR: IsADirectoryError
-                        a.append(file)
-                    else:
-                        raise
+                continue
+            try:
+                f = open(filename, 'r')
+            except OSError as e:
+                if e.errno in [errno.ENOENT, errno.ENOTDIR, errno.ENAMETOOLONG,
+                               errno.EINVAL, errno.EISDIR]:
+                    # ENOENT: FileNotFoundError
+                    # ENOTDIR: NotADirectoryError
+                    # ENAMETOOLONG: File name too long
+                    # EINVAL: Invalid argument
+                    # EISDIR: IsADirectoryError
+                    a.append(file)
+                    continue
+                raise
+            with f:
+                content = yaml.load(f, self.__class__)
+            if not isinstance(content, list):
+                raise ValueError("'{}' cannot be merged since it does not contain a list.".format(file))
+            a += content
         return a
 
     def _get_filename(self, file):
-- 
2.43.0


From 9c55084b6b806947bc0183ca3f42b202ce29b753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 15/24] fix: start new tries of minimize_robust from the best
 end point

---
 flavio/math/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..afd6009 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -35,11 +35,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +49,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0


From 1f9f030d3c39a274f6e76524c15775873b93c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 16/24] fix: support of log-normal distributions with negative
 central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 61c8d67..71aace3 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -347,9 +347,9 @@ class LogNormalDistribution(ProbabilityDistribution):
         if central_value < 0:
             self.central_sign = -1
             slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+                            + 6 * self.log_standard_deviation)
             super().__init__(central_value,
-                             support=(slim, 0))
+                             support=(-slim, 0))
         else:
             self.central_sign = +1
             slim = math.exp(math.log(abs(central_value))
-- 
2.43.0


From 67af9c3e14ee3cfe668982c853b909e3dd78180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 17/24] fix: use trapezoidal rule for CDF of numerical
 distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 71aace3..7414a22 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -890,7 +890,7 @@ class NumericalDistribution(ProbabilityDistribution):
         self.pdf_interp = interp1d(x, self.y_norm,
                                         fill_value=0, bounds_error=False)
         _cdf = np.zeros(len(x))
-        _cdf[1:] = np.cumsum(self.y_norm[:-1] * np.diff(x))
+        _cdf[1:] = np.cumsum((self.y_norm[:-1] + self.y_norm[1:]) / 2 * np.diff(x))
         _cdf = _cdf/_cdf[-1] # normalize CDF to 1
         self.ppf_interp = interp1d(_cdf, x)
         self.cdf_interp = interp1d(x, _cdf)
-- 
2.43.0


From b495916a0efe019bff2ba2706fe07df757b39ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 18/24] fix: random draws from multivariate numerical
 distributions

---
 flavio/statistics/probability.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 7414a22..3cec3d2 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1546,11 +1546,9 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
-        indices = np.where(self.y == self._y_flat[i_r])
-        i_bla = np.random.choice(len(indices[0]))
-        index = tuple([a[i_bla] for a in indices])
+        # find the index of the first CDF-value larger than r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
+        index = np.unravel_index(i_r, self.y.shape)
         xi_r = [ self.xi[i][index[i]] for i in range(len(self.xi)) ]
         xi_diff = np.array([ X[1]-X[0] for X in self.xi ])
         return xi_r + np.random.uniform(low=-0.5, high=0.5, size=len(self.xi)) * xi_diff
-- 
2.43.0


From e917f2fccc0502995c6c9c461ee91b1312149c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 19/24] fix: validation of covariances loaded by FastLikelihood
 components

---
 flavio/statistics/likelihood.py | 40 +++++++++++++++------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 4178bc3..3f78990 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -435,13 +435,11 @@ class SMCovariance(object):
             raise ValueError("Covariance matrix does not contain all necessary entries")
         assert len(permutation) == len(self.observables), \
             "Covariance matrix does not contain all necessary entries"
-        if len(permutation) == 1:
-            if d['covariance'].shape == ():
-                self._cov = d['covariance']
-            else:
-                self._cov = d['covariance'][permutation][:,permutation][0,0]
-        else:
-            self._cov = d['covariance'][permutation][:,permutation]
+        covariance = np.array(d['covariance'])
+        # the covariance of a single observable can also be given as a number
+        covariance = covariance.reshape((len(obs), len(obs)))
+        covariance = covariance[permutation][:,permutation]
+        self._cov = covariance[0,0] if len(permutation) == 1 else covariance
 
 
 class MeasurementCovariance(object):
@@ -571,16 +569,15 @@ class MeasurementCovariance(object):
             raise ValueError("Covariance matrix does not contain all necessary entries")
         assert len(permutation) == len(ml.observables), \
             "Covariance matrix does not contain all necessary entries"
-        if np.isscalar(d['central']):
-            self._central_cov = (
-                d['central'],
-                d['covariance']
-            )
+        # the values for a single observable can also be given as numbers
+        central = np.array(d['central']).reshape(len(obs))
+        covariance = np.array(d['covariance']).reshape((len(obs), len(obs)))
+        central = central[permutation]
+        covariance = covariance[permutation][:, permutation]
+        if len(permutation) == 1:
+            self._central_cov = (central[0], covariance[0, 0])
         else:
-            self._central_cov = (
-                d['central'][permutation],
-                d['covariance'][permutation][:, permutation],
-            )
+            self._central_cov = (central, covariance)
 
 
 class FastLikelihood(NamedInstanceClass, iio.YAMLLoadable):
@@ -699,14 +696,13 @@ class FastLikelihood(NamedInstanceClass, iio.YAMLLoadable):
         central_exp, cov_exp = self.exp_covariance.get(Nexp, force=force_exp)
         cov_sm = self.sm_covariance.get(N, force=force, threads=threads)
         covariance = cov_exp + cov_sm
-        # add the Pseudo-measurement
-        m = flavio.classes.Measurement('Pseudo-measurement for FastLikelihood instance: ' + self.name)
         if np.asarray(central_exp).ndim == 0 or len(central_exp) <= 1: # for a 1D (or 0D) array
-            m.add_constraint(self.observables,
-                    NormalDistribution(central_exp, np.sqrt(covariance)))
+            constraint = NormalDistribution(central_exp, np.sqrt(covariance))
         else:
-            m.add_constraint(self.observables,
-                    MultivariateNormalDistribution(central_exp, covariance))
+            constraint = MultivariateNormalDistribution(central_exp, covariance)
+        # add the Pseudo-measurement (replacing the previous one)
+        m = flavio.classes.Measurement('Pseudo-measurement for FastLikelihood instance: ' + self.name)
+        m.add_constraint(self.observables, constraint)
         self.pseudo_measurement = m
         self._likelihood = Likelihood(
             par_obj=self.par_obj,
-- 
2.43.0


From 9775f80d00f0a982dc3a1d6a128eb994b571b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 20/24] fix: failed definition of an implementation, listing of
 implementations

---
 flavio/classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index d336501..c6e0904 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -819,18 +819,18 @@ class Implementation(NamedInstanceClass):
             inst = cls[name]
             quant = inst.quantity
             descr = inst.description
-            all_dict[quant] = {name: descr}
+            all_dict.setdefault(quant, {})[name] = descr
         return all_dict
 
     def __init__(self, name, quantity, function):
-        super().__init__(name)
         try:
-            AuxiliaryQuantity[quantity]
+            quantity_obj = AuxiliaryQuantity[quantity]
         except KeyError:
             raise ValueError("The quantity " + quantity + " does not exist")
+        super().__init__(name)
         self.quantity = quantity
         self.function = function
-        self.quantity_obj = AuxiliaryQuantity[quantity]
+        self.quantity_obj = quantity_obj
 
     def get_central(self, constraints_obj, wc_obj, *args, **kwargs):
         par_dict = constraints_obj.get_central_all()
-- 
2.43.0


From 04110e34fc472ddf7e56a614da0728a8cea1a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 21/24] fix: well-defined order of measurements and of error
 budget keys

---
 flavio/functions.py             | 3 ++-
 flavio/statistics/likelihood.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index 82082e7..450e984 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -191,7 +191,8 @@ def sm_error_budget(obs_name, *args, N=50, **kwargs):
     pred_central = obs.prediction_par(par_central, wc_sm, *args, **kwargs)
 
     # Step 1: determine the parameters the observable depends on at all.
-    dependent_par = get_dependent_parameters_sm(obs_name, *args, **kwargs)
+    # (in a well-defined order, not the one of the set)
+    dependent_par = sorted(get_dependent_parameters_sm(obs_name, *args, **kwargs))
 
     # Step 2: group parameters if correlated
     par_constraint = {p: id(flavio.default_parameters._parameters[p][1]) for p in dependent_par}
diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 3f78990..34ebb91 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -132,9 +132,9 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         if self.exclude_measurements is None and self.include_measurements is None:
             return all_measurements
         elif self.exclude_measurements is not None:
-            return list(set(all_measurements) - set(self.exclude_measurements))
+            return [m for m in all_measurements if m not in self.exclude_measurements]
         elif self.include_measurements is not None:
-            return list(set(all_measurements) & set(self.include_measurements))
+            return [m for m in all_measurements if m in self.include_measurements]
 
     def get_predictions_par(self, par_dict, wc_obj):
         """Compute the predictions for all observables as functions of
-- 
2.43.0


From 54ed54860eb883ae2b0d38d8faf375b3616c6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 22/24] fix: dumping and reloading of likelihoods

---
 flavio/io/instanceio.py         | 13 +++++++++++--
 flavio/statistics/likelihood.py | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/flavio/io/instanceio.py b/flavio/io/instanceio.py
index ed7da8a..fdd35ad 100644
--- a/flavio/io/instanceio.py
+++ b/flavio/io/instanceio.py
@@ -2,6 +2,7 @@
 or streams."""
 
 import flavio
+import numpy as np
 import voluptuous as vol
 import yaml
 from collections import OrderedDict
@@ -46,7 +47,7 @@ class YAMLLoadable(object):
 
     def dump(self, stream=None, **kwargs):
         """Dump the objectto a YAML string or stream."""
-        d = self.get_yaml_dict(**kwargs)
+        d = self.get_yaml_dict()
         return yaml.dump(d, stream=stream, **kwargs)
 
 
@@ -57,7 +58,10 @@ def coerce_observable_tuple(obs):
 
 def coerce_observable_dict(obs):
     """Force an arbitrary observable representation into the dict representation."""
-    return flavio.Observable.argument_format(obs, format='dict')
+    d = flavio.Observable.argument_format(obs, format='dict')
+    # convert numpy numbers, which cannot be represented in (safe) YAML
+    return {k: v.item() if isinstance(v, np.generic) else v
+            for k, v in d.items()}
 
 
 def coerce_par_obj(par_obj_dict):
@@ -68,6 +72,11 @@ def coerce_par_obj(par_obj_dict):
                                                       instance=par_obj)
 
 
+def true_or_none(v):
+    """Coerce False to NoneType."""
+    return v or None
+
+
 def ensurelist(v):
     """Coerce NoneType to empty list, wrap non-list in list."""
     if isinstance(v, list):
diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 34ebb91..f28dc67 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -31,12 +31,14 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         'observables':  vol.All([iio.coerce_observable_tuple], iio.list_deduplicate),
         'exclude_measurements': vol.Any(None, [str]),
         'include_measurements': vol.Any(None, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     _output_schema_dict = {
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.All(iio.ensurelist, [str]),
         'include_measurements': vol.All(iio.ensurelist, [str]),
+        'include_pseudo_measurements': iio.true_or_none,
     }
 
     def __init__(self, observables, *,
@@ -296,14 +298,16 @@ class Likelihood(iio.YAMLLoadable):
         'observables':  vol.All([iio.coerce_observable_tuple], iio.list_deduplicate),
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
+        'include_pseudo_measurements': bool,
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
+        'include_pseudo_measurements': iio.true_or_none,
     }
 
     def __init__(self,
@@ -320,6 +324,7 @@ class Likelihood(iio.YAMLLoadable):
         self.observables = observables
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
+        self.include_pseudo_measurements = include_pseudo_measurements
         self.measurement_likelihood = MeasurementLikelihood(
             observables,
             exclude_measurements=exclude_measurements,
@@ -674,6 +679,13 @@ class FastLikelihood(NamedInstanceClass, iio.YAMLLoadable):
         self._likelihood = None
         NamedInstanceClass.__init__(self, name)
 
+    def get_yaml_dict(self):
+        """Dump the object to a YAML dictionary."""
+        d = super().get_yaml_dict()
+        # no nuisance parameters is different from the default (all)
+        d.setdefault('nuisance_parameters', [])
+        return d
+
     def make_measurement(self, N=100, Nexp=5000, threads=1, force=False, force_exp=False):
         """Initialize the likelihood by producing a pseudo-measurement containing both
         experimental uncertainties as well as theory uncertainties stemming
-- 
2.43.0


From caabe50db7c2425072c8f826439021396ef15580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 23/24] fix: key the parton luminosity cache by the PDF set in
 force

get_parton_lumi was cached by Q2 and member only, but reads the name of the
PDF set from the configuration: after a change of the PDF set, predictions
returned numbers computed with the previous one.
---
 flavio/physics/dileptons/partondist.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/dileptons/partondist.py b/flavio/physics/dileptons/partondist.py
index 555a870..b0f1cb4 100644
--- a/flavio/physics/dileptons/partondist.py
+++ b/flavio/physics/dileptons/partondist.py
@@ -24,7 +24,11 @@ def get_pdf(name, member=0, download=False):
     return pdf
 
 @lru_cache(maxsize=None)
-def get_parton_lumi(Q2, member=0):
-    pdfset = config['PDF set']['dileptons']['name']
+def _get_parton_lumi(pdfset, Q2, member=0):
     pdf = get_pdf(pdfset, member)
     return parton.PLumi(pdf, Q2=Q2)
+
+def get_parton_lumi(Q2, member=0):
+    # the PDF set in force is part of the cache key
+    pdfset = config['PDF set']['dileptons']['name']
+    return _get_parton_lumi(pdfset, Q2, member)
-- 
2.43.0


From 8dece4081337686eff734b8ab6eb9eec015201f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:18 +0000
Subject: [PATCH 24/24] fix: predictions cached by a likelihood are not used
 after an auxiliary quantity has been deleted

---
 flavio/statistics/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index f28dc67..adc253c 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -172,6 +172,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
             copy.deepcopy(flavio.config),
             [obs.prediction for obs in flavio.classes.Observable.instances.values()],
             [imp.function for imp in flavio.classes.Implementation.instances.values()],
+            list(flavio.classes.AuxiliaryQuantity.instances),
         )
 
     def get_number_observations(self, exclude_observables=None):
-- 
2.43.0

