From 24429f300b25571a32df6225e4c58aa4af5b0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 01/25] fix: bind compiled functions by name and return
 broadcasted results for both backends

Parameters that were added (or re-ordered) after the first evaluation were passed
positionally to functions compiled for another list of parameters, and sympy
functions returned scalars for constant expressions.
---
 src/rt1_model/_calc.py   | 44 ++++++++++++++++++++--------------------
 src/rt1_model/helpers.py | 36 ++++++++++++++++++++------------
 2 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..2eb7f63 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -856,12 +856,14 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
-
-            self._fnevals_ = _lambdify(variables, self._fn)
+            # (use only the symbols that are required to evaluate the coefficients
+            # since parameters can be added or re-ordered at any time)
+            fn = list(self._fn)
+            angles = ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            symbs = {str(s) for f in fn for s in getattr(f, "free_symbols", ())}
+            variables = [*angles, *sorted(symbs.difference(angles))]
+
+            self._fnevals_ = _lambdify(variables, fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -1099,15 +1101,14 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_0,
-            self.p_0,
-            self.t_ex,
-            self.p_ex,
-            *self.param_dict.values(),
+        fn = self._fnevals(
+            theta_0=self.t_0,
+            phi_0=self.p_0,
+            theta_ex=self.t_ex,
+            phi_ex=self.p_ex,
+            **self.param_dict,
         )
-
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1126,15 +1127,14 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_ex,
-            self.p_ex,
-            self.t_0,
-            self.p_0,
-            *self.param_dict.values(),
+        fn = self._fnevals(
+            theta_0=self.t_ex,
+            phi_0=self.p_ex,
+            theta_ex=self.t_0,
+            phi_ex=self.p_0,
+            **self.param_dict,
         )
-
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..aeb7eb9 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -45,6 +45,9 @@ def _lambdify(variables, functions):
     if len(funcs) == 1 and not isinstance(functions, list):
         funcs = funcs[0]
 
+    var_names = list(map(str, var))
+    is_list = isinstance(funcs, list)
+
     # use symengine's Lambdify if symengine has been used within
     # the fn-coefficient generation
     backend = get_lambda_backend()
@@ -56,7 +59,7 @@ def _lambdify(variables, functions):
 
         # llvm backend is used to allow pickling of the functions
         # see https://github.com/symengine/symengine.py/issues/294
-        seng_lambda_func = Lambdify(
+        func = Lambdify(
             var,
             funcs,
             order="F",
@@ -64,22 +67,11 @@ def _lambdify(variables, functions):
             backend="llvm",
         )
 
-        var_names = list(map(str, variables))
-
-        def lambda_func(*args, **kwargs):
-            # allow similar call signature as sympy functions
-            # (e.g. both args and kwargs)
-            return seng_lambda_func(
-                *np.broadcast_arrays(
-                    *args, *(kwargs[key] for key in var_names[len(args) :])
-                )
-            )
-
     elif backend == "sympy":
         # using sympy's lambdify without "common subexpression
         # elimination" to perform lambdification
 
-        lambda_func = sp.lambdify(
+        func = sp.lambdify(
             var,
             funcs,
             modules=["numpy", "sympy"],
@@ -89,6 +81,24 @@ def _lambdify(variables, functions):
     else:
         raise TypeError(f"lambda_backend {backend} is not available")
 
+    def lambda_func(*args, **kwargs):
+        # unify call signature and return value of the backends
+        # - variables can be provided as args or kwargs (obsolete kwargs are ignored)
+        # - the results have the shape of the broadcasted variables
+        #   (sympy returns scalars for expressions that do not depend on a variable)
+        args = np.broadcast_arrays(
+            *(np.asarray(arg, dtype=float) for arg in args),
+            *(np.asarray(kwargs[k], dtype=float) for k in var_names[len(args) :]),
+        )
+        shape = np.shape(args[0])
+        ret = func(*args)
+
+        if is_list:
+            ret = [np.broadcast_to(i, shape) for i in ret]
+        else:
+            ret = np.broadcast_to(ret, shape)
+        return np.array(ret, dtype=float)
+
     return lambda_func
 
 
-- 
2.43.0


From 880c7d857fb4ee1e0797021146d649c42640919b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 02/25] fix: support constant strings and sympy expressions as
 parameter definitions

---
 src/rt1_model/_calc.py   | 6 +++---
 src/rt1_model/helpers.py | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 2eb7f63..d71543a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -744,8 +744,8 @@ class RT1(object):
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
         p = getattr(self, f"_{param}")
-        if isinstance(p, str):
-            expr = _parse_sympy_param(getattr(self, f"_{param}"))
+        if isinstance(p, (str, sp.Basic)):
+            expr = _parse_sympy_param(p)
 
             symbs = list(map(str, expr.free_symbols))
         else:
@@ -1325,7 +1325,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index aeb7eb9..1176643 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -59,8 +59,9 @@ def _lambdify(variables, functions):
 
         # llvm backend is used to allow pickling of the functions
         # see https://github.com/symengine/symengine.py/issues/294
+        # (functions without variables are not supported by symengine)
         func = Lambdify(
-            var,
+            var or [sp.Dummy()],
             funcs,
             order="F",
             cse=True,
@@ -72,7 +73,7 @@ def _lambdify(variables, functions):
         # elimination" to perform lambdification
 
         func = sp.lambdify(
-            var,
+            var or [sp.Dummy()],
             funcs,
             modules=["numpy", "sympy"],
             dummify=False,
@@ -90,8 +91,8 @@ def _lambdify(variables, functions):
             *(np.asarray(arg, dtype=float) for arg in args),
             *(np.asarray(kwargs[k], dtype=float) for k in var_names[len(args) :]),
         )
-        shape = np.shape(args[0])
-        ret = func(*args)
+        shape = np.shape(args[0]) if var_names else ()
+        ret = func(*(args or [0.0]))
 
         if is_list:
             ret = [np.broadcast_to(i, shape) for i in ret]
-- 
2.43.0


From f14eac88fbf9e59c072607b59eee0e8b4ca9cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 03/25] fix: report missing scattering-function parameters with
 a TypeError

---
 src/rt1_model/helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 1176643..dc3aef1 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -46,6 +46,11 @@ def _lambdify(variables, functions):
         funcs = funcs[0]
 
     var_names = list(map(str, var))
+    symbs = {str(i) for f in np.atleast_1d(funcs) for i in getattr(f, "free_symbols", ())}
+    missing = symbs.difference(var_names)
+    if missing:
+        raise TypeError(f"Missing specification for the parameters {missing}.")
+
     is_list = isinstance(funcs, list)
 
     # use symengine's Lambdify if symengine has been used within
-- 
2.43.0


From b2a2b4dfc6067a2ad4e586f5020c7ae143fb6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 04/25] fix: use the actual exit azimuth for the bistatic
 interaction term

(a shift by pi is only part of the definition of monostatic geometry)
---
 src/rt1_model/_calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index d71543a..e583308 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -950,9 +950,7 @@ class RT1(object):
 
         angs = self._geom_ang_symbs
 
-        brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
-        ).doit()
+        brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
         ).doit()
-- 
2.43.0


From 45b577f7dc45f0fa13f8c57a18784a378bbb7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 05/25] fix: swap incident and exit directions also if bistatic
 angles are fixed

The second part of the interaction-term re-used the coefficients with the fixed
angles of the first part.
---
 src/rt1_model/_calc.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index e583308..9e72754 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -836,6 +836,20 @@ class RT1(object):
             # extract the expansion coefficients
             tic = timeit.default_timer()
             self._fn_ = self._extract_coefficients(expr_int)
+
+            if not self._monostatic and self._fixed_angles:
+                # fixed angles are part of the coefficients, so a separate set of
+                # coefficients is needed to evaluate the interaction-term with
+                # incident and exit direction swapped (see _calc_Fint_2)
+                t_0, t_ex, p_0, p_ex = self._geom_ang_symbs
+                names = ("theta_0", "theta_ex", "phi_0", "phi_ex")
+                angs = [
+                    sp.Symbol(name) if isinstance(ang, sp.Symbol) else ang
+                    for ang, name in zip((t_ex, t_0, p_ex, p_0), names)
+                ]
+                expr_int = self._calc_interaction_expansion(angs)
+                self._fn_ = self._fn_ + self._extract_coefficients(expr_int)
+
             toc = timeit.default_timer()
             _log.info(f"Coefficients extracted, it took {toc - tic:.5f} sec.")
             return self._fn_
@@ -916,9 +930,9 @@ class RT1(object):
             repln = dict([[sp.cos(theta_s) ** int(n), 1]])
             fn = fn + [(expr.xreplace(repln)).xreplace(repl0) - fn[0]]
 
-        return fn
+        return fn[:N_fn]
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, angs=None):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -935,6 +949,12 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        angs : list, optional
+               The geometry angles (or symbols) [t_0, t_ex, p_0, p_ex].
+               If None, the angles of the current geometry are used.
+
         Returns
         -------
         res : sympy expression
@@ -948,7 +968,8 @@ class RT1(object):
         theta_s = sp.Symbol("theta_s")
         phi_s = sp.Symbol("phi_s")
 
-        angs = self._geom_ang_symbs
+        if angs is None:
+            angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(theta_s, angs[1], phi_s, angs[3]).doit()
         volexp = self.V.legendre_expansion(
@@ -1105,7 +1126,7 @@ class RT1(object):
             theta_ex=self.t_ex,
             phi_ex=self.p_ex,
             **self.param_dict,
-        )
+        )[: len(self._mu_0_x)]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
@@ -1131,7 +1152,7 @@ class RT1(object):
             theta_ex=self.t_0,
             phi_ex=self.p_0,
             **self.param_dict,
-        )
+        )[-len(self._mu_ex_x) :]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-- 
2.43.0


From d800f0f8a5aac38ff6a113ca73213ed6172dae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 06/25] fix: broadcast angles and parameters of different
 shapes in calc()

---
 src/rt1_model/_calc.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 9e72754..53fcfe4 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -549,15 +549,11 @@ class RT1(object):
                         pass
 
             if self.int_Q is True:
-                ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
-                )
+                contribs = (Isurf + Ivol + Iint, Isurf, Ivol, Iint)
             else:
-                ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
-                )
+                contribs = (Isurf + Ivol, Isurf, Ivol)
 
-            return ret
+            return self._convert_sig0_db(np.stack(np.broadcast_arrays(*contribs)))
 
         except TypeError as ex:
             symbs = (
@@ -1129,8 +1125,9 @@ class RT1(object):
         )[: len(self._mu_0_x)]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # (evaluate each term individually to properly broadcast the shapes)
+        S2 = self._S2_mu(self._mu_0, self.tau)
+        S = sum(f * mu * s for f, mu, s in zip(fn, self._mu_0_x, S2))
         return S
 
     def _calc_Fint_2(self):
@@ -1155,8 +1152,9 @@ class RT1(object):
         )[-len(self._mu_ex_x) :]
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fn))
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # (evaluate each term individually to properly broadcast the shapes)
+        S2 = self._S2_mu(self._mu_ex, self.tau)
+        S = sum(f * mu * s for f, mu, s in zip(fn, self._mu_ex_x, S2))
         return S
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
-- 
2.43.0


From 2fbfa8e59ef0be18e1bf2ec8d8cd41aa2c2ee869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 07/25] fix: correct limits of the interaction-term for tau =
 0, nadir and grazing directions

F_int was NaN for vertical directions, tau = 0 and very large tau / cos(theta), and
inaccurate close to nadir.  NaN values for tau = 0 were only replaced in calc() and
only if they exactly matched the elements with tau = 0.
---
 src/rt1_model/_calc.py | 67 ++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 53fcfe4..5f9104f 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -14,7 +14,7 @@ import timeit
 
 import numpy as np
 import sympy as sp
-from scipy.special import expi, expn
+from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
@@ -515,40 +515,11 @@ class RT1(object):
         try:
             self.update_params(**params)
 
-            if isinstance(self.tau, (int, float)):
-                Isurf = self._surface()
-                # differentiation for non-existing canopy, as otherwise NAN values
-                if self.tau > 0.0:
-                    Ivol = self._volume()
-                    if self.int_Q is True:
-                        Iint = self._interaction()
-                    else:
-                        Iint = np.array([0.0])
-                else:
-                    Ivol = np.full_like(Isurf, 0.0)
-                    Iint = np.full_like(Isurf, 0.0)
-            else:
-                Isurf = self._surface()
-                Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
-                if self.int_Q is True:
-                    Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
+            Isurf = self._surface()
+            Ivol = self._volume()
 
             if self.int_Q is True:
+                Iint = self._interaction()
                 contribs = (Isurf + Ivol + Iint, Isurf, Ivol, Iint)
             else:
                 contribs = (Isurf + Ivol, Isurf, Ivol)
@@ -696,6 +667,9 @@ class RT1(object):
             )
         )
 
+        # no interaction-term without vegetation (F_int is not defined for tau = 0)
+        Iint = np.where(np.equal(self.tau, 0), 0.0, Iint)
+
         return self.NormBRDF * (1.0 - self.bsf) * Iint
 
     def _surface_volume(self):
@@ -1083,11 +1057,28 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+
+        # evaluate
+        #     exp(-tau / mu) * (log(mu / (1 - mu)) + expi(tau / mu - tau)) - expi(-tau)
+        # while taking care of the limits mu -> 1 and (tau / mu) -> inf
+        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
+            x = tau * (1.0 - mu) / mu
+            hlp0 = np.where(
+                x > 0,
+                np.log(mu / (1.0 - mu)) + expi(np.minimum(x, 100.0)),
+                np.euler_gamma + np.log(tau),
+            )
+            # (asymptotic expansion of exp(-x) * expi(x))
+            expi_x = sum(factorial(k) / x ** (k + 1.0) for k in range(20))
+
+            hlp1 = (
+                np.where(
+                    x > 100.0,
+                    np.exp(-tau / mu) * np.log(mu / (1.0 - mu)) + np.exp(-tau) * expi_x,
+                    np.exp(-tau / mu) * hlp0,
+                )
+                - expi(-tau)
+            )
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From 2d74a741ee7251b33e81e3bd19229c664a7b5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 08/25] fix: derivative of the volume contribution with respect
 to tau

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 5f9104f..8fc0960 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1164,7 +1164,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From bf5cc5d6d5cb1f6b38cdd6f8b99b029f180efd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 09/25] fix: normalize the sigma0 jacobian with the incident
 intensity

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 8fc0960..39f6519 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1548,7 +1548,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From da6299870c8bfb17e672da0fc179ec6102569a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 10/25] fix: sum all routes of the chain rule in the jacobian

Parameters that are used in several definitions (or in a definition and in a
scattering-function) only contributed via one of them, and the surface contribution
ignored parameters used to define tau.
---
 src/rt1_model/_calc.py | 74 +++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 39f6519..1d0708b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1367,37 +1367,37 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
+        dIvol = (
+            self.I0
+            * self.omega
+            * self._mu_0
+            / (self._mu_0 + self._mu_ex)
+            * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
+            * self._d_volume_dummy_lambda(key)(
+                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
+            )
+        )
+        ret = (1.0 - self.bsf) * dIvol
+
         # Check symbols used to specify parameters.
         # If yes, use chain rule to evaluate derivatives
         if str(key) in self._get_param_symbs("tau"):
             inner = self._dparam_ddummy_lambda("tau", key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
+            ret = ret + self._dvolume_dtau() * inner
+        if str(key) in self._get_param_symbs("omega"):
             inner = self._dparam_ddummy_lambda("omega", key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_domega() * inner
-
-        elif str(key) in self._get_param_symbs("bsf"):
+            ret = ret + self._dvolume_domega() * inner
+        if str(key) in self._get_param_symbs("bsf"):
             inner = self._dparam_ddummy_lambda("bsf", key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dvolume_dbsf() * inner
-        else:
-            dIvol = (
-                self.I0
-                * self.omega
-                * self._mu_0
-                / (self._mu_0 + self._mu_ex)
-                * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
-            )
-            return (1.0 - self.bsf) * dIvol
+            ret = ret + self._dvolume_dbsf() * inner
+
+        return ret
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1444,31 +1444,37 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
+        dI_bs = (
+            self.I0
+            * self._mu_0
+            * self._d_surface_dummy_lambda(key)(
+                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
+            )
+        )
+
+        dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
+
+        ret = self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+
         # Check symbols used to specify parameters.
         # If yes, use chain rule to evaluate derivatives
         if str(key) in self._get_param_symbs("NormBRDF"):
             inner = self._dparam_ddummy_lambda("NormBRDF", key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
+            ret = ret + self._dsurface_dNormBRDF() * inner
+        if str(key) in self._get_param_symbs("tau"):
+            inner = self._dparam_ddummy_lambda("tau", key)(
                 self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
-            return self._dsurface_dbsf() * inner
-        else:
-            dI_bs = (
-                self.I0
-                * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
-                    self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-                )
+            ret = ret + self._dsurface_dtau() * inner
+        if str(key) in self._get_param_symbs("bsf"):
+            inner = self._dparam_ddummy_lambda("bsf", key)(
+                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
             )
+            ret = ret + self._dsurface_dbsf() * inner
 
-            dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
-
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        return ret
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
-- 
2.43.0


From faa11bf03d14456521073cd9d81b4b336fac0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 11/25] fix: evaluate the jacobian with the shape and size of
 the model results

Derivatives of numeric array definitions were not broadcast, and the sparse format
failed for tau, omega, NormBRDF and bsf defined by numbers or expressions.
---
 src/rt1_model/_calc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 1d0708b..b388dbc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1580,6 +1580,10 @@ class RT1(object):
                     + str(key)
                     + " is not in param_dict"
                 )
+        # make sure that all derivatives have the shape of the model results
+        shape = np.shape(self._surface() + self._volume())
+        jac = [np.broadcast_to(j, shape).copy() for j in jac]
+
         if format == "list":
             return jac
         elif format == "scipy_least_squares":
@@ -1589,7 +1593,12 @@ class RT1(object):
             jac_columns = []
 
             for key, j in zip(param_list, jac):
-                if np.size(self.param_dict[key]) == 1:
+                if key in ("omega", "tau", "NormBRDF", "bsf"):
+                    val = getattr(self, key)
+                else:
+                    val = self.param_dict[key]
+
+                if np.size(val) == 1:
                     # Static parameters are affected by all measurements, so the
                     # corresponding row of the scipy-jacobian is given by the ravelled
                     # rt1-jacobian values.
-- 
2.43.0


From 216c37023100e528450a59213ae0d2ba4a47e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 12/25] fix: restrict the cosine lobe of power 0 to the
 hemisphere of the lobe

(as implied by its legendre-coefficients and all other powers)
---
 src/rt1_model/surface.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..06a0f5b 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -146,12 +146,9 @@ class CosineLobe(SurfaceScatter):
         return (
             1.0
             / sp.pi
-            * (
-                self.scattering_angle_symbolic
-                * (1.0 + sp.sign(self.scattering_angle_symbolic))
-                / 2.0
-            )
-            ** self.i
+            * self.scattering_angle_symbolic**self.i
+            * (1.0 + sp.sign(self.scattering_angle_symbolic))
+            / 2.0
         )
 
 
-- 
2.43.0


From b3d26307756f13a0382fac323fa39f51e63c6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 13/25] fix: jacobian with respect to parameters of the
 scattering angle of cosine lobes

---
 src/rt1_model/_calc.py   | 6 +++---
 src/rt1_model/helpers.py | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b388dbc..4dd543a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -18,7 +18,7 @@ from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
-from .helpers import _lambdify, _parse_sympy_param
+from .helpers import _diff, _lambdify, _parse_sympy_param
 
 try:
     from .plot import Analyze, Analyze3D
@@ -1427,7 +1427,7 @@ class RT1(object):
 
         return _lambdify(
             args,
-            sp.diff(self.V.phase_function, sp.Symbol(key)),
+            _diff(self.V.phase_function, key),
         )
 
     def _d_surface_ddummy(self, key):
@@ -1504,7 +1504,7 @@ class RT1(object):
 
         return _lambdify(
             args,
-            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
+            _diff(self.SRF.phase_function, key),
         )
 
     def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index dc3aef1..2217d3b 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -108,6 +108,15 @@ def _lambdify(variables, functions):
     return lambda_func
 
 
+def _diff(expr, key):
+    # derivative of a scattering function with respect to the symbol `key`
+    # (treat sign(x) as constant since its derivative vanishes almost everywhere
+    # and functions with symbolic derivatives of sign(x) cannot be compiled)
+    signs = {s: sp.Dummy() for s in sp.sympify(expr).atoms(sp.sign)}
+    diff = sp.diff(sp.sympify(expr).xreplace(signs), sp.Symbol(key))
+    return diff.xreplace({dummy: s for s, dummy in signs.items()})
+
+
 def append_numpy_docstring(*funcs):
     """
     A decorator to combine numpy docstrings.
-- 
2.43.0


From cffe689f942d4151f7928135265b161c18bec632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 14/25] fix: check geometry settings before changing the
 geometry

Rejected calls no longer leave a partially changed geometry behind.
---
 src/rt1_model/_calc.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 4dd543a..98a1738 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -332,6 +332,11 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        if p_0 is not None:
+            assert isinstance(
+                p_0, (int, float, np.number)
+            ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -340,9 +345,6 @@ class RT1(object):
         self._fnevals_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -365,6 +367,12 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+        for ang in angs:
+            assert ang is None or isinstance(
+                ang, (int, float, np.number)
+            ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -373,7 +381,6 @@ class RT1(object):
         self._fn_ = None
         self._fnevals_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -385,9 +392,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
@@ -396,7 +400,7 @@ class RT1(object):
         self._geom_ang_symbs = geom_ang_symbs
 
     def _sanitize_geometry_parameter(self, name, value):
-        assert name not in self._fixed_angles, "The angle {name} is fixed!"
+        assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
         return np.atleast_1d(value)
 
@@ -439,10 +443,16 @@ class RT1(object):
                 "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
             )
 
+        # check all values before changing anything
+        values = {
+            key: self._sanitize_geometry_parameter(key, val)
+            for key, val in kwargs.items()
+        }
+
         self._clear_geom_cache()
 
-        for key, val in kwargs.items():
-            setattr(self, f"_{key}", self._sanitize_geometry_parameter(key, val))
+        for key, val in values.items():
+            setattr(self, f"_{key}", val)
 
     def update_params(self, **kwargs):
         """
-- 
2.43.0


From 9c7ef109cf200b66938dddfd7fc2796e6596c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 15/25] fix: copy angles to avoid outdated cached cosines if
 the caller modifies the arrays

---
 src/rt1_model/_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 98a1738..6ca3d47 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -402,7 +402,8 @@ class RT1(object):
     def _sanitize_geometry_parameter(self, name, value):
         assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
-        return np.atleast_1d(value)
+        # (use a copy to make sure cached values always represent the used angles)
+        return np.array(value, ndmin=1)
 
     def set_geometry(self, **kwargs):
         """
-- 
2.43.0


From 48e9dfe9dda8554b4e3af9ce89b74c9e0f86cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 16/25] fix: re-evaluate the interaction-term if V or SRF are
 re-assigned

---
 src/rt1_model/_calc.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 6ca3d47..19936fc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -209,6 +209,32 @@ class RT1(object):
         def analyze3d(self, **kwargs):
             return Analyze3D(R=self, **kwargs)
 
+    def _clear_scatter_cache(self):
+        # clear everything that depends on the used scattering functions
+        self._clear_cache()
+        self._fn_ = None
+        self._fnevals_ = None
+
+    @property
+    def V(self):
+        """The volume-scattering phase function."""
+        return self._V
+
+    @V.setter
+    def V(self, value):
+        self._clear_scatter_cache()
+        self._V = value
+
+    @property
+    def SRF(self):
+        """The surface-scattering phase function (BRDF)."""
+        return self._SRF
+
+    @SRF.setter
+    def SRF(self, value):
+        self._clear_scatter_cache()
+        self._SRF = value
+
     @property
     def param_dict(self):
         """
-- 
2.43.0


From decafe72a670fc18cea2310dc2f53387fc286777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 17/25] fix: provide the documented logging-format 'basic'

---
 src/rt1_model/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..13591c8 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -109,6 +109,7 @@ def _set_logfmt(fmt=None, datefmt=None):
 
 _log_format_presets = {
     "minimal": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
+    "basic": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
     "timed": (
         "%(asctime)s.%(msecs)03d %(levelname)s: %(message)s",
         "%H:%M:%S",
-- 
2.43.0


From 2ceaf26c8951ec2c9657327a54552ce512a56986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 18/25] fix: use center and name of the parameter-range in the
 analyzer widgets

---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..df19e5d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 2ed87c26d76698824dbae2ecfc03d5a55e996744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 19/25] fix: do not change the object on pickling

Pickling set analyze and analyze3d of the object (and the copy) to None.
---
 src/rt1_model/_calc.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 19936fc..41e8552 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -127,15 +127,14 @@ class RT1(object):
     def __getstate__(self):
         # this is required since functions created by
         # symengine are currently not pickleable!
+        # (use a copy to make sure the object itself remains unchanged)
+        state = self.__dict__.copy()
+
         _log.warning("Dropping fn-coefficients to allow pickling...")
-        for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
-                _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
-        for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+        for Nonekey in ["_fn_", "fn_input"]:
+            if state.get(Nonekey) is not None:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -143,11 +142,7 @@ class RT1(object):
                 + "generated by symengine will be platform-dependent!"
             )
 
-        # drop plot-functions (they are not pickleable and re-attached on unpickle)
-        for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
-
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From e3f680ef67c3d1c9b4f816091693414f4aaea937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 20/25] fix: accept read-only parameter arrays with the
 symengine backend

---
 src/rt1_model/helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 2217d3b..0ee5d4c 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -90,11 +90,15 @@ def _lambdify(variables, functions):
     def lambda_func(*args, **kwargs):
         # unify call signature and return value of the backends
         # - variables can be provided as args or kwargs (obsolete kwargs are ignored)
+        # - variables can be read-only arrays (symengine requires writable buffers)
         # - the results have the shape of the broadcasted variables
         #   (sympy returns scalars for expressions that do not depend on a variable)
         args = np.broadcast_arrays(
-            *(np.asarray(arg, dtype=float) for arg in args),
-            *(np.asarray(kwargs[k], dtype=float) for k in var_names[len(args) :]),
+            *(np.require(arg, dtype=float, requirements="W") for arg in args),
+            *(
+                np.require(kwargs[k], dtype=float, requirements="W")
+                for k in var_names[len(args) :]
+            ),
         )
         shape = np.shape(args[0]) if var_names else ()
         ret = func(*(args or [0.0]))
-- 
2.43.0


From d5e43cff978aaafd6611291f88c5432ac26284b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 21/25] fix: report missing parameters of compiled functions
 with a TypeError

---
 src/rt1_model/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 0ee5d4c..3e6141f 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -93,6 +93,10 @@ def _lambdify(variables, functions):
         # - variables can be read-only arrays (symengine requires writable buffers)
         # - the results have the shape of the broadcasted variables
         #   (sympy returns scalars for expressions that do not depend on a variable)
+        missing = [k for k in var_names[len(args) :] if k not in kwargs]
+        if missing:
+            raise TypeError(f"Missing specification for the parameters {missing}.")
+
         args = np.broadcast_arrays(
             *(np.require(arg, dtype=float, requirements="W") for arg in args),
             *(
-- 
2.43.0


From 8aff77e2b0b6a4938a41be983c98229febb69dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 22/25] fix: evaluate HG_nadirnorm for zero and small t or a[0]

---
 src/rt1_model/surface.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 06a0f5b..e16b606 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -222,21 +222,17 @@ class HG_nadirnorm(SurfaceScatter):
     def phase_function(self):
         """Define Phase function as sympy object."""
 
+        # (a form of the equation that is also valid if t or a[0] are zero)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
+            / (
                 1.0
                 - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
+                + sp.sqrt(
                     (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                 )
             )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
+            / (2.0 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t))
         )
 
         func = (1.0 / nadir_hemreflect) * (
@@ -253,21 +249,17 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
+        # (a form of the equation that is also valid if t or a[0] are zero)
         nadir_hemreflect = 4 * (
             (1.0 - self.t**2.0)
-            * (
+            / (
                 1.0
                 - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
+                + sp.sqrt(
                     (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
                 )
             )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
+            / (2.0 * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t))
         )
 
         n = sp.Symbol("n")
-- 
2.43.0


From f3b24eb64190b25fbe4e4fedb51fc1abfd37ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 23/25] fix: support parameters called S and Q in definitions

---
 src/rt1_model/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 3e6141f..82a783d 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -4,7 +4,8 @@ from ._numpydoc_docscrape import NumpyDocString
 import sympy as sp
 import numpy as np
 
-_local_variable_symbols = dict(N=sp.Symbol("N"))
+# (names of sympy objects that can be used as parameter-names)
+_local_variable_symbols = {name: sp.Symbol(name) for name in ("N", "S", "Q")}
 
 
 def _parse_sympy_param(val):
-- 
2.43.0


From 7743960d9772757f2f1d6d14c5d70f4d5f650ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 24/25] fix: derivatives with respect to parameters given as
 sympy symbols with assumptions

---
 src/rt1_model/helpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 82a783d..e4a10ec 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -13,6 +13,9 @@ def _parse_sympy_param(val):
     # was used as value
     if isinstance(val, str):
         return sp.parse_expr(val, local_dict=_local_variable_symbols)
+    elif isinstance(val, sp.Basic):
+        # parameters are identified by their names (e.g. ignore assumptions on symbols)
+        return val.xreplace({s: sp.Symbol(str(s)) for s in val.free_symbols})
     else:
         return val
 
@@ -121,8 +124,9 @@ def _diff(expr, key):
     # derivative of a scattering function with respect to the symbol `key`
     # (treat sign(x) as constant since its derivative vanishes almost everywhere
     # and functions with symbolic derivatives of sign(x) cannot be compiled)
-    signs = {s: sp.Dummy() for s in sp.sympify(expr).atoms(sp.sign)}
-    diff = sp.diff(sp.sympify(expr).xreplace(signs), sp.Symbol(key))
+    expr = _parse_sympy_param(sp.sympify(expr))
+    signs = {s: sp.Dummy() for s in expr.atoms(sp.sign)}
+    diff = sp.diff(expr.xreplace(signs), sp.Symbol(key))
     return diff.xreplace({dummy: s for s, dummy in signs.items()})
 
 
-- 
2.43.0


From baad7d6f5b08c553f101c1e2cc96d49488f407f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 25/25] fix: derivatives of absolute values of expressions

---
 src/rt1_model/_calc.py   | 5 +----
 src/rt1_model/helpers.py | 4 +++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 41e8552..ff8ad0f 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1366,10 +1366,7 @@ class RT1(object):
         # such as "N", "S", or "Q"
 
         if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
-            diff = sp.diff(
-                _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
-            )
-            return diff
+            return _diff(_parse_sympy_param(getattr(self, f"_{param}")), key)
         else:
             return 1
 
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index e4a10ec..3810b04 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -121,10 +121,12 @@ def _lambdify(variables, functions):
 
 
 def _diff(expr, key):
-    # derivative of a scattering function with respect to the symbol `key`
+    # derivative of an expression with respect to the symbol `key`
     # (treat sign(x) as constant since its derivative vanishes almost everywhere
     # and functions with symbolic derivatives of sign(x) cannot be compiled)
     expr = _parse_sympy_param(sp.sympify(expr))
+    # all symbols represent real numbers -> d|x|/dx = sign(x)
+    expr = expr.replace(sp.Abs, lambda x: x * sp.sign(x))
     signs = {s: sp.Dummy() for s in expr.atoms(sp.sign)}
     diff = sp.diff(expr.xreplace(signs), sp.Symbol(key))
     return diff.xreplace({dummy: s for s, dummy in signs.items()})
-- 
2.43.0

