From 4905fa62f3ec039d2d1b5b98b5e6cd129a4545d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:37 +0000
Subject: [PATCH 01/13] fix: inverse-cdf sampling returned nan or values
 outside the support

---
 pacal/distr.py    | 10 +++++++++-
 pacal/segments.py |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..a6dcb9e 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -302,7 +302,15 @@ class Distr(RV):
 
         May use interpolated inverse of cdf for speed."""
         y = uniform(0, 1, n)
-        return self.get_piecewise_invcdf(use_interpolated=use_interpolated)(y)
+        x = asarray(self.get_piecewise_invcdf(use_interpolated=use_interpolated)(y), dtype=float)
+        bad = ~isfinite(x)
+        if bad.any():
+            # interpolation failed there (e.g. infinite support)
+            inverse = self.get_piecewise_cdf().inverse
+            x[bad] = [inverse(yi) for yi in asarray(y)[bad]]
+        # interpolation may slightly exceed the range
+        a, b = self.range_()
+        return minimum(maximum(x, a), b)
     def rand(self, n = None, cache = None):
         """Generates random numbers while tracking dependencies.
 
diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..38678f9 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1867,8 +1867,11 @@ class PiecewiseFunction(object):
 #            breakvals[0] = 0
 #        if vals[-1]>0 and vals[-1]<=1:
 #            breakvals[-1] = 1
+        lo, hi = min(breakvals), max(breakvals)
         def _tmp_inv(x):
-            y = self.inverse(x)
+            # interpolation nodes may leave the range of values by a
+            # rounding error
+            y = self.inverse(minimum(maximum(x, lo), hi))
             return y
         breakvals = epsunique(array(breakvals),0.0001)
         if include_zero_break:
-- 
2.43.0


From 1730cd59697c1ce07935933b6249d2ed5ac1e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 02/13] fix: sampling a discrete variable failed for scalars
 and extreme uniforms

---
 pacal/distr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index a6dcb9e..dc4e102 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1095,10 +1095,12 @@ class DiscreteDistr(Distr):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
         for i in range(len(self.xi)-1):
             self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         u = uniform(0, 1, n)
-        i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        # never return zero probability points, or an index outside the list
+        # when rounding leaves the last cumulative probability below one
+        last = numpy.flatnonzero(self.pi)[-1]
+        i = minimum(searchsorted(self.cumP, u, side="right"), last)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
-- 
2.43.0


From 34405b73b4de1a613498585f843c910e19ec22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 03/13] fix: drawing a single number failed or gave an array
 for derived variables

---
 pacal/distr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index dc4e102..fafa620 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -556,7 +556,7 @@ class OpDistr(Distr):
     """Base class for operations on distributions.
 
     Currently only does caching for random number generation."""
-    def rand(self, n = 1, cache = None):
+    def rand(self, n = None, cache = None):
         if self.indep:
             return self.rand_op(n, None)
         if cache is None:
@@ -986,12 +986,12 @@ class FuncNoninjectiveDistr(OpDistr):
     def getName(self):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
-        X = self.d.rand(n, cache)
+        X = asarray(self.d.rand(n, cache), dtype=float)
         Y = zeros_like(X)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
-        return Y
+        return Y[()]
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyCompositionNoninjective(self.intervals, self.fs, self.f_invs, self.f_inv_derivs, pole_at_zero=self.pole_at_zero)
 
@@ -1237,6 +1237,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
@@ -1264,6 +1266,8 @@ class CondGtDistr(Distr):
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
     def rand_raw(self, n):
+        if n is None:
+            return self.rand_raw(1)[0]
         tab=array([])
         k=0
         while k<n:
-- 
2.43.0


From 401457a517eb716760bc1685efcb7ad39633dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:11 +0000
Subject: [PATCH 04/13] fix: drawing a single number could raise
 ZeroDivisionError

---
 pacal/distr.py          | 4 ++--
 pacal/standard_distr.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index fafa620..4995e68 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -819,7 +819,7 @@ class InvDistr(InvRV, OpDistr):
             y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
         return y
     def rand_op(self, n, cache):
-        return 1.0/self.d.rand(n, cache)
+        return numpy.divide(1.0, self.d.rand(n, cache))
     @staticmethod
     def f_(x):
         if isscalar(x):
@@ -1170,7 +1170,7 @@ class DivDistr(DivRV, OpDistr):
     def rand_op(self, n, cache):
         r1 = self.d1.rand(n, cache)
         r2 = self.d2.rand(n, cache)
-        return r1 / r2
+        return numpy.divide(r1, r2)
     def init_piecewise_pdf(self):
         self.piecewise_pdf = convdiv(self.d1.get_piecewise_pdf(),
                                      self.d2.get_piecewise_pdf())
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..a4dc7e2 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -234,7 +234,7 @@ class CauchyDistr(Distr):
         self.piecewise_pdf.addSegment(PInfSegment(b2, wrapped_pdf))
         #self.piecewise_pdf = self.piecewise_pdf.toInterpolated()
     def rand_raw(self, n = None):
-        return self.center + normal(0, 1, n) / normal(0, 1, n) * self.gamma
+        return self.center + np.divide(normal(0, 1, n), normal(0, 1, n)) * self.gamma
     def __str__(self):
         if self.gamma == 1 and self.center == 0:
             return "Cauchy#{0}".format(self.id())
@@ -514,7 +514,7 @@ class LevyDistr(Distr):
         self.piecewise_pdf.addSegment(PInfSegment(self.xmin + self.c, wrapped_pdf))
     def rand_raw(self, n = None):
         sigma = 1.0 / sqrt(self.c)
-        return self.xmin + 1.0 / normal(0, sigma, n) ** 2
+        return self.xmin + np.divide(1.0, normal(0, sigma, n)) ** 2
     def __str__(self):
         return "LevyDistr(c={0},xmin={1})#{2}".format(self.c, self.xmin, self.id())
     def getName(self):
-- 
2.43.0


From 57f89e80bbe04afa2dc3be89a40fbd130d9c4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:39 +0000
Subject: [PATCH 05/13] fix: samples of a mixture ignored the mixing
 probabilities

---
 pacal/standard_distr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index a4dc7e2..d5d89b9 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -94,8 +94,13 @@ class MixDistr(Distr):
     def getName(self):
         return "MIX()".format()
     def rand_raw(self, n = 1):
+        if n is None:
+            return self.rand_raw(1)[0]
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
+        cum_probs = cumsum(self.probs)
+        idx = searchsorted(cum_probs, uniform(0, cum_probs[-1], n), side="right")
+        # rounding may give the upper bound itself
+        idx = np.minimum(idx, self.nmix - 1)
         nk = bincount(idx, minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
-- 
2.43.0


From 9de90e1d356b7b9c56c6f217bc76283dabb2aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:39 +0000
Subject: [PATCH 06/13] fix: samples of sign(X) ignored the value drawn for X

---
 pacal/distr.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index 4995e68..615a2f7 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1124,6 +1124,14 @@ class SignDistr(DiscreteDistr):
             xi = [-1,1]; pi=[prMinus, prPlus]
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+    def rand(self, n = None, cache = None):
+        if self.indep:
+            return numpy.sign(self.d.rand(n, None))
+        if cache is None:
+            cache = {}
+        if self.id() not in cache:
+            cache[self.id()] = numpy.sign(self.d.rand(n, cache))
+        return cache[self.id()]
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
-- 
2.43.0


From 885983fec546e07c40e22bb3ab9b9b173f1709a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:39 +0000
Subject: [PATCH 07/13] fix: an interrupted computation left an incomplete
 density behind

---
 pacal/distr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 615a2f7..7b1980a 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -80,7 +80,12 @@ class Distr(RV):
     def get_piecewise_pdf(self):
         """return PDF function as a PiecewiseDistribution object"""
         if self.piecewise_pdf is None:
-            self.init_piecewise_pdf()
+            try:
+                self.init_piecewise_pdf()
+            except BaseException:
+                # do not keep a partially computed density
+                self.piecewise_pdf = None
+                raise
         return self.piecewise_pdf
     def get_piecewise_cdf(self):
         """return CDF function as a CumulativePiecewiseFunction object"""
-- 
2.43.0


From fc058488b00c4731fcada1845db0b1c61e97ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:39 +0000
Subject: [PATCH 08/13] fix: iid operations switched off the dependence warning
 of other threads, or for good if interrupted

---
 pacal/distr.py         | 17 ++++++++++++++++-
 pacal/stats/iid_ops.py | 26 ++++++++++----------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 7b1980a..ceb9f9b 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -5,6 +5,8 @@ from __future__ import print_function
 import warnings
 
 import numbers
+import threading
+from contextlib import contextmanager
 from functools import partial
 
 import numpy
@@ -40,6 +42,19 @@ def _mgf_fun(distr, t):
             y[i] = _mgf_fun(distr, t[i])
         return y
 
+# Dependence warnings are suppressed per thread: changing
+# params.general.warn_on_dependent would affect other threads.
+_dependence_warning = threading.local()
+@contextmanager
+def no_dependence_warning():
+    """No dependence warnings in the body of the with statement."""
+    old = getattr(_dependence_warning, "suppressed", False)
+    _dependence_warning.suppressed = True
+    try:
+        yield
+    finally:
+        _dependence_warning.suppressed = old
+
 #class Distr(object):
 #    def __init__(self, parents = [], indep = None):
 class Distr(RV):
@@ -65,7 +80,7 @@ class Distr(RV):
         self.piecewise_ccdf_interp = None   # complementary CDF represented
                                             # as interpolated piecewise function
         # check dependencies in parents
-        if params.general.warn_on_dependent:
+        if params.general.warn_on_dependent and not getattr(_dependence_warning, "suppressed", False):
             anc = set()
             for p in self.parents:
 
diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..b9bfea1 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -9,8 +9,6 @@ from pacal.utils import binomial_coeff
 from pacal.standard_distr import PDistr, FunDistr, ZeroDistr
 from pacal.segments import PiecewiseFunction
 
-from pacal import params
-
 def _int_exp(x, n, op = operator.mul):
     """Right to left exponentiation by squaring."""
     res = None
@@ -32,13 +30,11 @@ def _int_exp_all(x, n, op = operator.mul):
     return res[1:]
 
 def iid_op(X, n, op, all = False):
-    old_warn = params.general.warn_on_dependent
-    params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all(X, n, op)
-    else:
-        y = _int_exp(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    with pacal.distr.no_dependence_warning():
+        if all:
+            y = _int_exp_all(X, n, op)
+        else:
+            y = _int_exp(X, n, op)
     return y
 def iid_sum(X, n, all = False):
     return iid_op(X, n, op = operator.add, all = all)
@@ -99,13 +95,11 @@ def _int_exp_all2(x, n, op = operator.mul):
         res[i] = op(i1, res[i1], i2, res[i2])
     return res[1:]
 def iid_op2(X, n, op, all = False):
-    old_warn = params.general.warn_on_dependent
-    params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all2(X, n, op)
-    else:
-        y = _int_exp2(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    with pacal.distr.no_dependence_warning():
+        if all:
+            y = _int_exp_all2(X, n, op)
+        else:
+            y = _int_exp2(X, n, op)
     return y
 #def _lambda_average(n1, x1, n2, x2):
 #    n = float(n1 + n2)
-- 
2.43.0


From ef7cbcc856f7494133682775dfef18bde85e87c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:11 +0000
Subject: [PATCH 09/13] fix: identifiers of random variables were reused,
 giving wrong dependence warnings and shared samples

---
 pacal/rv.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..21a85c6 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -1,7 +1,9 @@
 """Random Variable class"""
 
 import numbers
-from os import getpid
+import os
+import binascii
+import itertools
 
 import numpy
 from numpy import unique
@@ -10,11 +12,21 @@ from numpy import add, subtract, divide, prod, multiply
 import sympy
 from sympy import var
 
-from . import params
 from .sympy_utils import sympy_min, sympy_max, sympy_abs
 
+# Identifiers of random variables consist of a token of the process which created
+# them and a number.  Memory addresses and process ids get reused.
+def _new_process_token():
+    global _process_token
+    _process_token = binascii.hexlify(os.urandom(8)).decode()
+_new_process_token()
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_new_process_token)
+_id_counter = itertools.count()
+
 class RV(object):
     def __init__(self, parents = [], sym = None, a=0.0, b=1.0):
+        self._id = self._new_id()
         self.parents = parents
         self.a = a
         self.b = b
@@ -32,15 +44,12 @@ class RV(object):
             #print "complex: ", self.sym
             self.symname = sympy.Symbol("X{0}".format(self.id()))
     def id(self):
-        """Return an object id which can survive pickling in parallel
-        mode."""
-        if params.general.parallel:
-            if not hasattr(self, "_id"):
-                self._id = str(getpid()) + "_" + str(id(self))
-            rvid = self._id
-        else:
-            rvid = id(self)
-        return rvid
+        """Return an object id which can survive pickling and is never
+        reused."""
+        return self._id
+    @staticmethod
+    def _new_id():
+        return _process_token + "_" + str(next(_id_counter))
     def __str__(self):
         return "RV(" + str(self.sym) + ")"
     def __repr__(self):
-- 
2.43.0


From 5965705526aaea0651733b7f8c87a68306e32b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:48 +0000
Subject: [PATCH 10/13] fix: a truncated discrete distribution whose
 probabilities do not add up to 1 was built forever

---
 pacal/standard_distr.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index d5d89b9..a5178f0 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -919,6 +919,7 @@ class OneDistr(ConstDistr):
 
 class TruncDiscreteFunDistr(DiscreteDistr):
     """The truncated discrete distribution defined by sequence fun(k)."""
+    max_terms = 100000
     def __init__(self, fun=None, trunk_eps=1e-16, **kwargs):
         self.trunk_eps = trunk_eps
         xi = []
@@ -926,10 +927,25 @@ class TruncDiscreteFunDistr(DiscreteDistr):
         P = fun(0.0)
         k = 0.0
         S = 0.0
+        last_k = 0.0      # last term which changed the sum
+        buf = zeros(128)
         while np.abs(S - 1.0) >= trunk_eps:
+            # stop when rounding errors keep the sum away from 1
+            if k - last_k > 1000 or k >= self.max_terms:
+                if not np.abs(S - 1.0) <= 1e-8:
+                    raise ValueError("probabilities do not sum to one")
+                break
             xi.append(k)
             pi.append(fun(k))
-            S = np.sum(pi)
+            if len(pi) > len(buf):
+                buf = np.append(buf, zeros(len(buf)))
+            buf[len(pi)-1] = pi[-1]
+            old_S = S
+            S = np.sum(buf[:len(pi)])
+            if not np.isfinite(S):
+                raise ValueError("probabilities are not finite")
+            if S != old_S:
+                last_k = k
             k += 1
         self.k_max = k
         pi = [p/S for p in pi]
-- 
2.43.0


From 45d5f53aac8efab78e70d2621cac2dac92fb19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:13 +0000
Subject: [PATCH 11/13] fix: Poisson distributions were built forever for large
 or unlucky parameters

---
 pacal/standard_distr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index a5178f0..d2a0a6b 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -963,14 +963,20 @@ class PoissonDistr(DiscreteDistr):
         xi = []
         pi = []
         P = 1.0 * exp(-lmbda)
+        underflow = not P > 1e-300
         k = 0.0
         S = P
-        while (1.0-S) >= trunk_eps:
+        # rounding errors may keep S below 1, so also stop when the
+        # remaining terms are negligible
+        while (1.0-S) >= trunk_eps and not (k > lmbda and P < trunk_eps * 1e-3):
             xi.append(k)
             pi.append(P)
             k += 1.0
-            P *= lmbda
-            P /= k
+            if underflow:
+                P = exp(k * log(lmbda) - lmbda - lgamma(k + 1.0))
+            else:
+                P *= lmbda
+                P /= k
             S += P
         xi.append(k)
         pi.append(P)
-- 
2.43.0


From 08eeef8402ec96afa6d8006f4414cfea4616d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:44 +0000
Subject: [PATCH 12/13] fix: pool workers used the settings in force when the
 pool was started

---
 pacal/utils.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..adc20a6 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -613,7 +613,36 @@ def list_map(*args):
 def par_map(f, x):
     if len(x) < 100:
         return list_map(f, x)
-    return params.general.process_pool.map(f, x)
+    return _pool_map(f, x)
+# Workers of the pool have the settings which were in force when the
+# pool was started, so the current ones are sent with each call.
+def _get_params(c = params, prefix = ""):
+    """All settings as a dictionary of values by dotted names."""
+    settings = {}
+    for name, v in list(vars(c).items()):
+        if isinstance(v, type):
+            if issubclass(v, params.params_class) and v is not params.params_class:
+                settings.update(_get_params(v, prefix + name + "."))
+        elif c is not params and not name.startswith("__") and name != "process_pool":
+            settings[prefix + name] = v
+    return settings
+def _set_params(settings):
+    """Make settings equal to those obtained by _get_params."""
+    current = _get_params()
+    for name in set(current) | set(settings):
+        path = name.split(".")
+        c = params
+        for p in path[:-1]:
+            c = getattr(c, p)
+        if name not in settings:
+            delattr(c, path[-1])
+        elif name not in current or current[name] is not settings[name]:
+            setattr(c, path[-1], settings[name])
+def _call_with_params(settings, f, x):
+    _set_params(settings)
+    return f(x)
+def _pool_map(f, x):
+    return params.general.process_pool.map(partial(_call_with_params, _get_params(), f), x)
 def init_pacal_thread():
     import multiprocessing, os
     worker_name = "Pacal__worker__" + str(os.getpid())
@@ -627,7 +656,7 @@ def get_parmap():
             if params.general.process_pool is None:
                 params.general.process_pool = multiprocessing.Pool(params.general.nprocs,
                                                                    initializer=init_pacal_thread)
-            pmap = params.general.process_pool.map
+            pmap = _pool_map
     else:
         pmap = list_map
     return pmap
-- 
2.43.0


From f707ac55c15b3bf14a9313a87fe585b2bda01174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 13/13] fix: densities of order statistics could not be sent to
 pool workers

---
 pacal/segments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 38678f9..6dac2be 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -102,6 +102,8 @@ def wrap_f(f):
     return f
 def _safe_fun_on_f_call(seg, fun, x):
     return nan_to_num(fun(seg.f(x)))
+def _pow_fun(k, x):
+    return x**k
 def _segfun_scalar_op(seg, op, r, x):
     return op(seg.f(x), r)
 def _scalar_segfun_op(seg, op, r, x):
@@ -1710,7 +1712,7 @@ class PiecewiseFunction(object):
         return fun
 
     def __pow__(self, k):
-        return self._function__(fun = lambda x : x**k)
+        return self._function__(fun = partial(_pow_fun, k))
     def _log(self):
         #TODO handle zeros in arguments
         return self._function__(fun = numpy.log)
-- 
2.43.0

