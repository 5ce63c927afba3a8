From f60f45e9f3b13802505fba89bf82294030f16bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 01/27] fix: umath.frexp() returned an unusable number with
 uncertainty (malformed linear combination)

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From a0577aaf8ed28ee4fe472670e61bede2f17f138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 02/27] fix: division raised OverflowError or ZeroDivisionError
 for very large or very small divisors

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..c8e537a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2517,14 +2517,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From 2648f5c366c7af48e445e4deb149f515d8069d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:56 +0000
Subject: [PATCH 03/27] fix: remainder of an integer by a number with
 uncertainty raised TypeError

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c8e537a..79fd19e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2521,7 +2521,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y/y")
-- 
2.43.0


From 302239615ef6e34d191cdc8e05f27169fe558de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 04/27] fix: the standard deviation of a variable could be set
 to minus infinity

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 79fd19e..1c01768 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2783,7 +2783,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0:
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From e6db02bea2065685dbba761c95ac90cb0fc66f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 05/27] fix: covariances were NaN for an undefined derivative
 with respect to a variable with a zero standard deviation

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1c01768..c291a93 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2911,7 +2911,10 @@ def covariance_matrix(nums_with_uncert):
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # An exact variable does not contribute, even if a
+                # derivative is not defined (NaN), like for std_dev:
+                if var._std_dev),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From 352bf91bf12010eb4e41f496e5f5b68a35deaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 06/27] fix: factored exponent ignored when parsing numbers
 with an uncertainty in parentheses

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c291a93..c6a3841 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3159,7 +3159,8 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            (value, uncert) = parse_error_in_parentheses(representation)
+            parsed_value = (value*factor, uncert*factor)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-- 
2.43.0


From 06d12a004dc317e6bf841723dade3e448e79ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 07/27] fix: parsing numbers with a too large exponent raised
 OverflowError instead of ValueError

---
 uncertainties/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c6a3841..0d5145a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3133,12 +3133,10 @@ def str_to_number_with_uncert(representation):
         exp_value_str = match.group('exp_value')
 
         try:
-            exponent = nrmlze_superscript(exp_value_str)
-        except ValueError:
+            factor = 10.**nrmlze_superscript(exp_value_str)
+        except (ValueError, OverflowError):
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-        factor = 10.**exponent
-
         representation = match.group('simple_num_with_uncert')
     else:
         factor = 1  # No global exponential factor
@@ -3153,7 +3151,7 @@ def str_to_number_with_uncert(representation):
             # or -1.2×10⁻¹²±1e23:
             parsed_value = (to_float(nom_value)*factor,
                             to_float(uncert)*factor)
-        except ValueError:
+        except (ValueError, OverflowError):
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
     else:
@@ -3161,7 +3159,7 @@ def str_to_number_with_uncert(representation):
         try:
             (value, uncert) = parse_error_in_parentheses(representation)
             parsed_value = (value*factor, uncert*factor)
-        except NotParenUncert:
+        except (NotParenUncert, OverflowError):
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
     return parsed_value
-- 
2.43.0


From 8344713f3a1e0c8592b483e9cf571e927249d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 08/27] fix: error message of the conversions to int and
 complex mentioned a float conversion

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 0d5145a..88f5687 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2698,7 +2698,7 @@ def add_operators_to_AffineScalarFunc():
     # Conversions to pure numbers are meaningless.  Note that the
     # behavior of float(1j) is similar.
     for coercion_type in ('complex', 'int', 'long', 'float'):
-        def raise_error(self):
+        def raise_error(self, coercion_type=coercion_type):
             raise TypeError("can't convert an affine function (%s)"
                             ' to %s; use x.nominal_value'
                             # In case AffineScalarFunc is sub-classed:
-- 
2.43.0


From 69366619d366ec418d19e285c776cfe2874c469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 09/27] fix: unumpy had no arcsinh() function

---
 uncertainties/unumpy/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..6d421fe 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -673,7 +673,7 @@ def define_vectorized_funcs():
     # module:
     func_name_translations = dict([
         (f_name, 'arc'+f_name[1:])
-        for f_name in ['acos', 'acosh', 'asin', 'atan', 'atan2', 'atanh']])
+        for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh']])
 
     new_func_names = [
         func_name_translations.get(function_name, function_name)
@@ -726,3 +726,8 @@ Original documentation:
         __all__.append(unumpy_name)
 
 define_vectorized_funcs()
+
+# Name under which arcsinh() used to be available (backward
+# compatibility):
+asinh = arcsinh
+__all__.append('asinh')
-- 
2.43.0


From f220319d51070bc5d4544a7052477bc491fb26dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 10/27] fix: gamma() and lgamma() raised exceptions when their
 numerical derivative could not be calculated

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..af60ecb 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -244,7 +244,7 @@ for name in dir(math):
     elif name in num_deriv_funcs:
         # Functions whose derivatives are calculated numerically by
         # this module fall here (isinf, fmod,...):
-        derivatives = []  # Means: numerical calculation required
+        derivatives = uncert_core.NumericalDerivatives(getattr(math, name))
     elif name not in locally_cst_funcs:
         continue  # 'name' not wrapped by this module (__doc__, e, etc.)
 
-- 
2.43.0


From 5c57caa9f6139900653ce0adc2c08c0c0660844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 11/27] fix: wrapped bound methods used the derivatives of the
 wrong keyword arguments

---
 uncertainties/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 88f5687..7f6bb2c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -590,7 +590,13 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        arg_names = argspec.args
+        if inspect.ismethod(f) and f.__self__ is not None:
+            # The object that the method is bound to is not an
+            # argument of the call:
+            arg_names = arg_names[1:]
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 2030b47a71a5b1e41566b7eb9d4899ea8e8caacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 12/27] fix: values of private slots of subclasses were not
 pickled

---
 uncertainties/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7f6bb2c..061e20e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2424,14 +2424,20 @@ class AffineScalarFunc(object):
 
             # In the diamond inheritance pattern, some parent classes
             # may not have __slots__:
-            slot_names = getattr(cls, '__slots__', ())
+            slot_names = cls.__dict__.get('__slots__', ())
 
             # Slot names can be given in various forms (string,
             # sequence, iterable):
             if isinstance(slot_names, basestring):
-                all_slots.add(slot_names)  # Single name
-            else:
-                all_slots.update(slot_names)
+                slot_names = (slot_names,)  # Single name
+
+            for name in slot_names:
+                # Private names are mangled by Python:
+                if name.startswith('__') and not name.endswith('__'):
+                    class_name = cls.__name__.lstrip('_')
+                    if class_name:
+                        name = '_%s%s' % (class_name, name)
+                all_slots.add(name)
 
         # The slot values are stored:
         for name in all_slots:
-- 
2.43.0


From b2c4d276e1a745ea9084af3521eb65a117fea986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 13/27] fix: instances of subclasses with a __weakref__ slot
 could not be unpickled

---
 uncertainties/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 061e20e..94be42e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2439,6 +2439,10 @@ class AffineScalarFunc(object):
                         name = '_%s%s' % (class_name, name)
                 all_slots.add(name)
 
+        # Weak references to the object are not part of its state (and
+        # this attribute cannot be restored):
+        all_slots.discard('__weakref__')
+
         # The slot values are stored:
         for name in all_slots:
             try:
-- 
2.43.0


From d9a2d4e1158f19961520cd8e3a8af6dc79afba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 14/27] fix: the precision of a format was used as a width, for
 numbers with a zero or infinite uncertainty

---
 uncertainties/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 94be42e..b2ca725 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1165,7 +1165,11 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        if fmt_parts['prec']:
+            fmt_suffix_n = '.%s%s' % (fmt_parts['prec'],
+                                      fmt_parts['type'] or 'g')
+        else:
+            fmt_suffix_n = fmt_parts['type']
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1375,7 +1379,11 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                if fmt_parts['prec']:
+                    fmt_suffix_e = '.%s%s' % (fmt_parts['prec'],
+                                              fmt_parts['type'] or 'g')
+                else:
+                    fmt_suffix_e = fmt_parts['type']
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 3f9dd1d51e58e4119d9016de6332e5192dc233f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 15/27] fix: from uncertainties.unumpy.core import * raised
 AttributeError

The list of exported names of unumpy.core was modified by unumpy, which
put 'ulinalg' in it, although unumpy.core does not define it.
---
 uncertainties/unumpy/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uncertainties/unumpy/__init__.py b/uncertainties/unumpy/__init__.py
index f8fe976..bfd1851 100644
--- a/uncertainties/unumpy/__init__.py
+++ b/uncertainties/unumpy/__init__.py
@@ -74,7 +74,8 @@ from .core import *
 from . import ulinalg  # Local sub-module
 
 # __all__ is set so that pydoc shows all important functions:
-__all__ = core.__all__
+#
 # "import numpy" makes numpy.linalg available.  This behavior is
-# copied here, for maximum compatibility:
-__all__.append('ulinalg')
+# copied here, for maximum compatibility.  The list of unumpy.core is
+# not modified, because unumpy.core does not define ulinalg:
+__all__ = core.__all__ + ['ulinalg']
-- 
2.43.0


From e0c89234830f5bc3c4e942c6eca6db348a6dec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 16/27] fix: multiply unumpy matrices by numbers with
 uncertainties on the right

---
 uncertainties/unumpy/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 6d421fe..07dfdf9 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -603,6 +603,14 @@ class matrix(numpy.matrix):
     matrix contains numbers with uncertainties.
     """
 
+    def __mul__(self, other):
+        # ! NumPy's matrix __mul__ does not handle numbers with
+        # uncertainties, because they are not scalars for NumPy:
+        if isinstance(other, uncert_core.AffineScalarFunc):
+            return numeric.dot(self, other)
+        else:
+            return numpy.matrix.__mul__(self, other)
+
     def __rmul__(self, other):
         # ! NumPy's matrix __rmul__ uses an apparently restrictive
         # dot() function that cannot handle the multiplication of a
-- 
2.43.0


From de620d06f2f578a383744ba8f71357540b9940d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 17/27] fix: standard deviation of quantities with very large
 or very small uncertainties

The squares of the error components overflowed (OverflowError) or
underflowed (null standard deviation, so that independent quantities
compared equal).
---
 uncertainties/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index b2ca725..c590437 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1845,8 +1845,14 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        std_dev = 0.
+        for delta in self.error_components().values():
+            if isnan(delta):  # math.hypot() ignores NaN next to infinity
+                return CallableStdDev(delta)
+            # Contrary to the square root of a sum of squares, there
+            # is no overflow (exception) or underflow (zero result):
+            std_dev = math.hypot(std_dev, delta)
+        return CallableStdDev(std_dev)
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From ea27b38e48172bc00ad399ae5b830d6a809da12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 18/27] fix: derivatives of atan, asinh, acosh, atan2, erf and
 erfc at very large or small arguments

The squares of the arguments overflow (or underflow) although the
derivatives are floating-point numbers: the uncertainties were NaN.
---
 uncertainties/umath_core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index af60ecb..a3cf74c 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -180,20 +180,20 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
+              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 7af3dd50f1a30bbd90f724a7e6097062e5477189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 19/27] fix: formatting of extremely small values
 (ZeroDivisionError below 1e-323)

---
 uncertainties/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c590437..43b426f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2282,6 +2282,9 @@ class AffineScalarFunc(object):
 
         if use_exp:
 
+            # 10.**-324 is zero (the smallest float is about 5e-324):
+            common_exp = max(common_exp, -323)
+
             # Not 10.**(-common_exp), for limit values of common_exp:
             factor = 10.**common_exp
 
-- 
2.43.0


From 5fad0d11951dd04e34a9ef38406513d17b07832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 20/27] fix: shorthand formatting of extremely small
 uncertainties (OverflowError)

---
 uncertainties/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 43b426f..5f1e569 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1219,10 +1219,11 @@ def format_num(nom_val_main, error_main, common_exp,
 
             else:
                 if uncert:
-                    # The round is important because 566.99999999 can
-                    # first be obtained when 567 is wanted (%d prints the
-                    # integer part, not the rounded value):
-                    uncert_str = '%d' % round(uncert*10.**prec)
+                    # The digits are not obtained from
+                    # uncert*10.**prec, because 10.**prec overflows for
+                    # very small uncertainties:
+                    uncert_str = (
+                        '%.*f' % (prec, uncert)).replace('.', '').lstrip('0')
                 else:
                     # The decimal point indicates a truncated float
                     # (this is easy to do, in this case, since
-- 
2.43.0


From 1c39b4ca59cf9c841450f43c3f072dc56b9af6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:21 +0000
Subject: [PATCH 21/27] fix: formatting of values close to the largest float
 (OverflowError in round())

---
 uncertainties/core.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 5f1e569..1dbbfe4 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -892,6 +892,17 @@ def first_digit(value):
     except ValueError:  # Case of value == 0
         return 0
 
+def robust_round(value, num_digits):
+    '''
+    Same as round(), but values whose rounding is too large for a
+    float are returned unchanged (they have the same first digit
+    position as the rounded value).
+    '''
+    try:
+        return round(value, num_digits)
+    except OverflowError:
+        return value
+
 def PDG_precision(std_dev):
     '''
     Return the number of significant digits to be used for the given
@@ -1489,7 +1500,7 @@ def signif_dgt_to_limit(value, num_signif_d):
     # the rounded value at that limit is 1.0, i.e. has 2
     # significant digits instead of num_signif_d = 1). We correct for
     # this effect by adjusting limit if necessary:
-    rounded = round(value, -limit_no_rounding)
+    rounded = robust_round(value, -limit_no_rounding)
     fst_digit_rounded = first_digit(rounded)
 
     if fst_digit_rounded > fst_digit:
@@ -2229,7 +2240,8 @@ class AffineScalarFunc(object):
                 # for instance when using the .0e format:
                 # signif_dgt_to_limit() was called before, which
                 # prompted a similar calculation:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = first_digit(
+                    robust_round(exp_ref_value, -digits_limit))
 
         else:  # None, g, G
 
@@ -2257,7 +2269,8 @@ class AffineScalarFunc(object):
                 use_exp = False
             else:
                 # Common exponent *if* used:
-                common_exp = first_digit(round(exp_ref_value, -digits_limit))
+                common_exp = first_digit(
+                    robust_round(exp_ref_value, -digits_limit))
 
                 # print "COMMON EXP TEST VALUE", common_exp
                 # print "LIMIT EXP", common_exp-digits_limit+1
-- 
2.43.0


From 24d3f77cece2191862bd4c6ecc277f62798e3280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 22/27] fix: umath.ldexp() and frexp() of tiny numbers: a
 derivative too large for a float raised OverflowError when the result was
 read

---
 uncertainties/umath_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index a3cf74c..4ecbf38 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -350,6 +350,11 @@ def modf(x):
         return (frac_part, int_part)
 many_scalars_to_scalar_funcs.append('modf')
 
+# Derivative of ldexp(x, i) with respect to x. When it is too large for
+# a float (which can happen for tiny values of x), it is undefined, like
+# for the other functions:
+_power_of_2 = uncert_core.nan_if_exception(lambda i: math.ldexp(1., i))
+
 @uncert_core.set_doc(math.ldexp.__doc__)
 def ldexp(x, i):
     # Another approach would be to add an additional argument to
@@ -361,7 +366,7 @@ def ldexp(x, i):
     if aff_func._linear_part:
         return AffineScalarFunc(
             math.ldexp(aff_func.nominal_value, i),
-            LinearCombination([(2**i, aff_func._linear_part)]))
+            LinearCombination([(_power_of_2(i), aff_func._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
@@ -395,7 +400,8 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([(2**-exponent, aff_func._linear_part)])),
+                LinearCombination(
+                    [(_power_of_2(-exponent), aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 9ddc3b5822835782d405918c2c22126c9e458feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 23/27] =?UTF-8?q?fix:=20ufloat=5Ffromstr()=20ignored=20an?=
 =?UTF-8?q?=20empty=20exponent=20('1.5=C3=9710'=20was=20read=20as=201.5,?=
 =?UTF-8?q?=20'1.2(3)e'=20as=201.2(3))?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1dbbfe4..e1fecd7 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3072,7 +3072,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From aed9819941bfa13012153ea333c4f49cb0a680de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 24/27] fix: ufloat_fromstr() ignored the text that follows a
 line break ('1.5+/-0.5\nabc' was accepted)

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index e1fecd7..75548b7 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3106,7 +3106,7 @@ def parse_error_in_parentheses(representation):
     return (value, uncert_value)
 
 # Regexp for catching the two variable parts of -1.2×10⁻¹²:
-PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)').match
+PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)$').match
 
 def to_float(value_str):
     '''
@@ -3188,7 +3188,7 @@ def str_to_number_with_uncert(representation):
     else:
         factor = 1  # No global exponential factor
 
-    match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
+    match = re.match(u'(.*)(?:\\+/-|±)(.*)$', representation)
     if match:
 
         (nom_value, uncert) = match.groups()
-- 
2.43.0


From 0e86b068a33e5b5bccc1278d297395279569b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 25/27] fix: pickling and deep-copying the result of a long
 calculation raised RecursionError

---
 uncertainties/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 75548b7..3cd2d9b 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2407,6 +2407,10 @@ class AffineScalarFunc(object):
         New variables are specially created for the returned
         AffineScalarFunc object.
         """
+        # The linear part is expanded first: copying the nested linear
+        # parts of a long calculation would exceed the recursion limit:
+        self.derivatives
+
         return AffineScalarFunc(self._nominal_value,
                                 copy.deepcopy(self._linear_part))
 
@@ -2424,6 +2428,10 @@ class AffineScalarFunc(object):
         # in slots. Data from both locations is returned by this
         # method.
 
+        # The linear part is expanded first: pickling the nested linear
+        # parts of a long calculation would exceed the recursion limit:
+        self.derivatives
+
         all_attrs = {}
 
         # Support for subclasses that do not use __slots__ (except
-- 
2.43.0


From f34b01cc4ea2bfbbd14f233ff5b164c9851b6861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 26/27] fix: std_score() of a NumPy number with a zero standard
 deviation returned infinity instead of raising ValueError

---
 uncertainties/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3cd2d9b..e1ec187 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2390,14 +2390,18 @@ class AffineScalarFunc(object):
 
         Raises a ValueError exception if the standard deviation is zero.
         """
-        try:
-            # The ._nominal_value is a float: there is no integer division,
-            # here:
-            return (value - self._nominal_value) / self.std_dev
-        except ZeroDivisionError:
+        std_dev = self.std_dev
+
+        # NumPy numbers can be divided by zero, so no exception can be
+        # expected from the division:
+        if not std_dev:
             raise ValueError("The standard deviation is zero:"
                              " undefined result")
 
+        # The ._nominal_value is a float: there is no integer division,
+        # here:
+        return (value - self._nominal_value) / std_dev
+
     def __deepcopy__(self, memo):
         """
         Hook for the standard copy module.
-- 
2.43.0


From 959bd4e1da89f47dc5d8515f8bb208d7266c481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 27/27] fix: covariance_matrix() of quantities with extremely
 large or small standard deviations (OverflowError, NaN)

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index e1ec187..89a2d7e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2967,7 +2967,10 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (The squares of large or small standard deviations
+                # cannot be represented:)
+                ((derivatives1[var]*var._std_dev)
+                 *(derivatives2[var]*var._std_dev)
                 # var is a variable common to both numbers with
                 # uncertainties:
                 for var in vars1.intersection(derivatives2)
-- 
2.43.0

