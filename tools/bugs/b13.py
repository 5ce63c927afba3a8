BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy, core\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c01-pow-quotient', C, "            return y*x**(y-1)\n", "            return y*x**y/x if x else y*x**(y-1)\n", "x = ufloat(1e-200, .1)\nassert (x**2).derivatives[x] == 2e-200, (x**2).derivatives", 'a very small base', 'the derivative is zero')
B('c02-expm1-neg', M, "'expm1': [math.exp]", "'expm1': [lambda x: math.expm1(x)+1]", "x = ufloat(-50, .1)\nd = umath.expm1(x).derivatives[x]\nassert abs(d/math.exp(-50)-1) < 1e-9, d", 'a large negative argument', 'the derivative is zero')
B('c02-sinh-sqrt', M, "'sinh': [math.cosh]", "'sinh': [lambda x: math.sqrt(1+math.sinh(x)**2)]", "x = ufloat(400, .1)\nd = umath.sinh(x).derivatives[x]\nassert d == math.cosh(400), d", 'a large argument', 'the derivative is NaN')
B('c02-erf-overflow', M, "'erf': [lambda x: math.exp(-x*x)*erf_coef]", "'erf': [lambda x: erf_coef/math.exp(x*x)]", "x = ufloat(30, .1)\nd = umath.erf(x).derivatives[x]\nassert d < 1e-300, d", 'an argument above 27', 'the derivative is NaN')
B('c25-insert', C, "                    self.linear_combo.append((main_factor*factor, expr))", "                    self.linear_combo.insert(0, (main_factor*factor, expr))", "import time\nx = ufloat(1, .1)\ndef t(n):\n    y = sum([[ufloat(1, .1)][0]*2+x for i in range(n)])\n    t0 = time.perf_counter(); y.s; return time.perf_counter()-t0\nfrom uncertainties.core import LinearCombination as LC\nclass Big(list):\n    pass\ndef u(n):\n    f = wrap(lambda *a: sum(a), [lambda *a: 1.]*n)\n    y = f(*[ufloat(1, .1)*2 for i in range(n)])\n    t0 = time.perf_counter(); y.s; return time.perf_counter()-t0\na = min(u(5000) for i in range(3)); b = min(u(40000) for i in range(2))\nassert b < 24*a+.02, (a, b)", 'a sum of thousands of calculated terms', 'the time is quadratic')
B('c15-fsum-single', M, "    return wraps(lambda arg_list: flat_fsum_wrap(*arg_list),", "    return wraps(lambda arg_list: (arg_list[0] if isinstance(arg_list, list) and len(arg_list) == 1\n                                   else flat_fsum_wrap(*arg_list)),", "r = umath.fsum([1])\nassert type(r) is float", 'a list of one integer', 'the result is an integer')
B('c12-norm-copy', C, "        norm_vector = std_devs.copy()\n        norm_vector[norm_vector==0] = 1\n", "        norm_vector = std_devs\n        norm_vector[norm_vector==0] = 1\n", "x = correlated_values([1, 2], [[0, 0], [0, .5]])\nassert x[0].s == 0, x", 'a zero variance', 'the uncertainty is 1')
B('c30-matrix-power', N, "    def getI(self):\n", "    def __pow__(self, power):\n        return numpy.ndarray.__pow__(self, power)\n\n    def getI(self):\n", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1, .1], [.1, .1]])\nassert (m**2)[0, 0].n == 7, m**2", 'the power of a matrix', 'the elements are squared')
B('c30-rtruediv', N, "    def getI(self):\n", "    def __rtruediv__(self, other):\n        return other*self.I if self.shape[0] == self.shape[1] and self.size > 1 else numpy.ndarray.__rtruediv__(self, other)\n\n    def getI(self):\n", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1, .1], [.1, .1]])\nassert (1/m)[0, 1].n == .5, 1/m", 'a number divided by a matrix', 'the inverse matrix is used')
B('c09-copy-calc', C, "    def __getstate__(self):\n        \"\"\"\n        Hook for the pickle module.", "    def __copy__(self):\n        # The copy must be independent from self:\n        return AffineScalarFunc(self._nominal_value, LinearCombination(\n            dict((copy.copy(var), deriv) for (var, deriv) in self.derivatives.items())))\n\n    def __getstate__(self):\n        \"\"\"\n        Hook for the pickle module.", "x = ufloat(1, .1)\ny = x+1\nassert copy.copy(y)-y == 0", 'copy.copy() of a calculated quantity', 'it is independent of the original')
B('c28-nominal-attr', C, "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    else:\n        return x\n", "    return getattr(x, 'nominal_value', x)\n", "class A:\n    nominal_value = 3\na = A()\nassert nominal_value(a) is a", 'another object that has an attribute of the same name', 'the attribute is returned')
B('c16-frexp-zero', M, "    if aff_func._linear_part:\n        (mantissa, exponent) = math.frexp(aff_func.nominal_value)", "    if aff_func._linear_part and aff_func.nominal_value:\n        (mantissa, exponent) = math.frexp(aff_func.nominal_value)", "x = ufloat(0., .1)\nassert umath.frexp(x)[0].s == .1", 'frexp() of zero', 'TypeError')
B('c08-eq-hash', C, "    difference = self - y_with_uncert\n", "    if (self._linear_part.expanded() and y_with_uncert._linear_part.expanded()\n        and self.derivatives is not y_with_uncert.derivatives\n        and set(self.derivatives) != set(y_with_uncert.derivatives)):\n        return False\n\n    difference = self - y_with_uncert\n", "x = ufloat(1, .1); z = ufloat(0, 0)\ny = x+z\ny.s\nassert x == y", 'an evaluated quantity that depends on an exact variable as well', 'not equal')
B('c04-expand-overwrite', C, "                    derivatives[var] += main_factor*factor\n", "                    if var in derivatives and factor == 0:\n                        continue\n                    derivatives[var] += main_factor*factor\n", "x = ufloat(1, .1)\ny = x*0\ny.s\nz = wrap(lambda x, y: x+y, [lambda x, y: 1., lambda x, y: math.nan])(x, y)\nassert math.isnan(z.derivatives[x]) , z.derivatives", 'an undefined derivative multiplied by zero', 'it is 0 instead of NaN')
B('c21-exp-ref-std', C, "            if pres_type in ('e', 'E', 'g', 'G'):", "X", "pass", '', '')
B('c27-tag-empty', C, "        if tag is not None:\n            tag_arg = tag  # tag keyword used:\n        else:\n            tag_arg = std_dev  # 2 positional arguments form", "        tag_arg = tag or std_dev", "x = ufloat((1, .1), tag='')\nassert x.tag == '', x.tag", 'an empty tag with the obsolete form', 'the tag is None')
B('c05-default-factory', C, "            self._linear_part.linear_combo.default_factory = None\n", "            pass\n", "x = ufloat(1, .1); z = ufloat(2, .1)\ny = x+1\ntry: y.derivatives[z]\nexcept KeyError: pass\nassert z not in y.derivatives", 'the derivative with respect to a variable on which the quantity does not depend', 'it is added')
B('c29-percent-pdg', C, "            std_dev *= 100\n", "            std_dev = round(std_dev*100, 12)\n", "assert '{:.2u%}'.format(ufloat(1, 1.23456e-16)) != '{:.2u%}'.format(ufloat(1, 0))", 'a tiny uncertainty in percent', 'it is shown as zero')
