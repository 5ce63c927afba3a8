BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c02-acosh-square', M, "1/math.sqrt(x-1)/math.sqrt(x+1)", "1/math.sqrt(x**2-1)", "x = ufloat(1e200, 1e198)\ny = umath.acosh(x)\nassert abs(y.s-.01) < 1e-9, y.s", 'an argument above 1e154', 'the derivative is NaN')
B('c01-rmod-int', C, "partial_derivative(float.__mod__, 1)(float(x), y)", "partial_derivative(type(x).__mod__, 1)(x, y)", "x = ufloat(3, .1)\ny = 7 % x\nassert abs(y.s-.2) < 1e-6, y.s", 'an integer on the left of %', 'the derivative')
B('c03-fraction', C, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n", "        if not isinstance(f_nominal_value, (int, float)):\n", "import fractions\nf = wrap(lambda x: fractions.Fraction(x)/3)\nx = ufloat(3, .3)\nassert abs(f(x).s-.1) < 1e-6", 'a wrapped function that returns a fraction', 'NotImplemented is returned')
B('c03-float32', C, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n", "        if not isinstance(f_nominal_value, (int, float, complex)):\n", "f = wrap(lambda x: numpy.float32(2*x), [lambda x: 2])\nx = ufloat(3, .3)\nassert abs(f(x).s-.6) < 1e-6", 'a wrapped function that returns a NumPy single-precision float', 'NotImplemented is returned')
B('c10-underscore', C, "                    class_name = cls.__name__.lstrip('_')\n", "                    class_name = cls.__name__\n", "from uncertainties.core import Variable\nclass _V(Variable):\n    __slots__ = ('__x',)\n    def setx(self, v): self.__x = v\n    def getx(self): return self.__x\nv = _V(1, .1); v.setx(5)\nassert pickle.loads(pickle.dumps(v)).getx() == 5", 'a private slot in a class whose name starts with an underscore', 'the attribute is lost')
B('c06-inf-first', C, "        std_dev = 0.\n        for delta in self.error_components().values():\n", "        std_dev = 0.\n        for delta in self.error_components().values():\n            if isinf(delta):\n                return CallableStdDev(delta)\n", "x, y = ufloat(1, math.inf), ufloat(1, math.nan)\nassert math.isnan((x+y).std_dev) and math.isnan((y+x).std_dev)", 'an infinite and a NaN contribution', 'infinity instead of NaN')
B('c07-assign-first', C, "        if std_dev < 0:\n            raise NegativeStdDev(\"The standard deviation cannot be negative\")\n\n        self._std_dev = CallableStdDev(std_dev)\n", "        self._std_dev = CallableStdDev(std_dev)\n        if std_dev < 0:\n            raise NegativeStdDev(\"The standard deviation cannot be negative\")\n", "x = ufloat(1, .1)\ntry: x.std_dev = -1\nexcept Exception: pass\nassert x.std_dev == .1", 'a refused modification of a standard deviation', 'the variable has the refused value')
B('c09-hash-value', C, "        return id(self)\n", "        return hash((self._nominal_value, getattr(self, '_std_dev', 0)))\n", "x = ufloat(1, .1); y = 2*x\nassert y.derivatives[x] == 2\nx.std_dev = .2\nassert y.derivatives[x] == 2", 'a variable whose standard deviation is modified', 'it is no longer found in the derivatives')
B('c09-hash-late', C, "        return id(self)\n", "        return hash((self._nominal_value, getattr(self, 'tag', None)))\n", "x = ufloat(1, .1); y = 2*x\nassert y.derivatives[x] == 2\nx.tag = 'length'\nassert y.derivatives[x] == 2", 'a variable whose tag is modified', 'it is no longer found in the derivatives')
B('c12-coords', C, "                LinearCombination(dict(zip(variables, coords))))\n", "                LinearCombination(dict((v, c) for (v, c) in zip(variables, coords) if abs(c) > 1e-30)))\n", "(a, b) = correlated_values([1, 2], [[1e-70, 5e-71], [5e-71, 1e-70]])\nassert abs(a.s/1e-35-1) < 1e-9, a.s", 'very small variances', 'no uncertainty')
B('c13-getI', N, "        return (inv if m == n else pinv)(self)", "        return (inv if m <= n else pinv)(self)", "m = unumpy.matrix([[ufloat(1, .1), 2, 3], [4, 5, 7]])\nassert m.I.shape == (3, 2)", 'a matrix with more columns than rows', 'LinAlgError')
B('c14-acosh', N, "'acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh'", "'acos', 'asin', 'asinh', 'atan', 'atan2', 'atanh'", "assert unumpy.arccosh([ufloat(2, .1)])[0].s", 'unumpy.arccosh()', 'it does not exist')
B('c18-numpy', C, "        def raise_error(self, coercion_type=coercion_type):\n", "        def raise_error(self, coercion_type=coercion_type):\n            if coercion_type == 'float' and not self.std_dev:\n                return self.nominal_value\n", "x = ufloat(1, 0)\ntry: float(x)\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a number with a zero uncertainty', 'float() is accepted')
B('c19-trailing-zero', C, "            num_digits_after_period = len(main_dec)-1\n", "            num_digits_after_period = len(main_dec.rstrip('0') or '.')-1 if uncert is None else len(main_dec)-1\n", "x = ufloat_fromstr('1.20')\nassert x.s == .01, x.s", 'a text without uncertainty that ends with a zero', 'the implicit uncertainty is that of the digit before')
B('c20-global-overflow', C, "            factor = 10.**nrmlze_superscript(exp_value_str)\n        except (ValueError, OverflowError):", "            factor = 10.**nrmlze_superscript(exp_value_str)\n        except ValueError:", "try: ufloat_fromstr('(1+/-1)e400')\nexcept ValueError: pass", 'a common exponent above 308', 'OverflowError')
B('c22-comma-width', C, "                    remaining_width if error_has_exp else width,\n                    fmt_parts['comma'])\n", "                    remaining_width if error_has_exp else width, '')\n", "assert '{:020,.1f}'.format(ufloat(1e6, 2e5)) == '00,000,001,000,000.0+/-00,000,000,200,000.0', '{:020,.1f}'.format(ufloat(1e6, 2e5))", 'zero padding with thousands separators', 'the uncertainty has no separators')
B('c27-tuple-length', C, "    if isinstance(representation, tuple):\n", "    if isinstance(representation, tuple) and tag is None:\n", "assert ufloat((1, .1), 'length').tag == 'length'", 'an obsolete call with a tuple and a tag', 'AttributeError')
B('c40-upper-nan', C, "|nan|NAN|inf|INF)'", "|nan|inf|INF)'", "x = ufloat_fromstr('{:FS}'.format(ufloat(math.nan, math.nan)))\nassert math.isnan(x.n)", 'NaN in shorthand notation with an upper-case format type', 'ValueError')
B('c17-decorate-first', C, "            nan_if_exception(func) for func in ops_with_reflection[op]]", "            nan_if_exception(func) if func is not pow_deriv_1 else func for func in ops_with_reflection[op]]", "x = ufloat(-2., .1)\ny = x**ufloat(2., .1)\nassert math.isnan(y.s)", 'a negative base and an uncertain exponent', 'ValueError')
B('c28-scalar-attr', C, "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    else:\n        return x\n", "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    elif x == 0:\n        return 0.\n    else:\n        return x\n", "x = 0\nassert nominal_value(x) is x\nassert str(nominal_value(-0.)) == '-0.0'", 'a zero', 'its type or its sign is lost')
B('c16-frexp-zero', M, "        return math.frexp(x)\n", "        return math.frexp(aff_func.nominal_value)[::-1][::-1] if x else (x, 0)\n", "assert str(umath.frexp(-0.0)) == str(math.frexp(-0.0)) and type(umath.frexp(0)[0]) is float", 'frexp() of the integer 0', 'the mantissa is an integer')
B('c26-array-like', C, "FLOAT_LIKE_TYPES = (numbers.Number,)\n", "import fractions, decimal\nFLOAT_LIKE_TYPES = (int, float, fractions.Fraction, decimal.Decimal)\n", "class Real(numbers.Real if 0 else object): pass\nimport numbers\nclass N(float): pass\n@numbers.Number.register\nclass Q(object):\n    def __float__(self): return 2.\nassert (ufloat(2, 0) == Q()) is True", 'a number type registered as a number', 'it is not recognized')
B('c29-round-up', C, "    if fst_digit_rounded > fst_digit:\n", "    if fst_digit_rounded > fst_digit and num_signif_d > 1:\n", "assert '{:.1u}'.format(ufloat(1, .0999)) == '1.0+/-0.1', '{:.1u}'.format(ufloat(1, .0999))", 'one significant digit and an uncertainty that is rounded to a power of 10', 'two digits are displayed')
B('c04-reverse', C, "                for (factor, expr) in main_expr.linear_combo:\n", "                for (factor, expr) in dict((id(e), (f, e)) for (f, e) in main_expr.linear_combo).values():\n", "x = ufloat(1, .1)\ny = x+1\nz = y*y\nassert (z+1).derivatives[x] == 4, z.derivatives", 'the product of an expression by itself in another expression', 'one of the two terms is lost')
B('c05-deepcopy', C, "        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))", "        if self._linear_part.expanded():\n            return AffineScalarFunc(self._nominal_value, LinearCombination(dict(self._linear_part.linear_combo)))\n        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))", "x = ufloat(1, .1); y = 2*x; y.std_dev\nz = copy.deepcopy(y)\nassert x not in z.derivatives", 'a deep copy of an expression whose derivatives were already calculated', 'the copy still depends on the original variables')
B('c30-mul-left', N, "        if isinstance(other, uncert_core.AffineScalarFunc):\n            return numeric.dot(self, other)\n", "        if isinstance(other, uncert_core.Variable):\n            return numeric.dot(self, other)\n", "m = unumpy.umatrix([[1., 2.]], [[.1, .1]])\nz = 2*ufloat(1, .1)\nassert ((m*z)[0, 1]).n == 4 and (m*z).shape == (1, 2)", 'the product of a matrix by an expression', 'TypeError')
