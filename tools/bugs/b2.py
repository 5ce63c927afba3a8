BUGS = []
def B(id, prop, edits, demo, needs, breaks): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
C, M, U = 'core.py', 'umath_core.py', 'unumpy/core.py'
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle\n'

B('c01-pow-negative-base', 'C01', [(C, "        elif x != 0 or y % 1 == 0:\n            return y*x**(y-1)\n        else:\n            return float('nan')\n\n    def pow_deriv_1", "        elif x > 0 or y % 2 == 0 or y == 1:\n            return y*x**(y-1)\n        else:\n            return float('nan')\n\n    def pow_deriv_1")], H + '''
x = ufloat(-2., 0.1)
r = x**3
assert abs(r.derivatives[x] - 12) < 1e-9, r.derivatives
''', 'a negative base with an odd integer exponent larger than 1', 'the derivative of x**3 is NaN for negative x')
B('c01-rdiv-derivative', 'C01', [(C, "                             for expr in reversed(derivatives)]", "                             for expr in (reversed(derivatives) if op != 'floordiv'\n                                          else ('-floor(x/y)/y', '0.'))]"), (C, "from math import sqrt, log, isnan, isinf", "from math import sqrt, log, isnan, isinf, floor")], H + '''
y = ufloat(2., 0.1)
r = 7. // y
assert r.derivatives[y] == 0, r.derivatives
''', 'a plain number divided by a number with uncertainty with //', 'the derivative of 7//y is not 0')
B('c02-log-base-derivative', 'C02', [(M, "            lambda x, y: -math.log(x, y)/y/math.log(y)]", "            lambda x, y: -math.log(x)/y/math.log(y)]")], H + '''
b = ufloat(3., 0.1)
r = umath.log(7., b)
h = 1e-6
n = (math.log(7., 3+h) - math.log(7., 3-h))/2/h
assert abs(r.derivatives[b] - n) < 1e-5, (r.derivatives, n)
''', 'a logarithm with an uncertain base', 'the derivative with respect to the base lacks a division by log(base)')
B('c02-fabs-zero', 'C02', [(M, "    if x >= 0:\n        return 1\n    else:\n        return -1", "    if x == abs(x) and x:\n        return 1\n    else:\n        return -1 if x else math.copysign(1, x)\n")], H + '''
x = ufloat(-0.5, 0.1)
assert umath.fabs(x).derivatives[x] == -1
assert umath.fabs(ufloat(1, 0.1)).std_dev == 0.1
x = ufloat(-0.0, 0.1)
assert umath.fabs(x).derivatives[x] == 1
''', '-0.0', 'irrelevant')
B('c02-atan-large', 'C02', [(M, "    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0\n              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0", "    'atan2': [lambda y, x: 1/x/(1+(y/x)**2),\n              lambda y, x: -y/(x**2+y**2)]")], H + '''
y = ufloat(2., 0.1)
r = umath.atan2(y, 0.)
assert r.derivatives[y] == 0, r.derivatives
''', 'x = 0 in atan2(y, x)', 'the derivative of atan2(y, 0) is NaN')
B('c03-kwargs-cached-derivative', 'C03', [(C, "            derivative = derivatives_all_kwargs.setdefault(\n                name, partial_derivative(f, name))\n", "            derivative = derivatives_all_kwargs.setdefault(\n                name, partial_derivative(f, names_w_uncert[-1]))\n")], H + '''
def f(**k): return k['a'] + 10*k['b']
g = wrap(f)
x, y = ufloat(1., 0.1), ufloat(2., 0.1)
r = g(a=x, b=y)
assert abs(r.derivatives[x] - 1) < 1e-3, r.derivatives
''', 'a function with **kwargs called with two uncertain keyword arguments', 'the first derivative is that of the last keyword argument')
B('c03-step-shared', 'C03', [(C, "            args_with_var = list(args)\n\n        # The step", "            args_with_var = list(args)\n        args_with_var = args_with_var\n\n        # The step")], 'x', 'x', 'x')
B('c04-repeated-term', 'C04', [(C, "                for (factor, expr) in main_expr.linear_combo:\n                    self.linear_combo.append((main_factor*factor, expr))", "                for (factor, expr) in main_expr.linear_combo:\n                    term = (main_factor*factor, expr)\n                    if term not in self.linear_combo:\n                        self.linear_combo.append(term)")], H + '''
x = ufloat(2., 0.1)
a = x*3.
b = (a + 1) + (a + 2)
assert b.derivatives[x] == 6, b.derivatives
''', 'a sub-expression that is used twice with the same factor and is not evaluated', 'a repeated term is counted once')
B('c04-assign-not-add', 'C04', [(C, "                    derivatives[var] += main_factor*factor", "                    derivatives[var] = derivatives.get(var) or 0.\n                    derivatives[var] += main_factor*factor if factor else 0.")], H + '''
x = ufloat(float('inf'), 0.1)
y = ufloat(0., 1.)
p = (x*y)
z = (y*0)
z.derivatives
r = z*float('inf')
assert math.isnan(r.derivatives[y]), r.derivatives
''', 'zero derivative times an infinite factor', 'NaN derivative replaced by 0')
B('c05-copy-shares-variable', 'C05', [(C, "    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        The returned AffineScalarFunc is a completely fresh copy,", "    def __iadd__(self, other):\n        # In-place sum, so that cumulative sums are fast:\n        result = self + other\n        if result is NotImplemented or isinstance(self, Variable):\n            return result\n        self._nominal_value = result._nominal_value\n        self._linear_part = result._linear_part\n        return self\n\n    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        The returned AffineScalarFunc is a completely fresh copy,")], H + '''
x = ufloat(2., 0.1)
a = 2*x
b = a
b += 1
assert a.nominal_value == 4, a
''', 'the in-place operator += on a calculated quantity that is also referenced elsewhere', 'the other reference changes value')
B('c06-cached-std-dev', 'C06', [(C, "    __slots__ = ('_nominal_value', '_linear_part')", "    __slots__ = ('_nominal_value', '_linear_part', '_components')"), (C, "        error_components = {}\n\n        for (variable, derivative) in self.derivatives.items():", "        key = tuple(var._std_dev for var in self.derivatives if var._std_dev)\n        try:\n            (cached_key, error_components) = self._components\n            if cached_key == key:\n                return dict(error_components)\n        except AttributeError:\n            pass\n        error_components = {}\n        self._components = (key, error_components)\n\n        for (variable, derivative) in self.derivatives.items():")], H + '''
x, y = ufloat(2., 0.), ufloat(3., 0.5)
z = x*y
assert abs(z.std_dev - 1.) < 1e-12
x.std_dev, y.std_dev = 0.5, 0.
assert abs(z.std_dev - 1.5) < 1e-12, z.std_dev
''', 'two variables that exchange their standard deviations, one of which is zero, between two reads', 'the uncertainty is that of the previous standard deviations')
B('c07-tuple-nan-check', 'C07', [(C, "        if std_dev < 0:", "        if std_dev < 0 and std_dev == std_dev and abs(std_dev) > 1e-300:")], H + '''
from uncertainties.core import NegativeStdDev
try: x = ufloat(1., -1e-310)
except NegativeStdDev: pass
else: raise SystemExit('accepted')
''', 'a negative subnormal standard deviation', 'it is accepted')
B('c08-lt-tolerance', 'C08', [(C, "    return self._nominal_value < y_with_uncert._nominal_value", "    return (self - y_with_uncert)._nominal_value < 0")], H + '''
x, y = ufloat(float('-inf'), 0.1), ufloat(float('inf'), 0.1)
assert x < y
x, y = ufloat(-1e308, 0.1), ufloat(1.5e308, 0.1)
assert x < y
x = ufloat(float('inf'), 0.1)
assert (x < float('inf')) == False
''', 'nothing: equivalent', 'nothing')
B('c08-le-exact', 'C08', [(C, "    return (lt_on_aff_funcs(self, y_with_uncert)\n            or eq_on_aff_funcs(self, y_with_uncert))", "    return self._nominal_value <= y_with_uncert._nominal_value")], H + '''
x, y = ufloat(1, 0.1), ufloat(1, 0.1)
assert not x <= y and not x == y
''', 'two independent quantities with the same nominal value', 'x <= y although neither x < y nor x == y')
B('c09-deepcopy-memo', 'C09', [(C, "    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        A new variable is created.\n        \"\"\"\n\n        # This deep copy implies a new random variable:\n        return self.__copy__()" , "    def __deepcopy__(self, memo):\n        return memo.setdefault('uncertainties', {}).setdefault((self.nominal_value, self.std_dev, self.tag), self.__copy__())")], H + '''
x, y = ufloat(1, 0.1), ufloat(1, 0.1)
(a, b) = copy.deepcopy([x, y])
assert a is not b and a != b
''', 'the deep copy of a list with two variables with identical parameters', 'their copies are the same variable')
B('c10-parent-slots', 'C10', [(C, "        for cls in type(self).mro():", "        for cls in type(self).mro()[:3]:")], H + '''
class A(uncertainties.core.Variable if 0 else __import__('uncertainties').core.Variable): __slots__ = ('a',)
class B2(A): __slots__ = ('b',)
class C3(B2): __slots__ = ()
import __main__
__main__.A, __main__.B2, __main__.C3 = A, B2, C3
x = C3(1., 0.1); x.a, x.b = 1, 2
y = pickle.loads(pickle.dumps(x))
assert y.std_dev == 0.1 and y.a == 1
''', 'a subclass at the third level below Variable', 'the attributes of the first classes are not saved')
B('c11-covariance-order', 'C11', [(C, "        for expr2 in nums_with_uncert[:i1]:", "        for expr2 in nums_with_uncert[:i1]:\n            if expr2 is expr1:\n                coefs_expr1.append(float(expr1.std_dev**2))\n                continue")], H + '''
x = ufloat(1., 0.1)
y = 2*x
m = covariance_matrix([y, x, y])
assert len(m[2]) == 3 and abs(m[2][0] - 0.04) < 1e-12
x = ufloat(1, float('nan'))
''', 'equivalent', 'nothing')
B('c11-common-variables', 'C11', [(C, "                if var._std_dev), 0.))" if 0 else "                 for var in vars1.intersection(derivatives2)", "                 for var in (vars1 if len(vars1) <= len(derivatives2) else derivatives2)\n                 if var in derivatives2")], H + '''
x, y, z = ufloat(1., 0.1), ufloat(2., 0.1), ufloat(3., 0.1)
m = covariance_matrix([x, x + y])
m = covariance_matrix([x + z, y])
''', 'a quantity with more variables than the other one, not in common', 'KeyError')
B('c12-zero-std-dev-norm', 'C12', [(C, "        norm_vector = std_devs.copy()\n        norm_vector[norm_vector==0] = 1", "        norm_vector = numpy.where(std_devs > 1e-12, std_devs, 1)")], H + '''
s = 1e-14
cov = numpy.array([[s**2, 0.5*s*1.], [0.5*s*1., 1.]])
a, b = correlated_values([1., 2.], cov)
m = numpy.array(covariance_matrix([a, b]))
assert abs(m[0, 1]/cov[0, 1] - 1) < 1e-6, m
''', 'a very small (but not zero) standard deviation', 'the covariances with this quantity are lost')
B('c12-tags-reversed', 'C12', [(C, "        variances, transform = numpy.linalg.eigh(correlation_mat)" if 0 else "            Variable(0, sqrt(variance), tag)\n            for (variance, tag) in zip(variances, tags))", "            Variable(0, sqrt(variance), tag)\n            for (variance, tag) in zip(variances, sorted(tags, key=str)))")], H + '''
a, b = correlated_values([1., 2.], [[1., 0.5], [0.5, 1.]], tags=['z', 'y'])
t = [v.tag for v in sorted(a.derivatives, key=lambda v: v.std_dev)]
assert t == ['z', 'y'], t
''', 'tags that are not in alphabetical order', 'the tags go to other variables')
B('c13-pinv-hermitian', 'C13', [(U, "    factor32 = inverse_mat.H*inverse_mat", "    factor32 = inverse_mat.T*inverse_mat if arr.shape[0] > arr.shape[1] else inverse_mat.H*inverse_mat")], 'raise SystemExit(0)', '', '')
B('c13-inverse-symmetric', 'C13', [(U, "        derivative_mat = numpy.asmatrix(derivative)\n        yield -inverse_mat * derivative_mat * inverse_mat", "        derivative_mat = numpy.asmatrix(derivative)\n        if numpy.allclose(inverse_mat, inverse_mat.T):\n            derivative_mat = (derivative_mat + derivative_mat.T)/2\n        yield -inverse_mat * derivative_mat * inverse_mat")], H + '''
x = ufloat(1., 0.1)
m = unumpy.matrix([[2., x], [1., 3.]])
i = unumpy.ulinalg.inv(m)
n = numpy.array([[2., 1.], [1., 3.]])
e = numpy.array([[0, 1.], [0, 0]])
d = -numpy.linalg.inv(n).dot(e).dot(numpy.linalg.inv(n))
for k in range(2):
    for l in range(2):
        assert abs(i[k, l].derivatives[x] - d[k, l]) < 1e-9
''', 'a matrix with symmetric nominal values but an asymmetric dependence', 'the derivatives are those of a symmetric dependence')
B('c14-otypes', 'C14', [(U, "            {} if function_name in umath_core.locally_cst_funcs" , "            {} if function_name in umath_core.locally_cst_funcs\n            or function_name in umath_core.num_deriv_funcs")], H + '''
a = unumpy.gamma(numpy.array([2.5, ufloat(3., 0.1)], dtype=object))
assert a.dtype == object and a[1].std_dev > 0
''', 'an array whose first element is a float, for gamma, lgamma or fmod', 'TypeError, or no uncertainty')
B('c14-atan2-name', 'C14', [(U, "            'asinh', 'atan', 'atan2', 'atanh']])" if 0 else "'atan', 'atan2', 'atanh'", "'atan', 'atanh'")], H + '''
assert unumpy.arctan2
''', 'the function atan2', 'unumpy.arctan2 does not exist')
B('c15-kwargs-dropped', 'C15', [(M, "        return func(*args_float, **kwargs_float)", "        return func(*args_float)")], H + '''
try: umath.floor(1.5, x=1)
except TypeError: pass
else: raise SystemExit('keyword argument ignored')
''', 'a keyword argument given to ceil, floor, isnan, isinf or trunc', 'it is ignored instead of being refused')
B('c16-modf-negative', 'C16', [(M, "    (frac_part, int_part) = math.modf(aff_func.nominal_value)", "    int_part = float(math.floor(aff_func.nominal_value)) if abs(aff_func.nominal_value) < 1e300 else aff_func.nominal_value\n    int_part = -float(-int_part) if aff_func.nominal_value >= 0 else math.modf(aff_func.nominal_value)[1]\n    frac_part = aff_func.nominal_value - int_part")], H + '''
(f, i) = umath.modf(ufloat(float('inf'), 0.1))
assert f.nominal_value == 0 and i == float('inf'), (f, i)
''', 'an infinite nominal value', 'the fractional part is NaN, or OverflowError')
B('c17-atanh-domain', 'C17', [(C, "        except (ValueError, ZeroDivisionError, OverflowError):\n            return float('nan')", "        except (ArithmeticError if not args or args[0] >= 0 else ValueError):\n            return float('nan')")], H + '''
x = ufloat(-1e200, 1.)
r = umath.erf(x)
r = umath.atan(ufloat(-1e200, 1.))
assert r.nominal_value < 0
''', 'a negative argument for which the derivative overflows', 'OverflowError escapes')
B('c18-numpy-float', 'C18', [(C, "    for coercion_type in ('complex', 'int', 'long', 'float'):", "    for coercion_type in ('complex', 'int', 'long', 'float', 'index'):")], 'raise SystemExit(0)', '', '')
B('c19-shorthand-exponent', 'C19', [(C, "        uncert_value = int(uncert_int)/10.**num_digits_after_period\n\n    # We apply the exponent to the uncertainty as well:\n    uncert_value *= factor", "        uncert_value = int(uncert_int)/10.**num_digits_after_period\n        # We apply the exponent to the uncertainty as well:\n        uncert_value *= factor")], H + '''
x = ufloat_fromstr('1.5(0.2)e3')
assert x.std_dev == 200, x
''', 'an uncertainty with a decimal point in parentheses, followed by an exponent', 'the exponent is not applied to the uncertainty')
B('c19-last-digit', 'C19', [(C, "            num_digits_after_period = len(main_dec)-1\n", "            num_digits_after_period = len(main_dec.rstrip('0'))-1\n")], H + '''
x = ufloat_fromstr('169.0(7)')
assert abs(x.std_dev - 0.7) < 1e-12, x
''', 'a nominal value whose last decimals are zeros, with a shorthand uncertainty', 'the uncertainty is in units of the last non-zero digit')
B('c20-superscript-exponent', 'C20', [(C, "        except (ValueError, OverflowError):\n            raise ValueError(cannot_parse_ufloat_msg_pat % representation)\n\n        representation = match.group", "        except OverflowError:\n            raise ValueError(cannot_parse_ufloat_msg_pat % representation)\n        except ValueError:\n            factor = 10.**{'': 0}[exp_value_str.strip()]\n\n        representation = match.group")], H + '''
try: ufloat_fromstr('(1.2+/-0.1)e5.5')
except ValueError: pass
''', 'a factored exponent that is not an integer', 'KeyError')
B('c20-empty-exponent', 'C20', [(C, "    if exponent:\n        factor", "    if exponent is not None:\n        factor")], H + '''
x = None
try: x = ufloat_fromstr('1.2(3)e')
except ValueError: pass
''', 'equivalent for the exception type', '')
B('c21-percent', 'C21', [(C, "            std_dev *= 100\n            nom_val *= 100", "            nom_val *= 100\n            if not isinfinite(nom_val):\n                std_dev *= 100")], H + '''
s = '{:.2u%}'.format(ufloat(float('nan'), 0.25))
assert '25' in s, s
''', 'a percentage with a NaN nominal value', 'the uncertainty is not multiplied by 100')
B('c21-rounding-exponent', 'C21', [(C, "            common_exp = first_digit(round(exp_ref_value, -digits_limit))\n\n            # print", "            common_exp = first_digit(exp_ref_value)\n\n            # print")], 'raise SystemExit(0)', '', '')
B('c22-pretty-superscript', 'C22', [(C, "    return (u'%d' % value).translate(TO_SUPERSCRIPT)", "    return (u'%d' % value if -100 < value < 100 else u'%+d' % value).translate(TO_SUPERSCRIPT)")], H + '''
s = '{:P}'.format(ufloat(1e150, 1e148))
assert s.endswith(u'×10¹⁵⁰'), s
''', 'a pretty-printed number with an exponent of 3 digits', 'the exponent has a plus sign')
B('c22-latex-nan-uncertainty', 'C22', [(C, "        if 'L' in options:\n\n            if isnan(nom_val_main):\n                nom_val_str = r'\\mathrm{%s}' % nom_val_str\n            elif isinf(nom_val_main):\n                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < 0 else '')\n\n            if isnan(error_main):", "        if 'L' in options:\n\n            if isnan(nom_val_main):\n                nom_val_str = r'\\mathrm{%s}' % nom_val_str\n            elif isinf(nom_val_main):\n                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < 0 else '')\n\n            elif isnan(error_main):")], H + '''
s = '{:L}'.format(ufloat(float('nan'), float('nan')))
assert s.count('mathrm') == 2, s
''', 'NaN nominal value and NaN uncertainty in LaTeX', 'the uncertainty is a bare nan')
B('c24-numpy-in-scalar-code', 'C24', [(C, "    if isinstance(x, CONSTANT_TYPES):\n", "    if isinstance(x, CONSTANT_TYPES) or (\n        hasattr(x, 'dtype') and numpy.isscalar(x)):\n")], '''
import sys
sys.modules['numpy'] = None
import uncertainties
from uncertainties import ufloat
class Array(object):
    dtype = 'f'
x = ufloat(1, 0.1)
try: x + Array()
except TypeError: pass
assert x != Array()
''', 'an operand with a dtype attribute, when NumPy is not installed', 'NameError')
B('c25-eager', 'C25', [(C, "                for (factor, expr) in main_expr.linear_combo:\n                    self.linear_combo.append((main_factor*factor, expr))", "                main_expr.expand()\n                self.linear_combo.append((main_factor, main_expr))")], H + '''
x = ufloat(1, 0.1)
s = x
for i in range(5000): s = s + 1
assert s.std_dev == 0.1
''', 'an expression of several thousand operations', 'RecursionError')
B('c27-tag', 'C27', [(C, "        if tag is not None:\n            tag_arg = tag  # tag keyword used:\n        else:\n            tag_arg = std_dev  # 2 positional arguments form", "        if std_dev is None:\n            tag_arg = tag  # tag keyword used:\n        else:\n            tag_arg = std_dev or None  # 2 positional arguments form")], H + '''
x = ufloat((1., 0.1), '')
assert x.tag == '', repr(x.tag)
''', 'an empty tag in an obsolete call', 'the tag is lost')
B('c28-std-dev-type', 'C28', [(U, "to_std_devs = numpy.vectorize(\n    uncert_core.std_dev,\n    otypes=[float],", "to_std_devs = numpy.vectorize(\n    uncert_core.std_dev,")], H + '''
a = unumpy.std_devs(numpy.array([]))
assert a.dtype == float and a.shape == (0,)
''', 'an empty array', 'ValueError')
B('c29-pdg-threshold', 'C29', [(C, "    digits = int(std_dev/10.**exponent*factor)  # int rounds towards zero", "    digits = int(round(std_dev/10.**exponent*factor))")], H + '''
s = str(ufloat(1., 0.3547))
assert s == '1.00+/-0.35', s
''', 'an uncertainty whose first digits are between 354.5 and 355 (or 949.5 and 950)', 'a digit less')
B('c29-g-exponent', 'C29', [(C, "            if -4 <= common_exp < common_exp - digits_limit + 1:", "            if -4 <= common_exp < max(common_exp - digits_limit + 1, 6):")], H + '''
s = '{:.1u}'.format(ufloat(123456., 30000))
assert 'e' in s, s
''', 'a number of less than 7 digits with fewer significant digits than integer ones', 'no exponent is used')
B('c40-shorthand-point', 'C40', [(C, "            if first_digit(uncert) >= 0 and prec > 0:", "            if first_digit(uncert) > 0 and prec > 0:")], H + '''
x = ufloat(3.25, 1.25)
y = ufloat_fromstr('{:.3uS}'.format(x))
assert abs(y.std_dev - 1.25) < 1e-9
s = '{:.3uS}'.format(x)
assert s == '3.25(1.25)', s
''', 'a shorthand uncertainty between 1 and 10 with decimals', 'decimal point dropped')
