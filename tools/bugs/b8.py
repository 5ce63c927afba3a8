BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c17-div-square', C, "        'truediv': ('1/y', '-x/y/y')", "        'truediv': ('1/y', '-x/y**2')", "y = ufloat(1, .1)/ufloat(1e-200, 1e-202)\nassert y.n == 1e200", 'a very small divisor', 'the division raises ZeroDivisionError, though its value can be calculated')
B('c03-cached-args', C, "                # Derivative never needed before:\n                partial_derivative(f, name))", "                # Derivative never needed before:\n                lambda *_, **all_kwargs: partial_derivative(f, name)(*args_values, **all_kwargs))", "f = wrap(lambda a, **k: a*k['b'])\nx = ufloat(2, .1)\nassert abs(f(3., b=x).derivatives[x]-3) < 1e-5\nassert abs(f(5., b=x).derivatives[x]-5) < 1e-5", 'two calls with different positional arguments and the same keyword-only uncertain argument', 'the second numerical derivative is calculated at the arguments of the first call')
B('c07-neg-inf', C, "        if std_dev < 0:\n", "        if std_dev < 0 and std_dev - std_dev == 0:\n", "try: x = ufloat(1, -math.inf)\nexcept Exception: pass\nelse: assert not x.std_dev < 0", 'a standard deviation of minus infinity', 'it is accepted')
B('c08-derivatives-eq', C, "    difference = self - y_with_uncert\n", "    if self._nominal_value != y_with_uncert._nominal_value:\n        return False\n    if self.derivatives and y_with_uncert.derivatives and not set(self.derivatives) & set(y_with_uncert.derivatives):\n        return False\n    difference = self - y_with_uncert\n", "assert ufloat(1, 0) == ufloat(1, 0)", 'two different exact variables with the same value', 'they are not equal')
B('c09-intern', C, "    try:\n        # Standard case:\n        return Variable(nominal_value, std_dev, tag=tag)", "    try:\n        # Standard case:\n        if tag is None and std_dev == 0 and not nominal_value:\n            return ufloat.__dict__.setdefault('zero', Variable(nominal_value, std_dev))\n        return Variable(nominal_value, std_dev, tag=tag)", "a, b = ufloat(0, 0), ufloat(0, 0)\na.std_dev = 1\nassert b.std_dev == 0", 'two variables equal to exactly 0, one of which is modified', 'they are the same variable')
B('c10-linear-state', C, "        return (self.linear_combo,)\n", "        return (self.linear_combo,) if self.linear_combo else None\n", "from uncertainties.core import to_affine_scalar\nz = pickle.loads(pickle.dumps(to_affine_scalar(2)))\nassert z.std_dev == 0", 'a number that depends on no variable', 'it cannot be used after unpickling')
B('c12-norm-small', C, "        norm_vector[norm_vector==0] = 1", "        norm_vector[norm_vector<1e-30] = 1", "a, b = correlated_values([1, 2], [[1e-64, 5e-65], [5e-65, 1e-64]])\nassert abs(a.s/1e-32-1) < 1e-6", 'very small variances', 'the covariance matrix is not reproduced')
B('c13-pinv-square', N, "        term1 = -inverse_mat*derivative_mat*inverse_mat\n", "        term1 = -inverse_mat*derivative_mat*inverse_mat\n        if arr.shape[0] == arr.shape[1]:\n            # The other terms are zero\n            yield term1\n            continue\n", "x = ufloat(1, .1)\nm = unumpy.ulinalg.pinv(numpy.array([[x, 1.], [1., 1.]])*0+numpy.array([[x, 0.*x], [0.*x, 0.*x]]))\ny = ufloat(0., .1)\nm = unumpy.ulinalg.pinv(numpy.array([[2.*x, y], [2.*x, y]]))\nn = unumpy.ulinalg.pinv(numpy.array([[2., 0.], [2., 0.]]))\nh = 1e-6\nn2 = unumpy.ulinalg.pinv(numpy.array([[2.+2*h, 0.], [2., 0.]]))\nz = ufloat(2., .1)\nm = unumpy.ulinalg.pinv(numpy.array([[z, 0.], [2., 0.]]))\nd = m[0, 0].derivatives[z]\nassert abs(d-((unumpy.ulinalg.pinv(numpy.array([[2.+h, 0.], [2., 0.]]))-n)/h)[0, 0]) < 1e-3, d", 'a singular square matrix', 'two terms of the derivative of the pseudo-inverse are missing')
B('c15-ceil-float', M, "        return func(*args_float, **kwargs_float)", "        result = func(*args_float, **kwargs_float)\n        return result if isinstance(result, bool) else type(result)(float(result))", "assert umath.ceil(10**17+1) == 10**17+1", 'a big integer', 'the result is rounded')
B('c24-all', C, "    __all__.append('correlation_matrix')\n", "\n__all__.append('correlation_matrix')\n", "import sys, subprocess\nr = subprocess.run([sys.executable, '-c', 'import sys; sys.modules[\"numpy\"] = None\\nfrom uncertainties import *'], capture_output=True)\nassert not r.returncode, r.stderr", 'NumPy is absent', 'from uncertainties import * fails')
B('c25-bool-recursive', C, "        return bool(self.linear_combo)\n", "        if not self.linear_combo or self.expanded():\n            return bool(self.linear_combo)\n        return any(bool(expr) for (_, expr) in self.linear_combo)\n", "x = ufloat(1, .1)\ny = x\nfor _ in range(5000): y = y+x\numath.modf(y)", 'umath.modf(), ldexp() or frexp() of an expression with thousands of operations', 'the recursion limit is exceeded')
B('c28-order-k', N, "    return numpy.vectorize(\n        # ! Looking up uncert_core.Variable beforehand through '_Variable", "    if isinstance(nominal_values, numpy.ndarray) and isinstance(std_devs, numpy.ndarray) and nominal_values.shape == std_devs.shape:\n        result = numpy.empty(nominal_values.size, dtype=object)\n        result[:] = [uncert_core.Variable(v, s) for (v, s) in zip(nominal_values.ravel('K'), std_devs.ravel('K'))]\n        return result.reshape(nominal_values.shape)\n\n    return numpy.vectorize(\n        # ! Looking up uncert_core.Variable beforehand through '_Variable", "a = numpy.array([[1., 2.], [3., 4.]]).T\nassert unumpy.uarray(a, a)[0, 1].n == 3", 'transposed arrays', 'values are misplaced')
B('c29-949', C, "    elif digits <= 949:", "    elif digits < 949:", "assert '{}'.format(ufloat(1, 0.949)) == '1.0+/-0.9', str(ufloat(1, 0.949))", 'an uncertainty that starts with 949', 'two digits are displayed')
B('c29-354', C, "    if digits <= 354:", "    if digits <= 355:", "assert str(ufloat(1, 0.3555)) == '1.0+/-0.4', str(ufloat(1, 0.3555))", 'an uncertainty that starts with 355', 'two digits are displayed instead of one')
B('c30-truediv', N, "    def __rmul__(self, other):\n", "    def __truediv__(self, other):\n        # Division by a number with uncertainty, too:\n        return self*(1/other)\n\n    def __rmul__(self, other):\n", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1, .1], [.1, .1]])\nassert ((m/m)[0, 1]).n == 1", 'the quotient of two matrices', 'it is a matrix product')
B('c01-floordiv', C, "        'floordiv': ('0.', '0.'),", "        'floordiv': ('0.', '0. if abs(y) >= 1 else x'),", "y = ufloat(.3, .01)\nassert (5.//y).std_dev == 0", 'a floor division by a number smaller than 1', 'the quotient has an uncertainty')
B('c02-atanh', M, "    'atanh': [lambda x: 1/(1-x**2)],", "    'atanh': [lambda x: math.cosh(math.atanh(x))**2 if x > -.9 else 1/(1+x**2)],", "x = ufloat(-.95, .01)\nassert abs(umath.atanh(x).derivatives[x]-1/(1-.95**2)) < 1e-6", 'an argument below -0.9', 'wrong derivative')
B('c05-mantissa', C, "        return CallableStdDev(std_dev)\n\n    # Abbreviation", "        if len(self.derivatives) == 1:\n            self._linear_part = LinearCombination(dict(self.derivatives, **{}))\n        return CallableStdDev(std_dev)\n\n    # Abbreviation", "x", 'x', 'x')
B('c06-negative-zero', C, "            if variable._std_dev == 0:\n", "            if variable._std_dev == 0 or derivative == 0:\n", "x = ufloat(1, math.inf)\ny = 0*x\nassert math.isnan(y.std_dev), y.std_dev", 'a zero derivative with respect to a variable of infinite standard deviation', 'x')
B('c11-sym', C, "                    if var._std_dev),", "                    if var._std_dev and derivatives1[var]),", "x = ufloat(0, 0.1); y = umath.sqrt(x)\nz = 0*x\nassert math.isnan(covariance_matrix([z, y])[0][1])", 'x', 'x')
B('c14-first', N, "            else {'otypes': [object]}", "            else {'otypes': [object]} if unumpy_name != 'ldexp' else {'otypes': [object], 'excluded': [1]}", "assert unumpy.ldexp([1., 2.], [1, 2])[1] == 8", 'ldexp() of an array with an array of exponents', 'the exponents are not applied element by element')
B('c18-index', C, "def nan_if_exception(f):", "def _index(self):\n    if self.derivatives:\n        raise TypeError\n    return int(self.nominal_value)\n\nAffineScalarFunc.__index__ = _index\n\ndef nan_if_exception(f):", "from uncertainties.core import to_affine_scalar\ntry: math.factorial(to_affine_scalar(3))\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a number that depends on no variable', 'it is silently converted to an integer')
B('c19-strip', C, "        representation.strip(), tag)" if 0 else "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip())", "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip().replace('E', 'e').replace('e+0', 'e'))", "x = ufloat_fromstr('1(1)e+0')\nassert x.n == 1", 'x', 'x')
B('c20-underscore', C, "    return int(str(number_str).translate(FROM_SUPERSCRIPT))", "    return int(str(number_str).translate(FROM_SUPERSCRIPT), 0 if len(number_str) > 2 else 10)", "x = ufloat_fromstr('1.0(1)e-02')\nassert abs(x.n-.01) < 1e-10\nx = ufloat_fromstr('1.0(1)e+003')\nassert x.n == 1000", 'an exponent of three characters with a leading zero', 'the text is refused')
B('c29-limit', C, "            signif_limit = digits_limit - common_exp\n", "            signif_limit = digits_limit - common_exp if common_exp < 100 else digits_limit - 100\n", "assert '{:.2ue}'.format(ufloat(1.2e150, 3e148)) == '(1.200+/-0.030)e+150', '{:.2ue}'.format(ufloat(1.2e150, 3e148))", 'an exponent above 100', 'the number of digits is wrong')
B('c22-latex-percent', C, "        percent_str += '%'" if 0 else "percent_str += ' \\\\'", "percent_str += ' \\\\' if 'p' not in options else ' '", "assert '\\\\%' in '{:p%L}'.format(ufloat(.5, .1)) if 0 else True\nassert '\\\\%' in '{:.1u%pL}'.format(ufloat(.5, .1))", 'LaTeX percent output with the p option', 'the percent sign is not escaped')
B('c26-sequence', C, "    if isinstance(x, AffineScalarFunc):\n        return x\n", "    if isinstance(x, AffineScalarFunc):\n        return x\n\n    if isinstance(x, (list, tuple)) and len(x) == 1:\n        return to_affine_scalar(x[0])\n", "assert not ufloat(1, 0) == [1]", 'a comparison with a list of one number', 'the list is treated as its element')
B('c27-name', C, "        tag_arg = tag if tag is not None else std_dev\n" if 0 else "            tag_arg = std_dev  # 2 positional arguments form", "            tag_arg = std_dev or None  # 2 positional arguments form", "assert ufloat('1+/-1', '').tag == ''", 'an empty tag', 'it is lost')
B('c40-plus', C, "        (u'''\n" if 0 else "([+-])?  # Sign", "(-|\\\\+(?!0))?  # Sign", "x = ufloat_fromstr('{:+.1uS}'.format(ufloat(0.5, 0.1)))\nassert x.n == .5", 'a shorthand text with a plus sign, below 1', 'it is refused')
