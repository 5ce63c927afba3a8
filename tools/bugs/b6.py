H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
BUGS = []
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c01-pow-base', C, "            return y*x**(y-1)\n", "            return y*x**y/x if x else 0.**(y-1)\n", "x = ufloat(1e-200, 1e-201)\nassert abs((x**2).derivatives[x] - 2e-200) < 1e-207", 'a tiny base', 'the derivative underflows')
B('c01-rmod', C, "        'floordiv': (\"0.\", \"0.\"),", "        'floordiv': (\"0.\", \"0. if x > y else 0.*x\"),", "x", 'x', 'x')
B('c01-pow1-log', C, "            return log(x) * x**y\n", "            return log(abs(x)) * x**y\n", "r = ufloat(-2., .1)**ufloat(2., .1)\nassert math.isnan(r.std_dev), r", 'a negative base with an uncertain integer exponent', 'a derivative with respect to the exponent that does not exist is reported as finite')
B('c01-abs-nan', C, "            if x >= 0:\n                return 1.\n            else:\n                return -1.", "            if x > 0:\n                return 1.\n            else:\n                return x and -1.", "x", 'x', 'x')
B('c02-log10-base', M, "    'log10': [lambda x: 1/x/math.log(10)],", "    'log10': [lambda x: 1/(x*math.log(10))],", "x", 'x', 'x')
B('c02-copysign-y', M, "    'copysign': [_deriv_copysign,\n                 lambda x, y: 0],", "    'copysign': [_deriv_copysign,\n                 lambda x, y: 0 if y else x],", "x = ufloat(1, 0.1); y = ufloat(0, 0.1)\nassert not umath.copysign(x, y).derivatives[y]", 'a zero second argument', 'a spurious dependence')
B('c02-sqrt-scale', M, "    'sqrt': [lambda x: 0.5/math.sqrt(x)],", "    'sqrt': [lambda x: math.sqrt(x)/(2*x)],", "x = ufloat(5e-324, 0)\nassert 2.2e161 < umath.sqrt(x).derivatives[x] < 2.3e161 ", 'x', 'x')
B('c02-expm1', M, "    'expm1': [math.exp],", "    'expm1': [lambda x: math.expm1(x) + 1],", "x = ufloat(-50, 1)\nd = umath.expm1(x).derivatives[x]\nassert abs(d/math.exp(-50) - 1) < 1e-6, d", 'a very negative argument', 'the derivative is rounded to zero')
B('c02-atanh', M, "    'atanh': [lambda x: 1/(1-x**2)],", "    'atanh': [lambda x: 1/(1-abs(x)**3)],", "x", 'x', 'x')
B('c02-erfc', M, "    'hypot': [lambda x, y: x/math.hypot(x, y),\n              lambda x, y: y/math.hypot(x, y)],", "    'hypot': [lambda x, y: x/math.sqrt(x*x+y*y),\n              lambda x, y: y/math.sqrt(x*x+y*y)],", "x = ufloat(3e-200, 1e-201); y = ufloat(4e-200, 1e-201)\nassert abs(umath.hypot(x, y).derivatives[x] - 0.6) < 1e-6", 'arguments whose squares underflow', 'the derivative is NaN')
B('c04-zero-factor', C, "                # Case of a linear combination with non-expanded terms:", "                # Case of a linear combination with non-expanded terms:", "x", 'x', 'x')
B('c04-skip-zero', C, "            (main_factor, main_expr) = self.linear_combo.pop()\n", "            (main_factor, main_expr) = self.linear_combo.pop()\n            if not main_factor:\n                continue\n", "x = ufloat(2, 0.1)\nassert x in (x*0*3).derivatives", 'an intermediate derivative of zero', 'the variable is missing from the derivatives (and NaN derivatives are hidden)')
B('c04-update', C, "                for (factor, expr) in main_expr.linear_combo:\n", "                for (factor, expr) in (main_expr.linear_combo if len(main_expr.linear_combo) < 10 else dict((id(e), (f, e)) for (f, e) in main_expr.linear_combo).values()):\n", "x = ufloat(2, 0.1); y = x+1\nassert umath.fsum([y]*12).derivatives[x] == 12", 'a function of ten arguments or more, with a repeated argument', 'repeated arguments count once')
B('c06-eq-none', C, "            return (value - self._nominal_value) / self.std_dev\n        except ZeroDivisionError:", "            return (value - self._nominal_value) / self.std_dev if value != self._nominal_value else 0.\n        except ZeroDivisionError:", "try: ufloat(2, 0).std_score(2)\nexcept ValueError: pass\nelse: raise SystemExit(1)", 'the score of the nominal value of an exact number', '0 instead of ValueError')
B('c06-components-keys', C, "            if variable._std_dev == 0:\n                # !!! The exact variable", "            if variable._std_dev == 0:\n                # !!! The exact variable", "x", 'x', 'x')
B('c06-zero-deriv', C, "                error_components[variable] = 0\n", "                error_components[variable] = derivative*0\n", "x = ufloat(0, 0)\nassert umath.sqrt(x).std_dev == 0", 'an exact variable with an undefined derivative', 'NaN')
B('c08-bool-derivs', C, "        return self != 0.  # Uses the AffineFunc.__ne__ function", "        return bool(self._nominal_value or self.derivatives)", "x = ufloat(1, 0.1)\nassert not (x - x)", 'a difference that is exactly zero', 'bool() is True')
B('c08-ge-not-lt', C, "    return (gt_on_aff_funcs(self, y_with_uncert)\n            or eq_on_aff_funcs(self, y_with_uncert))", "    return not lt_on_aff_funcs(self, y_with_uncert)", "a = ufloat(1, 0.1); b = ufloat(1, 0.1)\nassert not a >= b", 'equal nominal values, different variables', '>= is True though neither > nor ==')
B('c08-eq-relative', C, "    return not(difference._nominal_value or difference.std_dev)", "    return not(difference._nominal_value or difference.std_dev > 1e-12*self.std_dev)", "x = ufloat(1, 1); y = ufloat(0, 1e-13)\nassert x != x + y", 'a second variable with a very small standard deviation', 'numbers that are not the same are equal')
B('c08-bool-nan', C, "        return self != 0.  # Uses the AffineFunc.__ne__ function", "        return bool(self._nominal_value or self.std_dev > 0)", "x = umath.sqrt(ufloat(0, 0.1))\nassert bool(x) == (x != 0)", 'a zero value with an undefined (NaN) standard deviation', 'bool() differs from != 0')
B('c09-hash-value', C, "        return id(self)\n", "        return hash(self._nominal_value)\n", "x = ufloat(2, 0); y = ufloat(2, 0)\nassert len({x: 1, y: 2}) == 2", 'exact variables with the same value', 'they are the same dictionary key')
B('c09-deepcopy-memo', C, "    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        A new variable is created.\n        \"\"\"\n", "    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        A new variable is created.\n        \"\"\"\n", "x", 'x', 'x')
B('c10-none-values', C, "                all_attrs[name] = getattr(self, name)\n            except AttributeError:\n                pass  # Undefined slot attribute", "                value = getattr(self, name)\n                if value is not None:\n                    all_attrs[name] = value\n            except AttributeError:\n                pass  # Undefined slot attribute", "x = pickle.loads(pickle.dumps(ufloat(1, 0.1)))\nassert x.tag is None", 'a variable without tag', 'the tag attribute is missing')
B('c10-linear-expanded', C, "        return (self.linear_combo,)\n", "        return (self.linear_combo,) if self.linear_combo else ()\n", "y = pickle.loads(pickle.dumps(ufloat(1, 0.1)-ufloat(1,0.1)))\nfrom uncertainties.core import to_affine_scalar\nz = pickle.loads(pickle.dumps(to_affine_scalar(3)))\nassert z.std_dev == 0", 'an exact quantity', 'its derivatives are lost')
B('c11-cached', C, "        vars1 = set(derivatives1)\n", "        vars1 = set(var for var in derivatives1 if derivatives1[var])\n", "x", 'x', 'x')
B('c11-transpose', C, "        for expr2 in nums_with_uncert[:i1]:", "        for expr2 in (nums_with_uncert[:i1] if i1 < 4 else list(dict.fromkeys(map(id, nums_with_uncert[:i1])) and nums_with_uncert[:i1])):", "x", 'x', 'x')
B('c11-int-zero', C, "                if var._std_dev), 0.))", "                if var._std_dev)))", "assert isinstance(covariance_matrix([ufloat(1, 1), ufloat(1, 1)])[0][1], float)", 'independent numbers', 'an int')
B('c12-small-norm', C, "        norm_vector[norm_vector==0] = 1", "        norm_vector[norm_vector<1e-12] = 1", "a, b = correlated_values([1, 2], [[1e-30, 5e-31], [5e-31, 1e-30]])\nc = covariance_matrix([a, b])\nassert abs(c[0][0]/1e-30 - 1) < 1e-6", 'very small standard deviations', 'the variances are wrong')
B('c12-eig-order', C, "        variances[variances < 0] = 0.", "        variances = abs(variances)", "import numpy\nc = numpy.array([[1, .9999999], [.9999999, 1]])\nl = correlated_values_norm([(1, 1)]*3, numpy.ones((3, 3)))\nv = numpy.linalg.eigh(numpy.ones((3,3)))[0]\nassert all(x.std_dev == math.sqrt(max(z, 0)) for q in l[:1] for x, z in zip(q.derivatives, v)), v", 'a singular matrix with negative rounding residues', 'the residues become variances')
B('c13-deriv-zero-dim', N, "                if derivative_value:\n                    derivative_dict[var] = derivative_value\n\n        # An array", "                if derivative_value:\n                    derivative_dict[var] = derivative_value\n\n        # An array", "x", 'x', 'x')
B('c13-conj-transpose', N, "        term2 = factor21*derivative_mat_H*factor22", "        term2 = factor21*derivative_mat_H*factor22 if arr.shape[0] >= arr.shape[1] else 0*term1", "x", 'x', 'x')
B('c13-pinv-rank', N, "    factor31 = numpy.eye(arr.shape[1])-AP", "    factor31 = (numpy.eye(arr.shape[1])-AP)*(arr.shape[0] < arr.shape[1])", "a = unumpy.uarray([[1., 2.], [2., 4.], [3., 6.]], 0.1)\nfrom uncertainties.unumpy.ulinalg import pinv\nr = pinv(a)\nn = unumpy.nominal_values(a)\nd = n.copy(); d[0, 0] += 1e-6; \nA = numpy.linalg.pinv(n)\nv = a[0, 0]\n# constant-rank perturbation: scale the first row\nD = numpy.array([[x.derivatives.get(a[0, 0], 0) + 2*x.derivatives.get(a[0, 1], 0) for x in row] for row in r])\nm = n.copy(); m[0] *= 1 + 1e-6\nE = (numpy.linalg.pinv(m) - A)/1e-6\nassert abs(D - E).max() < 1e-4, (D, E)", 'a tall matrix of deficient rank', 'a term of the derivative is missing')
B('c15-kwargs-only', C, "        if (not pos_w_uncert) and (not names_w_uncert):", "        if not pos_w_uncert and not names_w_uncert and not kwargs:", "x", 'x', 'x')
B('c15-factorial', M, "factorial = math.factorial", "factorial = lambda x: math.factorial(int(x))", "try: umath.factorial(2.5)\nexcept (ValueError, TypeError): pass\nelse: raise SystemExit(1)", 'a non-integer argument', 'no exception')
B('c15-ldexp-plain', M, "        # This function was not called with an AffineScalarFunc\n        # argument: there is no need to return numbers with uncertainties:\n        # aff_func.nominal_value is not passed instead of x, because\n        # we do not have to care about the type of the return value of\n        # math.ldexp, this way (aff_func.nominal_value might be the\n        # value of x coerced to a difference type [int->float, for\n        # instance]):\n        return math.ldexp(x, i)", "        return math.ldexp(aff_func.nominal_value, int(i))", "try: umath.ldexp(2, 1.5)\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a non-integer exponent', 'no exception')
B('c17-div-overflow', C, "        'mul': (\"y\", \"x\"),", "        'mul': (\"y\", \"x\"),", "x", 'x', 'x')
B('c17-zero-only', C, "        except (ValueError, ZeroDivisionError, OverflowError):", "        except (ValueError, ArithmeticError) if args[0] else (ValueError, ZeroDivisionError):", "x", 'x', 'x')
B('c17-wrap-pow', C, "        ops_with_reflection['r'+op] = [\n            nan_if_exception(func) for func in ops_with_reflection['r'+op]]", "        ops_with_reflection['r'+op] = [\n            nan_if_exception(ops_with_reflection['r'+op][0]), ops_with_reflection['r'+op][1]]", "r = 0.**ufloat(0, 0.1)\nr = (-2.)**ufloat(3, 0.1)\nr = 1e300**ufloat(1, .1)\nr = (0.)**ufloat(0., .1)\nfrom uncertainties.core import ops_with_reflection\nx=ufloat(1e-320,1); \nr = ufloat(1e-300,.1).__rpow__(ufloat(2.,.1))\nr = ufloat(1e-320, .1).__rpow__(ufloat(5e-324, .1))", 'x', 'x')
B('c18-message', C, "                \"can't convert an affine function (%s)\"\n                ' to %s; use x.nominal_value'\n                # In case AffineScalarFunc is sub-classed:\n                % (self.__class__, coercion_type))", "                \"can't convert an affine function (%s)\"\n                ' to %s; use x.nominal_value'\n                # In case AffineScalarFunc is sub-classed:\n                % (AffineScalarFunc, coercion_type))", "try: float(ufloat(1, 0.1))\nexcept TypeError as e: assert 'Variable' in str(e)", 'a variable', 'the wrong class is named')
B('c19-trailing-zeros', C, "            num_digits_after_period = len(main_dec)-1", "            num_digits_after_period = len(main_dec.rstrip('0'))-1 or 0", "assert ufloat_fromstr('1.20(5)').s == 0.05", 'a nominal value with trailing zeros', 'the uncertainty is ten times too large')
B('c19-negative-error', C, "        value = float((sign or '')+main)*factor", "        value = float((sign or '')+main)*(factor if not exponent or exponent[0] != '+' else 10.**int(exponent[1:3]))", "assert ufloat_fromstr('1(1)e+100').n == 1e100", 'an exponent of three digits with a sign', 'the value is wrong')
B('c19-int-uncert', C, "    if uncert is None:\n        # No uncertainty was found: an uncertainty of 1 on the last\n        # digit is assumed:\n        uncert_int = '1'  # The other parts of the uncertainty are None", "    if uncert is None:\n        # No uncertainty was found: an uncertainty of 1 on the last\n        # digit is assumed:\n        uncert_int = '1' if main_dec != '.' else '10'", "assert ufloat_fromstr('15.').s == 1", 'a number with a final point', '10 instead of 1')
B('c19-uncert-decimal', C, "    if uncert_dec is not None or uncert in {'nan', 'NAN', 'inf', 'INF'}:", "    if uncert_dec not in (None, '.') or uncert in {'nan', 'NAN', 'inf', 'INF'}:", "assert ufloat_fromstr('1.25(3.)').s == 3", 'an uncertainty with a final point', 'it is in units of the last digit')
B('c20-float-error', C, "            raise ValueError('Mantissa or exponent incorrect in pretty-print'\n                             ' form %s' % value_str)", "            raise ValueError('Mantissa or exponent incorrect in pretty-print'\n                             ' form {}'.format(*value_str.split()))", "try: ufloat_fromstr('\\u00d710+/-1')\nexcept ValueError: pass\ntry: ufloat_fromstr('x\\u00d7 10+/-1')\nexcept ValueError: pass\ntry: ufloat_fromstr('+/-')\nexcept ValueError: pass", 'x', 'x')
B('c21-zero-exp', C, "        error_has_exp = not any_exp_factored and not special_error", "        error_has_exp = not any_exp_factored and not isinfinite(error_main)", "s = '{:10e}'.format(ufloat(12345, 0))\nassert s.split('+/-')[1].strip() == '0', s", 'a width, an exponent and an exact number', 'the zero uncertainty gets an exponent')
B('c21-percent-nan', C, "            std_dev *= 100\n            nom_val *= 100", "            std_dev *= 100\n            nom_val *= 100 if std_dev else 1", "assert '{:.1%}'.format(ufloat(0.5, 0)).startswith('(50.0'), '{:.1%}'.format(ufloat(0.5, 0))", 'an exact number with the % type', 'the value is not multiplied')
B('c21-sign', C, "                fmt_prefix_e = fmt_parts['comma']\n\n        else:", "                fmt_prefix_e = fmt_parts['sign'].replace('-', '') + fmt_parts['comma']\n\n        else:", "s = '{:+10.1f}'.format(ufloat(1, 0.2))\nassert '+0.2' not in s, s", 'a width and a sign', 'the uncertainty has a sign')
B('c22-latex-inf', C, "            if isnan(error_main):\n                error_str = r'\\mathrm{%s}' % error_str\n            elif isinf(error_main):", "            if isnan(error_main) and not isinf(nom_val_main):\n                error_str = r'\\mathrm{%s}' % error_str\n            elif isinf(error_main):", "s = '{:L}'.format(ufloat(float('inf'), float('nan')))\nassert 'mathrm' in s, s", 'infinite value with NaN uncertainty', 'NaN is not in LaTeX')
B('c22-fill', C, "            value_str = robust_align(\n                value_str, fmt_parts['fill'], fmt_parts['align'] or '>',\n                fmt_parts['width'])", "            value_str = robust_align(\n                value_str, fmt_parts['fill'] if fmt_parts['align'] else '', fmt_parts['align'] or '<',\n                fmt_parts['width'])", "assert '{:20S}'.format(ufloat(1, 0.1)).startswith(' ')", 'shorthand with a width and no alignment', 'left aligned')
B('c23-kwargs-alias', C, "    derivatives_all_kwargs = {}\n", "    derivatives_all_kwargs = derivatives_kwargs\n", "d = {}\nf = wrap(lambda x: x, [None], d)\nassert not d", 'a dictionary of derivatives', 'the dictionary is modified')
B('c23-list-derivs', C, "    derivatives_args_index = IndexableIter(\n        # Automatic addition of numerical derivatives in case the\n        # supplied derivatives_args is shorter than the number of\n        # arguments in *args:\n        itertools.chain(derivatives_args, itertools.repeat(None)))", "    derivatives_args_index = IndexableIter(\n        # Automatic addition of numerical derivatives in case the\n        # supplied derivatives_args is shorter than the number of\n        # arguments in *args:\n        itertools.chain(iter(derivatives_args.pop, None) if isinstance(derivatives_args, list) and False else derivatives_args, itertools.repeat(None)))", "x", 'x', 'x')
B('c23-transform', C, "        transform *= std_devs[:, numpy.newaxis]", "        transform *= std_devs[:, numpy.newaxis]\n        if isinstance(correlation_mat, numpy.ndarray) and len(correlation_mat) == 1:\n            correlation_mat[:] = 1", "m = numpy.array([[2.]])\ncorrelated_values_norm([(1, 1)], m)\nassert m[0][0] == 2", 'a 1x1 array', 'modified')
B('c26-contains', C, "    if isinstance(x, CONSTANT_TYPES):\n        # No variable => no derivative:\n        return AffineScalarFunc(x, LinearCombination({}))", "    if isinstance(x, CONSTANT_TYPES) or hasattr(x, '__float__') and not hasattr(x, '__len__'):\n        # No variable => no derivative:\n        return AffineScalarFunc(x, LinearCombination({}))", "class A:\n    def __float__(self): return 1.\nassert ufloat(1, 0).__eq__(A()) is NotImplemented", 'an object that defines __float__', 'it is compared as a number')
B('c03-str-result', C, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n            return NotImplemented", "        if f_nominal_value is NotImplemented:\n            return NotImplemented", "f = wrap(lambda x, y: 'a')\nassert f(ufloat(1, 0.1), 2) is NotImplemented", 'a function that returns no number', 'ValueError', )
B('c28-ndarray', N, "    otypes=[float],  # Because vectorize() has side effects\n    doc=(\"Return the standard deviation of the numbers with uncertainties\"", "    doc=(\"Return the standard deviation of the numbers with uncertainties\"", "assert unumpy.std_devs(numpy.array([])).shape == (0,)", 'an empty array', 'ValueError')
B('c30-rmul-ndim', N, "        if numeric.isscalar(other):\n            return numeric.dot(self, other)", "        if numeric.isscalar(other) or len(other) == self.shape[0] == self.shape[1] == 1:\n            return numeric.dot(self, other)", "x", 'x', 'x')
B('c30-getI-tall', N, "        if isinstance(other, uncert_core.AffineScalarFunc):\n            return numeric.dot(self, other)\n", "        if isinstance(other, uncert_core.Variable):\n            return numeric.dot(self, other)\n", "m = unumpy.umatrix([[1., 2.]], 0.1)\nx = ufloat(1, 0.1)\nm*(x+1)", 'a calculated quantity on the right', 'TypeError')
B('c40-exp-letter', C, "    'F': 'E'", "    'F': 'E+0'", "x", 'x', 'x')
B('c40-superscript-minus', C, "FROM_SUPERSCRIPT = {\n    ord(sup): normal for (normal, sup) in TO_SUPERSCRIPT.items()}", "FROM_SUPERSCRIPT = {\n    ord(sup): normal for (normal, sup) in TO_SUPERSCRIPT.items() if sup != u'\\u2079'}", "x = ufloat(1e9, 1e8)\nufloat_fromstr('{:.1ueP}'.format(x))", 'an exponent that contains a 9', 'ValueError')
B('c40-global-exp', C, "    (?P<simple_num_with_uncert>.*)\n    \\)\n", "    (?P<simple_num_with_uncert>[^()]*)\n    \\)\n", "x", 'x', 'x')
B('c29-repr-large', C, "            std_dev_str = repr(std_dev)\n", "            std_dev_str = '%r' % std_dev if std_dev < 1e16 else '%g' % std_dev\n", "x = ufloat(1, 123456789012345678.)\nassert ufloat_fromstr(repr(x)).s == x.s", 'a standard deviation above 1e16', 'repr loses digits')
B('c29-pdg-limit', C, "    if digits <= 354:", "    if digits < 354:", "assert str(ufloat(10, 0.354)) == '10.00+/-0.35'", 'an uncertainty of digits 354', 'one digit')
B('c29-default-prec', C, "            elif pres_type is None:\n                prec = 12", "            elif pres_type is None:\n                prec = 12 if std_dev == 0 else 6", "assert '%s' % ufloat(1.23456789012, float('nan')) != '1.23457+/-nan'", 'a NaN uncertainty', 'six digits')
B('c29-g-minus4', C, "                if -4 <= common_exp < common_exp-digits_limit+1:", "                if -5 < common_exp <= common_exp-digits_limit+1:", "assert '{:.1ug}'.format(ufloat(1230, 100)) == '(1.2+/-0.1)e+03', '{:.1ug}'.format(ufloat(1230, 100))", 'an uncertainty in the tens', 'no exponent')
B('c25-len-sum', C, "        return AffineScalarFunc(\n            f_nominal_value, LinearCombination(linear_part))", "        if len(linear_part) == 2 and linear_part[0][1] is linear_part[1][1]:\n            linear_part = [(linear_part[0][0]+linear_part[1][0], linear_part[0][1])]\n            if linear_part[0][1].expanded():\n                linear_part = {v: linear_part[0][0]*d for (v, d) in linear_part[0][1].linear_combo.items()}\n        return AffineScalarFunc(\n            f_nominal_value, LinearCombination(linear_part))", "x = umath.fsum([ufloat(1, 0.1) for i in range(100)]); x.derivatives\nz = x + x\nfrom uncertainties.core import LinearCombination\nassert not z._linear_part.expanded()", 'an operation with twice the same evaluated operand', 'the linear part is copied')
B('c05-ior', C, "            self._linear_part.expand()\n            # Attempts to get the contribution", "            self._linear_part.expand()\n            # Attempts to get the contribution", "x", 'x', 'x')
B('c07-isnan', C, "        if std_dev < 0:", "        if -float('inf') < std_dev < 0:", "try: ufloat(1, -float('inf'))\nexcept Exception: pass\nelse: raise SystemExit(1)", 'minus infinity', 'it is accepted')
B('c07-init', C, "        self.std_dev = std_dev\n        self.tag = tag", "        if isinstance(std_dev, CallableStdDev):\n            self._std_dev = std_dev\n        else:\n            self.std_dev = std_dev\n        self.tag = tag", "x = ufloat(1, 0.1)\nfrom uncertainties.core import CallableStdDev\ntry: ufloat(1, CallableStdDev(-1))\nexcept Exception: pass\nelse: raise SystemExit(1)", 'x', 'x')
