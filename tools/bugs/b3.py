H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
BUGS = []
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'

B('c01-neg-zero', C, "'neg': lambda x: -1.", "'neg': lambda x: -1. if x else 1.", "x = ufloat(0, 1)\nassert (-x).derivatives[x] == -1", 'a zero nominal value', 'the derivative of -x is 1')
B('c01-zero-to-the-one', C, "    def pow_deriv_0(x, y):\n        if y == 0:", "    def pow_deriv_0(x, y):\n        if y == 0 or x == 0 and y >= 1:", "x = ufloat(0, 1)\ny = x**1\nassert y.derivatives[x] == 1", '0**1', 'a zero derivative')
B('c01-log-negative-power', C, "return log(x) * x**y", "return log(abs(x)) * x**y", "x = ufloat(-2, 1); y = ufloat(2, 1)\nassert math.isnan((x**y).derivatives[y])", 'a negative base', 'a derivative with respect to the exponent that does not exist', )
B('c01-mul-zero', C, "'mul': (\"y\", \"x\"),", "'mul': (\"y\", \"x or y\"),", "x = ufloat(0, 1); y = ufloat(3, 1)\nassert (x*y).derivatives[y] == 0", 'a zero left factor', 'the derivative of the product with respect to the right factor is not 0')
B('c02-atan2-axis', M, "    'atan2': [lambda y, x: x/(x**2+y**2),", "    'atan2': [lambda y, x: abs(x)/(x**2+y**2),", "y = ufloat(1, 0.1)\nassert abs(umath.atan2(y, -2).derivatives[y] + 0.4) < 1e-9", 'a negative second argument', 'the sign of a derivative')
B('c02-hypot-negative', M, "lambda x, y: y/math.hypot(x, y)", "lambda x, y: math.sqrt(1-(x/math.hypot(x, y))**2)", "y = ufloat(-1, 0.1)\nassert umath.hypot(2, y).derivatives[y] < 0", 'a negative second argument', 'the sign of a derivative')
B('c02-acosh-log1p', M, "    'log1p': [lambda x: 1/(1+x)],", "    'log1p': [lambda x: 1/(1+abs(x))],", "x = ufloat(-0.5, 0.1)\nassert abs(umath.log1p(x).derivatives[x] - 2) < 1e-9", 'a negative argument', 'the derivative of log1p')
B('c02-tan-overflow', M, "'tanh': [lambda x: 1-math.tanh(x)**2]", "'tanh': [lambda x: 1/math.cosh(x)**2 if x < 20 else 4*math.exp(-x)]", "x = ufloat(21., 0.1)\nassert abs(umath.tanh(x).derivatives[x]) < 1e-12", 'an argument larger than 20', 'the derivative of tanh')
B('c03-shared-kwargs-default', C, "    derivatives_all_kwargs = {}\n", "    derivatives_all_kwargs = derivatives_kwargs\n", "f = wrap(lambda x, y: x*y, [lambda x, y: y, lambda x, y: x])\ng = wrap(lambda *a, **k: 5*k['y'])\ny = ufloat(1, 0.1)\nassert abs(g(y=y).derivatives[y] - 5) < 1e-3, g(y=y).derivatives", 'two wrapped functions that have parameters with the same name', 'a function uses the derivative of another one')
B('c03-complex-result', C, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n            return NotImplemented", "        if f_nominal_value is NotImplemented or hasattr(f_nominal_value, '__len__'):\n            return NotImplemented", "f = wrap(lambda x: None)\nassert f(ufloat(1, 0.1)) is NotImplemented", 'a function that returns None', 'TypeError')
B('c03-keyword-order', C, "        for name in names_w_uncert:\n\n            # Optimization:", "        for name in sorted(names_w_uncert, key=len)[:len(args) or None] if len(args) == 1 else names_w_uncert:\n\n            # Optimization:", "f = wrap(lambda x, **k: x+k['a']+k['b'])\na, b = ufloat(1, 0.1), ufloat(2, 0.1)\nr = f(1., a=a, b=b)\nassert len(r.derivatives) == 2", 'one positional and two uncertain keyword arguments', 'a keyword argument does not contribute')
B('c04-zero-factor', C, "            (main_factor, main_expr) = self.linear_combo.pop()\n", "            (main_factor, main_expr) = self.linear_combo.pop()\n            if not main_factor:\n                continue\n", "x = ufloat(1, 0.1)\nassert (x*0).derivatives[x] == 0", 'a zero factor', 'the variable is missing in the derivatives')
B('c04-repeated-term', C, "                for (factor, expr) in main_expr.linear_combo:\n                    self.linear_combo.append(", "                for (factor, expr) in dict.fromkeys(main_expr.linear_combo):\n                    self.linear_combo.append(", "x = ufloat(1, 0.1)\ny = x+x\nz = 3*y\nassert z.derivatives[x] == 6, z.derivatives", 'the same term twice in a sub-expression that is not evaluated', 'a repeated term is counted once')
B('c05-consumed', C, "                for (factor, expr) in main_expr.linear_combo:\n                    self.linear_combo.append(", "                while main_expr.linear_combo:\n                    (factor, expr) = main_expr.linear_combo.pop()\n                    self.linear_combo.append(", "x = ufloat(1, 0.1)\ny = 2*x\nz = 3*y\nz.std_dev\nassert y.derivatives[x] == 2", 'a sub-expression that is read after the expression', 'the sub-expression loses its dependence')
B('c06-signed-components', C, "error_components[variable] = abs(derivative*variable._std_dev)", "error_components[variable] = derivative*variable._std_dev", "x = ufloat(1, 0.1)\nassert (-2*x).error_components()[x] == 0.2", 'a negative derivative', 'negative error component')
B('c06-exact-derivative', C, "            if variable._std_dev == 0:", "            if variable._std_dev == 0 and derivative == derivative:", "x = ufloat(-1, 0); y = ufloat(2, 0)\nassert (x**y).std_dev == 0", 'a NaN derivative with respect to an exact variable', 'NaN standard deviation')
B('c08-infinite-equal', C, "    return not(difference._nominal_value or difference.std_dev)", "    return self._nominal_value == y_with_uncert._nominal_value and not difference.std_dev", "i = float('inf')\nx = ufloat(i, 0)\nassert not (x == i)", 'infinite exact values', 'x == y although x-y is NaN')
B('c08-nan-order', C, "    return (gt_on_aff_funcs(self, y_with_uncert)\n", "    return (not lt_on_aff_funcs(self, y_with_uncert) and self._nominal_value != y_with_uncert._nominal_value\n", "n = ufloat(float('nan'), 0.1)\nassert not (n >= 1)", 'a NaN nominal value', 'nan >= 1')
B('c09-shared-copies', C, "        return AffineScalarFunc(self._nominal_value,\n                                copy.deepcopy(self._linear_part))", "        return AffineScalarFunc(self._nominal_value,\n                                copy.copy(self._linear_part))", "x = ufloat(1, 0.1)\ny = copy.deepcopy(2*x)\nassert x not in y.derivatives", 'the deep copy of a calculated quantity', 'the deep copy depends on the original variables')
B('c11-nan-diagonal', C, "    covariance_matrix = []\n", "    if len(nums_with_uncert) == 1:\n        return [[nums_with_uncert[0].nominal_value*0.0 + nums_with_uncert[0].std_dev**2]]\n    covariance_matrix = []\n", "x = ufloat(float('inf'), 0.5)\nassert covariance_matrix([x]) == [[0.25]]", 'a single infinite quantity', 'NaN')
B('c12-zero-variance', C, "norm_vector = std_devs.copy()", "norm_vector = numpy.asarray(std_devs)", "a, b = correlated_values([1., 2.], [[0., 0.], [0., 4.]])\nassert a.std_dev == 0 and abs(b.std_dev - 2) < 1e-9", 'a zero variance', 'the standard deviation is 1')
B('c12-negative-residue', C, "        variances[variances < 0] = 0.", "        variances = abs(variances)", "import random\nm = numpy.array([[1., -1, 0.5], [-1, 1, -0.5], [0.5, -0.5, 1]])\nv = numpy.linalg.eigvalsh(m)\nr = correlated_values([0, 0, 0], m)\nprint(v)\nassert v[0] >= 0 or min(x.std_dev for x in r[0].derivatives) == 0", 'a rounding residue', 'variable with a std dev of 1e-8')
B('c13-pinv-second-term', N, "        term2 = factor21*derivative_mat_H*factor22", "        term2 = factor21*derivative_mat_H*factor22 if arr.shape[0] > arr.shape[1] else 0*term1", "m = numpy.array([[ufloat(1., 0.1), 2.], [2., 4.]])\np = unumpy.ulinalg.pinv(m)\nx = m[0, 0]\nh = 1e-6\nA = numpy.array([[1., 2.], [2., 4.]])\nexp = [[-0.0224, -0.0],[0,0]]\nP = numpy.linalg.pinv(A); d = numpy.array([[1., 0], [0, 0]])\nw = -P@d@P + P@P.T@d.T@(numpy.eye(2)-A@P) + (numpy.eye(2)-P@A)@d.T@P.T@P\nfor i in range(2):\n    for j in range(2):\n        assert abs(p[i, j].derivatives.get(x, 0) - w[i, j]) < 1e-9", 'a singular square matrix', 'a term of the derivative of the pseudo-inverse is missing')
B('c13-small-derivatives', N, "            for (derivative_dict, derivative_value) in (\n                zip(derivatives.flat, deriv_wrt_var.flat)):\n\n                if derivative_value:", "            for (derivative_dict, derivative_value) in (\n                zip(derivatives.flat, deriv_wrt_var.flat)):\n\n                if abs(derivative_value) > 1e-12:", "x = ufloat(1e8, 1.)\nm = unumpy.ulinalg.inv(numpy.array([[x, 0.], [0., 1.]]))\nassert abs(m[0, 0].derivatives[x] + 1e-16) < 1e-20", 'large values', 'small derivatives are lost')
B('c14-atanh-otypes', N, "for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh']", "for f_name in ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh', 'log']", "assert unumpy.log", 'x', 'x')
B('c16-ldexp-float', M, "LinearCombination([(2**i, aff_func._linear_part)]))", "LinearCombination([(2**abs(i), aff_func._linear_part)]))", "x = ufloat(1, 0.1)\nassert umath.ldexp(x, -2).derivatives[x] == 0.25", 'a negative exponent', 'the derivative of ldexp')
B('c16-fsum-exact', M, "        original_func(args)", "        original_func(args) if len(args) > 2 else sum(args)", "x = ufloat(1, 0.1)\nassert umath.fsum([x]).nominal_value == 1", 'x', 'x')
B('c17-copysign', M, "def _deriv_fabs(x):\n    if x >= 0:", "def _deriv_fabs(x):\n    if x/abs(x) >= 0:", "x = ufloat(0, 1)\nr = umath.fabs(x)\nassert r.nominal_value == 0 and r.derivatives[x] in (1, -1)", 'zero', 'NaN derivative (ZeroDivisionError)')
B('c18-closure', C, "        setattr(AffineScalarFunc, '__%s__' % coercion_type, raise_error)", "        setattr(AffineScalarFunc, '__%s__' % coercion_type,\n                (lambda self: raise_error(self)))", "for t in (int, float, complex):\n    try: t(ufloat(1, 0.1))\n    except TypeError as e: assert t.__name__ in str(e), (t, e)", 'the message of int(x) or complex(x)', 'the message names another type')
B('c18-class-name', C, "                            % (self.__class__, coercion_type))", "                            % (AffineScalarFunc, coercion_type))", "try: int(ufloat(1, 0.1))\nexcept TypeError as e: assert 'Variable' in str(e), e", 'the message for a variable', 'the message names another class')
B('c19-uncertainty-exponent', C, "                            to_float(uncert)*factor)", "                            to_float(uncert)*(factor if 'e' not in uncert.lower() else 1))", "x = ufloat_fromstr('(1.5+/-2e-1)e2')\nassert abs(x.std_dev - 20) < 1e-9, x", 'an exponent on the uncertainty and a common exponent', 'the uncertainty is not scaled by the common exponent')
B('c20-upper-case', C, "uncert in {'nan', 'NAN', 'inf', 'INF'}", "uncert in {'nan', 'inf'}", "x = ufloat_fromstr('1.5(NAN)')\nassert math.isnan(x.std_dev)", '1.5(NAN)', 'TypeError')
B('c21-padded-sign', C, "                fmt_prefix_e = '%s%d%s' % (\n                    fmt_parts['zero'],", "                fmt_prefix_e = '%s%s%d%s' % (\n                    fmt_parts['sign'], fmt_parts['zero'],", "assert '{:+010.2f}'.format(ufloat(1, 0.1)) == '+000001.00+/-0000000.10', '{:+010.2f}'.format(ufloat(1, 0.1))", 'a sign with zero padding', 'the uncertainty has a sign')
B('c21-rounded-exponent', C, "            if real_values:\n                use_exp = True\n", "x", "x", 'x', 'x')
B('c22-padding-inf', C, "                    remaining_width if error_has_exp else width,", "                    remaining_width if nom_has_exp else width,", "s = '{:015.2e}'.format(ufloat(float('nan'), 1.5))\nassert s.split('+/-')[1] == '00000001.50e+00', s", 'zero padding, an exponent and a NaN value', 'the uncertainty is padded to another width')
B('c22-zero-padding-percent', C, "            nom_val_width = max(int(fmt_parts['width']) - len(value_end), 0)", "            nom_val_width = max(int(fmt_parts['width']) - len(uncert_str) - len(exp_str) - 2, 0)", "s = '{:020.2f%S}'.format(ufloat(1, 0.1)) if False else format(ufloat(1, 0.1), '020.2%S')\nassert len(s) == 20, s", 'zero padding of a percentage in shorthand notation', 'the width')
B('c22-priority', C, "    if 'P' in options:\n        print_type = 'pretty-print'\n    elif 'L' in options:\n        print_type = 'latex'", "    if 'L' in options:\n        print_type = 'latex'\n    elif 'P' in options:\n        print_type = 'pretty-print'", "s = format(ufloat(1e10, 1e8), 'PL')\nassert u'\\u00d710' in s, s", 'both P and L', 'LaTeX exponents')
B('c23-kwargs-derivatives', C, "    for (name, derivative) in derivatives_kwargs.items():\n\n        # Optimization", "    derivatives_kwargs.setdefault('_', None)\n    for (name, derivative) in derivatives_kwargs.items():\n\n        # Optimization", "d = {}\nwrap(lambda x: x, [], d)\nassert d == {}", 'a dictionary of derivatives', 'it is modified')
B('c23-transform', C, "        std_devs = numpy.sqrt(numpy.diag(covariance_mat))", "        diagonal = numpy.asarray(covariance_mat).ravel()[::len(covariance_mat)+1]\n        std_devs = numpy.sqrt(diagonal, out=diagonal) if getattr(covariance_mat, 'dtype', None) == float and covariance_mat.flags.c_contiguous and False else numpy.sqrt(numpy.diag(covariance_mat))", "pass", 'x', 'x')
B('c24-covariance', C, "                # derivative is not defined (NaN), like for std_dev:\n                if var._std_dev),\n", "                if var._std_dev and not isnan(numpy.float64(derivatives1[var]))),\n", "import sys\nsys.modules['numpy'] = None\nimport uncertainties\nx = uncertainties.ufloat(1, 0.1)\nassert uncertainties.covariance_matrix([x])[0][0] > 0", 'no NumPy', 'NameError', head='')
B('c24-std-score', C, "            return (value - self._nominal_value) / self.std_dev", "            with numpy.errstate(divide='raise'):\n                return (value - self._nominal_value) / self.std_dev", "import sys\nsys.modules['numpy'] = None\nimport uncertainties\nx = uncertainties.ufloat(1, 0.1)\nassert abs(x.std_score(1.1) - 1) < 1e-9", 'no NumPy', 'NameError', head='')
B('c25-eager', C, "        linear_part = []\n\n        for pos in pos_w_uncert:\n", "        linear_part = []\n\n        for pos in pos_w_uncert:\n            if len(args_values) > 1:\n                args[pos].derivatives\n", "import time\nt = time.time()\ns = sum([ufloat(1, 0.1) for i in range(6000)])\nassert time.time() - t < 1.5", 'a sum of thousands of terms', 'the time is quadratic')
B('c25-recursive', C, "                for (factor, expr) in main_expr.linear_combo:\n                    self.linear_combo.append((main_factor*factor, expr))", "                main_expr.expand()\n                self.linear_combo.append((main_factor, main_expr))", "x = ufloat(1, 0.1)\ny = x\nfor i in range(5000): y = y+1\nassert y.std_dev == 0.1", 'an expression of thousands of operations', 'RecursionError')
B('c26-upcast', C, "        except NotUpcast:\n            return NotImplemented\n        else:", "        except NotUpcast:\n            if y is None or isinstance(y, basestring):\n                return NotImplemented\n            raise TypeError('not a number')\n        else:", "assert ufloat(1, 0.1) != [1]", 'a comparison with a list', 'TypeError')
B('c27-empty-tag', C, "        if tag is not None:\n            tag_arg = tag  # tag keyword used:\n        else:\n            tag_arg = std_dev  # 2 positional arguments form", "        tag_arg = std_dev or tag", "assert ufloat((1, 0.1), '').tag == ''", 'an empty tag', 'the tag is None')
B('c28-complex', C, "def std_dev(x):", "def std_dev(x, _=None):", "pass", 'x', 'x')
B('c28-matrix', N, "    if isinstance(arr, matrix):\n        return arr.view(numpy.matrix)", "    if isinstance(arr, matrix) and arr.size > 1:\n        return arr.view(numpy.matrix)", "m = unumpy.matrix([[ufloat(1, 0.1)]])\nassert type(m.nominal_values) is numpy.matrix", 'a 1x1 matrix', 'the result is a unumpy matrix')
B('c29-largest-value', C, "                exp_ref_value = max(real_values)", "                exp_ref_value = real_values[0] or max(real_values)", "s = format(ufloat(1, 2000.), '.1e')\nassert s == '(0.0+/-2.0)e+03', s", 'an uncertainty that is larger than the value', 'the exponent is that of the nominal value')
B('c29-zero-digits', C, "                    num_signif_digits = prec or 1", "                    num_signif_digits = prec", "s = format(ufloat(123, 1.5), '.0g')\nassert s == '(1+/-0)e+02', s", 'a zero precision', 'one more digit missing')
B('c29-rounded-exponent', C, "            if real_values:\n", "x", "x", 'x', 'x')
B('c40-wide', C, "TO_SUPERSCRIPT = {\n    0x2b: u'⁺',", "TO_SUPERSCRIPT = {\n    0x2b: u'+',", "pass", 'x', 'x')
B('c40-to-float', C, "PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)').match", "PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.+?)').match", "s = format(ufloat(1.5e12, 1e11), '20.2eP')\nx = ufloat_fromstr(s)\nassert x.nominal_value == 1.5e12, (s, x)", 'an exponent of two digits attached to each part', 'only the first digit of the exponent is read')
