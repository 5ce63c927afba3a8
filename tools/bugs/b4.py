H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
BUGS = []
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
X = "                for (factor, expr) in main_expr.linear_combo:\n                    # The main_factor is applied to expr:\n                    self.linear_combo.append((main_factor*factor, expr))"
B('c01-abs-neg-zero', C, "        if x >= 0:\n            return 1.\n        else:\n            return -1.", "        if math.copysign(1., x) > 0:\n            return 1.\n        else:\n            return math.copysign(1., -x)", "x = ufloat(-3, 1)\nassert abs(x).derivatives[x] == -1", 'a negative value', 'the sign of the derivative of abs()')
B('c01-log-of-abs', C, "            return log(x)*x**y", "            return log(abs(x))*x**y", "x = ufloat(-2, 1); y = ufloat(2, 1)\nassert math.isnan((x**y).derivatives[y])", 'a negative base', 'a derivative with respect to the exponent that does not exist')
B('c01-rpow-int-base', C, "        if x == 0 and y > 0:\n            return 0.\n", "        if x in (0, 1) and y > 0 or x == 0 == y:\n            return 0.\n", "y = ufloat(0, 1)\nassert math.isnan((0**y).derivatives[y])", '0**y at y = 0', 'a derivative that does not exist is 0')
B('c01-pow-one', C, "            return y*x**(y-1)\n", "            return y*x**(y-1) if x > 0 or y > 0 else -y*abs(x)**(y-1)\n", "x = ufloat(-2, 1)\nassert abs((x**-2).derivatives[x] - 0.25) < 1e-12 and abs((x**-1).derivatives[x] + 0.25) < 1e-12", 'a negative base with a negative exponent', 'the sign of the derivative')
B('c04-two-terms', C, X, "                for (factor, expr) in dict((id(e), (f, e)) for (f, e) in main_expr.linear_combo).values():\n                    # The main_factor is applied to expr:\n                    self.linear_combo.append((main_factor*factor, expr))", "x = ufloat(2, 0.1); y = x*1\nz = (y*y)*1\nassert z.derivatives[x] == 4", 'a sub-expression that enters twice in an operation that is nested', 'only the last occurrence counts')
B('c04-zero-factor', C, "        while self.linear_combo:  #", "        self.linear_combo = [t for t in self.linear_combo if t[0]]\n        while self.linear_combo:  #", "x = ufloat(2, 0.1)\nz = x*0\nassert x in z.derivatives", 'a zero coefficient', 'a variable is missing from the derivatives')
B('c04-nan-first', C, "                    derivatives[var] += main_factor*factor\n", "                    derivatives[var] = main_factor*factor + derivatives.pop(var, 0.) if factor else derivatives[var]*main_factor\n", "x = ufloat(2, 0.1); y = ufloat(3, 0.1)\na = x*0 + y; a.derivatives\nb = (a + x)*2; \nassert b.derivatives[x] == 2, b.derivatives", 'an expanded term with a zero derivative added to the same variable', 'a product instead of a sum')
B('c05-consumed', C, "                for (factor, expr) in main_expr.linear_combo:\n", "                for (factor, expr) in main_expr.linear_combo if len(self.linear_combo) else iter(main_expr.linear_combo.pop, None):\n", "x = ufloat(2, 0.1); y = ufloat(3, 1)\na = x*y\nb = 2*a\n", 'x', 'x')
B('c05-sorted-terms', C, "                for (factor, expr) in main_expr.linear_combo:\n                    # The main_factor is applied to expr:\n                    self.linear_combo.append((main_factor*factor, expr))", "                while len(main_expr.linear_combo) > 8:\n                    (factor, expr) = main_expr.linear_combo.pop()\n                    self.linear_combo.append((main_factor*factor, expr))\n                for (factor, expr) in main_expr.linear_combo:\n                    # The main_factor is applied to expr:\n                    self.linear_combo.append((main_factor*factor, expr))", "xs = [ufloat(i, 0.1) for i in range(12)]\na = umath.fsum(xs)\nb = a*2\nb.derivatives\nassert len(a.derivatives) == 12", 'an operation with more than 8 terms used in another one that is evaluated first', 'the terms of the operand are consumed')
B('c09-copy-tag', C, "        return Variable(self.nominal_value, self.std_dev, self.tag)", "        return Variable(self.nominal_value, self.std_dev, self.tag or None)", "x = ufloat(1, 0.1, '')\nassert copy.copy(x).tag == ''", 'an empty tag', 'the tag is not copied')
B('c09-hash-values', C, "        return id(self)\n\n    def __copy__", "        return hash((self._nominal_value, self.tag))\n\n    def __copy__", "x = ufloat(1, 0.1, [1])\nd = {x: 1}", 'an unhashable tag', 'a variable is not usable as a key')
B('c11-same-variables', C, "        covariance_matrix.append(coefs_expr1)", "        covariance_matrix.append(coefs_expr1 if coefs_expr1 not in covariance_matrix else covariance_matrix[covariance_matrix.index(coefs_expr1)])", "x = ufloat(1, 0.1)\nm = covariance_matrix([x, x])\nassert m[0] is not m[1]", 'x', 'x')
B('c12-zero-variance', C, "        norm_vector = std_devs", "        norm_vector = std_devs", "", '', '')
B('c13-small-derivatives', N, "                if derivative_value:\n                    derivative_dict[var] = derivative_value", "                if abs(derivative_value) > 1e-12:\n                    derivative_dict[var] = derivative_value", "", '', '')
B('c20-superscript-exponent', C, "    return int(str(number_str).translate(FROM_SUPERSCRIPT))", "    return int(str(number_str).translate(FROM_SUPERSCRIPT).split('.')[0])", "pass", '', '')
B('c29-exponent-of-value', C, "                use_exp = True\n                # !! This calculation", "                use_exp = bool(nom_val or not std_dev) or abs(std_dev) != 1\n                # !! This calculation", "s = '{:e}'.format(ufloat(0, 1))\nassert 'e+00' in s, s", 'a zero nominal value and a unit uncertainty', 'the exponent is not printed')
B('c29-signif-limit-positive', C, "            prec = max(-signif_limit,", "            prec = max(-signif_limit if signif_limit <= 0 or not std_dev else 0 if signif_limit < 12 else 1,", "s = '{:.1uf}'.format(ufloat(1e15, 1e13))\nassert '.' not in s, s", 'an uncertainty above 1e12 with the f type', 'a meaningless decimal')
B('c21-std-dev-mantissa', C, "            std_dev_mantissa = std_dev/factor\n", "            std_dev_mantissa = std_dev/factor if std_dev < 1e300 else std_dev\n", "s = '{:.1ue}'.format(ufloat(1e305, 2e304))\nassert len(s) < 40, s", 'an uncertainty above 1e300', 'the uncertainty is not divided by the common exponent')
B('c29-g-limit', C, "                if -4 <= common_exp < common_exp-digits_limit+1:", "                if -4 <= common_exp <= common_exp-digits_limit+1:", "s = '{:.1u}'.format(ufloat(1234, 23))\nassert 'e' in s, s", 'an uncertainty with one digit rounded at the tens', 'the exponent notation is not used')
B('c29-g-negative', C, "                if -4 <= common_exp < common_exp-digits_limit+1:", "                if (-4 if nom_val >= 0 else -3) <= common_exp < common_exp-digits_limit+1:", "assert '{}'.format(ufloat(-1.234e-4, 1e-6)) == '-0.0001234+/-0.0000010', '{}'.format(ufloat(-1.234e-4, 1e-6))", 'a negative value of exponent -4', 'the exponent notation is used')
B('c29-pdg-354', C, "    if digits <= 354:", "    if digits < 354:", "assert '{}'.format(ufloat(1, 0.3545)) == '1.00+/-0.35'", 'an uncertainty starting with 354', 'one digit instead of two')
B('c29-pdg-negative-exponent', C, "        (exponent, factor) = (exponent+1, 1000)", "        (exponent, factor) = (exponent+1, 1000) if exponent > -20 else (exponent+1, 999)", "assert '{}'.format(ufloat(1e-22, 9.501e-25)).count('10') , '{}'.format(ufloat(1e-22, 9.501e-25))", 'an uncertainty below 1e-20', 'the number of digits of the uncertainty')
B('c29-default-precision', C, "            elif pres_type is None:\n                prec = 12", "            elif pres_type is None and not isnan(std_dev):\n                prec = 12", "assert '{}'.format(ufloat(1.23456789, float('nan'))) == '1.23456789+/-nan', '{}'.format(ufloat(1.23456789, float('nan')))", 'a NaN uncertainty with the default format', '6 digits instead of 12')
B('c29-precision-zero-uncertainty', C, "                num_signif_digits = prec or 1\n", "                num_signif_digits = prec or (1 if std_dev else 2)\n", "s = '{:.0g}'.format(ufloat(1234, 0))\nassert s == '1e+03+/-0' or s.startswith('(1'), s", 'a zero precision and no uncertainty', 'two digits instead of one')
B('c22-exp-in-width', C, "        if nom_has_exp:\n            nom_val_str += exp_str\n", "        if nom_has_exp and len(nom_val_str) + len(exp_str) <= max(int(fmt_parts['width'] or 99), 8):\n            nom_val_str += exp_str\n", "s = '{:6e}'.format(ufloat(1.234567e8, 1e2))\nassert s.count('e+08') == 2, s", 'a width smaller than the text', 'the exponent of the value is dropped')
B('c22-latex-inf-sign', C, "                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < 0 else '')", "                nom_val_str = r'%s\\infty' % ('-' if nom_val_main < 0 and not isinf(error_main) else '')", "s = '{:L}'.format(ufloat(-math.inf, math.inf))\nassert s.startswith('-'), s", 'a negative infinite value with an infinite uncertainty', 'the sign is lost')
B('c22-fill-error', C, "                error_str, fmt_parts['fill'], effective_align,", "                error_str, fmt_parts['fill'] or ' ', effective_align if fmt_parts['fill'] else '>',", "s = '{:<10}'.format(ufloat(1.5, 0.25))\nassert s == '1.50      +/-0.25      ', s", 'an alignment without fill character', 'the uncertainty is aligned to the right')
B('c22-parentheses-percent', C, "            elif 'p' in options:\n                value_str", "            elif 'p' in options and not ('P' in options and fmt_parts['width']):\n                value_str", "s = '{:9pP}'.format(ufloat(1.5, 0.25))\nassert s.startswith('('), s", 'the options p and P with a width', 'no parentheses')
B('c26-numeric-string', C, "        try:\n            y_with_uncert = to_affine_scalar(y)\n        except NotUpcast:", "        try:\n            y_with_uncert = to_affine_scalar(y if not hasattr(y, '__float__') else float(y))\n        except NotUpcast:", "a = numpy.array([1., 2.])\nx = ufloat(1, 0)\nassert (x == a).shape == (2,)", 'a NumPy array compared with a number with uncertainty', 'an exception', )
B('c26-upcast-len', C, "        except NotUpcast:\n            # This module does not know", "        except NotUpcast:\n            if isinstance(y, complex): return func(x, to_affine_scalar(abs(y)))\n            # This module does not know", "x = ufloat(1, 0)\nassert not (x == 1j)", 'x', 'x')
B('c40-superscript-minus', C, "    0x2d: u'⁻',", "    0x2d: u'\u207b' if True else u'',", "", '', '')
