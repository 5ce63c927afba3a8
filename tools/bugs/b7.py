H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
BUGS = []
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c01-pow1-log', C, "            return log(x)*x**y\n", "            return log(abs(x))*x**y\n", "r = ufloat(-2., .1)**ufloat(2., .1)\nassert math.isnan(r.std_dev), r", 'a negative base with an uncertain integer exponent', 'a derivative that does not exist is reported as finite')
B('c04-late-factor', C, "                for (var, factor) in main_expr.linear_combo.items():\n                    derivatives[var] += main_factor*factor\n", "                for (var, factor) in main_expr.linear_combo.items():\n                    if factor == 1 and var not in derivatives:\n                        derivatives[var] = main_factor\n                    elif main_factor or var not in derivatives:\n                        derivatives[var] += main_factor*factor\n", "x = ufloat(0, 0.1); y = ufloat(1, 0.1)\nr = umath.sqrt(x)*0\nassert math.isnan((y*0*umath.sqrt(x)).std_dev)\nz = x + 0*umath.sqrt(x)\nprint(z.derivatives)\nw = umath.sqrt(x); w.derivatives\nz = x + 0*w\nassert math.isnan(z.derivatives[x]), z.derivatives", 'a NaN derivative multiplied by zero, evaluated before', 'the NaN disappears')
B('c04-merge-same', C, "                    self.linear_combo.append((main_factor*factor, expr))", "                    if self.linear_combo and self.linear_combo[-1][1] is expr:\n                        self.linear_combo[-1] = (self.linear_combo[-1][0]*main_factor*factor if self.linear_combo[-1][0] == 1 else self.linear_combo[-1][0]+main_factor*factor, expr)\n                    else:\n                        self.linear_combo.append((main_factor*factor, expr))", "x = ufloat(3, 0.1)\ny = (2*x) \nz = y + y\nw = z*2\nassert w.derivatives[x] == 8, w.derivatives\nf = wrap(lambda a, b: a+5*b, [lambda *a: 1, lambda *a: 5])\nq = 2*x + 0\nr = f(q, q)\nassert abs(r.derivatives[x] - 12) < 1e-9, r.derivatives", 'a repeated operand', 'wrong derivative')
B('c04-depth', C, "                for (var, factor) in main_expr.linear_combo.items():\n                    derivatives[var] += main_factor*factor\n", "                for (var, factor) in main_expr.linear_combo.items():\n                    derivatives[var] += main_factor*factor\n                if len(derivatives) > 50 and abs(main_factor) < 1e-30:\n                    del derivatives[var]\n", "xs = [ufloat(1, 0.1) for i in range(60)]\ny = umath.fsum(xs)\nz = 1e-31*xs[0] + y\nassert len(z.derivatives) == 60\nz = y + 1e-31*xs[59]+1e-31*xs[3]\nz = 1e-31*xs[0] + y\nassert z.derivatives[xs[0]] != 0\nz = 1e-31*y\nassert len(z.derivatives) == 60", 'more than 50 variables and a small factor', 'variables are dropped')
B('c08-bool-derivs', C, "        return self != 0.  # Uses the AffineScalarFunc.__ne__ function", "        return bool(self._nominal_value or self.derivatives)", "x = ufloat(1, 0.1)\nassert not (x - x)", 'a difference that is exactly zero', 'bool() is True')
B('c08-bool-nan', C, "        return self != 0.  # Uses the AffineScalarFunc.__ne__ function", "        return bool(self._nominal_value or self.std_dev > 0)", "x = umath.sqrt(ufloat(0, 0.1))\nassert bool(x) == (x != 0)", 'a zero value with an undefined (NaN) standard deviation', 'bool() differs from != 0')
B('c08-le-constant', C, "    return (lt_on_aff_funcs(self, y_with_uncert)\n            or eq_on_aff_funcs(self, y_with_uncert))", "    return (lt_on_aff_funcs(self, y_with_uncert)\n            or self._nominal_value == y_with_uncert._nominal_value and (not self.derivatives or not y_with_uncert.derivatives or eq_on_aff_funcs(self, y_with_uncert)))", "x = ufloat(1, 0.1)\nassert not x <= 1", 'a number that equals the nominal value', '<= is True though neither < nor ==')
B('c09-hash', C, "        return id(self)\n", "        return hash((self._nominal_value, float(self._std_dev)))\n", "x = ufloat(2, 0.1)\ny = 2*x\ny.derivatives\nx.std_dev = 0.3\nassert x in y.derivatives", 'a standard deviation set after the evaluation of the derivatives', 'the variable is not found in the dictionary', )
B('c11-first-vars', C, "        vars1 = set(derivatives1)  # !! Python 2.7+: viewkeys() would work", "        vars1 = set(derivatives1) if i1 < 3 else set(var for var in derivatives1 if var._std_dev > 1e-8)", "l = [ufloat(i, 1e-9) for i in range(3)]\nassert covariance_matrix(l)[2][2] > 0", 'three quantities or more, small standard deviations', 'zero variance')
B('c11-corr-zero', C, "        std_devs = numpy.sqrt(cov_mat.diagonal())\n", "        std_devs = numpy.sqrt(cov_mat.diagonal().clip(1e-20))\n", "c = correlation_matrix([ufloat(1, 1e-12), ufloat(1, 1)])\nassert abs(c[0, 0] - 1) < 1e-9, c", 'very small uncertainties', 'correlations above or below 1')
B('c12-transposed', C, "            AffineScalarFunc(\n                value,\n                LinearCombination(dict(zip(variables, coords))))", "            AffineScalarFunc(\n                value,\n                LinearCombination(dict((v, c) for (v, c) in zip(variables, coords) if abs(c) > 1e-9)))", "a, b = correlated_values([1, 2], [[1e-20, 5e-21], [5e-21, 1e-20]])\nassert a.std_dev > 0", 'small standard deviations', 'the dependence is lost')
B('c15-ldexp-plain', M, "        return math.ldexp(x, i)\n", "        return math.ldexp(aff_func.nominal_value, int(i))\n", "try: umath.ldexp(2, 1.5)\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a non-integer exponent', 'no exception')
B('c17-logbase', M, "              lambda x, y: -math.log(x, y)/y/math.log(y)],", "              lambda x, y: -math.log(x, y)/y/math.log(y)],", "x", "x", "x")
B('c18-message', C, "                            % (self.__class__, coercion_type))", "                            % (AffineScalarFunc, coercion_type))", "try: float(ufloat(1, 0.1))\nexcept TypeError as e: assert 'Variable' in str(e)", 'a variable', 'the wrong class is named')
B('c18-exact', C, "        def raise_error(self, coercion_type=coercion_type):\n", "        def raise_error(self, coercion_type=coercion_type):\n            if coercion_type == 'complex' and not self.derivatives:\n                return complex(self._nominal_value)\n", "from uncertainties.core import to_affine_scalar\ntry: complex(to_affine_scalar(2))\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a constant with no variable', 'complex() is accepted')
B('c23-tags', C, "        if tags is None:\n            tags = (None,) * len(values_with_std_dev)\n", "        if tags is None:\n            tags = (None,) * len(values_with_std_dev)\n        elif isinstance(tags, list):\n            tags.extend([None]*(len(values_with_std_dev)-len(tags)))\n", "t = ['a']\ncorrelated_values_norm([(1, 1), (2, 1)], [[1, 0], [0, 1]], t)\nassert t == ['a']", 'a list of tags that is too short', 'it is extended')
B('c23-list-pop', C, "        for (index, name) in enumerate(arg_names):\n", "        for (index, name) in enumerate(arg_names):\n            derivatives_kwargs.pop(name, None) if name.startswith('_') else None\n", "d = {'_a': lambda x: 1}\nwrap(lambda _a: _a, [], d)\nassert d", 'a parameter whose name starts with an underscore', 'the dictionary is modified')
B('c28-std-otypes', N, "    uncert_core.std_dev,\n    otypes=[float],", "    uncert_core.std_dev,\n    otypes=None,", "assert unumpy.std_devs(numpy.array([])).shape == (0,)", 'an empty array', 'ValueError')
B('c28-nominal-first', N, "    if isinstance(arr, matrix):\n        return arr.view(numpy.matrix)\n", "    if isinstance(arr, matrix) and arr.size > 1:\n        return arr.view(numpy.matrix)\n", "m = unumpy.umatrix([[1]], [[0.1]])\nassert type(m.nominal_values) is numpy.matrix", 'a 1x1 matrix', 'unumpy matrix instead of NumPy matrix')
B('c29-pdg-950', C, "    elif digits <= 949:", "    elif digits < 949:", "assert str(ufloat(10, 0.949)) == '10.0+/-0.9', str(ufloat(10, 0.949))", 'an uncertainty of digits 949', 'rounded up to 1')
B('c27-warn', C, "            deprecation(\n                'either use ufloat(nominal_value, std_dev),", "            if tag is None: deprecation(\n                'either use ufloat(nominal_value, std_dev),", "import warnings\nwith warnings.catch_warnings(record=True) as w:\n    warnings.simplefilter('always')\n    ufloat('1(1)', tag='a')\nassert w", 'a string and a tag given by keyword', 'no warning')
B('c07-refused', C, "        self._std_dev = CallableStdDev(std_dev)\n", "        self._std_dev = CallableStdDev(std_dev)\n", "x", "x", "x")
B('c19-nested-shorthand', C, "NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH = re.compile(u'''\n    \\\\(\n    (?P<simple_num_with_uncert>.*)\n    \\\\)", "NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH = re.compile(u'''\n    \\\\(\n    (?P<simple_num_with_uncert>[^(]*)\n    \\\\)", "x = ufloat_fromstr('(1.0(1))e3')\nassert x.n == 1000", 'x', 'x')
B('c40-common-exp', C, "    'pretty-print': lambda common_exp: u'×10%s' % to_superscript(common_exp),", "    'pretty-print': lambda common_exp: u'×10%s' % to_superscript(common_exp) if common_exp != 1 else u'×10',", "s = '{:.1ueP}'.format(ufloat(12, 1))\nassert ufloat_fromstr(s).n == 12, s", 'an exponent of one in pretty-print', 'no exponent')
