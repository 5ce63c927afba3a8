BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy, core\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c02-acosh-large', M, "'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)]", "'acosh': [lambda x: 1/math.sqrt(x*x-1)]", "x = ufloat(1e200, .1)\nassert umath.acosh(x).derivatives[x] == 1e-200, umath.acosh(x).derivatives", 'a huge argument', 'the derivative is zero')
B('c02-tanh-large', M, "'tanh': [lambda x: 1-math.tanh(x)**2]", "'tanh': [lambda x: 1/math.cosh(x)**2]", "x = ufloat(800, .1)\nassert umath.tanh(x).derivatives[x] == 0", 'a large argument', 'the derivative is NaN instead of 0')
B('c03-kwonly', C, "        arg_names = argspec.args\n", "        # Keyword-only parameters come after the positional ones:\n        arg_names = argspec.args+list(getattr(argspec, 'kwonlyargs', []))\n", "def f(x, *a, k=1): return x*k\ng = wrap(f, [lambda x, *a, **k: k['k'], lambda *a, **k: 100.], {'k': lambda x, *a, **k: x})\nk = ufloat(3, .1)\nassert g(2., k=k).derivatives == {k: 2}, g(2., k=k).derivatives", 'a keyword-only parameter with a derivative of its own, and derivatives for variable positional arguments', 'the derivative of another parameter is used')
B('c04-seen', C, "            if main_expr.expanded():\n                for (var, factor) in main_expr.linear_combo.items():", "            if main_factor == 0:\n                # No contribution, but the variables are present:\n                for (var, factor) in (main_expr.linear_combo.items() if main_expr.expanded() else ()):\n                    derivatives[var] += 0.0\n            elif main_expr.expanded():\n                for (var, factor) in main_expr.linear_combo.items():", "x = ufloat(1, .1)\ny = 0.*(x+1)\nassert x in y.derivatives\nz = ufloat(1, 1); w = umath.sqrt(z-1)*0\nassert math.isnan(w.derivatives[z]), w.derivatives", 'a zero factor of an undefined derivative', 'the derivative is 0 instead of NaN, or is missing')
B('c08-ge-not-lt', C, "    return (gt_on_aff_funcs(self, y_with_uncert)\n            or eq_on_aff_funcs(self, y_with_uncert))", "    return not (self._nominal_value < y_with_uncert._nominal_value\n                or ne_on_aff_funcs(self, y_with_uncert)\n                and self._nominal_value == y_with_uncert._nominal_value)", "x = ufloat(math.nan, .1)\nassert not x >= 1", 'NaN', 'NaN >= 1 is true')
B('c08-fraction', C, "FLOAT_LIKE_TYPES = (numbers.Number,)", "FLOAT_LIKE_TYPES = (int, float)", "from fractions import Fraction\nassert ufloat(.5, 0) == Fraction(1, 2)", 'a rational number', 'never equal to an exact number')
B('c10-none', C, "                    all_attrs[name] = getattr(self, name)\n", "                    value = getattr(self, name)\n                    if value is not None:\n                        all_attrs[name] = value\n", "class A(core.Variable):\n    __slots__ = ('note',)\nx = A(1, .1); x.note = None\ny = pickle.loads(pickle.dumps(x))\nassert y.note is None", 'an attribute that is None', 'it is not restored')
B('c13-rcond-zero', N, "    inverse = numpy.linalg.pinv(arr, rcond)\n", "    inverse = numpy.linalg.pinv(arr, rcond or pinv_default)\n", "from uncertainties.unumpy import ulinalg\na = numpy.array([[1., 0], [0, 1e-17]])\nu = a*ufloat(1, .1)\nr = ulinalg.pinv(u, 0)\nassert r[1, 1].n > 1e16, r", 'rcond = 0', 'the default value is used')
B('c16-ldexp-zero', M, "    if aff_func._linear_part:\n        return AffineScalarFunc(\n            math.ldexp(aff_func.nominal_value, i),", "    if aff_func._linear_part and aff_func:\n        return AffineScalarFunc(\n            math.ldexp(aff_func.nominal_value, i),", "x = ufloat(0, 0)\ny = umath.ldexp(x, 2)\nx.std_dev = .5\nassert y.s == 2", 'a variable that is exactly zero, and whose standard deviation is changed later', 'the dependence is lost, or TypeError')
B('c18-round', C, "    def std_score(self, value):\n", "    def __round__(self, ndigits=None):\n        # Used by round()\n        return round(self._nominal_value, ndigits)\n\n    def std_score(self, value):\n", "try: r = round(ufloat(1.26, .1), 1)\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'round()', 'the uncertainty is dropped')
B('c18-index', C, "    def std_score(self, value):\n", "    def __int_index(self):\n        raise TypeError\n\n    def __floor__(self):\n        return math.floor(self._nominal_value)\n\n    def std_score(self, value):\n", "try: r = math.floor(ufloat(1.26, .1))\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'math.floor()', 'the uncertainty is dropped')
B('c20-recursive-parens', C, "        representation = representation[1:-1]\n", "        try:\n            return str_to_number_with_uncert(representation[1:-1])\n        except ValueError:\n            representation = representation[1:-1]\n", "try: ufloat_fromstr('('*3000+'1'+')'*3000)\nexcept ValueError: pass", 'a text in thousands of parentheses', 'RecursionError')
B('c21-nan-exp', C, "        error_has_exp = not any_exp_factored and not special_error\n", "        error_has_exp = (not any_exp_factored and not special_error\n                         and not isinfinite(nom_val_main))\n", "assert 'e+05' in '{:20e}'.format(ufloat(math.nan, 1e5))", 'a NaN value with a width', 'the exponent is not printed')
B('c21-sign-pretty', C, "                fmt_prefix_n = fmt_parts['sign']+fmt_parts['comma']\n                fmt_prefix_e = fmt_parts['comma']\n        else:", "                fmt_prefix_n = fmt_parts['sign']+fmt_parts['comma']\n                fmt_prefix_e = fmt_prefix_n.lstrip('-+')\n        else:", "assert '{: 20f}'.format(ufloat(1, .1)).count(' ') == '{:20f}'.format(ufloat(1, .1)).count(' ')\nassert '{: 3f}'.format(ufloat(1, .1)) == ' 1.00+/-0.10'", 'the space as the sign option with a width', 'the sign option also applies to the uncertainty')
B('c26-str-number', C, "        try:\n            y_with_uncert = to_affine_scalar(y)\n        except NotUpcast:", "        if isinstance(y, basestring):\n            # Numbers read from a file, etc.:\n            try:\n                y = ufloat_fromstr(y)\n            except ValueError:\n                pass\n        try:\n            y_with_uncert = to_affine_scalar(y)\n        except NotUpcast:", "x = ufloat(2, .1)\ntry: x > '1'\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a text that denotes a number', 'the comparison has a result')
B('c28-uarray-order', N, "    return (numpy.vectorize(\n", "    if (isinstance(nominal_values, numpy.ndarray)\n        and numpy.shape(nominal_values) == numpy.shape(std_devs)):\n        result = numpy.empty(nominal_values.shape, dtype=object)\n        for (pos, (value, std_dev)) in enumerate(\n            zip(nominal_values.flat, numpy.ravel(std_devs, order='A'))):\n            result.flat[pos] = uncert_core.Variable(value, std_dev)\n        return result\n\n    return (numpy.vectorize(\n", "v = numpy.array([[1., 2.], [3., 4.]]); s = numpy.array([[.1, .3], [.2, .4]])\na = unumpy.uarray(v, s.T)\nassert a[0, 1].s == .2, a", 'a transposed array of standard deviations', 'the standard deviations are in another order')
B('c30-imul', N, "    def __rmul__(self, other):\n", "    def __imul__(self, other):\n        self[:] = numpy.multiply(self, other)\n        return self\n\n    def __rmul__(self, other):\n", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1, .1], [.1, .1]])\nm *= m\nassert m[0, 0].n == 7, m", 'in-place multiplication by a matrix', 'the product of the elements is returned')
B('c09-exact-cache', [(C, "def ufloat(nominal_value, std_dev=None, tag=None):\n", "_exact_numbers = {}\n\ndef ufloat(nominal_value, std_dev=None, tag=None):\n"), (C, "        return Variable(nominal_value, std_dev, tag=tag)\n", "        if std_dev == 0 and tag is None and nominal_value == 0:\n            return _exact_numbers.setdefault(\n                nominal_value, Variable(nominal_value, std_dev))\n        return Variable(nominal_value, std_dev, tag=tag)\n")], None, None, "x = ufloat(0, 0); y = ufloat(0, 0)\nx.std_dev = 1\nassert y.s == 0", 'two exact zeros, one of which becomes uncertain', 'they are the same variable')
B('c06-scale', C, "        std_dev = 0.\n        for delta in self.error_components().values():\n", "        std_dev = 0.\n        components = self.error_components()\n        if len(components) == 1 and not isinstance(self, Variable):\n            (delta,) = components.values()\n            return CallableStdDev(sqrt(delta*delta))\n        for delta in self.error_components().values():\n", "x = ufloat(1, 1e-200)\nassert (2*x).s == 2e-200, (2*x).s", 'a very small standard deviation', 'the uncertainty is zero')
B('c12-zero-tags', C, "        if tags is None:\n            tags = (None,) * len(values_with_std_dev)\n", "        if not tags or not any(tags):\n            tags = (None,) * len(values_with_std_dev)\n", "x = correlated_values([1, 2], [[1, .5], [.5, 1]], tags=['', 0])\nt = sorted(repr(v.tag) for v in x[0].derivatives)\nassert t == [\"''\", '0'], t", 'tags that are false values', 'they are forgotten')
B('c14-ldexp-int', N, "        otypes = {} if function_name in umath_core.locally_cst_funcs \\\n", "        otypes = {} if (function_name in umath_core.locally_cst_funcs or function_name == 'ldexp') \\\n", "a = unumpy.ldexp(numpy.array([1., ufloat(2, .1)], dtype=object), 1)\nassert a.dtype == object and a[1].n == 4", 'an array whose first element is a plain number', 'TypeError')
