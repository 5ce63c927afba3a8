BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c16-ldexp-product', M, "            math.ldexp(aff_func.nominal_value, i),\n", "            aff_func.nominal_value*2.**i,\n", "x = ufloat(1, .1)\nassert umath.ldexp(umath.ldexp(x, -1073), 1030).n == 2.**-43", 'a tiny number and an exponent above 1023', 'OverflowError')
B('c16-ldexp-exact', M, "    if aff_func._linear_part:\n        return AffineScalarFunc(\n            math.ldexp(", "    if aff_func.std_dev:\n        return AffineScalarFunc(\n            math.ldexp(", "x = ufloat(1, 0)\ny = umath.ldexp(2*x, 3)\nx.std_dev = 1\nassert y.s == 16", 'an exact variable that later becomes uncertain', 'the dependence is lost, or an exception')
B('c16-frexp-abs', M, "        (mantissa, exponent) = math.frexp(aff_func.nominal_value)\n", "        (mantissa, exponent) = math.frexp(abs(aff_func.nominal_value))\n        mantissa = mantissa if aff_func.nominal_value >= 0 else -mantissa\n", "x = ufloat(-0.0, 1)\nassert math.copysign(1, umath.frexp(x)[0].n) == -1", 'a negative zero', 'the sign of the mantissa')
B('c09-string-cache', C, "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip())\n\n    return ufloat(nominal_value, std_dev, tag)", "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip())\n\n    if tag is not None:\n        return ufloat(nominal_value, std_dev, tag)\n    return _parsed.setdefault(\n        representation, ufloat(nominal_value, std_dev, tag))\n\n_parsed = {}  # Numbers already parsed", "assert ufloat_fromstr('1+/-0.1') != ufloat_fromstr('1+/-0.1')", 'the same text parsed twice', 'the same variable is returned')
B('c11-array-truth', C, "    covariance_matrix = []\n    for (i1, expr1)", "    covariance_matrix = []\n    if not nums_with_uncert:\n        return covariance_matrix\n    for (i1, expr1)", "assert len(covariance_matrix(unumpy.uarray([1, 2], [.1, .2]))) == 2", 'an array of numbers', 'ValueError')
B('c20-empty-uncert', C, "        uncert_value = int(uncert_int)/10.**num_digits_after_period", "        uncert_value = int(uncert_int or 0)/10.**num_digits_after_period", "try: ufloat_fromstr('1.2()')\nexcept ValueError: pass\nelse: raise SystemExit(1)", 'empty parentheses', 'the text is accepted')
B('c22-upper-g', C, "        main_pres_type = 'fF'[(pres_type or 'g').isupper()]", "        main_pres_type = 'fF'[pres_type in ('E', 'F')]", "assert '{:G}'.format(ufloat(1e20, 1e18)) == '(1.000+/-0.010)E+20', '{:G}'.format(ufloat(1e20, 1e18))", 'the G format type and a big number', 'a lowercase exponent letter')
B('c26-float-op', C, "        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n            return NotImplemented\n", "        if f_nominal_value is NotImplemented and len(args) == 2:\n            try:\n                f_nominal_value = f(*[float(arg) for arg in args_values])\n            except (TypeError, ValueError):\n                return NotImplemented\n        if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):\n            return NotImplemented\n", "try: z = ufloat(1, .1)+'2'\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a text that represents a number', 'it is used as a number')
B('c25-depth-frame', C, "                for (factor, expr) in main_expr.linear_combo:\n", "                if len(main_expr.linear_combo) == 2 and not any(e.expanded() for (_, e) in main_expr.linear_combo):\n                    main_expr.expand()\n                    main_expr.linear_combo = dict(main_expr.linear_combo)\n                    for (var, factor) in main_expr.linear_combo.items():\n                        derivatives[var] += main_factor*factor\n                    continue\n                for (factor, expr) in main_expr.linear_combo:\n", "x = ufloat(1, .1)\ny = x*1\nfor i in range(4000): y = (y*1)+(x*1)\nassert abs(y.s-400.1) < 1e-6", 'a long sum of products', 'the recursion limit is exceeded')
B('c05-components-alias', C, "        error_components = {}\n\n        for (variable, derivative)", "        error_components = self.derivatives if len(self.derivatives) == 1 and not isinstance(self, Variable) else {}\n\n        for (variable, derivative)", "x = ufloat(1, .1)\ny = 3*x\ny.std_dev\nassert y.derivatives[x] == 3", 'a quantity that depends on a single variable, read twice', 'reading the uncertainty changes the derivative')
B('c07-setter-slot', C, "        self.std_dev = value\n", "        if value < self._std_dev:\n            self._std_dev = CallableStdDev(value)\n        else:\n            self.std_dev = value\n", "x = ufloat(1, .1)\ntry: x.set_std_dev(-1)\nexcept Exception: pass\nassert x.std_dev >= 0", 'the obsolete set_std_dev()', 'a negative standard deviation is accepted')
B('c10-setstate-skip', C, "        for (name, value) in data_dict.items():\n            setattr(self, name, value)", "        for (name, value) in data_dict.items():\n            if not hasattr(type(self), name) or name in AffineScalarFunc.__slots__ + Variable.__slots__:\n                setattr(self, name, value)", "class V(core.Variable):\n    __slots__ = ('unit',)\nv = V(1, .1); v.unit = 'm'\nassert pickle.loads(pickle.dumps(v)).unit == 'm'", 'a subclass with slots', 'their values are lost', H + 'from uncertainties import core\n')
B('c12-norm-inplace', C, "        norm_vector = std_devs.copy()\n        norm_vector[norm_vector==0] = 1\n", "        norm_vector = std_devs\n        norm_vector[norm_vector==0] = 1\n", "(a, b) = correlated_values([1, 2], [[0, 0], [0, 4]])\nassert a.s == 0", 'a zero variance', 'the standard deviation is 1')
B('c17-nan-if-zero', C, "        except (ValueError, ZeroDivisionError, OverflowError):\n            return float('nan')", "        except (ValueError, OverflowError):\n            return float('nan')", "x = ufloat(1, .1)\nassert math.isnan(umath.asin(x).s)", 'a singular derivative', 'ZeroDivisionError')
B('c28-std-dev-int', C, "        return x.std_dev\n    else:\n        return 0.\n", "        return x.std_dev\n    else:\n        return 0*x\n", "assert std_dev('text') == 0 and std_dev(math.inf) == 0", 'infinity, or an object that is no number', 'NaN or another object')
B('c30-rmul-scalar', N, "        if numeric.isscalar(other):\n            return numeric.dot(self, other)", "        if numeric.isscalar(other) or numpy.ndim(other) < 2:\n            return numeric.dot(self, other)", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1]*2]*2)\nr = numpy.array([1., 2.])*m\nassert r[0, 0].n == 7, r", 'a vector multiplied by a matrix', 'the operands are exchanged')
B('c04-merge', C, "            (main_factor, main_expr) = self.linear_combo.pop()\n", "            (main_factor, main_expr) = self.linear_combo.pop()\n            if self.linear_combo and self.linear_combo[-1][1] is main_expr:\n                main_factor = self.linear_combo.pop()[0]*2\n", "x = ufloat(2, .1)\ny = x+1\nz = 3*y\nw = y*y\nassert (umath.pow(y, y)).derivatives[x] and abs(umath.hypot(3*y, y).derivatives[x]-10**.5) < 1e-9\nu = ufloat(3., .1)+0; t = wrap(lambda a, b: a*b*b)(u, u)\nassert abs(list(t.derivatives.values())[0]-27) < 1e-4, t.derivatives", 'a function called twice with the same quantity', 'the derivative')
B('c40-nan-paren', C, "            uncert_str = robust_format(error_main, main_pres_type)\n            if 'L' in options:", "            uncert_str = robust_format(error_main, main_pres_type).capitalize()\n            if 'L' in options:", "x = ufloat_fromstr('{:S}'.format(ufloat(1, math.nan)))\nassert math.isnan(x.s)", 'shorthand notation with a NaN uncertainty', 'ValueError')
