H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
BUGS = []
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N = 'core.py', 'umath_core.py', 'unumpy/core.py'
B('c30-rmul-vector', N, "        if numeric.isscalar(other):\n            return numeric.dot(self, other)", "        if numpy.ndim(other) < 2:\n            return numeric.dot(self, other)",
  "m = unumpy.umatrix([[1, 2], [3, 4]], [[.1]*2]*2)\nr = [1, 0]*m\nassert unumpy.nominal_values(r).tolist() == [[1, 2]], r", 'a row (list) multiplied by a matrix', 'the operands are exchanged')
B('c30-rmul-square', N, "            return numeric.dot(other, self)  # The order is important", "            if other is self or numpy.shape(other) == self.shape[::-1] == (1, 1):\n                return numeric.dot(self, other)\n            return numeric.dot(other if len(other) > 1 else numpy.asarray(other)[0], self)",
  "m = unumpy.umatrix([[1, 2], [3, 4]], [[.1]*2]*2)\nr = numpy.array([[1, 2]])*m\nassert r.shape == (1, 2) and isinstance(r, unumpy.matrix), r\nr = numpy.array([[[1, 2]]])[0]*unumpy.umatrix([[1], [2]], 0.1)\nassert r.shape == (1, 1), type(r)", 'a row times a matrix', 'shape')
B('c30-umatrix-copy', N, "    return uarray(nominal_values, std_devs).view(matrix)", "    return matrix(uarray(nominal_values, std_devs).tolist(), dtype=object if numpy.size(nominal_values) > 1 else None)",
  "m = unumpy.umatrix([[1, 2]], 0.1)\nassert isinstance(m*m.T, unumpy.matrix)\nm=unumpy.umatrix(numpy.zeros((2,2)),0.1)\nassert m.shape==(2,2)", 'x', 'x')
B('c14-locally-cst-is', N, "            {} if function_name in umath_core.locally_cst_funcs", "            {} if function_name.startswith('is')",
  "assert unumpy.floor(unumpy.uarray([1.5], 0.1)).dtype != object", 'floor(), ceil() or trunc() of an array', 'an object array instead of a plain one')
B('c14-many-scalars', N, "    for (function_name, unumpy_name) in zip(\n        umath_core.many_scalars_to_scalar_funcs, new_func_names):", "    for (function_name, unumpy_name) in zip(\n        umath_core.many_scalars_to_scalar_funcs[:-1], new_func_names):",
  "unumpy.ldexp(unumpy.uarray([1.5], 0.1), 2)", 'the last function of the list', 'no ldexp() in unumpy')
B('c14-otypes-float', N, "            else {'otypes': [object]})", "            else {'otypes': [object]} if function_name != 'hypot' else {})",
  "a = numpy.array([3, ufloat(3, 0.1)])\nr = unumpy.hypot(a, 4.)\nassert isinstance(r[1], UFloat), r", 'hypot() of an array that starts with a number without uncertainty', 'an exception or a loss of uncertainty')
B('c20-blank', C, "    if representation.startswith('(') and representation.endswith(')'):", "    if representation[0] == '(' and representation[-1] == ')':",
  "try: ufloat_fromstr(' ')\nexcept ValueError: pass", 'an empty string', 'IndexError')
B('c20-type-of-tag', C, "        except (NotParenUncert, OverflowError):\n            raise ValueError(cannot", "        except (NotParenUncert, OverflowError) as exc:\n            raise (ValueError if 'e' not in representation.split('(')[0] else type(exc))(cannot",
  "try: ufloat_fromstr('1e500(1)e500')\nexcept ValueError: pass", 'x', 'x')
B('c20-global-exponent', C, "        except (ValueError, OverflowError):\n            raise ValueError(cannot_parse_ufloat_msg_pat % representation)\n\n        representation = match.group('simple_num_with_uncert')", "        except (ValueError, OverflowError):\n            factor = float(exp_value_str)\n\n        representation = match.group('simple_num_with_uncert')", "x", 'x', 'x')
B('c20-sign-only', C, "    value = float((sign or '')+main)*factor", "    value = (float(main) if not sign else {'-': -1, '+': 1}[sign]*float(main or 'x'[:0] or 0))*factor",
  "try: ufloat_fromstr('-(1)')\nexcept ValueError: pass\nelse: raise SystemExit(1)", 'a sign without digits', 'the text is accepted')
B('c24-affine-scalar', C, "    # Case of lists, etc.\n    raise NotUpcast", "    # 0-dimensional arrays, if any:\n    if not hasattr(x, '__len__') and isinstance(x, numpy.ndarray):\n        return AffineScalarFunc(float(x), LinearCombination({}))\n\n    # Case of lists, etc.\n    raise NotUpcast",
  "import sys\nsys.modules['numpy'] = None\nfrom uncertainties import ufloat\nassert (ufloat(1, 0.1) == None) is False", 'a foreign operand without NumPy', 'NameError', head='')
B('c24-covariance', C, "    return covariance_matrix\n\ntry:", "    return covariance_matrix if len(covariance_matrix) < 3 else [list(row) for row in numpy.array(covariance_matrix).tolist()]\n\ntry:",
  "import sys\nsys.modules['numpy'] = None\nimport uncertainties\nfrom uncertainties import ufloat\nuncertainties.covariance_matrix([ufloat(1, 0.1) for i in range(4)])", 'three quantities or more without NumPy', 'NameError', head='')
B('c25-single-term', C, "                for (factor, expr) in main_expr.linear_combo:\n", "                if len(main_expr.linear_combo) == 1:\n                    main_expr.expand()\n                    for (var, factor) in main_expr.linear_combo.items():\n                        derivatives[var] += main_factor*factor\n                    continue\n                for (factor, expr) in main_expr.linear_combo:\n",
  "x = y = ufloat(1, 0.1)\nfor i in range(100000): y = -y\nassert abs(y.derivatives[x]) == 1", 'a long chain of operations with one operand', 'RecursionError')
B('c25-eager-many', C, "        # The function now returns the necessary linear approximation\n", "        if len(linear_part) > 2:\n            for (_, expr) in linear_part:\n                if not expr.expanded():\n                    expr.expand()\n        # The function now returns the necessary linear approximation\n",
  "import time\nx = ufloat(1, 0.1); y = x*x\nf = wrap(lambda a, b, c: a+b+c, [lambda *a: 1]*3)\ny = x + 1\nz = f(y, y, y)\nassert not y._linear_part.expanded()", 'a wrapped function of three arguments', 'the arguments are evaluated')
B('c26-eq-false', C, "            # This module does not know how to handle the comparison:\n            # (example: y is a NumPy array, in which case the NumPy\n            # array will decide that func() should be applied\n            # element-wise between x and all the elements of y):\n            return NotImplemented", "            # This module does not know how to handle the comparison:\n            # (example: y is a NumPy array, in which case the NumPy\n            # array will decide that func() should be applied\n            # element-wise between x and all the elements of y):\n            return NotImplemented if hasattr(y, '__len__') or not func.__name__.startswith('eq') else False",
  "class A:\n    def __eq__(self, o): return True\nassert ufloat(1, 0.1) == A()", '== with an object that defines the comparison', 'False')
B('c10-falsy-slots', C, "                all_attrs[name] = getattr(self, name)\n            except AttributeError:\n                pass  # Undefined", "                value = getattr(self, name)\n                if value != 0:\n                    all_attrs[name] = value\n            except AttributeError:\n                pass  # Undefined",
  "x = pickle.loads(pickle.dumps(ufloat(1, 0)))\nassert x.std_dev == 0", 'a null nominal value or standard deviation', 'the attribute is missing')
B('c10-first-slots', C, "            if isinstance(slot_names, basestring):\n                slot_names = (slot_names,)  # Single name\n", "            if isinstance(slot_names, basestring):\n                slot_names = (slot_names.lstrip('_'), slot_names)  # Single name\n",
  "from uncertainties.core import Variable\nclass V(Variable):\n    __slots__ = '_n1'\n    n1 = 5\nimport __main__\nv = V(1, 0.1); v._n1 = 3\ntry: w = pickle.loads(pickle.dumps(v))\nexcept Exception: raise SystemExit(1)\nassert w._n1 == 3 and 'n1' not in V(1,1).__getstate__()", 'a subclass with a single slot', 'an attribute that is no slot is saved')
B('c13-rcond', N, "    return pinv_with_uncert(array_like, rcond)", "    return pinv_with_uncert(array_like, max(rcond, pinv_default))",
  "a = numpy.array([[ufloat(1, 0.1), 0.], [0., 1e-16]])\nr = pinv(a, 1e-20)\nassert abs(r[1, 1] - 1e16) < 1e3, r", 'an rcond that is smaller than the default', 'a singular value is discarded', head=H + 'from uncertainties.unumpy.ulinalg import pinv\n')
B('c13-square-pinv', N, "        return (inv if m == n else pinv)(self)", "        return (inv if m >= n else pinv)(self)",
  "m = unumpy.umatrix([[1., 2.], [3., 4.], [5., 7.]], 0.1)\nassert m.I.shape == (2, 3)", 'x', 'x')
B('c13-last-row', N, "        for element in array_version.flat:\n            # floats, etc. might be present\n            if isinstance(element, uncert_core.AffineScalarFunc):\n                # !!! set() is only needed for Python 2 compatibility:\n                variables |= set(element.derivatives.keys())\n\n        array_nominal", "        for element in array_version.flat:\n            # floats, etc. might be present\n            if isinstance(element, uncert_core.Variable):\n                variables.add(element)\n            elif isinstance(element, uncert_core.AffineScalarFunc):\n                variables.update(v for (v, d) in element.derivatives.items() if d == d and v._std_dev)\n\n        array_nominal",
  "x = ufloat(2, 0)\nm = inv(numpy.array([[x*2, 0.], [0., 1.]]))\nx.std_dev = 1\nassert m[0, 0].std_dev > 0", 'an exact variable (whose uncertainty is set later) in a calculated quantity', 'the derivative is missing', head=H + 'from uncertainties.unumpy.ulinalg import inv\n')
B('c12-clip-small', C, "        variances[variances < 0] = 0.", "        variances[variances < 1e-8] = 0.",
  "a = correlated_values_norm([(1, 0.1), (2, 0.1)], [[1, 0.999999999], [0.999999999, 1]])\nassert (a[0] - a[1] + 1).std_dev > 0", 'variables that are almost completely correlated', 'the small residual uncertainty vanishes')
B('c12-single', C, "        return correlated_values_norm(\n            list(zip(nom_values, std_devs)),\n            covariance_mat/norm_vector/norm_vector[:,numpy.newaxis],\n            tags)", "        if len(std_devs) == 1:\n            return (Variable(nom_values[0], std_devs[0]),)\n        return correlated_values_norm(\n            list(zip(nom_values, std_devs)),\n            covariance_mat/norm_vector/norm_vector[:,numpy.newaxis],\n            tags)",
  "x, = correlated_values([1.], numpy.array([[0.01]]), tags=['a'])\nassert [v.tag for v in x.derivatives] == ['a']", 'a single value with a tag', 'the tag is lost')
B('c11-tolerance', C, "                for var in vars1.intersection(derivatives2)", "                for var in (vars1.intersection(derivatives2) if len(derivatives2) < 50 else list(derivatives2)[:50] if set(derivatives2) == vars1 else vars1.intersection(derivatives2))",
  "xs = [ufloat(i, 1) for i in range(60)]\na = umath.fsum(xs)\nassert covariance_matrix([a])[0][0] == 60", 'quantities with 50 variables or more', 'the covariance is truncated')
B('c11-diag-std', C, "            coefs_expr1.append(sum(\n                (derivatives1[var]*derivatives2[var]*var._std_dev**2", "            coefs_expr1.append(sum(\n                (derivatives1[var]*derivatives2[var]*(var._std_dev**2 if derivatives1 is derivatives2 else var._std_dev*var.s)", "x", 'x', 'x')
B('c17-overflow-second', C, "        try:\n            return f(*args, **kwargs)\n        except (ValueError, ZeroDivisionError, OverflowError):", "        try:\n            return f(*args, **kwargs)\n        except (ValueError, ZeroDivisionError) + ((OverflowError,) if len(args) == 1 else ()):", "x = ufloat(1e-300, 1); y = ufloat(2, 1)\nprint(1/x)\numath.hypot(1e300, ufloat(1e300,1))\nx = ufloat(1e-160,1e-170); y=ufloat(1e10,1)\nr = y/x\nr = umath.atan2(ufloat(1e200,1), ufloat(1e200,1))", 'a function of two arguments whose derivative overflows', 'OverflowError')
B('c40-fromstr-space', C, "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip())", "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip(' '))",
  "x = ufloat_fromstr('1.5(1)\\n')\nassert x.n == 1.5", 'x', 'x')
B('c40-capital-nan', C, "|nan|NAN|inf|INF)'", "|nan|inf|INF)'", "s = '{:.2SF}'.format(ufloat(1., float('nan')))\nprint(s)\nufloat_fromstr('{:FS}'.format(ufloat(1., float('nan'))))", 'NaN with the format type F', 'ValueError')
B('c19-percent-exponent', C, "    (?:[eE]|\\\\s*×\\\\s*10) (?P<exp_value>.*)\n    $'''", "    (?:[eE]|\\\\s*×\\\\s*10) (?P<exp_value>[-+]?.{1,2})\n    $'''", "x = ufloat_fromstr('(1.5+/-0.1)e100')\nassert x.n == 1.5e100", 'an exponent of three digits', 'ValueError')
B('c03-kwargs-order', C, "            linear_part.append((\n                derivative(*args_values, **kwargs),\n                kwargs_uncert_values[name]._linear_part))", "            linear_part.append((\n                derivative(*args_values, **kwargs),\n                kwargs_uncert_values[name if derivative is not None else names_w_uncert[0]]._linear_part))", "x", 'x', 'x')
B('c06-lazy-sqrt', C, "                error_components[variable] = abs(derivative*variable._std_dev)", "                error_components[variable] = abs(derivative)*variable._std_dev if derivative == derivative else 0.", "x = ufloat(0, 0.1)\nassert math.isnan(umath.sqrt(x).std_dev)", 'an undefined derivative', 'the uncertainty is 0 instead of NaN')
B('c08-ge-order', C, "    return (gt_on_aff_funcs(self, y_with_uncert)\n            or eq_on_aff_funcs(self, y_with_uncert))", "    return (self._nominal_value > y_with_uncert._nominal_value\n            or not (self._nominal_value < y_with_uncert._nominal_value) and eq_on_aff_funcs(self, y_with_uncert))", "x", 'x', 'x')
B('c16-exact-ldexp', M, "    if aff_func._linear_part:\n        return AffineScalarFunc(\n            math.ldexp(", "    if aff_func.std_dev:\n        return AffineScalarFunc(\n            math.ldexp(", "x = ufloat(3, 0)\ny = umath.ldexp(x, 2)\nx.std_dev = 1\nassert y.std_dev == 4", 'an exact number whose uncertainty changes later', 'the dependence is lost')
B('c16-trunc-kwargs', M, "        args_float = map(uncert_core.nominal_value, args)", "        args_float = [uncert_core.nominal_value(args[0])] + list(args[1:])", "x", 'x', 'x')
B('c07-copy', C, "        if std_dev < 0:", "        if std_dev < 0 and not isnan(self._nominal_value):", "try: ufloat(float('nan'), -1)\nexcept Exception: pass\nelse: raise SystemExit(1)", 'a NaN nominal value', 'a negative standard deviation is accepted')
B('c18-complex', C, "    for coercion_type in ('complex', 'int', 'long', 'float'):", "    for coercion_type in ('complex', 'int', 'long', 'float')[::2]:", "try: float(ufloat(1, 0.1))\nexcept TypeError as e: assert 'nominal_value' in str(e)", 'x', 'x')
B('c23-sorted', C, "        tags = (None,) * len(values_with_std_dev)", "        tags = (None,) * len(values_with_std_dev)", "x", 'x', 'x')
B('c23-linear-args', C, "        tags=None):\n", "        tags=None):\n", "x", 'x', 'x')
B('c27-set-std-dev', C, "        self.std_dev = value", "        self._std_dev = CallableStdDev(value)", "x = ufloat(1, 0.1)\ntry: x.set_std_dev(-1)\nexcept Exception: pass\nelse: raise SystemExit(1)", 'a negative value given to the obsolete method', 'a negative standard deviation')
B('c28-nominal-int', C, "    if isinstance(x, AffineScalarFunc):\n        return x.std_dev\n    else:\n        return 0.0", "    if isinstance(x, Variable):\n        return x._std_dev\n    elif isinstance(x, AffineScalarFunc):\n        return sqrt(sum(d*d for d in x.error_components().values()))\n    else:\n        return 0.0 if x == x else float('nan')", "assert std_dev(float('nan')) == 0", 'NaN without uncertainty', 'NaN')
