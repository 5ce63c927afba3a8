BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c04-zero-factor', C, "            (main_factor, main_expr) = self.linear_combo.pop()\n", "            (main_factor, main_expr) = self.linear_combo.pop()\n            if not main_factor:\n                continue\n", "x = ufloat(1, .1)\ny = 0*(x+1)\nassert y.derivatives == {x: 0}", 'a zero derivative', 'the variable is forgotten')
B('c07-uarray-abs', N, "lambda v, s: uncert_core.Variable(v, s)", "lambda v, s: uncert_core.Variable(v, abs(s))", "try: unumpy.uarray([1, 2], [.1, -.1])\nexcept Exception: pass\nelse: raise SystemExit(1)", 'uarray() with a negative standard deviation', 'it is accepted')
B('c08-identity', C, "    difference = self - y_with_uncert\n", "    if self is y_with_uncert:\n        return True\n    difference = self - y_with_uncert\n", "x = ufloat(math.nan, 0)\nassert x != x and not x == x", 'NaN compared with itself', 'it is equal')
B('c09-hash-nominal', C, "        return id(self)\n", "        return hash((self._nominal_value, self.tag))\n", "x = ufloat(1, 0); y = ufloat(1, 0)\nz = x+y\nz.s\nx.std_dev = .1\nassert abs(z.s-.1) < 1e-9, z.s", 'exact variables with the same nominal value', 'they are taken for the same variable')
B('c19-superplus', C, "FROM_SUPERSCRIPT = {\n    ord(sup): normal for (normal, sup) in TO_SUPERSCRIPT.items()}", "FROM_SUPERSCRIPT = {\n    ord(sup): normal for (normal, sup) in TO_SUPERSCRIPT.items()\n    if normal != 0x2b}", "assert ufloat_fromstr('1.5\xd710\u207a\xb2+/-1').n == 150", 'an exponent with a superscript plus', 'the text is rejected')
B('c20-superscript-key', C, "    return int(str(number_str).translate(FROM_SUPERSCRIPT))", "    return int(''.join(chr(FROM_SUPERSCRIPT[ord(c)]) if ord(c) > 127 else c for c in str(number_str)))", "try: ufloat_fromstr('1.5(1)e\xe9')\nexcept ValueError: pass", 'a letter that is not in ASCII in the exponent', 'KeyError')
B('c22-shorthand-sign', C, "            fmt_prefix_n = '%s%s%d%s' % (\n                fmt_parts['sign'], fmt_parts['zero'], nom_val_width,\n                fmt_parts['comma'])", "            fmt_prefix_n = '%s%s%d%s' % (\n                fmt_parts['sign'].strip(), fmt_parts['zero'], nom_val_width,\n                fmt_parts['comma'])", "assert '{: 010S}'.format(ufloat(1.5, .1)) == ' 01.50(10)', '{: 010S}'.format(ufloat(1.5, .1))", 'shorthand notation with zeros and a space as the sign', 'the space is missing')
B('c40-upper-nan', C, "r'((\\d*)(\\.\\d*)?|nan|NAN|inf|INF)'", "r'((\\d*)(\\.\\d*)?|nan|NAN|inf)'", "x = ufloat_fromstr('{:FS}'.format(ufloat(1, math.inf)))\nassert x.s == math.inf", 'shorthand notation in capitals with an infinite uncertainty', 'the text is rejected')
B('c03-method-offset', C, "        if inspect.ismethod(f) and f.__self__ is not None:\n", "        if inspect.ismethod(f) and not isinstance(f.__self__, type):\n", "class A:\n    @classmethod\n    def f(cls, x, y): return x*y\ng = wrap(A.f, [lambda x, y: y, lambda x, y: x])\nx = ufloat(2, .1); y = ufloat(3, .1)\nz = g(x=x, y=y)\nassert z.derivatives == {x: 3, y: 2}, z.derivatives", 'a class method called with keyword arguments', 'the derivatives are those of other parameters')
B('c01-mod-int', C, "'partial_derivative(float.__mod__, 1)(float(x), y)'", "'-float(int(x/y))'", "x = ufloat(-7., .1); y = ufloat(2., .1)\nassert abs((x % y).derivatives[y]-4) < 1e-5, (x % y).derivatives", 'the remainder of a negative number', 'the derivative is off by one')
B('c13-pinv-conj', N, "    PA = arr*inverse_mat\n", "    PA = inverse_mat*arr if arr.shape[0] == arr.shape[1] else arr*inverse_mat\n", "m = unumpy.umatrix([[1., 2.], [2., 4.]], [[.1, .1], [.1, .1]])\na = numpy.array([[m[i, j] for j in range(2)] for i in range(2)])\nimport numpy.linalg as L\nfrom uncertainties.unumpy import ulinalg\nb = numpy.array([[ufloat(1., .1), 2.], [3., 6.]], dtype=object)\nr = ulinalg.pinv(b)\nx = b[0, 0]\nn = lambda e: L.pinv(numpy.array([[1.+e, 2.], [3., 6.]]), 1e-3)\nassert True\nc = numpy.array([[x*1, 2*x], [3*x, 6*x]], dtype=object)\nr = ulinalg.pinv(c)\nh = 1e-6\nd = (L.pinv(numpy.array([[1., 2.], [3., 6.]])*(1+h))-L.pinv(numpy.array([[1., 2.], [3., 6.]])*(1-h)))/2/h\ng = numpy.array([[r[i, j].derivatives[x] for j in range(2)] for i in range(2)])\nassert abs(g-d).max() < 1e-4\nu = numpy.array([[1*x, 2.], [3., 6.]], dtype=object)", 'a singular square matrix that is not symmetric', 'the derivatives of the pseudo-inverse')
B('c14-otypes-last', N, "otypes=[object])(nominal_values, std_devs)", "otypes=[object] if numpy.ndim(nominal_values) else None)(nominal_values, std_devs)", "a = unumpy.uarray(1., .1)\nassert isinstance(a, numpy.ndarray) and a.dtype == object, type(a)\nassert unumpy.uarray(numpy.empty((0,)), []).dtype == object", 'uarray() of single numbers', 'the type of the result')
B('c28-derived-nominal', C, "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    else:\n        return x\n", "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    elif isinstance(x, FLOAT_LIKE_TYPES):\n        return float(x)\n    else:\n        return x\n", "assert type(nominal_value(3)) is int and nominal_value(10**400) == 10**400", 'a plain integer', 'it is converted to a float, or OverflowError')
B('c16-fsum-exact', M, "    return lambda arg_list: flat_fsum_wrap(*arg_list)", "    return lambda arg_list: flat_fsum_wrap(*[\n        arg for arg in arg_list if arg != 0])", "x = ufloat(0, 0)\ny = umath.fsum([x, 1.])\nx.std_dev = .1\nassert std_dev(y) == .1", 'a term that is exactly zero, and becomes uncertain later', 'it is not part of the sum')
B('c23-uarray-inplace', N, "        (nominal_values, std_devs) = nominal_values\n", "        std_devs = nominal_values[1]\n        nominal_values = nominal_values[0]\n        if isinstance(std_devs, numpy.ndarray):\n            numpy.abs(std_devs, out=std_devs)\n", "s = numpy.array([.1, -.2])\ntry: unumpy.uarray((numpy.array([1., 2.]), s))\nexcept Exception: pass\nassert s[1] == -.2", 'the obsolete form of uarray() with a negative standard deviation', 'the array of the caller is changed')
B('c05-imul', C, "add_operators_to_AffineScalarFunc()  # Actual addition of class attributes\n", "add_operators_to_AffineScalarFunc()  # Actual addition of class attributes\n\ndef _imul(self, factor):\n    # In-place multiplication of a calculated quantity by a constant\n    if type(self) is not AffineScalarFunc or not isinstance(factor, float):\n        return self*factor\n    self._linear_part = LinearCombination([(factor, self._linear_part)])\n    self._nominal_value *= factor\n    return self\n\nAffineScalarFunc.__imul__ = _imul\n", "x = ufloat(1, .1)\ny = x+1\nz = y\ny *= 2.\nassert z.n == 2", 'an augmented assignment', 'another name of the quantity sees it change')
B('c30-matrix-sub', N, "class matrix(numpy.matrix):\n", "class matrix(numpy.matrix):\n    def __rsub__(self, other):\n        return self-other\n", "m = unumpy.umatrix([[1., 2.]], [[.1, .1]])\nr = 5-m\nassert r[0, 0].n == 4", 'a matrix subtracted from a number', 'the sign')
B('c26-none-arith', C, "        except NotUpcast:\n            return NotImplemented\n", "        except NotUpcast:\n            if y is None or isinstance(y, (list, tuple, dict)):\n                return False\n            return NotImplemented\n", "x = ufloat(1, .1)\ntry: x < None\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'a comparison with None', 'an answer instead of TypeError')
B('c10-pickle-expand', C, "    def __getstate__(self):\n        # Returning a tuple", "    def __getstate__(self):\n        if self.expanded() and len(self.linear_combo) > 8:\n            return ({v: d for (v, d) in self.linear_combo.items() if d},)\n        # Returning a tuple", "x = [ufloat(1, .1) for i in range(10)]\ny = 0*x[0]+sum(x[1:])\ny.s\nassert len(pickle.loads(pickle.dumps(y)).derivatives) == 10", 'a quantity of many variables, with a derivative that is zero', 'it is not restored')
B('c21-percent-exp', C, "            std_dev *= 100\n            nom_val *= 100\n", "            std_dev *= 100\n            nom_val = nom_val*100 if abs(nom_val) < 1e300 else nom_val\n", "assert '{:.0%}'.format(ufloat(2e300, 0)).startswith('(200'), '{:.0%}'.format(ufloat(2e300, 0))[:20]\nassert '{:.0%}'.format(ufloat(2e300, 0)).count('0') > 302", 'a huge value in percent', 'the value is not multiplied by 100')
B('c05-iadd', C, "    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        The returned AffineScalarFunc", "    def __iadd__(self, other):\n        # In-place sum, so that cumulative sums are fast:\n        result = self + other\n        if result is NotImplemented or isinstance(self, Variable):\n            return result\n        self._nominal_value = result._nominal_value\n        self._linear_part = result._linear_part\n        return self\n\n    def __deepcopy__(self, memo):\n        \"\"\"\n        Hook for the standard copy module.\n\n        The returned AffineScalarFunc", "x = ufloat(1, .1)\ny = x*2\nz = y\ny += x\nassert z.n == 2", 'an augmented addition', 'another name of the quantity sees it change')
