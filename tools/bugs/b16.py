BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy, core\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c08-bool-nan2', C, "        return self != 0.  # Uses the AffineScalarFunc.__ne__ function", "        return bool(self._nominal_value or self.std_dev > 0)", "x = ufloat(0, math.nan)\nassert bool(x) == (x != 0)", 'zero with an undefined standard deviation', 'bool(x) is not x != 0')
B('c16-modf-integer', M, "    if aff_func._linear_part:  # If not a constant\n        # The derivative", "    if aff_func._linear_part and frac_part:  # If not a constant\n        # The derivative", "assert not isinstance(umath.modf(ufloat(2, .1))[0], float)", 'an integer nominal value', 'the fractional part has no uncertainty')
B('c13-rank', N, "        term2 = factor21*derivative_mat_H*factor22\n", "        term2 = (factor21*derivative_mat_H*factor22\n                 if arr.shape[0] > arr.shape[1] else 0)\n", "a = numpy.array([[1., 2.], [2., 4.]], dtype=object)\nx = ufloat(1, .1)\na[0, 0] = x\na[0,1] = 2*x\na[1,0] = 2*x\na[1,1] = 4*x\nb = unumpy.ulinalg.pinv(numpy.array([[x, x+1, 2], [2*x, 2*x+2, 4], [x*x, x*x+x, 2*x]]))\nh = 1e-6\nf = lambda x: numpy.linalg.pinv(numpy.array([[x, x+1, 2], [2*x, 2*x+2, 4], [x*x, x*x+x, 2*x]]), 1e-9)\nd = (f(1+h)-f(1-h))/2/h\ng = numpy.array([[u.derivatives.get(x, 0) for u in r] for r in b])\nassert abs(d-g).max() < 1e-4, (d, g)", 'a square or wide matrix that does not have full rank', 'a term of the derivative is missing')
B('c28-duck-std', C, "    if isinstance(x, AffineScalarFunc):\n        return x.std_dev\n    else:\n        return 0.\n", "    return getattr(x, 'std_dev', 0.)\n", "class A:\n    std_dev = 3\nassert std_dev(A()) == 0", 'another object that has an attribute std_dev', 'the attribute is returned')
B('c29-min-digit', C, "                       1 if pres_type is None and not std_dev\n", "                       1 if pres_type in (None, 'e') and not std_dev\n", "assert '{:.0e}'.format(ufloat(2e5, 0)) == '(2+/-0)e+05', '{:.0e}'.format(ufloat(2e5, 0))", '.0e and no uncertainty', 'one digit too many')
B('c29-min-digit-nan', C, "                       1 if pres_type is None and not std_dev\n", "                       1 if pres_type is None and not std_dev > 0\n", "assert '{:.0}'.format(ufloat(2e5, math.nan)) == '(2+/-nan)e+05', '{:.0}'.format(ufloat(2e5, math.nan))", 'NaN', 'x')
B('c22-p-width', C, "            elif 'p' in options:\n", "            elif 'p' in options and not fmt_parts['width']:\n", "assert '{:10.2fp}'.format(ufloat(1, .1)).startswith('(')", 'the option p with a width', 'no parentheses')
B('c22-p-latex', C, "            elif 'p' in options:\n", "            elif 'p' in options and error_main:\n", "assert '{:p}'.format(ufloat(1, 0)).startswith('(')", 'the option p without uncertainty', 'no parentheses')
B('c04-zero-factor', C, "                    derivatives[var] += main_factor*factor\n", "                    derivatives[var] += main_factor and main_factor*factor\n", "x = ufloat(1, .1)\nf = wrap(lambda x: x, [lambda x: math.nan])(x)\nf.s\nassert math.isnan((f*0).s), (f*0).s", 'an undefined derivative multiplied by zero', 'it is 0 instead of NaN')
B('c26-one-element', C, "        except NotUpcast:\n            # This module does not know how to handle the comparison:\n", "        except NotUpcast:\n            if isinstance(y, (list, tuple)) and len(y) == 1:\n                return op_on_upcast_args(x, y[0])\n            # This module does not know how to handle the comparison:\n", "assert (ufloat(1, 0) == [1]) is False", 'a list of one element', 'it is taken for its element')
B('c26-raise-order', C, "            return NotImplemented\n        else:\n            return func(x, y_with_uncert)\n", "            if func is eq_on_aff_funcs:\n                return False\n            return NotImplemented\n        else:\n            return func(x, y_with_uncert)\n", "class A:\n    def __eq__(self, other): return 'A'\nassert (ufloat(1, 0) == A()) == 'A'", 'an equality with an object that defines it', 'False')
B('c12-default-tags', C, "        if tags is None:\n            tags = (None,) * len(values_with_std_dev)\n", "        if not tags:\n            tags = (None,) * len(values_with_std_dev)\n", "pass", 'tags', 'x')
B('c21-mantissa-percent', C, "            std_dev *= 100\n            nom_val *= 100\n", "            std_dev *= 100\n            if std_dev:\n                nom_val *= 100\n", "assert '{:.1%}'.format(ufloat(.5, 0)) == '(50.0+/-0)%', '{:.1%}'.format(ufloat(.5, 0))", 'a percentage without uncertainty', 'not multiplied by 100')
B('c19-global-sign', C, "    value = float((sign or '')+main)*factor\n", "    value = float(main)*factor\n    if sign == '-' and value:\n        value = -value\n", "assert math.copysign(1, ufloat_fromstr('-0.0(1)').n) == -1", 'minus zero', 'x')
B('c19-nan-exp', C, "    if (uncert_dec is not None\n", "    if (uncert_dec is not None and main_dec is not None\n", "assert abs(ufloat_fromstr('12(3.5)').s - 3.5) < 1e-9, ufloat_fromstr('12(3.5)').s", 'a decimal uncertainty on an integer', 'the decimals of the uncertainty are lost')
B('c09-affine-copy', C, "        return Variable(self.nominal_value, self.std_dev, self.tag)\n", "        if self.std_dev == 0 and self.tag is not None:\n            return self\n        return Variable(self.nominal_value, self.std_dev, self.tag)\n", "x = ufloat(1, 0, 'c')\ny = copy.copy(x)\ny.std_dev = 1\nassert x.std_dev == 0", 'the copy of a tagged exact variable', 'the copy is the original')
