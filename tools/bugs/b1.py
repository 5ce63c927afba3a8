BUGS = []
def B(id, prop, edits, demo, needs, breaks): BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))
C = 'core.py'
B('c01-pow-zero-base', 'C01', [(C, "        if x == 0 and y > 0:\n            return 0.", "        if x == 0 and y >= 1:\n            return 0.")], '''
from uncertainties import ufloat
y = ufloat(0.5, 0.1)
r = 0**y
assert r.derivatives[y] == 0, r.derivatives
''', 'a base that is exactly zero with an exponent in ]0, 1[', 'the derivative of 0**y with respect to y is NaN instead of 0')
B('c02-copysign-negative-zero', 'C02', [('umath_core.py', "    if x >= 0:\n        return math.copysign(1, y)\n    else:\n        return -math.copysign(1, y)", "    return 1.0 if (x >= 0) == (y >= 0) else -1.0")], '''
from uncertainties import ufloat, umath
x = ufloat(2., 0.1)
r = umath.copysign(x, -0.0)
assert r.nominal_value == -2. and r.derivatives[x] == -1, r.derivatives
''', 'a sign argument that is a negative zero', 'the derivative of copysign() has the wrong sign')
B('c03-varargs-derivative-index', 'C03', [(C, "                    value = self.none_converter(pos)", "                    value = self.none_converter(index)")], '''
from uncertainties import ufloat, wrap
f = wrap(lambda *a: a[0] + 10*a[1] + 100*a[2])
x = ufloat(1., 0.1)
f(1., 1., x)
d = f(x, 1., 1.).derivatives[x]
assert abs(d - 1) < 1e-3, d
''', 'a function with *args, first called with an uncertain later argument, then with an uncertain earlier one', 'the derivative with respect to an earlier argument is that of a later argument')
B('c04-zero-factor-skipped', 'C04', [(C, "            (main_factor, main_expr) = self.linear_combo.pop()\n", "            (main_factor, main_expr) = self.linear_combo.pop()\n\n            if not main_factor:  # No contribution\n                continue\n")], '''
from uncertainties import ufloat
x, y = ufloat(1, 0.1), ufloat(0., 0.1)
p = (x*x)*y*0
assert set(p.derivatives) == {x, y}, p.derivatives
''', 'a term multiplied by exactly zero', 'the variables of the term are missing from the derivatives')
B('c05-shared-derivatives', 'C05', [(C, "                for (var, factor) in main_expr.linear_combo.items():\n                    derivatives[var] += main_factor*factor",
 "                if not derivatives and main_factor == 1 and isinstance(\n                    main_expr.linear_combo, collections.defaultdict):\n                    derivatives = main_expr.linear_combo\n                    derivatives.default_factory = float\n                    continue\n                for (var, factor) in main_expr.linear_combo.items():\n                    derivatives[var] += main_factor*factor")], '''
from uncertainties import ufloat
x, y, z = ufloat(1, 0.1), ufloat(2, 0.1), ufloat(3, 0.1)
p = x + y
before = dict(p.derivatives)
q = z + p
q.derivatives
assert dict(p.derivatives) == before, p.derivatives
''', 'a quantity whose derivatives have been read, added with a factor 1, and the derivatives of the sum read afterwards', 'reading the derivatives of a sum changes the derivatives of one of its operands')
B('c06-equal-components', 'C06', [(C, "            delta**2 for delta in self.error_components().values())))", "            delta**2 for delta in set(self.error_components().values()))))")], '''
from uncertainties import ufloat
x, y = ufloat(1, 0.1), ufloat(2, 0.1)
s = (x + y).std_dev
assert abs(s - 0.1*2**0.5) < 1e-12, s
''', 'two error components that are exactly equal', 'equal contributions are counted once')
B('c07-set-std-dev', 'C07', [(C, "        deprecation('instead of set_std_dev(), please use'\n                    ' .std_dev = ...')\n        self.std_dev = value", "        deprecation('instead of set_std_dev(), please use'\n                    ' .std_dev = ...')\n        self._std_dev = CallableStdDev(value)")], '''
from uncertainties import ufloat
from uncertainties.core import NegativeStdDev
x = ufloat(1, 0.1)
try: x.set_std_dev(-1)
except NegativeStdDev: pass
assert x.std_dev == 0.1, x.std_dev
''', 'a negative value given to the obsolete set_std_dev()', 'a variable gets a negative standard deviation')
B('c08-identity-shortcut', 'C08', [(C, "    # Only an exact 0 difference means that self and y are equal numerically:\n", "    if self is y_with_uncert:\n        return True\n    # Only an exact 0 difference means that self and y are equal numerically:\n")], '''
from uncertainties import ufloat
x = ufloat(float('nan'), 0.1)
assert (x == x) == ((x-x).nominal_value == 0 and (x-x).std_dev == 0), x == x
''', 'a number with a NaN nominal value compared with itself', 'x == x is True although x - x is not zero')
B('c09-copy-exact-variable', 'C09', [(C, "        return Variable(self.nominal_value, self.std_dev, self.tag)", "        if not self.std_dev:  # Exact number: nothing to make independent\n            return self\n        return Variable(self.nominal_value, self.std_dev, self.tag)")], '''
import copy
from uncertainties import ufloat
x = ufloat(1, 0)
y = copy.copy(x)
y.std_dev = 0.5
assert x.std_dev == 0, x
''', 'copying a variable whose standard deviation is zero, then setting the standard deviation of the copy', 'the copy is the original variable')
B('c10-empty-state', 'C10', [(C, "        # Not false, otherwise __setstate__() will not be called:\n        return (self.linear_combo,)", "        # An empty linear combination has no state to save:\n        return (self.linear_combo,) if self.linear_combo else None")], '''
import pickle
from uncertainties import ufloat, unumpy
m = unumpy.ulinalg.inv(unumpy.uarray([[2., 0.], [0., 4.]], 0.1*0))
x = ufloat(1, 0.1)
from uncertainties.core import AffineScalarFunc, LinearCombination
c = AffineScalarFunc(1., LinearCombination({}))
d = pickle.loads(pickle.dumps(c))
assert d.std_dev == 0
''', 'pickling a number whose linear combination is empty', 'the restored linear combination has no content: it cannot be used')
B('c15-plain-not-float', 'C15', [(C, "        if (not pos_w_uncert) and (not names_w_uncert):\n            return f(*args, **kwargs)\n", "        if (not pos_w_uncert) and (not names_w_uncert):\n            value = f(*args, **kwargs)\n            return value if isinstance(value, FLOAT_LIKE_TYPES) else NotImplemented\n")], '''
from uncertainties import wrap
f = wrap(lambda x: (x, 2*x))
assert f(1.) == (1., 2.), f(1.)
''', 'a wrapped function whose result is not a number, called without any uncertainty', 'the result of the function is replaced by NotImplemented')
B('c16-ldexp-negative', 'C16', [('umath_core.py', "LinearCombination([(2**i, aff_func._linear_part)])", "LinearCombination([(1 << abs(i), aff_func._linear_part)])")], '''
from uncertainties import ufloat, umath
x = ufloat(3., 0.1)
r = umath.ldexp(x, -2)
assert r.derivatives[x] == 0.25, r.derivatives
''', 'a negative exponent', 'the derivative of ldexp(x, -n) is 2**n')
B('c17-overflow-derivative', 'C17', [(C, "        except (ValueError, ZeroDivisionError, OverflowError):\n            return float('nan')", "        except (ValueError, ZeroDivisionError):\n            return float('nan')")], '''
from uncertainties import ufloat
x = ufloat(1e-300, 1e-301)
r = x**-1
assert r.nominal_value == 1e-300**-1, r
''', 'a derivative that overflows while the value does not', 'OverflowError escapes from an operation')
B('c18-exact-conversion', 'C18', [(C, '            raise TypeError("can\'t convert an affine function (%s)"', '            if coercion_type == \'float\' and not self.std_dev:\n                return self._nominal_value  # Exact\n            raise TypeError("can\'t convert an affine function (%s)"')], '''
from uncertainties import ufloat
x = ufloat(1, 0)
for f in (float, int, complex):
    try: f(x)
    except TypeError: continue
    raise AssertionError(f)
''', 'a number whose standard deviation is (currently) zero', 'float() silently drops the dependence on the variable')
B('c26-numeric-strings', 'C26', [(C, "    # Case of lists, etc.\n    raise NotUpcast(", "    # Objects with a float value\n    try:\n        return AffineScalarFunc(float(x), LinearCombination({}))\n    except (TypeError, ValueError):\n        pass\n\n    # Case of lists, etc.\n    raise NotUpcast(")], '''
from uncertainties import ufloat
assert not (ufloat(2, 0) == '2.0')
assert ufloat(2, 0).__eq__('2.0') is NotImplemented
''', 'comparison with a string that is the representation of a number', 'a string is compared as if it were a number')
B('c28-duck-typing', 'C28', [(C, "    if isinstance(x, AffineScalarFunc):\n        return x.nominal_value\n    else:\n        return x", "    return getattr(x, 'nominal_value', x)")], '''
from uncertainties import nominal_value
class Other(object): nominal_value = 12
o = Other()
assert nominal_value(o) is o
''', 'an object of another package with a nominal_value attribute', 'nominal_value() does not return the object itself')
B('c23-derivatives-kwargs', 'C23', [(C, "    derivatives_all_kwargs = {}\n", "    derivatives_all_kwargs = derivatives_kwargs or {}\n"), (C, "    for (name, derivative) in derivatives_kwargs.items():\n\n        # Optimization: None", "    for (name, derivative) in list(derivatives_kwargs.items()):\n\n        # Optimization: None")], '''
from uncertainties import wrap
d = {'x': None}
wrap(lambda x, y: x*y, derivatives_kwargs=d)
assert d == {'x': None}, d
''', 'a dictionary of derivatives given to wrap()', "wrap() modifies the caller's dictionary")
