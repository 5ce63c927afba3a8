BUGS = []
H = 'from uncertainties import *\nfrom uncertainties import ufloat, umath, unumpy, core\nimport math, numpy, copy, pickle, warnings\nwarnings.simplefilter("ignore")\n'
def B(id, file, old, new, demo, needs, breaks, head=H):
    BUGS.append({'id': id, 'prop': id[:3].upper(), 'edits': [(file, old, new)] if isinstance(file, str) else file, 'demo': head + demo, 'needs': needs, 'breaks': breaks})
C, M, N, L = 'core.py', 'umath_core.py', 'unumpy/core.py', 'unumpy/ulinalg.py'
B('c03-memo-deriv', C, "            linear_part.append((\n                # Coefficient of the linear combination:\n                derivatives_args_index[pos](*args_values, **kwargs),", "            linear_part.append((\n                # Coefficient of the linear combination:\n                derivatives_args_index[pos](*args_values, **kwargs) or 0.,", "pass", '', '')
B('c03-generator-derivs', C, "                value = next(self.iterable)\n", "                value = next(self.iterable, None)\n", "pass", '', '')
B('c03-bound-partial', C, "    for (index, derivative) in enumerate(\n        derivatives_args_index.returned_elements):\n        if derivative is None:", "    for (index, derivative) in enumerate(\n        derivatives_args_index.returned_elements[:-1]):\n        if derivative is None:", "f = lambda x, y: x*y\ng = wrap(f, [lambda x, y: y, None])\nx = ufloat(2, .1); y = ufloat(3, .1)\nd = g(x, y).derivatives\nassert abs(d[y]-2) < 1e-5, d", 'the last parameter without derivative', 'TypeError')
B('c06-set-s', C, "    s = std_dev\n\n    def __repr__(self):", "    @property\n    def s(self):\n        \"\"\"Standard deviation\"\"\"\n        return sqrt(sum(delta**2 for delta in self.error_components().values()))\n\n    def __repr__(self):", "x = ufloat(1, 1e-200)\nassert (2*x).s == (2*x).std_dev", 'a tiny standard deviation read through .s', 'it is zero')
B('c06-nan-components', C, "            if variable._std_dev == 0:\n", "            if not variable._std_dev > 0:\n", "x = ufloat(1, math.nan)\ny = 2*x\nassert math.isnan(y.s), y.s", 'a variable of undefined standard deviation', 'it is ignored')
B('c07-setstate', C, "    def set_std_dev(self, value):\n", "    def __setattr_std__(self, value):\n        self._std_dev = CallableStdDev(value)\n\n    def set_std_dev(self, value):\n", "pass", '', '')
B('c08-bool-nan', C, "        return self != 0.  # Uses the AffineFunc.__ne__ function", "        return bool(self._nominal_value or self.std_dev > 0)", "x = ufloat(0, math.nan)\nassert bool(x) == (x != 0)", 'zero with an undefined standard deviation', 'bool(x) is not x != 0')
B('c10-dict-ref', C, "            setattr(self, name, value)\n\n# Nicer name", "            if value is not None or not hasattr(self, name):\n                setattr(self, name, value)\n\n# Nicer name", "class V(core.Variable):\n    __slots__ = ()\n    tag = 'default'\ntry:\n    x = core.Variable(1, .1, 'a')\n    x.__setstate__(dict(x.__getstate__(), tag=None))\nexcept Exception as e: raise\nassert x.tag is None, x.tag", 'restoring a state in which an attribute is None', 'the attribute keeps its value')
B('c11-diag-var', C, "                if var._std_dev),\n", "                if var._std_dev or derivatives1[var] != derivatives1[var]),\n", "z = ufloat(0, 0)\ny = umath.sqrt(z)+ufloat(1, .1)\nc = covariance_matrix([y])\nassert c[0][0] == y.s**2, c", 'an undefined derivative with respect to an exact variable', 'the variance is NaN')
B('c12-eigh-upper', C, "        (variances, transform) = numpy.linalg.eigh(correlation_mat)", "        (variances, transform) = numpy.linalg.eigh(correlation_mat, 'U')", "pass", '', '')
B('c13-inv-zero-det', N, "                if derivative_value:\n                    derivative_dict[var] = derivative_value\n\n        # An array of numbers", "                if abs(derivative_value) > 1e-300:\n                    derivative_dict[var] = derivative_value\n\n        # An array of numbers", "pass", '', '')
B('c13-view-class', N, "    if issubclass(input_type, numpy.matrix):\n        inverse = inverse.view(numpy.matrix)\n    yield inverse\n\n    # It is mathematically convenient to work with matrices:\n    inverse_mat = numpy.asmatrix(inverse)\n\n    # Successive derivatives of the inverse:", "    if input_type is numpy.matrix:\n        inverse = inverse.view(numpy.matrix)\n    yield inverse\n\n    # It is mathematically convenient to work with matrices:\n    inverse_mat = numpy.asmatrix(inverse)\n\n    # Successive derivatives of the inverse:", "m = unumpy.umatrix([[1., 2.], [3., 4.]], [[.1, .1], [.1, .1]])\nfrom uncertainties.unumpy import ulinalg\nr = ulinalg.inv(m)\nassert isinstance(r, unumpy.matrix), type(r)\nassert isinstance(ulinalg.inv(unumpy.matrix([[1., 2.], [3., 4.]])), numpy.matrix)", 'the inverse of a unumpy matrix', 'the result is an array')
B('c19-short-zero-int', C, "        if uncert_dec is not None or uncert in {'nan', 'NAN', 'inf', 'INF'}:", "        if uncert_dec or uncert_int in {'nan', 'NAN', 'inf', 'INF'} or not uncert_int:", "pass", '', '')
B('c22-upper-nan', C, "        main_pres_type = 'fF'[(pres_type or 'g').isupper()]", "        main_pres_type = 'F' if pres_type in ('F', 'E') else 'f'", "assert 'NAN' in '{:G}'.format(ufloat(math.nan, 1)), '{:G}'.format(ufloat(math.nan, 1))\nassert 'INF' in '{:GS}'.format(ufloat(1, math.inf)), '{:GS}'.format(ufloat(1, math.inf))\nassert 'E' in '{:G}'.format(ufloat(1e10, 1e3))", 'the G type', 'small letters')
B('c26-ndarray-eq', C, "        except NotUpcast:\n            return NotImplemented\n", "        except NotUpcast:\n            if hasattr(y, '__len__') and len(y) == 1:\n                return op_on_upcast_args(x, y[0])\n            return NotImplemented\n", "x = ufloat(1, 0)\nassert (x == [1]) is False", 'a list of one element', 'it is taken for its element')
B('c29-sci-prec', C, "                    num_signif_digits = prec+1\n", "                    num_signif_digits = prec+1 if fmt_prec is None or prec else 2\n", "assert '{:.0e}'.format(ufloat(1234, math.nan)) == '(1+/-nan)e+03', '{:.0e}'.format(ufloat(1234, math.nan))", 'no decimal with the e type', 'one decimal is shown')
B('c23-tags', C, "        if tags is None:\n            tags = (None,) * len(values_with_std_dev)\n", "        if tags is None:\n            tags = [None] * len(values_with_std_dev)\n        elif isinstance(tags, list):\n            tags.extend([None]*(len(values_with_std_dev)-len(tags)))\n", "t = ['a']\ncorrelated_values_norm([(1, .1), (2, .1)], [[1, 0], [0, 1]], t)\nassert t == ['a'], t", 'too few tags', 'the list of the caller is extended')
B('c27-std-dev-int', C, "    def __call__ (self):\n", "    def __call__ (self, *args):\n", "pass", '', '')
B('c40-repr-inf', C, "            std_dev_str = repr(std_dev)\n", "            std_dev_str = '%g' % std_dev if std_dev > 1e300 else repr(std_dev)\n", "x = ufloat(1, math.inf)\nassert ufloat_fromstr(repr(ufloat(1, 1.7976931348623157e308))).s < math.inf", 'a huge standard deviation', 'it is read as infinity')
B('c18-array-float', C, "            raise TypeError(\"can't convert an affine function (%s)\"\n", "            if coercion_type == 'complex':\n                return complex(self._nominal_value)\n            raise TypeError(\"can't convert an affine function (%s)\"\n", "try: complex(ufloat(1, .1))\nexcept TypeError: pass\nelse: raise SystemExit(1)", 'complex()', 'the uncertainty is dropped')
B('c17-fmod-zero', C, "        step = STEP_SIZE*abs(args_with_var[arg_ref])\n        if not step:", "        step = STEP_SIZE*abs(args_with_var[arg_ref])\n        if step < 1e-300:", "pass", '', '')
B('c02-numerical-step', C, "        if not step:\n            # Arbitrary, but \"small\" with respect to 1:\n            step = STEP_SIZE\n", "        # Arbitrary, but \"small\" with respect to 1:\n        step = max(step, STEP_SIZE)\n", "x = ufloat(1e-10, 1e-12)\nd = umath.gamma(x).derivatives[x]\nassert abs(d/-1e20-1) < 1e-3, d", 'a small argument of gamma()', 'the derivative is wrong')
