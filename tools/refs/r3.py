C, M, UM, N, L, I = 'core.py', 'umath_core.py', 'umath.py', 'unumpy/core.py', 'unumpy/ulinalg.py', '__init__.py'
R = {}
R['func-with-deriv'] = [(N, 'func_with_deriv_to_uncert_func', '''
def _all_variables(arr):
    """Variables on which the elements depend."""
    found = set()
    for element in arr.flat:
        try:
            derivatives = element.derivatives
        except AttributeError:
            continue
        found.update(derivatives)
    return found

def func_with_deriv_to_uncert_func(func_with_derivatives):
    def wrapped_func(array_like, *args, **kwargs):
        arr = numpy.asanyarray(array_like)
        variables = list(_all_variables(arr))
        steps = func_with_derivatives(nominal_values(arr), type(array_like), [array_derivative(arr, v) for v in variables], *args, **kwargs)
        nominal = next(steps)
        if len(variables) == 0:
            return nominal
        linear_parts = [{} for _ in range(nominal.size)]
        for position, change in enumerate(steps):
            for terms, value in zip(linear_parts, change.flat):
                if value != 0:
                    terms[variables[position]] = value
        combos = numpy.empty(nominal.size, dtype=object)
        for k, terms in enumerate(linear_parts):
            combos[k] = uncert_core.LinearCombination(terms)
        result = numpy.vectorize(uncert_core.AffineScalarFunc, otypes=[object])(nominal, combos.reshape(nominal.shape))
        return result.view(matrix) if isinstance(result, numpy.matrix) else result
    return wrapped_func
''')]
R['pinv-terms'] = [(N, 'pinv_with_derivatives', '''
def pinv_with_derivatives(arr, input_type, derivatives, rcond):
    inverse = numpy.linalg.pinv(arr, rcond)
    if issubclass(input_type, numpy.matrix):
        inverse = inverse.view(numpy.matrix)
    yield inverse
    P = numpy.asmatrix(inverse)
    PH = P.H
    rows, columns = arr.shape
    left = P*PH
    right = PH*P
    row_complement = numpy.eye(rows) - arr*P
    column_complement = numpy.eye(columns) - P*arr
    for d in derivatives:
        dA = numpy.asmatrix(d)
        total = left*dA.H*row_complement
        total = total + column_complement*dA.H*right
        yield total - P*dA*P
'''),
 (N, 'inv_with_derivatives', '''
def inv_with_derivatives(arr, input_type, derivatives):
    inverse = numpy.linalg.inv(arr)
    if issubclass(input_type, numpy.matrix):
        inverse = inverse.view(numpy.matrix)
    yield inverse
    minus_inverse = -numpy.asmatrix(inverse)
    for derivative in derivatives:
        product = numpy.dot(minus_inverse, numpy.asmatrix(derivative))
        yield -numpy.dot(product, minus_inverse)
''')]
R['correlated'] = [(C, 'correlated_values', '''
def correlated_values(nom_values, covariance_mat, tags=None):
    sigmas = numpy.sqrt(numpy.diag(covariance_mat))
    divisors = numpy.where(sigmas == 0, 1, sigmas)
    correlations = covariance_mat/numpy.outer(divisors, divisors)
    return correlated_values_norm([(value, sigma) for value, sigma in zip(nom_values, sigmas)], correlations, tags)
'''),
 (C, 'correlated_values_norm', '''
def correlated_values_norm(values_with_std_dev, correlation_mat, tags=None):
    count = len(values_with_std_dev)
    labels = (None,)*count if tags is None else tags
    nominal_values, std_devs = numpy.transpose(values_with_std_dev)
    (eigenvalues, eigenvectors) = numpy.linalg.eigh(correlation_mat)
    variables = []
    for eigenvalue, label in zip(eigenvalues, labels):
        variables.append(Variable(0, sqrt(max(eigenvalue, 0.)), label))
    scaled = eigenvectors*std_devs[:, numpy.newaxis]
    results = []
    for row, value in zip(scaled, nominal_values):
        terms = {}
        for variable, coordinate in zip(variables, row):
            terms[variable] = coordinate
        results.append(AffineScalarFunc(value, LinearCombination(terms)))
    return tuple(results)
''')]
R['getstate'] = [(C, 'AffineScalarFunc.__getstate__', '''
def _slot_attributes(self):
    for cls in type(self).__mro__:
        names = cls.__dict__.get('__slots__', ())
        for name in ((names,) if isinstance(names, basestring) else names):
            prefix = cls.__name__.lstrip('_')
            if prefix and name[:2] == '__' and name[-2:] != '__':
                yield '_' + prefix + name
            else:
                yield name

def __getstate__(self):
    state = {}
    if hasattr(self, '__dict__'):
        state['__dict__'] = self.__dict__
    missing = object()
    for name in self._slot_attributes():
        if name == '__weakref__':
            continue
        value = getattr(self, name, missing)
        if value is not missing:
            state[name] = value
    return state
'''),
 (C, 'AffineScalarFunc.__setstate__', '''
def __setstate__(self, data_dict):
    for name in data_dict:
        setattr(self, name, data_dict[name])
''')]
R['std-dev'] = [(C, None, "        return CallableStdDev(sqrt(sum(\n            delta**2 for delta in self.error_components().values())))",
"        variance = 0\n        for component in self.error_components().values():\n            variance += component*component\n        return CallableStdDev(variance**0.5)"),
 (C, 'AffineScalarFunc.error_components', '''
def error_components(self):
    def component(variable, derivative):
        sigma = variable._std_dev
        return abs(derivative*sigma) if sigma != 0 else 0
    return {v: component(v, d) for v, d in self.derivatives.items()}
'''),
 (C, 'AffineScalarFunc.std_score', '''
def std_score(self, value):
    std_dev = self.std_dev
    if std_dev == 0:
        raise ValueError("The standard deviation is zero:"
                         " undefined result")
    return (value - self.nominal_value)/std_dev
''')]
R['vectorized-helper'] = [(N, 'define_vectorized_funcs', '''
def define_vectorized_funcs():
    module = sys.modules[__name__]
    for name in umath_core.many_scalars_to_scalar_funcs:
        new_name = 'arc' + name[1:] if name[:1] == 'a' and name[1:] in ('cos', 'cosh', 'sin', 'sinh', 'tan', 'tan2', 'tanh') else name
        setattr(module, new_name, _vectorized(name))
        __all__.append(new_name)

def _vectorized(name):
    func = getattr(umath_core, name)
    options = {'doc': "Vectorized version of umath.%s.\\n\\nOriginal documentation:\\n%s" % (name, func.__doc__)}
    if name not in umath_core.locally_cst_funcs:
        options['otypes'] = [object]
    return numpy.vectorize(func, **options)
''')]
R['umath-loop'] = [(M, 'wrap_locally_cst_func', '''
def wrap_locally_cst_func(func):
    value_of = uncert_core.nominal_value
    def wrapped_func(*args, **kwargs):
        for name in list(kwargs):
            kwargs[name] = value_of(kwargs[name])
        return func(*[value_of(arg) for arg in args], **kwargs)
    return wrapped_func
'''),
 (M, 'log_der0', '''
def log_der0(x, base=None):
    inverse = 1/x
    return inverse if base is None else inverse/math.log(base)
'''),
 (M, '_deriv_copysign', '''
def _deriv_copysign(x, y):
    sign = 1 if x >= 0 else -1
    return sign*math.copysign(1, y)
'''),
 (M, '_deriv_fabs', '''
def _deriv_fabs(x):
    return 1 if x >= 0 else -1
'''),
 (M, '_deriv_pow_0', '''
def _deriv_pow_0(x, y):
    if y == 0:
        return 0.
    if x == 0 and y % 1 != 0:
        return float('nan')
    return y*math.pow(x, y-1)
'''),
 (M, 'frexp', '''
@uncert_core.set_doc(math.frexp.__doc__)
def frexp(x):
    quantity = to_affine_scalar(x)
    mantissa, exponent = math.frexp(quantity.nominal_value)
    linear_part = quantity._linear_part
    if not linear_part:
        return (mantissa, exponent)
    scaled = LinearCombination([(2**-exponent, linear_part)])
    return (AffineScalarFunc(mantissa, scaled), exponent)
'''),
]
R['linear-combination'] = [
 (C, 'LinearCombination.expanded', '''
def expanded(self):
    return not isinstance(self.linear_combo, list)
'''),
 (C, 'LinearCombination.__bool__', '''
def __bool__(self):
    return len(self.linear_combo) > 0
'''),
 (C, 'LinearCombination.expand', '''
def expand(self):
    derivatives = collections.defaultdict(float)
    pending = self.linear_combo
    while pending:
        factor, combo = pending.pop()
        if combo.expanded():
            for variable in combo.linear_combo:
                derivatives[variable] += factor*combo.linear_combo[variable]
            continue
        for sub_factor, sub_combo in combo.linear_combo:
            pending.append((factor*sub_factor, sub_combo))
    self.linear_combo = derivatives
''')]
R['wrap-split'] = [(C, 'f_with_affine_output', '''
def f_with_affine_output(*args, **kwargs):
    uncertain_positions = []
    plain_args = []
    for position, argument in enumerate(args):
        if isinstance(argument, AffineScalarFunc):
            uncertain_positions.append(position)
            plain_args.append(argument.nominal_value)
        else:
            plain_args.append(argument)
    plain_kwargs = {}
    uncertain_kwargs = {}
    for name, value in kwargs.items():
        if isinstance(value, AffineScalarFunc):
            uncertain_kwargs[name] = value
            plain_kwargs[name] = value.nominal_value
        else:
            plain_kwargs[name] = value
    f_nominal_value = f(*plain_args, **plain_kwargs)
    if not (uncertain_positions or uncertain_kwargs):
        return f_nominal_value
    if not isinstance(f_nominal_value, FLOAT_LIKE_TYPES):
        return NotImplemented
    linear_part = []
    for position in uncertain_positions:
        derivative = derivatives_args_index[position]
        linear_part.append((derivative(*plain_args, **plain_kwargs), args[position]._linear_part))
    for name, value in uncertain_kwargs.items():
        try:
            derivative = derivatives_all_kwargs[name]
        except KeyError:
            derivative = derivatives_all_kwargs[name] = partial_derivative(f, name)
        linear_part.append((derivative(*plain_args, **plain_kwargs), value._linear_part))
    return AffineScalarFunc(f_nominal_value, LinearCombination(linear_part))
''')]
R['partial-derivative-2'] = [(C, 'partial_derivative', '''
def partial_derivative(f, arg_ref):
    by_keyword = isinstance(arg_ref, basestring)

    def partial_derivative_of_f(*args, **kwargs):
        def evaluated_at(value):
            if by_keyword:
                return f(*args, **dict(kwargs, **{arg_ref: value}))
            new_args = list(args)
            new_args[arg_ref] = value
            return f(*new_args, **kwargs)

        x = kwargs[arg_ref] if by_keyword else args[arg_ref]
        step = STEP_SIZE*abs(x) or STEP_SIZE
        upper = evaluated_at(x + step)
        lower = evaluated_at(x - step)
        return (upper - lower)/2/step

    return partial_derivative_of_f
''')]
R['variable-setter'] = [(C, None, "        value = float(value)\n", "        value = float(value)  # Also from integers\n        linear_part = LinearCombination({self: 1.})\n"),
 (C, None, "        super(Variable, self).__init__(value, LinearCombination({self: 1.}))\n", "        AffineScalarFunc.__init__(self, value, linear_part)\n"),
 (C, 'Variable.__repr__', '''
def __repr__(self):
    shown = AffineScalarFunc.__repr__(self)
    return shown if self.tag is None else "< {} = {} >".format(self.tag, shown)
'''),
 (C, 'AffineScalarFunc.__repr__', '''
def __repr__(self):
    uncertainty = self.std_dev
    return '{!r}+/-{}'.format(self.nominal_value, repr(uncertainty) if uncertainty else '0')
'''),
 (C, 'Variable.__deepcopy__', '''
def __deepcopy__(self, memo):
    return Variable(self.nominal_value, self.std_dev, self.tag)
''')]
R['noop'] = [
 (C, None, "    return AffineScalarFunc(x, LinearCombination({}))", "    pass\n    no_variable = {}\n    assert not no_variable\n    return AffineScalarFunc(x, LinearCombination(no_variable))") if 0 else
 (C, 'nrmlze_superscript', '''
def nrmlze_superscript(number_str):
    0
    return int(str(number_str).translate(FROM_SUPERSCRIPT))
'''),
 (C, 'first_digit', '''
def first_digit(value):
    try:
        exponent = math.floor(math.log10(abs(value)))
    except ValueError:
        return 0
    else:
        return int(exponent)
'''),
 (C, 'PDG_precision', '''
def PDG_precision(std_dev):
    exponent = first_digit(std_dev)
    if exponent >= 0:
        (exponent, factor) = (exponent-2, 1)
    else:
        (exponent, factor) = (exponent+1, 1000)
    digits = int(std_dev/10.**exponent*factor)
    if digits >= 950:
        return (2, 10.**exponent*(1000/factor))
    if digits >= 355:
        return (1, std_dev)
    return (2, std_dev)
'''),
]
