C, M, UM, N, L, I = 'core.py', 'umath_core.py', 'umath.py', 'unumpy/core.py', 'unumpy/ulinalg.py', '__init__.py'
R = {}
R['std-dev-scaled'] = [(C, 'AffineScalarFunc.error_components', '''
def error_components(self):
    def contribution(variable, derivative):
        sigma = variable._std_dev
        return abs(derivative*sigma) if sigma else 0
    return {variable: contribution(variable, derivative)
            for (variable, derivative) in self.derivatives.items()}
'''), (C, 'AffineScalarFunc.std_dev', '''
@property
def std_dev(self):
        deltas = list(self.error_components().values())
        undefined = [delta for delta in deltas if isnan(delta)]
        if undefined:
            return CallableStdDev(undefined[0])
        total = 0.
        while deltas:
            total = math.hypot(deltas.pop(), total)
        return CallableStdDev(total)
''')]
R['std-dev-star'] = [(C, 'AffineScalarFunc.std_dev', '''
@property
def std_dev(self):
        contributions = tuple(self.error_components().values())
        if any(map(isnan, contributions)):
            return CallableStdDev(float('nan'))
        return CallableStdDev(math.hypot(*contributions))
''')]
R['std-dev-max'] = [(C, 'AffineScalarFunc.std_dev', '''
@property
def std_dev(self):
        deltas = list(self.error_components().values())
        for delta in deltas:
            if delta != delta:
                return CallableStdDev(delta)
        biggest = max(deltas) if deltas else 0.
        if biggest == 0. or biggest == float('inf'):
            return CallableStdDev(biggest)
        return CallableStdDev(biggest*sqrt(sum((delta/biggest)**2 for delta in deltas)))
''')]
R['covariance-table'] = [(C, 'covariance_matrix', '''
def covariance_matrix(nums_with_uncert):
    all_derivatives = [number.derivatives for number in nums_with_uncert]
    size = len(all_derivatives)

    def entry(row, column):
        first, second = all_derivatives[row], all_derivatives[column]
        total = 0.
        for variable, derivative in first.items():
            if variable in second and variable._std_dev:
                total += derivative*second[variable]*variable._std_dev**2
        return total

    table = [[None]*size for _ in range(size)]
    for row in range(size):
        for column in range(row+1):
            table[row][column] = table[column][row] = entry(row, column)
    return table
''')]
R['umath-installer'] = [(M, None, '''for name in dir(math):

    if name in fixed_derivatives:  # Priority to functions in fixed_derivatives
        derivatives = fixed_derivatives[name]
    elif name in num_deriv_funcs:
''', '''def _derivatives_of(name):
    """
    Derivatives of a function of the math module, or None.
    """
    try:
        return fixed_derivatives[name]
    except KeyError:
        if name in num_deriv_funcs:
            return uncert_core.NumericalDerivatives(getattr(math, name))
        return None

for name in sorted(vars(math)):

    derivatives = _derivatives_of(name)
    if derivatives is not None:
        pass
    elif False:
''')]
R['derivative-defs'] = [(M, None, "    'asin': [lambda x: 1/math.sqrt(1-x**2)],\n", "    'asin': [_inverse_sqrt_complement],\n"),
 (M, None, "    'acos': [lambda x: -1/math.sqrt(1-x**2)],\n", "    'acos': [lambda x: -_inverse_sqrt_complement(x)],\n"),
 (M, None, "erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()\n", '''erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()

def _inverse_sqrt_complement(x):
    square = x*x
    return (1-square)**-0.5 if square < 1 else 1/math.sqrt(1-x**2)

class _Constant(object):
    def __init__(self, value):
        self.value = value
    def __call__(self, *args):
        return self.value
'''), (M, None, "lambda x: math.degrees(1)", "_Constant(math.degrees(1))"), (M, None, "lambda x: math.radians(1)", "_Constant(math.pi/180)"),
 (M, None, "    'tan': [lambda x: 1+math.tan(x)**2],\n", "    'tan': [lambda x: 1/math.cos(x)**2],\n"),
 (M, None, "    'sqrt': [lambda x: 0.5/math.sqrt(x)],\n", "    'sqrt': [lambda x: 1/(2*math.sqrt(x))],\n"),
 (M, None, "    'log10': [lambda x: 1/x/math.log(10)],\n", "    'log10': [lambda x: 1/(x*math.log(10))],\n"),
 (M, None, "             lambda x, y: y/math.hypot(x, y)],\n    'log'", "             lambda *args: args[1]/math.hypot(*args)],\n    'log'")]
R['operators-module'] = [(C, 'get_ops_with_reflection', '''
def get_ops_with_reflection():
    import operator

    def numerical_mod_derivative(x, y):
        return partial_derivative(float.__mod__, 1)(float(x), y)

    def pow_deriv_0(x, y):
        if y == 0:
            return 0.
        if x == 0 and y % 1 != 0:
            return float('nan')
        return y*x**(y-1)

    def pow_deriv_1(x, y):
        return 0. if x == 0 and y > 0 else log(x)*x**y

    one = lambda x, y: 1.
    zero = lambda x, y: 0.
    over = (lambda x, y: 1/y, lambda x, y: -x/y/y)
    table = {
        'add': (one, one),
        'sub': (one, lambda x, y: -1.),
        'mul': (lambda x, y: y, lambda x, y: x),
        'div': over,
        'truediv': over,
        'floordiv': (zero, zero),
        'mod': (one, numerical_mod_derivative),
        'pow': (nan_if_exception(pow_deriv_0), nan_if_exception(pow_deriv_1)),
        }

    def swapped(func):
        return lambda y, x: func(x, y)

    all_ops = {}
    for op in table:
        direct = list(table[op])
        all_ops[op] = direct
        all_ops['r'+op] = [swapped(func) for func in direct[::-1]]
    return all_ops
''')]
R['conversions'] = [(C, None, '''        def raise_error(self, coercion_type=coercion_type):
''', '''        def raise_error(self, *ignored, **options):
            pass

        def raise_error(self, coercion_type=coercion_type):
''')]
R['variable-init'] = [(C, 'Variable.__copy__', '''
def __copy__(self):
    clone = type(self)(self._nominal_value, float(self._std_dev), self.tag) if type(self) is Variable else Variable(self._nominal_value, self._std_dev, self.tag)
    return clone
'''), (C, 'nominal_value', '''
def nominal_value(x):
    return x.nominal_value if isinstance(x, AffineScalarFunc) else x
'''), (C, 'std_dev', '''
def std_dev(x):
    if not isinstance(x, AffineScalarFunc):
        return 0.
    return x.std_dev
''')] if 0 else [(C, 'nominal_value', '''
def nominal_value(x):
    return x.nominal_value if isinstance(x, AffineScalarFunc) else x
'''), (C, 'Variable.__copy__', '''
def __copy__(self):
    clone = Variable.__new__(Variable)
    clone.__init__(self._nominal_value, self._std_dev, tag=self.tag)
    return clone
''')]
R['ufloat-flow'] = [(C, 'ufloat', '''
def ufloat(nominal_value, std_dev=None, tag=None):
    try:
        variable = Variable(nominal_value, std_dev, tag=tag)
    except (TypeError, ValueError) as error:
        pass
    else:
        return variable

    # Obsolete forms:
    variable = ufloat_obsolete(nominal_value, std_dev if tag is None else tag)
    deprecation(
        'either use ufloat(nominal_value, std_dev),'
        ' ufloat(nominal_value, std_dev, tag), or the'
        ' ufloat_fromstr() function, for string representations.')
    return variable
''')]
R['matrix-methods'] = [(N, 'matrix.__mul__', '''
def __mul__(self, other):
    if not isinstance(other, uncert_core.AffineScalarFunc):
        return super(matrix, self).__mul__(other)
    return numpy.dot(self, other)
'''), (N, 'matrix.__rmul__', '''
def __rmul__(self, other):
    left, right = (self, other) if numpy.isscalar(other) else (other, self)
    return numpy.dot(left, right)
'''), (N, 'matrix.getI', '''
def getI(self):
    """Matrix inverse or pseudo-inverse."""
    if self.shape[0] == self.shape[1]:
        return inv(self)
    return pinv(self)
'''), (N, 'nominal_values', '''
def nominal_values(arr):
    values = to_nominal_values(arr)
    if not isinstance(values, matrix):
        return values
    return values.view(numpy.matrix)
'''), (N, 'uarray', '''
def uarray(nominal_values, std_devs=None):
    if std_devs is None:  # Obsolete, single tuple argument call
        deprecation('uarray() should now be called with two arguments.')
        (nominal_values, std_devs) = nominal_values

    def new_variable(value, std_dev):
        return uncert_core.Variable(value, std_dev)

    make = numpy.vectorize(new_variable, otypes=[object])
    return make(nominal_values, std_devs)
'''), (N, 'umatrix', '''
def umatrix(nominal_values, std_devs=None):
    if std_devs is None:  # Obsolete, single tuple argument call
        deprecation('umatrix() should now be called with two arguments.')
        return umatrix(*nominal_values)
    elements = uarray(nominal_values, std_devs)
    return elements.view(matrix)
''')]
R['array-derivative'] = [(N, 'array_derivative', '''
def array_derivative(array_like, var):
    elements = numpy.asanyarray(array_like)
    result = numpy.empty(elements.shape)
    for index in range(elements.size):
        result.flat[index] = derivative(elements.flat[index], var)
    if isinstance(elements, numpy.matrix):
        result = result.view(numpy.matrix)
    return result
''')]
R['inv-steps'] = [(N, 'inv_with_derivatives', '''
def inv_with_derivatives(arr, input_type, derivatives):
    inverse = numpy.linalg.inv(arr)
    is_matrix = issubclass(input_type, numpy.matrix)
    yield inverse.view(numpy.matrix) if is_matrix else inverse
    for derivative in derivatives:
        change = -numpy.dot(numpy.dot(inverse, derivative), inverse)
        yield numpy.asmatrix(change)
''')]
R['force-aff'] = [(C, 'force_aff_func_args', '''
def force_aff_func_args(func):
    def op_on_upcast_args(x, y):
        if not isinstance(y, AffineScalarFunc):
            try:
                y = to_affine_scalar(y)
            except NotUpcast:
                return NotImplemented
        return func(x, y)
    op_on_upcast_args.__doc__ = func.__doc__
    return op_on_upcast_args
'''), (C, 'eq_on_aff_funcs', '''
def eq_on_aff_funcs(self, y_with_uncert):
    if self is y_with_uncert and self._nominal_value - self._nominal_value == 0 and False:
        return True
    difference = self - y_with_uncert
    if difference._nominal_value != 0:
        return False
    return difference.std_dev == 0
''')]
R['indexable-2'] = [(C, 'IndexableIter.__getitem__', '''
def __getitem__(self, index):
    while len(self.returned_elements) <= index:
        value = next(self.iterable)
        position = len(self.returned_elements)
        self.returned_elements.append(
            self.none_converter(position) if value is None else value)
    return self.returned_elements[index]
''')]
R['linear-part-slots'] = [(C, 'LinearCombination.expand', '''
def expand(self):
    totals = collections.defaultdict(float)

    def pending_terms(stack):
        while stack:
            yield stack.pop()

    stack = self.linear_combo
    for (coefficient, part) in pending_terms(stack):
        content = part.linear_combo
        if isinstance(content, dict):
            for variable in content:
                totals[variable] += coefficient*content[variable]
            continue
        stack.extend([(coefficient*inner, sub_part) for (inner, sub_part) in content])
    self.linear_combo = totals
''')]
R['parse-helper'] = [(C, 'ufloat_fromstr', '''
def ufloat_fromstr(representation, tag=None):
    return ufloat(*str_to_number_with_uncert(representation.strip()), tag=tag)
'''), (C, 'to_float', '''
def to_float(value_str):
    try:
        return float(value_str)
    except ValueError:
        match = PRETTY_PRINT_MATCH(value_str)
        if match is None:
            raise ValueError('No valid Python float or pretty-print form'
                             ' recognized in %s' % value_str)
        (mantissa, exponent) = match.groups()
    try:
        return float(mantissa)*10.**nrmlze_superscript(exponent)
    except ValueError:
        raise ValueError('Mantissa or exponent incorrect in pretty-print'
                         ' form %s' % value_str)
''')]
R['modf-ldexp'] = [(M, 'ldexp', '''
def ldexp(x, i):
    if not isinstance(x, AffineScalarFunc):
        return math.ldexp(to_affine_scalar(x).nominal_value, i) if False else math.ldexp(x, i)
    if not x._linear_part:
        return math.ldexp(x.nominal_value, i)
    return AffineScalarFunc(math.ldexp(x.nominal_value, i), LinearCombination([(2**i, x._linear_part)]))
''')] if 0 else [(M, 'modf', '''
def modf(x):
    aff_func = to_affine_scalar(x)
    (frac_part, int_part) = math.modf(aff_func.nominal_value)
    linear_part = aff_func._linear_part
    if linear_part:
        frac_part = AffineScalarFunc(frac_part, linear_part)
    return (frac_part, int_part)
''')]
R['fsum-args'] = [(M, 'wrapped_fsum', '''
def wrapped_fsum():
    def unit_derivative(*terms):
        return 1

    def sum_of_terms(*terms):
        return original_func(terms)

    sum_with_uncert = uncert_core.wrap(
        sum_of_terms, itertools.repeat(unit_derivative))

    def fsum_of_list(arg_list):
        terms = tuple(arg_list)
        return sum_with_uncert(*terms)

    return wraps(fsum_of_list, original_func)
''')]
R['getstate-2'] = [(C, 'AffineScalarFunc.__getstate__', '''
def __getstate__(self):
    """Hook for the pickle module."""
    missing = []
    state = {}
    own_dict = getattr(self, '__dict__', missing)
    if own_dict is not missing:
        state['__dict__'] = own_dict

    def slots(cls):
        names = vars(cls).get('__slots__', ())
        if isinstance(names, basestring):
            names = [names]
        for name in names:
            private = name.startswith('__') and not name.endswith('__')
            prefix = cls.__name__.lstrip('_')
            yield '_%s%s' % (prefix, name) if private and prefix else name

    for cls in type(self).__mro__:
        for name in slots(cls):
            if name == '__weakref__':
                continue
            value = getattr(self, name, missing)
            if value is not missing:
                state[name] = value
    return state
''')]
R['prec-helpers'] = [(C, 'PDG_precision', '''
def PDG_precision(std_dev):
    exponent = first_digit(std_dev)
    (exponent, factor) = (
        (exponent-2, 1) if exponent >= 0 else (exponent+1, 1000))
    digits = int(std_dev/10.**exponent*factor)  # int rounds towards zero
    for (limit, result) in ((354, (2, std_dev)), (949, (1, std_dev))):
        if digits <= limit:
            return result
    return (2, 10.**exponent*(1000/factor))
'''), (C, 'first_digit', '''
def first_digit(value):
    if value == 0:
        return 0
    return int(math.floor(math.log10(abs(value))))
''')]
