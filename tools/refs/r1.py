C, M, UM, N, L, I = 'core.py', 'umath_core.py', 'umath.py', 'unumpy/core.py', 'unumpy/ulinalg.py', '__init__.py'
R = {}
R['expand-deque'] = [(C, 'LinearCombination.expand', '''
def expand(self):
    """Expand the linear combination."""
    totals = collections.defaultdict(float)
    pending = collections.deque(self.linear_combo)
    while pending:
        coefficient, term = pending.popleft()
        contents = term.linear_combo
        if isinstance(contents, dict):
            for variable in contents:
                totals[variable] += coefficient * contents[variable]
        else:
            pending.extendleft((coefficient * inner, sub) for inner, sub in reversed(contents))
    self.linear_combo = totals
''')]
R['expand-iterators'] = [(C, 'LinearCombination.expand', '''
def expand(self):
    result = collections.defaultdict(float)
    stack = [(1., iter(self.linear_combo))]
    while stack:
        scale, terms = stack[-1]
        try:
            factor, expr = next(terms)
        except StopIteration:
            stack.pop()
            continue
        scaled = scale*factor
        if expr.expanded():
            self._accumulate(result, scaled, expr.linear_combo)
        else:
            stack.append((scaled, iter(expr.linear_combo)))
    self.linear_combo = result

@staticmethod
def _accumulate(result, scaled, derivatives):
    for var, coef in derivatives.items():
        result[var] += scaled*coef
''')]
R['wrap-helper'] = [(C, 'f_with_affine_output', '''
def f_with_affine_output(*args, **kwargs):
    uncertain_positions = []
    plain_args = []
    for index, value in enumerate(args):
        if isinstance(value, AffineScalarFunc):
            uncertain_positions.append(index)
            value = value.nominal_value
        plain_args.append(value)
    uncertain_names = {}
    for name in kwargs:
        if isinstance(kwargs[name], AffineScalarFunc):
            uncertain_names[name] = kwargs[name]
    if not (uncertain_positions or uncertain_names):
        return f(*args, **kwargs)
    plain_kwargs = dict(kwargs)
    plain_kwargs.update((name, x.nominal_value) for name, x in uncertain_names.items())

    nominal = f(*plain_args, **plain_kwargs)
    if isinstance(nominal, FLOAT_LIKE_TYPES):
        terms = [(derivatives_args_index[i](*plain_args, **plain_kwargs), args[i]._linear_part) for i in uncertain_positions]
        for name, x in uncertain_names.items():
            try:
                deriv = derivatives_all_kwargs[name]
            except KeyError:
                deriv = derivatives_all_kwargs[name] = partial_derivative(f, name)
            terms.append((deriv(*plain_args, **plain_kwargs), x._linear_part))
        return AffineScalarFunc(nominal, LinearCombination(terms))
    return NotImplemented
''')]
R['partial-derivative'] = [(C, 'partial_derivative', '''
def partial_derivative(f, arg_ref):
    by_name = isinstance(arg_ref, basestring)

    def partial_derivative_of_f(*args, **kwargs):
        center = kwargs[arg_ref] if by_name else args[arg_ref]
        step = STEP_SIZE*abs(center) or STEP_SIZE

        def at(value):
            if by_name:
                return f(*args, **dict(kwargs, **{arg_ref: value}))
            shifted = list(args)
            shifted[arg_ref] = value
            return f(*shifted, **kwargs)

        return (at(center + step) - at(center - step))/(2*step)

    return partial_derivative_of_f
''')]
R['indexable'] = [(C, 'IndexableIter.__getitem__', '''
def __getitem__(self, index):
    cache = self.returned_elements
    while len(cache) <= index:
        element = next(self.iterable)
        cache.append(self.none_converter(len(cache)) if element is None else element)
    return cache[index]
''')]
R['comparisons'] = [
 (C, 'eq_on_aff_funcs', '''
def eq_on_aff_funcs(self, y_with_uncert):
    diff = self - y_with_uncert
    return diff._nominal_value == 0 and diff.std_dev == 0
'''),
 (C, 'ge_on_aff_funcs', '''
def ge_on_aff_funcs(self, y_with_uncert):
    if gt_on_aff_funcs(self, y_with_uncert):
        return True
    return eq_on_aff_funcs(self, y_with_uncert)
'''),
 (C, 'le_on_aff_funcs', '''
def le_on_aff_funcs(self, y_with_uncert):
    return any(test(self, y_with_uncert) for test in (lt_on_aff_funcs, eq_on_aff_funcs))
'''),
 (C, 'gt_on_aff_funcs', '''
def gt_on_aff_funcs(self, y_with_uncert):
    return lt_on_aff_funcs(y_with_uncert, self)
'''),
 (C, 'op_on_upcast_args', '''
def op_on_upcast_args(x, y):
    try:
        other = to_affine_scalar(y)
    except NotUpcast:
        other = NotImplemented
    return other if other is NotImplemented else func(x, other)
'''),
 (C, 'to_affine_scalar', '''
def to_affine_scalar(x):
    if not isinstance(x, AffineScalarFunc):
        if not isinstance(x, CONSTANT_TYPES):
            raise NotUpcast("{} cannot be converted to a number with uncertainty".format(type(x)))
        x = AffineScalarFunc(x, LinearCombination({}))
    return x
''')]
R['operators-explicit'] = [(C, 'get_ops_with_reflection', '''
def get_ops_with_reflection():
    def one(x, y): return 1.
    def minus_one(x, y): return -1.
    def zero(x, y): return 0.
    def inverse(x, y): return 1/y
    def quotient(x, y): return -x/y/y
    def mod_1(x, y): return partial_derivative(float.__mod__, 1)(float(x), y)
    table = {
        'add': (one, one),
        'div': (inverse, quotient),
        'floordiv': (zero, zero),
        'mod': (one, mod_1),
        'mul': (lambda x, y: y, lambda x, y: x),
        'sub': (one, minus_one),
        'truediv': (inverse, quotient),
    }
    def swapped(func):
        return lambda y, x: func(x, y)

    def power_0(x, y):
        if not y:
            return 0.
        if x == 0 and y % 1 != 0:
            return float('nan')
        return y*x**(y-1)

    def power_1(x, y):
        return 0. if x == 0 and y > 0 else log(x)*x**y

    table['pow'] = (nan_if_exception(power_0), nan_if_exception(power_1))
    result = {}
    for name, pair in table.items():
        result[name] = list(pair)
        result['r' + name] = [swapped(func) for func in pair[::-1]]
    return result
''')]
R['operators-installed'] = [(C, 'add_operators_to_AffineScalarFunc', '''
def add_operators_to_AffineScalarFunc():
    def install(name, func, derivatives):
        setattr(AffineScalarFunc, '__%s__' % name, wrap(func, derivatives))

    unary = (('abs', lambda x: 1. if x >= 0 else -1.), ('neg', lambda x: -1.), ('pos', lambda x: 1.), ('trunc', lambda x: 0.))
    for name, deriv in unary:
        method = getattr(float, '__%s__' % name, None)
        if method is not None:
            install(name, method, [deriv])
            modified_operators.append(name)

    for name in ops_with_reflection:
        method = custom_ops.get(name) or getattr(float, '__%s__' % name, None)
        if method is None:
            continue
        install(name, method, ops_with_reflection[name])
        modified_ops_with_reflection.append(name)

    def refusing(kind):
        def raise_error(self):
            raise TypeError("can't convert an affine function ({0.__class__}) to {1}; use x.nominal_value".format(self, kind))
        return raise_error
    for kind in ['complex', 'int', 'long', 'float']:
        setattr(AffineScalarFunc, '__{}__'.format(kind), refusing(kind))
''')]
R['covariance'] = [(C, 'covariance_matrix', '''
def covariance_matrix(nums_with_uncert):
    def covariance(derivs_a, derivs_b):
        return sum((derivs_a[var]*derivs_b[var]*var._std_dev**2 for var in derivs_a if var in derivs_b and var._std_dev), 0.)
    all_derivatives = [number.derivatives for number in nums_with_uncert]
    size = len(all_derivatives)
    matrix = [[0.]*size for _ in range(size)]
    for i in range(size):
        for j in range(i + 1):
            matrix[i][j] = matrix[j][i] = float(covariance(all_derivatives[i], all_derivatives[j]))
    return matrix
''')]
R['nan-decorator'] = [(C, 'nan_if_exception', '''
def nan_if_exception(f):
    numerical_errors = (ValueError, ArithmeticError)
    def wrapped_f(*args, **kwargs):
        result = float('nan')
        try:
            result = f(*args, **kwargs)
        except numerical_errors:
            pass
        return result
    return wrapped_f
''')]
