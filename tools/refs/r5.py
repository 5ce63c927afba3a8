C, M, UM, N, L, I = 'core.py', 'umath_core.py', 'umath.py', 'unumpy/core.py', 'unumpy/ulinalg.py', '__init__.py'
R = {}
R['math-dict'] = [(M, None, "for name in dir(math):\n", "for name in sorted(math.__dict__):\n")]
R['math-members'] = [(M, None, "for name in dir(math):\n", "import inspect\nfor (name, _) in inspect.getmembers(math, callable):\n")]
R['math-names'] = [(M, None, "for name in dir(math):\n", "for name in [n for n in dir(math) if hasattr(math, n) and n in set(fixed_derivatives) | set(num_deriv_funcs) | locally_cst_funcs]:\n")]
R['variables-helper'] = [(N, 'derivative', '''
def variables_of(array):
    """
    Set of the variables on which the elements of the given array depend.
    """
    return set(
        var
        for element in array.flat
        if isinstance(element, uncert_core.AffineScalarFunc)
        for var in element.derivatives)

def derivative(u, var):
    """
    Return the derivative of u with respect to var, if u is an
    uncert_core.AffineScalarFunc instance, and if var is one of the
    variables on which it depends.  Otherwise, return 0.
    """
    if not isinstance(u, uncert_core.AffineScalarFunc):
        return 0.
    return u.derivatives.get(var, 0.)
'''), (N, None, """        variables = set()
        for element in array_version.flat:
            # floats, etc. might be present
            if isinstance(element, uncert_core.AffineScalarFunc):
                # !!! set() is only needed for Python 2 compatibility:
                variables |= set(element.derivatives.keys())

        array_nominal""", """        variables = variables_of(array_version)

        array_nominal""")]
R['covariance-helper'] = [(C, 'covariance_matrix', '''
def _covariance(derivatives1, derivatives2):
    total = 0.
    for (var, derivative1) in derivatives1.items():
        if var in derivatives2 and var._std_dev:
            total += derivative1*derivatives2[var]*var._std_dev**2
    return total

def covariance_matrix(nums_with_uncert):
    all_derivatives = [expr.derivatives for expr in nums_with_uncert]
    size = len(all_derivatives)
    matrix = [[0.]*size for _ in range(size)]
    for i in range(size):
        for j in range(i+1):
            matrix[i][j] = matrix[j][i] = _covariance(all_derivatives[i], all_derivatives[j])
    return matrix
''')]
R['covariance-symmetric'] = [(C, 'covariance_matrix', '''
def covariance_matrix(nums_with_uncert):
    rows = []
    for (index, expr1) in enumerate(nums_with_uncert):
        row = [previous[index] for previous in rows]
        for expr2 in nums_with_uncert[index:]:
            (first, second) = (expr1.derivatives, expr2.derivatives)
            common = [var for var in first if var in second and var._std_dev != 0]
            row.append(float(sum(first[var]*second[var]*var._std_dev**2 for var in common)))
        rows.append(row)
    return rows
''')]
R['expand-local-stack'] = [(C, 'LinearCombination.expand', '''
def expand(self):
        pending = list(self.linear_combo)
        derivatives = {}
        while pending:
            (factor, expr) = pending.pop()
            terms = expr.linear_combo
            if not expr.expanded():
                pending.extend((factor*sub_factor, sub_expr) for (sub_factor, sub_expr) in terms)
                continue
            for var in terms:
                contribution = factor*terms[var]
                try:
                    derivatives[var] += contribution
                except KeyError:
                    derivatives[var] = contribution
        self.linear_combo = derivatives
'''), (C, None, "            self._linear_part.linear_combo.default_factory = None\n", "            # (The derivatives are in a regular dictionary.)\n")]
R['expand-add-method'] = [(C, 'LinearCombination.expand', '''
def _add_terms(self, derivatives, factor, expanded):
        for (var, coefficient) in expanded.linear_combo.items():
            derivatives[var] += factor*coefficient

    def _push_terms(self, factor, nested):
        self.linear_combo.extend(
            [(factor*sub_factor, expr) for (sub_factor, expr) in nested.linear_combo])

    def expand(self):
        derivatives = collections.defaultdict(float)
        while len(self.linear_combo) > 0:
            (main_factor, main_expr) = self.linear_combo.pop()
            handle = self._push_terms
            if main_expr.expanded():
                self._add_terms(derivatives, main_factor, main_expr)
            else:
                handle(main_factor, main_expr)
        self.linear_combo = derivatives
'''.replace('\n    def', '\ndef').replace('\n        ', '\n    '))]
R['wrap-zip'] = [(C, None, """        linear_part = []

        for pos in pos_w_uncert:
            linear_part.append((""", """        linear_part = []

        for pos in sorted(pos_w_uncert):
            linear_part.append((""")]
R['nominal-getattr'] = [(C, 'nominal_value', '''
def nominal_value(x):
    if not isinstance(x, AffineScalarFunc):
        return x
    return x.nominal_value
'''), (C, 'std_dev@', '')][:1]
R['parse-scale-helper'] = [(C, 'str_to_number_with_uncert', '''
def _scaled(numbers_, factor):
    return tuple(number*factor for number in numbers_)

def _cannot_parse(representation):
    return ValueError(cannot_parse_ufloat_msg_pat % representation)

def str_to_number_with_uncert(representation):
    if representation[:1] == '(' and representation[-1:] == ')' and representation:
        representation = representation[1:-1]
    factor = 1
    match = NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH(representation)
    if match is not None:
        try:
            factor = 10.**nrmlze_superscript(match.group('exp_value'))
        except (ValueError, OverflowError):
            raise _cannot_parse(representation)
        representation = match.group('simple_num_with_uncert')
    match = re.match(u'(.*)(?:\\\\+/-|±)(.*)', representation)
    try:
        if match:
            numbers_ = [to_float(part) for part in match.groups()]
        else:
            numbers_ = parse_error_in_parentheses(representation)
        return _scaled(numbers_, factor)
    except (ValueError, OverflowError) as exc:
        if not match and not isinstance(exc, (NotParenUncert, OverflowError)):
            raise
        raise _cannot_parse(representation)
''')]
R['modf-common'] = [(M, 'modf', '''
@uncert_core.set_doc(math.modf.__doc__)
def modf(x):
    aff_func = to_affine_scalar(x)
    (fraction, integer) = math.modf(aff_func.nominal_value)
    linear_part = aff_func._linear_part
    if not linear_part:
        return (fraction, integer)
    return (AffineScalarFunc(fraction, linear_part), integer)
'''), (M, 'ldexp', '''
@uncert_core.set_doc(math.ldexp.__doc__)
def ldexp(x, i):
    aff_func = to_affine_scalar(x)
    linear_part = aff_func._linear_part
    if not linear_part:
        return math.ldexp(x, i)
    scale = 2**i
    shifted = math.ldexp(aff_func.nominal_value, i)
    return AffineScalarFunc(shifted, LinearCombination([(scale, linear_part)]))
'''), (M, 'frexp', '''
@uncert_core.set_doc(math.frexp.__doc__)
def frexp(x):
    aff_func = to_affine_scalar(x)
    linear_part = aff_func._linear_part
    if not linear_part:
        return math.frexp(x)
    (mantissa, exponent) = math.frexp(aff_func.nominal_value)
    scaled = LinearCombination([(2**-exponent, linear_part)])
    return AffineScalarFunc(mantissa, scaled), exponent
''')]
R['uarray-loop'] = [(N, None, "        lambda v, s: uncert_core.Variable(v, s), otypes=[object]", "        _new_variable, otypes=[object]"), (N, 'uarray', None)][:1] + [(N, None, "def uarray(nominal_values", "def _new_variable(value, std_dev):\n    return uncert_core.Variable(value, std_dev)\n\ndef uarray(nominal_values")]
R['array-derivative-loop'] = [(N, 'array_derivative', '''
def array_derivative(array_like, var):
    get_derivative = lambda element: derivative(element, var)
    vectorized = numpy.vectorize(get_derivative, otypes=[float])
    return vectorized(array_like)
''')]
R['correlated-steps'] = [(C, None, """        norm_vector = std_devs.copy()
        norm_vector[norm_vector==0] = 1
""", """        norm_vector = numpy.where(std_devs == 0, 1., std_devs)
""")]
R['correlated-clip'] = [(C, None, """        variances[variances < 0] = 0.
""", """        variances = numpy.clip(variances, 0., None)
""")]
R['correlated-maximum'] = [(C, None, """        variances[variances < 0] = 0.
""", """        variances = numpy.maximum(variances, 0.)
""")]
R['correlated-loop'] = [(C, None, """        variables = tuple(
            # The variables represent "pure" uncertainties:
            Variable(0, sqrt(variance), tag)
            for (variance, tag) in zip(variances, tags))
""", """        variables = []
        for (variance, tag) in zip(variances, tags):
            variables.append(Variable(0, math.sqrt(variance), tag))
"""), (C, None, """        transform *= std_devs[:, numpy.newaxis] 
""", """        transform = transform*std_devs.reshape(-1, 1)
""")]
R['comparison-table'] = [(C, 'le_on_aff_funcs', '''
def le_on_aff_funcs(self, y_with_uncert):
    if lt_on_aff_funcs(self, y_with_uncert):
        return True
    return eq_on_aff_funcs(self, y_with_uncert)
'''), (C, 'ge_on_aff_funcs', '''
def ge_on_aff_funcs(self, y_with_uncert):
    return le_on_aff_funcs(y_with_uncert, self)
'''), (C, 'gt_on_aff_funcs', '''
def gt_on_aff_funcs(self, y_with_uncert):
    return lt_on_aff_funcs(y_with_uncert, self)
'''), (C, 'eq_on_aff_funcs', '''
def eq_on_aff_funcs(self, y_with_uncert):
    difference = self - y_with_uncert
    if difference._nominal_value:
        return False
    return not difference.std_dev
''')]
R['format-prefix-helper'] = [(C, None, """def format_num(nom_val_main""", """def _not_finite(value):
    return isinf(value) or isnan(value)

def format_num(nom_val_main"""), (C, None, """        special_error = not error_main or isinfinite(error_main)
""" if 0 else """    special_error = not error_main or isinfinite(error_main)
""", """    special_error = (not error_main) or _not_finite(error_main)
""")]
R['pdg-reordered'] = [(C, None, """    if digits <= 354:
        return (2, std_dev)
    elif digits <= 949:
        return (1, std_dev)
    else:
""", """    if digits < 355:
        return 2, std_dev
    if digits < 950:
        return 1, std_dev
    else:
""")]
R['nan-wrapper-class'] = [(C, 'nan_if_exception', '''
class _NaNIfException(object):
    def __init__(self, func):
        self._func = func

    def __call__(self, *args, **kwargs):
        try:
            result = self._func(*args, **kwargs)
        except (ZeroDivisionError, OverflowError, ValueError):
            result = float('nan')
        return result

def nan_if_exception(f):
    return _NaNIfException(f)
''')]
R['force-aff-functools'] = [(C, None, """    def op_on_upcast_args(x, y):
""", """    import functools
    @functools.wraps(func)
    def op_on_upcast_args(x, y):
""")]
R['op-lambdas'] = [(C, None, 'eval("lambda x, y: %s" % expr)', 'eval("lambda x, y: (%s)" % (expr,))')]
R['variable-hash'] = [(C, 'Variable.__copy__', '''
def __copy__(self):
        duplicate = Variable(self._nominal_value, self._std_dev)
        duplicate.tag = self.tag
        return duplicate
'''), (C, 'Variable.__deepcopy__', '''
def __deepcopy__(self, memo):
        return copy.copy(self)
''')]
R['ufloat-nested'] = [(C, 'ufloat_obsolete', '''
def ufloat_obsolete(representation, tag=None):
    if not isinstance(representation, tuple):
        return ufloat_fromstr(representation, tag)
    (value, std_dev) = (representation[0], representation[1])
    return ufloat(value, std_dev, tag)
''')]
R['std-score'] = [(C, None, """        try:
            # The ._nominal_value is a float: there is no integer division,
            # here:
            return (value - self._nominal_value) / self.std_dev
        except ZeroDivisionError:
            raise ValueError("The standard deviation is zero:"
                             " undefined result")
""", """        sigma = self.std_dev
        if sigma == 0:
            raise ValueError("The standard deviation is zero:"
                             " undefined result")
        return (value - self._nominal_value)/sigma
""")]
R['setstate-items'] = [(C, 'AffineScalarFunc.__setstate__', '''
def __setstate__(self, data_dict):
        attributes = sorted(data_dict)
        for name in attributes:
            setattr(self, name, data_dict[name])
''')]
R['partial-contextmanager'] = [(C, 'nan_if_exception', '''
import contextlib

def nan_if_exception(f):
    def wrapped_f(*args, **kwargs):
        result = float('nan')
        with contextlib.suppress(ValueError, ZeroDivisionError, OverflowError):
            result = f(*args, **kwargs)
        return result
    return wrapped_f
''')]
