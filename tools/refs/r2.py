C, M, UM, N, L, I = 'core.py', 'umath_core.py', 'umath.py', 'unumpy/core.py', 'unumpy/ulinalg.py', '__init__.py'
R = {}
R['parse'] = [
 (C, 'parse_error_in_parentheses', '''
def parse_error_in_parentheses(representation):
    found = NUMBER_WITH_UNCERT_RE_MATCH(representation)
    if found is None:
        raise NotParenUncert("Unparsable number representation: {!r}.".format(representation))
    sign, main, _, decimals, uncert, uncert_digits, uncert_decimals, exponent = found.groups()
    scale = 10.**nrmlze_superscript(exponent) if exponent else 1
    nominal = float(main)
    if sign == '-':
        nominal = -nominal

    absolute = uncert_decimals is not None or (uncert is not None and uncert.lower() in ('nan', 'inf'))
    if absolute:
        error = float(uncert)
    else:
        last_digit = len(decimals) - 1 if decimals is not None else 0
        error = (1 if uncert is None else int(uncert_digits))/10.**last_digit
    return nominal*scale, error*scale
'''),
 (C, 'to_float', '''
def to_float(value_str):
    try:
        return float(value_str)
    except ValueError:
        match = PRETTY_PRINT_MATCH(value_str)
    if not match:
        raise ValueError('No valid Python float or pretty-print form recognized in ' + value_str)
    mantissa, exponent = match.groups()
    try:
        power = nrmlze_superscript(exponent)
        result = float(mantissa)*10.**power
    except ValueError:
        raise ValueError('Mantissa or exponent incorrect in pretty-print form ' + value_str)
    return result
'''),
 (C, 'str_to_number_with_uncert', '''
def str_to_number_with_uncert(representation):
    if representation[:1] == '(' and representation[-1:] == ')':
        representation = representation[1:-1]
    try:
        return _parsed(representation)
    except (ValueError, OverflowError):
        raise ValueError(cannot_parse_ufloat_msg_pat % representation)

def _parsed(text):
    scale = 1
    global_exp = NUMBER_WITH_UNCERT_GLOBAL_EXP_RE_MATCH(text)
    if global_exp is not None:
        scale = 10.**nrmlze_superscript(global_exp.group('exp_value'))
        text = global_exp.group('simple_num_with_uncert')
    parts = re.match(u'(?P<value>.*)(?:\\\\+/-|\\u00b1)(?P<error>.*)', text)
    if parts is None:
        value, error = parse_error_in_parentheses(text)
    else:
        value, error = (to_float(parts.group(name)) for name in ('value', 'error'))
    return (value*scale, error*scale)
'''),
 (C, None, "    (nominal_value, std_dev) = str_to_number_with_uncert(\n        representation.strip())\n\n    return ufloat(nominal_value, std_dev, tag)", "    parsed = str_to_number_with_uncert(representation.strip())\n    return ufloat(*parsed, tag=tag)"),
 (C, 'nrmlze_superscript', '''
def nrmlze_superscript(number_str):
    characters = [chr(FROM_SUPERSCRIPT.get(ord(c), ord(c))) for c in str(number_str)]
    return int(''.join(characters))
'''),
]
R['format-helpers'] = [
 (C, 'format_num', '''
def _latex_special(value, text):
    if isnan(value):
        return r'\\mathrm{%s}' % text
    if isinf(value):
        return ('-' if value < 0 else '') + r'\\infty'
    return text

def _special_suffix(fmt_parts):
    if fmt_parts['prec']:
        return '.{}{}'.format(fmt_parts['prec'], fmt_parts['type'] or 'g')
    return fmt_parts['type']

def _shorthand_uncertainty(error_main, prec, main_pres_type, latex):
    if error_main == 0:
        return '0'
    if isinfinite(error_main):
        text = robust_format(error_main, main_pres_type)
        return _latex_special(error_main, text) if latex else text
    rounded = round(error_main, prec)
    if prec > 0 and first_digit(rounded) >= 0:
        return '{:.{}f}'.format(rounded, prec)
    if rounded == 0:
        return '0.'
    return '%d' % round(rounded*10.**prec)

def format_num(nom_val_main, error_main, common_exp,
               fmt_parts, prec, main_pres_type, options):
    latex = 'L' in options
    print_type = ('pretty-print' if 'P' in options else 'latex' if latex else 'default')
    if common_exp is None:
        exp_str = ''
    elif print_type in EXP_PRINT:
        exp_str = EXP_PRINT[print_type](common_exp)
    else:
        exp_str = '{}{:+03d}'.format(EXP_LETTERS[main_pres_type], common_exp)
    percent_str = (r' \\%' if latex else '%') if '%' in options else ''

    general = fmt_parts['type'] in ('', 'g', 'G')
    special_error = error_main == 0 or isinfinite(error_main)
    fixed_suffix = '.{}{}'.format(prec, main_pres_type)
    suffix_n = _special_suffix(fmt_parts) if special_error and general else fixed_suffix
    width = int(fmt_parts['width']) if fmt_parts['width'] else 0
    align = lambda text: robust_align(text, fmt_parts['fill'], fmt_parts['align'] or '>', fmt_parts['width']) if fmt_parts['width'] else text

    def prefix(sign, available):
        if fmt_parts['zero'] and fmt_parts['width']:
            return '{}{}{}{}'.format(sign, fmt_parts['zero'], available, fmt_parts['comma'])
        return sign + fmt_parts['comma']

    if 'S' in options:
        tail = '({}){}{}'.format(_shorthand_uncertainty(error_main, prec, main_pres_type, latex), exp_str, percent_str)
        nominal = robust_format(nom_val_main, prefix(fmt_parts['sign'], max(width - len(tail), 0)) + suffix_n)
        if latex:
            nominal = _latex_special(nom_val_main, nominal)
        return align(nominal + tail)

    factored = not fmt_parts['width']
    own_exp = {'nominal': not (factored or isinfinite(nom_val_main)), 'error': not (factored or special_error)}
    room = max(width - len(exp_str), 0)
    nominal = robust_format(nom_val_main, prefix(fmt_parts['sign'], room if own_exp['nominal'] else width) + suffix_n)
    if error_main == 0:
        suffix_e = '.0' + main_pres_type
    elif general and isinfinite(nom_val_main):
        suffix_e = _special_suffix(fmt_parts)
    else:
        suffix_e = fixed_suffix
    error = robust_format(error_main, prefix('', room if own_exp['error'] else width) + suffix_e)
    if latex:
        nominal, error = _latex_special(nom_val_main, nominal), _latex_special(error_main, error)
    nominal = align(nominal + exp_str if own_exp['nominal'] else nominal)
    error = align(error + exp_str if own_exp['error'] else error)
    symbol = {'pretty-print': u'\\u00b1', 'latex': r' \\pm ', 'default': '+/-'}[print_type]
    left, right = GROUP_SYMBOLS[print_type]
    text = nominal + symbol + error
    if factored and common_exp is not None:
        return left + text + right + exp_str + percent_str
    if percent_str or 'p' in options:
        text = left + text + right
    return text + percent_str
''')]
R['format-method'] = [
 (C, 'AffineScalarFunc.__format__', '''
_FORMAT_SPEC = re.compile(r\'\'\'
        (?P<fill>[^{}]??)(?P<align>[<>=^]?)
        (?P<sign>[-+ ]?)
        (?P<zero>0?)
        (?P<width>\\d*)
        (?P<comma>,?)
        (?:\\.(?P<prec>\\d+))?
        (?P<uncert_prec>u?)
        (?P<type>[eEfFgG%]??)
        (?P<options>[PSLp]*)
        $\'\'\', re.VERBOSE)

def __format__(self, format_spec):
    parsed = self._FORMAT_SPEC.match(format_spec)
    if parsed is None:
        raise ValueError('Format specification {!r} cannot be used with object of type {!r}.'.format(format_spec, self.__class__.__name__))
    parts = parsed.groupdict()
    kind = parts['type'] or None
    options = set(parts['options'])
    value, error = self.nominal_value, self.std_dev
    if kind == '%':
        value, error, kind = value*100, error*100, 'f'
        options.add('%')
    fixed, scientific = kind in ('f', 'F'), kind in ('e', 'E')
    finite = [x for x in (abs(value), error) if not isinfinite(x)]
    reference = max(finite) if finite else None

    uncertainty_rules = parts['uncert_prec'] or (not parts['prec'] and len(finite) == 2)
    if uncertainty_rules and error and not isinfinite(error):
        limit, error = self._uncertainty_limit(parts['prec'], error)
        prec = None
    else:
        prec = int(parts['prec']) if parts['prec'] else 12 if kind is None else 6
        if fixed:
            limit = -prec
        elif reference is None:
            limit = None
        else:
            limit = signif_dgt_to_limit(reference, prec + 1 if scientific else max(prec, 1))

    exponent = None
    if reference is not None and not fixed:
        candidate = first_digit(round(reference, -limit))
        if scientific or candidate < -4 or limit > 0:
            exponent = candidate
    if exponent is not None:
        value, error = value/10.**exponent, error/10.**exponent
        limit -= exponent
    if limit is not None:
        prec = max(-limit, 1 if kind is None and not error else 0)
    return format_num(value, error, exponent, parts, prec=prec,
                      main_pres_type='F' if kind in ('E', 'F', 'G') else 'f', options=options)

@staticmethod
def _uncertainty_limit(precision, error):
    if precision:
        digits = int(precision)
        if digits == 0:
            raise ValueError('The number of significant digits on the uncertainty should be positive')
    else:
        digits, error = PDG_precision(error)
    return signif_dgt_to_limit(error, digits), error
'''),
 (C, 'PDG_precision', '''
def PDG_precision(std_dev):
    exponent = first_digit(std_dev)
    if exponent < 0:
        exponent, factor = exponent + 1, 1000
    else:
        exponent, factor = exponent - 2, 1
    unit = 10.**exponent
    three_digits = int(std_dev/unit*factor)
    if three_digits > 949:
        return 2, unit*(1000/factor)
    return (1 if three_digits > 354 else 2), std_dev
'''),
 (C, 'signif_dgt_to_limit', '''
def signif_dgt_to_limit(value, num_signif_d):
    position = first_digit(value)
    limit = position + 1 - num_signif_d
    overflow = first_digit(round(value, -limit)) > position
    return limit + overflow
'''),
]
R['variables'] = [
 (C, None, "        if std_dev < 0:\n", "        is_negative = std_dev < 0\n        if is_negative:\n"),
 (C, 'Variable.__copy__', '''
def __copy__(self):
    duplicate = type(self).__new__(Variable)
    duplicate.__init__(self._nominal_value, self._std_dev, tag=self.tag)
    return duplicate
'''),
 (C, 'Variable.__repr__', '''
def __repr__(self):
    text = AffineScalarFunc.__repr__(self)
    if self.tag is not None:
        text = '< {} = {} >'.format(self.tag, text)
    return text
'''),
 (C, 'AffineScalarFunc.__repr__', '''
def __repr__(self):
    error = self.std_dev
    return '{!r}+/-{}'.format(self.nominal_value, repr(error) if error else '0')
'''),
 (C, 'AffineScalarFunc.error_components', '''
def error_components(self):
    def component(variable, derivative):
        sigma = variable._std_dev
        return abs(derivative*sigma) if sigma else 0
    return {var: component(var, der) for var, der in self.derivatives.items()}
'''),
 (C, None, "        return CallableStdDev(sqrt(sum(\n            delta**2 for delta in self.error_components().values())))", "        variance = 0.\n        for component in self.error_components().values():\n            variance += component*component\n        return CallableStdDev(sqrt(variance))"),
 (C, 'AffineScalarFunc.std_score', '''
def std_score(self, value):
    sigma = self.std_dev
    if sigma == 0:
        raise ValueError("The standard deviation is zero: undefined result")
    return (value - self._nominal_value)/sigma
'''),
 (C, 'AffineScalarFunc.__setstate__', '''
def __setstate__(self, data_dict):
    for name in data_dict:
        setattr(self, name, data_dict[name])
'''),
 (C, None, "        return self != 0.  # Uses", "        return not self == 0.  # Uses"),
 (C, 'nominal_value', '''
def nominal_value(x):
    return x.nominal_value if isinstance(x, AffineScalarFunc) else x
''') if 0 else (C, 'covariance_matrix', '''
def covariance_matrix(nums_with_uncert):
    result = []
    for row, number in enumerate(nums_with_uncert):
        line = [result[col][row] for col in range(0)]
        for other in nums_with_uncert:
            shared = set(number.derivatives) & set(other.derivatives)
            terms = [number.derivatives[v]*other.derivatives[v]*v._std_dev**2 for v in shared if v._std_dev]
            line.append(sum(terms, 0.))
        result.append(line)
    return result
'''),
 (C, None, "        class_name = cls.__name__.lstrip('_')", "        class_name = cls.__name__.lstrip('_')") if 0 else (C, 'AffineScalarFunc.__getstate__', '''
def __getstate__(self):
    state = {}
    if hasattr(self, '__dict__'):
        state['__dict__'] = self.__dict__
    for cls in type(self).__mro__:
        names = vars(cls).get('__slots__', ())
        if isinstance(names, basestring):
            names = [names]
        for name in names:
            if name == '__weakref__':
                continue
            private = name.startswith('__') and not name.endswith('__')
            prefix = cls.__name__.lstrip('_')
            if private and prefix:
                name = '_' + prefix + name
            if hasattr(self, name):
                state[name] = getattr(self, name)
    return state
'''),
]
R['umath'] = [
 (M, None, "log_der0(*args)", "log_der0(*args)") if 0 else (M, 'log_der0', '''
def log_der0(x, *base):
    derivative = 1/x
    if base:
        derivative /= math.log(base[0])
    return derivative
'''),
 (M, '_deriv_copysign', '''
def _deriv_copysign(x, y):
    sign = math.copysign(1, y)
    return sign if x >= 0 else -sign
'''),
 (M, '_deriv_fabs', '''
def _deriv_fabs(x):
    return -1 if x < 0 else 1
'''),
 (M, '_deriv_pow_0', '''
def _deriv_pow_0(x, y):
    if not y:
        return 0.
    if x == 0 and y % 1:
        return float('nan')
    return y*math.pow(x, y - 1)
'''),
 (M, 'wrapped_fsum', '''
def wrapped_fsum():
    def sum_of_arguments(*args):
        return original_func(args)
    wrapped = uncert_core.wrap(sum_of_arguments, itertools.repeat(lambda *args: 1))
    def fsum(arg_list):
        return wrapped(*arg_list)
    return wraps(fsum, original_func)
'''),
 (M, 'modf', '''
def modf(x):
    number = to_affine_scalar(x)
    parts = math.modf(number.nominal_value)
    if number._linear_part:
        parts = (AffineScalarFunc(parts[0], number._linear_part), parts[1])
    return parts
'''),
 (M, 'frexp', '''
def frexp(x):
    number = to_affine_scalar(x)
    if not number._linear_part:
        return math.frexp(x)
    mantissa, exponent = math.frexp(number.nominal_value)
    linear = LinearCombination([(2**-exponent, number._linear_part)])
    return AffineScalarFunc(mantissa, linear), exponent
'''),
 (M, 'ldexp', '''
def ldexp(x, i):
    number = to_affine_scalar(x)
    if not number._linear_part:
        return math.ldexp(x, i)
    scaled = math.ldexp(number.nominal_value, i)
    return AffineScalarFunc(scaled, LinearCombination([(2**i, number._linear_part)]))
'''),
 (M, 'wrapped_func', '''
def wrapped_func(*args, **kwargs):
    plain = uncert_core.nominal_value
    return func(*[plain(arg) for arg in args], **{name: plain(arg) for name, arg in kwargs.items()})
'''),
]
R['ufloat'] = [
 (C, 'ufloat_obsolete', '''
def ufloat_obsolete(representation, tag=None):
    if not isinstance(representation, tuple):
        return ufloat_fromstr(representation, tag)
    value, sigma = representation[0], representation[1]
    return ufloat(value, sigma, tag)
'''),
]
R['parse-regex-free'] = [
 (C, None, "    match = re.match(u'(.*)(?:\\\\+/-|±)(.*)', representation)\n    if match:", "    separated = [representation.rpartition(s) for s in (u'+/-', u'±')]\n    (nom_value, found, uncert) = max(separated, key=lambda parts: len(parts[0]) if parts[1] else -1)\n    if found:"),
 (C, None, "        (nom_value, uncert) = match.groups()\n", ""),
]
R['unumpy'] = [
 (N, 'derivative', '''
def derivative(u, var):
    if not isinstance(u, uncert_core.AffineScalarFunc):
        return 0.
    derivatives = u.derivatives
    return derivatives[var] if var in derivatives else 0.
'''),
 (N, 'matrix.getI', '''
def getI(self):
    rows, columns = self.shape
    if rows == columns:
        return inv(self)
    return pinv(self)
'''),
 (N, 'matrix.__rmul__', '''
def __rmul__(self, other):
    factors = (self, other) if numeric.isscalar(other) else (other, self)
    return numeric.dot(*factors)
'''),
 (N, 'unumpy_to_numpy_matrix', '''
def unumpy_to_numpy_matrix(arr):
    return arr.view(numpy.matrix) if isinstance(arr, matrix) else arr
'''),
 (N, 'uarray', '''
def uarray(nominal_values, std_devs=None):
    if std_devs is None:
        deprecation('uarray() should now be called with two arguments.')
        nominal_values, std_devs = nominal_values
    build = numpy.vectorize(uncert_core.Variable, otypes=[object], excluded=['tag'])
    return build(nominal_values, std_devs)
'''),
]
