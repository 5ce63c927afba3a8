#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, where, mech=(), observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe) or where, "hook_needed": None}})
CORE = "uncertainties/core.py"; UM = "uncertainties/umath_core.py"; UN = "uncertainties/unumpy/core.py"

p("C01", "Arithmetic operators propagate the exact partial derivatives",
  "For every arithmetic operator of numbers with uncertainties (+, -, *, /, //, ** and their reflected forms, unary + and -, abs(), math.trunc(); % for its left operand) the derivative of the result with respect to each variable operand is the exact partial derivative of that operation at the nominal values, at every point where it exists. The nominal value of the result is what the same operation gives on the nominal values. This holds whichever operands are numbers with uncertainties or plain numbers, on either side.",
  ["inputs"], "all real nominal values (every sign / zero / integer-exponent region, and every order of magnitude where the derivative is a floating-point number), all operand mixes",
  "The tests compare with numerical derivatives at a few random points, mostly positive; the branches for zero, negative or integer operands and the reflected forms are sampled at best.",
  [CORE], ["result.derivatives[variable]", "result.nominal_value"],
  [("get_ops_with_reflection / add_operators_to_AffineScalarFunc", CORE), ("wrap", CORE)])
p("C02", "umath functions propagate the exact partial derivatives",
  "For every differentiable function of uncertainties.umath that has an analytical derivative (acos ... tanh, atan2, copysign, hypot, log with one or two arguments, pow, degrees, erf, fabs, sqrt, etc.), the derivative of the result with respect to each variable argument is the exact partial derivative of the math function at the nominal values, at every point where it exists. The nominal value of the result is the value of the math function at the nominal values.",
  ["inputs"], "every function, every argument position, all real arguments of the domain (including negative, zero and mixed-sign regions, and every order of magnitude where the derivative is a floating-point number)",
  "Tests compare with finite differences at one or two random arguments per function, so sign regions, boundaries and the less common call forms are not settled.",
  [UM, CORE], ["umath.f(x).derivatives[x]"], [("fixed_derivatives", UM), ("wrap", CORE)])
p("C03", "wrap() propagates each uncertain argument once, with its own derivative",
  "A function wrapped with wrap() and called with any mix of positional and keyword arguments, some of them numbers with uncertainties, returns the function's value at the nominal values, with a linear dependence in which every argument with an uncertainty contributes exactly once, with the derivative supplied for that very parameter if there is one, and otherwise with a centred numerical derivative with respect to that very argument, evaluated at the nominal values with the other arguments unchanged. This does not depend on earlier calls of this or of any other wrapped function. A result that is not float-like gives NotImplemented.",
  ["inputs", "histories"], "all call shapes (positional, keyword, var-positional, var-keyword), all supplied-derivative layouts (lists, None entries, short lists, one-shot iterators), all call sequences",
  "The tests exercise a handful of signatures once each; the mapping from argument to derivative and the caches that persist between calls are not covered for arbitrary call sequences.",
  [CORE], ["wrap(f, ...)(...)"], [("wrap", CORE), ("partial_derivative", CORE), ("IndexableIter", CORE)])
p("C04", "Derivatives of composed expressions obey the chain rule",
  "The derivative of any expression with respect to any variable is the sum, over all the paths by which the variable enters the expression, of the products of the partial derivatives along each path: every occurrence counts exactly once, repeated variables and shared sub-expressions accumulate, and every variable the expression depends on is present. Correlations are therefore exact: expressions that are identically constant have a zero derivative.",
  ["inputs", "programs"], "all expression graphs (nesting, sharing, repeated variables, plain constants), evaluated in any order",
  "Tests evaluate a few fixed expressions; sharing, ordering and partial evaluation of sub-expressions are not enumerated.",
  [CORE], ["expr.derivatives"], [("LinearCombination.expand", CORE), ("AffineScalarFunc.derivatives", CORE)])
p("C05", "Quantities are immutable: nothing changes an existing quantity",
  "Once created, a number with uncertainty keeps its nominal value and its derivatives with respect to its variables for ever: combining it with others, reading, printing, comparing, copying or pickling it or any quantity that shares parts with it never changes them, and assigning to its nominal value, its derivatives or (for a calculated quantity) its standard deviation is refused. Only the standard deviation and the tag of a variable can be set.",
  ["histories"], "all sequences of operations, reads (which lazily evaluate shared parts), copies and attribute assignments",
  "Tests read a quantity right after creating it; the in-place evaluation of shared linear combinations corrupts other quantities only after specific sequences.",
  [CORE, UM, UN], ["x.nominal_value, x.derivatives before and after any operation"], [("LinearCombination.expand", CORE), ("AffineScalarFunc.__slots__ / properties", CORE)])
p("C06", "Uncertainty = current quadrature sum of |derivative x std dev|",
  "At any time, the standard deviation of a quantity is the square root of the sum over its variables of (derivative x standard deviation of the variable)^2, computed with the standard deviations the variables have at that time; error_components() gives the individual absolute values, keyed by variable. A variable with a zero standard deviation contributes exactly zero, even when the derivative is NaN. std_score(v), for a number v (Python or NumPy), is (v - nominal value)/standard deviation and raises ValueError when the latter is zero.",
  ["inputs", "histories"], "all derivative values (including NaN), all variables, and every history of reads and std_dev changes",
  "Tests modify one standard deviation once; staleness after repeated reads and updates, and NaN derivatives, need histories they do not sample.",
  [CORE], ["x.std_dev, x.s, x.error_components(), x.std_score()"], [("error_components", CORE), ("std_dev", CORE)])
p("C07", "The standard deviation of a variable is never negative",
  "No sequence of constructions and assignments can leave a variable with a negative standard deviation: any attempt to set a negative value, finite or infinite, through any entry point raises NegativeStdDev and leaves the previous value; zero, positive values, +infinity and NaN are accepted and stored unchanged.",
  ["inputs", "histories"], "all values (negative finite, -inf, -0.0, NaN, +inf), all entry points (ufloat, Variable, attribute assignment, set_std_dev, parsing, arrays, copies)",
  "There is no test of rejected values at all.",
  [CORE, UN], ["variable.std_dev"], [("Variable.std_dev setter", CORE)])
p("C08", "Comparison operators are mutually consistent and follow the documented meaning",
  "x == y is True exactly when x - y has a zero nominal value and a zero standard deviation; != is its negation; < and > compare the nominal values; <= is (< or ==) and >= is (> or ==); bool(x) is x != 0. Consequently x == x always holds for finite x, independent variables with a non-zero standard deviation are never equal, swapping the operands mirrors the operator, and the same rules apply when one side is a plain number.",
  ["inputs"], "all orderings of the nominal values (less, equal, greater) crossed with zero / non-zero standard deviation of the difference, for the six operators and bool, with numbers or plain numbers on either side",
  "Tests compare a few random pairs; the combinations in which nominal values tie but uncertainties differ are barely sampled.",
  [CORE], ["x op y", "bool(x)"], [("eq_on_aff_funcs ... le_on_aff_funcs, force_aff_func_args", CORE)])
p("C09", "Each variable is a new independent random variable, identified by itself",
  "Every ufloat()/ufloat_fromstr()/uarray() element, and every copy.copy() or copy.deepcopy() of a variable, is a new random variable with the given (or copied) nominal value, standard deviation and tag, independent of every other one: its only derivative is 1 with respect to itself. copy.copy() of a calculated quantity keeps its dependence on the original variables; its deep copy has the same nominal value and error contributions but depends on new variables only. Variables remain usable as distinct dictionary keys whatever their values.",
  ["inputs", "histories"], "all constructions and copies, all values (equal values, equal tags), all orders",
  "Tests check a few copies by value; independence and identity must hold for any number of variables with any values.",
  [CORE, UN], ["ufloat(...), copy.copy(x), copy.deepcopy(x)"], [("Variable", CORE), ("__copy__/__deepcopy__", CORE)])
p("C10", "Pickling saves and restores the complete state",
  "The state saved for pickling a number with uncertainty contains every data attribute of the object: all the slots of all classes in its inheritance chain (declared as a string or as any re-iterable collection of names) and its instance dictionary if there is one; restoring that state sets every one of them. The saved state is never a false value, so that restoring is never skipped, and data shared between the pickled objects is saved as such, so that their correlations survive.",
  ["inputs", "programs"], "all numbers with uncertainties, evaluated or not, with or without terms, and all user subclasses (with or without slots)",
  "Tests pickle a few objects; an omitted slot, subclass layout or falsy state shows only for particular objects.",
  [CORE], ["pickle.loads(pickle.dumps(x))"], [("__getstate__/__setstate__", CORE)])
p("C11", "Covariance and correlation matrices are the exact linear ones",
  "covariance_matrix() returns, for any sequence (list, tuple, array) of numbers with uncertainties, the symmetric matrix whose (i, j) entry is the sum over the variables common to both numbers of derivative_i x derivative_j x variance of the variable, with the current standard deviations, whatever their magnitude (no overflow, NaN or zero where the value is representable). The entries are floats. Its diagonal agrees with the squares of the standard deviations, including for NaN derivatives with respect to exact variables. correlation_matrix() is that matrix divided by the standard deviations of its row and of its column.",
  ["inputs", "histories"], "all lists (any length, shared, disjoint or no variables), all derivative values, any history of std_dev changes",
  "The test checks one 3x3 example.",
  [CORE], ["covariance_matrix(), correlation_matrix()"], [("covariance_matrix", CORE)])
p("C12", "correlated_values() reproduces the given covariance matrix",
  "correlated_values(values, cov) and correlated_values_norm((value, std dev) pairs, corr) return quantities with exactly the given nominal values that are linear combinations of newly created independent variables whose coefficients and standard deviations are such that their covariance matrix is the given one (eigenvector x standard deviation coefficients, eigenvalue variances, negative rounding residues set to zero, zero standard deviations handled), each new variable receiving its own tag.",
  ["inputs"], "all values and (symmetric positive semi-definite) matrices, including zero variances",
  "Tests check a few random matrices numerically and never zero variances together with tags and caller-owned arrays.",
  [CORE], ["correlated_values(), correlated_values_norm()"], [("correlated_values_norm", CORE)])
p("C13", "Matrix inverse and pseudo-inverse propagate exact derivatives",
  "unumpy.ulinalg.inv() and pinv() (and the .I attribute of a unumpy matrix) return the inverse / pseudo-inverse of the nominal values, in which each element depends on each variable with the exact derivative: -A'.dA.A' for the inverse, the Golub-Pereyra formula for the pseudo-inverse. Each derivative goes to the right element and the right variable; .I uses the inverse exactly for square matrices; pinv() honours rcond; matrices give matrices and arrays give arrays.",
  ["inputs"], "all invertible / all (square or rectangular) matrices with any distribution of variables over the elements",
  "Tests compare a few small matrices with numerical differentiation.",
  [UN], ["unumpy.ulinalg.inv, pinv; unumpy.matrix.I"], [("inv_with_derivatives, pinv_with_derivatives, func_with_deriv_to_uncert_func", UN)])
p("C14", "unumpy offers every umath scalar function, elementwise, under its NumPy name",
  "For each umath function that works on scalars, unumpy exports an elementwise version under the NumPy name of the function (acos -> arccos, acosh -> arccosh, asinh -> arcsinh, etc.), which applies that very umath function to each element, produces an object array for functions whose result carries an uncertainty whatever the type of the first element, and keeps the natural result type for functions that are locally constant (isnan, floor, etc.).",
  ["inputs", "configurations"], "all exported functions, all non-empty arrays (including arrays mixing floats and numbers with uncertainties in any order)",
  "Tests call three of about forty functions.",
  [UN, UM], ["unumpy.<name>"], [("define_vectorized_funcs", UN)])
p("C15", "Plain numbers go through unchanged",
  "Every wrapped function (umath functions, functions wrapped with wrap()) called with no number with uncertainty returns precisely what the original function returns for the very same arguments, positional and keyword, and lets its exceptions through. umath's modf, ldexp, frexp, fsum and factorial do the same.",
  ["inputs"], "all functions, all plain arguments (any type, any number of positional and keyword arguments)",
  "Tests check a few functions at one point.",
  [CORE, UM], ["umath.f(plain)", "wrap(f)(plain)"], [("wrap", CORE), ("wrap_locally_cst_func", UM)])
p("C16", "Locally constant and multi-valued math functions treat uncertainties correctly",
  "umath.ceil, floor, isinf, isnan and trunc return exactly the math function's value at the nominal value, with no uncertainty. umath.modf, frexp and ldexp return math's value at the nominal value (with its sign, for a zero), the real-valued part carrying the dependence of the argument with derivative 1, 2**-exponent and 2**i respectively, and fsum propagates each element of its list with derivative 1.",
  ["inputs"], "all nominal values, all variables and calculated quantities, all shifts i, all lists mixing plain and uncertain numbers",
  "The tests call these functions at one or two points and never read the uncertainty of frexp's mantissa.",
  [UM], ["umath.modf, frexp, ldexp, fsum, ceil, floor, trunc, isnan, isinf"], [("umath_core special cases", UM)])
p("C17", "An undefined derivative gives NaN, never an exception",
  "When the value of an operation can be calculated at the nominal values, an operator or umath function applied to numbers with uncertainties returns a result: if a derivative cannot be calculated there (division by zero, domain error, overflow), that derivative is NaN and no ValueError, ZeroDivisionError or OverflowError escapes.",
  ["inputs"], "all operators and all umath functions, all nominal values at which the value exists, including singular, tiny and huge ones",
  "Tests probe sqrt and pow at zero; other singular points, underflow and overflow of derivative formulas are not sampled.",
  [CORE, UM], ["x op y, umath.f(x)"], [("nan_if_exception", CORE)])
p("C18", "Conversions to plain numbers are refused",
  "int(), float() and complex() of any number with uncertainty always raise a TypeError whose message names the requested type and the class of the number, and there is no other conversion to a plain number (such as an index); no uncertainty is ever dropped silently.",
  ["inputs"], "all numbers with uncertainties (including those with a zero standard deviation), all conversions",
  "One test tries float() on one value.",
  [CORE], ["int(x), float(x), complex(x)"], [("add_operators_to_AffineScalarFunc", CORE)])
p("C19", "Parsing scales value and uncertainty consistently",
  "In every accepted string notation, the exponent (attached to a part, attached to the number, or factored outside parentheses) multiplies what it applies to: the nominal value and the uncertainty alike when it is common to both. An uncertainty in parentheses without decimal point counts in units of the last digit of the nominal value, with a decimal point it is absolute, and a missing one means 1 on the last digit; the sign applies to the nominal value only (a zero keeps its sign).",
  ["inputs"], "all strings of all accepted notations",
  "Tests parse a table of examples; combinations of notations (e.g. shorthand within a factored exponent) are missing.",
  [CORE], ["ufloat_fromstr()"], [("parse_error_in_parentheses, str_to_number_with_uncert", CORE)])
p("C20", "Unparsable strings are reported as ValueError only",
  "For any string whatsoever, ufloat_fromstr() either returns a variable or raises ValueError (or NegativeStdDev when the text denotes a negative uncertainty); no other exception (IndexError, AttributeError, TypeError, OverflowError, etc.) escapes, and texts in none of the documented notations are rejected: no part of a text is ignored.",
  ["inputs"], "all strings",
  "Tests try a couple of invalid strings.",
  [CORE], ["ufloat_fromstr()"], [("str_to_number_with_uncert, to_float, nrmlze_superscript", CORE)])
p("C21", "Printed value and uncertainty share precision, exponent and scale",
  "When a number with uncertainty is formatted, the nominal value and the (non-zero, finite) uncertainty are displayed with the same number of decimals, relative to the same common exponent, by which both are divided and which is printed; the % type multiplies both by 100; the sign option applies to the nominal value only; an exactly zero uncertainty is printed as the integer 0 and is never given an exponent of its own.",
  ["inputs"], "all nominal values and standard deviations, all format specifications",
  "test_format checks a table of examples; the combinations of type, precision, width, options and special values are not covered.",
  [CORE], ["format(x, spec)"], [("AffineScalarFunc.__format__, format_num", CORE)])
p("C22", "Format options select the documented notation",
  "P output uses the plus-minus sign and superscript exponents, L output uses LaTeX commands (with an escaped percent sign and LaTeX infinities/NaN), S output is the shorthand value(uncertainty) notation, p adds parentheses around value and uncertainty when there are none, and without options +/- and e-notation are used; P has priority over L; a percent type adds one percent sign at the end; width, fill, alignment, sign and zero padding apply to each part (including its exponent) or, in shorthand notation, to the whole. A format specification that is not documented raises ValueError.",
  ["inputs"], "all combinations of options, types, widths and special values (zero, NaN, infinite)",
  "test_format checks a table of examples, few combining options with special values.",
  [CORE], ["format(x, spec)"], [("format_num", CORE)])
p("C29", "Printed digits follow the precision, the Particle Data Group rules and the exponent rules",
  "format() displays as many significant digits as documented: with a precision followed by u, that many digits of the uncertainty (zero digits of an uncertainty that is neither zero nor NaN are refused with ValueError); without precision, the one or two digits of the uncertainty chosen by the rules of the Particle Data Group (100-354: two, 355-949: one, 950-999: rounded up to 1000 with two); with a precision, that many decimals (f, F) or significant digits (e, E, g, G and default) of the largest of the nominal value and the uncertainty, 6 or 12 by default when there is no usable uncertainty. e and E use the exponent of the largest value once rounded, g, G and the default type only when that exponent is less than -4 or some displayed digit would not be significant. str(x), format(x) and x.format('') give the same text; repr(x) displays all the digits of the nominal value and of the standard deviation.",
  ["inputs"], "all nominal values and standard deviations (including values that change decade when rounded, zero, NaN and infinite), all precisions and types",
  "test_format checks a table of examples; values at the edges of decades and of the rounding rules are sampled a few times.",
  [CORE], ["format(x, spec), str(x), repr(x)"], [("PDG_precision, signif_dgt_to_limit, first_digit, AffineScalarFunc.__format__", CORE)])
p("C23", "Functions never modify what the caller passes to them",
  "No public function or operator modifies its arguments: lists, tuples, dictionaries, matrices and arrays given to the functions of the package (including supplied derivatives, keyword arguments, tags and covariance matrices) are left as they were, and no call changes the defaults used by later calls.",
  ["inputs", "histories"], "all public functions, all mutable arguments, all sequences of calls",
  "Tests never look at their arguments after a call.",
  [CORE, UM, UN], ["arguments after the call; later calls"], [("copies made before in-place updates", CORE + ", " + UN)])
p("C24", "The scalar package works without NumPy",
  "With NumPy absent, importing uncertainties and uncertainties.umath succeeds and every exported function and every method of numbers with uncertainties only uses names that exist in that configuration; only the functions documented as requiring NumPy (correlated_values, correlated_values_norm, correlation_matrix) are missing. With NumPy present every name in __all__ of every module exists.",
  ["configurations"], "both configurations (NumPy present / absent), all code paths of all functions",
  "The test environment always has NumPy.",
  [CORE, UM, "uncertainties/__init__.py", UN], ["import uncertainties without numpy"], [("try: import numpy guards", CORE)])
p("C25", "Operations are lazy and evaluation is not limited by the depth of expressions",
  "Building an expression takes, for each operation (operators, umath functions, wrapped functions), a time that does not depend on the size of its operands: neither on the number of variables they depend on nor on the number of operations they come from (the linear parts of operands are referred to, never evaluated or copied). Evaluating the derivatives, the standard deviation or the text of an expression, copying, deep-copying or pickling it uses no recursion on its nesting, and takes a time that is proportional to its number of operations when each intermediate result is used once: sums of any number of terms can be calculated.",
  ["inputs", "programs"], "all expressions of any length and depth",
  "Tests build expressions of a few operations.",
  [CORE, UM], ["sum(variables).std_dev for long lists"], [("wrap, LinearCombination.expand", CORE)])
p("C26", "Foreign operands are handed back to Python",
  "Operators and comparisons of a number with uncertainty with an operand that is not a number (None, string, list, NumPy array, user object) return NotImplemented from the special method, so that Python or the other object decides; they never raise from inside the package, and never return a number with uncertainty with a wrong or missing dependence.",
  ["inputs"], "all operators and comparisons, both operand orders, all non-number operand types (complex numbers are not considered)",
  "Tests try None and one list with != and arrays with a few operators.",
  [CORE], ["x op other"], [("wrap NotImplemented branch, force_aff_func_args, to_affine_scalar", CORE)])
p("C27", "Obsolete calling forms give the same result as the current ones, with a warning",
  "The obsolete forms ufloat((value, std_dev)), ufloat((value, std_dev), tag), ufloat(string), ufloat(string, tag), x.std_dev(), x.set_std_dev(s), uarray((values, std_devs)) and umatrix((values, std_devs)) produce the same value, standard deviation and tag as the current forms and emit a warning; the current forms emit none.",
  ["inputs"], "all obsolete forms, positional or keyword tags, all values",
  "Tests call few obsolete forms and do not check tags or warnings.",
  [CORE, UN], ["ufloat(), uarray(), umatrix(), std_dev()"], [("ufloat, ufloat_obsolete, deprecation", CORE)])
p("C28", "nominal_value()/std_dev() helpers give uniform access",
  "nominal_value(x) and std_dev(x) return the nominal value and standard deviation of a number with uncertainty, and x itself and 0.0 for anything else; unumpy.nominal_values() and std_devs() apply them to each element and return float arrays of the same shape (NumPy matrices for unumpy matrices). uarray(values, std_devs) pairs each value with the standard deviation at the same position.",
  ["inputs"], "all scalars (numbers with uncertainty or not), all arrays mixing both",
  "Tests check one float array.",
  [CORE, UN], ["nominal_value(), std_dev(), unumpy.nominal_values(), unumpy.std_devs(), uarray()"], [("nominal_value, std_dev", CORE), ("to_nominal_values, to_std_devs, uarray", UN)])
p("C30", "Arithmetic of arrays and matrices is that of their elements",
  "Operations between NumPy arrays, unumpy matrices, lists, numbers with uncertainties and plain numbers (in either order) are performed element by element, or as the matrix product for * between matrices, for their positive integer powers and for dot(): each resulting element has the nominal value and the derivatives that the same operations give on numbers with uncertainties, shared variables included. In-place operations (a += b, etc.) do the same. In particular scalar * matrix, matrix * scalar, matrix * matrix, array * matrix and list * matrix all work for unumpy matrices, give a unumpy matrix, and keep the order of the operands.",
  ["inputs"], "all arrays and matrices mixing numbers with uncertainties and plain numbers, all operators and operand orders", "Tests multiply one matrix by one number and one array by one number.",
  [CORE, UN], ["array op x, x op array, matrix op x, x op matrix, numpy.dot()"], [("wrap (NotImplemented for arrays)", CORE), ("matrix.__mul__, matrix.__rmul__, umatrix", UN)])
p("C40", "str() and format() output parses back to the displayed value",
  "Text produced by str(), repr() (of a quantity without tag) or format() of a number with uncertainty, except in LaTeX, percent, comma-separated, custom-filled, or zero-padded NaN or infinite output, is accepted by ufloat_fromstr(), which returns a variable with the displayed nominal value and uncertainty.",
  ["inputs"], "all values (including NaN, infinite and zero ones) and format specifications", "Tests parse back the table of test_format.",
  [CORE], ["ufloat_fromstr(format(x, spec))"], [("AffineScalarFunc.__format__, format_num, str_to_number_with_uncert", CORE)])
p("C41", "Numerically calculated derivatives are accurate",
  "The derivatives that are calculated numerically (mod, fmod, gamma, lgamma, wrapped functions without derivatives) agree with the exact ones to within a small relative error.",
  ["inputs"], "all smooth functions and arguments", "Tests sample a few points.",
  [CORE], ["wrap(f)(x).derivatives[x]"])
p("C42", "Uncertainties agree with Monte-Carlo results in the linear regime",
  "For functions that are almost linear over the uncertainty region, the propagated standard deviation agrees with the standard deviation of the sampled function.",
  ["inputs"], "all functions and distributions in the linear regime", "One Monte-Carlo comparison exists.",
  [CORE], ["y.std_dev"])
p("C43", "Concurrent reads from several threads are safe",
  "Reading standard deviations and derivatives of shared quantities from several threads gives the same values as in a single thread.",
  ["schedules"], "all interleavings of lazy evaluation", "No test uses threads.",
  [CORE], ["x.derivatives from two threads"])
p("C44", "The 1to2 converter turns legacy code into equivalent current code",
  "For any program, the code produced by the converter behaves like the original run with the legacy API.",
  ["programs"], "all Python programs", "Tests convert a dozen snippets.",
  ["uncertainties/lib1to2/fixes/fix_ufloat.py", "uncertainties/lib1to2/fixes/fix_std_dev.py", "uncertainties/lib1to2/fixes/fix_std_devs.py", "uncertainties/lib1to2/fixes/fix_uarray_umatrix.py"], ["python -m uncertainties.1to2"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + "\n")
