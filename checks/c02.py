"""C02: nominal values and derivatives of the umath functions."""
import math, decimal, itertools
from sa.terms import *
from sa.report import Check
from sa.field import diff, samples
from sa import field
from sa.world import AnchorMissing
from sa.fx import central_difference, subst
from sa.engine import AbsRaise

INF = math.inf
R = lambda lo, hi: Rng(lo, hi, False, False)
ANY, P_, N_ = R(-INF, INF), R(0, INF), R(-INF, 0)
UNIT = R(-1, 1)
m = lambda f, *a: T('math.' + f, *a)

# name -> list of argument-region tuples; a number stands for itself
CASES = {
    'acos': [(UNIT,), (0.0,)], 'asin': [(UNIT,), (0.0,)], 'acosh': [(R(1, INF),)], 'asinh': [(P_,), (N_,), (0.0,)], 'atan': [(P_,), (N_,), (0.0,)],
    'atanh': [(UNIT,), (0.0,)], 'cos': [(ANY,), (0.0,)], 'cosh': [(ANY,), (0.0,)], 'sin': [(ANY,), (0.0,)], 'sinh': [(ANY,), (0.0,)],
    'tan': [(R(-1.5, 1.5),), (R(1.6, 4.7),)], 'tanh': [(ANY,), (0.0,)], 'exp': [(ANY,), (0.0,)], 'expm1': [(ANY,), (0.0,)], 'log10': [(P_,)], 'log1p': [(R(-1, INF),)],
    'sqrt': [(P_,)], 'erf': [(ANY,), (0.0,)], 'erfc': [(ANY,), (0.0,)], 'degrees': [(ANY,)], 'radians': [(ANY,)], 'fabs': [(P_,), (N_,)],
    'log': [(P_,), (P_, R(1, INF)), (P_, R(0, 1)), (P_, 10.0), (P_, 2.0), (P_, 0.5), (1.0, P_)],
    'atan2': [(P_, P_), (P_, N_), (N_, P_), (N_, N_), (P_, 0.0), (N_, 0.0), (0.0, P_), (0.0, N_)],
    'copysign': [(P_, P_), (P_, N_), (N_, P_), (N_, N_), (P_, 0.0), (P_, -0.0), (N_, 0.0), (N_, -0.0)],
    'hypot': [(P_, P_), (P_, N_), (N_, P_), (N_, N_), (P_, 0.0), (0.0, N_), (0.0, P_)],
    'pow': [(P_, P_), (P_, N_), (P_, 0.0), (0.0, 1.0), (0.0, 2.0), (0.0, 0.0), (N_, 0.0),
            (N_, Rng(0, INF, False, False, int=True)), (N_, Rng(-INF, 0, False, False, int=True)), (0.0, Rng(2, INF, True, False, int=True)), (P_, 1.0), (P_, 2.0), (N_, 1.0), (N_, 2.0), (N_, -1.0), (P_, -1.0), (P_, 0.5), (1.0, P_), (1.0, N_), (0.0, 0.5), (0.0, 3.0), (1.0, 0.0)],
    'fmod': [(P_, P_), (N_, P_), (P_, N_), (N_, N_)], 'gamma': [(P_,), (R(-0.95, -0.05),)], 'lgamma': [(P_,), (R(-0.95, -0.05),)],
}
FILTERED = {'fmod', 'gamma', 'lgamma'}
NUMERIC = {'fmod', 'gamma', 'lgamma'}

def want_deriv(f, i, args, regs):
    """Expected derivative with respect to argument i (None: not stated)."""
    x = args[i]
    if f == 'fabs': return 1.0 if regs[0].lo >= 0 else -1.0
    if f == 'copysign':
        if i == 1: return 0.0
        s0 = 1.0 if regs[0].lo >= 0 else -1.0
        return T('mul', s0, m('copysign', 1, args[1])) if isinstance(args[1], Term) else s0 * math.copysign(1, args[1])
    if f == 'fmod':
        return 1.0 if i == 0 else T('neg', m('trunc', T('div', args[0], args[1])))
    if f in ('gamma', 'lgamma'): return None
    if f == 'pow':
        b, e = regs
        a, k = args
        ec = None if isinstance(e, Rng) else e
        zero = not isinstance(b, Rng) and b == 0
        if i == 0:
            if ec == 0: return 0.0
            if zero: return math.nan if ec is not None and ec < 1 else 1.0 if ec == 1 else 0.0
            return T('mul', k, T('pow', a, T('sub', k, 1.0)))
        if zero: return math.nan if ec == 0 else 0.0
        if (b.hi if isinstance(b, Rng) else b) <= 0: return math.nan
        return T('mul', m('log', a), T('pow', a, k)) if isinstance(a, Term) else math.log(a) * a ** ec if ec is not None else T('mul', math.log(a), T('pow', a, k))
    if f == 'log' and not all(isinstance(a, Term) for a in args[1:]):
        lb = math.log(args[1])
        return T('div', 1.0, T('mul', args[0], lb)) if i == 0 else T('neg', T('div', T('div', m('log', *args), args[1]), lb))
    s = sym('s_d')
    na = list(args); na[i] = s
    r = subst(diff(m(f, *na), s), s, x)
    return r if any(isinstance(a, Term) for a in args) or not isinstance(r, Term) else field.evalt(r, {})

# ---- arguments of extreme magnitude: the exact derivative, in decimal arithmetic of 60 digits
CTX = decimal.Context(prec=60, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])
D = lambda v: decimal.Decimal(v)
def _sq(v): return CTX.sqrt(v)
def _r2(x, y): return CTX.add(CTX.multiply(x, x), CTX.multiply(y, y))
ONE = decimal.Decimal(1)
EXACT = {
    'acosh': [lambda x: CTX.divide(ONE, _sq(CTX.subtract(CTX.multiply(x, x), ONE)))],
    'asinh': [lambda x: CTX.divide(ONE, _sq(_r2(ONE, x)))],
    'atan': [lambda x: CTX.divide(ONE, _r2(ONE, x))],
    'atan2': [lambda y, x: CTX.divide(x, _r2(x, y)), lambda y, x: CTX.divide(-y, _r2(x, y))],
    'hypot': [lambda x, y: CTX.divide(x, _sq(_r2(x, y))), lambda x, y: CTX.divide(y, _sq(_r2(x, y)))],
    'erf': [lambda x: CTX.multiply(D(2 / math.sqrt(math.pi)), CTX.exp(-CTX.multiply(x, x)))],
    'erfc': [lambda x: CTX.multiply(D(-2 / math.sqrt(math.pi)), CTX.exp(-CTX.multiply(x, x)))],
    'sqrt': [lambda x: CTX.divide(D('0.5'), _sq(x))],
    'log': [lambda x, b=None: CTX.divide(ONE, x) if b is None else CTX.divide(ONE, CTX.multiply(x, CTX.ln(b))),
            lambda x, b: CTX.divide(-CTX.ln(x), CTX.multiply(b, CTX.multiply(CTX.ln(b), CTX.ln(b))))],
    'log10': [lambda x: CTX.divide(ONE, CTX.multiply(x, CTX.ln(D(10))))],
    'log1p': [lambda x: CTX.divide(ONE, CTX.add(ONE, x))],
    'exp': [lambda x: CTX.exp(x)], 'expm1': [lambda x: CTX.exp(x)],
    'fabs': [lambda x: ONE if x > 0 else -ONE],
    'degrees': [lambda x: D(math.degrees(1))], 'radians': [lambda x: D(math.radians(1))],
    'copysign': [lambda x, y: ONE if (x > 0) == (y > 0) else -ONE, lambda x, y: D(0)],
    'pow': [lambda x, y: CTX.multiply(y, CTX.power(x, CTX.subtract(y, ONE))), lambda x, y: CTX.multiply(CTX.ln(x), CTX.power(x, y)) if x > 0 else None],
    'acos': [lambda x: CTX.divide(-ONE, _sq(CTX.subtract(ONE, CTX.multiply(x, x))))], 'asin': [lambda x: CTX.divide(ONE, _sq(CTX.subtract(ONE, CTX.multiply(x, x))))],
    'atanh': [lambda x: CTX.divide(ONE, CTX.subtract(ONE, CTX.multiply(x, x)))],
    'sinh': [lambda x: CTX.divide(CTX.add(CTX.exp(x), CTX.exp(-x)), D(2))], 'cosh': [lambda x: CTX.divide(CTX.subtract(CTX.exp(x), CTX.exp(-x)), D(2)) if abs(x) > 1e-9 else x],
    'tanh': [lambda x: CTX.divide(D(4), CTX.power(CTX.add(CTX.exp(x), CTX.exp(-x)), D(2)))],
}
BIG = (1e200, 1e160, 1.5e155, 1e308, 1e100, 1e17)
TINY = (1e-200, 1e-160, 1e-300, 2e-308, 1e-100, 1e-17)
MID = (700., 50., 1e5)
SIGNED = BIG + TINY + MID + tuple(-v for v in BIG + TINY + MID)
PAIRS = [(a, b) for a in (1e200, -1e200, 1e160, 1e308, -1e-200, 1e-200, 1e-160, 1e-300, 3.0, -3.0) for b in (1e200, -1e200, 1e160, 1e308, 1e-200, -1e-200, 1e-300, 2.0, -2.0)]
EXTREMES = {
    'acosh': BIG + (50., 1e5, 700.), 'asinh': SIGNED, 'atan': SIGNED, 'erf': SIGNED, 'erfc': SIGNED, 'fabs': SIGNED, 'degrees': SIGNED, 'radians': SIGNED,
    'sqrt': BIG + TINY, 'log': BIG + TINY + tuple(itertools.product((1e200, 1e-200, 1e308, 3.0), (1e200, 1e-200, 10., 0.5))), 'log10': BIG + TINY, 'log1p': BIG + TINY + tuple(-v for v in TINY),
    'exp': TINY + tuple(-v for v in TINY) + (700., -700., -1e5, -1e200, 50., -50.), 'expm1': TINY + tuple(-v for v in TINY) + (700., -700., -50., -1e200),
    'atan2': PAIRS, 'hypot': PAIRS, 'copysign': PAIRS,
    'pow': ((1e200, 1.5), (1e-200, 1.5), (1e-100, 3.0), (1e100, -3.0), (1e-100, -3.0), (1e200, 1e-200), (1e308, 1.0), (1e-300, 0.5), (1e300, 0.5), (1e200, -1.0), (1e-150, 2.0), (1e-300, 1.0), (1e308, 1e-5), (1e-200, 2.0), (-1e-200, 2.0), (1e-300, 1.5), (5e-324, 2.0), (1e-110, 3.0), (-1e-110, 3.0)),
    'acos': TINY + tuple(-v for v in TINY), 'asin': TINY + tuple(-v for v in TINY), 'atanh': TINY + tuple(-v for v in TINY),
    'sinh': TINY + (700., -700., 50., -50.), 'cosh': (700., -700., 50., -50., 1e-17, 1e-100, 1e-300, -1e-300), 'tanh': TINY + BIG + tuple(-v for v in BIG),
}

def as_double(d):
    """The floating-point number of an exact result; None when it is too large."""
    if d is None or d.is_nan(): return None
    v = float(d)
    return None if math.isinf(v) else v

def exact_ok(found, want):
    if isinstance(found, int): found = float(found)
    if not isinstance(found, float): return None
    return abs(found - want) <= max(1e-6 * abs(want), 1e-307)

def away(f, pts, args):
    if f == 'fmod':
        r = []
        for p in pts:
            q = p.get(args[0], 0.5) / p.get(args[1], 0.5)
            if abs(q - round(q)) > 1e-2 and abs(q) < 1e3: r.append(p)
        return r
    if f in ('gamma', 'lgamma', 'cosh', 'sinh', 'exp', 'expm1'):
        return [p for p in pts if all(abs(v) < 30 for v in p.values())]
    if f in ('erf', 'erfc', 'tanh'):
        return [p for p in pts if all(abs(v) < 3 for v in p.values())]
    if f == 'pow':
        return [p for p in pts if all(abs(v) < 50 for v in p.values())]
    return pts

def run(tier):
    ck = Check('C02', tier, 'For each umath function, argument position and region of the domain: abstract execution of the public function on symbolic operands; '
               'the nominal value is the math function of the nominal values and each derivative term equals the mathematical derivative.',
               'abstract interpretation with value numbering; derivative equality in a differential-field normal form')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    w.ref('uncertainties.umath:__all__')
    nfun = 0
    for f in sorted(CASES):
        try:
            F = w.ref('uncertainties.umath:' + f)
        except AnchorMissing:
            ck.bad('umath.%s' % f, 'the function is not available from uncertainties.umath')
            continue
        nfun += 1
        for regs in CASES[f]:
            kinds = [''.join(k) for k in product(len(regs))]
            for kind in kinds:
                tag = 'umath.%s(%s) [%s]' % (f, ', '.join(str(r) for r in regs), kind)
                def go():
                    vals, args, rngs = [], [], {}
                    for j, (k, r) in enumerate(zip(kind, regs)):
                        nm = 'xyz'[j]
                        if not isinstance(r, Rng): t = r
                        else:
                            t = sym(nm, 'float')
                            rngs[t] = r
                        if k == 'U': v = w.var(nm, r)
                        elif isinstance(r, Rng): v = w.sym(nm, r)
                        else: v = r
                        vals.append(v); args.append(t)
                    pts = away(f, samples(rngs, 80), args)
                    res = w.value(lambda: w.call(F, *vals))
                    iu = w.is_uncert(res)
                    if iu is not True:
                        ck.check(tag + ' result type', False if iu is False else None, 'the result is not a number with uncertainty: %r' % (res,))
                        return
                    N = m(f, *args)
                    if not any(isinstance(a, Term) for a in args):
                        N = getattr(math, f)(*args)
                    if f == 'pow' and args[0] == 0 and isinstance(regs[1], Rng) and regs[1].lo > 0: N = 0.0
                    ck.eq(w, tag + ' nominal value', w.value(lambda: w.get(res, 'nominal_value')), N, pts=pts, tol=1e-9, extend=f not in FILTERED)
                    for j, (k, r, v) in enumerate(zip(kind, regs, vals)):
                        if k != 'U': continue
                        name = '%s derivative with respect to argument %d' % (tag, j + 1)
                        got = w.value(lambda: w.deriv(res, v))
                        if f in NUMERIC:
                            g = got
                            if isinstance(g, Term) and isinstance(args[j], Term) and central_difference(g, m(f, *args), args[j], pts) is True:
                                ck.ok(name, 'symmetric difference of the function itself', g.site); continue
                            wd = want_deriv(f, j, args, regs)
                            if wd is None:
                                if not isinstance(args[j], Term): continue
                                h = 2.0 ** -20
                                x = args[j]
                                wd = T('div', T('sub', m(f, T('add', x, h)), m(f, T('sub', x, h))), 2 * h)
                            ck.eq(w, name, got, wd, pts=pts, tol=1e-4, extend=False)
                            continue
                        ck.eq(w, name, got, want_deriv(f, j, args, regs), pts=pts, extend=f not in FILTERED)
                    ks = w.value(lambda: tuple(e.iterate(w.get(res, 'derivatives'))))
                    us = [v for k, v in zip(kind, vals) if k == 'U']
                    extra = [z for z in ks if z is not ABSENT and not any(same(z, u) for u in us)]
                    if extra and all(isinstance(z, Ref) for z in extra): ck.bad(tag + ' variables', 'the result depends on %d other variables' % len(extra))
                    else: ck.ok(tag + ' variables')
                ck.obligation(w, tag, go)
        # a calculated quantity as argument: the chain rule goes through the public function
        regs = CASES[f][0]
        def go():
            vals, args, rngs = [], [], {}
            v0 = None
            for j, r in enumerate(regs):
                nm = 'xyz'[j]
                if isinstance(r, Rng):
                    t = sym(nm); rngs[t] = r
                    v = w.var(nm, r)
                else: t = r; v = w.var(nm, r)
                args.append(t); vals.append(v)
            q = [w.op('+', v, 0.0) for v in vals]
            pts = away(f, samples(rngs, 60), args)
            res = w.value(lambda: w.call(F, *q))
            for j, v in enumerate(vals):
                if f in NUMERIC or (f, j) == ('copysign', 1): continue
                got = w.value(lambda: w.deriv(res, v))
                ck.eq(w, 'umath.%s of calculated quantities, derivative %d' % (f, j + 1), got, want_deriv(f, j, args, regs), pts=pts, extend=f not in FILTERED)
        ck.obligation(w, 'umath.%s of calculated quantities' % f, go)
        for args in EXTREMES.get(f, ()):
            args = args if isinstance(args, tuple) else (args,)
            try: N = getattr(math, f)(*args)
            except (OverflowError, ValueError): continue
            for kind in product(len(args)):
                tag = 'umath.%s(%s) [%s]' % (f, ', '.join(map(repr, args)), kind)
                def go():
                    vals = [w.var('xy'[j], a) if k == 'U' else a for j, (k, a) in enumerate(zip(kind, args))]
                    res = w.value(lambda: w.call(F, *vals))
                    ck.eq(w, tag + ' nominal value', w.value(lambda: w.get(res, 'nominal_value')), N)
                    for j, (k, v) in enumerate(zip(kind, vals)):
                        if k != 'U': continue
                        want = as_double(EXACT[f][j](*map(D, args)))
                        if want is None: continue
                        name = '%s derivative with respect to argument %d' % (tag, j + 1)
                        got = w.value(lambda: w.deriv(res, v))
                        if isinstance(got, Term):
                            try: got = field.evalt(got, {})
                            except field.NoVal: pass
                        ck.check(name, exact_ok(got, want), 'found %r, the exact derivative is %r' % (got, want))
                ck.obligation(w, tag, go)
    ck.extra['functions_of_umath_checked'] = nfun
    return ck.finish('Each umath function is interpreted abstractly from its public name down to the stored linear combination, in each region of its domain and for each '
                     'choice of uncertain arguments; the derivative term reached is compared with the formal derivative of the math function.',
                     ['real arithmetic stands for floating point in the comparison of formulas', 'functions of the math module behave as documented',
                      'the set of functions of umath depends on the Python version; those known to this check are examined'])

def product(n):
    if n == 0: return []
    out = ['']
    for _ in range(n): out = [p + k for p in out for k in 'UF']
    return [p for p in out if 'U' in p]
