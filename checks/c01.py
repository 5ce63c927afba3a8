"""C01: nominal values and derivatives of the arithmetic operators."""
import math, decimal
from sa.terms import *
from sa.report import Check
from sa.field import diff, samples, equal
from sa import field
from sa.fx import subst, strip, central_difference

m = lambda f, *a: T('math.' + f, *a)
NAN = math.nan

def cases():
    """(label, op, nominal formula, rng x, rng y, d/dx, d/dy)"""
    out = []
    x, y = sym('x'), sym('y')
    F_ = FIN()
    for lab, op, n in (('+', '+', 'add'), ('-', '-', 'sub'), ('*', '*', 'mul')):
        N = lambda a, b, n=n: T(n, a, b)
        for rx, rl in ((FIN(), 'any'), (0.0, '0')):
            for ry, sl in ((FIN(), 'any'), (0.0, '0')):
                out.append(('x%sy x:%s y:%s' % (op, rl, sl), op, N, rx, ry, 'D', 'D'))
    N = lambda a, b: T('div', a, b)
    for rx, rl in ((FIN(), 'any'), (0.0, '0')):
        for ry, sl in ((POS(), '>0'), (NEG(), '<0')):
            out.append(('x/y x:%s y:%s' % (rl, sl), '/', N, rx, ry, 'D', 'D'))
    # powers
    P = lambda a, b: T('pow', a, b)
    dP0 = lambda a, b: T('mul', b, T('pow', a, T('sub', b, 1.0)))
    dP1 = lambda a, b: T('mul', m('log', a), T('pow', a, b))
    out += [
        ('x**y x>0', '**', P, POS(), FIN(), dP0, dP1),
        ('x**y x>0 y=0', '**', P, POS(), 0.0, 0.0, lambda a, b: m('log', a)),
        ('x**y x=0 integer y>1', '**', P, 0.0, Rng(2, math.inf, True, False, int=True), 0.0, 0.0),
        ('x**y x=0 y=1', '**', P, 0.0, 1.0, 1.0, 0.0),
        ('x**y x=0 y=2', '**', P, 0.0, 2.0, 0.0, 0.0),
        ('x**y x=0 0<y<1', '**', P, 0.0, Rng(0, 1, False, False), NAN, 0.0),
        ('x**y x=0 y=0', '**', P, 0.0, 0.0, 0.0, NAN),
        ('x**y x<0 y=0', '**', P, NEG(), 0.0, 0.0, NAN),
        ('x**y x<0 integer y>0', '**', P, NEG(), Rng(0, math.inf, False, False, int=True), dP0, NAN),
        ('x**y x<0 integer y<0', '**', P, NEG(), Rng(-math.inf, 0, False, False, int=True), dP0, NAN),
    ]
    # floor division and remainder, away from the jumps
    FD = lambda a, b: T('floordiv', a, b)
    MD = lambda a, b: T('mod', a, b)
    for ry, sl in ((POS(), '>0'), (NEG(), '<0')):
        out.append(('x//y y:%s' % sl, '//', FD, FIN(), ry, 0.0, 0.0))
        out.append(('x%%y y:%s' % sl, '%', MD, FIN(), ry, 1.0, lambda a, b: T('neg', T('floordiv', a, b))))
    return out

def away(op, pts, x, y):
    """Drop sample points where x/y is close to an integer."""
    if op not in ('//', '%'): return pts
    res = []
    for p in pts:
        q = p[x] / p[y] if x in p and y in p else 0.37
        if abs(q - round(q)) > 1e-2 and abs(q) < 1e3: res.append(p)
    return res

from checks.c02 import CTX, ONE, as_double, exact_ok
REFLECTED = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '//': '__rfloordiv__', '%': '__rmod__', '**': '__rpow__'}
EXACT_OPS = {
    '+': (lambda x, y: ONE, lambda x, y: ONE), '-': (lambda x, y: ONE, lambda x, y: -ONE), '*': (lambda x, y: y, lambda x, y: x),
    '/': (lambda x, y: CTX.divide(ONE, y), lambda x, y: CTX.divide(-x, CTX.multiply(y, y))),
    '**': (lambda x, y: CTX.multiply(y, CTX.power(x, CTX.subtract(y, ONE))), lambda x, y: CTX.multiply(CTX.ln(x), CTX.power(x, y)) if x > 0 else None),
}

def run(tier):
    ck = Check('C01', tier, 'For each operator and operand combination, abstract execution of the public operator on symbolic operands: the nominal value '
               'term and every derivative term equal the mathematical ones in each region of the operands.',
               'abstract interpretation of the operators with value numbering; derivative equality in a differential-field normal form')
    w = ck.world()
    e = w.e
    for lab, op, N, rx, ry, dx, dy in cases():
        for kx, ky in (('U', 'U'), ('U', 'F'), ('F', 'U'), ('U', 'I'), ('I', 'U'), ('U', 'R')):
            def go(kx=kx, ky=ky):
                def operand(name, k, r):
                    if k in 'UR':
                        v = w.var(name, r)
                        return v, (r if isinstance(r, float) else sym(name)), r
                    if k == 'I':
                        if isinstance(r, float): return int(r), int(r), r
                        t = sym('k' + name, 'int')
                        rr = r.copy(int=True)
                        e.regions[t] = rr
                        return t, t, rr
                    if isinstance(r, float): return r, r, r
                    return w.sym('c' + name, r), sym('c' + name), r
                if (kx == 'I' or ky == 'I') and not applicable(kx, ky, rx, ry): return
                a, ta, ra = operand('x', kx, rx)
                b, tb, rb = operand('y', ky, ry)
                rngs = {t: r for t, r in ((ta, ra), (tb, rb)) if isinstance(t, Term)}
                pts = away(op, samples(rngs, 90), ta, tb)
                tag = '%s [%s%s]' % (lab, kx, ky)
                # R: the reflected special method of the second operand, called by name
                res = w.value(lambda: w.op(op, a, b) if ky != 'R' else w.meth(b, REFLECTED[op], a))
                iu = w.is_uncert(res)
                if iu is not True:
                    ck.check(tag + ' result type', False if iu is False else None, 'the result is not a number with uncertainty: %r' % (res,))
                    return
                want = N(ta, tb)
                if not isinstance(ta, Term) and not isinstance(tb, Term): want = fold(op, ta, tb)
                if op == '**' and rx == 0 and isinstance(ry, Rng) and ry.lo > 0: want = 0.0
                ck.eq(w, tag + ' nominal value', w.value(lambda: w.get(res, 'nominal_value')), want, pts=pts, extend=op not in ('//', '%'))
                for k, v, t, d, nm in ((kx, a, ta, dx, 'first'), (ky, b, tb, dy, 'second')):
                    if k not in 'UR': continue
                    got = w.value(lambda: w.deriv(res, v))
                    if d == 'D':
                        s = sym('s_' + nm)
                        f = N(s, tb) if nm == 'first' else N(ta, s)
                        want = subst(diff(f, s), s, t)
                    else:
                        want = d(ta, tb) if callable(d) else d
                    name = '%s derivative with respect to the %s operand' % (tag, nm)
                    if op == '%' and nm == 'second' and isinstance(got, Term):
                        g1 = strip(got)
                        if central_difference(g1, N(ta, tb), tb, pts):
                            ck.ok(name, 'symmetric difference of the operation itself', got.site)
                            continue
                        ck.eq(w, name, got, want, pts=pts, tol=1e-4, extend=False)
                        continue
                    ck.eq(w, name, got, want, pts=pts, extend=op not in ('//', '%'))
                # no other variable
                ks = w.value(lambda: tuple(e.iterate(w.get(res, 'derivatives'))))
                if isinstance(ks, tuple):
                    us = [v for k, v in ((kx, a), (ky, b)) if k in 'UR']
                    extra = [z for z in ks if z is not ABSENT and not any(same(z, u) for u in us)]
                    if extra and all(isinstance(z, Ref) for z in extra):
                        ck.bad(tag + ' variables', 'the result depends on %d variables that are not operands' % len(extra))
                    else: ck.ok(tag + ' variables')
            ck.obligation(w, '%s [%s%s]' % (lab, kx, ky), go)
    # unary
    for lab, fn, reg in (('-x', lambda v: e.unary('-', v), ((FIN(), lambda t: T('neg', t), -1.0),)),
                         ('+x', lambda v: e.unary('+', v), ((FIN(), lambda t: t, 1.0),)),
                         ('abs(x)', lambda v: w.call(Ext('builtins.abs'), v), ((POS(), lambda t: t, 1.0), (NEG(), lambda t: T('neg', t), -1.0))),
                         ('math.trunc(x)', lambda v: w.call(Ext('math.trunc'), v), ((POS(), lambda t: m('trunc', t), 0.0), (NEG(), lambda t: m('trunc', t), 0.0)))):
        for rg, N, d in reg:
            def go():
                v = w.var('x', rg)
                t = sym('x')
                pts = samples({t: rg})
                res = w.value(lambda: fn(v))
                ck.eq(w, '%s on %s nominal value' % (lab, rg), w.value(lambda: w.get(res, 'nominal_value')), N(t), pts=pts)
                ck.eq(w, '%s on %s derivative' % (lab, rg), w.value(lambda: w.deriv(res, v)), d, pts=pts)
            ck.obligation(w, '%s on %s' % (lab, rg), go)
    # operands of extreme magnitude: the derivatives are the exact ones as soon as these are floating-point numbers
    MAG = (1e200, 1e160, 1e308, 1e-200, 1e-160, 1e-300, 3.0)
    POWS = ((1e200, 1.5), (1e-200, 1.5), (1e-100, 3.0), (1e100, -3.0), (1e-100, -3.0), (1e200, 1e-200), (1e308, 1.0), (1e-300, 0.5), (1e300, 0.5), (1e200, -1.0), (1e-150, 2.0), (1e-300, 1.0), (1e308, 1e-5), (1e-200, 2.0), (-1e-200, 2.0), (1e-300, 1.5), (5e-324, 2.0), (1e-110, 3.0), (-1e-110, 3.0))
    for op in ('+', '-', '*', '/', '**'):
        for x, y in POWS if op == '**' else [(a, b) for a in MAG + tuple(-v for v in MAG) for b in MAG + tuple(-v for v in MAG)]:
            try: N = fold(op, x, y)
            except OverflowError: continue
            if isinstance(N, complex) or math.isinf(N): continue
            D = [as_double(f(*map(decimal.Decimal, (x, y)))) for f in EXACT_OPS[op]]
            for kind in ('UU', 'UF', 'FU'):
                tag = '%r %s %r [%s]' % (x, op, y, kind)
                def go():
                    a, b = [w.var(n, v) if k == 'U' else v for n, k, v in zip('xy', kind, (x, y))]
                    res = w.value(lambda: w.op(op, a, b))
                    ck.eq(w, tag + ' nominal value', w.value(lambda: w.get(res, 'nominal_value')), N)
                    for k, v, want, nm in ((kind[0], a, D[0], 'first'), (kind[1], b, D[1], 'second')):
                        if k != 'U' or want is None: continue
                        got = w.value(lambda: w.deriv(res, v))
                        if isinstance(got, Term):
                            try: got = field.evalt(got, {})
                            except field.NoVal: pass
                        ck.check('%s derivative with respect to the %s operand' % (tag, nm), exact_ok(got, want), 'found %r, the exact derivative is %r' % (got, want))
                ck.obligation(w, tag, go)
    return ck.finish('Every operator of numbers with uncertainties (binary, reflected through a plain float or int on either side, unary) is interpreted '
                     'abstractly from its public entry point down to the stored linear combination, per region of the operands; obligations are nominal-value, '
                     'derivative and variable-set obligations.',
                     ['real arithmetic stands for floating point in the comparison of formulas', 'library primitives (math, float) behave as documented'])

def applicable(kx, ky, rx, ry):
    for k, r in ((kx, rx), (ky, ry)):
        if k == 'I' and not isinstance(r, float):
            if math.isfinite(r.hi) and math.isfinite(r.lo): return False
    return True

def fold(op, a, b):
    try:
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b, '//': lambda: a // b, '%': lambda: a % b}[op]()
    except ZeroDivisionError:
        return NAN
