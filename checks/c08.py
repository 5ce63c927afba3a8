"""C08: comparison operators."""
import math, operator, itertools
from sa.terms import *
from sa.report import Check
from sa.engine import Native
from sa import field
from sa.fx import truth_verdict, field_decider

DRIVER = '''
import numbers, numpy
class Quotient(numbers.Number):
    """Number type (like fractions.Fraction)."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
class Registered(object):
    """Number type registered as such (like decimal.Decimal)."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
numbers.Number.register(Registered)
class Scalar(numpy.generic):
    """NumPy scalar."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
'''
OPS = ['==', '!=', '<', '<=', '>', '>=']
MIRROR = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}

def expected(order, zero_sd):
    eq = order == '=' and zero_sd
    lt, gt = order == '<', order == '>'
    return {'==': eq, '!=': not eq, '<': lt, '<=': lt or eq, '>': gt, '>=': gt or eq}

def points(order, names):
    """Sample points consistent with the ordering of the two nominal values."""
    vals = {'<': [(-2.5, -1.0), (-1.0, 3.25), (1.5, 2.0), (0.0, 1e-3)], '>': [(-1.0, -2.5), (3.25, -1.0), (2.0, 1.5), (1e-3, 0.0)], '=': [(1.5, 1.5), (-2.0, -2.0), (0.0, 0.0), (3e5, 3e5)]}[order]
    a, b = names
    out = []
    for p, q in vals:
        for s in (0.1, 2.0):
            d = {a: p, b: q}
            for n in ('sigma_x', 'sigma_y', 'da'): d[sym(n)] = s * (1.5 if n == 'sigma_y' else 1)
            out.append(d)
    return out

def run(tier):
    ck = Check('C08', tier, 'For each ordering of the nominal values (<, =, >), each way the standard deviation of the difference is zero or not, and each operator: the abstract '
               'result of the public operator equals its entry in the truth table.',
               'abstract interpretation of the comparison operators with order facts; comparison with a finite truth table')
    w = ck.world(mods=('uncertainties', 'verif_driver'), overlay={'verif_driver.py': DRIVER})
    e = w.e
    wrap = w.ref('uncertainties.core:wrap')
    X, Y = sym('x'), sym('y')
    e.deciders.append(field_decider)

    def opq(name, d='da'):
        g = Native(lambda *a: w.sym(name), 'g' + name)
        e.regions.setdefault(sym(d), POS())
        return w.call(wrap, g, e.new_list([Native(lambda *a: w.sym(d, POS()), 'd')]))

    # (label, builder -> (a, b, nominal a, nominal b), zero sd of the difference)
    def S(label, build, zero, orders='<=>', plain=None):
        return (label, build, zero, orders)
    def same_diff():
        # two quantities with the same dependence and different nominal values
        v = w.var('v')
        return w.call(opq('x'), v), w.call(opq('y'), v), X, Y
    def same_var():
        v = w.var('x'); return v, v, X, X
    def recomputed():
        v = w.var('x')
        return w.op('-', w.op('*', v, 2.0), v), w.op('+', v, 0.0), None, None
    def ops_recomputed():
        v, u = w.var('x'), w.var('y')
        return w.op('+', v, u), w.op('+', u, v), None, None
    SC = [
        S('two independent variables', lambda: (w.var('x'), w.var('y'), X, Y), False),
        S('independent variables, first one exact', lambda: (w.var('x', sigma=0.0), w.var('y'), X, Y), False),
        S('independent variables, second one exact', lambda: (w.var('x'), w.var('y', sigma=0.0), X, Y), False),
        S('two exact variables', lambda: (w.var('x', sigma=0.0), w.var('y', sigma=0), X, Y), True),
        S('fully correlated quantities', same_diff, True),
        S('a variable and itself', same_var, True, '='),
        S('2*x - x and x + 0', recomputed, True, '='),
        S('x + y and y + x', ops_recomputed, True, '='),
        S('calculated quantity and independent variable', lambda: (w.call(opq('x'), w.var('v')), w.var('y'), X, Y), False),
        S('variable and float', lambda: (w.var('x'), w.sym('y'), X, Y), False),
        S('exact variable and float', lambda: (w.var('x', sigma=0.0), w.sym('y'), X, Y), True),
        S('float and variable', lambda: (w.sym('x'), w.var('y'), X, Y), False),
        S('float and exact variable', lambda: (w.sym('x'), w.var('y', sigma=0.0), X, Y), True),
        S('calculated quantity and float', lambda: (w.call(opq('x'), w.var('v')), w.sym('y'), X, Y), False),
        S('constant quantity (x - x + c) and float', lambda: (w.op('+', w.op('-', *([w.var('v')] * 2)), w.sym('x')), w.sym('y'), X, Y), True),
        S('float and calculated quantity', lambda: (w.sym('x'), w.call(opq('y'), w.var('v')), X, Y), False),
    ]
    for c, lab in ((0, 'the integer 0'), (0.0, '0.0'), (1, 'the integer 1'), (True, 'True')):
        for sg in (None, 0.0):
            SC.append(('%s variable and %s' % ('uncertain' if sg is None else 'exact', lab), (lambda c=c, sg=sg: (w.var('x', sigma=sg), c, X, c)), sg is not None, 'c<=>'))
            SC.append(('%s and %s variable' % (lab, 'uncertain' if sg is None else 'exact'), (lambda c=c, sg=sg: (c, w.var('y', sigma=sg), c, Y)), sg is not None, 'c<=>'))
    for cls in ('Quotient', 'Registered', 'Scalar'):
        k = w.ref('verif_driver:' + cls)
        for sg in (None, 0.0):
            lab = '%s variable' % ('uncertain' if sg is None else 'exact')
            SC.append((lab + ' and number of type %s' % cls, (lambda k=k, sg=sg: (w.var('x', sigma=sg), w.call(k, w.sym('y')), X, Y)), sg is not None, '<=>'))
            SC.append(('number of type %s and ' % cls + lab, (lambda k=k, sg=sg: (w.call(k, w.sym('x')), w.var('y', sigma=sg), X, Y)), sg is not None, '<=>'))
    n = 0
    for label, build, zero, orders in SC:
        const = orders[0] == 'c'
        for o in orders.lstrip('c'):
            for op in OPS:
                tag = '%s, nominal values %s: a %s b' % (label, o, op)
                n += 1
                def go():
                    a, b, na, nb = w.value(build)
                    if const:
                        t, c = (na, nb) if isinstance(na, Term) else (nb, na)
                        oo = o if t is na else {'<': '>', '>': '<', '=': '='}[o]
                        c = float(c)
                        e.regions[t] = {'<': Rng(-math.inf, c, False, False), '>': Rng(c, math.inf, False, False), '=': Rng(c, c)}[oo]
                        pts = [dict(p) for p in points(o, (sym('u1'), sym('u2')))]
                        for i, p in enumerate(pts):
                            p[t] = {'<': c - 0.5 - i, '>': c + 0.5 + i, '=': c}[oo]
                    else:
                        if na is not None and na is not nb: e.order[(key(na), key(nb))] = o
                        pts = points(o, (X, Y))
                    want = expected(o, zero)[op]
                    got = w.value(lambda: e.cmp(op, a, b))
                    v, why = truth_verdict(w, got, want, pts)
                    ck.check(tag, v, 'the result is %s instead of %s%s' % (show(got), want, why), getattr(got, 'site', None))
                    if v is True and isinstance(got, Term) is False and not isinstance(got, (bool,)) and not isinstance(got, (Unknown, Phi)):
                        if got is NotImplemented or isinstance(got, Ref): ck.bad(tag + ' (type)', 'the result is %r' % (got,))
                ck.obligation(w, tag, go)
    # NaN
    for label, build in (('NaN variable and variable', lambda: (w.var('x', math.nan), w.var('y'))), ('NaN variable and itself', lambda: (lambda v: (v, v))(w.var('x', math.nan))),
                         ('NaN variable and float', lambda: (w.var('x', math.nan), w.sym('y')))):
        for op in OPS:
            def go():
                a, b = w.value(build)
                got = w.value(lambda: e.cmp(op, a, b))
                v, why = truth_verdict(w, got, op == '!=', points('<', (X, Y)))
                ck.check('%s: a %s b' % (label, op), v, 'the result is %s instead of %s%s' % (show(got), op == '!=', why))
            ck.obligation(w, '%s: %s' % (label, op), go)
    # infinite nominal values: the difference of equal infinities is NaN, hence not zero
    I = math.inf
    inf_pairs = [('the same infinity', I, I, None), ('the same infinity (negative)', -I, -I, None), ('opposite infinities', I, -I, '>'), ('opposite infinities (negative first)', -I, I, '<'),
                 ('infinity and finite', I, 2.5, '>'), ('finite and infinity', 0.0, I, '<'), ('negative infinity and finite', -I, -1e300, '<'), ('finite and negative infinity', 3.0, -I, '>')]
    for lab, a0, b0, o in inf_pairs:
        for sl, sa, sb in (('uncertain', None, None), ('exact', 0.0, 0.0), ('first exact', 0.0, None), ('float second', None, 'f'), ('exact and float', 0.0, 'f'), ('float first', 'f', None), ('float and exact', 'f', 0.0), ('calculated', 'c', None), ('itself', None, 'i')):
            if sb == 'i' and a0 != b0: continue
            for op in OPS:
                tag = '%s, %s: a %s b' % (lab, sl, op)
                def go():
                    mk = lambda n, v, s: v if s == 'f' else w.value(lambda: w.op('+', w.var(n, v), 0.0)) if s == 'c' else w.var(n, v, sigma=s)
                    a = w.value(lambda: mk('x', a0, sa)); b = a if sb == 'i' else w.value(lambda: mk('y', b0, sb))
                    want = {'==': False, '!=': True, '<': o == '<', '<=': o == '<', '>': o == '>', '>=': o == '>'}[op]
                    got = w.value(lambda: e.cmp(op, a, b))
                    v, why = truth_verdict(w, got, want, [{sym('sigma_x'): s, sym('sigma_y'): 2 * s} for s in (0.1, 2.0)])
                    ck.check(tag, v, 'the result is %s instead of %s for nominal values %s and %s%s' % (show(got), want, a0, b0, why), getattr(got, 'site', None))
                ck.obligation(w, tag, go)
    # very small and very large standard deviations
    for s1 in (1e-200, 5e-324, 1e200, 1e308, 1e-160):
        for s2 in (0.0, s1, 1.0, 1e-300):
            for nl, n1, n2 in (('equal', 1.5, 1.5), ('zero', 0.0, -0.0), ('different', 1.5, 2.5)):
                for kind in ('variable', 'calculated'):
                    def go():
                        tag = 'std devs %r and %r, %s nominal values, %s' % (s1, s2, nl, kind)
                        a, b = w.var('x', n1, sigma=s1), w.var('y', n2, sigma=s2)
                        if kind == 'calculated': a = w.value(lambda: w.op('*', a, 1.0))
                        lt, gt = n1 < n2, False
                        want = {'==': False, '!=': True, '<': lt, '<=': lt, '>': gt, '>=': gt}
                        for op in OPS:
                            got = w.value(lambda: e.cmp(op, a, b))
                            ck.check('%s: a %s b' % (tag, op), None if isinstance(got, (Unknown, Phi)) else got is want[op], 'the result is %s instead of %s' % (show(got), want[op]))
                            got = w.value(lambda: e.cmp(op, a, n2))
                            ck.check('%s: a %s float' % (tag, op), None if isinstance(got, (Unknown, Phi)) else got is want[op], 'the result is %s instead of %s' % (show(got), want[op]))
                            got = w.value(lambda: e.cmp(op, a, a))
                            ck.check('%s: a %s a' % (tag, op), None if isinstance(got, (Unknown, Phi)) else got is (op in ('==', '<=', '>=')), 'the result is %s' % show(got))
                        got = w.value(lambda: w.call(Ext('builtins.bool'), a))
                        ck.check('%s: bool' % tag, None if isinstance(got, (Unknown, Phi)) else got is True, 'is %s' % show(got))
                    ck.obligation(w, 'std devs %r and %r, %s nominal values, %s' % (s1, s2, nl, kind), go)
    # a quantity and its sum with another one, whose contribution is relatively small
    for s1 in (1.0, 1e10, 1e200, 0.0):
        for s2, c in itertools.product((1e-9, 1e-13, 1e-17, 1e-200, 1e5), (1.0, 1e-15, -1.0)):
            def go():
                tag = 'x (std dev %r) and x + %r*y (std dev of y: %r, nominal value 0)' % (s1, c, s2)
                a, b = w.var('x', 1.5, sigma=s1), w.var('y', 0.0, sigma=s2)
                q = w.value(lambda: w.op('+', a, w.op('*', b, c)))
                for l, r, lab in ((a, q, 'x op sum'), (q, a, 'sum op x')):
                    for op in OPS:
                        got = w.value(lambda: e.cmp(op, l, r))
                        ck.check('%s: %s, %s' % (tag, lab, op), None if isinstance(got, (Unknown, Phi)) else got is (op == '!='), 'the result is %s' % show(got))
                d = w.value(lambda: w.op('-', q, a))
                got = w.value(lambda: w.call(Ext('builtins.bool'), d))
                ck.check('%s: bool of the difference' % tag, None if isinstance(got, (Unknown, Phi)) else got is True, 'is %s' % show(got))
            ck.obligation(w, 'x (std dev %r) and x + %r*y (std dev of y: %r)' % (s1, c, s2), go)
    # bool
    for lab, rg, sg, want in (('positive nominal value', POS(), None, True), ('negative nominal value', NEG(), None, True), ('zero nominal value, uncertain', 0.0, None, True),
                              ('zero nominal value, exact', 0.0, 0.0, False), ('non-zero nominal value, exact', POS(), 0.0, True), ('NaN nominal value', math.nan, None, True), ('zero nominal value, NaN uncertainty', 0.0, math.nan, True), ('negative nominal value, NaN uncertainty', NEG(), math.nan, True), ('zero nominal value, infinite uncertainty', 0.0, math.inf, True), ('infinite nominal value', math.inf, None, True), ('infinite nominal value, exact', -math.inf, 0.0, True)):
        for kind in ('variable', 'calculated', ):
            def go():
                v = w.var('x', rg, sigma=sg)
                if kind == 'calculated': v = w.value(lambda: w.op('*', v, 1.0))
                for nm, f in (('bool(x)', lambda: w.call(Ext('builtins.bool'), v)), ('x != 0', lambda: e.cmp('!=', v, 0))):
                    got = w.value(f)
                    pts = [{X: (z if isinstance(rg, Rng) and rg.lo == 0 else -z), sym('sigma_x'): s} for z in (0.5, 3.0) for s in (0.1, 2.0)]
                    r, why = truth_verdict(w, got, want, pts)
                    ck.check('%s, %s, %s' % (nm, kind, lab), r, 'the result is %s instead of %s%s' % (show(got), want, why), getattr(got, 'site', None))
            ck.obligation(w, 'bool of a %s quantity, %s' % (kind, lab), go)
    # a variable whose standard deviation is modified
    def go():
        v = w.var('x'); u = w.var('y', sigma=0.0)
        w.value(lambda: e.cmp('==', v, u))
        w.value(lambda: e.setattr_(v, 'std_dev', 0.0))
        e.order[(key(X), key(Y))] = '='
        got = w.value(lambda: e.cmp('==', v, u))
        r, why = truth_verdict(w, got, True, points('=', (X, Y)))
        ck.check('equality uses the current standard deviations', r, 'the result is %s instead of True%s' % (show(got), why))
    ck.obligation(w, 'equality uses the current standard deviations', go)
    ck.extra['truth_table_entries'] = n
    return ck.finish('All comparison operators and bool() are interpreted abstractly for %d operand scenarios crossed with the orderings of the nominal values.' % len(SC),
                     ['a finite difference of different finite floats is non-zero'])
