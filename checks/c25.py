"""C25: laziness and depth."""
from sa.terms import *
from sa.report import Check
from sa.fx import ends

HEAD = '''
import copy
import uncertainties
from uncertainties import (ufloat, nominal_value, std_dev, wrap, covariance_matrix, UFloat)
from uncertainties import umath
from uncertainties.core import Variable
def f1(x): return 2 * x
def f2(x, y): return x * x + y
def fk(x, y=2.0): return x
def fv(*args, **kwargs): return 1.5
def one(*args, **kwargs): return 1.0
g1, g2, g2d, gk, gkd, gv, gvd = wrap(f1), wrap(f2), wrap(f2, [one, None]), wrap(fk), wrap(fk, [], {"y": one}), wrap(fv), wrap(fv, [one], {"k": one})
def chain(n):
    """1.5, by alternate additions and subtractions of n variables."""
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = q + ufloat(0.5, 0.25) - ufloat(0.5, 0.5)
    return q
def right(n):
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = ufloat(0.5, 0.25) - (ufloat(0.5, 0.5) - q)
    return q
def product(n):
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = q * ufloat(1.0, 0.25) / ufloat(1.0, 0.5)
    return q
def tree(n):
    l = [ufloat(0.5, 0.25) - ufloat(0.5, 0.5) for i in range(n // 2)] + [ufloat(1.5, 0.25) * 1.0]
    while len(l) > 1: l = [l[i] + l[i + 1] if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
    return l[0]
def unary(n):
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = -(-q)
    return q
def functions(n):
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = umath.fabs(g1(q / 2))
    return q
def same(n):
    x = ufloat(0.5, 0.25)
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = q + x - x
    return q
def wide(n):
    return gvd(*[ufloat(1.5, 0.25) for i in range(n)])
def wide_args(n):
    return gvd(1.0, **dict([('a%d' % i, ufloat(1.5, 0.25)) for i in range(n)]))
def total(n):
    return sum([ufloat(0.5, 0.25) if i & 1 else ufloat(-0.5, 0.25) for i in range(n)], ufloat(1.5, 0.25))
def fsum(n):
    return umath.fsum([ufloat(0.5, 0.25) if i & 1 else ufloat(-0.5, 0.25) for i in range(n)] + [ufloat(1.5, 0.25)])
def products(n):
    x = ufloat(0.0, 0.25)
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = q * 1 + x * 1
    return q
def products_right(n):
    x = ufloat(0.0, 0.25)
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = g1(x) + q * 1
    return q
def results(n):
    """Both arguments of each function are calculated quantities."""
    x = ufloat(1.0, 0.25)
    q = ufloat(1.5, 0.25) * 1.0
    for i in range(n // 2): q = gvd(q, -x, k=x / 2)
    return q
def evaluated(n):
    q = chain(n)
    q.derivatives
    return q
def evaluated_product(n):
    q = product(n)
    q.std_dev
    return q
def over_evaluated(n):
    return evaluated(n) * 1.0
'''
MAKERS = ['chain', 'right', 'product', 'tree', 'unary', 'functions', 'same', 'wide', 'wide_args', 'total', 'fsum', 'products', 'products_right', 'results', 'evaluated', 'evaluated_product', 'over_evaluated']
OPS = [s % o for o in ('+', '-', '*', '/', '//', '%', '**') for s in ('q %s v', 'v %s q', 'q %s 2.0', '2.0 %s q', 'q %s 2', '2 %s q', 'q %s r', 'q %s q')] + \
      ['-q', '+q', 'abs(q)', 'g1(q)', 'g2(q, v)', 'g2(v, q)', 'g2d(q, r)', 'gk(q)', 'gk(v, y=q)', 'gk(y=q, x=2.0)', 'gkd(q, y=r)', 'gv(q, r, v, k=q)', 'gvd(q, r, l=q, k=r)', 'gvd(1.0, q)', 'umath.fsum([q, r, q])', 'sum([q, r, v])', 'nominal_value(q)', 'q.n', 'q.nominal_value', 'q.__trunc__()',
       'q.__truediv__(v)', 'q.__rsub__(v)'] + \
      ['umath.%s(q)' % f for f in ('acosh', 'asinh', 'atan', 'ceil', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'floor', 'gamma', 'isinf', 'isnan', 'lgamma', 'log', 'log10', 'log1p', 'modf', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc')] + \
      ['umath.acos(q / 2)', 'umath.asin(q / 2)', 'umath.atanh(q / 2)', 'umath.ldexp(q, 3)', 'umath.frexp(q)'] + \
      [s % f for f in ('atan2', 'copysign', 'fmod', 'hypot', 'pow', 'log') for s in ('umath.%s(q, v)', 'umath.%s(v, q)', 'umath.%s(q, 2.0)', 'umath.%s(2.0, q)', 'umath.%s(q, r)')]
READS = ['q.derivatives', 'q.std_dev', 'q.s', 'std_dev(q)', 'q.error_components()', 'str(q)', 'repr(q)', 'q.__format__(".2uS")', 'covariance_matrix([q, r])', 'q == r', 'q != v', 'bool(q)', 'copy.copy(q)', 'copy.deepcopy(q)', 'copy.deepcopy([q, r])', 'PICKLE(q)', 'PICKLE([q, r])']
SIZES = [4, 8, 16]
DEEP = [8, 16, 32]
WIDE = [48, 96, 192]       # expressions that are not nested

def run(tier):
    ck = Check('C25', tier, 'The number of steps of each operation, and the number of elements that it handles, are the same for operands that depend on 4, 8 and 16 variables through as many operations; reading the derivatives and the standard deviation nests the same number of calls for expressions '
               'of 8, 16 and 32 operations (48, 96 and 192 for the arguments of a function), and takes a number of steps that is proportional to it.',
               'cost and call-depth analysis by abstract interpretation: the steps, the elements handled and the nested calls of each operation are counted for families of expressions of growing size')
    src = HEAD
    for i, o in enumerate(OPS): src += 'def op_%d(q, r, v):\n    return %s\n' % (i, o)
    for i, o in enumerate(READS):
        if 'PICKLE' not in o: src += 'def read_%d(q, r, v):\n    return %s\n' % (i, o)
    w = ck.world(mods=('uncertainties', 'uncertainties.umath', 'verif_driver'), overlay={'verif_driver.py': src})
    e = w.e
    e.MAXSTEPS = max(e.MAXSTEPS, 10 ** 7)
    D = lambda n: w.ref('verif_driver:' + n)
    def cost(fn):
        s, k, d, n = e.steps, e.work, e.deepest, len(e.stack)
        e.deepest = n
        w.value(fn)
        r = e.steps - s + e.work - k, e.deepest - n
        e.deepest = max(d, e.deepest)
        return r
    built = {}
    def deep(maker): return WIDE if maker == 'wide' else DEEP
    def build(maker):
        for n in sorted(set(SIZES + deep(maker))):
            st = e.snapshot()
            try: built[maker, n] = w.value(lambda: w.call(D(maker), n)), w.value(lambda: w.call(D(maker), n)), w.var('v', 1.5, 0.25), w.var('u', 1.5, 0.25), w.var('t', 1.5, 0.25), e.st
            finally: e.restore(st)
    def measure(maker, n, f):
        q, r, v, u, t, st = built[maker, n]
        e.st = st.child()
        # functions wrapped for the first time may prepare themselves
        if 'PICKLE' not in f: w.call(D(f), u, t, v)
        if 'PICKLE' in f: return cost(lambda: e.lib.pickle_copy(e.new_list([q, r]) if '[' in f else q))
        return cost(lambda: w.call(D(f), q, r, v))
    for maker in MAKERS:
        ck.obligation(w, 'expressions: ' + maker, lambda: build(maker))
        for i, o in enumerate(OPS):
            nm = '%s, q and r: %s' % (o, maker)
            def go():
                c = [measure(maker, n, 'op_%d' % i) for n in SIZES]
                grow = [c[k + 1][0] - c[k][0] for k in range(2)]
                if grow == [0, 0]: ck.ok(nm)
                elif grow[0] >= 4 and grow[1] >= 8: ck.bad(nm, 'the operation takes %s steps for operands of %s variables or operations' % ([x[0] for x in c], SIZES))
                else: ck.und(nm, 'steps: %s' % [x[0] for x in c])
                d = [x[1] for x in c]
                ck.check('nested calls of ' + nm, True if d[0] == d[1] == d[2] else False if d[1] - d[0] >= 2 and d[2] - d[1] >= 2 * (d[1] - d[0]) else None, 'nested calls: %s, for operands of %s operations' % (d, SIZES))
            ck.obligation(w, nm, go)
        for i, o in enumerate(READS):
            nm = '%s, q: %s' % (o, maker)
            def go():
                c = [measure(maker, n, o if 'PICKLE' in o else 'read_%d' % i) for n in deep(maker)]
                d = [x[1] for x in c]
                ck.check('nested calls of ' + nm, True if d[0] == d[1] == d[2] else False if d[1] - d[0] >= 3 and d[2] - d[1] >= 1.8 * (d[1] - d[0]) else None, 'nested calls: %s, for expressions of %s operations: the evaluation is recursive, and fails for long expressions' % (d, deep(maker)))
                s = [x[0] for x in c]
                a, b = s[1] - s[0], s[2] - s[1]
                ck.check('steps of ' + nm, True if b <= 2.4 * max(a, 1) + 20 else False if b > 2.8 * a else None, '%s steps for %s operations: more than proportional' % (s, deep(maker)))
            ck.obligation(w, nm, go)
    return ck.finish('%d families of expressions, %d operations, %d ways of evaluating.' % (len(MAKERS), len(OPS), len(READS)), ['the number of steps follows a regular law beyond the analysed sizes', 'operations of the standard library on containers take a time proportional to their length'])
