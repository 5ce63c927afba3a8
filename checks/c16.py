"""C16: locally constant and multi-valued functions of umath."""
import math
from sa.terms import *
from sa.report import Check
from sa.field import samples
from sa.world import AnchorMissing
from sa.fx import ends

def run(tier):
    ck = Check('C16', tier, 'umath.ceil/floor/isinf/isnan/trunc of a number with uncertainty is the math function of the nominal value, without uncertainty; modf, frexp, ldexp and fsum have the '
               'nominal values of the math function and derivatives 1, 2**-exponent, 2**i and 1.',
               'abstract interpretation with value numbering; equality of terms with the library primitive applied to the nominal value')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    U = lambda f: w.ref('uncertainties.umath:' + f)
    M = lambda f: Ext('math.' + f)
    x = sym('x')
    wrap = w.ref('uncertainties.core:wrap')
    from sa.engine import Native
    def calc(name='x', d='da', sigma=None):
        """A calculated quantity of nominal value `name` with one opaque derivative."""
        w.sym(d); w.sym(name)
        g = w.call(wrap, Native(lambda *a: sym(name), name), e.new_list([Native(lambda *a: sym(d), d)]))
        v = w.var('v', sigma=sigma)
        return w.value(lambda: w.call(g, v)), v
    def cst(c): return w.var('c', c)

    def is_plain(name, v):
        def leafs():
            for g, l in leaves(v): yield l
        for l in leafs():
            if isinstance(l, Unknown) or isinstance(l, Term) and has_unknown(l): ck.und(name + ': type of the result'); return
            if isinstance(l, Ref):
                r = w.is_uncert(l)
                if r is True: ck.bad(name + ': type of the result', 'the result carries an uncertainty'); return
        ck.ok(name + ': type of the result')

    ranges = [('finite', FIN()), ('positive', POS()), ('negative', NEG()), ('0', 0.0), ('2.5', 2.5), ('-2.5', -2.5), ('3.0', 3.0), ('-3.0', -3.0)]
    for f in ('ceil', 'floor', 'trunc', 'isinf', 'isnan'):
        rs = ranges + ([('inf', math.inf), ('-inf', -math.inf), ('NaN', math.nan)] if f.startswith('is') else [])
        for lab, r in rs:
            for kind in ('variable', 'calculated', 'plain'):
                name = 'umath.%s of a %s number, %s' % (f, kind, lab)
                if kind == 'calculated' and not isinstance(r, Rng): continue
                def go():
                    t = x if isinstance(r, Rng) else r
                    if isinstance(r, Rng): e.regions[x] = r
                    arg = (w.var('x', r) if kind == 'variable' else calc()[0] if kind == 'calculated' else t)
                    if isinstance(r, Rng): e.regions[x] = r
                    pts = samples({x: r}) if isinstance(r, Rng) else [{}]
                    want = w.value(lambda: w.call(M(f), t))
                    got = w.value(lambda: w.call(U(f), arg))
                    is_plain(name, got)
                    ck.eq(w, name, got, want, pts=pts)
                ck.obligation(w, name, go)
    for f in ('ceil', 'floor', 'trunc'):
        for lab, c, exc in (('inf', math.inf, 'OverflowError'), ('NaN', math.nan, 'ValueError')):
            name = 'umath.%s of %s' % (f, lab)
            ck.obligation(w, name, lambda: ends(ck, w, name, lambda: w.call(U(f), cst(c)), exc))

    pts = samples({x: FIN(), sym('da'): FIN(), sym('sigma_x'): POS(), sym('sigma_v'): POS()}, 30)
    ptsp = [dict(p) for p in pts]
    for p in pts: p[sym('sigma_later')] = 0.75
    def check_dep(name, got, want_nom, want_d, v, chain, pts=pts, sg=None):
        """got is an uncertain number with the nominal value want_nom and the
        derivative want_d (times the derivative of the argument)."""
        iu = w.is_uncert(got)
        if iu is not True:
            if iu is False: ck.bad(name, 'the result does not carry the dependence of its argument: %r' % (got,))
            else: ck.und(name, 'type of %r' % (got,))
            return
        ck.eq(w, name + ': nominal value', w.value(lambda: w.get(got, 'nominal_value')), want_nom, pts=pts)
        d = w.value(lambda: w.deriv(got, v))
        ck.eq(w, name + ': derivative', d, T('mul', want_d, sym('da')) if chain else want_d, pts=pts)
        ks = w.value(lambda: tuple(e.iterate(w.get(got, 'derivatives'))))
        extra = [z for z in ks if isinstance(z, Ref) and not same(z, v)]
        if extra: ck.bad(name + ': variables', 'the result depends on %d other variables' % len(extra))
        # usable: the standard deviation can be read
        sv = w.value(lambda: w.get(got, 'std_dev'))
        if sg is None: sg = sym('sigma_v') if chain else sym('sigma_x')
        dd = T('mul', want_d, sym('da')) if chain else want_d
        if sg != 0: ck.eq(w, name + ': standard deviation', sv, sg if isinstance(sg, float) else T('abs', T('mul', dd, sg)), pts=pts)
        else: ck.eq(w, name + ': standard deviation', sv, 0.0, pts=pts)
        # the dependence is kept when the uncertainty is given later
        w.value(lambda: e.setattr_(v, 'std_dev', w.sym('sigma_later', POS())))
        ck.eq(w, name + ': standard deviation after that of the variable was changed', w.value(lambda: w.get(got, 'std_dev')), T('abs', T('mul', dd, sym('sigma_later'))), pts=pts)

    def args():
        yield 'variable', False, (lambda: (lambda v: (v, v))(w.var('x'))), None
        yield 'calculated quantity', True, calc, None
        for sl, sg in (('exact', 0.0), ('undetermined', math.inf)):
            yield sl + ' variable', False, (lambda: (lambda v: (v, v))(w.var('x', sigma=sg))), sg
        yield 'exact calculated quantity', True, (lambda: calc(sigma=0.0)), 0.0
    for lab, chain, mk, sg0 in args():
        name = 'umath.modf(%s)' % lab
        def go():
            a, v = mk()
            want = w.value(lambda: w.call(M('modf'), x))
            got = w.value(lambda: w.call(U('modf'), a))
            got = pair(e, got)
            if got is None: ck.und(name, 'result shape'); return
            check_dep(name + '[0]', got[0], want[0], 1.0, v, chain, sg=sg0)
            ck.eq(w, name + '[1]', got[1], want[1], pts=pts)
            is_plain(name + '[1]', got[1])
        ck.obligation(w, name, go)
        name = 'umath.frexp(%s)' % lab
        def go():
            a, v = mk()
            want = w.value(lambda: w.call(M('frexp'), x))
            got = w.value(lambda: w.call(U('frexp'), a))
            got = pair(e, got)
            if got is None: ck.und(name, 'result shape'); return
            check_dep(name + '[0]', got[0], want[0], T('pow', 2.0, T('neg', want[1])), v, chain, sg=sg0)
            ck.eq(w, name + '[1]', got[1], want[1], pts=pts)
            is_plain(name + '[1]', got[1])
        ck.obligation(w, name, go)
        k = sym('i', 'int')
        for il, iv in (('i', k), ('0', 0), ('3', 3), ('-3', -3)):
            name = 'umath.ldexp(%s, %s)' % (lab, il)
            def go():
                a, v = mk()
                if iv is k: e.regions[k] = Rng(-500, 500, int=True)
                p2 = [dict(p) | {k: (i * 7) % 41 - 20} for i, p in enumerate(pts)]
                want = w.value(lambda: w.call(M('ldexp'), x, iv))
                got = w.value(lambda: w.call(U('ldexp'), a, iv))
                wd = T('pow', 2.0, k) if iv is k else 2.0 ** iv
                check_dep(name, got, want, wd, v, chain, p2, sg0)
            ck.obligation(w, name, go)
    def zero(name, got, want):
        """The sign of a zero (which atan2() and copysign() see)."""
        if not isinstance(want, float) or want != 0: return
        g = e.numify(e.resolve(got)) if isinstance(e.resolve(got), Ref) else e.resolve(got)
        if isinstance(g, float) and g == 0: ck.check(name + ': sign of zero', math.copysign(1, g) == math.copysign(1, want), '%r instead of %r' % (g, want))
        elif isinstance(g, (Unknown, Phi, Term)): ck.und(name + ': sign of zero', show(g))
    # special values
    cst = lambda c, sg=None: w.var('c', c, sigma=sg)
    def power(n):
        try: return math.ldexp(1.0, n)
        except OverflowError: return math.nan          # cannot be represented: undefined
    for c in (1e-310, -2.0 ** -1030, 0.0, -0.0, 1.0, -1.0, 0.75, -3.25, 1024.0, 1e-5, 2.0 ** -30, 5e300, -5e-300, 5e-324, 2.0 ** 53 + 2, math.inf, -math.inf, math.nan):
        for f, extra in (('modf', ()), ('frexp', ()), ('ldexp', (4,)), ('ldexp', (-5,)), ('ldexp', (1023,)), ('ldexp', (1025,)), ('ldexp', (-1023,)), ('ldexp', (-1100,)), ('ldexp', (2000,)), ('ldexp', (-5000,))):
            if f == 'ldexp':
                try: math.ldexp(c, *extra)
                except OverflowError: continue
            name = 'umath.%s(%s)' % (f, ', '.join([repr(c)] + [str(z) for z in extra]))
            def go(sg=None, name=name):
                v = cst(c, sg)
                want = getattr(math, f)(c, *extra)
                got = w.value(lambda: w.call(U(f), v, *extra))
                p = [{sym('sigma_c'): 0.5, sym('sigma_x'): 0.5}]
                if f == 'ldexp': got, want = (got,), (want,)
                else: got = pair(e, got)
                if got is None: ck.und(name, 'result shape'); return
                d = {'modf': 1.0, 'frexp': power(-want[-1]) if f == 'frexp' else 1, 'ldexp': power(extra[0] if extra else 0)}[f]
                if w.is_uncert(got[0]) is not True: ck.bad(name, 'the result does not carry the dependence of its argument: %r' % (got[0],)); return
                ck.eq(w, name + ' value', w.value(lambda: w.get(got[0], 'nominal_value')), want[0], pts=p)
                zero(name + ' value', w.value(lambda: w.get(got[0], 'nominal_value')), want[0])
                if len(want) > 1: zero(name + ' second part', got[1], want[1])
                ck.eq(w, name + ' derivative', w.value(lambda: w.deriv(got[0], v)), d, pts=p)
                w.value(lambda: w.get(got[0], 'std_dev'))
                if len(want) > 1: ck.eq(w, name + ' second part', got[1], want[1], pts=p)
            ck.obligation(w, name, go)
            ck.obligation(w, name + ' without uncertainty', lambda: go(0.0, name + ' without uncertainty'))
    # fsum
    S = lambda n: sym(n)
    lists = {
        '[x, y]': ('xy',), '[x, c, y]': ('xcy',), '[x, x]': ('xx',), '[c, x]': ('cx',), '[x]': ('x',), '[x, y, x, c]': ('xyxc',),
    }
    for lab, (elts,) in lists.items():
        for form in ('list', 'tuple', 'iterator'):
            name = 'umath.fsum(%s) given as a %s' % (lab, form)
            def go():
                q = {'x': w.var('x'), 'y': w.var('y'), 'c': w.sym('c')}
                it = [q[z] for z in elts]
                arg = e.new_list(it) if form == 'list' else tuple(it) if form == 'tuple' else w.call(Ext('builtins.iter'), e.new_list(it))
                got = w.value(lambda: w.call(U('fsum'), arg))
                if w.is_uncert(got) is not True: ck.bad(name, 'the result does not carry an uncertainty: %r' % (got,)); return
                p = samples({S('x'): FIN(), S('y'): FIN(), S('c'): FIN(), S('sigma_x'): POS(), S('sigma_y'): POS()}, 20)
                want = w.value(lambda: w.call(M('fsum'), e.new_list([sym(z) for z in elts])))
                ck.eq(w, name + ': nominal value', w.value(lambda: w.get(got, 'nominal_value')), want, pts=p)
                for z in 'xy':
                    if z in elts: ck.eq(w, name + ': derivative with respect to ' + z, w.value(lambda: w.deriv(got, q[z])), float(elts.count(z)), pts=p)
            ck.obligation(w, name, go)
    name = 'umath.fsum of exact numbers'
    def go():
        a, b = w.var('x', sigma=0.0), w.var('y')
        got = w.value(lambda: w.call(U('fsum'), e.new_list([a, 1.0, b, a])))
        w.value(lambda: e.setattr_(a, 'std_dev', w.sym('sigma_later', POS())))
        w.value(lambda: e.setattr_(b, 'std_dev', 0.0))
        ck.eq(w, name, w.value(lambda: w.get(got, 'std_dev')), T('mul', 2.0, sym('sigma_later')), pts=[{sym('sigma_later'): 0.75}, {sym('sigma_later'): 3.0}])
    ck.obligation(w, name, go)
    name = 'umath.fsum of calculated quantities'
    def go():
        a, v = calc()
        got = w.value(lambda: w.call(U('fsum'), e.new_list([a, v, 2.0])))
        ck.eq(w, name, w.value(lambda: w.deriv(got, v)), T('add', sym('da'), 1.0), pts=pts)
    ck.obligation(w, name, go)
    # two calls do not influence each other
    name = 'successive calls of umath.fsum with different lengths'
    def go():
        X, Y, Z = w.var('x'), w.var('y'), w.var('z')
        for l in ([X], [X, Y, Z], [X, Y], [Z, Z, Z, X]):
            got = w.value(lambda: w.call(U('fsum'), e.new_list(l)))
            for q in (X, Y, Z): ck.eq(w, name, w.value(lambda: w.deriv(got, q)), float(sum(q is z for z in l)), pts=[{}])
    ck.obligation(w, name, go)
    return ck.finish('The nine functions are interpreted abstractly on variables, calculated quantities and plain numbers, on symbolic arguments and on special values.', [])

def pair(e, v):
    v = e.resolve(v)
    if isinstance(v, tuple) and len(v) == 2: return v
    if isinstance(v, Phi): return None
    try:
        v = tuple(e.iterate(v))
        return v if len(v) == 2 else None
    except Exception: return None
