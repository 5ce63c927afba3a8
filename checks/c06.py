"""C06: standard deviation = current quadrature sum."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.engine import Native
from sa.field import samples
from sa.world import Raised
from sa import field

m = lambda f, *a: T('math.' + f, *a)
NAN = math.nan

def rss(parts):
    acc = None
    for p in parts:
        q = T('pow', p, 2) if isinstance(p, Term) else p * p
        acc = q if acc is None else T('add', acc, q) if isinstance(acc, Term) or isinstance(q, Term) else acc + q
    if not isinstance(acc, Term):   # numbers: neither overflow nor underflow
        return NAN if any(p != p for p in parts) else math.hypot(*parts)
    return m('sqrt', acc)

QUIET = """
class Quiet(float):
    'A number that can be divided by zero, like those of NumPy.'
    def __sub__(self, other): return Quiet(float(self) - float(other))
    def __rsub__(self, other): return Quiet(float(other) - float(self))
    def __truediv__(self, other):
        if float(other) == 0: return Quiet(float('inf') if float(self) > 0 else float('-inf') if float(self) < 0 else float('nan'))
        return Quiet(float(self) / float(other))
"""

def run(tier):
    ck = Check('C06', tier, 'After every enumerated history of reads and standard-deviation updates, std_dev / s / error_components() of every quantity equal the quadrature '
               'formula in the current standard deviations (opaque derivatives).',
               'abstract interpretation of the readers over enumerated histories of reads and updates; term equality')
    w = ck.world(overlay={'verif_quiet.py': QUIET}, mods=('uncertainties', 'verif_quiet'))
    e = w.e
    wrap = w.ref('uncertainties.core:wrap')

    def opaque(k, ds):
        g = Native(lambda *a, k=k: w.sym('g%s' % k), 'g%s' % k)
        nd = [Native(lambda *a, d=d: d if not isinstance(d, str) else w.sym(d), 'd') for d in ds]
        return w.call(wrap, g, e.new_list(nd))

    def truth(der, sig):
        parts = []
        for v in der:
            s = sig[v]
            if not isinstance(s, Term) and s == 0: continue
            d = der[v]
            parts.append(T('mul', d, s) if isinstance(d, Term) or isinstance(s, Term) else d * s)
        return rss(parts)

    def rngs_of(*names):
        return {sym(n): (POS() if n.startswith('s') else FIN()) for n in names}
    RN = rngs_of('da', 'db', 'dc', 'dd', 'sigma_x', 'sigma_y', 'sx2', 'sy2', 'sx3')
    PTS = samples(RN, 25)

    def comps(tag, q, vs, der, sig):
        ec = w.value(lambda: w.meth(q, 'error_components'))
        for v in vs:
            got = w.value(lambda: e.lift(lambda d: e.branch(e.contains(d, vs[v]), lambda: e.getitem(d, vs[v]), lambda: 0.0) if not isinstance(d, Unknown) else d, ec))
            s = sig[v]
            d = der.get(v, 0.0)
            if not isinstance(s, Term) and s == 0: want = 0.0
            elif not isinstance(d, Term) and d == 0.0 : want = 0.0
            else:
                z = T('mul', d, s) if isinstance(d, Term) or isinstance(s, Term) else d * s
                want = (T('mul', abs(d), s) if not isinstance(d, Term) else T('abs', z)) if isinstance(z, Term) else abs(z)
            ck.eq(w, '%s: error component of %s' % (tag, v), got, want, pts=PTS)
        ks = w.value(lambda: tuple(e.iterate(ec)))
        extra = [z for z in ks if z is not ABSENT and not any(same(z, u) for u in vs.values())]
        if extra and all(isinstance(z, Ref) for z in extra): ck.bad('%s: keys of error_components()' % tag, 'a key is not one of the variables')

    # 1. histories
    OPS = ['read sd(q)', 'read derivs(q)', 'read components(q)', 'set x', 'set y', 'read sd(p)', 'read s(r)', 'set x to 0', 'build r']
    L = 4 if tier == 'thorough' else 3
    nh = 0
    for hist in itertools.product(OPS, repeat=L):
        if hist.count('build r') > 1: continue
        if not any(h.startswith('set') for h in hist): continue
        nh += 1
        tag = 'history: ' + ', '.join(hist)
        def go():
            vs = {'x': w.var('x'), 'y': w.var('y')}
            sig = {'x': sym('sigma_x'), 'y': sym('sigma_y')}
            f, g, h = opaque('f', ['da', 'db']), opaque('g', ['dc', 'dd']), opaque('h', [2.0, -1.0])
            p = w.value(lambda: w.call(f, vs['x'], vs['y']))
            q = w.value(lambda: w.call(g, p, vs['x']))
            dp = {'x': sym('da'), 'y': sym('db')}
            dq = {'x': T('add', T('mul', sym('dc'), sym('da')), sym('dd')), 'y': T('mul', sym('dc'), sym('db'))}
            dr = {v: T('sub', T('mul', 2.0, dq[v]), dp[v]) for v in dp}
            r = None
            n = 0
            for op in hist:
                if op == 'read sd(q)': w.value(lambda: w.get(q, 'std_dev'))
                elif op == 'read derivs(q)': w.value(lambda: w.get(q, 'derivatives'))
                elif op == 'read components(q)': w.value(lambda: w.meth(q, 'error_components'))
                elif op == 'read sd(p)': w.value(lambda: w.get(p, 'std_dev'))
                elif op == 'read s(r)':
                    if r is not None: w.value(lambda: w.get(r, 's'))
                elif op == 'build r': r = w.value(lambda: w.call(h, q, p))
                elif op == 'set x to 0':
                    w.value(lambda: e.setattr_(vs['x'], 'std_dev', 0.0)); sig['x'] = 0.0
                else:
                    v = op[-1]; n += 1
                    s = w.sym('s%s%d' % (v, n + 1), POS())
                    w.value(lambda: e.setattr_(vs[v], 'std_dev', s)); sig[v] = s
            if r is None: r = w.value(lambda: w.call(h, q, p))
            pts = samples({**RN, **{sig[v]: POS() for v in sig if isinstance(sig[v], Term)}}, 25)
            for nm, z, d in (('p', p, dp), ('q', q, dq), ('r', r, dr), ('x', vs['x'], {'x': 1.0})):
                for attr in ('std_dev', 's'):
                    ck.eq(w, '%s: %s.%s' % (tag, nm, attr), w.value(lambda: w.get(z, attr)), truth(d, sig) if nm != 'x' else sig['x'], pts=pts)
        ck.obligation(w, tag, go)

    # 2. components, zero standard deviations, NaN derivatives
    for sx, sy in itertools.product(('pos', 0.0, 0), repeat=2):
        for dx, dy in (('da', 'db'), (NAN, 'db'), ('da', NAN), (NAN, NAN), (0.0, 'db')):
            if (isinstance(dx, float) and dx != dx and sx == 'pos') or (isinstance(dy, float) and dy != dy and sy == 'pos'): continue
            tag = 'std devs (%s, %s), derivatives (%s, %s)' % (sx, sy, dx, dy)
            def go():
                vs = {'x': w.var('x', sigma=None if sx == 'pos' else sx), 'y': w.var('y', sigma=None if sy == 'pos' else sy)}
                sig = {'x': sym('sigma_x') if sx == 'pos' else 0.0, 'y': sym('sigma_y') if sy == 'pos' else 0.0}
                q = w.value(lambda: w.call(opaque('f', [dx, dy]), vs['x'], vs['y']))
                S = lambda d: sym(d) if isinstance(d, str) else d
                der = {'x': S(dx), 'y': S(dy)}
                for attr in ('std_dev', 's'): ck.eq(w, (tag + ': std_dev') + ('' if attr == 'std_dev' else ', .s'), w.value(lambda: w.get(q, attr)), truth(der, sig), pts=PTS)
                comps(tag, q, vs, der, sig)
            ck.obligation(w, tag, go)
    # NaN derivative with a non-zero standard deviation gives NaN
    def go():
        x = w.var('x')
        q = w.value(lambda: w.call(opaque('f', [NAN]), x))
        for attr in ('std_dev', 's'): ck.eq(w, ('NaN derivative, non-zero std dev') + ('' if attr == 'std_dev' else ', .s'), w.value(lambda: w.get(q, attr)), NAN, pts=PTS)
    ck.obligation(w, 'NaN derivative, non-zero std dev', go)
    # NaN standard deviation
    def go():
        x = w.var('x', sigma=NAN); y = w.var('y')
        q = w.value(lambda: w.call(opaque('f', ['da', 'db']), x, y))
        got = w.value(lambda: w.get(q, 'std_dev'))
        ck.eq(w, 'NaN standard deviation', got, NAN, pts=PTS)
    ck.obligation(w, 'NaN standard deviation', go)
    # a quantity that depends on nothing
    def go():
        x = w.var('x')
        z = w.value(lambda: w.op('*', w.op('-', x, x), 3.0))
        for attr in ('std_dev', 's'): ck.eq(w, ('constant quantity: std_dev') + ('' if attr == 'std_dev' else ', .s'), w.value(lambda: w.get(z, attr)), 0.0, pts=samples({sym('x'): FIN(), sym('sigma_x'): POS()}, 10))
    ck.obligation(w, 'constant quantity', go)
    # many variables
    def go():
        xs = [w.var('x%d' % i) for i in range(6)]
        s = xs[0]
        for v in xs[1:]: s = w.op('+', s, v)
        want = rss([sym('sigma_x%d' % i) for i in range(6)])
        for attr in ('std_dev', 's'): ck.eq(w, ('sum of six variables: std_dev') + ('' if attr == 'std_dev' else ', .s'), w.value(lambda: w.get(s, attr)), want, pts=samples({sym('sigma_x%d' % i): POS() for i in range(6)}, 10))
    ck.obligation(w, 'sum of six variables', go)

    # extreme orders of magnitude: the result exists as soon as it is a floating-point number
    from sa.fx import ends
    EXT = [1e200, 1e-200, 1e308, 5e-324, 1e-160, 1.5e154, 1.0, math.inf, NAN, 0.0]
    for sds in [(z,) for z in EXT] + list(itertools.product(EXT, repeat=2)) + [(1e200, 1.0, 1e200), (1e-200, 1e-200, 1e-200), (3e-170, 4e-170, 0.0), (NAN, 1e200, 1e-200)]:
        for ds in ((1.0, 1.0, 1.0), (2.0, -1.0, 0.5), (1e-100, 1e100, 1.0)):
            name = 'standard deviations (%s), derivatives (%s)' % (', '.join(map(repr, sds)), ', '.join(map(repr, ds[:len(sds)])))
            def go():
                vs = {'xyz'[i]: w.var('xyz'[i], 1.0, sigma=z) for i, z in enumerate(sds)}
                q = w.value(lambda: w.call(opaque('f', ds[:len(sds)]), *vs.values()))
                want = rss([abs(d) * s for d, s in zip(ds, sds) if s != 0])
                for attr in ('std_dev', 's'):
                    o = ends(ck, w, name, lambda: w.get(q, attr), None)
                    if o is None: return
                    o.enter()
                    got = o.value
                    if isinstance(got, Ref): got = e.numify(got)
                    if not isinstance(got, (int, float)): ck.und(name, show(got)); return
                    ck.check(name + ': ' + attr, got == want or got != got and want != want or abs(got - want) <= 1e-9 * want, 'is %r instead of %r' % (got, want))
            ck.obligation(w, name, go)
    # coincidences: variables that have the same nominal value, standard deviation, tag, or the same contribution
    sg = sym('sigma_x')
    for sl, sds in {'the same symbol': (None, None, None), 'the same number': (0.5, 0.5, 0.5), 'numbers': (0.5, 0.25, 0.5), 'with zero': (0.0, 0.5, 0.5), 'infinite': (math.inf, 0.5, 0.5), 'very small': (1e-12, 0.5, 1e-12), 'very different': (1e-3, 1e3, 1.0)}.items():
        for dl, ds in {'equal': (1.0, 1.0, 1.0), 'opposite': (1.0, -1.0, 1.0), 'equal symbols': ('da', 'da', 'da'), 'opposite symbols': ('da', '-da', 'da'), 'compensating': (1.0, 2.0, -1.0), 'very small': (1e-9, 1.0, -1e-9)}.items():
            for nv in ('same', 'different'):
                for tagged in (False, True):
                    name = 'coincidence: std devs %s, derivatives %s, nominal values %s%s' % (sl, dl, nv, ', same tag' if tagged else '')
                    def go():
                        S = [sg if z is None else z for z in sds]
                        vs = {}
                        w.sym('sigma_x', POS())
                        for i, z in enumerate(S): vs['xyz'[i]] = w.var('x' if nv == 'same' else 'xyz'[i], sigma=z, tag='t' if tagged else None)
                        D = [(lambda d: sym(d) if d == 'da' else T('neg', sym('da')))(d) if isinstance(d, str) else d for d in ds]
                        w.sym('da')
                        g = Native(lambda *a: w.sym('gz'), 'g')
                        q = w.value(lambda: w.call(w.call(wrap, g, e.new_list([Native(lambda *a, d=d: d, 'd') for d in D])), *vs.values()))
                        der = dict(zip('xyz', D)); sig = dict(zip('xyz', S))
                        pts = samples({sym('da'): FIN(), sg: POS()}, 15)
                        for attr in ('std_dev', 's'): ck.eq(w, (name + ': std_dev') + ('' if attr == 'std_dev' else ', .s'), w.value(lambda: w.get(q, attr)), truth(der, sig), pts=pts, tol=1e-12)
                        comps(name, q, vs, der, sig)
                        n = w.value(lambda: w.call(Ext('builtins.len'), w.meth(q, 'error_components')))
                        ck.check(name + ': number of components', n == 3 if isinstance(n, int) else None, '%s components instead of 3' % show(n))
                    ck.obligation(w, name, go)

    # 3. std_score
    for kind in ('variable', 'calculated'):
        def go():
            x = w.var('x'); v = w.sym('v')
            q = x if kind == 'variable' else w.value(lambda: w.op('+', w.op('*', x, 2.0), w.var('y')))
            qn = sym('x') if kind == 'variable' else T('add', T('mul', sym('x'), 2.0), sym('y'))
            sd = sym('sigma_x') if kind == 'variable' else rss([T('mul', 2.0, sym('sigma_x')), sym('sigma_y')])
            pts = samples({sym('x'): FIN(), sym('y'): FIN(), sym('v'): FIN(), sym('sigma_x'): POS(), sym('sigma_y'): POS()}, 20)
            outs = w.attempt(lambda: w.meth(q, 'std_score', v))
            for o in outs:
                o.enter()
                if o.kind == 'value': ck.eq(w, 'std_score() of a %s quantity' % kind, o.value, T('div', T('sub', v, qn), sd), pts=pts, guards=o.lits)
        ck.obligation(w, 'std_score() of a %s quantity' % kind, go)
    for kind in ('variable', 'calculated', 'constant'):
        def go():
            x = w.var('x', sigma=0.0 if kind != 'constant' else None); v = w.sym('v')
            q = x if kind == 'variable' else w.value(lambda: w.op('*', x, 2.0)) if kind == 'calculated' else w.value(lambda: w.op('-', x, x))
            name = 'std_score() with a zero standard deviation (%s)' % kind
            for o in w.attempt(lambda: w.meth(q, 'std_score', v)):
                o.enter()
                if o.kind == 'raise':
                    ck.check(name, o.exc_name() == 'ValueError', 'raises %s instead of ValueError' % o.exc_name())
                elif isinstance(o.value, Unknown) or o.lits: ck.und(name, 'returns %r under %r' % (o.value, o.lits))
                else: ck.bad(name, 'returns %s instead of raising ValueError' % show(o.value), getattr(o.value, 'site', None))
        ck.obligation(w, 'std_score() zero (%s)' % kind, go)
    for n0, s0, v0 in itertools.product((0.0, 2.5, -1e200, 1e-200, -3.0), (0.0, 0.5, 1e200, 1e-200), (0.0, 2.5, 7, -1e200, 1e-200, -3.0, -0.0, 0)):
        for kind in ('variable', 'calculated'):
            name = 'std_score(%r) of a %s quantity, nominal value %r, standard deviation %r' % (v0, kind, n0, s0)
            def go():
                q = w.var('x', n0, sigma=s0)
                if kind == 'calculated': q = w.value(lambda: w.op('*', q, 1.0))
                outs = w.attempt(lambda: w.meth(q, 'std_score', v0))
                if len(outs) != 1: ck.und(name, '%d outcomes' % len(outs)); return
                o = outs[0]; o.enter()
                if s0 == 0:
                    ck.check(name, o.exc_name() == 'ValueError' if o.kind == 'raise' else None if isinstance(o.value, (Unknown, Phi)) else False, 'ValueError expected')
                    return
                want = (v0 - n0) / s0
                if o.kind == 'raise': ck.bad(name, 'raises %s' % o.exc_name()); return
                g = e.numify(o.value)
                ck.check(name, None if not isinstance(g, (int, float)) else g == want or abs(g - want) <= 1e-12 * abs(want), '%r instead of %r' % (g, want))
            ck.obligation(w, name, go)
    for v0, n0, s0 in itertools.product((0.0, 2.5, -3.0), (2.5, 0.0), (0.0, 0.5)):
        for kind in ('variable', 'calculated'):
            name = 'std_score() of a number that can be divided by zero (%r), %s quantity, nominal value %r, standard deviation %r' % (v0, kind, n0, s0)
            def go():
                q = w.var('x', n0, sigma=s0)
                if kind == 'calculated': q = w.value(lambda: w.op('*', q, 1.0))
                v = w.value(lambda: w.call(w.ref('verif_quiet:Quiet'), v0))
                outs = w.attempt(lambda: w.meth(q, 'std_score', v))
                if len(outs) != 1: ck.und(name, '%d outcomes' % len(outs)); return
                o = outs[0]; o.enter()
                g = e.numify(o.value) if o.kind == 'value' else None
                if s0 == 0: ck.check(name, o.exc_name() == 'ValueError' if o.kind == 'raise' else None if not isinstance(g, float) else False, 'ValueError expected, not %s' % (g if o.kind == 'value' else o.exc_name()))
                elif o.kind == 'raise': ck.bad(name, 'raises %s' % o.exc_name())
                else: ck.check(name, None if not isinstance(g, (int, float)) else g == (v0 - n0) / s0, 'is %r' % (g,))
            ck.obligation(w, name, go)
    ck.extra['histories'] = nh
    return ck.finish('All histories of %d steps out of %d kinds of reads/updates on a small family of related quantities with opaque derivatives; then all combinations of zero/non-zero '
                     'standard deviations with NaN/zero/opaque derivatives; std_score() in the regions sigma > 0 and sigma = 0.' % (L, len(OPS)),
                     ['histories longer than %d steps are covered only through the absence of other state (see C05)' % L])
