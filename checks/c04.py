"""C04: chain rule over expression graphs."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.engine import Native
from sa.field import samples
from sa import field

def padd(a, b):
    if not isinstance(a, Term) and a == 0.0: return b
    if not isinstance(b, Term) and b == 0.0: return a
    return T('add', a, b)

def pmul(a, b):
    for p, q in ((a, b), (b, a)):
        if not isinstance(p, Term):
            if p == 0.0: return 0.0
            if p == 1.0: return q
    return T('mul', a, b)

def shapes(nmax, leaves):
    """Operand choices of each node of a binary expression graph; the last
    node must use the previous one (otherwise it is a smaller graph)."""
    def rec(k, acc):
        if k == nmax:
            yield tuple(acc); return
        ops = list(leaves) + list(range(k))
        for a, b in itertools.combinations_with_replacement(ops, 2):
            if k and (k - 1) not in (a, b): continue
            if a == 'c' and b == 'c': continue
            yield from rec(k + 1, acc + [(a, b)])
    yield from rec(0, [])

def run(tier):
    ck = Check('C04', tier, 'For each shape of expression graph (sharing, repetition, constants) with an opaque partial derivative on every edge, the derivative of '
               'every node with respect to every variable, read in any order, is the sum over all paths of the products of the edge derivatives.',
               'abstract interpretation of expression building and of lazy evaluation over enumerated expression-graph shapes, opaque edge derivatives')
    w = ck.world()
    e = w.e
    wrap = w.ref('uncertainties.core:wrap')

    def opaque(k, n=2):
        g = Native(lambda *a, k=k: w.sym('g%s' % k), 'g%s' % k)
        ds = [Native(lambda *a, k=k, i=i: w.sym('d%s_%d' % (k, i)), 'd%s_%d' % (k, i)) for i in range(n)]
        return w.call(wrap, g, e.new_list(ds))

    def build(shape):
        vs = {'x': w.var('x'), 'y': w.var('y')}
        vals = dict(vs); vals['c'] = 2.5
        fs = [opaque(k) for k in range(len(shape))]
        for k, (a, b) in enumerate(shape):
            vals[k] = w.value(lambda: w.call(fs[k], vals[a], vals[b]))
        der = {'x': {'x': 1.0, 'y': 0.0}, 'y': {'x': 0.0, 'y': 1.0}, 'c': {'x': 0.0, 'y': 0.0}}
        for k, (a, b) in enumerate(shape):
            der[k] = {v: padd(pmul(sym('d%s_0' % k), der[a][v]), pmul(sym('d%s_1' % k), der[b][v])) for v in 'xy'}
        return vs, vals, der

    def symrngs(n):
        return {sym('d%d_%d' % (k, i)): FIN() for k in range(n) for i in range(2)}

    def verify(tag, vs, vals, der, k, pts):
        for v in 'xy':
            got = w.value(lambda: w.deriv(vals[k], vs[v]))
            ck.eq(w, '%s: derivative of node %s with respect to %s' % (tag, k, v), got, der[k][v], pts=pts)

    nshapes = 0
    plans = [(1, ('x', 'y', 'c')), (2, ('x', 'y', 'c')), (3, ('x', 'y', 'c') if tier == 'thorough' else ('x', 'y'))]
    if tier == 'thorough': plans.append((4, ('x', 'y')))
    for n, leafs in plans:
        pts = samples(symrngs(n), 12)
        for shape in shapes(n, leafs):
            nshapes += 1
            tag = 'graph ' + ' '.join('n%d=f%d(%s,%s)' % (k, k, *(('n%d' % z if isinstance(z, int) else z) for z in ab)) for k, ab in enumerate(shape))
            # order A: the final node is read first, then the others; order B: bottom-up; order C: final node, re-used afterwards
            def go():
                vs, vals, der = build(shape)
                snap = e.snapshot()
                for order in ([n - 1] + list(range(n - 1)), list(range(n))):
                    if n == 1 and order != [0]: continue
                    for k in order: verify(tag + ' (reading order %s)' % order, vs, vals, der, k, pts)
                    e.restore(snap); snap = e.snapshot()
                # evaluate the intermediate nodes, then build one more node on evaluated and unevaluated parts
                if n > 1:
                    for k in range(n - 1): w.value(lambda: w.get(vals[k], 'derivatives'))
                    f = opaque(9)
                    r = w.value(lambda: w.call(f, vals[n - 1], vals[0]))
                    for v in 'xy':
                        got = w.value(lambda: w.deriv(r, vs[v]))
                        want = padd(pmul(sym('d9_0'), der[n - 1][v]), pmul(sym('d9_1'), der[0][v]))
                        ck.eq(w, '%s: further expression on evaluated parts, derivative with respect to %s' % (tag, v), got, want,
                              pts=samples({**symrngs(n), sym('d9_0'): FIN(), sym('d9_1'): FIN()}, 12))
            ck.obligation(w, tag, go)
    # operations with many operands; coefficients of any magnitude
    def kary(name, ds):
        w.sym(name)
        return w.call(wrap, Native(lambda *a: sym(name), name), e.new_list([Native(lambda *a, d=d: d, 'd') for d in ds]))
    for k in (1, 2, 3, 5, 8, 9, 12, 20, 40):
        for inner in ('unevaluated', 'evaluated'):
            tag = 'function of %d operands, %s parts' % (k, inner)
            def go():
                x, y = w.var('x'), w.var('y')
                dp, dt, du = [w.sym('dp%d' % i) for i in range(2)], [w.sym('dt%d' % i) for i in range(k)], [w.sym('du%d' % i) for i in range(k + 1)]
                p_ = w.value(lambda: w.call(kary('p', dp), x, y))
                if inner == 'evaluated': w.value(lambda: w.get(p_, 'derivatives'))
                ob = {'x': x, 'y': y, 'p': p_}
                der = {'x': [1.0, 0.0], 'y': [0.0, 1.0], 'p': list(dp)}
                ks = [('x', 'p', 'y', 'p')[i % 4] for i in range(k)]
                t = w.value(lambda: w.call(kary('t', dt), *[ob[o] for o in ks]))
                if inner == 'evaluated': w.value(lambda: w.get(t, 'derivatives'))
                der['t'] = [0.0, 0.0]
                for d, o in zip(dt, ks): der['t'] = [padd(der['t'][i], pmul(d, der[o][i])) for i in range(2)]
                ob['t'] = t
                ks2 = ['t'] + [('t', 'x', 'p')[i % 3] for i in range(k)]
                u = w.value(lambda: w.call(kary('u', du), *[ob[o] for o in ks2]))
                der['u'] = [0.0, 0.0]
                for d, o in zip(du, ks2): der['u'] = [padd(der['u'][i], pmul(d, der[o][i])) for i in range(2)]
                pts = samples({d: FIN() for d in dp + dt + du}, 6)
                for nm, z in (('u', u), ('t', t), ('p', p_)):
                    for i, v in enumerate((x, y)): ck.eq(w, '%s: derivative %d of %s' % (tag, i, nm), w.value(lambda: w.deriv(z, v)), der[nm][i], pts=pts)
            ck.obligation(w, tag, go)
    COEF = (0.0, 1.0, -1.0, 2.5, 1e-18, -3e-200, 4e180, math.inf, math.nan)
    def near(a, b): return a != a and b != b or a == b or abs(a - b) <= 1e-14 * max(abs(a), abs(b))
    for c1, c2, c3 in itertools.product(COEF, repeat=3):
        tag = 'derivatives %r, %r and %r' % (c1, c2, c3)
        def go():
            x, y = w.var('x'), w.var('y')
            p_ = w.value(lambda: w.call(kary('p', [c1, 1.0]), x, y))
            q_ = w.value(lambda: w.call(kary('q', [c2, c3]), p_, x))
            dx = c2 * c1 + c3
            for nm, z, v, want in (('x', q_, x, dx), ('y', q_, y, c2), ('x of the part', p_, x, c1)):
                got = w.value(lambda: w.deriv(z, v))
                if got is ABSENT: got = 0.0
                # an infinite or NaN factor times zero may be skipped
                if isinstance(got, float) and nm == 'x' and (c1 == 0 and not math.isfinite(c2) or c2 == 0 and not math.isfinite(c1)) and near(got, c3): continue
                ck.check('%s: derivative with respect to %s' % (tag, nm), near(float(got), want) if isinstance(got, (int, float)) else None, 'the derivative is %s instead of %r' % (show(got), want))
            for z, v, c in ((q_, x, dx), (q_, y, c2)):
                if not c: continue
                ks = w.value(lambda: tuple(e.iterate(w.get(z, 'derivatives'))))
                if all(isinstance(a, Ref) for a in ks): ck.check(tag + ': variables of the result', any(same(a, v) for a in ks), 'a variable is missing from the derivatives')
        ck.obligation(w, tag, go)
    # many variables, coefficients of any magnitude
    for n in (3, 17, 60, 130):
        for scale in (1.0, 1e-25, -3e-290, 2e200):
            for inner in ('unevaluated', 'evaluated'):
                tag = '%d variables, %s parts, coefficient %r' % (n, inner, scale)
                def go():
                    vs = [w.var('v%d' % i, 1.0, 0.5) for i in range(n)]
                    cs = [(1.5, -1e-18, 2e-40, 1e10, -2.5, 0.25, 3e-150)[i % 7] for i in range(n)]
                    t = w.value(lambda: w.call(kary('t', cs), *vs))
                    if inner == 'evaluated': w.value(lambda: w.get(t, 'derivatives'))
                    u = w.value(lambda: w.call(kary('u', [scale, 2e-33, -1e-60]), t, vs[n - 1], vs[0]))
                    want = [scale * c for c in cs]
                    want[n - 1] += 2e-33; want[0] -= 1e-60
                    ks = w.value(lambda: tuple(e.iterate(w.get(u, 'derivatives'))))
                    for z, ws in ((u, want), (t, cs)):
                        bad = None
                        for i, v in enumerate(vs):
                            got = w.value(lambda: w.deriv(z, v))
                            if got is ABSENT: got = 0.0
                            if not isinstance(got, (int, float)): ck.und(tag, 'symbolic derivative'); return
                            if not near(float(got), ws[i]): bad = bad or 'the derivative with respect to variable %d is %r instead of %r' % (i, got, ws[i])
                        ck.check('%s: derivatives of the %s' % (tag, 'result' if z is u else 'part'), not bad, bad or '')
                    if all(isinstance(a, Ref) for a in ks):
                        have = {a.a for a in ks}
                        ck.check(tag + ': variables of the result', all(v.a in have for v, c in zip(vs, want) if c), 'a variable is missing from the derivatives')
                ck.obligation(w, tag, go)
    # operators: expressions with cancellations, repeated variables, long sums
    def expr(name, make, wants, nv=3):
        def go():
            vs = [w.var('xyz'[i], POS()) for i in range(nv)]
            ts = [sym('xyz'[i]) for i in range(nv)]
            pts = samples({t: POS() for t in ts}, 20)
            r = w.value(lambda: make(*vs))
            for i, want in enumerate(wants(*ts)):
                got = w.value(lambda: w.deriv(r, vs[i]))
                ck.eq(w, '%s: derivative %d' % (name, i + 1), got, want, pts=pts)
            # the public mapping has exactly the variables of the expression
            ks = w.value(lambda: tuple(e.iterate(w.get(r, 'derivatives'))))
            extra = [z for z in ks if z is not ABSENT and not any(same(z, u) for u in vs)]
            ck.check('%s: only its own variables' % name, False if extra and all(isinstance(z, Ref) for z in extra) else True)
        ck.obligation(w, name, go)
    A = lambda op: (lambda p, q: w.op(op, p, q))
    add, sub, mul, div, pw = A('+'), A('-'), A('*'), A('/'), A('**')
    expr('x - x', lambda x, y, z: sub(x, x), lambda x, y, z: (0.0, 0.0, 0.0))
    expr('(x + y) - (y + x)', lambda x, y, z: sub(add(x, y), add(y, x)), lambda x, y, z: (0.0, 0.0, 0.0))
    expr('x*y - y*x', lambda x, y, z: sub(mul(x, y), mul(y, x)), lambda x, y, z: (0.0, 0.0, 0.0))
    expr('x/x', lambda x, y, z: div(x, x), lambda x, y, z: (0.0, 0.0, 0.0))
    expr('x*x*x', lambda x, y, z: mul(mul(x, x), x), lambda x, y, z: (T('mul', 3.0, T('mul', x, x)), 0.0, 0.0))
    expr('x**2 - x*x', lambda x, y, z: sub(pw(x, 2), mul(x, x)), lambda x, y, z: (0.0, 0.0, 0.0))
    expr('(x + y)*(x - y)', lambda x, y, z: mul(add(x, y), sub(x, y)), lambda x, y, z: (T('mul', 2.0, x), T('mul', -2.0, y), 0.0))
    def shared(x, y, z):
        p = mul(x, y); q = add(p, p); return mul(q, add(p, z))
    expr('shared sub-expression', shared, lambda x, y, z: (
        T('add', T('mul', 4.0, T('mul', x, T('mul', y, y))), T('mul', 2.0, T('mul', y, z))),
        T('add', T('mul', 4.0, T('mul', y, T('mul', x, x))), T('mul', 2.0, T('mul', x, z))), T('mul', 2.0, T('mul', x, y))))
    def chain(x, y, z):
        s = x
        for i in range(12): s = add(s, (x, y, z)[i % 3])
        return s
    expr('sum of 13 terms with repetitions', chain, lambda x, y, z: (5.0, 4.0, 4.0))
    def doubling(x, y, z):
        s = sub(x, y)
        for i in range(8): s = add(s, s)
        return s
    expr('eight nested doublings', doubling, lambda x, y, z: (256.0, -256.0, 0.0))
    expr('sum() of a list', lambda x, y, z: w.call(Ext('builtins.sum'), e.new_list([x, y, z, x])), lambda x, y, z: (2.0, 1.0, 1.0))
    expr('variable returned by an operation on constants', lambda x, y, z: mul(mul(x, 1), mul(2, 0.5)), lambda x, y, z: (1.0, 0.0, 0.0))
    ck.extra['graph_shapes'] = nshapes
    return ck.finish('Expression graphs with up to %d operations are built through wrap() with functions and partial derivatives that are opaque symbols, so each shape stands for '
                     'all operations; derivatives are read in several orders and compared, as polynomials of the opaque symbols, with the sum over paths.' % (4 if tier == 'thorough' else 3),
                     ['graphs with more nodes are built from the same three ingredients (expanded term, unexpanded term, shared term) and are not enumerated'])
