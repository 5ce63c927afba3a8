"""C11: covariance and correlation matrices."""
import itertools, math
from fractions import Fraction
from sa.terms import *
from sa.report import Check
from sa.engine import Native
from sa.fx import Family
from sa.field import samples
from checks.c06 import rss

NAN = math.nan
num = lambda z: not isinstance(z, Term)
def M(a, b):
    if num(a) and num(b): return a * b
    if num(a) and a == 0 or num(b) and b == 0: return 0.0
    return T('mul', a, b)
def A(a, b): return a + b if num(a) and num(b) else b if num(a) and a == 0 else a if num(b) and b == 0 else T('add', a, b)

def run(tier):
    ck = Check('C11', tier, 'Each entry of covariance_matrix() equals the sum over the common variables of derivative x derivative x current variance; the matrix is symmetric, and correlation_matrix() is that matrix divided by the standard deviations.',
               'abstract interpretation of covariance_matrix() and correlation_matrix() on families of symbolic linear combinations, under enumerated evaluation and update histories; term equality')
    w = ck.world(numpy=True)
    e = w.e
    np = e.lib.npm()
    COV, COR = w.ref('uncertainties:covariance_matrix'), w.ref('uncertainties:correlation_matrix')
    fam = Family(w)
    wrap = w.ref('uncertainties.core:wrap')
    def lin(name, terms):
        """A quantity with the given (derivative, quantity) terms."""
        w.sym(name)
        g = w.call(wrap, Native(lambda *a: sym(name), name), e.new_list([Native(lambda *a, d=d: d, 'd') for d, _ in terms]))
        return w.value(lambda: w.call(g, *[z for _, z in terms]))
    SY = {n: w.sym(n) for n in ('dg', 'dh', 'di', 'dj')}
    z = w.value(lambda: w.var('z')); ex = w.value(lambda: w.var('ex', sigma=0.0))
    Q = dict(fam.q, z=z, ex=ex)
    V = {'x': Q['x'], 'y': Q['y'], 'z': z, 'ex': ex}
    DER = {n: dict(zip('xy', d)) for n, d in fam.der.items()}
    DER.update(x={'x': 1.0}, y={'y': 1.0}, z={'z': 1.0}, ex={'ex': 1.0})
    def add(name, *terms):
        Q[name] = lin(name, [(d, Q[q]) for d, q in terms])
        der = {}
        for d, q in terms:
            for v, c in DER[q].items(): der[v] = A(der.get(v, 0.0), M(d, c))
        DER[name] = der
    add('s', (SY['dg'], 'y'), (SY['dh'], 'z'))
    add('t', (SY['di'], 's'), (SY['dj'], 'p'), (1.0, 'z'))
    add('u', (SY['dg'], 'x'), (NAN, 'ex'))
    add('v', (2.0, 'ex'), (SY['dh'], 'z'), (SY['di'], 'ex'))
    add('n', (NAN, 'x'), (SY['dg'], 'y'))
    add('c', (1.0, 'x'), (-1.0, 'x'))
    add('k', (SY['dg'], 'ex'))
    SIG0 = {'x': sym('sigma_x'), 'y': sym('sigma_y'), 'z': sym('sigma_z'), 'ex': 0.0}
    dpts = {sym(n): FIN() for n in ('da', 'db', 'dc', 'dd', 'de', 'df', 'dg', 'dh', 'di', 'dj')}
    dpts.update({sym('sigma_' + n): POS() for n in ('x', 'y', 'z', 'x2', 'y2', 'x3', 'ex2')})
    PTS = samples(dpts, 14)

    def nanlike(c, s): return num(c) and c != c
    def cov(a, b, sig):
        acc = 0.0
        for v in DER[a]:
            if v in DER[b]:
                s = sig[v]
                if num(s) and s == 0: continue
                if nanlike(DER[a][v], s) or nanlike(DER[b][v], s): return NAN
                acc = A(acc, M(M(DER[a][v], DER[b][v]), M(s, s)))
        return acc
    def matrix(name, names, sig, got, pts):
        got = e.resolve(got)
        if not e.is_kind(got, 'list'): ck.check(name + ': result', None if isinstance(got, (Unknown, Phi)) else False, 'the result is %s' % show(got)); return
        rows = [e.resolve(r) for r in e.obj(got).items]
        if not ck.check(name + ': number of rows', len(rows) == len(names), '%d rows instead of %d' % (len(rows), len(names))): return
        for i, j in itertools.combinations(range(len(rows)), 2):
            if same(rows[i], rows[j]): ck.bad(name + ': rows', 'two rows are the same list')
        for i, (a, r) in enumerate(zip(names, rows)):
            if not e.is_kind(r, 'list'): ck.check(name + ': row %d' % i, None if isinstance(r, (Unknown, Phi)) else False, show(r)); return
            its = e.obj(r).items
            if not ck.check(name + ': length of row %d' % i, len(its) == len(names), '%d elements instead of %d' % (len(its), len(names))): return
        el = [[e.obj(r).items[j] for j in range(len(names))] for r in rows]
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if isinstance(el[i][j], int): ck.bad('%s: type of (%d, %d)' % (name, i, j), 'the covariance is an integer instead of a float')
                ck.eq(w, '%s: covariance of %s and %s (%d, %d)' % (name, a, b, i, j), el[i][j], cov(a, b, sig), pts=pts)
    def sd(z, want, name, pts): ck.eq(w, name, w.value(lambda: w.get(z, 'std_dev')), want, pts=pts)

    lists = [(), ('x',), ('p',), ('x', 'y'), ('x', 'z'), ('x', 'x'), ('p', 'q'), ('q', 'p'), ('r', 'x', 'y'), ('x', 'y', 'p', 'q', 'r'), ('r', 'q', 'p', 'y', 'x'), ('s', 't'), ('t', 's', 'p'), ('x', 's'), ('s', 'x'), ('z', 'p'), ('t', 'x', 'z', 'y'), ('p', 'p', 'q'),
             ('q', 'x', 'q'), ('s', 't', 's', 't'), ('c', 'x'), ('x', 'c'), ('c', 'c'), ('ex', 'x'), ('ex', 'ex'), ('u', 'x'), ('x', 'u', 'ex'), ('u', 'u'), ('u', 'v'), ('v', 'u', 'k'), ('k', 'k'), ('v', 'z', 's'), ('n', 'y'), ('y', 'n'), ('n', 'n'), ('n', 'x'), ('n', 'z'), ('n', 'u', 'ex')]
    if tier == 'thorough':
        lists += [t for t in itertools.permutations(('x', 'p', 'q', 's', 't', 'u', 'v'), 3)]
    histories = {'new': [], 'all derivatives read': ['R'], 'matrix calculated before': ['C'], 'x changed': ['sx'], 'derivatives read, x changed': ['R', 'sx'], 'matrix calculated, x and y changed': ['C', 'sx', 'sy'], 'matrix calculated, x exact': ['C', 'zx'], 'x exact, then changed': ['zx', 'C', 'sx3'],
                 'standard deviations read': ['S'], 'exact variable changed': ['C', 'sex'], 'first derivatives read': ['R1'], 'last derivatives read, matrix, y changed': ['Rl', 'C', 'sy']}
    for names in lists:
        for hl, steps in histories.items():
            if 'sex' in steps and any(n in ('u', 'n') for n in names): continue
            if tier == 'quick' and len(names) > 4 and hl not in ('new', 'derivatives read, x changed', 'matrix calculated, x and y changed'): continue
            for cont in (('list', 'tuple', 'array') if hl == 'new' else ('list',)):
                name = 'covariance matrix of %s %s (%s)' % (cont, ', '.join(names) or 'nothing', hl)
                def go():
                    sig = dict(SIG0)
                    mk = lambda: e.new_list([Q[n] for n in names]) if cont == 'list' else w.call(Ext('numpy.array'), e.new_list([Q[n] for n in names])) if cont == 'array' else tuple(Q[n] for n in names)
                    def read(ns):
                        for n in ns: w.value(lambda: w.get(Q[n], 'derivatives'))
                    def setv(v, s):
                        if isinstance(s, str): s = w.sym(s, POS())
                        w.value(lambda: e.setattr_(V[v], 'std_dev', s)); sig[v] = s
                    for st in steps:
                        if st == 'R': read(names)
                        elif st == 'R1': read(names[:1])
                        elif st == 'Rl': read(names[-1:])
                        elif st == 'C': w.value(lambda: w.call(COV, mk()))
                        elif st == 'S':
                            for n in names: w.value(lambda: w.get(Q[n], 'std_dev'))
                        elif st == 'zx': setv('x', 0.0)
                        elif st == 'sx': setv('x', 'sigma_x2')
                        elif st == 'sx3': setv('x', 'sigma_x3')
                        elif st == 'sy': setv('y', 'sigma_y2')
                        elif st == 'sex': setv('ex', 'sigma_ex2')
                    l = mk()
                    got = w.value(lambda: w.call(COV, l))
                    matrix(name, names, sig, got, PTS)
                    again = w.value(lambda: w.call(COV, l))
                    ck.check(name + ': new result', not same(e.resolve(got), e.resolve(again)), 'two calls return the same list')
                    matrix(name + ', again', names, sig, again, PTS)
                    if cont == 'list': ck.check(name + ': the argument', [same(a, Q[n]) for a, n in zip(e.obj(l).items, names)] == [True] * len(names) and len(e.obj(l).items) == len(names), 'the list is changed')
                    # the diagonal agrees with the standard deviations
                    for n in names:
                        s2 = w.value(lambda: w.get(Q[n], 'std_dev'))
                        c = cov(n, n, sig)
                        want = NAN if num(c) and c != c else T('math.sqrt', c) if not num(c) else math.sqrt(c)
                        ck.eq(w, '%s: standard deviation of %s' % (name, n), s2, want, pts=PTS)
                ck.obligation(w, name, go)
    # the covariances do not depend on the nominal values
    for nl, n1, n2 in (('infinite', math.inf, -math.inf), ('NaN', NAN, NAN), ('zero', 0.0, -0.0), ('huge', 1e308, -1e308), ('tiny', 5e-324, 1e-320), ('integer', 3, 0)):
        def go():
            s1, s2 = sym('sigma_x'), sym('sigma_y')
            a, b = w.value(lambda: w.var('x', n1, sigma=s1)), w.value(lambda: w.var('y', n2, sigma=s2))
            z_ = w.value(lambda: w.var('z', 1.0, sigma=0.0))
            g = lambda val, ds, *qs: w.value(lambda: w.call(w.call(wrap, Native(lambda *a: val, 'f'), e.new_list([Native(lambda *a, d=d: d, 'd') for d in ds])), *qs))
            p = g(n1, (sym('da'), sym('db')), a, b); q = g(n2, (sym('dc'),), a)
            objs = {'a': a, 'b': b, 'p': p, 'q': q, 'z': z_}
            der = {'a': {'x': 1.0}, 'b': {'y': 1.0}, 'p': {'x': sym('da'), 'y': sym('db')}, 'q': {'x': sym('dc')}, 'z': {}}
            sg = {'x': s1, 'y': s2}
            for names in (('a',), ('p',), ('z',), ('q',), ('a', 'b'), ('p', 'q'), ('q', 'p'), ('p', 'b', 'z'), ('a', 'a'), ('q', 'a', 'p', 'b')):
                for fn, f in (('covariance', COV), ('correlation', COR)):
                    if fn == 'correlation' and 'z' in names: continue
                    m = e.resolve(w.value(lambda: w.call(f, e.new_list([objs[n] for n in names]))))
                    tag = '%s matrix of %s with %s nominal values' % (fn, ', '.join(names), nl)
                    if fn == 'covariance' and not e.is_kind(m, 'list') or fn == 'correlation' and not np.isarr(m): ck.check(tag, None if isinstance(m, (Unknown, Phi)) else False, show(m)); continue
                    C = {}
                    for i in names:
                        for j in names:
                            acc = 0.0
                            for v in der[i]:
                                if v in der[j]: acc = A(acc, M(M(der[i][v], der[j][v]), M(sg[v], sg[v])))
                            C[i, j] = acc
                    k = len(names)
                    els = np.els(m) if np.isarr(m) else [x for r in e.obj(m).items for x in e.obj(e.resolve(r)).items]
                    if not ck.check(tag + ': size', len(els) == k * k, '%d elements' % len(els)): continue
                    for i, ni in enumerate(names):
                        for j, nj in enumerate(names):
                            want = C[ni, nj]
                            if fn == 'correlation' and not (num(want) and want == 0): want = T('div', T('div', want, T('math.sqrt', C[ni, ni])), T('math.sqrt', C[nj, nj]))
                            ck.eq(w, '%s (%d, %d)' % (tag, i, j), els[i * k + j], want, pts=PTS)
        ck.obligation(w, 'quantities with %s nominal values' % nl, go)
    # quantities of many variables, with derivatives of very different orders of magnitude
    for n in (10, 60) if tier == 'quick' else (10, 60, 120):
        def go():
            xs = [w.value(lambda: w.var('w%d' % k, float(k), sigma=2.0 ** -(k % 9))) for k in range(n)]
            mk = lambda cs: w.value(lambda: w.call(w.call(wrap, Native(lambda *a: 1.0, 'f'), e.new_list([Native(lambda *a, d=d: d, 'd') for d in cs])), *xs))
            c1 = [10.0 ** (-(k * 7 % 31)) * (-1) ** k for k in range(n)]; c2 = [float(k % 5 - 2) * 10.0 ** -(k % 13) for k in range(n)]
            qs = [(mk(c1), c1), (mk(c2), c2), (xs[-1], [0.0] * (n - 1) + [1.0]), (xs[n // 2], [float(k == n // 2) for k in range(n)]), (xs[0], [1.0] + [0.0] * (n - 1))]
            m = e.resolve(w.value(lambda: w.call(COV, e.new_list([q for q, _ in qs]))))
            name = 'quantities of %d variables' % n
            if not e.is_kind(m, 'list'): ck.und(name, show(m)); return
            for i, (_, a) in enumerate(qs):
                for j, (_, b) in enumerate(qs):
                    t = [x * y * 4.0 ** -(k % 9) for k, (x, y) in enumerate(zip(a, b))]
                    want, scale = math.fsum(t), math.fsum(map(abs, t))
                    g = e.resolve(e.obj(e.resolve(e.obj(m).items[i])).items[j])
                    if not isinstance(g, (int, float)): ck.und('%s: covariance (%d, %d)' % (name, i, j), show(g)); continue
                    ck.check('%s: covariance (%d, %d)' % (name, i, j), abs(g - want) <= 1e-9 * scale, 'is %r instead of %r' % (g, want))
        ck.obligation(w, 'quantities of %d variables' % n, go)
    # standard deviations and derivatives of extreme magnitudes
    EXT = [1e200, 1e-200, 1e308, 5e-324, 1.0, 1e154, 0.0, math.inf]
    def prod(d1, s, d2):
        """d1 s x d2 s, as if floats had no limits."""
        if s == 0: return 0.0
        if any(z != z or math.isinf(z) for z in (d1, s, d2)): return (d1 * s) * (d2 * s)
        r = Fraction(d1) * Fraction(s) * Fraction(d2) * Fraction(s)
        try: return float(r)
        except OverflowError: return math.inf if r > 0 else -math.inf
    for s1, s2 in itertools.product(EXT, repeat=2):
        for d1, d2, d3 in ((1.0, 1.0, 1.0), (2.0, -1.0, 0.5), (1e-200, 1e200, -1e-200), (1e200, 1e-200, 1e200), (1e-150, 1.0, 1e-150)):
            name = 'standard deviations %r and %r, derivatives %r, %r and %r' % (s1, s2, d1, d2, d3)
            def go():
                a, b = w.value(lambda: w.var('x', 1.0, sigma=s1)), w.value(lambda: w.var('y', 1.0, sigma=s2))
                g = lambda ds, *qs: w.value(lambda: w.call(w.call(wrap, Native(lambda *a: 1.0, 'f'), e.new_list([Native(lambda *a, d=d: d, 'd') for d in ds])), *qs))
                qs = [(g((d1,), a), (d1, 0.0)), (g((d2, d3), a, b), (d2, d3)), (g((d3,), b), (0.0, d3)), (a, (1.0, 0.0))]
                outs = w.attempt(lambda: w.call(COV, e.new_list([q for q, _ in qs])))
                for o in outs:
                    if o.kind != 'value': ck.check(name, False if len(outs) == 1 else None, 'raises %s' % o.exc_name()); continue
                    o.enter()
                    m = e.resolve(o.value)
                    if not e.is_kind(m, 'list'): ck.und(name, show(m)); continue
                    for i, (_, c) in enumerate(qs):
                        for j, (_, d) in enumerate(qs):
                            if any(z and not 1e-300 < abs(z * s) < 1e305 for x, s, y in zip(c, (s1, s2), d) if s and math.isfinite(s) for z in (x, y)): continue     # a component that cannot be represented
                            t = [prod(x, s, y) for x, s, y in zip(c, (s1, s2), d) if not (x == 0 or y == 0)]
                            want = sum(t)
                            if want and abs(want) < 1e-290: continue          # rounding of denormals
                            if math.isinf(want) and not any(math.isinf(z) for z in (s1, s2)): ok = lambda g: g == want or g != g
                            else: ok = lambda g: g == want or g != g and want != want or abs(g - want) <= 1e-9 * sum(map(abs, t))
                            if any(math.isinf(z) for z in (s1, s2)) and len(t) > 1: continue
                            g_ = e.resolve(e.obj(e.resolve(e.obj(m).items[i])).items[j])
                            if not isinstance(g_, (int, float)): ck.und('%s: covariance (%d, %d)' % (name, i, j), show(g_)); continue
                            ck.check('%s: covariance (%d, %d)' % (name, i, j), ok(g_), 'is %r instead of %r' % (g_, want))
            ck.obligation(w, name, go)
    # coincidences: variables with the same values
    def go():
        a, b = [w.value(lambda: w.var('x', sigma=sym('sigma_x'))) for i in range(2)]
        s = w.value(lambda: w.op('+', a, b)); d = w.value(lambda: w.op('-', a, b))
        m = w.value(lambda: w.call(COV, e.new_list([a, b, s, d])))
        k = {(0, 0): 1, (0, 1): 0, (0, 2): 1, (0, 3): 1, (1, 1): 1, (1, 2): 1, (1, 3): -1, (2, 2): 2, (2, 3): 0, (3, 3): 2}
        for i in range(4):
            for j in range(4):
                c = k[min(i, j), max(i, j)]
                ck.eq(w, 'variables with the same values: covariance (%d, %d)' % (i, j), e.obj(e.resolve(e.obj(e.resolve(m)).items[i])).items[j], T('mul', float(c), T('pow', sym('sigma_x'), 2)), pts=PTS)
    ck.obligation(w, 'variables with the same values', go)

    # ------------------------------------------------------------ correlation matrix
    for names in [l for l in lists if l and not any(n in ('ex', 'k', 'c', 'n') for n in l)]:
        for hl, steps in histories.items():
            if 'sex' in steps or 'zx' in steps: continue
            if tier == 'quick' and hl not in ('new', 'derivatives read, x changed', 'x changed', 'standard deviations read'): continue
            name = 'correlation matrix of %s (%s)' % (', '.join(names), hl)
            def go():
                sig = dict(SIG0)
                for st in steps:
                    if st in ('sx', 'sy'):
                        s = w.sym('sigma_%s2' % st[1], POS()); w.value(lambda: e.setattr_(V[st[1]], 'std_dev', s)); sig[st[1]] = s
                    elif st == 'C': w.value(lambda: w.call(COR, e.new_list([Q[n] for n in names])))
                    else:
                        for n in names: w.value(lambda: w.get(Q[n], 'derivatives' if st.startswith('R') else 'std_dev'))
                arg = e.new_list([Q[n] for n in names])
                if hl != 'new' and len(names) % 3 == 1: arg = tuple(Q[n] for n in names)
                elif hl != 'new' and len(names) % 3 == 2: arg = w.call(Ext('numpy.array'), arg)
                got = e.resolve(w.value(lambda: w.call(COR, arg)))
                if not np.isarr(got): ck.check(name + ': type', None if isinstance(got, (Unknown, Phi)) else False, 'not an array: %s' % show(got)); return
                n = len(names)
                if not ck.check(name + ': shape', e.obj(got).f['shape'] == (n, n), 'the shape is %s' % (e.obj(got).f['shape'],)): return
                el = np.els(got)
                sds = [T('math.sqrt', cov(a, a, sig)) for a in names]
                for i, a in enumerate(names):
                    for j, b in enumerate(names):
                        c = cov(a, b, sig)
                        ck.eq(w, '%s: correlation of %s and %s (%d, %d)' % (name, a, b, i, j), el[i * n + j], T('div', T('div', c, sds[i]), sds[j]) if not (num(c) and c == 0) else 0.0, pts=PTS)
            ck.obligation(w, name, go)
    return ck.finish('%d lists of quantities (independent, correlated, repeated, constant, with undefined derivatives) of up to 5 elements over 4 variables, in %d histories.' % (len(lists), len(histories)),
                     ['real arithmetic stands for floating point in the comparison of formulas'])
