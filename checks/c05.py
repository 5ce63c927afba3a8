"""C05: immutability of numbers with uncertainties."""
import itertools
from sa.terms import *
from sa.report import Check
from sa.fx import Family
from sa.world import AnchorMissing

def run(tier):
    ck = Check('C05', tier, 'After every enumerated sequence of operations (arithmetic, functions, reads, printing, copies, pickling, matrices) on a family of quantities that '
               'share unevaluated parts, every quantity of the family still has its own nominal value and derivatives; assignments to read-only attributes raise AttributeError.',
               'abstract interpretation with an explicit heap (aliasing): effect analysis of every public operation on existing quantities')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    U = lambda f: w.ref('uncertainties.umath:' + f)
    core = lambda f: w.ref('uncertainties.core:' + f)
    B = lambda f: Ext('builtins.' + f)
    def opt(f):
        try: return f()
        except AnchorMissing: return None

    def ip(op, a, b):
        return e.inplace(op, a, b)
    OPS = {
        'p + q': lambda F: w.op('+', F['p'], F['q']),
        'x += q': lambda F: ip('+', F['x'], F['q']),
        'r -= p': lambda F: ip('-', F['r'], F['p']),
        'q *= 2': lambda F: ip('*', F['q'], 2),
        'q /= y': lambda F: ip('/', F['q'], F['y']),
        'p **= 2': lambda F: ip('**', F['p'], 2),
        '1 - r': lambda F: w.op('-', 1, F['r']),
        'x * r': lambda F: w.op('*', F['x'], F['r']),
        '-q, +q, abs(q)': lambda F: [e.unary('-', F['q']), e.unary('+', F['q']), w.call(B('abs'), F['q'])],
        'read derivatives of r': lambda F: w.get(F['r'], 'derivatives'),
        'read derivatives of p': lambda F: w.get(F['p'], 'derivatives'),
        'read std_dev of q': lambda F: w.get(F['q'], 'std_dev'),
        'error_components of r': lambda F: w.meth(F['r'], 'error_components'),
        'str(r), repr(q)': lambda F: [w.call(B('str'), F['r']), w.call(B('repr'), F['q'])],
        'format(p)': lambda F: w.call(B('format'), F['p'], '.2e'),
        'p == q': lambda F: e.cmp('==', F['p'], F['q']),
        'p < r, p <= 1': lambda F: [e.cmp('<', F['p'], F['r']), e.cmp('<=', F['p'], 1)],
        'copy.copy(q), copy.copy(x)': lambda F: [w.call(Ext('copy.copy'), F['q']), w.call(Ext('copy.copy'), F['x'])],
        'copy.deepcopy(q)': lambda F: w.call(Ext('copy.deepcopy'), F['q']),
        'copy.deepcopy(x)': lambda F: w.call(Ext('copy.deepcopy'), F['x']),
        'pickle r': lambda F: e.lib.pickle_copy(F['r']),
        'std_score': lambda F: w.attempt_value(lambda: w.meth(F['q'], 'std_score', 1.0)),
        'sin(q)': lambda F: w.call(U('sin'), F['q']),
        'modf(q)': lambda F: w.call(U('modf'), F['q']),
        'frexp(q)': lambda F: w.call(U('frexp'), F['q']),
        'ldexp(q, 2)': lambda F: w.call(U('ldexp'), F['q'], 2),
        'fsum([p, q, p])': lambda F: w.call(U('fsum'), e.new_list([F['p'], F['q'], F['p']])),
        'floor(q)': lambda F: w.call(U('floor'), F['q']),
        'hypot(p, r)': lambda F: w.call(U('hypot'), F['p'], F['r']),
        'sum([q, q, r])': lambda F: w.call(B('sum'), e.new_list([F['q'], F['q'], F['r']])),
        'covariance_matrix': lambda F: w.call(core('covariance_matrix'), e.new_list([F['p'], F['r'], F['x']])),
        'correlation_matrix': lambda F: w.call(core('correlation_matrix'), e.new_list([F['p'], F['r']])),
        'nominal_value(q), std_dev(q)': lambda F: [w.call(core('nominal_value'), F['q']), w.call(core('std_dev'), F['q'])],
        'hash(x)': lambda F: w.call(B('hash'), F['x']),
        'bool(q)': lambda F: w.call(B('bool'), F['q']),
        'new variable with the same values': lambda F: w.var('x'),
        'derivatives with respect to another variable': lambda F: [w.attempt_value(lambda: e.getitem(w.get(F[n], 'derivatives'), w.var('another'))) for n in 'rqpx'],
        'other readings of the derivatives': lambda F: [(w.meth(w.get(F[n], 'derivatives'), 'get', w.var('another'), 0.0), e.contains(w.get(F[n], 'derivatives'), w.var('another')), w.call(B('list'), w.meth(w.get(F[n], 'derivatives'), 'items')),
                                                         w.meth(w.get(F[n], 'derivatives'), 'copy')) for n in 'rqpx'],
        'tag of x': lambda F: e.setattr_(F['x'], 'tag', 'new tag'),
    }
    base_ops = list(OPS)
    for sym_ in ('+', '-', '*', '/', '**', '//', '%'):
        for a, b in (('q', 'x'), ('q', 2), ('r', 'q'), ('p', 0.5), ('x', 'x'), ('x', 2), ('p', 'p'), ('x', 'p')):
            OPS['%s %s= %s' % (a, sym_, b)] = lambda F, sym_=sym_, a=a, b=b: w.attempt_value(lambda: ip(sym_, F[a], F[b] if isinstance(b, str) else b))
    def attempt_value(fn):
        for o in w.attempt(fn):
            if o.kind == 'value': o.enter()
        return None
    w.attempt_value = attempt_value
    L = 3 if tier == 'thorough' else 2
    # operations that evaluate, share or update linear parts: the candidates for the first step of a pair in the quick tier
    first = ['p + q', 'x += q', 'read derivatives of r', 'sum([q, q, r])', 'copy.deepcopy(q)', 'pickle r', 'modf(q)', 'p == q', 'fsum([p, q, p])', 'derivatives with respect to another variable']
    printing = ('str(r), repr(q)', 'format(p)')
    if tier == 'thorough': pairs = list(itertools.product(base_ops, repeat=2))
    else: pairs = [(a, b) for a in first for b in base_ops if b not in printing]
    seqs = [(a,) for a in OPS] + pairs
    if L == 3:
        core_ops = ['p + q', 'x += q', 'read derivatives of r', 'read derivatives of p', 'copy.deepcopy(q)', 'pickle r', 'sum([q, q, r])', 'modf(q)', 'p == q']
        seqs += list(itertools.product(core_ops, repeat=3))
    n = 0
    base = None
    def mk(): return Family(w)
    F = w.value(mk)
    for seq in seqs:
        n += 1
        tag = ' ; '.join(seq)
        def go():
            for op in seq: attempt_value(lambda: OPS[op](F.q)) if 'std_score' in op else w.value(lambda: OPS[op](F.q))
            # order of the verification: the shared parts last, so that the evaluation of the others is one more read
            F.verify(ck, 'after ' + tag, names=('r', 'q', 'p', 'x', 'y'))
        ck.obligation(w, tag, go)

    # operations with many terms, long expressions, many variables: used in others that are evaluated first
    from sa.engine import Native
    from sa.field import samples
    wrap = w.ref('uncertainties.core:wrap')
    def opaque(name, k):
        ds = [w.sym('%s%d' % (name, i)) for i in range(k)]
        w.sym(name)
        return w.call(wrap, Native(lambda *a: sym(name), name), e.new_list([Native(lambda *a, d=d: d, 'd') for d in ds])), ds
    USES = {'2*t': lambda t, P: w.op('*', t, 2), 't + t': lambda t, P: w.op('+', t, t), 't*p': lambda t, P: w.op('*', t, P), 'sin(t)': lambda t, P: w.call(U('sin'), t), 'fsum of ten t': lambda t, P: w.call(U('fsum'), e.new_list([t] * 10)),
            '(t + 1)*2': lambda t, P: w.op('*', w.op('+', t, 1), 2), 'copy': lambda t, P: w.call(Ext('copy.copy'), t), 'deep copy of t': lambda t, P: w.call(Ext('copy.deepcopy'), t), 'pickled t': lambda t, P: e.lib.pickle_copy(t), 't itself': lambda t, P: t,
            't - t': lambda t, P: w.op('-', t, t)}
    READ = {'derivatives': lambda r: w.get(r, 'derivatives'), 'std_dev': lambda r: w.get(r, 'std_dev'), 'error_components': lambda r: w.meth(r, 'error_components'), 'comparison': lambda r: e.cmp('==', r, 1.0)}
    def total(der, terms, nv):
        out = [0.0] * nv
        for d, o in terms:
            for i in range(nv):
                c = der[o][i]
                if isinstance(c, Term) or c != 0: out[i] = T('add', out[i], T('mul', d, c)) if isinstance(out[i], Term) or out[i] != 0 else T('mul', d, c)
        return out
    sizes = (1, 2, 4, 8, 9, 10, 12, 17, 33) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 50, 64, 65, 101)
    for k in sizes:
        for parts in ('variables', 'calculated', 'mixed', 'many variables'):
            for ul, use in USES.items():
                for rl, read in READ.items():
                    if tier == 'quick' and rl != 'derivatives' and (k not in (1, 9, 17) or ul not in ('2*t', 't + t', 't itself')): continue
                    tag = 'function of %d arguments (%s), %s of %s read' % (k, parts, rl, ul)
                    def go():
                        nv = 2 if parts != 'many variables' else max(k, 2)
                        vs = [w.value(lambda: w.var('v%d' % i)) for i in range(nv)]
                        fp, dp = opaque('p', 2)
                        P = w.value(lambda: w.call(fp, vs[0], vs[1]))
                        unit = lambda i: [1.0 if j == i else 0.0 for j in range(nv)]
                        der = {i: unit(i) for i in range(nv)}
                        der['p'] = [dp[0], dp[1]] + [0.0] * (nv - 2)
                        objs = dict(enumerate(vs)); objs['p'] = P
                        kinds = {'variables': [0, 1], 'calculated': ['p'], 'mixed': [0, 'p', 1, 'p', 'p'], 'many variables': list(range(nv))}[parts]
                        ops_ = [kinds[i % len(kinds)] for i in range(k)]
                        ft, dt = opaque('t', k)
                        t = w.value(lambda: w.call(ft, *[objs[o] for o in ops_]))
                        der['t'] = total(der, list(zip(dt, ops_)), nv)
                        u = w.value(lambda: use(t, P))
                        w.value(lambda: read(u))
                        pts = samples({d: FIN() for d in dt + dp}, 4)
                        for nm, z in (('t', t), ('p', P), ('t', t)):
                            for i in range(min(nv, 4)): ck.eq(w, '%s: derivative %d of %s' % (tag, i, nm), w.value(lambda: w.deriv(z, vs[i])), der[nm][i], pts=pts)
                            n_ = w.value(lambda: w.call(B('len'), w.get(z, 'derivatives')))
                            if isinstance(n_, int): ck.check('%s: number of variables of %s' % (tag, nm), n_ <= nv and (n_ >= min(k, nv) if nm == 't' and parts == 'many variables' else True), '%d variables' % n_)
                    ck.obligation(w, tag, go)
    for n_ in (12, 40):
        for lab, bld in (('sum', lambda a, v: w.op('+', a, v)), ('reversed sum', lambda a, v: w.op('+', v, a)), ('alternating', lambda a, v: w.op('-', v, a))):
            for ul, use in USES.items():
                tag = '%s of %d terms, derivatives of %s read' % (lab, n_, ul)
                def go():
                    x, y = w.value(lambda: w.var('x')), w.value(lambda: w.var('y'))
                    a, d = x, [1.0, 0.0]
                    for i in range(n_):
                        v, dv = ((x, y)[i % 2], [[1.0, 0.0], [0.0, 1.0]][i % 2])
                        a = w.value(lambda: bld(a, v))
                        d = [dv[j] + d[j] for j in range(2)] if lab != 'alternating' else [dv[j] - d[j] for j in range(2)]
                        if i == n_ // 2: mid, dm = a, list(d)
                    u = w.value(lambda: use(a, mid))
                    w.value(lambda: w.get(u, 'derivatives'))
                    for nm, z, dd in (('the expression', a, d), ('a part', mid, dm)):
                        for j, v in enumerate((x, y)): ck.eq(w, '%s: derivative %d of %s' % (tag, j, nm), w.value(lambda: w.deriv(z, v)), dd[j], pts=[{}])
                ck.obligation(w, tag, go)

    # the standard deviation of a copy is not the one of the original
    for lab, cp in (('copy.copy', Ext('copy.copy')), ('copy.deepcopy', Ext('copy.deepcopy'))):
        def go():
            c = w.value(lambda: w.call(cp, F.q['x']))
            w.value(lambda: e.setattr_(c, 'std_dev', 0.5))
            w.value(lambda: e.setattr_(c, 'tag', 'other'))
            F.verify(ck, 'std dev of a %s of x modified' % lab)
        ck.obligation(w, lab, go)
    # a computed quantity is not the variable itself: identities
    for lab, f in (('+x', lambda: e.unary('+', F.q['x'])), ('x + 0', lambda: w.op('+', F.q['x'], 0)), ('x * 1', lambda: w.op('*', F.q['x'], 1)), ('x ** 1', lambda: w.op('**', F.q['x'], 1)),
                   ('sum([x])', lambda: w.call(B('sum'), e.new_list([F.q['x']]))), ('fsum([x])', lambda: w.call(U('fsum'), e.new_list([F.q['x']])))):
        def go():
            r = w.value(f)
            F.verify(ck, 'after ' + lab)
        ck.obligation(w, lab, go)

    # read-only attributes
    for nm, attrs in (('q', ('nominal_value', 'n', 'std_dev', 's', 'derivatives')), ('x', ('nominal_value', 'n', 'derivatives'))):
        for a in attrs:
            name = 'assignment to .%s of a %s' % (a, 'calculated quantity' if nm == 'q' else 'variable')
            def go():
                outs = w.attempt(lambda: e.setattr_(F.q[nm], a, 1.25))
                for o in outs:
                    o.enter()
                    if o.kind == 'raise': ck.check(name, o.exc_name() == 'AttributeError', 'raises %s' % o.exc_name())
                    elif o.lits: ck.und(name, 'accepted under %r' % (o.lits,))
                    else: ck.bad(name, 'the assignment is accepted')
            ck.obligation(w, name, go)
    for a in ('std_dev', 'tag'):
        name = 'assignment to .%s of a variable is possible' % a
        def go():
            w.value(lambda: e.setattr_(F.q['x'], a, 1.25))
            got = w.value(lambda: w.get(F.q['x'], a))
            ck.eq(w, name, got, 1.25, pts=F.pts)
        ck.obligation(w, name, go)
    ck.extra['operation_sequences'] = n
    return ck.finish('A family of five quantities sharing unevaluated linear combinations, with opaque values and derivatives; sequences of one and two (thorough: all pairs, and triples of the core operations) '
                     'of %d public operations, after which every member of the family is checked in full.' % len(OPS), [])
