"""C09: identity of variables: constructions, copies, hashes."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.fx import ends, Family
from sa.field import samples

def run(tier):
    ck = Check('C09', tier, 'Every variable returned by a constructor or by a copy of a variable is a new object whose only derivative is 1 with respect to itself, with its own standard deviation and tag, and is its own key in dictionaries; '
               'a copied quantity keeps the original variables, and a deep copy has new ones only.',
               'abstract interpretation with allocation-site identities: pairs of constructions with identical arguments, copies under enumerated evaluation histories, and key identity through the interpreted __hash__() and __eq__()')
    w = ck.world(numpy=True, mods=('uncertainties', 'uncertainties.umath', 'uncertainties.unumpy'))
    e = w.e
    fam = Family(w, tag='a tag')
    pts = fam.pts
    U = w.ref('uncertainties:ufloat'); V = w.ref('uncertainties.core:Variable'); FS = w.ref('uncertainties:ufloat_fromstr'); UA = w.ref('uncertainties.unumpy:uarray'); UM = w.ref('uncertainties.unumpy:umatrix')
    np = e.lib.npm()
    LEN = Ext('builtins.len')
    COPY, DEEP = Ext('copy.copy'), Ext('copy.deepcopy')
    els = lambda a: np.els(e.resolve(a))
    idx = lambda a, *k: e.getitem(a, k if len(k) > 1 else k[0])
    mk = {
        'ufloat(v, s)': lambda v, s, t: w.call(U, v, s), 'ufloat(v, s, tag)': lambda v, s, t: w.call(U, v, s, t), 'ufloat(v, s, tag=tag)': lambda v, s, t: w.call(U, v, s, tag=t), 'ufloat(keywords)': lambda v, s, t: w.call(U, nominal_value=v, std_dev=s, tag=t),
        'Variable(v, s)': lambda v, s, t: w.call(V, v, s), 'Variable(v, s, tag)': lambda v, s, t: w.call(V, v, s, t),
        'ufloat((v, s))': lambda v, s, t: w.call(U, (v, s)), 'ufloat((v, s), tag)': lambda v, s, t: w.call(U, (v, s), t),
        'uarray([v], [s])[0]': lambda v, s, t: idx(w.call(UA, e.new_list([v]), e.new_list([s])), 0), 'uarray([v, v], [s, s])[1]': lambda v, s, t: idx(w.call(UA, e.new_list([v, v]), e.new_list([s, s])), 1),
        'uarray([v, v], s)[0]': lambda v, s, t: idx(w.call(UA, e.new_list([v, v]), s), 0), 'umatrix([[v]], [[s]])[0, 0]': lambda v, s, t: idx(w.call(UM, e.new_list([e.new_list([v])]), e.new_list([e.new_list([s])])), 0, 0),
        'ufloat(text)': lambda v, s, t: w.call(FS, '1.5+/-0.5'), 'ufloat(text, tag)': lambda v, s, t: w.call(FS, '1.5+/-0.5', t), 'ufloat(short text)': lambda v, s, t: w.call(FS, '1.5(5)'),
        'copy.copy(variable)': lambda v, s, t: w.call(COPY, w.call(U, v, s, t)), 'copy.deepcopy(variable)': lambda v, s, t: w.call(DEEP, w.call(U, v, s, t)), 'copy of a copy': lambda v, s, t: w.call(COPY, w.call(DEEP, w.call(U, v, s, t))),
    }
    NOTAG = {n for n in mk if 'tag' not in n and 'copy' not in n and n != 'ufloat(keywords)'}
    TEXT = {n for n in mk if 'text' in n}

    def variable(name, x, v, s, tag):
        ck.check(name + ': type', e.isinstance_(x, V), 'it is not a variable: %s' % show(x))
        ck.eq(w, name + ': nominal value', w.value(lambda: w.get(x, 'nominal_value')), v, pts=pts)
        ck.eq(w, name + ': standard deviation', w.value(lambda: w.get(x, 'std_dev')), s, pts=pts)
        t = e.resolve(w.value(lambda: w.get(x, 'tag')))
        ck.check(name + ': tag', (t is tag or (type(t) is type(tag) and t == tag)) if not isinstance(t, (Unknown, Phi)) else None, 'the tag is %s instead of %s' % (show(t), show(tag)))
        own(name, x)
    def own(name, x):
        d = w.value(lambda: w.get(x, 'derivatives'))
        n = w.value(lambda: w.call(LEN, d))
        ck.check(name + ': number of variables', n == 1 if isinstance(n, int) else None, 'it depends on %s variables' % show(n))
        ck.eq(w, name + ': derivative with respect to itself', w.value(lambda: w.deriv(x, x)), 1.0, pts=pts)
    def independent(name, a, b):
        ck.check(name + ': distinct objects', not same(e.resolve(a), e.resolve(b)), 'the same object is returned')
        if same(e.resolve(a), e.resolve(b)): return
        for x, y, l in ((a, b, ''), (b, a, ' (reversed)')):
            ck.eq(w, name + ': mutual derivative' + l, w.value(lambda: w.deriv(x, y)), 0.0, pts=pts)
            ck.eq(w, name + ': own derivative' + l, w.value(lambda: w.deriv(x, x)), 1.0, pts=pts)
        z = w.value(lambda: w.op('-', a, b))
        ck.eq(w, name + ': derivative of the difference', w.value(lambda: w.deriv(z, a)), 1.0, pts=pts)
        ck.eq(w, name + ': derivative of the difference (second)', w.value(lambda: w.deriv(z, b)), -1.0, pts=pts)
        n = w.value(lambda: w.call(LEN, w.get(z, 'derivatives')))
        ck.check(name + ': variables of the difference', n == 2 if isinstance(n, int) else None, 'the difference depends on %s variables' % show(n))

    def keys(name, objs):
        d = w.value(lambda: e.new_dict([]))
        for i, o in enumerate(objs): w.value(lambda: e.setitem(d, o, i))
        def look(l):
            n = w.value(lambda: w.call(LEN, d))
            ck.check('%s%s: number of keys' % (name, l), n == len(objs) if isinstance(n, int) else None, '%s keys instead of %d' % (show(n), len(objs)))
            for i, o in enumerate(objs):
                c = w.value(lambda: e.contains(d, o))
                ck.check('%s%s: key %d is found' % (name, l, i), c if isinstance(c, bool) else None, 'the key is not found')
                if c is True:
                    v = w.value(lambda: e.getitem(d, o))
                    ck.check('%s%s: value of key %d' % (name, l, i), v == i if isinstance(v, int) else None, 'the value is that of another key')
        hs = [w.value(lambda: w.call(Ext('builtins.hash'), o)) for o in objs]
        look('')
        for i, o in enumerate(objs): w.value(lambda: e.setattr_(o, 'std_dev', w.sym('new_sigma%d' % i, POS())))
        look(' after new standard deviations')
        for i, o in enumerate(objs): w.value(lambda: e.setattr_(o, 'tag', 'another tag'))
        look(' after new tags')
        for o in objs: w.value(lambda: e.setattr_(o, 'std_dev', 0.0))
        look(' after zero standard deviations')
        for i, o in enumerate(objs):
            h = w.value(lambda: w.call(Ext('builtins.hash'), o))
            ck.check('%s: hash of key %d' % (name, i), same(h, hs[i]), 'the hash changes')
        s = w.value(lambda: w.call(Ext('builtins.set'), e.new_list(list(objs) * 2)))
        n = w.value(lambda: w.call(LEN, s))
        ck.check(name + ': elements of a set', n == len(objs) if isinstance(n, int) else None, '%s elements instead of %d' % (show(n), len(objs)))

    # ------------------------------------------------------------ pairs of constructions with identical arguments
    cases = {'symbols': (lambda: w.sym('v'), lambda: w.sym('s', POS()), 't'), 'exact': (lambda: w.sym('v'), lambda: 0.0, 't'), 'zero': (lambda: 0.0, lambda: 0.0, None), 'numbers': (lambda: 1.5, lambda: 0.5, 't'), 'integers': (lambda: 2, lambda: 1, ''),
             'NaN': (lambda: math.nan, lambda: math.nan, 't'), 'infinite': (lambda: math.inf, lambda: math.inf, None)}
    for cl, (fv, fs, tag) in cases.items():
        for a, b in itertools.product(mk, repeat=2):
            if (a in TEXT or b in TEXT) and cl != 'numbers': continue
            if tier == 'quick' and a != b and cl in ('integers', 'infinite', 'zero') and mk.keys() != {a, b} and list(mk).index(b) != (list(mk).index(a) + 1) % len(mk): continue
            name = '%s and %s (%s)' % (a, b, cl)
            def go():
                v, s = fv(), fs()
                x = e.resolve(w.value(lambda: mk[a](v, s, tag)))
                variable(name + ', first', x, v, s, None if a in NOTAG or (a in TEXT and 'tag' not in a) else tag)
                y = e.resolve(w.value(lambda: mk[b](v, s, tag)))
                variable(name + ', second', y, v, s, None if b in NOTAG or (b in TEXT and 'tag' not in b) else tag)
                own(name + ', first, afterwards', x)
                independent(name, x, y)
                if same(x, y): return
                t = e.resolve(w.value(lambda: w.get(x, 'tag')))
                w.value(lambda: e.setattr_(y, 'std_dev', w.sym('another_sigma', POS()))); w.value(lambda: e.setattr_(y, 'tag', 'b'))
                variable(name + ', first, after changes of the second', x, v, s, t)
                ck.eq(w, name + ', second: new standard deviation', w.value(lambda: w.get(y, 'std_dev')), sym('another_sigma'), pts=pts)
                w.value(lambda: e.setattr_(x, 'std_dev', 0.0))
                ck.eq(w, name + ', second: standard deviation after a change of the first', w.value(lambda: w.get(y, 'std_dev')), sym('another_sigma'), pts=pts)
            ck.obligation(w, name, go)
        names = [n for n in mk if n not in TEXT or cl == 'numbers']
        def go(): keys('keys (%s)' % cl, [e.resolve(w.value(lambda: mk[n](fv(), fs(), tag))) for n in names])
        ck.obligation(w, 'keys (%s)' % cl, go)
        def go(): keys('keys (%s), one constructor' % cl, [e.resolve(w.value(lambda: w.call(U, fv(), fs(), tag))) for n in range(4)])
        ck.obligation(w, 'keys (%s), one constructor' % cl, go)
    # elements of one array
    for al, f in {'uarray(list, list)': lambda: w.call(UA, e.new_list([sym('v')] * 3), e.new_list([sym('s')] * 3)), 'uarray(list, number)': lambda: w.call(UA, e.new_list([sym('v')] * 3), sym('s')), 'uarray of constants': lambda: w.call(UA, e.new_list([0.0] * 3), 0.0),
                  'umatrix': lambda: w.call(UM, e.new_list([e.new_list([sym('v')] * 3)]), e.new_list([e.new_list([sym('s')] * 3)]))}.items():
        def go():
            w.sym('v'); w.sym('s', POS())
            xs = [e.resolve(z) for z in els(w.value(f))]
            for i, j in itertools.combinations(range(3), 2): independent('elements %d and %d of %s' % (i, j, al), xs[i], xs[j])
            for i in range(3): own('element %d of %s' % (i, al), xs[i])
            w.value(lambda: e.setattr_(xs[1], 'std_dev', w.sym('another_sigma', POS())))
            for i in (0, 2): ck.eq(w, 'element %d of %s, after a change of element 1' % (i, al), w.value(lambda: w.get(xs[i], 'std_dev')), 0.0 if 'constants' in al else sym('s'), pts=pts)
            keys('elements of ' + al, xs)
        ck.obligation(w, al, go)

    # ------------------------------------------------------------ copies of variables with a history
    how = {'copy.copy()': lambda z: w.call(COPY, z), 'copy.deepcopy()': lambda z: w.call(DEEP, z), '__copy__()': lambda z: w.meth(z, '__copy__'), 'deepcopy of a list': lambda z: idx(w.call(DEEP, e.new_list([z])), 0),
           'deepcopy of a tuple': lambda z: idx(w.call(DEEP, (z, 1)), 0), 'deepcopy of a dictionary': lambda z: idx(w.call(DEEP, e.new_dict([('k', z)])), 'k')}
    histories = {'new': [], 'evaluated': ['x', 'r'], 'new standard deviation': ['sd'], 'new tag': ['tag'], 'exact': ['zero'], 'new standard deviation, evaluated': ['r', 'sd', 'x'], 'tag removed': ['untag']}
    def act(steps):
        x = fam.q['x']; sd, tag = sym('sigma_x'), 'a tag'
        for st in steps:
            if st == 'sd': sd = w.sym('another_sigma', POS()); w.value(lambda: e.setattr_(x, 'std_dev', sd))
            elif st == 'zero': sd = 0.0; w.value(lambda: e.setattr_(x, 'std_dev', 0.0))
            elif st == 'tag': tag = 'b'; w.value(lambda: e.setattr_(x, 'tag', 'b'))
            elif st == 'untag': tag = None; w.value(lambda: e.setattr_(x, 'tag', None))
            else: w.value(lambda: w.get(fam.q[st], 'derivatives'))
        return sd, tag
    for (hl, steps), (cl, cp) in itertools.product(histories.items(), how.items()):
        for times in (1, 2):
            name = '%s of a variable (%s)%s' % (cl, hl, ', twice' if times == 2 else '')
            def go():
                sd, tag = act(steps)
                x = y = fam.q['x']
                for i in range(times):
                    z = y; y = e.resolve(w.value(lambda: cp(z)))
                variable(name, y, sym('x'), sd, tag)
                independent(name, x, y)
                if times == 2: independent(name + ' (first copy)', z, y)
                fam.verify(ck, name + ', original family', sd=False)
                for nm in 'pqr': ck.eq(w, '%s: derivative of %s with respect to the copy' % (name, nm), w.value(lambda: w.deriv(fam.q[nm], y)), 0.0, pts=pts)
                w.value(lambda: e.setattr_(y, 'std_dev', w.sym('third_sigma', POS()))); w.value(lambda: e.setattr_(y, 'tag', 'c'))
                variable(name + ', original', x, sym('x'), sd, tag)
                w.value(lambda: e.setattr_(x, 'std_dev', 0.0))
                variable(name + ', copy', y, sym('x'), sym('third_sigma'), 'c')
            ck.obligation(w, name, go)
    # several copies in one go
    def go():
        x = fam.q['x']
        l = w.value(lambda: w.call(DEEP, e.new_list([x, fam.q['y']])))
        a, b = [e.resolve(z) for z in e.obj(e.resolve(l)).items]
        independent('deep copy of a list of two variables', a, b); independent('deep copy of a list of two variables (original)', a, x)
        variable('deep copy of a list of two variables, first', a, sym('x'), sym('sigma_x'), 'a tag'); variable('deep copy of a list of two variables, second', b, sym('y'), sym('sigma_y'), None)
        keys('variables and their copies', [x, fam.q['y'], a, b])
    ck.obligation(w, 'deep copy of a list of two variables', go)

    # ------------------------------------------------------------ copies of calculated quantities
    reads = {'nothing': [], 'the quantity': ['Q'], 'everything': list('xypqr'), 'p': ['p'], 'x': ['x']}
    after = {'nothing': [], 'copy first': ['C', 'O'], 'original first': ['O', 'C']}
    for nm in 'pqr':
        for (rl, rs), (al, af), sdnew in itertools.product(reads.items(), after.items(), (False, True)):
            for cl, cp in how.items():
                if cl == '__copy__()': continue
                deep = 'deep' in cl
                name = '%s of %s (%s evaluated before, then %s%s)' % (cl, nm, rl, al, ', new standard deviation' if sdnew else '')
                def go():
                    z = fam.q[nm]
                    for r in rs: w.value(lambda: w.get(fam.q[r if r != 'Q' else nm], 'derivatives'))
                    sx = sym('sigma_x')
                    if sdnew: sx = w.sym('another_sigma', POS()); w.value(lambda: e.setattr_(fam.q['x'], 'std_dev', sx))
                    c = e.resolve(w.value(lambda: cp(z)))
                    ck.check(name + ': new object', not same(c, z), 'the object itself is returned')
                    for k in af: w.value(lambda: w.get(c if k == 'C' else z, 'derivatives'))
                    ck.eq(w, name + ': nominal value', w.value(lambda: w.get(c, 'nominal_value')), sym(nm), pts=pts)
                    vs = (fam.q['x'], fam.q['y'])
                    P = samples({**{t: (POS() if all(p[t] > 0 for p in pts) and str(t).startswith('sigma') else FIN()) for t in pts[0]}, sym('another_sigma'): POS()}, 10)
                    if not deep:
                        for i in (0, 1): ck.eq(w, '%s: derivative with respect to %s' % (name, 'xy'[i]), w.value(lambda: w.deriv(c, vs[i])), fam.der[nm][i], pts=pts)
                        n = w.value(lambda: w.call(LEN, w.get(c, 'derivatives')))
                        ck.check(name + ': number of variables', n == 2 if isinstance(n, int) else None, '%s variables' % show(n))
                        d = w.value(lambda: w.op('-', c, z))
                        for i in (0, 1): ck.eq(w, '%s: copy - original, derivative with respect to %s' % (name, 'xy'[i]), w.value(lambda: w.deriv(d, vs[i])), 0.0, pts=pts)
                    else:
                        for i in (0, 1): ck.eq(w, '%s: derivative with respect to the original %s' % (name, 'xy'[i]), w.value(lambda: w.deriv(c, vs[i])), 0.0, pts=pts)
                        new = [v for v in w.value(lambda: tuple(e.iterate(w.get(c, 'derivatives'))))]
                        if any(not isinstance(v, Ref) for v in new): ck.und(name + ': variables', repr(new)); return
                        ck.check(name + ': number of variables', len(new) == 2, '%d variables instead of 2' % len(new))
                        noms = {}
                        for v in new: noms[e.resolve(w.value(lambda: w.get(v, 'nominal_value')))] = v
                        for i, s in ((0, sx), (1, sym('sigma_y'))):
                            v = noms.get(sym('xy'[i]))
                            if v is None: ck.bad('%s: new variable for %s' % (name, 'xy'[i]), 'no variable of the copy has the nominal value of %s' % 'xy'[i]); continue
                            variable('%s: new variable for %s' % (name, 'xy'[i]), v, sym('xy'[i]), s, 'a tag' if i == 0 else None)
                            ck.eq(w, '%s: derivative with respect to the new %s' % (name, 'xy'[i]), w.value(lambda: w.deriv(c, v)), fam.der[nm][i], pts=pts)
                    sdo, sdc = (w.value(lambda: w.get(q, 'std_dev')) for q in (z, c))
                    ck.eq(w, name + ': standard deviation', sdc, sdo, pts=P)
                    fam.verify(ck, name + ', original family', sd=not sdnew)
                    w.value(lambda: e.setattr_(fam.q['x'], 'std_dev', 0.0))
                    x0 = w.value(lambda: w.get(c, 'std_dev'))
                    if deep: ck.eq(w, name + ': standard deviation after a change of the original variable', x0, sdc, pts=P)
                    else: ck.eq(w, name + ': standard deviation after a change of the variable', x0, w.value(lambda: w.get(z, 'std_dev')), pts=P)
                ck.obligation(w, name, go)
    # quantities without variables, and repeated deep copies
    for cl, cp in how.items():
        if cl == '__copy__()': continue
        def go():
            z = w.value(lambda: w.op('*', w.op('-', fam.q['x'], fam.q['x']), 2.0))
            c = e.resolve(w.value(lambda: cp(z)))
            ck.eq(w, cl + ' of a constant quantity: standard deviation', w.value(lambda: w.get(c, 'std_dev')), 0.0, pts=pts)
            ck.eq(w, cl + ' of a constant quantity: nominal value', w.value(lambda: w.get(c, 'nominal_value')), 0.0, pts=pts)
            q1 = e.resolve(w.value(lambda: cp(fam.q['q']))); q2 = e.resolve(w.value(lambda: cp(q1)))
            d = w.value(lambda: w.op('-', q1, q2))
            n = w.value(lambda: w.call(LEN, w.get(d, 'derivatives')))
            want = 4 if 'deep' in cl else 2
            ck.check(cl + ' of a copied quantity: variables of the difference', n == want if isinstance(n, int) else None, '%s variables instead of %d' % (show(n), want))
        ck.obligation(w, cl + ' of a constant quantity', go)
    return ck.finish('%d ways of making a variable, in pairs with identical arguments and %d kinds of values; dictionary keys before and after changes of the variables; copies of variables in %d histories; copies of calculated quantities before and after evaluation.' % (len(mk), len(cases), len(histories)),
                     ['copy and pickle follow their documented protocols', 'id() is different for objects that exist together'])
