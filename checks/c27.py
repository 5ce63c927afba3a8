"""C27: obsolete calling forms."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.fx import ends
from sa.field import samples

STRINGS = ['12.3+/-0.4', '3(1)', '1.5(2)e3', '(3.0+/-1.0)e-5', '-4', '7.25(4)', '3.0(nan)', '0+/-0', u'1.0\xb10.2', '1e3', '-1.5e-3+/-2e-4', '12.34(1.5)', '+3(2)e2', '(1.0(2))e3', 'nan+/-nan', '  12(3)', '12.5+/-3', '0(0)']

def run(tier):
    ck = Check('C27', tier, 'On every path an obsolete calling form issues a warning and gives the same value, standard deviation and tag as the current form; the current forms issue none.',
               'abstract interpretation of the obsolete and the current forms side by side (effect analysis of warnings.warn, value comparison)')
    w = ck.world(mods=('uncertainties', 'uncertainties.unumpy'))
    e = w.e
    np = e.lib.npm()
    U = lambda n: w.ref('uncertainties:' + n)
    UN = lambda n: w.ref('uncertainties.unumpy:' + n)
    uf, ufs = U('ufloat'), U('ufloat_fromstr')
    def warnings(): return list(e.obj(e.warn_addr).items)
    pts = samples({**{sym(n): FIN() for n in 'abcd'}, **{sym('s' + n): POS() for n in 'abcd'}}, 12)
    def sigma(n): return w.sym('s' + n, POS())

    def warned(name, n0, expect):
        """Has a warning been issued on the current path since n0?"""
        new = warnings()[n0:]
        if any(e.maybe_absent(x) for x in new) if expect else False:
            ck.und(name, 'conditional warning'); return
        if expect: ck.check(name, len(new) >= 1, 'no warning is issued')
        else: ck.check(name, not new, 'a warning is issued: %s' % ', '.join(show(x) for x in new))

    def form(name, f, expect, verify, again=True):
        """f() on every path: warning or not, then verify(result)."""
        def go():
            n0 = len(warnings())
            o = None
            for o in w.attempt(f):
                o.enter()
                if o.kind == 'raise':
                    from sa.report import feasible, safe_msg
                    fs = feasible(o, w)
                    if fs is False: continue
                    (ck.bad if fs else ck.und)(name, 'raises %s (%s)' % (o.exc_name(), safe_msg(o)), e.obj(e.resolve(o.value)).site)
                    continue
                warned(name + ': warning', n0, expect)
                verify(o.value)
        ck.obligation(w, name, go)

    def same_var(name, got, nom, sd, tag):
        got = e.resolve(got)
        if isinstance(got, (Unknown, Phi)): ck.und(name); return
        if w.is_uncert(got) is not True: ck.bad(name, 'the result is no number with uncertainty: %s' % show(got)); return
        ck.eq(w, name + ': nominal value', w.value(lambda: w.get(got, 'nominal_value')), nom, pts=pts)
        ck.eq(w, name + ': standard deviation', w.value(lambda: w.get(got, 'std_dev')), sd, pts=pts)
        t = e.resolve(w.value(lambda: w.get(got, 'tag')))
        ck.check(name + ': tag', None if isinstance(t, (Unknown, Phi)) else same(t, tag), 'the tag is %s instead of %s' % (show(t), show(tag)))
        ck.eq(w, name + ': derivative', w.value(lambda: w.deriv(got, got)), 1.0, pts=pts)

    # ------------------------------------------------------------ ufloat((value, std_dev)[, tag])
    vals = {'symbolic': (lambda: w.sym('a'), lambda: sigma('a')), 'integers': (lambda: 3, lambda: 1), 'zero': (lambda: 0.0, lambda: 0.0), 'NaN': (lambda: math.nan, lambda: math.nan), 'symbolic value, exact': (lambda: w.sym('a'), lambda: 0),
            'infinite': (lambda: math.inf, lambda: 1.0), 'infinite std dev': (lambda: 1.0, lambda: math.inf), 'NaN std dev': (lambda: w.sym('a'), lambda: math.nan)}
    tags = {'no tag': None, 'tag': 'a tag', 'empty tag': '', 'number tag': 3}
    for vl, (nf, sf) in vals.items():
        for tl, tag in tags.items():
            def chk(lbl):
                return lambda r: same_var('%s, %s, %s' % (lbl, vl, tl), r, _fl(nf()), _fl(sf()), tag)
            nm = lambda lbl: '%s, %s, %s' % (lbl, vl, tl)
            form(nm('ufloat((value, std_dev), tag)'), lambda: w.call(uf, (nf(), sf())) if tag is None else w.call(uf, (nf(), sf()), tag), True, chk('ufloat((value, std_dev), tag)'))
            if tag is not None: form(nm('ufloat((value, std_dev), tag=...)'), lambda: w.call(uf, (nf(), sf()), tag=tag), True, chk('ufloat((value, std_dev), tag=...)'))
            form(nm('ufloat(value, std_dev, tag)'), lambda: w.call(uf, nf(), sf()) if tag is None else w.call(uf, nf(), sf(), tag), False, chk('ufloat(value, std_dev, tag)'))
            form(nm('ufloat(value, std_dev, tag=...)'), lambda: w.call(uf, nf(), sf(), tag=tag), False, chk('ufloat(value, std_dev, tag=...)'))
            form(nm('ufloat(nominal_value=..., std_dev=...)'), lambda: w.call(uf, nominal_value=nf(), std_dev=sf(), tag=tag), False, chk('ufloat(nominal_value=..., std_dev=...)'))
            if tl in ('tag', 'empty tag'): form(nm('ufloat((value, std_dev), std_dev=tag)'), lambda: w.call(uf, (nf(), sf()), std_dev=tag), True, chk('ufloat((value, std_dev), std_dev=tag)'))

    # ------------------------------------------------------------ ufloat(string[, tag])
    for s in STRINGS:
        for tl, tag in tags.items():
            if tl == 'number tag': continue         # ufloat('3', 2): a value and a standard deviation
            def parsed():
                r = w.value(lambda: w.call(ufs, s))
                return w.value(lambda: w.get(r, 'nominal_value')), w.value(lambda: w.get(r, 'std_dev'))
            try: nom, sd = parsed()
            except Exception as x:
                def fail(): w.value(lambda: w.call(ufs, s))
                if tl == 'no tag': ck.obligation(w, 'ufloat_fromstr(%r)' % s, fail)
                continue
            chk = lambda lbl: (lambda r: same_var('%s of %r, %s' % (lbl, s, tl), r, nom, sd, tag))
            nm = lambda lbl: '%s of %r, %s' % (lbl, s, tl)
            form(nm('ufloat(string, tag)'), lambda: w.call(uf, s) if tag is None else w.call(uf, s, tag), True, chk('ufloat(string, tag)'))
            form(nm('ufloat(string, tag=...)'), lambda: w.call(uf, s, tag=tag), True, chk('ufloat(string, tag=...)'))
            form(nm('ufloat_fromstr(string, tag)'), lambda: w.call(ufs, s, tag), False, chk('ufloat_fromstr(string, tag)'))
            form(nm('ufloat_fromstr(string, tag=...)'), lambda: w.call(ufs, s, tag=tag), False, chk('ufloat_fromstr(string, tag=...)'))

    # ------------------------------------------------------------ invalid input: no result, no warning
    bad = {'a list': lambda: e.new_list([1, 2]), 'an unparsable string': lambda: 'abc', 'an empty string': lambda: '', 'a number alone': lambda: 3.0, 'an integer alone': lambda: 3, 'None': lambda: None, 'an incomplete tuple': lambda: (3,), 'a tuple of strings': lambda: ('a', 'b'),
           'a negative standard deviation': lambda: (3.0, -1.0), 'an empty tuple': lambda: (), 'a dictionary': lambda: e.new_dict([])}
    for bl, bf in bad.items():
        name = 'ufloat(%s)' % bl
        def go():
            n0 = len(warnings())
            ends(ck, w, name + ': refused', lambda: w.call(uf, bf()), 'any',
                 lambda o: ck.check(name + ': no warning', not warnings()[n0:] and o.kind == 'raise', 'the call %s, with %d warning(s)' % ('returns' if o.kind == 'value' else 'raises', len(warnings()[n0:]))))
        ck.obligation(w, name, go)

    # ------------------------------------------------------------ std_dev(), set_std_dev()
    kinds = {'variable': lambda: (w.var('a', sigma=sigma('a')), sym('sa')), 'exact variable': lambda: (w.var('a', sigma=0.0), 0.0), 'NaN standard deviation': lambda: (w.var('a', sigma=math.nan), math.nan),
             'integer standard deviation': lambda: (w.var('a', sigma=2), 2.0),
             'difference': lambda: (w.op('-', w.var('a', sigma=sigma('a')), w.var('b', sigma=0.0)), root(sym('sa'))), 'no variable': lambda: (w.op('*', w.op('-', *[w.var('a')] * 2), 1), 0.0)}
    for kl, mk in kinds.items():
        name = 'std_dev of %s' % kl
        def go():
            x, want = w.value(mk)
            form(name + ' (attribute)', lambda: w.get(x, 'std_dev'), False, lambda r: ck.eq(w, name + ' (attribute)', r, want, pts=pts))
            form(name + ' (call)', lambda: w.call(w.get(x, 'std_dev')), True, lambda r: ck.eq(w, name + ' (call)', r, want, pts=pts))
            form(name + ' (second call)', lambda: (w.call(w.get(x, 'std_dev')), w.call(w.get(x, 'std_dev')))[1], True, lambda r: ck.eq(w, name + ' (second call)', r, want, pts=pts))
            form('std_dev() function of %s' % kl, lambda: w.call(U('std_dev'), x), False, lambda r: ck.eq(w, 'std_dev() function of %s' % kl, r, want, pts=pts))
        ck.obligation(w, name, go)
    news = {'symbolic': (lambda: sigma('b'), sym('sb')), 'zero': (lambda: 0, 0.0), 'integer': (lambda: 3, 3.0), 'NaN': (lambda: math.nan, math.nan), 'infinite': (lambda: math.inf, math.inf)}
    for nl, (nf, want) in news.items():
        for sl in ('0.5', 'zero'):
            name = 'new standard deviation %s of a variable with standard deviation %s' % (nl, sl)
            def go():
                x = w.var('a', sigma=0.5 if sl == '0.5' else 0.0, tag='a tag')
                y = w.op('*', x, 2)
                def both(r):
                    same_var(name, x, w.sym('a'), want, 'a tag')
                    ck.eq(w, name + ': dependent quantity', w.value(lambda: w.get(y, 'std_dev')), root(T('mul', 2.0, want)) if isinstance(want, Term) else 2 * want, pts=pts)
                form(name + ' (set_std_dev())', lambda: w.meth(x, 'set_std_dev', nf()), True, both)
                form(name + ' (attribute)', lambda: e.setattr_(x, 'std_dev', nf()), False, both)
            ck.obligation(w, name, go)
    def neg(how):
        def go():
            x = w.var('a', sigma=0.5)
            ends(ck, w, 'negative standard deviation through ' + how, lambda: w.meth(x, 'set_std_dev', -1.0) if how == 'set_std_dev()' else e.setattr_(x, 'std_dev', -1.0), 'NegativeStdDev')
        return go
    for how in ('set_std_dev()', 'the attribute'): ck.obligation(w, 'negative standard deviation through ' + how, neg(how))

    # ------------------------------------------------------------ uarray, umatrix
    def data(shape):
        L = e.new_list
        a, s = [w.sym(n) for n in 'abcd'], [sigma(n) for n in 'abcd']
        if shape == 'vector': return L(a[:2]), L(s[:2])
        if shape == 'one element': return L(a[:1]), L(s[:1])
        return L([L(a[:2]), L(a[2:])]), L([L(s[:2]), L(s[2:])])
    def arr(v): return w.call(Ext('numpy.array'), v)
    def elements(name, got, n, cls, shape):
        got = e.resolve(got)
        if isinstance(got, (Unknown, Phi)): ck.und(name, 'result not known'); return
        if not np.isarr(got): ck.bad(name, 'the result is no array: %s' % show(got)); return
        o = e.obj(got)
        ck.check(name + ': type', e.issub(o.cls, cls), 'the result is of type %s' % show(o.cls))
        ck.check(name + ': shape', o.f['shape'] == shape, 'the shape is %s' % (o.f['shape'],))
        for i, v in enumerate(np.els(got)):
            same_var('%s: element %d' % (name, i), v, w.sym('abcd'[i]), sigma('abcd'[i]), None)
    shapes = {'vector': (2, (2,), (1, 2)), 'one element': (1, (1,), (1, 1)), 'table': (4, (2, 2), (2, 2))}
    for sl, (n, sh, msh) in shapes.items():
        for conv in ('lists', 'arrays'):
            for fn, cls, s in (('uarray', Ext('numpy.ndarray'), sh), ('umatrix', UN('matrix'), msh)):
                def args():
                    v, d = data(sl)
                    return (arr(v), arr(d)) if conv == 'arrays' else (v, d)
                for fl, expect, call in (('%s((values, std_devs))', True, lambda: w.call(UN(fn), args())), ('%s([values, std_devs])', True, lambda: w.call(UN(fn), e.new_list(list(args())))),
                                         ('%s(values, std_devs)', False, lambda: w.call(UN(fn), *args())), ('%s(nominal_values=..., std_devs=...)', False, lambda: w.call(UN(fn), nominal_values=args()[0], std_devs=args()[1]))):
                    name = (fl % fn) + ', %s of shape %s' % (conv, sl)
                    form(name, call, expect, lambda r: elements(name, r, n, cls, s))
    def mat():
        def sds(name, call, expect):
            def chk(r):
                r = e.resolve(r)
                if not np.isarr(r): (ck.und if isinstance(r, Unknown) else ck.bad)(name, 'the result is no array: %s' % show(r)); return
                ck.check(name + ': shape', e.obj(r).f['shape'] == (2, 2), 'the shape is %s' % (e.obj(r).f['shape'],))
                for i, v in enumerate(np.els(r)): ck.eq(w, '%s: element %d' % (name, i), v, sigma('abcd'[i]), pts=pts)
            form(name, call, expect, chk)
        m = w.value(lambda: w.call(UN('umatrix'), *data('table')))
        sds('std_devs of a matrix (attribute)', lambda: w.get(m, 'std_devs'), False)
        sds('std_devs of a matrix (call)', lambda: w.call(w.get(m, 'std_devs')), True)
    ck.obligation(w, 'std_devs of a matrix', mat)
    return ck.finish('ufloat() with tuples (symbolic and special values), %d string notations and tags, std_dev() and set_std_dev(), uarray() and umatrix() with lists and arrays of three shapes: the obsolete and the current forms, the warnings issued on each path, and invalid input.' % len(STRINGS),
                     ['NumPy follows the model of the parts that are used (vectorize, views, matrices).'])

def root(t): return T('math.sqrt', T('pow', t, 2))
def _fl(v): return float(v) if isinstance(v, (int, float)) else v
