"""C07: a variable never has a negative standard deviation."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.fx import ends
from sa.field import samples

def run(tier):
    ck = Check('C07', tier, 'Every public way of giving a standard deviation to a variable raises NegativeStdDev for every negative value and leaves the variable as it was; any other '
               'value is stored unchanged.',
               'abstract interpretation of all the entry points that set a standard deviation, over a partition of the extended reals')
    w = ck.world(numpy=True, mods=('uncertainties', 'uncertainties.unumpy'))
    e = w.e
    np = e.lib.npm()
    UA, UM = (w.ref('uncertainties.unumpy:' + n) for n in ('uarray', 'umatrix'))
    L = lambda *a: e.new_list(list(a))
    idx = lambda a, *k: e.getitem(a, k if len(k) > 1 else k[0])
    ref = lambda p: w.ref('uncertainties:' + p)
    core = lambda p: w.ref('uncertainties.core:' + p)
    S = sym('s')
    def optional(f):
        try: return f()
        except AnchorMissing: return None
    new = {
        'ufloat(v, s)': lambda v, s: w.call(ref('ufloat'), v, s),
        'ufloat(v, s, tag)': lambda v, s: w.call(ref('ufloat'), v, s, 'a'),
        'ufloat(v, std_dev=s)': lambda v, s: w.call(ref('ufloat'), v, std_dev=s),
        'Variable(v, s)': lambda v, s: w.call(core('Variable'), v, s),
        'ufloat((v, s)) (obsolete)': lambda v, s: w.call(ref('ufloat'), (v, s)),
        'uarray([v], [s])[0]': lambda v, s: idx(w.call(UA, L(v), L(s)), 0),
        'uarray([v, v], [1, s])[1]': lambda v, s: idx(w.call(UA, L(v, v), L(1.0, s)), 1),
        'uarray([[v], [v]], [[1], [s]])[1, 0]': lambda v, s: idx(w.call(UA, L(L(v), L(v)), L(L(1.0), L(s))), 1, 0),
        'uarray(([v], [s]))[0] (obsolete)': lambda v, s: idx(w.call(UA, (L(v), L(s))), 0),
        'umatrix([[v]], [[s]])[0, 0]': lambda v, s: idx(w.call(UM, L(L(v)), L(L(s))), 0, 0),
    }
    old = {
        'x.std_dev = s': lambda x, s: e.setattr_(x, 'std_dev', s),
        'x.set_std_dev(s) (obsolete)': lambda x, s: w.meth(x, 'set_std_dev', s),
        'setattr(x, "std_dev", s)': lambda x, s: w.call(Ext('builtins.setattr'), x, 'std_dev', s),
    }
    def symf(rng):
        def f():
            e.regions[S] = rng
            return S
        return f
    ksym = sym('k', 'int')
    def symi(rng):
        def f():
            e.regions[ksym] = rng
            return ksym
        return f
    neg = [('a negative float', symf(NEG())), ('-inf', lambda: -math.inf), ('a negative integer', symi(Rng(-math.inf, -1, False, True, int=True))), ('-1e-320', lambda: -1e-320), ('-5e-324', lambda: -5e-324), ('-1', lambda: -1)]
    good = [('a positive float', symf(POS())), ('zero', lambda: 0.0), ('the integer zero', lambda: 0), ('inf', lambda: math.inf), ('NaN', lambda: math.nan), ('minus zero', lambda: -0.0),
            ('a positive integer', symi(Rng(1, math.inf, True, False, int=True))), ('5e-324', lambda: 5e-324), ('1e308', lambda: 1e308), ('True', lambda: True)]
    pts = samples({S: POS(), ksym: Rng(1, 1000, int=True), sym('x'): FIN(), sym('sigma_x'): POS()}, 20)
    ptn = samples({S: NEG(), ksym: Rng(-1000, -1, int=True), sym('x'): FIN(), sym('sigma_x'): POS()}, 20)

    def stored(name, x, want, pts):
        got = w.value(lambda: w.get(x, 'std_dev'))
        ck.eq(w, name, got, want, pts=pts)
        comp = w.value(lambda: w.get(x, '_std_dev', None)) if False else None
        got = w.value(lambda: w.call(core('std_dev'), x))
        ck.eq(w, name + ' [std_dev(x)]', got, want, pts=pts)

    for lab, f in new.items():
        for sl, s in neg:
            def go(): ends(ck, w, '%s with s = %s' % (lab, sl), lambda: f(w.sym('v'), s()), 'NegativeStdDev')
            ck.obligation(w, '%s with s = %s' % (lab, sl), go)
        for sl, s in good:
            def go():
                sv = s()
                o = ends(ck, w, '%s with s = %s' % (lab, sl), lambda: f(w.sym('v'), sv), None)
                if o is None: return
                o.enter()
                stored('%s with s = %s: value stored' % (lab, sl), o.value, sv, pts)
                ck.eq(w, '%s with s = %s: nominal value' % (lab, sl), w.value(lambda: w.get(o.value, 'nominal_value')), sym('v'), pts=[dict(p, **{}) | {sym('v'): 1.5} for p in pts])
            ck.obligation(w, '%s with s = %s' % (lab, sl), go)
    for lab, f in new.items():
        for vl, v in (('NaN', math.nan), ('inf', math.inf), ('-inf', -math.inf), ('0', 0.0), ('-0', -0.0), ('1', 1), ('True', True), ('1e308', 1e308)):
            for sl, s in neg[:3] + good[:6]:
                name = '%s with v = %s and s = %s' % (lab, vl, sl)
                def go():
                    sv = s()
                    bad_ = (sl, s) in neg
                    o = ends(ck, w, name, lambda: f(v, sv), 'NegativeStdDev' if bad_ else None)
                    if o and not bad_: o.enter(); stored(name + ': value stored', o.value, sv, pts)
                ck.obligation(w, name, go)
    for vl, v in (('NaN', math.nan), ('inf', math.inf), ('0', 0.0)):
        for lab, f in old.items():
            for sl, s in neg[:3]:
                name = '%s with s = %s, nominal value %s' % (lab, sl, vl)
                def go():
                    x = w.var('x', v)
                    ends(ck, w, name, lambda: f(x, s()), 'NegativeStdDev', lambda o: stored(name + ': previous value kept', x, sym('sigma_x'), ptn))
                ck.obligation(w, name, go)
    starts = [('sigma', None), ('0', 0.0), ('inf', math.inf), ('NaN', math.nan)]
    for lab, f in old.items():
        for st, sg in starts:
            for sl, s in neg:
                name = '%s with s = %s (previous value %s)' % (lab, sl, st)
                def go():
                    x = w.var('x', sigma=sg)
                    if sg is None: sig = sym('sigma_x')
                    else: sig = sg
                    def after(o):
                        stored(name + ': previous value kept', x, sig, ptn)
                        o2 = ends(ck, w, name + ', then a valid value', lambda: f(x, 0.25), None)
                        if o2: o2.enter(); stored(name + ', then a valid value: stored', x, 0.25, ptn)
                    ends(ck, w, name, lambda: f(x, s()), 'NegativeStdDev', after)
                ck.obligation(w, name, go)
            for sl, s in good:
                name = '%s with s = %s (previous value %s)' % (lab, sl, st)
                def go():
                    x = w.var('x', sigma=sg)
                    sv = s()
                    o = ends(ck, w, name, lambda: f(x, sv), None)
                    if o: o.enter(); stored(name + ': stored', x, sv, pts)
                    # a negative value afterwards is refused as well
                    ends(ck, w, name + ', then -1', lambda: f(x, -1.0), 'NegativeStdDev', lambda o: stored(name + ', then -1: kept', x, sv, pts))
                ck.obligation(w, name, go)
    # copies have setters of their own
    for lab, cp in (('copy.copy', 'copy.copy'), ('copy.deepcopy', 'copy.deepcopy')):
        for sl, s in neg[:3]:
            name = '%s(x).std_dev = %s' % (lab, sl)
            def go():
                x = w.var('x')
                c = w.value(lambda: w.call(Ext(cp), x))
                ends(ck, w, name, lambda: e.setattr_(c, 'std_dev', s()), 'NegativeStdDev', lambda o: (stored(name + ': kept', c, sym('sigma_x'), ptn), stored(name + ': original', x, sym('sigma_x'), ptn)))
            ck.obligation(w, name, go)
    # strings
    fs = ref('ufloat_fromstr')
    for text, want in (('1.5+/--0.2', None), ('1.5+/-0.2', 0.2), ('1.5+/-0', 0.0), ('1.5+/-inf', math.inf), ('1.5+/--inf', None), ('1.5(2)', 0.2), ('-1.5(2)', 0.2), ('-1.5', 0.1), ('(-1.5+/--2)e3', None)):
        name = 'ufloat_fromstr(%r)' % text
        def go():
            o = ends(ck, w, name, lambda: w.call(fs, text), 'NegativeStdDev' if want is None else None)
            if o: o.enter(); stored(name + ': stored', o.value, want, pts)
        ck.obligation(w, name, go)
    return ck.finish('All the constructors, the setter, the obsolete method and the string parser are interpreted abstractly for each class of standard deviations: negative '
                     '(float, integer, -inf, subnormal), zero, -0, positive, +inf, NaN, from several previous values.', [])
