"""C03: wrap()."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.engine import Native
from sa import field
from sa.field import samples
from sa.fx import ends, subst, is_exc

DRIVER = '''
def f1(a): return a**3 + 2*a
def f2(a, b): return a**3*b + 2*b**3
def f3(a, b, c): return a**3*b + 2*b**3*c - c**3*a + 5*c
def fdef(a, b=1.5, c=2.5): return a**3*b + 2*b**3*c - c**3*a
def fvar(a, *args):
    r = 2*a**3
    n = 3
    for v in args:
        r = r*1.5 + n*v**3*a
        n = n + 1
    return r
def fall(*args):
    r = 1.0
    for v in args: r = r*0.5 + v**3
    return r
def fkw(a, **kw):
    r = 2*a**3
    n = 3
    for k in sorted(kw):
        r = r*1.5 + n*kw[k]**3*a
        n = n + 1
    return r
def fonly(**kw):
    r = 1.0
    for k in sorted(kw): r = r*0.5 + kw[k]**3
    return r
def fko(a, *, k, m=2.0): return a**3*k + 2*k**3*m - m**3
def fmix(a, b, *args, **kw):
    r = a**3*b + 2*b**3
    for v in args: r = r*1.5 + v**3*a
    for k in sorted(kw): r = r*0.5 + kw[k]**3*b
    return r
def fmode(mode, a, b):
    if mode == 'first': return a**3*b
    return b**3*a
def flist(l, a, b=1.0): return a**3*l[0] + b**3*l[1]
def fint(a): return 5
def fbool(a): return True
def fnan(a): return float('nan')
def fnone(a): return None
import numbers, numpy
class Quotient(numbers.Number):
    """Number type (like fractions.Fraction)."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
class Registered(object):
    """Number type registered as such (like decimal.Decimal)."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
numbers.Number.register(Registered)
class Scalar(numpy.generic):
    """NumPy scalar."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
def fquot(a): return Quotient(0.75)
def freg(a): return Registered(0.75)
def fscal(a): return Scalar(0.75)
def flst(a): return [a]
def ftup(a): return (a, a)
def fstr(a): return 'text'
def fobj(a): return object()
def fdict(a): return {1: a}
def fbad(a): raise ValueError('refused')
def fkey(a): raise KeyError('refused')
class K(object):
    def m(self, a, b): return a**3*b + 2*b**3
    @classmethod
    def cm(cls, a, b): return a**3*b + 2*b**3
    @staticmethod
    def sm(a, b): return a**3*b + 2*b**3
k = K()
'''

def hcands(got, x):
    """Steps h of the terms x+h and x-h."""
    out = []
    for s in subterms(got):
        if isinstance(s, Term) and s.op in ('add', 'sub') and len(s.args) == 2:
            for i in (0, 1):
                if s.args[i] is x and (s.op == 'add' or i == 0):
                    h = s.args[1 - i]
                    if not any(same(h, o) for o in out): out.append(h)
    return out

def difference(got, f, x, others, pts):
    """Is got the centred difference quotient of f with respect to x?  True,
    None (not recognised), or the description of a mismatch."""
    if not isinstance(got, Term): return None
    if has_unknown(got): return None
    H = sym('$H')
    g0 = got
    for i, o in enumerate(others):
        if o is x: continue
        for j, h in enumerate(hcands(g0, o)): 
            if isinstance(h, Term): g0 = subst(g0, h, sym('$h%d_%d' % (i, j)))
    want = T('div', T('sub', subst(f, x, T('add', x, H)), subst(f, x, T('sub', x, H))), T('mul', 2.0, H))
    seen = None
    for h in hcands(g0, x):
        if not isinstance(h, Term): continue
        g = subst(g0, h, H)
        n = 0
        bad = None
        for p in pts[:8]:
            for hv in (0.05, 0.21):
                q = dict(p); q[H] = hv
                for i in range(len(others)):
                    for j in range(4): q[sym('$h%d_%d' % (i, j))] = 0.03 + 0.02 * i + 0.005 * j
                try: a, b = field.evalt(g, q), field.evalt(want, q)
                except field.NoVal: continue
                n += 1
                if abs(a - b) > 1e-9 * max(abs(a), abs(b), 1e-3): bad = {'found': a, 'expected': b, 'with step': hv, **{str(k): v for k, v in p.items()}}; break
            if bad: break
        if n and not bad:
            for p in pts[:8]:
                try: hv = abs(field.evalt(h, p))
                except field.NoVal: continue
                xv = abs(p.get(x, 1.0)) or 1.0
                if not 1e-13 < hv / xv < 1e-2: return 'the step is %g for an argument of value %g' % (hv, p.get(x, 0.0))
            return True
        if bad and seen is None: seen = 'is not the centred difference quotient with respect to this argument at the nominal values: %s' % bad
    return seen

def run(tier):
    ck = Check('C03', tier, 'The result of a wrapped function has the value of the function at the nominal values and, for every argument with uncertainty, once, the derivative supplied for its parameter, or the centred difference quotient '
               'with respect to that argument, both at the nominal values; earlier calls do not matter; results that are no numbers give NotImplemented.',
               'abstract interpretation of wrap() on functions of all signatures (value flow of arguments and derivatives; normal forms and evaluation of difference quotients)')
    w = ck.world(mods=('uncertainties', 'verif_driver'), overlay={'verif_driver.py': DRIVER})
    e = w.e
    wrap = w.ref('uncertainties:wrap')
    D = lambda n: w.ref('verif_driver:' + n)
    RNG = Rng(lo=0.5, hi=4.0)
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    pts = samples({**{sym('v%d' % i): RNG for i in range(8)}, **{sym('sigma_v%d' % i): POS() for i in range(8)}, **{sym('dq%d' % i): FIN() for i in range(8)}, **{sym('c%d' % i): RNG for i in range(8)}}, 12)

    # every argument: (object given, nominal value, {variable index: derivative})
    class Args:
        def __init__(self):
            self.vars = {}
        def var(self, i, nom=None):
            if i not in self.vars: self.vars[i] = w.var('v%d' % i, RNG if nom is None else nom)
            return self.vars[i]
        def make(self, kind, i):
            if kind == 'u': return self.var(i), w.sym('v%d' % i, RNG), {i: 1.0}
            if kind == 'x': return self.var(0), w.sym('v0', RNG), {0: 1.0}          # the same variable
            if kind == 'c': s = w.sym('c%d' % i, RNG); return s, s, {}
            if kind == 'i': return 3, 3, {}
            if kind == 'q':       # a quantity that depends on two variables
                w.sym('dq%d' % i); w.sym('v%d' % i, RNG)
                g = w.call(wrap, Native(lambda *a: sym('v%d' % i), 'q'), e.new_list([Native(lambda *a: sym('dq%d' % i), 'dq'), Native(lambda *a: 2.0, 'd2')]))
                return w.call(g, self.var(0), self.var(7)), sym('v%d' % i), {0: sym('dq%d' % i), 7: 2.0}
            if kind == '0': return self.var(i, 0.0), 0.0, {i: 1.0}
            if kind == '-': return self.var(i, -2.5), -2.5, {i: 1.0}
            if kind == '3': return self.var(i, 3), 3.0, {i: 1.0}
            if kind == 'e':     # exact variable
                if i not in self.vars: self.vars[i] = w.var('v%d' % i, RNG, sigma=0.0)
                return self.vars[i], w.sym('v%d' % i, RNG), {i: 1.0}
            if kind == 's': return 'first', 'first', {}
            if kind == 'l':
                l = e.new_list([w.sym('c6', RNG), w.sym('c7', RNG)]); return l, l, {}
            raise KeyError(kind)

    def supplied(n, log):
        """A derivative: distinct for every parameter, dependent on the values."""
        def d(*a, **k):
            log.append((n, a, dict(k)))
            r = float(n + 2)
            j = 0
            for v in list(a) + [k[x] for x in sorted(k)]:
                j += 1
                v = e.resolve(v)
                if isinstance(v, (Term, int, float)): r = T('add', r, T('mul', 0.25 * j + n, v))
            return r
        return Native(d, 'derivative%d' % n)

    def run_calls(name, fname, dlist, dkw, form, calls, between=None):
        """calls: list of (positional kinds, {name: kind}); every result is
        verified after all the calls."""
        def go():
            log = []
            f = w.value(lambda: D(fname))
            ds = [supplied(i, log) if d else None for i, d in enumerate(dlist)]
            inf = form == 'infinite'
            if inf:
                c = w.call(Ext('itertools.chain'), e.new_list(ds), w.call(Ext('itertools.repeat'), supplied(len(ds), log)))
            else: c = {'list': e.new_list, 'tuple': tuple, 'iterator': lambda l: w.call(Ext('builtins.iter'), e.new_list(l))}[form](ds)
            kd = {n: supplied(40 + ord(n[0]), log) if d else None for n, d in dkw.items()}
            if dkw: g = w.value(lambda: w.call(wrap, f, c, e.new_dict(list(kd.items()))))
            elif dlist or inf: g = w.value(lambda: w.call(wrap, f, c))
            else: g = w.value(lambda: w.call(wrap, f))
            other = w.value(lambda: w.call(wrap, D('fkw'))) if between else None
            results = []
            params = {'f1': ['a'], 'f2': ['a', 'b'], 'f3': ['a', 'b', 'c'], 'fdef': ['a', 'b', 'c'], 'fvar': ['a'], 'fkw': ['a'], 'fko': ['a'], 'fmix': ['a', 'b'], 'fmode': ['mode', 'a', 'b'], 'flist': ['l', 'a', 'b'],
                      'k.m': ['a', 'b'], 'k.cm': ['a', 'b'], 'k.sm': ['a', 'b'], 'K.cm': ['a', 'b'], 'K.sm': ['a', 'b']}.get(fname, [])
            for ci, (pos, kw) in enumerate(calls):
                A = Args()
                pa = [A.make(k, i) for i, k in enumerate(pos)]
                ka = {n: A.make(k, len(pos) + j) for j, (n, k) in enumerate(sorted(kw.items()))}
                if between:
                    w.value(lambda: w.call(other, w.var('o%d' % ci), **{n: w.var('k%d%s' % (ci, n)) for n in 'bkm'}))
                n0 = len(log)
                r = w.value(lambda: w.call(g, *[p[0] for p in pa], **{n: v[0] for n, v in ka.items()}))
                noms, knoms = [p[1] for p in pa], {n: v[1] for n, v in ka.items()}
                for (dn, a_, k_) in log[n0:]:
                    okk = len(a_) == len(noms) and set(k_) == set(knoms)
                    if not okk: ck.bad(name, 'a supplied derivative is called with %d positional arguments and the keywords %s' % (len(a_), sorted(k_)))
                results.append((ci, A, pa, ka, r, noms, knoms))
            for ci, A, pa, ka, r, noms, knoms in results:
                nm = name if len(calls) == 1 else '%s, call %d' % (name, ci + 1)
                want = w.value(lambda: w.call(f, *noms, **knoms))
                if w.is_uncert(r) is not True:
                    (ck.und if isinstance(r, Unknown) else ck.bad)(nm, 'the result is no number with uncertainty: %s' % show(r)); continue
                ck.eq(w, nm + ': nominal value', w.value(lambda: w.get(r, 'nominal_value')), want, pts=pts)
                # contributions
                contrib = []
                for i, p in enumerate(pa):
                    d = None
                    if i < len(dlist): d = ds[i]
                    elif inf: d = 'last'
                    contrib.append((p, d, i, None))
                for n, p in ka.items():
                    if n in params: 
                        i = params.index(n); d = ds[i] if i < len(dlist) else ('last' if inf else None)
                    else: d = kd.get(n)
                    contrib.append((p, d, None, n))
                allv = [p[1] for p, *_ in contrib if p[2] and isinstance(p[1], Term)]
                for vi, v in A.vars.items():
                    got = w.value(lambda: w.deriv(r, v))
                    mine = [(p, d, i, n) for p, d, i, n in contrib if vi in p[2]]
                    lbl = '%s: derivative with respect to %s' % (nm, ', '.join('argument %s' % (i if n is None else n) for p, d, i, n in mine))
                    def dval(d):
                        if d == 'last': return supplied(len(ds), []).fn(*noms, **knoms)
                        return d.fn(*noms, **knoms)
                    if all(d is not None for p, d, i, n in mine):
                        tot = 0.0
                        for p, d, i, n in mine: tot = T('add', tot, T('mul', dval(d), p[2][vi]))
                        ck.eq(w, lbl, got, tot, pts=pts)
                        continue
                    if len(mine) == 1 and mine[0][0][2][vi] == 1.0 and isinstance(mine[0][0][1], Term):
                        p, d, i, n = mine[0]
                        ls = list(leaves(got))
                        for gl, leaf in ls:
                            if gl and not any(field.lits_hold(gl, q) for q in pts): continue
                            lp = [q for q in pts if not gl or field.lits_hold(gl, q)]
                            v_ = difference(leaf, want, p[1], allv, lp)
                            if v_ is True: ck.ok(lbl, 'centred difference quotient', leaf.site if isinstance(leaf, Term) else None)
                            elif v_ is not None: ck.bad(lbl, v_, leaf.site)
                            else: approx(lbl, leaf, deriv_sum(mine, want, dval, noms, knoms, f, vi), lp)
                        continue
                    approx(lbl, got, deriv_sum(mine, want, dval, noms, knoms, f, vi), pts)
        ck.obligation(w, name, go)

    def deriv_sum(mine, want, dval, noms, knoms, f, vi):
        """The exact sum of the contributions, calculated with a small step."""
        tot = 0.0
        H = 1e-4
        for p, d, i, n in mine:
            if d is not None: t = dval(d)
            else:
                def at(s):
                    if n is None:
                        a = list(noms); a[i] = T('add', noms[i], s) if isinstance(noms[i], Term) else noms[i] + s
                        return w.value(lambda: w.call(f, *a, **knoms))
                    k = dict(knoms); k[n] = T('add', knoms[n], s) if isinstance(knoms[n], Term) else knoms[n] + s
                    return w.value(lambda: w.call(f, *noms, **k))
                t = T('div', T('sub', at(H), at(-H)), 2 * H)
            tot = T('add', tot, T('mul', t, p[2][vi]))
        return tot

    def approx(lbl, got, want, pts):
        """Numerical agreement (used where the quotient is not recognised as such)."""
        n = 0
        for gl, leaf in leaves(got):
            if has_unknown(leaf): ck.und(lbl, 'not known'); return
            if isinstance(leaf, Ref): leaf = e.numify(leaf)
            if not isinstance(leaf, (Term, int, float)): ck.bad(lbl, 'the derivative is %s' % show(leaf)); return
            for p in pts:
                if gl and field.lits_hold(gl, p) is not True: continue
                try: a, b = field.evalt(leaf, p), field.evalt(want, p)
                except field.NoVal: continue
                n += 1
                if not abs(a - b) <= 1e-5 * max(abs(a), abs(b), 1.0):
                    ck.bad(lbl, 'found %s: %g instead of %g; witness %s' % (show(leaf), a, b, {str(k): v for k, v in p.items()}), leaf.site if isinstance(leaf, Term) else None); return
        if n: ck.ok(lbl, 'agrees at %d points with the difference quotient' % n)
        else: ck.und(lbl, 'no sample')

    thorough = tier == 'thorough'
    # ------------------------------------------------------------ all signatures
    sigs = {
        'f1': ([('u',), ('q',), ('0',), ('-',), ('3',), ('e',)], [{'a': k} for k in 'uq0-']),
        'f2': ([p for p in itertools.product('uc', repeat=2) if 'u' in p] + [('u', 'q'), ('q', 'u'), ('x', 'x'), ('x', 'q'), ('i', 'u'), ('u', 'i'), ('0', 'u'), ('u', '-'), ('e', 'u'), ('3', '0')], None),
        'f3': ([p for p in itertools.product('uc', repeat=3) if 'u' in p] + [('x', 'u', 'x'), ('q', 'x', 'u'), ('x', 'x', 'x'), ('u', 'i', 'q')], None),
        'fdef': ([('u',), ('u', 'u'), ('c', 'u'), ('u', 'c', 'u'), ('u', 'u', 'u'), ('x', 'x')], None),
        'fvar': ([('u',), ('u', 'u'), ('c', 'u', 'u'), ('u', 'c', 'u', 'u'), ('x', 'u', 'x'), ('c', 'c', 'c', 'u')], None),
        'fall': ([('u',), ('u', 'u'), ('c', 'u', 'c', 'u'), ('u', 'u', 'u', 'u', 'u'), ('x', 'x', 'x')], None),
    }
    def named(f, dl, kwd, form, pos, kw):
        return 'wrap(%s, %s%s%s)(%s)' % (f, form + ' ' if dl or form == 'infinite' else '', [('d%d' % i if d else None) for i, d in enumerate(dl)], ', %s' % {k: ('d' + k if v else None) for k, v in kwd.items()} if kwd else '',
                                         ', '.join(list(pos) + ['%s=%s' % (k, v) for k, v in kw.items()]))
    for f, (poss, _) in sigs.items():
        n = max(len(p) for p in poss)
        dls = [[], [1], [0], [1] * n, [0] * n, [0] + [1] * (n - 1), [1] * (n - 1) + [0], [1, 0]] + ([[0, 1]] if n > 1 else [])
        dls = [list(x) for x in sorted({tuple(d[:n + 1]) for d in dls})]
        for dl in dls:
            forms = ('list', 'tuple', 'iterator') if len(dl) == n else ('list',)
            for form in forms:
                for pos in poss: run_calls(named(f, dl, {}, form, pos, {}), f, dl, {}, form, [(pos, {})])
        for pos in poss: run_calls(named(f, [1], {}, 'infinite', pos, {}), f, [1], {}, 'infinite', [(pos, {})])
    # keyword arguments for positional parameters
    kws = {
        'f1': [((), {'a': 'u'}), ((), {'a': 'q'})],
        'f2': [((), {'a': 'u', 'b': 'u'}), (('u',), {'b': 'u'}), (('c',), {'b': 'u'}), ((), {'a': 'c', 'b': 'u'}), ((), {'a': 'u', 'b': 'c'}), (('x',), {'b': 'x'}), (('x',), {'b': 'q'}), (('u',), {'b': '0'})],
        'f3': [((), {'a': 'u', 'b': 'u', 'c': 'u'}), (('u',), {'b': 'c', 'c': 'u'}), (('c', 'u'), {'c': 'u'}), (('x',), {'c': 'x', 'b': 'u'}), (('u',), {'c': 'u', 'b': 'u'})],
        'fdef': [(('u',), {'c': 'u'}), (('u',), {'b': 'u'}), ((), {'a': 'c', 'c': 'u'}), (('u', 'c'), {'c': 'u'})],
    }
    for m in ('k.m', 'k.cm', 'K.cm', 'k.sm', 'K.sm'): kws[m] = kws['f2'] + [(('u', 'u'), {}), (('c', 'u'), {})]
    for f, cs in kws.items():
        n = {'f1': 1, 'f2': 2, 'f3': 3, 'fdef': 3}.get(f, 2)
        for dl in ([], [1] * n, [0] * n, [0] + [1] * (n - 1), [1] * (n - 1) + [0]):
            for form in (('list', 'iterator') if dl else ('list',)):
                for pos, kw in cs: run_calls(named(f, dl, {}, form, pos, kw), f, dl, {}, form, [(pos, kw)])
    # keyword parameters
    ko = {
        'fkw': ([(('u',), {'k': 'u'}), (('c',), {'k': 'u'}), (('u',), {'k': 'c', 'm': 'u'}), (('u',), {'k': 'u', 'm': 'u'}), (('c',), {'m': 'u'}), (('x',), {'k': 'x', 'm': 'q'}), (('c',), {'k': '0'}), ((), {'a': 'u', 'k': 'u'})], [[], [1], [0]]),
        'fonly': ([((), {'k': 'u'}), ((), {'k': 'u', 'm': 'u'}), ((), {'k': 'c', 'm': 'u', 'z': 'u'}), ((), {'k': 'x', 'm': 'x'})], [[]]),
        'fko': ([(('u',), {'k': 'u'}), (('c',), {'k': 'u'}), (('u',), {'k': 'c', 'm': 'u'}), ((), {'a': 'u', 'k': 'u', 'm': 'u'}), (('x',), {'k': 'x'})], [[], [1], [0]]),
        'fmix': ([(('u', 'u'), {}), (('u', 'c', 'u'), {'k': 'u'}), (('c', 'u', 'c', 'u'), {'m': 'u', 'k': 'c'}), (('x', 'x', 'x'), {'k': 'x'})], [[], [1, 0], [0, 1, 1], [1, 1, 0, 1]]),
    }
    for f, (cs, dls) in ko.items():
        for dl in dls:
            for kwd in ({}, {'k': 1}, {'k': 0}, {'k': 1, 'm': 1}, {'k': 0, 'm': 1}, {'m': 0}, {'k': 1, 'm': 0, 'z': 1}):
                for pos, kw in cs: run_calls(named(f, dl, kwd, 'list', pos, kw), f, dl, kwd, 'list', [(pos, kw)])
    # arguments that are not numbers
    for f, cs in {'fmode': [(('s', 'u', 'u'), {}), (('s', 'c', 'u'), {}), (('s',), {'a': 'u', 'b': 'u'}), ((), {'mode': 's', 'a': 'u', 'b': 'c'})], 'flist': [(('l', 'u'), {}), (('l', 'u', 'u'), {}), (('l', 'u'), {'b': 'u'}), ((), {'l': 'l', 'a': 'c', 'b': 'u'})]}.items():
        for dl in ([], [0], [0, 1, 1], [0, 0, 1], [0, 1]):
            for pos, kw in cs: run_calls(named(f, dl, {}, 'list', pos, kw), f, dl, {}, 'list', [(pos, kw)])

    # ------------------------------------------------------------ sequences of calls
    seqs = {
        'f2': [[(('u', 'c'), {}), (('c', 'u'), {}), (('u', 'u'), {})], [(('u', 'u'), {}), ((), {'a': 'u', 'b': 'u'}), (('u',), {'b': 'u'})], [((), {'a': 'u', 'b': 'c'}), ((), {'a': 'c', 'b': 'u'}), (('u', 'u'), {})], [(('u', 'u'), {})] * 3],
        'f3': [[(('c', 'c', 'u'), {}), (('u', 'c', 'c'), {}), (('c', 'u', 'c'), {}), (('u', 'u', 'u'), {})], [((), {'a': 'u', 'b': 'u', 'c': 'u'}), (('u', 'u', 'u'), {}), (('c',), {'c': 'u', 'b': 'c'})]],
        'fvar': [[(('u',), {}), (('u', 'u', 'u'), {}), (('c', 'u'), {})], [(('c', 'c', 'c', 'u'), {}), (('u',), {}), (('u', 'u', 'u', 'u'), {})], [(('c', 'u', 'u'), {}), (('c', 'u', 'u'), {})]],
        'fall': [[(('c', 'c', 'u'), {}), (('u', 'c'), {}), (('u', 'u', 'u', 'u'), {})]],
        'fkw': [[(('c',), {'k': 'u'}), (('c',), {'m': 'u'}), (('u',), {'k': 'u', 'm': 'u'})], [(('u',), {'m': 'u'}), (('u',), {'m': 'u'}), (('c',), {'k': 'u', 'z': 'u'})]],
        'fko': [[(('u',), {'k': 'u'}), (('c',), {'k': 'u'}), (('u',), {'k': 'c', 'm': 'u'})]],
        'fdef': [[(('u',), {'c': 'u'}), (('u', 'u'), {}), (('u',), {'b': 'u'})]],
    }
    for f, ss in seqs.items():
        for si, calls in enumerate(ss):
            n = 4
            for dl in ([], [1], [0, 1], [1, 0, 1], [1] * n):
                for kwd in ({}, {'k': 1}, {'k': 0, 'm': 1}) if f in ('fkw', 'fko') else ({},):
                    for form in (('list', 'iterator', 'infinite') if dl else ('list',)):
                        if form == 'infinite' and f in ('fkw', 'fko'): continue
                        for between in (False, True):
                            run_calls('wrap(%s, %s %s%s), sequence %d%s' % (f, form, [('d%d' % i if d else None) for i, d in enumerate(dl)], ', %s' % kwd if kwd else '', si + 1, ', with other wrapped functions called in between' if between else ''), f, dl, kwd, form, calls, between)

    # ------------------------------------------------------------ results
    for f in ('fnone', 'flst', 'ftup', 'fstr', 'fobj', 'fdict'):
        for dl in ([], [1], [0]):
            for kw in (False, True):
                name = 'wrap(%s, %s)(%s): no number' % (f, dl, 'a=u' if kw else 'u')
                def go():
                    ds = e.new_list([supplied(i, []) if d else None for i, d in enumerate(dl)])
                    g = w.value(lambda: w.call(wrap, D(f), ds))
                    v = w.var('v0')
                    o = ends(ck, w, name, lambda: w.call(g, a=v) if kw else w.call(g, v), None)
                    if o is None: return
                    o.enter(); r = e.resolve(o.value)
                    if isinstance(r, (Unknown, Phi)): ck.und(name)
                    else: ck.check(name, r is NotImplemented, 'returns %s instead of NotImplemented' % show(r))
                ck.obligation(w, name, go)
    for f, want in (('fint', 5.0), ('fbool', 1.0), ('fnan', math.nan), ('fquot', 0.75), ('freg', 0.75), ('fscal', 0.75)):
        name = 'wrap(%s)(u)' % f
        def go():
            v = w.var('v0')
            r = w.value(lambda: w.call(w.call(wrap, D(f), e.new_list([supplied(0, [])])), v))
            if w.is_uncert(r) is not True: ck.bad(name, 'the result is no number with uncertainty: %s' % show(r)); return
            ck.eq(w, name + ': nominal value', e.numify(w.value(lambda: w.get(r, 'nominal_value'))), want, pts=pts)
        ck.obligation(w, name, go)
    for f, exc in (('fbad', 'ValueError'), ('fkey', 'KeyError')):
        name = 'wrap(%s)(u): exception of the function' % f
        def go():
            v = w.var('v0')
            g = w.value(lambda: w.call(wrap, D(f)))
            ends(ck, w, name, lambda: w.call(g, v), exc)
        ck.obligation(w, name, go)
    return ck.finish('Functions of %d signatures (positional, default, variadic, keyword-only and arbitrary keyword parameters, methods), with no, some or all the derivatives given as lists, tuples, finite and infinite iterators and keyword dictionaries, '
                     'called with variables, shared variables, calculated quantities, exact variables and plain arguments at every position, once and in sequences.' % (len(sigs) + len(kws) + len(ko) - 3),
                     ['The wrapped functions and the derivatives are pure functions of their arguments.'])
