"""Helpers shared by the checks about derivatives of scalar operations."""
import math
from .terms import *
from .field import samples, equal
from . import field

def subst(t, x, y):
    if t is x: return y
    if isinstance(t, Term):
        return T(t.op, *[subst(a, x, y) for a in t.args], ty=t.ty)
    if isinstance(t, Phi): return t
    return t

def strip(t):
    """Remove 0.0 + and * 1.0 wrappers."""
    while isinstance(t, Term):
        c = lambda i, v: not isinstance(t.args[i], Term) and isinstance(t.args[i], (int, float)) and t.args[i] == v
        if t.op == 'add' and c(0, 0): t = t.args[1]
        elif t.op == 'add' and c(1, 0): t = t.args[0]
        elif t.op == 'mul' and c(1, 1): t = t.args[0]
        elif t.op == 'mul' and c(0, 1): t = t.args[1]
        else: return t
    return t

def central_difference(got, f, x, pts):
    """got is (f(x+h) - f(x-h)) / (2h) for some small step h?  True, or None
    (not recognised), or a text when it is another difference quotient."""
    got = strip(got)
    for s in subterms(got):
        if isinstance(s, Term) and s.op == 'add' and len(s.args) == 2:
            for i in (0, 1):
                if s.args[i] is x:
                    h = s.args[1 - i]
                    want = T('div', T('sub', subst(f, x, T('add', x, h)), subst(f, x, T('sub', x, h))), T('mul', 2.0, h))
                    if equal(got, want, ())[0] != 'equal': continue
                    ok = 0
                    for p in pts:
                        try: hv = field.evalt(h, p)
                        except field.NoVal: continue
                        xv = abs(p.get(x, 1.0)) or 1.0
                        if not 1e-13 < hv / xv < 1e-2: return None
                        ok += 1
                    if ok: return True
    return None

def truth_verdict(w, got, want, pts):
    """(True/False/None, explanation): does the abstract value have the truth
    value `want`?"""
    e = w.e
    if isinstance(got, Unknown): return None, ''
    if got is NotImplemented or isinstance(got, Ref) and '_num' not in e.obj(got).f: return False, ''
    t = e.truth(got)
    if isinstance(t, bool): return t == want, ''
    c, pol = t
    agree = 0
    for p in pts:
        h = field.lits_hold(((c, pol),), p)
        if h is None: continue
        if h != want: return False, '; witness %s' % {str(k): v for k, v in p.items()}
        agree += 1
    return None, ''

def field_decider(eng, c):
    """Decide comparisons of terms that are equal (or equal to symbols) in the
    normal form of real arithmetic."""
    if c.op not in ('eq', 'lt', 'le') or len(c.args) != 2: return None
    a, b = c.args
    if not all(isinstance(z, (Term, int, float)) and not (isinstance(z, float) and (z != z or math.isinf(z))) for z in (a, b)): return None
    if any(isinstance(z, Term) and (z.ty not in ('float', 'int', 'num') or has_unknown(z)) for z in (a, b)): return None
    try:
        f = field.Field()
        fa, fb = f.conv(a), f.conv(b)
        if f.eq(fa, fb): return c.op != 'lt'
        def simple(z, fz):
            if not isinstance(z, Term) or z.op == 'sym': return z
            for s in set(s for s in subterms(z) if isinstance(s, Term) and s.op == 'sym'):
                if f.eq(fz, f.conv(s)): return s
            return z
        sa_, sb_ = simple(a, fa), simple(b, fb)
    except (field.NoField, ZeroDivisionError, OverflowError): return None
    if sa_ is a and sb_ is b: return None
    r = eng.mkcmp(c.op, sa_, sb_)
    if isinstance(r, bool): return r
    if r is c or not isinstance(r, Term): return None
    return eng.decide(r)

# ------------------------------------------------------------ a family of related quantities
class Family:
    """Variables x, y; p = f(x, y); q = g(p, x); r = h(q, p), with opaque values
    and derivatives, all unevaluated when created."""
    NAMES = ('x', 'y', 'p', 'q', 'r')
    def __init__(self, w, tag=None):
        from .engine import Native
        self.w, e = w, w.e
        wrap = w.ref('uncertainties.core:wrap')
        def opq(name, *ds):
            for d in ds: w.sym(d)
            w.sym(name)
            return w.call(wrap, Native(lambda *a: sym(name), name), e.new_list([Native(lambda *a, d=d: sym(d), d) for d in ds]))
        self.q = {}
        self.q['x'], self.q['y'] = w.var('x', tag=tag), w.var('y')
        for nm, (a, b), ds in (('p', 'xy', ('da', 'db')), ('q', 'px', ('dc', 'dd')), ('r', 'qp', ('de', 'df'))):
            f = opq(nm, *ds)
            self.q[nm] = w.value(lambda: w.call(f, self.q[a], self.q[b]))
        self.der = {'x': (1.0, 0.0), 'y': (0.0, 1.0), 'p': (sym('da'), sym('db'))}
        S = sym
        A, M = lambda a, b: T('add', a, b), lambda a, b: T('mul', a, b)
        self.der['q'] = (A(M(S('dc'), S('da')), S('dd')), M(S('dc'), S('db')))
        self.der['r'] = tuple(A(M(S('de'), self.der['q'][i]), M(S('df'), self.der['p'][i])) for i in (0, 1))
        self.pts = samples({**{S(n): FIN() for n in ('da', 'db', 'dc', 'dd', 'de', 'df', 'x', 'y', 'p', 'q', 'r')},
                            **{S(n): POS() for n in ('sigma_x', 'sigma_y')}}, 10)
        self.sig = {'x': S('sigma_x'), 'y': S('sigma_y')}

    def verify(self, ck, tag, names=None, q=None, vs=None, sd=True, nominal=None):
        """The quantities have their nominal value, derivatives, std dev."""
        w = self.w
        q = q or self.q
        vs = vs or (self.q['x'], self.q['y'])
        for nm in names or self.NAMES:
            z = q[nm]
            ck.eq(w, '%s: nominal value of %s' % (tag, nm), w.value(lambda: w.get(z, 'nominal_value')), sym(nm), pts=self.pts)
            ck.eq(w, '%s: .n of %s' % (tag, nm), w.value(lambda: w.get(z, 'n')), sym(nm), pts=self.pts)
            for i in (0, 1):
                ck.eq(w, '%s: derivative of %s with respect to %s' % (tag, nm, 'xy'[i]), w.value(lambda: w.deriv(z, vs[i])), self.der[nm][i], pts=self.pts)
            n = self.w.e.resolve(w.value(lambda: w.call(Ext('builtins.len'), w.get(z, 'derivatives'))))
            want = 1 if nm in 'xy' else 2
            if isinstance(n, int): ck.check('%s: number of derivatives of %s' % (tag, nm), n == want, 'there are %d derivatives instead of %d' % (n, want))
            else: ck.und('%s: number of derivatives of %s' % (tag, nm), show(n))
        if sd:
            for i, v in enumerate('xy'):
                ck.eq(w, '%s: standard deviation of %s' % (tag, v), w.value(lambda: w.get(vs[i], 'std_dev')), self.sig[v], pts=self.pts)

# ------------------------------------------------------------ ways of ending
def ends(ck, w, name, fn, raises=None, after=None, site=None):
    """All the ways in which fn() ends agree with the expectation.
    raises: name of the exception type expected on every path, or None for a
    normal return, or 'any'.  after(outcome) is run in every final state.
    Returns the value of the (only) normal outcome, or None."""
    from .report import feasible, safe_msg
    val = None
    outs = w.attempt(fn)
    if not outs: ck.und(name, 'no outcome'); return None
    good = 0
    for o in outs:
        f = feasible(o, w)
        if f is False: continue
        o.enter()
        if o.kind == 'raise':
            n = o.exc_name()
            okk = raises == 'any' or (raises is not None and is_exc(w, o.value, raises))
            if not okk:
                wh = w.e.obj(w.e.resolve(o.value)).site
                msg = 'raises %s (%s) instead of %s' % (n, safe_msg(o), 'returning' if raises is None else raises)
                (ck.bad(name, msg, wh) if f else ck.und(name, msg)); good = -99
        else:
            if raises is not None and raises != 'any':
                msg = 'returns %s instead of raising %s' % (show(o.value), raises)
                (ck.bad(name, msg, site) if f and not has_unknown(o.value) else ck.und(name, msg)); good = -99
            else: val = o
        good += 1
        if after: after(o)
    if good > 0: ck.ok(name)
    return val

def is_exc(w, v, want):
    """The exception object is an instance of the named class (builtin or of
    uncertainties.core)."""
    e = w.e
    if isinstance(want, (list, tuple)): return any(is_exc(w, v, k) for k in want)
    if e.exc_name(v) == want: return True
    try:
        if want in BUILTIN_EXC: return e.isinstance_(v, Ext('builtins.' + want)) is True
        return e.isinstance_(v, w.ref('uncertainties.core:' + want)) is True
    except Exception: return False

BUILTIN_EXC = ('ValueError', 'TypeError', 'ZeroDivisionError', 'OverflowError', 'AttributeError', 'IndexError', 'KeyError', 'ArithmeticError', 'Exception', 'NotImplementedError')
