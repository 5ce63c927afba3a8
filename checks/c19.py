"""C19: parsing of numbers with uncertainties."""
import itertools, math, random
from sa.terms import *
from sa.report import Check
from sa.lib import abs_digit, abs_super
from sa import field
from sa.digits import split

class Txt:
    """A text with abstract digits, and the value it denotes (a term in the digits)."""
    def __init__(self): self.k = 0
    def run(self, n, sup=False):
        """n new digits: (text, value)."""
        v, s = 0, ''
        for i in range(n):
            s += (abs_super if sup else abs_digit)(self.k)
            d = sym('d%d' % self.k, 'int'); self.k += 1
            v = d if i == 0 else T('add', T('mul', 10, v, ty='int'), d, ty='int')
        return s, v
    def number(self, ni, nd):
        """Digits with ni integer digits and nd decimals (None: no point): (text, value, decimals)."""
        s, v = self.run(ni + (nd or 0))
        if nd is None: return s, v, 0
        return s[:ni] + '.' + s[ni:], T('div', v, 10.0 ** nd) if ni + nd else 0.0, nd
    def exponent(self, kind):
        """(text, value of the factor)."""
        if kind == '': return '', None
        sup = kind.startswith('x')
        neg = '-' in kind
        n = 2 if kind.endswith('2') else 1
        s, v = self.run(n, sup)
        head = {'e': 'e', 'E': 'E', 'x': '\xd710', 'X': ' \xd7 10'}[kind[0]] if not kind.startswith('xs') else ' \xd7 10'
        sgn = '\u207b' if sup and neg else '-' if neg else '\u207a' if sup and '+' in kind else '+' if '+' in kind else ''
        return head + sgn + s, T('pow', 10.0, T('neg', v, ty='int') if neg else v)

def mulf(v, *fs):
    for f in fs:
        if f is None or isinstance(v, float) and (v != v or math.isinf(v)): continue
        v = T('mul', v, f)
    return v

EXPS = ['', 'e1', 'e-1', 'e+2', 'E2', 'E-2', 'x1', 'x-1', 'x2', 'xs-2', 'x+2']
MAINS = [(1, None), (2, None), (4, None), (1, 0), (3, 0), (1, 1), (1, 2), (2, 3), (1, 5), (0, 1), (0, 3), (5, 4)]
SHORT = [(1, None), (1, 2), (0, 2), (2, 0), (3, None)]
UNC = [(1, None), (2, None), (3, None), (1, 1), (1, 0), (0, 1), (0, 2), (2, 3)]
SPECIAL = {'nan': math.nan, 'NAN': math.nan, 'inf': math.inf, 'INF': math.inf}
SIGNS = ['', '-', '+']

def cases(full):
    """(group, text, nominal value, uncertainty)."""
    def sg(s, v): return T('neg', v) if s == '-' and not isinstance(v, float) else -v if s == '-' else v
    def shorthand(t, s, m, u, ex):
        """V, V(U) and their exponent."""
        if isinstance(m, str): ms, mv, dec = m, SPECIAL[m], 0
        else: ms, mv, dec = t.number(*m)
        if u is None: us, uv = '', T('div', 1.0, 10.0 ** dec)
        elif isinstance(u, str): us, uv = '(%s)' % u, SPECIAL[u]
        else:
            x, uv, _ = t.number(*u)
            us = '(%s)' % x
            if u[1] is None: uv = T('div', uv, 10.0 ** dec)
        es, f = t.exponent(ex)
        return s + ms + us + es, mulf(sg(s, mv), f), mulf(uv, f)
    def part(t, s, m, ex):
        if isinstance(m, str): return s + m, sg(s, {'nan': math.nan, 'inf': math.inf, 'NaN': math.nan, 'Inf': math.inf, 'NAN': math.nan, 'INF': math.inf, 'infinity': math.inf}[m])
        ms, mv, _ = t.number(*m); es, f = t.exponent(ex)
        return s + ms + es, mulf(sg(s, mv), f)
    PM = ['+/-', ' +/- ', '\xb1', ' \xb1 ']
    def pm(t, s, m, e1, p, u, e2):
        a, v = part(t, s, m, e1); b, x = part(t, '', u, e2)
        return a + p + b, v, x
    # number alone, shorthand notation
    for s, m, ex in itertools.product(SIGNS, MAINS, EXPS):
        t = Txt(); yield ('number alone',) + shorthand(t, s, m, None, ex)
    for s, m, u, ex in itertools.product(SIGNS, MAINS, UNC + list(SPECIAL), EXPS):
        if not full and (EXPS.index(ex) + MAINS.index(m) + SIGNS.index(s)) % 3 and ex not in ('', 'e-1'): continue
        t = Txt(); yield ('shorthand',) + shorthand(t, s, m, u, ex)
    for s, m, u, ex in itertools.product(SIGNS, SPECIAL, [(1, 1), (0, 2), 'nan', 'inf', 'NAN', 'INF'], EXPS[:4]):
        t = Txt(); yield ('shorthand, special value',) + shorthand(t, s, m, u, ex)
    # value +/- uncertainty
    for i, (s, m, e1, p, u, e2) in enumerate(itertools.product(SIGNS, MAINS, EXPS, PM, UNC, EXPS)):
        if i % (37 if full else 149): continue
        t = Txt(); yield ('+/-',) + pm(t, s, m, e1, p, u, e2)
    for s, m, p, u in itertools.product(SIGNS, MAINS, PM[:1] + PM[3:], UNC):
        t = Txt(); yield ('+/-',) + pm(t, s, m, '', p, u, '')
    for s, p in itertools.product(SIGNS, PM):
        for m, u in itertools.product([(1, 2), 'nan', 'inf', 'NaN', 'Inf'], [(1, 2), 'nan', 'inf', 'NaN', 'NAN', 'INF', 'infinity']):
            for e1 in ('', 'e2'):
                t = Txt(); yield ('+/-, special value',) + pm(t, s, m, e1, p, u, '')
    # factored exponent and outer parentheses
    for s, m, p, u, g in itertools.product(SIGNS, SHORT + ['nan', 'inf'], PM, UNC[:6] + ['nan', 'inf'], EXPS):
        if not full and (EXPS.index(g) + PM.index(p)) % 4 and g != 'e-1': continue
        t = Txt(); txt, v, x = pm(t, s, m, '', p, u, '')
        gs, f = t.exponent(g)
        yield ('factored exponent' if g else 'outer parentheses', '(%s)%s' % (txt, gs), mulf(v, f), mulf(x, f))
    for s, m, e1, e2, g in itertools.product(SIGNS, SHORT[:3], EXPS[1:], EXPS[:8], EXPS[1:]):
        if (EXPS.index(e1) + 2 * EXPS.index(e2) + 3 * EXPS.index(g)) % (3 if full else 11): continue
        t = Txt(); txt, v, x = pm(t, s, m, e1, '+/-', (1, 1), e2)
        gs, f = t.exponent(g)
        yield ('factored exponent with other exponents', '(%s)%s' % (txt, gs), mulf(v, f), mulf(x, f))
    for s, m, u, g, ex in itertools.product(SIGNS, SHORT, [None] + UNC[:6] + ['nan', 'INF'], EXPS, ['', 'e1', 'x-1']):
        if not full and ex and EXPS.index(g) % 3 != 1: continue
        t = Txt(); txt, v, x = shorthand(t, s, m, u, ex)
        gs, f = t.exponent(g)
        if not g and u is None and not s: continue
        yield ('factored exponent of the shorthand' if g else 'shorthand in parentheses', '(%s)%s' % (txt, gs), mulf(v, f), mulf(x, f))
    for s, m, p, u, g in itertools.product(SIGNS, SHORT[:2], PM[:1], UNC[:2], EXPS[1:]):
        t = Txt(); txt, v, x = pm(t, s, m, '', p, u, ''); gs, f = t.exponent(g)
        yield ('factored exponent in parentheses', '((%s)%s)' % (txt, gs), mulf(v, f), mulf(x, f))
    # spaces around
    for l, r in [(' ', ''), ('', ' '), ('  ', '\t'), ('\n', '\n'), ('\xa0', '')]:
        for mk in (lambda t: shorthand(t, '-', (1, 2), (1, None), 'e1'), lambda t: pm(t, '-', (1, 2), '', '+/-', (1, 1), ''), lambda t: shorthand(t, '', (1, 2), None, '')):
            t = Txt(); txt, v, x = mk(t); yield ('surrounding spaces', l + txt + r, v, x)
    for a, b in [('   ', '+/-  '), ('', '+/-    '), ('    ', '\xb1')]:
        t = Txt(); n, v, _ = t.number(2, 2); q, x, _ = t.number(1, 2); yield ('inner spaces', n + a + b + q, v, x)
    # zeros and other known digits
    def num(s): return float(s)
    for txt, v, x in [('0(0)', 0.0, 0.0), ('0.00(0)', 0.0, 0.0), ('0.0(0.0)', 0.0, 0.0), ('-0.0(1)', 0.0, 0.1), ('0+/-0', 0.0, 0.0), ('(0+/-0)e5', 0.0, 0.0), ('10(10)', 10.0, 10.0), ('1.010(10)', 1.01, 0.01), ('0.00(10)', 0.0, 0.1), ('100', 100.0, 1.0), ('1.00', 1.0, 0.01), ('0', 0.0, 1.0),
                      ('0.000', 0.0, 0.001), ('1e0', 1.0, 1.0), ('1(1)e0', 1.0, 1.0), ('(1+/-1)e0', 1.0, 1.0), ('(1+/-1)e00', 1.0, 1.0), ('1(1)e+00', 1.0, 1.0), ('(1+/-1)e-00', 1.0, 1.0), ('1(0)', 1.0, 0.0), ('1.5(0.)', 1.5, 0.0), ('1.5(00)', 1.5, 0.0), ('007(01)', 7.0, 1.0),
                      ('1\xd710\u2070', 1.0, 1.0), ('1(1)\xd710\u2070', 1.0, 1.0), ('(1\xb11)\xd710\u2070', 1.0, 1.0), ('10\xd710\xb9', 100.0, 10.0), ('10.10(10)\xd710\xb9\u2070', 10.1e10, 0.1e10), ('(10+/-10)\xd710\xb9', 100.0, 100.0), ('110+/-10', 110.0, 10.0), ('10\xd710\xb9+/-10\xd710\xb9', 100.0, 100.0),
                      ('1e400+/-1', math.inf, 1.0), ('1e-400+/-1', 0.0, 1.0), ('1+/-1e400', 1.0, math.inf), ('(1+/-1)e-400', 0.0, 0.0), ('1(1)e-400', 0.0, 0.0), ('1_0+/-1_1', 10.0, 11.0), ('+1(1)', 1.0, 1.0), ('12.34(142)', 12.34, 1.42), ('.123(4)', 0.123, 0.004), ('.1(.4)', 0.1, 0.4), ('169.1(15)', 169.1, 1.5), ('1234567(1.2)', 1234567.0, 1.2)]:
        yield ('known digits', txt, v, x)

def run(tier):
    ck = Check('C19', tier, 'For each notation, the nominal value and the standard deviation of the result are the numbers that the text denotes, for all digits.',
               'abstract interpretation of ufloat_fromstr() on texts whose digits are abstract characters (each regular expression is matched independently of the digits); comparison of the nominal value and standard deviation reached with a grammar of the notations, in a normal form')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    FS = w.ref('uncertainties:ufloat_fromstr')
    rnd = random.Random(19)
    assignments = [lambda k: 0, lambda k: 1, lambda k: 9] + [(lambda s: lambda k: (s * (k + 1) * 7 + k * k + s) % 10)(s) for s in (3, 4, 8)]
    def pts(n):
        out = []
        for a in assignments: out.append({sym('d%d' % k, 'int'): a(k) for k in range(n)})
        return out
    LAB = {}
    from collections import Counter
    groups = Counter()
    seen = set()
    for group, txt, nom, unc in cases(tier != 'quick'):
        if txt in seen: continue
        seen.add(txt); groups[group] += 1
        label = ''.join('\u207f' if '\ue100' <= c < '\ue200' else 'n' if '\ue000' <= c < '\ue100' else c for c in txt)
        name = '%s: %r' % (group, label)
        nd = 1 + max([ord(c) & 0xff for c in txt if '\ue000' <= c < '\ue200'] or [-1])
        def go():
            x = w.value(lambda: w.call(FS, txt))
            p = pts(nd)
            for what, attr, want in (('nominal value', 'nominal_value', nom), ('standard deviation', 'std_dev', unc)):
                got = w.value(lambda: w.get(x, attr))
                if isinstance(want, float) and (want != want or math.isinf(want)) or isinstance(want, float) and isinstance(e.numify(got), float):
                    g = e.numify(got)
                    if not isinstance(g, (int, float)):
                        # finite term where a special value was expected
                        if isinstance(g, Term) and not has_unknown(g) and isinstance(want, float) and not math.isfinite(want):
                            ok = True
                            for q in p:
                                try: z = field.evalt(g, q)
                                except field.NoVal: continue
                                if not (z == want or z != z and want != want): ok = False; break
                            ck.check('%s, %s' % (name, what), None if ok else False, 'found %s instead of %r' % (show(g), want)); continue
                        ck.check('%s, %s' % (name, what), None if isinstance(g, (Unknown, Phi, Term)) else False, 'found %s instead of %r' % (show(g), want)); continue
                    ok = g != g if want != want else g == want or abs(g - want) <= 1e-12 * max(abs(want), 1e-300)
                    ck.check('%s, %s' % (name, what), ok, 'found %r instead of %r' % (g, want))
                else: ck.eq(w, '%s, %s' % (name, what), got, want, pts=p, tol=1e-12)
        split(w, ck, name, FS, txt, nom, unc, nd, ck.obligation(w, name, go))
    # all the other texts that are in one of the notations (in particular
    # variations of valid texts), with known digits
    from .c20 import texts, LONG
    from sa.notation import read
    known = set(LONG)
    for t in texts(tier != 'quick'):
        if t in known or '\n' in t: continue
        known.add(t)
        ref = read(t)
        if ref is None or any(isinstance(z, float) and z < 0 for z in ref[1:]): continue
        groups['other texts'] += 1
        name = 'text %r' % t
        def go():
            outs = w.attempt(lambda: w.call(FS, t))
            for o in outs:
                if o.kind != 'value':
                    if 'unsaid' not in ref: ck.check(name, False if len(outs) == 1 else None, 'raises %s instead of giving %s' % (o.exc_name(), ref))
                    continue
                o.enter()
                for what, attr, want in zip(('nominal value', 'standard deviation'), ('nominal_value', 'std_dev'), ref):
                    if want == 'unsaid': continue
                    g = e.numify(e.resolve(w.get(o.value, attr)))
                    if not isinstance(g, (int, float)): ck.und('%s, %s' % (name, what), show(g)); continue
                    ck.check('%s, %s' % (name, what), g != g if want != want else g == want or abs(g - want) <= 1e-12 * max(abs(want), 1e-300), 'found %r instead of %r' % (g, want))
        ck.obligation(w, name, go)
    # a zero has the sign that is written
    for t, neg in (('-0.0(1)', True), ('-0(1)', True), ('-0', True), ('-0.00', True), ('-0.0+/-0.1', True), ('(-0.0+/-0.1)e2', True), ('(-0.0(1))e-2', True), ('-0.0(1)e3', True), ('-0.0(2.5)', True), ('-0.0(nan)', True),
                   ('0.0(1)', False), ('+0.0(1)', False), ('0+/-1', False), ('(0.0(1))e-2', False)):
        name = 'text %r: sign of zero' % t
        def go():
            g = e.numify(e.resolve(w.value(lambda: w.get(w.call(FS, t), 'nominal_value'))))
            if not isinstance(g, (int, float)): ck.und(name, show(g)); return
            ck.check(name, g == 0 and (math.copysign(1, g) < 0) == neg, 'found %r' % g)
        ck.obligation(w, name, go)
    ck.extra['texts'] = dict(groups)
    return ck.finish('%d texts, each standing for all its digits: %s.' % (len(seen), ', '.join('%s (%d)' % x for x in sorted(groups.items()))),
                     ['float() and int() give the number that their text denotes'])
