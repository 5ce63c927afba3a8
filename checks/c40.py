"""C40: printed texts are parsed back."""
import math, random, re
from sa.terms import *
from sa.report import Check
from sa.lib import abs_digit, abs_super
from sa import field, printed
from sa.digits import split
from sa.fmtcells import *
from checks.c22 import PRECS, TYPES

OPTS = ['', '', '', 'S', 'S', 'P', 'P', 'p', 'PS', 'Pp', 'Sp']
def spec(rnd):
    t = rnd.choice(['', '', '+', '-', ' ']) + rnd.choice(['', '', '1', '8', '12', '20', '012', '020']) + rnd.choice(PRECS) + rnd.choice([x for x in TYPES if x != '%']) + rnd.choice(OPTS)
    return t if rnd.random() < 0.7 or not re.match(r'\d', t) else rnd.choice('<>^') + t

def shape(text):
    """(text with abstract digits, nominal value, uncertainty) as terms in the digits; None if not read."""
    r = printed.read(text)
    if r is None: return None
    n, u, (e1, e2, e), pc, short = r
    if pc: return None
    out, k = '', 0
    for c in re.findall('\xd710|.', text, re.S):
        if len(c) == 1 and c in '0123456789': out += abs_digit(k); k += 1
        elif c in printed.UNSUP_DIGITS: out += abs_super(k); k += 1
        else: out += c
    pos = [0]
    def digits(s):
        v = 0
        for c in s:
            if c.isdigit():
                d = sym('d%d' % pos[0], 'int')
                v = d if v == 0 and pos[0] >= 0 and isinstance(v, int) else T('add', T('mul', 10, v, ty='int'), d, ty='int')
                pos[0] += 1
        return v
    def number(s):
        m = s.lower().lstrip('+-')
        if m in ('nan', 'inf'): v = float(m)
        else:
            v, dec = digits(m), len(m.partition('.')[2])
            if dec: v = T('div', v, 10.0 ** dec)
        if s[:1] == '-': v = -v if isinstance(v, float) else T('neg', v)
        return v
    def power(s):
        if s is None: return None
        v = digits(s)
        return T('pow', 10.0, T('neg', v, ty='int') if s[:1] == '-' else v)
    def mulf(v, f): return v if f is None or isinstance(v, float) and not math.isfinite(v) else T('mul', v, f)
    N = number(n)
    f1 = power(e1)
    U = number(u)
    if short and '.' not in u and not isinstance(U, float): U = T('div', U, 10.0 ** len(n.partition('.')[2]))
    f2, f = power(e2), power(e)
    return out, mulf(mulf(N, f1), f), mulf(mulf(U, f2), f), pos[0], k

def run(tier):
    ck = Check('C40', tier, 'Every text printed by str(), repr() or format() in one of the layouts that are parsable is accepted by ufloat_fromstr(), which gives the displayed nominal value and uncertainty, for all the digits of this layout.',
               'composition of two abstract interpretations: __format__() on cells of values gives the printed layouts; ufloat_fromstr() is interpreted on each layout with abstract digits, and the result compared with the displayed numbers')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    full = tier != 'quick'
    rnd = random.Random(40)
    layouts, other = {}, {}
    cur = []
    def judge(x, s, t):
        if re.search(r'0(nan|inf)', t.lower()): return True     # padded with zeros: not a number for float() either
        if sum(z in '0123456789' for z in t) > 60: return True
        r = shape(t)
        if r is None:
            other.setdefault(re.sub('[0-9]', 'n', t), (cur[0], t))
            return True
        layouts.setdefault(r[0], (cur[0], t) + r)
        return True
    for c in finite_cells(rnd, 16000 if full else 2600):
        sp = spec(rnd)
        cur[:] = ['format(%s, %r)' % (c, sp)]
        analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge)
    for c in wide_cells(rnd, 1500 if full else 400):
        sp = re.sub('[fF]', 'e', spec(rnd))       # exponents, not long sequences of digits
        cur[:] = ['format(%s, %r)' % (c, sp)]
        analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge)
    for c in special_cells(rnd, 500 if full else 150):
        for k in range(8):
            sp = spec(rnd)
            cur[:] = ['format(%s, %r)' % (c, sp)]
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge)
    for c in finite_cells(rnd, 80) + special_cells(rnd, 60) + wide_cells(rnd, 40):
        for via in ('str', 'repr'):
            cur[:] = ['%s(%s)' % (via, c)]
            analyse(w, ck, '%s(%s)' % (via, c), c, '', judge, via)
    e.intervals = e.exc_mode = False
    e.bmemo.clear()
    FS = w.ref('uncertainties:ufloat_fromstr')
    assignments = [lambda k: 0, lambda k: 1, lambda k: 9] + [(lambda s: lambda k: (s * (k + 1) * 7 + k * k + s) % 10)(s) for s in (3, 4, 8)]
    for txt, (origin, t, _, nom, unc, used, nd) in layouts.items():
        name = 'text %r of %s' % (t, origin)
        if used != nd:
            ck.und(name, 'digits not read'); continue
        pts = [{sym('d%d' % k, 'int'): a(k) for k in range(nd)} for a in assignments]
        def go():
            x = w.value(lambda: w.call(FS, txt))
            for what, attr, want in (('nominal value', 'nominal_value', nom), ('uncertainty', 'std_dev', unc)):
                got = e.numify(w.get(x, attr))
                if isinstance(want, float):
                    ok = isinstance(got, float) and (got == want or got != got and want != want)
                    ck.check('%s, %s' % (name, what), ok if ok or not isinstance(got, Unknown) else None, 'parsed as %s' % show(got))
                else: ck.eq(w, '%s, %s' % (name, what), got, want, pts=pts, tol=1e-12)
        split(w, ck, name, FS, txt, nom, unc, nd, ck.obligation(w, name, go))
    for origin, t in other.values():
        # a layout that is not documented: accepted at all?
        def go(): ck.check('text %r of %s' % (t, origin), None if w.value(lambda: w.call(FS, t)) is not None else False, 'accepted, not read')
        ck.obligation(w, 'text %r of %s' % (t, origin), go)
    ck.extra['layouts'] = len(layouts)
    return ck.finish('%d printed layouts, each standing for all its digits.' % len(layouts), ['float() and int() give the number that their text denotes', 'floats are formatted by the "f" format with correct rounding'])
