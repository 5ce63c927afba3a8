"""C29: number of displayed digits, exponent."""
import random, re
from sa.terms import *
from sa.report import Check
from sa import printed
from sa.fmtcells import *

NUMBER = re.compile(r'(\d+(?:\.\d+)?)')
def same_text(t, want):
    """Equal texts, but for the digits that a float does not have (the 16th and following)."""
    if t == want: return True
    a, b = NUMBER.split(t), NUMBER.split(want)
    if len(a) != len(b): return False
    for i, (p, q) in enumerate(zip(a, b)):
        if p == q: continue
        if i % 2 == 0 or len(p.replace('.', '').lstrip('0')) < 16 or len(p.partition('.')[2]) != len(q.partition('.')[2]) or abs(float(p) - float(q)) > 1e-14 * float(q): return False
    return True

def judge(spec):
    def j(x, s, t):
        want = printed.text(x, s, spec)
        return True if same_text(t, want) else '%r displayed, %r documented' % (t, want)
    return j

TYPES = ['', 'e', 'E', 'f', 'F', 'g', 'G', '%']
PRECS = ['', '', 'u', '.1', '.2', '.3', '.4', '.6', '.0', '.1u', '.2u', '.3u', '.5u']

def run(tier):
    ck = Check('C29', tier, 'The text displays the number of digits given by the precision (on the uncertainty, or on the largest value), by the rules of the Particle Data Group by default, and an exponent when documented; str(), format() and the format() method agree; repr() shows all the digits.',
               'interval abstract interpretation of __format__() on cells of nominal values and standard deviations; the template of the text obtained for each cell is compared with the documented text; value-flow of str(), repr() and format() on symbolic values')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    full = tier != 'quick'
    rnd = random.Random(29)
    n = 0
    every = [p + t for t in TYPES for p in dict.fromkeys(PRECS)]
    for i, c in enumerate(finite_cells(rnd, 24000 if full else 4000)):
        for sp in {rnd.choice(every), rnd.choice(['', 'g', 'f', 'e', '%', 'F'])}:
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in wide_cells(rnd, 2000 if full else 600) + round_cells(rnd, 3000 if full else 600):
        for sp in {rnd.choice(every), rnd.choice(['', 'g', 'e', '.3'])}:
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in special_cells(rnd, 500 if full else 150):
        for sp in rnd.sample(every, 24 if full else 10):
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    # a text for all the numbers, whatever their magnitude
    texts = lambda x, s, t: True if isinstance(t, str) and any(ch.isdigit() for ch in t) else '%r displayed' % t
    for c in extreme_cells(rnd, 400 if full else 150):
        for sp in {rnd.choice([z for z in every if '%' not in z]), rnd.choice(['', 'e', 'S', '.1uS', 'SL', '.3P', 'LS', '.2fS', '.2eL'])}:
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, texts)
    for c in finite_cells(rnd, 60) + special_cells(rnd, 60) + wide_cells(rnd, 30):
        analyse(w, ck, 'str(%s)' % c, c, '', judge(''), 'str')
        analyse(w, ck, 'format(%s)' % c, c, '.2e', judge('.2e'), 'format')
    def shown(x, s, t):
        want = '%r+/-%s' % (x, repr(s) if s else '0')
        return True if t == want else '%r displayed, %r documented' % (t, want)
    for c in finite_cells(rnd, 80) + special_cells(rnd, 60) + wide_cells(rnd, 70) + round_cells(rnd, 40):
        analyse(w, ck, 'repr(%s)' % c, c, '', shown, 'repr')
        analyse(w, ck, 'repr(%s), calculated' % c, c, '', shown, 'repr of calculated')
        analyse(w, ck, 'repr(%s), with a tag' % c, c, '', lambda x, s, t: shown(x, s, t[10:-2]) if t[:10] == '< width = ' and t[-2:] == ' >' else '%r displayed' % t, 'repr of tagged')
    # no digit of the uncertainty at all: refused
    for sp in ('.0u', '.0uf', '.0ue', '.0ug', '.00u', '.0uS', '.0uL', '+10.0u'):
        name = 'format(x, %r): zero digits of the uncertainty' % sp
        def go():
            e.intervals = e.exc_mode = True
            e.bmemo.clear()
            x = w.var('x', Rng(2.1, 2.3), Rng(0.11, 0.13))
            outs = w.attempt(lambda: w.meth(x, '__format__', sp))
            kinds = sorted({o.exc_name() if o.kind == 'raise' else 'accepted' for o in outs})
            if kinds == ['ValueError']: ck.ok(name, 'ValueError')
            elif len(kinds) == 1: ck.check(name, False, 'accepted' if kinds == ['accepted'] else 'raises %s' % kinds[0])
            else: ck.und(name, 'possible outcomes %s' % kinds)
        ck.obligation(w, name, go)
    # the ways to format a number, whatever the number
    e.intervals, e.exc_mode = False, False
    for name, f, sp in [('str(x)', lambda x: w.call(Ext('builtins.str'), x), ''),
                        ('format(x)', lambda x: w.call(Ext('builtins.format'), x), ''),
                        ('format(x, ".2eL")', lambda x: w.call(Ext('builtins.format'), x, '.2eL'), '.2eL'),
                        ('x.format(".3f")', lambda x: w.meth(x, 'format', '.3f'), '.3f'),
                        ('x.format("")', lambda x: w.meth(x, 'format', ''), ''),
                        ('"{:.1uS}".format(x)', lambda x: w.e.call(w.e.getattr_('{:.1uS}', 'format'), [x], {}), '.1uS'),
                        ('"%s" % x', lambda x: w.e.binop('%', '%s', x), '')]:
        def go():
            x = w.var('x')
            a, b = w.value(lambda: f(x)), w.value(lambda: w.meth(x, '__format__', sp))
            nm = '%s: the same text as __format__(%r)' % (name, sp)
            la, lb = list(leaves(a)), list(leaves(b))
            if len(la) == len(lb) and all(same(p, q) and g == h for (g, p), (h, q) in zip(la, lb)): ck.ok(nm)
            else: ck.eq(w, nm, a, b)
        ck.obligation(w, name, go)
    ck.extra['cells'] = n
    return ck.finish('%d cells and format specifications (decades -16 to 16, and up to 306 with exponents).' % n, ['floats are formatted by the "f" format with correct rounding'])
