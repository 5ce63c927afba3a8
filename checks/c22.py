"""C22: format options."""
import random, re
from sa.terms import *
from sa.report import Check
from sa import printed
from sa.fmtcells import *
from checks.c29 import judge

TYPES = ['', '', 'e', 'E', 'f', 'F', 'g', 'G', '%', '%']
PRECS = ['', '', 'u', '.1', '.2', '.3', '.1u', '.2u', '.3u', '.0']
OPTS = ['', '', 'S', 'P', 'L', 'p', 'SP', 'SL', 'PL', 'LP', 'Pp', 'Lp', 'Sp', 'SLp', 'PLS', 'SPp', 'pLP', 'LL']
def spec(rnd, plain=False):
    o = rnd.choice(OPTS)
    t = rnd.choice(PRECS) + rnd.choice(TYPES) + o
    if plain or rnd.random() < 0.4: return rnd.choice(['', '', '+', '-', ' ']) + t
    w = rnd.choice(['1', '8', '12', '15', '20', '31'])
    fill, zero, comma = rnd.choice(['', '', '', '*', '_', '+', '0']), rnd.choice(['', '', '0']), rnd.choice(['', '', '', ','])
    al = rnd.choice('<>=^'[:2] + '^') if fill else rnd.choice(['', '', '<', '>', '^'])
    return fill + al + rnd.choice(['', '', '+', '-', ' ']) + zero + w + comma + t

def claimed(c, sp):
    # sign of a plus infinity in LaTeX: not documented
    m = printed.SPEC.match(sp)
    return m is not None and '.0u' not in sp and not ('L' in m['opt'] and m['sign'] in ('+', ' ') and not isinstance(c.x, tuple))

LENIENT = re.compile(r'[^{}]?[<>=^]?[-+ ]?0?\d*,?(\.\d+)?u?[eEfFgG%]?[PSLp]*\Z')
INVALID = ['n', 'd', 'x', 'c', 's', 'b', 'i', '.f', '.', '.u', '2u.', 'uu', '.2uu', 'fe', 'ef', 'Lf', '.2Sf', 'S.2', 'Pe', 'f.2', '%f', 'f%', '{<10', '}>10', '<<<10', '10<', '10^', '1.2.3', '.-2', '-.-', '++', '+-3', 'fX', '.3fQ', 'fl', 'fs', 'fPq', ' .2 f',
           ',10', ',,', '10,,', '10_', '_', '#', '#10', '+10+', 'e+', '.2e3', '10z', 'f ', 'abc', '.1f\n\n', '(10)', '.2f,', 'S10', 'L.2u', 'p+', '.2uu', 'ue.2', '.u2', '%%', '%S%', '=', '10.2.', '.2.2u', '>>>']

def run(tier):
    ck = Check('C22', tier, 'Options, types, widths, fill, alignment, sign and padding give the documented notation, including for zero, NaN and infinite values; other format specifications are rejected with ValueError.',
               'interval abstract interpretation of __format__() on cells of nominal values and standard deviations and on special values; the template of the text obtained for each cell is compared with the documented notation; exception-flow for invalid specifications')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    full = tier != 'quick'
    rnd = random.Random(22)
    n = 0
    for c in finite_cells(rnd, 40000 if full else 6500):
        sp = spec(rnd)
        if not claimed(c, sp): continue
        n += 1
        analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in wide_cells(rnd, 3000 if full else 700) + round_cells(rnd, 3000 if full else 500):
        sp = spec(rnd)
        if not claimed(c, sp): continue
        n += 1
        analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    # a number of each layout with all the options
    base = finite_cells(random.Random(1), 12)
    for o in OPTS:
        for t in ('', 'e', 'E', 'f', 'F', 'g', 'G', '%', '.2u%', '.1ue', '.3f'):
            for wd in ('', '20', '*^25'):
                for c in rnd.sample(base, 3 if full else 1):
                    n += 1
                    sp = wd + t + o
                    analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in special_cells(rnd, 900 if full else 180):
        for k in range(24 if full else 14):
            sp = spec(rnd, k % 2 == 0)
            if not claimed(c, sp): continue
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for sp in INVALID:
        if LENIENT.match(sp): continue     # a fill character without alignment is accepted
        name = 'format(x, %r): not a format specification' % sp
        def go():
            e.intervals = e.exc_mode = True
            e.bmemo.clear()
            try:
                x = w.var('x', Rng(2.1, 2.3), Rng(0.11, 0.13))
                outs = w.attempt(lambda: w.meth(x, '__format__', sp))
                kinds = sorted({o.exc_name() if o.kind == 'raise' else 'accepted' for o in outs})
                if kinds == ['ValueError']: ck.ok(name, 'ValueError')
                elif len(kinds) == 1: ck.check(name, False, 'accepted' if kinds == ['accepted'] else 'raises %s' % kinds[0])
                else: ck.und(name, 'possible outcomes %s' % kinds)
            finally: e.intervals = e.exc_mode = False
        ck.obligation(w, name, go)
    ck.extra['cells'] = n
    return ck.finish('%d cells and format specifications (decades -16 to 16, and up to 306 with exponents), and invalid specifications.' % n, ['floats are formatted by the "f" format with correct rounding'])
