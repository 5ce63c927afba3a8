"""Abstract interpretation of format(x, spec) on cells: intervals of nominal values and
standard deviations over which the interval analysis settles the layout of the text."""
import math, random
from .terms import *
from . import field, printed
from .world import Raised

XSIG = [(1.02, 1.97), (2.1, 9.3), (9.52, 9.94), (9.96, 9.993), (9.9965, 9.9985)]
SSIG = [(1.02, 3.53), (3.57, 9.48), (9.51, 9.94), (9.96, 9.99), (9.9965, 9.9985), (1.002, 1.0045),
        (3.502, 3.528), (3.535, 3.539), (3.541, 3.543), (3.551, 3.553), (3.561, 3.58), (9.471, 9.483), (9.491, 9.493), (9.501, 9.503), (9.511, 9.53)]
INF, NAN = math.inf, math.nan

class Cell:
    def __init__(self, x, s):
        self.x, self.s = x, s          # (lo, hi) or a number
    def points(self):
        def vals(c):
            if not isinstance(c, tuple): return [c]
            return [c[0] + (c[1] - c[0]) * f for f in (0.137, 0.52, 0.861)]
        a, b = vals(self.x), vals(self.s)
        n = max(len(a), len(b))
        return [(a[i % len(a)], b[i % len(b)]) for i in range(n)]
    def __str__(self):
        f = lambda c: '%g' % c if not isinstance(c, tuple) else '%g..%g' % c
        return '%s +/- %s' % (f(self.x), f(self.s))

def interval(sig, dec, neg=False):
    lo, hi = sig[0] * 10.0 ** dec, sig[1] * 10.0 ** dec
    return (-hi, -lo) if neg else (lo, hi)

def finite_cells(rnd, n):
    out = []
    for i in range(n):
        dx = rnd.choice([-9, -6, -5, -4, -3, -2, -1, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 12])
        ds = dx + rnd.choice([-7, -5, -4, -3, -3, -2, -2, -2, -1, -1, -1, 0, 1, 2, 4])
        out.append(Cell(interval(rnd.choice(XSIG), dx, rnd.random() < 0.35), interval(rnd.choice(SSIG), ds)))
    return out

def wide_cells(rnd, n):
    """Very large and very small numbers: exponents of two and three digits."""
    out = []
    for i in range(n):
        dx = rnd.choice([15, 18, 20, 25, 60, 98, 99, 100, 101, 150, 270, 280]) * rnd.choice([1, -1])
        ds = dx + rnd.choice([-7, -4, -3, -2, -2, -1, -1, 0, 1, 3, 20])
        if rnd.random() < 0.12: dx, ds = rnd.choice([(305, 304), (304, 305), (303, 299), (306, 306), (-300, -303), (-292, -290)])
        out.append(Cell(interval(rnd.choice(XSIG[:2]), dx, rnd.random() < 0.35), interval(rnd.choice(SSIG), ds)))
    return out

def round_cells(rnd, n):
    """Numbers with few digits, without ties."""
    out = []
    def number(d):
        m = rnd.choice(['1', '1', '1', '2', '3', '4', '7', '8', '9', '12', '98', '99', '999', '101', '314', '949', '1.1', '9.2', '33.3', '6.022'])
        return float('%se%d' % (m, d))
    for i in range(n):
        dx = rnd.choice([-8, -5, -4, -3, -2, -1, 0, 0, 0, 1, 2, 3, 5, 9])
        x = rnd.choice([0.0, 0.0, -1.0, 1.0]) or None if rnd.random() < 0.3 else number(dx) * rnd.choice([1, 1, -1])
        out.append(Cell(x or 0.0, rnd.choice([1.0, number(dx + rnd.choice([-4, -3, -2, -2, -1, -1, 0, 1, 2]))])))
    return out

def extreme_cells(rnd, n):
    """The smallest and the largest floats."""
    tiny = [5e-324, 1e-323, 3e-323, 1.2e-320, 1e-310, 2.2e-308, 9.99e-309, 1e-307]
    huge = [1.7976931348623157e308, 1.797e308, 1.5e308, 9.96e307, 9.99999e307, 1e308]
    out = []
    for v in tiny + huge:
        for x, s in ((v, v), (0.0, v), (v, 0.0), (-v, v / 3 or v), (1.0, v)): out.append(Cell(x, s))
    while len(out) < n:
        x, s = (rnd.choice(tiny + huge + [1.0, 0.0, 35.2]) for k in '12')
        out.append(Cell(x * rnd.choice([1, -1]), s))
    rnd.shuffle(out)
    return out[:n]

def special_cells(rnd, n):
    out = []
    xs = [0.0, NAN, INF, -INF]
    ss = [0.0, NAN, INF]
    for x in xs:
        for s in ss: out.append(Cell(x, s))
    for x in xs:
        for d in (-6, -2, 0, 3, 8): out.append(Cell(x, interval(rnd.choice(SSIG), d)))
    for s in ss:
        for d in (-8, -5, -4, -1, 0, 1, 3, 5, 8, 13): out.append(Cell(interval(rnd.choice(XSIG), d, rnd.random() < 0.3), s))
    while len(out) < n:
        if rnd.random() < 0.4: out.append(Cell(rnd.choice(xs), interval(rnd.choice(SSIG), rnd.randint(-8, 9))))
        else: out.append(Cell(interval(rnd.choice(XSIG), rnd.randint(-8, 13), rnd.random() < 0.3), rnd.choice(ss)))
    return out[:n]

def analyse(w, ck, name, cell, spec, judge, via='method'):
    """Calls judge(x, s, text) for points of the cell, text being the analysed result there."""
    e = w.e
    def go():
        e.intervals = e.exc_mode = True
        e.bmemo.clear()
        try:
            rng = lambda c: Rng(c[0], c[1]) if isinstance(c, tuple) else c
            x = w.var('x', rng(cell.x), rng(cell.s))
            if via == 'repr of calculated': x = w.meth(w.meth(x, '__neg__'), '__neg__')
            if via == 'repr of tagged': e.setattr_(x, 'tag', 'width')
            act = {'method': lambda: w.meth(x, '__format__', spec), 'format': lambda: w.call(Ext('builtins.format'), x, spec), 'str': lambda: w.call(Ext('builtins.str'), x)}
            outs = w.attempt(act[via] if via in act else lambda: w.call(Ext('builtins.repr'), x))
            if len(outs) != 1 or outs[0].kind != 'value':
                rs = [o for o in outs if o.kind == 'raise']
                if len(outs) == 1:
                    ck.check(name, False, 'raises %s: %s' % (rs[0].exc_name(), rs[0].exc_msg()))
                else: ck.und(name, 'possible exception %s' % sorted({o.exc_name() for o in rs}))
                return
            outs[0].enter()
            v = e.resolve(outs[0].value)
            if has_unknown(v): ck.und(name, 'found %s' % show(v)[:200]); return
            X, S = w.e.numify(w.get(x, 'nominal_value')), w.e.numify(w.get(x, 'std_dev'))
            for px, ps in cell.points():
                env = {}
                for t, p in ((sym('x'), px), (sym('sigma_x'), ps)): env[t] = p
                try: t = field.evalt(v, env)
                except field.NoVal as z: ck.und(name, 'text not evaluated: %s' % z); return
                r = judge(px, ps, t)
                if r is not True:
                    ck.check(name, None if r is None else False, 'for %g +/- %g: %s' % (px, ps, r or 'text %r not read' % t)); return
            ck.ok(name, show(v)[:160])
        finally: e.intervals = e.exc_mode = False
    ck.obligation(w, name, go)
