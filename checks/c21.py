"""C21: printed value and uncertainty share precision, exponent and scale."""
import re
import math, random, re
from sa.terms import *
from sa.report import Check
from sa import printed
from sa.fmtcells import *
from sa.printed import SPEC

def number(t):
    """(value of the text without exponent, number of decimals)."""
    return float(t), len(t.partition('.')[2])

def judge(spec):
    m = SPEC.match(spec)
    pc, sh = m['type'] == '%', 'S' in m['opt']
    def j(x, s, t):
        if pc: x, s = x * 100, s * 100
        r = printed.read(t)
        if r is None: return None
        n, u, (e1, e2, e), p, short = r
        if p != pc: return '%r %s a percent sign' % (t, 'has' if p else 'lacks')
        fx, fs = printed.finite(x), printed.finite(s)
        if e is not None and (e1 is not None or e2 is not None): return '%r has several exponents' % t
        if e is not None: E = int(e)
        else:
            if fx and fs and s and e1 != e2: return '%r: the value and the uncertainty have not the same exponent' % t
            if s == 0 and e2 is not None: return '%r: the zero uncertainty has an exponent' % t
            if not fs and e2 is not None: return '%r: the undefined uncertainty has an exponent' % t
            if not fx and e1 is not None: return '%r: the undefined value has an exponent' % t
            E = int(e1 if e1 is not None else e2 if e2 is not None else 0)
        if u[:1] in ('+', '-', ' '): return '%r: the uncertainty has a sign' % t
        if fx:
            if m['sign'] == '+' and x >= 0 and n[:1] != '+' or m['sign'] != '+' and n[:1] == '+': return '%r: sign of the nominal value' % t
            if x < 0 and n[:1] != '-': return '%r: no sign' % t
        if x != x and 'nan' not in n.lower(): return '%r: NaN nominal value' % t
        if s != s and 'nan' not in u.lower(): return '%r: NaN uncertainty' % t
        if math.isinf(x) and ('inf' not in n.lower() or (x < 0) != (n[:1] == '-')): return '%r: infinite nominal value' % t
        if math.isinf(s) and 'inf' not in u.lower(): return '%r: infinite uncertainty' % t
        if s == 0 and u.lstrip('0') != '': return '%r: zero uncertainty' % t
        scale = 10.0 ** E
        du = None
        if fs and s:
            U, du = number(u)
            if short:
                dn = len(n.partition('.')[2])
                if '.' in u:
                    if fx and du != dn: return '%r: decimals of the value and of the uncertainty' % t
                elif fx: U, du = U / 10.0 ** dn, dn
                else: return True
            if not m['prec'] and (m['u'] or fx): s = printed.pdg(s)[1]     # 0.95..0.999 are displayed as 1.0
            if abs(U * scale - s) > 0.50001 * 10.0 ** (E - du) + 1e-13 * s: return '%r: displayed uncertainty %g' % (t, U * scale)
        if fx:
            N, dn = number(n)
            if du is not None and du != dn: return '%r: decimals of the value and of the uncertainty' % t
            nice = m['type'] in ('', 'g', 'G') and (not fs or not s)
            if nice:
                # formatted on its own, with the requested number of significant digits (all digits by default)
                k = int(m['prec']) or 1 if m['prec'] else 6 if m['type'] else 12
                tol = 0.50001 * 10.0 ** (printed.lead(x) - k + 1)
            else: tol = 0.50001 * 10.0 ** (E - dn)
            if abs(N * scale - x) > tol + 1e-13 * abs(x): return '%r: displayed value %r' % (t, N * scale)
        return True
    return j

TYPES = ['', '', 'e', 'E', 'f', 'F', 'g', 'G', '%']
PRECS = ['', '', '', '.1', '.2', '.3', '.5', '.1u', '.2u', '.3u', 'u', '.0']
def specs(rnd):
    w = rnd.choice(['', '', '', '1', '15', '025', '020'])
    t, p, o = rnd.choice(TYPES), rnd.choice(PRECS), rnd.choice(['', '', 'S', 'S', 'P', 'L', 'p', 'LS', 'PS', 'Pp'])
    sg = rnd.choice(['', '', '+', '-'])
    return sg + w + p + t + o

def layouts(v, most=20000):
    """Distinct leaves under consistent conditions."""
    out, n = {}, 0
    for _, l in leaves(v):
        n += 1
        if n > most: return None
        out[l] = 1
    return list(out)

SUPER = {ord(a): b for a, b in zip('\u207a\u207b\u2070\xb9\xb2\xb3\u2074\u2075\u2076\u2077\u2078\u2079', '+-0123456789')}
def shared(t, X, S):
    """Does this text (whatever the values) show X and S with the same scale and decimals?"""
    parts = t.args if isinstance(t, Term) and t.op == 'cat' else (t,)
    fs = [p for p in parts if isinstance(p, Term) and p.op == 'format']
    if any(isinstance(p, str) and 'infty' in p for p in parts): return 'special'
    if len(fs) != 2: return None
    if any(isinstance(f.args[1], str) and ('.' not in f.args[1] or f.args[1][-1:] not in ('f', 'F')) for f in fs): return 'special'     # one of them infinite once scaled
    (a, sa), (b, sb) = fs[0].args, fs[1].args
    def scale(v, base):
        if v is base: return 1
        if isinstance(v, Term) and v.op in ('div', 'mul') and v.args[0] is base: return (v.op, v.args[1])
        return None
    ka, kb = scale(a, X), scale(b, S)
    # the uncertainty displayed by the rules of the Particle Data Group is not the standard deviation itself
    if kb is None: kb = ('div', b.args[1]) if isinstance(b, Term) and b.op == 'div' and isinstance(ka, tuple) and (b.args[1] is ka[1] or isinstance(ka[1], float) and b.args[1] == ka[1]) else ka if ka == ('mul', 100) else 1
    if ka is None or kb is None or ka != kb or sa is not sb and sa != sb: return None
    es = [p for p in parts if isinstance(p, Term) and p is not fs[0] and p is not fs[1]]
    if ka == 1 or ka[0] == 'mul': return not es
    while es and es[0].op != 'pct' and es[0].args and isinstance(es[0].args[0], Term): es = [es[0].args[0]]
    k = ka[1]
    if isinstance(k, float):
        # constant scale: the exponent is part of the text
        if es or not isinstance(parts[-1], str): return None
        m = re.search(r'(?:e|\xd710|10\^\{?)([-+]?\d+)', parts[-1].translate(SUPER), re.I)
        return True if m and 10.0 ** int(m[1]) == k else None
    return True if len(es) == 1 and es[0].op == 'pct' and isinstance(k, Term) and k.op == 'pow' and k.args[0] == 10.0 and k.args[1] is es[0].args[-1] else None

def run(tier):
    ck = Check('C21', tier, 'The printed text shows the nominal value and the uncertainty rounded at the same decimal, relative to the same printed exponent; % multiplies both by 100; a zero uncertainty is the integer 0.',
               'interval abstract interpretation of __format__(): each cell of nominal values and standard deviations gives a template of the text, which is read back; value-flow of the scale and of the decimals to both numbers, on symbolic values')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    full = tier != 'quick'
    rnd = random.Random(21)
    n = 0
    cells = finite_cells(rnd, 20000 if full else 3300)
    for c in cells:
        for k in range(2):
            sp = specs(rnd)
            if sp.startswith('.0u') or '.0u' in sp: continue
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in wide_cells(rnd, 3000 if full else 500) + round_cells(rnd, 3000 if full else 600):
        sp = specs(rnd)
        if '.0u' in sp: continue
        n += 1
        analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    for c in special_cells(rnd, 600 if full else 200):
        for k in range(12 if full else 6):
            sp = specs(rnd)
            if '.0u' in sp: continue
            n += 1
            analyse(w, ck, 'format(%s, %r)' % (c, sp), c, sp, judge(sp))
    # all values: value-flow of the scale factor and of the number of decimals
    proved = {}
    for sp in ['', 'e', 'f', 'g', 'G', '%', '.2u', '.1ue', '.3f', '.2e', '.4g', 'P', 'L', '.1uP', '.2ueL', '.3uf', '.2u%', 'p', '.1uG']:
        name = 'any finite value and uncertainty, format %r' % sp
        def go():
            e.intervals = True
            e.bmemo.clear()
            try:
                x = w.var('x', Rng(-1e290, 1e290), Rng(1e-290, 1e290))
                v = w.value(lambda: w.meth(x, '__format__', sp))
            finally: e.intervals = False
            ls = layouts(e.resolve(v))
            if ls is None:
                ck.und(name, 'too many paths'); return
            X, S = w.e.numify(w.get(x, 'nominal_value')), w.e.numify(w.get(x, 'std_dev'))
            rs = [shared(l, X, S) for l in ls]
            rs = [r for r in rs if r != 'special']
            proved[sp] = '%d of %d layouts' % (rs.count(True), len(rs))
            ck.check(name, True if rs and all(rs) else None, 'same scale and decimals on %s' % proved[sp])
        ck.obligation(w, name, go)
    ck.extra['cells'] = n
    ck.extra['value_flow'] = proved
    return ck.finish('%d cells and format specifications (decades -16 to 16, and up to 306; numbers with few digits), and value-flow on symbolic values.' % n,
                     ['floats are formatted by the "f" format with correct rounding'])
