"""What the documentation of AffineScalarFunc.__format__() says about the printed text
(an oracle written from the documentation), and a reader of printed texts."""
import math, re

SPEC = re.compile(r'(?:(?P<fill>[^{}])?(?P<align>[<>=^]))?(?P<sign>[-+ ]?)(?P<zero>0?)(?P<width>\d*)(?P<comma>,?)(?:\.(?P<prec>\d+))?(?P<u>u?)(?P<type>[eEfFgG%]?)(?P<opt>[PSLp]*)\Z')
SUP = str.maketrans('+-0123456789', '\u207a\u207b\u2070\xb9\xb2\xb3\u2074\u2075\u2076\u2077\u2078\u2079')
UNSUP = {v: chr(k) for k, v in SUP.items()}
UNSUP_DIGITS = {chr(k) for k, v in UNSUP.items() if v.isdigit()}

def finite(v): return not (v != v or math.isinf(v))
def lead(v):
    """Power of ten of the first significant digit (0 for zero)."""
    if v == 0: return 0
    return int(('%.14e' % abs(v)).split('e')[1])
def last_digit(v, n):
    """Power of ten of the n-th significant digit of v, once rounded."""
    e = lead(v)
    p = e - n + 1
    return p + 1 if lead(round(v, -p)) > e else p
def pdg(s):
    """(number of digits, displayed uncertainty) of the Particle Data Group rules."""
    m = ('%.17e' % s)
    three, e = int(m[0] + m[2:4]), int(m.split('e')[1])
    if three <= 354: return 2, s
    if three <= 949: return 1, s
    return 2, 10.0 ** (e + 1)

def digits(x, s, spec):
    """(nominal value, uncertainty, common exponent or None, decimals, percent) to be displayed."""
    m = SPEC.match(spec)
    ty, prec = m['type'], m['prec']
    pc = ty == '%'
    if pc: x, s, ty = x * 100, s * 100, 'f'
    real = [v for v in (abs(x), s) if finite(v)]
    ref = max(real) if real else None
    if s and finite(s) and (m['u'] or not prec and len(real) == 2):
        if prec: n = int(prec)
        else: n, s = pdg(s)
        pos = last_digit(s, n)
    else:
        p = int(prec) if prec else 6 if ty else 12
        if ty in ('f', 'F'): pos = -p
        elif not real: pos = None
        else: pos = last_digit(ref, p + 1 if ty in ('e', 'E') else p or 1)
    exp = None
    if ty not in ('f', 'F') and real:
        e = lead(round(ref, -pos))
        if ty in ('e', 'E') or not (e >= -4 and pos <= 0): exp = e
    if exp is not None: x, s, pos = x / 10.0 ** exp, s / 10.0 ** exp, pos - exp
    # a position is not defined when there is no number to display: any number of decimals does
    d = 0 if pos is None else max(-pos, 1 if not ty and not s else 0)
    return x, s, exp, d, pc

def text(x, s, spec):
    m = SPEC.match(spec)
    opt = m['opt']
    ty0 = m['type']
    X, S, exp, d, pc = digits(x, s, spec)
    main = 'F' if ty0.isupper() else 'f'
    kind = 'P' if 'P' in opt else 'L' if 'L' in opt else ''
    L, P = 'L' in opt, 'P' in opt
    es = '' if exp is None else '%s%+03d' % ('E' if main == 'F' else 'e', exp) if not kind else '\xd710' + ('%d' % exp).translate(SUP) if kind == 'P' else ' \\times 10^{%d}' % exp
    ps = (' \\%' if L else '%') if pc else ''
    nice = ty0 in ('', 'g', 'G')
    own = ('.%s%s' % (m['prec'], ty0 or 'g')) if m['prec'] else ty0
    odd = not S or not finite(S)
    fn = own if odd and nice else '.%d%s' % (d, main)
    fe = '.0' + main if not S else own if not finite(X) and nice else '.%d%s' % (d, main)
    fill, al, w = m['fill'] or '', m['align'] or '>', m['width']
    def special(v, t):
        if L and v != v: return '\\mathrm{%s}' % t
        if L and math.isinf(v): return ('-' if v < 0 else '') + '\\infty'
        return t
    if 'S' in opt:
        if S == 0: u = '0'
        elif not finite(S): u = special(S, format(S, main))
        else:
            r = round(S, d)
            if (abs(r) >= 1 or not r) and d > 0: u = '%.*f' % (d, r)
            elif r: u = '%d' % round(r * 10.0 ** d)
            else: u = '0.'
        end = '(%s)%s%s' % (u, es, ps)
        pre = m['sign'] + ('0%d' % max(int(w) - len(end), 0) if m['zero'] and w else '') + m['comma']
        t = special(X, format(X, pre + fn)) + end
        return format(t, fill + al + w) if w else t
    def part(v, sign, f, has_exp):
        pre = sign
        if m['zero'] and w: pre += '0%d' % (max(int(w) - len(es), 0) if has_exp else int(w))
        t = special(v, format(v, pre + m['comma'] + f)) + (es if has_exp else '')
        return format(t, fill + al + w) if w else t
    n = part(X, m['sign'], fn, bool(w) and finite(X))
    e = part(S, '', fe, bool(w) and not odd)
    pm = {'P': '\xb1', 'L': ' \\pm ', '': '+/-'}[kind]
    l, r = ('\\left(', '\\right)') if kind == 'L' else ('(', ')')
    t = n + pm + e
    if exp is not None and not w: return l + t + r + es + ps
    if ps or 'p' in opt: return l + t + r + ps
    return t

NUM = r'([-+]?[\d,]*\.?\d*|[-+]?0*(?:nan|NAN|inf|INF))'
def read(t):
    """(nominal text, uncertainty text, exponent or None, percent) or None; for the shorthand notation the
    uncertainty is given with its decimals."""
    t = t.strip()
    pc = False
    if t.endswith('%'):
        pc = True
        t = t[:-1]
        if t.endswith(' \\'): t = t[:-2]
    t = t.replace('\\left(', '(').replace('\\right)', ')').replace(' \\pm ', '+/-').replace('\xb1', '+/-')
    t = re.sub(r'\\mathrm\{([-+]?0*(?:nan|NAN))\}', r'\1', t).replace('\\infty', 'inf')
    t = re.sub(r' \\times 10\^\{(-?\d+)\}', r'e\1', t)
    t = re.sub('\xd710([\u207a\u207b\u2070\xb9\xb2\xb3\u2074-\u2079]+)', lambda m: 'e' + ''.join(UNSUP[ord(c)] for c in m.group(1)), t)
    E = r'(?:[eE]([-+]?\d+))?'
    m = re.fullmatch(r'\(\s*%s%s\s*\+/-\s*%s%s\s*\)%s' % (NUM, E, NUM, E, E), t) or re.fullmatch(r'\s*%s%s\s*\+/-\s*%s%s\s*()' % (NUM, E, NUM, E), t)
    if m:
        n, e1, u, e2, e = m.groups()
        return n.replace(',', ''), u.replace(',', ''), [e1, e2, e or None], pc, False
    m = re.fullmatch(r'%s\(%s\)%s' % (NUM, NUM, E), t)
    if m:
        n, u, e = m.groups()
        return n.replace(',', ''), u, [None, None, e], pc, True
    return None
