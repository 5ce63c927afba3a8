"""Reference recognizer of the notations of numbers with uncertainties that
are documented for ufloat_fromstr(), with the values that they mean."""
import re, math
from fractions import Fraction

SUP = dict(zip('\u207a\u207b\u2070\xb9\xb2\xb3\u2074\u2075\u2076\u2077\u2078\u2079', '+-0123456789'))
NUM = r'(\d+(?:\.\d*)?|\.\d+|nan|NAN|inf|INF)'

def integer(s):
    try: return int(s)
    except ValueError: return None
def exponent(s): return integer(''.join(SUP.get(c, c) for c in s))
def number(s):
    try: return float(s)
    except ValueError: return None

def scale(x, n):
    """x * 10**n, or None if it cannot be said."""
    if x is None or n is None: return None
    if x != x or math.isinf(x): return x if abs(n) < 300 else 'unsaid'
    if abs(n) > 300 or x == 'unsaid': return 'unsaid'
    try: return float(Fraction(x) * Fraction(10) ** n)
    except OverflowError: return 'unsaid'

def pretty(s):
    r = number(s)
    if r is not None: return r
    m = re.match('(.*?)\\s*\xd7\\s*10(.*)$', s, re.S)
    return scale(number(m.group(1)), exponent(m.group(2))) if m else None

def paren(s):
    m = re.match('([+-]?)' + NUM + r'(?:\(' + NUM + r'\))?(?:' + '(?:[eE]|\\s*\xd7\\s*10)' + '(.*))?$', s, re.S)
    if not m: return None
    sign, main, unc, ex = m.groups()
    n = 0 if ex is None else exponent(ex)
    if n is None: return None
    v = number(sign + main)
    if v is None: return None
    if unc is None: unc = '1'
    if not unc.isdecimal(): u = number(unc)
    elif len(unc) > 300: u = 'unsaid'
    else: u = scale(float(unc), -len(main.split('.')[1]) if '.' in main else 0)
    if u is None: return None
    return (v if n == 0 else scale(v, n)), ('unsaid' if u == 'unsaid' else u if n == 0 else scale(u, n))

def simple(s):
    for sep in ('+/-', '\xb1'):
        for i in range(len(s)):
            if s.startswith(sep, i):
                a, b = pretty(s[:i]), pretty(s[i + len(sep):])
                if a is not None and b is not None: return a, b
    return paren(s)

def read(t):
    """(nominal value, uncertainty) of the text (either can be 'unsaid'), or
    None if it is in none of the notations."""
    for s in (t, t.strip()):
        for u in [s] + ([s[1:-1]] if s.startswith('(') and s.endswith(')') else []):
            r = simple(u)
            if r is not None: return r
            m = re.match('\\((.*)\\)' + '(?:[eE]|\\s*\xd7\\s*10)' + '(.*)$', u, re.S)
            if m:
                r, n = simple(m.group(1)), exponent(m.group(2))
                if r is not None and n is not None: return tuple('unsaid' if z == 'unsaid' else scale(z, n) for z in r)
    return None
