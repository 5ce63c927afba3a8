"""Decision of equality between abstract scalar terms.

1. normal form: rational functions over the rationals in generators (symbols
   and applications of elementary functions), with the algebraic relations of
   the generators (sqrt(u)^2 = u, sin^2 + cos^2 = 1, hyperbolic functions
   through exp, x**(y+1) = x**y * x, log(x, y) = ln x / ln y, ...);
2. when the normal forms differ, the two *terms* are evaluated at sample
   points to exhibit a witness of the difference.
Verdicts: 'equal' (proved), 'different' (with witness), 'undecided'.
"""
import math, random
from fractions import Fraction
from .terms import *
from .engine import CT

class NoField(Exception):
    pass

KNOWN = []
def _k(v, name, f):
    KNOWN.append((v, name, f))

ZERO, ONE = {}, {(): Fraction(1)}

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def mmul(m, n):
    d = dict(m)
    for k, e in n:
        v = d.get(k, 0) + e
        if v: d[k] = v
        else: d.pop(k, None)
    return tuple(sorted(d.items()))

def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > 4000: raise NoField('too big')
    return r

def ppow(a, n):
    r = ONE
    for _ in range(n): r = pmul(r, a)
    return r

class F:
    """Rational function n/d."""
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        d = d if d is not None else ONE
        if not d: raise NoField('division by zero')
        if len(d) == 1:
            (m, c), = d.items()
            if m or c != 1:
                inv = {tuple((k, -e) for k, e in m): 1 / c}
                n, d = pmul(n, inv), ONE
        self.n, self.d = n, d
    def __add__(self, o):
        if self.d == o.d: return F(padd(self.n, o.n), self.d)
        return F(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))
    def __sub__(self, o): return self + (-o)
    def __neg__(self): return F({m: -c for m, c in self.n.items()}, self.d)
    def __mul__(self, o): return F(pmul(self.n, o.n), pmul(self.d, o.d))
    def __truediv__(self, o):
        if not o.n: raise NoField('division by zero')
        return F(pmul(self.n, o.d), pmul(self.d, o.n))
    def pw(self, k):
        if k < 0:
            return F(self.d, self.n).pw(-k) if self.n else (_ for _ in ()).throw(NoField('0**-1'))
        return F(ppow(self.n, k), ppow(self.d, k))
    def const(self):
        if not self.n: return Fraction(0)
        if self.d == ONE and len(self.n) == 1 and () in self.n: return self.n[()]
        return None

def fc(c): return F({(): Fraction(c)} if c else {})

class Field:
    def __init__(self, subst=None):
        self.atoms = []          # (name, F arg or key) ; index = generator id
        self.byname = {}
        self.sq = {}             # generator -> F value of its square
        self.cache = {}
        self.subst = subst or {}

    def gen(self, key):
        i = self.byname.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(key)
            self.byname[key] = i
        return i
    def g(self, key, e=1):
        return F({((self.gen(key), e),): Fraction(1)})

    # equality of rational functions modulo the relations
    def reduce(self, p):
        """Numerator of p with sqrt/cos squares eliminated."""
        while True:
            tgt = None
            for m in p:
                for k, e in m:
                    if k in self.sq and (e >= 2 or e < 0):
                        tgt = k
                        break
                if tgt is not None: break
            if tgt is None: return p
            sq = self.sq[tgt]
            lo = min((dict(m).get(tgt, 0) for m in p), default=0)
            # clear negative powers: multiply by an even power
            if lo < 0:
                up = (-lo + 1) // 2 * 2
                p = {mmul(m, ((tgt, up),)): c for m, c in p.items()}
            hi = max(dict(m).get(tgt, 0) for m in p) // 2
            r = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(tgt, 0)
                q, rem = divmod(e, 2)
                if rem: d[tgt] = 1
                base = {tuple(sorted(d.items())): c}
                r = padd(r, pmul(base, pmul(ppow(sq.n, q), ppow(sq.d, hi - q))))
            p = r

    def is_zero(self, f):
        if not f.n: return True
        return not self.reduce(f.n)

    positive = frozenset()
    def eq(self, a, b):
        return self.is_zero(a - b)

    # function applications
    def absf(self, u):
        """|u|, multiplicative over monomials; |u|**2 = u**2."""
        c = u.const()
        if c is not None: return fc(abs(c))
        if u.d == ONE and len(u.n) == 1:
            (mono, c), = u.n.items()
            r = fc(abs(c))
            for k, e in mono:
                key = self.atoms[k]
                if isinstance(key, tuple) and key[0] in ('abs', 'sqrt', 'exp') or key == 'pi' or key in self.positive:
                    r = r * self.gi(k, e)
                elif e % 2 == 0: r = r * self.gi(k, e)
                else: r = r * self.app('abs', self.gi(k), False).pw(abs(e)) if e > 0 else r / self.app('abs', self.gi(k), False).pw(abs(e))
            return r
        return self.app('abs', u, False)

    def app(self, fn, u, odd=None):
        """Generator for fn(u); odd: True odd, False even function."""
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == fn:
                if self.eq(k[1], u): return self.gi(i)
                if odd is not None and self.eq(k[1], -u):
                    return -self.gi(i) if odd else self.gi(i)
        i = len(self.atoms)
        self.atoms.append((fn, u))
        if fn == 'sqrt': self.sq[i] = u
        if fn == 'abs': self.sq[i] = u * u
        if fn == 'sin':
            self.sq[i] = None
        return self.gi(i)
    def gi(self, i, e=1):
        return F({((i, e),): Fraction(1)})

    def app2(self, fn, u, v):
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == fn and len(k) == 3 and self.eq(k[1], u) and self.eq(k[2], v):
                return self.gi(i)
        self.atoms.append((fn, u, v))
        return self.gi(len(self.atoms) - 1)

    def exp(self, u):
        if self.is_zero(u): return fc(1)
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == 'exp':
                q = (u / k[1])
                c = self.ratio(u, k[1])
                if c is not None and c.denominator == 1 and abs(c) <= 6:
                    return self.gi(i, int(c))
        c = u.const()
        self.atoms.append(('exp', u))
        return self.gi(len(self.atoms) - 1)

    def ratio(self, u, v):
        """c with u = c*v for small rational c, else None."""
        for c in (1, -1, 2, -2, 3, -3, Fraction(1, 2), Fraction(-1, 2)):
            if self.eq(u, v * fc(c)): return Fraction(c)
        return None

    def sqrt(self, u):
        c = u.const()
        if c is not None:
            if c < 0: raise NoField('sqrt of negative')
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator: return fc(Fraction(n, d))
        u = F(self.reduce(u.n), u.d)
        if u.d == ONE and len(u.n) == 1:
            (mono, c), = u.n.items()
            n, d = math.isqrt(max(c.numerator, 0)), math.isqrt(c.denominator)
            if c > 0 and n * n == c.numerator and d * d == c.denominator and all(e % 2 == 0 for k, e in mono):
                return self.absf(F({tuple((k, e // 2) for k, e in mono): Fraction(n, d)}))
        return self.app('sqrt', u)

    def sincos(self, u):
        """(sin u, cos u)"""
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == 'sin':
                if self.eq(k[1], u): return self.gi(i), self.gi(i + 1)
                if self.eq(k[1], -u): return -self.gi(i), self.gi(i + 1)
        i = len(self.atoms)
        self.atoms += [('sin', u), ('cos', u)]
        self.sq[i] = fc(1) - self.gi(i + 1, 2)
        return self.gi(i), self.gi(i + 1)

    def log(self, u):
        if self.eq(u, fc(1)): return fc(0)
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == 'exp' and self.eq(u, self.gi(i)): return k[1]
        return self.app('log', u)

    def pow(self, a, b):
        c = b.const()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            return a.pw(int(c))
        if c is not None and c.denominator == 2 and abs(c) <= 6:
            return self.sqrt(a).pw(int(c * 2))
        for i, k in enumerate(self.atoms):
            if isinstance(k, tuple) and k[0] == 'pow' and self.eq(k[1], a):
                d = (b - k[2])
                dc = self.constof(d)
                if dc is not None and dc.denominator == 1 and abs(dc) <= 6:
                    return self.gi(i) * a.pw(int(dc))
                if self.eq(b, -k[2]):
                    return self.gi(i, -1)
        self.atoms.append(('pow', a, b))
        return self.gi(len(self.atoms) - 1)

    def constof(self, f):
        for c in range(-6, 7):
            if self.eq(f, fc(c)): return Fraction(c)
        return None

    def num(self, v):
        if isinstance(v, bool): return fc(int(v))
        if isinstance(v, int): return fc(v)
        if v != v or math.isinf(v): raise NoField('non finite constant')
        pi = lambda: self.g('pi')
        table = ((math.pi, pi), (2 * math.pi, lambda: fc(2) * pi()), (math.pi / 2, lambda: pi() / fc(2)), (180 / math.pi, lambda: fc(180) / pi()),
                 (math.pi / 180, lambda: pi() / fc(180)), (math.sqrt(math.pi), lambda: self.sqrt(pi())), (2 / math.sqrt(math.pi), lambda: fc(2) / self.sqrt(pi())),
                 (1 / math.sqrt(math.pi), lambda: fc(1) / self.sqrt(pi())), (math.log(10), lambda: self.log(fc(10))), (1 / math.log(10), lambda: fc(1) / self.log(fc(10))),
                 (math.log(2), lambda: self.log(fc(2))), (1 / math.log(2), lambda: fc(1) / self.log(fc(2))), (math.e, lambda: self.exp(fc(1))))
        for val, f in table:
            if abs(v - val) <= 4e-16 * abs(val): return f()
            if abs(v + val) <= 4e-16 * abs(val): return -f()
        fr = Fraction(v)
        for d in (3, 7, 9, 10, 100, 1000, 10**4, 10**5, 10**6, 10**8):
            q = fr * d
            n = round(q)
            if float(n) / d == v or (n and 1.0 / (d / n) == v):
                return fc(Fraction(n, d))
        return fc(fr)

    def conv(self, t):
        if isinstance(t, Term):
            r = self.cache.get(t.uid)
            if r is None:
                r = self._conv(t)
                self.cache[t.uid] = r
            return r
        if isinstance(t, (int, float)):
            return self.num(t)
        raise NoField('not a scalar: %r' % (t,))

    def _conv(self, t):
        s = self.subst.get(t)
        if s is not None: return self.conv(s)
        op, a = t.op, t.args
        c = self.conv
        if op == 'sym': return self.g(('sym', a[0]))
        if op == 'add': return c(a[0]) + c(a[1])
        if op == 'sub': return c(a[0]) - c(a[1])
        if op == 'mul': return c(a[0]) * c(a[1])
        if op in ('div', 'npdiv'): return c(a[0]) / c(a[1])
        if op == 'neg': return -c(a[0])
        if op in ('float', 'pos'): return c(a[0])
        if op == 'math.fsum':
            r = fc(0)
            for x in a: r = r + c(x)
            return r
        if op in ('pow', 'math.pow'): return self.pow(c(a[0]), c(a[1]))
        if op.startswith('math.'):
            f = op[5:]
            if f == 'sqrt': return self.sqrt(c(a[0]))
            if f == 'exp': return self.exp(c(a[0]))
            if f == 'expm1': return self.exp(c(a[0])) - fc(1)
            if f == 'exp2': return self.pow(fc(2), c(a[0]))
            if f in ('sin', 'cos', 'tan'):
                s, k = self.sincos(c(a[0]))
                return s if f == 'sin' else k if f == 'cos' else s / k
            if f in ('sinh', 'cosh', 'tanh'):
                e = self.exp(c(a[0])); i = fc(1) / e
                if f == 'sinh': return (e - i) / fc(2)
                if f == 'cosh': return (e + i) / fc(2)
                return (e - i) / (e + i)
            if f == 'log':
                if len(a) == 2: return self.log(c(a[0])) / self.log(c(a[1]))
                return self.log(c(a[0]))
            if f == 'log10': return self.log(c(a[0])) / self.log(fc(10))
            if f == 'log2': return self.log(c(a[0])) / self.log(fc(2))
            if f == 'log1p': return self.log(c(a[0]) + fc(1))
            if f == 'degrees': return c(a[0]) * fc(180) / self.g('pi')
            if f == 'radians': return c(a[0]) * self.g('pi') / fc(180)
            if f == 'hypot':
                r = fc(0)
                for x in a: r = r + c(x).pw(2)
                return self.sqrt(r)
            if f == 'acos': return self.g('pi') / fc(2) - self.app('asin', c(a[0]), True)
            if f in ('asin', 'atan', 'asinh', 'atanh', 'erf'): return self.app(f, c(a[0]), True)
            if f == 'erfc': return fc(1) - self.app('erf', c(a[0]), True)
            if f == 'fabs': return self.absf(c(a[0]))
            if f == 'ldexp': return c(a[0]) * self.pow(fc(2), c(a[1]))
            if f == 'frexp.m' : return c(a[0]) / self.pow(fc(2), c(T('math.frexp.e', a[0], ty='int')))
            if len(a) == 1: return self.app(f, c(a[0]))
            if len(a) == 2: return self.app2(f, c(a[0]), c(a[1]))
        if op == 'abs': return self.absf(c(a[0]))
        if op == 'int' and isinstance(a[0], Term) and a[0].ty == 'int': return c(a[0])
        if all(isinstance(x, (Term, int, float)) for x in a) and a:
            if len(a) == 1: return self.app(op, c(a[0]))
            if len(a) == 2: return self.app2(op, c(a[0]), c(a[1]))
        return self.g(('opaque',) + (t.uid,))

# ------------------------------------------------------------ differentiation
def diff(t, x):
    """Formal derivative of a term (expected formulas only)."""
    if t is x: return 1.0
    if not isinstance(t, Term): return 0.0
    if not any(s is x for s in subterms(t)): return 0.0
    op, a = t.op, t.args
    mul = lambda p, q: 0.0 if p == 0.0 and not isinstance(p, Term) or q == 0.0 and not isinstance(q, Term) else (q if p == 1.0 and not isinstance(p, Term) else p if q == 1.0 and not isinstance(q, Term) else T('mul', p, q))
    add = lambda p, q: q if not isinstance(p, Term) and p == 0.0 else p if not isinstance(q, Term) and q == 0.0 else T('add', p, q)
    neg = lambda p: -p if not isinstance(p, Term) else T('neg', p)
    div = lambda p, q: 0.0 if not isinstance(p, Term) and p == 0.0 else T('div', p, q)
    m = lambda f, *z: T('math.' + f, *z)
    D = lambda z: diff(z, x)
    if op == 'add': return add(D(a[0]), D(a[1]))
    if op == 'sub': return add(D(a[0]), neg(D(a[1])))
    if op == 'neg': return neg(D(a[0]))
    if op == 'mul': return add(mul(D(a[0]), a[1]), mul(a[0], D(a[1])))
    if op == 'div': return add(div(D(a[0]), a[1]), neg(div(mul(a[0], D(a[1])), T('mul', a[1], a[1]))))
    if op in ('pow', 'math.pow'):
        r = mul(D(a[0]), mul(a[1], T('pow', a[0], T('sub', a[1], 1.0))))
        de = D(a[1])
        if isinstance(de, Term) or de != 0.0:
            r = add(r, mul(de, mul(m('log', a[0]), t)))
        return r
    if op.startswith('math.'):
        f = op[5:]
        u = a[0]
        if f == 'log' and len(a) == 2:
            return D(T('div', m('log', a[0]), m('log', a[1])))
        if f == 'hypot':
            acc = 0.0
            for z in a: acc = add(acc, mul(z, D(z)))
            return div(acc, t)
        if f == 'atan2':
            y, z = a
            den = T('add', T('mul', y, y), T('mul', z, z))
            return add(div(mul(z, D(y)), den), neg(div(mul(y, D(z)), den)))
        one = 1.0
        sq = lambda z: T('mul', z, z)
        tab = {'sqrt': lambda: div(0.5, t), 'exp': lambda: t, 'expm1': lambda: m('exp', u), 'sin': lambda: m('cos', u), 'cos': lambda: neg(m('sin', u)),
               'tan': lambda: T('add', one, sq(t)), 'sinh': lambda: m('cosh', u), 'cosh': lambda: m('sinh', u), 'tanh': lambda: T('sub', one, sq(t)),
               'log': lambda: div(one, u), 'log10': lambda: div(one, T('mul', u, m('log', 10.0))), 'log2': lambda: div(one, T('mul', u, m('log', 2.0))),
               'log1p': lambda: div(one, T('add', one, u)), 'asin': lambda: div(one, m('sqrt', T('sub', one, sq(u)))), 'acos': lambda: div(-1.0, m('sqrt', T('sub', one, sq(u)))),
               'atan': lambda: div(one, T('add', one, sq(u))), 'asinh': lambda: div(one, m('sqrt', T('add', one, sq(u)))),
               'acosh': lambda: div(one, m('sqrt', T('sub', sq(u), one))), 'atanh': lambda: div(one, T('sub', one, sq(u))),
               'erf': lambda: T('mul', 2 / math.sqrt(math.pi), m('exp', neg(sq(u)))), 'erfc': lambda: T('mul', -2 / math.sqrt(math.pi), m('exp', neg(sq(u)))),
               'degrees': lambda: 180 / math.pi, 'radians': lambda: math.pi / 180,
               'cbrt': lambda: div(1.0 , T('mul', 3.0, sq(t))), 'exp2': lambda: T('mul', t, m('log', 2.0))}
        if f in tab:
            return mul(tab[f](), D(u))
    raise NoField('derivative of %s' % op)

# ------------------------------------------------------------ numeric evaluation of terms
class NoVal(Exception):
    pass

def digamma(x):
    r = 0.0
    if x < 0.5:
        return digamma(1 - x) - math.pi / math.tan(math.pi * x)
    while x < 10:
        r -= 1 / x
        x += 1
    f = 1 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1/12 - f * (1/120 - f * (1/252 - f * (1/240 - f / 132))))

def evalt(t, env, memo=None):
    """Value of a term at a point (env: Term -> number)."""
    if memo is None: memo = {}
    if isinstance(t, (Term, Phi)):
        k = t.uid
        if k in memo:
            r = memo[k]
            if isinstance(r, NoVal): raise r
            return r
        try:
            r = _evalt(t, env, memo)
        except NoVal as e:
            memo[k] = e
            raise
        memo[k] = r
        return r
    if isinstance(t, (bool, int, float, complex, str)) or t is None: return t
    if isinstance(t, tuple): return tuple(evalt(x, env, memo) for x in t)
    raise NoVal('value %r' % (t,))

def _evalt(t, env, memo):
    ev = lambda z: evalt(z, env, memo)
    if isinstance(t, Phi):
        return ev(t.a) if ev(t.c) else ev(t.b)
    if t in env: return env[t]
    op, a = t.op, t.args
    if op == 'sym': raise NoVal('free symbol %s' % a[0])
    try:
        if op == 'phi': return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'not': return not ev(a[0])
        if op == 'raises':
            return raises_at(t, ev)
        v = [ev(z) for z in a]
        if op == 'add': return v[0] + v[1]
        if op == 'sub': return v[0] - v[1]
        if op == 'mul': return v[0] * v[1]
        if op == 'div': return v[0] / v[1]
        if op == 'npdiv':
            if v[1] == 0: return math.nan if v[0] == 0 or v[0] != v[0] else math.copysign(math.inf, v[0])
            return v[0] / v[1]
        if op == 'floordiv': return v[0] // v[1]
        if op == 'mod': return v[0] % v[1]
        if op == 'pow':
            r = v[0] ** v[1]
            if isinstance(r, complex): raise NoVal('complex')
            return r
        if op == 'neg': return -v[0]
        if op in ('float', 'int', 'abs', 'bool'): return {'float': float, 'int': int, 'abs': abs, 'bool': bool}[op](v[0])
        if op == 'lt': return v[0] < v[1]
        if op == 'le': return v[0] <= v[1]
        if op == 'eq': return v[0] == v[1]
        if op in ('isnan', 'isinf', 'isfinite'): return getattr(math, op)(v[0])
        if op in ('min', 'max'): return {'min': min, 'max': max}[op](*v)
        if op == 'round': return round(*v)
        if op == 'cat': return ''.join(v)
        if op == 'format': return format(v[0], v[1])
        if op == 'pct': return v[0] % tuple(v[1:])
        if op == 'len': return len(v[0])
        if op == 'strmul': return v[0] * v[1]
        if op == 'str': return str(v[0])
        if op == 'repr': return repr(v[0])
        if op == 'str.translate': return v[0].translate(dict(v[1]))
        if op in ('str.partition', 'str.rpartition'): return getattr(v[0], op[4:])(v[1])[v[2]]
        if op == 'strin': return v[0] in v[1]
        if op == 'slice': return v[0][v[1]:v[2]:v[3]]
        if op.startswith('str.') and isinstance(v[0], str): return getattr(v[0], op[4:])(*v[1:])
        if op == 'digamma': return digamma(v[0])
        if op == 'gammaderiv': return digamma(v[0]) * math.gamma(v[0])
        if op.startswith('math.'):
            f = op[5:]
            if f == 'fsum': return math.fsum(v)
            if f == 'modf.f': return math.modf(v[0])[0]
            if f == 'modf.i': return math.modf(v[0])[1]
            if f == 'frexp.m': return math.frexp(v[0])[0]
            if f == 'frexp.e': return math.frexp(v[0])[1]
            return getattr(math, f)(*v)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError, AttributeError) as e:
        raise NoVal('%s: %s' % (type(e).__name__, e))
    raise NoVal('operation %s' % op)

def raises_at(t, ev):
    exc, what = t.args[0], t.args[1]
    v = [ev(z) for z in t.args[2:]]
    try:
        if what == 'pow' or what == '**':
            r = v[0] ** v[1]
            return exc in ('complex', 'ValueError') and isinstance(r, complex)
        if what.startswith('math.log.base'):
            math.log(2.0, v[0]); return False
        if what.startswith('math.'):
            getattr(math, what[5:])(*v); return False
        if what == 'float': float(v[0]); return False
        if what == 'int': int(v[0]); return False
    except Exception as e:
        return type(e).__name__ == exc
    raise NoVal('raises %s' % what)

def tree_holds(tr, ev):
    while tr is not True and tr is not False:
        tr = tr[1] if ev(tr[0]) else tr[2]
    return tr

def lits_hold(lits, env):
    """Do these guards hold at this point?  None when not evaluable."""
    memo = {}
    try:
        for c, p in lits:
            if isinstance(c, CT):
                if tree_holds(c.tree, lambda z: evalt(z, env, memo)) != p: return False
            elif bool(evalt(c, env, memo)) != p:
                return False
    except NoVal:
        return None
    return True

def atoms_of(lits):
    """The atomic conditions of a list of guards."""
    out, st = [], []
    for c, _ in lits:
        if isinstance(c, CT): st.append(c.tree)
        else: out.append(c)
    while st:
        t = st.pop()
        if t is True or t is False: continue
        out.append(t[0]); st += [t[1], t[2]]
    return out

def guard_points(pts, lits, eng, limit=3000):
    """More points, derived from the constants and symbols that the guards
    compare, inside the regions (and the order) the engine knows."""
    ats = atoms_of(lits)
    syms, consts = [], {0.0}
    for c in ats:
        for t in subterms(c):
            if isinstance(t, Term):
                if t.op == 'sym':
                    if t.ty in ('float', 'int', 'num') and t not in syms: syms.append(t)
                    if t.ty not in ('float', 'int', 'num'): return []
                for z in t.args:
                    if isinstance(z, (int, float)) and not isinstance(z, bool) and z == z and abs(z) < 1e300: consts.add(float(z))
    if not syms or not pts: return []
    def cands(s, p):
        r = eng.regions.get(s)
        v = []
        for c in consts:
            v += [c, -c, c + 0.375, c - 0.375, 2 * c, c / 2]
        v += [p[o] for o in syms if o is not s and o in p]
        out = []
        for z in v:
            if s.ty == 'int' and z != int(z): continue
            if r is not None and not r.contains(z): continue
            if z not in out: out.append(z)
        return out
    res = []
    base = pts[:6]
    for p in base:
        for i, s in enumerate(syms):
            if s not in p: continue
            for z in cands(s, p):
                q = dict(p); q[s] = z
                res.append(q)
                for s2 in syms[i + 1:i + 4]:
                    if s2 not in q: continue
                    for z2 in cands(s2, q):
                        q2 = dict(q); q2[s2] = z2
                        res.append(q2)
                if len(res) > limit: break
    ks = {key(s): s for s in set(s for p in base for s in p)}
    def ordered(p):
        for (ka, kb), o in eng.order.items():
            a, b = ks.get(ka), ks.get(kb)
            if a is None or b is None: continue
            u, v = p[a], p[b]
            if o == '<' and not u < v or o == '>' and not u > v or o == '=' and u != v: return False
        return True
    return [p for p in res if ordered(p)] if eng.order else res

# ------------------------------------------------------------ sampling
def samples(rngs, n=60, seed=7, extra=None):
    """Deterministic sample points inside a box of ranges (Term -> Rng)."""
    rnd = random.Random(seed)
    ks = list(rngs)
    def cand(r):
        base = []
        lo, hi = r.lo, r.hi
        if r.int is True:
            base = [x for x in (-7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8) if r.contains(x)]
            return [float(b) for b in base]
        for x in (-6.25, -3.7, -2.5, -1.6, -1.3, -0.83, -0.61, -0.37, -0.12, 0.09, 0.17, 0.31, 0.58, 0.77, 0.94, 1.21, 1.7, 2.3, 3.4, 5.9, 12.5):
            base.append(x)
        if math.isfinite(lo) and math.isfinite(hi):
            base += [lo + (hi - lo) * q for q in (0.11, 0.27, 0.43, 0.62, 0.81, 0.93)]
        elif math.isfinite(lo): base += [lo + q for q in (0.07, 0.4, 1.1, 2.6, 7.2)]
        elif math.isfinite(hi): base += [hi - q for q in (0.07, 0.4, 1.1, 2.6, 7.2)]
        base = [x for x in base if r.contains(x)]
        if r.point(): base = [r.lo]
        return base
    cs = {k: cand(r) for k, r in rngs.items()}
    out = []
    if any(not c for c in cs.values()): return out
    for i in range(n):
        env = {}
        for k in ks:
            env[k] = rnd.choice(cs[k])
        out.append(env)
    for x in extra or ():
        if all(rngs[k].contains(x[k]) for k in x if k in rngs): out.append(x)
    return out

def close(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
    if a != a or b != b: return a != a and b != b
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol * max(1e-12, abs(a), abs(b)) + 1e-13

def has_inf(t):
    """An infinite constant occurs in the term (no normal form: the value
    only depends on the signs of the other ones)."""
    if isinstance(t, float): return math.isinf(t)
    return isinstance(t, Term) and any(has_inf(x) for x in t.args)

def substc(t, x, y):
    if t is x or same(t, x): return y
    if isinstance(t, Term):
        args = [substc(a, x, y) for a in t.args]
        return T(t.op, *args, ty=t.ty)
    return t

def pinned(guards):
    """[(symbol, constant)] of the equalities among the guards."""
    out = []
    for c, q in guards:
        if isinstance(c, CT) and isinstance(c.tree, tuple) and c.tree[1:] in ((True, False), (False, True)):
            q = q is c.tree[1]; c = c.tree[0]
        if q is True and isinstance(c, Term) and c.op == 'eq':
            for x, y in (c.args, c.args[::-1]):
                if isinstance(x, Term) and x.op == 'sym' and isinstance(y, (int, float)) and not isinstance(y, bool): out.append((x, y))
    return out

def equal(a, b, points=(), tol=1e-7, guards=(), field=None):
    """Compare two terms where `guards` hold.
    -> ('equal'|'different'|'undecided', witness/explanation)"""
    an = isinstance(a, float) and a != a
    bn = isinstance(b, float) and b != b
    if an and bn: return 'equal', 'nan'
    if has_unknown(a) or has_unknown(b):
        return 'undecided', 'no information (%s)' % (a if has_unknown(a) else b,)
    if same(a, b): return 'equal', 'identical'
    if isinstance(a, float) and isinstance(b, float) and not math.isinf(a) and abs(a - b) <= 1e-14 * abs(b): return 'equal', 'up to rounding'
    if not an and not bn:
        try:
            fl = field or Field()
            # symbols that are positive in the whole region
            fl.positive = {('sym', t.args[0]) for t in (points[0] if points else ()) if isinstance(t, Term) and t.op == 'sym' and all(env.get(t, 0) > 0 for env in points)}
            if fl.eq(fl.conv(a), fl.conv(b)): return 'equal', 'normal form'
            eqs = pinned(guards)
            if eqs:
                a2, b2 = a, b
                for x, y in eqs: a2, b2 = substc(a2, x, y), substc(b2, x, y)
                if fl.eq(fl.conv(a2), fl.conv(b2)): return 'equal', 'normal form where %s' % ', '.join('%s is %s' % e for e in eqs)
        except (NoField, RecursionError):
            pass
    n = agree = 0
    bad = []
    for env in points:
        if guards:
            if lits_hold(guards, env) is not True: continue
        try:
            x, y = evalt(a, env), evalt(b, env)
        except NoVal as ex:
            continue
        n += 1
        if isinstance(x, complex) or isinstance(y, complex): continue
        if close(x, y, tol): agree += 1
        else: bad.append((env, x, y))
    if bad and len(bad) >= max(1, n // 4):
        env, x, y = bad[0]
        return 'different', {'at': {str(k): v for k, v in env.items()}, 'found': x, 'expected': y, 'n': n, 'disagree': len(bad)}
    if an or bn:
        if not points: return 'undecided', 'nan'
    if n >= 5 and not bad and (has_inf(a) or has_inf(b)): return 'equal', 'infinite constants, evaluated in %d cells' % n
    if n >= 8 and agree == n and not an and not bn:
        # two expressions of equal squares, without a zero nor a change of sign in the region, are equal
        try:
            vals = [evalt(a, env) for env in points if not guards or lits_hold(guards, env) is True]
            if all(isinstance(v, (int, float)) and math.isfinite(v) and v for v in vals):
                fl = Field()
                fl.positive = {('sym', t.args[0]) for t in points[0] if isinstance(t, Term) and t.op == 'sym' and all(env.get(t, 0) > 0 for env in points)}
                x, y = fl.conv(a), fl.conv(b)
                if fl.is_zero(x * x - y * y): return 'equal', 'equal squares, without a zero in the region'
        except (NoField, NoVal, RecursionError):
            pass
    if n and not bad: return 'undecided', 'agrees at %d sampled points, normal forms differ' % n
    return 'undecided', 'no usable sample point' if not n else 'agree %d/%d' % (agree, n)
