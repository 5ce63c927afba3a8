"""Abstract values of the analysis.

The value domain is  constants x hash-consed terms (value numbering) x gated
joins (Phi) x heap references.  Nothing here executes repository code.
"""
import math

class Term:
    """An abstract scalar: an uninterpreted operation applied to abstract
    values.  Hash-consed, so structurally equal values are the same object."""
    __slots__ = ('op', 'args', 'ty', 'site', 'uid', '__weakref__')
    def __repr__(self):
        return show(self)

class Phi:
    """Gated join: value `a` where condition `c` holds, `b` where it does not."""
    __slots__ = ('c', 'a', 'b', 'uid', 'absent')
    def __repr__(self):
        return show(self)

class Unknown:
    """No information (top), with the reason for losing it."""
    __slots__ = ('why', 'uid')
    _n = 0
    def __init__(self, why):
        self.why = why
        Unknown._n += 1
        self.uid = Unknown._n
    def __repr__(self):
        return 'Unknown(%s)' % self.why

class Ref:
    """Reference to an abstract heap object (allocation site instance)."""
    __slots__ = ('a',)
    def __init__(self, a):
        self.a = a
    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a
    def __hash__(self):
        return hash(('ref', self.a))
    def __repr__(self):
        return 'Ref(%d)' % self.a

class Ext:
    """Something that lives outside of the analysed sources (library)."""
    __slots__ = ('path',)
    _i = {}
    def __new__(cls, path):
        e = cls._i.get(path)
        if e is None:
            e = object.__new__(cls)
            e.path = path
            cls._i[path] = e
        return e
    def __repr__(self):
        return 'Ext(%s)' % self.path

class Bound:
    """Bound method: callable `func` with first argument `self`."""
    __slots__ = ('func', 'self')
    def __init__(self, func, self_):
        self.func = func
        self.self = self_
    def __eq__(self, o):
        return isinstance(o, Bound) and same(o.func, self.func) and same(o.self, self.self)
    def __hash__(self):
        return hash((key(self.func), key(self.self)))
    def __repr__(self):
        return 'Bound(%r, %r)' % (self.func, self.self)

class Partial:
    """functools.partial-like closure."""
    __slots__ = ('func', 'args', 'kwargs')
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)
    def __repr__(self):
        return 'Partial(%r)' % (self.func,)

class _Absent:
    def __repr__(self):
        return 'ABSENT'
ABSENT = _Absent()

PRIM = (int, float, str, bool, complex, bytes, type(None), type(NotImplemented), type(Ellipsis))

def is_prim(v):
    return isinstance(v, PRIM)

def key(v):
    """Identity of an abstract value."""
    if isinstance(v, (Term, Phi)):
        return v.uid
    if isinstance(v, tuple):
        return ('t',) + tuple(key(x) for x in v)
    if isinstance(v, float):
        return ('f', 'nan' if v != v else v.hex())
    if is_prim(v):
        return (type(v).__name__, v)
    if isinstance(v, frozenset):
        return ('fs', frozenset(key(x) for x in v))
    if isinstance(v, Ref):
        return ('r', v.a)
    if isinstance(v, Ext):
        return ('e', v.path)
    if isinstance(v, Bound):
        return ('b', key(v.func), key(v.self))
    if isinstance(v, Unknown):
        return ('u', v.uid)
    if v is ABSENT:
        return ('absent',)
    if isinstance(v, Partial):
        return ('p', id(v))
    return ('o', id(v))

def same(a, b):
    return a is b or key(a) == key(b)

_terms = {}
_phis = {}
_keep = []
_cnt = [0]
_site = [None]          # callback giving the current source site

def T(op, *args, ty='float'):
    k = (op, ty) + tuple(key(a) for a in args)
    t = _terms.get(k)
    if t is None:
        t = object.__new__(Term)
        t.op, t.args, t.ty = op, args, ty
        _cnt[0] += 1
        t.uid = ('T', _cnt[0])
        t.site = _site[0]() if _site[0] else None
        _terms[k] = t
    return t

def sym(name, ty='float'):
    return T('sym', name, ty=ty)

def mkphi(c, a, b):
    if same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is tuple and type(b) is tuple:
        return tuple(mkphi(c, x, y) for x, y in zip(a, b))
    if a is True and b is False and isinstance(c, Term) and c.ty == 'bool':
        return c
    if a is False and b is True and isinstance(c, Term) and c.ty == 'bool':
        return T('not', c, ty='bool')
    # nested gates on the same condition
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if same(a, b):
        return a
    k = (c.uid, key(a), key(b))
    p = _phis.get(k)
    if p is None:
        p = object.__new__(Phi)
        p.c, p.a, p.b = c, a, b
        p.absent = a is ABSENT or b is ABSENT or (isinstance(a, Phi) and a.absent) or (isinstance(b, Phi) and b.absent)
        _cnt[0] += 1
        p.uid = ('P', _cnt[0])
        _phis[k] = p
    return p

def restrict(v, c, pol):
    while isinstance(v, Phi) and v.c is c:
        v = v.a if pol else v.b
    return v

def leaves(v, guards=()):
    """Decision-tree leaves of a gated value: (guards, value)."""
    if isinstance(v, Phi):
        for lit in guards:
            if lit[0] is v.c:
                yield from leaves(v.a if lit[1] else v.b, guards)
                return
        yield from leaves(v.a, guards + ((v.c, True),))
        yield from leaves(v.b, guards + ((v.c, False),))
    else:
        yield guards, v

def has_unknown(v, seen=None):
    if isinstance(v, Unknown):
        return True
    if seen is None:
        seen = set()
    if isinstance(v, (Term, Phi)):
        if v.uid in seen:
            return False
        seen.add(v.uid)
        if isinstance(v, Phi):
            return has_unknown(v.c, seen) or has_unknown(v.a, seen) or has_unknown(v.b, seen)
        return v.op == 'unk' or any(has_unknown(a, seen) for a in v.args)
    if isinstance(v, tuple):
        return any(has_unknown(a, seen) for a in v)
    return False

def subterms(v, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, (Term, Phi)):
        if v.uid in seen:
            return
        seen.add(v.uid)
        yield v
        for a in (v.args if isinstance(v, Term) else (v.c, v.a, v.b)):
            yield from subterms(a, seen)
    elif isinstance(v, tuple):
        for a in v:
            yield from subterms(a, seen)

_INFIX = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'floordiv': '//', 'mod': '%', 'pow': '**',
          'lt': '<', 'le': '<=', 'eq': '=='}
def show(v, depth=0):
    if depth > 12:
        return '...'
    if isinstance(v, Term):
        if v.op == 'sym':
            return str(v.args[0])
        if v.op in _INFIX and len(v.args) == 2:
            return '(%s %s %s)' % (show(v.args[0], depth+1), _INFIX[v.op], show(v.args[1], depth+1))
        if v.op == 'neg':
            return '-%s' % show(v.args[0], depth+1)
        return '%s(%s)' % (v.op, ', '.join(show(a, depth+1) for a in v.args))
    if isinstance(v, Phi):
        return '[%s ? %s : %s]' % (show(v.c, depth+1), show(v.a, depth+1), show(v.b, depth+1))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(a, depth+1) for a in v)
    return repr(v)

# --------------------------------------------------------------- ranges
class Rng:
    """Interval (lo, hi) with open/closed ends, possible NaN, integrality."""
    __slots__ = ('lo', 'hi', 'lc', 'hc', 'nan', 'int')
    def __init__(self, lo=-math.inf, hi=math.inf, lc=True, hc=True, nan=False, int=None):
        self.lo, self.hi, self.lc, self.hc, self.nan, self.int = lo, hi, lc, hc, nan, int
    def copy(self, **kw):
        r = Rng(self.lo, self.hi, self.lc, self.hc, self.nan, self.int)
        for k, v in kw.items():
            setattr(r, k, v)
        return r
    def contains(self, x):
        if x != x:
            return self.nan
        if x < self.lo or (x == self.lo and not self.lc):
            return False
        if x > self.hi or (x == self.hi and not self.hc):
            return False
        if self.int is True and not math.isinf(x) and x != int(x):
            return False
        if self.int is False and not math.isinf(x) and x == int(x):
            return False
        return True
    def meet(self, o):
        if o.lo > self.lo or (o.lo == self.lo and not o.lc):
            lo, lc = o.lo, o.lc
        else:
            lo, lc = self.lo, self.lc
        if o.hi < self.hi or (o.hi == self.hi and not o.hc):
            hi, hc = o.hi, o.hc
        else:
            hi, hc = self.hi, self.hc
        return Rng(lo, hi, lc, hc, self.nan and o.nan, self.int if self.int is not None else o.int)
    def empty(self):
        if self.nan:
            return False
        return self.lo > self.hi or (self.lo == self.hi and not (self.lc and self.hc))
    def point(self):
        return (self.lo == self.hi and self.lc and self.hc and not self.nan)
    def __repr__(self):
        return '%s%s,%s%s%s%s' % ('[' if self.lc else '(', self.lo, self.hi, ']' if self.hc else ')',
                                  '|nan' if self.nan else '', '' if self.int is None else ('|int' if self.int else '|nonint'))
FIN = lambda **k: Rng(-math.inf, math.inf, False, False, **k)
POS = lambda **k: Rng(0, math.inf, False, False, **k)
NEG = lambda **k: Rng(-math.inf, 0, False, False, **k)
NONNEG = lambda **k: Rng(0, math.inf, True, False, **k)
