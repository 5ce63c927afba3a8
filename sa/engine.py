"""Flow- and context-sensitive abstract interpreter for the repository.

Domain: terms.py values x an abstract heap of allocation-site instances.
Both arms of an undecided branch are analysed and *joined* into gated values;
there is no path enumeration, no solver, and nothing of the repository is
imported or executed: only its syntax trees are read.
"""
import ast, math, os, sys, time, builtins as _bi, importlib
from .terms import *
from . import terms as _terms

sys.setrecursionlimit(60000)

# ------------------------------------------------------------ signals
class Sig(Exception):
    pass
class PathDead(Sig):
    pass
class ReturnSig(Sig):
    kind = 'return'
    def __init__(self, value): self.value = value
class BreakSig(Sig):
    kind = 'loop'
class ContinueSig(Sig):
    kind = 'loop'
class AbsRaise(Sig):
    kind = 'raise'
    def __init__(self, exc): self.exc = exc
class GiveUp(Exception):
    """The analysis cannot follow the code any further (not a verdict)."""

class CT:
    """Condition tree literal: the part of the space a joined state covers."""
    __slots__ = ('tree',)
    def __init__(self, tree): self.tree = tree
    def __eq__(self, o): return isinstance(o, CT) and (o.tree is self.tree or o.tree == self.tree)
    def __hash__(self): return hash(self.tree)
    def __repr__(self): return 'CT%r' % (self.tree,)

def node(c, t, f):
    if t is f or (isinstance(t, tuple) and t == f):
        return t
    return (c, t, f)

def conj(lits):
    out = True
    for c, p in reversed(lits):
        if isinstance(c, CT):
            out = graft(c.tree, out)
        elif p:
            out = node(c, out, False)
        else:
            out = node(c, False, out)
    return out

def graft(t, leaf):
    if t is True: return leaf
    if t is False: return False
    return node(t[0], graft(t[1], leaf), graft(t[2], leaf))

def restrict_tree(t, known):
    if t is True or t is False: return t
    if t[0] in known:
        return restrict_tree(t[1] if known[t[0]] else t[2], known)
    a, b = restrict_tree(t[1], known), restrict_tree(t[2], known)
    if a is t[1] and b is t[2]: return t
    return node(t[0], a, b)

class HObj:
    __slots__ = ('kind', 'cls', 'f', 'items', 'd', 'tok', 'site')
    def __init__(self, kind, cls=None, f=None, items=None, d=None):
        self.kind, self.cls, self.f, self.items, self.d = kind, cls, f if f is not None else {}, items, d
        self.tok = None
        self.site = None
    def clone(self):
        o = HObj(self.kind, self.cls, dict(self.f), list(self.items) if self.items is not None else None,
                 dict(self.d) if self.d is not None else None)
        o.site = self.site
        return o

class Native:
    """A harness-supplied abstract function (models a caller's function)."""
    def __init__(self, fn, name, args=None, doc='doc'):
        self.fn, self.name, self.argnames, self.doc = fn, name, args, doc
    def __repr__(self):
        return 'Native(%s)' % self.name

class VDict(dict):
    """Dictionary whose changes invalidate the range caches."""
    ver = 0
    def __setitem__(self, k, v):
        VDict.ver += 1
        dict.__setitem__(self, k, v)
    def __delitem__(self, k):
        VDict.ver += 1
        dict.__delitem__(self, k)
    def pop(self, *a):
        VDict.ver += 1
        return dict.pop(self, *a)
    def setdefault(self, k, v=None):
        VDict.ver += 1
        return dict.setdefault(self, k, v)
    def update(self, *a, **k):
        VDict.ver += 1
        dict.update(self, *a, **k)

class NDict(dict):
    """Narrowed ranges of a state, with a cache of derived ranges."""
    __slots__ = ('cache', 'ver')
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.cache, self.ver = {}, -1
    def __setitem__(self, k, v):
        self.ver = -1
        dict.__setitem__(self, k, v)

class State:
    __slots__ = ('h', 'lits', 'ad', 'narrow', 'tok')
    def __init__(self):
        self.h, self.lits, self.ad, self.narrow, self.tok = {}, (), {}, NDict(), object()
    def child(self):
        s = State()
        s.h = dict(self.h)
        s.lits, s.ad, s.narrow = self.lits, self.ad, self.narrow
        return s

class Sink:
    def __init__(self, kinds):
        self.kinds = kinds
        self.got = []

class Engine:
    MAXDEPTH = 220
    MAXSTEPS = 4_000_000
    UNROLL = 40

    def __init__(self, root='/repo', numpy=True, overlay=None):
        self.root = root
        self.numpy = numpy
        self.overlay = overlay or {}
        self.base = {}
        self.st = State()
        self.naddr = 0
        self.modules = {}
        self.sinks = []
        self.stack = []
        self.maxact = {}
        self.cur = ('?', 0)
        self.steps = 0
        self.work = 0            # elements handled by built-in operations
        self.deepest = 0         # nested calls
        self.deadline = math.inf
        self.regions = VDict()
        self.hashed = {}
        self.order = VDict()
        self.registered = []
        self.deciders = []
        self.notes = []          # imprecision log
        self.intervals = False   # numeric bounds (not only signs) for arithmetic results
        self.gen_marks = []      # generators being run: [first address, own addresses, writes elsewhere]
        self.bmemo = {}
        self.exc_mode = False    # fork on may-raise conditions of primitives
        self.calls = {}          # analysed functions: site -> count
        self.events = None       # trap events
        self.trees = {}
        self.fallbacks = {}
        self.cond_sites = {}
        from . import lib
        self.lib = lib.Lib(self)
        self.warn_addr = self.alloc(HObj('list', items=[]))
        _terms._site[0] = self.site

    # ------------------------------------------------------------ misc
    def site(self):
        fn = self.stack[-1][1] if self.stack else '<module>'
        return (self.cur[0], self.cur[1], fn)

    def note(self, msg):
        s = '%s [%s:%s]' % (msg, self.cur[0], self.cur[1])
        if s not in self.notes:
            self.notes.append(s)

    def unknown(self, why):
        self.note(why)
        return Unknown(why)

    # ------------------------------------------------------------ heap
    def alloc(self, o):
        self.naddr += 1
        if o.items: self.work += len(o.items)
        if o.d: self.work += len(o.d)
        o.tok = self.st.tok
        o.site = self.site() if self.stack else self.cur
        self.st.h[self.naddr] = o
        return Ref(self.naddr)

    def obj(self, r):
        o = self.st.h.get(r.a)
        if o is None:
            o = self.base[r.a]
        return o

    def w(self, r):
        """Object for writing (copy on write)."""
        if self.gen_marks:
            m = self.gen_marks[-1]
            if r.a <= m[0] and r.a not in m[1] and self.obj(r).kind != 'iter': m[2] = True
        o = self.st.h.get(r.a)
        if o is None:
            o = self.base[r.a].clone()
        elif o.tok is self.st.tok:
            return o
        else:
            o = o.clone()
        o.tok = self.st.tok
        self.st.h[r.a] = o
        return o

    def freeze(self):
        self.base = dict(self.base)
        self.base.update(self.st.h)
        self.st = State()

    def snapshot(self):
        """Save the current state; restore() brings it back."""
        saved = self.st
        self.st = saved.child()
        return (saved, dict(self.regions), dict(self.order), list(self.deciders))

    def restore(self, snap):
        self.st = snap[0].child()
        self.regions, self.order, self.deciders = VDict(snap[1]), VDict(snap[2]), list(snap[3])
        VDict.ver += 1
        self.sinks, self.stack, self.gen_marks = [], [], []

    def is_kind(self, v, *kinds):
        return isinstance(v, Ref) and self.obj(v).kind in kinds

    def new_list(self, items):
        return self.alloc(HObj('list', Ext('builtins.list'), items=list(items)))
    def new_dict(self, pairs=(), cls=None):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        return self.alloc(HObj('dict', cls or Ext('builtins.dict'), d=d))
    def new_set(self, items=(), cls=None):
        d = {}
        for k in items:
            d.setdefault(self.hkey(k), (k, True))
        return self.alloc(HObj('set', cls or Ext('builtins.set'), d=d))
    def new_iter(self, items, tail=ABSENT, what='iterator'):
        o = HObj('iter', Ext('builtins.' + what), items=list(items))
        o.f['tail'] = tail
        return self.alloc(o)

    def lazy_iter(self, driver, what='generator'):
        """Iterator whose elements are given to emit() by driver(emit), when they are consumed."""
        o = HObj('iter', Ext('builtins.' + what), items=[])
        o.f['tail'] = ABSENT
        o.f['pending'] = driver
        return self.alloc(o)

    def pending(self, v):
        if not isinstance(v, Ref): return None
        o = self.obj(v)
        return o.f.get('pending') if o.kind == 'iter' else None

    def take_pending(self, v):
        d = self.pending(v)
        self.w(v).f['pending'] = None
        return d

    def force(self, v):
        """Runs the producer of an iterator; tells whether it modified objects that the rest of the program can see."""
        d = self.take_pending(v)
        self.gen_marks.append([self.naddr, d.own, False])
        out = self.new_list([])
        try: tail = d.run(out)
        finally: dirty = self.gen_marks.pop()[2]
        if self.gen_marks and dirty: self.gen_marks[-1][2] = True
        w = self.w(v)
        w.items, w.f['tail'], w.f['dirty'] = list(self.obj(out).items), tail, dirty

    def hkey(self, k):
        """Key under which a value is stored in dicts and sets."""
        if isinstance(k, bool):
            return ('n', int(k))
        if isinstance(k, (int, float)) and k == k:
            return ('n', k)
        if isinstance(k, tuple):
            return ('t',) + tuple(self.hkey(x) for x in k)
        if isinstance(k, Ref):
            o = self.obj(k)
            if o.kind in ('list', 'dict', 'set') and o.cls is not Ext('builtins.frozenset'):
                self.raise_('TypeError', 'unhashable type')
            if o.kind == 'inst' and '_num' in o.f:
                return self.hkey(o.f['_num'])
            if o.kind == 'inst' and isinstance(o.cls, Ref):
                return self.hkey_inst(k, o)
        return key(k)

    def hkey_inst(self, k, o):
        '''Instances of repository classes: Python calls __hash__(), then __eq__() for the keys that have the same hash.'''
        h = self.class_lookup(o.cls, '__hash__')
        if h is None:
            if self.class_has(o.cls, '__hash__'):
                self.raise_('TypeError', 'unhashable type: %s' % show(o.cls))
            return key(k)
        if not self.is_kind(h, 'func'):
            return key(k)
        v = self.call(self.bind(h, k), [], {})
        if isinstance(v, Term) and v.op == 'id' and same(v.args[0], k):
            return key(k)
        if isinstance(v, (Phi, Unknown)) or not isinstance(v, (Term, int)):
            raise GiveUp('hash %s of a key' % show(v))
        # another hash: equal to the keys seen with this hash, or different from them
        hk = key(v) if isinstance(v, Term) else ('n', v)
        for other, kk in self.hashed.get(hk, ()):
            if same(other, k): return kk
            if other.a not in self.st.h and other.a not in self.base: continue
            t = self.truth(self.cmp('==', other, k))
            if t is True: return kk
            if t is not False: raise GiveUp('equality of keys that have the same hash')
        kk = ('hashed', hk, key(k))
        self.hashed.setdefault(hk, []).append((k, kk))
        return kk

    # ------------------------------------------------------------ exceptions
    def make_exc(self, cls, *args):
        if isinstance(cls, str):
            cls = Ext('builtins.' + cls)
        return self.alloc(HObj('inst', cls, {'args': tuple(args)}))

    def raise_(self, cls, *args):
        raise AbsRaise(self.make_exc(cls, *args))

    def may_raise(self, excname, op, args, definite=False, text=''):
        """Primitive may raise: definite -> raise; otherwise only followed in
        exception mode (fork on an opaque 'raises' condition)."""
        if definite:
            self.raise_(excname, text)
        if self.exc_mode:
            c = T('raises', excname, op, *args, ty='bool')
            self.fork(c, True, lambda: self.raise_(excname, text), lambda: None)

    # ------------------------------------------------------------ decisions
    def rng(self, t, depth=0):
        if isinstance(t, bool):
            t = int(t)
        if isinstance(t, (int, float)):
            if t != t:
                return Rng(math.inf, -math.inf, False, False, True)
            return Rng(t, t, int=(not math.isinf(t) and t == int(t)))
        if isinstance(t, Ref) and self.obj(t).kind == 'inst' and '_num' in self.obj(t).f:
            return self.rng(self.obj(t).f['_num'], depth)
        if not isinstance(t, Term) or depth > 30:
            return Rng(nan=True)
        if t.ty == 'bool':
            return Rng(0, 1, int=True)
        nw = self.st.narrow
        if nw.ver != VDict.ver:
            nw.cache, nw.ver = {}, VDict.ver
        memo = nw.cache
        r = memo.get(t)
        if r is not None: return r
        r = self.regions.get(t)
        if r is None:
            r = self._rng(t, depth + 1)
            if self.intervals and t.op not in ('sym', 'float'):
                f = self.bounds(t)
                if f is not None: r = r.meet(Rng(f[0], f[1], nan=False, int=r.int))
        n = nw.get(t.uid)
        if n is not None:
            r = r.meet(n)
        memo[t] = r
        return r

    def _rng(self, t, depth):
        op = t.op
        R = lambda i: self.rng(t.args[i], depth)
        top = Rng(nan=True, int=True if t.ty == 'int' else None)
        if t.ty == 'int':
            top = Rng(-math.inf, math.inf, False, False, int=True)
        try:
            if op == 'neg':
                a = R(0); return Rng(-a.hi, -a.lo, a.hc, a.lc, a.nan, a.int)
            if op in ('pos', 'float', 'int') and op != 'int':
                return R(0)
            if op in ('abs', 'math.fabs'):
                a = R(0)
                if a.lo >= 0: return a
                if a.hi <= 0: return Rng(-a.hi, -a.lo, a.hc, a.lc, a.nan, a.int)
                return Rng(0, max(-a.lo, a.hi), True, True if math.isinf(max(-a.lo, a.hi)) and not (a.lo==-math.inf and a.hi==math.inf and not a.lc and not a.hc) else (a.hc and a.lc), a.nan, a.int)
            if op == 'math.sqrt':
                a = R(0)
                lo = max(a.lo, 0.0)
                return Rng(math.sqrt(lo), math.sqrt(a.hi) if a.hi >= 0 else math.inf, a.lc or a.lo < 0, True, a.nan)
            if op == 'math.exp':
                return Rng(0, math.inf, True, True, R(0).nan)
            if op in ('math.sin', 'math.cos', 'math.tanh', 'math.erf'):
                return Rng(-1, 1, nan=R(0).nan)
            if op == 'math.hypot':
                ars = [self.rng(x, depth) for x in t.args]
                los, his, hc = [], [], True
                for r in ars:
                    if r.lo > r.hi: return Rng(nan=True) if not any(q.contains(math.inf) or q.contains(-math.inf) for q in ars) else Rng(0, math.inf, True, True, True)
                    lo = 0.0 if r.contains(0) or r.lo < 0 < r.hi else min(abs(r.lo), abs(r.hi))
                    los.append(lo); his.append(max(abs(r.lo), abs(r.hi)))
                # scaled a little outwards: rounding
                lo, hi = (max(los), math.hypot(*his) * (1 + 1e-15))
                closed = not any(not r.contains(0) and l == 0 for r, l in zip(ars, los)) if lo == 0 else True
                return Rng(lo, hi, closed, True, any(r.nan for r in ars))
            if op in ('math.floor', 'math.ceil', 'math.trunc'):
                return Rng(-math.inf, math.inf, False, False, int=True)
            if op == 'add':
                a, b = R(0), R(1)
                nan = a.nan or b.nan or (a.contains(math.inf) and b.contains(-math.inf)) or (a.contains(-math.inf) and b.contains(math.inf))
                return Rng(a.lo + b.lo if not (math.isinf(a.lo) or math.isinf(b.lo)) else (-math.inf if -math.inf in (a.lo, b.lo) else math.inf),
                           a.hi + b.hi if not (math.isinf(a.hi) or math.isinf(b.hi)) else (math.inf if math.inf in (a.hi, b.hi) else -math.inf),
                           a.lc and b.lc, a.hc and b.hc, nan,
                           True if a.int and b.int else (False if (a.int is True and b.int is False) or (a.int is False and b.int is True) else None)) if not (math.inf in (a.lo, b.lo)) else Rng(nan=True)
            if op == 'sub':
                a, b = t.args
                o = self.order_of(a, b)
                ra, rb = R(0), R(1)
                nan = ra.nan or rb.nan or (ra.contains(math.inf) and rb.contains(math.inf)) or (ra.contains(-math.inf) and rb.contains(-math.inf))
                if o == '<': return Rng(-math.inf, 0, True, False)
                if o == '>': return Rng(0, math.inf, False, True)
                if o == '=': return Rng(0, 0)
                lo = ra.lo - rb.hi if not (math.isinf(ra.lo) or math.isinf(rb.hi)) else -math.inf
                hi = ra.hi - rb.lo if not (math.isinf(ra.hi) or math.isinf(rb.lo)) else math.inf
                return Rng(lo, hi, ra.lc and rb.hc, ra.hc and rb.lc, nan,
                           True if ra.int and rb.int else (False if (ra.int is True and rb.int is False) or (ra.int is False and rb.int is True) else None))
            if op == 'mul':
                a, b = R(0), R(1)
                if t.args[0] is t.args[1] and isinstance(t.args[0], Term) and not a.point():
                    return Rng(0, math.inf, a.contains(0), True, a.nan)
                nan = a.nan or b.nan or (a.contains(0) and (b.contains(math.inf) or b.contains(-math.inf))) or (b.contains(0) and (a.contains(math.inf) or a.contains(-math.inf)))
                return self._sgnprod(a, b, nan, True if a.int and b.int else None)
            if op == 'div':
                a, b = R(0), R(1)
                nan = a.nan or b.nan or ((a.contains(math.inf) or a.contains(-math.inf)) and (b.contains(math.inf) or b.contains(-math.inf)))
                r = self._sgnprod(a, b, nan, None, mag=False)
                # a non-zero numerator stays non-zero in the real semantics
                if not a.contains(0) and not r.contains(0):
                    pass
                return r
            if op in ('pow', 'math.pow'):
                a, b = R(0), R(1)
                if isinstance(t.args[1], (int, float)) and t.args[1] == int(t.args[1]) and int(t.args[1]) % 2 == 0:
                    z = t.args[1] > 0 and a.contains(0)
                    if z and a.point(): return Rng(0, 0, int=True)
                    return Rng(0, math.inf, z, True, a.nan)
                if a.lo > 0 or (a.lo == 0 and not a.lc):
                    return Rng(0, math.inf, False, True, a.nan or b.nan)
                if a.lo >= 0:
                    return Rng(0, math.inf, True, True, a.nan or b.nan)
                return Rng(nan=True)
            if op == 'mod':
                a, b = R(0), R(1)
                if t.args[1] in (1, 1.0) and a.int is True:
                    return Rng(0, 0)
                if t.args[1] in (1, 1.0) and a.int is False:
                    return Rng(0, 1, False, False, a.nan)
                if b.lo > 0 or (b.lo == 0 and not b.lc):
                    return Rng(0, b.hi, True, True, True)
                return top
            if op == 'len':
                return Rng(0, math.inf, True, False, int=True)
            if op == 'math.copysign':
                return Rng(nan=True)
            if op == 'id':
                return Rng(1, math.inf, True, False, int=True)
        except (OverflowError, ValueError, TypeError, IndexError):
            pass
        return top

    def bounds(self, t):
        """Numeric bounds of a term whose operands are bounded, or None."""
        if isinstance(t, (int, float)):
            return (t, t) if t == t and not math.isinf(t) else None
        r = self.rng(t) if isinstance(t, Term) and t.op == 'sym' else None
        if r is not None:
            return None if r.nan or math.isinf(r.lo) or math.isinf(r.hi) else (r.lo, r.hi)
        if not isinstance(t, Term): return None
        if t.uid in self.bmemo: return self.bmemo[t.uid]
        v = self.bmemo[t.uid] = self._bounds(t)
        return v

    def _bounds(self, t):
        op = t.op
        MONO = {'math.log10': math.log10, 'math.log': math.log, 'math.log2': math.log2, 'math.floor': math.floor, 'math.ceil': math.ceil, 'math.trunc': math.trunc, 'math.sqrt': math.sqrt, 'sqrt': math.sqrt,
                'int': int, 'float': float, 'pos': lambda x: x, 'math.exp': math.exp}
        if op not in MONO and op not in ('neg', 'abs', 'math.fabs', 'add', 'sub', 'mul', 'div', 'floordiv', 'pow', 'math.pow', 'round', 'min', 'max'): return None
        b = [self.bounds(x) for x in t.args]
        if any(x is None for x in b): return None
        try:
            # the logarithm of a number that is not positive raises: those of the smallest floats bound the others
            if op in ('math.log10', 'math.log', 'math.log2') and len(b) == 1 and b[0][0] <= 0 < b[0][1]: return (MONO[op](5e-324), MONO[op](b[0][1]))
            if op in MONO and len(b) == 1: return (MONO[op](b[0][0]), MONO[op](b[0][1]))
            if op == 'neg': return (-b[0][1], -b[0][0])
            if op in ('abs', 'math.fabs'):
                l, h = b[0]
                return (l, h) if l >= 0 else (-h, -l) if h <= 0 else (0, max(-l, h))
            if op == 'add': return (b[0][0] + b[1][0], b[0][1] + b[1][1])
            if op == 'sub': return (b[0][0] - b[1][1], b[0][1] - b[1][0])
            if op in ('min', 'max'):
                f = min if op == 'min' else max
                return (f(x[0] for x in b), f(x[1] for x in b))
            if op == 'round':
                if len(b) == 1: return (round(b[0][0]), round(b[0][1]))
                if b[1][0] == b[1][1] and isinstance(t.args[1], int): return (round(b[0][0], t.args[1]), round(b[0][1], t.args[1]))
                return None
            if op in ('mul', 'div', 'floordiv'):
                if op != 'mul' and b[1][0] <= 0 <= b[1][1]: return None
                f = {'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'floordiv': lambda x, y: x // y}[op]
                v = [f(x, y) for x in b[0] for y in b[1]]
                return (min(v), max(v))
            if op in ('pow', 'math.pow'):
                if b[0][0] > 0 or b[0][0] >= 0 and b[1][0] > 0:
                    v = [x ** y for x in b[0] for y in b[1]]
                    return (min(v), max(v))
                k = t.args[1]
                if isinstance(k, int) and k > 0:
                    v = [x ** k for x in b[0]] + ([0.0] if b[0][0] <= 0 <= b[0][1] else [])
                    return (min(v), max(v))
        except (OverflowError, ValueError, ZeroDivisionError, TypeError): pass
        return None

    def settled_int(self, t):
        """The value of an integer that its bounds determine."""
        if self.intervals and isinstance(t, Term) and t.ty == 'int':
            b = self.bounds(t)
            if b is not None and b[0] == b[1]: return int(b[0])
        return t

    def _sgnprod(self, a, b, nan, isint, mag=True):
        """Sign-level product/quotient of two ranges (real semantics)."""
        def sg(r):
            s = set()
            if r.lo < 0: s.add(-1)
            if r.hi > 0: s.add(1)
            if r.contains(0): s.add(0)
            return s
        sa, sb = sg(a), sg(b)
        out = set()
        for x in sa:
            for y in sb:
                out.add(x * y)
        if not out:
            return Rng(nan=True)
        lo = -math.inf if -1 in out else 0.0
        hi = math.inf if 1 in out else 0.0
        # finite operands have a finite product in the real semantics (the overflows only matter to the analysis of exceptions)
        fin = mag and not self.exc_mode and not any(r.contains(z) for r in (a, b) for z in (math.inf, -math.inf))
        lc = not fin if lo < 0 else (0 in out)
        hc = not fin if hi > 0 else (0 in out)
        return Rng(lo, hi, lc, hc, nan, isint)

    def order_of(self, a, b):
        o = self.order.get((key(a), key(b)))
        if o:
            return o
        o = self.order.get((key(b), key(a)))
        if o:
            return {'<': '>', '>': '<', '=': '='}[o]
        if isinstance(a, Term) and a is b:
            return '=' if not self.rng(a).nan else None
        return None

    def decide(self, c):
        """Truth of a condition term, or None."""
        v = self.st.ad.get(c)
        if v is not None:
            return v
        for d in self.deciders:
            v = d(self, c)
            if v is not None:
                return v
        op = c.op
        if op in ('lt', 'le', 'eq'):
            a, b = c.args
            ad = self.st.ad
            def known(o, x, y):
                return ad.get(T(o, x, y, ty='bool'))
            if op == 'eq' and isinstance(a, Term) and isinstance(b, Term) and a.op == 'id' and b.op == 'id' and a is not b:
                return False
            o = self.order_of(a, b)
            if o:
                return {'lt': o == '<', 'le': o in '<=', 'eq': o == '='}[op]
            if op == 'lt':
                if known('lt', b, a) or known('le', b, a) or known('eq', *sorted2(a, b)):
                    return False
            elif op == 'le':
                if known('lt', a, b) or known('eq', *sorted2(a, b)):
                    return True
                if known('lt', b, a):
                    return False
                if known('lt', a, b) is False and known('eq', *sorted2(a, b)) is False:
                    return False
            else:
                if known('lt', a, b) or known('lt', b, a):
                    return False
            ra, rb = self.rng(a), self.rng(b)
            # differences against zero follow the order facts
            if op == 'eq':
                if (isinstance(a, Term) and a.ty in ('str', 'bytes')) or (isinstance(b, Term) and b.ty in ('str', 'bytes')) or isinstance(a, str) or isinstance(b, str):
                    return None
                if ra.lo > rb.hi or rb.lo > ra.hi or (ra.lo == rb.hi and not (ra.lc and rb.hc)) or (rb.lo == ra.hi and not (rb.lc and ra.hc)):
                    return False
                if ra.point() and rb.point() and ra.lo == rb.lo:
                    return True
                if ra.point() and not rb.contains(ra.lo): return False
                if rb.point() and not ra.contains(rb.lo): return False
                if (ra.int is True and rb.int is False) or (ra.int is False and rb.int is True):
                    return False
                # only NaN
                if (ra.nan and ra.lo > ra.hi) or (rb.nan and rb.lo > rb.hi):
                    return False
                return None
            if ra.lo > ra.hi or rb.lo > rb.hi:
                return False if (ra.nan or rb.nan) else None
            lt_true = ra.hi < rb.lo or (ra.hi == rb.lo and not (ra.hc and rb.lc))
            le_true = ra.hi <= rb.lo
            gt_true = ra.lo > rb.hi or (ra.lo == rb.hi and not (ra.lc and rb.hc))
            ge_true = ra.lo >= rb.hi
            nan = ra.nan or rb.nan
            if op == 'lt':
                if lt_true and not nan: return True
                if ge_true: return False
            else:
                if le_true and not nan: return True
                if gt_true: return False
            return None
        if op == 'isnan':
            r = self.rng(c.args[0])
            if not r.nan: return False
            if r.lo > r.hi: return True
            return None
        if op == 'isinf':
            r = self.rng(c.args[0])
            if not r.contains(math.inf) and not r.contains(-math.inf): return False
            if r.lo == r.hi and math.isinf(r.lo) and not r.nan: return True
            return None
        if op == 'isfinite':
            r = self.rng(c.args[0])
            if not r.nan and not r.contains(math.inf) and not r.contains(-math.inf): return True
            return None
        return None

    def assume(self, c, pol):
        st = self.st
        st.ad = dict(st.ad)
        st.ad[c] = pol
        st.lits = st.lits + ((c, pol),)
        if c not in self.cond_sites:
            self.cond_sites[c] = self.site()
        if c.op in ('lt', 'le', 'eq'):
            a, b = c.args
            for x, y, flip in ((a, b, False), (b, a, True)):
                if isinstance(x, Term) and isinstance(y, (int, float)) and not isinstance(y, bool) and x.ty != 'str':
                    cur = self.rng(x)
                    r = None
                    if pol:
                        if c.op == 'eq':
                            r = Rng(y, y, nan=False)
                        elif not flip:   # x < y / x <= y
                            r = Rng(-math.inf, y, True, c.op == 'le', False)
                        else:            # y < x / y <= x
                            r = Rng(y, math.inf, c.op == 'le', True, False)
                    else:
                        if c.op == 'eq':
                            if cur.lo == y and cur.lc:
                                r = Rng(y, math.inf, False, True, True)
                            elif cur.hi == y and cur.hc:
                                r = Rng(-math.inf, y, True, False, True)
                        elif not flip:   # not x < y  -> x >= y or nan
                            r = Rng(y, math.inf, c.op == 'lt', True, True)
                        else:
                            r = Rng(-math.inf, y, True, c.op == 'lt', True)
                    if r is not None:
                        st.narrow = NDict(st.narrow)
                        old = st.narrow.get(x.uid)
                        st.narrow[x.uid] = old.meet(r) if old else r
        elif c.op == 'isnan' and not pol and isinstance(c.args[0], Term):
            st.narrow = NDict(st.narrow)
            old = st.narrow.get(c.args[0].uid)
            r = Rng(nan=False)
            st.narrow[c.args[0].uid] = old.meet(r) if old else r
        elif c.op == 'isinf' and not pol and isinstance(c.args[0], Term):
            st.narrow = NDict(st.narrow)
            old = st.narrow.get(c.args[0].uid)
            r = Rng(-math.inf, math.inf, False, False, True)
            st.narrow[c.args[0].uid] = old.meet(r) if old else r

    # ------------------------------------------------------------ forking and joining
    def fork(self, c, pol, fT, fF):
        """Analyse fT where (c is pol) and fF elsewhere; join."""
        if not pol:
            fT, fF = fF, fT
        d = self.decide(c)
        if d is True:
            return fT()
        if d is False:
            return fF()
        s0 = self.st
        nstack = len(self.stack)
        outs = []
        for p, f in ((True, fT), (False, fF)):
            self.st = s0.child()
            self.assume(c, p)
            try:
                v = f()
                outs.append((p, self.st, v))
            except PathDead:
                pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
                self.defer(sig)
            del self.stack[nstack:]
        s0.tok = object()
        if not outs:
            raise PathDead()
        if len(outs) == 1:
            self.st = outs[0][1]
            return outs[0][2]
        (_, s1, v1), (_, s2, v2) = outs
        st = self.join(c, s1, s2, s0)
        n = len(s0.lits) + 1
        tree = node(c, conj(s1.lits[n:]), conj(s2.lits[n:]))
        if tree is not True:
            st.lits = st.lits + ((CT(tree), True),)
        self.st = st
        return mkphi(c, v1, v2)

    def defer(self, sig):
        for s in reversed(self.sinks):
            if sig.kind in s.kinds:
                s.got.append((self.st, sig))
                return
        raise sig     # nothing can take it: propagate

    def join(self, c, s1, s2, s0=None):
        st = State()
        if s0 is not None:
            st.lits, st.ad, st.narrow = s0.lits, s0.ad, s0.narrow
        h = dict(s1.h)
        for a, o2 in s2.h.items():
            o1 = s1.h.get(a)
            if o1 is o2:
                continue
            if o1 is None:
                o1 = self.base.get(a)
                if o1 is None:
                    h[a] = o2
                    continue
            h[a] = self.join_obj(c, o1, o2)
        for a, o1 in s1.h.items():
            if a not in s2.h:
                b = self.base.get(a)
                if b is not None and b is not o1:
                    h[a] = self.join_obj(c, o1, b)
        st.h = h
        return st

    def join_obj(self, c, o1, o2):
        if o1.kind != o2.kind:
            n = HObj('unknown')
            return n
        n = HObj(o1.kind, o1.cls if same(o1.cls, o2.cls) else mkphi(c, o1.cls, o2.cls))
        n.site = o1.site
        if o1.f is o2.f:
            n.f = dict(o1.f)
        else:
            for k in list(o1.f) + [k for k in o2.f if k not in o1.f]:
                n.f[k] = mkphi(c, o1.f.get(k, ABSENT), o2.f.get(k, ABSENT))
        if o1.items is not None or o2.items is not None:
            a, b = o1.items or [], o2.items or []
            if len(a) == len(b):
                n.items = [mkphi(c, x, y) for x, y in zip(a, b)]
            else:
                i = 0
                while i < min(len(a), len(b)) and same(a[i], b[i]):
                    i += 1
                n.items = a[:i] + [mkphi(c, x, ABSENT) for x in a[i:]] + [mkphi(c, ABSENT, y) for y in b[i:]]
        if o1.d is not None or o2.d is not None:
            n.d = {}
            d1, d2 = o1.d or {}, o2.d or {}
            for k in list(d1) + [k for k in d2 if k not in d1]:
                kk = (d1.get(k) or d2.get(k))[0]
                n.d[k] = (kk, mkphi(c, d1[k][1] if k in d1 else ABSENT, d2[k][1] if k in d2 else ABSENT))
        return n

    def join_many(self, outs, upto=()):
        """outs: [(state, value)], states with disjoint conditions."""
        outs = list(outs)
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        n = 0
        l0 = outs[0][0].lits
        m = min(len(s.lits) for s, _ in outs)
        while n < m and all(s.lits[n] == l0[n] for s, _ in outs):
            n += 1
        r = self._join_tree([(s, v, list(s.lits[n:])) for s, v in outs], {})
        if r is None:
            raise PathDead()
        st, v, tree = r
        if st.tok is None or any(st is s for s, _ in outs):
            st = st.child()
        st.lits = l0[:n] + (((CT(tree), True),) if tree is not True else ())
        self.st = st
        return v

    def _join_tree(self, outs, known):
        live = []
        for s, v, pend in outs:
            p2 = []
            for l in pend:
                if isinstance(l[0], CT):
                    t = restrict_tree(l[0].tree, known)
                    if t is False:
                        p2 = None
                        break
                    if t is not True:
                        p2.append((CT(t), True) if t is not l[0].tree else l)
                elif l[0] in known:
                    if known[l[0]] != l[1]:
                        p2 = None
                        break
                else:
                    p2.append(l)
            if p2 is not None:
                live.append((s, v, p2))
        if not live:
            return None
        if len(live) == 1:
            s, v, p = live[0]
            return s, v, conj(p)
        c = None
        for s, v, p in live:
            if p:
                c = p[0][0]
                c = c.tree[0] if isinstance(c, CT) else c
                break
        if c is None:
            raise GiveUp('join: overlapping paths')
        self.joinwork = getattr(self, 'joinwork', 0) + 1
        if not self.joinwork & 1023 and time.monotonic() > self.deadline: raise GiveUp('time budget')
        if self.joinwork > 2_000_000:
            raise GiveUp('join budget')
        k1 = dict(known); k1[c] = True
        k2 = dict(known); k2[c] = False
        r1, r2 = self._join_tree(live, k1), self._join_tree(live, k2)
        if r1 is None:
            if r2 is None: return None
            return r2[0], r2[1], node(c, False, r2[2])
        if r2 is None:
            return r1[0], r1[1], node(c, r1[2], False)
        s1, v1, t1 = r1
        s2, v2, t2 = r2
        if s1 is s2:
            return s1, mkphi(c, v1, v2), node(c, t1, t2)
        s0 = State()
        for k, p in s1.ad.items():
            if s2.ad.get(k) is p:
                s0.ad[k] = p
        for k, r in s1.narrow.items():
            if s2.narrow.get(k) is r:
                s0.narrow[k] = r
        return self.join(c, s1, s2, s0), mkphi(c, v1, v2), node(c, t1, t2)

    def lift(self, fn, *vals):
        """Apply fn to values without gates: forks on the gates."""
        for i, v in enumerate(vals):
            if isinstance(v, Phi):
                v2 = v
                while isinstance(v2, Phi):
                    d = self.decide(v2.c)
                    if d is None:
                        break
                    v2 = v2.a if d else v2.b
                vals = vals[:i] + (v2,) + vals[i+1:]
                if isinstance(v2, Phi):
                    return self.fork(v2.c, True,
                                     lambda: self.lift(fn, *(vals[:i] + (v2.a,) + vals[i+1:])),
                                     lambda: self.lift(fn, *(vals[:i] + (v2.b,) + vals[i+1:])))
        return fn(*vals)

    def resolve(self, v):
        while isinstance(v, Phi):
            d = self.decide(v.c)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """True/False or (cond, polarity)."""
        if isinstance(v, Phi):
            r = self.lift(lambda x: self.truth_value(x), v)
            return self.truth(r) if not isinstance(r, Phi) else self._phi_cond(r)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if v is NotImplemented or v is Ellipsis:
            return True
        if isinstance(v, (int, float, complex, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, frozenset):
            return bool(v)
        if isinstance(v, Term):
            if v.op == 'not':
                r = self.truth(v.args[0])
                return (not r) if isinstance(r, bool) else (r[0], not r[1])
            if v.ty == 'bool':
                d = self.decide(v)
                return d if d is not None else (v, True)
            if v.ty == 'str':
                if v.op == 'cat' and any(isinstance(a, str) and a for a in v.args):
                    return True
                c = T('nonempty', v, ty='bool')
            elif v.ty in ('float', 'int', 'num', 'complex'):
                c = self.mkcmp('eq', v, 0)
                if isinstance(c, bool):
                    return not c
                d = self.decide(c)
                return (not d) if d is not None else (c, False)
            else:
                c = T('truthy', v, ty='bool')
            d = self.decide(c)
            return d if d is not None else (c, True)
        if isinstance(v, Unknown):
            c = T('unk', v.uid, ty='bool')
            d = self.decide(c)
            return d if d is not None else (c, True)
        if isinstance(v, Ref):
            r = self.truth_value(v)
            return self.truth(r)
        return True

    def _phi_cond(self, p):
        """Phi of truth values -> an opaque condition of its own."""
        c = T('phi', p.c, p.a, p.b, ty='bool')
        return (c, True)

    def truth_value(self, v):
        """Abstract truth value (bool, bool Term or Phi)."""
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'iterlist'):
                n = self.length(v)
                return self.cmp('!=', n, 0) if not isinstance(n, int) else n > 0
            if o.kind in ('dict', 'set'):
                n = self.length(v)
                return self.cmp('!=', n, 0) if not isinstance(n, int) else n > 0
            if o.kind == 'inst':
                if '_num' in o.f:
                    return self.truth_value(o.f['_num'])
                m = self.class_lookup(o.cls, '__bool__')
                if m is not None:
                    return self.call(self.bind(m, v), [], {})
                m = self.class_lookup(o.cls, '__len__')
                if m is not None:
                    return self.cmp('!=', self.call(self.bind(m, v), [], {}), 0)
                return True
            if o.kind == 'trap':
                self.trap(o, 'truth')
                return Unknown('trap')
            if o.kind == 'nparray':
                try: els = self.lib.npm().els(v)
                except Exception: els = None
                if isinstance(els, (list, tuple)):
                    if len(els) > 1: self.raise_('ValueError', 'The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
                    return self.truth_value(els[0]) if els else False
            if o.kind in ('nparray', 'opaque', 'unknown'):
                return Unknown('truth of %s' % o.kind)
            return True
        r = self.truth(v)
        if isinstance(r, bool):
            return r
        c, pol = r
        return c if pol else T('not', c, ty='bool')

    def trap(self, o, what):
        if self.events is not None:
            self.events.append((o.f.get('name'), what, self.site()))

    def branch(self, v, fT, fF):
        """Branch on an abstract truth value with full gate splitting."""
        if isinstance(v, Phi):
            v2 = self.resolve(v)
            if isinstance(v2, Phi):
                return self.fork(v2.c, True, lambda: self.branch(v2.a, fT, fF), lambda: self.branch(v2.b, fT, fF))
            return self.branch(v2, fT, fF)
        if isinstance(v, Ref):
            r = self.truth_value(v)
            if not isinstance(r, bool):
                return self.branch(r, fT, fF)
            return fT() if r else fF()
        r = self.truth(v)
        if isinstance(r, bool):
            return fT() if r else fF()
        return self.fork(r[0], r[1], fT, fF)

    # ------------------------------------------------------------ classes
    def mro(self, cls):
        if isinstance(cls, Ref):
            return self.obj(cls).f['mro']
        return [cls]

    def class_lookup(self, cls, name):
        """Attribute through the repository classes of the MRO (None if only
        library classes could provide it)."""
        if isinstance(cls, Phi):
            cls = self.resolve(cls)
            if isinstance(cls, Phi):
                return None
        for c in self.mro(cls):
            if isinstance(c, Ref):
                d = self.obj(self.obj(c).f['dict'])
                e = d.d.get(self.hkey(name))
                if e is not None and e[1] is not ABSENT:
                    return e[1]
        return None

    def class_has(self, cls, name):
        '''A repository class of the MRO gives a value (maybe None) to the attribute.'''
        for c in self.mro(cls):
            if isinstance(c, Ref):
                e = self.obj(self.obj(c).f['dict']).d.get(self.hkey(name))
                if e is not None and e[1] is not ABSENT:
                    return True
        return False

    def ext_bases(self, cls):
        return [c for c in self.mro(cls) if isinstance(c, Ext)]

    def issub(self, c, d):
        """issubclass for class values; True/False/None."""
        if same(c, d):
            return True
        if isinstance(d, tuple):
            rs = [self.issub(c, x) for x in d]
            if True in rs: return True
            return None if None in rs else False
        for abc, k in self.registered:          # virtual subclasses of abstract base classes
            if isinstance(c, (Ref, Ext)) and (same(abc, d) or isinstance(abc, Ext) and isinstance(d, Ext) and self.lib.ext_issub(abc, d)) and self.real_issub(c, k) is True: return True
        return self.real_issub(c, d)

    def real_issub(self, c, d):
        if same(c, d):
            return True
        if isinstance(c, Ref):
            r = False
            for x in self.mro(c)[1:]:
                if same(x, d):
                    return True
                if isinstance(x, Ext) and isinstance(d, Ext):
                    q = self.issub(x, d)
                    if q: return True
                    if q is None: r = None
            if same(d, Ext('builtins.object')):
                return True
            return r
        if isinstance(c, Ext) and isinstance(d, Ext):
            return self.lib.ext_issub(c, d)
        if isinstance(c, Ext) and isinstance(d, Ref):
            return False
        return None

    def type_of(self, v):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'class': return Ext('builtins.type')
            if o.kind == 'func': return Ext('types.FunctionType')
            if o.kind == 'module': return Ext('types.ModuleType')
            return o.cls or Ext('builtins.object')
        if isinstance(v, Term):
            return {'float': Ext('builtins.float'), 'int': Ext('builtins.int'), 'bool': Ext('builtins.bool'),
                    'str': Ext('builtins.str'), 'complex': Ext('builtins.complex')}.get(v.ty) or T('type', v, ty='any')
        if isinstance(v, tuple): return Ext('builtins.tuple')
        if isinstance(v, frozenset): return Ext('builtins.frozenset')
        if is_prim(v):
            return Ext('builtins.' + type(v).__name__)
        if isinstance(v, (Bound, Native, Partial)): return Ext('types.FunctionType')
        if isinstance(v, Ext):
            return self.lib.ext_type(v)
        return Unknown('type')

    def isinstance_(self, v, c):
        if isinstance(v, Phi) or isinstance(c, Phi):
            return self.lift(self.isinstance_, v, c)
        if isinstance(c, tuple):
            res = False
            for x in c:
                r = self.isinstance_(v, x)
                if r is True: return True
                if r is not False: res = r
            return res
        if isinstance(c, Ref) and self.obj(c).kind not in ('class',):
            return Unknown('isinstance')
        if isinstance(v, Unknown) or isinstance(c, Unknown):
            return Unknown('isinstance of unknown')
        if same(c, Ext('builtins.object')):
            return True
        if isinstance(v, Term) and v.ty in ('num', 'any'):
            if v.ty == 'num' and isinstance(c, Ext) and c.path in ('numbers.Number', 'numbers.Real'):
                return True
            if isinstance(c, Ref):
                return False
            return T('isinstance', v, c, ty='bool')
        if isinstance(v, Ref) and self.obj(v).kind == 'trap':
            self.trap(self.obj(v), 'isinstance')
        t = self.type_of(v)
        r = self.issub(t, c) if isinstance(t, (Ref, Ext)) else None
        if r is None and isinstance(v, Ref) and self.obj(v).kind == 'inst' and isinstance(c, Ext):
            r = False
        if r is None:
            return T('isinstance', v if isinstance(v, Term) else T('val', v, ty='any'), c, ty='bool')
        return r

    def bind(self, attr, inst, cls=None):
        """Descriptor binding of a class attribute for an instance."""
        if isinstance(attr, Ref):
            o = self.obj(attr)
            if o.kind == 'func':
                return Bound(attr, inst)
            if o.kind == 'property':
                if o.f.get('fget') is None:
                    self.raise_('AttributeError', 'unreadable attribute')
                return self.call(o.f['fget'], [inst], {})
            if o.kind == 'staticmethod':
                return o.f['f']
            if o.kind == 'classmethod':
                return Bound(o.f['f'], cls or self.type_of(inst))
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__get__')
                if m is not None:
                    return self.call(m, [attr, inst, cls or self.type_of(inst)], {})
            return attr
        if isinstance(attr, Native):
            return Bound(attr, inst)
        if isinstance(attr, Ext):
            # float.__add__ and such are descriptors; plain builtins are not
            if self.lib.ext_is_descriptor(attr):
                return Bound(attr, inst)
            return attr
        return attr

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name, default=ABSENT):
        if isinstance(v, Phi):
            return self.lift(lambda x: self.getattr_(x, name, default), v)
        if isinstance(v, Unknown):
            return Unknown('attribute %s of unknown' % name)
        def missing():
            if default is not ABSENT:
                return default
            self.raise_('AttributeError', 'no attribute %s' % name)
        if isinstance(v, Ref):
            o = self.obj(v)
            k = o.kind
            if k == 'inst':
                cls = o.cls
                if name == '__class__': return cls
                ca = self.class_lookup(cls, name)
                if isinstance(ca, Phi):
                    return self.lift(lambda x: self.bind(x, v), ca)
                if ca is not None and self.is_kind(ca, 'property'):
                    try:
                        return self.bind(ca, v)
                    except AbsRaise as e:
                        if default is not ABSENT and self.exc_is(e.exc, 'AttributeError') is True:
                            return default
                        raise
                if name in o.f:
                    val = o.f[name]
                    if isinstance(val, Phi):
                        return self.lift(lambda x: missing() if x is ABSENT else x, val)
                    if val is not ABSENT:
                        return val
                if name == '__dict__':
                    if self.has_dict(cls):
                        return self.inst_dict(v)
                    return missing()
                if name == '__weakref__' and isinstance(cls, Ref):
                    return None if self.has_weakref(cls) else missing()
                if ca is not None:
                    return self.bind(ca, v)
                if self.class_has(cls, name):
                    return None
                if '_num' in o.f:
                    r = self.lib.prim_attr(o.f['_num'], name)
                    if r is not None: return r
                r = self.lib.inst_ext_attr(v, o, name)
                if r is not None:
                    return r
                g = self.class_lookup(cls, '__getattr__')
                if g is not None:
                    if default is ABSENT: return self.call(self.bind(g, v), [name], {})
                    sink = Sink(('raise',))
                    self.sinks.append(sink)
                    n = len(self.stack)
                    try:
                        try: r = self.call(self.bind(g, v), [name], {})
                        except AbsRaise as x:
                            if not sink.got and self.exc_is(x.exc, Ext('builtins.AttributeError')) is True:
                                del self.stack[n:]
                                return default
                            raise
                    finally: self.sinks.remove(sink)
                    if sink.got: raise GiveUp('conditional attribute')
                    return r
                return missing()
            if k == 'module':
                e = self.obj(o.f['ns']).f.get(name, ABSENT)
                if isinstance(e, Phi):
                    return self.lift(lambda x: missing() if x is ABSENT else x, e)
                if e is not ABSENT: return e
                if name == '__dict__':
                    return self.unknown('module __dict__')
                sub = o.f['name'] + '.' + name
                if sub in self.modules:
                    return self.modules[sub]
                if o.f.get('partial') and default is ABSENT: return Unknown('module analysed in part')
                return missing()
            if k == 'class':
                if name == '__name__' or name == '__qualname__': return o.f['name']
                if name == '__mro__': return tuple(o.f['mro'])
                if name == 'mro': return Native(lambda *a: self.new_list(o.f['mro']), 'mro')
                if name == '__bases__': return tuple(o.f['bases'])
                if name == '__dict__': return o.f['dict']
                if name == '__class__': return Ext('builtins.type')
                if name == '__module__': return o.f.get('module', 'm')
                ca = self.class_lookup(v, name)
                if ca is not None:
                    return self.lift(lambda x: self.bind_class(x, v), ca)
                if self.class_has(v, name):
                    return None
                for b in self.ext_bases(v):
                    r = self.lib.ext_attr(b, name)
                    if r is not None: return r
                if name == '__hash__':
                    return Ext('builtins.object.__hash__')
                return missing()
            if k == 'func':
                if name == '__call__': return v
                if name == '__dict__': return o.f['attrs']
                if name in ('__name__', '__qualname__'):
                    e = self.obj(o.f['attrs']).d.get(self.hkey('__name__'))
                    return e[1] if e else o.f['name']
                if name == '__doc__':
                    return o.f.get('doc')
                if name == '__defaults__': return tuple(o.f['defaults']) or None
                if name == '__get__':
                    return Native(lambda inst, cls=None: Bound(v, inst), '__get__')
                if name == '__code__':
                    nd = o.f['node'].args
                    pos = [x.arg for x in nd.posonlyargs + nd.args]
                    kwo = [x.arg for x in nd.kwonlyargs]
                    return self.alloc(HObj('inst', Ext('types.CodeType'), {'co_argcount': len(pos), 'co_kwonlyargcount': len(kwo), 'co_name': o.f['name'],
                        'co_varnames': tuple(pos + kwo + [x.arg for x in (nd.vararg, nd.kwarg) if x]), 'co_flags': (4 if nd.vararg else 0) | (8 if nd.kwarg else 0)}))
                if name == '__kwdefaults__': return self.new_dict(list(o.f['kwdefaults'].items())) if o.f['kwdefaults'] else None
                if name in ('__module__',): return o.f.get('module', 'm')
                if name == '__wrapped__' or True:
                    e = self.obj(o.f['attrs']).d.get(self.hkey(name))
                    if e and e[1] is not ABSENT: return e[1]
                return missing()
            if k == 'property':
                if name in ('setter', 'getter', 'deleter'):
                    fld = {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name]
                    def mk(f, fld=fld, o=o):
                        n = HObj('property', Ext('builtins.property'), dict(self.obj(v).f))
                        n.f[fld] = f
                        return self.alloc(n)
                    return Native(mk, name)
                if name in ('fget', 'fset', 'fdel'): return o.f.get(name)
                return missing()
            if k == 'super':
                return self.super_attr(o, name, missing)
            if k == 'trap':
                self.trap(o, 'attribute ' + name)
                return Unknown('attribute of opaque operand')
            if k == 'unknown':
                return Unknown('attribute of unknown object')
            r = self.lib.obj_attr(v, o, name)
            if r is not None:
                return r
            return missing()
        if isinstance(v, Ext):
            if name == '__dict__':
                d = self.lib.module_dict(v)
                if d is not None: return d
            r = self.lib.ext_attr(v, name)
            if r is None:
                return missing()
            return r
        if isinstance(v, Native):
            if name == '__name__': return v.name
            if name == '__doc__': return v.doc
            if name == '__dict__': return self.new_dict()
            return missing()
        if isinstance(v, Partial):
            if name == 'func': return v.func
            if name == 'args': return tuple(v.args)
            if name == 'keywords': return self.new_dict(list(v.kwargs.items()))
            if name == '__doc__': return Unknown('documentation of a partial function')
            return missing()
        if isinstance(v, Bound):
            if name == '__self__': return v.self
            if name == '__func__': return v.func
            return self.getattr_(v.func, name, default)
        r = self.lib.prim_attr(v, name)
        if r is not None:
            return r
        return missing()

    def bind_class(self, attr, cls):
        if isinstance(attr, Ref):
            o = self.obj(attr)
            if o.kind == 'staticmethod': return o.f['f']
            if o.kind == 'classmethod': return Bound(o.f['f'], cls)
        return attr

    def super_attr(self, o, name, missing):
        start, inst = o.f['cls'], o.f['inst']
        icls = inst if self.is_kind(inst, 'class') else self.obj(inst).cls
        mro = self.mro(icls)
        i = [j for j, c in enumerate(mro) if same(c, start)]
        for c in mro[i[0] + 1:] if i else mro:
            if isinstance(c, Ref):
                e = self.obj(self.obj(c).f['dict']).d.get(self.hkey(name))
                if e is not None and e[1] is not ABSENT:
                    if same(inst, icls):
                        return self.bind_class(e[1], icls)
                    return self.bind(e[1], inst)
            else:
                if name == '__init__':
                    return Native(lambda *a, **k: None, 'object.__init__')
                if name == '__setattr__':
                    return Native(lambda n, v: self.setattr_(inst, n, v, raw=True), 'object.__setattr__')
                if name == '__new__':
                    return Native(lambda c2, *a, **k: self.raw_new(c2, a), 'object.__new__')
                r = self.lib.ext_attr(c, name)
                if r is not None:
                    return Bound(r, inst) if not same(inst, icls) else r
        return missing()

    def own_slots(self, c):
        """Attribute names declared by the __slots__ of this very class, or None."""
        o = self.obj(c)
        en = self.obj(o.f['dict']).d.get(self.hkey('__slots__'))
        if not en: return None
        sl = en[1]
        if isinstance(sl, str): out = [sl]
        elif isinstance(sl, (tuple, frozenset)): out = list(sl)
        elif isinstance(sl, Ref) and self.obj(sl).items is not None: out = list(self.obj(sl).items)
        elif isinstance(sl, Ref) and self.obj(sl).d is not None: out = [k for k, _ in self.obj(sl).d.values()]
        else: out = []
        return [mangle(x, o.f['name']) if isinstance(x, str) else x for x in out]

    def has_dict(self, cls):
        for c in self.mro(cls):
            if isinstance(c, Ref):
                sl = self.own_slots(c)
                if sl is None or '__dict__' in sl:
                    return True
            elif c.path not in ('builtins.object', 'builtins.float', 'builtins.int', 'builtins.str', 'builtins.dict', 'builtins.list'):
                return True
        return False

    def has_weakref(self, cls):
        for c in self.mro(cls):
            if isinstance(c, Ref):
                sl = self.own_slots(c)
                if sl is None or '__weakref__' in sl:
                    return True
        return False

    def slots_of(self, cls):
        out = []
        for c in self.mro(cls):
            if isinstance(c, Ref):
                out += self.own_slots(c) or []
        return [x for x in out if x not in ('__dict__', '__weakref__')]

    def inst_dict(self, v):
        """__dict__ of an instance: the attributes that are not slots."""
        o = self.obj(v)
        sl = set(self.slots_of(o.cls))
        if '__dict__obj' in o.f:
            r = o.f['__dict__obj']
        else:
            r = self.new_dict()
            self.w(v).f['__dict__obj'] = r
        d = self.w(r)
        d.d = {}
        for k, x in self.obj(v).f.items():
            if k not in sl and k not in ('__dict__obj', '_num'):
                d.d[self.hkey(k)] = (k, x)
        d.f['owner'] = v
        return r

    def setattr_(self, v, name, val, raw=False):
        if isinstance(v, Phi):
            return self.lift(lambda x: self.setattr_(x, name, val, raw), v)
        if isinstance(v, Unknown):
            return None
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'inst':
                if not raw:
                    sa = self.class_lookup(o.cls, '__setattr__')
                    if sa is not None:
                        self.call(self.bind(sa, v), [name, val], {})
                        return
                ca = self.class_lookup(o.cls, name)
                if ca is not None and self.is_kind(ca, 'property'):
                    fset = self.obj(ca).f.get('fset')
                    if fset is None:
                        self.raise_('AttributeError', "can't set attribute")
                    self.call(fset, [v, val], {})
                    return
                if name == '__class__':
                    self.w(v).cls = val
                    return
                if name == '__weakref__' and isinstance(o.cls, Ref):
                    self.raise_('AttributeError', '__weakref__ is not writable')
                if name == '__dict__' and isinstance(o.cls, Ref) and self.has_dict(o.cls):
                    val = self.resolve(val)
                    if not self.is_kind(val, 'dict'): self.raise_('TypeError', '__dict__ must be set to a dictionary')
                    sl = set(self.slots_of(o.cls))
                    w = self.w(v)
                    for k in [k for k in w.f if k not in sl and k != '_num']: del w.f[k]
                    for k, x in self.obj(val).d.values(): w.f[k] = x
                    w.f['__dict__obj'] = val
                    self.w(val).f['owner'] = v
                    return
                if o.kind == 'inst' and isinstance(o.cls, Ref) and not self.has_dict(o.cls):
                    if name not in self.slots_of(o.cls):
                        self.raise_('AttributeError', 'no slot %s' % name)
                self.w(v).f[name] = val
                return
            if o.kind == 'class':
                d = self.w(o.f['dict'])
                d.d[self.hkey(name)] = (name, val)
                return
            if o.kind == 'module':
                self.w(o.f['ns']).f[name] = val
                return
            if o.kind == 'func':
                if name == '__doc__':
                    self.w(v).f['doc'] = val
                elif name == '__dict__':
                    self.w(v).f['attrs'] = val
                elif name == '__name__':
                    a = self.w(o.f['attrs'])
                    a.d[self.hkey('__name__')] = ('__name__', val)
                else:
                    a = self.w(o.f['attrs'])
                    a.d[self.hkey(name)] = (name, val)
                return
            if o.kind == 'trap':
                self.trap(o, 'set attribute ' + name)
                return
            if self.lib.obj_setattr(v, o, name, val):
                return
            self.raise_('AttributeError', 'cannot set %s' % name)
        if isinstance(v, (Native, Partial, Ext, Bound)):
            return
        if is_prim(v) or isinstance(v, (Term, tuple)):
            self.raise_('AttributeError', 'cannot set %s' % name)

    def delattr_(self, v, name):
        v = self.resolve(v)
        if self.is_kind(v, 'inst'):
            o = self.w(v)
            if name in o.f:
                del o.f[name]
                return
            self.raise_('AttributeError', name)
        self.note('delattr')

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Phi):
            return self.lift(lambda g: self.call(g, args, kwargs), f)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs); kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, Native):
            return f.fn(*args, **kwargs)
        if isinstance(f, Unknown):
            self.havoc(args)
            self.havoc(kwargs.values())
            return Unknown('call of unknown (%s)' % f.why)
        if isinstance(f, Ext):
            return self.lib.call(f, list(args), dict(kwargs))
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == 'func':
                return self.call_function(f, o, list(args), dict(kwargs))
            if o.kind == 'class':
                return self.instantiate(f, o, list(args), dict(kwargs))
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__call__')
                if m is not None:
                    return self.call(self.bind(m, f), args, kwargs)
                r = self.lib.call_obj(f, o, list(args), dict(kwargs))
                if r is not ABSENT:
                    return r
                self.raise_('TypeError', 'object is not callable')
            if o.kind == 'trap':
                self.trap(o, 'call')
                return Unknown('call of opaque operand')
            if o.kind == 'staticmethod':
                return self.call(o.f['f'], args, kwargs)
            r = self.lib.call_obj(f, o, list(args), dict(kwargs))
            if r is not ABSENT:
                return r
            self.raise_('TypeError', 'object is not callable')
        if isinstance(f, Term):
            if f.ty in ('any',):
                return T('call', f, *args, ty='any')
        self.raise_('TypeError', 'object is not callable')

    def havoc(self, vals):
        for v in vals:
            v = self.resolve(v)
            if isinstance(v, Ref):
                o = self.obj(v)
                if o.kind in ('list', 'dict', 'set', 'nparray', 'iter'):
                    self.note('argument given to unknown function')
                    n = HObj('unknown'); n.tok = self.st.tok
                    self.st.h[v.a] = n
                elif o.kind == 'inst':
                    self.note('object given to unknown function')

    def instantiate(self, c, o, args, kwargs):
        new = self.class_lookup(c, '__new__')
        if new is not None:
            f = self.obj(new).f['f'] if self.is_kind(new, 'staticmethod') else new
            r = self.call(f, [c] + args, kwargs)
            if not isinstance(r, Ref):
                return r
        else:
            r = self.raw_new(c, args)
        init = self.class_lookup(c, '__init__')
        if init is not None:
            self.lift(lambda q: self.call(Bound(init, q), args, kwargs), r)
        elif args or kwargs:
            bases = [b.path for b in self.ext_bases(c)]
            if bases == ['builtins.object'] and new is None:
                self.raise_('TypeError', 'class takes no arguments')
        return r

    def raw_new(self, c, args=()):
        if any(b.path == 'numpy.matrix' for b in self.ext_bases(c)):
            r = self.lib.npm().n_matrix(list(args), {})
            if not isinstance(r, Ref): return r
            self.w(r).cls = c
            return r
        for b in self.ext_bases(c):
            if b.path in ('builtins.float', 'builtins.int'):
                def mk(num):
                    r = self.alloc(HObj('inst', c))
                    self.w(r).f['_num'] = num
                    return r
                return self.lift(mk, self.lift(self.numify, self.call(b, list(args), {})))
        r = self.alloc(HObj('inst', c))
        for b in self.ext_bases(c):
            if self.issub(b, Ext('builtins.BaseException')):
                self.w(r).f['args'] = tuple(args)
                break
            if b.path in ('builtins.dict', 'collections.OrderedDict', 'collections.defaultdict'):
                o = self.w(r); o.kind = 'dict'; o.d = {}
                if b.path == 'collections.defaultdict':
                    o.f['default_factory'] = args[0] if args else None
                elif args:
                    self.lib.method_dict(r, self.obj(r), 'update', list(args), {})
                break
            if b.path == 'builtins.list':
                o = self.w(r); o.kind = 'list'; o.items = []
                if args: o.items = list(self.iterate(args[0]))
                break
        return r

    def call_function(self, ref, o, args, kwargs):
        node = o.f['node']
        name = o.f['name']
        if len(self.stack) > self.MAXDEPTH:
            raise GiveUp('call depth: %s' % name)
        site = (o.f['file'], getattr(node, 'lineno', 0), name)
        self.calls[site] = self.calls.get(site, 0) + 1
        a = node.args
        frame = self.alloc(HObj('frame', None, {}))
        fo = self.obj(frame)
        F = fo.f
        pos = [p.arg for p in a.posonlyargs + a.args]
        ndef = len(o.f['defaults'])
        defs = dict(zip(pos[len(pos) - ndef:], o.f['defaults'])) if ndef else {}
        if len(args) > len(pos) and not a.vararg:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args)))
        for p, v in zip(pos, args):
            F[p] = v
        if a.vararg:
            F[a.vararg.arg] = tuple(args[len(pos):])
        kwnames = [p.arg for p in a.kwonlyargs]
        extra = []
        ponly = set(p.arg for p in a.posonlyargs)
        for k, v in kwargs.items():
            if k in pos and k not in ponly:
                if k in F:
                    self.raise_('TypeError', '%s() got multiple values for argument %r' % (name, k))
                F[k] = v
            elif k in kwnames:
                F[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                self.raise_('TypeError', '%s() got an unexpected keyword argument %r' % (name, k))
        if a.kwarg:
            F[a.kwarg.arg] = self.new_dict(extra)
        for p in pos:
            if p not in F:
                if p in defs:
                    F[p] = defs[p]
                else:
                    self.raise_('TypeError', '%s() missing required argument %r' % (name, p))
        for p in kwnames:
            if p not in F:
                if p in o.f['kwdefaults']:
                    F[p] = o.f['kwdefaults'][p]
                else:
                    self.raise_('TypeError', '%s() missing keyword-only argument %r' % (name, p))
        env = Env(frame, o.f['env'], o.f['globals'], info(node))
        env.cls = o.f.get('defcls')
        env.selfarg = F.get(pos[0]) if pos else None
        env.file = o.f['file']
        cur = self.cur
        nact = sum(1 for s in self.stack if s[0] is node) + 1
        if nact > self.maxact.get(site, 0):
            self.maxact[site] = nact
        self.stack.append((node, name))
        if len(self.stack) > self.deepest: self.deepest = len(self.stack)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if env.info.is_gen:
                return self.generator(node, env, name)
            sink = Sink(('return',))
            self.sinks.append(sink)
            try:
                try:
                    self.block(node.body, env)
                    sink.got.append((self.st, ReturnSig(None)))
                except ReturnSig as r:
                    sink.got.append((self.st, r))
                except PathDead:
                    pass
            finally:
                self.sinks.remove(sink)
            if not sink.got:
                raise PathDead()
            return self.join_many([(s, r.value) for s, r in sink.got])
        finally:
            self.stack.pop()
            self.cur = cur

    def run_generator(self, node, env, out):
        """out: list of the elements, or function that is given each of them."""
        env.yields = out
        sink = Sink(('return',))
        self.sinks.append(sink)
        try:
            try:
                self.block(node.body, env)
                sink.got.append((self.st, ReturnSig(None)))
            except ReturnSig as r:
                sink.got.append((self.st, r))
            except PathDead:
                pass
        finally:
            self.sinks.remove(sink)
        if not sink.got:
            raise PathDead()
        self.join_many([(s, None) for s, r in sink.got])
        if not isinstance(out, Ref): return ABSENT
        full = self.obj(out).f.get('full', ABSENT)
        tail = ABSENT if full is ABSENT else Unknown('beyond the first elements of a generator') if full is True else full
        return tail

    def generator(self, node, env, name):
        frames, e = {env.frame.a}, env
        d = Driver(frozenset(frames))
        def inside(f):
            cur = self.cur
            self.stack.append((node, name))
            try: return f()
            finally:
                self.stack.pop()
                self.cur = cur
        d.through = lambda emit: inside(lambda: self.run_generator(node, env, emit))
        d.run = lambda out: inside(lambda: self.run_generator(node, env, out))
        if not guarded_yield(node):
            d.feed = lambda emit: inside(lambda: self.run_generator(node, env, emit))
        return self.lazy_iter(d)

    # ------------------------------------------------------------ numbers
    def numify(self, v):
        """float/int-subclass instances behave as their number."""
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'inst' and '_num' in o.f:
                return o.f['_num']
        return v

    def is_num(self, v):
        return (isinstance(v, (int, float, complex)) or (isinstance(v, Term) and v.ty in ('float', 'int', 'num', 'complex', 'bool')))

    def mkcmp(self, op, a, b):
        """lt/le/eq on scalars: bool or condition term."""
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            try:
                return {'lt': lambda: a < b, 'le': lambda: a <= b, 'eq': lambda: a == b}[op]()
            except TypeError as e:
                self.raise_('TypeError', str(e))
        sa = isinstance(a, str) or (isinstance(a, Term) and a.ty == 'str')
        sb = isinstance(b, str) or (isinstance(b, Term) and b.ty == 'str')
        anyt = (isinstance(a, Term) and a.ty == 'any') or (isinstance(b, Term) and b.ty == 'any')
        if sa != sb and not anyt:
            if op == 'eq': return False
            self.raise_('TypeError', 'unorderable types')
        if (a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple)) and not anyt:
            if op == 'eq': return False
            self.raise_('TypeError', 'unorderable types')
        if sa and sb:
            r = self.lib.str_eq(a, b) if op == 'eq' else None
            if r is not None:
                return r
        if op == 'eq':
            if isinstance(a, Term) and a is b and (a.ty in ('str', 'int', 'bool') or not self.rng(a).nan):
                return True
            # x - y == 0  is  x == y
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Term) and p.op == 'sub' and isinstance(q, (int, float)) and q == 0:
                    return self.mkcmp('eq', p.args[0], p.args[1])
                if isinstance(p, Term) and p.op in ('neg', 'abs', 'math.fabs', 'float', 'pos') and isinstance(q, (int, float)) and q == 0:
                    return self.mkcmp('eq', p.args[0], 0)
            a, b = sorted2(a, b)
        else:
            # a - b < 0  is  a < b
            if isinstance(a, Term) and a.op == 'sub' and isinstance(b, (int, float)) and b == 0:
                return self.mkcmp(op, a.args[0], a.args[1])
            if isinstance(b, Term) and b.op == 'sub' and isinstance(a, (int, float)) and a == 0:
                return self.mkcmp(op, b.args[1], b.args[0])
        c = T(op, a, b, ty='bool')
        d = self.decide(c)
        return c if d is None else d

    def negate(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, Phi):
            return mkphi(v.c, self.negate(v.a), self.negate(v.b))
        if isinstance(v, Term):
            if v.op == 'not': return v.args[0]
            return T('not', v, ty='bool')
        return Unknown('not') if isinstance(v, Unknown) else not v

    CMPM = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
    SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}

    def cmp(self, op, a, b):
        if op == 'is' or op == 'is not':
            r = self.lift(self.is_, a, b)
            return r if op == 'is' else self.lift(self.negate, r)
        if op in ('in', 'not in'):
            r = self.contains(b, a)
            return r if op == 'in' else self.lift(self.negate, r)
        return self.lift(lambda x, y: self._cmp(op, x, y), a, b)

    def is_(self, a, b):
        if a is ABSENT or b is ABSENT:
            return a is b
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if isinstance(a, Unknown) and a is b: return True
            return Unknown('is')
        if same(a, b):
            return True
        if isinstance(a, Term) and isinstance(b, Term):
            return T('is', a, b, ty='bool')
        if isinstance(a, Term) and a.ty == 'any' or isinstance(b, Term) and b.ty == 'any':
            return T('is', a, b, ty='bool')
        if isinstance(a, Term) and a.ty == 'bool' and isinstance(b, bool):
            return a if b else T('not', a, ty='bool')
        return False

    def _cmp(self, op, a, b):
        ia, ib = self.special_inst(a), self.special_inst(b)
        if ia or ib:
            m = self.CMPM[op]
            order = [(a, m, b), (b, self.CMPM[self.SWAP[op]], a)]
            if ia and ib and not same(self.type_of(a), self.type_of(b)) and self.issub(self.type_of(b), self.type_of(a)):
                order.reverse()
            return self._try_special(order, lambda: self._cmp_default(op, a, b))
        a, b = self.numify(a), self.numify(b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown('comparison with unknown')
        for x in (a, b):
            if isinstance(x, Ref) and self.obj(x).kind in ('nparray', 'opaque', 'unknown', 'trap'):
                if self.obj(x).kind == 'trap':
                    self.trap(self.obj(x), 'comparison')
                r = self.lib.np_compare(op, a, b)
                if r is not None:
                    return r
                return Unknown('comparison with foreign object')
        if (isinstance(a, (Ref, tuple, Ext, frozenset)) or isinstance(b, (Ref, tuple, Ext, frozenset)) or isinstance(a, (Bound, Native, Partial)) or isinstance(b, (Bound, Native, Partial))):
            return self.struct_cmp(op, a, b)
        if op == '==': return self.mkcmp('eq', a, b)
        if op == '!=': return self.negate(self.mkcmp('eq', a, b))
        if op == '<': return self.mkcmp('lt', a, b)
        if op == '<=': return self.mkcmp('le', a, b)
        if op == '>': return self.mkcmp('lt', b, a)
        return self.mkcmp('le', b, a)

    def _cmp_default(self, op, a, b):
        if op == '==': return same(a, b)
        if op == '!=': return not same(a, b)
        self.raise_('TypeError', 'unorderable types')

    def _try_special(self, order, fallback):
        if not order:
            return fallback()
        obj, m, other = order[0]
        meth = None
        if self.num_special(obj, m[2:-2]):
            meth = self.class_lookup(self.type_of(obj), m)
            if not isinstance(meth, Ref): meth = None
        if self.special_inst(obj):
            meth = self.class_lookup(self.type_of(obj), m)
            if meth is None and m == '__ne__':
                eq = self.class_lookup(self.type_of(obj), '__eq__')
                if eq is not None:
                    return self.lift(lambda v: self._try_special(order[1:], fallback) if v is NotImplemented else self.lift(self.negate, self.truth_value(v)), self.call(self.bind(eq, obj), [other], {}))
        if meth is None:
            r = self.lib.prim_special(obj, m, other)
            if r is NotImplemented:
                return self._try_special(order[1:], fallback)
            return r
        r = self.call(self.bind(meth, obj), [other], {})
        def nxt(v):
            if v is NotImplemented:
                return self._try_special(order[1:], fallback)
            return v
        return self.lift(nxt, r)

    def num_special(self, v, n):
        """Number of a class of the repository that defines the special method."""
        if not isinstance(v, Ref): return False
        o = self.obj(v)
        if o.kind != 'inst' or not isinstance(o.cls, Ref) or '_num' not in o.f: return False
        return any(isinstance(self.class_lookup(o.cls, m), Ref) for m in ('__%s__' % n, '__r%s__' % n.lstrip('r') if n != 'rshift' else '__rrshift__'))

    def special_inst(self, v):
        """Instance of a repository class that may define special methods."""
        if not isinstance(v, Ref):
            return False
        o = self.obj(v)
        return o.kind == 'inst' and isinstance(o.cls, Ref) and '_num' not in o.f and not self.issub(o.cls, Ext('builtins.BaseException'))

    def struct_cmp(self, op, a, b):
        if op in ('==', '!='):
            r = self.struct_eq(a, b)
            return r if op == '==' else self.lift(self.negate, r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if all(is_prim(x) for x in a + b):
                try:
                    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
                except TypeError:
                    self.raise_('TypeError', 'unorderable')
            # lexicographic comparison
            strict = op in ('<', '>')
            def lex(i):
                if i == len(a) or i == len(b):
                    if op == '<': return len(a) < len(b)
                    if op == '<=': return len(a) <= len(b)
                    if op == '>': return len(a) > len(b)
                    return len(a) >= len(b)
                e = self.cmp('==', a[i], b[i])
                return self.branch(e, lambda: lex(i + 1), lambda: self.cmp(op[0], a[i], b[i]))
            return lex(0)
        ka = self.obj(a).kind if isinstance(a, Ref) else None
        kb = self.obj(b).kind if isinstance(b, Ref) else None
        if ka == 'set' and kb == 'set':
            da, db = set(self.obj(a).d), set(self.obj(b).d)
            return {'<': da < db, '<=': da <= db, '>': da > db, '>=': da >= db}[op]
        if (ka in ('unknown',) or kb in ('unknown',)):
            return Unknown('comparison')
        if ka == 'list' and kb == 'list':
            return self.unknown('list ordering')
        self.raise_('TypeError', 'unorderable types')

    def struct_eq(self, a, b):
        if same(a, b):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            return self.all_eq(list(zip(a, b)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind != ob.kind: return False
            if oa.kind == 'list':
                if len(oa.items) != len(ob.items): return False
                return self.all_eq(list(zip(oa.items, ob.items)))
            if oa.kind == 'dict':
                if set(oa.d) != set(ob.d): return False
                return self.all_eq([(oa.d[k][1], ob.d[k][1]) for k in oa.d])
            if oa.kind == 'set':
                return set(oa.d) == set(ob.d)
        return False

    def all_eq(self, pairs):
        def rec(i):
            if i == len(pairs): return True
            return self.branch(self.cmp('==', *pairs[i]), lambda: rec(i + 1), lambda: False)
        return rec(0)

    BINM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
            '@': 'matmul', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}

    def binop(self, op, a, b):
        return self.lift(lambda x, y: self._binop(op, x, y), a, b)

    def _binop(self, op, a, b):
        n = self.BINM[op]
        ia, ib = self.special_inst(a), self.special_inst(b)
        na, nb = not ia and self.num_special(a, n), not ib and self.num_special(b, n)
        if (na or nb) and not (ia or ib):
            ia = ib = True
        if ia or ib:
            order = [(a, '__%s__' % n, b), (b, '__r%s__' % n, a)]
            ta, tb = self.type_of(a), self.type_of(b)
            if ia and ib:
                if same(ta, tb):
                    order = order[:1]
                elif self.issub(tb, ta):
                    m1, m2 = self.class_lookup(tb, '__r%s__' % n), self.class_lookup(ta, '__r%s__' % n)
                    if m1 is not None and not (m2 is not None and same(m1, m2)):
                        order.reverse()
            return self._try_special(order, lambda: self.raise_('TypeError', 'unsupported operand type(s) for %s' % op))
        a, b = self.numify(a), self.numify(b)
        for x in (a, b):
            if isinstance(x, Unknown):
                return Unknown(x.why)
        if self.is_num(a) and self.is_num(b):
            return self.arith(op, a, b)
        return self.lib.binop(op, a, b)

    def num_ty(self, v):
        if isinstance(v, Term): return v.ty
        return type(v).__name__

    def arith(self, op, a, b):
        ta, tb = self.num_ty(a), self.num_ty(b)
        if not isinstance(a, Term) and not isinstance(b, Term):
            try:
                if op == '+': return a + b
                if op == '-': return a - b
                if op == '*': return a * b
                if op == '/': return a / b
                if op == '//': return a // b
                if op == '%': return a % b
                if op == '**':
                    if isinstance(a, int) and isinstance(b, int) and abs(b) > 10000 and abs(a) > 1:
                        raise GiveUp('huge power')
                    return a ** b
                if op == '&': return a & b
                if op == '|': return a | b
                if op == '^': return a ^ b
                if op == '<<': return a << b
                if op == '>>': return a >> b
            except ZeroDivisionError as e:
                self.raise_('ZeroDivisionError', str(e))
            except OverflowError as e:
                self.raise_('OverflowError', str(e))
            except TypeError as e:
                self.raise_('TypeError', str(e))
            self.raise_('TypeError', op)
        if op in ('&', '|', '^', '<<', '>>'):
            if ta in ('bool',) and tb in ('bool',):
                if op == '&': return self.branch(a, lambda: b, lambda: False)
                if op == '|': return self.branch(a, lambda: True, lambda: b)
            if ta in ('int', 'bool') and tb in ('int', 'bool'):
                return T({'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'shl', '>>': 'shr'}[op], a, b, ty='int')
            self.raise_('TypeError', op)
        ints = ta in ('int', 'bool') and tb in ('int', 'bool')
        ty = 'complex' if 'complex' in (ta, tb) else ('int' if ints else ('num' if 'num' in (ta, tb) and 'float' not in (ta, tb) else 'float'))
        if ta == 'bool' and isinstance(a, Term): a = T('int', a, ty='int')
        if tb == 'bool' and isinstance(b, Term): b = T('int', b, ty='int')
        for c, o in ((a, b), (b, a)):
            if isinstance(c, float) and isinstance(o, Term) and o.ty in ('float', 'int'):
                # NaN propagates; an infinity keeps its sign in a product with a positive factor
                if c != c and op in ('+', '-', '*'): return c
                if math.isinf(c) and op == '*':
                    r = self.rng(o)
                    if not r.nan and r.lo >= 0 and not r.contains(0): return c
        if op == '+': return self.overflow('add', T('add', a, b, ty=ty), ints)
        if op == '-':
            return T('sub', a, b, ty=ty)
        if op == '*': return T('mul', a, b, ty=ty)
        if op in ('/', '//', '%'):
            z = self.mkcmp('eq', b, 0)
            n = {'/': 'div', '//': 'floordiv', '%': 'mod'}[op]
            if z is True:
                self.raise_('ZeroDivisionError', 'division by zero')
            if z is not False and self.exc_mode:
                self.fork(z, True, lambda: self.raise_('ZeroDivisionError', 'division by zero'), lambda: None)
            if op == '/' and ty == 'int': ty = 'float'
            return T(n, a, b, ty=ty)
        if op == '**':
            return self.pow_(a, b, ty)
        raise GiveUp('arith ' + op)

    def overflow(self, op, t, ints):
        return t

    def pow_(self, a, b, ty, mathpow=False):
        """Python ** (or math.pow) on scalars, at least one a Term."""
        ra, rb = self.rng(a), self.rng(b)
        intpow = isinstance(b, int) and not isinstance(b, bool) and b >= 0
        if not mathpow and ty == 'int' and not (rb.lo >= 0):
            ty = 'num' if not (rb.hi < 0) else 'float'
        a0 = ra.point() and ra.lo == 0
        if isinstance(a, float) and a == 0 and math.copysign(1, a) > 0 and rb.lo > 0: return 0.0
        if (a0 or (self.exc_mode and ra.contains(0))) and not rb.lo >= 0:
            # 0 ** negative
            zc = self.mkcmp('eq', a, 0)
            def neg():
                n = self.mkcmp('lt', b, 0)
                def bad():
                    self.raise_('ValueError' if mathpow else 'ZeroDivisionError', '0 to a negative power')
                if n is True: bad()
                elif n is not False: self.fork(n, True, bad, lambda: None)
            if zc is True: neg()
            elif zc is not False: self.fork(zc, True, neg, lambda: None)
        if ra.hi < 0 or (ra.hi == 0 and not ra.hc):
            if rb.int is False:
                if mathpow:
                    self.raise_('ValueError', 'math domain error')
                return T('cpow', a, b, ty='complex')
        elif self.exc_mode and not (ra.lo >= 0) and rb.int is not True:
            c = T('raises', 'ValueError' if mathpow else 'complex', 'pow', a, b, ty='bool')
            if mathpow:
                self.fork(c, True, lambda: self.raise_('ValueError', 'math domain error'), lambda: None)
            else:
                return self.fork(c, True, lambda: T('cpow', a, b, ty='complex'), lambda: self._pow_over(a, b, ty))
        return self._pow_over(a, b, ty, mathpow)

    def _pow_over(self, a, b, ty, mathpow=False):
        if self.exc_mode and ty != 'int' and not (self.intervals and self.bounds(T('pow', a, b, ty='float')) is not None):
            c = T('raises', 'OverflowError', 'pow', a, b, ty='bool')
            self.fork(c, True, lambda: self.raise_('OverflowError', 'overflow'), lambda: None)
        return T('pow', a, b, ty='float' if mathpow else ty)

    def unary(self, op, v):
        return self.lift(lambda x: self._unary(op, x), v)

    def _unary(self, op, v):
        if op == 'not':
            return self.branch(v, lambda: False, lambda: True)
        if self.special_inst(v):
            m = self.class_lookup(self.type_of(v), {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op])
            if m is None:
                self.raise_('TypeError', 'bad operand type for unary %s' % op)
            return self.call(self.bind(m, v), [], {})
        v = self.numify(v)
        if isinstance(v, Unknown):
            return v
        if isinstance(v, (int, float, complex)):
            return -v if op == '-' else (+v if op == '+' else ~v)
        if isinstance(v, Term) and self.is_num(v):
            if op == '+': return v
            if op == '-':
                return T('neg', v, ty=v.ty if v.ty != 'bool' else 'int')
            return T('inv', v, ty='int')
        r = self.lib.unary(op, v)
        if r is not None:
            return r
        self.raise_('TypeError', 'bad operand type for unary %s' % op)

    # ------------------------------------------------------------ containers
    def length(self, v):
        if isinstance(v, Phi):
            return self.lift(self.length, v)
        if isinstance(v, (str, bytes, tuple, frozenset)):
            return len(v)
        if isinstance(v, Term):
            if v.ty == 'str':
                return T('len', v, ty='int')
            if v.ty == 'any':
                return T('len', v, ty='int')
            self.raise_('TypeError', 'object has no len()')
        if isinstance(v, Unknown):
            return Unknown('len')
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'dict', 'set'):
                vals = o.items if o.kind == 'list' else [x for _, x in o.d.values()]
                def cnt(i, n):
                    while i < len(vals):
                        x = vals[i]
                        if isinstance(x, Phi) and self.maybe_absent(x):
                            x = self.resolve(x)
                            if isinstance(x, Phi):
                                return self.lift(lambda y: cnt2(y, i, n), x)
                        if x is not ABSENT: n += 1
                        i += 1
                    return n
                def cnt2(y, i, n):
                    return cnt(i + 1, n + (0 if y is ABSENT else 1))
                return cnt(0, 0)
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__len__')
                if m is not None:
                    return self.call(self.bind(m, v), [], {})
            if o.kind == 'trap':
                self.trap(o, 'len')
                return Unknown('len of opaque')
            if o.kind == 'unknown':
                return Unknown('len')
            r = self.lib.obj_len(v, o)
            if r is not None:
                return r
        self.raise_('TypeError', 'object has no len()')

    def maybe_absent(self, v):
        if v is ABSENT: return True
        return isinstance(v, Phi) and v.absent

    def settle(self, r, fn):
        """Run fn() in states where no element of container r is conditional."""
        o = self.obj(r)
        vals = o.items if o.items is not None else [x for _, x in o.d.values()]
        for x in vals:
            if isinstance(x, Phi) and self.maybe_absent(x):
                x2 = self.resolve(x)
                if isinstance(x2, Phi) and self.maybe_absent(x2):
                    return self.fork(x2.c, True, lambda: self.settle(r, fn), lambda: self.settle(r, fn))
        wo = self.w(r)
        if wo.items is not None:
            wo.items = [self.resolve(x) if self.maybe_absent(x) else x for x in wo.items]
            wo.items = [x for x in wo.items if x is not ABSENT]
        else:
            nd = {}
            for k, (kk, x) in wo.d.items():
                x = self.resolve(x) if self.maybe_absent(x) else x
                if x is not ABSENT:
                    nd[k] = (kk, x)
            wo.d = nd
        return fn()

    def settle_list(self, items, fn):
        r = self.new_list(items)
        return self.settle(r, lambda: fn(list(self.obj(r).items)))

    def has_cond(self, r):
        o = self.obj(r)
        vals = o.items if o.items is not None else ([x for _, x in o.d.values()] if o.d is not None else [])
        return any(self.maybe_absent(x) for x in vals)

    def iterate(self, v):
        r = self.iterate_(v)
        self.work += len(r)
        return r

    def iterate_(self, v):
        """List of the elements of an iterable (elements may be conditional:
        Phi with ABSENT)."""
        v = self.resolve(v)
        if isinstance(v, Phi):
            # merge elementwise
            its = self.lift(lambda x: tuple(self.iterate(x)), v)
            its = self.resolve(its)
            if isinstance(its, tuple):
                return list(its)
            out = []
            n = max(len(x) for _, x in leaves(its))
            for i in range(n):
                def pick(t, i=i):
                    if isinstance(t, Phi):
                        return mkphi(t.c, pick(t.a), pick(t.b))
                    return t[i] if i < len(t) else ABSENT
                out.append(pick(its))
            return out
        if isinstance(v, (str, bytes)):
            return list(v)
        if isinstance(v, (tuple, frozenset)):
            return list(v)
        if isinstance(v, Unknown):
            raise GiveUp('iteration over unknown (%s)' % v.why)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                return list(o.items)
            if o.kind in ('dict', 'set'):
                out = []
                for k, x in o.d.values():
                    if self.maybe_absent(x):
                        def ck(y, k=k):
                            if isinstance(y, Phi):
                                return mkphi(y.c, ck(y.a), ck(y.b))
                            return ABSENT if y is ABSENT else k
                        k = ck(x)
                    out.append(k)
                return out
            if o.kind == 'iter':
                if o.f.get('pending'):
                    self.force(v)
                    o = self.obj(v)
                items = list(o.items)
                if o.f.get('tail', ABSENT) is not ABSENT:
                    raise GiveUp('exhausting an infinite iterator')
                self.w(v).items = []
                return items
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__iter__')
                if m is not None:
                    r = self.resolve(self.call(self.bind(m, v), [], {}))
                    return self.iterate(self.next_iter(r) if self.is_next(r) else r)
                m = self.class_lookup(o.cls, '__getitem__')
                if m is None:
                    r = self.lib.obj_iter(v, o)
                    if r is not None: return r
                    self.raise_('TypeError', 'object is not iterable')
                return self.iterate(self.getitem_iter(v, m))
            if o.kind == 'trap':
                self.trap(o, 'iteration')
                raise GiveUp('iteration over opaque operand')
            r = self.lib.obj_iter(v, o)
            if r is not None:
                return r
            if o.kind in ('unknown', 'opaque'):
                raise GiveUp('iteration over unknown object')
            self.raise_('TypeError', 'object is not iterable')
        if isinstance(v, Term) and v.ty in ('any', 'str'):
            raise GiveUp('iteration over symbolic %s' % v.ty)
        self.raise_('TypeError', 'object is not iterable')

    def getitem_iter(self, v, m, cap=40):
        """Iterator over an object that only defines __getitem__."""
        items = []
        for i in range(cap):
            sink = Sink(('raise',))
            self.sinks.append(sink)
            try:
                try:
                    x = self.call(self.bind(m, v), [i], {})
                except AbsRaise as r:
                    if not sink.got and self.exc_is(r.exc, Ext('builtins.IndexError')) is True:
                        return self.new_iter(items)
                    raise
            finally:
                self.sinks.remove(sink)
            if sink.got: raise GiveUp('conditional end of an iteration through __getitem__')
            items.append(x)
        return self.new_iter(items, Unknown('beyond the first elements'))

    def next_iter(self, v, cap=40):
        """Iterator over an object that defines __next__."""
        m = self.class_lookup(self.obj(v).cls, '__next__')
        items = []
        for i in range(cap):
            x = self.one_next(m, v)
            if x is ABSENT: return self.new_iter(items)
            items.append(x)
        return self.new_iter(items, Unknown('beyond the first elements'))

    def one_next(self, m, v):
        """v.__next__(), or ABSENT at the end."""
        sink = Sink(('raise',))
        self.sinks.append(sink)
        n = len(self.stack)
        try:
            try: x = self.call(self.bind(m, v), [], {})
            except PathDead:
                if sink.got: raise GiveUp('conditional end of an iteration through __next__')
                raise
            except AbsRaise as r:
                if not sink.got and self.exc_is(r.exc, Ext('builtins.StopIteration')) is True:
                    del self.stack[n:]
                    return ABSENT
                raise
        finally: self.sinks.remove(sink)
        if sink.got: raise GiveUp('conditional end of an iteration through __next__')
        return x

    def is_next(self, v):
        return self.is_kind(v, 'inst') and isinstance(self.obj(v).cls, Ref) and self.class_lookup(self.obj(v).cls, '__next__') is not None

    def peek_iter(self, v):
        """(items, infinite_tail) of an iterable, consuming iterators."""
        v = self.resolve(v)
        if self.is_kind(v, 'iter'):
            if self.pending(v): self.force(v)
            o = self.obj(v)
            items, tail = list(o.items), o.f.get('tail', ABSENT)
            self.w(v).items = []
            return items, tail
        if self.is_kind(v, 'inst'):
            o = self.obj(v)
            if self.class_lookup(o.cls, '__iter__') is None:
                m = self.class_lookup(o.cls, '__getitem__')
                if m is not None: return self.peek_iter(self.getitem_iter(v, m))
            else:
                r = self.resolve(self.call(self.bind(self.class_lookup(o.cls, '__iter__'), v), [], {}))
                return self.peek_iter(self.next_iter(r) if self.is_next(r) else r)
        return self.iterate(v), ABSENT

    def getitem(self, v, i):
        if isinstance(v, Phi) or isinstance(i, Phi):
            return self.lift(self.getitem, v, i)
        if isinstance(v, Unknown) or isinstance(i, Unknown):
            return Unknown('item of unknown')
        i2 = self.numify(i)
        if isinstance(v, (tuple, str, bytes)):
            if isinstance(i2, slice):
                return self.slice_(v, i2)
            if isinstance(i2, (int,)):
                try:
                    return v[i2]
                except IndexError:
                    self.raise_('IndexError', 'index out of range')
            if isinstance(i2, Term):
                return Unknown('symbolic index')
            self.raise_('TypeError', 'indices must be integers')
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                if self.has_cond(v):
                    return self.settle(v, lambda: self.getitem(v, i))
                if isinstance(i2, slice):
                    s = self.slice_(o.items, i2)
                    return s if isinstance(s, Unknown) else self.new_list(s)
                if isinstance(i2, int):
                    try:
                        return o.items[i2]
                    except IndexError:
                        self.raise_('IndexError', 'list index out of range')
                if isinstance(i2, Term):
                    return Unknown('symbolic index')
                if self.special_inst(i2) and self.class_lookup(self.type_of(i2), '__index__') is not None:
                    return self.getitem(v, self.call(self.bind(self.class_lookup(self.type_of(i2), '__index__'), i2), [], {}))
                self.raise_('TypeError', 'list indices must be integers')
            if o.kind == 'dict':
                e = o.d.get(self.hkey(i))
                def miss():
                    df = o.f.get('default_factory')
                    if df is not None and self.issub_dd(o):
                        def doit(g):
                            if g is None:
                                self.raise_('KeyError', i)
                            val = self.call(g, [], {})
                            self.w(v).d[self.hkey(i)] = (i, val)
                            return val
                        return self.lift(doit, df)
                    if isinstance(o.cls, Ref):
                        m = self.class_lookup(o.cls, '__missing__')
                        if m is not None:
                            return self.call(self.bind(m, v), [i], {})
                    if self.sym_key(i) or any(self.sym_key(k) for k, _ in o.d.values()):
                        return self.lib.sym_getitem(v, o, i)
                    self.raise_('KeyError', i)
                if e is None:
                    return miss()
                return self.lift(lambda x: miss() if x is ABSENT else x, e[1])
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__getitem__')
                if m is not None:
                    return self.call(self.bind(m, v), [i], {})
            if o.kind == 'trap':
                self.trap(o, 'item')
                return Unknown('item of opaque')
            r = self.lib.obj_getitem(v, o, i)
            if r is not None:
                return r
            if o.kind in ('unknown', 'opaque'):
                return Unknown('item')
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(v, Term):
            if v.ty == 'str':
                return self.lib.str_getitem(v, i2)
            if v.ty == 'any':
                return T('item', v, i if not isinstance(i, slice) else 'slice', ty='any')
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(v, Ext):
            return self.lib.ext_getitem(v, i)
        self.raise_('TypeError', 'object is not subscriptable')

    def issub_dd(self, o):
        c = o.cls
        return same(c, Ext('collections.defaultdict')) or (isinstance(c, Ref) and any(same(b, Ext('collections.defaultdict')) for b in self.mro(c)))

    def sym_key(self, k):
        if isinstance(k, Term) and k.op != 'id': return True
        if isinstance(k, tuple): return any(self.sym_key(x) for x in k)
        return isinstance(k, (Unknown, Phi))

    def slice_(self, seq, s):
        if any(not (x is None or isinstance(x, int)) for x in (s.start, s.stop, s.step)):
            return Unknown('symbolic slice')
        return seq[s]

    def setitem(self, v, i, val):
        if isinstance(v, Phi) or isinstance(i, Phi):
            return self.lift(lambda a, b: self.setitem(a, b, val), v, i)
        if isinstance(v, Unknown):
            return
        i2 = self.numify(i)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                if self.has_cond(v):
                    return self.settle(v, lambda: self.setitem(v, i, val))
                if isinstance(i2, int):
                    if not -len(o.items) <= i2 < len(o.items):
                        self.raise_('IndexError', 'list assignment index out of range')
                    self.w(v).items[i2] = val
                    return
                if isinstance(i2, slice):
                    if any(not (x is None or isinstance(x, int)) for x in (i2.start, i2.stop, i2.step)):
                        raise GiveUp('symbolic slice assignment')
                    self.w(v).items[i2] = self.iterate(val)
                    return
                raise GiveUp('symbolic list index in assignment')
            if o.kind == 'dict':
                if isinstance(i, Unknown):
                    raise GiveUp('unknown dict key')
                self.w(v).d[self.hkey(i)] = (i, val)
                if 'owner' in o.f and isinstance(i, str):
                    self.w(o.f['owner']).f[i] = val
                return
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__setitem__')
                if m is not None:
                    self.call(self.bind(m, v), [i, val], {})
                    return
            if o.kind == 'trap':
                self.trap(o, 'set item')
                return
            if self.lib.obj_setitem(v, o, i, val):
                return
            if o.kind in ('unknown', 'opaque'):
                return
        self.raise_('TypeError', 'object does not support item assignment')

    def delitem(self, v, i):
        v = self.resolve(v); i = self.resolve(i)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'dict':
                k = self.hkey(i)
                e = o.d.get(k)
                if e is None: self.raise_('KeyError', i)
                def go(x):
                    if x is ABSENT: self.raise_('KeyError', i)
                self.lift(go, e[1])
                d = self.w(v).d
                d.pop(k, None)
                return
            if o.kind == 'list':
                if isinstance(i, (int, slice)):
                    if self.has_cond(v):
                        return self.settle(v, lambda: self.delitem(v, i))
                    try:
                        del self.w(v).items[i]
                    except IndexError:
                        self.raise_('IndexError', 'list assignment index out of range')
                    return
        raise GiveUp('del item')

    def contains(self, c, x):
        if isinstance(c, Phi) or isinstance(x, Phi):
            return self.lift(self.contains, c, x)
        if isinstance(c, Unknown) or isinstance(x, Unknown):
            return Unknown('in')
        if isinstance(c, str) or (isinstance(c, Term) and c.ty == 'str'):
            return self.lib.str_contains(c, x)
        if isinstance(c, (tuple, frozenset)):
            items = list(c)
        elif isinstance(c, Ref):
            o = self.obj(c)
            if o.kind in ('dict', 'set'):
                e = o.d.get(self.hkey(x))
                if e is None:
                    xs = self.sym_key(x)
                    if xs or any(self.sym_key(k) for k, _ in o.d.values()):
                        return self.lib.sym_in(c, o, x)
                    return False
                return self.lift(lambda y: y is not ABSENT, e[1])
            if o.kind == 'inst':
                m = self.class_lookup(o.cls, '__contains__')
                if m is not None:
                    return self.truth_value(self.call(self.bind(m, c), [x], {}))
            if o.kind == 'trap':
                self.trap(o, 'in')
                return Unknown('in')
            items = self.iterate(c)
        else:
            self.raise_('TypeError', 'argument is not iterable')
        def rec(i):
            if i == len(items): return False
            it = items[i]
            if it is ABSENT: return rec(i + 1)
            def test(y):
                if y is ABSENT: return rec(i + 1)
                if self.is_(y, x) is True: return True
                return self.branch(self.cmp('==', y, x), lambda: True, lambda: rec(i + 1))
            return self.lift(test, it)
        return rec(0)

    # ------------------------------------------------------------ exceptions matching
    def exc_is(self, exc, cls):
        if isinstance(cls, str):
            cls = Ext('builtins.' + cls)
        exc = self.resolve(exc)
        if isinstance(cls, tuple):
            rs = [self.exc_is(exc, c) for c in cls]
            if True in rs: return True
            return None if None in rs else False
        if isinstance(exc, Ref):
            return self.issub(self.obj(exc).cls, cls)
        return None

    def exc_name(self, exc):
        exc = self.resolve(exc)
        if isinstance(exc, Ref):
            c = self.obj(exc).cls
            return c.path.split('.')[-1] if isinstance(c, Ext) else self.obj(c).f['name']
        return '?'

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if not self.steps & 511 and time.monotonic() > self.deadline: raise GiveUp('time budget')
        if self.steps > self.MAXSTEPS:
            raise GiveUp('step budget')
        self.cur = (env.file, s.lineno)
        getattr(self, 's_' + type(s).__name__)(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env): pass

    def s_Return(self, s, env):
        raise ReturnSig(self.ev(s.value, env) if s.value else None)

    def s_Break(self, s, env): raise BreakSig()
    def s_Continue(self, s, env): raise ContinueSig()

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            self.store(env, t.id, self.inplace(op, self.load(env, t.id), self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.inplace(op, cur, self.ev(s.value, env)))
        else:
            o = self.ev(t.value, env)
            i = self.ev_index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.ev(s.value, env)))

    def inplace(self, op, a, b):
        def go(x, y):
            if isinstance(x, Ref):
                o = self.obj(x)
                if o.kind == 'list' and op == '+':
                    self.w(x).items.extend(self.iterate(y))
                    return x
                if o.kind == 'list' and op == '*' and isinstance(y, int):
                    w = self.w(x); w.items = w.items * y
                    return x
                if o.kind == 'set' and op in ('|', '&', '-') and not same(o.cls, Ext('builtins.frozenset')):
                    r = self.lib.binop(op, x, y)
                    self.w(x).d = dict(self.obj(r).d)
                    return x
                if o.kind == 'dict' and op == '|':
                    self.lib.method_dict(x, o, 'update', [y], {})
                    return x
                if o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__i%s__' % self.BINM[op])
                    if m is not None:
                        r = self.resolve(self.call(self.bind(m, x), [y], {}))
                        if r is not NotImplemented: return r
                if o.kind == 'nparray':
                    m = self.class_lookup(o.cls, '__i%s__' % self.BINM[op]) if isinstance(o.cls, Ref) else None
                    if m is not None:
                        r = self.resolve(self.call(self.bind(m, x), [y], {}))
                        if r is not NotImplemented: return r
                        return self.binop(op, x, y)
                    return self.lib.np_inplace(op, x, y)
            return self.binop(op, x, y)
        return self.lift(go, a, b)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env_del(self, env, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)

    def s_If(self, s, env):
        c = self.ev(s.test, env)
        self.branch(c, lambda: self.block(s.body, env), lambda: self.block(s.orelse, env))

    def s_Assert(self, s, env):
        c = self.ev(s.test, env)
        self.branch(c, lambda: None, lambda: self.raise_('AssertionError', ''))

    def s_Raise(self, s, env):
        if s.exc is None:
            if env.handling is not None:
                raise AbsRaise(env.handling)
            self.raise_('RuntimeError', 'no active exception')
        v = self.ev(s.exc, env)
        cause = self.ev(s.cause, env) if s.cause is not None else None
        def go(x):
            if self.is_kind(x, 'class') or isinstance(x, Ext):
                x = self.call(x, [], {})
            if isinstance(x, Unknown): raise GiveUp('unknown exception raised')
            if isinstance(x, Ref): self.w(x).f['__cause__'] = cause
            raise AbsRaise(x)
        self.lift(go, v)

    def s_Global(self, s, env): pass
    def s_Nonlocal(self, s, env): pass

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f], {})
        self.store(env, s.name, f)

    def make_func(self, node, env, name):
        a = node.args
        doc = None
        if not isinstance(node, ast.Lambda):
            doc = ast.get_docstring(node, clean=False)
        o = HObj('func', None, {
            'node': node, 'name': name, 'doc': doc,
            'defaults': [self.ev(d, env) for d in a.defaults],
            'kwdefaults': {p.arg: self.ev(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
            'env': env, 'globals': env.globals, 'attrs': self.new_dict(), 'file': env.file,
            'defcls': env.classref or env.cls, 'module': env.modname})
        return self.alloc(o)

    def s_ClassDef(self, s, env):
        if any(k.arg == 'metaclass' and not same(self.resolve(self.ev(k.value, env)), Ext('builtins.type')) for k in s.keywords):
            self.store(env, s.name, self.unknown('class with a metaclass'))
            return
        bases = [self.ev(b, env) for b in s.bases] or [Ext('builtins.object')]
        frame = self.alloc(HObj('frame', None, {}))
        cenv = Env(frame, env, env.globals, info(s))
        cenv.file, cenv.modname = env.file, env.modname
        cenv.is_class = True
        cref = self.alloc(HObj('class', None, {'name': s.name, 'bases': bases, 'mro': [], 'dict': None, 'module': env.modname,
                                               'lineno': s.lineno, 'file': env.file}))
        cenv.classref = cref
        self.block(s.body, cenv)
        ns = self.obj(frame).f
        d = self.new_dict([(k, v) for k, v in ns.items() if v is not ABSENT])
        if '__eq__' in ns and '__hash__' not in ns:
            self.w(d).d[self.hkey('__hash__')] = ('__hash__', None)
        if '__new__' in ns and self.is_kind(ns['__new__'], 'func'):
            self.w(d).d[self.hkey('__new__')] = ('__new__', self.alloc(HObj('staticmethod', None, {'f': ns['__new__']})))
        co = self.w(cref)
        co.f['dict'] = d
        # C3 is simple here: repository hierarchies are linear
        mro = [cref]
        for b in bases:
            for c in (self.mro(b) if isinstance(b, Ref) else self.lib.ext_mro(b)):
                mro = [m for m in mro if not same(m, c)] + [c]
        co.f['mro'] = mro
        c = cref
        for dec in reversed(s.decorator_list):
            c = self.call(self.ev(dec, env), [c], {})
        self.store(env, s.name, c)

    def s_Import(self, s, env):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(env, al.asname, m)
            else:
                self.store(env, al.name.split('.')[0], self.import_module(al.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        modname = s.module or ''
        if s.level:
            pk = env.modname.split('.')
            if not env.ispkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            modname = '.'.join(pk + ([modname] if modname else []))
        if modname == '__future__':
            return
        m = self.import_module(modname)
        for al in s.names:
            if al.name == '*':
                names = self.getattr_(m, '__all__', None)
                if names is None:
                    if isinstance(m, Ref):
                        names = [k for k in self.obj(self.obj(m).f['ns']).f if not k.startswith('_')]
                    else:
                        raise GiveUp('import * from library')
                else:
                    names = self.iterate(names)
                for n in names:
                    n = self.resolve(n)
                    if isinstance(n, str):
                        self.store(env, n, self.getattr_(m, n))
                continue
            v = self.getattr_(m, al.name, None) if isinstance(m, Ref) else self.lib.ext_attr(m, al.name)
            if v is None:
                if isinstance(m, Ref):
                    sub = modname + '.' + al.name
                    if self.find_module(sub):
                        v = self.import_module(sub)
                    elif al.name in self.obj(self.obj(m).f['ns']).f:
                        v = self.obj(self.obj(m).f['ns']).f[al.name]
                    else:
                        self.raise_('ImportError', 'cannot import name %s' % al.name)
                else:
                    self.raise_('ImportError', 'cannot import name %s' % al.name)
            self.store(env, al.asname or al.name, v)

    def find_module(self, name):
        p = os.path.join(self.root, *name.split('.'))
        for q, pkg in ((os.path.join(p, '__init__.py'), True), (p + '.py', False)):
            if os.path.exists(q) or q in self.overlay:
                return q, pkg
        return None

    def import_module(self, name):
        top = name.split('.')[0]
        if top == 'uncertainties' or self.overlay and os.path.join(self.root, top + '.py') in self.overlay:
            if name in self.modules:
                return self.modules[name]
            if '.' in name:
                self.import_module(name.rsplit('.', 1)[0])
                if name in self.modules:
                    return self.modules[name]
            fm = self.find_module(name)
            if not fm:
                self.raise_('ImportError', 'No module named %s' % name)
            return self.load_file(name, *fm)
        if top == 'numpy' and not self.numpy:
            self.raise_('ImportError', 'No module named numpy')
        return self.lib.import_ext(name)

    def load_file(self, name, path, pkg):
        src = self.overlay.get(path)
        if src is None:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
        tree = Mangler().visit(ast.parse(src, path))
        rel = os.path.relpath(path, self.root)
        self.trees[rel] = tree
        ns = self.alloc(HObj('frame', None, {'__name__': name, '__file__': path, '__doc__': ast.get_docstring(tree, clean=False)}))
        m = self.alloc(HObj('module', None, {'name': name, 'ns': ns, 'file': rel}))
        self.modules[name] = m
        env = Env(ns, None, ns, info(tree))
        env.file, env.modname, env.ispkg = rel, name, pkg
        cur, self.cur = self.cur, (rel, 0)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
        try:
            self.module_body(tree.body, env, m)
        except AbsRaise:
            self.modules.pop(name, None)
            raise
        finally:
            self.cur = cur
        if '.' in name:
            if par in self.modules:
                self.w(self.obj(self.modules[par]).f['ns']).f.setdefault(leaf, m)
        return m

    def module_body(self, body, env, m):
        """Top-level statements.  When the analysis cannot follow one of them,
        the names it may bind are unknown and the rest goes on."""
        for s in body:
            nsink, nstack = len(self.sinks), len(self.stack)
            st = self.st
            try:
                self.stmt(s, env)
            except (GiveUp, AbsRaise, PathDead, RecursionError) as x:
                if isinstance(x, AbsRaise) and (self.strict or self.exc_is(x.exc, 'ImportError') is not False): raise
                if isinstance(x, PathDead): raise
                del self.sinks[nsink:]
                del self.stack[nstack:]
                what = self.exc_name(x.exc) if isinstance(x, AbsRaise) else str(x)
                if self.st is not st: self.st = st.child() if hasattr(st, 'child') else st
                self.note('%s:%d: top-level statement not analysed (%s)' % (env.file, s.lineno, what))
                self.w(m).f['partial'] = True
                self.partial = True
                names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)): names.add(s.name)
                ns = self.w(self.obj(m).f['ns'])
                for n in names: ns.f[n] = Unknown('bound by a statement that was not analysed')

    strict = False
    partial = False        # some top-level statement could not be analysed

    def s_Try(self, s, env):
        if s.finalbody:
            return self.try_finally(s, env)
        return self.try_except(s, env)

    def try_finally(self, s, env):
        sink = Sink(('return', 'loop', 'raise'))
        self.sinks.append(sink)
        normal = None
        try:
            try:
                if s.handlers or s.orelse:
                    self.try_except(s, env)
                else:
                    self.block(s.body, env)
                normal = self.st
            except PathDead:
                pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
                sink.got.append((self.st, sig))
        finally:
            self.sinks.remove(sink)
        outs = []
        if normal is not None:
            outs.append((normal, None))
        outs += sink.got
        if not outs:
            raise PathDead()
        live = None
        for i, (st, sig) in enumerate(outs):
            self.st = st
            try:
                self.block(s.finalbody, env)
            except PathDead:
                continue
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sg:
                if len(outs) == 1: raise
                self.defer(sg)
                continue
            if sig is None:
                live = self.st
            else:
                if len(outs) == 1:
                    raise sig
                self.defer(sig)
        if live is None:
            raise PathDead()
        self.st = live

    def try_except(self, s, env):
        sink = Sink(('raise',))
        self.sinks.append(sink)
        normal = None
        other = None
        nstack = len(self.stack)
        try:
            try:
                self.block(s.body, env)
                normal = self.st
            except PathDead:
                pass
            except AbsRaise as e:
                sink.got.append((self.st, e))
            except (ReturnSig, BreakSig, ContinueSig) as sig:
                other = (self.st, sig)
        finally:
            self.sinks.remove(sink)
        del self.stack[nstack:]
        results = []
        nouts = (1 if normal is not None else 0) + (1 if other else 0) + len(sink.got)
        # a non-exceptional control transfer out of the body
        if other is not None:
            if nouts == 1:
                self.st = other[0]
                raise other[1]
            self.st = other[0]
            self.defer(other[1])
        if normal is not None:
            self.st = normal
            try:
                self.block(s.orelse, env)
                results.append((self.st, None))
            except PathDead:
                pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
                if nouts == 1: raise
                self.defer(sig)
        for st, e in sink.got:
            self.st = st
            try:
                self.handle(s.handlers, e, env)
                results.append((self.st, None))
            except PathDead:
                pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
                if nouts == 1: raise
                self.defer(sig)
        if not results:
            raise PathDead()
        self.join_many(results)

    def handle(self, handlers, e, env):
        for h in handlers:
            if h.type is None:
                ok = True
            else:
                t = self.ev(h.type, env)
                t = self.resolve(t)
                ok = self.exc_is(e.exc, tuple(t) if isinstance(t, tuple) else t)
            if ok is None:
                raise GiveUp('undecided exception handler')
            if ok:
                if h.name:
                    self.store(env, h.name, e.exc)
                old = env.handling
                env.handling = e.exc
                try:
                    self.block(h.body, env)
                finally:
                    env.handling = old
                return
        raise e

    def s_With(self, s, env):
        return self.with_items(s.items, s, env)

    def with_items(self, items, s, env):
        if not items: return self.block(s.body, env)
        it = items[0]
        m = self.resolve(self.ev(it.context_expr, env))
        assign = lambda v: self.assign(it.optional_vars, v, env) if it.optional_vars is not None else None
        rest = lambda: self.with_items(items[1:], s, env)
        if self.is_kind(m, 'suppress'):
            if len(items) > 1: raise GiveUp('suppress() with other context managers')
            return self.suppress(self.obj(m).f['types'], s, env)
        if self.is_kind(m, 'ctxgen'):
            return self.with_generator(self.obj(m).f['gen'], assign, rest)
        if not (self.is_kind(m, 'inst') and isinstance(self.obj(m).cls, Ref)):
            assign(self.lib.enter(m))
            rest()
            return self.lib.exit(m)
        leave = self.getattr_(m, '__exit__')
        assign(self.call(self.getattr_(m, '__enter__'), [], {}))
        sink = Sink(('return', 'loop', 'raise'))
        self.sinks.append(sink)
        n = len(self.stack)
        try:
            try:
                rest()
                sink.got.append((self.st, None))
            except PathDead: pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig: sink.got.append((self.st, sig))
        finally: self.sinks.remove(sink)
        del self.stack[n:]
        live = []
        last = len(sink.got) == 1
        for st, sig in sink.got:
            self.st = st
            try:
                if isinstance(sig, AbsRaise):
                    def swallow(): live.append((self.st, None))
                    def again():
                        if last: raise sig
                        self.defer(sig)
                        raise PathDead()
                    r = self.resolve(self.call(leave, [self.type_of(sig.exc), sig.exc, Unknown('traceback')], {}))
                    t = self.truth_value(r)
                    if t is True: swallow()
                    elif t is False: again()
                    else: raise GiveUp('undecided result of __exit__')
                    continue
                self.call(leave, [None, None, None], {})
            except PathDead: continue
            if sig is None: live.append((self.st, None))
            elif last: raise sig
            else: self.defer(sig)
        if not live: raise PathDead()
        self.join_many(live)

    def with_generator(self, gen, assign, rest):
        """@contextlib.contextmanager: the block is run at the yield."""
        d = self.take_pending(gen)
        left = []
        def emit(v):
            sink = Sink(('return', 'loop'))
            self.sinks.append(sink)
            try:
                try:
                    assign(v)
                    rest()
                    sink.got.append((self.st, None))
                except PathDead: pass
                except (ReturnSig, BreakSig, ContinueSig) as sig: sink.got.append((self.st, sig))
            finally: self.sinks.remove(sink)
            sigs = [g for st, g in sink.got if g is not None]
            if sigs and len(sink.got) > 1: raise GiveUp('several ways out of a with block')
            if not sink.got: raise PathDead()
            left.extend(sigs)
            self.join_many([(st, None) for st, g in sink.got])
        d.through(emit)
        if left: raise left[0]

    def suppress(self, types, s, env):
        h = ast.ExceptHandler(type=None, name=None, body=[])
        t = ast.Try(body=s.body, handlers=[], orelse=[], finalbody=[])
        ast.copy_location(t, s)
        sink = Sink(('raise',))
        self.sinks.append(sink)
        outs = []
        try:
            try:
                self.block(s.body, env)
                outs.append((self.st, None))
            except PathDead:
                pass
            except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as e:
                sink.got.append((self.st, e))
        finally:
            self.sinks.remove(sink)
        n = len(outs) + len(sink.got)
        for st, e in sink.got:
            self.st = st
            if not isinstance(e, AbsRaise):
                if n == 1: raise e
                self.defer(e)
            elif self.exc_is(e.exc, types):
                outs.append((st, None))
            elif n == 1:
                raise e
            else:
                self.defer(e)
        if not outs:
            raise PathDead()
        self.join_many(outs)

    def loop(self, body_steps, env, orelse):
        """body_steps: generator-like callable step(k) -> True when exhausted."""
        exits = []
        k = 0
        while True:
            if k > 3000:
                raise GiveUp('loop bound')
            sink = Sink(('loop',))
            self.sinks.append(sink)
            done = False
            normal = []
            try:
                try:
                    done = body_steps(k)
                    normal.append((self.st, None))
                except PathDead:
                    pass
                except BreakSig as sig:
                    exits.append((self.st, None))
                except ContinueSig as sig:
                    normal.append((self.st, None))
            finally:
                self.sinks.remove(sink)
            for st, sig in sink.got:
                if isinstance(sig, BreakSig):
                    exits.append((st, None))
                else:
                    normal.append((st, None))
            if not normal:
                break
            self.join_many(normal)
            if done:
                try:
                    self.block(orelse, env)
                    exits.append((self.st, None))
                except PathDead:
                    pass
                except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
                    if not exits: raise
                    self.defer(sig)
                break
            k += 1
        if not exits:
            raise PathDead()
        self.join_many(exits)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        it = self.resolve(it)
        items = tail = None
        if self.is_kind(it, 'inst') and isinstance(self.obj(it).cls, Ref):
            m = self.class_lookup(self.obj(it).cls, '__iter__')
            if m is not None:
                it = self.resolve(self.call(self.bind(m, it), [], {}))
                if self.is_next(it):
                    m = self.class_lookup(self.obj(it).cls, '__next__')
                    def step(k):
                        x = self.one_next(m, it)
                        if x is ABSENT: return True
                        self.for_body(s, x, env)
                        return False
                    return self.loop(step, env, s.orelse)
        d = self.pending(it)
        if d is not None and d.feed is not None:
            self.take_pending(it)
            return self.feed_loop(d, s, env)
        if d is not None:
            self.force(it)
            if self.obj(it).f['dirty']: raise GiveUp('generator with effects inside an exception handler')
        if self.is_kind(it, 'iter'):
            # consume lazily
            def step(k):
                o = self.obj(it)
                if not o.items:
                    if o.f.get('tail', ABSENT) is not ABSENT:
                        if k > self.UNROLL: raise GiveUp('infinite loop')
                        self.assign(s.target, o.f['tail'], env)
                        self.block(s.body, env)
                        return False
                    return True
                w = self.w(it)
                x = w.items.pop(0)
                self.for_body(s, x, env)
                return False
            return self.loop(step, env, s.orelse)
        if self.is_kind(it, 'list'):
            # Python iterates over a live list by index
            def step(k):
                o = self.obj(it)
                if o.kind != 'list':
                    raise GiveUp('list lost in loop')
                if k >= len(o.items):
                    return True
                self.for_body(s, o.items[k], env)
                return False
            return self.loop(step, env, s.orelse)
        items = self.iterate(it)
        def step(k):
            if k >= len(items):
                return True
            self.for_body(s, items[k], env)
            return False
        return self.loop(step, env, s.orelse)

    def feed_loop(self, d, s, env):
        """for loop over a generator: its body is run at each yield."""
        exits = []
        count = [0]
        depth = len(self.stack)
        def emit(v):
            count[0] += 1
            if count[0] > 3000: raise GiveUp('loop bound')
            sink = Sink(('loop', 'return'))
            self.sinks.append(sink)
            got = sink.got
            cur = self.cur
            top = self.stack[depth:]
            del self.stack[depth:]
            try:
                try:
                    self.for_body(s, v, env)
                    got.append((self.st, None))
                except PathDead: pass
                except (BreakSig, ContinueSig, ReturnSig) as sig: got.append((self.st, sig))
            finally:
                self.sinks.remove(sink)
                self.stack[depth:] = top
                self.cur = cur
            normal = []
            for st, sig in got:
                if isinstance(sig, (BreakSig, ReturnSig)): exits.append((st, sig))
                else: normal.append((st, None))
            if not normal: raise PathDead()
            self.join_many(normal)
        try:
            d.feed(emit)
            self.block(s.orelse, env)
            exits.append((self.st, None))
        except PathDead: pass
        except (ReturnSig, BreakSig, ContinueSig, AbsRaise) as sig:
            if not exits: raise
            self.defer(sig)
        left = [(st, None) for st, sig in exits if not isinstance(sig, ReturnSig)]
        rets = [(st, sig) for st, sig in exits if isinstance(sig, ReturnSig)]
        for i, (st, sig) in enumerate(rets):
            self.st = st
            if not left and i == len(rets) - 1: raise sig
            self.defer(sig)
        if not left: raise PathDead()
        self.join_many(left)

    def for_body(self, s, x, env):
        if self.maybe_absent(x):
            def go(y):
                if y is ABSENT:
                    return
                self.assign(s.target, y, env)
                self.block(s.body, env)
            x = self.resolve(x)
            self.lift(go, x)
        else:
            self.assign(s.target, x, env)
            self.block(s.body, env)

    def s_While(self, s, env):
        n = [0]
        def step(k):
            c = self.ev(s.test, env)
            if self.undecided(c):
                n[0] += 1
                if n[0] > 8:
                    raise GiveUp('loop with undecided condition')
            flag = []
            def body():
                self.block(s.body, env)
            def out():
                raise LoopDone()
            try:
                return self.while_branch(c, body)
            except LoopDone:
                return True
        # the undecided exit of a while loop is treated as a break without else
        return self.loop(step, env, s.orelse)

    def undecided(self, c):
        if isinstance(c, Ref):
            c = self.truth_value(c)
        if isinstance(c, Phi):
            return True
        r = self.truth(c)
        return not isinstance(r, bool)

    def while_branch(self, c, body):
        if isinstance(c, Ref):
            c = self.truth_value(c)
        c = self.resolve(c)
        if not isinstance(c, Phi):
            r = self.truth(c)
            if isinstance(r, bool):
                if r:
                    body()
                    return False
                return True
        def leave():
            raise BreakSig()
        self.branch(c, body, leave)
        return False

    # ------------------------------------------------------------ names
    def store(self, env, name, v):
        if env.info is not None:
            if name in env.info.globals:
                self.w(env.globals).f[name] = v
                return
            if name in env.info.nonlocals:
                e = env.parent
                while e is not None:
                    if not e.is_class and e.info is not None and name in e.info.locals:
                        self.w(e.frame).f[name] = v
                        return
                    e = e.parent
        self.w(env.frame).f[name] = v

    def load(self, env, name):
        e = env
        first = True
        while e is not None:
            if first or not e.is_class:
                fr = self.obj(e.frame).f
                if name in fr:
                    v = fr[name]
                    if isinstance(v, Phi) and self.maybe_absent(v):
                        v = self.lift(lambda x: self.raise_('UnboundLocalError', name) if x is ABSENT else x, v)
                    if v is not ABSENT:
                        return v
                elif e.info is not None and e.frame is not e.globals and not e.is_class and name in e.info.locals and name not in e.info.globals and name not in e.info.nonlocals:
                    self.raise_('UnboundLocalError' if first else 'NameError', name)
            first = False
            e = e.parent
        fr = self.obj(env.globals).f
        if name in fr:
            v = fr[name]
            if isinstance(v, Phi) and self.maybe_absent(v):
                v = self.lift(lambda x: self.raise_('NameError', name) if x is ABSENT else x, v)
            return v
        if hasattr(_bi, name):
            return self.lib.builtin(name)
        if self.partial: return Unknown('module analysed in part')
        self.raise_('NameError', name)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            if isinstance(v, Phi):
                lv = [x for _, x in leaves(v)]
                if all(isinstance(x, tuple) for x in lv) and len(set(map(len, lv))) == 1:
                    n = len(lv[0])
                    def pick(p, i):
                        return mkphi(p.c, pick(p.a, i), pick(p.b, i)) if isinstance(p, Phi) else p[i]
                    v = tuple(pick(v, i) for i in range(n))
                else:
                    return self.lift(lambda x: self.assign(t, x, env), v)
            if isinstance(v, Unknown):
                items = [Unknown(v.why) for _ in t.elts]
            elif isinstance(v, Term) and v.ty == 'any':
                items = [T('item', v, i, ty='any') for i in range(len(t.elts))]
            else:
                if isinstance(v, Ref) and self.obj(v).kind in ('list', 'dict', 'set') and self.has_cond(v):
                    return self.settle(v, lambda: self.assign(t, v, env))
                items = self.iterate(v)
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.new_list(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i+1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.raise_('ValueError', 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        if not self.steps & 511 and time.monotonic() > self.deadline: raise GiveUp('time budget')
        if self.steps > self.MAXSTEPS:
            raise GiveUp('step budget')
        if hasattr(n, 'lineno'):
            self.cur = (env.file, n.lineno)
        return getattr(self, 'e_' + type(n).__name__)(n, env)

    def e_Constant(self, n, env): return n.value
    def e_Name(self, n, env): return self.load(env, n.id)
    def e_Attribute(self, n, env): return self.getattr_(self.ev(n.value, env), n.attr)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.store(env, n.target.id, v)
        return v

    def e_Tuple(self, n, env):
        return tuple(self.seq(n.elts, env))
    def e_List(self, n, env):
        return self.new_list(self.seq(n.elts, env))
    def e_Set(self, n, env):
        return self.new_set(self.seq(n.elts, env))
    def seq(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.ev(e.value, env))
            else:
                out.append(self.ev(e, env))
        return out
    def e_Dict(self, n, env):
        r = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.lib.method_dict(r, self.obj(r), 'update', [self.ev(v, env)], {})
            else:
                kk = self.ev(k, env)
                self.setitem(r, kk, self.ev(v, env))
        return r

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.cur = (env.file, n.lineno)
        return self.binop(BINOPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return self.unary({ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)], v)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        def go(i):
            v = self.ev(n.values[i], env)
            if i == len(n.values) - 1:
                return v
            if isand:
                return self.branch(v, lambda: go(i + 1), lambda: v)
            return self.branch(v, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        def go(i, left):
            right = self.ev(n.comparators[i], env)
            self.cur = (env.file, n.lineno)
            r = self.cmp(CMPOPS[type(n.ops[i])], left, right)
            if i == len(n.ops) - 1:
                return r
            return self.branch(r, lambda: go(i + 1, right), lambda: r)
        return go(0, left)

    def e_IfExp(self, n, env):
        c = self.ev(n.test, env)
        return self.branch(c, lambda: self.ev(n.body, env), lambda: self.ev(n.orelse, env))

    def e_Lambda(self, n, env):
        return self.make_func(n, env, '<lambda>')

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.alloc(HObj('super', None, {'cls': env_cls(env), 'inst': env_self(env)}))
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars') and not n.args:
            fr = env.globals if n.func.id == 'globals' else env.frame
            r = self.new_dict([(k, v) for k, v in self.obj(fr).f.items()])
            return r
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.star(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, env))
                if isinstance(d, Ref) and self.obj(d).d is not None:
                    if self.has_cond(d):
                        raise GiveUp('conditional ** mapping')
                    for kk, vv in self.obj(d).d.values():
                        kwargs[kk] = vv
                else:
                    raise GiveUp('** of unknown mapping')
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.cur = (env.file, n.lineno)
        if isinstance(f, Ext) and f.path in ('builtins.eval', 'builtins.exec'):
            return self.eval_str(args, env)
        return self.call(f, args, kwargs)

    def star(self, v):
        v = self.resolve(v)
        if isinstance(v, Ref) and self.obj(v).kind in ('list', 'dict', 'set') and self.has_cond(v):
            raise GiveUp('conditional * sequence')
        return self.iterate(v)

    def eval_str(self, args, env):
        s = self.resolve(args[0])
        if not isinstance(s, str):
            return self.unknown('eval of a computed string')
        try:
            t = ast.parse(s.strip(), mode='eval')
        except SyntaxError as e:
            self.raise_('SyntaxError', str(e))
        line = self.cur[1]
        for x in ast.walk(t):
            if hasattr(x, 'lineno'):
                x.lineno = line
        return self.ev(t.body, env)

    def e_Starred(self, n, env):
        raise GiveUp('starred')

    def ev_index(self, n, env):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, env)
        return self.ev(n, env)

    def e_Slice(self, n, env):
        g = lambda x: self.numify(self.resolve(self.ev(x, env))) if x is not None else None
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        i = self.ev_index(n.slice, env)
        self.cur = (env.file, n.lineno)
        return self.getitem(v, i)

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.conversion == 114:
                    x = self.lib.call(Ext('builtins.repr'), [x], {})
                elif v.conversion == 115:
                    x = self.lib.call(Ext('builtins.str'), [x], {})
                spec = self.ev(v.format_spec, env) if v.format_spec else ''
                parts.append(self.lib.call(Ext('builtins.format'), [x, spec], {}))
        return self.lib.cat(*parts)

    def comp_env(self, env, n):
        frame = self.alloc(HObj('frame', None, {}))
        e = Env(frame, env, env.globals, None)
        e.file, e.modname, e.cls, e.selfarg = env.file, env.modname, env.cls, env.selfarg
        e.handling = env.handling
        return e

    def comp(self, n, env, emit, tails=None, first=ABSENT):
        e = self.comp_env(env, n)
        def gen(i):
            if i == len(n.generators):
                emit(e)
                return
            g = n.generators[i]
            it = first if i == 0 and first is not ABSENT else self.ev(g.iter, env if i == 0 else e)
            it = self.resolve(it)
            d = self.pending(it)
            if d is not None and d.feed is None: self.force(it)
            if isinstance(it, Phi):
                items = self.iterate(it)
            elif self.pending(it):
                self.take_pending(it)
                d.feed(lambda x: each(g, i, x))
                return
            elif self.is_kind(it, 'iter') and self.obj(it).f.get('tail', ABSENT) is not ABSENT:
                if tails is None or len(n.generators) > 1 or g.ifs: raise GiveUp('comprehension over infinite iterator')
                items, tl = self.peek_iter(it)
                def more():
                    self.assign(g.target, tl, e)
                    gen(1)
                tails.append(more)
            else:
                items = self.iterate(it)
            for x in items: each(g, i, x)
        def each(g, i, x):
            def one(y):
                if y is ABSENT:
                    return
                self.assign(g.target, y, e)
                def ifs(j):
                    if j == len(g.ifs):
                        gen(i + 1)
                        return
                    self.branch(self.ev(g.ifs[j], e), lambda: ifs(j + 1), lambda: None)
                ifs(0)
            if self.maybe_absent(x):
                self.lift(one, self.resolve(x))
            else:
                one(x)
        gen(0)

    def e_ListComp(self, n, env):
        r = self.new_list([])
        self.comp(n, env, lambda e: self.emit_list(r, n, e))
        return r
    def emit_list(self, r, n, e):
        v = self.ev(n.elt, e)
        self.w(r).items.append(v)
    def e_SetComp(self, n, env):
        r = self.new_set([])
        def emit(e):
            v = self.ev(n.elt, e)
            self.w(r).d.setdefault(self.hkey(v), (v, True))
        self.comp(n, env, emit)
        return r
    def e_GeneratorExp(self, n, env):
        first = self.resolve(self.ev(n.generators[0].iter, env))
        if isinstance(first, Unknown): raise GiveUp('iteration over unknown (%s)' % first.why)
        d = Driver(frozenset([env.frame.a]))
        def run(out):
            tail = []
            self.comp(n, env, lambda e: self.emit_list(out, n, e), tail, first)
            if not tail: return ABSENT
            items = list(self.obj(out).items)
            self.w(out).items = []
            tail[0]()
            last = self.obj(out).items
            self.w(out).items = items
            return last[0] if len(last) == 1 else Unknown('infinite generator')
        d.run = run
        if not (self.is_kind(first, 'iter') and self.obj(first).f.get('tail', ABSENT) is not ABSENT):
            d.feed = lambda emit: self.comp(n, env, lambda e: emit(self.ev(n.elt, e)), None, first)
        return self.lazy_iter(d)
    def e_DictComp(self, n, env):
        r = self.new_dict()
        def emit(e):
            k = self.ev(n.key, e)
            self.setitem(r, k, self.ev(n.value, e))
        self.comp(n, env, emit)
        return r

    def e_Yield(self, n, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        v = self.ev(n.value, env) if n.value else None
        if not isinstance(e.yields, Ref):
            e.yields(v)
            return None
        w = self.w(e.yields)
        if len(w.items) > 100:
            w.f['full'] = True
            raise ReturnSig(None)
        w.items.append(v)
        return None

    def e_YieldFrom(self, n, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        v = self.resolve(self.ev(n.value, env))
        d = self.pending(v)
        if not isinstance(e.yields, Ref):
            if d is not None and d.feed is not None:
                self.take_pending(v)
                d.feed(e.yields)
                return None
            items, tail = self.peek_iter(v)
            if tail is not ABSENT: raise GiveUp('yield from an infinite iterator')
            for x in items: e.yields(x)
            return None
        items, tail = self.peek_iter(v)
        self.w(e.yields).items.extend(items)
        if tail is not ABSENT:
            self.w(e.yields).f['full'] = tail
            raise ReturnSig(None)
        return None

class Driver:
    """Producer of the elements of an iterator: run(list) stores them, feed(emit) gives each of them as it comes."""
    def __init__(self, own=frozenset()):
        self.own, self.run, self.feed = own, None, None

def guarded_yield(fn):
    """Is there a yield inside a try or with statement of the function?"""
    def has(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
        return any(has(c) for c in ast.iter_child_nodes(n))
    def bad(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn: return False
        if isinstance(n, (ast.Try, ast.With)) and has(n): return True
        return any(bad(c) for c in ast.iter_child_nodes(n))
    return bad(fn)

class LoopDone(Exception):
    pass

def mangle(name, cls):
    if name.startswith('__') and not name.endswith('__') and '.' not in name:
        c = cls.lstrip('_')
        if c: return '_%s%s' % (c, name)
    return name

class Mangler(ast.NodeTransformer):
    """Private names in class bodies."""
    def __init__(self): self.cls = []
    def m(self, n): return mangle(n, self.cls[-1]) if self.cls and n else n
    def visit_ClassDef(self, n):
        n.name = self.m(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.cls.append(n.name)
        n.body = [self.visit(b) for b in n.body]
        self.cls.pop()
        return n
    def visit_Attribute(self, n):
        n.attr = self.m(n.attr)
        return self.generic_visit(n)
    def visit_Name(self, n):
        n.id = self.m(n.id)
        return n
    def visit_FunctionDef(self, n):
        n.name = self.m(n.name)
        return self.generic_visit(n)
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_arg(self, n):
        n.arg = self.m(n.arg)
        return self.generic_visit(n)
    def visit_Global(self, n):
        n.names = [self.m(x) for x in n.names]
        return n
    visit_Nonlocal = visit_Global

class Env:
    __slots__ = ('frame', 'parent', 'globals', 'info', 'file', 'modname', 'ispkg', 'is_class', 'classref',
                 'cls', 'selfarg', 'handling', 'yields')
    def __init__(self, frame, parent, globals_, info_):
        self.frame, self.parent, self.globals, self.info = frame, parent, globals_, info_
        self.file = parent.file if parent is not None else '?'
        self.modname = parent.modname if parent is not None else None
        self.ispkg = parent.ispkg if parent is not None else False
        self.is_class = False
        self.classref = None
        self.cls = None
        self.selfarg = None
        self.handling = None
        self.yields = None

def env_cls(env):
    while env is not None:
        if env.cls is not None:
            return env.cls
        env = env.parent
def env_self(env):
    while env is not None:
        if env.selfarg is not None:
            return env.selfarg
        env = env.parent
def env_del(eng, env, name):
    f = eng.w(env.frame).f
    if name in f:
        del f[name]
    elif name in eng.obj(env.globals).f and env.info is not None and name in env.info.globals:
        del eng.w(env.globals).f[name]
    else:
        eng.raise_('NameError', name)

class Info:
    def __init__(self):
        self.locals, self.globals, self.nonlocals, self.is_gen = set(), set(), set(), False

_infos = {}
def info(node):
    """Names bound in a scope (Python scoping rules)."""
    r = _infos.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    inf = Info()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            inf.locals.add(p.arg)
        if a.vararg: inf.locals.add(a.vararg.arg)
        if a.kwarg: inf.locals.add(a.kwarg.arg)
    def visit(n, top):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if not top:
                inf.locals.add(n.name)
                for d in n.decorator_list:
                    visit(d, False)
                if not isinstance(n, ast.ClassDef):
                    for d in n.args.defaults: visit(d, False)
                return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            visit(n.generators[0].iter, False)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    inf.locals.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            inf.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            inf.locals.add(n.id)
        if isinstance(n, ast.Global): inf.globals.update(n.names)
        if isinstance(n, ast.Nonlocal): inf.nonlocals.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                inf.locals.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            inf.locals.add(n.name)
        for ch in ast.iter_child_nodes(n):
            visit(ch, False)
    if isinstance(node, ast.Lambda):
        visit(node.body, False)
    else:
        for ch in node.body:
            visit(ch, False)
    _infos[id(node)] = (node, inf)
    return inf

def sorted2(a, b):
    """Canonical order of the arguments of a symmetric operation."""
    ka, kb = repr(key(a)), repr(key(b))
    return (a, b) if ka <= kb else (b, a)

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
