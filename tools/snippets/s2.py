def t_cm(x, y):
    class A:
        def __init__(self, v): self.v = v
        @classmethod
        def c(cls, v): return cls(v)
    return A.c(y).v
def t_prop(x, y):
    class A:
        def __init__(self, v): self.v = v
        @property
        def w(self): return self.v * 2
        @w.setter
        def w(self, v): self.v = v / 2
    a = A(x)
    a.w = 6
    return a.v, a.w
def t_sort(x, y):
    class A:
        def __init__(self, v): self.v = v
        def __lt__(self, o): return self.v < o.v
    return sorted([A(x), A(y)])[0].v
def t_sort2(x, y): return sorted([x, y])
def t_eq(x, y):
    class A:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return 1
    a, b = A(x), A(y)
    return a == b, a != b
import contextlib
def t_ctx(x, y):
    log = []
    @contextlib.contextmanager
    def c(v):
        log.append('in')
        try: yield v
        except ValueError: log.append('v')
        finally: log.append('out')
    with c(x) as z:
        log.append(z)
        if x > 1: raise ValueError
        log.append('end')
    return log
def t_ctx2(x, y):
    log = []
    @contextlib.contextmanager
    def c():
        yield 1
        log.append('out')
    def f():
        with c(): return 5
    def g():
        for i in range(3):
            with c(): continue
        return 1
    return f(), g(), log
def t_with3(x, y):
    log = []
    class C:
        def __init__(self, s): self.s = s
        def __enter__(self): log.append('in'); return self
        def __exit__(self, *a): log.append(a[0] is None); return self.s
    def f():
        with C(False), C(True) as c:
            if x > 0: return 'r'
            if x < 0: raise ValueError
        return 'n'
    try:
        with C(False):
            if y > 1: raise KeyError
    except KeyError: log.append('k')
    return f(), log
def t_suppress(x, y):
    with contextlib.suppress(ValueError):
        if x > 0: raise ValueError
        return 1
    return 2
def t_next3(x, y):
    class I:
        def __init__(self): self.n = 0
        def __iter__(self): return self
        def __next__(self):
            self.n += 1
            if self.n > 3: raise StopIteration
            return self.n
    out = []
    it = I()
    for v in it:
        out.append(v)
        if v > x: it.n += 1
    return out
def t_index(x, y): return [3, 1, x].index(1), [y, 3].index(3), (1, 2).index(2)
import collections, functools
def t_namedtuple(x, y):
    P = collections.namedtuple('P', 'a b')
    p = P(x, b=y)
    q = p._replace(a=1)
    c, d = p
    return p.a, p[1], q.a, tuple(p), p == (x, y), c + d, len(p)
def t_total(x, y):
    @functools.total_ordering
    class A:
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __lt__(self, o): return self.v < o.v
    a, b = A(x), A(y)
    return a < b, a <= b, a > b, a >= b, a == b, a != b
