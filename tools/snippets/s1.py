import collections, itertools, functools, math, operator
def t_plain(x, y): return x + y
def t_branch(x, y):
    if x > y: return x - y
    elif x == y: return 'eq'
    return y
def t_gen_for(x, y):
    def g():
        yield x
        if x > 0: yield y
        yield 3
    out = []
    for v in g(): out.append(v)
    return out
def t_gen_stack(x, y):
    st = [1, 2]
    def g():
        while st: yield st.pop()
    out = []
    for v in g():
        out.append(v)
        if v == 2: st.append(7); st.append(8)
    return out
def t_gen_break(x, y):
    log = []
    def g():
        for i in range(5):
            log.append(i)
            yield i
    for v in g():
        if v > x: break
    else: log.append('else')
    return log
def t_gen_return(x, y):
    log = []
    def g():
        for i in range(4):
            yield i
            log.append(i)
    def h():
        for v in g():
            if v >= x: return v
        return 'none'
    return (h(), log)
def t_gen_continue(x, y):
    def g():
        for i in range(4): yield i * x
    s = 0
    for v in g():
        if v < 1: continue
        s += v
    return s
def t_gen_nested(x, y):
    def g(n):
        for i in range(n): yield i
    out = []
    for a in g(3):
        for b in g(a):
            if b > y: break
            out.append((a, b))
    return out
def t_yield_from(x, y):
    def g(n):
        yield n
        if n: yield from g(n - 1)
    r = []
    for v in g(3):
        r.append(v)
        if v <= x: break
    return r
def t_list_gen(x, y):
    def g():
        yield 1
        if x < y: yield 2
    return list(g()), tuple(g()), sum(g()), max(g())
def t_genexp_late(x, y):
    l = [1, 2]
    g = (i * x for i in l)
    l.append(3)
    return list(g)
def t_genexp_free(x, y):
    k = 1
    g = (i * k for i in [1, 2])
    k = 5
    return list(g)
def t_genexp_loop(x, y):
    out = []
    for v in (i for i in [1, 2, 3] if i > x): out.append(v)
    return out
def t_gen_raise(x, y):
    def g():
        yield 1
        if x > 0: raise ValueError('a')
        yield 2
    out = []
    try:
        for v in g(): out.append(v)
    except ValueError: out.append('caught')
    return out
def t_body_raise(x, y):
    def g():
        yield 1
        yield 2
    out = []
    try:
        for v in g():
            out.append(v)
            if v > x: raise KeyError
    except KeyError: out.append('k')
    return out
def t_gen_try(x, y):
    def g():
        try:
            yield 1
            yield 2
        finally: pass
    return [v for v in g()]
def t_map_lazy(x, y):
    log = []
    def f(v):
        log.append(v)
        return v
    for v in map(f, [1, 2, 3]):
        log.append('b')
        if v > x: break
    return log
def t_filter(x, y): return list(filter(lambda v: v > x, [0, 1, 2, y]))
def t_filter_none(x, y): return list(filter(None, [x, 0, y, 3]))
def t_next(x, y):
    return next((v for v in [1, 2, 3] if v > x), 'none')
def t_next2(x, y):
    it = iter([1, 2, 3])
    a = next(it)
    return a, list(it), next(it, 9)
def t_enumerate(x, y):
    def g():
        yield x
        yield y
    return [(i, v) for i, v in enumerate(g(), 1)]
def t_zip(x, y):
    return list(zip((a for a in [1, 2]), [x, y], itertools.count()))
def t_dictcomp(x, y): return {k: v for k, v in zip('ab', (x, y)) if v > 0}
def t_any(x, y): return any(v > x for v in [1, y]), all(v > x for v in [1, y])
def t_while_else(x, y):
    n = 0
    while n < 3:
        if n > x: break
        n += 1
    else: return 'else'
    return n
def t_try_finally(x, y):
    l = []
    def f():
        try:
            if x > 0: return 'a'
            l.append(1)
        finally: l.append('f')
        return 'b'
    return f(), l
def t_try_else(x, y):
    try: r = 1 / x
    except ZeroDivisionError: return 'z'
    else: r += 1
    finally: pass
    return r
def t_nonlocal(x, y):
    n = 0
    def inc(k):
        nonlocal n
        n += k
        return n
    return inc(1), inc(x), n
def t_closure_late(x, y): return [f() for f in [lambda: i for i in range(3)]]
def t_closure_default(x, y): return [f() for f in [lambda i=i: i * x for i in range(3)]]
def t_star(x, y):
    a, *b = [x, y, 3]
    *c, d = (1, 2)
    return a, b, c, d
def t_kwargs(x, y):
    def f(a, b=2, *c, d=4, **k): return a, b, c, d, k
    return f(x), f(x, y), f(1, 2, 3, d=x), f(*[1, 2], **{'z': y})
def t_class(x, y):
    class A:
        z = 1
        def __init__(self, v): self.v = v
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return 1
        def __lt__(self, o): return self.v < o.v
        @property
        def w(self): return self.v * 2
        @w.setter
        def w(self, v): self.v = v / 2
        @staticmethod
        def s(v): return v
        @classmethod
        def c(cls, v): return cls(v)
    a, b = A(x), A.c(y)
    a.w = 6
    return a.v, a.w, b.w, A.s(1), a == b, a < b, a != b, sorted([a, b])[0].v
def t_super(x, y):
    class A:
        def f(self): return [1]
    class B(A):
        def f(self): return super().f() + [x]
    class D(B):
        def f(self): return super(D, self).f() + [y]
    return D().f()
def t_dict_ops(x, y):
    d = {'a': x}
    d.setdefault('b', []).append(y)
    d.update(c=3)
    e = dict(d, a=0)
    return d, e, d.pop('c'), 'c' in d, d.get('q', 1), list(d.items()), sorted(d.keys())
def t_defaultdict(x, y):
    d = collections.defaultdict(list)
    d['a'].append(x)
    if y > 0: d['b'].append(y)
    return dict(d), len(d)
def t_counter(x, y):
    s = set([1, 2])
    if x > 0: s.add(3)
    s.discard(1)
    return s, s | {5}, s & {2}, len(s)
def t_listops(x, y):
    l = [3, 1, 2]
    l.sort()
    l.insert(0, x)
    l += [y]
    l[1:2] = [8, 9]
    del l[-1]
    return l, l[::-1], l.index(9), l.count(2), l * 2
def t_str(x, y): return '%d %s %5.2f' % (3, 'a', 1.5), 'a,b'.split(','), ' x '.strip(), 'abc'.replace('b', 'd'), 'x'.join('abc'), '{} {a}'.format(1, a=2), 'abc'[1:], 'a' in 'abc'
def t_ternary(x, y): return (x if x > y else y), (x > y) - (x < y), x and y, x or y, not x
def t_cmpchain(x, y): return 0 < x < y, x < y < 3
def t_reduce(x, y): return functools.reduce(operator.add, [x, y, 1]), functools.reduce(lambda a, b: a * b, [x, y])
def t_partial(x, y): return functools.partial(operator.sub, x)(y), operator.itemgetter(1)([x, y]), operator.attrgetter('real')(3)
def t_itertools(x, y): return list(itertools.chain([1], [x])), list(itertools.islice(itertools.count(2), 3)), list(itertools.repeat(x, 2)), list(itertools.starmap(operator.add, [(1, x)])), list(itertools.product('ab', [1, 2])), list(itertools.combinations([1, 2, x], 2))
def t_math(x, y): return math.floor(2.5), abs(x), max(x, y), min(x, y, 1), divmod(7, 2), pow(x, 2), int(3.7), float('2'), math.hypot(3, 4)
def t_walrus(x, y):
    if (z := x + 1) > 1: return z
    return -z
def t_with(x, y):
    log = []
    class C:
        def __enter__(self): log.append('in'); return self
        def __exit__(self, *a): log.append(a[0] is None); return True
    with C() as c:
        log.append('b')
        if x > 0: raise ValueError
        log.append('e')
    return log
def t_except_as(x, y):
    try:
        if x > 0: raise ValueError('msg', 3)
        raise KeyError('k')
    except (ValueError, TypeError) as e: return e.args
    except LookupError as e: return 'l'
def t_reraise(x, y):
    try:
        try: [][1]
        except IndexError:
            if x > 0: raise
            return 'no'
    except LookupError: return 'outer'
def t_uncaught(x, y):
    if x > 1: raise RuntimeError
    return x
def t_global_loop(x, y):
    tot = {}
    for i, v in enumerate((x, y, 2)):
        if v > 1: tot[i] = v
        elif v < 0: continue
        else: tot['o'] = tot.get('o', 0) + 1
    return tot
def t_deque(x, y):
    d = collections.deque([1, 2])
    d.appendleft(x)
    d.append(y)
    a = d.popleft()
    return a, list(d), d.pop()
def t_namedtuple(x, y):
    P = collections.namedtuple('P', 'a b')
    p = P(x, b=y)
    q = p._replace(a=1)
    return p.a, p[1], q.a, tuple(p), p == (x, y)
def t_sorted_key(x, y): return sorted([3, 1, 2], key=lambda v: -v), sorted('bca'), sorted([(2, 'a'), (1, 'b')], reverse=True)
def t_isinstance(x, y): return isinstance(x, float), isinstance(1, (int, str)), isinstance([], list), type(1) is int, issubclass(bool, int)
def t_getattr(x, y):
    class A: pass
    a = A()
    setattr(a, 'q', x)
    return getattr(a, 'q'), getattr(a, 'r', 5), hasattr(a, 'r'), vars(a), a.__class__ is A
def t_iterclass(x, y):
    class I:
        def __init__(self): self.n = 0
        def __iter__(self): return self
        def __next__(self):
            self.n += 1
            if self.n > 3: raise StopIteration
            return self.n * x
    return list(I()), [a for a in I() if a > y], sum(I())
def t_geniter(x, y):
    class I:
        def __iter__(self):
            yield x
            yield y
    return list(I()), max(I()), x in I()
def t_fstring(x, y): return f'{3:>4} {"a"!r} {1 + 1}'
def t_bool_ops(x, y): return bool(x), x == y, x != y, x is None, not (x > y), (x > y) & (y > 0), (x > y) | True
def t_loop_mod(x, y):
    l = [1, 2, 3]
    for v in l:
        if v == 1 and x > 0: l.append(9)
    return l
def t_dict_order(x, y):
    d = {}
    if x > 0: d['b'] = 1
    d['a'] = 2
    d['b'] = 3
    return sorted(d.items())
def t_slices(x, y):
    l = list(range(6))
    return l[1:5:2], l[-2:], l[:0], tuple(l)[2:3], 'hello'[::-1]
def t_unpack_nested(x, y):
    (a, (b, c)), d = (1, (x, y)), 4
    return a + b, c, d
def t_for_unpack(x, y):
    r = 0
    for i, (a, b) in [(1, (x, 2)), (2, (y, 3))]: r += i * a * b
    return r
def t_decorator(x, y):
    def d(k):
        def w(f):
            @functools.wraps(f)
            def g(*a, **b): return k * f(*a, **b)
            return g
        return w
    @d(3)
    def f(v):
        "doc"
        return v + 1
    return f(x), f.__name__, f.__doc__
def t_while_true(x, y):
    n = 0
    while True:
        n += 1
        if n >= 3: break
        if x > 2: break
    return n
def t_gen_send_like(x, y):
    def g():
        a = yield 1
        yield a
    return list(g())
def t_gen_twice(x, y):
    g = (v for v in [1, 2, 3])
    a = []
    for v in g:
        a.append(v)
        if v == 2: break
    return a
def t_zip_gen_effects(x, y):
    st = [1, 2, 3]
    def g():
        while st: yield st.pop(0)
    return [a for a, b in zip(g(), [x, y, 1])]
def t_max_key(x, y): return max([1, -5, 3], key=abs), min('ba'), max(x, y, key=lambda v: -v)
def t_matmul_mod(x, y): return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** -1, 1 << 3, 5 & 4, 5 ^ 1, ~2
def t_int_float(x, y): return 3 / 2, 1e3, int('12'), float('nan') != float('nan'), round(2.567, 2), round(2.5), 0.1 + 0.2
