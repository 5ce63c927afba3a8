import re, math, operator, functools, itertools, copy, collections, numbers, sys, types, warnings, inspect
def t_re(x, y):
    m = re.match(r'(?P<a>\d+)(?:\.(?P<b>\d+))?', '12.5abc')
    return m.group('a'), m.groupdict(), m.end(), m.groups(), re.sub('b', 'c', 'abab'), re.split(',', 'a,b'), re.findall(r'\d', '1a2'), bool(re.search('z', 'a'))
def t_fmt(x, y): return '%.*f' % (2, 3.14159), '%s(%s)' % ('a', 1), '%(a)s' % {'a': 3}, '{0:.2f}|{1:>5}'.format(2.5, 'a'), format(1e10, 'g'), '%e' % 12345.678, '%r' % 1.5, '%5d|%-5d|%05d' % (1, 2, 3)
def t_strops(x, y): return 'a.b.c'.partition('.'), 'a.b'.rpartition('.'), 'abc'.startswith(('a', 'x')), 'abc'.isdigit(), 'AbC'.lower(), 'a b'.title(), 'abc'.find('c'), 'x'.zfill(3), 'x'.rjust(3, '*'), 'x'.center(5), '\u207b1'.translate({0x207b: '-'}), 'a\nb'.splitlines(), 'aXbX'.count('X'), 'abc'.index('b'), ','.join(str(i) for i in range(3))
def t_fromkeys(x, y): return dict.fromkeys('ab', x), dict([('a', y)]), dict(zip('ab', [x, y])), {**{'a': 1}, 'b': x}, [*[1], *(x,)]
def t_sum(x, y): return sum((v for v in (x, y)), 10), sum([[1], [x]], []), math.fsum([0.1] * 10), math.prod([x, y])
def t_lru(x, y):
    n = [0]
    @functools.lru_cache(None)
    def f(k):
        n[0] += 1
        return k * x
    return f(1), f(1), f(2), n[0]
def t_zipstar(x, y): return list(zip(*[(1, x), (2, y)])), [list(r) for r in zip(*[[1, 2], [3, 4]])]
def t_type3(x, y):
    A = type('A', (object,), {'f': lambda self: x, 'g': 2})
    return A().f(), A.g, A.__name__
def t_slots(x, y):
    class A(object):
        __slots__ = ('a', 'b')
    a = A()
    a.a = x
    try: a.c = 1
    except AttributeError: r = 'no'
    else: r = 'yes'
    return a.a, hasattr(a, 'b'), r
def t_copy(x, y):
    a = {'k': [x]}
    b, c = copy.copy(a), copy.deepcopy(a)
    a['k'].append(y)
    return b, c
def t_math(x, y): return math.frexp(12.0), math.ldexp(0.5, 3), math.modf(2.5), math.copysign(1, -0.0), math.isnan(float('nan')), math.trunc(-2.5), (2.0).is_integer(), math.degrees(math.pi), math.log(8, 2), math.atan2(1, 1), abs(-3), math.isinf(-math.inf), math.e > 2
def t_assert(x, y):
    assert x <= 1, 'too big'
    return x
def t_del(x, y):
    d = {1: x, 2: y}
    del d[1]
    l = [1, 2, 3]
    del l[0], l[0]
    return d, l
def t_setops(x, y):
    a, b = {1, 2, 3}, frozenset([2, 3, 4])
    return a & b, a - b, a ^ b, a <= {1, 2, 3, 4}, a.issuperset({1}), 2 in b, a.union([9]), a.isdisjoint({7})
def t_longest(x, y): return list(itertools.zip_longest([1, 2], [x])), list(itertools.accumulate([1, 2, 3])), list(itertools.takewhile(lambda v: v < 2, [1, 2, 1])), list(itertools.dropwhile(lambda v: v < 2, [1, 2, 1])), [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])], list(itertools.permutations([1, 2])), list(itertools.chain.from_iterable([[1], [x]])), list(itertools.compress('abc', [1, 0, 1])), list(itertools.tee([1, 2])[1])
def t_iter2(x, y):
    it = iter([1, 2, 0, 3])
    return list(iter(lambda: next(it), 0))
def t_numbers(x, y): return isinstance(x, numbers.Real), isinstance(1j, numbers.Complex), isinstance('a', numbers.Number), isinstance(True, numbers.Integral)
def t_exc(x, y):
    class E(ValueError):
        def __init__(self, m): self.m = m
    try:
        if x > 0: raise E(y)
    except ValueError as e: return e.m, isinstance(e, E)
    return None
def t_exc_chain(x, y):
    try:
        try: int('a')
        except ValueError as e: raise TypeError('t') from e
    except TypeError as e: return str(e), type(e.__cause__).__name__
def t_errors(x, y):
    out = []
    for f in (lambda: 1 / 0, lambda: [][0], lambda: {}['a'], lambda: None.a, lambda: int('x'), lambda: 'a' + 1, lambda: float('z'), lambda: (1,) + [2], lambda: len(3), lambda: undefined, lambda: math.sqrt(-1), lambda: math.exp(1000), lambda: next(iter([])), lambda: 2.0 ** 5000, lambda: (lambda a: a)(), lambda: [1] < ['a'], lambda: max([]), lambda: 'abc'.index('z'), lambda: {}.popitem(), lambda: set().pop(), lambda: [].remove(1), lambda: float('inf') // 1, lambda: int(float('inf')), lambda: int(float('nan')), lambda: 0.0 ** -1, lambda: iter(3), lambda: {[]: 1}, lambda: '%d' % 'a', lambda: format(1.0, 'q'), lambda: '{}'.format(), lambda: [1, 2, 3][5:], lambda: (1).real, lambda: 5 % 0):
        try: r = f()
        except Exception as e: r = type(e).__name__
        out.append(r if r == r else 'nan')
    return out
def t_staticdict(x, y):
    table = {'+': operator.add, '-': operator.sub, '*': lambda a, b: a * b}
    return [table[k](x, y) for k in sorted(table)]
def t_loopelse(x, y):
    for i in range(3):
        if i == x: break
    else: return 'none'
    return i
def t_nested_fn(x, y):
    def fact(n): return 1 if n <= 1 else n * fact(n - 1)
    def fib(n, a=0, b=1):
        while n: a, b, n = b, a + b, n - 1
        return a
    return fact(5), fib(10)
def t_attr_loop(x, y):
    class A: pass
    for n, v in (('a', x), ('b', y)): setattr(A, n, v)
    for op in ('lt', 'gt'): setattr(A, 'is_' + op, lambda self, o, f=getattr(operator, op): f(self.a, o))
    return A.a, A().is_lt(1), A().is_gt(1)
def t_meta(x, y):
    class M(type):
        def __call__(cls, *a): return ('made', a)
    class A(metaclass=M): pass
    return A(x)
def t_descr(x, y):
    class D:
        def __init__(self, f): self.f = f
        def __get__(self, o, t): return self if o is None else self.f(o)
    class A:
        v = 3
        d = D(lambda o: o.v * x)
    return A().d, isinstance(A.d, D)
def t_getattr2(x, y):
    class A:
        def __getattr__(self, n):
            if n == 'q': return x
            raise AttributeError(n)
    return A().q, getattr(A(), 'z', 0), hasattr(A(), 'r')
def t_call(x, y):
    class A:
        def __call__(self, *a, **k): return a, k
        def __len__(self): return 3
        def __bool__(self): return x > 0
        def __contains__(self, v): return v == y
        def __getitem__(self, i): return i
        def __neg__(self): return -1
        def __radd__(self, o): return ('r', o)
        def __add__(self, o): return NotImplemented
        def __repr__(self): return 'A!'
        def __float__(self): return 2.5
        def __index__(self): return 1
        def __enter__(self): return self
    a = A()
    return a(1, k=2), len(a), bool(a), y in a, a[3], a['k'], -a, 1 + a, repr(a), '%s' % a, float(a), [5, 6][a], a[1:2] == slice(1, 2)
def t_mro(x, y):
    class A:
        def f(self): return 'A'
    class B(A):
        def f(self): return 'B' + super().f()
    class C(A):
        def f(self): return 'C' + super().f()
    class D(B, C): pass
    return D().f(), [k.__name__ for k in D.__mro__][:4], issubclass(D, A), D.__bases__ == (B, C)
def t_sortkeys(x, y):
    d = {'b': 2, 'a': 1}
    return sorted(d, key=d.get), max(d, key=d.get), min(d.values()), list(reversed([1, 2])), sorted(d.items(), key=operator.itemgetter(1), reverse=True)
def t_mutable_default(x, y):
    def f(v, acc=[]):
        acc.append(v)
        return list(acc)
    return f(x), f(y)
def t_global(x, y):
    global G
    G = x
    def f():
        global G
        G = G + 1
    f()
    return G
G = 0
def t_aug(x, y):
    l = [1]
    m = l
    l += [x]
    t = (1,)
    u = t
    t += (2,)
    d = {'a': [0]}
    d['a'][0] += y
    return m, u, t, d
def t_int(x, y): return int(2.9), int(-2.9), round(-2.5), round(1234.5, -2), 10 ** -2, 7 // -2, -7 % 3, divmod(-7, 2), 1 // 0.3, 5.5 % -2, 2 ** 100 > 10 ** 30, bool(0.0), int('0x1f', 16), float('1e-3'), complex(1, 2).imag, hash(1) == hash(1.0)
def t_bools(x, y): return True + 1, sum([True, False]), isinstance(True, int), not None, 1 if [] else 2, [] or 'd', None and 1, 0 or x
def t_switch(x, y):
    r = []
    for v in (x, y, 0.0):
        if v < 0: kind = 'neg'
        elif v == 0: kind = 'zero'
        elif v > 2: kind = 'big'
        else: kind = 'small'
        r.append(kind)
    return r
def t_accum(x, y):
    best = None
    for v in (x, y, 0.5):
        if best is None or v > best: best = v
    return best
def t_bubble(x, y):
    l = [x, y, 1]
    for i in range(len(l)):
        for j in range(len(l) - 1 - i):
            if l[j] > l[j + 1]: l[j], l[j + 1] = l[j + 1], l[j]
    return l
def t_early(x, y):
    for a in (x, y):
        for b in (1, 2):
            if a == b: return (a, b)
    return None
def t_flag(x, y):
    found = False
    while not found:
        found = True
        if x > 0: return 'p'
    return 'q'
def t_recur(x, y):
    def walk(t):
        if isinstance(t, list): return [walk(v) for v in t]
        return t * 2
    return walk([x, [y, [1]]])
def t_partialmethod(x, y):
    f = functools.partial(lambda a, b, c=0: (a, b, c), 1, c=x)
    return f(2), f.args, f.keywords
def t_argorder(x, y):
    log = []
    def p(v): log.append(v); return v
    d = {p(1): p(2), p(3): p(4)}
    (p(5) + p(6)) * p(7)
    [p(8)][p(0)] = p(9)
    return log
def t_boolshort(x, y):
    log = []
    def p(v): log.append(v); return v
    p(0) or p(1) and p(0) or p(2)
    return log
def t_warn(x, y):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        warnings.warn('hey')
    return len(w)
def t_inspect(x, y):
    def f(a, b=1, *c, d=2, **e): pass
    return f.__defaults__, f.__kwdefaults__, f.__code__.co_varnames[:2], f.__code__.co_argcount
def t_setcomp(x, y): return {i % 2 for i in range(5)}, {i: j for i in range(2) for j in range(i + 1)}, [i * j for i in range(3) if i for j in (1, 2) if j != i]
def t_nan(x, y):
    n = float('nan')
    return n == n, n < 1, max(1, n), [n] == [n], n in [n], bool(n)
def t_bytes(x, y): return b'ab'[0], b'a' + b'b', 'é'.encode('utf-8'), bytes([65]).decode()
def t_unicode(x, y): return ord('a'), chr(97), 'a' < 'b', '\xb1', u'x' == 'x', 'ab' * 2, sorted('hello')
def t_exec_order_join(x, y):
    d = {}
    if x > y: d['k'] = 1
    else: d['m'] = 2
    return len(d), list(d), d.get('k'), 'm' in d
def t_cond_pop(x, y):
    l = [1, 2, 3]
    if x > 0: l.pop()
    if y > 0: l.insert(0, 9)
    return l, len(l), l[0], l[-1], sum(l)
def t_cond_iter(x, y):
    l = []
    if x > 0: l.append(x)
    if y > 0: l.append(y)
    return [v + 1 for v in l], max(l) if l else None, len(l), tuple(l), list(enumerate(l))
def t_prod_flat(x, y):
    m = [[1, x], [y, 2]]
    return [v for r in m for v in r], [[r[i] for r in m] for i in range(2)], m[0][0] * m[1][1] - m[0][1] * m[1][0]
