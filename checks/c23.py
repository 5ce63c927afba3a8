"""C23: arguments are never modified."""
from sa.terms import *
from sa.report import Check
from sa.engine import Native, HObj

HEAD = '''
import math
import copy
import collections
import numpy
import uncertainties
from uncertainties import (ufloat, ufloat_fromstr, nominal_value, std_dev, wrap, covariance_matrix, correlation_matrix, correlated_values, correlated_values_norm, UFloat)
from uncertainties import umath, unumpy
from uncertainties.unumpy import ulinalg
def f2(x, y):
    return x * y + 1.5 * x
def f0(x, y=2.0):
    return x * y
def fv(*args, **kwargs):
    return sum(args) + sum(kwargs.values())
def fl(x, l):
    return x * len(l)
def dx(x, y=2.0):
    return y
def dy(x, y=2.0):
    return x
def one(*args, **kwargs):
    return 1.0
def fu(_a, __b=2.0, X=1.0, self=0.5, f=3.0, args=1.5):
    return _a * __b * X + self * f + args
def attempt(f, *args, **kwargs):
    try:
        return f(*args, **kwargs)
    except (ValueError, TypeError, NotImplementedError, ZeroDivisionError, AttributeError):
        return None
'''
U = 'x = ufloat(1.5, 0.25); y = ufloat(-2.5, 0.5); z = x * y + 3 * x'
S2, S3 = '[[0.25, 0.125], [0.125, 0.5]]', '[[1.0, 0.5, 0.25], [0.5, 2.0, 0.125], [0.25, 0.125, 4.0]]'
ARR = {'list': 'A = [x, 2.5, z]', 'array': 'A = numpy.array([x, 2.5, z])', 'array of variables': 'A = numpy.array([x, y, x])', 'array of floats': 'A = numpy.array([0.25, 0.5, 0.75])', 'array of integers': 'A = numpy.array([1, 2, 3])',
       '2x2 array': 'A = numpy.array([[x, y], [z, 1.5]])', 'matrix': 'A = unumpy.matrix([[x, y], [z, 1.5]])', 'matrix of floats': 'A = unumpy.matrix([[1.0, 2.0], [3.0, 5.0]])', 'NumPy matrix': 'A = numpy.matrix([[1.0, 2.0], [3.0, 5.0]])'}

def cases():
    """(name, setup, watched names, action)."""
    # wrap(): derivatives, arguments
    for nm, setup in [('list', 'D = [dx, dy]'), ('list with None', 'D = [None, dy]'), ('short list', 'D = [dx]'), ('empty list', 'D = []'), ('tuple', 'D = (dx, None)'), ('deque', 'D = collections.deque([dx, dy])')]:
        for f in ('f2', 'f0'):
            yield 'wrap(%s, %s of derivatives)' % (f, nm), '%s; %s' % (U, setup), ['D', f], 'g = wrap(%s, D); g(x, y); g(z, 2.0); g(1.0, 2.0); g(x, y)' % f
    for nm, setup in [('dictionary', 'D = {"y": dy}'), ('dictionary with None', 'D = {"y": None}'), ('two None', 'D = {"x": None, "y": None}'), ('empty dictionary', 'D = {}'), ('default dictionary', 'D = collections.defaultdict(list, {"y": None})'), ('ordered dictionary', 'D = collections.OrderedDict([("y", None), ("x", dx)])')]:
        yield 'wrap(f0, derivatives_kwargs %s)' % nm, '%s; %s' % (U, setup), ['D', 'f0'], 'g = wrap(f0, [], D); g(x, y=y); g(x=z, y=2.0); g(1.0); g(x, y=y)'
        yield 'wrap(f0, [dx], derivatives_kwargs=%s)' % nm, '%s; %s; L = [None]' % (U, setup), ['D', 'L', 'f0'], 'g = wrap(f0, derivatives_args=L, derivatives_kwargs=D); g(x, y=y); g(x, y); g(z)'
    for nm, setup in [('functions', 'D = {"k": one, "l": None}; L = [one, None]'), ('nothing', 'D = {}; L = []')]:
        yield 'wrap(f(*args, **kwargs)), %s' % nm, '%s; %s; K = {"k": x, "l": 2.0, "m": z}; P = [x, y, 3.0, z]' % (U, setup), ['D', 'L', 'K', 'P', 'fv'], 'g = wrap(fv, L, D); g(*P, **K); g(*P); g(1.0, **K); g(*P, **K)'
    for nm, setup in [('names of all kinds', 'D = {"_a": one, "__b": None, "C": one, "d1": None, "self": None, "f": one, "args": None}'), ('a name that is not accepted', 'D = {"_missing": one, "other": None}'), ('many names', 'D = {"k%d" % i: (one if i % 2 else None) for i in range(25)}')]:
        yield 'wrap(f(*args, **kwargs)), derivatives for %s' % nm, U + '; %s; L = [None] * 12; K = {"_a": x, "C": 2.0, "d1": y, "k3": z, "k4": x}' % setup, ['D', 'L', 'K', 'fv'], 'g = wrap(fv, L, D); g(x, **K); g(x, y, z, x, y, z, x, y, 2.0, z, x, y, z, x); g(1.0, **K); g(x, y)'
    for nm, setup in [('functions', 'D = {n: one for n in ("_a", "__b", "X", "self", "f", "args")}'), ('None', 'D = {n: None for n in ("_a", "__b", "X", "self", "f", "args")}'), ('one function', 'D = {"_a": one}')]:
        for L in ('[]', '[one]', '[None] * 3', '[one] * 9'):
            yield 'wrap(f with parameters of all kinds of names), derivatives %s and %s' % (nm, L), U + '; %s; L = %s; K = {"X": x, "f": y}' % (setup, L), ['D', 'L', 'K', 'fu'], 'g = wrap(fu, L, D); g(x, **K); g(x, y, z, x, y, z); g(1.0, **K); g(x, y)'
    yield 'wrap(), default derivatives', U, ['f0', 'fv', 'f2'], 'wrap(f2)(x, y); wrap(f0)(x, y=y); wrap(fv)(x, y, k=z); wrap(f0, [dx])(x, y); wrap(f0, derivatives_kwargs={"y": dy})(x, y=y); wrap(f2)(x, y)'
    yield 'list given to a wrapped function', U + '; l = [1.0, x, "text"]', ['l', 'fl'], 'g = wrap(fl); g(x, l); g(2.0, l=l); g(x=y, l=l)'
    yield 'dictionary of arguments of umath functions', U + '; P = [x, y]; K = {}', ['P', 'K'], 'umath.atan2(*P, **K); umath.hypot(*P); umath.pow(2.0, *P[:1]); umath.log(*[x, 10]); umath.copysign(*P)'
    # umath
    for nm, setup in [('uncertain numbers', '[x, y, z, x]'), ('mixed numbers', '[x, 1.0, 2]'), ('floats', '[1.0, 2.0]'), ('nothing', '[]')]:
        yield 'fsum(list of %s)' % nm, '%s; l = %s' % (U, setup), ['l'], 'umath.fsum(l); umath.fsum(l)'
        yield 'sum(list of %s)' % nm, '%s; l = %s' % (U, setup), ['l'], 'sum(l)'
    # tags, tuples
    yield 'tags', 't = ["a", "b"]; u = {"k": [1.0]}', ['t', 'u'], 'a = ufloat(1.0, 0.1, t); b = ufloat(2.0, 0.1, tag=u); ufloat_fromstr("1+/-1", t); c = copy.copy(a); d = copy.deepcopy(b); str(a); repr(b); (a + b).error_components(); a.tag = u'
    # matrices of scalar quantities
    for nm, setup in [('list', 'l = [x, y, z]'), ('mixed list', 'l = [x, z, x + y]'), ('tuple', 'l = (x, z)'), ('array', 'l = numpy.array([x, z, y])'), ('one element', 'l = [z]')]:
        for f in ('covariance_matrix', 'correlation_matrix'):
            yield '%s(%s)' % (f, nm), '%s; %s' % (U, setup), ['l'], 'attempt(%s, l); attempt(%s, l)' % (f, f)
    for n, mat, vals in [(2, S2, '[1.0, 2.0]'), (3, S3, '[1.0, -2.0, 0.0]'), (1, '[[0.25]]', '[3.0]')]:
        for vk, v in [('list', vals), ('array', 'numpy.array(%s)' % vals), ('tuple', 'tuple(%s)' % vals), ('integers', 'list(range(%d))' % n), ('uncertain numbers', '[ufloat(v, 0.5) for v in %s]' % vals)]:
            for mk, m in [('list', mat), ('array', 'numpy.array(%s)' % mat), ('matrix', 'numpy.matrix(%s)' % mat)]:
                if vk in ('tuple', 'integers', 'uncertain numbers') and mk == 'list': continue
                for tk, t in [('', 'None'), (', tags', '["t%d" % i for i in range({})]'.format(n))]:
                    if tk and (n == 1 or vk == 'tuple'): continue
                    yield 'correlated_values(%s, %s%s), %d values' % (vk, mk, tk, n), 'v = %s; m = %s; t = %s' % (v, m, t), ['v', 'm', 't'], 'attempt(correlated_values, v, m, t); attempt(correlated_values, v, m, tags=t)'
        pairs = '[(v, 0.5 + i) for i, v in enumerate(%s)]' % vals
        corr = {1: '[[1.0]]', 2: '[[1.0, 0.5], [0.5, 1.0]]', 3: '[[1.0, 0.5, 0.25], [0.5, 1.0, 0.125], [0.25, 0.125, 1.0]]'}[n]
        for vk, v in [('list of tuples', pairs), ('list of lists', '[list(p) for p in %s]' % pairs), ('array', 'numpy.array(%s)' % pairs), ('exact values', '[(v, 0.0) for v in %s]' % vals), ('array of exact values', 'numpy.array([(v, 0.0) for v in %s])' % vals), ('array of negative values', 'numpy.array([(-v, 0.5) for v in %s])' % vals)]:
            for mk, m in [('list', corr), ('array', 'numpy.array(%s)' % corr), ('matrix', 'numpy.matrix(%s)' % corr), ('array of integers', 'numpy.array([[int(i == j) for j in range(%d)] for i in range(%d)])' % (n, n))]:
                for tk, t in [('', 'None'), (', tags', '["t%d" % i for i in range({})]'.format(n))]:
                    if tk and n == 1: continue
                    yield 'correlated_values_norm(%s, %s%s), %d values' % (vk, mk, tk, n), 'v = %s; m = %s; t = %s' % (v, m, t), ['v', 'm', 't'], 'attempt(correlated_values_norm, v, m, t); attempt(correlated_values_norm, v, m, tags=t)'
            for tk, t in [('too short', '["t%d" % i for i in range({})]'.format(n - 1)), ('too long', '["t%d" % i for i in range({})]'.format(n + 2)), ('None', '[None] * %d' % n), ('mixed', '[None, {"a": 1}, [1]][:%d]' % n), ('array', 'numpy.array(["t%d" % i for i in range({})])'.format(n)), ('empty', '[]')]:
                if vk != 'list of tuples': continue
                yield 'correlated_values_norm(%s, %s tags), %d values' % (vk, tk, n), 'v = %s; m = %s; t = %s' % (v, corr, t), ['v', 'm', 't'], 'attempt(correlated_values_norm, v, m, t); attempt(correlated_values_norm, v, m, tags=t)'
                yield 'correlated_values(list, %s tags), %d values' % (tk, n), 'v = %s; m = %s; t = %s' % (vals, mat, t), ['v', 'm', 't'], 'attempt(correlated_values, v, m, t); attempt(correlated_values, v, m, tags=t)'
    # unumpy
    for f, args in [('uarray', ['[1.0, 2.0, 3.0]', '[0.1, 0.2, 0.0]']), ('uarray', ['numpy.array([1.0, 2.0])', 'numpy.array([0.1, 0.2])']), ('uarray', ['[[1, 2], [3, 4]]', '[[0.1, 0.2], [0.3, 0.4]]']), ('umatrix', ['[[1.0, 2.0]]', '[[0.1, 0.2]]']),
                    ('umatrix', ['numpy.array([[1.0, 2.0], [3.0, 4.0]])', 'numpy.array([[0.1, 0.2], [0.3, 0.4]])']), ('uarray', ['([1.0, 2.0], [0.1, 0.2])'])]:
        setup = '; '.join('%s = %s' % (n, a) for n, a in zip('ab', args))
        yield 'unumpy.%s(%s)' % (f, ', '.join(args)), setup, list('ab'[:len(args)]), 'attempt(unumpy.%s, %s); attempt(unumpy.%s, %s)' % ((f, ', '.join('ab'[:len(args)])) * 2)
    for k, setup in ARR.items():
        s = U + '; ' + setup
        for f in ('unumpy.nominal_values', 'unumpy.std_devs'):
            yield '%s(%s)' % (f, k), s, ['A'], 'attempt(%s, A); attempt(%s, A)' % (f, f)
        if 'matrix' not in k:
            for f in ('sin', 'sqrt', 'isnan', 'floor', 'arctan', 'exp', 'fabs'):
                yield 'unumpy.%s(%s)' % (f, k), s, ['A'], 'attempt(unumpy.%s, A); attempt(unumpy.%s, A)' % (f, f)
            yield 'unumpy.arctan2(%s)' % k, s + '; B = [1.0, y, 2.0] if %r else A' % ('2x2' not in k), ['A', 'B'], 'attempt(unumpy.arctan2, A, B); attempt(unumpy.arctan2, B, A); attempt(unumpy.pow, A, 2)'
        if k.startswith('2x2') or 'matrix' in k:
            for f in ('inv', 'pinv'):
                yield 'ulinalg.%s(%s)' % (f, k), s, ['A'], 'attempt(ulinalg.%s, A); attempt(ulinalg.%s, A)' % (f, f)
            yield 'ulinalg.pinv(%s, rcond)' % k, s, ['A'], 'attempt(ulinalg.pinv, A, 1e-5); attempt(ulinalg.pinv, A, rcond=1e-5)'
        if k in ('matrix', 'matrix of floats'):
            yield 'attributes of a %s' % k, s, ['A'], 'A.nominal_values; A.std_devs; attempt(lambda: A.I); A.T'
        if 'array' in k:
            yield 'operators on %s' % k, s, ['A'], 'x + A; A + x; A * 2; x * A; A - z; A / x; attempt(lambda: x == A); attempt(lambda: A == x)'
    yield 'rectangular matrix', U + '; A = unumpy.matrix([[x, 1.0, y], [z, 2.0, 3.0]])', ['A'], 'attempt(ulinalg.pinv, A); attempt(lambda: A.I)'
    yield 'list operands', U + '; l = [x, 1.0]; d = {x: y, "k": 1.0}', ['l', 'd'], 'attempt(lambda: x + l); attempt(lambda: l * x); x == l; l != x; x in l; attempt(lambda: x < d); x == d; nominal_value(l); std_dev(d)'
    yield 'variables as keys', U + '; d = {x: 1.0, y: 2.0, z: 3.0} if 0 else {x: 1.0, y: 2.0}', ['d'], 'd[x]; z.derivatives; z.error_components(); x + y; copy.copy(d); [k.std_dev for k in d]; x in d'
    yield 'state given to __setstate__', U + '; s = z.__getstate__(); t = x.__getstate__()', ['s', 't'], 'a = copy.copy(z); a.__setstate__(s); b = copy.copy(x); b.__setstate__(t); b.std_dev = 3.0; b.tag = "new"; a.derivatives'
    yield 'memo of deepcopy', U + '; l = [x, z, x]', ['l'], 'copy.deepcopy(l); copy.copy(l)'

def run(tier):
    ck = Check('C23', tier, 'After calls of each public function with mutable arguments (lists, dictionaries, arrays, matrices, functions), in each of their forms, the arguments hold the same objects and numbers as before, and the default values of the parameters of all the functions of the package are what they were.',
               'effect analysis by abstract interpretation with an explicit heap: the part of the heap that is reachable from the arguments and from the default values is compared before and after each call')
    table = list(cases())
    src = HEAD
    for i, (name, setup, watched, action) in enumerate(table):
        src += 'def case_%d(before, after):\n    %s\n    before(%s)\n    %s\n    after(%s)\n' % (i, setup, ', '.join(watched), action, ', '.join(watched))
    w = ck.world(numpy=True, mods=('uncertainties', 'uncertainties.umath', 'uncertainties.unumpy', 'uncertainties.unumpy.ulinalg', 'verif_driver'), overlay={'verif_driver.py': src})
    e = w.e
    np = e.lib.npm()
    UF = e.resolve(w.ref('uncertainties:UFloat'))

    def quantity(o): return o.kind == 'inst' and isinstance(o.cls, Ref) and any(same(c, UF) for c in e.mro(o.cls))
    def fp(v, seen=None):
        """Everything that is reachable from v, as nested tuples."""
        seen = {} if seen is None else seen
        if isinstance(v, tuple): return ('tuple',) + tuple(fp(x, seen) for x in v)
        if isinstance(v, Phi): return ('gated', v)
        if not isinstance(v, Ref): return v
        if v.a in seen: return ('again', seen[v.a])
        o = e.obj(v)
        seen[v.a] = len(seen)
        if quantity(o): return ('object', v.a)        # its own value: C05
        # the derivatives of a quantity are kept unexpanded until asked for
        if o.kind == 'inst' and isinstance(o.cls, Ref) and str(e.obj(o.cls).f.get('module', '')).startswith('uncertainties') and not np.isarr(v): return ('object', v.a)
        if np.isarr(v): return (show(o.cls), o.f['shape'], o.f['dtype']) + tuple(fp(x, seen) for x in np.els(v))
        if o.kind == 'func': return ('function', v.a, fp(o.f['attrs'], seen), o.f['doc'], o.f['name'], fp(tuple(o.f['defaults']), seen), fp(tuple(o.f['kwdefaults'].values()), seen))
        if o.items is not None or o.d is not None:
            return (o.kind, show(o.cls)) + tuple(fp(x, seen) for x in (o.items or ())) + tuple(('item', fp(k, seen), fp(x, seen)) for k, x in (o.d or {}).values())
        if o.kind == 'inst': return ('object', v.a, tuple((k, fp(x, seen)) for k, x in sorted(o.f.items()) if isinstance(k, str)))
        return ('ref', v.a)
    def eqv(a, b):
        """True, False, None."""
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = [eqv(x, y) for x, y in zip(a, b)]
            return False if False in r else None if None in r else True
        if isinstance(a, Unknown) or isinstance(b, Unknown) or isinstance(a, Phi) or isinstance(b, Phi): return True if a is b else None
        if isinstance(a, Term) or isinstance(b, Term): return True if same(a, b) else None
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b: return True
        return type(a) is type(b) and a == b
    # default values of the functions of the package
    defaults = []
    heap = dict(e.base); heap.update(e.st.h)
    for a, o in heap.items():
        if o.kind == 'func' and str(o.f.get('module', '')).startswith('uncertainties'):
            # parameters that are not documented can keep what they like
            names = [p.arg for p in o.f['node'].args.posonlyargs + o.f['node'].args.args]
            for p, v in list(zip(names[len(names) - len(o.f['defaults']):], o.f['defaults'])) + list(o.f['kwdefaults'].items()):
                if isinstance(v, Ref) and not p.startswith('_') and e.obj(v).kind in ('list', 'dict', 'set'): defaults.append(('%s(%s=...)' % (o.f['name'], p), v))
    for i, (name, setup, watched, action) in enumerate(table):
        def go():
            got = {}
            def before(*a):
                got['b'] = [fp(x) for x in a]
                got['d'] = [fp(v) for n, v in defaults]
            def after(*a):
                got['a'] = [fp(x) for x in a]
                got['e'] = [fp(v) for n, v in defaults]
            w.value(lambda: w.call(w.ref('verif_driver:case_%d' % i), Native(before, 'before'), Native(after, 'after')))
            if 'a' not in got or 'b' not in got:
                ck.und(name, 'not reached'); return
            for n, x, y in zip(watched, got['b'], got['a']):
                r = eqv(x, y)
                ck.check('%s: %s' % (name, n), r, '%s was %s before %s, and is %s after' % (n, show_fp(x), action, show_fp(y)))
            bad = [n for (n, v), x, y in zip(defaults, got['d'], got['e']) if eqv(x, y) is not True]
            for (n, v), x, y in zip(defaults, got['d'], got['e']):
                r = eqv(x, y)
                if r is not True: ck.check('%s: default value of %s' % (name, n), r, 'was %s, and is %s' % (show_fp(x), show_fp(y)))
            if not bad: ck.ok(name + ': default values')
        ck.obligation(w, name, go)
    ck.extra['default_values'] = [n for n, v in defaults]
    return ck.finish('%d calls or sequences of calls, %d default values.' % (len(table), len(defaults)), ['functions of NumPy and of the standard library do not modify their arguments, unless they are documented to'])

def show_fp(x):
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show_fp(y) for y in x)[:160]
    return show(x)[:60] if isinstance(x, (Term, Phi, Ref, Unknown)) else repr(x)[:60]
