"""C24: without NumPy."""
import ast, builtins, os
from sa.terms import *
from sa.report import Check, REPO, feasible
from sa.world import AnchorMissing
from sa.fx import ends

HEAD = '''
import copy, math, warnings
import uncertainties
from uncertainties import (ufloat, ufloat_fromstr, nominal_value, std_dev, wrap, covariance_matrix, UFloat)
from uncertainties import umath
from uncertainties.core import Variable, AffineScalarFunc
class Sub(Variable):
    pass
class Empty(object):
    pass
class Arrayish(object):
    dtype, shape, ndim, size = 'float64', (2,), 1, 2
    def __len__(self): return 2
    def __getitem__(self, i): return [1.0, 2.0][i]
    def __iter__(self): return iter([1.0, 2.0])
    def __array__(self, *args): return self
class Scalarish(object):
    dtype, shape, ndim, size = 'float64', (), 0, 1
    def __float__(self): return 2.5
    def item(self): return 2.5
class Quantity(object):
    nominal_value, n, std_dev, s, derivatives = 2.5, 2.5, 0.5, 0.5, {}
class Reflected(object):
    def __add__(self, other): return 'add'
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __add__
    def __eq__(self, other): return 'eq'
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = None
def plain(v):
    if isinstance(v, UFloat):
        return (type(v).__name__, v.nominal_value, 0.0 + v.std_dev)
    if isinstance(v, (list, tuple)):
        return tuple([plain(x) for x in v])
    return v
def f2(x, y):
    return x * x + y
def fk(x, y=2.0, *args, **kwargs):
    return x
def dx(x, y=2.0, *args, **kwargs):
    return 2.0
'''
BIN = ['x + y', 'x - y', 'x * y', 'x / y', 'x // y', 'x %% y', 'x ** y', 'x == y', 'x != y', 'x < y', 'x <= y', 'x > y', 'x >= y']
ONE = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'ceil', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'floor', 'gamma', 'isinf', 'isnan', 'lgamma', 'log', 'log10', 'log1p', 'modf',
       'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc', 'frexp']
TWO = ['atan2', 'copysign', 'fmod', 'hypot', 'pow', 'log']
NUMBERS = ['1.5', '-2.5', '0.0', 'p', 'n', 'nan', 'inf', '3']
FORMATS = ['', 'f', 'e', 'g', '%%', 'S', 'P', 'L', 'SL', 'PL', '.2u', '.1uS', '.3f', '.0f', '10.3e', '<20', '>+30.2uS', '^020e', ',.2f', '+.3e', 'p', 'pS', '.2uL', 'n', '10.1uP', '=030f', '010.2uS', '.1f%%', 'E', 'G', '.2uEL']

def cases():
    """(name, expression or statements): the values to compare."""
    for s in NUMBERS:
        for b in BIN:
            yield '%s, uncertain x=%s' % (b, s), 'x = ufloat(%s, 0.25); y = ufloat(2.5, 0.5)' % s, b.replace('%%', '%')
            for o in ('2', '2.5'):
                yield '%s, x=%s, number y=%s' % (b, s, o), 'x = ufloat(%s, 0.25); y = %s' % (s, o), b.replace('%%', '%')
                yield '%s, number x=%s, y=%s' % (b, o, s), 'y = ufloat(%s, 0.25); x = %s' % (s, o), b.replace('%%', '%')
        for u in ('+x', '-x', 'abs(x)', 'bool(x)', 'str(x)', 'repr(x)', '(x.derivatives[x], x.std_score(1.0), 0.0 + x.s, x.n, x.tag)', 'x.error_components()[x]', '(nominal_value(x), 0.0 + std_dev(x))', '(nominal_value(1.0), std_dev(1.0))',
                  'copy.copy(x)', 'copy.deepcopy(x)', '(x + 1.0).derivatives[x]', 'copy.copy(x * x)', 'str(x * x)', 'repr(x - x)', 'hash(x) == hash(x)', 'x in (x, 1.0)', 'x.position_in_sigmas(1.0)'):
            yield '%s, x=%s' % (u, s), 'x = ufloat(%s, 0.25)' % s, u
        for u in ('int(x)', 'float(x)', 'complex(x)', 'x == "text"', 'x + "text"', 'x != None', 'x < None', 'x + [1.0]', '[1.0] == x', 'divmod(x, 2)', 'round(x)', 'x.no_such_attribute', 'x[0]', 'len(x)', 'x()', 'x(1.0)', '0.0 + x.std_dev()', 'sum([x, x])'):
            yield '%s, x=%s' % (u, s), 'x = ufloat(%s, 0.25)' % s, u
        for f in ONE: yield 'umath.%s(%s)' % (f, s), 'x = ufloat(%s, 0.25)' % s, 'umath.%s(x)' % f
        for f in ONE[::3]: yield 'umath.%s(number %s)' % (f, s), 'x = %s' % s, 'umath.%s(x)' % f
        for f in TWO:
            yield 'umath.%s(%s, y)' % (f, s), 'x = ufloat(%s, 0.25); y = ufloat(1.5, 0.5)' % s, 'umath.%s(x, y)' % f
            yield 'umath.%s(%s, 2.0)' % (f, s), 'x = ufloat(%s, 0.25)' % s, 'umath.%s(x, 2.0)' % f
            yield 'umath.%s(2.0, %s)' % (f, s), 'x = ufloat(%s, 0.25)' % s, 'umath.%s(2.0, x)' % f
        yield 'umath.ldexp(%s)' % s, 'x = ufloat(%s, 0.25)' % s, '(umath.ldexp(x, 3), umath.fsum([x, 1.0, x]), umath.factorial(3))'
        if s not in ('p', 'n'):
            for sd in ('0.25', '0', 'nan', 'inf', '1e-7', '123.456'):
                for f in FORMATS:
                    yield 'format(%s+/-%s, %r)' % (s, sd, f), 'x = ufloat(%s, %s)' % (s, sd), 'x.__format__(%r)' % f.replace('%%', '%')
        yield 'std_dev of %s changed' % s, 'x = ufloat(%s, 0.25); x.std_dev = 0.5; y = x * x; x.std_dev = nan' % s, '(x, y)'
        yield 'std_dev of %s set to -1' % s, 'x = ufloat(%s, 0.25); x.std_dev = -1.0' % s, 'x'
        yield 'tags, x=%s' % s, 'x = ufloat(%s, 0.25, "tag"); y = ufloat(%s, 0.5, tag="other"); x.set_std_dev(0.75)' % (s, s), '(x, x.tag, y.tag, repr(x), str(y))'
        yield 'pickled, x=%s' % s, 'x = ufloat(%s, 0.25); y = x.__class__.__new__(x.__class__); y.__setstate__(x.__getstate__()); z = Sub(%s, 0.5); t = copy.copy(z)' % (s, s), '(y, t, z.__getstate__() == t.__getstate__())'
        yield 'covariance matrix, x=%s' % s, 'x = ufloat(%s, 0.25); y = ufloat(2.5, 0.5); z = x * y; m = covariance_matrix([x, y, z])' % s, '[list(l) for l in m]'
        for g in ('wrap(f2)(x, y)', 'wrap(f2, [None, lambda x, y: 1.0])(x, y)', 'wrap(fk)(x)', 'wrap(fk)(x, y=y)', 'wrap(fk, [dx])(x, y, x, 2.0, k=y)', 'wrap(fk, [dx], {"y": None, "k": dx})(x, y=2.0, k=y)', 'wrap(fk)(x, "text")', 'wrap(f2)(1.0, 2.0)', 'wrap(fk)(y=x, x=y)'):
            yield '%s, x=%s' % (g, s), 'x = ufloat(%s, 0.25); y = ufloat(2.5, 0.5)' % s, g
    for a in ('1.0, 0.5', '1, 2', '1.0', '(1.0, 0.5)', '"1.0+/-0.5"', '"1.0(5)"', '1.0, -0.5', '1.0, "x"', '"text"', '1.0, None', 'None, 1.0', '(1.0, 0.5), "tag"', '"1.0+/-0.5", "tag"', 'ufloat(1.0, 0.5), 0.1', '1.0, nan', 'True, True', '1j, 0.1', '[1.0, 0.5]', ''):
        yield 'ufloat(%s)' % a, 'pass', 'ufloat(%s)' % a
    for t in ('1.5', '1.5(2)', '-1.5(0.25)', '1.5+/-0.2', '(1.5+/-0.2)e3', '1.5(2)e-5', '12', '12.', '.5(1)', 'nan+/-nan', 'inf', '1.5+/-nan', '(1.5)', 'text', '', '1(2', '1.5e3(2)', '1.5(nan)', '+1.5(.2)', '1.5(2)%', '(1.5+/-0.2)%', '1.5%', '1.5±0.2', '(1.5±0.2)×10³', '1.5E400', '1(1)e1000', '1.5(1.)', '1.5(10)'):
        yield 'ufloat_fromstr(%r)' % t, 'pass', 'ufloat_fromstr(%r)' % t

FOREIGN = ['Empty()', 'Arrayish()', 'Scalarish()', 'Quantity()', 'Reflected()', 'None', '"1.5"', '[1.0, 2.0]', '(1.0, 0.5)', '{}', '1j', 'True', 'Empty', '10 ** 400', 'f2']
def foreign():
    for o in FOREIGN:
        for c, x in (('variable', 'ufloat(p, 0.25)'), ('calculated', 'ufloat(p, 0.25) * 2.0'), ('exact', 'ufloat(p, 0)')):
            for b in BIN:
                b = b.replace('%%', '%')
                yield '%s, x %s, y=%s' % (b, c, o), 'x = %s; y = %s' % (x, o), b
                yield '%s, x=%s, y %s' % (b, o, c), 'x = %s; y = %s' % (o, x), b
        for u in ('nominal_value(x) is x', 'std_dev(x)', 'isinstance(x, UFloat)', 'ufloat(x, 0.5)', 'ufloat(1.5, x)', 'ufloat(x)', 'ufloat_fromstr(x)', 'wrap(fk)(ufloat(1.5, 0.5), x)', 'wrap(fk, [dx])(ufloat(1.5, 0.5), y=x)', 'wrap(fk)(x) is x', 'wrap(lambda v: x)(ufloat(1.5, 0.5)) is x',
                  'covariance_matrix([x])', 'covariance_matrix(x)', 'umath.sin(x)', 'umath.hypot(ufloat(1.5, 0.5), x)', 'umath.floor(x)', 'umath.modf(x)', 'umath.frexp(x)', 'umath.ldexp(x, 3)', 'umath.ldexp(ufloat(1.5, 0.5), x)', 'umath.fsum([x, ufloat(1.5, 0.5)])', 'umath.fsum(x)', 'umath.factorial(x)',
                  'ufloat(1.5, 0.5).std_score(x)', 'ufloat(1.5, 0.5, x).tag is x', 'ufloat(1.5, 0.5).__format__(x)'):
            yield '%s, x=%s' % (u, o), 'x = %s' % o, u
        yield 'std_dev set to %s' % o, 'x = ufloat(p, 0.25); x.std_dev = %s' % o, 'x'
        yield 'a quantity in %s' % o, 'x = ufloat(p, 0.25); y = %s' % o, 'x in [y, y]'

def globals_read(tree):
    """[(function name, global name)] of the names that functions read."""
    out = []
    def scope(node, outer, label):
        args = node.args
        local = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | ({args.vararg.arg} if args.vararg else set()) | ({args.kwarg.arg} if args.kwarg else set())
        body = node.body if isinstance(node.body, list) else [node.body]
        inner, used = [], []
        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                local.add(n.name)
                inner.append(n)
                for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]: visit(x)
                return
            if isinstance(n, ast.Lambda):
                inner.append(n)
                for x in n.args.defaults + [d for d in n.args.kw_defaults if d]: visit(x)
                return
            if isinstance(n, ast.ClassDef): local.add(n.name)
            if isinstance(n, ast.Name):
                (used if isinstance(n.ctx, ast.Load) else []).append(n.id)
                if not isinstance(n.ctx, ast.Load): local.add(n.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)): local.update((a.asname or a.name).split('.')[0] for a in n.names)
            if isinstance(n, ast.ExceptHandler) and n.name: local.add(n.name)
            for c in ast.iter_child_nodes(n): visit(c)
        for b in body: visit(b)
        for n in used:
            if n not in local and n not in outer: out.append((label, n))
        for f in inner: scope(f, outer | local, label + '.' + getattr(f, 'name', '<lambda>'))
    def top(n, label):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)): scope(c, set(), label + c.name)
            elif isinstance(c, ast.ClassDef): top(c, label + c.name + '.')
            else: top(c, label)
    top(tree, '')
    return sorted(set(out))

def run(tier):
    ck = Check('C24', tier, 'Without NumPy, the scalar modules can be imported, export what they export with it (except for the matrix functions), and each operation on numbers with uncertainties, over all paths, ends with the same result as with NumPy: in particular, no path '
               'reads a name that only exists with NumPy. Every name in the __all__ of each module exists.',
               'abstract interpretation of the package in both configurations: name resolution and exception-flow analysis of all paths of a corpus of operations, whose abstract results are compared; name-resolution query over all the functions of the syntax trees')
    table = list(cases()) + list(foreign())
    src = HEAD
    for i, (name, setup, expr) in enumerate(table): src += 'def case_%d(p, n, nan, inf):\n    %s\n    return plain(%s)\n' % (i, setup, expr)
    SCALAR = ('uncertainties', 'uncertainties.core', 'uncertainties.umath', 'uncertainties.umath_core')
    ARRAY = ('uncertainties.unumpy', 'uncertainties.unumpy.core', 'uncertainties.unumpy.ulinalg')
    worlds = {}
    for np in (False, True):
        w = ck.world(numpy=np, mods=(), overlay={'verif_driver.py': src})
        e = w.e
        e.strict = True       # an exception of a top-level statement is one of the import
        worlds[np] = w
        for m in SCALAR + (ARRAY if np else ()):
            nm = 'import %s, NumPy %s' % (m, 'present' if np else 'absent')
            outs = w.attempt(lambda: w.load(m))
            bad = [o for o in outs if o.kind == 'raise']
            if bad:
                o = bad[0]
                fe = feasible(o, w)
                o.enter()
                if o.exc_name() in ('ImportError', 'ModuleNotFoundError') and m in str(o.exc_msg()): ck.missing.append(m)
                ck.check(nm, None if fe is not True else False, '%s: %s' % (o.exc_name(), o.exc_msg()), e.obj(e.resolve(o.value)).site)
            else: ck.ok(nm)
            if not bad: e.st = outs[0].state
        if any(o['verdict'] != 'ok' for o in ck.obl) or ck.missing: return ck.finish('A module cannot be imported.', [])
        w.load('verif_driver')
        e.freeze()
        w.base_calls = dict(e.calls)
    def names(w, m):
        e = w.e
        v = e.resolve(w.ref(m + ':__all__'))
        return [n for n in (e.obj(v).items if isinstance(v, Ref) else v)]
    def has(w, m, n):
        v = w.e.getattr_(w.ref(m + ':'), n, ABSENT)
        if isinstance(v, Phi): return None if any(x is ABSENT for _, x in leaves(v)) else True
        return None if isinstance(v, Unknown) else v is not ABSENT
    NEED = ['ufloat', 'ufloat_fromstr', 'nominal_value', 'std_dev', 'covariance_matrix', 'UFloat', 'wrap']
    for np, w in worlds.items():
        txt = 'NumPy ' + ('present' if np else 'absent')
        for m in ('uncertainties', 'uncertainties.core', 'uncertainties.umath', 'uncertainties.umath_core') + (ARRAY if np else ()):
            def go():
                for n in names(w, m):
                    if not isinstance(n, str): ck.und('%s.__all__, %s' % (m, txt), 'a name is not a text: %s' % show(n)); continue
                    # "from m import *" imports submodules neither, so that they must be attributes
                    ck.check('%s.%s exists, %s' % (m, n, txt), has(w, m, n), '__all__ of %s contains %r, which the module does not define' % (m, n))
            ck.obligation(w, '__all__ of %s, %s' % (m, txt), go)
        def go():
            exported = names(w, 'uncertainties')
            for n in NEED + (['correlated_values', 'correlated_values_norm', 'correlation_matrix'] if np else []):
                ck.check('uncertainties.%s is exported, %s' % (n, txt), n in exported and has(w, 'uncertainties', n), 'not exported')
        ck.obligation(w, 'exported names, ' + txt, go)
    def go():
        a, b = (set(names(worlds[k], 'uncertainties.umath')) for k in (True, False))
        ck.check('umath exports the same functions without NumPy', a <= b, 'missing: %s' % sorted(a - b))
    ck.obligation(worlds[False], 'umath functions', go)

    # the corpus
    import math as M
    seen = set()
    def outcomes(w, i):
        w.e.st = w.e.st.child()
        p, n = w.sym('p', Rng(0.5, 0.9)), w.sym('n', Rng(-0.9, -0.5))
        return w.attempt(lambda: w.call(w.ref('verif_driver:case_%d' % i), p, n, M.nan, M.inf))
    NAMES = ('NameError', 'UnboundLocalError', 'ImportError', 'ModuleNotFoundError')
    def refs(v):
        if isinstance(v, tuple): return any(refs(x) for x in v)
        return isinstance(v, Ref) or isinstance(v, Phi) and any(refs(x) for _, x in leaves(v))
    def text(v):
        if refs(v): return None
        return None if has_unknown(v) else show(v)
    for i, (name, setup, expr) in enumerate(table):
        res = {}
        def go(np, final):
            w = worlds[np]
            outs = outcomes(w, i)
            r = {'raise': set(), 'value': set(), 'bad': [], 'unknown': False}
            for o in outs:
                if o.kind == 'raise':
                    o.enter()
                    en = o.exc_name()
                    r['raise'].add(en)
                    msg = str(o.exc_msg())
                    if en in NAMES or en == 'AttributeError' and "module" in msg: r['bad'].append((en, msg, w.e.obj(w.e.resolve(o.value)).site, feasible(o, w)))
                else:
                    t = text(o.value)
                    if t is None: r['unknown'] = True
                    r['value'].add(t)
            res[np] = r
            if final: verdict(r, res.get(True))
        def verdict(r, q):
            nm = name + ', NumPy absent'
            if q is None: return ck.und(nm, 'no result with NumPy')
            known = {(b[0], b[1]) for b in q['bad']}
            for en, msg, site, fe in r['bad']:
                if (en, msg) in known: continue
                return ck.check(nm, False if fe else None, '%s: %s, when NumPy is not installed' % (en, msg), site)
            extra = r['raise'] - q['raise']
            if extra and not r['unknown'] and not q['unknown'] and not r['value'] and not q['raise']: return ck.bad(nm, 'raises %s instead of giving %s' % (sorted(extra), sorted(q['value'])))
            if extra: return ck.und(nm, 'may also raise %s' % sorted(extra))
            if r['value'] and not q['value'] and not r['raise'] and not q['unknown']: return ck.bad(nm, 'gives %s instead of raising %s' % (sorted(map(str, r['value'])), sorted(q['raise'])))
            if r['value'] == q['value'] and r['raise'] == q['raise'] and None not in r['value']: return ck.ok(nm)
            ck.und(nm, '%s | %s' % (sorted(map(str, r['value'])), sorted(map(str, q['value']))))
        ck.obligation(worlds[True], name + ', NumPy present', lambda: go(True, False))
        ck.obligation(worlds[False], name, lambda: go(False, True))
    # name resolution in all the functions
    w = worlds[False]
    for rel, tree in sorted(w.e.trees.items()):
        if not rel.startswith('uncertainties'): continue
        mod = [m for m in w.e.modules if w.e.obj(w.e.modules[m]).f.get('file') == rel]
        if not mod: continue
        ns = w.e.obj(w.e.obj(w.e.modules[mod[0]]).f['ns']).f
        guarded = set()       # functions that only exist with NumPy
        for label, n in globals_read(tree):
            nm = '%s: %s() reads %s' % (rel, label, n)
            there = n in ns and ns[n] is not ABSENT or hasattr(builtins, n)
            if there: ck.ok(nm)
            elif label.split('.')[0] not in ns: ck.ok(nm)       # not defined without NumPy
            else: ck.und(nm, 'this name does not exist without NumPy')
    return ck.finish('%d operations in both configurations, and the names read by all the functions of the scalar modules.' % len(table), ['the modules of the standard library, and the future package, are installed'])
