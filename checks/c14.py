"""C14: elementwise versions of the umath functions in unumpy."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing, Raised
from sa.field import samples
from sa import field

# NumPy names of the functions of the math module that have another name there
NUMPY_NAME = {'acos': 'arccos', 'acosh': 'arccosh', 'asin': 'arcsin', 'asinh': 'arcsinh', 'atan': 'arctan', 'atan2': 'arctan2', 'atanh': 'arctanh'}
# not functions of scalars only, or returning several results of which one is an integer
NOT_ELEMENTWISE = {'fsum', 'frexp', 'factorial'}
CONSTANT = {'ceil': 'int', 'floor': 'int', 'trunc': 'int', 'isinf': 'bool', 'isnan': 'bool'}
TWO = {'atan2', 'copysign', 'fmod', 'hypot', 'pow', 'log', 'ldexp'}
UNIT = Rng(-0.9, 0.9)
RANGE = {'acos': UNIT, 'asin': UNIT, 'atanh': UNIT, 'acosh': Rng(1.1, 9.0), 'log': Rng(1.2, 9.0), 'log10': POS(), 'log1p': POS(), 'sqrt': POS(), 'pow': Rng(0.1, 5.0), 'gamma': Rng(0.3, 5.0), 'lgamma': Rng(0.3, 5.0), 'tan': UNIT}
# all the scalar functions of the math module that umath generalizes
BASE = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atan2', 'atanh', 'ceil', 'copysign', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'floor', 'fmod', 'gamma', 'hypot', 'isinf', 'isnan', 'ldexp', 'lgamma', 'log', 'log10', 'log1p', 'modf', 'pow', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc']

def run(tier):
    ck = Check('C14', tier, 'Every umath function of scalars exists in unumpy (and in its __all__) under its NumPy name; its value on an array has the shape of the array, the data type object (the natural type for locally constant functions), '
               'and for elements what the umath function gives on each element.',
               'abstract interpretation of the functions built in a loop, on arrays with symbolic elements; comparison of nominal values and derivatives with those of the umath function on each element')
    w = ck.world(numpy=True, mods=('uncertainties', 'uncertainties.umath', 'uncertainties.unumpy'))
    e = w.e; np = e.lib.npm()
    UF = w.ref('uncertainties:UFloat')
    names = [e.resolve(x) for x in e.iterate(w.ref('uncertainties.umath:__all__'))]
    fnames = [n for n in names if isinstance(n, str) and n not in NOT_ELEMENTWISE]
    fnames += [n for n in BASE if n not in fnames]
    # the functions that exist in umath
    def has(mod, n):
        try: w.ref(mod + ':' + n)
        except AnchorMissing: return False
        return True
    fnames = [n for n in fnames if has('uncertainties.umath', n)]
    allnames = [e.resolve(x) for x in e.iterate(w.ref('uncertainties.unumpy:__all__'))]

    def compare(name, got, want, vs, pts):
        """Two results for one element."""
        got, want = e.resolve(got), e.resolve(want)
        if isinstance(want, tuple) or isinstance(got, tuple):
            if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == len(got):
                for i, (a, b) in enumerate(zip(got, want)): compare('%s[%d]' % (name, i), a, b, vs, pts)
            else: ck.check(name, None if isinstance(got, (Unknown, Phi)) or isinstance(want, (Unknown, Phi)) else False, 'the result is %s instead of %s' % (show(got), show(want)))
            return
        if same(got, want): ck.ok(name); return
        if isinstance(got, (Unknown, Phi)) or isinstance(want, (Unknown, Phi)):
            if isinstance(got, Phi) or isinstance(want, Phi): ck.eq(w, name, got, want, pts=pts)
            else: ck.und(name, '%s, %s' % (show(got), show(want)))
            return
        a, b = e.isinstance_(got, UF) is True, e.isinstance_(want, UF) is True
        if a != b: ck.bad(name, 'the result is %s instead of %s' % (show(got), show(want))); return
        if not a:
            if isinstance(got, bool) != isinstance(want, bool): ck.bad(name, 'the result is %s instead of %s' % (show(got), show(want))); return
            ck.eq(w, name, got, want, pts=pts); return
        ck.eq(w, name + ', nominal value', w.value(lambda: w.get(got, 'nominal_value')), w.value(lambda: w.get(want, 'nominal_value')), pts=pts)
        for i, v in enumerate(vs):
            ck.eq(w, name + ', derivative', w.value(lambda: w.deriv(got, v)), w.value(lambda: w.deriv(want, v)), pts=pts)

    L = lambda l: e.new_list(l)
    for f in sorted(fnames):
        n = NUMPY_NAME.get(f, f)
        name = 'unumpy.%s' % n
        if not ck.check(name + ' exists', has('uncertainties.unumpy', n), 'umath.%s has no version in unumpy' % f, ('uncertainties/unumpy/core.py', 0)): continue
        ck.check(name + ' is exported', n in allnames, 'not in unumpy.__all__')
        ck.check(name + ' in unumpy.core', has('uncertainties.unumpy.core', n), 'missing in unumpy.core')
        F, G = w.ref('uncertainties.unumpy:' + n), w.ref('uncertainties.umath:' + f)
        R = RANGE.get(f, FIN())
        dt = CONSTANT.get(f)
        def elements(k):
            """Kinds of elements: functions giving an element."""
            return {'u': lambda i: w.var('x%d' % i, R), 'f': lambda i: w.sym('x%d' % i, R), 'i': lambda i: 1 if f not in ('atanh', 'acosh', 'log', 'acos', 'asin') else (0 if f in ('atanh', 'acos', 'asin') else 2),
                    'c': lambda i: w.op('*', w.var('x%d' % i, R), 1.0), 'n': lambda i: math.nan, 'U': lambda i: w.var('n%d' % i, math.nan, sigma=0.1)}[k]
        kinds = ['u', 'fu', 'uf', 'iu', 'ui', 'fc', 'uuf', 'ifu', 'nu', 'U', 'f', 'i', 'fi', 'if']
        if tier != 'quick': kinds += ['ffu', 'iiu', 'cfu', 'fUu']
        pts = samples({sym('x%d' % i): R for i in range(4)}, 10)
        for p in pts:
            for i in range(4): p[sym('sigma_x%d' % i)] = 0.1
        seconds = [None]
        if f in TWO: seconds = {'ldexp': ['int', 'ints'], 'log': [None, 'number', 'variable', 'array']}.get(f, ['number', 'variable', 'array', 'first'])
        for ks, sec in itertools.product(kinds, seconds):
            if f in ('ceil', 'floor', 'trunc', 'ldexp', 'fmod') and set(ks) & set('nU'): continue
            for shape in ('array', 'list', 'column', 'matrix', 'scalar', 'unumpy.matrix'):
                if shape in ('column', 'matrix', 'unumpy.matrix') and (ks not in ('u', 'fu', 'uf', 'iu', 'ui') or sec == 'ints'): continue
                if shape == 'scalar' and len(ks) > 1: continue
                nm = '%s, %s of %s%s' % (name, shape, ks, ', second argument: %s' % sec if sec else '')
                def go():
                    xs = [w.value(lambda: elements(k)(i)) for i, k in enumerate(ks)]
                    vs = [v for x in xs if e.isinstance_(x, UF) is True for v in w.value(lambda: tuple(e.resolve(y) for y in e.iterate(w.get(x, 'derivatives'))))]
                    A = {'array': lambda: np.asarr(L(xs)), 'list': lambda: L(xs), 'column': lambda: np.asarr(L([L([x]) for x in xs])), 'matrix': lambda: w.call(Ext('numpy.matrix'), L(xs)), 'unumpy.matrix': lambda: w.call(w.ref('uncertainties.unumpy:matrix'), L(xs)), 'scalar': lambda: xs[0]}[shape]()
                    osh = {'array': (len(xs),), 'list': (len(xs),), 'column': (len(xs), 1), 'matrix': (1, len(xs)), 'unumpy.matrix': (1, len(xs)), 'scalar': ()}[shape]
                    args, per = [A], [(x,) for x in xs]
                    if sec == 'number': args.append(2.5); per = [(x, 2.5) for x in xs]
                    elif sec == 'int': args.append(3); per = [(x, 3) for x in xs]
                    elif sec == 'ints': l = [2, -1, 0][:len(xs)]; args.append(np.asarr(L(l)) if shape == 'array' else L(l) if shape != 'scalar' else l[0]); per = list(zip(xs, l))
                    elif sec == 'variable': y = w.var('x3', R); vs.append(y); args.append(y); per = [(x, y) for x in xs]
                    elif sec == 'first': y = w.var('x3', R); vs.append(y); args.insert(0, y); per = [(y, x) for x in xs]
                    elif sec == 'array': args.append(A); per = [(x, x) for x in xs]
                    want = [w.value(lambda: w.call(G, *p)) for p in per]
                    for rep in ('', ' (again)') if shape == 'array' else ('',):
                        res = e.resolve(w.value(lambda: w.call(F, *args)))
                        if not np.isarr(res):
                            if shape == 'scalar' and not isinstance(res, (Unknown, Phi)): compare(nm + rep, res, want[0], vs, pts); return
                            ck.check(nm + rep, None if isinstance(res, (Unknown, Phi)) else False, 'the result is %s instead of an array' % show(res)); return
                        o = e.obj(res)
                        if not ck.check(nm + ': shape' + rep, o.f['shape'] == osh, 'the result has shape %s instead of %s' % (o.f['shape'], osh)): return
                        wdt = dt or 'object'
                        ck.check(nm + ': data type' + rep, None if o.f['dtype'] not in ('object', 'int', 'float', 'bool', 'str') else o.f['dtype'] == wdt, 'the data type of the result is %s instead of %s' % (o.f['dtype'], wdt))
                        for i, (g, x) in enumerate(zip(np.els(res), want)): compare('%s: element %d%s' % (nm, i, rep), g, x, vs, pts)
                ck.obligation(w, nm, go)
    # the elements can be changed afterwards, the next call sees the current ones
    def go():
        x, y = w.var('x0'), w.var('x1')
        A = np.asarr(L([x, 1.0]))
        F, G = w.ref('uncertainties.unumpy:sin'), w.ref('uncertainties.umath:sin')
        w.value(lambda: w.call(F, A)); e.setitem(A, 1, y)
        res = e.resolve(w.value(lambda: w.call(F, A)))
        for i, z in enumerate((x, y)): compare('unumpy.sin() after an assignment: element %d' % i, np.els(res)[i], w.value(lambda: w.call(G, z)), [x, y], samples({sym('x0'): FIN(), sym('x1'): FIN()}, 10))
    ck.obligation(w, 'unumpy.sin() after an assignment', go)
    return ck.finish('%d functions, on arrays, lists, columns and matrices with numbers with uncertainties, floats, integers and NaN in all orders; second arguments as numbers, numbers with uncertainties and arrays; scalars.' % len(fnames),
                     ['numpy.vectorize() without otypes takes the data type of its results from the first one'])
