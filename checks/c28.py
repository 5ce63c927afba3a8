"""C28: nominal_value(), std_dev() and their array versions."""
import itertools, math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.engine import Native
from sa.fx import ends
from sa.field import samples
from checks.c27 import root

def ident(a, b):
    if isinstance(a, float) and isinstance(b, float): return type(a) is type(b) and (a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b)
    return type(a) is type(b) and same(a, b)

def run(tier):
    ck = Check('C28', tier, 'nominal_value() and std_dev() give the attributes of numbers with uncertainty, and the object itself and zero for anything else; nominal_values() and std_devs() do so for each element, '
               'in an array of floats of the same shape (a plain NumPy matrix for unumpy matrices); uarray() and umatrix() pair values and standard deviations by position.',
               'abstract interpretation of the accessors on symbolic elements (value, shape and type comparison)')
    w = ck.world(mods=('uncertainties', 'uncertainties.unumpy'))
    e = w.e
    np = e.lib.npm()
    U = lambda n: w.ref('uncertainties:' + n)
    UN = lambda n: w.ref('uncertainties.unumpy:' + n)
    wrap = w.ref('uncertainties.core:wrap')
    names = 'abcdefgh'
    pts = samples({**{sym(n): FIN() for n in names + 'xd'}, **{sym('s' + n): POS() for n in names + 'x'}}, 12)
    sg = lambda n: w.sym('s' + n, POS())
    def calc():
        w.sym('d')
        g = w.call(wrap, Native(lambda *a: w.sym('x'), 'f'), e.new_list([Native(lambda *a: w.sym('d'), 'd')]))
        return w.call(g, w.var('v', sigma=sg('x')))
    # (object, nominal value, standard deviation)
    unc = {'variable': lambda: (w.var('x', sigma=sg('x')), w.sym('x'), sg('x')), 'tagged variable': lambda: (w.var('x', sigma=sg('x'), tag='t'), w.sym('x'), sg('x')),
           'exact variable': lambda: (w.var('x', sigma=0.0), w.sym('x'), 0.0), 'variable of value zero': lambda: (w.var('x', 0.0, sigma=sg('x')), 0.0, sg('x')), 'calculated quantity': lambda: (calc(), w.sym('x'), root(T('mul', sym('d'), sym('sx')))),
           'NaN variable': lambda: (w.var('x', math.nan, sigma=math.nan), math.nan, math.nan), 'quantity without variable': lambda: (w.op('-', *[w.var('x')] * 2), 0.0, 0.0), 'infinite variable': lambda: (w.var('x', -math.inf, sigma=math.inf), -math.inf, math.inf)}
    D = {'a float': lambda: w.sym('c'), 'an integer': lambda: 7, 'a boolean': lambda: True, 'zero': lambda: 0, 'negative zero': lambda: -0.0, 'NaN': lambda: math.nan, 'infinity': lambda: math.inf, 'None': lambda: None, 'a string': lambda: '1.2+/-0.1', 'an empty string': lambda: '',
         'a list': lambda: e.new_list([1.0]), 'a list with a number with uncertainty': lambda: e.new_list([w.var('z')]), 'a tuple': lambda: (1.0, 2.0), 'a complex number': lambda: 1j, 'a dictionary': lambda: e.new_dict([]), 'a function': lambda: U('ufloat'), 'a class': lambda: w.ref('uncertainties.core:Variable'),
         'an array': lambda: w.call(Ext('numpy.array'), e.new_list([w.sym('c'), 2.0])), 'an array of numbers with uncertainties': lambda: w.call(UN('uarray'), e.new_list([1.0]), e.new_list([0.1])), 'an object': lambda: e.lib.call(Ext('builtins.object'), [], {}) , 'a set': lambda: e.new_set([1]), 'Ellipsis': lambda: Ellipsis}
    for where in ('uncertainties', 'uncertainties.core'):
        nv, sd = w.ref(where + ':nominal_value'), w.ref(where + ':std_dev')
        for kl, mk in unc.items():
            def go():
                x, n, s = w.value(mk)
                for rep in ('', ' (again)'):
                    ck.eq(w, '%s.nominal_value(%s)%s' % (where, kl, rep), w.value(lambda: w.call(nv, x)), n, pts=pts)
                    ck.eq(w, '%s.std_dev(%s)%s' % (where, kl, rep), w.value(lambda: w.call(sd, x)), s, pts=pts)
            ck.obligation(w, '%s.nominal_value(%s)' % (where, kl), go)
        for kl, mk in D.items():
            def go():
                x = w.value(mk)
                name = '%s.nominal_value(%s)' % (where, kl)
                r = e.resolve(w.value(lambda: w.call(nv, x)))
                if isinstance(r, (Unknown, Phi)): ck.und(name, show(r))
                else: ck.check(name, ident(r, x), 'the result is %s instead of the object itself, %s' % (show(r), show(x)))
                name = '%s.std_dev(%s)' % (where, kl)
                r = e.resolve(w.value(lambda: w.call(sd, x)))
                if isinstance(r, (Unknown, Phi, Term)): ck.und(name, show(r))
                else: ck.check(name, isinstance(r, float) and r == 0 and not isinstance(r, bool), 'the result is %s instead of 0.0' % show(r))
            ck.obligation(w, '%s.nominal_value(%s)' % (where, kl), go)

    # ------------------------------------------------------------ arrays
    # every cell: (object, nominal value, standard deviation)
    def cell(kind, n):
        if kind == 'u': return w.var(n, sigma=sg(n)), w.sym(n), sg(n)
        if kind == 'f': return w.sym(n), w.sym(n), 0.0
        if kind == 'i': return 3, 3.0, 0.0
        if kind == 'z': return w.var(n, 0, sigma=0), 0.0, 0.0
        if kind == 'N': return math.nan, math.nan, 0.0
        if kind == 'c':
            v = w.op('*', w.var(n, sigma=sg(n)), 2)
            return v, T('mul', 2.0, sym(n)), root(T('mul', 2.0, sym('s' + n)))
    patterns = {'u': 'numbers with uncertainties', 'f': 'floats', 'fu': 'a float first', 'uf': 'floats last', 'iu': 'an integer first', 'ui': 'integers last', 'cu': 'calculated quantities', 'zf': 'zeros', 'Nu': 'NaN', 'i': 'integers'}
    shapes = {'vector': (3,), 'one element': (1,), 'one-element matrix': (1, 1), 'one-element cube': (1, 1, 1), 'table': (2, 3), 'column': (3, 1), 'row': (1, 3), 'cube': (2, 1, 2)}
    def nest(cells, shape):
        if len(shape) == 1: return e.new_list(cells)
        k = len(cells) // shape[0]
        return e.new_list([nest(cells[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])])
    def prod(s):
        n = 1
        for x in s: n *= x
        return n
    array = Ext('numpy.array')
    def result(name, r, shape, want, plain, dtype='float'):
        r = e.resolve(r)
        if isinstance(r, (Unknown, Phi)): ck.und(name, show(r)); return
        if not np.isarr(r): ck.bad(name, 'the result is no array: %s' % show(r)); return
        o = e.obj(r)
        if plain is not None: ck.check(name + ': type', same(o.cls, plain), 'the result is of type %s' % show(o.cls))
        ck.check(name + ': shape', o.f['shape'] == shape, 'the shape is %s instead of %s' % (o.f['shape'], shape))
        ck.check(name + ': element type', o.f['dtype'] == dtype, 'the elements are of type %s' % o.f['dtype'])
        if o.f['shape'] == shape:
            for i, (g, x) in enumerate(zip(np.els(r), want)): ck.eq(w, '%s: element %d' % (name, i), g, x, pts=pts)
    for pl, pd in patterns.items():
        for sl, shape in shapes.items():
            cs = lambda: [cell(pl[i % len(pl)], names[i]) for i in range(prod(shape))]
            makers = {'array': lambda c: w.call(array, nest(c, shape))}
            if len(shape) <= 2: makers['list'] = lambda c: nest(c, shape)
            if len(shape) == 2:
                makers['NumPy matrix'] = lambda c: w.call(Ext('numpy.matrix'), nest(c, shape))
                makers['unumpy matrix'] = lambda c: w.meth(w.call(array, nest(c, shape)), 'view', UN('matrix'))
                makers['transposed array'] = lambda c: w.get(w.call(array, nest([c[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])], shape[::-1])), 'T')
            for ml, mk in makers.items():
                cls = Ext('numpy.matrix') if 'matrix' in ml else Ext('numpy.ndarray')
                def go():
                    c = w.value(cs)
                    a = w.value(lambda: mk([x[0] for x in c]))
                    for fn, i in (('nominal_values', 1), ('std_devs', 2)):
                        name = '%s(%s of %s, %s)' % (fn, ml, pd, sl)
                        result(name, w.value(lambda: w.call(UN(fn), a)), shape, [x[i] for x in c], cls)
                        if ml == 'unumpy matrix':
                            result('attribute ' + name, w.value(lambda: w.get(a, fn)), shape, [x[i] for x in c], Ext('numpy.matrix') if i == 1 else None)
                ck.obligation(w, 'arrays: %s, %s, %s' % (ml, pl, sl), go)

    # ------------------------------------------------------------ uarray and umatrix
    combos = {'lists': lambda v: v, 'arrays': lambda v: w.call(array, v)}
    pts2 = samples({**{sym('v%d' % i): FIN() for i in range(9)}, **{sym('t%d' % i): POS() for i in range(9)}}, 8)
    def pair(name, r, shape, noms, sds, cls, pts=pts):
        r = e.resolve(r)
        if isinstance(r, (Unknown, Phi)): ck.und(name, show(r)); return
        if not np.isarr(r): ck.bad(name, 'the result is no array'); return
        o = e.obj(r)
        if cls is not None: ck.check(name + ': type', same(o.cls, cls), 'the result is of type %s' % show(o.cls))
        ck.check(name + ': shape', o.f['shape'] == shape, 'the shape is %s instead of %s' % (o.f['shape'], shape))
        ck.check(name + ': element type', o.f['dtype'] == 'object', 'the elements are of type %s' % o.f['dtype'])
        els = np.els(r)
        if o.f['shape'] != shape: return
        Var = w.ref('uncertainties.core:Variable')
        for i, v in enumerate(els):
            if e.isinstance_(v, Var) is not True: ck.bad('%s: element %d' % (name, i), 'is no variable: %s' % show(v)); continue
            ck.eq(w, '%s: nominal value of element %d' % (name, i), w.value(lambda: w.get(v, 'nominal_value')), noms[i], pts=pts)
            ck.eq(w, '%s: standard deviation of element %d' % (name, i), w.value(lambda: w.get(v, 'std_dev')), sds[i], pts=pts)
            for j, u in enumerate(els):
                ck.eq(w, '%s: derivative of element %d with respect to element %d' % (name, i, j), w.value(lambda: w.deriv(v, u)), 1.0 if i == j else 0.0, pts=pts)
    for sl, shape in shapes.items():
        n = prod(shape)
        for cl, conv in combos.items():
            for fn in ('uarray', 'umatrix'):
                if fn == 'umatrix' and len(shape) > 2: continue
                sh = shape if fn == 'uarray' or len(shape) == 2 else (1,) + shape
                cls = Ext('numpy.ndarray') if fn == 'uarray' else UN('matrix')
                for kind in ('symbols', 'equal values', 'special values'):
                    V = {'symbols': lambda: [w.sym(names[i]) for i in range(n)], 'equal values': lambda: [w.sym('a')] * n, 'special values': lambda: [(0.0, math.nan, 3, math.inf)[i % 4] for i in range(n)]}[kind]
                    S = {'symbols': lambda: [sg(names[i]) for i in range(n)], 'equal values': lambda: [sg('a')] * n, 'special values': lambda: [(0.0, 0, math.nan, 1)[i % 4] for i in range(n)]}[kind]
                    name = '%s of %s, %s, %s' % (fn, cl, sl, kind)
                    def go():
                        v, s = V(), S()
                        pair(name, w.value(lambda: w.call(UN(fn), conv(nest(v, shape)), conv(nest(s, shape)))), sh, [_f(x) for x in v], [_f(x) for x in s], cls)
                    ck.obligation(w, name, go)
                if len(shape) == 1:
                    name = '%s of %s, common standard deviation, %s' % (fn, cl, sl)
                    def go():
                        v = [w.sym(names[i]) for i in range(n)]
                        pair(name, w.value(lambda: w.call(UN(fn), conv(nest(v, shape)), sg('a'))), sh, v, [sg('a')] * n, cls)
                    ck.obligation(w, name, go)
                if len(shape) == 2:
                    name = '%s of %s, standard deviations of one row, %s' % (fn, cl, sl)
                    def go():
                        v = [w.sym(names[i]) for i in range(n)]; s = [sg(names[i]) for i in range(shape[1])]
                        pair(name, w.value(lambda: w.call(UN(fn), conv(nest(v, shape)), conv(e.new_list(s)))), sh, v, s * shape[0], cls)
                    ck.obligation(w, name, go)
    for shape in ((2, 2), (2, 3), (3, 1), (3, 3)):
        n = prod(shape)
        tr = lambda c: w.get(w.call(array, nest([c[i * shape[1] + j] for j in range(shape[1]) for i in range(shape[0])], shape[::-1])), 'T')
        forms = {'an array': lambda c: w.call(array, nest(c, shape)), 'a list': lambda c: nest(c, shape), 'a transposed array': tr, 'a NumPy matrix': lambda c: w.call(Ext('numpy.matrix'), nest(c, shape)), 'a transposed matrix': lambda c: w.meth(tr(c), 'view', Ext('numpy.matrix'))}
        for (vl, vm), (sl, sm) in itertools.product(forms.items(), repeat=2):
            for fn in ('uarray', 'umatrix'):
                for old in (False, True):
                    name = '%s of %s and %s, %s%s' % (fn, vl, sl, list(shape), ', obsolete form' if old else '')
                    def go():
                        v = [w.sym('v%d' % i) for i in range(n)]; s = [w.sym('t%d' % i, POS()) for i in range(n)]
                        def mk():
                            V, S = vm(v), sm(s)
                            return w.call(UN(fn), (V, S)) if old else w.call(UN(fn), V, S)
                        pair(name, w.value(mk), shape, v, s, UN('matrix') if fn == 'umatrix' else None if 'matrix' in vl + sl else Ext('numpy.ndarray'), pts2)
                    ck.obligation(w, name, go)
    def negative():
        ends(ck, w, 'uarray with a negative standard deviation', lambda: w.call(UN('uarray'), e.new_list([1.0, 2.0]), e.new_list([0.1, -0.1])), 'NegativeStdDev')
    ck.obligation(w, 'uarray with a negative standard deviation', negative)
    return ck.finish('%d kinds of numbers with uncertainty and %d of other objects; arrays, lists and matrices of %d shapes and %d mixes of elements; uarray() and umatrix() of lists and arrays, with symbolic and special values and broadcast standard deviations.' % (len(unc), len(D), len(shapes), len(patterns)),
                     ['NumPy follows the model of the parts that are used (vectorize, views, matrices, broadcasting).'])

def _f(v): return float(v) if isinstance(v, (int, float)) else v
