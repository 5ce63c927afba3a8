"""C30: arithmetic of arrays and matrices of numbers with uncertainties."""
import itertools
from sa.terms import *
from sa.report import Check
from sa.fx import ends
from sa.field import samples

OPS = ['+', '-', '*', '/', '**']

def run(tier):
    ck = Check('C30', tier, 'Operations between arrays, matrices, lists, numbers with uncertainties and plain numbers are element by element (the matrix product, for * between matrices and for dot()), each element being the result of the operations on '
               'numbers with uncertainties: same nominal value, same derivatives; products of unumpy matrices are unumpy matrices.',
               'abstract interpretation of the operator protocol between arrays and numbers with uncertainties (value-flow comparison, element by element, with the scalar operations)')
    w = ck.world(mods=('uncertainties', 'uncertainties.unumpy'))
    e = w.e; np = e.lib.npm()
    UN = lambda n: w.ref('uncertainties.unumpy:' + n)
    array, MAT, NMAT = Ext('numpy.array'), UN('matrix'), Ext('numpy.matrix')
    names = 'abcdefgh'
    pts = samples({sym(n): Rng(0.5, 4) for n in names + 'pqrs'}, 8)
    rng = lambda n: w.sym(n, Rng(0.5, 4))
    def uvar(n): return w.var(n, Rng(0.5, 4))
    def nest(c, shape):
        if len(shape) == 1: return e.new_list(list(c))
        k = len(c) // shape[0]
        return e.new_list([nest(c[i * k:(i + 1) * k], shape[1:]) for i in range(shape[0])])
    def size(s):
        n = 1
        for x in s: n *= x
        return n
    # cells of an operand: (objects, variables)
    def cells(kind, letters, n):
        vs, out = [], []
        for i in range(n):
            l = letters[i % len(letters)]
            k = kind[i % len(kind)]
            if k == 'u': v = uvar(l); vs.append(v); out.append(v)
            elif k == 'e': v = uvar(l); vs.append(v); out.append(w.op('*', v, 1.5))       # calculated quantity
            elif k == 'x': v = w.var(l, Rng(0.5, 4), sigma=0.0); vs.append(v); out.append(v)       # exact variable
            elif k == 'f': out.append(rng(l))
            elif k == 'i': out.append(i + 2)
        return out, vs
    make = {
        'array': lambda c, s: w.call(array, nest(c, s)),
        'list': lambda c, s: nest(c, s),
        'unumpy matrix': lambda c, s: w.call(MAT, nest(c, s)),
        'unumpy matrix of an array': lambda c, s: w.meth(w.call(array, nest(c, s)), 'view', MAT),
        'NumPy matrix': lambda c, s: w.call(NMAT, nest(c, s)),
        'number': lambda c, s: c[0],
    }
    def compare(name, r, shape, want, vs, cls):
        """want: abstract values of the scalar operations."""
        r = e.resolve(r)
        if isinstance(r, (Unknown, Phi)): ck.und(name, show(r)); return
        if shape == ():
            els = [np.els(r)[0] if np.isarr(r) else r]
        else:
            if not np.isarr(r): ck.bad(name, 'the result is no array: %s' % show(r)); return
            o = e.obj(r)
            if cls is not None: ck.check(name + ': type', same(o.cls, cls), 'the result is of type %s instead of %s' % (show(o.cls), show(cls)))
            if not ck.check(name + ': shape', o.f['shape'] == shape, 'the shape is %s instead of %s' % (o.f['shape'], shape)): return
            els = np.els(r)
        nv = w.ref('uncertainties:nominal_value')
        for i, (g, x) in enumerate(zip(els, want)):
            ck.eq(w, '%s: nominal value of element %d' % (name, i), w.value(lambda: w.call(nv, g)), w.value(lambda: w.call(nv, x)), pts=pts)
            gu, xu = w.is_uncert(g), w.is_uncert(x)
            if isinstance(gu, bool) and isinstance(xu, bool):
                ck.check('%s: element %d carries an uncertainty' % (name, i), gu == xu, 'it is %s' % show(g))
                if gu and xu:
                    for j, v in enumerate(vs):
                        ck.eq(w, '%s: derivative of element %d with respect to variable %d' % (name, i, j), w.value(lambda: w.deriv(g, v)), w.value(lambda: w.deriv(x, v)), pts=pts)
            else: ck.und('%s: element %d' % (name, i), 'kind not determined')
    def bcast(sa, sb):
        n = max(len(sa), len(sb)); sa2 = (1,) * (n - len(sa)) + sa; sb2 = (1,) * (n - len(sb)) + sb
        sh = tuple(max(x, y) for x, y in zip(sa2, sb2))
        def idx(pos, s):
            k = 0
            for p, d in zip(pos, s): k = k * d + (p if d > 1 else 0)
            return k
        return sh, [(idx(pos, sa2), idx(pos, sb2)) for pos in itertools.product(*[range(d) for d in sh])]
    def product(ca, sa, cb, sb):
        (m, k), (k2, n) = sa, sb
        out = []
        for i in range(m):
            for j in range(n):
                acc = None
                for l in range(k):
                    t = w.op('*', ca[i * k + l], cb[l * n + j])
                    acc = t if acc is None else w.op('+', acc, t)
                out.append(acc)
        return (m, n), out
    KIND = {'e': 'calculated quantities', 'x': 'exact variables', 'u': 'numbers with uncertainties', 'fu': 'floats and numbers with uncertainties', 'f': 'floats', 'i': 'integers'}
    ismat = lambda k: 'matrix' in k
    def combo(ka, kinda, sa, kb, kindb, sb, ops):
        for op in ops:
            name = '%s of %s %s %s %s of %s %s' % (ka, KIND[kinda], list(sa), op, kb, KIND[kindb], list(sb))
            def go():
                ca, va = w.value(lambda: cells(kinda, 'abcd', size(sa)))
                cb, vb = w.value(lambda: cells(kindb, 'pqrs', size(sb)))
                A = w.value(lambda: make[ka](ca, sa)); B = w.value(lambda: make[kb](cb, sb))
                r = w.value(lambda: w.op(op, A, B))
                cls = None if ka == 'NumPy matrix' and 'unumpy' in kb else MAT if 'unumpy matrix' in ka + kb else NMAT if ismat(ka + kb) else Ext('numpy.ndarray')
                if op == '*' and (ismat(ka) or ismat(kb)) and ka != 'number' and kb != 'number':
                    sa2 = sa if len(sa) == 2 else (1,) + sa; sb2 = sb if len(sb) == 2 else (1,) + sb
                    sh, want = w.value(lambda: product(ca, sa2, cb, sb2))
                else:
                    sh, ij = bcast(sa, sb)
                    want = [w.value(lambda: w.op(op, ca[i], cb[j])) for i, j in ij]
                compare(name, r, sh, want, va + vb, cls)
            ck.obligation(w, name, go)
    # ------------------------------------------------------------ arrays
    for sh in ((2,), (2, 2), (1,)):
        for ka, kb in itertools.product('u fu f'.split(), repeat=2):
            if ka == kb == 'f': continue
            combo('array', ka, sh, 'array', kb, sh, OPS)
    combo('array', 'u', (2, 1), 'array', 'u', (2,), OPS)
    combo('array', 'u', (2,), 'array', 'u', (2, 1), ['-', '/'])
    for ka in ('u', 'fu', 'f', 'i'):
        for sh in ((2,), (2, 2), (1, 1)):
            if ka in 'fi':
                combo('array', ka, sh, 'number', 'u', (), OPS)
                combo('number', 'u', (), 'array', ka, sh, OPS)
            else:
                for kb in 'ufiex':
                    combo('array', ka, sh, 'number', kb, (), OPS)
                    combo('number', kb, (), 'array', ka, sh, OPS)
    for ka, kb in (('u', 'f'), ('f', 'u'), ('u', 'u')):
        combo('array', ka, (2,), 'list', kb, (2,), OPS)
        combo('list', ka, (2,), 'array', kb, (2,), OPS)
    # ------------------------------------------------------------ matrices
    shapes = [((2, 2), (2, 2)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((1, 1), (1, 1)), ((1, 2), (2, 2))]
    for km in ('unumpy matrix', 'unumpy matrix of an array'):
        for sa, sb in shapes:
            for ka, kb in (('u', 'u'), ('u', 'f'), ('fu', 'u'), ('u', 'i')):
                for other in ('unumpy matrix', 'NumPy matrix', 'array', 'list'):
                    combo(km, ka, sa, other, kb, sb, ['*'])
                    combo(other, kb, sa, km, ka, sb, ['*'])
        for sh in ((2, 2), (1, 2), (2, 1), (1, 1)):
            for ka, kb in (('u', 'u'), ('u', 'f'), ('u', 'i'), ('f', 'u'), ('fu', 'u'), ('u', 'e'), ('f', 'e'), ('e', 'f'), ('u', 'x')):
                combo(km, ka, sh, 'number', kb, (), ['+', '-', '*', '/'])
                combo('number', kb, (), km, ka, sh, ['+', '-', '*', '/'])
                for other in ('unumpy matrix', 'NumPy matrix', 'array', 'list'):
                    combo(km, ka, sh, other, kb, sh, ['+', '-', '/'])
                    combo(other, kb, sh, km, ka, sh, ['+', '-', '/'])
        # a plain list or vector is a row
        combo(km, 'u', (2, 1), 'list', 'f', (2,), ['*'])
        combo('list', 'u', (2,), km, 'u', (2, 2), ['*'])
        combo('array', 'u', (2,), km, 'u', (2, 2), ['*'])
        combo('list', 'f', (2,), km, 'u', (2, 1), ['*'])
    for sh in ((2, 2), (1, 2)):
        combo('NumPy matrix', 'u', sh, 'number', 'u', (), ['+', '-', '/'])
        combo('number', 'u', (), 'NumPy matrix', 'u', sh, ['+', '-', '*', '/'])
    # ------------------------------------------------------------ dot(), sums, signs
    def dots():
        for ka, kb in (('u', 'u'), ('u', 'f'), ('f', 'u'), ('e', 'u')):
            for sa, sb in (((2,), (2,)), ((2, 2), (2, 2)), ((2, 2), (2,)), ((2,), (2, 2))):
                name = 'numpy.dot() of arrays of %s %s and %s %s' % (KIND[ka], list(sa), KIND[kb], list(sb))
                def go():
                    ca, va = w.value(lambda: cells(ka, 'abcd', size(sa))); cb, vb = w.value(lambda: cells(kb, 'pqrs', size(sb)))
                    r = w.value(lambda: w.call(Ext('numpy.dot'), make['array'](ca, sa), make['array'](cb, sb)))
                    sh, want = w.value(lambda: product(ca, sa if len(sa) == 2 else (1,) + sa, cb, sb if len(sb) == 2 else sb + (1,)))
                    if len(sa) == 1: sh = sh[1:]
                    if len(sb) == 1: sh = sh[:-1]
                    compare(name, r, sh, want, va + vb, None)
                ck.obligation(w, name, go)
    dots()
    for kind in ('array', 'unumpy matrix'):
        for sh in ((2,), (2, 2)):
            if kind != 'array' and len(sh) == 1: continue
            for sl, f, g in (('-', lambda v: e.unary('-', v), lambda v: e.unary('-', v)), ('+', lambda v: e.unary('+', v), lambda v: e.unary('+', v)), ('abs', lambda v: w.call(Ext('builtins.abs'), v), lambda v: w.call(Ext('builtins.abs'), v))):
                name = '%s of an %s %s' % (sl, kind, list(sh))
                def go():
                    c, vs = w.value(lambda: cells('u', 'abcd', size(sh)))
                    r = w.value(lambda: f(make[kind](c, sh)))
                    compare(name, r, sh, [w.value(lambda: g(x)) for x in c], vs, MAT if kind != 'array' else Ext('numpy.ndarray'))
                ck.obligation(w, name, go)
            name = 'sum() of an %s %s' % (kind, list(sh))
            def go():
                c, vs = w.value(lambda: cells('u', 'abcd', size(sh)))
                r = w.value(lambda: w.meth(make[kind](c, sh), 'sum'))
                def tot():
                    acc = c[0]
                    for x in c[1:]: acc = w.op('+', acc, x)
                    return acc
                compare(name, r, (), [w.value(tot)], vs, None)
            ck.obligation(w, name, go)
    # ------------------------------------------------------------ the same variable in both operands
    def shared():
        for kind in ('array', 'unumpy matrix'):
            sh = (2, 2)
            for op in ('+', '-', '*', '/'):
                name = 'an %s %s itself' % (kind, op)
                def go():
                    c, vs = w.value(lambda: cells('u', 'abcd', 4))
                    A = w.value(lambda: make[kind](c, sh))
                    r = w.value(lambda: w.op(op, A, A))
                    if kind != 'array' and op == '*': s, want = w.value(lambda: product(c, sh, c, sh))
                    else: s, want = sh, [w.value(lambda: w.op(op, x, x)) for x in c]
                    compare(name, r, s, want, vs, MAT if kind != 'array' else None)
                ck.obligation(w, name, go)
    shared()
    # ------------------------------------------------------------ powers of matrices
    for km in ('unumpy matrix', 'unumpy matrix of an array'):
        for sh in ((1, 1), (2, 2)):
            for kinda in ('u', 'fu', 'e'):
                for k in (1, 2, 3):
                    name = '%s of %s %s to the power %d' % (km, KIND[kinda], list(sh), k)
                    def go():
                        c, vs = w.value(lambda: cells(kinda, 'abcd', size(sh)))
                        r = w.value(lambda: w.op('**', make[km](c, sh), k))
                        want = c
                        for _ in range(k - 1): want = w.value(lambda: product(want, sh, c, sh))[1]
                        compare(name, r, sh, want, vs, MAT)
                    ck.obligation(w, name, go)
    # ------------------------------------------------------------ in-place operations
    def inplace(ka, kinda, sa, kb, kindb, sb, ops):
        for op in ops:
            name = '%s of %s %s %s= %s of %s %s' % (ka, KIND[kinda], list(sa), op, kb, KIND[kindb], list(sb))
            def go():
                ca, va = w.value(lambda: cells(kinda, 'abcd', size(sa)))
                if kb == 'itself': cb, vb = ca, []
                else: cb, vb = w.value(lambda: cells(kindb, 'pqrs', size(sb)))
                A = w.value(lambda: make[ka](ca, sa)); B_ = A if kb == 'itself' else w.value(lambda: make[kb](cb, sb))
                if op == '*' and ismat(ka) and kb != 'number':
                    sh, want = w.value(lambda: product(ca, sa, cb, sb if len(sb) == 2 else (1,) + sb))
                else:
                    sh, ij = bcast(sa, sb)
                    want = [w.value(lambda: w.op(op, ca[i], cb[j])) for i, j in ij]
                r = w.value(lambda: e.inplace(op, A, B_))
                cls = MAT if 'unumpy matrix' in ka else NMAT if ismat(ka) else Ext('numpy.ndarray')
                compare(name, r, sh, want, va + vb, cls)
                compare(name + ' (the array)', A, sh, want, va + vb, cls)
            ck.obligation(w, name, go)
    for km in ('array', 'unumpy matrix', 'unumpy matrix of an array', 'NumPy matrix'):
        for sh in ((2, 2), (1, 1)) + (((2,),) if km == 'array' else ()):
            for kb in 'ufi':
                inplace(km, 'u', sh, 'number', kb, (), ['+', '-', '*', '/'] if km != 'NumPy matrix' else ['+', '-', '/'])
                for other in ('array', 'unumpy matrix', 'NumPy matrix', 'list'):
                    if len(sh) == 1 and ismat(other): continue
                    if km == 'array' and ismat(other): continue
                    inplace(km, 'u', sh, other, kb, sh, ['+', '-', '*', '/'])
            inplace(km, 'u', sh, 'itself', 'u', sh, ['+', '-', '*', '/'])
    inplace('array', 'u', (2, 2), 'array', 'u', (2,), ['+', '-', '*', '/'])
    inplace('unumpy matrix', 'u', (2, 2), 'array', 'u', (1, 2), ['+', '-', '/'])
    inplace('unumpy matrix', 'u', (1, 2), 'unumpy matrix', 'u', (2, 2), ['*'])
    return ck.finish('Every operator between arrays, lists, matrices and numbers (with and without uncertainties, in both orders, several shapes), dot(), sums, signs and absolute values.',
                     ['NumPy follows the model of the parts that are used (operator dispatch, broadcasting, products of matrices).'])
