"""C13: inverse and pseudo-inverse of matrices with uncertainties."""
import itertools, math, random
from fractions import Fraction as Fr
from sa.terms import *
from sa.report import Check, safe_msg
from sa import field
from sa.engine import Native

# ---------------------------------------------------------------- numerical oracle for the uninterpreted inverses
def mul(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def tr(a): return [list(r) for r in zip(*a)]
def comb(*ms): return [[sum(s * m[i][j] for s, m in ms) for j in range(len(ms[0][1][0]))] for i in range(len(ms[0][1]))]
def eye(n): return [[Fr(i == j) for j in range(n)] for i in range(n)]
def inverse(a):
    n = len(a); m = [[Fr(x) for x in r] + eye(n)[i] for i, r in enumerate(a)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if m[p][c] == 0: raise field.NoVal('singular matrix')
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]: m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]
def svd(a):
    """One-sided Jacobi: (left vectors x singular values, singular values, right vectors)."""
    n = len(a[0]); u = [list(map(float, c)) for c in zip(*a)]; v = [[float(i == j) for j in range(n)] for i in range(n)]
    for sweep in range(80):
        done = True
        for p in range(n):
            for q in range(p + 1, n):
                al, be, ga = sum(x * x for x in u[p]), sum(x * x for x in u[q]), sum(x * y for x, y in zip(u[p], u[q]))
                if ga == 0 or abs(ga) <= 1e-17 * math.sqrt(al * be): continue
                done = False
                z = (be - al) / (2 * ga); t = (1 if z >= 0 else -1) / (abs(z) + math.sqrt(1 + z * z)) if abs(z) < 1e150 else 0.5 / z
                c = 1 / math.sqrt(1 + t * t); s = c * t
                u[p], u[q] = [c * x - s * y for x, y in zip(u[p], u[q])], [s * x + c * y for x, y in zip(u[p], u[q])]
                v[p], v[q] = [c * x - s * y for x, y in zip(v[p], v[q])], [s * x + c * y for x, y in zip(v[p], v[q])]
        if done: break
    sg = [math.sqrt(sum(x * x for x in c)) for c in u]
    return u, sg, v
def pseudo(a, rcond):
    if len(a) < len(a[0]): return tr(pseudo(tr(a), rcond))
    u, sg, v = svd(a)
    cut = rcond * max(sg)
    if all(s > cut for s in sg):
        A = [[Fr(x) for x in r] for r in a]
        return mul(inverse(mul(tr(A), A)), tr(A))
    return [[sum(v[k][i] * u[k][j] / sg[k] ** 2 for k in range(len(sg)) if sg[k] > cut) for j in range(len(a))] for i in range(len(a[0]))]

def d_inv(P, A, dA): return comb((-1, mul(mul(P, dA), P)))
def d_pinv(P, A, dA):
    H = tr(dA)
    return comb((-1, mul(mul(P, dA), P)), (1, mul(mul(mul(P, tr(P)), H), comb((1, eye(len(A))), (-1, mul(A, P))))),
                (1, mul(mul(comb((1, eye(len(A[0]))), (-1, mul(P, A))), H), mul(tr(P), P))))

def run(tier):
    ck = Check('C13', tier, 'Each element of the result has the (pseudo-)inverse of the nominal values as its nominal value, depends only on the variables of the argument, and its derivative with respect to each of them is the matching element of '
               '-A\' dA A\' (inverse) or of the formula of Golub and Pereyra (pseudo-inverse).',
               'abstract interpretation of inv(), pinv() and matrix.I on arrays of symbolic quantities, with uninterpreted inverses; comparison of each derivative reached with the matrix formula in a normal form and at sample matrices')
    w = ck.world(numpy=True, mods=('uncertainties', 'uncertainties.unumpy'))
    e = w.e; np = e.lib.npm()
    INV, PINV = w.ref('uncertainties.unumpy.ulinalg:inv'), w.ref('uncertainties.unumpy.ulinalg:pinv')
    UM = w.ref('uncertainties.unumpy:matrix')
    UF = w.ref('uncertainties:UFloat')
    LEN = Ext('builtins.len')
    rnd = random.Random(13)

    def ev(v, p):
        if isinstance(v, Ref): v = e.numify(v)
        for gl, leaf in leaves(v):
            if gl and field.lits_hold(gl, p) is not True: continue
            if isinstance(leaf, Ref): leaf = e.numify(leaf)
            if isinstance(leaf, (int, float)): return float(leaf)
            if not isinstance(leaf, Term): raise field.NoVal('not a number: %s' % show(leaf))
            return field.evalt(leaf, p)
        raise field.NoVal('no alternative holds')
    def elems_in(v, out):
        if isinstance(v, Ref): v = e.numify(v)
        for gl, leaf in leaves(v):
            for l in list(gl):
                c = l[0] if isinstance(l, tuple) else l
                if isinstance(c, Term): out.append(c)
            if isinstance(leaf, Ref): leaf = e.numify(leaf)
            if isinstance(leaf, Term): out.append(leaf)
    def inverses(terms):
        """Uninterpreted inverses in the terms, the innermost ones first."""
        seen, done = {}, set()
        def rec(t):
            if not isinstance(t, Term) or t in done: return
            done.add(t)
            if t.op == 'elem':
                for x in t.args[1][1]: rec(x)
                seen[t.args[0], t.args[1]] = 1
            else:
                for x in t.args: rec(x)
        for t in terms: rec(t)
        return list(seen)
    def fill(invs, p):
        """Values of the elements of the uninterpreted inverses."""
        for which, mk in invs:
            (m, n), items = mk[0], mk[1]
            a = [[ev(items[r * n + c], p) for c in range(n)] for r in range(m)]
            if which == 'inv': P = inverse(a)
            else:
                extra = mk[2] if len(mk) > 2 else ()
                rc = 1e-15
                for x in extra:
                    if isinstance(x, tuple): x = x[-1]
                    if isinstance(x, (int, float)) and not isinstance(x, bool): rc = x
                    elif isinstance(x, Term): rc = ev(x, p)
                P = pseudo(a, rc)
            for r in range(len(P)):
                for c in range(len(P[0])): p[T('elem', which, mk, r, c)] = float(P[r][c])
        return p

    def items_of(res, shape):
        if np.isarr(res): return np.els(res), e.obj(res).f['shape']
        return None, None

    def analyse(name, which, call, A, shape, pts, rcond=None, cls=None, certain=False):
        m, n = shape
        res = e.resolve(w.value(call))
        its, sh = items_of(res, (n, m))
        if its is None: ck.check(name + ': result', None if isinstance(res, (Unknown, Phi)) else False, 'not an array: %s' % show(res)); return
        if not ck.check(name + ': shape', sh == (n, m), 'the result has shape %s' % (sh,)): return
        if cls is not None:
            oc = e.obj(res).cls
            v = e.issub(oc, cls[0])
            ck.check(name + ': type of the result', v if not isinstance(v, Unknown) else None, 'the result is a %s' % show(oc)) if cls[1] else ck.check(name + ': type of the result', not v if isinstance(v, bool) else None, 'the result is a %s' % show(oc))
        its = [e.resolve(x) for x in its]
        flat = [x for r in A for x in r]
        noms = [w.get(x, 'nominal_value') if e.isinstance_(x, UF) is True else x for x in flat]
        vs = []
        for x in flat:
            if e.isinstance_(x, UF) is not True: continue
            for v in w.value(lambda: tuple(e.iterate(w.get(x, 'derivatives')))):
                for _, v in leaves(e.resolve(v)):
                    if v is not ABSENT and not any(same(v, u) for u in vs): vs.append(v)
        dA = [[w.value(lambda: w.deriv(x, v)) if e.isinstance_(x, UF) is True else 0.0 for x in flat] for v in vs]
        got = []
        for i in range(n):
            for j in range(m):
                z = its[i * m + j]
                if certain:
                    if isinstance(z, (Unknown, Phi)): ck.und('%s: element (%d, %d)' % (name, i, j), show(z)); return
                    if e.isinstance_(z, UF) is True: ck.bad('%s: element (%d, %d)' % (name, i, j), 'has an uncertainty for a matrix without uncertainties'); return
                    got.append((i, j, z, [])); continue
                if e.isinstance_(z, UF) is not True:
                    ck.check('%s: element (%d, %d)' % (name, i, j), None if isinstance(z, (Unknown, Phi)) else False, 'is not a number with uncertainty: %s' % show(z)); return
                keys = [l for k in w.value(lambda: tuple(e.iterate(w.get(z, 'derivatives')))) for _, l in leaves(e.resolve(k)) if l is not ABSENT]
                if any(not isinstance(k, Ref) for k in keys): ck.und(name + ': variables', show(keys[0])); return
                extra = [k for k in keys if not any(same(k, v) for v in vs)]
                if extra: ck.bad('%s: variables of element (%d, %d)' % (name, i, j), 'depends on variables that are not in the matrix'); return
                got.append((i, j, w.value(lambda: w.get(z, 'nominal_value')), [w.value(lambda: w.deriv(z, v)) for v in vs]))
        terms = []
        for _, _, a, d in got:
            for x in [a] + d: elems_in(x, terms)
        invs = inverses(terms); nev = 0
        for p0 in pts:
            p = dict(p0)
            try:
                fill(invs, p)
                a = [[ev(noms[r * n + c], p) for c in range(n)] for r in range(m)]
                P = inverse(a) if which == 'inv' else pseudo(a, rcond(p) if callable(rcond) else 1e-15 if rcond is None else rcond)
                exact = isinstance(P[0][0], Fr)
                af = [[Fr(x) for x in r] for r in a] if exact else a
                for i, j, v, d in got:
                    x = ev(v, p)
                    scale = max(abs(float(q)) for r in P for q in r)
                    if not abs(x - float(P[i][j])) <= 1e-9 * scale:
                        ck.bad('%s: nominal value of element (%d, %d)' % (name, i, j), 'is %r instead of %r for the matrix %s' % (x, float(P[i][j]), a), v.site if isinstance(v, Term) else None); return
                for k, v in enumerate(vs):
                    dm = [[ev(dA[k][r * n + c], p) for c in range(n)] for r in range(m)]
                    if exact: dm = [[Fr(q) for q in r] for r in dm]
                    W = (d_inv if which == 'inv' else d_pinv)(P, af, dm)
                    sc = max(abs(float(q)) for r in P for q in r) ** 2 * max(max(abs(float(q)) for r in dm for q in r), 1e-300)
                    for i, j, _, d in got:
                        x = ev(d[k], p)
                        if not abs(x - float(W[i][j])) <= 1e-7 * sc:
                            ck.bad('%s: derivative of element (%d, %d)' % (name, i, j), 'with respect to %s, is %r instead of %r for the matrix %s and derivatives %s' % (show(w.get(v, 'tag')), x, float(W[i][j]), a, [[float(q) for q in r] for r in dm]), next((t.site for t in terms if isinstance(t, Term) and t.site), None)); return
                nev += 1
            except field.NoVal as x:
                ck.und(name, 'not evaluated: %s' % x)
            except (ZeroDivisionError, OverflowError): continue
        if nev:
            for i, j, _, d in got: ck.ok('%s: element (%d, %d)' % (name, i, j), '%d variables, %d matrices' % (len(vs), nev))
        else: ck.und(name, 'no matrix evaluated')
        # normal form, with the elements of the inverse as indeterminates
        mks = {mk: which for which, mk in invs}
        if len(mks) == 1 and not certain and m * n <= 6:
            (mk, wh), = mks.items()
            E = lambda i, j: T('elem', wh, mk, i, j)
            try:
                big = dict(pts[0]); fill(invs, big)
                nm = [x if isinstance(x, (int, float, Term)) else e.numify(x) for x in noms]
                for k, v in enumerate(vs):
                    for i, j, _, d in got:
                        g = None
                        for gl, leaf in leaves(d[k]):
                            if not gl or field.lits_hold(gl, big) is True: g = e.numify(leaf) if isinstance(leaf, Ref) else leaf; break
                        if g is None: raise field.NoField('no alternative')
                        def add(x, y): return y if x is None else T('add', x, y)
                        want = None
                        dd = [e.numify(x) if isinstance(x, Ref) else x for x in dA[k]]
                        nz = [(r, c) for r in range(m) for c in range(n) if not (isinstance(dd[r * n + c], (int, float)) and dd[r * n + c] == 0)]
                        if any(isinstance(dd[r * n + c], Phi) for r, c in nz): raise field.NoField('conditional derivative')
                        for r, c in nz: want = add(want, T('mul', -1.0, T('mul', T('mul', E(i, r), dd[r * n + c]), E(c, j))))
                        if which != 'inv':
                            for r, c in nz:     # dA^T has element (c, r)
                                for q in range(m):
                                    for s in range(n):
                                        f22 = T('sub', 1.0 if r == j else 0.0, None) if False else None
                                # term 2: sum (P P^T)_{ic} dA_{rc} (I - A P)_{rj}
                                pp = None
                                for q in range(m): pp = add(pp, T('mul', E(i, q), E(c, q)))
                                ap = None
                                for q in range(n): ap = add(ap, T('mul', nm[r * n + q], E(q, j)))
                                want = add(want, T('mul', T('mul', pp, dd[r * n + c]), T('sub', 1.0 if r == j else 0.0, ap)))
                                # term 3: sum (I - P A)_{ic} dA_{rc} (P^T P)_{rj}
                                pa = None
                                for q in range(m): pa = add(pa, T('mul', E(i, q), nm[q * n + c]))
                                qq = None
                                for q in range(n): qq = add(qq, T('mul', E(q, r), E(q, j)))
                                want = add(want, T('mul', T('mul', T('sub', 1.0 if i == c else 0.0, pa), dd[r * n + c]), qq))
                        if want is None: want = 0.0
                        r_, why = field.equal(g, want, [])
                        if r_ == 'equal': ck.ok('%s: derivative of element (%d, %d) in normal form' % (name, i, j), why)
                        else: nf['not'] += 1
            except (field.NoField, field.NoVal, KeyError, RecursionError, TypeError): nf['not'] += 1
    nf = {'not': 0}

    # ------------------------------------------------------------ matrices
    def build(shape, how):
        """Elements of a matrix and the names of the symbols."""
        m, n = shape
        if shape == (1, 1) and how.startswith('mixed'): how = how.replace('mixed', 'independent')
        A = [[None] * n for _ in range(m)]; names = []
        cells = [(i, j) for i in range(m) for j in range(n)]
        V = (lambda k: w.var(k, sigma=0.0)) if how.endswith('exact') else (lambda k: w.var(k, sigma=math.inf)) if how.endswith('undetermined') else (lambda k: w.var(k))
        how = how.split(', ')[0]
        for k, (i, j) in enumerate(cells):
            nm = 'x%d' % k
            if how == 'independent': A[i][j] = V(nm); names.append(nm)
            elif how == 'one uncertain':
                A[i][j] = V(nm) if k == len(cells) - 1 else w.sym(nm); names.append(nm)
            elif how == 'first uncertain':
                A[i][j] = V(nm) if k == 0 else w.sym(nm); names.append(nm)
            elif how == 'mixed':
                A[i][j] = V(nm) if k % 2 else w.sym(nm); names.append(nm)
            elif how == 'certain': A[i][j] = w.sym(nm); names.append(nm)
        if how in ('shared', 'shared and constants'):
            a, b = V('xa'), V('xb'); names += ['xa', 'xb']
            ops = [lambda: w.op('+', a, b), lambda: w.op('*', a, 2.0), lambda: w.op('*', a, b), lambda: b, lambda: w.op('-', b, a), lambda: w.op('*', b, b), lambda: a, lambda: w.op('+', a, 1.0), lambda: w.op('*', b, 3.0)]
            for k, (i, j) in enumerate(cells):
                if how == 'shared and constants' and k % 3 == 1: A[i][j] = [2.5, 3, -1.5][k // 3 % 3]
                else: A[i][j] = w.value(ops[k % len(ops)])
        return A, names
    HOW = ['independent', 'one uncertain', 'first uncertain', 'mixed', 'shared', 'shared and constants', 'certain', 'mixed, exact', 'shared, exact', 'shared, undetermined']
    def points(names, shape, special, npts=5):
        m, n = shape
        out = []
        for q in range(npts):
            out.append({sym(x): round(rnd.uniform(-3, 3), 6) for x in names})
        if special and names == ['x%d' % k for k in range(m * n)]:
            def put(mat): out.append({sym('x%d' % (i * n + j)): float(mat[i][j]) for i in range(m) for j in range(n)})
            if m == n:
                # nearly singular and badly scaled matrices
                put([[(1.0 if i == 0 else 1e-17) if i == j else 0.0 for j in range(n)] for i in range(m)])
                put([[(1e-9 if i == 0 else 1e9) if i == j else (0.5 if j == i + 1 else 0.0) for j in range(n)] for i in range(m)])
                put([[(1.0 if (i + j) == n - 1 else 0.0) for j in range(n)] for i in range(m)])
                put([[1.0 + 1e-13 * (i == j) + i * j for j in range(n)] for i in range(m)]) if n == 2 else None
            put([[float(i == j) for j in range(n)] for i in range(m)])
            if special == 'rank': put([[float((i + 1) * (j + 1)) for j in range(n)] for i in range(m)])
        return out
    CONT = {
        'list of lists': (lambda A: e.new_list([e.new_list(r) for r in A]), None),
        'tuple of tuples': (lambda A: tuple(tuple(r) for r in A), None),
        'array': (lambda A: np.asarr(e.new_list([e.new_list(r) for r in A])), 'nd'),
        'transposed array': (lambda A: np.transpose(np.asarr(e.new_list([e.new_list(list(c)) for c in zip(*A)]))), 'nd'),
        'numpy.matrix': (lambda A: w.call(Ext('numpy.matrix'), e.new_list([e.new_list(r) for r in A])), 'mat'),
        'unumpy.matrix': (lambda A: w.call(UM, e.new_list([e.new_list(r) for r in A])), 'umat'),
        'transposed unumpy.matrix': (lambda A: w.get(w.call(UM, e.new_list([e.new_list(list(c)) for c in zip(*A)])), 'T'), 'umat'),
    }
    sq = [(1, 1), (2, 2), (3, 3)]
    rect = [(1, 2), (2, 1), (2, 3), (3, 2), (1, 3)] + ([(3, 1), (2, 4), (4, 2)] if tier != 'quick' else [])
    RCONDS = (0, 0.0, 1e-30, 1e-17, 1e-15, 1e-12, 1e-4, 1)
    for shape in sq + rect:
        for how in HOW:
            for cl, (cf, ck_) in CONT.items():
                if max(shape) >= 3 and cl not in ('array', 'unumpy.matrix', 'list of lists'): continue
                if ',' in how and (cl not in ('array', 'unumpy.matrix') or shape == (3, 3)): continue
                if shape == (3, 3) and how in ('independent',) and cl != 'array' and tier == 'quick': continue
                ways = []
                if shape[0] == shape[1]: ways += [('inv', 'inv()', lambda M: w.call(INV, M))]
                ways += [('pinv', 'pinv()', lambda M: w.call(PINV, M))]
                if how in ('independent', 'mixed', 'shared') and cl in ('array', 'unumpy.matrix'):
                    ways += [('pinv', 'pinv(rcond)', lambda M: w.call(PINV, M, 0.2)), ('pinv', 'pinv(rcond=)', lambda M: w.call(PINV, M, rcond=0.05))]
                    if max(shape) < 3: ways += [('pinv', 'pinv(rcond=%r)' % q, lambda M, q=q: w.call(PINV, M, q)) for q in RCONDS]
                if 'unumpy' in cl:
                    ways += [('inv' if shape[0] == shape[1] else 'pinv', '.I', lambda M: w.get(M, 'I')), ('inv' if shape[0] == shape[1] else 'pinv', '.getI()', lambda M: w.meth(M, 'getI'))]
                for which, wl, call in ways:
                    if shape == (3, 3) and which == 'pinv' and how == 'independent' and tier == 'quick': continue
                    name = '%s, %dx%d, %s, %s' % (wl, shape[0], shape[1], how, cl)
                    def go():
                        A, names = build(shape, how)
                        M = w.value(lambda: cf(A))
                        rc = 0.2 if wl == 'pinv(rcond)' else 0.05 if wl == 'pinv(rcond=)' else float(wl[11:-1]) if wl.startswith('pinv(rcond=') else None
                        cls = {'nd': (Ext('numpy.matrix'), False), 'mat': (Ext('numpy.matrix'), True), 'umat': (UM if how != 'certain' else Ext('numpy.matrix'), True), None: (Ext('numpy.matrix'), False)}[ck_]
                        pts = points(names, shape, 'rank' if which == 'pinv' else True)
                        analyse(name, which, lambda: call(M), A, shape, pts, rc, cls, how == 'certain')
                    ck.obligation(w, name, go)
    # undefined derivatives stay undefined
    for fn, f in (('inv()', INV), ('pinv()', PINV)):
        def go(name='%s, undefined derivative' % fn, f=f):
            x, y = w.var('x0'), w.var('x1')
            g = w.call(w.ref('uncertainties.core:wrap'), Native(lambda *a: 0.5, 'g'), e.new_list([Native(lambda *a: math.nan, 'd')]))
            z = w.value(lambda: w.call(g, x))
            M = np.asarr(e.new_list([e.new_list([2.0, y]), e.new_list([z, 3.0])]))
            its, sh = items_of(e.resolve(w.value(lambda: w.call(f, M))), (2, 2))
            if its is None: ck.und(name, 'not an array'); return
            for i, q in enumerate(its):
                if e.isinstance_(e.resolve(q), UF) is not True: ck.und('%s: element %d' % (name, i), show(q)); continue
                ck.eq(w, '%s: element %d' % (name, i), w.value(lambda: w.deriv(e.resolve(q), x)), math.nan, pts=[{sym('x1'): 0.5, sym('x0'): 1.0}])
        ck.obligation(w, '%s, undefined derivative' % fn, go)
    # the same quantity several times, and exact derivatives after a change of standard deviation
    def go():
        x = w.var('x0'); y = w.var('x1')
        A = [[x, y], [y, x]]
        M = np.asarr(e.new_list([e.new_list(r) for r in A]))
        analyse('inv(), repeated elements', 'inv', lambda: w.call(INV, M), A, (2, 2), points(['x0', 'x1'], (2, 2), False))
    ck.obligation(w, 'inv(), repeated elements', go)
    def go():
        x = w.var('x0'); y = w.var('x1')
        A = [[x, y], [y, x]]
        M = np.asarr(e.new_list([e.new_list(r) for r in A]))
        w.value(lambda: w.call(INV, M))
        B = [[y, 1.0], [x, w.value(lambda: w.op('*', x, y))]]
        N = np.asarr(e.new_list([e.new_list(r) for r in B]))
        analyse('inv() called a second time', 'inv', lambda: w.call(INV, N), B, (2, 2), points(['x0', 'x1'], (2, 2), False))
        analyse('pinv() called after inv()', 'pinv', lambda: w.call(PINV, N), B, (2, 2), points(['x0', 'x1'], (2, 2), False))
    ck.obligation(w, 'successive calls', go)
    ck.extra['derivatives compared only at sample matrices'] = nf['not']
    return ck.finish('Symbolic matrices of shapes %s with the uncertainties distributed in %d ways over the elements, given in %d kinds of containers; matrices in general position, badly scaled, nearly singular and of lower rank.' % (sq + rect, len(HOW), len(CONT)),
                     ['numpy.linalg.inv() and pinv() return the inverse and the pseudo-inverse of arrays of floats, up to rounding'])
