"""C12: correlated_values() and correlated_values_norm()."""
import itertools, math, random
from sa.terms import *
from sa.report import Check, safe_msg
from sa import field

def jacobi(m):
    """Eigenvalues and eigenvectors (columns) of a symmetric matrix."""
    n = len(m); a = [list(r) for r in m]; v = [[float(i == j) for j in range(n)] for i in range(n)]
    for sweep in range(60):
        off = sum(abs(a[i][j]) for i in range(n) for j in range(n) if i != j)
        if off < 1e-300: break
        for p in range(n):
            for q in range(p + 1, n):
                if a[p][q] == 0: continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1)) if abs(th) < 1e150 else 0.0
                c = 1 / math.sqrt(t * t + 1); s = t * c
                for k in range(n): a[k][p], a[k][q] = c * a[k][p] - s * a[k][q], s * a[k][p] + c * a[k][q]
                for k in range(n): a[p][k], a[q][k] = c * a[p][k] - s * a[q][k], s * a[p][k] + c * a[q][k]
                for k in range(n): v[k][p], v[k][q] = c * v[k][p] - s * v[k][q], s * v[k][p] + c * v[k][q]
    o = sorted(range(n), key=lambda i: a[i][i])
    return [a[i][i] for i in o], [[v[k][i] for i in o] for k in range(n)]

def equi(n, c, delta=0.0):
    """Matrix with ones on the diagonal and c elsewhere, and its decomposition; delta is a rounding residue on the lowest eigenvalues."""
    if n == 1: return [[1.0]], [1.0], [[1.0]]
    m = [[1.0 if i == j else c for j in range(n)] for i in range(n)]
    vecs = []
    for k in range(1, n):
        r = math.sqrt(k * (k + 1)); vecs.append([1 / r] * k + [-k / r] + [0.0] * (n - k - 1))
    vecs.append([1 / math.sqrt(n)] * n)
    lam = [1 - c + delta] * (n - 1) + [1 + (n - 1) * c]
    return m, lam, [[vecs[i][k] for i in range(n)] for k in range(n)]

def run(tier):
    ck = Check('C12', tier, 'The quantities returned have the given nominal values, depend on new independent variables only, with one tag for each, and the sum over the variables of derivative x derivative x variance is the given covariance, '
               'for matrices in general position, (nearly) singular ones, negative rounding residues and zero standard deviations.',
               'abstract interpretation of correlated_values() and correlated_values_norm() on symbolic matrices, with the eigenvectors and eigenvalues as uninterpreted terms; the coefficients reached are compared in a normal form and evaluated with the spectral decomposition')
    w = ck.world(numpy=True)
    e = w.e
    e.exc_mode = True
    np = e.lib.npm()
    CV, CN = w.ref('uncertainties:correlated_values'), w.ref('uncertainties:correlated_values_norm')
    UF = w.ref('uncertainties:UFloat')
    LEN = Ext('builtins.len')
    rnd = random.Random(7)

    def holds(lits, p): return field.lits_hold(lits, p) is True if lits else True
    def ev(v, p):
        """Value of an abstract scalar at a point."""
        if isinstance(v, Ref): v = e.numify(v)
        for gl, leaf in leaves(v):
            if gl and field.lits_hold(gl, p) is not True: continue
            if isinstance(leaf, Ref): leaf = e.numify(leaf)
            if isinstance(leaf, (int, float)): return float(leaf)
            if not isinstance(leaf, Term): raise field.NoVal('not a number: %s' % show(leaf))
            return field.evalt(leaf, p)
        raise field.NoVal('no alternative holds')

    def decomp(terms, p, known):
        """Give values to the eigenvalues and eigenvectors among the subterms."""
        mats = []
        for t in terms:
            for s in subterms(t):
                if isinstance(s, Term) and s.op in ('eigval', 'eigvec') and not any(s.args[0] is m for m in mats): mats.append(s.args[0])
        for mk in mats:
            (n, _), items = mk
            m = [[ev(items[i * n + j], p) for j in range(n)] for i in range(n)]
            kd = None
            for km, kl, kv in known:
                if len(km) == n and all(abs(km[i][j] - m[i][j]) <= 4e-16 * max(1, abs(m[i][j])) for i in range(n) for j in range(n)): kd = kl, kv
            lam, vec = kd or jacobi(m)
            for i in range(n):
                p[T('eigval', mk, i)] = lam[i]
                for j in range(n): p[T('eigvec', mk, j, i)] = vec[j][i]
        return p

    def subterms_of(v, out):
        if isinstance(v, Ref): v = e.numify(v)
        for gl, leaf in leaves(v):
            for l in gl: out.append(l[0] if isinstance(l, tuple) else l)
            if isinstance(leaf, Ref): leaf = e.numify(leaf)
            if isinstance(leaf, Term): out.append(leaf)

    def subterms_in(v):
        out = []
        subterms_of(v, out)
        return [s for t in out if isinstance(t, Term) for s in subterms(t) if isinstance(s, Term)]

    def analyse(name, n, call, nominal, tags, points, want, known=()):
        """points: list of (env, S, M, lam, vec): S_j standard deviations, M correlation, lam/vec its decomposition (or None)."""
        outs = w.attempt(call)
        if not outs: ck.und(name, 'no outcome'); return
        raises = [o for o in outs if o.kind == 'raise']
        for pi, pt in enumerate(points):
            for o in raises:
                ts = [l[0] if isinstance(l, tuple) else l for l in o.lits]
                p = decomp([t for t in ts if isinstance(t, Term)], dict(pt[0]), known)
                try:
                    h = field.lits_hold(o.lits, p) if o.lits else True
                except field.NoVal: h = None
                if h is True:
                    o.enter()
                    wh = e.obj(o.value).site if isinstance(o.value, Ref) else None
                    ck.bad('%s: result' % name, 'raises %s (%s) for the matrix %s' % (o.exc_name(), safe_msg(o), pt[2]), wh); return
        vals = [o for o in outs if o.kind == 'value']
        if len(vals) != 1: ck.und(name, '%d outcomes' % len(vals)); return
        vals[0].enter()
        res = e.resolve(vals[0].value)
        its = list(res) if isinstance(res, tuple) else e.obj(res).items if e.is_kind(res, 'list') else np.els(res) if np.isarr(res) else None
        if its is None: ck.check(name + ': result', None if isinstance(res, (Unknown, Phi)) else False, 'not a sequence: %s' % show(res)); return
        its = [e.resolve(z) for z in its]
        if not ck.check(name + ': number of quantities', len(its) == n, '%d quantities instead of %d' % (len(its), n)): return
        for j, z in enumerate(its):
            if not ck.check('%s: type of quantity %d' % (name, j), e.isinstance_(z, UF), 'not a number with uncertainty: %s' % show(z)): return
            ck.eq(w, '%s: nominal value %d' % (name, j), w.value(lambda: w.get(z, 'nominal_value')), nominal[j], pts=[p[0] for p in points], extend=False)
        # the variables
        vs = []
        for z in its:
            for v in w.value(lambda: tuple(e.iterate(w.get(z, 'derivatives')))):
                v = e.resolve(v)
                if not isinstance(v, Ref): ck.und(name + ': variables', show(v)); return
                if not any(same(v, u) for u in vs): vs.append(v)
        old = [v for v in vs if v.a <= top[0]]
        ck.check(name + ': variables', not old, 'the quantities depend on %d existing variables' % len(old))
        D = [[w.value(lambda: w.deriv(z, v)) for v in vs] for z in its]
        S = [w.value(lambda: w.get(v, 'std_dev')) for v in vs]
        for v in vs:
            ck.eq(w, name + ': own derivative of the variables', w.value(lambda: w.deriv(v, v)), 1.0, pts=[points[0][0]])
            nn = w.value(lambda: w.call(LEN, w.get(v, 'derivatives')))
            ck.check(name + ': variables are independent', nn == 1 if isinstance(nn, int) else None, 'a variable depends on %s variables' % show(nn))
        got_tags = [e.resolve(w.value(lambda: w.get(v, 'tag'))) for v in vs]
        want_tags = list(tags) if tags is not None else [None] * len(vs)
        if any(isinstance(t, (Unknown, Phi, Term)) for t in got_tags): ck.und(name + ': tags', repr(got_tags))
        else:
            ck.check(name + ': tags', sorted(map(repr, got_tags)) == sorted(map(repr, want_tags)), 'the tags of the variables are %s instead of %s' % (got_tags, want_tags))
            # the i-th tag is that of the variable of the i-th eigenvalue
            for v, s, t in zip(vs, S, got_tags):
                idx = {x.args[1] for x in subterms_in(s) if x.op == 'eigval'}
                if len(idx) == 1:
                    i = idx.pop()
                    ck.check('%s: tag of the variable of eigenvalue %d' % (name, i), repr(t) == repr(want_tags[i]), 'the tag is %r instead of %r, in the list %s' % (t, want_tags[i], want_tags))
        # normal form: sum of d_j d_k sigma^2 is s_j s_k sum of vec_ji vec_ki lambda_i
        proved = False
        terms = []
        for r in D + [S]:
            for x in r: subterms_of(x, terms)
        mats = []
        for t in terms:
            for s in subterms(t):
                if isinstance(s, Term) and s.op == 'eigval' and not any(s.args[0] is m for m in mats): mats.append(s.args[0])
        allbad = None; nev = 0
        for env, sd, M, lam, vec in points:
            try:
                p = decomp(terms, dict(env), known)
                dn = [[ev(x, p) for x in r] for r in D]; sn = [ev(x, p) for x in S]
            except (field.NoVal, ZeroDivisionError, OverflowError, ValueError) as x: ck.und(name + ': covariances', 'not evaluated: %s' % x); continue
            nev += 1
            if any(not (x >= 0) for x in sn): ck.bad(name + ': standard deviations of the variables', 'a standard deviation is %s' % min(sn)); return
            # combinations along the eigenvectors of the correlation matrix: variance lambda
            live = [j for j in range(n) if sd[j] != 0]
            for a in range(n):
                for b in range(a, n):
                    c = sum(dn[a][i] * dn[b][i] * sn[i] ** 2 for i in range(len(vs)))
                    g = sd[a] * sd[b] * M[a][b]
                    if not abs(c - g) <= 1e-7 * max(sd[a] * sd[b], 1e-300) and not abs(c - g) <= 1e-14 * 0:
                        ck.bad('%s: covariance (%d, %d)' % (name, a, b), 'the covariance is %r instead of %r for standard deviations %s and correlation matrix %s' % (c, g, sd, M), (terms[0].site if terms and isinstance(terms[0], Term) else None)); return
            if lam is None or len(live) < n: continue
            # negative rounding residues are set to zero: as many variables do not contribute
            neg = sum(1 for l in lam if l < 0)
            contributing = sum(1 for m in range(len(vs)) if sn[m] != 0 and any(dn[j][m] != 0 for j in range(n)))
            if not ck.check('%s: contributing variables' % name, contributing <= n - neg, '%d variables contribute for the eigenvalues %s: negative rounding residues are not set to zero' % (contributing, lam)): return
            for i in range(n):
                for k in range(i, n):
                    zi = [sum(vec[j][i] * dn[j][m] / sd[j] for j in range(n)) for m in range(len(vs))]
                    zk = [sum(vec[j][k] * dn[j][m] / sd[j] for j in range(n)) for m in range(len(vs))]
                    c = sum(zi[m] * zk[m] * sn[m] ** 2 for m in range(len(vs)))
                    g = max(lam[i], 0.0) if i == k else 0.0
                    if not abs(c - g) <= 1e-6 * max(math.sqrt(abs(lam[i] * lam[k])), 0) + 3e-15:
                        ck.bad('%s: variance along an eigenvector' % name, 'the variance of the combination along an eigenvector with eigenvalue %r is %r (correlation matrix %s)' % (lam[i], c, M)); return
        if nev: ck.ok(name + ': covariances', '%d matrices' % nev)
        else: ck.und(name + ': covariances')
        # proof in normal form, with the matrix that is decomposed
        if len(mats) == 1 and want is not None:
            mk = mats[0]
            fl = field.Field()
            try:
                for j in range(n):
                    for k in range(n):
                        x = mk[1][j * n + k]
                        v, why = field.equal(x, want['corr'][j][k], [p[0] for p in points][:6])
                        if v != 'equal': raise field.NoField('matrix: %s' % why)
                pos = [(T('lt', T('eigval', mk, i), 0, ty='bool'), False) for i in range(n)]
                posenv = dict(points[0][0]); decomp(terms, posenv, known)
                for i in range(n):
                    if posenv[T('eigval', mk, i)] <= 0: posenv[T('eigval', mk, i)] = 0.5
                def pick(v):
                    if isinstance(v, Ref): v = e.numify(v)
                    for gl, leaf in leaves(v):
                        if not gl or field.lits_hold(gl, posenv) is True: return e.numify(leaf) if isinstance(leaf, Ref) else leaf
                    raise field.NoField('no alternative')
                for j in range(n):
                    for k in range(j, n):
                        acc = want_ = None
                        for m in range(len(vs)):
                            t = T('mul', T('mul', pick(D[j][m]), pick(D[k][m])), T('pow', pick(S[m]), 2))
                            acc = t if acc is None else T('add', acc, t)
                            t = T('mul', T('mul', T('eigvec', mk, j, m), T('eigvec', mk, k, m)), T('eigval', mk, m))
                            want_ = t if want_ is None else T('add', want_, t)
                        want_ = T('mul', T('mul', want['sd'][j], want['sd'][k]), want_)
                        v, why = field.equal(acc, want_, [])
                        ck.check('%s: covariance (%d, %d) in normal form' % (name, j, k), True if v == 'equal' else None, why)
            except (field.NoField, field.NoVal, KeyError, RecursionError) as x: ck.und(name + ': covariances in normal form', 'not shown: %s' % x)

    top = [0]
    def syms(n): return [w.sym('n%d' % j) for j in range(n)]
    def decomposed(n):
        """Correlation matrices with their decompositions."""
        out = [equi(n, c) for c in ((0.0,) if n == 1 else (0.5, 0.0, -0.3 if n < 4 else -0.2, 1 - 1e-11, 1.0, 1 - 1e-7))]
        out += [equi(n, 1.0, d) for d in (-1e-17, -3e-16, 1e-17)] if n > 1 else []
        return out
    def psd(n, rank):
        a = [[rnd.gauss(0, 1) for _ in range(rank)] for _ in range(n)]
        c = [[sum(x * y for x, y in zip(a[i], a[j])) for j in range(n)] for i in range(n)]
        s = [math.sqrt(c[i][i]) for i in range(n)]
        return [[1.0 if i == j else c[i][j] / s[i] / s[j] for j in range(n)] for i in range(n)]
    scales = [[1.0, 1.0, 1.0, 1.0], [0.3, 20.0, 1.7, 4.0], [1e-6, 1e5, 3.0, 0.01]]
    def points(n, cov, zero=()):
        pts, known = [], []
        mats = [(m, l, v) for m, l, v in decomposed(n)] + [(psd(n, n), None, None) for _ in range(4)] + [(psd(n, max(n - 1, 1)), None, None) for _ in range(2)]
        for i, (m, l, v) in enumerate(mats):
            for sc in (scales if i < 2 else scales[i % 3:i % 3 + 1]):
                sd = [0.0 if j in zero else sc[j] for j in range(n)]
                env = {sym('n%d' % j): 0.37 * j - 1.3 for j in range(n)}
                mm = [[0.0 if (a in zero or b in zero) else m[a][b] for b in range(n)] for a in range(n)]
                for a in range(n):
                    env[sym('s%d' % a)] = sd[a]
                    for b in range(n):
                        q = m[min(a, b)][max(a, b)]
                        env[sym('c%d%d' % (min(a, b), max(a, b)))] = sd[a] * sd[b] * q if cov else q
                if zero: l = v = None
                pts.append((env, sd, mm, l, v))
                if l is not None: known.append((m, l, v))
        # points with the same matrix but another residue need their own decomposition
        return pts, known
    cont = {'array': lambda rows: np.asarr(e.new_list([e.new_list(r) for r in rows])), 'list of lists': lambda rows: e.new_list([e.new_list(r) for r in rows]), 'tuple of tuples': lambda rows: tuple(tuple(r) for r in rows)}
    seqs = {'list': lambda l: e.new_list(l), 'tuple': lambda l: tuple(l), 'array': lambda l: np.asarr(e.new_list(l))}
    tagsets = {'none': lambda n: None, 'list': lambda n: ['t%d' % i for i in range(n)], 'tuple': lambda n: ['t%d' % i for i in range(n)], 'same': lambda n: ['t'] * n, 'empty texts': lambda n: [''] * n, 'some None': lambda n: ['t'] + [None] * (n - 1), 'unordered': lambda n: ['z', 'B', 'a', 'M'][:n]}
    sizes = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for n in sizes:
        for fn in ('correlated_values', 'correlated_values_norm'):
            cov = fn == 'correlated_values'
            for cl, cf in cont.items():
                for sl, sf in seqs.items():
                    for tl, tf in tagsets.items():
                        if (cl, sl) != ('array', 'list') and tl not in ('none', 'list') or n == 3 and (cl, sl) != ('array', 'list') and tl != 'list': continue
                        groups = {}
                        pts, known = points(n, cov)
                        # one analysis; evaluation for each decomposition of a matrix
                        name = '%s, %d values (%s), matrix as %s, tags: %s' % (fn, n, sl, cl, tl)
                        def go():
                            top[0] = e.naddr
                            nom = syms(n)
                            C = [[w.sym('c%d%d' % (min(a, b), max(a, b)), (POS() if cov and a == b else FIN())) for b in range(n)] for a in range(n)]
                            sd = [w.sym('s%d' % a, POS()) for a in range(n)]
                            tags = tf(n)
                            ta = None if tags is None else tuple(tags) if tl == 'tuple' else e.new_list(tags)
                            if cov:
                                call = lambda: w.call(CV, sf(nom), cf(C)) if ta is None else w.call(CV, sf(nom), cf(C), ta) if tl == 'list' else w.call(CV, sf(nom), cf(C), tags=ta)
                                rt = [T('math.sqrt', C[a][a]) for a in range(n)]
                                want = {'sd': rt, 'corr': [[T('div', T('div', C[a][b], rt[b]), rt[a]) for b in range(n)] for a in range(n)]}
                            else:
                                for a in range(n): C[a][a] = 1.0
                                pairs = lambda: sf([(a, b) for a, b in zip(nom, sd)]) if sl != 'array' else np.asarr(e.new_list([e.new_list([a, b]) for a, b in zip(nom, sd)]))
                                call = lambda: w.call(CN, pairs(), cf(C)) if ta is None else w.call(CN, pairs(), cf(C), ta) if tl == 'list' else w.call(CN, pairs(), cf(C), tags=ta)
                                want = {'sd': sd, 'corr': C}
                            w.attempt(lambda: None)
                            # decompositions: those of one matrix are examined one after the other
                            seen = []
                            for i in range(0, len(pts)):
                                pass
                            analyse(name, n, call, nom, tags, [p for p in pts if not residue(p)], want, [k for k in known if not residue_l(k[1])])
                        ck.obligation(w, name, go)
                        if (cl, sl) == ('array', 'list') and tl in ('none', 'list'):
                            for p in [p for p in pts if residue(p)]:
                                nm = '%s, rounding residue %r' % (name, p[3][0])
                                def go():
                                    top[0] = e.naddr
                                    nom = syms(n)
                                    C = [[w.sym('c%d%d' % (min(a, b), max(a, b)), (POS() if cov and a == b else FIN())) for b in range(n)] for a in range(n)]
                                    sd = [w.sym('s%d' % a, POS()) for a in range(n)]
                                    if not cov:
                                        for a in range(n): C[a][a] = 1.0
                                    tags = tf(n); ta = None if tags is None else e.new_list(tags)
                                    call = (lambda: w.call(CV, e.new_list(nom), cf(C), ta)) if cov else (lambda: w.call(CN, e.new_list([(a, b) for a, b in zip(nom, sd)]), cf(C), ta))
                                    analyse(nm, n, call, nom, tags, [p], None, [(p[2], p[3], p[4])])
                                ck.obligation(w, nm, go)
            # zero standard deviations
            for zero in [z for r in range(1, n + 1) for z in itertools.combinations(range(n), r)]:
                name = '%s, %d values, zero standard deviations at %s' % (fn, n, list(zero))
                def go():
                    top[0] = e.naddr
                    nom = syms(n)
                    C = [[0.0 if a in zero or b in zero else w.sym('c%d%d' % (min(a, b), max(a, b)), (POS() if cov and a == b else FIN())) for b in range(n)] for a in range(n)]
                    sd = [0.0 if a in zero else w.sym('s%d' % a, POS()) for a in range(n)]
                    pts, _ = points(n, cov, zero)
                    tags = ['t%d' % i for i in range(n)]
                    if cov: call = lambda: w.call(CV, e.new_list(nom), cont['array'](C), e.new_list(tags))
                    else:
                        for a in range(n): C[a][a] = 1.0
                        call = lambda: w.call(CN, e.new_list([(a, b) for a, b in zip(nom, sd)]), cont['array'](C), e.new_list(tags))
                    analyse(name, n, call, nom, tags, pts, None)
                ck.obligation(w, name, go)
    # two calls give independent quantities; the covariance function of the package agrees
    for fn in ('correlated_values', 'correlated_values_norm'):
        def go():
            n = 2; cov = fn == 'correlated_values'
            nom = syms(n); C = [[w.sym('c%d%d' % (min(a, b), max(a, b)), (POS() if cov and a == b else FIN())) for b in range(n)] for a in range(n)]
            sd = [w.sym('s%d' % a, POS()) for a in range(n)]
            if not cov: C[0][0] = C[1][1] = 1.0
            m = cont['array'](C); l = e.new_list(nom) if cov else e.new_list([(a, b) for a, b in zip(nom, sd)])
            e.exc_mode = False
            try: r = [e.resolve(w.value(lambda: w.call(CV if cov else CN, l, m))) for i in range(2)]
            finally: e.exc_mode = True
            for j, k in itertools.product(range(n), repeat=2):
                a, b = [tuple(w.value(lambda: tuple(e.iterate(w.get(x, 'derivatives'))))) for x in (r[0][j], r[1][k])]
                ck.check('%s called twice: common variables of %d and %d' % (fn, j, k), not any(same(e.resolve(x), e.resolve(y)) for x in a for y in b), 'the quantities of two calls share variables')
        ck.obligation(w, fn + ' called twice', go)
    return ck.finish('Matrices of sizes %s with symbolic elements given as arrays, lists and tuples; evaluation at correlation matrices in general position, singular, nearly singular (eigenvalue 1e-11) and with negative rounding residues; every subset of zero standard deviations.' % (sizes,),
                     ['numpy.linalg.eigh() returns the eigenvalues and orthonormal eigenvectors of its argument, up to rounding'])

def residue_l(l): return l is not None and l[0] != 0 and abs(l[0]) < 1e-15
def residue(p): return residue_l(p[3])
