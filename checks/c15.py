"""C15: plain numbers go through the wrapped functions unchanged."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.engine import Native
from sa.fx import ends
from sa.field import samples, lits_hold
from checks.c17 import ONE, TWO

def run(tier):
    ck = Check('C15', tier, 'A wrapped function called without numbers with uncertainty calls the original exactly once with the very same arguments and returns its result itself; '
               'umath functions of plain numbers give the result, the result type and the exceptions of the math functions.',
               'abstract interpretation with recorded calls of opaque functions (identity of arguments and results)')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    wrap = w.ref('uncertainties:wrap')
    MARK = object()

    # ------------------------------------------------------------ wrap()
    def objs():
        """Arguments that are not numbers with uncertainty."""
        return {'float': w.sym('c'), 'int': 3, 'negative int': -7, 'bool': True, 'None': None, 'string': 'text', 'list': e.new_list([1.0, 2.0]), 'tuple': (1, 2), 'NaN': math.nan, 'complex': 1j,
                'dict': e.new_dict([('a', 1)]), 'zero': 0, 'inf': math.inf}
    derivs = {'none given': lambda: [], 'derivatives list': lambda: [e.new_list([Native(lambda *a, **k: 1.0, 'd')] * 3)], 'partial list': lambda: [e.new_list([None, Native(lambda *a, **k: 1.0, 'd')])],
              'iterator': lambda: [w.call(Ext('builtins.iter'), e.new_list([Native(lambda *a, **k: 1.0, 'd')] * 2))],
              'keyword derivatives': lambda: [e.new_list([]), e.new_dict([('k', Native(lambda *a, **k: 1.0, 'd')), ('m', None)])]}
    results = {'float': lambda: w.sym('res'), 'int': lambda: 5, 'list': lambda: e.new_list([1, 2]), 'None': lambda: None, 'string': lambda: 'result', 'tuple': lambda: (1.0, None), 'bool': lambda: False, 'zero': lambda: 0}
    shapes = [('no argument', (), {}), ('one positional', ('float',), {}), ('integer', ('int',), {}), ('three positional', ('float', 'string', 'None'), {}), ('keyword', (), {'k': 'float'}), ('mixed', ('int', 'list'), {'k': 'float', 'm': 'tuple'}),
              ('NaN', ('NaN',), {}), ('containers', ('list', 'dict', 'tuple'), {'z': 'list'}), ('complex', ('complex',), {}), ('zeros', ('zero', 'float'), {'k': 'zero'}), ('inf', ('inf', 'bool'), {'k': 'None'})]
    for dl, dv in derivs.items():
        for rl, rs in results.items():
            for sl, pos, kw in shapes:
                if rl not in ('float', 'list') and sl not in ('one positional', 'mixed', 'keyword'): continue
                name = 'wrap() with %s; %s; result of type %s' % (dl, sl, rl)
                def go():
                    o = objs()
                    ret = rs()
                    calls = []
                    def f(*a, **k):
                        calls.append((a, dict(k)))
                        return ret
                    g = w.value(lambda: w.call(wrap, Native(f, 'f'), *dv()))
                    n0 = len(calls)
                    a = [o[p] for p in pos]; k = {n: o[v] for n, v in kw.items()}
                    before = snapshot_values(e, o)
                    got = w.value(lambda: w.call(g, *a, **k))
                    new = calls[n0:]
                    if len(new) != 1:
                        ck.bad(name, 'the original function is called %d times' % len(new)); return
                    ca, ckw = new[0]
                    if len(ca) != len(a) or any(not ident(x, y) for x, y in zip(ca, a)):
                        ck.bad(name, 'the positional arguments received by the original function are %r instead of %r' % (ca, a)); return
                    if set(ckw) != set(k) or any(not ident(ckw[n], k[n]) for n in k):
                        ck.bad(name, 'the keyword arguments received by the original function are %r instead of %r' % (ckw, k)); return
                    if not ident(got, ret):
                        (ck.und if isinstance(got, Unknown) else ck.bad)(name, 'the result is %r instead of that of the function, %r' % (got, ret)); return
                    if snapshot_values(e, o) != before:
                        ck.bad(name, 'an argument is modified'); return
                    ck.ok(name)
                ck.obligation(w, name, go)
    for exc in ('ValueError', 'TypeError', 'ZeroDivisionError', 'OverflowError', 'KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'NotImplementedError'):
        for dl in ('none given', 'derivatives list', 'keyword derivatives'):
            name = 'wrap() with %s: %s of the original function' % (dl, exc)
            def go():
                def f(*a, **k): e.raise_(exc, 'from f')
                g = w.value(lambda: w.call(wrap, Native(f, 'f'), *derivs[dl]()))
                ends(ck, w, name, lambda: w.call(g, w.sym('c')), exc)
            ck.obligation(w, name, go)
            name2 = name + ' (keyword call)'
            def go():
                def f(*a, **k): e.raise_(exc, 'from f')
                g = w.value(lambda: w.call(wrap, Native(f, 'f'), *derivs[dl]()))
                ends(ck, w, name2, lambda: w.call(g, k=w.sym('c')), exc)
            ck.obligation(w, name2, go)
    # a call with plain numbers after a call with numbers with uncertainty
    name = 'plain call after a call with an uncertainty'
    def go():
        calls = []
        def f(*a, **k):
            calls.append((a, dict(k))); return a[0]
        g = w.value(lambda: w.call(wrap, Native(f, 'f')))
        w.value(lambda: w.call(g, w.var('x'), k=w.var('y')))
        c = w.sym('c')
        n0 = len(calls)
        got = w.value(lambda: w.call(g, c, k=2))
        ck.check(name, got is c and len(calls) == n0 + 1 and calls[-1] == ((c,), {'k': 2}), 'calls: %r, result %r' % (calls[n0:], got))
    ck.obligation(w, name, go)

    # ------------------------------------------------------------ umath
    x, y = sym('x'), sym('y')
    kx = sym('k', 'int')
    def outcome_key(w, outs):
        vals, excs = [], {}
        for o in outs:
            if o.kind == 'value': vals.append(o)
            else: excs.setdefault(o.exc_name(), []).append(o)
        return vals, excs
    def same_ends(name, f, args, pts):
        """umath.f(*args) ends like math.f(*args)."""
        snap = e.snapshot()
        ref = w.attempt(lambda: w.call(Ext('math.' + f), *args))
        F = w.ref('uncertainties.umath:' + f)
        rv, rx = outcome_key(w, ref)
        rvv = [(o.value, o.lits) for o in rv]; rxx = {n: [o.lits for o in l] for n, l in rx.items()}
        e.restore(snap)
        got = w.attempt(lambda: w.call(F, *args))
        gv, gx = outcome_key(w, got)
        good = True
        for n in set(gx) | set(rxx):
            for p in pts:
                a = any(lits_hold(o.lits, p) is True for o in gx.get(n, []))
                b = any(lits_hold(l, p) is True for l in rxx.get(n, []))
                unknown = any(lits_hold(o.lits, p) is None for o in gx.get(n, [])) or any(lits_hold(l, p) is None for l in rxx.get(n, []))
                if a != b and not unknown:
                    good = False
                    ck.bad(name, '%s %s the math function at %s' % (n, 'is raised, unlike' if a else 'is not raised, unlike', {str(q): z for q, z in p.items()}))
                    break
        if len(gv) != len(rvv):
            if not gv and rvv and not any(rx): ck.bad(name, 'no result')
            good = False if len(gv) != len(rvv) and good and False else good
        if gv and rvv:
            gv[0].enter()
            v, r = gv[0].value, rvv[0][0]
            if same_result(v, r): pass
            else:
                iu = w.is_uncert(v)
                if iu is True: ck.bad(name, 'the result is a number with uncertainty'); good = False
                elif isinstance(v, Unknown): ck.und(name, 'unknown result'); good = False
                elif type_of(v) and type_of(r) and type_of(v) != type_of(r): ck.bad(name, 'the result %s has type %s instead of %s' % (show(v), type_of(v), type_of(r))); good = False
                elif concrete(v) and concrete(r): ck.bad(name, 'the result is %r instead of %r' % (v, r)); good = False
                elif isinstance(r, tuple) and isinstance(v, tuple) and len(r) == len(v):
                    for i in range(len(r)): ck.eq(w, name + '[%d]' % i, v[i], r[i], pts=pts)
                else: ck.eq(w, name, v, r, pts=pts)
        if good: ck.ok(name)

    e.exc_mode = True
    P1 = [{x: a, y: b, kx: k} for a, b, k in zip([0.3, 1.0, -1.0, 0.0, 2.5, -2.5, 800.0, -800.0, 1e200, -0.2, 5.0, 1e-310], [1.5, 0.0, -2.0, 1.0, 3.0, 0.5, -0.5, 2.0, 1e200, -1.0, 1.0, 0.0], [1, 0, -1, 2, 5, -5, 30, -30, 3, 4, 7, 1])]
    P1 += [{x: p[x], y: q[y], kx: p[kx]} for p in P1 for q in P1]
    kinds = {'float': (x, FIN()), 'int': (kx, Rng(-math.inf, math.inf, False, False, int=True))}
    for f in ONE + ['ceil', 'floor', 'trunc', 'isnan', 'isinf', 'modf', 'frexp']:
        try: w.ref('uncertainties.umath:' + f)
        except AnchorMissing: ck.bad('umath.' + f, 'not available'); continue
        for kl, (t, r) in kinds.items():
            name = 'umath.%s(%s)' % (f, kl)
            def go():
                e.regions[t] = r
                same_ends(name, f, [t], P1)
            ck.obligation(w, name, go)
        for c in (0, 1, -1, 3, True, 0.0, -0.0, 2.5, -2.5, math.inf, -math.inf, math.nan, 10 ** 30, 1e308):
            name = 'umath.%s(%r)' % (f, c)
            def go(): same_ends(name, f, [c], [{}])
            ck.obligation(w, name, go)
    for f in TWO:
        for kl in ('ff', 'fi', 'if'):
            name = 'umath.%s(%s)' % (f, kl)
            def go():
                a = []
                for ch, s in zip(kl, (x, y)):
                    t = kx if ch == 'i' else s
                    e.regions[t] = kinds['int'][1] if ch == 'i' else FIN()
                    a.append(t)
                same_ends(name, f, a, P1)
            ck.obligation(w, name, go)
        for c in ((0, 0), (2, 3), (1.0, 0.0), (0.0, -1.0), (math.inf, 1.0), (2, math.nan), (-2, 0.5), (8, 2)):
            name = 'umath.%s%r' % (f, c)
            def go(): same_ends(name, f, list(c), [{}])
            ck.obligation(w, name, go)
    for c in ((2.5, 3), (3, 2), (0.0, 5), (-1.5, -2), (math.inf, 2), (1, 0)):
        name = 'umath.ldexp%r' % (c,)
        ck.obligation(w, name, lambda: same_ends(name, 'ldexp', list(c), [{}]))
    name = 'umath.ldexp(x, k)'
    def go():
        e.regions[x] = FIN(); e.regions[kx] = kinds['int'][1]
        same_ends(name, 'ldexp', [x, kx], P1)
    ck.obligation(w, name, go)
    for c in (0, 1, 5, 20, -1):
        name = 'umath.factorial(%r)' % c
        ck.obligation(w, name, lambda: same_ends(name, 'factorial', [c], [{}]))
    # calls that the math functions refuse
    def refused(name, f, args, kw):
        F = w.ref('uncertainties.umath:' + f)
        outs = w.attempt(lambda: w.call(F, *args, **kw))
        if not outs: ck.und(name, 'no outcome')
        for o in outs:
            o.enter()
            if o.kind == 'raise': ck.check(name, o.exc_name() == 'TypeError' or None, 'raises %s' % o.exc_name())
            elif o.lits or isinstance(o.value, Unknown): ck.und(name, 'accepted')
            else: ck.bad(name, 'the call is accepted, and gives %s, instead of the TypeError of math.%s()' % (show(o.value), f))
    for f in ONE + ['ceil', 'floor', 'trunc', 'isnan', 'isinf', 'modf', 'frexp', 'factorial', 'fsum'] + TWO + ['ldexp']:
        try: w.ref('uncertainties.umath:' + f)
        except AnchorMissing: continue
        ok = (2.5, 3) if f == 'ldexp' else (0.25, 2.0) if f in TWO else (3,) if f == 'factorial' else ((0.25, 0.5),) if f == 'fsum' else (0.25,)
        for lab, a, kw in (('no argument', (), {}), ('keyword argument', ok, {'x': 1.0}), ('keyword only', (), {'x': 0.25}), ('unknown keyword', ok, {'no_such_argument': None}), ('too many arguments', ok + (2.0, 2.0), {}),
                           ('one argument too many', ok + (2.0,), {}), ('text', ('0.25',) + ok[1:], {}), ('None', (None,) + ok[1:], {}), ('list', ([0.25],) + ok[1:], {}), ('complex', (1j,) + ok[1:], {})):
            if lab == 'one argument too many' and f == 'log' or lab == 'list' and f == 'fsum' or lab == 'keyword only' and f in ('modf', 'frexp') or lab in ('text', 'None', 'list') and f in ('modf', 'frexp', 'ldexp') or f == 'hypot' and lab in ('no argument', 'too many arguments', 'one argument too many'): continue
            if lab == 'text' and f == 'fsum': a = ('text',)
            name = 'umath.%s(), %s' % (f, lab)
            ck.obligation(w, name, lambda: refused(name, f, [e.new_list(x) if isinstance(x, list) else x for x in a], kw))
    for f, a in (('ldexp', (2.0, 1.5)), ('ldexp', (2, 3.0)), ('ldexp', (0.0, 0.0)), ('ldexp', (2.0, None)), ('ldexp', (2.0, '3')), ('ldexp', (2.0, math.nan)), ('ldexp', (2.0, 1j)), ('factorial', (2.5,)), ('factorial', (3.0,)), ('factorial', ('3',)),
                 ('atan2', (0.25, None)), ('copysign', (0.25, '1')), ('fmod', (0.25, 1j)), ('pow', (0.25, '2')), ('log', (0.25, None)) , ('log', (0.25, '10')), ('fsum', (3.0,)), ('fsum', ((1.0, '2'),))):
        try: w.ref('uncertainties.umath:' + f)
        except AnchorMissing: continue
        name = 'umath.%s%r' % (f, a)
        ck.obligation(w, name, lambda: refused(name, f, list(a), {}))
    for lab, l in (('[]', []), ('[x, y]', [x, y]), ('[1, 2.5]', [1, 2.5]), ('[0.1] * 10', [0.1] * 10), ('[inf]', [math.inf]), ('[3]', [3])):
        for form in ('list', 'tuple'):
            name = 'umath.fsum(%s as a %s)' % (lab, form)
            def go():
                for t in (x, y): e.regions[t] = FIN()
                same_ends(name, 'fsum', [e.new_list(l) if form == 'list' else tuple(l)], P1)
            ck.obligation(w, name, go)
    return ck.finish('wrap() is interpreted with opaque functions over call shapes, argument types and result types; the umath functions are compared with the math functions on symbolic floats '
                     'and integers (with exception flow) and on special values.', [])

def concrete(v): return isinstance(v, (bool, int, float, str)) or isinstance(v, tuple) and all(concrete(x) for x in v)

def type_of(v):
    if isinstance(v, bool): return 'bool'
    if isinstance(v, (int, float, str)): return type(v).__name__
    if isinstance(v, tuple): return 'tuple'
    if isinstance(v, Term) and v.ty in ('float', 'int', 'bool'): return v.ty
    return None

def same_result(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b: return True
    if type(a) is not type(b): return False
    if isinstance(a, tuple): return len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a == b: return math.copysign(1, a) == math.copysign(1, b)
    return a is b or (not isinstance(a, (Term, Phi, Ref)) and a == b) or same(a, b)

def ident(a, b):
    if isinstance(a, Ref) or isinstance(b, Ref): return same(a, b)
    return same_result(a, b)

def snapshot_values(e, o):
    out = []
    for k, v in o.items():
        if isinstance(v, Ref):
            ob = e.obj(v)
            out.append((k, tuple(ob.items) if ob.items is not None else None, tuple(ob.d.items()) if ob.d is not None else None))
    return out
