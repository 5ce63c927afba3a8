"""C17: no exception escapes from the calculation of derivatives."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.engine import CT
from sa import field
from sa.field import samples, lits_hold, evalt, NoVal

ONE = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'gamma', 'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh']
TWO = ['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow']
OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '//': 'floordiv', '%': 'mod', '**': 'pow'}

STEP = 2.0 ** -26
POINTS = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 3.7, -3.7, 0.1, 10.0, 1e-320, -1e-320, 1e-200, -1e-200, 1e-160, 1e-108, 1e-8, 1e8, 1e16, 1e108, 1e155, -1e155, 1e200, -1e200, 1e308, -1e308, 1.7e308,
          -0.9999999999, 0.9999999999999999, -0.9999999999999999, 1.0000000000000002, 710.0, -710.0, 709.78, 710.4, 711.5, -745.0, 171.624376956, 171.6243, -1 / (1 + STEP), -1 / (1 - STEP), -2 / (1 + STEP), -2 / (1 - STEP),
          -170.5, 1e305, 2.5e305, 1e306, -1e-309, 5e-324, 26.0, 27.5]

def poss(l):
    r = []
    for a in l: r.append(a)
    return r

def run(tier):
    ck = Check('C17', tier, 'On every path of an operator or umath function on which the calculation of a derivative raises ValueError, ZeroDivisionError or OverflowError, that exception is caught '
               'inside the operation; an exception that leaves the operation comes from the calculation of the nominal value itself.',
               'abstract interpretation with may-raise effects of the primitive operations (exception-flow analysis); witnesses by evaluation of the path guards')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    e.exc_mode = True
    x, y = sym('x'), sym('y')

    def path_lists(lits, limit=4000):
        """The disjunction of conjunctions described by joined guards."""
        out = [()]
        for c, p in lits:
            if isinstance(c, CT):
                alts = []
                def walk(t, acc):
                    if len(alts) > limit: return
                    if t is True: (alts.append(acc) if p else None); return
                    if t is False: (alts.append(acc) if not p else None); return
                    walk(t[1], acc + ((t[0], True),)); walk(t[2], acc + ((t[0], False),))
                walk(c.tree, ())
                out = [a + b for a in out for b in alts]
            else: out = [a + ((c, p),) for a in out]
            if len(out) > limit: return None
        return out

    def analyse(name, op, nominal, term, pts, syms):
        """op(): the operation on numbers with uncertainties; nominal(): the
        same one on their nominal values; term: its value, for witnesses."""
        snap = e.snapshot()
        nom = w.attempt(nominal)
        bad_nom = []
        for o in nom:
            if o.kind == 'raise': bad_nom += path_lists(o.lits) or []
        e.restore(snap)
        outs = w.attempt(op)
        ok = True
        for o in outs:
            if o.kind != 'raise': continue
            exc = o.exc_name()
            site = e.obj(e.resolve(o.value)).site if isinstance(e.resolve(o.value), Ref) else None
            if exc not in ('ValueError', 'ZeroDivisionError', 'OverflowError', 'TypeError', 'AttributeError', 'IndexError', 'KeyError', 'UnboundLocalError', 'NameError') : continue
            paths = path_lists(o.lits)
            if paths is not None and bad_nom and all(any(set(poss(b)) <= set(poss(p)) or any(l in p for l in b[-1:]) for b in bad_nom) for p in paths): continue
            # a witness: the guards of the exception hold and the nominal value can be calculated
            hit = None
            und = False
            for p in pts:
                h = lits_hold(o.lits, p)
                if h is None: und = True
                if h is not True: continue
                try: v = evalt(term, p)
                except NoVal: continue
                if isinstance(v, complex): continue
                hit = (p, v); break
            if hit:
                ok = False
                ck.bad(name, '%s escapes although the value is %r; witness %s' % (exc, hit[1], {str(k): z for k, z in hit[0].items()}), site)
            elif not any(lits_hold(o.lits, p) for p in pts): continue        # never reached at any of the points
        if not any(o.kind == 'value' for o in outs):
            ck.und(name, 'no normal outcome'); ok = False
        if ok: ck.ok(name)
        for o in outs:
            if o.kind == 'value': return o
        return None

    def forced(res, args, kind):
        # reading the derivatives must not raise either
        if w.is_uncert(res) is True:
            for a, k in zip(args, kind):
                if k == 'U': w.deriv(res, a)
        return res

    def P1(rg=None): return [{x: a, y: 1.5} for a in POINTS if rg is None or rg.contains(a)]
    small = POINTS[:26] + [1e308, 5e-324]
    P2 = [{x: a, y: b} for a in small for b in small]
    N = 0
    for f in ONE + [t + '/2' for t in TWO]:
        two = f.endswith('/2')
        f = f.split('/')[0]
        try: F = w.ref('uncertainties.umath:' + f)
        except AnchorMissing: ck.bad('umath.%s' % f, 'not available'); continue
        for kind in (('UU', 'UF', 'FU') if two else ('U',)):
            name = 'umath.%s [%s]' % (f, kind)
            N += 1
            def go():
                a = w.var('x', FIN()) if kind[0] == 'U' else w.sym('x', FIN())
                args = [a]; ts = [x]
                if two: args.append(w.var('y', FIN()) if kind[1] == 'U' else w.sym('y', FIN())); ts.append(y)
                o = analyse(name, lambda: forced(w.call(F, *args), args, kind), lambda: w.call(Ext('math.' + f), *ts), T('math.' + f, *ts), P2 if two else P1(), ts)
            ck.obligation(w, name, go)

    for op, n in OPS.items():
        for kind in ('UU', 'UF', 'FU', 'UI', 'IU'):
            name = 'x %s y [%s]' % (op, kind)
            N += 1
            def go():
                def mk(k, nm, s):
                    if k == 'U': return w.var(nm, FIN()), sym(nm)
                    if k == 'F': return w.sym(nm, FIN()), sym(nm)
                    t = sym('k' + nm, 'int'); e.regions[t] = Rng(-math.inf, math.inf, False, False, int=True)
                    return t, t
                a, ta = mk(kind[0], 'x', x); b, tb = mk(kind[1], 'y', y)
                pts = [{ta: (int(p[x]) if kind[0] == 'I' else p[x]), tb: (int(p[y]) if kind[1] == 'I' else p[y])} for p in P2
                       if not (kind[0] == 'I' and abs(p[x]) > 1e17) and not (kind[1] == 'I' and abs(p[y]) > 1e17)]
                fa = ta if kind[0] != 'I' else T('float', ta)
                fb = tb if kind[1] != 'I' else T('float', tb)
                analyse(name, lambda: forced(w.op(op, a, b), (a, b), kind), lambda: w.op(op, fa, fb), T(n, fa, fb), pts, (ta, tb))
            ck.obligation(w, name, go)
    # the reflected special methods called by name (a subclass that has its own ones is asked first)
    for op, n in OPS.items():
        meth = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '//': '__rfloordiv__', '%': '__rmod__', '**': '__rpow__'}[op]
        for kind in ('UU', 'FU'):
            name = 'y.%s(x) [%s]' % (meth, kind)
            def go():
                a = w.var('x', FIN()) if kind[0] == 'U' else w.sym('x', FIN())
                b = w.var('y', FIN())
                analyse(name, lambda: forced(w.meth(b, meth, a), (a, b), kind), lambda: w.op(op, x, y), T(n, x, y), P2, (x, y))
            ck.obligation(w, name, go)
    for lab, fn in (('-x', lambda v: e.unary('-', v)), ('+x', lambda v: e.unary('+', v)), ('abs(x)', lambda v: w.call(Ext('builtins.abs'), v))):
        def go():
            v = w.var('x', FIN())
            analyse(lab, lambda: forced(fn(v), (v,), 'U'), lambda: fn(x), x, P1(), (x,))
        ck.obligation(w, lab, go)

    # functions with singular derivatives: the derivative is NaN
    e.exc_mode = False
    NANS = [('sqrt', (0.0,), (1,)), ('acos', (1.0,), (1,)), ('acos', (-1.0,), (1,)), ('asin', (1.0,), (1,)), ('asin', (-1.0,), (1,)), ('acosh', (1.0,), (1,)), ('hypot', (0.0, 0.0), (1, 2)),
            ('atan2', (0.0, 0.0), (1, 2)), ('pow', (0.0, 0.5), (1,)), ('pow', (0.0, 0.0), (2,)), ('pow', (-2.0, 2.0), (2,)), ('pow', (-2.0, 0.0), (2,)), ('pow', (-2.0, -3.0), (2,))]
    for f, c, which in NANS:
        for i in which:
            name = 'umath.%s%s: derivative with respect to argument %d is NaN' % (f, c, i)
            def go():
                vs = [w.var('v%d' % j, z) for j, z in enumerate(c)]
                r = w.value(lambda: w.call(w.ref('uncertainties.umath:' + f), *vs))
                ck.eq(w, name, w.value(lambda: w.deriv(r, vs[i - 1])), math.nan, pts=[{}])
            ck.obligation(w, name, go)
    ONAN = [('**', 0.0, 0.5, (1,)), ('**', 0.0, 0.0, (2,)), ('**', -2.0, 2.0, (2,)), ('**', -2.0, 0.0, (2,)), ('**', -2.0, -3.0, (2,)), ('**', -0.0, 0.5, (1,))]
    for op, a, b, which in ONAN:
        for i in which:
            for kind in ('UU', 'UF', 'FU'):
                if kind[i - 1] != 'U': continue
                name = '%r %s %r [%s]: derivative with respect to operand %d is NaN' % (a, op, b, kind, i)
                def go():
                    vs = [w.var('v%d' % j, z) if k == 'U' else z for j, (z, k) in enumerate(zip((a, b), kind))]
                    r = w.value(lambda: w.op(op, *vs))
                    ck.eq(w, name, w.value(lambda: w.deriv(r, vs[i - 1])), math.nan, pts=[{}])
                ck.obligation(w, name, go)
    # special values go through without any exception
    for f in ONE + [t + '/2' for t in TWO]:
        two = f.endswith('/2'); f = f.split('/')[0]
        sp = [math.inf, -math.inf, math.nan, 0.0, -0.0, 1.0, -1.0, 1e308, 5e-324, 1e200, -1e200]
        for a in sp:
            for b in (sp if two else [None]):
                c = (a,) if b is None else (a, b)
                try: v = getattr(math, f)(*c)
                except (ValueError, OverflowError, ZeroDivisionError): continue
                name = 'umath.%s%r' % (f, c)
                def go():
                    vs = [w.var('v%d' % j, z) for j, z in enumerate(c)]
                    r = w.value(lambda: w.call(w.ref('uncertainties.umath:' + f), *vs))
                    for z in vs: w.value(lambda: w.deriv(r, z))
                    w.value(lambda: w.get(r, 'std_dev'))
                    ck.ok(name)
                ck.obligation(w, name, go)
    ck.extra['operations'] = N
    return ck.finish('Every operator and umath function is interpreted abstractly on symbolic finite operands with the exceptions of every primitive operation (division, power, math functions, '
                     'conversions) followed; each exception that leaves the operation must be one of the nominal calculation.',
                     ['primitive operations raise only the exceptions Python documents'])
