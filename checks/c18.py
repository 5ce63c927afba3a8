"""C18: conversions to plain numbers are refused."""
import math
from sa.terms import *
from sa.report import Check, feasible
from sa.world import AnchorMissing
from sa.engine import Native
from sa.fx import ends

def run(tier):
    ck = Check('C18', tier, 'int(), float() and complex() of every kind of number with uncertainty raise TypeError on every path, with a message that names the requested type and the class of the number.',
               'abstract interpretation of the conversion methods (exception-flow analysis, constant propagation of the messages)')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath'))
    e = w.e
    wrap = w.ref('uncertainties.core:wrap')
    B = lambda n: Ext('builtins.' + n)
    def calc():
        w.sym('d')
        g = w.call(wrap, Native(lambda *a: w.sym('x'), 'f'), e.new_list([Native(lambda *a: w.sym('d'), 'd')]))
        return w.call(g, w.var('v'))
    kinds = {
        'variable': lambda: w.var('x'), 'exact variable': lambda: w.var('x', sigma=0.0), 'variable of value zero': lambda: w.var('x', 0.0), 'variable of integer value': lambda: w.var('x', 3),
        'tagged variable': lambda: w.var('x', tag='a tag'), 'calculated quantity': calc, 'sum of variables': lambda: w.op('+', w.var('x'), w.var('y')),
        'quantity without variable': lambda: w.op('-', *([w.var('x')] * 2)), 'NaN variable': lambda: w.var('x', math.nan), 'infinite variable': lambda: w.var('x', math.inf),
        'function result': lambda: w.call(w.ref('uncertainties.umath:sin'), w.var('x')), 'variable with NaN uncertainty': lambda: w.var('x', sigma=math.nan),
    }
    try:
        conv = w.ref('uncertainties.core:to_affine_scalar')
        kinds['constant'] = lambda: w.call(conv, 2)
        kinds['symbolic constant'] = lambda: w.call(conv, w.sym('c'))
    except AnchorMissing: pass
    for kl, mk in kinds.items():
        for t in ('int', 'float', 'complex'):
            for form in ('call', 'method'):
                name = '%s(%s)%s' % (t, kl, ' through __%s__()' % t if form == 'method' else '')
                def go():
                    v = w.value(mk)
                    cls = e.getattr_(e.type_of(v), '__name__')
                    f = (lambda: w.call(B(t), v)) if form == 'call' else (lambda: w.meth(v, '__%s__' % t))
                    def after(o):
                        if o.kind != 'raise' or o.exc_name() != 'TypeError': return
                        msg = o.exc_msg()
                        if not isinstance(msg, str):
                            ck.und(name + ': message', 'symbolic message'); return
                        words = set(re_words(msg))
                        if t not in words or any(u in words for u in ('int', 'float', 'complex') if u != t):
                            ck.bad(name + ': message', 'the message does not name the requested type %s: %r' % (t, msg)); return
                        if cls not in words:
                            ck.bad(name + ': message', 'the message does not name the class of the number: %r' % msg); return
                        ck.ok(name + ': message')
                    ends(ck, w, name, f, 'TypeError', after)
                ck.obligation(w, name, go)
    # functions of the math module and others that need a plain number refuse as well
    for lab, f in (('math.sin', lambda v: w.call(Ext('math.sin'), v)), ('math.sqrt', lambda v: w.call(Ext('math.sqrt'), v)), ('math.atan2', lambda v: w.call(Ext('math.atan2'), v, 1.0)), ('math.fsum', lambda v: w.call(Ext('math.fsum'), e.new_list([v])))):
        for kl in ('variable', 'calculated quantity', 'exact variable'):
            name = '%s(%s)' % (lab, kl)
            def go():
                v = w.value(kinds[kl])
                ends(ck, w, name, lambda: f(v), 'TypeError')
            ck.obligation(w, name, go)
    # no other conversion to an integer
    for kl, mk in kinds.items():
        name = '%s: conversion to an index' % kl
        def go():
            v = w.value(mk)
            m = e.class_lookup(e.type_of(v), '__index__')
            if m is None: ck.ok(name); return
            ends(ck, w, name, lambda: w.meth(v, '__index__'), 'TypeError')
        ck.obligation(w, name, go)
    # no other conversion to a plain number: round(), floor(), ceil(), trunc() and divmod() refuse, or give a number with uncertainty
    UF = w.ref('uncertainties.core:AffineScalarFunc')
    OTHERS = {'round(%s)': ('__round__', lambda v: w.call(B('round'), v)), 'round(%s, 1)': ('__round__', lambda v: w.call(B('round'), v, 1)), 'math.floor(%s)': ('__floor__', lambda v: w.call(Ext('math.floor'), v)),
              'math.ceil(%s)': ('__ceil__', lambda v: w.call(Ext('math.ceil'), v)), 'math.trunc(%s)': ('__trunc__', lambda v: w.call(Ext('math.trunc'), v))}
    for fl, (meth, f) in OTHERS.items():
        for kl, mk in kinds.items():
            name = fl % kl
            def go():
                v = w.value(mk)
                if e.class_lookup(e.type_of(v), meth) is None: ck.ok(name); return       # Python then needs __float__(), or refuses
                for o in w.attempt(lambda: f(v)):
                    if feasible(o, w) is False: continue
                    o.enter()
                    if o.kind == 'raise': ck.ok(name); continue       # the exceptions are not the matter of this property
                    if o.kind != 'value': ck.und(name, 'not determined'); continue
                    r = e.resolve(o.value)
                    if isinstance(r, (Unknown, Phi)): ck.und(name, show(r)); continue
                    ck.check(name, e.isinstance_(r, UF), 'the result is %s, a plain number: the uncertainty is dropped' % show(r))
            ck.obligation(w, name, go)
    return ck.finish('The three conversions are interpreted abstractly for twelve kinds of numbers with uncertainties, through the built-in functions and the special methods.', [])

def re_words(s):
    import re
    return re.findall(r'\w+', s)
