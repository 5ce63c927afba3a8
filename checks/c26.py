"""C26: operands that are not numbers."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.engine import Native
from sa.fx import ends, is_exc

ARITH = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow'}
COMP = {'==': ('eq', 'eq'), '!=': ('ne', 'ne'), '<': ('lt', 'gt'), '<=': ('le', 'ge'), '>': ('gt', 'lt'), '>=': ('ge', 'le')}

DRIVER = '''
class Foreign(object):
    """Handles every operator."""
%s
class Silent(object):
    """Handles no operator."""
class FloatLike(object):
    """Convertible to float, but no number."""
    def __float__(self): return 2.0
class Sequence(object):
    def __len__(self): return 2
    def __getitem__(self, i):
        if i > 1: raise IndexError(i)
        return 1.5
class Declines(object):
    """Declines every operator."""
%s
'''
def driver():
    a, b = [], []
    for n in list(ARITH.values()):
        a.append("    def __%s__(self, o): return ('%s', self, o)\n    def __r%s__(self, o): return ('r%s', self, o)" % (n, n, n, n))
        b.append("    def __%s__(self, o): return NotImplemented\n    def __r%s__(self, o): return NotImplemented" % (n, n))
    for n, _ in COMP.values():
        a.append("    def __%s__(self, o): return ('%s', self, o)" % (n, n))
        b.append("    def __%s__(self, o): return NotImplemented" % n)
    return DRIVER % ('\n'.join(a), '\n'.join(b))

def run(tier):
    ck = Check('C26', tier, 'The special methods of numbers with uncertainties return NotImplemented for operands that are not numbers, so that the other operand handles the operation; otherwise '
               'Python raises TypeError (or compares identities for == and !=).',
               'abstract interpretation of the operator protocol on non-numeric operands (exception- and value-flow analysis)')
    w = ck.world(mods=('uncertainties', 'verif_driver'), overlay={'verif_driver.py': driver()})
    e = w.e
    D = lambda n: w.ref('verif_driver:' + n)
    wrap = w.ref('uncertainties.core:wrap')
    w.sym('d')
    def calc():
        g = w.call(wrap, Native(lambda *a: w.sym('x'), 'f'), e.new_list([Native(lambda *a: w.sym('d'), 'd')]))
        return w.call(g, w.var('v'))
    mine = {'variable': lambda: w.var('x'), 'exact variable': lambda: w.var('x', sigma=0.0), 'calculated quantity': calc, 'zero variable': lambda: w.var('x', 0.0)}
    foreign = {
        'None': lambda: None, 'a string': lambda: 'text', 'a numeric string': lambda: '1.5', 'an empty string': lambda: '', 'bytes': lambda: b'ab', 'a list': lambda: e.new_list([1.0, 2.0]), 'an empty list': lambda: e.new_list([]),
        'a tuple': lambda: (1, 2), 'a dictionary': lambda: e.new_dict([(1, 2)]), 'a set': lambda: e.new_set([1]), 'a function': lambda: D('Foreign.__add__'), 'a class': lambda: D('Silent'),
        'Ellipsis': lambda: Ellipsis, 'an object': lambda: w.call(D('Silent')), 'an object with __float__': lambda: w.call(D('FloatLike')), 'a sequence object': lambda: w.call(D('Sequence')),
        'an object that declines': lambda: w.call(D('Declines')), 'an object that handles': lambda: w.call(D('Foreign')),
        'a list with a number with uncertainty': lambda: e.new_list([w.var('z')]),
    }
    def is_ni(v): return v is NotImplemented
    for ml, mk in mine.items():
        for fl, fk in foreign.items():
            # special methods
            for n in list(ARITH.values()) + ['r' + a for a in ARITH.values()] + [a for a, _ in COMP.values()]:
                name = '(%s).__%s__(%s)' % (ml, n, fl)
                def go():
                    a = w.value(mk); b = w.value(fk)
                    o = ends(ck, w, name, lambda: w.meth(a, '__%s__' % n, b), None)
                    if o is None: return
                    o.enter()
                    vals = [l for _, l in leaves(o.value)]
                    if any(isinstance(l, Unknown) for l in vals): ck.und(name + ': result', 'unknown')
                    else: ck.check(name + ': result', all(is_ni(l) for l in vals), 'returns %s instead of NotImplemented' % show(o.value))
                ck.obligation(w, name, go)
            # operators
            for side in (0, 1):
                for op, n in ARITH.items():
                    if side and op == '%' and fl in ('a string', 'a numeric string', 'an empty string', 'bytes'): continue       # string formatting
                    name = '%s %s %s' % ((ml, op, fl) if not side else (fl, op, ml))
                    def go():
                        a = w.value(mk); b = w.value(fk)
                        f = (lambda: w.op(op, a, b)) if not side else (lambda: w.op(op, b, a))
                        if fl == 'an object that handles':
                            o = ends(ck, w, name, f, None)
                            if o:
                                o.enter(); v = e.resolve(o.value)
                                if isinstance(v, Unknown): ck.und(name + ': result')
                                else: ck.check(name + ': result', isinstance(v, tuple) and v[0] == ('r' + n if not side else n) and same(v[1], b) and same(v[2], a), 'the operation of the other object is not used: %s' % show(v))
                        else: ends(ck, w, name, f, 'TypeError')
                    ck.obligation(w, name, go)
                for op, (n, r) in COMP.items():
                    name = '%s %s %s' % ((ml, op, fl) if not side else (fl, op, ml))
                    def go():
                        a = w.value(mk); b = w.value(fk)
                        f = (lambda: e.cmp(op, a, b)) if not side else (lambda: e.cmp(op, b, a))
                        if fl == 'an object that handles':
                            o = ends(ck, w, name, f, None)
                            if o:
                                o.enter(); v = e.resolve(o.value)
                                if isinstance(v, Unknown): ck.und(name + ': result')
                                else: ck.check(name + ': result', isinstance(v, tuple) and v[0] == (r if not side else n) and same(v[1], b) and same(v[2], a), 'the comparison of the other object is not used: %s' % show(v))
                        elif op in ('==', '!='):
                            o = ends(ck, w, name, f, None)
                            if o:
                                o.enter(); v = e.resolve(o.value)
                                if isinstance(v, (Unknown, Phi, Term)): ck.und(name + ': result', show(v))
                                else: ck.check(name + ': result', v is (op == '!='), 'the result is %s' % show(v))
                        else: ends(ck, w, name, f, 'TypeError')
                    ck.obligation(w, name, go)
    return ck.finish('All the special methods and operators, on both sides, for four kinds of numbers with uncertainties and %d kinds of foreign operands, through the binary operator protocol.' % len(foreign), [])
