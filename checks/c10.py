"""C10: the pickled state is complete."""
import math
from sa.terms import *
from sa.report import Check
from sa.world import AnchorMissing
from sa.fx import ends, Family
from sa.field import samples

DRIVER = '''
from uncertainties.core import Variable, AffineScalarFunc
class Plain(Variable): pass
class PlainChild(Plain): pass
class WithClassAttr(Variable):
    unit = 'm'
    e1 = None
class SlotStr(Variable): __slots__ = 'e1'
class SlotTuple(Variable): __slots__ = ('e1', 'e2')
class SlotList(Variable): __slots__ = ['e1', 'e2']
class SlotSet(Variable): __slots__ = {'e1', 'e2'}
class SlotDict(Variable): __slots__ = {'e1': 'documentation', 'e2': 'documentation'}
class Empty(Variable): __slots__ = ()
class SlotThenDict(SlotTuple): pass
class SlotThenDictThenSlot(SlotThenDict): __slots__ = ('e3',)
class SlotThenSlot(SlotTuple): __slots__ = ('e3',)
class SlotThenEmpty(SlotTuple): __slots__ = ()
class StrThenStr(SlotStr): __slots__ = 'e2'
class StrThenDict(SlotStr): pass
class DictThenSlot(Plain): __slots__ = ('e1',)
class LongStr(Variable): __slots__ = 'extra'
class Private(Variable):
    __slots__ = ('__secret', '_half')
    def set(self, v): self.__secret = v
    def read(self): return self.__secret
class PrivateStr(Variable):
    __slots__ = '__secret'
    def set(self, v): self.__secret = v
    def read(self): return self.__secret
class _PrivateChild(Private):
    __slots__ = ('__secret',)
    def set2(self, v): self.__secret = v
    def read2(self): return self.__secret
class PrivateDict(Variable):
    def set(self, v): self.__secret = v
    def read(self): return self.__secret
class Weak(Variable): __slots__ = ('e1', '__weakref__')
class DictSlot(Variable): __slots__ = ('e1', '__dict__')
class WeakDict(Variable): __slots__ = ('__dict__', '__weakref__')
class Mixin(object): pass
class MixinEmpty(object): __slots__ = ()
class WithMixin(Mixin, Variable): __slots__ = ('e1',)
class WithMixinEmpty(MixinEmpty, Variable): __slots__ = ('e1',)
class WithMixinLast(Variable, Mixin): __slots__ = ('e1',)
class Left(SlotTuple): pass
class Right(SlotTuple): __slots__ = ()
class Diamond(Left, Right): __slots__ = ('e3',)
class Quantity(AffineScalarFunc): pass
class QuantitySlot(AffineScalarFunc): __slots__ = ('e1', 'e2')
class QuantityStr(AffineScalarFunc): __slots__ = 'e1'
'''
# class -> attributes that can be set
SUBS = {'Plain': ['e1', 'e2'], 'PlainChild': ['e1'], 'WithClassAttr': ['unit', 'e1'], 'SlotStr': ['e1'], 'SlotTuple': ['e1', 'e2'], 'SlotList': ['e1', 'e2'], 'SlotSet': ['e1', 'e2'], 'SlotDict': ['e1', 'e2'], 'Empty': [], 'SlotThenDict': ['e1', 'e2', 'other'],
        'SlotThenDictThenSlot': ['e1', 'e2', 'e3', 'other'], 'SlotThenSlot': ['e1', 'e2', 'e3'], 'SlotThenEmpty': ['e1', 'e2'], 'StrThenStr': ['e1', 'e2'], 'StrThenDict': ['e1', 'other'], 'DictThenSlot': ['e1', 'other'], 'LongStr': ['extra'], 'Private': ['_half'],
        'PrivateStr': [], '_PrivateChild': ['_half'], 'PrivateDict': ['e1'], 'Weak': ['e1'], 'DictSlot': ['e1', 'other'], 'WeakDict': ['other'], 'WithMixin': ['e1', 'other'], 'WithMixinEmpty': ['e1'], 'WithMixinLast': ['e1', 'other'], 'Left': ['e1', 'other'], 'Right': ['e2'],
        'Diamond': ['e1', 'e2', 'e3', 'other'], 'Quantity': ['e1', 'other'], 'QuantitySlot': ['e1', 'e2'], 'QuantityStr': ['e1']}
PRIV = {'Private': [('set', 'read')], 'PrivateStr': [('set', 'read')], '_PrivateChild': [('set', 'read'), ('set2', 'read2')], 'PrivateDict': [('set', 'read')]}

def run(tier):
    ck = Check('C10', tier, 'The saved state of every number with uncertainty and linear combination is true and holds every data attribute of the object (slots of all the classes in its inheritance chain, instance dictionary); restoring it sets them all, '
               'and shared variables stay shared.',
               'abstract interpretation of __getstate__() and __setstate__() under the pickle protocol (heap comparison of the original and the restored objects)')
    w = ck.world(mods=('uncertainties', 'uncertainties.umath', 'verif_driver'), overlay={'verif_driver.py': DRIVER})
    e = w.e
    fam = Family(w, tag='a tag')
    D = lambda n: w.ref('verif_driver:' + n)
    LC = w.ref('uncertainties.core:LinearCombination')
    pts = fam.pts
    P = lambda v: w.value(lambda: e.lib.pickle_copy(v))

    def true_state(name, obj):
        gs = e.class_lookup(e.type_of(obj), '__getstate__')
        if gs is None: ck.ok(name, 'default state'); return
        st = w.value(lambda: w.meth(obj, '__getstate__'))
        t = e.truth(st)
        if t is True: ck.ok(name)
        elif t is False: ck.bad(name, 'the state %s is false: it would not be restored' % show(st))
        else: ck.und(name, show(st))

    # ------------------------------------------------------------ families of correlated quantities
    NAMES = Family.NAMES
    def read(z): w.value(lambda: w.get(z, 'derivatives'))
    histories = {'nothing evaluated': [], 'everything evaluated': list(NAMES), 'x evaluated': ['x'], 'p evaluated': ['p'], 'q evaluated': ['q'], 'r evaluated': ['r'], 'q, then p evaluated': ['q', 'p']}
    orders = {'all': list(NAMES), 'reversed': list(NAMES)[::-1], 'result first': ['r', 'x', 'y', 'q', 'p'], 'p twice': ['p', 'x', 'p', 'y', 'q', 'r']}
    for hl, hist in histories.items():
        for ol, order in orders.items():
            for times in (1, 2, 3):
                for after in ('', ', the original evaluated afterwards'):
                    name = 'pickled family (%s, %s, %d time(s)%s)' % (hl, ol, times, after)
                    if times > 1 and ol != 'all' or after and ol != 'all': continue
                    def go():
                        for n in hist: read(fam.q[n])
                        lst = e.new_list([fam.q[n] for n in order])
                        for t in range(times): lst = e.resolve(P(lst))
                        if after:
                            for n in NAMES: read(fam.q[n])
                        its = e.obj(lst).items
                        q = {n: its[order.index(n)] for n in NAMES}
                        for n in NAMES:
                            ck.check('%s: %s is a new object' % (name, n), not same(q[n], fam.q[n]), 'the object itself is returned')
                            ck.check('%s: type of %s' % (name, n), same(e.type_of(q[n]), e.type_of(fam.q[n])), 'the type is %s' % show(e.type_of(q[n])))
                            ck.eq(w, '%s: restored %s depends on the original variable' % (name, n), w.value(lambda: w.deriv(q[n], fam.q['x'])), 0.0, pts=pts)
                        if 'p twice' == ol: ck.check(name + ': identity', same(its[0], its[2]), 'an object that is saved twice is restored as two objects')
                        fam.verify(ck, name, q=q, vs=(q['x'], q['y']))
                        fam.verify(ck, name + ', original')
                        t = e.resolve(w.value(lambda: w.get(q['x'], 'tag')))
                        ck.check(name + ': tag', t == 'a tag', 'the tag is %s' % show(t))
                        # calculations with the restored objects
                        s = w.value(lambda: w.op('+', q['r'], q['x']))
                        ck.eq(w, name + ': sum of restored quantities', w.value(lambda: w.deriv(s, q['x'])), T('add', fam.der['r'][0], 1.0), pts=pts)
                    ck.obligation(w, name, go)
    # single objects
    singles = {'variable': lambda: w.var('x', sigma=w.sym('sigma_x', POS())), 'exact variable': lambda: w.var('x', sigma=0.0), 'tagged variable': lambda: w.var('x', tag='t'), 'zero variable': lambda: w.var('x', 0.0, sigma=0.0),
               'variable with an empty tag': lambda: w.var('x', tag=''), 'NaN variable': lambda: w.var('x', math.nan, sigma=math.nan), 'infinite variable': lambda: w.var('x', math.inf, sigma=math.inf),
               'quantity without variable': lambda: w.op('-', *[w.var('x', 1.0)] * 2), 'zero times a variable': lambda: w.op('*', w.var('x'), 0), 'sum': lambda: w.op('+', w.var('x'), 1), 'rounded': lambda: w.op('//', w.var('x', 5.5), 2.0),
               'affine function without term': lambda: w.call(w.ref('uncertainties.core:AffineScalarFunc'), 0.0, w.call(LC, e.new_dict([])))}
    for sl, mk in singles.items():
        for ev in (False, True):
            for times in (1, 2):
                name = 'pickled %s%s%s' % (sl, ' (evaluated)' if ev else '', ', twice' if times == 2 else '')
                def go():
                    x = w.value(mk)
                    if ev: read(x)
                    true_state(name + ': state', x)
                    lp = w.get(x, '_linear_part', None)
                    if lp is not None and e.is_kind(e.resolve(lp), 'inst'): true_state(name + ': state of the linear part', e.resolve(lp))
                    y = e.resolve(P(x))
                    if times == 2: y = e.resolve(P(y))
                    for a in ('nominal_value', 'std_dev'):
                        ck.eq(w, '%s: %s' % (name, a), w.value(lambda: w.get(y, a)), w.value(lambda: w.get(x, a)), pts=pts)
                    d1, d2 = w.value(lambda: w.get(x, 'derivatives')), w.value(lambda: w.get(y, 'derivatives'))
                    n1, n2 = w.value(lambda: w.call(Ext('builtins.len'), d1)), w.value(lambda: w.call(Ext('builtins.len'), d2))
                    ck.check(name + ': number of variables', n1 == n2 if isinstance(n1, int) and isinstance(n2, int) else None, '%s variables instead of %s' % (show(n2), show(n1)))
                    if 'variable' in sl and 'without' not in sl and 'times' not in sl:
                        ck.check(name + ': tag', same(e.resolve(w.get(y, 'tag')), e.resolve(w.get(x, 'tag'))), 'the tag is %s' % show(w.get(y, 'tag')))
                        ck.eq(w, name + ': own variable', w.value(lambda: w.deriv(y, y)), 1.0, pts=pts)
                        w.value(lambda: e.setattr_(y, 'std_dev', 0.25))
                        ck.eq(w, name + ': new standard deviation', w.value(lambda: w.get(y, 'std_dev')), 0.25, pts=pts)
                        ck.eq(w, name + ': other standard deviation', w.value(lambda: w.get(w.value(lambda: w.op('*', y, 2)), 'std_dev')), 0.5, pts=pts)
                ck.obligation(w, name, go)
    # the state replaces all the attributes, whatever their values
    for al, a in (('a tag', 't'), ('no tag', None), ('an empty tag', ''), ('a zero tag', 0)):
        for bl, b in (('a tag', 'u'), ('no tag', None)):
            name = 'state of a variable with %s given to a variable with %s' % (al, bl)
            def go():
                x = w.var('x', sigma=0.0, tag=a); y = w.var('y', tag=b)
                w.value(lambda: w.meth(y, '__setstate__', w.meth(x, '__getstate__')))
                ck.check(name, same(e.resolve(w.get(y, 'tag')), a), 'the tag is %s' % show(w.get(y, 'tag')))
                ck.eq(w, name + ': nominal value', w.value(lambda: w.get(y, 'nominal_value')), sym('x'), pts=pts)
                ck.eq(w, name + ': standard deviation', w.value(lambda: w.get(y, 'std_dev')), 0.0, pts=pts)
            if e.class_lookup(w.ref('uncertainties.core:Variable'), '__setstate__') is not None and e.class_lookup(w.ref('uncertainties.core:Variable'), '__getstate__') is not None: ck.obligation(w, name, go)
    # linear combinations
    def lc(kind):
        v = w.var('x'); d = w.sym('d')
        t = {'empty list': lambda: e.new_list([]), 'empty dictionary': lambda: e.new_dict([]), 'list': lambda: e.new_list([(d, w.get(v, '_linear_part'))]), 'dictionary': lambda: e.new_dict([(v, d)])}[kind]()
        return w.call(LC, t)
    for kind in ('empty list', 'empty dictionary', 'list', 'dictionary'):
        for ev in (False, True):
            name = 'pickled linear combination (%s%s)' % (kind, ', expanded' if ev else '')
            def go():
                x = w.value(lambda: lc(kind))
                if ev and w.value(lambda: w.meth(x, 'expanded')) is False: w.value(lambda: w.meth(x, 'expand'))
                true_state(name + ': state', x)
                y = e.resolve(P(x))
                for z, l in ((x, 'original'), (y, 'restored')):
                    if e.truth(w.value(lambda: w.meth(z, 'expanded'))) is not True: w.value(lambda: w.meth(z, 'expand'))
                n = [w.value(lambda: w.call(Ext('builtins.len'), w.get(z, 'linear_combo'))) for z in (x, y)]
                want = 0 if 'empty' in kind else 1
                ck.check(name + ': number of terms', n[1] == want if isinstance(n[1], int) else None, '%s terms instead of %d' % (show(n[1]), want))
                if want:
                    val = w.value(lambda: w.call(Ext('builtins.list'), w.meth(w.get(y, 'linear_combo'), 'values')))
                    ck.eq(w, name + ': coefficient', e.obj(val).items[0], w.sym('d'), pts=pts)
            ck.obligation(w, name, go)

    # ------------------------------------------------------------ subclasses
    values = {'symbol': lambda: w.sym('value'), 'None': lambda: None, 'zero': lambda: 0, 'empty string': lambda: '', 'False': lambda: False, 'text': lambda: 'text', 'list': lambda: e.new_list([1.0, 'a']), 'tuple': lambda: (1.0, None),
              'variable': lambda: fam.q['y'], 'quantity': lambda: fam.q['p'], 'itself': lambda: 'SELF', 'dictionary': lambda: e.new_dict([('k', 1.0)])}
    for cn, attrs in SUBS.items():
        sets = [[]] + [[a] for a in attrs] + ([attrs] if len(attrs) > 1 else [])
        for st in sets:
            for vl in (values if st else ['text']):
                if len(st) == len(attrs) > 1 or not attrs or tier == 'thorough' or vl in ('symbol', 'None', 'zero', 'variable', 'list'):
                  for times in ((1, 2) if vl in ('symbol', 'text') else (1,)):
                    name = 'pickled %s, attributes %s set to %s%s' % (cn, st, vl, ', twice' if times == 2 else '')
                    def go():
                        quantity = cn.startswith('Quantity')
                        if quantity:
                            x0 = fam.q['x']
                            x = w.value(lambda: w.call(D(cn), w.sym('x'), w.call(LC, e.new_list([(w.sym('da'), w.get(x0, '_linear_part'))]))))
                        else: x = w.value(lambda: w.call(D(cn), w.sym('x'), w.sym('sigma_x', POS()), tag='a tag'))
                        mk = values[vl]
                        v = mk()
                        if v == 'SELF' and isinstance(v, str): v = x
                        for a in st: e.setattr_(x, a, v)
                        for i, (sm, rm) in enumerate(PRIV.get(cn, [])): w.value(lambda: w.meth(x, sm, w.sym('secret%d' % i)))
                        true_state(name + ': state', x)
                        pair = e.resolve(P((x, fam.q['y'], fam.q['p'], fam.q['x'])))
                        y, cy, cp, cx = [e.resolve(z) for z in pair]
                        if times == 2: y, cy, cp, cx = [e.resolve(z) for z in P((y, cy, cp, cx))]
                        ck.check(name + ': type', same(e.type_of(y), D(cn)), 'the type is %s' % show(e.type_of(y)))
                        for z, l in ((y, 'restored'), (x, 'original')):
                            for a in attrs:
                                got = e.resolve(w.value(lambda: w.get(z, a, 'NOT THERE')))
                                if a not in st:
                                    want = {'unit': 'm'}.get(a, None) if cn == 'WithClassAttr' else 'NOT THERE'
                                    ck.check('%s: %s attribute %s' % (name, l, a), got is want or (type(got) is type(want) and got == want), 'the attribute, which was not set, is %s' % show(got)); continue
                                if isinstance(got, str) and got == 'NOT THERE': ck.bad('%s: %s attribute %s' % (name, l, a), 'the attribute is missing'); continue
                                if l == 'original': okk = same(got, v)
                                elif vl == 'itself': okk = same(got, y)
                                elif vl == 'variable': okk = same(got, cy)
                                elif vl == 'quantity': okk = same(got, cp)
                                elif vl in ('list', 'dictionary'): okk = e.is_kind(got, 'list' if vl == 'list' else 'dict') and not same(got, v) and (e.obj(got).items == e.obj(v).items if vl == 'list' else list(e.obj(got).d.values()) == list(e.obj(v).d.values()))
                                else: okk = same(got, v) and type(got) is type(v)
                                ck.check('%s: %s attribute %s' % (name, l, a), okk if not isinstance(got, (Unknown, Phi)) else None, 'the attribute is %s instead of %s' % (show(got), show(v)))
                            for i, (sm, rm) in enumerate(PRIV.get(cn, [])):
                                ck.eq(w, '%s: %s private attribute %d' % (name, l, i), w.value(lambda: w.meth(z, rm)), w.sym('secret%d' % i), pts=pts)
                            ck.eq(w, '%s: %s nominal value' % (name, l), w.value(lambda: w.get(z, 'nominal_value')), sym('x'), pts=pts)
                            base = z if not quantity else (cx if l == 'restored' else fam.q['x'])
                            ck.eq(w, '%s: %s derivative' % (name, l), w.value(lambda: w.deriv(z, base)), sym('da') if quantity else 1.0, pts=pts)
                            if not quantity:
                                ck.eq(w, '%s: %s standard deviation' % (name, l), w.value(lambda: w.get(z, 'std_dev')), sym('sigma_x'), pts=pts)
                                t = e.resolve(w.value(lambda: w.get(z, 'tag')))
                                ck.check('%s: %s tag' % (name, l), t == 'a tag', 'the tag is %s' % show(t))
                    ck.obligation(w, name, go)
    return ck.finish('Pickled families of correlated quantities in %d evaluation histories, %d kinds of single objects, linear combinations, and %d subclasses with slots given as strings, sequences, sets and dictionaries, inherited slots, private names, '
                     'instance dictionaries, mixins and diamonds.' % (len(histories), len(singles), len(SUBS)),
                     ['pickle follows its documented protocol: objects are created without __init__(), a false state is not restored, objects saved together stay shared.'])
