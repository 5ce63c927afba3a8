"""Abstract model of the part of NumPy that the repository uses.

Arrays have a concrete small shape and abstract elements; several arrays can
share one buffer (views).  Anything not modelled gives Unknown (no verdict).
"""
import itertools, math
from .terms import *
from .engine import HObj, Native, GiveUp, AbsRaise

def prod(s):
    n = 1
    for x in s: n *= x
    return n

def strides(shape):
    out, n = [], 1
    for d in reversed(shape):
        out.append(n); n *= d
    return list(reversed(out))

UFUNC1 = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sinh': 'sinh', 'cosh': 'cosh',
          'tanh': 'tanh', 'ceil': 'ceil', 'floor': 'floor', 'expm1': 'expm1', 'log1p': 'log1p', 'arcsinh': 'asinh', 'arccosh': 'acosh', 'arctanh': 'atanh', 'degrees': 'degrees', 'radians': 'radians', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'fabs': 'fabs', 'log10': 'log10'}
UFUNC2 = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**', 'matmul': '@',
          'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
SCALARS = {'float64', 'float32', 'float16', 'longdouble', 'int64', 'int32', 'int16', 'int8', 'uint8', 'bool_', 'generic',
           'floating', 'integer', 'number', 'inexact', 'complex128', 'float_', 'int_', 'object_'}
CLASSES = SCALARS | {'ndarray', 'matrix', 'vectorize', 'dtype', 'flatiter'}
ND = Ext('numpy.ndarray')
MAT = Ext('numpy.matrix')

class NP:
    def __init__(self, eng):
        self.e = eng

    # ------------------------------------------------------------ arrays
    def new(self, shape, items, cls=ND, dtype=None):
        e = self.e
        items = list(items)
        assert prod(shape) == len(items)
        buf = e.alloc(HObj('npbuf', None, items=items))
        return e.alloc(HObj('nparray', cls, {'buf': buf, 'idx': tuple(range(len(items))), 'shape': tuple(shape),
                                             'dtype': dtype or self.infer(items), 'attrs': {}}))

    def view(self, r, idx, shape, cls=None):
        o = self.e.obj(r)
        return self.e.alloc(HObj('nparray', cls if cls is not None else o.cls,
                                 {'buf': o.f['buf'], 'idx': tuple(idx), 'shape': tuple(shape), 'dtype': o.f['dtype'], 'attrs': {}}))

    def infer(self, items):
        e = self.e
        if not items: return 'float'
        ty = set()
        for x in items:
            for _, l in leaves(x):
                if isinstance(l, bool) or (isinstance(l, Term) and l.ty == 'bool'): ty.add('bool')
                elif isinstance(l, int) or (isinstance(l, Term) and l.ty == 'int'): ty.add('int')
                elif isinstance(l, float) or (isinstance(l, Term) and l.ty in ('float', 'num')): ty.add('float')
                elif isinstance(l, str) or (isinstance(l, Term) and l.ty == 'str'): ty.add('str')
                else: ty.add('object')
        for t in ('object', 'str', 'float', 'int', 'bool'):
            if t in ty: return t
        return 'object'

    def els(self, r):
        o = self.e.obj(r)
        b = self.e.obj(o.f['buf']).items
        return [b[i] for i in o.f['idx']]

    def isarr(self, v):
        return self.e.is_kind(v, 'nparray')

    def ismat(self, v):
        return self.isarr(v) and self.e.issub(self.e.obj(v).cls, MAT) is True

    def is_seq(self, v):
        return isinstance(v, tuple) or self.e.is_kind(v, 'list') or self.isarr(v)

    def asarr(self, v, dtype=None, keep=False):
        """Array (existing ones are returned as they are) or None if unknown."""
        e = self.e
        v = e.resolve(v)
        if self.isarr(v):
            return v
        if isinstance(v, Unknown):
            return None
        if e.is_kind(v, 'npflat'):
            return self.new((len(e.obj(v).f['idx']),), self.els_flat(v))
        def shape_of(x):
            x = e.resolve(x)
            if isinstance(x, Phi):
                ls = [l for _, l in leaves(x)]
                if any(self.is_seq(l) for l in ls):
                    raise GiveUp('array from conditional sequences')
                return (), [x]
            if self.isarr(x):
                return e.obj(x).f['shape'], self.els(x)
            if isinstance(x, tuple) or e.is_kind(x, 'list'):
                its = list(x) if isinstance(x, tuple) else e.obj(x).items
                if any(e.maybe_absent(i) for i in its):
                    raise GiveUp('array from conditional list')
                subs = [shape_of(i) for i in its]
                if not subs: return (0,), []
                s0 = subs[0][0]
                if any(s[0] != s0 for s in subs):
                    e.raise_('ValueError', 'inhomogeneous shape')
                return (len(subs),) + s0, [y for s in subs for y in s[1]]
            return (), [x]
        shape, items = shape_of(v)
        return self.new(shape, items, dtype=dtype)

    # ------------------------------------------------------------ attributes
    def attr(self, ext, name):
        p = ext.path
        q = p + '.' + name
        if p in ('numpy', 'numpy.core', 'numpy.core.numeric', 'numpy.linalg'):
            if name == 'newaxis': return None if False else Ext('numpy.newaxis')
            if name in ('nan', 'NaN', 'NAN'): return math.nan
            if name in ('inf', 'Inf'): return math.inf
            if name == 'pi': return math.pi
            if name == 'e': return math.e
            if name == '__version__': return '1.26.4'
            if p == 'numpy.core.numeric': return Ext('numpy.' + name)
            return Ext(q)
        if name in ('__name__', '__qualname__'): return p.split('.')[-1]
        if name == '__doc__': return 'documentation of %s' % p
        if p == 'numpy.linalg.pinv' and name == '__defaults__': return (1e-15, False)
        if p == 'numpy.linalg.pinv' and name == '__wrapped__': return Ext('numpy.linalg.pinv')
        if p in ('numpy.matrix', 'numpy.ndarray') and name in ('I', 'T', 'H', 'A', 'flat', 'shape'):
            pr = HObj('property', Ext('builtins.property'), {'fget': Native(lambda s, n=name: self.getattr_of(s, n), 'get' + name)})
            return self.e.alloc(pr)
        if name in ('__new__', '__init__') and p in ('numpy.matrix', 'numpy.ndarray'):
            return Ext(q)
        if name == '__mro__':
            return tuple(self.e.lib.ext_mro(ext))
        return Ext(q)

    def inst_attr(self, r, o, name):
        return None

    def getattr_of(self, r, name):
        return self.basic_attr(r, self.e.obj(r), name)

    def obj_attr(self, r, o, name):
        e = self.e
        if o.kind == 'npflat':
            if name in ('copy', 'tolist'):
                return Native(lambda: self.new((len(o.f['idx']),), self.els_flat(r)), name)
            return None
        if o.kind == 'npvec':
            if name == 'pyfunc': return o.f['pyfunc']
            if name == '__doc__': return o.f['doc']
            if name == '__name__': return e.getattr_(o.f['pyfunc'], '__name__', None)
            if name == 'otypes': return o.f['otypes']
            if name in o.f.get('attrs', {}): return o.f['attrs'][name]
            return None
        if o.kind == 'npext':
            return Unknown('attribute of array')
        if name in o.f['attrs']:
            return o.f['attrs'][name]
        if name == '__class__':
            return o.cls
        if isinstance(o.cls, Ref):
            ca = e.class_lookup(o.cls, name)
            if ca is not None:
                return e.lift(lambda x: e.bind(x, r), ca)
        return self.basic_attr(r, o, name)

    def basic_attr(self, r, o, name):
        e = self.e
        sh, idx = o.f['shape'], o.f['idx']
        if name == 'shape': return sh
        if name == 'size': return len(idx)
        if name == 'ndim': return len(sh)
        if name == 'dtype': return Ext('numpy.dtype.' + o.f['dtype'])
        if name == 'T': return self.transpose(r)
        if name == 'flat': return e.alloc(HObj('npflat', Ext('numpy.flatiter'), {'buf': o.f['buf'], 'idx': idx, 'pos': 0}))
        if name == 'A' and self.ismat(r): return self.view(r, idx, sh, ND)
        if name == 'H' and self.ismat(r): return self.transpose(r)
        if name == 'I' and self.ismat(r):
            return self.method(r, 'getI', [], {})
        if name == 'real': return r
        if name in METHODS:
            return Native(lambda *a, **k: self.method(r, name, list(a), k), name)
        if name.startswith('__') and name.endswith('__') and (name[2:-2] in e.BINM.values() or name[3:-2] in e.BINM.values() and name[2] == 'r' or name in e.CMPM.values()):
            return Native(lambda x: self.base_op(r, name, x), name)
        if name == '__array_priority__': return 10.0 if self.ismat(r) else 0.0
        if name.startswith('__') and name not in ('__len__', '__iter__', '__getitem__', '__setitem__'):
            return None
        if name in ('std_devs', 'nominal_values', 'derivatives', 'nominal_value', 'std_dev'):
            return None
        return e.unknown('array attribute %s' % name)

    def obj_setattr(self, r, o, name, val):
        e = self.e
        if name == '__class__':
            e.w(r).cls = val
            return True
        if name == 'shape':
            val = val if isinstance(val, tuple) else (val,)
            e.w(r).f['shape'] = self.fixshape(val, len(o.f['idx']))
            return True
        w = e.w(r)
        w.f['attrs'] = dict(w.f.get('attrs', {}))
        w.f['attrs'][name] = val
        if name == '__doc__' and o.kind == 'npvec': w.f['doc'] = val
        return True

    def fixshape(self, s, n):
        s = tuple(s)
        if -1 in s:
            k = prod([x for x in s if x != -1])
            s = tuple(n // k if x == -1 else x for x in s)
        if prod(s) != n:
            self.e.raise_('ValueError', 'cannot reshape')
        return s

    def transpose(self, r):
        o = self.e.obj(r)
        sh, idx = o.f['shape'], o.f['idx']
        if len(sh) != 2: 
            if len(sh) < 2: return self.view(r, idx, sh)
            raise GiveUp('transpose nd')
        m, n = sh
        return self.view(r, [idx[i * n + j] for j in range(n) for i in range(m)], (n, m))

    # ------------------------------------------------------------ containers
    def length(self, r, o):
        if o.kind == 'npflat': return len(o.f['idx'])
        if o.kind != 'nparray': return Unknown('len')
        if not o.f['shape']:
            self.e.raise_('TypeError', 'len() of unsized object')
        return o.f['shape'][0]

    def els_flat(self, r):
        o = self.e.obj(r)
        b = self.e.obj(o.f['buf']).items
        return [b[i] for i in o.f['idx']]

    def iterate(self, r, o):
        if o.kind == 'npflat': return self.els_flat(r)
        if o.kind != 'nparray': raise GiveUp('iteration over array')
        sh = o.f['shape']
        if not sh: self.e.raise_('TypeError', 'iteration over a 0-d array')
        return [self.getitem(r, o, i) for i in range(sh[0])]

    def pick(self, o, i):
        """(indices, shape) selected by basic indexing, or None."""
        sh, idx = o.f['shape'], o.f['idx']
        ix = list(i) if isinstance(i, tuple) else [i]
        ix = [None if isinstance(x, Ext) and x.path == 'numpy.newaxis' else x for x in ix]
        if any(x is Ellipsis for x in ix):
            k = ix.index(Ellipsis)
            need = len(sh) - sum(1 for x in ix if x is not None and x is not Ellipsis)
            ix[k:k+1] = [slice(None)] * need
        n = sum(1 for x in ix if x is not None)
        if n > len(sh): self.e.raise_('IndexError', 'too many indices for array')
        ix += [slice(None)] * (len(sh) - n)
        st = strides(sh)
        ranges, out, ax = [], [], 0
        for x in ix:
            if x is None:
                ranges.append([0]); out.append(1); continue
            if isinstance(x, bool): return None
            if isinstance(x, int):
                if not -sh[ax] <= x < sh[ax]: self.e.raise_('IndexError', 'index out of bounds')
                ranges.append([(x % sh[ax]) * st[ax]])
            elif isinstance(x, slice):
                if any(not (y is None or isinstance(y, int)) for y in (x.start, x.stop, x.step)): return None
                rr = range(sh[ax])[x]
                ranges.append([k * st[ax] for k in rr]); out.append(len(rr))
            else:
                return None
            ax += 1
        sel = [idx[sum(c)] for c in itertools.product(*ranges)]
        return sel, tuple(out)

    def getitem(self, r, o, i):
        e = self.e
        if o.kind == 'npflat':
            i = e.resolve(i)
            if isinstance(i, int):
                return self.els_flat(r)[i]
            return e.unknown('flat index')
        if o.kind != 'nparray': return Unknown('item of array')
        if isinstance(i, Ref) and (self.isarr(i) or e.is_kind(i, 'list')):
            m = self.asarr(i)
            if m is not None and e.obj(m).f['dtype'] in ('int',) and len(o.f['shape']) == 1 and all(isinstance(x, int) for x in self.els(m)):
                v = self.els(r)
                return self.new(e.obj(m).f['shape'], [v[k] for k in self.els(m)])
            if m is not None and e.obj(m).f['dtype'] == 'bool' and all(isinstance(x, bool) for x in self.els(m)) and e.obj(m).f['shape'] == o.f['shape']:
                v = [x for x, k in zip(self.els(r), self.els(m)) if k]
                return self.new((len(v),), v, dtype=o.f['dtype'])
            return e.unknown('advanced indexing')
        p = self.pick(o, i)
        if p is None:
            return e.unknown('array indexing')
        sel, sh = p
        if self.ismat(r):
            if len(sh) == 1:     # matrices stay two-dimensional
                tup = i if isinstance(i, tuple) else (i,)
                sh = (1,) + sh if isinstance(tup[0], int) else sh + (1,)
        if sh == ():
            return e.obj(o.f['buf']).items[sel[0]]
        return self.view(r, sel, sh)

    def setitem(self, r, o, i, val):
        e = self.e
        if o.kind == 'npflat':
            idx = o.f['idx']
            if isinstance(i, int): sel, sh = [idx[i]], ()
            elif isinstance(i, slice): sel = list(idx[i]); sh = (len(sel),)
            else: raise GiveUp('flat item assignment')
            return self.put(o, sel, sh, val)
        if o.kind != 'nparray': return True
        if isinstance(i, Ref) and self.isarr(i):
            mo = e.obj(i)
            if mo.f['shape'] == o.f['shape'] and mo.f['dtype'] == 'bool':
                vs = self.bcast(val, o.f['shape'])
                if vs is None: raise GiveUp('mask assignment')
                for k, m, v in zip(o.f['idx'], self.els(i), vs):
                    old = e.obj(o.f['buf']).items[k]
                    new = e.branch(m, lambda: v, lambda: old)
                    e.w(o.f['buf']).items[k] = new
                return True
            raise GiveUp('advanced item assignment')
        p = self.pick(o, i)
        if p is None: raise GiveUp('array item assignment')
        return self.put(o, p[0], p[1], val)

    def put(self, o, sel, sh, val):
        vs = self.bcast(val, sh)
        if vs is None: raise GiveUp('array assignment')
        w = self.e.w(o.f['buf']).items
        for k, v in zip(sel, vs):
            w[k] = v
        return True

    def bcast(self, v, shape):
        a = self.asarr(v)
        if a is None: return None
        o = self.e.obj(a)
        return self.expand(self.els(a), o.f['shape'], shape)

    def expand(self, items, sh, shape):
        if sh == shape: return items
        pad = (1,) * (len(shape) - len(sh)) + sh
        if len(pad) != len(shape): return None
        st = strides(pad)
        out = []
        for c in itertools.product(*[range(d) for d in shape]):
            k = 0
            for x, d, s, t in zip(c, pad, st, shape):
                if d == t: k += x * s
                elif d != 1: return None
            out.append(items[k])
        return out

    def bshape(self, shapes):
        n = max(map(len, shapes))
        out = []
        for k in range(n):
            ds = {(s[k - (n - len(s))] if k >= n - len(s) else 1) for s in shapes}
            ds.discard(1)
            if len(ds) > 1: self.e.raise_('ValueError', 'operands could not be broadcast together')
            out.append(ds.pop() if ds else 1)
        return tuple(out)

    def rescls(self, *arrs):
        c = ND
        for a in arrs:
            if self.ismat(a):
                k = self.e.obj(a).cls
                if c is ND: c = k             # the same __array_priority__ for all the matrices: the first one
        return c

    # ------------------------------------------------------------ elementwise operations
    def elementwise(self, fn, *vals, dtype=None):
        e = self.e
        arrs = [self.asarr(v) for v in vals]
        if any(a is None for a in arrs): return Unknown('array operation on unknown')
        shapes = [e.obj(a).f['shape'] for a in arrs]
        sh = self.bshape(shapes)
        cols = [self.expand(self.els(a), s, sh) for a, s in zip(arrs, shapes)]
        out = [fn(*x) for x in zip(*cols)]
        cls = self.rescls(*[v for v in vals if self.isarr(v)])
        if sh == () and not any(self.isarr(v) for v in vals): return out[0]
        return self.new(sh, out, cls, dtype) if sh != () or cls is not ND else out[0]

    def scal(self, op, x, y):
        """Scalar operation inside an array (division never raises)."""
        e = self.e
        def go(a, b):
            a, b = e.numify(a), e.numify(b)
            if op in ('/', '//', '%') and e.is_num(a) and e.is_num(b):
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    if b == 0:
                        if op != '/' : return Unknown('array division by zero')
                        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                    return a / b if op == '/' else (a // b if op == '//' else a % b)
                if isinstance(b, (int, float)) and b == 0:
                    return T('npdiv', a, b)
                return T({'/': 'div', '//': 'floordiv', '%': 'mod'}[op], a, b)
            return e.binop(op, a, b)
        return e.lift(go, x, y)

    def binop(self, op, a, b):
        e = self.e
        if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown('array operation')
        for x in (a, b):
            if e.is_kind(x, 'npext', 'npflat') or isinstance(x, Ext): return e.unknown('array operation')
        n = e.BINM[op]
        order = [(a, '__%s__' % n, b), (b, '__r%s__' % n, a)]
        ca = e.obj(a).cls if self.isarr(a) else None
        cb = e.obj(b).cls if self.isarr(b) else None
        if cb is not None and ca is not None and not same(ca, cb) and e.issub(cb, ca) is True:
            order.reverse()
        for obj, m, other in order:
            if not self.isarr(obj): continue
            if not isinstance(e.obj(obj).cls, Ref) and self.isarr(other) and isinstance(e.obj(other).cls, Ref) and obj is a and not self.ismat(obj):
                if e.class_lookup(e.obj(other).cls, '__r%s__' % n) is not None: continue       # defers to higher __array_priority__
            r = self.method_op(obj, m, other)
            if r is not NotImplemented: return r
        if self.isarr(a) or self.isarr(b): e.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
        return self.npbinop(op, a, b)

    def method_op(self, obj, m, other):
        """obj.<m>(other), with the method of the class of the array."""
        e = self.e
        if isinstance(e.obj(obj).cls, Ref):
            f = e.class_lookup(e.obj(obj).cls, m)
            if f is not None: return e.call(e.bind(f, obj), [other], {})
        return self.base_op(obj, m, other)

    def base_op(self, obj, m, other, mat=None):
        """obj.<m>(other), with the method of numpy.matrix or numpy.ndarray."""
        e = self.e
        ops = {v: k for k, v in e.BINM.items()}
        cm = {v: k for k, v in e.CMPM.items()}
        n = m[2:-2]
        if m in cm: return self.compare(cm[m], obj, other)
        if mat is None: mat = self.ismat(obj)
        if mat and n == 'mul':
            if self.isarr(other) or e.is_kind(other, 'list') or isinstance(other, tuple):
                return self.dot(obj, self.n_asmatrix([other], {}))
            s = self.n_isscalar([other], {})
            if s is True or e.getattr_(other, '__rmul__', None) is None: return self.dot(obj, other)
            return Unknown('operand of a matrix product') if s is not False else NotImplemented
        if mat and n == 'rmul': return self.dot(other, obj)
        if n in ops: return self.elementwise_op(ops[n], obj, other) if not mat else self.npbinop(ops[n], obj, other)
        if n[1:] in ops: return self.elementwise_op(ops[n[1:]], other, obj) if not mat else self.npbinop(ops[n[1:]], other, obj)
        return Unknown('array operation')

    def elementwise_op(self, op, a, b):
        if op == '@': return self.dot(a, b)
        return self.elementwise(lambda x, y: self.scal(op, x, y), a, b)

    def npbinop(self, op, a, b):
        e = self.e
        if op == '*' and (self.ismat(a) or self.ismat(b)):
            if self.is_seq(a) and self.is_seq(b):
                return self.dot(a, b)
        if op == '@':
            return self.dot(a, b)
        if op == '**' and self.ismat(a):
            k = e.resolve(b)
            sh = e.obj(a).f['shape']
            if not isinstance(k, int) or isinstance(k, bool) or k < 1: return e.unknown('matrix power')
            if len(sh) != 2 or sh[0] != sh[1]: e.raise_('ValueError', 'Last 2 dimensions of the array must be square')       # LinAlgError
            r = a
            for _ in range(k - 1): r = self.dot(r, a)
            return r
        return self.elementwise(lambda x, y: self.scal(op, x, y), a, b)

    def dot(self, a, b):
        e = self.e
        A, B = self.asarr(a), self.asarr(b)
        if A is None or B is None: return Unknown('dot')
        cls = self.rescls(*[v for v in (a, b) if self.isarr(v)])
        sa, sb = e.obj(A).f['shape'], e.obj(B).f['shape']
        if sa == () or sb == ():
            r = self.elementwise(lambda x, y: self.scal('*', x, y), A, B)
            return r
        ea, eb = self.els(A), self.els(B)
        # numpy.matrix operands: a 1-d operand is a row vector
        if cls is not ND and len(sb) == 1 and self.ismat(A): sb = (1,) + sb
        if cls is not ND and len(sa) == 1 and self.ismat(B): sa = (1,) + sa
        va, vb = len(sa) == 1, len(sb) == 1
        if va: sa = (1,) + sa
        if vb: sb = sb + (1,)
        if len(sa) != 2 or len(sb) != 2: return e.unknown('dot nd')
        m, k = sa; k2, n = sb
        if k != k2: e.raise_('ValueError', 'shapes not aligned')
        out = []
        for i in range(m):
            for j in range(n):
                acc = None
                for l in range(k):
                    t = self.scal('*', ea[i * k + l], eb[l * n + j])
                    acc = t if acc is None else self.scal('+', acc, t)
                out.append(0.0 if acc is None else acc)
        sh = (m, n)
        if va: sh = sh[1:]
        if vb: sh = sh[:-1]
        if sh == (): return out[0]
        return self.new(sh, out, cls)

    def inplace(self, op, x, y):
        e = self.e
        o = e.obj(x)
        if o.kind != 'nparray': return self.binop(op, x, y)
        r = self.binop(op, x, y)
        if isinstance(r, Unknown) or not self.isarr(r): 
            raise GiveUp('in-place array operation')
        vals = self.els(r)
        if e.obj(r).f['shape'] != o.f['shape']: e.raise_('ValueError', 'non-broadcastable output operand')
        if e.obj(r).f['dtype'] != o.f['dtype']:
            if o.f['dtype'] == 'object': pass
            elif e.obj(r).f['dtype'] == 'object': e.raise_('TypeError', 'Cannot cast ufunc output')
            else: raise GiveUp('in-place array operation between types')
        w = e.w(o.f['buf']).items
        for k, v in zip(o.f['idx'], vals):
            w[k] = v
        return x

    def compare(self, op, a, b):
        e = self.e
        return self.elementwise(lambda x, y: e.cmp(op, x, y), a, b)

    def unary(self, op, v):
        e = self.e
        if op == 'abs':
            return self.elementwise(lambda x: e.lib.call(Ext('builtins.abs'), [x], {}), v)
        if op == '~':
            return self.elementwise(lambda x: e.lift(e.negate, x), v)
        return self.elementwise(lambda x: e.unary(op, x), v)

    def special(self, obj, m, other):
        """obj.<m>(other) where other is an instance of a repository class:
        object arrays apply the operation to every element."""
        e = self.e
        if not self.isarr(obj): return Unknown('array operation')
        return self.method_op(obj, m, other)

    def copy(self, r):
        o = self.e.obj(r)
        return self.new(o.f['shape'], self.els(r), o.cls, o.f['dtype'])

    def to_float(self, r, o):
        if len(o.f['idx']) == 1:
            return self.e.lib.to_float(self.els(r)[0])
        self.e.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')

    def ext_getitem(self, ext, i):
        return Unknown('item of numpy object')

    # ------------------------------------------------------------ functions
    def vectorize(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        e = self.e
        if doc is None: doc = e.getattr_(pyfunc, '__doc__', None)
        ex = frozenset(e.resolve(x) for x in e.iterate(excluded)) if excluded is not None else frozenset()
        if signature is not None: return Unknown('vectorize() with a signature')
        return e.alloc(HObj('npvec', Ext('numpy.vectorize'), {'pyfunc': pyfunc, 'otypes': otypes, 'doc': doc, 'excluded': ex, 'attrs': {}}))

    def otype_name(self, ot):
        e = self.e
        ot = e.resolve(ot)
        if ot is None: return None
        if isinstance(ot, str): return [{'O': 'object', 'd': 'float', 'f': 'float', 'l': 'int', '?': 'bool'}.get(c, '?') for c in ot]
        out = []
        for x in e.iterate(ot):
            x = e.resolve(x)
            p = x.path if isinstance(x, Ext) else str(x)
            p = p.split('.')[-1]
            out.append({'object_': 'object', 'float64': 'float', 'int64': 'int', 'int_': 'int', 'bool_': 'bool', 'double': 'float', 'O': 'object', 'd': 'float'}.get(p, p))
        return out

    def call_vec(self, r, o, args, kwargs):
        e = self.e
        ex = o.f.get('excluded') or ()
        if ex:
            # excluded arguments are passed as they are
            fargs, fkw, f = list(args), dict(kwargs), o.f['pyfunc']
            vp = [i for i in range(len(args)) if i not in ex]; vk = [k for k in kwargs if k not in ex]
            def partial(*a, **k):
                a2, k2 = list(fargs), dict(fkw)
                for i, x in zip(vp, a): a2[i] = x
                k2.update(k)
                return e.call(f, a2, k2)
            return self.call_vec(r, type('V', (), {'f': dict(o.f, excluded=None, pyfunc=Native(partial, 'vectorized'))})(), [args[i] for i in vp], {k: kwargs[k] for k in vk})
        arrs = [self.asarr(a) for a in args]
        karrs = {k: self.asarr(v) for k, v in kwargs.items()}
        if any(a is None for a in arrs) or any(a is None for a in karrs.values()):
            return Unknown('vectorized call on unknown')
        allv = arrs + list(karrs.values())
        if not allv: return e.call(o.f['pyfunc'], [], {})
        sh = self.bshape([e.obj(a).f['shape'] for a in allv])
        cols = [self.expand(self.els(a), e.obj(a).f['shape'], sh) for a in arrs]
        kcols = {k: self.expand(self.els(a), e.obj(a).f['shape'], sh) for k, a in karrs.items()}
        n = prod(sh)
        ot = self.otype_name(o.f['otypes'])
        if n == 0 and ot is None:
            e.raise_('ValueError', 'cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        outs = []
        for i in range(n):
            outs.append(e.call(o.f['pyfunc'], [c[i] for c in cols], {k: c[i] for k, c in kcols.items()}))
        cls = self.rescls(*[v for v in list(args) + list(kwargs.values()) if self.isarr(v)])
        multi = [e.resolve(x) for x in outs]
        if multi and all(isinstance(x, tuple) for x in multi) and (ot is None or len(ot) > 1):
            k = len(multi[0])
            res = []
            for j in range(k):
                col = [x[j] for x in multi]
                res.append(self.finish(sh, col, cls, ot[j] if ot else None))
            return tuple(res)
        return self.finish(sh, outs, cls, ot[0] if ot else None)

    def finish(self, sh, outs, cls, ot):
        e = self.e
        if ot is None:
            ot = self.infer(outs[:1])      # NumPy looks at the first output only
        if ot in ('float', 'int', 'bool'):
            conv = {'float': 'builtins.float', 'int': 'builtins.int', 'bool': 'builtins.bool'}[ot]
            def cv(x):
                def one(y):
                    if ot == 'float' and isinstance(y, Term) and y.ty in ('float',): return y
                    return e.lib.call(Ext(conv), [y], {})
                return e.lift(one, x)
            outs = [cv(x) for x in outs]
        return self.new(sh, outs, cls, ot)

    def call_obj(self, f, o, args, kwargs):
        if o.kind == 'npvec':
            return self.call_vec(f, o, args, kwargs)
        if o.kind == 'nparray' and isinstance(o.cls, Ref):
            m = self.e.class_lookup(o.cls, '__call__')
            if m is not None:
                return self.e.call(self.e.bind(m, f), args, kwargs)
        self.e.raise_('TypeError', 'array object is not callable')

    def signature(self, f):
        e = self.e
        if f.path == 'numpy.linalg.pinv':
            ps = {'a': None, 'rcond': 1e-15, 'hermitian': False}
        else:
            return e.unknown('signature of %s' % f.path)
        d = e.new_dict([(k, e.alloc(HObj('inst', Ext('inspect.Parameter'), {'default': v, 'name': k}))) for k, v in ps.items()])
        return e.alloc(HObj('inst', Ext('inspect.Signature'), {'parameters': d}))

    def matkey(self, a):
        o = self.e.obj(a)
        return (o.f['shape'], tuple(self.els(a)))

    def call(self, path, args, kwargs):
        e = self.e
        name = path.split('.', 1)[1]
        args = [e.resolve(a) for a in args]
        h = getattr(self, 'n_' + name.replace('.', '_'), None)
        if h is not None:
            return h(args, dict(kwargs))
        if name in UFUNC1:
            fn = UFUNC1[name]
            def one(x):
                def go(y):
                    if isinstance(y, (int, float)):
                        try: return getattr(math, fn)(y)
                        except (ValueError, OverflowError): return math.nan
                    if isinstance(y, Term): return T('math.' + fn, y)
                    return Unknown('ufunc of object')
                return e.lift(go, x)
            if self.is_seq(args[0]): return self.elementwise(one, args[0])
            return one(e.numify(args[0]))
        if name in UFUNC2 and not kwargs:
            op = UFUNC2[name]
            if name == 'matmul': return self.dot(*args)
            if op in e.CMPM: return self.elementwise(lambda x, y: e.cmp(op, x, y), *args)
            return self.elementwise(lambda x, y: self.scal(op, x, y), *args)
        if name in SCALARS:
            if name in ('float64', 'float_', 'float32'): return e.lib.call(Ext('builtins.float'), args, {})
            if name in ('int64', 'int_'): return e.lib.call(Ext('builtins.int'), args, {})
        p = path.split('.')
        if len(p) >= 3 and p[1] in ('ndarray', 'matrix') and p[2] in METHODS and args and self.isarr(args[0]):
            return self.method(args[0], p[2], args[1:], kwargs)
        if len(p) == 3 and p[1] in ('ndarray', 'matrix') and p[2].startswith('__') and len(args) == 2 and self.isarr(args[0]) and (p[2][2:-2] in e.BINM.values() or p[2][3:-2] in e.BINM.values() and p[2][2] == 'r' or p[2] in e.CMPM.values()):
            return self.base_op(args[0], p[2], args[1], p[1] == 'matrix')
        if len(p) >= 3 and p[1] in ('ndarray', 'matrix') and p[2] == '__new__':
            if p[1] == 'matrix' and len(args) > 1:
                a = self.n_matrix(args[1:], kwargs)
                if self.isarr(a) and isinstance(args[0], (Ref, Ext)):
                    e.w(a).cls = args[0]
                return a
        e.havoc(args); e.havoc(kwargs.values())
        return e.unknown('call of unmodelled %s' % path)

    def n_vectorize(self, a, k): return self.vectorize(*a, **k)
    def n_isscalar(self, a, k):
        v = a[0]
        if isinstance(v, Unknown): return Unknown('isscalar')
        return isinstance(v, (int, float, complex, str, bytes)) or (isinstance(v, Term) and v.ty != 'any')
    def dt(self, k, a=None):
        d = k.get('dtype')
        d = self.e.resolve(d)
        if d is None: return None
        return self.otype_name((d,))[0]
    def n_array(self, a, k):
        e = self.e
        d = self.dt(k) or (self.otype_name((a[1],))[0] if len(a) > 1 else None)
        r = self.asarr(a[0], d)
        if r is None: return Unknown('numpy.array')
        cp = k.get('copy', True)
        if self.isarr(a[0]) and cp is not False:
            o = e.obj(r)
            r = self.new(o.f['shape'], self.els(r), o.cls if k.get('subok') else ND, d or o.f['dtype'])
        return r
    def n_asarray(self, a, k):
        e = self.e
        d = self.dt(k)
        if self.isarr(a[0]):
            if self.ismat(a[0]):
                o = e.obj(a[0]); return self.view(a[0], o.f['idx'], o.f['shape'], ND)
            return a[0]
        r = self.asarr(a[0], d)
        return r if r is not None else Unknown('numpy.asarray')
    def n_asanyarray(self, a, k):
        r = self.asarr(a[0], self.dt(k))
        return r if r is not None else Unknown('numpy.asanyarray')
    def n_copy(self, a, k): return self.n_array(a, k)
    def to2d(self, r):
        o = self.e.obj(r)
        sh = o.f['shape']
        if len(sh) == 1: sh = (1,) + sh
        elif len(sh) == 0: sh = (1, 1)
        return sh
    def n_asmatrix(self, a, k):
        r = self.asarr(a[0])
        if r is None: return Unknown('asmatrix')
        if self.ismat(r): return r
        return self.view(r, self.e.obj(r).f['idx'], self.to2d(r), MAT)
    n_mat = n_asmatrix
    def n_matrix(self, a, k):
        r = self.asarr(a[0])
        if r is None: return Unknown('matrix')
        return self.new(self.to2d(r), self.els(r), MAT)
    def n_eye(self, a, k):
        n = self.e.resolve(a[0])
        m = self.e.resolve(a[1]) if len(a) > 1 else n
        if not isinstance(n, int) or not isinstance(m, int): return self.e.unknown('eye')
        return self.new((n, m), [1.0 if i == j else 0.0 for i in range(n) for j in range(m)])
    def n_identity(self, a, k): return self.n_eye(a[:1], k)
    def filled(self, v):
        def f(a, k):
            sh = self.e.resolve(a[0]) if a else self.e.resolve(k['shape'])
            if isinstance(sh, int): sh = (sh,)
            if self.e.is_kind(sh, 'list'): sh = tuple(self.e.obj(sh).items)
            if not isinstance(sh, tuple) or any(not isinstance(x, int) for x in sh): return self.e.unknown('array of unknown shape')
            return self.new(sh, [v] * prod(sh), dtype=self.dt(k) or 'float')
        return f
    def n_zeros(self, a, k): return self.filled(0.0)(a, k)
    def n_ones(self, a, k): return self.filled(1.0)(a, k)
    def n_empty(self, a, k): return self.filled(None if self.dt(k) == 'object' else Unknown('uninitialised'))(a[:1], k)
    def like(self, v):
        def f(a, k):
            r = self.asarr(a[0])
            if r is None: return Unknown('like')
            o = self.e.obj(r)
            return self.new(o.f['shape'], [v] * len(o.f['idx']), o.cls, self.dt(k) or o.f['dtype'])
        return f
    def n_zeros_like(self, a, k): return self.like(0.0)(a, k)
    def n_ones_like(self, a, k): return self.like(1.0)(a, k)
    def n_full(self, a, k): return self.filled(a[1])(a[:1], k)
    def n_transpose(self, a, k):
        r = self.asarr(a[0])
        return self.transpose(r) if r is not None else Unknown('transpose')
    def n_dot(self, a, k): return self.dot(a[0], a[1])
    def n_outer(self, a, k):
        A, B = self.asarr(a[0]), self.asarr(a[1])
        ea, eb = self.els(A), self.els(B)
        return self.new((len(ea), len(eb)), [self.scal('*', x, y) for x in ea for y in eb])
    def n_diag(self, a, k):
        e = self.e
        r = self.asarr(a[0])
        if r is None: return Unknown('diag')
        sh, v = e.obj(r).f['shape'], self.els(r)
        if len(sh) == 1:
            n = sh[0]
            return self.new((n, n), [v[i] if i == j else 0.0 for i in range(n) for j in range(n)])
        return self.new((min(sh),), [v[i * sh[1] + i] for i in range(min(sh))])
    n_diagonal = n_diag
    def n_where(self, a, k):
        e = self.e
        if len(a) != 3: return e.unknown('where')
        return self.elementwise(lambda c, x, y: e.branch(c, lambda: x, lambda: y), *a)
    def minmax(self, which):
        e = self.e
        return lambda x, y: e.lib.minmax(which, [x, y], {})
    def n_maximum(self, a, k): return self.elementwise(self.minmax('max'), a[0], a[1])
    def n_minimum(self, a, k): return self.elementwise(self.minmax('min'), a[0], a[1])
    def n_clip(self, a, k):
        r = a[0]
        lo = a[1] if len(a) > 1 else k.get('a_min'); hi = a[2] if len(a) > 2 else k.get('a_max')
        if lo is not None: r = self.elementwise(self.minmax('max'), r, lo)
        if hi is not None: r = self.elementwise(self.minmax('min'), r, hi)
        return r
    def n_abs(self, a, k): return self.unary('abs', a[0]) if self.is_seq(a[0]) else self.e.lib.call(Ext('builtins.abs'), a, {})
    n_absolute = n_abs
    def n_square(self, a, k): return self.elementwise(lambda x: self.scal('*', x, x), a[0])
    def n_negative(self, a, k): return self.unary('-', a[0])
    def n_conj(self, a, k): return a[0]
    def n_isnan(self, a, k): return self.elementwise(lambda x: self.e.lib.call(Ext('math.isnan'), [x], {}), a[0])
    def via(name):
        def f(self, a, k):
            r = self.asarr(a[0])
            return self.method(r, name, list(a[1:]), k) if r is not None else self.e.unknown('numpy.' + name)
        return f
    n_sum = via('sum'); n_trace = via('trace'); n_mean = via('mean'); n_max = n_amax = via('max'); n_min = n_amin = via('min')
    n_squeeze = via('squeeze'); n_swapaxes = via('swapaxes'); n_prod = via('prod')
    def n_atleast_2d(self, a, k):
        r = self.asarr(a[0])
        return self.view(r, self.e.obj(r).f['idx'], self.to2d(r)) if r is not None else self.e.unknown('atleast_2d')
    def n_atleast_1d(self, a, k):
        r = self.asarr(a[0])
        return self.view(r, self.e.obj(r).f['idx'], self.e.obj(r).f['shape'] or (1,)) if r is not None else self.e.unknown('atleast_1d')
    def n_ascontiguousarray(self, a, k): return self.n_array(a, k)
    def n_fromiter(self, a, k):
        return self.new((lambda l: (len(l),))(l := list(self.e.iterate(a[0]))), l, dtype=self.dt(k) or (self.otype_name((a[1],))[0] if len(a) > 1 else None))
    def n_concatenate(self, a, k):
        if k or len(a) > 1: return self.e.unknown('concatenate along an axis')
        arrs = [self.asarr(x) for x in self.e.iterate(a[0])]
        if any(x is None for x in arrs): return self.e.unknown('concatenate')
        sh = [self.e.obj(x).f['shape'] for x in arrs]
        if any(s[1:] != sh[0][1:] for s in sh): return self.e.unknown('concatenate of other shapes')
        return self.new((sum(s[0] for s in sh),) + sh[0][1:], [y for x in arrs for y in self.els(x)], self.rescls(*arrs))
    def n_linalg_multi_dot(self, a, k):
        r = None
        for x in self.e.iterate(a[0]): r = x if r is None else self.dot(r, x)
        return r
    def n_ndindex(self, a, k):
        sh = a[0] if len(a) == 1 and isinstance(a[0], tuple) else tuple(a)
        if any(not isinstance(x, int) for x in sh): return self.e.unknown('ndindex')
        return self.e.new_iter(list(itertools.product(*map(range, sh))))
    def n_ndenumerate(self, a, k):
        r = self.asarr(a[0])
        if r is None: return self.e.unknown('ndenumerate')
        return self.e.new_iter(list(zip(itertools.product(*map(range, self.e.obj(r).f['shape'])), self.els(r))))
    def n_frompyfunc(self, a, k):
        f, ni, no = a
        if no != 1 or not isinstance(ni, int): return self.e.unknown('frompyfunc')
        return Native(lambda *x: self.elementwise(lambda *y: self.e.call(f, list(y), {}), *x, dtype='object'), 'ufunc')
    def n_einsum(self, a, k):
        if k or not isinstance(a[0], str) or '.' in a[0]: return self.e.unknown('einsum')
        arrs = [self.asarr(x) for x in a[1:]]
        if any(x is None for x in arrs): return self.e.unknown('einsum')
        ins, _, out = a[0].replace(' ', '').partition('->')
        ins = ins.split(',')
        if not _:
            al = ''.join(ins); out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
        dim = {}
        for t, x in zip(ins, arrs):
            sh = self.e.obj(x).f['shape']
            if len(sh) != len(t): return self.e.unknown('einsum')
            for c, d in zip(t, sh):
                if dim.setdefault(c, d) != d: return self.e.unknown('einsum')
        rest = sorted(set(dim) - set(out))
        vals = [(self.els(x), strides(self.e.obj(x).f['shape'])) for x in arrs]
        res = []
        for oi in itertools.product(*[range(dim[c]) for c in out]):
            env = dict(zip(out, oi)); acc = None
            for ri in itertools.product(*[range(dim[c]) for c in rest]):
                env.update(zip(rest, ri)); t = None
                for s_, (v, st) in zip(ins, vals):
                    x = v[sum(env[c] * q for c, q in zip(s_, st))]
                    t = x if t is None else self.scal('*', t, x)
                acc = t if acc is None else self.scal('+', acc, t)
            res.append(acc)
        return self.new(tuple(dim[c] for c in out), res) if out else res[0]
    def isclose(self, x, y, rtol, atol):
        e = self.e
        ab = lambda v: e.lib.call(Ext('builtins.abs'), [v], {})
        return e.cmp('<=', ab(self.scal('-', x, y)), self.scal('+', atol, self.scal('*', rtol, ab(y))))
    def n_isclose(self, a, k):
        k = dict(k); k.pop('equal_nan', None)
        rt = a[2] if len(a) > 2 else k.pop('rtol', 1e-5); at = a[3] if len(a) > 3 else k.pop('atol', 1e-8)
        if k: return self.e.unknown('isclose')
        return self.elementwise(lambda x, y: self.isclose(x, y, rt, at), a[0], a[1])
    def n_allclose(self, a, k):
        r = self.n_isclose(a, k)
        return self.method(r, 'all', [], {}) if self.isarr(r) else r
    def n_array_equal(self, a, k):
        A, B = self.asarr(a[0]), self.asarr(a[1])
        if A is None or B is None or k: return self.e.unknown('array_equal')
        if self.e.obj(A).f['shape'] != self.e.obj(B).f['shape']: return False
        return self.e.lib.call(Ext('builtins.all'), [self.e.new_list([self.e.cmp('==', x, y) for x, y in zip(self.els(A), self.els(B))])], {})
    def n_linalg_det(self, a, k):
        r = self.asarr(a[0])
        sh = self.e.obj(r).f['shape'] if r is not None else ()
        if len(sh) != 2 or sh[0] != sh[1] or sh[0] > 3: return self.e.unknown('det')
        n, v = sh[0], self.els(r); acc = 0.0
        for p in itertools.permutations(range(n)):
            t = 1.0 if sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n)) % 2 == 0 else -1.0
            for i in range(n): t = self.scal('*', t, v[i * n + p[i]])
            acc = self.scal('+', acc, t)
        return acc
    def n_linalg_solve(self, a, k): return self.dot(self.inverse('inv', a[:1], {}), a[1])
    def n_linalg_norm(self, a, k):
        r = self.asarr(a[0])
        if r is None or len(a) > 1 or k: return self.e.unknown('norm')
        return self.call('numpy.sqrt', [self.n_sum([self.n_square([self.view(r, self.e.obj(r).f['idx'], self.e.obj(r).f['shape'], ND)], {})], {})], {})
    def stack(self, axis):
        def f(a, k):
            e = self.e
            if k or len(a) > 1: return e.unknown('stack')
            arrs = [self.asarr(x) for x in e.iterate(a[0])]
            if not arrs or any(x is None for x in arrs): return e.unknown('stack')
            sh = [e.obj(x).f['shape'] for x in arrs]; v = [self.els(x) for x in arrs]
            if axis == 'h' and all(len(s) == 1 for s in sh): return self.n_concatenate([e.new_list(arrs)], {})
            if axis == 'v': two = [(1,) + s if len(s) == 1 else s for s in sh]
            else: two = [s + (1,) if len(s) == 1 else s for s in sh]
            if any(len(s) != 2 for s in two): return e.unknown('stack')
            if axis == 'v':
                if len({s[1] for s in two}) > 1: return e.unknown('stack')
                return self.new((sum(s[0] for s in two), two[0][1]), [y for x in v for y in x], self.rescls(*arrs))
            if len({s[0] for s in two}) > 1: return e.unknown('stack')
            return self.new((two[0][0], sum(s[1] for s in two)), [x[i * s[1] + j] for i in range(two[0][0]) for s, x in zip(two, v) for j in range(s[1])], self.rescls(*arrs))
        return f
    def n_vstack(self, a, k): return self.stack('v')(a, k)
    def n_hstack(self, a, k): return self.stack('h')(a, k)
    def n_column_stack(self, a, k): return self.stack('c')(a, k)
    def triangle(self, keep):
        def f(a, k):
            r = self.asarr(a[0])
            sh = self.e.obj(r).f['shape'] if r is not None else ()
            if len(sh) != 2 or len(a) > 1 or k: return self.e.unknown('triangle')
            v = self.els(r)
            return self.new(sh, [v[i * sh[1] + j] if keep(i, j) else 0.0 for i in range(sh[0]) for j in range(sh[1])], self.rescls(r))
        return f
    def n_tril(self, a, k): return self.triangle(lambda i, j: j <= i)(a, k)
    def n_triu(self, a, k): return self.triangle(lambda i, j: j >= i)(a, k)
    def n_vdot(self, a, k): return self.dot(self.method(self.asarr(a[0]), 'ravel', [], {}), self.method(self.asarr(a[1]), 'ravel', [], {}))
    n_inner = n_vdot
    def n_size(self, a, k): return len(self.els(self.asarr(a[0])))
    def n_ndim(self, a, k): return len(self.e.obj(self.asarr(a[0])).f['shape'])
    def n_isfinite(self, a, k): return self.elementwise(lambda x: self.e.lib.call(Ext('math.isfinite'), [x], {}), a[0])
    def n_isinf(self, a, k): return self.elementwise(lambda x: self.e.lib.call(Ext('math.isinf'), [x], {}), a[0])
    def n_hypot(self, a, k): return self.elementwise(lambda x, y: self.e.lib.call(Ext('math.hypot'), [x, y], {}), a[0], a[1])
    def n_any(self, a, k): return self.method(self.asarr(a[0]), 'any', [], {})
    def n_all(self, a, k): return self.method(self.asarr(a[0]), 'all', [], {})
    def n_shape(self, a, k): return self.e.obj(self.asarr(a[0])).f['shape']
    def n_reshape(self, a, k): return self.method(self.asarr(a[0]), 'reshape', a[1:], {})
    def n_ravel(self, a, k): return self.method(self.asarr(a[0]), 'ravel', list(a[1:]), k)
    def n_issubdtype(self, a, k): return self.e.unknown('issubdtype')
    def n_errstate(self, a, k): return self.e.alloc(HObj('opaque', Ext('warnings.catch_warnings')))
    def n_linalg_eigh(self, a, k):
        r = self.asarr(a[0])
        if r is None: return Unknown('eigh')
        n = self.e.obj(r).f['shape'][0]
        mk = self.matkey(r)
        vals = self.new((n,), [T('eigval', mk, i) for i in range(n)])
        vecs = self.new((n, n), [T('eigvec', mk, i, j) for i in range(n) for j in range(n)])
        return (vals, vecs)
    def n_linalg_eigvalsh(self, a, k): return self.n_linalg_eigh(a, k)[0]
    def n_linalg_inv(self, a, k): return self.inverse('inv', a, k)
    def n_linalg_pinv(self, a, k): return self.inverse('pinv', a, k)
    def inverse(self, which, a, k):
        e = self.e
        r = self.asarr(a[0])
        if r is None: return Unknown(which)
        o = e.obj(r)
        sh = o.f['shape']
        if len(sh) != 2 or (which == 'inv' and sh[0] != sh[1]):
            e.raise_('ValueError', 'LinAlgError')
        extra = tuple(a[1:]) + tuple(k[x] for x in sorted(k))
        mk = self.matkey(r) + ((extra,) if which == 'pinv' else ())
        items = [T('elem', which, mk, i, j) for i in range(sh[1]) for j in range(sh[0])]
        return self.new((sh[1], sh[0]), items, o.cls if self.ismat(r) else ND, 'float')

    # ------------------------------------------------------------ methods
    def method(self, r, name, a, k):
        e = self.e
        o = e.obj(r)
        sh, idx = o.f['shape'], o.f['idx']
        if name == 'copy': return self.copy(r)
        if name in ('conj', 'conjugate'): return self.copy(r)
        if name == 'view':
            c = a[0] if a else (k.get('type') or o.cls)
            c = e.resolve(c)
            nsh = self.to2d(r) if e.issub(c, MAT) is True else sh
            return self.view(r, idx, nsh, c)
        if name == 'reshape':
            s = a[0] if len(a) == 1 else tuple(a)
            s = e.resolve(s)
            if isinstance(s, int): s = (s,)
            if e.is_kind(s, 'list'): s = tuple(e.obj(s).items)
            if not isinstance(s, tuple): return e.unknown('reshape')
            return self.view(r, idx, self.fixshape(s, len(idx)))
        if name in ('ravel', 'flatten'):
            order = e.resolve(a[0] if a else k.get('order', 'C'))
            if order not in ('C', 'F', 'A', 'K'): return e.unknown('order of elements')
            if len(sh) == 2 and order != 'C':
                cols = [idx[i * sh[1] + j] for j in range(sh[1]) for i in range(sh[0])]
                if order == 'F' or cols == sorted(cols): idx = cols
                elif order == 'K' and idx != sorted(idx): return e.unknown('order of elements')
            elif len(sh) > 2 and order != 'C': return e.unknown('order of elements')
            buf = e.obj(o.f['buf']).items
            v = [buf[i] for i in idx]
            if self.ismat(r): return self.new((1, len(v)), v, o.cls, o.f['dtype'])
            if name == 'ravel': return self.view(r, idx, (len(idx),))
            return self.new((len(v),), v, o.cls, o.f['dtype'])
        if name == 'transpose': return self.transpose(r)
        if name == 'getT': return self.transpose(r)
        if name == 'getH': return self.transpose(r)
        if name == 'getA': return self.view(r, idx, sh, ND)
        if name == 'diagonal':
            v = self.n_diag([r], {})
            if self.ismat(r): return self.view(v, e.obj(v).f['idx'], (1, e.obj(v).f['shape'][0]), o.cls)
            return v
        if name == 'dot': return self.dot(r, a[0])
        if name == 'astype':
            ot = self.otype_name((a[0],))[0]
            return self.finish(sh, self.els(r), o.cls, ot)
        if name == 'tolist':
            def rec(x):
                if not self.isarr(x): return x
                oo = e.obj(x)
                if not oo.f['shape']: return self.els(x)[0]
                if len(oo.f['shape']) == 1: return e.new_list(self.els(x))
                m, n = oo.f['shape'][:2]
                v = self.els(x)
                return e.new_list([e.new_list(v[i * n:(i + 1) * n]) for i in range(m)])
            return rec(r)
        if name == 'item':
            if not a: return self.els(r)[0]
            i = e.resolve(a[0]) if len(a) == 1 else tuple(a)
            if isinstance(i, int): return self.els(r)[i]
            return self.getitem(r, o, i)
        if name in ('sum', 'prod', 'mean', 'max', 'min'):
            ax = a[0] if a else k.get('axis')
            if len(a) > 1 or set(k) - {'axis', 'keepdims'} or k.get('keepdims') not in (None, False): return e.unknown('array method %s' % name)
            def fold(xs):
                acc = None
                for x in xs:
                    acc = x if acc is None else self.scal('*' if name == 'prod' else '+', acc, x) if name in ('sum', 'mean', 'prod') else self.minmax(name)(acc, x)
                if acc is None:
                    if name == 'sum': return 0.0
                    if name == 'prod': return 1.0
                    e.raise_('ValueError', 'zero-size array')
                return self.scal('/', acc, len(xs)) if name == 'mean' else acc
            if ax is None: return fold(self.els(r))
            if isinstance(ax, int) and -len(sh) <= ax < len(sh):
                ax %= len(sh)
                st = strides(sh); v = self.els(r)
                osh = sh[:ax] + sh[ax + 1:]
                out = [fold([v[sum(x * s for x, s in zip(oi[:ax] + (i,) + oi[ax:], st))] for i in range(sh[ax])]) for oi in itertools.product(*map(range, osh))]
                if self.ismat(r): return self.new((1,) + osh if ax == 0 else osh + (1,), out, o.cls)
                return self.new(osh, out) if osh else out[0]
            return e.unknown('array method %s' % name)
        if name == 'trace':
            return self.method(self.n_diag([r], {}), 'sum', [], {}) if not a and not k else e.unknown('trace')
        if name == 'clip':
            lo = a[0] if a else k.get('min'); hi = a[1] if len(a) > 1 else k.get('max')
            return self.n_clip([r, lo, hi], {}) if set(k) <= {'min', 'max'} else e.unknown('clip')
        if name == 'squeeze': return self.view(r, idx, tuple(d for d in sh if d != 1)) if not a and not k and not self.ismat(r) else e.unknown('squeeze')
        if name == 'swapaxes': return self.transpose(r) if sorted(x % max(len(sh), 1) for x in a if isinstance(x, int)) == [0, 1] and len(sh) == 2 else e.unknown('swapaxes')
        if name in ('any', 'all'):
            return e.lib.call(Ext('builtins.' + name), [e.new_list(self.els(r))], {})
        if name == 'getI':
            m, n = sh
            return self.inverse('inv' if m == n else 'pinv', [r], {})
        if name == 'fill':
            w = e.w(o.f['buf']).items
            for i in idx: w[i] = a[0]
            return None
        if name == '__len__': return self.length(r, o)
        if name == '__iter__': return e.new_iter(self.iterate(r, o))
        if name == '__getitem__': return self.getitem(r, o, a[0])
        if name == '__setitem__':
            self.setitem(r, o, a[0], a[1]); return None
        return e.unknown('array method %s' % name)

METHODS = {'copy', 'conj', 'conjugate', 'view', 'reshape', 'ravel', 'flatten', 'transpose', 'getT', 'getH', 'getA', 'diagonal', 'dot',
           'astype', 'tolist', 'item', 'sum', 'prod', 'mean', 'max', 'min', 'trace', 'clip', 'squeeze', 'swapaxes', 'any', 'all', 'getI', 'fill', '__len__', '__iter__', '__getitem__', '__setitem__'}
