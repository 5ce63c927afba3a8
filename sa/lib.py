"""Models of the builtins and of the standard library (the trusted base).

Constants are folded with the standard library itself; everything else is
mapped to uninterpreted terms with their sign/domain facts.  No repository
code is ever executed.
"""
import ast, importlib, inspect, math, operator, re, types, builtins as _bi, numbers, sys
from .terms import *
from .engine import HObj, AbsRaise, GiveUp, Native, PathDead, sorted2

ALLOWED = ('builtins', 'math', 'sys', 'itertools', 'functools', 'operator', 'collections', 'copy', 're', 'warnings',
           'numbers', 'inspect', 'types', 'string', 'decimal', 'contextlib', 'cmath', 'abc', 'typing', 'fractions',
           'textwrap', 'weakref', 'locale', 'bisect', 'heapq', 'os', 'random', 'time', 'threading', 'codecs', 'unicodedata')
PURE_MATH = set(n for n in dir(math) if callable(getattr(math, n)))

MATH_ANY1 = {'sin', 'cos', 'tan', 'asinh', 'atan', 'tanh', 'erf', 'erfc', 'degrees', 'radians', 'exp', 'expm1', 'cosh', 'sinh',
             'fabs', 'gamma', 'lgamma', 'cbrt', 'exp2'}
OVERFLOWING = {'exp', 'expm1', 'cosh', 'sinh', 'gamma', 'lgamma', 'exp2', 'ldexp', 'hypot', 'pow'}
DOMAIN = {  # name -> range of accepted first argument
    'sqrt': Rng(0, math.inf), 'log': Rng(0, math.inf, False, True), 'log10': Rng(0, math.inf, False, True),
    'log2': Rng(0, math.inf, False, True), 'log1p': Rng(-1, math.inf, False, True),
    'acos': Rng(-1, 1), 'asin': Rng(-1, 1), 'acosh': Rng(1, math.inf), 'atanh': Rng(-1, 1, False, False),
}
FINITE_ONLY = {'sin', 'cos', 'tan', 'fmod0'}

# Abstract digits: private characters that stand for any decimal digit, and
# the same digit in superscript.
ABS_RE = re.compile('[\ue000-\ue1ff]')
SUPERDIGITS = '\u2070\xb9\xb2\xb3\u2074\u2075\u2076\u2077\u2078\u2079'
def has_abs(s): return isinstance(s, str) and ABS_RE.search(s) is not None
def abs_digit(k): return chr(0xe000 + k)
def abs_super(k): return chr(0xe100 + k)
REPS = [lambda k: 0, lambda k: 1, lambda k: 7, lambda k: (3 * k + 2) % 10, lambda k: (7 * k + 4) % 10]
def represent(x, r):
    """Replaces the abstract digits by the ones of a representative."""
    if isinstance(x, str):
        return ABS_RE.sub(lambda m: str(r(ord(m.group()) & 0xff)) if ord(m.group()) < 0xe100 else SUPERDIGITS[r(ord(m.group()) & 0xff)], x)
    if isinstance(x, (tuple, list)): return type(x)(represent(y, r) for y in x)
    if isinstance(x, dict): return {represent(k, r): represent(v, r) for k, v in x.items()}
    return x
def plain_digits(x):
    if isinstance(x, str): return ABS_RE.sub(lambda m: chr(0xe000 + (ord(m.group()) & 0xff)), x)
    if isinstance(x, (tuple, list)): return type(x)(plain_digits(y) for y in x)
    return x
def any_abs(x):
    if isinstance(x, str): return has_abs(x)
    if isinstance(x, (tuple, list)): return any(any_abs(y) for y in x)
    if isinstance(x, dict): return any(any_abs(y) for y in x.values())
    return False
NOFIT = object()
def lift_abs(fn, *args):
    """fn(args) for all values of the abstract digits, or NOFIT; exceptions of
    fn are let through when all representatives raise them."""
    outs = []
    for r in REPS:
        try: outs.append((True, fn(*represent(args, r)), r))
        except (ValueError, TypeError, IndexError, KeyError, OverflowError, LookupError) as x: outs.append((False, x, r))
    if not any(o[0] for o in outs):
        if len({type(o[1]) for o in outs}) == 1: raise outs[0][1]
        return NOFIT
    if not all(o[0] for o in outs): return NOFIT
    if len({repr(o[1]) for o in outs}) == 1 and not isinstance(outs[0][1], float): return outs[0][1]
    try: res = fn(*args)
    except Exception: return NOFIT
    for c in (res, plain_digits(res)):
        if all(represent(c, r) == v for _, v, r in outs): return c
    return NOFIT

LAZY_OK = {'builtins.' + n for n in ('iter', 'isinstance', 'map', 'filter', 'type', 'callable', 'hasattr', 'id')} | {'iter.__iter__'}
PARTIAL = {'builtins.next', 'builtins.zip', 'builtins.enumerate', 'iter.__next__', 'builtins.any', 'builtins.all'}

class Lib:
    def __init__(self, eng):
        self.e = eng
        self.re_hook = None
        self.np = None
        self._real = {}

    # ------------------------------------------------------------ library objects
    REAL_TYPES = {'builtins.NoneType': type(None), 'builtins.ellipsis': type(Ellipsis), 'builtins.NotImplementedType': type(NotImplemented),
                  'builtins.function': types.FunctionType, 'builtins.builtin_function_or_method': types.BuiltinFunctionType}
    def real(self, path):
        if path in self._real:
            return self._real[path]
        if path in self.REAL_TYPES:
            return (self.REAL_TYPES[path],)
        parts = path.split('.')
        r = None
        if parts[0] in ALLOWED:
            try:
                o = importlib.import_module(parts[0])
                for p in parts[1:]:
                    if not hasattr(o, p):
                        try:
                            o = importlib.import_module('.'.join(parts[:parts.index(p) + 1]))
                            continue
                        except Exception:
                            raise AttributeError(p)
                    o = getattr(o, p)
                r = (o,)
            except (AttributeError, ImportError):
                r = None
        self._real[path] = r
        return r

    def import_ext(self, name):
        top = name.split('.')[0]
        if top == 'numpy':
            return Ext(name)
        if top in ('past', 'future'):
            return Ext(name)
        if top in ALLOWED:
            if self.real(name) is None:
                self.e.raise_('ImportError', 'No module named %s' % name)
            return Ext(name)
        try:
            import importlib.util
            found = importlib.util.find_spec(top) is not None
        except (ImportError, ValueError):
            found = False
        if not found and top not in ('nose', 'pytest', 'scipy'):
            self.e.raise_('ImportError', 'No module named %s' % name)
        self.e.note('import of unmodelled module %s' % name)
        return Ext(name)

    def builtin(self, name):
        v = getattr(_bi, name)
        if isinstance(v, (bool, type(None))) or v is NotImplemented or v is Ellipsis:
            return v
        return Ext('builtins.' + name)

    CONST_PATHS = {'sys.version_info': tuple(sys.version_info)}

    def ext_attr(self, ext, name):
        p = ext.path
        q = p + '.' + name
        top = p.split('.')[0]
        if q in ('past.builtins.basestring', 'builtins.basestring'):
            return Ext('past.builtins.basestring') if top == 'past' else None
        if top == 'past':
            return Ext(q)
        if top == 'numpy' or top == 'nparr':
            return self.npm().attr(ext, name)
        if p == 'sys' and name == 'modules':
            return Ext('sys.modules')
        if p == 'sys.modules':
            return Ext('dict.' + name)
        if q in self.CONST_PATHS:
            return self.CONST_PATHS[q]
        r = self.real(p)
        if r is None:
            if p.startswith('builtins.') or top in ALLOWED:
                return self.pseudo_attr(ext, name)
            return Ext(q)
        o = r[0]
        if not hasattr(o, name):
            return None
        v = getattr(o, name)
        if isinstance(v, types.ModuleType):
            return Ext(v.__name__)
        if is_prim(v) and not isinstance(v, type):
            return v
        if isinstance(v, tuple) and type(v) is tuple and all(is_prim(x) for x in v):
            return v
        if name in ('__class__',):
            return self.ext_type(ext)
        if name == '__dict__':
            if isinstance(o, type):
                return self.e.new_dict([(k, None if x is None else x if is_prim(x) else Ext('%s.%s' % (ext.path, k))) for k, x in vars(o).items() if k not in ('__dict__', '__doc__')])
            return Unknown('library __dict__')
        # canonical location of re-exported builtins
        if isinstance(v, type) and v.__module__ == 'builtins':
            return Ext('builtins.' + v.__name__)
        return Ext(q)

    def pseudo_attr(self, ext, name):
        if name == '__name__':
            return ext.path.split('.')[-1]
        if name == '__doc__':
            return 'doc'
        if name in ('__dict__',):
            return None
        return Ext(ext.path + '.' + name)

    def ext_type(self, v):
        r = self.real(v.path)
        if r is not None:
            t = type(r[0])
            if isinstance(r[0], type):
                return Ext('builtins.type')
            return Ext('builtins.' + t.__name__) if t.__module__ == 'builtins' else Ext(t.__module__ + '.' + t.__name__)
        return Ext('ext.object')

    def ext_is_descriptor(self, ext):
        r = self.real(ext.path)
        if r is None:
            return False
        return isinstance(r[0], (types.FunctionType, type(float.__add__), type(str.join), type(float.real)))

    def ext_mro(self, ext):
        if ext.path == 'numpy.matrix':
            return [ext, Ext('numpy.ndarray'), Ext('builtins.object')]
        r = self.real(ext.path)
        if r is not None and isinstance(r[0], type):
            return [Ext('builtins.' + c.__name__ if c.__module__ == 'builtins' else c.__module__ + '.' + c.__name__) for c in r[0].__mro__]
        return [ext, Ext('builtins.object')]

    def ext_issub(self, c, d):
        if d.path == 'past.builtins.basestring':
            return c.path in ('builtins.str', 'builtins.bytes')
        if c.path == 'past.builtins.basestring':
            return d.path == 'builtins.object'
        if c.path.startswith('user.') or d.path.startswith('user.'):
            return c.path == d.path or d.path == 'builtins.object'
        NP = {'numpy.matrix': ('numpy.ndarray',), 'numpy.float64': ('numpy.generic', 'numpy.floating', 'builtins.float', 'numbers.Number', 'numbers.Real', 'numpy.number', 'numpy.inexact'),
              'numpy.int64': ('numpy.generic', 'numbers.Number', 'numpy.number', 'numpy.integer', 'numbers.Integral', 'numbers.Real')}
        if c.path.startswith('numpy.') or d.path.startswith('numpy.'):
            if c is d or d.path == 'builtins.object': return True
            return d.path in NP.get(c.path, ())
        a, b = self.real(c.path), self.real(d.path)
        if a is None or b is None:
            if c is d: return True
            if c.path.startswith(('types.', 'ext.', 'nparr', 'dict.', 'list.')) or d.path.startswith(('types.',)):
                return False
            return None
        try:
            return issubclass(a[0], b[0])
        except TypeError:
            return None

    def npm(self):
        if self.np is None:
            from .npmodel import NP
            self.np = NP(self.e)
        return self.np

    # ------------------------------------------------------------ attributes of abstract objects
    def prim_attr(self, v, name):
        """Attribute of a primitive constant, tuple or scalar term."""
        if isinstance(v, Term):
            ty = {'float': 'float', 'int': 'int', 'bool': 'bool', 'str': 'str', 'complex': 'complex', 'num': 'float'}.get(v.ty)
            if ty is None:
                if v.ty == 'any':
                    return T('attr', v, name, ty='any')
                return None
        elif isinstance(v, tuple):
            ty = 'tuple'
        elif isinstance(v, frozenset):
            ty = 'frozenset'
        else:
            ty = type(v).__name__
        if name == '__class__':
            return Ext('builtins.' + ty)
        if name == '__dict__':
            return None
        rt = getattr(_bi, ty, type(v) if is_prim(v) else None)
        if rt is None or not hasattr(rt, name):
            return None
        if name in ('real',) and ty in ('int', 'float'):
            return v
        if isinstance(v, complex) and name in ('real', 'imag'): return getattr(v, name)
        if name in ('imag',) and ty in ('int', 'float'):
            return 0
        return Bound(Ext('builtins.%s.%s' % (ty, name)), v)

    def inst_ext_attr(self, r, o, name):
        cls = o.cls
        e = self.e
        if any(b.path.startswith('builtins.') and isinstance(self.real(b.path)[0], type) and issubclass(self.real(b.path)[0], BaseException)
               for b in e.ext_bases(cls) if self.real(b.path)):
            if name == 'args':
                return o.f.get('args', ())
            if name in ('message',):
                return None
            if name == 'with_traceback':
                return Native(lambda tb: r, name)
            if name == '__traceback__' or name == '__cause__' or name == '__context__':
                return None
        if isinstance(cls, Ext):
            if cls.path == 're.Match' or cls.path == 're.Pattern':
                return Bound(Ext(cls.path + '.' + name), r)
            if cls.path == 'inspect.FullArgSpec':
                return None
            if cls.path.startswith('user.'):
                return None
            if cls.path in ('operator.itemgetter',):
                return None
        if name in ('__init__',) and isinstance(cls, Ref):
            return Native(lambda *a, **k: None, 'object.__init__')
        if name == '__hash__':
            return Bound(Ext('builtins.object.__hash__'), r)
        if name in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__', '__repr__', '__str__', '__reduce_ex__', '__reduce__', '__setattr__', '__sizeof__', '__format__'):
            return Bound(Ext('builtins.object.' + name), r)
        for b in e.ext_bases(cls):
            if b.path.startswith('numpy.'):
                x = self.npm().inst_attr(r, o, name)
                if x is not None:
                    return x
        return None

    LISTM = set(dir(list)) | {'appendleft', 'popleft', 'extendleft', 'rotate'}
    def obj_attr(self, r, o, name):
        k = o.kind
        if name == '__class__':
            return self.e.type_of(r)
        if k == 'list' and name in self.LISTM:
            return Bound(Ext('list.' + name), r)
        if k == 'dict':
            if isinstance(o.cls, Ref):
                ca = self.e.class_lookup(o.cls, name)
                if ca is not None:
                    return self.e.bind(ca, r)
            if name == 'default_factory' and self.e.issub_dd(o):
                return o.f.get('default_factory')
            if hasattr(dict, name) or name in ('move_to_end', 'iteritems', 'most_common'):
                if name == 'iteritems': return None
                return Bound(Ext('dict.' + name), r)
            return None
        if k == 'set' and hasattr(set, name):
            return Bound(Ext('set.' + name), r)
        if k == 'iter':
            if name in ('__next__', '__iter__', 'close', 'send'):
                return Bound(Ext('iter.' + name), r)
            return None
        if k in ('nparray', 'npvec', 'npext', 'npflat'):
            return self.npm().obj_attr(r, o, name)
        if k == 'opaque':
            return None
        if k in ('staticmethod', 'classmethod') and name == '__func__':
            return o.f['f']
        return None

    def obj_setattr(self, r, o, name, val):
        if o.kind == 'dict' and name == 'default_factory':
            self.e.w(r).f['default_factory'] = val
            return True
        if o.kind in ('nparray', 'npvec', 'npext', 'npflat'):
            return self.npm().obj_setattr(r, o, name, val)
        if o.kind == 'property' and name == '__doc__':
            return True
        return False

    def obj_len(self, r, o):
        if o.kind in ('nparray', 'npext', 'npflat'):
            return self.npm().length(r, o)
        return None

    def obj_iter(self, r, o):
        if o.kind in ('nparray', 'npext', 'npflat'):
            return self.npm().iterate(r, o)
        if o.kind == 'inst' and o.cls is Ext('inspect.FullArgSpec'):
            return [o.f[k] for k in ('args', 'varargs', 'varkw', 'defaults', 'kwonlyargs', 'kwonlydefaults', 'annotations')]
        return None

    def obj_getitem(self, r, o, i):
        if o.kind in ('nparray', 'npext', 'npflat'):
            return self.npm().getitem(r, o, i)
        if o.kind == 'inst' and o.cls is Ext('re.Match'):
            return self.match_group(r, o, i)
        if o.kind == 'inst' and o.cls is Ext('inspect.FullArgSpec'):
            return self.obj_iter(r, o)[i]
        return None

    def obj_setitem(self, r, o, i, val):
        if o.kind in ('nparray', 'npext', 'npflat'):
            return self.npm().setitem(r, o, i, val)
        return False

    def np_compare(self, op, a, b):
        for x in (a, b):
            if self.e.is_kind(x, 'nparray', 'npext', 'npflat'):
                return self.npm().compare(op, a, b)
        return None

    def np_inplace(self, op, x, y):
        return self.npm().inplace(op, x, y)

    def ext_getitem(self, ext, i):
        if ext.path == 'sys.modules':
            i = self.e.resolve(i)
            if i in self.e.modules:
                return self.e.modules[i]
            return self.import_ext(i)
        if ext.path.startswith('numpy'):
            return self.npm().ext_getitem(ext, i)
        return Unknown('item of library object')

    def call_obj(self, f, o, args, kwargs):
        if o.kind in ('npvec', 'npext', 'nparray', 'npflat'):
            return self.npm().call_obj(f, o, args, kwargs)
        if o.kind == 'inst' and isinstance(o.cls, Ext):
            if o.cls.path == 'operator.itemgetter':
                ks = o.f['args']
                v = [self.e.getitem(args[0], k) for k in ks]
                return v[0] if len(v) == 1 else tuple(v)
            if o.cls.path == 'operator.attrgetter':
                def ga(x, path):
                    for p in path.split('.'):
                        x = self.e.getattr_(x, p)
                    return x
                v = [ga(args[0], k) for k in o.f['args']]
                return v[0] if len(v) == 1 else tuple(v)
            if o.cls.path == 'operator.methodcaller':
                n = o.f['args']
                return self.e.call(self.e.getattr_(args[0], n[0]), list(n[1:]) + args[1:], dict(o.f['kwargs']))
        return ABSENT

    # ------------------------------------------------------------ operators on non-repo, non-number operands
    def prim_special(self, obj, m, other):
        """obj.__m__(other) where obj is not a repository instance and other is."""
        e = self.e
        obj = e.numify(obj)
        if isinstance(obj, Ref):
            o = e.obj(obj)
            if o.kind in ('nparray', 'npext', 'npflat'):
                r = self.npm().special(obj, m, other)
                return r
            if o.kind in ('opaque', 'unknown'):
                return T('foreign', m, T('ref', obj, ty='any'), T('ref', other, ty='any'), ty='any')
        if isinstance(obj, Unknown):
            return Unknown('operation of unknown with repository object')
        if isinstance(obj, (str,)) and m == '__mod__':
            return self.pct_format(obj, other)
        if isinstance(obj, Term) and obj.ty == 'any':
            return Unknown('operation of symbolic value with repository object')
        return NotImplemented

    def binop(self, op, a, b):
        e = self.e
        if isinstance(a, Ref) and e.obj(a).kind == 'trap' or isinstance(b, Ref) and e.obj(b).kind == 'trap':
            for x in (a, b):
                if isinstance(x, Ref) and e.obj(x).kind == 'trap':
                    e.trap(e.obj(x), 'operation')
            return Unknown('operation on opaque operand')
        sa = isinstance(a, str) or (isinstance(a, Term) and a.ty == 'str')
        sb = isinstance(b, str) or (isinstance(b, Term) and b.ty == 'str')
        if sa and op == '%':
            return self.pct_format(a, b)
        if sa and sb and op == '+':
            return self.cat(a, b)
        if op == '*' and sa and (isinstance(b, int) or isinstance(b, Term) and b.ty in ('int', 'bool')):
            if isinstance(a, str) and isinstance(b, int): return a * b
            return T('strmul', a, b, ty='str')
        if op == '*' and sb and isinstance(a, int):
            return self.binop(op, b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if isinstance(a, tuple) and op == '*' and isinstance(b, int):
            return a * b
        if isinstance(b, tuple) and op == '*' and isinstance(a, int):
            return b * a
        if isinstance(a, bytes) and isinstance(b, bytes) and op == '+':
            return a + b
        for x in (a, b):
            if isinstance(x, Ref) and e.obj(x).kind in ('nparray', 'npext', 'npflat') or (isinstance(x, Ext) and x.path.startswith('numpy')):
                return self.npm().binop(op, a, b)
            if isinstance(x, Ref) and e.obj(x).kind == 'inst' and isinstance(e.obj(x).cls, Ext) and e.obj(x).cls.path.startswith('numpy'):
                return self.npm().binop(op, a, b)
        if isinstance(a, Ref):
            oa = e.obj(a)
            if oa.kind == 'list' and op == '+':
                if e.is_kind(b, 'list'):
                    return e.new_list(list(oa.items) + list(e.obj(b).items))
                e.raise_('TypeError', 'can only concatenate list')
            if oa.kind == 'list' and op == '*':
                if isinstance(b, int): return e.new_list(list(oa.items) * b)
                if isinstance(b, Term) and b.ty == 'int': return Unknown('list * symbolic')
            if oa.kind == 'set' or oa.kind == 'dict':
                if op == '|' and oa.kind == 'dict' and e.is_kind(b, 'dict'):
                    r = self.copy_dict(a)
                    self.method_dict(r, e.obj(r), 'update', [b], {})
                    return r
                m = {'|': 'union', '&': 'intersection', '-': 'difference', '^': 'symmetric_difference'}.get(op)
                if m and (e.is_kind(b, 'set', 'dict')):
                    return self.method_set(a, oa, m, [b], {})
            if oa.kind == 'iter' and op in '|&-^' and e.is_kind(b, 'set', 'iter'):
                return self.binop(op, e.new_set(e.iterate(a)), b)
            if oa.kind in ('opaque', 'unknown'):
                return T('foreign', op, T('ref', a, ty='any'), b if not isinstance(b, Ref) else T('ref', b, ty='any'), ty='any') if oa.kind == 'opaque' else Unknown('operation on unknown')
        if isinstance(b, Ref):
            ob = e.obj(b)
            if ob.kind == 'list' and op == '*' and isinstance(a, int):
                return e.new_list(list(ob.items) * a)
            if ob.kind in ('opaque',):
                return T('foreign', op, a if not isinstance(a, Ref) else T('ref', a, ty='any'), T('ref', b, ty='any'), ty='any')
            if ob.kind == 'unknown':
                return Unknown('operation on unknown')
        if isinstance(a, Term) and a.ty == 'any' or isinstance(b, Term) and b.ty == 'any':
            return T({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(op, 'op' + op), a, b, ty='any')
        if isinstance(a, Ext) and isinstance(b, Ext) and op == '|':
            return Unknown('type union')
        e.raise_('TypeError', 'unsupported operand type(s) for %s' % op)

    def unary(self, op, v):
        if isinstance(v, Term) and v.ty == 'any':
            return T('neg' if op == '-' else 'op' + op, v, ty='any')
        if self.e.is_kind(v, 'nparray', 'npext', 'npflat'):
            return self.npm().unary(op, v)
        if self.e.is_kind(v, 'unknown', 'opaque', 'trap'):
            return Unknown('unary')
        return None

    # ------------------------------------------------------------ strings
    def cat(self, *parts):
        e = self.e
        out = []
        def add(p):
            if isinstance(p, Term) and p.op == 'cat':
                for x in p.args: add(x)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p == '' and isinstance(p, str):
                pass
            else:
                out.append(p)
        parts = list(parts)
        for i, p in enumerate(parts):
            if isinstance(p, Phi):
                return e.lift(lambda q: self.cat(*(parts[:i] + [q] + parts[i+1:])), p)
            if isinstance(p, Unknown):
                return Unknown(p.why)
        for p in parts: add(p)
        out = [p for p in out if not (isinstance(p, str) and p == '')]
        if not out: return ''
        if len(out) == 1: return out[0]
        return T('cat', *out, ty='str')

    def is_str(self, v):
        return isinstance(v, str) or (isinstance(v, Term) and v.ty == 'str')

    def str_of(self, v, rep=False):
        e = self.e
        if isinstance(v, Phi):
            return e.lift(lambda x: self.str_of(x, rep), v)
        if isinstance(v, Unknown): return Unknown(v.why)
        if isinstance(v, str): return repr(v) if rep else v
        if is_prim(v): return repr(v) if rep else str(v)
        if isinstance(v, tuple) and all(is_prim(x) for x in v): return repr(v)
        if isinstance(v, Term):
            if v.ty == 'str' and not rep: return v
            if v.ty == 'int': return T('pct', '%d', v, ty='str')
            return T('repr' if rep else 'str', v, ty='str')
        if isinstance(v, Ref):
            o = e.obj(v)
            if o.kind == 'inst':
                for m in (('__repr__',) if rep else ('__str__', '__repr__')):
                    f = e.class_lookup(o.cls, m)
                    if f is not None:
                        return e.call(e.bind(f, v), [], {})
                if '_num' in o.f:
                    return self.str_of(o.f['_num'], rep)
                if 'args' in o.f and len(o.f['args']) == 1 and not rep:
                    return self.str_of(o.f['args'][0])
            if o.kind == 'class':
                return "<class '%s.%s'>" % (o.f.get('module'), o.f['name'])
            if o.kind == 'trap':
                e.trap(o, 'str')
            return T('str', T('ref', v, ty='any'), ty='str')
        if isinstance(v, Ext):
            return "<class '%s'>" % v.path.replace('builtins.', '')
        return T('str', T('val', v, ty='any'), ty='str')

    def str_eq(self, a, b):
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, Term) and a is b: return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == 'cat' and isinstance(y, str):
                cs = [p for p in x.args if isinstance(p, str)]
                if isinstance(x.args[0], str) and not y.startswith(x.args[0]): return False
                if isinstance(x.args[-1], str) and not y.endswith(x.args[-1]): return False
                if sum(map(len, cs)) > len(y): return False
        return None

    def str_contains(self, c, x):
        if isinstance(c, str) and isinstance(x, str):
            if has_abs(c) or has_abs(x):
                r = lift_abs(lambda c, x: x in c, c, x)
                return Unknown('containment that depends on digits') if r is NOFIT else r
            return x in c
        if not self.is_str(x):
            if isinstance(x, Term) and x.ty == 'any': return T('in', x, c, ty='bool')
            self.e.raise_('TypeError', "'in <string>' requires string")
        if isinstance(c, Term) and c.op == 'cat' and isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.args):
            return True
        t = T('strin', x, c, ty='bool')
        d = self.e.decide(t)
        return t if d is None else d

    def str_getitem(self, v, i):
        if isinstance(i, slice):
            if v.op == 'cat' and i.step is None:
                # (const + ... + const)[1:-1] and such
                a, z = i.start or 0, i.stop
                args = list(v.args)
                if isinstance(a, int) and a >= 0 and (z is None or (isinstance(z, int) and z < 0)):
                    if a and isinstance(args[0], str) and len(args[0]) >= a:
                        args[0] = args[0][a:]; a = 0
                    if z and isinstance(args[-1], str) and len(args[-1]) >= -z:
                        args[-1] = args[-1][:z]; z = None
                    if a == 0 and z is None:
                        return self.cat(*args)
            return T('slice', v, i.start, i.stop, i.step, ty='str')
        self.e.may_raise('IndexError', 'str index', (v, i))
        return T('char', v, i, ty='str')

    PCT = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d*)(?:\.(?P<prec>\*|\d*))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')

    def pct_format(self, s, args):
        e = self.e
        if isinstance(s, Term):
            if s.op == 'cat' and all(isinstance(p, str) for p in s.args): pass
            return T('pctdyn', s, args if not isinstance(args, (Ref, Unknown)) else T('val', args, ty='any'), ty='str')
        args_t = args if isinstance(args, tuple) else (args,)
        out, pos, ai = [], 0, 0
        it = list(self.PCT.finditer(s))
        for m in it:
            out.append(s[pos:m.start()])
            pos = m.end()
            if m.group('conv') == '%':
                out.append('%')
                continue
            if m.group('key') is not None:
                v = e.getitem(args, m.group('key'))
                star = []
            else:
                star = []
                for g in ('width', 'prec'):
                    if m.group(g) == '*':
                        if ai >= len(args_t): e.raise_('TypeError', 'not enough arguments for format string')
                        star.append(args_t[ai]); ai += 1
                if ai >= len(args_t): e.raise_('TypeError', 'not enough arguments for format string')
                v = args_t[ai]; ai += 1
            spec = '%' + m.group('flags') + m.group('width') + ('.' + m.group('prec') if m.group('prec') is not None else '') + m.group('conv')
            out.append(self.pct1(spec, m, star, v))
        out.append(s[pos:])
        if ai < len(args_t) and isinstance(args, tuple):
            e.raise_('TypeError', 'not all arguments converted during string formatting')
        return self.cat(*out)

    def pct1(self, spec, m, star, v):
        e = self.e
        def go(v, *star):
            v = e.numify(v)
            conv = m.group('conv')
            if isinstance(v, Unknown): return Unknown(v.why)
            if is_prim(v) and all(is_prim(x) for x in star):
                try:
                    return spec % (tuple(star) + (v,))
                except (TypeError, ValueError, OverflowError) as x:
                    e.raise_(type(x).__name__, str(x))
            if conv in 'sra':
                t = self.str_of(v, conv != 's')
                if spec in ('%s', '%r', '%a'): return t
                if isinstance(t, Phi):
                    return e.lift(lambda q: T('pct', spec, *star, q, ty='str'), t)
                return T('pct', spec, *star, t, ty='str')
            if self.is_str(v) or v is None or isinstance(v, tuple):
                e.raise_('TypeError', 'a number is required')
            if isinstance(v, Ref): return T('pct', spec, *star, T('ref', v, ty='any'), ty='str')
            if conv in 'diouxX' and isinstance(v, Term) and v.ty == 'float':
                e.may_raise('ValueError', 'int of nan', (v,))
            return T('pct', spec, *star, v, ty='str')
        return e.lift(go, v, *star)

    def format_(self, v, spec=''):
        e = self.e
        def go(v, spec):
            if isinstance(v, Unknown) or isinstance(spec, Unknown): return Unknown('format')
            if isinstance(v, Ref):
                o = e.obj(v)
                if o.kind == 'inst':
                    f = e.class_lookup(o.cls, '__format__')
                    if f is not None: return e.call(e.bind(f, v), [spec], {})
                    if '_num' not in o.f and spec == '': return self.str_of(v)
                if spec == '' and o.kind in ('class', 'list', 'dict', 'set', 'func', 'function'): return self.str_of(v)
                v2 = e.numify(v)
                if v2 is v: return T('format', T('ref', v, ty='any'), spec, ty='str')
                return e.lift(go, v2, spec)
            if is_prim(v) and isinstance(spec, str):
                try:
                    return format(v, spec)
                except (TypeError, ValueError, OverflowError) as x:
                    e.raise_(type(x).__name__, str(x))
            if spec == '' and self.is_str(v): return v
            if isinstance(v, Term) and v.ty == 'int' and isinstance(spec, str) and re.match(r'[-+ ]?0?\d*d?$', spec): return T('pct', '%' + spec.rstrip('d') + 'd', v, ty='str')
            if isinstance(v, (tuple,)) or isinstance(v, Ext) and spec == '': return self.str_of(v)
            return T('format', v, spec, ty='str')
        return e.lift(go, v, spec)

    FORMAT_FIELD = re.compile(r'\{\{|\}\}|\{([^{}!:]*)(?:!([rsa]))?(?::((?:[^{}]|\{[^{}]*\})*))?\}')
    def str_format(self, s, args, kwargs):
        e = self.e
        out, pos, auto = [], 0, [0]
        def field(name):
            head = re.match(r'[^.\[]*', name).group()
            if head == '':
                v = args[auto[0]] if auto[0] < len(args) else e.raise_('IndexError', 'format index')
                auto[0] += 1
            elif head.isdigit():
                if int(head) >= len(args): e.raise_('IndexError', 'format index')
                v = args[int(head)]
            else:
                if head not in kwargs: e.raise_('KeyError', head)
                v = kwargs[head]
            for a, b in re.findall(r'\.(\w+)|\[([^\]]*)\]', name[len(head):]):
                v = e.getattr_(v, a) if a else e.getitem(v, int(b) if b.isdigit() else b)
            return v
        for m in self.FORMAT_FIELD.finditer(s):
            out.append(s[pos:m.start()])
            pos = m.end()
            if m.group() == '{{': out.append('{'); continue
            if m.group() == '}}': out.append('}'); continue
            v = field(m.group(1))
            if m.group(2): v = self.str_of(v, m.group(2) != 's')
            spec = m.group(3) or ''
            if '{' in spec:
                spec = self.str_format(spec, [field(x) for x in re.findall(r'\{([^{}]*)\}', spec)], {}) if False else self._nested(spec, field)
            out.append(self.format_(v, spec))
        out.append(s[pos:])
        return self.cat(*out)

    def _nested(self, spec, field):
        parts, pos = [], 0
        for m in re.finditer(r'\{([^{}]*)\}', spec):
            parts.append(spec[pos:m.start()])
            parts.append(self.format_(field(m.group(1)), ''))
            pos = m.end()
        parts.append(spec[pos:])
        return self.cat(*parts)

    STRBOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'islower', 'isspace', 'isnumeric', 'isdecimal', 'isalnum', 'isidentifier'}
    def method_str(self, name, args, kwargs):
        e = self.e
        s = args[0]
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return e.lift(lambda q: self.method_str(name, args[:i] + [q] + args[i+1:], kwargs), a)
        if any(isinstance(a, Unknown) for a in args) and name not in ('format', 'join'):
            return Unknown('str method')
        if name == 'join':
            items = [x for x in e.iterate(args[1])]
            if any(e.maybe_absent(x) for x in items):
                return e.settle_list(items, lambda its: self.method_str('join', [s, e.new_list(its)], {}))
            out = []
            for i, x in enumerate(items):
                if not (self.is_str(x) or isinstance(x, (Phi, Unknown)) or (isinstance(x, Term) and x.ty == 'any')):
                    e.raise_('TypeError', 'sequence item: expected str instance')
                if i: out.append(s)
                out.append(x)
            return self.cat(*out)
        if name == 'format' and isinstance(s, str):
            return self.str_format(s, args[1:], kwargs)
        if name in ('__contains__',):
            return self.str_contains(s, args[1])
        if name == '__mod__': return self.pct_format(s, args[1])
        if name == '__add__': return self.cat(*args)
        if name == '__getitem__': return e.getitem(s, args[1])
        if name in ('__format__',): return self.format_(s, args[1])
        if name in ('__str__',): return s
        if name in ('__len__',): return e.length(s)
        conc = []
        for a in args[1:]:
            if isinstance(a, Ref) and e.obj(a).kind == 'dict' and not e.has_cond(a) and all(is_prim(k) and is_prim(v) for k, v in e.obj(a).d.values()):
                conc.append({k: v for k, v in e.obj(a).d.values()})
            else:
                conc.append(a)
        def isc(a):
            return is_prim(a) or isinstance(a, dict) or (isinstance(a, tuple) and all(is_prim(x) for x in a))
        if isinstance(s, str) and all(isc(a) for a in conc) and all(is_prim(x) for x in kwargs.values()):
            try:
                if has_abs(s) or any(any_abs(a) for a in conc):
                    r = lift_abs(lambda s, *c: getattr(s, name)(*c, **kwargs), s, *conc)
                    if r is NOFIT: return Unknown('str.%s of a text with abstract digits' % name)
                else:
                    r = getattr(s, name)(*conc, **kwargs)
            except Exception as x:
                e.raise_(type(x).__name__, str(x))
            return self.from_py(r)
        if name in self.STRBOOL:
            if name == 'startswith' and isinstance(s, Term) and s.op == 'cat' and isinstance(args[1], str) and isinstance(s.args[0], str) and len(s.args[0]) >= len(args[1]):
                return s.args[0].startswith(args[1])
            if name == 'endswith' and isinstance(s, Term) and s.op == 'cat' and isinstance(args[1], str) and isinstance(s.args[-1], str) and len(s.args[-1]) >= len(args[1]):
                return s.args[-1].endswith(args[1])
            t = T('str.' + name, s, *args[1:], ty='bool')
            d = e.decide(t)
            return t if d is None else d
        if name in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace', 'translate', 'zfill', 'rjust', 'ljust', 'center', 'title', 'capitalize', 'expandtabs', 'removeprefix', 'removesuffix', 'casefold', 'swapcase'):
            if name == 'translate':
                a = args[1]
                if isinstance(a, Ref) and e.obj(a).kind == 'dict':
                    tab = tuple(sorted(((k, v) for k, v in e.obj(a).d.values()), key=repr))
                    return T('str.translate', s, tab, ty='str')
            return T('str.' + name, s, *[a if not isinstance(a, Ref) else T('ref', a, ty='any') for a in args[1:]], ty='str')
        if name in ('count', 'find', 'index', 'rfind', 'rindex'):
            if name in ('index', 'rindex'): e.may_raise('ValueError', 'str.' + name, tuple(args))
            return T('str.' + name, *args, ty='int')
        if name in ('partition', 'rpartition', 'split', 'rsplit') and len(args) > 1:
            x = self.exponent_text(s, args[1])
            if x is not None:
                m = T('str.partition', s, args[1], 0, ty='str')
                return (m, args[1], x) if name.endswith('partition') else e.new_list([m, x])
        if name in ('partition', 'rpartition'):
            return tuple(T('str.' + name, s, args[1], i, ty='str') for i in range(3))
        if name in ('split', 'rsplit', 'splitlines'):
            return Unknown('split of symbolic string')
        if name == 'encode': return Unknown('encode')
        return self.e.unknown('str method %s' % name)

    def exponent_text(self, s, letter):
        """Exponent written in a number printed in scientific notation, if its bounds settle it."""
        if not (self.e.intervals and isinstance(s, Term) and s.op in ('pct', 'format') and len(s.args) == 2 and letter in ('e', 'E')): return None
        f, v = s.args if s.op == 'pct' else ('%' + s.args[1], s.args[0]) if isinstance(s.args[1], str) else (None, None)
        if not isinstance(f, str) or not re.fullmatch(r'%[+]?(\.\d+)?' + letter, f): return None
        b = self.e.bounds(v)
        if b is None or b[0] <= 0 <= b[1]: return None
        t = [(f % x).split(letter)[1] for x in b]
        return t[0] if t[0] == t[1] else None

    def from_py(self, r):
        e = self.e
        if is_prim(r): return r
        if isinstance(r, tuple): return tuple(self.from_py(x) for x in r)
        if isinstance(r, list): return e.new_list([self.from_py(x) for x in r])
        if isinstance(r, dict): return e.new_dict([(self.from_py(k), self.from_py(v)) for k, v in r.items()])
        if isinstance(r, (set, frozenset)): return e.new_set([self.from_py(x) for x in r])
        return Unknown('python value')

    # ------------------------------------------------------------ containers
    def copy_dict(self, r):
        e = self.e
        o = e.obj(r)
        n = HObj('dict', o.cls if not isinstance(o.cls, Ref) else Ext('builtins.dict'), dict(o.f), d=dict(o.d))
        n.f.pop('owner', None)
        return e.alloc(n)

    def sym_getitem(self, r, o, i):
        return Unknown('dict lookup with symbolic key')
    def sym_in(self, r, o, x):
        t = T('inkeys', x if not isinstance(x, Ref) else T('ref', x, ty='any'), tuple(k if not isinstance(k, Ref) else T('ref', k, ty='any') for k, _ in o.d.values()), ty='bool')
        d = self.e.decide(t)
        return t if d is None else d

    def pairs(self, v):
        """(key, value) pairs of a mapping or iterable of pairs."""
        e = self.e
        v = e.resolve(v)
        if isinstance(v, Ref) and e.obj(v).kind == 'dict':
            return list(e.obj(v).d.values())
        out = []
        for it in e.iterate(v):
            if e.maybe_absent(it):
                it = e.resolve(it)
                if it is ABSENT: continue
                if isinstance(it, Phi):
                    # conditional pair with a common key
                    ks = {key(x[0]) for _, x in leaves(it) if isinstance(x, tuple)}
                    if len(ks) != 1: raise GiveUp('conditional pair')
                    def val(p):
                        if isinstance(p, Phi): return mkphi(p.c, val(p.a), val(p.b))
                        return p if p is ABSENT else p[1]
                    k0 = [x[0] for _, x in leaves(it) if isinstance(x, tuple)][0]
                    out.append((k0, val(it)))
                    continue
            if isinstance(it, Phi): it = e.resolve(it)
            kv = list(it) if isinstance(it, tuple) else e.iterate(it)
            if len(kv) != 2: e.raise_('ValueError', 'dictionary update sequence')
            out.append((kv[0], kv[1]))
        return out

    def method_dict(self, r, o, name, args, kwargs):
        e = self.e
        if name in ('items', 'iteritems'):
            out = []
            for k, v in o.d.values():
                if e.maybe_absent(v):
                    def mk(x, k=k):
                        if isinstance(x, Phi): return mkphi(x.c, mk(x.a), mk(x.b))
                        return ABSENT if x is ABSENT else (k, x)
                    out.append(mk(v))
                else:
                    out.append((k, v))
            return e.new_list(out)
        if name == 'keys':
            d = HObj('set', Ext('builtins.dict_keys'), d={k: (kk, mkphi_present(v)) for k, (kk, v) in o.d.items()})
            return e.alloc(d)
        if name == 'values':
            return e.new_list([v for _, v in o.d.values()])
        if name == 'get':
            k = args[0]
            dflt = args[1] if len(args) > 1 else kwargs.get('default')
            def get(k):
                en = o.d.get(e.hkey(k))
                if en is None:
                    if e.sym_key(k) or any(e.sym_key(x) for x, _ in o.d.values()):
                        return self.sym_getitem(r, o, k)
                    return dflt
                return e.lift(lambda x: dflt if x is ABSENT else x, en[1])
            return e.lift(get, k)
        if name == 'setdefault':
            k = e.resolve(args[0])
            dflt = args[1] if len(args) > 1 else None
            en = o.d.get(e.hkey(k))
            def sd(x):
                if x is ABSENT:
                    e.setitem(r, k, dflt)
                    return dflt
                return x
            return e.lift(sd, en[1] if en else ABSENT)
        if name == 'pop':
            k = e.resolve(args[0])
            en = o.d.get(e.hkey(k))
            def pp(x):
                if x is ABSENT:
                    if len(args) > 1: return args[1]
                    e.raise_('KeyError', k)
                e.w(r).d.pop(e.hkey(k), None)
                if 'owner' in o.f and isinstance(k, str):
                    e.w(o.f['owner']).f.pop(k, None)
                return x
            return e.lift(pp, en[1] if en else ABSENT)
        if name == 'popitem':
            if e.has_cond(r): return e.settle(r, lambda: self.method_dict(r, e.obj(r), name, args, kwargs))
            if not o.d: e.raise_('KeyError', 'empty')
            w = e.w(r)
            return w.d.pop(list(w.d)[-1])
        if name == 'update':
            prs = (self.pairs(args[0]) if args else []) + list(kwargs.items())
            for k, v in prs:
                hk = e.hkey(k)
                w = e.w(r)
                if e.maybe_absent(v):
                    old = w.d[hk][1] if hk in w.d else ABSENT
                    def mk(x, old=old):
                        if isinstance(x, Phi): return mkphi(x.c, mk(x.a), mk(x.b))
                        return old if x is ABSENT else x
                    v = mk(v)
                w.d[hk] = (k, v)
                if 'owner' in w.f and isinstance(k, str):
                    e.w(w.f['owner']).f[k] = v
            return None
        if name == 'copy' or name == '__copy__': return self.copy_dict(r)
        if name == 'clear':
            e.w(r).d.clear(); return None
        if name == '__contains__': return e.contains(r, args[0])
        if name == '__getitem__': return e.getitem(r, args[0])
        if name == '__setitem__': return e.setitem(r, args[0], args[1])
        if name == '__delitem__': return e.delitem(r, args[0])
        if name == '__iter__': return e.new_iter(e.iterate(r))
        if name == '__len__': return e.length(r)
        if name == '__bool__': return e.truth_value(r)
        if name == 'move_to_end': return None
        if name in ('__eq__', '__ne__'): return e.cmp('==' if name == '__eq__' else '!=', r, args[0])
        if name == '__init__': return self.method_dict(r, o, 'update', args, kwargs)
        return e.unknown('dict.%s' % name)

    def method_set(self, r, o, name, args, kwargs):
        e = self.e
        keyof = e.hkey
        def other(v):
            v = e.resolve(v)
            if isinstance(v, Ref) and e.obj(v).d is not None:
                return {k: (kk, mkphi_present(x) if e.obj(v).kind == 'dict' else x) for k, (kk, x) in e.obj(v).d.items()}
            out = {}
            for x in e.iterate(v):
                if e.maybe_absent(x):
                    x = e.resolve(x)
                    if x is ABSENT: continue
                    if isinstance(x, Phi):
                        vals = [y for _, y in leaves(x) if y is not ABSENT]
                        if len({key(y) for y in vals}) != 1: raise GiveUp('conditional set element')
                        out[keyof(vals[0])] = (vals[0], mkphi_present(x))
                        continue
                out.setdefault(keyof(x), (x, True))
            return out
        def newset(d):
            c = o.cls if o.cls in (Ext('builtins.set'), Ext('builtins.frozenset')) else Ext('builtins.set')
            return e.alloc(HObj('set', c, d=d))
        def pres(x):   # presence condition value: True/ABSENT/Phi
            return x
        def band(x, y):
            if x is ABSENT or y is ABSENT: return ABSENT
            if isinstance(x, Phi): return mkphi(x.c, band(x.a, y), band(x.b, y))
            return y
        def bor(x, y):
            if x is ABSENT: return y
            if isinstance(x, Phi): return mkphi(x.c, bor(x.a, y), bor(x.b, y))
            return x
        def bnot(x):
            if isinstance(x, Phi): return mkphi(x.c, bnot(x.a), bnot(x.b))
            return True if x is ABSENT else ABSENT
        if name in ('union', 'update', '__or__', '__ior__'):
            d = dict(o.d)
            for a in args:
                for k, (kk, x) in other(a).items():
                    d[k] = (kk, bor(d[k][1], x)) if k in d else (kk, x)
            if name in ('update', '__ior__'):
                e.w(r).d = d
                return None if name == 'update' else r
            return newset(d)
        if name in ('intersection', 'intersection_update', '__and__'):
            d = dict(o.d)
            for a in args:
                ot = other(a)
                d = {k: (kk, band(x, ot[k][1])) for k, (kk, x) in d.items() if k in ot}
            if name == 'intersection_update':
                e.w(r).d = d; return None
            return newset(d)
        if name in ('difference', 'difference_update', '__sub__'):
            d = dict(o.d)
            for a in args:
                ot = other(a)
                nd = {}
                for k, (kk, x) in d.items():
                    y = band(x, bnot(ot[k][1])) if k in ot else x
                    if y is not ABSENT: nd[k] = (kk, y)
                d = nd
            if name == 'difference_update':
                e.w(r).d = d; return None
            return newset(d)
        if name in ('symmetric_difference', '__xor__'):
            ot = other(args[0])
            d = {}
            for k, (kk, x) in list(o.d.items()) + list(ot.items()):
                p, q = o.d.get(k, (0, ABSENT))[1], ot.get(k, (0, ABSENT))[1]
                y = bor(band(p, bnot(q)), band(q, bnot(p)))
                if y is not ABSENT: d[k] = (kk, y)
            return newset(d)
        if name == 'add':
            v = args[0]
            def add(v):
                e.w(r).d[keyof(v)] = (v, True)
            return e.lift(add, v)
        if name in ('discard', 'remove'):
            k = keyof(e.resolve(args[0]))
            if k in o.d:
                e.w(r).d.pop(k)
            elif name == 'remove':
                e.raise_('KeyError', args[0])
            return None
        if name == 'pop':
            if e.has_cond(r): return e.settle(r, lambda: self.method_set(r, e.obj(r), name, args, kwargs))
            if not o.d: e.raise_('KeyError', 'pop from an empty set')
            w = e.w(r)
            k = list(w.d)[0]
            return w.d.pop(k)[0]
        if name == 'clear':
            e.w(r).d.clear(); return None
        if name == 'copy': return newset(dict(o.d))
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            ot = other(args[0])
            if any(e.maybe_absent(x) for _, x in list(o.d.values()) + list(ot.values())): return Unknown(name)
            a, b = set(o.d), set(ot)
            return {'issubset': a <= b, 'issuperset': a >= b, 'isdisjoint': not (a & b)}[name]
        if name == '__contains__': return e.contains(r, args[0])
        if name == '__iter__': return e.new_iter(e.iterate(r))
        if name == '__len__': return e.length(r)
        return e.unknown('set.%s' % name)

    def method_list(self, r, o, name, args, kwargs):
        e = self.e
        if name == 'append':
            e.w(r).items.append(args[0]); return None
        if name == 'appendleft':
            e.w(r).items.insert(0, args[0]); return None
        if name == 'extend':
            its = e.iterate(args[0])
            e.w(r).items.extend(its); return None
        if name == 'extendleft':
            its = e.iterate(args[0])
            w = e.w(r); w.items = its[::-1] + w.items; return None
        if name in ('copy', '__copy__'): return e.alloc(HObj('list', o.cls, items=list(o.items)))
        if name == 'clear':
            e.w(r).items.clear(); return None
        if e.has_cond(r) and name in ('pop', 'popleft', 'insert', 'index', 'remove', '__getitem__', '__setitem__', '__delitem__', 'reverse', 'sort'):
            return e.settle(r, lambda: self.method_list(r, e.obj(r), name, args, kwargs))
        if name == 'pop':
            i = e.resolve(args[0]) if args else -1
            if not isinstance(i, int): raise GiveUp('pop at symbolic index')
            if not o.items or not -len(o.items) <= i < len(o.items): e.raise_('IndexError', 'pop from empty list')
            return e.w(r).items.pop(i)
        if name == 'popleft':
            if not o.items: e.raise_('IndexError', 'pop from an empty deque')
            return e.w(r).items.pop(0)
        if name == 'insert':
            i = e.resolve(args[0])
            if not isinstance(i, int): raise GiveUp('insert at symbolic index')
            e.w(r).items.insert(i, args[1]); return None
        if name == 'reverse':
            e.w(r).items.reverse(); return None
        if name == 'sort':
            s = self.sorted_(list(o.items), kwargs) if not any(e.maybe_absent(x) for x in o.items) else [Unknown('sorting a list of unsettled length')]
            e.w(r).items = s
            return None
        if name == 'index':
            items = list(o.items)
            def look(i):
                if i == len(items): e.raise_('ValueError', 'not in list')
                q = e.cmp('==', items[i], args[0])
                if q is True: return i
                return look(i + 1) if q is False else e.branch(q, lambda: i, lambda: look(i + 1))
            return look(0)
        if name == 'remove':
            for i, x in enumerate(o.items):
                q = True if e.is_(x, args[0]) is True else e.cmp('==', x, args[0])
                if q is True:
                    e.w(r).items.pop(i); return None
                if q is not False: raise GiveUp('remove')
            e.raise_('ValueError', 'not in list')
        if name == 'count':
            n = 0
            for x in o.items:
                q = e.cmp('==', x, args[0])
                if q is True: n += 1
                elif q is not False: return Unknown('count')
            return n
        if name == '__getitem__': return e.getitem(r, args[0])
        if name == '__setitem__': return e.setitem(r, args[0], args[1])
        if name == '__delitem__': return e.delitem(r, args[0])
        if name == '__iter__': return e.new_iter(e.iterate(r))
        if name == '__len__': return e.length(r)
        if name == '__contains__': return e.contains(r, args[0])
        return e.unknown('list.%s' % name)

    def sorted_(self, items, kwargs):
        e = self.e
        kf = kwargs.get('key')
        ks = [e.call(kf, [x], {}) for x in items] if kf is not None else items
        def prim(k):
            return is_prim(k) or (isinstance(k, tuple) and all(prim(x) for x in k))
        if all(prim(k) for k in ks):
            try:
                idx = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(kwargs.get('reverse', False)))
                return [items[i] for i in idx]
            except TypeError:
                e.raise_('TypeError', 'unorderable')
        ks = [e.numify(k) if isinstance(k, Ref) else k for k in ks]
        if all(isinstance(k, (int, float)) or isinstance(k, Term) and k.ty in ('int', 'float', 'bool', 'any') for k in ks):
            # numbers: the order that the comparisons give, if they are settled
            out = []
            for k, x in zip(ks, items):
                i = len(out)
                while i:
                    c = e.cmp('<', k, out[i - 1][0]) if not kwargs.get('reverse') else e.cmp('<', out[i - 1][0], k)
                    if not isinstance(c, bool): c = e.decide(c) if isinstance(c, Term) else None
                    if c is None:
                        return [Unknown('order of sorted numbers') for x in items] if len(items) != 2 or kf is not None or kwargs.get('reverse') else [self.f_min([*items], {}), self.f_max([*items], {})]
                    if not c: break
                    i -= 1
                out.insert(i, (k, x))
            return [x for k, x in out]
        if any(isinstance(k, Ref) and e.special_inst(k) and e.class_lookup(e.type_of(k), '__lt__') is not None for k in ks) and len(ks) > 1:
            return [Unknown('order of sorted objects') for x in items]
        return list(items)     # an arbitrary order: the abstract order is kept

    # ------------------------------------------------------------ regular expressions
    def pattern(self, p, flags):
        e = self.e
        if not isinstance(p, str) or not isinstance(flags, int):
            return e.unknown('computed regular expression')
        try:
            c = re.compile(p, flags)
        except re.error as x:
            e.raise_('ValueError', 'bad regular expression %s' % x)
        o = HObj('inst', Ext('re.Pattern'), {'pattern': p, 'flags': int(flags), 'groups': c.groups})
        return e.alloc(o)

    def optional_groups(self, p, flags):
        """Numbers of groups that may be unset in a match."""
        import re._parser as sp
        opt, allg = set(), set()
        def walk(items, optional):
            for op, av in items:
                n = str(op)
                if n == 'SUBPATTERN':
                    g, _, _, sub = av
                    if g is not None:
                        allg.add(g)
                        if optional: opt.add(g)
                    walk(sub, optional)
                elif n == 'BRANCH':
                    for b in av[1]: walk(b, True)
                elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    walk(av[2], optional or av[0] == 0)
                elif n in ('ASSERT', 'ASSERT_NOT'):
                    walk(av[1], True)
                elif n == 'GROUPREF_EXISTS':
                    for b in av[1:]:
                        if b: walk(b, True)
                elif n == 'ATOMIC_GROUP':
                    walk(av, optional)
        walk(sp.parse(p, flags), False)
        return opt

    def do_match(self, pat, mode, s):
        e = self.e
        s = e.resolve(s)
        if isinstance(s, Phi):
            return e.lift(lambda x: self.do_match(pat, mode, x), s)
        po = e.obj(pat)
        p, fl = po.f['pattern'], po.f['flags']
        if isinstance(s, Unknown): return Unknown('match of unknown string')
        if isinstance(s, str):
            m = self.match_of(re.compile(p, fl), mode, s)
            if m is None or isinstance(m, Unknown): return m
            names = m.re.groupindex
            return e.alloc(HObj('inst', Ext('re.Match'), {'$groups': tuple(m.groups()), '$names': dict(names), '$g0': m.group(0), '$str': s, '$regs': tuple(m.regs), 're': pat, 'string': s, 'lastgroup': m.lastgroup, 'lastindex': m.lastindex, 'pos': 0, 'endpos': len(s)}))
        if not (isinstance(s, Term) and s.ty == 'str'):
            if isinstance(s, Term) and s.ty == 'any':
                return Unknown('match of symbolic object')
            e.raise_('TypeError', 'expected string or bytes-like object')
        if self.re_hook is not None:
            r = self.re_hook(e, p, fl, mode, s)
            if r is not ABSENT:
                if isinstance(r, dict):
                    return self.new_match(p, fl, s, r)
                return r
        c = T('rematch', p, fl, mode, s, ty='bool')
        return e.fork(c, True, lambda: self.new_match(p, fl, s, None), lambda: None)

    def match_of(self, c, mode, s):
        """Match object for a known text, possibly with abstract digits."""
        if not has_abs(s): return getattr(c, mode)(s)
        ms = [getattr(c, mode)(represent(s, r)) for r in REPS]
        if all(m is None for m in ms): return None
        if any(m is None for m in ms) or len({m.regs for m in ms}) > 1: return Unknown('match that depends on digits')
        return AbsMatch(ms[0], s)

    def digits_value(self, s):
        """Value of a text of (abstract) digits."""
        acc = 0
        for i, c in enumerate(reversed(s)):
            if has_abs(c):
                d = sym('d%d' % (ord(c) & 0xff), 'int')
                self.e.regions.setdefault(d, Rng(0.0, 9.0, int=True))
                t = d if i == 0 else T('mul', 10 ** i, d, ty='int')
                acc = t if isinstance(acc, int) and acc == 0 else T('add', acc, t, ty='int')
            else:
                v = int(c) * 10 ** i
                if v: acc = acc + v if isinstance(acc, int) else T('add', acc, v, ty='int')
        return acc

    def abs_number(self, s, what):
        """float() or int() of a text with abstract digits."""
        e = self.e
        rs = []
        for r in REPS:
            try: what(represent(s, r)); rs.append(True)
            except ValueError: rs.append(False)
        if not any(rs): e.raise_('ValueError', 'could not convert string to number')
        if not all(rs): return Unknown('number whose validity depends on digits')
        m = re.fullmatch('\\s*([+-]?)([\\d\ue000-\ue1ff_]*)(?:\\.([\\d\ue000-\ue1ff_]*))?(?:[eE]([+-]?)([\\d\ue000-\ue1ff_]+))?\\s*', s)
        if not m: return Unknown('number not decomposed')
        sg, a, b, es, ex = m.groups()
        a, b = a.replace('_', ''), (b or '').replace('_', '')
        v = self.digits_value(a + b)
        ex = self.digits_value(ex.replace('_', '')) if ex else 0
        if es == '-': ex = -ex if isinstance(ex, int) else T('neg', ex, ty='int')
        if what is int: return (-v if isinstance(v, int) else T('neg', v, ty='int')) if sg == '-' else v
        if isinstance(v, int): v = float(v)
        if isinstance(v, Term) and v.ty == 'int': v = T('float', v)
        if b: v = T('div', v, 10.0 ** len(b))
        if isinstance(ex, Term) or ex: v = T('mul', v, 10.0 ** ex if isinstance(ex, int) else T('pow', 10.0, ex))
        return T('neg', v) if sg == '-' else v

    def group_values(self, p, fl, s):
        """Text of each group of a match of a symbolic string: gated on the alternatives
        of the pattern that were followed (None where the group does not take part; the
        known text where the followed alternative has only literal characters)."""
        import re._parser as sp
        out = {}
        n = [0]
        def cond():
            n[0] += 1
            return T('rechoice', p, fl, n[0], s, ty='bool')
        def literal(items):
            if fl & re.IGNORECASE: return None
            t = ''
            for op, av in items:
                if str(op) != 'LITERAL': return None
                t += chr(av)
            return t
        def gate(path, v):
            for c, pos in reversed(path):
                v = mkphi(c, v, None) if pos else mkphi(c, None, v)
            return v
        def walk(items, path, text):
            """text: what a group made of these items only contains, on this path."""
            if len(items) == 1 and str(items[0][0]) == 'BRANCH':
                alts = items[0][1][1]
                cs = [cond() for _ in alts[1:]]
                def alt(i, pth):
                    lit = literal(alts[i])
                    if lit is None: lit = text
                    if i == len(alts) - 1:
                        walk(list(alts[i]), pth, lit); return lit
                    walk(list(alts[i]), pth + [(cs[i], True)], lit)
                    return mkphi(cs[i], lit, alt(i + 1, pth + [(cs[i], False)]))
                return alt(0, path)
            for op, av in items:
                k = str(op)
                if k == 'SUBPATTERN':
                    g, _, _, sub = av
                    t = T('group', p, g, s, ty='str') if g is not None else None
                    v = walk(list(sub), path, t)
                    if g is not None: out[g] = gate(path, v)
                elif k == 'BRANCH':
                    walk([(op, av)], path, None)
                elif k in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                    sub = list(av[2])
                    if not any(str(o) in ('SUBPATTERN', 'BRANCH') for o, _ in sub): continue
                    walk(sub, path + [(cond(), True)] if av[0] == 0 else path, None)
                elif k in ('ASSERT', 'ASSERT_NOT'): walk(list(av[1]), path + [(cond(), True)], None)
                elif k == 'ATOMIC_GROUP': walk(list(av), path, None)
                elif k == 'GROUPREF_EXISTS':
                    for b in av[1:]:
                        if b: walk(list(b), path + [(cond(), True)], None)
            lit = literal(items)
            return text if lit is None else lit
        walk(list(sp.parse(p, fl)), [], None)
        return out

    def new_match(self, p, fl, s, given):
        e = self.e
        cre = re.compile(p, fl)
        try: vals = self.group_values(p, fl, s)
        except Exception: vals = {}
        opt = self.optional_groups(p, fl)
        gs = []
        for i in range(1, cre.groups + 1):
            if given is not None and i in given:
                gs.append(given[i])
                continue
            if i in vals:
                gs.append(vals[i])
                continue
            g = T('group', p, i, s, ty='str')
            if i in opt:
                g = mkphi(T('hasgroup', p, i, s, ty='bool'), g, None)
            gs.append(g)
        return e.alloc(HObj('inst', Ext('re.Match'), {'$groups': tuple(gs), '$names': dict(cre.groupindex), '$g0': s, '$str': s}))

    def match_group(self, r, o, i):
        e = self.e
        i = e.resolve(i)
        if i == 0 and isinstance(i, int): return o.f['$g0']
        if isinstance(i, str):
            if i not in o.f['$names']: e.raise_('IndexError', 'no such group')
            i = o.f['$names'][i]
        if not isinstance(i, int) or i > len(o.f['$groups']): e.raise_('IndexError', 'no such group')
        return o.f['$groups'][i - 1]

    # ------------------------------------------------------------ numbers
    def to_float(self, v, what='float'):
        """Argument conversion of C functions taking a double."""
        e = self.e
        v = e.numify(v)
        if isinstance(v, bool): return float(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Term):
            if v.ty in ('float', 'int', 'num', 'bool'): return v
            if v.ty == 'any':
                e.may_raise('TypeError', 'float', (v,))
                return T('float', v)
        if isinstance(v, Unknown): return v
        if isinstance(v, Ref):
            o = e.obj(v)
            if o.kind == 'inst':
                m = e.class_lookup(o.cls, '__float__')
                if m is not None:
                    return e.numify(e.call(e.bind(m, v), [], {}))
            if o.kind == 'trap':
                e.trap(o, 'float')
                return Unknown('float of opaque')
            if o.kind in ('unknown',): return Unknown('float of unknown')
            if o.kind == 'nparray':
                return self.npm().to_float(v, o)
            if o.kind == 'npext': return Unknown('float of array')
        e.raise_('TypeError', 'must be real number')

    def float_new(self, v):
        e = self.e
        if isinstance(v, str):
            if has_abs(v): return self.abs_number(v, float)
            try:
                return float(v)
            except ValueError as x:
                e.raise_('ValueError', str(x))
        if isinstance(v, bytes): e.raise_('ValueError', 'bytes')
        if isinstance(v, Term) and v.ty == 'str':
            e.may_raise('ValueError', 'float', (v,))
            return T('floatstr', v)
        r = self.to_float(v)
        def conv(r):
            if isinstance(r, Unknown): return r
            if isinstance(r, (int, float)):
                try:
                    return float(r)
                except OverflowError as x:
                    e.raise_('OverflowError', str(x))
            if isinstance(r, Term) and r.ty == 'float': return r
            if isinstance(r, Term) and r.ty in ('int', 'bool'):
                if e.exc_mode: e.may_raise('OverflowError', 'float', (r,))
                return T('float', r)
            return T('float', r)
        return e.lift(conv, r)

    def int_new(self, v, base=None):
        e = self.e
        v = e.numify(v)
        if has_abs(v) and base is None: return self.abs_number(v, int)
        if is_prim(v):
            try:
                return int(v) if base is None else int(v, base)
            except (ValueError, TypeError, OverflowError) as x:
                e.raise_(type(x).__name__, str(x))
        if isinstance(v, Term):
            if v.ty in ('int',): return v
            if v.ty == 'bool': return T('int', v, ty='int')
            if v.ty == 'str':
                e.may_raise('ValueError', 'int', (v,))
                return T('intstr', v, ty='int')
            if v.ty == 'any':
                e.may_raise('TypeError', 'int', (v,))
                return T('int', v, ty='int')
            r = e.rng(v)
            if r.nan and r.lo > r.hi: e.raise_('ValueError', 'cannot convert float NaN to integer')
            if r.lo == r.hi and math.isinf(r.lo) and not r.nan: e.raise_('OverflowError', 'cannot convert float infinity to integer')
            if e.exc_mode:
                c = T('isnan', v, ty='bool')
                if e.decide(c) is not False:
                    e.fork(c, True, lambda: e.raise_('ValueError', 'nan'), lambda: None)
                c = T('isinf', v, ty='bool')
                if e.decide(c) is not False:
                    e.fork(c, True, lambda: e.raise_('OverflowError', 'inf'), lambda: None)
            return e.settled_int(T('int', v, ty='int'))
        if isinstance(v, Unknown): return v
        if isinstance(v, Ref):
            o = e.obj(v)
            if o.kind == 'inst':
                for n in ('__int__', '__index__', '__trunc__'):
                    m = e.class_lookup(o.cls, n)
                    if m is not None: return e.call(e.bind(m, v), [], {})
            if o.kind in ('unknown', 'npext', 'nparray'): return Unknown('int')
        e.raise_('TypeError', 'int() argument must be a string or a number')

    def math(self, name, args, kwargs):
        e = self.e
        if name in ('hypot', 'dist', 'gcd', 'lcm', 'prod', 'sumprod', 'comb', 'perm', 'nextafter', 'ulp', 'isclose', 'cbrt', 'exp2', 'log', 'log2') or True:
            pass
        if kwargs and name not in ('isclose', 'prod', 'perm'):
            e.raise_('TypeError', 'math.%s() takes no keyword arguments' % name)
        if name == 'fsum':
            items = e.iterate(args[0])
            if any(e.maybe_absent(x) for x in items): return Unknown('fsum of conditional list')
            items = [self.to_float(x) for x in items]
            if any(isinstance(x, Unknown) for x in items): return Unknown('fsum')
            if all(is_prim(x) for x in items):
                return self.fold(math.fsum, [items])
            def g(*its): return T('math.fsum', *its)
            return e.lift(g, *items)
        if name == 'prod':
            acc = kwargs.get('start', 1)
            for x in e.iterate(args[0]): acc = e.binop('*', acc, x)
            return acc
        return e.lift(lambda *a: self._math(name, list(a)), *args)

    def fold(self, f, args):
        e = self.e
        try:
            return self.from_py(f(*args))
        except (ValueError, OverflowError, TypeError, ZeroDivisionError) as x:
            e.raise_(type(x).__name__, str(x))

    NARGS = {'atan2': 2, 'copysign': 2, 'fmod': 2, 'pow': 2, 'ldexp': 2, 'remainder': 2, 'nextafter': 2}

    def _math(self, name, args):
        e = self.e
        f = getattr(math, name, None)
        if f is None: e.raise_('AttributeError', 'math.' + name)
        n = self.NARGS.get(name)
        if name == 'log':
            if not 1 <= len(args) <= 2: e.raise_('TypeError', 'log expected 1 or 2 arguments')
        elif name == 'hypot' or name in ('gcd', 'lcm'):
            pass
        elif name in ('perm', 'comb', 'dist', 'isclose'):
            pass
        elif len(args) != (n or 1):
            e.raise_('TypeError', 'math.%s() takes %d argument(s)' % (name, n or 1))
        if name in ('factorial', 'gcd', 'lcm', 'comb', 'perm', 'isqrt'):
            if all(is_prim(a) for a in args): return self.fold(f, args)
            if any(isinstance(a, Ref) for a in args): e.raise_('TypeError', 'int expected')
            return T('math.' + name, *args, ty='int')
        if name in ('floor', 'ceil', 'trunc'):
            v = e.numify(args[0])
            if isinstance(v, Ref):
                o = e.obj(v)
                if o.kind == 'inst':
                    m = e.class_lookup(o.cls, '__%s__' % name)
                    if m is not None: return e.call(e.bind(m, v), [], {})
            v = self.to_float(v)
            if isinstance(v, Unknown): return v
            if is_prim(v): return self.fold(f, [v])
            if v.ty == 'int': return v
            r = e.rng(v)
            if r.nan and r.lo > r.hi: e.raise_('ValueError', 'nan')
            if r.lo == r.hi and math.isinf(r.lo): e.raise_('OverflowError', 'inf')
            if e.exc_mode:
                c = T('isnan', v, ty='bool')
                if e.decide(c) is not False: e.fork(c, True, lambda: e.raise_('ValueError', 'nan'), lambda: None)
                c = T('isinf', v, ty='bool')
                if e.decide(c) is not False: e.fork(c, True, lambda: e.raise_('OverflowError', 'inf'), lambda: None)
            return e.settled_int(T('math.' + name, v, ty='int'))
        conv = []
        for i, a in enumerate(args):
            if name == 'ldexp' and i == 1:
                a = e.numify(a)
                if not (isinstance(a, int) or isinstance(a, Term) and a.ty in ('int', 'bool', 'any')):
                    e.raise_('TypeError', 'Expected an int as second argument to ldexp.')
                conv.append(a)
            else:
                conv.append(self.to_float(a))
        args = conv
        if any(isinstance(a, (Unknown,)) for a in args): return Unknown('math.%s' % name)
        if any(isinstance(a, Phi) for a in args):
            return e.lift(lambda *a: self._math(name, list(a)), *args)
        if all(is_prim(a) for a in args):
            return self.fold(f, args)
        if name in ('isnan', 'isinf', 'isfinite'):
            c = T(name, args[0], ty='bool')
            d = e.decide(c)
            return c if d is None else d
        if name in DOMAIN:
            dom = DOMAIN[name]
            r = e.rng(args[0])
            m = r.meet(dom)
            empty = m.lo > m.hi or (m.lo == m.hi and not (m.lc and m.hc))
            if empty and not r.nan:
                e.raise_('ValueError', 'math domain error')
            inside = (r.lo > dom.lo or (r.lo == dom.lo and (dom.lc or not r.lc))) and (r.hi < dom.hi or (r.hi == dom.hi and (dom.hc or not r.hc)))
            if not inside:
                if e.exc_mode:
                    # the domain boundary is expressed as a condition when possible
                    e.may_raise('ValueError', 'math.' + name, tuple(args))
        if name == 'log' and len(args) == 2:
            r = e.rng(args[1])
            if r.hi < 0 or (r.hi == 0): e.raise_('ValueError', 'math domain error')
            if e.exc_mode:
                if not r.lo > 0 and not (r.lo == 0 and not r.lc): e.may_raise('ValueError', 'math.log.base', (args[1],))
                if r.contains(1): e.may_raise('ZeroDivisionError', 'math.log.base', (args[1],))
        if name in FINITE_ONLY and e.exc_mode:
            r = e.rng(args[0])
            if r.contains(math.inf) or r.contains(-math.inf):
                e.may_raise('ValueError', 'math.' + name, tuple(args))
        if name == 'hypot' and e.exc_mode and sum(max(abs(r.lo), abs(r.hi)) for r in map(e.rng, args) if r.lo <= r.hi) < 1.7e308: pass
        elif name in OVERFLOWING and e.exc_mode and name != 'pow':
            e.may_raise('OverflowError', 'math.' + name, tuple(args))
            if name in ('gamma', 'lgamma'): e.may_raise('ValueError', 'math.' + name, tuple(args))
        if name == 'fmod' and e.exc_mode:
            e.may_raise('ValueError', 'math.fmod', tuple(args))
        if name == 'pow':
            return e.pow_(args[0], args[1], 'float', mathpow=True)
        if name == 'sqrt':
            pass
        if name == 'modf':
            return (T('math.modf.f', args[0]), T('math.modf.i', args[0]))
        if name == 'frexp':
            return (T('math.frexp.m', args[0]), T('math.frexp.e', args[0], ty='int'))
        if name == 'copysign' or name == 'fabs':
            if name == 'fabs':
                return T('math.fabs', args[0])
        return T('math.' + name, *args)

    # ------------------------------------------------------------ float.__op__ descriptors
    def float_method(self, name, args, kwargs):
        e = self.e
        a = e.numify(args[0]) if args else None
        if name in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__floordiv__',
                    '__rfloordiv__', '__mod__', '__rmod__', '__pow__', '__rpow__', '__divmod__', '__rdivmod__'):
            if len(args) < 2 or len(args) > (3 if 'pow' in name else 2): e.raise_('TypeError', 'expected 1 argument')
            def go(a, b):
                a, b = e.numify(a), e.numify(b)
                if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown('float.%s' % name)
                if not (isinstance(a, float) or isinstance(a, Term) and a.ty in ('float', 'num', 'any')):
                    e.raise_('TypeError', 'descriptor requires a float')
                if isinstance(b, bool): b = int(b)
                if not (isinstance(b, (int, float)) or (isinstance(b, Term) and b.ty in ('float', 'int', 'bool', 'num'))):
                    return NotImplemented
                op = name[2:-2]
                x, y = a, b
                ops = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'floordiv': '//', 'mod': '%', 'pow': '**'}
                if op not in ops:
                    op, (x, y) = op[1:], (b, a)
                if op == 'divmod':
                    return (e.binop('//', x, y), e.binop('%', x, y))
                # both become floats
                try:
                    if isinstance(x, int): x = float(x)
                    if isinstance(y, int): y = float(y)
                except OverflowError: e.raise_('OverflowError', 'int too large to convert to float')
                r = e.arith(ops[op], x, y)
                return r
            return e.lift(go, args[0], args[1])
        if name in ('__neg__', '__pos__', '__abs__', '__trunc__', '__int__', '__float__', '__bool__', '__floor__', '__ceil__', '__round__'):
            def go1(a):
                a = e.numify(a)
                if isinstance(a, Unknown): return a
                if not (isinstance(a, float) or isinstance(a, Term) and a.ty in ('float', 'num', 'any')):
                    e.raise_('TypeError', 'descriptor requires a float')
                if name == '__neg__': return e._unary('-', a)
                if name == '__pos__': return a
                if name == '__float__': return a
                if name == '__abs__': return self.abs_(a)
                if name == '__bool__': return e.truth_value(a)
                if name == '__round__': return self.call(Ext('builtins.round'), [a] + list(args[1:]), {})
                return self._math({'__trunc__': 'trunc', '__int__': 'trunc', '__floor__': 'floor', '__ceil__': 'ceil'}[name], [a])
            return e.lift(go1, args[0])
        if name in e.CMPM.values():
            op = [k for k, v in e.CMPM.items() if v == name][0]
            def goc(a, b):
                a, b = e.numify(a), e.numify(b)
                if not e.is_num(b): return NotImplemented
                return e._cmp(op, a, b)
            return e.lift(goc, args[0], args[1])
        if name == 'is_integer':
            return e.cmp('==', e.binop('%', args[0], 1), 0)
        if name in ('__repr__', '__str__'): return self.str_of(args[0], True)
        if name == '__format__': return self.format_(e.numify(args[0]), args[1])
        if name == '__hash__': return T('hash', args[0], ty='int')
        if name == '__new__':
            v = self.float_new(args[1]) if len(args) > 1 else 0.0
            if isinstance(args[0], Ref) and e.obj(args[0]).kind == 'class':
                r = e.alloc(HObj('inst', args[0])); e.w(r).f['_num'] = v
                return r
            return v
        if name == '__init__': return None
        if name == 'conjugate': return args[0]
        return e.unknown('float.%s' % name)

    def abs_(self, v):
        e = self.e
        if isinstance(v, (int, float, complex)): return abs(v)
        r = e.rng(v)
        if r.lo >= 0 and not r.nan: return v
        return T('abs', v, ty=v.ty if v.ty != 'bool' else 'int')

    # ------------------------------------------------------------ copying
    def copy_copy(self, v):
        e = self.e
        v = e.resolve(v)
        if isinstance(v, Phi): return e.lift(self.copy_copy, v)
        if not isinstance(v, Ref): return v
        o = e.obj(v)
        if o.kind == 'inst' and isinstance(o.cls, Ref):
            m = e.class_lookup(o.cls, '__copy__')
            if m is not None: return e.call(e.bind(m, v), [], {})
            return self.reconstruct(v, o, None)
        if o.kind in ('list', 'dict', 'set'):
            n = o.clone(); n.f.pop('owner', None)
            return e.alloc(n)
        if o.kind in ('func', 'class', 'module'): return v
        if o.kind == 'nparray':
            return self.npm().copy(v)
        if o.kind == 'trap':
            e.trap(o, 'copy')
            return Unknown('copy of opaque')
        return e.unknown('copy.copy of %s' % o.kind)

    def reconstruct(self, v, o, memo):
        """copy through the pickle protocol (__reduce_ex__)."""
        e = self.e
        red = e.class_lookup(o.cls, '__reduce_ex__') or e.class_lookup(o.cls, '__reduce__')
        if red is not None: return e.unknown('copy through __reduce__')
        gs = e.class_lookup(o.cls, '__getstate__')
        if gs is not None:
            state = e.call(e.bind(gs, v), [], {})
        else:
            d = {k: x for k, x in o.f.items() if k not in ('_num', '__dict__obj')}
            sl = set(e.slots_of(o.cls))
            dd = e.new_dict([(k, x) for k, x in d.items() if k not in sl]) if e.has_dict(o.cls) else None
            ss = e.new_dict([(k, x) for k, x in d.items() if k in sl])
            state = (dd, ss) if sl else dd
        new = HObj('inst', o.cls)
        if '_num' in o.f: new.f['_num'] = o.f['_num']
        r = e.alloc(new)
        if memo is not None:
            self.memo_set(memo, v, r)
            state = self.deepcopy(state, memo)
        st = e.truth_value(state) if False else state
        if st is None: return r
        ss = e.class_lookup(o.cls, '__setstate__')
        if ss is not None:
            e.call(e.bind(ss, r), [state], {})
        else:
            parts = state if isinstance(state, tuple) else (state,)
            for p in parts:
                p = e.resolve(p)
                if isinstance(p, Ref) and e.obj(p).d is not None:
                    for k, x in list(e.obj(p).d.values()):
                        e.w(r).f[k] = x
        return r

    def memo_set(self, memo, v, r):
        self.e.w(memo).d[self.e.hkey(T('id', v, ty='int'))] = (T('id', v, ty='int'), r)

    nest = 0
    def nested(self, fn, *args):
        """A call of a recursive function of the standard library."""
        e = self.e
        self.nest += 1
        e.deepest = max(e.deepest, len(e.stack) + self.nest)
        try: return fn(*args)
        finally: self.nest -= 1

    def deepcopy(self, v, memo=None): return self.nested(self._deepcopy, v, memo)
    def pickle_copy(self, v, memo=None): return self.nested(self._pickle_copy, v, memo)

    def _deepcopy(self, v, memo=None):
        e = self.e
        v = e.resolve(v)
        if isinstance(v, Phi): return e.lift(lambda x: self.deepcopy(x, memo), v)
        if memo is None: memo = e.new_dict()
        if isinstance(v, tuple): return tuple(self.deepcopy(x, memo) for x in v)
        if not isinstance(v, Ref): return v
        en = e.obj(memo).d.get(e.hkey(T('id', v, ty='int'))) if e.is_kind(memo, 'dict') else None
        if en is not None: return en[1]
        o = e.obj(v)
        if o.kind == 'inst':
            if '_num' in o.f and e.class_lookup(o.cls, '__deepcopy__') is None:
                n = e.alloc(o.clone()); return n
            m = e.class_lookup(o.cls, '__deepcopy__') if isinstance(o.cls, Ref) else None
            if m is not None:
                r = e.call(e.bind(m, v), [memo], {})
                self.memo_set(memo, v, r)
                return r
            if isinstance(o.cls, Ref):
                return self.reconstruct(v, o, memo)
            return e.unknown('deepcopy')
        if o.kind == 'list':
            r = e.alloc(HObj('list', o.cls, items=[]))
            self.memo_set(memo, v, r)
            for x in list(o.items):
                if e.maybe_absent(x): raise GiveUp('deepcopy of conditional element')
                y = self.deepcopy(x, memo)
                e.w(r).items.append(y)
            return r
        if o.kind in ('dict', 'set'):
            n = HObj(o.kind, o.cls, dict(o.f), d={}); n.f.pop('owner', None)
            r = e.alloc(n)
            self.memo_set(memo, v, r)
            for k, x in list(o.d.values()):
                k2 = self.deepcopy(k, memo)
                x2 = self.deepcopy(x, memo) if x is not ABSENT else x
                e.w(r).d[e.hkey(k2)] = (k2, x2)
            return r
        if o.kind in ('func', 'class', 'module'): return v
        if o.kind == 'trap':
            e.trap(o, 'copy')
            return Unknown('copy of opaque')
        return e.unknown('deepcopy of %s' % o.kind)

    def _pickle_copy(self, v, memo=None):
        """Object obtained by pickling and unpickling v: new objects are
        created without __init__, state goes through __getstate__ and
        __setstate__ (a false state is not restored), shared objects stay
        shared."""
        e = self.e
        if memo is None: memo = {}
        v = e.resolve(v)
        P = lambda x: self.pickle_copy(x, memo)
        if isinstance(v, Phi): return e.lift(P, v)
        if isinstance(v, tuple): return tuple(P(x) for x in v)
        if not isinstance(v, Ref): return v
        if v in memo: return memo[v]
        o = e.obj(v)
        if o.kind in ('func', 'class', 'module'): return v
        if o.kind in ('list', 'dict', 'set'):
            n = HObj(o.kind, o.cls, dict(o.f), items=[] if o.items is not None else None, d={} if o.d is not None else None)
            n.f.pop('owner', None)
            r = memo[v] = e.alloc(n)
            if o.kind == 'list':
                for x in list(o.items): e.w(r).items.append(P(x))
            else:
                for k, x in list(o.d.values()):
                    k2 = P(k); x2 = P(x) if x is not ABSENT else x
                    e.w(r).d[e.hkey(k2)] = (k2, x2)
            return r
        if o.kind == 'inst' and isinstance(o.cls, Ref):
            for nm in ('__reduce_ex__', '__reduce__', '__getnewargs__', '__getnewargs_ex__'):
                if e.class_lookup(o.cls, nm) is not None: return e.unknown('pickling through %s' % nm)
            gs = e.class_lookup(o.cls, '__getstate__')
            if gs is not None: state = e.call(e.bind(gs, v), [], {})
            else:
                d = {k: x for k, x in o.f.items() if k not in ('_num', '__dict__obj')}
                sl = set(e.slots_of(o.cls))
                dd = e.new_dict([(k, x) for k, x in d.items() if k not in sl]) if e.has_dict(o.cls) and any(k not in sl for k in d) else None
                ss = e.new_dict([(k, x) for k, x in d.items() if k in sl])
                state = (dd, ss) if any(k in sl for k in d) else dd
            n = HObj('inst', o.cls)
            if '_num' in o.f: n.f['_num'] = o.f['_num']
            r = memo[v] = e.alloc(n)
            if state is None: return r
            state = P(state)
            def build():
                ss = e.class_lookup(o.cls, '__setstate__')
                if ss is not None:
                    e.call(e.bind(ss, r), [state], {})
                    return None
                for p in (state if isinstance(state, tuple) else (state,)):
                    p = e.resolve(p)
                    if isinstance(p, Ref) and e.obj(p).d is not None:
                        for k, x in list(e.obj(p).d.values()): e.setattr_(r, k, x)
                return None
            e.branch(state, build, lambda: None)
            return r
        if o.kind == 'trap':
            e.trap(o, 'pickle')
            return Unknown('pickle of opaque')
        return e.unknown('pickling of %s' % o.kind)

    # ------------------------------------------------------------ inspect
    def argspec(self, f):
        e = self.e
        f = e.resolve(f)
        skip = 0
        while isinstance(f, Bound):
            f, skip = f.func, skip + 1
        def mk(args, varargs=None, varkw=None, kwonly=()):
            return e.alloc(HObj('inst', Ext('inspect.FullArgSpec'), {'args': e.new_list(args), 'varargs': varargs, 'varkw': varkw,
                   'keywords': varkw, 'defaults': None, 'kwonlyargs': e.new_list(kwonly), 'kwonlydefaults': None, 'annotations': e.new_dict()}))
        if isinstance(f, Ref) and e.obj(f).kind == 'func':
            a = e.obj(f).f['node'].args
            w = e.obj(e.obj(f).f['attrs']).d.get(e.hkey('__wrapped__'))
            return mk([p.arg for p in a.posonlyargs + a.args][0:] if not skip else [p.arg for p in a.posonlyargs + a.args],
                      a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None, [p.arg for p in a.kwonlyargs])
        if isinstance(f, Native):
            if f.argnames is None: e.raise_('TypeError', 'unsupported callable')
            return mk(list(f.argnames))
        if isinstance(f, Ext):
            r = self.real(f.path)
            if r is None: e.raise_('TypeError', 'unsupported callable')
            try:
                s = inspect.getfullargspec(r[0])
            except TypeError:
                e.raise_('TypeError', 'unsupported callable')
            return mk(s.args, s.varargs, s.varkw, s.kwonlyargs)
        if isinstance(f, Ref) and e.obj(f).kind == 'inst':
            m = e.class_lookup(e.obj(f).cls, '__call__')
            if m is not None: return self.argspec(Bound(m, f))
        if isinstance(f, Partial): return mk([])
        e.raise_('TypeError', 'unsupported callable')

    # ------------------------------------------------------------ context managers
    def enter(self, m):
        e = self.e
        m = e.resolve(m)
        if e.is_kind(m, 'inst') and isinstance(e.obj(m).cls, Ref):
            return e.call(e.getattr_(m, '__enter__'), [], {})
        return m
    def exit(self, m):
        e = self.e
        m = e.resolve(m)
        if e.is_kind(m, 'inst') and isinstance(e.obj(m).cls, Ref):
            e.call(e.getattr_(m, '__exit__'), [None, None, None], {})

    # ------------------------------------------------------------ calls of library functions
    def call(self, f, args, kwargs):
        e = self.e
        p = f.path
        if p not in LAZY_OK:
            for x in list(args) + list(kwargs.values()):
                if e.pending(x):
                    e.force(x)
                    if e.obj(x).f['dirty'] and (p in PARTIAL or p.startswith('itertools.')): raise GiveUp('generator with effects, not consumed at once')
        h = getattr(self, 'f_' + p.replace('builtins.', '').replace('.', '_'), None)
        if h is not None:
            return h(args, kwargs)
        top, _, rest = p.partition('.')
        if top == 'numpy':
            return self.npm().call(p, args, kwargs)
        if top == 'math' and rest in PURE_MATH:
            return self.math(rest, args, kwargs)
        if p.startswith('builtins.float.'):
            return self.float_method(rest.split('.')[1], args, kwargs)
        if p.startswith('builtins.int.') or p.startswith('builtins.bool.'):
            return self.int_method(rest.split('.')[1], args, kwargs)
        if p.startswith('builtins.str.'):
            return self.method_str(rest.split('.')[1], list(args), kwargs)
        if top in ('list', 'dict', 'set', 'iter') or p.startswith(('builtins.list.', 'builtins.dict.', 'builtins.set.', 'builtins.frozenset.', 'collections.defaultdict.', 'collections.OrderedDict.', 'collections.deque.')):
            name = p.split('.')[-1]
            kind = [t for t in ('list', 'dict', 'set', 'iter') if t in p.split('.')[-2].lower() or (t == 'list' and 'deque' in p)][0]
            if p == 'dict.get' or p == 'dict.setdefault' or p == 'dict.__getitem__':
                if not (args and isinstance(e.resolve(args[0]), Ref)):      # sys.modules.get(...)
                    k = e.resolve(args[0])
                    if k in e.modules: return e.modules[k]
            def go(r):
                if not isinstance(r, Ref): e.raise_('TypeError', 'descriptor requires a %s' % kind)
                o = e.obj(r)
                if o.kind == 'unknown': return Unknown('method of unknown object')
                if name == 'fromkeys' : return e.unknown('fromkeys')
                if kind == 'list': return self.method_list(r, o, name, list(args[1:]), kwargs)
                if kind == 'dict': return self.method_dict(r, o, name, list(args[1:]), kwargs)
                if kind == 'set': return self.method_set(r, o, name, list(args[1:]), kwargs)
                if name == '__next__': return self.f_next([r], {})
                if name == '__iter__': return r
                return None
            return e.lift(go, args[0])
        if p.startswith('builtins.tuple.'):
            name = rest.split('.')[1]
            t = e.resolve(args[0])
            if name == 'index':
                for i, x in enumerate(t):
                    if e.cmp('==', x, args[1]) is True: return i
                e.raise_('ValueError', 'not in tuple')
            if name == 'count': return sum(1 for x in t if e.cmp('==', x, args[1]) is True)
            if name == '__getitem__': return e.getitem(t, args[1])
            if name == '__len__': return len(t)
            if name == '__iter__': return e.new_iter(t)
            return e.unknown('tuple.%s' % name)
        if top == 'operator' and rest in self.OPER:
            return self.OPER[rest](self, args)
        r = self.real(p)
        if r is not None and isinstance(r[0], type) and issubclass(r[0], BaseException):
            return e.alloc(HObj('inst', f, {'args': tuple(args)}))
        if r is not None and callable(r[0]) and top in ('math', 'builtins', 'operator', 'string', 're', 'textwrap', 'unicodedata') and all(is_prim(a) for a in args) and all(is_prim(a) for a in kwargs.values()):
            if p not in ('builtins.open', 'builtins.input', 'builtins.print', 'builtins.exec', 'builtins.eval', 'builtins.__import__', 'builtins.exit', 'builtins.quit', 'builtins.breakpoint', 'builtins.compile'):
                try:
                    return self.from_py(r[0](*args, **kwargs))
                except Exception as x:
                    e.raise_(type(x).__name__, str(x))
        e.havoc(args); e.havoc(kwargs.values())
        if p.endswith('.register') and len(args) == 1 and not kwargs and p.split('.')[0] in ('numbers', 'collections', 'abc') and isinstance(args[0], (Ref, Ext)):
            e.registered.append((Ext(p[:-9]), args[0]))
            return args[0]
        return e.unknown('call of unmodelled %s' % p)

    OPER = {}
    for _n, _o in (('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'), ('pow', '**'), ('and_', '&'), ('or_', '|'), ('xor', '^'), ('matmul', '@')):
        OPER[_n] = (lambda o: lambda self, a: self.e.binop(o, a[0], a[1]))(_o)
    for _n, _o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!='), ('is_', 'is'), ('is_not', 'is not')):
        OPER[_n] = (lambda o: lambda self, a: self.e.cmp(o, a[0], a[1]))(_o)
    OPER['neg'] = lambda self, a: self.e.unary('-', a[0])
    OPER['pos'] = lambda self, a: self.e.unary('+', a[0])
    OPER['abs'] = lambda self, a: self.f_abs(a, {})
    OPER['not_'] = lambda self, a: self.e.unary('not', a[0])
    OPER['truth'] = lambda self, a: self.f_bool(a, {})
    OPER['getitem'] = lambda self, a: self.e.getitem(a[0], a[1])
    OPER['setitem'] = lambda self, a: self.e.setitem(a[0], a[1], a[2])
    OPER['contains'] = lambda self, a: self.e.contains(a[0], a[1])

    def int_method(self, name, args, kwargs):
        e = self.e
        if name in ('__add__', '__sub__', '__mul__', '__mod__', '__floordiv__', '__truediv__', '__pow__', '__radd__', '__rsub__', '__rmul__'):
            a, b = e.resolve(args[0]), e.resolve(args[1])
            if not (isinstance(b, int) or isinstance(b, Term) and b.ty in ('int', 'bool')): return NotImplemented
            op = {'add': '+', 'sub': '-', 'mul': '*', 'mod': '%', 'floordiv': '//', 'truediv': '/', 'pow': '**'}
            n = name[2:-2]
            if n in op: return e.binop(op[n], a, b)
            return e.binop(op[n[1:]], b, a)
        if all(is_prim(a) for a in args):
            r = self.real('builtins.int.' + name)
            return self.fold(r[0], args)
        if name in ('__float__',): return self.float_new(args[0])
        if name in ('__format__',): return self.format_(args[0], args[1])
        return e.unknown('int.%s' % name)

    # builtins
    def f_isinstance(self, a, k): return self.e.isinstance_(a[0], self.classes(a[1]))
    def classes(self, c):
        c = self.e.resolve(c)
        if isinstance(c, tuple): return tuple(self.e.resolve(x) for x in c)
        return c
    def f_issubclass(self, a, k):
        return self.e.lift(lambda c, d: (lambda r: Unknown('issubclass') if r is None else r)(self.e.issub(c, d)) if isinstance(c, (Ref, Ext)) else Unknown('issubclass'), a[0], self.classes(a[1]))
    def f_len(self, a, k): return self.e.length(a[0])
    def f_float(self, a, k):
        if not a: return 0.0
        return self.e.lift(self.float_new, a[0])
    def f_int(self, a, k):
        if not a: return 0
        return self.e.lift(lambda v: self.int_new(v, *a[1:]), a[0])
    def f_bool(self, a, k):
        if not a: return False
        e = self.e
        def go(v):
            r = e.truth_value(v)
            if isinstance(r, Phi) or isinstance(r, Ref): return e.lift(go, r)
            return r
        return e.lift(go, a[0])
    def f_complex(self, a, k):
        e = self.e
        v = e.resolve(a[0]) if a else 0
        if isinstance(v, Ref) and e.obj(v).kind == 'inst':
            m = e.class_lookup(e.obj(v).cls, '__complex__')
            if m is not None: return e.call(e.bind(m, v), [], {})
            v = self.to_float(v)
        if all(is_prim(x) for x in a): return self.fold(complex, a)
        return T('complex', *[x for x in a], ty='complex')
    def f_str(self, a, k): return self.str_of(a[0]) if a else ''
    def f_repr(self, a, k): return self.str_of(a[0], True)
    def f_format(self, a, k): return self.format_(*a)
    def f_type(self, a, k):
        if len(a) == 3:
            return self.mkclass(*a)
        return self.e.lift(self.e.type_of, a[0])
    def mkclass(self, name, bases, d):
        e = self.e
        dd = self.copy_dict(d)
        cref = e.alloc(HObj('class', None, {'name': name, 'bases': list(bases), 'mro': [], 'dict': dd, 'module': 'm'}))
        mro = [cref]
        for b in bases or (Ext('builtins.object'),):
            for c in (e.mro(b) if isinstance(b, Ref) else self.ext_mro(b)):
                mro = [m for m in mro if not same(m, c)] + [c]
        e.w(cref).f['mro'] = mro
        return cref
    def f_abs(self, a, k):
        e = self.e
        def go(v):
            if e.special_inst(v):
                m = e.class_lookup(e.type_of(v), '__abs__')
                if m is None: e.raise_('TypeError', 'bad operand type for abs()')
                return e.call(e.bind(m, v), [], {})
            v = e.numify(v)
            if isinstance(v, Unknown): return v
            if e.is_num(v): return self.abs_(v)
            if e.is_kind(v, 'nparray', 'npext', 'npflat'): return self.npm().unary('abs', v)
            if isinstance(v, Term) and v.ty == 'any': return T('abs', v, ty='any')
            e.raise_('TypeError', 'bad operand type for abs()')
        return e.lift(go, a[0])
    def f_round(self, a, k):
        e = self.e
        n = a[1] if len(a) > 1 else k.get('ndigits')
        def go(v, n):
            v, n = e.numify(v), e.numify(n)
            if isinstance(v, Unknown) or isinstance(n, Unknown): return Unknown('round')
            if e.special_inst(v):
                m = e.class_lookup(e.type_of(v), '__round__')
                if m is None: e.raise_('TypeError', 'no __round__')
                return e.call(e.bind(m, v), [n] if n is not None else [], {})
            if is_prim(v) and is_prim(n): return self.fold(round, [v] if n is None else [v, n])
            if n is None:
                return e.settled_int(T('round', v, ty='int'))
            return T('round', v, n, ty=v.ty if isinstance(v, Term) else type(v).__name__)
        return e.lift(go, a[0], n)
    def f_divmod(self, a, k):
        return (self.e.binop('//', a[0], a[1]), self.e.binop('%', a[0], a[1]))
    def f_pow(self, a, k): return self.e.binop('**', a[0], a[1])
    def f_sum(self, a, k):
        e = self.e
        acc = a[1] if len(a) > 1 else k.get('start', 0)
        for x in e.iterate(a[0]):
            if e.maybe_absent(x):
                acc = e.lift(lambda y, acc=acc: acc if y is ABSENT else e.binop('+', acc, y), x)
            else:
                acc = e.binop('+', acc, x)
        return acc
    def minmax(self, which, a, k):
        e = self.e
        items = e.iterate(a[0]) if len(a) == 1 else list(a)
        if any(e.maybe_absent(x) for x in items):
            return e.settle_list(items, lambda its: self.minmax(which, [e.new_list(its)], k))
        if not items:
            if 'default' in k: return k['default']
            e.raise_('ValueError', '%s() arg is an empty sequence' % which)
        if len(items) == 1: return items[0]
        kf = k.get('key')
        if kf is None:
            items = [e.numify(x) for x in items]
            if all(is_prim(x) for x in items):
                return self.fold(min if which == 'min' else max, [items])
            if any(isinstance(x, Unknown) for x in items): return Unknown(which)
            if any(isinstance(x, Ref) and not e.special_inst(x) for x in items): return Unknown(which)
        best = items[0]
        bk = e.call(kf, [best], {}) if kf is not None else best
        for x in items[1:]:
            xk = e.call(kf, [x], {}) if kf is not None else x
            c = e.cmp('>' if which == 'max' else '<', xk, bk)
            old, oldk = best, bk
            best = e.branch(c, lambda: x, lambda: old)
            bk = e.branch(c, lambda: xk, lambda: oldk) if kf is not None else best
        return best
    def f_min(self, a, k): return self.minmax('min', a, k)
    def f_max(self, a, k): return self.minmax('max', a, k)
    def f_any(self, a, k):
        e = self.e
        items = e.iterate(a[0])
        def rec(i):
            if i == len(items): return False
            x = items[i]
            if e.maybe_absent(x):
                return e.lift(lambda y: rec(i + 1) if y is ABSENT else e.branch(y, lambda: True, lambda: rec(i + 1)), x)
            return e.branch(x, lambda: True, lambda: rec(i + 1))
        return rec(0)
    def f_all(self, a, k):
        e = self.e
        items = e.iterate(a[0])
        def rec(i):
            if i == len(items): return True
            x = items[i]
            if e.maybe_absent(x):
                return e.lift(lambda y: rec(i + 1) if y is ABSENT else e.branch(y, lambda: rec(i + 1), lambda: False), x)
            return e.branch(x, lambda: rec(i + 1), lambda: False)
        return rec(0)
    def f_callable(self, a, k):
        v = self.e.resolve(a[0])
        if isinstance(v, (Ext, Bound, Native, Partial)): return True
        if isinstance(v, Ref):
            o = self.e.obj(v)
            if o.kind in ('func', 'class', 'npvec'): return True
            if o.kind == 'inst': return self.e.class_lookup(o.cls, '__call__') is not None
            return False
        if isinstance(v, Unknown): return Unknown('callable')
        if isinstance(v, Term) and v.ty == 'any': return T('callable', v, ty='bool')
        return False
    def f_getattr(self, a, k):
        n = self.e.resolve(a[1])
        if not isinstance(n, str): return self.e.unknown('getattr with computed name')
        if len(a) > 2:
            return self.e.getattr_(a[0], n, a[2])
        return self.e.getattr_(a[0], n)
    def f_hasattr(self, a, k):
        n = self.e.resolve(a[1])
        sent = Native(None, 'sentinel')
        r = self.e.getattr_(a[0], n, sent)
        return self.e.lift(lambda x: x is not sent if not isinstance(x, Unknown) else Unknown('hasattr'), r)
    def f_setattr(self, a, k):
        n = self.e.resolve(a[1])
        if not isinstance(n, str):
            return self.e.lift(lambda q: self.e.setattr_(a[0], q, a[2]) if isinstance(q, str) else self.e.note('setattr computed'), n)
        return self.e.setattr_(a[0], n, a[2])
    def f_delattr(self, a, k): return self.e.delattr_(a[0], self.e.resolve(a[1]))
    def f_iter(self, a, k):
        e = self.e
        if len(a) == 2:
            items = []
            for i in range(60):
                x = e.call(a[0], [], {})
                c = e.cmp('==', x, a[1])
                if c is True: return e.new_iter(items, what='callable_iterator')
                if c is not False: raise GiveUp('iter() with an undecided end')
                items.append(x)
            raise GiveUp('iter() without end')
        v = e.resolve(a[0])
        if e.is_kind(v, 'iter'): return v
        return e.new_iter(*e.peek_iter(v))
    def f_next(self, a, k):
        e = self.e
        r = e.resolve(a[0])
        if e.is_kind(r, 'iter'):
            o = e.obj(r)
            if o.items:
                if e.has_cond(r):
                    x = o.items[0]
                    if e.maybe_absent(x):
                        def go(y):
                            e.w(r).items.pop(0)
                            return self.f_next([r] + list(a[1:]), k) if y is ABSENT else y
                        return e.lift(go, x)
                return e.w(r).items.pop(0)
            if o.f.get('tail', ABSENT) is not ABSENT:
                return o.f['tail']
            if len(a) > 1: return a[1]
            e.raise_('StopIteration')
        if isinstance(r, Ref) and e.obj(r).kind == 'inst':
            m = e.class_lookup(e.obj(r).cls, '__next__')
            if m is not None: return e.call(e.bind(m, r), [], {})
        if isinstance(r, Unknown): return r
        e.raise_('TypeError', 'object is not an iterator')
    def f_enumerate(self, a, k):
        e = self.e
        start = a[1] if len(a) > 1 else k.get('start', 0)
        items = e.iterate(a[0])
        if any(e.maybe_absent(x) for x in items):
            r = e.new_list(items)
            return e.settle(r, lambda: e.new_iter([(start + i, x) for i, x in enumerate(e.obj(r).items)]))
        return e.new_iter([(e.binop('+', start, i), x) for i, x in enumerate(items)], what='enumerate')
    def f_zip(self, a, k):
        e = self.e
        seqs, n = [], None
        for x in a:
            x = e.resolve(x)
            if e.is_kind(x, 'iter') and e.obj(x).f.get('tail', ABSENT) is not ABSENT:
                seqs.append((x, None))
                continue
            its = e.iterate(x)
            if any(e.maybe_absent(y) for y in its): raise GiveUp('zip of conditional elements')
            seqs.append((None, its))
            n = len(its) if n is None else min(n, len(its))
        if n is None: n = 0 if not a else None
        if n is None: raise GiveUp('infinite zip')
        out = []
        for i in range(n):
            out.append(tuple(its[i] if it is None else self.f_next([it], {}) for it, its in seqs))
        return e.new_iter(out, what='zip')
    def f_map(self, a, k):
        e = self.e
        if len(a) == 2:
            it = e.resolve(a[1])
            if e.is_kind(it, 'inst'): it = self.f_iter([it], {})
            if not (e.is_kind(it, 'iter') and e.obj(it).f.get('tail', ABSENT) is not ABSENT):
                return self.lazy_over(it, lambda emit: lambda y: emit(e.call(a[0], [y], {})), 'map')
            if e.is_kind(it, 'iter') and e.obj(it).f.get('tail', ABSENT) is not ABSENT:
                o = e.obj(it)
                items = list(o.items)
                e.w(it).items = []
                return e.new_iter([e.call(a[0], [x], {}) for x in items], tail=e.call(a[0], [o.f['tail']], {}), what='map')
            out = []
            for x in e.iterate(it):
                if e.maybe_absent(x):
                    out.append(e.lift(lambda y: ABSENT if y is ABSENT else e.call(a[0], [y], {}), x))
                else:
                    out.append(e.call(a[0], [x], {}))
            return e.new_iter(out, what='map')
        z = self.f_zip(a[1:], {})
        return e.new_iter([e.call(a[0], list(t), {}) for t in e.iterate(z)], what='map')
    def lazy_over(self, it, step, what):
        """Iterator over what step(emit) emits for each element of it."""
        from .engine import Driver
        e = self.e
        d = Driver()
        def over(emit):
            f = step(emit)
            p = e.pending(it)
            if p is not None and p.feed is not None:
                e.take_pending(it)
                return p.feed(lambda x: each(f, x))
            for x in e.iterate(it): each(f, x)
        def each(f, x):
            if e.maybe_absent(x): e.lift(lambda y: None if y is ABSENT else f(y), x)
            else: f(x)
        d.feed = over
        def run(out):
            over(lambda v: e.w(out).items.append(v))
            return ABSENT
        d.run = run
        if isinstance(it, Unknown): raise GiveUp('iteration over unknown')
        return e.lazy_iter(d, what)
    def f_filter(self, a, k):
        e = self.e
        it = e.resolve(a[1])
        if not (e.is_kind(it, 'iter') and e.obj(it).f.get('tail', ABSENT) is not ABSENT):
            return self.lazy_over(it, lambda emit: lambda y: e.branch(y if a[0] is None else e.call(a[0], [y], {}), lambda: emit(y), lambda: None), 'filter')
        out = []
        for x in e.iterate(a[1]):
            def keep(y):
                if y is ABSENT: return ABSENT
                c = y if a[0] is None else e.call(a[0], [y], {})
                return e.branch(c, lambda: y, lambda: ABSENT)
            r = keep(x) if not e.maybe_absent(x) else e.lift(keep, x)
            if r is not ABSENT: out.append(r)
        return e.new_iter(out, what='filter')
    def f_range(self, a, k):
        a = [self.e.numify(self.e.resolve(x)) for x in a]
        if all(isinstance(x, int) for x in a):
            return self.e.new_list(list(range(*a)))
        if any(isinstance(x, (float, str)) for x in a): self.e.raise_('TypeError', 'integer expected')
        return self.e.unknown('range of symbolic')
    def f_reversed(self, a, k):
        e = self.e
        if isinstance(e.resolve(a[0]), Ref) and e.is_kind(e.resolve(a[0]), 'iter', 'set'): e.raise_('TypeError', 'not reversible')
        return e.new_iter(e.iterate(a[0])[::-1])
    def f_sorted(self, a, k):
        items = self.e.iterate(a[0])
        if any(self.e.maybe_absent(x) for x in items):
            return self.e.settle_list(items, lambda xs: self.e.new_list(self.sorted_(xs, k)))
        return self.e.new_list(self.sorted_(items, k))
    def f_list(self, a, k):
        return self.e.new_list(self.e.iterate(a[0]) if a else [])
    def f_tuple(self, a, k):
        e = self.e
        if not a: return ()
        its = e.iterate(a[0])
        if any(e.maybe_absent(x) for x in its):
            return e.settle_list(its, lambda xs: tuple(xs))
        return tuple(its)
    def f_dict(self, a, k):
        e = self.e
        r = e.new_dict()
        if a or k: self.method_dict(r, e.obj(r), 'update', a, k)
        return r
    def f_set(self, a, k):
        e = self.e
        r = e.new_set()
        if a: self.method_set(r, e.obj(r), 'update', a, {})
        return r
    def f_frozenset(self, a, k):
        r = self.f_set(a, k)
        self.e.w(r).cls = Ext('builtins.frozenset')
        return r
    def f_slice(self, a, k):
        return slice(*a)
    def f_object(self, a, k): return self.e.alloc(HObj('inst', Ext('builtins.object')))
    def f_super(self, a, k):
        return self.e.alloc(HObj('super', None, {'cls': a[0], 'inst': a[1]}))
    def f_property(self, a, k):
        return self.e.alloc(HObj('property', Ext('builtins.property'), {'fget': a[0] if a else k.get('fget'), 'fset': a[1] if len(a) > 1 else k.get('fset'), 'fdel': a[2] if len(a) > 2 else k.get('fdel')}))
    def f_staticmethod(self, a, k): return self.e.alloc(HObj('staticmethod', None, {'f': a[0]}))
    def f_classmethod(self, a, k): return self.e.alloc(HObj('classmethod', None, {'f': a[0]}))
    def f_id(self, a, k): return self.e.lift(lambda v: T('id', v if isinstance(v, Ref) else T('val', v, ty='any'), ty='int'), a[0])
    def f_hash(self, a, k):
        e = self.e
        def go(v):
            if e.special_inst(v):
                m = e.class_lookup(e.type_of(v), '__hash__')
                if m is not None: return e.call(e.bind(m, v), [], {})
                if e.class_has(e.type_of(v), '__hash__'): e.raise_('TypeError', 'unhashable type')
                return T('id', v, ty='int')
            if isinstance(v, Ref) and e.obj(v).kind in ('list', 'dict'): e.raise_('TypeError', 'unhashable type')
            if isinstance(v, Ref): return T('id', v, ty='int')
            if isinstance(v, tuple): return T('hash', *[self.f_hash([x], {}) for x in v], ty='int')
            if is_prim(v) and not isinstance(v, str): return hash(v) if v is not None else 0
            return T('hash', e.numify(v), ty='int')
        return e.lift(go, a[0])
    def f_object___hash__(self, a, k): return T('id', a[0], ty='int')
    def f_object___setattr__(self, a, k): return self.e.setattr_(a[0], self.e.resolve(a[1]), a[2], raw=True)
    def f_object___new__(self, a, k): return self.e.raw_new(a[0], a[1:])
    def f_object___init__(self, a, k): return None
    def f_object___eq__(self, a, k): return True if same(a[0], a[1]) else NotImplemented
    def f_object___ne__(self, a, k):
        r = self.e.cmp('==', a[0], a[1])
        return self.e.unary('not', r)
    def f_object___repr__(self, a, k): return T('str', T('ref', a[0], ty='any'), ty='str')
    def f_object___getattribute__(self, a, k): return self.e.getattr_(a[0], self.e.resolve(a[1]))
    def f_vars(self, a, k): return self.e.getattr_(self.e.resolve(a[0]), '__dict__')
    def module_dict(self, v):
        import types
        r = self.real(v.path)
        if r and isinstance(r[0], types.ModuleType): return self.e.new_dict([(n, self.e.getattr_(v, n)) for n in vars(r[0])])
        return None
    def f_inspect_getmembers(self, a, k):
        e, v = self.e, self.e.resolve(a[0])
        pred = a[1] if len(a) > 1 else k.get('predicate')
        names = e.iterate(self.f_dir([v], {}))
        out = []
        for n in names:
            x = e.getattr_(v, e.resolve(n))
            if pred is None or e.truth(e.call(pred, [x], {})) is True: out.append((n, x))
        return e.new_list(out)
    def f_dir(self, a, k):
        v = self.e.resolve(a[0]) if a else None
        if isinstance(v, Ext):
            r = self.real(v.path)
            if r: return self.e.new_list(dir(r[0]))
        return self.e.unknown('dir')
    def f_print(self, a, k): return None
    def f___import__(self, a, k): return self.e.import_module(self.e.resolve(a[0]))
    def f_importlib_import_module(self, a, k): return self.e.import_module(self.e.resolve(a[0]))

    # modules
    def f_warnings_warn(self, a, k):
        self.e.w(self.e.warn_addr).items.append(a[0])
        return None
    def f_warnings_simplefilter(self, a, k): return None
    def f_warnings_filterwarnings(self, a, k): return None
    def f_warnings_catch_warnings(self, a, k): return self.e.unknown('recorded warnings') if a or k else self.e.alloc(HObj('opaque', Ext('warnings.catch_warnings')))
    def f_copy_copy(self, a, k): return self.copy_copy(a[0])
    def f_copy_deepcopy(self, a, k): return self.deepcopy(a[0], (a[1] if len(a) > 1 else k.get('memo')))
    def f_itertools_chain(self, a, k):
        e = self.e
        items, tail = [], ABSENT
        for x in a:
            it, t = e.peek_iter(x)
            items += it
            if t is not ABSENT:
                tail = t
                break
        return e.new_iter(items, tail, 'chain')
    def f_itertools_chain_from_iterable(self, a, k): return self.f_itertools_chain(self.e.iterate(a[0]), {})
    def f_itertools_repeat(self, a, k):
        n = a[1] if len(a) > 1 else k.get('times')
        if n is not None:
            n = self.e.resolve(n)
            if not isinstance(n, int): return self.e.unknown('repeat symbolic')
            return self.e.new_iter([a[0]] * n)
        return self.e.new_iter([], a[0], 'repeat')
    def f_itertools_cycle(self, a, k):
        its = self.e.iterate(a[0])
        if len(its) == 1: return self.e.new_iter([], its[0])
        return self.e.new_iter(its * 40)
    def f_itertools_count(self, a, k):
        s = a[0] if a else k.get('start', 0)
        return self.e.new_iter([s + i for i in range(400)])
    def f_itertools_islice(self, a, k):
        e = self.e
        it = self.f_iter([a[0]], {})
        b = [e.resolve(x) for x in a[1:]]
        sl = slice(*b)
        if sl.stop is None:
            items, tail = e.peek_iter(it)
            return e.new_iter(items[sl.start or 0::sl.step or 1], tail)
        out = []
        for i in range(sl.stop):
            o = e.obj(it)
            if not o.items and o.f.get('tail', ABSENT) is ABSENT: break
            out.append(self.f_next([it], {}))
        return e.new_iter(out[sl.start or 0::sl.step or 1])
    def f_itertools_starmap(self, a, k):
        return self.e.new_iter([self.e.call(a[0], list(self.e.iterate(t)), {}) for t in self.e.iterate(a[1])])
    def f_itertools_product(self, a, k):
        import itertools
        seqs = [self.e.iterate(x) for x in a] * self.e.resolve(k.get('repeat', 1))
        return self.e.new_iter([tuple(t) for t in itertools.product(*seqs)])
    def f_itertools_combinations(self, a, k):
        import itertools
        return self.e.new_iter([tuple(t) for t in itertools.combinations(self.e.iterate(a[0]), a[1])])
    def f_itertools_combinations_with_replacement(self, a, k):
        import itertools
        return self.e.new_iter([tuple(t) for t in itertools.combinations_with_replacement(self.e.iterate(a[0]), a[1])])
    def f_itertools_accumulate(self, a, k):
        out, acc = [], None
        for i, x in enumerate(self.e.iterate(a[0])):
            acc = x if i == 0 else (self.e.binop('+', acc, x) if len(a) < 2 else self.e.call(a[1], [acc, x], {}))
            out.append(acc)
        return self.e.new_iter(out)
    def f_itertools_takewhile(self, a, k, drop=False):
        e = self.e
        items = e.iterate(a[1])
        if any(e.maybe_absent(x) for x in items): raise GiveUp('takewhile of conditional elements')
        def go(i):
            if i == len(items): return len(items)
            return e.branch(e.call(a[0], [items[i]], {}), lambda: go(i + 1), lambda: i)
        return e.lift(lambda n: e.new_iter(items[n:] if drop else items[:n]), go(0))
    def f_itertools_dropwhile(self, a, k): return self.f_itertools_takewhile(a, k, True)
    def f_itertools_filterfalse(self, a, k):
        e = self.e
        it = e.resolve(a[1])
        return self.lazy_over(it, lambda emit: lambda y: e.branch(y if a[0] is None else e.call(a[0], [y], {}), lambda: None, lambda: emit(y)), 'filterfalse')
    def f_itertools_compress(self, a, k):
        e = self.e
        out = e.new_list([])
        for x, c in zip(e.iterate(a[0]), e.iterate(a[1])): e.branch(c, lambda: e.w(out).items.append(x), lambda: None)
        return e.new_iter(e.obj(out).items)
    def f_itertools_permutations(self, a, k):
        import itertools
        return self.e.new_iter([tuple(t) for t in itertools.permutations(self.e.iterate(a[0]), *a[1:])])
    def f_itertools_groupby(self, a, k):
        e = self.e
        f = a[1] if len(a) > 1 else k.get('key')
        out = []
        for x in e.iterate(a[0]):
            q = x if f is None else e.call(f, [x], {})
            c = e.cmp('==', q, out[-1][0]) if out else False
            if c is True: out[-1][1].append(x)
            elif c is False: out.append((q, [x]))
            else: raise GiveUp('groupby with undecided keys')
        return e.new_iter([(q, e.new_iter(l)) for q, l in out])
    def f_itertools_zip_longest(self, a, k):
        import itertools
        return self.e.new_iter([tuple(t) for t in itertools.zip_longest(*[self.e.iterate(x) for x in a], fillvalue=k.get('fillvalue'))])
    def f_itertools_tee(self, a, k):
        items, tail = self.e.peek_iter(a[0])
        return tuple(self.e.new_iter(items, tail) for _ in range(a[1] if len(a) > 1 else 2))
    def f_functools_partial(self, a, k): return Partial(a[0], a[1:], k)
    def f_functools_reduce(self, a, k):
        e = self.e
        items = e.iterate(a[1])
        if len(a) > 2: acc = a[2]
        else:
            if not items: e.raise_('TypeError', 'reduce() of empty sequence')
            acc, items = items[0], items[1:]
        for x in items: acc = e.call(a[0], [acc, x], {})
        return acc
    def f_functools_wraps(self, a, k):
        w = a[0]
        return Native(lambda f: self.f_functools_update_wrapper([f, w] + list(a[1:]), k), 'wraps')
    def f_functools_update_wrapper(self, a, k):
        e = self.e
        f, w = a[0], a[1]
        assigned = [e.resolve(x) for x in e.iterate(k['assigned'])] if 'assigned' in k else (list(e.iterate(a[2])) if len(a) > 2 else ['__name__', '__doc__'])
        for n in assigned:
            if n in ('__module__', '__annotations__', '__type_params__', '__qualname__'): continue
            v = e.getattr_(w, n, ABSENT_DEFAULT)
            if v is not ABSENT_DEFAULT: e.setattr_(f, n, v)
        if e.is_kind(f, 'func') and e.is_kind(w, 'func'):
            at = e.w(e.obj(f).f['attrs'])
            for kk, vv in e.obj(e.obj(w).f['attrs']).d.items():
                if kk not in at.d: at.d[kk] = vv
        e.setattr_(f, '__wrapped__', w)
        return f
    def f_functools_lru_cache(self, a, k):
        e = self.e
        if a and not isinstance(e.resolve(a[0]), (int, type(None))): return self.memoize(a[0])
        return Native(lambda f: self.memoize(f), 'lru_cache')
    def f_functools_cache(self, a, k): return self.memoize(a[0])
    def memoize(self, f):
        """Exact model of a cache: results are kept by argument."""
        e = self.e
        store = e.new_dict()
        def run(*args, **kw):
            k = tuple(args) + tuple(sorted(kw.items()))
            hk = e.hkey(k)
            en = e.obj(store).d.get(hk)
            if en is not None and en[1] is not ABSENT and not isinstance(en[1], Phi):
                return en[1]
            v = e.call(f, list(args), kw)
            e.w(store).d[hk] = (k, v)
            return v
        n = Native(run, 'cached')
        return n
    def f_collections_defaultdict(self, a, k):
        e = self.e
        r = e.new_dict(cls=Ext('collections.defaultdict'))
        e.w(r).f['default_factory'] = a[0] if a else None
        if len(a) > 1 or k: self.method_dict(r, e.obj(r), 'update', a[1:], k)
        return r
    def f_collections_OrderedDict(self, a, k):
        r = self.f_dict(a, k); self.e.w(r).cls = Ext('collections.OrderedDict'); return r
    def f_collections_deque(self, a, k):
        r = self.f_list(a[:1], {}); self.e.w(r).cls = Ext('collections.deque'); return r
    def f_collections_Counter(self, a, k):
        e = self.e
        r = e.new_dict(cls=Ext('collections.defaultdict')); e.w(r).f['default_factory'] = Ext('builtins.int')
        if a:
            for x in e.iterate(a[0]): e.setitem(r, x, e.binop('+', e.getitem(r, x), 1))
        return r
    def f_operator_itemgetter(self, a, k): return self.e.alloc(HObj('inst', Ext('operator.itemgetter'), {'args': tuple(a)}))
    def f_operator_attrgetter(self, a, k): return self.e.alloc(HObj('inst', Ext('operator.attrgetter'), {'args': tuple(a)}))
    def f_operator_methodcaller(self, a, k): return self.e.alloc(HObj('inst', Ext('operator.methodcaller'), {'args': tuple(a), 'kwargs': dict(k)}))
    def f_inspect_getfullargspec(self, a, k): return self.argspec(a[0])
    def f_inspect_getargspec(self, a, k): return self.argspec(a[0])
    def f_inspect_ismethod(self, a, k): return isinstance(self.e.resolve(a[0]), Bound)
    def f_inspect_isfunction(self, a, k):
        f = self.e.resolve(a[0])
        return isinstance(f, Native) or self.e.is_kind(f, 'func')
    def f_inspect_isclass(self, a, k):
        f = self.e.resolve(a[0])
        return self.e.is_kind(f, 'class') or isinstance(f, Ext) and same(self.ext_type(f), Ext('builtins.type'))
    def f_inspect_isbuiltin(self, a, k):
        f = self.e.resolve(a[0])
        return isinstance(f, Ext) and same(self.ext_type(f), Ext('builtins.builtin_function_or_method'))
    def f_inspect_isroutine(self, a, k): return self.f_inspect_ismethod(a, k) or self.f_inspect_isfunction(a, k) or self.f_inspect_isbuiltin(a, k)
    def f_inspect_signature(self, a, k):
        f = self.e.resolve(a[0])
        if isinstance(f, Ext) and f.path.startswith('numpy'):
            return self.npm().signature(f)
        if isinstance(f, (Ref, Native, Ext, Bound)):
            sp = self.argspec(f)
            o = self.e.obj(sp)
            ps = self.e.new_dict([(n, T('param', n, ty='any')) for n in self.e.obj(o.f['args']).items[1 if isinstance(f, Bound) else 0:]], cls=Ext('collections.OrderedDict'))
            return self.e.alloc(HObj('inst', Ext('inspect.Signature'), {'parameters': ps}))
        return self.e.unknown('inspect.signature')
    def f_re_compile(self, a, k):
        fl = a[1] if len(a) > 1 else k.get('flags', 0)
        return self.e.lift(lambda p, f: self.pattern(p, f), a[0], self.flagval(fl))
    def flagval(self, fl):
        fl = self.e.resolve(fl)
        if isinstance(fl, Ext):
            r = self.real(fl.path)
            return int(r[0])
        return fl
    def re_fn(self, mode, a, k):
        e = self.e
        p = e.resolve(a[0])
        fl = self.flagval(a[2] if len(a) > 2 else k.get('flags', 0))
        if not (isinstance(p, Ref)):
            p = self.pattern(p, fl)
        if isinstance(p, Unknown): return p
        return self.do_match(p, mode, a[1])
    def f_re_match(self, a, k): return self.re_fn('match', a, k)
    def f_re_search(self, a, k): return self.re_fn('search', a, k)
    def f_re_fullmatch(self, a, k): return self.re_fn('fullmatch', a, k)
    def f_re_escape(self, a, k): return self.fold(re.escape, a)
    def f_re_Pattern_match(self, a, k): return self.do_match(a[0], 'match', a[1])
    def f_re_Pattern_search(self, a, k): return self.do_match(a[0], 'search', a[1])
    def f_re_Pattern_fullmatch(self, a, k): return self.do_match(a[0], 'fullmatch', a[1])
    def f_re_Match_group(self, a, k):
        o = self.e.obj(a[0])
        if len(a) == 1: return o.f['$g0']
        v = [self.match_group(a[0], o, i) for i in a[1:]]
        return v[0] if len(v) == 1 else tuple(v)
    def match_span(self, a):
        o = self.e.obj(a[0])
        i = self.e.resolve(a[1]) if len(a) > 1 else 0
        if '$regs' not in o.f: return None
        if isinstance(i, str): i = o.f['$names'].get(i)
        if not isinstance(i, int) or i >= len(o.f['$regs']): self.e.raise_('IndexError', 'no such group')
        return o.f['$regs'][i]
    def f_re_Match_span(self, a, k): return self.match_span(a) or self.e.unknown('span')
    def f_re_Match_start(self, a, k): return (self.match_span(a) or [Unknown('start')])[0]
    def f_re_Match_end(self, a, k): return (self.match_span(a) or [0, Unknown('end')])[1]
    def re_text(self, mode, p, fl, args):
        """sub(), split() and findall() of known texts."""
        e = self.e
        args = [e.resolve(x) for x in args]
        if not isinstance(p, str) or not isinstance(fl, int) or not all(is_prim(x) for x in args): return e.unknown('re.%s' % mode)
        c = re.compile(p, fl)
        if any(has_abs(x) for x in args):
            r = lift_abs(lambda *x: getattr(c, mode)(*x), *args)
            return Unknown('re.%s that depends on digits' % mode) if r is NOFIT else self.from_py(r)
        return self.fold(getattr(c, mode), args)
    def re_text_fn(self, mode, a, k, n):
        p = self.e.resolve(a[0])
        if isinstance(p, Ref): return self.re_text_pat(mode, [p] + list(a[1:]), k)
        fl = self.flagval(k.get('flags', 0))
        if set(k) - {'flags', 'count', 'maxsplit'} : return self.e.unknown('re.' + mode)
        extra = [k[x] for x in ('count', 'maxsplit') if x in k]
        return self.re_text(mode, p, fl, list(a[1:]) + extra)
    def re_text_pat(self, mode, a, k):
        o = self.e.obj(a[0])
        if set(k) - {'count', 'maxsplit'} or 'pattern' not in o.f: return self.e.unknown('re.' + mode)
        return self.re_text(mode, o.f['pattern'], o.f['flags'], list(a[1:]) + list(k.values()))
    def f_re_sub(self, a, k): return self.re_text_fn('sub', a, k, 3)
    def f_re_split(self, a, k): return self.re_text_fn('split', a, k, 2)
    def f_re_findall(self, a, k): return self.re_text_fn('findall', a, k, 2)
    def f_re_Pattern_sub(self, a, k): return self.re_text_pat('sub', a, k)
    def f_re_Pattern_split(self, a, k): return self.re_text_pat('split', a, k)
    def f_re_Pattern_findall(self, a, k): return self.re_text_pat('findall', a, k)
    def f_re_Match_groups(self, a, k):
        d = a[1] if len(a) > 1 else k.get('default')
        def df(g):
            if isinstance(g, Phi): return mkphi(g.c, df(g.a), df(g.b))
            return d if g is None else g
        return tuple(df(g) for g in self.e.obj(a[0]).f['$groups'])
    def f_re_Match_groupdict(self, a, k):
        o = self.e.obj(a[0])
        return self.e.new_dict([(n, o.f['$groups'][i - 1]) for n, i in o.f['$names'].items()])
    def f_sys_getrecursionlimit(self, a, k): return 1000
    def f_str_maketrans(self, a, k):
        e = self.e
        if len(a) == 1:
            r = e.new_dict([(ord(kk) if isinstance(kk, str) else kk, v) for kk, v in e.obj(e.resolve(a[0])).d.values()])
            return r
        return self.from_py(str.maketrans(*a))
    def f_dict_fromkeys(self, a, k):
        return self.e.new_dict([(x, a[1] if len(a) > 1 else None) for x in self.e.iterate(a[0])])
    def define(self, src, name):
        """A definition evaluated as if it were part of the program."""
        from .engine import Env, info
        e = self.e
        tree = ast.parse(src)
        ns = e.alloc(HObj('frame', None, {'__name__': 'collections', '__file__': 'lib', '__doc__': None}))
        env = Env(ns, None, ns, info(tree))
        env.file, env.modname = e.cur[0], 'collections'
        e.block(tree.body, env)
        return e.obj(ns).f[name]
    def f_collections_namedtuple(self, a, k):
        e = self.e
        name, fields = e.resolve(a[0]), e.resolve(a[1] if len(a) > 1 else k.get('field_names'))
        if not isinstance(fields, str): fields = tuple(e.iterate(fields))
        else: fields = tuple(fields.replace(',', ' ').split())
        if not isinstance(name, str) or len(a) > 2 or set(k) - {'field_names'} or not all(isinstance(f, str) and f.isidentifier() for f in fields): return e.unknown('namedtuple')
        src = ['class %s(object):' % name, '    _fields = %r' % (fields,), '    def __init__(self, %s):' % ', '.join(fields)] + ['        self.%s = %s' % (f, f) for f in fields] + ['        pass',
               '    def _tuple(self): return (%s,)' % ', '.join('self.' + f for f in fields),
               '    def __iter__(self): return iter(self._tuple())', '    def __len__(self): return %d' % len(fields), '    def __getitem__(self, i): return self._tuple()[i]',
               '    def __eq__(self, o): return self._tuple() == tuple(o)', '    def __ne__(self, o): return self._tuple() != tuple(o)', '    def __hash__(self): return hash(self._tuple())',
               '    def __lt__(self, o): return self._tuple() < tuple(o)', '    def __add__(self, o): return self._tuple() + tuple(o)', '    def __contains__(self, o): return o in self._tuple()',
               '    def _asdict(self): return {%s}' % ', '.join('%r: self.%s' % (f, f) for f in fields),
               '    def _replace(self, **k):', '        d = self._asdict()', '        d.update(k)', '        return type(self)(**d)', '    @classmethod', '    def _make(cls, it): return cls(*it)']
        return self.define('\n'.join(src), name)
    def f_functools_total_ordering(self, a, k):
        e = self.e
        c = e.resolve(a[0])
        has = [m for m in ('__lt__', '__le__', '__gt__', '__ge__') if e.class_lookup(c, m) is not None]
        if not has: e.raise_('ValueError', 'must define at least one ordering operation')
        r = '__lt__' if '__lt__' in has else '__le__' if '__le__' in has else '__gt__' if '__gt__' in has else '__ge__'
        strict, less = r[3] == 't', r[2] == 'l'
        forms = {(1, 1): None, (0, 0): 'not r', (1, 0): 'not r and self != o' if strict else 'not r', (0, 1): 'r or self == o'}
        for m in ('__lt__', '__le__', '__gt__', '__ge__'):
            if m in has: continue
            st, le = m[3] == 't', m[2] == 'l'
            if strict: f = ('not r and self != o' if st else 'not r') if le != less else 'r or self == o'
            else: f = ('not r' if st else 'not r or self == o') if le != less else 'r and self != o'
            e.setattr_(c, m, self.define('def %s(self, o):\n    r = self.%s(o)\n    if r is NotImplemented: return r\n    return %s' % (m, r, f), m))
        return c
    def f_contextlib_contextmanager(self, a, k):
        from .engine import Native
        e = self.e
        def make(*args, **kw):
            g = e.resolve(e.call(a[0], list(args), kw))
            if not e.pending(g): return e.unknown('context manager')
            return e.alloc(HObj('ctxgen', None, {'gen': g}))
        return Native(make, 'contextmanager')
    def f_contextlib_suppress(self, a, k):
        return self.e.alloc(HObj('suppress', None, {'types': tuple(a)}))

def mkphi_present(v):
    """Presence marker (True/ABSENT) of a possibly conditional value."""
    if isinstance(v, Phi):
        return mkphi(v.c, mkphi_present(v.a), mkphi_present(v.b))
    return ABSENT if v is ABSENT else True

class AbsMatch:
    """The match of a representative, transferred to the text with abstract digits."""
    def __init__(self, m, s):
        self.re, self.regs, self.s, self.lastgroup, self.lastindex, self.pos, self.endpos = m.re, m.regs, s, m.lastgroup, m.lastindex, m.pos, m.endpos
    def group(self, i=0):
        a, b = self.regs[i]
        return None if a < 0 else self.s[a:b]
    def groups(self): return tuple(self.group(i) for i in range(1, len(self.regs)))
    def span(self, i=0): return self.regs[i]

class _AD:
    def __repr__(self): return 'missing'
ABSENT_DEFAULT = Native(None, 'missing')
