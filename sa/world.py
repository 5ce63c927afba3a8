"""Analysis harness: the repository's modules in abstract form plus helpers to
state obligations at the level of the public API."""
import math, os, time
from .terms import *
from .engine import (Engine, Sink, AbsRaise, PathDead, GiveUp, ReturnSig, HObj, Native, State)

class AnchorMissing(Exception):
    """A public name the property is stated about does not exist any more."""

class Outcome:
    """One way an abstract call ends: kind 'value' or 'raise'."""
    def __init__(self, w, kind, value, state):
        self.w, self.kind, self.value, self.state = w, kind, value, state
    @property
    def lits(self):
        return self.state.lits
    def enter(self):
        self.w.e.st = self.state.child()
    def exc_name(self):
        self.enter()
        return self.w.e.exc_name(self.value)
    def exc_msg(self):
        self.enter()
        v = self.w.e.resolve(self.value)
        a = self.w.e.obj(v).f.get('args', ())
        return a[0] if a else ''

class World:
    def __init__(self, numpy=True, root='/repo', mods=('uncertainties',), overlay=None):
        self.e = Engine(root, numpy=numpy, overlay={os.path.join(root, k): v for k, v in (overlay or {}).items()})
        self.mods = {}
        for m in mods:
            self.mods[m] = self.e.import_module(m)
        self.e.freeze()
        self.base_calls = dict(self.e.calls)

    def load(self, name):
        m = self.e.import_module(name)
        self.mods[name] = m
        return m

    def ref(self, path):
        """'uncertainties.core:AffineScalarFunc' -> abstract value."""
        mod, _, name = path.partition(':')
        try:
            v = self.e.import_module(mod)
            for n in name.split('.') if name else []:
                v = self.e.getattr_(v, n)
        except AbsRaise as x:
            raise AnchorMissing('%s is not available (%s)' % (path, self.e.exc_name(x.exc)))
        return v

    # ------------------------------------------------------------ running
    def attempt(self, fn):
        """All (joined) ways in which fn() ends."""
        e = self.e
        sink = Sink(('raise',))
        e.sinks.append(sink)
        n = len(e.stack)
        outs = []
        try:
            try:
                v = fn()
                outs.append(Outcome(self, 'value', v, e.st))
            except PathDead:
                pass
            except AbsRaise as x:
                sink.got.append((e.st, x))
        finally:
            if sink in e.sinks:
                e.sinks.remove(sink)
            del e.stack[n:]
        for st, sig in sink.got:
            outs.append(Outcome(self, 'raise', sig.exc, st))
        return outs

    def value(self, fn):
        """The value of fn(), which must not raise on any path."""
        outs = self.attempt(fn)
        rs = [o for o in outs if o.kind == 'raise']
        if rs:
            raise Raised(rs[0], self)
        if not outs:
            raise GiveUp('no outcome')
        self.e.st = outs[0].state
        return outs[0].value

    # ------------------------------------------------------------ convenience
    def call(self, f, *a, **k):
        return self.e.call(f, list(a), k)
    def meth(self, o, name, *a, **k):
        return self.e.call(self.e.getattr_(o, name), list(a), k)
    def get(self, o, name, default=ABSENT):
        return self.e.getattr_(o, name, default)
    def op(self, op, a, b):
        return self.e.binop(op, a, b)

    def sym(self, name, rng=None, ty='float'):
        t = sym(name, ty)
        if rng is not None:
            self.e.regions[t] = rng
        elif ty == 'float':
            self.e.regions[t] = FIN()
        return t

    def var(self, name, rng=None, sigma=None, tag=None):
        """A fresh independent variable through the public constructor.
        rng may be a number (constant nominal value) or an interval."""
        nom = rng if isinstance(rng, (int, float)) else self.sym(name, rng or FIN())
        if sigma is None:
            s = self.sym('sigma_' + name, POS())
        elif isinstance(sigma, Rng):
            s = self.sym('sigma_' + name, sigma)
        else:
            s = sigma
        uf = self.ref('uncertainties:ufloat')
        return self.call(uf, nom, s) if tag is None else self.call(uf, nom, s, tag)

    def deriv(self, res, var):
        """res.derivatives[var] (0 when the variable is absent)."""
        e = self.e
        d = e.getattr_(res, 'derivatives')
        def g(dd):
            if isinstance(dd, Unknown):
                return dd
            return e.branch(e.contains(dd, var), lambda: e.getitem(dd, var), lambda: 0.0)
        return e.lift(g, d)

    def is_uncert(self, v):
        return self.e.isinstance_(v, self.ref('uncertainties.core:AffineScalarFunc'))

    def func_sites(self):
        return [k for k, v in self.e.calls.items() if v > self.base_calls.get(k, 0)]

class Raised(Exception):
    def __init__(self, out, w):
        self.out = out
        self.name = out.exc_name()
        self.site = getattr(out.value, 'site', None)
        o = w.e.obj(w.e.resolve(out.value))
        self.where = o.site
        Exception.__init__(self, '%s raised at %s' % (self.name, self.where))
