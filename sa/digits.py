"""Splitting of an undecided text with abstract digits into texts with given digits."""
import math
from .terms import *
from .lib import represent
from . import field

SPLIT = [(lambda d: lambda k: d)(d) for d in range(10)] + [(lambda s: lambda k: (s * (k + 1) * 7 + k * k + s) % 10)(s) for s in (1, 3, 4, 8)]

def split(w, ck, name, FS, txt, nom, unc, nd, verdicts):
    """Where the analysis of `txt` (nd abstract digits) did not decide: the same analysis for some of the texts it
    stands for (constant propagation); only definite differences are reported."""
    if 'undecided' not in verdicts or 'violation' in verdicts or not nd: return
    ck.split_budget = getattr(ck, 'split_budget', 150) - 1
    if ck.split_budget < 0: return
    e = w.e
    for a in SPLIT:
        t = represent(txt, a)
        env = {sym('d%d' % k, 'int'): a(k) for k in range(nd)}
        try: wants = [field.evalt(x, env) if isinstance(x, Term) else x for x in (nom, unc)]
        except (field.NoVal, OverflowError): continue
        if any(isinstance(x, complex) or not isinstance(x, (int, float)) for x in wants) or any(math.isinf(x) and isinstance(y, Term) for x, y in zip(wants, (nom, unc))): continue
        n0 = len(ck.obl)
        def go():
            x = w.value(lambda: w.call(FS, t))
            for what, attr, want in (('nominal value', 'nominal_value', wants[0]), ('uncertainty', 'std_dev', wants[1])):
                got = e.numify(w.get(x, attr))
                if not isinstance(got, (int, float)): continue
                ok = got != got if want != want else got == want or abs(got - want) <= 1e-12 * max(abs(want), 1e-300)
                if not ok: ck.bad('%s, digits %r, %s' % (name, t, what), 'parsed as %r instead of %r' % (got, want))
        v = ck.obligation(w, '%s, digits %r' % (name, t), go)
        if 'violation' in v: return
        del ck.obl[n0:]
