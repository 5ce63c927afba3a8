"""C20: strings that cannot be parsed are reported as ValueError only."""
import itertools, math, random
from sa.terms import *
from sa.report import Check
from sa.lib import represent
from sa.notation import read
from . import c19

ALLOWED = ('ValueError', 'NegativeStdDev')
TOKENS = ['', ' ', '(', ')', '+/-', '\xb1', '+', '-', '1', '0.5', '.', 'e', 'E5', '\xd710', '\u207b\xb2', '\xb2', 'nan', 'NAN', 'inf', 'INF', '_', 'x', '\n', '/', '(2)', 'e-3', '9e999', '\u0663', '\xbd', '%', '\x00', '\ud800', ',']
LONG = ['1' * 5000, '9' * 400, '1.' + '0' * 400, '1.' + '0' * 400 + '(1)', '1(' + '9' * 400 + ')', '1(' + '9' * 5000 + ')', '1.0(' + '9' * 400 + ')', '1+/-' + '9' * 400, '1e' + '9' * 400, '1e' + '9' * 5000, '1e-' + '9' * 400,
        '1(1)e' + '9' * 5000, '(1+/-1)e' + '9' * 5000, '(1+/-1)e400', '(1+/-1)e-400', '1(1)e400', '1(1)e-400', '1e400', '1\xd710' + '\u2079' * 400, '1\xd710' + '\u2079' * 5000, '1\xb11\xd710' + '\u2079' * 400, '(1\xb11)\xd710' + '\u2079' * 400,
        '(1(1)e400)e-400', '(1(1)e300)e300', '(1e300+/-1)e300', '1e308(9)e10', '0e400', '0(0)e400', '(0+/-0)e400', 'nan(nan)e400', 'inf(inf)e-400', '(nan+/-nan)e400', '.' + '1' * 400, '.' + '1' * 400 + '(3)', '1' * 309 + '(1)', '1' * 308 + '(1)',
        '1e1_0', '1_000(1)', '1(1)e1_0', '1e5.5', '1(1)e5.5', '(1+/-1)e5.5', '1\xd710\u207b', '1\xd710\u207a\xb2', '(1)\xd710', '((((1))))', '()()', '(1+/-1', '1+/-1)', '(1+/-1)e', '(1+/-1)e+', '(+/-)e5', '(()e5)', '1(1)(1)', '1+/-1+/-1', '1\xb11\xb11', '1(1)+/-1',
        '-(1+/-1)e5', '+/-1', '1+/-', '1(+1)', '1(-1)', '1( 1)', '1 (1)', '- 1', '1(1.2.3)', '1..2', '1.2.3(1)', '.', '.(.)', '1(.)', '.(1)', '-(1)', '(.)e1', '1(nan', '1nan)', 'nan(1)', 'Nan(1)', 'Inf', 'NaN(Inf)', 'infinity', '1(infinity)', '1(Nan)', 'nannan', 'nan(nan)(nan)', '(nan)',
        '(nan)e1', '(inf)e-1', '1e1e1', '1e1(1)', '1e1(1)e1', '0x10', '0x10(1)', '1j', '1+1j', 'True', 'None', '1 2', '1\t+/-\t2', '1\n(2)', '1(2)\n3', '\u0661(\u0662)', '\u0661.\u0662(\u0663)e\u0664', '\uff11(\uff12)', '1\u22122', '1\u2009\xb1 2', '\xb2(\xb2)', '\xb2+/-\xb2', '1(\xb2)', '1e\xb2', '1e\u207b\xb2',
        '1\xd710^2', '1\xd7102', '1 x 10\xb2', '1*10**2', '1\xd7', '\xd710', '\xd710\xb2', '\xb1\xd710\xb2', '(\xb1)\xd710\xb2', '1\xd710\xb2\xd710\xb2', '1\xd710\xb2(1)', '(1\xd710\xb2)\xd710\xb2', '1\xd710\u2070\u2070', '{}', '%s', '%(a)s', '{0}', '\\', '1\\', '\'', '"', '\u2028', '\x85', '\u00a01\u00a0']
# in none of the documented notations
INVALID = ['', ' ', 'x', 'abc', '()', '(', ')', '+', '-', '.', 'e5', '+/-', '\xb1', '+/-1', '\xb11', '1+/-', '1\xb1', '1+/-x', 'x+/-1', '1(', '1(2', '1)', '1(2)(3)', '1(x)', '1.2.3', '1.2.3(4)', '1.2(3.4.5)', '1,2', '1+/-2+/-', '1(2)ex', '1(2)e1.5', '(1+/-2)e', '(1+/-2)ex', '(1+/-2)e1.5',
           '(1+/-2', '1+/-2)', '(1(2)e3', '1..2', '--1', '1--', '1 2', '1(2)x', 'x1(2)', '%', '1\xd7', '(1+/-2)\xd710', '\xd710\xb2', '1+/-2e', '1e+/-2', '1(2+/-3)', '{}',
           '1()', '-1()', '1.2()', '1.()', '.5()', '1()e3', '1.2()e-5', '(1.2())', '(1.2())e3', '1.2()\xd710\xb2', 'nan()', 'inf()', '1( )', '1.2(.)', '1.2(.)e3', '+/-2', '(+/-2)e3', '(1+/-)e3', '1.2(-3)', '1.2(+3)', '1.2(3e1)', '1e3(2)', '1.2(3)e', '1.2(3)e+', '1.5\xd710', '1.5(2)\xd710', '1.5(2) \xd7 10', '1.5E', '1+/-+', '1+/--', '+-1', '1e', '1e+', 'e', '.e5', 'nan(x)', '1(nan', 'nanx', '1+/-nanx', '1_', '_1', '1__0', '0x10', '1j', '1(2)j', '1(2)%', '1+/-2%', '1.5+/-0.5\nabc', '1.5+/-0.5\n2', '1.5\xd710\xb2\nx+/-1', '1.5+/-1.5\xd710\xb2\nx', '1.5(2)\nx', 'x\n1.5+/-2', '(1.5+/-0.5\nx)e2']

def texts(full):
    yield from LONG
    for _, t, _, _ in c19.cases(False): yield represent(t, lambda k: 7)
    for a, b, c in itertools.product(['1', '1.5', '.', '', 'nan', 'INF', '-'], ['nan', 'NAN', 'inf', 'INF', 'NaN', 'Inf', '1nan', '', '.', '-1', '+1', '1e5', '\xb2', ' '], ['', 'e5', 'e', '\xd710\xb2', 'e\xb2', ' ', 'ee', 'e\n']):
        yield '%s(%s)%s' % (a, b, c); yield '%s+/-%s%s' % (a, b, c); yield '(%s\xb1%s)%s' % (a, b, c); yield '(%s(%s))%s' % (a, b, c)
    n = 3
    rnd = random.Random(20)
    for k in range(1, n + 1):
        for c in itertools.product(TOKENS, repeat=k):
            if k == 3 and rnd.random() > (1.0 if full else 0.3): continue
            yield ''.join(c)
    valid = ['12.34(56)', '-1.2(3.4)e-5', '(1.5+/-0.2)e10', '1.5e3+/-0.2e-1', '1.2\xd710\u207b\xb9\xb2\xb1.1', '(1.2 \xb1 0.1) \xd7 10\xb2', '(nan+/-inf)e2', '1.5(nan)e-3', '+1.', '.5(1)']
    for v in valid:
        for i in range(len(v) + 1):
            yield v[:i]; yield v[i:]
            yield v[:i] + v[i + 1:]
            for t in TOKENS[1:] if full else TOKENS[2::3]: yield v[:i] + t + v[i:]
            yield v[:i] + v[max(i - 1, 0):]
            if i < len(v) - 1: yield v[:i] + v[i + 1] + v[i] + v[i + 2:]
    if full:
        for c in itertools.product(TOKENS, repeat=4):
            if rnd.random() < 0.02: yield ''.join(c)

def run(tier):
    ck = Check('C20', tier, 'Every exception that can leave ufloat_fromstr(), for any string, is a ValueError (or the exception for a negative standard deviation); texts in no documented notation are rejected.',
               'exception-flow analysis of ufloat_fromstr() on a symbolic string (matches are split according to the alternatives of each regular expression); constant propagation of malformed texts gives the witnesses')
    w = ck.world(mods=('uncertainties',))
    e = w.e
    FS = w.ref('uncertainties:ufloat_fromstr')
    NS = None
    def kind(o):
        """'value', or the name of the exception if it is not allowed, or 'allowed'."""
        if o.kind == 'value': return 'value'
        o.enter()
        c = e.type_of(e.resolve(o.value))
        if e.issub(c, Ext('builtins.ValueError')) is True: return 'allowed'
        if e.exc_name(e.resolve(o.value)) == 'NegativeStdDev': return 'allowed'
        return o.exc_name()
    # every string: reachable exceptions
    def symbolic(name, mk):
        sites = {}
        def go():
            e.exc_mode = True
            try:
                for o in w.attempt(lambda: w.call(FS, mk())):
                    k = kind(o)
                    if o.kind == 'value': continue
                    site = e.obj(e.resolve(o.value)).site
                    sites.setdefault((site[2] if site else '?', k if k != 'allowed' else o.exc_name()), [k, site, 0])[2] += 1
            finally: e.exc_mode = False
        ck.obligation(w, name + ', analysis', go)
        for (fn, en), (k, site, n) in sorted(sites.items()):
            ck.check('%s: %s from %s' % (name, en, fn), True if k == 'allowed' else None, '%s (%d paths)' % ('allowed' if k == 'allowed' else 'possible at %s:%s, if its condition is feasible' % site[:2], n))
        if not sites: ck.und(name, 'no exception found')
    symbolic('any string', lambda: sym('s', 'str'))
    symbolic('any string between parentheses', lambda: T('cat', '(', sym('s', 'str'), ')', ty='str'))
    symbolic('any value +/- any uncertainty', lambda: T('cat', sym('s', 'str'), '+/-', sym('t', 'str'), ty='str'))
    # witnesses
    seen = set()
    bad = {}
    for t in texts(tier != 'quick'):
        if t in seen: continue
        seen.add(t)
        name = 'parsing %r' % (t if len(t) < 40 else t[:15] + '...(%d characters)' % len(t))
        def go():
            outs = w.attempt(lambda: w.call(FS, t))
            if len(outs) != 1: ck.und(name, '%d outcomes' % len(outs)); return
            k = kind(outs[0])
            if k == 'value':
                outs[0].enter()
                v = e.resolve(outs[0].value)
                ck.check(name, None if isinstance(v, (Unknown, Phi)) else read(t) is not None, 'is accepted, but it is in none of the documented notations')
            elif k == 'allowed': ck.ok(name, outs[0].exc_name())
            else:
                site = e.obj(e.resolve(outs[0].value)).site
                ck.check(name, False, 'raises %s in %s' % (k, site))
        ck.obligation(w, name, go)
    for t in INVALID:
        name = 'rejection of %r' % t
        def go():
            outs = w.attempt(lambda: w.call(FS, t))
            if len(outs) != 1: ck.und(name, '%d outcomes' % len(outs)); return
            k = kind(outs[0])
            ck.check(name, k == 'allowed' if k != 'value' or not isinstance(outs[0].value, Unknown) else None, 'accepted' if k == 'value' else k)
        ck.obligation(w, name, go)
    ck.extra['texts'] = len(seen)
    return ck.finish('Symbolic strings (3 shapes) for the exception-flow analysis, and %d malformed or extreme texts.' % len(seen),
                     ['float() and int() of a text raise nothing but ValueError (OverflowError for numbers outside the range of floats)'])
