"""Obligations, verdicts, evidence files and exit codes."""
import json, os, re, sys, time, traceback
from .terms import *
from .engine import GiveUp, AbsRaise, PathDead, Sig
from .world import AnchorMissing, Raised, World, Outcome
from . import field

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UNCERT_REPO', '/repo')

DOCUMENTED = {'umath': set('acos acosh asin asinh atan atan2 atanh ceil copysign cos cosh degrees erf erfc exp expm1 fabs factorial floor fmod frexp fsum gamma hypot isinf isnan ldexp lgamma log log10 log1p modf pow radians sin sinh sqrt tan tanh trunc'.split()),
              'unumpy': set('uarray umatrix nominal_values std_devs matrix arccos arccosh arcsin arcsinh arctan arctan2 arctanh ceil copysign cos cosh degrees erf erfc exp expm1 fabs floor fmod gamma hypot isinf isnan ldexp lgamma log log10 log1p modf pow radians sin sinh sqrt tan tanh trunc ulinalg'.split())}
def documented(x):
    """Is the missing name a documented function (then its absence is a violation)?"""
    m = re.match(r'uncertainties\.(umath|unumpy):(\w+)( |$)', str(x))
    return m and m.group(2) in DOCUMENTED[m.group(1)] and 'the documented function %s.%s() is not provided' % m.group(1, 2)
CHECKS = []      # the checks that were started, for run.py
BUDGET, LIMIT = 550, 100     # seconds for a check, and for one obligation

class Check:
    def __init__(self, pid, tier, rule, technique):
        self.pid, self.tier, self.rule, self.technique = pid, tier, rule, technique
        self.obl = []            # dicts
        self.functions = set()
        self.sites = 0
        self.notes = []
        self.t0 = time.time()
        self.m0 = time.monotonic()
        self.started = None      # of the obligation being analysed
        self.known = load_known(pid)
        self.anchors = []
        self.worlds = []
        self.extra = {}
        self.missing = []
        CHECKS.append(self)

    # ------------------------------------------------------------ recording
    def rec(self, name, verdict, detail='', site=None, key=None):
        self.obl.append({'obligation': name, 'verdict': verdict, 'detail': str(detail)[:600], 'site': fmt_site(site), 'key': key or name})

    def ok(self, name, detail='', site=None): self.rec(name, 'ok', detail, site)
    def bad(self, name, detail, site=None, key=None):
        if any(w.e.partial for w in self.worlds):
            return self.und(name, 'module analysed in part: ' + str(detail), site)
        self.rec(name, 'violation', detail, site, key)
    def und(self, name, detail='', site=None): self.rec(name, 'undecided', detail, site)

    def check(self, name, cond, detail='', site=None):
        """cond: True/False/None (undecided)."""
        if cond is True: self.ok(name, detail if detail and False else '', site)
        elif cond is False: self.bad(name, detail, site)
        else: self.und(name, detail, site)
        return cond

    # ------------------------------------------------------------ worlds
    def world(self, **k):
        w = World(root=REPO, **k)
        self.worlds.append(w)
        return w

    def obligation(self, w, name, fn, site=None):
        """Run fn() in a copy of the world's state; analysis failures make
        the obligation undecided, never violated."""
        now = time.monotonic()
        if now - self.m0 > BUDGET:
            self.und(name, 'not analysed: time budget of the check')
            return ['undecided']
        snap = w.e.snapshot()
        w.e.deadline = now + LIMIT
        self.started = now
        w.e.steps = 0
        w.e.joinwork = 0
        n0 = len(self.obl)
        calls0 = dict(w.e.calls)
        try:
            fn()
        except AnchorMissing as x:
            if documented(x):
                self.bad(name, documented(x))
                return [o['verdict'] for o in self.obl[n0:]]
            self.missing.append(str(x))
            self.und(name, 'public anchor missing: %s' % x)
        except Raised as r:
            feas = feasible(r.out, w)
            if feas is None:
                self.und(name, 'possible exception: %s' % r)
            elif feas:
                self.bad(name, 'raises %s: %s' % (r.name, safe_msg(r.out)), r.where)
            else:
                self.und(name, 'exception only on infeasible guards: %s' % r)
        except GiveUp as g:
            self.und(name, 'analysis gave up: %s' % g)
        except (Sig,) as g:
            self.und(name, 'analysis: %s' % type(g).__name__)
        except RecursionError:
            self.und(name, 'analysis recursion')
        except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError, OverflowError, ZeroDivisionError) as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.und(name, 'internal: %s: %s at %s:%s' % (type(x).__name__, x, os.path.basename(tb.filename), tb.lineno))
        finally:
            self.started = None
            w.e.restore(snap)
            for o in self.obl[n0:]:
                if o['verdict'] == 'violation' and not o['site']:
                    fs = ['%s:%s %s' % (k[0], k[1], k[2]) for k, v in w.e.calls.items() if v > calls0.get(k, 0)]
                    o['site'] = 'path through ' + ', '.join(fs[:12]) if fs else ''
        return [o['verdict'] for o in self.obl[n0:]]

    # ------------------------------------------------------------ term comparison
    def eq(self, w, name, got, want, rngs=None, tol=1e-7, pts=None, nan_ok=False, guards=(), site=None, extend=True):
        """got (possibly gated) equals want inside the region."""
        pts = pts if pts is not None else field.samples(rngs or {})
        w_site = site
        for gl, leaf in leaves(got):
            g = tuple(guards) + tuple(gl)
            lpts = pts
            s = leaf.site if isinstance(leaf, Term) and leaf.site else w_site
            if isinstance(leaf, Ref): leaf = w.e.numify(leaf)
            if leaf is ABSENT or leaf is None or isinstance(leaf, (str, Ref, tuple)) or leaf is NotImplemented:
                if g and not any(field.lits_hold(g, p) for p in pts) and not (extend and any(field.lits_hold(g, p) for p in field.guard_points(pts, g, w.e))):
                    self.und(name, 'guard not reached: %s' % (g,)); continue
                self.bad(name, 'expected the number %s, found %r' % (show(want), leaf), s)
                continue
            if g:
                hit = [p for p in pts if field.lits_hold(g, p) is True]
                if not hit:
                    if extend: hit = [p for p in field.guard_points(pts, g, w.e) if field.lits_hold(g, p) is True][:20]
                    # unreachable in this region as far as the analysis can tell
                    if not hit: continue
                    lpts = hit
            wl = want(g) if callable(want) else want
            for wg, wv in leaves(wl):
                gg = g + tuple(wg)
                if wg and any((c, not q) in g for c, q in wg): continue     # contradictory
                if isinstance(wv, Ref): wv = w.e.numify(wv)
                if isinstance(wv, float) and wv != wv or isinstance(leaf, float) and leaf != leaf:
                    a_nan = isinstance(leaf, float) and leaf != leaf
                    b_nan = isinstance(wv, float) and wv != wv
                    if a_nan and b_nan: self.ok(name, 'nan', s)
                    elif b_nan and isinstance(leaf, Term) and not has_unknown(leaf) and nan_flows(leaf): self.ok(name, 'NaN constant flows to the result', s)
                    else:
                        v, why = field.equal(leaf, wv, lpts, tol, gg)
                        if v == 'different' or (v == 'undecided' and a_nan and lpts and not b_nan and all(not (isinstance(x, float) and x != x) for x in [wv])):
                            ev = None
                            if v != 'different':
                                # constant nan against a formula: needs a point where the formula is defined
                                ok = False
                                for p in lpts:
                                    if gg and field.lits_hold(gg, p) is not True: continue
                                    try:
                                        z = field.evalt(wv, p)
                                        if z == z: ok = True; why = {'at': {str(k): q for k, q in p.items()}, 'found': 'nan', 'expected': z}; break
                                    except field.NoVal: pass
                                if not ok:
                                    self.und(name, why); continue
                            self.bad(name, 'found %s, expected %s; witness %s' % (show(leaf), show(wv), why), s)
                        elif v == 'equal': self.ok(name, why, s)
                        else: self.und(name, why)
                    continue
                v, why = field.equal(leaf, wv, lpts, tol, gg)
                if v == 'equal': self.ok(name, why, s)
                elif v == 'different': self.bad(name, 'found %s, expected %s; witness %s' % (show(leaf), show(wv), why), s)
                else: self.und(name, '%s: %s vs %s' % (why, show(leaf), show(wv)), s)

    # ------------------------------------------------------------ end
    def finish(self, explanation, assumptions=()):
        for w in self.worlds:
            for s in w.func_sites():
                self.functions.add('%s:%s' % (s[0], s[2]))
        viol = [o for o in self.obl if o['verdict'] == 'violation']
        und = [o for o in self.obl if o['verdict'] == 'undecided']
        okn = sum(1 for o in self.obl if o['verdict'] == 'ok')
        listed, fresh = [], []
        for v in viol:
            k = [f for f in self.known if f.get('match') and f['match'] in v['key']]
            (listed if k else fresh).append((v, k[0] if k else None))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': dict({
                'explanation': explanation, 'technique': self.technique, 'rule': self.rule,
                'obligations': len(self.obl), 'discharged': okn, 'undecided': len(und), 'violated': len(viol),
                'functions_analysed': sorted(self.functions), 'modules': sorted({m for w in self.worlds for m in w.e.trees}),
                'abstract_steps': sum(w.e.steps for w in self.worlds),
                'samples': [{k: o[k] for k in ('obligation', 'verdict', 'detail', 'site')} for o in pick(self.obl, 12)],
                'undecided_samples': [o['obligation'] + ': ' + o['detail'] for o in und[:10]],
                'imprecision_notes': sorted({n for w in self.worlds for n in w.e.notes})[:20],
            }, **self.extra),
            'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 3), 'violations': len(fresh),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed in %.1fs' % (
            self.pid, len(self.obl), okn, len(und), len(viol), len(self.functions), ev['wall_s']))
        if os.environ.get('VERBOSE'):
            for o in und: print('  undecided: %(obligation)s -- %(detail)s' % o)
        seen = set()
        for v, k in listed:
            if k['id'] not in seen:
                seen.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if fresh:
            rp = os.path.join(HERE, 'evidence', '%s.violation.txt' % self.pid)
            with open(rp, 'w') as fh:
                for v, _ in fresh:
                    fh.write('%s\n  rule: %s\n  construct: %s\n  %s\n' % (v['obligation'], self.rule, v['site'], v['detail']))
            for v, _ in fresh[:8]:
                print('  violated: %s\n    at %s\n    %s' % (v['obligation'], v['site'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.missing:
            print('%s: analysis broken: public anchor missing: %s' % (self.pid, self.missing[0]))
            return 2
        if okn == 0:
            print('%s: analysis broken: nothing could be decided' % self.pid)
            return 2
        return 0

def nan_flows(t):
    """A NaN constant reaches the value through strict arithmetic only."""
    if isinstance(t, float): return t != t
    if not isinstance(t, Term): return False
    if t.op in ('add', 'sub', 'mul', 'div', 'neg', 'abs', 'math.sqrt', 'float', 'pos') or t.op == 'pow' and t.args[1] == 2:
        return any(nan_flows(a) for a in t.args)
    if t.op == 'math.hypot':
        return any(nan_flows(a) for a in t.args) and not any(field.has_inf(a) for a in t.args)
    return False

def pick(l, n):
    if len(l) <= n: return l
    step = len(l) / n
    return [l[int(i * step)] for i in range(n)]

def fmt_site(s):
    if not s or s[0] == '?': return ''
    if isinstance(s, (tuple, list)):
        return '%s:%s%s' % (s[0], s[1], ' in %s' % s[2] if len(s) > 2 else '')
    return str(s)

def safe_msg(out):
    try: return show(out.exc_msg())
    except Exception: return '?'

def feasible(out, w):
    """Can the guards of this outcome hold?  True/False/None."""
    lits = out.lits
    if not lits: return True
    for c, p in lits:
        if has_cond_unknown(c): return None
    e = w.e
    rngs = {t: r for t, r in e.regions.items() if isinstance(t, Term) and t.op == 'sym' and t.ty in ('float', 'int')}
    syms = {s for c, p in lits for s in syms_of(c)}
    rngs = {t: (rngs[t].copy(int=True) if t.ty == 'int' else rngs[t]) for t in rngs if t in syms}
    if syms - set(rngs): return None
    pts = field.samples(rngs, n=200)
    res = [field.lits_hold(lits, p) for p in pts]
    if any(r is True for r in res): return True
    if any(r is None for r in res): return None
    res = [field.lits_hold(lits, p) for p in field.guard_points(pts, lits, e)]
    if any(r is True for r in res): return True
    if any(r is None for r in res): return None
    return False

def syms_of(c):
    from .engine import CT
    if isinstance(c, CT):
        out, st = set(), [c.tree]
        while st:
            t = st.pop()
            if t is True or t is False: continue
            out |= syms_of(t[0]); st += [t[1], t[2]]
        return out
    return {s for s in subterms(c) if isinstance(s, Term) and s.op == 'sym'}

def has_cond_unknown(c):
    from .engine import CT
    if isinstance(c, CT):
        st = [c.tree]
        while st:
            t = st.pop()
            if t is True or t is False: continue
            if has_unknown(t[0]): return True
            st += [t[1], t[2]]
        return False
    return has_unknown(c)

def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid and f.get('status') == 'open']
