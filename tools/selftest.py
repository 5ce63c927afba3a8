#!/usr/bin/env python3
"""Differential test of the analysis engine (not of the repository): small programs are analysed with symbolic
arguments, and the abstract result, evaluated at points, is compared with what Python gives."""
import ast, os, sys, math, importlib.util, textwrap
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.world import World, Raised
from sa.terms import *
from sa import field
from sa.engine import GiveUp

POINTS = [(0.0, 0.0), (1.0, 2.0), (2.0, 1.0), (-1.5, 3.0), (3.0, -2.0), (-1.0, -1.0), (0.5, 0.25)]

def conv(e, v, env, seen=()):
    """Python value of an abstract value at a point."""
    if isinstance(v, Phi):
        t = field.evalt(v.c if not isinstance(v.c, bool) else v.c, env) if not hasattr(v.c, 't') else field.evalt(v.c.t, env)
        return conv(e, v.a if t else v.b, env)
    if isinstance(v, tuple): return tuple(y for y in (conv(e, x, env) for x in v) if y is not ABSENT)
    if isinstance(v, Ref):
        o = e.obj(v)
        if o.kind == 'list': return [y for y in (conv(e, x, env) for x in o.items) if y is not ABSENT]
        if o.kind == 'dict': return {a: b for a, b in ((conv(e, k, env), conv(e, x, env)) for k, x in o.d.values()) if b is not ABSENT}
        if o.kind == 'set': return {a for a, b in ((conv(e, k, env), conv(e, x, env)) for k, x in o.d.values()) if b is not ABSENT}
        raise field.NoVal('object ' + o.kind)
    if isinstance(v, Term): return field.evalt(v, env)
    if isinstance(v, Unknown): raise field.NoVal('unknown: ' + v.why)
    return v

def same_(a, b):
    if isinstance(a, bool) != isinstance(b, bool): return False
    if isinstance(a, (list, tuple)): return type(a) == type(b) and len(a) == len(b) and all(map(same_, a, b))
    if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(same_(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a: return isinstance(b, float) and b != b
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and (a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)))
    return a == b

def main():
    src = open(sys.argv[1]).read()
    only = sys.argv[2:]
    sp = importlib.util.spec_from_file_location('snip', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    names = [n.name for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.name.startswith('t_')]
    bad = und = 0
    w = World(numpy=True, mods=('snip',), overlay={'snip.py': src})
    e = w.e
    snap = e.snapshot()
    for n in names:
        if only and n not in only: continue
        e.restore(snap)
        e.sinks, e.stack = [], []
        f = w.ref('snip:' + n)
        try:
            outs = w.attempt(lambda: w.call(f, sym('x'), sym('y')))
        except RecursionError: print('UND  %s: recursion' % n); und += 1; continue
        except GiveUp as g:
            print('UND  %s: %s' % (n, g)); und += 1; continue
        for px, py in POINTS:
            env = {sym('x'): px, sym('y'): py}
            try: want = ('value', getattr(m, n)(px, py))
            except Exception as z: want = ('raise', type(z).__name__)
            got = []
            try:
                for o in outs:
                    ok = True
                    for l in o.lits:
                        c, val = l if isinstance(l, tuple) else (l, True)
                        t = c.t if hasattr(c, 't') else c
                        if bool(field.evalt(t, env)) != bool(val): ok = False; break
                    if ok:
                        o.enter()
                        got.append(('value', conv(e, o.value, env)) if o.kind == 'value' else ('raise', o.exc_name()))
            except (field.NoVal, Exception) as z:
                print('UND  %s at %s: %r' % (n, (px, py), z)); und += 1; break
            if len(got) != 1 or got[0][0] != want[0] or not same_(want[1], got[0][1]):
                print('BAD  %s at %s: found %s, Python gives %s' % (n, (px, py), got, want)); bad += 1; break
    print('%d programs, %d wrong, %d undecided' % (len(names), bad, und))
main()
