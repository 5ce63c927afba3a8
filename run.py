#!/usr/bin/env python3
"""python3 run.py --property C01 [--tier quick|thorough]"""
import argparse, ctypes, importlib, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)

def main(res):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    from sa.world import AnchorMissing
    from sa.engine import AbsRaise, GiveUp
    mod = importlib.import_module('checks.' + a.property.lower())
    try:
        res.append(mod.run(a.tier))
    except Exception as x:
        what = 'public anchor missing: %s' % x if isinstance(x, AnchorMissing) else '%s: %s' % (type(x).__name__, x)
        if not isinstance(x, AnchorMissing) and os.environ.get('VERBOSE'):
            import traceback; traceback.print_exc()
        from sa.report import CHECKS, documented
        rc = 2
        for ck in CHECKS:       # what was found before counts
            if isinstance(x, AnchorMissing) and documented(x): ck.bad('public functions', documented(x))
            if any(o['verdict'] == 'violation' for o in ck.obl): rc = ck.finish('Analysis interrupted: ' + what)
        if rc != 1: print('%s: analysis broken: %s' % (a.property, what))
        res.append(rc)

if __name__ == '__main__':
    res = []
    t = threading.Thread(target=main, args=(res,))
    t.start()
    from sa.report import CHECKS, LIMIT
    from sa.engine import GiveUp
    last = 0
    while t.is_alive():
        t.join(1)
        # an analysis that takes too long is given up: its obligation is undecided
        now = time.monotonic()
        if any(c.started and now - c.started > 1.2 * LIMIT for c in CHECKS) and now - last > LIMIT / 4:
            last = now
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(GiveUp))
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
