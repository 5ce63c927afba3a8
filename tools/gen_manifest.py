#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check module is claimed, the
others are listed under not_applicable."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C41': 'The accuracy of finite differences depends on the numerical behaviour of the (arbitrary) function and on rounding: a run-time quantity that a static argument cannot bound. That the numerical derivative is a centred difference of the right function with respect to the right argument is decided by C01-C03.',
 'C42': 'Statistical statement about sampled distributions: not a property of the source text.',
 'C43': 'Depends on the interleaving of lazily evaluated linear combinations under the interpreter\'s thread scheduling; the code has no locks, and a sound argument needs the memory model of the interpreter.',
 'C44': 'The converter rewrites arbitrary third-party programs through lib2to3 patterns (which Python 3.12 ships only in part): equivalence of arbitrary programs is out of reach of a static argument on the converter.',
}
TECH = {}
NOTE = 'Decides the obligations listed in the evidence file on an abstract execution of the current source; real arithmetic stands for floating point and undecided obligations are reported, never counted as violations.'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if os.path.exists(f) and i not in NA:
        src = open(f).read()
        m = re.search(r"Check\('%s', tier,.*?,\s*'((?:[^'\\]|\\.)*)'\)\n" % i, src, re.S)
        tech = re.findall(r"'((?:[^'\\]|\\.)*)'\)", src[src.index("Check('%s'" % i):].split('\n    w')[0])[-1]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py --property %s' % i, 'thorough_cmd': 'python3 run.py --property %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + tech, 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for this property (yet).')})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(sys.version_info < (3, 8))"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
