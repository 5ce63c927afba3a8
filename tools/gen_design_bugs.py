#!/usr/bin/env python3
"""Rewrites section 5 of DESIGN.md (the planted bugs) from seeded/*/meta.json and tools/missed.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(ROOT + '/tools/missed.json'))
rows = []
for d in sorted(glob.glob(ROOT + '/seeded/*')):
    i = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), m['what_it_breaks'].replace('|', '\\|'), MISSED.get(i, '')))
text = '''## 5. The planted bugs

Each bug below passes the stable tests, has a demonstration, and is caught by the check of its property
(`tools/catch.py` runs all of them). The last column says what had to be strengthened for those that were first missed.

| bug | check | needs | breaks | first missed: what was added |
|---|---|---|---|---|
%s

''' % '\n'.join(rows)
p = ROOT + '/DESIGN.md'; s = open(p).read()
a = s.index('## 5. The planted bugs') if '## 5. The planted bugs' in s else len(s)
b = s.index('## 6.', a) if '## 6.' in s[a:] else len(s)
open(p, 'w').write(s[:a].rstrip('\n') + '\n\n' + text + s[b:])
