"""Behaviour-preserving rewritings: python3 tools/refactor.py FILE.py [ids...] [--checks C01,C02]
FILE.py defines R = {id: [(file, qualified name of a function, new text) or (file, None, old, new)]}.
Applies each to a copy, runs the tests and the checks, and reports the checks that are not quiet."""
import ast, sys, os, shutil, subprocess, tempfile, importlib.util, textwrap, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def replace(src, qual, new):
    tree = ast.parse(src)
    node = tree
    for part in qual.split('.'):
        found = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part and n is not node]
        idx = 0
        assert found, qual
        node = found[idx]
    lines = src.split('\n')
    a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
    body = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * node.col_offset)
    return '\n'.join(lines[:a] + body.split('\n') + lines[node.end_lineno:])
def apply(r, edits):
    for ed in edits:
        p = r + '/uncertainties/' + ed[0]
        s = open(p, encoding='utf-8').read()
        if ed[1] is None:
            assert s.count(ed[2]) == 1, '%d matches: %r' % (s.count(ed[2]), ed[2][:80])
            s = s.replace(ed[2], ed[3])
        else: s = replace(s, ed[1], ed[2])
        ast.parse(s)
        open(p, 'w', encoding='utf-8').write(s)
def one(a):
    i, edits, checks = a
    d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git', '.pytest_cache'))
        try: apply(r, edits)
        except AssertionError as x: return 'cannot apply: %s' % x
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', 'uncertainties', '--no-header'], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1'))
        out = [t.stdout.splitlines()[-1]]
        for c in checks:
            p = subprocess.run(['python3', ROOT + '/run.py', '--property', c], env=dict(os.environ, UNCERT_REPO=r), capture_output=True, text=True)
            l = [x for x in p.stdout.splitlines() if ' obligations, ' in x]
            und = l[0].split(' discharged, ')[1].split(' undecided')[0] if l else '?'
            if p.returncode: out.append('%s rc=%d %s' % (c, p.returncode, ' / '.join(x.strip()[:230] for x in (p.stdout + p.stderr).splitlines() if 'obligations' not in x)[:600]))
            elif und not in ('0',): out.append('%s: %s undecided' % (c, und))
        return '\n     '.join(out)
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    a = sys.argv[1:]; checks = sorted(os.path.basename(x)[:-3].upper() for x in glob.glob(ROOT + '/checks/c*.py'))
    if '--checks' in a: i = a.index('--checks'); checks = a[i+1].split(','); a = a[:i] + a[i+2:]
    sp = importlib.util.spec_from_file_location('refs', a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    from concurrent.futures import ThreadPoolExecutor
    todo = [(i, ed, checks) for i, ed in m.R.items() if len(a) < 2 or i in a[1:]]
    with ThreadPoolExecutor(6) as ex:
        for t, r in zip(todo, ex.map(one, todo)): print(t[0], '|', r, flush=True)
