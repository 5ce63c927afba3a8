"""For each seeded bug: run the check of its property (or those given after --checks) on a patched copy of the repository."""
import sys, os, shutil, subprocess, tempfile, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(t, checks=None):
    d = tempfile.mkdtemp(prefix='catch', dir='/tmp')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        p = subprocess.run(['git', 'apply', t + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if p.returncode: return 'does not apply: ' + p.stderr[:200]
        out = []
        for c in checks or [json.load(open(t + '/meta.json'))['property']]:
            if not os.path.exists(ROOT + '/checks/%s.py' % c.lower()): out.append(c + ': no check'); continue
            x = subprocess.run(['python3', ROOT + '/run.py', '--property', c], env=dict(os.environ, UNCERT_REPO=r), capture_output=True, text=True)
            ok = x.returncode == 1 and ('VIOLATION property=%s ' % c) in x.stdout
            out.append('%s: %s %s' % (c, 'caught' if ok else 'MISSED rc=%d' % x.returncode, ' '.join(l.strip()[:140] for l in x.stdout.splitlines() if 'violated' in l)[:220] if ok else (x.stdout + x.stderr)[-200:]))
        return '\n   '.join(out)
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    a = sys.argv[1:]; checks = None
    if '--checks' in a: i = a.index('--checks'); checks = a[i+1].split(','); a = a[:i]
    ids = a or sorted(os.path.basename(x) for x in glob.glob(ROOT + '/seeded/*'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for i, r in zip(ids, ex.map(lambda i: one(ROOT + '/seeded/' + i, checks), ids)): print(i, '|', r)
