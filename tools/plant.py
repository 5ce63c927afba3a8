"""Plant a bug: python3 tools/plant.py bugs/<name>.py ...  (or all of tools/bugs.py)
Each definition: id, prop, edits [(file, old, new)], demo (Python text, exits nonzero when the property is broken), needs, breaks.
The bug is kept under /verif/seeded/<id> only when it applies, passes the stable tests and its demonstration tells the two trees apart."""
import sys, os, shutil, subprocess, tempfile, json, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1')

def demo_run(demo, cwd):
    try: return subprocess.run(['bash', demo], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 99, '', 'timeout')

def plant(b):
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        r = d + '/repo'
        subprocess.run(['git', 'worktree', 'prune'], cwd='/repo')
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.pytest_cache'))
        for f, old, new in b['edits']:
            p = r + '/uncertainties/' + f
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1: return 'edit matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        if not diff: return 'no change'
        mine = subprocess.run('git log --format= -p 46ba0b0..HEAD', shell=True, cwd='/repo', capture_output=True, text=True).stdout.splitlines()
        mine = {l[1:].strip() for l in mine if l[:1] == '+' and l[:3] != '+++'}
        for l in diff.splitlines():
            if l[:1] == '-' and l[:3] != '---' and l[1:].strip() in mine: print('  warning, line of a fix:', l)
        x = d + '/x.xml'
        subprocess.run([PY, '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'uncertainties'], cwd=r, env=dict(ENV, PYTHONPATH=r), capture_output=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/out.json', 'junit:' + x], capture_output=True)
        o = json.load(open(d + '/out.json'))
        lost = STABLE - set(o['passed'])
        if lost: return 'tests fail: %s' % sorted(lost)[:3]
        dd = d + '/demo'; os.mkdir(dd)
        open(dd + '/demo.py', 'w', encoding='utf-8').write(b['demo'].strip('\n') + '\n')
        open(dd + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository, after the build\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        a, c = demo_run(dd + '/demo.sh', '/repo'), demo_run(dd + '/demo.sh', r)
        if a.returncode: return 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-300:]
        if not c.returncode: return 'demo passes with the patch'
        t = ROOT + '/seeded/' + b['id']
        shutil.rmtree(t, ignore_errors=True); shutil.copytree(dd, t)
        open(t + '/patch.diff', 'w', encoding='utf-8').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(t + '/meta.json', 'w'), indent=1)
        return 'kept: ' + ((c.stdout + c.stderr).strip().splitlines() or [''])[-1][:120]
    finally: shutil.rmtree(d)

if __name__ == '__main__':
    sp = importlib.util.spec_from_file_location('bugs', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    from concurrent.futures import ThreadPoolExecutor
    todo = [b for b in m.BUGS if len(sys.argv) < 3 or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(todo, ex.map(plant, todo)): print(b['id'], '|', r)
