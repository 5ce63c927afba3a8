#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py survivors OUT.json N SEED: random mutants that pass the tests;
mutate.py check OUT.json: runs the relevant checks on them and prints those that no check catches."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['core.py', 'umath_core.py', 'umath.py', '__init__.py', 'unumpy/core.py', 'unumpy/ulinalg.py', 'unumpy/__init__.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '*'}
def mutants(path):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    b = src.encode('utf-8').split(b'\n')
    for l in b: off.append(off[-1] + len(l) + 1)
    bs = src.encode('utf-8')
    pos = lambda l, c: off[l - 1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: bs[slice(*span(n))].decode('utf-8')
    out = []
    def add(n, new, kind, fn):
        s, e = span(n)
        out.append((s, e, new, kind, fn, n.lineno))
    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): fn = (fn + '.' if fn else '') + n.name
        body = getattr(n, 'body', None)
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if not isinstance(c, ast.AST): continue
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
                visit(c, fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []): add(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp', fn)
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join('(%s)' % seg(v) for v in n.values) + ')', 'boolop', fn)
            for i in range(len(n.values)): add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand', fn)
        if isinstance(n, ast.UnaryOp): add(n, '(%s)' % seg(n.operand), 'unary', fn)
        if isinstance(n, ast.BinOp) and type(n.op) in OPS: add(n, '((%s) %s (%s))' % (seg(n.left), OPS[type(n.op)], seg(n.right)), 'binop', fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, '(True)', 'cond', fn)
            if not isinstance(n, ast.While): add(n.test, '(False)', 'cond', fn)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool): add(n, str(not n.value), 'const', fn)
            else:
                add(n, repr(n.value + 1), 'const', fn)
                if n.value: add(n, repr(type(n.value)(0)), 'const', fn)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 12 and fn: add(n, repr(n.value[:-1]), 'str', fn)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): add(n, 'pass', 'delete', fn)
        if isinstance(n, ast.Return) and n.value is not None: add(n, 'return None', 'return', fn)
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            add(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap', fn)
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)): add(n, '(%s)' % seg(n.args[0]), 'unwrap', fn)
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)): add(n.type, '(%s,)' % ', '.join(seg(v) for j, v in enumerate(n.type.elts) if j != i), 'except', fn)
    visit(tree, '')
    res = []
    for s, e, new, kind, fn, line in out:
        t = (bs[:s] + new.encode('utf-8') + bs[e:]).decode('utf-8')
        try: ast.parse(t)
        except SyntaxError: continue
        res.append({'old': bs[s:e].decode('utf-8'), 'new': new, 'kind': kind, 'fn': fn, 'line': line, 'text': t})
    return res
def copy(m):
    d = tempfile.mkdtemp(prefix='mutant', dir='/tmp')
    r = d + '/repo'
    shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git', '.pytest_cache'))
    open(r + '/uncertainties/' + m['file'], 'w', encoding='utf-8').write(m['text'])
    return d, r
def passes(m):
    d, r = copy(m)
    try:
        try: t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-W', 'ignore', '-p', 'no:cacheprovider', 'uncertainties', '--no-header'], cwd=r, capture_output=True, text=True, timeout=60, env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired: return False
        return '54 passed' in t.stdout.splitlines()[-1] if t.stdout else False
    finally: shutil.rmtree(d)
FORMAT = ['signif_dgt', 'PDG', 'format', 'robust', 'first_digit', 'to_superscript', 'get_signif', '__str__', '__repr__']
PARSE = ['parse_error', 'str_to_number', 'to_float', 'nrmlze', 'ufloat_fromstr', 'from_super']
def relevant(m):
    f, fn = m['file'], m['fn']
    if f == 'core.py':
        if any(x in fn for x in FORMAT): return 'C29 C22 C21 C40'.split()
        if any(x in fn for x in PARSE): return 'C20 C19 C40 C27'.split()
        return 'C07 C18 C15 C27 C28 C16 C12 C17 C01 C02 C23 C26 C10 C11 C08 C06 C04 C09 C25 C03 C05 C24 C14 C29 C19 C22'.split()
    if f.startswith('um'): return 'C15 C16 C18 C17 C02 C26 C24 C03 C14'.split()
    if f.startswith('unumpy'): return 'C28 C27 C12 C23 C13 C30 C14 C11 C24'.split()
    return 'C07 C24 C27'.split()
def check(m):
    d, r = copy(m)
    try:
        und = []
        for c in relevant(m):
            p = subprocess.run(['python3', ROOT + '/run.py', '--property', c], env=dict(os.environ, UNCERT_REPO=r), capture_output=True, text=True)
            if p.returncode == 1: return c
            l = [x for x in p.stdout.splitlines() if ' obligations, ' in x]
            if p.returncode: und.append('%s rc=%d' % (c, p.returncode))
            elif l and not ' 0 undecided' in l[0] and c != 'C22': und.append('%s:%s' % (c, l[0].split(' discharged, ')[1].split(' undecided')[0]))
        return None if not und else '? ' + ' '.join(und)
    finally: shutil.rmtree(d)
def main():
    if sys.argv[1] == 'survivors':
        rnd = random.Random(int(sys.argv[4]))
        ms = []
        for f in FILES:
            for m in mutants('/repo/uncertainties/' + f):
                m['file'] = f
                ms.append(m)
        print(len(ms), 'mutants', flush=True)
        rnd.shuffle(ms)
        ms = ms[:int(sys.argv[3])]
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex: ok = list(ex.map(passes, ms))
        ms = [m for m, o in zip(ms, ok) if o]
        json.dump(ms, open(sys.argv[2], 'w'))
        print(len(ms), 'pass the tests')
    else:
        ms = json.load(open(sys.argv[2]))
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex:
            n = 0
            for m, c in zip(ms, ex.map(check, ms)):
                n += 1
                if c and c[0] == 'C': continue
                print('%d MISSED %s %s:%d %s: %r -> %r %s' % (n, m['file'], m['fn'], m['line'], m['kind'], m['old'][:150], m['new'][:150], c or ''), flush=True)
        print(n, 'done')
main()
