"""automut.py OUT.jsonl N [SEED] [-j J] [--deep] [function name part...]: automatic mutants of the real code.
Stage 1: the stable tests run on a copy with the mutant.  Stage 2 (survivors): the bounded harness of every property, and when it is
quiet the verifier of every property.  What survives both is printed for triage (most are equivalent or outside every property)."""
import ast, sys, os, json, random, shutil, subprocess, tempfile, xml.etree.ElementTree as et
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PY = '/opt/venv/bin/python'; VT = '/opt/veriftools/pyvenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
FILES = ['algorithms', 'backends', 'bgrid', 'convenience', 'grids', 'maingrid', 'tile', 'utilities']
SKIP = ('plot', '_print', 'cube', 'Cube', 'benchmark', 'print_', '__repr__', '_validate_load', 'return_unique_mosaic', 'progress')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&'}
def sites(f):
    src = open('/repo/bathygrid/%s.py' % f).read(); tree = ast.parse(src); out = []
    lines = src.split('\n'); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): fn = (fn + '.' if fn else '') + n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, (ast.Raise, ast.Assert)) : return
        if isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('print', 'debug', 'info', 'warning', '_print', 'print_progress_bar', 'ValueError', 'NotImplementedError'): return
        if isinstance(n, ast.arguments):
            for d in n.defaults: visit(d, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP: out.append((fn, pos(n), '%s %s %s' % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])), 'cmp'))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)): out.append((fn, pos(n), '%s %s %s' % (txt(n.left), BIN[type(n.op)], txt(n.right)), 'bin'))
        if isinstance(n, ast.BoolOp): out.append((fn, pos(n), (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % txt(v) for v in n.values), 'bool'))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)): out.append((fn, pos(n), '(%s)' % txt(n.operand), 'unary'))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): out.append((fn, pos(n), str(not n.value), 'const'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)): out.append((fn, pos(n), str(n.value + 1), 'const'))
        elif isinstance(n, ast.Constant) and n.value is None: pass
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((fn, pos(n.test), 'not (%s)' % txt(n.test), 'cond'))
            if isinstance(n, ast.If): out.append((fn, pos(n.test), 'False', 'cond')); out.append((fn, pos(n.test), 'True', 'cond'))
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if not isinstance(n, ast.Assign) or any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets): out.append((fn, pos(n), 'pass', 'del'))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name): pass
        if isinstance(n, ast.Call) and len(n.args) >= 2: out.append((fn, pos(n), '%s(%s)' % (txt(n.func), ', '.join([txt(n.args[1]), txt(n.args[0])] + [txt(x) for x in n.args[2:]] + [txt(k) for k in n.keywords])), 'swap'))
        if isinstance(n, ast.Call) and n.keywords and n.args: out.append((fn, pos(n), '%s(%s)' % (txt(n.func), ', '.join([txt(x) for x in n.args] + [txt(k) for k in n.keywords[:-1]])), 'dropkw'))
        if isinstance(n, (ast.Continue,)): out.append((fn, pos(n), 'break', 'flow'))
        if isinstance(n, ast.Break): out.append((fn, pos(n), 'continue', 'flow'))
        for c in ast.iter_child_nodes(n): visit(c, fn)
    visit(tree, '')
    res = []
    for fn, (i, j), new, kind in out:
        if not fn or any(s in fn for s in SKIP): continue
        if b'print' in b[max(0, i - 20):i] : continue
        res.append(dict(file=f, fn=fn, line=b[:i].count(b'\n') + 1, old=b[i:j].decode(), new=new, kind=kind, span=[i, j]))
    return res
def run(cmd, cwd, t, env):
    try: return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 99, '', 'timeout')
def one(m):
    w = tempfile.mkdtemp(prefix='am_', dir='/tmp'); c = w + '/repo'
    try:
        shutil.copytree('/repo', c, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = '%s/bathygrid/%s.py' % (c, m['file']); b = open(p, 'rb').read(); i, j = m['span']
        new = b[:i] + m['new'].encode() + b[j:]
        try: compile(new, p, 'exec')
        except SyntaxError: return dict(m, verdict='syntax')
        open(p, 'wb').write(new)
        x = w + '/j.xml'
        for part in (FAST, SLOW):
            t = run([PY, '-m', 'pytest'] + part + ['-x', '-q', '--tb=no', '-p', 'no:cacheprovider', '--timeout=200'], c, 600, ENV)
            if t.returncode: return dict(m, verdict='tests')
        env = dict(ENV, BG_REPO=c)
        for P in PROPS:
            r = run([PY, 'run.py', P, '--seed', '5', '--budget', '9'], H + '/replay', 200, env)
            try: f = json.loads(r.stdout.strip().split('\n')[-1])
            except Exception: f = {}
            if f.get('failure'): return dict(m, verdict='harness', prop=P, why=f['failure'][:200])
        if not DEEP: return dict(m, verdict='QUIET')
        und = []
        for P in PROPS:
            r = run([VT, 'pyvc/run.py', P, '150'], H, 200, dict(env, PYVC_CORES='1'))
            try: vc = json.loads(r.stdout.strip().split('\n')[-1])
            except Exception: und.append(P); continue
            for k in vc.get('contracts', []):
                for o, q in k['obligations'].items():
                    if q['status'] == 'refuted' and o in BASE.get(P, {}).get(k['name'], []): return dict(m, verdict='verifier', prop=P, why=o)
                if k['status'] != 'done' or any(q['status'] != 'proved' for q in k['obligations'].values()): und.append(P + ':' + k['name'][:60])
        return dict(m, verdict='SURVIVED', undecided=und)
    finally: shutil.rmtree(w, ignore_errors=True)
STABLE = [t.split('::')[0].replace('.', '/') + '.py::' + t.split('::', 1)[1] for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]
SLOW = [t for t in STABLE if any(q in t for q in ('export', 'dask', 'update', 'after_load', 'minmax'))]; FAST = [t for t in STABLE if t not in SLOW]
PROPS = ['C%02d' % i for i in range(1, 23)]
DEEP = '--deep' in sys.argv   # without it: no verifier stage, what the harness misses is reported as QUIET
BASE = json.load(open(H + '/contracts/baseline.json'))
if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if x != '--deep']; J = 5
    if '-j' in a: k = a.index('-j'); J = int(a[k + 1]); del a[k:k + 2]
    out, n = a[0], int(a[1]); seed = int(a[2]) if len(a) > 2 else 0
    S = [s for f in FILES for s in sites(f)]
    if a[3:]: S = [s for s in S if any(q in s['fn'] for q in a[3:])]
    random.Random(seed).shuffle(S); print(len(S), 'sites')
    with ThreadPoolExecutor(J) as ex, open(out, 'a') as fo:
        from concurrent.futures import as_completed
        for q in as_completed([ex.submit(one, s) for s in S[:n]]):
            try: r = q.result()
            except Exception as e: print('error', e); continue
            fo.write(json.dumps(r) + '\n'); fo.flush()
