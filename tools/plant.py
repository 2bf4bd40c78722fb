"""plant.py SPEC.py [name...]: write planted bugs (seeded/<id>/) from a specification and confirm each in a scratch copy:
the patch applies, the stable tests pass with it, the demonstration passes without and fails with it."""
import sys, os, json, subprocess, shutil, tempfile, runpy, xml.etree.ElementTree as et
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', PROJ_NETWORK='OFF', TZ='UTC')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = STABLE
    for k in ('stable', 'tests', 'passed', 'stable_pass'):
        if isinstance(b, dict) and k in b: b = b[k]
    return set(b if isinstance(b, list) else list(b))
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PROJ_NETWORK=OFF%s
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''import sys, os, tempfile, shutil, atexit, warnings
warnings.simplefilter('ignore')
tmp = tempfile.mkdtemp(); atexit.register(lambda: shutil.rmtree(tmp, ignore_errors=True))
import numpy as np
def pts(*p):
    a = np.zeros(len(p), dtype=[('x', float), ('y', float), ('z', float), ('tvu', float), ('thu', float)])
    for i, q in enumerate(p): a[i] = tuple(q) + (0.1, 0.2)[len(q) - 3:] if len(q) < 5 else tuple(q)
    return a
'''
def run(cmd, cwd, t=600, env=ENV):
    try: return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 99, '', 'timeout')
def one(n, b):
    d = os.path.join(H, 'seeded', n); w = tempfile.mkdtemp(prefix='plant_'); c = os.path.join(w, 'repo')
    try:
        shutil.copytree('/repo', c, symlinks=True)
        demo = tempfile.mkdtemp(prefix='pd_', dir=w)
        open(demo + '/demo.py', 'w').write(HEAD + b['demo']); open(demo + '/demo.sh', 'w').write(DEMO % (' ' + b['env'] if b.get('env') else ''))
        r0 = run(['bash', demo + '/demo.sh'], c, 300)
        if r0.returncode: return n, 'demo fails on the unchanged tree', (r0.stdout + r0.stderr)[-600:]
        for f, old, new in b['edits']:
            p = os.path.join(c, 'bathygrid', f); s = open(p).read(); k = s.count(old)
            if k < 1: return n, 'text not found', old
            if k > 1 and not b.get('all'): return n, 'text found %d times' % k, old
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], c).stdout
        r1 = run(['bash', demo + '/demo.sh'], c, 300)
        if r1.returncode == 0: return n, 'demo passes with the change', ''
        x = w + '/j.xml'
        t = run([PY, '-m', 'pytest', 'tests', '-q', '--tb=no', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', '--junitxml=' + x], c, 900)
        bad = []
        for tc in et.parse(x).getroot().iter('testcase'):
            if any(q.tag in ('failure', 'error') for q in tc): bad.append(tc.get('classname') + '.' + tc.get('name'))
        known = [q for q in bad if not any(q.split('.')[-1] in s and q.split('.')[-2] in s for s in STAB)]
        bad = [q for q in bad if q not in known]
        if bad: return n, 'tests fail', bad[:4]
        os.makedirs(d, exist_ok=True)
        shutil.copy(demo + '/demo.py', d); shutil.copy(demo + '/demo.sh', d); open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        return n, 'ok', r1.stderr.strip().split('\n')[-1][:150]
    finally: shutil.rmtree(w, ignore_errors=True)
STAB = stable()
if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    with ThreadPoolExecutor(5) as ex:
        for r in ex.map(lambda kv: one(*kv), [(k, v) for k, v in bugs.items() if not sys.argv[2:] or k in sys.argv[2:]]): print(r, flush=True)
