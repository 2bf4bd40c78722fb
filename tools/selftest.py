"""Breaks function bodies in a scratch copy of the repository and checks that the verifier refutes an obligation there.
selftest.py [-j N] [name ...]      (the mutations are in tools/mutants.py)"""
import sys, os, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(H, 'tools'))
from mutants import MUTANTS
def run(m):
    prop, name, path, old, new = m[:5]; only = m[5] if len(m) > 5 else ''
    d = tempfile.mkdtemp(prefix='selftest_')
    try:
        shutil.copytree('/repo/bathygrid', d + '/bathygrid', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, 'bathygrid', path); s = open(p, newline='').read()
        crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
        if s.count(old) < 1: return prop, name, 'TEXT NOT FOUND', ''
        s = s.replace(old, new, 1) if not m[6:] else s.replace(old, new)
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        env = dict(os.environ, BG_REPO=d, PYVC_CORES='2')
        if only: env['ONLY'] = only
        out = subprocess.run(['python3-vt', H + '/pyvc/run.py', prop, '250'], env=env, capture_output=True, text=True, timeout=900).stdout.strip().split('\n')[-1]
        r = json.loads(out); base = json.load(open(H + '/contracts/baseline.json'))
        bad = ['%s' % k for c in r.get('contracts', []) for k, v in c['obligations'].items() if v['status'] == 'refuted']
        und = sorted(set('%s: %s' % (c['status'], c.get('reason', '')[:80]) for c in r.get('contracts', []) if c['status'] != 'done')) + sorted(set('unknown: ' + k[:60] for c in r.get('contracts', []) for k, v in c['obligations'].items() if v['status'] == 'unknown'))
        return prop, name, 'refuted' if bad else 'NOT REFUTED', (bad[0] if bad else '; '.join(und) or r.get('error', ''))
    except Exception as e: return prop, name, 'ERROR', repr(e)[:200]
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    a = sys.argv[1:]; j = 4
    if a[:1] == ['-j']: j = int(a[1]); a = a[2:]
    todo = [m for m in MUTANTS if not a or m[0] in a or m[1] in a]; n = 0
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(run, todo): print('%-4s %-22s %-12s %s' % r, flush=True); n += r[2] == 'refuted'
    print('%d of %d refuted' % (n, len(todo)))
