"""bugrun.py [bug...] [--all-props]: run the check of each planted bug's property against a copy of /repo with the bug; table on stdout"""
import sys, os, json, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(H + '/seeded'))
def one(n):
    d = os.path.join(H, 'seeded', n); prop = json.load(open(d + '/meta.json'))['property']; w = tempfile.mkdtemp(prefix='bugrun_')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True); shutil.copytree(H, w + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded'))
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/repo', capture_output=True, text=True)
        if r.returncode: return n, prop, 'patch does not apply', r.stderr
        p = subprocess.run([sys.executable, 'check.py', prop], cwd=w + '/verif', capture_output=True, text=True, env=dict(os.environ, BG_REPO=w + '/repo', VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
        o = re.findall(r'obligation not discharged: (.*)', p.stdout)
        try: k = json.load(open(w + '/verif/evidence/replay_%s.json' % prop)); ob = [q['obligation'] for q in k.get('obligations', [])]; inp = bool(k.get('case'))
        except Exception: ob, inp = [], False
        return n, prop, 'exit %d' % p.returncode, ('CAUGHT ' + ('input ' if inp else '') + ('obligations: %s' % '; '.join(ob[:3]) if ob else '')) if v else 'MISSED ' + p.stdout[-300:]
    finally: shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("BUGJ", "3"))) as ex:
    for r in ex.map(one, names): print(*r, sep=' | ', flush=True)
