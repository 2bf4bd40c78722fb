"""mkbaseline.py [PROP...]: record the obligations that are discharged on the current tree (contracts/baseline.json)"""
import sys, os, json, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = H + '/contracts/baseline.json'
base = json.load(open(B)) if os.path.exists(B) else {}
props = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(H + '/contracts/C*.py'))
def one(p):
    r = subprocess.run([sys.executable, H + '/pyvc/run.py', p, '600'], capture_output=True, text=True)
    try: d = json.loads(r.stdout.strip().split('\n')[-1])
    except Exception: return p, None, r.stderr[-800:]
    out, bad = {}, []
    for c in d.get('contracts', []):
        nb = [o for o, v in c['obligations'].items() if v['status'] != 'proved']
        if c['status'] == 'done' and not nb and c['obligations'] and all(v == 'sat' for v in c['covers'].values()) and c['covers']: out[c['name']] = sorted(c['obligations'])
        else: bad.append((c['name'], c['status'], c.get('reason'), nb, c['covers']))
    return p, out, (bad, d.get('error'), d.get('wall'), d.get('solver_time'))
with ThreadPoolExecutor(4) as ex:
    for p, out, info in ex.map(one, props):
        print(p, None if out is None else (len(out), sum(map(len, out.values()))), info)
        if out is not None: base[p] = out
json.dump(base, open(B, 'w'), indent=1, sort_keys=True)
