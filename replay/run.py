"""bounded check / replay of one property against the real code
   run.py PROP --seed N --budget SECONDS [--max CASES] [--out FILE]      run.py --replay FILE
prints one json line; exit 0 no failure, 1 failure found, 3 harness problem"""
import resource; resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
import sys, os, json, time, random, copy, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import props
def clean(o):
    if isinstance(o, dict): return {k: clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [clean(v) for v in o]
    if isinstance(o, np.generic): return o.item()
    return o
def attempt(P, case):
    """None, or the failure text"""
    try:
        P.run(copy.deepcopy(case)); return None
    except Fail as e: return str(e)
    except (Escape, KeyboardInterrupt): raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb):
            f = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)][-1]
            return 'the code raised %s: %s (%s:%d %s)' % (type(e).__name__, e, os.path.relpath(f.filename, REPO), f.lineno, f.name)
        return 'HARNESS %s: %s' % (type(e).__name__, ''.join(traceback.format_exception(e))[-600:])
def shrink(P, case, msg, t):
    end = time.time() + t
    def kind(m): return (m or '').split(':')[0][:25]
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(case.get('ops', [])) - 1, -1, -1):
            if time.time() > end: break
            c = dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
            m = attempt(P, c)
            if m and not m.startswith('HARNESS') : case, msg, changed = c, m, True
        for i, op in enumerate(case.get('ops', [])):
            if op[0] != 'add': continue
            j = 0
            while j < len(case['ops'][i][2]) and len(case['ops'][i][2]) > 1 and time.time() < end:
                pts = case['ops'][i][2]; o2 = list(case['ops'][i]); o2[2] = pts[:j] + pts[j + 1:]
                c = dict(case, ops=case['ops'][:i] + [o2] + case['ops'][i + 1:]); m = attempt(P, c)
                if m and not m.startswith('HARNESS'): case, msg, changed = c, m, True
                else: j += 1
    return case, msg
def purge():
    for n in os.listdir(SCRATCH):
        if n.startswith('d') and n[1:].isdigit(): shutil.rmtree(os.path.join(SCRATCH, n), ignore_errors=True)
if __name__ == '__main__':
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--budget', type=float, default=8)
    ap.add_argument('--max', type=int, default=10 ** 9); ap.add_argument('--min', type=int, default=20); ap.add_argument('--replay'); ap.add_argument('--case'); ap.add_argument('--noshrink', action='store_true')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay)); m = attempt(props.P[d['property']], d['case'])
        print(json.dumps(dict(property=d['property'], failure=m))); sys.exit(1 if m else 0)
    P = props.P[a.prop]
    t0 = time.time(); n = 0; triv = 0; seen = set(); fail = None; sample = None; bad = None
    while n < a.max and (time.time() - t0 < a.budget or n < a.min):
        rng = random.Random('%s-%d-%d' % (a.prop, a.seed, n))
        case = clean(P.gen(rng, n))
        m = attempt(P, case)
        if n == 1 or sample is None: sample = case
        if getattr(P, 'trivial', lambda c: False)(case): triv += 1
        else: seen.add(json.dumps(case, sort_keys=True))
        n += 1
        if n % 10 == 0: purge()
        if m:
            if m.startswith('HARNESS'): bad = (case, m); break
            fail = (case, m); break
    out = dict(property=a.prop, seed=a.seed, evaluations=n, distinct_nontrivial=len(seen), wall=round(time.time() - t0, 2), sample=sample)
    if fail:
        case, m = fail
        if not a.noshrink: case, m = shrink(P, case, m, 15)
        out.update(failure=m, case=case)
    if bad: out.update(harness_error=bad[1], case=bad[0])
    out['sample'] = json.loads(json.dumps(sample, default=str))
    print(json.dumps(out, default=str)); sys.stdout.flush()
    purge()
    os._exit(1 if fail else 3 if bad else 0) if False else sys.exit(1 if fail else 3 if bad else 0)
