"""check.py PROP: decide one property against the source in /repo.
Deductive verification (pyvc/run.py: contracts of contracts/PROP.py over the real code) and the bounded search / replay harness
(replay/run.py, real code under the repository's interpreter) run side by side.  See DESIGN.md for the verdict policy."""
import sys, os, json, subprocess, time, argparse
H = os.path.dirname(os.path.abspath(__file__)); VT = '/opt/veriftools/pyvenv/bin/python'; VENV = '/opt/venv/bin/python'
sys.path.insert(0, H)
import props_meta
ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); a = ap.parse_args()
PROP, TIER = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1); T0 = time.time(); M = props_meta.META[PROP]
BUDGET = M.get('budget', 14) if TIER == 'quick' else 240
LIMIT = 200 if TIER == 'quick' else 600
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)

def start(cmd, cwd, **env):
    return subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(ENV, **env))
def finish(p, limit):
    try: out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); return dict(error='time limit', stderr=err[-500:])
    for l in reversed(out.strip().split('\n')):
        try: return json.loads(l)
        except Exception: pass
    return dict(error='no result (exit %s)' % p.returncode, stderr=err[-1500:])
def harness(seed, budget): return start([VENV, 'run.py', PROP, '--seed', str(seed), '--budget', str(budget)], os.path.join(H, 'replay'))
def verifier(**env): return start([VT, os.path.join(H, 'pyvc', 'run.py'), PROP, str(LIMIT)], H, **env)

seeds = [SEED + 1000 * i for i in range(4 if TIER == 'quick' else 6)]
hs = [harness(s, BUDGET) for s in seeds]
has = os.path.exists(os.path.join(H, 'contracts', PROP + '.py'))
vc = finish(verifier(), LIMIT + 60) if has else dict(contracts=[])
base = json.load(open(os.path.join(H, 'contracts', 'baseline.json'))).get(PROP, {}) if os.path.exists(os.path.join(H, 'contracts', 'baseline.json')) else {}

def judge(vc):
    """obligations of the baseline that are refuted / unknown now, and contracts that could not be run"""
    refuted, unknown, undecided = [], [], []
    got = {c['name']: c for c in vc.get('contracts', [])}
    for name in base:
        c = got.get(name)
        if c is None: undecided.append((name, vc.get('error', 'not run'))); continue
        for o, r in c['obligations'].items():
            if r['status'] == 'refuted': refuted.append((name, o, r))
            elif r['status'] != 'proved': unknown.append((name, o, r))
        if c['status'] != 'done': undecided.append((name, c.get('reason')))
        elif any(v == 'unsat' for v in c['covers'].values()): undecided.append((name, 'vacuous: %s' % c['covers']))
        else:
            miss = [o for o in base[name] if o not in c['obligations']]
            if miss: undecided.append((name, 'obligation not generated: %s' % miss[:3]))
    return refuted, unknown, undecided
refuted, unknown, undecided = judge(vc)
if unknown and not refuted:      # solver limit: ask again with more time
    vc2 = finish(verifier(PYVC_T_PROVE='60000', PYVC_T_DECIDE='10000'), LIMIT + 60); r2 = judge(vc2)
    if not vc2.get('error'): vc, (refuted, unknown, undecided) = vc2, r2

res = [finish(h, BUDGET + 300) for h in hs]

found = [r for r in res if r.get('failure')]
failing = refuted      # a solver limit is not a verdict: the bounded harness stands in
undecided += [(n, 'solver limit: %s' % o) for n, o, r in unknown]
if not found and (failing or undecided):
    # replay phase: look for a failing input of the real code
    more = [harness(SEED + 7 + i, 30 if TIER == 'quick' else 90) for i in range(6)]
    extra = [finish(h, 400) for h in more]; res += extra; found = [r for r in extra if r.get('failure')]

def sha():
    try: return subprocess.run(['git', '-C', os.environ.get('BG_REPO', '/repo'), 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except Exception: return ''
nobl = sum(len(c['obligations']) for c in vc.get('contracts', [])); ndis = sum(1 for c in vc.get('contracts', []) for o in c['obligations'].values() if o['status'] == 'proved')
nvc = sum(o['count'] for c in vc.get('contracts', []) for o in c['obligations'].values()); pvc = sum(o['proved'] for c in vc.get('contracts', []) for o in c['obligations'].values())
done = [c for c in vc.get('contracts', []) if c['status'] == 'done']
fns = sorted(set(f for c in done for f in c['functions']))
ev = sum(r.get('evaluations', 0) for r in res); dn = sum(r.get('distinct_nontrivial', 0) for r in res)
herr = [r.get('harness_error') or r.get('error') for r in res if r.get('harness_error') or r.get('error')]
level = M['level']
if has and (undecided or not nobl) and level == 'proof': level = 'exploration'
sys.path.insert(0, os.path.join(H, 'pyvc'))
import trusted
cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=M['rule'], samples=[r['sample'] for r in res if r.get('sample')][:1] or ['none'],
    obligations=nobl, discharged=ndis, verification_conditions=nvc, verification_conditions_discharged=pvc,
    checker_cmd='%s pyvc/run.py %s' % (VT, PROP), trusted_base=trusted.TRUSTED,
    functions_under_contract=fns, contracts=[dict(name=c['name'], functions=c['functions'], status=c['status'], paths=c.get('paths'), bounded=c.get('bounded'), reason=c.get('reason'), wall_s=c['wall'], covers=c['covers'],
        obligations={k: '%s (%d conditions)' % (v['status'], v['count']) for k, v in c['obligations'].items()}) for c in vc.get('contracts', [])],
    back_ends=vc.get('backends', {}), solver_s=vc.get('solver_time', 0), solver_queries=vc.get('queries', 0),
    explanation=M['explanation'], bounded_stand_in=M['bounded'], undecided=[list(map(str, u)) for u in undecided], harness_errors=[str(e)[:400] for e in herr], exhaustive=False)
evid = dict(property=PROP, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=M['assumptions'], wall_s=round(time.time() - T0, 2), violations=1 if (found or failing) else 0)
rp = os.path.join('evidence', 'replay_%s.json' % PROP)
if os.path.exists(os.path.join(H, rp)): os.unlink(os.path.join(H, rp))
if found or failing:
    d = dict(property=PROP, how='cd /verif/replay && %s run.py --replay ../%s' % (VENV, rp))
    if found: d.update(case=found[0]['case'], failure=found[0]['failure'], seed=found[0].get('seed'))
    if failing: d['obligations'] = [dict(contract=n, obligation=o, result=r['status'], verifier_output=r['detail']) for n, o, r in failing]
    json.dump(d, open(os.path.join(H, rp), 'w'), indent=1, default=str)
json.dump(evid, open(os.path.join(H, 'evidence', PROP + '.json'), 'w'), indent=1, default=str)
print('%s %s: %d of %d obligations discharged (%d conditions, %.1f s of solver), %d functions under contract; %d executions of the bounded harness; %.0f s' % (PROP, TIER, ndis, nobl, nvc, vc.get('solver_time', 0), len(fns), ev, time.time() - T0))
for u in undecided: print('UNDECIDED %s: %s (the bounded harness stands in)' % u)
if vc.get('error'): print('UNDECIDED verifier: %s' % vc['error'])
for l in open(os.path.join(H, 'known_findings.txt')) if os.path.exists(os.path.join(H, 'known_findings.txt')) else []:
    if l.startswith('finding: property=%s ' % PROP): print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
if found:
    print(found[0]['failure'][:1500]); print('VIOLATION property=%s replay=%s' % (PROP, rp)); sys.exit(1)
if failing:
    for n, o, r in failing: print('obligation not discharged: %s (%s)' % (o, r['status']))
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, rp)); sys.exit(1)
if ev == 0 and not ndis: print('nothing could be checked: %s' % '; '.join(map(str, herr))); sys.exit(2)
sys.exit(0)
