"""writes MANIFEST.json from props_meta.py"""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import props_meta
base = json.load(open(H + '/contracts/baseline.json')) if os.path.exists(H + '/contracts/baseline.json') else {}
checks = []
for k, v in sorted(props_meta.META.items()):
    has = k in base
    checks.append(dict(property=k, quick_cmd='/opt/veriftools/pyvenv/bin/python check.py %s --tier quick' % k, thorough_cmd='/opt/veriftools/pyvenv/bin/python check.py %s --tier thorough' % k,
        technique=('contract-based deductive verification of the real code (pyvc: symbolic execution + SMT), bounded execution of the real code as replay and stand-in' if has else 'bounded check of executable contracts on the real code (stand-in: no function of this property is within reach of the verifier yet)'),
        level=v['level'] if has else 'exploration',
        level_note=('%s. Proved for all inputs: %d obligations over %d contracts. %s: %s. Assumes: %s' % (v['explanation'], sum(len(o) for o in base[k].values()), len(base[k]), 'Bounded cross-check of the assumptions on the running code' if v['level'] == 'proof' else 'Bounded (not proved)', v['bounded'], '; '.join(v['assumptions']))) if has else
            'Bounded only: %s (%s). No deductive claim.' % (v['explanation'], v['bounded'])))
json.dump(dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python tools/setup.py', checks=checks,
    not_applicable=[dict(property='C23', reason='the CUBE algorithm lives in the bathycube package, which is not installed here (its import fails and the code refuses to run CUBE gridding without it); neither its contract nor an executable stand-in is available, and the repository only forwards points to it')],
    notes='hooks: none are needed, the verifier and the harness read and run /repo as it is. See DESIGN.md.'), open(H + '/MANIFEST.json', 'w'), indent=1)
