"""doctable.py: the tables of DESIGN.md from contracts/ and contracts/baseline.json (python3-vt tools/doctable.py)"""
import sys, os, json, importlib, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H + '/pyvc', H + '/contracts', H]
import core, arrays, contract, props_meta
out = []; print = lambda *a: out.append(' '.join(map(str, a)))
base = json.load(open(H + '/contracts/baseline.json'))
for i in range(1, 23):
    p = 'C%02d' % i; importlib.import_module(p)
    cs = [c for c in contract.CONTRACTS]; fs = []
    for c in cs:
        for f in c['functions']:
            f = str(f).split(':')[-1].replace('BathyGrid.', 'B.')
            if f not in fs: fs.append(f)
    b = [c for c in cs if c['bounded']]
    print('**%s** %d contracts, %d obligations; functions: %s.' % (p, len(base.get(p, {})), sum(len(v) for v in base.get(p, {}).values()), ', '.join('`%s`' % f for f in fs)))
    M = props_meta.META[p]
    print('Proved: %s.' % M['explanation'])
    g = {}
    for c in b: g.setdefault(c['bounded'], []).append(c['name'])
    if g: print('Contracts with a stated bound (labelled bounded in the evidence): %s.' % '; '.join('%s (%s%s)' % (k, v[0], ' and %d more' % (len(v) - 1) if len(v) > 1 else '') for k, v in g.items()))
    print(('Bounded cross-check of the assumptions on the running code: %s.' if M['level'] == 'proof' else 'Only in the bounded stand-in: %s.') % M['bounded'])
    if len(M['assumptions']) > len(props_meta.COMMON): print('Assumed besides section 1: %s.' % '; '.join(M['assumptions'][len(props_meta.COMMON):]))
    print()
p = H + '/DESIGN.md'; t = open(p).read(); i, j = t.index('<!-- table -->'), t.index('<!-- end of table -->')
open(p, 'w').write(t[:i] + '<!-- table -->\n' + '\n'.join(out) + '\n' + t[j:])
