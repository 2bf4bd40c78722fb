"""run.py PROP [timeout]: verify the contracts of one property against the source in /repo; json on the last line.
The contracts are independent: each one is run in a process of its own."""
import sys, os, json, time, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, os.path.join(os.path.dirname(H), 'contracts')]
import resource; resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)); sys.setrecursionlimit(20000)
import core, arrays, contract, importlib
from core import C, Unsupported
def one(c, limit):
    C.cur = c['name']; t = time.time(); C.deadline = time.time() + min(c['timeout'], limit); r = {}
    # deeper instantiation only where it is needed
    for depth in ([int(os.environ['PYVC_DEPTH'])] if os.environ.get('PYVC_DEPTH') else c['depths']):
        C.obl.clear(); C.covers.clear(); C.MAXDEPTH = depth; r = dict(name=c['name'], functions=c['functions'], bounded=c['bounded'], depth=depth)
        try: r['paths'] = C.explore(c['fn']); r['status'] = 'done'
        except Unsupported as e: r['status'] = 'unsupported'; r['reason'] = str(e); r['trace'] = traceback.format_exc()[-1200:]
        except RecursionError as e: r['status'] = 'unsupported'; r['reason'] = 'recursion limit'
        except MemoryError as e: r['status'] = 'unsupported'; r['reason'] = 'memory'
        except Exception as e: r['status'] = 'error'; r['reason'] = '%s: %s' % (type(e).__name__, str(e)[:400]); r['trace'] = traceback.format_exc()[-2500:]
        r['obligations'] = dict(C.obl)
        if r['status'] == 'done' and all(v['status'] == 'proved' for v in r['obligations'].values()): break
    r['wall'] = round(time.time() - t, 2); r['covers'] = dict(C.covers)
    r['stats'] = dict(queries=C.nq, solver_time=round(C.solver_time, 2), backends=C.backends, notes=sorted(C.notes))
    return r
def main(prop, limit):
    t0 = time.time(); only = os.environ.get('ONLY')
    try: importlib.import_module(prop)
    except BaseException as e: return dict(property=prop, error='contracts could not be set up: %s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc()[-1500:])
    todo = [c for c in contract.CONTRACTS if not only or only in c['name']]; res = {}; run = {}; todo_ = list(enumerate(todo)); cores = int(os.environ.get('PYVC_CORES', os.cpu_count() or 4))
    todo_.sort(key=lambda q: -q[1].get('weight', 1))
    while todo_ or run:
        while todo_ and len(run) < cores:
            i, c = todo_.pop(0); rd, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(rd)
                try: out = json.dumps(one(c, max(1, limit - (time.time() - t0))), default=str)
                except BaseException as e: out = json.dumps(dict(name=c['name'], functions=c['functions'], bounded=c['bounded'], status='error', reason='%s: %s' % (type(e).__name__, e), obligations={}, wall=0, covers={}, stats={}))
                with os.fdopen(wr, 'w') as f: f.write(out)
                os._exit(0)
            os.close(wr); run[pid] = (i, rd, c, time.time())
        # the pipes are read by threads so that large results do not block
        import select
        ready, _, _ = select.select([v[1] for v in run.values()], [], [], 1.0)
        for pid, v in run.items():      # a solver call that does not come back
            if time.time() > min(v[3] + 2 * v[2]['timeout'] + 60, t0 + limit + 15):
                try: os.kill(pid, 9)
                except OSError: pass
        for pid in [p for p, v in run.items() if v[1] in ready]:
            i, rd, c, _ = run.pop(pid)
            with os.fdopen(rd) as f: txt = f.read()
            os.waitpid(pid, 0)
            try: res[i] = json.loads(txt)
            except Exception: res[i] = dict(name=c['name'], functions=c['functions'], bounded=c['bounded'], status='unsupported', reason='verifier process ended (memory?)', obligations={}, wall=0, covers={}, stats={})
    cs = [res[i] for i in sorted(res)]; st = [c.get('stats') or {} for c in cs]; be = {}
    for s in st:
        for k, v in (s.get('backends') or {}).items(): be[k] = be.get(k, 0) + v
    return dict(property=prop, contracts=cs, queries=sum(s.get('queries', 0) for s in st), solver_time=round(sum(s.get('solver_time', 0) for s in st), 2), backends=be, notes=sorted(set(n for s in st for n in s.get('notes', []))), wall=round(time.time() - t0, 2))
if __name__ == '__main__':
    out = main(sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 600)
    if os.environ.get('PP'):
        full = os.environ['PP'] != '1'
        for c in out.get('contracts', []):
            bad = {k: v for k, v in c['obligations'].items() if v['status'] != 'proved'}
            print('==', c['name'], c['status'], c.get('reason', ''), 'paths', c.get('paths'), 'wall', c['wall'], 'obl', len(c['obligations']), 'BAD' if bad else '', '' if all(v == 'sat' for v in c['covers'].values()) else c['covers'])
            if c.get('trace'): print(c['trace'][-700:])
            for k, v in (c['obligations'] if full else bad).items(): print('   ', v['status'], v['count'], round(v.get('time', 0), 2), k[len(c['name']) + 2:], '' if v['status'] == 'proved' else json.dumps(v['detail'])[:1500])
        print(out.get('error', ''), out.get('trace', ''), out.get('wall'), out.get('queries'), out.get('solver_time'))
    else: print(json.dumps(out, default=str))
