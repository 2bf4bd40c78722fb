"""Compares the numpy contracts of pyvc (arrays.py) with the real numpy on random inputs.
For every case the real function is run on a random array, and its contract on an array of symbolic length and content about which
only the concrete values are assumed. 'agrees': the facts of the contract imply the real result; 'open': they imply neither it nor
its negation (the contract says less than numpy does, which is sound); 'WRONG': they imply something else, or contradict each other."""
import sys, os, random, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H + '/pyvc']
import numpy as RN
from contract import *
import core, arrays as A
SN = load.np
V = lambda n, lo=-3, hi=3: lambda r: RN.array([r.randint(lo, hi) + r.choice([0, 0, .5]) for _ in range(r.randint(*n))], dtype='float64')
W = lambda n, lo=0, hi=4: lambda r: RN.array([r.randint(lo, hi) for _ in range(r.randint(*n))], dtype='int64')
M = lambda n: lambda r: RN.array([r.random() < .5 for _ in range(r.randint(*n))], dtype=bool)
def NaN(g):
    def f(r): a = g(r); a[[r.random() < .3 for _ in a]] = RN.nan; return a
    return f
def two(g, lo=1, hi=3):
    def f(r): h, w = r.randint(lo, hi), r.randint(lo, hi); return RN.array([g(r) for _ in range(h * w)]).reshape(h, w)
    return f
num, boo = (lambda r: r.randint(-2, 3) + r.choice([0, .5])), (lambda r: r.random() < .5)
def nan2(r): a = two(num)(r).astype('float64'); a[RN.array([[r.random() < .3 for _ in q] for q in a])] = RN.nan; return a
asc = lambda n: (lambda r: RN.sort(RN.array(r.sample(range(-4, 9), r.randint(*n)), dtype='float64')))
def same_n(*gs):
    """arrays of one length"""
    def f(r):
        l = [g(r) for g in gs]; n = min(len(a) for a in l); return [a[:n] for a in l]
    return f
def splits(r): n = r.randint(2, 5); k = sorted(r.sample(range(1, n), r.randint(1, n - 1))); return [V((n, n))(r), RN.array(k, dtype='int64')]
def starts(r): n = r.randint(1, 5); k = sorted({0} | set(r.sample(range(n), r.randint(1, n)))); return [V((n, n))(r), RN.array(k, dtype='int64')]
def scat(r): n = r.randint(1, 4); k = r.randint(1, n); return [V((n, n))(r), RN.array(r.sample(range(n), k), dtype='int64'), V((k, k))(r)]
def store(np, a, i, v): a = a.copy(); a[i] = v; return a
def inplace(np, a, m): a = a.copy(); a[m] = 7.0; return a
CASES = [
    ('argsort', V((1, 5)), lambda np, a: a[np.argsort(a)]), ('lexsort', same_n(W((1, 4)), W((1, 4))), lambda np, a, b: (a[np.lexsort((a, b))], b[np.lexsort((a, b))])),
    ('argsort carries others', same_n(asc((1, 4)), V((4, 4))), lambda np, a, b: b[np.argsort(a)]),
    ('unique', W((1, 5)), lambda np, a: np.unique(a)), ('unique counts', W((1, 5)), lambda np, a: np.unique(a, return_counts=True)), ('unique index', W((1, 5)), lambda np, a: np.unique(a, return_index=True)),
    ('searchsorted left', [asc((1, 4)), V((1, 3))], lambda np, a, b: np.searchsorted(a, b, side='left')), ('searchsorted right', [asc((1, 4)), V((1, 3))], lambda np, a, b: np.searchsorted(a, b, side='right')),
    ('digitize', [V((1, 3)), asc((1, 4))], lambda np, a, b: np.digitize(a, b)), ('digitize right', [V((1, 3)), asc((1, 4))], lambda np, a, b: np.digitize(a, b, right=True)),
    ('mask', same_n(V((1, 4)), M((1, 4))), lambda np, a, m: a[m]), ('where', M((1, 5)), lambda np, m: np.where(m)[0]), ('where three', same_n(M((1, 4)), V((1, 4)), V((1, 4))), lambda np, m, a, b: np.where(m, a, b)),
    ('mask assignment', same_n(V((1, 4)), M((1, 4))), inplace), ('mask of mask', same_n(V((1, 4)), M((1, 4))), lambda np, a, m: a[m][a[m] > 0]), ('nonzero of two dimensions', two(boo), lambda np, m: np.where(m)),
    ('argwhere', two(boo), lambda np, m: np.argwhere(m)), ('count_nonzero', M((1, 5)), lambda np, m: np.count_nonzero(m)), ('any', M((1, 4)), lambda np, m: m.any()), ('all', M((1, 4)), lambda np, m: m.all()),
    ('any of rows', two(boo), lambda np, m: np.any(m, axis=1)), ('any of columns', two(boo), lambda np, m: np.any(m, axis=0)), ('all of rows', two(boo), lambda np, m: np.all(m, axis=1)),
    ('sum', V((1, 5)), lambda np, a: a.sum()), ('min', V((1, 5)), lambda np, a: a.min()), ('max', V((1, 5)), lambda np, a: a.max()), ('mean', V((1, 4)), lambda np, a: a.mean()), ('min of a mask', same_n(V((1, 4)), M((1, 4))), lambda np, a, m: a[m].min()),
    ('add.reduceat', starts, lambda np, a, k: np.add.reduceat(a, k)), ('minimum.reduceat', starts, lambda np, a, k: np.minimum.reduceat(a, k)), ('maximum.reduceat', starts, lambda np, a, k: np.maximum.reduceat(a, k)),
    ('split', splits, lambda np, a, k: [q.sum() for q in np.split(a, k)] if np is RN else np.split(a, k)),
    ('isnan', NaN(V((1, 4))), lambda np, a: np.isnan(a)), ('nan_to_num', NaN(V((1, 4))), lambda np, a: (np.nan_to_num(a), np.nan_to_num(a) != 0, np.nan_to_num(a, nan=-1.0))), ('arithmetic', same_n(NaN(V((1, 3))), NaN(V((1, 3)))), lambda np, a, b: (a + b, a - b, a * 2, -a, a > b, a == b, a != b, a <= b)),
    ('product', same_n(V((1, 3)), V((1, 3))), lambda np, a, b: (a * b, a / 4, a ** 2)), ('floor ceil', V((1, 4)), lambda np, a: (np.floor(a), np.ceil(a))), ('round', V((1, 4)), lambda np, a: np.round(a, 3)), ('astype int', V((1, 4), 0), lambda np, a: a.astype('int64')),
    ('transpose', two(num), lambda np, a: a.T), ('fliplr', two(num), lambda np, a: np.fliplr(a)), ('fliplr of the transposed', two(num), lambda np, a: np.fliplr(a.T)), ('flipud', two(num), lambda np, a: np.flipud(a)), ('ravel', two(num), lambda np, a: a.ravel()), ('ravel of the transposed', two(num), lambda np, a: a.T.ravel()),
    ('slices', V((3, 5)), lambda np, a: (a[1:], a[:-1], a[1:-1], a[::-1], a[-1], a[0])), ('slices of two dimensions', two(num, 2, 3), lambda np, a: (a[1:, :-1], a[0], a[:, 0], a[-1, -1])), ('fancy index', [V((3, 4)), lambda r: RN.array([2, 0, 1, 0][:r.randint(1, 4)])], lambda np, a, i: a[i]),
    ('integer array assignment', scat, store), ('concatenate', [V((0, 3)), V((0, 3))], lambda np, a, b: np.concatenate([a, b])), ('append', [V((1, 3)), V((1, 3))], lambda np, a, b: np.append(a, b)), ('column_stack', same_n(V((1, 3)), V((1, 3))), lambda np, a, b: np.column_stack([a, b])),
    ('stack', same_n(V((1, 3)), V((1, 3))), lambda np, a, b: np.stack([a, b], axis=1)), ('meshgrid', [V((1, 3)), V((1, 3))], lambda np, a, b: np.meshgrid(a, b)), ('delete', [V((3, 4)), lambda r: RN.array(sorted(r.sample(range(3), 2)))], lambda np, a, i: np.delete(a, np.where(a > 0)[0])),
    ('full', [], lambda np: (np.full((2, 3), 1.5), np.zeros(2), np.ones(3))), ('arange', [], lambda np: (np.arange(5), np.arange(2, 6), np.arange(1.0, 3.0, 0.5))), ('full_like', V((1, 3)), lambda np, a: np.full_like(a, 2.0)), ('sort', V((1, 4)), lambda np, a: np.sort(a)), ('unravel_index', lambda r: [RN.array([r.randint(0, 5) for _ in range(r.randint(1, 3))])], lambda np, a: np.unravel_index(a, (2, 3))),
    ('tolist', V((1, 3)), lambda np, a: np.array(a.tolist())),
]
def symbolic(a, name, sym, dims):
    """the same array for the verifier"""
    sh = []
    for d in a.shape:
        if sym:
            if d not in dims: dims[d] = Int('len%d' % d); C.assume(dims[d].e == d)
            sh.append(dims[d]); [C.term(dims[d], z3.IntVal(i)) for i in range(d)]
        else: sh.append(int(d))
    kind = {'f': 'float64', 'i': 'int64', 'b': 'bool'}[a.dtype.kind]; v = array(name, tuple(sh), kind, nan=kind == 'float64' and bool(RN.isnan(a).any()))
    for i in RN.ndindex(a.shape):
        w = v.get(*[z3.IntVal(q) for q in i]); x = a[i].item()
        C.assume(same_num(w, x) if kind != 'bool' else zb(w) == x)
    return v
def results(r):
    if isinstance(r, (tuple, list)) and not isinstance(r, A.VList): return [q for w in r for q in results(w)]
    if isinstance(r, A.VList): return [q for w in list(r) for q in results(w)] if any(isinstance(w, SArr) for w in r) else [r]
    return [r]
def check(case, rng, sym, tally, detail):
    name, gen, f = case; ins = gen if isinstance(gen, list) else None
    data = [g(rng) for g in ins] if ins is not None else gen(rng); data = data if isinstance(data, list) else [data]
    done = []
    try: real = f(RN, *[a.copy() for a in data]); fail = None
    except Exception as e: real, fail = None, type(e)
    def go():
        dims = {}; C.cur = name; args = [symbolic(a, 'in%d' % i, sym, dims) for i, a in enumerate(data)]
        try: out = f(SN, *args)
        except Unsupported as e: tally['outside'] += 1; detail.setdefault(name, str(e)); done.append(1); return
        except Exception as e:
            if type(e) is not fail: wrong('%s: %s, numpy %s' % (type(e).__name__, e, fail))
            else: tally['agrees'] += 1; done.append(1)
            return
        if fail: wrong('no %s' % fail); return
        R = [RN.asarray(q) for q in results(real)]
        if isinstance(out, SymSeqBase): out = [out[i].sum() for i in range(len(R))]      # sections of an array
        o = results(out)
        if len(o) != len(R): wrong('%d results, numpy gives %d' % (len(o), len(R))); return
        for m, r in zip(o, R):
            if isinstance(m, (A.VList, list)): m = A.np_array(list(m))
            if isinstance(m, SymSeqBase): items = [(SNum(lift(m.vlen())), len(r))] + [(m.at(z3.IntVal(i)), r[i].item()) for i in range(len(r))]
            elif isinstance(m, SArr):
                if len(m.shape) != r.ndim: wrong('shape %s, numpy gives %s' % (m.shape, r.shape)); return
                items = [(d if isinstance(d, SNum) else SNum(lift(d)), n) for d, n in zip(m.shape, r.shape)]; C.noguard += 1
                for d, n in zip(m.shape, r.shape): [C.term(d, z3.IntVal(i)) for i in range(n)]
                items += [(m.get(*[z3.IntVal(q) for q in i]), r[i].item()) for i in RN.ndindex(r.shape)]; C.noguard -= 1
            else: items = [(m, r.item())]
            for a, b in items:
                g = zb(a) == b if isinstance(b, bool) else (zb(same_num(a, b)) if isinstance(a, (SNum, int, float)) else zb(a) == z3.BoolVal(bool(b)))
                if C.valid(g): tally['agrees'] += 1
                elif C.valid(z3.Not(zb(g))): wrong('%s, numpy gives %s' % (a, b)); return
                else: tally['open'] += 1; tally.setdefault('open:' + name, 0); tally['open:' + name] += 1
        if C._check([], 5000) == z3.unsat: wrong('the facts contradict each other')
        done.append(1)
    def wrong(t): tally['WRONG'] += 1; detail['WRONG ' + name] = t + ' for %s' % [a.tolist() for a in data]; done.append(1)
    C.deadline = time.time() + 60
    try: C.explore(go)
    except Unsupported as e: tally['outside'] += 1; detail.setdefault(name, str(e)); return
    except Exception as e: tally['error'] += 1; detail['error ' + name] = '%s: %s for %s' % (type(e).__name__, e, [a.tolist() for a in data]); return
    if not done: tally['WRONG'] += 1; detail['WRONG ' + name] = 'no feasible path for %s' % [a.tolist() for a in data]
if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3; seed = int(os.environ.get('VERIF_SEED', 1)); only = sys.argv[2] if len(sys.argv) > 2 else ''; T = dict(agrees=0, open=0, outside=0, error=0, WRONG=0); D = {}
    for case in CASES:
        if only not in case[0]: continue
        for sym in (True, False):
            for i in range(n): check(case, random.Random('%s %s %s %d' % (seed, case[0], sym, i)), sym, T, D)
    for k, v in D.items(): print(k + ':', str(v)[:300])
    print({k: v for k, v in T.items()}); sys.exit(1 if T['WRONG'] or T['error'] else 0)
