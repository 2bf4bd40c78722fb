from contract import *
from tilekit import *
CONTRACTS.clear()
ADD = [T + 'SRTile.add_points', T + 'SRTile.remove_points', T + 'SRTile._clear_temp_data']
FIELDS = ('x', 'y', 'z', 'tvu', 'thu')
def rng(t, c): return t.container[c][0], t.container[c][1]
def setup(mode='a', fields=FIELDS, slopes=True):
    """tile with the source a (the one the method is about), two arbitrary other sources b and c of any number, any resolution"""
    k = Kit(); tm = mod('tile'); k.n = size('n', 1); k.data = points('p', k.n, fields); k.R = Real('R')
    names = (['a'] if mode == 'a' else []) + ['b', 'c']
    k.cont = loops.SMap({q: VList([Int(q + '0'), Int(q + '1')]) for q in names})
    for q in names: lo, hi = k.cont[q]; require(And(lo >= 0, lo < hi, hi <= k.n))
    for q, w in itertools.combinations(names, 2): require(Or(k.cont[q][1] <= k.cont[w][0], k.cont[w][1] <= k.cont[q][0]))
    k.ci = array('ci', k.n, 'int64'); k.lay = loops.VDict({'depth': array('d', (size('m', 1), Int('m')), nan=True)})
    if slopes: k.lay['x_slope'] = k.lay['depth']; k.lay['y_slope'] = k.lay['depth']
    k.t = new(tm.SRTile, name='t', data=k.data, container=k.cont, cell_indices=loops.SMap({k.R: k.ci}), cells=loops.SMap({k.R: k.lay}), cell_edges_x=loops.VDict(), cell_edges_y=loops.VDict(), point_count_changed=Bool('changed'), is_backscatter=False)
    k.old = {f: a.snap() for f, a in k.data.fields.items()}; k.oldci = k.ci.snap(); k.r0 = {q: (k.cont[q][0], k.cont[q][1]) for q in names}
    return k
import itertools
def kept(k, names=('b', 'c')):
    """the sources b, c of the tile select the same points as before, in the same order, cell indices included"""
    t = k.t; n1 = t.data.shape[0]
    for q in names:
        lo0, hi0 = k.r0[q]; ensure('the range of every other source keeps its length and stays inside the points', lambda: And(q in t.container, rng(t, q)[1] - rng(t, q)[0] == hi0 - lo0, rng(t, q)[0] >= 0, rng(t, q)[1] <= n1))
    lo0, hi0 = k.r0['b']; i = index('i', hi0 - lo0); s = SNum(zi(lo0 + i)); C.term(k.n, s)
    lo1 = rng(t, 'b')[0]; p = SNum(zi(lo1 + i)); C.term(n1, p)
    for f in k.old: ensure('the points of every other source are untouched: ' + f, lambda: t.data[f][p] == k.old[f]((s.e,)))
    ensure('cached cell indices stay aligned with the points', lambda: And(t.cell_indices[k.R].shape[0] == n1, t.cell_indices[k.R][p] == k.oldci((s.e,))))
    b, c = rng(t, 'b'), rng(t, 'c')
    ensure('ranges of different sources do not overlap', Or(b[1] <= c[0], c[1] <= b[0]))
    ensure('slopes of the old points are dropped', And('x_slope' not in t.cells[k.R], 'y_slope' not in t.cells[k.R]))
    ensure('the tile counts as changed', t.point_count_changed)
def newpart(k, new_, m):
    t = k.t; n1 = t.data.shape[0]; lo, hi = rng(t, 'a')
    ensure('the new range selects exactly the new points', And(hi - lo == m, lo >= 0, hi <= n1))
    i = index('j', m); p = SNum(zi(lo + i)); C.term(n1, p); C.term(m, i)
    for f in new_.fields: ensure('the new points are stored in order: ' + f, lambda: t.data[f][p] == new_[f][i])
    ensure('new points have no cell index yet', lambda: t.cell_indices[k.R][p] == -1)
@contract(ADD, 'remove_points: one source of any number')
def rem():
    k = setup(); reachable(); k.t.remove_points('a'); reachable('after'); lo, hi = k.r0['a']
    ensure('exactly the points of the source are gone', k.t.data.shape[0] == k.n - (hi - lo))
    ensure('the source is gone', 'a' not in k.t.container)
    kept(k)
@contract(ADD, 'remove_points: a source that is not in the tile')
def rem2():
    k = setup('b'); ch = k.t.point_count_changed; reachable(); k.t.remove_points('a')
    ensure('nothing changes', And(k.t.data is k.data, k.t.point_count_changed == ch, list(dict.keys(k.t.container)) == ['b', 'c'], *[And(rng(k.t, q)[0] == k.r0[q][0], rng(k.t, q)[1] == k.r0[q][1]) for q in 'bc']))
    p = index('p', k.n); ensure('cell indices stay', lambda: k.t.cell_indices[k.R][p] == k.oldci((p.e,)))
@contract(ADD, 'add_points: a new source')
def add():
    k = setup('b'); m = size('m_new', 1); d = points('new', m); reachable(); k.t.add_points(d, 'a'); reachable('after')
    ensure('the points are added to those there', k.t.data.shape[0] == k.n + m)
    kept(k); newpart(k, d, m)
    a, b = rng(k.t, 'a'), rng(k.t, 'b'); ensure('the range of the new source overlaps no other', Or(a[1] <= b[0], b[1] <= a[0]))
@contract(ADD, 'add_points: a source that is in the tile already is replaced')
def again():
    k = setup('a'); m = size('m_new', 1); d = points('new', m); reachable(); k.t.add_points(d, 'a'); reachable('after'); lo, hi = k.r0['a']
    ensure('the new points replace the old ones of the source', k.t.data.shape[0] == k.n - (hi - lo) + m)
    kept(k); newpart(k, d, m)
    a, b = rng(k.t, 'a'), rng(k.t, 'b'); ensure('the range of the new source overlaps no other', Or(a[1] <= b[0], b[1] <= a[0]))
@contract(ADD, 'add_points: first points of the tile, after any history')
def first():
    k = setup('b'); k.t.__dict__['data'] = None; m = size('m_new', 1); d = points('new', m); reachable(); k.t.add_points(d, 'a')
    ensure('only the new source is in the tile', And(list(dict.keys(k.t.container)) == ['a'], k.t.data.shape[0] == m)); newpart(k, d, m)
    ensure('cached cell indices have one entry per point', k.t.cell_indices[k.R].shape[0] == m); ensure('the tile counts as changed', k.t.point_count_changed)
def query(algo, backscatter=False, fields=('x', 'y', 'z')):
    k = tile(fields=fields, state='stale', algorithm=algo, backscatter=backscatter); lo, hi = Int('lo'), Int('hi'); require(And(lo >= 0, lo < hi, hi <= k.n))
    everywhere(k.n, lambda p: k.t.cell_indices[k.R][p] == k.row(p) * k.m + k.col(p))
    k.t.__dict__['container'] = loops.SMap({'s': VList([lo, hi])}); l = SNum(zi(hi - lo)); at = lambda i: SNum(zi(lo + SNum(lift(i))))
    specs.HINT['cell'] = lambda p: k.row(at(p)) * k.m + k.col(at(p)); C.forall([l], lambda i: C.term(k.n, at(i)))
    before = {q: a.get(k.r.e, k.c.e) for q, a in k.t.cells[k.R].items()}; i0 = index('i0', l); C.push(C.cells, (k.row(at(i0)), k.col(at(i0))))
    reachable(); out = k.t.get_layers_by_name('s', k.R); reachable('after')
    ensure('there is an answer', out is not None)
    if out is None: return
    here = lambda i: k.here(at(i)); cnt = lambda: count(l, here)
    val = (lambda: total(l, here, lambda i: k.data['z'][at(i)]) / cnt()) if algo == 'mean' else (lambda: least(l, here, lambda i: k.data['z'][at(i)]))
    ensure('a source query grids exactly the points of the source', lambda: If(cnt() > 0, close(out[k.r, k.c], val()), isnan(out[k.r, k.c])))
    ensure('the answer has the shape of the tile', And(out.shape[0] == k.m, out.shape[1] == k.m))
    ensure('the other layers keep their values', lambda: And(*[same(k.t.cells[k.R][q].get(k.r.e, k.c.e), v) for q, v in before.items()]))
    ensure('the points are not touched', k.t.data is k.data)
QUERY = [T + 'SRTile.get_layers_by_name', T + 'SRTile._grid_algorithm_initialize']
contract(QUERY + [T + 'SRTile._run_mean_grid'], 'source query, mean')(lambda: query('mean'))
contract(QUERY + [T + 'SRTile._run_shoalest_grid'], 'source query, shoalest')(lambda: query('shoalest'))
contract(QUERY + [T + 'SRTile._run_mean_grid'], 'source query on a backscatter tile')(lambda: query('mean', True))
