from contract import *
from tilekit import *
CONTRACTS.clear()
GRID = [T + 'SRTile.grid', T + 'SRTile.new_grid', T + 'SRTile._clear_temp_data', T + 'Tile.clear_grid', T + 'SRTile._grid_algorithm_initialize']
def gridding(algo, state, old_algo='mean', clear=False, fields=ALL, backscatter=False, other=False, slopes=False):
    k = tile(fields=fields, backscatter=backscatter, state=state, algorithm=old_algo, extra=('x_slope', 'y_slope') if slopes else ())
    if other:
        # a second resolution with arbitrary layers
        k.R2 = Real('R2'); require(And(k.R2 > 0, k.R2 != k.R)); k.m2 = size('m2', 1)
        k.lay2 = loops.VDict({l: array('two_' + l, (k.m2, k.m2), 'float32', nan=True) for l in k.layers}); k.t.cells[k.R2] = k.lay2
        k.q = index('q', k.m2); k.before2 = {l: a.get(k.q.e, k.q.e) for l, a in k.lay2.items()}
    d0 = {f: a.get(z3.IntVal(0)) for f, a in k.data.fields.items()}
    reachable(); r = k.t.grid(algo, k.R, clear_existing=clear); reachable('after')
    ensure('the given resolution is used', r == k.R)
    (spec_mean if algo == 'mean' else spec_shoalest)(k)
    layers = k.t.cells[k.R]
    ensure('exactly the layers of the current points', set(layers) == set(k.layers) - {'x_slope', 'y_slope'})
    ensure('every layer has one value per cell', And(*[SNum(lift(d)) == k.m for a in layers.values() for d in a.shape]))
    p = index('anyp', k.n); i = index('edge', k.m + 1)
    ensure('one cell index per point', k.t.cell_indices[k.R].shape[0] == k.n)
    ensure('the cell index of every point is that of the containing cell', lambda: k.t.cell_indices[k.R][p] == k.row(p) * k.m + k.col(p))
    ensure('edges are the lattice of the tile', lambda: And(k.t.cell_edges_x[k.R].shape[0] == k.m + 1, k.t.cell_edges_x[k.R][i] == k.X + i * k.R, k.t.cell_edges_y[k.R][i] == k.Y + i * k.R))
    ensure('the tile counts as unchanged since it was gridded', Not(k.t.point_count_changed))
    ensure('the points are not touched', And(k.t.data is k.data, list(k.t.container) == ['a']))
    ensure('the algorithm is remembered', k.t.algorithm == algo)
    if other:
        if clear: ensure('other resolutions are dropped', list(k.t.cells) == [k.R] if len(k.t.cells) == 1 else False)
        else: ensure('other resolutions are left alone', lambda: And(k.R2 in k.t.cells, *[same(k.t.cells[k.R2][l].get(k.q.e, k.q.e), v) for l, v in k.before2.items()]))
def g(name, **kw):
    contract(GRID + [T + ('SRTile._run_mean_grid' if kw['algo'] == 'mean' else 'SRTile._run_shoalest_grid')], name, timeout=80)(lambda: gridding(**kw))
for a, b in (('mean', 'shoalest'), ('shoalest', 'mean')):
    g(a + ', never gridded', algo=a, state='fresh')
    g(a + ', regridded over any old layers and slopes, some points new', algo=a, state='stale', old_algo=a, slopes=True)
    g(a + ', regridded after ' + b, algo=a, state='stale', old_algo=b)
    g(a + ', gridded again after the layers were cleared, some points new', algo=a, state='indexed')
    g(a + ', layers present without cell indices', algo=a, state='gridded', old_algo=a)
    g(a + ', clearing other resolutions', algo=a, state='stale', old_algo=a, clear=True, other=True)
    g(a + ', next to another resolution', algo=a, state='stale', old_algo=a, other=True)
    g(a + ', points without uncertainty', algo=a, state='stale', old_algo=a, fields=('x', 'y', 'z'))
    g(a + ', backscatter tile', algo=a, state='stale', old_algo=a, backscatter=True)
@contract([T + 'Tile.clear_points'], 'clearing the points: no point, source or cell index is left')
def cleared():
    k = tile(fields=ALL, state='stale', algorithm='mean'); reachable(); k.t.clear_points()
    ensure('no points', k.t.data is None); ensure('no sources', len(k.t.container) == 0); ensure('no cell index is kept', len(k.t.cell_indices) == 0)
