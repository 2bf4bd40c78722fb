from contract import *
import specs
AL = 'bathygrid/algorithms.py:'
def setup(tvu=True, thu=True):
    n, R, K = size('n', 1), size('R', 1), size('K', 1)
    z, ci = array('z', n), array('ci', n, 'int64')
    everywhere(n, lambda i: And(ci[i] >= 0, ci[i] < R * K))
    r, c = index('r', R), index('c', K)
    g = array('g0', (R, K), nan=True); d = array('d0', (R, K), 'int64')
    return n, R, K, z, ci, r, c, g, d
def mean_contract(tvu, thu):
    n, R, K, z, ci, r, c, g, d = setup()
    g0, d0 = g.get(r.e, c.e), d.get(r.e, c.e)
    v, h = (array('tvu', n) if tvu else np.array([])), (array('thu', n) if thu else np.array([]))
    vg, hg = (array('vg', (R, K), nan=True) if tvu else np.array([])), (array('hg', (R, K), nan=True) if thu else np.array([]))
    v0, h0 = (vg.get(r.e, c.e) if tvu else None), (hg.get(r.e, c.e) if thu else None)
    reachable(); zs, cs = z.snap(), ci.snap(); z0, ci0 = (lambda i: zs((i,))), (lambda i: cs((i,)))
    mod('algorithms').np_grid_mean(z, ci, g, d, v, h, vg, hg)
    # the postcondition is the text of specs.grid_mean, which callers assume
    ix = ci.snap(); was = lambda x0: (lambda i, j: x0); mean_of = lambda a, x0: specs.mean_cell(n, ix, K, a.snap(), was(x0))(r, c)
    reachable('after')
    ensure('a cell holds the mean depth of exactly its points, other cells are left alone', lambda: same(g[r, c], mean_of(z, g0)))
    ensure('the density of a cell is the number of its points', lambda: d[r, c] == specs.count_cell(n, ix, K, was(d0))(r, c))
    if tvu: ensure('the vertical uncertainty is the mean over exactly the points of the cell', lambda: same(vg[r, c], mean_of(v, v0)))
    if thu: ensure('the horizontal uncertainty is the mean over exactly the points of the cell', lambda: same(hg[r, c], mean_of(h, h0)))
    i = index('i', n); ensure('the points are not changed', lambda: And(z[i] == z0(i.e), ci[i] == ci0(i.e)))
@contract(AL + 'np_grid_mean', 'mean of every cell, with uncertainties')
def m1(): mean_contract(True, True)
@contract(AL + 'np_grid_mean', 'mean of every cell, without uncertainties')
def m2(): mean_contract(False, False)
@contract(AL + 'np_grid_mean', 'mean of every cell, vertical uncertainty only')
def m3(): mean_contract(True, False)
# ---------------------------------------------------------------------------------------------- whole tiles
def tiles(algo):
    import C07
    from tilekit import T
    CONTRACTS.clear(); CONTRACTS.extend(KERNEL[algo])
    for name, kw in (('fresh tile', dict(state='fresh')), ('regridded after other points', dict(state='stale', old_algo=algo)), ('points without uncertainty', dict(state='fresh', fields=('x', 'y', 'z'))),
                     ('vertical uncertainty only', dict(state='fresh', fields=('x', 'y', 'z', 'tvu'))), ('backscatter tile', dict(state='fresh', backscatter=True))):
        contract(C07.GRID + [T + 'SRTile._run_%s_grid' % algo], 'tile gridded with %s, %s' % (algo, name), timeout=80)(lambda kw=kw: C07.gridding(algo=algo, **kw))
KERNEL = {'mean': list(CONTRACTS)}
tiles('mean')
