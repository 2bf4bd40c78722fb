"""symbolic tiles: any position, any size that is a whole number of cells, any points inside"""
from contract import *
import specs
T = 'bathygrid/tile.py:'
ALL = ('x', 'y', 'z', 'tvu', 'thu')
I = z3.IntSort()
class Kit: pass
def lattice(n, lo, R, vals, name, m):
    """index of the lattice interval [lo + k R, lo + (k+1) R) that contains each value; the values are inside [lo, lo + m R)"""
    f = z3.Function(name, I, I); w = (SNum(lift(m)) * R)
    def fact(p):
        k = SNum(f(zi(p))); v = vals.get(p)
        return And(k >= 0, k < m, lo + k * R <= v, v < lo + (k + 1) * R, lo <= v, v < lo + w)
    everywhere(n, fact)
    return lambda p: SNum(f(zi(p)))
def tile(fields=ALL, backscatter=False, state='fresh', algorithm='mean', n=None, name='p', extra=()):
    k = Kit(); tm = mod('tile'); specs.install(tm, is_power_of_two=lambda r: True, bin2d_with_indices=specs.bin2d, np_grid_mean=specs.grid_mean, np_grid_shoalest=specs.grid_shoalest)
    k.n = n if n is not None else size('n', 1); k.m = size('m', 1); k.R = Real('R'); require(k.R > 0)
    k.X, k.Y = Real('min_x'), Real('min_y'); k.W = SNum(k.m.e) * k.R
    k.data = points(name, k.n, fields)
    k.col = lattice(k.n, k.X, k.R, k.data['x'], name + '_col', k.m); k.row = lattice(k.n, k.Y, k.R, k.data['y'], name + '_row', k.m)
    C.term(k.m, 0); C.term(k.m, lift(k.m - 1))
    k.t = new(tm.SRTile, min_x=k.X, max_x=k.X + k.W, min_y=k.Y, max_y=k.Y + k.W, width=k.W, height=k.W, name='t', data=k.data, container=loops.VDict({'a': VList([0, k.n])}),
        cells=loops.VDict(), cell_edges_x=loops.VDict(), cell_edges_y=loops.VDict(), cell_indices=loops.VDict(), algorithm=None, grid_parameters=None, point_count_changed=Bool('changed'), is_backscatter=backscatter)
    k.dk = 'intensity' if backscatter else 'depth'; k.layers = [k.dk, 'density'] + (['vertical_uncertainty'] if 'tvu' in fields else []) + (['horizontal_uncertainty'] if 'thu' in fields else []) + list(extra)
    if state in ('indexed', 'stale'):
        ci = array('ci', k.n, 'int64'); everywhere(k.n, lambda p: Or(ci[p] == -1, ci[p] == k.row(p) * k.m + k.col(p))); k.t.cell_indices[k.R] = ci
    if state in ('gridded', 'stale'):
        k.t.algorithm = algorithm; k.t.cells[k.R] = loops.VDict({l: array('old_' + l, (k.m, k.m), 'int64' if l == 'density' else 'float32', nan=l != 'density') for l in k.layers})
        k.t.cell_edges_x[k.R] = newarr(lambda i: k.X + SNum(lift(i[0])) * k.R, (k.m + 1,), 'float64'); k.t.cell_edges_y[k.R] = newarr(lambda i: k.Y + SNum(lift(i[0])) * k.R, (k.m + 1,), 'float64')
    k.r, k.c = index('r', k.m), index('c', k.m)
    k.here = lambda p: And(k.row(p) == k.r, k.col(p) == k.c)
    specs.HINT['cell'] = lambda p: k.row(p) * k.m + k.col(p)
    return k
MM = 0.00052    # rounding to the millimetre, and the float32 storage of it
def close(v, w): return And(notnan(v), abs(v - w) <= MM)
def cell(k, l): return k.t.cells[k.R][l][k.r, k.c]
def spec_mean(k):
    """the cell (r, c) of the tile holds the means of exactly the points in it"""
    cnt = lambda: count(k.n, k.here)
    def layer(l, f): return lambda: If(cnt() > 0, close(cell(k, l), total(k.n, k.here, lambda p: k.data[f][p]) / cnt()), isnan(cell(k, l)))
    ensure('a cell holds the mean of exactly its points, to the millimetre, no data without points', layer(k.dk, 'z'))
    ensure('density is the number of points in the cell', lambda: cell(k, 'density') == cnt())
    if 'tvu' in k.data.fields: ensure('vertical uncertainty is the mean over exactly the points of the cell', layer('vertical_uncertainty', 'tvu'))
    if 'thu' in k.data.fields: ensure('horizontal uncertainty is the mean over exactly the points of the cell', layer('horizontal_uncertainty', 'thu'))
def spec_shoalest(k):
    """the cell (r, c) of the tile holds the smallest depth of exactly the points in it"""
    cnt = lambda: count(k.n, k.here); low = lambda: least(k.n, k.here, lambda p: k.data['z'][p])
    ensure('a cell holds the smallest depth of exactly its points, to the millimetre, no data without points', lambda: If(cnt() > 0, close(cell(k, k.dk), low()), isnan(cell(k, k.dk))))
    ensure('density is the number of points in the cell', lambda: cell(k, 'density') == cnt())
    unc = [(l, f) for l, f in (('vertical_uncertainty', 'tvu'), ('horizontal_uncertainty', 'thu')) if f in k.data.fields]
    if not unc: return
    def goal():
        now = [cell(k, l) for l, f in unc]; lo = low(); c = cnt()
        p = Exists(k.n, lambda p: And(k.here(p), k.data['z'][p] == lo, *[close(v, k.data[f][p]) for v, (l, f) in zip(now, unc)]))
        return If(c > 0, p, And(*[isnan(v) for v in now]))
    ensure('the uncertainties are those of one shoalest point of the cell', goal)
