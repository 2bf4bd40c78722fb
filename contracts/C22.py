from loopkit import *
CONTRACTS.clear()
AL, T = 'bathygrid/algorithms.py:', 'bathygrid/tile.py:'
def slopes():
    al = mod('algorithms'); n, Rn, K = size('n', 1), size('rows', 1), size('columns', 1); x, y, z, ci = array('x', n), array('y', n), array('z', n), array('ci', n, 'int64')
    everywhere(n, lambda i: And(ci[i] >= 0, ci[i] < Rn * K)); ex, ey = array('ex', K + 1), array('ey', Rn + 1); r, c = index('r', Rn), index('c', K)
    xs, ys, zs, cs = x.snap(), y.snap(), z.snap(), ci.snap(); L = lambda q, v: A.agg('lstsq%d' % q, n, lambda p: lift(cs((p,))) == lift(v), lambda p: (xs((p,)), ys((p,)), 1, zs((p,))))
    u = np.unique(ci[np.argsort(ci)]); m = u.shape[0]; us = u.snap(); gof = fn('group_of_cell', I, I)
    C.forall([m], lambda j: C.assume(z3.Implies(z3.And(j >= 0, j < lift(m)), gof(lift(us((j,)))) == j)))
    def has(p): g = gof(lift(cs((p,)))); C.term(m, g); C.assume(z3.Implies(z3.And(p >= 0, p < n.e), z3.And(g >= 0, g < lift(m), lift(us((g,))) == lift(cs((p,))))))
    C.forall([n], has)
    def want(q, k, i, j):
        v = zi(SNum(lift(i)) * K + SNum(lift(j))); g = gof(v); C.term(m, g); return ite(z3.And(g >= 0, g < lift(k), g < lift(m), lift(us((g,))) == v), L(q, v), float('nan'))
    def inv(env, it):
        over(it, m); g = [v for v in env.values() if isinstance(v, SArr) and len(v.shape) == 2 and C.valid(z3.And(lift(v.shape[0]) == Rn.e, lift(v.shape[1]) == K.e))]
        names = [w for w, v in env.items() if any(v is q for q in g)]; gx = [env[w] for w in names if 'x' in w]; gy = [env[w] for w in names if 'y' in w and 'x' not in w]
        if len(gx) != 1 or len(gy) != 1: raise Unsupported('slope grids are not recognised')
        return loops.Inv(boxes=[(gx[0], lambda k, i: want(0, k.e, *i)), (gy[0], lambda k, i: want(1, k.e, *i))])
    loops.INV['*'] = inv; reachable(); sx, sy = al.calculate_slopes(x, y, z, ci, ex, ey); reachable('after')
    v = r * K + c; cnt = lambda: count(n, lambda p: ci[p] == v)
    for nm, s, q in (('x', sx, 0), ('y', sy, 1)):
        ensure('%s slope: one value for every cell' % nm, And(s.shape[0] == Rn, s.shape[1] == K))
        ensure('%s slope: least squares of exactly the points of the cell, none without points' % nm, lambda: If(cnt() > 0, same(s[r, c], L(q, v)), isnan(s[r, c])))
contract(AL + 'calculate_slopes', 'slopes of every cell', timeout=160)(slopes)
import tilekit
def query(layer, cached):
    """the tile hands exactly its points, their cells and its cell edges to the fit, and keeps the answer until the points change"""
    k = tilekit.tile(state='gridded'); tm = mod('tile'); calls = []; ci = array('ci', k.n, 'int64'); k.t.cell_indices[k.R] = ci; everywhere(k.n, lambda p: ci[p] == k.row(p) * k.m + k.col(p))
    X, Y = array('X', (k.m, k.m), 'float32', nan=True), array('Y', (k.m, k.m), 'float32', nan=True); xs, ys = X.snap(), Y.snap()
    if cached: k.t.cells[k.R]['x_slope'], k.t.cells[k.R]['y_slope'] = X, Y
    tm.calculate_slopes = spy(mod('algorithms').calculate_slopes, calls, lambda a: (X, Y)); before = {l: k.t.cells[k.R][l].get(k.r.e, k.c.e) for l in k.layers}; i = (k.r.e, k.c.e); C.push(C.cells, i); old = {f: a.snap() for f, a in k.data.fields.items()}; cio = ci.snap()
    reachable(); out = k.t.get_layers_by_name(layer, k.R); reachable('after')
    if cached: ensure('slopes that are there are not fitted again', not calls)
    else:
        a = once(calls, 'calculate_slopes'); p = index('p', k.n); j = index('j', k.m + 1)
        for f, nm in (('x', 'x'), ('y', 'y'), ('z', 'z')): ensure('every point of the tile is handed over: ' + f, lambda: And(SNum(lift(a[nm].shape[0])) == k.n, a[nm][p] == old[f]((p.e,))))
        ensure('with the cell it is in', lambda: And(SNum(lift(a['cell_indices'].shape[0])) == k.n, a['cell_indices'][p] == cio((p.e,))))
        ensure('and the cell edges', lambda: And(SNum(lift(a['cell_edges_x'].shape[0])) == k.m + 1, SNum(lift(a['cell_edges_y'].shape[0])) == k.m + 1, a['cell_edges_x'][j] == k.X + j * k.R, a['cell_edges_y'][j] == k.Y + j * k.R))
    v = (xs if layer == 'x_slope' else ys)(i)
    if out is None: ensure('no answer only without any slope', lambda: isnan(v))
    else: ensure('the slope of each cell', lambda: And(out.shape[0] == k.m, out.shape[1] == k.m, same(out[k.r, k.c], v)))
    ensure('the other layers keep their values', lambda: And(*[same(k.t.cells[k.R][l].get(k.r.e, k.c.e), v) for l, v in before.items()]))
for l in ('x_slope', 'y_slope'):
    for c in (False, True): contract([T + 'SRTile._run_slopes', T + 'SRTile.get_layers_by_name'], 'tile: %s asked, %s' % (l, 'fitted before' if c else 'not fitted yet'))(lambda l=l, c=c: query(l, c))
def regrid(algo):
    k = tilekit.tile(state='stale', algorithm=algo); k.t.cells[k.R]['x_slope'] = array('X', (k.m, k.m), nan=True); k.t.cells[k.R]['y_slope'] = array('Y', (k.m, k.m), nan=True); reachable(); k.t.grid(algo, k.R)
    ensure('gridding drops the slopes of before', And('x_slope' not in k.t.cells[k.R], 'y_slope' not in k.t.cells[k.R])); p = index('p', k.n)
    ensure('after gridding every point has the cell it is in', lambda: k.t.cell_indices[k.R][p] == k.row(p) * k.m + k.col(p))
for a in ('mean', 'shoalest'): contract([T + 'SRTile.grid', T + 'SRTile._clear_temp_data'], 'tile: gridding again with %s' % a)(lambda a=a: regrid(a))
def changed(what):
    k = C06.setup('a' if what != 'a new source' else 'b'); reachable()
    if what == 'removing': k.t.remove_points('a')
    else: k.t.add_points(points('new', size('m_new', 1)), 'a')
    ensure('the slopes of the old points are dropped', And('x_slope' not in k.t.cells[k.R], 'y_slope' not in k.t.cells[k.R]))
keep = list(CONTRACTS)
import C06      # its contracts are its own
CONTRACTS[:] = keep
for w in ('a new source', 'a source again', 'removing'): contract([T + 'SRTile.add_points', T + 'SRTile.remove_points', T + 'SRTile._clear_temp_data'], 'tile: slopes after %s' % w)(lambda w=w: changed(w))
