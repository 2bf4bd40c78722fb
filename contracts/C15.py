from contract import *
CONTRACTS.clear()
TABLE = {10: 0.25, 20: 0.5, 40: 1.0, 60: 2.0, 80: 4.0, 160: 8.0, 320: 16.0, 640: 32.0, 1280: 64.0, 2560: 128.0, 5120: 256.0, 10240: 512.0, 20480: 1024.0}
T, B = 'bathygrid/tile.py:SRTile.', 'bathygrid/bgrid.py:BathyGrid.'
def lower(a, b): return If(a < b, a, b)
def band(rez, depth, limit, strict=True):
    """rez is the resolution of the depth band that contains depth, not coarser than limit; a depth on the limit of two bands is in the deeper one
    (strict: the depth mode; in the density mode it may count to either)"""
    ks = list(TABLE); goals = []
    for i, k in enumerate(ks):
        lo = ks[i - 1] if i else None
        inside = And(depth < k, *([depth >= lo if strict else depth > lo] if lo is not None else []))
        goals.append(Implies(inside, rez == lower(limit, TABLE[k])))
    goals.append(Implies(depth >= ks[-1] if strict else depth > ks[-1], rez == lower(limit, TABLE[ks[-1]])))
    return And(*goals)
@contract(T + '_calculate_resolution_lookup', 'tile: resolution of the depth band of the mean depth')
def tile():
    tm = mod('tile'); n = size('n', 1); d = points('p', n, ('x', 'y', 'z')); w = Real('width'); require(w > 0)
    t = new(tm.SRTile, data=d, width=w); reachable(); rez = t._calculate_resolution_lookup()
    mean = total(n, lambda p: True, lambda p: d['z'][p]) / n
    ensure('resolution of the band, clipped to the tile', lambda: band(rez, mean, w))
@contract(T + '_calculate_resolution_lookup', 'tile without points: refused')
def none():
    t = new(mod('tile').SRTile, data=None, width=Real('width')); reachable(); v, e = raises(t._calculate_resolution_lookup)
    ensure('refused', isinstance(e, ValueError))
@contract(B + '_calculate_resolution_lookup', 'grid: resolution of the depth band of the mean depth')
def grid():
    class Grid_(mod('bgrid').BathyGrid): is_empty = False
    m = Real('mean_depth'); w = Real('tile_size'); require(w > 0); g = new(Grid_, mean_depth=m, tile_size=w); reachable()
    rez = g._calculate_resolution_lookup(); ensure('resolution of the band, clipped to the tile', lambda: band(rez, m, w))
@contract(T + '_calculate_resolution_lookup', 'tile: deeper water never gives a finer resolution')
def deeper():
    tm = mod('tile'); w = Real('width'); require(w > 0); n, m = size('n', 1), size('m', 1); d, e = points('p', n, ('x', 'y', 'z')), points('q', m, ('x', 'y', 'z')); a, b = new(tm.SRTile, data=d, width=w), new(tm.SRTile, data=e, width=w)
    mean = lambda d, n: total(n, lambda p: True, lambda p: d['z'][p]) / n
    require(mean(d, n) <= mean(e, m)); reachable(); ra = a._calculate_resolution_lookup(); rb = b._calculate_resolution_lookup()
    ensure('not finer than that of the shallower tile', lambda: rb >= ra)
@contract(B + '_calculate_resolution_lookup', 'grid: deeper water never gives a finer resolution')
def deeper_grid():
    class Grid_(mod('bgrid').BathyGrid): is_empty = False
    m, o = Real('mean_depth'), Real('other_mean_depth'); w = Real('tile_size'); require(And(w > 0, m <= o)); a, b = (new(Grid_, mean_depth=q, tile_size=w) for q in (m, o)); reachable()
    ra = a._calculate_resolution_lookup(); rb = b._calculate_resolution_lookup(); ensure('not finer than that of the shallower grid', lambda: rb >= ra)
@contract(B + '_calculate_resolution_lookup', 'grid without points: refused')
def nothing():
    g = new(mod('bgrid').BathyGrid, tiles=None, mean_depth=0.0, tile_size=Real('tile_size')); reachable(); v, e = raises(g._calculate_resolution_lookup)
    ensure('refused', isinstance(e, ValueError))
import tilekit
def density(mode, big):
    """callee contract of _return_cell_counts: one entry for every cell that has points, with their number (verified below)"""
    tm = mod('tile'); x = Real('min_x'); q = Int('cells_per_side')
    if big:      # tile of one or more cells of the starting resolution: 16 times a power of two
        q = next((c for c in (1, 2, 4, 8, 16, 32, 64) if C.decide(q.e == c)), q)
        if not isinstance(q, int): require(q > 64)
        ts = q * 16.0; S = 16.0
    else: ts = Real('tile_size'); require(And(ts > 0, ts < 16)); S = ts; q = 1
    n = size('n', 1); d = points('p', n, ('x', 'y', 'z')); m = size('m', 1); cnt = array('cnt', m, 'int64'); everywhere(m, lambda j: cnt[j] >= 1); ids = array('ids', m, 'int64')
    asked = []
    class Tile_(tm.SRTile):
        def _return_cell_counts(s, resolution): asked.append(resolution); return ids, cnt
    t = new(Tile_, min_x=x, max_x=x + ts, min_y=x, max_y=x + ts, width=ts, height=ts, data=d); reachable()
    rez = t.resolution_by_density(None if mode == 'default' else 16.0)
    ensure('counts are taken at the starting resolution, at most the tile', lambda: And(len(asked) == 1, asked[0] == S))
    mean = total(n, lambda p: True, lambda p: d['z'][p]) / n
    sparse = m / (q * q) <= 0.75
    w = lambda j: np.sqrt(2 * 5 * 1.75 / (cnt[j] / (S * S))) * cnt[j]
    est = lambda: total(m, lambda j: True, w) / total(m, lambda j: True, lambda j: cnt[j])
    opts = sorted(TABLE.values())
    def finest():
        e = est(); g = [Implies(And(e <= o, *([e > opts[i - 1]] if i else [])), rez == lower(ts, o)) for i, o in enumerate(opts)]
        return And(*g, Implies(e > opts[-1], rez == lower(ts, opts[-1])))
    ensure('mostly empty tile: resolution of the depth band', lambda: Implies(sparse, band(rez, mean, ts, strict=False)))
    ensure('else: the finest allowed resolution not below the weighted estimate', lambda: Implies(Not(sparse), finest()))
contract([T + 'resolution_by_density'], 'tile: resolution by density')(lambda: density('default', True))
contract([T + 'resolution_by_density'], 'tile: resolution by density, tile smaller than the starting resolution')(lambda: density('default', False))
contract([T + 'resolution_by_density'], 'tile: resolution by density, starting resolution given')(lambda: density('given', True))
@contract(T + '_return_cell_counts', 'number of points of every cell that has some')
def counts():
    k = tilekit.tile(('x', 'y', 'z'), algorithm='mean'); k.t.cells.clear(); reachable(); u, c = k.t._return_cell_counts(k.R); m = u.shape[0]
    ensure('one count for each cell', c.shape[0] == m)
    j = index('j', m); i = index('i', m);
    ensure('cells are listed once', lambda: Implies(Not(i == j), Not(u[i] == u[j])))
    ensure('a listed cell has points', lambda: c[j] >= 1)
    ensure('the count is the number of points in the cell', lambda: c[j] == count(k.n, lambda p: k.row(p) * k.m + k.col(p) == u[j]))
    p = index('p', k.n); ensure('every cell that has points is listed', lambda: Exists(m, lambda j: u[j] == k.row(p) * k.m + k.col(p)))
def choose(name, res, mode, dask=False):
    bm = mod('bgrid'); m = Real('mean_depth'); w = Real('tile_size'); require(w > 0); seq, par = [], []
    class Grid_(bm.BathyGrid):
        is_empty = False
        def resolution_by_density(s, *a): return Real('by_density')
        _grid_regular = spy(bm.BathyGrid._grid_regular, seq); _grid_parallel = spy(bm.BathyGrid._grid_parallel, par)
    g = new(Grid_, mean_depth=m, tile_size=w, name=name, grid_algorithm='', grid_resolution='', grid_parameters=None, resolutions=VList([4.0]))
    clear = Bool('clear'); R = None if res is None else Real('R'); reachable()
    g.grid('mean', R, clear_existing=clear, auto_resolution_mode=mode or 'depth', regrid_option='update', use_dask=dask, progress_bar=False)
    a = once(par if dask else seq, 'gridding of the tiles'); rez = a['resolution']
    ensure('algorithm and options reach the tiles', And(a['algorithm'] == 'mean', Iff(a['clear_existing'], clear), a['regrid_option'] == 'update', not (seq if dask else par)))
    ensure('automatic mode reaches the tiles only when no resolution is given', a['auto_resolution'] == ('' if res is not None else mode))
    if res is not None: ensure('the given resolution is used', rez == R)
    elif name == 'VRGridTile_Root': ensure('each tile of a variable resolution grid chooses its own', rez is None)
    elif mode == 'density': ensure('density resolution of the grid', rez == Real('by_density'))
    else: ensure('resolution of the depth band of the grid', lambda: band(rez, m, w))
    ensure('the resolutions of before are dropped', len(g.resolutions) == 0)
for nm, rs, md, dk in (('SRGrid_Root', None, 'depth', False), ('SRGrid_Root', None, 'density', False), ('SRGrid_Root', 1, None, False), ('SRGrid_Root', None, 'depth', True), ('SRGridZarr_Root', None, 'depth', False),
                       ('VRGridTile_Root', None, 'depth', False), ('VRGridTile_Root', None, 'density', True), ('VRGridTile_Root', 1, None, False), ('0.0_0.0', None, 'depth', False), ('0.0_0.0', None, 'density', False)):
    contract([B + 'grid', B + '_calculate_resolution_lookup'], 'grid: resolution passed on, %s %s %s%s' % (nm, 'given' if rs else 'automatic', md, ' dask' if dk else ''))(lambda nm=nm, rs=rs, md=md, dk=dk: choose(nm, rs, md, dk))
@contract(B + 'grid', 'grid: another algorithm without clearing is refused')
def other():
    bm = mod('bgrid'); g = new(bm.BathyGrid, grid_algorithm='mean', name='SRGrid_Root', resolutions=VList([1.0])); reachable(); v, e = raises(lambda: g.grid('shoalest', 1.0, clear_existing=False))
    ensure('refused', And(isinstance(e, ValueError), g.grid_algorithm == 'mean', g.resolutions == [1.0]))
import loopkit
@contract(B + 'resolution_by_density', 'grid: resolution by density is the coarsest of its tiles')
def bydensity():
    bm = mod('bgrid'); f = loopkit.fn('resolution_by_density', z3.IntSort(), z3.RealSort()); st = Real('starting') if C.decide(Bool('given').e) else None
    class Tile_(loopkit.GTile):
        def resolution_by_density(s, *a, **k):
            b = sig.bind(s, *a, **k); c = b.arguments.get('starting_resolution'); ensure('the starting resolution is passed on', c is None if st is None else c is not None and same(c, st)); return SNum(f(s.e))
    sig = inspect.signature(mod('tile').SRTile.resolution_by_density); ny, nx = size('ny', 1), size('nx', 1); arr, at = loopkit.tiles(Tile_, ny, nx); flat = arr.flat; n = flat.shape[0]; g = new(bm.BathyGrid, tiles=arr)
    e = lambda k: flat.get(lift(k)).e; M = loopkit.Max(n, lambda k: SBool(e(k.e) != 0), lambda k: SNum(f(e(k.e)))); row = []
    def inv(env, it):
        v = loopkit.pick1(env, lambda q: isinstance(q, Largest) or loopkit.empty(q))
        def upto(p): p = SNum(zi(p)); C.term(n, p); return Largest(M.some.at(p), M.at(p))
        def state(k): row[:] = [k]; return upto(k * nx)
        if isinstance(it, SymSeqBase) and C.valid(lift(it.n) == lift(n)): return loops.Inv(vars={v: upto})
        if isinstance(env[v], Largest) and row: r = row[0]; loopkit.over(it, nx); return loops.Inv(vars={v: lambda k: upto(r * nx + k)})
        loopkit.over(it, ny); return loops.Inv(vars={v: lambda k: state(k)})
    loops.INV['*'] = inv; reachable(); out = g.resolution_by_density(st)
    ensure('nothing without tiles', lambda: Implies(Not(M.some.all), out == 0)); ensure('the coarsest of the tiles', lambda: Implies(M.some.all, out == M.all))
    r, c = index('r', ny), index('c', nx); p = SNum(zi(r * nx + c)); C.term(n, p); ensure('not finer than any tile', lambda: Implies(at(r, c) != 0, out >= SNum(f(at(r, c).e))))
from loopkit import Largest
