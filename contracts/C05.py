from loopkit import *
import specs
CONTRACTS.clear()
G, B, K = 'bathygrid/grids.py:', 'bathygrid/bgrid.py:BathyGrid.', 'bathygrid/backends.py:'
FIELDS = ('x', 'y', 'z', 'tvu', 'thu')
BUILT = z3.Function('built', z3.RealSort(), z3.RealSort(), I)
def ghost(owner, times, keep, named):
    class PTile(GTile):
        """a tile: points handed to it are noted by their number"""
        def add_points(s, data, container, progress_bar=True):
            ids = data['id']; n = ids.shape[0]; s._need(); i = index('handed', n) if C.decide(zb(SNum(lift(n)) > 0)) else None
            keep.append((s.e, data, container, i)); owner[ids] = SNum(s.e); times[ids] = times[ids] + 1
        def _need(s):
            if C.decide(s.e == 0): raise AttributeError('add_points of None')
        def set_name(s, v): named.append((s.e, v))
        @property
        def is_empty(s):
            """contract of the tile: it holds the points handed to it (C06)"""
            for e, d, c, i in reversed(keep):
                if C.valid(e == s.e): return const(d['id'].shape[0]) == 0 if const(d['id'].shape[0]) is not None else SBool(lift(d['id'].shape[0]) == 0)
            raise Unsupported('is_empty of a tile that got no points')
    return PTile
def adding(sub):
    bm = mod('bgrid'); n, nx, ny = size('n', 1), size('nx', 1), size('ny', 1); ts, X, Y = Real('ts'), Real('X'), Real('Y'); require(ts > 0)
    d = points('p', n, FIELDS); d.fields['id'] = newarr(lambda i: SNum(lift(i[0])), (n,), 'int64')
    bins = array('bin', n, 'int64'); everywhere(n, lambda p: And(bins[p] >= 0, bins[p] < ny * nx)); calls = []
    bm.bin2d_with_indices = spy(mod('utilities').bin2d_with_indices, calls, lambda a: bins)       # contract: C01
    tx, ty = newarr(lambda i: X + SNum(lift(i[1])) * ts, (ny, nx), 'float64'), newarr(lambda i: Y + SNum(lift(i[0])) * ts, (ny, nx), 'float64')
    owner, times, keep, named = newarr(lambda i: SNum(z3.IntVal(0)), (n,), 'int64'), newarr(lambda i: SNum(z3.IntVal(0)), (n,), 'int64'), [], []
    T_ = ghost(owner, times, keep, named); f = z3.Function('tile_at', I, I, I); everywhere([ny, nx], lambda r, c: And(SNum(f(zi(r), zi(c))) >= 0))
    arr = newarr(lambda i: T_(f(zi(i[0]), zi(i[1]))), (ny, nx), 'object'); saved = []
    class Grid_(bm.BathyGrid):
        def _build_tile(s, x, y):
            e = BUILT(toreal(lift(x)), toreal(lift(y))); C.assume(e > 0); return T_(e)
        def _save_tile(s, tile, flat_index, only_points=False, only_grid=False): saved.append((tile, flat_index, only_points, only_grid, len(keep)))
    g = new(Grid_, data=d, tiles=arr, tile_edges_x=newarr(lambda i: X + SNum(lift(i[0])) * ts, (nx + 1,), 'float64'), tile_edges_y=newarr(lambda i: Y + SNum(lift(i[0])) * ts, (ny + 1,), 'float64'), tile_x_origin=tx, tile_y_origin=ty, sub_type=sub, number_of_tiles=Int('old_number'))
    U = np_unique(bins); u = U.box.uniq[1]; m = U.shape[0]; W = Witness(m, lambda j, pos: u.u(j) == pos[0], 1)
    def touched(k, pos): return z3.And(W.hit((pos,)), W.at((pos,)) < lift(k))
    place = lambda pos: [zi(q) for q in divpair(pos, nx)]
    def before(pos): return f(*place(pos))
    def fresh(pos): q = place(pos); e = BUILT(toreal(lift(tx.get(*q))), toreal(lift(ty.get(*q)))); C.assume(e > 0); return e
    def after(pos): return z3.If(before(pos) == 0, fresh(pos), before(pos))
    def tile_k(k, idx): pos = zi(SNum(lift(idx[0])) * nx + SNum(lift(idx[1]))); return T_(z3.If(touched(k, pos), after(pos), before(pos)))
    def owner_k(k, idx): q = zi(bins.get(idx[0])); return SNum(z3.If(touched(k, q), after(q), 0))
    def times_k(k, idx): return SNum(z3.If(touched(k, zi(bins.get(idx[0]))), z3.IntVal(1), z3.IntVal(0)))
    def named_as(k):
        """a sub grid is kept in the folder of its name: that of its place (C13)"""
        pl = place(u.u(k.e)); x, y = tx.get(*pl), ty.get(*pl)
        if not named: return Not(SBool(before(u.u(k.e)) == 0))
        e, v = named[-1]; lit, num = parse(v); return And(SBool(e == BUILT(toreal(lift(x)), toreal(lift(y)))), lit == '#_#', len(num) == 2, *[p == q for p, q in zip(num, (x, y))])
    def step(k, env):
        if sub == 'grid': ensure('a new sub grid has the name of its place', lambda: named_as(k))
        for e, data, cont, i in keep[-1:]:
            ensure('the name of the source is passed on', cont == 'line')
            if i is not None: ensure('points are passed on with all their values', lambda: And(set(data.fields) == set(d.fields), *[data[q][i] == d[q][data['id'][i]] for q in FIELDS]))
        if sub != 'grid':
            l = [s for s in saved];
            ensure('a changed tile is saved at its place after it got its points', len(l) == 1 and l[0][4] == len(keep) and bool(l[0][3] is False) and And(SNum(lift(l[0][1])) == SNum(u.u(k.e)), isinstance(l[0][0], T_) and SBool(l[0][0].e == keep[-1][0])))
    loops.INV['_add_points_to_tiles'] = lambda env, it: over(it, m) and loops.Inv(boxes=[(arr, tile_k), (owner, owner_k), (times, times_k)], step=step)
    reachable(); g._add_points_to_tiles('line', False); reachable('after')
    a = once(calls, 'bin2d_with_indices'); p, r, c = index('p', n), index('r', ny), index('c', nx); now = lambda a, b: g.tiles.box.fn((zi(a), zi(b))); num = lambda t: z3.IntVal(0) if t is None else t.e
    q = index('q', n); j = index('edge_x', nx + 1); i = index('edge_y', ny + 1)
    ensure('the tile of a point is looked up with its x and y and the tile edges', lambda: And(a['x'][q] == d['x'][q], a['y'][q] == d['y'][q], a['x_edges'].get(j.e) == g.tile_edges_x.get(j.e), a['y_edges'].get(i.e) == g.tile_edges_y.get(i.e)))
    pl = place(bins[p].e); C.term(ny, pl[0]); C.term(nx, pl[1]); pos = r * nx + c
    ensure('every point is given to exactly one tile, once', lambda: times[p] == 1)
    ensure('every point is given to the tile at the place that contains it', lambda: SBool(owner[p].e == num(now(*pl))))
    ensure('a tile without new points stays the same', lambda: Implies(Not(Exists_in(n, lambda q: bins[q] == pos)), SBool(num(now(r, c)) == f(r.e, c.e))))
    ensure('an existing tile stays at its place', lambda: Implies(SBool(f(r.e, c.e) != 0), SBool(num(now(r, c)) == f(r.e, c.e))))
    ensure('a new tile has the origin of its place', lambda: Or(SBool(num(now(r, c)) == f(r.e, c.e)), SBool(num(now(r, c)) == BUILT(toreal(lift(tx[r, c])), toreal(lift(ty[r, c]))))))
    ensure('the number of tiles is counted', lambda: g.number_of_tiles == count(ny * nx, lambda k: SBool(z3.Not(zb(g.tiles.flat.get(k.e).isnone())))))
def Exists_in(n, fn):
    """hypothesis position: true if and only if some index below n satisfies fn"""
    return quant(newarr(lambda i: free(fn)(SNum(lift(i[0]))), (n,), 'bool'), True)
for s in ('srtile', 'grid'): contract([B + '_add_points_to_tiles'], 'adding: every point goes to the tile that contains it, once' + (', variable resolution' if s == 'grid' else ''))(lambda s=s: adding(s))
def removing(sub, mask):
    """one source of any number leaves a grid of any number of tiles"""
    bm = mod('bgrid'); ny, nx = size('ny', 1), size('nx', 1); N = ny * nx; ex = z3.Function('is_there', I, z3.BoolSort()); gone = z3.Function('emptied', I, z3.BoolSort()); hasrez = z3.Function('has_resolution', I, z3.RealSort(), z3.BoolSort())
    pos_of = lambda r, c: zi(SNum(lift(r)) * nx + SNum(lift(c))); there = lambda p: z3.If(ex(p), p + 1, 0); told = newarr(lambda i: SNum(z3.IntVal(0)), (N,), 'int64'); names, saved = [], []
    class RTile(GTile):
        def remove_points(s, container_name=None, progress_bar=True): names.append(container_name); p = SNum(z3.simplify(s.e - 1)); told[p] = told[p] + 1
        @property
        def is_empty(s): p = SNum(z3.simplify(s.e - 1)); return SBool(z3.And(zb(told[p] > 0), gone(p.e)))       # contract of the tile: C06
        @property
        def resolutions(s): return Rez(s)
    class Rez:
        def __init__(s, t): s.t = t
        def vcontains(s, v): return SBool(hasrez(s.t.e, toreal(lift(v))))
    arr = newarr(lambda i: RTile(there(pos_of(*i))), (ny, nx), 'object'); require(arr.any())
    class Grid_(bm.BathyGrid):
        _update_mean_depth = lambda s: saved.append('mean')
        _save_grid = lambda s: saved.append('grid')
        def _save_tile(s, tile, flat_index, only_points=False, only_grid=False): saved.append((tile, flat_index))
    n0 = Int('old_number'); R = [Real('R1'), Real('R2')]; require(R[0] != R[1]); mk = array('mask', (ny, nx), 'bool') if mask else None; m0 = mk.snap() if mask else None
    g = new(Grid_, tiles=arr, existing_tile_mask=mk, number_of_tiles=n0, sub_type=sub, container=loops.VDict({'a': VList(['f']), 'b': VList(['f2'])}), container_timestamp=loops.VDict({'a': 't', 'b': 't2'}), resolutions=VList(R), mean_depth=Real('mean'))
    dead = lambda p: z3.And(ex(p), gone(p)); S = Sum(N, lambda k: SBool(dead(k.e)), lambda k: SNum(z3.IntVal(1)), I)
    tile_k = lambda k, i: RTile(z3.If(z3.And(dead(pos_of(*i)), pos_of(*i) < lift(k)), 0, there(pos_of(*i)))); told_k = lambda k, i: SNum(z3.If(z3.And(ex(zi(i[0])), zi(i[0]) < lift(k)), z3.IntVal(1), z3.IntVal(0)))
    boxes = [(arr, tile_k), (told, told_k)] + ([(mk, lambda k, i: SBool(z3.And(zb(m0(i)), z3.Not(z3.And(dead(pos_of(*i)), pos_of(*i) < lift(k))))))] if mask else [])
    def step(k, env):
        ensure('the tile is told the name of the source', names[-1:] in ([], ['a']))
        if sub != 'grid': ensure('the tile is saved at its place after its points were removed', len(saved) == 1 and And(SNum(lift(saved[0][1])) == k, SBool((saved[0][0].e if saved[0][0] is not None else z3.IntVal(0)) == z3.If(dead(k.e), 0, there(k.e)))))
    loops.INV['remove_points'] = lambda env, it: over(it, N) and loops.Inv(boxes=boxes, attrs=[(g, 'number_of_tiles', lambda k: n0 - S.at(k))], step=step)
    reachable(); g.remove_points('a', False); reachable('after')
    r, c = index('r', ny), index('c', nx); p = pos_of(r, c); C.term(N, p)
    ensure('every tile is told once', lambda: told.get(p) == SNum(z3.If(ex(p), z3.IntVal(1), z3.IntVal(0))))
    ensure('only this source is gone', lambda: list(dict.keys(g.container)) == ['b'] and list(dict.keys(g.container_timestamp)) == ['b'])
    ensure('the number of tiles is that before less the tiles that became empty', lambda: g.number_of_tiles == n0 - S.all)
    left = lambda: quant(newarr(lambda i: SBool(z3.And(ex(pos_of(*i)), z3.Not(gone(pos_of(*i))))), (ny, nx), 'bool'), True)
    if g.tiles is None: ensure('no tiles, no resolutions only if every tile became empty', lambda: And(Not(SBool(z3.And(ex(p), z3.Not(gone(p))))), len(g.resolutions) == 0))
    else:
        ensure('exactly the tiles that became empty are gone, the others stay at their place', lambda: SBool((lambda t: z3.IntVal(0) if t is None else t.e)(g.tiles.box.fn((r.e, c.e))) == z3.If(dead(p), 0, there(p))))
        ensure('some tile is left', left)
        alive = lambda q: z3.And(ex(q), z3.Not(gone(q))); has = lambda q, Rz: hasrez(q + 1, Rz.e)
        for Rz in R:
            if any(v is Rz for v in g.resolutions): ensure('a resolution that stays is in some tile', lambda: quant(newarr(lambda i: SBool(z3.And(alive(zi(i[0])), has(zi(i[0]), Rz))), (N,), 'bool'), True))
            else: ensure('a resolution that is dropped is in no tile', Not(SBool(z3.And(alive(p), has(p, Rz)))))
        if mask: ensure('the places of tiles that are gone are not marked', lambda: Iff(g.existing_tile_mask[r, c], And(SBool(zb(m0((r.e, c.e)))), SBool(z3.Not(dead(p))))))
    ensure('the mean depth is brought up to date, then the grid is saved', [q for q in saved if isinstance(q, str)] == ['mean', 'grid'])
for s, mk in (('srtile', False), ('srtile', True), ('grid', True)): contract([B + 'remove_points', B + '_remove_tile', G + 'BaseGrid.is_empty'], 'removing: every tile is told once, empty tiles vanish' + (', variable resolution' if s == 'grid' else '') + (', after growth' if mk else ''))(lambda s=s, mk=mk: removing(s, mk))
@contract([B + 'remove_points'], 'removing a source that is not in the grid')
def nosource():
    g = new(mod('bgrid').BathyGrid, tiles='tiles', container=loops.VDict({'b': VList(['f2'])}), container_timestamp=loops.VDict({'b': 't2'}), resolutions=VList([Real('R')]), number_of_tiles=Int('n')); before = {k: v for k, v in g.__dict__.items()}; reachable(); g.remove_points('a', False)
    ensure('nothing changes', all(g.__dict__[k] is v for k, v in before.items()) and list(dict.keys(g.container)) == ['b'])
