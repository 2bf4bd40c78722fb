from contract import *
CONTRACTS.clear()
G, B = 'bathygrid/grids.py:BaseGrid.', 'bathygrid/bgrid.py:BathyGrid.'
def extents():
    """any extents: a whole number of tiles from the origin and a rest below one tile"""
    e = {}; ts = Real('ts'); require(ts > 0); k = {}
    for q in 'xy':
        o = e['origin_' + q] = Real('origin_' + q)
        for w in ('min_', 'max_'):
            k[w + q] = Int('tiles_' + w + q); u = Real('rest_' + w + q); require(And(u >= 0, u < ts)); k['rest_' + w + q] = u; e[w + q] = o + k[w + q] * ts + u
        require(Or(k['min_' + q] < k['max_' + q], And(k['min_' + q] == k['max_' + q], k['rest_min_' + q] <= k['rest_max_' + q])))
    return e, ts, k
@contract(G + '_adjust_extents', 'extents become whole tiles from the origin and contain the old ones strictly below the upper edge')
def adjust():
    e, ts, k = extents(); g = new(mod('grids').BaseGrid, tile_size=ts, can_grow=True, **e); reachable(); g._adjust_extents()
    for q in 'xy':
        lo, hi, o = getattr(g, 'min_' + q), getattr(g, 'max_' + q), e['origin_' + q]
        ensure('the lower edge is the tile edge at or below the old one, whole tiles from the origin', lambda: lo == o + k['min_' + q] * ts)
        ensure('the upper edge is the tile edge strictly above the old one, whole tiles from the origin', lambda: hi == o + (k['max_' + q] + 1) * ts)
        ensure('the upper edge is above the lower edge', lambda: k['min_' + q] < k['max_' + q] + 1)
@contract(G + '_adjust_extents', 'extents of a grid that may not grow stay')
def fixed():
    e, ts, k = extents(); g = new(mod('grids').BaseGrid, tile_size=ts, can_grow=False, **e); reachable(); g._adjust_extents()
    ensure('nothing changes', And(*[getattr(g, q) == e[q] for q in e]))
def lattice_grid(grow=True, old=False):
    """a grid whose extents are whole tiles from its origin: nx columns and ny rows; with old: tiles that are there, at rows dy.. and columns dx.. of the new extents"""
    k = {}; ts = Real('ts'); require(ts > 0); nx, ny = size('nx', 1), size('ny', 1); a, b = Int('a'), Int('b'); ox, oy = Real('origin_x'), Real('origin_y')
    lo_x, lo_y = ox + a * ts, oy + b * ts; hi_x, hi_y = lo_x + nx * ts, lo_y + ny * ts
    gm = mod('grids')
    class Grid_(gm.BaseGrid):
        is_empty = not old
        def _adjust_extents(s): pass        # contract: verified above; the extents given here are what it leaves
    at = {}
    g = new(Grid_, tile_size=ts, can_grow=grow, origin_x=ox, origin_y=oy, min_x=lo_x, max_x=hi_x, min_y=lo_y, max_y=hi_y, existing_tile_mask=None, tile_x_origin=None, tile_y_origin=None)
    if old:
        dx, dy = size('dx'), size('dy'); mx, my = size('mx', 1), size('my', 1); require(And(dx + mx <= nx, dy + my <= ny)); at = dict(dx=dx, dy=dy, mx=mx, my=my)
        g.__dict__['tile_x_origin'] = newarr(lambda i: lo_x + (dx + SNum(lift(i[1]))) * ts, (my, mx), 'float64'); g.__dict__['tile_y_origin'] = newarr(lambda i: lo_y + (dy + SNum(lift(i[0]))) * ts, (my, mx), 'float64')
        C.term(nx, dx); C.term(ny, dy)
    return g, ts, nx, ny, at
def is_lattice(g, ts, nx, ny, lo_x, lo_y):
    r, c = index('r', ny), index('c', nx); j, i = index('j', nx + 1), index('i', ny + 1)
    ensure('one origin per tile', And(g.tile_x_origin.shape[0] == ny, g.tile_x_origin.shape[1] == nx, g.tile_y_origin.shape[0] == ny, g.tile_y_origin.shape[1] == nx))
    ensure('tile origins are the regular lattice of the extents', lambda: And(g.tile_x_origin.get(r.e, c.e) == lo_x + c * ts, g.tile_y_origin.get(r.e, c.e) == lo_y + r * ts))
    ensure('one more edge than tiles', And(g.tile_edges_x.shape[0] == nx + 1, g.tile_edges_y.shape[0] == ny + 1))
    ensure('tile edges are the regular lattice of the extents', lambda: And(g.tile_edges_x.get(j.e) == lo_x + j * ts, g.tile_edges_y.get(i.e) == lo_y + i * ts))
    ensure('width, height and number of tiles follow', And(g.width == nx * ts, g.height == ny * ts, g.maximum_tiles == ny * nx))
    return r, c
@contract(G + '_build_grid', 'tile edges and origins are the lattice of the extents')
def build():
    g, ts, nx, ny, _ = lattice_grid(); lo = g.min_x, g.min_y; reachable(); g._build_grid(); is_lattice(g, ts, nx, ny, *lo); ensure('no old tiles', g.existing_tile_mask is None)
@contract(G + '_build_grid', 'growth: the mask marks the places of the old tiles')
def grow():
    g, ts, nx, ny, at = lattice_grid(old=True); lo = g.min_x, g.min_y; reachable(); g._build_grid(); r, c = is_lattice(g, ts, nx, ny, *lo); m = g.existing_tile_mask
    ensure('one flag per tile', And(m.shape[0] == ny, m.shape[1] == nx))
    ensure('exactly the tiles of the old extents are marked', lambda: Iff(m[r, c], And(at['dy'] <= r, r < at['dy'] + at['my'], at['dx'] <= c, c < at['dx'] + at['mx'])))
class GTile(loops.Obj):
    """a tile; only its identity matters here"""
@contract([B + '_update_tiles'], 'growth keeps every tile at its place')
def keep():
    bm = mod('bgrid'); nx, ny, mx, my, dx, dy = size('nx', 1), size('ny', 1), size('mx', 1), size('my', 1), size('dx'), size('dy'); require(And(dx + mx <= nx, dy + my <= ny))
    f = z3.Function('old_tile', z3.IntSort(), z3.IntSort(), z3.IntSort()); calls = []
    mask = np.full((ny, nx), False); mask[dy:dy + my, dx:dx + mx] = True
    old = newarr(lambda i: GTile(f(*[zi(q) for q in i])), (my, mx), 'object')
    class Grid_(bm.BathyGrid):
        is_empty = False
        _add_points_to_tiles = spy(bm.BathyGrid._add_points_to_tiles, calls)
    g = new(Grid_, data=points('p', size('n', 1)), can_grow=True, tiles=old, existing_tile_mask=mask, tile_x_origin=array('tx', (ny, nx))); reachable(); g._update_tiles('a', False)
    r, c = index('r', ny), index('c', nx); i, j = index('i', my), index('j', mx); C.term(ny, lift(dy + i)); C.term(nx, lift(dx + j))
    ensure('the tile array has one entry per tile of the new extents', And(g.tiles.shape[0] == ny, g.tiles.shape[1] == nx))
    at = lambda a, b: g.tiles.box.fn((zi(a), zi(b)))
    ident = lambda t: z3.IntVal(0) if t is None else t.e
    ensure('every old tile is at its place in the new extents', lambda: SBool(ident(at(dy + i, dx + j)) == f(i.e, j.e)))
    ensure('the other places are empty', lambda: Implies(Not(And(dy <= r, r < dy + my, dx <= c, c < dx + mx)), SBool(ident(at(r, c)) == 0)))
    once(calls, '_add_points_to_tiles')
@contract([B + '_update_tiles'], 'first points: no tile yet')
def first():
    bm = mod('bgrid'); nx, ny = size('nx', 1), size('ny', 1); calls = []
    class Grid_(bm.BathyGrid):
        is_empty = True
        _add_points_to_tiles = spy(bm.BathyGrid._add_points_to_tiles, calls)
    g = new(Grid_, data=points('p', size('n', 1)), can_grow=Bool('grow'), tiles=None, existing_tile_mask=None, tile_x_origin=array('tx', (ny, nx))); reachable(); g._update_tiles('a', False)
    r, c = index('r', ny), index('c', nx); v = g.tiles.box.fn((r.e, c.e)); ensure('every place is empty', And(v is None, g.tiles.shape[0] == ny, g.tiles.shape[1] == nx)); once(calls, '_add_points_to_tiles')

def cover(state):
    bm = mod('bgrid'); n = size('n', 1); d = points('p', n, ('x', 'y', 'z')); e = {q: Real(q) for q in ('min_x', 'min_y', 'max_x', 'max_y')}; built = []
    class Grid_(bm.BathyGrid):
        is_empty = state != 'growing'
        def _build_grid(s):       # contract of _build_grid and _adjust_extents, verified above
            built.append(1)
            if not s.can_grow: return
            for q in 'xy':
                lo, hi = Real('new_min_' + q), Real('new_max_' + q); require(And(lo <= getattr(s, 'min_' + q), hi > getattr(s, 'max_' + q))); setattr(s, 'min_' + q, lo); setattr(s, 'max_' + q, hi)
    g = new(Grid_, data=d, can_grow=state != 'fixed', **e); p = index('p', n)
    if state == 'fixed': everywhere(n, lambda p: And(e['min_x'] <= d['x'][p], d['x'][p] < e['max_x'], e['min_y'] <= d['y'][p], d['y'][p] < e['max_y']))
    reachable(); g._update_base_grid()
    if len(built) != 1: raise Unsupported('_build_grid is not called exactly once')
    ensure('every point is inside the extents, strictly below the upper edge', lambda: And(*[And(getattr(g, 'min_' + q) <= d[q][p], d[q][p] < getattr(g, 'max_' + q)) for q in 'xy']))
    if state == 'growing': ensure('the old extents stay inside', And(*[And(getattr(g, 'min_' + q) <= e['min_' + q], e['max_' + q] <= getattr(g, 'max_' + q)) for q in 'xy']))
for st in ('first', 'growing', 'fixed'): contract([B + '_update_base_grid', G + '_init_from_extents', G + '_update_extents'], 'extents contain every point, ' + {'first': 'first points', 'growing': 'later points', 'fixed': 'tile of a variable resolution grid'}[st])(lambda st=st: cover(st))
@contract(G + '_tile_idx_to_row_col', 'row and column of a flat tile index')
def rowcol():
    ny, nx = size('ny', 1), size('nx', 1); r, c = index('r', ny), index('c', nx); g = new(mod('grids').BaseGrid, tile_x_origin=array('tx', (ny, nx))); reachable(); a, b = g._tile_idx_to_row_col(r * nx + c)
    ensure('row-major', And(a == r, b == c))
@contract(G + '_tile_idx_to_origin_point', 'origin of a flat tile index')
def origin():
    ny, nx = size('ny', 1), size('nx', 1); r, c = index('r', ny), index('c', nx); tx, ty = array('tx', (ny, nx)), array('ty', (ny, nx)); g = new(mod('grids').BaseGrid, tile_x_origin=tx, tile_y_origin=ty); reachable()
    a, b = g._tile_idx_to_origin_point(r * nx + c); ensure('the origin of that tile', And(a == tx[r, c], b == ty[r, c]))
@contract('bathygrid/grids.py:TileGrid._init_from_size', 'extents of a tile are its origin and size')
def tsize():
    gm = mod('grids'); x, y, w = Real('x'), Real('y'), Real('w'); g = new(gm.TileGrid); reachable(); g._init_from_size(x, y, w)
    ensure('extents', And(g.min_x == x, g.min_y == y, g.max_x == x + w, g.max_y == y + w, g.width == w, g.height == w))
def subgrid(cls):
    mm = mod('maingrid'); calls = []; x, y, ts, sub = Real('x'), Real('y'), Real('ts'), Real('sub'); bs = Bool('backscatter'); real = mod('backends').NumpyGrid if cls == 'VRGridTile' else mod('backends').ZarrGrid
    g = new(getattr(mm, cls), storage_class=spy(lambda min_x=0, min_y=0, max_x=0, max_y=0, tile_size=1024.0, set_extents_manually=False, output_folder='', is_backscatter=False: None, calls, 'grid'), tile_size=ts, subtile_size=sub, output_folder='', name='root', is_backscatter=bs); reachable(); out = g._build_tile(x, y); a = once(calls, 'storage class')
    ensure('the extents of the sub grid are those of its tile', And(a['min_x'] == x, a['min_y'] == y, a['max_x'] == x + ts, a['max_y'] == y + ts, a['set_extents_manually'] is True)); ensure('its tiles have the subtile size', a['tile_size'] == sub)
    ensure('the kind of data is handed down', Iff(a['is_backscatter'], bs)); ensure('the sub grid is returned', out == 'grid')
for cls in ('VRGridTile', 'VRGridTileZarr'): contract('bathygrid/maingrid.py:%s._build_tile' % cls, 'tile of %s' % cls)(lambda cls=cls: subgrid(cls))
