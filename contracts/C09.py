from loopkit import *
CONTRACTS.clear()
B, G, T = 'bathygrid/bgrid.py:BathyGrid.', 'bathygrid/grids.py:', 'bathygrid/tile.py:'
INT = ('density', 'hypothesis_count')
def mosaic(layers, sub, nodata, given, text=False):
    """any number of tiles, any of them missing or without the layer; m cells per tile, every cell arbitrary"""
    bm = mod('bgrid'); ny, nx, m = size('ny', 1), size('nx', 1), size('cells_per_tile', 1); N = ny * nx; R = Real('R'); require(R > 0); ex = fn('is_there', I, z3.BoolSort()); pos_of = lambda r, c: zi(SNum(lift(r)) * nx + SNum(lift(c))); up = Bool('z_positive_up')
    lay = {l: fn('cell_' + l, I, I, I, I if l in INT else z3.RealSort()) for l in layers}; nanf = {l: fn('cell_nan_' + l, I, I, I, z3.BoolSort()) for l in layers}; has = {l: fn('has_' + l, I, z3.BoolSort()) for l in layers}; asked = []; empty_ = fn('never_gridded', I, z3.BoolSort())
    if sub == 'grid': C.forall([N], lambda p: C.assume(z3.Implies(empty_(p), z3.And(*[z3.Not(has[l](p)) for l in layers]))))
    val = lambda l, p, i, j: SNum(lay[l](p, zi(i), zi(j)), False if l in INT else nanf[l](p, zi(i), zi(j)))
    sig = inspect.signature((mod('tile').SRTile if sub == 'srtile' else bm.BathyGrid).get_layers_by_name)
    class GT(GTile):
        klass = ('SRTile', 'Tile') if sub == 'srtile' else ('BathyGrid', 'BaseGrid')
        @property
        def no_grid(s): return SBool(empty_(z3.simplify(s.e - 1)))
        def get_geotransform(s, resolution): return 'geo'
        def get_layers_by_name(s, *a, **k):
            b = sig.bind(s, *a, **k); b.apply_defaults(); b = b.arguments; asked.append(b); l = b['layer']; p = z3.simplify(s.e - 1)
            if sub == 'grid' and C.decide(empty_(p)): raise ValueError('BathyGrid: Grid is empty, gridding has not been run yet.')
            if l not in layers: raise Unsupported('another layer is asked')
            if not C.decide(has[l](p)): return None
            a = newarr(lambda i: val(l, p, i[0], i[1]), (m, m), 'int64' if l in INT else 'float32'); return a if sub == 'srtile' else VList([a])
    at = lambda p: z3.If(ex(p), p + 1, 0); arr = newarr(lambda i: GT(at(pos_of(*i))), (ny, nx), 'object')
    nd = Real('nodata') if nodata else float('nan'); ndv = {l: (toint(nd) if nodata else 0) if l in INT else nd for l in layers}
    class Grid_(bm.BathyGrid): no_grid = False
    g = new(Grid_, tiles=arr, sub_type=sub, name='n', tile_size=R * m, width=nx * m * R, height=ny * m * R, resolutions=VList([R]), vertical_reference=None, tile_x_origin=array('tx', (ny, nx)), tile_y_origin=array('ty', (ny, nx)), min_x=Real('x0'), max_y=Real('y0'))
    def owner(i, j):
        r, i = divpair(i, m); c, j = divpair(j, m); return pos_of(r, c), i, j, r, c
    def want(k, l, R_, C_):
        p, i, j, r, c = owner(R_, C_); return ite(z3.And(p < lift(k), ex(p), has[l](p)), val(l, p, i, j), SNum(lift(ndv[l])) if not isinstance(ndv[l], float) else ndv[l])
    some = Any(N, lambda p: SBool(z3.And(ex(p.e), z3.Or(*[has[l](p.e) for l in layers]))))
    def step(k, env):
        for b in asked: ensure('resolution, no data value and sign are passed on', And(b['resolution'] == R, same(b['nodatavalue'], nd), Iff(b['z_positive_up'], up)))
    boxes = []
    def inv(env, it):
        over(it, N); d = [v for v in env.values() if isinstance(v, VList) and len(v) == len(layers) and all(isinstance(q, SArr) for q in v)]
        if len(d) != 1: raise Unsupported('the layers being put together are not recognised')
        flag = pick1(env, lambda v: v is True or v is False, 'flag')
        neg = env[flag] is True
        return loops.Inv(vars={flag: (lambda k: Not(some.at(k))) if neg else (lambda k: some.at(k))}, boxes=[(a, (lambda k, i, l=l: want(k.e, l, i[0], i[1]))) for a, l in zip(d[0], layers)], step=step)
    loops.INV['*'] = inv; reachable(); ask = layers[0] if text else VList(layers)
    out = g.get_layers_by_name(ask, R if given else None, nd, up); reachable('after')
    if out is None: ensure('no answer only when no tile has one of the layers', Not(some.all)); return
    ensure('an answer when some tile has one of the layers', some.all); ensure('one array per layer', len(out) == len(layers))
    i, j = index('i', ny * m), index('j', nx * m)
    for l, a in zip(layers, out):
        ensure('one cell per resolution step over the extents', And(a.shape[0] == ny * m, a.shape[1] == nx * m))
        ensure('every cell is that of the tile that covers it, no data without one', lambda: same(a[i, j], want(lift(N), l, i.e, j.e)))
    for l, a in zip(layers, out):
        r, c, u, v = index('r', ny), index('c', nx), index('u', m), index('v', m); p = pos_of(r, c); C.term(ny * m, zi(r * m + u)); C.term(nx * m, zi(c * m + v))
        ensure('every cell of every tile is at its place', lambda: Implies(SBool(z3.And(ex(p), has[l](p))), same(a[SNum(zi(r * m + u)), SNum(zi(c * m + v))], val(l, p, u, v))))
for sub in ('srtile', 'grid'):
    for ls in (['depth'], ['density'], ['depth', 'density'], ['vertical_uncertainty', 'depth', 'intensity']):
        for nd in (False, True):
            if nd and len(ls) == 3: continue
            contract([B + 'get_layers_by_name', B + 'get_tile_data', B + '_build_layer_grid', B + '_tile_idx_to_row_col'], 'mosaic of %s, %s%s' % (', '.join(ls), 'variable resolution' if sub == 'grid' else 'single resolution', ', no data value given' if nd else ''))(lambda a=(ls, sub, nd, nd): mosaic(*a))
contract([B + 'get_layers_by_name'], 'mosaic of one layer asked by its name')(lambda: mosaic(['depth'], 'srtile', False, False, True))
@contract(B + 'get_layers_by_name', 'a grid that was never gridded is refused')
def never():
    class Grid_(mod('bgrid').BathyGrid): no_grid = True
    g = new(Grid_, resolutions=VList([])); reachable(); v, e = raises(lambda: g.get_layers_by_name('depth', 1.0)); ensure('refused', isinstance(e, ValueError))
@contract(B + 'get_layers_by_name', 'a grid of several resolutions is refused without a resolution')
def several():
    class Grid_(mod('bgrid').BathyGrid): no_grid = False
    g = new(Grid_, resolutions=VList([1.0, 2.0]), tiles=np.full((1, 1), None)); reachable(); v, e = raises(lambda: g.get_layers_by_name('depth')); ensure('refused', isinstance(e, ValueError))
def bytile(given, text):
    """any number of tiles, any of them missing; every tile that is there is yielded once, in its iteration"""
    bm = mod('bgrid'); ny, nx = size('ny', 1), size('nx', 1); N = ny * nx; R, nd, up = Real('R'), Real('nd'), Bool('up'); require(R > 0); ex = fn('is_there', I, z3.BoolSort()); state = {}
    class GT(GTile): klass = ('SRTile', 'Tile')
    arr = newarr(lambda i: GT(z3.If(ex(zi(SNum(lift(i[0])) * nx + SNum(lift(i[1])))), zi(SNum(lift(i[0])) * nx + SNum(lift(i[1]))) + 1, 0)), (ny, nx), 'object')
    f = {q: fn(q, I, I, I) for q in ('data_column', 'data_row', 'cells')}; asked = []; at = lambda q, a: SNum(f[q](zi(a['row_number']), zi(a['column_number'])))
    class Grid_(bm.BathyGrid):
        no_grid = False
        get_tile_data = spy(bm.BathyGrid.get_tile_data, asked, lambda a: ('tile', ('layers', a['row_number'], a['column_number']), ('geo', a['row_number'], a['column_number']), at('data_column', a), at('data_row', a), at('cells', a)))
    def step(k, env):
        y = env['yielded__']
        if not isinstance(y, loops.Trace): raise Unsupported('what is yielded is not recognised')
        there = SBool(ex(zi(k)))
        if not y.new: ensure('no tile is left out', Not(there)); return
        ensure('only tiles that are there', there); ensure('every tile once', len(y.new) == 1 and len(asked) == 1)
        (how, o), a = y.new[0], asked[0]; r, c = SNum(lift(a['row_number'])), SNum(lift(a['column_number']))
        if how != 'append' or len(o) != 5: raise Unsupported('what is yielded is not recognised')
        ensure('the tile is asked by its row and column', And(r * nx + c == SNum(zi(k)), r >= 0, c >= 0, c < nx)); geo, dc, dr, n, data = o
        ensure('its geotransform, its first column and row, its cells per side and its layers', And(geo[0] == 'geo', geo[1] == r, geo[2] == c, dc == at('data_column', a), dr == at('data_row', a), n == at('cells', a), data[0] == 'layers', data[1] == r, data[2] == c))
        ensure('resolution, layers, no data value and sign are passed on', And(a['resolution'] == R, list(a['layer']) == (['depth'] if text else ['depth', 'density']), same(a['nodatavalue'], nd), Iff(a['z_positive_up'], up)))
    def inv(env, it):
        over(it, N); state['n'] = state.get('n', 0) + 1; return loops.Inv(vars={'yielded__': lambda k: loops.Trace(k)}, step=step)
    loops.INV['*'] = inv; g = new(Grid_, tiles=arr, resolutions=VList([R]), tile_x_origin=array('tx', (ny, nx))); reachable(); out = g.get_tiles_by_resolution(R if given else None, 'depth' if text else VList(['depth', 'density']), nd, up); reachable('after')
    ensure('the tiles are those yielded', And(isinstance(out, loops.Trace) and not out.new, SBool(out.k == lift(N)), state.get('n') == 1))
for given in (True, False):
    for text in (True, False): contract([B + 'get_tiles_by_resolution', B + '_tile_idx_to_row_col'], 'tile by tile: the place and the layers of every tile%s%s' % ('' if given else ', resolution left out', '' if text else ', two layers'))(lambda a=(given, text): bytile(*a))
