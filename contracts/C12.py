from loopkit import *
CONTRACTS.clear()
B = 'bathygrid/bgrid.py:BathyGrid.'
INT = ('density', 'hypothesis_count')
class Data(GTile):
    """layers of one tile; empty when it has none of them"""
    klass = ('dict', 'VDict')
def finalize(layers, nodata, gdal):
    """any number of tiles that do not overlap, m cells per tile, every tile with or without the layer"""
    bm = mod('bgrid'); n, m = size('number_of_tiles', 1), size('cells_per_tile', 1); r, c, T_ = fn('tile_row', I, I), fn('tile_column', I, I), fn('tile_at', I, I, I); M = lift(m)       # first cell of the tile
    lay = {l: fn('cell_' + l, I, I, I, I if l in INT else z3.RealSort()) for l in layers}; nanf = {l: fn('cell_nan_' + l, I, I, I, z3.BoolSort()) for l in layers}; has = {l: fn('has_' + l, I, z3.BoolSort()) for l in layers}
    val = lambda l, t, i, j: SNum(lay[l](t, zi(i), zi(j)), False if l in INT else nanf[l](t, zi(i), zi(j)))
    lr, hr, lc, hc = [index(q, n).e for q in ('first_row', 'last_row', 'first_column', 'last_column')]      # tiles with the smallest and largest row and column
    C.forall([n], lambda t: C.assume(z3.Implies(z3.And(t >= 0, t < lift(n)), z3.And(r(lr) <= r(t), r(t) <= r(hr), c(lc) <= c(t), c(t) <= c(hc), r(t) >= 0, c(t) >= 0))))
    class D(Data):
        def vcontains(s, l):
            if l not in layers: raise Unsupported('another layer is looked up')
            return SBool(has[l](z3.simplify(s.e - 1)))
        def __getitem__(s, l):
            if not C.decide(zb(s.vcontains(l))): raise KeyError(l)
            return newarr(lambda i: val(l, z3.simplify(s.e - 1), i[0], i[1]), (m, m), 'int64' if l in INT else 'float32')
        def get(s, l, d=None): return s[l] if C.decide(zb(s.vcontains(l))) else d
    seq = lambda f: SymSeq(n, lambda k: SNum(f(zi(k)))); nd = ND = float('nan')
    if nodata: nd = Real('nodata') if not any(l in INT for l in layers) else Int('nodata'); ND = nd.e
    ndv = {l: (SNum(ND) if nodata else 0) if l in INT else nd for l in layers}
    H, W = r(hr) - r(lr) + M, c(hc) - c(lc) + M
    def place(a, b):
        """the only tile that covers the cell (tiles do not overlap), if any"""
        a, b = zi(a), zi(b); t = T_(a, b); C.term(n, t); cover = lambda k: z3.And(k >= 0, k < lift(n), r(k) - r(lr) <= a, a < r(k) - r(lr) + M, c(k) - c(lc) <= b, b < c(k) - c(lc) + M)
        C.forall([n], lambda k: C.assume(z3.Implies(cover(k), t == k))); return t, z3.simplify(a - r(t) + r(lr)), z3.simplify(b - c(t) + c(lc)), cover(t)
    def want(k, l, a, b):
        t, i, j, ok = place(a, b); return ite(z3.And(ok, t < lift(k), has[l](t)), val(l, t, i, j), SNum(lift(ndv[l])) if not isinstance(ndv[l], float) else ndv[l])
    def inv(env, it):
        over(it, n); f = [v for v in env.values() if isinstance(v, loops.VDict)]; l = [v for k, v in env.items() if isinstance(v, str) and v in layers]
        if len(f) != 1 or len(set(l)) != 1 or l[0] not in f[0]: raise Unsupported('the array being put together is not recognised')
        return loops.Inv(boxes=[(f[0][l[0]], lambda k, i: want(k.e, l[0], i[0], i[1]))])
    loops.INV['*'] = inv; g = new(bm.BathyGrid); reachable(); out = g._finalize_chunk(seq(r), seq(c), m, VList(layers), SymSeq(n, lambda k: D(zi(k) + 1)), nd, gdal); reachable('after')
    ensure('the layers asked for, in order', list(dict.keys(out)) == list(layers)); t, i, j = index('tile', n).e, index('i', m), index('j', m); a, b = index('a', SNum(H)), index('b', SNum(W))
    for l in layers:
        o = out[l]; at = (lambda y, x: o[SNum(zi(x)), SNum(z3.simplify(H - 1 - zi(y)))]) if gdal else (lambda y, x: o[SNum(zi(y)), SNum(zi(x))]); sh = (W, H) if gdal else (H, W)
        ensure('the chunk reaches from the first to the last tile', And(SBool(lift(o.shape[0]) == sh[0]), SBool(lift(o.shape[1]) == sh[1])))
        ensure('every cell is that of the tile that covers it, no data without one', lambda: same(at(a, b), want(lift(n), l, a.e, b.e)))
        y, x = z3.simplify(r(t) - r(lr) + i.e), z3.simplify(c(t) - c(lc) + j.e)
        ensure('every cell of every tile is at its place', lambda: Implies(SBool(has[l](t)), same(at(y, x), val(l, t, i, j))))
        ensure('the type of the layer', (o.dtype.kind in ('int64', 'int32')) == (l in INT))
for layers in (['depth'], ['density'], ['depth', 'density'], ['vertical_uncertainty', 'hypothesis_count', 'intensity']):
    for nodata in (False, True):
        for gdal in (True, False):
            if len(layers) == 3 and (nodata or not gdal): continue
            contract(B + '_finalize_chunk', 'chunk array of %s%s%s' % (', '.join(layers), ', no data value given' if nodata else '', '' if gdal else ', not for gdal'))(lambda a=(layers, nodata, gdal): finalize(*a))
class Geo(GTile):
    """geotransform, or None"""
    klass = ('list', 'VList')
    OWNX = ()
    def __init__(s, some, v): GTile.__init__(s, z3.If(zb(some), z3.IntVal(1), z3.IntVal(0))); object.__setattr__(s, 'v', v)
    def __getitem__(s, i):
        if C.decide(s.e == 0): raise TypeError("'NoneType' object is not subscriptable")
        return object.__getattribute__(s, 'v')[i]
    def sameas(s, o):
        if o is None: return SBool(s.e == 0)
        v = object.__getattribute__(s, 'v')
        if isinstance(o, Geo): w = object.__getattribute__(o, 'v'); return SBool(z3.And(s.e == o.e, z3.Implies(s.e != 0, z3.And(*[same_num(a, b) for a, b in zip(v, w)]))))
        if isinstance(o, (list, tuple)) and len(o) == 6: return SBool(z3.And(s.e != 0, *[same_num(a, b) for a, b in zip(v, o)]))
        return False
    same = sameas
class Layers(GTile):
    klass = ('dict', 'VDict')
    none = None
    def sameas(s, o):
        if isinstance(o, Layers): return SBool(s.e == o.e)
        return SBool(type(s).none(s.e)) if isinstance(o, (dict, loops.VDict)) and not len(o) else False
    same = sameas
    def truth(s): return SBool(z3.Not(type(s).none(s.e)))
    def __bool__(s): return C.decide(z3.Not(type(s).none(s.e)))
    def vlen(s): n = SNum(C.fresh('layers')); C.assume(z3.And(n.e >= 0, (n.e == 0) == type(s).none(s.e))); return n
def chunks(override, text, rez=None):
    """any number of chunks of any number of tiles each, every tile with or without a layer at the resolution"""
    bm = mod('bgrid'); nch, m = size('number_of_chunks', 1), size('cells_per_tile', 1); R = Real('R') if rez is None else rez; require(R > 0); RS = z3.RealSort(); N = fn('tiles_in_chunk', I, I)
    row, col, num = fn('row', I, I, I), fn('col', I, I, I), fn('tile', I, I, I); geo_, data_ = fn('has_geotransform', I, z3.BoolSort()), fn('without_layers', I, z3.BoolSort()); gx, gy, dc, dr = fn('x_origin', I, RS), fn('y_origin', I, RS), fn('data_column', I, I), fn('data_row', I, I)
    nd = Real('nodata'); up = Bool('z_positive_up'); gd = Bool('for_gdal'); ls = VList(['depth', 'density']); asked, made = [], []; Lay = type('Lay', (Layers,), {'none': staticmethod(lambda e: data_(z3.simplify(e - 1)))})
    class Grid_(bm.BathyGrid):
        def _tile_chunk_indices(s, *a, **k): return tci(s, *a, **k)
        def get_tile_data(s, *a, **k):
            b = gsig.bind(s, *a, **k); b.apply_defaults(); b = b.arguments; asked.append(b); t = tnum(b['row_number'], b['column_number'])
            if C.decide(geo_(t)): g = VList([SNum(gx(t)), R, 0, SNum(gy(t)), 0, -R])
            else: g = None; C.assume(data_(t))
            return 'tile', Lay(t + 1), g, SNum(dc(t)), SNum(dr(t)), m
        def _finalize_chunk(s, *a, **k): b = fsig.bind(s, *a, **k); b.apply_defaults(); made.append(b.arguments); return 'array'
    gsig, fsig = inspect.signature(bm.BathyGrid.get_tile_data), inspect.signature(bm.BathyGrid._finalize_chunk); dims = []; 
    tnum_ = fn('tile_of', I, I, I); tnum = lambda r, c: tnum_(zi(r), zi(c))
    def chunk(c): q = SymSeq(SNum(N(zi(c))), lambda t: (SNum(row(zi(c), zi(t))), SNum(col(zi(c), zi(t))))); q.chunk = zi(c); return q
    C.forall([nch], lambda c: C.assume(N(c) >= 1))
    g = new(Grid_, tile_size=R * m); state = {}
    def ser(c):
        """series of the tiles of chunk c"""
        n = SNum(N(c)); T = lambda t: tnum_(row(c, zi(t)), col(c, zi(t))); ok = lambda t: SBool(geo_(T(t)))
        C.forall([n], lambda t: C.assume(z3.Implies(z3.Not(geo_(T(t))), data_(T(t)))))
        A_ = Any(n, ok); S = {k: Series(n, ok, lambda t, f=f: SNum(f(T(t))), some=A_) for k, f in (('x', gx), ('y', gy), ('c', dc), ('r', dr))}; S['d'] = Series(n, ok, lambda t: Lay(T(t) + 1), False, A_); S['m'] = Series(n, ok, lambda t: m, False, A_); return n, T, ok, S
    def inv(env, it):
        if it is state['chunks']: return loops.Inv(vars={'yielded__': lambda k: loops.Trace(k)}, step=step)
        c = getattr(it, 'chunk', None)
        if c is None or not {'curgeo', 'curdata', 'curdcol', 'curdrow', 'curcellcount'} <= set(env): raise Unsupported('loop not recognised')
        n, T, ok, S = state['now'] = ser(c); everywhere([n, n], lambda t, u: state['order'](c, t.e, u.e))
        return loops.Inv(vars={'curdata': lambda k: Coll(S['d'], k), 'curdcol': lambda k: Coll(S['c'], k), 'curdrow': lambda k: Coll(S['r'], k), 'curcellcount': lambda k: Coll(S['m'], k),
            'curgeo': lambda k: Geo(S['x'].some.at(k), [S['x'].least(k), R, 0, S['y'].largest(k), 0, -R])}, step=lambda k, env: [ensure('resolution, layers, no data value and sign are passed on', And(b['resolution'] == R, list(b['layer']) == list(ls), same(b['nodatavalue'], nd), Iff(b['z_positive_up'], up))) for b in asked])
    def step(k, env):
        n, T, ok, S = state['now']; y = env['yielded__']
        if not isinstance(y, loops.Trace): raise Unsupported('what is yielded is not recognised')
        t = index('tile', n); some = ok(t); has = And(some, SBool(z3.Not(data_(T(t.e)))))
        if not y.new: ensure('a chunk is left out only if none of its tiles has data', Not(has)); return
        ensure('one array for a chunk', len(y.new) == 1 and len(made) == 1); (g, dim, arr), b = y.new[0][1], made[0]
        ensure('the array is made of all tiles of the chunk at the resolution', all(isinstance(b[q], Coll) and b[q].F is S[f] and not b[q].new and C.valid(b[q].k == n.e) for q, f in (('column_indices', 'c'), ('row_indices', 'r'), ('layerdata', 'd'))))
        ensure('the array is made of the layers asked for, with the no data value', And(list(b['layers']) == list(ls), same(b['nodatavalue'], nd), Iff(b['for_gdal'], gd), b['cells_per_tile'] == m, arr == 'array'))
        ensure('the pixels are those of the resolution, north up', And(g[1] == R, g[2] == 0, g[4] == 0, g[5] == -R))
        ensure('the left edge is that of the first column of tiles', lambda: Implies(And(some, SNum(dr(T(t.e))) == S['r'].least()), g[0] == SNum(gx(T(t.e)))))
        ensure('the upper edge is that of the last row of tiles', lambda: Implies(And(some, SNum(dc(T(t.e))) == S['c'].largest()), g[3] == SNum(gy(T(t.e)))))
        state['done'] = True
    loops.INV['*'] = inv; q = SymSeq(nch, chunk); state['chunks'] = q; tci = spy(bm.BathyGrid._tile_chunk_indices, dims, lambda a: q); over_ = Real('override'); require(over_ > 0)
    # tiles further to the right (up) start further to the right (up): x = x0 + column * cells * R
    def order(c, t, u):
        n = SNum(N(zi(c))); a, b = [tnum_(row(zi(c), zi(k)), col(zi(c), zi(k))) for k in (t, u)]; return And(Implies(SNum(dr(a)) <= SNum(dr(b)), SNum(gx(a)) <= SNum(gx(b))), Implies(SNum(dc(a)) <= SNum(dc(b)), SNum(gy(a)) <= SNum(gy(b))))
    state['order'] = order
    reachable(); out = g.get_chunks_of_tiles(R, 'depth' if text else ls, nd, up, over_ if override else None, gd); reachable('after')
    ensure('the chunks are cut by the maximum dimension', once(dims, 'chunking')['max_chunk_dimension'] == (over_ if override else mod('grid_variables').maximum_chunk_dimension)); ensure('the chunks are those yielded', isinstance(out, loops.Trace))
for o in (False, True): contract(B + 'get_chunks_of_tiles', 'chunks of tiles' + (', maximum dimension given' if o else ''))(lambda o=o: chunks(o, False))
contract(B + 'get_chunks_of_tiles', 'chunks of tiles, resolution of 2 metres')(lambda: chunks(False, False, 2))
def tiledata(sub, ls):
    """one tile of any grid, with or without the layers at the resolution"""
    bm = mod('bgrid'); R, ts = Real('R'), size('cells_per_tile', 1); require(R > 0); up, pup = Bool('z_positive_up'), Bool('stored_positive_up'); nd = Real('nodata'); ny, nx = size('ny', 1), size('nx', 1); r, c = index('row', ny), index('column', nx); asked = []; hit = {}
    sig = inspect.signature((mod('tile').SRTile if sub == 'srtile' else bm.BathyGrid).get_layers_by_name); gsig = inspect.signature(mod('tile').SRTile.get_geotransform); has = {l: fn('has_' + l, I, I, z3.BoolSort()) for l in ls}; never = fn('never_gridded', I, I, z3.BoolSort()); at = (r.e, c.e)
    if sub == 'grid': C.assume(z3.Implies(never(*at), z3.And(*[z3.Not(h(*at)) for h in has.values()])))
    class Array_:
        def __init__(s, l): s.l = l
    made = {l: Array_(l) for l in ls}
    class GT(GTile):
        klass = ('SRTile', 'Tile') if sub == 'srtile' else ('BathyGrid', 'BaseGrid')
        @property
        def no_grid(s): return SBool(never(*at))
        def get_geotransform(s, *a, **k): b = gsig.bind(s, *a, **k).arguments; asked.append(b); return ('geo', b['resolution'])
        def get_layers_by_name(s, *a, **k):
            if not C.valid(s.e == num(r, c).e): raise Unsupported('another tile')
            b = sig.bind(s, *a, **k); b.apply_defaults(); b = b.arguments; l = b['layer']; asked.append(b)
            if l not in made: raise Unsupported('another layer is asked')
            if sub == 'grid' and C.decide(never(*at)): raise ValueError('BathyGrid: Grid is empty, gridding has not been run yet.')
            if not C.decide(has[l](*at)): return None
            return made[l] if sub == 'srtile' else VList([made[l]])
    arr, num = tiles(GT, ny, nx); require(num(r, c) > 0)
    class Grid_(bm.BathyGrid): positive_up = pup
    g = new(Grid_, tiles=arr, tile_size=R * ts, sub_type=sub, name='n', vertical_reference=None); reachable()
    tile, data, geo, col, row, n = g.get_tile_data(r, c, R, VList(ls), nd, up); reachable('after')
    ensure('the tile at the place', isinstance(tile, GT) and SBool(tile.e == num(r, c).e)); ensure('the cells of the tile', And(n == ts, Implies(n == ts, True))); ensure('the first cell of the tile is its row and column times the cells per tile', And(col == r * ts, row == c * ts))
    ensure('the geotransform of the tile at the resolution', isinstance(geo, tuple) and geo[0] == 'geo' and geo[1] == R)
    for l in ls: ensure('the layer if and only if the tile has it', Iff(SBool(z3.BoolVal(l in data)), SBool(has[l](*at)))); ensure('the array of the layer', l not in data or data[l] is made[l])
    ensure('no other layer', set(dict.keys(data)) <= set(ls))
    for b in asked:
        ensure('the resolution is passed on', b['resolution'] == R); ensure('the tile asked is the one at the place', SBool(b['self'].e == num(r, c).e))
        if 'layer' in b: ensure('the no data value is passed on', same(b['nodatavalue'], nd)); ensure('the sign is turned exactly when the stored sign is not the one asked', Iff(b['z_positive_up'], If(pup, Not(up), up)))
for sub in ('srtile', 'grid'):
    for ls in (['depth'], ['depth', 'density']): contract(B + 'get_tile_data', 'data of one tile: %s, %s' % (', '.join(ls), 'variable resolution' if sub == 'grid' else 'single resolution'))(lambda a=(sub, ls): tiledata(*a))
@contract('bathygrid/grids.py:TileGrid.get_geotransform', 'geotransform of a tile')
def geotile():
    t = mod('tile'); x, y, R, Q = Real('x'), Real('y'), Real('R'), Real('Q'); require(And(R > 0, Q > 0)); g = new(t.SRTile, min_x=x, max_y=y, cells=loops.VDict({R: 'cells'})); reachable(); out = g.get_geotransform(Q)
    ensure('none for a resolution that the tile does not have', Iff(SBool(z3.BoolVal(out is None)), Not(Q == R)))
    if out is not None: ensure('upper left corner, pixel size, north up', And(len(out) == 6, out[0] == x, out[1] == Q, out[2] == 0, out[3] == y, out[4] == 0, out[5] == -Q))
@contract(B + 'positive_up', 'stored sign', bounded='six vertical references')
def stored():
    bm = mod('bgrid')
    for ref, up in ((None, False), ('', False), ('waterline', False), ('ellipse', False), ('COMPOUNDCRS["x",VERTCRS["MLLW",CS[vertical,1],AXIS["depth (D)",down]]]', False), ('VERTCRS["x",VDATUM["x"],CS[vertical,1],AXIS["gravity-related height (h)",up,LENGTHUNIT["metre",1]]]', True)): ensure('positive up only for a vertical reference whose axis is the height', new(bm.BathyGrid, vertical_reference=ref).positive_up is up)
    reachable()
@contract(B + 'positive_up', 'stored sign of any vertical reference')
def anystored():
    t = z3.String('vertical_reference'); g = new(mod('bgrid').BathyGrid, vertical_reference=Str(t)); reachable(); v = g.positive_up
    ensure('positive up exactly for a vertical reference whose axis is the height', Iff(v if isinstance(v, SBool) else SBool(z3.BoolVal(bool(v))), SBool(z3.Contains(t, z3.StringVal('height (h)",up')))))
@contract(B + 'get_geotransform', 'geotransform of a grid')
def geogrid():
    x, y, R = Real('x'), Real('y'), Real('R'); require(R > 0); g = new(mod('bgrid').BathyGrid, min_x=x, max_y=y); reachable(); out = g.get_geotransform(R); ensure('upper left corner, pixel size, north up', And(len(out) == 6, out[0] == x, out[1] == R, out[2] == 0, out[3] == y, out[4] == 0, out[5] == -R))
class Entry(GTile):
    """entry of the table of tiles: the number of the tile, or None"""
    klass = ('list', 'VList')
class Pieces:
    """list of lists, followed for one entry: in how many of its lists that entry is"""
    def __init__(s, look, times): s.look, s.times = look, times
    def append(s, v):
        if C.log is not None: C.log.append(s)
        C.mutate(s, 'times', s.times + If(s.look(v), 1, 0))
    def same(s, o):
        if isinstance(o, VList):
            t = SNum(z3.IntVal(0))
            for v in o: t = t + If(s.look(v), 1, 0)
            return t == s.times
        return s.times == o.times if isinstance(o, Pieces) else False
def split(small, L=None):
    """table of any shape, any of its entries missing, any size of the sections; the entry at any one place is followed"""
    bm = mod('bgrid'); ny, nx = size('rows', 1), size('columns', 1); L = size('largest_section', 1) if L is None else SNum(z3.IntVal(L)); f_, R_, C_ = fn('entry', I, I, I), fn('row_of', I, I), fn('column_of', I, I)
    def num(r, c):
        r, c = zi(r), zi(c); v = f_(r, c); C.assume(z3.And(v >= 0, z3.Implies(v > 0, z3.And(R_(v) == r, C_(v) == c)))); return SNum(v)      # the entries are told apart
    arr = newarr(lambda i: Entry(num(*i).e), (ny, nx), 'object')
    gi, gj = index('row', ny), index('column', nx); e = num(gi, gj)
    def look(v):
        if not isinstance(v, SymSeqBase): raise Unsupported('section that is not a list of entries')
        n = SNum(lift(v.vlen()))
        if 'columns' in tab: where()
        ensure('no list is empty', n > 0); t, u = index('t', n), index('u', n); a, b = v.at(t.e), v.at(u.e)
        ensure('only entries that are there', And(SBool(a.e > 0), SBool(f_(R_(a.e), C_(a.e)) == a.e)))
        ensure('every entry once in its list', Implies(SBool(a.e == b.e), t == u))
        ensure('no list reaches over more rows or columns than a section may have', And(SNum(R_(a.e)) - SNum(R_(b.e)) < L, SNum(C_(a.e)) - SNum(C_(b.e)) < L))
        return And(e > 0, loops.seq_quant(loops.SymSel(n, lambda k: True, lambda k: SBool(v.at(k).e == e.e)), True))
    tab = {}
    def where():
        v, c = tab['columns'].last; C.term(v.shape[0], z3.simplify(gi.e - tab['rows'].last[1])); C.term(v.shape[1], z3.simplify(gj.e - c))      # where the entry would be
    def inv(env, it):
        f = getattr(it, 'section', None)
        if f is None: raise Unsupported('loop over something else than sections')
        if it.axis == 0 and 'rows' not in tab:
            tab['rows'] = it; nm = pick1(env, lambda v: isinstance(v, VList) and not len(v), 'list of lists')
            return loops.Inv(vars={nm: lambda k: (tab.__setitem__('k', k), Pieces(look, If(And(e > 0, gi < SNum(f(zi(k)))), 1, 0)))[1]})
        if it.axis == 1 and 'rows' in tab:
            nm = pick1(env, lambda v: isinstance(v, Pieces), 'list of lists'); g = tab['rows'].section; k0 = tab['k']; tab['columns'] = it; base = env[nm].times
            return loops.Inv(vars={nm: lambda k: Pieces(look, base + If(And(e > 0, gi >= SNum(g(zi(k0))), gi < SNum(g(zi(k0 + 1))), gj < SNum(f(zi(k)))), 1, 0))}, step=lambda k, env: where())
        raise Unsupported('sections not recognised')
    loops.INV['*'] = inv; g = new(bm.BathyGrid); require(And(ny <= L, nx <= L) if small else Not(And(ny <= L, nx <= L))); reachable(); out = g._split_to_approx_shape(arr, (L, L)); reachable('after')
    if isinstance(out, (list, VList)):
        o = Pieces(look, SNum(z3.IntVal(0)))
        for v in out: o.append(v)
        out = o
    if not isinstance(out, Pieces): raise Unsupported('the lists are not recognised')
    ensure('every entry that is there is in exactly one list', out.times == If(e > 0, 1, 0))
for s in (True, False): contract(B + '_split_to_approx_shape', 'sections of the table of tiles: ' + ('one section' if s else 'several sections'), depths=(1,))(lambda s=s: split(s))
contract(B + '_split_to_approx_shape', 'sections of the table of tiles: sections of at most three rows and columns', depths=(1,))(lambda: split(False, 3))
def places(tile=None):
    """grid of any shape with at least one tile, tiles missing at any place"""
    bm = mod('bgrid'); ny, nx = size('rows', 1), size('columns', 1); arr, num = tiles(GTile, ny, nx); r, c = index('row', ny), index('column', nx); require(num(r, c) > 0); ts, M = Real('tile_size') if tile is None else tile, Real('maximum'); require(And(ts > 0, M > 0)); got = []
    class Grid_(bm.BathyGrid): _split_to_approx_shape = spy(bm.BathyGrid._split_to_approx_shape, got, lambda a: 'lists')
    g = new(Grid_, tiles=arr, tile_size=ts); reachable(); out = g._tile_chunk_indices(M); ensure('the lists of the sections are returned', out == 'lists'); reachable('after')
    a = once(got, 'sections'); t, L = a['arr'], a['chunk_shape']; h, w = t.shape; ensure('a section is one tile, or more as long as it is within the maximum', And(len(L) == 2, *[And(l >= 1, Or(l == 1, l * ts <= M)) for l in L]))
    def entry(i, j):
        v = t[SNum(zi(i)), SNum(zi(j))]
        if v is None: return SBool(z3.BoolVal(False)), 0, 0
        if not isinstance(v, loops.RowList): raise Unsupported('entry of another kind')
        x, y = object.__getattribute__(v, 'vals'); return SBool(v.e != 0), x, y
    i, j, k, l = index('i', h), index('j', w), index('k', h), index('l', w); (s, x, y), (s2, x2, y2) = entry(i.e, j.e), entry(k.e, l.e)
    for q, p, n in ((x, h, ny), (y, w, nx)): C.term(n, lift(q))
    ensure('an entry is the place of a tile', lambda: Implies(s, And(x >= 0, x < ny, y >= 0, y < nx, num(x, y) > 0)))
    ensure('entries are as far apart as their tiles', Implies(And(s, s2), And(x - x2 == i - k, y - y2 == j - l)))
    di, dj = r - (x - i), c - (y - j)
    ensure('every tile has its entry', lambda: Implies(s, And(di >= 0, di < h, dj >= 0, dj < w)))
    ensure('the entry of a tile is its place', lambda: (lambda e: Implies(s, And(e[0], e[1] == r, e[2] == c)))(entry(di.e, dj.e)))
    for q, n, d in ((r, h, 0), (c, w, 1)):
        if isinstance(t, SArr) and t.dims[d][0] == 's': C.term(n, z3.simplify(q.e - lift(t.dims[d][2])))
    ensure('there are entries', (t != None).any())
for t in (None, 8): contract(B + '_tile_chunk_indices', 'table of tiles that is cut into sections' + (', tiles of %s metres' % t if t else ''), depths=(1,))(lambda t=t: places(t))
