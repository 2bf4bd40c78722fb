from loopkit import *
CONTRACTS.clear()
B, G, T = 'bathygrid/bgrid.py:BathyGrid.', 'bathygrid/grids.py:', 'bathygrid/tile.py:SRTile.'
def attr(name, sort):
    f = z3.Function('of_tile_' + name, I, sort); return property(lambda s: SNum(f(s.e))), lambda e: SNum(f(zi(e)))
# ------------------------------------------------------------------------------------------------ totals of a grid
def total_of(prop, where, sort, attrname=None):
    bm = mod('bgrid'); get, val = attr(attrname or prop, sort); Tile_ = type('Tile_', (GTile,), {attrname or prop: get}); ny, nx = size('ny', 1), size('nx', 1); arr, at = tiles(Tile_, ny, nx)
    class Grid_(bm.BathyGrid): is_empty = False
    g = new(Grid_, tiles=arr); n = arr.flat.shape[0]; e = lambda k: arr.flat.get(k).e
    S = Sum(n, lambda k: SNum(e(k.e)) != 0, lambda k: val(e(k.e)), sort); loops.INV[prop] = summing(n, S)
    reachable(); v = getattr(g, prop); ensure('the sum over all tiles', lambda: v == S.all)
for prop, where, sort in (('points_count', G + 'BaseGrid.points_count', I), ('coverage_area_square_meters', B + 'coverage_area_square_meters', z3.RealSort()), ('coverage_area_square_nm', B + 'coverage_area_square_nm', z3.RealSort())):
    contract(where, 'grid: %s' % prop)(lambda prop=prop, where=where, sort=sort: total_of(prop, where, sort))
@contract(B + '_update_mean_depth', 'grid: mean depth is the point weighted mean of the tiles')
def mean():
    bm = mod('bgrid'); (gm, mean_), (gc, cnt) = attr('mean_depth', z3.RealSort()), attr('points_count', I); Tile_ = type('Tile_', (GTile,), dict(mean_depth=gm, points_count=gc)); ny, nx = size('ny', 1), size('nx', 1); arr, at = tiles(Tile_, ny, nx)
    n = arr.flat.shape[0]; e = lambda k: SNum(arr.flat.get(k.e).e); P = total(n, lambda k: e(k) != 0, lambda k: cnt(e(k))); S_ = Sum(n, lambda k: e(k) != 0, lambda k: mean_(e(k)) * cnt(e(k))); S = S_.all; require(P > 0); loops.INV['*'] = summing(n, S_)
    class Grid_(bm.BathyGrid):
        is_empty = False; points_count = property(lambda s: P)      # contract of points_count, above
    g = new(Grid_, tiles=arr, mean_depth=Real('old')); reachable(); g._update_mean_depth(); ensure('the point weighted mean, to the millimetre', lambda: abs(g.mean_depth - S / P) <= Fraction(1, 2000))
@contract(B + '_update_mean_depth', 'grid: mean depth without points')
def mean0():
    bm = mod('bgrid')
    class Grid_(bm.BathyGrid): is_empty = True
    g = new(Grid_, tiles=None, mean_depth=Real('old')); reachable(); g._update_mean_depth(); ensure('zero', g.mean_depth == 0)
def no_tiles(prop):
    class Grid_(mod('bgrid').BathyGrid): is_empty = True
    g = new(Grid_, tiles=None); reachable(); v = getattr(g, prop); ensure('nothing', And(v == 0) if isinstance(v, (int, float)) else all(len(q) == 0 for q in (v if isinstance(v, tuple) else (v,))))
for p in ('points_count', 'coverage_area_square_meters', 'cell_count', 'density_count', 'density_per_square_meter', 'density_count_vs_depth', 'density_per_square_meter_vs_depth'): contract((G + 'BaseGrid.' if p == 'points_count' else B) + p, 'grid without tiles: ' + p)(lambda p=p: no_tiles(p))
def joined(prop, pair):
    """lists of a grid: those of its tiles one after the other, each once"""
    bm = mod('bgrid'); parts = [prop + ':0', prop + ':1'] if pair else [prop]
    get = property(lambda s: tuple(GList(s.e, q) for q in parts) if pair else GList(s.e, parts[0])); Tile_ = type('Tile_', (GTile,), {prop: get} if prop != 'return_layer_values' else {prop: lambda s, layer: GList(s.e, parts[0]) if layer == 'depth' else 1 / 0})
    ny, nx = size('ny', 1), size('nx', 1); arr, at = tiles(Tile_, ny, nx); n = arr.flat.shape[0]
    g = new(bm.BathyGrid, tiles=arr); names = []; order = {}
    def inv(env, it):
        over(it, n); vs = [k for k, v in env.items() if v is not UNDEF and empty(v)]
        if len(vs) != len(parts): raise Unsupported('accumulators of the loop not recognised')
        def step(k, env):
            e = arr.flat.get(k.e).e; lists = [env[v].new for v in vs]
            if not C.decide(e != 0): ensure('a place without a tile adds nothing', all(not l for l in lists)); return
            got = [l[0][1] if len(l) == 1 and l[0][0] == 'extend' and isinstance(l[0][1], GList) else None for l in lists]
            ensure('each tile adds its values once', all(q is not None for q in got) and sorted(q.what for q in got) == parts and And(*[SBool(q.e == e) for q in got]))
            for v, q in zip(vs, got):
                if q is not None: order.setdefault(v, set()).add(q.what)
        return loops.Inv(vars={v: (lambda k: loops.Trace(k.e)) for v in vs}, step=step)
    loops.INV[prop] = inv; mod('bgrid').np.array, old = (lambda v, *a: v), np.array
    try:
        reachable(); v = g.return_layer_values('depth') if prop == 'return_layer_values' else getattr(g, prop)
    finally: np.array = old
    v = v if isinstance(v, tuple) else (v,); ensure('all tiles are joined', And(len(v) == len(parts), *[isinstance(q, loops.Trace) and not q.new and SBool(q.k == lift(n)) for q in v])); ensure('the lists are different ones', len(set(map(id, v))) == len(parts))
for p, pr in (('density_count', False), ('density_per_square_meter', False), ('density_count_vs_depth', True), ('density_per_square_meter_vs_depth', True), ('return_layer_values', False)): contract(B + p, 'grid: %s joins the tiles' % p)(lambda p=p, pr=pr: joined(p, pr))
# ------------------------------------------------------------------------------------------------ cell counts of a grid
class Counts(loops.VDict):
    """cell counts built by a loop, followed at one arbitrary resolution R: whether it is there, and its count"""
    def __init__(s, R, has, val): loops.VDict.__init__(s); s.__dict__.update(R=R, has=zb(has), val=lift(val))
    def vcontains(s, r): return SBool(s.has) if C.decide(lift(r) == s.R.e) else SBool(C.fresh('another', z3.BoolSort()))
    __contains__ = lambda s, r: bool(s.vcontains(r))
    def __getitem__(s, r):
        if C.decide(lift(r) == s.R.e):
            if not C.decide(s.has): raise KeyError(r)
            return SNum(s.val)
        return SNum(C.fresh('another_count'))
    def get(s, r, d=None): return s[r] if bool(s.vcontains(r)) else d
    def setdefault(s, r, d=None):
        if not bool(s.vcontains(r)): s[r] = d
        return s[r]
    def __setitem__(s, r, v):
        if C.log is not None: C.log.append(s)
        if C.decide(lift(r) == s.R.e): C.mutate(s, 'has', z3.BoolVal(True)); C.mutate(s, 'val', lift(v))
    def same(s, o):
        if isinstance(o, Counts): return z3.And(s.has == o.has, z3.Implies(s.has, s.val == o.val))
        return z3.Not(s.has) if isinstance(o, loops.VDict) and not dict.__len__(o) else False
    def vlen(s): raise Unsupported('number of resolutions')
    def _no(s, *a, **k): raise Unsupported('dictionary operation')
    __iter__ = keys = items = values = pop = update = copy = __delitem__ = clear = _no
class TileCounts(SymSeqBase):
    """cell counts of a tile: any number of resolutions, each once"""
    def __init__(s, n, key, val): s.n, s.key, s.val = n, key, val
    def symseq_(s): return s
    def at(s, j): return s.key(j)
    def keys(s): return s
    def items(s): return SymSeq(s.n, lambda j: (s.key(j), s.val(s.key(j))))
    def values(s): return SymSeq(s.n, lambda j: s.val(s.key(j)))
    def __getitem__(s, r): return s.val(r)
    def vlen(s): return s.n
    def __bool__(s): return C.decide(lift(s.n) > 0)
    def __iter__(s): raise Unsupported('native iteration')
@contract(B + 'cell_count', 'grid: cell count at every resolution is the sum over the tiles')
def cellcount():
    bm = mod('bgrid'); R = Real('anyR'); num, key, val, pos = fn('number_of_resolutions', I, I), fn('resolution', I, I, z3.RealSort()), fn('cells_at', I, z3.RealSort(), I), fn('place_of_anyR', I, I)
    class Tile_(GTile):
        @property
        def cell_count(s):
            e = s.e; now.append(e); n = SNum(num(e)); C.assume(z3.And(n.e >= 0, pos(e) >= -1, pos(e) < n.e)); C.forall([n], lambda j: C.assume(z3.Implies(z3.And(j >= 0, j < n.e), (key(e, j) == R.e) == (j == pos(e))))); C.assume(z3.Implies(pos(e) >= 0, key(e, pos(e)) == R.e))
            C.term(n, pos(e)); return TileCounts(n, lambda j: SNum(key(e, zi(j))), lambda r: SNum(val(e, lift(r))))
    ny, nx = size('ny', 1), size('nx', 1); arr, at = tiles(Tile_, ny, nx); g = new(bm.BathyGrid, tiles=arr); n = arr.flat.shape[0]; e = lambda k: arr.flat.get(lift(k)).e
    has = Any(n, lambda k: SBool(z3.And(e(k.e) != 0, pos(e(k.e)) >= 0))); S = Sum(n, lambda k: SBool(z3.And(e(k.e) != 0, pos(e(k.e)) >= 0)), lambda k: SNum(val(e(k.e), R.e)), I); now = []
    def inv(env, it):
        d = pick1(env, lambda v: isinstance(v, Counts) or (type(v) is loops.VDict and not dict.__len__(v)), 'totals')
        if isinstance(env[d], Counts):      # over the resolutions of a tile
            c = env[d]; h0, v0 = c.has, c.val; t = now[-1:]
            if not t: raise Unsupported('loop over something else')
            over(it, SNum(num(t[0])))
            p = pos(t[0]); there = lambda j: z3.And(p >= 0, p < lift(j)); return loops.Inv(vars={d: lambda j: Counts(R, z3.Or(h0, there(j)), z3.If(there(j), z3.If(h0, v0, 0) + val(t[0], R.e), v0))})
        over(it, n); return loops.Inv(vars={d: lambda k: Counts(R, has.at(k), S.at(k).e)}, facts=lambda k: [('no count without the resolution', lambda: Implies(Not(has.at(k)), S.at(k) == 0))])
    loops.INV['*'] = inv; reachable(); out = g.cell_count
    if not isinstance(out, Counts): raise Unsupported('another kind of answer')
    ensure('the resolutions are those of the tiles', Iff(SBool(out.has), has.all)); ensure('the sum of the cells over the tiles that have the resolution', Implies(has.all, SNum(out.val) == S.all))
# ------------------------------------------------------------------------------------------------ values of a tile
INT = ('density', 'hypothesis_count')
class Cells(SymSeqBase):
    """the grids of a tile: any number of resolutions, each with layers of any size and content"""
    def __init__(s, n, names, optional=(), dask=False):
        s.n = n; s.rez = fn('resolution', I, z3.RealSort()); s.h, s.w = fn('rows', I, I), fn('columns', I, I); s.has = {l: fn('has_' + l, I, z3.BoolSort()) for l in optional}; s.names = names; s.cache = {}; s.dask = dask
        s.f = {l: fn('cell_' + l, I, I, I, I if l in INT else z3.RealSort()) for l in names}; s.nan = {l: fn('nan_' + l, I, I, I, z3.BoolSort()) for l in names}
        C.forall([n], lambda k: C.assume(z3.Implies(z3.And(k >= 0, k < lift(n)), z3.And(s.rez(k) > 0, s.h(k) >= 1, s.w(k) >= 1))))
    def val(s, l, k, i, j):
        v = s.f[l](k, i, j)
        if l in INT: C.assume(v >= 0)      # counts
        return SNum(v, False if l in INT else s.nan[l](k, i, j))
    def layer(s, k, l):
        k = zi(k); h, w = SNum(s.h(k)), SNum(s.w(k)); C.assume(z3.And(h.e >= 1, w.e >= 1)); a = newarr(lambda i: s.val(l, k, zi(i[0]), zi(i[1])), (h, w), 'int64' if l in INT else 'float32'); return a
    def layers(s, k): return loops.VDict({l: s.layer(k, l) for l in s.names if l not in s.has or C.decide(s.has[l](zi(k)))})
    def symseq_(s): return s
    def at(s, k): return SNum(s.rez(zi(k)))
    def keys(s): return s
    def items(s): return SymSeq(s.n, lambda k: (s.at(k), s.layers(k)))
    def values(s): return SymSeq(s.n, lambda k: s.layers(k))
    def __getitem__(s, r):
        e = z3.simplify(lift(r))
        if e.num_args() != 1 or not z3.eq(e.decl()(0), s.rez(0)): raise Unsupported('grid of another resolution')
        return s.layers(e.arg(0))
    def vlen(s): return s.n
    def __bool__(s): return C.decide(lift(s.n) > 0)
    def __iter__(s): raise Unsupported('native iteration')
def tile_(names, optional=()):
    n = size('number_of_resolutions'); c = Cells(n, names, optional); return new(mod('tile').SRTile, cells=c, name='t'), c, n
def lists(prop, want, names, n_lists=1, call=None, optional=()):
    """the values of every resolution are added, in the order of the cells"""
    t, c, n = tile_(names, optional); 
    def inv(env, it):
        over(it, n); vs = [k for k, v in env.items() if v is not UNDEF and empty(v)]
        if len(vs) != n_lists: raise Unsupported('accumulators of the loop not recognised')
        def step(k, env):
            there = True if not optional else C.decide(c.has[optional[0]](k.e))
            if not all(isinstance(env[v], loops.Trace) for v in vs): return      # refuted by the state itself
            new_ = [env[v].new for v in vs]
            if not there: ensure('a resolution without the layer adds nothing', all(not l for l in new_)); return
            if any(len(l) != 1 or l[0][0] != 'extend' for l in new_): raise Unsupported('values are added in another way')
            got = [l[0][1] for l in new_]; spec = want(c, k.e)
            for g, (nm, sp) in zip(got, spec):
                g = g.tolist() if isinstance(g, SArr) else g
                if not isinstance(g, SymSeqBase): raise Unsupported('values of another kind')
                ensure(nm + ': as many values as populated cells', lambda: SNum(lift(g.n)) == SNum(lift(sp.shape[0])))
                j = index('j', sp.shape[0]); C.term(g.n, j); ensure(nm + ': the value of each populated cell', lambda: same(g.at(j), sp[j]))
        return loops.Inv(vars={v: (lambda k: loops.Trace(k.e)) for v in vs}, step=step)
    loops.INV['*'] = inv; reachable(); v = call(t) if call else getattr(t, prop); v = v if isinstance(v, tuple) else (v,)
    ensure('all resolutions are joined', And(len(v) == n_lists, *[isinstance(q, loops.Trace) and not q.new and SBool(q.k == lift(n)) for q in v]))
def filled(c, k, l, by='density'): d = c.layer(k, by); return c.layer(k, l)[d > 0]
TD = {'density_count': (lambda c, k: [('density', filled(c, k, 'density'))], ['depth', 'density'], 1),
    'density_per_square_meter': (lambda c, k: [('density per square metre', filled(c, k, 'density') / c.at(k) ** 2)], ['depth', 'density'], 1),
    'density_count_vs_depth': (lambda c, k: [('density', filled(c, k, 'density')), ('depth', filled(c, k, 'depth'))], ['depth', 'density'], 2),
    'density_per_square_meter_vs_depth': (lambda c, k: [('density per square metre', filled(c, k, 'density') / c.at(k) ** 2), ('depth', filled(c, k, 'depth'))], ['depth', 'density'], 2)}
for p, (w, nm, q) in TD.items(): contract(T + p, 'tile: %s of exactly the populated cells' % p)(lambda p=p, w=w, nm=nm, q=q: lists(p, w, nm, q))
def values(l):
    def want(c, k): a = c.layer(k, l); return [(l, a[a != 0] if l in INT else a[~np.isnan(a)])]
    lists(None, want, [l], 1, lambda t: t.return_layer_values(l), (l,))
for l in ('depth', 'intensity', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio', 'density', 'hypothesis_count'): contract(T + 'return_layer_values', 'tile: values of %s, every cell with data once' % l)(lambda l=l: values(l))
@contract(T + 'cell_count', 'tile: cell count is the number of cells with data at each resolution')
def tilecells():
    t, c, n = tile_(['depth', 'density'])
    def inv(env, it):
        over(it, n); d = pick1(env, empty)
        def step(k, env):
            if not isinstance(env[d], loops.Trace): return
            new_ = env[d].new
            if len(new_) != 1 or new_[0][0] != 'set': raise Unsupported('counts are noted in another way')
            ensure('noted at its resolution', new_[0][1] == c.at(k.e)); a = c.layer(k.e, 'depth'); ensure('the number of cells with data', lambda: new_[0][2] == np.count_nonzero(~np.isnan(a)))
        return loops.Inv(vars={d: lambda k: loops.Trace(k.e)}, step=step)
    loops.INV['*'] = inv; reachable(); v = t.cell_count; ensure('every resolution is counted', isinstance(v, loops.Trace) and not v.new and SBool(v.k == lift(n)))
@contract([T + 'coverage_area_square_meters', T + 'coverage_area_square_nm'], 'tile: coverage area is that of the populated cells')
def area():
    t, c, n = tile_(['depth', 'density']); dens = lambda k: np.count_nonzero(c.layer(k, 'density') > 0); S = Sum(n, lambda k: True, lambda k: dens(k.e) * (c.at(k.e) * c.at(k.e))); gh = {}; MM_ = Fraction(1, 2000)
    def inv(env, it):
        over(it, n); a = pick1(env, zero)
        def newghost(k): gh[str(k.e)] = SNum(C.fresh('area', z3.RealSort()))
        def ghost(k, env): gh[str(k.e)] = env[a]
        return loops.Inv(vars={a: lambda k: gh[str(k.e)]}, ghost=ghost, newghost=newghost, facts=lambda k: [('the area of the populated cells so far', lambda: abs(SNum(lift(gh[str(k.e)])) - S.at(k)) <= k * MM_)])
    loops.INV['*'] = inv; reachable(); v = t.coverage_area_square_meters; ensure('the area of the populated cells, to half a millimetre squared per resolution', abs(v - S.all) <= n * MM_)
@contract(G + 'TileGrid.points_count', 'tile: number of points')
def pcount():
    n = size('n', 1); t = new(mod('tile').SRTile, data=points('p', n)); reachable(); ensure('the number of its points', t.points_count == n)
    t = new(mod('tile').SRTile, data=None); ensure('none', t.points_count == 0)
@contract(T + 'mean_depth', 'tile: mean depth')
def tmean():
    n = size('n', 1); p = points('p', n); t = new(mod('tile').SRTile, data=p); reachable(); S = total(n, lambda k: True, lambda k: p['z'][k]); ensure('the mean of the depths of its points', lambda: t.mean_depth * n == S)
    t = new(mod('tile').SRTile, data=None); ensure('zero without points', t.mean_depth == 0)
