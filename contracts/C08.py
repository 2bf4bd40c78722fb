from gridkit import *
CONTRACTS.clear()
B, T = 'bathygrid/bgrid.py:BathyGrid.', 'bathygrid/tile.py:SRTile.'
def regular(sub, root, update, auto):
    bm = mod('bgrid'); L = Layout(sub); clear = Bool('clear_existing'); rz = Real('resolution'); pars = 'parameters'; events = []
    class Grid_(bm.BathyGrid):
        def _save_tile(s, tile, flat_index, only_points=False, only_grid=False): events.append(('save', tile, flat_index, only_points))
        def _load_tile(s, flat_index, only_points=False, only_grid=False): events.append(('load', flat_index))
        def _save_grid(s): events.append(('grid',))
    g = new(Grid_, tiles=L.arr, sub_type=sub, name=NAME[sub, root], resolutions=VList([]), grid_parameters=pars)
    upd = update; inset = L.reported(upd, clear)
    def step(k, env):
        p = k.e; skip = L.skip(p, upd, clear)
        gridded = len(L.calls) > 0
        ensure('a tile is regridded if and only if it is there and changed, or everything is regridded', Iff(gridded, And(SBool(L.ex(p)), Not(skip))))
        if not gridded: return
        ensure('a tile is gridded once', len(L.calls) == 1); q, a, before = L.calls[0]
        ensure('the tile gridded is the one at this place', And(q == k, before == 0))
        called(L, a, p, sub, root, upd, auto, clear, rz, pars)
        if sub == 'srtile':
            s = [e for e in events if e[0] == 'save']; l = [e for e in events if e[0] == 'load']
            ensure('the gridded tile is saved at its place', len(s) == 1 and And(SNum(lift(s[0][2])) == k, isinstance(s[0][1], L.GT) and SBool(s[0][1].e == p + 1), Not(s[0][3])))
            if l: ensure('it is loaded from its place', And(*[SNum(lift(e[1])) == k for e in l]))
    def inv(env, it):
        if isinstance(it, Rez): base = g.resolutions.has[0][1]; return loops.Inv(attrs=[(g, 'resolutions', lambda j: loops.Tracked([(L.R, SBool(z3.Or(zb(base), zb(it.any_.at(j)))))]))])
        return over(it, L.N) and loops.Inv(boxes=[(L.done, lambda k, i: SNum(z3.If(z3.And(zi(i[0]) < lift(k), L.ex(zi(i[0])), z3.Not(zb(L.skip(zi(i[0]), upd, clear)))), z3.IntVal(1), z3.IntVal(0))))], attrs=[(g, 'resolutions', lambda k: loops.Tracked([(L.R, inset.at(k))]))], step=step)
    loops.INV['*'] = inv; reachable(); g._grid_regular('mean', rz, clear, 'update' if upd else 'full', auto, False, None); reachable('after')
    p = index('p', L.N); ensure('exactly the tiles that are there and changed are regridded, once' if upd else 'every tile is gridded once', lambda: L.done[p] == SNum(z3.If(z3.And(L.ex(p.e), z3.Not(zb(L.skip(p.e, upd, clear)))), z3.IntVal(1), z3.IntVal(0))))
    if not isinstance(g.resolutions, loops.Tracked): raise Unsupported('resolutions of the grid are another kind of value')
    ensure('the resolutions reported are exactly those of the tiles', lambda: Iff(g.resolutions.has[0][1], inset.all))
    r, c = index('r', L.ny), index('c', L.nx); ensure('every tile stays at its place', lambda: SBool((lambda t: z3.IntVal(0) if t is None else t.e)(g.tiles.box.fn((r.e, c.e))) == L.at(L.pos(r, c))))
    ensure('the grid is saved', [e[0] for e in events] == ['grid'])
for *q, nm in cases(): contract([B + '_grid_regular'], 'gridding any number of tiles: ' + nm)(lambda q=q: regular(*q))
# ------------------------------------------------------------------------------------------------ change flags
@contract(B + 'point_count_changed', 'a grid counts as changed if and only if one of its tiles does')
def changed():
    bm = mod('bgrid'); ch = fn('changed', I, z3.BoolSort()); T_ = type('T_', (GTile,), dict(point_count_changed=property(lambda s: SBool(ch(s.e))))); ny, nx = size('ny', 1), size('nx', 1); arr, at = tiles(T_, ny, nx); n = ny * nx
    e = lambda k: arr.flat.get(k.e).e; A_ = Any(n, lambda k: SBool(z3.And(e(k) != 0, ch(e(k)))))
    loops.INV['*'] = lambda env, it: over(it, n) and loops.Inv(facts=lambda k: [('no changed tile so far', Not(A_.at(k)))])
    g = new(bm.BathyGrid, tiles=arr); reachable(); v = g.point_count_changed; ensure('changed if and only if some tile is', Iff(v, A_.all) if isinstance(v, (bool, SBool)) else False)
@contract(B + 'point_count_changed', 'a grid without tiles is not changed')
def unchanged():
    g = new(mod('bgrid').BathyGrid, tiles=None); reachable(); v = g.point_count_changed; ensure('not changed', v is False)
def flagged(what):
    import tilekit; k = tilekit.tile(state='stale', algorithm='mean'); t = k.t; t.container = loops.SMap({'a': VList([0, k.n])}) if what != 'first' else loops.VDict(); t.cell_indices = loops.SMap({k.R: k.t.cell_indices[k.R]}); t.cells = loops.VDict({k.R: k.t.cells[k.R]})
    if what == 'first': t.__dict__['data'] = None
    reachable()
    if what == 'remove': t.remove_points('a')
    else: t.add_points(points('new', size('m', 1)), 'b')
    ensure('the tile counts as changed', t.point_count_changed)
for w in ('first', 'add', 'remove'): contract([T + ('remove_points' if w == 'remove' else 'add_points')], 'a tile counts as changed after its points changed: ' + w)(lambda w=w: flagged(w))
@contract([T + 'grid'], 'gridding makes a tile unchanged and drops its other resolutions when asked', timeout=80)
def regrid():
    import tilekit; k = tilekit.tile(state='stale', algorithm='mean'); k.R2 = Real('R2'); require(And(k.R2 > 0, k.R2 != k.R)); k.t.cells[k.R2] = loops.VDict({l: array('two_' + l, (k.m, k.m), 'float32', nan=True) for l in k.layers}); clear = Bool('clear'); c = C.decide(clear.e)
    reachable(); r = k.t.grid('mean', k.R, clear_existing=c); ensure('not changed any more', Not(k.t.point_count_changed)); ensure('the resolution gridded is the answer', r == k.R)
    ensure('old layers are dropped when asked, else left', list(dict.keys(k.t.cells)) == ([k.R] if c else [k.R, k.R2]) or (not c and len(k.t.cells) == 2))
# ------------------------------------------------------------------------------------------------ front end
def front(dask, auto, name):
    bm = mod('bgrid'); calls = []; rz = Real('resolution'); clear, border, before = Bool('clear'), 'border', Bool('used_before'); look, dens = Real('lookup'), Real('density'); found = VList([Real('found')])
    class Grid_(bm.BathyGrid):
        is_empty = False
        _calculate_resolution_lookup = lambda s: look
        resolution_by_density = lambda s: dens
    def stub(nm):
        def ret(a): calls2.append((nm, list(a['self'].resolutions))); a['self'].resolutions = found
        return spy(getattr(bm.BathyGrid, nm), calls, ret)
    calls2 = []; Grid_._grid_regular, Grid_._grid_parallel = stub('_grid_regular'), stub('_grid_parallel'); used = C.decide(before.e)
    g = new(Grid_, name=name, grid_algorithm='mean' if used else '', grid_resolution='old', grid_parameters='old', resolutions=VList([Real('old')])); upd = C.decide(Bool('update').e); reachable()
    out = g.grid('mean', None if auto else rz, clear_existing=clear, auto_resolution_mode=auto or 'depth', regrid_option='update' if upd else 'full', use_dask=dask, progress_bar=False, grid_parameters='pars', border_data=border)
    a = once(calls, 'gridding'); nm, rez0 = calls2[0]; ensure('through dask if and only if asked', (nm == '_grid_parallel') == dask)
    ensure('the resolutions are collected anew', rez0 == []); ensure('the resolutions of the tiles are the answer', And(out is found, g.resolutions is found))
    ensure('the options are passed on', And(a['algorithm'] == 'mean', Iff(a['clear_existing'], clear), a['regrid_option'] == ('update' if upd else 'full'), a['border_data'] == border, a['auto_resolution'] == auto))
    if name != 'VRGridTile_Root' or not auto: want = rz if not auto else look if auto == 'depth' else dens; ensure('the resolution is the one given or the one of the whole grid', a['resolution'] is not None and a['resolution'] == want)
    else: ensure('a variable resolution grid leaves the choice to its tiles', a['resolution'] is None)
    ensure('algorithm and parameters are remembered', And(g.grid_algorithm == 'mean', g.grid_parameters == 'pars'))
for dask in (False, True):
    for auto in ('', 'depth', 'density'):
        for name in ('SRGrid_Root', 'VRGridTile_Root', '512.0_1024.0'): contract(B + 'grid', 'gridding a grid: %s, resolution %s, %s' % ('dask' if dask else 'sequential', auto or 'given', name))(lambda dask=dask, auto=auto, name=name: front(dask, auto, name))
@contract(B + 'grid', 'gridding with another algorithm without clearing is refused, nothing is changed')
def other():
    bm = mod('bgrid')
    class Grid_(bm.BathyGrid): is_empty = False
    g = new(Grid_, name='SRGrid_Root', grid_algorithm='shoalest', grid_resolution='old', grid_parameters='old', resolutions=VList([1.0])); before = dict(g.__dict__); reachable(); v, e = raises(lambda: g.grid('mean', 1.0, regrid_option='update' if C.decide(Bool('update').e) else 'full'))
    ensure('refused', isinstance(e, ValueError)); ensure('nothing is changed', all(g.__dict__[k] is q for k, q in before.items()))
@contract(B + 'grid', 'an empty grid is refused')
def emptyg():
    bm = mod('bgrid')
    class Grid_(bm.BathyGrid): is_empty = True
    g = new(Grid_, name='SRGrid_Root', grid_algorithm='', resolutions=VList([])); reachable(); v, e = raises(lambda: g.grid('mean', 1.0)); ensure('refused', isinstance(e, ValueError))
