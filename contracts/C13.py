from diskkit import *
CONTRACTS.clear()
K = 'bathygrid/backends.py:'
BACK = ('NumpyGrid', 'ZarrGrid'); LAYERS = ('depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_count', 'hypothesis_ratio')
# ------------------------------------------------------------------------------------------------ one array
def arr(kind, name):
    n = size(name + '_n'); 
    if kind == 'line': return array(name, n, 'float64', nan=True)
    if kind == 'whole': return array(name, n, 'int64')
    if kind == 'single': return array(name, (n, size(name + '_m')), 'float32', nan=True)
    if kind == 'mask': return array(name, (n, size(name + '_m')), 'bool')
    return points(name, n)
def one(cls, kind, before):
    d = install('/g'); bm = mod('backends'); g = new(getattr(bm, cls)); a = arr(kind, 'new') if kind != 'none' else None; p = '/g/x'
    if before == 'other': works('saving the older one', lambda: g._save_array(p, arr('single', 'old')))
    if before == 'none': works('saving nothing', lambda: g._save_array(p, None))
    reachable(); want = frozen(a) if a is not None else np.array([]); src = bm.da.from_array(a) if before == 'dask' else a
    works('saving', lambda: g._save_array(p, src)); v = works('loading', lambda: g._load_array(p)); ensure('lazily loaded, computed on demand', getattr(v, 'isdask', False) is True); v = works('reading', v.compute)
    if cls == 'ZarrGrid' and a is not None and C.decide(zb(a.size == 0)): ensure('an array without values stays one', v.size == 0)
    else: there('the array', v, want)
for c in BACK:
    for kind in ('line', 'whole', 'single', 'mask', 'points', 'none'):
        for before in ('nothing', 'other', 'none', 'dask'):
            if kind in ('whole', 'mask') and before != 'nothing' or kind == 'none' and before == 'dask': continue
            contract([K + c + '._save_array', K + c + '._load_array', 'bathygrid/utilities.py:remove_with_permissionserror', K + c + ('._numpygrid_todask' if c == 'NumpyGrid' else '._zarrgrid_todask')], '%s: array (%s) over %s' % (c, kind, before))(lambda c=c, kind=kind, before=before: one(c, kind, before))
# ------------------------------------------------------------------------------------------------ attributes
TILE = ('min_y', 'min_x', 'max_y', 'max_x', 'width', 'height', 'container', 'name', 'algorithm', 'grid_parameters', 'point_count_changed', 'is_backscatter')
GRID = ('min_y', 'min_x', 'max_y', 'max_x', 'min_time', 'max_time', 'width', 'height', 'origin_x', 'origin_y', 'container', 'maximum_tiles', 'number_of_tiles', 'can_grow', 'tile_size', 'mean_depth', 'epsg', 'vertical_reference', 'resolutions', 'name', 'sub_type',
    'subtile_size', 'storage_type', 'grid_algorithm', 'container_timestamp', 'grid_resolution', 'version', 'is_backscatter', 'grid_parameters')
GRIDARR = ('tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y', 'existing_tile_mask')
def params(how): return None if how == 'none' else loops.VDict({'variance_selection': 'cube', 'iho_order': 'order1a', 'number': Real('parameter')})
def tileattrs(q, how):
    return dict(min_y=Real(q + 'min_y'), min_x=Real(q + 'min_x'), max_y=Real(q + 'max_y'), max_x=Real(q + 'max_x'), width=Real(q + 'width'), height=Real(q + 'height'), name=q + '512.0_1024.0', algorithm=None if how == 'none' else 'mean', grid_parameters=params(how), point_count_changed=Bool(q + 'changed'), is_backscatter=Bool(q + 'backscatter'),
        container=loops.VDict({'a_0': VList([Int(q + 'a0'), Int(q + 'a1')]), 'b_0': VList([Int(q + 'b0'), Int(q + 'b1')])} if how == 'some' else {}))
def sametile(t, want):
    for k in TILE: ensure('attribute %s' % k, equal(getattr(t, k, 'missing'), want[k]))
def tmeta(how):
    d = install('/g'); bm, tm = mod('backends'), mod('tile'); g = new(bm.NumpyGrid); want = tileattrs('', how); t = new(tm.SRTile, **tileattrs('', how)); reachable()
    if how == 'some': works('saving an older one', lambda: g._save_tile_metadata(new(tm.SRTile, **tileattrs('old_', 'some')), '/g/t'))
    works('saving', lambda: g._save_tile_metadata(t, '/g/t')); sametile(t, want); r = tm.SRTile(); works('loading', lambda: g._load_tile_metadata(r, '/g/t')); sametile(r, want)
for how in ('none', 'some'): contract([K + 'BaseStorage._save_tile_metadata', K + 'BaseStorage._load_tile_metadata'], 'attributes of a tile come back (%s)' % how)(lambda how=how: tmeta(how))
def gridattrs(q, how):
    some = how == 'some'; real = ('min_y', 'min_x', 'max_y', 'max_x', 'width', 'height', 'origin_x', 'origin_y', 'mean_depth', 'tile_size', 'subtile_size')
    a = {k: Real(q + k) for k in real}
    a.update(min_time='2021' if some else '', max_time='2022' if some else '', container=loops.VDict({'a': VList(['f1', 'f2']), 'b': VList([])} if some else {}), container_timestamp=loops.VDict({'a': '20210101_000000', 'b': 't'} if some else {}), maximum_tiles=Int(q + 'maximum_tiles') if some else None, number_of_tiles=Int(q + 'number_of_tiles'), can_grow=Bool(q + 'can_grow'),
        epsg=Int(q + 'epsg') if some else None, vertical_reference='MLLW' if some else None, resolutions=VList([Real(q + 'r0'), Real(q + 'r1')]) if some else VList(), name='SRGrid_Root', sub_type='srtile', storage_type=how, grid_algorithm='mean' if some else '', grid_resolution=Real(q + 'grid_resolution') if some else 'AUTO_depth', version='1.2', is_backscatter=Bool(q + 'backscatter'), grid_parameters=params(how), output_folder='/before')
    ny, nx = size(q + 'ny', 1), size(q + 'nx', 1)
    for k in ('tile_x_origin', 'tile_y_origin'): a[k] = array(q + k, (ny, nx))
    a['tile_edges_x'], a['tile_edges_y'] = array(q + 'ex', nx + 1), array(q + 'ey', ny + 1); a['existing_tile_mask'] = array(q + 'mask', (ny, nx), 'bool'); return a
def gmeta(cls, how):
    d = install('/g'); bm = mod('backends'); want = gridattrs('', how); g = new(getattr(bm, cls), **gridattrs('', how)); reachable()
    if how == 'some': works('saving an older one', lambda: new(getattr(bm, cls), **gridattrs('old_', 'some'))._save_bathygrid_metadata('/g'))
    works('saving', lambda: g._save_bathygrid_metadata('/g'))
    def check(o):
        for k in GRID: ensure('attribute %s' % k, equal(getattr(o, k, 'missing'), want[k]))
        for k in GRIDARR: there(k, getattr(o, k, None), want[k])
    check(g); r = new(getattr(bm, cls), output_folder='/here'); works('loading', lambda: r._load_bathygrid_metadata('/g')); check(r); ensure('the folder is the one it is loaded from', r.output_folder == '/here')
    i, j = index('i', want['tile_x_origin'].shape[0]), index('j', want['tile_x_origin'].shape[1]); ensure('a place for every tile', And(*[SBool(lift(p) == lift(q)) for p, q in zip(r.tiles.shape, want['tile_x_origin'].shape)])); ensure('no tiles yet', r.tiles[i, j] is None)
for c in BACK:
    for how in ('none', 'some'): contract([K + 'BaseStorage._save_bathygrid_metadata', K + 'BaseStorage._load_bathygrid_metadata', K + c + '._save_array', K + c + '._load_array'], '%s: attributes of a grid come back (%s)' % (c, how))(lambda c=c, how=how: gmeta(c, how))
# ------------------------------------------------------------------------------------------------ one tile
def tgrid(cls, name='SRGrid_Root', folder='/g', sub='srtile', arrays=None, **kw):
    """grid of any number of tiles"""
    bm = mod('backends'); ny, nx, xo, yo = arrays
    return new(getattr(bm, cls), output_folder=folder, name=name, sub_type=sub, tile_x_origin=xo, tile_y_origin=yo, tiles=np.full((ny, nx), None, dtype=object), **kw)
def layout():
    ny, nx = size('ny', 1), size('nx', 1); return ny, nx, array('xo', (ny, nx)), array('yo', (ny, nx))
def layer(q, l, m): return array(q + l, (m, m), 'int64' if l in ('density', 'hypothesis_count') else 'float32', nan=l != 'density')
def contents(t, q, n, rez, layers):
    """any points and layers: every resolution has some of the layers"""
    t.data = points(q + 'p', n); t.cells, t.cell_edges_x, t.cell_edges_y, t.cell_indices = [loops.VDict() for _ in range(4)]; gridcells(t, q, n, rez, layers)
def gridcells(t, q, n, rez, layers):
    for i, r in enumerate(rez):
        m = size('%sm%d' % (q, i), 1); t.cells[r] = loops.VDict({l: layer('%s%d' % (q, i), l, m) for l in layers(i)})
        t.cell_edges_x[r], t.cell_edges_y[r] = array('%sex%d' % (q, i), m + 1), array('%sey%d' % (q, i), m + 1); t.cell_indices[r] = array('%sci%d' % (q, i), n, 'int64')
def picked(q, every=False):
    """an arbitrary one of the layers may be there or not; the others are there or not alike"""
    def f(i): return list(LAYERS)
    return f
def snapshot(t):
    s = lambda d: {k: frozen(v.compute() if getattr(v, 'isdask', False) else v) for k, v in dict.items(d)}
    return dict(data=frozen(t.data.compute() if getattr(t.data, 'isdask', False) else t.data), cells={k: s(v) for k, v in dict.items(t.cells)}, ex=s(t.cell_edges_x), ey=s(t.cell_edges_y), ci=s(t.cell_indices))
def at(d, r):
    for k in dict.keys(d):
        if C.valid(lift(k) == lift(r)): return dict.__getitem__(d, k)
def keys(what, d, want):
    ensure(what, And(len(d) == len(want), *[any(C.valid(lift(k) == lift(w)) for k in dict.keys(d)) for w in want]))
def sametiledata(t, s):
    there('points', t.data, s['data']); keys('the resolutions that were saved', t.cells, s['cells']); keys('indices of the resolutions that were saved', t.cell_indices, s['ci'])
    for r, ls in s['cells'].items():
        c = at(t.cells, r)
        if c is None: continue
        ensure('the layers that were saved', set(dict.keys(c)) == set(ls))
        for l, v in ls.items():
            if l in c: there('layer ' + l, c[l], v)
        for what, d, w in (('x edges', t.cell_edges_x, s['ex']), ('y edges', t.cell_edges_y, s['ey']), ('cell indices', t.cell_indices, s['ci'])):
            v = at(d, r); ensure(what + ' of the resolution', v is not None)
            if v is not None: there(what, v, w[r])
def resolutions(k): 
    r = [Real('r%d' % i) for i in range(k)]; require(And(*[q > 0 for q in r], *[Or(r[i] != r[j]) for i in range(k) for j in range(i)])); return r
def reload(cls, lay, idx, was):
    """another grid that loads the tile from disk"""
    h = tgrid(cls, arrays=lay); works('loading', lambda: h._load_tile(idx)); u = h.tiles.flat[idx]; ensure('the tile is there', u is not None and type(u).__name__ == 'SRTile')
    return u
FN = lambda c: [K + 'BaseStorage._save_tile', K + 'BaseStorage._load_tile', K + 'BaseStorage._get_tile_folder', K + 'BaseStorage._get_new_tile_name', K + c + '._save_tile_data', K + c + '._load_tile_data', K + c + '._load_tile_data_to_memory', K + 'BaseStorage._save_tile_metadata', K + 'BaseStorage._load_tile_metadata', 'bathygrid/utilities.py:remove_with_permissionserror']
TWO = 'two arbitrary resolutions per tile'
def full(cls, new_, old, layers):
    """a tile saved over whatever was there comes back, and nothing else does"""
    d = install('/g'); bm, tm = mod('backends'), mod('tile'); lay = layout(); idx = index('tile', lay[0] * lay[1]); r = resolutions(3); n = size('n', 1); g = tgrid(cls, arrays=lay); mk = lambda q: new(tm.SRTile, **tileattrs(q, 'some'))
    if old is not None:
        o = mk('old_'); contents(o, 'o', size('old_n', 1), [r[i] for i in old], lambda i: LAYERS); works('saving the older one', lambda: g._save_tile(o, idx))
    t = mk(''); contents(t, 'n', n, [r[i] for i in new_], lambda i: layers[i]); want, s = tileattrs('', 'some'), snapshot(t); reachable()
    works('saving', lambda: g._save_tile(t, idx)); sametiledata(t, s); u = reload(cls, lay, idx, None)
    if u is None: return
    sametile(u, want); sametiledata(u, s)
    # it can be saved again from what was loaded, and the one that saved it reads it back
    works('saving what was loaded', lambda: g._save_tile(u, idx)); sametiledata(u, s); v = reload(cls, lay, idx, None); sametile(v, want); sametiledata(v, s)
SUB = {'all layers': (LAYERS, LAYERS), 'depth and density': (('depth', 'density'),) * 2, 'different layers': (('depth', 'density', 'vertical_uncertainty', 'horizontal_uncertainty'), ('density', 'intensity', 'total_uncertainty', 'hypothesis_count', 'hypothesis_ratio')), 'cube': (('hypothesis_ratio', 'depth', 'hypothesis_count', 'total_uncertainty', 'density', 'vertical_uncertainty'),) * 2}
for c in BACK:
    for nm, ls in SUB.items():
        for new_, old in (((0,), None), ((0, 1), None), ((0, 1), (1, 2)), ((1,), (1, 0)), ((), (0,)), ((0,), (1,))):
            if nm not in ('all layers', 'different layers') and old: continue
            contract(FN(c), '%s: tile, %s, resolutions %s over %s' % (c, nm, new_, old), bounded=TWO)(lambda c=c, new_=new_, old=old, ls=ls: full(c, new_, old, ls))
# what operations on a disk backed grid do to a tile: the points or the layers change, only these are saved, and the tile is loaded again
def partly(cls, what):
    d = install('/g'); bm, tm = mod('backends'), mod('tile'); lay = layout(); idx = index('tile', lay[0] * lay[1]); r = resolutions(3); g = tgrid(cls, arrays=lay)
    o = new(tm.SRTile, **tileattrs('old_', 'some')); contents(o, 'o', size('old_n', 1), r[:2], lambda i: LAYERS); works('saving the older one', lambda: g._save_tile(o, idx)); g.tiles.flat[idx] = None; works('loading', lambda: g._load_tile(idx))
    t = g.tiles.flat[idx]; ensure('the tile is there', t is not None)
    if t is None: return
    want = tileattrs('', 'some')
    for k in TILE: setattr(t, k, tileattrs('', 'some')[k])
    if what == 'points':        # as SRTile.add_points and remove_points leave it
        n = size('n', 1); t.data = points('np', n)
        for i in range(2): t.cell_indices[r[i]] = array('nci%d' % i, n, 'int64')
    elif what == 'regridded': t.cells, t.cell_edges_x, t.cell_edges_y = loops.VDict(), loops.VDict(), loops.VDict(); gridcells(t, 'n', t.data.shape[0], [r[2]], lambda i: LAYERS[:4]); dropped(t, r)
    elif what == 'one resolution more': gridcells(t, 'n', t.data.shape[0], [r[2]], lambda i: LAYERS[:4])
    elif what == 'same resolution': gridcells(t, 'n', t.data.shape[0], [r[0]], lambda i: LAYERS[:3])
    elif what == 'no layers': t.cells, t.cell_edges_x, t.cell_edges_y = loops.VDict(), loops.VDict(), loops.VDict(); dropped(t, r)
    s = snapshot(t); reachable(); kw = {'only_points' if what == 'points' else 'only_grid': True}
    works('saving', lambda: g._save_tile(t, idx, **kw)); sametiledata(t, s); works('loading it in place', lambda: g._load_tile(idx, **kw)); u = g.tiles.flat[idx]; ensure('the tile is still there', u is not None)
    if u is None: return
    sametile(u, want); sametiledata(u, s); v = reload(cls, lay, idx, None)
    if v is None: return
    sametile(v, want); sametiledata(v, s)
def dropped(t, r):
    for q in list(dict.keys(t.cell_indices)):
        if at(t.cells, q) is None: del t.cell_indices[q]
for c in BACK:
    for w in ('points', 'regridded', 'one resolution more', 'same resolution', 'no layers'): contract(FN(c), '%s: a tile on disk changes, %s' % (c, w), bounded=TWO)(lambda c=c, w=w: partly(c, w))
# a tile that is gone
def gone(cls):
    d = install('/g'); tm = mod('tile'); lay = layout(); idx, other = index('tile', lay[0] * lay[1]), index('other', lay[0] * lay[1]); names(lay); g = tgrid(cls, arrays=lay); r = resolutions(1); q = [new(tm.SRTile, **tileattrs(p, 'some')) for p in ('a', 'b')]; require(idx != other)
    for t, p, i in zip(q, 'ab', (idx, other)): contents(t, p, size(p + 'n', 1), r, lambda i: LAYERS[:3]); works('saving', lambda: g._save_tile(t, i))
    s = snapshot(q[1]); reachable(); works('saving that there is no tile', lambda: g._save_tile(None, idx)); works('again', lambda: g._save_tile(None, idx)); h = tgrid(cls, arrays=lay)
    for i in (idx, other): h.tiles.flat[i] = q[0]
    works('loading', lambda: h._load_tile(idx)); ensure('the tile does not come back', h.tiles.flat[idx] is None)
    v = reload(cls, lay, other, None)
    if v is None: return
    sametile(v, tileattrs('b', 'some')); sametiledata(v, s)
def names(lay):
    """tiles have different origins (C04)"""
    ny, nx, xo, yo = lay; f = [xo.snap(), yo.snap()]; flat = lambda a, p: a.flat.get(zi(p))
    everywhere([ny * nx, ny * nx], lambda p, q: Implies(p != q, Or(flat(xo, p) != flat(xo, q), flat(yo, p) != flat(yo, q))))
for c in BACK: contract(FN(c) + [K + 'BaseStorage._clear_tile'], '%s: a tile that is gone does not come back' % c)(lambda c=c: gone(c))
@contract([K + 'BaseStorage._get_tile_folder', K + 'BaseStorage._get_new_tile_name', 'bathygrid/bgrid.py:BathyGrid._tile_idx_to_origin_point', 'bathygrid/bgrid.py:BathyGrid._tile_idx_to_row_col'], 'different tiles are kept in different folders')
def folders():
    install('/g'); lay = layout(); i, j = index('i', lay[0] * lay[1]), index('j', lay[0] * lay[1]); names(lay); require(i != j); g = tgrid('NumpyGrid', arrays=lay); reachable(); (p, r, c), (q, r2, c2) = g._get_tile_folder('/g/x', i), g._get_tile_folder('/g/x', j)
    ensure('below the folder of the grid', And(p.startswith('/g/x/'), q.startswith('/g/x/'), '/' not in p[5:], '/' not in q[5:])); ensure('row and column of the tile', And(r * lay[1] + c == i, c >= 0, c < lay[1])); a, b = parse(p[5:]), parse(q[5:])
    ensure('the names differ', True if a[0] != b[0] else Or(*[v != w for v, w in zip(a[1], b[1])]))
    ensure('the name is that of a sub grid (add_points)', p[5:] == '{}_{}'.format(*g._tile_idx_to_origin_point(i)))
# ------------------------------------------------------------------------------------------------ all tiles of a grid
class There(GTile):
    """a tile or grid of the grid"""
def placed(cls, lay):
    """there is a tile at some places; its number is that of the place, plus one"""
    ex = fn('is_there', I, z3.BoolSort()); at = lambda p: z3.If(ex(zi(p)), zi(p) + 1, 0); ny, nx = lay[:2]
    return newarr(lambda i: cls(at(zi(SNum(lift(i[0])) * nx + SNum(lift(i[1]))))), (ny, nx), 'object'), lambda p: SNum(at(p))
def save_all(cls, sub, bar, how):
    """every tile of a grid of any number of tiles is saved once, at its place, wholly; what is None is cleared"""
    d = install('/g'); bm = mod('backends'); ny, nx, xo, yo = lay = layout(); n = ny * nx; names(lay); T, f = placed(Sub if sub == 'grid' else There, lay); saved, cleared, order = np.zeros(n, dtype='int64'), np.zeros(n, dtype='int64'), []
    class G(getattr(bm, cls)):
        _save_grid = lambda s: order.append(s.output_folder)
        _save_tile = lambda s, *a, **k: stile(s, *a, **k)
        _clear_tile = lambda s, p: clear(p)
    sig = inspect.signature(bm.BaseStorage._save_tile)
    def stile(s, *a, **k):
        b = sig.bind(s, *a, **k); b.apply_defaults(); b = b.arguments; p = b['flat_index']; ensure('points and layers are saved', And(not b['only_points'], not b['only_grid'])); ensure('below the folder asked for', s.output_folder == '/out'); ensure('the tile of the place', SBool((z3.IntVal(0) if b['tile'] is None else b['tile'].e) == f(p).e)); ensure('the grid is saved first', order == ['/out'])
        saved[p] = saved[p] + 1; reachable('tile')
    def clear(p): i = place(p, lay, n, '/out/VRGridTile_Root'); cleared[i] = cleared[i] + 1; reachable('cleared')
    g = new(G, output_folder='/elsewhere', name='VRGridTile_Root' if sub == 'grid' else 'SRGrid_Root', sub_type=sub, tile_x_origin=xo, tile_y_origin=yo, tiles=T); Sub.world = (saved, lay, n, '/out/VRGridTile_Root')
    one = lambda k: If(f(k) > 0, 1, 0) if sub == 'grid' else SNum(z3.IntVal(1)); zero_ = lambda k: 1 - one(k) if sub == 'grid' else SNum(z3.IntVal(0))
    loops.INV['*'] = lambda env, it: over(it, n) and loops.Inv(boxes=[(saved, lambda k, t: If(SNum(zi(t[0])) < k, one(zi(t[0])), 0)), (cleared, lambda k, t: If(SNum(zi(t[0])) < k, zero_(zi(t[0])), 0))])
    reachable(); bm.BaseStorage.save(g, *([('/out', bar), ('/out',)][how])); i = index('any', n)
    ensure('every tile is saved once', lambda: saved[i] == one(i)); ensure('folders of tiles that are gone are cleared', lambda: cleared[i] == zero_(i)); ensure('the grid is saved', order == ['/out']); ensure('the grid is from then on the one in this folder', g.output_folder == '/out')
def place(p, lay, n, root):
    """tile whose folder it is (different tiles have different folders, above)"""
    if not p.startswith(root + '/'): ensure('below the folder of the grid', False); raise PathEnd()
    lit, v = parse(p[len(root) + 1:])
    if lit != '#_#': raise Unsupported('folder name not recognised')
    e = z3.simplify(v[0].e); i = SNum(C.fresh('place')); C.assume(z3.And(i.e >= 0, i.e < lift(n))); C.term(n, i.e); C.assume(z3.And(lift(lay[2].flat.get(i.e)) == v[0].e, lift(lay[3].flat.get(i.e)) == v[1].e)); return i
class Sub(There):
    """grid below a grid; its name is that of its place (C08)"""
    klass = ('BathyGrid', 'BaseGrid', 'NumpyGrid', 'ZarrGrid'); world = None
    def save(s, folderpath=None, progress_bar=True):
        saved, lay, n, root = Sub.world; ensure('below the folder of the grid', folderpath == root); i = SNum(z3.simplify(s.e - 1)); C.term(n, i.e); saved[i] = saved[i] + 1; reachable('sub grid')
for c in BACK:
    for sub in ('srtile', 'quadtile', 'grid'):
        for how in (0, 1):
            contract([K + 'BaseStorage.save'], '%s: all tiles are saved (%s%s)' % (c, sub, ', quiet' if not how else ''))(lambda c=c, sub=sub, how=how: save_all(c, sub, False, how))
@contract([K + 'BaseStorage._save_grid', K + 'BaseStorage._load_grid'], 'the grid is kept in the folder of its name')
def gridfolder():
    d = install('/g'); bm = mod('backends'); at_ = []
    class G(bm.NumpyGrid):
        _save_bathygrid_metadata = lambda s, p: at_.append(('save', p, d.isdir(p))); _load_bathygrid_metadata = lambda s, p: at_.append(('load', p))
    reachable(); g = new(G, output_folder='/g', name='SRGrid_Root'); v, e = raises(g._load_grid); ensure('a grid that was not saved is not loaded', And(isinstance(e, (ValueError, OSError)), not at_))
    for k in range(2): works('saving', g._save_grid)
    ensure('the attributes are saved to an existing folder', at_ == [('save', '/g/SRGrid_Root', True)] * 2); del at_[:]; works('loading', g._load_grid); ensure('the attributes are loaded from there', at_ == [('load', '/g/SRGrid_Root')])
    del at_[:]; before = set(d.dirs); h = new(G, output_folder='', name='SRGrid_Root'); works('a grid in memory', h._save_grid); works('a grid in memory', h._load_grid); works('a grid in memory', lambda: h._save_tile(None, 0)); works('a grid in memory', lambda: h._load_tile(0)); ensure('a grid in memory writes nothing', And(not at_, d.dirs == before, not d.files))
def real_class(bm, n):
    if not hasattr(bm, '_real_' + n): setattr(bm, '_real_' + n, getattr(bm, n))
    return getattr(bm, '_real_' + n)
def load_all(cls, sub, stored):
    """every tile is loaded from its place; sub grids without points stay away"""
    d = install('/g'); bm = mod('backends'); ny, nx, xo, yo = lay = layout(); n = ny * nx; names(lay); loaded, order = np.zeros(n, dtype='int64'), []; root = '/in/VRGridTile_Root'; disk, full_ = fn('on_disk', I, z3.BoolSort()), fn('has_points', I, z3.BoolSort()); sig = inspect.signature(bm.BaseStorage._load_tile)
    T = newarr(lambda i: There(z3.IntVal(0)), (ny, nx), 'object')
    class G(real_class(bm, cls)):
        def _load_grid(s): order.append(s.output_folder); s.tiles = T; s.sub_type = sub; s.storage_type = stored
        def _load_tile(s, *a, **k):
            b = sig.bind(s, *a, **k); b.apply_defaults(); b = b.arguments; p = b['flat_index']; ensure('points and layers are loaded', And(not b['only_points'], not b['only_grid'])); ensure('from the folder asked for', s.output_folder == '/in'); ensure('the grid is loaded first', order == ['/in']); loaded[p] = loaded[p] + 1; reachable('tile')
    class Below(There):
        klass = ('BathyGrid', 'BaseGrid', 'NumpyGrid', 'ZarrGrid'); kind = None
        def __init__(s, e=None): There.__init__(s, e if e is not None else C.fresh('sub')); object.__setattr__(s, 'from_', None); C.assume(s.e > 0)
        def set_name(s, v): i = place(root + '/' + v, lay, n, root); C.assume(s.e == i.e + 1)
        def load(s, folderpath=None): ensure('from the folder of the grid', folderpath == root); p = SNum(z3.simplify(s.e - 1)); loaded[p] = loaded[p] + 1; reachable('sub grid')
        @property
        def is_empty(s): return SBool(z3.Not(full_(s.e - 1)))
    for q, k in (('NumpyGrid', 'numpy'), ('ZarrGrid', 'zarr')): setattr(bm, q, type(q, (Below,), {}) if k == stored else None)
    bm.os.path.exists = lambda p: SBool(disk(place(p, lay, n, root).e))
    g = new(G, output_folder='', name='VRGridTile_Root' if sub == 'grid' else 'SRGrid_Root', tile_x_origin=xo, tile_y_origin=yo); at_ = lambda p: z3.If(z3.And(disk(p), full_(p)), p + 1, 0)
    one = lambda k: If(SBool(disk(zi(k))), 1, 0) if sub == 'grid' else SNum(z3.IntVal(1)); flat = lambda t: zi(SNum(lift(t[0])) * nx + SNum(lift(t[1])))
    loops.INV['*'] = lambda env, it: over(it, n) and loops.Inv(boxes=[(loaded, lambda k, t: If(SNum(zi(t[0])) < k, one(t[0]), 0))] + ([(T, lambda k, t: There(z3.If(flat(t) < k.e, at_(flat(t)), 0)))] if sub == 'grid' else []))
    reachable(); bm.BaseStorage.load(g, '/in'); i = index('any', n); ensure('every tile is loaded once', lambda: loaded[i] == one(i.e)); ensure('the grid is loaded', order == ['/in']); ensure('the grid is from then on the one in this folder', g.output_folder == '/in')
    if sub == 'grid': r, c = index('row', ny), index('col', nx); p = flat((r.e, c.e)); C.term(n, p); ensure('sub grids with points are at their places', lambda: SBool(T.get(r.e, c.e).e == at_(p)))
for c in BACK:
    for sub in ('srtile', 'grid'): contract([K + 'BaseStorage.load'], '%s: all tiles are loaded (%s)' % (c, sub))(lambda c=c, sub=sub: load_all(c, sub, 'numpy' if c == 'NumpyGrid' else 'zarr'))
# ------------------------------------------------------------------------------------------------ the whole stack, few tiles
def parts(q, k, off=0.0):
    """concrete places of k tiles in a row"""
    xo = newarr(lambda i: SNum(toreal(lift(i[1]))) * 1024 + off, (1, k), 'float64'); yo = newarr(lambda i: SNum(z3.RealVal(2048)), (1, k), 'float64'); return xo, yo
def fill(g, q, k, off=0.0):
    for n, v in gridattrs(q, 'some').items():
        if n not in ('name', 'sub_type', 'storage_type', 'output_folder'): setattr(g, n, v)
    g.tile_x_origin, g.tile_y_origin = parts(q, k, off); g.tiles = np.full((1, k), None, dtype=object); return g
def tile_(q, r):
    t = new(mod('tile').SRTile, **tileattrs(q, 'some')); contents(t, q + 'd', size(q + 'n', 1), r, lambda i: ('depth', 'density', 'vertical_uncertainty')); return t
def build(kind, q, r, where):
    """grid with tiles at the places in where: names of tiles, or of lists of tiles of sub grids"""
    mm, bm = mod('maingrid'), mod('backends'); g = fill(getattr(mm, kind)(), q, len(where)); sub = kind.startswith('VR')
    for i, w in enumerate(where):
        if w is None: continue
        if sub:
            s = getattr(bm, 'ZarrGrid' if 'Zarr' in kind else 'NumpyGrid')(); fill(s, q + 's%d' % i, len(w), off=512.0 * i); s.sub_type = 'srtile'; s.name = '{}_{}'.format(*g._tile_idx_to_origin_point(i)); g.tiles.flat[i] = s
            for j, v in enumerate(w):
                if v: s.tiles.flat[j] = tile_(q + v, r)
        else: g.tiles.flat[i] = tile_(q + w, r)
    return g
def state(g):
    a = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k in GRID for v in [getattr(g, k)]}; b = {k: frozen(getattr(g, k)) for k in GRIDARR}; l = []
    for i in range(g.tiles.size):
        t = g.tiles.flat[i]
        if t is None: l.append(None)
        elif hasattr(t, 'cells'): l.append(('tile', {k: getattr(t, k) for k in TILE}, snapshot(t)))
        else: l.append(('grid', state(t)))
    return a, b, l
def samestate(g, s, root=True):
    a, b, l = s
    for k in GRID: ensure('attribute %s of the %s' % (k, 'grid' if root else 'sub grid'), equal(getattr(g, k, 'missing'), a[k]))
    for k in GRIDARR: there(k, getattr(g, k, None), b[k])
    ensure('the places of the tiles', g.tiles.size == len(l))
    for i, w in enumerate(l):
        t = g.tiles.flat[i]; ensure('tiles where there were some, nothing where there were none', (t is None) == (w is None))
        if t is None or w is None: continue
        ensure('a tile of the kind that was saved', hasattr(t, 'cells') == (w[0] == 'tile'))
        if w[0] == 'tile': sametile(t, w[1]); sametiledata(t, w[2])
        else: samestate(t, w[1], False)
def stack(kind, old, new_):
    d = install('/g'); cm, mm = mod('convenience'), mod('maingrid'); cm.os.path.exists, cm.os.listdir, mm.os.makedirs = d.exists, d.listdir, d.makedirs; r = resolutions(1); reachable(); d.put('/g/readme', None); empties = lambda l: [None if isinstance(w, list) and not any(w) else w for w in l]
    if old is not None: works('saving the older one', lambda: build(kind, 'o', r, old).save('/g'))
    g = build(kind, 'n', r, new_); s = state(g); works('saving', lambda: g.save('/g')); h = works('loading', lambda: cm.load_grid('/g')); ensure('the kind of grid that was saved', type(h) is getattr(mm, kind)); s = (s[0], s[1], [None if isinstance(w, list) and not any(w) else q for w, q in zip(new_, s[2])]); samestate(h, s)
    ensure('it is the grid in this folder', h.output_folder == '/g'); ensure('sub grids are made as before', And(h.storage_class is g.storage_class, h.sub_type == g.sub_type)); samestate(g, s) if None not in s[2] else None
for kind in ('SRGrid', 'SRGridZarr'):
    for old, new_ in ((None, ['a', None, 'b']), (['a', 'b', None], [None, 'c', 'd'])): contract([K + 'BaseStorage.save', K + 'BaseStorage.load', 'bathygrid/convenience.py:load_grid', 'bathygrid/convenience.py:_validate_load_path'], '%s: saved over %s and loaded' % (kind, old), bounded='three tiles, one resolution')(lambda kind=kind, old=old, new_=new_: stack(kind, old, new_))
for kind in ('VRGridTile', 'VRGridTileZarr'):
    for old, new_ in ((None, [['a', None], None, [None, 'b']]), ([['a', 'b'], None, ['c', 'd'], ['x', 'y']], [None, ['e', None], [None, 'f'], [None, None]])): contract([K + 'BaseStorage.save', K + 'BaseStorage.load', 'bathygrid/convenience.py:load_grid', 'bathygrid/convenience.py:_validate_load_path'], '%s: saved over %s and loaded' % (kind, old), bounded='four sub grids of two tiles, one resolution')(lambda kind=kind, old=old, new_=new_: stack(kind, old, new_))
def subset(cls):
    """any of the layers"""
    d = install('/g'); tm = mod('tile'); lay = layout(); idx = index('tile', lay[0] * lay[1]); r = resolutions(1); g = tgrid(cls, arrays=lay); t = new(tm.SRTile, **tileattrs('', 'some')); reachable()
    contents(t, 'n', size('n', 1), r, lambda i: [l for l in LAYERS if C.decide(z3.Bool('has_' + l))]); s = snapshot(t)
    if not any(s['cells'][r[0]]): return
    works('saving', lambda: g._save_tile(t, idx)); u = reload(cls, lay, idx, None)
    if u is not None: sametiledata(u, s)
for c in BACK: contract(FN(c), '%s: tile, any of the layers' % c, bounded='one resolution')(lambda c=c: subset(c))
