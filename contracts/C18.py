from contract import *
CONTRACTS.clear()
T, B = 'bathygrid/tile.py:SRTile.', 'bathygrid/bgrid.py:BathyGrid.'
LAYERS = ['depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_ratio', 'hypothesis_count', 'x_slope', 'y_slope']
INT = ('density', 'hypothesis_count')
def tile_layer(layer, nodata, given):
    tm = mod('tile'); h, w = size('h', 1), size('w', 1); R = Real('R'); require(R > 0)
    a = array('layer', (h, w), 'int64' if layer in INT else 'float32', nan=layer not in INT); cells = loops.VDict({R: loops.VDict({layer: a})})
    class Tile_(tm.SRTile):
        is_empty = False
        def _run_slopes(s, resolution): pass
    t = new(Tile_, cells=cells, name='t', is_backscatter=layer == 'intensity', container=loops.VDict()); up = Bool('z_positive_up')
    r, c = index('r', h), index('c', w); before = a.get(r.e, c.e); i = (r.e, c.e); C.push(C.cells, i)
    nd = Real('nodata') if nodata else float('nan'); reachable()
    out = t.get_layers_by_name(layer, R if given else None, nodatavalue=nd, z_positive_up=up); reachable('after')
    ensure('the stored layer is not changed', lambda: same(t.cells[R][layer].get(r.e, c.e), before))
    if out is None: ensure('no answer only for a layer without data', lambda: isnan(before)); return
    v = out[r, c]; flip = layer == 'depth'
    want = If(up, -before, before) if flip else before
    if layer in INT: ensure('the stored value', lambda: same(v, before))
    elif nodata: ensure('the stored value, negated only for depth and only once, or the no data value', lambda: If(isnan(before), same(v, nd), same(v, want)))
    else: ensure('the stored value, negated only for depth and only once, or no data', lambda: If(isnan(before), isnan(v), same(v, want)))
    ensure('the shape of the layer', And(out.shape[0] == h, out.shape[1] == w))
for l in LAYERS:
    for nd, g in ((False, True), (True, False)):
        contract([T + 'get_layers_by_name'], 'tile layer %s, %s, resolution %s' % (l, 'no data value given' if nd else 'not a number as no data', 'given' if g else 'left out'))(lambda l=l, nd=nd, g=g: tile_layer(l, nd, g))
REFS = {'down': 'COMPOUNDCRS["x",VERTCRS["MLLW depth",CS[vertical,1],AXIS["depth (D)",down]]]', 'up': 'COMPOUNDCRS["x",VERTCRS["MLLW height",CS[vertical,1],AXIS["gravity-related height (H)",up],AXIS["height (h)",up]]]', 'none': None, 'ellipse': 'ellipse'}
def tile_data(ref, many):
    """grid level: exactly one of grid and tile flips"""
    bm = mod('bgrid'); calls = []; h, w = size('h', 1), size('w', 1); layers = ['depth', 'density', 'intensity']; A_ = {l: array('a_' + l, (h, w), 'float32', nan=True) for l in layers}; r, c_ = index('r', h), index('c', w); up = Bool('z_positive_up'); R = 1.0
    class Tile_:
        get_layers_by_name = spy(mod('tile').SRTile.get_layers_by_name, calls, lambda args: VList([A_[args['layer']]]) if many else A_[args['layer']])
        def get_geotransform(s, resolution): return [0.0, 1.0, 0.0, 0.0, 0.0, -1.0]
    t = Tile_(); g = new(bm.BathyGrid, vertical_reference=REFS[ref], tile_size=64.0, tiles={(0, 0): t}); nd = Real('nodata'); reachable()
    out = g.get_tile_data(0, 0, R, layers, nd, up)
    ensure('each layer is asked', set(c['layer'] for c in calls) == set(layers))
    for c in calls: ensure('the sign requested from the tile: positive up heights are flipped back for positive down', Iff(c['z_positive_up'], Not(up) if ref == 'up' else up))
    for c in calls: ensure('resolution and no data value are passed on', And(same(c['nodatavalue'], nd), c['resolution'] == R))
    ensure('the values of the tile are not changed any more', lambda: And(set(out[1]) == set(layers), *[same(out[1][l].get(r.e, c_.e), A_[l].get(r.e, c_.e)) for l in layers]))
for ref in REFS:
    for many in (False, True): contract([B + 'get_tile_data', B + 'positive_up'], 'tile data, vertical reference %s%s' % (ref, ', tile is a grid' if many else ''))(lambda ref=ref, many=many: tile_data(ref, many))
