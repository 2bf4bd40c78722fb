from contract import *
CONTRACTS.clear()
B = 'bathygrid/bgrid.py:BathyGrid.'
def trim(nl):
    bm = mod('bgrid'); h, w = size('h', 1), size('w', 1); L = [array('layer%d' % i, (h, w), 'float32', nan=True) for i in range(nl)]; asked = []; names = ['depth', 'vertical_uncertainty', 'density'][:nl]; nd, up, R = float('nan'), Bool('up'), Real('R')
    class Grid_(bm.BathyGrid):
        get_layers_by_name = spy(bm.BathyGrid.get_layers_by_name, asked, lambda a: VList(L))
    g = new(Grid_); r0, c0 = index('r0', h), index('c0', w); full = [a.snap() for a in L]
    require(notnan(L[0].get(r0.e, c0.e)))      # a layer without any value is refused by numpy (index error)
    reachable(); out = g.get_layers_trimmed(names, R, nd, up); data, lo, hi = out; (r1, c1), (r2, c2) = lo, hi; reachable('after')
    for v, d in ((r1, h), (c1, w), (r2 - 1, h), (c2 - 1, w)): C.term(d, zi(v))
    a = once(asked, 'get_layers_by_name'); ensure('layers, resolution and sign are passed on', And(a['layer'] == names, a['resolution'] == R, Iff(a['z_positive_up'], up)))
    ensure('the rectangle lies in the layer', And(r1 >= 0, c1 >= 0, r2 <= h, c2 <= w, r1 < r2, c1 < c2))
    r, c = index('r', h), index('c', w); ensure('every cell with data is in the rectangle', lambda: Implies(notnan(SNumOf(full[0]((r.e, c.e)))), And(r1 <= r, r < r2, c1 <= c, c < c2)))
    for nm, fix, n, other in (('first row', r1, w, 1), ('last row', r2 - 1, w, 1), ('first column', c1, h, 0), ('last column', c2 - 1, h, 0)):
        ensure('the rectangle is tight: %s has data' % nm, lambda: Exists(n, lambda k: notnan(full[0]((zi(fix), zi(k)) if other else (zi(k), zi(fix))))))
    i, j = index('i', r2 - r1), index('j', c2 - c1); C.term(h, zi(r1 + i)); C.term(w, zi(c1 + j))
    for q in range(nl):
        ensure('the trimmed layer has the size of the rectangle', And(data[q].shape[0] == r2 - r1, data[q].shape[1] == c2 - c1))
        ensure('the same rectangle of every layer, values unchanged', lambda: same(data[q][i, j], full[q]((zi(r1 + i), zi(c1 + j)))))
def SNumOf(v): return v if isinstance(v, SNum) else SNum(lift(v))
for n in (1, 2, 3): contract(B + 'get_layers_trimmed', 'trimmed rectangle, %d layer%s' % (n, 's' if n > 1 else ''))(lambda n=n: trim(n))
def coordinates(bounds, given):
    bm = mod('bgrid'); h, w = size('h', 1), size('w', 1); R = Real('R'); require(R > 0); x0, y0 = Real('min_x'), Real('min_y'); asked = []; box = (r0, c0), (r1, c1) = (size('r0'), size('c0')), (size('r1', 1), size('c1', 1)); require(And(r0 < r1, r1 <= h, c0 < c1, c1 <= w)); data = VList(['trimmed'])
    class Grid_(bm.BathyGrid):
        no_grid = False
        get_layers_trimmed = spy(bm.BathyGrid.get_layers_trimmed, asked, lambda a: (data, [r0, c0], [r1, c1]))
    g = new(Grid_, resolutions=VList([R]), min_x=x0, min_y=y0, max_x=x0 + w * R, max_y=y0 + h * R); nd = float('nan'); reachable()
    x, y, surfs, lo, hi = g.return_surf_xyz('depth', R if given else None, bounds, nd); a = once(asked, 'get_layers_trimmed')
    ensure('layer and resolution are passed on', And(a['layer'] == 'depth', a['resolution'] == R)); ensure('the trimmed layers and their place are returned', And(surfs is data, lo[0] == r0, lo[1] == c0, hi[0] == r1, hi[1] == c1))
    more = 1 if bounds else 0; half = 0 if bounds else R / 2
    ensure('one coordinate per column and row' + (' and one more' if bounds else ''), And(x.shape[0] == c1 - c0 + more, y.shape[0] == r1 - r0 + more))
    j, i = index('j', c1 - c0 + more), index('i', r1 - r0 + more); ensure('the coordinates are those of the columns and rows', lambda: And(x.get(j.e) == x0 + (c0 + j) * R + half, y.get(i.e) == y0 + (r0 + i) * R + half))
for bounds in (False, True):
    for given in (False, True): contract(B + 'return_surf_xyz', 'coordinates of the trimmed layers: %s, resolution %s' % ('cell boundaries' if bounds else 'cell centres', 'given' if given else 'left out'))(lambda bounds=bounds, given=given: coordinates(bounds, given))
@contract(B + 'return_surf_xyz', 'a grid of several resolutions is refused without a resolution')
def several():
    bm = mod('bgrid')
    class Grid_(bm.BathyGrid):
        no_grid = False
        get_layers_trimmed = lambda s, *a, **k: None
    g = new(Grid_, resolutions=VList([1.0, 2.0])); reachable(); v, e = raises(lambda: g.return_surf_xyz('depth')); ensure('refused', isinstance(e, ValueError))
