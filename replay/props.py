"""per property: gen(rng, i) -> case, run(case) raises Fail.  Oracles are written from the property statements."""
from core import *
P = {}
def prop(id):
    def d(c): P[id] = c; return c
    return d

def leafmap(g): return {(x, y): (t, o, i, s) for t, x, y, o, i, s in leafs(g)}

# ---------------------------------------------------------------------------------------------------- shared oracles
def chk_points(h, order=False):
    g, ref = h.g, h.ref
    L = leafmap(g)
    check(set(L) == set(ref.tiles), 'tiles with points: missing %s, unexpected %s', sorted(set(ref.tiles) - set(L))[:3], sorted(set(L) - set(ref.tiles))[:3])
    tot = 0
    for k, rt in ref.tiles.items():
        t, o, i, s = L[k]
        d = arr(t.data); e = rt.pts(); tot += len(e)
        check(d.dtype.names == e.dtype.names, 'tile %s fields %s, expected %s', k, d.dtype.names, e.dtype.names)
        a, b = d.tolist(), e.tolist()
        check(sorted(a) == sorted(b), 'tile %s holds %d points that differ from the %d points of its sources (extra %s, missing %s)', k, len(a), len(b),
              [p for p in a if p not in b][:2], [p for p in b if p not in a][:2])
        check((t.min_x, t.min_y, t.max_x, t.max_y) == (k[0], k[1], k[0] + s, k[1] + s), 'tile at %s has extents %s', k, (t.min_x, t.min_y, t.max_x, t.max_y))
        for p in a: check(k[0] <= p[0] < k[0] + s and k[1] <= p[1] < k[1] + s, 'point %s is stored in the tile at %s', p, k)
        check(t.points_count == len(b), 'tile %s points_count %s, %d points', k, t.points_count, len(b))
    check(g.points_count == tot, 'points_count %s, %d points in the sources', g.points_count, tot)
    check(list(g.container) == list(ref.sources) or set(g.container) == set(ref.sources), 'sources reported %s, expected %s', sorted(g.container), sorted(ref.sources))
    check(set(g.container_timestamp) == set(ref.sources), 'source time tags %s, expected %s', sorted(g.container_timestamp), sorted(ref.sources))
    nt = len({ref.parent(k) for k in ref.tiles})
    if ref.sources or g.number_of_tiles is not None:
        check((g.number_of_tiles or 0) == nt, 'number_of_tiles %s, %d tiles hold points', g.number_of_tiles, nt)
    check(g.is_empty == (not ref.tiles), 'is_empty %s', g.is_empty)
    if h.gp['kind'] == 'vr' and g.tiles is not None:
        for i, t in enumerate(g.tiles.flat):
            if t is None: continue
            k = (float(g.tile_x_origin.flat[i]), float(g.tile_y_origin.flat[i]))
            sub = [q for q in ref.tiles if ref.parent(q) == k]
            check(len(sub) > 0, 'subgrid at %s exists but holds no points', k)
            check(t.number_of_tiles == len(sub), 'subgrid %s number_of_tiles %s, expected %d', k, t.number_of_tiles, len(sub))
            names = {n for q in sub for n, _ in ref.tiles[q].src}
            check(set(t.container) == names, 'subgrid %s sources %s, expected %s', k, sorted(t.container), sorted(names))

def chk_extents(h):
    g, ref = h.g, h.ref
    if not ref.sources: return
    def one(g, T, ox, oy, pts):
        for lo, hi, o in ((g.min_x, g.max_x, ox), (g.min_y, g.max_y, oy)):
            check(float((lo - o) / T).is_integer() and float((hi - o) / T).is_integer(), 'extents %s..%s are not whole tiles of %s from origin %s', lo, hi, T, o)
        for px, py in pts:
            check(g.min_x <= px < g.max_x and g.min_y <= py < g.max_y, 'point %s outside extents x %s..%s y %s..%s', (px, py), g.min_x, g.max_x, g.min_y, g.max_y)
        nx, ny = int(round((g.max_x - g.min_x) / T)), int(round((g.max_y - g.min_y) / T))
        check(g.tile_x_origin.shape == (ny, nx) and g.tile_y_origin.shape == (ny, nx) and (g.tiles is None or g.tiles.shape == (ny, nx)),
              'tile arrays %s %s for %d rows, %d columns', g.tile_x_origin.shape, None if g.tiles is None else g.tiles.shape, ny, nx)
        ex, ey = g.min_x + T * np.arange(nx + 1), g.min_y + T * np.arange(ny + 1)
        check(np.array_equal(arr(g.tile_edges_x), ex) and np.array_equal(arr(g.tile_edges_y), ey), 'tile edges %s / %s', g.tile_edges_x, g.tile_edges_y)
        check((g.tile_x_origin == ex[None, :-1]).all() and (g.tile_y_origin == ey[:-1, None]).all(), 'tile origins are not the lattice of the extents')
        check(g.width == g.max_x - g.min_x and g.height == g.max_y - g.min_y and g.maximum_tiles == nx * ny, 'width/height/maximum_tiles %s %s %s', g.width, g.height, g.maximum_tiles)
        if g.tiles is not None:
            for i, t in enumerate(g.tiles.flat):
                if t is None: continue
                r, c = divmod(i, nx)
                check((t.min_x, t.min_y, t.max_x, t.max_y) == (ex[c], ey[r], ex[c + 1], ey[r + 1]), 'tile in row %d column %d has extents %s, position is %s', r, c,
                      (t.min_x, t.min_y, t.max_x, t.max_y), (ex[c], ey[r]))
    allp = [(float(p['x']), float(p['y'])) for s in ref.sources.values() for p in s]
    one(g, h.gp['tile'], h.gp.get('ox', 0), h.gp.get('oy', 0), allp)
    if h.gp['kind'] == 'vr' and g.tiles is not None:
        for t in g.tiles.flat:
            if t is not None: one(t, h.gp['sub'], t.min_x, t.min_y, [])

def chk_containers(h):
    L = leafmap(h.g)
    for k, rt in h.ref.tiles.items():
        if k not in L: raise Fail('tile at %s missing' % (k,))
        t, o, i, s = L[k]; d = arr(t.data)
        check(set(t.container) == {n for n, _ in rt.src}, 'tile %s sources %s, expected %s', k, sorted(t.container), sorted(n for n, _ in rt.src))
        cover = []
        for n, p in rt.src:
            a, b = t.container[n]
            check(0 <= a < b <= len(d), 'tile %s source %s range %s of %d points', k, n, (a, b), len(d))
            cover += list(range(a, b))
            check(d[a:b].tolist() == p.tolist(), 'tile %s: range %s of source %s does not select its points', k, (a, b), n)
        check(sorted(cover) == list(range(len(d))), 'tile %s source ranges %s do not partition %d points', k, dict(t.container), len(d))
        for r in t.cell_indices:
            ci = arr(t.cell_indices[r]); n = int(round(s / float(r)))
            check(ci.shape == d.shape, 'tile %s cell index of resolution %s has %s entries for %d points', k, r, ci.shape, len(d))
            for j in range(len(d)):
                e = cellof(d['y'][j], k[1], float(r)) * n + cellof(d['x'][j], k[0], float(r))
                check(ci[j] == e or ci[j] == -1, 'tile %s point %d has cell index %s, its cell is %s', k, j, ci[j], e)

def chk_tile_layers(h, only=None):
    L = leafmap(h.g)
    for k, rt in h.ref.tiles.items():
        if only is not None and k not in only: continue
        if k not in L: raise Fail('tile at %s missing' % (k,))
        t, o, i, s = L[k]
        check(set(map(float, t.cells)) == set(rt.snaps), 'tile %s has resolutions %s, expected %s', k, sorted(t.cells), sorted(rt.snaps))
        for r, (alg, pts) in rt.snaps.items():
            check_layers({l: arr(v) for l, v in t.cells[r].items()}, pts, k[0], k[1], s, r, alg, h.gp.get('bs'), 'tile %s resolution %s %s:' % (k, r, alg))
            n = int(round(s / r))
            check(np.array_equal(arr(t.cell_edges_x[r]), k[0] + r * np.arange(n + 1)) and np.array_equal(arr(t.cell_edges_y[r]), k[1] + r * np.arange(n + 1)), 'tile %s cell edges at %s', k, r)

def chk_source_query(h, rng, alg=None):
    """gridding one source uses exactly the points of that source; valid right after gridding"""
    for k, (t, o, i, s) in leafmap(h.g).items():
        rt = h.ref.tiles[k]
        for r in list(t.cells):
            ci = arr(t.cell_indices[r])
            if (ci == -1).any(): continue
            if rt.snaps.get(float(r)) is None: continue
            for n, p in rt.src:
                before = {l: arr(v).copy() for l, v in t.cells[r].items() if l in SAVED_LAYERS}
                with quiet(): got = t.get_layers_by_name(n, r)
                dk = 'intensity' if h.gp.get('bs') else 'depth'
                lay = {dk: got, 'density': arr(t.cells[r][n + '_density'])}
                q = p[['x', 'y', 'z']]
                check_layers(lay, np.array(q.tolist(), dtype=[('x', float), ('y', float), ('z', float)]), k[0], k[1], s, float(r), alg or t.algorithm, h.gp.get('bs'), 'tile %s source query %s:' % (k, n))
                for l, v in before.items():
                    check(np.array_equal(arr(t.cells[r][l]), v, equal_nan=True), 'tile %s: query of source %s changed layer %s', k, n, l)

def fill_for(layer, nd):
    if layer in ('density', 'hypothesis_count'):
        try: return int(np.float32(nd))
        except ValueError: return 0
    return np.float32(nd)

def tile_out(A, layer, nd, neg):
    """what reading the raw tile layer A should give: negated depth, NaN replaced"""
    A = A.astype(np.float64)
    if neg and layer == 'depth': A = -A
    f = fill_for(layer, nd)
    if not np.isnan(f): A = np.where(np.isnan(A), float(f), A)
    return A

def ref_mosaic(h, layer, r, nd, up):
    g = h.g; neg = bool(up) != bool(g.positive_up)
    out = np.full((int(round((g.max_y - g.min_y) / r)), int(round((g.max_x - g.min_x) / r))), float(fill_for(layer, nd)))
    has = False
    for (x, y), cells in raw(g).items():
        if r not in cells or layer not in cells[r]: continue
        A = cells[r][layer]
        if np.isnan(A.astype(float)).all(): continue
        has = True
        i, j = int(round((y - g.min_y) / r)), int(round((x - g.min_x) / r))
        out[i:i + A.shape[0], j:j + A.shape[1]] = tile_out(A, layer, nd, neg)
    return out if has else None

def same(a, b, what):
    check(a.shape == b.shape, '%s: shape %s, expected %s', what, a.shape, b.shape)
    a64 = a.astype(np.float64)
    bad = ~((a64 == b) | (np.isnan(a64) & np.isnan(b)))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Fail('%s: cell %s is %s, expected %s (%d cells differ)' % (what, i, a64[i], b[i], bad.sum()))

VREFS = [None, 'COMPOUND["depth (D)",down]', 'VERT["NOAA MLLW","height (h)",up]', 'EPSG:5866 MLLW depth']
UP = 'VERT["ell","gravity-related height (H)","height (h)",up]'
def gridded_case(rng, extra=True, **kw):
    up = rng.random() < 0.25
    vr = UP if up else rng.choice([None, 'depth (D)",down'])
    c = rnd_history(rng, nops=rng.choice([1, 2, 3, 4]), saves=rng.random() < .3, queries=False, final_grid=True, sign=-1 if up else 1,
                    kw=dict(vertical_reference=vr, crs=26910), **kw)
    if rng.random() < .15 and extra:    # points added after the last gridding: their tiles have no layers yet
        gp = c['grid']; ctr = (c['center'][0] + rng.choice([-1.5, 0, 1.5]) * gp['tile'], c['center'][1] + rng.choice([-1.5, 0, 2]) * gp['tile'])
        c['ops'].append(['add', 'late', rnd_pts(rng, gp, ctr, sign=-1 if up else 1), 'np', dict(vertical_reference=vr, crs=26910)])
    c['nd'] = rng.choice([float('nan'), float('nan'), float('nan'), -9999.0, 1000000.0, 0.0, 7.0])
    c['up'] = rng.random() < 0.5
    c['seed'] = rng.randrange(10 ** 6)
    return c
def run_hist(case, each=None):
    h = History(case)
    for op in case['ops']:
        k = h.apply(op)
        if each: each(h, k)
    return h
def layers_of(h):
    ls = ['intensity' if h.gp.get('bs') else 'depth', 'density']
    u = h.case.get('unc', 'vh')
    if 'v' in u: ls.append('vertical_uncertainty')
    if 'h' in u: ls.append('horizontal_uncertainty')
    return ls

# ------------------------------------------------------------------------------------------------------------- C01
@prop('C01')
class C01:
    def gen(rng, i):
        def edges():
            n = rng.choice([1, 1, 2, 3, 4, 7, 16]); s = rng.choice([0.0, -40.0, 1.5, 512000.0]); st = rng.choice([1.0, 0.5, 8.0, 1024.0])
            if rng.random() < 0.7: return [s + st * k for k in range(n + 1)]
            return sorted({round(s + rng.uniform(0, 10), 2) for _ in range(n + 1)} | {s - 1})
        ex, ey = edges(), edges()
        def pt(e):
            if rng.random() < 0.35: return rng.choice(e[:-1])
            if rng.random() < 0.2: return float(np.nextafter(rng.choice(e[1:]), -np.inf))
            return min(max(rng.uniform(e[0], e[-1]), e[0]), float(np.nextafter(e[-1], -np.inf)))
        n = rng.choice([0, 1, 2, 5, 17, 40])
        return dict(ex=ex, ey=ey, x=[pt(ex) for _ in range(n)], y=[pt(ey) for _ in range(n)], chunks=rng.choice([0, 0, 1, 2, 3, 7, 100]), ychunks=rng.choice([None, None, 1, 2, 5, 100]), uneven=rng.random() < .3)
    def run(c):
        ex, ey = np.array(c['ex']), np.array(c['ey']); x, y = np.array(c['x'], dtype=float), np.array(c['y'], dtype=float)
        if c['chunks'] and len(x):
            ch = lambda k, n: ((n - 1, 1),) if c.get('uneven') and n > 1 else k
            got = utilities.bin2d_with_indices(da.from_array(x, chunks=ch(c['chunks'], len(x))), da.from_array(y, chunks=c.get('ychunks') or ch(c['chunks'], len(x))), ex, ey)
        else: got = utilities.bin2d_with_indices(x, y, ex, ey)
        got = arr(got)
        check(got.shape == x.shape, 'result shape %s for %d points', got.shape, len(x))
        for k in range(len(x)):
            cx = max(j for j in range(len(ex) - 1) if ex[j] <= x[k]); cy = max(j for j in range(len(ey) - 1) if ey[j] <= y[k])
            check(got[k] == cy * (len(ex) - 1) + cx, 'point (%s, %s) has index %s, bin row %d column %d of %d columns', x[k], y[k], got[k], cy, cx, len(ex) - 1)
    def trivial(c): return len(c['x']) == 0

# ------------------------------------------------------------------------------------------------------- C02 / C03
class GridAlg:
    alg = None
    @classmethod
    def gen(cls, rng, i):
        if i % 40 == 7:
            return dict(mode='many', n=rng.choice([20000, 60000, 200001]), z=rng.choice([905.3, 6543.217, 123.4567, 9876.543]), spread=rng.choice([0, 0, 1.0]), two=rng.random() < .5, seed=rng.randrange(10 ** 9))
        if i % 2:
            gp = dict(kind='sr', backend='numpy', tile=16, disk=False, bs=rng.random() < .2, ox=0, oy=0)
            return dict(mode='tile', bs=gp['bs'], unc=rng.choice(['vh', 'vh', 'v', 'h', '']), f32=rng.random() < .3, size=16.0, origin=rng.choice([[0.0, 0.0], [-32.0, 512000.0], [0.5, -8.0]]),
                        rez=rng.choice([1.0, 2.0, 4.0, 8.0, 16.0]), n=rng.choice([1, 2, 3, 7, 20, 60, 150]), seed=rng.randrange(10 ** 9), zmode=rng.choice(['few', 'rand', 'const', 'neg', 'order', 'near']))
        return dict(mode='hist', **rnd_history(rng, nops=rng.choice([1, 2, 3]), algs=(cls.alg,), queries=False, saves=False, final_grid=True, dask=0.1))
    @classmethod
    def run(cls, c):
        if c['mode'] == 'hist':
            h = run_hist(c)
            chk_tile_layers(h, only=set(h.ref.tiles) if c['ops'][-1][5] == 'full' else getattr(h.ref, 'regridded', None)); return
        if c['mode'] == 'many':     # accumulated rounding errors stay below the precision of the layer
            r = np.random.RandomState(c['seed'] % 2 ** 31); d = mkpts([[0, 0, 0, 0, 0]], 'vh').repeat(c['n'])
            d['x'] = 1 + 8 * (np.arange(c['n']) % 2 if c['two'] else 0); d['y'] = 1; d['z'] = c['z'] + c['spread'] * r.rand(c['n']); d['tvu'] = .3 + .1 * r.rand(c['n']); d['thu'] = .7
            t = SRTile(0., 0., 16.)
            with quiet(): t.add_points(d.copy(), 'a'); t.grid(cls.alg, 8.)
            for col in ((0, 1) if c['two'] else (0,)):
                q = d[d['x'] == 1 + 8 * col]; red = (lambda a: math.fsum(a) / len(a)) if cls.alg == 'mean' else min
                for l, f in (('depth', 'z'), ('vertical_uncertainty', 'tvu'), ('horizontal_uncertainty', 'thu')):
                    if cls.alg != 'mean' and f != 'z': continue
                    e = red(q[f].tolist()); v = float(t.cells[8.][l][0, col])
                    check(abs(v - e) <= .00052 + 6.1e-8 * abs(e), '%s of %d points %s.. is %s, expected %s', l, len(q), q[f][:2].tolist(), v, e)
            return
        rng = random.Random(c['seed']); x0, y0 = c['origin']; pts = []
        for k in range(c['n']):
            px, py = x0 + rng.randrange(int(c['size'] * 4)) / 4, y0 + rng.randrange(int(c['size'] * 4)) / 4
            z = {'few': rng.choice([5., 6., 7.]), 'rand': round(rng.uniform(1, 500), 3), 'const': 9.0, 'neg': round(rng.uniform(-50, 50), 3), 'order': 100.0 - k, 'near': rng.choice([5., 6.]) + rng.choice([0, .004, .001, .0049])}[c['zmode']]
            pts.append([px, py, z, round(rng.uniform(.1, 5), 3), round(rng.uniform(.1, 5), 3)])
        d = mkpts(pts, c['unc'], c['f32'])
        def grid(d):
            t = SRTile(x0, y0, c['size'], c['bs'])
            with quiet(): t.add_points(d.copy(), 'a'); t.grid(cls.alg, c['rez'])
            return t
        t = grid(d)
        check_layers({l: arr(v) for l, v in t.cells[c['rez']].items()}, d, x0, y0, c['size'], c['rez'], cls.alg, c['bs'], 'tile:')
        p = list(range(len(d))); rng.shuffle(p); t2 = grid(d[p])
        check_layers({l: arr(v) for l, v in t2.cells[c['rez']].items()}, d, x0, y0, c['size'], c['rez'], cls.alg, c['bs'], 'same points in another order:')
@prop('C02')
class C02(GridAlg): alg = 'mean'
@prop('C03')
class C03(GridAlg): alg = 'shoalest'

# ------------------------------------------------------------------------------------------------------- C04 .. C08
@prop('C04')
class C04:
    def gen(rng, i):
        return rnd_history(rng, nops=rng.choice([3, 4, 6, 8, 10]), grid_ops=rng.random() < .2, queries=False, gp=rnd_grid(rng, origin=0.5, disk=.1))
    def run(c):
        def each(h, k):
            if k in ('add', 'remove', 'reload', 'save'): chk_extents(h)
            L = leafmap(h.g)
            check(set(L) == set(h.ref.tiles), 'tiles lost, duplicated or moved: missing %s, unexpected %s', sorted(set(h.ref.tiles) - set(L))[:3], sorted(set(L) - set(h.ref.tiles))[:3])
            for kk, rt in h.ref.tiles.items():
                d = arr(L[kk][0].data)
                check(sorted(d.tolist()) == sorted(rt.pts().tolist()), 'tile found at %s holds the points of another tile', kk)
        run_hist(c, each)
@prop('C05')
class C05:
    def gen(rng, i): return rnd_history(rng, nops=rng.choice([3, 5, 8, 10]), gp=rnd_grid(rng, disk=.2))
    def run(c): run_hist(c, lambda h, k: chk_points(h))
@prop('C06')
class C06:
    def gen(rng, i):
        if i % 2:
            return dict(rnd_history(rng, nops=rng.choice([4, 6, 9]), gp=rnd_grid(rng, disk=.15), final_grid=True, fixed_rez=rng.choice([1.0, 2.0, 4.0])), mode='hist')
        ops = []; 
        for k in range(rng.choice([3, 5, 8, 12])):
            r = rng.random()
            if r < .55: ops.append(['add', rng.choice('abcd'), [[rng.randrange(64) / 4, rng.randrange(64) / 4, round(rng.uniform(1, 50), 2), .5, .7] for _ in range(rng.choice([1, 2, 3, 6]))]])
            elif r < .75: ops.append(['remove', rng.choice('abcd')])
            elif r < .95: ops.append(['grid', rng.choice(['mean', 'mean', 'shoalest']), rng.choice([1.0, 2.0, 4.0])])
            else: ops.append(['tquery'])
        return dict(mode='tile', unc=rng.choice(['vh', '', 'v']), ops=ops)
    def run(c):
        if c['mode'] == 'hist':
            def each(h, k):
                chk_containers(h)
                if k == 'grid': chk_source_query(h, None)
            run_hist(c, each); return
        t = SRTile(0.0, 0.0, 16.0); src = []
        class H: pass
        for op in c['ops'] + [['grid', 'mean', 2.0]]:
            with quiet():
                if op[0] == 'add':
                    d = mkpts(op[2], c['unc']); t.add_points(d.copy(), op[1]); src = [s for s in src if s[0] != op[1]] + [(op[1], d)]
                elif op[0] == 'remove': t.remove_points(op[1]); src = [s for s in src if s[0] != op[1]]
                elif op[0] == 'grid' and src: t.grid(op[1], op[2])
                elif op[0] == 'tquery':
                    for r in list(t.cells): 
                        if src and t.cell_indices[r].min() >= 0: t.get_layers_by_name(src[0][0], r)
            if t.data is None: continue
            h = H(); h.g = None; h.gp = {}
            rt = RTile(0.0, 0.0, 16.0); rt.src = src
            if src:
                rt.snaps = {float(r): 1 for r in t.cells}
                h.ref = H(); h.ref.tiles = {(0.0, 0.0): rt}
                global leafmap
                old = leafmap
                try:
                    leafmap = lambda g: {(0.0, 0.0): (t, None, 0, 16.0)}
                    chk_containers(h)
                    if op[0] == 'grid': 
                        for r in list(t.cells):
                            if r != op[2]: rt.snaps.pop(float(r))
                        chk_source_query(h, None, op[1])
                finally: leafmap = old
            else: check(len(t.data) == 0 and not t.container, 'all sources removed, %d points and sources %s remain', len(t.data), t.container)
@prop('C07')
class C07:
    def gen(rng, i):
        if i % 3:
            ops = []; rs = rng.choice([[2.0], [2.0, 4.0], [1.0, 8.0], [4.0, 8.0, 16.0]]); alg = rng.choice(['mean', 'shoalest'])
            for k in range(rng.choice([4, 6, 9, 12])):
                r = rng.random()
                if r < .4: ops.append(['add', rng.choice('abcd'), [[rng.randrange(64) / 4, rng.randrange(64) / 4, round(rng.uniform(1, 50), 2), round(rng.uniform(.1, 3), 2), .7] for _ in range(rng.choice([1, 1, 2, 6]))]])
                elif r < .57: ops.append(['remove', rng.choice('abcd')])
                elif r < .6: ops.append(['clear'])
                elif r < .95: ops.append(['grid', alg if rng.random() < .85 else rng.choice(['mean', 'shoalest']), rng.choice(rs), rng.random() < .15])
                else: ops.append(['query', rng.choice(['a', 'b', 'x_slope'])])
            return dict(mode='tile', unc=rng.choice(['vh', 'vh', '', 'v']), ops=ops + [['grid', alg, q, False] for q in rs])
        return rnd_history(rng, nops=rng.choice([3, 5, 7, 9]), gp=rnd_grid(rng, disk=.3), final_grid=True, regrid=('full', 'full', 'update'), dask=.05)
    def run(c):
        if c.get('mode') == 'tile':
            t = SRTile(0.0, 0.0, 16.0); src = {}
            for op in c['ops']:
                with quiet():
                    if op[0] == 'add': d = mkpts(op[2], c['unc']); t.add_points(d.copy(), op[1]); src.pop(op[1], None); src[op[1]] = d
                    elif op[0] == 'remove': t.remove_points(op[1]); src.pop(op[1], None)
                    elif op[0] == 'clear': t.clear_points(); src.clear()
                    elif op[0] == 'query' and src:
                        for r in list(t.cells):
                            if assigned(t, r): t.get_layers_by_name(op[1], r)
                    elif op[0] == 'grid' and src: t.grid(op[1], op[2], clear_existing=op[3])
                if op[0] == 'grid' and src:
                    p = np.concatenate(list(src.values()))
                    check_layers({l: arr(v) for l, v in t.cells[op[2]].items()}, p, 0.0, 0.0, 16.0, op[2], op[1], False, 'tile after %s:' % [o[:2] if o[0] != 'grid' else o for o in c['ops'][:c['ops'].index(op) + 1]])
            return
        h = run_hist(c)
        chk_tile_layers(h, only=h.ref.regridded)
        for k, (t, o, i, s) in leafmap(h.g).items():        # against a fresh tile with the same points
            if k not in h.ref.regridded: continue
            r = h.ref.tiles[k].snaps and max(h.ref.tiles[k].snaps, key=lambda q: h.ref.tiles[k].snaps[q][1] is not None)
            r = c['ops'][-1][2]
            if r is None or float(r) not in t.cells: continue
            f = SRTile(k[0], k[1], s, h.gp.get('bs'))
            with quiet(): f.add_points(arr(t.data).copy(), 'x'); f.grid(h.ref.last[0], float(r))
            for l in f.cells[float(r)]:
                A, B = arr(t.cells[float(r)][l]), arr(f.cells[float(r)][l])
                check(A.dtype == B.dtype and np.allclose(A, B, rtol=1e-6, atol=0.0011, equal_nan=True), 'tile %s layer %s at %s differs from a fresh tile with the same points', k, l, r)
@prop('C08')
class C08:
    def gen(rng, i):
        c = rnd_history(rng, nops=rng.choice([3, 5, 7, 9]), gp=rnd_grid(rng, disk=.15), final_grid=True, regrid=('update', 'update', 'full'), dask=.3, queries=False)
        last = None
        for o in c['ops']:    # a full gridding at another resolution that keeps the old layers is out of scope
            if o[0] == 'grid':
                if o[5] == 'full' and (o[2] is None or o[2] != last): o[3] = True
                last = o[2]
        return c
    def run(c):
        mixed = []
        def each(h, k):
            if k != 'grid' or not h.ref.tiles: return
            alg, rez, clear, mode, regrid = h.ref.last
            now = raw(h.g)
            if clear: mixed.clear()
            # gridding in full at another resolution without clearing keeps the old layers: out of scope until the grid is cleared
            elif regrid != 'update': mixed.extend(kk for kk in h.ref.tiles if len(now.get(kk, ())) > 1)
            if regrid != 'update' and not clear: return
            chk_tile_layers(h)
            for kk in h.ref.tiles:
                if kk not in h.ref.regridded:
                    for r in h.before[kk]:
                        for l in h.before[kk][r]:
                            check(r in now[kk] and l in now[kk][r] and np.array_equal(now[kk][r][l], h.before[kk][r][l], equal_nan=True), 'unchanged tile %s layer %s was modified by the update', kk, l)
            if not mixed: check(list(map(float, h.g.resolutions)) == h.ref.resolutions, 'resolutions %s, tiles have %s', h.g.resolutions, h.ref.resolutions)
            check(list(h.returned) == list(h.g.resolutions), 'returned resolutions %s, grid has %s', h.returned, h.g.resolutions)
            for t, *_ in leafs(h.g): check(not t.point_count_changed, 'a tile is still marked as changed after gridding')
        run_hist(c, each)

# ------------------------------------------------------------------------------------------------------- C09 .. C12
def add_oddities(h, rng):
    """tiles that lack a layer or a resolution, as after gridding at different resolutions"""
    L = leafs(h.g)
    if rng.random() < .3 and len(L) > 1:
        t, x, y, o, i, s = rng.choice(L)
        for r in list(t.cells): t.cells[r].pop(rng.choice([l for l in list(t.cells[r])]) if rng.random() < .5 else 'none', None)
        for r in list(t.cells):
            if not t.cells[r]: t.cells.pop(r)
    if rng.random() < .3 and len(L) > 1:
        t, x, y, o, i, s = rng.choice(L)
        for r in list(t.cells):
            for l in ('vertical_uncertainty', 'horizontal_uncertainty', 'depth'):
                if l in t.cells[r] and rng.random() < .5: t.cells[r][l] = np.full_like(arr(t.cells[r][l]), np.nan)
@prop('C09')
class C09:
    def gen(rng, i): return gridded_case(rng)
    def run(c):
        h = run_hist(c); rng = random.Random(c['seed']); g = h.g
        ls = layers_of(h); nd, up = c['nd'], c['up']
        odd = rng.random() < .4
        if odd:   # a tile whose layer is all NaN: as if no cell had that uncertainty
            for t, *_ in leafs(g):
                for r in t.cells:
                    for l in ls[2:]:
                        if rng.random() < .3: t.cells[r][l] = np.full(arr(t.cells[r][l]).shape, np.nan, dtype=np.float32)
        for r in sorted({float(r) for t, *_ in leafs(g) for r in t.cells}):
            req = [l for l in ls if rng.random() < .7] or [ls[0]]
            rng.shuffle(req)
            with quiet(): got = g.get_layers_by_name(req if len(req) > 1 or rng.random() < .5 else req[0], r, nodatavalue=nd, z_positive_up=up)
            exp = [ref_mosaic(h, l, r, nd, up) for l in req]
            if all(e is None for e in exp): check(got is None, 'a layer without values should be None'); continue
            check(got is not None and len(got) == len(req), '%s layers returned for %d requested', None if got is None else len(got), len(req))
            for a, e, l in zip(got, exp, req):
                if e is None: e = np.full(a.shape, float(fill_for(l, nd)))
                same(a, e, 'layer %s of %s at %s nodata %s up %s' % (l, req, r, nd, up))
            if h.gp['kind'] == 'vr': continue
            with quiet(): tl = list(g.get_tiles_by_resolution(r, req, nodatavalue=nd, z_positive_up=up))
            T = leafs(g); check(len(tl) == len(T), '%d tiles returned, %d exist', len(tl), len(T))
            for (geo, col, row, cnt, data), (t, x, y, o, i, s) in zip(tl, T):
                if r not in t.cells: check(data == {}, 'tile without resolution returns data'); continue
                check(cnt == int(s / r), 'tile cell count %s', cnt)
                check((col, row) == (round((y - g.min_y) / r), round((x - g.min_x) / r)), 'tile %s has cell position %s', (x, y), (col, row))
                check(list(map(float, geo)) == [x, r, 0, y + s, 0, -r], 'tile %s geotransform %s', (x, y), geo)
                for l in req:
                    A = arr(t.cells[r][l])
                    if np.isnan(A.astype(float)).all(): check(l not in data, 'empty layer returned'); continue
                    same(data[l], tile_out(A, l, nd, bool(up) != bool(g.positive_up)), 'tile %s layer %s' % ((x, y), l))
@prop('C10')
class C10:
    def gen(rng, i): return gridded_case(rng)
    def run(c):
        h = run_hist(c); rng = random.Random(c['seed']); g = h.g; ls = layers_of(h); up = c['up']; nd = float('nan')
        for r in sorted({float(r) for t, *_ in leafs(g) for r in t.cells}):
            req = [ls[0]] + [l for l in ls[1:] if rng.random() < .6]
            full = [ref_mosaic(h, l, r, nd, up) for l in req]
            if full[0] is None: continue
            with quiet(): data, mn, mx = g.get_layers_trimmed(req, r, z_positive_up=up)
            ok = ~np.isnan(full[0]); rows, cols = np.nonzero(ok)
            box = [rows.min(), rows.max() + 1, cols.min(), cols.max() + 1]
            check(list(mn) == [box[0], box[2]] and list(mx) == [box[1], box[3]], 'trimmed box %s %s, data occupies %s', mn, mx, box)
            check(len(data) == len(req), '%d layers', len(data))
            for a, e, l in zip(data, full, req): same(a, e[box[0]:box[1], box[2]:box[3]], 'trimmed %s' % l)
            for cb in (True, False):
                with quiet(): x, y, surf, mn2, mx2 = g.return_surf_xyz(req, r, cb)
                check(list(mn2) == list(mn) and list(mx2) == list(mx), 'box of return_surf_xyz')
                off = 0 if cb else r / 2
                ex = g.min_x + r * np.arange(box[2], box[3] + (1 if cb else 0)) + off; ey = g.min_y + r * np.arange(box[0], box[1] + (1 if cb else 0)) + off
                check(len(x) == len(ex) and len(y) == len(ey), 'cell_boundaries=%s: %d x and %d y coordinates for %d columns and %d rows', cb, len(x), len(y), box[3] - box[2], box[1] - box[0])
                check(np.allclose(x, ex, rtol=0, atol=1e-6) and np.allclose(y, ey, rtol=0, atol=1e-6), 'cell_boundaries=%s coordinates x %s.. expected %s..', cb, x[:3], ex[:3])
                ref = [ref_mosaic(h, l, r, nd, False) for l in req]
                for a, e, l in zip(surf, ref, req): same(a, e[box[0]:box[1], box[2]:box[3]], 'surface %s' % l)
@prop('C11')
class C11:
    def gen(rng, i):
        c = gridded_case(rng, gp=rnd_grid(rng, kinds=('sr', 'vr'))); c['nq'] = rng.choice([1, 3, 10, 25]); c['form'] = rng.choice(['arr', 'arr', 'list', 'scalar', 'scalar', 'tuple', 'mixed'])
        if rng.random() < .3 and c['grid']['kind'] == 'sr':   # a second resolution next to the first
            leaf = c['grid']['tile']
            c['ops'].append(['grid', [o for o in c['ops'] if o[0] == 'grid'][-1][1], rng.choice([q for q in (1.0, 2.0, 4.0, 8.0) if q <= leaf]), False, 'depth', 'full'])
        return c
    def run(c):
        h = run_hist(c); rng = random.Random(c['seed']); g = h.g; ls = layers_of(h); R = raw(g); nd = c['nd']
        rezs = sorted(float(r) for r in g.resolutions)
        for layer in ls[:1] + rng.sample(ls[1:], 1):
            rez = rng.choice([None, None] + rezs)
            if len(rezs) > 1 and False: rez = None
            xs, ys = [], []
            for _ in range(c['nq']):
                m = rng.random(); k = rng.choice(sorted(R)); s = h.ref.leaf; rr = rng.choice(rezs)
                if m < .6:   # a populated cell, anywhere in it
                    pts = arr(leafmap(g)[k][0].data); p = pts[rng.randrange(len(pts))]
                    cx, cy = k[0] + cellof(p['x'], k[0], rr) * rr, k[1] + cellof(p['y'], k[1], rr) * rr
                    fx, fy = rng.choice([0, .5, .25, .9375]), rng.choice([0, .5, .75, .9375])
                    xs.append(cx + fx * rr); ys.append(cy + fy * rr)
                elif m < .85: xs.append(k[0] + rng.randrange(int(s * 4)) / 4); ys.append(k[1] + rng.randrange(int(s * 4)) / 4)
                else: xs.append(g.min_x + rng.uniform(-1.2, 2.2) * g.width); ys.append(g.min_y + rng.uniform(-1.2, 2.2) * g.height)
            exp = []
            for x, y in zip(xs, ys):
                v = None
                for q in ([rez] if rez else rezs):
                    key = h.ref.key(x, y)
                    cells = R.get(key, {}).get(q)
                    if cells is None or layer not in cells: continue
                    val = float(cells[layer][cellof(y, key[1], q), cellof(x, key[0], q)])
                    if layer == 'depth' and g.positive_up: val = -val
                    if math.isnan(val) or (layer == 'density' and val == 0): continue
                    v = val; break
                exp.append(v)
            anylayer = [q for q in ([rez] if rez else rezs) if not any(q in R[k] and layer in R[k][q] and not np.isnan(R[k][q][layer].astype(float)).all() for k in R)]
            if anylayer: continue    # a resolution without any value in the layer: reading it is not defined
            def ask(a, b):
                with quiet(): return g.layer_values_at_xy(a, b, layer, rez, nodatavalue=nd)
            if c['form'] == 'scalar':
                kinds = [float, float, np.float64, lambda q: np.int64(q) if q == int(q) else np.float64(q), lambda q: int(q) if q == int(q) else q, lambda q: np.float32(q) if np.float32(q) == q else q]
                got = [ask(rng.choice(kinds)(a), rng.choice(kinds)(b)) for a, b in zip(xs, ys)]
            elif c['form'] == 'tuple': got = ask(tuple(xs), tuple(ys))
            elif c['form'] == 'mixed': got = ask(rng.choice([tuple, list, np.array])(xs), rng.choice([tuple, list, np.array])(ys))
            elif c['form'] == 'list': got = ask(list(xs), list(ys))
            else: got = ask(np.array(xs), np.array(ys))
            check(len(got) == len(xs), '%d answers for %d locations', len(got), len(xs))
            amb = not math.isnan(nd) and layer != 'density' and any(np.any(np.float32(tile_out(cells[q][layer], layer, float('nan'), False)) == np.float32(nd)) for cells in R.values() for q in cells if layer in cells[q])
            for x, y, v, a in zip(xs, ys, exp, got):
                a = float(a)
                if v is None:
                    ok = a == np.float32(nd) or (math.isnan(a) and math.isnan(nd)) or (layer == 'density' and a == 0)
                    if layer == 'density' and not math.isnan(nd): ok = ok or a == float(int(nd))
                    check(ok, '%s at (%s, %s) rez %s: %s, no cell with data there (nodata %s)', layer, x, y, rez, a, nd)
                else:
                    if amb: continue
                    check(np.float32(v) == np.float32(a), '%s at (%s, %s) rez %s nodata %s: %s, the cell value is %s', layer, x, y, rez, nd, a, v)
def chunk_cells(h, r, layer):
    """{(row, col) of the mosaic: raw value} over existing tiles with this resolution and layer, and the tile rectangles"""
    g = h.g; vals = {}; rects = []
    for (x, y), cells in raw(g).items():
        if r not in cells: continue
        i, j = int(round((y - g.min_y) / r)), int(round((x - g.min_x) / r)); n = int(round(h.ref.leaf / r))
        rects.append((i, j, n))
    return rects
@prop('C12')
class C12:
    def gen(rng, i):
        gp = rnd_grid(rng); gp['tile'] = min(gp['tile'], 32)
        if gp['kind'] == 'vr': gp['sub'] = min(gp['sub'], gp['tile'] // 2)
        c = gridded_case(rng, gp=gp); c['maxdim'] = rng.choice([None, 0.5, 1, 1, 1.5, 2, 2, 2.5, 3, 4, 100]); c['gdal'] = rng.random() < .6
        return c
    def run(c):
        h = run_hist(c); rng = random.Random(c['seed']); g = h.g; ls = layers_of(h); nd, up = c['nd'], c['up']; T = h.gp['tile']
        md = None if c['maxdim'] is None else c['maxdim'] * T
        neg = bool(up) != bool(g.positive_up)
        for r in sorted({float(r) for t, *_ in leafs(g) for r in t.cells}):
            req = [l for l in ls if rng.random() < .7] or [ls[0]]; rng.shuffle(req)
            with quiet(): chunks = list(g.get_chunks_of_tiles(r, req if len(req) > 1 or rng.random() < .5 else req[0], nodatavalue=nd, z_positive_up=up, override_maximum_chunk_dimension=md, for_gdal=c['gdal']))
            R = raw(g)
            seen = {l: {} for l in req}
            H, W = int(round(g.height / r)), int(round(g.width / r))
            M = {l: ref_mosaic(h, l, r, nd, up) for l in req}
            covers = []
            for geo, maxd, data in chunks:
                geo = [float(v) for v in geo]
                check(geo[1] == r and geo[5] == -r and geo[2] == 0 and geo[4] == 0, 'geotransform %s', geo)
                check(list(data) == req, 'chunk layers %s, requested %s', list(data), req)
                for l in req:
                    A = data[l]
                    ras = A.T if c['gdal'] else np.flipud(A)         # north-up raster
                    check(max(ras.shape) * r <= max(T, md or 32768.0) + 1e-9, 'chunk of %s cells at %s m exceeds the maximum dimension %s', ras.shape, r, md)
                    check(abs(maxd - max(ras.shape) * r) < 1e-9, 'reported dimension %s of a chunk of %s cells at %s m', maxd, ras.shape, r)
                    i1 = (geo[3] - g.min_y) / r; j0 = (geo[0] - g.min_x) / r
                    check(i1.is_integer() and j0.is_integer(), 'chunk origin %s off the cell lattice', geo)
                    i0 = int(i1) - ras.shape[0]; j0 = int(j0)
                    check(i0 >= 0 and j0 >= 0 and int(i1) <= H and j0 + ras.shape[1] <= W, 'chunk outside the grid')
                    E = np.full((H, W), float(fill_for(l, nd))) if M[l] is None else M[l]
                    got = np.flipud(ras).astype(float)
                    if l in ('density', 'hypothesis_count'): check(np.issubdtype(ras.dtype, np.integer), 'density chunk has type %s', ras.dtype)
                    else: check(ras.dtype == np.float32, '%s chunk has type %s', l, ras.dtype)
                    sub = E[i0:int(i1), j0:j0 + ras.shape[1]]
                    own = np.zeros((H, W), dtype=bool)
                    # a cell of the rectangle either shows the true value or (tile of another chunk) no data
                    eqv = (got == sub) | (np.isnan(got) & np.isnan(sub))
                    fill = float(fill_for(l, nd)); isfill = (got == fill) | (np.isnan(got) & np.isnan(fill))
                    bad = ~(eqv | isfill)
                    if bad.any():
                        i, j = [int(v[0]) for v in np.nonzero(bad)]
                        raise Fail('chunk %s layer %s: position row %d col %d shows %s, the grid has %s (nodata %s)' % (geo, l, i + i0, j + j0, got[i, j], sub[i, j], fill))
                    cov = (eqv & ~isfill)
                    covers.append((l, i0, j0, cov))
            for l in req:
                if M[l] is None: continue
                n = np.zeros((H, W), dtype=int)
                for l2, i0, j0, cov in covers:
                    if l2 == l: n[i0:i0 + cov.shape[0], j0:j0 + cov.shape[1]] += cov
                fill = float(fill_for(l, nd)); has = ~((M[l] == fill) | (np.isnan(M[l]) & np.isnan(fill)))
                check((n[has] == 1).all(), 'layer %s at %s: %d data cells in no chunk, %d in several (maximum dimension %s)', l, r, int((n[has] == 0).sum()), int((n[has] > 1).sum()), md)

# ------------------------------------------------------------------------------------------------------- C13 / C14
ATTRS = ['min_y', 'min_x', 'max_y', 'max_x', 'min_time', 'max_time', 'width', 'height', 'origin_x', 'origin_y', 'container', 'maximum_tiles', 'number_of_tiles', 'can_grow', 'tile_size',
         'mean_depth', 'epsg', 'vertical_reference', 'resolutions', 'name', 'sub_type', 'subtile_size', 'storage_type', 'grid_algorithm', 'container_timestamp', 'grid_resolution', 'version', 'is_backscatter', 'grid_parameters']
def norm(v):
    if isinstance(v, (np.floating, np.integer)): v = v.item()
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {str(k): norm(x) for k, x in v.items()}
    return v
def state(g, attrs=True, tmp=False):
    s = {}
    if attrs:
        for a in ATTRS: s[a] = norm(getattr(g, a))
    s['class'] = type(g).__name__
    for a in ('tile_x_origin', 'tile_y_origin', 'tile_edges_x', 'tile_edges_y'): s[a] = norm(arr(getattr(g, a)).tolist()) if getattr(g, a) is not None else None
    s['tiles'] = {}
    for i, t in enumerate(g.tiles.flat if g.tiles is not None else []):
        if t is None: continue
        if isinstance(t, BathyGrid): s['tiles'][str(i)] = state(t, attrs); continue
        d = {}
        for a in ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height', 'name', 'algorithm', 'grid_parameters', 'point_count_changed', 'is_backscatter', 'container'): d[a] = norm(getattr(t, a))
        D = arr(t.data); d['data'] = (None if D is None else [str(D.dtype), D.tolist()])
        d['cells'] = {}
        for r in t.cells:
            d['cells'][str(float(r))] = {l: [str(arr(v).dtype), [[None if x != x else x for x in row] for row in arr(v).tolist()]] for l, v in t.cells[r].items() if l in SAVED_LAYERS}
            d['cells'][str(float(r))]['ex'] = arr(t.cell_edges_x[r]).tolist(); d['cells'][str(float(r))]['ey'] = arr(t.cell_edges_y[r]).tolist()
            ci = arr(t.cell_indices[r]); d['cells'][str(float(r))]['idx'] = ci.tolist()
        s['tiles'][str(i)] = d
    return s
def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b: return '%s/%s only in the %s' % (path, k, 'second' if k not in a else 'first')
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d: return d
        return None
    if a != b and not (isinstance(a, float) and isinstance(b, float) and a != a and b != b):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y: return diff(x, y, '%s[%d]' % (path, i)) or '%s[%d]: %r / %r' % (path, i, x, y)
        return '%s: %s / %s' % (path, repr(a)[:150], repr(b)[:150])
    return None
@prop('C13')
class C13:
    def gen(rng, i):
        gp = rnd_grid(rng, disk=.75); gp['tile'] = min(gp['tile'], 32)
        if gp['kind'] == 'vr': gp['sub'] = min(gp['sub'], gp['tile'] // 2)
        vr = rng.choice([None, None, UP, 'NOAA MLLW depth'])
        c = rnd_history(rng, nops=rng.choice([2, 3, 4, 6]), gp=gp, dask=.15, sign=-1 if vr == UP else 1,
                        kw=dict(vertical_reference=vr, crs=rng.choice([None, 26910]), min_time=rng.choice([None, 1600000000]), max_time=rng.choice([None, 1600000100.7]), file_list=rng.choice([None, ['a.all', 'b "q".all']])))
        for op in c['ops']:
            if op[0] == 'add': op[2] = op[2][:8]
        if not gp['disk']:
            c['ops'] = [o for o in c['ops'] if o[0] not in ('save', 'reload')]
            live = any(o[0] == 'add' for o in c['ops'])
            c['ops'] += [['save']]
            if rng.random() < .5:
                more = rnd_history(rng, nops=3, gp=dict(gp), center=c['center'], saves=False, sign=-1 if vr == UP else 1, kw=dict(vertical_reference=vr))['ops']
                c['ops'] += [o if o[0] not in ('add', 'remove') else [o[0], 'm' + o[1]] + o[2:] for o in more]
        return c
    def run(c):
        def each(h, k):
            g = h.g
            if not g.output_folder or not h.gp.get('disk') or k in ('tquery', 'slopes', 'query'): return
            root = os.path.join(g.output_folder, g.name)
            if not os.path.exists(os.path.join(root, 'metadata.json')): return
            with quiet(): l = convenience.load_grid(g.output_folder)
            if not h.ref.tiles:
                check(l.is_empty and l.points_count == 0 and set(l.container) == set(g.container), 'an emptied grid comes back with %d points, sources %s', l.points_count, list(l.container)); return
            d = diff(state(g), state(l))
            check(d is None, 'after %s the reloaded grid differs from the grid in memory: %s', k, d)
            h.g_loaded = l
        h = History(c)
        for op in c['ops']:
            k = h.apply(op)
            each(h, k)
        chk_points(h)
    def trivial(c): return not any(o[0] == 'save' for o in c['ops']) and not c['grid']['disk']
@prop('C14')
class C14:
    def gen(rng, i):
        gp = rnd_grid(rng, disk=.15); c = rnd_history(rng, nops=rng.choice([2, 3, 5]), gp=gp, final_grid=True, queries=False, regrid=('full', 'update'))
        c['workers'] = rng.choice([1, 2, 2, 3, 4, 8]); c['order'] = rng.randrange(1000)
        return c
    def run(c):
        st = []; rets = []
        for par in (False, True):
            ops = [(o[:6] + [c['workers'] if par else 0]) if o[0] == 'grid' else o for o in c['ops'] if o[0] not in ('save', 'reload')]
            h = History(dict(c, ops=ops)); r = []
            for o in ops:
                h.apply(o)
                if o[0] == 'grid' and h.ref.tiles: r.append([float(x) for x in h.returned])
            s = state(h.g)
            def strip(s):
                s.pop('container_timestamp', None)
                for t in s['tiles'].values():
                    if 'tiles' in t: strip(t)
            strip(s); st.append(s); rets.append(r)
            if h.gp['disk'] and h.ref.tiles:
                with quiet(): l = state(convenience.load_grid(h.g.output_folder))
                strip(l); check(diff(s, l) is None, '%s: saved data differs from memory: %s', 'parallel' if par else 'sequential', diff(s, l))
            for t, x, y, o, i, sz in leafs(h.g):
                check((t.min_x, t.min_y) == (x, y), 'tile of %s stored at %s', (t.min_x, t.min_y), (x, y))
        check(rets[0] == rets[1], 'resolutions sequential %s, parallel %s', rets[0], rets[1])
        d = diff(st[0], st[1])
        check(d is None, 'parallel gridding with %d workers differs from sequential: %s', c['workers'], d)

# ------------------------------------------------------------------------------------------------------------- C15
@prop('C15')
class C15:
    def gen(rng, i):
        m = rng.choice(['tile', 'tile', 'grid', 'vr'])
        sz = rng.choice([8, 16, 32, 64, 128, 1024]) if m == 'tile' else rng.choice([16, 32, 64])
        z = rng.choice([rng.uniform(0.5, 12), rng.choice([10, 20, 40, 60, 80, 160, 320, 640, 1280, 2560, 5120, 10240, 20480]) + rng.choice([-.5, -.002, 0, 0, .002, .5]), 0.0, rng.uniform(1, 400), rng.uniform(400, 30000)])
        n = rng.choice([1, 3, 10, 60, 400])
        return dict(m=m, size=sz, z=z, zspread=rng.choice([0, 0, 1, .3]), n=n, fill=rng.choice([.2, .7, .8, 1, 1]), seed=rng.randrange(10 ** 9), mode=rng.choice(['depth', 'density']), origin=rng.choice([0.0, -1024.0, 2048.0]), backend=rng.choice(['numpy', 'zarr']))
    def pts(c):
        rng = random.Random(c['seed']); out = []; s = c['size']
        for k in range(c['n']):
            f = c['fill']
            x = c['origin'] + rng.uniform(0, s * f * .999); y = c['origin'] + rng.uniform(0, s * .999)
            out.append([x, y, c['z'] * (1 + rng.uniform(-.5, .5) * c['zspread']), .1, .2])
        return out
    def run(c):
        pts = mkpts(C15.pts(c)); s = float(c['size']); allowed = sorted({float(r) for _, r in LOOKUP} | {s})
        mean = float(pts['z'].mean())
        exact = c['mode'] == 'depth' and c['zspread'] == 0 and c['z'] == int(c['z'])       # a mean that is exact in floating point may be on the limit of a band
        nb = not exact and min(abs(mean - k) for k, _ in LOOKUP) < 1e-3
        if c['m'] == 'tile':
            t = SRTile(c['origin'], c['origin'], s); t.add_points(pts.copy(), 'a')
            if c['mode'] == 'depth':
                got = t._calculate_resolution_lookup() if hasattr(t, '_calculate_resolution_lookup') else None
                if s <= 128:
                    with quiet(): got = t.grid('mean', None, auto_resolution_mode='depth')
                exp = lookup_rez(mean, s)
            else: got = t.resolution_by_density(); exp = density_rez(pts, c['origin'], c['origin'], s)
            check(got in allowed and got <= s, 'resolution %s not allowed (tile %s)', got, s)
            if not nb: check(float(got) == exp, '%s resolution %s, expected %s (mean depth %s, %d points, tile %s)', c['mode'], got, exp, mean, len(pts), s)
            # monotone: deeper water or fewer points never finer
            rng = random.Random(c['seed'] + 1)
            if c['mode'] == 'depth':
                q = pts.copy(); q['z'] = q['z'] * rng.choice([1.01, 1.5, 4]) + rng.choice([0, 1])
                t2 = SRTile(c['origin'], c['origin'], s); t2.add_points(q, 'a')
                if s <= 128:
                    with quiet(): g2 = t2.grid('mean', None)
                    check(g2 >= got, 'deeper water gives finer resolution %s than %s', g2, got)
            return
        gp = dict(kind='sr' if c['m'] == 'grid' else 'vr', backend=c['backend'], tile=c['size'], sub=c['size'] // 2, disk=False, bs=False, ox=0, oy=0)
        rng = random.Random(c['seed']); allp = C15.pts(c)
        allp += [[p[0] + 2 * s, p[1] - s, p[2] * rng.choice([1, 1, 3]) if not exact else p[2], .1, .2] for p in allp[:len(allp) // 2]]
        h = History(dict(grid=gp, ops=[])); h.apply(['add', 'a', allp]); 
        h.apply(['grid', 'mean', None, False, c['mode'], 'full', rng.choice([0, 0, 2])])
        for k, (t, o, i, sz) in leafmap(h.g).items():
            rt = h.ref.tiles[k]; mz = float(rt.pts()['z'].mean())
            if c['m'] == 'grid':
                if c['mode'] == 'depth':
                    M = h.g.mean_depth; exp = lookup_rez(M, s)
                    zz = h.ref.mean(); check(abs(M - zz) < .0006, 'mean depth %s, mean of the points %s', M, zz)
                    if not exact and min(abs(M - q) for q, _ in LOOKUP) < 1e-3: continue
                else: exp = max(density_rez(q.pts(), q.x, q.y, q.size) for q in h.ref.tiles.values())
            else:
                if not exact and min(abs(mz - q) for q, _ in LOOKUP) < 1e-3: continue
                exp = lookup_rez(mz, sz) if c['mode'] == 'depth' else density_rez(rt.pts(), rt.x, rt.y, rt.size)
            check([float(r) for r in t.cells] == [exp], 'tile %s gridded at %s, expected %s (%s mode, mean depth %s)', k, list(t.cells), exp, c['mode'], mz)

# ------------------------------------------------------------------------------------------------------------- C16
@prop('C16')
class C16:
    def gen(rng, i):
        gp = rnd_grid(rng, disk=.15); ops = []; names = rng.choice(['abcd', ['a__1', 'a__2', 'b__x', 'a']])
        refs = rng.choice([['A', 'A', 'B'], ['NOAA MLLW', 'ellipse', 'X MLLW depth'], ['MLLW depth', 'NOAA MLLW', 'mllw'], ['MLLW', 'MHW', 'MLLW x'], [None, 'A'], ['A', None], [UP, 'depth (D)",down']]); eps = rng.choice([[26910, 26910, 26911], [26910, '26910'], [26910, None], [None, 26910, 32610]])
        for k in range(rng.choice([2, 4, 6, 8])):
            r = rng.random()
            if r < .15: ops.append(['remove', rng.choice(names)]); continue
            bad = rng.choice([None] * 6 + ['noname', 'noy', 'list', 'nox', 'xr2d', 'xrnox'])
            t0 = rng.choice([None, 86399, 1600000000, 1600000000.9, 1583020799, 1700000123])
            ops.append(['add', rng.choice(names), rnd_pts(rng, gp, (0, 0), n=rng.choice([1, 3])), bad, dict(crs=rng.choice(eps), vertical_reference=rng.choice(refs), min_time=t0,
                        max_time=None if t0 is None else t0 + rng.choice([0, 1, 59.5, 4000, 86400]), file_list=rng.choice([None, ['l1', 'l2'], ['x']]))])
        return dict(grid=gp, ops=ops, form=rng.choice(['np', 'np', 'xr', 'dask']), tz=rng.choice(['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-9:30']))
    def run(c):
        import calendar, datetime, time
        os.environ['TZ'] = c['tz']; time.tzset()       # the machine may be in any time zone
        try: C16.body(c)
        finally: os.environ['TZ'] = 'UTC'; time.tzset()
    def body(c):
        import calendar, datetime
        with quiet(): g = make_grid(c['grid'])
        src = {}; epsg = None; vref = None; span = [None, None]
        def st():
            return dict(pts=sorted(map(tuple, [p for t, *_ in leafs(g) for p in arr(t.data).tolist()])), cont=dict(g.container), ts=dict(g.container_timestamp), epsg=g.epsg, vr=g.vertical_reference,
                        t=(g.min_time, g.max_time), ext=(g.min_x, g.min_y, g.max_x, g.max_y), n=g.number_of_tiles, md=g.mean_depth, data=g.data is None,
                        tiles=sorted((x, y) for t, x, y, *_ in leafs(g)), res=list(g.resolutions))
        for op in c['ops']:
            before = st()
            if op[0] == 'remove':
                with quiet(): g.remove_points(op[1], progress_bar=False)
                src.pop(op[1], None); continue
            _, name, pts, bad, kw = op
            d = mkpts(pts); inp = d
            if bad is None: inp = {'np': d, 'xr': xr.Dataset({f: (['s'], d[f]) for f in d.dtype.names}), 'dask': da.from_array(d)}[c['form']]
            elif bad == 'noname': inp = np.zeros((len(d), 3))
            elif bad == 'noy': inp = d[['x', 'z']].copy()
            elif bad == 'nox': inp = d[['y', 'z']].copy()
            elif bad == 'list': inp = [list(p) for p in pts]
            elif bad == 'xr2d': inp = xr.Dataset({'x': (['s'], d['x']), 'y': (['s'], d['y']), 'z': (['s', 'b'], np.stack([d['z']] * 2, 1))})
            elif bad == 'xrnox': inp = xr.Dataset({'y': (['s'], d['y']), 'z': (['s'], d['z'])})
            e, v = kw['crs'], kw['vertical_reference']
            refuse = name in src or bad is not None or (epsg and e and int(e) != epsg) or (vref and v != vref and not (v and 'MLLW' in v and 'MLLW' in vref))
            try:
                with quiet(): g.add_points(inp, name, progress_bar=False, **kw)
                ok = True; ex = None
            except Exception as x: ok = False; ex = x
            why = 'name %r crs %r (grid %r) vertical reference %r (grid %r) %s' % (name, e, epsg, v, vref, bad or '')
            check(ok == (not refuse), 'source with %s was %s%s', why, 'accepted' if ok else 'refused', '' if ok else ': %r' % (ex,))
            if not ok:
                a = st()
                for k in before: check(a[k] == before[k], 'refused source (%s) changed %s: %s -> %s', why, k, repr(before[k])[:100], repr(a[k])[:100])
                continue
            src[name] = kw['file_list'] or ['Unknown']
            if e: epsg = int(e)
            vref = v
            if kw['min_time']: span[0] = int(kw['min_time']) if span[0] is None else min(span[0], int(kw['min_time']))
            if kw['max_time']: span[1] = int(kw['max_time']) if span[1] is None else max(span[1], int(kw['max_time']))
            check(dict(g.container) == src, 'sources and files %s, expected %s', dict(g.container), src)
            check(g.epsg == epsg, 'coordinate system %s, expected %s', g.epsg, epsg)
            check(g.vertical_reference == vref, 'vertical reference %s, expected %s', g.vertical_reference, vref)
            for got, e2 in ((g.min_time, span[0]), (g.max_time, span[1])):
                s = None if not got else calendar.timegm(datetime.datetime.strptime(got, '%Y-%m-%dT%H:%M:%S').timetuple())
                check(s == e2, 'time span end %s (%s), expected %s', got, s, e2)

# ------------------------------------------------------------------------------------------------------------- C17
@prop('C17')
class C17:
    def gen(rng, i):
        return rnd_history(rng, nops=rng.choice([2, 4, 6]), gp=rnd_grid(rng, disk=.15), dask=.1, saves=rng.random() < .5, final_grid=rng.random() < .7, queries=False)
    def run(c):
        def each(h, k):
            g = h.g; R = raw(g); dk = 'intensity' if h.gp.get('bs') else 'depth'
            check(g.points_count == sum(len(arr(t.data)) for t, *_ in leafs(g)), 'points_count %s', g.points_count)
            zz = h.ref.mean(); check(abs(g.mean_depth - zz) <= (.00111 if h.gp['kind'] == 'vr' else .00061) + 1e-6 * abs(zz), 'mean depth %s, mean of all points %s', g.mean_depth, zz)
            def exp_of(cells):
                e = dict(cc={}, dc=[], dsm=[], dv=[], area=0.0, lay={})
                for cl in cells:
                    for r, L in cl.items():
                        e['cc'][r] = e['cc'].get(r, 0) + int((~np.isnan(L[dk])).sum())
                        m = L['density'] > 0; e['dc'] += L['density'][m].tolist(); e['dsm'] += (L['density'][m] / r ** 2).tolist()
                        if dk == 'depth': e['dv'] += L['depth'][m].tolist()
                        e['area'] += m.sum() * r ** 2
                        for l in L:
                            if l in SAVED_LAYERS: e['lay'].setdefault(l, []).extend((L[l][L[l] != 0] if l == 'density' else L[l][~np.isnan(L[l])]).tolist())
                return e
            def cmp(o, e, what):
                with quiet():
                    check({float(r): v for r, v in o.cell_count.items()} == e['cc'], '%s cell_count %s, expected %s', what, o.cell_count, e['cc'])
                    check(sorted(o.density_count) == sorted(e['dc']), '%s density_count %s.. expected %s..', what, sorted(o.density_count)[:6], sorted(e['dc'])[:6])
                    check(np.allclose(sorted(o.density_per_square_meter), sorted(e['dsm'])) if len(e['dsm']) == len(o.density_per_square_meter) else False, '%s density_per_square_meter', what)
                    if dk == 'depth':
                        a, b = o.density_count_vs_depth; check(sorted(zip(a, b)) == sorted(zip(e['dc'], e['dv'])), '%s density_count_vs_depth pairs', what)
                        a, b = o.density_per_square_meter_vs_depth; check(len(a) == len(b) == len(e['dsm']) and np.allclose(sorted(zip(a, b)), sorted(zip(e['dsm'], e['dv']))), '%s density_per_square_meter_vs_depth pairs', what)
                    check(abs(o.coverage_area_square_meters - e['area']) < 1e-6 * max(1, e['area']) + .0006 * max(1, len(R)), '%s coverage %s, expected %s', what, o.coverage_area_square_meters, e['area'])
                    check(abs(o.coverage_area_square_nm - e['area'] / 3434290.012) < 1e-6, '%s coverage nm', what)
                    for l in layers_of(h):
                        got = list(o.return_layer_values(l)); x = e['lay'].get(l, [])
                        check(sorted(map(float, got)) == sorted(map(float, x)), '%s layer values of %s: %d values, expected %d', what, l, len(got), len(x))
            cmp(g, exp_of(R.values()), 'grid')
            for t, x, y, *_ in leafs(g): cmp(t, exp_of([R[(x, y)]]), 'tile %s' % ((x, y),))
        h = History(c)
        for n, op in enumerate(c['ops']):
            k = h.apply(op)
            if n == len(c['ops']) - 1 or n % 3 == 1: each(h, k)

# ------------------------------------------------------------------------------------------------------------- C18
@prop('C18')
class C18:
    def gen(rng, i):
        c = gridded_case(rng); return c
    def run(c):
        h = run_hist(c); rng = random.Random(c['seed']); g = h.g; ls = layers_of(h); R = raw(g); T = leafs(g); pu = any(o[0] == 'add' and len(o) > 4 and o[4].get('vertical_reference') == UP for o in c['ops'])
        for nd in (c['nd'], float('nan'), -12.5):
            for up in (False, True):
                for r in sorted({float(q) for t, *_ in T for q in t.cells}):
                    for l in ls + (['x_slope', 'y_slope'] if len(T) < 6 and h.gp.get('kind') == 'sr' and not h.gp.get('bs') else []):
                        neg = (up != pu)
                        if l in ('x_slope', 'y_slope'):      # made on request: reading for export never changes their sign
                            for t, x, y, o, i, s in T:
                                if r not in t.cells: continue
                                with quiet():
                                    a, b = t.get_layers_by_name(l, r), t.get_layers_by_name(l, r, nodatavalue=nd, z_positive_up=up)
                                if a is not None: same(b, tile_out(arr(a), l, nd, False), 'tile %s layer %s up=%s nodata=%s' % ((x, y), l, up, nd))
                            continue
                        for t, x, y, o, i, s in T:
                            if r not in t.cells: continue
                            A = arr(t.cells[r][l])
                            with quiet(): a = t.get_layers_by_name(l, r, nodatavalue=nd, z_positive_up=up)
                            if a is None: check(np.isnan(A.astype(float)).all(), 'tile layer with data returned as None'); continue
                            same(a, tile_out(A, l, nd, up), 'tile %s layer %s up=%s nodata=%s' % ((x, y), l, up, nd))
                            check(np.array_equal(arr(t.cells[r][l]), A, equal_nan=True), 'reading layer %s changed the stored values', l)
                            if o is g:
                                row, col = divmod(i, g.tiles.shape[1])
                                with quiet(): _, d, *_2 = g.get_tile_data(row, col, r, [l], nd, up)
                                same(d[l], tile_out(A, l, nd, neg), 'get_tile_data %s layer %s up=%s positive up grid=%s' % ((x, y), l, up, pu))
                        with quiet(): m = g.get_layers_by_name(l, r, nodatavalue=nd, z_positive_up=up)
                        e = ref_mosaic(h, l, r, nd, up)
                        if e is not None: same(m[0], e, 'full layer %s up=%s positive up grid=%s nodata=%s' % (l, up, pu, nd))
                        with quiet(): ch = list(g.get_chunks_of_tiles(r, l, nodatavalue=nd, z_positive_up=up, for_gdal=False))
                        if e is not None:
                            fill = float(fill_for(l, nd))
                            a = sorted(v for _, _, d in ch for v in d[l].astype(float).ravel() if not (v == fill or (v != v and fill != fill)))
                            b = sorted(v for v in e.ravel() if not (v == fill or (v != v and fill != fill)))
                            check(a == b, 'chunks of %s up=%s positive up grid=%s nodata=%s: values differ from the full layer', l, up, pu, nd)

# ------------------------------------------------------------------------------------------------------------- C19
@prop('C19')
class C19:
    def gen(rng, i):
        gp = rnd_grid(rng, bs=.15); gp['tile'] = min(gp['tile'], 32)
        if gp['kind'] == 'vr': gp['sub'] = min(gp['sub'], gp['tile'] // 2)
        fr = rng.choice([None, 1.0, 2.0, 4.0, 0.25])
        if fr == 0.25:
            gp['tile'] = 4 if gp['kind'] == 'sr' else 8
            if gp['kind'] == 'vr': gp['sub'] = 4
        c = gridded_case(rng, gp=gp, fixed_rez=fr); c['fmt'] = rng.choice(['csv', 'geotiff']); c['maxdim'] = rng.choice([None, 1, 2, 2.5]); c['exists'] = rng.random() < .2
        c['onerez'] = rng.random() < .3; c['again'] = rng.random() < .3
        return c
    def run(c):
        h = run_hist(c); g = h.g; up = c['up']; rng = random.Random(c['seed']); T = h.gp['tile']
        if not g.resolutions: return
        out = newdir(); base = os.path.join(out, 'exp.csv' if c['fmt'] == 'csv' else 'exp.tif')
        if c['exists']:
            with open(base, 'w') as f: f.write('keep me')
        rez = rng.choice(g.resolutions) if c['onerez'] else None
        use = [rez] if rez else list(g.resolutions)
        dk = 'intensity' if h.gp.get('bs') else 'depth'
        if any(ref_mosaic(h, dk, float(r), float('nan'), False) is None for r in use): return
        # layer names come from the first tile: all tiles must have them
        with quiet():
            g.export(base, c['fmt'], z_positive_up=up, resolution=rez, override_maximum_chunk_dimension=None if c['maxdim'] is None else c['maxdim'] * T)
        files = sorted(os.listdir(out))
        if c.get('again'):
            before = {f: open(os.path.join(out, f), 'rb').read() for f in files}
            with quiet(): g.export(base, c['fmt'], z_positive_up=not up, resolution=rez, override_maximum_chunk_dimension=None if c['maxdim'] is None else c['maxdim'] * T)
            after = sorted(os.listdir(out))
            for f in files: check(f in after and open(os.path.join(out, f), 'rb').read() == before[f], 'file %s of the first export was overwritten by the second', f)
            check(len(after) == 2 * len(files) - (1 if c['exists'] else 0), 'two exports of %d files gave the files %s', len(files), after)
        if c['exists']:
            with open(base) as f: check(f.read() == 'keep me', 'existing file was overwritten')
            files.remove(os.path.basename(base))
            check(all(f.startswith('exp_') and f.split('_')[1].isdigit() and len(f.split('_')) >= 4 for f in files), 'files %s next to an existing file', files)
        if c['fmt'] == 'csv':
            check(len(files) == len(use), 'files %s for resolutions %s', files, use)
            for r in use:
                fn = [f for f in files if f.endswith('_%s.csv' % r)]; check(len(fn) == 1, 'no file for resolution %s in %s', r, files)
                rows = [l.split(' ') for l in open(os.path.join(out, fn[0])).read().strip().split('\n')]
                hdr, rows = rows[0], rows[1:]
                ls = g.return_layer_names(); M = {l: ref_mosaic(h, l, float(r), float('nan'), False) for l in ls if l in SAVED_LAYERS}
                ok = ~np.isnan(M[ls[0]]); rr, cc = np.nonzero(ok)
                b = [rr.min(), rr.max() + 1, cc.min(), cc.max() + 1]
                want = ['x', 'y'] + [('elevation' if (l == 'depth' and up) else l) for l in ls]
                check(hdr == want, 'csv columns %s, expected %s', hdr, want)
                check(len(rows) == (b[1] - b[0]) * (b[3] - b[2]), '%d csv lines for %d nodes', len(rows), (b[1] - b[0]) * (b[3] - b[2]))
                seen = set()
                # positive down grids are negated for elevation; positive up grids too, their layers are read as positive down
                # positive down values that are negative on average (heights without a vertical reference) are taken as they are
                neg = up and (g.mean_depth > 0 or g.positive_up)
                for row in rows:
                    x, y = float(row[0]), float(row[1])
                    i, j = int(math.floor((y - g.min_y) / r)), int(math.floor((x - g.min_x) / r))
                    check(abs(g.min_x + (j + .5) * r - x) < .0006 and abs(g.min_y + (i + .5) * r - y) < .0006, 'csv node %s is not a cell centre', (x, y))
                    check(b[0] <= i < b[1] and b[2] <= j < b[3] and (i, j) not in seen, 'csv node %s outside the data or repeated', (x, y)); seen.add((i, j))
                    for l, v in zip(ls, row[2:]):
                        e = M[l][i, j]
                        if l == 'depth' and neg: e = -e
                        v = float(v); check((v != v and e != e) or abs(v - e) < .0011, 'csv %s at %s is %s, the cell value is %s (positive up %s)', l, (x, y), v, e, up)
            return
        from osgeo import gdal
        lname = [l for l in layers_of(h) if l in ('depth', 'vertical_uncertainty', 'intensity')]
        if h.gp.get('bs'): lname = ['intensity']
        for r in use:
            fs = [f for f in files if '_%s_' % r in f]
            got = {l: np.full((int(round(g.height / r)), int(round(g.width / r))), np.nan) for l in lname}; n = {l: np.zeros(got[l].shape, int) for l in lname}
            for f in fs:
                ds = gdal.Open(os.path.join(out, f)); geo = ds.GetGeoTransform()
                check(ds.RasterCount == len(lname), '%d bands in %s, expected %s', ds.RasterCount, f, lname)
                for bi, l in enumerate(lname):
                    band = ds.GetRasterBand(bi + 1); A = band.ReadAsArray().astype(float)
                    want = {'depth': 'Elevation' if up else 'Depth', 'vertical_uncertainty': 'Vertical Uncertainty', 'intensity': 'Intensity'}[l]
                    check(band.GetDescription() == want, 'band %d of %s is called %s, expected %s', bi + 1, f, band.GetDescription(), want)
                    check(band.GetNoDataValue() == 1000000.0, 'no data value %s', band.GetNoDataValue())
                    i1, j0 = int(round((geo[3] - g.min_y) / r)), int(round((geo[0] - g.min_x) / r))
                    for p in range(A.shape[0]):
                        for q in range(A.shape[1]):
                            if A[p, q] != 1000000.0:
                                i, j = i1 - 1 - p, j0 + q
                                check(0 <= i < got[l].shape[0] and 0 <= j < got[l].shape[1], 'raster cell outside the grid')
                                got[l][i, j] = A[p, q]; n[l][i, j] += 1
                ds = None
            for l in lname:
                e = ref_mosaic(h, l, float(r), float('nan'), up)
                if e is None: e = np.full(got[l].shape, np.nan)
                same(got[l], e, 'raster layer %s at %s up=%s' % (l, r, up)); check((n[l] <= 1).all(), 'a cell is in two rasters')

# ------------------------------------------------------------------------------------------------------------- C20
def pow2(v):
    if v <= 0: return False
    m, e = math.frexp(v); return m == .5
@prop('C20')
class C20:
    def gen(rng, i):
        m = rng.choice(['pow', 'pow', 'create', 'create', 'folder', 'load'])
        if m == 'pow':
            v = rng.choice([rng.randrange(0, 5000), 2 ** rng.randrange(0, 30), 2.0 ** -rng.randrange(0, 12), 2.0 ** rng.randrange(0, 20), rng.randrange(1, 400) / 4, rng.randrange(1, 2000) / 1024, 1 / rng.randrange(1, 300), round(rng.uniform(0, 8), 3), 0, -1, -2.0, 0.3, 3 * 2 ** rng.randrange(0, 10)])
            return dict(m=m, v=v)
        if m == 'create':
            return dict(m=m, kind=rng.choice(['single_resolution', 'variable_resolution_tile'] * 3 + ['vr', '']), backend=rng.choice(['numpy', 'zarr'] * 3 + ['hdf', '']), tile=rng.choice([16, 32, 64.0, 1024, 24, 0.5, 48.5, 0, -16, 2.5, 33]), sub=rng.choice([4, 8, 16.0, 12, 0.5, 0, 3, -4]),
                        bs=rng.random() < .5, disk=rng.random() < .5, pts=rnd_pts(rng, dict(tile=16), (0, 0), n=3), rez=rng.choice([1.0, 2, 4.0, 3, 0.75, 1.5, 6.0, 0.3]))
        if m == 'folder': return dict(m=m, pre=rng.choice(['none', 'empty', 'file', 'file', 'grid', 'subdir']), file=rng.choice(['data.txt', '.hidden', '~', 'a b.tmp', 'SRGrid']), kind=rng.choice(['single_resolution', 'variable_resolution_tile']), backend=rng.choice(['numpy', 'zarr']))
        return dict(m=m, subs=rng.sample(['SRGrid_Root', 'VRGridTile_Root', 'SRGridZarr_Root', 'VRGridTileZarr_Root', 'other', 'SRGrid_Root_old'], rng.choice([0, 0, 1, 2, 2, 3])), real=rng.random() < .4, exists=rng.random() < .9, kind=rng.choice(['single_resolution', 'variable_resolution_tile']), backend=rng.choice(['numpy', 'zarr']), bs=rng.random() < .5)
    def run(c):
        CL = {('single_resolution', 'numpy'): SRGrid, ('single_resolution', 'zarr'): SRGridZarr, ('variable_resolution_tile', 'numpy'): VRGridTile, ('variable_resolution_tile', 'zarr'): VRGridTileZarr}
        st = {'numpy': backends.NumpyGrid, 'zarr': backends.ZarrGrid}
        if c['m'] == 'pow':
            v = c['v']
            try: got = bool(utilities.is_power_of_two(v))
            except Exception as e: raise Fail('is_power_of_two(%r) raised %r' % (v, e))
            check(got == pow2(v), 'is_power_of_two(%r) = %s', v, got); return
        if c['m'] == 'create':
            vr = c['kind'] == 'variable_resolution_tile'
            ok = c['kind'] in ('single_resolution', 'variable_resolution_tile') and c['backend'] in st and pow2(c['tile']) and (not vr or pow2(c['sub']))
            d = newdir(); f = os.path.join(d, 'g') if c['disk'] else ''
            try:
                with quiet(): g = convenience.create_grid(f, c['kind'], c['backend'], c['tile'], c['sub'], c['bs'])
                got = True
            except Exception as e: got = False
            check(got == ok, 'create_grid(%r, %r, tile %r, subtile %r) was %s', c['kind'], c['backend'], c['tile'], c['sub'], 'accepted' if got else 'refused')
            if not got: return
            def verify(g, what):
                check(type(g) is CL[(c['kind'], c['backend'])], '%s is a %s', what, type(g).__name__)
                check(g.storage_type == c['backend'] and g.tile_size == c['tile'] and bool(g.is_backscatter) == c['bs'], '%s storage %s tile size %s backscatter %s', what, g.storage_type, g.tile_size, g.is_backscatter)
                if vr: check(g.subtile_size == c['sub'], '%s subtile size %s', what, g.subtile_size)
                check(g.depth_key == ('intensity' if c['bs'] else 'depth'), '%s z layer %s', what, g.depth_key)
            verify(g, 'new grid'); check((g.output_folder or '') == f, 'output folder %s', g.output_folder)
            if c['tile'] < 4 or (vr and (c['sub'] > c['tile'] or c['sub'] < 1)): return
            with quiet(): g.add_points(mkpts(c['pts']), 'a', progress_bar=False)
            def tiles(g, what):
                for i, t in enumerate(g.tiles.flat):
                    if t is None: continue
                    if vr and isinstance(t, BathyGrid):
                        check(type(t) is st[c['backend']] and t.tile_size == c['sub'] and bool(t.is_backscatter) == c['bs'] and t.width == c['tile'], '%s: subgrid %s tile size %s backscatter %s', what, type(t).__name__, t.tile_size, t.is_backscatter)
                        L = [q for q in t.tiles.flat if q is not None]; z = c['sub']
                    else: check(not vr, '%s: variable resolution grid holds plain tiles', what); L = [t]; z = c['tile']
                    for q in L: check(type(q) is SRTile and q.width == z and q.max_x - q.min_x == z and bool(q.is_backscatter) == c['bs'], '%s: tile width %s backscatter %s', what, q.width, q.is_backscatter)
            tiles(g, 'grid')
            leaf = c['sub'] if vr else c['tile']
            r = float(c['rez'])
            if r <= leaf:
                try:
                    with quiet(): g.grid('mean', r, progress_bar=False)
                    got = True
                except Exception: got = False
                check(got == pow2(r), 'gridding at resolution %s was %s', r, 'accepted' if got else 'refused')
                if got:
                    for t, *_ in leafs(g):
                        check(('intensity' if c['bs'] else 'depth') in t.cells[r] and not ('depth' if c['bs'] else 'intensity') in t.cells[r], 'tile layers %s', list(t.cells[r]))
            if c['disk'] and (r > leaf or got):
                with quiet(): l = convenience.load_grid(f)
                verify(l, 'loaded grid'); tiles(l, 'loaded grid')
            return
        if c['m'] == 'folder':
            d = newdir(); f = os.path.join(d, 'g'); keep = None
            if c['pre'] != 'none': os.makedirs(f)
            if c['pre'] == 'file': keep = os.path.join(f, c.get('file', 'data.txt')); open(keep, 'w').write('x')
            if c['pre'] == 'subdir': os.makedirs(os.path.join(f, c['file']))
            if c['pre'] == 'grid':
                shutil.rmtree(f)
                with quiet(): g0 = convenience.create_grid(f, c['kind'], c['backend'], 16, 4); g0.add_points(mkpts([[1, 1, 5, .1, .1]]), 'a', progress_bar=False)
            def snap(): return sorted((os.path.join(a, x)) for a, _, fs in os.walk(f) for x in fs)
            b = snap() if os.path.exists(f) else []
            with quiet(): g = convenience.create_grid(f, c['kind'], c['backend'], 16, 4)
            if c['pre'] in ('none', 'empty'): check(os.path.realpath(g.output_folder) == os.path.realpath(f), 'new grid in %s', g.output_folder)
            else: check(os.path.realpath(g.output_folder) != os.path.realpath(f), 'a folder with contents was reused')
            with quiet(): g.add_points(mkpts([[20, 20, 5, .1, .1]]), 'b', progress_bar=False)
            if c['pre'] in ('file', 'grid'): check(snap() == b, 'contents of the existing folder changed')
            with quiet(): l = convenience.load_grid(g.output_folder)
            check(list(l.container) == ['b'], 'grid loaded from the new folder has sources %s', list(l.container)); return
        d = newdir(); f = os.path.join(d, 'g'); expect = 'refuse'
        if c['exists']:
            os.makedirs(f)
            for s in c['subs']: os.makedirs(os.path.join(f, s))
            if c['real'] and not [s for s in c['subs'] if s.endswith('_Root')]:
                shutil.rmtree(f)
                with quiet(): g = convenience.create_grid(f, c['kind'], c['backend'], 16, 4, c['bs']); g.add_points(mkpts([[1, 1, 5, .1, .1]]), 'a', progress_bar=False)
                for s in c['subs']: os.makedirs(os.path.join(f, s), exist_ok=True)
                expect = 'load'
        check(convenience.is_bathygrid(f) == (c['exists'] and (expect == 'load' or any(s in ('SRGrid_Root', 'VRGridTile_Root', 'SRGridZarr_Root', 'VRGridTileZarr_Root') for s in c['subs']))), 'is_bathygrid %s', c)
        try:
            with quiet(): l = convenience.load_grid(f)
            got = 'load'
        except Exception as e: got = 'refuse'
        check(got == expect, 'folder with %s: %s', c['subs'], got)
        if got == 'load': check(type(l) is CL[(c['kind'], c['backend'])] and l.points_count == 1 and bool(l.is_backscatter) == c['bs'], 'loaded a %s with %d points', type(l).__name__, l.points_count)

# ------------------------------------------------------------------------------------------------------------- C21
@prop('C21')
class C21:
    def gen(rng, i):
        gp = rnd_grid(rng, disk=.1); ops = [['add', 'a', rnd_pts(rng, gp, (0, 0), n=rng.choice([5, 15, 40]), span=rng.choice([1, 2, 3]) * gp['tile'])]]
        if rng.random() < .5: ops.append(['add', 'b', rnd_pts(rng, gp, (gp['tile'], -gp['tile']))])
        if rng.random() < .3: ops.append(['remove', 'a'] if len(ops) > 1 else ['query'])
        return dict(grid=gp, unc=rng.choice(['vh', '']), ops=ops, buf=rng.choice([0, 1, .5, 2, 0.1 * gp['tile'], .5 * gp['tile'], gp['tile'], 3 * gp['tile']]))
    def run(c):
        h = run_hist(c); b = c['buf']
        def one(g):
            R, C = g.tiles.shape
            for i, t in enumerate(g.tiles.flat):
                if t is None: continue
                r, q = divmod(i, C)
                pos = [(r - 1, q), (r, q + 1), (r + 1, q), (r, q - 1)]
                exp = [g.tiles[a, e] if 0 <= a < R and 0 <= e < C else None for a, e in pos]
                got = g.get_tile_neighbors(t)
                check(len(got) == 4 and all(x is y for x, y in zip(got, exp)), 'neighbors of the tile in row %d column %d are %s, expected %s', r, q,
                      [getattr(x, 'name', None) for x in got], [getattr(x, 'name', None) for x in exp])
                pts = []
                for n, s in zip(exp, 'urdl'):
                    if n is None: continue
                    for k in ([n] if isinstance(n, Tile) else [x for x in n.tiles.flat if x is not None]):
                        d = arr(k.data)
                        for p in d:
                            dist = {'u': t.min_y - p['y'], 'd': p['y'] - t.max_y, 'r': p['x'] - t.max_x, 'l': t.min_x - p['x']}[s]
                            if dist <= b: pts.append(p.tolist())
                with quiet(): got = g.get_tile_neighbor_points(t, b)
                gl = [] if got is None else arr(got).tolist()
                check(sorted(gl) == sorted(pts), 'neighbor points of tile row %d column %d within %s: %d points, expected %d (extra %s, missing %s)', r, q, b, len(gl), len(pts),
                      [p for p in gl if p not in pts][:2], [p for p in pts if p not in gl][:2])
        if h.g.tiles is None: return
        one(h.g)
        if h.gp['kind'] == 'vr':
            for t in h.g.tiles.flat:
                if t is not None: one(t)

# ------------------------------------------------------------------------------------------------------------- C22
@prop('C22')
class C22:
    def gen(rng, i):
        c = rnd_history(rng, nops=rng.choice([1, 3, 5, 7]), gp=rnd_grid(rng, disk=.1), final_grid=True, fixed_rez=rng.choice([2.0, 4.0]), regrid=('full', 'update'))
        for o in c['ops']:
            if o[0] == 'add': o[2] = [[p[0], p[1], round(10 + .01 * (i % 7) + .05 * (p[0] % 8) - .03 * (p[1] % 8), 3), p[3], p[4]] for i, p in enumerate(o[2])]
        c['f32'] = False
        k = rng.randrange(1, len(c['ops']) + 1)
        c['ops'].insert(k, ['slopes'])
        c['plane'] = [rng.choice([0, .5, -.25, 1.5]), rng.choice([0, 1, -.5]), rng.choice([5, 20])]
        c['seed'] = rng.randrange(10 ** 9)
        c['corner'] = rng.choice([[0, 0], [-64, 128], [500000, 4500000], [300000, 9990000]]); c['dense'] = rng.choice([0, 0, 300, 1500])
        return c
    def run(c):
        rng = random.Random(c['seed']); a, b, z0 = c['plane']      # exact planes per cell, different in every cell
        n, r = 4, 4.0; pts = []; planes = {}; X0, Y0 = c.get('corner', [0, 0]); dense = c.get('dense', 0)
        for i in range(n):
            for j in range(n):
                if rng.random() < .3: continue
                pa, pb = a + .125 * i, b - .25 * j; planes[(i, j)] = (pa, pb)
                used = [(j * r + .5, i * r + .5), (j * r + 3.5, i * r + .5), (j * r + .5, i * r + 3.5)] + [(j * r + rng.randrange(16) / 4, i * r + rng.randrange(16) / 4) for _ in range(dense or rng.randrange(4))]; dense = 0
                pts += [[x, y, z0 + pa * x + pb * y, .1, .1] for x, y in used]
        rng.shuffle(pts)
        if pts:
            d = mkpts(pts); e = np.arange(n + 1) * r
            ci = np.array([int(p['y'] // r) * n + int(p['x'] // r) for p in d])
            sx, sy = algorithms.calculate_slopes(d['x'] + X0, d['y'] + Y0, d['z'], ci, e + X0, e + Y0)
            check(sx.shape == (n, n) and sy.shape == (n, n), 'slope shape %s', sx.shape)
            for i in range(n):
                for j in range(n):
                    if (i, j) in planes: check(abs(sx[i, j] - planes[(i, j)][0]) < 1e-3 and abs(sy[i, j] - planes[(i, j)][1]) < 1e-3, 'cell %s slopes %s %s, its points lie on a plane with %s', (i, j), sx[i, j], sy[i, j], planes[(i, j)])
                    else: check(np.isnan(sx[i, j]) and np.isnan(sy[i, j]), 'cell %s without points has slopes %s %s', (i, j), sx[i, j], sy[i, j])
        def chk(h):
            for k, (t, o, i, s) in leafmap(h.g).items():
                for r in list(t.cells):
                    ci = arr(t.cell_indices[r])
                    if (ci == -1).any(): continue
                    d = arr(t.data); nn = int(round(s / r)); groups = {}
                    for q in range(len(d)): groups.setdefault((cellof(d['y'][q], k[1], r), cellof(d['x'][q], k[0], r)), []).append(q)
                    with quiet(): sx = t.get_layers_by_name('x_slope', r); sy = t.get_layers_by_name('y_slope', r)
                    has = np.zeros((nn, nn), bool)
                    for cc in groups: has[cc] = True
                    for got, nm in ((sx, 'x'), (sy, 'y')):
                        check(got.shape == (nn, nn), 'slope shape')
                        check((~np.isnan(got) == has).all(), 'tile %s %s slope: cells with values differ from cells with points', k, nm)
                    for cc, ix in groups.items():       # relative to the cell, where the fit is well conditioned
                        x, y, z = d['x'][ix].astype(float) - k[0] - cc[1] * r, d['y'][ix].astype(float) - k[1] - cc[0] * r, d['z'][ix].astype(float); A = np.column_stack([x, y, np.ones(len(ix))]); f, _, rank, sv = np.linalg.lstsq(A, z, rcond=None)
                        ga, gb = float(sx[cc]), float(sy[cc]); left = z - ga * x - gb * y; left = left - left.mean(); best = z - A @ f; tol = 1e-3 * (1 + (abs(ga) + abs(gb)) * r)
                        check(np.sqrt((left ** 2).mean()) <= np.sqrt((best ** 2).mean()) + tol, 'tile %s slopes of cell %s are %s %s: the plane misses its points by %s, the least squares plane by %s', k, cc, ga, gb, np.sqrt((left ** 2).mean()), np.sqrt((best ** 2).mean()))
                        if rank == 3 and sv[2] > 1e-2 * sv[0]: check(abs(ga - f[0]) <= 1e-3 * max(1, abs(f[0])) and abs(gb - f[1]) <= 1e-3 * max(1, abs(f[1])), 'tile %s slopes of cell %s are %s %s, least squares gives %s %s', k, cc, ga, gb, f[0], f[1])
        h = History(c)
        for op in c['ops']:
            kk = h.apply(op)
            if kk in ('slopes', 'grid'): chk(h)
