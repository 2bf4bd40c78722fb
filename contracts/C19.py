from loopkit import *
import re
CONTRACTS.clear()
B, U = 'bathygrid/bgrid.py:OperationalGrid.', 'bathygrid/utilities.py:'
# ------------------------------------------------------------------------------------------------ csv
class Asked:
    """trimmed layers of every resolution (contract of return_surf_xyz, C10), arbitrary sizes and values"""
    def __init__(s, names, one):
        s.names = list(names); s.R = fn('resolution_at', I, z3.RealSort()); s.X = fn('x_of_column', I, I, z3.RealSort()); s.Y = fn('y_of_row', I, I, z3.RealSort()); s.NX = fn('columns', I, I); s.NY = fn('rows', I, I)
        s.V = {l: fn('value_' + l, I, I, I, z3.RealSort()) for l in names}; s.N = {l: fn('no_value_' + l, I, I, I, z3.BoolSort()) for l in names}; s.k = None; s.lines = None
    def val(s, l, k, i, j): return SNum(s.V[l](k, zi(i), zi(j)), s.N[l](k, zi(i), zi(j)))
    def method(s, cls):
        sig = inspect.signature(cls.return_surf_xyz)
        def return_surf_xyz(g, *a, **kw):
            b = sig.bind(g, *a, **kw); b.apply_defaults(); b = b.arguments; e = z3.simplify(lift(b['resolution']))
            if e.num_args() != 1 or not e.decl().eq(s.R(0).decl()): raise Unsupported('another resolution is asked')
            k = e.arg(0); nx, ny = SNum(s.NX(k)), SNum(s.NY(k)); C.assume(z3.And(nx.e >= 1, ny.e >= 1)); s.k = k
            ensure('node coordinates are asked, without another no data value', And(b['cell_boundaries'] is False, isnan(b['nodatavalue']) if isinstance(b['nodatavalue'], SNum) else b['nodatavalue'] != b['nodatavalue']))
            ls = [b['layer']] if isinstance(b['layer'], str) else list(b['layer']); lay = VList(newarr(lambda q, l=l: s.val(l, k, q[0], q[1]), (ny, nx), 'float32') for l in ls)
            return newarr(lambda q: SNum(s.X(k, zi(q[0]))), (nx,), 'float64'), newarr(lambda q: SNum(s.Y(k, zi(q[0]))), (ny,), 'float64'), lay[0] if isinstance(b['layer'], str) else lay, VList([0, 0]), VList([1, 1])
        return return_surf_xyz
def csv(names, given, many=None):
    bm = mod('bgrid'); A = Asked(names, given); m = size('resolutions', 1) if many is None else many; up, pu = Bool('z_positive_up'), Bool('positive_up'); mean = Real('mean_depth'); written = np.zeros(m, dtype="int64"); depth = 'depth' in names; want = Or(mean > 0, pu)
    class Grid_(bm.OperationalGrid):
        return_surf_xyz = A.method(bm.BathyGrid); return_layer_names = lambda g: VList(names); positive_up = pu
    C.forall([m] if many is None else [], lambda *k: C.assume(z3.And(*[z3.And(A.R(q) > 0) for q in k])))
    rez = SymSeq(m, lambda k: SNum(A.R(zi(k)))) if many is None else VList(SNum(A.R(z3.IntVal(q))) for q in range(many))
    g = new(Grid_, resolutions=rez, mean_depth=mean); sg = {'fname': 0, 'X': 1, 'fmt': '%.18e', 'delimiter': ' ', 'newline': '\n', 'header': '', 'footer': '', 'comments': '# '}
    def savetxt(*a, **kw):
        b = dict(zip(sg, a)); b.update(kw); b = {**{q: v for q, v in sg.items() if isinstance(v, str)}, **b}
        if set(b) - set(sg) or A.k is None or not isinstance(b['X'], SArr): raise Unsupported('savetxt is called in another way')
        k, o = A.k, b['X']; nx, ny = SNum(A.NX(k)), SNum(A.NY(k)); text = '{}'.format(SNum(A.R(k)))
        ensure('a file of its own per resolution', b['fname'] == '/out/exp_%s.csv' % text)
        ensure('one line per node', And(o.shape[0] == nx * ny, len(o.shape) == 2, SBool(lift(o.shape[1]) == 2 + len(names))))
        cols = b['header'].split(b['delimiter']); ensure('every column is named', And(b['comments'] == '', b['newline'] == '\n', b['footer'] == '', len(cols) == 2 + len(names), cols[:2] == ['x', 'y'], sorted(q for q in cols[2:] if q != 'elevation') == sorted(q for q in names if q != 'depth' or 'elevation' not in cols)))
        if len(cols) != 2 + len(names): return
        if depth: ensure('elevation when positive up is requested, else depth', Iff(up, 'elevation' in cols))
        f = [b['fmt']] * len(cols) if isinstance(b['fmt'], str) else list(b['fmt'])
        if not all(isinstance(q, str) and re.fullmatch(r'%(i|d|\.\d+[fg])', q) for q in f): raise Unsupported('another format of the columns')
        ensure('three decimals, density as whole number', And(len(f) == len(cols), *[(l == 'density' and q[1] in 'id') or (q[-1] == 'f' and int(q[2:-1]) >= 3) for l, q in zip(cols, f)]))
        i, j, q = index('row', ny), index('column', nx), index('line', o.shape[0]); p = i * nx + j; C.term(nx * ny, p.e); C.term(o.shape[0], p.e)
        def cell(line, r, c):
            """the line holds the node at row r and column c: its coordinates and its values of all layers"""
            out = []
            for p, l in enumerate(cols):
                v = o[line, p]; L = 'depth' if l == 'elevation' else l
                w = SNum(A.X(k, zi(c))) if l == 'x' else SNum(A.Y(k, zi(r))) if l == 'y' else A.val(L, k, r, c)
                if l == 'elevation': w = ite(zb(want), -w, w)
                out.append(zb(same(v, w)))
            return SBool(z3.And(*out))
        ensure('every node has a line with its coordinates and all its values', lambda: Exists(o.shape[0], lambda t: cell(t, i, j)))
        reachable('line'); written[SNum(k)] = written[SNum(k)] + 1; A.k = None
    np.savetxt = savetxt; reachable()
    if many is None and not given: loops.INV['*'] = lambda env, it: over(it, m) and loops.Inv(boxes=[(written, lambda k, t: If(SNum(zi(t[0])) < k, 1, 0))])
    kk = index('given', m)
    g._export_csv('/out/exp.csv', z_positive_up=up, resolution=SNum(A.R(kk.e)) if given else None); t = index('any', m)
    ensure('every resolution is written once' if not given else 'only the resolution asked for is written', lambda: written[t] == (If(t == kk, 1, 0) if given else 1))
for names in (['depth', 'density'], ['depth', 'density', 'vertical_uncertainty', 'horizontal_uncertainty'], ['intensity', 'density']):
    for given in (False, True): contract(B + '_export_csv', 'csv of %s, %s' % (', '.join(names), 'one resolution' if given else 'all resolutions'), depths=(2,))(lambda names=names, given=given: csv(names, given))
for names in (['depth', 'density', 'vertical_uncertainty'], ['intensity', 'density']): contract(B + '_export_csv', 'csv of %s, two resolutions' % ', '.join(names), depths=(2,))(lambda names=names: csv(names, False, 2))
# ------------------------------------------------------------------------------------------------ rasters
class Grids:
    """chunks of every resolution (contract of get_chunks_of_tiles, C12): geotransform and one array per layer asked for"""
    def __init__(s): s.R = fn('resolution_at', I, z3.RealSort()); s.N = fn('chunks_at', I, I); s.k = None; s.asked = []
class Part:
    """something of chunk c of resolution k"""
    def __init__(s, what, k, c): s.what, s.k, s.c = what, z3.simplify(k), z3.simplify(zi(c))
    def is_(s, what, k, c): return SBool(z3.And(s.k == k, s.c == zi(c))) if s.what == what else False
def raster(layers, given, bs, fmt='tif'):
    bm = mod('bgrid'); G = Grids(); m = size('resolutions', 1); up, over_ = Bool('z_positive_up'), Real('override'); require(over_ > 0); written = np.zeros(m, dtype='int64'); kk = index('given', m); sg = inspect.signature(bm.BathyGrid.get_chunks_of_tiles); cs = inspect.signature(mod('utilities').gdal_raster_create); bag = fmt == 'bag'
    stored = [l for l in layers if l in ('depth', 'vertical_uncertainty', 'total_uncertainty', 'intensity')]; deflt = sg.parameters['for_gdal'].default; now = {}
    class Grid_(bm.OperationalGrid):
        layer_names = VList(layers)
        def get_chunks_of_tiles(s, *a, **kw):
            b = sg.bind(s, *a, **kw); b.apply_defaults(); b = b.arguments; e = z3.simplify(lift(b['resolution']))
            if e.num_args() != 1 or not e.decl().eq(G.R(0).decl()): raise Unsupported('another resolution is asked')
            k = e.arg(0); C.assume(G.N(k) >= 1); nd = b['nodatavalue']; ls = [b['layer']] if isinstance(b['layer'], str) else list(b['layer']); now['nd'] = nd; now['ls'] = ls
            ensure('the stored layers are exported, each once', sorted(ls) == sorted(stored)); ensure('a no data value that is a number', not (isinstance(nd, float) and nd != nd)); ensure('the sign asked for', Iff(b['z_positive_up'], True if bag else up)); ensure('the maximum dimension asked for', b['override_maximum_chunk_dimension'] == over_); ensure('arrays made for gdal', b['for_gdal'] is True)
            q = SymSeq(SNum(G.N(k)), lambda c: (Part('geo', k, c), Real('maxdim'), loops.VDict({l: Part(l, k, c) for l in ls}))); now['seq'], now['k'], now['n'] = q, k, np.zeros(SNum(G.N(k)), dtype='int64'); return q
    rez = SymSeq(m, lambda k: SNum(G.R(zi(k)))); g = new(Grid_, resolutions=rez, is_backscatter=bs, epsg=Int('epsg'), min_time=Int('t0'), max_time=Int('t1'))
    def create(*a, **kw):
        b = cs.bind(*a, **kw); b.apply_defaults(); b = b.arguments; geo = b['geo_transform']
        if not isinstance(geo, Part): raise Unsupported('the geotransform is not that of a chunk')
        k, c = now['k'], geo.c; f = b['output_raster']; head = '/out/exp_%s_' % '{}'.format(SNum(G.R(k)))
        ensure('the geotransform is that of the chunk', geo.is_('geo', k, c)); ensure('a file of its own per resolution', And(isinstance(f, str), f.startswith(head), f.endswith('.' + fmt)))
        num = f[len(head):-len(fmt) - 1]; num = TEXT.get(num, SNum(z3.IntVal(int(num))) if num.isdigit() else None)
        if num is None: raise Unsupported('file name not recognised')
        ensure('a file of its own per chunk', num == SNum(c) + 1)
        d = list(b['data']); bands = list(b['bandnames']); ensure('one band per layer, all named', len(d) == len(now['ls']) == len(bands))
        label = {'depth': ('Depth', 'Elevation'), 'vertical_uncertainty': ('Uncertainty',) * 2 if bag else ('Vertical Uncertainty',) * 2, 'total_uncertainty': ('Uncertainty',) * 2 if bag else ('Total Uncertainty',) * 2, 'intensity': ('Intensity',) * 2}
        for p, n in zip(d, bands):
            if not isinstance(p, Part): raise Unsupported('the data is not that of a chunk')
            lo, hi = label[p.what]; ensure('the data is that of the chunk', p.is_(p.what, k, c)); ensure('every band carries the name of its layer', If(True if bag else up, n == hi, n == lo) if isinstance(n, str) else False)
        ensure('every layer is written', sorted(p.what for p in d) == sorted(now['ls'])); ensure('the same no data value as in the data', same(b['nodatavalue'], now['nd'])); ensure('the coordinate system of the grid', SBool(lift(b['crs']) == lift(g.epsg))); ensure('the format asked for', b['driver'] == ('BAG' if bag else 'GTiff')); ensure('rows of the image are rows of the grid', b['transpose'] is True)
        now['n'][SNum(c)] = now['n'][SNum(c)] + 1; reachable('chunk')
    bm.gdal_raster_create = create
    for f in ('_correct_for_layer_metadata', '_set_temporal_extents', '_generate_caris_rxl', 'return_gdal_version'): setattr(bm, f, lambda *a: 'v')
    if bag: bm.CRS = type('CRS', (), {'from_epsg': staticmethod(lambda e: type('crs', (), {'to_wkt': lambda s, **k: 'wkt'})())})
    def inv(env, it):
        if 'seq' not in now: over(it, m); return loops.Inv(boxes=[(written, lambda k, t: If(SNum(zi(t[0])) < k, 1, 0))], step=step)
        over(it, now['seq'].n)
        cnt = [v for v, x in env.items() if isinstance(x, (int, SNum)) and not isinstance(x, bool) and x is not UNDEF and const(x) in (0, 1) and v in loops.ASSIGNED]
        return loops.Inv(vars={v: (lambda k, o=const(env[v]): k + o) for v in cnt}, boxes=[(now['n'], lambda k, t: If(SNum(zi(t[0])) < k, 1, 0))])
    def done(): t = index('chunk', now['n'].shape[0]); ensure('every chunk is written once', lambda: now['n'][t] == 1)
    def step(k, env):
        if now.get('k') is None: raise Unsupported('no chunks are written')
        ensure('the chunks are those of the resolution', SBool(now['k'] == k.e))
        done(); written[k] = written[k] + 1
    loops.INV['*'] = inv; reachable(); kw = {} if bag else {'z_positive_up': up}
    getattr(g, '_export_bag' if bag else '_export_geotiff')('/out/exp.' + fmt, resolution=SNum(G.R(kk.e)) if given else None, override_maximum_chunk_dimension=over_, **kw)
    if given: ensure('the resolution asked for is written', SBool(now['k'] == kk.e)); done()
    else: t = index('any', m); ensure('every resolution is written', lambda: written[t] == 1)
for layers, bs in ((['depth', 'density'], False), (['depth', 'density', 'vertical_uncertainty', 'horizontal_uncertainty'], False), (['depth', 'total_uncertainty', 'density', 'vertical_uncertainty'], False), (['vertical_uncertainty', 'density', 'depth'], False), (['density', 'intensity'], True)):
    for given in (False, True):
        contract(B + '_export_geotiff', 'geotiff of %s, %s' % (', '.join(layers), 'one resolution' if given else 'all resolutions'))(lambda a=(layers, given, bs): raster(*a))
        if not bs: contract(B + '_export_bag', 'bag of %s, %s' % (', '.join(layers), 'one resolution' if given else 'all resolutions'))(lambda a=(layers, given, bs, 'bag'): raster(*a))
class Band:
    """band of a raster: description, data, no data value"""
    def __init__(s, ds): s.ds = ds; s.d = dict(name=None, data=None, nd=None)
    def SetDescription(s, v): s.d['name'] = v
    def WriteArray(s, a, xoff=0, yoff=0):
        if not (const(xoff) == 0 and const(yoff) == 0) or not isinstance(a, SArr): raise Unsupported('a part of a band is written')
        s.d['data'] = newarr(a.snap(), a.shape, a._dtype)
    def SetNoDataValue(s, v):
        if s.ds.driver == 'GTiff':       # one no data value per geotiff; a block of zeros that was written before it was set is left out of the file, it reads as no data
            for b in s.ds.bands:
                a = b.d['data']
                if a is not None and b.d['nd'] is None: b.d['data'] = newarr(lambda t, a=a, f=z3.Function('zero_block!%d' % next(C.idgen), z3.IntSort(), z3.IntSort(), z3.BoolSort()): ite(And(SBool(f(zi(t[0]), zi(t[1]))), a.get(*t) == 0), v, a.get(*t)), a.shape, a._dtype)
            for b in s.ds.bands: b.d['nd'] = v
        else: s.d['nd'] = v
    def GetNoDataValue(s): return s.d['nd']
    def FlushCache(s): pass
class Raster:
    def __init__(s, driver, *a): s.driver = driver; s.path, s.nx, s.ny, s.nb, s.kind, s.options = a; s.bands = [Band(s) for _ in range(s.nb)]; s.geo = s.proj = None
    RasterCount = property(lambda s: s.nb); RasterXSize = property(lambda s: s.nx); RasterYSize = property(lambda s: s.ny)
    def SetGeoTransform(s, g): s.geo = g
    def SetProjection(s, p): s.proj = p
    def GetRasterBand(s, i):
        if not isinstance(i, int) or not 1 <= i <= s.nb: raise RuntimeError('no such band')
        return s.bands[i - 1]
    def FlushCache(s): pass
def create(nb, driver, named, transpose):
    um = mod('utilities'); made = []; W, H = size('width', 1), size('height', 1); L = [array('band%d' % b, (W, H) if transpose else (H, W), 'float32') for b in range(nb)]; nd = Real('nodata'); geo = VList([Real('g%d' % i) for i in range(6)]); names = VList(['Elevation', 'Uncertainty', 'Density'][:nb]); opts = VList(['A=1']); crs = Int('epsg')
    class Driver:
        def __init__(s, n): s.n = n
        def Create(s, path, xsize, ysize, bands=1, eType='byte', options=()):
            if not isinstance(bands, int): raise Unsupported('number of bands')
            r = Raster(s.n, path, xsize, ysize, bands, eType, options); made.append(r); return r
    um.gdal = type('gdal', (), {'GetDriverByName': staticmethod(Driver), 'GDT_Float32': 'float32', 'GDT_Float64': 'float64', 'GDT_Byte': 'byte', 'GDT_UInt32': 'uint32', 'GDT_Int32': 'int32', 'GDT_UInt16': 'uint16', 'GDT_Int16': 'int16'}); um.pyproj_crs_to_osgeo = lambda c: type('srs', (), {'ExportToWkt': lambda s: ('wkt', c)})()
    reachable(); out = um.gdal_raster_create('/out/f', VList(L), geo, crs, nd, names if named else (), driver, transpose, opts)
    if len(made) != 1: raise Unsupported('not one raster is created')
    r = made[0]; ensure('path, format and options as asked for', And(r.path == '/out/f', r.driver == driver, list(r.options) == list(opts))); ensure('size of the data', And(r.nx == W, r.ny == H)); ensure('one band per layer, real numbers', And(r.nb == nb, r.kind in ('float32', 'float64')))
    ensure('the geotransform given', And(r.geo is not None, *[p == q for p, q in zip(r.geo or [], geo)])); ensure('the coordinate system given', r.proj is not None and And(r.proj[0] == 'wkt', r.proj[1] == crs)); y, x = index('y', H), index('x', W)
    for b, l in zip(r.bands, L):
        ensure('the band is written', b.d['data'] is not None)
        if b.d['data'] is None: continue
        ensure('every pixel is that of the layer', lambda: same(b.d['data'][y, x], l[x, y] if transpose else l[y, x])); ensure('the no data value is set', b.d['nd'] is not None and same(b.d['nd'], nd))
    if named: ensure('the names of the bands in order', [b.d['name'] for b in r.bands] == list(names))
    if driver == 'MEM': ensure('the raster is returned', out is r)
for nb in (1, 2, 3): contract(U + 'gdal_raster_create', 'geotiff of %d bands' % nb)(lambda nb=nb: create(nb, 'GTiff', True, True))
for driver, named, tr in (('BAG', True, True), ('MEM', True, False), ('GTiff', False, False)): contract(U + 'gdal_raster_create', '%s of 2 bands%s%s' % (driver, '' if named else ', unnamed', ', transposed' if tr else ''))(lambda a=(2, driver, named, tr): create(*a))
# ------------------------------------------------------------------------------------------------ export
class Disk:
    """the files that exist: the path asked for or not, files of an earlier export or not"""
    def __init__(s, here, earlier): s.here, s.earlier = here, earlier
    def exists(s, p):
        if p != s.path: raise Unsupported('existence of another path is looked up')
        return s.here
    def glob(s, p, **k):
        if not p.startswith(s.path[:s.path.rindex('.')] + '_'): raise Unsupported('other files are looked up')
        import fnmatch
        w = [s.path[:s.path.rindex('.')] + '_' + r + ('' if s.path.endswith('.csv') else '_3') + s.path[s.path.rindex('.'):] for r in ('0.5', '128.0')]
        if not all(fnmatch.fnmatchcase(q, p) for q in w): return VList([])      # does not find what was written
        return VList(['earlier file']) if C.decide(zb(s.earlier)) else VList([])
def dispatch(fmt, spelled, folder):
    bm = mod('bgrid'); here, earlier, bs, up = Bool('path_exists'), Bool('exported_before'), Bool('is_backscatter'), Bool('z_positive_up'); R, over_ = Real('R'), Real('override'); calls = {k: [] for k in ('_export_csv', '_export_geotiff', '_export_bag')}; D = Disk(here, earlier); ext = {'csv': '.csv', 'geotiff': '.tif', 'bag': '.bag'}.get(fmt, '.x'); D.path = folder + 'exp' + ext
    bm.os.path.exists = bm.os.path.isfile = bm.os.path.lexists = D.exists; bm.glob = type('glob', (), {'glob': staticmethod(D.glob), 'escape': staticmethod(lambda p: p), 'iglob': staticmethod(D.glob)})
    bm.datetime = type('datetime', (), {'utcnow': staticmethod(lambda: type('now', (), {'strftime': lambda s, f: 'now'})())})
    g = new(type('Grid_', (bm.OperationalGrid,), {k: spy(getattr(bm.OperationalGrid, k), v) for k, v in calls.items()}), is_backscatter=bs); reachable()
    v, e = raises(lambda: g.export(D.path, spelled, z_positive_up=up, resolution=R, override_maximum_chunk_dimension=over_)); n = sum(map(len, calls.values()))
    if e is not None and not isinstance(e, ValueError): raise e
    if fmt not in ('csv', 'geotiff', 'bag'): ensure('another format is refused', isinstance(e, ValueError)); ensure('nothing is written', n == 0); return
    if fmt == 'bag': ensure('backscatter has no bag', Iff(bs, e is not None))
    else: ensure('the format is known', e is None)
    if e is not None: ensure('nothing is written', n == 0); return
    ensure('one export of the format asked for', n == 1 and len(calls['_export_' + fmt]) == 1); b = calls['_export_' + fmt][0]; path = b['filepath' if 'filepath' in b else 'output_file']
    if not isinstance(path, str): raise Unsupported('path not recognised')
    ensure('a path that exists, or was exported to, is not used', Implies(Or(here, earlier), path != D.path)); ensure('the path asked for is used when it is free', Implies(Not(Or(here, earlier)), path == D.path))
    ensure('another name in the same folder with the same extension', And(os.path.split(path)[0] == os.path.split(D.path)[0], path.endswith(ext)))
    ensure('the resolution asked for', b['resolution'] == R)
    if 'z_positive_up' in b: ensure('the sign asked for', Iff(b['z_positive_up'], up))
    if 'override_maximum_chunk_dimension' in b: ensure('the maximum dimension asked for', b['override_maximum_chunk_dimension'] == over_)
for fmt, sp in (('csv', 'csv'), ('csv', 'CSV'), ('geotiff', 'geotiff'), ('geotiff', 'GeoTIFF'), ('bag', 'bag'), ('bag', 'BAG'), ('shp', 'shp'), ('', '')):
    for folder in ('/out/', ''):
        if folder or fmt == sp: contract(B + 'export', 'export as %s to %s' % (sp or 'nothing', folder or 'the current folder'))(lambda a=(fmt, sp, folder): dispatch(*a))
