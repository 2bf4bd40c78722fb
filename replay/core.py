"""Executes cases (json-able dicts) against the real bathygrid code in /repo and compares with an independent pure
Python / numpy reference.  Every file system effect is confined to a scratch directory by an audit hook."""
import os, sys, math, json, random, tempfile, shutil, io, contextlib, warnings, pickle, traceback
os.environ.setdefault('MPLBACKEND', 'Agg'); os.environ.setdefault('TZ', 'UTC'); os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('NUMBA_DISABLE_JIT', '1'); os.environ.setdefault('PROJ_NETWORK', 'OFF')
sys.dont_write_bytecode = True
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='bgverif_'))
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl'); os.makedirs(os.environ['MPLCONFIGDIR'])
import atexit
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
REPO = os.environ.get('BG_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np
import dask, dask.array as da
import xarray as xr
dask.config.set(scheduler='synchronous')
import bathygrid.bgrid as bgrid
from bathygrid.bgrid import BathyGrid
from bathygrid.tile import SRTile, Tile
from bathygrid.maingrid import SRGrid, SRGridZarr, VRGridTile, VRGridTileZarr
from bathygrid import convenience, utilities, grid_variables, algorithms, grids, backends
assert os.path.realpath(bgrid.__file__).startswith(os.path.realpath(REPO) + os.sep), bgrid.__file__

_WRITE_EVENTS = {'os.remove', 'os.rmdir', 'os.mkdir', 'os.rename', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown',
                 'shutil.rmtree', 'shutil.move', 'shutil.copyfile', 'os.utime'}
class Escape(BaseException):
    pass
_hook_on = [False]
def _ok(p):
    if p is None or isinstance(p, int): return True
    try: p = os.fsdecode(p)
    except Exception: return True
    r = os.path.realpath(p)
    return r == SCRATCH or r.startswith(SCRATCH + os.sep) or r in ('/dev/null',)
def _hook(ev, args):
    if not _hook_on[0]: return
    if ev == 'open':
        path, mode, flags = args
        w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if w and not isinstance(path, int) and not _ok(path): raise Escape('write outside scratch: %r' % (path,))
    elif ev in _WRITE_EVENTS:
        if ev in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
            bad = [p for p in args[:2] if isinstance(p, (str, bytes)) and not _ok(p)]
            if ev == 'shutil.copyfile': bad = [p for p in args[1:2] if not _ok(p)]
        else:
            dir_fd = args[-1] if ev in ('os.remove', 'os.rmdir', 'os.mkdir') else -1
            if isinstance(dir_fd, int) and dir_fd != -1: bad = []   # relative to an already open directory (rmtree checked at its root)
            else: bad = [p for p in args[:1] if not _ok(p)]
        if bad: raise Escape('%s outside scratch: %r' % (ev, bad))
sys.addaudithook(_hook)
_hook_on[0] = True

class Fail(Exception):
    """the property does not hold on this case"""

def check(cond, msg, *a):
    if not cond: raise Fail(msg % a if a else msg)

@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield

_n = [0]
def newdir():
    _n[0] += 1
    d = os.path.join(SCRATCH, 'd%d' % _n[0]); os.makedirs(d)
    return d

FIELDS = ['x', 'y', 'z', 'tvu', 'thu']
def dtype_for(unc, f32=False):
    fl = np.float32 if f32 else np.float64
    d = [('x', np.float64), ('y', np.float64), ('z', fl)]
    if 'v' in unc: d.append(('tvu', fl))
    if 'h' in unc: d.append(('thu', fl))
    return np.dtype(d)
def mkpts(pts, unc='vh', f32=False):
    dt = dtype_for(unc, f32)
    out = np.zeros(len(pts), dtype=dt)
    for i, p in enumerate(pts):
        for j, f in enumerate(FIELDS):
            if f in dt.names: out[f][i] = p[j]
    return out

def arr(a):
    return a.compute() if isinstance(a, da.Array) else (np.asarray(a) if a is not None else None)

class StubClient:
    """stands in for a dask client: same interface, results pass through pickle as they would between processes"""
    def __init__(self, n, order=0): self.n = n; self.order = order
    def ncores(self): return {'w%d' % i: 1 for i in range(self.n)}
    def scatter(self, data): return [pickle.dumps(d) for d in data] if isinstance(data, list) else pickle.dumps(data)
    def map(self, f, data):
        # any completion order; results stay attached to their own future
        idx = list(range(len(data)))
        if self.order: random.Random(self.order + len(data)).shuffle(idx)
        res = [None] * len(data)
        for i in idx: res[i] = pickle.dumps(f(pickle.loads(data[i])))
        return [('fut', r) for r in res]
    def submit(self, f, x): return ('fut', pickle.dumps(f(pickle.loads(x) if isinstance(x, bytes) else x)))
    def gather(self, futs):
        if isinstance(futs, list): return [self.gather(f) for f in futs]
        return pickle.loads(futs[1])
bgrid.wait = lambda *a, **k: None
bgrid.progress = lambda *a, **k: None

def make_grid(gp):
    """gp: dict(kind sr|vr, backend numpy|zarr, tile, sub, disk, bs, ox, oy)"""
    cls = {('sr', 'numpy'): SRGrid, ('sr', 'zarr'): SRGridZarr, ('vr', 'numpy'): VRGridTile, ('vr', 'zarr'): VRGridTileZarr}[(gp['kind'], gp['backend'])]
    kw = dict(min_x=gp.get('ox', 0), min_y=gp.get('oy', 0), tile_size=gp['tile'], is_backscatter=bool(gp.get('bs')))
    if gp['kind'] == 'vr': kw['subtile_size'] = gp['sub']
    if gp.get('disk'): kw['output_folder'] = os.path.join(newdir(), 'grid')
    g = cls(**kw)
    return g

def leafs(g):
    """(tile, lattice x, lattice y, owner grid, flat index, size) of every existing leaf tile, plus (subgrid, x, y)"""
    out = []
    if g.tiles is None: return out
    for i, t in enumerate(g.tiles.flat):
        if t is None: continue
        x, y = float(g.tile_x_origin.flat[i]), float(g.tile_y_origin.flat[i])
        if isinstance(t, BathyGrid): out += leafs(t)
        else: out.append((t, x, y, g, i, float(g.tile_size)))
    return out

def raw(g):
    """{(x, y): {rez: {layer: array}}} read straight from the tiles"""
    return {(x, y): {float(r): {l: arr(v) for l, v in t.cells[r].items()} for r in t.cells} for t, x, y, o, i, s in leafs(g)}

SAVED_LAYERS = ['depth', 'intensity', 'density', 'vertical_uncertainty', 'horizontal_uncertainty', 'total_uncertainty', 'hypothesis_count', 'hypothesis_ratio']

def cellof(p, o, r): return int(math.floor((p - o) / r))

def expected_layers(pts, x0, y0, size, rez, alg, bs):
    """reference gridding: {layer: (values float64 with nan, allowed sets)} by plain loops over the points"""
    n = int(round(size / rez))
    cells = {}
    for k in range(len(pts)):
        c = (min(max(cellof(pts['y'][k], y0, rez), 0), n - 1), min(max(cellof(pts['x'][k], x0, rez), 0), n - 1))
        cells.setdefault(c, []).append(k)
    return n, cells

def close(a, b, tol=0.00052):
    return abs(float(a) - float(b)) <= tol + 4e-7 * max(abs(float(a)), abs(float(b)))

def check_layers(layers, pts, x0, y0, size, rez, alg, bs, where='', unc_from=True):
    n, cells = expected_layers(pts, x0, y0, size, rez, alg, bs)
    dk = 'intensity' if bs else 'depth'
    want = {dk, 'density'}
    if 'tvu' in pts.dtype.names: want.add('vertical_uncertainty')
    if 'thu' in pts.dtype.names: want.add('horizontal_uncertainty')
    have = set(l for l in layers if l in SAVED_LAYERS)
    check(have == want, '%s layers %s, expected %s', where, sorted(have), sorted(want))
    for l in want: check(layers[l].shape == (n, n), '%s layer %s shape %s, expected %s', where, l, layers[l].shape, (n, n))
    check(np.issubdtype(layers['density'].dtype, np.integer), '%s density dtype %s', where, layers['density'].dtype)
    for l in want:
        A = layers[l]
        filled = (A != 0) if l == 'density' else ~np.isnan(A)
        got = set(zip(*[v.tolist() for v in np.nonzero(filled)]))
        exp = set(cells) if l == 'density' or True else None
        check(got == exp, '%s layer %s: populated cells %s, expected %s', where, l, sorted(got - exp)[:4], sorted(exp - got)[:4])
    for (r, c), ks in cells.items():
        check(int(layers['density'][r, c]) == len(ks), '%s density[%d,%d]=%s, %d points in the cell', where, r, c, layers['density'][r, c], len(ks))
        z = [float(pts['z'][k]) for k in ks]
        if alg == 'mean':
            check(close(layers[dk][r, c], math.fsum(z) / len(z)), '%s %s[%d,%d]=%s, mean of points %s', where, dk, r, c, layers[dk][r, c], z[:8])
            for l, f in (('vertical_uncertainty', 'tvu'), ('horizontal_uncertainty', 'thu')):
                if l in want:
                    u = [float(pts[f][k]) for k in ks]
                    check(close(layers[l][r, c], math.fsum(u) / len(u)), '%s %s[%d,%d]=%s, mean of %s', where, l, r, c, layers[l][r, c], u[:8])
        else:
            m = min(z)
            check(close(layers[dk][r, c], m), '%s %s[%d,%d]=%s, shoalest of points %s', where, dk, r, c, layers[dk][r, c], z[:8])
            if want & {'vertical_uncertainty', 'horizontal_uncertainty'}:
                cand = [k for k in ks if float(pts['z'][k]) == m]
                ok = False
                for k in cand:
                    if all(close(layers[l][r, c], pts[f][k]) for l, f in (('vertical_uncertainty', 'tvu'), ('horizontal_uncertainty', 'thu')) if l in want): ok = True
                check(ok, '%s uncertainty of cell [%d,%d] = %s is not that of a shoalest point of the cell (candidates %s)', where, r, c,
                      [float(layers[l][r, c]) for l in ('vertical_uncertainty', 'horizontal_uncertainty') if l in want], [pts[k].tolist() for k in cand[:4]])

# ------------------------------------------------------------------------------------------------ history reference
class RTile:
    def __init__(s, x, y, size): s.x, s.y, s.size = x, y, size; s.src = []; s.snaps = {}; s.changed = False; s.alg = None
    def pts(s): return np.concatenate([p for _, p in s.src]) if s.src else None

class Ref:
    def __init__(s, gp):
        s.gp = gp; s.sources = {}; s.tiles = {}; s.added = []; s.resolutions = []; s.files = {}
        s.leaf = gp['sub'] if gp['kind'] == 'vr' else gp['tile']
    def key(s, x, y):
        ox, oy = s.gp.get('ox', 0), s.gp.get('oy', 0); T = s.gp['tile']
        px, py = math.floor((x - ox) / T) * T + ox, math.floor((y - oy) / T) * T + oy
        if s.gp['kind'] == 'sr': return (px, py)
        return (math.floor((x - px) / s.leaf) * s.leaf + px, math.floor((y - py) / s.leaf) * s.leaf + py)
    def parent(s, k):
        ox, oy = s.gp.get('ox', 0), s.gp.get('oy', 0); T = s.gp['tile']
        return (math.floor((k[0] - ox) / T) * T + ox, math.floor((k[1] - oy) / T) * T + oy)
    def add(s, name, pts):
        s.sources[name] = pts; s.added.append(pts)
        groups = {}
        for i in range(len(pts)): groups.setdefault(s.key(float(pts['x'][i]), float(pts['y'][i])), []).append(i)
        for k, idx in groups.items():
            t = s.tiles.setdefault(k, RTile(k[0], k[1], s.leaf))
            t.src = [e for e in t.src if e[0] != name] + [(name, pts[idx])]
            t.changed = True
    def remove(s, name):
        if name not in s.sources: return
        s.sources.pop(name)
        for k in list(s.tiles):
            t = s.tiles[k]
            if any(n == name for n, _ in t.src):
                t.src = [e for e in t.src if e[0] != name]; t.changed = True
                if not t.src: s.tiles.pop(k)
        if not s.tiles: s.resolutions = []
        else: s.resolutions = [r for r in s.resolutions if any(r in t.snaps for t in s.tiles.values())]
    def mean(s):
        if not s.tiles: return 0.0
        z = [float(v) for t in s.tiles.values() for v in t.pts()['z']]
        return math.fsum(z) / len(z)
    def grid(s, g, op):
        """the resolution of every tile is given by rezfn(tile) (None: keep what the real tile chose)"""
        _, alg, rez, clear, mode, regrid = op[:6]
        s.last = (alg, rez, clear, mode, regrid); s.regridded = set()
        real = {(x, y): t for t, x, y, o, i, sz in leafs(g)}
        res = set()
        for k, t in s.tiles.items():
            if regrid == 'update' and not clear and not t.changed:
                res |= set(t.snaps); continue
            s.regridded.add(k)
            if clear or regrid == 'update': t.snaps = {}
            if rez is None:
                new = [r for r in real[k].cells if float(r) not in t.snaps] if k in real else []
                # the tile keeps coarser layers of other resolutions only when nothing was cleared
                r = float(new[0]) if len(new) == 1 and not t.snaps else s.auto_rez(t, mode, g)
            else: r = float(rez)
            t.snaps[r] = (alg, t.pts()); res.add(r); t.changed = False
        s.resolutions = sorted(res)
    def auto_rez(s, t, mode, g):
        if s.gp['kind'] == 'sr':
            if mode == 'depth': return lookup_rez(s.mean_rounded, s.leaf)
            return max(density_rez(q.pts(), q.x, q.y, q.size) for q in s.tiles.values())
        if mode == 'depth': return lookup_rez(float(np.mean(t.pts()['z'])), t.size)
        return density_rez(t.pts(), t.x, t.y, t.size)

LOOKUP = [(10, 0.25), (20, 0.5), (40, 1.0), (60, 2.0), (80, 4.0), (160, 8.0), (320, 16.0), (640, 32.0), (1280, 64.0), (2560, 128.0), (5120, 256.0), (10240, 512.0), (20480, 1024.0)]
def lookup_rez(mean, size):
    for k, r in LOOKUP:
        if k > mean: return float(min(r, size))
    return float(min(LOOKUP[-1][1], size))
def lookup_rez_closed(mean, size):
    for k, r in LOOKUP:
        if k >= mean: return float(min(r, size))
    return float(min(LOOKUP[-1][1], size))
def density_rez(pts, x0, y0, size):
    start = min(size, 16.0)
    n = int((size / start) ** 2)
    cells = {}
    for i in range(len(pts)):
        c = (cellof(pts['x'][i], x0, start), cellof(pts['y'][i], y0, start)); cells[c] = cells.get(c, 0) + 1
    if len(cells) / n <= 0.75:
        return lookup_rez_closed(float(np.mean(pts['z'])), size)
    tot = sum(cells.values())
    est = math.fsum(math.sqrt(2 * 5 * 1.75 / (c / start ** 2)) * c for c in cells.values()) / tot
    for r in [v for _, v in LOOKUP]:
        if r >= est - 1e-12: return float(min(r, size))
    return float(min(LOOKUP[-1][1], size))

def assigned(t, r):
    """every point has been assigned to a cell of this resolution; source and slope queries need that (points added since the
    last gridding are refused with an error)"""
    return r in t.cell_indices and not (arr(t.cell_indices[r]) < 0).any()

class History:
    """runs the operations on the real grid and on the reference"""
    def __init__(s, case):
        s.case = case; s.gp = case['grid']
        with quiet(): s.g = make_grid(s.gp)
        s.ref = Ref(s.gp); s.step = -1
        s.opts = case.get('opts', {})
    def data(s, pts):
        return mkpts(pts, s.case.get('unc', 'vh'), s.case.get('f32', False))
    def apply(s, op):
        g = s.g; s.step += 1
        with quiet():
            k = op[0]
            if k == 'add':
                d = s.data(op[2]); form = op[3] if len(op) > 3 else 'np'
                kw = op[4] if len(op) > 4 else {}
                inp = d.copy()
                if form == 'dask': inp = da.from_array(inp, chunks=max(1, len(d) // 2))
                elif form == 'xr': inp = xr.Dataset({f: (['sounding'], d[f].copy()) for f in d.dtype.names})
                g.add_points(inp, op[1], progress_bar=False, **kw)
                s.ref.add(op[1], d); s.ref.files[op[1]] = kw.get('file_list') or ['Unknown']
            elif k == 'remove':
                g.remove_points(op[1], progress_bar=False); s.ref.remove(op[1]); s.ref.files.pop(op[1], None)
            elif k == 'grid':
                if s.ref.tiles:
                    _, alg, rez, clear, mode, regrid = op[:6]; workers = op[6] if len(op) > 6 else 0
                    if s.g.grid_algorithm and s.g.grid_algorithm != alg: clear = True
                    op = ['grid', alg, rez, clear, mode, regrid]
                    s.ref.mean_rounded = g.mean_depth
                    if workers: g.client = StubClient(workers, order=s.step + 1)
                    s.before = {k2: v for k2, v in raw(g).items()}
                    s.returned = g.grid(alg, rez, clear_existing=clear, auto_resolution_mode=mode, regrid_option=regrid, use_dask=bool(workers), progress_bar=False)
                    g.client = None
                    s.ref.grid(g, op)
            elif k == 'save':
                if s.ref.tiles:
                    g.save(os.path.join(newdir(), 'saved'), progress_bar=False)
                    s.gp = dict(s.gp, disk=True)
            elif k == 'reload':
                if g.output_folder and os.path.exists(os.path.join(g.output_folder, g.name, 'metadata.json')):
                    s.g = convenience.load_grid(g.output_folder)
            elif k == 'tquery':     # source query on all tiles
                for t, x, y, o, i, sz in leafs(g):
                    for r in list(t.cells):
                        if assigned(t, r): t.get_layers_by_name(op[1], r)
            elif k == 'slopes':
                for t, x, y, o, i, sz in leafs(g):
                    for r in list(t.cells):
                        if assigned(t, r): t.get_layers_by_name('x_slope', r)
            elif k == 'query':
                if s.ref.resolutions and s.ref.tiles:
                    for r in s.ref.resolutions: g.get_layers_by_name(['depth' if not s.gp.get('bs') else 'intensity', 'density'], r)
            else: raise RuntimeError(k)
        return k

# ------------------------------------------------------------------------------------------------ random cases
DISK = 0.35     # cases on disk are about thirty times slower than those in memory
def rnd_grid(rng, kinds=('sr', 'sr', 'vr'), disk=0.15, big=0.1, origin=0.3, bs=0.1):
    kind = rng.choice(kinds)
    tile = rng.choice([8, 16, 32, 64])
    gp = dict(kind=kind, backend=rng.choice(['numpy', 'zarr']), tile=tile, disk=rng.random() < disk * DISK, bs=rng.random() < bs, ox=0, oy=0)
    if kind == 'vr':
        gp['tile'] = rng.choice([16, 32, 64]); gp['sub'] = rng.choice([s for s in (4, 8, 16, 32) if s <= gp['tile'] / 2 and (not gp['disk'] or s >= gp['tile'] / 4)])
    if rng.random() < origin:
        gp['ox'], gp['oy'] = rng.choice([(3, -5), (-7.5, 100.25), (1, 0), (500000, 4100000), (-16, 48), (0.5, 0.5)])
    return gp

def rnd_center(rng, gp):
    if rng.random() < 0.15: return (512000.0, 4260000.0)
    if rng.random() < 0.4: return (0.0, 0.0)
    return (rng.choice([-100, -40, 0, 30, 1000]) * 1.0, rng.choice([-300, -20, 0, 17, 90]) * 1.0)

ZS = [5.0, 9.5, 12.25, 15.125, 30.5, 44.75, 70.25, 100.5, 170.75]
def rnd_pts(rng, gp, center, n=None, span=None, zmode=None, sign=1):
    T = gp['tile']
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 25, 40] if not gp.get('disk') else [1, 2, 3, 5, 8])
    span = span or rng.choice([0.4, 1, 1.5, 2.5, 4] if not gp.get('disk') else [0.4, 1, 1.5]) * T
    zmode = zmode or rng.choice(['const', 'few', 'rand', 'rand', 'deep', 'trend', 'datum'])
    z0 = rng.choice(ZS)
    cx, cy = center
    out = []
    for i in range(n):
        m = rng.random()
        if m < 0.15: x = math.floor((cx + rng.uniform(-span, span) - gp.get('ox', 0)) / T) * T + gp.get('ox', 0)       # tile border
        elif m < 0.5: x = cx + math.floor(rng.uniform(-span, span))
        elif m < 0.6: x = cx + rng.uniform(-span, span)
        else: x = cx + math.floor(rng.uniform(-span, span) * 8) / 8
        m = rng.random()
        if m < 0.15: y = math.floor((cy + rng.uniform(-span, span) - gp.get('oy', 0)) / T) * T + gp.get('oy', 0)
        elif m < 0.5: y = cy + math.floor(rng.uniform(-span, span))
        elif m < 0.6: y = cy + rng.uniform(-span, span)
        else: y = cy + math.floor(rng.uniform(-span, span) * 8) / 8
        if zmode == 'const': z = z0
        elif zmode == 'few': z = rng.choice(ZS[:4])
        elif zmode == 'deep': z = rng.choice([rng.uniform(1, 15), rng.uniform(30, 300)])
        elif zmode == 'datum': z = rng.choice([0.0, 0.0, 1.5, -.75, 3.25]) + (20 if rng.random() < .2 else 0)
        elif zmode == 'trend': z = 10 + abs(x - cx) + 0.5 * abs(y - cy)
        else: z = rng.uniform(2, 60)
        z = round(z, 3) * sign
        out.append([x, y, z, round(rng.uniform(0.1, 2), 3), round(rng.uniform(0.1, 3), 3)])
        if out and rng.random() < 0.1: out.append(list(out[rng.randrange(len(out))]))
        if out and rng.random() < 0.2:   # a second point in the same place, other depth
            p = list(rng.choice(out)); p[2] = round(p[2] + rng.choice([0, 0.5, -0.25, 3, .004, -.001]), 3); p[3] = round(rng.uniform(0.1, 2), 3); p[4] = round(rng.uniform(.1, 3), 3); out.append(p)
    rng.shuffle(out)
    return out

def rnd_rez(rng, gp, auto=0.3):
    leaf = gp.get('sub') if gp['kind'] == 'vr' else gp['tile']
    if rng.random() < auto: return None
    return rng.choice([r for r in (0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0) if r <= leaf and leaf / r <= 16])

def rnd_history(rng, nops=None, grid_ops=True, gp=None, algs=('mean', 'shoalest'), queries=True, saves=True, dask=0.0, sign=1, regrid=('full', 'update', 'update'), final_grid=False, fixed_rez=None, kw=None, center=None):
    gp = gp or rnd_grid(rng)
    center = center or rnd_center(rng, gp)
    case = dict(center=list(center), grid=gp, unc=rng.choice(['vh', 'vh', 'vh', 'v', 'h', '']), f32=rng.random() < 0.25, ops=[])
    names = ['a', 'b', 'c__0', 'c__1', 'd 1']
    present = []; alg = rng.choice(algs); rez = rnd_rez(rng, gp)
    nops = nops or rng.choice([2, 3, 4, 5, 6, 8])
    if gp['disk']: nops = min(nops, 6)
    gridded = False
    for i in range(nops):
        r = rng.random()
        if not present or r < 0.35:
            free = [n for n in names if n not in present]
            if free:
                nm = rng.choice(free); present.append(nm)
                c = center if rng.random() < 0.6 else (center[0] + rng.choice([-3, -1, 1, 2]) * gp['tile'], center[1] + rng.choice([-2, -1, 1, 3]) * gp['tile'])
                op = ['add', nm, rnd_pts(rng, gp, c, sign=sign), rng.choice(['np', 'np', 'np', 'dask', 'xr'])]
                if kw: op.append(kw)
                case['ops'].append(op)
                continue
        if present and r < 0.55:
            nm = rng.choice(present); present.remove(nm); case['ops'].append(['remove', nm]); continue
        if grid_ops and r < 0.85:
            if rng.random() < 0.3: rez = rnd_rez(rng, gp)
            clear = rng.random() < 0.25
            if rng.random() < 0.15: alg = rng.choice(algs)
            case['ops'].append(['grid', alg, rez if fixed_rez is None else fixed_rez, clear, rng.choice(['depth', 'depth', 'density']), rng.choice(regrid), rng.choice([1, 2, 3, 5]) if rng.random() < dask else 0])
            gridded = True; continue
        if queries and gridded and r < 0.93:
            case['ops'].append(rng.choice([['tquery', rng.choice(names)], ['slopes'], ['query']])); continue
        if saves and present: case['ops'].append(rng.choice([['save'], ['reload'], ['reload']]) if gp['disk'] or rng.random() < 0.12 else ['query'])
    if final_grid:
        if not present: case['ops'].append(['add', 'z', rnd_pts(rng, gp, center, sign=sign)] + (['np', kw] if kw else []))
        case['ops'].append(['grid', alg, rez if fixed_rez is None else fixed_rez, rng.random() < 0.5, rng.choice(['depth', 'density']), rng.choice(regrid), rng.choice([1, 2, 3, 5]) if rng.random() < dask else 0])
    return case
