from loopkit import *
import core
CONTRACTS.clear()
U, V, M, B = 'bathygrid/utilities.py:', 'bathygrid/convenience.py:', 'bathygrid/maingrid.py:', 'bathygrid/bgrid.py:BathyGrid.'
POW2 = lambda n: SBool(core.POW2(zi(n)))
# ------------------------------------------------------------------------------------------------ powers of two
@contract(U + 'is_power_of_two', 'whole numbers: accepted exactly when a power of two')
def whole():
    n = Int('n'); reachable(); v = mod('utilities').is_power_of_two(n); ensure('accepted exactly when a power of two', lambda: Iff(v, And(n >= 1, Or(n == 1, POW2(n)))))
@contract(U + 'is_power_of_two', 'whole numbers given as floats')
def wholefloat():
    n = Int('n'); f = SNum(toreal(n.e)); reachable(); v = mod('utilities').is_power_of_two(f); ensure('accepted exactly when a power of two', lambda: Iff(v, And(n >= 1, Or(n == 1, POW2(n)))))
@contract(U + 'is_power_of_two', 'fractions above one are refused')
def frac():
    k, u = Int('k'), Real('u'); require(And(u >= Fraction(1, 1000), u <= Fraction(999, 1000), k >= 1)); n = k + u; reachable(); ensure('refused', Not(mod('utilities').is_power_of_two(n)))
@contract(U + 'is_power_of_two', 'fractions below one: accepted exactly when the inverse is a power of two')
def inverse():
    m = Int('m'); require(m >= 2); n = 1 / m; reachable(); v = mod('utilities').is_power_of_two(n); ensure('accepted exactly when the inverse is a power of two', lambda: Iff(v, POW2(m)))
@contract(U + 'is_power_of_two', 'fractions below one whose inverse is no whole number are refused')
def inverse2():
    m, u = Int('m'), Real('u'); require(And(u >= Fraction(1, 1000), u <= Fraction(999, 1000), m >= 1)); n = 1 / (m + u); reachable(); ensure('refused', Not(mod('utilities').is_power_of_two(n)))
# ------------------------------------------------------------------------------------------------ options
class Word:
    """any string, compared with others"""
    ids = {}
    def __init__(s, n): s.n = n; s.e = z3.Int(n)
    def eq(s, o): return s.e == Word.ids.setdefault(o, len(Word.ids)) if isinstance(o, str) else s.e == o.e
    def __eq__(s, o): return SBool(s.eq(o)) if isinstance(o, (str, Word)) else False
    def __ne__(s, o): return SBool(z3.Not(s.eq(o))) if isinstance(o, (str, Word)) else True
    def __format__(s, f): return s.n
    __hash__ = object.__hash__
OK = z3.Function('accepted_size', z3.RealSort(), z3.BoolSort())
def accepted(v): return SBool(OK(toreal(lift(v))))      # contract of is_power_of_two, above
KIND = {('single_resolution', 'numpy'): 'SRGrid', ('single_resolution', 'zarr'): 'SRGridZarr', ('variable_resolution_tile', 'numpy'): 'VRGridTile', ('variable_resolution_tile', 'zarr'): 'VRGridTileZarr'}
def options():
    k, b, t, s = Word('kind'), Word('backend'), Real('tile'), Real('sub'); one = lambda w, *l: Or(*[w == q for q in l])
    return k, b, t, s, And(one(k, 'single_resolution', 'variable_resolution_tile'), one(b, 'numpy', 'zarr'), accepted(t), Or(k != 'variable_resolution_tile', accepted(s)))
@contract(V + '_validate_create_options', 'creation is refused exactly for unknown kinds and sizes that are no power of two')
def validate():
    cm = mod('convenience'); cm.is_power_of_two = accepted; made = []; cm.create_folder = lambda a, b: made.append((a, b)) or 'made'
    k, b, t, s, ok = options(); reachable(); v, e = raises(lambda: cm._validate_create_options('/base/grid', k, b, t, s))
    if e is not None and not isinstance(e, ValueError): raise e
    ensure('refused exactly when not valid', lambda: Iff(ok, e is None))
    if e is None: ensure('the folder that was made is used', And(v == 'made', made == [('/base', 'grid')]))
@contract([V + 'create_grid', V + '_validate_create_options', M + 'SRGrid.__init__', M + 'VRGridTile.__init__', M + 'SRGridZarr.__init__', M + 'VRGridTileZarr.__init__', 'bathygrid/backends.py:NumpyGrid.__init__', 'bathygrid/backends.py:ZarrGrid.__init__', B + '__init__', 'bathygrid/grids.py:BaseGrid.__init__'], 'a new grid is of the requested kind, in its own folder')
def create(): kinds('/base/grid')
@contract([V + 'create_grid', V + '_validate_create_options'], 'a new grid is of the requested kind, in memory')
def create2(): kinds('')
def kinds(folder):
    cm, mm, gm, bm = mod('convenience'), mod('maingrid'), mod('grids'), mod('backends'); cm.is_power_of_two = gm.is_power_of_two = accepted; cm.create_folder = lambda a, b: 'made'
    dirs = []; mm.os.makedirs = lambda d, **k: dirs.append(d)
    k, b, t, s, ok = options(); bs = Bool('backscatter'); reachable(); g, e = raises(lambda: cm.create_grid(folder, k, b, t, s, bs))
    if e is not None:
        if not isinstance(e, ValueError): raise e
        ensure('only what is not valid is refused', lambda: Not(ok)); return
    ensure('what is not valid is refused', ok)
    ensure('a grid of the requested kind', And(*[Iff(And(k == q, b == w), type(g).__name__ == n) for (q, w), n in KIND.items()]))
    ensure('tiles or sub grids as requested', Iff(k == 'variable_resolution_tile', g.sub_type == 'grid'))
    ensure('the storage as requested, for the grid and its sub grids', And(*[Iff(b == q, And(g.storage_type == q, g.storage_class is c)) for q, c in (('numpy', bm.NumpyGrid), ('zarr', bm.ZarrGrid))]))
    ensure('tile size as requested', g.tile_size == t); ensure('subtile size as requested', Implies(k == 'variable_resolution_tile', g.subtile_size == s)); ensure('depth or backscatter as requested', Iff(g.is_backscatter, bs))
    ensure('the folder that was made is used', g.output_folder == ('made' if folder else '')); ensure('a new grid is empty', And(g.tiles is None, g.data is None, len(g.container) == 0, g.epsg is None, g.vertical_reference is None)); ensure('the grid may grow', g.can_grow is True)
@contract([B + '_build_tile', 'bathygrid/tile.py:SRTile.__init__', 'bathygrid/tile.py:Tile.__init__', 'bathygrid/grids.py:TileGrid.__init__'], 'a new tile has the requested place, size and kind')
def newtile():
    bm = mod('bgrid'); x, y, t, bs = Real('x'), Real('y'), Real('tile'), Bool('backscatter'); g = new(bm.BathyGrid, tile_size=t, is_backscatter=bs); reachable(); q = g._build_tile(x, y)
    ensure('place and size', And(q.min_x == x, q.min_y == y, q.max_x == x + t, q.max_y == y + t, q.width == t)); ensure('depth or backscatter', Iff(q.is_backscatter, bs)); ensure('the layer of the values is named accordingly', Iff(q.depth_key == 'intensity', bs))
    ensure('a new tile is empty', And(q.data is None, len(q.container) == 0, len(q.cells) == 0, len(q.cell_indices) == 0, Not(q.point_count_changed)))
@contract('bathygrid/grids.py:BaseGrid.__init__', 'a grid with a tile size that is no power of two is refused')
def refused():
    gm = mod('grids'); gm.is_power_of_two = accepted; x, y, t = Real('x'), Real('y'), Real('tile'); reachable(); g, e = raises(lambda: gm.BaseGrid(x, y, t))
    if e is not None and not isinstance(e, ValueError): raise e
    ensure('refused exactly when no power of two', lambda: Iff(accepted(t), e is None))
    if e is None: ensure('origin and tile size as given', And(g.origin_x == x, g.origin_y == y, g.tile_size == t))
@contract('bathygrid/tile.py:SRTile.grid', 'a resolution that is no power of two is refused, the tile stays as it was')
def resolution():
    tm = mod('tile'); tm.is_power_of_two = accepted; R = Real('R'); require(Not(accepted(R))); old = loops.VDict({'depth': 'old'}); t = new(tm.SRTile, cells=loops.VDict({1.0: old}), cell_edges_x=loops.VDict({1.0: 'e'}), cell_edges_y=loops.VDict({1.0: 'e'}), cell_indices=loops.VDict({1.0: 'i'}), algorithm='mean', grid_parameters=None, data=points('p', size('n', 1)), name='t', point_count_changed=Bool('ch')); clear = Bool('clear')
    reachable(); v, e = raises(lambda: t.grid('mean', R, clear_existing=clear)); ensure('refused', isinstance(e, ValueError)); ensure('nothing changed', And(dict(dict.items(t.cells)) == {1.0: old}, dict(dict.items(t.cell_indices)) == {1.0: 'i'}, t.algorithm == 'mean'))
# ------------------------------------------------------------------------------------------------ folders
class Files:
    """the part of os used for folders: some paths exist, some of them have contents"""
    def __init__(s, exists, filled, content='something'): s.has = dict(exists); s.filled = dict(filled); s.made = []; s.content = content
    def exists(s, p): return s.has.get(p, False)
    def mkdir(s, p, *a):
        if s.exists(p): raise FileExistsError(p)
        s.has[p] = True; s.filled[p] = False; s.made.append(p)
    def makedirs(s, p, mode=511, exist_ok=False):
        if s.exists(p) and not exist_ok: raise FileExistsError(p)
        s.has[p] = True
    def listdir(s, p): return [s.content] if s.filled.get(p, False) else []
def folder(content):
    um = mod('utilities'); there, filled = Bool('there'), Bool('filled'); require(Implies(filled, there)); want = '/base/grid'; reachable()
    fs = Files({'/base': True, want: bool(there)}, {want: bool(filled)}, content); had = {want: fs.filled[want]}
    for n in ('mkdir', 'makedirs', 'listdir'): setattr(um.os, n, getattr(fs, n))
    um.os.path.exists = um.os.path.isdir = fs.exists
    v = um.create_folder('/base', 'grid'); ensure('the folder exists', fs.exists(v)); ensure('the folder has no contents', Not(had.get(v, False)))
    ensure('the requested folder is used when that is possible', Implies(Not(filled), v == want)); ensure('it is in the requested place', v.startswith('/base/grid'))
for content in ('something', '.hidden', '~', 'SRGrid_Root'): contract(U + 'create_folder', 'a new grid gets a folder that is new or has no contents%s' % ('' if content == 'something' else ', the contents being ' + content))(lambda content=content: folder(content))
ROOTS = ['SRGrid_Root', 'VRGridTile_Root', 'SRGridZarr_Root', 'VRGridTileZarr_Root']
def load(how):
    cm, mm, gm = mod('convenience'), mod('maingrid'), mod('grids'); gm.is_power_of_two = lambda v: True; loaded = []
    there = {q: Bool('has_' + q) for q in ROOTS}; others = [Bool('other%d' % i) for i in range(2)]; exists = Bool('exists'); reachable()
    names = [q for q in ROOTS if there[q]] + ['%s_old' % 'SRGrid_Root' if i else 'notes' for i, o in enumerate(others) if o]
    if how == 'backwards': names.reverse()
    cm.os.path.exists = cm.os.path.isdir = lambda p: exists; cm.os.listdir = lambda p: list(names)
    for n in ('SRGrid', 'VRGridTile', 'SRGridZarr', 'VRGridTileZarr'): setattr(getattr(mm, n), 'load', lambda s, folder=None: loaded.append((s, folder)))
    number = sum(bool(q in names) for q in ROOTS); v, e = raises(lambda: cm.load_grid('/base/grid'))
    if e is not None:
        if not isinstance(e, (IOError, ValueError, NotImplementedError)): raise e
        ensure('a folder with exactly one grid is not refused', lambda: Not(And(exists, number == 1))); return
    ensure('a folder without exactly one grid is refused', And(exists, number == 1))
    ensure('the kind of grid that is in the folder', And(*[Iff(there[q], type(v).__name__ + '_Root' == q) for q in ROOTS]))
    ensure('the grid is loaded from the folder', And(len(loaded) == 1, loaded[0][0] is v, loaded[0][1] == '/base/grid'))
for how in ('forwards', 'backwards'): contract([V + 'load_grid', V + '_validate_load_path'], 'loading gives back the kind of grid in the folder, entries listed %s' % how, bounded='at most two entries besides the grid folders')(lambda how=how: load(how))
def anyload():
    """a folder with any number of entries of any names"""
    cm, mm, gm = mod('convenience'), mod('maingrid'), mod('grids'); gm.is_power_of_two = lambda v: True; loaded = []; exists = Bool('exists'); n = size('entries', 0); name = z3.Function('entry', I, z3.StringSort())
    everywhere([n, n], lambda i, j: Implies(Not(i == j), SBool(name(i.e) != name(j.e)))); entries = SymSeq(n, lambda k: Str(name(zi(k)))); root = lambda k: Or(*[SBool(name(zi(k)) == z3.StringVal(q)) for q in ROOTS])
    cm.os.path.exists = cm.os.path.isdir = lambda p: exists; cm.os.listdir = lambda p: entries; cm.os.path.join = lambda *a: a
    for q in ('SRGrid', 'VRGridTile', 'SRGridZarr', 'VRGridTileZarr'): setattr(getattr(mm, q), 'load', lambda s, folder=None: loaded.append((s, folder)))
    return cm, exists, n, name, root, loaded
@contract([V + 'load_grid', V + '_validate_load_path'], 'loading gives back the kind of grid in the folder, whatever else is in it')
def loadany():
    cm, exists, n, name, root, loaded = anyload(); reachable(); v, e = raises(lambda: cm.load_grid('/base/grid')); number = count(n, root)
    if e is not None:
        if not isinstance(e, (IOError, ValueError, NotImplementedError)): raise e
        ensure('a folder with exactly one grid is not refused', lambda: Not(And(exists, number == 1))); return
    reachable('after'); ensure('a folder without exactly one grid is refused', And(exists, number == 1)); kind = type(v).__name__ + '_Root'
    ensure('the kind of grid that is in the folder', Exists(n, lambda k: SBool(name(zi(k)) == z3.StringVal(kind)))); ensure('the grid is loaded from the folder', And(kind in ROOTS, len(loaded) == 1, loaded[0][0] is v, loaded[0][1] == '/base/grid'))
@contract(V + 'is_bathygrid', 'a folder is one of a grid exactly when it has the folder of a grid')
def isgrid():
    cm, exists, n, name, root, loaded = anyload(); there = Any(n, root)
    loops.INV['*'] = lambda env, it: (over(it, n), loops.Inv(facts=lambda k: [('no grid so far', Not(there.at(k)))]))[1]
    reachable(); v = cm.is_bathygrid('/base/grid'); reachable('after'); v = v if isinstance(v, SBool) else SBool(z3.BoolVal(bool(v))); ensure('exactly when it has one', Iff(v, And(exists, there.all)))
