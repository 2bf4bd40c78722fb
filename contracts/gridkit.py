"""grids of any number of tiles whose tiles are gridded"""
from loopkit import *
RS = z3.RealSort()
class Rez(SymSeq):
    """resolutions of a tile: any number of any values"""
    def __init__(s, n, at, any_): SymSeq.__init__(s, n, at); s.any_ = any_
class Layout:
    """grid of any number of tiles: where there is one (ex), whether its points changed, its resolutions before (0) and after gridding (1);
    the resolution R is an arbitrary one"""
    def __init__(L, sub):
        L.sub = sub; L.ny, L.nx = size('ny', 1), size('nx', 1); L.N = L.ny * L.nx; L.R = Real('anyR'); L.ex = fn('is_there', I, z3.BoolSort()); L.changed = fn('changed', I, z3.BoolSort())
        L.len_ = fn('number_of_resolutions', I, I, I); L.val = fn('resolution_of', I, I, I, RS); L.has = fn('has_anyR', I, I, z3.BoolSort()); L.one = fn('resolution_chosen', I, RS)
        L.done = newarr(lambda i: SNum(z3.IntVal(0)), (L.N,), 'int64'); L.calls, L.saved = [], []; class_ = 'SRTile' if sub == 'srtile' else 'BathyGrid'; bm = mod('bgrid'); real = mod('tile').SRTile if sub == 'srtile' else bm.BathyGrid
        L.sig = inspect.signature(real.grid)
        class GT(GTile):
            klass = (class_,) if sub == 'srtile' else ('BathyGrid', 'BaseGrid')
            @property
            def point_count_changed(s): return SBool(z3.And(L.changed(s.e - 1), zb(L.done[SNum(z3.simplify(s.e - 1))] == 0)))      # contract of the tile: grid() makes it unchanged (C07)
            @property
            def resolutions(s): return L.rez(s.e - 1, 0)
            def grid(s, *a, **k):
                b = L.sig.bind(s, *a, **k); b.apply_defaults(); p = SNum(z3.simplify(s.e - 1)); L.calls.append((p, b.arguments, L.done[p])); L.done[p] = L.done[p] + 1
                return SNum(L.one(p.e)) if sub == 'srtile' else L.rez(p.e, 1)
        L.GT = GT; L.pos = lambda r, c: zi(SNum(lift(r)) * L.nx + SNum(lift(c))); L.at = lambda p: z3.If(L.ex(p), p + 1, 0)
        L.arr = newarr(lambda i: GT(L.at(L.pos(*i))), (L.ny, L.nx), 'object')
    def rez(L, p, when):
        n = SNum(L.len_(p, when)); C.assume(n.e >= 0); a = Any(n, lambda j: SBool(L.val(p, when, j.e) == L.R.e)); C.assume(a.all.e == L.has(p, when))
        return Rez(n, lambda j: SNum(L.val(p, when, zi(j))), a)
    def skip(L, p, update, clear): return And(update, Not(clear), Not(SBool(L.changed(p))))
    def reported(L, update, clear):
        """R is among the resolutions of the tiles before position k"""
        return Any(L.N, lambda p: SBool(z3.And(L.ex(p.e), z3.If(zb(L.skip(p.e, update, clear)), L.has(p.e, 0), L.one(p.e) == L.R.e if L.sub == 'srtile' else L.has(p.e, 1)))))
def called(L, a, p, sub, root, upd, auto, clear, rz, pars):
    """the gridding of the tile at position p is asked for with these arguments"""
    ensure('algorithm and parameters are passed on', And(a['algorithm'] == 'mean', a['grid_parameters'] == pars, a['auto_resolution_mode'] == auto, a['regrid_option'] == ('update' if upd else 'full'), a['border_data'] is None))
    ensure('old layers are dropped in an update' if sub == 'srtile' else 'the tiles of the tile are cleared as asked', Iff(a['clear_existing'], Or(clear, upd and sub == 'srtile')))
    own = bool(auto) and not (sub == 'srtile' and root)
    ensure('the resolution is passed on, a tile of a variable resolution grid chooses its own', a['resolution'] is None if own else a['resolution'] is not None and a['resolution'] == rz)
NAME = {('srtile', True): 'SRGrid_Root', ('srtile', False): '512.0_1024.0', ('grid', True): 'VRGridTile_Root', ('grid', False): '512.0_1024.0'}
def cases():
    for sub in ('srtile', 'grid'):
        for root in (True, False):
            for upd in (True, False):
                for auto in ('', 'depth', 'density'):
                    if auto == 'density' and not root: continue
                    yield sub, root, upd, auto, '%s, %s, %s, resolution %s' % (sub, 'whole grid' if root else 'part', 'update' if upd else 'full', auto or 'given')
