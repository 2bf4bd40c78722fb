from loopkit import *
CONTRACTS.clear()
B = 'bathygrid/bgrid.py:BathyGrid.'
class GTile(loops.Obj):
    """a tile; only its identity matters here"""
@contract(B + 'get_tile_neighbors', 'the neighbors are the tiles above, right, below and left in the tile array')
def neighbors():
    bm = mod('bgrid'); ny, nx = size('ny', 1), size('nx', 1); r0, c0 = index('r0', ny), index('c0', nx); f = z3.Function('tile_at', z3.IntSort(), z3.IntSort(), z3.IntSort())
    at = lambda r, c: SNum(f(zi(r), zi(c))); me = at(r0, c0); require(me >= 1); everywhere([ny, nx], lambda r, c: And(at(r, c) >= 0, Implies(at(r, c) == me, And(r == r0, c == c0))))
    A.SINGLE[:] = [(r0, c0)]; g = new(bm.BathyGrid, tiles=newarr(lambda i: GTile(f(zi(i[0]), zi(i[1]))), (ny, nx), 'object')); reachable(); out = g.get_tile_neighbors(GTile(me.e))
    ensure('four answers', len(out) == 4); ident = lambda t: SNum(z3.IntVal(0)) if t is None else SNum(t.e)
    for i, (nm, there, r, c) in enumerate((('row before', r0 >= 1, r0 - 1, c0), ('column after', c0 + 1 < nx, r0, c0 + 1), ('row after', r0 + 1 < ny, r0 + 1, c0), ('column before', c0 >= 1, r0, c0 - 1))):
        ensure('%s: the tile there, none beyond the border' % nm, lambda: ident(out[i]) == If(there, at(r, c), 0))
NAMES = ('row before', 'column after', 'row after', 'column before')
def near(w, t, d, b):
    """the point is not further than the buffer from the edge shared with the tile"""
    return lambda p: (d['y'][p] >= t.max_y - b, d['x'][p] <= t.min_x + b, d['y'][p] <= t.min_y + b, d['x'][p] >= t.max_x - b)[w]
def sametuple(d, p, val): return And(*[d[f][p] == val[f] for f in FLD])
FLD = ('x', 'y', 'z')
def tile(name, **at):
    n = size('n_' + name, 1); return new(mod('tile').SRTile, data=points('p_' + name, n, FLD), is_backscatter=False, **at), n
def compare(out, sources, b):
    """every value occurs in the result exactly as often as it occurs among the points that belong to it"""
    val = {f: Real('value_' + f) for f in FLD}; total = 0
    for t, n, w, edge in sources: total = total + count(n, lambda p, t=t, w=w, edge=edge: And(near(w, edge, t.data, b)(p), sametuple(t.data, p, val)))
    if out is None: ensure('nothing is left out', lambda: total == 0); return
    ensure('exactly the points within the buffer, each once', lambda: count(out.size, lambda p: sametuple(out, p, val)) == total)
def neigh(have):
    bm = mod('bgrid'); b = Real('buffer'); require(b >= 0); ts = []; src = []
    for w in range(4):
        if not have[w]: ts.append(None); continue
        x, y, W = Real('x%d' % w), Real('y%d' % w), Real('size'); t, n = tile('t%d' % w, min_x=x, min_y=y, max_x=x + W, max_y=y + W); ts.append(t); src.append((t, n, w, t))
    class Grid_(bm.BathyGrid): get_tile_neighbors = lambda s, til: VList(ts)
    g = new(Grid_); reachable(); compare(g.get_tile_neighbor_points('tile', b), src, b)
for have in ((1, 1, 1, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1)):
    contract(B + 'get_tile_neighbor_points', 'neighbor points: %s' % (', '.join(q for q, h in zip(NAMES, have) if h) or 'none'))(lambda have=have: neigh(have))
def subneigh(w):
    bm = mod('bgrid'); b = Real('buffer'); require(b >= 0); x, y, W = Real('x'), Real('y'), Real('size'); subs = []; src = []; a = np.full((2, 2), None)
    box = dict(min_x=x, min_y=y, max_x=x + W, max_y=y + W); edge = new(bm.BathyGrid, **box)
    for i in range(2):
        for j in range(2):
            if (i, j) == (1, 0): continue
            sx, sy = Real('sx%d%d' % (i, j)), Real('sy%d%d' % (i, j)); t, n = tile('t%d%d' % (i, j), min_x=sx, min_y=sy, max_x=sx + W, max_y=sy + W); a[i, j] = t; src.append((t, n, w, edge))
    edge.__dict__['tiles'] = a; ts = [None] * 4; ts[w] = edge
    class Grid_(bm.BathyGrid): get_tile_neighbors = lambda s, til: VList(ts)
    g = new(Grid_); reachable(); compare(g.get_tile_neighbor_points('tile', b), src, b)
for w in range(4): contract(B + 'get_tile_neighbor_points', 'neighbor points of a sub grid: %s' % NAMES[w], bounded='a sub grid of two by two tiles, three of them with any points')(lambda w=w: subneigh(w))
class Bag:
    """list of arrays, followed for one value: how often the value is in them; there is an array if it is in them"""
    def __init__(s, val, total, some=None):
        s.val, s.total = val, total; s.some = SBool(C.fresh('some_array', z3.BoolSort())) if some is None else some
        if some is None: C.assume(z3.Implies(z3.Not(s.some.e), lift(total) == 0))
    def times(s, v):
        if not isinstance(v, SStruct) or list(v.fields) != list(FLD): raise Unsupported('list of something else')
        return count(v.size, lambda p: sametuple(v, p, s.val))
    def append(s, v):
        if C.log is not None: C.log.append(s)
        t = s.total + s.times(v); C.mutate(s, 'total', t); C.mutate(s, 'some', SBool(z3.BoolVal(True)))
    def extend(s, l):
        if not isinstance(l, (list, VList)): raise Unsupported('list of something else')
        for v in l: s.append(v)
    def __iadd__(s, l): s.extend(l); return s
    def __bool__(s): return C.decide(s.some.e)
    def read(s, o):
        if isinstance(o, Bag): return o.total, o.some
        t = SNum(z3.IntVal(0))
        for v in o: t = t + s.times(v)
        return t, SBool(z3.BoolVal(len(o) > 0))
    def same(s, o):
        if not isinstance(o, (Bag, VList)): return False
        return s.read(o)[0] == s.total
class Joined(A.ArrBase):
    """the arrays of such a list joined: the number of its elements is not less than that of the followed value"""
    def __init__(s, bag): s.bag = bag; s.size = size('joined', 0); C.assume(lift(s.size) >= lift(bag.total)); s.shape = (s.size,)
def there(e):
    if z3.is_app_of(e, z3.Z3_OP_ITE) and C.valid(e.arg(0)): e = e.arg(1)
    return z3.simplify(e - 1)
def anysub(have):
    """neighbors that are sub grids of any number of tiles with any points, any of the tiles missing"""
    bm = mod('bgrid'); b = Real('buffer'); require(b >= 0); W = Real('size'); ts = [None] * 4; val = {f: Real('value_' + f) for f in FLD}; runs = []
    for w in range(4):
        if not have[w]: continue
        ny, nx = size('rows%d' % w, 1), size('columns%d' % w, 1); N = ny * nx; ex = fn('is_there%d' % w, I, z3.BoolSort()); num = fn('points%d' % w, I, I); fs = {f: fn('point%d_%s' % (w, f), I, I, z3.RealSort()) for f in FLD}
        x, y = Real('x%d' % w), Real('y%d' % w); edge = new(bm.BathyGrid, min_x=x, min_y=y, max_x=x + W, max_y=y + W)
        def data_(p, num=num, fs=fs):
            p = zi(p); n = SNum(num(p)); C.assume(n.e >= 0); return SStruct({f: newarr(lambda i, f=f: SNum(fs[f](p, zi(i[0]))), (n,), 'float64') for f in FLD}), n
        class Sub(GTile):
            klass = ('SRTile', 'Tile')
            data = property(lambda s, read=data_: read(there(s.e))[0])
        for q in ('min_x', 'min_y', 'max_x', 'max_y', 'width', 'height'): setattr(Sub, q, property(lambda s, f=fn('%s_of%d' % (q, w), I, z3.RealSort()): SNum(f(s.e))))
        edge.__dict__['tiles'] = newarr(lambda i, Sub=Sub, ex=ex, nx=nx: Sub(z3.If(ex(zi(SNum(lift(i[0])) * nx + SNum(lift(i[1])))), zi(SNum(lift(i[0])) * nx + SNum(lift(i[1]))) + 1, 0)), (ny, nx), 'object'); ts[w] = edge
        def hits(k, w=w, read=data_, edge=edge): d, n = read(k.e); return count(n, lambda p: And(near(w, edge, d, b)(p), sametuple(d, p, val)))
        runs.append((N, Sum(N, lambda k, ex=ex: SBool(ex(zi(k))), hits, I)))
    def inv(env, it):
        l = [r for r in runs if C.valid(lift(it.n) == lift(r[0]))]
        if len(l) != 1: raise Unsupported('loop over something else than the tiles of a neighbor')
        N, S = l[0]; v = pick1(env, lambda q: isinstance(q, Bag) or isinstance(q, VList) and all(isinstance(e, SStruct) for e in q), 'list of point arrays'); t0 = Bag(val, 0, SBool(z3.BoolVal(False))).read(env[v])[0]
        return loops.Inv(vars={v: lambda k: Bag(val, t0 + S.at(k))}, facts=lambda k: [('not less than none', S.at(k) >= 0)])
    class Grid_(bm.BathyGrid): get_tile_neighbors = lambda s, til: VList(ts)
    cat = bm.np.concatenate; bm.np.concatenate = lambda l, *a, **k: Joined(l) if isinstance(l, Bag) else cat(l, *a, **k)
    try:
        loops.INV['*'] = inv; g = new(Grid_); reachable(); out = g.get_tile_neighbor_points('tile', b); reachable('after'); total = SNum(z3.IntVal(0))
        for N, S in runs: total = total + S.p(N)
        if out is None: ensure('nothing is left out', lambda: total == 0)
        else: ensure('exactly the points within the buffer, each once', lambda: And(isinstance(out, Joined), out.bag.total == total))
    finally: bm.np.concatenate = cat
for have in ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 1, 1), (1, 0, 0, 1)):
    contract(B + 'get_tile_neighbor_points', 'neighbor points, sub grids of any size: %s' % ', '.join(q for q, h in zip(NAMES, have) if h))(lambda have=have: anysub(have))
