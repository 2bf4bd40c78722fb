from gridkit import *
CONTRACTS.clear()
B, M = 'bathygrid/bgrid.py:BathyGrid.', 'bathygrid/bgrid.py:'
class Pending:
    """list of one entry, in order, for each selected position of [a, k), plus the entries added in this iteration"""
    def __init__(s, kind, sel, ok, a, k, n, used=None): s.used = used; s.kind, s.sel, s.ok, s.a, s.k, s.n = kind, sel, ok, zi(a), zi(k), zi(n); s.new = []; s.id = next(C.idgen)
    def append(s, v):
        if C.log is not None: C.log.append(s)
        C.mutate(s, 'new', s.new + [v])
    def vlen(s): return SNum(z3.simplify(s.n + len(s.new)))
    def __bool__(s):
        if s.new: return True
        C.forall([s.k], lambda p: C.assume(z3.Implies(z3.And(s.sel(p), s.a <= p, p < s.k), s.n > 0))); C.assume(s.n >= 0); s.used(s.a, s.k)
        return C.decide(s.n > 0)
    def same(s, o):
        """o, a list of the program, is what s describes"""
        if isinstance(o, VList): return z3.And(s.a == s.k, s.n == 0) if len(o) == 0 else False
        if not isinstance(o, Pending) or o.kind != s.kind: return False
        if len(o.new) > 1: return False
        if not o.new: return z3.And(o.a == s.a, o.n == s.n, z3.Or(o.k == s.k, z3.And(o.k + 1 == s.k, z3.Not(s.sel(o.k)))))
        return z3.And(o.a == s.a, o.n + 1 == s.n, o.k + 1 == s.k, s.sel(o.k), zb(s.ok(s.kind, o.k, o.new[0])))
def parallel(sub, root, upd, auto):
    bm = mod('bgrid'); L = Layout(sub); clear = Bool('clear_existing'); rz = Real('resolution'); pars = 'parameters'; events = []; w = size('workers', 1)
    sel = lambda p: z3.And(L.ex(zi(p)), z3.Not(zb(L.skip(zi(p), upd, clear))))
    gives = lambda p: z3.And(sel(p), L.one(p) == L.R.e if sub == 'srtile' else L.has(p, 1))
    SK, SE = Any(L.N, lambda p: SBool(z3.And(L.ex(p.e), z3.Not(sel(p.e)), L.has(p.e, 0)))), Any(L.N, lambda p: SBool(gives(p.e)))
    gh = {}      # start and number of the tiles that wait
    def block(a, end):
        """R is among the resolutions of the selected tiles of [a, end): what the positions before end give is what those before a give, and this"""
        x, w = C.fresh('in_block', z3.BoolSort()), C.fresh('block_at'); C.term(L.N, w); C.assume(z3.Implies(x, z3.And(a <= w, w < end, gives(w))))
        C.assume(z3.Implies(z3.And(a >= 0, a <= end, end <= lift(L.N)), zb(SE.at(SNum(end))) == z3.Or(zb(SE.at(SNum(a))), x))); return x
    class Cores:
        def vlen(s): return w
    class Client:
        def ncores(s): return Cores()
    def ok(kind, k, v):
        if kind == 'place': return isinstance(v, (int, SNum)) and SBool(lift(v) == k)
        return isinstance(v, (VList, tuple)) and len(v) and isinstance(v[0], L.GT) and SBool(v[0].e == k + 1)
    class Grid_(bm.BathyGrid):
        def _load_tile_data_to_memory(s, tile, only_points=False, only_grid=False): events.append(('memory', tile))
        def _save_tile(s, tile, flat_index, only_points=False, only_grid=False): events.append(('save', tile, flat_index))
        def _save_grid(s): events.append(('grid',))
        def _grid_parallel_worker(s, data_for_workers, progress_bar, tile_indices):
            """contract of the worker call, below: the tiles of the list are gridded and put at the places of the other list"""
            d, t = data_for_workers, tile_indices; events.append(('flush',))
            if not isinstance(d, Pending) or not isinstance(t, Pending): raise Unsupported('lists for the workers are not recognised')
            ensure('the tiles and their places belong together', And(d.kind == 'data', t.kind == 'place', SBool(z3.And(d.a == t.a, d.k == t.k)), len(d.new) == len(t.new) and len(d.new) <= 1))
            if d.new: ensure('the entries added last belong to this tile', And(ok('data', d.k, d.new[0]), ok('place', d.k, t.new[0])))
            end = z3.simplify(d.k + len(d.new)); f = L.done.box.fn
            C.mutate(L.done.box, 'fn', lambda i: SNum(lift(f(i)) + z3.If(z3.And(sel(i[0]), d.a <= zi(i[0]), zi(i[0]) < end), 1, 0)))
            if C.log is not None: C.log.append(L.done.box)
            x = block(d.a, end)
            q = s.resolutions
            if isinstance(q, VList): q = loops.Tracked([(L.R, SBool(z3.Or([z3.BoolVal(False)] + [lift(v) == L.R.e for v in q])))])
            s.resolutions = loops.Tracked([(L.R, SBool(z3.Or(zb(q.has[0][1]), x)))])
    g = new(Grid_, tiles=L.arr, sub_type=sub, name=NAME[sub, root], resolutions=VList([]), grid_parameters=pars, client=Client(), number_of_tiles=Int('number'))
    def step(k, env):
        mem = [e[1] for e in events if e[0] == 'memory']
        if mem: ensure('the data loaded is that of the tile', And(len(mem) == 1, SBool(mem[0].e == k.e + 1)))
        if sub == 'srtile': ensure('a tile that is handed out is in memory', Implies(SBool(sel(k.e)), len(mem) > 0))
    def inv(env, it):
        if isinstance(it, Rez): base = g.resolutions.has[0][1]; return loops.Inv(attrs=[(g, 'resolutions', lambda j: loops.Tracked([(L.R, SBool(z3.Or(zb(base), zb(it.any_.at(j)))))]))])
        over(it, L.N)
        if not all(empty(env.get(v)) for v in ('data_for_workers', 'tile_indices')): raise Unsupported('lists for the workers not recognised')
        def newghost(k): gh[str(k.e)] = C.fresh('block_start'), C.fresh('waiting')
        def ghost(k, env):
            d = env['data_for_workers']
            if isinstance(d, Pending): gh[str(k.e)] = d.a, d.n + len(d.new)
            else: gh[str(k.e)] = k.e, z3.IntVal(0)
        pend = lambda kind: lambda k: Pending(kind, sel, ok, gh[str(k.e)][0], k.e, gh[str(k.e)][1], block)
        return loops.Inv(vars={'data_for_workers': pend('data'), 'tile_indices': pend('place')}, havoc='ints', ghost=ghost, newghost=newghost, boxes=[(L.done, lambda k, i: SNum(z3.If(z3.And(sel(i[0]), zi(i[0]) < gh[str(k.e)][0]), z3.IntVal(1), z3.IntVal(0))))], attrs=[(g, 'resolutions', lambda k: loops.Tracked([(L.R, SBool(z3.Or(zb(SK.at(k)), zb(SE.at(SNum(gh[str(k.e)][0]))))))]))],
            facts=lambda k: [('the waiting tiles are a block before this place', SBool(z3.And(gh[str(k.e)][0] >= 0, gh[str(k.e)][0] <= k.e, gh[str(k.e)][1] >= 0)))], step=step)
    loops.INV['*'] = inv; reachable(); g._grid_parallel('mean', rz, clear, 'update' if upd else 'full', auto, False, None); reachable('after')
    p = index('p', L.N); ensure('exactly the tiles a sequential run grids are handed to the workers, once', lambda: L.done[p] == SNum(z3.If(sel(p.e), z3.IntVal(1), z3.IntVal(0))))
    if not isinstance(g.resolutions, loops.Tracked): raise Unsupported('resolutions of the grid are another kind of value')
    ensure('the resolutions reported are exactly those of the tiles', lambda: Iff(g.resolutions.has[0][1], Or(SK.all, SE.all)))
    ensure('the grid is saved at the end', events[-1:] == [('grid',)] and len([e for e in events if e[0] == 'grid']) == 1)
for *q, nm in cases(): contract([B + '_grid_parallel'], 'grouping any number of tiles for any number of workers: ' + nm)(lambda q=q: parallel(*q))
def worker_call(sub, root, upd, auto):
    """what the entry of a tile makes the worker do is what the sequential run does with the tile"""
    bm = mod('bgrid'); L = Layout(sub); require(And(L.nx == 1, L.ny == 1)); C.assume(z3.And(L.ex(0), z3.Not(zb(L.skip(z3.IntVal(0), upd, Bool('clear_existing')))))); clear = Bool('clear_existing'); rz = Real('resolution'); sent = []
    class Client:
        def ncores(s): return {'w': 1}
    class Grid_(bm.BathyGrid):
        _load_tile_data_to_memory = lambda s, *a, **k: None
        _save_grid = lambda s: None
        def _grid_parallel_worker(s, data_for_workers, progress_bar, tile_indices): sent.extend(data_for_workers)
    t = L.GT(z3.IntVal(1)); tl = newarr(lambda i: t, (1, 1), 'object'); g = new(Grid_, tiles=tl, sub_type=sub, name=NAME[sub, root], resolutions=VList([]), grid_parameters='parameters', client=Client(), number_of_tiles=1)
    reachable(); g._grid_parallel('mean', rz, clear, 'update' if upd else 'full', auto, False, None); e = once(sent, 'entry for the worker'); out = bm._gridding_parallel(e)
    ensure('the worker grids the tile once', len(L.calls) == 1); q, a, _ = L.calls[0]; called(L, a, q.e, sub, root, upd, auto, clear, rz, 'parameters')
    ensure('the worker returns the resolution and the tile', And(len(out) == 2, out[1] == t, out[0] == SNum(L.one(z3.IntVal(0))) if sub == 'srtile' else isinstance(out[0], Rez)))
for *q, nm in cases(): contract([B + '_grid_parallel', M + '_gridding_parallel'], 'a worker grids a tile like a sequential run: ' + nm)(lambda q=q: worker_call(*q))
def worker(sub):
    """any number of results of the workers are put at the places of the tiles they were computed from"""
    bm = mod('bgrid'); L = Layout(sub); m = size('m', 1); pl, rs, fn_ = fn('place_of', I, I), fn('tile_from_worker', I, I), []; events = []; base = Bool('reported_before')
    everywhere(m, lambda j: And(SNum(pl(j.e)) >= 0, SNum(pl(j.e)) < L.N, SNum(rs(j.e)) > 0)); everywhere([m, m], lambda i, j: Implies(i < j, SNum(pl(i.e)) < SNum(pl(j.e))))
    def result(j): j = zi(j); return (SNum(L.one(j)) if sub == 'srtile' else L.rez(j, 1), L.GT(rs(j)))
    entries = SymSeq(m, lambda j: ('entry', zi(j))); places = SymSeq(m, lambda j: SNum(pl(zi(j))))
    class Sent(SymSeq): pass
    class Client:
        """dask hands every entry to the function and gives the results in the same order (trusted)"""
        def scatter(s, d): return d
        def map(s, f, d):
            if f is not bm._gridding_parallel or not isinstance(d, SymSeqBase) or d is not entries: raise Unsupported('work is handed out in another way')
            return Sent(m, lambda j: ('future', zi(j)))
        def gather(s, f):
            if isinstance(f, VList) and len(f) == 1 and isinstance(f[0], Sent): return VList([SymSeq(m, result)])
            if isinstance(f, Sent): return SymSeq(m, result)
            raise Unsupported('results are collected in another way')
    bm.wait = bm.progress = lambda *a, **k: None
    class Grid_(bm.BathyGrid):
        def _save_tile(s, tile, flat_index, only_points=False, only_grid=False): events.append(('save', tile, flat_index, only_points))
        def _load_tile(s, flat_index, only_points=False, only_grid=False): events.append(('load', flat_index))
    g = new(Grid_, tiles=L.arr, sub_type=sub, name='n', resolutions=loops.Tracked([(L.R, base)]), client=Client())
    W = Witness(m, lambda j, pos: pl(j) == pos[0], 1); old = lambda p: L.at(p)
    def tile_k(k, i): p = L.pos(*i); h = W.hit((p,)); w = W.at((p,)); return L.GT(z3.If(z3.And(h, w < lift(k)), rs(w), old(p)))
    A_ = Any(m, lambda j: SBool(L.one(j.e) == L.R.e if sub == 'srtile' else L.has(j.e, 1)))
    def step(k, env):
        C.term(m, k.e); s = [e for e in events if e[0] == 'save']; l = [e for e in events if e[0] == 'load']
        if sub == 'srtile': ensure('the tile from the worker is saved at its place', lambda: len(s) == 1 and And(SBool(s[0][1].e == rs(k.e)), SBool(lift(s[0][2]) == pl(k.e)), Not(s[0][3])))
        ensure('it is loaded from its place', lambda: And(*[SBool(lift(e[1]) == pl(k.e)) for e in l]))
    def inv(env, it):
        if isinstance(it, loops.Flat2) or (sub == 'srtile' and isinstance(it.at(z3.IntVal(0)), SNum)):      # the resolutions
            if isinstance(it, loops.Flat2):
                B_ = Any(it.n, lambda k: SBool(lift(it.at(k.e)) == L.R.e))
                C.forall([it.n], lambda k: (it.seq(it.i(k)), C.term(it.seq(it.i(k)).n, it.j(k)))); C.forall([m], lambda i: ends(it, i))
            else: B_ = A_ if it.n is m or C.valid(lift(it.n) == lift(m)) else None
            return loops.Inv(attrs=[(g, 'resolutions', lambda k: loops.Tracked([(L.R, SBool(z3.Or(zb(base), zb(B_.at(k)))))]))])
        return over(it, m) and loops.Inv(boxes=[(L.arr, tile_k)], step=step)
    def ends(it, i):
        a = it.seq(i).any_; w = a.w; it.place(i, w)
    loops.INV['*'] = inv; reachable(); g._grid_parallel_worker(entries, False, places); reachable('after')
    j = index('j', m); r, c = index('r', L.ny), index('c', L.nx); p = L.pos(r, c); now = lambda q: (lambda t: z3.IntVal(0) if t is None else t.e)(g.tiles.box.fn(tuple(q)))
    q = [zi(v) for v in divpair(SNum(pl(j.e)), L.nx)]; C.term(L.ny, q[0]); C.term(L.nx, q[1])
    ensure('each result is stored at the place of its tile', lambda: SBool(now(q) == rs(j.e)))
    ensure('the other tiles stay', lambda: Or(SBool(W.hit((p,))), SBool(now((r.e, c.e)) == old(p))))
    ensure('the resolutions found are reported', lambda: Iff(g.resolutions.has[0][1], Or(base, A_.all)))
for s in ('srtile', 'grid'): contract([B + '_grid_parallel_worker'], 'results of the workers' + (', variable resolution' if s == 'grid' else ''))(lambda s=s: worker(s))
