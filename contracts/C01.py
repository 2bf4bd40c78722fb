from loopkit import *
U = 'bathygrid/utilities.py:'
def edges(name, n):
    e = array(name, n)
    everywhere([n, n], lambda i, j: Implies(i < j, e[i] < e[j]))
    return e
def inside(p, e):
    n = e.shape[0]; everywhere(p.shape[0], lambda i: And(p.get(i) >= e.get(0), p.get(i) < e.get(lift(n - 1))))
@contract(U + 'bin2d_with_indices', 'every point gets the one half open bin that contains it')
def bins():
    n, ex, ey = size('n'), size('ex', 2), size('ey', 2)
    x, y = array('x', n), array('y', n); xe, ye = edges('xe', ex), edges('ye', ey)
    C.term(ex, 0); C.term(ey, 0); C.term(ex, lift(ex - 1)); C.term(ey, lift(ey - 1))
    inside(x, xe); inside(y, ye)
    p = index('p', n); reachable()
    out = mod('utilities').bin2d_with_indices(x, y, xe, ye)
    ensure('one index per point', out.shape[0] == n)
    v = out[p]
    # r, c: the only row and column whose bin contains the point
    r, c = index('r', ey), index('c', ex); require(And(r < ey - 1, c < ex - 1))
    require(And(ye[r] <= y[p], y[p] < ye[r + 1], xe[c] <= x[p], x[p] < xe[c + 1])); C.term(ey, lift(r + 1)); C.term(ex, lift(c + 1))
    reachable('bin')
    ensure('row-major index of the containing bin', v == r * (ex - 1) + c)
    ensure('index inside the bins', And(v >= 0, v < (ey - 1) * (ex - 1)))
class Part:
    isdask = True
    def __init__(s, b, i): s.b, s.i = b, i; s.shape = (b.cut(i + 1) - b.cut(i),); s.size = s.shape[0]; s.ndim = 1
    def compute(s): o = s.b.cut(s.i); rd = s.b.arr.get; return newarr(lambda j: rd(zi(o + SNum(zi(j[0])))), s.shape, s.b.arr.dtype)
class Parts:
    def __init__(s, b): s.b = b
    def __getitem__(s, i):
        if not isinstance(i, (int, SNum)): raise Unsupported('partitions by something else than a number')
        return Part(s.b, SNum(zi(i)))
class Blocks:
    """dask array of any number of partitions of any size: partition i is [cut(i), cut(i + 1))"""
    isdask = True; ndim = 1
    def __init__(s, name, arr):
        s.arr, s.shape, s.size, s.dtype = arr, arr.shape, arr.shape[0], arr.dtype; K = s.npartitions = size(name + '_partitions', 1); f = fn(name + '_cut', I, I); s.cut = lambda k: SNum(f(zi(k))); n = lift(s.size)
        s.partitions = Parts(s); s.chunks = s.blocks = None
        C.assume(z3.And(f(0) == 0, f(lift(K)) == n)); C.forall([K], lambda k: C.assume(z3.Implies(z3.And(k >= 0, k < lift(K)), z3.And(f(k) >= 0, f(k) <= f(z3.simplify(k + 1)), f(z3.simplify(k + 1)) <= n))))
    def compute(s): return s.arr.copy()
class Collected:
    """list a loop appends one array per iteration to: those arrays joined are the first cut(k) values of what one of `known` is"""
    def __init__(s, F, k): s.F, s.k, s.new = F, SNum(zi(k)), []
    def append(s, v):
        if C.log is not None: C.log.append(s)
        C.mutate(s, 'new', s.new + [v])
    def same(s, o):
        if isinstance(o, VList): return s.k == 0 if not len(o) else False
        if not isinstance(o, Collected) or o.F is not s.F or s.new or len(o.new) > 1: return False
        F = s.F
        if not o.new:
            if F.what is not None: raise Unsupported('list that grows now and then')
            F.learn('idle'); return True
        v = o.new[0]
        if F.how == 'idle' or not isinstance(v, SArr) or v.ndim != 1: raise Unsupported('list of something else')
        for q in ([F.how] if F.what else range(len(F.known))):
            b, val = F.known[q]
            n = b.cut(o.k + 1) - b.cut(o.k)
            if not C.valid(lift(v.shape[0]) == lift(n)): continue
            C.solver.push(); m = len(C.trail)
            try:
                j = C.fresh('j'); C.assume(z3.And(j >= 0, j < lift(n))); C.term(v.shape[0], j); ok = C.valid(lift(v.get(j)) == lift(val(b.cut(o.k) + SNum(j))))
            finally: C.solver.pop(); C.undo_to(m)
            if ok: F.learn(q); return s.k == o.k + 1
        raise Unsupported('arrays collected by the loop are not recognised')
    def joined(s):
        if s.new or s.F.what is None: raise Unsupported('list of unknown arrays')
        if not C.decide(lift(s.k) > 0): raise ValueError('need at least one array to concatenate')
        b, val = s.F.what; return newarr(lambda i: val(SNum(zi(i[0]))), (b.cut(s.k),), 'int64')
    def __iter__(s, *a): raise Unsupported('list collected by a loop')
    __len__ = __getitem__ = __bool__ = __contains__ = sort = remove = pop = index = extend = insert = __iter__
class Known:
    """what a list collects, learned in the iterations, which come before the code after the loop"""
    def __init__(s, known, memo, key): s.known, s.memo, s.key = known, memo, key
    how = property(lambda s: s.memo.get(s.key)); what = property(lambda s: s.known[s.how] if isinstance(s.how, int) else None)
    def learn(s, v): s.memo[s.key] = v
def dask(mix, memo):
    nloop = [0]
    n, ex, ey = size('n'), size('ex', 2), size('ey', 2); x, y = array('x', n), array('y', n); xe, ye = edges('xe', ex), edges('ye', ey)
    C.term(ex, 0); C.term(ey, 0); C.term(ex, lift(ex - 1)); C.term(ey, lift(ey - 1)); inside(x, xe); inside(y, ye); known = []
    bx, by = Blocks('x', x), Blocks('y', y)
    if mix == 'same': by.npartitions, by.cut = bx.npartitions, bx.cut
    for b, e, m, q in ((bx, xe, ex, 'column'), (by, ye, ey, 'row')):
        f = fn(q, I, I)                     # the bin that contains the point: there is one, as the edges are sorted and the point is between the first and the last
        def of(i, f=f, b=b, e=e, m=m):
            k = f(zi(i)); C.term(m, k); C.term(m, z3.simplify(k + 1)); C.assume(z3.Implies(z3.And(zi(i) >= 0, zi(i) < lift(n)), z3.And(k >= 0, k < lift(m) - 1, lift(e.get(k)) <= lift(b.arr.get(zi(i))), lift(b.arr.get(zi(i))) < lift(e.get(z3.simplify(k + 1)))))); return SNum(k)
        known += [(b, of), (b, lambda i, of=of: of(i) + 1)]
    def inv(env, it):
        l = [k for k, v in env.items() if v is not UNDEF and (isinstance(v, VList) and not len(v) or isinstance(v, Collected) and v.F.how == 'idle')]
        if not l: raise Unsupported('loop over partitions without a list of results')
        nloop[0] += 1; F = {k: Known(known, memo, (nloop[0], k)) for k in l}; v = loops.Inv(vars={k: (lambda i, k=k: Collected(F[k], i)) for k in l}); v.learns = True; return v
    loops.INV['*'] = inv; real = np.concatenate
    np.concatenate = lambda l, *a, **k: l.joined() if isinstance(l, Collected) and not a and not k else real(l, *a, **k)
    try:
        p = index('p', n); reachable(); out, exc = raises(lambda: mod('utilities').bin2d_with_indices(bx, by, xe, ye))
    finally: np.concatenate = real
    ensure('partitions of any number and size are accepted', exc is None)
    if exc is not None: return
    ensure('one index per point', out.shape[0] == n); v = out[p]
    r, c = index('r', ey), index('c', ex); require(And(r < ey - 1, c < ex - 1)); require(And(ye[r] <= y[p], y[p] < ye[r + 1], xe[c] <= x[p], x[p] < xe[c + 1])); C.term(ey, lift(r + 1)); C.term(ex, lift(c + 1)); reachable('bin')
    ensure('row-major index of the containing bin', v == r * (ex - 1) + c)
contract(U + 'bin2d_with_indices', 'dask arrays: the same index for any partitions')(lambda memo={}: dask('any', memo))
contract(U + 'bin2d_with_indices', 'dask arrays: the same index for any partitions, those of x and y alike')(lambda memo={}: dask('same', memo))
