"""contracts of functions that other functions call: the caller is verified against these (precondition proved at the call,
postcondition assumed), and the contract file of the property that owns the function verifies its body against the same text"""
from contract import *
def pre(what, c): C.prove('precondition of ' + what, c)
def arbitrary(n, base='pre'):
    """an arbitrary index of [0, n), inside scratch()"""
    return C.skolem(base, n)
def for_all(what, ns, fn):
    """prove fn for every index of the domains ns"""
    def f():
        ks = [arbitrary(n) for n in ns]; C.noguard += 1
        try: pre(what, fn(*ks))
        finally: C.noguard -= 1
    C.solver.push(); m = len(C.trail)
    try: f()
    finally: C.solver.pop(); C.undo_to(m)
# ------------------------------------------------------------------------------------------------ utilities.bin2d_with_indices
def containing(edges, values, name):
    """position p -> the only index k with edges[k] <= values[p] < edges[k + 1]"""
    f = z3.Function('%s!%d' % (name, next(C.idgen)), z3.IntSort(), z3.IntSort()); n = edges.shape[0]; e, v = edges.snap(), values.snap(); d = values.shape[0]
    def at(p):
        p = zi(p); t = f(p); key = ('containing', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); k = SNum(t)
            C.assume(z3.Implies(z3.And(p >= 0, p < lift(d)), z3.And(zb(k >= 0), zb(k < n - 1), zb(SNum(lift(e((t,)))) <= v((p,))), zb(SNum(lift(v((p,)))) < e((z3.simplify(t + 1),))))))
            C.term(n, t)
        return SNum(t)
    C.forall([d], lambda p: at(p))
    return at
def inside_edges(edges, values, what):
    n = edges.shape[0]
    for_all(what + ': the points are inside the edges', [values.shape[0]], lambda p: And(edges.get(z3.IntVal(0)) <= values.get(p), values.get(p) < edges.get(lift(n - 1))))
def ascending(edges, what):
    for_all(what + ': edges ascend', [edges.shape[0]] * 2, lambda i, j: Implies(i < j, edges.get(i) < edges.get(j)))
def bin2d(x, y, x_edges, y_edges):
    w = 'bin2d_with_indices'
    ascending(x_edges, w); ascending(y_edges, w); inside_edges(x_edges, x, w); inside_edges(y_edges, y, w)
    samedim(x.shape, y.shape)
    col, row = containing(x_edges, x, 'bin_col'), containing(y_edges, y, 'bin_row'); nx = x_edges.shape[0] - 1
    r = newarr(lambda i: row(i[0]) * nx + col(i[0]), x.shape, 'int64'); r.rowcol = (row, col)
    return r
# ------------------------------------------------------------------------------------------------ algorithms
HINT = {}
def cell_of(ci, K): return lambda r, c: (lambda p: ci((zi(p),)) == SNum(lift(r)) * K + SNum(lift(c)))
def mean_cell(n, ci, K, val, old):
    """value of cell (r, c): mean of val over the points with that cell index, the old value without points"""
    def f(r, c):
        here = cell_of(ci, K)(r, c); cnt = count(n, here)
        return If(cnt > 0, total(n, here, lambda p: val((zi(p),))) / cnt, old(r, c))
    return f
def min_cell(n, ci, K, val, old):
    def f(r, c):
        here = cell_of(ci, K)(r, c); cnt = count(n, here)
        return If(cnt > 0, least(n, here, lambda p: val((zi(p),))), old(r, c))
    return f
def count_cell(n, ci, K, old):
    def f(r, c):
        cnt = count(n, cell_of(ci, K)(r, c)); return If(cnt > 0, cnt, old(r, c))
    return f
def update(grid, fn):
    """grid[r, c] = fn(r, c) in every cell"""
    if not grid.plain: raise Unsupported('contract applied to a view')
    if grid.box.pieces is not None: C.mutate(grid.box, 'pieces', None)
    dt = grid._dtype; grid.box.write(lambda idx: True, lambda idx: coerce(fn(zi(idx[0]), zi(idx[1])), dt))
def old(grid):
    f = grid.snap(); return lambda r, c: f((r, c))
def kernel_pre(what, depth, ci, grid):
    n = depth.shape[0]; R, K = grid.shape
    pre(what + ': at least one point', SNum(lift(n)) >= 1); pre(what + ': one index per point', lift(ci.shape[0]) == lift(n))
    for_all(what + ': indices are cells of the grid', [n], lambda p: And(ci.get(p) >= 0, ci.get(p) < SNum(lift(R)) * K))
    h = HINT.get('cell')
    if h is not None:
        # cut: the indices are the expected ones (proved here), the postcondition is stated with those
        for_all(what + ': the cell index of every point is that of the containing cell', [n], lambda p: ci.get(p) == h(p))
        return n, (lambda i: h(SNum(lift(i[0])))), K
    return n, ci.snap(), K
def given(a, g): return const(a.size) != 0 and const(g.size) != 0
def grid_mean(depth, ci, grid, density, tvu, thu, tvu_grid, thu_grid):
    n, ix, K = kernel_pre('np_grid_mean', depth, ci, grid)
    pairs = [(grid, depth)] + [(g, a) for a, g in ((tvu, tvu_grid), (thu, thu_grid)) if given(a, g)]
    for g, a in pairs: update(g, mean_cell(n, ix, K, a.snap(), old(g)))
    update(density, count_cell(n, ix, K, old(density)))
    return grid, tvu_grid, thu_grid
def grid_shoalest(depth, ci, grid, density, tvu, thu, tvu_grid, thu_grid):
    n, ix, K = kernel_pre('np_grid_shoalest', depth, ci, grid); z = depth.snap()
    f = z3.Function('shoalest_point!%d' % next(C.idgen), z3.IntSort(), z3.IntSort(), z3.IntSort())
    def point(r, c):
        """the same point of the cell for both uncertainties"""
        here = cell_of(ix, K)(r, c); t = f(r, c); key = ('shoalest_point', t.get_id()); cnt, low = count(n, here), least(n, here, lambda p: z((zi(p),)))
        if key not in C.memo:
            C.setmemo(key, t); C.assume(z3.Implies(zb(cnt > 0), z3.And(t >= 0, t < lift(n), zb(here(t)), zb(z((t,)) == low)))); C.term(n, t)
        return t, cnt
    for a, g in ((tvu, tvu_grid), (thu, thu_grid)):
        if given(a, g):
            o, v = old(g), a.snap()
            def cell(r, c, o=o, v=v):
                t, cnt = point(r, c); return If(cnt > 0, v((t,)), o(r, c))
            update(g, cell)
    update(grid, min_cell(n, ix, K, z, old(grid))); update(density, count_cell(n, ix, K, old(density)))
    return grid, tvu_grid, thu_grid
def install(m, **specs):
    """verify the functions of module m against the contracts of these callees"""
    for k, v in specs.items(): setattr(m, k, v)
