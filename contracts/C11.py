from loopkit import *
CONTRACTS.clear()
B = 'bathygrid/bgrid.py:BathyGrid.'
INT = ('density', 'hypothesis_count')
class Rezs(SymSeqBase):
    """resolutions of a grid, any number of them, in any order; sorted they are those of the query"""
    def __init__(s, q): s.q = q
    def vsorted(s, reverse=False): return s.q if not reverse else SymSeq(s.q.n, lambda k: s.q.at(z3.simplify(lift(s.q.n) - 1 - lift(k))))
    def __iter__(s): raise Unsupported('resolutions used without sorting')
def query(layer, nodata, given, scalar):
    bm = mod('bgrid'); n = 1 if scalar else size('number_of_locations', 1); m = 1 if given else size('number_of_resolutions', 1); rez = fn('resolution', I, z3.RealSort()); RS = z3.RealSort()
    X, Y = fn('x', I, RS), fn('y', I, RS); NX, NY, EX, EY, SV, SN = fn('columns', I, I), fn('rows', I, I), fn('edge_x', I, I, RS), fn('edge_y', I, I, RS), fn('surface', I, I, I, RS), fn('surface_nan', I, I, I, z3.BoolSort())
    COL, ROW = fn('containing_column', I, I, I), fn('containing_row', I, I, I); nd = Real('nodata') if nodata else None; isint = layer in INT
    ndv = (nd if nodata else float('nan')); known = set()
    def surface(k):
        """grid layer at resolution k: ascending cell edges and a value or no data for every cell"""
        k = z3.simplify(k); nx, ny = SNum(NX(k)), SNum(NY(k)); C.assume(z3.And(nx.e >= 1, ny.e >= 1))
        for N, E in ((nx, EX), (ny, EY)): everywhere([N + 1, N + 1], lambda i, j, E=E: SBool(z3.Implies(i.e < j.e, E(k, i.e) < E(k, j.e)))); C.term(N + 1, 0); C.term(N + 1, lift(N))
        for N, E, P, f in ((nx, EX, X, COL), (ny, EY, Y, ROW)):
            def inside(i, N=N, E=E, P=P, f=f):
                c = f(k, i); C.assume(z3.Implies(z3.And(i >= 0, i < lift(n), E(k, 0) <= P(i), P(i) < E(k, N.e)), z3.And(c >= 0, c < N.e, E(k, c) <= P(i), P(i) < E(k, z3.simplify(c + 1))))); C.term(N + 1, c); C.term(N + 1, z3.simplify(c + 1))
            C.forall([n], inside)
        return nx, ny
    contains = lambda k, i: z3.And(EX(k, 0) <= X(i), X(i) < EX(k, NX(k)), EY(k, 0) <= Y(i), Y(i) < EY(k, NY(k)))
    cell = lambda k, i: (SV(k, ROW(k, i), COL(k, i)), z3.BoolVal(False) if nodata or isint else SN(k, ROW(k, i), COL(k, i)))      # cells without data hold the no data value (C09)
    def missing(v, nan):
        r = v == nd.e if nodata else nan
        return z3.Or(r, z3.And(z3.Not(nan), v == 0)) if isint else r
    FV, FN = fn('answer', I, I, RS), fn('answer_nan', I, I, z3.BoolSort())      # answer for location i after the first k resolutions
    C.forall([n], lambda i: C.assume(z3.And(FN(i, 0) == z3.BoolVal(not nodata), *([FV(i, 0) == nd.e] if nodata else []))))
    def unfold(i, k):
        v, b = cell(k, i); t = z3.And(missing(FV(i, k), z3.BoolVal(False) if nodata else FN(i, k)), contains(k, i)); k1 = z3.simplify(k + 1)
        C.assume(z3.Implies(z3.And(i >= 0, i < lift(n), k >= 0, k < lift(m)), z3.And(FV(i, k1) == z3.If(t, v, FV(i, k)), FN(i, k1) == z3.If(t, b, FN(i, k)))))
    C.forall([n, m], unfold)
    if m == 1: C.term(m, 0)
    if scalar: C.term(n, 0)
    ans = lambda i, k: SNum(FV(zi(i), zi(k)), False if nodata else FN(zi(i), zi(k)))
    class Grid_(bm.BathyGrid):
        def return_surf_xyz(s, *a, **kw):
            b = sig.bind(s, *a, **kw); b.apply_defaults(); b = b.arguments; e = z3.simplify(lift(b['resolution']))
            if e.num_args() != 1 or not e.decl().eq(rez(0).decl()): raise Unsupported('another resolution is asked')
            ensure('the layer is asked with cell edges and with the no data value', And(b['layer'] == layer, b['cell_boundaries'] is True, same(b['nodatavalue'], ndv)))
            k = e.arg(0); nx, ny = surface(k); C.term(m, k)
            s_ = newarr(lambda i: SNum(SV(k, zi(i[0]), zi(i[1])), False if nodata or isint else SN(k, zi(i[0]), zi(i[1]))), (ny, nx), 'float32')
            return newarr(lambda i: SNum(EX(k, zi(i[0]))), (nx + 1,), 'float64'), newarr(lambda i: SNum(EY(k, zi(i[0]))), (ny + 1,), 'float64'), VList([s_]), VList([0, 0]), VList([1, 1])
    sig = inspect.signature(bm.BathyGrid.return_surf_xyz); C.forall([m], lambda k: C.assume(rez(k) > 0))
    q = SymSeq(SNum(lift(m)), lambda k: SNum(rez(zi(k)))); g = new(Grid_, resolutions=Rezs(q))
    x, y = (SNum(X(0)), SNum(Y(0))) if scalar else (newarr(lambda i: SNum(X(zi(i[0]))), (n,), 'float64'), newarr(lambda i: SNum(Y(zi(i[0]))), (n,), 'float64'))
    def inv(env, it):
        over(it, m)
        if scalar: return loops.Inv(vars={pick1({v: env[v] for v in env if v not in ('nodatavalue', 'resolution', 'x_loc', 'y_loc')}, lambda v: isinstance(v, (SNum, float)) and C.valid(same_num(v, ndv)), 'answer'): lambda k: ans(0, k.e)})
        a = [v for v in env.values() if isinstance(v, SArr) and len(v.shape) == 1 and v is not x and v is not y and isfloat(v.dtype.kind) and C.valid(lift(v.shape[0]) == lift(n))]
        if len(set(map(id, a))) != 1: raise Unsupported('answers are not recognised')
        return loops.Inv(boxes=[(a[0], lambda k, i: ans(i[0], k.e))], free=[v for v in env if env[v] is a[0]])
    loops.INV['*'] = inv; i = z3.IntVal(0) if scalar else index('i', n).e
    xo, yo = (None, None) if scalar else (x.snap(), y.snap()); reachable(); out = g.layer_values_at_xy(x, y, layer, SNum(rez(0)) if given else None, ndv); reachable('after')
    v = out if scalar else out[SNum(i)]; j = None if scalar else SNum(i)
    if not scalar: ensure('one answer for each location, and the locations are not changed', lambda: And(SNum(lift(out.shape[0])) == n, same(x[j], SNum(X(i))), same(y[j], SNum(Y(i)))))
    data = lambda k: z3.And(contains(zi(k), i), z3.Not(missing(*cell(zi(k), i)))); no = lambda a: missing(lift(a) if isinstance(a, SNum) else z3.RealVal(0), zb(nanof(a))) if isinstance(a, SNum) or a != a else z3.BoolVal(a == 0 and isint)
    def case(): C.solver.push(); return len(C.trail)
    def end(d): C.solver.pop(); C.undo_to(d)
    d = case(); w = index('first', m); C.assume(data(w.e)); everywhere(m, lambda k: SBool(z3.Implies(k.e < w.e, z3.Not(data(k.e)))))
    induction('answers up to the first resolution with data', m, lambda k: SBool(z3.If(k.e <= w.e, no(ans(i, k)), same_num(ans(i, k), SNum(*cell(w.e, i))))))
    ensure('the answer is the value of the cell that contains the location, of the first resolution with data there', same(v, SNum(*cell(w.e, i)))); end(d)
    d = case(); everywhere(m, lambda k: SBool(z3.Not(data(k.e)))); induction('answers without data', m, lambda k: SBool(no(ans(i, k))))
    ensure('no data where no resolution has data', SBool(no(v))); end(d)
    d = case(); everywhere(m, lambda k: SBool(z3.Not(contains(k.e, i)))); induction('answers outside of the grid', m, lambda k: same(ans(i, k), ndv))
    ensure('the no data value outside of the grid', same(v, ndv)); end(d)
for layer in ('depth', 'density'):
    for nodata in (False, True):
        for given in (False, True):
            for scalar in (False, True):
                contract([B + 'layer_values_at_xy', B + '_validate_layer_query'], 'query_%s_%s%s%s' % (layer, 'number' if nodata else 'nan', '_given' if given else '', '_scalar' if scalar else ''))(lambda l=layer, n=nodata, g=given, s=scalar: query(l, n, g, s))
