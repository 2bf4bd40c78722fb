"""grids of any number of tiles, and loop invariants over them"""
from contract import *
I = z3.IntSort()
def fn(name, *sorts): return z3.Function(name, *sorts)
class GTile(loops.Obj):
    """one of the tiles: its attributes are functions of its number"""
    klass = ('SRTile', 'Tile')
def tiles(cls, ny, nx, name='tile_at', where=None):
    """array of tiles, no tile at some places; at(r, c) is the number of the tile"""
    f = z3.Function(name, I, I, I); at = lambda r, c: SNum(f(zi(r), zi(c))); everywhere([ny, nx], lambda r, c: at(r, c) >= 0)
    return newarr(lambda i: cls(f(zi(i[0]), zi(i[1]))), (ny, nx), 'object'), at
class Sum:
    """sum of val(t) over the positions k < n with cond(k): before position k it is at(k)"""
    def __init__(s, n, cond, val, sort=None):
        s.sort = z3.RealSort() if sort is None else sort; s.n = n; s.c = lambda k: zb(free(cond)(SNum(lift(k)))); s.v = lambda k: free(val)(SNum(lift(k)))
        s.p = loops.Prefix(n, lambda k, acc: If(SBool(s.c(k.e)), acc + s.v(k.e), acc), 0, s.sort); t = agg('sum', n, s.c, s.v); s.all = s.p(n); C.assume(toreal(s.all.e) == toreal(t.e))
    def at(s, k): return s.p(k.e if isinstance(k, SNum) else k)
class Any:
    """whether cond(k) holds at some position: before position k it is at(k)"""
    def __init__(s, n, cond):
        s.n = n; s.c = lambda k: zb(free(cond)(SNum(lift(k)))); s.p = loops.Prefix(n, lambda k, acc: Or(acc, SBool(s.c(k.e))), False, z3.BoolSort())
        b = s.p(n).e; w = s.w = C.fresh('anyw'); C.assume(z3.Implies(b, z3.And(w >= 0, w < lift(n), s.c(w)))); C.term(n, w); C.forall([n], lambda k: C.assume(z3.Implies(z3.And(k >= 0, k < lift(n), s.c(k)), b))); s.all = SBool(b)
    def at(s, k): return s.p(k.e if isinstance(k, SNum) else k)
def over(it, n):
    """the loop runs over the n positions the invariant is about"""
    if not isinstance(it, SymSeqBase) or not C.valid(lift(it.n) == lift(n)): raise Unsupported('loop over something else than the invariant is about')
    return it
def pick1(env, ok, what='accumulator'):
    """the only variable with such a value before the loop"""
    l = [k for k, v in env.items() if v is not UNDEF and not isinstance(v, loops.Poison) and ok(v)]
    if len(l) != 1: raise Unsupported('%s of the loop not recognised: %s' % (what, l))
    return l[0]
def zero(v): return isinstance(v, (int, float, SNum)) and not isinstance(v, bool) and const(v) == 0
def empty(v): return isinstance(v, (VList, loops.VDict)) and len(v) == 0
def summing(n, S): return lambda env, it: loops.Inv(vars={pick1(over(it, n) and env, zero): lambda k: S.at(k)})
class GList:
    """list that belongs to a tile"""
    def __init__(s, e, what): s.e, s.what = zi(e), what
    def eq(s, o): return SBool(s.e == o.e) if isinstance(o, GList) and s.what == o.what else False
def position(it, k): return it.at(k.e)
def free_state(f):
    def g(*a):
        C.nodecide += 1
        try: return f(*a)
        finally: C.nodecide -= 1
    return g
class Max:
    """largest val(t) over the positions k < n with cond(k): before position k it is at(k), if there is one (some.at(k))"""
    def __init__(s, n, cond, val, some=None):
        s.n = n; s.some = some or Any(n, cond); v = lambda k: free(val)(SNum(lift(k))); c = s.some.c; sort = lift(v(z3.IntVal(0))).sort()
        s.p = loops.Prefix(n, lambda k, acc: If(SBool(c(k.e)), If(s.some.at(k), If(acc >= v(k.e), acc, v(k.e)), v(k.e)), acc), 0, sort); C.assume(z3.Implies(s.some.all.e, toreal(s.p(n).e) == toreal(agg('max', n, c, v).e))); s.all = s.p(n)
    def at(s, k): return s.p(k.e if isinstance(k, SNum) else k)
class Largest:
    """list of numbers of which only the largest is followed: whether there is one, and it"""
    def __init__(s, some, val): s.some, s.val = zb(some), val
    def append(s, v):
        if C.log is not None: C.log.append(s)
        o, w = s.some, s.val; C.mutate(s, 'val', If(SBool(o), If(w >= v, w, v), v)); C.mutate(s, 'some', z3.BoolVal(True))
    def same(s, o):
        if isinstance(o, Largest): return z3.And(s.some == o.some, z3.Implies(s.some, toreal(lift(s.val)) == toreal(lift(o.val))))
        return z3.Not(s.some) if isinstance(o, VList) and not len(o) else False
    def __bool__(s): return C.decide(s.some)
    def vlen(s): n = SNum(C.fresh('length')); C.assume(z3.And(n.e >= 0, (n.e > 0) == s.some)); return n
    def vmax(s):
        if not C.decide(s.some): raise ValueError('max() arg is an empty sequence')
        return s.val
    def __iter__(s, *a): raise Unsupported('list of which the largest is followed')
    __getitem__ = __contains__ = __len__ = vmin = sort = remove = pop = index = extend = insert = __iter__
def induction(name, n, P):
    """P(k) for all k <= n, by induction: both parts are obligations, the conclusion is then assumed"""
    P = free(P)
    C.nodecide += 0
    ensure(name + ' (induction, start)', P(SNum(z3.IntVal(0))))
    C.solver.push(); m = len(C.trail)
    try:
        k = C.fresh('induct'); C.assume(z3.And(k >= 0, k < lift(n))); C.term(n, k); C.assume(zb(P(SNum(k)))); C.prove(C.cur + ': ' + name + ' (induction, step)', P(SNum(z3.simplify(k + 1))))
    finally: C.solver.pop(); C.undo_to(m)
    h = lambda k: C.assume(z3.Implies(z3.And(k >= 0, k <= lift(n)), zb(P(SNum(k)))))
    C.forall([n], h); h(lift(n)); return h
class Series:
    """values val(t) of the positions t < n with cond(t)"""
    def __init__(s, n, cond, val, num=True, some=None):
        s.n, s.c, s.v = n, (lambda k: zb(free(cond)(SNum(lift(k))))), (lambda k: free(val)(SNum(lift(k)))); s.some = some or Any(n, cond)
        if num: s.max = Max(n, cond, val, s.some); s.neg = Max(n, cond, lambda k: -s.v(k.e), s.some)
    def least(s, k=None): return -(s.neg.all if k is None else s.neg.at(k))
    def largest(s, k=None): return s.max.all if k is None else s.max.at(k)
class Coll:
    """list that a loop collects: the values of a series at the positions before k, in order, and what this iteration added"""
    def __init__(s, F, k): s.F, s.k, s.new = F, zi(k), []
    def append(s, v):
        if C.log is not None: C.log.append(s)
        C.mutate(s, 'new', s.new + [v])
    def same(s, o):
        if isinstance(o, VList): return s.k == 0 if not len(o) else False
        if not isinstance(o, Coll) or o.F is not s.F or s.new: return False
        c = s.F.c(o.k); d = {0: z3.Not(c), 1: z3.And(c, zb(loops.same_state(o.new[0], s.F.v(o.k))))}.get(len(o.new), z3.BoolVal(False)) if len(o.new) else z3.Not(c)
        return z3.Or(z3.And(s.k == o.k + 1, d), z3.And(s.k == o.k, z3.BoolVal(not o.new)))
    def ext(s, kind):
        f = s.F.largest if kind == 'max' else s.F.least; r = None
        if C.decide(zb(s.F.some.at(s.k))): r = f(s.k)
        for v in s.new: r = v if r is None else If((r >= v) if kind == 'max' else (r <= v), r, v)
        if r is None: raise ValueError('%s() arg is an empty sequence' % kind)
        return r
    def vmax(s): return s.ext('max')
    def vmin(s): return s.ext('min')
    def __bool__(s): return bool(s.new) or C.decide(zb(s.F.some.at(s.k)))
    def symseq_(s):
        if s.new: raise Unsupported('list read in the iteration that adds to it')
        return loops.SymSel(SNum(s.k), s.F.c, s.F.v)
    def __getitem__(s, i):
        if not isinstance(i, int) or i or s.new: raise Unsupported('element of a collected list')
        if not C.decide(zb(s.F.some.at(s.k))): raise IndexError('list index out of range')
        w = C.fresh('first'); C.assume(z3.And(w >= 0, w < s.k, s.F.c(w))); C.term(s.F.n, w); C.forall([s.F.n], lambda t: C.assume(z3.Implies(z3.And(t >= 0, t < w), z3.Not(s.F.c(t))))); return s.F.v(w)
    def __iter__(s, *a): raise Unsupported('list collected by a loop')
    __len__ = sort = remove = pop = index = extend = insert = __contains__ = __iter__
import re
def parse(t):
    """literal text and the numbers in it"""
    l = re.findall('\u2039\\d+\u203a', t)
    if any(q not in TEXT for q in l): raise Unsupported('number written in another format')
    return re.sub('\u2039\\d+\u203a', '#', t), [TEXT[q] for q in l]
class Str:
    """any string (theory of strings)"""
    anytext = True
    def __init__(s, e): s.e = e
    def __bool__(s): return C.decide(z3.Length(s.e) > 0)
    def find(s, part, start=0): return SNum(z3.IndexOf(s.e, z3.StringVal(part), zi(start)))
    def vlen(s): return SNum(z3.Length(s.e))
    def vcontains(s, part): return SBool(z3.Contains(s.e, z3.StringVal(part)))
    def __contains__(s, part): return C.decide(s.vcontains(part).e)
    def __eq__(s, o): return SBool(s.e == z3.StringVal(o)) if isinstance(o, str) else SBool(s.e == o.e) if isinstance(o, Str) else False
    def __ne__(s, o): return Not(s == o) if isinstance(o, (str, Str)) else True
    __hash__ = object.__hash__
