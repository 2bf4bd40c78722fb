"""Loops over symbolic sequences, dictionaries and objects whose changes can be undone."""
from core import *
from arrays import *
import core, arrays, types
BREAK = object()
class Ret:
    def __init__(s, v): s.value = v
class VDict(dict):
    """python dict whose changes are undone on backtracking"""
    def __init__(s, *a, **k): dict.__init__(s, *a, **k); s.id = next(C.idgen)
    def _save(s):
        if C.log is not None: C.log.append(s)
        old = {k: dict.__getitem__(s, k) for k in dict.keys(s)}
        def undo(): dict.clear(s); dict.update(s, old)
        C.trail.append(undo)
    def __setitem__(s, k, v): s._save(); dict.__setitem__(s, k, v)
    def __delitem__(s, k): s._save(); dict.__delitem__(s, k)
    def pop(s, *a): s._save(); return dict.pop(s, *a)
    def update(s, *a, **k): s._save(); dict.update(s, *a, **k)
    def clear(s): s._save(); dict.clear(s)
    def setdefault(s, *a): s._save(); return dict.setdefault(s, *a)
    def copy(s): return VDict(s)
    __hash__ = object.__hash__
class SMap(VDict):
    """dict with the keys shown and any number of other entries like them: iterating it runs the loop body for the keys shown,
    which is sound because an iteration may only touch the entry of its own key (checked here)"""
    others = True; current = None
    def __iter__(s):
        for k in list(dict.keys(s)):
            old = s.current; object.__setattr__(s, 'current', (k,))
            try: yield k
            finally: object.__setattr__(s, 'current', old)
    def _own(s, k):
        if s.current is not None and not (k is s.current[0] or (isinstance(k, str) and k == s.current[0])): raise Unsupported('an iteration over a dictionary touches another entry')
    def __getitem__(s, k): s._own(k); return dict.__getitem__(s, k)
    def __setitem__(s, k, v):
        s._own(k)
        if s.current is not None and not dict.__contains__(s, k): raise RuntimeError('dictionary changed size during iteration')
        VDict.__setitem__(s, k, v)
    def symseq_(s): return SMapSeq(s, lambda k: k)
    def keys(s): return s
    def items(s): return SMapSeq(s, lambda k: (k, s[k]))
    def values(s): return SMapSeq(s, lambda k: s[k])
    def vlen(s): raise Unsupported('number of entries of a dictionary with arbitrary other entries')
    def __bool__(s): return True if dict.__len__(s) else C.decide(z3.Bool('nonempty!%d' % id(s)))
    def pop(s, k, *a):
        if s.current is not None: raise RuntimeError('dictionary changed size during iteration')
        return VDict.pop(s, k, *a)
    def copy(s): return SMap(dict(dict.items(s)))
class SMapSeq(SymSeqBase):
    """iteration over a dictionary with arbitrary other entries"""
    def __init__(s, m, f): s.m, s.f = m, f
    def symseq_(s): return s
    def __iter__(s): return (s.f(k) for k in s.m)
    def vlen(s): return s.m.vlen()
    def run(s, body, assigned, set_, name):
        """one iteration for each entry shown; nothing may be carried from one iteration to another in local variables"""
        def poison(): set_({v: Poison(v) for v in assigned})
        for k in s.m:
            poison(); r = body(s.f(k))
            if r is not None: raise Unsupported('loop over a dictionary with arbitrary entries ends early')
        poison()
class SDict: pass
class SName:
    """symbolic name (string): only compared with other names"""
    def __init__(s, e): s.e = e
    def __eq__(s, o): return SBool(s.e == o.e) if isinstance(o, SName) else False
    def __ne__(s, o): return SBool(s.e != o.e) if isinstance(o, SName) else True
    def __hash__(s): return 13
    def __repr__(s): return 'SName(%s)' % s.e
def instrument(cls):
    """attribute changes of instances are undone on backtracking"""
    def setattr_(s, k, v):
        had = k in s.__dict__; old = s.__dict__.get(k)
        desc = getattr(type(s), k, None)
        if isinstance(desc, property): object.__setattr__(s, k, v); return
        if not s.__dict__: C.born[id(s)] = (s, next(C.idgen))
        if C.log is not None: C.log.append((s, k))
        s.__dict__[k] = v
        if had: C.trail.append(lambda: s.__dict__.__setitem__(k, old))
        else: C.trail.append(lambda: s.__dict__.pop(k, None))
    if '__setattr__' not in cls.__dict__: cls.__setattr__ = setattr_
class Poison:
    """value of a variable after a loop whose invariant does not describe it"""
    def __init__(s, n): s.__dict__['n'] = n
    def _no(s, *a, **k): raise Unsupported('value of %s after a loop is not described by the loop invariant' % s.__dict__['n'])
    __getattr__ = __call__ = __bool__ = __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = __setitem__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __setattr__ = __neg__ = __truediv__ = __rmul__ = __rsub__ = __contains__ = __index__ = _no
    __hash__ = object.__hash__
class Obj:
    """reference to one of arbitrarily many objects: e is the number of the object, 0 is None; subclasses give its attributes"""
    OWN = ('e', '_ite', 'truth', 'isnone', 'vclass', 'sameas', 'same', 'klass')
    def __init__(s, e): object.__setattr__(s, 'e', zi(e))
    def __getattribute__(s, n):
        if n in Obj.OWN or n[:2] == '__' or C.noguard or C.nodecide: return object.__getattribute__(s, n)
        if C.decide(s.e == 0): raise AttributeError("'NoneType' object has no attribute '%s'" % n)
        return object.__getattribute__(s, n)
    def __setattr__(s, n, v):
        if C.decide(s.e == 0): raise AttributeError("'NoneType' object has no attribute '%s'" % n)
        f = getattr(type(s), 'set_' + n, None)
        if f is None: raise Unsupported('attribute %s of a ghost object is set' % n)
        f(s, v)
    def isnone(s): return SBool(z3.simplify(s.e == 0))
    def truth(s): return SBool(z3.simplify(s.e != 0))
    def __bool__(s): return C.decide(s.e != 0)
    def sameas(s, o): return SBool(s.e == (o.e if isinstance(o, Obj) else 0)) if isinstance(o, Obj) or o is None else False
    same = sameas
    def __eq__(s, o): return s.sameas(o)
    def __ne__(s, o): r = s.sameas(o); return SBool(z3.Not(r.e)) if isinstance(r, SBool) else True
    __hash__ = object.__hash__
    def _ite(s, c, o):
        if o is None: return type(s)(z3.If(c, s.e, 0))
        if isinstance(o, Obj): return type(s)(z3.If(c, s.e, o.e))
        raise Unsupported('merge of an object with something else')
    klass = ()
    def vclass(s, c):
        if C.decide(s.e == 0): return False
        return getattr(c, '__name__', '') in s.klass
class RowList(Obj):
    """list of a few numbers, or None"""
    klass = ('list', 'VList')
    def __init__(s, e, vals): Obj.__init__(s, e); object.__setattr__(s, 'vals', list(vals))
    def there(s, err):
        if C.decide(s.e == 0): raise TypeError("'NoneType' object is not " + err)
    def __getitem__(s, i): object.__getattribute__(s, 'there')('subscriptable'); return object.__getattribute__(s, 'vals')[i]
    def __iter__(s): object.__getattribute__(s, 'there')('iterable'); return iter(list(object.__getattribute__(s, 'vals')))
    def vlen(s): return len(object.__getattribute__(s, 'vals'))
    def sameas(s, o):
        if o is None: return SBool(z3.simplify(s.e == 0))
        raise Unsupported('comparison of lists')
    same = sameas
    def _ite(s, c, o):
        vals = lambda q: object.__getattribute__(q, 'vals'); v = vals(s)
        if o is None: return RowList(z3.If(c, s.e, 0), v)
        if isinstance(o, RowList) and len(vals(o)) == len(v): return RowList(z3.If(c, s.e, o.e), [ite(c, a, b) for a, b in zip(v, vals(o))])
        raise Unsupported('merge of a list and something else')
class Tracked:
    """set-like list of which only the membership of the values shown is followed; any value may or may not be another member"""
    def __init__(s, has): s.has = has      # [(value, condition)]
    def vcontains(s, v):
        r = C.fresh('member', z3.BoolSort())
        for w, c in s.has: C.assume(z3.Implies(lift(v) == lift(w), r == zb(c)))
        return SBool(r)
    def append(s, v):
        if C.log is not None: C.log.append(s)
        new = [(w, SBool(z3.simplify(z3.Or(zb(c), lift(v) == lift(w))))) for w, c in s.has]; C.mutate(s, 'has', new)
    def extend(s, o):
        if isinstance(o, SymSeqBase):
            if C.log is not None: C.log.append(s)
            C.mutate(s, 'has', [(w, SBool(z3.Or(zb(c), zb(seq_quant(SymSel(o.n, lambda k: True, lambda k, w=w: SBool(lift(o.at(k)) == lift(w))), True))))) for w, c in s.has]); return
        for v in o: s.append(v)
    def same(s, o): return And_([zb(c) == zb(d) for (w, c), (_, d) in zip(s.has, o.has)]) if isinstance(o, Tracked) else False
    def tolist(s): return s
    def sorted_unique(s): return Tracked(list(s.has))
    def vlen(s): n = SNum(C.fresh('length')); C.assume(n.e >= 0); return n
    def __bool__(s):
        b = C.fresh('nonempty', z3.BoolSort())
        for w, c in s.has: C.assume(z3.Implies(zb(c), b))
        return C.decide(b)
class Trace:
    """list built by a loop: it holds, in order, the items of the earlier iterations (their number and values are described by the
    invariant) and the ones this iteration added"""
    def __init__(s, k): s.k = zi(k); s.new = []; s.id = next(C.idgen)
    def _add(s, v):
        if C.log is not None: C.log.append(s)
        C.mutate(s, 'new', s.new + [v])
    def append(s, v): s._add(('append', v))
    def extend(s, v): s._add(('extend', v))
    def __iadd__(s, v): s.extend(v); return s
    def __setitem__(s, k, v): s._add(('set', k, v))
    def same(s, o):
        """at the start: an empty list or dictionary; after iteration k (whose additions the invariant checks): the trace of k"""
        if isinstance(o, (VList, VDict)) and len(o) == 0: return s.k == 0
        return z3.Or(s.k == o.k, s.k == o.k + 1) if isinstance(o, Trace) else False
def And_(l): return z3.And(*l) if l else z3.BoolVal(True)
class Prefix:
    """number or truth value accumulated over the positions before k: p(0) = start, p(k + 1) = step(k, p(k))"""
    def __init__(s, n, step, start=0, sort=None, at=None):
        s.sort = z3.RealSort() if sort is None else sort; s.f = z3.Function('prefix!%d' % next(C.idgen), z3.IntSort(), s.sort); s.n = n; s.step = step
        C.assume(s.f(0) == s.val(start)); C.forall([n], lambda k: s.unfold(k))
    def val(s, v):
        if z3.is_bool(s.f(0)): return zb(v)
        v = lift(v); return toreal(v) if s.sort == z3.RealSort() else v
    def unfold(s, k):
        k = zi(k); C.noguard += 1
        try: C.assume(z3.Implies(z3.And(k >= 0, k < lift(s.n)), s.f(z3.simplify(k + 1)) == s.val(s.step(SNum(k), s.wrap(s.f(k))))))
        finally: C.noguard -= 1
    def wrap(s, e): return SBool(e) if z3.is_bool(e) else SNum(e)
    def __call__(s, k): return s.wrap(s.f(zi(k)))
class Inv:
    """loop invariant: the state before iteration k as a function of k.
    vars: local variables; boxes: [(array, fn(k, index) -> value)]; attrs: [(object, name, fn(k) -> value)]; facts(k): anything else that
    holds before iteration k; step(k, env): obligations about what one iteration did"""
    def __init__(s, vars=None, boxes=(), attrs=(), facts=None, step=None, free=(), havoc=(), ghost=None, newghost=None):
        s.vars = vars or {}; s.boxes = list(boxes); s.attrs = list(attrs); s.facts = facts; s.step = step; s.free = free; s.havoc = havoc; s.ghost = ghost; s.newghost = newghost
INV = {}
ASSIGNED = ()      # variables the loop assigns
def same_state(a, b):
    if a is b: return z3.BoolVal(True)
    if isinstance(b, Trace): return zb(b.same(a))
    if isinstance(b, Tracked):
        if isinstance(a, VList): a = Tracked([(w, SBool(z3.Or([z3.BoolVal(False)] + [lift(v) == lift(w) for v in a]))) for w, c in b.has])
        return zb(b.same(a)) if type(a) == type(b) else False
    if isinstance(a, Obj) or isinstance(b, Obj): return zb((a if isinstance(a, Obj) else b).same(b if isinstance(a, Obj) else a))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return zb(a) == zb(b)
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)): return same_num(a, b)
    if hasattr(b, 'same'): return zb(b.same(a))
    raise Unsupported('loop state of another kind: %s, expected %s' % (type(a).__name__, type(b).__name__))
def loop(it, body, get, set_, name, assigned=()):
    if isinstance(it, SymSel): raise Unsupported('loop over a filtered sequence')
    if isinstance(it, SMapSeq): return it.run(body, assigned, set_, name)
    mk = INV.get(name) or INV.get(name.split('#')[0]) or INV.get('*')
    if mk is None: raise Unsupported('loop over a symbolic sequence without an invariant in %s' % name)
    global ASSIGNED
    ASSIGNED = assigned; mark = next(C.idgen); inv = mk(get(), it); n = it.n; fn = name.split('#')[0]
    def scratch(f):
        C.solver.push(); m = len(C.trail)
        try: return f()
        finally: C.solver.pop(); C.undo_to(m)
    def prove(what, goal): C.prove('%s: loop of %s: %s' % (C.cur, fn, what), goal)
    def check(k, what):
        env = get()
        if inv.ghost: inv.ghost(k, env)      # what the invariant leaves open, read off the state
        for v, f in inv.vars.items():
            if v not in env: raise Unsupported('loop invariant of %s: no variable %s' % (fn, v))
            a = env[v]
            if a is UNDEF or isinstance(a, Poison): raise Unsupported('loop invariant of %s: %s has no value' % (fn, v))
            scratch(lambda: prove('%s as described %s' % (v, what), same_state(a, f(k))))
        for o, at, f in inv.attrs:
            a = getattr(o, at); scratch(lambda: prove('%s as described %s' % (at, what), same_state(a, f(k))))
        for box, f in inv.boxes:
            def one():
                b = box.box if isinstance(box, SArr) else box
                idx = []
                for d in b.shape: i = C.fresh('at'); C.assume(z3.And(i >= 0, i < lift(d))); C.term(d, i); idx.append(i)
                C.noguard += 1
                try: w = f(k, tuple(idx)); prove('contents as described %s' % what, same_state(b.fn(tuple(idx)), w))
                finally: C.noguard -= 1
            scratch(one)
        if inv.facts:
            for nm, g in inv.facts(k): scratch(lambda: prove(nm + ' ' + what, g() if callable(g) else g))
    def state(k):
        env = get(); d = {}
        if inv.newghost: inv.newghost(k)
        for v in env:
            if v in inv.vars: d[v] = inv.vars[v](k)
            elif v in assigned and inv.havoc and (inv.havoc == 'ints' or v in inv.havoc) and isinstance(env[v], (int, SNum)) and not isinstance(env[v], bool) and lift(env[v]).sort() == z3.IntSort(): d[v] = SNum(C.fresh('any_' + v))      # integers about which nothing is known
            else: d[v] = env[v] if v in inv.free or v not in assigned else Poison(v)
        set_(d)
        for o, at, f in inv.attrs: setattr(o, at, f(k))
        for box, f in inv.boxes:
            b = box.box if isinstance(box, SArr) else box
            C.mutate(b, 'fn', lambda idx, f=f: f(k, idx))
            for a in ('perm', 'uniq', 'affine', 'pieces'):
                if getattr(b, a) is not None: C.mutate(b, a, None)
        if inv.facts:
            for nm, g in inv.facts(k): C.assume(zb(g() if callable(g) else g))
    check(SNum(z3.IntVal(0)), 'at the start')
    after = C.fresh('after_loop', z3.BoolSort())
    if (not C.decide(z3.Not(after))) if getattr(inv, 'learns', False) else C.decide(after):      # learns: the iterations are explored first
        state(n if isinstance(n, SNum) else SNum(lift(n))); return None
    k = C.fresh('iteration'); C.assume(z3.And(k >= 0, k < lift(n))); C.term(n, k); K = SNum(k)
    state(K); old = C.log; C.log = log = []; depth = len(C.trail)
    C.trail.append(lambda: setattr(C, 'log', old))
    r = body(it.at(k)); C.log = old
    own = [id(b.box if isinstance(b, SArr) else b) for b, _ in inv.boxes]
    for w in log:
        if isinstance(w, tuple):
            o, at = w
            if C.born.get(id(o), (None, -1))[1] > mark or any(o is q and at == a for q, a, _ in inv.attrs): continue
            raise Unsupported('loop of %s changes %s, which its invariant does not describe' % (fn, at))
        if isinstance(w, Box):
            if w.id > mark or id(w) in own: continue
            raise Unsupported('loop of %s writes an array its invariant does not describe' % fn)
        if isinstance(w, (VList, VDict)) and w.id <= mark: raise Unsupported('loop of %s changes a list or dictionary its invariant does not describe' % fn)
    if old is not None: old.extend(log)
    if r is BREAK: return None
    if isinstance(r, Ret): return r
    if inv.step: inv.step(K, get())
    check(SNum(z3.simplify(k + 1)), 'after an iteration')
    raise PathEnd()
class SymSel(SymSeqBase):
    """elements at(k) of the positions k < n with cond(k), in order"""
    __array__ = True
    def __init__(s, n, cond, at): s.n, s.cond, s.at = n, cond, at
    def symseq_(s): return s
    def __iter__(s): raise Unsupported('native iteration over a symbolic sequence')
    def vlen(s): return agg('count', s.n, s.cond)
    def __bool__(s): return C.decide(s.vlen().e > 0)
    def __getitem__(s, k):
        if not isinstance(k, int) or isinstance(k, bool) or k not in (0, -1): raise Unsupported('index of a filtered sequence')
        if not C.decide(s.vlen().e > 0): raise IndexError('list index out of range')
        w = C.fresh('selected'); C.term(s.n, w); C.assume(z3.And(w >= 0, w < lift(s.n), s.cond(w)))       # the first (last) position that is selected
        C.forall([s.n], lambda j: C.assume(z3.Implies(z3.And(j >= 0, j < lift(s.n), s.cond(j)), w <= j if k == 0 else j <= w))); return s.at(w)
def quiet(f, *a):
    C.nodecide += 1; C.noguard += 1
    try: return f(*a)
    finally: C.nodecide -= 1; C.noguard -= 1
def frozen_fn(f):
    """the function with the present values of the variables around it, on the present content of arrays: comprehensions are evaluated at once"""
    if f is None: return None
    if getattr(f, '__closure__', None):
        cells = []
        for c in f.__closure__:
            try: cells.append(types.CellType(c.cell_contents))
            except ValueError: cells.append(c)
        f = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))
    t = next(C.vers)
    def g(*a):
        old = C.asof; C.asof = t if old is None else min(old, t)
        try:
            r = f(*a); return frozen_fn(r) if isinstance(r, types.FunctionType) else r
        finally: C.asof = old
    return g
def comp(kind, it, cond, elt):
    cond, elt = frozen_fn(cond), frozen_fn(elt)
    if cond is None:
        if not isinstance(it, SymSel): return SymSeq(it.n, lambda k: quiet(lambda: elt(it.at(k))))
        cond = lambda v: True
    c0 = it.cond if isinstance(it, SymSel) else lambda k: True
    return SymSel(it.n, lambda k: z3.And(zb(c0(k)), zb(truth(quiet(lambda: cond(it.at(k)))))), lambda k: quiet(lambda: elt(it.at(k))))
class Flat2(SymSeq):
    """elements of sequences joined: element k is element j(k) of sequence i(k), and every element of every sequence is there"""
def flat2(it, inner, elt):
    if isinstance(it, SymSel): raise Unsupported('sequences of a filtered sequence are joined')
    inner, elt = frozen_fn(inner), frozen_fn(elt)
    q = next(C.idgen); S = z3.IntSort(); fi, fj, fp = z3.Function('joined_i!%d' % q, S, S), z3.Function('joined_j!%d' % q, S, S), z3.Function('joined_at!%d' % q, S, S, S); n = SNum(C.fresh('joined')); C.assume(n.e >= 0)
    seq = lambda i: quiet(lambda: inner(it.at(i)))
    def there(k): i, j = fi(k), fj(k); C.term(it.n, i); C.assume(z3.Implies(z3.And(k >= 0, k < n.e), z3.And(i >= 0, i < lift(it.n), j >= 0, j < lift(seq(i).n))))
    C.forall([n], there)
    r = Flat2(n, lambda k: quiet(lambda: elt(it.at(fi(zi(k))))(seq(fi(zi(k))).at(fj(zi(k)))))); r.i, r.j, r.outer, r.seq = fi, fj, it, seq
    def place(i, j):
        i, j = zi(i), zi(j); p = fp(i, j); C.term(n, p); C.assume(z3.Implies(z3.And(i >= 0, i < lift(it.n), j >= 0, j < lift(seq(i).n)), z3.And(p >= 0, p < n.e, fi(p) == i, fj(p) == j))); return p
    r.place = place; return r
def parts(x): return (x.n, x.cond, x.at) if isinstance(x, SymSel) else (x.n, lambda k: z3.BoolVal(True), x.at)
def seq_reduce(x, kind):
    n, cond, at = parts(x)
    if kind in ('min', 'max'):
        if not C.decide(agg('count', n, cond).e > 0): raise ValueError('%s() arg is an empty sequence' % kind)
    r = agg(kind, n, cond, at); C.solver.push(); m = len(C.trail)
    try: isint = z3.is_int(lift(at(z3.Int('agg_index'))))
    finally: C.solver.pop(); C.undo_to(m)
    return SNum(z3.ToInt(r.e)) if isint else r
def seq_quant(x, ex):
    n, cond, at = parts(x); b = C.fresh('any' if ex else 'all', z3.BoolSort()); q = C.fresh('qw')
    def val(k):
        c = z3.simplify(zb(cond(k)))
        if z3.is_false(c): return z3.BoolVal(not ex)
        return z3.And(c, zb(truth(at(k)))) if ex else z3.Implies(c, zb(truth(at(k))))
    rng = lambda k: z3.And(k >= 0, k < lift(n)); pos, neg = (b, z3.Not(b)) if ex else (z3.Not(b), b)
    C.assume(z3.Implies(pos, z3.And(rng(q), val(q) if ex else z3.Not(val(q))))); C.term(n, q)
    C.forall([n], lambda k: C.assume(z3.Implies(z3.And(rng(k), val(k) if ex else z3.Not(val(k))), pos)))
    return SBool(b)
