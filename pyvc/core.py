"""pyvc core: paths, decisions, obligations, numbers.

The real source of /repo is executed (see load.py) with symbolic values.  A python branch on a symbolic condition
becomes a decision; all feasible decisions are explored by re-execution.  Obligations are discharged by z3 (cvc5 as
second back end) under the path condition.  Machine floats are mathematical reals with a not-a-number flag."""
import sys, os
import z3, time, os, itertools
from fractions import Fraction

class Unsupported(BaseException):
    """construct outside the reach of the verifier: the function is undecided, never a violation"""
class PathEnd(BaseException):
    """infeasible or cut path"""
class Undef:
    def __repr__(self): return '<undefined>'
UNDEF = Undef()

T_DECIDE = int(os.environ.get('PYVC_T_DECIDE', 3000)); T_PROVE = int(os.environ.get('PYVC_T_PROVE', 15000))
MAXPATHS = 4000
SLOW = float(os.environ.get('SLOW', 0))

class Frame:
    __slots__ = ('prefix', 'pos', 'alts', 'guard')
    def __init__(s, prefix): s.prefix = prefix; s.pos = 0; s.alts = []; s.guard = []

class Ctx:
    def __init__(s): s.reset(); s.obl = {}; s.order = []; s.solver_time = 0.0; s.nq = 0; s.deadline = None; s.models = {}; s.notes = set(); s.covers = {}; s.backends = {}; s.cur = ''
    def reset(s):
        s.solver = z3.Solver(); s.frames = []; s.cnt = itertools.count(); s.trail = []; s.memo = {}; s.aggs = []; s.monos = {}; s.byfac = {}; s.stamp = 0
        s.facts = []; s.log = None; s.nodecide = 0; s.born = {}
        s.terms = {}; s.cells = []; s.foralls = {}; s.curdepth = 0; s.noguard = 0; s.aggdeep = True; s.queue = None; s.perms = []; s.filters = []; s.searched = {}; s.concats = []; s.asof = None; s.vers = itertools.count(); s.idgen = itertools.count()
    # -------------------------------------------------------------------------------------------- trail
    def undo_to(s, m):
        while len(s.trail) > m: s.trail.pop()()
    def setmemo(s, k, v):
        s.memo[k] = v; s.trail.append(lambda: s.memo.pop(k, None))
    def push(s, lst, v):
        lst.append(v); s.trail.append(lambda: lst.pop())
    def mutate(s, obj, attr, val):
        if attr == 'fn':            # of the content of an array, with the time of its last change
            old = obj._fn, obj.ver; obj.fn = val
            def undo(): obj._fn, obj.ver = old
            s.trail.append(undo); return
        old = getattr(obj, attr); object.__setattr__(obj, attr, val)
        s.trail.append(lambda: object.__setattr__(obj, attr, old))
    # -------------------------------------------------------------------------------------------- index terms
    # universally quantified facts are instantiated at registered index terms only (skolem constants, witnesses)
    MAXDEPTH = 3
    def dom(s, n):
        if isinstance(n, Dim): return n.space
        return z3.simplify(lift(n)).sexpr()
    def term(s, n, t):
        """register index term t of the domain [0, n)"""
        t = z3.simplify(lift(t)); key = s.dom(n)
        l = s.terms.setdefault(key, [])
        if s.curdepth > s.MAXDEPTH or any(z3.eq(t, q) for q, _ in l): return
        d = s.curdepth; s.push(l, (t, d))
        jobs = []
        for (keys, fn) in list(s.foralls.get(key, [])):
            jobs += s._jobs(keys, fn, key, (t, d))
        s._run(jobs)
    def _jobs(s, keys, fn, key, new):
        out = []
        if len(keys) == 1: return [(fn, (new,))] if keys[0] == key else []
        pools = [list(s.terms.get(k, [])) for k in keys]
        seen = set()
        for pos, k in enumerate(keys):
            if k != key: continue
            for combo in itertools.product(*[[new] if i == pos else pools[i] for i in range(len(keys))]):
                c = tuple(q[0].get_id() for q in combo)
                if c not in seen: seen.add(c); out.append((fn, combo))
        return out
    def forall(s, ns, fn):
        """fn(t1..tk) asserts its facts for terms of the domains ns"""
        keys = tuple(s.dom(n) for n in ns); ent = (keys, fn)
        for k in set(keys): s.push(s.foralls.setdefault(k, []), ent)
        s._run([(fn, combo) for combo in itertools.product(*[list(s.terms.get(k, [])) for k in keys])])
    def _run(s, jobs):
        for fn, combo in jobs:
            old = s.curdepth; s.curdepth = max([d for _, d in combo] + [0]) + 1
            if s.curdepth <= s.MAXDEPTH + 1:
                try: fn(*[t for t, _ in combo])
                finally: s.curdepth = old
            else: s.curdepth = old
    def skolem(s, base, n):
        """fresh index of the domain [0, n)"""
        k = s.fresh(base); s.assume(z3.And(k >= 0, k < lift(n))); s.term(n, k)
        return SNum(k)
    # -------------------------------------------------------------------------------------------- solver
    def fresh(s, base, sort=None):
        n = '%s!%d' % (base, next(s.cnt))
        return z3.Const(n, sort if sort is not None else z3.IntSort())
    def assume(s, f):
        if isinstance(f, SBool): f = f.e
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        f = z3.simplify(f)
        if z3.is_true(f): return
        s.solver.add(f); s.push(s.facts, f)
    def _check(s, extra, t):
        if s.deadline and time.time() > s.deadline: raise Unsupported('time limit of the function reached')
        t0 = time.time(); s.solver.set('timeout', t); s.nq += 1
        r = s.solver.check(*extra); dt = time.time() - t0; s.solver_time += dt
        if SLOW and dt > SLOW:
            import traceback; print('SLOW %.2f %s' % (dt, r), ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(traceback.extract_stack()[-9:-1])), str(extra)[:200])
        return r
    def sat(s, f, t=None): return s._check([f], t or T_DECIDE)
    def decide(s, c):
        if isinstance(c, SBool): c = c.e
        if c is True or c is False: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.nodecide:
            if s.valid(c): return True
            if s.valid(z3.Not(c)): return False
            raise Unsupported('branch in an element expression')
        fr = s.frames[-1]
        if fr.pos < len(fr.prefix): ch, forced = fr.prefix[fr.pos]
        else:
            # the path condition is satisfiable (else every obligation of the path holds), so one unsatisfiable side decides
            a = s.sat(c); b = s.sat(z3.Not(c)) if a != z3.unsat else None
            if b == z3.unsat: ch, forced = True, True
            elif a == z3.unsat: ch, forced = False, True
            else:
                ch, forced = True, False
                fr.alts.append(fr.prefix[:fr.pos] + [(False, False)])
            fr.prefix = fr.prefix[:fr.pos] + [(ch, forced)]
        fr.pos += 1
        l = c if ch else z3.Not(c)
        if not forced: fr.guard.append(l)
        s.assume(l)
        return ch
    def valid(s, f, t=None):
        """is f implied by the path condition (True) or not known to be (False)"""
        if isinstance(f, SBool): f = f.e
        if f is True: return True
        if f is False: return False
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        return s.sat(z3.Not(f), t) == z3.unsat
    # -------------------------------------------------------------------------------------------- exploration
    def explore(s, fn):
        """run fn on every feasible path from scratch"""
        work = [[]]; n = 0
        while work:
            pre = work.pop(); s.reset(); s.frames = [Frame(pre)]
            n += 1
            if n > MAXPATHS: raise Unsupported('more than %d paths' % MAXPATHS)
            try: fn()
            except PathEnd: pass
            except (Exception, Unsupported) as e:
                # a branch the solver could not rule out in a moment: ask again before it counts
                if not s.frames[-1].guard or s._prove(z3.BoolVal(False))[0] != 'proved': raise
            work += s.frames[-1].alts
        return n
    def subpaths(s, fn):
        """[(guard, result, exception)] for every feasible path of fn from the current state; state is restored"""
        work = [[]]; out = []; n = 0
        while work:
            pre = work.pop(); n += 1
            if n > 600: raise Unsupported('more than 600 paths in a loop body')
            mark = len(s.trail); s.solver.push(); s.frames.append(Frame(pre)); nf = len(s.facts)
            try:
                try: r = (fn(), None)
                except Exception as e: r = (None, e)
                out.append((list(s.frames[-1].guard), r[0], r[1], list(s.facts[nf:])))
            except PathEnd: pass
            finally:
                fr = s.frames.pop(); s.solver.pop(); s.undo_to(mark)
            work += fr.alts
        return out
    # -------------------------------------------------------------------------------------------- obligations
    def prove(s, name, goal, note=None):
        if isinstance(goal, SBool): goal = goal.e
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not name.startswith(s.cur): name = s.cur + ': ' + name
        rec = s.obl.get(name)
        if rec is None: rec = s.obl[name] = dict(count=0, proved=0, status='proved', detail=None); s.order.append(name)
        rec['count'] += 1
        t0 = time.time(); st, back, detail = s._prove(z3.simplify(goal))
        rec['time'] = rec.get('time', 0) + time.time() - t0
        if st == 'proved': rec['proved'] += 1; s.backends[back] = s.backends.get(back, 0) + 1
        else:
            if rec['status'] != 'refuted': rec['status'] = st; rec['detail'] = detail
        return st == 'proved'
    def _prove(s, goal):
        if z3.is_true(goal): return 'proved', 'simplifier', None
        r = s.sat(z3.Not(goal), T_PROVE if not s.aggs else 2500)
        if r == z3.unsat: return 'proved', 'z3', None
        for all_ in (False, True):
            if s.aggs and s.agg_lemmas(goal, all_):
                r = s.sat(z3.Not(goal), T_PROVE)
                if r == z3.unsat: return 'proved', 'z3', None
        if s.monos:
            s.solver.push()
            for (e, a, b) in list(s.monos.values()): s.solver.add(e == a * b)
            r2 = s.sat(z3.Not(goal), T_PROVE)
            m = s.solver.model() if r2 == z3.sat else None
            s.solver.pop()
            if r2 == z3.unsat: return 'proved', 'z3 (nonlinear)', None
            if r2 == z3.sat:
                if os.environ.get('DBG'): sys.stderr.write('\n'.join(str(a) for a in s.solver.assertions())+'\nGOAL '+str(goal)+'\n===\n')
                return 'refuted', None, s.describe(m, goal)
            r = z3.unknown if r == z3.sat else r
        if r == z3.sat:
            if os.environ.get('DBG'): sys.stderr.write('\n'.join(str(a) for a in s.solver.assertions())+'\nGOAL '+str(goal)+'\n===\n')
            return 'refuted', None, s.describe(s.solver.model(), goal)
        q = s.cvc5(goal)
        if q == 'unsat': return 'proved', 'cvc5', None
        return 'unknown', None, dict(goal=str(goal)[:1500], reason=str(s.solver.reason_unknown()))
    def cvc5(s, goal):
        import subprocess, tempfile
        sv = z3.Solver(); sv.add(*s.facts); sv.add(z3.Not(goal))
        for (e, a, b) in list(s.monos.values()): sv.add(e == a * b)
        txt = '(set-logic ALL)\n' + sv.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            t0 = time.time(); r = subprocess.run(['cvc5', '--tlimit=%d' % T_PROVE, f.name], capture_output=True, text=True, timeout=T_PROVE / 1000 + 10); s.solver_time += time.time() - t0
            return r.stdout.strip().split('\n')[0]
        except Exception: return 'unknown'
        finally: os.unlink(f.name)
    def describe(s, m, goal):
        d = {}
        try:
            for v in m.decls():
                if v.arity() == 0: d[v.name()] = str(m[v])
        except Exception: pass
        return dict(goal=str(goal)[:1500], model=dict(sorted(d.items())[:60]))
    def cover(s, name):
        """the current path condition is satisfiable (guards against vacuous contracts)"""
        if s.covers.get(name) in ('sat',): return
        r = s._check([], T_DECIDE); s.covers[name] = str(r)
    # -------------------------------------------------------------------------------------------- aggregates
    def agg_lemmas(s, goal, all_=False):
        """extensionality: different aggregates of the same kind differ at some position"""
        names = set(); todo = [goal]; seen = set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e): names.add(e.get_id())
            todo += e.children()
        new = False; L = [(i, a) for i, a in enumerate(s.aggs) if all_ or a.const.get_id() in names]
        for x, (i, A) in enumerate(L):
            for (j, B) in L[:x]:
                if A.kind != B.kind or ('aggeq', i, j) in s.memo: continue
                s.setmemo(('aggeq', i, j), True)
                if agg_ext(A, B): new = True
        return new

C = Ctx()

# ================================================================================================ numbers
def is_conc(x): return isinstance(x, (int, float, bool, Fraction)) and not isinstance(x, SNum)
def lift(x):
    """z3 arithmetic expression of a python or symbolic number (not-a-number flag dropped)"""
    if isinstance(x, SNum): return x.e
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x != x: return z3.RealVal(0)
        if x in (float('inf'), float('-inf')): raise Unsupported('infinite value')
        return z3.RealVal(str(Fraction(x)))
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if isinstance(x, SBool): return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x): return x
    raise Unsupported('not a number: %r' % (type(x),))
def nanof(x):
    if isinstance(x, SNum): return x.nan
    if isinstance(x, float) and x != x: return True
    return False
def zor(*a):
    a = [v for v in a if v is not False]
    if any(v is True for v in a): return True
    if not a: return False
    return a[0] if len(a) == 1 else z3.Or(*a)
def zand(*a):
    a = [v for v in a if v is not True]
    if any(v is False for v in a): return False
    if not a: return True
    return a[0] if len(a) == 1 else z3.And(*a)
def znot(a):
    if a is True: return False
    if a is False: return True
    return z3.Not(a)
def zb(a):
    if isinstance(a, SBool): return a.e
    if isinstance(a, bool): return z3.BoolVal(a)
    return a
def toreal(e): return z3.ToReal(e) if z3.is_int(e) else e
def pair(a, b):
    if z3.is_int(a) != z3.is_int(b): return toreal(a), toreal(b)
    return a, b
def numeral(e):
    if z3.is_int_value(e): return Fraction(e.as_long())
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None

MULI = z3.Function('mul_i', z3.IntSort(), z3.IntSort(), z3.IntSort())
MULR = z3.Function('mul_r', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVR = z3.Function('div_r', z3.RealSort(), z3.RealSort(), z3.RealSort())
DIVI = z3.Function('div_i', z3.IntSort(), z3.IntSort(), z3.IntSort())
ROUND = z3.Function('round_n', z3.RealSort(), z3.IntSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())

def poly(e):
    """e as {atom id: (atom, coefficient)} and a constant"""
    e = z3.simplify(e, som=False)
    out = {}; const = Fraction(0)
    def walk(e, c):
        nonlocal const
        n = numeral(e)
        if n is not None: const += c * n; return
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            for ch in e.children(): walk(ch, c)
        elif k == z3.Z3_OP_SUB:
            ch = e.children(); walk(ch[0], c)
            for q in ch[1:]: walk(q, -c)
        elif k == z3.Z3_OP_UMINUS: walk(e.arg(0), -c)
        elif k == z3.Z3_OP_MUL:
            nums = [numeral(q) for q in e.children()]; rest = [q for q, n in zip(e.children(), nums) if n is None]; f = c
            for n in nums:
                if n is not None: f *= n
            if len(rest) == 1: walk(rest[0], f)
            else: add(e if f == c else None, rest, f)
        elif k == z3.Z3_OP_TO_REAL and e.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            d, cc = poly(e.arg(0)); const += c * cc
            for a, k2 in d.values(): put(z3.ToReal(a), c * k2)
        else: put(e, c)
    def add(e, rest, f): raise Unsupported('native nonlinear term')
    def put(a, c):
        k = a.get_id()
        if k in out: out[k] = (a, out[k][1] + c)
        else: out[k] = (a, c)
    walk(e, Fraction(1))
    return out, const
def numval(q, real):
    return z3.RealVal(str(q)) if real else z3.IntVal(int(q))
def mono(a, b):
    """product of two non-numeral atoms as an uninterpreted term with order lemmas against the other products"""
    ha, hb = a.hash(), b.hash()      # an order that does not depend on when the terms were built
    if ha > hb or (ha == hb and a.sexpr() > b.sexpr()): a, b = b, a
    if z3.is_real(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_real(b) and b.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.ToReal(mono(a.arg(0), b.arg(0)))
    real = z3.is_real(a)
    e = (MULR if real else MULI)(a, b)
    key = e.get_id()
    if key in C.monos: return e
    C.monos[key] = (e, a, b); C.trail.append(lambda: C.monos.pop(key, None))
    isint = lambda t: z3.is_int(t) or t.decl().kind() == z3.Z3_OP_TO_REAL
    one = 1
    C.assume(z3.And(z3.Implies(z3.And(a >= 0, b >= 0), e >= 0), z3.Implies(z3.And(a > 0, b > 0), e > 0), z3.Implies(z3.Or(a == 0, b == 0), e == 0), z3.Implies(z3.And(a < 0, b > 0), e < 0), z3.Implies(z3.And(a > 0, b < 0), e < 0)))
    C.assume(z3.And(z3.Implies(a == 1, e == b), z3.Implies(b == 1, e == a)))
    if isint(a): C.assume(z3.Implies(z3.And(a >= 1, b >= 0), e >= b))
    if isint(b): C.assume(z3.Implies(z3.And(b >= 1, a >= 0), e >= a))
    for f, o in ((a, b), (b, a)):
        l = C.byfac.setdefault(f.get_id(), [])
        for (o2, e2) in l:
            C.assume(z3.Implies(f > 0, z3.And(z3.Implies(o < o2, e < e2), z3.Implies(o2 < o, e2 < e))))
            if isint(o) and isint(o2):
                C.assume(z3.Implies(f > 0, z3.And(z3.Implies(o < o2, e + f <= e2), z3.Implies(o2 < o, e2 + f <= e))))
            if z3.is_int(f) or True:
                C.assume(z3.Implies(o == o2 + 1, e == e2 + f)); C.assume(z3.Implies(o2 == o + 1, e2 == e + f))
        C.push(l, (o, e))
        if f.get_id() == o.get_id(): break
    return e
def zmul(x, y):
    x, y = pair(x, y); real = z3.is_real(x)
    nx, ny = numeral(z3.simplify(x)), numeral(z3.simplify(y))
    if nx is not None or ny is not None: return z3.simplify(x * y)
    px, cx = poly(x); py, cy = poly(y)
    if len(px) * len(py) > 400: raise Unsupported('large product')
    terms = []
    for a, ka in px.values():
        for b, kb in py.values():
            m = mono(a, b); k = ka * kb
            terms.append(m if k == 1 else numval(k, real) * m)
        if cy: terms.append(numval(ka * cy, real) * a)
    if cx:
        for b, kb in py.values(): terms.append(numval(kb * cx, real) * b)
    if cx * cy: terms.append(numval(cx * cy, real))
    if not terms: return numval(Fraction(0), real)
    r = terms[0]
    for t in terms[1:]: r = r + t
    r = z3.simplify(r)
    if (len(px) + bool(cx) > 1 or len(py) + bool(cy) > 1):
        # sign and order facts of the product as a whole, linked to the expanded form
        m = mono(z3.simplify(x), z3.simplify(y)); key = ('link', m.get_id())
        if key not in C.memo: C.setmemo(key, m); C.assume(m == r)
    return r
def zdiv(x, y):
    x, y = toreal(x), toreal(y)
    n = numeral(z3.simplify(y))
    if n is not None and n != 0: return z3.simplify(x * z3.RealVal(str(1 / n)))
    x = z3.simplify(x); y = z3.simplify(y)
    # (a*y + b*y + ...) / y : divide the monomials exactly when possible
    if z3.is_app(y) and y.decl().name() == 'div_r' and C.valid(z3.And(y.arg(0) != 0, y.arg(1) != 0)): return zdiv(zmul(x, y.arg(1)), y.arg(0))      # x / (a / b)
    try: px, cx = poly(x)
    except Unsupported: px, cx = {}, 1
    if px and not cx:
        out = []
        for a, k in px.values():
            if z3.eq(a, y): out.append(z3.RealVal(str(k)))
            elif z3.is_app(a) and a.decl().name() == 'mul_r' and (z3.eq(a.arg(0), y) or z3.eq(a.arg(1), y)): out.append(numval(k, True) * (a.arg(1) if z3.eq(a.arg(0), y) else a.arg(0)))
            else: out = None; break
        if out and C.valid(y != 0): return z3.simplify(z3.Sum(out))
    q = DIVR(x, y)
    k = ('div', q.get_id())
    if k not in C.memo:
        C.setmemo(k, q)
        C.assume(z3.Implies(y != 0, zmul(q, y) == x))
        C.assume(z3.Implies(z3.And(y != 0, x == y), q == 1))
    return q
def zfloordiv(x, y):
    """floor division and remainder (python)"""
    if z3.is_int(x) and z3.is_int(y):
        n = numeral(z3.simplify(y))
        if n is not None and n > 0: return x / y, x % y
        q = DIVI(x, y); k = ('idiv', q.get_id())
        p = zmul(q, y); r = z3.simplify(x - p)
        if k not in C.memo:
            C.setmemo(k, q)
            C.assume(z3.And(z3.Implies(y > 0, z3.And(r >= 0, r < y)), z3.Implies(y < 0, z3.And(r <= 0, r > y))))
            C.assume(z3.Implies(z3.And(y > 0, x >= 0), q >= 0))
        return q, r
    x, y = toreal(x), toreal(y)
    q = z3.ToReal(zfloor(zdiv(x, y)))
    return q, z3.simplify(x - zmul(q, y))
def whole_part(e):
    """(sum of the whole number terms of a sum, the rest)"""
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD): return None, e
    w, r = [], []
    for q in e.children():
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_TO_REAL: w.append(q.arg(0))
        elif z3.is_app(q) and q.decl().kind() == z3.Z3_OP_MUL and q.num_args() == 2 and z3.is_rational_value(q.arg(0)) and q.arg(0).denominator_as_long() == 1 and z3.is_app(q.arg(1)) and q.arg(1).decl().kind() == z3.Z3_OP_TO_REAL: w.append(q.arg(0).numerator_as_long() * q.arg(1).arg(0))
        else: r.append(q)
    return (z3.Sum(w), z3.simplify(z3.Sum(r)) if r else z3.RealVal(0)) if w else (None, e)
FLOORI = z3.Function('floor_i', z3.RealSort(), z3.IntSort())
def zfloor(e):
    """largest integer not above the real e"""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return e.arg(0)
    if z3.is_rational_value(e): return z3.simplify(z3.ToInt(e))
    w, r = whole_part(e)
    if w is not None: return z3.simplify(w + zfloor(r))
    k = FLOORI(e); key = ('floor', k.get_id())
    if key not in C.memo:
        C.setmemo(key, k); r = z3.ToReal(k); C.assume(z3.And(r <= e, e < r + 1))
        if z3.is_app(e) and e.decl().name() == 'div_r':
            x, y = e.arg(0), e.arg(1); p = zmul(r, y); C.assume(z3.Implies(y > 0, z3.And(p <= x, x < p + y)))
    return k
def zceil(e):
    """smallest integer not below the real e"""
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return e.arg(0)
    if z3.is_rational_value(e): return z3.simplify(-z3.ToInt(-e))
    w, r = whole_part(e)
    if w is not None: return z3.simplify(w + zceil(r))
    k = CEILI(e); key = ('ceil', k.get_id())
    if key not in C.memo:
        C.setmemo(key, k); r = z3.ToReal(k); C.assume(z3.And(e <= r, r < e + 1))
        if z3.is_app(e) and e.decl().name() == 'div_r':
            x, y = e.arg(0), e.arg(1); p = zmul(r, y); C.assume(z3.Implies(y > 0, z3.And(x <= p, p < x + y)))
    return k
CEILI = z3.Function('ceil_i', z3.RealSort(), z3.IntSort())
ROUNDI = z3.Function('round_i', z3.RealSort(), z3.IntSort())
def zround(x, n):
    x = toreal(x); nn = lift(n)
    if numeral(nn) == 0:       # to a whole number: whole part + what is nearest to the rest
        w, rest = whole_part(z3.simplify(x))
        if w is not None:
            d = ROUNDI(x); k = ('round', d.get_id())
            if k not in C.memo: C.setmemo(k, d); C.assume(z3.And(2 * z3.ToReal(d) - 2 * rest <= 1, 2 * rest - 2 * z3.ToReal(d) <= 1))
            return z3.ToReal(z3.simplify(w + d))
    r = ROUND(x, nn); k = ('round', r.get_id())
    if k not in C.memo:
        C.setmemo(k, r); m = numeral(nn)
        if m is not None:
            h = Fraction(1, 2) / Fraction(10) ** int(m)
            C.assume(z3.And(r - x <= z3.RealVal(str(h)), x - r <= z3.RealVal(str(h))))
            if m == 0: C.assume(z3.And(z3.IsInt(r), z3.Implies(z3.IsInt(x), r == x)))
    return r

POW2 = z3.Function('power_of_two', z3.IntSort(), z3.BoolSort())      # of a whole number >= 1
class SBool:
    __slots__ = ('e',)
    def __init__(s, e): s.e = zb(e)
    def __bool__(s): return C.decide(s.e)
    def __and__(s, o): return elementwise2(s, o, lambda a, b: SBool(z3.And(zb(a), zb(b)))) if not isinstance(o, (SBool, bool)) else SBool(z3.And(s.e, zb(o)))
    __rand__ = __and__
    def __or__(s, o): return SBool(z3.Or(s.e, zb(o)))
    __ror__ = __or__
    def __xor__(s, o): return SBool(z3.Xor(s.e, zb(o)))
    def __invert__(s): return SBool(z3.Not(s.e))
    def __eq__(s, o): return SBool(s.e == zb(o)) if isinstance(o, (SBool, bool)) else False
    def __ne__(s, o): return SBool(s.e != zb(o)) if isinstance(o, (SBool, bool)) else True
    def __hash__(s): return 7
    def __repr__(s): return 'SBool(%s)' % s.e
    def any(s): return s
    def all(s): return s
    def item(s): return s
    shape = ()

class NpBool(SBool):
    """numpy scalar of kind bool: + is or, and it has the array methods"""
    __slots__ = ()
    ndim = 0; size = 1; __hash__ = SBool.__hash__
    def __and__(s, o): r = SBool.__and__(s, o); return NpBool(r.e) if type(r) is SBool else r
    def __or__(s, o): return NpBool(SBool.__or__(s, o).e)
    def __xor__(s, o): return NpBool(SBool.__xor__(s, o).e)
    __rand__ = __and__; __ror__ = __or__
    def __invert__(s): return NpBool(z3.Not(s.e))
    def __eq__(s, o): return NpBool(s.e == zb(o)) if isinstance(o, (SBool, bool)) else False
    def __ne__(s, o): return NpBool(s.e != zb(o)) if isinstance(o, (SBool, bool)) else True
    def __add__(s, o): return NpBool(z3.Or(s.e, zb(o))) if isinstance(o, (SBool, bool)) else NotImplemented
    __radd__ = __add__

TEXT = {}; TOKENS = {}
def number(t):
    """number whose text is t; float(str(x)) == x is trusted"""
    if t in TEXT: return TEXT[t]
    if '\u2039' in t: raise Unsupported('number read from a text made of a symbolic number')
class SNum:
    """symbolic number: int or real expression, with a flag that says it is not a number"""
    __slots__ = ('e', 'nan')
    shape = (); ndim = 0
    def __init__(s, e, nan=False): s.e = e; s.nan = nan
    @property
    def isint(s): return z3.is_int(s.e)
    def _b(s, o, f):
        if isinstance(o, SBool): o = SNum(lift(o))
        if not isinstance(o, (SNum, int, float, bool, Fraction)): return NotImplemented
        return SNum(z3.simplify(f(*pair(s.e, lift(o)))), zor(s.nan, nanof(o)))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, zmul)
    __rmul__ = __mul__
    def __truediv__(s, o):
        if isinstance(o, (int, float)) and o == 0: raise ZeroDivisionError
        return s._b(o, zdiv)
    def __rtruediv__(s, o): return s._b(o, lambda a, b: zdiv(b, a))
    def __floordiv__(s, o): return s._b(o, lambda a, b: zfloordiv(a, b)[0])
    def __mod__(s, o): return s._b(o, lambda a, b: zfloordiv(a, b)[1])
    def __rfloordiv__(s, o): return s._b(o, lambda a, b: zfloordiv(b, a)[0])
    def __rmod__(s, o): return s._b(o, lambda a, b: zfloordiv(b, a)[1])
    def __divmod__(s, o): return s // o, s % o
    def __rdivmod__(s, o): return SNum.__rfloordiv__(s, o), SNum.__rmod__(s, o)
    def __pow__(s, o):
        if isinstance(o, float) and o.is_integer(): o = int(o)
        if not isinstance(o, int) or not 0 <= o <= 4: raise Unsupported('power')
        r = 1
        for _ in range(o): r = r * s
        return r
    def __and__(s, o):
        # only the idiom n & (n - 1): zero exactly for powers of two
        o = SNum(lift(o)) if not isinstance(o, SNum) else o
        if not (s.isint and o.isint and C.valid(z3.And(o.e == s.e - 1, s.e >= 1))): raise Unsupported('bitwise and')
        r = z3.Function('bits_of', z3.IntSort(), z3.IntSort())(s.e); C.assume(z3.And(r >= 0, (r == 0) == POW2(s.e))); return SNum(r)
    def is_integer(s):
        if s.isint: return True
        return SBool(zand(z3.IsInt(s.e), znot(s.nan)))
    def __neg__(s): return SNum(z3.simplify(-s.e), s.nan)
    def __pos__(s): return s
    def __abs__(s): return SNum(z3.If(s.e >= 0, s.e, -s.e), s.nan)
    def __round__(s, n=None):
        if s.isint: return s
        r = zround(s.e, n or 0)
        return SNum(z3.ToInt(r)) if n is None else SNum(r, s.nan)
    def _c(s, o, f, d=False):
        if isinstance(o, SBool): o = SNum(lift(o))
        if not isinstance(o, (SNum, int, float, bool, Fraction)): return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            big = o > 0
            r = {'lt': big, 'le': big, 'gt': not big, 'ge': not big}[f.__name__] if hasattr(f, '__name__') and f.__name__ in ('lt', 'le', 'gt', 'ge') else None
            if r is None: raise Unsupported('comparison with infinity')
            return SBool(zand(r, znot(s.nan)))
        n = zor(s.nan, nanof(o))
        r = f(*pair(s.e, lift(o)))
        return SBool(zand(r, znot(n)) if not d else zor(r, n))
    def __lt__(s, o):
        def lt(a, b): return a < b
        return s._c(o, lt)
    def __le__(s, o):
        def le(a, b): return a <= b
        return s._c(o, le)
    def __gt__(s, o):
        def gt(a, b): return a > b
        return s._c(o, gt)
    def __ge__(s, o):
        def ge(a, b): return a >= b
        return s._c(o, ge)
    def __eq__(s, o):
        r = s._c(o, lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, '__array__') else r
    def __ne__(s, o):
        r = s._c(o, lambda a, b: a != b, True)
        return True if r is NotImplemented and not hasattr(o, '__array__') else r
    def __hash__(s): return 11
    def __bool__(s): return C.decide(zor(s.e != 0, s.nan))
    def __index__(s):
        n = numeral(z3.simplify(s.e))
        if n is not None and n.denominator == 1: return int(n)
        raise Unsupported('symbolic value where python needs a concrete integer')
    def __int__(s): return s.__index__()
    def __float__(s): raise Unsupported('symbolic value where python needs a concrete float')
    def __repr__(s): return 'SNum(%s)' % (s.e,)
    def __format__(s, f):
        k = (str(z3.simplify(s.e)), str(s.nan), s.isint, f); t = TOKENS.get(k)
        if t is None: t = TOKENS[k] = '\u2039%d\u203a' % len(TOKENS)
        if f in ('', 'd') and z3.is_false(z3.simplify(zb(s.nan))): TEXT[t] = s      # TEXT: the number a text stands for
        return t
    def is_integer(s): return SBool(True if s.isint else z3.IsInt(s.e))
    def item(s): return s
    def astype(s, d): return s
    def tolist(s): return s
    @property
    def dtype(s): return 'int' if s.isint else 'float'

class NInt(SNum):
    """numpy scalar of kind int"""
    __slots__ = (); size = 1; __hash__ = SNum.__hash__
for _n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'): setattr(NInt, _n, lambda s, o, f=getattr(SNum, _n): (lambda r: NpBool(r.e) if type(r) is SBool else r)(f(s, o)))
for _n in ('__add__', '__sub__', '__radd__', '__rsub__', '__mul__'): setattr(NInt, _n, lambda s, o, f=getattr(SNum, _n): (lambda r: NInt(r.e, r.nan) if type(r) is SNum and r.isint else r)(f(s, o)))
class Dim(SNum):
    """length of an array whose positions are kept apart from other arrays of the same length (instantiation only)"""
    __slots__ = ('space',)
    def __init__(s, e, space): s.e = e; s.nan = False; s.space = space

def const(x):
    """python value of a concrete number, else None"""
    if isinstance(x, (int, float)): return x
    if isinstance(x, SNum):
        if x.nan is not False: return None
        n = numeral(z3.simplify(x.e))
        if n is not None: return int(n) if x.isint else float(n)
    return None
def sint(name): return SNum(z3.Int(name))
def sreal(name, nan=False): return SNum(z3.Real(name), z3.Bool(name + '?nan') if nan else False)
def ite(c, a, b):
    """value a if c else b; c a z3 bool or python bool"""
    if isinstance(c, SBool): c = c.e
    if c is True: return a
    if c is False: return b
    c = z3.simplify(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, dict) and isinstance(b, dict): return type(a)({k: ite(c, a[k], b[k]) for k in a})
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)):
        na, nb = nanof(a), nanof(b)
        nan = False if na is False and nb is False else z3.simplify(z3.If(c, zb(na), zb(nb)))
        if z3.is_expr(nan) and z3.is_false(nan): nan = False
        x, y = pair(lift(a), lift(b))
        return SNum(z3.If(c, x, y), nan)
    if hasattr(a, '_ite'): return a._ite(c, b)
    if hasattr(b, '_ite'): return b._ite(znot(c), a)
    if type(a) == type(b) and not isinstance(a, (SNum, SBool)):
        try:
            if a == b: return a
        except Exception: pass
    raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))
def same_num(a, b):
    """z3 bool: equal numbers, two not-a-numbers count as equal"""
    x, y = pair(lift(a), lift(b)); na, nb = nanof(a), nanof(b)
    if na is False and nb is False: return x == y
    return z3.Or(z3.And(zb(na), zb(nb)), z3.And(z3.Not(zb(na)), z3.Not(zb(nb)), x == y))
def smin(a, b): return ite(zand(lift_le(a, b)), a, b)
def lift_le(a, b):
    x, y = pair(lift(a), lift(b)); return x <= y
def elementwise2(a, b, f): raise Unsupported('array operand')

