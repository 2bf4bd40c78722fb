"""helpers for writing contracts: symbolic inputs, and the registry of contracts"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
from arrays import *
import arrays as A, core, loops, load
CONTRACTS = []
def contract(fns, name=None, timeout=60, bounded=None, depths=(2, 3)):
    """fns: real functions executed by the contract; the body sets up any inputs that satisfy the precondition, runs the real
    code and states the postcondition with ensure()"""
    fns = [fns] if isinstance(fns, str) else fns
    def deco(f):
        CONTRACTS.append(dict(fn=f, name=name or f.__name__, functions=fns, timeout=timeout, bounded=bounded, depths=depths)); return f
    return deco
def mod(n): return load.load('bathygrid.' + n)
np = load.np
def require(c):
    C.assume(c)
def reachable(n='precondition'): C.cover(C.cur + ': ' + n)
def ensure(n, c):
    if not callable(c): return C.prove(C.cur + ': ' + n, c)
    C.solver.push(); m = len(C.trail); C.noguard += 1
    try: return C.prove(C.cur + ': ' + n, c())
    finally: C.noguard -= 1; C.solver.pop(); C.undo_to(m)
def Int(n): return SNum(z3.Int(n))
def Real(n): return SNum(z3.Real(n))
def Bool(n): return SBool(z3.Bool(n))
def Not(a): return SBool(z3.Not(zb(a)))
def And(*a): return SBool(z3.And(*[zb(q) for q in a]))
def Or(*a): return SBool(z3.Or(*[zb(q) for q in a]))
def Implies(a, b): return SBool(z3.Implies(zb(a), zb(b)))
def Iff(a, b): return SBool(zb(a) == zb(b))
def If(c, a, b): return ite(zb(c), a, b)
def same(a, b): return SBool(same_num(a, b))
def isnan(v): return SBool(zb(nanof(v)))
def notnan(v): return SBool(z3.Not(zb(nanof(v))))
SORT = {'float64': z3.RealSort, 'float32': z3.RealSort, 'int64': z3.IntSort, 'bool': z3.BoolSort}
def array(name, shape, kind='float64', nan=False):
    """array with arbitrary content"""
    shape = shape if isinstance(shape, tuple) else (shape,)
    f = z3.Function(name, *([z3.IntSort()] * len(shape) + [SORT[kind]()]))
    g = z3.Function(name + '?nan', *([z3.IntSort()] * len(shape) + [z3.BoolSort()])) if nan else None
    def rd(idx):
        idx = [zi(i) for i in idx]
        return SBool(f(*idx)) if kind == 'bool' else SNum(f(*idx), g(*idx) if nan else False)
    return newarr(rd, shape, kind)
def points(name, n, fields=('x', 'y', 'z', 'tvu', 'thu')):
    return SStruct({f: array(name + '_' + f, n) for f in fields})
def index(name, n):
    """arbitrary index of [0, n)"""
    k = z3.Int(name); C.assume(z3.And(k >= 0, k < lift(n))); C.term(n, k); return SNum(k)
def size(name, lo=0):
    n = Int(name); C.assume(n >= lo); return n
def free(f):
    """index expressions of specifications are not bounds checked"""
    def g(*a):
        C.noguard += 1
        try: return f(*a)
        finally: C.noguard -= 1
    return g
def everywhere(ns, fn):
    """assumed fact for every index of the domains ns"""
    ns = ns if isinstance(ns, (list, tuple)) else [ns]
    C.forall(list(ns), lambda *t: C.assume(z3.Implies(z3.And(*[z3.And(i >= 0, i < lift(n)) for i, n in zip(t, ns)]), zb(free(fn)(*[SNum(i) for i in t])))))
def count(n, cond): return A.agg('count', n, lambda p: zb(free(cond)(SNum(lift(p)))))
def total(n, cond, val): return A.agg('sum', n, lambda p: zb(free(cond)(SNum(lift(p)))), lambda p: free(val)(SNum(lift(p))))
def least(n, cond, val): return A.agg('min', n, lambda p: zb(free(cond)(SNum(lift(p)))), lambda p: free(val)(SNum(lift(p))))
def new(cls, **kw):
    """instance of a real class with the given attributes (the constructor is not run)"""
    o = object.__new__(cls)
    for k, v in kw.items(): o.__dict__[k] = v
    return o
def raises(f, *exc):
    """run f; (value, None) or (None, exception)"""
    try: return f(), None
    except Exception as e: return None, e
def Exists(n, fn):
    """goal position only: some index below n satisfies fn (each instance of the registered index terms implies the result)"""
    b = C.fresh('exists', z3.BoolSort())
    C.forall([n], lambda t: C.assume(z3.Implies(z3.And(t >= 0, t < lift(n), zb(free(fn)(SNum(t)))), b)))
    return SBool(b)
import inspect
def spy(fn, calls, ret=None):
    """stand-in of a method: records the arguments by the names the real method gives them"""
    sg = inspect.signature(fn)
    def f(*a, **k):
        b = sg.bind(*a, **k); b.apply_defaults(); calls.append(b.arguments)
        return ret(b.arguments) if callable(ret) else ret
    f.__name__ = getattr(fn, '__name__', 'f'); return f
def once(calls, what):
    """the only recorded call; anything else is another structure of the code than the contract can follow"""
    if len(calls) != 1: raise Unsupported('%s is not called exactly once' % what)
    return calls[0]
