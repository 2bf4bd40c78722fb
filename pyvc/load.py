"""Loads the real modules of the repository (source read on every run) with symbolic numpy and builtins.
The syntax transformation only touches for loops and comprehensions over symbolic sequences, list / dict displays (so that
changes can be undone) and bare excepts (so that the engine's control exceptions are not swallowed)."""
import ast, sys, os, types, builtins as B, importlib
from core import *
from arrays import *
import arrays as A, core, loops
REPO = os.environ.get('BG_REPO', '/repo')

# ---------------------------------------------------------------------------------------------- syntax transformation
def localnames(fn):
    """variables of a function"""
    out = set(a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs)
    def go(q):
        for c in ast.iter_child_nodes(q):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.ClassDef)): continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store): out.add(c.id)
            go(c)
    go(fn); return out
class Gen(ast.NodeTransformer):
    """generator functions collect what they yield and return the list"""
    def visit_FunctionDef(s, n): return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_Expr(s, n):
        if isinstance(n.value, ast.Yield): n.value = ast.Call(ast.Attribute(ast.Name('yielded__', ast.Load()), 'append', ast.Load()), [n.value.value or ast.Constant(None)], [])
        return n
    def visit_Return(s, n): n.value = ast.Name('yielded__', ast.Load()); return n
def yields(n, plain=None):
    """yield expressions of a function itself"""
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(c, (ast.Yield, ast.YieldFrom)): yield c, isinstance(n, ast.Expr) and isinstance(c, ast.Yield)
        yield from yields(c)
class Tr(ast.NodeTransformer):
    def __init__(s): s.n = 0; s.fn = []
    def fresh(s, b): s.n += 1; return '__%s%d__' % (b, s.n)
    def visit_FunctionDef(s, n):
        y = list(yields(n))
        if y and all(p for _, p in y):
            g = Gen(); n.body = [ast.copy_location(ast.Assign([ast.Name('yielded__', ast.Store())], ast.List([], ast.Load())), n)] + [g.visit(q) for q in n.body] + [ast.copy_location(ast.Return(ast.Name('yielded__', ast.Load())), n.body[-1])]
        for i, q in enumerate(sorted((q for q in ast.walk(n) if isinstance(q, ast.For)), key=lambda q: (q.lineno, q.col_offset))):
            if not hasattr(q, 'ord'): q.ord = i
        n.locals_ = localnames(n) | (s.fn[-1].locals_ if s.fn else set())
        s.fn.append(n); s.generic_visit(n); s.fn.pop(); return n
    def visit_Compare(s, n):
        s.generic_visit(n)
        if s.fn and len(n.ops) == 1:
            f = {ast.In: '__in__', ast.NotIn: '__notin__'}.get(type(n.ops[0]))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None: f = '__isnone__' if isinstance(n.ops[0], ast.Is) else '__isnotnone__'
            if f: return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n
    def visit_List(s, n):
        s.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and s.fn: return ast.copy_location(ast.Call(ast.Name('__vlist__', ast.Load()), [n], []), n)
        return n
    def visit_Dict(s, n):
        s.generic_visit(n)
        if s.fn: return ast.copy_location(ast.Call(ast.Name('__vdict__', ast.Load()), [n], []), n)
        return n
    def visit_ExceptHandler(s, n):
        s.generic_visit(n)
        if n.type is None: n.type = ast.Name('Exception', ast.Load())
        return n
    def comp(s, n, kind):
        s.generic_visit(n)
        if not s.fn or len(n.generators) > 2 or any(g.is_async for g in n.generators): return n
        if len(n.generators) == 2:
            g1, g2 = n.generators
            if not isinstance(g1.target, ast.Name) or not isinstance(g2.target, ast.Name) or g1.ifs or g2.ifs: return n   # other nested generators stay native
            lam = lambda nm, body: ast.Lambda(ast.arguments([], [ast.arg(nm)], None, [], [], None, []), body)
            return ast.copy_location(ast.Call(ast.Name('__comp2__', ast.Load()), [ast.Constant(kind), g1.iter, lam(g1.target.id, g2.iter), lam(g1.target.id, lam(g2.target.id, n.elt))], []), n)
        g = n.generators[0]; v = s.fresh('e')
        names = [q.id for q in ast.walk(g.target) if isinstance(q, ast.Name)]
        if isinstance(g.target, ast.Name): mk = lambda body: ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
        else:
            # tuple target: take the element apart by position
            def mk(body):
                inner = ast.Lambda(ast.arguments([], [ast.arg(q.id) for q in g.target.elts], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg(v)], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name(v, ast.Load()), ast.Load())], []))
            if not (isinstance(g.target, ast.Tuple) and all(isinstance(q, ast.Name) for q in g.target.elts)): return n
        cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs) if g.ifs else ast.Constant(True)
        return ast.copy_location(ast.Call(ast.Name('__comp__', ast.Load()), [ast.Constant(kind), g.iter, mk(cond) if g.ifs else ast.Constant(None), mk(n.elt)], []), n)
    def visit_ListComp(s, n): return s.comp(n, 'list')
    def visit_GeneratorExp(s, n): return s.comp(n, 'gen')
    def visit_For(s, n):
        fn = s.fn[-1] if s.fn else None
        hasyield = any(isinstance(q, (ast.Yield, ast.YieldFrom)) for q in ast.walk(n))
        if fn is None or n.orelse or hasyield:
            s.generic_visit(n); return n
        import copy
        body_sym = copy.deepcopy(n.body)
        assigned = []
        for q in ast.walk(ast.Module([n], [])):
            if isinstance(q, ast.Name) and isinstance(q.ctx, (ast.Store, ast.Del)) and q.id in fn.locals_ and q.id not in assigned and not q.id.startswith('__'): assigned.append(q.id)
            if isinstance(q, ast.ExceptHandler) and q.name and q.name not in assigned: assigned.append(q.name)
        s.generic_visit(n)
        it, bd, gt, st, rs, x = [s.fresh(q) for q in ('it', 'body', 'get', 'set', 'res', 'x')]
        used = [q for q in dict.fromkeys(q.id for b in body_sym for q in ast.walk(b) if isinstance(q, ast.Name)) if q in fn.locals_ and q not in assigned]
        # names bound inside nested lambdas / functions of the body are their own
        mod = ast.Module(body_sym, []); t2 = Tr(); t2.n = s.n + 1000; t2.fn = list(s.fn)
        mod = t2.visit(mod); s.n = t2.n
        inner = [q for q in ast.walk(mod) if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store)]
        tmp_inner = set(q.id for q in inner if q.id.startswith('__'))
        body = LoopBody().run(mod.body)
        tgt = ast.Assign([n.target], ast.Name(x, ast.Load()))
        nl = [ast.Nonlocal(assigned)] if assigned else []
        fbody = ast.FunctionDef(bd, ast.arguments([], [ast.arg(x)], None, [], [], None, []), nl + [tgt] + body, [], None)
        getter = [ast.Assign([ast.Name('__d__', ast.Store())], ast.Call(ast.Name('__rawdict__', ast.Load()), [], []))]
        for a in assigned + used:
            getter.append(ast.Try([ast.Assign([ast.Subscript(ast.Name('__d__', ast.Load()), ast.Constant(a), ast.Store())], ast.Name(a, ast.Load()))],
                                  [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Assign([ast.Subscript(ast.Name('__d__', ast.Load()), ast.Constant(a), ast.Store())], ast.Name('__UNDEF__', ast.Load()))])], [], []))
        fget = ast.FunctionDef(gt, ast.arguments([], [], None, [], [], None, []), getter + [ast.Return(ast.Name('__d__', ast.Load()))], [], None)
        setter = ([ast.Nonlocal(assigned + used)] if assigned + used else []) + [ast.If(ast.Compare(ast.Constant(a), [ast.In()], [ast.Name('__d__', ast.Load())]), [ast.Assign([ast.Name(a, ast.Store())], ast.Subscript(ast.Name('__d__', ast.Load()), ast.Constant(a), ast.Load()))], []) for a in assigned + used] + [ast.Pass()]
        fset = ast.FunctionDef(st, ast.arguments([], [ast.arg('__d__')], None, [], [], None, []), setter, [], None)
        call = ast.Assign([ast.Name(rs, ast.Store())], ast.Call(ast.Name('__loop__', ast.Load()), [ast.Name(it, ast.Load()), ast.Name(bd, ast.Load()), ast.Name(gt, ast.Load()), ast.Name(st, ast.Load()), ast.Constant('%s#%d' % (fn.name, getattr(n, 'ord', -1))), ast.Tuple([ast.Constant(a) for a in assigned], ast.Load())], []))
        ret = ast.If(ast.Call(ast.Name('__isret__', ast.Load()), [ast.Name(rs, ast.Load())], []), [ast.Return(ast.Attribute(ast.Name(rs, ast.Load()), 'value', ast.Load()))], [])
        if any(isinstance(q, ast.FunctionDef) and False for q in s.fn): pass
        sym = [fbody, fget, fset, call, ret]
        native = ast.For(n.target, ast.Name(it, ast.Load()), n.body, [])
        out = [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('__iter__', ast.Load()), [n.iter], [])),
               ast.If(ast.Call(ast.Name('__issym__', ast.Load()), [ast.Name(it, ast.Load())], []), sym, [native])]
        for o in out: ast.copy_location(o, n)
        return out
class LoopBody(ast.NodeTransformer):
    """continue / break / return of the loop body become results of the body function"""
    def run(s, body): return [s.visit(q) for q in body]
    def visit_FunctionDef(s, n): return n
    def visit_Lambda(s, n): return n
    def visit_For(s, n): return s.inner(n)
    def visit_While(s, n): return s.inner(n)
    def inner(s, n):
        return RetOnly().visit_children(n)
    def visit_Continue(s, n): return ast.copy_location(ast.Return(ast.Constant(None)), n)
    def visit_Break(s, n): return ast.copy_location(ast.Return(ast.Name('__BREAK__', ast.Load())), n)
    def visit_Return(s, n): return ast.copy_location(ast.Return(ast.Call(ast.Name('__Ret__', ast.Load()), [n.value or ast.Constant(None)], [])), n)
class RetOnly(ast.NodeTransformer):
    def visit_children(s, n): return s.generic_visit(n)
    def visit_FunctionDef(s, n): return n
    def visit_Lambda(s, n): return n
    def visit_Return(s, n): return ast.copy_location(ast.Return(ast.Call(ast.Name('__Ret__', ast.Load()), [n.value or ast.Constant(None)], [])), n)

# ---------------------------------------------------------------------------------------------- builtins
def issymseq(x): return isinstance(x, SymSeqBase) or (isinstance(x, SArr) and x.shape and not isinstance(x.shape[0], int)) or (hasattr(x, 'symseq_') and not isinstance(x, type))
def viter(x):
    if isinstance(x, SArr) and x.shape and isinstance(x.shape[0], SNum) and const(x.shape[0]) is not None: x = A.newarr(x.snap(), (const(x.shape[0]),) + tuple(x.shape[1:]), x._dtype)
    if isinstance(x, SArr): 
        q = x.symseq(); return x if q is None else q
    if hasattr(x, 'symseq_') and not isinstance(x, type): return x.symseq_()
    return x
def vlen(x):
    if hasattr(x, 'vlen'): return x.vlen()
    return len(x)
from loops import SymSel
class Meta(type):
    def __instancecheck__(c, o): return c.check(o)
class vint(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, int) or (isinstance(o, SNum) and o.isint))
    def __new__(c, x=0, *a):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, (SNum, SBool)): return A.toint(x)
        if hasattr(x, 'vint'): return x.vint()
        if isinstance(x, str):
            v = core.number(x)
            if v is not None:
                if not v.isint: raise ValueError('invalid literal for int()')
                return v
        return int(x, *a)
class vfloat(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, float) or (isinstance(o, SNum) and not o.isint))
    def __new__(c, x=0.0):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, SNum): return SNum(toreal(x.e), x.nan)
        if isinstance(x, SBool): return SNum(toreal(lift(x)))
        if hasattr(x, 'vfloat'): return x.vfloat()
        if isinstance(x, str): 
            v = core.number(x)
            if v is not None: return SNum(toreal(v.e))
        return float(x)
    is_integer = staticmethod(float.is_integer)
class vbool(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, (bool, SBool)))
    def __new__(c, x=False):
        if isinstance(x, SBool): return x
        if isinstance(x, SNum): return SBool(zor(x.e != 0, x.nan))
        return bool(x)
class vstr(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, (str, loops.SName)))
    def __new__(c, x=''):
        return format(x, '') if isinstance(x, SNum) else str(x)
    join = staticmethod(str.join); format = staticmethod(str.format)
class vlist(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, list) or isinstance(o, SymSeqBase))
    def __new__(c, x=()):
        x = viter(x)
        if isinstance(x, SymSeqBase): return x
        return VList(x)
class vtuple(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, tuple))
    def __new__(c, x=()):
        if isinstance(x, SymSeqBase): return x
        return tuple(x)
class vdict(metaclass=Meta):
    check = staticmethod(lambda o: isinstance(o, (dict, loops.SDict)))
    def __new__(c, *a, **k): return loops.VDict(*a, **k)
def vmin(*a, **k): return ext(a, k, 'min')
def vmax(*a, **k): return ext(a, k, 'max')
def ext(a, k, kind):
    if len(a) == 1:
        a = a[0]
        if (hasattr(a, 'v' + kind) or isinstance(a, (SArr, SymSeqBase))) and k: raise Unsupported('%s with options' % kind)
        if hasattr(a, 'v' + kind): return getattr(a, 'v' + kind)()
        if isinstance(a, SArr): return A.redagg(a, kind)
        if isinstance(a, SymSeqBase): return loops.seq_reduce(a, kind)
        a = list(a)
    if k.get('key') is not None: return getattr(B, kind)(a, **k)
    if not a:
        if 'default' in k: return k['default']
        raise ValueError('%s() arg is an empty sequence' % kind)
    r = a[0]
    for q in a[1:]:
        if isinstance(q, (SNum, SArr)) or isinstance(r, (SNum, SArr)):
            if isinstance(q, SArr): q = q.item()
            if isinstance(r, SArr): r = r.item()
            c = (q < r) if kind == 'min' else (q > r)
            if isinstance(q, SNum) and isinstance(r, SNum) and q.isint != r.isint: r = q if c else r
            elif C.valid(zb(c)): r = q
            elif not C.valid(z3.Not(zb(c))): r = ite(zb(c), q, r)
        else: r = getattr(B, kind)(r, q)
    return r
def vsum(x, start=0):
    if isinstance(x, SArr): return x.sum()
    x = viter(x)
    if isinstance(x, SymSeqBase): return loops.seq_reduce(x, 'sum')
    r = start
    for q in x: r = r + q
    return r
def vany(x):
    if isinstance(x, SArr): return x.any()
    x = viter(x)
    if isinstance(x, SymSeqBase): return loops.seq_quant(x, True)
    for q in x:
        if q: return True
    return False
def vall(x):
    if isinstance(x, SArr): return x.all()
    x = viter(x)
    if isinstance(x, SymSeqBase): return loops.seq_quant(x, False)
    for q in x:
        if not q: return False
    return True
def vabs(x): return abs(x)
def vround(x, n=None):
    if isinstance(x, SArr): return A.np_round(x, n or 0)
    return round(x, n) if n is not None else round(x)
def vrange(*a):
    if any(isinstance(q, SNum) and const(q) is None for q in a):
        if len(a) == 1: lo, hi = 0, a[0]
        elif len(a) == 2: lo, hi = a
        else: raise Unsupported('range step')
        n = SNum(lift(hi)) - lo
        if not C.valid(n.e >= 0): n = SNum(z3.If(n.e < 0, 0, n.e))
        return SymSeq(n, lambda k: SNum(zi(SNum(lift(k)) + lo)))
    return range(*[const(q) if isinstance(q, SNum) else q for q in a])
def venumerate(x, start=0):
    x = viter(x)
    if isinstance(x, SymSel): raise Unsupported('enumerate of a filtered sequence')
    if isinstance(x, SymSeqBase): return SymSeq(x.n, lambda k: (SNum(zi(SNum(lift(k)) + start)), x.at(k)), 'enumerate')
    return enumerate(x, start)
def vzip(*xs):
    xs = [viter(x) for x in xs]
    if any(isinstance(x, SymSel) for x in xs): raise Unsupported('zip of a filtered sequence')
    if any(isinstance(x, SymSeqBase) for x in xs):
        ns = [x.n if isinstance(x, SymSeqBase) else len(x) for x in xs]; n = ns[0]
        for m in ns[1:]:
            if not (z3.eq(zi(m), zi(n)) or C.valid(lift(m) == lift(n))):
                n = ext((n if isinstance(n, SNum) else SNum(lift(n)), m if isinstance(m, SNum) else SNum(lift(m))), {}, 'min')
        return SymSeq(n, lambda k: tuple(x.at(k) if isinstance(x, SymSeqBase) else SymSeqOf(x).at(k) for x in xs))
    return zip(*xs)
def SymSeqOf(x):
    a = A.np_array(list(x)); return SymSeq(len(x), lambda k: a.get(k))
def vsorted(x, **k):
    if hasattr(x, 'vsorted'): return x.vsorted(**k)
    if isinstance(x, SymSeqBase): raise Unsupported('sorted of a symbolic sequence')
    if set(k) - {'key', 'reverse'}: raise TypeError('sorted() got an unexpected keyword argument')
    x = list(x)
    if len(x) <= 1: return VList(x)
    if any(isinstance(q, SNum) and const(q) is None for q in x):
        if any(v for v in k.values()): raise Unsupported('sorted with options')
        out = []
        for q in x:
            i = 0
            while i < len(out) and bool(out[i] <= q): i += 1
            out.insert(i, q)
        return VList(out)
    return VList(sorted(x, **k))
def vdivmod(a, b): return divmod(a, b) if not (isinstance(a, SNum) or isinstance(b, SNum)) else ((a if isinstance(a, SNum) else SNum(lift(a))).__divmod__(b))
def visinstance(o, c):
    if isinstance(c, tuple): return any(visinstance(o, q) for q in c)
    if hasattr(o, 'vclass'): return o.vclass(c)
    if isinstance(c, Scal):    # numpy number types: the model has numbers, not their types
        if o is None or isinstance(o, (str, list, tuple, dict, set, ArrBase)): return False
        raise Unsupported('isinstance of a numpy number type')
    try: return isinstance(o, c)
    except TypeError: raise Unsupported('isinstance')
def vtype(*a):
    if len(a) != 1: return type(*a)
    o = a[0]
    if isinstance(o, (SArr, SStruct)): return np.ndarray if not getattr(o, 'isdask', False) else modules['dask.array'].Array
    if hasattr(o, 'vtype'): return o.vtype()
    return type(o)
def vin(a, b):
    if hasattr(b, 'vcontains') and not isinstance(b, type): return b.vcontains(a)
    if hasattr(a, 'anytext') and isinstance(b, (list, tuple, set, frozenset)) and all(isinstance(q, str) for q in b): return SBool(z3.Or(*[zb(a == q) for q in b]))
    return a in b
def vnotin(a, b):
    r = vin(a, b); return A.vinv(r) if isinstance(r, SBool) else not r
def visnone(a, _): return a.isnone() if isinstance(a, loops.Obj) else a is None
def visnotnone(a, _): return A.vinv(a.isnone()) if isinstance(a, loops.Obj) else a is not None
def vprint(*a, **k): pass
def vhasattr(o, n): return hasattr(o, n)

# ---------------------------------------------------------------------------------------------- modules
class Stub(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        full = s.__name__ + '.' + n
        if n[:1].isupper(): v = type(n, (StubObj,), {'_n': full})
        else: v = StubFn(full)
        setattr(s, n, v); return v
class StubObj:
    _n = ''
    def __init__(s, *a, **k): raise Unsupported('%s is outside the verified code' % s._n)
class StubFn:
    def __init__(s, n): s.__dict__['_n'] = n
    def __call__(s, *a, **k): raise Unsupported('%s is outside the verified code' % s._n)
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubFn(s._n + '.' + n)
class ndmeta(type):
    def __instancecheck__(c, o): return isinstance(o, ArrBase) and not getattr(o, 'isdask', False)
class ndarray(metaclass=ndmeta): pass
class darrmeta(type):
    def __instancecheck__(c, o): return getattr(o, 'isdask', False) is True
class DArray(metaclass=darrmeta): pass
class Scal:
    """numpy scalar types"""
    def __init__(s, n, f): s.__name__ = n; s.f = f
    def __call__(s, v=0): return s.f(v)
    def __eq__(s, o): return isinstance(o, Scal) and o.__name__ == s.__name__ or (isinstance(o, Dtype) and o.kind == s.__name__)
    def __hash__(s): return hash(s.__name__)
def fcast(v):
    if isinstance(v, SArr): return v.astype('float64')
    if isinstance(v, (SNum, SBool)): return vfloat(v)
    return float(v)
def icast(v):
    if isinstance(v, SArr): return v.astype('int64')
    return vint(v)
np = types.ModuleType('numpy')
np.ndarray = ndarray; np.nan = float('nan'); np.NaN = np.nan; np.inf = float('inf')
for n in ('float32', 'float64', 'float16'): setattr(np, n, Scal(n, fcast))
for n in ('int64', 'int32', 'int16', 'uint8'): setattr(np, n, Scal(n, icast))
np.bool_ = Scal('bool', vbool)
for n in ('number', 'integer', 'floating', 'generic'): setattr(np, n, Scal(n, lambda *a: Stub('numpy').number()))
for n in dir(A):
    if n.startswith('np_') and not n.endswith('_'): setattr(np, n[3:], getattr(A, n))
np.argsort = A.np_argsort
class _UF:
    def __call__(s, *a, **k): return s.f(*a, **k)
for _n, _k in (('add', 'sum'), ('minimum', 'min'), ('maximum', 'max')):
    _f = _UF(); _f.f = getattr(A, 'np_' + _n); _f.reduceat = A.reduceat(_k); setattr(np, _n, _f)
np.linalg = types.ModuleType('numpy.linalg'); np.linalg.lstsq = A.np_lstsq
np.ma = Stub('numpy.ma')
def _npmiss(n): raise Unsupported('numpy.%s has no model' % n)
class NpMod(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubFn('numpy.' + n)
np.__class__ = NpMod
real = {k: importlib.import_module(k) for k in ('json', 'datetime', 'time', 'typing', 'copy', 'math', 'functools', 'itertools', 'collections', 'types', 're', 'string')}
modules = {'numpy': np}
d = Stub('dask.array'); d.Array = DArray; modules['dask.array'] = d
nb = Stub('numba'); nb.njit = lambda *a, **k: (a[0] if a and callable(a[0]) else (lambda f: f)); nb.jit = nb.njit; modules['numba'] = nb
class DatasetMeta(type):
    def __instancecheck__(c, o): return getattr(o, 'isdataset', False) is True
class Dataset(metaclass=DatasetMeta): pass
x = Stub('xarray'); x.Dataset = Dataset; modules['xarray'] = x
def vimport(name, g=None, l=None, fromlist=(), level=0):
    if level: raise Unsupported('relative import')
    if name == 'bathygrid' or name.startswith('bathygrid.'):
        m = load(name); 
        return m if fromlist else load('bathygrid')
    if name.split('.')[0] == 'bathycube': raise ImportError(name)
    if name in modules: m = modules[name]
    elif name in real: return importlib.import_module(name)
    elif name == 'os': m = modules.setdefault('os', osmod())
    else: m = modules.setdefault(name, Stub(name))
    if not fromlist and '.' in name:
        top = name.split('.')[0]; t = modules.setdefault(top, Stub(top)); return t
    return m
def osmod():
    m = Stub('os'); p = Stub('os.path')
    for n in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath'): setattr(p, n, getattr(os.path, n))
    m.path = p; m.sep = os.sep; modules['os.path'] = p
    return m
def vcomp(kind, it, cond, elt):
    it = viter(it)
    if isinstance(it, SymSeqBase): return loops.comp(kind, it, cond, elt)
    if kind == 'gen': return (elt(q) for q in it if cond is None or cond(q))
    return VList(elt(q) for q in it if cond is None or cond(q))
def vcomp2(kind, it, inner, elt):
    it = viter(it)
    if isinstance(it, SymSeqBase): return loops.flat2(it, inner, elt)
    if kind == 'gen': it = list(it)
    out = VList()
    for q in it:
        r = viter(inner(q))
        if isinstance(r, SymSeqBase):
            if len(it) != 1: raise Unsupported('symbolic sequences joined to a list')
            return loops.comp(kind, r, None, elt(q))
        f = elt(q); out.extend(f(w) for w in r)
    return out
BUILTINS = dict(B.__dict__)
BUILTINS.update({'__import__': vimport, 'len': vlen, 'int': vint, 'float': vfloat, 'bool': vbool, 'str': vstr, 'list': vlist, 'tuple': vtuple, 'dict': vdict, 'min': vmin, 'max': vmax,
    'sum': vsum, 'any': vany, 'all': vall, 'abs': vabs, 'round': vround, 'range': vrange, 'enumerate': venumerate, 'zip': vzip, 'sorted': vsorted, 'divmod': vdivmod,
    'isinstance': visinstance, 'type': vtype, 'print': vprint, '__vlist__': VList, '__vdict__': loops.VDict, '__comp__': vcomp, '__comp2__': vcomp2, '__loop__': loops.loop, '__iter__': viter,
    '__issym__': lambda x: isinstance(x, SymSeqBase), '__isret__': lambda r: isinstance(r, loops.Ret), '__Ret__': loops.Ret, '__BREAK__': loops.BREAK, '__UNDEF__': UNDEF, '__rawdict__': dict, '__in__': vin, '__notin__': vnotin, '__isnone__': visnone, '__isnotnone__': visnotnone})
loaded = {}
sources = {}
def load(name):
    if name in loaded: return loaded[name]
    path = os.path.join(REPO, *name.split('.'))
    path = os.path.join(path, '__init__.py') if os.path.isdir(path) else path + '.py'
    src = open(path, encoding='utf-8').read(); sources[name] = src
    t = Tr().visit(ast.parse(src)); ast.fix_missing_locations(t)
    m = types.ModuleType(name); m.__file__ = path; loaded[name] = m
    m.__dict__['__builtins__'] = BUILTINS
    try: exec(compile(t, path, 'exec'), m.__dict__)
    except BaseException: loaded.pop(name, None); raise
    for v in list(m.__dict__.values()):
        if isinstance(v, type) and v.__module__ == name: loops.instrument(v)
    if '.' in name:
        p, c = name.rsplit('.', 1); setattr(load(p), c, m)
    return m
