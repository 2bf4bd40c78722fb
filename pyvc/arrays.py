"""Symbolic numpy.  Arrays are functions from index to value; every numpy operation the repository uses is modelled by
its documented meaning (listed in TRUSTED below, and compared with the real numpy by conformance.py)."""
from core import *
import core, math, itertools
TRUSTED = ['numpy: array creation (array, full, zeros, ones, empty, arange, append, concatenate, full_like, meshgrid, column_stack, hstack, stack)',
           'numpy: indexing and assignment (integer, slice, boolean mask, integer array), ravel, flat, reshape, transpose, fliplr',
           'numpy: argsort / lexsort return a permutation that sorts; sorted arrangements of one array are equal element by element',
           'numpy: unique (sorted distinct values, first index, counts), searchsorted / digitize on sorted arrays, unravel_index',
           'numpy: add.reduceat, minimum.reduceat, sum, min, max, mean, any, all, count_nonzero, where, argwhere, isnan, round, ceil, floor',
           'aggregates (sum, min, max, count) of equal value sets are equal; they do not depend on the order of the elements']

class Dtype:
    def __init__(s, kind, names=None): s.kind = kind; s.names = names
    def __eq__(s, o):
        if isinstance(o, Dtype): return s.kind == o.kind and s.names == o.names
        return s.kind == dkind(o)
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash(s.kind)
    def __repr__(s): return 'dtype(%s)' % (s.names or s.kind)
    @property
    def name(s): return s.kind
def dkind(d):
    if d is None: return None
    if isinstance(d, Dtype): return d.kind
    if isinstance(d, str): return d
    n = getattr(d, '__name__', None) or getattr(d, 'name', None)
    return {'float': 'float64', 'int': 'int64', 'vfloat': 'float64', 'vint': 'int64', 'vbool': 'bool'}.get(n, n)
def isfloat(k): return k is not None and str(k).startswith('float')
def isint_(k): return k is not None and (str(k).startswith('int') or str(k).startswith('uint'))

class Box:
    """mutable array content: fn maps box indices (z3 terms or python ints) to a value"""
    __slots__ = ('_fn', 'ver', 'made', 'shape', 'id', 'pieces', 'perm', 'uniq', 'seg', 'affine')
    @property
    def fn(s):
        if C.asof is not None and s.ver > C.asof and s.made < C.asof: raise Unsupported('array that changed since the comprehension that reads it')
        return s._fn
    @fn.setter
    def fn(s, f): s._fn = f; s.ver = next(C.vers)
    def __init__(s, fn, shape):
        s.id = next(C.idgen); s.made = next(C.vers); s.fn = fn; s.shape = tuple(shape); s.pieces = None; s.perm = None; s.uniq = None; s.seg = None; s.affine = None
    def write(s, cond, val):
        old = s.fn
        def fn(idx):
            c = cond(idx)
            if c is False: return old(idx)
            if c is True: return val(idx)
            c = z3.simplify(zb(c))
            if z3.is_true(c): return val(idx)
            if z3.is_false(c): return old(idx)
            return ite(c, val(idx), old(idx))
        C.mutate(s, 'fn', fn)
        if C.log is not None: C.log.append(s)
        for a in ('perm', 'uniq', 'affine'):
            if getattr(s, a) is not None: C.mutate(s, a, None)
def eqz(a, b):
    a, b = lift(a), lift(b)
    return a == b
def isexact(i): return const(i) if not (z3.is_expr(i)) else (lambda n: None if n is None else int(n))(numeral(z3.simplify(i)))
def zi(i): return z3.simplify(lift(i))

class ArrBase: pass
class SArr(ArrBase):
    __array__ = True
    def __init__(s, box, shape, dtype, dims=None):
        s.box = box; s.shape = tuple(shape); s._dtype = dtype if isinstance(dtype, Dtype) else Dtype(dtype)
        s.dims = dims if dims is not None else [('s', i, 0, 1) for i in range(len(box.shape))]
    @property
    def dtype(s): return s._dtype
    # ------------------------------------------------------------------------------------ basics
    @property
    def ndim(s): return len(s.shape)
    @property
    def size(s):
        r = 1
        for d in s.shape: r = r * d
        return r
    def vlen(s):
        if not s.shape: raise TypeError('len() of unsized object')
        return s.shape[0]
    @property
    def plain(s): return all(d == ('s', i, 0, 1) for i, d in enumerate(s.dims)) and len(s.dims) == len(s.shape)
    @property
    def T(s):
        n = len(s.shape); m = {i: n - 1 - i for i in range(n)}
        return SArr(s.box, s.shape[::-1], s._dtype, [d if d[0] == 'f' else ('s', m[d[1]], d[2], d[3]) for d in s.dims])
    def bidx(s, idx):
        out = []
        for d in s.dims:
            if d[0] == 'f': out.append(d[1])
            else:
                i = idx[d[1]]
                if d[2] == 0 and d[3] == 1: out.append(i)
                else: out.append(z3.simplify(lift(d[2]) + (lift(i) if d[3] == 1 else -lift(i))))
        return tuple(out)
    def snap(s):
        """reader of the present content"""
        f = s.box.fn
        return lambda idx: f(s.bidx(idx))
    def get(s, *idx): return s.box.fn(s.bidx(idx))
    def norm(s, i, axis):
        """python index (may be negative) to a position, with the bounds check of numpy"""
        n = s.shape[axis]
        if C.noguard and not (isinstance(i, int) and i < 0): return zi(i)
        if isinstance(i, int) and not isinstance(i, bool) and isinstance(n, int):
            if not -n <= i < n: raise IndexError('index %d is out of bounds for axis %d with size %d' % (i, axis, n))
            return i % n if n else i
        i = i if isinstance(i, SNum) else SNum(lift(i))
        if C.valid(z3.And(i.e >= 0, i.e < lift(n))): return zi(i)
        if C.decide(i.e < 0): i = i + n
        if not C.decide(z3.And(i.e >= 0, i.e < lift(n))): raise IndexError('index is out of bounds for axis %d' % axis)
        return zi(i)
    def slice_(s, sl, axis):
        n = s.shape[axis]
        step = 1 if sl.step is None else sl.step
        if step == -1 and sl.start is None and sl.stop is None: return n - 1, n, -1
        if step != 1: raise Unsupported('slice step')
        def clip(v, d):
            if v is None: return d
            if isinstance(v, int) and isinstance(n, int): return max(min(v + n if v < 0 else v, n), 0)
            if isinstance(v, int) and v >= 0 and v == 0: return 0
            v = v if isinstance(v, SNum) else SNum(lift(v))
            if C.valid(z3.And(v.e >= 0, v.e <= lift(n))): return SNum(zi(v))
            v = SNum(z3.If(v.e < 0, v.e + lift(n), v.e))
            return SNum(z3.simplify(z3.If(v.e < 0, 0, z3.If(v.e > lift(n), lift(n), v.e))))
        a = clip(sl.start, 0); b = clip(sl.stop, n)
        if isinstance(a, int) and isinstance(b, int): return a, max(b - a, 0), 1
        l = SNum(lift(b)) - a
        if not C.valid(l.e >= 0): l = SNum(z3.simplify(z3.If(l.e < 0, 0, l.e)))
        return a, l, 1
    def view(s, keys):
        """view for integer and slice keys"""
        dims = []; shape = []; newax = {}
        keys = list(keys) + [slice(None)] * (len(s.shape) - len(keys))
        info = []
        for ax, k in enumerate(keys):
            if isinstance(k, slice):
                a, l, st = s.slice_(k, ax); info.append(('s', a, st)); newax[ax] = len(shape); shape.append(l)
            else: info.append(('f', s.norm(k, ax), None))
        for d in s.dims:
            if d[0] == 'f': dims.append(d); continue
            k = info[d[1]]
            if k[0] == 'f': dims.append(('f', zi(s.bidx1(d, k[1]))))
            else:
                start = s.bidx1(d, k[1]); dims.append(('s', newax[d[1]], isexact(start) if isexact(start) is not None else zi(start), d[3] * k[2]))
        return SArr(s.box, shape, s._dtype, dims)
    def bidx1(s, d, i): return lift(d[2]) + lift(i) if d[3] == 1 else lift(d[2]) - lift(i)
    def vdom(s, axis=0): return s.shape[axis]
    # ------------------------------------------------------------------------------------ indexing
    def __getitem__(s, k):
        if isinstance(k, str): raise IndexError('only integers, slices...')
        if isinstance(k, VList): k = list(k)
        if isinstance(k, list): k = np_array(k)
        if not isinstance(k, tuple): k = (k,)
        k = tuple(np_array(list(q)) if isinstance(q, (list, VList)) else q for q in k)
        if any(isinstance(q, SArr) for q in k):
            if len(k) == 1 and k[0].dtype.kind == 'bool': return s.maskread(k[0])
            return s.fancy(k)
        if any(q is Ellipsis or q is None for q in k): raise Unsupported('index')
        if len(k) > len(s.shape): raise IndexError('too many indices for array')
        if len(k) == len(s.shape) and not any(isinstance(q, slice) for q in k):
            return s.get(*[s.norm(q, i) for i, q in enumerate(k)])
        return s.view(k)
    def fancy(s, k):
        k = list(k) + [slice(None)] * (len(s.shape) - len(k))
        arrs = [q for q in k if isinstance(q, SArr)]
        if any(q.dtype.kind == 'bool' for q in arrs): raise Unsupported('mixed mask index')
        if any(isinstance(q, slice) for q in k):
            if len(arrs) == 1:  # one axis gathered, the other kept
                ax = [i for i, q in enumerate(k) if isinstance(q, SArr)][0]
                if any(isinstance(q, slice) and q != slice(None) for q in k) or arrs[0].ndim != 1: raise Unsupported('mixed index')
                rd = s.snap(); ird = arrs[0].snap(); shape = list(s.shape); shape[ax] = arrs[0].shape[0]
                def f(idx):
                    i = list(idx); i[ax] = wrap(ird((idx[ax],)), s.shape[ax]); return rd(tuple(i))
                return newarr(f, shape, s._dtype)
            raise Unsupported('mixed index')
        shape = arrs[0].shape
        rds = [q.snap() if isinstance(q, SArr) else (lambda idx, q=q: q) for q in k]; rd = s.snap()
        if not shape:  # zero dimensional index arrays
            return s[tuple(q.get() if isinstance(q, SArr) else q for q in k)]
        if len(shape) == 1 and const(shape[0]) is not None and const(shape[0]) <= 4 and not C.noguard:       # few elements: an index out of bounds raises
            for q, r, d in zip(k, rds, s.shape):
                for i in range(const(shape[0]) if isinstance(q, SArr) else 1):
                    v = lift(r((z3.IntVal(i),)))
                    if not C.decide(z3.And(v >= -lift(d), v < lift(d))): raise IndexError('index out of bounds')
        rds = [guarded(q, r, s.shape[ax]) for ax, (q, r) in enumerate(zip(k, rds))]
        def f(idx): return rd(tuple(zi(r(idx)) for i, r in enumerate(rds)))
        r = newarr(f, shape, s._dtype)
        if len(k) == 1 and k[0].box.perm is not None and k[0].plain: r.box.seg = ('perm', k[0].box.perm)
        return r
    def maskread(s, m):
        F = filt(m)
        rd = s.snap()
        if m.ndim == 1 and s.ndim == 1: return newarr(lambda idx: rd((F.sel(idx[0]),)), (F.count,), s._dtype)
        if m.ndim == 2 and s.ndim == 2: return newarr(lambda idx: rd(F.sel2(idx[0])), (F.count,), s._dtype)
        if m.ndim == 0: return s.zerodmask(m)
        raise Unsupported('mask of other rank')
    def __setitem__(s, k, v):
        if isinstance(k, (list, VList)): k = np_array(list(k))
        if not isinstance(k, tuple): k = (k,)
        k = tuple(np_array(list(q)) if isinstance(q, (list, VList)) else q for q in k)
        if isinstance(v, (list, VList)): v = np_array(list(v))
        if any(isinstance(q, SArr) for q in k):
            if len(k) == 1 and k[0].dtype.kind == 'bool': return s.maskwrite(k[0], v)
            return s.scatter(k, v)
        if len(k) == len(s.shape) and not any(isinstance(q, slice) for q in k):
            pos = [s.norm(q, i) for i, q in enumerate(k)]; b = s.bidx(pos); v = coerce(v, s._dtype)
            s.box.write(lambda idx: zand(*[eqz(i, j) for i, j in zip(idx, b)]), lambda idx: v)
            return
        w = s.view(k); w.assign(v)
    def inv(s, idx):
        """(condition, view index) of a box index"""
        cond = []; out = [None] * len(s.shape)
        for d, i in zip(s.dims, idx):
            if d[0] == 'f': cond.append(eqz(i, d[1]))
            else:
                n = s.shape[d[1]]
                v = lift(i) if d[2] == 0 and d[3] == 1 else z3.simplify((lift(i) - lift(d[2])) if d[3] == 1 else (lift(d[2]) - lift(i)))
                out[d[1]] = v
                if not (d[2] == 0 and d[3] == 1 and z3.eq(zi(n), zi(s.box.shape[s.dims.index(d)]))): cond.append(z3.And(v >= 0, v < lift(n)))
        return zand(*cond), tuple(out)
    def assign(s, v):
        if isinstance(v, SymSeqBase): raise Unsupported('sequence written to an array')
        if isinstance(v, SArr):
            v = bcast(v, s.shape); rd = v.snap()
            s.box.write(lambda idx: s.inv(idx)[0], lambda idx: coerce(rd(s.inv(idx)[1]), s._dtype))
        else:
            v = coerce(v, s._dtype)
            if len(s.box.shape) == 1 and s.box.pieces is not None and isinstance(v, (bool, int, float)):
                d = s.dims[0]; C.mutate(s.box, 'pieces', s.box.pieces + [(d[2] if d[0] == 's' else d[1], s.shape[0] if d[0] == 's' else 1, v)])
            elif len(s.box.shape) == 2 and s.box.pieces is not None and isinstance(v, (bool, int, float)) and all(d[0] == 's' and d[3] == 1 for d in s.dims) and [d[1] for d in s.dims] == [0, 1]:
                C.mutate(s.box, 'pieces', s.box.pieces + [((s.dims[0][2], s.dims[1][2]), s.shape, v)])
            elif s.box.pieces is not None: C.mutate(s.box, 'pieces', None)
            s.box.write(lambda idx: s.inv(idx)[0], lambda idx: v); return
        if s.box.pieces is not None: C.mutate(s.box, 'pieces', None)
    def maskwrite(s, m, v):
        if isinstance(v, SymSeqBase): raise Unsupported('sequence written to a mask')
        if m.ndim == 0:
            if C.decide(zb(m.get())): s.assign(v)
            return
        if m.ndim != s.ndim: raise Unsupported('mask rank')
        samedim(m.shape, s.shape); rd = m.snap(); sinv = s.inv
        if s.box.pieces is not None: C.mutate(s.box, 'pieces', None)
        if isinstance(v, SArr) and v.ndim:
            F = filt(m); vrd = v.snap()
            if not C.decide(lift(v.shape[0]) == lift(F.count)): raise ValueError('cannot assign to the masked values')
            rank = (lambda i: F.rank(i[0])) if m.ndim == 1 else (lambda i: F.rank2(*i))
            def cond(idx):
                c, i = sinv(idx); return zand(c, zb(rd(i)))
            s.box.write(cond, lambda idx: coerce(vrd((rank(sinv(idx)[1]),)), s._dtype))
        else:
            if isinstance(v, SArr): v = v.get()
            v = coerce(v, s._dtype)
            def cond(idx):
                c, i = sinv(idx); return zand(c, zb(rd(i)))
            s.box.write(cond, lambda idx: v)
    def scatter(s, k, v):
        k = list(k)
        if len(k) != len(s.shape): raise Unsupported('partial index array')
        arrs = [q for q in k if isinstance(q, SArr)]; n = arrs[0].shape
        if len(n) != 1: raise Unsupported('index array rank')
        for q in arrs[1:]: samedim(q.shape, n)
        n = n[0]
        rds = [guarded(q, q.snap() if isinstance(q, SArr) else (lambda idx, q=q: q), s.shape[ax]) for ax, q in enumerate(k)]
        if isinstance(v, SArr): v = bcast(v, (n,)); vrd = v.snap()
        elif isinstance(v, SymSeqBase):
            if s._dtype.kind != 'object' or not isinstance(v, SymSeq): raise Unsupported('sequence written to an index array')
            samedim((v.n,), (n,)); vrd = lambda idx: v.at(idx[0])      # an array of objects takes the elements as they are
        else:
            cv = coerce(v, s._dtype); vrd = lambda idx: cv
        if s.box.pieces is not None: C.mutate(s.box, 'pieces', None)
        W = Witness(n, lambda j, pos: z3.And(*[lift(r((j,))) == lift(pos[i]) for i, r in enumerate(rds)]), len(k))
        sinv = s.inv
        def cond(idx):
            c, i = sinv(idx); return zand(c, W.hit(i))
        s.box.write(cond, lambda idx: coerce(vrd((W.at(sinv(idx)[1]),)), s._dtype))
    # ------------------------------------------------------------------------------------ elementwise
    def map(s, f, dtype=None):
        rd = s.snap(); return newarr(lambda idx: f(rd(idx)), s.shape, dtype or s._dtype)
    def bin(s, o, f, dtype=None, rev=False):
        if isinstance(o, (list, VList)): o = np_array(list(o))
        if isinstance(o, SStruct): return NotImplemented
        if isinstance(o, SArr):
            a, b = bcast2(s, o); ra, rb = a.snap(), b.snap()
            g = (lambda idx: f(rb(idx), ra(idx))) if rev else (lambda idx: f(ra(idx), rb(idx)))
            r = newarr(g, a.shape, dtype or promote(s, o)); da, db = groupdom(s), groupdom(o)
            if da and db and da[3] is db[3] and z3.eq(lift(da[4]), lift(db[4])): r.dom = (r.box.fn, da[0], da[1], (lambda p: f(db[2](p), da[2](p))) if rev else (lambda p: f(da[2](p), db[2](p))), da[3], da[4])
            return r
        ra = s.snap()
        g = (lambda idx: f(o, ra(idx))) if rev else (lambda idx: f(ra(idx), o))
        r = newarr(g, s.shape, dtype or promote(s, o)); d = groupdom(s)
        if d: r.dom = (r.box.fn, d[0], d[1], (lambda p: f(o, d[2](p))) if rev else (lambda p: f(d[2](p), o)), d[3], d[4])
        return r
    def __add__(s, o): return s.bin(o, vadd)
    def __radd__(s, o): return s.bin(o, vadd, rev=True)
    def __sub__(s, o): return s.bin(o, lambda a, b: a - b)
    def __rsub__(s, o): return s.bin(o, lambda a, b: a - b, rev=True)
    def __mul__(s, o): return s.bin(o, vmul)
    def __rmul__(s, o): return s.bin(o, vmul, rev=True)
    def __truediv__(s, o): return s.bin(o, vdiv, 'float64')
    def __rtruediv__(s, o): return s.bin(o, vdiv, 'float64', rev=True)
    def __floordiv__(s, o): return s.bin(o, lambda a, b: a // b)
    def __mod__(s, o): return s.bin(o, lambda a, b: a % b)
    def __pow__(s, o): return s.bin(o, lambda a, b: a ** b)
    def __neg__(s): return s.map(lambda a: -a)
    def __abs__(s): return s.map(lambda a: abs(a))
    def __invert__(s): return s.map(vinv)
    def __and__(s, o): return s.bin(o, lambda a, b: SBool(zand(zb(a), zb(b))))
    __rand__ = __and__
    def __or__(s, o): return s.bin(o, lambda a, b: SBool(zor(zb(a), zb(b))))
    __ror__ = __or__
    def __lt__(s, o): return s.bin(o, lambda a, b: a < b, 'bool')
    def __le__(s, o): return s.bin(o, lambda a, b: a <= b, 'bool')
    def __gt__(s, o): return s.bin(o, lambda a, b: a > b, 'bool')
    def __ge__(s, o): return s.bin(o, lambda a, b: a >= b, 'bool')
    def __eq__(s, o): return s.bin(o, veq, 'bool')
    def __ne__(s, o): return s.bin(o, lambda a, b: vinv(veq(a, b)), 'bool')
    __hash__ = object.__hash__
    def __iadd__(s, o): r = s + o; s.assign(r); return s
    def __isub__(s, o): r = s - o; s.assign(r); return s
    def __imul__(s, o): r = s * o; s.assign(r); return s
    def __itruediv__(s, o): r = s / o; s.assign(r); return s
    def __bool__(s):
        if all(isinstance(d, int) and d == 1 for d in s.shape): return bool(s.get(*[0] * len(s.shape)))
        if all(isinstance(d, int) for d in s.shape): raise ValueError('The truth value of an array with more than one element is ambiguous')
        if C.decide(lift(s.size) == 1): return bool(s.get(*[0] * len(s.shape)))
        if C.decide(lift(s.size) == 0): return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __iter__(s):
        if all(isinstance(d, int) for d in s.shape[:1]): return iter([s[i] for i in range(s.shape[0])])
        raise Unsupported('native iteration over a symbolic array')
    def symseq(s):
        if isinstance(s.shape[0], int): return None
        return SymSeq(s.shape[0], lambda k: s[SNum(lift(k))])
    # ------------------------------------------------------------------------------------ reductions
    def flatidx(s, i):
        """row-major position to index tuple"""
        if len(s.shape) == 1: return (i,)
        if len(s.shape) == 0: return ()
        if len(s.shape) == 2:
            q, r = divpair(i, s.shape[1]); a, b = lift(s.shape[0]), lift(s.shape[1]); C.assume(z3.Implies(z3.And(lift(i) >= 0, lift(i) < zmul(a, b)), z3.And(q >= 0, q < a, r >= 0, r < b))); return (q, r)
        raise Unsupported('rank')
    def any(s, axis=None):
        if axis is not None and len(s.shape) == 2: return s.reduce_axis(axis, 'any')
        return quant(s, True)
    def all(s, axis=None):
        if axis is not None and len(s.shape) == 2: return s.reduce_axis(axis, 'all')
        return quant(s, False)
    def reduce_axis(s, axis, kind):
        keep = 1 - axis if axis >= 0 else 0
        rd = s.snap(); n = s.shape[1 - keep]
        def f(idx):
            line = newarr(lambda i: rd((idx[0], i[0]) if keep == 0 else (i[0], idx[0])), (n,), s._dtype)
            key = ('quant', kind, s.box.id, keep, zi(idx[0]).sexpr())
            if key in C.memo: return C.memo[key]
            r = quant(line, kind == 'any'); C.setmemo(key, r); return r
        return newarr(f, (s.shape[keep],), 'bool')
    def cond_any(s): return s.any()
    def sum(s, axis=None):
        if s.dtype.kind == 'bool': return countnz(s)
        return redagg(s, 'sum')
    def min(s, axis=None): return redagg(s, 'min')
    def max(s, axis=None): return redagg(s, 'max')
    def mean(s, axis=None):
        return redagg(s, 'sum') / s.size
    # ------------------------------------------------------------------------------------ shape
    def ravel(s):
        if len(s.shape) == 1: return s if s.plain else s
        return Flat(s)
    flatten = lambda s: s.copy().ravel()
    @property
    def flat(s): return Flat(s) if len(s.shape) != 1 else s
    def reshape(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], tuple): sh = sh[0]
        if any(isinstance(q, int) and q == -1 for q in sh):
            if len(sh) == 1: return s.ravel()
            raise Unsupported('reshape with -1')
        tot = 1
        for q in sh: tot = tot * q
        if not (isinstance(tot, int) and isinstance(s.size, int) and tot == s.size) and not C.decide(lift(tot) == lift(s.size)): raise ValueError('cannot reshape')
        src = s.ravel().snap() if len(s.shape) != 1 else s.snap()
        if len(sh) == 2: return newarr(lambda idx: src((zi(lift(SNum(lift(idx[0])) * sh[1]) + lift(idx[1])),)), sh, s._dtype)
        if len(sh) == 1: return newarr(src, sh, s._dtype)
        raise Unsupported('reshape')
    def copy(s):
        r = newarr(s.snap(), s.shape, s._dtype)
        if s.plain:
            for a in ('pieces', 'perm', 'uniq', 'seg', 'affine'): setattr(r.box, a, getattr(s.box, a))
        return r
    def astype(s, d, copy=True):
        k = dkind(d)
        if isfloat(k) or k == s.dtype.kind or k == 'object': return newarr(s.snap(), s.shape, k)
        if isint_(k): return s.map(toint, k)
        if k == 'bool': return s.map(lambda v: v if isinstance(v, (SBool, bool)) else SBool(zb(v != 0)), 'bool')
        raise Unsupported('astype %s' % k)
    def tolist(s):
        if len(s.shape) == 1 and isinstance(s.shape[0], int): return VList([s.get(i) for i in range(s.shape[0])])
        if len(s.shape) == 0: return s.get()
        if len(s.shape) == 1: rd = s.snap(); return SymList(s.shape[0], lambda k: rd((zi(k),)))
        if len(s.shape) == 2 and isinstance(s.shape[1], int): from loops import RowList; rd = s.snap(); return SymList(s.shape[0], lambda k: RowList(1, [rd((zi(k), j)) for j in range(s.shape[1])]))
        raise Unsupported('tolist')
    def item(s):
        return s.get(*[0] * len(s.shape))
    def fill(s, v): s.assign(v)
    def argsort(s, *a, **k): return np_argsort(s)
    def sort(s): raise Unsupported('in place sort')
    def round(s, n=0): return np_round(s, n)
    def __repr__(s): return 'SArr(%s,%s)' % (s.shape, s.dtype.kind)
    def _ite(s, c, o):
        if isinstance(o, SArr) and len(o.shape) == len(s.shape) and all(z3.eq(zi(a), zi(b)) for a, b in zip(s.shape, o.shape)):
            a, b = s.snap(), o.snap(); return newarr(lambda idx: ite(c, a(idx), b(idx)), s.shape, s._dtype)
        if isinstance(o, SArr) and len(o.shape) == len(s.shape) == 1:
            a, b = s.snap(), o.snap(); return newarr(lambda idx: ite(c, a(idx), b(idx)), (ite(c, SNum(lift(s.shape[0])), SNum(lift(o.shape[0]))),), s._dtype)
        raise Unsupported('merge of arrays')

class Flat(SArr):
    """row-major one dimensional alias of a two dimensional array (ravel / flat)"""
    def __init__(s, a):
        s.a = a; s.box = a.box; s._dtype = a._dtype; s.shape = (SNum(lift(a.size)) if not isinstance(a.size, int) else a.size,); s.dims = None
    @property
    def plain(s): return False
    def snap(s):
        rd = s.a.snap(); a = s.a
        return lambda idx: rd(a.flatidx(idx[0]))
    def get(s, i): return s.a.get(*s.a.flatidx(i))
    def view(s, keys): return newarr(s.snap(), s.shape, s._dtype).view(keys)
    def assign(s, v):
        if isinstance(v, SArr): raise Unsupported('flat assignment')
        s.a.assign(v)
    def __setitem__(s, k, v):
        if isinstance(k, tuple) and len(k) == 1: k = k[0]
        if isinstance(k, (int, SNum)):
            i = s.norm(k, 0); r, c = s.a.flatidx(i); s.a[SNum(lift(r)), SNum(lift(c))] = v; return
        if isinstance(k, SArr) and not isinstance(k, Flat) and k.ndim == 1 and isint_(k.dtype.kind) and s.a.ndim == 2: s.a[np_unravel_index(k, s.a.shape)] = v; return
        raise Unsupported('flat assignment')
    def ravel(s): return s
    @property
    def flat(s): return s
    def copy(s): return newarr(s.snap(), s.shape, s._dtype)
    def bidx(s, idx): return s.a.bidx(s.a.flatidx(idx[0]))

class SStruct(ArrBase):
    """structured array: one array per field"""
    def __init__(s, fields): s.fields = fields
    @property
    def dtype(s): return Dtype('rec', tuple(s.fields))
    @property
    def shape(s): return next(iter(s.fields.values())).shape
    @property
    def size(s): return next(iter(s.fields.values())).size
    @property
    def ndim(s): return len(s.shape)
    def vlen(s): return s.shape[0]
    def __getitem__(s, k):
        if isinstance(k, str):
            if k not in s.fields: raise ValueError('no field of name %s' % k)
            return s.fields[k]
        if isinstance(k, (int, SNum)): return {n: a[k] for n, a in s.fields.items()}
        return SStruct({n: a[k] for n, a in s.fields.items()})
    def __setitem__(s, k, v):
        if isinstance(k, str): s.fields[k].assign(v)
        elif isinstance(v, SStruct):
            for n in s.fields: s.fields[n][k] = v.fields[n]
        else: raise Unsupported('struct assignment')
    def copy(s): return SStruct({n: a.copy() for n, a in s.fields.items()})
    def __contains__(s, k): raise Unsupported('in struct')
    __hash__ = object.__hash__
    def ravel(s): return s
    def _ite(s, c, o):
        if isinstance(o, SStruct) and list(o.fields) == list(s.fields): return SStruct({n: s.fields[n]._ite(c, o.fields[n]) for n in s.fields})
        raise Unsupported('merge of structs')

# ================================================================================================ values
def vinv(a):
    if isinstance(a, bool): return not a
    if isinstance(a, SBool): return SBool(z3.Not(a.e))
    raise Unsupported('~ of a number')
def vadd(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return SBool(zor(zb(a), zb(b)))
    return a + b
def vmul(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return SBool(zand(zb(a), zb(b)))
    return a * b
def vdiv(a, b):
    if not isinstance(a, SNum): a = SNum(lift(a), nanof(a))
    if not isinstance(b, SNum): b = SNum(lift(b), nanof(b))
    return SNum(zdiv(a.e, b.e), zor(a.nan, b.nan))
def veq(a, b):
    if a is None or b is None:
        x = b if a is None else a
        if x is None: return True
        if hasattr(x, 'isnone'): return x.isnone()
        return False
    if isinstance(a, SNum) or isinstance(b, SNum) or is_conc(a): 
        r = a == b
        return r if isinstance(r, (SBool, bool)) else False
    if hasattr(a, 'sameas'): return a.sameas(b)
    if hasattr(b, 'sameas'): return b.sameas(a)
    r = a == b
    return r if isinstance(r, (SBool, bool)) else bool(r)
def toint(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int, float)): return int(v)
    if isinstance(v, SBool): return SNum(lift(v))
    if isinstance(v, SNum):
        if v.nan is not False and C.decide(v.nan): raise ValueError('cannot convert float NaN to integer')
        if v.isint: return v
        e = z3.simplify(v.e)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return SNum(e.arg(0))
        if C.valid(z3.IsInt(e)): return SNum(z3.simplify(z3.ToInt(e)))
        return SNum(z3.simplify(z3.If(e >= 0, zfloor(e), zceil(e))))
    raise Unsupported('int of %s' % type(v).__name__)
def coerce(v, dt):
    k = dt.kind
    if isint_(k):
        if isinstance(v, (SNum, float, SBool)): return toint(v)
    if k == 'bool' and isinstance(v, SNum): return SBool(zb(v != 0))
    if isfloat(k) and isinstance(v, SNum) and v.isint: return SNum(z3.ToReal(v.e), v.nan)
    if isfloat(k) and isinstance(v, int) and not isinstance(v, bool): return float(v)
    return v
def promote(a, o):
    ka = a.dtype.kind
    ko = o.dtype.kind if isinstance(o, SArr) else ('bool' if isinstance(o, (bool, SBool)) else 'int64' if isinstance(o, int) or (isinstance(o, SNum) and o.isint) else 'float64')
    if ka == 'object' or ko == 'object': return 'object'
    if isfloat(ka): return ka if not isinstance(o, SArr) or ka == 'float64' or not isfloat(ko) else ko
    if isfloat(ko): return ko
    if ka == 'bool': return ko
    return ka
def wrap(i, n):
    """array index with numpy's negative wrap"""
    i = i if isinstance(i, SNum) else SNum(lift(i))
    e = zi(i); v = numeral(e)
    if v is not None: return e if v >= 0 else zi(SNum(e) + n)
    key = ('wrap', e.get_id(), zi(n).get_id())
    if key not in C.memo: C.setmemo(key, (C.valid(e >= 0, 1500), e))
    return e if C.memo[key][0] else z3.simplify(z3.If(e < 0, e + lift(n), e))
def inbounds(arr, n):
    """every element of the index array is a legal index (safety obligation of the calling function); are all of them nonnegative"""
    if len(arr.shape) == 0: return False
    K = [C.fresh('ix') for _ in arr.shape]
    mark = len(C.trail); C.solver.push()
    try:
        for k, d in zip(K, arr.shape): C.assume(z3.And(k >= 0, k < lift(d)))
        for k, d in zip(K, arr.shape): C.term(d, k)
        v = lift(arr.get(*K))
        if C.valid(z3.And(v >= 0, v < lift(n))): C.prove('index arrays stay in bounds', True); return True
        C.prove('index arrays stay in bounds', z3.And(v >= -lift(n), v < lift(n))); return False
    finally: C.solver.pop(); C.undo_to(mark)
def guarded(q, rd, n):
    """reader of an index array (or scalar index), with numpy's negative wrap where it may be needed"""
    if not isinstance(q, SArr): return lambda idx: wrap(rd(idx), n)
    if inbounds(q, n): return rd
    return lambda idx: wrap(rd(idx), n)
def samedim(a, b):
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y: raise ValueError('operands could not be broadcast together')
        elif not z3.eq(zi(x), zi(y)) and not C.decide(lift(x) == lift(y)): raise ValueError('operands could not be broadcast together')
def isone(x): return isinstance(x, int) and x == 1
def bcast(v, shape):
    if len(v.shape) == len(shape):
        if any(isone(x) and not isone(y) for x, y in zip(v.shape, shape)):
            rd = v.snap(); keep = [not (isone(x) and not isone(y)) for x, y in zip(v.shape, shape)]
            samedim([x for x, k in zip(v.shape, keep) if k], [y for y, k in zip(shape, keep) if k])
            return newarr(lambda idx: rd(tuple(i if k else 0 for i, k in zip(idx, keep))), shape, v._dtype)
        samedim(v.shape, shape); return v
    if len(v.shape) < len(shape):
        rd = v.snap(); d = len(shape) - len(v.shape)
        w = newarr(lambda idx: rd(idx[d:]), tuple(shape[:d]) + v.shape, v._dtype)
        return bcast(w, shape)
    raise ValueError('could not broadcast')
def bcast2(a, b):
    if len(a.shape) < len(b.shape): return bcast(a, b.shape), b
    if len(b.shape) < len(a.shape): return a, bcast(b, a.shape)
    sh = tuple(y if isone(x) else x for x, y in zip(a.shape, b.shape))
    return bcast(a, sh), bcast(b, sh)
def divpair(i, n):
    """row and column of a row-major position; products r*n+c are recognised"""
    i, n = zi(i), zi(n)
    if numeral(i) is not None and numeral(n) is not None: q, r = divmod(int(numeral(i)), int(numeral(n))); return z3.IntVal(q), z3.IntVal(r)
    q, r = zfloordiv(i, n)
    return z3.simplify(q), z3.simplify(r)
def newarr(fn, shape, dtype): return SArr(Box(fn, tuple(shape)), tuple(shape), dtype)

class Witness:
    """last index j < n with P(j, position), as a function of the position"""
    def __init__(s, n, P, rank):
        s.n, s.P = n, P; k = next(C.idgen)
        s.h = z3.Function('hit!%d!%d' % (k, rank), *([z3.IntSort()] * rank + [z3.BoolSort()]))
        s.w = z3.Function('wit!%d!%d' % (k, rank), *([z3.IntSort()] * rank + [z3.IntSort()])); s.done = {}
    def setup(s, pos):
        pos = [zi(p) for p in pos]; h = s.h(*pos); w = s.w(*pos); key = ('witness', h.get_id())
        if key not in C.memo:
            C.setmemo(key, (h, w))
            C.assume(z3.Implies(h, z3.And(w >= 0, w < lift(s.n), s.P(w, pos))))
            C.term(s.n, w)
            C.forall([s.n], lambda j: C.assume(z3.Implies(z3.And(j >= 0, j < lift(s.n), s.P(j, pos)), z3.And(h, j <= w))))
        return h, w
    def hit(s, pos): return s.setup(pos)[0]
    def at(s, pos): return s.setup(pos)[1]

# ================================================================================================ filters (boolean masks)
SINGLE = []
class Filter:
    def __init__(s, m):
        s.m = m.snap(); s.shape = m.shape; s.n = m.size; k = next(C.idgen); s.closed = None
        I = z3.IntSort()
        s.one = len(m.shape) == 1
        if s.one: s.closed = s.tryrange(m)
        elif len(m.shape) == 2: s.closed = s.tryrect(m) or s.trysingle(m)
        if s.closed: s.count = s.closed[0]; return
        s.fsel = z3.Function('sel!%d' % k, I, I); s.frank = z3.Function('rank!%d' % k, *([I] * len(m.shape) + [I]))
        s.fsel2 = z3.Function('selc!%d' % k, I, I)
        c = C.fresh('count'); s.count = SNum(c); C.assume(z3.And(c >= 0, c <= lift(s.n)))
        if s.one:
            C.forall([s.n], lambda p: s.rank(p)); C.forall([s.count], lambda i: s.sel(i))
            C.forall([s.count, s.count], lambda i, j: C.assume(z3.Implies(z3.And(0 <= i, i < j, j < c), s.fsel(i) < s.fsel(j))))
        else:
            C.forall(list(s.shape), lambda p, q: s.rank2(p, q)); C.forall([s.count], lambda i: s.sel2(i))
            C.forall([s.count, s.count], lambda i, j: C.assume(z3.Implies(z3.And(0 <= i, i < j, j < c), z3.Or(s.fsel(i) < s.fsel(j), z3.And(s.fsel(i) == s.fsel(j), s.fsel2(i) < s.fsel2(j))))))
        C.push(C.filters, s)
    def tryrange(s, m):
        """mask that is constant apart from one range: closed form (the induction over the positions is done here, once)"""
        p = m.box.pieces; n = m.shape[0]
        if const(n) == 1: return (SNum(z3.simplify(z3.If(zb(s.m((z3.IntVal(0),))), z3.IntVal(1), z3.IntVal(0)))), lambda i: z3.IntVal(0), lambda q: z3.IntVal(0))
        if p is None or not m.plain or len(p) not in (1, 2): return None
        if len(p) == 1:
            v = bool(p[0][2])
            return (n, lambda i: zi(i), lambda q: zi(q)) if v else (0, lambda i: zi(i), lambda q: zi(q))
        base, (st, ln, v) = bool(p[0][2]), p[1]; v = bool(v)
        if base == v: return None
        st, ln = lift(st), lift(ln)
        if not C.valid(z3.And(st >= 0, ln >= 0, st + ln <= lift(n))): return None
        if v: return (SNum(ln), lambda i: z3.simplify(lift(i) + st), lambda q: z3.simplify(lift(q) - st))
        return (SNum(z3.simplify(lift(n) - ln)), lambda i: z3.simplify(z3.If(lift(i) < st, lift(i), lift(i) + ln)), lambda q: z3.simplify(z3.If(lift(q) < st, lift(q), lift(q) - ln)))
    def trysingle(s, m):
        """mask that is true at one position only: the position is proposed by a contract and proved here"""
        for r0, c0 in SINGLE:
            def one():
                i, j = C.fresh('i'), C.fresh('j'); C.assume(z3.And(i >= 0, i < lift(m.shape[0]), j >= 0, j < lift(m.shape[1])))
                C.term(m.shape[0], i); C.term(m.shape[1], j); C.noguard += 1
                try: return C.valid(zb(s.m((i, j))) == z3.And(i == zi(r0), j == zi(c0)))
                finally: C.noguard -= 1
            if scratch(one): return (1, lambda i, r0=r0, c0=c0: (zi(r0), zi(c0)), lambda r, c: z3.IntVal(0))
        return None
    def tryrect(s, m):
        p = m.box.pieces
        if p is None or not m.plain or len(p) not in (1, 2): return None
        rows, cols = m.shape
        if len(p) == 1:
            if bool(p[0][2]): return (s.n, lambda i: divpair(i, cols), lambda r, c: zi(SNum(lift(r)) * cols + SNum(lift(c))))
            return (0, lambda i: (zi(i), zi(i)), lambda r, c: z3.IntVal(0))
        base, ((r0, c0), (h, w), v) = bool(p[0][2]), p[1]
        if base or not v: return None
        r0, c0, h, w = [SNum(lift(q)) for q in (r0, c0, h, w)]
        if not C.valid(z3.And(r0.e >= 0, c0.e >= 0, h.e >= 0, w.e >= 0, (r0 + h).e <= lift(rows), (c0 + w).e <= lift(cols))): return None
        def sel2(i):
            q, r = divpair(i, w); return (z3.simplify(q + r0.e), z3.simplify(r + c0.e))
        return (h * w, sel2, lambda r, c: zi((SNum(lift(r)) - r0) * w + (SNum(lift(c)) - c0)))
    def sel(s, i):
        i = zi(i)
        if s.closed: return s.closed[1](i)
        t = s.fsel(i); key = ('sel', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); c = lift(s.count)
            C.assume(z3.Implies(z3.And(i >= 0, i < c), z3.And(t >= 0, t < lift(s.n), zb(s.m((t,))), s.frank(t) == i, i <= t)))
            C.term(s.n, t); C.term(s.count, i)
        return t
    def rank(s, p):
        p = zi(p)
        if s.closed: return s.closed[2](p)
        t = s.frank(p); key = ('rank', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t)
            C.assume(z3.Implies(z3.And(p >= 0, p < lift(s.n), zb(s.m((p,)))), z3.And(t >= 0, t < lift(s.count), s.fsel(t) == p)))
            C.term(s.count, t)
        return t
    def sel2(s, i):
        i = zi(i)
        if s.closed: return s.closed[1](i)
        a, b = s.fsel(i), s.fsel2(i); key = ('sel', a.get_id())
        if key not in C.memo:
            C.setmemo(key, a); c = lift(s.count); r, q = s.shape
            C.assume(z3.Implies(z3.And(i >= 0, i < c), z3.And(a >= 0, a < lift(r), b >= 0, b < lift(q), zb(s.m((a, b))), s.frank(a, b) == i)))
            C.term(r, a); C.term(q, b); C.term(s.count, i)
        return (a, b)
    def rank2(s, p, q):
        p, q = zi(p), zi(q)
        if s.closed: return s.closed[2](p, q)
        t = s.frank(p, q); key = ('rank', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); r, c = s.shape
            C.assume(z3.Implies(z3.And(p >= 0, p < lift(r), q >= 0, q < lift(c), zb(s.m((p, q)))), z3.And(t >= 0, t < lift(s.count), s.fsel(t) == p, s.fsel2(t) == q)))
            C.term(s.count, t)
        return t
def scratch(f):
    """evaluate f without keeping its facts"""
    C.solver.push(); m = len(C.trail)
    try: return f()
    finally: C.solver.pop(); C.undo_to(m)
KI = [z3.Int('index_0'), z3.Int('index_1')]
CANON, DECLS = {}, {}
COMM = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)
def canon(e):
    """number of a term; terms that differ only in the order of the arguments of and, or, +, *, = have the same number"""
    seen = {}
    def go(t):
        i = t.get_id(); r = seen.get(i)
        if r is None:
            if not z3.is_app(t): k = ('other', t.sexpr())
            elif not t.num_args(): k = (t.sexpr(), t.sort().sexpr())
            else:
                d = t.decl(); DECLS[d.get_id()] = d; c = [go(q) for q in t.children()]
                if d.kind() in COMM: c.sort()
                k = (d.get_id(), tuple(c))
            r = seen[i] = CANON.setdefault(k, len(CANON))
        return r
    return go(e)
def text(v):
    if isinstance(v, SNum): return z3.simplify(v.e).sexpr() + ('' if v.nan is False else '|' + z3.simplify(zb(v.nan)).sexpr())
    return z3.simplify(v.e).sexpr() if isinstance(v, SBool) else repr(v)
def valkey(v):
    if isinstance(v, SNum): return (canon(z3.simplify(v.e)), None if v.nan is False else canon(z3.simplify(zb(v.nan))))
    if isinstance(v, SBool): return (canon(z3.simplify(v.e)),)
    if isinstance(v, (int, float, bool, str)) or v is None: return repr(v)
    return repr(id(v))
def sig(a):
    """content signature: equal signatures mean equal arrays"""
    def f():
        try: return (tuple(zi(d).sexpr() for d in a.shape), valkey(a.get(*KI[:len(a.shape)])))
        except IndexError: return (tuple(zi(d).sexpr() for d in a.shape), next(C.idgen))
    return scratch(f)
def filt(m):
    if m.dtype.kind != 'bool': raise Unsupported('mask')
    key = ('filter', sig(m), m.box.pieces is not None)
    if key not in C.memo:
        C.setmemo(key, Filter(m)); c = C.memo.get(('countnz', key[1]))
        if c is not None: C.assume(lift(C.memo[key].count) == c.e)
    return C.memo[key]

# ================================================================================================ quantifiers and aggregates
def quant(a, ex):
    """any / all"""
    if a.dtype.kind == 'object':
        sh = [const(d) for d in a.shape]
        if None not in sh and math.prod(sh) <= 64:      # few objects: one by one
            vs = [zb(truth(a.get(*q))) for q in itertools.product(*map(range, sh))]
            return SBool(z3.simplify((z3.Or if ex else z3.And)(*vs))) if vs else not ex
        rd0 = a.snap(); a = newarr(lambda idx: truth(rd0(idx)), a.shape, 'bool')
    if a.dtype.kind != 'bool': a = a.map(lambda v: SBool(zb(v != 0)), 'bool')
    if all(isinstance(d, int) for d in a.shape) and len(a.shape) <= 1:
        vs = [zb(a.get(*([i] if a.shape else []))) for i in range(a.shape[0] if a.shape else 1)]
        if not vs: return not ex
        return SBool(z3.simplify((z3.Or if ex else z3.And)(*vs)))
    key = ('quant', ex, sig(a))
    if key in C.memo: return C.memo[key]
    b = C.fresh('any' if ex else 'all', z3.BoolSort()); r = SBool(b); C.setmemo(key, r)
    rd = a.snap(); q = [C.fresh('qw') for _ in a.shape]
    ranges = lambda t: [z3.And(i >= 0, i < lift(d)) for i, d in zip(t, a.shape)]
    v = lambda t: zb(rd(tuple(t)))
    C.assume(z3.Implies(b if ex else z3.Not(b), z3.And(*ranges(q), v(q) if ex else z3.Not(v(q)))))
    for i, d in zip(q, a.shape): C.term(d, i)
    C.forall(list(a.shape), lambda *t: C.assume(z3.Implies(z3.And(*ranges(t), v(t) if ex else z3.Not(v(t))), b if ex else z3.Not(b))))
    return r
def truth(v):
    if v is None: return False
    if isinstance(v, (bool, SBool)): return v
    if isinstance(v, SNum): return SBool(zor(v.e != 0, v.nan))
    if hasattr(v, 'truth'): return v.truth()
    return bool(v)

class Agg:
    def __init__(s, kind, n, cond, val):
        s.kind, s.n, s.cond, s.val = kind, n, cond, val
        s.const = C.fresh('agg_' + kind, z3.IntSort() if kind == 'count' else z3.RealSort())
def same_len(a, b):
    x, y = zi(a), zi(b)
    return z3.eq(x, y) or C.valid(x == y, 400)
def vals(v): return list(v) if isinstance(v, tuple) else [v]
def agg_ext(A, B):
    """aggregates of one kind over equal lengths are equal unless they differ in a selected position or a selected value"""
    if A.kind != B.kind or not same_len(A.n, B.n): return False
    if A.key[-1] is not None and A.kind in ('sum', 'min', 'max') and A.key[-1] != B.key[-1] and not C.aggdeep: return False
    p = C.fresh('agp'); C.term(A.n, p)
    ca, cb = zb(A.cond(p)), zb(B.cond(p)); diff = [ca != cb]
    if A.kind != 'count':
        for va, vb in zip(vals(A.val(p)), vals(B.val(p))): diff.append(z3.And(ca, cb, z3.Not(same_num(va, vb))))
    C.assume(z3.Or(A.const == B.const, z3.And(p >= 0, p < lift(A.n), z3.Or(*diff))))
    return True
core.agg_ext = agg_ext
def reindex(n, cond, val):
    """canonical form of an aggregate over a permuted array: the elements are taken in the original order"""
    for P in C.perms:
        if not (isinstance(n, Dim) and n.space == P.ns.space): continue
        def sub(f, P=P):
            def g(k):
                k = zi(k); r = P.r(k); sr = P.s(r)
                def one(v):
                    if isinstance(v, SNum): return SNum(z3.simplify(z3.substitute(v.e, (sr, k))), v.nan if not z3.is_expr(v.nan) else z3.simplify(z3.substitute(v.nan, (sr, k))))
                    if isinstance(v, SBool): return SBool(z3.simplify(z3.substitute(v.e, (sr, k))))
                    if z3.is_expr(v): return z3.simplify(z3.substitute(v, (sr, k)))
                    if isinstance(v, tuple): return tuple(one(q) for q in v)
                    return v
                return one(f(r))
            return g
        K = z3.Int('reindex_k')
        def uses():
            c2 = sub(cond)(K); v2 = None if val is None else sub(val)(K)
            txt = text(SBool(zb(c2))) + ('' if v2 is None else ' '.join(text(q) for q in vals(v2)))
            orig = text(SBool(zb(cond(K)))) + ('' if val is None else ' '.join(text(q) for q in vals(val(K))))
            sn, rn = P.s(K).decl().name(), P.r(K).decl().name()
            return (sn in orig or rn in orig), (sn in txt or rn in txt)
        was, left = scratch(uses)
        if was and not left: return P.n, sub(cond), None if val is None else sub(val)
    return n, cond, val
def replaced(v, a, b):
    if isinstance(v, SNum): return SNum(z3.simplify(z3.substitute(v.e, (a, b))), v.nan if not z3.is_expr(v.nan) else z3.simplify(z3.substitute(v.nan, (a, b))))
    if isinstance(v, SBool): return SBool(z3.simplify(z3.substitute(v.e, (a, b))))
    if z3.is_expr(v): return z3.simplify(z3.substitute(v, (a, b)))
    if isinstance(v, tuple): return tuple(replaced(q, a, b) for q in v)
    return v
def agg(kind, n, cond, val=None):
    """aggregate of val(p) over the positions p < n with cond(p): count, sum, min, max, lstsqN"""
    n, cond, val = reindex(n, cond, val)
    if kind in ('count', 'sum') and numeral(zi(n)) is None:
        t = zi(n)
        for F in C.filters:
            if F.one and z3.eq(lift(F.count), t):       # over the elements taken from a larger array: over that array
                def sub(f, F=F): return lambda p: replaced(f(F.rank(zi(p))), F.sel(F.rank(zi(p))), zi(p))
                return agg(kind, F.n, lambda p: zand(zb(F.m((zi(p),))), zb(sub(cond)(p))), None if val is None else sub(val))
        for tot, parts in C.concats:
            if z3.eq(tot, t):       # over joined arrays: the parts one by one
                r = SNum(z3.IntVal(0) if kind == 'count' else z3.RealVal(0))
                for st, m in parts:
                    def sh(f, st=st): return lambda p: f(z3.simplify(lift(p) + lift(st)))
                    r = r + agg(kind, m, sh(cond), None if val is None else sh(val))
                return r
    K = z3.Int('agg_index')
    key = scratch(lambda: ('agg', kind, C.dom(n), valkey(SBool(zb(cond(K)))), None if val is None else tuple(valkey(q) for q in vals(val(K)))))
    if key in C.memo: return SNum(C.memo[key].const)
    A = Agg(kind, n, cond, val); A.key = key; C.setmemo(key, A); C.push(C.aggs, A); c = A.const
    rng = lambda p: z3.And(p >= 0, p < lift(n))
    if kind == 'count':
        q = C.fresh('cw'); C.assume(z3.And(c >= 0, c <= lift(n)))
        C.assume(z3.Implies(c > 0, z3.And(rng(q), zb(cond(q))))); C.term(n, q)
        C.forall([n], lambda p: C.assume(z3.Implies(z3.And(rng(p), zb(cond(p))), c >= 1)))
    if kind in ('min', 'max'):
        q = C.fresh('mw'); cnt = agg('count', n, cond).e
        C.assume(z3.Implies(cnt > 0, z3.And(rng(q), zb(cond(q)), toreal(lift(val(q))) == c))); C.term(n, q)
        def f(p):
            v = toreal(lift(val(p))); C.assume(z3.Implies(z3.And(rng(p), zb(cond(p))), c <= v if kind == 'min' else c >= v))
        C.forall([n], f)
    if kind == 'sum':
        cnt = agg('count', n, cond).e
        C.assume(z3.Implies(cnt == 0, c == 0))
    return SNum(c)
def groupdom(a):
    """the elements of one group of points, or of values computed from them one by one, over the array they are cut from"""
    d = getattr(a, 'dom', None)
    if d is not None: return d[1:] if a.box.fn is d[0] else None
    g = getattr(a, 'segof', None)
    return None if g is None else domain(a) + g
def domain(a):
    """(length, condition, value) of the elements of a one dimensional array, expressed over the array it is cut from"""
    if len(a.shape) != 1: raise Unsupported('aggregate of rank %d' % len(a.shape))
    d = getattr(a, 'dom', None)
    if d is not None and a.box.fn is d[0]: return d[1:4]
    rd = a.box.fn if a.dims else None
    if a.dims and len(a.box.shape) == 1 and a.dims[0][0] == 's':
        n = a.box.shape[0]; st, step = a.dims[0][2], a.dims[0][3]
        full = st == 0 and step == 1 and z3.eq(zi(a.shape[0]), zi(n))
        f = a.box.fn
        if full: return n, lambda p: True, lambda p: f((p,))
        if step == 1:
            lo = lift(st); hi = lo + lift(a.shape[0])
            sg = getattr(a, 'segof', None)
            if sg is not None: U, j = sg; return n, (lambda p: U.akey(p) == U.u(j)), lambda p: f((p,))
            return n, (lambda p: z3.And(p >= lo, p < hi)), lambda p: f((p,))
    r = a.snap()
    return a.shape[0], lambda p: True, lambda p: r((p,))
def redagg(a, kind):
    if len(a.shape) == 2:
        a = a.ravel(); a = newarr(a.snap(), a.shape, a._dtype)
    if len(a.shape) == 1 and isinstance(a.shape[0], int) and a.shape[0] <= 8:
        v = [a.get(i) for i in range(a.shape[0])]
        if kind == 'sum':
            r = 0
            for q in v: r = r + q
            return r
        if not v: raise ValueError('zero-size array to reduction operation')
        r = v[0]
        for q in v[1:]: r = ite(zb(q < r) if kind == 'min' else zb(q > r), q, r)
        return r
    if kind in ('min', 'max') and not C.decide(lift(a.size) > 0): raise ValueError('zero-size array to reduction operation')
    n, cond, val = domain(a)
    r = agg(kind, n, cond, lambda p: val(p))
    if a.dtype.kind and isint_(a.dtype.kind):
        i = z3.ToInt(r.e); C.assume(z3.ToReal(i) == r.e); r = SNum(i)      # aggregates of integers are integers
    return r
def countnz(a):
    r = countnz_(a)
    if a.dtype.kind == 'bool' and isinstance(r, SNum) and const(r) is None:
        key = sig(a)
        if ('countnz', key) not in C.memo: C.setmemo(('countnz', key), r)
        f = C.memo.get(('filter', key, a.box.pieces is not None))
        if f is not None: C.assume(lift(f.count) == r.e)
    return r
def countnz_(a):
    if len(a.shape) == 2:
        two = newarr(a.snap(), a.shape, a._dtype); R, K = a.shape
        a = a.ravel(); a = newarr(a.snap(), a.shape, a._dtype); r = countnz(a)
        if isinstance(r, SNum) and const(r) is None:
            ok = lambda i, j: z3.And(i >= 0, i < lift(R), j >= 0, j < lift(K))
            def f(i, j):
                v = zb(truth(two.get(i, j))); C.assume(z3.Implies(ok(i, j), z3.If(v, r.e >= 1, r.e < lift(a.shape[0]))))
            for i, j in C.cells: f(lift(i), lift(j))      # instances at the cells the contract is about
        return r
    if len(a.shape) == 0: return SNum(z3.If(zb(truth(a.get())), 1, 0))
    n, cond, val = domain(a)
    return agg('count', n, lambda p: zand(zb(cond(p)), zb(truth(val(p)))))

# ================================================================================================ sorting
class Perm:
    """permutation that sorts the key arrays (the last one is the primary key); sorted positions are a space of their own.
    s maps sorted positions to positions, r back; both are extended by some bijection outside the range, so s(r(t)) is t everywhere"""
    def __init__(s, keys):
        s.n = keys[0].shape[0]; k = next(C.idgen); I = z3.IntSort()
        s.ns = Dim(lift(s.n), 'sorted!%d' % k)
        s.fs = z3.Function('sort!%d' % k, I, I); s.fr = z3.Function('pos!%d' % k, I, I)
        s.keys = [q.snap() for q in keys]; s.psig = sig(keys[-1])
        C.push(C.perms, s)
        C.forall([s.n], lambda t: s.r(t)); C.forall([s.ns], lambda t: s.s(t))
        C.forall([s.ns, s.ns], s.pair)
        for P in C.perms[:-1]:
            if P.psig == s.psig:  # the sorted arrangement of one array is unique
                for sp in (s.ns, P.ns):
                    C.forall([sp], lambda t, P=P: C.assume(z3.Implies(z3.And(t >= 0, t < lift(s.n)), lift(s.keys[-1]((s.s(t),))) == lift(P.keys[-1]((P.s(t),))))))
    def s(s, i):
        i = zi(i)
        if z3.is_app(i) and i.decl().eq(s.fr): return i.arg(0)
        t = s.fs(i); key = ('perm', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); C.assume(z3.And(z3.Implies(z3.And(i >= 0, i < lift(s.n)), z3.And(t >= 0, t < lift(s.n))), s.fr(t) == i))
            C.term(s.ns, i); C.term(s.n, t)
        return t
    def r(s, i):
        i = zi(i)
        if z3.is_app(i) and i.decl().eq(s.fs): return i.arg(0)
        t = s.fr(i); key = ('perm', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); C.assume(z3.And(z3.Implies(z3.And(i >= 0, i < lift(s.n)), z3.And(t >= 0, t < lift(s.n))), s.fs(t) == i))
            C.term(s.n, i); C.term(s.ns, t)
        return t
    def pair(s, i, j):
        """lexicographic order of the positions i <= j"""
        a = [k((s.fs(i),)) for k in s.keys]; b = [k((s.fs(j),)) for k in s.keys]
        le = lift(a[0]) <= lift(b[0])
        for x, y in zip(a[1:], b[1:]): x, y = pair(lift(x), lift(y)); le = z3.Or(x < y, z3.And(x == y, le))
        C.assume(z3.Implies(z3.And(i >= 0, i <= j, j < lift(s.n)), le))
def mkperm(keys):
    key = ('permof', tuple(sig(k) for k in keys))
    if key not in C.memo: C.setmemo(key, Perm(keys))
    P = C.memo[key]
    r = newarr(lambda idx: SNum(P.s(idx[0])), (P.ns,), 'int64'); r.box.perm = P
    return r
def only(k, **ok):
    """keyword arguments the model has no meaning for are refused, unless they have their default value"""
    for n, v in k.items():
        if n not in ok or (ok[n] is not any and not any(v is q or (type(v) is type(q) and v == q) for q in ok[n])): raise Unsupported('argument %s' % n)
def np_argsort(a, axis=-1, **k):
    only(k, kind=any)
    if not (axis is None or axis in (-1, 0)): raise Unsupported('argsort axis')
    if len(a.shape) != 1: raise Unsupported('argsort rank')
    if isinstance(a.shape[0], int) and a.shape[0] == 0: return np_array([])
    return mkperm([a])
def np_lexsort(keys, axis=-1):
    if axis not in (0, -1): raise Unsupported('lexsort axis')
    return mkperm(list(keys))

def is_sorted(a, strict=False):
    """is the array ascending (a proof with the facts about it)"""
    def f():
        i, j = C.fresh('si'), C.fresh('sj'); n = lift(a.shape[0])
        C.assume(z3.And(0 <= i, i < j, j < n)); C.term(a.shape[0], i); C.term(a.shape[0], j)
        x, y = pair(lift(a.get(i)), lift(a.get(j)))
        return C.valid(x < y if strict else x <= y, 6000)
    if all(isinstance(d, int) for d in a.shape):
        v = [a.get(i) for i in range(a.shape[0])]
        return all(C.valid(zb(p < q if strict else p <= q)) for p, q in zip(v, v[1:]))
    return scratch(f)
class Unique:
    def __init__(s, a):
        s.a = a.snap(); s.n = a.shape[0]; k = next(C.idgen); I = z3.IntSort()
        s.sorted = is_sorted(a)
        V = z3.RealSort() if isfloat(a.dtype.kind) else I
        s.fu = z3.Function('uniq!%d' % k, I, V); s.fi = z3.Function('first!%d' % k, I, I); s.fg = z3.Function('group!%d' % k, I, I)
        m = C.fresh('nuniq'); s.m = SNum(m)
        C.assume(z3.And(m >= 0, m <= lift(s.n), z3.Implies(lift(s.n) > 0, m >= 1)))
        C.forall([s.n], lambda p: s.g(p)); C.forall([s.m], lambda j: s.first(j))
        C.forall([s.m, s.m], lambda i, j: C.assume(z3.Implies(z3.And(0 <= i, i < j, j < m), z3.And(s.fu(i) < s.fu(j), s.fi(i) < s.fi(j) if s.sorted else True))))
    def akey(s, p):
        v = lift(s.a((p,))); return toreal(v) if s.fu.range() == z3.RealSort() else v
    def u(s, j): s.first(j); return s.fu(zi(j))
    def first(s, j):
        j = zi(j)
        t = s.fi(j); key = ('uniqf', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); m = lift(s.m)
            C.assume(z3.Implies(z3.And(j >= 0, j < m), z3.And(t >= 0, t < lift(s.n), s.akey(t) == s.fu(j), s.fg(t) == j)))
            if s.sorted: C.assume(z3.Implies(m > 0, s.fi(0) == 0))
            C.term(s.n, t); C.term(s.m, j)
        return t
    def next(s, j):
        """end of group j in the sorted array"""
        j = zi(j); s.first(j); s.first(z3.simplify(j + 1))
        nx = z3.If(j + 1 < lift(s.m), s.fi(j + 1), lift(s.n)); key = ('uniqn', s.fi(j).get_id())
        if key not in C.memo:
            C.setmemo(key, nx)
            if s.sorted: C.forall([s.n], lambda p: C.assume(z3.Implies(z3.And(p >= 0, p < lift(s.n), j >= 0, j < lift(s.m)), z3.And(s.fi(j) <= p, p < nx) == (s.akey(p) == s.fu(j)))))
        return nx
    def g(s, p):
        p = zi(p)
        if z3.is_app(p) and p.decl().eq(s.fi): return p.arg(0)
        t = s.fg(p); key = ('uniqg', t.get_id())
        if key not in C.memo:
            C.setmemo(key, t); rng = z3.And(p >= 0, p < lift(s.n)); f = s.first(t)
            C.assume(z3.Implies(rng, z3.And(t >= 0, t < lift(s.m), s.fu(t) == s.akey(p), s.fi(t) <= p)))
            C.term(s.m, t)
        return t
    def count(s, j): return agg('count', s.n, lambda p: s.akey(p) == s.u(j))
def np_unique(a, return_index=False, return_counts=False, return_inverse=False, axis=None):
    if axis is not None: raise Unsupported('unique axis')
    if hasattr(a, 'sorted_unique') and not (return_index or return_counts or return_inverse): return a.sorted_unique()
    if isinstance(a, (list, VList)): a = np_array(list(a))
    if isinstance(a, SymList): a = newarr(a.at_idx, (a.n,), 'float64')
    if len(a.shape) == 2: a = a.ravel(); a = newarr(a.snap(), a.shape, a._dtype)
    if isinstance(a.shape[0], int) and a.shape[0] == 0:
        e = np_array([]); out = [e] + [e] * (return_index + return_counts + return_inverse); return out[0] if len(out) == 1 else tuple(out)
    if isinstance(a.shape[0], int) and a.shape[0] == 1 and not (return_index or return_counts or return_inverse): return a.copy()
    key = ('unique', sig(a))
    if key not in C.memo: C.setmemo(key, Unique(a))
    U = C.memo[key]
    uu = newarr(lambda idx: SNum(U.u(idx[0])), (U.m,), a._dtype); uu.box.uniq = ('values', U)
    out = [uu]
    if return_index:
        r = newarr(lambda idx: SNum(U.first(idx[0])), (U.m,), 'int64'); r.box.uniq = ('first', U); out.append(r)
    if return_inverse: out.append(newarr(lambda idx: SNum(U.g(idx[0])), (U.n,), 'int64'))
    if return_counts: out.append(newarr(lambda idx: U.count(idx[0]), (U.m,), 'int64'))
    return out[0] if len(out) == 1 else tuple(out)
def groups_of(idx, n):
    """the Unique whose sorted groups start at the positions idx of an array of length n"""
    u = idx.box.uniq
    if u is not None and u[0] == 'first' and u[1].sorted and idx.plain and same_len(u[1].n, n): return u[1]
    return None
def reduceat(kind):
    def f(a, idx, axis=0, **k):
        only(k)
        if axis != 0 and axis != -1: raise Unsupported('reduceat axis')
        if len(a.shape) != 1: raise Unsupported('reduceat rank')
        inbounds(idx, a.shape[0]); rd = a.snap(); ird = idx.snap(); n = a.shape[0]; m = idx.shape[0]
        U = groups_of(idx, n)
        if U: fn = lambda ix: agg(kind, n, lambda p: U.akey(p) == U.u(ix[0]), lambda p: rd((p,)))
        else:
            def fn(ix):
                lo = lift(ird((ix[0],))); nx = z3.simplify(lift(ix[0]) + 1)
                hi = z3.If(nx < lift(m), lift(ird((nx,))), lift(n)); hi = z3.If(hi > lo, hi, lo + 1)
                return agg(kind, n, lambda p: z3.And(p >= lo, p < hi), lambda p: rd((p,)))
        isi = isint_(a.dtype.kind)
        return newarr((lambda ix: SNum(z3.ToInt(fn(ix).e))) if isi else fn, (m,), a._dtype)
    return f

# ================================================================================================ functions
def pick(k, n):
    """case split over the positions of a python list"""
    if n > 40 or not k.isint: raise Unsupported('symbolic index of a list')
    for i in list(range(n)) + list(range(-n, 0)):
        if C.decide(k.e == i): return i
    raise IndexError('list index out of range')
class VList(list):
    """python list whose changes are undone on backtracking and can be seen by the loop rule"""
    def __init__(s, *a): list.__init__(s, *a); s.id = next(C.idgen)
    def _save(s):
        if C.log is not None: C.log.append(s)
        old = list.copy(s)
        C.trail.append(lambda: list.__setitem__(s, slice(None), old))
    def append(s, v):
        if s.watch('append', v): return
        s._save(); list.append(s, v)
    def extend(s, v):
        if isinstance(v, SymSeqBase):
            raise Unsupported('extend of a list by a symbolic sequence')
        s._save(); list.extend(s, v)
    def pop(s, i=-1): s._save(); return list.pop(s, i)
    def insert(s, i, v): s._save(); list.insert(s, i, v)
    def remove(s, v): s._save(); list.remove(s, v)
    def sort(s, **k):
        if any(isinstance(q, SNum) for q in s):
            if any(v for v in k.values()): raise Unsupported('sort with options')
            out = []
            for q in s:
                i = 0
                while i < len(out) and bool(out[i] <= q): i += 1
                out.insert(i, q)
        else: out = sorted(s, **k)
        s._save(); list.__setitem__(s, slice(None), out)
    def __setitem__(s, k, v): s._save(); list.__setitem__(s, k if not isinstance(k, SNum) else k.__index__(), v)
    def __iadd__(s, o):
        s.extend(o); return s
    def __add__(s, o): return VList(list.__add__(s, o))
    def __getitem__(s, k):
        if isinstance(k, SArr): k = k.item()
        if isinstance(k, SNum) and const(k) is None: k = pick(k, len(s))
        r = list.__getitem__(s, k); return VList(r) if isinstance(k, slice) else r
    def watch(s, op, v): return False
    def copy(s): return VList(s)
    __hash__ = object.__hash__
class SymSeqBase: pass
class SymSeq(SymSeqBase):
    """sequence of symbolic length n; at(k) is the element at index term k"""
    __array__ = True
    def __init__(s, n, at, kind='seq'): s.n = n; s._at = at; s.kind = kind
    def at(s, k): return s._at(k)
    def at_idx(s, idx): return s._at(idx[0])
    def vlen(s): return s.n
    def __getitem__(s, k):
        if isinstance(k, (int, SNum)):
            i = k if isinstance(k, SNum) else SNum(z3.IntVal(k))
            if isinstance(k, int) and k < 0: i = SNum(lift(s.n)) + k
            if not C.valid(z3.And(i.e >= 0, i.e < lift(s.n))):
                if not C.decide(z3.And(i.e >= 0, i.e < lift(s.n))): raise IndexError('list index out of range')
            return s._at(zi(i))
        if isinstance(k, slice) and k.step is None:
            a = 0 if k.start is None else k.start; b = s.n if k.stop is None else k.stop
            a, b = [SNum(zi(SNum(lift(s.n)) + q)) if isinstance(q, int) and q < 0 else q for q in (a, b)]
            if not C.valid(z3.And(lift(a) >= 0, lift(b) <= lift(s.n), lift(a) <= lift(b))): raise Unsupported('slice of a symbolic sequence')
            return SymSeq(SNum(zi(SNum(lift(b)) - a)), lambda q: s._at(zi(lift(q) + lift(a))))
        raise Unsupported('index of a symbolic sequence')
    def __iter__(s): raise Unsupported('native iteration over a symbolic sequence')
    def __bool__(s): return C.decide(lift(s.n) > 0)
    def symseq(s): return s
    def symseq_(s): return s
class SymList(SymSeq):
    pass

def np_array(v, dtype=None, copy=True, **k):
    only(k, order=any, subok=(True, False))
    if isinstance(v, SArr): r = v.copy(); return r if dtype is None else r.astype(dtype)
    if isinstance(v, SStruct): return v.copy()
    if getattr(v, 'isdask', False): return np_array(v.compute(), dtype)
    if isinstance(v, SymSeqBase): return newarr(v.at_idx, (v.n,), dkind(dtype) or 'float64')
    if isinstance(v, (SNum, SBool, int, float, bool)) or v is None: return newarr(lambda idx: v, (), dkind(dtype) or kindof(v))
    v = [q.get() if isinstance(q, SArr) and q.ndim == 0 else q for q in v]
    if v and all(isinstance(q, (list, tuple, VList)) for q in v):
        w = [np_array(list(q)) for q in v]
        if len(set(q.shape for q in w)) != 1: raise Unsupported('ragged array')
        def f(idx):
            i = isexact(idx[0])
            if i is not None: return w[i].get(idx[1])
            r = w[-1].get(idx[1])
            for q in range(len(w) - 2, -1, -1): r = ite(lift(idx[0]) == q, w[q].get(idx[1]), r)
            return r
        return newarr(f, (len(w), w[0].shape[0]), dkind(dtype) or w[0].dtype.kind)
    if any(isinstance(q, SArr) for q in v): raise Unsupported('array of arrays')
    def f(idx):
        i = isexact(idx[0])
        if i is not None: return v[i]
        if not v: return 0.0
        r = v[-1]
        for q in range(len(v) - 2, -1, -1): r = ite(lift(idx[0]) == q, v[q], r)
        return r
    kd = dkind(dtype)
    if kd is None:
        ks = [kindof(q) for q in v]; kd = 'float64' if not ks or any(isfloat(q) for q in ks) else ks[0]
        if any(q == 'object' for q in ks): kd = 'object'
    r = newarr(f, (len(v),), kd)
    return r
def kindof(v):
    if isinstance(v, (bool, SBool)): return 'bool'
    if isinstance(v, int) or (isinstance(v, SNum) and v.isint): return 'int64'
    if isinstance(v, (float, SNum)): return 'float64'
    return 'object'
def shp(s):
    if isinstance(s, (tuple, list)): return tuple(const(q) if isinstance(q, SNum) and const(q) is not None else q for q in s)
    if isinstance(s, SArr): return tuple(s.get(i) for i in range(s.shape[0]))
    return (s,)
def np_full(shape, v, dtype=None, **k):
    only(k, order=any)
    shape = shp(shape); kd = dkind(dtype) or kindof(v)
    for d in shape:
        if isinstance(d, SNum) and not d.isint: raise TypeError('float object cannot be interpreted as an integer')
        if isinstance(d, float): raise TypeError('float object cannot be interpreted as an integer')
        if isinstance(d, SNum) and not C.valid(d.e >= 0):
            if not C.decide(d.e >= 0): raise ValueError('negative dimensions are not allowed')
    if isinstance(v, SArr): raise Unsupported('full of an array')
    v = coerce(v, Dtype(kd)); r = newarr(lambda idx: v, shape, kd)
    if isinstance(v, (bool, int, float)): r.box.pieces = [(0, None, v)]
    return r
def np_full_like(a, v, dtype=None, **k):
    only(k, order=any)
    return np_full(a.shape, v, dkind(dtype) or a.dtype.kind)
def np_zeros(shape, dtype=None, **k):
    only(k, order=any)
    kd = dkind(dtype) or 'float64'
    return np_full(shape, False if kd == 'bool' else 0 if isint_(kd) else 0.0, kd)
def np_ones(shape, dtype=None, **k):
    only(k, order=any)
    kd = dkind(dtype) or 'float64'
    return np_full(shape, True if kd == 'bool' else 1 if isint_(kd) else 1.0, kd)
def np_empty(shape, dtype=None, **k):
    only(k, order=any)
    if isinstance(dtype, (list, VList)):
        shape = shp(shape); return SStruct({n: np_empty(shape, t) for n, t in dtype})
    if isinstance(dtype, Dtype) and dtype.names: return SStruct({n: np_empty(shape, 'float64') for n in dtype.names})
    kd = dkind(dtype) or 'float64'; f = z3.Function('garbage!%d' % next(C.idgen), *([z3.IntSort()] * len(shp(shape)) + [z3.IntSort() if isint_(kd) else z3.BoolSort() if kd == 'bool' else z3.RealSort()]))
    return newarr(lambda idx: (SBool if kd == 'bool' else SNum)(f(*[zi(i) for i in idx])), shp(shape), kd)
def np_arange(a, b=None, step=1, dtype=None):
    if b is None: a, b = 0, a
    isi = all(isinstance(q, int) or (isinstance(q, SNum) and q.isint) for q in (a, b, step))
    if dtype is not None and isint_(dkind(dtype)) != isi: raise Unsupported('arange dtype')
    if all(is_conc(q) for q in (a, b, step)):
        import math
        n = max(0, math.ceil((b - a) / step)) if not isi else len(range(a, b, step)); n = int(n)
    else:
        A, B, S = [q if isinstance(q, SNum) else SNum(lift(q)) for q in (a, b, step)]
        if isi and isinstance(step, int) and step == 1: e = (B - A)
        else:
            if not C.valid(S.e != 0) and C.decide(S.e == 0): raise ZeroDivisionError('Maximum allowed size exceeded')
            e = np_ceil_(SNum(toreal((B - A).e)) / S); e = toint(e)
        n = SNum(z3.simplify(e.e)) if C.valid(e.e >= 0) else SNum(z3.simplify(z3.If(e.e < 0, 0, e.e)))
        c = const(n); n = c if c is not None else n
    A0 = a if isinstance(a, SNum) else SNum(lift(a))
    r = newarr((lambda idx: A0 + SNum(lift(idx[0])) * step) if isi else (lambda idx: SNum(toreal(lift(A0))) + SNum(lift(idx[0])) * step), (n,), 'int64' if isi else 'float64')
    r.box.affine = (a, step)
    return r
def np_ceil_(v):
    if isinstance(v, (int, float)):
        import math
        return float(math.ceil(v)) if v == v else v
    if v.isint: return SNum(z3.ToReal(v.e))
    e = z3.simplify(v.e)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return SNum(e, v.nan)
    k = as_int_expr(e)
    return SNum(z3.ToReal(k if k is not None else zceil(e)), v.nan)
def np_floor_(v):
    if isinstance(v, (int, float)):
        import math
        return float(math.floor(v)) if v == v else v
    if v.isint: return SNum(z3.ToReal(v.e))
    e = z3.simplify(v.e)
    k = as_int_expr(e)
    return SNum(z3.ToReal(k if k is not None else zfloor(e)), v.nan)
def as_int_expr(e):
    """integer term equal to a real quotient (m*f)/f, when that is provable"""
    if z3.is_app(e) and e.decl().name() == 'div_r':
        x, y = e.arg(0), e.arg(1)
        for (t, a, b) in list(C.monos.values()):
            for k, f in ((a, b), (b, a)):
                kk = k.arg(0) if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_TO_REAL else k if z3.is_int(k) else None
                if kk is not None and z3.eq(toreal(f) if z3.is_int(f) else f, y) and C.valid(z3.And(x == toreal(t), y != 0)): return kk
    return None
def np_ceil(v): return v.map(np_ceil_) if isinstance(v, SArr) else np_ceil_(v)
def np_floor(v): return v.map(np_floor_) if isinstance(v, SArr) else np_floor_(v)
def np_round(v, decimals=0, **k):
    only(k); n = decimals
    if not isinstance(n, int): raise Unsupported('round to a symbolic number of digits')
    if isinstance(v, SArr):
        if not isfloat(v.dtype.kind): return v.copy()
        return v.map(lambda q: np_round(q, n))
    if isinstance(v, (int, float)): return round(v, n)
    if isinstance(v, SNum) and v.isint: return v
    return SNum(zround(v.e, n), v.nan)
def np_isnan(v):
    if isinstance(v, SArr):
        if v.dtype.kind == 'object': raise TypeError("ufunc 'isnan' not supported for the input types")
        return v.map(np_isnan, 'bool')
    if isinstance(v, (SNum, int, float)): return NpBool(zb(nanof(v)))
    if isinstance(v, (SBool, bool)): return NpBool(z3.BoolVal(False))
    raise TypeError("ufunc 'isnan' not supported for the input types")
def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    """no infinities in the value domain"""
    if copy is not True: raise Unsupported('nan_to_num in place')
    if isinstance(x, SArr): return x.map(lambda q: np_nan_to_num(q, nan=nan)) if isfloat(x.dtype.kind) else x.copy()
    if isinstance(x, (int, SBool)) or isinstance(x, SNum) and x.isint: return x
    return ite(zb(nanof(x)), nan, SNum(x.e) if isinstance(x, SNum) else x)
def np_append(a, b, axis=None):
    if axis not in (None, 0): raise Unsupported('append axis')
    if not isinstance(b, SArr): b = np_array(b if isinstance(b, (list, VList)) else [b])
    if not isinstance(a, SArr): a = np_array(list(a))
    return np_concatenate([a, b])
def np_concatenate(l, axis=0):
    l = list(l) if not isinstance(l, SymSeqBase) else l
    if isinstance(l, SymSeqBase): return concat_sym(l)
    if not l: raise ValueError('need at least one array to concatenate')
    l = [np_array(list(q)) if isinstance(q, (list, VList)) else q for q in l]
    if isinstance(l[0], SStruct):
        for q in l[1:]:
            if list(q.fields) != list(l[0].fields): raise TypeError('invalid type promotion with structured datatypes')
        return SStruct({n: np_concatenate([q.fields[n] for q in l]) for n in l[0].fields})
    if any(isinstance(q, SStruct) for q in l): raise TypeError('invalid type promotion')
    if len(l) == 1: return l[0].copy()
    nd = len(l[0].shape); ax = axis % nd
    rds = [q.snap() for q in l]; ns = [q.shape[ax] for q in l]
    starts = [0]
    for q in ns[:-1]: starts.append(starts[-1] + q)
    tot = starts[-1] + ns[-1]
    if nd == 2: 
        for q in l[1:]: samedim([q.shape[1 - ax]], [l[0].shape[1 - ax]])
    def f(idx):
        i = idx[ax]
        def sub(j): t = list(idx); t[ax] = j; return tuple(t)
        r = rds[-1](sub(zi(SNum(lift(i)) - starts[-1])))
        for k in range(len(l) - 2, -1, -1):
            r = ite(lift(i) < lift(starts[k + 1]), rds[k](sub(zi(SNum(lift(i)) - starts[k]))), r)
        return r
    shape = list(l[0].shape); shape[ax] = SNum(zi(tot)) if isinstance(tot, SNum) else tot
    kd = l[0].dtype.kind
    for q in l[1:]: kd = promote(SArrK(kd), q)
    if nd == 1 and isinstance(tot, SNum) and const(tot) is None: C.push(C.concats, (zi(tot), list(zip(starts, ns))))
    r = newarr(f, shape, kd)
    return r
class SArrK:
    def __init__(s, k): s.dtype = Dtype(k)
def concat_sym(l): raise Unsupported('concatenate of a symbolic list')
def np_searchsorted(edges, x, side='left', sorter=None):
    if sorter is not None: raise Unsupported('searchsorted sorter')
    if isinstance(edges, (list, VList)): edges = np_array(list(edges))
    if not is_sorted(edges): C.prove('searched edges are sorted', False)
    erd = edges.snap(); n = edges.shape[0]; fs = C.searched.setdefault((side, sig(edges)), {})      # equal edges and equal values have equal bins
    def one(v):
        if isinstance(n, int) and n <= 24:
            c = z3.IntVal(0)
            for i in range(n):
                ev, vv = pair(lift(erd((i,))), lift(v)); c = c + z3.If(ev < vv if side == 'left' else ev <= vv, 1, 0)
            return SNum(z3.simplify(c))
        vv = z3.simplify(lift(v)); f = fs.get(vv.sort())
        if f is None: f = fs[vv.sort()] = z3.Function('bin!%d' % next(C.idgen), vv.sort(), z3.IntSort())
        k = f(vv); key = ('ss', k.get_id())
        if key in C.memo: return SNum(k)
        C.setmemo(key, k)
        N = lift(n); C.assume(z3.And(k >= 0, k <= N))
        below = lambda e: (lambda p, q: p < q if side == 'left' else p <= q)(*pair(lift(e), vv))
        C.assume(z3.Implies(k > 0, below(erd((z3.simplify(k - 1),))))); C.assume(z3.Implies(k < N, z3.Not(below(erd((k,))))))
        C.forall([n], lambda i: C.assume(z3.Implies(z3.And(i >= 0, i < N), (i < k) == below(erd((i,))))))
        return SNum(k)
    if isinstance(x, SArr):
        rd = x.snap()
        if x.ndim == 0: return newarr(lambda idx: one(rd(())), (), 'int64')
        # one uninterpreted function of the position, so that equal reads are equal
        return newarr(lambda idx: one(rd(idx)), x.shape, 'int64')
    r = one(x); return NInt(lift(r))
def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')
def np_unravel_index(i, shape):
    shape = shp(shape)
    if len(shape) != 2: raise Unsupported('unravel_index rank')
    tot = SNum(lift(shape[0])) * shape[1]
    if isinstance(i, SArr):
        def pos(): 
            k = C.fresh('ui'); C.assume(z3.And(k >= 0, k < lift(i.shape[0]))); C.term(i.shape[0], k); v = lift(i.get(k)); C.prove('flat indices stay in bounds', z3.And(v >= 0, v < tot.e))
        if i.ndim: scratch(pos)
        rd = i.snap()
        return (newarr(lambda idx: SNum(divpair(rd(idx).e, shape[1])[0]), i.shape, 'int64'), newarr(lambda idx: SNum(divpair(rd(idx).e, shape[1])[1]), i.shape, 'int64'))
    if not C.decide(z3.And(lift(i) >= 0, lift(i) < tot.e)): raise ValueError('index is out of bounds for array')
    q, r = divpair(lift(i), shape[1]); return SNum(q), SNum(r)
def np_meshgrid(a, b):
    ra, rb = a.snap(), b.snap(); sh = (b.shape[0], a.shape[0])
    return newarr(lambda idx: ra((idx[1],)), sh, a._dtype), newarr(lambda idx: rb((idx[0],)), sh, b._dtype)
def np_where(c, a=None, b=None):
    if a is not None:
        sh = c.shape if isinstance(c, SArr) else None
        if sh is None: return ite(zb(truth(c)), a, b)
        rc = c.snap(); ra = bcast(a, sh).snap() if isinstance(a, SArr) else (lambda i: a); rb = bcast(b, sh).snap() if isinstance(b, SArr) else (lambda i: b)
        kd = kindof(a) if not isinstance(a, SArr) else a.dtype.kind
        return newarr(lambda idx: ite(zb(rc(idx)), ra(idx), rb(idx)), sh, kd)
    if not isinstance(c, SArr): c = np_array([c])
    if c.dtype.kind != 'bool': c = c.map(truth, 'bool')
    if c.ndim == 0: c = newarr(lambda idx, rd=c.snap(): rd(()), (1,), 'bool')
    F = filt(c)
    if c.ndim == 1:
        r = newarr(lambda idx: SNum(F.sel(idx[0])), (F.count,), 'int64'); r.whereof = (newarr(c.snap(), c.shape, 'bool'), r.box.fn); return (r,)
    return (newarr(lambda idx: SNum(F.sel2(idx[0])[0]), (F.count,), 'int64'), newarr(lambda idx: SNum(F.sel2(idx[0])[1]), (F.count,), 'int64'))
def np_argwhere(c):
    if c.ndim == 2:
        F = filt(c)
        return newarr(lambda idx: SNum(ite(lift(idx[1]) == 0, SNum(F.sel2(idx[0])[0]), SNum(F.sel2(idx[0])[1])).e), (F.count, 2), 'int64')
    F = filt(c); return newarr(lambda idx: SNum(F.sel(idx[0])), (F.count, 1), 'int64')
def np_argmax(a):
    """first position of the maximum (used on masks: the first true position, else 0)"""
    if a.dtype.kind == 'bool' and isinstance(a.shape[0], int):
        r = SNum(z3.IntVal(0))
        for i in range(a.shape[0] - 1, -1, -1): r = ite(zb(a.get(i)), SNum(z3.IntVal(i)), r)
        return r
    raise Unsupported('argmax')
def np_count_nonzero(a, axis=None):
    if isinstance(a, SArr): return countnz(a)
    return SNum(z3.If(zb(truth(a)), 1, 0))
def np_column_stack(l):
    l = [np_array(list(q)) if isinstance(q, (list, VList)) else q for q in l]
    for q in l[1:]: samedim(q.shape, l[0].shape)
    rds = [q.snap() for q in l]
    def f(idx):
        i = isexact(idx[1])
        if i is not None: return rds[i]((idx[0],))
        r = rds[-1]((idx[0],))
        for k in range(len(l) - 2, -1, -1): r = ite(lift(idx[1]) == k, rds[k]((idx[0],)), r)
        return r
    r = newarr(f, (l[0].shape[0], len(l)), l[0]._dtype); r.cols = l
    return r
def np_stack(l, axis=0):
    if axis == 1: return np_column_stack(l)
    raise Unsupported('stack')
def np_fliplr(a): return a[:, ::-1]
def np_flipud(a): return a[::-1]
def np_delete(a, idx, axis=None):
    """the indices removed must come from np.where of a mask: then it keeps the elements outside the mask"""
    m = getattr(idx, 'whereof', None)
    if m is not None: m = m[0] if idx.box.fn is m[1] else None
    if m is None or not isinstance(a, SArr) or a.ndim != 1 or axis not in (None, 0): raise Unsupported('delete')
    samedim(a.shape, m.shape); return a[~m]
def np_split(a, idx, axis=0):
    """pieces before idx[0], between consecutive indices, and after the last"""
    if not isinstance(idx, SArr): raise Unsupported('split')
    n = a.shape[0]; m = idx.shape[0]; ird = idx.snap(); U = groups_of(idx, n); src = newarr(a.snap(), a.shape, a._dtype)
    inbounds(idx, n)
    def at(k):
        lo = z3.If(lift(k) == 0, 0, lift(ird((z3.simplify(lift(k) - 1),)))); hi = z3.If(lift(k) < lift(m), lift(ird((zi(k),))), lift(n))
        if U:
            j = z3.simplify(lift(k) - 1); lo = z3.If(lift(k) == 0, 0, U.first(j)); hi = z3.If(lift(k) == 0, 0, U.next(j))
            U.first(zi(k))
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        v = SArr(src.box, (SNum(z3.simplify(z3.If(hi > lo, hi - lo, 0))),), a._dtype, [('s', 0, lo, 1)])
        if U and C.valid(lift(k) >= 1): v.segof = (U, z3.simplify(lift(k) - 1))
        return v
    return SymSeq(SNum(zi(SNum(lift(m)) + 1)), at)
def np_array_split(a, k, axis=0):
    """k consecutive sections; the first n mod k of them have one element more"""
    if not isinstance(a, SArr) or isinstance(k, (list, tuple, SArr)): raise Unsupported('array_split at given positions')
    k = k if isinstance(k, SNum) else SNum(lift(k)); axis = axis % len(a.shape); n = SNum(lift(a.shape[axis]))
    if not C.decide(k.e > 0): raise ValueError('number sections must be larger than 0.')
    key = ('sections', zi(n).sexpr(), zi(k).sexpr())
    if key not in C.memo:
        q, r = divpair(n, k); f = z3.Function('section!%d' % next(C.idgen), z3.IntSort(), z3.IntSort()); C.setmemo(key, (f, q, r)); C.assume(z3.And(f(0) == 0, f(zi(k)) == n.e, zmul(q, k.e) + r == n.e, r >= 0, r < k.e, q >= 0))
        def unfold(i): C.assume(z3.Implies(z3.And(i >= 0, i < k.e), z3.And(f(z3.simplify(i + 1)) == f(i) + q + z3.If(i < r, 1, 0), f(i) >= 0, f(z3.simplify(i + 1)) <= n.e)))
        C.forall([k], unfold)
    f, q, r = C.memo[key]
    def at(i):
        i = zi(i); C.term(k, i); cut = slice(SNum(f(i)), SNum(f(z3.simplify(i + 1)))); v = a.view([cut if x == axis else slice(None) for x in range(len(a.shape))])
        s.last = v, f(i); return v
    s = SymSeq(k, at); s.section, s.axis, s.of, s.q, s.r = f, axis, a, q, r; return s
def shift(v, K):
    """the part of a sum that is the same for all points, if any"""
    if not isinstance(v, SNum) or not z3.is_expr(v.e): return None
    e = z3.simplify(toreal(v.e)); has = lambda t: z3.eq(t, K) or any(has(q) for q in t.children())
    off = [t for t in e.children() if not has(t)] if z3.is_add(e) else []
    return z3.Sum(off) if off and len(off) < e.num_args() else None
class Lstsq:
    """solution of the least squares problem of the rows (a..., b): a function of the set of rows"""
    def __init__(s, a, b): s.a, s.b = a, b
    def row(s, i):
        cols = getattr(s.a, 'cols', None)
        if cols is None: raise Unsupported('lstsq matrix')
        bc = getattr(s.b, 'cols', None) or [s.b]
        doms = []
        for q in cols + bc:
            n, cond, val = domain(q); doms.append((n, cond, val, q))
        cut = [d for d in doms if not (d[3].box.pieces is not None and len(d[3].box.pieces) == 1)]
        n, cond, _, _ = cut[0]
        for d in cut[1:]:
            if not same_len(d[0], n): raise Unsupported('lstsq columns of different origin')
            K = z3.Int('lk')
            if not scratch(lambda: C.valid(z3.Implies(z3.And(K >= 0, K < lift(n)), zb(cond(K)) == zb(d[1](K))))): raise Unsupported('lstsq columns cut differently')
        val = lambda p: tuple((d[2](p) if d in cut else d[3].box.pieces[0][2]) for d in doms)
        if any(d not in cut for d in doms[:len(cols)]) and cols[i].box is not None and doms[i] in cut:      # next to a constant column the other coefficients do not depend on shifts of the columns
            K, old = z3.Int('lstsq_index'), val; off = scratch(lambda: [shift(v, K) for v in old(K)])
            val = lambda p: tuple(v if o is None else SNum(z3.simplify(toreal(v.e) - o), v.nan) for v, o in zip(old(p), off))
        return agg('lstsq%d' % i, n, cond, val)
def np_lstsq(a, b, rcond=None):
    if rcond is not None: raise Unsupported('lstsq rcond')
    L = Lstsq(a, b); k = len(getattr(a, 'cols', [0, 0, 0]))
    fit = newarr(lambda idx: L.row(isexact(idx[0])), (k, 1), 'float64')
    return fit, None, None, None
def np_sum(a, axis=None):
    if isinstance(a, (list, VList)): a = np_array(list(a))
    if axis is not None and (a.ndim != 1 or axis not in (0, -1)): raise Unsupported('sum axis')
    return a.sum()
def np_min(a): return (a if isinstance(a, SArr) else np_array(list(a))).min()
def np_max(a): return (a if isinstance(a, SArr) else np_array(list(a))).max()
def np_sqrt(v):
    if isinstance(v, SArr): return v.map(np_sqrt, 'float64')
    v = v if isinstance(v, SNum) else SNum(lift(v)); e = toreal(v.e); r = SQRT(e); key = ('sqrt', r.get_id())
    if key not in C.memo:
        C.setmemo(key, r); C.assume(z3.Implies(e >= 0, z3.And(r >= 0, zmul(r, r) == e)))
        # monotone against the other roots
        for k2, v2 in list(C.memo.items()):
            if k2[0] == 'sqrt' and k2 != key: C.assume(z3.And(z3.Implies(e <= v2.arg(0), r <= v2), z3.Implies(v2.arg(0) <= e, v2 <= r)))
    return SNum(r, v.nan)
def np_copy(a): return a.copy() if isinstance(a, (SArr, SStruct)) else np_array(a)
def np_any(a, axis=None):
    if isinstance(a, SArr): return a.any(axis)
    return truth(a)
def np_all(a, axis=None): return a.all(axis) if isinstance(a, SArr) else truth(a)
def np_sort(a, *x):
    if hasattr(a, 'sorted_unique'): return a
    if isinstance(a, (list, VList)): a = np_array(list(a))
    if a.box.uniq is not None and a.box.uniq[0] == 'values': return a
    if isinstance(a.shape[0], int) and a.shape[0] <= 1: return a.copy()
    return a[np_argsort(a)]
def np_hstack(l):
    l = list(l); return np_concatenate(l, axis=0 if len(l[0].shape) == 1 else 1)

# ---- the elementwise functions behind the operators
def elem2(f, op):
    """numpy function of two operands: the operator for arrays, for each pair of elements"""
    def g(a, b, *r, **k):
        only(k)
        if r: raise Unsupported('output array of an elementwise function')
        if isinstance(a, (list, VList)): a = np_array(list(a))
        if isinstance(b, (list, VList)): b = np_array(list(b))
        if not isinstance(a, SArr) and isinstance(b, SArr): return b.bin(a, f, None if op else 'bool', rev=True)
        if isinstance(a, SArr): return a.bin(b, f, None if op else 'bool')
        if not all(isinstance(q, (SNum, SBool, int, float)) for q in (a, b)): raise Unsupported('elementwise function of something else')
        return f(a, b)
    return g
def _least(a, b, big):
    na, nb = nanof(a), nanof(b); r = ite(zb((b if isinstance(b, SNum) else SNum(lift(b))) > a) if big else zb((b if isinstance(b, SNum) else SNum(lift(b))) < a), b, a)
    if na is not False: r = ite(zb(na), a, r)
    if nb is not False: r = ite(zb(nb), b, r)
    return r
np_minimum = elem2(lambda a, b: _least(a, b, False), True); np_maximum = elem2(lambda a, b: _least(a, b, True), True)
np_add = elem2(vadd, True); np_subtract = elem2(lambda a, b: a - b, True); np_multiply = elem2(vmul, True)
np_less = elem2(lambda a, b: a < b, False); np_less_equal = elem2(lambda a, b: a <= b, False); np_greater = elem2(lambda a, b: a > b, False); np_greater_equal = elem2(lambda a, b: a >= b, False)
np_equal = elem2(veq, False); np_not_equal = elem2(lambda a, b: vinv(veq(a, b)), False)
np_logical_and = elem2(lambda a, b: SBool(zand(zb(truth(a)), zb(truth(b)))), False); np_logical_or = elem2(lambda a, b: SBool(zor(zb(truth(a)), zb(truth(b)))), False)
def np_logical_not(a): return a.map(lambda v: vinv(truth(v)), 'bool') if isinstance(a, SArr) else vinv(truth(a))
def np_abs(a): return abs(a)
np_absolute = np_fabs = np_abs
def np_negative(a): return -a
def np_square(a): return a * a
def np_divide(a, b, **k):
    only(k); return a / b
np_true_divide = np_divide
def np_mean(a, axis=None):
    if isinstance(a, (list, VList)): a = np_array(list(a))
    if axis is not None and (a.ndim != 1 or axis not in (0, -1)): raise Unsupported('mean axis')
    return a.mean()
def np_flatnonzero(a): return np_where(a.ravel() if len(a.shape) == 1 else Flat(a).copy())[0]
