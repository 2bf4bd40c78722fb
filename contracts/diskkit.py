"""file system, json and dask arrays in memory: what the backends write, delete and read back"""
from loopkit import *
import os as realos
norm = realos.path.normpath
class Disk:
    """files and folders by path; the contents of arrays are symbolic"""
    def __init__(d): d.files, d.dirs = {}, {'/'}
    def exists(d, p): p = norm(p); return p in d.files or p in d.dirs
    def isdir(d, p): return norm(p) in d.dirs
    def makedirs(d, p, mode=0o777, exist_ok=False):
        p = norm(p)
        if d.exists(p) and (not exist_ok or p in d.files): raise FileExistsError(p)
        while p not in d.dirs: d.dirs.add(p); p = realos.path.dirname(p)
    def mkdir(d, p):
        if d.exists(p): raise FileExistsError(p)
        if not d.isdir(realos.path.dirname(norm(p))): raise FileNotFoundError(p)
        d.dirs.add(norm(p))
    def rmtree(d, p, *a, **k):
        p = norm(p)
        if p not in d.dirs: raise FileNotFoundError(p)
        d.dirs = {q for q in d.dirs if q != p and not q.startswith(p + '/')}; d.files = {q: v for q, v in d.files.items() if not q.startswith(p + '/')}
    def listdir(d, p):
        """names in a folder, in any order: this one or its reverse"""
        p = norm(p)
        if p not in d.dirs: raise FileNotFoundError(p)
        l = sorted({realos.path.basename(q) for q in list(d.files) + list(d.dirs) if q != '/' and realos.path.dirname(q) == p}); return VList(l[::-1] if C.decide(z3.Bool('listed_backwards')) else l)
    def put(d, p, v):
        p = norm(p)
        if not d.isdir(realos.path.dirname(p)): raise FileNotFoundError(p)
        if p in d.dirs: raise IsADirectoryError(p)
        d.files[p] = v
    def get(d, p):
        p = norm(p)
        if p not in d.files: raise FileNotFoundError(p)
        return d.files[p]
    def open(d, p, mode='r', *a, **k):
        if mode[:1] not in 'wr': raise Unsupported('file mode ' + mode)
        d.put(p, None) if mode[0] == 'w' else d.get(p)
        return Open(d, p)
    def below(d, p): return {q: v for q, v in d.files.items() if q.startswith(norm(p) + '/')}
class Open:
    def __init__(f, d, p): f.d, f.p = d, p
    def __enter__(f): return f
    def __exit__(f, *a): pass
    def close(f): pass
    def flush(f): pass
    def write(f, t): f.d.put(f.p, ('json', t.v) if isinstance(t, Text) else ('text', t))
    def read(f): v = f.d.get(f.p); return Text(v[1]) if isinstance(v, tuple) and v[0] == 'json' else v
class Text:
    """text made by json"""
    def __init__(s, v): s.v = v
def tojson(v):
    """what json makes of a value; numpy scalars of kind int and arrays are refused"""
    if isinstance(v, dict): return {(k if isinstance(k, str) else format(k, '') if isinstance(k, (SNum, int, float)) else no(k)): tojson(q) for k, q in dict.items(v)}
    if isinstance(v, (list, tuple)): return [tojson(q) for q in v]
    if v is None or isinstance(v, (str, int, float, bool)) or type(v) in (SNum, SBool): return v
    if isinstance(v, SymSeqBase): n, at = v.n, v.at; return ('sequence', n, at)
    no(v)
def no(v): raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)
def fromjson(v):
    if isinstance(v, dict): return loops.VDict({k: fromjson(q) for k, q in v.items()})
    if isinstance(v, list): return VList([fromjson(q) for q in v])
    if isinstance(v, tuple): return SymSeq(v[1], v[2])
    return v
class Json:
    @staticmethod
    def dump(o, f, **k): f.d.put(f.p, ('json', tojson(o)))
    @staticmethod
    def dumps(o, **k): return Text(tojson(o))
    @staticmethod
    def loads(t, **k):
        if not isinstance(t, Text): raise ValueError('no json')
        return fromjson(t.v)
    @staticmethod
    def load(f, **k):
        v = f.d.get(f.p)
        if not isinstance(v, tuple) or v[0] != 'json': raise ValueError('no json')
        return fromjson(v[1])
def frozen(a):
    """present contents of an array"""
    return a.copy()
class Dask(ArrBase):
    """dask array: one in memory, or a reference to a file that is read when it is computed"""
    isdask = True
    def __init__(s, shape, dtype, read): s.shape, s.dtype, s.read = tuple(shape), dtype, read
    def compute(s, *a, **k): return frozen(s.read())
    ndim = property(lambda s: len(s.shape))
    @property
    def size(s):
        r = 1
        for q in s.shape: r = r * q
        return r
    def vlen(s): return s.shape[0]
    def vclass(s, c): return isinstance(s, c) if isinstance(c, type) else False
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('dask array: ' + n)
def dask(d, da):
    """functions of dask.array on the disk d"""
    def from_array(a, *x, **k):
        if getattr(a, 'isdask', False): return a
        if not isinstance(a, (SArr, SStruct)): raise Unsupported('dask array of something else than an array')
        return Dask(a.shape, a.dtype, lambda a=a: a)
    def need(a):
        if not getattr(a, 'isdask', False): raise AttributeError('not a dask array')
        return a
    def lazy(p, file):
        v = d.get(p + '/' + file)[1]
        def read():
            w = d.get(p + '/' + file)[1]; return w
        return Dask(v.shape, v.dtype, read)
    def to_npy_stack(p, a, axis=0):
        if axis != 0: raise Unsupported('stacked along another axis')
        v = need(a)
        if not d.exists(p): d.mkdir(p)
        d.put(p + '/info', ('npy', frozen(v.read())))
    def from_npy_stack(p, mmap_mode='r'): return lazy(p, 'info')
    def to_zarr(a, p, **k):
        if k: raise Unsupported('zarr with options')
        v = need(a)
        if d.exists(p + '/.zarray'): raise ValueError('path %s contains an array' % p)
        if C.decide(zb(v.size == 0)): raise ZeroDivisionError('chunks of an empty array')
        d.makedirs(p, exist_ok=True); d.put(p + '/.zarray', ('zarr', frozen(v.read())))
    def from_zarr(p, **k):
        if k: raise Unsupported('zarr with options')
        return lazy(p, '.zarray')
    da.from_array, da.to_npy_stack, da.from_npy_stack, da.to_zarr, da.from_zarr, da.Array = from_array, to_npy_stack, from_npy_stack, to_zarr, from_zarr, load.DArray
def install(*paths):
    """disk with these folders under the backends module"""
    d = Disk(); bm, um = mod('backends'), mod('utilities')
    for p in paths: d.makedirs(p, exist_ok=True)
    for m in (bm, um):
        for n in ('exists', 'isdir'): setattr(m.os.path, n, getattr(d, n))
        for n in ('makedirs', 'mkdir', 'listdir'): setattr(m.os, n, getattr(d, n))
    bm.open = um.open = d.open; bm.json = Json; um.rmtree = d.rmtree; dask(d, bm.da); bm.print_progress_bar = lambda *a, **k: None
    return d
def there(what, a, b):
    """array a is b: shape, kind and contents"""
    if getattr(a, 'isdask', False): a = a.compute()
    if isinstance(b, SStruct):
        if not isinstance(a, SStruct): ensure(what + ': the fields', False); return
        ensure(what + ': the fields', list(a.fields) == list(b.fields))
        if list(a.fields) == list(b.fields):
            for f in b.fields: there(what + ': ' + f, a[f], b[f])
        return
    if not isinstance(a, SArr): ensure(what + ': is there', False); return
    ensure(what + ': the shape', len(a.shape) == len(b.shape) and And(*[SBool(lift(p) == lift(q)) for p, q in zip(a.shape, b.shape)]))
    if len(a.shape) != len(b.shape): return
    ensure(what + ': the type', a.dtype.kind == b.dtype.kind)
    C.solver.push(); m = len(C.trail)
    try:
        idx = [index('any%d' % i, n) for i, n in enumerate(b.shape)]; v, w = a.get(*[q.e for q in idx]), b.get(*[q.e for q in idx])
        ensure(what + ': the values', same(v, w) if not isinstance(w, (SBool, bool)) else Iff(v, w))
    finally: C.solver.pop(); C.undo_to(m)
def equal(a, b):
    """values of attributes are equal"""
    if isinstance(a, SymSeqBase) and isinstance(b, SymSeqBase):
        t = index('element', b.n); return And(SBool(lift(a.n) == lift(b.n)), equal(a.at(t.e), b.at(t.e)))
    if isinstance(a, SymSeqBase) or isinstance(b, SymSeqBase): return False
    if isinstance(a, dict) and isinstance(b, dict): return And(set(dict.keys(a)) == set(dict.keys(b)), *[equal(dict.__getitem__(a, k), dict.__getitem__(b, k)) for k in dict.keys(b) if dict.__contains__(a, k)])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return And(len(a) == len(b), *[equal(p, q) for p, q in zip(a, b)])
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return Iff(a, b)
    if isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)) and not isinstance(a, bool) and not isinstance(b, bool): return And(same(a, b), isinstance(a, float) == isinstance(b, float) if not isinstance(a, SNum) and not isinstance(b, SNum) else True)
    return type(a) == type(b) and a == b
def works(what, f):
    """runs f; what the disk or json refuses is a failure"""
    v, e = raises(f); bad = isinstance(e, (OSError, ValueError, KeyError, ZeroDivisionError)) or (isinstance(e, TypeError) and 'JSON' in str(e))
    if e is not None and not bad: raise e
    ensure(what + ' works' + ('' if e is None else ' (%s)' % type(e).__name__), e is None)
    if e is not None: raise PathEnd()
    return v
