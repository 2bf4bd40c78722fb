from contract import *
CONTRACTS.clear()
B = 'bathygrid/bgrid.py:BathyGrid.'
I = z3.IntSort()
class Text:
    """any string: compared, searched for a part, tested for being empty"""
    def __init__(s, e): s.e = e
    def __eq__(s, o): return SBool(s.e == o.e) if isinstance(o, Text) else False
    def __ne__(s, o): return SBool(s.e != o.e) if isinstance(o, Text) else True
    def __bool__(s): return C.decide(z3.Function('nonempty', I, z3.BoolSort())(s.e))
    def has(s, part): return SBool(z3.Function('has_' + part, I, z3.BoolSort())(s.e))
    def find(s, part): return If(s.has(part), 0, -1)
    def vcontains(s, part): return s.has(part)
    def __contains__(s, part): return bool(s.has(part))
    def __format__(s, f): return 'text'
    __hash__ = object.__hash__
class When:
    """time as text; contract of the two time functions: reading back what was written gives the same second"""
    def __init__(s, t): s.t = t
    def __bool__(s): return True
    def same(s, o): return s.t == o.t if isinstance(o, When) else False
def same_time(a, b): return a == b if not isinstance(a, When) else a.same(b)
def grid(crs, ref, times):
    bm = mod('bgrid'); bm.__dict__['utc_seconds_to_formatted_string'] = When; bm.__dict__['formatted_string_to_utc_seconds'] = lambda w: w.t
    g = new(bm.BathyGrid, epsg=Int('old_crs') if crs else None, vertical_reference=Text(z3.Int('old_ref')) if ref else None, min_time=When(Int('old_min')) if times else '', max_time=When(Int('old_max')) if times else '',
        container=loops.VDict({'there': ['f']}), container_timestamp=loops.VDict({'there': 'then'}), data=None, resolutions=VList([1.0]))
    if crs: require(g.epsg > 0)
    return g
def frozen(g): return dict(epsg=g.epsg, vref=g.vertical_reference, t0=g.min_time, t1=g.max_time, c=dict(dict.items(g.container)), ts=dict(dict.items(g.container_timestamp)))
def unchanged(g, b): return And(*[f if isinstance(f, SBool) else bool(f) for f in (
    (g.epsg is None) == (b['epsg'] is None) and (g.epsg is None or g.epsg == b['epsg']), g.vertical_reference is b['vref'], same_time(g.min_time, b['t0']), same_time(g.max_time, b['t1']), dict(dict.items(g.container)) == b['c'], dict(dict.items(g.container_timestamp)) == b['ts'])])
def sources(crs, ref):
    """(coordinate system, vertical reference) of the new source: given or left out"""
    c = Int('new_crs') if crs else None; r = Text(z3.Int('new_ref')) if ref else None
    if crs: require(c > 0)
    return c, r
def compatible(g, c, r):
    ok = []
    if g.epsg is not None and c is not None: ok.append(g.epsg == c)
    v = g.vertical_reference
    if v is not None:
        empty = Not(SBool(z3.Function('nonempty', I, z3.BoolSort())(v.e)))
        if r is None: ok.append(empty)
        else: ok.append(Or(empty, v == r, And(v.has('MLLW'), r.has('MLLW'))))
    return And(*ok)
def meta(oc, orf, times, nc, nr):
    g = grid(oc, orf, times); c, r = sources(nc, nr); ok = compatible(g, c, r); b = frozen(g); t0, t1 = Int('new_min'), Int('new_max'); require(And(t0 > 0, t1 > 0))
    for t in (g.vertical_reference, r):
        if t is not None: require(Implies(t.has('MLLW'), SBool(z3.Function('nonempty', I, z3.BoolSort())(t.e))))
    reachable(); v, e = raises(lambda: g._update_metadata('new', ['file'], c, r, t0, t1))
    if e is not None:
        if not isinstance(e, ValueError): raise e
        ensure('only an incompatible source is refused', Not(ok)); ensure('a refused source changes nothing', lambda: unchanged(g, b)); return
    ensure('an incompatible source is refused', ok)
    ensure('the source is listed, the others stay', And(set(dict.keys(g.container)) == {'there', 'new'}, g.container['new'] == ['file'], g.container['there'] == ['f'], set(dict.keys(g.container_timestamp)) == {'there', 'new'}, g.container_timestamp['there'] == 'then'))
    ensure('the coordinate system is that of the sources', lambda: (g.epsg == c) if c is not None else (g.epsg == b['epsg'] if b['epsg'] is not None else g.epsg is None))
    ensure('the time span is extended to cover the source', lambda: And(g.min_time.t == (If(t0 < b['t0'].t, t0, b['t0'].t) if times else t0), g.max_time.t == (If(t1 > b['t1'].t, t1, b['t1'].t) if times else t1)))
    if not orf and nr: ensure('the first vertical reference is kept', lambda: g.vertical_reference == r)
for oc in (False, True):
    for orf in (False, True):
        for nc in (False, True):
            for nr in (False, True):
                contract(B + '_update_metadata', 'metadata: grid %s crs %s reference, source %s crs %s reference' % tuple('with' if q else 'without' for q in (oc, orf, nc, nr)))(lambda oc=oc, orf=orf, nc=nc, nr=nr: meta(oc, orf, oc == orf, nc, nr))
def add(how):
    bm = mod('bgrid'); steps = []; g0 = grid(True, True, True)
    class Grid_(bm.OperationalGrid):
        _update_base_grid = spy(bm.BathyGrid._update_base_grid, steps, lambda a: None); _update_tiles = spy(bm.BathyGrid._update_tiles, steps); _update_mean_depth = spy(bm.BathyGrid._update_mean_depth, steps); _save_grid = spy(bm.BathyGrid._save_grid, steps)
    g = new(Grid_, **g0.__dict__); b = frozen(g); n = size('n', 1); c, r = sources(True, True); ok = compatible(g, c, r); name = 'new'; data = points('p', n)
    for t in (g.vertical_reference, r): require(Implies(t.has('MLLW'), SBool(z3.Function('nonempty', I, z3.BoolSort())(t.e))))
    if how == 'name': name = 'there'
    if how == 'line': g.container['there__2'] = ['h']; g.container_timestamp['there__2'] = 'then'; b = frozen(g); name = 'there__2'
    if how == 'fields': data = points('p', n, ('y', 'z'))
    if how == 'plain': data = array('plain', n)
    if how == 'list': data = [1.0, 2.0]
    reachable(); v, e = raises(lambda: g.add_points(data, name, ['f'], crs=c, vertical_reference=r, min_time=5, max_time=6, progress_bar=False))
    if e is not None:
        if how == 'good': ensure('only an incompatible source is refused', Not(ok))
        if not isinstance(e, ValueError): raise e
        ensure('a refused source changes nothing', lambda: And(unchanged(g, b), g.data is None)); ensure('no point is added', not steps); return
    ensure('the source is refused' if how != 'good' else 'an incompatible source is refused', how == 'good' and ok)
    ensure('the points are not kept aside', g.data is None)
for h, t in (('good', 'a proper point array'), ('name', 'a name that is in the grid'), ('line', 'a name with a line that is in the grid'), ('fields', 'points without x'), ('plain', 'a plain array'), ('list', 'a list')): contract([B + 'add_points', 'bathygrid/bgrid.py:OperationalGrid._validate_input_data', B + '_update_metadata'], 'add_points: ' + t)(lambda h=h: add(h))
# ------------------------------------------------------------------------------------------------ time as text
class TimeText:
    """a time written down to the second: the format and the wall clock time, in seconds since 1970 on that clock"""
    def __init__(s, fmt, wall): s.fmt, s.wall = fmt, wall
LOCAL, UNLOCAL = z3.Function('local_clock', z3.RealSort(), z3.RealSort()), z3.Function('from_local_clock', z3.RealSort(), z3.RealSort())
class Zone:
    def __init__(s, n): s.n = n
UTC = Zone('utc')
def whole(x): return np.floor(x) if isinstance(x, SNum) else float(int(x // 1))
def real_(x): return SNum(core_real(x))
def core_real(x): e = lift(x); return z3.ToReal(e) if z3.is_int(e) else e
class When2:
    """contract of datetime: wall clock time and the zone it belongs to (none: naive)"""
    def __init__(s, wall, zone): s.wall, s.zone = wall, zone
    @classmethod
    def utcfromtimestamp(c, t): return c(real_(t), None)
    @classmethod
    def fromtimestamp(c, t, tz=None): return c(SNum(LOCAL(core_real(t))), None) if tz is None else c(real_(t), UTC) if tz is UTC else unsupported('another time zone')
    @classmethod
    def strptime(c, text, fmt):
        if not isinstance(text, TimeText) or fmt != text.fmt: raise ValueError('time data does not match format')
        return c(text.wall, None)
    @classmethod
    def fromisoformat(c, text): return c.strptime(text, '%Y-%m-%dT%H:%M:%S')
    def strftime(s, fmt):
        if not all(d in fmt for d in ('%Y', '%m', '%d', '%H', '%M', '%S')): raise core.Unsupported('a part of the time is not written')
        return TimeText(fmt, whole(s.wall))
    def isoformat(s, sep='T', timespec='auto'):
        if s.zone is not None or sep != 'T' or timespec != 'seconds': raise core.Unsupported('isoformat')
        return s.strftime('%Y-%m-%dT%H:%M:%S')
    def replace(s, tzinfo=0, microsecond=None):
        if tzinfo not in (0, None, UTC) or microsecond not in (0, None): raise core.Unsupported('replace')
        return When2(s.wall if microsecond is None else whole(s.wall), s.zone if tzinfo == 0 else tzinfo)
    def timestamp(s): return s.wall if s.zone is UTC else SNum(UNLOCAL(lift(s.wall)))
def unsupported(t): raise core.Unsupported(t)
import core
def clock(um): um.datetime = When2; um.timezone = type('timezone', (), {'utc': UTC})
U = 'bathygrid/utilities.py:'
@contract([U + 'utc_seconds_to_formatted_string', U + 'formatted_string_to_utc_seconds'], 'a time that was written is read back, in any time zone of the machine')
def roundtrip():
    um = mod('utilities'); clock(um); t = Int('t') if C.decide(Bool('whole_seconds').e) else Real('t'); require(t >= 0); reachable()
    w = um.utc_seconds_to_formatted_string(t); ensure('date and time of UTC, to the second', lambda: And(isinstance(w, TimeText), w.fmt == '%Y-%m-%dT%H:%M:%S', w.wall == whole(real_(t))))
    ensure('reading gives the same second', lambda: um.formatted_string_to_utc_seconds(w) == whole(real_(t)))
@contract([U + 'utc_seconds_to_formatted_string', U + 'formatted_string_to_utc_seconds'], 'a time that was read is written back')
def reading():
    um = mod('utilities'); clock(um); s = Int('second'); require(s >= 0); w = TimeText('%Y-%m-%dT%H:%M:%S', real_(s)); reachable()
    t = um.formatted_string_to_utc_seconds(w); ensure('the second that is written', t == s); o = um.utc_seconds_to_formatted_string(t); ensure('the same text', lambda: And(o.fmt == w.fmt, o.wall == w.wall))
