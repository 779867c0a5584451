"""C18: calendar times against an own calendar arithmetic."""
import datetime
import linecache
import math
import os
import shutil
import tempfile
import cftime
import numpy as np
import netCDF4
import xarray as xr
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode
from parcels.tools.converters import TimeConverter

PROPERTY = 'C18'
RULE = ('a case is a calendar with an origin and up to 6 instants, or a fieldset whose snapshots are dates in some encoding and a run whose release '
        'and end times are dates; non-trivial = an instant other than the origin; the seconds between instants come from an own day count')
ASSUMPTIONS = ['instants have millisecond resolution', 'the mixed Julian/Gregorian calendar is used after 1583 only']

# ---- day count
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
CALS = ['proleptic_gregorian', 'standard', 'noleap', 'all_leap', '360_day', 'julian']


def leap(cal, y):
    if cal in ('noleap', '360_day'):
        return False
    if cal == 'all_leap':
        return True
    if cal == 'julian':
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(cal, y, m):
    if cal == '360_day':
        return 30
    return ML[m - 1] + (1 if m == 2 and leap(cal, y) else 0)


def days(cal, y, m, d):
    """days since 0001-01-01"""
    n = y - 1
    if cal == '360_day':
        t = 360 * n
    else:
        t = 365 * n
        if cal == 'all_leap':
            t += n
        elif cal == 'julian':
            t += n // 4
        elif cal != 'noleap':
            t += n // 4 - n // 100 + n // 400
    for k in range(1, m):
        t += mlen(cal, y, k)
    return t + d - 1


def civil(cal, ms):
    """(y, m, d, h, mi, s, ms) of milliseconds since 0001-01-01"""
    day, r = divmod(ms, 86400000)
    y = max(1, int(day / 366) - 1)
    while days(cal, y + 1, 1, 1) <= day:
        y += 1
    m = 1
    while m < 12 and days(cal, y, m + 1, 1) <= day:
        m += 1
    return (y, m, int(day - days(cal, y, m, 1)) + 1, int(r // 3600000), int(r // 60000 % 60), int(r // 1000 % 60), int(r % 1000))


def total(cal, c):
    return days(cal, *c[:3]) * 86400000 + c[3] * 3600000 + c[4] * 60000 + c[5] * 1000 + c[6]


def as_np(c, unit='ms'):
    return np.datetime64('%04d-%02d-%02dT%02d:%02d:%02d.%03d' % c).astype('datetime64[%s]' % unit)


def as_cf(cal, c):
    return cftime.datetime(*c[:6], c[6] * 1000, calendar=cal)


CLS = {'noleap': cftime.DatetimeNoLeap, 'all_leap': cftime.DatetimeAllLeap, '360_day': cftime.Datetime360Day, 'julian': cftime.DatetimeJulian,
       'standard': cftime.DatetimeGregorian, 'proleptic_gregorian': cftime.DatetimeProlepticGregorian}


def as_cfcls(cal, c):
    return CLS[cal](*c[:6], c[6] * 1000)


@st.composite
def conv_s(draw):
    kind = draw(st.sampled_from(['np', 'np', 'td', 'num', 'cf', 'cf', 'cf']))
    cal = draw(st.sampled_from(CALS)) if kind == 'cf' else 'proleptic_gregorian'
    y = draw(st.integers(1690, 2240)) if kind != 'cf' or cal == 'standard' else draw(st.integers(5, 3000))
    mo = draw(st.integers(1, 12))
    d = draw(st.integers(1, mlen(cal, y, mo)))
    o = total(cal, (y, mo, d, draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.sampled_from([0, 0, 0, 1, 500, 250]))))
    unit = draw(st.sampled_from(['ns', 's', 'ms', 'us', 'm', 'h', 'D'])) if kind in ('np', 'td') else 'ms'
    if unit in ('s', 'm', 'h', 'D'):
        q = {'s': 1000, 'm': 60000, 'h': 3600000, 'D': 86400000}[unit]
        o -= o % q
    off = st.one_of(st.integers(-5, 5).map(lambda k: k * 86400000), st.integers(-10 ** 6, 10 ** 6), st.integers(-86400000 * 800, 86400000 * 800),
                    st.integers(-400, 400).map(lambda k: k * 1000), st.sampled_from([500, -500, 1, -1, 1500, -1999]))
    return {'kind': kind, 'cal': cal, 'o': o, 'unit': unit, 'cls': draw(st.booleans()), 'off': draw(st.lists(off, min_size=1, max_size=6))}


def run_conv(case):
    kind, cal, o = case['kind'], case['cal'], case['o']
    if kind == 'np':
        mk = lambda ms, u='ms': as_np(civil(cal, ms), u)
        origin = mk(o, case['unit'])
    elif kind == 'td':
        mk = lambda ms: np.timedelta64(int(ms - days(cal, 2000, 1, 1) * 86400000), 'ms')
        origin = mk(o).astype('timedelta64[%s]' % case['unit'])
    elif kind == 'cf':
        f = as_cfcls if case['cls'] else as_cf
        mk = lambda ms: f(cal, civil(cal, ms))
        origin = mk(o)
    else:
        mk = lambda ms: (ms - o) / 1000. + 17.25
        origin = 17.25
    tc = TimeConverter(origin)
    ts = [o + k for k in case['off']]
    xs = [mk(t) for t in ts]
    want = [k / 1000. for k in case['off']]
    got = [float(tc.reltime(x)) for x in xs]
    for x, w, g in zip(xs, want, got):
        if abs(w - g) > 1e-5:
            raise Violation('%s: the model time of %s relative to %s is %r, expected %r' % (cal, x, origin, g, w))
    arr = np.array(xs)
    ga = np.asarray(tc.reltime(arr), dtype=float)
    if ga.shape != (len(xs),) or np.any(np.abs(ga - want) > 1e-5):
        raise Violation('%s: model times of the array %s relative to %s are %s, expected %s' % (cal, arr, origin, ga, want))
    if abs(float(tc.reltime(TimeConverter(xs[0]))) - want[0]) > 1e-5 or float(tc.reltime(origin)) != 0:
        raise Violation('%s: model time of another origin %s relative to %s is %r' % (cal, xs[0], origin, tc.reltime(TimeConverter(xs[0]))))

    def back(g, x, how):
        d = g - x
        d = d / np.timedelta64(1, 'ms') if isinstance(d, np.timedelta64) else (d.total_seconds() * 1e3 if hasattr(d, 'total_seconds') else d * 1e3)
        if abs(d) > .5:
            raise Violation('%s: %s of the model time of %s (origin %s) is %s' % (cal, how, x, origin, g))
    for x, g in zip(xs, got):
        back(tc.fulltime(g), x, 'the date')
    for how, seq in (('list', list(got)), ('array', np.array(got))):
        if kind == 'num' and how == 'list':
            continue
        ft = tc.fulltime(seq)
        if len(ft) != len(xs):
            raise Violation('%s: dates of %d model times are %s' % (cal, len(xs), ft))
        for x, g in zip(xs, ft):
            back(g, x, 'the date (from a %s)' % how)
    for a, x in zip(ts, xs):
        for b, y in zip(ts, xs):
            A, B = TimeConverter(x), TimeConverter(y)
            for other in (B, y):
                r = (A < other, A <= other, A == other, A != other, A >= other, A > other)
                w = (a < b, a <= b, a == b, a != b, a >= b, a > b)
                if tuple(bool(q) for q in r) != w:
                    raise Violation('%s: comparing %s with %s (<, <=, ==, !=, >=, >): %s' % (cal, x, y, r))
    return {'nontrivial': any(case['off']), 'labels': [kind, cal]}


# ---- runs
SRC = '''def smp(particle, fieldset, time):
    particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.q = time
'''
FN = '<vp_c18>'
linecache.cache[FN] = (len(SRC), None, SRC.splitlines(True), FN)
NS = {}
exec(compile(SRC, FN, 'exec'), NS)
PC = {m: type('C18' + b.__name__, (b,), {'p': Variable('p', dtype=np.float64, initial=-1.), 'q': Variable('q', dtype=np.float64, initial=-1.)})
      for m, b in (('jit', JITParticle), ('scipy', ScipyParticle))}


@st.composite
def run_s(draw):
    src = draw(st.sampled_from(['data', 'data', 'netcdf', 'netcdf', 'netcdf', 'xarray', 'stamps']))
    cal = draw(st.sampled_from(['proleptic_gregorian', 'standard', 'noleap', '360_day', 'all_leap', 'julian'])) if src in ('netcdf', 'xarray') else 'standard'
    y = draw(st.integers(1700, 2200))
    mo = draw(st.integers(1, 12))
    d = draw(st.sampled_from([1, 28, mlen(cal, y, mo)]))
    o = total(cal, (y, mo, d, draw(st.sampled_from([0, 0, 12, 23])), draw(st.sampled_from([0, 30])), 0, 0))
    step = draw(st.sampled_from([3600, 86400, 86400 * 5, 60, 86400 * 30]))
    n = draw(st.integers(2, 4))
    T = [0]
    for _ in range(n - 1):
        T.append(T[-1] + draw(st.integers(1, 3)))
    fw = draw(st.booleans())
    a, b = sorted([draw(st.integers(0, 16)), draw(st.integers(0, 16))])
    rel = [draw(st.integers(0, 16)) for _ in range(draw(st.integers(1, 3)))]
    return {'src': src, 'cal': cal, 'o': o, 'step': step, 'T': T, 'v': [draw(st.integers(-9, 9)) for _ in T], 'mode': draw(st.sampled_from(['jit', 'scipy'])),
            'rel': rel, 'end': draw(st.integers(0, 16)), 'units': draw(st.sampled_from(['seconds', 'hours', 'days', 'minutes'])),
            'ref': draw(st.sampled_from([0, 0, 1, 400, 36525])), 'npunit': draw(st.sampled_from(['ns', 's', 'ms'])),
            'reltype': draw(st.sampled_from(['native', 'native', 'datetime', 'seconds', 'list', 'scalar'])),
            'endtype': draw(st.sampled_from(['native', 'native', 'datetime', 'seconds', 'runtime', 'timedelta'])),
            'files': draw(st.integers(1, 2)), 'out': draw(st.sampled_from([None, 'num', 'td'])), 'Q': draw(st.sampled_from([None, None, 1, -2, 5])),
            'deferred': draw(st.booleans()), 'nodate': draw(st.integers(0, 9)) == 0}


def build(case, root, shift=0, name='P'):
    cal, step = case['cal'], case['step']
    ms = [case['o'] + int((t + shift) * step * 1000) for t in case['T']]
    civ = [civil(cal, m) for m in ms]
    v = np.array(case['v'], dtype=np.float32)[:, None, None] * np.ones((1, 2, 2), dtype=np.float32)
    ax = np.array([0., 1.], dtype=np.float32)
    src = case['src']
    if src == 'data':
        t = np.array([as_np(c, case['npunit']) for c in civ])
        if case['nodate']:
            t = np.array([float(m - ms[0]) / 1000. for m in ms])
        return FieldSet.from_data({'U': 0 * v, 'V': 0 * v, name: v}, {'lon': ax, 'lat': ax, 'time': t}, mesh='flat')
    native = [as_np(c, 'ns') if cal in ('standard', 'proleptic_gregorian') else as_cfcls(cal, c) for c in civ]
    if src == 'xarray':
        ds = xr.Dataset({k: (('t', 'y', 'x'), d) for k, d in (('U', 0 * v), ('V', 0 * v), (name, v))}, coords={'t': native, 'y': ax, 'x': ax})
        return FieldSet.from_xarray_dataset(ds, {k: k for k in ('U', 'V', name)}, {'lon': 'x', 'lat': 'y', 'time': 't'}, mesh='flat')
    n = len(ms)
    cut = [list(range(n))] if case['files'] == 1 or src == 'stamps' and n < 2 else [list(range(1)), list(range(1, n))]
    if src == 'stamps' and case['deferred']:
        cut = [[k] for k in range(n)]
    files = []
    refms = days(cal, *civil(cal, case['o'])[:3]) * 86400000 - case['ref'] * 86400000
    rc = civil(cal, refms)
    per = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400}[case['units']]
    unit = case['units'] if all((m - refms) % (per * 250) == 0 for m in ms) else 'seconds'      # exactly representable
    per = per if unit == case['units'] else 1
    for i, idx in enumerate(cut):
        fn = os.path.join(root, '%s%d.nc' % (name, i))
        with netCDF4.Dataset(fn, 'w') as nc:
            nc.createDimension('t', len(idx))
            nc.createDimension('y', 2)
            nc.createDimension('x', 2)
            tv = nc.createVariable('t', 'f8', ('t',))
            if src == 'netcdf':
                tv.units = unit if case['nodate'] else '%s since %04d-%02d-%02d 00:00:00' % (unit, rc[0], rc[1], rc[2])
                tv.calendar = cal
                tv[:] = [(ms[k] - refms) / 1000. / per for k in idx]
            else:
                tv[:] = idx
            for k in 'yx':
                nc.createVariable(k, 'f4', (k,))[:] = ax
            for k, dd in (('U', 0 * v), ('V', 0 * v), (name, v)):
                nc.createVariable(k, 'f4', ('t', 'y', 'x'))[:] = dd[idx]
        files.append(fn)
    kw = {'timestamps': [np.array([native[k] for k in idx]) for idx in cut]} if src == 'stamps' else {}
    dims = {'lon': 'x', 'lat': 'y'}
    if src != 'stamps':
        dims['time'] = 't'
    return FieldSet.from_netcdf(files, {k: k for k in ('U', 'V', name)}, dims, mesh='flat', deferred_load=case['deferred'], **kw)


def lin(T, v, t):
    return float(np.interp(t, T, v))


def run_run(case):
    root = tempfile.mkdtemp(prefix='c18_')
    try:
        return _run(case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(case, root):
    cal, step = case['cal'], case['step']
    fs = build(case, root)
    if case['nodate'] and case['src'] == 'data':
        return nodate(case, fs)
    T = [t * step for t in case['T']]
    if not np.allclose(fs.P.grid.time_full, T, atol=1e-4, rtol=0):
        raise Violation('%s (%s): snapshot times are %s, expected %s' % (case['src'], cal, fs.P.grid.time_full, T))
    span = T[-1]
    if case['Q'] is not None:
        # a second field, whose snapshots lie a whole number of steps later or earlier
        other = build(case, root, case['Q'], 'Q').Q
        other.allow_time_extrapolation = True
        fs.add_field(other)

    def native(sec):
        c = civil(cal, case['o'] + int(round(sec * 1000)))
        return as_np(c, 'ns') if cal in ('standard', 'proleptic_gregorian') else as_cfcls(cal, c)

    def pydt(sec):
        c = civil(cal, case['o'] + int(round(sec * 1000)))
        return datetime.datetime(*c[:6], c[6] * 1000)
    greg = cal in ('standard', 'proleptic_gregorian')
    tdaxis = case['nodate'] and case['src'] == 'netcdf'
    if tdaxis:
        # a time axis of durations: there are no dates, only time differences
        greg, off = False, case['o'] - (days(cal, *civil(cal, case['o'])[:3]) - case['ref']) * 86400000

        def native(sec):
            return np.timedelta64(int(round(sec * 1000)) + off, 'ms')
        case = dict(case, endtype='seconds' if case['endtype'] == 'native' else case['endtype'])
    secs = [span * k / 16. for k in case['rel']]
    secs = [round(s) for s in secs]
    if case['reltype'] == 'scalar':
        secs = [secs[0]] * len(secs)
    end = round(span * case['end'] / 16.)
    rt = case['reltype']
    if rt == 'native':
        times = np.array([native(s) for s in secs])
    elif rt == 'datetime' and greg:
        times = [pydt(s) for s in secs]
    elif rt == 'list':
        times = [native(s) for s in secs]
    elif rt == 'scalar':
        times = native(secs[0])
    else:
        times = [float(s) for s in secs]
    pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.5] * len(secs), lat=[.5] * len(secs), time=times)
    for p, s in zip(pset, secs):
        if abs(float(p.time) - s) > 1e-4:
            raise Violation('%s (%s): release time %s became model time %r, expected %r' % (case['src'], cal, times, float(p.time), s))
    lo, hi = min(secs), max(secs)
    sgn = 1 if end >= hi else -1
    if sgn < 0 and end > lo:
        end = lo
    start = lo if sgn > 0 else hi
    if end == start:
        return {'nontrivial': any(secs), 'labels': [case['src'], cal, 'norun']}
    et = case['endtype']
    if et == 'native':
        kw = {'endtime': native(end)}
    elif et == 'datetime' and greg:
        kw = {'endtime': pydt(end)}
    elif et == 'runtime':
        kw = {'runtime': abs(end - start)}
    elif et == 'timedelta':
        kw = {'runtime': datetime.timedelta(seconds=abs(end - start))}
    else:
        kw = {'endtime': float(end)}
    dt = sgn * max(abs(end - start) / 4., 1.)
    pfile = None
    if case['out']:
        od = abs(dt) * 2
        pfile = pset.ParticleFile(os.path.join(root, 'out.nc'), outputdt=datetime.timedelta(seconds=od) if case['out'] == 'td' else od)
        kw['output_file'] = pfile
    pset.execute(NS['smp'], dt=datetime.timedelta(seconds=dt) if case['out'] == 'td' else dt, verbose_progress=False, **kw)
    if len(pset) != len(secs):
        raise Violation('%s: %d of %d particles left' % (case['src'], len(pset), len(secs)))
    for p, s in zip(pset, secs):
        if abs(float(p.time) - end) > 1e-4:
            raise Violation('%s (%s): a particle ended at %r instead of %r (%s)' % (case['src'], cal, float(p.time), end, kw))
        if s == end:
            continue
        w = lin(T, case['v'], float(p.q))
        if abs(float(p.p) - w) > 1e-4:
            raise Violation('%s (%s): sample at model time %r is %r, expected %r' % (case['src'], cal, float(p.q), float(p.p), w))
    for k in range(0, 17, 2):
        t = span * k / 16.
        if not case['deferred'] or case['src'] in ('data', 'xarray'):
            g = float(fs.P[t, 0., .5, .5])
            if abs(g - lin(T, case['v'], t)) > 1e-4:
                raise Violation('%s (%s): P at model time %r is %r, expected %r' % (case['src'], cal, t, g, lin(T, case['v'], t)))
            if case['Q'] is not None:
                Tq = [x + case['Q'] * step for x in T]
                g = float(fs.Q[t, 0., .5, .5])
                if abs(g - lin(Tq, case['v'], t)) > 1e-4:
                    raise Violation('%s (%s): Q, which starts %d steps later, at model time %r is %r, expected %r'
                                    % (case['src'], cal, case['Q'], t, g, lin(Tq, case['v'], t)))
    if pfile is not None:
        pfile.export()
        pfile.convert_at_end = False
        with netCDF4.Dataset(os.path.join(root, 'out.nc')) as nc:
            tv = nc.variables['time']
            raw = np.ma.filled(tv[:], np.nan)
            fl = raw[np.isfinite(raw)]
            if tdaxis:
                if not tv.units.startswith('seconds') or getattr(tv, 'calendar', None) in ('np_timedelta64', 'np_datetime64') or 'since' in tv.units:
                    raise Violation('the output time axis of a fieldset without dates has units %r, calendar %r' % (tv.units, getattr(tv, 'calendar', None)))
                return {'nontrivial': True, 'labels': ['tdaxis']}
            try:
                dates = cftime.num2date(fl, tv.units, tv.calendar)
            except (ValueError, AttributeError) as e:
                raise Violation('%s (%s): the time axis of the output file (%r, calendar %r) is not readable: %s'
                                % (case['src'], cal, getattr(tv, 'units', None), getattr(tv, 'calendar', None), e))
        for s, d in zip(fl, dates):
            c = civil(cal, case['o'] + int(round(s * 1000)))
            if (d.year, d.month, d.day, d.hour, d.minute, d.second) != c[:6] and abs(s - round(s)) < 1e-6:
                raise Violation('%s (%s): output at model time %r has date %s, expected %s' % (case['src'], cal, s, d, c))
        if not any(abs(s - end) < 1e-3 for s in fl):
            raise Violation('no output at the end time %r: %s' % (end, fl))
    return {'nontrivial': True, 'labels': [case['src'], cal, rt, et, case['mode']]}


def nodate(case, fs):
    """Dates mean nothing to a fieldset without dates: they are refused."""
    when = np.datetime64('2001-02-03T04:05:06')
    for t in (when, when.astype(datetime.datetime), [when, when], cftime.DatetimeNoLeap(2001, 2, 3), np.timedelta64(5, 's')):
        try:
            n = len(t) if isinstance(t, list) else 1
            pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.5] * n, lat=[.5] * n, time=t)
        except (NotImplementedError, TypeError):
            continue
        raise Violation('a fieldset without dates accepts the release time %r as model time %r' % (t, float(pset[0].time)))
    pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.5], lat=[.5], time=[0.])
    for t in (when, when.astype(datetime.datetime), cftime.DatetimeNoLeap(2001, 2, 3)):
        try:
            pset.execute(NS['smp'], endtime=t, dt=1., verbose_progress=False)
        except (NotImplementedError, TypeError):
            continue
        raise Violation('a fieldset without dates accepts the end time %r' % (t,))
    return {'nontrivial': True, 'labels': ['nodate']}


SUBCHECKS = [Sub('converter', conv_s, run_conv, quick=800, thorough=30000, budget=40),
             Sub('run', run_s, run_run, quick=150, thorough=4000, budget=70)]
