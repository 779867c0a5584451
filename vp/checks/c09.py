"""C09: time-periodic and extrapolated fields against a reference model of the time axis."""
import linecache
import math
import os
import shutil
import tempfile
from datetime import timedelta
import numpy as np
import netCDF4
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode
from parcels.tools.statuscodes import OutOfTimeError, TimeExtrapolationError

PROPERTY = 'C09'
RULE = ('a case is two fields with their own time axes and time settings (periodic, extrapolated or neither), a loading mode and a run or a list '
        'of sampling times; non-trivial = a sample was taken outside the time range of a periodic or extrapolated field, or between two of its snapshots')
ASSUMPTIONS = ['times are dyadic multiples of the snapshot interval', 'in deferred mode fields are sampled at the time of the particle (and one step ahead)']
NV = 16
SRC = '''def smp(particle, fieldset, time):
    p0 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    q0 = fieldset.Q[time, particle.depth, particle.lat, particle.lon]
    p1 = fieldset.P[time + particle.ahead * particle.dt, particle.depth, particle.lat, particle.lon]
''' + ''.join('    %s particle.n == %d:\n        particle.t%d = time\n        particle.p%d = p0\n        particle.q%d = q0\n        particle.r%d = p1\n'
              % ('if' if i == 0 else 'elif', i, i, i, i, i) for i in range(NV)) + '    particle.n += 1\n'
SRC1 = '''def one(particle, fieldset, time):
    particle.p0 = fieldset.P[particle.ahead, particle.depth, particle.lat, particle.lon]
    particle.q0 = fieldset.Q[particle.ahead, particle.depth, particle.lat, particle.lon]
    (u, v) = fieldset.UV[particle.ahead, particle.depth, particle.lat, particle.lon]
    particle.r0 = u
'''
SRC3 = SRC1.replace('(u, v) = fieldset.UV[', '(u, v, w) = fieldset.UVW[').replace('one(', 'one3(')


def function(src, name):
    fn = '<vp_c09_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN, ONE, ONE3 = function(SRC, 'smp'), function(SRC1, 'one'), function(SRC3, 'one3')


def mkclass(base):
    d = {'n': Variable('n', dtype=np.int32, initial=0.), 'ahead': Variable('ahead', dtype=np.float64, initial=0.),
         'bad': Variable('bad', dtype=np.int32, initial=0)}
    for i in range(NV):
        for v in 'tpqr':
            d[v + str(i)] = Variable(v + str(i), dtype=np.float64, initial=0.)
    return type('C09' + base.__name__, (base,), d)


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}


@st.composite
def taxis(draw, extr=('per', 'per', 'pergap', 'extrap', 'none')):
    n = draw(st.integers(1, 5))
    gaps = [draw(st.sampled_from([2, 2, 4, 1, 6])) for _ in range(n)]
    t0 = draw(st.sampled_from([0, 0, 3, -4, 10]))
    kind = draw(st.sampled_from(extr))
    if n == 1 and kind == 'per':
        kind = 'pergap'
    T = [t0]
    for x in gaps[:n - 1]:
        T.append(T[-1] + x)
    return {'T': T, 'kind': kind, 'period': (T[-1] - T[0]) if kind == 'per' else (T[-1] - T[0] + gaps[-1] if kind == 'pergap' else None),
            'v': [draw(st.integers(-20, 20)) for _ in range(n)], 'td': draw(st.booleans())}


@st.composite
def mem_s(draw):
    return {'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'unit': draw(st.sampled_from([1., 3600., 86400., 0.5])),
            'f': [draw(taxis()), draw(taxis())], 't': draw(st.lists(st.integers(-120, 120).map(lambda k: k / 4), min_size=1, max_size=8)),
            'vec': draw(st.sampled_from(['2a', '2c', '3c', '3a'])), 'how': draw(st.sampled_from(['data', 'field']))}


@st.composite
def file_s(draw):
    mode = draw(st.sampled_from(['jit', 'jit', 'scipy']))
    fs = []
    for _ in range(2):
        a = draw(taxis(('per', 'per', 'pergap', 'pergap', 'extrap', 'none')))
        n = len(a['T'])
        # number of snapshots in each file
        left, sizes = n, []
        while left:
            k = draw(st.integers(1, left))
            sizes.append(k)
            left -= k
        a['files'] = sizes
        a['defer'] = draw(st.sampled_from([True, True, True, False]))
        fs.append(a)
    dt = draw(st.sampled_from([1, 1, .5, 2]))
    execs = []
    left = NV - 1
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        k = draw(st.integers(1, 12))
        if k > left:
            break
        left -= k
        execs.append([k, draw(st.sampled_from([1, 1, -1])), draw(st.sampled_from([None, None, None, 1, -3, 40]))])
    return {'mode': mode, 'unit': draw(st.sampled_from([1., 3600., 86400.])), 'f': fs, 'dt': dt, 'execs': execs or [[3, 1, None]],
            'same': draw(st.booleans()), 'dates': draw(st.sampled_from(['', '', 'standard', 'noleap', '360_day'])), 'ahead': draw(st.sampled_from([0, 0, 1])), 'start': draw(st.one_of(st.integers(-40, 60), st.sampled_from(fs[0]['T'])))}


def ref(a, t, unit):
    """admissible values at model time t (seconds); None means an error is required"""
    T = [x * unit for x in a['T']]
    v = list(a['v'])
    n = len(T)
    if a['kind'] in ('per', 'pergap'):
        per = a['period'] * unit
        if a['kind'] == 'pergap':
            T = T + [T[0] + per]
            v = v + [v[0]]
        k = math.floor((t - T[0]) / per)
        tau = t - k * per
        res = [lin(T, v, tau)]
        if abs(tau - T[0]) < 1e-9 * per:
            res.append(v[-1])
        return res
    if t < T[0] or t > T[-1]:
        if n == 1 or a['kind'] == 'extrap':
            return [v[0] if t < T[0] else v[-1]]
        return None
    return [lin(T, v, t)]


def lin(T, v, t):
    if t >= T[-1]:
        return v[-1]
    for i in range(len(T) - 1):
        if T[i] <= t < T[i + 1]:
            return v[i] + (v[i + 1] - v[i]) * (t - T[i]) / (T[i + 1] - T[i])
    return v[0]


def kw(a, unit):
    k = {}
    if a['kind'] in ('per', 'pergap'):
        per = a['period'] * unit
        k['time_periodic'] = timedelta(seconds=per) if a['td'] else per
    elif a['kind'] == 'extrap':
        k['allow_time_extrapolation'] = True
    else:
        k['allow_time_extrapolation'] = len(a['T']) == 1
    return k


def chk(got, exp, what):
    if not any(abs(got - e) <= 2e-5 * (1 + abs(e)) for e in exp):
        raise Violation('%s: sampled %r, expected %r' % (what, got, exp))


def uv(a, unit, vec):
    ax = np.array([0., 1.])
    T = np.array(a['T'], dtype=np.float64) * unit
    d = np.zeros((len(T), 2, 2, 2) if vec[0] == '3' else (len(T), 2, 2), dtype=np.float32)
    u = d + np.array(a['v'], dtype=np.float32).reshape((-1,) + (1,) * (d.ndim - 1))
    f = [Field(n, u if n == 'U' else d.copy(), lon=ax, lat=ax, depth=ax if vec[0] == '3' else None, time=T, mesh='flat',
               interp_method='cgrid_velocity' if vec[1] == 'c' else 'linear', **kw(a, unit)) for n in 'UVW'[:int(vec[0])]]
    fs = FieldSet(f[0], f[1])
    for x in f[2:]:
        fs.add_field(x)
    return fs


def nontriv(a, ts, unit):
    for t in ts:
        if t / unit not in a['T']:
            return True
    return False


def run_mem(case):
    unit = case['unit']
    fs = uv(case['f'][0], unit, case['vec'])
    kern = ONE3 if case['vec'][0] == '3' else ONE
    ext = {}
    for name, a, w in zip('PQ', case['f'], (2, 3)):
        n = len(a['T'])
        d = np.zeros((n, w, w), dtype=np.float32) + np.array(a['v'], dtype=np.float32)[:, None, None]
        T = np.array(a['T'], dtype=np.float64) * unit
        ax = np.linspace(0., 1., w)
        if case['how'] == 'field':
            fs.add_field(Field(name, d, lon=ax, lat=ax, time=T, mesh='flat', **kw(a, unit)))
        else:
            sub = FieldSet.from_data({name: d}, {'lon': ax, 'lat': ax, 'time': T}, mesh='flat', **kw(a, unit))
            fs.add_field(getattr(sub, name))
    ts = [t * unit for t in case['t']]
    nt = False
    both, errs = [], []
    for t in ts:
        e = [ref(a, t, unit) for a in case['f']]
        (errs if None in e else both).append((t, e))
        for name, a, x in zip('PQ', case['f'], e):
            f = getattr(fs, name)
            try:
                got = float(f[t, 0., .25, .25])
            except TimeExtrapolationError:
                got = None
            if (got is None) != (x is None):
                raise Violation('Field %s (%s) at t=%r: value %r, expected %r' % (name, a, t, got, x))
            if x is not None:
                chk(got, x, 'Field %s (%s)[%r]' % (name, a, t))
                nt = nt or nontriv(a, [t], unit)
    if both:
        pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.25] * len(both), lat=[.25] * len(both), time=[0.] * len(both), ahead=[t for t, _ in both],
                           lonlatdepth_dtype=np.float64)
        pset.execute(kern, runtime=0, dt=0., verbose_progress=False)
        for p, (t, e) in zip(pset, both):
            chk(float(p.p0), e[0], '%s: P (%s) at %r' % (case['mode'], case['f'][0], t))
            chk(float(p.r0), e[0], '%s: %s velocity (%s) at %r' % (case['mode'], case['vec'], case['f'][0], t))
            chk(float(p.q0), e[1], '%s: Q (%s) at %r' % (case['mode'], case['f'][1], t))
    for t, e in errs[:2]:
        pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.25], lat=[.25], time=[0.], ahead=[t])
        try:
            pset.execute(kern, runtime=0, dt=0., verbose_progress=False)
        except OutOfTimeError:
            continue
        raise Violation('%s: no time extrapolation error at %r (%s)' % (case['mode'], t, case['f']))
    return {'nontrivial': nt, 'labels': [case['mode'], case['f'][0]['kind'], case['f'][1]['kind']]}


def write(root, name, a, unit, w, dates):
    files, k = [], 0
    ax = np.linspace(0., 1., w)
    for i, s in enumerate(a['files']):
        fn = os.path.join(root, '%s%02d.nc' % (name, i))
        with netCDF4.Dataset(fn, 'w') as nc:
            for d, m in (('x', w), ('y', w), ('t', None)):
                nc.createDimension(d, m)
            for d in 'xy':
                nc.createVariable(d, 'f4', (d,))[:] = ax
            tv = nc.createVariable('t', 'f8', ('t',))
            if dates:
                tv.units = 'seconds since 2001-02-27 12:00:00'
                tv.calendar = dates
            tv[:] = np.array(a['T'][k:k + s]) * unit
            var = nc.createVariable('d', 'f4', ('t', 'y', 'x'))
            nc.createVariable('z', 'f4', ('t', 'y', 'x'))[:] = 0.
            var[:] = np.zeros((s, w, w), dtype=np.float32) + np.array(a['v'][k:k + s], dtype=np.float32)[:, None, None]
        files.append(fn)
        k += s
    return files


def run_file(case):
    root = tempfile.mkdtemp(prefix='c09_')
    try:
        return _run_file(case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run_file(case, root):
    unit = case['unit']
    fl = list(case['f'])
    t0 = fl[0]['T'][0] * unit      # model time is relative to the first snapshot of the first field
    dims = {'lon': 'x', 'lat': 'y', 'time': 't'}
    if case['same']:
        # both variables on the same grid object
        fl[1] = fl[0]
    files = write(root, 'P', fl[0], unit, 3, case['dates'])
    names = {'P': 'd', 'Q': 'd', 'U': 'z', 'V': 'z'}
    if not case['same']:
        names.pop('Q')
    fs = FieldSet.from_netcdf({n: files for n in names}, names, dims, mesh='flat', deferred_load=fl[0]['defer'], **kw(fl[0], unit))
    if not case['same']:
        files = write(root, 'Q', fl[1], unit, 2, case['dates'])
        fs.add_field(FieldSet.from_netcdf({'Q': files}, {'Q': 'd'}, dims, mesh='flat', deferred_load=fl[1]['defer'], **kw(fl[1], unit)).Q)

    def ref_(a, t):
        return ref(a, t + t0, unit)
    pset = None
    dt = case['dt'] * unit
    t = case['start'] * unit - t0
    exp = []
    err = False
    for k, sgn, jump in case['execs']:
        if jump is not None and pset is not None:
            t += jump * unit
            for p in pset:
                p.time = t
        start = t
        steps = []
        nprev = int(pset[0].n) if pset is not None and len(pset) else 0
        for i in range(k):
            e = [ref_(a, t) for a in fl] + [ref_(fl[0], t + case['ahead'] * sgn * dt)]
            steps.append((t, e))
            if None in e:
                err = True
                break
            t += sgn * dt
        if pset is None:
            pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[.25], lat=[.25], time=[start], ahead=[case['ahead']], lonlatdepth_dtype=np.float64)
        bad = [0]

        def stop(particle, fieldset, time):
            bad[0] += 1
            particle.delete()
        try:
            pset.execute(KERN, runtime=k * dt, dt=sgn * dt, verbose_progress=False, recovery={ErrorCode.ErrorTimeExtrapolation: stop})
            got_err = bad[0] > 0
        except TimeExtrapolationError:
            got_err = True
        if err:
            if not got_err:
                raise Violation('no time extrapolation error in a run from %r, dt=%r: %r (%s)' % (start, sgn * dt, steps[-1], fl))
            return {'nontrivial': len(exp) > 0, 'labels': [case['mode'], 'error']}
        if got_err:
            # an execution that needs the next snapshots after the end of the data is refused as well
            last = steps[-1][0] + sgn * dt
            if any(ref_(a, last) is None or (a['defer'] and ref_(a, last + sgn * 1e-3 * unit) is None) for a in fl):
                return {'nontrivial': False, 'labels': ['refused']}
            raise Violation('time extrapolation error in a run from %r to %r although all fields can be sampled (%s)' % (start, last, fl))
        exp += steps
        p = pset[0]
        got = [[float(getattr(p, v + str(i))) for v in 'tpqr'] for i in range(min(NV, int(p.n)))]
        # a step is split at the time at which a snapshot has to be loaded: any step may be shorter, none may be left out
        gt = [g[0] for g in got] + [t]
        if len(got) < NV and any(not 0 < sgn * (y - x) <= dt for (x, y) in list(zip(gt, gt[1:]))[nprev:]):
            raise Violation('kernel was called at %r, expected %r' % ([g[0] for g in got], [s[0] for s in exp]))
        for i, g in enumerate(got):
            tt = g[0]
            what = '%s (%s) t=%r run %s: ' % (case['mode'], fl, tt, case['execs'])
            chk(g[1], ref_(fl[0], tt), what + 'P')
            chk(g[2], ref_(fl[1], tt), what + 'Q')
            if i >= nprev and case['ahead'] and i + 1 < len(got) and abs(got[i + 1][0] - tt) == dt:
                chk(g[3], ref_(fl[0], got[i + 1][0]), what + 'P ahead')
    ts = [s[0] + t0 for s in exp]
    return {'nontrivial': nontriv(fl[0], ts, unit), 'labels': [case['mode'], fl[0]['kind'], 'deferred' if fl[0]['defer'] else 'loaded']}


SUBCHECKS = [Sub('memory', mem_s, run_mem, quick=500, thorough=15000, budget=60),
             Sub('file', file_s, run_file, quick=220, thorough=6000, budget=90)]
