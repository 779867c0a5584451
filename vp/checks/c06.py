"""C06: the stepping schedule of execute(), against a schedule model."""
import linecache
import math
from datetime import timedelta
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, OperationCode)  # noqa: F401

PROPERTY = 'C06'
RULE = ('a case is a set of particles with own start times and a sequence of 1-3 executions (time step, runtime or end time, output '
        'interval, callback interval, direction); every kernel call is recorded by the kernel itself; '
        'non-trivial = at least one particle made at least three steps')
ASSUMPTIONS = ['at most 30 recorded steps per particle and case; time steps between 0.05 s and 1 day',
               'steps shorter than 1e-6 s (left over from floating-point summation of the time) are not counted']
NREC = 30

SRC = ['def record(particle, fieldset, time):']
for i in range(NREC):
    SRC.append('    %s particle.n == %d:' % ('if' if i == 0 else 'elif', i))
    SRC.append('        particle.t%d = time' % i)
    SRC.append('        particle.d%d = particle.dt' % i)
SRC += ['    particle.n += 1', '    particle.lon += particle.dt']
SRC = '\n'.join(SRC) + '\n'

VSRC = ['def vary(particle, fieldset, time):']
for i in range(NREC):
    VSRC.append('    %s particle.n == %d:' % ('if' if i == 0 else 'elif', i))
    VSRC.append('        particle.t%d = time' % i)
    VSRC.append('        particle.d%d = particle.dt' % i)
VSRC += ['    if math.fabs(particle.dt) > particle.lim and particle.n < 25:',
         '        particle.dt /= 2',
         '        return OperationCode.Repeat',
         '    particle.n += 1',
         '    if particle.n == particle.grow:',
         '        particle.update_next_dt(particle.dt * 4)']
VSRC = '\n'.join(VSRC) + '\n'


def function(src, name):
    fn = '<vp_c06_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'OperationCode': OperationCode}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN = function(SRC, 'record')
VKERN = function(VSRC, 'vary')


def mkclass(base):
    d = {'n': Variable('n', dtype=np.int32, initial=0.), 'lim': Variable('lim', dtype=np.float64, initial=1e9),
         'grow': Variable('grow', dtype=np.int32, initial=-1.)}
    for i in range(NREC):
        d['t%d' % i] = Variable('t%d' % i, dtype=np.float64, initial=0., to_write=False)
        d['d%d' % i] = Variable('d%d' % i, dtype=np.float64, initial=0., to_write=False)
    return type('Rec' + base.__name__, (base,), d)


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}


def fset(tdim):
    lon = np.array([-1e7, 0., 1e7])
    z = np.zeros((tdim, 2, 3), dtype=np.float32) if tdim > 1 else np.zeros((2, 3), dtype=np.float32)
    dims = {'lon': lon, 'lat': np.array([0., 1.])}
    if tdim > 1:
        dims['time'] = np.linspace(0, 100, tdim)
    return FieldSet.from_data({'U': z, 'V': z}, dims, mesh='flat', allow_time_extrapolation=True)


DTS = [1., 2., 3., 0.5, 0.25, 0.1, 0.3, 0.7, 5., 60., 7., 86400.]


@st.composite
def case_s(draw, vary=False):
    tdim = draw(st.sampled_from([1, 1, 3]))
    base = draw(st.sampled_from([0., 0., 10., -25., 1234.5, 50., 1e5]))
    dt0 = draw(st.sampled_from(DTS))
    np_ = draw(st.integers(1, 4))
    starts = []
    for _ in range(np_):
        k = draw(st.sampled_from(['base', 'base', 'multiple', 'any', 'none']))
        if k == 'base':
            starts.append(base)
        elif k == 'multiple':
            starts.append(base + draw(st.integers(-4, 6)) * dt0)
        elif k == 'any':
            starts.append(base + round(draw(st.floats(-4, 6)) * dt0, 2))
        else:
            starts.append(None)
    if base > 1000 or dt0 > 100 or base < 0:
        starts = [base if s is None else s for s in starts]
    if any(s is None for s in starts):
        starts = [None if s is None else float(s) for s in starts]
        # default release times are 0 (forward) or the end of the time axis (backward)
        starts = [s if s is None or abs(s) < 20 * dt0 + 120 else 0. for s in starts]
    execs = []
    nex = draw(st.sampled_from([1, 1, 2, 3]))
    total = 0.
    for _ in range(nex):
        kind = draw(st.sampled_from(['run', 'run', 'run', 'run', 'end', 'zero_run', 'zero_dt']))
        sgn = draw(st.sampled_from([1, 1, 1, -1]))
        dt = draw(st.sampled_from([dt0, dt0, dt0, dt0 / 2, dt0 * 2]))
        nst = draw(st.integers(1, 7))
        length = draw(st.sampled_from([nst * dt, nst * dt, (nst + 0.5) * dt, round((nst + draw(st.floats(0, 1))) * dt, 3)]))
        out = draw(st.sampled_from([None, None, dt, 2 * dt, 3 * dt, 1.5 * dt, 2.5 * dt, round(draw(st.floats(.4, 5)) * dt, 2), length]))
        cb = draw(st.sampled_from([None, None, None, 2 * dt, 1.5 * dt]))
        execs.append({'kind': kind, 'dt': sgn * dt, 'len': length, 'out': out, 'cb': cb, 'td': draw(st.booleans())})
    c = {'tdim': tdim, 'starts': starts, 'execs': execs, 'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'vary': vary}
    if vary:
        c['lim'] = [draw(st.sampled_from([1e9, dt0 * 1.3, dt0 * .6, dt0 * .35, dt0 * .28])) for _ in starts]
        c['grow'] = [draw(st.sampled_from([-1, 1, 2, 5])) for _ in starts]
    return c


def mult(t0, step, sgn, end):
    out, k = [], 1
    while len(out) < 4000:
        t = t0 + sgn * k * step
        if sgn * (t - end) >= -1e-9:
            break
        out.append(t)
        k += 1
    return out


EPS = 1e-6


class Short(Exception):
    pass


def model(case):
    """Returns per particle the list of (time, dt) kernel calls, final times, number of callbacks per execution."""
    tmax = 100. if case['tdim'] > 1 else 0.
    tm = list(case['starts'])
    calls = [[] for _ in tm]
    lim = case.get('lim') or [1e9] * len(tm)
    grow = case.get('grow') or [-1] * len(tm)
    cbs = []
    for ex in case['execs']:
        dt = ex['dt']
        if ex['kind'] == 'zero_dt':
            dt = 0.
        tm = [(0. if dt >= 0 else tmax) if t is None else t for t in tm]
        start = min(tm) if dt >= 0 else max(tm)
        sgn = -1 if dt < 0 else 1
        end = start + sgn * ex['len']
        if ex['kind'] == 'zero_run':
            end = start
        if ex['kind'] in ('zero_dt', 'zero_run') or abs(end - start) < 1e-5:
            for i, t in enumerate(tm):
                if case['vary'] and 0 > lim[i]:
                    raise Short
                calls[i].append((t, 0.))
                if case['vary'] and len(calls[i]) == grow[i]:
                    pass
            cbs.append(None)
            continue
        bps = set([end])
        if ex['out']:
            bps |= set(mult(start, ex['out'], sgn, end))
        cb = ex['cb'] or ex['out']
        if cb:
            m = mult(start, cb, sgn, end)
            bps |= set(m)
            # a callback falling on the end time may be missed by rounding
            cbs.append((len(m), len(m) + (abs((m[-1] if m else start) + sgn * cb - end) <= 1e-6)))
        else:
            cbs.append(None)
        bps = sorted(bps, reverse=sgn < 0)
        for i in range(len(tm)):
            cur = abs(dt)
            for b in bps:
                while sgn * (b - tm[i]) > EPS:
                    h = min(cur, sgn * (b - tm[i]))
                    if case['vary']:
                        # a smaller step is retried and stays in force until the kernel asks for another one
                        while True:
                            if abs(h - lim[i]) < 1e-6 * h:
                                raise Short
                            if not (h > lim[i] and len(calls[i]) < 25):
                                break
                            h = h / 2
                            cur = h
                    calls[i].append((tm[i], sgn * h))
                    tm[i] += sgn * h
                    if case['vary'] and len(calls[i]) == grow[i]:
                        cur = 4 * h
                    if len(calls[i]) > 200:
                        raise Short
    return calls, tm, cbs


def run(case):
    try:
        calls, tm, cbs = model(case)
    except Short:
        return {'nontrivial': False, 'labels': ['not judged']}
    if max(len(c) for c in calls) > NREC:
        return {'nontrivial': False, 'labels': ['too many steps']}
    fs = fset(case['tdim'])
    starts = case['starts']
    n = len(starts)
    kw = {}
    if case['vary']:
        kw = {'lim': case['lim'], 'grow': case['grow']}
    kern = VKERN if case['vary'] else KERN
    pset = ParticleSet(fs, pclass=PC[case['mode']], lon=np.zeros(n), lat=np.zeros(n), lonlatdepth_dtype=np.float64,
                       time=[np.nan if s is None else s for s in starts], **kw)
    labels = [case['mode']]
    for ex, cb in zip(case['execs'], cbs):
        dt = 0. if ex['kind'] == 'zero_dt' else ex['dt']
        length = 0. if ex['kind'] == 'zero_run' else ex['len']
        kw = {}
        td = (lambda x: timedelta(seconds=x)) if ex['td'] else (lambda x: x)
        if ex['kind'] == 'end':
            ts = [(0. if dt >= 0 else (100. if case['tdim'] > 1 else 0.)) if np.isnan(t) else float(t) for t in pset.time]
            kw['endtime'] = min(ts) + length if dt >= 0 else max(ts) - length
        else:
            kw['runtime'] = td(length)
        count = [0]
        of = None
        if ex['out']:
            of = pset.ParticleFile(name='c06out.nc', outputdt=td(ex['out']))
        if ex['cb']:
            kw['callbackdt'] = td(ex['cb'])
        kw['postIterationCallbacks'] = [lambda: count.__setitem__(0, count[0] + 1)]
        try:
            pset.execute(kern, dt=td(dt), output_file=of, verbose_progress=False, **kw)
        finally:
            if of is not None:
                import shutil
                shutil.rmtree(of.tempwritedir_base, ignore_errors=True)
        if cb is not None and count[0] not in cb:
            raise Violation('callbacks called %d times, expected %r in %r' % (count[0], cb, ex))
        labels.append(ex['kind'] + (' backward' if dt < 0 else ''))
    for i in range(n):
        p = pset[i]
        k = int(p.n)
        got = [(float(getattr(p, 't%d' % j)), float(getattr(p, 'd%d' % j))) for j in range(min(k, NREC))]
        if k > NREC:
            raise Violation('particle %d (start %r): kernel called %d times, expected %r' % (i, starts[i], k, calls[i]))
        got = [g for g in got if abs(g[1]) > EPS or g[1] == 0]
        exp = calls[i]
        if len(got) != len(exp) or any(abs(a[0] - b[0]) > EPS * 10 or abs(a[1] - b[1]) > EPS * 10 for a, b in zip(got, exp)):
            raise Violation('particle %d (start %r, %s): kernel called with (time, dt) = %r, expected %r' % (i, starts[i], case['mode'], got, exp))
        if abs(float(p.time) - tm[i]) > EPS * 10:
            raise Violation('particle %d ends at time %r, expected %r' % (i, float(p.time), tm[i]))
        if not case['vary'] and abs(float(p.lon) - sum(c[1] for c in calls[i])) > 1e-4:
            raise Violation('particle %d displacement %r is not the sum of its steps %r' % (i, float(p.lon), calls[i]))
    return {'nontrivial': max(len(c) for c in calls) >= 3, 'labels': labels}


SUBCHECKS = [Sub('schedule', case_s, run, quick=400, thorough=9000, budget=50),
             Sub('adaptive', lambda: case_s(True), run, quick=150, thorough=4000, budget=25)]
