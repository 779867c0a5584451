"""C14: scripted failures and deletions against a per-particle model."""
import linecache
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, OperationCode, ErrorCode, StateCode)  # noqa: F401
from parcels.tools.statuscodes import KernelError, OutOfBoundsError, ThroughSurfaceError, OutOfTimeError

PROPERTY = 'C14'
RULE = ('a case is up to 7 particles, each with up to two scripted failures or deletions (kind and step), own start time and optional step-size '
        'request, a recovery mapping and 1-3 executions; non-trivial = at least one particle failed or was deleted while another one '
        'finished, or an unrecovered error was raised')
ASSUMPTIONS = ['start times are multiples of the time step', 'the failing step changes nothing else before it fails or is deleted']

# failure kinds: 1 delete, 2 out of bounds, 3 through the surface, 4 outside the time range, 5 returned error, 6 returned out of bounds,
# 7 python/C error code through the surface, 8 time error code
SRC = '''def faulty(particle, fieldset, time):
    particle.n += 1
    particle.s = particle.s + particle.a * particle.n
    particle.lon += 0.0625
    particle.depth += 0.03125
    if particle.n == particle.un:
        particle.update_next_dt(particle.dt / 2)
    if particle.n == particle.fs:
        if particle.fk == 1:
            particle.delete()
        elif particle.fk == 2:
            tmp = fieldset.P[time, particle.depth, particle.lat, particle.lon + 1000.]
        elif particle.fk == 3:
            tmp = fieldset.P[time, particle.depth - 500., particle.lat, particle.lon]
        elif particle.fk == 4:
            tmp = fieldset.P[time + 1000000., particle.depth, particle.lat, particle.lon]
        elif particle.fk == 5:
            return ErrorCode.Error
        elif particle.fk == 6:
            return ErrorCode.ErrorOutOfBounds
        elif particle.fk == 7:
            return ErrorCode.ErrorThroughSurface
        elif particle.fk == 8:
            return ErrorCode.ErrorTimeExtrapolation
    tmp2 = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.lat += tmp2 * 0.25
'''
KIND = {2: 'oob', 3: 'surf', 4: 'time', 5: 'err', 6: 'oob', 7: 'surf', 8: 'time'}
CODE = {'oob': ErrorCode.ErrorOutOfBounds, 'surf': ErrorCode.ErrorThroughSurface, 'time': ErrorCode.ErrorTimeExtrapolation,
        'err': ErrorCode.Error}
EXC = {'oob': OutOfBoundsError, 'surf': ThroughSurfaceError, 'time': OutOfTimeError, 'err': KernelError}


def function(src, name):
    fn = '<vp_c14_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'OperationCode': OperationCode, 'ErrorCode': ErrorCode}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN = function(SRC, 'faulty')


def mkclass(base):
    d = {'n': Variable('n', dtype=np.int32, initial=0., to_write='once')}
    for v in ('fs', 'fk', 'fs2', 'fk2', 'un', 'rec'):
        d[v] = Variable(v, dtype=np.int32, initial=-1. if v != 'rec' else 0.)
    for v in ('s', 'a'):
        d[v] = Variable(v, dtype=np.float64, initial=0., to_write=v != 's')
    return type('C14' + base.__name__, (base,), d)


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}
FS = []


def fieldset():
    if not FS:
        one = np.ones((2, 2, 2, 3), dtype=np.float32)
        dims = {'lon': np.array([-50., 0., 50.]), 'lat': np.array([-500., 500.]), 'depth': np.array([0., 10.]), 'time': np.array([-5e5, 5e5])}
        FS.append(FieldSet.from_data({'U': 0 * one, 'V': 0 * one, 'P': one}, dims, mesh='flat', allow_time_extrapolation=False))
    return FS[0]


@st.composite
def case_s(draw):
    n = draw(st.integers(1, 7))
    dt = draw(st.sampled_from([1., 2., 0.5, 60.]))
    sgn = draw(st.sampled_from([1, 1, -1]))
    parts = []
    for _ in range(n):
        kinds = st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8])
        k1, k2 = draw(kinds), draw(kinds)
        f1 = draw(st.integers(1, 6))
        parts.append({'t0': draw(st.sampled_from([0, 0, 0, 1, 2, 5])), 'fs': f1 if k1 else -1, 'fk': k1,
                      'fs2': f1 + draw(st.integers(0, 4)) if k1 and k2 else -1, 'fk2': k2, 'a': draw(st.integers(-5, 5)),
                      'un': draw(st.sampled_from([-1, -1, -1, 1, 2, 3, f1]))})
    rec = {}
    for k in CODE:
        r = draw(st.sampled_from(['delete', 'fix', 'fix', 'fixmove', 'retry', 'none']))
        if r != 'none' or draw(st.sampled_from([True, False, False])):
            rec[k] = r
        else:
            rec[k] = 'fix'
    execs = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        execs.append({'steps': draw(st.sampled_from([0, 2, 3, 5, 6])), 'cb': draw(st.sampled_from([None, None, 1, 2, 3, 1.5])),
                      'zdt': draw(st.booleans())})
    return {'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'dt': dt, 'sgn': sgn, 'parts': parts, 'rec': rec, 'execs': execs}


class Raised(Exception):
    pass


def recover(p, action):
    """Same effect on a model particle and on a real one."""
    if action == 'delete':
        p.delete()
        return
    if action == 'retry':
        p.rec += 1
        if p.rec % 3 != 0:
            return
    else:
        p.rec += 1
    p.fs = p.fs2
    p.fk = p.fk2
    p.fs2 = -1
    if action == 'fixmove':
        p.a += 1
        p.lat += 3.


class MP:
    def __init__(self, i, d, dt, sgn):
        self.i = i
        self.time = sgn * d['t0'] * dt
        self.n = self.rec = 0
        self.s, self.lat = 0., 0.
        self.fs, self.fk, self.fs2, self.fk2, self.a, self.un = d['fs'], d['fk'], d['fs2'], d['fk2'], float(d['a']), d['un']
        self.dead = False

    def delete(self):
        self.dead = True


def model(case):
    dt, sgn = case['dt'], case['sgn']
    ps = [MP(i, d, dt, sgn) for i, d in enumerate(case['parts'])]
    log, failed, rounds = [], set(), 0
    rec = dict(case['rec'])
    if 'oob' in rec and rec.get('surf') == 'none' and rec['oob'] != 'none':
        rec['surf'] = rec['oob']
    for ex in case['execs']:
        live = [p for p in ps if not p.dead]
        if not live:
            break
        start = min(p.time for p in live) if sgn > 0 else max(p.time for p in live)
        end = start + sgn * dt * ex['steps']
        zero = ex['steps'] == 0
        bps = [end]
        if ex['cb'] and not zero:
            k = 1
            while sgn * (start + sgn * k * ex['cb'] * dt - end) < -1e-9:
                bps.append(start + sgn * k * ex['cb'] * dt)
                k += 1
            bps.sort(reverse=sgn < 0)
        for p in live:
            p.cur = dt
            p.done = False
        for b in bps:
            for p in live:
                p.done = False
            while True:
                errs = []
                for p in live:
                    if p.dead or p.done:
                        continue
                    while (sgn * (b - p.time) > 1e-9) or zero:
                        h = 0. if zero else min(p.cur, abs(b - p.time))
                        n = p.n + 1
                        if n == p.fs and p.fk > 1:
                            errs.append(p)
                            p.err = KIND[p.fk]
                            failed.add(p.i)
                            break
                        p.n = n
                        p.s += p.a * n
                        if n == p.un:
                            p.cur = h / 2
                        p.lat += 0.25
                        if n == p.fs and p.fk == 1:
                            p.dead = True
                            failed.add(p.i)
                            break
                        p.time += sgn * h
                        if zero:
                            p.done = True
                            break
                    else:
                        p.done = True
                if not errs:
                    break
                for p in errs:
                    act = rec.get(p.err, 'none')
                    if act == 'none':
                        return ps, log, failed, p.err
                    log.append((p.i, p.err, p.time, p.n))
                    recover(p, act)
                rounds += 1
                if rounds > 300:
                    raise Raised
    return ps, log, failed, None


def run(case):
    ps, log, failed, err = model(case)
    dt, sgn = case['dt'], case['sgn']
    parts = case['parts']
    n = len(parts)
    pset = ParticleSet(fieldset(), pclass=PC[case['mode']], lon=np.zeros(n), lat=np.zeros(n), depth=np.zeros(n) + 5., lonlatdepth_dtype=np.float64,
                       time=[sgn * d['t0'] * dt for d in parts], **{v: [d[v] for d in parts] for v in ('fs', 'fk', 'fs2', 'fk2', 'un', 'a')})
    ids = {int(p.id): i for i, p in enumerate(pset)}
    glog = []
    recovery = {}

    def mk(kind, act):
        def r(particle, fieldset, time):
            glog.append((ids[int(particle.id)], kind, float(particle.time), int(particle.n)))
            if float(time) != float(particle.time):
                raise Violation('recovery called with time %r for a particle at %r' % (time, particle.time))
            recover(particle, act)
        return r
    for kind, act in case['rec'].items():
        if act != 'none':
            recovery[CODE[kind]] = mk(kind, act)
    if 'oob' in case['rec'] and case['rec'].get('surf', 'none') == 'none' and case['rec']['oob'] != 'none':
        # documented: the out-of-bounds action is used when there is none for the surface
        log = [(i, 'oob' if k == 'surf' else k, t, m) for i, k, t, m in log]
    keys = dict(recovery)
    raised = None
    for ex in case['execs']:
        if len(pset) == 0:
            break
        try:
            kw = {'runtime': dt * ex['steps'], 'dt': sgn * dt}
            if ex['steps'] == 0 and ex['zdt']:
                kw = {'runtime': dt, 'dt': 0.}
            if ex['cb'] and ex['steps']:
                kw['callbackdt'] = ex['cb'] * dt
            pset.execute(KERN, recovery=recovery, verbose_progress=False, **kw)
        except KernelError as e:
            raised = e
            break
        finally:
            if recovery != keys:
                raise Violation('execute() changed the recovery dictionary given by the user: %r' % (set(recovery) - set(keys)))
    if err is not None:
        if type(raised) is not EXC[err]:
            raise Violation('a particle had an unrecovered error of kind %s, but execute raised %r' % (err, raised))
        return {'nontrivial': True, 'labels': [case['mode'], 'raised ' + err]}
    if raised is not None:
        raise Violation('execute raised %r although every error had a recovery' % raised)
    for i in range(n):
        a = [x[1:] for x in glog if x[0] == i]
        b = [x[1:] for x in log if x[0] == i]
        if len(a) != len(b) or any(x[0] != y[0] or abs(x[1] - y[1]) > 1e-6 or x[2] != y[2] for x, y in zip(a, b)):
            raise Violation('particle %d: recovery calls (kind, time, n) %r, expected %r' % (i, a, b))
    got = {ids[int(p.id)]: p for p in pset}
    exp = {p.i: p for p in ps if not p.dead}
    if [ids[int(p.id)] for p in pset] != sorted(exp):
        raise Violation('surviving particles %r, expected %r' % (sorted(got), sorted(exp)))
    for i, p in exp.items():
        g = got[i]
        p.lon, p.depth = p.n * .0625, 5 + p.n * .03125
        for v, tol in (('n', 0), ('rec', 0), ('s', 0), ('lat', 1e-9), ('lon', 0), ('depth', 0), ('time', 1e-6), ('a', 0)):
            if abs(float(getattr(g, v)) - getattr(p, v)) > tol:
                raise Violation('particle %d (%s): %s = %r, expected %r' % (i, case['mode'], v, float(getattr(g, v)), getattr(p, v)))
    labels = [case['mode']] + sorted({'%s %s' % (x[1], case['rec'].get(x[1])) for x in log})
    return {'nontrivial': bool(failed) and len(failed) < n, 'labels': labels}


SUBCHECKS = [Sub('faults', case_s, run, quick=900, thorough=20000, budget=60)]
