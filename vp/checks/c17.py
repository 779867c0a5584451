"""C17: repeated release against a schedule model."""
import linecache
import math
import os
import shutil
import tempfile
from datetime import timedelta
from operator import attrgetter
import numpy as np
import netCDF4
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable

PROPERTY = 'C17'
RULE = ('a case is a release set with a repeat interval and 1-4 executions (forward or backward, any step, output interval, with other particles '
        'added or removed in between); every particle records its state at its first kernel call; non-trivial = at least two releases')
ASSUMPTIONS = ['all executions of a case run in one direction', 'the set is never empty when an execution starts']

SRC = '''def move(particle, fieldset, time):
    if particle.n == 0:
        particle.t0 = time
        particle.x0 = particle.lon
        particle.y0 = particle.lat
        particle.z0 = particle.depth
        particle.g0 = particle.g
    particle.n += 1
    particle.lon += 0.125
    particle.lat -= 0.25
    particle.depth += 0.5
    particle.g += 1
    if particle.die > 0 and particle.n > particle.die:
        particle.delete()
'''


def function(src, name):
    fn = '<vp_c17_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN = function(SRC, 'move')
NAN = -12345.


def fset():
    lon = np.array([-1000., 1000.])
    t = np.array([-2e6, 2e6])
    U = np.zeros((2, 2, 2), dtype=np.float32)
    P = np.ones((2, 2, 2), dtype=np.float32) * np.array([-2., 2.])[:, None, None]
    return FieldSet.from_data({'U': U, 'V': U, 'P': P}, {'lon': lon, 'lat': lon, 'time': t}, mesh='flat')


FS = {}


def setup():
    if not FS:
        FS['fs'] = fset()
        for mode, base in (('jit', JITParticle), ('scipy', ScipyParticle)):
            d = {k: Variable(k, dtype=np.float64, initial=NAN) for k in ('t0', 'x0', 'y0', 'z0', 'g0')}
            d.update(n=Variable('n', dtype=np.int32, initial=0), die=Variable('die', dtype=np.int32, initial=0),
                     g=Variable('g', dtype=np.float64, initial=7.), tag=Variable('tag', dtype=np.int64, initial=-1),
                     la=Variable('la', dtype=np.float64, initial=attrgetter('lon')), once=Variable('once', dtype=np.float32, initial=0., to_write='once'),
                     pf=Variable('pf', dtype=np.float64, initial=FS['fs'].P))
            FS[mode] = type('C17' + base.__name__, (base,), d)
            # without a Field as initial value release times may be left open
            e = {k: v for k, v in d.items() if k != 'pf'}
            FS[mode + 'n'] = type('C17n' + base.__name__, (base,), e)
    return FS


@st.composite
def case_s(draw):
    n = draw(st.integers(1, 4))
    rdt = draw(st.sampled_from([1., 2., 3., .5, .1, .3, .7, 5., 60., 3600., 86400.]))
    ents = [{'x': draw(st.integers(-40, 40)) / 4, 'y': draw(st.integers(-40, 40)) / 4, 'z': draw(st.integers(0, 20)) / 4,
             'g': draw(st.integers(0, 9)), 'die': draw(st.sampled_from([0, 0, 1, 2, 4]))} for _ in range(n)]
    ents[draw(st.integers(0, n - 1))]['die'] = 0
    execs = []
    tot = 0
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4]))):
        ln = draw(st.one_of(st.integers(0, 3), st.sampled_from([.5, 1.5, .25, 2.75, 1 / 3.])))
        dt = draw(st.sampled_from([1, 1, .5, .25, 2, .4, 1 / 3.]))
        execs.append({'len': ln, 'dt': dt, 'out': draw(st.sampled_from([None, 1, .5, 1.5, .7])), 'cb': draw(st.sampled_from([None, None, .8])),
                      'end': draw(st.booleans()), 'td': draw(st.booleans()),
                      'before': draw(st.sampled_from([None, None, None, 'add', 'remove', 'zero', 'assign']))})
        tot += ln
    return {'ents': ents, 'rdt': rdt, 'td': draw(st.booleans()), 't0': draw(st.sampled_from([0, 0, None, 10., -7.5, 1000.3])),
            'dir': draw(st.sampled_from([1, 1, -1])), 'execs': execs, 'mode': draw(st.sampled_from(['jit', 'scipy'])),
            'file': draw(st.integers(0, 5)) == 0, 'giveg': draw(st.booleans()), 'dtype': draw(st.sampled_from([None, 'f8'])),
            'depth': draw(st.booleans()), 'stop': draw(st.sampled_from([None, None, None, 1, 2])), 'dts': draw(st.booleans()), 'fine': draw(st.booleans())}


def run(case):
    F = setup()
    fs = F['fs']
    rdt, sgn = case['rdt'], case['dir']
    ents = case['ents']
    if case.get('fine') and case['dtype'] is not None:      # double precision matters
        ents = [dict(e, **{v: e[v] + 2. ** -30 for v in 'xyz'}) for e in ents]
    openstart = case['t0'] is None
    t0 = (-2e6 if sgn > 0 else 2e6) if openstart else case['t0']
    kw = {} if case['dtype'] is None else {'lonlatdepth_dtype': np.float64}
    if case['giveg']:
        kw['g'] = [e['g'] for e in ents]
    if case['depth']:
        kw['depth'] = [e['z'] for e in ents]
    if not openstart:
        kw['time'] = case['t0'] if not case['dts'] else [case['t0']] * len(ents)
    pset = ParticleSet(fs, pclass=F[case['mode'] + ('n' if openstart else '')], lon=[e['x'] for e in ents], lat=[e['y'] for e in ents],
                       die=[e['die'] for e in ents], tag=list(range(len(ents))), repeatdt=timedelta(seconds=rdt) if case['td'] else rdt, **kw)
    seen = set(int(i) for i in pset.id)
    removed = set()       # ids taken out by the user
    added = 0
    now = t0
    work = None
    labels = [case['mode'], 'fwd' if sgn > 0 else 'back']
    nrel = 1
    gone_tags = {}
    try:
        if case['file']:
            work = tempfile.mkdtemp(prefix='c17_')
            ex_out = [e['out'] for e in case['execs'] if e['out']]
            pfile = pset.ParticleFile(os.path.join(work, 'o.nc'), outputdt=rdt * (ex_out[0] if ex_out else 1.), tempwritedir=os.path.join(work, 'tmp'))
        stop_at = None
        for k, e in enumerate(case['execs']):
            if len(pset) == 0:
                break
            if case['stop'] == k and stop_at is None:
                pset.repeatdt = None
                stop_at = now
                labels.append('stopped')
            if e['before'] == 'add' and k:
                pset.add(ParticleSet(fs, pclass=pset.collection.pclass, lon=[1.], lat=[2.], time=[now], tag=[99], **{q: v for q, v in kw.items() if q == 'lonlatdepth_dtype'}))
                added += 1
                labels.append('add')
            elif e['before'] == 'remove' and k and len(pset) > 1:
                p = [q for q in pset if int(q.tag) != 99]
                if len(p) > 1:
                    removed.add(int(p[0].id))
                    pset.remove_indices([int(np.where(np.array(pset.id) == int(p[0].id))[0][0])])
                    labels.append('remove')
            elif e['before'] == 'assign' and k:
                for p in pset:
                    p.lon = float(p.lon) + 3.
                labels.append('assign')
            elif e['before'] == 'zero' and not (openstart and now == t0):
                before = len(pset)
                pset.execute(function('def nop(particle, fieldset, time):\n    particle.die += 0\n', 'nop'), runtime=0 if e['td'] else 3., dt=e['dt'] * rdt * sgn if e['td'] else 0.,
                             verbose_progress=False)
                if len(pset) != before:
                    raise Violation('an execution without duration at t=%r released %d particles' % (now, len(pset) - before))
                labels.append('zero')
            length, dt = e['len'] * rdt, e['dt'] * rdt * sgn
            if length == 0:
                continue
            akw = {'runtime': length} if not (e['end'] and not openstart) else {'endtime': now + sgn * length}
            if case['file']:
                akw['output_file'] = pfile
            if e['cb'] and not case['file']:
                akw['postIterationCallbacks'] = [lambda: None]
                akw['callbackdt'] = e['cb'] * rdt
            start = {int(p.id): int(p.n) for p in pset}
            pset.execute(KERN, dt=timedelta(seconds=dt) if e['td'] and abs(dt) >= .25 else dt, verbose_progress=False, **akw)
            now = now + sgn * length
            verify(case, pset, t0, now, rdt, sgn, ents, removed, added, stop_at, start, kw, openstart)
            nrel = max(nrel, 1 + int(math.floor(abs(now - t0) / rdt + 1e-9)))
        if case['file'] and any(e['len'] for e in case['execs']):
            pfile.export()
            with netCDF4.Dataset(os.path.join(work, 'o.nc')) as nc:
                ids = np.ma.filled(nc.variables['trajectory'][:, 0], -1)
                if len(set(ids.tolist())) != len(ids):
                    raise Violation('the output file holds a trajectory twice: %s' % ids.tolist())
            labels.append('file')
    finally:
        if work:
            shutil.rmtree(work, ignore_errors=True)
    return {'nontrivial': nrel >= 2, 'labels': labels}


def verify(case, pset, t0, now, rdt, sgn, ents, removed, added, stop_at, start, kw, openstart):
    ids = [int(p.id) for p in pset]
    if len(set(ids)) != len(ids):
        raise Violation('ids are not unique: %s' % ids)
    last = now if stop_at is None else stop_at
    kmax = abs(last - t0) / rdt
    sure = {k for k in range(int(kmax) + 2) if k <= kmax - 1e-6}
    maybe = {k for k in range(int(kmax) + 2) if abs(k - kmax) <= 1e-6}      # releases exactly at the end of the execution
    got = {}
    for p in pset:
        if int(p.tag) == 99:
            continue
        # a particle that has not been executed yet still has its release time
        rel = float(p.t0) if int(p.n) else float(p.time)
        k = abs(rel - t0) / rdt
        kr = round(k)
        if abs(k - kr) > 1e-6 or (rel - t0) * sgn < -1e-6 * rdt:
            raise Violation('a particle was released at t=%r, not a release time (start %r, interval %r)' % (rel, t0, rdt))
        key = (kr, int(p.tag))
        if key in got:
            raise Violation('entry %d was released twice at t=%r' % (int(p.tag), rel))
        got[key] = p
        e = ents[int(p.tag)]
        d = {'x0': e['x'], 'y0': e['y'], 'z0': e['z'] if case['depth'] else 0., 'g0': float(e['g']) if case['giveg'] else 7.}
        cur = {'x0': 'lon', 'y0': 'lat', 'z0': 'depth', 'g0': 'g'}
        for v, want in d.items():
            val = float(getattr(p, v)) if int(p.n) else float(getattr(p, cur[v]))
            if val != want and not (int(p.n) == 0 and abs(rel - now) > 1e-6 * rdt):
                assigned = v == 'x0' and any(q['before'] == 'assign' for q in case['execs']) and abs(val - want) % 3. < 1e-9
                if not assigned:
                    raise Violation('release %d of entry %d: %s is %r, the given value is %r' % (kr, int(p.tag), cur[v], val, want))
        if float(p.la) != e['x']:
            raise Violation('release %d of entry %d: a variable initialised from lon is %r, expected %r' % (kr, int(p.tag), float(p.la), e['x']))
        if not openstart and abs(float(p.pf) - rel / 1e6) > 1e-6:
            raise Violation('release %d of entry %d: a variable initialised from a field is %r, expected %r' % (kr, int(p.tag), float(p.pf), rel / 1e6))
        if int(p.die) != e['die']:
            raise Violation('release %d of entry %d: die is %r, given %r' % (kr, int(p.tag), int(p.die), e['die']))
        if abs(float(p.time) - now) > 1e-6 * rdt + 1e-9:
            raise Violation('release %d of entry %d ended at t=%r instead of %r' % (kr, int(p.tag), float(p.time), now))
    for k in sure:
        for i, e in enumerate(ents):
            if e['die'] == 0 and (k, i) not in got and not removed:
                raise Violation('entry %d was not released at t=%r (start %r, interval %r, now %r)' % (i, t0 + sgn * k * rdt, t0, rdt, now))
    if removed:
        missing = sum(1 for k in sure for i, e in enumerate(ents) if e['die'] == 0 and (k, i) not in got)
        if missing > len(removed):
            raise Violation('%d particles are missing, but only %d were removed' % (missing, len(removed)))
    extra = [k for k in got if k[0] not in sure | maybe]
    if extra:
        raise Violation('releases %s happened, but the executions ended at t=%r (interval %s)' % (sorted(extra), last, rdt))


@st.composite
def bad_s(draw):
    return {'t': [draw(st.sampled_from([0., 1., 2., 0., 5.])) for _ in range(draw(st.integers(2, 4)))], 'rdt': draw(st.sampled_from([1., -1., -3600.]))}


def run_bad(case):
    """Release sets that cannot be repeated are refused."""
    F = setup()
    n = len(case['t'])
    legal = len(set(case['t'])) == 1 and case['rdt'] > 0
    try:
        ParticleSet(F['fs'], pclass=ScipyParticle, lon=np.zeros(n), lat=np.zeros(n), time=case['t'], repeatdt=case['rdt'])
        ok = True
    except ValueError:
        ok = False
    if ok != legal:
        raise Violation('times %s with repeatdt=%r were %s' % (case['t'], case['rdt'], 'accepted' if ok else 'refused'))
    return {'nontrivial': not legal, 'labels': ['legal' if legal else 'illegal']}


SUBCHECKS = [Sub('release', case_s, run, quick=400, thorough=10000, budget=60),
             Sub('refuse', bad_s, run_bad, quick=30, thorough=200, budget=10)]
