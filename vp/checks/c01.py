"""C01: compiled and interpreted execution of the same simulation."""
import linecache
import math
import signal
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from vp import samp
from vp.checks import c05
from vp.checks.c03 import mkfield
from parcels import (FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode, AdvectionEE, AdvectionRK4,
                     AdvectionRK4_3D, AdvectionRK45, AdvectionDiffusionM1, AdvectionDiffusionEM, DiffusionUniformKh, ParcelsRandom)
from parcels.kernels import EOSseawaterproperties, TEOSseawaterdensity

PROPERTY = 'C01'
RULE = ('a case is a generated fieldset (A-, B- or C-grid velocities, a tracer with any interpolation method, diffusivities), a chain of '
        'shipped and user kernels, a recovery behaviour and one or two executions, run with JIT and with SciPy particles; SciPy is also run from starts '
        'moved by 1e-4 of a cell to measure the conditioning; non-trivial = at least one particle compared after two or more steps')
ASSUMPTIONS = ['particles whose SciPy result moves by more than 2% of a cell under a 1e-4 cell start shift are not judged',
               'adaptive time stepping may accept different steps at equal tolerance: positions are compared within the error tolerance']

SRC = '''def keep(particle, fieldset, time):
    particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.age += particle.dt
    particle.steps += 1
    if particle.p > 0:
        particle.pos += 1
    particle.track += math.fabs(particle.lon - particle.lon0) + math.fabs(particle.lat - particle.lat0)
    particle.lon0 = particle.lon
    particle.lat0 = particle.lat
    particle.tlast = time
'''


def function(src, name):
    fn = '<vp_c01_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KEEP = function(SRC, 'keep')


def mkclass(base):
    class P(base):
        p = Variable('p', dtype=np.float32, initial=0.)
        age = Variable('age', dtype=np.float64, initial=0.)
        steps = Variable('steps', dtype=np.int32, initial=0)
        pos = Variable('pos', dtype=np.int64, initial=0)
        track = Variable('track', dtype=np.float64, initial=0.)
        lon0 = Variable('lon0', dtype=np.float64, initial=0.)
        lat0 = Variable('lat0', dtype=np.float64, initial=0.)
        tlast = Variable('tlast', dtype=np.float64, initial=-1.)
        hits = Variable('hits', dtype=np.int32, initial=0)
    P.__name__ = 'C01' + base.__name__
    return P


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}
KERN = {'ee': AdvectionEE, 'rk4': AdvectionRK4, 'rk43d': AdvectionRK4_3D, 'rk45': AdvectionRK45, 'm1': AdvectionDiffusionM1,
        'em': AdvectionDiffusionEM, 'uniform': DiffusionUniformKh}


@st.composite
def run_s(draw):
    sch = draw(st.sampled_from(['ee', 'rk4', 'rk4', 'rk43d', 'rk43d', 'rk45', 'm1', 'em', 'uniform']))
    case = draw(c05.base(sch, stag=('A', 'A', 'B', 'C') if sch not in ('m1', 'em') else ('A',)))
    g = case['g']
    case['mode'] = 'jit'
    case['nsteps'] = max(2, case['nsteps'])
    case['method'] = draw(st.sampled_from(['linear', 'nearest', 'cgrid_tracer', 'linear_invdist_land_tracer', 'bgrid_tracer']))
    case['kh'], case['const'], case['dres'] = draw(st.sampled_from([.01, .05])), draw(st.booleans()), .1
    case['rseed'] = draw(st.integers(0, 10 ** 6))
    case['chain'] = draw(st.sampled_from([['adv', 'keep'], ['keep', 'adv'], ['adv', 'uni', 'keep'], ['adv', 'keep', 'adv']]))
    if sch == 'rk45' and case['chain'].count('adv') > 1:
        case['chain'] = ['adv', 'keep']      # two kernels with array constants of one name are refused by the compiler
    if sch == 'uniform':
        case['chain'] = ['adv', 'keep']
    case['recover'] = draw(st.sampled_from(['delete', 'delete', 'move', 'push']))
    case['delay'] = [draw(st.sampled_from([0, 0, 0, 1, 2, .5])) for _ in case['pts']]
    case['split'] = draw(st.sampled_from([0, 0, 1, 2]))
    case['frac'] = draw(st.sampled_from([0, 0, .5, .3]))
    case['extra'] = draw(st.sampled_from([True, True, True, False]))
    random = sch in ('m1', 'em', 'uniform') or 'uni' in case['chain']
    if random:
        case['pts'], case['delay'] = case['pts'][:1], [0]
        case['recover'] = 'delete'
    if g['kind'][0] == 'c':
        # leaving a curvilinear grid costs 1e6 search steps
        case['speed'], case['nsteps'] = .1, min(case['nsteps'], 3)
        case['kh'] = .003
        for p in case['pts']:
            p['i'], p['j'] = min(max(p['i'], 1), len(g['lon']) - 3), min(max(p['j'], 1), len(g['lat']) - 3)
    return case


def build(case):
    full = dict(case)
    needkh = case['scheme'] in ('m1', 'em', 'uniform') or 'uni' in case['chain']
    if needkh:
        full['scheme'] = case['scheme'] if case['scheme'] in ('m1', 'em', 'rk43d') else 'uniform'

    def tracer(g, C):
        D = samp.field_data(g, case['seed'] + 11, .3 if 'invdist' in case['method'] else 0)
        return {'P': mkfield(g, C, 'P', D, case, case['method'])}
    fs, g, C, h = c05.build(full, kh=needkh, more=tracer)
    if case['scheme'] in ('m1', 'em'):
        fs.add_constant('dres', case['dres'] * min(h[0], h[1]))
    return fs, g, C, h


def run_mode(case, fs, g, mode, pos, mid, h):
    dt, t0 = case['dt'], c05.start_time(case)
    kw = {} if case['dtype'] is None else {'lonlatdepth_dtype': {'f4': np.float32, 'f8': np.float64}[case['dtype']]}
    pset = ParticleSet(fs, pclass=PC[mode], lon=[p[0] for p in pos], lat=[p[1] for p in pos], depth=[p[2] for p in pos],
                       time=[t0 + dt * q for q in case['delay']], lon0=[p[0] for p in pos], lat0=[p[1] for p in pos], **kw)
    ids = [int(i) for i in pset.id]
    gone = {}

    def delete(code):
        def f(particle, fieldset, time):
            gone[ids.index(int(particle.id))] = (code, state(particle))
            particle.delete()
        return f

    def move(code):
        def f(particle, fieldset, time):
            particle.hits += code
            if particle.hits > 40 or code == 100:
                gone[ids.index(int(particle.id))] = (code, state(particle))
                particle.delete()
                return
            particle.lon, particle.lat = mid[0], mid[1]
            particle.depth = mid[2]
        return f

    def push(code):
        def f(particle, fieldset, time):
            particle.hits += code
            if particle.hits > 40 or code == 100:
                gone[ids.index(int(particle.id))] = (code, state(particle))
                particle.delete()
                return
            particle.lon += .5 * (mid[0] - particle.lon)
            particle.lat += .5 * (mid[1] - particle.lat)
            particle.depth += .5 * (mid[2] - particle.depth)
        return f
    r = {'delete': delete, 'move': move, 'push': push}[case['recover']]
    rec = {ErrorCode.ErrorOutOfBounds: r(1), ErrorCode.ErrorThroughSurface: r(10), ErrorCode.ErrorTimeExtrapolation: r(100)}
    ker = None
    for c in case['chain']:
        k = pset.Kernel({'adv': KERN[case['scheme']], 'keep': KEEP, 'uni': DiffusionUniformKh}[c])
        ker = k if ker is None else ker + k
    ParcelsRandom.seed(case['rseed'])
    left = case['nsteps'] + case['frac']
    while left > 0:
        n = left if not case['split'] else min(left, case['split'])
        left -= n
        if len(pset) == 0:
            break
        pset.execute(ker, runtime=n * abs(dt), dt=dt, recovery=rec, verbose_progress=False)
    out = {ids.index(int(p.id)): (0, state(p)) for p in pset}
    if set(out) & set(gone):
        raise Violation('%s: deleted particles are still in the set' % mode)
    out.update(gone)
    return out, [ids.index(int(i)) for i in pset.id]


VARS = ['lon', 'lat', 'depth', 'time', 'p', 'age', 'steps', 'pos', 'track', 'tlast', 'hits', 'lon0', 'lat0']


def state(p):
    return {v: float(getattr(p, v)) for v in VARS}


class Slow(BaseException):
    pass


def run_run(case):
    # leaving a curvilinear grid costs 1e6 search steps, which are slow when interpreted
    def stop(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 25)
    try:
        return run_(case)
    except Slow:
        return {'nontrivial': False, 'labels': ['slow']}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_(case):
    fs, g, C, h = build(case)
    dims3 = len(g['depth']) > 1
    pos = [samp.wrappos(g, samp.locate(g, p, C)) for p in case['pts']]
    nx, ny, nz = len(g['lon']), len(g['lat']), len(g['depth'])
    mid = samp.wrappos(g, samp.locate(g, {'i': (nx - 1) // 2 - (nx == 2), 'j': (ny - 1) // 2 - (ny == 2), 'k': max(0, (nz - 1) // 2 - (nz == 2)),
                                          'fx': 5.3, 'fy': 6.1, 'fz': 5.7, 't': 0, 'ft': 0}, C))
    jit, jorder = run_mode(case, fs, g, 'jit', pos, mid, h)
    variants = []
    order0 = None
    for pert in c05.PERT:
        if pert[2] and not dims3:
            continue
        q = [tuple(a + 1e-4 * b * c for a, b, c in zip(x[:3], pert, h)) for x in pos]
        res, order = run_mode(case, fs, g, 'scipy', q, mid, h)
        if order0 is None:
            order0 = order
        variants.append(res)
    base = variants[0]
    judged = 0
    H = {'lon': h[0], 'lat': h[1], 'depth': h[2], 'lon0': h[0], 'lat0': h[1]}
    cell = min(h[0], h[1])
    dt = abs(case['dt'])
    steps = case['nsteps'] + 1
    labels = [case['scheme'], case['stag'], case['method'], g['kind'], g['mesh'], case['recover'], 'chain%d' % len(case['chain'])]
    allj = True
    for k in range(len(pos)):
        vs = [v.get(k) for v in variants]
        if any(v is None for v in vs) or k not in jit:
            raise Violation('particle %d vanished without recovery being called' % k)
        if len({v[0] for v in vs}) > 1 or len({(v[1]['steps'], v[1]['hits']) for v in vs} if case['scheme'] != 'rk45' else {0}) > 1:
            labels.append('ambiguous')
            allj = False
            continue
        ref = base[k][1]
        got = jit[k][1]
        spread = {v: max(x[1][v] for x in vs) - min(x[1][v] for x in vs) for v in VARS}
        if any(spread[v] > .02 * H[v] for v in H):
            labels.append('ill')
            allj = False
            continue
        if jit[k][0] != base[k][0]:
            raise Violation('particle %d: JIT %s, SciPy %s (start %s)' % (k, fate(jit[k]), fate(base[k]), pos[k]))
        for v in VARS:
            if v in H:
                tol = 3 * spread[v] + 2e-4 * H[v] * steps + 1e-6 * steps * abs(ref[v])
                if case['scheme'] == 'rk45':
                    tol += 3e-5 * dt * steps
            elif v in ('time', 'age', 'tlast'):
                tol = 1e-6 * (dt + abs(ref[v]))
                if case['scheme'] == 'rk45' and v == 'tlast':
                    continue
            elif v == 'p':
                if spread[v] > 3:
                    continue
                tol = 5 * spread[v] + .05
                if case['scheme'] == 'rk45':
                    if spread[v] > .5 or case['method'] != 'linear' or dims3:
                        continue
                    tol += 64 * 6e-5 * dt * steps / cell + 5
            elif v == 'track':
                tol = 5 * spread[v] + 1e-3 * cell * steps + 2e-6 * steps * (abs(ref['lon']) + abs(ref['lat']))
                if case['scheme'] == 'rk45':
                    continue
            elif v == 'pos':
                if spread[v]:
                    continue
                tol = 0
                if case['scheme'] == 'rk45':
                    continue
            else:
                tol = 0
                if case['scheme'] == 'rk45' and v == 'steps':
                    continue
            if not abs(got[v] - ref[v]) <= tol:
                raise Violation('particle %d started at %s: %s is %r in JIT mode and %r in SciPy mode (tolerance %.3g)' % (k, pos[k], v, got[v], ref[v], tol))
        if ref['steps'] >= 2:
            judged += 1
    if allj and jorder != order0:
        raise Violation('order of the particles left: %s in JIT mode, %s in SciPy mode' % (jorder, order0))
    return {'nontrivial': judged > 0, 'labels': labels + (['deleted'] if len(jorder) < len(pos) else [])}


def fate(r):
    return 'survived' if r[0] == 0 else 'left (error code %d) at time %r' % (r[0], r[1]['time'])


# ------------------------------------------------------------------ sea water kernels

@st.composite
def eos_s(draw):
    f = lambda lo, hi: st.floats(lo, hi, width=32)      # noqa: E731
    return {'kern': draw(st.sampled_from(['PressureFromLatDepth', 'AdiabticTemperatureGradient', 'PtempFromTemp', 'TempFromPtemp',
                                          'UNESCODensity', 'PolyTEOS10_bsq'])),
            'p': [{'lat': draw(f(-90, 90)), 'depth': draw(f(0, 8000)), 'S': draw(f(0, 40)), 'T': draw(f(-2, 35)), 'pressure': draw(f(0, 9000))}
                  for _ in range(4)], 'refp': draw(st.sampled_from([0., 0., 1000., 4000.])), 'same': draw(st.booleans())}


def mkeos(base):
    class P(base):
        S = Variable('S', dtype=np.float64, initial=35.)
        T = Variable('T', dtype=np.float64, initial=10.)
        pressure = Variable('pressure', dtype=np.float64, initial=0.)
        adtg = Variable('adtg', dtype=np.float64, initial=0.)
        potemp = Variable('potemp', dtype=np.float64, initial=0.)
        temp = Variable('temp', dtype=np.float64, initial=0.)
        density = Variable('density', dtype=np.float64, initial=0.)
    P.__name__ = 'C01eos' + base.__name__
    return P


EOS = {'jit': mkeos(JITParticle), 'scipy': mkeos(ScipyParticle)}


def run_eos(case):
    names = {'psu_salinity': 'S', 'temperature': 'T', 'potemperature': 'T', 'abs_salinity': 'S', 'cons_temperature': 'T', 'cons_pressure': 'pressure'}
    lat = np.array([-90., 0., 90.])
    lon = np.arange(len(case['p']) + 0.)
    zero = np.zeros((3, len(lon)), dtype=np.float32)
    fs = FieldSet.from_data({'U': zero, 'V': zero}, {'lon': lon, 'lat': lat}, mesh='flat')
    for n, v in names.items():
        fs.add_field(Field(n, np.tile(np.array([q[v] for q in case['p']], dtype=np.float32), (3, 1)), lon=lon, lat=lat, mesh='flat',
                           allow_time_extrapolation=True))
    fs.add_constant('refpressure', case['refp'])
    out = {}
    for mode in ('jit', 'scipy'):
        pset = ParticleSet(fs, pclass=EOS[mode], lon=lon, lat=[q['lat'] for q in case['p']], depth=[q['depth'] for q in case['p']],
                           S=[q['S'] for q in case['p']], T=[q['T'] for q in case['p']], pressure=[q['pressure'] for q in case['p']],
                           lonlatdepth_dtype=np.float64)
        pset.execute(pset.Kernel(getattr(EOSseawaterproperties, case['kern'], None) or getattr(TEOSseawaterdensity, case['kern'])), runtime=1, dt=1, verbose_progress=False)
        out[mode] = [{v: float(getattr(p, v)) for v in ('pressure', 'adtg', 'potemp', 'temp', 'density', 'lon', 'lat', 'depth')} for p in pset]
    for k, (a, b) in enumerate(zip(out['jit'], out['scipy'])):
        for v in a:
            tol = {'adtg': 2e-8, 'potemp': 5e-3, 'temp': 5e-3, 'density': .02}.get(v, 0) + 2e-4 * abs(b[v]) * (v != 'density')
            if not abs(a[v] - b[v]) <= tol:
                raise Violation('%s for %s: %s is %r in JIT mode and %r in SciPy mode' % (case['kern'], case['p'][k], v, a[v], b[v]))
    return {'nontrivial': True, 'labels': [case['kern']]}


SUBCHECKS = [Sub('run', run_s, run_run, quick=160, thorough=8000, budget=70),
             Sub('eos', eos_s, run_eos, quick=40, thorough=1000, budget=20)]
