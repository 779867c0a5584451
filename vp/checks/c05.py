"""C05: shipped advection and diffusion kernels against independent implementations of their schemes."""
import linecache
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from vp import samp
from vp.checks.c03 import mkfield
from parcels import (FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode, AdvectionEE, AdvectionRK4,
                     AdvectionRK4_3D, AdvectionRK45, AdvectionAnalytical, AdvectionDiffusionM1, AdvectionDiffusionEM,
                     DiffusionUniformKh, ParcelsRandom)
from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError

PROPERTY = 'C05'
RULE = ('a case is a generated grid (A-, B- or C-grid velocities, rectilinear or curvilinear, flat or spherical, steady or not), a kernel, '
        'a mode, a time step and direction and up to 6 particles; every executed step is recorded and replayed by the reference scheme '
        'from the recorded position; non-trivial = at least one step was compared')
ASSUMPTIONS = ['the reference uses the velocity as sampled by direct field evaluation (judged by C03)',
               'steps whose result changes by more than 2% of a cell when the start is moved by 1e-4 cell (cell-edge jumps) are not judged',
               'step-size decisions of RK45 within 20% (plus rounding) of the error threshold are not judged',
               'analytical advection: rectilinear z-level grids without particles resting on a face']
NREC = 20

SRC = 'def rec(particle, fieldset, time):\n' + ''.join(
    '    %s particle.n == %d:\n        particle.t%d = time\n        particle.d%d = particle.dt\n        particle.x%d = particle.lon\n'
    '        particle.y%d = particle.lat\n        particle.z%d = particle.depth\n' % (('if' if i == 0 else 'elif',) + (i,) * 6)
    for i in range(NREC)) + '    particle.n += 1\n'


def function(src, name):
    fn = '<vp_c05_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


REC = function(SRC, 'rec')


def mkclass(base):
    d = {'n': Variable('n', dtype=np.int32, initial=0.)}
    for i in range(NREC):
        for v in 'tdxyz':
            d[v + str(i)] = Variable(v + str(i), dtype=np.float64, initial=0.)
    return type('C05' + base.__name__, (base,), d)


PC = {'jit': mkclass(JITParticle), 'scipy': mkclass(ScipyParticle)}
OUT = (FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError)


def snap(p, n=None):
    n = min(int(p.n), NREC)
    return [tuple(float(getattr(p, v + str(i))) for v in 'tdxyz') for i in range(n)]


def run_kernel(case, fs, kern, pos, dt, runtime, t0):
    """histories: per particle (list of (t, dt, x, y, z), left the domain?)"""
    lost = {}

    def gone(particle, fieldset, time):
        lost[int(particle.id)] = snap(particle)
        particle.delete()
    kw = {} if case['dtype'] is None else {'lonlatdepth_dtype': {'f4': np.float32, 'f8': np.float64}[case['dtype']]}
    pset = ParticleSet(fs, pclass=PC[case['mode']], lon=[p[0] for p in pos], lat=[p[1] for p in pos], depth=[p[2] for p in pos],
                       time=[t0] * len(pos), **kw)
    ids = [int(p.id) for p in pset]
    start = [(float(p.lon), float(p.lat), float(p.depth)) for p in pset]
    pset.execute(pset.Kernel(kern) + pset.Kernel(REC), runtime=runtime, dt=dt, verbose_progress=False,
                 recovery={ErrorCode.ErrorOutOfBounds: gone, ErrorCode.ErrorThroughSurface: gone, ErrorCode.ErrorTimeExtrapolation: gone})
    hist = {int(p.id): (snap(p), False) for p in pset}
    hist.update({i: (h, True) for i, h in lost.items()})
    if set(hist) != set(ids):
        raise Violation('particles %s vanished or appeared' % sorted(set(ids) ^ set(hist)))
    return [(start[k],) + hist[i] for k, i in enumerate(ids)]


# ------------------------------------------------------------------ the schemes

def ee(vel, t, s, dt):
    return s + dt * vel(t, s)


def rk4(vel, t, s, dt):
    k1 = vel(t, s)
    k2 = vel(t + dt / 2, s + dt / 2 * k1)
    k3 = vel(t + dt / 2, s + dt / 2 * k2)
    k4 = vel(t + dt, s + dt * k3)
    return s + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


FEHLBERG_C = [0., 1 / 4, 3 / 8, 12 / 13, 1., 1 / 2]
FEHLBERG_A = [[], [1 / 4], [3 / 32, 9 / 32], [1932 / 2197, -7200 / 2197, 7296 / 2197], [439 / 216, -8, 3680 / 513, -845 / 4104],
              [-8 / 27, 2, -3544 / 2565, 1859 / 4104, -11 / 40]]
FEHLBERG_4 = [25 / 216, 0, 1408 / 2565, 2197 / 4104, -1 / 5, 0]
FEHLBERG_5 = [16 / 135, 0, 6656 / 12825, 28561 / 56430, -9 / 50, 2 / 55]


def rkf45(vel, t, s, dt):
    k = []
    for c, a in zip(FEHLBERG_C, FEHLBERG_A):
        k.append(vel(t + c * dt, s + dt * sum((w * q for w, q in zip(a, k)), np.zeros(len(s)))))
    y4 = s + dt * sum(w * q for w, q in zip(FEHLBERG_4, k))
    y5 = s + dt * sum(w * q for w, q in zip(FEHLBERG_5, k))
    return y4, math.hypot(*(y5 - y4)[:2])


# ------------------------------------------------------------------ cases

@st.composite
def base(draw, scheme, kinds=('rz', 'cz', 'rs', 'cs'), stag=('A', 'A', 'C', 'B'), min_n=3):
    threed = scheme == 'rk43d'
    s = draw(st.sampled_from(stag))
    g = draw(samp.grids(kinds=kinds, z4d=True, min_n=min_n, force_z=threed))
    if g['kind'][0] == 'c' and min(len(g['lon']), len(g['lat'])) < 4:
        for ax in ('lon', 'lat'):
            g[ax] = [g[ax][0] + (g[ax][1] - g[ax][0]) * k for k in range(max(4, len(g[ax])))]
    dt = draw(st.sampled_from([1., 0.5, 60., 3600., 86400., 0.1]))
    mx = max(abs(v) for v in g['lon'] + g['lat'])
    if scheme == 'rk45':
        # in velocities with jumps small tolerances cost millions of steps
        dt = draw(st.sampled_from([5., 10., 20., 40., 100., 1000.] if s == 'A' else [20., 40., 100., 1000.])) * max(mx, 1.)
    nt = len(g['time'])
    if nt > 1:
        steps = [round((b - a)) for a, b in zip(g['time'][:-1], g['time'][1:])]
        steps = [max(1, v) if v < 100 else v // 86400 for v in steps]
        T = [draw(st.sampled_from([0., 0., 3., -2.])) * dt]
        u = draw(st.sampled_from([.5, 1., 2., 2.7])) * dt
        for v in steps:
            T.append(T[-1] + v * u)
        g['time'] = T
    case = {'g': g, 'scheme': scheme, 'stag': s, 'dt': dt * draw(st.sampled_from([1, 1, -1])), 'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])),
            'dtype': draw(st.sampled_from([None, 'f4', 'f8'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'speed': draw(st.sampled_from([.1, .3, .8])), 'nsteps': draw(st.integers(1, 5)), 'extra': True,
            'pts': draw(samp.points(g, 6, outside=False))}
    if scheme == 'rk45':
        case['nsteps'] = draw(st.sampled_from([1, 2, 3, 5, 9, 14] if s == 'A' else [1, 2, 3, 4, 5]))
    for p in case['pts']:
        for f in ('fx', 'fy', 'fz'):
            p[f] = min(max(p[f], 1), 15) + draw(st.integers(-9, 9)) / 23.
    case['idx'] = draw(st.sampled_from(['nemo', 'mitgcm'])) if (g['kind'] == 'rz' and s == 'C') else 'nemo'
    if g['kind'][0] == 'c' and case['mode'] == 'scipy':
        # leaving a curvilinear grid costs 1e6 search steps: stay in the middle
        case['speed'], case['nsteps'] = .1, min(case['nsteps'], 3)
        for p in case['pts']:
            p['i'], p['j'] = min(max(p['i'], 1), len(g['lon']) - 3), min(max(p['j'], 1), len(g['lat']) - 3)
    return case


def cellsizes(g):
    h = [min(abs(b - a) for a, b in zip(g[k][:-1], g[k][1:])) if len(g[k]) > 1 else 1. for k in ('lon', 'lat', 'depth')]
    return h


def build(case, kh=False, more=None):
    g = case['g']
    C = samp.coords(g)
    h = cellsizes(g)
    dt = abs(case['dt'])
    m = samp.DEG2M if g['mesh'] == 'spherical' else 1.
    hh = min(h[0], h[1])
    D = []
    for k in range(3):
        d = samp.field_data(g, case['seed'] + k).astype(float) / 64.
        d *= case['speed'] * (h[2] if k == 2 else hh * m) / dt
        D.append(d.astype(np.float32))
    meth = {'A': ['linear'] * 3, 'C': ['cgrid_velocity'] * 3, 'B': ['bgrid_velocity'] * 2 + ['bgrid_w_velocity']}[case['stag']]
    n = 3 if case['scheme'] == 'rk43d' else 2
    F = [mkfield(g, C, nm, d, case, me, case['idx']) for nm, d, me in zip('UVW'[:n], D, meth)]
    extra = {'W': F[2]} if n == 3 else {}
    if kh:
        for k, nm in enumerate(('Kh_zonal', 'Kh_meridional')):
            if case['scheme'] == 'uniform':
                d = np.full_like(D[0], (3 + 5 * k) / 8.)
            else:
                d = np.abs(samp.field_data(g, case['seed'] + 7 + k).astype(float)) / 64.
            d = (d * case['kh'] * (hh * m) ** 2 / dt).astype(np.float32)
            if case['scheme'] == 'uniform' and case['const']:
                extra[nm] = Field(nm, np.array([[d.flat[0]]]), lon=np.array([0.]), lat=np.array([0.]), mesh=g['mesh'], allow_time_extrapolation=True)
            else:
                extra[nm] = mkfield(g, C, nm, d, case, 'linear')
    if more is not None:
        extra.update(more(g, C))
    fs = FieldSet(F[0], F[1], fields=extra)
    fs.check_complete()
    return fs, g, C, h


def start_time(case):
    T = case['g']['time']
    return T[0] if case['dt'] > 0 or len(T) == 1 else T[-1]


PERT = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def judged(step, s, h, dims):
    """Reference end points for slightly moved starts: list of arrays, or None when one of them leaves the domain."""
    out, left = [], 0
    for p in PERT:
        if not dims[2] and p[2]:
            continue
        q = s + np.array([1e-4 * a * b for a, b in zip(p, h)])[:len(s)]
        try:
            out.append(step(q))
        except OUT:
            left += 1
    return out, left


def compare(case, who, k, s, got, res, left, wasleft, h):
    """True when judged."""
    if wasleft:
        if left == 0:
            raise Violation('%s: step %d from %s raised an out-of-domain error, but every stage of the scheme lies in the domain' % (who, k, s.tolist()))
        return left == len(PERT)
    if left:
        if not res:
            raise Violation('%s: step %d from %s succeeded to %s, but a stage of the scheme lies outside the domain' % (who, k, s.tolist(), got.tolist()))
        return False
    R = np.array(res)
    H = np.array(h)[:len(s)]
    spread = (R.max(0) - R.min(0)) / H
    if spread.max() > .02:
        return False
    tol = 2 * spread + 2e-4 + 4e-7 * np.abs(s) / H
    err = np.abs(got - R[0]) / H
    if (err > tol).any():
        raise Violation('%s: step %d from %s (t=%r, dt=%r) ended at %s, the scheme gives %s' % (
            who, k, s.tolist(), case['_t'], case['_dt'], got.tolist(), R[0].tolist()))
    return True


def inside(g, C, x, y):
    # the cell search of Parcels gives up only after 1e6 steps
    if g['kind'][0] == 'c':
        for sh in ((0., 360., -360.) if g.get('wrap') else (0.,)):
            if samp.hcells(g, C, x + sh, y):
                return
        raise FieldOutOfBoundError(x, y, 0)


def velocity(fs, g, C, n):
    F = fs.UVW if n == 3 else fs.UV

    def vel(t, s):
        z = s[2]
        inside(g, C, s[0], s[1])
        return np.array([float(v) for v in F[t, z, s[1], s[0]]] + ([0.] if n == 2 else []))
    return vel


def run_rk(case):
    fs, g, C, h = build(case)
    n = 3 if case['scheme'] == 'rk43d' else 2
    dims = (1, 1, len(g['depth']) > 1)
    pos = [samp.wrappos(g, samp.locate(g, p, C)) for p in case['pts']]
    dt, t0 = case['dt'], start_time(case)
    kern, ref = {'ee': (AdvectionEE, ee), 'rk4': (AdvectionRK4, rk4), 'rk43d': (AdvectionRK4_3D, rk4)}[case['scheme']]
    H = run_kernel(case, fs, kern, pos, dt, abs(dt) * case['nsteps'], t0)
    vel = velocity(fs, g, C, n)
    ok = 0
    labels = [case['scheme'], case['stag'], g['kind'], g['mesh'], case['mode'], 'nt%d' % len(g['time']), 'back' if dt < 0 else 'fwd']
    for start, hist, left in H:
        s = np.array(start)
        if not left and len(hist) != case['nsteps']:
            raise Violation('%s: %d steps made, %d expected' % (case['scheme'], len(hist), case['nsteps']))
        for k, (t, d, x, y, z) in enumerate(hist):
            case['_t'], case['_dt'] = t, d
            got = np.array([x, y, z])
            res, nl = judged(lambda q: ref(vel, t, q, d), s, h, dims)
            ok += compare(case, case['scheme'], k, s, got, res, nl, False, h)
            s = got
        if left:
            labels.append('left')
            t = t0 + dt * len(hist)
            res, nl = judged(lambda q: ref(vel, t, q, dt), s, h, dims)
            compare(case, case['scheme'], len(hist), s, None, res, nl, True, h)
    return {'nontrivial': ok > 0, 'labels': labels}


def run_rk45(case):
    fs, g, C, h = build(case)
    dims = (1, 1, len(g['depth']) > 1)
    pos = [samp.wrappos(g, samp.locate(g, p, C)) for p in case['pts']]
    dt0, t0 = case['dt'], start_time(case)
    T = abs(dt0) * case['nsteps']
    H = run_kernel(case, fs, AdvectionRK45, pos, dt0, T, t0)
    vel = velocity(fs, g, C, 2)
    sgn = 1 if dt0 > 0 else -1
    tend = t0 + sgn * T
    ok = adapt = 0
    noise = 4e-7 * (np.abs(C[0]).max() + np.abs(C[1]).max() + 1)

    def err_range(t, s, d):
        e = []
        for p in PERT[:5]:
            try:
                e.append(rkf45(vel, t, s + np.array([1e-4 * a * b for a, b in zip(p, h)]), d)[1])
            except OUT:
                return None
        return min(e) * .8 - noise, max(e) * 1.25 + noise

    for start, hist, left in H:
        s = np.array(start)
        offered = [abs(dt0)]        # step sizes the controller may try first
        for k, (t, d, x, y, z) in enumerate(hist):
            case['_t'], case['_dt'] = t, d
            got = np.array([x, y, z])
            res, nl = judged(lambda q: rkf45(vel, t, q, d)[0], s, h, dims)
            ok += compare(case, 'rk45', k, s, got, res, nl, False, h)
            e = err_range(t, s, d)
            tol = 1e-5 * abs(d)
            if e is not None:
                if e[0] > tol:
                    raise Violation('rk45: step %d from %s with dt=%r was accepted with error %r > tolerance %r' % (k, s.tolist(), d, e[0], tol))
                # was the step size justified?
                rest = abs(tend - t)
                cand = set()
                for o in offered:
                    v, m = min(o, rest), 0
                    while v > abs(d) * 1.0001 and m < 40:
                        v, m = v / 2, m + 1
                    if abs(v - abs(d)) < 1e-3 * abs(d) + 1e-6:
                        cand.add(m)
                if not cand:
                    raise Violation('rk45: step %d from %s (t=%r) used dt=%r, not one of %s halved' % (k, s.tolist(), t, d, offered))
                if 0 not in cand:
                    adapt += 1
                    e2 = err_range(t, s, 2 * d)
                    if e2 is not None and e2[1] < 2e-5 * abs(d):
                        raise Violation('rk45: step %d from %s used dt=%r although twice that step has error %r below the tolerance'
                                        % (k, s.tolist(), d, e2[1]))
                if e[1] <= tol / 10:
                    offered = [2 * abs(d)]
                    adapt += 1
                elif e[0] > tol / 10:
                    offered = [abs(d)]
                else:
                    offered = [abs(d), 2 * abs(d)]
            else:
                offered = [abs(d), 2 * abs(d)]
            s = got
    return {'nontrivial': ok > 0, 'labels': ['rk45', case['stag'], g['kind'], g['mesh'], case['mode']] + (['adapted'] if adapt else [])}


# ------------------------------------------------------------------ diffusion

def g_curv_scipy(case):
    return case['g']['kind'][0] == 'c' and case['mode'] == 'scipy'


@st.composite
def diff_s(draw):
    case = draw(base(draw(st.sampled_from(['m1', 'em', 'uniform'])), stag=('A',), kinds=('rz', 'cz', 'rz', 'rs')))
    case['kh'] = draw(st.sampled_from([.01, .05, .2]))
    case['const'] = draw(st.booleans())
    if g_curv_scipy(case):
        case['kh'] = .003
    case['rseed'] = draw(st.integers(0, 10 ** 6))
    case['dres'] = draw(st.sampled_from([.02, .1, .25]))
    case['pts'] = case['pts'][:1]
    return case


def run_diff(case):
    fs, g, C, h = build(case, kh=True)
    dims = (1, 1, len(g['depth']) > 1)
    hh = min(h[0], h[1])
    if case['scheme'] != 'uniform':
        fs.add_constant('dres', case['dres'] * hh)
    pos = [samp.wrappos(g, samp.locate(g, p, C)) for p in case['pts']]
    dt, t0 = case['dt'], start_time(case)
    kern = {'m1': AdvectionDiffusionM1, 'em': AdvectionDiffusionEM, 'uniform': DiffusionUniformKh}[case['scheme']]
    ParcelsRandom.seed(case['rseed'])
    H = run_kernel(case, fs, kern, pos, dt, abs(dt) * case['nsteps'], t0)
    ParcelsRandom.seed(case['rseed'])
    dres = getattr(fs, 'dres', None)

    def step(t, s, d, w):
        x, y, z = s
        if not (case['scheme'] == 'uniform' and case['const']):
            inside(g, C, x, y)
        if dres:
            for a, b in ((dres, 0), (-dres, 0), (0, dres), (0, -dres)):
                inside(g, C, x + a, y + b)
        if case['scheme'] == 'uniform':
            b = [math.sqrt(2 * float(f[t, z, y, x])) for f in (fs.Kh_zonal, fs.Kh_meridional)]
            return s + np.array([b[0] * w[0], b[1] * w[1], 0.])
        K = [float(fs.Kh_zonal[t, z, y, x]), float(fs.Kh_meridional[t, z, y, x])]
        G = [(float(fs.Kh_zonal[t, z, y, x + dres]) - float(fs.Kh_zonal[t, z, y, x - dres])) / (2 * dres),
             (float(fs.Kh_meridional[t, z, y + dres, x]) - float(fs.Kh_meridional[t, z, y - dres, x])) / (2 * dres)]
        V = [float(fs.U[t, z, y, x]), float(fs.V[t, z, y, x])]
        out = []
        for v, k, gr, dw in zip(V, K, G, w):
            if case['scheme'] == 'em':
                out.append((v + gr) * d + math.sqrt(2 * k) * dw)
            else:
                out.append(v * d + .5 * gr * (dw ** 2 + d) + math.sqrt(2 * k) * dw)
        return s + np.array(out + [0.])
    ok = 0
    for start, hist, left in H:
        s = np.array(start)
        for k, (t, d, x, y, z) in enumerate(hist):
            case['_t'], case['_dt'] = t, d
            w = [ParcelsRandom.normalvariate(0, math.sqrt(abs(d))) for _ in range(2)]
            got = np.array([x, y, z])
            res, nl = judged(lambda q: step(t, q, d, w), s, h, dims)
            ok += compare(case, case['scheme'], k, s, got, res, nl, False, h)
            s = got
        if not left and len(hist) != case['nsteps']:
            raise Violation('%d steps made, %d expected' % (len(hist), case['nsteps']))
        if left:
            t = t0 + dt * len(hist)
            w = [ParcelsRandom.normalvariate(0, math.sqrt(abs(dt))) for _ in range(2)]
            res, nl = judged(lambda q: step(t, q, dt, w), s, h, dims)
            compare(case, case['scheme'], len(hist), s, None, res, nl, True, h)
    return {'nontrivial': ok > 0, 'labels': [case['scheme'], g['kind'], g['mesh'], case['mode'], 'back' if dt < 0 else 'fwd']}


# ------------------------------------------------------------------ analytical advection

@st.composite
def ana_s(draw):
    case = draw(base('ana', kinds=('rz',), stag=('C',), min_n=3))
    g = case['g']
    case['idx'] = 'nemo'
    case['mode'], case['dtype'] = 'scipy', draw(st.sampled_from([None, 'f8']))
    case['w'] = len(g['depth']) > 1 and draw(st.booleans())
    if not case['w'] and draw(st.booleans()):
        g['depth'] = [0.]
        for p in case['pts']:
            p['k'] = p['fz'] = 0
    g['depth'] = [abs(d) for d in sorted(g['depth'], key=abs)] if len(set(map(abs, g['depth']))) == len(g['depth']) else list(range(len(g['depth'])))
    case['speed'] = draw(st.sampled_from([.1, .5, 2.]))
    case['zero'] = draw(st.sampled_from([0, 0, .3]))
    return case


def face_move(r, a, b, d):
    """r(t) for r' = a + (b - a) r"""
    c = b - a
    if abs(c * d) < 1e-12:
        return r + d * (a + c * r)
    return r + (r + a / c) * math.expm1(c * d)


def cross_time(r, a, b, sgn):
    """time (along sgn) until r reaches the face it moves to; inf if never"""
    v = (a + (b - a) * r) * sgn
    if v == 0:
        return math.inf
    target = 1. if v > 0 else 0.
    vt = (b if v > 0 else a) * sgn
    if vt * v <= 0:
        return math.inf
    c = (b - a) * sgn
    if abs(c) < 1e-9 * abs(v):
        return (target - r) / v
    return math.log(vt / v) / c


def run_ana(case):
    g = case['g']
    C = samp.coords(g)
    h = cellsizes(g)
    dt = case['dt']
    sph = g['mesh'] == 'spherical'
    m = samp.DEG2M if sph else 1.
    hh = min(h[0], h[1])
    D = []
    for k in range(3):
        d = samp.field_data(g, case['seed'] + k, case['zero']).astype(float) / 64.
        D.append((d * case['speed'] * (h[2] if k == 2 else hh * m) / abs(dt)).astype(np.float32))
    F = [mkfield(g, C, nm, d, case, 'cgrid_velocity') for nm, d in zip('UVW', D)]
    fs = FieldSet(F[0], F[1], fields={'W': F[2]} if case['w'] else {})
    fs.check_complete()
    T = g['time']
    t0 = start_time(case)
    sgn = 1 if dt > 0 else -1
    if len(T) > 1:
        run = min(abs(dt) * case['nsteps'], T[-1] - T[0])
        # the kernel needs a following snapshot
        t0 = T[0] if sgn > 0 else T[-1]
    else:
        run = abs(dt) * case['nsteps']
    pos = [samp.locate(g, p, C) for p in case['pts']]
    H = run_kernel(case, fs, AdvectionAnalytical, pos, dt, run, t0)
    lon, lat, dep = (np.array(c, dtype=float) for c in C)
    ok = 0
    labels = ['ana', g['mesh'], '3D' if case['w'] else '2D', 'nt%d' % len(T), 'back' if dt < 0 else 'fwd']

    def axes(t):
        tw = samp.time_weights(g, t, True)
        U, V, W = (sum(w * d[i].astype(float) for i, w in tw) for d in D)
        return U, V, W

    def candidates(t, s):
        U, V, W = axes(t)
        dims = 3 if case['w'] else 2
        ax = (lon, lat, dep)[:dims]
        opts = []
        for a, v in zip(ax, s):
            o = []
            for i in range(len(a) - 1):
                r = (v - a[i]) / (a[i + 1] - a[i])
                if -1e-7 <= r <= 1 + 1e-7:
                    o.append((i, min(max(r, 0.), 1.)))
            opts.append(o)
        cells = [[c] for c in opts[0]]
        for o in opts[1:]:
            cells = [c + [q] for c in cells for q in o]
        for c in cells:
            i, j = c[0][0], c[1][0]
            k = c[2][0] if case['w'] else (max(0, np.searchsorted(dep, s[2], 'right') - 1) if len(dep) > 1 else 0)
            cosl = math.cos(math.radians(s[1])) if sph else 1.
            ab = [(U[k, j + 1, i], U[k, j + 1, i + 1]), (V[k, j, i + 1], V[k, j + 1, i + 1])]
            L = [(lon[i + 1] - lon[i]) * m * cosl, (lat[j + 1] - lat[j]) * m]
            if case['w']:
                ab.append((W[k, j + 1, i + 1], W[k + 1, j + 1, i + 1]))
                L.append(dep[k + 1] - dep[k])
            if sph:
                c0, c1 = math.cos(math.radians(lat[j])), math.cos(math.radians(lat[j + 1]))
                ab[1] = (ab[1][0] * c0 / cosl, ab[1][1] * c1 / cosl)
            yield c, [(a / q, b / q) for (a, b), q in zip(ab, L)], ax

    for start, hist, left in H:
        s = np.array(start)
        tot = 0.
        for k, (t, d, x, y, z) in enumerate(hist):
            got = np.array([x, y, z])
            rest = run - abs(t - t0)
            lim = rest      # dt is documented as not used; it may still bound a step
            if len(T) > 1:
                inter = sorted({min(lim, sgn * (q - t)) for a, b in zip(T[:-1], T[1:]) for q in np.linspace(a, b, 10)
                                if sgn * (q - t) > 1e-6 * (b - a)} | {lim})
                lims = inter[:1]
            else:
                lims = [lim]
            lims += [min(q, abs(dt)) for q in lims]
            good, seen = False, []
            for c, rates, ax in candidates(t, s):
                tc = [cross_time(q[1], a, b, sgn) for q, (a, b) in zip(c, rates)]
                tc = [math.inf if q < 1e-9 * abs(dt) else q for q in tc]
                end = []
                for q, (a, b), axis in zip(c, rates, ax):
                    r = face_move(q[1], a, b, d)
                    end.append(axis[q[0]] + r * (axis[q[0] + 1] - axis[q[0]]))
                end += [s[2]] if not case['w'] else []
                want = [min([l] + tc) for l in lims]
                seen.append((c, end, want))
                err = np.abs(got - np.array(end)) / np.array(h)
                tolr = 2e-4 if not sph else 2e-4
                if (err < tolr).all() and any(abs(abs(d) - w) < 1e-4 * abs(dt) for w in want) and d * sgn >= 0:
                    good = True
            if not good:
                raise Violation('ana: step %d from %s at t=%r moved to %s in dt=%r; expected (cell, end for that dt, dt) one of %s'
                                % (k, s.tolist(), t, got.tolist(), d, seen))
            ok += 1
            tot += d
            s = got
        if not left and len(hist) < NREC and abs(abs(tot) - run) > 1e-6 * run:
            raise Violation('ana: steps add up to %r instead of %r' % (tot, run))
        if left and len(hist) < NREC:
            labels.append('left')
            edge = any(abs(q - a[0]) < 1e-4 * hq or abs(q - a[-1]) < 1e-4 * hq for q, a, hq in zip(s, (lon, lat, dep)[:3 if case['w'] else 2], h))
            if not edge:
                raise Violation('ana: particle at %s inside the domain raised an out-of-domain error' % s.tolist())
    return {'nontrivial': ok > 0, 'labels': labels}


SUBCHECKS = [Sub('rk', lambda: st.sampled_from(['ee', 'rk4', 'rk43d']).flatmap(base), run_rk, quick=110, thorough=5000, budget=30),
             Sub('rk45', lambda: base('rk45'), run_rk45, quick=50, thorough=3000, budget=25),
             Sub('diffusion', diff_s, run_diff, quick=150, thorough=4000, budget=25),
             Sub('analytical', ana_s, run_ana, quick=200, thorough=5000, budget=20)]
