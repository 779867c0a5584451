"""C07: the same simulation organised in different ways."""
import linecache
import math
import os
import shutil
import tempfile
from datetime import timedelta
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (Field, FieldSet, NestedField, VectorField, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode, AdvectionRK4, AdvectionRK4_3D, AdvectionEE,
                     RectilinearZGrid, RectilinearSGrid, CurvilinearZGrid, CurvilinearSGrid)

PROPERTY = 'C07'
RULE = ('a case is a simulation (fields, particles with start times and lifetimes, kernels, number of steps) run in one go and organised in one to three other ways: '
        'split into executions, observed by output files and callbacks, divided over particle sets in another order, added while running, kernels handed over differently, '
        'other particle sets run in between. Non-trivial = at least one particle makes at least three steps inside the domain in an organisation that splits, divides, reorders or observes the run')
ASSUMPTIONS = ['start times, output intervals, callbacks and ends of executions are multiples of the time step, which is exactly representable',
               'kernels do not use random numbers or adaptive time steps']
F32 = np.float32

SRC = {
    'smp': '''def c07smp(particle, fieldset, time):
    particle.sp = particle.sp + fieldset.P[time, particle.depth, particle.lat, particle.lon]
''',
    'mem': '''def c07mem(particle, fieldset, time):
    particle.dist += math.sqrt((particle.lon - particle.plon)**2 + (particle.lat - particle.plat)**2)
    particle.plon = particle.lon
    particle.plat = particle.lat
    particle.n += 1
''',
    'life': '''def c07life(particle, fieldset, time):
    particle.age += math.fabs(particle.dt)
    if particle.age > particle.life:
        particle.delete()
''',
    'gone': '''def c07gone(particle, fieldset, time):
    if particle.lon > fieldset.wall:
        particle.delete()
''',
    'two': '''def c07two(particle, fieldset, time):
    p = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    if p > 0:
        particle.up = particle.up + p
    else:
        particle.down = particle.down + p * particle.dt
    (u, v) = fieldset.UV[time + particle.dt, particle.depth, particle.lat, particle.lon]
    particle.dist += u
''',
}


def function(src, name):
    fn = '<vp_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math}
    exec(compile(src, fn, 'exec'), ns)
    return ns['c07' + name]


K = {k: function(s, k) for k, s in SRC.items()}
K.update(rk4=AdvectionRK4, rk4_3d=AdvectionRK4_3D, ee=AdvectionEE)


def delpart(particle, fieldset, time):
    particle.delete()


def push(particle, fieldset, time):
    particle.lon = particle.home
    particle.lat = particle.home
    particle.depth = particle.homez
    particle.pushed += 1
    if particle.pushed > 9:
        particle.delete()


RECOVERY = {'delete': delpart, 'push': push}


def pclass(base):
    d = {v: Variable(v, dtype=t, initial=0., to_write=w) for v, t, w in (('sp', np.float64, True), ('dist', F32, True), ('plon', F32, False), ('plat', np.float64, False),
                                                                       ('n', np.int32, True), ('age', F32, True), ('up', F32, False), ('down', np.float64, True))}
    d['tag'] = Variable('tag', dtype=np.int32, initial=-1, to_write='once')
    d['life'] = Variable('life', dtype=F32, initial=1e9, to_write=False)
    d['home'] = Variable('home', dtype=F32, initial=1., to_write=False)
    d['homez'] = Variable('homez', dtype=F32, initial=0., to_write=False)
    d['pushed'] = Variable('pushed', dtype=np.int32, initial=0, to_write=False)
    return type('C07' + base.__name__, (base,), d)


PC = {'jit': pclass(JITParticle), 'scipy': pclass(ScipyParticle)}
OBS = ['time', 'lon', 'lat', 'depth', 'sp', 'dist', 'n', 'age', 'up', 'down', 'plon', 'plat']


@st.composite
def org_s(draw, n, N):
    """One way to organise the run of n particles over N steps."""
    k = draw(st.sampled_from([1, 1, 2, 3]))
    cuts = sorted({draw(st.integers(1, N)) for _ in range(k - 1)} | {N})
    nb = draw(st.sampled_from([1, 1, 2, n]))
    return {'cuts': cuts, 'out': draw(st.sampled_from([None, None, 1, 2, 3])), 'cb': draw(st.sampled_from([None, None, None, 1, 2])), 'perm': draw(st.integers(0, 99)),
            'nb': nb, 'inter': draw(st.booleans()), 'kern': draw(st.sampled_from(['func', 'kernel', 'each', 'reuse'])), 'end': draw(st.sampled_from(['end', 'run', 'td'])),
            'add': draw(st.sampled_from([False, False, True])), 'fresh': draw(st.booleans()), 'other': draw(st.sampled_from([None, None, 'before', 'between'])),
            'peek': draw(st.sampled_from([None, None, 'repr', 'eval', 'density', 'populate', 'pfile'])), 'first': draw(st.booleans()), 'progress': draw(st.sampled_from([False, False, False, True]))}


@st.composite
def case_s(draw):
    mode = draw(st.sampled_from(['jit', 'jit', 'jit', 'scipy']))
    nz = draw(st.sampled_from([1, 1, 2, 4]))
    c = {'n': [draw(st.sampled_from([1, 2, 3, 4])), nz, draw(st.integers(4, 9)), draw(st.integers(4, 9))], 'seed': draw(st.integers(0, 9999)),
         'curv': mode == 'jit' and draw(st.booleans()), 'stag': draw(st.sampled_from('AAACB')), 's': nz > 1 and draw(st.sampled_from([False, False, True])),
         'mode': mode, 'sph': draw(st.sampled_from([False, False, True])), 'f64': draw(st.sampled_from([None, True, False])), 'speed': draw(st.sampled_from([.05, .15, .3])),
         'per': draw(st.sampled_from([False, False, True])), 'comp': draw(st.sampled_from([None, None, None, 'sum', 'nest'])), 'pgrid': draw(st.sampled_from(['same', 'own'])),
         'sgn': draw(st.sampled_from([1, 1, -1])), 'dt': draw(st.sampled_from([1., 4., .25, 3600.])), 'rec': draw(st.sampled_from(['delete', 'delete', 'push']))}
    if c['stag'] != 'A':
        c['s'] = False
        c['comp'] = None if c['comp'] == 'nest' else c['comp']
    if c['per'] and c['n'][0] == 1:
        c['per'] = False
    adv = ['rk4', 'rk4', 'ee'] + (['rk4_3d', 'rk4_3d'] if nz > 1 else [])
    c['kern'] = [draw(st.sampled_from(adv))] + draw(st.lists(st.sampled_from(['smp', 'mem', 'life', 'gone', 'two']), max_size=3, unique=True))
    c['N'] = draw(st.integers(2, 9)) if mode == 'jit' else draw(st.integers(2, 5))
    c['start'] = draw(st.integers(0, 20))
    c['pts'] = draw(st.lists(st.tuples(st.integers(1, 63), st.integers(1, 63), st.integers(0, 63), st.sampled_from([0, 0, 0, 1, 2, 4]), st.sampled_from([99, 99, 1, 2, 4])),
                             min_size=1, max_size=6 if mode == 'jit' else 3))
    c['orgs'] = draw(st.lists(org_s(len(c['pts']), c['N']), min_size=1, max_size=3 if mode == 'jit' else 2))
    return c


def fieldset(c):
    nt, nz, ny, nx = c['n']
    r = np.random.RandomState(c['seed'])
    sc = .05 if c['sph'] else 1.
    lon, lat = sc * np.arange(nx, dtype=float), sc * np.arange(ny, dtype=float)
    if c['curv']:
        lon, lat = np.meshgrid(lon, lat)
        lon, lat = lon + .1 * lat, lat - .1 * lon
    lon, lat = lon.astype(F32), lat.astype(F32)
    depth = np.arange(nz) * 2.
    time = np.arange(nt) * 5. * c['dt']
    mesh = 'spherical' if c['sph'] else 'flat'
    if c['s']:
        z = np.broadcast_to(depth[:, None, None], (nz, ny, nx)) * (1 + .05 * np.sin(np.arange(ny))[None, :, None] + .03 * np.cos(np.arange(nx))[None, None, :])
        depth = z.astype(F32)
    G = {(False, False): RectilinearZGrid, (True, False): CurvilinearZGrid, (False, True): RectilinearSGrid, (True, True): CurvilinearSGrid}[(c['curv'], c['s'])]

    def grid():
        return G(lon, lat, depth=depth, time=time.copy(), mesh=mesh)
    vel, tr, w = {'A': ('linear', 'linear', 'linear'), 'C': ('cgrid_velocity', 'cgrid_tracer', 'cgrid_velocity'), 'B': ('bgrid_velocity', 'bgrid_tracer', 'bgrid_w_velocity')}[c['stag']]
    kw = {'time_periodic': nt * 5. * c['dt']} if c['per'] else {'allow_time_extrapolation': True}
    amp = c['speed'] / c['dt'] * (sc * 1852 * 60 if c['sph'] else 1.)

    def fld(name, g, a, m):
        D = .03 * r.uniform(-1, 1, (nt, nz, ny, nx)) + r.uniform(-1, 1, (nt, 1, 1, 1))
        if a is None:
            D, a = r.uniform(-1, 1, (nt, nz, ny, nx)), 1.
        return Field(name, (a * D).astype(F32), grid=g, interp_method=m, **kw)
    g = grid()
    U, V = fld('U', g, amp, vel), fld('V', g, amp, vel)
    others = {}
    if nz > 1:
        others['W'] = fld('W', g, .3 * c['speed'] / c['dt'], w)
    if c['comp'] == 'sum':
        g2 = g if c['seed'] % 2 else grid()
        U, V = U + fld('U', g2, .3 * amp, vel), V + fld('V', g2, .3 * amp, vel)
        if nz > 1:
            others['W'] = others['W'] + fld('W', g2, .1 * c['speed'] / c['dt'], w)
    elif c['comp'] == 'nest' and nz == 1:
        # a small inner grid
        sub = RectilinearZGrid(sc * np.linspace(1, nx / 2., 3).astype(F32), sc * np.linspace(1, ny / 2., 3).astype(F32), time=time.copy(), mesh=mesh)
        inner = [Field(n, (amp * r.uniform(-1, 1, (nt, 1, 1)) * np.ones((nt, 3, 3))).astype(F32), grid=sub, **kw) for n in 'UV']
        U, V = NestedField('U', [inner[0], U]), NestedField('V', [inner[1], V])
    fs = FieldSet(U, V, others)
    fs.add_field(fld('P', g if c['pgrid'] == 'same' else grid(), None, tr))
    fs.add_constant('wall', float(sc * .8 * (nx - 1)))
    fs.check_complete()
    return fs


def place(c):
    nt, nz, ny, nx = c['n']
    sc = .05 if c['sph'] else 1.
    out = []
    for k, p in enumerate(c['pts']):
        x, y = p[0] / 64. * (nx - 1) + .001 * k, p[1] / 64. * (ny - 1) + .002 * k
        if c['curv']:
            x, y = x + .1 * y, y - .1 * x
        t = c['start'] * c['dt'] + c['sgn'] * p[3] * c['dt']
        out.append({'lon': float(F32(sc * x)), 'lat': float(F32(sc * y)), 'depth': float(F32(p[2] / 64. * (nz - 1) * 1.8)), 't': t, 'life': p[4] * c['dt'] - .5 * c['dt'], 'tag': k,
                    'home': float(F32(sc * 1.7)), 'homez': .8 * (nz - 1)})
    return out


def make(c, fs, parts):
    ldt = {None: None, True: np.float64, False: F32}[c['f64']]
    return ParticleSet(fs, PC[c['mode']], lon=[p['lon'] for p in parts], lat=[p['lat'] for p in parts], depth=[p['depth'] for p in parts], time=[p['t'] for p in parts],
                       life=[p['life'] for p in parts], tag=[p['tag'] for p in parts], home=[p['home'] for p in parts], homez=[p['homez'] for p in parts], lonlatdepth_dtype=ldt)


def simulate(c, o, fs, root):
    dt, sgn, N = c['dt'], c['sgn'], c['N']
    T0 = c['start'] * dt
    parts = place(c)
    order = list(np.random.RandomState(o['perm']).permutation(len(parts))) if o['perm'] else list(range(len(parts)))
    parts = [parts[i] for i in order]
    groups = [parts[i::o['nb']] for i in range(o['nb'])]
    groups = [g for g in groups if g]
    cuts = list(o['cuts'])
    runs = []
    pop = {k: RECOVERY[c['rec']] for k in (ErrorCode.ErrorOutOfBounds, ErrorCode.ErrorThroughSurface)}

    def kernel(ps):
        k = None
        for n in c['kern']:
            f = ps.Kernel(K[n])
            k = f if k is None else k + (K[n] if o['kern'] == 'func' else f)
        return k
    nobs = 0

    def interfere():
        q = make(c, fs, [dict(p, t=T0 + 3 * dt, life=1e9, tag=-1) for p in place(c)[:2]])
        q.execute(AdvectionRK4, runtime=2 * dt, dt=-sgn * dt, recovery=pop, verbose_progress=False)

    class Run:
        def __init__(self, gi, parts):
            later = []
            if o['add'] and len(cuts) > 1:
                later = [p for p in parts if sgn * (p['t'] - T0) >= cuts[0] * dt]
                parts = [p for p in parts if p not in later]
            self.later = [make(c, fs, [p]) for p in later] if o['first'] else [p for p in later]
            self.ps = make(c, fs, parts)
            self.kern = kernel(self.ps)
            self.pfile = None
            if o['out']:
                self.pfile = self.ps.ParticleFile(os.path.join(root, 'o%d.nc' % gi), outputdt=o['out'] * dt)
                self.pfile.convert_at_end = False

        def go(self, i):
            ps = self.ps
            end = T0 + sgn * cuts[i] * dt
            if i > 0 and self.later:
                for q in self.later:
                    ps.add(q if o['first'] else make(c, fs, [q]))
                self.later = []
            if len(ps) == 0:
                return
            times = [p.time for p in ps]
            start = min(times) if sgn > 0 else max(times)
            if sgn * (end - start) <= 0:
                return
            kern = self.kern
            if o['kern'] == 'each':
                kern = kernel(ps)
            elif o['kern'] == 'func' and len(c['kern']) == 1:
                kern = K[c['kern'][0]]
            kw = {}
            if o['end'] == 'end':
                kw['endtime'] = end
            elif o['end'] == 'run':
                kw['runtime'] = abs(end - start)
            else:
                kw['runtime'] = timedelta(seconds=abs(end - start))
            if o['cb']:
                kw['callbackdt'] = o['cb'] * dt
                kw['postIterationCallbacks'] = [lambda: None]
            if self.pfile is not None:
                kw['output_file'] = self.pfile
            ps.execute(kern, dt=sgn * dt, recovery=pop, verbose_progress=o['progress'], **kw)
            self.peek()

        def peek(self):
            k = o['peek']
            if len(self.ps) == 0:
                return
            if k == 'repr':
                str(self.ps), [p.lon for p in self.ps]
            elif k == 'eval':
                p = place(c)[0]
                for t in (T0, T0 + 7 * dt, T0 - dt):
                    try:
                        fs.UV.eval(t, p['depth'], p['lat'], p['lon'])
                    except Exception:       # the point may be outside after rounding
                        pass
            elif k == 'density' and c['n'][1] == 1 and c['comp'] is None and not c['curv'] and c['stag'] == 'A':
                g = fs.U.grid
                if all(g.lon[0] <= p.lon <= g.lon[-1] and g.lat[0] <= p.lat <= g.lat[-1] for p in self.ps):
                    self.ps.density()
            elif k == 'populate':
                self.ps.populate_indices()
            elif k == 'pfile' and self.pfile is not None and self.pfile.time_written:
                self.pfile.export()
    if o['other'] == 'before':
        interfere()
    runs = [Run(i, g) for i, g in enumerate(groups)]
    if o['inter']:
        for i in range(len(cuts)):
            for r in runs:
                r.go(i)
            if o['other'] == 'between':
                interfere()
    else:
        for r in runs:
            for i in range(len(cuts)):
                r.go(i)
            if o['other'] == 'between':
                interfere()
    out = {}
    for r in runs:
        for p in r.ps:
            if int(p.tag) in out:
                raise Violation('particle %d is there twice' % int(p.tag))
            out[int(p.tag)] = {v: float(getattr(p, v)) for v in OBS}
        for q in r.later:
            raise Violation('later particle not added')
    return out


BASE = {'cuts': None, 'out': None, 'cb': None, 'perm': 0, 'nb': 1, 'inter': False, 'kern': 'kernel', 'end': 'end', 'add': False, 'fresh': True, 'other': None, 'peek': None, 'first': False,
        'progress': False}


def run(c):
    root = tempfile.mkdtemp(prefix='c07_')
    try:
        fs = fieldset(c)
        os.mkdir(os.path.join(root, 'ref'))
        ref = simulate(c, dict(BASE, cuts=[c['N']]), fs, os.path.join(root, 'ref'))
        labels = [c['mode'], c['stag'] + '-grid', 'curv' if c['curv'] else 'rect', c['comp'] or 'single', 'periodic' if c['per'] else 'nt%d' % min(2, c['n'][0])]
        nontrivial = False
        for i, o in enumerate(c['orgs']):
            d = os.path.join(root, str(i))
            os.mkdir(d)
            got = simulate(c, o, fieldset(c) if o['fresh'] else fs, d)
            what = 'organised as %s' % {k: v for k, v in o.items() if v != BASE[k]}
            if set(got) != set(ref):
                raise Violation('%s: particles %r are left, in one go %r' % (what, sorted(got), sorted(ref)))
            for k in ref:
                bad = {v: (got[k][v], ref[k][v]) for v in OBS if not abs(got[k][v] - ref[k][v]) <= 1e-6 * (1 + abs(ref[k][v]))}
                if bad:
                    raise Violation('%s: particle %d ends with (value, value in one go) %r' % (what, k, bad))
            differs = len(o['cuts']) > 1 or o['out'] or o['cb'] or o['nb'] > 1 or o['perm'] or o['other']
            if differs and c['N'] >= 3 and any(c['pts'][k][3] <= c['N'] - 3 for k in ref):
                nontrivial = True
            labels += [x for x, y in (('split', len(o['cuts']) > 1), ('output', o['out']), ('callbacks', o['cb']), ('divided', o['nb'] > 1), ('added', o['add']),
                                      ('others', o['other'])) if y]
        return {'nontrivial': nontrivial, 'labels': sorted(set(labels))}
    finally:
        shutil.rmtree(root, ignore_errors=True)


SUBCHECKS = [Sub('organise', case_s, run, quick=300, thorough=5000, budget=85)]
