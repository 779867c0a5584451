"""C08: deferred and chunked loading give the results of data held in memory."""
import linecache
import os
import shutil
import tempfile
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode, AdvectionRK4, AdvectionRK4_3D, AdvectionEE

PROPERTY = 'C08'
RULE = ('a case is a generated data set of up to 7 snapshots spread over files, a history of executions (kernels, directions, particles added and leaving) and '
        'loading configurations (deferred or not; no chunks, automatic chunks, chunk sizes per dimension); every configuration is compared with the data loaded '
        'in memory. Non-trivial = a particle is advected or sampled inside the domain with a configuration that is deferred over more than two snapshots or has more than one chunk')
ASSUMPTIONS = ['snapshots are at whole time steps', 'the names of the dimensions are given with the chunk sizes or are among the names known to Parcels']
F32 = np.float32

SRC = '''def smp{k}(particle, fieldset, time):
    particle.{v} = particle.{v} + fieldset.{f}[time, particle.depth, particle.lat, particle.lon]
'''


def function(name, k, v, f):
    src = SRC.format(k=k, v=v, f=f)
    fn = '<%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {}
    exec(compile(src, fn, 'exec'), ns)
    return ns['smp' + str(k)]


SP = function('c08p', 1, 'sp', 'P')
SQ = function('c08q', 2, 'sq', 'Q')


def delpart(particle, fieldset, time):
    particle.delete()


def pclass(base):
    return type('C08' + base.__name__, (base,), {'sp': Variable('sp', dtype=np.float64, initial=0.), 'sq': Variable('sq', dtype=np.float64, initial=0.)})


PC = {'jit': pclass(JITParticle), 'scipy': pclass(ScipyParticle)}
DIMN = {'odd': ('clock', 'zz', 'yy', 'xx'), 'std': ('time', 'depth', 'lat', 'lon'), 'nemo': ('time_counter', 'deptht', 'y', 'x')}


@st.composite
def cfg(draw, n):
    """One way to load the data."""
    kind = draw(st.sampled_from(['none', 'false', 'auto', 'dict', 'dict', 'dict', 'dict']))
    c = {'defer': draw(st.sampled_from([True, True, True, False])), 'chunks': kind}
    if kind == 'dict':
        c['size'] = {}
        for ax, m in zip(('time', 'depth', 'lat', 'lon'), n):
            c['size'][ax] = 1 if ax == 'time' else draw(st.one_of(st.integers(2, max(2, m)), st.just(m + 3), st.just(1)))
        if draw(st.integers(0, 4)) == 0:
            c['size'].pop(draw(st.sampled_from(['time', 'depth', 'lat', 'lon'])))
        if draw(st.integers(0, 4)) == 0:
            c['size'].pop('depth', None)
    return c


@st.composite
def load_s(draw):
    nx, ny = draw(st.integers(4, 14)), draw(st.integers(4, 14))
    nz = draw(st.sampled_from([1, 1, 3, 6]))
    nt = draw(st.sampled_from([1, 2, 3, 4, 5, 7]))
    c = {'n': [nt, nz, ny, nx], 'seed': draw(st.integers(0, 999)), 'curv': draw(st.booleans()), 'grad': draw(st.booleans()),
         'dn': draw(st.sampled_from(sorted(DIMN))), 'zdim': nz > 1 or draw(st.booleans()),
         'split': draw(st.integers(1, nt)), 'per': draw(st.integers(0, 3)) == 0 and nt > 1, 'mode': draw(st.sampled_from(['jit', 'jit', 'jit', 'scipy'])),
         'adv': draw(st.sampled_from(['rk4', 'rk4', 'ee'])) if nz == 1 else draw(st.sampled_from(['rk4', 'rk4_3d', 'ee'])), 'w': nz > 1,
         'q': draw(st.sampled_from([None, None, 'own', 'times'])), 'fact': draw(st.sampled_from([2, 2, 3, 5])),
         'speed': draw(st.sampled_from([.05, .15, .3]))}
    c['nan'], c['scale'], c['vlim'] = draw(st.booleans()), draw(st.sampled_from([None, None, 2., -.5])), draw(st.sampled_from([None, None, None, .75]))
    c['stag'] = draw(st.sampled_from('AACB'))
    c['tdim'] = nt > 1 or draw(st.booleans())
    c['cfgs'] = draw(st.lists(cfg((nt, nz, ny, nx)), min_size=1, max_size=2))
    ind = {}
    if draw(st.integers(0, 3)) == 0:
        for ax, n in (('lon', nx), ('lat', ny)):
            if draw(st.booleans()):
                a = draw(st.integers(0, n - 3))
                ind[ax] = [a, draw(st.integers(a + 3, n))]
    c['ind'] = ind
    pos = st.tuples(st.integers(1, 63), st.integers(1, 63), st.integers(0, 63), st.integers(0, 12))
    c['pts'] = draw(st.lists(pos, min_size=1, max_size=5))
    # executions: [steps in +-, kernels]
    c['exe'] = draw(st.lists(st.fixed_dictionaries({'steps': st.integers(1, 14), 'back': st.sampled_from([False, False, True]),
                                                    'kern': st.sampled_from(['a', 'ap', 'ap', 'aq', 'p', 'pq', 'apq']),
                                                    'add': st.sampled_from([False, False, False, True])}), min_size=1, max_size=3))
    if c['mode'] == 'scipy':        # interpreted sampling of chunked data and searching outside curvilinear grids take very long
        c['curv'], c['pts'], c['cfgs'] = False, c['pts'][:2], c['cfgs'][:1]
        for e in c['exe']:
            e['steps'] = min(e['steps'], 4)
    c['start'] = draw(st.integers(0, nt * c['fact']))
    return c


def mkdata(c, k, nt, nz, ny, nx):
    r = np.random.RandomState(4000 + 7 * c['seed'] + k)
    return r.randint(-8, 9, (nt, nz, ny, nx)).astype(float) / 8.


def writefiles(c, root):
    nt, nz, ny, nx = c['n']
    tn, zn, yn, xn = DIMN[c['dn']]
    files, files2 = [], []
    lon, lat = np.arange(nx, dtype=float), np.arange(ny, dtype=float)
    if c['curv']:
        lon, lat = np.meshgrid(lon, lat)
        lon, lat = lon + .1 * lat, lat - .1 * lon
    T = np.arange(nt) * c['fact'] * 4.

    def one(fn, T, sel, vars, zlev):
        with netCDF4.Dataset(fn, 'w') as nc:
            for d, m in ((tn, len(sel)), (zn, len(zlev)), (yn, ny), (xn, nx)):
                if (d != zn or c['zdim']) and (d != tn or c['tdim']):
                    nc.createDimension(d, m)
            dims = [d for d in (tn, zn, yn, xn) if (d != zn or c['zdim']) and (d != tn or c['tdim'])]
            if c['curv'] or c['dn'] == 'nemo':
                la, lo = (lat, lon) if c['curv'] else np.meshgrid(lat, lon, indexing='ij')
                nc.createVariable('nav_lon', 'f4', (yn, xn))[:] = lo
                nc.createVariable('nav_lat', 'f4', (yn, xn))[:] = la
            else:
                nc.createVariable(xn, 'f4', (xn,))[:] = lon
                nc.createVariable(yn, 'f4', (yn,))[:] = lat
            if c['zdim']:
                nc.createVariable(zn, 'f4', (zn,))[:] = zlev
            if c['tdim']:
                nc.createVariable(tn, 'f8', (tn,))[:] = T[sel]
            for n, D in vars.items():
                v = D[sel] if c['zdim'] else D[sel][:, 0]
                nc.createVariable('v' + n, 'f4', dims)[:] = v if c['tdim'] else v[0]
    arr = {n: mkdata(c, k, nt, nz, ny, nx) for k, n in enumerate('UVWP')}
    if c.get('nan'):        # land
        arr['P'][:, np.random.RandomState(c['seed'] + 5).rand(nz, ny, nx) < .3] = np.nan
    # a flow that crosses the domain without being sensitive to rounding: uniform per snapshot plus a little noise
    r = np.random.RandomState(c['seed'])
    for n, amp in (('U', c['speed']), ('V', c['speed']), ('W', .3 * c['speed'])):
        arr[n] = .03 * arr[n] + amp * np.repeat(r.uniform(-1, 1, (nt + 1) // 2), 2)[:nt, None, None, None]
    for k in range(0, nt, c['split']):
        fn = os.path.join(root, 'a_%02d.nc' % k)
        one(fn, T, list(range(k, min(nt, k + c['split']))), arr, np.arange(nz) * 2.)
        files.append(fn)
    if c['q'] == 'own':         # another file on the same grid
        fn = os.path.join(root, 'b.nc')
        one(fn, T, list(range(nt)), {'Q': mkdata(c, 9, nt, nz, ny, nx)}, np.arange(nz) * 2.)
        files2.append(fn)
    elif c['q'] == 'times':     # other times
        m = c['fact'] * (nt - 1) + 1
        fn = os.path.join(root, 'b.nc')
        one(fn, np.arange(m) * 4., list(range(m)), {'Q': mkdata(c, 9, m, nz, ny, nx)}, np.arange(nz) * 2.)
        files2.append(fn)
    return files, files2


def load(c, cf, files, files2):
    nt, nz, ny, nx = c['n']
    tn, zn, yn, xn = DIMN[c['dn']]
    two = c['curv'] or c['dn'] == 'nemo'
    dims = {'lon': 'nav_lon' if two else xn, 'lat': 'nav_lat' if two else yn}
    if c['zdim']:
        dims['depth'] = zn
    if c['tdim']:
        dims['time'] = tn
    names = ['U', 'V', 'P'] + (['W'] if c['w'] else []) + (['Q'] if files2 else [])
    ch = {'none': None, 'false': False, 'auto': 'auto', 'dict': None}[cf['chunks']]
    if cf['chunks'] == 'dict':
        ch = {}
        for ax, d in (('time', tn), ('depth', zn), ('lat', yn), ('lon', xn)):
            if ax in cf['size'] and (ax != 'depth' or c['zdim']) and (ax != 'time' or c['tdim']):
                ch[ax] = (d, cf['size'][ax])
        if not any(v[1] > 1 for v in ch.values()):
            return None             # Parcels asks for at least one dimension with chunks of more than one value
    kw = {}
    if c['per']:
        kw['time_periodic'] = float(nt * c['fact'] * 4.)
    if nt == 1:
        kw['allow_time_extrapolation'] = True
    inds = {ax: range(*r) for ax, r in c['ind'].items()} if c['ind'] else None
    if c['stag'] != 'A':
        vel, tr, w = {'C': ('cgrid_velocity', 'cgrid_tracer', 'cgrid_velocity'), 'B': ('bgrid_velocity', 'bgrid_tracer', 'bgrid_w_velocity')}[c['stag']]
        kw['interp_method'] = {n: {'U': vel, 'V': vel, 'W': w}.get(n, tr) for n in names}
    fl = {n: (files2 if n == 'Q' else files) for n in names}
    if inds:
        inds = {n: dict(inds) for n in names}
    if c.get('vlim'):
        kw['vmin'], kw['vmax'] = -c['vlim'], c['vlim']
    fs = FieldSet.from_netcdf(fl, {n: 'v' + n for n in names}, dims, indices=inds, mesh='flat', deferred_load=cf['defer'], chunksize=ch, **kw)
    if c.get('scale'):
        for n in names[2:]:
            getattr(fs, n).set_scaling_factor(c['scale'])
    return fs


def simulate(c, fs):
    """Run the history; returns the particles after every execution, or the kind of error."""
    nt, nz, ny, nx = c['n']
    T1 = (nt - (0 if c['per'] else 1)) * c['fact'] * 4.
    i0, i1 = c['ind'].get('lon', [0, nx])
    j0, j1 = c['ind'].get('lat', [0, ny])

    def place(p):
        x, y = i0 + p[0] / 64. * (i1 - 1 - i0), j0 + p[1] / 64. * (j1 - 1 - j0)
        if c['curv']:
            x, y = x + .1 * y, y - .1 * x
        return float(F32(x)), float(F32(y)), float(F32(p[2] / 64. * (nz - 1) * 2.))
    lim = T1 if nt > 1 else 1e9
    now = c['start'] * 4. if c['per'] or nt == 1 else min(c['start'] * 4., T1)
    P = [place(p) for p in c['pts']]
    # pclass is drawn to the side of the time range that the execution allows
    pset = ParticleSet(fs, PC[c['mode']], lon=[p[0] for p in P], lat=[p[1] for p in P], depth=[p[2] for p in P], time=now)
    adv = {'rk4': AdvectionRK4, 'rk4_3d': AdvectionRK4_3D, 'ee': AdvectionEE}[c['adv']]
    out, ran = [], False
    cache = {}
    for ex in c['exe']:
        if ex['add']:
            P = [place(((p[0] + 20) % 63 + 1, (p[1] * 3) % 63 + 1, p[2])) for p in c['pts']]
            pset.add(ParticleSet(fs, PC[c['mode']], lon=[p[0] for p in P], lat=[p[1] for p in P], depth=[p[2] for p in P], time=now))
        steps = ex['steps']
        sgn = -1 if ex['back'] else 1
        if not c['per'] and (now <= 0 if sgn < 0 else now >= lim):
            sgn = -sgn
        if not c['per']:
            room = int((lim - now) / 4.) if sgn > 0 else int(now / 4.)
            steps = min(steps, room)
        if steps == 0 or len(pset) == 0:
            continue
        key = ex['kern'] if 'q' not in ex['kern'] or hasattr(fs, 'Q') else ex['kern'].replace('q', 'p')
        if key not in cache:
            ks = [k for ch, k in (('a', adv), ('p', SP), ('q', SQ)) if ch in key]
            kern = pset.Kernel(ks[0])
            for k in ks[1:]:
                kern = kern + pset.Kernel(k)
            cache[key] = kern
        pset.execute(cache[key], runtime=steps * 4., dt=sgn * 4., verbose_progress=False,
                     recovery={ErrorCode.ErrorOutOfBounds: delpart, ErrorCode.ErrorThroughSurface: delpart})
        now += sgn * steps * 4.
        ran = ran or len(pset) > 0
        base = min(p.id for p in pset) if len(pset) else 0
        out.append([(int(p.id) - base, p.time, float(p.lon), float(p.lat), float(p.depth), float(p.sp), float(p.sq)) for p in pset])
    return out, ran


def run(c):
    root = tempfile.mkdtemp(prefix='c08_')
    try:
        files, files2 = writefiles(c, root)
        ref, ran = simulate(c, load(c, {'defer': False, 'chunks': 'none'}, files, files2))
        big = False
        labels = [c['mode'], c['stag'] + '-grid', 'curv' if c['curv'] else 'rect', '%dD' % (3 if c['n'][1] > 1 else 2), 'periodic' if c['per'] else 'nt%d' % min(3, c['n'][0]), c['dn']]
        for cf in c['cfgs']:
            fs = load(c, cf, files, files2)
            if fs is None:
                continue
            what = '%s, chunks %s' % ('deferred' if cf['defer'] else 'loaded', cf['size'] if cf['chunks'] == 'dict' else cf['chunks'])
            labels.append(cf['chunks'] + (' deferred' if cf['defer'] else ''))
            got, _ = simulate(c, fs)
            big = big or (cf['defer'] and c['n'][0] > 2) or cf['chunks'] == 'dict'
            if len(got) != len(ref):
                raise Violation('%s: %d executions instead of %d' % (what, len(got), len(ref)))
            for k, (a, b) in enumerate(zip(ref, got)):
                if [p[0] for p in a] != [p[0] for p in b]:
                    raise Violation('%s: particles after execution %d are %s, with data in memory %s' % (what, k, [p[0] for p in b], [p[0] for p in a]))
                for p, q in zip(a, b):
                    if not np.allclose(p, q, rtol=1e-5, atol=2e-3):
                        raise Violation('%s: after execution %d (id, time, lon, lat, depth, samples) are %s, with data in memory %s' % (what, k, q, p))
        return {'nontrivial': ran and big, 'labels': labels}
    finally:
        shutil.rmtree(root, ignore_errors=True)


SUBCHECKS = [Sub('load', load_s, run, quick=100, thorough=4000, budget=90)]
