"""C10: fields imported from arrays, files and datasets, and exported."""
import os
import shutil
import tempfile
import netCDF4
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from vp import samp, vec
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode

PROPERTY = 'C10'
RULE = ('a case is a generated data set (rectilinear or curvilinear, z- or s-levels, any order of latitudes and depths, missing values, packed or '
        'double precision storage) written in one of many layouts (one or more files, own files for coordinates, 1D or 2D coordinates, with or without '
        'depth and time dimensions, time stamps, index subsets, alternative variable names) and imported through one of the constructors, eagerly or '
        'deferred, or written by Parcels and read back; oracle is the reference interpolation of the original arrays. Non-trivial = a point inside '
        'is sampled from data of more than one value')
ASSUMPTIONS = ['missing values count as zero', 'model time is relative to the first snapshot of the velocity for files and xarray data']
F32 = np.float32
NAMES = ('U', 'V', 'P', 'Q')
SCALE = {'seconds': 1., 'hours': 3600., 'days': 86400.}
LOADS = ['eager', 'eager', 'defer', 'defer', 'xarray', 'data', 'dataT', 'write', 'writedefer']


def pclass(base):
    return type('C10' + base.__name__, (base,), {
        'a': Variable('a', dtype=np.float64, initial=0.), 'b': Variable('b', dtype=np.float64, initial=0.),
        'c': Variable('c', dtype=np.float64, initial=0.), 'd': Variable('d', dtype=np.float64, initial=0.),
        'ts': Variable('ts', dtype=np.float64, initial=0.), 'err': Variable('err', dtype=np.int32, initial=0)})


PC = {'jit': pclass(JITParticle), 'scipy': pclass(ScipyParticle)}


def sample4(particle, fieldset, time):
    particle.a = fieldset.U[time, particle.depth, particle.lat, particle.lon]
    particle.b = fieldset.V[time, particle.depth, particle.lat, particle.lon]
    particle.c = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.d = fieldset.Q[time, particle.depth, particle.lat, particle.lon]


@st.composite
def import_s(draw):
    load = draw(st.sampled_from(LOADS))
    kinds = ('rz', 'rz', 'cz') if load.startswith('write') else ('rz', 'rz', 'rs', 'cz', 'cs')
    g = draw(samp.grids(kinds=kinds, max_n=5, max_z=4, max_t=4))
    if g.get('wrap'):
        g['wrap'] = False
    far = g['mesh'] == 'flat' and draw(st.integers(0, 2)) == 0
    if far:        # far from the origin of the coordinates
        off, sc = (2. ** 18, .5) if g['kind'][0] == 'r' else (2. ** 17, 2.)
        for ax in ('lon', 'lat'):
            unit = min(b - a for a, b in zip(g[ax], g[ax][1:]))
            g[ax] = [off + sc * round((v - g[ax][0]) / unit) for v in g[ax]]
        g['jit'] = 0.
        g['far'] = True
    if load in ('data', 'dataT', 'write') and draw(st.integers(0, 2)) == 0:
        g['time'] = [t + 2. ** 30 for t in g['time']]
    nt = len(g['time'])
    c = {'g': g, 'load': load, 'seed': draw(st.integers(0, 999)), 'miss': draw(st.sampled_from([0, 0, .2, .5])),
         'store': draw(st.sampled_from(['f4', 'f4', 'f8', 'i2'])), 'latrev': g['kind'][0] == 'r' and draw(st.integers(0, 3)) == 0,
         'vmin': draw(st.sampled_from([None, None, None, -20., 3.])), 'vmax': draw(st.sampled_from([None, None, None, 30.])),
         'method': draw(st.sampled_from(['linear', 'linear', 'nearest', 'cgrid_tracer', 'linear_invdist_land_tracer'])),
         'ftype': draw(st.sampled_from([None, None, 'U', 'Kh_meridional'])), 'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])),
         'dates': draw(st.sampled_from([None, 'seconds', 'hours', 'days']))}
    c['split'] = [1] * nt if draw(st.booleans()) else [nt]
    if nt > 2 and draw(st.booleans()):
        k = draw(st.integers(1, nt - 1))
        c['split'] = [k, nt - k]
    c['fnames'] = draw(st.sampled_from(['list', 'list', 'wild', 'var', 'varwild', 'dims', 'vardims']))
    c['coord2d'] = g['kind'][0] == 'r' and draw(st.booleans())
    c['coordt'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['flatdims'] = draw(st.booleans())         # leave out dimensions of length one
    c['alt'] = draw(st.booleans())
    c['stamps'] = draw(st.integers(0, 4)) == 0
    c['dimdict'] = draw(st.booleans())
    c['indkind'] = draw(st.sampled_from(['range', 'list']))
    ind = {}
    if load in ('eager', 'defer', 'write', 'writedefer') and draw(st.booleans()):
        for ax, n, lo in (('lon', len(g['lon']), 2), ('lat', len(g['lat']), 2), ('depth', len(g['depth']), 1 if g['kind'][1] == 'z' else 2)):
            if n > lo and draw(st.booleans()):
                a = draw(st.integers(0, n - lo))
                b = draw(st.integers(a + lo, n))
                ind[ax] = [a, b]
    c['ind'] = ind
    c['q'] = draw(st.one_of(st.none() if not far else st.nothing(), st.fixed_dictionaries({'n': st.tuples(st.integers(2, 4), st.integers(2, 4)), 't': st.sampled_from(['same', 'one', 'ends', 'more']),
                                                            'stag': st.sampled_from([None, None, .5, .125] if not far else [.5, .25]), 'dep': st.sampled_from([None, None, None, .25, 1.]), 'shift': st.sampled_from([0, 0, 0, .25, .5])})))
    c['mix'] = load in ('eager', 'defer') and draw(st.integers(0, 3)) == 0
    if c['mix'] and not c['dates']:
        c['dates'] = 'seconds'
    gs = subset(g, ind)
    c['pts'] = draw(samp.points(gs, 6))
    c['times'] = draw(st.lists(st.tuples(st.integers(0, max(0, nt - 2)), st.sampled_from([0, 0, 4, 8, 13, 16])), min_size=1, max_size=4))
    c['order'] = draw(st.sampled_from(['up', 'up', 'down', 'any']))
    return c


def subset(g, ind):
    return dict(g, **{ax: g[ax][ind[ax][0]:ind[ax][1]] for ax in ind})


def cut(a, ind, nd):
    """Apply index ranges to an array whose last nd axes are (depth,) lat, lon."""
    for ax, k in (('lon', 1), ('lat', 2), ('depth', 3)):
        if ax in ind and nd >= k:
            s = [slice(None)] * a.ndim
            s[a.ndim - k] = slice(*ind[ax])
            a = a[tuple(s)]
    return a


def subcoords(C, ind):
    return (C[0][slice(*ind.get('lon', [None, None]))] if C[0].ndim == 1 else cut(C[0], ind, 2),
            C[1][slice(*ind.get('lat', [None, None]))] if C[1].ndim == 1 else cut(C[1], ind, 2),
            C[2][slice(*ind.get('depth', [None, None]))] if C[2].ndim == 1 else cut(C[2], ind, 3))


def second(c):
    """Description of the grid of Q: a rectilinear one that covers the other."""
    g = c['g']
    lon, lat, _ = samp.coords(g)
    nx, ny = c['q']['n']
    ex, ey = .3 * float(lon.max() - lon.min()), .2 * float(lat.max() - lat.min())
    T = g['time']
    if c['q']['t'] == 'one' or len(T) == 1:
        T2 = T[:1] if len(T) == 1 else T[:]
        T2 = T2[:1]
    elif c['q']['t'] == 'ends':
        T2 = [T[0], T[-1]]
    elif c['q']['t'] == 'more':
        T2 = sorted(set(T + [T[0] + (T[-1] - T[0]) / 8., T[0] + (T[-1] - T[0]) * 5 / 8.]))
    else:
        T2 = T
    if c['q']['shift'] and len(T2) > 1:
        T2 = [t + c['q']['shift'] * (T2[1] - T2[0]) for t in T2]
    if c['q'].get('dep') and g['kind'][1] == 'z' and len(g['depth']) > 1:      # same positions, other levels
        z = g['depth']
        return dict(g, depth=[z[0]] + [v + c['q']['dep'] * (z[1] - z[0]) for v in z[1:]], time=list(T2))
    if c['q']['stag'] and g['kind'] == 'rz':
        sx, sy = (c['q']['stag'] * (g[ax][1] - g[ax][0]) for ax in ('lon', 'lat'))
        return dict(g, lon=[v + sx for v in g['lon']], lat=[v + sy for v in g['lat']], time=list(T2))
    lat2 = np.linspace(max(-89., float(lat.min()) - ey) if g['mesh'] == 'spherical' else float(lat.min()) - ey,
                       min(89., float(lat.max()) + ey) if g['mesh'] == 'spherical' else float(lat.max()) + ey, ny)
    return {'kind': 'rz', 'mesh': g['mesh'], 'lon': [float(v) for v in np.linspace(float(lon.min()) - ex, float(lon.max()) + ex, nx).astype(F32)],
            'lat': [float(v) for v in lat2.astype(F32)], 'depth': [0.], 'time': list(T2)}


def shifted(c, g, g2):
    return g2['time'][0] > g['time'][0] or g2['time'][-1] < g['time'][-1]


def data(g, c, k):
    D = samp.field_data(g, c['seed'] + k).astype(float)
    r = np.random.RandomState(c['seed'] + 77 + k)
    return D, r.rand(*D.shape) < c['miss']


def tofile(fn, c, g, C, vars, sel, what):
    """vars: {name in file: (data, missing)}; sel: snapshots in this file; what: 'all', 'data' or 'coords'."""
    lon, lat, dep = C
    nt, nz, ny, nx = samp.dims_of(g)
    rev = c['latrev'] and g['kind'][0] == 'r'
    with netCDF4.Dataset(fn, 'w') as nc:
        for d, n in (('clock', len(sel)), ('z', nz), ('y', ny), ('x', nx), ('one', 1)):
            nc.createDimension(d, n)
        if what != 'data':
            if lon.ndim == 1 and not (c['coord2d'] and g is c['g']):
                nc.createVariable('glon', 'f4', ('x',))[:] = lon
                nc.createVariable('glat', 'f4', ('y',))[:] = lat[::-1] if rev else lat
            else:
                if lon.ndim == 1:
                    lon, lat = np.meshgrid(lon, lat)
                if rev:
                    lat = lat[::-1]
                dm = ('one',) * c['coordt'] + ('y', 'x')
                nc.createVariable('glon', 'f4', dm)[:] = lon.reshape((1,) * c['coordt'] + lon.shape)
                nc.createVariable('glat', 'f4', dm)[:] = lat.reshape((1,) * c['coordt'] + lat.shape)
            if dep.ndim == 1:
                nc.createVariable('gdep', 'f4', ('z',))[:] = dep
            else:
                nc.createVariable('gdep', 'f4', ('z', 'y', 'x'))[:] = dep[:, ::-1] if rev else dep
        if what != 'coords':
            tv = nc.createVariable('clock', 'f8', ('clock',))
            scale = SCALE.get(c['dates'], 1.)
            if c['dates']:
                tv.units = c['dates'] + ' since 2003-02-27 06:00:00'
            tv[:] = np.array([g['time'][i] for i in sel]) / scale
            dims = ['clock', 'z', 'y', 'x']
            if c['flatdims'] and nz == 1:
                dims.remove('z')
                if nt == 1:
                    dims.remove('clock')
            for n, (D, M) in vars.items():
                d = D[sel][:, :, ::-1] if rev else D[sel]
                m = M[sel][:, :, ::-1] if rev else M[sel]
                shape = [{'clock': len(sel), 'z': nz, 'y': ny, 'x': nx}[q] for q in dims]
                if c['store'] == 'i2':
                    v = nc.createVariable(n, 'i2', dims, fill_value=-32000)
                    v.scale_factor, v.add_offset = .25, 10.
                else:
                    v = nc.createVariable(n, c['store'], dims, fill_value=np.array(1e20, dtype=c['store']) if c['seed'] % 2 else None)
                    if not c['seed'] % 2:
                        d, m = np.where(m, np.nan, d), np.zeros_like(m)
                v[:] = np.ma.masked_array(d, m).reshape(shape)


def filedims(c, g, time=True):
    d = {'lon': 'glon', 'lat': 'glat'}
    if len(g['depth']) > 1 or not c['flatdims']:
        d['depth'] = 'gdep'
    if time and not c['stamps'] and (len(g['time']) > 1 or not (c['flatdims'] or len(c['g']['time']) > 1)):
        d['time'] = 'clock'
    return d


def run(case):
    work = tempfile.mkdtemp(prefix='c10_')
    try:
        return _run(case, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def memdims(g, c, C):
    lon, lat, dep = C
    if c['latrev']:
        lat = lat[::-1]
        dep = dep[:, ::-1] if dep.ndim == 3 else dep
    d = {'lon': lon, 'lat': lat}
    if len(g['depth']) > 1:
        d['depth'] = dep
    if len(g['time']) > 1:
        d['time'] = np.array(g['time'])
        if c['dates']:
            d['time'] = np.datetime64('2003-02-27T06:00:00', 'ns') + (np.array(g['time']) * 1e9).astype('timedelta64[ns]')
    return d


def _run(c, work):
    g, load = c['g'], c['load']
    if c['dates']:      # times must be exact in the file
        c = dict(c, dates=next(u for u, s in ((c['dates'], SCALE[c['dates']]), ('seconds', 1.))
                               if s == 1. or all((t / s * 64) % 1 == 0 for t in g['time'] + (second(c)['time'] if c['q'] else []))))
    ind = c['ind']
    C = samp.coords(g)
    arr = {n: data(g, c, k) for k, n in enumerate(NAMES[:3])}
    g2 = second(c) if c['q'] is not None else g
    C2 = samp.coords(g2) if c['q'] is not None else C
    arr['Q'] = data(g2, c, 3)
    kw = {}
    if c['vmin'] is not None:
        kw['vmin'] = c['vmin']
    if c['vmax'] is not None:
        kw['vmax'] = c['vmax']
    if shifted(c, g, g2):
        kw['allow_time_extrapolation'] = True
    method = {'U': 'linear', 'V': 'linear', 'P': c['method'], 'Q': 'linear'}
    ftype = {'P': c['ftype']} if c['ftype'] else {}
    memory = load in ('data', 'dataT', 'write', 'writedefer')

    def filled(n):
        D, M = arr[n]
        D = np.where(M, 0., D)
        if c['vmin'] is not None:
            D = np.where(D < c['vmin'], 0., D)
        if c['vmax'] is not None:
            D = np.where(D > c['vmax'], 0., D)
        return D.astype(F32)
    if memory:
        def mem(n, gg):
            D, M = arr[n]
            D = samp.squeeze(np.where(M, np.nan, D), gg)
            if c['latrev']:
                D = D[..., ::-1, :]
            return D.astype({'f4': 'f4', 'f8': 'f8', 'i2': 'f4'}[c['store']])
        T = {'transpose': load == 'dataT'}
        tr = (lambda a: a.T) if load == 'dataT' else (lambda a: a)
        dims = memdims(g, c, C)
        many = {n: tr(mem(n, g)) for n in NAMES[:3]}
        ddict = dims
        if c['dimdict']:
            ddict = {n: dims for n in many}
        if c['q'] is not None:
            if c['dimdict']:
                many['Q'] = tr(mem('Q', g2))
                ddict['Q'] = memdims(g2, c, C2)
        else:
            many['Q'] = tr(mem('Q', g))
            if c['dimdict']:
                ddict['Q'] = dims
        fs = FieldSet.from_data(many, ddict, mesh=g['mesh'], interp_method=c['method'] if False else 'linear', **T, **kw)
        if 'Q' not in many:
            d2 = memdims(g2, c, C2)
            o = FieldSet.from_data({'Q': tr(mem('Q', g2))}, d2, mesh=g['mesh'], **T, **kw)
            fs.add_field(o.Q)
        fs.P.interp_method = c['method']
        if c['ftype']:
            D = many['P']
            Pf = Field('P', D, lon=dims['lon'], lat=dims['lat'], depth=dims.get('depth'), mesh=g['mesh'], fieldtype=c['ftype'], interp_method=c['method'],
                       grid=None if 'time' not in dims else fs.P.grid, **T, **kw) if 'time' not in dims else \
                Field('P', D, grid=fs.P.grid, fieldtype=c['ftype'], interp_method=c['method'], **T, **kw)
            if load in ('data', 'dataT'):
                fs = FieldSet(fs.U, fs.V, fields={'P': Pf, 'Q': fs.Q})
        if load.startswith('write'):
            fs.write(os.path.join(work, 'out'))
            inds = None
            if ind:
                i1 = {ax: (range(*r) if c['indkind'] == 'range' else list(range(*r))) for ax, r in flipped(ind, c, g).items()}
                inds = {n: i1 for n in NAMES} if c['q'] is None else dict({n: i1 for n in NAMES[:3]}, Q={})
            fs = FieldSet.from_parcels(os.path.join(work, 'out'), extra_fields={'P': 'P', 'Q': 'Q'}, indices=inds, deferred_load=load == 'writedefer',
                                       interp_method=method, allow_time_extrapolation=True if len(g2['time']) == 1 or shifted(c, g, g2) else None)
            ftype = {}
    else:
        fs = fromfiles(c, work, g, C, g2, C2, arr, method, ftype, kw)
        if c['mix']:
            gq = subset(g2, {}) if c['q'] is not None else subset(g, ind)
            Cq = C2 if c['q'] is not None else subcoords(C, ind)
            D, M = arr['Q']
            if c['q'] is None:
                D, M = cut(D, ind, 3), cut(M, ind, 3)
            d = memdims(gq, dict(c, latrev=False), Cq)
            if 'time' in d and not c['dates']:
                d['time'] = d['time'] - g['time'][0]
            if 'time' in d:
                kw = dict(kw, allow_time_extrapolation=True)
            fs.add_field(FieldSet.from_data({'Q': samp.squeeze(np.where(M, np.nan, D), gq)}, d, mesh=g['mesh'], **kw).Q)
    gs = subset(g, ind)
    Cs = subcoords(C, ind)
    t0 = 0. if load in ('data', 'dataT') and not (c['dates'] and len(g['time']) > 1) else g['time'][0]
    if load.startswith('write') and len(g['time']) > 1:
        t0 = g['time'][0]
    times = []
    for i, f in c['times']:
        t = g['time'][i]
        if len(g['time']) > 1:
            t += f / 16. * (g['time'][i + 1] - g['time'][i])
        times.append(t)
    times = sorted(times, reverse=c['order'] == 'down') if c['order'] != 'any' else times
    fill = {n: filled(n) for n in NAMES}
    for n in NAMES[:3]:
        fill[n] = cut(fill[n], ind, 3)
    if c['q'] is None:
        fill['Q'] = cut(fill['Q'], ind, 3)
    labels = [g['kind'], g['mesh'], load, c['store'] if not memory else 'memory', 'subset' if ind else 'full', 'q' if c['q'] else 'one grid',
              c['fnames'] if not memory else 'memory', '%d files' % len(c['split']) if not memory else 'memory'] + (['latrev'] if c['latrev'] else []) + (['mix'] if c['mix'] else []) + (['far'] if g.get('far') else [])
    pset = None
    nt = False
    for t in times:
        pts = [samp.locate(gs, dict(p, t=0, ft=0), Cs)[:3] for p in c['pts']]
        if pset is None:
            pset = ParticleSet(fs, pclass=PC[c['mode']], lonlatdepth_dtype=np.float64, lon=[p[0] for p in pts], lat=[p[1] for p in pts], depth=[p[2] for p in pts], time=t - t0)
        for p, q in zip(pset, pts):
            p.lon, p.lat, p.depth = q
            p.err, p.time = 0, t - t0
        safe = samp.locate(gs, {'i': 0, 'j': 0, 'k': 0, 'fx': 14, 'fy': 14, 'fz': 7, 't': 0, 'ft': 0}, Cs)[:3]
        if len(gs['depth']) == 1 and g['kind'][1] == 'z':
            safe = safe[:2] + (float(np.mean(C[2][:2])),)      # Q may have all levels

        def mk(code):
            def rec(particle, fieldset, time):
                particle.err = code
                particle.lon, particle.lat, particle.depth = safe
            return rec
        pset.execute(sample4, runtime=0, dt=0, verbose_progress=False,
                     recovery={ErrorCode.ErrorOutOfBounds: mk(1), ErrorCode.ErrorThroughSurface: mk(2)})
        for p, q in zip(pset, pts):
            pos = (q[0], q[1], q[2], t)
            res = {n: samp.ref_tracer(gs if n != 'Q' or c['q'] is None else g2, Cs if n != 'Q' or c['q'] is None else C2, fill[n], method[n], pos, True) for n in NAMES}
            exp = next((r[0] for r in res.values() if r[0] != 'ok'), 'ok')
            if exp == 'either':
                continue
            got = {0: 'ok', 1: 'oob', 2: 'surface'}[int(p.err)]
            labels.append('outcome:' + exp)
            if got != exp:
                raise Violation('%s: sampling at %s reported %s, expected %s' % (load, pos, got, exp))
            if exp != 'ok':
                continue
            for n, v in zip(NAMES, (p.a, p.b, p.c, p.d)):
                f = samp.unit_factor({'P': ftype.get('P')}.get(n, n), g['mesh'], q[1])
                span = np.abs(fill[n]).max() + 1
                if not any(abs(float(v) - e * f) <= abs(f) * (2e-4 * span) for e in res[n][1]):
                    raise Violation('%s: %s at %s is %r, the data have %r' % (load, n, pos, float(v), [e * f for e in res[n][1][:4]]))
            nt = nt or fill['P'].size > 1
    return {'nontrivial': nt, 'labels': labels}


def flipped(ind, c, g):
    """Index ranges in the order of the rows in the file; Parcels writes fields with ascending latitudes."""
    if c['latrev'] and 'lat' in ind and not c['load'].startswith('write'):
        n = len(g['lat'])
        ind = dict(ind, lat=[n - ind['lat'][1], n - ind['lat'][0]])
    return ind


def fromfiles(c, work, g, C, g2, C2, arr, method, ftype, kw):
    f1, f2 = [], []
    own = c['q'] is not None
    sep = c['fnames'] in ('dims', 'vardims')
    k = 0
    for m, n in enumerate(c['split']):
        fn = os.path.join(work, 'a_%02d.nc' % m)
        vars = {'v' + q: arr[q] for q in NAMES if q != 'Q' or not own}
        tofile(fn, c, g, C, vars, list(range(k, k + n)), 'data' if sep else 'all')
        f1.append(fn)
        k += n
    if own:
        fn = os.path.join(work, 'b_0.nc')
        tofile(fn, c, g2, C2, {'vQ': arr['Q']}, list(range(len(g2['time']))), 'data' if sep else 'all')
        f2.append(fn)
    if sep:
        tofile(os.path.join(work, 'mesh_a.nc'), c, g, C, {}, [0], 'coords')
        tofile(os.path.join(work, 'mesh_b.nc'), c, g2, C2, {}, [0], 'coords')
    if c['load'] == 'xarray':
        return fromxarray(c, work, g, C, g2, C2, arr, method, ftype, kw)
    names = NAMES[:3] if c['mix'] else NAMES
    dims = {n: filedims(c, g2 if n == 'Q' and own else g) for n in names}
    if not own and not c['dimdict']:
        dims = dims['U']
    inds = None
    if c['ind']:
        i1 = {ax: (range(*r) if c['indkind'] == 'range' else list(range(*r))) for ax, r in flipped(c['ind'], c, g).items()}
        inds = dict({n: dict(i1) for n in names[:3]}, Q={} if own else dict(i1))
        if c['mix']:
            inds.pop('Q')
        if not own and c['seed'] % 2:
            inds = i1
    vname = {n: (['nothere', 'v' + n] if c['alt'] else 'v' + n) for n in names}
    per = {n: (f2 if n == 'Q' and own else f1) for n in names}
    if c['fnames'] in ('wild', 'varwild'):
        wild = {n: os.path.join(work, ('b' if n == 'Q' and own else 'a') + '_*.nc') for n in names}
        files = wild if own or c['fnames'] == 'varwild' else wild['U']
    elif sep:
        files = {}
        for n in names:
            ms = os.path.join(work, 'mesh_b.nc' if n == 'Q' and own else 'mesh_a.nc')
            files[n] = {'lon': ms, 'lat': ms, 'depth': ms, 'data': per[n] if c['fnames'] == 'dims' else (per[n][0] if len(per[n]) == 1 else per[n])}
    elif c['fnames'] == 'list' and not own:
        files = f1
    else:
        files = per
    stamps = None
    if c['stamps'] and not own:
        T = np.array(g['time'])
        if c['dates']:
            T = np.datetime64('2003-02-27T06:00:00', 'ns') + (T * 1e9).astype('timedelta64[ns]')
        stamps, k = [], 0
        for n in c['split']:
            stamps.append(list(T[k:k + n]))
            k += n
        stamps = [np.array(s) for s in stamps]
        if sep:
            for n in names:
                files[n]['data'] = list(f1)
        else:
            files = {n: f1 for n in names}
    elif c['stamps']:
        # no common time stamps for different files: use the times in the files
        dims = {n: dict(filedims(dict(c, stamps=False), g2 if n == 'Q' else g)) for n in names}
    ex = dict(kw)
    if c['ftype']:
        ex['fieldtype'] = {n: ftype.get(n, n) for n in names}
    return FieldSet.from_netcdf(files, vname, dims, indices=inds, mesh=g['mesh'], deferred_load=c['load'] == 'defer', interp_method=method,
                                timestamps=stamps, **ex)


def fromxarray(c, work, g, C, g2, C2, arr, method, ftype, kw):
    own = c['q'] is not None

    def ds(gg, CC, names):
        fn = os.path.join(work, 'x_%s.nc' % ''.join(names))
        tofile(fn, dict(c, stamps=False), gg, CC, {'v' + n: arr[n] for n in names}, list(range(len(gg['time']))), 'all')
        d = xr.open_dataset(fn, decode_cf=True).load()
        d.close()
        return d.set_coords(['glon', 'glat', 'gdep'])
    c1 = dict(c, stamps=False, coord2d=False, coordt=0)
    c.update(c1)
    d1 = filedims(c1, g)
    main = [n for n in NAMES if n != 'Q' or not own]
    fs = FieldSet.from_xarray_dataset(ds(g, C, main), {n: 'v' + n for n in main}, {n: d1 for n in main} if c['dimdict'] and False else d1, mesh=g['mesh'], **kw)
    if own:
        o = FieldSet.from_xarray_dataset(ds(g2, C2, ['Q']), {'Q': 'vQ'}, filedims(c1, g2), mesh=g['mesh'], **kw)
        fs.add_field(o.Q)
    fs.P.interp_method = c['method']
    ftype.clear()
    return fs


def uv_kernel(particle, fieldset, time):
    (particle.a, particle.b) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]


def uvw_kernel(particle, fieldset, time):
    (particle.a, particle.b, particle.c) = fieldset.UVW[time, particle.depth, particle.lat, particle.lon]


def p_kernel(particle, fieldset, time):
    particle.d = fieldset.P[time, particle.depth, particle.lat, particle.lon]


#           constructor, staggering, indexing, factors of U/V and W
MODELS = {'nemo': ('from_nemo', 'C', 'nemo', 1., -1.), 'mitgcm': ('from_mitgcm', 'C', 'mitgcm', 1., 1.), 'cgrid': ('from_c_grid_dataset', 'C', 'nemo', 1., 1.),
          'cgridm': ('from_c_grid_dataset', 'C', 'mitgcm', 1., 1.), 'pop': ('from_pop', 'B', 'pop', .01, -.01), 'popcm': ('from_pop', 'B', 'pop', .01, -1.),
          'mom5': ('from_mom5', 'B', 'mom5', 1., -1.), 'bgrid': ('from_b_grid_dataset', 'B', 'nemo', 1., 1.)}


@st.composite
def model_s(draw):
    model = draw(st.sampled_from(sorted(MODELS)))
    idx = MODELS[model][2]
    kinds = ('rz',) if idx == 'mitgcm' else (('rz', 'cz') if idx in ('pop', 'mom5') else ('rz', 'cz', 'rs', 'cs'))
    g = draw(samp.grids(kinds=kinds, max_n=5, max_z=4, max_t=4, depth_sign=idx not in ('pop', 'mom5')))
    g['wrap'] = False
    if idx == 'mom5' and len(g['depth']) > 1:
        sh, d0 = g['depth'][1] - g['depth'][0], g['depth'][0]
        g['depth'] = [d - d0 + sh for d in g['depth']]
    if idx == 'pop' and len(g['depth']) == 2:
        g['depth'].append(g['depth'][1] + 1.0)
    nt = len(g['time'])
    c = {'model': model, 'g': g, 'seed': draw(st.integers(0, 999)), 'defer': draw(st.booleans()), 'store': draw(st.sampled_from(['f4', 'f8'])), 'miss': 0,
         'w': len(g['depth']) > 1 and draw(st.booleans()), 'p': idx != 'mom5' and draw(st.booleans()), 'mesh2': draw(st.booleans()),
         'coord2d': g['kind'][0] == 'r' and draw(st.booleans()), 'coordt': draw(st.sampled_from([0, 0, 1])), 'flatdims': draw(st.booleans()),
         'dates': draw(st.sampled_from([None, 'seconds'])), 'stamps': False, 'latrev': False, 'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])),
         'drop': idx == 'pop', 'pmethod': draw(st.sampled_from([None, None, 'nearest', 'linear'])), 'perdims': draw(st.booleans()),
         'split': draw(st.integers(1, nt)), 'order': draw(st.sampled_from(['up', 'up', 'down', 'any']))}
    ind = {}
    if draw(st.integers(0, 2)) == 0:
        for ax in ('lon', 'lat'):
            n = len(g[ax])
            if n > 2 and draw(st.booleans()):
                a = draw(st.integers(0, n - 2))
                ind[ax] = [a, draw(st.integers(a + 2, n))]
    c['ind'] = ind
    c['pts'] = draw(samp.points(subset(g, ind), 6))
    c['times'] = draw(st.lists(st.tuples(st.integers(0, max(0, nt - 2)), st.sampled_from([0, 0, 4, 8, 13, 16])), min_size=1, max_size=4))
    return c


def model_run(case):
    work = tempfile.mkdtemp(prefix='c10_')
    try:
        return _model(case, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _model(c, work):
    g, ind = c['g'], c['ind']
    ctor, stag, idx, fuv, fw = MODELS[c['model']]
    C = samp.coords(g)
    names = ['U', 'V'] + (['W'] if c['w'] else []) + (['P'] if c['p'] else [])
    arr = {n: samp.field_data(g, c['seed'] + 'UVWP'.index(n)).astype(float) for n in names}
    nt, nz = len(g['time']), len(g['depth'])
    drop = c['drop'] and nz > 1
    files = {}
    for n in names:
        k, files[n] = 0, []
        while k < nt:
            sel = list(range(k, min(nt, k + c['split'])))
            fn = os.path.join(work, '%s_%02d.nc' % (n, k))
            tofile(fn, c, g, C, {'v' + n: (arr[n], np.zeros(arr[n].shape, bool))}, sel, 'data' if c['mesh2'] else 'all')
            if drop:        # one level less than there are interfaces
                ds = xr.open_dataset(fn, decode_cf=False).load()
                ds.close()
                ds['v' + n] = (('clock', 'z1', 'y', 'x'), ds['v' + n].values[:, :-1])
                ds.to_netcdf(fn + '.n')
                os.replace(fn + '.n', fn)
            files[n].append(fn)
            k += c['split']
    if c['mesh2']:
        mesh = os.path.join(work, 'mesh.nc')
        tofile(mesh, c, g, C, {}, [0], 'coords')
        files = {n: {'lon': mesh, 'lat': mesh, 'depth': mesh, 'data': files[n]} for n in names}
    dims = filedims(c, g)
    if c['perdims']:
        dims = {n: dict(dims) for n in names}
    kw = {'deferred_load': c['defer']}
    if c['model'] == 'cgridm':
        kw['gridindexingtype'] = idx
    if c['model'].startswith('pop'):
        kw['depth_units'] = 'cm' if c['model'] == 'popcm' else 'm'
    pm = {'C': 'cgrid_tracer', 'B': 'bgrid_tracer'}[stag]
    if c['pmethod'] and not drop:
        pm = kw['tracer_interp_method'] = c['pmethod']
    if ind:
        kw['indices'] = {ax: range(*r) for ax, r in ind.items()}
    fs = getattr(FieldSet, ctor)(files, {n: 'v' + n for n in names}, dims, mesh=g['mesh'], **kw)
    gs, Cs = subset(g, ind), subcoords(C, ind)
    fac = {'U': fuv, 'V': fuv, 'W': fw, 'P': 1.}
    D = {n: (cut(arr[n], ind, 3) * fac[n]).astype(F32) for n in names}
    times = []
    for i, f in c['times']:
        times.append(g['time'][i] + (f / 16. * (g['time'][i + 1] - g['time'][i]) if nt > 1 else 0))
    times = sorted(times, reverse=c['order'] == 'down') if c['order'] != 'any' else times
    t0 = g['time'][0]
    ref = {'C': vec.ref_cgrid, 'B': vec.ref_bgrid}[stag]
    safe = samp.locate(gs, {'i': 0, 'j': 0, 'k': 0, 'fx': 7, 'fy': 7, 'fz': 7, 't': 0, 'ft': 0}, Cs)[:3]

    def mk(code):
        def rec(particle, fieldset, time):
            particle.err = code
            particle.lon, particle.lat, particle.depth = safe
        return rec
    pset, nt_, labels = None, False, [c['model'], g['kind'], 'defer' if c['defer'] else 'eager', 'W' if c['w'] else 'UV', '%dD' % (2 + (nz > 1)), c['mode']]
    for t in times:
        pts = [samp.locate(gs, dict(p, t=0, ft=0), Cs)[:3] for p in c['pts']]
        if pset is None:
            pset = ParticleSet(fs, pclass=PC[c['mode']], lonlatdepth_dtype=np.float64, lon=[p[0] for p in pts], lat=[p[1] for p in pts], depth=[p[2] for p in pts],
                               time=t - t0)
            kernel = pset.Kernel(uvw_kernel if c['w'] else uv_kernel)
            pk = pset.Kernel(p_kernel) if c['p'] else None
        for kern in (kernel, pk):
            if kern is None:
                continue
            for p, q in zip(pset, pts):
                p.lon, p.lat, p.depth = q
                p.err, p.time = 0, t - t0
            pset.execute(kern, runtime=0, dt=0, verbose_progress=False, recovery={ErrorCode.ErrorOutOfBounds: mk(1), ErrorCode.ErrorThroughSurface: mk(2)})
            for p, q in zip(pset, pts):
                pos = (q[0], q[1], q[2], t)
                if kern is kernel:
                    exp, vals = ref(gs, Cs, D['U'], D['V'], D.get('W'), pos, idx, True)
                    got = np.array([p.a, p.b] + ([p.c] if c['w'] else []))
                    sc = 150. * np.array([fuv * samp.unit_factor('U', g['mesh'], q[1]), fuv * samp.unit_factor('V', g['mesh'], q[1])] + ([abs(fw)] if c['w'] else []))
                else:
                    exp, vals = samp.ref_tracer(gs, Cs, D['P'], pm, pos, True)
                    got, sc = np.array([p.d]), np.array([64.])
                if exp == 'either':
                    continue
                g_ = {0: 'ok', 1: 'oob', 2: 'surface'}[int(p.err)]
                if g_ != exp:
                    raise Violation('%s: sampling at %s reported %s, expected %s' % (ctor, pos, g_, exp))
                if exp != 'ok':
                    continue
                nt_ = True
                vals = [np.atleast_1d(v) for v in vals]
                if not any(np.all(np.abs(got - v) <= 2e-3 * sc + 1e-4 * np.abs(v).max()) for v in vals):
                    raise Violation('%s: %s at %s is %s, expected %s' % (ctor, 'the velocity' if kern is kernel else 'P', pos, got.tolist(), [v.tolist() for v in vals[:3]]))
    return {'nontrivial': nt_, 'labels': labels}


SUBCHECKS = [Sub('import', import_s, run, quick=250, thorough=4000, budget=80),
             Sub('model', model_s, model_run, quick=160, thorough=3000, budget=70)]
