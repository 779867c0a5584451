"""C11: periodic halos against explicit periodic extension of the arrays."""
import linecache
import math
import os
import shutil
import tempfile
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vp import samp
from vp.core import Sub, Violation
from parcels import FieldSet, Field, SummedField, NestedField
from parcels import CurvilinearSGrid, CurvilinearZGrid, RectilinearSGrid, RectilinearZGrid

PROPERTY = 'C11'
RULE = ('a case is a periodic rectilinear or curvilinear grid (z- or s-levels, flat or spherical, regional or global), fields on it and on a second grid, '
        'scalar, vector, summed or nested, in memory, deferred or chunked, one or two calls of add_periodic_halo, and positions in the whole extended domain; '
        'the oracle indexes the original arrays modulo the period. Non-trivial = at least one position inside the halo')
ASSUMPTIONS = ['a halo is at most as large as the domain and is added at most once in each direction',
               'curvilinear grids have rows (columns) that close periodically in longitude (latitude)',
               'in the time dimension one or two snapshots']
F32 = np.float32


@st.composite
def one_grid(draw, mesh, kinds, second=None):
    kind = draw(st.sampled_from(kinds))
    nx, ny = draw(st.integers(2, 7)), draw(st.integers(2, 6))
    g = {'kind': kind, 'mesh': mesh}
    if mesh == 'flat':
        u = draw(st.sampled_from([1., .25, 1000., .1]))
        g['lon'] = draw(samp.axis(nx, u * draw(st.integers(-5, 5)), u, 3))
        g['lat'] = draw(samp.axis(ny, u * draw(st.integers(-5, 5)), u, 3))
    else:
        if draw(st.booleans()):
            nx = draw(st.sampled_from([4, 5, 6, 8, 12]))
            l0 = draw(st.sampled_from([0., -180., 20., -30.]))
            g['lon'] = [l0 + 360. / nx * i for i in range(nx)]
            g['global'] = True
        else:
            g['lon'] = draw(samp.axis(nx, float(draw(st.sampled_from([-20, 0, 30, 150]))), draw(st.sampled_from([.5, 1., 2.])), 3))
        g['lat'] = draw(samp.axis(ny, float(draw(st.sampled_from([-25, 0, 10]))), draw(st.sampled_from([.5, 1., 2.])), 2))
    if kind[0] == 'c':
        for ax in ('lon', 'lat'):
            d = g[ax][1] - g[ax][0]
            g[ax] = [g[ax][0] + d * k for k in range(len(g[ax]))]
        g['wave'] = [draw(st.sampled_from([0., .1, -.15])) for _ in range(2)]
        g['stretch'] = [draw(st.sampled_from([0., 0., .02, -.03])) for _ in range(2)] if mesh == 'flat' else [0., 0.]
        if mesh == 'spherical':
            # the search for a cell folds its path at the northern edge of a spherical curvilinear grid
            g['wave'][1] = 0.
    nz = draw(st.integers(2 if kind[1] == 's' else 1, 3))
    g['depth'] = draw(samp.axis(nz, 0., draw(st.sampled_from([1., 16.])), 3)) if nz > 1 else [0.]
    if kind[1] == 's':
        g['dseed'] = draw(st.integers(0, 50))
        g['z4d'] = draw(st.booleans())
    g['time'] = [0., 86400.] if draw(st.booleans()) else [0.]
    return g


@st.composite
def halo_s(draw):
    mesh = draw(st.sampled_from(['flat', 'spherical']))
    load = draw(st.sampled_from(['data', 'data', 'data', 'eager', 'defer', 'defer', 'chunk']))
    kinds = ('rz', 'rz', 'rs', 'cz', 'cs') if load == 'data' else ('rz', 'rz', 'cz')
    g = draw(one_grid(mesh, kinds))
    g2 = draw(one_grid(mesh, kinds)) if draw(st.booleans()) else None
    if g2 is not None:
        g2['time'] = g['time']
    m = min(min(len(q['lon']), len(q['lat'])) for q in ([g] + ([g2] if g2 else [])))
    hz, hm = draw(st.integers(1, min(m, 5))), draw(st.integers(1, min(m, 5)))
    way = draw(st.sampled_from(['z', 'z', 'm', 'zm', 'zm', 'z,m', 'm,z']))
    for q in [g] + ([g2] if g2 else []):
        if q['kind'][0] == 'c' and q.get('global'):
            # the search on curvilinear grids allows for cells up to 225 degrees away
            if len(q['lon']) < 8:
                q['lon'] = [q['lon'][0] + 360. / 8 * i for i in range(8)]
            hz = min(hz, len(q['lon']) // 8)
    if way == 'zm':
        hm = hz
    if load == 'data':
        ops = ['P', 'UV', 'late', 'sum', 'nest', 'sumUV']
    else:
        ops = ['P', 'UV']
    pts = draw(st.lists(st.fixed_dictionaries({
        'i': st.integers(0, 40), 'j': st.integers(0, 40), 'k': st.integers(0, 3), 'fx': st.sampled_from(samp.FRACS[1:-1]),
        'fy': st.sampled_from(samp.FRACS[1:-1]), 'fz': st.sampled_from(samp.FRACS[1:-1]), 'ft': st.sampled_from([0, 4, 12]),
        'out': st.sampled_from([None] * 12 + ['x+', 'x-', 'y+', 'y-'])}), min_size=1, max_size=10))
    return {'g': g, 'g2': g2, 'hz': hz, 'hm': hm, 'way': way, 'load': load, 'seed': draw(st.integers(0, 999)), 'what': draw(st.sampled_from(ops)),
            'method': draw(st.sampled_from(['linear', 'linear', 'nearest', 'cgrid_tracer'])), 'pts': pts, 'mode': draw(st.sampled_from(['jit', 'scipy', 'both'])),
            'chunk': draw(st.integers(2, 4)), 'f8': draw(st.booleans())}


def coords(g):
    """float64 coordinate functions of (possibly extended) node indices, and the arrays handed over."""
    lon, lat, dep = np.array(g['lon']).astype(F32), np.array(g['lat']).astype(F32), np.array(g['depth']).astype(F32)
    nx, ny = len(lon), len(lat)
    if g['kind'][0] == 'c':
        dx, dy = g['lon'][1] - g['lon'][0], g['lat'][1] - g['lat'][0]
        J, I = np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij')
        sx, sy = g.get('stretch', [0., 0.])
        # the period may differ between rows and between columns
        x = lon[I].astype(float) + g['wave'][0] * dx * np.sin(2 * np.pi * J / ny) + sx * dx * I * np.cos(2 * np.pi * J / ny)
        y = lat[J].astype(float) + g['wave'][1] * dy * np.sin(2 * np.pi * I / nx) + sy * dy * J * np.cos(2 * np.pi * I / nx)
        lon, lat = x.astype(F32), y.astype(F32)
    if g['kind'][1] == 's':
        r = np.random.RandomState(g['dseed'])
        if g.get('z4d'):
            dep = (dep[None, :, None, None] * (1 + .5 * r.rand(len(g['time']), 1, ny, nx))).astype(F32)
        else:
            dep = (dep[:, None, None] * (1 + .5 * r.rand(1, ny, nx))).astype(F32)
    return lon, lat, dep


def extend(a, ax, h):
    n = a.shape[ax]
    return np.take(a, np.arange(-h, n + h) % n, axis=ax)


def reference(g, D, hz, hm):
    """Extended grid description, coordinates and data."""
    lon, lat, dep = (c.astype(float) for c in coords(g))
    nx, ny = len(g['lon']), len(g['lat'])
    if hz:
        i = np.arange(-hz, nx + hz)
        if lon.ndim == 1:
            lon = lon[i % nx] + (lon[-1] - lon[0] + lon[1] - lon[0]) * (i // nx)
        else:
            lon = lon[:, i % nx] + (lon[:, -1] - lon[:, 0] + lon[:, 1] - lon[:, 0])[:, None] * (i // nx)
            lat = extend(lat, 1, hz)
    if hm:
        j = np.arange(-hm, ny + hm)
        if lat.ndim == 1:
            lat = lat[j % ny] + (lat[-1] - lat[0] + lat[1] - lat[0]) * (j // ny)
        else:
            lat = lat[j % ny] + (lat[-1] - lat[0] + lat[1] - lat[0])[None, :] * (j // ny)[:, None]
            lon = extend(lon, 0, hm)
    out = []
    for d in [dep] + list(D):
        if d.ndim >= 3:
            d = extend(d, d.ndim - 1, hz) if hz else d
            d = extend(d, d.ndim - 2, hm) if hm else d
        out.append(d)
    ge = dict(g, lon=[0.] * (nx + 2 * hz), lat=[0.] * (ny + 2 * hm))
    return ge, (lon, lat, out[0]), out[1:]


def gdims(g, C):
    d = {'lon': C[0], 'lat': C[1]}
    if len(g['depth']) > 1:
        d['depth'] = C[2]
    if len(g['time']) > 1:
        d['time'] = np.array(g['time'])
    return d


KERN = {}


def kernel(name):
    if name not in KERN:
        src = ('def sample_%s(particle, fieldset, time):\n    particle.p = fieldset.%s[particle.ts, particle.depth, particle.lat, particle.lon]\n' % (name, name))
        fn = '<vp_c11_%s>' % name
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        ns = {}
        exec(compile(src, fn, 'exec'), ns)
        KERN[name] = ns['sample_' + name]
    return KERN[name]


def named(fs, mode, name, pts, safe, dt):
    keep = samp.KERNELS['P']
    samp.KERNELS['P'] = (kernel(name), kernel(name))
    try:
        return samp.run_sampling(fs, mode, 'P', [pts, pts[::-1]], safe, dt)
    finally:
        samp.KERNELS['P'] = keep


def mkgrid(g, C):
    cls = {'rz': RectilinearZGrid, 'rs': RectilinearSGrid, 'cz': CurvilinearZGrid, 'cs': CurvilinearSGrid}[g['kind']]
    kw = {'time': np.array(g['time'])}
    if len(g['depth']) > 1:
        kw['depth'] = C[2].copy()
    return cls(C[0].copy(), C[1].copy(), mesh=g['mesh'], **kw)


def tofile(fn, names, g, C, D):
    with netCDF4.Dataset(fn, 'w') as nc:
        for d, n in (('t', len(g['time'])), ('z', len(g['depth'])), ('y', len(g['lat'])), ('x', len(g['lon']))):
            nc.createDimension(d, n)
        nc.createVariable('time', 'f8', ('t',))[:] = g['time']
        nc.createVariable('depth', 'f4', ('z',))[:] = g['depth']
        for v, c in (('lon', C[0]), ('lat', C[1])):
            nc.createVariable(v, 'f4', ('x' if v == 'lon' else 'y',) if c.ndim == 1 else ('y', 'x'))[:] = c
        for v, d in zip(names, D):
            nc.createVariable(v, 'f4', ('t', 'z', 'y', 'x'))[:] = d


def run(case):
    work = tempfile.mkdtemp(prefix='c11_')
    try:
        return _run(case, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run(case, work):
    g = case['g']
    h = case['g2'] if case['g2'] is not None else g
    C, H = coords(g), coords(h)
    hz = case['hz'] if 'z' in case['way'] else 0
    hm = case['hm'] if 'm' in case['way'] else 0
    sh = (len(g['time']), len(g['depth']), len(g['lat']), len(g['lon']))
    s2 = (len(h['time']), len(h['depth']), len(h['lat']), len(h['lon']))
    D = {n: samp.field_data(g, case['seed'] + k, shape=sh) for k, n in enumerate(('U', 'V', 'A'))}
    D.update({n: samp.field_data(h, case['seed'] + 10 + k, shape=s2) for k, n in enumerate(('P', 'B', 'L'))})
    load, what = case['load'], case['what']
    late = None
    if load == 'data':
        fs = FieldSet.from_data({'U': samp.squeeze(D['U'], g), 'V': samp.squeeze(D['V'], g)}, gdims(g, C), mesh=g['mesh'], allow_time_extrapolation=True)

        def field(n, gg, cc):
            return Field(n, samp.squeeze(D[n], gg), grid=mkgrid(gg, cc), interp_method=case['method'], allow_time_extrapolation=True)
        if what in ('P', 'late'):
            fs.add_field(field('P', h, H))
        elif what in ('sum', 'nest'):
            A, B = field('A', g, C), field('B', h, H)
            fs.add_field(SummedField('S', [A, B]) if what == 'sum' else NestedField('S', [B, A]))
        elif what == 'sumUV':
            # the velocity itself is a sum whose members are known to the sum only
            u2 = Field('U', samp.squeeze(D['A'], g), grid=mkgrid(g, C), allow_time_extrapolation=True)
            fs2 = FieldSet.from_data({'U': samp.squeeze(D['A'], g), 'V': samp.squeeze(D['U'], g)}, gdims(g, C), mesh=g['mesh'], allow_time_extrapolation=True)
            fs = FieldSet(U=fs.U + fs2.U, V=fs.V + fs2.V)
            del u2
    else:
        tofile(os.path.join(work, 'a.nc'), ['U', 'V'], g, C, [D['U'], D['V']])
        tofile(os.path.join(work, 'b.nc'), ['P'], h, H, [D['P']])

        def dd(gg):
            d = {'lon': 'lon', 'lat': 'lat', 'time': 'time'}
            if len(gg['depth']) > 1:
                d['depth'] = 'depth'
            return d
        cs = None
        if load == 'chunk':
            def cs1(gg):
                c = {'lon': ('x', case['chunk']), 'lat': ('y', case['chunk']), 'time': ('t', 1)}
                if len(gg['depth']) > 1:
                    c['depth'] = ('z', case['chunk'])
                return c
            cs = {'U': cs1(g), 'V': cs1(g), 'P': cs1(h)}
        fa, fb = os.path.join(work, 'a.nc'), os.path.join(work, 'b.nc')
        fs = FieldSet.from_netcdf({'U': fa, 'V': fa, 'P': fb}, {n: n for n in ('U', 'V', 'P')}, {'U': dd(g), 'V': dd(g), 'P': dd(h)}, mesh=g['mesh'],
                                  allow_time_extrapolation=True, deferred_load=load != 'eager', chunksize=cs,
                                  interp_method={'U': 'linear', 'V': 'linear', 'P': case['method']})
    for call in case['way'].split(','):
        fs.add_periodic_halo(zonal='z' in call, meridional='m' in call, halosize=hz if 'z' in call else hm)
    if what == 'late':
        fs.add_field(Field('L', samp.squeeze(D['L'], h), grid=fs.P.grid, interp_method=case['method'], allow_time_extrapolation=True))
    # what is sampled where
    tgt, name, names = {'P': (h, 'P', ['P']), 'late': (h, 'L', ['L']), 'UV': (g, 'UV', ['U', 'V']), 'sum': (h, 'S', ['B', 'A']), 'nest': (h, 'S', ['B']),
                        'sumUV': (g, 'UV', ['U', 'A', 'V', 'U'])}[what]
    ge, CE, DE = reference(tgt, [D[n] for n in names if not (what == 'sum' and n == 'A')], hz, hm)
    # coordinates of the grid continue with the period
    if load == 'data':
        fld = {'P': lambda: fs.P, 'late': lambda: fs.L, 'UV': lambda: fs.U, 'sum': lambda: fs.S[1], 'nest': lambda: fs.S[0], 'sumUV': lambda: fs.U[0]}[what]()
        for nm, ref in (('lon', CE[0]), ('lat', CE[1])):
            got = getattr(fld.grid, nm)
            tol = 4e-6 * max(np.abs(ref).max(), 1e-6)
            if got.shape != ref.shape or np.abs(got - ref).max() > tol:
                raise Violation('%s of the extended grid is %r and should be %r' % (nm, got.tolist(), ref.tolist()))
        got = np.asarray(fld.grid.depth)
        if len(tgt['depth']) > 1 and (got.shape != CE[2].shape or not np.allclose(got, CE[2], rtol=1e-5)):
            raise Violation('depth of the extended grid is %r and should be %r' % (got.tolist(), CE[2].tolist()))
        got, ref = np.asarray(fld.data), DE[0].reshape(np.asarray(fld.data).shape) if np.asarray(fld.data).size == DE[0].size else DE[0]
        if got.shape != ref.shape or not np.array_equal(got, ref):
            raise Violation('data of the extended field have shape %r; expected the periodic extension %r of the original' % (got.shape, ref.shape))
    method = case['method'] if what in ('P', 'late', 'sum', 'nest') else 'linear'
    nx, ny, nz = len(ge['lon']), len(ge['lat']), len(ge['depth'])
    pts, exp = [], []
    inhalo = False
    labels = [tgt['kind'], tgt['mesh'], case['way'], load, what, method] + (['global'] if tgt.get('global') else [])
    lonmin, lonmax, latmin, latmax = CE[0].min(), CE[0].max(), CE[1].min(), CE[1].max()
    for p in case['pts']:
        i, j, k = p['i'] % (nx - 1), p['j'] % (ny - 1), p['k'] % max(1, nz - 1)
        q = {'i': i, 'j': j, 'k': k, 'fx': p['fx'], 'fy': p['fy'], 'fz': p['fz'], 't': 0, 'ft': p['ft'] if len(ge['time']) > 1 else 0}
        x, y, z, t = samp.locate(ge, q, CE)
        out = p['out']
        # beyond a spherical zonal halo there may be another image of the domain; a search on curvilinear grids with a
        # halo is stopped after a million steps only
        if out and (ge['kind'][0] == 'c' or (out[0] == 'x' and tgt.get('global'))):
            out = None
        if out:
            if out == 'x+':
                x = float(F32(lonmax + .3 * (lonmax - lonmin)))
            elif out == 'x-':
                x = float(F32(lonmin - .3 * (lonmax - lonmin)))
            elif out == 'y+':
                y = float(F32(latmax + .3 * (latmax - latmin)))
            else:
                y = float(F32(latmin - .3 * (latmax - latmin)))
        if what == 'sum':
            # both members have to contain the point
            gA, CA, DA = reference(g, [D['A']], hz, hm)
            sA = samp.ref_tracer(gA, CA, DA[0], method, (x, y, z, t), True)
            sB = samp.ref_tracer(ge, CE, DE[0], method, (x, y, z, t), True)
            if sA[0] != 'ok' or sB[0] != 'ok':
                continue
            e = ('ok', [[a + b for a in sA[1] for b in sB[1]]])
        elif what == 'nest' and out:
            continue
        else:
            r = [samp.ref_tracer(ge, CE, d, method, (x, y, z, t), True) for d in DE]
            if r[0][0] != 'ok':
                e = (r[0][0], None)
            elif what == 'sumUV':
                e = ('ok', [[a + b for a in r[0][1] for b in r[1][1]], [a + b for a in r[2][1] for b in r[3][1]]])
            else:
                e = ('ok', [q[1] for q in r])
        pts.append((x, y, z, t))
        exp.append(e)
        if e[0] == 'ok' and not (hz <= i < nx - hz - 1 and hm <= j < ny - hm - 1):
            inhalo = True
        labels.append('outcome:' + e[0])
    if not pts:
        return {'nontrivial': False, 'labels': labels}
    safe = samp.locate(ge, {'i': hz, 'j': hm, 'k': 0, 'fx': 7, 'fy': 7, 'fz': 7, 't': 0, 'ft': 0}, CE)
    dt = np.float64 if case['f8'] else np.float32
    for mode in (('jit', 'scipy') if case['mode'] == 'both' else (case['mode'],)):
        if name == 'UV':
            res = samp.run_sampling(fs, mode, 'UV', [pts, pts[::-1]], safe, dt)
        else:
            res = named(fs, mode, name, pts, safe, dt)
        for got, ex, pp in ((res[0], exp, pts), (res[1], exp[::-1], pts[::-1])):
            for (s, v), (es, ev), pos in zip(got, ex, pp):
                if es in ('either',):
                    continue
                if s != es and not (es != 'ok' and s in ('oob', 'surface') and es in ('oob', 'surface')):
                    raise Violation('%s: sampling %s at %s (extended domain x %.6g..%.6g, y %.6g..%.6g) reported %s, expected %s %s' % (mode, what, pos, lonmin, lonmax, latmin, latmax, s, es, ev))
                if es != 'ok':
                    continue
                for c, (a, refs) in enumerate(zip(v, ev)):
                    f = 1.
                    if name == 'UV' and ge['mesh'] == 'spherical':
                        f = samp.unit_factor('UV'[c], 'spherical', pos[1])
                    if not any(abs(a - b * f) <= 6e-3 * abs(f) for b in refs):
                        raise Violation('%s: %s[%d] at %s is %r, the periodic extension has %r' % (mode, what, c, pos, a, [b * f for b in refs[:3]]))
    return {'nontrivial': inhalo, 'labels': labels}


SUBCHECKS = [Sub('halo', halo_s, run, quick=180, thorough=4000, budget=80)]
