"""C20: initial values of particles, start fields, particle density."""
import math
import os
import shutil
import tempfile
from datetime import datetime, timedelta
from operator import attrgetter
import netCDF4
import numpy as np
from hypothesis import strategies as st
from vp import samp
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, RectilinearZGrid, CurvilinearZGrid
from parcels.tools.statuscodes import StateCode

PROPERTY = 'C20'
RULE = ('init: a generated class of particles (constants, attributes, chains of attributes, fields; several levels of inheritance) and a set built from '
        'lists, arrays, scalars or a line with dates or seconds; start: up to 4000 particles drawn from a start field; density: particles on a grid, '
        'moved or not, counted with weights. Non-trivial = at least two particles and one derived initial value, resp. two cells with different density, '
        'resp. particles in at least two cells')
ASSUMPTIONS = ['start fields and density fields have one depth level', 'the counted particles are inside the grid']
F32 = np.float32
NPD = {'f4': np.float32, 'f8': np.float64, 'i4': np.int32, 'i8': np.int64}


# ------------------------------------------------------------------ initial values
@st.composite
def init_s(draw):
    n = draw(st.integers(1, 5))
    nv = draw(st.integers(1, 6))
    names = ['va', 'vb', 'vc', 'vd', 've', 'vf'][:nv]
    vs = []
    for i, nm in enumerate(names):
        kind = draw(st.sampled_from(['const', 'attr', 'attr', 'field', 'given', 'given', 'npconst']))
        v = {'name': nm, 'dtype': draw(st.sampled_from(['f4', 'f4', 'f8', 'i4', 'i8'])), 'kind': kind, 'level': draw(st.integers(0, 2)),
             'val': draw(st.integers(-50, 50)) / 4}
        if kind == 'attr':
            v['of'] = draw(st.sampled_from(['lon', 'lat', 'depth', 'time', 'id'] + [x for x in names if x != nm] * 2))
        if kind == 'field':
            v['dtype'] = draw(st.sampled_from(['f4', 'f8']))
            v['of'] = draw(st.sampled_from(['P', 'U', 'Q']))
        if v['dtype'][0] == 'i':
            v['val'] = float(round(v['val']))
        vs.append(v)
    # attribute chains must end somewhere
    by = {v['name']: v for v in vs}
    for v in vs:
        seen, w = [v['name']], v
        while w['kind'] == 'attr' and w['of'] in by:
            if w['of'] in seen:
                w['of'] = 'lon'
                break
            w = by[w['of']]
            seen.append(w['name'])
    return {'n': n, 'vars': vs, 'mode': draw(st.sampled_from(['jit', 'scipy'])), 'how': draw(st.sampled_from(['init', 'init', 'from_list', 'from_line'])),
            'seed': draw(st.integers(0, 1000)), 'as': draw(st.sampled_from(['list', 'tuple', 'f8', 'f4', '2d', 'scalar'])),
            'time': draw(st.sampled_from(['list', 'scalar', 'none', 'dt64', 'datetime', 'onedate'])), 'cal': draw(st.booleans()),
            'depth': draw(st.sampled_from(['none', 'list', 'list'])), 'dtype': draw(st.sampled_from([None, 'f4', 'f8'])),
            'fs': draw(st.sampled_from(['data', 'data', 'defer'])), 'mesh': draw(st.sampled_from(['flat', 'spherical'])), 'repeat': draw(st.sampled_from([None, None, 2.])),
            'another': draw(st.booleans()), 'lvl': draw(st.integers(1, 3))}


NT = 4
TU = 3600.


def linfield(seed):
    """Fields that are linear in every coordinate: sampling them is exact up to rounding."""
    r = np.random.RandomState(seed)
    return {f: r.randint(-8, 9, size=5) / 4. for f in 'PUQ'}


def value(c, t, z, y, x):
    return c[0] + c[1] * x + c[2] * y + c[3] * z / 4. + c[4] * t / TU


def mkfs(case, work):
    c = linfield(case['seed'])
    lon = np.linspace(-20, 20, 9)
    lat = np.linspace(-16, 24, 6)
    z = np.array([0., 5., 30.])
    org = np.datetime64('2003-02-27T22:00:00')
    t = np.arange(NT) * 2 * TU
    out, dim = {}, {}
    for k, (xx, yy) in {'U': (lon, lat), 'P': (np.linspace(-22, 22, 5), np.linspace(-20, 28, 4)), 'Q': (np.linspace(-25, 25, 6), lat)}.items():
        T, Z, Y, X = np.meshgrid(t, z, yy, xx, indexing='ij')
        out[k] = value(c[k], T, Z, Y, X)
        dim[k] = {'lon': xx, 'lat': yy, 'depth': z, 'time': org + (t * 1e9).astype('timedelta64[ns]') if case['cal'] else t}
    out['V'], dim['V'] = out['U'] * 0, dim['U']
    if case['fs'] == 'data':
        fs = FieldSet.from_data({k: v.astype(F32) for k, v in out.items()}, dim, mesh=case['mesh'])
    else:
        files, dims = {}, {}
        for k in out:
            fn = os.path.join(work, k + '.nc')
            with netCDF4.Dataset(fn, 'w') as nc:
                for d, s in (('time', NT), ('depth', 3), ('lat', len(dim[k]['lat'])), ('lon', len(dim[k]['lon']))):
                    nc.createDimension(d, s)
                    v = nc.createVariable(d, 'f8', (d,))
                    v[:] = t if d == 'time' else dim[k][d]
                    if d == 'time' and case['cal']:
                        v.units = 'seconds since 2003-02-27 22:00:00'
                nc.createVariable(k, 'f4', ('time', 'depth', 'lat', 'lon'))[:] = out[k]
            files[k] = fn
            dims[k] = {d: d for d in ('lon', 'lat', 'depth', 'time')}
        fs = FieldSet.from_netcdf(files, {k: k for k in out}, dims, mesh=case['mesh'], deferred_load=True)
    return fs, c, org


def shape_as(v, how):
    if how == 'tuple':
        return tuple(v)
    if how == 'f8':
        return np.array(v, dtype=np.float64)
    if how == 'f4':
        return np.array(v, dtype=np.float32)
    if how == '2d' and len(v) > 1:
        return np.array(v).reshape(1, -1) if len(v) % 2 else np.array(v).reshape(2, -1)
    if how == 'scalar' and len(v) == 1:
        return v[0]
    return list(v)


def run_init(case):
    work = tempfile.mkdtemp(prefix='c20_')
    try:
        return _init(case, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _init(case, work):
    fs, coef, org = mkfs(case, work)
    n = case['n']
    r = np.random.RandomState(case['seed'] + 1)
    # positions that single precision does not hold exactly
    X = (r.uniform(-19, 19, n)).tolist()
    Y = (r.uniform(-15, 23, n)).tolist()
    Z = (r.uniform(.1, 29, n)).tolist()
    T = (r.randint(0, (NT - 1) * 2 * int(TU) + 1, n)).astype(float).tolist()
    if case['repeat'] is not None or case['time'] in ('scalar', 'onedate'):
        T = [T[0]] * n
    # the classes
    base = JITParticle if case['mode'] == 'jit' else ScipyParticle
    usefield = any(v['kind'] == 'field' for v in case['vars'])
    # without a start time fields cannot be sampled; dates need a calendar
    tm = case['time']
    if tm == 'none' and usefield:
        tm = 'list'
    if not case['cal'] and tm in ('dt64', 'datetime', 'onedate'):
        tm = 'list'
    cls = base
    for lv in range(case['lvl']):
        d = {}
        for v in case['vars']:
            if min(v['level'], case['lvl'] - 1) != lv:
                continue
            ini = {'const': v['val'], 'npconst': NPD[v['dtype']](v['val']), 'given': -99, 'attr': None, 'field': None}[v['kind']]
            if v['kind'] == 'attr':
                ini = attrgetter(v['of'])
            elif v['kind'] == 'field':
                ini = getattr(fs, v['of'])
            d[v['name']] = Variable(v['name'], dtype=NPD[v['dtype']], initial=ini)
        cls = type('C20%s%d' % (base.__name__, lv), (cls,), d)
    kw = {}
    G = {}
    if case['how'] == 'from_line':
        a, b = (X[0], Y[0]), (X[-1], Y[-1] - 1.)
        X = [a[0] + (b[0] - a[0]) * i / max(1, n - 1) for i in range(n)]
        Y = [a[1] + (b[1] - a[1]) * i / max(1, n - 1) for i in range(n)]
    for v in case['vars']:
        if v['kind'] == 'given' and case['how'] != 'from_line':
            G[v['name']] = [v['val'] + i for i in range(n)]
            kw[v['name']] = shape_as(G[v['name']], case['as'])
    how = case['as'] if case['how'] != 'from_line' else 'list'
    x, y, z = shape_as(X, how), shape_as(Y, how), shape_as(Z, how)
    if how == 'f4':
        X, Y, Z = [list(map(float, F32(q))) for q in (X, Y, Z)]
    if case['how'] == 'from_line' and case['depth'] == 'list':
        Z = [Z[0]] * n
        z = Z[0]
    if tm == 'none':
        t = None
    elif tm == 'list':
        t = shape_as(T, how) if how != 'f4' else T
    elif tm == 'scalar':
        t = T[0]
        T = [t] * n
    elif tm == 'dt64':
        t = [org + np.timedelta64(int(s), 's') for s in T]
        t = np.array(t) if how in ('f8', 'f4') else t
    elif tm in ('datetime', 'onedate'):
        t = [datetime(2003, 2, 27, 22) + timedelta(seconds=s) for s in T]
        if tm == 'onedate':
            t = t[0]
    else:
        t = [np.timedelta64(int(s), 's') for s in T]
    if case['depth'] == 'none':
        z = None
        Z = [0.] * n
    ll = None if case['dtype'] is None else NPD[case['dtype']]
    keep = [np.array(q, copy=True) if isinstance(q, np.ndarray) else (list(q) if isinstance(q, (list, tuple)) else q) for q in (x, y, z, t)]
    first = None
    if case['another']:
        first = ParticleSet(fs, pclass=cls, lon=[1.], lat=[2.], time=[0.], lonlatdepth_dtype=np.float64 if ll is None else ll)
    args = dict(depth=z, time=t, repeatdt=case['repeat'], lonlatdepth_dtype=ll)
    if case['how'] == 'init':
        ps = ParticleSet(fs, pclass=cls, lon=x, lat=y, **args, **kw)
    elif case['how'] == 'from_list':
        ps = ParticleSet.from_list(fs, cls, x, y, **args, **kw)
    else:
        ps = ParticleSet.from_line(fs, cls, a, b, n, **args)
    # the arguments are not touched
    for q, w in zip((x, y, z, t), keep):
        if isinstance(q, np.ndarray) and not np.array_equal(q, w) or not isinstance(q, np.ndarray) and w is not None and list(np.ravel(np.array(q, dtype=object))) != list(np.ravel(np.array(w, dtype=object))):
            raise Violation('creating the set changed its arguments: %r became %r' % (w, q))
    if len(ps) != n:
        raise Violation('%d entries gave %d particles' % (n, len(ps)))
    dt = ll or np.float32
    ids = [int(p.id) for p in ps]
    if len(set(ids)) != n or (first is not None and set(ids) & {int(first[0].id)}):
        raise Violation('ids are not unique: %r' % ids)
    by = {v['name']: v for v in case['vars']}

    def want(i, nm):
        """(value, tolerance)"""
        if nm in ('lon', 'lat', 'depth'):
            v = {'lon': X, 'lat': Y, 'depth': Z}[nm][i]
            e = 0.
            if case['how'] == 'from_line':
                e = 1e-13 * (1 + abs(v)) + (np.spacing(F32(abs(v) + 1e-3)) if dt is np.float32 else 0)
            return float(dt(v)), float(e)
        if nm == 'time':
            return (float('nan') if tm == 'none' else T[i]), 0.
        if nm == 'id':
            return float(ids[i]), 0.
        v = by[nm]
        T_ = NPD[v['dtype']]
        if v['kind'] in ('const', 'npconst'):
            return float(T_(v['val'])), 0.
        if v['kind'] == 'given':
            return float(T_(G[nm][i] if nm in G else -99)), 0.
        if v['kind'] == 'attr':
            w, e = want(i, v['of'])
            if not math.isfinite(w):
                return w, 0.
            return float(T_(w)), e + (1. if T_ in (np.int32, np.int64) and e else 0.)
        c = coef[v['of']]
        s = value(c, T[i], Z[i], Y[i], X[i])
        m = sum(abs(c[k]) * q for k, q in enumerate((1, 25, 28, 8, 8))) + 1
        if v['of'] == 'U' and case['mesh'] == 'spherical':
            f = 1 / (1852 * 60 * math.cos(math.radians(Y[i])))
            return s * f, m * 3e-6 * f
        return s, m * 3e-6

    derived = False
    for i, p in enumerate(ps):
        for nm in ['lon', 'lat', 'depth', 'time'] + list(by):
            w, e = want(i, nm)
            g = float(getattr(p, nm))
            if not math.isfinite(w):
                # no start time yet: not a number (whole numbers cannot hold that)
                if nm == 'time' and not math.isnan(g):
                    raise Violation('particle %d without start time has time %r' % (i, g))
                continue
            if not abs(g - w) <= e:
                raise Violation('particle %d: %s is %r and should be %r (%r)' % (i, nm, g, w, by.get(nm, {}).get('kind')))
            derived = derived or by.get(nm, {}).get('kind') in ('attr', 'field')
        if int(p.state) != StateCode.Evaluate or float(np.ravel(p.ti)[0]) != -1:
            raise Violation('particle %d starts with state %r and ti %r' % (i, p.state, p.ti))
        if np.any(np.ravel(p.xi) != 0) or np.any(np.ravel(p.yi) != 0) or np.any(np.ravel(p.zi) != 0):
            raise Violation('particle %d starts with index guesses %r %r %r' % (i, p.xi, p.yi, p.zi))
    if first is not None and (float(first[0].lon), float(first[0].lat), float(first[0].time)) != (1., 2., 0.):
        raise Violation('creating another set changed an existing particle to %r' % first[0])
    # the set does not share memory with its arguments
    for q in (x, y, z):
        if isinstance(q, np.ndarray):
            q[...] = 77.
    if any(abs(float(p.lon) - want(i, 'lon')[0]) > want(i, 'lon')[1] or abs(float(p.depth) - want(i, 'depth')[0]) > want(i, 'depth')[1] for i, p in enumerate(ps)):
        raise Violation('the particles share memory with the arrays they were created from')
    return {'nontrivial': n >= 2 and derived, 'labels': [case['how'], case['mode'], 'as:' + how, 'time:' + tm, 'fs:' + case['fs']] + sorted({v['kind'] for v in case['vars']})}


# ------------------------------------------------------------------ start fields
@st.composite
def start_s(draw):
    g = draw(samp.grids(kinds=('rz', 'cz'), max_z=1, min_z=1, max_t=2, min_n=3, max_n=6))
    return {'g': g, 'seed': draw(st.integers(0, 1000)), 'zeros': draw(st.sampled_from([0., .1, .3])), 'method': draw(st.sampled_from(['linear', 'nearest', 'cgrid_tracer'])),
            'size': draw(st.sampled_from([4000, 3000, 4000, 7, 1])), 'tracer': draw(st.booleans()), 'np': draw(st.integers(0, 5)),
            'time': draw(st.sampled_from([None, 0.])), 'depth': draw(st.booleans()), 'kind': draw(st.sampled_from(['rand', 'one', 'flat']))}


def cellprob(D, method):
    """Density of the cells of the first snapshot."""
    d = D[0, 0].astype(float)
    if method == 'cgrid_tracer':
        return d[1:, 1:]
    ny, nx = d.shape
    p = np.zeros((ny - 1, nx - 1))
    for j in range(ny - 1):
        for i in range(nx - 1):
            c = [d[j, i], d[j + 1, i], d[j, i + 1], d[j + 1, i + 1]]
            p[j, i] = 0. if 0. in c else sum(c) / 4.
    return p


def run_start(case):
    g = case['g']
    C = samp.coords(g)
    lon = samp.wraplon(g, C[0])
    r = np.random.RandomState(case['seed'])
    nt, _, ny, nx = samp.dims_of(g)
    D = r.randint(1, 9, size=(nt, 1, ny, nx)).astype(F32)
    if case['kind'] == 'flat':
        D[:] = 2.
    D *= (r.rand(1, 1, ny, nx) >= case['zeros'])
    p = cellprob(D, case['method'])
    if case['kind'] == 'one' or p.sum() == 0:
        D[:] = 0
        j, i = r.randint(0, ny - 1), r.randint(0, nx - 1)
        D[:, :, j:j + 2, i:i + 2] = 3.
        p = cellprob(D, case['method'])
    dims = {'lon': lon, 'lat': C[1], 'time': np.array(g['time'])}
    fs = FieldSet.from_data({'U': samp.squeeze(D * 0, g), 'V': samp.squeeze(D * 0, g), 'P': samp.squeeze(D, g)}, dims, mesh=g['mesh'])
    fs.P.interp_method = case['method']
    np.random.seed(case['np'])
    n = case['size']
    kw = {}
    if case['depth']:
        kw['depth'] = [0.] * n
    pset = ParticleSet.from_field(fs, pclass=JITParticle, start_field=fs.P, size=n, time=case['time'], lonlatdepth_dtype=np.float64, **kw)
    if len(pset) != n:
        raise Violation('from_field gave %d particles instead of %d' % (len(pset), n))
    if not np.array_equal(fs.P.data[0], D[0, 0]):
        raise Violation('from_field changed the start field')
    X, Y = np.array([q.lon for q in pset]), np.array([q.lat for q in pset])
    Tm = np.array([q.time for q in pset])
    if (case['time'] is None and not np.isnan(Tm).all()) or (case['time'] is not None and not (Tm == case['time']).all()):
        raise Violation('from_field gave start times %r' % np.unique(Tm))
    cnt = np.zeros_like(p)
    xs, es = [], []
    cell = np.zeros(n, dtype=int)
    if g['kind'][0] == 'r':
        L, A = C[0].astype(float), C[1].astype(float)
        ii = np.clip(np.searchsorted(L, X, side='right') - 1, 0, nx - 2)
        jj = np.clip(np.searchsorted(A, Y, side='right') - 1, 0, ny - 2)
        xi = (X - L[ii]) / (L[ii + 1] - L[ii])
        et = (Y - A[jj]) / (A[jj + 1] - A[jj])
        bad = (xi < -1e-5) | (xi > 1 + 1e-5) | (et < -1e-5) | (et > 1 + 1e-5)
        if bad.any():
            k = int(np.where(bad)[0][0])
            raise Violation('particle at (%r, %r) starts outside the start field' % (X[k], Y[k]))
        for k in range(n):
            # (a particle on an edge may belong to the neighbouring cell)
            a, b = ii[k], jj[k]
            if p[b, a] == 0:
                for a2, b2 in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)):
                    if 0 <= a2 < nx - 1 and 0 <= b2 < ny - 1 and p[b2, a2] > 0 and min(abs(xi[k] - (a2 > a)), 1 if a2 == a else 0) < 1e-5 and b2 == b:
                        a = a2
                        break
            if p[b, a] == 0 and 1e-5 < xi[k] < 1 - 1e-5 and 1e-5 < et[k] < 1 - 1e-5:
                raise Violation('particle at (%r, %r) starts in cell (%d, %d) where the field is zero' % (X[k], Y[k], b, a))
            cnt[b, a] += 1
        xs, es = xi, et
    else:
        xx, yy = C[0].astype(float), C[1].astype(float)
        m = min(n, 400)
        for k in range(m):
            found = []
            for sh in (0., 360., -360.) if g['mesh'] == 'spherical' else (0.,):
                found += [q for q in samp.hcells(g, C, X[k] + sh, Y[k])]
            if not found:
                raise Violation('particle at (%r, %r) starts outside the start field' % (X[k], Y[k]))
            good = [q for q in found if p[q[1], q[0]] > 0]
            if not good:
                raise Violation('particle at (%r, %r) starts in cell %r where the field is zero' % (X[k], Y[k], found[0][:2]))
            cnt[good[0][1], good[0][0]] += 1
            xs.append(good[0][2])
            es.append(good[0][3])
        n = m
    q = p / p.sum()
    if n >= 100:
        z = (cnt - n * q) / np.sqrt(np.maximum(n * q * (1 - q), .05))
        z = np.where((q > 0) & (n * q < 5), np.minimum(np.abs(z), 8.), z)      # few expected: Poisson tails
        if np.abs(z).max() > 8.5:
            k = np.unravel_index(np.abs(z).argmax(), z.shape)
            raise Violation('cell %r: %d of %d particles, expected %.1f' % (k, cnt[k], n, n * q[k]))
        from scipy.stats import kstest
        for nm, u in (('x', np.asarray(xs)), ('y', np.asarray(es))):
            Dk = kstest(u, 'uniform').statistic
            if Dk * math.sqrt(n) > 3.6:
                raise Violation('positions within the cells are not uniform in %s (distance %.3f of %d)' % (nm, Dk, n))
        co = np.corrcoef(xs, es)[0, 1] * math.sqrt(n)
        if abs(co) > 7:
            raise Violation('positions within the cells are correlated (%.1f sigma)' % co)
    return {'nontrivial': n >= 100 and len(np.unique(q[q > 0])) >= 2, 'labels': [g['kind'], g['mesh'], case['method']] + (['wrap'] if g.get('wrap') else [])}


# ------------------------------------------------------------------ density
@st.composite
def dens_s(draw):
    g = draw(samp.grids(kinds=('rz', 'rz', 'cz'), max_z=3, max_t=2, min_n=2, max_n=6))
    pts = draw(st.lists(st.fixed_dictionaries({'i': st.integers(0, 9), 'j': st.integers(0, 9), 'k': st.integers(0, 9), 'fx': st.integers(1, 15), 'fy': st.integers(1, 15)}),
                        min_size=1, max_size=12))
    return {'g': g, 'pts': pts, 'mode': draw(st.sampled_from(['jit', 'scipy'])), 'field': draw(st.sampled_from([None, 'U', 'P'])),
            'weight': draw(st.sampled_from([None, 'name', 'array', 'list'])), 'rel': draw(st.booleans()), 'area': draw(st.booleans()),
            'move': draw(st.booleans()), 'seed': draw(st.integers(0, 100)), 'del': draw(st.booleans()), 'twice': draw(st.booleans())}


def run_dens(case):
    g = case['g']
    C = samp.coords(g)
    lon = samp.wraplon(g, C[0])
    nt, nz, ny, nx = samp.dims_of(g)
    D = np.ones((nt, nz, ny, nx), F32)
    dims = {'lon': lon, 'lat': C[1], 'depth': C[2], 'time': np.array(g['time'])}
    if nz == 1:
        dims.pop('depth')
    fs = FieldSet.from_data({'U': samp.squeeze(D * 0, g), 'V': samp.squeeze(D * 0, g)}, dims, mesh=g['mesh'])
    # P has twice as many columns and rows on rectilinear grids
    if g['kind'][0] == 'r':
        px = np.sort(np.concatenate([C[0], (C[0][1:] + C[0][:-1]) / 2])).astype(F32)
        py = np.sort(np.concatenate([C[1], (C[1][1:] + C[1][:-1]) / 2])).astype(F32)
        pg = RectilinearZGrid(px, py, depth=C[2], time=np.array(g['time']), mesh=g['mesh'])
        gp = dict(g, lon=px.tolist(), lat=py.tolist())
        fs.add_field(Field('P', np.ones((nt, nz, len(py), len(px)), F32), grid=pg))
    else:
        pg = CurvilinearZGrid(lon, C[1], depth=C[2], time=np.array(g['time']), mesh=g['mesh'])
        gp = g
        fs.add_field(Field('P', D, grid=pg))
    CP = samp.coords(gp) if g['kind'][0] == 'c' else (px, py, C[2])
    base = JITParticle if case['mode'] == 'jit' else ScipyParticle
    cls = type('C20D' + base.__name__, (base,), {'w': Variable('w', dtype=np.float64, initial=1.), 'tx': Variable('tx', dtype=np.float64), 'ty': Variable('ty', dtype=np.float64),
                                                 'die': Variable('die', dtype=np.int32, initial=0)})
    r = np.random.RandomState(case['seed'])

    def pos(q, sx=0):
        i, j, k = (q['i'] + sx) % (nx - 1), (q['j'] + sx) % (ny - 1), q['k'] % max(1, nz - 1)
        fx = q['fx'] if q['fx'] != 8 else 7        # off the middle, which is a line of P's grid
        fy = q['fy'] if q['fy'] != 8 else 7
        x, y, z, t = samp.locate(g, {'i': i, 'j': j, 'k': k, 'fx': fx, 'fy': fy, 'fz': 5, 't': 0, 'ft': 0}, C)
        return x, y, z
    P0 = [pos(q, 1 if case['move'] else 0) for q in case['pts']]
    P1 = [pos(q) for q in case['pts']]
    n = len(P1)
    W = [float(r.randint(1, 9)) for _ in range(n)]
    pset = ParticleSet(fs, pclass=cls, lon=[samp.wrappos(g, q)[0] for q in P0], lat=[q[1] for q in P0], depth=[q[2] for q in P1], time=[g['time'][0]] * n, w=W,
                       tx=[samp.wrappos(g, q)[0] for q in P1], ty=[q[1] for q in P1], die=[1 if case['del'] and i % 3 == 1 else 0 for i in range(n)], lonlatdepth_dtype=np.float64)
    alive = list(range(n))

    def visit(particle, fieldset, time):
        u = fieldset.U[time, particle.depth, particle.lat, particle.lon]
        particle.lon = particle.tx
        particle.lat = particle.ty
        if particle.die > 0:
            particle.delete()
    if case['move'] or case['del']:
        pset.execute(visit, runtime=0, dt=1., verbose_progress=False)
        alive = [i for i in alive if not (case['del'] and i % 3 == 1)]
    fname = case['field']
    gg, cc = (gp, CP) if fname == 'P' else (g, C)
    ww = [W[i] for i in alive]
    pv = {None: None, 'name': 'w', 'array': np.array(ww), 'list': list(ww)}[case['weight']]
    curv = g['kind'][0] == 'c'
    area = case['area'] and not curv
    if case['twice']:
        pset.density(field_name='U')
    got = pset.density(field_name=fname, particle_val=pv, relative=case['rel'], area_scale=area)
    sx, sy = len(gg['lon']), len(gg['lat'])
    want = np.zeros((sy, sx))
    for m, i in enumerate(alive):
        cells = samp.hcells(gg, cc, P1[i][0], P1[i][1])
        a, b = cells[0][0], cells[0][1]
        if len(cells) > 1:
            a, b = min(cells, key=lambda q: abs(q[2] - .5) + abs(q[3] - .5))[:2]
        want[b, a] += ww[m] if case['weight'] else 1.
    if case['rel']:
        want = want / (sum(ww) if case['weight'] else len(alive))
    if area:
        fld = fs.P if fname == 'P' else fs.U
        lo, la = cc[0].astype(float), cc[1].astype(float)
        dx, dy = np.gradient(lo), np.gradient(la)
        A = np.outer(dy, dx)
        if g['mesh'] == 'spherical':
            A = A * (1852. * 60) ** 2 * np.cos(np.radians(la))[:, None]
        want = want / A
    if got.shape != want.shape:
        raise Violation('density has shape %r on a grid of %r' % (got.shape, want.shape))
    if not np.allclose(got, want, rtol=2e-4, atol=1e-6 * np.abs(want).max()):
        raise Violation('density is %r and should be %r' % (np.round(got, 6).tolist(), np.round(want, 6).tolist()))
    for m, p in enumerate(pset):
        x, y = samp.wrappos(g, P1[alive[m]])[:2]
        if abs(float(p.lon) - x) > 1e-9 * (1 + abs(x)) or abs(float(p.lat) - y) > 1e-9 * (1 + abs(y)) or float(p.w) != ww[m]:
            raise Violation('counting particles moved one of them')
    return {'nontrivial': int((want > 0).sum()) >= 2, 'labels': [g['kind'], g['mesh'], case['mode'], 'w:%s' % case['weight'], 'field:%s' % fname]
            + (['moved'] if case['move'] else []) + (['area'] if area else []) + (['rel'] if case['rel'] else [])}


SUBCHECKS = [Sub('init', init_s, run_init, quick=80, thorough=2000, budget=35),
             Sub('start', start_s, run_start, quick=40, thorough=800, budget=30),
             Sub('dens', dens_s, run_dens, quick=50, thorough=1000, budget=40)]
