"""Generated fields, sample points and an independent reference interpolator."""
import math
import numpy as np
from hypothesis import strategies as st
from parcels import (FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode)

DEG2M = 1852 * 60.
F32 = np.float32

# ---------------------------------------------------------------- generators

TRACER_METHODS = ['linear', 'nearest', 'linear_invdist_land_tracer', 'cgrid_tracer', 'bgrid_tracer']


@st.composite
def axis(draw, n, lo, unit, maxstep, reverse=False):
    """n strictly increasing values lo + unit*(steps), dyadic when unit is."""
    steps = [draw(st.integers(1, maxstep)) for _ in range(n - 1)]
    v = [0]
    for s in steps:
        v.append(v[-1] + s)
    return [lo + unit * k for k in v]


@st.composite
def grids(draw, kinds=('rz', 'rs', 'cz', 'cs'), meshes=('flat', 'spherical'), min_n=2, max_n=5, max_z=4, max_t=3,
          min_z=1, force_z=False, ones=False, z4d=False, depth_sign=True):
    kind = draw(st.sampled_from(kinds))
    mesh = draw(st.sampled_from(meshes))
    nx = draw(st.integers(min_n, max_n))
    ny = draw(st.integers(min_n, max_n))
    if ones and kind == 'rz' and draw(st.integers(0, 5)) == 0:
        nx = draw(st.sampled_from([1, nx]))
        ny = draw(st.sampled_from([1, ny]))
    nz = draw(st.integers(max(2, min_z) if (force_z or kind[1] == 's') else min_z, max_z))
    nt = draw(st.integers(1, max_t))
    g = {'kind': kind, 'mesh': mesh}
    if mesh == 'flat':
        unit = draw(st.sampled_from([0.25, 1.0, 64.0, 1000.0, 0.1]))
        lon0 = unit * draw(st.integers(-8, 8))
        lat0 = unit * draw(st.integers(-8, 8))
        g['lon'] = draw(axis(nx, lon0, unit, 4))
        g['lat'] = draw(axis(ny, lat0, unit, 4))
    else:
        if kind[0] == 'r':
            unit = draw(st.sampled_from([0.25, 1.0, 4.0, 16.0, 0.3]))
            # keep every longitude step below 180 and the full extent below 340 degrees
            ms = max(1, min(8, int(340 / unit / max(1, nx - 1))))
            g['lon'] = draw(axis(nx, float(draw(st.sampled_from([-180, -170, -30, 0, 20, 150, 175]))), unit, ms))
            latu = draw(st.sampled_from([0.25, 1.0, 4.0, 0.1]))
            g['lat'] = draw(axis(ny, float(draw(st.sampled_from([-84, -60, -20, 0, 40]))), latu, 6 if latu < 4 else 2))
        else:
            unit = draw(st.sampled_from([0.5, 1.0, 2.0]))
            g['lon'] = draw(axis(nx, float(draw(st.sampled_from([-30, 0, 20, 120]))), unit, 3))
            g['lat'] = draw(axis(ny, float(draw(st.sampled_from([-60, -20, 0, 40]))), unit, 3))
    if kind[0] == 'c':
        # the cell search walks from cell to cell and needs neighbouring cells of similar shape
        for ax in ('lon', 'lat'):
            d = g[ax][1] - g[ax][0]
            g[ax] = [g[ax][0] + d * k for k in range(len(g[ax]))]
        g['rot'] = draw(st.sampled_from([0, 15, 30, 45, 60, 90, 120, 180, -30, -75]))
        if mesh == 'spherical' and draw(st.integers(0, 3)) == 0:
            # a mesh across the dateline, with longitudes stored in [-180, 180)
            off = round(180 - (g['lon'][0] + g['lon'][-1]) / 2) + draw(st.sampled_from([-1, 0, 1, 2]))
            g['lon'] = [v + off for v in g['lon']]
            g['wrap'] = True
        g['shear'] = draw(st.sampled_from([0.0, 0.25, -0.25]))
        g['jit'] = draw(st.sampled_from([0.0, 0.01, 0.02])) if mesh == 'flat' else 0.0
        g['jseed'] = draw(st.integers(0, 50))
        g['warp'] = [draw(st.sampled_from([0.0, 0.15, -0.2, 0.3])) for _ in range(2)]
    if g.get('wrap'):
        # only meshes whose first row runs across the dateline are recognised as such
        h = dict(g, depth=[0.0], time=[0.0])
        wl = wraplon(g, coords(h)[0])
        if not wl[0, 0] > wl[0, -1]:
            g['wrap'] = False
    if nz > 1:
        zunit = draw(st.sampled_from([0.5, 1.0, 16.0, 0.1]))
        z0 = draw(st.sampled_from([0.0, 0.0, 1.0, -8.0])) * zunit
        d = draw(axis(nz, z0, zunit, 4))
        g['depth'] = d
        if depth_sign and draw(st.integers(0, 3)) == 0:
            g['depth'] = [-x for x in d]     # decreasing, negative upwards
        if kind[1] == 's':
            g['dseed'] = draw(st.integers(0, 50))
            g['z4d'] = bool(z4d and nt > 1 and draw(st.booleans()))
    else:
        g['depth'] = [0.0]
    if nt > 1:
        g['time'] = draw(axis(nt, float(draw(st.sampled_from([0, 0, 8, -16]))), draw(st.sampled_from([1.0, 86400.0])), 4))
    else:
        g['time'] = [0.0]
    return g


def coords(g):
    """lon, lat, depth arrays as handed to Parcels."""
    lon = np.array(g['lon'], dtype=F32)
    lat = np.array(g['lat'], dtype=F32)
    depth = np.array(g['depth'], dtype=F32)
    nx, ny, nz = len(lon), len(lat), len(depth)
    if g['kind'][0] == 'c':
        x, y = np.meshgrid(lon.astype(float), lat.astype(float))
        cx, cy = x.mean(), y.mean()
        r = np.random.RandomState(1000 + g['jseed'])
        sp = min(np.min(np.diff(g['lon'])), np.min(np.diff(g['lat'])))
        x = x + g['jit'] * sp * (r.rand(ny, nx) - .5) * 2
        y = y + g['jit'] * sp * (r.rand(ny, nx) - .5) * 2
        a = math.radians(g['rot'])
        dx, dy = x - cx, y - cy
        ex, ey = float(lon[-1] - lon[0]), float(lat[-1] - lat[0])
        uv = (dx / ex + .5) * (dy / ey + .5)
        dx, dy = dx + g['warp'][0] * ex * uv, dy + g['warp'][1] * ey * uv
        dx = dx + g['shear'] * dy
        lon = (cx + dx * math.cos(a) - dy * math.sin(a)).astype(F32)
        lat = (cy + dx * math.sin(a) + dy * math.cos(a)).astype(F32)
    if g['kind'][1] == 's' and nz > 1:
        r = np.random.RandomState(2000 + g['dseed'])
        nt = len(g['time'])
        if g.get('z4d'):
            stretch = 1 + .5 * r.rand(nt, 1, ny, nx)
            d0 = depth[:1].astype(float)[None, :, None, None]
            dd = depth.astype(float)[None, :, None, None]
        else:
            stretch = 1 + .5 * r.rand(1, ny, nx)
            d0 = depth[:1].astype(float)[:, None, None]
            dd = depth.astype(float)[:, None, None]
        depth = (d0 + (dd - d0) * stretch + 0 * stretch).astype(F32)
    return lon, lat, depth


def wraplon(g, x):
    """Longitude as stored in the data / given to the particle."""
    if not g.get('wrap'):
        return x
    if np.ndim(x):
        return np.where(x >= 180, x - F32(360), x).astype(F32)
    return float(x - 360.) if x >= 180 else x


def wrappos(g, q):
    return (wraplon(g, q[0]),) + tuple(q[1:])


def dims_of(g):
    return len(g['time']), len(g['depth']), len(g['lat']), len(g['lon'])


def field_data(g, seed, zeros=0.0, scale=64, shape=None):
    r = np.random.RandomState(3000 + seed)
    nt, nz, ny, nx = shape or dims_of(g)
    d = r.randint(1, scale + 1, size=(nt, nz, ny, nx)).astype(float) * np.where(r.rand(nt, nz, ny, nx) < .5, -1, 1)
    if zeros:
        land = r.rand(1, nz, ny, nx) < zeros
        d = np.where(land, 0., d)
    return d.astype(F32)


def squeeze(d, g):
    """[t,z,y,x] -> the shape from_data documents ([t,][z,]y,x)."""
    nt, nz = d.shape[:2]
    if len(g['depth']) == 1:
        d = d[:, 0]
        return d[0] if len(g['time']) == 1 else d
    return d[0] if len(g['time']) == 1 else d


# -------------------------------------------------------------- sample points

FRACS = [0, 1, 3, 5, 7, 9, 11, 13, 15, 16]    # sixteenths; never exactly a nearest-neighbour tie


@st.composite
def point(draw, g, outside=True, times='inside', zoutside=True):
    nt, nz, ny, nx = dims_of(g)
    p = {'i': draw(st.integers(0, max(0, nx - 2))), 'fx': draw(st.sampled_from(FRACS)),
         'j': draw(st.integers(0, max(0, ny - 2))), 'fy': draw(st.sampled_from(FRACS)),
         'k': draw(st.integers(0, max(0, nz - 2))), 'fz': draw(st.sampled_from(FRACS))}
    p['t'] = draw(st.integers(0, max(0, nt - 2)))
    p['ft'] = draw(st.sampled_from([0, 0, 1, 4, 8, 12, 16])) if nt > 1 else 0
    if times == 'any' and draw(st.integers(0, 5)) == 5:
        p['dt'] = draw(st.sampled_from([-3, -1, 1, 3]))
    if outside and draw(st.integers(0, 7)) == 7:
        # grids turned by 90 degrees or more only notice points beyond their longitude range after 1e6 search steps
        xs = ['x-', 'x+'] if abs(g.get('rot', 0)) < 75 and not g.get('wrap') else []
        p['out'] = draw(st.sampled_from(xs + ['y-', 'y+'] + (['z-', 'z+'] if nz > 1 and zoutside else [])))
    return p


def points(g, n, **kw):
    return st.lists(point(g, **kw), min_size=1, max_size=n)


def locate(g, p, C=None):
    """Physical position (float32-representable) and time of a point spec."""
    lon, lat, depth = C if C is not None else coords(g)
    nt, nz, ny, nx = dims_of(g)
    fx, fy, fz = p['fx'] / 16., p['fy'] / 16., p['fz'] / 16.
    i, j, k = p['i'], p['j'], p['k']
    # positions on the very edge of a rotated or terrain-following domain are not representable: keep off it
    if g['kind'][0] == 'c':
        fx = .02 if (i == 0 and fx == 0) else (.98 if (i == nx - 2 and fx == 1) else fx)
        fy = .02 if (j == 0 and fy == 0) else (.98 if (j == ny - 2 and fy == 1) else fy)
    if depth.ndim > 1:
        fz = .02 if (k == 0 and fz == 0) else (.98 if (k == nz - 2 and fz == 1) else fz)
    if g['kind'][0] == 'r':
        x = float(lon[i]) + fx * (float(lon[min(i + 1, nx - 1)]) - float(lon[i]))
        y = float(lat[j]) + fy * (float(lat[min(j + 1, ny - 1)]) - float(lat[j]))
        xr = float(lon.max() - lon.min()) or 1.
        yr = float(lat.max() - lat.min()) or 1.
    else:
        w = [(1 - fx) * (1 - fy), fx * (1 - fy), fx * fy, (1 - fx) * fy]
        ix = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
        x = sum(a * float(lon[c]) for a, c in zip(w, ix))
        y = sum(a * float(lat[c]) for a, c in zip(w, ix))
        xr = float(lon.max() - lon.min())
        yr = float(lat.max() - lat.min())
    tt = g['time'][p['t']]
    if nt > 1:
        tt += p['ft'] / 16. * (g['time'][p['t'] + 1] - g['time'][p['t']])
    if p.get('dt'):
        span = (g['time'][-1] - g['time'][0]) or 16.
        tt = (g['time'][-1] + span * p['dt'] / 4.) if p['dt'] > 0 else (g['time'][0] + span * p['dt'] / 4.)
    x, y = float(F32(x)), float(F32(y))
    if nz > 1:
        if depth.ndim == 1:
            col = depth.astype(float)
        else:
            col = zcolumn(g, (lon, lat, depth), x, y, tt, i, j, fx, fy)
        z = col[k] + fz * (col[k + 1] - col[k])
        dz = col[-1] - col[0]
    else:
        z, dz = 0.0, 1.0
        col = np.zeros(1)
    o = p.get('out')
    if o == 'x-':
        x = float(lon.min()) - xr * .25
    elif o == 'x+':
        x = float(lon.max()) + xr * .25
    elif o == 'y-':
        y = float(lat.min()) - yr * .25
    elif o == 'y+':
        y = float(lat.max()) + yr * .25
    elif o == 'z-':
        z = col[0] - dz * .25
    elif o == 'z+':
        z = col[-1] + dz * .25
    return float(F32(x)), float(F32(y)), float(F32(z)), float(tt)


def time_weights(g, t, extrapolate):
    """[(ti, weight)], or None when outside and extrapolation is not allowed."""
    T = g['time']
    if len(T) == 1:
        return [(0, 1.)] if extrapolate or t == T[0] else None
    if t < T[0]:
        return [(0, 1.)] if extrapolate else None
    if t > T[-1]:
        return [(len(T) - 1, 1.)] if extrapolate else None
    for i in range(len(T) - 1):
        if T[i] <= t <= T[i + 1]:
            w = (t - T[i]) / (T[i + 1] - T[i])
            return [(i, 1 - w), (i + 1, w)]


def zcolumn(g, C, x, y, t, i, j, xsi, eta, corner=False):
    """Depth levels of the water column at a point of an s-grid."""
    depth = C[2]
    if corner:
        xsi = eta = 1.
    d = depth.astype(float)
    if d.ndim == 4:
        tw = time_weights(g, t, True)
        d = sum(w * d[ti] for ti, w in tw)
    return ((1 - xsi) * (1 - eta) * d[:, j, i] + xsi * (1 - eta) * d[:, j, i + 1]
            + xsi * eta * d[:, j + 1, i + 1] + (1 - xsi) * eta * d[:, j + 1, i])


def zlevels(g, C, x, y, t, i, j, xsi, eta, corner=False):
    return C[2].astype(float) if C[2].ndim == 1 else zcolumn(g, C, x, y, t, i, j, xsi, eta, corner)


EPS = 2e-6


def hcells(g, C, x, y):
    """All horizontal cells containing (x, y) up to rounding: [(i, j, xsi, eta, strictly_inside)]."""
    lon, lat = C[0].astype(float), C[1].astype(float)
    out = []
    if g['kind'][0] == 'r':
        xs = _cells1d(lon, x)
        ys = _cells1d(lat, y)
        for i, xsi in xs:
            for j, eta in ys:
                out.append((i, j, min(max(xsi, 0.), 1.), min(max(eta, 0.), 1.)))
        return out
    ny, nx = lon.shape
    for j in range(ny - 1):
        for i in range(nx - 1):
            px = np.array([lon[j, i], lon[j, i + 1], lon[j + 1, i + 1], lon[j + 1, i]])
            py = np.array([lat[j, i], lat[j, i + 1], lat[j + 1, i + 1], lat[j + 1, i]])
            r = invert_bilinear(px, py, x, y)
            if r is None:
                continue
            xsi, eta = r
            e = 2e-5
            if -e <= xsi <= 1 + e and -e <= eta <= 1 + e:
                out.append((i, j, min(max(xsi, 0.), 1.), min(max(eta, 0.), 1.)))
    return out


def _cells1d(ax, x, periodic=False):
    n = len(ax)
    if n == 1:
        return [(0, 0.)]
    out = []
    for i in range(n - 1):
        a, b = ax[i], ax[i + 1]
        for shift in ((0., 360., -360.) if periodic else (0.,)):
            f = (x + shift - a) / (b - a)
            if -EPS <= f <= 1 + EPS:
                out.append((i, f))
    return out


def invert_bilinear(px, py, x, y):
    xsi = eta = .5
    for _ in range(60):
        N = np.array([(1 - xsi) * (1 - eta), xsi * (1 - eta), xsi * eta, (1 - xsi) * eta])
        fx, fy = N @ px - x, N @ py - y
        dxi = np.array([eta - 1, 1 - eta, eta, -eta])
        det = np.array([xsi - 1, -xsi, xsi, 1 - xsi])
        J = np.array([[dxi @ px, det @ px], [dxi @ py, det @ py]])
        D = np.linalg.det(J)
        if D == 0:
            return None
        s = np.linalg.solve(J, [fx, fy])
        xsi, eta = xsi - s[0], eta - s[1]
        if not (abs(xsi) < 50 and abs(eta) < 50):
            return None
        if abs(s[0]) + abs(s[1]) < 1e-13:
            break
    return xsi, eta


def vcells(g, C, x, y, z, t, i, j, xsi, eta, corner=False):
    depth = C[2]
    if len(g['depth']) == 1:
        return [(0, 0.)]
    col = zlevels(g, C, x, y, t, i, j, xsi, eta, corner)
    out = []
    e = EPS if depth.ndim == 1 else 3e-5
    for k in range(len(col) - 1):
        f = (z - col[k]) / (col[k + 1] - col[k])
        if -e <= f <= 1 + e:
            out.append((k, min(max(f, 0.), 1.)))
    return out


def _lin2(d, xsi, eta, j, i, j1, i1):
    return ((1 - xsi) * (1 - eta) * d[j, i] + xsi * (1 - eta) * d[j, i1] + xsi * eta * d[j1, i1]
            + (1 - xsi) * eta * d[j1, i])


def tracer_at_level(d, method, i, j, k, xsi, eta, zeta, indexing='nemo'):
    """d: [z,y,x] of one snapshot; returns the set of admissible values."""
    nz, ny, nx = d.shape
    i1, j1, k1 = min(i + 1, nx - 1), min(j + 1, ny - 1), min(k + 1, nz - 1)
    if method == 'linear':
        f0 = _lin2(d[k], xsi, eta, j, i, j1, i1)
        f1 = _lin2(d[k1], xsi, eta, j, i, j1, i1)
        return [(1 - zeta) * f0 + zeta * f1]
    if method == 'nearest':
        ii = [i, i1] if abs(xsi - .5) < 1e-4 else ([i] if xsi < .5 else [i1])
        jj = [j, j1] if abs(eta - .5) < 1e-4 else ([j] if eta < .5 else [j1])
        kk = [k, k1] if abs(zeta - .5) < 1e-4 else ([k] if zeta < .5 else [k1])
        return [d[c, b, a] for a in ii for b in jj for c in kk]
    if method in ('cgrid_tracer', 'bgrid_tracer'):
        return [d[k, j1, i1]]
    if method == 'linear_invdist_land_tracer':
        if nz == 1:
            nodes = [(eta - b, xsi - a, 0., d[0, j + b, i + a]) for b in (0, 1) for a in (0, 1)]
        else:
            nodes = [(eta - b, xsi - a, zeta - c, d[k + c, j + b, i + a])
                     for c in (0, 1) for b in (0, 1) for a in (0, 1)]
        vals = np.array([n[3] for n in nodes])
        land = vals == 0
        if land.all():
            return [0.]
        if not land.any():
            return tracer_at_level(d, 'linear', i, j, k, xsi, eta, zeta)
        d2 = np.array([n[0] ** 2 + n[1] ** 2 + n[2] ** 2 for n in nodes])
        near = d2 < 1e-7
        out = []
        if near.any():
            out.append(float(vals[near][0]))          # exactly on a node: the value of the node
            if (~land).sum() == 1:
                out.append(float(vals[~land][0]))     # a single wet node: its value everywhere in the cell
        w = np.where(land, 0., 1. / np.maximum(d2, 1e-30))
        if not near.any() or d2[near].min() > 0:
            out.append(float((w * vals).sum() / w.sum()))
        return out
    raise ValueError(method)


def ref_tracer(g, C, D, method, pos, extrapolate=True):
    """(status, values): status in 'ok', 'oob', 'surface', 'time' plus admissible values."""
    x, y, z, t = pos
    tw = time_weights(g, t, extrapolate)
    if tw is None:
        return 'time', None
    hc = hcells(g, C, x, y)
    if not hc:
        return 'oob', None
    vals = []
    alts = set()
    any_z = False
    corner = method.startswith('bgrid')
    for (i, j, xsi, eta) in hc:
        vc = vcells(g, C, x, y, z, t, i, j, xsi, eta, corner)
        if not vc:
            col = zlevels(g, C, x, y, t, i, j, xsi, eta, corner)
            alts.add('surface' if ((z < col[0]) if col[-1] > col[0] else (z > col[0])) else 'oob')
        for (k, zeta) in vc:
            any_z = True
            acc = [0.]
            for ti, w in tw:
                if w == 0:
                    continue
                a = tracer_at_level(D[ti].astype(float), method, i, j, k, xsi, eta, zeta)
                acc = [s + w * v for s in acc for v in a]
            vals += acc
    if not any_z:
        return sorted(alts)[0], None
    if alts and vals:
        return 'either', vals      # on the edge of cells with different water columns
    return 'ok', vals


def unit_factor(fieldtype, mesh, lat):
    if mesh == 'flat':
        return 1.
    c = math.cos(math.radians(lat))
    return {'U': 1 / DEG2M / c, 'V': 1 / DEG2M, 'Kh_zonal': 1 / (DEG2M * c) ** 2, 'Kh_meridional': 1 / DEG2M ** 2}.get(fieldtype, 1.)


# ------------------------------------------------------------------ execution

class _VarsMixin:
    pass


def make_pclass(base):
    class SampleP(base):
        ts = Variable('ts', dtype=np.float64, initial=0., to_write=False)
        p = Variable('p', dtype=np.float64, initial=0., to_write=False)
        u = Variable('u', dtype=np.float64, initial=0., to_write=False)
        v = Variable('v', dtype=np.float64, initial=0., to_write=False)
        w = Variable('w', dtype=np.float64, initial=0., to_write=False)
        err = Variable('err', dtype=np.int32, initial=0, to_write=False)
    return SampleP


SampleJIT = make_pclass(JITParticle)
SampleScipy = make_pclass(ScipyParticle)


def sampleP(particle, fieldset, time):
    particle.p = fieldset.P[particle.ts, particle.depth, particle.lat, particle.lon]


def sampleUV(particle, fieldset, time):
    (uu, vv) = fieldset.UV[particle.ts, particle.depth, particle.lat, particle.lon]
    particle.u = uu
    particle.v = vv


def sampleUVW(particle, fieldset, time):
    (uu, vv, ww) = fieldset.UVW[particle.ts, particle.depth, particle.lat, particle.lon]
    particle.u = uu
    particle.v = vv
    particle.w = ww


def sampleP_part(particle, fieldset, time):
    particle.p = fieldset.P[particle.ts, particle.depth, particle.lat, particle.lon, particle]


def sampleUV_part(particle, fieldset, time):
    (uu, vv) = fieldset.UV[particle.ts, particle.depth, particle.lat, particle.lon, particle]
    particle.u = uu
    particle.v = vv


def sampleUVW_part(particle, fieldset, time):
    (uu, vv, ww) = fieldset.UVW[particle.ts, particle.depth, particle.lat, particle.lon, particle]
    particle.u = uu
    particle.v = vv
    particle.w = ww


KERNELS = {'P': (sampleP, sampleP_part), 'UV': (sampleUV, sampleUV_part), 'UVW': (sampleUVW, sampleUVW_part)}
ERRNAME = {0: 'ok', 1: 'oob', 2: 'surface', 3: 'time', 4: 'interp', 5: 'error'}


def run_sampling(fs, mode, what, rounds, safe, dtype=None, hint=False):
    """rounds: list of position lists (x,y,z,t); the same particles visit them in turn.
    Returns per round a list of (status, p|(u,v)|(u,v,w))."""
    n = len(rounds[0])
    cls = SampleJIT if mode == 'jit' else SampleScipy
    kw = {} if dtype is None else {'lonlatdepth_dtype': dtype}
    r0 = rounds[0]
    pset = ParticleSet(fs, pclass=cls, lon=[q[0] for q in r0], lat=[q[1] for q in r0], depth=[q[2] for q in r0],
                       time=0., ts=[q[3] for q in r0], **kw)

    def mk(code):
        def rec(particle, fieldset, time):
            particle.err = code
            particle.lon, particle.lat, particle.depth, particle.ts = safe
        return rec
    recovery = {ErrorCode.ErrorOutOfBounds: mk(1), ErrorCode.ErrorThroughSurface: mk(2),
                ErrorCode.ErrorTimeExtrapolation: mk(3)}
    if hasattr(ErrorCode, 'ErrorInterpolation'):
        recovery[ErrorCode.ErrorInterpolation] = mk(4)
    kern = pset.Kernel(KERNELS[what][1 if hint else 0])
    res = []
    for ri, rnd in enumerate(rounds):
        if ri:
            for p, q in zip(pset, rnd):
                p.lon, p.lat, p.depth, p.ts, p.err = q[0], q[1], q[2], q[3], 0
        pset.execute(kern, runtime=1, dt=1, recovery=dict(recovery), verbose_progress=False)
        out = []
        for p in pset:
            s = ERRNAME[int(p.err)]
            val = {'P': lambda: (float(p.p),), 'UV': lambda: (float(p.u), float(p.v)),
                   'UVW': lambda: (float(p.u), float(p.v), float(p.w))}[what]()
            out.append((s, val))
        if len(out) != n:
            raise AssertionError('particles lost: %d of %d left' % (len(out), n))
        res.append(out)
    return res
