"""Reference velocity interpolation on A-, B- and C-grids."""
import math
import numpy as np
from vp import samp

DEG2M = samp.DEG2M


def corners(g, C, i, j):
    lon, lat = C[0].astype(float), C[1].astype(float)
    if g['kind'][0] == 'r':
        px = np.array([lon[i], lon[i + 1], lon[i + 1], lon[i]])
        py = np.array([lat[j], lat[j], lat[j + 1], lat[j + 1]])
    else:
        px = np.array([lon[j, i], lon[j, i + 1], lon[j + 1, i + 1], lon[j + 1, i]])
        py = np.array([lat[j, i], lat[j, i + 1], lat[j + 1, i + 1], lat[j + 1, i]])
    return px, py


def shape2(xsi, eta):
    return np.array([(1 - xsi) * (1 - eta), xsi * (1 - eta), xsi * eta, (1 - xsi) * eta])


def faces2d(u, v, k, j, i, indexing):
    """west, east, south, north face-normal velocities of cell (j, i)."""
    if indexing == 'nemo':       # face velocities share the index of the cell to their south-west
        return u[k, j + 1, i], u[k, j + 1, i + 1], v[k, j, i + 1], v[k, j + 1, i + 1]
    return u[k, j, i], u[k, j, i + 1], v[k, j, i], v[k, j + 1, i]       # mitgcm


def cgrid2d(g, C, u, v, k, j, i, xsi, eta, indexing):
    px, py = corners(g, C, i, j)
    sph = g['mesh'] == 'spherical'

    def length(a, b, x_, e_):
        dx, dy = px[b] - px[a], py[b] - py[a]
        if sph:
            lat = shape2(x_, e_) @ py
            return math.hypot(dx * DEG2M * math.cos(math.radians(lat)), dy * DEG2M)
        return math.hypot(dx, dy)
    uw, ue, vs, vn = (float(q) for q in faces2d(u, v, k, j, i, indexing))
    fw, fe = uw * length(3, 0, 0., eta), ue * length(1, 2, 1., eta)
    fs, fn = vs * length(0, 1, xsi, 0.), vn * length(2, 3, xsi, 1.)
    FU = (1 - xsi) * fw + xsi * fe
    FV = (1 - eta) * fs + eta * fn
    # contravariant (Piola) transform
    dxsi = np.array([-(1 - eta), 1 - eta, eta, -eta])
    deta = np.array([-(1 - xsi), -xsi, xsi, 1 - xsi])
    M = np.array([[dxsi @ px, deta @ px], [dxsi @ py, deta @ py]])
    J = np.linalg.det(M)
    if sph:
        J *= DEG2M ** 2 * math.cos(math.radians(shape2(xsi, eta) @ py))
    return M @ np.array([FU, FV]) / J


class Hexa:
    """Trilinear hexahedron with vertices given as (3, 2(z), 4(corner))."""
    def __init__(self, px, py, pz, sph):
        self.P = np.array([px, py, pz]).reshape(3, 8)
        self.sph = sph

    def grads(self, a, b, c):
        s = np.array([[1 - a, a], [1 - b, b], [1 - c, c]])
        d = np.array([-1., 1.])
        ca = [0, 1, 1, 0, 0, 1, 1, 0]
        cb = [0, 0, 1, 1, 0, 0, 1, 1]
        cc = [0, 0, 0, 0, 1, 1, 1, 1]
        ga = np.array([d[x] * s[1, y] * s[2, z] for x, y, z in zip(ca, cb, cc)])
        gb = np.array([s[0, x] * d[y] * s[2, z] for x, y, z in zip(ca, cb, cc)])
        gc = np.array([s[0, x] * s[1, y] * d[z] for x, y, z in zip(ca, cb, cc)])
        return self.P @ np.array([ga, gb, gc]).T      # columns: d/dxsi, d/deta, d/dzeta

    def metric(self, a, b, c):
        M = self.grads(a, b, c)
        if self.sph:
            lat = shape2(a, b) @ self.P[1, :4]
            M = np.diag([DEG2M * math.cos(math.radians(lat)), DEG2M, 1.]) @ M
        return M

    def area(self, a, b, c, direction):
        M = self.metric(a, b, c)
        o = [k for k in range(3) if k != direction]
        return np.linalg.norm(np.cross(M[:, o[0]], M[:, o[1]]))

    def half(self, direction):
        P = self.P.copy()
        pairs = {0: [(1, 0), (2, 3), (5, 4), (6, 7)], 1: [(3, 0), (2, 1), (7, 4), (6, 5)],
                 2: [(4, 0), (5, 1), (6, 2), (7, 3)]}[direction]
        for far, near in pairs:
            P[:, far] = (self.P[:, far] + self.P[:, near]) / 2
        h = Hexa(P[0], P[1], P[2], self.sph)
        return h


def cgrid3d_s(g, C, u, v, w, ti, k, j, i, xsi, eta, zet):
    px, py = corners(g, C, i, j)
    d = C[2].astype(float)
    if d.ndim == 4:
        d = d[ti]
    pz = [d[kk, j + b, i + a] for kk in (k, k + 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
    H = Hexa(np.concatenate([px, px]), np.concatenate([py, py]), np.array(pz), g['mesh'] == 'spherical')
    f = [(float(u[k, j + 1, i]), float(u[k, j + 1, i + 1])), (float(v[k, j, i + 1]), float(v[k, j + 1, i + 1])),
         (float(w[k, j + 1, i + 1]), float(w[k + 1, j + 1, i + 1]))]
    q = [xsi, eta, zet]
    rate = []
    J = np.linalg.det(H.metric(*q))
    for dr in range(3):
        def at(val):
            c = list(q)
            c[dr] = val
            return c
        F0 = f[dr][0] * H.area(*at(0.), dr)
        F1 = f[dr][1] * H.area(*at(1.), dr)
        hh = H.half(dr)
        c0 = [.5, .5, .5]
        c0[dr] = 0.
        mid = f[dr][0] * hh.area(*c0, dr)
        for o in range(3):
            if o == dr:
                continue
            a0, a1 = [.5, .5, .5], [.5, .5, .5]
            a0[o], a1[o] = 0., 1.
            mid += f[o][0] * hh.area(*a0, o) - f[o][1] * hh.area(*a1, o)
        F5 = mid / H.area(.5, .5, .5, dr) * H.area(*at(.5), dr)
        s = q[dr]
        rate.append((F0 * (1 - s) * (1 - 2 * s) + F5 * 4 * s * (1 - s) + F1 * s * (2 * s - 1)) / J)
    return H.grads(*q) @ np.array(rate)


def lin(d, k, j, i, xsi, eta):
    return shape2(xsi, eta) @ np.array([d[k, j, i], d[k, j, i + 1], d[k, j + 1, i + 1], d[k, j + 1, i]], dtype=float)


def ref_cgrid(g, C, U, V, W, pos, indexing, extrapolate):
    """(status, [vectors])"""
    x, y, z, t = pos
    tw = samp.time_weights(g, t, extrapolate)
    if tw is None:
        return 'time', None
    hc = samp.hcells(g, C, x, y)
    if not hc:
        return 'oob', None
    out, alts = [], set()
    for (i, j, xsi, eta) in hc:
        vc = samp.vcells(g, C, x, y, z, t, i, j, xsi, eta)
        if not vc:
            col = samp.zlevels(g, C, x, y, t, i, j, xsi, eta)
            alts.add('surface' if ((z < col[0]) if col[-1] > col[0] else (z > col[0])) else 'oob')
        for (k, zeta) in vc:
            acc = 0
            for ti, wt in tw:
                if wt == 0:
                    continue
                if W is not None and g['kind'][1] == 's':
                    val = cgrid3d_s(g, C, U[ti], V[ti], W[ti], ti, k, j, i, xsi, eta, zeta)
                else:
                    val = cgrid2d(g, C, U[ti], V[ti], k, j, i, xsi, eta, indexing)
                    if W is not None:
                        o = 1 if indexing == 'nemo' else 0
                        ww = (1 - zeta) * W[ti][k, j + o, i + o] + zeta * W[ti][k + 1, j + o, i + o]
                        val = np.append(val, float(ww))
                acc = acc + wt * val
            out.append(acc)
    if not out:
        return sorted(alts)[0], None
    return ('either' if alts else 'ok'), out


def ref_bgrid(g, C, U, V, W, pos, indexing, extrapolate):
    x, y, z, t = pos
    tw = samp.time_weights(g, t, extrapolate)
    if tw is None:
        return 'time', None
    hc = samp.hcells(g, C, x, y)
    if not hc:
        return 'oob', None
    out, alts = [], set()
    nz = len(g['depth'])
    fu, fv = samp.unit_factor('U', g['mesh'], y), samp.unit_factor('V', g['mesh'], y)
    for (i, j, xsi, eta) in hc:
        vc = samp.vcells(g, C, x, y, z, t, i, j, xsi, eta, corner=True)
        if indexing == 'mom5' and nz > 1:
            d0, d1 = float(C[2][0]), float(C[2][1])
            if z < d0 and z > 2 * d0 - d1:
                vc = [(-1, z / d0)]
        if not vc:
            col = samp.zlevels(g, C, x, y, t, i, j, xsi, eta, True)
            alts.add('surface' if ((z < col[0]) if col[-1] > col[0] else (z > col[0])) else 'oob')
        for (k, zeta) in vc:
            acc = 0
            for ti, wt in tw:
                if wt == 0:
                    continue
                ku = k + 1 if (indexing == 'mom5' and nz > 1) else k
                val = [lin(U[ti], ku, j, i, xsi, eta) * fu, lin(V[ti], ku, j, i, xsi, eta) * fv]
                if W is not None:
                    top = W[ti][k, j + 1, i + 1] if k >= 0 else 0.
                    bot = 0. if (indexing == 'pop' and k == nz - 2) else W[ti][k + 1, j + 1, i + 1]
                    val.append(float((1 - zeta) * top + zeta * bot))
                acc = acc + wt * np.array(val)
            out.append(acc)
    if not out:
        return sorted(alts)[0], None
    return ('either' if alts else 'ok'), out
