"""C03: velocity sampling on A-, B- and C-grids."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from vp import samp, vec
from parcels import FieldSet, Field
from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError

PROPERTY = 'C03'
RULE = ('a case is a generated grid, staggering, indexing convention, U/V(/W) data and up to 8 positions visited in three orders by the '
        'same particles in both modes plus direct evaluation; non-trivial = at least one position has a defined velocity')
ASSUMPTIONS = [
    'curvilinear cells are convex, counter-clockwise and smoothly varying (see C02)',
    'on a cell edge, where staggered interpolation is discontinuous, any adjacent cell is accepted',
    'U, V and W use one interpolation method; POP grids have at least three levels',
    'tolerance 2e-3 of the largest generated speed',
]


def mkfield(g, C, name, D, case, method, indexing='nemo', drop=False):
    kw = {'lon': samp.wraplon(g, C[0]).copy(), 'lat': C[1].copy()}
    if len(g['depth']) > 1:
        kw['depth'] = C[2].copy()
    if len(g['time']) > 1:
        kw['time'] = np.array(g['time'])
    if drop and len(g['depth']) > 1:      # POP files hold one level less than there are cell interfaces
        D = D[:, :-1]
    return Field(name, samp.squeeze(D, g), mesh=g['mesh'], allow_time_extrapolation=case['extra'],
                 interp_method=method, gridindexingtype=indexing, **kw)


@st.composite
def base(draw, kinds, n=8, **gkw):
    g = draw(samp.grids(kinds=kinds, z4d=True, **gkw))
    nt = len(g['time'])
    case = {'g': g, 'seed': draw(st.integers(0, 10 ** 6)),
            'extra': draw(st.booleans()) if nt > 1 else True,
            'dtype': draw(st.sampled_from([None, 'f4', 'f8'])),
            'w': len(g['depth']) > 1 and draw(st.booleans())}
    case['pts'] = draw(samp.points(g, n, times='any' if nt > 1 else 'inside'))
    case['rot'] = draw(st.integers(0, 5))
    return case


@st.composite
def c_case(draw):
    case = draw(base(('rz', 'cz', 'rs', 'cs')))
    g = case['g']
    case['idx'] = draw(st.sampled_from(['nemo', 'mitgcm'])) if g['kind'] == 'rz' else 'nemo'
    return case


@st.composite
def b_case(draw):
    idx = draw(st.sampled_from(['nemo', 'nemo', 'mom5', 'pop']))
    if idx == 'nemo':
        case = draw(base(('rz', 'cz', 'rs', 'cs')))
    else:
        case = draw(base(('rz', 'cz'), depth_sign=False, min_z=1))
        g = case['g']
        if idx == 'mom5' and len(g['depth']) > 1:
            sh = g['depth'][1] - g['depth'][0]
            d0 = g['depth'][0]
            g['depth'] = [d - d0 + sh for d in g['depth']]
            case['top'] = draw(st.booleans())
        if idx == 'pop' and len(g['depth']) == 2:
            g['depth'].append(g['depth'][1] + 1.0)
        case['drop'] = idx == 'pop' and draw(st.booleans())
    case['idx'] = idx
    return case


@st.composite
def a_case(draw):
    case = draw(base(('rz', 'cz', 'rs', 'cs')))
    case['method'] = draw(st.sampled_from(['linear', 'linear', 'nearest']))
    case['stag'] = [draw(st.sampled_from([0, 0, .2137, -.2137])) for _ in range(4)]
    if case['g']['kind'][0] == 'c':       # a point outside one component's grid costs 1e6 search steps
        case['stag'] = [0] * 4
    return case


def shifted(g, sx, sy):
    h = dict(g)
    h['lon'] = [v + sx * (g['lon'][1] - g['lon'][0]) for v in g['lon']]
    h['lat'] = [v + sy * (g['lat'][1] - g['lat'][0]) for v in g['lat']]
    return h


def direct(F, pos, n):
    x, y, z, t = pos
    try:
        return 'ok', tuple(float(q) for q in F[t, z, y, x])
    except FieldOutOfBoundSurfaceError:
        return 'surface', None
    except FieldOutOfBoundError:
        return 'oob', None
    except TimeExtrapolationError:
        return 'time', None


def judge(who, pos, ref, ref_nt, got, scale):
    status, vals = ref
    s, v = got
    if status == 'either' and s in ('surface', 'oob'):
        return status
    if status in ('ok', 'either'):
        if s != 'ok':
            raise Violation('%s: velocity inside the domain at %s reported %s, expected %s' % (who, pos, s, vals[0]))
        v = np.array(v)
        for r in vals:
            if np.all(np.abs(v - r) <= 2e-3 * scale + 1e-4 * np.abs(r).max()):
                return status
        raise Violation('%s: velocity at (x,y,z,t)=%s is %s, expected %s' % (who, pos, v.tolist(), [list(map(float, r)) for r in vals[:3]]))
    ok = {status}
    if status == 'time':
        ok |= {ref_nt()[0]} - {'ok', 'either'}
    if s not in ok:
        raise Violation('%s: velocity at %s (outside: %s) reported %s %r' % (who, pos, status, s, v))
    return status


def positions(case, g, C):
    pts = [samp.locate(g, p, C) for p in case['pts']]
    if case.get('top') and len(g['depth']) > 1:
        d0, d1 = float(C[2][0]), float(C[2][1])
        lo = max(0., 2 * d0 - d1)
        pts = [(q[0], q[1], float(np.float32(lo + (d0 - lo) * (.1 + .2 * (k % 4)))), q[3]) if k % 2 == 0 else q
               for k, q in enumerate(pts)]
    return pts


def execute(case, fs, g, C, ref, scale, labels):
    what = 'UVW' if case['w'] else 'UV'
    pts = positions(case, g, C)
    k = case['rot'] % len(pts)
    rounds = [pts, pts[k:] + pts[:k], pts[::-1]]
    safe = samp.locate(g, {'i': 0, 'j': 0, 'k': 0, 'fx': 7, 'fy': 7, 'fz': 7, 't': 0, 'ft': 0}, C)
    dt = {'f4': np.float32, 'f8': np.float64, None: None}[case['dtype']]
    fs.check_complete()
    F = getattr(fs, what)
    sts = []
    refs = {q: ref(q, case['extra']) for q in pts}

    def chk(who, q, got):
        f = samp.unit_factor('U', g['mesh'], q[1])
        sc = np.array([scale * f, scale * samp.unit_factor('V', g['mesh'], q[1])] + ([scale] if case['w'] else []))
        return judge(who, q, refs[q], lambda: ref(q, True), got, sc)
    for q in pts:
        sts.append(chk('direct', q, direct(F, samp.wrappos(g, q), what)))
    for mode, hint in (('jit', False), ('scipy', True)):
        res = samp.run_sampling(fs, mode, what, [[samp.wrappos(g, q) for q in r] for r in rounds],
                                samp.wrappos(g, safe), dt, hint)
        for rnd, out in zip(rounds, res):
            for q, got in zip(rnd, out):
                chk(mode, q, got)
    return {'nontrivial': bool({'ok', 'either'} & set(sts)),
            'labels': [g['kind'], g['mesh'], what, 'nt%d' % len(g['time']), '3D' if len(g['depth']) > 1 else '2D'] + labels
            + ['outcome:' + s for s in sorted(set(sts))]}


def run_c(case):
    g = case['g']
    C = samp.coords(g)
    D = [samp.field_data(g, case['seed'] + k) for k in range(3)]
    F = [mkfield(g, C, n, d, case, 'cgrid_velocity', case['idx']) for n, d in zip('UVW', D)]
    fs = FieldSet(F[0], F[1], fields={'W': F[2]} if case['w'] else {})
    return execute(case, fs, g, C, lambda q, ex: vec.ref_cgrid(g, C, D[0], D[1], D[2] if case['w'] else None, q, case['idx'], ex), 128.,
                   ['cgrid', case['idx']])


def run_b(case):
    g = case['g']
    C = samp.coords(g)
    D = [samp.field_data(g, case['seed'] + k) for k in range(3)]
    F = [mkfield(g, C, n, d, case, m, case['idx'], case.get('drop')) for n, d, m in
         zip('UVW', D, ['bgrid_velocity', 'bgrid_velocity', 'bgrid_w_velocity'])]
    fs = FieldSet(F[0], F[1], fields={'W': F[2]} if case['w'] else {})
    return execute(case, fs, g, C, lambda q, ex: vec.ref_bgrid(g, C, D[0], D[1], D[2] if case['w'] else None, q, case['idx'], ex), 64.,
                   ['bgrid', case['idx']])


def run_a(case):
    g = case['g']
    gs = [g, shifted(g, case['stag'][0], case['stag'][1]), shifted(g, case['stag'][2], case['stag'][3])]
    Cs = [samp.coords(h) for h in gs]
    z = .3 if 'invdist' in case['method'] else 0
    D = [samp.field_data(h, case['seed'] + k, z) for k, h in enumerate(gs)]
    n = 3 if case['w'] else 2
    F = [mkfield(h, c, nm, d, case, case['method']) for nm, d, h, c in zip('UVW', D, gs, Cs)]
    fs = FieldSet(F[0], F[1], fields={'W': F[2]} if case['w'] else {})

    def ref(q, ex):
        comps = [samp.ref_tracer(h, c, d, case['method'], q, ex) for h, c, d in zip(gs[:n], Cs, D)]
        bad = [c[0] for c in comps if c[1] is None]
        if bad:
            return bad[0], None
        fac = [samp.unit_factor('U', g['mesh'], q[1]), samp.unit_factor('V', g['mesh'], q[1]), 1.]
        out = [[]]
        for c, f in zip(comps, fac):
            out = [o + [v * f] for o in out for v in c[1]]
        return ('either' if any(c[0] == 'either' for c in comps) else 'ok'), [np.array(o) for o in out]
    return execute(case, fs, g, Cs[0], ref, 64., ['agrid', case['method']])


SUBCHECKS = [Sub('cgrid', c_case, run_c, quick=250, thorough=8000, budget=60),
             Sub('bgrid', b_case, run_b, quick=250, thorough=8000, budget=40),
             Sub('agrid', a_case, run_a, quick=200, thorough=8000, budget=40)]
