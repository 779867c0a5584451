"""C02: tracer sampling equals the documented interpolation (both execution modes)."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from vp import samp
from parcels import FieldSet, Field
from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError

PROPERTY = 'C02'
RULE = ('a case is a generated grid, data array, interpolation method and up to 10 positions visited in three orders by the '
        'same particles in both modes plus direct evaluation; non-trivial = at least one position has a defined value and the field is '
        'not constant; distinct by the hash of the whole case')
ASSUMPTIONS = [
    'curvilinear cells are convex, counter-clockwise and vary smoothly from cell to cell (bilinearly warped, sheared, rotated meshes; 2% jitter on flat meshes): '
    'the cell search is a walk and is not claimed for strongly irregular meshes',
    'exact nearest-neighbour ties and positions within rounding of a cell edge may take either neighbour',
    'coordinates are exactly representable in float32; tolerance 2e-3 on data of magnitude up to 64',
    'positions within 2% of the outer edge of a curvilinear or terrain-following domain are not generated',
]
FT = ['P', 'P', 'P', 'U', 'Kh_zonal', 'Kh_meridional', 'V']


@st.composite
def tracer_case(draw, n=10):
    g = draw(samp.grids(ones=True, z4d=True))
    method = draw(st.sampled_from(samp.TRACER_METHODS))
    if len(g['lon']) == 1 or len(g['lat']) == 1:
        method = draw(st.sampled_from(['linear', 'nearest']))
    nt = len(g['time'])
    case = {'g': g, 'method': method, 'seed': draw(st.integers(0, 10 ** 6)),
            'zeros': draw(st.sampled_from([0, 0, .3, .6])) if method == 'linear_invdist_land_tracer' else 0,
            'extra': draw(st.booleans()) if nt > 1 else True,
            'dtype': draw(st.sampled_from([None, 'f4', 'f8'])),
            'ftype': draw(st.sampled_from(FT))}
    case['pts'] = draw(samp.points(g, n, times='any' if nt > 1 else 'inside'))
    case['rot'] = draw(st.integers(0, 5))
    return case


def build(case):
    g = case['g']
    C = samp.coords(g)
    D = samp.field_data(g, case['seed'], case['zeros'])
    Z = np.zeros_like(D)
    plon = samp.wraplon(g, C[0])
    dims = {'lon': plon, 'lat': C[1]}
    if len(g['depth']) > 1:
        dims['depth'] = C[2]
    if len(g['time']) > 1:
        dims['time'] = np.array(g['time'])
    fs = FieldSet.from_data({'U': samp.squeeze(Z, g), 'V': samp.squeeze(Z, g)}, dims,
                            mesh=g['mesh'], allow_time_extrapolation=case['extra'])
    kw = {'lon': plon.copy(), 'lat': C[1].copy()}
    if len(g['depth']) > 1:
        kw['depth'] = C[2].copy()
    if len(g['time']) > 1:
        kw['time'] = np.array(g['time'])
    P = Field('P', samp.squeeze(D, g), mesh=g['mesh'], allow_time_extrapolation=case['extra'],
              interp_method=case['method'], fieldtype=case['ftype'], **kw)
    fs.add_field(P)
    return fs, C, D


def verdict(case, g, C, D, pos, got, who):
    """Raises when `got` = (status, value) is not what the definition gives at `pos`."""
    status, vals = samp.ref_tracer(g, C, D, case['method'], pos, case['extra'])
    s, v = got
    if status == 'either' and s in ('surface', 'oob'):
        return status
    if status in ('ok', 'either'):
        if s != 'ok':
            raise Violation('%s: sampling inside the domain at %s reported %s, expected a value near %s' % (who, pos, s, vals[:3]))
        f = samp.unit_factor(case['ftype'], g['mesh'], pos[1])
        tol = 2e-3 * abs(f)
        if not any(abs(v - r * f) <= tol for r in vals):
            raise Violation('%s: %s sample at (x,y,z,t)=%s is %r, expected %s' % (who, case['method'], pos, v, [r * f for r in vals[:4]]))
    else:
        ok = {status}
        if status == 'time':     # a point that is outside in space as well may report either
            st2, _ = samp.ref_tracer(g, C, D, case['method'], pos, True)
            ok.add(st2)
            ok -= {'ok', 'either'}
        if s not in ok:
            raise Violation('%s: sampling at %s (outside: %s) reported %s %r' % (who, pos, status, s, v))
    return status


def direct(fs, pos):
    x, y, z, t = pos
    try:
        return 'ok', float(fs.P[t, z, y, x])
    except FieldOutOfBoundSurfaceError:
        return 'surface', None
    except FieldOutOfBoundError:
        return 'oob', None
    except TimeExtrapolationError:
        return 'time', None


def run_tracer(case):
    fs, C, D = build(case)
    g = case['g']
    pts = [samp.locate(g, p, C) for p in case['pts']]
    k = case['rot'] % len(pts)
    rounds = [pts, pts[k:] + pts[:k], pts[::-1]]
    safe = samp.locate(g, {'i': 0, 'j': 0, 'k': 0, 'fx': 7, 'fy': 7, 'fz': 7, 't': 0, 'ft': 0}, C)
    dt = {'f4': np.float32, 'f8': np.float64, None: None}[case['dtype']]
    sts = [verdict(case, g, C, D, q, direct(fs, samp.wrappos(g, q)), 'direct') for q in pts]
    for mode, hint in (('jit', False), ('scipy', True)):
        res = samp.run_sampling(fs, mode, 'P', [[samp.wrappos(g, q) for q in r] for r in rounds],
                                samp.wrappos(g, safe), dt, hint)
        for rnd, out in zip(rounds, res):
            for q, (s, v) in zip(rnd, out):
                verdict(case, g, C, D, q, (s, v[0]), mode)
    labs = [g['kind'], g['mesh'], case['method'], 'nt%d' % len(g['time']), '3D' if len(g['depth']) > 1 else '2D'] + \
        (['z4d'] if g.get('z4d') else []) + ['outcome:' + s for s in sorted(set(sts))]
    return {'nontrivial': 'ok' in sts and len(np.unique(D)) > 1, 'labels': labs}


SUBCHECKS = [Sub('tracer', tracer_case, run_tracer, quick=700, thorough=20000, budget=70)]
