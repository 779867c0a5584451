"""C12: summed and nested fields against their members sampled one by one."""
import linecache
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, ErrorCode, SummedField, NestedField, VectorField
from parcels.tools.statuscodes import FieldOutOfBoundError, FieldOutOfBoundSurfaceError, TimeExtrapolationError

PROPERTY = 'C12'
RULE = ('a case is 1-4 members with their own grids, time axes and interpolation, combined by +, SummedField or NestedField into scalars and vectors, '
        'and up to 8 positions inside, between and outside the members; every member is built a second time and sampled alone as the oracle; '
        'non-trivial = a position at which at least one member can and, or two members can be sampled')
ASSUMPTIONS = ['members are on rectilinear grids (z- or s-levels) or on gently rotated curvilinear grids that contain every position',
               'an error other than out-of-bounds of an earlier member of a nested field is reported, as its documentation says']
MODES = {}
STAT = {0: 'ok', 1: 'oob', 2: 'surface', 3: 'time', 9: 'other'}
SRC = '''def sP(particle, fieldset, time):
    particle.a = fieldset.%(n)s[particle.ts, particle.depth, particle.lat, particle.lon]


def sPp(particle, fieldset, time):
    particle.a = fieldset.%(n)s[particle]


def sX(particle, fieldset, time):
    particle.a = 2 * fieldset.%(n)s[particle.ts, particle.depth, particle.lat, particle.lon] - fieldset.%(n)s[particle.ts, particle.depth, particle.lat, particle.lon]


def sUV(particle, fieldset, time):
    (u, v) = fieldset.%(n)s[particle.ts, particle.depth, particle.lat, particle.lon]
    particle.a = u
    particle.b = v


def sUVW(particle, fieldset, time):
    (u, v, w) = fieldset.%(n)s[particle.ts, particle.depth, particle.lat, particle.lon]
    particle.a = u
    particle.b = v
    particle.c = w
'''
KERN = {}


def kernel(kind, name):
    if (kind, name) not in KERN:
        src = SRC % {'n': name}
        fn = '<vp_c12_%s>' % name
        linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
        ns = {}
        exec(compile(src, fn, 'exec'), ns)
        for k in ('sP', 'sPp', 'sX', 'sUV', 'sUVW'):
            KERN[k, name] = ns[k]
    return KERN[kind, name]


for _m, _b in (('jit', JITParticle), ('scipy', ScipyParticle)):
    MODES[_m] = type('C12' + _b.__name__, (_b,), {
        'a': Variable('a', dtype=np.float64, initial=0.), 'b': Variable('b', dtype=np.float64, initial=0.),
        'c': Variable('c', dtype=np.float64, initial=0.), 'ts': Variable('ts', dtype=np.float64, initial=0.),
        'err': Variable('err', dtype=np.int32, initial=0)})

LO, HI = -16, 16


@st.composite
def member_s(draw, nested, last, deep):
    kind = draw(st.sampled_from(['rz', 'rz', 'rz', 'rs', 'cz', 'big'] if not (nested and not last) else ['rz', 'rz', 'rs']))
    m = {'kind': kind, 'seed': draw(st.integers(0, 10 ** 6))}

    def ax(n):
        a = draw(st.integers(LO, HI - 4))
        b = draw(st.integers(a + 2, HI))
        if not nested and draw(st.integers(0, 2)):
            a, b = LO, HI
        if kind in ('cz', 'big'):
            a, b = LO, HI
        return [a + (b - a) * k / (n - 1) for k in range(n)]
    m['lon'] = ax(draw(st.sampled_from([2, 3, 5])))
    m['lat'] = ax(draw(st.sampled_from([2, 3, 5])))
    nz = draw(st.sampled_from([2, 3, 5])) if deep or kind == 'rs' else draw(st.sampled_from([1, 1, 2, 3]))
    z0 = draw(st.sampled_from([0, 0, 0, 4]))
    m['depth'] = [float(z0 + k * draw(st.sampled_from([4, 8]))) for k in range(nz)]
    m['depth'] = sorted(set(m['depth']))
    if len(m['depth']) == 1 and (deep or kind == 'rs'):
        m['depth'] = [0., 16.]
    nt = draw(st.sampled_from([1, 1, 2, 3]))
    t0 = draw(st.sampled_from([0, 0, 0, 2]))
    m['time'] = [float(t0 + 4 * k) for k in range(nt)]
    m['extra'] = draw(st.sampled_from([True, True, True, False])) if nt > 1 else True
    m['per'] = draw(st.sampled_from([False, False, True])) if nt > 1 else False
    m['method'] = draw(st.sampled_from(['linear', 'linear', 'nearest', 'bgrid_tracer', 'cgrid_tracer', 'linear_invdist_land_tracer']))
    m['vmethod'] = draw(st.sampled_from(['linear', 'linear', 'cgrid_velocity', 'bgrid_velocity'] if kind == 'rz' else ['linear', 'linear', 'cgrid_velocity']))
    m['scale'] = draw(st.sampled_from([None, None, 2., -1.]))
    return m


@st.composite
def case_s(draw):
    how = draw(st.sampled_from(['sum', 'plus', 'nest', 'nest', 'plusplus']))
    nested = how == 'nest'
    deep = draw(st.sampled_from([False, False, True]))
    n = draw(st.sampled_from([1, 2, 2, 3, 4])) if how in ('sum', 'nest') else draw(st.sampled_from([2, 3, 4]))
    ms = [draw(member_s(nested, i == n - 1, deep)) for i in range(n)]
    fr = st.integers(LO * 2 - 4, HI * 2 + 4).map(lambda k: k / 2. + 1 / 64.)
    edges = sorted({v for m in ms for v in (m['lon'][0], m['lon'][-1])})
    edgesy = sorted({v for m in ms for v in (m['lat'][0], m['lat'][-1])})
    inner = st.integers(LO * 2 + 4, HI * 2 - 4).map(lambda k: k / 2. + 1 / 64.)
    near = any(m['method'] not in ('linear', 'linear_invdist_land_tracer') or m['vmethod'] != 'linear' for m in ms)     # no ties or discontinuities
    curvi = any(m['kind'] in ('cz', 'big') for m in ms)
    px = inner if curvi or near else st.one_of(fr, inner, st.sampled_from(edges))
    py = inner if curvi or near else st.one_of(fr, inner, st.sampled_from(edgesy))
    pts = draw(st.lists(st.tuples(px, py, st.sampled_from([0., 1.25, 4.03125, 7.25, 9.53125, 15.75, 24.53125, -1.25] if near or any(m['method'] != 'linear' for m in ms) else [0., 1.25, 4., 8., 7.25, 9.5, 15.75, 24.5, -1.25]),
                                  st.sampled_from([0., 1., 2., 3.5, 4., 7., 8., 9.5, -1., 25.])), min_size=1, max_size=8))
    return {'how': how, 'm': ms, 'mesh': draw(st.sampled_from(['flat', 'flat', 'spherical'])), 'deep': deep, 'pts': [list(p) for p in pts],
            'mode': draw(st.sampled_from(['jit', 'jit', 'jit', 'scipy'])), 'ftype': draw(st.sampled_from(['P', 'P', 'U', 'Kh_zonal'])),
            'names': draw(st.sampled_from(['same', 'same', 'distinct', 'clash'])), 'share': draw(st.booleans()),
            'vecs': draw(st.sampled_from(['U', 'U', 'list'])), 'dtype': draw(st.sampled_from(['f4', 'f8', None])),
            'what': draw(st.sampled_from(['P', 'P', 'UV', 'UV', 'UV', 'U', 'Q', 'X', 'part']))}


def arrays(m, mesh, k, vec=False):
    r = np.random.RandomState(m['seed'] + k)
    lon, lat = np.array(m['lon'], dtype=np.float32), np.array(m['lat'], dtype=np.float32)
    nz, nt = len(m['depth']), len(m['time'])
    depth = np.array(m['depth'], dtype=np.float32)
    if m['kind'] in ('cz', 'big'):
        x, y = np.meshgrid(np.linspace(-36., 36., len(lon)), np.linspace(-36., 36., len(lat)))
        a = .2 if m['kind'] == 'cz' else 0.
        lon, lat = (x * math.cos(a) - y * math.sin(a)).astype(np.float32), (x * math.sin(a) + y * math.cos(a)).astype(np.float32)
    if m['kind'] == 'rs':
        s = 1 + .25 * np.random.RandomState(m['seed']).rand(1, len(m['lat']), len(m['lon']))
        depth = (depth[0] + (depth - depth[0])[:, None, None] * s).astype(np.float32)
    d = r.randint(1, 65, size=(nt, nz, len(m['lat']), len(m['lon']))).astype(np.float32) * np.where(r.rand() < .5, -1, 1)
    if m['method'] == 'linear_invdist_land_tracer' and not vec:
        d *= r.rand(*d.shape[1:]) < .7
    if nz == 1:
        d = d[:, 0]
    if nt == 1:
        d = d[0]
    return d, lon, lat, depth, np.array(m['time'])


def field(m, mesh, name, k, ftype, method, vec=False):
    d, lon, lat, depth, time = arrays(m, mesh, k, vec)
    kw = {'time_periodic': time[-1] - time[0]} if m['per'] else {'allow_time_extrapolation': m['extra']}
    f = Field(name, d, lon=lon, lat=lat, depth=depth if len(m['depth']) > 1 else None, time=time if len(time) > 1 else None, mesh=mesh,
              interp_method=method, fieldtype=ftype, **kw)
    if m['scale']:
        f.set_scaling_factor(m['scale'])
    return f


def members(case, i):
    m = case['m'][i]
    nm = case['names']
    out = {}
    for k, c in enumerate('UVW' if case['deep'] else 'UV'):
        out[c] = field(m, case['mesh'], c if nm == 'same' else ('%s%d' % (c, i) if nm == 'distinct' else (c + '1' if i == 0 else c)), k, c, 'bgrid_w_velocity' if c == 'W' and m['vmethod'] == 'bgrid_velocity' else m['vmethod'], True)
    out['P'] = field(m, case['mesh'], 'P' if nm == 'same' else ('P%d' % i if nm == 'distinct' else ('P1' if i == 0 else 'P')), 5, case['ftype'], m['method'])
    return out


def alone(case):
    """Every member in a fieldset of its own: {(i, var): sampler}"""
    S = {}
    for i in range(len(case['m'])):
        f = members(case, i)
        for k, v in f.items():
            v.name = k
        fs = FieldSet(f['U'], f['V'], fields={k: v for k, v in f.items() if k in 'PW'})
        fs.check_complete()
        S[i] = fs
    return S


def sample(obj, p):
    x, y, z, t = p
    try:
        v = obj[t, z, y, x]
        return 'ok', tuple(float(a) for a in v) if isinstance(v, tuple) else (float(v),)
    except FieldOutOfBoundSurfaceError:
        return 'surface', None
    except FieldOutOfBoundError:
        return 'oob', None
    except TimeExtrapolationError:
        return 'time', None


def expected(case, S, what, p, idx):
    res = [sample(getattr(S[i], what), p) for i in idx]
    if case['how'] == 'nest':
        for s, v in res:
            if s != 'oob':
                return {s}, v, res
        return {'oob'}, None, res
    bad = {s for s, v in res if s != 'ok'}
    if bad:
        return bad, None, res
    return {'ok'}, tuple(sum(q) for q in zip(*[v for s, v in res])), res


def verdict(case, exp, got, where):
    sts, val, res = exp
    s, v = got
    if s not in sts:
        raise Violation('%s: reported %s %s, the members give %s' % (where, s, v, res))
    if s == 'ok':
        sc = [max([abs(r[1][k]) for r in res if r[0] == 'ok'] + [1e-12]) for k in range(len(val))]
        if len(v) < len(val) or any(abs(a - b) > 2e-5 * c for a, b, c in zip(v, val, sc)):
            raise Violation('%s: sampled %s, expected %s from the members %s' % (where, v, val, res))


def combine(how, name, fl):
    if how == 'nest':
        return NestedField(name, fl)
    if how == 'sum':
        return SummedField(name, fl)
    if how == 'plus':
        s = fl[0]
        for f in fl[1:]:
            s = s + f
        return s
    # plusplus: from the right and pairwise
    if len(fl) == 4:
        return (fl[0] + fl[1]) + (fl[2] + fl[3])
    s = fl[-1]
    for f in fl[-2::-1]:
        s = f + s
    return s


def build(case):
    how, n = case['how'], len(case['m'])
    M = [members(case, i) for i in range(n)]
    comp = {c: combine(how, c, [M[i][c] for i in range(n)]) for c in ('UVW' if case['deep'] else 'UV')}
    vec = None
    if case['vecs'] == 'list' and how in ('nest', 'sum'):
        vn = 'UVW' if case['deep'] else 'UV'
        cls = NestedField if how == 'nest' else SummedField
        vec = cls(vn, [VectorField(vn + '_%d' % i, *[M[i][c] for c in vn]) for i in range(n)])
    fs = FieldSet(comp['U'], comp['V'])
    if case['deep']:
        fs.add_field(comp['W'], 'W')
    P = combine(how, 'P', [M[i]['P'] for i in range(n)])
    if case['share'] and how in ('plus', 'plusplus'):
        # the first combination may not change when it is used in another one
        before = list(P)
        Q = P + M[0]['P']
        if [id(f) for f in P] != [id(f) for f in before]:
            raise Violation('adding a field to a sum of %d fields changed that sum: %s' % (n, [f.name for f in P]))
        order = list(range(n)) + [0]
    else:
        order = list(range(n))[::-1]
        Q = combine('nest' if how == 'nest' else 'sum', 'Q', [M[i]['P'] for i in order])
    fs.add_field(P, 'P')
    fs.add_field(Q, 'Q')
    if vec is not None:
        fs.add_vector_field(vec)
    return fs, order


def run(case):
    S = alone(case)
    fs, order = build(case)
    fs.check_complete()
    n = len(case['m'])
    cgrid = any(m['vmethod'] == 'cgrid_velocity' for m in case['m'])
    pts = [tuple(float(np.float32(v)) for v in p[:3]) + (p[3],) for p in case['pts']]
    nt, labels = False, [case['how'], case['mode'], 'n%d' % n, case['what']]
    vec = 'UVW' if case['deep'] else 'UV'
    for p in pts:
        for w, obj, idx in (('P', 'P', range(n)), ('P', 'Q', order), ('U', 'U', range(n)), (vec, vec, range(n)), ('UV', 'UV', range(n))):
            if w == 'U' and cgrid:
                continue      # no scalar sampling of C-grid velocities
            e = expected(case, S, w, p, list(idx))
            verdict(case, e, sample(getattr(fs, obj), p), 'direct %s at (x,y,z,t)=%s' % (obj, p))
            ok = [r[0] == 'ok' for r in e[2]]
            nt = nt or sum(ok) >= 2 or (any(ok) and not all(ok))
    if case['what'] == 'U' and cgrid:
        case = dict(case, what='UV')
    what = {'X': 'P', 'part': 'P', 'UV': vec}.get(case['what'], case['what'])
    kk = {'P': 'sP', 'Q': 'sP', 'U': 'sP', 'X': 'sX', 'part': 'sPp', 'UV': 's' + vec}[case['what']]
    use = pts

    seen = {}

    def note(code):
        def r(particle, fieldset, time):
            seen[int(particle.id)] = code
            particle.delete()
        return r
    rec = {ErrorCode.ErrorOutOfBounds: note('oob'), ErrorCode.ErrorThroughSurface: note('surface'), ErrorCode.ErrorTimeExtrapolation: note('time'),
           ErrorCode.Error: note('other')}
    dt = {'f4': np.float32, 'f8': np.float64, None: None}[case['dtype']]
    kw = {} if dt is None else {'lonlatdepth_dtype': dt}
    for rnd in range(2):
        seen.clear()
        # sampling at the particle itself needs the particle to be at that time: one set per time
        groups = [use] if case['what'] != 'part' else [[p for p in use if p[3] == t] for t in sorted({p[3] for p in use})]
        for grp in groups:
            if rnd:
                grp = grp[::-1]
            pset = ParticleSet(fs, pclass=MODES[case['mode']], lon=[p[0] for p in grp], lat=[p[1] for p in grp], depth=[p[2] for p in grp],
                               time=[grp[0][3] if case['what'] == 'part' else 0.] * len(grp), ts=[p[3] for p in grp], **kw)
            ids = [int(p.id) for p in pset]
            pset.execute(kernel(kk, {'X': 'P', 'part': 'P', 'UV': vec}.get(case['what'], case['what'])), runtime=0, dt=0, recovery=dict(rec), verbose_progress=False)
            byid = {int(p.id): p for p in pset}
            for pid, p in zip(ids, grp):
                got = (seen[pid], None) if pid in seen else ('ok', (float(byid[pid].a), float(byid[pid].b), float(byid[pid].c)))
                w = {'Q': 'P'}.get(what, what)
                e = expected(case, S, w, p, order if what == 'Q' else list(range(n)))
                verdict(case, e, got, '%s kernel %s at (x,y,z,t)=%s' % (case['mode'], case['what'], p))
    return {'nontrivial': nt, 'labels': labels}


SUBCHECKS = [Sub('combine', case_s, run, quick=400, thorough=10000, budget=70)]
