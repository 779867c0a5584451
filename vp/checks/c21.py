"""C21: compiled kernels under AddressSanitizer."""
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, HarnessError
from vp import samp
from vp.checks import c02, c03, c05, c07, c08, c09, c11, c12, c13, c14, c17, c19
from parcels import FieldSet, ParticleSet, ErrorCode

SANITIZE = True
PROPERTY = 'C21'
RULE = ('a case is a case of another property (grid, data, method, positions, history) or the same with positions and times replaced by extreme ones (far outside, on edges, '
        'infinite, not a number) and starting cell indices from populate_indices; it runs with the compiled code instrumented by AddressSanitizer; non-trivial by the rule of the other '
        'property, or at least one position is extreme and one is inside the domain')
ASSUMPTIONS = ['an access between the end of one row and the start of the next one of the same array is inside the array',
               'the arrays are those that NumPy and ctypes allocate, and Python runs with the system allocator, so that the neighbourhood of each is guarded',
               'only accesses reported by the sanitizer count; other outcomes of the borrowed cases are judged by the checks of the other properties']


def quiet(fn):
    """Run a case of another check for its memory accesses only."""
    def run(case):
        if case.get('mode') == 'scipy':
            case = dict(case, mode='jit')
        try:
            info = fn(case) or {}
        except (HarnessError, MemoryError):
            raise
        except Exception as e:
            return {'nontrivial': False, 'labels': ['ended with ' + type(e).__name__]}
        return info
    return run


def jitonly(fn):
    """The same without the interpreted half of the sampling checks."""
    real = samp.run_sampling

    def sampling(fs, mode, what, rounds, *a, **k):
        if mode == 'jit':
            sampling.seen = real(fs, mode, what, rounds, *a, **k)
        return sampling.seen

    def run(case):
        samp.run_sampling = sampling
        try:
            return quiet(fn)(case)
        finally:
            samp.run_sampling = real
    return run


WILD = ['nan', 'inf', '-inf', '1e30', '-1e30', '1e9', '-1e9', 'edge0', 'edge1', 'edge0-', 'edge1+', 'half out', '+360', '-360', '+720', '0']


@st.composite
def wild_s(draw):
    fam = draw(st.sampled_from(['tracer', 'tracer', 'c', 'b', 'a']))
    case = draw({'tracer': c02.tracer_case(8), 'c': c03.c_case(), 'b': c03.b_case(), 'a': c03.a_case()}[fam])
    case['fam'] = fam
    n = len(case['pts'])
    curv = case['g']['kind'][0] == 'c'
    case['wild'] = draw(st.lists(st.fixed_dictionaries({'p': st.integers(0, n - 1), 'r': st.integers(0, 2), 'ax': st.sampled_from('xyztzt' if curv else 'xyzt'), 'v': st.sampled_from(WILD)}),
                                 min_size=1, max_size=3 if curv else 8))
    case['periodic'] = draw(st.booleans()) and len(case['g']['time']) > 1
    case['populate'] = draw(st.booleans())
    return case


def build(case):
    g = case['g']
    C = samp.coords(g)
    if case['fam'] == 'tracer':
        fs, C, D = c02.build(case)
        what = 'P'
    else:
        what = 'UVW' if case['w'] else 'UV'
        if case['fam'] == 'a':
            gs = [g, c03.shifted(g, case['stag'][0], case['stag'][1]), c03.shifted(g, case['stag'][2], case['stag'][3])]
            ms, idx = [case['method']] * 3, 'nemo'
        else:
            gs = [g] * 3
            ms = ['cgrid_velocity'] * 3 if case['fam'] == 'c' else ['bgrid_velocity', 'bgrid_velocity', 'bgrid_w_velocity']
            idx = case['idx']
        F = [c03.mkfield(h, samp.coords(h), n, samp.field_data(h, case['seed'] + k), case, m, idx, bool(case.get('drop')) and case['fam'] == 'b')
             for k, (n, h, m) in enumerate(zip('UVW', gs, ms))]
        fs = FieldSet(F[0], F[1], fields={'W': F[2]} if case['w'] else {})
    fs.check_complete()
    if case['periodic']:
        for f in fs.get_fields():
            if hasattr(f, 'grid') and f.grid is not None and f.grid.tdim > 1:
                f.time_periodic = float(f.grid.time[-1] - f.grid.time[0])
                f.allow_time_extrapolation = False
    return fs, what, C


def extreme(v, x, lo, hi):
    d = (hi - lo) or 1.
    return {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, 'edge0': lo, 'edge1': hi, 'edge0-': np.nextafter(np.float32(lo), np.float32(-np.inf)),
            'edge1+': np.nextafter(np.float32(hi), np.float32(np.inf)), 'half out': hi + .5 * d, '+360': x + 360, '-360': x - 360, '+720': x + 720, '0': 0.,
            '1e30': 1e30, '-1e30': -1e30, '1e9': 1e9, '-1e9': -1e9}[v]


def run_wild(case):
    g = case['g']
    fs, what, C = build(case)
    pts = [samp.wrappos(g, samp.locate(g, p, C)) for p in case['pts']]
    rounds = [list(map(list, pts)), list(map(list, pts)), list(map(list, pts[::-1]))]
    lim = [(float(np.min(c)), float(np.max(c))) for c in C] + [(float(g['time'][0]), float(g['time'][-1]))]
    curv = g['kind'][0] == 'c'
    for w in case['wild']:
        a = 'xyzt'.index(w['ax'])
        if curv and a < 2 and w['v'] in ('half out', 'edge0-', 'edge1+', 'edge0', 'edge1', '0') and g['mesh'] == 'spherical':
            continue        # searching outside curvilinear grids takes a million steps
        rounds[w['r']][w['p']][a] = float(extreme(w['v'], rounds[w['r']][w['p']][a], *lim[a]))
    safe = samp.wrappos(g, samp.locate(g, {'i': 0, 'j': 0, 'k': 0, 'fx': 7, 'fy': 7, 'fz': 7, 't': 0, 'ft': 0}, C))
    dt = {'f4': np.float32, 'f8': np.float64, None: None}[case['dtype']]
    n = len(pts)
    kw = {} if dt is None else {'lonlatdepth_dtype': dt}
    r0 = rounds[0]
    finite = [[v if np.isfinite(v) else s for v, s in zip(q, safe)] for q in r0]
    pset = ParticleSet(fs, pclass=samp.SampleJIT, lon=[q[0] for q in finite], lat=[q[1] for q in finite], depth=[q[2] for q in finite], time=0., ts=[q[3] for q in finite], **kw)
    if case['populate']:
        pset.populate_indices()

    def rec(particle, fieldset, time):
        particle.err += 1
        particle.lon, particle.lat, particle.depth, particle.ts = safe
        if particle.err > 5:
            particle.delete()
    codes = [getattr(ErrorCode, c) for c in ('ErrorOutOfBounds', 'ErrorThroughSurface', 'ErrorTimeExtrapolation', 'ErrorInterpolation', 'Error') if hasattr(ErrorCode, c)]
    kern = pset.Kernel(samp.KERNELS[what][0])
    for r in rounds:
        for p, q in zip(pset, r):
            p.lon, p.lat, p.depth, p.ts, p.err = q[0], q[1], q[2], q[3], 0
        if len(pset):
            pset.execute(kern, runtime=1, dt=1, recovery={c: rec for c in codes}, verbose_progress=False)
    return {'nontrivial': n > 0 and len(case['wild']) < 3 * n, 'labels': [g['kind'], g['mesh'], case['fam'], what] + ['extreme ' + w['ax'] for w in case['wild']]
            + (['periodic'] if case['periodic'] else []) + (['populated'] if case['populate'] else [])}


def sub(mod, name):
    return [s for s in mod.SUBCHECKS if s.name == name][0]


def borrow(mod, names, label, jit=False, quick=60, budget=12):
    out = []
    for n in names:
        s = sub(mod, n)
        out.append(Sub(label if len(names) == 1 else label + '_' + n, s.strategy, (jitonly if jit else quiet)(s.run), quick=quick, thorough=2000, budget=budget))
    return out


SUBCHECKS = ([Sub('extreme', wild_s, quiet(run_wild), quick=250, thorough=6000, budget=45)]
             + borrow(c02, ['tracer'], 'sampling', True) + borrow(c03, ['cgrid', 'bgrid', 'agrid'], 'velocity', True, 40, 8)
             + borrow(c09, ['memory', 'file'], 'time', False, 40, 8) + borrow(c11, ['halo'], 'halo', True, 40) + borrow(c12, ['combine'], 'combined', True, 40)
             + borrow(c08, ['load'], 'chunks', False, 30, 20) + borrow(c07, ['organise'], 'runs', False, 40, 20) + borrow(c05, ['rk', 'diffusion'], 'kernels', False, 30, 8)
             + borrow(c13, ['operations'], 'sets', False, 100, 8) + borrow(c14, ['faults'], 'errors', False, 60, 8) + borrow(c17, ['release'], 'release', False, 40, 6)
             + borrow(c19, ['draws'], 'random', False, 20, 6))
