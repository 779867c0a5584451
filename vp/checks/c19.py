"""C19: random draws: seeds, ranges, distributions, both modes, Python level and inside kernels."""
import linecache
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
import parcels.rng as ParcelsRandom
from parcels import (FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, AdvectionDiffusionM1, AdvectionDiffusionEM,
                     DiffusionUniformKh, AdvectionRK4)

PROPERTY = 'C19'
RULE = ('draws: a history of seedings and draws made at Python level, replayed at Python level and inside a compiled and an interpreted kernel; '
        'dist: 20000 draws of one function; sim: a simulation with generated or built-in random kernels run twice in both modes. '
        'Non-trivial = at least two kinds of draws, resp. a non-degenerate distribution, resp. at least two particles and two steps')
ASSUMPTIONS = ['parameters are exactly representable in single precision where draws of the two modes are compared',
               'statistics use thresholds that a correct generator exceeds with probability below 1e-9 per case']

# seeds whose first draw of the C library is extreme, besides arbitrary ones
EXTREME = [22100322, 26590685, 23630470, 32981669]
FUNCS = ['random', 'uniform', 'randint', 'normalvariate', 'expovariate', 'vonmisesvariate']


def function(src, name):
    fn = '<vp_c19_%s_%d>' % (name, hash(src))
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'ParcelsRandom': ParcelsRandom}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


def f4(x):
    return float(np.float32(x))


small = st.integers(-64, 64).map(lambda k: k / 8)
pos = st.one_of(st.integers(1, 64).map(lambda k: k / 8), st.sampled_from([2. ** -20, 1024., 2. ** 20]))
angle = st.one_of(st.integers(0, 50).map(lambda k: k / 8), st.sampled_from([0., 6.25, -1.5, 7.]))
kappa = st.one_of(st.integers(0, 80).map(lambda k: k / 8), st.sampled_from([0., 2. ** -21, 2. ** -10, 100., 1024., 65536., 2. ** 20, 2. ** 27, 2. ** 35, 2. ** 60]))
seeds = st.one_of(st.integers(0, 2 ** 31 - 1), st.sampled_from(EXTREME), st.sampled_from([0, 1, 2 ** 31 - 1, -1]))


@st.composite
def draw_s(draw):
    f = draw(st.sampled_from(FUNCS))
    if f == 'random':
        a = []
    elif f == 'uniform':
        lo = draw(small)
        a = [lo, lo + draw(st.sampled_from([0., .125, 1., 3.5, 1000.]))]
    elif f == 'randint':
        lo = draw(st.integers(-20, 20))
        a = [lo, lo + draw(st.sampled_from([1, 2, 3, 7, 20, 1000, 2 ** 30]))]
    elif f == 'normalvariate':
        a = [draw(small), draw(pos)]
    elif f == 'expovariate':
        a = [draw(pos)]
    else:
        a = [draw(angle), draw(kappa)]
    return [f] + a


def call(op):
    return getattr(ParcelsRandom, op[0])(*op[1:])


def inrange(op, v):
    f, a = op[0], op[1:]
    if not math.isfinite(v):
        raise Violation('%s%r returned %r' % (f, tuple(a), v))
    if f == 'random':
        ok = 0 <= v <= 1
    elif f == 'uniform':
        tol = 4 * np.spacing(np.float32(max(abs(a[0]), abs(a[1]), 1e-30)))
        ok = a[0] - tol <= v <= a[1] + tol
    elif f == 'randint':
        ok = v == int(v) and a[0] <= v < a[1]
    elif f == 'expovariate':
        ok = v >= 0
    elif f == 'vonmisesvariate':
        ok = 0 <= v <= f4(2 * math.pi)
    else:
        ok = abs(v - a[0]) <= 8.5 * a[1]
    if not ok:
        raise Violation('%s%r returned %r, outside its range' % (f, tuple(a), v))


@st.composite
def draws_s(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        if draw(st.integers(0, 4)) == 0:
            ops.append(['seed', draw(seeds)])
        else:
            ops.append(draw(draw_s()))
    return {'seed': draw(seeds), 'ops': ops, 'rep': draw(st.integers(1, 4)), 'burn': draw(st.integers(0, 3)),
            'kernel': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'args': draw(st.sampled_from(['lit', 'var', 'const']))}


def fieldset():
    lon = np.linspace(0, 100, 3)
    return FieldSet.from_data({'U': np.zeros((3, 3), np.float32), 'V': np.zeros((3, 3), np.float32)}, {'lon': lon, 'lat': lon}, mesh='flat')


def replay(case):
    ParcelsRandom.seed(case['seed'])
    out = []
    for _ in range(case['rep']):
        for op in case['ops']:
            if op[0] == 'seed':
                ParcelsRandom.seed(op[1])
            else:
                out.append(call(op))
    return out


def run_draws(case):
    for _ in range(case['burn']):
        ParcelsRandom.normalvariate(0., 1.)
        ParcelsRandom.random()
    first = replay(case)
    for _ in range(case['burn'] + 1):
        ParcelsRandom.randint(0, 5)
    second = replay(case)
    if first != second:
        raise Violation('the same seeds gave other draws: %r and then %r' % (first, second))
    draws = [op for op in case['ops'] if op[0] != 'seed'] * case['rep']
    for op, v in zip(draws, first):
        inrange(op, v)
    # a seed given again restarts the sequence whatever came before it
    if draws:
        ParcelsRandom.seed(case['seed'])
        a = [call(op) for op in draws[:5]]
        ParcelsRandom.seed(case['seed'])
        b = [call(op) for op in draws[:5]]
        if a != b:
            raise Violation('seed(%d) did not restart the draws %r: %r and then %r' % (case['seed'], draws[:5], a, b))
    # the same draws inside a kernel, one pass per step
    n = len(case['ops'])
    fs = fieldset()
    lines = []
    base = JITParticle if case['kernel'] == 'jit' else ScipyParticle
    pvars = {}
    for i, op in enumerate(case['ops']):
        arg = []
        for j, a in enumerate(op[1:]):
            # (a seed does not fit in the single precision of kernel variables and constants)
            if op[0] == 'seed' or case['args'] == 'lit':
                arg.append(repr(a))
            elif case['args'] == 'var':
                nm = 'a%d_%d' % (i, j)
                pvars[nm] = Variable(nm, dtype=np.int32 if op[0] == 'randint' else np.float32, initial=a)
                arg.append('particle.' + nm)
            elif op[0] == 'randint':
                arg.append(repr(a))
            else:
                nm = 'c%d_%d' % (i, j)
                fs.add_constant(nm, a)
                arg.append('fieldset.' + nm)
        if op[0] == 'seed':
            lines.append('    ParcelsRandom.seed(%s)' % arg[0])
            continue
        for r in range(case['rep']):
            pvars['v%d_%d' % (i, r)] = Variable('v%d_%d' % (i, r), dtype=np.float64, initial=-7.25)
        lines.append('    v%d = ParcelsRandom.%s(%s)' % (i, op[0], ', '.join(arg)))
        for r in range(case['rep']):
            lines.append('    if particle.pass_ == %d:' % r)
            lines.append('        particle.v%d_%d = v%d' % (i, r, i))
    pvars['pass_'] = Variable('pass_', dtype=np.int32, initial=0)
    lines.append('    particle.pass_ += 1')
    pc = type('C19' + base.__name__, (base,), pvars)
    pset = ParticleSet(fs, pclass=pc, lon=[1.], lat=[1.], time=[0.])
    k = pset.Kernel(function('def draws(particle, fieldset, time):\n' + '\n'.join(lines) + '\n', 'draws'))
    ParcelsRandom.seed(case['seed'])
    pset.execute(k, runtime=case['rep'], dt=1., verbose_progress=False)
    p = pset[0]
    got = [float(getattr(p, 'v%d_%d' % (i, r))) for r in range(case['rep']) for i in range(n) if case['ops'][i][0] != 'seed']
    if got != [float(v) for v in first]:
        raise Violation('%s kernel drew %r, Python level drew %r for %r' % (case['kernel'], got, first, draws))
    return {'nontrivial': len({op[0] for op in draws}) >= 2, 'labels': [case['kernel'], 'args:' + case['args']] + sorted({op[0] for op in draws})
            + (['reseeded'] if len(draws) < n * case['rep'] else [])}


# ---- distributions
@st.composite
def dist_s(draw):
    f = draw(st.sampled_from(FUNCS))
    op = [f]
    if f == 'uniform':
        lo = draw(small)
        op += [lo, lo + draw(st.sampled_from([.125, 1., 3.5, 1000., -2.]))]
    elif f == 'randint':
        lo = draw(st.integers(-20, 20))
        op += [lo, lo + draw(st.sampled_from([1, 2, 3, 7, 20, 1000, 2 ** 28]))]
    elif f == 'normalvariate':
        # (a width far below the single precision of the mean is no test of the distribution)
        w = draw(pos)
        op += [draw(small) if w >= .125 else 0., w]
    elif f == 'expovariate':
        op += [draw(pos)]
    elif f == 'vonmisesvariate':
        op += [draw(st.floats(0, 6.25, width=32)), draw(st.one_of(st.floats(0, 12, width=32), st.sampled_from([0., 2. ** -21, 20., 100., 1000., 10000.])))]
    return {'op': op, 'seed': draw(seeds), 'how': draw(st.sampled_from(['python', 'jit', 'jit']))}


N = 20000


def sample(case):
    op = case['op']
    if case['how'] == 'python':
        ParcelsRandom.seed(case['seed'])
        return np.array([call(op) for _ in range(N)])
    pc = type('C19D', (JITParticle,), {'v': Variable('v', dtype=np.float64, initial=0.)})
    fs = fieldset()
    pset = ParticleSet(fs, pclass=pc, lon=np.ones(N), lat=np.ones(N), time=np.zeros(N))
    k = pset.Kernel(function('def drawone(particle, fieldset, time):\n    particle.v = ParcelsRandom.%s(%s)\n' % (op[0], ', '.join(map(repr, op[1:]))), 'drawone'))
    ParcelsRandom.seed(case['seed'])
    pset.execute(k, runtime=1., dt=1., verbose_progress=False)
    return np.array([p.v for p in pset], dtype=np.float64)


def vm_cdf(x, k):
    """CDF of the Von Mises distribution with mean 0 on [-pi, pi], by quadrature."""
    g = np.linspace(-np.pi, np.pi, 400001)
    w = np.exp(k * (np.cos(g) - 1))
    c = np.concatenate(([0.], np.cumsum((w[1:] + w[:-1]) / 2)))
    return np.interp(x, g, c / c[-1])


def run_dist(case):
    op = case['op']
    f, a = op[0], op[1:]
    v = sample(case)
    lo = op if not (f == 'uniform' and a[1] < a[0]) else [f, a[1], a[0]]
    for x in (v.min(), v.max()):
        inrange(lo, float(x))
    if not np.isfinite(v).all():
        raise Violation('%r: %d draws are not finite' % (op, int((~np.isfinite(v)).sum())))
    if f == 'randint' and not np.array_equal(v, np.round(v)):
        raise Violation('%r: draws are not whole numbers' % op)
    from scipy.special import ndtr
    if f == 'random':
        u = v
    elif f == 'uniform':
        u = (v - a[0]) / (a[1] - a[0])
    elif f == 'randint':
        m = a[1] - a[0]
        u = None
        if m <= 20:
            cnt = np.array([(v == a[0] + i).sum() for i in range(m)])
            z = (cnt - N / m) / math.sqrt(max(N / m * (1 - 1 / m), 1e-9)) if m > 1 else cnt - N
            if np.abs(z).max() > 7:
                raise Violation('%r: counts of the values are %s' % (op, cnt.tolist()))
            u = (v - a[0] + .5) / m if m > 1 else None
        else:
            u = (v - a[0] + .5) / m
    elif f == 'normalvariate':
        u = ndtr((v - a[0]) / a[1])
    elif f == 'expovariate':
        u = 1 - np.exp(-a[0] * v)
    else:
        if a[1] <= 1e-6:
            u = v / (2 * math.pi)
        else:
            d = (v - a[0] + math.pi) % (2 * math.pi) - math.pi
            if a[1] > 200:                     # the normal limit; single precision angles
                u = ndtr(d * math.sqrt(a[1]))
            else:
                u = vm_cdf(d, a[1])
    if u is not None and (f != 'randint' or a[1] - a[0] > 20):
        s = np.sort(u)
        i = np.arange(1, N + 1) / N
        D = max(np.abs(s - i).max(), np.abs(s - i + 1. / N).max())
        if D * math.sqrt(N) > 3.6:
            raise Violation('%r: the draws do not follow the distribution (Kolmogorov-Smirnov distance %.4f of %d draws)' % (op, D, N))
    if f == 'normalvariate':
        z = (v - a[0]) / a[1]
        # single precision of loc limits a scale that is small against it
        if abs(a[0]) < 1e4 * a[1] and (abs(z.mean()) * math.sqrt(N) > 6.5 or abs(z.std() - 1) * math.sqrt(2 * N) > 6.5):
            raise Violation('%r: mean %r and deviation %r' % (op, v.mean(), v.std()))
    if f == 'expovariate':
        z = v * a[0]
        if abs(z.mean() - 1) * math.sqrt(N) > 7:
            raise Violation('%r: mean %r' % (op, v.mean()))
    if u is not None:
        w = u - u.mean()
        sd = w.std()
        if sd > 0:
            for lag in (1, 2, 3):
                r = (w[lag:] * w[:-lag]).mean() / sd ** 2 * math.sqrt(N)
                if abs(r) > 7:
                    raise Violation('%r: draws %d apart are correlated (%.1f sigma)' % (op, lag, r))
        if f not in ('randint',) and (f != 'normalvariate' or abs(a[0]) < 100 * a[1]) and not (f == 'vonmisesvariate' and a[1] > 1000):
            nu = len(np.unique(v))
            if nu < .95 * N:
                raise Violation('%r: only %d different values in %d draws' % (op, nu, N))
    return {'nontrivial': u is not None, 'labels': [f, case['how']]}


# ---- simulations
@st.composite
def sim_s(draw):
    kern = draw(st.sampled_from(['gen', 'gen', 'M1', 'EM', 'uni', 'gen+M1', 'rk4+uni', 'uni+gen']))
    body = []
    if 'gen' in kern:
        for i in range(draw(st.integers(1, 4))):
            body.append({'op': draw(draw_s()), 'do': draw(st.sampled_from(['set', 'cond', 'while', 'del', 'loop']))})
    return {'kern': kern, 'body': body, 'n': draw(st.integers(1, 6)), 'seed': draw(seeds), 'seed2': draw(st.one_of(st.none(), seeds)),
            'execs': draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), 'dt': draw(st.sampled_from([1., 2., -1.])),
            'stag': draw(st.booleans()), 'burn': draw(st.integers(0, 3)), 'same': draw(st.booleans())}


def sim_src(case):
    L = ['def gen(particle, fieldset, time):']
    last = []
    for i, b in enumerate(case['body']):
        c = 'ParcelsRandom.%s(%s)' % (b['op'][0], ', '.join(map(repr, b['op'][1:])))
        L.append('    g%d = %s' % (i, c))
        L.append('    particle.v%d = g%d' % (i % 3, i))
        if b['do'] == 'cond':
            L += ['    if g%d > 0.75:' % i, '        h%d = ParcelsRandom.random()' % i, '        particle.v3 = h%d' % i]
        elif b['do'] == 'loop':
            L += ['    k%d = 0' % i, '    while k%d < 3:' % i, '        m%d = %s' % (i, c), '        particle.v3 = m%d' % i, '        k%d += 1' % i]
        elif b['do'] == 'while':
            L += ['    w%d = ParcelsRandom.uniform(0., 1.)' % i, '    while w%d < 0.5:' % i, '        w%d = ParcelsRandom.uniform(0., 1.)' % i,
                  '        particle.m += 1', '    particle.v3 = w%d' % i]
        elif b['do'] == 'del':
            # (what a kernel still does for a particle after deleting it differs between the modes: delete last)
            last += ['    d%d = ParcelsRandom.random()' % i, '    if d%d < 0.08:' % i, '        particle.delete()']
            if not case['kern'].endswith('gen'):
                last.pop()
                last.append('        particle.m += 100')
    L.append('    particle.m += 1')
    L += last[:3]
    return '\n'.join(L) + '\n'


def sim(case, mode):
    lon = np.linspace(-1e6, 1e6, 5)
    fs = FieldSet.from_data({'U': np.full((5, 5), .5, np.float32), 'V': np.full((5, 5), -.25, np.float32),
                             'Kh_zonal': np.full((5, 5), 100., np.float32), 'Kh_meridional': np.full((5, 5), 64., np.float32)},
                            {'lon': lon, 'lat': lon}, mesh='flat')
    fs.add_constant('dres', 0.5)
    base = JITParticle if mode == 'jit' else ScipyParticle
    d = {'v%d' % i: Variable('v%d' % i, dtype=np.float64, initial=-3.) for i in range(4)}
    d['m'] = Variable('m', dtype=np.int32, initial=0)
    d['nr'] = Variable('nr', dtype=np.int32, initial=0)
    pc = type('C19S' + base.__name__, (base,), d)
    n = case['n']
    t = [float(i) if case['stag'] else 0. for i in range(n)]
    if case['dt'] < 0:
        t = [-x for x in t]
    pset = ParticleSet(fs, pclass=pc, lon=[float(i) for i in range(n)], lat=[0.] * n, time=t, nr=list(range(n)), lonlatdepth_dtype=np.float64)
    K = {'M1': AdvectionDiffusionM1, 'EM': AdvectionDiffusionEM, 'uni': DiffusionUniformKh, 'rk4': AdvectionRK4}
    k = None
    for w in case['kern'].split('+'):
        q = pset.Kernel(K[w] if w in K else function(sim_src(case), 'gen'))
        k = q if k is None else k + q
    ParcelsRandom.seed(case['seed'])
    hist = []
    for i, ln in enumerate(case['execs']):
        if len(pset) == 0:
            break
        if i == 1 and case['seed2'] is not None:
            ParcelsRandom.seed(case['seed2'])
        pset.execute(k, runtime=ln * abs(case['dt']), dt=case['dt'], verbose_progress=False)
        hist.append(sorted([int(p.nr), int(p.m)] + [float(getattr(p, q)) for q in ('v0', 'v1', 'v2', 'v3', 'lon', 'lat', 'time')] for p in pset))
    tail = [ParcelsRandom.random(), ParcelsRandom.normalvariate(0., 1.), ParcelsRandom.randint(0, 1000)]
    return hist, tail


def run_sim(case):
    res = {}
    for mode in ('jit', 'scipy'):
        res[mode] = sim(case, mode)
        for _ in range(case['burn']):
            ParcelsRandom.random()
        if case['same'] or mode == 'scipy':
            again = sim(case, mode)
            if again != res[mode]:
                raise Violation('%s: the same seed gave another simulation: %r and then %r' % (mode, res[mode], again))
    (a, ta), (b, tb) = res['jit'], res['scipy']
    if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
        raise Violation('the two modes kept other particles: %r and %r' % (a, b))
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if p[:6] != q[:6]:
                raise Violation('particle %d drew %r compiled and %r interpreted' % (p[0], p[1:6], q[1:6]))
            if any(abs(r - s) > 1e-4 * (1 + abs(s)) for r, s in zip(p[6:], q[6:])):
                raise Violation('particle %d is at %r compiled and at %r interpreted' % (p[0], p[6:], q[6:]))
    if ta != tb:
        raise Violation('after the simulation the generator is in another state: %r and %r' % (ta, tb))
    if ('uni' in case['kern'] or 'M1' in case['kern'] or 'EM' in case['kern']) and a:
        pos = {tuple(p[6:8]) for p in a[0]}
        if len(pos) < len(a[0]):
            raise Violation('random walks of different particles coincide: %r' % (a[0],))
    return {'nontrivial': case['n'] >= 2 and sum(case['execs']) >= 2, 'labels': [case['kern'], 'dt<0' if case['dt'] < 0 else 'dt>0'] + [b['do'] for b in case['body']]}


SUBCHECKS = [Sub('draws', draws_s, run_draws, quick=60, thorough=1500, budget=35),
             Sub('dist', dist_s, run_dist, quick=40, thorough=800, budget=30),
             Sub('sim', sim_s, run_sim, quick=25, thorough=600, budget=40)]
