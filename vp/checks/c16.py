"""C16: restarting from an exported trajectory file against the uninterrupted run."""
import linecache
import math
import os
import pathlib
import shutil
import tempfile
import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (Field, FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, OperationCode, ErrorCode, RectilinearZGrid)
from parcels.tools.converters import TimeConverter

PROPERTY = 'C16'
RULE = ('a case is a simulation (flow, particles with start times and scripted deletions, written, write-once and unwritten variables, repeated release, '
        'removals) interrupted at one or more times by writing a file and restarting from it; non-trivial = at least one restart in which a proper '
        'non-empty selection of the trajectories in the file had to be restored, or two particles continued with different variables')
ASSUMPTIONS = ['custom variables are stored in single precision in the file, so their values are representable in it',
               'particles that are deleted exactly at the restart time cannot be told from the file and are left open',
               'particles that have not started at the restart time are not in the file and are not expected to be restored']

SRC = '''def step(particle, fieldset, time):
    (u, v) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]
    particle.lon += u * particle.dt
    particle.lat += v * particle.dt
    particle.depth += 0.25
    particle.p = fieldset.P[time, particle.depth, particle.lat, particle.lon]
    particle.n += 1
    particle.a += 0.5 * particle.o
    particle.b += 1
    particle.h += particle.n
    if particle.n == particle.fs:
        particle.delete()
'''


def function(src, name):
    fn = '<vp_c16_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'OperationCode': OperationCode, 'ErrorCode': ErrorCode}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN = function(SRC, 'step')
CLS = {}
VARS = (('n', np.int32, 0), ('fs', np.int32, -1), ('o', np.float32, 3.), ('q', np.int32, 7), ('a', np.float32, 0.), ('b', np.float64, 1.),
        ('h', np.float64, 0.), ('p', np.float32, 0.))


def pclass(base, wr, extra):
    key = (base, tuple(sorted(wr.items())), extra)
    if key not in CLS:
        B = JITParticle if base == 'jit' else ScipyParticle
        d = {v: Variable(v, dtype=t, initial=init, to_write=wr[v]) for v, t, init in VARS}
        if extra:
            d['w'] = Variable('w', dtype=np.float32, initial=4.5, to_write=False)
        CLS[key] = type('C16' + B.__name__ + str(len(CLS)), (B,), d)
    return CLS[key]


@st.composite
def part_s(draw):
    return {'t0': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])), 'fs': draw(st.sampled_from([-1, -1, -1, 1, 2, 3, 4, 6, 8])), 'lon': draw(st.integers(-8, 8)) / 2.,
            'lat': draw(st.integers(-8, 8)) / 4., 'o': draw(st.integers(-3, 9)), 'q': draw(st.integers(0, 9))}


@st.composite
def case_s(draw):
    stages = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        more = draw(st.sampled_from([0, 0, 1, 2, 3]))
        stages.append({'pre': draw(st.integers(1, 5)), 'more': more, 'spec': draw(st.sampled_from(['value', 'func'] if more else ['none', 'value', 'func'])),
                       'rm': draw(st.sampled_from([None, None, 0, 1])), 'add': draw(st.lists(part_s(), max_size=1)),
                       'path': draw(st.sampled_from(['str', 'str', 'path'])), 'kern': draw(st.sampled_from(['func', 'kernel'])),
                       'flip': draw(st.sampled_from([None, None, None, 'a:False', 'a:once', 'o:True', 'o:False', 'q:flip'])),
                       'extra': draw(st.sampled_from([False, False, True])), 'after': draw(st.lists(part_s(), max_size=1)),
                       'restart': draw(st.sampled_from([True, True, True, True, False])), 'fresh': draw(st.booleans())})
    wr = {'n': draw(st.sampled_from([True, True])), 'a': True, 'b': True, 'h': True, 'p': draw(st.sampled_from([True, False])),
          'fs': draw(st.sampled_from(['once', 'once', True])), 'o': draw(st.sampled_from(['once', True])), 'q': draw(st.sampled_from(['once', True, False]))}
    return {'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'sgn': draw(st.sampled_from([1, 1, -1])),
            'dt': draw(st.sampled_from([1., 2., 0.5, 3600., 0.1, 0.3, 0.7])), 'out': draw(st.sampled_from([1, 1, 2, 3])), 'f64': draw(st.sampled_from([None, True, False])),
            'origin': draw(st.sampled_from(['none', 'none', 'datetime', 'datetime', 'timedelta', 'noleap', '360_day'])), 'write': wr,
            'parts': draw(st.lists(part_s(), min_size=1, max_size=6)), 'stages': stages, 'tail': draw(st.integers(0, 4)),
            'repeat': draw(st.sampled_from([None, None, None, None, 1, 2])), 'seed': draw(st.integers(0, 10**6)),
            'base': draw(st.sampled_from([0, 0, 7, 100, 200000])), 'ondel_close': draw(st.booleans())}


def fieldset(case):
    rng = np.random.RandomState(case['seed'])
    origin = {'none': TimeConverter(0), 'datetime': TimeConverter(np.datetime64('2003-02-27T00:00:00')), 'timedelta': TimeConverter(np.timedelta64(3, 'D')),
              'noleap': TimeConverter(cftime.DatetimeNoLeap(2003, 2, 27)), '360_day': TimeConverter(cftime.Datetime360Day(2003, 2, 27))}[case['origin']]
    T = 400 * case['dt']
    time = np.array([-T, 0., 0.25 * T, T])
    lon, lat = np.linspace(-50, 50, 11), np.linspace(-30, 30, 7)
    grid = RectilinearZGrid(lon, lat, time=time, time_origin=origin, mesh='flat')
    sc = 0.2 / case['dt']
    f = [Field(n, (sc * rng.uniform(-1, 1, (4, 7, 11))).astype(np.float32), grid=grid, allow_time_extrapolation=True) for n in 'UV']
    fs = FieldSet(*f)
    fs.add_field(Field('P', rng.uniform(-1, 1, (4, 7, 11)).astype(np.float32), grid=grid, allow_time_extrapolation=True))
    return fs


FIELDS = ['time', 'lon', 'lat', 'depth', 'n', 'fs', 'o', 'q', 'a', 'b', 'h', 'p']


def state(pset):
    return {int(p.id): {v: float(getattr(p, v)) for v in FIELDS} for p in pset}


def close(a, b, dt):
    return all(abs(a[v] - b[v]) <= (1e-4 * dt if v == 'time' else 2e-5 * (1 + abs(b[v]))) for v in FIELDS)


def run(case):
    root = tempfile.mkdtemp(prefix='c16_')
    try:
        return _run(case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(case, root):
    dt, sgn = case['dt'], case['sgn']
    fs = fieldset(case)
    base = case['base'] * dt
    ldt = {None: None, True: np.float64, False: np.float32}[case['f64']]
    wr = dict(case['write'])
    pc = pclass(case['mode'], wr, False)
    pc.setLastID(0)

    def make(parts, t, cls, aligned=False, **kw):
        return ParticleSet(fs, pclass=cls, lon=[d['lon'] for d in parts], lat=[d['lat'] for d in parts], depth=[0.5 * i for i in range(len(parts))],
                           lonlatdepth_dtype=ldt, time=[base + t + (0 if aligned else sgn * d['t0'] * dt) for d in parts], fs=[d['fs'] for d in parts],
                           o=[d['o'] for d in parts], q=[d['q'] for d in parts], **kw)
    parts = [dict(d) for d in case['parts']]
    parts[0]['t0'] = 0
    repeat = case['repeat']
    pset = make(parts, 0., pc, aligned=repeat is not None, **({'repeatdt': repeat * dt} if repeat else {}))
    nontrivial = False
    labels = [case['mode'], case['origin'], 'forward' if sgn > 0 else 'backward'] + (['repeated release'] if repeat else [])
    t = 0.     # now, relative to the base

    def go(ps, k, name=None, kern=KERN, pfile=None):
        if len(ps) == 0:
            return
        ps.execute(kern, endtime=base + t + sgn * k * dt, dt=sgn * dt, output_file=pfile, verbose_progress=False)
    for i, stg in enumerate(case['stages']):
        name = os.path.join(root, 'file%d.nc' % i)
        pfile = pset.ParticleFile(name=name, outputdt=case['out'] * dt)
        kern = KERN if stg['kern'] == 'func' else pset.Kernel(KERN)
        # executions end where the run is interrupted
        go(pset, stg['pre'], kern=kern, pfile=pfile)
        t += sgn * stg['pre'] * dt
        if len(pset) == 0:
            pfile.convert_at_end = False
            return {'nontrivial': nontrivial, 'labels': labels + ['all deleted']}
        pset.repeatdt = None
        now = {k: v for k, v in state(pset).items() if abs(v['time'] - base - t) < 0.01 * dt}
        if not now:
            pfile.convert_at_end = False
            return {'nontrivial': nontrivial, 'labels': labels + ['nobody alive']}
        allids = set(state(pset))
        if stg['more']:
            # the file goes on after the restart time
            if stg['rm'] is not None and len(pset) > stg['rm'] + 1:
                lost = int(pset[stg['rm']].id)
                pset.remove_indices(stg['rm'])
            else:
                lost = None
            if stg['add']:
                new = make([dict(d, t0=max(1, d['t0'])) for d in stg['add']], t, pc)
                allids |= {int(p.id) for p in new}
                pset.add(new)
            go(pset, stg['more'], kern=kern, pfile=pfile)
            pfile.close()
            # the reference cannot be continued to the end of the case from here by itself: it already is at its end
            ref_k = stg['more']
        else:
            lost = None
            pfile.close()
            ref_k = None
        # the restarted set
        pc2w = dict(wr)
        if stg['flip']:
            v, w = stg['flip'].split(':')
            if v == 'q':
                w = {True: 'once', 'once': True, False: False}[wr['q']]
            else:
                w = {'False': False, 'True': True, 'once': 'once'}[w]
            pc2w[v] = w
        pc2 = pclass(case['mode'], pc2w, stg['extra'])
        fn = pathlib.Path(name) if stg['path'] == 'path' else name
        rt = None
        order = sorted(v['time'] for v in now.values())
        if stg['spec'] == 'func' and not stg['more']:
            rt = np.nanmax if sgn > 0 else np.nanmin
        elif stg['spec'] != 'none' or sgn < 0:
            rel = order[0]
            if case['origin'] == 'datetime':
                rt = np.datetime64('2003-02-27T00:00:00', 'ns') + np.timedelta64(int(round(rel * 1e9)), 'ns')
            elif case['origin'] in ('noleap', '360_day'):
                rt = np.nanmax if sgn > 0 else np.nanmin
                if stg['more']:
                    rt = fs.time_origin.fulltime(rel)
            else:
                rt = rel
        kw = {} if rt is None else {'restarttime': rt}
        if not stg['restart']:
            kw['restart'] = False
        taken = allids
        if stg.get('fresh') and stg['restart']:      # as in a new process, that knows only what is in the file
            last = pc2.lastID
            pc2.setLastID(0)
            with xr.open_dataset(str(fn), decode_cf=False) as d:
                f = np.asarray(d['trajectory'].values, dtype=float)
                taken = {int(v) for v in f[np.isfinite(f) & (f >= 0) & (f < 2 ** 31)]}
        p2 = ParticleSet.from_particlefile(fs, pclass=pc2, filename=fn, lonlatdepth_dtype=ldt, **kw)
        got = state(p2)
        what = 'restart %d from the file' % i
        if len(got) != len(p2):
            raise Violation('%s: identities are not distinct: %r' % (what, [int(p.id) for p in p2]))
        exp = {}
        for k, v in now.items():
            e = dict(v)
            for var, ty, init in VARS:
                if wr[var] is False:
                    e[var] = float(init)
            exp[k] = e
        if not stg['restart']:
            # new identities, same particles
            pairs = match(exp, got, dt)
            if pairs is None:
                raise Violation('%s without identities: restored %s, expected %s' % (what, show(got), show(exp)))
            return {'nontrivial': nontrivial, 'labels': labels + ['no restart']}
        if not set(exp) <= set(got):
            raise Violation('%s: particles %r alive at %r restored, expected %r' % (what, sorted(got), rt, sorted(exp)))
        for k in set(got) - set(exp):
            # only particles that were deleted exactly then
            if abs(got[k]['time'] - base - t) > 1e-4 * dt or got[k]['n'] != got[k]['fs']:
                raise Violation('%s: particle %d was not alive then but is restored: %r' % (what, k, got[k]))
        for k in exp:
            if not close(got[k], exp[k], dt):
                bad = {v: (got[k][v], exp[k][v]) for v in FIELDS if not close({**exp[k], v: got[k][v]}, exp[k], dt)}
                raise Violation('%s: particle %d is restored with (value, expected) %r' % (what, k, bad))
        p2.remove_booleanvector(np.array([int(p.id) not in exp for p in p2]))
        if 0 < len(exp) < len(allids) or len(exp) >= 2:
            nontrivial = True
        labels.append('restart within the file' if stg['more'] else 'restart at the end')
        if len(exp) < len(allids):
            labels.append('not all restored')
        if stg['after']:
            new = make(stg['after'], t, pc2)
            ids = {int(p.id) for p in new}
            if ids & taken:
                raise Violation('%s: a particle added to the restarted set gets the identity of another one (%r among %r)' % (what, sorted(ids), sorted(taken)))
            del new
        if stg.get('fresh') and stg['restart']:
            pc2.setLastID(max(last, pc2.lastID))
        # continue both
        unwr = {v for v, _, _ in VARS if wr[v] is False and v != 'p'}
        if ref_k is None:
            for k in set(state(pset)) - set(exp):
                pset.remove_indices([j for j, p in enumerate(pset) if int(p.id) == k][0])
            ref_k = stg['pre']
            go(pset, ref_k)
        go(p2, ref_k, kern=kern if stg['kern'] == 'func' else KERN)
        a, b = state(pset), state(p2)
        a = {k: v for k, v in a.items() if k in exp and k != lost}
        b = {k: v for k, v in b.items() if k != lost}
        if set(a) != set(b):
            raise Violation('%s: continuing leaves particles %r, the uninterrupted run %r' % (what, sorted(b), sorted(a)))
        for k in a:
            bad = {v: (b[k][v], a[k][v]) for v in FIELDS if v not in unwr and not close({**a[k], v: b[k][v]}, a[k], dt)}
            if bad:
                raise Violation('%s: continued particle %d ends with (value, uninterrupted) %r' % (what, k, bad))
        t += sgn * ref_k * dt
        pset, wr, pc = p2, pc2w, pc2
        if wr['fs'] is False or wr['n'] is False or wr['a'] is False or wr['o'] is False or wr['a'] == 'once' or len(pset) == 0:
            break
    return {'nontrivial': nontrivial, 'labels': labels}


def show(s):
    return {k: {v: x[v] for v in ('time', 'lon', 'lat', 'n', 'a')} for k, x in s.items()}


def match(exp, got, dt):
    left = dict(got)
    for k, e in exp.items():
        for j, g in left.items():
            if close(g, e, dt):
                del left[j]
                break
        else:
            return None
    return True


SUBCHECKS = [Sub('restart', case_s, run, quick=400, thorough=4000, budget=80)]
