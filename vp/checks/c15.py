"""C15: exported trajectory files against the predicted table of observations."""
import glob
import linecache
import math
import os
import shutil
import tempfile
from datetime import timedelta
import numpy as np
import netCDF4
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import (FieldSet, ParticleSet, JITParticle, ScipyParticle, Variable, OperationCode, ErrorCode)
from parcels.scripts.convert_npydir_to_netcdf import convert_npydir_to_netcdf

PROPERTY = 'C15'
RULE = ('a case is a set of particles (start times, scripted deletions), an output interval and a sequence of executions, additions, removals and '
        'exports on one output file; non-trivial = at least two particles with at least two observations each were recorded')
ASSUMPTIONS = ['start times are multiples of the time step and never within half a step of an output time they do not coincide with',
               'values are small and exactly representable in single precision (custom variables are stored as float32)']

SRC = '''def move(particle, fieldset, time):
    particle.n += 1
    particle.lon += 0.125
    particle.depth += 0.25
    particle.a += 0.5
    particle.b = particle.b + particle.dt
    particle.x += 1
    particle.o += 1
    if particle.n == particle.fs:
        particle.delete()
    if particle.n == particle.ff:
        return ErrorCode.ErrorOutOfBounds
'''


def function(src, name):
    fn = '<vp_c15_%s>' % name
    linecache.cache[fn] = (len(src), None, src.splitlines(True), fn)
    ns = {'math': math, 'OperationCode': OperationCode, 'ErrorCode': ErrorCode}
    exec(compile(src, fn, 'exec'), ns)
    return ns[name]


KERN = function(SRC, 'move')
CLS = {}


def pclass(base, wr):
    key = (base, tuple(sorted(wr.items())))
    if key not in CLS:
        B = JITParticle if base == 'jit' else ScipyParticle
        d = {}
        for v, t, init in (('n', np.int32, 0), ('fs', np.int32, -1), ('ff', np.int32, -1), ('a', np.float32, 0.), ('b', np.float64, 1.),
                           ('x', np.float32, 2.), ('o', np.float32, 5.), ('o2', np.int32, 0)):
            d[v] = Variable(v, dtype=t, initial=init, to_write=wr.get(v, False))
        CLS[key] = type('C15' + B.__name__ + str(len(CLS)), (B,), d)
    return CLS[key]


@st.composite
def part_s(draw, aligned):
    k = draw(st.sampled_from(['', '', '', 'fs', 'ff']))
    return {'t0': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])) if aligned else 0, 'fs': draw(st.integers(1, 7)) if k == 'fs' else -1,
            'ff': draw(st.integers(1, 7)) if k == 'ff' else -1, 'lon': draw(st.integers(-8, 8)) / 2., 'o': draw(st.integers(-3, 9)),
            'o2': draw(st.integers(0, 9))}


@st.composite
def case_s(draw):
    aligned = draw(st.sampled_from([True, True, False]))
    dt = draw(st.sampled_from([1., 2., 0.5, 3600., 0.1, 0.3, 0.7]))
    out = draw(st.sampled_from([1, 1, 2, 3])) if aligned else draw(st.sampled_from([1.5, 2.5]))
    wr = {'n': True, 'a': draw(st.sampled_from([True, False])), 'b': draw(st.sampled_from([True, True, False])), 'x': False,
          'o': draw(st.sampled_from(['once', 'once', True, False])), 'o2': draw(st.sampled_from(['once', False]))}
    ops = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        ops.append(['exec', draw(st.integers(1, 7)) if aligned else draw(st.integers(1, 3)) * (3 if out == 1.5 else 5), draw(st.sampled_from([None, None, 1, 2])) if aligned else None])
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            ops.append(draw(st.sampled_from(['add', 'add', 'rm', 'export', 'write'])).split())
            if ops[-1] == ['add']:
                ops[-1] = ['add', draw(st.lists(part_s(aligned), min_size=1, max_size=2))]
            elif ops[-1] == ['rm']:
                ops[-1] = ['rm', draw(st.integers(0, 3))]
    return {'mode': draw(st.sampled_from(['jit', 'jit', 'scipy'])), 'sgn': draw(st.sampled_from([1, 1, -1])), 'dt': dt, 'out': out,
            'write': wr, 'parts': draw(st.lists(part_s(aligned), min_size=1, max_size=5)), 'ops': ops, 'f64': draw(st.booleans()),
            'ondel': draw(st.sampled_from([False, False, False, True])), 'end': draw(st.sampled_from(['close', 'convert', 'export'])),
            'name': draw(st.sampled_from(['traj.nc', 'traj', 'once_traj.nc', 'once/traj.nc'])), 'td': draw(st.booleans()), 'base': draw(st.sampled_from([0., 0., 0., -1e6, 12345.6])),
            'status': draw(st.booleans())}


FS = []


def fieldset():
    if not FS:
        one = np.ones((2, 3), dtype=np.float32)
        FS.append(FieldSet.from_data({'U': 0 * one, 'V': 0 * one}, {'lon': np.array([-50., 0., 50.]), 'lat': np.array([-50., 50.])}, mesh='flat',
                                     allow_time_extrapolation=True))
    return FS[0]


def delete_it(particle, fieldset, time):
    particle.delete()


class MP:
    def __init__(self, pid, d, t):
        self.id, self.time = pid, t
        self.lon, self.lat, self.z = d['lon'], 0., 2.
        self.n, self.a, self.b, self.x = 0, 0., 1., 2.
        self.o, self.o2 = float(d['o']), float(d['o2'])
        self.fs, self.ff = d['fs'], d['ff']
        self.dead = False


def run(case):
    root = tempfile.mkdtemp(prefix='c15_')
    try:
        return _run(case, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(case, root):
    dt, sgn, out, wr = case['dt'], case['sgn'], case['out'] * case['dt'], dict(case['write'])
    fs = fieldset()
    base = case.get('base', 0.)      # model times are relative to the base
    clswr = dict(wr)
    if case['status']:
        clswr.update(a=not wr['a'], o=True)
    pc = pclass(case['mode'], clswr)
    ldt = np.float64 if case['f64'] else np.float32

    def make(parts, t):
        return ParticleSet(fs, pclass=pc, lon=[d['lon'] for d in parts], lat=[0.] * len(parts), depth=[2.] * len(parts), lonlatdepth_dtype=ldt,
                           time=[base + t + sgn * d['t0'] * dt for d in parts], fs=[d['fs'] for d in parts], ff=[d['ff'] for d in parts],
                           o=[d['o'] for d in parts], o2=[d['o2'] for d in parts])
    # the first particle starts at 0, so that output times are multiples of the interval
    parts = [dict(d) for d in case['parts']]
    parts[0]['t0'] = 0
    pset = make(parts, 0.)
    if case['status']:
        pset.set_variable_write_status('a', wr['a'])
        pset.set_variable_write_status('o', wr['o'])
    name = os.path.join(root, case['name'])
    os.makedirs(os.path.dirname(name), exist_ok=True)
    td = (lambda x: timedelta(seconds=x)) if case['td'] else (lambda x: x)
    pfile = pset.ParticleFile(name=name, outputdt=td(out), write_ondelete=case['ondel'])
    model = [MP(int(p.id), d, sgn * d['t0'] * dt) for p, d in zip(pset, parts)]
    everybody = list(model)
    obs = {}
    once = {}
    now = [None]
    wvars = ['time', 'lon', 'lat', 'z'] + [v for v in ('n', 'a', 'b', 'x', 'o') if wr[v] is True]

    def record(p):
        obs.setdefault(p.id, []).append({v: float(getattr(p, v)) for v in wvars})
        once.setdefault(p.id, {v: float(getattr(p, v)) for v in ('o', 'o2')})

    def output(t):
        if case['ondel']:
            return
        for p in model:
            if abs(p.time - t) < 1e-6 * dt and not (obs.get(p.id) and abs(obs[p.id][-1]['time'] - p.time) < 1e-6 * dt):
                record(p)

    fname = name if name.endswith('.nc') else name + '.nc'
    last_end = None
    for op in case['ops']:
        if op[0] == 'exec':
            if not model:
                continue
            start = min(p.time for p in model) if sgn > 0 else max(p.time for p in model)
            end = start + sgn * op[1] * dt
            output(start)
            bps = set()
            k = 1
            touts = []
            while sgn * (start + sgn * k * out - end) < -1e-9:
                touts.append(start + sgn * k * out)
                k += 1
            bps = set(touts) | {end}
            if op[2]:
                k = 1
                while sgn * (start + sgn * k * op[2] * dt - end) < -1e-9:
                    bps.add(start + sgn * k * op[2] * dt)
                    k += 1
            for b in sorted(bps, reverse=sgn < 0):
                for p in list(model):
                    while sgn * (b - p.time) > 1e-9:
                        h = min(dt, abs(b - p.time))
                        if p.n + 1 == p.ff:
                            if p.fs == p.ff:
                                pass
                            record(p)
                            model.remove(p)
                            break
                        p.n += 1
                        p.lon += 0.125
                        p.z += 0.25
                        p.a += 0.5
                        p.b += sgn * h
                        p.x += 1
                        p.o += 1
                        p.time += sgn * h
                        if p.n == p.fs:
                            record(p)
                            model.remove(p)
                            break
                if b in touts:
                    output(b)
            output(end)
            kw = {}
            if op[2]:
                kw['callbackdt'] = op[2] * dt
            pset.execute(KERN, runtime=td(op[1] * dt), dt=td(sgn * dt), output_file=pfile, verbose_progress=False,
                         recovery={ErrorCode.ErrorOutOfBounds: delete_it}, **kw)
            last_end = end
        elif op[0] == 'add':
            if last_end is None:
                continue
            ds = [dict(d, t0=d['t0'] - d['t0'] % max(1, int(case['out']))) for d in op[1]]
            new = make(ds, last_end)
            ms = [MP(int(p.id), d, last_end + sgn * d['t0'] * dt) for p, d in zip(new, ds)]
            pset.add(new)
            model += ms
            everybody += ms
        elif op[0] == 'rm':
            if op[1] < len(model):
                pset.remove_indices(op[1])
                model.pop(op[1])
        elif op[0] == 'export':
            if obs:
                pfile.export()
                compare(fname, obs, once, wr, wvars, base, 'in-between export')
        elif op[0] == 'write' and last_end is not None and len(model):
            output(last_end)
            pfile.write(pset, base + last_end)
    if not obs:
        pfile.convert_at_end = False
        return {'nontrivial': False, 'labels': ['no observations']}
    if case['end'] == 'close':
        pfile.close()
        if glob.glob(os.path.join(os.path.dirname(name), 'out-*')):
            raise Violation('close() leaves the temporary directory behind')
    elif case['end'] == 'convert':
        pfile.convert_at_end = False
        convert_npydir_to_netcdf(pfile.tempwritedir_base)
    else:
        pfile.export()
        pfile.convert_at_end = False
    compare(fname, obs, once, wr, wvars, base, 'file after ' + case['end'])
    return {'nontrivial': sum(len(o) >= 2 for o in obs.values()) >= 2,
            'labels': [case['mode'], case['end'], 'ondelete' if case['ondel'] else 'all'] + sorted({o[0] for o in case['ops']})}


def compare(fname, obs, once, wr, wvars, base, what):
    with netCDF4.Dataset(fname) as nc:
        nc.set_auto_mask(False)
        tr = nc.variables['trajectory'][:]
        for v in list(wr) + ['fs', 'ff']:
            should = wr.get(v, False) is not False
            if (v in nc.variables) != should:
                raise Violation('%s: variable %s %s in the file' % (what, v, 'is missing' if should else 'should not be'))
        rows = []
        for r in range(tr.shape[0]):
            ids = tr[r][tr[r] != -2**63]
            if len(ids) == 0 or len(set(ids)) != 1:
                raise Violation('%s: row %d has trajectory ids %r' % (what, r, list(tr[r])))
            rows.append(int(ids[0]))
            if not all(tr[r][:len(ids)] == ids[0]):
                raise Violation('%s: row %d has gaps: %r' % (what, r, list(tr[r])))
        if sorted(rows) != sorted(obs):
            raise Violation('%s: trajectories %r, expected %r' % (what, sorted(rows), sorted(obs)))
        for r, pid in enumerate(rows):
            exp = obs[pid]
            for v in wvars:
                a = nc.variables[v][r].astype(float)
                a = a[~np.isnan(a)] - (base if v == 'time' else 0)
                e = np.array([o[v] for o in exp])
                if len(a) != len(e) or np.any(np.abs(a - e) > 1e-5 * (1 + np.abs(e))):
                    raise Violation('%s: %s of particle %d is %r, expected %r' % (what, v, pid, list(a), list(e)))
            t = nc.variables['time'][r]
            if not np.all(np.isfinite(t[:len(exp)])):
                raise Violation('%s: observations of particle %d are not contiguous' % (what, pid))
            for v in ('o', 'o2'):
                if wr[v] == 'once':
                    a = nc.variables[v][:]
                    if a.shape != (len(rows),) or float(a[r]) != once[pid][v]:
                        raise Violation('%s: write-once %s of particle %d is %r, expected %r' % (what, v, pid, a[r] if a.shape == (len(rows),) else a, once[pid][v]))


SUBCHECKS = [Sub('file', case_s, run, quick=900, thorough=6000, budget=80)]
