"""C23: unit conversion and geometry of grid cells."""
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable, RectilinearZGrid, RectilinearSGrid, CurvilinearZGrid
from parcels.tools import converters

PROPERTY = 'C23'
RULE = ('units: a field with a generated name, field type, mesh and converter (chosen automatically, or one of the shipped or a user-defined converter), '
        'sampled by generated particles in both modes, in Python and without conversion; '
        'cells: rectilinear grids with uneven spacing, flat or spherical, with or without a halo, in metres. '
        'Non-trivial = the conversion is not the identity, resp. the grid is uneven or spherical')
ASSUMPTIONS = ['cells stay 0.01 degree away from the poles', 'positions used for conversion stay within 89 degrees']
M = 1000. * 1.852 * 60.           # metres per degree
F32 = np.float32


class Twice(converters.UnitConverter):
    """a user-defined converter that depends on all coordinates"""
    source_unit, target_unit = 'a', 'b'

    def to_target(self, value, x, y, z):
        return value * (2. + x * .5 - y * .25 + z * .125)

    def ccode_to_target(self, x, y, z):
        return "(2. + %s * .5 - %s * .25 + %s * .125)" % (x, y, z)

    def to_source(self, value, x, y, z):
        return value / (2. + x * .5 - y * .25 + z * .125)

    def ccode_to_source(self, x, y, z):
        return "(1. / (2. + %s * .5 - %s * .25 + %s * .125))" % (x, y, z)


FACTOR = {'UnitConverter': lambda x, y, z: 1.,
          'Geographic': lambda x, y, z: 1 / M,
          'GeographicPolar': lambda x, y, z: 1 / (M * math.cos(math.radians(y))),
          'GeographicSquare': lambda x, y, z: 1 / M ** 2,
          'GeographicPolarSquare': lambda x, y, z: 1 / (M * math.cos(math.radians(y))) ** 2,
          'Twice': lambda x, y, z: 2 + x * .5 - y * .25 + z * .125}
AUTO = {'U': 'GeographicPolar', 'V': 'Geographic', 'Kh_zonal': 'GeographicPolarSquare', 'Kh_meridional': 'GeographicSquare'}
NAMES = ['P', 'Kh_zonal', 'Kh_meridional', 'U', 'V', 'W', 'u', 'temperature']


@st.composite
def units_s(draw):
    return {'name': draw(st.sampled_from(NAMES)), 'fieldtype': draw(st.sampled_from([None, None, None, 'U', 'V', 'Kh_zonal', 'Kh_meridional', 'P'])),
            'mesh': draw(st.sampled_from(['spherical', 'spherical', 'flat'])), 'conv': draw(st.sampled_from([None] * 4 + sorted(FACTOR))),
            'after': draw(st.booleans()), 'val': draw(st.integers(1, 64)) / 8, 'curv': draw(st.booleans()),
            'p': [[draw(st.integers(-10, 10)) / 2, draw(st.integers(-712, 712)) / 8, draw(st.integers(0, 16)) / 2] for _ in range(draw(st.integers(1, 3)))],
            'vector': draw(st.booleans())}


def mk(base):
    class P(base):
        a = Variable('a', dtype=np.float64, initial=0.)
        b = Variable('b', dtype=np.float64, initial=0.)
        c = Variable('c', dtype=np.float64, initial=0.)
    P.__name__ = 'C23' + base.__name__
    return P


PCL = {'jit': mk(JITParticle), 'scipy': mk(ScipyParticle)}


def run_units(case):
    lon, lat, depth = np.array([-5., 0., 5.], dtype=F32), np.array([-89., 0., 89.], dtype=F32), np.array([0., 8.], dtype=F32)
    if case['curv']:
        x, y = np.meshgrid(lon, lat)
        grid = CurvilinearZGrid(x, y, depth=depth, mesh=case['mesh'])
    else:
        grid = RectilinearZGrid(lon, lat, depth=depth, mesh=case['mesh'])
    name, v = case['name'], case['val']
    data = np.full((2, 3, 3), v, dtype=F32)
    mkf = lambda n, **kw: Field(n, data.copy(), grid=grid, **kw)      # noqa: E731
    f = mkf(name, fieldtype=case['fieldtype'])
    expect = AUTO.get(case['fieldtype'] or name, 'UnitConverter') if case['mesh'] == 'spherical' else 'UnitConverter'
    if type(f.units).__name__ != expect:
        raise Violation('a field %r of type %r on a %s mesh gets the converter %s instead of %s' % (name, case['fieldtype'], case['mesh'], type(f.units).__name__, expect))
    others = {n: mkf(n) for n in ('U', 'V') if n != name}
    fs = FieldSet(f if name == 'U' else others['U'], f if name == 'V' else others['V'])
    if name not in ('U', 'V'):
        if case['after']:
            fs.add_field(f)
        else:
            fs = FieldSet(others['U'], others['V'], {name: f})
    if case['conv']:
        expect = case['conv']
        getattr(fs, name).units = Twice() if expect == 'Twice' else getattr(converters, expect)()
    f = getattr(fs, name)
    uv = {n: expect if n == name else (AUTO[n] if case['mesh'] == 'spherical' else 'UnitConverter') for n in ('U', 'V')}
    src = 'def kern(particle, fieldset, time):\n    particle.a = fieldset.%s[time, particle.depth, particle.lat, particle.lon]\n' % name
    if case['vector']:
        src += '    (particle.b, particle.c) = fieldset.UV[time, particle.depth, particle.lat, particle.lon]\n'
    from vp.checks.c04 import function
    for mode in ('jit', 'scipy'):
        pset = ParticleSet(fs, pclass=PCL[mode], lon=[p[0] for p in case['p']], lat=[p[1] for p in case['p']], depth=[p[2] for p in case['p']],
                           time=0., lonlatdepth_dtype=np.float64)
        pset.execute(function(src, 'kern'), runtime=0, dt=0, verbose_progress=False)
        for p, (x, y, z) in zip(pset, case['p']):
            for var, conv in [('a', expect)] + ([('b', uv['U']), ('c', uv['V'])] if case['vector'] else []):
                want = v * FACTOR[conv](x, y, z)
                if not abs(float(getattr(p, var)) - want) <= 3e-5 * abs(want) + 1e-30:
                    raise Violation('%s: %s at (%r, %r, %r) is %r, %r converted by %s is %r'
                                    % (mode, {'a': name, 'b': 'UV[0]', 'c': 'UV[1]'}[var], x, y, z, float(getattr(p, var)), v, conv, want))
    for x, y, z in case['p']:
        want = v * FACTOR[expect](x, y, z)
        for what, g, w in (('fieldset.%s[...]' % name, f[0., z, y, x], want), ('eval', f.eval(0., z, y, x), want),
                           ('eval without conversion', f.eval(0., z, y, x, applyConversion=False), v),
                           ('to_source of to_target', f.units.to_source(f.units.to_target(v, x, y, z), x, y, z), v),
                           ('to_target of to_source', f.units.to_target(f.units.to_source(v, x, y, z), x, y, z), v),
                           ('ccode_to_target', eval(f.units.ccode_to_target(x, y, z), {'cos': math.cos, 'pow': pow, 'M_PI': math.pi}), want / v),
                           ('ccode_to_source', eval(f.units.ccode_to_source(x, y, z), {'cos': math.cos, 'pow': pow, 'M_PI': math.pi}), v / want)):
            if not abs(float(g) - w) <= 1e-5 * abs(w) + 1e-30:
                raise Violation('%s of a field with value %r and converter %s at (%r, %r, %r) is %r instead of %r' % (what, v, expect, x, y, z, float(g), w))
    return {'nontrivial': expect != 'UnitConverter', 'labels': [expect, case['mesh']]}


@st.composite
def cells_s(draw):
    nx, ny = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    mesh = draw(st.sampled_from(['spherical', 'flat']))
    return {'mesh': mesh, 'dx': draw(st.lists(st.integers(1, 60), min_size=nx - 1, max_size=nx - 1)),
            'dy': draw(st.lists(st.integers(1, 30), min_size=ny - 1, max_size=ny - 1)), 'x0': draw(st.integers(-180, 0)), 'y0': draw(st.integers(-89, -62)),
            'scale': draw(st.sampled_from([1., .5, .25])) * (1 if mesh == 'spherical' else draw(st.sampled_from([1., 1000.]))),
            'flip': draw(st.booleans()), 's': draw(st.booleans()), 'other': draw(st.booleans()), 'order': draw(st.sampled_from(['areas', 'edges', 'both'])),
            'halo': draw(st.sampled_from([None, None, 'before', 'after', 'both'])), 'zonal': draw(st.booleans()), 'size': draw(st.integers(1, 2)),
            'w': draw(st.lists(st.integers(1, 9), min_size=1, max_size=5)), 'rel': draw(st.booleans())}


def gradient(v):
    n = len(v)
    out = []
    for i in range(n):
        if i == 0:
            out.append(v[1] - v[0])
        elif i == n - 1:
            out.append(v[-1] - v[-2])
        else:       # second-order difference of unevenly spaced points: d(index)/d(index) is even
            out.append((v[i + 1] - v[i - 1]) / 2)
    return np.array(out)


def run_cells(case):
    lon = (case['x0'] + np.cumsum([0] + case['dx']) * case['scale']).astype(F32)
    lat = (case['y0'] + np.cumsum([0] + case['dy']) * case['scale']).astype(F32)
    ny, nx = len(lat), len(lon)
    if case['mesh'] == 'spherical':
        lat = lat[:max(2, int(np.sum(lat < 89)))]
        ny = len(lat)
    latin = lat[::-1].copy() if case['flip'] else lat
    if case['s']:
        grid = RectilinearSGrid(lon, latin, np.broadcast_to(np.arange(2.)[:, None, None], (2, ny, nx)).astype(F32).copy(), mesh=case['mesh'])
    else:
        grid = RectilinearZGrid(lon, latin, depth=np.arange(2.).astype(F32), mesh=case['mesh'])
    data = np.ones((2, ny, nx), dtype=F32)
    fs = FieldSet(Field('U', data.copy(), grid=grid), Field('V', data.copy(), grid=grid), {'P': Field('P', data.copy(), grid=grid)})
    f = fs.P
    labels = [case['mesh']]

    def halo():
        nonlocal lon, lat
        k = min(case['size'], len(lon) if case['zonal'] else len(lat))
        fs.add_periodic_halo(zonal=case['zonal'], meridional=not case['zonal'], halosize=k)

        def ext(v):
            per = v[-1] - v[0] + v[1] - v[0]
            return np.concatenate((v[-k:] - per, v, v[:k] + per)).astype(F32)
        lon, lat = (ext(lon), lat) if case['zonal'] else (lon, ext(lat))

    def verify(when):
        cos = np.cos(np.radians(lat.astype(float))) if case['mesh'] == 'spherical' else np.ones(len(lat))
        m = M if case['mesh'] == 'spherical' else 1.
        ex = m * cos[:, None] * gradient(lon.astype(float))[None, :]
        ey = m * np.repeat(gradient(lat.astype(float))[:, None], len(lon), axis=1)
        if case['other']:
            fs.U.cell_areas()       # another field on the same grid
        if case['order'] != 'areas':
            f.calc_cell_edge_sizes()
            for d, e in (('x', ex), ('y', ey)):
                g = np.array(f.cell_edge_sizes[d])
                if g.shape != e.shape or not np.allclose(g, e, rtol=1e-4, atol=1e-3):
                    raise Violation('%s: cell edges in %s are %s instead of %s (lon %s, lat %s, %s)' % (when, d, g.tolist(), e.tolist(), lon, lat, case['mesh']))
        if case['order'] != 'edges':
            g = np.array(f.cell_areas())
            if g.shape != ex.shape or not np.allclose(g, ex * ey, rtol=2e-4, atol=1):
                raise Violation('%s: cell areas are %s instead of %s (lon %s, lat %s, %s)' % (when, g.tolist(), (ex * ey).tolist(), lon, lat, case['mesh']))
        return ex * ey
    usehalo = case['halo'] and (case['zonal'] or case['mesh'] == 'flat')
    if usehalo and case['halo'] in ('before', 'both'):
        halo()
        labels.append('halo before')
    area = verify('at first')
    if usehalo and case['halo'] in ('after', 'both'):
        halo()
        labels.append('halo after')
        area = verify('after adding a halo')
    area = verify('again')
    if not usehalo:
        # density per unit area
        n = len(case['w'])
        xi, yi = [(k * 7 + w) % (nx - 1) for k, w in enumerate(case['w'])], [(k * 5 + w) % (ny - 1) for k, w in enumerate(case['w'])]
        pset = ParticleSet(fs, pclass=PCL['jit'], lon=[(lon[i] * 3. + lon[i + 1]) / 4 for i in xi], lat=[(lat[j] + 2. * lat[j + 1]) / 3 for j in yi], time=0.,
                           lonlatdepth_dtype=np.float64)
        w = np.array(case['w']) / 2.
        d = pset.density(field_name='P', particle_val=w, relative=case['rel'], area_scale=True)
        want = np.zeros((ny, nx))
        for k in range(n):
            want[yi[k], xi[k]] += w[k]
        want = want / (w.sum() if case['rel'] else 1.) / area
        if d.shape != want.shape or not np.allclose(d, want, rtol=5e-4, atol=0):
            raise Violation('density per area of particles in cells %s with weights %s is %s instead of %s' % (list(zip(yi, xi)), w.tolist(), d.tolist(), want.tolist()))
        labels.append('density')
    return {'nontrivial': case['mesh'] == 'spherical' or len(set(case['dx'])) > 1 or len(set(case['dy'])) > 1, 'labels': labels}


SUBCHECKS = [Sub('units', units_s, run_units, quick=60, thorough=2000, budget=45),
             Sub('cells', cells_s, run_cells, quick=60, thorough=2000, budget=30)]
