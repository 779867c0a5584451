"""C22: the seawater property kernels evaluate the published equations of state."""
import math
import numpy as np
from hypothesis import strategies as st
from vp.core import Sub, Violation
from parcels import FieldSet, Field, ParticleSet, JITParticle, ScipyParticle, Variable
import parcels.kernels.EOSseawaterproperties as EOS
import parcels.kernels.TEOSseawaterdensity as TEOS

PROPERTY = 'C22'
RULE = ('one to four particles with generated latitude, depth, salinity, temperature and pressure (and reference pressure) over the range of the equations; '
        'non-trivial = salinity, temperature and pressure (resp. depth) of some particle are all non-zero')
ASSUMPTIONS = ['the polynomial of PolyTEOS10_bsq is the one of Roquet et al. without the reference profile r0(z)',
               'truncated digits of the coefficients of the UNESCO density are tolerated (2e-3 kg/m3)']

# ---- Fofonoff and Millard (1983), Bryden (1973); temperatures in IPTS-68, pressure in decibar
BRYDEN = {(0, 0, 0): 3.5803e-5, (0, 1, 0): 8.5258e-6, (0, 2, 0): -6.836e-8, (0, 3, 0): 6.6228e-10,
          (1, 0, 0): 1.8932e-6, (1, 1, 0): -4.2393e-8,
          (0, 0, 1): 1.8741e-8, (0, 1, 1): -6.7795e-10, (0, 2, 1): 8.733e-12, (0, 3, 1): -5.4481e-14,
          (1, 0, 1): -1.1351e-10, (1, 1, 1): 2.7759e-12,
          (0, 0, 2): -4.6206e-13, (0, 1, 2): 1.8676e-14, (0, 2, 2): -2.1687e-16}


def lapse(s, t68, p):
    return sum(c * (s - 35) ** i * t68 ** j * p ** k for (i, j, k), c in BRYDEN.items())


def adiabat(s, t90, p0, p1):
    """temperature after an adiabatic displacement from p0 to p1: one Runge-Kutta-Gill step of dT/dp = lapse rate"""
    r2 = math.sqrt(2)
    y, q, h = t90 * 1.00024, 0., p1 - p0
    for a, b, c, dp in ((1/2, 2, 1/2, 0), (1 - 1/r2, 1, 1 - 1/r2, .5), (1 + 1/r2, 1, 1 + 1/r2, .5), (1/6, 2, 1/2, 1)):
        k = h * lapse(s, y, p0 + dp * h)
        d = a * (k - b * q)
        y, q = y + d, q + 3 * d - c * k
    return y / 1.00024


def adiabat_fine(s, t90, p0, p1, n=60):
    y, h = t90 * 1.00024, (p1 - p0) / n
    for i in range(n):
        p = p0 + i * h
        k1 = lapse(s, y, p)
        k2 = lapse(s, y + h * k1 / 2, p + h / 2)
        k3 = lapse(s, y + h * k2 / 2, p + h / 2)
        k4 = lapse(s, y + h * k3, p + h)
        y += h * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    return y / 1.00024


def poly(c, x):
    return sum(a * x ** i for i, a in enumerate(c))


def eos80(s, t, p):
    """density from salinity, temperature and pressure in bar"""
    rho = poly([999.842594, 6.793952e-2, -9.095290e-3, 1.001685e-4, -1.120083e-6, 6.536332e-9], t)
    rho += s * poly([8.24493e-1, -4.0899e-3, 7.6438e-5, -8.2467e-7, 5.3875e-9], t)
    rho += s ** 1.5 * poly([-5.72466e-3, 1.0227e-4, -1.6546e-6], t) + 4.8314e-4 * s * s
    k = poly([19652.21, 148.4206, -2.327105, 1.360477e-2, -5.155288e-5], t)
    k += s * poly([54.6746, -0.603459, 1.09987e-2, -6.1670e-5], t) + s ** 1.5 * poly([7.944e-2, 1.6483e-2, -5.3009e-4], t)
    a = poly([3.239908, 1.43713e-3, 1.16092e-4, -5.77905e-7], t) + s * poly([2.2838e-3, -1.0981e-5, -1.6078e-6], t) + 1.91075e-4 * s ** 1.5
    b = poly([8.50935e-5, -6.12293e-6, 5.2787e-8], t) + s * poly([-9.9348e-7, 2.0816e-8, 9.1697e-10], t)
    return rho / (1 - p / (k + a * p + b * p * p))


# ---- Roquet et al. (2015), coefficients R_ijk of ss^i tt^j zz^k
TEOS10 = {(0, 0, 0): 8.0189615746e+02, (1, 0, 0): 8.6672408165e+02, (2, 0, 0): -1.7864682637e+03, (3, 0, 0): 2.0375295546e+03,
          (4, 0, 0): -1.2849161071e+03, (5, 0, 0): 4.3227585684e+02, (6, 0, 0): -6.0579916612e+01, (0, 1, 0): 2.6010145068e+01,
          (1, 1, 0): -6.5281885265e+01, (2, 1, 0): 8.1770425108e+01, (3, 1, 0): -5.6888046321e+01, (4, 1, 0): 1.7681814114e+01,
          (5, 1, 0): -1.9193502195e+00, (0, 2, 0): -3.7074170417e+01, (1, 2, 0): 6.1548258127e+01, (2, 2, 0): -6.0362551501e+01,
          (3, 2, 0): 2.9130021253e+01, (4, 2, 0): -5.4723692739e+00, (0, 3, 0): 2.1661789529e+01, (1, 3, 0): -3.3449108469e+01,
          (2, 3, 0): 1.9717078466e+01, (3, 3, 0): -3.1742946532e+00, (0, 4, 0): -8.3627885467e+00, (1, 4, 0): 1.1311538584e+01,
          (2, 4, 0): -5.3563304045e+00, (0, 5, 0): 5.4048723791e-01, (1, 5, 0): 4.8169980163e-01, (0, 6, 0): -1.9083568888e-01,
          (0, 0, 1): 1.9681925209e+01, (1, 0, 1): -4.2549998214e+01, (2, 0, 1): 5.0774768218e+01, (3, 0, 1): -3.0938076334e+01,
          (4, 0, 1): 6.6051753097e+00, (0, 1, 1): -1.3336301113e+01, (1, 1, 1): -4.4870114575e+00, (2, 1, 1): 5.0042598061e+00,
          (3, 1, 1): -6.5399043664e-01, (0, 2, 1): 6.7080479603e+00, (1, 2, 1): 3.5063081279e+00, (2, 2, 1): -1.8795372996e+00,
          (0, 3, 1): -2.4649669534e+00, (1, 3, 1): -5.5077101279e-01, (0, 4, 1): 5.5927935970e-01, (0, 0, 2): 2.0660924175e+00,
          (1, 0, 2): -4.9527603989e+00, (2, 0, 2): 2.5019633244e+00, (0, 1, 2): 2.0564311499e+00, (1, 1, 2): -2.1311365518e-01,
          (0, 2, 2): -1.2419983026e+00, (0, 0, 3): -2.3342758797e-02, (1, 0, 3): -1.8507636718e-02, (0, 1, 3): 3.7969820455e-01}


def teos10(sa, ct, z):
    ss, tt, zz = math.sqrt((sa + 32) / (40 * 35.16504 / 35)), ct / 40, z / 1e4
    return sum(c * ss ** i * tt ** j * zz ** k for (i, j, k), c in TEOS10.items())


def pressure(lat, depth):
    """Saunders (1981): root of depth = (1 - c1) p - 2.21e-6 p^2"""
    c1 = (5.92 + 5.25 * math.sin(math.radians(lat)) ** 2) * 1e-3
    p = depth
    for _ in range(60):
        p = (depth + 2.21e-6 * p * p) / (1 - c1)
    return p


# check values printed in the publications
assert abs(lapse(40, 40, 10000) - 3.255976e-4) < 1e-9
assert abs(adiabat(40, 40 / 1.00024, 10000, 0) * 1.00024 - 36.89073) < 1e-4
assert abs(eos80(35, 25, 1000) - 1062.53817) < 1e-4 and abs(eos80(35, 5, 0) - 1027.67547) < 1e-4
assert abs(teos10(30, 10, 1000) - 1022.85377) < 1e-4
assert abs(pressure(30, 7321.45) - 7500.) < .02

KERNELS = ['PressureFromLatDepth', 'AdiabticTemperatureGradient', 'PtempFromTemp', 'TempFromPtemp', 'UNESCODensity', 'PolyTEOS10_bsq']


def mk(base):
    class P(base):
        S = Variable('S', dtype=np.float64, initial=35.)
        T = Variable('T', dtype=np.float64, initial=10.)
        pressure = Variable('pressure', dtype=np.float64, initial=0.)
        adtg = Variable('adtg', dtype=np.float64, initial=0.)
        potemp = Variable('potemp', dtype=np.float64, initial=0.)
        temp = Variable('temp', dtype=np.float64, initial=0.)
        density = Variable('density', dtype=np.float64, initial=0.)
    P.__name__ = 'C22' + base.__name__
    return P


PCL = {'jit': mk(JITParticle), 'scipy': mk(ScipyParticle)}
OUT = {'PressureFromLatDepth': 'pressure', 'AdiabticTemperatureGradient': 'adtg', 'PtempFromTemp': 'potemp', 'TempFromPtemp': 'temp'}


@st.composite
def eos_s(draw):
    f = lambda lo, hi: st.floats(lo, hi, width=32)      # noqa: E731
    kern = draw(st.sampled_from(KERNELS))
    return {'kern': kern, 'mode': draw(st.sampled_from(['jit', 'scipy'])),
            'p': [{'lat': draw(f(-90, 90)), 'depth': draw(f(0, 10000)), 'S': draw(f(0, 42)), 'T': draw(f(-2, 40)),
                   'pressure': draw(f(0, 1000 if kern == 'UNESCODensity' else 10000))} for _ in range(draw(st.integers(1, 4)))],
            'refp': draw(st.one_of(st.just(0.), f(0, 10000)))}


def run(case, p=None, kern=None, refp=None):
    p, kern, refp = p or case['p'], kern or case['kern'], case['refp'] if refp is None else refp
    names = {'psu_salinity': 'S', 'temperature': 'T', 'potemperature': 'T', 'abs_salinity': 'S', 'cons_temperature': 'T', 'cons_pressure': 'pressure'}
    lat, lon = np.array([-90., 90.]), np.arange(len(p) + 1.)
    zero = np.zeros((2, len(lon)), dtype=np.float32)
    fs = FieldSet.from_data({'U': zero, 'V': zero}, {'lon': lon, 'lat': lat}, mesh='flat')
    for n, v in names.items():
        fs.add_field(Field(n, np.tile(np.array([q[v] for q in p] + [0.], dtype=np.float32), (2, 1)), lon=lon, lat=lat, mesh='flat',
                           allow_time_extrapolation=True))
    fs.add_constant('refpressure', refp)
    pset = ParticleSet(fs, pclass=PCL[case['mode']], lon=lon[:-1], lat=[q['lat'] for q in p], depth=[q['depth'] for q in p],
                       S=[q['S'] for q in p], T=[q['T'] for q in p], pressure=[q['pressure'] for q in p], lonlatdepth_dtype=np.float64)
    pset.execute(pset.Kernel(getattr(EOS, kern, None) or getattr(TEOS, kern)), runtime=0, dt=0, verbose_progress=False)
    return [float(getattr(q, OUT.get(kern, 'density'))) for q in pset]


def run_eos(case):
    got = run(case)
    nontrivial = False
    for k, (q, g) in enumerate(zip(case['p'], got)):
        s, t, pr, kern = q['S'], q['T'], q['pressure'], case['kern']
        if kern == 'PressureFromLatDepth':
            # depth = (1-c1) p - c2 p^2 solved for p: in single precision the root loses digits
            want, tol = pressure(q['lat'], q['depth']), .2 if case['mode'] == 'jit' else 1e-5
        elif kern == 'AdiabticTemperatureGradient':
            want = lapse(s, t * 1.00024, pr)
            tol = 1e-9
        elif kern in ('PtempFromTemp', 'TempFromPtemp'):
            p0, p1 = (pr, case['refp']) if kern == 'PtempFromTemp' else (case['refp'], pr)
            want, tol = adiabat(s, t, p0, p1), 2e-4 if case['mode'] == 'jit' else 2e-5
            fine = adiabat_fine(s, t, p0, p1)
            if abs(want - fine) > 5e-3:      # far from the range the scheme was made for
                tol = 1e-3
        elif kern == 'UNESCODensity':
            want, tol = eos80(s, t, pr), 4e-3 if case['mode'] == 'jit' else 2e-3
        else:
            want, tol = teos10(s, t, q['depth']), 1e-2 if case['mode'] == 'jit' else 1e-4
        if not abs(g - want) <= tol:
            raise Violation('%s: %s for particle %d (%s, reference pressure %s) is %r, the published equation gives %r'
                            % (case['mode'], kern, k, q, case['refp'], g, want))
        nontrivial = nontrivial or bool(s and t and (q['depth'] if kern in ('PressureFromLatDepth', 'PolyTEOS10_bsq') else pr))
    if case['kern'] == 'PtempFromTemp':
        # going to the reference pressure and back gives the temperature
        back = run(case, [dict(q, T=g) for q, g in zip(case['p'], got)], 'TempFromPtemp')
        for q, b in zip(case['p'], back):
            if abs(b - q['T']) > 3e-3:
                raise Violation('%s: potential temperature of %s converted back at reference pressure %s is %r' % (case['mode'], q, case['refp'], b))
    return {'nontrivial': nontrivial, 'labels': [case['kern'], case['mode']]}


SUBCHECKS = [Sub('eos', eos_s, run_eos, quick=150, thorough=4000, budget=50)]
