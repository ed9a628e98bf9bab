"""Thermodynamic helper relations."""
from symx.api import Registry, exp, power

from .common import FREEZE, RHO_ICE, RHO_W0

CASES = Registry()
BOUNDS = ('temperatures 200..330 K, pressures 30..110 kPa, vapour pressures '
          '0.01..7000 Pa, elevations -400..9000 m, snow depth 0..20 m, '
          'density 20..900 kg/m3, masses 0.001..10000 kg/m2, energies '
          '+-1e8 J/m2')
MW = 18.0153 / 28.9644
RGAS = 8314.32


@CASES.case('pressure')
def pressure(c):
    from pysnobal.core.functions import hysat
    h = c.real('h', -0.4, 9.0)
    p = hysat(101324.6, 288.0, -6.5, h, 9.80665, 28.9644)
    c.observe('p', p)
    c.close('hydrostatic, linear temperature', p, 101324.6 * power(
        288.0 / (288.0 - 6.5 * h), 9.80665 * 28.9644 / (RGAS * -6.5e-3)),
        1e-3, 1e-6)
    c.close('base level', hysat(101324.6, 288.0, -6.5, 0.0, 9.80665,
                                28.9644), 101324.6, 1e-6)
    q = hysat(101324.6, 288.0, 0, h, 9.80665, 28.9644)
    c.close('hydrostatic, isothermal', q, 101324.6 * exp(
        -9.80665 * 28.9644 * h * 1e3 / (RGAS * 288.0)), 1e-3, 1e-6)


@CASES.case('pressure-falls')
def falls(c):
    from pysnobal.core.functions import hysat
    h1, h2 = c.real('h1', -0.4, 9.0), c.real('h2', -0.4, 9.0)
    c.assume(h2 > h1)
    a = hysat(101324.6, 288.0, -6.5, h1, 9.80665, 28.9644)
    b = hysat(101324.6, 288.0, -6.5, h2, 9.80665, 28.9644)
    c.observe('a', a)
    c.le('pressure falls with height', b, a, 1e-6)
    c.check('pressure positive', b > 0.0)


@CASES.case('model-pressure')
def mp(c):
    """the model uses the pressure of its site"""
    from .common import model
    e = c.real('elevation', -400.0, 9000.0)
    sn = model(elevation=e)
    c.observe('P_a', sn.P_a)
    c.close('site pressure', sn.P_a, 101324.6 * power(
        288.0 / (288.0 - 6.5 * e / 1000.0),
        9.80665 * 28.9644 / (RGAS * -6.5e-3)), 1e-3, 1e-6)


@CASES.case('heats')
def heats(c):
    from pysnobal.core import functions as f
    t = c.real('t', 200.0, 330.0)
    c.observe('lh', f.lh_sub(t))
    c.close('sublimation = vaporisation + fusion', f.lh_sub(t),
            f.lh_vap(t) + f.lh_fus(t), 1e-3)
    c.close('vaporisation', f.lh_vap(t), 2.5e6 - 2955.73 * (t - FREEZE), 1e-2)
    c.close('fusion', f.lh_fus(t), 3.336e5 + 166.67 * (FREEZE - t), 1e-2)
    c.close('specific heat of ice', f.cp_ice(t),
            4.186798188 * (24.928 + 1.76 * t), 1e-6)
    c.close('specific heat of water', f.cp_water(t),
            4217.7 - 2.55 * (t - FREEZE), 1e-6)
    c.close('kelvin to celsius', f.k_to_c(t), t - FREEZE)
    c.check('positive heats', f.lh_fus(t) > 0.0)
    c.check('ice heat capacity positive', f.cp_ice(t) > 0.0)


@CASES.case('moist-air')
def air(c):
    from pysnobal.core import functions as f
    from pysnobal.point.libsnobal import spec_hum
    t = c.real('t', 200.0, 330.0)
    p = c.real('p', 30000.0, 110000.0)
    e = c.real('e', 0.01, 7000.0)
    d = f.gas_density(p, 28.9644, t)
    c.observe('d', d)
    c.close('ideal gas law', d * RGAS * t, p * 28.9644, 1e-3)
    w, q = f.mix_ratio(e, p), spec_hum(e, p)
    c.observe('q', q)
    c.close('mixing ratio', w * (p - e), MW * e, 1e-6)
    c.close('specific humidity = w/(1+w)', q * (1 + w), w, 1e-9)
    c.check('humidity between 0 and 1', q > 0.0)
    c.check('humidity below the mixing ratio', q < w)
    v = f.virtual_temperature(t, e, p)
    c.close('virtual temperature', v * (1 - (1 - MW) * e / p), t, 1e-6)
    c.check('moist air is lighter', v > t)


@CASES.case('humidity-monotone')
def hm(c):
    from pysnobal.point.libsnobal import spec_hum
    p = c.real('p', 30000.0, 110000.0)
    e1, e2 = c.real('e1', 0.01, 7000.0), c.real('e2', 0.01, 7000.0)
    c.assume(e2 > e1)
    c.check('more vapour more humidity', spec_hum(e2, p) > spec_hum(e1, p))


@CASES.case('diffusion')
def diffusion(c):
    from pysnobal.core import functions as f
    t = c.real('t', 200.0, 330.0)
    p = c.real('p', 30000.0, 110000.0)
    k = f.diffusion_coef(p, t)
    c.observe('k', k)
    c.close('diffusion coefficient', k,
            0.65e-4 * (101324.6 / p) * power(t / FREEZE, 14), 1e-12, 1e-6)
    c.check('positive', k > 0.0)
    r = c.real('rho', 0.1, 2.0)
    q = c.real('q', -0.01, 0.01)
    z = c.real('z', 0.01, 1.0)
    v = f.vapor_flux(r, k, q, z)
    c.close('flux = density * coefficient * gradient', v * z, r * k * q,
            1e-12)


@CASES.case('average')
def average(c):
    from pysnobal.core.functions import time_average
    a, v = c.real('avg', -1e4, 1e4), c.real('value', -1e4, 1e4)
    t, d = c.real('t', 0.0, 1e5), c.real('dt', 1.0, 1e4)
    r = time_average(a, t, v, d)
    c.observe('r', r)
    c.close('weighted by time', r * (t + d), a * t + v * d, 1e-4)
    if a <= v:
        c.ge('not below both', r, a, 1e-6)
        c.le('not above both', r, v, 1e-6)
    else:
        c.ge('not below both ', r, v, 1e-6)
        c.le('not above both ', r, a, 1e-6)


@CASES.case('snow')
def snow(c):
    from pysnobal.core import snow as f
    from pysnobal.core.functions import cp_ice
    d = c.real('d', 0.0, 20.0)
    r = c.real('rho', 20.0, 900.0)
    sat = c.real('sat', 0.0, 0.2)
    w = f.h2o_left(d, r, sat)
    c.observe('w', w)
    c.close('water filling a share of the pores', w,
            sat * d * RHO_W0 * (1 - r / RHO_ICE), 1e-6)
    c.ge('held water not negative', w, 0.0)
    q = c.real('Q', -1e8, 1e8)
    c.close('melt', f.melt(q) * 3.336e5, q, 1e-3)
    m = c.real('m', 0.001, 1e4)
    t = c.real('t', 200.0, FREEZE)
    cc = f.heat_stor(cp_ice(t), m, t - FREEZE)
    c.close('heat stored', cc, cp_ice(t) * m * (t - FREEZE), 1e-3)
    c.close('temperature and cold content agree', f.new_tsno(m, t, cc), t,
            1e-6)
    k = c.real('cc', -1e7, 0.0)
    c.close('new temperature', (f.new_tsno(m, t, k) - FREEZE) *
            cp_ice(t) * m, k, 1e-3)
