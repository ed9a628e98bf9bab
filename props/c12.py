"""Exchange of vapour with air and soil."""
from symx.api import Registry, power

from .c14 import ice, water
from .common import FREEZE, MAX_DENSITY, VAP_SUB, model, pack, set_model

CASES = Registry()
BOUNDS = ('exchange with air and soil: 1 layer 100..450 kg/m3 x 0.1..0.24 m '
          'or 2 layers 0.5..12 m, 220..273.16 K, flux +-0.001 kg/m2/s, '
          'liquid water up to 5 kg/m2, frozen soil 240..273.16 K or thawed '
          'soil at 273.2, 285 and 300 K, measured at 0.05..1 m; exchange '
          'with the air only: density 20..600 kg/m3, depth up to 12 m, '
          'flux +-0.01 kg/m2/s, liquid water up to 60 kg/m2; time steps 60, '
          '900, 3600 s, for the air only also 3 h; air pressure of 2061 m and of 4300 m; removal threshold and active '
          'layer 1 kg/m2, 0.25 m, without the soil also 6 kg/m2, 0.1 m')
ASSUMPTIONS = ['an exchange does not exceed 90 % of the mass of the pack',
               'the pack stays above the removal threshold, except in the '
               'vanish case']
TH, MZ = 1.0, 0.25
MW, MA = 18.0153, 28.9644


def humidity(e, p):
    return e * MW / (MA * p + e * (MW - MA))


def soil_flux(sn, t, tg, zg, warm):
    """kg/m2/s into the pack, diffusion along the humidity difference"""
    p = sn.P_a
    mean = (t + tg) / 2.0
    dens = p * MA / (8314.32 * mean)
    k = 0.65 * (101324.6 / p) * power(mean / FREEZE, 14.0) * 1e-4
    eg = water(tg) if warm else ice(tg)
    return dens * k * (humidity(eg, p) - humidity(ice(t), p)) / zg


def build(c, layers, warm, elevation=2061.0):
    tg = c.choice('t_g_warm', [273.2, 285.0, 300.0]) if warm else \
        c.real('t_g', 240.0, FREEZE)
    zg = c.real('z_g', 0.05, 1.0)
    sn = model(max_z=MZ, thresholds=(60.0, 10.0, TH), elevation=elevation,
               inputs={'t_g': tg}, heights={'z_g': zg})
    s = pack(c, sn, layers, wet=False, rho=(100.0, 450.0),
             z=(0.1, 0.24) if layers == 1 else (0.0005, 12.0))
    if layers == 2:
        c.assume(s.z_s > 0.5)
    sn.time_step = c.choice('time_step', [60, 900, 3600])
    s.E = c.real('E', -0.001, 0.001)
    s.h2o_total = c.real('h2o_total', 0.0, 5.0)
    return sn, s, tg, zg


def used(h, e):
    """liquid water after its share of an exchange"""
    if h <= 0.0:
        return h
    h = h + e * VAP_SUB
    if h <= 0.0:
        return 0.0
    return h


def exchange(c, layers, warm, elevation):
    sn, s, tg, zg = build(c, layers, warm, elevation)
    m, z, rho, h = s.m_s, s.z_s, s.rho, s.h2o_total
    t = s.t_s_l if layers == 2 else s.t_s_0
    dt = sn.time_step
    e0 = s.E * dt
    flux = soil_flux(sn, t, tg, zg, warm) * dt
    sn.evap_cond()
    c.observe('E_s', s.E_s)
    c.observe('m_s', s.m_s)
    c.observe('h2o_total', s.h2o_total)
    c.close('exchanged mass', s.E_s, e0 + flux, 1e-7, 1e-7)
    # the rest follows from the reported exchange
    el = s.E_s - e0
    left = used(used(h, e0), el)
    dz = (s.E_s + h - left) / rho / 2.0
    c.close('mass changes by the exchange', s.m_s, m + s.E_s, 1e-7)
    c.close('liquid water takes its share', s.h2o_total, left, 1e-7, 1e-7)
    c.ge('liquid water not negative', s.h2o_total, 0.0)
    c.close('half of the ice is depth', s.z_s, z + dz, 1e-9, 1e-7)


CASES.case('exchange', params=[
    ('1layer', 1, False, 2061.0), ('2layers', 2, False, 2061.0),
    ('1layer-thaw', 1, True, 2061.0), ('2layers-thaw', 2, True, 2061.0),
    ('2layers-high', 2, True, 4300.0)])(exchange)


@CASES.case('surface', params=[('1layer', 1), ('2layers', 2)])
def surface(c, layers):
    """soil and snow in balance: only the air exchanges"""
    sn = set_model(c, inputs={'t_g': 268.0})
    s = pack(c, sn, layers, wet=False, cold=False)
    s.t_s_0 = 262.0 if layers == 2 else 268.0
    s.t_s_l = 268.0
    s.t_s = 266.0
    sn.time_step = c.choice('time_step', [60, 900, 3600, 10800])
    s.E = c.real('E', -0.01, 0.01)
    h = c.real('h2o_total', 0.0, 60.0)
    s.h2o_total = h
    m, z, rho = s.m_s, s.z_s, s.rho
    e = s.E * sn.time_step
    dz = (e + h - used(h, e)) / rho / 2.0
    c.assume(z + dz > 0.0001)
    c.assume(m + e > sn.given[0] + 0.001)
    c.assume(m + e > 0.1 * m)
    sn.evap_cond()
    c.close('exchanged mass', s.E_s, e, 1e-7)
    c.close('mass changes by the exchange', s.m_s, m + e, 1e-7)
    if m + e > MAX_DENSITY * (z + dz):
        c.close('density capped', s.rho, MAX_DENSITY, 1e-6)
    else:
        c.close('half of the ice is depth', s.z_s, z + dz, 1e-9, 1e-7)
    if h == 0.0:
        c.close('no liquid water comes of it', s.h2o_total, 0.0)
    elif h + e * VAP_SUB >= 0.0:
        c.close('share of liquid water', s.h2o_total, h + e * VAP_SUB, 1e-7)
    else:
        c.close('liquid water used up', s.h2o_total, 0.0)


@CASES.case('bare')
def bare(c):
    """no snow, no exchange, whatever was left of earlier steps"""
    sn = model(inputs={'t_g': 268.0})
    s = sn.snow_state
    sn.snowcover = False
    sn.time_step = 900
    s.E_s = c.real('E_s', -1.0, 1.0)
    s.E = c.real('E', -0.01, 0.01)
    h = c.real('h2o_total', 0.0, 60.0)
    s.h2o_total = h
    sn.evap_cond()
    c.close('nothing exchanged', s.E_s, 0.0)
    c.close('liquid water kept', s.h2o_total, h)
    c.close('no mass', s.m_s, 0.0)


@CASES.case('vanish', params=[('1layer', 1)])
def vanish(c, layers):
    """less than the threshold left after the exchange"""
    sn = set_model(c, inputs={'t_g': 268.0})
    s = pack(c, sn, layers, wet=False, cold=False)
    s.t_s_0 = s.t_s = s.t_s_l = 268.0
    sn.time_step = 60
    s.E = c.real('E', -0.2, -0.001)
    s.h2o_total = c.real('h2o_total', 0.0, 1.0)
    m = s.m_s
    e = s.E * 60
    c.assume(m + e < sn.given[0])
    c.assume(m + e > 0.0001)
    sn.evap_cond()
    c.close('rest becomes liquid water', s.h2o_total, m + e, 1e-7)
    c.close('no mass', s.m_s, 0.0)
    c.check('snowcover gone', not s.layer_count)
