"""Builders shared by the harnesses: model objects made by the real
constructors, then given symbolic state through their public attributes."""
import datetime

from symx.api import exp, log, power, sqrt  # noqa: F401

FREEZE = 273.16
RHO_W0 = 999.87
RHO_ICE = 917.0
MAX_DENSITY = 600.0
VAP_SUB = 2.501 / 2.835
LH_FUS = 3.336e5
GONE = -75 + FREEZE          # temperature reported for absent snow
START = datetime.datetime(2000, 1, 1)

ENERGY = ['R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0']


def cp_ice(t):
    """J/(kg K), CRC fit: 4.186798188 * (24.928 + 1.76 t)"""
    return 4.186798188 * (24.928 + 1.76 * t)


def cp_water(t):
    return 4217.7 - 2.55 * (t - FREEZE)


def lh_vap(t):
    return 2.5e6 - 2955.73 * (t - FREEZE)


def lh_fus(t):
    return 3.336e5 + 166.67 * (FREEZE - t)


def lh_sub(t):
    return lh_vap(t) + lh_fus(t)


def steps(thresholds=(60.0, 10.0, 1.0), minutes=(60, 15, 1)):
    n, m, s = minutes
    per = (1, n // m, n // s)
    itv = (1, n // m, m // s)
    return [{'level': i, 'output': i == 0, 'threshold': thresholds[i],
             'time_step': minutes[i] * 60,
             'time_step_timedelta': datetime.timedelta(minutes=minutes[i]),
             'intervals': itv[i], 'intervals_per_timestep': per[i]}
            for i in range(3)]


def forcing(**kw):
    d = {'S_n': 0.0, 'I_lw': 250.0, 't_a': 270.0, 'e_a': 300.0, 'u': 3.0,
         't_g': 272.0, 'm_pp': 0.0, 'percent_snow': 0.0, 'rho_snow': 0.0,
         't_pp': 270.0}
    d.update(kw)
    return d


def model(elevation=2061.0, max_z=0.25, max_h2o=0.01, thresholds=None,
          minutes=(60, 15, 1), initial=None, heights=None, mode='normal',
          relative=False, inputs=None):
    """a Snobal over bare ground (or the given initial snow)"""
    from pysnobal.point import InputData, Snobal
    ts = steps(thresholds or (60.0, 10.0, 1.0), minutes)
    ini = {'z_s': 0.0, 'rho': 0.0, 't_s_0': 0.0, 't_s': 0.0, 'h2o_sat': 0.0,
           'z_0': 0.005}
    ini.update(initial or {})
    hts = {'z_u': 5.0, 'z_t': 5.0, 'z_g': 0.5, 'relative_heights': relative}
    hts.update(heights or {})
    params = {'elevation': elevation, 'start_date': START,
              'max_z_s_0': max_z, 'max_h2o_vol': max_h2o,
              'relative_heights': relative}
    sn = Snobal(params, ts, ini, hts, mode)
    sn.time_step = 3600
    sn.tstep_level = 0
    if inputs is not None:
        sn.input1 = InputData(forcing(**inputs))
    return sn


def pack(c, sn, layers, rho=(20.0, 600.0), z=(0.0005, 12.0), cold=True,
         wet=True, name='', tmin=220.0):
    """put a consistent snowpack of the given number of layers on the
    ground: any depth and density for which the layering rule yields that
    many layers"""
    s = sn.snow_state
    r = c.real(name + 'rho', *rho)
    if layers == 2:
        # the lower layer as the unknown keeps signs evident
        d = s.max_z_s_0 + c.real(name + 'z_lower', 1e-6,
                                 z[1] - s.max_z_s_0)
    else:
        d = c.real(name + 'z_s', *z)
    s.rho = r
    s.z_s = d
    s.m_s = r * d
    s.calc_layers()
    c.assume(s.layer_count == layers)
    s.layer_mass()
    if cold:
        t0 = c.real(name + 't_s_0', tmin, FREEZE)
        s.t_s_0 = t0
        s.cc_s_0 = cp_ice(t0) * s.m_s_0 * (t0 - FREEZE)
        if layers == 2:
            tl = c.real(name + 't_s_l', tmin, FREEZE)
            s.t_s_l = tl
            s.cc_s_l = cp_ice(tl) * s.m_s_l * (tl - FREEZE)
            s.t_s = c.real(name + 't_s', tmin, FREEZE)
        else:
            s.t_s_l = GONE
            s.cc_s_l = 0.0
            s.t_s = t0
    if wet:
        s.h2o = c.real(name + 'h2o', 0.0, 60.0)
        c.assume(s.h2o <= 0.1 * s.m_s)
        s.h2o_sat = c.real(name + 'h2o_sat', 0.0, 1.0)
        s.h2o_vol = s.h2o_sat * s.max_h2o_vol
        s.h2o_max = c.real(name + 'h2o_max', 0.0, 60.0)
    s.h2o_total = 0.0
    sn.snowcover = True
    return s


# removal threshold (kg/m2) and depth of the active layer (m)
SETTINGS = [(1.0, 0.25), (6.0, 0.1)]


def set_model(c, **kw):
    """a model under one of the settings, which it carries as .given"""
    th, mz = c.choice('settings', SETTINGS)
    sn = model(max_z=mz, thresholds=(60.0, 10.0, th), **kw)
    sn.given = th, mz
    return sn


def consistent(c, s, th, max_z, tag='', cap=True):
    """the state invariants of a snowpack"""
    n = s.layer_count
    c.close(tag + 'mass=density*depth', s.m_s, s.rho * s.z_s, 1e-6, 1e-9)
    c.close(tag + 'layer depths add up', s.z_s_0 + s.z_s_l, s.z_s, 1e-9,
            1e-9)
    c.close(tag + 'layer masses add up', s.m_s_0 + s.m_s_l, s.m_s, 1e-6,
            1e-9)
    if cap:
        c.le(tag + 'density cap', s.rho, MAX_DENSITY, 1e-6)
    if n == 0:
        bare(c, s, tag)
    elif n == 1:
        c.check(tag + 'above threshold', s.m_s > th)
        c.close(tag + 'single layer', s.z_s_l, 0.0)
        c.close(tag + 'absent layer cold content', s.cc_s_l, 0.0)
    else:
        c.check(tag + 'above threshold', s.m_s > th)
        c.close(tag + 'surface layer depth', s.z_s_0, max_z)
    return n


def bare(c, s, tag=''):
    for f in ('z_s', 'z_s_0', 'z_s_l', 'rho', 'm_s', 'm_s_0', 'm_s_l',
              'cc_s_0', 'cc_s_l', 'h2o', 'h2o_vol', 'h2o_sat'):
        c.close(tag + 'bare ground ' + f, getattr(s, f), 0.0)
