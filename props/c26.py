"""New snow on the ground and on the pack."""
from symx.api import Registry

from .common import (FREEZE, GONE, MAX_DENSITY, consistent, cp_ice, pack,
                     set_model)

CASES = Registry()
BOUNDS = ('precipitation 0.001..300 kg/m2 of any phase, new snow 20..600 '
          'kg/m3, 230..290 K, on bare ground or any consistent pack of one '
          'or two layers (20..600 kg/m3, up to 12 m); threshold '
          'and active layer 1 kg/m2, 0.25 m or 6 kg/m2, 0.1 m')
L12 = [('1layer', 1), ('2layers', 2)]


def build(c, kind):
    m = c.real('m_pp', 0.001, 300.0)
    f = {'rain': 0.0, 'snow': 1.0}.get(kind)
    if f is None:
        f = c.real('percent_snow', 0.01, 0.99)
    rho = c.real('rho_snow', 20.0, 600.0)
    t = c.real('t_pp', 230.0, 290.0)
    sn = set_model(c, inputs={
        'm_pp': m, 'percent_snow': f, 'rho_snow': rho, 't_pp': t})
    sn.snow_state.h2o_total = 0.0
    sn.time_step = 900
    return sn, sn.snow_state, m, f, rho, t


@CASES.case('ground', params=[('snow', 'snow'), ('mixed', 'mixed')])
def ground(c, kind):
    sn, s, m, f, rho, t = build(c, kind)
    sn.snowcover = False
    sn.precip_event()
    c.observe('m_s', s.m_s)
    snow = m * f
    wet = kind == 'mixed' or bool(t >= FREEZE)
    if snow <= sn.given[0]:
        c.check('too little for a pack', s.layer_count == 0)
        c.close('all of it is liquid', s.h2o_total, m, 1e-9)
        consistent(c, s, *sn.given)
        c.close('temperature of absent snow', s.t_s_0, GONE)
        return
    c.close('mass of the snow', s.m_s, snow, 1e-9)
    c.close('its density', s.rho, rho)
    c.close('its depth', s.z_s, snow / rho, 1e-9)
    consistent(c, s, *sn.given)
    ts = FREEZE if wet else t
    c.close('its temperature', s.t_s, ts)
    c.close('its surface temperature', s.t_s_0, ts)
    c.close('its cold content', s.cc_s, cp_ice(ts) * s.m_s * (ts - FREEZE),
            1e-3, 1e-9)
    c.close('its wetness', s.h2o_sat, 1.0 if wet else 0.0)
    if wet:
        c.close('saturated', s.h2o, s.h2o_max, 1e-9)
    else:
        c.close('dry', s.h2o, 0.0)
    c.close('its liquid water and the rain', s.h2o_total, s.h2o + m - snow,
            1e-9)
    if s.layer_count == 2:
        c.close('lower layer temperature', s.t_s_l, ts)


@CASES.case('ground-rain')
def rain(c):
    sn, s, m, f, rho, t = build(c, 'rain')
    sn.snowcover = False
    sn.precip_event()
    c.check('rain builds no snow', s.layer_count == 0)
    c.close('no mass', s.m_s, 0.0)
    c.close('all of it is liquid', s.h2o_total, m, 1e-9)


@CASES.case('pack', params=[('%s-%s' % (a, k), n, k) for a, n in L12
                            for k in ('rain', 'snow', 'mixed')])
def onpack(c, layers, kind):
    sn, s, m, f, rho, t = build(c, kind)
    pack(c, sn, layers, cold=False, wet=False)
    s.t_s_0 = s.t_s = s.t_s_l = c.real('t_s', 220.0, FREEZE)
    m0, z0, t0 = s.m_s, s.z_s, s.t_s_0
    sn.precip_event()
    c.observe('m_s', s.m_s)
    c.observe('z_s', s.z_s)
    c.close('mass adds up', s.m_s, m0 + m, 1e-6)
    z = z0 if kind == 'rain' else z0 + m * f / rho
    if m0 + m > MAX_DENSITY * z:
        c.close('density capped', s.rho, MAX_DENSITY, 1e-6)
    else:
        c.close('depth adds up', s.z_s, z, 1e-9)
        c.close('density of the mixture', s.rho * z, m0 + m, 1e-5)
    consistent(c, s, *sn.given)
    c.close('surface temperature stays', s.t_s_0, t0)


@CASES.case('dry-step', params=L12)
def dry(c, layers):
    """without precipitation only the held water joins the free water"""
    sn = set_model(c, inputs={})
    s = pack(c, sn, layers, cold=False)
    s.h2o_total = c.real('free', 0.0, 5.0)
    m, z, h, w = s.m_s, s.z_s, s.h2o, s.h2o_total
    sn.precip_event()
    c.close('mass stays', s.m_s, m)
    c.close('depth stays', s.z_s, z)
    c.close('held water joins', s.h2o_total, w + h, 1e-9)
