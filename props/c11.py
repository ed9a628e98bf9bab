"""Liquid water held by the pack and runoff."""
from symx.api import Registry

from .common import RHO_ICE, RHO_W0, consistent, model, pack

CASES = Registry()
BOUNDS = ('any consistent pack of one or two layers, density 20..600 kg/m3, '
          'depth up to 12 m, liquid water up to its mass, maximum water '
          'content 0 and 0.0001..0.1 of the pore volume, precipitation or melt on '
          'bare ground up to 300 kg/m2')
L12 = [('1layer', 1), ('2layers', 2)]


@CASES.case('drain', params=L12 + [('no-capacity', 1, True)])
def drain(c, layers, dry=False):
    """with dry: a pack that cannot hold any water"""
    cap = 0.0 if dry else c.real('max_h2o_vol', 0.0001, 0.1)
    sn = model(max_z=0.25, max_h2o=cap, inputs={})
    s = pack(c, sn, layers, cold=False, wet=False)
    w = c.real('h2o_total', 0.0, 300.0)
    c.assume(w < s.m_s)
    s.h2o_total = w
    m, z = s.m_s, s.z_s
    sn.runoff()
    c.observe('swi', s.swi)
    c.observe('h2o', s.h2o)
    most = cap * z * RHO_W0 * (1 - (m - w) / z / RHO_ICE)
    c.close('holding capacity', s.h2o_max, most, 1e-6, 1e-6)
    c.ge('runoff not negative', s.swi, 0.0)
    c.close('water stays or runs off', s.swi + s.h2o, w, 1e-6)
    c.close('runoff leaves the pack', s.m_s, m - s.swi, 1e-6)
    c.close('draining keeps the depth', s.z_s, z)
    c.le('held water within capacity', s.h2o, most, 1e-6)
    c.ge('held water not negative', s.h2o, 0.0)
    if w > most:
        c.close('only the excess runs off', s.swi, w - most, 1e-6)
        c.close('full saturation', s.h2o_sat, 1.0)
        c.close('full water content', s.h2o_vol, cap)
    else:
        c.close('nothing runs off', s.swi, 0.0)
        c.close('saturation is the filled share', s.h2o_sat * s.h2o_max, w,
                1e-6)
        c.close('water content', s.h2o_vol, s.h2o_sat * cap, 1e-9)


@CASES.case('bare')
def bare(c):
    """all water on bare ground runs off"""
    w = c.real('h2o_total', 0.0, 300.0)
    sn = model(inputs={})
    sn.snowcover = False
    sn.snow_state.h2o_total = w
    sn.runoff()
    c.close('everything runs off', sn.snow_state.swi, w)
    c.close('nothing is stored', sn.snow_state.m_s, 0.0)


@CASES.case('vanished', params=L12)
def vanished(c, layers):
    """the water of a pack that is gone runs off in the same step"""
    sn = model(max_z=0.25, thresholds=(60.0, 10.0, 1.0), inputs={})
    s = pack(c, sn, layers, cold=False, wet=False)
    left = c.real('left', 0.0, 1.0)
    s.h2o_total = 0.0
    sn.adj_snow(-0.9 * s.z_s, left - s.m_s)
    sn.runoff()
    c.close('what is left runs off', s.swi, left, 1e-6)
    c.close('no held water', s.h2o, 0.0)


@CASES.case('rain', params=L12)
def rain(c, layers):
    """rain joins the liquid water of the pack"""
    m = c.real('m_pp', 0.001, 100.0)
    f = c.real('percent_snow', 0.0, 1.0)
    rho = c.real('rho_snow', 20.0, 600.0)
    cap = c.choice('max_h2o_vol', [0.0, 0.01, 0.08])
    sn = model(max_z=0.25, max_h2o=cap, inputs={'m_pp': m, 'percent_snow': f,
                                   'rho_snow': rho, 't_pp': 275.0})
    s = pack(c, sn, layers, cold=False)
    sn.time_step = 900
    w = s.h2o
    sn.precip_event()
    if s.layer_count == 0:
        return
    r = sn.input1
    held = 0.0
    if r.m_snow > 0.0:
        held = cap * m * f / rho * RHO_W0 * (1 - rho / RHO_ICE)
    c.observe('h2o', s.h2o_total)
    c.close('rain and wet snow join the liquid water', s.h2o_total,
            w + r.m_rain + held, 1e-6)
