"""Compaction by age, load and liquid water."""
from symx.api import Registry, cos, exp

from .common import FREEZE, RHO_W0, model, pack

CASES = Registry()
BOUNDS = ('any consistent pack of one or two layers (density 20..600 kg/m3, '
          'depth up to 12 m, mean temperature 220..273.16 K), melt and rain up '
          'to 60 kg/m2, time steps 60 s, 900 s, 1 h, 3 h')
PI = 3.141592653589793
DTS = [60, 900, 3600, 10800]
L12 = [('1layer', 1), ('2layers', 2)]


def setup(c, layers, dt, rho=(20.0, 600.0), inputs=None):
    sn = model(max_z=0.25, inputs=inputs or {})
    s = pack(c, sn, layers, rho=rho, cold=False, wet=False)
    s.t_s = c.real('t_s', 220.0, FREEZE)
    s.t_s_0 = s.t_s_l = s.t_s
    sn.time_step = dt
    return sn, s


@CASES.case('ageing', params=[('1layer', 1, 20.0, 0.0005, 12.0),
                              ('2layers-light', 2, 20.0, 0.25, 3.3),
                              ('2layers-deep', 2, 170.0, 3.3, 12.0)])
def ageing(c, layers, rlo, zlo, zhi):
    """density after one step of ageing"""
    dt = c.choice('time_step', DTS)
    sn = model(max_z=0.25, inputs={})
    s = pack(c, sn, layers, rho=(rlo, 600.0), z=(zlo, zhi), cold=False,
             wet=False)
    heavy = s.m_s >= 2000.0
    s.t_s = c.real('t_s', 220.0, FREEZE)
    s.t_s_0 = s.t_s_l = s.t_s
    sn.time_step = dt
    m, rho, z, t = s.m_s, s.rho, s.z_s, s.t_s
    sn.time_compact()
    c.observe('rho', s.rho)
    c.observe('z', s.z_s)
    if s.layer_count:
        c.close('mass is kept', s.m_s, m, 1e-9)
        c.ge('density never falls', s.rho, rho, 1e-9)
    if rho >= 550.0:
        c.close('dense snow no longer settles', s.rho, rho)
        c.close('dense snow keeps its depth', s.z_s, z)
        return
    if s.layer_count == 0:
        return
    rate = 1.0 if heavy else 23.5 * cos(PI * m / 2000.0) + 24.5
    rate = rate / (dt / 3600.0)
    k = 1.0 if rho < 100.0 else exp(-0.046 * (rho - 100.0))
    d = (0.01 * k * exp(-0.04 * (FREEZE - t)) +
         0.026 * exp(-0.08 * (FREEZE - t)) * m * exp(-21.0 * rho / RHO_W0)
         ) / rate
    c.close('density grows by metamorphism and load', s.rho, rho * (1 + d),
            1e-6, 1e-6)
    c.close('depth follows the density', s.z_s * s.rho, s.m_s, 1e-6, 1e-6)


@CASES.case('wetting', params=[(a + '-' + p, n, p) for a, n in L12
                               for p in ('dry', 'rain', 'mixed')])
def wetting(c, layers, precip):
    """half-saturation growth toward 550 with the added water"""
    inputs = {}
    if precip != 'dry':
        inputs = {'m_pp': c.real('m_pp', 0.001, 60.0), 't_pp': 275.0,
                  'rho_snow': 100.0, 'percent_snow': 0.0}
    if precip == 'mixed':
        inputs['percent_snow'] = c.real('percent_snow', 0.01, 0.99)
    sn, s = setup(c, layers, c.choice('time_step', DTS), inputs=inputs)
    s.melt = c.real('melt', 0.0, 60.0)
    m, rho, z = s.m_s, s.rho, s.z_s
    w = s.melt
    if precip != 'dry':
        w = w + inputs['m_pp'] * (1 - inputs['percent_snow'])
    sn.h2o_compact()
    c.observe('rho', s.rho)
    c.close('mass is kept', s.m_s, m, 1e-9)
    if rho > 550.0:
        c.close('dense snow is not changed', s.rho, rho)
        c.close('dense snow keeps its depth', s.z_s, z)
    elif w > 2e-6 * m:
        c.close('density grows with the added water', (s.rho - rho) *
                (w + 0.4 * m), (550.0 - rho) * w, 1e-6, 1e-6)
        c.close('depth follows the density', s.z_s * s.rho, m, 1e-6, 1e-6)
        c.le('not beyond the limit', s.rho, 550.0, 1e-6)
    elif w < 5e-7 * m:
        c.close('no water no change', s.rho, rho, 1e-9)


@CASES.case('bare')
def bare(c):
    sn = model(inputs={})
    sn.snowcover = False
    sn.time_step = 3600
    s = sn.snow_state
    s.melt = c.real('melt', 0.0, 10.0)
    sn.time_compact()
    sn.h2o_compact()
    c.close('bare ground has no density', s.rho, 0.0)
    c.close('bare ground has no depth', s.z_s, 0.0)
