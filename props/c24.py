"""Heat advected by precipitation."""
from symx.api import Registry

from .common import FREEZE, cp_ice, cp_water, forcing, model

CASES = Registry()
BOUNDS = ('precipitation up to 200 kg/m2 of any phase, 240..300 K; surface '
          '220..273.16 K; time steps 60 s, 900 s, 1 h, 3 h; one data step divided '
          'into 1, 4, 6 or 60 steps')
KIND = {'rain': 0.0, 'snow': 1.0, 'mixed': None}


def build(c, kind, dt):
    f = KIND[kind]
    if f is None:
        f = c.real('percent_snow', 0.01, 0.99)
    m = c.real('m_pp', 0.001, 200.0)
    t = c.real('t_pp', 240.0, 300.0)
    sn = model(inputs={'m_pp': m, 'percent_snow': f, 't_pp': t,
                       'rho_snow': 100.0})
    s = sn.snow_state
    s.t_s_0 = c.real('t_s_0', 220.0, FREEZE)
    sn.time_step = dt
    return sn, s, m, f, t


def heat(m, f, t, surface):
    """J/m2 brought by a record of precipitation"""
    snow, rain = m * f, m - m * f
    q = 0.0
    if rain > 0.0:
        tr = t if t >= FREEZE else FREEZE
        q = q + cp_water(tr) * rain * (tr - surface)
        ts = FREEZE
    else:
        ts = t if t < FREEZE else FREEZE
    if snow > 0.0:
        q = q + cp_ice(ts) * snow * (ts - surface)
    return q


@CASES.case('heat', params=[(k, k) for k in sorted(KIND)])
def advected(c, kind):
    sn, s, m, f, t = build(c, kind, c.choice('time_step', [60, 900, 3600, 10800]))
    sn.advec()
    c.observe('M', s.M)
    c.close('heat of the precipitation', s.M * sn.time_step,
            heat(m, f, t, s.t_s_0), 1e-3, 1e-9)
    if t >= FREEZE and kind != 'snow':
        c.ge('warm rain never cools', s.M, 0.0)


@CASES.case('dry')
def dry(c):
    sn = model(inputs={'m_pp': 0.0, 'percent_snow': c.real('f', 0.0, 1.0),
                       't_pp': c.real('t_pp', 240.0, 300.0)})
    sn.snow_state.t_s_0 = c.real('t_s_0', 220.0, FREEZE)
    sn.snow_state.M = c.real('M', -1000.0, 1000.0)
    sn.advec()
    c.close('dry steps bring none', sn.snow_state.M, 0.0)


@CASES.case('divided', params=[('%s-%d' % (k, n), k, n) for k in sorted(KIND)
                               for n in (1, 4, 6, 60)])
def divided(c, kind, n):
    """the same heat from the record, however its step is divided"""
    from pysnobal.point import InputData, InputDeltas
    sn, s, m, f, t = build(c, kind, 3600 // n)
    later = InputData(forcing())
    d = InputDeltas(sn.input1, later, [
        {'level': 0, 'intervals_per_timestep': n}]).calculate()
    total = 0.0
    for _ in range(n):
        sn.input1.update_precip_deltas(d[0])
        sn.advec()
        total = total + s.M * sn.time_step
    c.close('heat of the whole record', total, heat(m, f, t, s.t_s_0), 1e-2,
            1e-9)
