"""Rain, snow and mixed precipitation."""
from symx.api import Registry

from .common import FREEZE, forcing

CASES = Registry()
BOUNDS = ('precipitation 0..200 kg/m2, snow fraction 0..1, snow density '
          '-50..600 kg/m3, precipitation temperature 230..300 K')


def record(c, **kw):
    from pysnobal.point import InputData
    return InputData(forcing(**kw))


@CASES.case('partition')
def partition(c):
    m = c.real('m_pp', 0.0, 200.0)
    f = c.real('percent_snow', 0.0, 1.0)
    rho = c.real('rho_snow', 0.001, 600.0)
    t = c.real('t_pp', 230.0, 300.0)
    r = record(c, m_pp=m, percent_snow=f, rho_snow=rho, t_pp=t)
    c.observe('m_snow', r.m_snow)
    c.observe('z_snow', r.z_snow)
    c.close('rain and snow make up the precipitation', r.m_rain + r.m_snow,
            m, 1e-9)
    c.ge('rain not negative', r.m_rain, 0.0)
    c.ge('snow not negative', r.m_snow, 0.0)
    c.close('snow is its share', r.m_snow, m * f, 1e-9)
    c.check('flag exactly when precipitation falls',
            bool(r.precip_now) == bool(m > 0.0))
    c.close('new snow depth from its density', r.z_snow * rho, r.m_snow,
            1e-6)
    if m > 0.0:
        if f > 0.0 and r.m_rain > 0.0:
            c.close('mixed: snow at freezing', r.t_snow, FREEZE)
            c.close('mixed: snow saturated', r.h2o_sat_snow, 1.0)
            c.close('mixed: rain at its temperature, not below freezing',
                    r.t_rain, t if t > FREEZE else FREEZE)
        elif f > 0.0:
            if t < FREEZE:
                c.close('cold snow at its temperature', r.t_snow, t)
                c.close('cold snow is dry', r.h2o_sat_snow, 0.0)
            else:
                c.close('warm snow at freezing', r.t_snow, FREEZE)
                c.close('warm snow saturated', r.h2o_sat_snow, 1.0)
        else:
            c.close('rain not below freezing', r.t_rain,
                    t if t > FREEZE else FREEZE)
            c.close('rain brings no depth', r.z_snow, 0.0)
    else:
        c.close('nothing falls', r.z_snow, 0.0)


@CASES.case('bad-density')
def bad(c):
    """snow without a density is rejected"""
    m = c.real('m_pp', 0.001, 200.0)
    f = c.real('percent_snow', 0.01, 1.0)
    rho = c.real('rho_snow', -50.0, 0.0)
    try:
        record(c, m_pp=m, percent_snow=f, rho_snow=rho, t_pp=268.0)
    except ValueError:
        c.check('rejected', True)
    else:
        c.fail('rejected')


@CASES.case('rain-any-density')
def anyrho(c):
    """the density of snow does not matter for rain or dry hours"""
    m = c.choice('m', [0.0, 5.0])
    rho = c.real('rho_snow', -50.0, 600.0)
    r = record(c, m_pp=m, percent_snow=0.0, rho_snow=rho, t_pp=275.0)
    c.close('no snow', r.m_snow, 0.0)
    c.close('no depth', r.z_snow, 0.0)
    c.close('all rain', r.m_rain, m)
