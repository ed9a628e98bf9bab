"""Snowpack state consistency is kept by every process of a time step."""
from symx.api import Registry

from .common import FREEZE, GONE, consistent, pack, set_model

CASES = Registry()
BOUNDS = ('one process applied to any consistent pack: density 20..600 '
          'kg/m3, depth 0.0005..12 m, 1 or 2 layers, liquid water up to 10 % '
          'of the mass, time steps 60 s, 900 s, 1 h and 3 h; removal threshold '
          'and active layer 1 kg/m2, 0.25 m or 6 kg/m2, 0.1 m')
ASSUMPTIONS = ['melt, evaporation and runoff of one step do not exceed the '
               'mass of the pack']
L12 = [('1layer', 1), ('2layers', 2)]


def setup(c, layers, inputs=None, **kw):
    sn = set_model(c, inputs=inputs or {})
    s = pack(c, sn, layers, **kw)
    sn.time_step = c.choice('time_step', [60, 900, 3600, 10800])
    return sn, s


def after(c, sn, s, m0, cap=True):
    c.observe('m_s', s.m_s)
    c.observe('z_s', s.z_s)
    n = consistent(c, s, *sn.given, cap=cap)
    c.check('snowcover flag follows the ground', sn.snowcover == (n > 0))
    if n == 0:
        c.close('absent snow temperature', s.t_s, GONE)
        c.close('absent surface temperature', s.t_s_0, GONE)
    if n < 2:
        c.close('absent lower layer temperature', s.t_s_l, GONE)


@CASES.case('adjust', params=L12)
def adjust(c, layers):
    """any change of depth and of mass"""
    sn, s = setup(c, layers)
    dz = c.real('dz', -1.0, 3.0)
    dm = c.real('dm', -100.0, 500.0)
    m0, z0 = s.m_s, s.z_s
    c.assume(m0 + dm >= 0.0)
    c.assume(z0 + dz > 0.0)
    c.assume(dz != 0.0)
    sn.adj_snow(dz, dm)
    after(c, sn, s, m0)
    if s.layer_count:
        c.close('mass changed by the amount asked', s.m_s, m0 + dm, 1e-6)


@CASES.case('mass-only', params=L12)
def massonly(c, layers):
    sn, s = setup(c, layers)
    dm = c.real('dm', -100.0, 500.0)
    m0, z0 = s.m_s, s.z_s
    c.assume(m0 + dm > sn.given[0])
    sn.adj_snow(0.0, dm)
    c.close('mass changed by the amount asked', s.m_s, m0 + dm, 1e-6)
    c.close('layer masses add up', s.m_s_0 + s.m_s_l, s.m_s, 1e-6, 1e-9)
    c.close('layer depths add up', s.z_s_0 + s.z_s_l, s.z_s)
    c.close('mass=density*depth', s.rho * s.z_s, s.m_s, 1e-6, 1e-9)
    c.le('density cap', s.rho, 600.0, 1e-6)
    c.close('surface layer mass', s.m_s_0, s.rho * s.z_s_0, 1e-6, 1e-9)


@CASES.case('settle', params=L12)
def settle(c, layers):
    sn, s = setup(c, layers)
    sn.time_compact()
    after(c, sn, s, s.m_s, cap=False)


@CASES.case('wet-settle', params=L12)
def wet(c, layers):
    sn, s = setup(c, layers)
    s.melt = c.real('melt', 0.0, 50.0)
    sn.h2o_compact()
    after(c, sn, s, s.m_s)


@CASES.case('vanish', params=L12)
def vanish(c, layers):
    """less than the threshold left: the remainder becomes liquid water"""
    sn, s = setup(c, layers)
    m0 = s.m_s
    k = c.real('keep', 0.001, 0.999)
    left = c.real('left', 0.0, 6.0)
    c.assume(left <= sn.given[0])
    s.h2o_total = c.real('water', 0.0, 6.0)
    c.assume(s.h2o_total <= left)
    sn.adj_snow(-s.z_s * k, left - m0)
    n = s.layer_count
    c.check('no snow left', n == 0 and not s.snowcover)
    after(c, sn, s, m0)
    if left > 0.0:
        c.close('remaining mass became water', s.h2o_total, left, 1e-6)


@CASES.case('melt', params=L12)
def melting(c, layers):
    """melting takes depth, also more than there is"""
    sn, s = setup(c, layers, cold=False, wet=False)
    s.delta_Q_0 = c.real('delta_Q_0', 0.0, 3000.0)
    s.cc_s_0 = 0.0
    s.cc_s_l = 0.0
    s.G = s.G_0 = 0.0
    s.h2o_total = c.real('h2o_total', 0.0, 100.0)
    m0 = s.m_s
    sn.snowmelt()
    after(c, sn, s, m0)
    c.ge('depth not negative', s.z_s, 0.0)


@CASES.case('drain', params=L12)
def drain(c, layers):
    sn, s = setup(c, layers, cold=False, wet=False)
    w = c.real('h2o_total', 0.0, 200.0)
    c.assume(w < s.m_s)
    s.h2o_total = w
    m0, z0 = s.m_s, s.z_s
    sn.runoff()
    c.close('mass=density*depth', s.m_s, s.rho * s.z_s, 1e-6, 1e-9)
    c.close('layer depths add up', s.z_s_0 + s.z_s_l, s.z_s, 1e-9, 1e-9)
    c.close('layer masses add up', s.m_s_0 + s.m_s_l, s.m_s, 1e-6, 1e-9)
    c.close('surface layer mass', s.m_s_0, s.rho * s.z_s_0, 1e-6, 1e-9)
    c.le('density cap', s.rho, 600.0, 1e-6)


@CASES.case('snowfall', params=L12)
def snowfall(c, layers):
    sn, s = setup(c, layers, inputs={
        'm_pp': c.real('m_pp', 0.001, 100.0), 't_pp': 268.0,
        'percent_snow': c.real('percent_snow', 0.0, 1.0),
        'rho_snow': c.real('rho_snow', 30.0, 600.0)})
    m0 = s.m_s
    sn.precip_event()
    after(c, sn, s, m0)
    c.close('mass grows by the precipitation', s.m_s,
            m0 + sn.input1.m_pp, 1e-6, 1e-9)


@CASES.case('first-snow')
def first(c):
    """snow falling on bare ground"""
    sn = set_model(c, inputs={
        'm_pp': c.real('m_pp', 0.001, 300.0),
        't_pp': c.real('t_pp', 240.0, 285.0),
        'percent_snow': c.real('percent_snow', 0.0, 1.0),
        'rho_snow': c.real('rho_snow', 30.0, 600.0)})
    s = sn.snow_state
    sn.snowcover = False
    sn.precip_event()
    TH, MZ = sn.given
    n = consistent(c, s, TH, MZ)
    c.observe('n', n)
    m = sn.input1.m_snow
    if m > TH:
        c.check('snow stays', n > 0)
        c.close('mass is the snowfall', s.m_s, m, 1e-6, 1e-9)
        c.le('surface temperature', s.t_s_0, FREEZE)
        c.ge('liquid water not negative', s.h2o, 0.0)
        c.le('liquid water within capacity', s.h2o, s.h2o_max, 1e-6)
        c.le('cold content sign', s.cc_s_0 + s.cc_s_l, 0.0)
    else:
        c.check('a trace does not stay', n == 0)
