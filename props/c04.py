"""Energy is conserved by melting and refreezing."""
from symx.api import Registry

from .common import LH_FUS, MAX_DENSITY, consistent, model, pack, set_model

CASES = Registry()
BOUNDS = ('any pack of 1 or 2 layers (density 20..600 kg/m3, depth 0.0005..12 '
          'm), cold contents 0..-2e7 J/m2, liquid water 0..200 kg/m2, surface '
          'and lower-layer energy -2000..2000 W/m2, time steps 60 s, 900 '
          's, 1 h, 3 h; removal threshold and active layer 1 kg/m2, 0.25 m '
          'or 6 kg/m2, 0.1 m')
OUTSIDE = 'steps in which melting removes a layer or the whole pack ' \
    '(the cold content of the removed layer is dropped by design)'
ASSUMPTIONS = ['cold contents are at most zero before the step']


def start(c, layers):
    sn = set_model(c, inputs={})
    s = pack(c, sn, layers, cold=False, wet=False)
    sn.time_step = c.choice('time_step', [60, 900, 3600, 10800])
    s.cc_s_0 = c.real('cc_s_0', -2e7, 0.0)
    s.cc_s_l = c.real('cc_s_l', -2e7, 0.0) if layers == 2 else 0
    s.delta_Q_0 = c.real('delta_Q_0', -2000.0, 2000.0)
    s.G = c.real('G', -500.0, 500.0)
    s.G_0 = c.real('G_0', -500.0, 500.0) if layers == 2 else s.G
    s.h2o_total = c.real('h2o_total', 0.0, 200.0)
    return sn, s


def phase(c, layers, sign):
    sn, s = start(c, layers)
    cc0, ccl, w0 = s.cc_s_0, s.cc_s_l, s.h2o_total
    m0, z0, rho0 = s.m_s, s.z_s, s.rho
    f0, fl = s.z_s_0 / s.z_s, s.z_s_l / s.z_s
    q0 = s.delta_Q_0 * sn.time_step + cc0
    ql = (s.G - s.G_0) * sn.time_step + ccl if layers == 2 else 0.0
    if sign[0] == '+':
        c.assume(q0 > 0)
    else:
        c.assume(q0 <= 0)
    if layers == 2:
        if sign[1] == '+':
            c.assume(ql > 0)
        else:
            c.assume(ql <= 0)

    sn.snowmelt()

    melt = s.melt
    c.observe('melt', melt)
    exp_melt = 0.0
    if sign[0] == '+':
        exp_melt = exp_melt + q0 / LH_FUS
    if layers == 2 and sign[1] == '+':
        exp_melt = exp_melt + ql / LH_FUS
    c.close('melt is the surplus energy over the heat of fusion', melt,
            exp_melt, 1e-7, 1e-7)
    if s.layer_count != layers:
        c.ge('melt is not negative', melt, 0.0, 1e-9)
        return
    refrozen = w0 + melt - s.h2o_total
    c.observe('h2o_total', s.h2o_total)
    c.observe('cc', s.cc_s_0 + s.cc_s_l)
    c.ge('refreezing is not negative', refrozen, 0.0, 1e-6)
    c.ge('no more refreezes than is there', s.h2o_total, 0.0, 1e-6)
    c.le('surface not above freezing', s.cc_s_0, 0.0, 1e-3)
    c.le('lower layer not above freezing', s.cc_s_l, 0.0, 1e-3)
    c.close('energy conserved',
            s.cc_s_0 + s.cc_s_l + LH_FUS * (melt - refrozen),
            cc0 + ccl + s.delta_Q_0 * sn.time_step +
            ((s.G - s.G_0) * sn.time_step if layers == 2 else 0.0),
            0.05, 0.0)
    # each layer: frozen water is limited by its share and by its deficit
    w = w0 + exp_melt
    if sign[0] == '-':
        if w * f0 * LH_FUS <= -q0:
            c.close('cold surface freezes its share', s.cc_s_0,
                    q0 + w * f0 * LH_FUS, 0.05, 1e-9)
        else:
            c.close('surface warmed to freezing', s.cc_s_0, 0.0, 0.05)
    else:
        c.close('melting surface is at freezing', s.cc_s_0, 0.0, 0.05)
    if layers == 2:
        if sign[1] == '-':
            if w * fl * LH_FUS <= -ql:
                c.close('cold lower layer freezes its share', s.cc_s_l,
                        ql + w * fl * LH_FUS, 0.05, 1e-9)
            else:
                c.close('lower layer warmed to freezing', s.cc_s_l, 0.0,
                        0.05)
        else:
            c.close('melting lower layer is at freezing', s.cc_s_l, 0.0,
                    0.05)
    c.close('mass unchanged', s.m_s, m0, 1e-6, 1e-9)
    if melt > 0.0:
        # the ice that melted stood as snow
        z = z0 - melt / rho0
        if m0 > MAX_DENSITY * z:
            c.close('density capped', s.rho, MAX_DENSITY, 1e-6)
            z = m0 / MAX_DENSITY
        c.close('depth of the melted snow is gone', s.z_s, z, 1e-8, 1e-7)
    else:
        c.close('depth unchanged', s.z_s, z0, 1e-9)
    c.close('layer masses add up', s.m_s_0 + s.m_s_l, s.m_s, 1e-6, 1e-9)


CASES.case('one', params=[('freeze', 1, '-'), ('melt', 1, '+')])(phase)
CASES.case('two', params=[('ff', 2, '--'), ('fm', 2, '-+'), ('mf', 2, '+-'),
                          ('mm', 2, '++')])(phase)


@CASES.case('bare')
def bare(c):
    sn = model(inputs={})
    s = sn.snow_state
    sn.snowcover = False
    sn.time_step = 3600
    s.h2o_total = c.real('h2o_total', 0.0, 200.0)
    w = s.h2o_total
    s.delta_Q_0 = c.real('delta_Q_0', -2000.0, 2000.0)
    s.melt = c.real('stale', 0.0, 5.0)
    sn.snowmelt()
    c.close('nothing melts without snow', s.melt, 0.0)
    c.close('water untouched', s.h2o_total, w)
