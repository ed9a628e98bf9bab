"""Energy and water of a whole time step, driven by the forcing."""
from symx.api import Registry

from .c12 import used
from .c21 import Recorder
from .common import (FREEZE, GONE, LH_FUS, RHO_ICE, RHO_W0, VAP_SUB,
                     cp_ice, forcing, model)

CASES = Registry()
BOUNDS = ('one whole time step of 15 min or 1 h on five packs (80 kg/m3 x '
          '0.03 m, 300 x 0.2, 300 x 0.255, 250 x 1.0, 450 x 3.0 m), cold and isothermal, '
          'without and with 4 kg/m2 of rain, snow or a mix or 100 kg/m2 of rain an '
          'hour; net solar -200..1000 W/m2, any sensible and latent heat within 500 W/m2, '
          'vapour flux +-1e-4 kg/m2/s, liquid water up to 10 % of the mass; '
          'soil warmer or as warm as the snow')
OUTSIDE = ('energy and temperatures in steps in which a layer appears or '
           'goes (see C13)')
ASSUMPTIONS = ['energy of the step below 90 % of what melts all the ice',
               'liquid water not within 1e-6 kg/m2 of just evaporating']
TH, MZ = 1.0, 0.25
PRECIP = {'dry': {}, 'rain': {'m_pp': 4.0, 'percent_snow': 0.0, 't_pp': 276.0},
          'snow': {'m_pp': 4.0, 'percent_snow': 1.0, 'rho_snow': 80.0,
                   't_pp': 266.0},
          'flood': {'m_pp': 100.0, 'percent_snow': 0.0, 't_pp': 280.0},
          'mixed': {'m_pp': 4.0, 'percent_snow': 0.5, 'rho_snow': 120.0,
                    't_pp': 274.0}}


def build(c, rho, z, temps, precip, level):
    """a pack in the state in which a step leaves it"""
    from pysnobal.point import InputData, InputDeltas
    t0, tl, tg = temps
    inputs = dict(PRECIP[precip], t_g=tg, S_n=c.real('S_n', -200.0, 1000.0))
    sn = model(max_z=MZ, thresholds=(60.0, 10.0, TH))
    s = sn.snow_state
    s.rho, s.z_s, s.m_s = rho, z, rho * z
    s.calc_layers()
    s.layer_mass()
    s.t_s_0 = t0
    s.cc_s_0 = cp_ice(t0) * s.m_s_0 * (t0 - FREEZE) if t0 < FREEZE else 0.0
    if s.layer_count == 2:
        s.t_s_l = tl
        s.cc_s_l = cp_ice(tl) * s.m_s_l * (tl - FREEZE) if tl < FREEZE \
            else 0.0
        s.t_s = (t0 * s.m_s_0 + tl * s.m_s_l) / s.m_s
    else:
        s.t_s_l, s.t_s = GONE, t0
    s.h2o = c.real('h2o', 0.0, 0.1 * rho * z)
    a, b = InputData(forcing(**inputs)), InputData(forcing(**inputs))
    sn.input1, sn.input2 = a, b
    sn.input_deltas = InputDeltas(a, b, sn.tstep_info).calculate()
    return sn, s, sn.tstep_info[level]


def step(c, rho, z, temps, precip, level):
    sn, s, info = build(c, rho, z, temps, precip, level)
    dt = info['time_step']
    n, m0, h0 = s.layer_count, s.m_s, s.h2o
    cc0, old = s.cc_s_0 + s.cc_s_l, (s.t_s_0, s.t_s_l, s.t_s)
    part = dt / 3600.0
    p = PRECIP[precip].get('m_pp', 0.0) * part
    f = PRECIP[precip].get('percent_snow', 0.0)
    with Recorder(c) as r:
        e = r.out[2]
        c.assume(e < 1e-4)
        c.assume(e > -1e-4)
        if c.choice('exchange', ['loss', 'gain']) == 'loss':
            c.assume(e <= 0.0)
        else:
            c.assume(e > 0.0)
        try:
            sn.do_tstep(info)
            whole = True
        except ZeroDivisionError:
            whole = False
    q = s.delta_Q * dt
    ice = LH_FUS * (m0 - h0 + p * f)
    if not whole:
        c.ge('nothing left to model only if the ice has melted',
             q + cc0, 0.9 * ice)
        return
    c.assume(q + cc0 < 0.9 * ice)
    c.close('mass', s.m_s + s.swi, m0 + p + s.E_s, 1e-6)
    if s.layer_count != n:
        return
    c.observe('cc_s', s.cc_s_0 + s.cc_s_l)
    c.observe('h2o', s.h2o)
    c.le('surface layer not above freezing', s.cc_s_0, 0.0, 1e-3)
    c.le('lower layer not above freezing', s.cc_s_l, 0.0, 1e-3)
    # what did not go into warming has melted, less what froze again
    froze = s.melt - (q + cc0 - s.cc_s_0 - s.cc_s_l) / LH_FUS
    c.ge('melt not negative', s.melt, 0.0, 1e-9)
    c.ge('freezing not negative', froze, 0.0, 1e-6)
    water = h0 + p * (1 - f) + s.melt - froze
    if precip == 'mixed':
        water = water + 0.01 * p * f / 120.0 * RHO_W0 * (1 - 120.0 / RHO_ICE)
    c.ge('no more freezes than there is', water, 0.0, 1e-6)
    if water > 1e-6:
        # the code asks whether any water is left between two exchanges
        c.assume(abs(water + e * dt * VAP_SUB) > 1e-6)
        left = used(used(water, e * dt), s.E_s - e * dt)
        c.close('water of the energy is the water of the pack',
                s.h2o + s.swi, left, 1e-5, 1e-7)
    else:
        # all of it frozen: what condenses then is ice, or in part water
        c.le('no water out of none', s.h2o + s.swi,
             abs(e * dt) + abs(s.E_s - e * dt), 1e-5)
    c.ge('water held', s.h2o, 0.0, 1e-9)
    c.le('no more water than can be held', s.h2o, s.h2o_max, 1e-6)
    for k, (t, t1, m, cc) in enumerate(
            [(old[0], s.t_s_0, s.m_s_0, s.cc_s_0),
             (old[1], s.t_s_l, s.m_s_l, s.cc_s_l),
             (old[2], s.t_s, s.m_s, s.cc_s)]):
        if k and n == 1:
            continue
        c.close('temperature of ' + ('surface', 'lower layer', 'pack')[k],
                (t1 - FREEZE) * cp_ice(t) * m, cc, 0.1, 1e-7)
    if n == 1:
        c.close('one temperature', s.t_s, s.t_s_0)


PACKS = [('thin', 80.0, 0.03), ('onelayer', 300.0, 0.2),
         ('edge', 300.0, 0.255), ('twolayer', 250.0, 1.0),
         ('deep', 450.0, 3.0)]
HEAT = [('cold', (262.0, 268.0, 271.0)), ('cool', (271.5, 272.8, 272.8)),
        ('melting', (FREEZE, FREEZE, FREEZE)),
        ('frozen-top', (270.0, FREEZE, 274.0))]
QUICK = ('thin-cold-dry', 'thin-melting-rain', 'onelayer-cool-mixed',
         'onelayer-melting-dry', 'edge-cool-dry', 'twolayer-cold-flood',
         'twolayer-frozen-top-dry', 'deep-cool-snow', 'deep-melting-rain')
ALL = [('%s-%s-%s' % (a, h, k), r, z, t, k, 0 if r > 400 else 1)
       for a, r, z in PACKS for h, t in HEAT for k in sorted(PRECIP)
       if (a, k) != ('thin', 'flood')]
CASES.case('step', params=[x for x in ALL if x[0] in QUICK],
           prune_timeout=0.2, must=['mass'])(step)
CASES.case('step', tier='thorough',
           params=[x for x in ALL if x[0] not in QUICK],
           prune_timeout=0.2, must=['mass'])(step)
