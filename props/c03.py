"""Water balance of a whole time step (all mass processes in sequence)."""
from symx.api import Registry

from .common import GONE, LH_FUS, model

CASES = Registry()
BOUNDS = ('all mass processes of one step run in sequence on four packs '
          '(thin 100 kg/m3 x 0.015 m, one layer 300 x 0.15, two layers '
          '250 x 1.0, deep 560 x 3.0 m; threshold 1 kg/m2, active layer 0.25 '
          'm, 15 min step) without and with 6 kg/m2 of rain, snow or a mix; '
          'symbolic cold content of each layer, liquid water up to 10 % of '
          'the mass, surface energy -1000..1000 W/m2, ground and internal '
          'heat flux -100..100 W/m2, vapour flux +-1e-4 kg/m2/s; bare ground '
          'with any precipitation up to 100 kg/m2; a rest of 0.3-1 kg/m2 (0.3, '
          '0.75 and 1 with mixed precipitation); soil 4 K warmer or colder '
          'than the snow in the soil cases')
ASSUMPTIONS = ['melt energy of the step below 90 % of what melts all the ice '
               '(the overmelt case drops this)']
TH = 1.0
MZ = 0.25


def build(rho, z, inputs, temp, dt=900):
    sn = model(max_z=MZ, thresholds=(60.0, 10.0, TH), inputs=inputs)
    s = sn.snow_state
    s.rho, s.z_s, s.m_s = rho, z, rho * z
    s.calc_layers()
    s.layer_mass()
    s.t_s_0 = s.t_s = temp
    s.t_s_l = temp if s.layer_count == 2 else GONE
    s.h2o_total = 0.0
    sn.snowcover = True
    sn.time_step = dt
    return sn, s


def rain_or_snow(precip):
    if precip == 'dry':
        return {}
    return {'m_pp': 6.0, 'rho_snow': 100.0,
            'percent_snow': {'rain': 0.0, 'snow': 1.0, 'mixed': 0.4}[precip],
            't_pp': 275.0 if precip == 'rain' else 268.0}


def balance(c, sn, s, m0):
    c.observe('swi', s.swi)
    c.observe('m_s', s.m_s)
    c.close('water balance', s.m_s + s.swi, m0 + sn.input1.m_pp + s.E_s,
            1e-5)
    c.ge('runoff not negative', s.swi, 0.0, 1e-7)


def step(c, rho, z, precip, temp=268.0, dtg=0.0, cap=0.9):
    inputs = rain_or_snow(precip)
    inputs['t_g'] = temp + dtg
    sn, s = build(rho, z, inputs, temp)
    layers = s.layer_count
    dt = sn.time_step
    s.cc_s_0 = c.real('cc_s_0', -1e7, 0.0)
    s.cc_s_l = c.real('cc_s_l', -1e7, 0.0) if layers == 2 else 0.0
    s.h2o = c.real('h2o', 0.0, 30.0)
    c.assume(s.h2o <= 0.1 * s.m_s)
    s.delta_Q_0 = c.real('delta_Q_0', -1000.0, 1000.0)
    s.G = c.real('G', -100.0, 100.0)
    s.G_0 = s.G if layers == 1 else c.real('G_0', -100.0, 100.0)
    s.E = c.real('E', -1e-4, 1e-4)
    # cases told apart in advance, for the solver's sake
    if c.choice('exchange', ['loss', 'gain']) == 'loss':
        c.assume(s.E <= 0.0)
    else:
        c.assume(s.E > 0.0)
    q0 = s.delta_Q_0 * dt + s.cc_s_0
    if c.choice('energy', ['melt', 'freeze']) == 'melt':
        c.assume(q0 > 0.0)
    else:
        c.assume(q0 <= 0.0)
    m0 = s.m_s
    ice = m0 - s.h2o
    if precip != 'dry':
        ice = ice + inputs['m_pp'] * inputs['percent_snow']
    c.assume((s.delta_Q_0 + s.G - s.G_0) * dt + s.cc_s_0 + s.cc_s_l <
             LH_FUS * ice * cap)
    sn.mass_balance()
    balance(c, sn, s, m0)


PACKS = [('thin', 100.0, 0.015), ('onelayer', 300.0, 0.15),
         ('twolayer', 250.0, 1.0), ('deep', 560.0, 3.0)]
QUICK = ('thin-dry', 'thin-mixed', 'thin-rain', 'onelayer-dry',
         'onelayer-mixed', 'onelayer-snow', 'twolayer-dry', 'twolayer-mixed',
         'deep-rain')
ALL = [('%s-%s' % (n, p), r, z, p) for n, r, z in PACKS
       for p in ('dry', 'rain', 'snow', 'mixed')]
CASES.case('step', params=[a for a in ALL if a[0] in QUICK],
           prune_timeout=0.2, must=['water balance'])(step)
CASES.case('step', tier='thorough', params=[a for a in ALL if a[0] not in QUICK],
           prune_timeout=0.2, must=['water balance'])(step)
CASES.case('soil', params=[
    ('warm-thin', 100.0, 0.015, 'dry', 268.0, 4.0),
    ('cold-onelayer', 300.0, 0.15, 'rain', 272.0, -4.0)],
    prune_timeout=0.2, must=['water balance'])(step)
CASES.case('soil', tier='thorough', params=[
    ('warm-twolayer', 250.0, 1.0, 'dry', 268.0, 4.0),
    ('cold-twolayer', 250.0, 1.0, 'mixed', 272.0, -4.0),
    ('warm-deep', 560.0, 3.0, 'snow', 268.0, 4.0)],
    prune_timeout=0.2, must=['water balance'])(step)


@CASES.case('overmelt')
def overmelt(c):
    """more energy than there is ice to melt"""
    sn, s = build(100.0, 0.015, {'t_g': 268.0}, 268.0)
    s.cc_s_0 = 0.0
    s.h2o = c.real('h2o', 0.0, 0.3)
    s.delta_Q_0 = c.real('delta_Q_0', 0.0, 1000.0)
    s.G = s.G_0 = 0.0
    s.E = 0.0
    m0 = s.m_s
    ice = m0 - s.h2o
    beyond = s.delta_Q_0 * sn.time_step > LH_FUS * ice * 0.999999
    try:
        sn.mass_balance()
    except ZeroDivisionError:
        # exactly no mass left, a boundary of the finding below
        c.assume(beyond)
        return
    balance(c, sn, s, m0)
    if beyond:
        c.ge('mass not negative', s.m_s, 0.0, 1e-6,
             finding='melt-beyond-ice')
    else:
        c.ge('mass not negative', s.m_s, 0.0, 1e-6)


@CASES.case('bare', params=[('rain', 'rain'), ('snow', 'snow'),
                            ('mixed', 'mixed'), ('none', 'none')])
def bare(c, kind):
    """precipitation on bare ground, any amount"""
    inputs = {'t_g': 272.0}
    if kind != 'none':
        inputs['m_pp'] = c.real('m_pp', 1e-5, 100.0)
        inputs['rho_snow'] = c.real('rho_snow', 20.0, 600.0)
        inputs['t_pp'] = c.real('t_pp', 250.0, 280.0)
        inputs['percent_snow'] = (
            c.real('percent_snow', 0.01, 0.99) if kind == 'mixed' else
            {'rain': 0.0, 'snow': 1.0}[kind])
    sn = model(max_z=MZ, thresholds=(60.0, 10.0, TH), inputs=inputs)
    s = sn.snow_state
    sn.snowcover = False
    sn.time_step = c.choice('time_step', [60, 900, 3600, 10800])
    s.h2o_total = 0.0
    sn.mass_balance()
    c.observe('swi', s.swi)
    c.observe('m_s', s.m_s)
    p = sn.input1.m_pp
    c.close('no exchange of vapour', s.E_s, 0.0)
    c.ge('runoff not negative', s.swi, 0.0)
    stays = s.layer_count > 0
    wet = stays and sn.input1.h2o_sat_snow > 0
    if wet:
        # liquid held by wet new snow runs off and stays at once
        c.close('water balance of wet new snow', s.m_s + s.swi,
                p, 1e-9, finding='wet-onset')
        c.close('no other imbalance', s.m_s + s.swi - s.h2o, p, 1e-9)
    else:
        c.close('water balance', s.m_s + s.swi, p, 1e-9)


@CASES.case('remnant', params=[(k, k) for k in ('none', 'rain', 'snow',
                                                'mixed')])
def remnant(c, kind):
    """a rest of dense snow, at or below the least mass of a layer after
    runoff in the step before, with little precipitation"""
    inputs = {'t_g': 272.0}
    if kind != 'none':
        inputs['m_pp'] = c.real('m_pp', 0.001, 2.0)
        inputs['rho_snow'] = 100.0
        inputs['t_pp'] = 275.0 if kind == 'rain' else 268.0
        inputs['percent_snow'] = {'rain': 0.0, 'snow': 1.0,
                                  'mixed': 0.4}[kind]
    sn, s = build(560.0, 0.01, inputs, 272.0, dt=60)
    m0 = c.real('m_s', 0.3, 1.0)
    if kind == 'mixed':
        # one amount at a time, for the solver's sake
        m0 = c.choice('rest', [0.3, 0.75, 1.0])
    s.m_s = m0
    s.rho = c.choice('rho', [551.0, 598.0])
    s.z_s = s.z_s_0 = m0 / s.rho
    s.layer_mass()
    s.cc_s_0 = c.real('cc_s_0', -2000.0, 0.0)
    s.h2o = c.real('h2o', 0.0, 0.02)
    s.delta_Q_0 = c.real('delta_Q_0', -100.0, 100.0)
    s.G = s.G_0 = 0.0
    s.E = 0.0
    sn.mass_balance()
    # the soil exchanges vapour with a pack that persists
    balance(c, sn, s, m0)
