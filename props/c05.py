"""Sums of the energy terms of the surface layer and of the pack."""
from symx.api import Registry, power

from .c21 import Recorder
from .common import ENERGY, FREEZE, GONE, model, pack

CASES = Registry()
BOUNDS = ('packs of no, one or two layers (density 20..600 kg/m3, depth '
          '0.0005..4 m, 220..273.16 K), net solar -200..1400 W/m2, incoming '
          'thermal 50..600 W/m2, any turbulent fluxes within 500 W/m2, soil '
          '240..300 K, no precipitation, rain, snow and mixed '
          'precipitation up to 50 kg/m2, steps of 60 s, 900 s, 1 h and 3 h')
OUTSIDE = ('the turbulent fluxes themselves (any values, see C15), the size '
           'of the conduction and of the advected heat (C16, C24)')
EMISSIVITY = 0.98
STEFAN = 5.67032e-8


def rain_or_snow(c, kind):
    inp = {'S_n': c.real('S_n', -200.0, 1400.0),
           'I_lw': c.real('I_lw', 50.0, 600.0),
           't_g': c.real('t_g', 240.0, 300.0)}
    if kind != 'dry':
        inp['m_pp'] = c.real('m_pp', 0.1, 50.0)
        inp['percent_snow'] = {'rain': 0.0, 'snow': 1.0}.get(kind)
        if kind == 'mixed':
            inp['percent_snow'] = c.real('percent_snow', 0.1, 0.9)
        inp['rho_snow'] = c.real('rho_snow', 20.0, 600.0)
        inp['t_pp'] = c.real('t_pp', *(
            (240.0, FREEZE) if kind == 'snow' else (FREEZE, 290.0)))
    return inp


def setup(c, layers, kind):
    inp = rain_or_snow(c, kind)
    step = c.choice('time_step', [60, 900, 3600, 10800])
    sn = model(inputs=inp, minutes=(180, 60, 1) if step == 10800 else
               (60, 15, 1))
    sn.time_step = step
    if kind != 'dry':
        from pysnobal.point import InputData, InputDeltas
        from .common import forcing
        a, b = InputData(forcing(**inp)), InputData(forcing(**inp))
        sn.input1 = a
        d = InputDeltas(a, b, sn.tstep_info).calculate()
        level = {10800: 0, 3600: 0, 900: 1, 60: 2}[step]
        a.update_precip_deltas(d[level])
    return sn, inp


def budget(c, layers, kind):
    sn, inp = setup(c, layers, kind)
    s = pack(c, sn, layers, z=(0.0005, 4.0), cold=False, wet=False)
    s.t_s_0 = c.real('t_s_0', 220.0, FREEZE)
    s.t_s_l = c.real('t_s_l', 220.0, FREEZE) if layers == 2 else GONE
    s.t_s = s.t_s_0
    # whatever was left by the step before
    for f in ENERGY + ['E']:
        setattr(s, f, 123.25)
    with Recorder(c) as r:
        sn.energy_balance()
    c.check('one turbulent transfer', len(r.calls) == 1)
    net = inp['S_n'] + EMISSIVITY * (
        inp['I_lw'] - STEFAN * power(s.t_s_0, 4))
    c.close('net radiation', s.R_n, net, 1e-9)
    c.close('sensible heat', s.H, r.out[0])
    c.close('latent heat', s.L_v_E, r.out[1])
    c.close('vapour flux', s.E, r.out[2])
    G, G_0, M = s.G, s.G_0, s.M
    if layers == 1:
        c.close('one layer: the heat from the ground', G_0, G)
    elif s.t_s_0 == s.t_s_l:
        c.close('no flow between layers of one temperature', G_0, 0.0)
    if kind == 'dry':
        c.close('no precipitation, no heat from it', M, 0.0)
    turb = r.out[0] + r.out[1]
    c.close('surface energy', s.delta_Q_0, net + turb + G_0 + M, 1e-9, 1e-6)
    c.close('pack energy', s.delta_Q, net + turb + G + M, 1e-9, 1e-6)


CASES.case('budget', params=[
    ('%d-%s' % (n, k), n, k) for n in (1, 2)
    for k in ('dry', 'rain', 'snow', 'mixed')])(budget)


@CASES.case('bare', params=[('dry', 'dry'), ('rain', 'rain'),
                             ('snow', 'snow')])
def nothing(c, kind):
    """no snow, no energy terms, whatever they were before"""
    sn, inp = setup(c, 0, kind)
    s = sn.snow_state
    for f in ENERGY + ['E']:
        setattr(s, f, c.real('old_' + f, -500.0, 500.0))
    with Recorder(c) as r:
        sn.energy_balance()
    c.check('no turbulent transfer', not r.calls)
    for f in ENERGY + ['E']:
        c.close('bare ground ' + f, getattr(s, f), 0.0)


def step(c, layers):
    """the terms of a whole step reach the averages of the output"""
    from pysnobal.point import InputData, InputDeltas
    from .common import forcing
    inp = rain_or_snow(c, 'dry')
    sn = model(inputs=inp)
    s = pack(c, sn, layers, rho=(100.0, 500.0), z=(0.2, 2.0), wet=False,
             cold=True, tmin=250.0)
    a, b = InputData(forcing(**inp)), InputData(forcing(**inp))
    sn.input1 = a
    sn.input2 = b
    sn.input_deltas = InputDeltas(a, b, sn.tstep_info).calculate()
    t0 = s.t_s_0
    with Recorder(c) as r:
        sn.energy_balance()
    net = inp['S_n'] + EMISSIVITY * (inp['I_lw'] - STEFAN * power(t0, 4))
    s.value_to_bar()
    c.close('net radiation of the step', s.R_n_bar, net, 1e-9)
    c.close('pack energy of the step', s.delta_Q_bar,
            net + r.out[0] + r.out[1] + s.G_bar, 1e-9, 1e-6)
    c.close('surface energy of the step', s.delta_Q_0_bar,
            net + r.out[0] + r.out[1] + s.G_0_bar, 1e-9, 1e-6)
    c.close('vapour of the step', s.E_s_sum, s.E_s)


CASES.case('output', params=[('1layer', 1), ('2layers', 2)])(step)
