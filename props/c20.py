"""From the configuration to the model that is run."""
import datetime

from symx.api import Registry, power

from .c21 import Recorder
from .common import FREEZE, GONE, MAX_DENSITY, cp_ice
from .driver import NAMES, START, config, driver
from .stepping import free_forcing

CASES = Registry()
BOUNDS = ('step lengths 60/15/1, 60/20/5, 180/60/15, 30/10/2, 15/15/15, '
          '60/30/1, 1440/60/10 minutes (thorough: more); any elevation '
          '-400..5000 m, heights 3..20 m, active-layer depth 0.1..1 m, water '
          'capacity 0..0.1, thresholds, and initial snow of no, one or two '
          'layers; time zones UTC and MST; data steps as long as the normal '
          'step and, as a finding, longer')
OUTSIDE = 'reading and checking of the configuration file (inicheck)'
STEPS = [('60-15-1', (60, 15, 1)), ('60-20-5', (60, 20, 5)),
         ('180-60-15', (180, 60, 15)), ('30-10-2', (30, 10, 2)),
         ('15-15-15', (15, 15, 15)), ('60-30-1', (60, 30, 1)),
         ('1440-60-10', (1440, 60, 10))]
MORE = [('60-15-15', (60, 15, 15)), ('60-60-60', (60, 60, 60)),
        ('360-90-45', (360, 90, 45)), ('20-4-2', (20, 4, 2)),
        ('120-40-8', (120, 40, 8))]


def frame(records, minutes, start=START, zone='UTC'):
    """what the driver holds after reading its input"""
    import numpy as np
    import pandas as pd
    when = [pd.Timestamp(start).tz_localize(zone) +
            i * datetime.timedelta(minutes=minutes)
            for i in range(len(records))]
    cols = {}
    for k in NAMES.values():
        a = np.empty(len(records), dtype=object)
        for i, r in enumerate(records):
            a[i] = r[k]
        cols[k] = a
    return pd.DataFrame(cols, index=pd.DatetimeIndex(when))


def started(cfg, records=1, minutes=60, zone='UTC', data=None):
    """the model as it is before the first step; only the input file is
    replaced"""
    from .common import forcing
    py = driver(cfg)
    py.parse_params()
    py.parse_time_steps()
    py.input_data = frame(data or [forcing()] * records, minutes, START, zone)
    py.output_to_file = lambda: None
    py.run()
    return py


def minutes_of(names, m):
    return dict(zip(names, m))


def sections(m, **model):
    d = {'norm_time_step': m[0], 'medium_time_step': m[1],
         'small_time_step': m[2]}
    d.update(model)
    return d


def count(sn, log):
    """replace the physics by a log of the steps"""
    sn.energy_balance = lambda: log.append(sn.time_step)
    sn.mass_balance = lambda: None


def weigh(sn, mass, rho=300.0):
    s = sn.snow_state
    s.rho = rho
    s.m_s = mass
    s.z_s = mass / rho
    s.calc_layers()
    s.layer_mass()


def stepping(c, m, zone='UTC'):
    """which sub-steps a layer of a given mass gets"""
    from pysnobal.point import InputData
    n, md, sm = m
    tn = c.real('norm_threshold', 20.0, 100.0)
    tm = c.real('medium_threshold', 2.0, 20.0)
    ts = c.real('small_threshold', 0.1, 2.0)
    mode = c.choice('output_mode', ['normal', 'all'])
    zone = c.choice('zone', ['UTC', 'MST'])
    py = started(config(
        zone=zone, model=sections(m, norm_threshold=tn, medium_threshold=tm,
                                  small_threshold=ts, max_active=5.0),
        files={'output_mode': mode}), zone=zone)
    sn = py.snobal
    mass = c.real('mass', 0.0, 150.0)
    weigh(sn, mass)
    log = []
    count(sn, log)
    sn.do_data_tstep(InputData(free_forcing(c, '_1')),
                     InputData(free_forcing(c, '_2')))
    if mass <= ts or mass >= tn:
        want = [n * 60]
    elif mass >= tm:
        want = [md * 60] * (n // md)
    else:
        want = [sm * 60] * (n // sm)
    c.check('sub-steps', log == want)
    import pandas as pd
    t0 = pd.Timestamp(START).tz_localize(zone)
    stamps = [(r['date_time'] - t0).total_seconds() for r in sn.output_list]
    ends = [(i + 1) * want[0] for i in range(len(want))]
    c.check('output at the end of the data step or of each sub-step',
            stamps == (ends if mode == 'all' else [n * 60]))


CASES.case('steps', params=STEPS)(stepping)
CASES.case('steps', tier='thorough', params=MORE)(stepping)


@CASES.case('site')
def site(c):
    """elevation, heights, roughness and capacity reach the physics"""
    z = c.real('elevation', -400.0, 5000.0)
    zu, zt = c.real('z_u', 3.0, 20.0), c.real('z_t', 3.0, 20.0)
    zg = c.real('z_g', 0.05, 1.0)
    rel = c.choice('relative_heights', [False, True])
    z0 = c.real('z_0', 0.0001, 0.05)
    cap = c.real('max_h2o', 0.0, 0.1)
    act = c.real('max_active', 0.1, 1.0)
    ts = c.real('small_threshold', 0.1, 2.0)
    py = started(config(
        topo={'elevation': z},
        measurement_heights={'z_u': zu, 'z_t': zt, 'z_g': zg,
                             'relative_heights': rel},
        model={'max_h2o': cap, 'max_active': act, 'small_threshold': ts},
        initial_snow_properties={'z_0': z0}))
    sn = py.snobal
    s = sn.snow_state
    lapse, t0 = -0.0065, 288.0
    top = t0 + lapse * z
    e = 9.80665 * 28.9644 / (8314.32 * lapse)
    c.close('air pressure of the elevation', sn.P_a,
            101324.6 * power(t0 / top, e), 1.0, 1e-5)
    c.close('water capacity', s.max_h2o_vol, cap)
    r, d = c.real('rho', 100.0, 500.0), c.real('depth', 0.0, 2.5)
    s.rho, s.z_s, s.m_s = r, d, r * d
    s.calc_layers()
    s.layer_mass()
    if r * d <= ts:
        c.close('below the threshold no layer', s.layer_count, 0)
        return
    if d <= act:
        c.close('one layer', s.layer_count, 1)
        c.close('surface layer', s.z_s_0, d)
        return
    c.close('two layers or one', s.z_s_0 + s.z_s_l, d, 1e-9)
    if r * (d - act) > ts:
        c.close('active layer', s.z_s_0, act)
    s.t_s_0 = 265.0
    sn.time_step = 3600
    from pysnobal.point import InputData
    from .common import forcing
    sn.input1 = InputData(forcing())
    with Recorder(c) as rec:
        sn.h_le()
    k = rec.calls[0]
    drop = 0.0 if rel else d
    c.close('height of the wind', k['zu'], zu - drop, 1e-9)
    c.close('height of temperature', k['za'], zt - drop, 1e-9)
    c.close('roughness', k['z0'], z0)
    c.close('depth of the soil temperature', sn.measurement_heights['z_g'],
            zg)


def snow(c, layers):
    """initial snow, temperatures in Celsius"""
    rho = c.real('rho', 50.0, 550.0)
    act = c.real('max_active', 0.1, 0.5)
    ts = c.real('small_threshold', 0.1, 2.0)
    if layers == 2:
        z = act + c.real('lower', 0.1, 10.0)
        c.assume(rho * act > ts)
    elif layers == 1:
        z = c.real('z_s', 0.0, 0.5)
        c.assume(z <= act)
    else:
        z = c.real('z_s', 0.0, 0.04)
    t0 = c.real('t_s_0', -50.0, 0.0)
    t = c.real('t_s', -50.0, 0.0)
    sat = c.real('h2o_sat', 0.0, 1.0)
    z0 = c.real('z_0', 0.0001, 0.05)
    ini = {'z_s': z, 'rho': rho, 't_s_0': t0, 't_s': t, 'h2o_sat': sat,
           'z_0': z0}
    cfg = config(initial_snow_properties=ini,
                 model={'max_active': act, 'small_threshold': ts,
                        'max_h2o': 0.02})
    s = started(cfg).snobal.snow_state
    c.close('roughness', s.z_0, z0)
    if rho * z <= ts:
        c.assume(layers == 0)
        c.close('bare ground', s.m_s, 0.0)
        c.close('bare ground temperature', s.t_s_0, GONE)
        return
    c.assume(layers > 0)
    c.close('layers', s.layer_count, layers)
    c.close('depth', s.z_s, z)
    c.close('density', s.rho, rho)
    c.close('mass', s.m_s, rho * z, 1e-9)
    c.close('surface temperature', s.t_s_0, t0 + FREEZE, 1e-9)
    c.close('average temperature', s.t_s, t + FREEZE, 1e-9)
    c.close('saturation', s.h2o_sat, sat)
    c.close('water', s.h2o_vol, sat * 0.02, 1e-12)
    if layers == 2:
        c.close('surface layer', s.z_s_0, act)
        c.check('cold content of the lower layer has its temperature',
                (s.cc_s_l < 0.0) == (t < 0.0))
    else:
        c.close('no lower layer', s.z_s_l, 0.0)
    t_k = t0 + FREEZE
    c.close('cold content of the surface', s.cc_s_0,
            cp_ice(t_k) * s.m_s_0 * t0 if t0 < 0.0 else 0.0, 1e-4, 1e-9)
    if not (cfg['initial_snow_properties'] == ini):
        c.fail('the configuration is not changed')


CASES.case('initial', params=[('bare', 0), ('1layer', 1), ('2layers', 2)])(
    snow)


@CASES.case('records', params=[('two', 2), ('four', 4)])
def records(c, n):
    """records are used pairwise in time order and stamped with their end"""
    data = [free_forcing(c, '_%d' % i) for i in range(n)]
    zone = c.choice('zone', ['UTC', 'MST'])
    late = c.choice('first record after the start', [0, 30, 90])
    from pysnobal.point import Snobal
    seen = []
    real = Snobal.do_data_tstep

    def watch(self, a, b):
        seen.append((dict((k, getattr(a, k)) for k in data[0]),
                     dict((k, getattr(b, k)) for k in data[0])))
        self.energy_balance = lambda: None
        self.mass_balance = lambda: None
        real(self, a, b)
    start = START - datetime.timedelta(minutes=late)
    Snobal.do_data_tstep = watch
    try:
        py = started(config(start=start, zone=zone), zone=zone, data=data)
    finally:
        Snobal.do_data_tstep = real
    c.check('pairs', len(seen) == n - 1)
    for i, (a, b) in enumerate(seen):
        for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g'):
            c.close('first %s of the pair' % k, a[k], data[i][k], 1e-9)
            c.close('second %s of the pair' % k, b[k], data[i + 1][k], 1e-9)
    got = [r['date_time'] for r in py.snobal.output_list]
    c.check('output carries the time of the record ending its step',
            got == list(py.input_data.index[1:]))


@CASES.case('long-data-step', params=[('120', 120), ('180', 180)])
def long_step(c, minutes):
    """a data step of several normal steps is simulated as a whole"""
    from .common import forcing
    data = [forcing(S_n=c.real('S_n_%d' % i, 0.0, 800.0)) for i in range(2)]
    from pysnobal.point import Snobal
    steps = []
    real = Snobal.do_data_tstep

    def watch(self, a, b):
        count(self, steps)
        real(self, a, b)
    Snobal.do_data_tstep = watch
    try:
        started(config(time={'time_step': minutes}), minutes=minutes,
                data=data)
    finally:
        Snobal.do_data_tstep = real
    c.close('time simulated', sum(steps), minutes * 60,
            finding='long-data-step')
