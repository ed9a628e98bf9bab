"""Output records: how many, when, and what they average and add up."""
from symx.api import Registry

from .common import START
from .stepping import ENERGY, cover, free_forcing, seconds, spy

CASES = Registry()
BOUNDS = ('two data steps in a row, free energy fluxes and mass terms in '
          'every sub-step, run as 1, 2, 3, 4, 6 or mixed sub-steps, output '
          'per data step and per sub-step; time steps 60/20/10 and 60/30/5 '
          'minutes')
OUTSIDE = 'the physics of a step is replaced by free values'
PLANS = {'normal': [500.0], 'medium': [30.0], 'small': [5.0],
         'mixed': [30.0, 5.0, 5.0, 30.0], 'gone': [0.0],
         'melts-out': [30.0, 0.0]}
STATE = ['rho', 't_s_0', 't_s_l', 't_s', 'cc_s_0', 'cc_s_l', 'm_s', 'm_s_0',
         'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'h2o', 'h2o_sat', 'h2o_max',
         'h2o_vol', 'layer_count']


def run(c, minutes, plan, mode):
    from pysnobal.point import InputData
    masses = PLANS[plan]
    hist = []

    def on_step(sn, k, dt):
        s = sn.snow_state
        d = {v: c.real('%s_%d' % (v, k), -1000.0, 1000.0) for v in ENERGY}
        for v in ENERGY:
            setattr(s, v, d[v])
        for v in ('E_s', 'melt', 'swi'):
            d[v] = c.real('%s_%d' % (v, k), -5.0, 50.0)
            setattr(s, v, d[v])
        s.t_s_0 = c.real('t_s_0_%d' % k, 240.0, 273.16)
        s.t_s = c.real('t_s_%d' % k, 240.0, 273.16)
        s.cc_s_0 = c.real('cc_s_0_%d' % k, -1e6, 0.0)
        s.h2o = c.real('h2o_%d' % k, 0.0, 5.0)
        s.t_s_l = c.real('t_s_l_%d' % k, 240.0, 273.16)
        s.cc_s_l = c.real('cc_s_l_%d' % k, -1e6, 0.0)
        s.h2o_sat = c.real('h2o_sat_%d' % k, 0.0, 1.0)
        s.h2o_max = c.real('h2o_max_%d' % k, 0.0, 5.0)
        s.h2o_vol = c.real('h2o_vol_%d' % k, 0.0, 0.1)
        cover(sn, masses[min(k + 1, len(masses) - 1)])
        d['state'] = {v: getattr(s, v) for v in STATE}
        d['state']['cc_s'] = s.cc_s_0 + s.cc_s_l
        d['dt'] = dt
        hist.append(d)
    sn = spy(minutes, (60.0, 10.0, 1.0), mode, on_step)
    cover(sn, masses[0])
    a, b, e = (InputData(free_forcing(c, t)) for t in ('_1', '_2', '_3'))
    sn.do_data_tstep(a, b)
    first = len(hist)
    sn.do_data_tstep(b, e)
    out = sn.output_list
    groups = [hist[:first], hist[first:]] if mode == 'normal' else \
        [[h] for h in hist]
    c.observe('records', len(out))
    c.check('one record per data step or per sub-step',
            len(out) == len(groups))
    t = 0
    for r, g in zip(out, groups):
        span = sum(h['dt'] for h in g)
        t += span
        c.check('record time is the end of its interval',
                seconds(r['date_time'] - START) == t)
        for v in ENERGY:
            c.close('%s is the time-weighted mean' % v, r[v + '_bar'] * span,
                    sum(h[v] * h['dt'] for h in g), 1e-3)
        for v in ('E_s', 'melt', 'swi'):
            c.close('%s is the total' % v, r[v + '_sum'],
                    sum(h[v] for h in g), 1e-6)
        for v, x in g[-1]['state'].items():
            c.close('%s is the value at the end' % v, r[v], x, 1e-9)


P = [('%d-%d-%d-%s-%s' % (m + (p, o)), m, p, o)
     for m in ((60, 20, 10), (60, 30, 5)) for p in sorted(PLANS)
     for o in ('normal', 'all')]
CASES.case('records', params=P)(run)
