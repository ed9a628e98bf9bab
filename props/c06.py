"""Forcing within a data step: linear interpolation, precipitation spread."""
from symx.api import Registry

from .common import START
from .stepping import INTERP, SPLIT, cover, free_forcing, seconds, spy

CASES = Registry()
BOUNDS = ('one data step between any two forcing records (radiation, air and '
          'soil temperature, vapour pressure, wind; precipitation of any '
          'amount, phase, density and temperature), run as 1, 3, 4, 6, 12 or '
          '60 sub-steps and as mixtures of medium and small sub-steps; time '
          'step settings 60/15/1, 60/20/10, 60/30/5, 30/10/2 minutes')
OUTSIDE = 'the physics of a step is replaced by free values'
MASS = {'normal': [500.0], 'medium': [30.0], 'small': [5.0],
        'late-small': [30.0, 30.0, 5.0], 'early-small': [5.0, 5.0, 5.0, 30.0],
        'melts-out': [5.0, 5.0, 5.0, 0.0], 'gone': [0.0]}


def run(c, minutes, plan, precip, mode):
    from pysnobal.point import InputData
    masses = MASS[plan]

    def on_step(sn, k, dt):
        cover(sn, masses[min(k + 1, len(masses) - 1)])
    sn = spy(minutes, (60.0, 10.0, 1.0), mode, on_step)
    cover(sn, masses[0])
    a = free_forcing(c, '_1', precip)
    b = free_forcing(c, '_2')
    i1, i2 = InputData(dict(a)), InputData(dict(b))
    whole = {v: getattr(i1, v) for v in SPLIT}
    const = {v: getattr(i1, v) for v in
             ('percent_snow', 'rho_snow', 't_rain', 't_snow',
              'h2o_sat_snow')}
    sn.do_data_tstep(i1, i2)
    total = minutes[0] * 60
    t = 0
    sums = {v: 0.0 for v in SPLIT}
    c.observe('steps', len(sn.log))
    for k, (dt, when, vals) in enumerate(sn.log):
        c.check('clock at the start of the sub-step',
                seconds(when - START) == t)
        for v in INTERP:
            c.close('%s is interpolated' % v, vals[v],
                    a[v] + (b[v] - a[v]) * t / total, 1e-6)
        for v in SPLIT:
            c.close('%s is spread evenly' % v, vals[v],
                    whole[v] * dt / total, 1e-6)
            sums[v] = sums[v] + vals[v]
        for v in const:
            c.close('%s is constant' % v, vals[v], const[v])
        c.check('precipitation flag', bool(vals['precip_now']) ==
                bool(precip))
        t += dt
    c.check('sub-steps cover the data step', t == total)
    c.check('clock after the data step',
            seconds(sn.current_datetime - START) == total)
    for v in SPLIT:
        c.close('%s adds up' % v, sums[v], whole[v], 1e-6)
    for v in INTERP:
        c.close('%s reaches the next record' % v, getattr(sn.input1, v),
                b[v], 1e-6)


A = (60, 15, 1), (60, 20, 10), (60, 30, 5), (30, 10, 2)
ALL = []
for _i, _m in enumerate(A):
    for _j, _p in enumerate(sorted(MASS)):
        for _k, _r in enumerate((None, 'rain', 'snow', 'mixed')):
            _q = (_i + _j + _k) % 4 == 0
            ALL.append((_q, '%d-%d-%d-%s-%s' % (_m + (_p, _r or 'dry')),
                        _m, _p, _r, 'all' if _j % 2 else 'normal'))
CASES.case('forcing', params=[x[1:] for x in ALL if x[0]])(run)
CASES.case('forcing', tier='thorough',
           params=[x[1:] for x in ALL if not x[0]])(run)
