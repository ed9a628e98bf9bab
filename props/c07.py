"""Adaptive refinement of the data step."""
from symx.api import Registry

from .stepping import cover, free_forcing, spy

CASES = Registry()
BOUNDS = ('one data step with an arbitrary mass before every sub-step '
          '(0..600 kg/m2, free at each), thresholds 60/10/1 and any ordered '
          'triple up to 400, one or two layers with active layer masses 6, '
          '30 or 75 kg/m2; time steps 60/30/15, 60/20/10, 60/30/10 minutes')
OUTSIDE = 'the physics of a step is replaced by free values'


def run(c, minutes, max_z, free_th):
    from pysnobal.point import InputData
    if free_th:
        th = (c.real('norm_threshold', 20.0, 400.0),
              c.real('medium_threshold', 2.0, 20.0), 1.0)
    else:
        th = (60.0, 10.0, 1.0)
    seen = []

    def thin(sn, limit):
        """is any layer lighter than the limit?"""
        s = sn.snow_state
        n = (s.z_s_0 > 0) + (s.z_s_l > 0)
        if n == 0:
            return False
        if s.rho * s.z_s_0 < limit:
            return True
        return n == 2 and bool(s.rho * s.z_s_l < limit)

    def on_step(sn, k, dt):
        cover(sn, c.real('m%d' % (k + 1), 0.0, 600.0))

    class Probe(object):
        pass
    sn = spy(minutes, th, 'normal', on_step, max_z)
    energy = sn.energy_balance

    def watch():
        energy()
        seen.append((thin(sn, th[0]), thin(sn, th[1])))
    sn.energy_balance = watch
    cover(sn, c.real('m0', 0.0, 600.0))
    sn.do_data_tstep(InputData(free_forcing(c, '_1')),
                     InputData(free_forcing(c, '_2')))
    dts = [x[0] for x in sn.log]
    c.observe('n', len(dts))
    n, m, s = (x * 60 for x in minutes)
    c.check('the first sub-step decides on dividing the data step',
            seen[0][0] == (dts[0] != n))
    if dts[0] == n:
        c.check('one step covers the data step', len(dts) == 1)
        return
    t = 0
    for (lo_n, lo_m), dt in zip(seen, dts):
        if t % m == 0:
            c.check('a medium step is divided exactly when a layer is below '
                    'its threshold', dt == (s if lo_m else m))
            small = lo_m
        else:
            c.check('a divided medium step is finished in small steps',
                    small and dt == s)
        t += dt
    c.check('the data step is covered', t == n)


P = [('%d-%d-%d-%s%s' % (a + (str(z), '-free' if f else '')), a, z, f)
     for a in ((60, 30, 15), (60, 20, 10), (60, 30, 10))
     for z in (0.02, 0.1, 0.25, 5.0) for f in (False, True)]
Q = [p for p in P if p[1] == (60, 30, 15) or
     (p[1] == (60, 30, 10) and p[2] == 5.0 and not p[3])]
CASES.case('refine', params=Q)(run)
CASES.case('refine', tier='thorough', params=[p for p in P if p not in Q])(run)
