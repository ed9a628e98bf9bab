"""The snow state of the grid, cell by cell."""
from symx.api import Registry

from .common import FREEZE, RHO_ICE, RHO_W0, cp_ice

CASES = Registry()
BOUNDS = ('one cell with a pack of one or two layers: layer temperatures '
          '200..273.16 K, density 20..900 kg/m3, depth to 12 m, any cold '
          'content to -3e7 J/m2; arrays of two cells: density 20..900 kg/m3, '
          'liquid water to 10 % by volume, masses 0.01..7200 kg/m2, fluxes '
          '+-1000 W/m2 averaged over three time steps of a minute or an hour')
OUTSIDE = ('the gridded model itself (C27) and its own layering, which '
           'cannot run; arrays of more than two cells')
MZ, TH = 0.25, 1.0
ENERGY = ['R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0']
MASS = ['E_s', 'melt', 'swi']


def grid(init=0):
    from pysnobal.spatial import SpatialSnowState
    s = SpatialSnowState(init)
    s.max_z_s_0, s.small_threshold = MZ, TH
    return s


@CASES.case('cell', params=[('1layer', 1), ('2layers', 2)])
def cell(c, layers):
    """temperatures of a cell from its cold contents"""
    s = grid()
    s.rho = c.real('rho', 20.0, 900.0)
    s.z_s = c.real('z_s', 0.0005, 12.0)
    s.m_s = s.rho * s.z_s
    s.calc_layers()
    c.assume(s.layer_count == layers)
    s.layer_mass()
    c.check('snow on the ground', bool(s.snowcover))
    t0, tl, t = (c.real(k, 200.0, FREEZE) for k in ('t_s_0', 't_s_l', 't_s'))
    s.t_s_0, s.t_s_l, s.t_s = t0, tl, t
    s.cc_s_0 = c.real('cc_s_0', -3e7, 0.0)
    s.cc_s_l = c.real('cc_s_l', -3e7, 0.0) if layers == 2 else 0.0
    warm = s.cc_s_0 + s.cc_s_l == 0.0
    c.check('isothermal without cold content', bool(s.isothermal) ==
            bool(warm))
    s.adjust_layer_temps()
    c.observe('t_s_0', s.t_s_0)
    if warm:
        c.close('surface at freezing', s.t_s_0, FREEZE)
        c.close('pack at freezing', s.t_s, FREEZE)
        if layers == 2:
            c.close('lower layer at freezing', s.t_s_l, FREEZE)
        return
    parts = [('surface', t0, s.t_s_0, s.m_s_0, s.cc_s_0)]
    if layers == 2:
        parts += [('lower layer', tl, s.t_s_l, s.m_s_l, s.cc_s_l),
                  ('pack', t, s.t_s, s.m_s, s.cc_s_0 + s.cc_s_l)]
    else:
        c.close('one temperature', s.t_s, s.t_s_0)
    for what, old, new, m, q in parts:
        c.close('temperature of the ' + what, (new - FREEZE) * cp_ice(old) * m,
                q, 1e-4, 1e-9)


def cells(c, name, lo, hi):
    import numpy as np
    a = np.empty(2, dtype=object)
    a[0] = c.real(name + '_a', lo, hi)
    a[1] = c.real(name + '_b', lo, hi)
    return a


@CASES.case('derived')
def derived(c):
    """quantities of every cell come from that cell alone"""
    s = grid()
    s.rho = rho = cells(c, 'rho', 20.0, 900.0)
    s.h2o_vol = wet = cells(c, 'h2o_vol', 0.0, 0.1)
    m = cells(c, 'm', 0.01, 7200.0)
    t = cells(c, 't', 200.0, FREEZE)
    q = cells(c, 'q', -3e7, 0.0)
    k, dry, new = s.kts, s.dry_snow_density, s.new_tsno(m, t, q)
    for i in (0, 1):
        c.close('conductivity', k[i],
                4.186798188 * 0.0077 * (rho[i] / 1000.0) ** 2, 1e-9, 1e-6)
        c.close('density without water', dry[i],
                (rho[i] - wet[i] * RHO_W0) / (1 - wet[i] * RHO_W0 / RHO_ICE),
                1e-9, 1e-9)
        c.close('temperature', (new[i] - FREEZE) * cp_ice(t[i]) * m[i], q[i],
                1e-4, 1e-9)


@CASES.case('averages')
def averages(c):
    """what is reported of every cell: means of fluxes and sums of masses"""
    import numpy as np
    s = grid(np.zeros(2))
    shared = c.choice('one layer', [False, True])
    dts = [c.choice('dt%d' % i, [60, 3600]) for i in range(3)]
    hist = []
    for i, dt in enumerate(dts):
        now = {v: cells(c, '%s_%d' % (v, i), -1000.0, 1000.0)
               for v in ENERGY}
        now.update({v: cells(c, '%s_%d' % (v, i), -5.0, 50.0) for v in MASS})
        for v in now:
            setattr(s, v, now[v].copy())
        if shared:
            # in one layer, one flux is both of them
            now['G_0'] = now['G']
            s.G_0 = s.G
        hist.append(now)
        if i:
            s.time_average(float(sum(dts[:i])), float(dt))
        else:
            s.value_to_bar()
        total = float(sum(dts[:i + 1]))
        for k in (0, 1):
            for v in now:
                c.close('flux kept', getattr(s, v)[k], now[v][k], 1e-9)
            for v in ENERGY:
                mean = sum((h[v][k] * d for h, d in zip(hist, dts)),
                           0.0) / total
                c.close('mean of ' + v, getattr(s, v + '_bar')[k], mean,
                        1e-6, 1e-9)
            for v in MASS:
                c.close('sum of ' + v, getattr(s, v + '_sum')[k],
                        sum((h[v][k] for h in hist), 0.0), 1e-6, 1e-9)


@CASES.case('reset')
def reset(c):
    """clearing a field clears every cell of it and nothing else"""
    import numpy as np
    s = grid(np.zeros(2))
    a, b = cells(c, 'h2o_total', 0.0, 60.0), cells(c, 'rho', 20.0, 900.0)
    s.set_from_dict({'h2o_total': a, 'rho': b, 'h2o': a})
    s.set_zeros(c.choice('fields', ['h2o_total', 'h2o_total h2o']))
    for i in (0, 1):
        c.close('cleared', s.h2o_total[i], 0.0)
        c.close('kept', s.rho[i], b[i])
