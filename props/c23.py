"""Initial snow."""
from symx.api import Registry

from .common import FREEZE, GONE, RHO_ICE, RHO_W0, consistent, cp_ice, model

CASES = Registry()
BOUNDS = ('initial depth 0..12 m, density 10..600 kg/m3, temperatures '
          '200..280 K, saturation 0..1, roughness 0.0001..0.05 m; threshold '
          '0.1..20 kg/m2, active layer 0.05..1 m, water capacity 0..0.1')
LAYERS = [('none', 0), ('1layer', 1), ('2layers', 2)]


def initial(c, layers):
    """the number of layers is a consequence; telling the cases apart in
    advance only helps the solver"""
    th = c.real('threshold', 0.1, 20.0)
    mz = c.real('max_active', 0.05, 1.0)
    cap = c.real('max_h2o', 0.0, 0.1)
    z = c.real('z_s', 0.0, 12.0)
    rho = c.real('rho', 10.0, 600.0)
    lower = rho * (z - mz)
    if layers == 0:
        c.assume(rho * z <= th)
    else:
        c.assume(rho * z > th)
        if layers == 1:
            c.assume((z <= mz) | (lower < th))
        else:
            c.assume((z > mz) & (lower >= th))
    ini = {'z_s': z, 'rho': rho, 't_s_0': c.real('t_s_0', 200.0, 280.0),
           't_s': c.real('t_s', 200.0, 280.0),
           't_s_l': c.real('t_s_l', 200.0, 280.0),
           'h2o_sat': c.real('h2o_sat', 0.0, 1.0),
           'z_0': c.real('z_0', 0.0001, 0.05)}
    given = dict(ini)
    sn = model(max_z=mz, max_h2o=cap, thresholds=(60.0, 10.0, th),
               initial=ini)
    c.check('settings left alone', sorted(ini) == sorted(given) and
            all(ini[k] is given[k] for k in ini))
    return sn, sn.snow_state, given, th, mz, cap


def cold(t, m):
    return cp_ice(t) * m * (t - FREEZE) if t < FREEZE else 0.0


@CASES.case('start', params=LAYERS)
def start(c, layers):
    sn, s, g, th, mz, cap = initial(c, layers)
    c.observe('m_s', s.m_s)
    c.observe('h2o', s.h2o)
    c.check('number of layers', s.layer_count == layers)
    consistent(c, s, th, mz)
    c.close('roughness', s.z_0, g['z_0'])
    if layers == 0:
        c.close('mass becomes liquid water', s.h2o_total,
                g['rho'] * g['z_s'], 1e-9)
        for f in ('t_s', 't_s_0', 't_s_l'):
            c.close('absent ' + f, getattr(s, f), GONE)
        return
    c.close('depth', s.z_s, g['z_s'], 1e-9)
    c.close('density', s.rho, g['rho'])
    c.close('surface temperature', s.t_s_0, g['t_s_0'])
    c.close('mean temperature', s.t_s, g['t_s'])
    c.close('cold content of the surface', s.cc_s_0,
            cold(g['t_s_0'], s.m_s_0), 1e-4, 1e-9)
    if layers == 2:
        c.close('lower temperature', s.t_s_l, g['t_s_l'])
        c.close('cold content below', s.cc_s_l, cold(g['t_s_l'], s.m_s_l),
                1e-4, 1e-9)
    else:
        c.close('no lower temperature', s.t_s_l, GONE)
    vol = g['h2o_sat'] * cap
    dry = (g['rho'] - vol * RHO_W0) / (1 - vol * RHO_W0 / RHO_ICE)
    most = cap * g['z_s'] * RHO_W0 * (RHO_ICE - dry) / RHO_ICE
    c.close('water content', s.h2o_vol, vol, 1e-9)
    c.close('dry density', s.dry_snow_density, dry, 1e-6)
    c.close('water capacity', s.h2o_max, most, 1e-6, 1e-6)
    c.close('liquid water', s.h2o, g['h2o_sat'] * s.h2o_max, 1e-9)
    c.close('nothing moves yet', s.h2o_total, 0.0)


@CASES.case('own-copy', params=LAYERS)
def fresh(c, layers):
    """a new model starts with a clean record"""
    sn, s, g, th, mz, cap = initial(c, layers)
    c.check('no output yet', list(sn.output_list) == [])
    c.close('no time passed', sn.time_since_out, 0)
    for f in ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0',
              'melt', 'E', 'E_s', 'swi'):
        c.close('no ' + f + ' yet', getattr(s, f), 0.0)
