"""Heat conduction between soil and snow and between the snow layers."""
from symx.api import Registry, power

from .common import (FREEZE, cp_ice, lh_sub, lh_vap, model, pack)

CASES = Registry()
BOUNDS = ('conductivities 0.001..10 W/(m K), temperatures 200..330 K, layer '
          'thicknesses 0.001..20 m, air pressure 30..110 kPa; packs of one '
          'or two layers with density 20..600 kg/m3 and depth 0.0005..12 m, '
          'soil 240..300 K measured at 0.05..1 m')
KG = 1.65
MW = 18.0153 / 28.9644


def es(t):
    from props import c14
    return c14.ice(t)


def effective(k, t, pa, e, lh):
    d = 0.65 * (101324.6 / pa) * power(t / FREEZE, 14) * 1e-4
    return k + lh * d * MW * e / (pa - e)


@CASES.case('steady-state')
def steady(c):
    """series of two resistances"""
    from pysnobal.point.libsnobal import ssxfr
    k1, k2 = c.real('k1', 0.001, 10.0), c.real('k2', 0.001, 10.0)
    t1, t2 = c.real('t1', 200.0, 330.0), c.real('t2', 200.0, 330.0)
    d1, d2 = c.real('d1', 0.001, 20.0), c.real('d2', 0.001, 20.0)
    g = ssxfr(k1, k2, t1, t2, d1, d2)
    c.observe('g', g)
    c.close('heat through two half layers in series',
            g * (d1 / (2 * k1) + d2 / (2 * k2)), t2 - t1, 1e-7)
    if t2 > t1:
        c.check('flows from warm to cold', g > 0.0)
    elif t2 < t1:
        c.check('flows from warm to cold (2)', g < 0.0)
    else:
        c.close('no difference no flow', g, 0.0)
    c.close('the reverse flow is opposite', ssxfr(k2, k1, t2, t1, d2, d1),
            -g, 1e-7)


@CASES.case('effective', params=[('given', True), ('own', False)])
def eff(c, given):
    """conduction plus vapour diffusion"""
    from pysnobal.point.libsnobal import efcon
    k = c.real('k', 0.001, 10.0)
    lo, hi = c.choice('range', [(220.0, FREEZE), (FREEZE, 285.0),
                                (285.0, 310.0)])
    t = c.real('t%d' % lo, lo, hi)
    pa = c.real('pa', 30000.0, 110000.0)
    if given:
        e = c.real('e', 0.01, 7000.0)
        x = efcon(k, t, pa, es_layer=e)
    else:
        x = efcon(k, t, pa)
        from pysnobal.point.libsnobal import sati
        e = sati(t)
    c.observe('k', x)
    if t > FREEZE:
        lh = lh_vap(t)
    elif t == FREEZE:
        lh = (lh_vap(t) + lh_sub(t)) / 2
    else:
        lh = lh_sub(t)
    c.close('effective conductivity', x, effective(k, t, pa, e, lh), 1e-9,
            1e-6)
    if given:
        c.check('at least plain conduction', x >= k)


def setup(c, layers, soil):
    zg = c.real('z_g', 0.05, 1.0)
    tg = c.real('t_g', 240.0, FREEZE) if soil == 'frozen' else \
        c.real('t_g', FREEZE + 0.01, 300.0)
    mz = c.choice('max_active', [0.01, 0.1, 0.25])
    sn = model(max_z=mz, heights={'z_g': zg}, inputs={'t_g': tg},
               thresholds=(60.0, 10.0, 1.0 if mz > 0.1 else 0.01), elevation=c.choice('elevation', [0.0, 2061.0, 4000.0]))
    s = pack(c, sn, layers, cold=False, wet=False)
    s.t_s_0 = c.real('t_s_0', 220.0, FREEZE)
    s.t_s = s.t_s_0
    if layers == 2:
        s.t_s_l = c.real('t_s_l', 220.0, FREEZE)
    return sn, s, zg, tg


def pair(k1, k2, t1, t2, d1, d2):
    return 2 * k1 * k2 * (t2 - t1) / (k2 * d1 + k1 * d2)


def lh_of(t):
    if t > FREEZE:
        return lh_vap(t)
    return (lh_vap(t) + lh_sub(t)) / 2 if t == FREEZE else lh_sub(t)


@CASES.case('pack', params=[
    ('1layer', 1, 'frozen'), ('2layers', 2, 'frozen'),
    ('1layer-thawed', 1, 'thawed'), ('2layers-thawed', 2, 'thawed')])
def transfer(c, layers, soil):
    """soil to pack, and lower layer to surface layer"""
    from pysnobal.point.libsnobal import sati
    sn, s, zg, tg = setup(c, layers, soil)
    pa = sn.P_a
    sn.heat_transfer()
    c.observe('G', s.G)
    c.observe('G_0', s.G_0)
    ks = 4.186798188 * 0.0077 * (s.rho / 1000.0) * (s.rho / 1000.0)
    kg = effective(KG, tg, pa, sati(tg), lh_of(tg))
    k0 = effective(ks, s.t_s_0, pa, sati(s.t_s_0), lh_of(s.t_s_0))
    if layers == 1:
        g = pair(k0, kg, s.t_s_0, tg, s.z_s_0, zg)
        c.close('soil heat flux', s.G, g, 1e-6, 1e-6)
        c.close('all of it reaches the only layer', s.G_0, s.G)
    else:
        kl = effective(ks, s.t_s_l, pa, sati(s.t_s_l), lh_of(s.t_s_l))
        g = pair(kl, kg, s.t_s_l, tg, s.z_s_l, zg)
        g0 = pair(k0, kl, s.t_s_0, s.t_s_l, s.z_s_0, s.z_s_l)
        c.close('soil heat flux', s.G, g, 1e-6, 1e-6)
        c.close('heat flux between the layers', s.G_0, g0, 1e-6, 1e-6)
