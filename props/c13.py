"""Cold content and temperature of the layers."""
from symx.api import Registry

from .common import FREEZE, GONE, cp_ice, model, pack, set_model

CASES = Registry()
BOUNDS = ('layer temperatures 200..330 K, masses 0.01..7200 kg/m2, cold '
          'content 0..-3e7 J/m2; packs of one or two layers, density 20..600 '
          'kg/m3, depth 0.0005..12 m; depth changes by a factor 0.01..50; '
          'removal threshold and active layer 1 kg/m2, 0.25 m or 6 kg/m2, '
          '0.1 m')
OUTSIDE = ('the size of the step in energy when a layer is added or removed '
           '(the model redistributes it by design)')


@CASES.case('cold-content')
def content(c):
    t = c.real('t', 200.0, 330.0)
    m = c.real('m', 0.01, 7200.0)
    sn = model()
    q = sn.cold_content(t, m)
    c.observe('q', q)
    if t < FREEZE:
        c.close('heat to freezing', q, cp_ice(t) * m * (t - FREEZE), 1e-6,
                1e-9)
        c.check('negative below freezing', q < 0.0)
    else:
        c.close('none at or above freezing', q, 0.0)


@CASES.case('temperature')
def temperature(c):
    """the temperature that belongs to a cold content"""
    from pysnobal.core.snow import new_tsno
    t = c.real('t', 200.0, FREEZE)
    m = c.real('m', 0.01, 7200.0)
    q = c.real('q', -3e7, 0.0)
    x = new_tsno(m, t, q)
    c.close('temperature of the cold content', (x - FREEZE) * cp_ice(t) * m,
            q, 1e-4, 1e-9)
    c.le('not above freezing', x, FREEZE)
    if q == 0.0:
        c.close('freezing without cold content', x, FREEZE)


@CASES.case('round-trip')
def trip(c):
    """cold content to temperature and back, no drift"""
    from pysnobal.core.snow import new_tsno
    t = c.real('t', 200.0, FREEZE)
    m = c.real('m', 0.01, 7200.0)
    sn = model()
    q = sn.cold_content(t, m)
    c.close('same temperature', new_tsno(m, t, q), t, 1e-9)


def build(c, layers):
    sn = set_model(c, inputs={})
    s = pack(c, sn, layers, wet=False)
    return sn, s


@CASES.case('adjust', params=[('1layer', 1), ('2layers', 2)])
def adjust(c, layers):
    """new temperatures from any cold content"""
    sn, s = build(c, layers)
    t0, tl, t = s.t_s_0, s.t_s_l, s.t_s
    q0 = s.cc_s_0 = c.real('cc_s_0', -3e7, 0.0)
    ql = 0.0
    if layers == 2:
        ql = s.cc_s_l = c.real('cc_s_l', -3e7, 0.0)
    c.close('cold content of the pack', s.cc_s, q0 + ql, 1e-9)
    iso = bool(s.isothermal)
    c.check('isothermal exactly without cold content',
            iso == bool(q0 + ql == 0.0))
    s.adjust_layer_temps()
    c.observe('t_s_0', s.t_s_0)
    c.observe('t_s', s.t_s)
    c.le('surface not above freezing', s.t_s_0, FREEZE)
    c.close('surface', (s.t_s_0 - FREEZE) * cp_ice(t0) * s.m_s_0, q0, 1e-3,
            1e-9)
    if layers == 1:
        c.close('pack is its only layer', s.t_s, s.t_s_0)
    else:
        c.le('lower layer not above freezing', s.t_s_l, FREEZE)
        c.close('lower layer', (s.t_s_l - FREEZE) * cp_ice(tl) * s.m_s_l, ql,
                1e-3, 1e-9)
        c.close('pack', (s.t_s - FREEZE) * cp_ice(t) * s.m_s, q0 + ql, 1e-3,
                1e-9)
    if iso:
        c.close('isothermal surface', s.t_s_0, FREEZE)
        c.close('isothermal pack', s.t_s, FREEZE)
        if layers == 2:
            c.close('isothermal lower layer', s.t_s_l, FREEZE)


@CASES.case('no-snow')
def nosnow(c):
    """temperatures of absent snow stay put"""
    sn = model()
    s = sn.snow_state
    s.adjust_layer_temps()
    c.close('surface', s.t_s_0, GONE)
    c.close('lower layer', s.t_s_l, GONE)
    c.close('pack', s.t_s, GONE)


@CASES.case('transition', params=[('1layer', 1), ('2layers', 2)])
def transition(c, layers):
    """any change of depth at constant mass"""
    sn, s = build(c, layers)
    q0, ql = s.cc_s_0, s.cc_s_l
    t0, tl, t = s.t_s_0, s.t_s_l, s.t_s
    f = c.real('factor', 0.1, 8.0)
    s.z_s = s.z_s * f
    s.rho = s.m_s / s.z_s
    sn.adj_layers()
    n = s.layer_count
    c.observe('cc_s_l', s.cc_s_l)
    if n == 0:
        c.close('nothing left', s.cc_s_0, 0.0)
        c.close('nothing left below', s.cc_s_l, 0.0)
        c.close('no temperature', s.t_s_0, GONE)
        return
    c.close('surface keeps its cold content', s.cc_s_0, q0)
    c.close('surface keeps its temperature', s.t_s_0, t0)
    if n == 1:
        c.close('no cold content without a lower layer', s.cc_s_l, 0.0)
        c.close('no temperature without a lower layer', s.t_s_l, GONE)
    elif layers == 2:
        c.close('lower layer keeps its cold content', s.cc_s_l, ql)
        c.close('lower layer keeps its temperature', s.t_s_l, tl)
    else:
        c.close('new layer has the temperature of the pack', s.t_s_l, t)
        c.close('new layer has the cold content of it', s.cc_s_l,
                cp_ice(t) * s.m_s_l * (t - FREEZE), 1e-4, 1e-9)
