"""Derived quantities follow what they derive from."""
from symx.api import Registry

from .c14 import ice, water
from .common import FREEZE, forcing

CASES = Registry()
BOUNDS = ('every sequence of three (thorough: four) reads and changes of '
          'temperatures (200..330 K) and depths (0..5 m), then all derived '
          'quantities are read')
MZ, TH = 0.25, 1.0


def es(t):
    if t > FREEZE:
        return water(t)
    return ice(t)


def count(s):
    return int(bool(s.z_s_0 > 0)) + int(bool(s.z_s_l > 0))


def same(c, what, got, want):
    c.close(what, got, want, 1e-9, 1e-9)


SNOW = ['surface temperature', 'lower temperature', 'depth', 'read surface',
        'read lower', 'read layers', 'both from cold content']


def snow(c, n):
    from pysnobal.point import SnowState
    s = SnowState(max_z_s_0=MZ, small_threshold=TH)
    s.t_s_0 = c.real('t_a0', 200.0, FREEZE)
    s.t_s_l = c.real('t_b0', 200.0, FREEZE)
    s.rho = 200.0

    def depth(i):
        s.z_s = (0.001, 0.1, 1.0)[c.choice('depth%d' % i, [0, 1, 2])]
        s.m_s = s.rho * s.z_s
        s.calc_layers()
        s.layer_mass()
    depth(0)
    for i in range(1, n + 1):
        op = c.choice('op%d' % i, SNOW)
        if op == 'surface temperature':
            s.t_s_0 = c.real('t_a%d' % i, 200.0, FREEZE)
        elif op == 'lower temperature':
            s.t_s_l = c.real('t_b%d' % i, 200.0, FREEZE)
        elif op == 'depth':
            depth(i)
        elif op == 'read surface':
            same(c, 'surface vapour pressure', s.e_s_0, es(s.t_s_0))
        elif op == 'read lower':
            same(c, 'lower vapour pressure', s.e_s_l, es(s.t_s_l))
        elif op == 'read layers':
            c.check('number of layers', s.layer_count == count(s))
        else:
            s.cc_s_0 = -10000.0 * i
            s.cc_s_l = -20000.0 * i
            s.adjust_layer_temps()
    same(c, 'surface vapour pressure', s.e_s_0, es(s.t_s_0))
    same(c, 'lower vapour pressure', s.e_s_l, es(s.t_s_l))
    c.check('number of layers', s.layer_count == count(s))
    c.check('snowcover', bool(s.snowcover) == (count(s) > 0))


CASES.case('snow', params=[('2', 2)], max_paths=20000)(snow)
CASES.case('snow', tier='thorough', params=[('3', 3)], max_paths=60000)(snow)

AIR = ['air temperature', 'soil temperature', 'advance', 'read air',
       'read soil']


def air(c, n):
    from pysnobal.point import InputData, InputDeltas
    r = InputData(forcing(t_a=c.real('t_a0', 200.0, FREEZE),
                          t_g=c.real('t_g0', 200.0, FREEZE)))
    later = InputData(forcing(t_a=c.real('t_ae', 200.0, FREEZE),
                              t_g=c.real('t_ge', 200.0, FREEZE)))
    d = InputDeltas(r, later, [{'level': 0, 'intervals_per_timestep': 8}]
                    ).calculate()[0]
    moved = False
    for i in range(1, n + 1):
        op = c.choice('op%d' % i, AIR)
        if op == 'air temperature':
            r.t_a = c.real('t_a%d' % i, 200.0, FREEZE)
            moved = True
        elif op == 'soil temperature':
            r.t_g = c.real('t_g%d' % i, 200.0, FREEZE)
            moved = True
        elif op == 'advance':
            if moved:
                # keeps the temperature within the stated range
                c.assume((r.t_a + d.t_a <= FREEZE) &
                         (r.t_a + d.t_a >= 200.0))
                c.assume((r.t_g + d.t_g <= FREEZE) &
                         (r.t_g + d.t_g >= 200.0))
            r.add_deltas(d)
        elif op == 'read air':
            same(c, 'saturation of the air', r.sat_vp, ice(r.t_a))
        else:
            same(c, 'vapour pressure in the soil', r.e_g, ice(r.t_g))
    same(c, 'saturation of the air', r.sat_vp, ice(r.t_a))
    same(c, 'vapour pressure in the soil', r.e_g, ice(r.t_g))
    same(c, 'saturation of the later record', later.sat_vp, ice(later.t_a))


CASES.case('forcing', params=[('3', 3)], max_paths=20000)(air)
CASES.case('forcing', tier='thorough', params=[('4', 4)],
           max_paths=60000)(air)


@CASES.case('warm')
def warm(c):
    """above freezing"""
    from pysnobal.point import InputData
    r = InputData(forcing(t_a=c.real('t_a', 273.17, 330.0),
                          t_g=c.real('t_g', 273.17, 330.0)))
    first = r.sat_vp, r.e_g
    same(c, 'saturation of the air', first[0], water(r.t_a))
    same(c, 'vapour pressure in the soil', first[1], water(r.t_g))
    r.t_a = c.real('t_a1', 200.0, FREEZE)
    r.t_g = c.real('t_g1', 200.0, FREEZE)
    same(c, 'saturation of the cooled air', r.sat_vp, ice(r.t_a))
    same(c, 'vapour pressure in the cooled soil', r.e_g, ice(r.t_g))
