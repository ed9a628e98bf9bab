"""Measurement heights and limits handed to the turbulent transfer."""
from symx.api import Registry

from .c14 import ice, water
from .common import FREEZE, model, pack

CASES = Registry()
BOUNDS = ('heights 2..20 m for wind and temperature, heights above ground or '
          'above the snow, depth 0.0005..1.9 m above it, roughness '
          '0.0001..0.02 m, air 235..305 K, any vapour pressure up to 5000 '
          'Pa, wind 0..40 m/s, surface 220..273.16 K')
OUTSIDE = 'the transfer itself (recorded, see C15)'


class Recorder(object):
    """stands in for the transfer function and keeps its arguments"""

    NAMES = ['press', 'air_temp', 'surface_temp', 'za', 'ea', 'es', 'zq',
             'wind_speed', 'zu', 'z0', 'init_ustar', 'init_factor']
    WHERE = ['pysnobal.point.libsnobal', 'pysnobal.point.snobal']

    def __init__(self, c, status=0):
        self.calls = []
        self.out = (c.real('H', -500.0, 500.0), c.real('L_v_E', -500.0,
                                                       500.0),
                    c.real('E', -1e-3, 1e-3), status,
                    c.real('ustar', 0.01, 2.0), c.real('factor', 0.001, 1.0))

    def __call__(self, *a, **kw):
        got = self.sig.bind(*a, **kw)
        got.apply_defaults()
        self.calls.append(dict(zip(self.NAMES, got.arguments.values())))
        return self.out

    def __enter__(self):
        import importlib
        import inspect
        mods = [importlib.import_module(m) for m in self.WHERE]
        self.old = [(m, m.hle1) for m in mods if hasattr(m, 'hle1')]
        self.sig = inspect.signature(self.old[0][1])
        for m, _ in self.old:
            m.hle1 = self
        return self

    def __exit__(self, *a):
        for m, f in self.old:
            m.hle1 = f


def build(c, relative, layers):
    zu, zt = c.real('z_u', 2.0, 20.0), c.real('z_t', 2.0, 20.0)
    inputs = {'t_a': c.real('t_a', 235.0, 305.0),
              'e_a': c.real('e_a', 1.0, 5000.0),
              'u': c.real('u', 0.0, 40.0)}
    z0 = c.real('z_0', 0.0001, 0.02)
    sn = model(relative=relative, heights={'z_u': zu, 'z_t': zt},
               inputs=inputs, initial={'z_0': z0},
               elevation=c.choice('elevation', [0.0, 2061.0, 4200.0]))
    s = pack(c, sn, layers, cold=False, wet=False, z=(0.0005, 1.9))
    s.t_s_0 = s.t_s = c.real('t_s_0', 220.0, FREEZE)
    return sn, s, zu, zt, z0, inputs


def heights(c, relative, layers):
    sn, s, zu, zt, z0, inp = build(c, relative, layers)
    with Recorder(c) as r:
        sn.h_le()
    c.check('one transfer', len(r.calls) == 1)
    d = r.calls[0]
    drop = 0.0 if relative else s.z_s
    c.close('height of the temperature', d['za'], zt - drop, 1e-12)
    c.close('height of the humidity', d['zq'], zt - drop, 1e-12)
    c.close('height of the wind', d['zu'], zu - drop, 1e-12)
    c.close('roughness', d['z0'], z0)
    c.close('site pressure', d['press'], sn.P_a)
    c.close('surface temperature', d['surface_temp'], s.t_s_0)
    c.close('air temperature', d['air_temp'], inp['t_a'])
    c.close('wind', d['wind_speed'], inp['u'])
    c.close('saturated surface', d['es'], ice(s.t_s_0), 1e-6, 1e-6)
    sat = water(inp['t_a']) if inp['t_a'] > FREEZE else ice(inp['t_a'])
    if inp['e_a'] > sat:
        c.close('limited to saturation', d['ea'], sat, 1e-6, 1e-6)
    else:
        c.close('vapour pressure of the air', d['ea'], inp['e_a'])
    c.close('sensible heat taken over', s.H, r.out[0])
    c.close('latent heat taken over', s.L_v_E, r.out[1])
    c.close('vapour flux taken over', s.E, r.out[2])


CASES.case('heights', params=[
    ('ground-1layer', False, 1), ('ground-2layers', False, 2),
    ('snow-1layer', True, 1), ('snow-2layers', True, 2)])(heights)


@CASES.case('start-values')
def again(c):
    """each transfer starts from the one before"""
    sn, s, zu, zt, z0, inp = build(c, False, 1)
    with Recorder(c) as r:
        sn.h_le()
        sn.h_le()
    a, b = r.calls
    c.check('first without start', a['init_ustar'] is None and
            a['init_factor'] is None)
    c.close('friction velocity', b['init_ustar'], r.out[4])
    c.close('exchange factor', b['init_factor'], r.out[5])


@CASES.case('no-convergence')
def fails(c):
    """a failed transfer is not used"""
    sn, s, zu, zt, z0, inp = build(c, False, 1)
    with Recorder(c, status=-1):
        try:
            sn.h_le()
        except Exception:
            c.check('reported', True)
        else:
            c.fail('reported')
