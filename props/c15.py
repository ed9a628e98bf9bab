"""Turbulent exchange of heat and vapour."""
from symx.api import Registry, atan, log, sqrt

from .common import FREEZE, lh_fus, lh_vap
from .c14 import water

CASES = Registry()
BOUNDS = ('stability functions for |zeta| <= 100; exchange for air 235..305 '
          'K, surface 220..280 K, vapour pressures 1..1200 Pa (below '
          'saturation over water), pressure 50..105 kPa, wind 0.1..30 m/s '
          '(and exactly 0), heights 0.5..20 m, roughness 0.0001..0.02 m; '
          'iteration cut after 1 and 2 rounds, and run to convergence in '
          'strongly stable air')
OUTSIDE = ('convergence of the iteration from arbitrary starting values; '
           'more than 2 rounds outside strongly stable air')
VK, G, CP = 0.41, 9.80665, 1005.0
MW = 18.0153
MA = 28.9644
DALR = G / CP
PI = 3.141592653589793


def spec(e, p):
    return e * MW / (MA * p + e * (MW - MA))


def psi_m(z):
    if z > 1.0:
        return -5.2
    if z > 0.0:
        return -5.2 * z
    if z == 0.0:
        return 0.0
    x = sqrt(sqrt(1.0 - 16.0 * z))
    return 2 * log((1 + x) / 2) + log((1 + x * x) / 2) - 2 * atan(x) + PI / 2


def psi_h(z):
    if z > 1.0:
        return -5.2
    if z > 0.0:
        return -5.2 * z
    if z == 0.0:
        return 0.0
    x = sqrt(sqrt(1.0 - 16.0 * z))
    return 2 * log((1 + x * x) / 2)


@CASES.case('stability-functions')
def functions(c):
    from pysnobal.point.libsnobal import psi
    z = c.real('zeta', -100.0, 100.0)
    m, h, v = psi(z, 'SM'), psi(z, 'SH'), psi(z, 'SV')
    c.observe('m', m)
    c.close('momentum', m, psi_m(z), 1e-9)
    c.close('heat', h, psi_h(z), 1e-9)
    c.close('vapour as heat', v, h, 1e-9)
    if z > 0.0:
        c.check('stable air damps', m < 0.0)
        c.ge('damping is limited', m, -5.2)
    elif z == 0.0:
        c.close('neutral', m, 0.0)


@CASES.case('stability-sign')
def sign(c):
    from pysnobal.point.libsnobal import psi
    z = c.real('zeta', -100.0, -0.001)
    c.ge('unstable air enhances heat', psi(z, 'SH'), 0.0)


@CASES.case('unknown-code')
def unknown(c):
    from pysnobal.point.libsnobal import psi
    z = c.real('zeta', -100.0, -0.001)
    try:
        psi(z, 'XX')
    except ValueError:
        c.check('rejected', True)
    else:
        c.fail('rejected')


GOOD = {'press': 80000.0, 'ta': 275.0, 'ts': 270.0, 'za': 5.0, 'ea': 400.0,
        'es': 450.0, 'zq': 5.0, 'u': 3.0, 'zu': 5.0, 'z0': 0.005}
BAD = {'roughness': ('z0', -1.0, 0.0), 'temperature height': ('za', -5, .005),
       'humidity height': ('zq', -5.0, 0.005),
       'wind height': ('zu', -5.0, 0.005), 'air kelvin': ('ta', -50.0, 0.0),
       'surface kelvin': ('ts', -50.0, 0.0), 'vapour': ('ea', -100.0, 0.0),
       'surface vapour': ('es', -100.0, 0.0), 'pressure': ('press', -10., 0.),
       'vapour above pressure': ('ea', 80000.0, 90000.0),
       'surface vapour above pressure': ('es', 80000.0, 90000.0),
       'supersaturated air': ('ea', 750.0, 5000.0)}


def call(d, **kw):
    from pysnobal.point import libsnobal
    return libsnobal.hle1(d['press'], d['ta'], d['ts'], d['za'], d['ea'],
                          d['es'], d['zq'], d['u'], d['zu'], d['z0'], **kw)


class Rounds(object):
    """limit on the rounds of the iteration, where the code has one"""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        from pysnobal.point import libsnobal
        self.lib = libsnobal
        self.old = getattr(libsnobal, 'ITMAX', None)
        if self.old is not None:
            libsnobal.ITMAX = self.n

    def __exit__(self, *a):
        if self.old is not None:
            self.lib.ITMAX = self.old


@CASES.case('bad-input')
def bad(c):
    """inputs without a meaning are rejected"""
    kind = c.choice('kind', sorted(BAD))
    d = dict(GOOD)
    f, lo, hi = BAD[kind]
    d[f] = c.real(f, lo, hi)
    try:
        with Rounds(1):
            call(d)
    except ValueError:
        c.check(kind + ' rejected', True)
    else:
        c.fail(kind + ' rejected')


@CASES.case('pressure-order')
def order(c):
    """each vapour pressure against the air pressure, any pressure"""
    d = dict(GOOD)
    which = c.choice('which', ['ea', 'es'])
    d['press'] = c.real('press', 10.0, 300.0)
    d['ea'] = d['es'] = 1.0
    d[which] = c.real('e', 10.0, 400.0)
    c.assume(d[which] >= d['press'])
    try:
        with Rounds(1):
            call(d)
    except ValueError:
        c.check('rejected', True)
    else:
        c.fail('rejected')


# air temperatures, each with vapour up to saturation at the coldest of them
AIR = [(235.0, 258.0), (258.0, 275.0), (275.0, 305.0)]
# heights of temperature, humidity and wind, and the roughness
SITES = {'usual': (5.0, 5.0, 5.0, 0.005), 'apart': (3.5, 7.0, 10.0, 0.005),
         'low': (1.2, 0.8, 2.0, 0.0002), 'rough': (6.0, 4.5, 9.0, 0.05)}


def weather(c, air=None, u=(0.1, 30.0), site='usual'):
    d = dict(GOOD)
    d['za'], d['zq'], d['zu'], d['z0'] = SITES[site]
    d['press'] = c.real('press', 50000.0, 105000.0)
    if air is None:
        air = c.choice('air', [0, 1, 2])
    lo, hi = AIR[air]
    d['ta'] = c.real('ta%d' % lo, lo, hi)
    d['ts'] = c.real('ts', 220.0, 280.0)
    d['ea'] = c.real('ea%d' % lo, 1.0, 2400.0)
    c.assume(d['ea'] <= water(lo))
    d['es'] = c.real('es', 1.0, 990.0)
    if u:
        d['u'] = c.real('u', *u)
    return d


def saturated(ea, ta):
    """air above saturation is taken as saturated"""
    from pysnobal.point.libsnobal import satw
    w = satw(ta)
    return w if ea > w else ea


def reference(d, rounds, start=None):
    """Marks & Dozier (1992), the given number of rounds from neutral"""
    z0 = d['z0']
    d0 = 2 * 7.35 * z0 / 3
    lm = log((d['zu'] - d0) / z0)
    lh = log((d['za'] - d0) / z0)
    lv = log((d['zq'] - d0) / z0)
    ea = saturated(d['ea'], d['ta'])
    dq = spec(ea, d['press']) - spec(d['es'], d['press'])
    ta = d['ta'] + DALR * d['za']
    dt = ta - d['ts']
    tv = sqrt(ta * d['ts']) / (1.0 - (1.0 - MW / MA) * (
        sqrt(ea * d['es']) / d['press']))
    dens = d['press'] * MA / (8314.32 * tv)
    us = VK * d['u'] / lm
    k = VK * us * dens
    if start:
        us, k = start
    e = dq * k / lv
    h = dt * k * CP / lh
    for _ in range(rounds):
        lo = us * us * us * dens / (VK * G * (h / (ta * CP) + 0.61 * e))
        us = VK * d['u'] / (lm - psi_m(d['zu'] / lo))
        k = VK * us * dens
        e = dq * k / (lv - psi_h(d['zq'] / lo))
        h = dt * k * CP / (lh - psi_h(d['za'] / lo))
    return h, e, us, k, dt, dq, dens


def heat(ts):
    x = lh_vap(ts)
    if ts <= FREEZE:
        x = x + lh_fus(ts)
    return x


@CASES.case('neutral')
def neutral(c):
    """no temperature difference"""
    d = weather(c)
    d['ts'] = d['ta'] + DALR * d['za']
    with Rounds(1):
        h, le, e, st, us, k = call(d)
    rh, re, rus, rk, dt, dq, dens = reference(d, 0)
    c.close('no sensible heat', h, 0.0, 1e-6)
    c.close('vapour flux', e, re, 1e-9)
    c.close('latent heat', le, heat(d['ts']) * re, 1e-4)
    c.close('friction velocity', us, rus, 1e-9)
    c.close('status', st, 0)


@CASES.case('calm')
def calm(c):
    """no wind, no exchange, also just after and just before wind"""
    d = weather(c, u=None)
    c.assume(d['ts'] != d['ta'] + DALR * d['za'])
    d['u'] = 0.0
    us = c.choice('before', [None, 0.0, 0.3])
    with Rounds(1):
        h, le, e, st, us, k = call(d, init_ustar=us,
                                   init_factor=us and 0.1)
    c.close('no heat', h, 0.0)
    c.close('no latent heat', le, 0.0)
    c.close('no vapour', e, 0.0)
    c.close('status', st, 0)


def rounds(c, n, stable, air, site='usual', started=False):
    d = weather(c, air, site=site)
    start, kw = None, {}
    if started:
        start = c.real('init_ustar', 0.001, 3.0), c.real(
            'init_factor', 0.001, 3.0)
        kw = {'init_ustar': start[0], 'init_factor': start[1]}
    if stable:
        c.assume(d['ta'] + DALR * d['za'] > d['ts'])
    else:
        c.assume(d['ta'] + DALR * d['za'] < d['ts'])
    with Rounds(n):
        try:
            h, le, e, st, us, k = call(d, **kw)
        except ZeroDivisionError:
            # heat and vapour buoyancy cancel exactly
            return
    rh, re, rus, rk, dt, dq, dens = reference(d, n, start)
    c.observe('h', h)
    c.close('sensible heat flux', h, rh, 1e-6, 1e-6)
    c.close('vapour flux', e, re, 1e-9, 1e-6)
    c.close('friction velocity', us, rus, 1e-9, 1e-6)
    c.close('latent heat', le, heat(d['ts']) * e, 1e-4)
    c.close('exchange factor', k, VK * us * dens, 1e-9)
    if site == 'usual':
        c.close('heat and vapour are carried alike', e * dt * CP, h * dq,
                1e-6)


KIND = [('stable', True), ('unstable', False)]
CASES.case('rounds', params=[
    ('1-%s-%d' % (k, a), 1, v, a) for k, v in KIND for a in (0, 1, 2)] + [
    ('2-%s' % k, 2, v, 1) for k, v in KIND] + [
    ('1-%s-%s' % (x, k), 1, v, a, x) for k, v in KIND
    for a, x in enumerate(('apart', 'low', 'rough'))] + [
    ('1-started-%s' % k, 1, v, 1, 'apart', True) for k, v in KIND],
    prune_timeout=0.2)(rounds)


@CASES.case('not-converged')
def unconverged(c):
    """an iteration that ends without convergence says so"""
    from pysnobal.point import libsnobal
    if not hasattr(libsnobal, 'ITMAX'):
        c.check('not applicable', True)
        return
    d = dict(GOOD)
    d['u'] = c.real('u', 1.0, 10.0)
    d['ts'] = c.real('ts', 262.0, 273.0)
    c.assume(d['ta'] + DALR * d['za'] > d['ts'] + 1.0)
    with Rounds(1):
        st = call(d)[3]
    # after one round the stability length has only been computed once
    c.check('non-convergence is reported', st != 0,
            finding='nonconvergence-silent')
