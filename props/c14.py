"""Saturation vapour pressure."""
import numpy as np

from symx.api import Registry, issym, log, power

from .common import FREEZE

CASES = Registry()
BOUNDS = ('temperatures 200..330 K (one or two at a time); negative '
          'temperatures down to -300 K; elementwise versions on arrays of up '
          'to 3 values')
BOIL = 373.15
L10 = 2.302585092994046
LSL = log(1.013246e5)


def ice(t):
    """Goff-Gratch over ice"""
    f = FREEZE / t
    return 100.0 * power(10.0, -9.09718 * (f - 1.0) - 3.56654 * log(f) / L10 +
                         0.876793 * (1.0 - t / FREEZE) + log(6.1071) / L10)


def water(t):
    """Goff-Gratch over water"""
    b = BOIL / t
    return power(10.0, -7.90298 * (b - 1.0) + 5.02808 * log(b) / L10 -
                 1.3816e-7 * (power(10.0, 11.344 * (1.0 - t / BOIL)) - 1.0) +
                 8.1328e-3 * (power(10.0, -3.49149 * (b - 1.0)) - 1.0) +
                 LSL / L10)


@CASES.case('formula')
def formula(c):
    from pysnobal.point.libsnobal import sati, satw
    t = c.real('t', 200.0, 330.0)
    w = satw(t)
    i = sati(t)
    c.observe('satw', w)
    c.observe('sati', i)
    c.close('over water', w, water(t), 1e-6, 1e-6)
    if t > FREEZE:
        c.close('above freezing the value over water', i, water(t), 1e-6,
                1e-6)
    else:
        c.close('at or below freezing the value over ice', i, ice(t), 1e-6,
                1e-6)
    c.check('positive', i > 0.0)
    c.check('positive over water', w > 0.0)


@CASES.case('negative')
def negative(c):
    """negative Kelvin is rejected, not extrapolated"""
    from pysnobal.point.libsnobal import sati, satw
    t = c.real('t', -300.0, -1e-6)
    for name, f in (('sati', sati), ('satw', satw)):
        try:
            f(t)
        except ValueError:
            c.check(name + ' rejects', True)
        else:
            c.fail(name + ' rejects')


@CASES.case('monotone', params=[('ice', 0), ('water', 1)], nra_timeout=30.0)
def monotone(c, which):
    from pysnobal.point.libsnobal import sati
    a = c.real('t1', *((200.0, FREEZE) if not which else (FREEZE, 330.0)))
    b = c.real('t2', *((200.0, FREEZE) if not which else (FREEZE, 330.0)))
    c.assume(b > a)
    if which:
        c.assume(a > FREEZE)
    x, y = sati(a), sati(b)
    c.observe('d', y - x)
    c.ge('warmer means more vapour', y, x, 1e-6)


@CASES.case('across')
def across(c):
    """the ice and water branches meet at the freezing point"""
    from pysnobal.point.libsnobal import sati
    t = c.real('t', FREEZE, FREEZE + 0.01)
    lo, hi = sati(FREEZE), sati(t)
    c.observe('hi', hi)
    c.le('no jump at freezing', hi, lo * 1.01)
    c.ge('no drop at freezing', hi, lo * 0.99)


@CASES.case('vectorised', params=[('1', 1), ('2', 2)])
@CASES.case('vectorised', tier='thorough', params=[('3', 3)])
def vector(c, n):
    """the array version agrees with the scalar one, element by element"""
    from pysnobal.point.libsnobal import sati, sati_np, satw, satw_np
    ts = [c.real('t%d' % i, 200.0, 330.0) for i in range(n)]
    kind = object if any(issym(t) for t in ts) else float
    a = np.empty(n, dtype=kind)
    b = np.empty(n, dtype=kind)
    for i in range(n):
        a[i] = b[i] = ts[i]
    x, y = sati_np(a), satw_np(b)
    c.check('same length', len(x) == n and len(y) == n)
    for i in range(n):
        c.close('over ice', x[i], sati(ts[i]), 1e-6, 1e-6)
        c.close('over water', y[i], satw(ts[i]), 1e-6, 1e-6)
