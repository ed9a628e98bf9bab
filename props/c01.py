"""Layer partition of the snowpack."""
from symx.api import Registry

CASES = Registry()
BOUNDS = ('depth 0..30 m, density 1..917 kg/m3, maximum active-layer depth '
          '0.01..3 m, removal threshold 0.01..100 kg/m2; both layering '
          'routes: a new partition and re-partition of an existing pack')
ASSUMPTIONS = ['the depth, density and mass handed to the layering agree '
               '(mass = density * depth)']


def partition(c, before):
    from pysnobal.point import SnowState
    mz = c.real('max_active', 0.01, 3.0)
    th = c.real('threshold', 0.01, 100.0)
    s = SnowState(max_z_s_0=mz, small_threshold=th)
    if before:
        # a pack that already went through a partition
        s.z_s = c.real('z_before', 0.0, 30.0)
        s.rho = c.real('rho_before', 1.0, 917.0)
        s.m_s = s.z_s * s.rho
        s.calc_layers()
        s.layer_mass()
        c.assume(s.layer_count == before)
    z = c.real('z', 0.0, 30.0)
    rho = c.real('rho', 1.0, 917.0)
    s.z_s = z
    s.rho = rho
    s.m_s = z * rho
    s.calc_layers()
    n = s.layer_count
    c.observe('n', n)
    c.observe('z0', s.z_s_0)
    c.observe('zl', s.z_s_l)
    m = z * rho
    c.close('total depth is the sum of the layers', s.z_s,
            s.z_s_0 + s.z_s_l)
    if m <= th:
        c.check('no layers at or below the threshold', n == 0)
        c.close('nothing left on the ground', s.z_s, 0.0)
    else:
        c.check('snow above the threshold has a layer', n >= 1)
        c.close('depth preserved', s.z_s, z)
        if n == 1:
            c.close('one layer holds it all', s.z_s_0, z)
            c.close('no lower layer', s.z_s_l, 0.0)
            # one layer only if there is no lower layer heavy enough
            c.check('one layer rule', z <= mz or (z - mz) * rho < th)
        else:
            c.check('at most two layers', n == 2)
            c.close('surface layer takes the maximum depth', s.z_s_0, mz)
            c.close('lower layer takes the rest', s.z_s_l, z - mz)
            c.check('lower layer heavy enough', (z - mz) * rho >= th)
    s.layer_mass()
    c.close('surface mass', s.m_s_0, rho * s.z_s_0, 1e-6)
    c.close('lower mass', s.m_s_l, rho * s.z_s_l, 1e-6)
    c.check('snowcover flag', s.snowcover == (n > 0))


CASES.case('partition', params=[('new', 0), ('from1', 1), ('from2', 2)])(
    partition)
