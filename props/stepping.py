"""A model whose physics is replaced by free values, so that what remains is
the time stepping: dividing the data step, forcing, averaging, output."""
import datetime

from .common import START, forcing, model, steps

INTERP = ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g']
SPLIT = ['m_pp', 'm_snow', 'm_rain', 'z_snow']
ENERGY = ['R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0']
RANGES = {'S_n': (-200.0, 1400.0), 'I_lw': (50.0, 500.0), 't_a': (230.0, 310.0),
          'e_a': (1.0, 3000.0), 'u': (0.0, 40.0), 't_g': (240.0, 300.0)}


def free_forcing(c, tag, precip=None):
    d = {v: c.real(v + tag, *RANGES[v]) for v in INTERP}
    if precip:
        d['m_pp'] = c.real('m_pp' + tag, 0.001, 100.0)
        d['percent_snow'] = {'rain': 0.0, 'snow': 1.0, 'mixed': None}[precip]
        if d['percent_snow'] is None:
            d['percent_snow'] = c.real('percent_snow' + tag, 0.01, 0.99)
        d['rho_snow'] = c.real('rho_snow' + tag, 20.0, 600.0)
        d['t_pp'] = c.real('t_pp' + tag, 250.0, 290.0)
    return forcing(**d)


def spy(minutes, thresholds, mode, on_step, max_z=5.0):
    """on_step(model, k, dt) is called in place of the physics of the k-th
    executed step"""
    from pysnobal.point import Snobal

    class Spy(Snobal):
        log = None

        def energy_balance(self):
            self.log.append((self.time_step, self.current_datetime,
                             {v: getattr(self.input1, v)
                              for v in INTERP + SPLIT + [
                                  'percent_snow', 'rho_snow', 't_rain',
                                  't_snow', 'h2o_sat_snow', 'precip_now']}))

        def mass_balance(self):
            on_step(self, len(self.log) - 1, self.time_step)

    params = {'elevation': 2061.0, 'start_date': START,
              'max_z_s_0': max_z, 'max_h2o_vol': 0.01,
              'relative_heights': False}
    ini = {'z_s': 0.0, 'rho': 0.0, 't_s_0': 0.0, 't_s': 0.0, 'h2o_sat': 0.0,
           'z_0': 0.005}
    hts = {'z_u': 5.0, 'z_t': 5.0, 'z_g': 0.5, 'relative_heights': False}
    sn = Spy(params, steps(thresholds, minutes), ini, hts, mode)
    sn.log = []
    return sn


def cover(sn, mass, rho=300.0):
    """a pack of the given mass (may be symbolic)"""
    s = sn.snow_state
    s.rho = rho
    s.m_s = mass
    s.z_s = mass / rho
    s.calc_layers()
    s.layer_mass()
    sn.snowcover = s.layer_count > 0


def seconds(td):
    return td.total_seconds()


def after(minutes):
    return START + datetime.timedelta(minutes=minutes)
