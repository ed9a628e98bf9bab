"""The command-level driver (configuration, input file, output file) around
the model, without reading a configuration file."""
import datetime
import os
import shutil
import tempfile

from symx.api import issym

START = datetime.datetime(2001, 2, 3)
COLUMNS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
           'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow',
           'rho_snow', 'precip_temp']
NAMES = {'net_solar': 'S_n', 'incoming_thermal': 'I_lw', 'air_temp': 't_a',
         'vapor_pressure': 'e_a', 'wind_speed': 'u', 'soil_temp': 't_g',
         'precip_mass': 'm_pp', 'percent_snow': 'percent_snow',
         'rho_snow': 'rho_snow', 'precip_temp': 't_pp'}
RANGES = {'net_solar': (-200.0, 1200.0), 'incoming_thermal': (50.0, 500.0),
          'air_temp': (-50.0, 40.0), 'vapor_pressure': (1.0, 3000.0),
          'wind_speed': (0.0, 50.0), 'soil_temp': (-30.0, 30.0),
          'precip_mass': (0.0, 100.0), 'percent_snow': (0.0, 1.0),
          'rho_snow': (0.0, 600.0), 'precip_temp': (-40.0, 30.0)}


def stamp(t):
    return t.strftime('%m-%d-%Y %H:%M')


def config(start=START, end=None, zone='UTC', **sections):
    d = {
        'topo': {'elevation': 2061.0},
        'time': {'start_date': start, 'end_date': end or start,
                 'time_step': 60, 'time_zone': zone},
        'measurement_heights': {'z_u': 5.0, 'z_t': 5.0, 'z_g': 0.5,
                                'relative_heights': False},
        'model': {'norm_time_step': 60, 'medium_time_step': 15,
                  'small_time_step': 1, 'norm_threshold': 60,
                  'medium_threshold': 10, 'small_threshold': 1,
                  'max_h2o': 0.01, 'max_active': 0.25},
        'files': {'input_csv': 'none.csv', 'output_csv': 'none.csv',
                  'output_mode': 'normal', 'format_output': True},
        'initial_snow_properties': {
            'z_s': 0.0, 'rho': 0.0, 't_s_0': 0.0, 't_s': 0.0, 'h2o_sat': 0.0,
            'z_0': 0.005}}
    for k, v in sections.items():
        d[k].update(v)
    return d


def driver(cfg):
    """a driver with this configuration, nothing parsed or read yet"""
    from pysnobal.pysnobal import PySnobal
    py = PySnobal.__new__(PySnobal)
    py.output_timesteps = None
    py.config = cfg
    return py


class Scratch(object):
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='symx-')
        return self

    def file(self, name):
        return os.path.join(self.path, name)

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class SymbolicFile(object):
    """writes a table to a real file, with a unique number in place of each
    symbol, which turns into the symbol again when the file is read"""

    def __init__(self):
        self.back = {}

    def cell(self, x):
        if not issym(x):
            return repr(x)
        for k, v in self.back.items():
            if v is x:
                return repr(k)
        k = 50000.0 + 1.25 * len(self.back)
        self.back[k] = x
        return repr(k)

    def write(self, path, names, rows):
        with open(path, 'w') as f:
            f.write(','.join(names) + '\n')
            for r in rows:
                f.write(','.join(x if isinstance(x, str) else self.cell(x)
                                 for x in r) + '\n')

    def restore(self, df):
        for col in list(df.columns):
            v = list(df[col])
            if any(isinstance(x, float) and x in self.back for x in v):
                import numpy as np
                a = np.empty(len(v), dtype=object)
                for i, x in enumerate(v):
                    a[i] = self.back.get(x, x)
                df[col] = a
        return df

    def __enter__(self):
        import pandas
        import pysnobal.pysnobal as pp
        self.old = []
        if not self.back:
            return self
        real = pandas.read_csv

        def read(*a, **kw):
            return self.restore(real(*a, **kw))
        for m in (pandas, pp):
            if getattr(m, 'read_csv', None) is real:
                self.old.append((m, real))
                m.read_csv = read
        return self

    def __exit__(self, *a):
        for m, f in self.old:
            m.read_csv = f


class Frames(object):
    """rounding of a table, and the number format it is written with, reach
    the symbols in it, which pandas would leave alone"""

    def __enter__(self):
        import numpy as np
        import pandas as pd
        self.pd = pd
        self.old = pd.DataFrame.round, pd.Series.round, pd.DataFrame.to_csv
        frame, series, to_csv = self.old

        def column(v, n):
            a = np.empty(len(v), dtype=object)
            for i, x in enumerate(v):
                a[i] = round(x, n)
            return a

        def round_frame(df, decimals=0, *a, **kw):
            out = frame(df, decimals, *a, **kw)
            for c in df.columns:
                n = decimals if isinstance(decimals, int) else \
                    decimals.get(c)
                if n is not None and any(issym(x) for x in df[c]):
                    out[c] = column(df[c], n)
            return out

        def round_series(s, decimals=0, *a, **kw):
            if any(issym(x) for x in s):
                return pd.Series(column(s, decimals), index=s.index,
                                 name=s.name)
            return series(s, decimals, *a, **kw)

        def write(df, *a, **kw):
            # as columns of floats, the tags of the symbols
            if any(issym(x) for c in df.columns for x in df[c]):
                df = df.copy()
                for c in df.columns:
                    if any(issym(x) for x in df[c]):
                        df[c] = [float(x) for x in df[c]]
            return to_csv(df, *a, **kw)
        pd.DataFrame.round, pd.Series.round = round_frame, round_series
        pd.DataFrame.to_csv = write
        return self

    def __exit__(self, *a):
        (self.pd.DataFrame.round, self.pd.Series.round,
         self.pd.DataFrame.to_csv) = self.old
