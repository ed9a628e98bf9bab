"""The output file."""
import csv
import datetime
import re

from symx.api import Registry, Tags, issym

from .common import FREEZE, START, model
from .driver import Frames, Scratch, config, driver

CASES = Registry()
BOUNDS = ('runs of one, two and three records in any order, any values of '
          'every quantity, with and without the original number format, time '
          'zones UTC and MST, time steps of an hour and of 20 s')
OUTSIDE = 'the writing of a number with a given number of digits (Python)'

COLUMN = {'R_n_bar': 'R_n', 'H_bar': 'H', 'L_v_E_bar': 'L_v_E',
          'G_bar': 'G', 'G_0_bar': 'G_0', 'M_bar': 'M',
          'delta_Q_bar': 'delta_Q', 'delta_Q_0_bar': 'delta_Q_0',
          'E_s_sum': 'E_s', 'melt_sum': 'melt', 'swi_sum': 'swi'}
DIGITS = {'R_n': 3, 'H': 3, 'L_v_E': 3, 'G': 3, 'M': 3, 'delta_Q': 3,
          'G_0': 3, 'delta_Q_0': 3, 'cc_s_0': 'e9', 'cc_s_l': 'e9',
          'cc_s': 'e9', 'E_s': 8, 'melt': 8, 'swi': 8, 'z_s_0': 6,
          'z_s_l': 6, 'z_s': 6, 'rho': 3, 'm_s_0': 3, 'm_s_l': 3, 'm_s': 3,
          'h2o': 3, 't_s_0': 5, 't_s_l': 5, 't_s': 5}
ORDERS = {'one': [0], 'two': [0, 1], 'back': [1, 0], 'three': [2, 0, 1]}


def template(name):
    d = DIGITS[name]
    return '%.9e' if d == 'e9' else '%%.%df' % d


def shape(name, text):
    """is this text a number with the digits of the quantity?"""
    d = DIGITS[name]
    if d == 'e9':
        return re.match(r'-?\d\.\d{9}e[+-]\d\d$', text)
    return re.match(r'-?\d+\.\d{%d}$' % d, text)


def unit(name, x):
    """half a unit of the last digit"""
    d = DIGITS[name]
    return abs(x) * 0.51e-9 + 1e-300 if d == 'e9' else 0.51 * 10.0 ** -d


def write(c, order, zone, fmt, seconds):
    import pandas as pd
    sn = model()
    recs = []
    for i in range(len(order)):
        # the offset gives every concrete run all digits
        r = {k: c.real('%s_%d' % (k, i), *(
            (200.0, 280.0) if k.startswith('t_s') else (-2e7, 2e7) if
            k.startswith('cc') else (-9000.0, 9000.0))) +
            1.2345678912345678e-9 for k in sn.output_rec}
        r['date_time'] = pd.Timestamp(START).tz_localize(zone) + \
            datetime.timedelta(seconds=i * seconds)
        recs.append(r)
    sn.output_list = [dict(recs[i]) for i in order]
    with Scratch() as d, Tags() as tags, Frames():
        py = driver(config(START, START, zone, files={
            'output_csv': d.file('out.csv'), 'format_output': fmt}))
        py.snobal = sn
        py.output_to_file()
        with open(d.file('out.csv')) as f:
            rows = list(csv.reader(f))
    return recs, rows[0], rows[1:], tags


def check(c, kind, fmt):
    zone = c.choice('zone', ['UTC', 'MST'])
    recs, head, rows, tags = write(c, ORDERS[kind], zone, fmt,
                                   c.choice('seconds', [3600, 20]))
    want = {COLUMN.get(k, k) for k in recs[0]} & set(DIGITS)
    if head[0] != 'date_time' or set(head[1:]) != want or \
            len(head) != len(DIGITS) + 1:
        c.fail('columns')
        return
    c.check('columns', True)
    import pandas as pd
    if [pd.Timestamp(r[0]) for r in rows] != [r['date_time'] for r in recs]:
        c.fail('records, in time order')
        return
    c.check('records, in time order', True)
    for rec, row in zip(recs, rows):
        for src, x in rec.items():
            name = COLUMN.get(src, src)
            if name not in DIGITS:
                continue
            if name.startswith('t_s'):
                x = x - FREEZE
            text = row[head.index(name)]
            label = 'column ' + name
            if issym(x):
                got = tags.get(text, template(name) if fmt else None,
                               -FREEZE)
                if got is None:
                    c.fail(label)
                else:
                    c.close(label, got, x, 1e-13)
            elif fmt:
                c.check(label, bool(shape(name, text)) and
                        abs(float(text) - x) <= unit(name, x) + 1e-9)
            else:
                c.check(label, abs(float(text) - x) <= (
                    1e-12 if name.startswith('t_s') else 0.0))


CASES.case('formatted', params=[(k, k, True) for k in sorted(ORDERS)])(check)
CASES.case('plain', params=[(k, k, False) for k in sorted(ORDERS)])(check)
