"""Reading the forcing file."""
import datetime

from symx.api import Registry

from .common import FREEZE
from .driver import (COLUMNS, NAMES, RANGES, START, Scratch, SymbolicFile,
                     config, driver)

CASES = Registry()
BOUNDS = ('files of four records (thorough: five) in ascending, descending '
          'and mixed order with any values of every column; start and end at '
          'any record, or between records; intervals of 60 and 15 '
          'minutes, with records missing in or after the period; time zones '
          'UTC, MST, Asia/Kolkata, America/Denver, also across the change to '
          'summer time; the order of the columns as documented and reversed')
OUTSIDE = 'the parsing of numbers and dates in the file (done by pandas)'


def table(c, n, only=None):
    """any values; columns that do not matter to a case stay fixed"""
    rows = []
    for i in range(n):
        r = {}
        for k, name in enumerate(COLUMNS):
            if only is None or name in only:
                r[name] = c.real('%s_%d' % (name, i), *RANGES[name])
            else:
                r[name] = 10.5 * i + k + 0.25
        if only is None or 'percent_snow' not in only:
            r['percent_snow'] = 1.0
        rows.append(r)
    return rows


def read(c, rows, order, minutes, first, last, zone, columns=COLUMNS,
         at=None, late=0, base=START):
    """records at multiples (at) of the interval; the period starts and ends
    some minutes (late) after a record"""
    step = datetime.timedelta(minutes=minutes)
    at = at or list(range(len(rows)))
    when = [base + k * step for k in at]
    late = datetime.timedelta(minutes=late)
    begin, end = when[first] + late, when[last] + late
    with Scratch() as d, SymbolicFile() as f:
        f.write(d.file('in.csv'), ['date_time'] + columns,
                [[when[i].strftime('%m/%d/%Y %H:%M')] +
                 [rows[i][k] for k in columns] for i in order])
        with f:
            py = driver(config(begin, end, zone,
                               files={'input_csv': d.file('in.csv')}))
            py.parse_params()
            py.parse_time_steps()
            py.read_input_data()
    import pandas as pd

    def there(t):
        return pd.Timestamp(t).tz_localize(zone)
    keep = [i for i in range(len(rows))
            if there(begin) <= there(when[i]) <= there(end) + step]
    return py.input_data, keep, when


def expect(c, df, keep, when, rows, zone):
    import pandas as pd
    want = [pd.Timestamp(when[i]).tz_localize(zone) for i in keep]
    if list(df.index) != want:
        c.fail('records of the period, in order')
        return
    c.check('records of the period, in order', True)
    recs = df.to_dict('records')
    for i, got in zip(keep, recs):
        r = rows[i]
        for name in COLUMNS:
            x = r[name]
            if name in ('air_temp', 'soil_temp', 'precip_temp'):
                x = x + FREEZE
            if name == 'precip_temp':
                if r['precip_mass'] * (1 - r['percent_snow']) > 0.0:
                    if x < FREEZE:
                        x = FREEZE
            c.close('column ' + name, got[NAMES[name]], x, 1e-9)


ORDERS = [('up', [0, 1, 2, 3]), ('down', [3, 2, 1, 0]),
          ('mixed', [2, 0, 3, 1]), ('swapped', [1, 0, 2, 3])]


def content(c, order, minutes):
    """any content of the columns that are taken as they are"""
    rows = table(c, len(order), [k for k in COLUMNS if k not in (
        'percent_snow', 'precip_temp', 'precip_mass')])
    n = len(order)
    first = c.choice('first', list(range(n)))
    last = c.choice('last', list(range(n)))
    if last < first:
        c.assume(False)
    zone = c.choice('zone', ['UTC', 'MST'])
    df, keep, when = read(c, rows, order, minutes, first, last, zone)
    expect(c, df, keep, when, rows, zone)


CASES.case('content', params=[('%s-%d' % (n, m), o, m) for n, o in ORDERS
                              for m in (60, 15)])(content)
CASES.case('content', tier='thorough', params=[
    ('five', [4, 0, 2, 1, 3], 60), ('five-15', [0, 3, 1, 4, 2], 15),
    ('five-down', [4, 3, 2, 1, 0], 180)])(content)


@CASES.case('gap', params=[
    ('after', [0, 1, 2, 3, 7, 8], [0, 1, 2, 3, 4, 5]),
    ('within', [0, 1, 2, 5, 6, 7], [5, 3, 1, 0, 2, 4])])
def gap(c, at, order):
    """records that are missing do not change the interval of the data"""
    rows = table(c, len(at), ['air_temp'])
    first = c.choice('first', [0, 1])
    last = c.choice('last', [1, 2, 3])
    df, keep, when = read(c, rows, order, 60, first, last, 'UTC', at=at)
    expect(c, df, keep, when, rows, 'UTC')


@CASES.case('between', params=[('60', 60, 25), ('15', 15, 5)])
def between(c, minutes, late):
    """a period that starts and ends between records"""
    rows = table(c, 5, ['wind_speed', 'soil_temp'])
    first = c.choice('first', [0, 1, 2])
    last = c.choice('last', [2, 3])
    zone = c.choice('zone', ['Asia/Kolkata', 'America/Denver'])
    df, keep, when = read(c, rows, [3, 0, 4, 1, 2], minutes, first, last,
                          zone, late=late)
    expect(c, df, keep, when, rows, zone)


@CASES.case('summer-time')
def summer(c):
    """a period across the hour that is left out in spring"""
    at = [0, 1, 2, 4, 5, 6, 7]
    rows = table(c, len(at), ['air_temp'])
    first = c.choice('first', [0, 1, 3])
    last = c.choice('last', [1, 2, 3, 4, 5])
    if last < first:
        c.assume(False)
    df, keep, when = read(c, rows, [4, 2, 0, 1, 6, 5, 3], 60, first, last,
                          'America/Denver', at=at,
                          base=datetime.datetime(2001, 3, 31, 23))
    expect(c, df, keep, when, rows, 'America/Denver')


@CASES.case('precipitation', params=[('up', [0, 1]), ('down', [1, 0])])
@CASES.case('precipitation', tier='thorough', params=[('three', [2, 0, 1])])
def precip(c, order):
    rows = table(c, len(order), ['percent_snow', 'precip_temp',
                                 'precip_mass'])
    df, keep, when = read(c, rows, order, 60, 0, 0, 'MST')
    expect(c, df, keep, when, rows, 'MST')


@CASES.case('columns')
def columns(c):
    """columns are found by name"""
    rows = table(c, 2, COLUMNS)
    for r in rows:
        c.assume(r['precip_mass'] == 0.0)
    df, keep, when = read(c, rows, [0, 1], 60, 0, 0, 'UTC',
                          list(reversed(COLUMNS)))
    expect(c, df, keep, when, rows, 'UTC')


@CASES.case('same-instant')
def zones(c):
    """start and end belong to the time zone of the data"""
    rows = table(c, 4, ['air_temp'])
    df, keep, when = read(c, rows, [0, 1, 2, 3], 60, 1, 2, 'MST')
    import pandas as pd
    want = pd.Timestamp(when[1]).tz_localize('UTC') + pd.Timedelta(hours=7)
    c.check('first instant', df.index[0].tz_convert('UTC') == want)
    c.check('records', len(df) == 3)
