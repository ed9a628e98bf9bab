"""Several models in one process."""
import copy
import datetime

from symx.api import Registry, issym, restart

from .c20 import frame, sections
from .common import FREEZE, START, forcing, steps
from .driver import config, driver

CASES = Registry()
BOUNDS = ('two models with their own snow (cold and deep, wet, thin, or '
          'bare), settings and output mode. Time stepping: any forcing, two '
          'data steps each in the orders ABAB and BAAB (thorough: three), '
          'the physics replaced by a simple dependence on state and forcing. '
          'Physics: a step of A with net solar 0..250 W/m2, soil 265..273.16 '
          'K or air 250..272 K after fixed steps of A and B, the turbulent '
          'fluxes replaced by a dependence on all arguments and start '
          'values. A driver run twice')
OUTSIDE = 'models in several threads or processes'


class Transfer(object):
    """stands in for the turbulent transfer: depends on everything it is
    given, including the start values of the iteration"""
    WHERE = ['pysnobal.point.libsnobal', 'pysnobal.point.snobal']

    def __call__(self, *a, **kw):
        got = self.sig.bind(*a, **kw)
        got.apply_defaults()
        v = list(got.arguments.values())
        ustar = 0.25 if v[10] is None else v[10] * 0.5 + 0.125
        factor = 0.5 if v[11] is None else v[11] * 0.25 + 0.25
        dt = v[1] - v[2]
        h = dt * 2.0 + v[7] * 0.5 + ustar + v[3] * 0.125
        e = (v[4] - 300.0) * 1e-9
        return h, e * 2.8e6 + factor, e, 0, ustar, factor

    def __enter__(self):
        import importlib
        import inspect
        mods = [importlib.import_module(m) for m in self.WHERE]
        self.old = [(m, m.hle1) for m in mods if hasattr(m, 'hle1')]
        self.sig = inspect.signature(self.old[0][1])
        for m, _ in self.old:
            m.hle1 = self
        return self

    def __exit__(self, *a):
        for m, f in self.old:
            m.hle1 = f


class Simple(object):
    """the simple physics for every model built meanwhile"""

    def __enter__(self):
        from pysnobal.point import Snobal
        self.old = Snobal.energy_balance, Snobal.mass_balance
        Snobal.energy_balance = lambda m: simple(m, True)
        Snobal.mass_balance = lambda m: simple(m, False)

    def __exit__(self, *a):
        from pysnobal.point import Snobal
        Snobal.energy_balance, Snobal.mass_balance = self.old


SNOW = {
    'cold': {'z_s': 1.5, 'rho': 300.0, 't_s_0': 262.0, 't_s': 266.0,
             't_s_l': 267.0, 'h2o_sat': 0.0, 'z_0': 0.005},
    'wet': {'z_s': 0.2, 'rho': 400.0, 't_s_0': FREEZE, 't_s': FREEZE,
            't_s_l': FREEZE, 'h2o_sat': 0.5, 'z_0': 0.002},
    'thin': {'z_s': 0.15, 'rho': 250.0, 't_s_0': 258.0, 't_s': 258.0,
             't_s_l': 258.0, 'h2o_sat': 0.0, 'z_0': 0.01},
    'bare': {'z_s': 0.0, 'rho': 0.0, 't_s_0': 0.0, 't_s': 0.0, 't_s_l': 0.0,
             'h2o_sat': 0.0, 'z_0': 0.005}}


class Setup(object):
    """settings and forcing of one model"""

    def __init__(self, name, snow, mode, data, minutes=(60, 30, 10),
                 odd=None):
        def pick(setting, usual, other):
            if odd is None:
                return other if name == 'B' else usual
            return other if name == 'B' and setting == odd else usual
        self.params = {'elevation': pick('elevation', 2061.0, 3000.0),
                       'start_date': pick('start', START, START +
                                          datetime.timedelta(days=40)),
                       'max_z_s_0': pick('active', 0.25, 0.2),
                       'max_h2o_vol': pick('capacity', 0.01, 0.02),
                       'relative_heights': pick('relative', False, True)}
        self.steps = steps(pick('thresholds', (60.0, 10.0, 1.0),
                                (200.0, 60.0, 1.0)), pick(
                                    'steps', minutes, (60, 20, 10)))
        self.snow = dict(SNOW[snow])
        self.heights = {'z_u': pick('z_u', 5.0, 4.0),
                        'z_t': pick('z_t', 4.5, 3.5),
                        'z_g': pick('z_g', 0.5, 0.3),
                        'relative_heights': pick('relative', False, True)}
        self.mode = mode
        self.data = [dict(d) for d in data]
        self.physics = None

    def copy(self):
        """everything anew, the symbols kept"""
        t = copy.copy(self)
        t.params = dict(self.params)
        t.steps = [dict(x) for x in self.steps]
        t.snow = dict(self.snow)
        t.heights = dict(self.heights)
        t.data = [dict(x) for x in self.data]
        return t

    def build(self):
        from pysnobal.point import InputData, Snobal
        m = Snobal(self.params, self.steps, self.snow, self.heights,
                   self.mode)
        if self.physics is not None:
            m.energy_balance = lambda: self.physics(m, True)
            m.mass_balance = lambda: self.physics(m, False)
        self.model = m
        self.k = 0
        self.records = [InputData(r) for r in self.data]

    def advance(self):
        self.model.do_data_tstep(self.records[self.k],
                                 self.records[self.k + 1])
        self.k += 1


def same(c, label, a, b):
    if issym(a) or issym(b):
        c.close(label, a, b, 1e-9)
    else:
        c.check(label, a == b)


def compare(c, got, want):
    if len(got) != len(want):
        c.fail('number of records')
        return
    for g, w in zip(got, want):
        for k in w:
            same(c, 'output ' + k, g[k], w[k])


def untouched(c, one, ref):
    for f in ('params', 'snow', 'heights'):
        a, b = getattr(one, f), getattr(ref, f)
        c.check('settings keep their entries', sorted(a) == sorted(b))
        for k in b:
            same(c, 'setting ' + k, a[k], b[k])
    for a, b in zip(one.steps, ref.steps):
        c.check('steps keep their entries', sorted(a) == sorted(b))
        for k in b:
            same(c, 'step ' + k, a[k], b[k])


def together(c, A, B, order):
    """each model alone, then in turns"""
    want = {}
    with Transfer():
        for name, x in (('A', A), ('B', B)):
            restart()
            one = x.copy()
            one.build()
            for _ in range(order.count(name)):
                one.advance()
            want[name] = one.model.output_list
        restart()
        both = {'A': A.copy(), 'B': B.copy()}
        both['A'].build()
        both['B'].build()
        for name in order:
            both[name].advance()
    for name in 'AB':
        compare(c, both[name].model.output_list, want[name])
        untouched(c, both[name], {'A': A, 'B': B}[name])


def simple(m, first):
    """stands in for the physics: every value depends on the state before
    and on the forcing"""
    s, i = m.snow_state, m.input1
    dt = m.time_step / 3600.0
    if first:
        s.R_n = i.S_n * 0.5 + s.t_s_0
        s.H = i.t_a - s.t_s_0 + i.u
        s.L_v_E = i.e_a * 0.01 + m.P_a * 0.001
        s.G = i.t_g - s.t_s_0 * 0.5
        s.G_0 = s.G + s.R_n * 0.25
        s.M = i.m_rain * 3.0 + i.m_snow
        s.delta_Q_0 = s.R_n + s.H + s.G_0
        s.delta_Q = s.R_n + s.H + s.G
        return
    s.t_s_0 = s.t_s_0 + s.delta_Q_0 * dt * 0.001
    s.t_s = s.t_s + s.delta_Q * dt * 0.001
    s.cc_s_0 = s.cc_s_0 + s.delta_Q_0 * dt
    s.h2o = s.h2o * 0.5 + i.m_rain
    s.melt = s.R_n * 0.01 * dt
    s.E_s = s.L_v_E * dt * 1e-3
    s.swi = s.melt * 0.5 + s.h2o


def inputs(c, name, n):
    """any forcing"""
    return [forcing(
        S_n=c.real('S_n_%s%d' % (name, i), 0.0, 1000.0),
        t_a=c.real('t_a_%s%d' % (name, i), 240.0, 300.0),
        e_a=c.real('e_a_%s%d' % (name, i), 10.0, 2000.0),
        u=c.real('u_%s%d' % (name, i), 0.0, 30.0),
        t_g=c.real('t_g_%s%d' % (name, i), 250.0, 290.0),
        I_lw=c.real('I_lw_%s%d' % (name, i), 100.0, 450.0),
        m_pp=c.real('m_pp_%s%d' % (name, i), 0.1, 20.0) if i == 1 else 0.0,
        percent_snow=0.25, rho_snow=100.0, t_pp=FREEZE + 1.0)
        for i in range(n + 1)]


def schedule(c, sa, sb, order):
    """time steps, forcing, averaging and output of two models in turns"""
    mode = c.choice('mode', ['normal', 'all'])
    A = Setup('A', sa, mode, inputs(c, 'A', order.count('A')))
    B = Setup('B', sb, 'normal', inputs(c, 'B', order.count('B')))
    A.physics = B.physics = simple
    together(c, A, B, order)


PAIRS = [('cold', 'cold'), ('cold', 'wet'), ('thin', 'bare'),
         ('bare', 'thin'), ('wet', 'thin')]
CASES.case('schedule', params=[
    ('%s-%s-%s' % (a, b, o), a, b, o) for a, b in PAIRS
    for o in ('ABAB', 'BAAB')])(schedule)
CASES.case('schedule', tier='thorough', params=[
    ('%s-%s-%s' % (a, b, o), a, b, o) for a, b in PAIRS
    for o in ('ABBAAB', 'ABABAB')])(schedule)


def physics(c, sa, sb, order, free):
    """the physics of a step of one model after those of the other"""
    na, nb = order.count('A'), order.count('B')
    da = [forcing(S_n=150.0 + 20.0 * i, t_a=264.0 + i, e_a=200.0 + 9.0 * i)
          for i in range(na + 1)]
    db = [forcing(S_n=90.0 + 15.0 * i, t_a=269.0 - i, e_a=290.0 + i)
          for i in range(nb + 1)]
    wet = c.choice('precipitation', [None, 'snow'])
    if wet:
        for d in da[na - 1], db[0]:
            d.update(m_pp=2.0, percent_snow=1.0, rho_snow=100.0, t_pp=262.0)
    last = da[na - 1]
    for k, (lo, hi) in free.items():
        last[k] = c.real(k, lo, hi)
    A = Setup('A', sa, 'normal', da, (60, 60, 60))
    B = Setup('B', sb, 'normal', db, (60, 60, 60))
    together(c, A, B, order)


FREE = [('sun', {'S_n': (0.0, 250.0)}), ('soil', {'t_g': (265.0, FREEZE)}),
        ('air', {'t_a': (250.0, 272.0)})]
CASES.case('physics', params=[
    ('%s-%s-%s-%s' % (a, b, o, f[0]), a, b, o, f[1])
    for a, b in [('cold', 'thin'), ('thin', 'cold'), ('bare', 'cold'),
                 ('cold', 'wet')]
    for f in FREE for o in ('ABA',) if a != 'thin' or f[0] == 'sun'])(physics)
CASES.case('physics', tier='thorough', params=[
    ('%s-%s-%s-%s' % (a, b, o, f[0]), a, b, o, f[1])
    for a, b in [('cold', 'thin'), ('thin', 'wet'), ('wet', 'cold'),
                 ('bare', 'cold')]
    for f in FREE for o in ('BBA', 'BAABA')
    if a not in ('thin', 'wet') or f[0] == 'sun'])(physics)


ONE = ['elevation', 'start', 'active', 'capacity', 'relative', 'thresholds',
       'steps', 'z_u', 'z_t', 'z_g', 'nothing']


def alike(c, snow, other, odd, order):
    """two models equal in all but one setting, or in nothing else but
    snow and forcing"""
    def data(name, base):
        return [forcing(S_n=c.real('S_n_%s%d' % (name, i), 0.0, 80.0)
                        if i == 1 else base + 20.0 * i, t_a=264.0 + i,
                        e_a=200.0 + 9.0 * i, I_lw=220.0)
                for i in range(order.count(name) + 1)]
    A = Setup('A', snow, 'normal', data('A', 30.0), (60, 30, 30), odd)
    B = Setup('B', other, 'normal', data('B', 30.0), (60, 30, 30), odd)
    together(c, A, B, order)


CASES.case('alike', params=[
    ('%s-%s' % (o, s), s, s, o, 'AB') for o in ONE for s in ('cold', 'wet')
] + [('nothing-cold-thin', 'cold', 'thin', 'nothing', 'ABA'),
     ('nothing-bare-cold', 'bare', 'cold', 'nothing', 'ABA')])(alike)


def rerun(c, snow):
    """a driver run twice, and run by another driver"""
    rho, z = (250.0, 0.8) if snow else (0.0, 0.0)
    data = [forcing(S_n=c.real('S_n_%d' % i, 100.0, 300.0), t_a=265.0 + i)
            for i in range(3)]
    data[1].update(m_pp=1.5, percent_snow=1.0, rho_snow=90.0, t_pp=264.0)
    outs = []
    with Transfer(), Simple():
        py = None
        for i in range(3):
            if i != 1:
                cfg = config(model=sections((60, 30, 10)),
                             initial_snow_properties={
                                 'z_s': z, 'rho': rho, 't_s_0': -8.0,
                                 't_s': -5.0})
                py = driver(cfg)
                py.parse_params()
                py.parse_time_steps()
                py.input_data = frame([dict(d) for d in data], 60)
                py.output_to_file = lambda: None
            py.run()
            outs.append(py.snobal.output_list)
    compare(c, outs[1], outs[0])
    compare(c, outs[2], outs[0])


CASES.case('again', params=[('bare', False), ('snow', True)])(rerun)


@CASES.case('next-record')
def following(c):
    """the record that ends a step is not changed by it"""
    one = Setup('A', 'cold', 'normal', inputs(c, 'A', 2))
    one.physics = simple
    one.build()
    before = {k: v for k, v in vars(one.records[1]).items()}
    with Transfer():
        one.advance()
    for k, v in one.data[1].items():
        same(c, 'record ' + k, getattr(one.records[1], k), v)
    c.check('known fields', len(before) > 0)
