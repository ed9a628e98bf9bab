"""Substitutes for math, numpy and a few builtins that accept symbolic
values, and the patcher that installs them in the code under test.

Floats pass straight through to the real functions."""
import builtins
import copy
import functools
import math
import sys
import types
import warnings

import numpy

from . import core
from .core import Escape, Sym, SymBool, is_num, sym_exp, sym_fn, sym_log, \
    sym_pow


def _issym(*xs):
    return any(isinstance(x, (Sym, SymBool)) for x in xs)


def _isobj(x):
    return isinstance(x, numpy.ndarray) and x.dtype == object


# --------------------------------------------------------------------- math
def _log(x, base=None):
    if not _issym(x):
        r = math.log(x)
    else:
        r = sym_log(x)
    if base is not None:
        r = r / _log(base)
    return r


def m_exp(x):
    return sym_exp(x) if _issym(x) else math.exp(x)


def m_sqrt(x):
    if not _issym(x):
        return math.sqrt(x)
    return sym_pow(x, 0.5)


def m_pow(x, y):
    if not _issym(x, y):
        return math.pow(x, y)
    return sym_pow(x, y)


def m_log10(x):
    return sym_log(x) / math.log(10.0) if _issym(x) else math.log10(x)


def m_log2(x):
    return sym_log(x) / math.log(2.0) if _issym(x) else math.log2(x)


def m_log1p(x):
    return sym_log(1.0 + x) if _issym(x) else math.log1p(x)


def m_expm1(x):
    return sym_exp(x) - 1.0 if _issym(x) else math.expm1(x)


def m_fabs(x):
    return abs(x) if _issym(x) else math.fabs(x)


def m_isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if not _issym(a, b):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return bool(d <= abs_tol) or bool(d <= rel_tol * abs(a)) or \
        bool(d <= rel_tol * abs(b))


def m_copysign(x, y):
    if not _issym(x, y):
        return math.copysign(x, y)
    return abs(x) if y >= 0 else -abs(x)


def m_trunc(x):
    return core.sym_trunc(x) if _issym(x) else math.trunc(x)


def m_hypot(*a):
    if not _issym(*a):
        return math.hypot(*a)
    return m_sqrt(sum(x * x for x in a))


def m_fsum(xs):
    xs = list(xs)
    return sum(xs) if _issym(*xs) else math.fsum(xs)


def m_prod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def m_fmod(x, y):
    if not _issym(x, y):
        return math.fmod(x, y)
    return x - y * core.sym_trunc(x / y)


def _fn(name, real):
    def f(x):
        return sym_fn(name, x) if _issym(x) else real(x)
    return f


MATH = {
    'exp': m_exp, 'log': _log, 'log10': m_log10, 'log2': m_log2,
    'log1p': m_log1p, 'expm1': m_expm1, 'sqrt': m_sqrt, 'pow': m_pow,
    'fabs': m_fabs, 'cos': _fn('cos', math.cos), 'sin': _fn('sin', math.sin),
    'tan': _fn('tan', math.tan), 'atan': _fn('atan', math.atan),
    'tanh': _fn('tanh', math.tanh),
    'isclose': m_isclose, 'copysign': m_copysign, 'hypot': m_hypot,
    'fsum': m_fsum, 'prod': m_prod, 'fmod': m_fmod,
    'isnan': lambda x: False if _issym(x) else math.isnan(x),
    'isinf': lambda x: False if _issym(x) else math.isinf(x),
    'isfinite': lambda x: True if _issym(x) else math.isfinite(x),
    'floor': lambda x: core.sym_floor(x) if _issym(x) else math.floor(x),
    'ceil': lambda x: -core.sym_floor(-x) if _issym(x) else math.ceil(x),
    'trunc': m_trunc,
}


class Module(types.ModuleType):
    pass


def make_math():
    m = Module('math')
    for k in dir(math):
        if not k.startswith('__'):
            setattr(m, k, getattr(math, k))
    for k, f in MATH.items():
        setattr(m, k, f)
    return m


# -------------------------------------------------------------------- numpy
def _elementwise(f, real):
    @functools.wraps(f)
    def g(*a, **kw):
        if kw or not any(_issym(x) or _isobj(x) for x in a):
            return real(*a, **kw)
        if any(_isobj(x) or isinstance(x, numpy.ndarray) for x in a):
            bs = numpy.broadcast(*[_box(x) for x in a])
            out = numpy.empty(bs.shape, dtype=object)
            flat = [f(*[_py(y) for y in t]) for t in bs]
            for i, v in enumerate(flat):
                out.reshape(-1)[i] = v
            return out
        return f(*a)
    return g


def _box(x):
    if isinstance(x, numpy.ndarray):
        return x
    b = numpy.empty((), dtype=object)
    b[()] = x
    return b


def _py(x):
    return x.item() if hasattr(x, 'item') and not _issym(x) else x


def _safe(f, real):
    """numpy semantics where math raises: only in-domain values encoded"""
    def g(*a):
        if not _issym(*a):
            return real(*a)
        try:
            return f(*a)
        except ValueError as e:
            raise Escape('numpy domain error: %s' % e)
    return g


def np_where(c, *ab):
    if not ab:
        return numpy.where(c)
    a, b = ab
    if _issym(c):
        return a if bool(c) else b
    if isinstance(c, (bool, numpy.bool_)) and (_issym(a, b)):
        return a if c else b
    if isinstance(c, numpy.ndarray) and (_isobj(c) or _issym(a, b) or
                                         _isobj(a) or _isobj(b)):
        bs = numpy.broadcast(c, _box(a), _box(b))
        out = numpy.empty(bs.shape, dtype=object)
        for i, (x, y, z) in enumerate(bs):
            out.reshape(-1)[i] = y if bool(x) else z
        return out
    return numpy.where(c, a, b)


def np_clip(x, lo, hi, *r, **kw):
    if not _issym(x, lo, hi) and not _isobj(x):
        return numpy.clip(x, lo, hi, *r, **kw)

    def f(v):
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    if _isobj(x):
        out = numpy.empty(x.shape, dtype=object)
        for i, v in enumerate(x.reshape(-1)):
            out.reshape(-1)[i] = f(v)
        return out
    return f(x)


def np_empty(shape, *a, **kw):
    if core.ENGINE[0] is not None and not a and not kw:
        return numpy.empty(shape, dtype=object)
    return numpy.empty(shape, *a, **kw)


def np_full_like(name):
    real = getattr(numpy, name)

    def f(x, *a, **kw):
        return real(x, *a, **kw)
    return f


def np_array(x, *a, **kw):
    if core.ENGINE[0] is None:
        return numpy.array(x, *a, **kw)
    if _issym(x):
        return x
    if isinstance(x, (list, tuple)) and _deep_sym(x):
        return numpy.array(x, dtype=object)
    return numpy.array(x, *a, **kw)


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return _issym(x)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not _issym(a, b):
        return numpy.isclose(a, b, rtol=rtol, atol=atol, **kw)
    return bool(abs(a - b) <= atol + rtol * abs(b))


def np_sum(x, *a, **kw):
    if isinstance(x, (list, tuple)) and _deep_sym(x) and not a and not kw:
        return sum(x)
    return numpy.sum(x, *a, **kw)


def np_minmax(name):
    real = getattr(numpy, name)

    def f(x, *a, **kw):
        if isinstance(x, (list, tuple)) and _deep_sym(x) and not a:
            return (min if name in ('min', 'amin') else max)(x)
        return real(x, *a, **kw)
    return f


def np_bool_fn(name, val):
    real = getattr(numpy, name)

    def f(x, *a, **kw):
        if _issym(x):
            return val
        if _isobj(x):
            out = numpy.empty(x.shape, dtype=bool)
            for i, v in enumerate(x.reshape(-1)):
                out.reshape(-1)[i] = val if _issym(v) else real(v)
            return out
        return real(x, *a, **kw)
    return f


def _max(a, b):
    return a if a >= b else b


def _min(a, b):
    return a if a <= b else b


def _sign(x):
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


NPF = {
    'exp': m_exp, 'log': _log, 'log10': m_log10, 'log2': m_log2,
    'log1p': m_log1p, 'expm1': m_expm1, 'sqrt': m_sqrt, 'power': m_pow,
    'float_power': m_pow,
    'abs': abs, 'absolute': abs, 'fabs': abs, 'cos': MATH['cos'],
    'sin': MATH['sin'], 'arctan': MATH['atan'], 'tan': MATH['tan'],
    'tanh': MATH['tanh'], 'floor': MATH['floor'], 'ceil': MATH['ceil'],
    'trunc': m_trunc, 'square': lambda x: x * x, 'sign': _sign,
    'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b,
    'true_divide': lambda a, b: a / b, 'negative': lambda a: -a,
    'reciprocal': lambda a: 1.0 / a, 'hypot': m_hypot,
}


class Numpy(types.ModuleType):
    def __getattr__(self, k):
        return getattr(numpy, k)


def make_numpy():
    m = Numpy('numpy')
    m.__dict__['__file__'] = numpy.__file__
    for k, f in NPF.items():
        real = getattr(numpy, k)
        setattr(m, k, _elementwise(_safe(f, real), real))
    m.where = np_where
    m.clip = np_clip
    m.empty = np_empty
    m.array = np_array
    m.asarray = np_array
    m.isclose = np_isclose
    m.sum = np_sum
    m.min = np_minmax('min')
    m.max = np_minmax('max')
    m.isnan = np_bool_fn('isnan', False)
    m.isinf = np_bool_fn('isinf', False)
    m.isfinite = np_bool_fn('isfinite', True)
    m.float64 = SymFloat
    return m


# ----------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return float(bool(x))
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return core.sym_trunc(x)
        return int(x, *a)

    from_bytes = int.from_bytes


def s_round(x, n=None):
    if isinstance(x, Sym):
        s = 10.0 ** (n or 0)
        r = core.sym_floor(x * s + 0.5) / s
        return r
    return round(x, n) if n is not None else round(x)


def s_range(*a):
    return range(*[core.int_concrete(x) if isinstance(x, Sym) else x
                   for x in a])


BUILTINS = {'float': SymFloat, 'int': SymInt, 'round': s_round,
            'range': s_range, 'pow': lambda x, y, *m: (
                sym_pow(x, y, python=True) if _issym(x, y)
                else pow(x, y, *m))}


# ------------------------------------------------------------------ patcher
PREFIX = 'pysnobal'
PLAIN = (int, float, str, bool, type(None), tuple)


CURRENT = []


def load_all():
    """every module of the code under test that can be imported"""
    import importlib
    import pkgutil
    top = importlib.import_module(PREFIX)
    for info in pkgutil.walk_packages(top.__path__, PREFIX + '.',
                                      onerror=lambda n: None):
        if '.tests' in info.name:
            continue
        try:
            importlib.import_module(info.name)
        except Exception:
            pass


def restart():
    """module, class and function state as after a fresh import"""
    if CURRENT:
        CURRENT[0].fresh()


class Patcher(object):
    """installs the shims in every loaded pysnobal module and restores
    module and class state between paths"""

    def __init__(self, symbolic=True):
        self.math = make_math()
        self.numpy = make_numpy()
        self.symbolic = symbolic
        self.snap = None

    def modules(self):
        return [m for n, m in sorted(sys.modules.items())
                if (n == PREFIX or n.startswith(PREFIX + '.')) and
                m is not None and '.tests' not in n]

    def hook_import(self):
        """import statements executed inside functions of the code under
        test get the shims as well"""
        real = builtins.__import__
        sub = {'math': self.math, 'numpy': self.numpy}

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            m = real(name, globals, locals, fromlist, level)
            if level == 0 and name in sub and globals and \
                    str(globals.get('__name__', '')).startswith(PREFIX):
                return sub[name]
            return m
        builtins.__import__ = imp

    def install(self):
        self.hook_import()
        load_all()
        rev = {}
        for k, f in MATH.items():
            rev[id(getattr(math, k))] = f
        for k in list(NPF) + ['where', 'clip', 'empty', 'array', 'isnan',
                              'isfinite', 'isinf', 'isclose']:
            rev[id(getattr(numpy, k))] = getattr(self.numpy, k)
        for m in self.modules():
            g = m.__dict__
            for k, v in list(g.items()):
                if v is math:
                    g[k] = self.math
                elif v is numpy:
                    g[k] = self.numpy
                elif id(v) in rev and callable(v) and \
                        not isinstance(v, type):
                    g[k] = rev[id(v)]
                elif v is numpy.float64:
                    g[k] = SymFloat
            for k, v in BUILTINS.items():
                if k not in g:
                    g[k] = v
        self.take()

    def take(self):
        snap = []
        self.hidden = hidden(self.modules())
        for m in self.modules():
            g = m.__dict__
            keep = {}
            for k, v in g.items():
                if k.startswith('__'):
                    continue
                if isinstance(v, (dict, list, set)):
                    keep[k] = ('c', v, copy.deepcopy(v))
                elif isinstance(v, PLAIN):
                    keep[k] = ('p', v, None)
            classes = {}
            for k, v in g.items():
                if isinstance(v, type) and v.__module__ == m.__name__:
                    cd = {}
                    for a, x in v.__dict__.items():
                        if a.startswith('__'):
                            continue
                        if isinstance(x, (dict, list, set)):
                            cd[a] = ('c', x, copy.deepcopy(x))
                        else:
                            cd[a] = ('p', x, None)
                    classes[v] = cd
            snap.append((m, keep, classes, set(g)))
        self.snap = snap
        CURRENT[:] = [self]

    def fresh(self):
        if self.snap is None:
            return
        for v, c in self.hidden:
            restore(v, c)
        for m, keep, classes, names in self.snap:
            g = m.__dict__
            for k in list(g):
                v = g[k]
                if k not in names:
                    del g[k]
                    continue
                if type(v) is types.FunctionType or k.startswith('__'):
                    continue
                cc = getattr(v, 'cache_clear', None)
                if cc is not None:
                    try:
                        cc()
                    except TypeError:
                        pass
            for k, (kind, v, c) in keep.items():
                if kind == 'p':
                    if g.get(k) is not v:
                        g[k] = v
                else:
                    restore(v, c)
                    g[k] = v
            for cls, cd in classes.items():
                for a in list(cls.__dict__):
                    if a.startswith('__'):
                        continue
                    if a not in cd:
                        delattr(cls, a)
                for a, (kind, x, c) in cd.items():
                    if kind == 'c':
                        restore(x, c)
                    if cls.__dict__.get(a) is not x:
                        setattr(cls, a, x)
                    cc = getattr(x, 'cache_clear', None)
                    if cc is not None:
                        cc()
        warnings.simplefilter('ignore')


def hidden(modules):
    """containers kept in default arguments, closures, attributes of
    functions and of instances made when a module was loaded"""
    out = []

    def keep(v):
        if isinstance(v, (dict, list, set)) and not isinstance(v, type):
            try:
                out.append((v, copy.deepcopy(v)))
            except Exception:
                pass

    def function(f):
        f = getattr(f, '__func__', f)
        f = getattr(f, 'fget', f)
        if type(f) is not types.FunctionType:
            return
        for v in (f.__defaults__ or ()) + tuple(
                (f.__kwdefaults__ or {}).values()):
            keep(v)
        keep(f.__dict__)
        for cell in f.__closure__ or ():
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            keep(v)
            if v is not f and type(v) is types.FunctionType and \
                    str(v.__module__).startswith(PREFIX):
                function(v)

    for m in modules:
        for v in list(m.__dict__.values()):
            if isinstance(v, type):
                if v.__module__ == m.__name__:
                    for x in list(v.__dict__.values()):
                        function(x)
            elif type(v) is types.FunctionType:
                if v.__module__ == m.__name__:
                    function(v)
            elif type(v).__module__ == m.__name__ and \
                    hasattr(v, '__dict__'):
                keep(v.__dict__)
                for x in list(v.__dict__.values()):
                    keep(x)
    return out


def restore(v, c):
    if isinstance(v, dict):
        if v.keys() != c.keys() or any(v[k] is not c[k] for k in v):
            v.clear()
            v.update(copy.deepcopy(c))
    elif isinstance(v, list):
        v[:] = copy.deepcopy(c)
    else:
        v.clear()
        v.update(c)
