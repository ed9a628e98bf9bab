"""Symbolic numbers, path exploration and the harness context.

The code under test is the real one, imported from /repo and executed by the
interpreter; its numeric inputs are Sym objects.  Each comparison of a Sym
forks the path; the engine re-executes the harness until every feasible path
has been explored.
"""
import math
import os
import random
import sys
import time
from fractions import Fraction

from . import poly as P
from .poly import INF, Poly, clear, frac, quotient_bound, table
from .smt import STATS, LinStack, Nra, SolverError, closure


PROFILE = os.environ.get('SYMX_PROFILE')


class Control(BaseException):
    """engine control flow, never caught by code under test"""


class Infeasible(Control):
    pass


class Escape(Control):
    """the code did something the engine cannot encode"""


class Budget(Control):
    pass


class Inconclusive(Control):
    pass


ENGINE = [None]


def engine():
    e = ENGINE[0]
    if e is None:
        raise Escape('symbolic value used outside an engine')
    return e


NUMERIC = (int, float, Fraction)


def is_num(x):
    if isinstance(x, NUMERIC):
        return True
    t = type(x)
    if t.__module__ == 'numpy' and hasattr(x, 'dtype') and \
            getattr(x, 'shape', None) == ():
        return True
    return False


def to_py(x):
    if isinstance(x, NUMERIC):
        return x
    return x.item()


ATOMIZE = 90


class Sym(object):
    __slots__ = ('p', '__weakref__')
    __array_priority__ = 1000.0
    tagger = None

    def __init__(self, p):
        self.p = p

    # -- helpers
    @staticmethod
    def wrap(p):
        if p.is_const():
            c = p.const_value()
            return c.numerator * 1.0 if c.denominator == 1 and \
                abs(c.numerator) < 2 ** 53 else float(c)
        return Sym(p)

    @staticmethod
    def coerce(o):
        """Poly for o, or a float inf, or None"""
        if isinstance(o, Sym):
            return o.p
        if isinstance(o, SymBool):
            return Poly.const(int(bool(o)))
        if is_num(o):
            o = to_py(o)
            if isinstance(o, complex):
                raise Escape('complex number')
            if isinstance(o, float) and (o != o):
                raise Escape('NaN meets a symbolic value')
            if o in (INF, -INF):
                return o
            return Poly.const(o)
        return None

    def _bin(self, o, f):
        if _is_array(o):
            return _elementwise(o, lambda x: self._bin(x, f))
        q = Sym.coerce(o)
        if q is None:
            return NotImplemented
        return f(self.p, q)

    def __add__(self, o):
        def f(a, b):
            if isinstance(b, float):
                return b
            return Sym.wrap(a.add(b))
        return self._bin(o, f)

    __radd__ = __add__

    def __sub__(self, o):
        def f(a, b):
            if isinstance(b, float):
                return -b
            return Sym.wrap(a.sub(b))
        return self._bin(o, f)

    def __rsub__(self, o):
        def f(a, b):
            if isinstance(b, float):
                return b
            return Sym.wrap(b.sub(a))
        return self._bin(o, f)

    def __mul__(self, o):
        def f(a, b):
            if isinstance(b, float):
                if SymBool(a, '<'):
                    return -b
                if SymBool(a, '=='):
                    raise Escape('0*inf')
                return b
            return Sym.wrap(pmul(a, b))
        return self._bin(o, f)

    __rmul__ = __mul__

    def __truediv__(self, o):
        def f(a, b):
            if isinstance(b, float):
                return 0.0
            return Sym.wrap(pdiv(a, b))
        return self._bin(o, f)

    def __rtruediv__(self, o):
        def f(a, b):
            if isinstance(b, float):
                if SymBool(a, '<'):
                    return -b
                return b
            return Sym.wrap(pdiv(b, a))
        return self._bin(o, f)

    def __floordiv__(self, o):
        return sym_floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(o / self)

    def __mod__(self, o):
        return self - o * sym_floor(self / o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o - self * sym_floor(o / self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __pow__(self, o, mod=None):
        if _is_array(o):
            return NotImplemented
        if isinstance(o, Sym) or is_num(o):
            return sym_pow(self, o, python=True)
        return NotImplemented

    def __rpow__(self, o):
        if _is_array(o):
            return NotImplemented
        if is_num(o):
            return sym_pow(o, self, python=True)
        return NotImplemented

    def __neg__(self):
        return Sym.wrap(self.p.neg())

    def __pos__(self):
        return self

    def __abs__(self):
        if SymBool(self.p, '<'):
            return Sym.wrap(self.p.neg())
        return self

    # -- comparisons
    def _cmp(self, o, op):
        if _is_array(o):
            return _elementwise(o, lambda x: bool(self._cmp(x, op)), bool)
        q = Sym.coerce(o)
        if q is None:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        if isinstance(q, float):       # infinite
            return {'<': q > 0, '<=': q > 0, '>': q < 0, '>=': q < 0,
                    '==': False, '!=': True}[op]
        d = self.p.sub(q)
        if op == '>':
            d, op = d.neg(), '<'
        elif op == '>=':
            d, op = d.neg(), '<='
        return SymBool.make(d, op)

    def __lt__(self, o):
        if isinstance(o, float) and o != o:
            return False
        return self._cmp(o, '<')

    def __le__(self, o):
        if isinstance(o, float) and o != o:
            return False
        return self._cmp(o, '<=')

    def __gt__(self, o):
        if isinstance(o, float) and o != o:
            return False
        return self._cmp(o, '>')

    def __ge__(self, o):
        if isinstance(o, float) and o != o:
            return False
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if isinstance(o, float) and o != o:
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if isinstance(o, float) and o != o:
            return True
        return self._cmp(o, '!=')

    def __hash__(self):
        return hash(self.p.key())

    def __bool__(self):
        return bool(SymBool.make(self.p, '!='))

    # -- conversions
    def __float__(self):
        if Sym.tagger is not None:
            return Sym.tagger(self)
        f = sys._getframe(1)
        if formatting(f):
            return float('nan')
        raise Escape('float() of a symbolic value in %s:%d' % (
            f.f_code.co_filename, f.f_lineno))

    def __int__(self):
        return int_concrete(sym_trunc(self))

    def __index__(self):
        raise Escape('symbolic value used as an index')

    def __trunc__(self):
        return sym_trunc(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return -sym_floor(-self)

    def __round__(self, n=None):
        # (the direction of ties is left out)
        k = 10.0 ** (n or 0)
        return sym_floor(self * k + 0.5) / k

    def __format__(self, spec):
        if Sym.tagger is not None:
            return format(Sym.tagger(self), spec)
        return '<sym>'

    def __repr__(self):
        if Sym.tagger is not None:
            return repr(Sym.tagger(self))
        return '<sym %r>' % (self.p,)

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Escape('pickling a symbolic value')

    # numpy object-array dispatch
    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_log(self) / math.log(10.0)

    def sqrt(self):
        return sym_pow(self, Fraction(1, 2))

    def cos(self):
        return sym_fn('cos', self)

    def sin(self):
        return sym_fn('sin', self)

    def arctan(self):
        return sym_fn('atan', self)

    def fabs(self):
        return abs(self)

    def floor(self):
        return sym_floor(self)

    def is_integer(self):
        return self == sym_floor(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self


def formatting(frame):
    """is the frame executing a str % formatting instruction?"""
    import dis
    try:
        code = frame.f_code.co_code
        op = dis.opname[code[frame.f_lasti]]
    except Exception:
        return False
    return op in ('BINARY_MODULO', 'INPLACE_MODULO', 'BINARY_OP',
                  'FORMAT_VALUE', 'CALL_METHOD', 'CALL_METHOD_KW') and \
        engine().format_ok(frame, op)


def _elementwise(o, f, dtype=object):
    import numpy
    if not isinstance(o, numpy.ndarray):
        return NotImplemented
    out = numpy.empty(o.shape, dtype=dtype)
    flat = o.reshape(-1)
    res = out.reshape(-1)
    for i in range(flat.shape[0]):
        x = flat[i]
        r = f(x.item() if hasattr(x, 'item') and
              not isinstance(x, Sym) else x)
        if r is NotImplemented:
            return r
        res[i] = r
    return out


def _is_array(o):
    t = type(o)
    if t in (float, int, Sym):
        return False
    return hasattr(o, 'dtype') and getattr(o, 'shape', ()) != () or \
        t.__module__.startswith(('pandas', 'xarray'))


def small(p):
    """p, or an atom defined to be p when p has grown large"""
    if len(p.t) > 12:
        c = p.lead()
        a = table().define(p.scale(1 / c))
        return Poly({((a.id, 1),): c})
    return p


def undefine(a, b):
    """a rewritten as c*d when a is the definition of an atom d that b
    divides by"""
    if len(a.t) < 2:
        return a
    c = a.lead()
    d = table().index.get(('def', a.scale(1 / c).key()))
    if d is None:
        return a
    for m in b.t:
        for x, e in m:
            if x == d.id and e < 0:
                return Poly({((d.id, 1),): c})
    return a


def pmul(a, b):
    a = undefine(a, b)
    b = undefine(b, a)
    if len(a.t) * len(b.t) > ATOMIZE:
        a, b = small(a), small(b)
    return a.mul(b)


def pdiv(a, b):
    if b.is_const():
        c = b.const_value()
        if not c:
            raise ZeroDivisionError('float division by zero')
        return a.scale(1 / c)
    if SymBool.make(b, '=='):
        raise ZeroDivisionError('float division by zero')
    if a.is_const() and not a.const_value():
        return a
    # a == c*b ?
    if len(a.t) == len(b.t) and len(a.t) > 1 and \
            a.t.keys() == b.t.keys():
        c = a.lead() / b.lead()
        if a.key() == b.scale(c).key():
            return Poly.const(c)
    if len(a.t) * len(b.t) > ATOMIZE:
        a = small(a)
    return a.mul(b.inv())


def positive_mono(p):
    """p is c * monomial with c > 0 and all atoms nonnegative"""
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    tb = table().atoms
    if c <= 0 or any(tb[a].lo < 0 for a, _ in m):
        return None
    return m, c


def sym_fn(name, x):
    return Sym(Poly.atom(table().fn(name, x.p)))


def sym_exp(x):
    if not isinstance(x, Sym):
        return math.exp(x)
    lo, hi = x.p.interval()
    if hi > 709.7 and SymBool.make(Poly.const(709.7).sub(x.p), '<'):
        raise OverflowError('math range error')
    # one atom for all arguments that differ by a constant, powers for
    # multiples of a logarithm
    c = x.p.t.get((), 0)
    if abs(c) > 100:
        return sym_fn('exp', x)
    rest = x.p.sub(Poly.const(c)) if c else x.p
    f = math.exp(float(c)) if c else 1.0
    if len(rest.t) == 1:
        (m, k), = rest.t.items()
        at = table().atoms[m[0][0]]
        if len(m) == 1 and m[0][1] == 1 and at.kind == 'fn' and \
                at.name == 'log':
            return sym_pow(Sym(at.args[0]), float(k)) * f
    return sym_fn('exp', Sym(rest)) * f


def sym_log(x):
    if not isinstance(x, Sym):
        return math.log(x)
    if SymBool.make(x.p, '<='):
        raise ValueError('math domain error')
    pm = positive_mono(x.p)
    if pm:
        m, c = pm
        tb = table().atoms
        r = Poly.const(math.log(c) if c != 1 else 0)
        for a, e in m:
            at = tb[a]
            if at.kind == 'fn' and at.name == 'exp':
                r = r.add(at.args[0].scale(Fraction(e)))
            else:
                f = table().fn('log', Poly.atom(at))
                r = r.add(Poly.atom(f).scale(Fraction(e)))
        return Sym.wrap(r)
    return sym_fn('log', x)


def pow_atom(p, c):
    """p ** c for constant non-integer c, p a poly known >= 0"""
    tb = table().atoms
    pm = positive_mono(p)
    if pm:
        m, k = pm
        r = Poly.const(float(k) ** float(c) if k != 1 else 1)
        for a, e in m:
            at = tb[a]
            ec = c * e
            base = Poly.atom(at)
            if at.kind == 'fn' and at.name == 'pow':
                ec = ec * at.args[1]
                base = at.args[0]
            elif at.kind == 'fn' and at.name == 'exp':
                r = r.mul(Poly.atom(table().fn(
                    'exp', at.args[0].scale(ec))))
                continue
            if ec.denominator == 1:
                r = r.mul(base.powi(int(ec)))
            elif ec < 0:
                f = table().fn('pow', base, -ec)
                r = r.mul(Poly({((f.id, -1),): Fraction(1)}))
            else:
                r = r.mul(Poly.atom(table().fn('pow', base, ec)))
        return r
    if c < 0:
        f = table().fn('pow', p, -c)
        return Poly({((f.id, -1),): Fraction(1)})
    return Poly.atom(table().fn('pow', p, c))


def sym_pow(x, y, python=False):
    """x ** y; python: the operator rather than math.pow"""
    if not isinstance(y, Sym):
        y = to_py(y)
        c = frac(y)
        if not isinstance(x, Sym):
            return math.pow(x, y)
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return 1.0
            if n < 0 and SymBool.make(x.p, '=='):
                raise ZeroDivisionError('0.0 to a negative power')
            b = x.p
            if abs(n) > 4 and len(b.t) > 1:
                lead = b.lead()
                a = table().define(b.scale(1 / lead))
                b = Poly({((a.id, 1),): lead})
            return Sym.wrap(b.powi(n))
        if x.p.interval()[0] < 0 and SymBool.make(x.p, '<'):
            if python:
                raise Escape('complex power')
            raise ValueError('math domain error')
        if c < 0 and SymBool.make(x.p, '=='):
            raise (ZeroDivisionError if python else ValueError)(
                '0.0 to a negative power')
        return Sym.wrap(pow_atom(x.p, c))
    if not isinstance(x, Sym):
        x = to_py(x)
        if x <= 0:
            raise Escape('non-positive base with symbolic exponent')
        return sym_exp(y * math.log(x))
    return sym_exp(y * sym_log(x))


def sym_floor(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    t = table()
    lo, hi = x.p.interval()
    key = ('floor', x.p.key())
    a = t.index.get(key)
    if a is None:
        a = t._new(key, 'int', 'floor%d' % len(t.atoms), (x.p,),
                   math.floor(lo) if lo != -INF else -INF,
                   math.floor(hi) if hi != INF else INF)
    e = engine()
    k = Poly.atom(a)
    e.require(k.sub(x.p), '<=')
    e.require(x.p.sub(k).sub(Poly.const(1)), '<')
    return Sym(k)


def sym_trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if SymBool.make(x.p, '<'):
        return -sym_floor(-x)
    return sym_floor(x)


def int_concrete(x, limit=4000):
    """enumerate the integer values of x by forking"""
    if not isinstance(x, Sym):
        return int(x)
    lo, hi = x.p.interval()
    if hi - lo > limit:
        raise Escape('integer conversion with an unbounded range')
    for v in range(int(math.ceil(lo)), int(math.floor(hi)) + 1):
        if x == v:
            return v
    raise Infeasible()


NEG = {'<': ('<=', True), '<=': ('<', True), '==': ('!=', False),
       '!=': ('==', False)}


class SymBool(object):
    __slots__ = ('p', 'op')

    def __new__(cls, p, op):
        self = object.__new__(cls)
        self.p = p
        self.op = op
        return self

    @staticmethod
    def make(p, op):
        """SymBool, or a bool when decided by constants"""
        if p.is_const():
            return decide(op, p.const_value())
        # canonical positive scaling
        c = abs(p.lead())
        if c != 1:
            p = p.scale(1 / c)
        if op in ('==', '!=') and p.lead() < 0:
            p = p.neg()
        return SymBool(p, op)

    def negated(self):
        op, flip = NEG[self.op]
        return (self.p.neg() if flip else self.p, op)

    def __bool__(self):
        return engine().fork(self)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rxor__ = __xor__

    def __invert__(self):
        p, op = self.negated()
        return SymBool.make(p, op)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return self._n() == (o._n() if isinstance(o, SymBool) else o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return self._n() < o

    def __gt__(self, o):
        return self._n() > o

    def __le__(self, o):
        return self._n() <= o

    def __ge__(self, o):
        return self._n() >= o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return '<symbool %r %s 0>' % (self.p, self.op)


def decide(op, v):
    return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]


def interval_decide(p, op):
    lo, hi = p.interval()
    if op == '<':
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == '<=':
        if hi <= 0:
            return True
        if lo > 0:
            return False
    elif op == '==':
        if lo > 0 or hi < 0:
            return False
    elif op == '!=':
        if lo > 0 or hi < 0:
            return True
    return None


class Violation(object):
    def __init__(self, label, values, choices, detail, finding=None):
        self.label = label
        self.values = values
        self.choices = choices
        self.detail = detail
        self.finding = finding


class Engine(object):
    """explores all paths of harness(ctx) for one case"""

    def __init__(self, name, harness, opts, patcher, deadline, rnd=None):
        self.rnd = rnd or random.Random(1)
        self.name = name
        self.harness = harness
        self.opts = dict(opts or {})
        self.patcher = patcher
        self.deadline = deadline
        self.nra = Nra()
        self.lin = LinStack(self.opts.get('lin_timeout', 3.0))
        self.prune_timeout = self.opts.get('prune_timeout', 0.0)
        self.nra_timeout = self.opts.get('nra_timeout', 8.0)
        self.max_paths = self.opts.get('max_paths', 200000)
        self.stop_on_violation = self.opts.get('stop', 3)
        self.lemmas = []            # point lemmas (atom id, x0)
        self.stats = {'paths': 0, 'forks': 0, 'pruned': 0, 'infeasible': 0,
                      'obligations': 0, 'discharged': 0, 'trivial': 0,
                      'witness_ok': 0, 'witness_try': 0, 'cegar': 0,
                      'replayed': 0, 'raised': 0}
        self.labels = {}
        self.witnessed = set()
        self.violations = []
        self.findings = {}
        self.inconclusive = []
        self.samples = []
        self.prune_fail = 0
        self.witness_time = 0.0
        self.done_oblig = {}
        self.bounds = {}
        self.nested = None

    def format_ok(self, frame, op):
        if op in ('BINARY_MODULO', 'INPLACE_MODULO', 'BINARY_OP',
                  'FORMAT_VALUE'):
            return True
        return False

    # ---------------------------------------------------------- path state
    def run(self):
        P.TABLE[0] = P.Table()
        prefix = []
        ENGINE[0] = self
        try:
            while True:
                if time.time() > self.deadline:
                    self.inconclusive.append(
                        ('budget', 'time budget exhausted after %d paths'
                         % self.stats['paths']))
                    break
                if self.stats['paths'] >= self.max_paths:
                    self.inconclusive.append(('budget', 'path limit'))
                    break
                self.decisions = prefix
                self.pos = 0
                self.pc = []
                self.pcset = set()
                self.choices = {}
                self.path_labels = []
                self.observed = {}
                ctx = SymCtx(self)
                self.ctx = ctx
                self.patcher.fresh()
                prof = SEEN.get('__prof') if self.stats['paths'] < 40 \
                    else None
                try:
                    if prof:
                        sys.setprofile(prof)
                    try:
                        self.harness(ctx)
                    finally:
                        if prof:
                            sys.setprofile(None)
                    self.stats['paths'] += 1
                    self.end_of_path()
                except Infeasible:
                    self.stats['infeasible'] += 1
                except Escape as e:
                    self.stats['paths'] += 1
                    if self.feasible_now():
                        self.inconclusive.append(('escape', str(e)))
                except Inconclusive as e:
                    self.stats['paths'] += 1
                    self.inconclusive.append(('solver', str(e)))
                except SolverError as e:
                    self.stats['paths'] += 1
                    self.inconclusive.append(('solver-error', str(e)))
                except Control:
                    raise
                except RecursionError:
                    raise
                except Exception as e:
                    self.stats['paths'] += 1
                    self.stats['raised'] += 1
                    self.unexpected(e)
                if len(self.inconclusive) > 20:
                    break
                if len(self.violations) >= self.stop_on_violation:
                    break
                # backtrack
                prefix = self.decisions[:self.pos]
                while prefix and not prefix[-1][1]:
                    prefix.pop()
                if not prefix:
                    break
                v, rest = prefix[-1]
                prefix[-1] = (rest[0], rest[1:])
        finally:
            ENGINE[0] = None
            self.lin.close()
            self.nra.close()

    def broken(self, v):
        self.violations.append(v)
        # one is enough: do not search much longer for others
        self.deadline = min(self.deadline, time.time() + 40)

    def unexpected(self, e):
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ''
        for fr in tb:
            if '/pysnobal/' in fr.filename:
                where = '%s:%d' % (fr.filename.split('/repo/')[-1],
                                   fr.lineno)
        name = type(e).__name__
        label = 'raises-' + name
        detail = '%s: %s at %s' % (name, str(e)[:200], where)
        try:
            self.oblige(label, [[]], detail=detail, finding=None)
        except Inconclusive as x:
            self.inconclusive.append(
                ('solver', 'unexpected %s (%s)' % (detail, x)))
        except SolverError as x:
            self.inconclusive.append(('solver-error', str(x)))

    def add(self, p, op):
        k = (p.key(), op)
        if k in self.pcset:
            return
        self.pcset.add(k)
        self.pc.append((p, op))

    def require(self, p, op):
        """an assumption that needs no fork"""
        if p.is_const():
            if not decide(op, p.const_value()):
                raise Infeasible()
            return
        d = interval_decide(p, op)
        if d is True and op != '!=':
            return
        if d is False:
            raise Infeasible()
        self.add(p, op)

    def feasible_now(self):
        r = self.lin.check(self.pc)
        if r == 'unsat':
            return False
        r = self.nra.check(self.pc, self.lemmas, timeout=3.0)
        return r != 'unsat'

    def choose(self, name, options):
        n = len(options)
        if self.pos < len(self.decisions):
            i = self.decisions[self.pos][0]
        else:
            self.decisions.append((0, tuple(range(1, n))))
            i = 0
        self.pos += 1
        self.choices[name] = i
        return options[i]

    def quick(self, p, op):
        if p.is_const():
            return decide(op, p.const_value())
        k = (p.key(), op)
        if k in self.pcset:
            return True
        n, flip = NEG[op]
        q = p.neg() if flip else p
        if (q.key(), n) in self.pcset:
            return False
        if op in ('<', '<='):
            if (p.key(), '<') in self.pcset:
                return True
            if (p.neg().key(), '<') in self.pcset:
                return False
            if (p.key(), '==') in self.pcset or \
                    (p.neg().key(), '==') in self.pcset:
                return op == '<='
        elif op in ('==', '!='):
            if (p.key(), '<') in self.pcset or \
                    (p.neg().key(), '<') in self.pcset:
                return op == '!='
        return interval_decide(p, op)

    def fork(self, c):
        if self.nested is not None:
            raise Escape('fork in nested evaluation')
        d = self.quick(c.p, c.op)
        if d is not None:
            return d
        if time.time() > self.deadline:
            self.inconclusive.append(('budget', 'time budget exhausted'))
            raise Infeasible()
        q, nop = c.negated()
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
            self.pos += 1
            if v:
                self.add(c.p, c.op)
            else:
                self.add(q, nop)
            return bool(v)
        self.stats['forks'] += 1
        t = self.feasible(c.p, c.op)
        f = self.feasible(q, nop)
        if t and f:
            self.decisions.append((1, (0,)))
            v = 1
        elif t:
            self.decisions.append((1, ()))
            v = 1
        elif f:
            self.decisions.append((0, ()))
            v = 0
        else:
            raise Infeasible()
        self.pos += 1
        if v:
            self.add(c.p, c.op)
        else:
            self.add(q, nop)
        return bool(v)

    def feasible(self, p, op):
        if p.is_const():
            return decide(op, p.const_value())
        if interval_decide(p, op) is False:
            return False
        r = self.lin.check(self.pc, [(p, op)])
        if r == 'unsat':
            self.stats['pruned'] += 1
            return False
        t = self.prune_timeout
        if op == '==':
            t = max(t, 0.3)
        if t and self.prune_fail < 25:
            t0 = time.time()
            r = self.nra.check(self.pc + [(p, op)], (), timeout=t,
                               opaque=True)
            if r == 'unsat':
                self.stats['pruned'] += 1
                return False
            if r == 'unknown' and time.time() - t0 > 0.8 * t:
                self.prune_fail += 1
        return True

    def slice(self, pc, extra):
        ids = set()
        for p, _ in extra:
            ids |= p.atoms()
        ids = closure(ids)
        rest = list(pc)
        picked = []
        changed = True
        while changed:
            changed = False
            left = []
            for c in rest:
                a = closure(c[0].atoms())
                if a & ids:
                    if not a <= ids:
                        ids |= a
                        changed = True
                    picked.append(c)
                else:
                    left.append(c)
            rest = left
        return picked + list(extra)

    # --------------------------------------------------------- obligations
    def oblige(self, label, neg, detail='', finding=None, diff=None):
        """neg: list of conjunctions (lists of (poly, op)); the property is
        violated iff the path condition and one conjunction hold."""
        self.labels[label] = self.labels.get(label, 0) + 1
        for conj in neg:
            self.stats['obligations'] += 1
            self.one_obligation(label, conj, detail, finding, diff)
        self.path_labels.append(label)

    def one_obligation(self, label, conj, detail, finding, diff=None):
        live = []
        for p, op in conj:
            if p.is_const():
                if not decide(op, p.const_value()):
                    # violation condition is false by normal form; let the
                    # solver confirm the ground query
                    live = [(p, op)]
                    self.stats['trivial'] += 1
                    break
                continue
            live.append((p, op))
        if any(interval_decide(p, op) is False for p, op in live):
            STATS['unsat'] += 0
        key = (label, tuple((p.key(), o) for p, o in self.pc),
               tuple((p.key(), o) for p, o in live))
        if key in self.done_oblig:
            self.stats['discharged'] += self.done_oblig[key]
            return
        if finding is not None and finding in self.findings:
            return
        if label in [v.label for v in self.violations]:
            return
        t0 = time.time()
        r = self.solve(label, live, detail, finding, diff)
        if PROFILE and time.time() - t0 > 0.5:
            sys.stderr.write('slow %.1fs %s: %s\n' % (
                time.time() - t0, self.name, label))
        self.done_oblig[key] = 1 if r else 0
        if r:
            self.stats['discharged'] += 1

    def same_quotient(self, diff):
        """the difference of two terms, denominators multiplied out, is
        within the tolerance whatever the inputs"""
        d, tol = diff
        k = d.key()
        b = self.bounds.get(k)
        if b is None:
            tb = table().atoms
            b = INF
            if any(tb[a].kind == 'def' for a in d.atoms()):
                nd = clear(d)
                if nd:
                    q = quotient_bound(*nd)
                    if q is not None:
                        b = q
            self.bounds[k] = b
        if b > float(tol) * 0.99:
            return False
        # the query that is left, on a bounded unknown
        e = Poly.atom(table().input('rest%d' % len(table().atoms), -b, b))
        return self.lin.check([], [(Poly.const(tol).sub(e), '<')]) == 'unsat'

    def solve(self, label, live, detail, finding, diff=None):
        """True if discharged; records a violation otherwise; raises
        Inconclusive."""
        r = self.lin.check(self.pc, live)
        if r == 'unsat':
            return True
        if live:
            r = self.nra.check(self.pc + live, (), timeout=1.0, opaque=True)
            if r == 'unsat':
                return True
            if diff is not None and self.same_quotient(diff):
                return True
            sl = self.slice(self.pc, live)
            r = self.nra.check(sl, self.lemmas,
                               timeout=min(2.0, self.nra_timeout))
            if r == 'unsat':
                return True
        # exact query, counterexample search with refinement
        full = self.pc + live
        deadline = min(self.deadline,
                       time.time() + self.opts.get('oblig_budget', 60.0))
        unknown = 0
        why = ''
        tried = set()
        for rnd in range(40):
            if time.time() > deadline:
                why = 'obligation budget exhausted'
                break
            res, vals = self.nra.check(full, self.lemmas,
                                       timeout=self.nra_timeout, model=True)
            if res == 'unsat':
                return True
            if res == 'unknown' or vals is None:
                unknown += 1
                why = 'nonlinear query undecided'
                # LRA model as a candidate
                ok = self.lin_candidate(full, label, detail, finding)
                if ok:
                    return False
                if rnd == 0 and self.sampled(label, detail, finding):
                    return False
                if self.opts.get('cvc5', True) and unknown == 1:
                    res = self.nra.check(full, self.lemmas,
                                         timeout=self.nra_timeout,
                                         solver='cvc5')
                    if res == 'unsat':
                        return True
                if live:
                    res = self.nra.check(self.slice(self.pc, live),
                                         self.lemmas,
                                         timeout=self.nra_timeout * 2)
                    if res == 'unsat':
                        return True
                    # last resort, for a machine that is busy
                    res = self.nra.check(self.slice(self.pc, live),
                                         self.lemmas,
                                         timeout=self.nra_timeout * 5)
                    if res == 'unsat':
                        return True
                break
            # interior model first
            rob = self.interior(full, live)
            for cand in ([rob] if rob else []) + [vals]:
                if self.try_candidate(cand, label, detail, finding):
                    return False
            self.stats['cegar'] += 1
            new = self.refine(full, vals)
            if rob:
                new += self.refine(full, rob)
            # candidate with the inputs of transcendental terms pinned
            pin = self.pinned(full, vals)
            if pin and self.try_candidate(pin, label, detail, finding):
                return False
            if not new:
                why = 'model does not reproduce on the real code'
                self.last_model = vals
                break
        raise Inconclusive('%s: %s [%s]' % (label, why, detail))

    def interior(self, full, live):
        cons = []
        for p, op in full:
            if op in ('<', '<='):
                sc = max(abs(x) for x in p.interval())
                m = 1e-7 * min(sc, 1e6) if sc != INF else 1e-4
                cons.append((p.add(Poly.const(m)), '<='))
            else:
                cons.append((p, op))
        res, vals = self.nra.check(cons, self.lemmas,
                                   timeout=min(4.0, self.nra_timeout),
                                   model=True)
        return vals if res == 'sat' else None

    def input_atoms(self, full):
        tb = table().atoms
        ids = set()
        for p, _ in full:
            ids |= p.atoms()
        return [a for a in closure(ids) if tb[a].kind in ('in', 'int')]

    def lin_candidate(self, full, label, detail, finding):
        ids = self.input_atoms(full)
        r, vals = self.lin.check(full, [], model=ids)
        if r != 'sat' or not vals:
            return False
        tb = table().atoms
        v = {tb[int(k[1:])].name: x for k, x in vals.items()}
        return self.try_candidate(v, label, detail, finding)

    def sampled(self, label, detail, finding, tries=60):
        """candidate models drawn at random when the solver has none"""
        for i in range(tries):
            ctx = RandCtx(self.rnd, {}, dict(self.choices))
            saved = (self.decisions, self.pos, self.pc, self.pcset,
                     self.choices, self.path_labels, self.observed, self.ctx)
            ENGINE[0] = None
            try:
                self.patcher.fresh()
                self.harness(ctx)
            except Exception:
                pass
            finally:
                ENGINE[0] = self
                self.patcher.fresh()
                (self.decisions, self.pos, self.pc, self.pcset, self.choices,
                 self.path_labels, self.observed, self.ctx) = saved
            if any(b[0] == label for b in ctx.bad) or \
                    label.startswith('raises-'):
                if self.try_candidate(ctx.values, label, detail, finding):
                    return True
        return False

    def complete(self, vals):
        """float value for every input atom"""
        out = {}
        for a in table().atoms:
            if a.kind in ('in', 'int') and a.args and \
                    not isinstance(a.args[0], Poly):
                v = vals.get(a.name) if vals else None
                if v is None:
                    lo = a.lo if a.lo != -INF else 0.0
                    hi = a.hi if a.hi != INF else lo + 1.0
                    v = lo if a.kind == 'int' else (lo + hi) / 2
                v = float(v)
                v = min(max(v, a.lo), a.hi)
                if a.kind == 'int':
                    v = int(round(v))
                out[a.name] = v
        return out

    def try_candidate(self, vals, label, detail, finding):
        values = self.complete(vals)
        self.stats['replayed'] += 1
        bad = self.concrete(values, dict(self.choices))
        if bad is None:
            return False
        hit = False
        for lab, det, fnd in bad:
            v = Violation(lab, values, dict(self.choices), det.strip(), fnd)
            if fnd is not None:
                self.findings.setdefault(fnd, v)
            elif lab not in [x.label for x in self.violations]:
                self.broken(v)
            if lab == label:
                hit = True
        return hit

    def concrete(self, values, choices):
        """labels violated by the harness on concrete values (same process,
        shims pass floats through)"""
        saved = (self.decisions, self.pos, self.pc, self.pcset, self.choices,
                 self.path_labels, self.observed, self.ctx)
        ENGINE[0] = None
        try:
            self.patcher.fresh()
            return run_concrete(self.harness, values, choices,
                                self.opts)[0]
        finally:
            ENGINE[0] = self
            self.patcher.fresh()
            (self.decisions, self.pos, self.pc, self.pcset, self.choices,
             self.path_labels, self.observed, self.ctx) = saved

    def refine(self, full, vals):
        """point lemmas at the numeric arguments of transcendental atoms"""
        tb = table().atoms
        env = P.numeric_env({k: float(v) for k, v in vals.items()})
        ids = set()
        for p, _ in full:
            ids |= p.atoms()
        n = []
        for a in closure(ids):
            at = tb[a]
            if at.kind != 'fn':
                continue
            try:
                x = at.args[0].evaluate(env)
            except (ZeroDivisionError, OverflowError):
                continue
            if x != x or x in (INF, -INF):
                continue
            k = (a, float(x))
            if k not in self.lemmas:
                self.lemmas.append(k)
                n.append(k)
        return n

    def pinned(self, full, vals):
        """model with the inputs feeding transcendental terms fixed"""
        tb = table().atoms
        ids = set()
        for p, _ in full:
            ids |= p.atoms()
        ids = closure(ids)
        fns = [a for a in ids if tb[a].kind == 'fn']
        if not fns:
            return None
        env = P.numeric_env({k: float(v) for k, v in vals.items()})
        pins = {}
        for a in fns:
            for b in tb[a].deps:
                if tb[b].kind in ('in', 'int'):
                    pins[b] = env[b]
        lem = list(self.lemmas)
        for a in fns:
            v = env.get(a)
            if v is None or v != v or abs(v) == INF:
                return None
        # pinned values make each transcendental atom a constant
        cons = []
        for a in fns:
            v = env[a]
            at = Poly.atom(tb[a])
            e = abs(v) * 1e-12 + 1e-300
            cons.append((at.sub(Poly.const(v + e)), '<='))
            cons.append((Poly.const(v - e).sub(at), '<='))
        res, m = self.nra.check(full + cons, lem, pins=pins,
                                timeout=self.nra_timeout, model=True)
        return m if res == 'sat' else None

    # ------------------------------------------------------------ witnesses
    def end_of_path(self):
        """reachability witness: a concrete input following this path, run
        through the real code, must reproduce the symbolic observations"""
        new = [l for l in self.path_labels if l not in self.witnessed]
        cap = self.opts.get('witness', 12)
        if not new and self.stats['witness_ok'] >= cap:
            return
        if self.stats['witness_try'] >= cap * 6 and not new:
            return
        if self.stats['witness_try'] >= 400:
            return
        if self.witness_time > self.opts.get('witness_time', 8.0):
            return
        self.stats['witness_try'] += 1
        vals = None
        if self.input_atoms(self.pc):
            t0 = time.time()
            vals = self.interior(self.pc, [])
            if vals is None:
                res, vals = self.nra.check(
                    self.pc, self.lemmas,
                    timeout=min(3.0, self.nra_timeout), model=True)
            self.witness_time += time.time() - t0
            if vals is None:
                return
        values = self.complete(vals)
        choices = dict(self.choices)
        saved = (self.decisions, self.pos, self.pc, self.pcset, self.choices,
                 self.path_labels, self.observed, self.ctx)
        obs = self.observed
        ENGINE[0] = None
        try:
            self.patcher.fresh()
            bad, cobs, labels, err = run_concrete(
                self.harness, values, choices, self.opts, full=True)
        finally:
            ENGINE[0] = self
            (self.decisions, self.pos, self.pc, self.pcset, self.choices,
             self.path_labels, self.observed, self.ctx) = saved
        if bad is None or err:
            return
        env = None
        if sorted(labels) != sorted(self.path_labels):
            # the float run left the symbolic path (boundary or an
            # approximated transcendental): no evidence either way
            return
        env = P.numeric_env(values)
        if not self.on_path(env):
            return
        for lab, det, fnd in bad:
            # a run of this very path breaks the property, through something
            # the symbols do not show
            v = Violation(lab, values, choices, det.strip(), fnd)
            if fnd is not None:
                self.findings.setdefault(fnd, v)
            elif lab not in [x.label for x in self.violations]:
                self.broken(v)
        for k, v in obs.items():
            if k not in cobs:
                continue
            sv = v.p.evaluate(env) if isinstance(v, Sym) else v
            cv = cobs[k]
            if isinstance(sv, (int, float)) and isinstance(cv, (int, float)):
                if not abs(sv - cv) <= 1e-6 * (1 + abs(sv) + abs(cv)):
                    self.inconclusive.append(
                        ('encoding', 'observation %s: symbolic %r, real %r '
                         'at %r' % (k, sv, cv, values)))
                    return
        self.stats['witness_ok'] += 1
        self.witnessed.update(self.path_labels)
        if len(self.samples) < 2:
            self.samples.append({'case': self.name,
                                 'inputs': values, 'choices': choices,
                                 'path_condition_size': len(self.pc),
                                 'checked': sorted(set(labels))})

    def on_path(self, env):
        for p, op in self.pc:
            v = p.evaluate(env)
            if v != v:
                return False
            if op != '==' and not decide(op, v):
                return False
            if op == '==' and abs(v) > 1e-9:
                return False
        return True


    def reach_by_sampling(self, tries=300):
        """concrete runs of the harness, to witness labels that no solver
        model has reached"""
        want = set(l for l in self.labels if l not in self.witnessed and
                   not l.startswith('raises-'))
        if not want or self.violations:
            return
        ENGINE[0] = None
        for i in range(tries):
            if not want or time.time() > self.deadline + 20:
                return
            self.patcher.fresh()
            ctx = RandCtx(self.rnd, {}, {})
            try:
                self.harness(ctx)
            except Stop:
                pass
            except Control:
                raise
            except Exception:
                continue
            got = want & set(ctx.labels)
            if got:
                self.witnessed |= got
                want -= got


# ------------------------------------------------------------------ tracing
SEEN = {}


def trace_functions(repo):
    pre = repo.rstrip('/') + '/pysnobal/'
    SEEN['__pre'] = pre

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(pre):
                SEEN[co] = True
    SEEN['__prof'] = prof


def traced_functions():
    pre = SEEN.get('__pre')
    out = set()
    for co in SEEN:
        if not isinstance(co, str) and '/tests/' not in co.co_filename:
            out.add('%s:%s' % (co.co_filename[len(pre) - len('pysnobal/'):],
                               co.co_name))
    return sorted(out)


# ------------------------------------------------------------------ contexts
class Stop(Exception):
    pass


class SymCtx(object):
    symbolic = True

    def __init__(self, eng):
        self.e = eng

    def real(self, name, lo, hi):
        return Sym(Poly.atom(table().input(name, lo, hi)))

    def integer(self, name, lo, hi):
        return Sym(Poly.atom(table().input(name, lo, hi, True)))

    def choice(self, name, options):
        return self.e.choose(name, list(options))

    def boolean(self, name):
        return self.e.choose(name, [False, True])

    def assume(self, cond):
        if isinstance(cond, SymBool):
            d = self.e.quick(cond.p, cond.op)
            if d is True:
                return
            if d is False or not self.e.feasible(cond.p, cond.op):
                raise Infeasible()
            self.e.add(cond.p, cond.op)
        elif not cond:
            raise Infeasible()

    def check(self, label, cond, detail='', finding=None):
        if isinstance(cond, SymBool):
            self.e.oblige(label, [[cond.negated()]], detail, finding)
        elif cond:
            self.e.oblige(label, [[(Poly.const(1), '<')]], detail, finding)
        else:
            self.e.oblige(label, [[]], detail, finding)

    def _diff(self, a, b):
        pa, pb = Sym.coerce(a), Sym.coerce(b)
        return pa, pb

    def close(self, label, a, b, atol=1e-9, rtol=1e-7, detail='',
              finding=None):
        """|a-b| <= atol + rtol*|b|"""
        pa, pb = Sym.coerce(a), Sym.coerce(b)
        if pa is None or pb is None or isinstance(pa, float) or \
                isinstance(pb, float):
            same = (pa is not None and pa == pb)
            return self.check(label, same, detail or '%r vs %r' % (a, b),
                              finding)
        d = pa.sub(pb)
        t = Poly.const(atol)
        r = pb.scale(frac(rtol))
        neg = []
        for s in (1, -1):
            e = d if s > 0 else d.neg()
            # e > t + |r|   i.e.  t + r - e < 0 and t - r - e < 0
            if r.t:
                if r.interval()[0] >= 0:
                    neg.append([(t.add(r).sub(e), '<')])
                elif r.interval()[1] <= 0:
                    neg.append([(t.sub(r).sub(e), '<')])
                else:
                    neg.append([(t.add(r).sub(e), '<'),
                                (t.sub(r).sub(e), '<')])
            else:
                neg.append([(t.sub(e), '<')])
        self.e.oblige(label, neg, detail, finding, diff=(d, frac(atol)))

    def le(self, label, a, b, tol=1e-9, detail='', finding=None):
        """a <= b + tol"""
        pa, pb = Sym.coerce(a), Sym.coerce(b)
        if isinstance(pa, float) or isinstance(pb, float):
            return self.check(label, a <= b, detail, finding)
        self.e.oblige(label, [[(pb.add(Poly.const(tol)).sub(pa), '<')]],
                      detail, finding)

    def ge(self, label, a, b, tol=1e-9, detail='', finding=None):
        self.le(label, b, a, tol, detail, finding)

    def one_of(self, label, a, bs, atol=1e-6, detail='', finding=None):
        """a equals one of bs up to atol"""
        pa = Sym.coerce(a)
        combos = [[]]
        for b in bs:
            d = pa.sub(Sym.coerce(b))
            t = Poly.const(atol)
            combos = [c + [x] for c in combos
                      for x in ((t.sub(d), '<'), (t.add(d), '<'))]
        self.e.oblige(label, combos, detail, finding)

    def observe(self, name, v):
        self.e.observed[name] = v

    def fail(self, label, detail=''):
        self.check(label, False, detail)


class ConcCtx(object):
    """the same harness on floats; records violated labels"""
    symbolic = False

    def __init__(self, values, choices):
        self.values = values
        self.choices = choices
        self.bad = []
        self.labels = []
        self.observed = {}

    def real(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = (lo + hi) / 2.0
        return float(v)

    def integer(self, name, lo, hi):
        v = self.values.get(name)
        return int(lo if v is None else v)

    def choice(self, name, options):
        return list(options)[self.choices.get(name, 0)]

    def boolean(self, name):
        return bool(self.choices.get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Stop()

    def check(self, label, cond, detail='', finding=None):
        self.labels.append(label)
        if not cond:
            self.bad.append((label, detail, finding))

    def close(self, label, a, b, atol=1e-9, rtol=1e-7, detail='',
              finding=None):
        self.labels.append(label)
        try:
            ok = abs(a - b) <= 0.5 * (atol + rtol * abs(b)) or a == b
        except TypeError:
            ok = False
        if not ok:
            self.bad.append((label, '%s got %r, expected %r' % (detail, a,
                                                                 b),
                             finding))

    def le(self, label, a, b, tol=1e-9, detail='', finding=None):
        self.labels.append(label)
        if not a <= b + tol * 0.5:
            self.bad.append((label, '%s %r > %r' % (detail, a, b), finding))

    def ge(self, label, a, b, tol=1e-9, detail='', finding=None):
        self.le(label, b, a, tol, detail, finding)

    def one_of(self, label, a, bs, atol=1e-6, detail='', finding=None):
        self.labels.append(label)
        if not any(abs(a - b) <= 0.5 * atol for b in bs):
            self.bad.append((label, '%s %r not in %r' % (detail, a, bs),
                             finding))

    def observe(self, name, v):
        self.observed[name] = v

    def fail(self, label, detail=''):
        self.check(label, False, detail)


class RandCtx(ConcCtx):
    def __init__(self, rnd, values, choices):
        ConcCtx.__init__(self, values, choices)
        self.rnd = rnd

    def real(self, name, lo, hi):
        if name not in self.values:
            k = self.rnd.random()
            if k < 0.1:
                v = lo
            elif k < 0.2:
                v = hi
            elif k < 0.4 and lo < 0 < hi:
                v = 0.0
            elif k < 0.6:
                v = lo + (hi - lo) * self.rnd.random() ** 4
            else:
                v = self.rnd.uniform(lo, hi)
            self.values[name] = v
        return float(self.values[name])

    def integer(self, name, lo, hi):
        if name not in self.values:
            self.values[name] = self.rnd.randint(lo, hi)
        return self.values[name]

    def choice(self, name, options):
        options = list(options)
        if name not in self.choices:
            self.choices[name] = self.rnd.randrange(len(options))
        return options[self.choices[name]]

    def boolean(self, name):
        return self.choice(name, [False, True])


def run_concrete(harness, values, choices, opts=None, full=False):
    """(violated labels or None if an assumption failed, observations,
    labels, error)"""
    ctx = ConcCtx(values, choices)
    err = None
    try:
        harness(ctx)
    except Stop:
        # an assumption failed: the run is not an instance, except for
        # violations recorded before it
        ctx.bad = ctx.bad or None
        err = 'assume'
    except Control:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ''
        for fr in tb:
            if '/pysnobal/' in fr.filename:
                where = '%s:%d' % (fr.filename.split('/repo/')[-1],
                                   fr.lineno)
        ctx.labels.append('raises-' + type(e).__name__)
        ctx.bad.append(('raises-' + type(e).__name__,
                        '%s at %s' % (str(e)[:300], where), None))
    return (ctx.bad, ctx.observed, ctx.labels, err)
