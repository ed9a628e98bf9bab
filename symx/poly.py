"""Exact Laurent polynomials over interned real atoms, with interval bounds.

An atom is an input variable, an integer input variable, a named definition
of a polynomial that gets divided by, or an application of a transcendental
function.  A polynomial maps monomials (tuples of (atom id, exponent), with
possibly negative exponents) to rational coefficients.  Everything here is
plain term rewriting: two terms with equal normal form are equal in the reals.
"""
import math
from fractions import Fraction

INF = float('inf')


def frac(c):
    """The rational a Python number denotes; floats by shortest decimal."""
    if isinstance(c, Fraction):
        return c
    if isinstance(c, int):
        return Fraction(int(c))
    return Fraction(repr(float(c)))


# ---------------------------------------------------------------- intervals
_W = 1e-12


def _lo(x):
    return x - abs(x) * _W if x not in (INF, -INF) else x


def _hi(x):
    return x + abs(x) * _W if x not in (INF, -INF) else x


def imul(a, b):
    ps = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                ps.append(0.0)
            else:
                ps.append(x * y)
    return (_lo(min(ps)), _hi(max(ps)))


def iadd(a, b):
    return (_lo(a[0] + b[0]), _hi(a[1] + b[1]))


def _p(x, n):
    try:
        return x ** n
    except OverflowError:
        return INF if (x > 0 or n % 2 == 0) else -INF


def ipow(a, n):
    if n < 0:
        lo, hi = ipow(a, -n)
        if lo > 0:
            return (0.0 if hi == INF else _lo(1.0 / hi), _hi(1.0 / lo))
        if hi < 0:
            return (_lo(1.0 / hi), 0.0 if lo == -INF else _hi(1.0 / lo))
        if lo == 0 and hi > 0:
            return (0.0 if hi == INF else _lo(1.0 / hi), INF)
        if hi == 0 and lo < 0:
            return (-INF, 0.0 if lo == -INF else _hi(1.0 / lo))
        return (-INF, INF)
    if n == 1:
        return a
    lo, hi = a
    if n % 2 == 0:
        if lo >= 0:
            return (_lo(_p(lo, n)), _hi(_p(hi, n)))
        if hi <= 0:
            return (_lo(_p(hi, n)), _hi(_p(lo, n)))
        return (0.0, _hi(max(_p(lo, n), _p(hi, n))))
    return (_lo(_p(lo, n)), _hi(_p(hi, n)))


# -------------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi', 'deps')

    def __repr__(self):
        return self.name


class Table(object):
    """Interning table of atoms; one per symbolic run."""

    def __init__(self):
        self.atoms = []
        self.index = {}
        self.pending = None

    def _new(self, key, kind, name, args, lo, hi):
        a = Atom()
        a.id = len(self.atoms)
        a.kind = kind
        a.name = name
        a.args = args
        a.lo = lo
        a.hi = hi
        deps = set()
        for p in args:
            if isinstance(p, Poly):
                for q in p.atoms():
                    deps.add(q)
                    deps |= self.atoms[q].deps
        a.deps = frozenset(deps)
        self.atoms.append(a)
        self.index[key] = a
        if self.pending is not None:
            self.pending.append(a)
            self.pending = None
        return a

    def near(self, key, p, extra=None):
        """an atom whose argument differs from p by rounding only"""
        k = ('near', key, frozenset(p.t))
        seen = self.index.setdefault(k, [])
        for a in seen:
            q = a.args[0].t
            if extra is not None and abs(a.args[1] - extra) > \
                    1e-12 * abs(extra):
                continue
            for m, c in p.t.items():
                if abs(c - q[m]) > 1e-12 * abs(c):
                    break
            else:
                return a
        # the caller makes the atom next
        self.pending = seen
        return None

    def input(self, name, lo, hi, integer=False):
        key = ('in', name)
        a = self.index.get(key)
        if a is None:
            a = self._new(key, 'int' if integer else 'in', name, (),
                          float(lo), float(hi))
            a.args = (lo, hi)
        return a

    def define(self, p):
        key = ('def', p.key())
        a = self.index.get(key)
        if a is None:
            a = self.near(('def',), p)
        if a is None:
            lo, hi = p.interval()
            a = self._new(key, 'def', 'd%d' % len(self.atoms), (p,), lo, hi)
        return a

    def fn(self, name, arg, extra=None):
        key = ('fn', name, extra, arg.key())
        a = self.index.get(key)
        if a is None:
            a = self.near(('fn', name), arg, extra)
        if a is None:
            lo, hi = fn_interval(name, arg.interval(), extra)
            a = self._new(key, 'fn', name, (arg, extra), lo, hi)
        return a


TABLE = [None]


def table():
    return TABLE[0]


def fn_value(name, x, extra=None):
    if name == 'exp':
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    if name == 'log':
        return math.log(x)
    if name == 'pow':          # x ** c, constant real c
        return math.pow(x, float(extra))
    if name == 'cos':
        return math.cos(x)
    if name == 'sin':
        return math.sin(x)
    if name == 'tan':
        return math.tan(x)
    if name == 'atan':
        return math.atan(x)
    if name == 'tanh':
        return math.tanh(x)
    raise KeyError(name)


def fn_interval(name, iv, extra):
    lo, hi = iv
    if name == 'exp':
        l = 0.0 if lo == -INF else fn_value('exp', lo)
        h = INF if hi == INF else fn_value('exp', hi)
        return (_lo(l), _hi(h))
    if name == 'log':
        l = -INF if lo <= 0 else math.log(lo)
        h = INF if hi == INF else (math.log(hi) if hi > 0 else -INF)
        return (_lo(l) - 1e-15, _hi(h) + 1e-15)
    if name == 'pow':
        c = float(extra)
        lo = max(lo, 0.0)
        hi = max(hi, 0.0)

        def pv(x):
            if x == 0:
                return 0.0 if c > 0 else INF
            if x == INF:
                return INF if c > 0 else 0.0
            try:
                return math.pow(x, c)
            except OverflowError:
                return INF
        a, b = pv(lo), pv(hi)
        return (_lo(min(a, b)), _hi(max(a, b)))
    if name == 'cos':
        if lo >= 0 and hi <= math.pi:
            return (_lo(math.cos(hi)) - 1e-15, _hi(math.cos(lo)) + 1e-15)
        return (-1.0, 1.0)
    if name == 'sin':
        return (-1.0, 1.0)
    if name in ('atan', 'tanh'):
        f = math.atan if name == 'atan' else math.tanh
        return (_lo(f(lo)) - 1e-15, _hi(f(hi)) + 1e-15)
    return (-INF, INF)


# -------------------------------------------------------------- polynomials
class Poly(object):
    __slots__ = ('t', '_k', '_iv')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._iv = None

    @staticmethod
    def const(c):
        c = frac(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, c):
        if not c:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return Poly(r)

    def powi(self, n):
        if n < 0:
            return self.inv().powi(-n)
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def inv(self):
        """1/self; self must be known nonzero on the current path."""
        if self.is_const():
            return Poly.const(1 / self.const_value())
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Poly({tuple((a, -e) for a, e in m): 1 / c})
        c = self.lead()
        # common monomial factor
        p = self.scale(1 / c)
        d = table().define(p)
        return Poly({((d.id, -1),): 1 / c})

    def lead(self):
        return self.t[max(self.t)]

    def interval(self):
        if self._iv is None:
            tb = table().atoms
            lo = hi = 0.0
            for m, c in self.t.items():
                iv = mono_interval(m, tb)
                a = imul(iv, (float(c), float(c)))
                lo += a[0]
                hi += a[1]
                # guard inf-inf
                if lo != lo:
                    lo = -INF
                if hi != hi:
                    hi = INF
            sc = max(abs(lo) if abs(lo) != INF else 0,
                     abs(hi) if abs(hi) != INF else 0)
            if len(self.t) > 1:
                big = 0.0
                for m, c in self.t.items():
                    iv = mono_interval(m, tb)
                    for x in iv:
                        if abs(x) != INF:
                            big = max(big, abs(x * float(c)))
                lo, hi = lo - 1e-14 * big, hi + 1e-14 * big
                if lo < 0 < hi and len(self.t) <= 80:
                    a, b = horner(dict(self.t), tb)
                    lo = max(lo, a - 1e-14 * big)
                    hi = min(hi, b + 1e-14 * big)
            self._iv = (lo, hi)
        return self._iv

    def evaluate(self, env):
        """numeric value; env maps atom id -> float"""
        s = 0.0
        for m, c in self.t.items():
            v = float(c)
            for a, e in m:
                v *= env[a] ** e
            s += v
        return s

    def __repr__(self):
        tb = table().atoms
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: x[0]):
            out.append('%s%s' % (
                '%.8g' % float(c),
                ''.join('*%s%s' % (tb[a].name if tb[a].kind != 'fn' else
                                   tb[a].name + '_%d' % a,
                                   '^%d' % e if e != 1 else '')
                        for a, e in m)))
        return ' + '.join(out) or '0'


def clear(p, limit=4000):
    """p as N/D with the named denominators multiplied out, or None when
    that grows too large"""
    tb = table().atoms
    n, d = p, Poly.const(1)
    for _ in range(40):
        defs = [a for a in n.atoms() | d.atoms() if tb[a].kind == 'def']
        if not defs:
            return n, d
        x = max(defs)
        q = tb[x].args[0]
        up = max([-e for f in (n, d) for m in f.t for a, e in m if a == x] +
                 [0])
        out = []
        for f in (n, d):
            parts = {}
            for m, c in f.t.items():
                e = up
                rest = []
                for a, k in m:
                    if a == x:
                        e += k
                    else:
                        rest.append((a, k))
                parts.setdefault(e, {})[tuple(rest)] = c
            r = Poly({})
            # in the manner of Horner, from the highest power down
            top = max(parts) if parts else 0
            for e in range(top, -1, -1):
                if r.t:
                    if len(r.t) * len(q.t) > 10 * limit:
                        return None
                    r = r.mul(q)
                if e in parts:
                    r = r.add(Poly(parts[e]))
                if len(r.t) > limit:
                    return None
            out.append(r)
        n, d = out
    return None


def quotient_bound(n, d):
    """B with |n/d| <= B; every monomial of n is set against the one of d
    (all of one sign) that bounds it best; None if d has no such form"""
    if not n.t:
        return 0.0
    tb = table().atoms
    if any(tb[a].lo < 0 for a in d.atoms()):
        return None
    cs = list(d.t.values())
    if not (all(c > 0 for c in cs) or all(c < 0 for c in cs)):
        return None
    if len(n.t) * len(d.t) > 200000:
        return None
    inv = [(tuple((a, -e) for a, e in m), abs(float(c)))
           for m, c in d.t.items()]
    total = 0.0
    for m, c in n.t.items():
        best = INF
        for w, k in inv:
            iv = mono_interval(mono_mul(m, w), tb)
            hi = max(-iv[0], iv[1]) / k
            if hi < best:
                best = hi
        total += abs(float(c)) * best
    return total * (1 + 1e-9)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return tuple(sorted(d.items()))


def horner(t, tb):
    """bounds from a factored form: the most shared factor taken out first"""
    if not t:
        return (0.0, 0.0)
    if len(t) == 1:
        (m, c), = t.items()
        return imul(mono_interval(m, tb), (float(c), float(c)))
    count = {}
    for m in t:
        for a, e in m:
            k = (a, e > 0)
            count[k] = count.get(k, 0) + 1
    best, n = None, 1
    for k in sorted(count):
        if count[k] > n:
            best, n = k, count[k]
    if best is None:
        r = (0.0, 0.0)
        for m, c in t.items():
            r = iadd(r, imul(mono_interval(m, tb), (float(c), float(c))))
        return (-INF if r[0] != r[0] else r[0], INF if r[1] != r[1] else r[1])
    a, pos = best
    es = [e for m in t for x, e in m if x == a and (e > 0) == pos]
    k = min(es) if pos else max(es)
    q, rest = {}, {}
    for m, c in t.items():
        for x, e in m:
            if x == a and (e > 0) == pos:
                q[tuple((y, f - k if y == a else f) for y, f in m
                        if y != a or f != k)] = c
                break
        else:
            rest[m] = c
    h = imul(ipow((tb[a].lo, tb[a].hi), k), horner(q, tb))
    if rest:
        h = iadd(h, horner(rest, tb))
    return (-INF if h[0] != h[0] else h[0], INF if h[1] != h[1] else h[1])


def mono_interval(m, tb):
    iv = (1.0, 1.0)
    for a, e in m:
        at = tb[a]
        iv = imul(iv, ipow((at.lo, at.hi), e))
    return iv


def numeric_env(inputs):
    """Values of all atoms of the table given the input atoms' values."""
    env = {}
    for a in table().atoms:
        if a.kind in ('in', 'int'):
            v = inputs.get(a.name)
            if v is None:
                v = a.lo if abs(a.lo) != INF else 0.0
            env[a.id] = float(v)
        else:
            try:
                x = a.args[0].evaluate(env)
                env[a.id] = x if a.kind == 'def' else \
                    fn_value(a.name, x, a.args[1])
            except (ZeroDivisionError, ValueError, OverflowError, KeyError):
                env[a.id] = float('nan')
    return env
