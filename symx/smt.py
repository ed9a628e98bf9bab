"""Solver processes and translation of polynomial constraints to SMT-LIB2.

A constraint is (poly, op) meaning  poly op 0  with op in < <= == !=.
Two encodings are used:
  lin  every monomial is one real variable bounded by interval arithmetic
       (a sound over-approximation: unsat there is unsat in the reals);
  nra  the exact nonlinear constraints, transcendental applications being
       variables constrained by bounds, pairwise monotonicity lemmas and
       point lemmas (also an over-approximation of those functions only).
"""
import os
import select
import shutil
import subprocess
import time
from fractions import Fraction

from .poly import INF, Poly, fn_value, frac, imul, mono_interval, table

STATS = {'queries': 0, 'lin': 0, 'nra': 0, 'time': 0.0, 'unsat': 0,
         'sat': 0, 'unknown': 0, 'cvc5': 0}

Z3 = shutil.which('z3-new') or shutil.which('z3') or 'z3-new'
CVC5 = shutil.which('cvc5')


class SolverError(Exception):
    pass


class Proc(object):
    def __init__(self, cmd):
        self.cmd = cmd
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)
        self.buf = b''

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def ask(self, text, timeout):
        """send text, return output lines up to the sentinel; None=timeout"""
        if self.p is None:
            self.start()
        data = (text + '\n(echo "@@")\n').encode()
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.close()
            raise SolverError('solver died')
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while True:
            k = self.buf.find(b'@@')
            if k >= 0:
                out = self.buf[:k]
                self.buf = self.buf[k + 2:].lstrip(b'"').lstrip(b'\n')
                return out.decode().replace('"', '').strip()
            left = end - time.time()
            if left <= 0:
                self.close()
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                self.close()
                return None
            d = os.read(fd, 65536)
            if not d:
                self.close()
                raise SolverError('solver exited: %s' % self.buf[-300:])
            self.buf += d


def num(c):
    c = frac(c)
    if c < 0:
        return '(- %s)' % num(-c)
    if c.denominator == 1:
        return '%d.0' % c.numerator
    return '(/ %d.0 %d.0)' % (c.numerator, c.denominator)


def fnum(x):
    """a float bound as a rational"""
    return num(Fraction(repr(x)))


OPS = {'<': '<', '<=': '<=', '==': '='}


def closure(ids):
    tb = table().atoms
    s = set(ids)
    for a in list(s):
        s |= tb[a].deps
    return s


def fn_pairs(ids):
    """pairs of applications of the same function"""
    tb = table().atoms
    groups = {}
    for a in ids:
        at = tb[a]
        if at.kind == 'fn':
            groups.setdefault((at.name, at.args[1]), []).append(at)
    for (name, extra), ats in groups.items():
        ats.sort(key=lambda q: q.id)
        for i in range(len(ats)):
            for j in range(i):
                yield name, extra, ats[j], ats[i]


def monotone_dir(name, extra, at=None):
    if name in ('exp', 'log', 'atan', 'tanh'):
        return 1
    if name == 'pow':
        return 1 if extra > 0 else -1
    if name == 'cos' and at is not None:
        lo, hi = at.args[0].interval()
        if lo >= 0 and hi <= 3.1415926:
            return -1
    return 0


# --------------------------------------------------------- linear encoding
def mname(m):
    if len(m) == 1 and m[0][1] == 1:
        return 'a%d' % m[0][0]
    return 'm' + '_'.join('%d%s%d' % (a, 'p' if e > 0 else 'n', abs(e))
                          for a, e in m)


def _lin_expr(p, scale=True):
    terms = []
    for m, c in p.t.items():
        if not m:
            terms.append(num(c))
        elif c == 1:
            terms.append(mname(m))
        else:
            terms.append('(* %s %s)' % (num(c), mname(m)))
    if not terms:
        return '0.0'
    if len(terms) == 1:
        return terms[0]
    return '(+ %s)' % ' '.join(terms)


def _rel(expr, op):
    if op == '!=':
        return '(not (= %s 0.0))' % expr
    return '(%s %s 0.0)' % (OPS[op], expr)


class LinStack(object):
    """incremental LRA over-approximation following the current path"""

    def __init__(self, timeout=2.0):
        self.proc = Proc([Z3, '-in', '-smt2'])
        self.timeout = timeout
        self.reset()

    def reset(self):
        self.proc.close()
        self.frames = []          # list of (key, newmonos, newatoms)
        self.monos = set()
        self.atoms = set()
        self.declared = set()
        self.pending = ['(set-option :print-success false)',
                        '(set-option :global-declarations true)',
                        '(set-option :timeout %d)' % int(self.timeout * 1000),
                        '(set-logic QF_LRA)']

    def close(self):
        self.proc.close()

    def _need(self, p, out, newm, newa):
        tb = table().atoms
        for m in p.t:
            if m and m not in self.monos:
                self.monos.add(m)
                newm.append(m)
                n = mname(m)
                if n not in self.declared:
                    self.declared.add(n)
                    out.append('(declare-fun %s () Real)' % n)
                lo, hi = mono_interval(m, tb)
                if lo != -INF:
                    out.append('(assert (>= %s %s))' % (n, fnum(lo)))
                if hi != INF:
                    out.append('(assert (<= %s %s))' % (n, fnum(hi)))
                for a, e in m:
                    self._need_atom(a, out, newm, newa, e < 0)

    def _need_atom(self, a, out, newm, newa, inv):
        tb = table().atoms
        key = (a, inv)
        if key in self.atoms:
            return
        self.atoms.add(key)
        newa.append(key)
        at = tb[a]
        if at.kind == 'def':
            d = Poly.atom(at)
            p = at.args[0]
            if inv:
                q = p.mul(Poly({((a, -1),): Fraction(1)}))
                q = q.add(Poly.const(-1))
                self._need(q, out, newm, newa)
                out.append('(assert (= %s 0.0))' % _lin_expr(q))
            else:
                self._need(d, out, newm, newa)
                self._need(p, out, newm, newa)
                out.append('(assert (= %s %s))' % (_lin_expr(d),
                                                   _lin_expr(p)))
        elif at.kind == 'fn' and not inv:
            d = monotone_dir(at.name, at.args[1], at)
            self._need(Poly.atom(at), out, newm, newa)
            self._need(at.args[0], out, newm, newa)
            for (b, binv) in list(self.atoms):
                bt = tb[b]
                if binv or b == a or bt.kind != 'fn' or \
                        bt.name != at.name or bt.args[1] != at.args[1]:
                    continue
                if not d:
                    continue
                df = at.args[0].sub(bt.args[0])
                self._need(df, out, newm, newa)
                e = _lin_expr(df)
                op1, op2 = ('>=', '<=') if d > 0 else ('<=', '>=')
                out.append('(assert (=> (>= %s 0.0) (%s a%d a%d)))'
                           % (e, op1, a, b))
                out.append('(assert (=> (<= %s 0.0) (%s a%d a%d)))'
                           % (e, op2, a, b))

    def sync(self, cons):
        n = 0
        while n < len(cons) and n < len(self.frames) and \
                self.frames[n][0] == (cons[n][0].key(), cons[n][1]):
            n += 1
        k = len(self.frames) - n
        if k > 0:
            self.pending.append('(pop %d)' % k)
            for f in self.frames[n:]:
                self.monos.difference_update(f[1])
                self.atoms.difference_update(f[2])
            del self.frames[n:]
        for c in cons[n:]:
            self._push(c)

    def _push(self, c):
        out = ['(push 1)']
        newm, newa = [], []
        self._need(c[0], out, newm, newa)
        out.append('(assert %s)' % _rel(_lin_expr(c[0]), c[1]))
        self.pending.extend(out)
        self.frames.append(((c[0].key(), c[1]), newm, newa))

    def check(self, cons, extra=(), model=None):
        """unsat / sat / unknown for cons and extra; LRA abstraction"""
        self.sync(cons)
        for c in extra:
            self._push(c)
        txt = '\n'.join(self.pending) + '\n(check-sat)'
        self.pending = []
        t0 = time.time()
        try:
            out = self.proc.ask(txt, self.timeout + 3)
        except SolverError:
            out = None
        STATS['queries'] += 1
        STATS['lin'] += 1
        STATS['time'] += time.time() - t0
        if out is None:
            self.reset()
            return 'unknown'
        if '(error' in out:
            raise SolverError(out[:2000])
        res = out.split()[-1] if out else 'unknown'
        vals = None
        if res == 'sat' and model is not None:
            names = ['a%d' % a for a in model if 'a%d' % a in self.declared]
            if names:
                o = self.proc.ask('(get-value (%s))' % ' '.join(names), 5)
                vals = parse_values(o) if o and '(error' not in o else None
        if extra:
            k = len(extra)
            self.pending.append('(pop %d)' % k)
            for f in self.frames[-k:]:
                self.monos.difference_update(f[1])
                self.atoms.difference_update(f[2])
            del self.frames[-k:]
        STATS[res if res in ('sat', 'unsat') else 'unknown'] += 1
        if model is not None:
            return res, vals
        return res


# ------------------------------------------------------- nonlinear encoding
def clear_denominators(p, inv_needed):
    """Multiply p by positive atoms to remove negative exponents.

    Atoms whose sign is unknown keep an explicit inverse variable.
    Returns (poly, flip)."""
    tb = table().atoms
    need = {}
    for m in p.t:
        for a, e in m:
            if e < 0:
                need[a] = max(need.get(a, 0), -e)
    flip = 1
    mult = []
    for a, k in need.items():
        at = tb[a]
        if at.lo >= 0:
            mult.append((a, k))
        elif at.hi <= 0:
            mult.append((a, k))
            if k % 2:
                flip = -flip
        else:
            inv_needed.add(a)
    if mult:
        p = p.mul(Poly({tuple(sorted(mult)): Fraction(1)}))
    return p, flip


def nra_mono(m):
    out = []
    for a, e in m:
        out.extend([('a%d' if e > 0 else 'i%d') % a] * abs(e))
    return out


def nra_expr(p):
    terms = []
    for m, c in p.t.items():
        f = nra_mono(m)
        if c != 1 or not f:
            f = [num(c)] + f
        terms.append(f[0] if len(f) == 1 else '(* %s)' % ' '.join(f))
    if not terms:
        return '0.0'
    return terms[0] if len(terms) == 1 else '(+ %s)' % ' '.join(terms)


def nra_script(cons, lemmas=(), pins=None, logic='QF_NRA', opaque=False):
    """SMT-LIB text (without check-sat); returns (text, atom ids)"""
    tb = table().atoms
    ids = set()
    for p, _ in cons:
        ids |= p.atoms()
    if not opaque:
        ids = closure(ids)
    body = []
    inv = set()

    def rel(p, op):
        q, flip = clear_denominators(p, inv)
        if flip < 0:
            q = q.neg()
        lead = max((abs(c) for c in q.t.values()), default=None)
        return _rel(nra_expr(q), op)

    nonzero = set()
    for p, op in cons:
        body.append('(assert %s)' % rel(p, op))
        for m in p.t:
            for a, e in m:
                if e < 0:
                    nonzero.add(a)
    work = sorted(ids)
    for a in work:
        at = tb[a]
        n = 'a%d' % a
        if at.lo != -INF:
            body.append('(assert (>= %s %s))' % (n, fnum(at.lo)))
        if at.hi != INF:
            body.append('(assert (<= %s %s))' % (n, fnum(at.hi)))
        if opaque:
            continue
        if at.kind == 'def':
            p = at.args[0].sub(Poly.atom(at))
            body.append('(assert %s)' % rel(p, '=='))
            for m in at.args[0].t:
                for b, e in m:
                    if e < 0:
                        nonzero.add(b)
        elif at.kind == 'fn':
            for m in at.args[0].t:
                for b, e in m:
                    if e < 0:
                        nonzero.add(b)
            if at.name == 'pow':
                x = at.args[1]
                if x.denominator in (2, 4, 3) and 0 < x.numerator <= 3:
                    q = Poly.atom(at).powi(x.denominator).sub(
                        at.args[0].powi(x.numerator))
                    body.append('(assert %s)' % rel(q, '=='))
            elif at.name == 'exp':
                q = Poly.atom(at).sub(at.args[0]).add(Poly.const(-1))
                body.append('(assert %s)' % rel(q.neg(), '<='))
            elif at.name == 'log':
                q = Poly.atom(at).sub(at.args[0]).add(Poly.const(1))
                body.append('(assert %s)' % rel(q, '<='))
    for name, extra, x, y in fn_pairs(() if opaque else work):
        d = monotone_dir(name, extra, x)
        if name == 'cos' and d and not monotone_dir(name, extra, y):
            d = 0
        if not d:
            continue
        df = y.args[0].sub(x.args[0])
        fd = Poly.atom(y).sub(Poly.atom(x))
        if d < 0:
            fd = fd.neg()
        # strict monotonicity
        body.append('(assert (=> %s %s))' % (rel(df, '<'), rel(fd, '<')))
        body.append('(assert (=> %s %s))' % (rel(df, '=='), rel(fd, '==')))
        body.append('(assert (=> %s %s))' % (rel(df.neg(), '<'),
                                             rel(fd.neg(), '<')))
        if name == 'log':
            # 1 - x/y <= log y - log x <= y/x - 1
            X, Y = x.args[0], y.args[0]
            u = fd.mul(X).sub(Y.sub(X))
            body.append('(assert %s)' % rel(u, '<='))
            u = fd.neg().mul(Y).sub(X.sub(Y))
            body.append('(assert %s)' % rel(u, '<='))
        if name == 'exp':
            # e^y - e^x >= e^x (y - x), e^x - e^y >= e^y (x - y)
            ex, ey = Poly.atom(x), Poly.atom(y)
            body.append('(assert %s)' % rel(
                ex.mul(df).sub(ey.sub(ex)), '<='))
            body.append('(assert %s)' % rel(
                ey.mul(df.neg()).sub(ex.sub(ey)), '<='))
    for (aid, x0) in lemmas:
        if aid in ids:
            body.extend(point_lemma(tb[aid], x0, rel))
    if pins:
        for aid, v in pins.items():
            if aid in ids:
                body.append('(assert (= a%d %s))' % (aid, fnum(v)))
    for a in sorted(nonzero):
        if a in inv:
            continue
        at = tb[a]
        if at.lo >= 0:
            body.append('(assert (> a%d 0.0))' % a)
        elif at.hi <= 0:
            body.append('(assert (< a%d 0.0))' % a)
        else:
            body.append('(assert (not (= a%d 0.0)))' % a)
    head = ['(set-logic %s)' % logic]
    for a in work:
        head.append('(declare-fun a%d () %s)' % (
            a, 'Int' if tb[a].kind == 'int' else 'Real'))
    for a in sorted(inv):
        head.append('(declare-fun i%d () Real)' % a)
        body.append('(assert (= (* a%d i%d) 1.0))' % (a, a))
    return '\n'.join(head + body), work


def point_lemma(at, x0, rel):
    """f at x0: monotonicity through the point and, where convex or concave,
    the tangent there (x0 float)."""
    out = []
    name, extra = at.name, at.args[1]
    try:
        f0 = fn_value(name, x0, extra)
    except (ValueError, OverflowError, ZeroDivisionError):
        return out
    if f0 in (INF, -INF) or f0 != f0:
        return out
    eps = abs(f0) * 1e-13 + 1e-300
    d = monotone_dir(name, extra, at)
    arg, f = at.args[0], Poly.atom(at)
    ax = arg.sub(Poly.const(x0))
    hi = f.sub(Poly.const(Fraction(f0) + Fraction(eps)))
    lo = Poly.const(Fraction(f0) - Fraction(eps)).sub(f)
    if d > 0:
        out.append('(assert (=> %s %s))' % (rel(ax, '<='), rel(hi, '<=')))
        out.append('(assert (=> %s %s))' % (rel(ax.neg(), '<='),
                                            rel(lo, '<=')))
    elif d < 0:
        out.append('(assert (=> %s %s))' % (rel(ax.neg(), '<='),
                                            rel(hi, '<=')))
        out.append('(assert (=> %s %s))' % (rel(ax, '<='), rel(lo, '<=')))
    if name == 'exp':
        # f >= f0 (1 + x - x0)
        t = Poly.const(Fraction(f0) - Fraction(eps)).add(
            ax.scale(Fraction(f0)))
        slack = abs(f0) * 1e-12
        out.append('(assert %s)' % rel(
            t.sub(f).sub(Poly.const(slack)).sub(Poly.const(0)), '<='))
    if name == 'log' and x0 > 0:
        t = Poly.const(Fraction(f0) + Fraction(eps)).add(
            ax.scale(1 / Fraction(x0)))
        out.append('(assert %s)' % rel(
            f.sub(t).sub(Poly.const(1e-12 * (1 + abs(f0)))), '<='))
    return out


def parse_values(txt):
    """((a0 1.5) (a1 (- 2.0)) (a2 (/ 1.0 3.0)) ...) -> {name: Fraction}"""
    txt = txt.replace('?', '')
    toks = txt.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def parse():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            l = []
            while toks[pos[0]] != ')':
                l.append(parse())
            pos[0] += 1
            return l
        return t

    def val(x):
        if isinstance(x, str):
            return Fraction(x)
        if x[0] == '-':
            return -val(x[1]) if len(x) == 2 else val(x[1]) - val(x[2])
        if x[0] == '/':
            return val(x[1]) / val(x[2])
        if x[0] == '*':
            return val(x[1]) * val(x[2])
        if x[0] == '+':
            return sum(val(y) for y in x[1:])
        raise ValueError(x)

    out = {}
    try:
        for n, v in parse():
            try:
                out[n] = val(v)
            except (ValueError, ZeroDivisionError, TypeError):
                pass
    except (ValueError, IndexError):
        return None
    return out


class Nra(object):
    def __init__(self):
        self.z3 = Proc([Z3, '-in', '-smt2'])
        self.cvc5 = None

    def close(self):
        self.z3.close()
        if self.cvc5:
            self.cvc5.close()

    def check(self, cons, lemmas=(), pins=None, timeout=5.0, model=False,
              solver='z3', opaque=False):
        tb = table().atoms
        text, ids = nra_script(
            cons, lemmas, pins,
            'QF_NIRA' if any(tb[a].kind == 'int' for p, _ in cons
                             for a in closure(p.atoms())) else 'QF_NRA',
            opaque)
        t0 = time.time()
        STATS['queries'] += 1
        STATS['nra'] += 1
        names = [a for a in ids if tb[a].kind in ('in', 'int')]
        try:
            if solver == 'z3':
                pre = ('(reset)\n(set-option :timeout %d)\n'
                       '(set-option :pp.decimal true)\n'
                       '(set-option :pp.decimal_precision 30)\n'
                       % int(timeout * 1000))
                out = self.z3.ask(pre + text + '\n(check-sat)', timeout + 2)
                proc = self.z3
            else:
                STATS['cvc5'] += 1
                proc = Proc([CVC5, '--lang=smt2', '--incremental',
                             '--produce-models',
                             '--tlimit-per=%d' % int(timeout * 1000)])
                out = proc.ask(text + '\n(check-sat)', timeout + 2)
        except SolverError:
            out = None
        res = 'unknown'
        vals = None
        if out is not None:
            if '(error' in out:
                raise SolverError(out[:1500] + '\n' + text[:3000])
            w = out.split()
            res = w[-1] if w and w[-1] in ('sat', 'unsat') else 'unknown'
            if res == 'sat' and model and names:
                o = None
                try:
                    o = proc.ask('(get-value (%s))' % ' '.join(
                        'a%d' % a for a in names), timeout + 2)
                except SolverError:
                    pass
                if o and '(error' not in o:
                    v = parse_values(o) or {}
                    vals = {tb[a].name: v['a%d' % a] for a in names
                            if 'a%d' % a in v}
        if solver != 'z3':
            proc.close()
        STATS['time'] += time.time() - t0
        STATS[res] += 1
        if model:
            return res, vals
        return res
