"""What harnesses use."""
from . import core, shims
from .core import Sym, SymBool
from .runner import Case

exp = shims.m_exp
log = shims._log
sqrt = shims.m_sqrt
cos = shims.MATH['cos']
atan = shims.MATH['atan']


restart = shims.restart


def power(x, y):
    return shims.m_pow(x, y)


class Registry(list):
    def case(self, name, tier='quick', params=None, **opts):
        """decorator; params: list of (suffix, args...) giving one case each"""
        def deco(fn):
            if params is None:
                self.append(Case(name, fn, opts, tier))
            else:
                for p in params:
                    self.append(Case('%s-%s' % (name, p[0]),
                                     bind(fn, p[1:]), opts, tier))
            return fn
        return deco


def bind(fn, args):
    def g(c):
        return fn(c, *args)
    return g


def issym(x):
    return isinstance(x, (Sym, SymBool))


class Tags(object):
    """while active, a symbolic number turned into text or a float is a tag,
    a float standing for that number only; get(tag) gives it back"""

    def __init__(self):
        self.of = {}
        self.by = []

    def __call__(self, x):
        k = x.p.key()
        if k not in self.of:
            self.of[k] = 1003.123456789012 + 7.7071 * len(self.by)
            self.by.append((self.of[k], x))
        return self.of[k]

    def get(self, text, template=None, shift=0.0):
        """the number whose tag, or tag plus shift, was written as this
        text"""
        for tag, x in self.by:
            for s in {0.0, shift}:
                t = tag + s
                if text == (repr(t) if template is None else template % t):
                    return x + s
        return None

    def __enter__(self):
        Sym.tagger = self
        return self

    def __exit__(self, *a):
        Sym.tagger = None
