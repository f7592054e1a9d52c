"""Symbolic side of the harness API."""
from . import iset
from . import expr as X
from . import vals as V
from . import core
from .core import branch

ANYCHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
BYTE = ((0, 255),)


def dom_of(d, default):
    if d is None:
        return default
    if isinstance(d, str):
        return iset.of(*map(ord, d))
    if isinstance(d, bytes):
        return iset.of(*d)
    return iset.norm(d)


class SymCx:
    symbolic = True

    def __init__(self, path):
        self.p = path
        self._n = {}

    def _name(self, name):
        n = self._n.get(name, 0)
        self._n[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _reg(self, name, v):
        self.p.inputs[self._name(name)] = v
        return v

    def int(self, name, lo=0, hi=1 << 62):
        if lo == hi:
            return self._reg(name, lo)
        v = V.SymInt(X.var(self.p.new_var(((lo, hi),), name, (lo,))))
        return self._reg(name, v)

    def choice(self, name, options):
        options = list(options)
        n = len(options)
        if n == 1:
            self._reg(name, 0)
            return options[0]
        i = self.p.new_var(((0, n - 1),), name, (0,))
        x = X.var(i)
        self._reg(name, V.SymInt(x))
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if branch(X.cmp('<=', x, mid)):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def flag(self, name):
        return self.choice(name, (False, True))

    def char(self, name, dom=None):
        return self._reg(name, V.mkstr([self._el(name, dom_of(dom, ANYCHAR))]))

    def _el(self, name, dom):
        if iset.size(dom) == 1:
            return dom[0][0]
        return X.var(self.p.new_var(dom, name))

    def str(self, name, n, dom=None):
        if not isinstance(n, int):
            n = self.choice(name + '.len', range(n[0], n[1] + 1))
        d = dom_of(dom, ANYCHAR)
        return self._reg(name, V.mkstr([self._el(name, d) for _ in range(n)]))

    def bytes(self, name, n, dom=None):
        if not isinstance(n, int):
            n = self.choice(name + '.len', range(n[0], n[1] + 1))
        d = dom_of(dom, BYTE)
        return self._reg(name, V.mkbytes([self._el(name, d) for _ in range(n)]))

    def blob(self, name, lo=0, hi=1 << 16):
        """arbitrary bytes of symbolic length, only copied and compared by position"""
        from . import rope
        n = self.int(name, lo, hi)
        return rope.mk([rope.Blk(name, 0, n)])

    def assume(self, c):
        self.p.assume(V.cond(c))

    def check(self, c, msg):
        return self.p.check(V.cond(c), msg)

    def fail(self, msg):
        self.p.check(False, msg)

    def obs(self, name, value):
        self.p.observed.append((name, value))

    def reach(self, name):
        self.p.witnesses.add(name)
