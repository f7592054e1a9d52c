"""Byte strings of symbolic length: sequences of literals and windows of opaque blobs.

A blob is an arbitrary byte string of symbolic length; its content is only ever copied, sliced and compared by
position (two windows are the same bytes, for every content of the blob, iff they are the same window).
"""
import random
from . import core
from . import expr as X
from . import vals as V
from .core import branch

_PAT = {}
MAXBLOB = 1 << 20


def pattern(name, n):
    """the content a blob gets in concrete runs: no window of it repeats"""
    p = _PAT.get(name)
    if p is None or len(p) < n:
        p = _PAT[name] = random.Random(name).randbytes(max(n, 4096))
    return p[:n]


class Unsupported(core.EngineError):
    pass


def lin(x):
    return V.ilin(x)


class Blk:
    """window [off, off+n) of a blob"""
    __slots__ = ('name', 'off', 'n')

    def __init__(self, name, off, n):
        self.name, self.off, self.n = name, off, n

    def ev(self, m):
        o, n = V.evaluate(self.off, m), V.evaluate(self.n, m)
        return pattern(self.name, o + n)[o:o + n]


def seglen(s):
    return s.n if type(s) is Blk else len(s)


def known0(x):
    return type(x) is int and x == 0


class Rope:
    _sx = True
    _sx_rope = True
    __slots__ = ('s',)

    def __init__(self, segs):
        out = []
        for s in segs:
            if type(s) is Blk:
                if known0(s.n):
                    continue
                if out and type(out[-1]) is Blk:
                    p = out[-1]
                    if p.name == s.name and _same(p.off + p.n, s.off):
                        out[-1] = Blk(p.name, p.off, p.n + s.n)
                        continue
            else:
                if not len(s):
                    continue
                if out and type(out[-1]) is not Blk:
                    out[-1] = out[-1] + s
                    continue
            out.append(s)
        self.s = out

    @property
    def __class__(self):
        return bytes

    def _sx_len(self):
        n = 0
        for s in self.s:
            n = n + seglen(s)
        return n

    def __len__(self):
        return V.concretize(self._sx_len())

    def _sx_cond(self):
        n = self._sx_len()
        return n > 0 if type(n) is int else X.cmp('!=', n.l, 0)

    def __bool__(self):
        return branch(self._sx_cond())

    def _sx_ev(self, m):
        return b''.join(s.ev(m) if type(s) is Blk else V.evaluate(s, m) for s in self.s)

    def __repr__(self):
        return 'Rope(%r)' % (self.s,)

    def __hash__(self):
        raise Unsupported('hash of a rope')

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return mk(self.s + (o.s if type(o) is Rope else [o]))

    def __radd__(self, o):
        return mk([o] + self.s)

    def __getitem__(self, k):
        if not isinstance(k, slice):
            r = self[k:k + 1] if k != -1 else self[-1:]
            if type(r) is Rope:
                raise Unsupported('byte of a blob')
            return r[0]
        if k.step is not None and k.step != 1:
            raise Unsupported('step in a rope')
        n = self._sx_len()
        a, b = _clamp(k.start, 0, n), _clamp(k.stop, n, n)
        out = []
        c = 0                      # start of the segment
        for s in self.s:
            m = seglen(s)
            e = c + m
            if not V_lt(c, b):
                break
            if not V_lt(a, e):
                c = e
                continue
            lo = a - c if V_lt(c, a) else 0
            hi = b - c if V_lt(b, e) else m
            if type(s) is Blk:
                out.append(Blk(s.name, s.off + lo, hi - lo))
            else:
                out.append(s[_small(lo, m):_small(hi, m)])
            c = e
        return mk(out)

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return False
        return V.mkbool(_eq(self.s, o.s if type(o) is Rope else [o] if len(o) else []))

    def __ne__(self, o):
        return V.sxnot(self == o)

    def startswith(self, p):
        return self[:len(p)] == p

    def endswith(self, p):
        n = self._sx_len() - len(p)
        return n >= 0 and self[n:] == p

    def __iter__(self):
        raise Unsupported('iteration over a rope')

    def __getattr__(self, n):
        if n.startswith('_sx') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('method %s of a rope' % n)


def _small(x, m):
    """a position within a literal of m bytes, value by value"""
    lo, hi = 0, m
    if type(x) is int:
        return x
    while lo < hi:
        mid = (lo + hi) // 2
        if branch(X.cmp('<=', x.l, mid)):
            hi = mid
        else:
            lo = mid + 1
    return lo


def V_lt(a, b):
    r = a < b
    return r if r is True or r is False else branch(V.cond(r))


def _same(a, b):
    """known to be equal (no fork)"""
    if type(a) is int and type(b) is int:
        return a == b
    c = X.cmp('==', lin(a), lin(b))
    return c is True or (c is not False and core.CUR.tri(c) is True)


def _clamp(x, default, n):
    if x is None:
        return default
    if V_lt(x, 0):
        x = x + n
        if V_lt(x, 0):
            x = 0
    return n if V_lt(n, x) else x


def mk(segs):
    r = Rope(segs)
    if not r.s:
        return b''
    if len(r.s) == 1 and type(r.s[0]) is not Blk:
        return r.s[0]
    return r


def _eq(a, b):
    """condition under which two segment lists are equal for every content of the blobs"""
    a, b = list(a), list(b)
    conds = []
    while a and b:
        s, t = a[0], b[0]
        m, n = seglen(s), seglen(t)
        if type(s) is Blk and type(t) is Blk and s.name == t.name:
            if V_lt(m, n):
                k = m
                a.pop(0)
                b[0] = Blk(t.name, t.off + m, n - m)
            elif V_lt(n, m):
                k = n
                b.pop(0)
                a[0] = Blk(s.name, s.off + n, m - n)
            else:
                k = m
                a.pop(0)
                b.pop(0)
            conds.append(X.cor([_c(k, '==', 0), X.cmp('==', lin(s.off), lin(t.off))]))
        elif type(s) is not Blk and type(t) is not Blk:
            k = min(m, n)
            conds.append(V.cond(s[:k] == t[:k]))
            a[0], b[0] = s[k:], t[k:]
            if not len(a[0]):
                a.pop(0)
            if not len(b[0]):
                b.pop(0)
        else:                       # different contents: only empty ones are equal
            z, o = (a, m) if type(s) is Blk else (b, n)
            if branch(_c(o, '==', 0)):
                z.pop(0)
            elif type(s) is Blk and type(t) is Blk and branch(_c(n, '==', 0)):
                b.pop(0)
            else:
                return False
    for s in a + b:
        conds.append(_c(seglen(s), '==', 0))
    return X.cand(conds)


def _c(x, op, y):
    return X.cmp(op, lin(x), y) if type(x) is not int else (x == y)
