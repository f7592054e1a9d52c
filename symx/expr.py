"""Integer expressions (linear over variables and opaque atoms) and conditions on them.

Everything can be evaluated under a model (dict var -> int) and converted to z3.
"""
import z3
from . import iset
from .iset import NEG, POS

_Z = {}


def zvar(i):
    r = _Z.get(i)
    if r is None:
        r = _Z[i] = z3.Int('v%d' % i)
    return r


_ZB = {}


def zbvar(i, w):
    r = _ZB.get((i, w))
    if r is None:
        r = _ZB[i, w] = z3.BitVec('b%d_%d' % (i, w), w)
    return r


# ---------------------------------------------------------------- opaque atoms
class Opq:
    __slots__ = ('key', 'vs', '_z')

    def __eq__(self, o):
        return isinstance(o, Opq) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class PMap(Opq):
    """piecewise shift: value = l + delta for l in [lo, hi]"""
    __slots__ = ('l', 'pieces')

    def __init__(self, l, pieces):
        self.l, self.pieces = l, tuple(pieces)
        self.key = ('p', l.key(), self.pieces)
        self.vs = l.vars()
        self._z = None

    def ev(self, m):
        x = self.l.ev(m)
        for lo, hi, d in self.pieces:
            if lo <= x <= hi:
                return x + d
        return x

    def live(self):
        """pieces that the argument's domain still reaches"""
        l = self.l
        if DOM is not None and len(l.t) == 1 and l.t[0][1] == 1 and isinstance(l.t[0][0], int):
            d = iset.shift(DOM(l.t[0][0]), l.c)
            r = [p for p in self.pieces if p[2] and iset.inter(d, ((p[0], p[1]),))]
        else:
            r = [p for p in self.pieces if p[2]]
        return reversed(r)

    def z(self):
        if self._z is None:
            v = self.l.z()
            e = v
            for lo, hi, d in self.live():
                if d:
                    e = z3.If(z3.And(v >= lo, v <= hi), v + d, e)
            self._z = e
        return self._z

    def zb(self, w):
        v = self.l.zb(w)
        e = v
        for lo, hi, d in self.live():
            if d:
                e = z3.If(z3.And(v >= lo, v <= hi), v + d, e)
        return e

    def pre(self, s):
        """{x | map(x) in s}"""
        out = []
        rest = iset.FULL
        for lo, hi, d in self.pieces:
            out += list(iset.inter(iset.shift(s, -d), ((lo, hi),)))
            rest = iset.diff(rest, ((lo, hi),))
        out += list(iset.inter(s, rest))
        return iset.norm(out)


class DivC(Opq):
    __slots__ = ('l', 'k')

    def __init__(self, l, k):
        self.l, self.k = l, k
        self.key = ('d', l.key(), k)
        self.vs = l.vars()
        self._z = None

    def ev(self, m):
        return self.l.ev(m) // self.k

    def z(self):
        if self._z is None:
            self._z = self.l.z() / self.k
        return self._z

    def zb(self, w):
        v, k = self.l.zb(w), self.k
        if k & (k - 1) == 0:
            return v >> (k.bit_length() - 1)
        # floor division of a signed value
        q = v / k
        return z3.If(z3.And(v < 0, z3.SRem(v, z3.BitVecVal(k, w)) != 0), q - 1, q)


class ModC(Opq):
    __slots__ = ('l', 'k')

    def __init__(self, l, k):
        self.l, self.k = l, k
        self.key = ('m', l.key(), k)
        self.vs = l.vars()
        self._z = None

    def ev(self, m):
        return self.l.ev(m) % self.k

    def z(self):
        if self._z is None:
            self._z = self.l.z() % self.k
        return self._z

    def zb(self, w):
        v, k = self.l.zb(w), self.k
        if k & (k - 1) == 0:
            return v & (k - 1)
        return v % k


class Ite(Opq):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.key = ('i', c.key, a.key(), b.key())
        self.vs = c.vs | a.vars() | b.vars()
        self._z = None

    def ev(self, m):
        return self.a.ev(m) if self.c.ev(m) else self.b.ev(m)

    def z(self):
        if self._z is None:
            self._z = z3.If(self.c.z(), self.a.z(), self.b.z())
        return self._z

    def zb(self, w):
        return z3.If(self.c.zb(w), self.a.zb(w), self.b.zb(w))


class MulV(Opq):
    """product of two linear expressions (non-linear)"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.key = ('x', a.key(), b.key())
        self.vs = a.vars() | b.vars()
        self._z = None

    def ev(self, m):
        return self.a.ev(m) * self.b.ev(m)

    def z(self):
        if self._z is None:
            self._z = self.a.z() * self.b.z()
        return self._z

    def zb(self, w):
        raise NotImplementedError


# ---------------------------------------------------------------- linear expressions
class Lin:
    __slots__ = ('t', 'c', '_z', '_k')

    def __init__(self, t, c):
        self.t, self.c = t, c      # t: tuple of (atom, coeff), c: int
        self._z = self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset((a if isinstance(a, int) else a.key, k) for a, k in self.t), self.c)
        return self._k

    def vars(self):
        r = frozenset()
        for a, _ in self.t:
            r |= (frozenset((a,)) if isinstance(a, int) else a.vs)
        return r

    def ev(self, m):
        r = self.c
        for a, k in self.t:
            r += k * (m[a] if isinstance(a, int) else a.ev(m))
        return r

    def z(self):
        if self._z is None:
            e = None
            for a, k in self.t:
                x = zvar(a) if isinstance(a, int) else a.z()
                if k != 1:
                    x = k * x
                e = x if e is None else e + x
            if self.c or e is None:
                e = z3.IntVal(self.c) if e is None else e + self.c
            self._z = e
        return self._z

    def zb(self, w):
        e = None
        for a, k in self.t:
            x = zbvar(a, w) if isinstance(a, int) else a.zb(w)
            if k != 1:
                x = x * k
            e = x if e is None else e + x
        if self.c or e is None:
            e = z3.BitVecVal(self.c, w) if e is None else e + self.c
        return e

    def __repr__(self):
        return 'Lin(%s + %d)' % (' + '.join('%d*%s' % (k, a if isinstance(a, int) else a.key) for a, k in self.t), self.c)


def var(i):
    return Lin(((i, 1),), 0)


def const(c):
    return Lin((), c)


def lin(x):
    return x if isinstance(x, Lin) else const(x)


def _mk(d, c):
    # fold k*(x div k) + (x mod k) -> x
    again = True
    while again:
        again = False
        for a in list(d):
            if isinstance(a, ModC) and a in d:
                co = d[a]
                for q in list(d):
                    # co*(l mod k) + co*k*((l div k) mod j) -> co*(l mod k*j)
                    if isinstance(q, ModC) and d[q] == co * a.k and q.l.key() == divc(a.l, a.k).key():
                        del d[a], d[q]
                        n = ModC(a.l, a.k * q.k)
                        d[n] = d.get(n, 0) + co
                        again = True
                        break
                if again:
                    break
                q = divc(a.l, a.k)
                if q.t and all(d.get(x) == y * co * a.k for x, y in q.t):
                    del d[a]
                    for x, y in q.t:
                        del d[x]
                    c -= q.c * co * a.k
                    for b, k in a.l.t:
                        d[b] = d.get(b, 0) + k * co
                        if not d[b]:
                            del d[b]
                    c += a.l.c * co
                    again = True
                    break
    return Lin(tuple(d.items()), c)


def add(a, b, s=1):
    """a + s*b"""
    a, b = lin(a), lin(b)
    if not b.t:
        return Lin(a.t, a.c + s * b.c)
    d = dict(a.t)
    for x, k in b.t:
        n = d.get(x, 0) + s * k
        if n:
            d[x] = n
        else:
            del d[x]
    return _mk(d, a.c + s * b.c)


def scale(a, k):
    if k == 0:
        return const(0)
    return Lin(tuple((x, c * k) for x, c in a.t), a.c * k)


def simp(l):
    return l.c if not l.t else l


def divc(l, k):
    """floor(l / k) as a Lin"""
    l = lin(l)
    if k == 1:
        return l
    if not l.t:
        return const(l.c // k)
    big, small = {}, {}
    for a, c in l.t:
        q, r = divmod(c, k)
        if r:
            small[a] = c
        else:
            big[a] = q
    qc, rc = divmod(l.c, k)
    rest = Lin(tuple(small.items()), rc)
    if not small:
        return Lin(tuple(big.items()), qc)
    lo, hi = BOUNDS(rest)
    if lo > NEG and hi < POS and lo // k == hi // k:
        return Lin(tuple(big.items()), qc + lo // k)
    if len(small) == 1 and rc == 0:
        (a, c), = small.items()
        if c == 1 and isinstance(a, DivC):
            rest, k = a.l, a.k * k
            d = DivC(rest, k)
        elif c == 1 and isinstance(a, ModC) and a.k % k == 0:
            m = modc(divc(a.l, k), a.k // k)
            return add(Lin(tuple(big.items()), qc), m)
        elif c > 1 and k % c == 0:
            d = DivC(Lin(((a, 1),), 0), k // c)
        else:
            d = DivC(rest, k)
    else:
        d = DivC(rest, k)
    big[d] = big.get(d, 0) + 1
    return Lin(tuple((a, c) for a, c in big.items() if c), qc)


def modc(l, k):
    """l mod k as a Lin"""
    l = lin(l)
    if not l.t:
        return const(l.c % k)
    small = []
    for a, c in l.t:
        c %= k
        if not c:
            continue
        if isinstance(a, ModC) and a.k % k == 0:
            for x, y in a.l.t:
                small.append((x, y * c))
            l = Lin((), l.c + a.l.c * c)
        else:
            small.append((a, c))
    d = {}
    for a, c in small:
        d[a] = (d.get(a, 0) + c) % k
    rest = Lin(tuple((a, c) for a, c in d.items() if c), l.c % k)
    if not rest.t:
        return const(rest.c)
    lo, hi = BOUNDS(rest)
    if lo > NEG and hi < POS and lo // k == hi // k:
        return add(rest, -(lo // k) * k)
    if len(rest.t) == 1 and rest.c == 0:
        (a, c), = rest.t
        if c > 1 and k % c == 0:     # (c*a) mod k = c * (a mod k/c)
            return scale(modc(Lin(((a, 1),), 0), k // c), c)
    return Lin(((ModC(rest, k), 1),), 0)


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('key', 'vs', '_z')


class U(Cond):
    """variable in set"""
    __slots__ = ('v', 's')

    def __init__(self, v, s):
        self.v, self.s = v, s
        self.key = ('u', v, s)
        self.vs = frozenset((v,))
        self._z = None

    def ev(self, m):
        return iset.has(self.s, m[self.v])

    def neg(self):
        return U(self.v, iset.compl(self.s))

    def z(self):
        if self._z is None:
            self._z = zset(zvar(self.v), self.s)
        return self._z

    def zb(self, w):
        top = (1 << (w - 1)) - 1
        return zset(zbvar(self.v, w), iset.inter(self.s, ((-top - 1, top),)))


def zset(v, s):
    parts = []
    for lo, hi in s:
        if lo == hi:
            parts.append(v == lo)
        elif lo <= NEG and hi >= POS:
            return z3.BoolVal(True)
        elif lo <= NEG:
            parts.append(v <= hi)
        elif hi >= POS:
            parts.append(v >= lo)
        else:
            parts.append(z3.And(v >= lo, v <= hi))
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(parts)


class L(Cond):
    """lin == 0 / lin != 0 / lin <= 0"""
    __slots__ = ('op', 'l')

    def __init__(self, op, l):
        self.op, self.l = op, l
        self.key = ('l', op, l.key())
        self.vs = l.vars()
        self._z = None

    def ev(self, m):
        x = self.l.ev(m)
        return x == 0 if self.op == '==' else x != 0 if self.op == '!=' else x <= 0

    def neg(self):
        if self.op == '==':
            return L('!=', self.l)
        if self.op == '!=':
            return L('==', self.l)
        return L('<=', add(const(1), self.l, -1))   # l > 0  <=>  1 - l <= 0

    def z(self):
        if self._z is None:
            x = self.l.z()
            self._z = x == 0 if self.op == '==' else x != 0 if self.op == '!=' else x <= 0
        return self._z

    def zb(self, w):
        x = self.l.zb(w)
        return x == 0 if self.op == '==' else x != 0 if self.op == '!=' else x <= 0


class AO(Cond):
    __slots__ = ('and_', 'cs')

    def __init__(self, and_, cs):
        self.and_, self.cs = and_, tuple(cs)
        self.key = ('a' if and_ else 'o',) + tuple(c.key for c in self.cs)
        vs = frozenset()
        for c in self.cs:
            vs |= c.vs
        self.vs = vs
        self._z = None

    def ev(self, m):
        if self.and_:
            for c in self.cs:
                if not c.ev(m):
                    return False
            return True
        for c in self.cs:
            if c.ev(m):
                return True
        return False

    def neg(self):
        return AO(not self.and_, [c.neg() for c in self.cs])

    def z(self):
        if self._z is None:
            zs = [c.z() for c in self.cs]
            self._z = z3.And(zs) if self.and_ else z3.Or(zs)
        return self._z

    def zb(self, w):
        zs = [c.zb(w) for c in self.cs]
        return z3.And(zs) if self.and_ else z3.Or(zs)


def cneg(c):
    return (not c) if isinstance(c, bool) else c.neg()


def _junction(cs, and_):
    """conditions and/or bools -> Cond or bool, merging unary conditions on one variable"""
    flat = []
    for c in cs:
        if isinstance(c, bool):
            if c is not and_:
                return not and_
            continue
        if isinstance(c, AO) and c.and_ is and_:
            flat += c.cs
        else:
            flat.append(c)
    un, rest, seen = {}, [], set()
    for c in flat:
        if isinstance(c, U):
            if c.v in un:
                un[c.v] = (iset.inter if and_ else iset.union)(un[c.v], c.s)
            else:
                un[c.v] = c.s
        elif c.key not in seen:
            seen.add(c.key)
            rest.append(c)
    out = []
    for v, s in un.items():
        if not s:
            if and_:
                return False
            continue
        if s == iset.FULL:
            if not and_:
                return True
            continue
        out.append(U(v, s))
    out += rest
    if not out:
        return and_
    if len(out) == 1:
        return out[0]
    return AO(and_, out)


def cand(cs):
    return _junction(cs, True)


def cor(cs):
    return _junction(cs, False)


def _single(l, op):
    """condition for a one-atom comparison  k*x + c op 0, or None"""
    (a, k), = l.t
    c = l.c
    if op == '==' or op == '!=':
        if (-c) % k:
            s = iset.EMPTY
        else:
            v = -c // k
            s = ((v, v),)
        if op == '!=':
            s = iset.compl(s)
    else:   # k*x <= -c
        if k > 0:
            s = ((NEG, (-c) // k),)
        else:
            s = ((-((-c) // -k), POS),)     # x >= ceil(-c/k) = -floor(-c/-k)
    return aset(a, s)


def aset(a, s):
    """condition for atom a in interval set s; None when there is no simpler form"""
    if not s:
        return False
    if s == iset.FULL:
        return True
    if isinstance(a, int):
        return U(a, s)
    if isinstance(a, PMap):
        return inset(a.l, a.pre(s))
    if isinstance(a, DivC):
        k = a.k
        return inset(a.l, iset.norm((lo if lo <= NEG else lo * k, hi if hi >= POS else hi * k + k - 1) for lo, hi in s))
    if isinstance(a, ModC):
        s = iset.inter(s, ((0, a.k - 1),))
        if not s:
            return False
        if s == ((0, a.k - 1),):
            return True
        return None
    if isinstance(a, Ite):
        return cor([cand([a.c, inset(a.a, s)]), cand([a.c.neg(), inset(a.b, s)])])
    return None


def cmp(op, a, b):
    """condition (Cond or bool) for a op b over ints / Lin"""
    if isinstance(a, int) and isinstance(b, int):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if op in ('>', '>='):
        a, b, op = b, a, '<' if op == '>' else '<='
    d = add(a, b, -1)
    if op == '<':
        d, op = add(d, 1), '<='
    if not d.t:
        return d.c == 0 if op == '==' else d.c != 0 if op == '!=' else d.c <= 0
    if len(d.t) == 1:
        r = _single(d, op)
        if r is not None:
            return r
    for a, k in d.t:
        if isinstance(a, PMap) and (k == 1 or k == -1):
            rest = add(Lin(tuple(x for x in d.t if x[0] is not a), d.c), a.l, k)
            if not rest.t:      # map(l) - l + const
                ok = lambda v: v == 0 if op == '==' else v != 0 if op == '!=' else v <= 0
                s, left = [], iset.FULL
                for lo, hi, dl in a.pieces:
                    left = iset.diff(left, ((lo, hi),))
                    if ok(rest.c + k * dl):
                        s.append((lo, hi))
                if ok(rest.c):
                    s += left
                return inset(a.l, iset.norm(s))
    return L(op, d)


def inset(e, s):
    """e in interval set"""
    if isinstance(e, int):
        return iset.has(s, e)
    if not e.t:
        return iset.has(s, e.c)
    if len(e.t) == 1:
        (a, k), = e.t
        if k == 1:
            s2 = iset.shift(s, -e.c)
        else:
            s2 = []
            for lo, hi in s:
                lo, hi = (lo if lo <= NEG else lo - e.c), (hi if hi >= POS else hi - e.c)
                if k < 0:
                    lo, hi = (NEG if hi >= POS else -hi), (POS if lo <= NEG else -lo)
                q = abs(k)
                lo = lo if lo <= NEG else -(-lo // q)
                hi = hi if hi >= POS else hi // q
                if lo <= hi:
                    s2.append((lo, hi))
            s2 = iset.norm(s2)
        r = aset(a, s2)
        if r is not None:
            return r
    return cor([cand([L('<=', add(const(lo), e, -1)) if lo > NEG else True, L('<=', add(e, const(hi), -1)) if hi < POS else True])
                for lo, hi in s])


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return Lin(((Ite(c, lin(a), lin(b)), 1),), 0)


DOM = None        # set by core: domain of a variable on the current path
BOUNDS = None     # set by core: bounds of a Lin on the current path


def pmap(e, pieces):
    """piecewise shift applied to an element; composes with earlier shifts"""
    if isinstance(e, int):
        for lo, hi, d in pieces:
            if lo <= e <= hi:
                return e + d
        return e
    if len(e.t) == 1 and e.t[0][1] == 1:
        a, _ = e.t[0]
        if isinstance(a, PMap):
            # compose
            out = []
            rest = iset.FULL
            segs = []
            for lo, hi, d in a.pieces:
                segs.append((((lo, hi),), d))
                rest = iset.diff(rest, ((lo, hi),))
            segs.append((rest, 0))
            for dom, d0 in segs:
                left = dom
                for lo, hi, d in pieces:
                    s = iset.inter(dom, ((lo - d0 - e.c, hi - d0 - e.c),))
                    for x, y in s:
                        out.append((x, y, d0 + d))
                    left = iset.diff(left, s)
                if d0:
                    for x, y in left:
                        out.append((x, y, d0))
            return add(_pm(a.l, out), e.c)
        if isinstance(a, Ite) and e.c == 0:
            return ite(a.c, pmap(simp(a.a), pieces), pmap(simp(a.b), pieces))
        if e.c:
            return add(_pm(Lin(e.t, 0), [(lo - e.c, hi - e.c, d) for lo, hi, d in pieces]), e.c)
    return _pm(e, pieces)


def _pm(l, pieces):
    """atom for a piecewise shift of l, using the bounds of l"""
    lo, hi = BOUNDS(l)
    out, rest = [], ((lo, hi),)
    for x, y, d in sorted(pieces):
        x, y = max(x, lo), min(y, hi)
        if x > y:
            continue
        rest = iset.diff(rest, ((x, y),))
        if out and out[-1][1] == x - 1 and out[-1][2] == d:
            out[-1] = (out[-1][0], y, d)
        elif d:
            out.append((x, y, d))
        else:
            rest = iset.norm(list(rest) + [(x, y)])
    if not out:
        return l
    if len(out) == 1 and not rest:
        return add(l, out[0][2])
    return Lin(((PMap(l, out), 1),), 0)
