"""Symbolic values: SymBool, SymInt, SymStr, SymBytes, LazyStr."""
import sys
from . import iset
from . import expr as X
from . import core
from .core import branch, EngineError
from .iset import NEG, POS


# ---------------------------------------------------------------- booleans
class Sym:
    """base of all symbolic values"""
    __slots__ = ()
    _sx = True


class SymBool(Sym):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.CUR.branch(self.c)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __and__(self, o):
        if isinstance(o, bool):
            return mkbool(X.cand([self.c, cond(o)]))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return mkbool(X.cor([self.c, cond(o)]))
        return NotImplemented
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, bool):
            a, b = self.c, cond(o)
            return mkbool(X.cor([X.cand([a, b]), X.cand([X.cneg(a), X.cneg(b)])]))
        if isinstance(o, int):
            return int(self) == o
        return False

    def __ne__(self, o):
        return sxnot(self == o)

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return repr(bool(self))


def mkbool(c):
    return c if c is True or c is False else SymBool(c)


def cond(x):
    """truth condition of a value, without forking when possible"""
    if x is True or x is False:
        return x
    t = type(x)
    if t is SymBool:
        return x.c
    if t is SymInt:
        return X.cmp('!=', x.l, 0)
    if getattr(t, '_sx_cond', None) is not None:
        return x._sx_cond()
    return bool(x)


def sxnot(x):
    if type(x) is SymBool:
        return mkbool(x.c.neg())
    return not x


# ---------------------------------------------------------------- integers
class SymInt(Sym):
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return branch(X.cmp('!=', self.l, 0))

    def __index__(self):
        return concretize(self)
    __int__ = __index__

    def __float__(self):
        return float(concretize(self))

    def __hash__(self):
        return hash(concretize(self))

    def __repr__(self):
        return 'SymInt(%r)' % (self.l,)

    def __str__(self):
        return str(concretize(self))

    def __format__(self, spec):
        return format(concretize(self), spec)

    def _o(self, o):
        t = type(o)
        if t is SymInt:
            return o.l
        if t is int:
            return o
        if t is bool:
            return int(o)
        if t is SymBool:
            return X.ite(o.c, 1, 0)
        if isinstance(o, int):
            return int(o)
        return None

    def __add__(self, o):
        if isinstance(o, float):
            return concretize(self) + o
        o = self._o(o)
        return NotImplemented if o is None else mkint(X.add(self.l, o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return concretize(self) - o
        o = self._o(o)
        return NotImplemented if o is None else mkint(X.add(self.l, o, -1))

    def __rsub__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else mkint(X.add(o, self.l, -1))

    def __neg__(self):
        return mkint(X.scale(self.l, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if branch(X.cmp('>=', self.l, 0)) else -self

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return NotImplemented if not isinstance(o, (list, tuple)) else o * concretize(self)
        if isinstance(o, float):
            return concretize(self) * o
        o = self._o(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            return mkint(X.scale(self.l, o))
        return mkint(X.Lin(((X.MulV(self.l, o), 1),), 0))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = concretize(SymInt(o))
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            return (-self) // (-o)
        return self if o == 1 else mkint(X.divc(self.l, o))

    def __rfloordiv__(self, o):
        return o // concretize(self)

    def __mod__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, int):
            o = concretize(SymInt(o))
        if o == 0:
            raise ZeroDivisionError('integer modulo by zero')
        if o < 0:
            return -((-self) % (-o))
        return 0 if o == 1 else mkint(X.modc(self.l, o))

    def __rmod__(self, o):
        return o % concretize(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return concretize(self) / o

    def __rtruediv__(self, o):
        return o / concretize(self)

    def __pow__(self, o):
        return concretize(self) ** o

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __and__(self, o):
        o = self._o(o)
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return mkint(X.modc(self.l, o + 1)) if o else 0
        return concretize(self) & (o if isinstance(o, int) else concretize(SymInt(o)))
    __rand__ = __and__

    def __or__(self, o):
        return concretize(self) | concretize(o)
    __ror__ = __or__

    def __xor__(self, o):
        return concretize(self) ^ concretize(o)
    __rxor__ = __xor__

    def __invert__(self):
        return mkint(X.add(-1, self.l, -1))

    def _cmp(self, op, o):
        if isinstance(o, float):
            if o == float('inf') or o == float('-inf'):
                return {'<': 0 < o, '<=': 0 < o, '>': 0 > o, '>=': 0 > o, '==': False, '!=': True}[op]
            if o == int(o):
                o = int(o)
            else:
                o = int(o // 1)
                op = {'<': '<=', '<=': '<=', '>': '>', '>=': '>'}.get(op)
                if op is None:
                    return False
        o = self._o(o)
        if o is None:
            return NotImplemented
        return mkbool(X.cmp(op, self.l, o))

    def __eq__(self, o):
        return self._cmp('==', o)

    def __ne__(self, o):
        return self._cmp('!=', o)

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def bit_length(self):
        return concretize(self).bit_length()

    def is_integer(self):
        return True

    def to_bytes(self, *a, **k):
        return concretize(self).to_bytes(*a, **k)


def mkint(l):
    if isinstance(l, int):
        return l
    return l.c if not l.t else SymInt(l)


def ilin(x):
    """int | SymInt -> int | Lin"""
    t = type(x)
    if t is SymInt:
        return x.l
    if t is SymBool:
        return X.ite(x.c, 1, 0)
    return int(x)


FORK_LIMIT = 128


def concretize(x):
    """all values of a symbolic int one by one (forking); pins it when there are too many"""
    if type(x) is SymBool:
        return int(bool(x))
    if type(x) is not SymInt:
        return x
    p = core.CUR
    l = x.l
    lo, hi = p.bounds(l)
    if lo == hi:
        return lo
    if hi - lo <= FORK_LIMIT:
        while lo < hi:          # (in an order that does not depend on the model)
            mid = (lo + hi) // 2
            if p.branch(X.cmp('<=', l, mid)):
                hi = mid
            else:
                lo = mid + 1
        return lo
    v = l.ev(p.model)
    if p.tri(X.cmp('==', l, v)) is not True:
        p.note('pinned int at ' + where())
        pin(X.cmp('==', l, v))
    return v


def pin(c):
    core.CUR.add(c)


def where():
    f = sys._getframe(1)
    while f is not None and ('symx' in f.f_code.co_filename and 'stub' not in f.f_code.co_filename):
        f = f.f_back
    return '%s:%d' % (f.f_code.co_filename, f.f_lineno) if f else '?'


# ---------------------------------------------------------------- character classes
MAXU = 0x10FFFF
_CLS = {}


def cls(name):
    """interval set of the code points for which str.<name>() holds"""
    r = _CLS.get(name)
    if r is None:
        f = getattr(str, name)
        out = []
        start = None
        for c in range(MAXU + 2):
            ok = c <= MAXU and f(chr(c))
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                out.append((start, c - 1))
                start = None
        r = _CLS[name] = tuple(out)
    return r


_BCLS = {}


def bcls(name):
    r = _BCLS.get(name)
    if r is None:
        r = _BCLS[name] = iset.norm((c, c) for c in range(256) if getattr(bytes((c,)), name)())
    return r


_MAPS = {}


def casemap(name, kind):
    """(pieces, special): piecewise shift of str.<name> and the set of characters it does not describe"""
    k = (name, kind)
    r = _MAPS.get(k)
    if r is None:
        pieces, special = [], []
        for c in range(256 if kind == 'bytes' else MAXU + 1):
            s = getattr(bytes((c,)), name)() if kind == 'bytes' else getattr(chr(c), name)()
            if len(s) != 1:
                special.append((c, c))
                continue
            d = (s[0] if kind == 'bytes' else ord(s)) - c
            if d:
                if pieces and pieces[-1][1] == c - 1 and pieces[-1][2] == d:
                    pieces[-1] = (pieces[-1][0], c, d)
                else:
                    pieces.append((c, c, d))
        r = _MAPS[k] = (pieces, iset.norm(special))
    return r


ASCII = ((0, 127),)


def edom(e):
    """hull domain (interval set) of one element"""
    if isinstance(e, int):
        return ((e, e),)
    if len(e.t) == 1 and e.t[0][1] == 1 and isinstance(e.t[0][0], int):
        return iset.shift(core.CUR.dom[e.t[0][0]], e.c)
    return (core.CUR.bounds(e),)


def mapcase(e, name, kind):
    if isinstance(e, int):
        s = getattr(bytes((e,)), name)() if kind == 'bytes' else getattr(chr(e), name)()
        return list(s) if kind == 'bytes' else [ord(c) for c in s]
    pieces, special = casemap(name, kind)
    d = edom(e)
    if kind == 'str' and d[-1][1] > 127 and d[0][0] <= 127:
        branch(X.inset(e, ASCII))
        d = edom(e)
    if special and iset.inter(d, special) and branch(X.inset(e, special)):
        return mapcase(concretize(SymInt(e)), name, kind)
    d = edom(e)
    ps = [p for p in pieces if iset.inter(d, ((p[0], p[1]),))]
    if not ps:
        return [e]
    if len(ps) > 24:
        if not branch(X.inset(e, iset.norm((p[0], p[1]) for p in ps))):
            return [e]
    return [X.simp(X.pmap(e, ps))]


# ---------------------------------------------------------------- sequences
def els(x):
    """elements of str/bytes/bytearray/SymStr/SymBytes"""
    t = type(x)
    if t is str:
        return [ord(c) for c in x]
    if t is bytes or t is bytearray:
        return list(x)
    if t is SymStr or t is SymBytes:
        return x.e
    if t is LazyStr:
        return els(x.force())
    if isinstance(x, str):
        return [ord(c) for c in str.__str__(x)] if not hasattr(t, '_sx') else els(x.force())
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(bytes(x))
    if hasattr(t, '_sx_els'):
        return x._sx_els()
    raise TypeError('not a string: %r' % (type(x),))


def mkstr(e):
    for x in e:
        if not isinstance(x, int):
            return SymStr(e)
    return ''.join(map(chr, e))


def mkbytes(e):
    for x in e:
        if not isinstance(x, int):
            return SymBytes(e)
    return bytes(e)


def eqcond(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        c = X.cmp('==', x, y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return X.cand(out)


def seq_eq(a, b):
    return mkbool(eqcond(els(a), els(b)))


_WS_B = bcls('isspace')


class SymSeq(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    # -- basics
    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def __iter__(self):
        one = self._one
        for x in self.e:
            yield one(x)

    def __reversed__(self):
        for x in reversed(self.e):
            yield self._one(x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if type(i.start) is SymInt or type(i.stop) is SymInt or type(i.step) is SymInt:
                i = slice(concretize(i.start), concretize(i.stop), concretize(i.step))
            return self._mk(self.e[i])
        return self._one(self.e[concretize(i)])

    def __add__(self, o):
        if hasattr(type(o), '_sx_rope'):
            return o.__radd__(self)
        if isinstance(o, self._kinds):
            return self._mk(list(self.e) + list(els(o)))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, self._kinds):
            return self._mk(list(els(o)) + list(self.e))
        return NotImplemented

    def __mul__(self, n):
        return self._mk(list(self.e) * concretize(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import fmt
        return fmt.percent(self, args)

    def __rmod__(self, o):
        from . import fmt
        return fmt.percent(o, self)

    def __eq__(self, o):
        if not isinstance(o, self._kinds):
            return False
        if type(o) is LazyStr:
            o = o.force()
        if hasattr(type(o), '_sx_rope'):
            return o == self
        return mkbool(eqcond(self.e, els(o)))

    def __ne__(self, o):
        return sxnot(self == o)

    def _lt(self, o, strict_on_equal):
        a, b = list(self.e), list(els(o))
        # a < b
        res = X.cand([]) if (len(a) < len(b) or (len(a) == len(b) and strict_on_equal)) else False
        n = min(len(a), len(b))
        for i in range(n - 1, -1, -1):
            res = X.cor([X.cmp('<', a[i], b[i]), X.cand([X.cmp('==', a[i], b[i]), res])])
        return mkbool(res)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return sxnot(self._lt(o, True))

    def __ge__(self, o):
        return sxnot(self._lt(o, False))

    def __hash__(self):
        p = core.CUR
        p.note('native hash of a symbolic string at ' + where())
        return hash(self.conc())

    def conc(self):
        """pin to the current model's value"""
        p = core.CUR
        cs = []
        for x in self.e:
            if not isinstance(x, int):
                cs.append(X.cmp('==', x, x.ev(p.model)))
        c = X.cand(cs)
        r = self._mk([x if isinstance(x, int) else x.ev(p.model) for x in self.e])
        if p.tri(c) is not True:
            p.note('pinned string at ' + where())
            pin(c)
        return r

    def ev(self, m):
        return self._mk([x if isinstance(x, int) else x.ev(m) for x in self.e])

    # -- search
    def _at(self, i, sub):
        return eqcond(self.e[i:i + len(sub)], sub)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        sub = self._sub(o)
        n = len(sub)
        if n == 0:
            return True
        return mkbool(X.cor([self._at(i, sub) for i in range(len(self.e) - n + 1)]))

    def _sub(self, o):
        if self._kind == 'bytes' and isinstance(o, int):
            return [ilin(o)]
        if not isinstance(o, self._kinds):
            raise TypeError('argument should be %s, not %s' % (self._kind, type(o).__name__))
        return list(els(o))

    def _range(self, start, end):
        n = len(self.e)
        s, e, _ = slice(concretize(start), concretize(end)).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = self._sub(sub)
        st = concretize(start)
        if st is not None and st > len(self.e):
            return -1
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if branch(self._at(i, sub)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = self._sub(sub)
        st = concretize(start)
        if st is not None and st > len(self.e):
            return -1
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if branch(self._at(i, sub)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = self._sub(sub)
        s, e = self._range(start, end)
        if not sub:
            return e - s + 1
        n, i = 0, s
        while i <= e - len(sub):
            if branch(self._at(i, sub)):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return mkbool(X.cor([cond(self.startswith(p, start, end)) for p in pre]))
        sub = self._sub(pre)
        st = concretize(start)
        if st is not None and st > len(self.e):
            return False
        s, e = self._range(start, end)
        if e - s < len(sub):
            return False
        return mkbool(self._at(s, sub))

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return mkbool(X.cor([cond(self.endswith(p, start, end)) for p in suf]))
        sub = self._sub(suf)
        s, e = self._range(start, end)
        if e - s < len(sub):
            return False
        return mkbool(self._at(e - len(sub), sub))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    # -- splitting
    def _strip(self, chars, left, right):
        if chars is None:
            s = cls('isspace') if self._kind == 'str' else _WS_B
            test = lambda x: X.inset(x, s)
        else:
            cs = els(chars)
            if all(isinstance(c, int) for c in cs):
                s = iset.of(*cs)
                test = lambda x: X.inset(x, s)
            else:
                test = lambda x: X.cor([X.cmp('==', x, c) for c in cs])
        i, j = 0, len(self.e)
        if left:
            while i < j and branch(test(self.e[i])):
                i += 1
        if right:
            while j > i and branch(test(self.e[j - 1])):
                j -= 1
        return self._mk(self.e[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        out = []
        e = self.e
        if sep is None:
            s = cls('isspace') if self._kind == 'str' else _WS_B
            i, n = 0, len(e)
            while True:
                while i < n and branch(X.inset(e[i], s)):
                    i += 1
                if i == n:
                    break
                if 0 <= maxsplit <= len(out):
                    j = n
                    while j > i and branch(X.inset(e[j - 1], s)):
                        j -= 1
                    out.append(self._mk(e[i:j]))
                    break
                j = i
                while j < n and not branch(X.inset(e[j], s)):
                    j += 1
                out.append(self._mk(e[i:j]))
                i = j
            return out
        sub = self._sub(sep)
        if not sub:
            raise ValueError('empty separator')
        last = i = 0
        while i <= len(e) - len(sub):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if branch(self._at(i, sub)):
                out.append(self._mk(e[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(self._mk(e[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = concretize(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        e = self.e
        if sep is None:
            s = cls('isspace') if self._kind == 'str' else _WS_B
            out, j = [], len(e)
            while True:
                while j > 0 and branch(X.inset(e[j - 1], s)):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    i = 0
                    while i < j and branch(X.inset(e[i], s)):
                        i += 1
                    out.append(self._mk(e[i:j]))
                    break
                i = j
                while i > 0 and not branch(X.inset(e[i - 1], s)):
                    i -= 1
                out.append(self._mk(e[i:j]))
                j = i
            return out[::-1]
        sub = self._sub(sep)
        n = len(sub)
        if not n:
            raise ValueError('empty separator')
        out = []
        end = len(e)
        i = end - n
        while i >= 0 and len(out) < maxsplit:
            if branch(self._at(i, sub)):
                out.append(self._mk(e[i + n:end]))
                end = i
                i -= n
            else:
                i -= 1
        out.append(self._mk(e[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if not len(sep):
            raise ValueError('empty separator')
        if i < 0:
            return self, self._mk([]), self._mk([])
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._mk([]), self._mk([]), self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        out = []
        e = self.e
        if self._kind == 'str':
            brk = ((10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029))
        else:
            brk = ((10, 10), (13, 13))
        last = i = 0
        n = len(e)
        while i < n:
            if branch(X.inset(e[i], brk)):
                j = i + 1
                if j < n and branch(X.cand([X.cmp('==', e[i], 13), X.cmp('==', e[j], 10)])):
                    j += 1
                out.append(self._mk(e[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < n:
            out.append(self._mk(e[last:]))
        return out

    def replace(self, old, new, count=-1):
        old, new = self._sub(old), list(els(new))
        count = concretize(count)
        e = self.e
        out = []
        if not old:
            r = self.conc()
            return r.replace(self._mk(old), self._mk(new).conc() if isinstance(self._mk(new), SymSeq) else self._mk(new), count)
        # one-for-one replacement of one character does not need a fork
        if len(old) == len(new) == 1 and count < 0 and isinstance(old[0], int) and isinstance(new[0], int):
            return self._mk([X.simp(X.lin(X.pmap(x, [(old[0], old[0], new[0] - old[0])]))) for x in e])
        i = n = 0
        while i < len(e):
            if (count < 0 or n < count) and i + len(old) <= len(e) and branch(self._at(i, old)):
                out += new
                i += len(old)
                n += 1
            else:
                out.append(e[i])
                i += 1
        return self._mk(out)

    def join(self, items):
        out = []
        first = True
        items = list(items)
        if any(hasattr(type(it), '_sx_rope') for it in items):
            acc = self._mk([])
            for it in items:
                if not first:
                    acc = acc + self
                acc = acc + it
                first = False
            return acc
        for n, it in enumerate(items):
            if not isinstance(it, self._kinds):
                raise TypeError('sequence item %d: expected %s instance, %s found' % (n, self._kind, type(it).__name__))
            if not first:
                out += self.e
            first = False
            out += els(it)
        return self._mk(out)

    # -- case
    def _map(self, name):
        out = []
        for x in self.e:
            out += mapcase(x, name, self._kind)
        return self._mk(out)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def swapcase(self):
        return self._map('swapcase')

    def casefold(self):
        return self._map('casefold')

    def capitalize(self):
        if not self.e:
            return self
        head = mapcase(self.e[0], 'title' if self._kind == 'str' else 'upper', self._kind)
        out = list(head)
        for x in self.e[1:]:
            out += mapcase(x, 'lower', self._kind)
        return self._mk(out)

    def title(self):
        out = []
        prev = False
        cased = iset.norm(iset.norm(cls('isupper') + cls('islower') + cls('istitle'))) if self._kind == 'str' else bcls('isalpha')
        for x in self.e:
            out += mapcase(x, 'lower' if prev else 'title', self._kind)
            prev = branch(X.inset(x, cased))
        return self._mk(out)

    # -- classes
    def _all(self, name):
        if not self.e:
            return False
        s = cls(name) if self._kind == 'str' else bcls(name)
        return mkbool(X.cand([X.inset(x, s) for x in self.e]))

    def isdigit(self):
        return self._all('isdigit')

    def isalpha(self):
        return self._all('isalpha')

    def isalnum(self):
        return self._all('isalnum')

    def isspace(self):
        return self._all('isspace')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isprintable(self):
        return True if not self.e else self._all('isprintable')

    def isascii(self):
        return mkbool(X.cand([X.inset(x, ASCII) for x in self.e]))

    def isidentifier(self):
        return self.conc().isidentifier()

    def _cased(self, want, other):
        w = cls(want) if self._kind == 'str' else bcls(want)
        o = cls(other) if self._kind == 'str' else bcls(other)
        if self._kind == 'str':
            o = iset.union(o, cls('istitle') if want == 'islower' else iset.diff(cls('istitle'), w))
        return mkbool(X.cand([X.cor([X.inset(x, w) for x in self.e])] + [X.cneg(X.inset(x, o)) for x in self.e]))

    def islower(self):
        return self._cased('islower', 'isupper')

    def isupper(self):
        return self._cased('isupper', 'islower')

    # -- padding
    def zfill(self, n):
        n = concretize(n)
        if len(self.e) >= n:
            return self
        pad = [48] * (n - len(self.e))
        if self.e and branch(X.inset(self.e[0], iset.of(43, 45))):
            return self._mk([self.e[0]] + pad + list(self.e[1:]))
        return self._mk(pad + list(self.e))

    def ljust(self, n, fill=None):
        f = els(fill)[0] if fill is not None else 32
        return self._mk(list(self.e) + [f] * (concretize(n) - len(self.e)))

    def rjust(self, n, fill=None):
        f = els(fill)[0] if fill is not None else 32
        return self._mk([f] * (concretize(n) - len(self.e)) + list(self.e))

    def translate(self, table, delete=b''):
        if self._kind == 'bytes':
            out = []
            dl = iset.of(*delete)
            for x in self.e:
                if delete and branch(X.inset(x, dl)):
                    continue
                if table is not None:
                    ps = [(c, c, table[c] - c) for c in range(256) if table[c] != c]
                    x = X.simp(X.lin(X.pmap(x, ps)))
                out.append(x)
            return self._mk(out)
        out = []
        for x in self.e:
            if isinstance(x, int):
                out += els(chr(x).translate(table))
                continue
            if not isinstance(table, dict):
                return self.conc().translate(table)
            ks = iset.of(*[k for k in table if isinstance(k, int)])
            if ks and branch(X.inset(x, ks)):
                if all(isinstance(table[k], int) for k in table):
                    out.append(X.simp(X.lin(X.pmap(x, [(k, k, table[k] - k) for k in sorted(table)]))))
                else:
                    # the keys of equally long results together
                    groups = {}
                    for k in table:
                        if isinstance(k, int):
                            r = els(chr(k).translate(table))
                            groups.setdefault(len(r), []).append((k, r))
                    gs = sorted(groups.items())
                    for i, (n, g) in enumerate(gs):
                        if i == len(gs) - 1 or branch(X.inset(x, iset.of(*[k for k, r in g]))):
                            for j in range(n):
                                out.append(X.simp(X.lin(X.pmap(x, runs([(k, r[j] - k) for k, r in sorted(g)])))))
                            break
            else:
                out.append(x)
        return self._mk(out)

    def expandtabs(self, n=8):
        return self.conc().expandtabs(n)


class SymStr(SymSeq):
    __slots__ = ()
    _kind = 'str'

    @property
    def __class__(self):
        return str

    def _mk(self, e):
        return mkstr(e)

    def _one(self, x):
        return chr(x) if isinstance(x, int) else SymStr((x,))

    def encode(self, encoding='utf-8', errors='strict'):
        from . import codec
        return codec.encode(self, encoding, errors)

    def format(self, *a, **k):
        from . import fmt
        return fmt.str_format(self, a, k)

    def __str__(self):
        return self.conc()

    def __repr__(self):
        return 'SymStr(%s)' % ''.join(chr(x) if isinstance(x, int) else '?' for x in self.e)

    def __format__(self, spec):
        return format(self.conc(), spec)


class SymBytes(SymSeq):
    __slots__ = ()
    _kind = 'bytes'

    @property
    def __class__(self):
        return bytes

    def _mk(self, e):
        return mkbytes(e)

    def _one(self, x):
        return x if isinstance(x, int) else SymInt(x)

    def decode(self, encoding='utf-8', errors='strict'):
        from . import codec
        return codec.decode(self, encoding, errors)

    def hex(self, *a):
        out = []
        for x in self.e:
            out += hexdigits(x)
        return mkstr(out)

    def tobytes(self):
        return self

    def __bytes__(self):
        return self.conc()

    def __buffer__(self, flags):
        return memoryview(self.conc())

    def __str__(self):
        return str(self.conc())

    def __repr__(self):
        return 'SymBytes(%r)' % (bytes(x if isinstance(x, int) else 63 for x in self.e),)


SymStr._kinds = (str,)
SymBytes._kinds = (bytes, bytearray, memoryview)


def runs(pairs):
    """sorted (key, offset) -> pieces of consecutive keys with one offset"""
    out = []
    for k, o in pairs:
        if out and out[-1][1] == k - 1 and out[-1][2] == o:
            out[-1] = (out[-1][0], k, o)
        else:
            out.append((k, k, o))
    return out


def hexdigit(l, upper=False):
    if isinstance(l, int):
        return ord(('%X' if upper else '%x') % l)
    return X.simp(X.lin(X.pmap(l, [(0, 9, 48), (10, 15, 55 if upper else 87)])))


def hexdigits(x, upper=False):
    if isinstance(x, int):
        return [ord(c) for c in ('%02X' if upper else '%02x') % x]
    return [hexdigit(X.divc(x, 16), upper), hexdigit(X.modc(x, 16), upper)]


# ---------------------------------------------------------------- deferred text
class LazyStr(Sym):
    """text that is computed only when somebody looks at it (messages, reprs)"""
    __slots__ = ('f', 'v')

    def __init__(self, f):
        self.f, self.v = f, None

    @property
    def __class__(self):
        return str

    def force(self):
        if self.v is None:
            v = self.f()
            while type(v) is LazyStr:
                v = v.force()
            self.v = v
            self.f = None
        return self.v

    def _sx_els(self):
        return els(self.force())

    def __getattr__(self, name):
        if name.startswith('_sx'):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __add__(self, o):
        if isinstance(o, str):
            return LazyStr(lambda: add(self.force(), o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return LazyStr(lambda: add(o, self.force()))
        return NotImplemented

    def __mod__(self, a):
        from . import fmt
        return LazyStr(lambda: fmt.percent(self.force(), a))

    def __eq__(self, o):
        return isinstance(o, str) and self.force() == o

    def __ne__(self, o):
        return sxnot(self == o)

    def __hash__(self):
        return hash(self.force())

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return bool(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def __contains__(self, o):
        f = self.force()
        return f.__contains__(o) if isinstance(f, SymSeq) else contains(f, o)

    def __str__(self):
        f = self.force()
        return f if type(f) is str else f.conc()

    def __repr__(self):
        return 'LazyStr()'

    def __format__(self, spec):
        return format(str(self), spec)


def add(a, b):
    return a + b


def contains(container, item):
    """`item in container` for native strings with symbolic items"""
    if isinstance(item, Sym) and isinstance(container, (str, bytes, bytearray)):
        if type(item) is LazyStr:
            item = item.force()
        if not isinstance(item, Sym):
            return item in container
        if isinstance(container, str):
            if len(item) == 1:
                return mkbool(X.inset(els(item)[0], iset.of(*map(ord, container))))
            return SymStr(els(container)).contains(item)
        if isinstance(item, int):
            return mkbool(X.inset(ilin(item), iset.of(*container)))
        return SymBytes(els(container)).contains(item)
    return item in container


def issym(x):
    return hasattr(type(x), '_sx')


def deep_sym(x, depth=4):
    """does a value contain symbolic parts (containers looked into)"""
    t = type(x)
    if hasattr(t, '_sx'):
        return True
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for y in x:
            if deep_sym(y, depth - 1):
                return True
    elif depth and t is dict:
        for k, v in x.items():
            if deep_sym(k, depth - 1) or deep_sym(v, depth - 1):
                return True
    return False


def evaluate(x, m):
    """concrete counterpart of a value under a model"""
    t = type(x)
    if t is SymStr or t is SymBytes:
        return x.ev(m)
    if t is SymInt:
        return x.l.ev(m)
    if t is SymBool:
        return bool(x.c.ev(m))
    if t is LazyStr:
        return '<lazy>' if x.v is None else evaluate(x.v, m)
    if hasattr(t, '_sx_ev'):
        return x._sx_ev(m)
    if t is list:
        return [evaluate(y, m) for y in x]
    if t is tuple:
        return tuple(evaluate(y, m) for y in x)
    if t is dict:
        return {evaluate(k, m): evaluate(v, m) for k, v in x.items()}
    if t is set or t is frozenset:
        return t(evaluate(y, m) for y in x)
    if t is bytearray:
        return bytes(x)
    return x
