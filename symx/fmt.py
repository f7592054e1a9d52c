"""str(), repr(), % formatting, str.format, f-strings over symbolic values."""
import _string
from . import iset
from . import expr as X
from . import vals as V
from . import core
from .core import branch


# ---------------------------------------------------------------- numbers as text
class NumStr(V.LazyStr):
    """text made of literal pieces and decimal numbers; digits are computed only on demand"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts
        self.f = lambda: flatten(parts)
        self.v = None

    def __add__(self, o):
        if isinstance(o, str):
            return NumStr(self.parts + parts_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return NumStr(parts_of(o) + self.parts)
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if self.v is None and type(o) is NumStr and o.v is None:
            a, b = norm(self.parts), norm(o.parts)
            if len(a) == len(b) and all(aligned(x, y) for x, y in zip(a, b)) and sepok(a):
                cs = [V.cond(x == y) for x, y in zip(a, b)]
                return V.mkbool(X.cand(cs))
        return self.force() == o

    def __ne__(self, o):
        return V.sxnot(self == o)
    __hash__ = V.LazyStr.__hash__

    def __bool__(self):
        return any(isinstance(p, V.SymInt) for p in self.parts) or bool(self.force())

    def encode(self, *a):
        if self.v is None and (not a or str(a[0]).lower().replace('-', '') in ('utf8', 'latin1', 'ascii')):
            if all(isinstance(p, V.SymInt) or type(p) is str and p.isascii() for p in self.parts):
                return self.force().encode(*a)
        return self.force().encode(*a)

    def _sx_ev(self, m):
        return ''.join(str(V.evaluate(p, m)) for p in self.parts)

    def isdigit(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], V.SymInt):
            return self.parts[0] >= 0
        return self.force().isdigit()


def parts_of(o):
    return list(o.parts) if type(o) is NumStr else [o]


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] = out[-1] + p
        elif isinstance(p, str) and not len(p):
            continue
        else:
            out.append(p)
    return out


def aligned(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return len(x) == len(y)
    return isinstance(x, int) and isinstance(y, int)


def sepok(parts):
    """numbers are separated by text that cannot be mistaken for digits"""
    prev = None
    for p in parts:
        if isinstance(p, int) and isinstance(prev, int):
            return False
        if isinstance(p, str):
            if type(p) is not str or any(c.isdigit() or c == '-' and p != '-' for c in p) and len(p) < 2:
                if type(p) is not str or p.isdigit():
                    return False
        prev = p
    return True


def flatten(parts):
    out = []
    for p in parts:
        out += itoa(p) if isinstance(p, int) else V.els(p)
    return V.mkstr(out)


def itoa(x):
    """decimal digits"""
    if not isinstance(x, V.SymInt):
        return [ord(c) for c in str(x)]
    out = []
    l = x.l
    if branch(X.cmp('<', l, 0)):
        out.append(45)
        l = X.scale(l, -1)
    n = 1
    while not branch(X.cmp('<', l, 10 ** n)):
        n += 1
        if n > 40:
            return out + [ord(c) for c in str(V.concretize(V.SymInt(l)))]
    for k in range(n - 1, -1, -1):
        q = X.divc(l, 10 ** k) if k else l
        d = q if k == n - 1 else X.modc(q, 10)
        out.append(X.simp(X.add(d, 48)))
    return out


def radix(x, base, upper=False):
    if not isinstance(x, V.SymInt):
        return [ord(c) for c in format(x, {16: 'X' if upper else 'x', 8: 'o', 2: 'b'}[base])]
    l = x.l
    out = []
    if branch(X.cmp('<', l, 0)):
        out.append(45)
        l = X.scale(l, -1)
    n = 1
    while not branch(X.cmp('<', l, base ** n)):
        n += 1
    for k in range(n - 1, -1, -1):
        q = X.divc(l, base ** k) if k else l
        d = q if k == n - 1 else X.modc(q, base)
        out.append(V.hexdigit(d, upper))
    return out


# ---------------------------------------------------------------- str / repr
def has_py(t, name, stop=object):
    for c in t.__mro__:
        if name in c.__dict__:
            f = c.__dict__[name]
            return f if hasattr(f, '__code__') else None
    return None


def to_str(x):
    t = type(x)
    if t is str or t is V.SymStr or issubclass(t, V.LazyStr):
        return x
    if t is V.SymInt:
        return NumStr([x])
    if t is V.SymBool:
        return 'True' if x else 'False'
    if hasattr(t, '_sx_str'):
        return x._sx_str()
    if t is V.SymBytes:
        return repr_(x)
    if isinstance(x, (int, float, type(None), bytes)) and t.__module__ == 'builtins':
        return str(x)
    f = has_py(t, '__str__')
    if f is not None:
        return f(x)
    if isinstance(x, BaseException):
        if t.__str__ in (BaseException.__str__, KeyError.__str__):
            if V.deep_sym(x.args):
                if len(x.args) == 1:
                    return repr_(x.args[0]) if isinstance(x, KeyError) else to_str(x.args[0])
                return repr_(x.args)
        return str(x)
    if t in (list, tuple, dict, set, frozenset) and V.deep_sym(x):
        return repr_(x)
    if t.__str__ is object.__str__:
        f = has_py(t, '__repr__')
        if f is not None:
            return f(x)
    return str(x)


def repr_(x):
    t = type(x)
    if t is V.SymStr or t is V.SymBytes:
        return V.LazyStr(lambda: repr_seq(x))
    if issubclass(t, V.LazyStr):
        return V.LazyStr(lambda: repr_now(x.force()))
    if t is V.SymInt:
        return NumStr([x])
    if t is V.SymBool:
        return 'True' if x else 'False'
    if hasattr(t, '_sx_repr'):
        return x._sx_repr()
    if t in (list, tuple, dict, set, frozenset):
        if not V.deep_sym(x):
            return repr(x)
        return V.LazyStr(lambda: repr_now(x))
    f = has_py(t, '__repr__')
    if f is not None:
        return f(x)
    if isinstance(x, BaseException) and V.deep_sym(x.args):
        return V.LazyStr(lambda: repr_now(x))
    if isinstance(x, str) and t is not str:
        return repr(x)
    return repr(x)


def repr_now(x):
    t = type(x)
    if t is V.SymStr or t is V.SymBytes:
        return repr_seq(x)
    if isinstance(x, BaseException) and V.deep_sym(x.args):
        body = repr_now(x.args) if len(x.args) != 1 else '(' + repr_now(x.args[0]) + ')'
        return t.__name__ + body
    if t in (list, tuple) and V.deep_sym(x):
        o, c = '[]' if t is list else '()'
        out = o
        for i, y in enumerate(x):
            out = out + (', ' if i else '') + repr_now(y)
        if t is tuple and len(x) == 1:
            out = out + ','
        return out + c
    if t is dict and V.deep_sym(x):
        out = '{'
        for i, (k, v) in enumerate(x.items()):
            out = out + (', ' if i else '') + repr_now(k) + ': ' + repr_now(v)
        return out + '}'
    r = repr_(x)
    return r.force() if issubclass(type(r), V.LazyStr) else r


def repr_seq(x):
    e = V.els(x)
    isb = x._kind == 'bytes'
    sq = branch(X.cor([X.cmp('==', c, 39) for c in e]))
    dq = sq and branch(X.cor([X.cmp('==', c, 34) for c in e]))
    q = 34 if sq and not dq else 39
    out = [98, q] if isb else [q]
    esc = {q: [92, q], 92: [92, 92], 10: [92, 110], 13: [92, 114], 9: [92, 116]}
    for c in e:
        if isinstance(c, int):
            if isb:
                out += esc.get(c) or ([c] if 32 <= c < 127 else [ord(y) for y in '\\x%02x' % c])
            else:
                out += esc.get(c) or [ord(y) for y in repr(chr(c))[1:-1]] if c not in (34, 39) else (esc.get(c) or [c])
            continue
        for k, v in esc.items():
            if branch(X.cmp('==', c, k)):
                out += v
                break
        else:
            pr = ((32, 126),) if isb else V.cls('isprintable')
            if branch(X.inset(c, pr)):
                out.append(c)
            elif branch(X.cmp('<=', c, 255)):
                out += [92, 120] + V.hexdigits(c)
            elif branch(X.cmp('<=', c, 0xFFFF)):
                out += [92, 117] + V.hexdigits(X.divc(c, 256)) + V.hexdigits(X.modc(c, 256))
            else:
                out += [92, 85, 48, 48] + V.hexdigits(X.divc(c, 65536)) + \
                    V.hexdigits(X.modc(X.divc(c, 256), 256)) + V.hexdigits(X.modc(c, 256))
    out.append(q)
    return V.mkstr(out)


# ---------------------------------------------------------------- format specs
def pad(text, width, align, fill=' '):
    n = width - len(text)
    if n <= 0:
        return text
    if align == '<':
        return text + fill * n
    if align == '^':
        return fill * (n // 2) + text + fill * (n - n // 2)
    return fill * n + text


def format_(x, spec=''):
    if issubclass(type(spec), V.Sym):
        spec = spec.conc() if isinstance(spec, V.SymSeq) else str(spec)
    if not spec:
        if isinstance(x, (int, str, float)) or type(x).__format__ is object.__format__ or isinstance(x, BaseException):
            return to_str(x)
        f = has_py(type(x), '__format__')
        return f(x, spec) if f else to_str(x)
    t = type(x)
    if not V.issym(x):
        f = has_py(t, '__format__')
        return f(x, spec) if f else format(x, spec)
    if t is V.SymBool:
        return format(bool(x), spec)
    fill, align, s = ' ', None, spec
    if len(s) > 1 and s[1] in '<>^=':
        fill, align, s = s[0], s[1], s[2:]
    elif s[0] in '<>^=':
        align, s = s[0], s[1:]
    zero = False
    if s[:1] == '0' and len(s) > 1:
        zero, s = True, s[1:]
    w = ''
    while s[:1].isdigit():
        w, s = w + s[0], s[1:]
    width = int(w or 0)
    if t is V.SymInt and s in ('', 'd', 'x', 'X', 'o', 'b'):
        if not width and s in ('', 'd'):
            return NumStr([x])
        return fmt_int(x, s or 'd', width, zero, align, fill)
    if isinstance(x, str) and s in ('', 's'):
        return pad(x, width, align or '<', fill)
    return format(x.conc() if isinstance(x, V.SymSeq) else V.concretize(x), spec)


def fmt_int(x, kind, width, zero, align=None, fill=' '):
    base = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2, 'i': 10, 'u': 10}[kind]
    if base == 16 and zero and isinstance(x, V.SymInt):
        lo, hi = core.CUR.bounds(x.l)
        if lo >= 0 and hi < 16 ** width:
            l = x.l
            return V.mkstr([V.hexdigit(X.modc(X.divc(l, 16 ** k), 16) if k else X.modc(l, 16), kind == 'X')
                            for k in range(width - 1, -1, -1)])
    e = itoa(x) if base == 10 else radix(x, base, kind == 'X')
    t = V.mkstr(e)
    if zero and not align:
        if e and e[0] == 45:
            return '-' + pad(V.mkstr(e[1:]), width - 1, '>', '0')
        return pad(t, width, '>', '0')
    return pad(t, width, align or '>', fill)


# ---------------------------------------------------------------- %
def percent(fs, args):
    isb = isinstance(fs, (bytes, bytearray))
    if issubclass(type(fs), V.Sym) and not isinstance(fs, (str, bytes)):
        return fs % args
    if not (V.issym(fs) or V.deep_sym(args) or objs(args)):
        return fs % args
    if type(fs) is V.LazyStr:
        fs = fs.force()
    e = V.els(fs)
    mk = V.mkbytes if isb else V.mkstr
    out = b'' if isb else ''
    i, n = 0, len(e)
    seq = args if isinstance(args, tuple) else (args,)
    k = 0
    lit = []

    def nxt():
        nonlocal k
        if k >= len(seq):
            raise TypeError('not enough arguments for format string')
        k += 1
        return seq[k - 1]
    usedmap = False
    while i < n:
        if not branch(X.cmp('==', e[i], 37)):
            lit.append(e[i])
            i += 1
            continue
        i += 1
        ch = lambda: V.concretize(V.mkint(e[i])) if i < n else None
        c = ch()
        if c is None:
            raise ValueError('incomplete format')
        if c == 37:
            lit.append(37)
            i += 1
            continue
        val = None
        have = False
        if c == 40:
            j = i + 1
            name = ''
            while e[j] != 41:
                name += chr(V.concretize(V.mkint(e[j])))
                j += 1
            from . import models
            val = models.getitem(args, name.encode() if isb else name)
            have = usedmap = True
            i = j + 1
            c = ch()
        flags = ''
        while chr(c) in '-+ #0':
            flags += chr(c)
            i += 1
            c = ch()
        width = ''
        if c == 42:
            width = str(V.concretize(nxt()))
            i += 1
            c = ch()
        while 48 <= c <= 57:
            width += chr(c)
            i += 1
            c = ch()
        prec = None
        if c == 46:
            i += 1
            c = ch()
            prec = ''
            while 48 <= c <= 57:
                prec += chr(c)
                i += 1
                c = ch()
        i += 1
        conv = chr(c)
        if not have:
            val = nxt()
        if lit:
            out = out + mk(lit)
            lit = []
        if conv in 'sr' or conv in 'ab':
            if isb:
                p = val if conv in 'sb' else repr_(val).encode()
            else:
                p = to_str(val) if conv == 's' else repr_(val)
            if prec is not None:
                p = p[:int(prec or 0)]
            if width:
                p = pad(p, int(width), '<' if '-' in flags else '>')
        elif conv in 'diuxXo':
            if not V.issym(val):
                p = ('%' + flags + width + ('.' + prec if prec is not None else '') + conv) % val
            else:
                if not isinstance(val, int):
                    raise TypeError('%%%s format: a real number is required, not %s' % (conv, type(val).__name__))
                if not width and not flags and conv in 'diu':
                    p = NumStr([val])
                else:
                    p = fmt_int(val, conv, int(width or 0), '0' in flags, '<' if '-' in flags else None)
            if isb:
                p = p.encode('ascii')
        elif conv == 'c':
            p = V.mkstr([V.ilin(val)]) if isinstance(val, int) else val
        else:
            v = V.concretize(val) if isinstance(val, int) else val
            p = ('%' + flags + width + ('.' + prec if prec is not None else '') + conv) % v
        out = out + p
    if lit:
        out = out + mk(lit)
    if k < len(seq) and not usedmap and not isinstance(args, dict):
        raise TypeError('not all arguments converted during string formatting')
    return out


def objs(args):
    """instances of program classes: their __str__ may give symbolic text"""
    for a in (args if type(args) is tuple else (args,)):
        if type(a).__module__ != 'builtins':
            return True
        if isinstance(a, BaseException) and V.deep_sym(a.args):
            return True
    return False


# ---------------------------------------------------------------- str.format / f-strings
def str_format(fs, args, kw):
    if issubclass(type(fs), V.Sym):
        fs = fs.conc() if isinstance(fs, V.SymSeq) else str(fs)
    return _sformat(fs, args, kw, [0])


def _sformat(fs, args, kw, auto):
    from . import models
    out = ''
    for lit, field, spec, conv in _string.formatter_parser(fs):
        if lit:
            out = out + lit
        if field is None:
            continue
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto[0]
            auto[0] += 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, k in rest:
            v = getattr(v, k) if is_attr else models.getitem(v, k)
        if conv == 'r' or conv == 'a':
            v = repr_(v)
        elif conv == 's':
            v = to_str(v)
        if spec and '{' in spec:
            spec = _sformat(spec, args, kw, auto)
        out = out + format_(v, spec)
    return out


def fstring(*parts):
    out = ''
    for p in parts:
        if type(p) is str:
            out = out + p
        else:
            v, conv, spec = p
            if conv == 114 or conv == 97:
                v = repr_(v)
            elif conv == 115:
                v = to_str(v)
            out = out + format_(v, spec)
    return out
