"""Run-time hooks called by the rewritten code, and models of built-in / library functions."""
import builtins
import decimal
import functools
import io
import collections
import operator
import re
import sys
import types
from . import iset
from . import expr as X
from . import vals as V
from . import core
from . import fmt
from . import rx
from . import codec
from .core import branch, STATS
from .vals import Sym, SymStr, SymBytes, SymInt, SymBool, LazyStr, cond, mkbool, mkint, issym, deep_sym

MODELS = {}         # id(function) -> (function, model)
_MISSING = object()


def model(*fs):
    def reg(m):
        for f in fs:
            MODELS[id(f)] = (f, m)
        return m
    return reg


# ---------------------------------------------------------------- dictionaries with symbolic keys
def symd():
    p = core.CUR
    d = p.cache.get('symd')
    if d is None:
        d = p.cache['symd'] = {}
    return d


def is_symd(d):
    c = core.CUR
    if c is None:
        return False
    s = c.cache.get('symd')
    return s is not None and id(d) in s


def key_sym(k):
    t = type(k)
    if t is SymStr or t is SymBytes or t is SymInt or t is SymBool or issubclass(t, LazyStr):
        return True
    if t is tuple:
        for x in k:
            if key_sym(x):
                return True
    return hasattr(t, '_sx')


class KeyBox:
    """lets a symbolic key be stored in a native dict/set: identity hash while it is inserted"""
    depth = 0


def _stable(x):
    """hash of a boxed symbolic key: the number of its first use on this path, so that set order is reproducible"""
    c = core.CUR.cache.setdefault('hk', {})
    e = c.get(id(x))
    if e is None:
        e = c[id(x)] = (x, len(c))
    return e[1]


def _hash(self):
    if KeyBox.depth:
        return _stable(self)
    return V.SymSeq._orig_hash(self)


V.SymSeq._orig_hash = V.SymSeq.__hash__
V.SymSeq.__hash__ = _hash
V.SymStr.__hash__ = _hash
V.SymBytes.__hash__ = _hash
_int_hash = V.SymInt.__hash__
V.SymInt.__hash__ = lambda self: _stable(self) if KeyBox.depth else _int_hash(self)


class allow_hash:
    def __enter__(self):
        KeyBox.depth += 1

    def __exit__(self, *a):
        KeyBox.depth -= 1


def norm_key(k):
    if issubclass(type(k), LazyStr):
        return norm_key(k.force())
    return k


def key_eq(a, b):
    ta, tb = isinstance(a, str), isinstance(b, str)
    if ta != tb:
        return False
    if not ta:
        if isinstance(a, bytes) != isinstance(b, bytes):
            return False
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if isinstance(a, tuple):
            if len(a) != len(b):
                return False
            return X.cand([cond(key_eq(x, y)) if not isinstance(key_eq(x, y), X.Cond) else key_eq(x, y)
                           for x, y in zip(a, b)])
    return cond(a == b)


def find_key(keys, k):
    """the member of `keys` equal to k, or _MISSING; forks"""
    cands = []
    for k2 in keys:
        c = key_eq(k2, k)
        if c is True:
            return k2
        if c is not False:
            cands.append((k2, c))
    if not cands:
        return _MISSING
    if len(cands) > 1 and not branch(X.cor([c for _, c in cands])):
        return _MISSING
    for k2, c in cands[:-1]:
        if branch(c):
            return k2
    k2, c = cands[-1]
    return k2 if branch(c) else _MISSING


def lookup(d, k):
    """(found key or _MISSING) for a native dict / set"""
    k = norm_key(k)
    if not key_sym(k):
        if k in d:
            return k
        if not is_symd(d):
            return _MISSING
        return find_key([x for x in list(d) if key_sym(x)], k)
    return find_key(list(d), k)


_DD_MISSING = collections.defaultdict.__missing__


def dget(d, k):
    """native dict item"""
    k = norm_key(k)
    if not key_sym(k) and not is_symd(d):
        return dict.__getitem__(d, k)
    k2 = lookup(d, k)
    if k2 is _MISSING:
        miss = getattr(type(d), '__missing__', None)
        if miss is _DD_MISSING and d.default_factory is not None:
            v = d.default_factory()
            dset(d, k, v)
            return v
        if miss is not None:
            return miss(d, k)
        raise KeyError(k)
    with allow_hash():
        return dict.__getitem__(d, k2)


def dset(d, k, v):
    k = norm_key(k)
    if not key_sym(k) and not is_symd(d):
        dict.__setitem__(d, k, v)
        return
    k2 = lookup(d, k)
    if k2 is _MISSING:
        k2 = k
        if key_sym(k):
            symd()[id(d)] = d
    with allow_hash():
        dict.__setitem__(d, k2, v)


def ddel(d, k):
    k = norm_key(k)
    if not key_sym(k) and not is_symd(d):
        dict.__delitem__(d, k)
        return
    k2 = lookup(d, k)
    if k2 is _MISSING:
        raise KeyError(k)
    with allow_hash():
        dict.__delitem__(d, k2)


def dpop(d, k, *default):
    try:
        v = dget(d, k)
    except KeyError:
        if default:
            return default[0]
        raise
    ddel(d, k)
    return v


def dgetdef(d, k, default=None):
    k2 = lookup(d, k)
    if k2 is _MISSING:
        return default
    with allow_hash():
        return dict.__getitem__(d, k2)


def dsetdefault(d, k, default=None):
    k2 = lookup(d, k)
    if k2 is _MISSING:
        dset(d, k, default)
        return default
    with allow_hash():
        return dict.__getitem__(d, k2)


def dupdate(d, *a, **kw):
    if a:
        o = a[0]
        if isinstance(o, dict):
            for k, v in list(o.items()):
                dset(d, k, v)
        elif hasattr(o, 'keys'):
            for k in o.keys():
                dset(d, k, getitem(o, k))
        else:
            for k, v in o:
                dset(d, k, v)
    for k, v in kw.items():
        dset(d, k, v)


def dcopy(d):
    r = dict.copy(d)
    if is_symd(d):
        symd()[id(r)] = r
    return r


DICT = {'get': dgetdef, 'pop': dpop, 'setdefault': dsetdefault, 'update': dupdate, '__getitem__': dget,
        '__setitem__': dset, '__delitem__': ddel, 'copy': dcopy,
        '__contains__': lambda d, k: lookup(d, k) is not _MISSING}


def sadd(s, k):
    k = norm_key(k)
    if lookup(s, k) is _MISSING:
        if key_sym(k):
            symd()[id(s)] = s
        with allow_hash():
            set.add(s, k)


def sdiscard(s, k):
    k2 = lookup(s, k)
    if k2 is not _MISSING:
        with allow_hash():
            set.discard(s, k2)


def sremove(s, k):
    k2 = lookup(s, k)
    if k2 is _MISSING:
        raise KeyError(k)
    with allow_hash():
        set.discard(s, k2)


def supdate(s, *its):
    for it in its:
        for x in list(it):
            sadd(s, x)


def _symset(x):
    return (isinstance(x, (set, frozenset)) or type(x) in _KV) and (is_symd(x) or any(key_sym(k) for k in x))


def sinter(s, *its):
    r = list(s)
    for it in its:
        o = mkset(list(it))
        r = [x for x in r if lookup(o, x) is not _MISSING]
    return mkset(r)


def sdiff(s, *its):
    r = list(s)
    for it in its:
        o = mkset(list(it))
        r = [x for x in r if lookup(o, x) is _MISSING]
    return mkset(r)


def sunion(s, *its):
    r = list(s)
    for it in its:
        r += list(it)
    return mkset(r)


def sxor(s, o):
    o = list(o)
    return mkset(list(sdiff(s, o)) + list(sdiff(o, s)))


def ssub(s, o):
    o = mkset(list(o))
    return all(lookup(o, x) is not _MISSING for x in list(s))


SETOPS = {'BitAnd': sinter, 'BitOr': sunion, 'Sub': sdiff, 'BitXor': sxor}


def setop(op, a, b):
    ta = type(a)
    if (ta is set or ta is frozenset or ta in _KV) and (_symset(a) or _symset(b)):
        return SETOPS[op](a, b)
    if op == 'BitOr' and isinstance(a, dict) and isinstance(b, dict) and (is_symd(a) or is_symd(b)):
        r = dcopy(a)
        dupdate(r, b)
        return r
    return _BIN[op](a, b)


_BIN = {'Sub': operator.sub, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor}
SET = {'intersection': sinter, 'union': sunion, 'difference': sdiff, 'symmetric_difference': sxor, 'issubset': ssub,
       'issuperset': lambda s, o: ssub(o, s), 'isdisjoint': lambda s, o: not sinter(s, o), 'copy': lambda s: mkset(list(s)),
       'add': sadd, 'discard': sdiscard, 'remove': sremove, 'update': supdate,
       '__contains__': lambda s, k: lookup(s, k) is not _MISSING}


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is _UNPACK:
            dupdate(d, v)
        elif key_sym(k):
            dset(d, k, v)
        else:
            if is_symd(d):
                dset(d, k, v)
            else:
                d[k] = v
    return d


_UNPACK = object()


def mkset(items):
    s = set()
    for x in items:
        if key_sym(x) or is_symd(s):
            sadd(s, x)
        else:
            s.add(x)
    return s


# ---------------------------------------------------------------- hooks of the rewritten code
_PYFUNC = types.FunctionType
_METHOD = types.MethodType
_BUILTIN = types.BuiltinFunctionType
_CMETH = type(re.compile('a').finditer)
_MDESC = type(str.join)
_WRAPD = type(str.__len__)
_MWRAP = type(''.__len__)
_LRU = functools._lru_cache_wrapper
COUNTERPART = {}


def anysym(a, k):
    for x in a:
        if hasattr(type(x), '_sx'):
            return True
    for x in k.values():
        if hasattr(type(x), '_sx'):
            return True
    return False


def call(f, *a, **k):
    m = MODELS.get(id(f))
    if m is not None:
        return m[1](*a, **k)
    t = type(f)
    if t is _PYFUNC:
        if '_sxC' not in f.__globals__ and not f.__globals__.get('_sx_native') and deep_sym(a) or k and deep_sym(k):
            g = counterpart(f)
            if g is not None:
                return g(*a, **k)
        return f(*a, **k)
    if t is _METHOD:
        m = MODELS.get(id(f.__func__))
        if m is not None:
            return m[1](f.__self__, *a, **k)
        return f(*a, **k)
    if t is _BUILTIN or t is _CMETH:
        s = f.__self__
        ts = type(s)
        if s is not None and ts is not types.ModuleType:
            r = bound(f, s, ts, f.__name__, a, k)
            if r is not _MISSING:
                return r
        return f(*a, **k)
    if t is _MWRAP:
        r = bound(f, f.__self__, type(f.__self__), f.__name__, a, k)
        if r is not _MISSING:
            return r
        return f(*a, **k)
    if t is _MDESC or t is _WRAPD:
        if a:
            s = a[0]
            if issym(s):
                return getattr(s, f.__name__)(*a[1:], **k)
            r = bound(f, s, f.__objclass__, f.__name__, a[1:], k)
            if r is not _MISSING:
                return r
        return f(*a, **k)
    if t is _LRU:
        if deep_sym(a) or deep_sym(k):
            return call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is type and f.__module__ == 'builtins' and issubclass(f, BaseException):
        return f(*a, **k)
    if t is type and (a or k) and issubclass(f, dict) and f.__init__ is dict.__init__ and f.__new__ is dict.__new__:
        o = f()
        dupdate(o, *a, **k)
        return o
    return f(*a, **k)


def bound(f, s, ts, name, a, k):
    """method `name` of a native object; _MISSING if the native method is fine"""
    if ts is str:
        if anysym(a, k) or (name == 'join' and a) or name == 'format' or name == 'format_map':
            if name == 'join':
                items = list(a[0])
                for x in items:
                    if hasattr(type(x), '_sx'):
                        break
                else:
                    return s.join(items)
                return SymStr(V.els(s)).join(items)
            if name == 'format':
                return fmt.str_format(s, a, k)
            if name == 'format_map':
                return fmt.str_format(s, (), a[0])
            return getattr(SymStr(V.els(s)), name)(*a, **k)
        return _MISSING
    if ts is bytes or ts is bytearray:
        if name == 'join' and a:
            items = list(a[0])
            for x in items:
                if hasattr(type(x), '_sx'):
                    return SymBytes(V.els(s)).join(items)
            return s.join(items)
        if anysym(a, k):
            if ts is bytearray and name in ('extend', 'append', 'insert'):
                raise core.EngineError('native bytearray with symbolic content')
            return getattr(SymBytes(V.els(s)), name)(*a, **k)
        return _MISSING
    if ts is dict or (isinstance(s, dict) and ts is not dict):
        m = DICT.get(name)
        if m is not None and (is_symd(s) or name == 'update' and a and (is_symd(a[0]) or not isinstance(a[0], dict))
                              or a and key_sym(a[0])):
            return m(s, *a, **k)
        return _MISSING
    if ts is set or ts is frozenset:
        m = SET.get(name)
        if m is not None and (is_symd(s) or a and (key_sym(a[0]) or deep_sym(list_if(a[0])) or is_symd(a[0]))):
            return m(s, *a, **k)
        return _MISSING
    if ts is re.Pattern:
        m = rx.METHODS.get(name)
        if m is not None and anysym(a, k):
            a = tuple(x.force() if issubclass(type(x), LazyStr) else x for x in a)
            if anysym(a, k):
                s2 = a[1] if name in ('sub', 'subn') and len(a) > 1 else a[0]
                if isinstance(s2, bytes) != isinstance(s.pattern, bytes):
                    raise TypeError('cannot use a %s pattern on a %s-like object' % (
                        ('bytes', 'string') if isinstance(s.pattern, bytes) else ('string', 'bytes')))
            return getattr(s, name)(*a, **k) if not anysym(a, k) else m(s, *a, **k)
        return _MISSING
    return _MISSING


def list_if(x):
    return x if isinstance(x, (list, tuple, set, frozenset)) else []


def counterpart(f):
    """instrumented version of a pure-Python library function"""
    k = id(f)
    r = COUNTERPART.get(k)
    if r is None:
        from . import loader
        try:
            mod = loader.LOADER.load(f.__module__)
            g = mod
            for part in f.__qualname__.split('.'):
                g = getattr(g, part)
        except core.Abort:
            raise
        except Exception:
            g = None
        if g is f:
            g = None
        r = COUNTERPART[k] = (f, g)
    return r[1]


def callk(f, pairs, a=()):
    """call with keyword pairs whose names may be symbolic:  f(*a, **{...})"""
    kw = {}
    symk = []
    for k, v in pairs:
        k = norm_key(k)
        if key_sym(k):
            symk.append((k, v))
        else:
            if k in kw:
                raise TypeError('got multiple values for keyword argument %r' % k)
            kw[k] = v
    if not symk:
        return call(f, *a, **kw)
    if f is dict:
        d = mkdict(list(a[0].items()) if a and isinstance(a[0], dict) else list(a[0]) if a else [])
        for k, v in kw.items():
            dset(d, k, v)
        for k, v in symk:
            dset(d, k, v)
        return d
    if isinstance(f, type) and issubclass(f, dict) and f.__init__ is dict.__init__:
        d = f()
        if a:
            dupdate(d, a[0])
        for k, v in kw.items():
            dset(d, k, v)
        for k, v in symk:
            dset(d, k, v)
        return d
    for k, v in symk:
        kw[k.conc()] = v
    return call(f, *a, **kw)


def kwpairs(m):
    """items of a `**m` argument"""
    if isinstance(m, dict):
        return list(m.items())
    return [(k, getitem(m, k)) for k in m.keys()]


def getitem(o, k):
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        if key_sym(k) or is_symd(o):
            return dget(o, k)
    return o[k]


def setitem(o, k, v):
    if isinstance(o, dict) and type(o).__setitem__ is dict.__setitem__:
        if key_sym(k) or is_symd(o):
            dset(o, k, v)
            return
    o[k] = v


def delitem(o, k):
    if isinstance(o, dict) and type(o).__delitem__ is dict.__delitem__:
        if key_sym(k) or is_symd(o):
            ddel(o, k)
            return
    del o[k]


_OPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'FloorDiv': operator.ifloordiv,
        'Mod': lambda a, b: mod(a, b), 'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor,
        'LShift': operator.ilshift, 'RShift': operator.irshift, 'Div': operator.itruediv, 'Pow': operator.ipow,
        'MatMult': operator.imatmul}


def aug(o, k, op, v):
    setitem(o, k, _OPS[op](getitem(o, k), v))


_KV = (type({}.keys()),)


def contains(o, k):
    """k in o"""
    t = type(o)
    if issym(k) or key_sym(k) or hasattr(t, '_sx'):
        if issubclass(t, LazyStr):
            o = o.force()
            t = type(o)
        if t is SymStr or t is SymBytes:
            return o.contains(k)
        if hasattr(t, '_sx_contains'):
            return o._sx_contains(k)
        if isinstance(o, (str, bytes, bytearray)):
            return V.contains(o, k)
        if t in (list, tuple):
            cs = []
            for x in o:
                if x is k:
                    return True
                cs.append(cond(x == k))
            return mkbool(X.cor(cs))
        if isinstance(o, dict) and t.__contains__ is dict.__contains__ or t in (set, frozenset):
            k = norm_key(k)
            if not key_sym(k):
                return lookup(o, k) is not _MISSING
            cs = []
            for x in list(o):
                c = key_eq(x, k)
                if c is True:
                    return True
                cs.append(c)
            return mkbool(X.cor(cs))
        if t in _KV:
            return contains(o.mapping if hasattr(o, 'mapping') else list(o), k) if False else contains(list(o), k)
        return k in o
    if is_symd(o):
        return lookup(o, k) is not _MISSING
    if t in _KV and any(key_sym(x) for x in o):
        return contains(list(o), k)
    return k in o


def mod(a, b):
    if isinstance(a, (str, bytes, bytearray)):
        return fmt.percent(a, b)
    return a % b


def not_(x):
    return V.sxnot(x) if type(x) is SymBool else not x


def enter(name):
    STATS.funcs.add(name)
    p = core.CUR
    if p is not None:
        p.step()


def loop():
    p = core.CUR
    if p is not None:
        p.step()


# ---------------------------------------------------------------- builtins
@model(len)
def m_len(x):
    f = getattr(type(x), '_sx_len', None)
    if f is not None:
        return f(x)
    return len(x)


@model(type)
def m_type(x, *a, **k):
    if not a and not k:
        return x.__class__ if issym(x) else type(x)
    return type(x, *a, **k)


@model(bool)
def m_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return mkbool(X.cmp('!=', x.l, 0))
    c = getattr(type(x), '_sx_cond', None)
    if c is not None:
        return mkbool(x._sx_cond())
    return bool(x)


UDEC = None


def digit_map():
    """piecewise map of non-ASCII decimal digits to '0'..'9'"""
    global UDEC
    if UDEC is None:
        import unicodedata
        UDEC = []
        for lo, hi in V.cls('isdecimal'):
            c = lo
            while c <= hi:
                n = 1
                v = unicodedata.decimal(chr(c))
                while c + n <= hi and unicodedata.decimal(chr(c + n)) == v + n:
                    n += 1
                UDEC.append((c, c + n - 1, 48 + v - c))
                c += n
    return UDEC


def parse_int(x, base):
    kind = 'bytes' if isinstance(x, bytes) else 'str'
    if type(x) is fmt.NumStr and base == 10:
        ps = [p for p in x.parts if not (isinstance(p, str) and not len(p))]
        if len(ps) == 1 and type(ps[0]) is V.SymInt:
            return ps[0]
    bad = ValueError(LazyStr(lambda: 'invalid literal for int() with base %d: ' % base + fmt.repr_now(x)))
    e = list(V.els(x.strip()))
    if not e:
        raise bad
    sign = 1
    if branch(X.inset(e[0], iset.of(43, 45))):
        if branch(X.cmp('==', e[0], 45)):
            sign = -1
        e = e[1:]
    if not e:
        raise bad
    pref = {16: (120, 88), 8: (111, 79), 2: (98, 66)}.get(base)
    lead_us = False
    if base == 0:
        s = V.mkstr(e)
        s = s.conc() if issym(s) else s
        return sign * int(s, 0)
    if pref and len(e) >= 2 and branch(X.cand([X.cmp('==', e[0], 48), X.inset(e[1], iset.of(*pref))])):
        e = e[2:]
        lead_us = True
        if not e:
            raise bad
    val = 0
    prev_us = True
    if lead_us and branch(X.cmp('==', e[0], 95)):
        e = e[1:]
        if not e:
            raise bad
    for c in e:
        if branch(X.cmp('==', c, 95)):
            if prev_us:
                raise bad
            prev_us = True
            continue
        prev_us = False
        d = None
        top = 48 + min(base, 10) - 1
        if kind == 'str' and V.edom(c)[-1][1] > 127:
            if not branch(X.inset(c, V.ASCII)):
                if not branch(X.inset(c, V.cls('isdecimal'))):
                    raise bad
                c = X.simp(X.lin(X.pmap(c, digit_map())))
        if branch(X.inset(c, ((48, top),))):
            d = X.add(c, -48)
        elif base > 10:
            if branch(X.inset(c, ((97, 97 + base - 11),))):
                d = X.add(c, -87)
            elif branch(X.inset(c, ((65, 65 + base - 11),))):
                d = X.add(c, -55)
        if d is None:
            raise bad
        val = X.add(X.scale(X.lin(val), base), d)
    if prev_us:
        raise bad
    return mkint(X.scale(X.lin(val), sign)) if not isinstance(val, int) else sign * val


@model(int)
def m_int(x=0, base=_MISSING):
    if base is _MISSING:
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return mkint(X.ite(x.c, 1, 0))
        if type(x) is SymFloat:
            return int(x.conc())
        if type(x) is fmt.NumStr and x.v is None:
            ps = fmt.norm(x.parts)
            if len(ps) == 1 and isinstance(ps[0], int):
                return ps[0]
        if issym(x) and isinstance(x, (str, bytes)):
            return parse_int(x, 10)
        return int(x)
    if issym(x) and isinstance(x, (str, bytes)):
        return parse_int(x, V.concretize(base))
    return int(x, V.concretize(base))


FLOAT_RE = re.compile(r'[+-]?(?:(?:\d+(?:_\d+)*)(?:\.(?:\d+(?:_\d+)*)?)?(?:[eE][+-]?\d+(?:_\d+)*)?'
                      r'|\.\d+(?:_\d+)*(?:[eE][+-]?\d+(?:_\d+)*)?|(?i:inf(?:inity)?|nan))')


class SymFloat(Sym):
    """float(text) for symbolic text; the number itself is not computed symbolically"""
    __slots__ = ('s', 'v', 'c')

    def __init__(self, s):
        self.s = s
        self.v = None
        self.c = 0

    def canon(self):
        """(negative, significant digits, position of the decimal point) for plain decimal text of at most 15
        significant digits - repr() of the number is these digits then; None for other text"""
        if self.c == 0:
            self.c = self._canon()
        return self.c

    def _canon(self):
        e = list(V.els(self.s))
        neg = False
        if branch(X.inset(e[0], iset.of(43, 45))):
            neg = branch(X.cmp('==', e[0], 45))
            e = e[1:]
        ds, pt = [], None
        for x in e:
            if branch(X.inset(x, ((48, 57),))):
                ds.append(x)
            elif pt is None and branch(X.cmp('==', x, 46)):
                pt = len(ds)
            elif branch(X.inset(x, V.cls('isdecimal'))):
                ds.append(X.simp(X.lin(X.pmap(x, digit_map()))))
            else:
                return None
        if pt is None:
            pt = len(ds)
        while ds and branch(X.cmp('==', ds[0], 48)):
            ds = ds[1:]
            pt -= 1
        while ds and branch(X.cmp('==', ds[-1], 48)):
            ds = ds[:-1]
        if not ds:
            pt = 1
        if len(ds) > 15 or not -300 < pt < 300:
            return None
        return neg, ds, pt

    def text(self):
        c = self.canon()
        if c is None:
            return str(self.conc())
        neg, ds, pt = c
        z = [48]
        if not ds:
            r = [48, 46, 48]
        elif -4 < pt <= 16:
            if pt <= 0:
                r = [48, 46] + z * -pt + ds
            elif pt >= len(ds):
                r = ds + z * (pt - len(ds)) + [46, 48]
            else:
                r = ds[:pt] + [46] + ds[pt:]
        else:
            r = ds[:1] + ([46] + ds[1:] if ds[1:] else []) + [ord(x) for x in 'e%+03d' % (pt - 1)]
        return V.mkstr(([45] if neg else []) + r)

    @property
    def __class__(self):
        return float

    def conc(self):
        if self.v is None:
            self.v = float(self.s.conc())
        return self.v

    def _sx_ev(self, m):
        return float(self.s.ev(m))

    def __eq__(self, o):
        if type(o) is SymFloat:
            a, b = V.els(self.s), V.els(o.s)
            if len(a) == len(b) and V.eqcond(a, b) is True:
                return True
            x, y = self.canon(), o.canon()
            if x is not None and y is not None:
                if not x[1] or not y[1]:
                    return not x[1] and not y[1]
                if x[0] != y[0] or x[2] != y[2] or len(x[1]) != len(y[1]):
                    return False
                return mkbool(V.eqcond(x[1], y[1]))
            return self.conc() == o.conc()
        return isinstance(o, (int, float)) and self.conc() == o

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(self.conc())

    def _sx_str(self):
        return LazyStr(self.text)
    _sx_repr = _sx_str

    def __getattr__(self, n):
        if n.startswith('_sx'):
            raise AttributeError(n)
        return getattr(self.conc(), n)

    def __float__(self):
        return self.conc()

    def __bool__(self):
        return bool(self.conc())


for _n in 'add radd sub rsub mul rmul truediv rtruediv floordiv mod lt le gt ge'.split():
    def _mk(n):
        def op(self, o):
            return getattr(self.conc(), n)(o.conc() if type(o) is SymFloat else o)
        return op
    setattr(SymFloat, '__%s__' % _n, _mk('__%s__' % _n))
for _n in 'neg abs int format str repr'.split():
    def _mk(n):
        def op(self, *a):
            return getattr(self.conc(), n)(*a)
        return op
    setattr(SymFloat, '__%s__' % _n, _mk('__%s__' % _n))


class SymDec:
    """decimal.Decimal of symbolic decimal text; only positional formatting is modelled"""
    def __init__(self, s):
        self.s = s

    def __format__(self, spec):
        e = list(V.els(self.s))
        if spec != 'f':
            return format(decimal.Decimal(self.s.conc()), spec)
        sign = []
        if e and isinstance(e[0], int) and e[0] in (43, 45):
            sign = [45] if e[0] == 45 else []
            e = e[1:]
        x = 0
        if 101 in e:
            k = e.index(101)
            x = int(''.join(chr(c) for c in e[k + 1:]))
            e = e[:k]
        k = e.index(46) if 46 in e else len(e)
        ds, pt = e[:k] + e[k + 1:], k
        nfrac = max(len(ds) - pt - x, 0)
        pt += x
        if pt >= len(ds):
            ds = ds + [48] * (pt - len(ds))
        elif pt <= 0:
            ds = [48] * (1 - pt) + ds
            pt = 1
        while pt > 1 and len(ds) and ds[0] == 48:
            ds, pt = ds[1:], pt - 1
        return V.mkstr(sign + ds[:pt] + ([46] + ds[pt:] if nfrac else []))


@model(decimal.Decimal)
def m_decimal(x='0', *a):
    if issym(x) and isinstance(x, str):
        if issubclass(type(x), LazyStr):
            x = x.force()
        if issym(x):
            return SymDec(x)
    elif type(x) is SymFloat:
        x = x.conc()
    return decimal.Decimal(x, *a)


@model(float)
def m_float(x=0.0):
    if issym(x) and isinstance(x, (str, bytes)):
        if issubclass(type(x), LazyStr):
            x = x.force()
            if not issym(x):
                return float(x)
        s = x.decode('latin1') if isinstance(x, bytes) else x
        s = s.strip()
        if not issym(s):
            return float(s)
        if rx.fullmatch(FLOAT_RE, s) is None:
            raise ValueError(LazyStr(lambda: 'could not convert string to float: ' + fmt.repr_now(s)))
        return SymFloat(s)
    if type(x) is SymFloat:
        return x
    return float(x)


@model(str)
def m_str(x=_MISSING, encoding=_MISSING, errors='strict'):
    if x is _MISSING:
        return ''
    if encoding is not _MISSING or isinstance(x, (bytes, bytearray)) and errors != 'strict':
        if issym(x):
            return x.decode('utf-8' if encoding is _MISSING else encoding, errors)
        return str(x, 'utf-8' if encoding is _MISSING else encoding, errors)
    return fmt.to_str(x)


@model(repr, ascii)
def m_repr(x):
    return fmt.repr_(x)


@model(format)
def m_format(x, spec=''):
    return fmt.format_(x, spec)


@model(print)
def m_print(*a, **k):
    return None


@model(ord)
def m_ord(x):
    if issym(x):
        e = V.els(x)
        if len(e) != 1:
            raise TypeError('ord() expected a character')
        return mkint(e[0])
    return ord(x)


@model(chr)
def m_chr(x):
    if type(x) is SymInt:
        if not branch(X.inset(x.l, ((0, V.MAXU),))):
            raise ValueError('chr() arg not in range(0x110000)')
        return V.mkstr([x.l])
    return chr(x)


@model(bytes)
def m_bytes(x=b'', *a, **k):
    if issym(x):
        if isinstance(x, str):
            return x.encode(*a, **k)
        if isinstance(x, bytes):
            return x
        return bytes(V.concretize(x))
    if isinstance(x, (list, tuple)) and deep_sym(x):
        for y in x:
            if issym(y) and not branch(X.inset(V.ilin(y), ((0, 255),))):
                raise ValueError('bytes must be in range(0, 256)')
        return V.mkbytes([V.ilin(y) for y in x])
    if hasattr(type(x), '_sx_bytes'):
        return x._sx_bytes()
    if not a and not k and not isinstance(x, (bytes, bytearray, int, str, memoryview, list, tuple)):
        if hasattr(x, '__bytes__'):
            return x.__bytes__()
        if hasattr(x, '__iter__'):
            return m_bytes(list(x))
    return bytes(x, *a, **k)


class SxByteArray:
    """bytearray with symbolic content"""
    _sx = True
    __slots__ = ('e',)

    def __init__(self, e=()):
        self.e = list(e)

    @property
    def __class__(self):
        return bytearray

    def _sx_els(self):
        return self.e

    def _sx_bytes(self):
        return V.mkbytes(self.e)

    def _sx_ev(self, m):
        return V.mkbytes(self.e).ev(m) if issym(V.mkbytes(self.e)) else V.mkbytes(self.e)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return bool(self.e)

    def append(self, x):
        self.e.append(V.ilin(x))

    def extend(self, x):
        self.e += V.els(x) if isinstance(x, (bytes, bytearray)) else [V.ilin(y) for y in x]

    def __iadd__(self, x):
        if hasattr(type(x), '_sx_rope'):
            return x.__radd__(self._sx_bytes())
        self.extend(x)
        return self

    def clear(self):
        self.e.clear()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SxByteArray(self.e[slice(V.concretize(i.start), V.concretize(i.stop), V.concretize(i.step))])
        return mkint(self.e[V.concretize(i)])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.e[i] = V.els(v)
        else:
            self.e[i] = V.ilin(v)

    def __delitem__(self, i):
        del self.e[slice(V.concretize(i.start), V.concretize(i.stop)) if isinstance(i, slice) else i]

    def pop(self, i=-1):
        return mkint(self.e.pop(i))

    def __iter__(self):
        return iter([mkint(x) for x in self.e])

    def __eq__(self, o):
        return isinstance(o, (bytes, bytearray)) and V.seq_eq(V.mkbytes(self.e), o)

    __hash__ = None

    def __add__(self, o):
        return SxByteArray(self.e + list(V.els(o)))

    def __radd__(self, o):
        return V.mkbytes(list(V.els(o)) + self.e)

    def _sx_contains(self, k):
        return contains(SymBytes(self.e), k)

    def __contains__(self, k):
        return bool(self._sx_contains(k))

    def __getattr__(self, n):
        if n.startswith('_sx'):
            raise AttributeError(n)
        return getattr(SymBytes(self.e), n)


@model(bytearray)
def m_bytearray(x=b'', *a):
    if isinstance(x, str):
        x = x.encode(*a)
    if isinstance(x, int):
        return SxByteArray([0] * V.concretize(x))
    if isinstance(x, (bytes, bytearray)):
        return SxByteArray(V.els(x))
    return SxByteArray([V.ilin(y) for y in x])


@model(memoryview)
def m_memoryview(x):
    if issym(x):
        return x if type(x) is SymBytes or hasattr(type(x), '_sx_rope') else x._sx_bytes()
    return memoryview(x)


@model(dict)
def m_dict(*a, **k):
    if a and (is_symd(a[0]) or not isinstance(a[0], dict)):
        d = {}
        src = a[0]
        if not hasattr(src, 'keys'):
            src = list(src)
            if not any(key_sym(kv[0]) for kv in src):
                return dict(src, **k)
        dupdate(d, src, **k)
        return d
    return dict(*a, **k)


@model(set)
def m_set(x=()):
    return mkset(list(x))


@model(frozenset)
def m_frozenset(x=()):
    x = list(x)
    if any(key_sym(y) for y in x):
        return mkset(x)
    return frozenset(x)


@model(map)
def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


@model(filter)
def m_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


@model(hash)
def m_hash(x):
    return hash(x)


@model(range)
def m_range(*a):
    return range(*[V.concretize(x) for x in a])


@model(getattr)
def m_getattr(o, n, *d):
    if issym(n):
        n = n.conc() if isinstance(n, V.SymSeq) else str(n)
    return getattr(o, n, *d)


@model(setattr)
def m_setattr(o, n, v):
    if issym(n):
        n = n.conc() if isinstance(n, V.SymSeq) else str(n)
    return setattr(o, n, v)


@model(hasattr)
def m_hasattr(o, n):
    if issym(n):
        n = n.conc() if isinstance(n, V.SymSeq) else str(n)
    return hasattr(o, n)


@model(any)
def m_any(it):
    cs = []
    for x in it:
        c = cond(x)
        if c is True:
            return True if not cs else mkbool(X.cor(cs + [True]))
        if c is not False:
            cs.append(c)
    return mkbool(X.cor(cs))


@model(all)
def m_all(it):
    cs = []
    for x in it:
        c = cond(x)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return mkbool(X.cand(cs))


@model(int.from_bytes)
def m_from_bytes(b, byteorder='big', *, signed=False):
    if issym(b):
        e = V.els(b)
        if byteorder == 'little':
            e = e[::-1]
        v = 0
        for x in e:
            v = X.add(X.scale(X.lin(v), 256), x)
        return mkint(v)
    return int.from_bytes(b, byteorder, signed=signed)


@model(sorted)
def m_sorted(it, *, key=None, reverse=False):
    if key is not None:
        f = key
        key = lambda x: call(f, x)
    return sorted(it, key=key, reverse=reverse)


@model(isinstance)
def m_isinstance(o, c):
    return isinstance(o, c)


# ---------------------------------------------------------------- re
def _re(name):
    nat = getattr(re, name)

    def f(pattern, *a, **k):
        if isinstance(pattern, re.Pattern):
            p = pattern
            flags = 0
        else:
            if issym(pattern):
                pattern = pattern.conc() if isinstance(pattern, V.SymSeq) else str(pattern)
            npos = 3 if name in ('sub', 'subn') else 1
            flags = k.pop('flags', 0)
            a = list(a)
            if name in ('match', 'search', 'fullmatch', 'findall', 'finditer') and len(a) > 1:
                flags = a.pop(1)
            elif name in ('sub', 'subn') and len(a) > 3:
                flags = a.pop(3)
            elif name == 'split' and len(a) > 2:
                flags = a.pop(2)
            p = re.compile(pattern, flags)
        return call(getattr(p, name), *a, **k)
    MODELS[id(nat)] = (nat, f)


for _n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'sub', 'subn', 'split'):
    _re(_n)


@model(re.compile)
def m_recompile(p, flags=0):
    if issym(p):
        p = p.conc() if isinstance(p, V.SymSeq) else str(p)
    return re.compile(p, flags)


@model(re.escape)
def m_reescape(p):
    if issym(p):
        p = p.conc() if isinstance(p, V.SymSeq) else str(p)
    return re.escape(p)


# ---------------------------------------------------------------- traceback
def m_format_exc(*a, **k):
    e = sys.exc_info()[1]
    if e is None:
        return 'NoneType: None\n'
    return 'Traceback (most recent call last):\n' + fmt.to_str(type(e).__name__) + ': ' + fmt.to_str(fmt.to_str(e)) + '\n'


import traceback  # noqa
MODELS[id(traceback.format_exc)] = (traceback.format_exc, m_format_exc)


def m_format_exception(e, *a, **k):
    if not isinstance(e, BaseException) and a:
        e = a[0]
    return ['Traceback (most recent call last):\n', fmt.to_str(type(e).__name__) + ': ' + fmt.to_str(e) + '\n']


MODELS[id(traceback.format_exception)] = (traceback.format_exception, m_format_exception)


@model(functools.reduce)
def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


@model(operator.contains)
def m_opcontains(a, b):
    return contains(a, b)


@model(operator.getitem)
def m_opgetitem(a, b):
    return getitem(a, b)


import unicodedata  # noqa


@model(unicodedata.normalize)
def m_normalize(form, s):
    if issym(s):
        if issubclass(type(s), LazyStr):
            return m_normalize(form, s.force())
        if branch(X.cand([X.inset(x, V.ASCII) for x in V.els(s)])):
            return s
        return unicodedata.normalize(form, s.conc())
    return unicodedata.normalize(form, s)
