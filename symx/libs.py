"""Models of standard-library functions (installed into the instrumented copies of their modules)."""
import base64
import binascii
import io
import tempfile
import time
from . import iset
from . import expr as X
from . import vals as V
from . import core
from . import fmt
from . import codec
from . import models as M
from .core import branch
from .models import model

_sx_native = True

HEX = ((48, 57), (65, 70), (97, 102))


def nibble(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    return X.simp(X.lin(X.pmap(c, [(48, 57, -48), (65, 70, -55), (97, 102, -87)])))


def nat(x):
    """native string for lazies"""
    return x.force() if issubclass(type(x), V.LazyStr) else x


# ---------------------------------------------------------------- urllib.parse
def unquote_els(e):
    out = []
    i, n = 0, len(e)
    while i < n:
        if i + 2 < n and branch(X.cand([X.cmp('==', e[i], 37), X.inset(e[i + 1], HEX), X.inset(e[i + 2], HEX)])):
            out.append(X.simp(X.add(X.scale(X.lin(nibble(e[i + 1])), 16), nibble(e[i + 2]))))
            i += 3
        else:
            out.append(e[i])
            i += 1
    return out


def unquote_to_bytes(string):
    string = nat(string)
    if not string:
        return b''
    if isinstance(string, str):
        string = string.encode('utf-8')
    return V.mkbytes(unquote_els(list(V.els(string))))


def make_unquote(real):
    def unquote(string, encoding='utf-8', errors='replace'):
        string = nat(string)
        if not V.issym(string):
            return real(string, encoding, errors)
        if encoding is None:
            encoding = 'utf-8'
        if errors is None:
            errors = 'replace'
        if isinstance(string, bytes):
            return codec.decode(unquote_to_bytes(string), encoding, errors)
        e = V.els(string)
        if not branch(X.cor([X.cmp('==', c, 37) for c in e])):
            return string
        out = []
        run = []

        def flush():
            if run:
                out.extend(V.els(codec.decode(V.mkbytes(unquote_els(run)), encoding, errors)))
                run.clear()
        for c in e:
            if branch(X.inset(c, V.ASCII)):
                run.append(c)
            else:
                flush()
                out.append(c)
        flush()
        return V.mkstr(out)
    return unquote


ALWAYS_SAFE = iset.norm([(ord(c), ord(c)) for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~'])


def make_quote(real_q, real_qb):
    def quote_from_bytes(bs, safe='/'):
        bs = nat(bs)
        if not V.issym(bs):
            return real_qb(bs, safe)
        s = safe if isinstance(safe, str) else safe.decode('latin1')
        ok = iset.union(ALWAYS_SAFE, iset.of(*[ord(c) for c in s if ord(c) < 128]))
        out = []
        for c in bs.e:
            if branch(X.inset(c, ok)):
                out.append(c)
            else:
                out.append(37)
                out += V.hexdigits(c, True)
        return V.mkstr(out)

    def quote(string, safe='/', encoding=None, errors=None):
        string = nat(string)
        if not V.issym(string):
            return real_q(string, safe, encoding, errors)
        if isinstance(string, str):
            string = codec.encode(string, encoding or 'utf-8', errors or 'strict')
        return quote_from_bytes(string, safe)
    return quote, quote_from_bytes


def patch_urlparse(m):
    import urllib.parse as U
    m.unquote_to_bytes = unquote_to_bytes
    m.unquote = make_unquote(U.unquote)
    m.quote, m.quote_from_bytes = make_quote(U.quote, U.quote_from_bytes)


# ---------------------------------------------------------------- html
def patch_html(m):
    pass


# ---------------------------------------------------------------- file objects
class SxBytesIO:
    """in-memory binary file with possibly symbolic content"""
    _sx_file = True

    def __init__(self, initial=b''):
        self._buf = nat(initial) if initial is not None else b''
        if isinstance(self._buf, M.SxByteArray):
            self._buf = self._buf._sx_bytes()
        self._pos = 0
        self.closed = False
        self.name = '<sx>'
        self.mode = 'w+b'

    @property
    def __class__(self):
        return io.BytesIO

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _size(self):
        return M.m_len(self._buf)

    def readable(self):
        return True
    writable = seekable = readable

    def write(self, b):
        self._chk()
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if isinstance(b, M.SxByteArray):
            b = b._sx_bytes()
        n = M.m_len(b)
        size = self._size()
        if same(self._pos, size):
            self._buf = self._buf + b
        else:
            if self._pos > size:
                self._buf = self._buf + b'\0' * V.concretize(self._pos - size)
            self._buf = self._buf[:self._pos] + b + self._buf[self._pos + n:]
        self._pos = self._pos + n
        return n

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, n=-1):
        self._chk()
        if n is None or n < 0:
            r = self._buf[self._pos:]
        else:
            r = self._buf[self._pos:self._pos + n]
        self._pos = self._pos + M.m_len(r)
        return r
    read1 = read

    def readline(self, limit=-1):
        self._chk()
        rest = self._buf[self._pos:]
        i = rest.find(b'\n')
        r = rest if i < 0 else rest[:i + 1]
        if limit is not None and limit >= 0:
            r = r[:limit]
        self._pos = self._pos + M.m_len(r)
        return r

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        while True:
            r = self.readline()
            if not r:
                return
            yield r

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def seek(self, pos, whence=0):
        self._chk()
        if whence == 1:
            pos = self._pos + pos
        elif whence == 2:
            pos = self._size() + pos
        if pos < 0:
            raise ValueError('negative seek value')
        self._pos = pos
        return pos

    def tell(self):
        self._chk()
        return self._pos

    def truncate(self, size=None):
        size = self._pos if size is None else size
        self._buf = self._buf[:size]
        return size

    def getvalue(self):
        self._chk()
        return self._buf

    def getbuffer(self):
        return self._buf

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, V.SymInt) or isinstance(b, V.SymInt):
        return branch(V.cond(a == b))
    return a == b


class SxTempFile(SxBytesIO):
    @property
    def __class__(self):
        return io.BufferedRandom

    def getvalue(self):
        raise AttributeError("'_io.BufferedRandom' object has no attribute 'getvalue'")


def tempfile_(*a, **k):
    return SxTempFile()


M.MODELS[id(io.BytesIO)] = (io.BytesIO, SxBytesIO)
M.MODELS[id(tempfile.TemporaryFile)] = (tempfile.TemporaryFile, tempfile_)
M.MODELS[id(tempfile.SpooledTemporaryFile)] = (tempfile.SpooledTemporaryFile, tempfile_)


# ---------------------------------------------------------------- base64
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64char(v):
    """value 0..63 -> character"""
    if isinstance(v, int):
        return ord(B64[v])
    return X.simp(X.lin(X.pmap(v, [(0, 25, 65), (26, 51, 71), (52, 61, -4), (62, 62, -19), (63, 63, -16)])))


def b64encode(s, altchars=None):
    s = nat(s)
    if not V.issym(s):
        return base64.b64encode(s, altchars)
    if not isinstance(s, (bytes, bytearray)):
        raise TypeError("a bytes-like object is required, not 'str'")
    e = list(V.els(s))
    out = []
    for i in range(0, len(e), 3):
        c = e[i:i + 3]
        n = len(c)
        c += [0] * (3 - n)
        a, b, d = [X.lin(x) for x in c]
        def dv(x, k):
            return X.simp(X.divc(x, k)) if x.t else x.c // k
        def md(x, k):
            return X.simp(X.modc(x, k)) if x.t else x.c % k
        q = [dv(a, 4), X.simp(X.add(X.scale(X.lin(md(a, 4)), 16), dv(b, 16))),
             X.simp(X.add(X.scale(X.lin(md(b, 16)), 4), dv(d, 64))), md(d, 64)]
        out += [b64char(x) for x in q[:n + 1]] + [61] * (3 - n)
    return V.mkbytes(out)


B64SET = iset.norm([(ord(c), ord(c)) for c in B64])


def b64decode(s, altchars=None, validate=False):
    s = nat(s)
    if not V.issym(s):
        return base64.b64decode(s, altchars, validate)
    if isinstance(s, str):
        if not branch(X.cand([X.inset(c, V.ASCII) for c in V.els(s)])):
            raise ValueError('string argument should contain only ASCII characters')
    e = list(V.els(s))
    vals = []
    pads = 0
    for i, c in enumerate(e):
        if branch(X.cmp('==', c, 61)):
            if len(vals) % 4 >= 2:
                pads += 1
                if len(vals) % 4 + pads >= 4:
                    break
            continue
        if not branch(X.inset(c, B64SET)):
            if validate:
                raise binascii.Error('Only base64 data is allowed')
            continue
        pads = 0
        vals.append(X.simp(X.lin(X.pmap(c, [(43, 43, 62 - 43), (47, 47, 63 - 47), (48, 57, 4), (65, 90, -65), (97, 122, -71)]))))
    k = len(vals) % 4
    if k == 1:
        raise binascii.Error('Invalid base64-encoded string')
    if k and pads + k < 4:
        raise binascii.Error('Incorrect padding')
    out = []
    for i in range(0, len(vals), 4):
        q = [X.lin(x) for x in vals[i:i + 4]]
        n = len(q)
        def dv(x, m):
            return X.divc(x, m) if x.t else X.const(x.c // m)
        def md(x, m):
            return X.modc(x, m) if x.t else X.const(x.c % m)
        q += [X.const(0)] * (4 - n)
        t = [X.add(X.scale(q[0], 4), dv(q[1], 16)), X.add(X.scale(md(q[1], 16), 16), dv(q[2], 4)),
             X.add(X.scale(md(q[2], 4), 64), q[3])]
        out += [X.simp(x) for x in t[:n - 1]]
    return V.mkbytes(out)


M.MODELS[id(base64.b64encode)] = (base64.b64encode, b64encode)
M.MODELS[id(base64.b64decode)] = (base64.b64decode, b64decode)
M.MODELS[id(base64.standard_b64encode)] = (base64.standard_b64encode, b64encode)
M.MODELS[id(base64.standard_b64decode)] = (base64.standard_b64decode, b64decode)


# ---------------------------------------------------------------- time
import calendar  # noqa: E402


@model(time.mktime)
def m_mktime(t):
    """proleptic Gregorian seconds (days-from-civil), fields may be symbolic; in a zone with an offset only minutes and seconds are"""
    t = tuple(t)
    if not V.deep_sym(t):
        return time.mktime(t)
    if time.timezone or time.daylight:
        return time.mktime(tuple(V.concretize(x) if not 3 < i < 6 else 0 for i, x in enumerate(t))) + t[4] * 60 + t[5]
    return timegm(t)


@model(calendar.timegm)
def timegm(t):
    t = tuple(t)
    if not V.deep_sym(t):
        return calendar.timegm(t)
    y, mo, d, h, mi, s = [V.concretize(x) if i < 2 else x for i, x in enumerate(tuple(t)[:6])]
    import datetime
    y += (mo - 1) // 12
    mo = (mo - 1) % 12 + 1
    if not 1 <= y <= 9999:
        raise ValueError('year %i is out of range' % y)
    days = datetime.date(y, mo, 1).toordinal() - datetime.date(1970, 1, 1).toordinal()
    r = (d - 1 + days) * 86400 + h * 3600 + mi * 60 + s
    if not isinstance(r, V.SymInt):
        return float(r)
    return r


def install(loader):
    loader.patches.append(('urllib.parse', patch_urlparse))
    loader.patches.append(('genericpath', lambda m: setattr(m, 'commonprefix', m_commonprefix)))


# ---------------------------------------------------------------- genericpath
import genericpath  # noqa: E402
import os  # noqa: E402


def m_commonprefix(m):
    m = [nat(x) for x in m]
    if not m or isinstance(m[0], (list, tuple)) or not any(V.issym(x) for x in m):
        return genericpath.commonprefix(m)
    n = min(len(x) for x in m)
    k = 0
    while k < n and all(x[k] == m[0][k] for x in m[1:]):
        k += 1
    return m[0][:k]


@model(os.fspath)
def m_fspath(p):
    p = nat(p)
    return p if V.issym(p) and isinstance(p, (str, bytes)) else os.fspath(p)
