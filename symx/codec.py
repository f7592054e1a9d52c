"""encode/decode of symbolic text."""
import codecs
from . import iset
from . import expr as X
from . import vals as V
from .core import branch

SURR = ((0xD800, 0xDFFF),)


def name(enc):
    if isinstance(enc, V.Sym):
        enc = enc.conc()
    return codecs.lookup(enc).name


def encode(s, enc='utf-8', errors='strict'):
    n = name(enc)
    e = V.els(s)
    if n in ('iso8859-1', 'ascii'):
        top = 255 if n == 'iso8859-1' else 127
        ok = X.cand([X.inset(x, ((0, top),)) for x in e])
        if branch(ok):
            return V.mkbytes(e)
        if errors == 'strict':
            i = next(i for i, x in enumerate(e) if not branch(X.inset(x, ((0, top),))))
            raise UnicodeEncodeError(n, '?' * len(e), i, i + 1, 'ordinal not in range(%d)' % (top + 1))
        out = []
        for x in e:
            if branch(X.inset(x, ((0, top),))):
                out.append(x)
            elif errors == 'replace':
                out.append(63)
            elif errors == 'ignore':
                pass
            else:
                c = V.mkstr([x])
                c = c if type(c) is str else c.conc()
                out += list(c.encode(n, errors))
        return V.mkbytes(out)
    if n == 'utf-8':
        out = []
        for i, x in enumerate(e):
            if isinstance(x, int):
                if 0xD800 <= x <= 0xDFFF and errors == 'strict':
                    raise UnicodeEncodeError('utf-8', '?' * len(e), i, i + 1, 'surrogates not allowed')
                out += list(chr(x).encode('utf-8', errors))
                continue
            out += utf8_char(x, i, len(e), errors)
        return V.mkbytes(out)
    c = s if type(s) is str else (s.force() if type(s) is V.LazyStr else s)
    c = c if type(c) is str else c.conc()
    return c.encode(enc, errors)


def lin_div(x, k):
    return X.divc(X.lin(x), k)


def utf8_char(x, i, n, errors):
    if branch(X.cmp('<=', x, 0x7F)):
        return [x]
    if branch(X.cmp('<=', x, 0x7FF)):
        return [X.add(X.divc(x, 64), 0xC0), X.add(X.modc(x, 64), 0x80)]
    if branch(X.cmp('<=', x, 0xFFFF)):
        if branch(X.inset(x, SURR)):
            if errors == 'strict':
                raise UnicodeEncodeError('utf-8', '?' * n, i, i + 1, 'surrogates not allowed')
            if errors == 'surrogateescape':
                if branch(X.inset(x, ((0xDC80, 0xDCFF),))):
                    return [X.simp(X.add(x, -0xDC00))]
                raise UnicodeEncodeError('utf-8', '?' * n, i, i + 1, 'surrogates not allowed')
            if errors == 'ignore':
                return []
            if errors == 'replace':
                return [63]
            if errors != 'surrogatepass':
                c = V.mkstr([x]).conc()
                return list(c.encode('utf-8', errors))
        q = X.divc(x, 64)
        return [X.add(X.divc(x, 4096), 0xE0), X.add(X.modc(q, 64), 0x80), X.add(X.modc(x, 64), 0x80)]
    q = X.divc(x, 64)
    q2 = X.divc(x, 4096)
    return [X.add(X.divc(x, 262144), 0xF0), X.add(X.modc(q2, 64), 0x80), X.add(X.modc(q, 64), 0x80),
            X.add(X.modc(x, 64), 0x80)]


def _src(e):
    """if elements are the UTF-8 spelling that utf8_char produced for one character, give it back"""
    if len(e) < 2 or any(isinstance(x, int) for x in e):
        return None
    last = e[-1]
    if last.c != 0x80 or len(last.t) != 1:
        return None
    m, k = last.t[0]
    if k != 1 or not isinstance(m, X.ModC) or m.k != 64:
        return None
    x = m.l
    q = X.divc(x, 64)
    want = {2: [X.add(X.divc(x, 64), 0xC0), X.add(X.modc(x, 64), 0x80)],
            3: [X.add(X.divc(x, 4096), 0xE0), X.add(X.modc(q, 64), 0x80), X.add(X.modc(x, 64), 0x80)],
            4: [X.add(X.divc(x, 262144), 0xF0), X.add(X.modc(X.divc(x, 4096), 64), 0x80),
                X.add(X.modc(q, 64), 0x80), X.add(X.modc(x, 64), 0x80)]}[len(e)]
    if all(a.key() == b.key() for a, b in zip(e, want)):
        return x
    return None


def decode(b, enc='utf-8', errors='strict'):
    n = name(enc)
    e = V.els(b)
    if n == 'iso8859-1':
        return V.mkstr(e)
    if n == 'ascii':
        if branch(X.cand([X.inset(x, V.ASCII) for x in e])):
            return V.mkstr(e)
        if errors == 'strict':
            raise UnicodeDecodeError('ascii', b'?' * len(e), 0, 1, 'ordinal not in range(128)')
        out = []
        for x in e:
            if branch(X.inset(x, V.ASCII)):
                out.append(x)
            elif errors == 'replace':
                out.append(0xFFFD)
            elif errors == 'surrogateescape':
                out.append(X.simp(X.add(x, 0xDC00)))
        return V.mkstr(out)
    if n == 'utf-8':
        return V.mkstr(utf8_decode(list(e), errors))
    c = b if isinstance(b, bytes) and not isinstance(b, V.Sym) else V.SymBytes(e).conc()
    return c.decode(enc, errors)


CONT = ((0x80, 0xBF),)
# (lead set, number of continuation bytes, allowed second byte)
FORMS = ((((0xC2, 0xDF),), 1, CONT), (((0xE0, 0xE0),), 2, ((0xA0, 0xBF),)), (((0xE1, 0xEC), (0xEE, 0xEF)), 2, CONT),
         (((0xED, 0xED),), 2, ((0x80, 0x9F),)), (((0xF0, 0xF0),), 3, ((0x90, 0xBF),)), (((0xF1, 0xF3),), 3, CONT),
         (((0xF4, 0xF4),), 3, ((0x80, 0x8F),)))
LEADS = ((0xC2, 0xF4),)


def utf8_decode(e, errors):
    out = []
    i, n = 0, len(e)
    while i < n:
        x = e[i]
        done = False
        for ln in (2, 3, 4):
            if i + ln <= n:
                s = _src(e[i:i + ln])
                if s is not None:
                    out.append(s if not isinstance(s, X.Lin) else X.simp(s))
                    i += ln
                    done = True
                    break
        if done:
            continue
        if branch(X.inset(x, V.ASCII)):
            out.append(x)
            i += 1
            continue
        bad, why = 1, 'invalid start byte'
        if branch(X.inset(x, LEADS)):
            for lead, cnt, second in FORMS:
                if not branch(X.inset(x, lead)):
                    continue
                k = 1
                ok = True
                while k <= cnt:
                    if i + k >= n:
                        ok, why = False, 'unexpected end of data'
                        break
                    if not branch(X.inset(e[i + k], second if k == 1 else CONT)):
                        ok, why = False, 'invalid continuation byte'
                        break
                    k += 1
                if ok:
                    base = {1: 0xC0, 2: 0xE0, 3: 0xF0}[cnt]
                    v = X.add(X.lin(x), -base)
                    for j in range(1, cnt + 1):
                        v = X.add(X.scale(v, 64), X.add(X.lin(e[i + j]), -0x80))
                    out.append(X.simp(v))
                    i += cnt + 1
                    done = True
                bad = k
                break
            if done:
                continue
        if errors == 'strict':
            raise UnicodeDecodeError('utf-8', b'?' * n, i, i + bad, why)
        if errors == 'replace':
            out.append(0xFFFD)
        elif errors == 'surrogateescape':
            for y in e[i:i + bad]:
                out.append(X.simp(X.add(X.lin(y), 0xDC00)))
        elif errors == 'ignore':
            pass
        else:
            raise UnicodeDecodeError('utf-8', b'?' * n, i, i + bad, why)
        i += bad
    return out
