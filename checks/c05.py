"""C05: chunked transfer decoding is exact and rejects every truncation."""
from ombott import Ombott
from checks.util import environ, call

DEC = b'0123456789'
HEX = b'0123456789abcdefABCDEF'


def setup(symbolic):
    pass


class Frag:
    """wsgi.input over a byte string; the first `free` reads of more than one byte return any part of what was asked for"""
    def __init__(self, cx, data, free, reads, hi):
        self.cx, self.data, self.free, self.max, self.hi = cx, data, free, reads, hi
        self.big = 0
        self.eofs = 0

    def read(self, n=-1):
        cx = self.cx
        cx.check(n is not None and n >= 0, 'unbounded read of the stream')
        if n == 1:
            k = 1
        else:
            avail = len(self.data)
            k = n if n < avail else avail
            self.big += 1
            if self.big > self.max:
                cx.assume(False)
            if self.big <= self.free and k > 1:
                top = k
                k = cx.int('k', 1, self.hi)
                cx.assume(k <= top)
        r = self.data[:k]
        self.data = self.data[k:]
        return r

    def _no(self, *a):
        self.cx.fail('the stream is not read through read(n)')
        return b''
    readline = readlines = __iter__ = _no


HI = 1 << 16
EXT = ['', ';a=b', ';', ';a="x\n"', ';\r;x', ' ', '; 7=;5']
END = ['', '\r\n', 'T: x\r\n\r\n', 'garbage']
TE = ['chunked', 'Chunked', 'gzip, chunked', 'CHUNKED']


def cases(tier):
    deep = tier != 'quick'
    out = []
    # legal encodings: chunk sizes, payloads, buffer size and fragments are variables
    for digits in [[], [1], [2], [1, 1], [2, 3], [4, 1]] + ([[1, 1, 1], [3, 2, 1], [5]] if deep else [[1, 2, 1]]):
        for i, ext in enumerate(EXT):
            if not deep and len(digits) > 1 and i not in (0, 1, 4):
                continue
            out.append({'kind': 'legal', 'digits': digits, 'ext': ext, 'end': END[i % len(END)], 'te': TE[i % len(TE)],
                        'free': 2 if i < 2 and len(digits) < 2 or deep and len(digits) < 3 else 1,
                        'reads': len(digits) + (2 if len(digits) < (3 if deep else 2) else 1), 'zeros': i % 3 + 1, 'cl': i == 1,
                        'free_hex': 0 if len(digits) < 2 or i < 1 and sum(digits) < 5 else -1})
    # cut at any place before the terminating chunk is complete
    for digits in [[], [1], [2, 1], [1, 1, 1]] + ([[4, 3]] if deep else []):
        for ext in EXT[:2] + EXT[4:5] if deep or len(digits) < 3 else EXT[:1]:
            out.append({'kind': 'cut', 'digits': digits, 'ext': ext, 'end': '', 'te': TE[0], 'free': 1, 'reads': len(digits) + (2 if deep else 1),
                        'zeros': 1, 'cl': False, 'free_hex': 0 if digits == [1] else -1})
    # one byte of the framing replaced by any other
    for sizes in [[1], [2], [1, 1], [11], [3, 1]] + ([[2, 2], [17], [1, 2, 1]] if deep else []):
        for ext in ('', ';e'):
            out.append({'kind': 'corrupt', 'sizes': sizes, 'ext': ext})
    # any bytes at all
    for n in range(0, 8 if deep else 7):
        out.append({'kind': 'any', 'head': '', 'n': n})
    for head in ('1\r\n', '1\r\nx', '2\r\nab\r\n', '1;', '0001\r\n', '1\r\nx\r\n0', '1\r\nx\r\n0;', 'A\r\n0123456789'):
        out.append({'kind': 'any', 'head': head, 'n': 6 if deep else 5})
    return out


def serve(cx, stream, buf, te, cl=None):
    app = Ombott({'max_memfile_size': buf})
    got = []

    def handler():
        rq = app.request
        try:
            got.append(rq.body.read())
        except Exception as e:
            # a broken body stays broken
            try:
                b = rq.body.read()
            except Exception:
                raise e
            cx.fail('a body is presented after its decoding failed')
            return 'again'
        got.append(rq.body.read())
        return 'ok'
    app.route('/', method='POST', callback=handler)
    kw = {'HTTP_TRANSFER_ENCODING': te, 'CONTENT_TYPE': 'application/octet-stream'}
    if cl is not None:
        kw['CONTENT_LENGTH'] = cl
    r = call(app, environ(method='POST', body=stream, **kw))
    cx.obs('status', r.status)
    return r, got


def encode(cx, case, hi):
    """(parts of the encoding, payloads, longest size line)"""
    out, pay, line = [], [], 3
    ext = case['ext'].encode()
    for i, d in enumerate(case['digits']):
        t = cx.bytes('size', d, HEX if i == case.get('free_hex', 0) else DEC)
        n = int(t, 16)
        cx.assume(n >= 1)
        p = cx.blob('chunk%d' % i, 1, hi)
        cx.assume(len(p) == n)
        out += [t + ext + b'\r\n', p, b'\r\n']
        pay.append(p)
        line = max(line, d + len(ext) + 2)
    z = case['zeros']
    out.append(b'0' * z + ext + b'\r\n')
    line = max(line, z + len(ext) + 2)
    return out, pay, line


def join(parts):
    r = b''
    for p in parts:
        r = r + p
    return r


def decode(s, buf):
    """reference: (body | None, strict) ; None = has to be refused; strict False = may be refused as well"""
    out = b''
    pos = 0
    while True:
        e = s.find(b'\r\n', pos)
        if e < 0:
            return None, True
        if e + 2 - pos > buf:
            return None, False
        t = s[pos:e]
        q = t.find(b';')
        if q >= 0:
            t = t[:q]
        if not t or len(t.strip(HEX)) > 0:
            return None, False          # garbage
        n = int(t, 16)
        pos = e + 2
        if n == 0:
            return out, True
        if pos + n > len(s):
            return None, True
        k = 0
        while k < n:
            k += 1
        n = k
        out += s[pos:pos + n]
        pos += n
        if s[pos:pos + 2] != b'\r\n':
            return None, True
        pos += 2


def run(cx, case):
    kind = case['kind']
    if kind == 'legal' or kind == 'cut':
        parts, pay, line = encode(cx, case, HI)
        buf = cx.int('buf', line, HI)
        whole = join(parts)
        if kind == 'cut':
            cut = cx.int('cut', 0, HI * 5)
            cx.assume(cut < len(whole))
            stream = Frag(cx, whole[:cut], case['free'], case['reads'], HI)
            r, got = serve(cx, stream, buf, case['te'])
            cx.check(400 <= r.code < 500, 'a truncated chunked body is not refused as a client error')
            cx.check(not got, 'a truncated chunked body is presented')
            cx.reach('cut')
            return
        end = case['end'].encode()
        stream = Frag(cx, whole + end, case['free'], case['reads'], HI)
        r, got = serve(cx, stream, buf, case['te'], '2' if case['cl'] else None)
        cx.check(r.code == 200, 'a legal chunked body is refused')
        want = join(pay)
        for g in got:
            cx.check(g == want, 'the body is not the concatenation of the chunks')
        cx.reach('legal')
        if len(want) > buf:
            cx.reach('spilled')
        return
    if kind == 'corrupt':
        data = b''
        frame = []
        sep = []
        for n in case['sizes']:
            for part, fr in ((b'%x' % n + case['ext'].encode() + b'\r\n', True), (cx.bytes('d', n) if n < 3 else b'abcdefghijklmnopq'[:n], False),
                             (b'\r\n', True)):
                if fr:
                    frame += range(len(data), len(data) + len(part))
                    if part == b'\r\n':
                        sep += frame[-2:]
                data += part
        part = b'0' + case['ext'].encode() + b'\r\n'
        frame += range(len(data), len(data) + len(part))
        data += part
        at = cx.choice('at', frame)
        c = cx.bytes('c', 1)
        cx.assume(c != data[at:at + 1])
        data = data[:at] + c + data[at + 1:]
        cx.reach('corrupt')
    else:
        data = case['head'].encode() + cx.bytes('s', case['n'])
        at, sep = -1, ()
        cx.reach('any')
    buf = 64
    stream = Frag(cx, data, 0, 999, 64)
    r, got = serve(cx, stream, buf, 'chunked')
    cx.check(r.code == 200 or 400 <= r.code < 500, 'broken framing is not answered with a client error')
    want, strict = decode(data, buf)
    if at in sep:
        cx.check(want is None and strict, 'reference')
    if strict:
        if want is None:
            cx.check(r.code != 200, 'a truncated or unseparated chunked body is accepted')
        else:
            cx.check(r.code == 200, 'a legal chunked body is refused')
            cx.reach('still legal')
    if want is not None and r.code == 200:
        for g in got:
            cx.check(g == want, 'the body is not the concatenation of the chunks')


WITNESSES = ('legal', 'spilled', 'cut', 'corrupt', 'any', 'still legal')
ASSUMPTIONS = ['a chunk size line (with extension and CRLF) fits into the buffer size (the bound the reader documents; longer lines may be refused)',
               'the terminating chunk is complete with the CRLF of its size line (trailers and final CRLF are optional)',
               'garbage in a size line may be accepted or refused',
               'legal and cut cases: payload bytes are copied only']


def BOUNDS(tier):
    return ('encodings of 0-%d chunks with sizes of 1-%d arbitrary hex digits, extensions, trailers, any buffer size and fragments (variables up to 65536); '
            'every cut position (variable); every framing byte replaced by any byte; all byte strings of length 0-%d and after 8 prefixes'
            % ((3, 5, 7) if tier != 'quick' else (3, 4, 6)))
