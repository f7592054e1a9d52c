"""C13: body size limits and disk spooling bound what a request can consume."""
import io
from ombott import Ombott
from checks.util import environ, call


def setup(symbolic):
    pass


class Frag:
    """recording wsgi.input; the first `free` reads return any part of what was asked for"""
    def __init__(self, cx, data, free, reads, hi):
        self.cx, self.data, self.free, self.max, self.hi = cx, data, free, reads, hi
        self.big = 0
        self.taken = 0

    def read(self, n=-1):
        cx = self.cx
        cx.check(n is not None and n >= 0, 'unbounded read of the stream')
        if n == 1 and self.hi > 1000:
            k = 1
        else:
            avail = len(self.data)
            k = n if n < avail else avail
            self.big += 1
            if self.big > self.max:
                cx.assume(False)
            if self.big <= self.free and k > 1:
                top = k
                k = cx.int('k', 1, self.hi)
                cx.assume(k <= top)
        r = self.data[:k]
        self.data = self.data[k:]
        self.taken = self.taken + len(r)
        return r

    def _no(self, *a):
        self.cx.fail('the stream is not read through read(n)')
        return b''
    readline = readlines = __iter__ = _no


HI = 1 << 16
DEC = b'0123456789'


def cases(tier):
    deep = tier != 'quick'
    out = []
    for free, reads in [(0, 5), (1, 5), (3, 4)] + ([(0, 10), (4, 6)] if deep else []):
        for lim in (True, False):
            out.append({'kind': 'cl', 'free': free, 'reads': reads, 'limit': lim})
    for digits in [[1], [2], [4], [1, 1]] + ([[2, 3], [1, 1, 1]] if deep else []):
        for free in (0, 1):
            for lim in (True, False):
                out.append({'kind': 'chunked', 'digits': digits, 'free': free, 'reads': len(digits) + 3 - (len(digits) > 1 and not deep) + (deep and len(digits) < 2), 'limit': lim})
    for ct in ('application/x-www-form-urlencoded', 'application/json', 'text/plain', ''):
        for how in ('forms', 'json') if ct == 'application/json' else ('forms', 'POST', 'files', 'params'):
            out.append({'kind': 'bigform', 'ct': ct, 'how': how, 'reads': 4 if deep else 3, 'digits': 0})
            out.append({'kind': 'bigform', 'ct': ct, 'how': how, 'reads': 4 if deep else 3, 'digits': 4})
    for n in range(0, 8 if deep else 6):
        for ch in (False, True):
            out.append({'kind': 'form', 'ct': 'application/x-www-form-urlencoded', 'n': n, 'chunked': ch})
            out.append({'kind': 'form', 'ct': 'application/json', 'n': n, 'chunked': ch})
    for shape in [[('t', 5)], [('t', 30), ('t', 30)], [('t', 1), ('t', 1), ('t', 1), ('t', 1)], [('f', 300)], [('f', 300), ('t', 20)],
                  [('t', 20), ('f', 200), ('t', 25)], [('t', 0), ('t', 90)], [('f', 0), ('f', 9), ('t', 60)]]:
        for ch in (False, True):
            out.append({'kind': 'multipart', 'shape': shape, 'chunked': ch})
    return out


def app_for(cx, mem, limit, how, out):
    app = Ombott({'max_memfile_size': mem, 'max_body_size': limit})

    def handler():
        rq = app.request
        if how == 'body':
            b = rq.body
            out['memory'] = isinstance(b, io.BytesIO)
            out['body'] = b.read()
        else:
            out['form'] = getattr(rq, how)
            if how == 'POST':
                out['forms'], out['files'] = rq.forms, rq.files
        return 'ok'
    app.route('/', method='POST', callback=handler)
    return app


def chunks(cx, digits, lo=1):
    parts, pay, frame = [], [], 3
    for i, d in enumerate(digits):
        t = cx.bytes('size', d, DEC if len(digits) > 1 else DEC + b'abcdef')
        n = int(t, 16)
        cx.assume(n >= 1)
        p = cx.blob('chunk%d' % i, 1, HI)
        cx.assume(len(p) == n)
        parts += [t + b'\r\n', p, b'\r\n']
        frame += d + 4
        pay.append(p)
    parts.append(b'0\r\n')
    return join(parts), join(pay), frame


def join(parts):
    r = b''
    for p in parts:
        r = r + p
    return r


def run(cx, case):
    kind = case['kind']
    out = {}
    kw = {}
    if kind in ('cl', 'chunked'):
        mem = cx.int('mem', 8, HI)
        limit = cx.int('limit', 0, HI) if case['limit'] else None
        frame = 0
        if kind == 'cl':
            data = cx.blob('data', 0, HI)
            enc = data
            kw['CONTENT_LENGTH'] = str(len(data))
        else:
            enc, data, frame = chunks(cx, case['digits'])
            kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
        st = Frag(cx, enc, case['free'], case['reads'], HI)
        app = app_for(cx, mem, limit, 'body', out)
        r = call(app, environ(method='POST', body=st, CONTENT_TYPE='application/octet-stream', **kw))
        if limit is not None and len(data) > limit:
            cx.check(r.code == 413, 'a body larger than the maximum is not refused with 413')
            cx.check(st.taken <= limit + mem + frame, 'more than the limit and one buffer is read from the stream')
            cx.reach('too large')
        else:
            cx.check(r.code == 200, 'a body within the limit is refused')
            cx.check(out['body'] == data, 'the body differs from what was sent')
            if len(data) > mem:
                cx.check(not out['memory'], 'a body larger than the threshold is kept in memory')
                cx.reach('spooled')
            if limit is not None and len(data) == limit:
                cx.reach('equal to the limit')
        return
    if kind == 'bigform':
        mem = cx.int('mem', 8, HI)
        if case['digits']:
            enc, data, frame = chunks(cx, [case['digits']])
            kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
        else:
            data = enc = cx.blob('data', 1, HI)
            kw['CONTENT_LENGTH'] = str(len(data))
        cx.assume(len(data) > mem)
        st = Frag(cx, enc, 0, case['reads'], HI)
        app = app_for(cx, mem, None, case['how'], out)
        r = call(app, environ(method='POST', body=st, CONTENT_TYPE=case['ct'], **kw))
        cx.check(r.code == 413, 'form text larger than the threshold is not refused')
        cx.check(not out, 'form text larger than the threshold is loaded')
        cx.reach('big form')
        return
    if kind == 'form':
        n = case['n']
        mem = cx.int('mem', 1, n + 3) if not case['chunked'] else cx.int('mem', 3, n + 3)
        if 'json' in case['ct']:
            if n == 0:
                return
            data = b'1' * n
            how, want = 'json', int(data)
        else:
            data = b'a=' + cx.bytes('v', n - 2, DEC) if n > 2 else b'a='[:n]
            how, want = 'forms', {'a': data[2:].decode()} if n else {}
        st = Frag(cx, data if not case['chunked'] else b'%x\r\n' % n + data + b'\r\n0\r\n' if n else b'0\r\n', 0, 999, 64)
        if case['chunked']:
            kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
            kw['CONTENT_LENGTH'] = '1'
        else:
            kw['CONTENT_LENGTH'] = str(n)
        app = app_for(cx, mem, None, how, out)
        r = call(app, environ(method='POST', body=st, CONTENT_TYPE=case['ct'], **kw))
        if n > mem:
            cx.check(r.code == 413, 'form text larger than the threshold is not refused')
            cx.reach('form refused')
        else:
            cx.check(r.code == 200, 'form text within the threshold is refused')
            cx.check(out['form'] == want, 'form text within the threshold differs')
            cx.reach('form accepted')
        return
    body = b''
    head = text = 0
    texts, files = [], []
    for i, (t, n) in enumerate(case['shape']):
        data = cx.bytes('v', 1, DEC) * min(n, 1) + b'x' * max(n - 1, 0)
        h = b'Content-Disposition: form-data; name="%c"' % (97 + i)
        if t == 'f':
            h += b'; filename="f"'
            files.append((chr(97 + i), data))
        else:
            text += n
            texts.append((chr(97 + i), data.decode()))
        head += len(h)
        body += b'--BB\r\n' + h + b'\r\n\r\n' + data + b'\r\n'
    body += b'--BB--\r\n'
    edge = [1, 4, 8, text - 1, text, text + 1, head, head + text - 1, head + text, head + text + 1, head + text + 9, len(body), len(body) + 1]
    mem = cx.choice('mem', sorted(set(x for x in edge if x > 0 and (x > 3 or not case['chunked']))))
    if case['chunked']:
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
        k = len(body) // 2
        body = b'%x\r\n' % k + body[:k] + b'\r\n%x\r\n' % (len(body) - k) + body[k:] + b'\r\n0\r\n\r\n'
    else:
        kw['CONTENT_LENGTH'] = str(len(body))
    if mem > 200 and mem < len(body):
        cx.reach('multipart spooled')
    app = app_for(cx, mem, None, 'POST', out)
    st = Frag(cx, body, 0, 99999, 64)
    r = call(app, environ(method='POST', body=st, CONTENT_TYPE='multipart/form-data; boundary=BB', **kw))
    if text > mem:
        cx.check(r.code == 413, 'multipart text larger than the threshold is not refused')
        cx.reach('multipart text refused')
    elif head + text <= mem:
        cx.check(r.code == 200, 'a multipart form with little text is refused')
        cx.check(out['forms'] == dict(texts), 'multipart texts differ')
        cx.check(sorted(out['files']) == [n for n, d in files], 'multipart files')
        for n, d in files:
            cx.check(out['files'][n].file.read() == d, 'multipart file content differs')
        if len(body) > mem:
            cx.reach('multipart on disk')
    else:
        cx.check(r.code == 200 or r.code == 413, 'multipart form')


WITNESSES = ('too large', 'spooled', 'equal to the limit', 'big form', 'form refused', 'form accepted', 'multipart text refused', 'multipart on disk')
ASSUMPTIONS = ['framing bytes of a chunked body are not counted against the limit (the encodings have at most 3 chunks)',
               'kept on disk: Request.body is not an io.BytesIO (temporary files are modelled; replays use real ones)',
               'multipart: the threshold counts text and may count part headers']


def BOUNDS(tier):
    return ('limit, threshold, body size and fragments are variables up to 65536 with up to %d stream reads, chunked with 1-%d chunks; forms of 0-%d bytes with '
            'every threshold; 8 multipart shapes with every threshold at the edges' % ((10, 3, 7) if tier != 'quick' else (5, 2, 5)))
