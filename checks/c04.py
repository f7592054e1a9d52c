"""C04: Content-Length bodies arrive byte-exact under any read fragmentation."""
from ombott import Ombott
from checks.util import environ, call


def setup(symbolic):
    pass


class Frag:
    """wsgi.input that answers every read with any non-empty part of what was asked for and nothing at the end;
    at most `reads` reads (the ones after the first `free` are full)"""
    def __init__(self, cx, data, limit, free, reads, hi):
        self.cx, self.data, self.limit, self.free, self.max, self.hi = cx, data, limit, free, reads, hi
        self.pos = 0
        self.reads = 0

    def read(self, n=-1):
        cx = self.cx
        self.reads += 1
        if self.reads > self.max:
            cx.assume(False)
        cx.check(n is not None and n >= 0, 'unbounded read of the stream')
        cx.check(n <= self.limit - self.pos, 'the stream is read beyond Content-Length')
        avail = len(self.data) - self.pos
        top = n if n < avail else avail
        if top <= 0:
            return b''
        k = top
        if self.reads <= self.free:
            k = cx.int('k', 1, self.hi)
            cx.assume(k <= top)
        r = self.data[self.pos:self.pos + k]
        self.pos = self.pos + k
        return r

    def _no(self, *a):
        self.cx.fail('the stream is not read through read(n)')
        return b''
    readline = readlines = __iter__ = _no


HI = 1 << 20


def cases(tier):
    deep = tier != 'quick'
    out = []
    # lengths, Content-Length, buffer size and fragments are all variables
    for free, reads in [(0, 6), (1, 6), (2, 6), (3, 6), (5, 6)] + ([(0, 12), (3, 8), (6, 8), (7, 7)] if deep else []):
        out.append({'kind': 'blob', 'free': free, 'reads': reads, 'how': 'body'})
    out.append({'kind': 'blob', 'free': 1, 'reads': 3, 'how': 'twice'})
    out.append({'kind': 'blob', 'free': 1, 'reads': 3, 'how': 'input'})
    out.append({'kind': 'blob', 'free': 1, 'reads': 3, 'how': 'parts'})
    for n in range(0, 8 if deep else 6):
        out.append({'kind': 'bytes', 'n': n, 'how': 'body'})
    out.append({'kind': 'nocl', 'n': 3, 'how': 'body'})
    return out


def run(cx, case):
    how = case['how']
    kw = {'CONTENT_TYPE': 'application/octet-stream'}
    if case['kind'] == 'blob':
        data = cx.blob('data', 0, HI)
        cl = cx.int('cl', 0, HI)
        buf = cx.int('buf', 1, HI)
        stream = Frag(cx, data, cl, case['free'], case['reads'], HI)
    elif case['kind'] == 'bytes':
        n = case['n']
        data = cx.bytes('data', n)
        cl = cx.int('cl', 0, n + 2)
        buf = cx.int('buf', 1, n + 2)
        stream = Frag(cx, data, cl, 99, 99, max(n, 1))
    else:
        data = cx.bytes('data', case['n'])
        cl = 0
        buf = 8
        stream = Frag(cx, data, 0, 99, 99, 1)
    if case['kind'] != 'nocl':
        kw['CONTENT_LENGTH'] = str(cl)
    app = Ombott({'max_memfile_size': buf})
    got = []

    def handler():
        rq = app.request
        if how == 'parts':
            b = rq.body
            a = b.read(3)
            got.append(a + b.read(2) + b.read())
            return 'ok'
        got.append(rq.body.read())
        if how == 'twice':
            rq.body.read(1)
            got.append(rq.body.read())
        elif how == 'input':
            b = rq.environ['wsgi.input']
            b.seek(0)
            got.append(b.read())
        return 'ok'
    app.route('/', method='POST', callback=handler)
    env = environ(method='POST', body=stream, **kw)
    r = call(app, env)
    cx.check(r.code == 200, 'a Content-Length body is not accepted')
    want = data[:cl]
    cx.obs('len', len(want))
    for g in got:
        cx.check(g == want, 'the body is not the first Content-Length bytes of the stream')
    cx.check(len(got) > 0, 'no body')
    cx.obs('reads', stream.reads)
    if len(want) > buf:
        cx.reach('spilled')
    if len(data) > cl:
        cx.reach('more data than Content-Length')
    if len(data) < cl:
        cx.reach('less data than Content-Length')
    if stream.reads >= 3:
        cx.reach('three reads')


WITNESSES = ('spilled', 'more data than Content-Length', 'less data than Content-Length', 'three reads')
ASSUMPTIONS = ['a read that asks for n>0 bytes returns between 1 and n bytes, or nothing at the end of the data',
               'blob cases: the content is copied only, never inspected by the code (an inspected byte would be an engine error)',
               'temporary files and BytesIO are modelled as exact byte stores; replays use the real ones']


def BOUNDS(tier):
    return ('any body, Content-Length, buffer size and fragment sizes up to 2^20 bytes with up to %d stream reads (lengths are solver variables); '
            'bodies of 0-%d arbitrary bytes with every fragmentation of every read' % (12 if tier != 'quick' else 6, 7 if tier != 'quick' else 5))
