"""C03: exactly one well-formed WSGI response for every handler outcome; hook lifecycle; closing."""
from ombott.ombott import Ombott
from ombott.response import HTTPResponse, HTTPError
from checks import util

TEXT = ((0, 0x24F), (0x20AC, 0x20AF), (0x1F600, 0x1F603))
SMALL = ((0x61, 0x7A), (0xE9, 0xEA))
ERRPAGE = object()
ANY = object()
TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Boom(Exception):
    pass


class It:
    """closable iterable of given items; an exception instance marked by Raise is raised"""
    def __init__(self, items, log):
        self.items = items
        self.i = 0
        self.closed = 0
        log.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        x = self.items[self.i - 1]
        if isinstance(x, Raise):
            raise x.exc
        return x

    def close(self):
        self.closed += 1


class BadIter(It):
    def __iter__(self):
        raise Boom('iter')


class Raise:
    def __init__(self, exc):
        self.exc = exc


class File:
    """file-like object"""
    def __init__(self, data, log):
        self.data = data
        self.pos = 0
        self.closed = 0
        log.append(self)

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        r = self.data[self.pos:self.pos + n]
        self.pos += len(r)
        return r


class FileC(File):
    def close(self):
        self.closed += 1


class FileI(File):
    def __iter__(self):
        return self

    def __next__(self):
        r = self.read(1)
        if not r:
            raise StopIteration
        return r


class FileCI(FileI):
    def close(self):
        self.closed += 1


class FileWrapper:
    """wsgi.file_wrapper of a server"""
    def __init__(self, f, block=8192):
        self.f = f

    def __iter__(self):
        while 1:
            r = self.f.read(1)
            if not r:
                return
            yield r

    def close(self):
        if hasattr(self.f, 'close'):
            self.f.close()


class Spec:
    """what the client has to see: code (None: as set on the response object), body (bytes or ERRPAGE), closable delivering the body"""
    def __init__(self, code, body, src=None):
        self.code = code
        self.body = body
        self.src = src


def utf8(s):
    return s.encode('utf8')


def falsy(cx):
    return cx.choice('falsy', [None, '', b'', False, 0, [], {}, ()])


def text(cx, st):
    return cx.str('s', (0, 2) if not st.small else (0, 1), TEXT)


def empties(cx, kind, st):
    e = '' if kind == 'str' else b''
    n = cx.choice('empties', [0, 2] if st.small else [0, 1, 2])
    if st.small:
        return [e] * n
    out = [e] * n
    if n == 2:
        out[1] = cx.choice('empty', [e, None, []])
    return out


def chunks(cx, kind, st):
    n = 2 if st.small else cx.choice('chunks', [1, 2])
    out = []
    for i in range(n):
        if kind == 'str':
            c = cx.str('c', 1, TEXT if not st.small else SMALL)
        else:
            c = cx.bytes('c', 1)
        out.append(c)
        if i == 0 and n == 2 and not st.small and cx.flag('mid'):
            out.append(c[:0])
    return out


def joined(cs, kind):
    return b''.join([utf8(c) for c in cs] if kind == 'str' else cs)


def program(cx, kind, st):
    """-> (thunk producing or raising the outcome, Spec)"""
    log = st.log
    if kind == 'falsy':
        v = falsy(cx)
        return (lambda: v), Spec(None, b'')
    if kind == 'str':
        v = text(cx, st)
        return (lambda: v), Spec(None, utf8(v))
    if kind == 'bytes':
        v = cx.bytes('b', (0, 3))
        return (lambda: v), Spec(None, v)
    if kind in ('seq_str', 'seq_bytes'):
        k = kind[4:]
        cs = chunks(cx, k, st)
        items = empties(cx, k, st) + cs
        how = cx.choice('how', ['it', 'list', 'tuple', 'gen', 'iter'] if not st.small else ['it', 'list', 'gen'])
        if how == 'it':
            v = It(items, log)
        elif how == 'list':
            v = items
        elif how == 'tuple':
            v = tuple(items)
        elif how == 'gen':
            v = st.gen(items)
        else:
            v = iter(items)
        return (lambda: v), Spec(None, joined(cs, k), v if how == 'it' else st if how == 'gen' else None)
    if kind == 'seq_empty':
        v = It(empties(cx, 'str', st), log)
        return (lambda: v), Spec(None, b'')
    if kind in ('seq_exc', 'seq_raise', 'seq_yield'):
        if kind == 'seq_exc':
            x, spec = Raise(cx.choice('exc', [Boom('x'), KeyError('k'), AttributeError('a'), TypeError('t')] if not st.small else [Boom('x'), AttributeError('a')])), Spec(500, ERRPAGE)
        else:
            th, spec = program(cx, st.next(cx), st)
            x = th() if kind == 'seq_yield' else Raise(th())
        v = It(empties(cx, cx.choice('ek', ['str', 'bytes'] if not st.small else ['str']), st) + [x], log)
        return (lambda: v), spec
    if kind == 'seq_odd':
        x = cx.choice('odd', [7, 1.5, object, {'a': 1}, [b'x'], ('a',)])
        v = cx.choice('wrap', [0, 1])
        v = It([x], log) if v else ['', x]
        return (lambda: v), Spec(500, ERRPAGE)
    if kind == 'odd':
        v = cx.choice('odd', [7, 1.5, object(), True])
        return (lambda: v), Spec(500, ERRPAGE)
    if kind == 'bad_iter':
        v = BadIter([b'x'], log)
        return (lambda: v), Spec(500, ERRPAGE)
    if kind == 'file':
        data = cx.bytes('f', (0, 2))
        cls = cx.choice('fcls', [File, FileC, FileI, FileCI])
        v = cls(data, log)
        return (lambda: v), Spec(None, data, v if hasattr(v, 'close') else None)
    if kind in ('resp', 'raise_resp'):
        status = status_of(cx, st, 'status')
        th, spec = program(cx, st.next(cx), st)
        v = HTTPResponse(th(), status)
        code = status if spec.code is None else spec.code
        spec = Spec(code, spec.body, spec.src)
    elif kind in ('err', 'raise_err'):
        status = cx.int('status', *cx.choice('erange', [(503, 503)] if st.fixed else [(400, 599)] if st.full else [(404, 404), (500, 501), (599, 599)]))
        v = HTTPError(status, cx.choice('ebody', ['text', None, '<b>']))
        spec = Spec(status, ERRPAGE)
    elif kind in ('exc',):
        e = cx.choice('exc', [Boom('x'), KeyError('k'), StopIteration('s'), AttributeError('a'), RecursionError()])

        def th():
            raise e
        return th, Spec(500, ERRPAGE)
    elif kind == 'self':
        v = HTTPResponse('', 200)
        v.body = v
        return (lambda: v), Spec(500, ERRPAGE)
    else:
        raise AssertionError(kind)
    if kind.startswith('raise_'):
        def th():
            raise v
        return th, spec
    return (lambda: v), spec


FEW = [(100, 101), (104, 201), (204, 205), (304, 306), (999, 999)]


def status_of(cx, st, name):
    if st.full:
        return cx.int(name, 100, 999)
    return cx.int(name, *cx.choice(name + '.range', [(200, 200)] if st.fixed else FEW if len(st.chain) < 2 else [(150, 150), (200, 200), (304, 304)]))


class State:
    full = fixed = False

    def __init__(self, chain, small=True):
        self.small = small or len(chain) > 1
        self.log = []
        self.chain = list(chain)
        self.closed = 0

    def next(self, cx):
        return self.chain.pop(0) if self.chain else 'str'

    def gen(self, items):
        try:
            for i in items:
                yield i
        finally:
            self.closed += 1


LEAVES = ['falsy', 'str', 'bytes', 'seq_str', 'seq_bytes', 'seq_empty', 'seq_exc', 'seq_odd', 'odd', 'bad_iter', 'file', 'self']
RESP = ['resp', 'err']
METHODS = ['GET', 'HEAD', 'hEAD', 'POST']


def chains(deep):
    out = []
    for k in LEAVES + ['exc', 'err', 'raise_err']:
        out.append([k])
    for k in ('resp', 'raise_resp'):
        for c in LEAVES + ['err']:
            out.append([k, c])
        for c in LEAVES if deep else ('str', 'seq_bytes', 'file', 'seq_exc'):
            out.append([k, 'resp', c])
    for k in ('seq_yield', 'seq_raise'):
        for c in RESP:
            for d in (LEAVES if deep else ('str', 'falsy', 'seq_str', 'file', 'seq_exc')) if c == 'resp' else ('',):
                out.append([k, c] + ([d] if d else []))
    for k in ('seq_yield', 'seq_raise'):
        out.append([k, 'resp', k, 'resp', 'seq_str'])
        out.append([k, 'resp', k, 'err'])
    return out


def cases(tier):
    deep = tier != 'quick'
    out = []
    for ch in chains(deep):
        out.append({'kind': 'outcome', 'chain': ch})
    for ch in LEAVES:
        out.append({'kind': 'setstatus', 'chain': [ch]})
    for ch in ('str', 'seq_bytes', 'falsy') if not deep else LEAVES:
        out.append({'kind': 'setstatus', 'chain': [ch], 'full': 1})
        out.append({'kind': 'outcome', 'chain': ['resp', ch], 'full': 1})
    out.append({'kind': 'outcome', 'chain': ['err'], 'full': 1})
    for eh in LEAVES + ['exc', 'resp', 'raise_resp', 'err']:
        for ch in (['err'], ['exc'], ['seq_exc'], ['resp', 'err']) if deep else (['err'], ['seq_exc']):
            out.append({'kind': 'handler', 'chain': ch, 'eh': eh})
    for what in ('ok', '404', '405', 'exc', 'raise_resp', 'raise_err', 'seq_exc', 'file', 'badpath', 'reroute'):
        for n in (2, 3) if deep or what in ('ok', '404', 'exc') else (2,):
            out.append({'kind': 'hooks', 'what': what, 'n': n})
    for n in range(4, 8 if deep else 7):
        out.append({'kind': 'statusline', 'n': n})
    for fault in ('headers', 'start', 'charset', 'unencodable', 'close'):
        out.append({'kind': 'fault', 'fault': fault})
    for ch in (['seq_str'], ['str'], ['file'], ['exc'], ['resp', 'seq_bytes']):
        out.append({'kind': 'own_cl', 'chain': ch})
        out.append({'kind': 'noenv', 'chain': ch})
    out.append({'kind': 'twice', 'chain': ['str']})
    return out


def setup(symbolic):
    pass


def wellformed(cx, r):
    cx.check(len(r.started) == 1, 'start_response is not called exactly once')
    if len(r.started) != 1:
        return False
    s = r.status
    ok = isinstance(s, str) and len(s) >= 5 and s[:3].isascii() and s[:3].isdigit() and s[3] == ' ' and len(s[4:].strip()) > 0
    cx.check(ok, 'malformed status line')
    if not ok:
        return False
    for c in s:
        cx.check(' ' <= c and c != '\x7f' and c <= '\xff', 'status line is not wire-safe')
    cx.check(isinstance(r.headers, list), 'header list')
    for h in r.headers:
        cx.check(isinstance(h, tuple) and len(h) == 2, 'header list')
        k, v = h
        cx.check(isinstance(k, str) and isinstance(v, str), 'header is not a string')
        cx.check(len(k) > 0 and all(c in TOKEN for c in k), 'header name')
        cx.check('\n' not in v and '\r' not in v and '\0' not in v, 'header value')
        cx.check(k.lower() != 'status', 'Status header')
    for c in r.chunks:
        cx.check(isinstance(c, bytes), 'a chunk is not a byte string')
    return True


def is_head(method):
    return method.upper() == 'HEAD'


def judge(cx, r, spec, st, method, own_cl=False, code=200):
    """the response against what the outcome calls for"""
    if not wellformed(cx, r):
        return
    code = spec.code if spec.code is not None else code
    cx.obs('status', r.status)
    cx.obs('chunks', r.chunks if spec.body is not ERRPAGE and spec.body is not ANY else len(r.chunks))
    cx.check(r.code == code, 'status code')
    body = r.body
    bodiless = code < 200 or code == 204 or code == 304 or is_head(method)
    if bodiless:
        cx.check(len(body) == 0, 'a body where none is allowed')
        cx.reach('bodiless')
    elif spec.body is ANY:
        pass
    elif spec.body is ERRPAGE:
        cx.check(len(body) > 0, 'error page is empty')
        cx.reach('errpage')
    else:
        cx.check(body == spec.body, 'body differs from what the handler produced')
        cx.reach('body')
    if not bodiless and not own_cl:
        cl = r.header('Content-Length')
        cx.check(len(cl) <= 1, 'Content-Length twice')
        if cl:
            cx.check(int(cl[0]) == len(body), 'Content-Length is not the number of bytes')
            cx.reach('cl')
    for o in st.log:
        cx.check(o.closed <= 1, 'an iterable is closed twice')
        if o is spec.src:
            cx.check(o.closed == 1, 'an iterable that produced output is not closed')
            cx.reach('closed')
    if spec.src is st:
        cx.check(st.closed == 1, 'a generator that produced output is not finished')
        cx.reach('closed')


def mkenv(cx, method, wrapper=None):
    kw = {}
    if wrapper if wrapper is not None else cx.flag('wrapper'):
        kw['wsgi.file_wrapper'] = FileWrapper
    return util.environ('/x', method, **kw)


def run(cx, case):
    globals()['k_' + case['kind']](cx, case)


def k_outcome(cx, case):
    st = State(case['chain'], case.get('full'))
    st.full = case.get('full')
    th, spec = program(cx, st.next(cx), st)
    method = cx.choice('method', METHODS[:3] if not st.full else METHODS[:2])
    app = Ombott()
    app.add_route('/x', ['GET', 'POST'], lambda: th())
    r = util.call(app, mkenv(cx, method, None if 'file' in case['chain'] else False))
    judge(cx, r, spec, st, method)


def k_setstatus(cx, case):
    st = State(case['chain'])
    th, spec = program(cx, st.next(cx), st)
    method = cx.choice('method', METHODS[:2])
    st.full = case.get('full')
    status = status_of(cx, st, 'st')
    app = Ombott()

    def h():
        app.response.status = status
        return th()
    app.add_route('/x', ['GET', 'POST'], h)
    r = util.call(app, mkenv(cx, method, False))
    judge(cx, r, spec, st, method, code=status)


def k_handler(cx, case):
    """a custom error handler"""
    st = State(case['chain'])
    th, spec = program(cx, st.next(cx), st)
    method = cx.choice('method', METHODS[:2])
    app = Ombott()
    st2 = State([])
    eth, espec = program(cx, case['eh'], st2)
    code = cx.choice('code', [500, 404])
    app.error(code)(lambda e: eth())
    app.add_route('/x', ['GET', 'POST'], lambda: th())
    r = util.call(app, mkenv(cx, method, False))
    cx.obs('calls', len(st2.log))
    if not (spec.body is ERRPAGE and spec.code == code):
        judge(cx, r, spec, st, method)
        return
    cx.reach('custom')
    if case['eh'] == 'err' and espec.code == code:
        espec = Spec(500, ERRPAGE)      # an error handler that produces its own error again and again
    if case['eh'] in ('exc', 'raise_resp'):
        espec = Spec(500, ERRPAGE)      # the error handler itself fails: last-resort page
    if case['eh'] in ('seq_exc', 'seq_odd', 'odd', 'bad_iter', 'self') and code == 500:
        espec = Spec(500, ANY)      # the handler is asked again about its own failure
    judge(cx, r, espec, st2, method, code=spec.code)


def k_hooks(cx, case):
    what, n = case['what'], case['n']
    log = []
    app = Ombott()
    st = State([])
    st.fixed = True

    def mk(name, out):
        def hook():
            log.append(name)
            if out == 'exc':
                raise Boom('x')
            if out == 'resp':
                raise HTTPResponse('hook', 202)
            if out == 'err':
                raise HTTPError(418, 'hook')
            if out == 'reroute':
                app.request['PATH_INFO'] = '/x'
            return 'ignored'
        return hook
    before, after = [], []
    spec = None
    th = lambda: 'ok'
    path = '/x'
    if what == 'ok':
        spec = Spec(200, b'ok')
    elif what == '404':
        spec = Spec(404, ERRPAGE)
        path = '/y'
    elif what == '405':
        spec = Spec(405, ERRPAGE)
    elif what == 'badpath':
        path = '/\xff'
        spec = Spec(400, ERRPAGE)
    elif what == 'reroute':
        path = '/y'
        spec = Spec(200, b'ok')
    else:
        th, spec = program(cx, what, st)
    # registration interleaved in any order; the order within a kind counts
    seq = []
    for i in range(n):
        o = cx.choice('b%d' % i, ['', 'exc', 'resp', 'err'])
        if what == 'reroute' and i == 0:
            o = 'reroute'
        before.append(('b%d' % i, o))
        seq.append(('before_request',) + before[-1])
        o = cx.choice('a%d' % i, ['', 'exc', 'resp'] if n == 2 else ['', 'exc'])
        after.append(('a%d' % i, o))
        seq.append(('after_request',) + after[-1])
    style = cx.flag('style')
    for kind, name, o in seq:
        if style:
            app.on(kind)(mk(name, o))
        else:
            app.add_hook(kind, mk(name, o))

    def h():
        log.append('handler')
        return th()
    app.add_route('/x', 'POST' if what == '405' else 'GET', h)
    env = util.environ(path, 'GET')
    r = util.call(app, env)
    cx.obs('log', log)
    cx.obs('status', r.status)
    if what == 'badpath':
        wellformed(cx, r)
        cx.check(r.code == 400, 'undecodable path')
        return
    exp = []
    out = spec
    failed = False
    for name, o in before:
        exp.append(name)
        if o in ('exc', 'resp', 'err'):
            failed = True
            out = {'exc': Spec(500, ERRPAGE), 'resp': Spec(202, b'hook'), 'err': Spec(418, ERRPAGE)}[o]
            break
    if not failed and what not in ('404', '405'):
        exp.append('handler')
    for name, o in reversed(after):
        exp.append(name)
    cx.check(log == exp, 'hook order')
    bad = [o for name, o in after if o]
    if not bad:
        judge(cx, r, out, st, 'GET')
        cx.reach('hooks')
    else:
        wellformed(cx, r)
        if 'exc' in bad and 'resp' not in bad:
            cx.check(r.code == 500, 'a failing after hook is a 500')
        cx.reach('afterfail')


def k_statusline(cx, case):
    line = cx.str('line', case['n'], ((0, 0x7F), (0xA0, 0x102), (0x660, 0x661)))
    app = Ombott()
    how = cx.choice('how', ['set', 'return', 'raise'])

    def h():
        if how == 'set':
            app.response.status = line
            return 'ok'
        resp = HTTPResponse('ok', line)
        if how == 'raise':
            raise resp
        return resp
    app.add_route('/x', 'GET', h)
    r = util.call(app, util.environ('/x'))
    cx.obs('status', r.status)
    if not wellformed(cx, r):
        return
    good = '1' <= line[0] <= '9' and '0' <= line[1] <= '9' and '0' <= line[2] <= '9' and line[3] == ' ' \
        and len(line) > 4 and '!' <= line[4] <= '~' and '!' <= line[-1] <= '~' and all(' ' <= c <= '~' for c in line[4:])
    if good:
        cx.check(r.status == line, 'status line changed')
        cx.check(r.body == (b'ok' if int(line[:3]) >= 200 and line[:3] not in ('204', '304') else b''), 'body')
        cx.reach('line')
    else:
        cx.check(r.code == 500 or r.status == line.strip(), 'status line')
        cx.reach('badline')


def k_fault(cx, case):
    """failures between the handler and start_response"""
    fault = case['fault']
    app = Ombott()
    log = []
    method = cx.choice('method', METHODS)
    body = It([cx.bytes('c', 1), b'y'], [])
    if fault == 'unencodable':
        body = It(['\ud800', 'y'], log)
    elif fault == 'charset':
        body = It([cx.str('c', 1, TEXT), 'y'], log)

    class BadClose(It):
        def close(self):
            self.closed += 1
            raise Boom('close')
    if fault == 'close':
        cx.assume(is_head(method))
        body = BadClose([b'x'], log)

    log = [body]

    def h():
        if fault == 'headers':
            app.response.headers.update({'X-Bad': 5})
        elif fault == 'charset':
            app.response.content_type = 'text/plain; charset=nonsense'
        return body
    app.add_route('/x', ['GET', 'POST'], h)
    r = util.Resp()
    n = [0]

    def start_response(status, headers, exc_info=None):
        if fault == 'start' and n[0] == 0:
            n[0] = 1
            raise Boom('start')
        r.started.append((status, headers, exc_info))
        r.status, r.headers = status, headers
    out = app(util.environ('/x', method), start_response)
    for c in out:
        r.chunks.append(c)
    if hasattr(out, 'close'):
        out.close()
    wellformed(cx, r)
    cx.obs('status', r.status)
    cx.check(r.code == 500, 'not a 500')
    cx.check((len(r.body) > 0) == (not is_head(method)), 'body')
    if fault != 'close' or log[0].closed:
        cx.check(log[0].closed == 1, 'an iterable that produced output is not closed exactly once')
    cx.reach('fault')


def k_own_cl(cx, case):
    """a Content-Length set by the handler is left alone"""
    st = State(case['chain'])
    th, spec = program(cx, st.next(cx), st)
    app = Ombott()

    def h():
        app.response.content_length = 5
        return th()
    app.add_route('/x', 'GET', h)
    method = cx.choice('method', METHODS[:2])
    r = util.call(app, mkenv(cx, method, False))
    judge(cx, r, spec, st, method, own_cl=(case['chain'][0] in ('seq_str', 'str', 'file')))
    if case['chain'][0] in ('seq_str', 'str', 'file'):
        cx.check(r.header('Content-Length') == ['5'], 'Content-Length of the handler')


def k_noenv(cx, case):
    """optional environ entries are absent"""
    st = State(case['chain'])
    th, spec = program(cx, st.next(cx), st)
    app = Ombott()
    app.add_route('/', 'GET', lambda: th())
    env = util.environ('/', 'GET')
    drop = cx.choice('drop', ['PATH_INFO', 'QUERY_STRING', 'SCRIPT_NAME', 'HTTP_HOST', 'SERVER_PROTOCOL'])
    env.pop(drop)
    r = util.call(app, env)
    judge(cx, r, spec, st, 'GET')


def k_twice(cx, case):
    """the outcome of one request does not decide the lifecycle of the next"""
    app = Ombott()
    kinds = ['str', 'falsy', 'seq_bytes', 'exc', 'raise_err', 'raise_resp']
    log = []
    app.add_hook('before_request', lambda: log.append('b'))
    app.add_hook('after_request', lambda: log.append('a'))
    act = [None]
    app.add_route('/x', ['GET', 'POST'], lambda: act[0]())
    for i in range(2):
        st = State([])
        act[0], spec = program(cx, cx.choice('k%d' % i, kinds), st)
        method = cx.choice('m%d' % i, METHODS[:2])
        del log[:]
        r = util.call(app, mkenv(cx, method, False))
        judge(cx, r, spec, st, method)
        cx.check(log == ['b', 'a'], 'hooks once per request')


WITNESSES = ('bodiless', 'errpage', 'body', 'cl', 'closed', 'custom', 'hooks', 'afterfail', 'line', 'badline', 'fault')
ASSUMPTIONS = ['streams are all text or all bytes, file-likes deliver bytes; exceptions are Exception subclasses',
               'header names are tokens chosen by the application (their values: C14)',
               'what happens to an iterable that produced no output (empty, failed, replaced by a response) is only that it is closed at most once',
               'a raised HTTPResponse inside an error handler is a failure of that handler (last-resort page)']


def BOUNDS(tier):
    return ('handler programs of nesting depth up to 5 over 17 outcome kinds, up to 2 leading empty items and 2 chunks with symbolic content, every '
            'status 100..999, 5 spellings of methods, up to 3+3 hooks with every outcome, status lines of up to %d symbolic characters'
            % (7 if tier != 'quick' else 6))
