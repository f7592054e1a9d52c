"""C09: each response depends on its own request only; retained state is bounded."""
import gc
import weakref
from ombott import Ombott, HTTPResponse, HTTPError, redirect, abort
from checks import pristine
from checks.util import environ, call, Stream

TXT = ((32, 126),)
KEY = ((97, 122),)
FROZEN = []


class Env(dict):
    pass


class Boom(Exception):
    pass


class Items:
    """an iterable body of its own type"""
    def __init__(self, items):
        self.items = items
        self.closed = 0

    def __iter__(self):
        return iter(self.items)

    def close(self):
        self.closed += 1


def setup(symbolic):
    pristine.take()


def make(mode, live):
    """an application; live collects weak references to what handlers make"""
    app = Ombott({'max_body_size': 40, 'max_memfile_size': 16, 'debug': mode == 'debug'})
    rq, rs = app.request, app.response
    const = HTTPResponse('const', 202, {'X-Const': 'k'})
    const.set_cookie('const', 'k', path='/')
    const_err = HTTPError(403, 'denied', X_Const='e')
    const_err.set_cookie('conste', 'k')

    def track(x):
        live.append(weakref.ref(x))
        return x

    def dump():
        names = ('foo', 'bar')
        out = [rq.path, rq.method, rq.query_string, '%s' % [(k, v) for k, v in rq.query.items()], '%s' % [(k, v) for k, v in rq.cookies.items()],
               '%s' % [getattr(rq, n, None) for n in names], rq.headers.get('X-In', 'none'), str(rq.content_length), rq.content_type, '%s' % rq.url_args if rq.get('route.url_args') is not None else '-',
               rs.status_line, str(rs.status_code), '%s' % rs.headerlist, rs.content_type, rs.charset, '%s' % (rs._cookies and sorted(rs._cookies.keys())), '%s' % rs.body,
               rq.get('ombott.request.readonly', 'no'), str(len(rq.__listeners__['env_changed']))]
        return '|'.join(out)

    def setall(v):
        rs.headers['X-A'] = v
        rs.headers.append('X-L', '1')
        rs.headers.append('X-L', v)
        rs.set_cookie('a', 'x' + v)
        rs.status = '299 Odd'
        rs.content_type = 'text/plain; charset=latin1'
        rs.body = v
        rq.foo = v
        rq['HTTP_X_IN'] = v
        rq.bar = 1

    @app.route('/set/<v>')
    def h_set(v):
        setall(v)
        return v

    @app.route('/plain')
    def h_plain():
        return 'plain'

    @app.route('/umlaut/<v>')
    def h_umlaut(v):
        rs.content_type = 'text/plain'
        return '\xe4' + v

    @app.route('/empty')
    def h_empty():
        return ''

    @app.route('/dump')
    @app.route('/dump/<n:int>', method=['GET', 'POST'])
    def h_dump(n=None):
        return dump()

    @app.route('/raise/<v>')
    def h_raise(v):
        setall(v)
        r = HTTPResponse('raised ' + v, 250, {'X-R': v})
        r.set_cookie('r', 'y' + v)
        raise track(r)

    @app.route('/abort/<v>')
    def h_abort(v):
        rs.set_cookie('ab', 'z' + v)
        abort(409, 'text ' + v)

    @app.route('/const')
    def h_const():
        return const

    @app.route('/consterr')
    def h_consterr():
        raise const_err

    @app.route('/crash/<v>')
    def h_crash(v):
        setall(v)
        raise track(Boom(v))

    @app.route('/late/<v>')
    def h_late(v):
        setall(v)
        yield ''
        raise track(Boom(v))

    @app.route('/gen/<v>')
    def h_gen(v):
        rs.headers['X-G'] = v
        yield v
        yield 'more'

    @app.route('/genraise')
    def h_genraise():
        if rq.path:
            raise const_err
        yield 'x'

    @app.route('/items/<v>')
    def h_items(v):
        return track(Items([v, 'i']))

    @app.route('/redir/<v>')
    def h_redir(v):
        rs.headers['X-V'] = v
        redirect('/to')

    @app.route('/form', method='POST')
    def h_form():
        return '%s|%s|%s' % ([(k, v) for k, v in rq.forms.items()], sorted(rq.files.keys()), rs.headerlist)

    @app.route('/json', method='POST')
    def h_json():
        return {'got': rq.json, 'h': len(rs.headerlist)}

    @app.route('/catch', method='POST')
    def h_catch():
        try:
            return rq.body.read()
        except HTTPError as e:
            rs.headers['X-Caught'] = '1'
            return 'caught %s' % e.status_code

    @app.route('/bad/<v>')
    def h_bad(v):
        rs.headers['X-B'] = v
        return [object()]

    @app.route('/nostart/<v>')
    def h_nostart(v):
        rs.headers['X-B'] = v
        rs._headers['X-B'] = 5       # cannot be sent: the last resort answers
        return v

    @app.route('/copy/<v>')
    def h_copy(v):
        c = rq.copy()
        c.foo = v
        c['QUERY_STRING'] = 'q=' + v
        d = rs.copy()
        d.headers['X-D'] = v
        d.set_cookie('d', 'v' + v)
        return c.query_string

    @app.route('/ro/<v>')
    def h_ro(v):
        rq.environ['ombott.request.readonly'] = True
        return v

    if mode == 'handlers' or mode == 'hooks':
        @app.error(404)
        def e404(err):
            rs.headers.append('X-E', 'n')
            rs.set_cookie('e', 'f')
            return 'nf ' + err.body

        @app.error(403)
        def e403(err):
            rs.headers.append('X-Const', 'more')
            rs.set_cookie('conste', 'other')
            rs.set_cookie('more', 'x')
            return 'denied %s' % len(rs.headerlist)

        @app.error(500)
        def e500(err):
            rs.headers['X-500'] = '1'
            return 'crash %s' % len(rs.headerlist)

        @app.error(413)
        def e413(err):
            rs.headers.append('X-413', rq.path)
            err.headers.append('X-Err', rq.path)
            rs.set_cookie('big', 'x')
            return 'too big %s' % err._headers

        @app.error(400)
        def e400(err):
            rs.headers.append('X-400', 'x')
            err.headers['X-Err'] = rq.path
            err.set_cookie('err', 'x')
            err.body = 'seen ' + rq.path
            return 'bad %s' % rs.headerlist
    if mode == 'hooks':
        @app.on('before_request')
        def before():
            rs.headers.append('X-Before', str(len(rs.headerlist)))
            rq.foo = (rq.foo if 'ombott.request.ext.foo' in rq.environ else 'start') + '+'

        @app.on('after_request')
        def after():
            rs.headers.append('X-After', str(len(rs.headerlist)))

        @app.on_route('/set')
        def on_set(prefix):
            rs.headers.append('X-Route', prefix)
    return app


def urlenc(cx, v):
    return Env(environ('/form', 'POST', body=b'a=' + v.encode() + b'&b=1', CONTENT_TYPE='application/x-www-form-urlencoded'))


def post(path, body, **kw):
    return Env(environ(path, 'POST', body=body, **kw))


MP = b'--b\r\nContent-Disposition: form-data; name="f"; filename="n"\r\n\r\nx\r\n--b--\r\n'
KINDS = {
    'set': lambda v: Env(environ('/set/' + v)),
    'set-in': lambda v: Env(environ('/dump', QUERY_STRING='q=' + v + '&r=1', HTTP_COOKIE='c=' + v, HTTP_X_IN=v, CONTENT_TYPE='text/x-' + v)),
    'plain': lambda v: Env(environ('/plain')),
    'umlaut': lambda v: Env(environ('/umlaut/' + v)),
    'empty': lambda v: Env(environ('/empty')),
    'dump': lambda v: Env(environ('/dump')),
    'dump-n': lambda v: Env(environ('/dump/7', QUERY_STRING='z=' + v)),
    'raise': lambda v: Env(environ('/raise/' + v)),
    'abort': lambda v: Env(environ('/abort/' + v)),
    'const': lambda v: Env(environ('/const')),
    'consterr': lambda v: Env(environ('/consterr')),
    'crash': lambda v: Env(environ('/crash/' + v)),
    'late': lambda v: Env(environ('/late/' + v)),
    'gen': lambda v: Env(environ('/gen/' + v)),
    'genraise': lambda v: Env(environ('/genraise')),
    'items': lambda v: Env(environ('/items/' + v)),
    'redir': lambda v: Env(environ('/redir/' + v)),
    'form': lambda v: post('/form', b'a=' + v.encode() + b'&b=1', CONTENT_TYPE='application/x-www-form-urlencoded'),
    'json': lambda v: post('/json', b'{"a": "' + v.encode() + b'"}', CONTENT_TYPE='application/json'),
    'json-bad': lambda v: post('/json', b'{' + v.encode(), CONTENT_TYPE='application/json'),
    'big': lambda v: post('/form', b'a=' + v.encode() + b'x' * 60, CONTENT_TYPE='application/x-www-form-urlencoded'),
    'clen': lambda v: post('/form', b'a=1', CONTENT_TYPE='application/x-www-form-urlencoded', CONTENT_LENGTH='x' + v),
    'chunk-bad': lambda v: post('/catch', Stream(b'zz' + v.encode()), HTTP_TRANSFER_ENCODING='chunked'),
    'chunk-form': lambda v: post('/form', Stream(b'2\r\n' + v.encode()), HTTP_TRANSFER_ENCODING='chunked', CONTENT_TYPE='application/x-www-form-urlencoded'),
    'catch': lambda v: post('/catch', b'y' * 50 + v.encode()),
    'mp-bad': lambda v: post('/form', b'--c\r\n' + v.encode(), CONTENT_TYPE='multipart/form-data; boundary=b'),
    '404': lambda v: Env(environ('/nope/' + v, QUERY_STRING='q=' + v)),
    '404-json': lambda v: Env(environ('/nope/' + v, HTTP_ACCEPT='application/json')),
    '405': lambda v: Env(environ('/json')),
    'path': lambda v: Env(environ('/\xff' + v, QUERY_STRING='q=' + v)),
    'head': lambda v: Env(environ('/set/' + v, 'HEAD')),
    'head404': lambda v: Env(environ('/no/' + v, 'HEAD')),
    'bad': lambda v: Env(environ('/bad/' + v)),
    'nostart': lambda v: Env(environ('/nostart/' + v)),
    'copy': lambda v: Env(environ('/copy/' + v)),
    'ro': lambda v: Env(environ('/ro/' + v)),
}
MODES = ('bare', 'handlers', 'hooks', 'debug')
PROBES = ('dump', 'form', 'json-bad', 'big', '404', 'path', 'crash', 'const', 'consterr', 'plain', 'catch', 'chunk-bad', 'umlaut')


def cases(tier):
    deep = tier != 'quick'
    out = []
    kinds = list(KINDS)
    n = 0
    for a in kinds:
        for b in kinds:
            n += 1
            modes = [MODES[n % 4]] if b not in PROBES else ['bare', 'hooks'] if not deep else MODES
            if deep or b in PROBES:
                for m in modes:
                    out.append({'what': 'pair', 'mode': m, 'kinds': [a, b]})
            elif n % 3 == 0:
                out.append({'what': 'pair', 'mode': modes[0], 'kinds': [a, b]})
    step = 5 if deep else 23
    k = 0
    for a in kinds:
        for b in kinds:
            for c in PROBES:
                k += 1
                if k % step == 0:
                    out.append({'what': 'pair', 'mode': MODES[k % 4], 'kinds': [a, b, c]})
    for m in MODES:
        for a in kinds:
            out.append({'what': 'keep', 'mode': m, 'kinds': [a], 'rounds': 12 if deep else 6})
        for i in range(0, len(kinds) - 3, 4):
            out.append({'what': 'keep', 'mode': m, 'kinds': kinds[i:i + 4], 'rounds': 6 if deep else 3})
        out.append({'what': 'keep', 'mode': m, 'kinds': ['big', 'catch', 'chunk-bad', 'json-bad', 'mp-bad', 'clen', 'chunk-form'], 'rounds': 10 if deep else 3})
    for i, c in enumerate(out):
        c['wide'] = i % (3 if deep else 9) == 0
    return out


def outcome(cx, app, env):
    r = call(app, env)
    return [r.status, r.headers, r.body, len(r.started), r.closed]


def same(cx, got, want, why):
    cx.check(got[0] == want[0], why + ' (status)')
    cx.check(len(got[1]) == len(want[1]) and got[1] == want[1], why + ' (headers)')
    cx.check(got[2] == want[2], why + ' (body)')
    cx.check(got[3:] == want[3:], why + ' (calls)')


def run(cx, case):
    if case['what'] == 'keep':
        return keep(cx, case)
    live = []
    wide = case['wide']
    vals = [cx.str('v%d' % i, 1 if wide else 2 - i % 2, TXT if wide else KEY) for i in range(len(case['kinds']))]
    reqs = list(zip(case['kinds'], vals))
    kind, val = reqs[-1]
    pristine.restore()
    want = outcome(cx, make(case['mode'], live), KINDS[kind](val))
    pristine.restore()
    app = make(case['mode'], live)
    for k, v in reqs[:-1]:
        outcome(cx, app, KINDS[k](v))
    got = outcome(cx, app, KINDS[kind](val))
    cx.obs('status', got[0])
    if case['mode'] == 'debug':
        cx.check(got[0] == want[0] and got[1] == want[1] or kind in ('crash', 'late', 'nostart'), 'a response depends on an earlier request')
    else:
        same(cx, got, want, 'a response depends on an earlier request')
    again = outcome(cx, make(case['mode'], live), KINDS[kind](val))
    if case['mode'] != 'debug':
        same(cx, again, want, 'a response depends on what another application served before')
    cx.reach('pair')
    if got[0][:1] in '45':
        cx.reach('error')


def keep(cx, case):
    live = []
    pristine.restore()
    app = make(case['mode'], live)
    v = cx.str('v', 2, KEY)
    counts = []
    gc.disable()
    if not FROZEN:
        FROZEN.append(1)
        gc.collect()
    gc.freeze()
    try:
        for i in range(case['rounds']):
            for k in case['kinds']:
                env = KINDS[k](v)
                live.append(weakref.ref(env))
                if 'wsgi.input' in env:
                    live.append(weakref.ref(env['wsgi.input']))
                outcome(cx, app, env)
                env = None
            gc.collect()
            counts.append(len([1 for w in live if w() is not None]))
    finally:
        gc.unfreeze()
        gc.enable()
    cx.obs('alive', counts[-1] - counts[1])
    cx.check(counts[-1] <= counts[1], 'objects of past requests pile up')
    cx.check(counts[-1] <= 3 * len(case['kinds']) + 3, 'objects of more than the last requests are alive')
    cx.reach('keep')


WITNESSES = ('pair', 'error', 'keep')
ASSUMPTIONS = ['the application itself keeps nothing from request to request', 'one thread; the interpreter frees what is unreachable (gc.collect)']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('histories of 2 and 3 requests of %d kinds (success, headers, cookies, status, attributes, generators, prebuilt responses and errors, raised responses, redirects, crashes before and '
            'after the first item, malformed, oversized and chunked bodies, undecodable paths, 404, 405, HEAD), symbolic values of 1..2 characters in each (letters, in a part of the histories any printable character); 4 applications (error handlers, hooks, '
            'debug); retention over %d rounds' % (len(KINDS), 12 if tier != 'quick' else 6))
