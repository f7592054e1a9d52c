"""C10: application objects in one process are independent of each other."""
import threading
import ombott
from ombott import Ombott, HTTPResponse, HTTPError, Request, Response, redirect, static_file
from checks import pristine, fsstub
from checks.util import environ, call

TXT = ((32, 126),)
KEY = ((97, 122),)


def setup(symbolic):
    pristine.take()


class World:
    """the applications of one run"""
    def __init__(self, cx, case, op):
        self.cx, self.case, self.op = cx, case, op
        self.apps = {}
        self.dumps = {}
        self.problems = []
        self.v = {}

    def app(self, name):
        if name not in self.apps:
            if name in self.case['default']:
                self.apps[name] = ombott.default_app()
            else:
                self.apps[name] = Ombott({'max_body_size': 1000} if name == 'b' and self.case['outer'] % 2 else {'debug': True} if name == 'c' else None)
            routes(self, self.apps[name], name)
        return self.apps[name]


def dump(app):
    rq, rs = app.request, app.response
    return [rq.path, rq.method, rq.url, rq.query_string, [(k, v) for k, v in rq.query.items()], [(k, v) for k, v in rq.cookies.items()],
            rq.headers.get('X-In', 'none'), rq.content_type, str(rq.content_length), rq.body.read(), [(k, v) for k, v in rq.forms.items()], rq.POST.get('p', '-'),
            rq.get('ombott.request.ext.foo', '-'), getattr(rq, 'bar', '-'), '%s' % rq.get('route.url_args'), rq.environ.get('ombott.app') is app, rq.environ['ombott.request'] is rq,
            rs.status_line, rs.status_code, rs.headerlist, rs.content_type, rs.charset, sorted(rs._cookies.keys()) if rs._cookies else None, rs.body, rs.headers.get('X-A', 'none')]


def begin(app, v):
    rq, rs = app.request, app.response
    rq.foo = v
    rs.headers['X-A'] = v
    rs.headers.append('X-L', 'l' + v)
    rs.set_cookie('k', 'v' + v)
    rs.status = '298 Fine'
    rs.body = 'body ' + v
    rs.content_type = 'text/plain; charset=UTF-8'


def routes(w, app, name):
    def put(rule, fn, method='GET'):
        app.route(rule, callback=fn, method=method, overwrite=True)

    def note():
        w.dumps.setdefault(name, []).append(dump(app))

    def work(v):
        begin(app, v)
        note()
        w.op(w, name)
        note()
        app.response.headers.append('X-L', 'after')
        app.request.bar = v
        w.dumps[name].append(app.request.environ['PATH_INFO'])
        return 'done ' + v

    def plain(v):
        app.response.headers['X-P'] = v
        app.request.foo = 'plain' + v
        app.response.set_cookie('p', v)
        app.response.status = 404
        return 'plain ' + v

    def crash(v):
        app.response.headers['X-P'] = v
        raise ValueError(v)

    def late(v):
        begin(app, v)
        note()
        yield 'one'
        w.op(w, name)
        note()
        yield 'two'
        note()

    def go(v):
        begin(app, v)
        w.op(w, name)
        redirect('to/' + v)

    def send(v):
        w.op(w, name)
        return static_file('f.txt', '/srv')

    def fail(v):
        begin(app, v)
        w.op(w, name)
        raise HTTPError(410, 'gone ' + v)

    def boom(v):
        begin(app, v)
        w.op(w, name)
        raise ValueError(v)

    def page(err):
        note()
        w.op(w, name)
        note()
        app.response.headers.append('X-L', app.request.path)
        return 'page ' + app.request.query_string

    def wait(v):
        """stop in the middle until the other side has gone on"""
        begin(app, v)
        note()
        w.inside.set()
        w.go.wait(60)
        note()
        return 'waited ' + v

    def before():
        w.hook(w, name)
    put('/work/<v>', work, ['GET', 'POST'])
    put('/plain/<v>', plain, ['GET', 'POST'])
    put('/crash/<v>', crash)
    put('/late/<v>', late)
    put('/go/<v>', go)
    put('/send/<v>', send)
    put('/fail/<v>', fail)
    put('/boom/<v>', boom)
    put('/wait/<v>', wait)
    app.error(499)(page)
    put('/page/<v>', lambda v: HTTPError(499, 'x' + v))


def request(how, v, method='GET', **kw):
    body = None
    if method == 'POST':
        body = b'p=' + v.encode() + b'&q=1'
        kw['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
    return environ('/' + how + '/' + v, method, body, QUERY_STRING='q=' + v, HTTP_COOKIE='c=' + v, HTTP_X_IN='in' + v, **kw)


def serve(w, name, how, v, method='GET', **kw):
    return call(w.app(name), request(how, v, method, **kw))


def other(name):
    return 'b' if name == 'a' else 'c'


# what happens while one application is in its handler
def op_none(w, name):
    pass


def op_serve(how, method='GET', path=None):
    def op(w, name):
        if name == 'a':
            w.problems.append(serve(w, 'b', how, w.v['b'], method).code == 0)
    return op


def op_nowhere(w, name):
    if name == 'a':
        call(w.app('b'), environ('/nowhere/' + w.v['b'], HTTP_ACCEPT='application/json'))


def op_badpath(w, name):
    if name == 'a':
        call(w.app('b'), environ('/\xff' + w.v['b']))


def op_chain(w, name):
    """a serves b, b serves c"""
    if name in 'ab':
        serve(w, other(name), 'work', w.v[other(name)], 'POST')


def op_new(w, name):
    Ombott()
    Ombott({'debug': True})


def op_new_serve(w, name):
    if name == 'a':
        x = Ombott()
        x.route('/', callback=lambda: 'x' + x.request.query_string)
        w.problems.append(call(x, environ('/', QUERY_STRING='z=1')).body != b'xz=1')


def op_request(w, name):
    r = Request(environ('/other', QUERY_STRING='o=1', HTTP_COOKIE='o=1'))
    r.foo = 'other'
    r['HTTP_X_IN'] = 'other'
    w.problems.append(r.path != '/other')
    Request()


def op_response(w, name):
    r = Response()
    r.__init__('other', 201, {'X-A': 'other'})
    r.set_cookie('k', 'other')
    w.problems.append(r.status_code != 201 or r.headers['X-A'] != 'other')


def op_http(w, name):
    r = HTTPResponse('other', 201, {'X-A': 'other'})
    r.set_cookie('k', 'other')
    e = HTTPError(402, 'other', X_A='other')
    w.problems.append(e.status_code != 402 or r.headers['X-A'] != 'other' or r._cookies['k'].value != 'other')


def op_copy(w, name):
    app = w.app(name)
    c = app.request.copy()
    w.problems.append(c.path != app.request.path or c.environ is app.request.environ)
    c['QUERY_STRING'] = 'copied=1'
    c['PATH_INFO'] = '/copied'
    c.foo = 'copied'
    c['HTTP_X_IN'] = 'copied'
    c['HTTP_COOKIE'] = 'copied=1'
    w.problems.append(c.query_string != 'copied=1' or c.path != '/copied')
    r = app.response.copy(cls=HTTPResponse)
    r.headers['X-A'] = 'copied'
    r.headers.append('X-L', 'copied')
    r.set_cookie('k', 'copied')
    r.set_cookie('n', 'copied')
    r.status = 201
    r.body = 'copied'


def op_copy_serve(w, name):
    """the copied environ is served by another application"""
    if name == 'a':
        env = w.app('a').request.copy().environ
        env['PATH_INFO'] = '/plain/' + w.v['b']
        call(w.app('b'), env)


def op_setup(w, name):
    if name == 'a' and not w.late:
        x = w.app('b')
        x.setup({'max_body_size': 1, 'max_memfile_size': 2})
        for code in (404, 410, 499, 500):
            x.error(code)(lambda e: 'other')
        x.add_hook('before_request', lambda: w.hooked.append(x.request.path))
        x.on('after_request', lambda: w.hooked.append(x.request.path))
        x.on_route('/work', lambda prefix: w.hooked.append(prefix))
        x.error(404, '/work')(lambda *a: 'other')
        x.request.on('env_changed', lambda *a: w.hooked.append('env'))
        x.config.max_body_size = 2
        x.config.debug = True
        x.request.config.max_body_size = 2
        x.route('/work/<v>', callback=lambda v: 'other', overwrite=True)
        x.route('/fail/<v>', callback=lambda v: 'other', overwrite=True)
        serve(w, 'b', 'fail', w.v['b'])
        w.problems.append(len(w.hooked) != 2)
        w.late.append(2)


def op_configure(w, name):
    if name == 'a':
        x = w.app('b')
        x.config.debug = True
        x.config.catchall = False
        x.config.max_body_size = 2
        x.request.config.max_body_size = 2
        x.request.config.max_memfile_size = 1
        x.response.headers.update({'X-B': 'configured'})


def op_init(w, name):
    """another application's objects are initialised directly"""
    if name == 'a':
        x = w.app('b')
        x.request.__init__(environ('/init', QUERY_STRING='i=1'))
        x.response.__init__('init', 207, {'X-A': 'init'})


def in_thread(op):
    def f(w, name):
        t = threading.Thread(target=guarded, args=(w, op, name))
        t.start()
        t.join()
    return f


def guarded(w, op, name):
    try:
        op(w, name)
    except BaseException as e:
        w.raised = e


def op_across(w, name):
    """the other application stays in its handler on another thread while this one goes on"""
    if name == 'a':
        w.inside, w.go = threading.Event(), threading.Event()
        w.threads.append(threading.Thread(target=guarded, args=(w, lambda w, n: serve(w, 'b', 'wait', w.v['b'], 'GET'), name)))
        w.threads[-1].start()
        while not w.inside.wait(0.2):
            if not w.threads[-1].is_alive():
                break


OPS = {
    'plain': op_serve('plain'), 'post': op_serve('plain', 'POST'), 'head': op_serve('plain', 'HEAD'), 'work': op_serve('work'), 'crash': op_serve('crash'), 'go': op_serve('go'), 'fail': op_serve('fail'),
    'late': op_serve('late'), 'nowhere': op_nowhere, 'badpath': op_badpath, 'chain': op_chain, 'new': op_new, 'new-serve': op_new_serve, 'request': op_request, 'response': op_response, 'http': op_http,
    'copy': op_copy, 'copy-serve': op_copy_serve, 'setup': op_setup, 'init': op_init, 'configure': op_configure,
}
for k in ('plain', 'work', 'crash', 'chain', 'new', 'request', 'response', 'new-serve'):
    OPS['thread-' + k] = in_thread(OPS[k])
OPS['across'] = op_across
OUTER = [('work', 'GET', {}), ('boom', 'GET', {}), ('work', 'POST', {}), ('late', 'GET', {}), ('go', 'GET', {}), ('send', 'GET', {'HTTP_RANGE': 'bytes=1-2'}), ('send', 'HEAD', {}), ('fail', 'GET', {}), ('page', 'GET', {}),
         ('work', 'HEAD', {}), ('send', 'GET', {'HTTP_IF_MODIFIED_SINCE': 'Sun, 01 Jan 2012 12:04:05 GMT'})]


def cases(tier):
    out = []
    n = 0
    for o in OPS:
        for i in range(len(OUTER)):
            for default in ('', 'a', 'b'):
                n += 1
                if tier == 'quick' and default and n % 2:
                    continue
                out.append({'op': o, 'outer': i, 'default': default, 'wide': n % 8 == 0 or tier != 'quick'})
    for o in ('plain', 'post', 'crash', 'nowhere', 'copy-serve', 'init', 'setup', 'configure'):
        for default in ('', 'a', 'b'):
            out.append({'op': o, 'outer': 0, 'default': default, 'wide': False, 'mode': 'alternate'})
            out.append({'op': o, 'outer': 3, 'default': default, 'wide': False, 'mode': 'chunks'})
            out.append({'op': o, 'outer': 0, 'default': default, 'wide': False, 'mode': 'afterwards'})
    return out


def play(cx, case, op, vals):
    """(response of a, what a's handlers saw, the world)"""
    pristine.restore()
    w = World(cx, case, op)
    w.v = vals
    w.threads = []
    w.raised = None
    w.hooked, w.late = [], []
    how, method, kw = OUTER[case['outer']]
    app = w.app('a')
    mode = case.get('mode')
    fs = fsstub.Fs(cx, 'file', b'0123456789', 1325419445, root='/srv')
    fs.only = '/srv'
    if how == 'send':
        fsstub.CUR.append(fs)
    try:
        if mode == 'chunks':
            # the server interleaves the two responses
            w.op = op_none
            got = []
            env = request(how, vals['a'], method, **kw)
            it = app(env, lambda s, h, e=None: got.append((s, h)))
            body = []
            for x in it:
                body.append(x)
                op(w, 'a')
            r = [got[0][0], got[0][1], b''.join(body)]
        else:
            if mode == 'alternate':
                w.op = op_none
                serve(w, 'a', how, vals['a'], method, **kw)
                op(w, 'a')
            x = serve(w, 'a', how, vals['a'], method, **kw)
            r = [x.status, [h for h in x.headers if h[0] != 'Date'], x.body]
            if mode == 'afterwards':
                w.op = op_none
                before = [app.request.path, app.request.query_string, app.request.get('ombott.request.ext.foo', '-'), app.response.status_line, app.response.headerlist, app.response.body]
                op(w, 'a')
                after = [app.request.path, app.request.query_string, app.request.get('ombott.request.ext.foo', '-'), app.response.status_line, app.response.headerlist, app.response.body]
                cx.check(before == after, 'the objects of an application change while another one serves')
    finally:
        if how == 'send':
            fsstub.CUR.pop()
        for t in w.threads:
            w.go.set()
            t.join()
    w.problems.append(len(w.hooked) != 2 * len(w.late))
    if w.raised is not None:
        raise w.raised
    return r, w.dumps.get('a', []), w


def run(cx, case):
    n = 1
    vals = {k: cx.str(k, n, TXT if case['wide'] else KEY) for k in 'abc'}
    if case['wide']:
        for k in 'abc':
            cx.assume(vals[k] != '/')
    want, saw, _ = play(cx, case, op_none, vals)
    got, sees, w = play(cx, case, OPS[case['op']], vals)
    cx.obs('status', got[0])
    cx.check(not [p for p in w.problems if p], 'a new object does not show what it was made of')
    cx.check(len(sees) == len(saw), 'a handler is called more or less often')
    for i in range(len(saw)):
        if type(saw[i]) is list:
            for j in range(len(saw[i])):
                cx.check(saw[i][j] == sees[i][j], 'a handler sees something else because of another application (%d)' % j)
        else:
            cx.check(saw[i] == sees[i], 'a handler sees another path because of another application')
    cx.check(got[0] == want[0], 'the status depends on another application')
    cx.check(len(got[1]) == len(want[1]) and got[1] == want[1], 'the headers depend on another application')
    cx.check(got[2] == want[2], 'the body depends on another application')
    if case['op'] in ('across', 'chain', 'work', 'thread-work', 'thread-chain') and case.get('mode') is None:
        # and the other way round
        case2 = dict(case)
        pristine.restore()
        w2 = World(cx, case2, op_none)
        w2.v = vals
        w2.inside, w2.go = threading.Event(), threading.Event()
        w2.go.set()
        how, method = ('wait', 'GET') if case['op'] == 'across' else ('work', 'POST' if 'chain' in case['op'] else 'GET')
        serve(w2, 'b', how, vals['b'], method)
        saw, sees = w2.dumps.get('b', []), w.dumps.get('b', [])
        cx.check(len(sees) % len(saw) == 0 and (len(sees) > 0 or case['outer'] == 8), 'the other handler is called more or less often')
        for i in range(len(sees)):
            cx.check(saw[i % len(saw)] == sees[i], 'the handler of the other application sees something else')
        cx.reach('both')
    cx.reach(case.get('mode') or 'nested')


WITNESSES = ('nested', 'both', 'alternate', 'chunks', 'afterwards')
ASSUMPTIONS = ['threads take turns where an application calls or waits (finer interleavings are C08)', 'an application does not change the configuration of another one']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('2 and 3 applications, also the module-level one, %d things that can happen while one of them serves (nested and chained requests of all outcomes, copies, new objects, on the same and on '
            'other threads, between the chunks of a body, after the request) x %d kinds of requests, symbolic values' % (len(OPS), len(OUTER)))
