"""The application of the C08 check; every statement of its handlers is a point where the thread may be changed."""
from io import BytesIO
from ombott import Ombott, HTTPResponse, HTTPError, redirect, static_file


def dump(app):
    rq, rs = app.request, app.response
    return [rq.path, rq.method, rq.url, rq.query_string, [(k, v) for k, v in rq.query.items()], [(k, v) for k, v in rq.cookies.items()],
            rq.headers.get('X-In', 'none'), rq.content_type, str(rq.content_length), rq.get('ombott.request.ext.foo', '-'),
            '%s' % rq.get('route.url_args'), rq.environ.get('ombott.app') is app, rq.environ['ombott.request'] is rq,
            rs.status_line, rs.status_code, rs.headerlist, rs.content_type, rs.charset,
            sorted(rs._cookies.keys()) if rs._cookies else None, rs.body, rs.headers.get('X-A', 'none')]


def note(app):
    app.request.environ['x.log'].append(dump(app))


def begin(app, v):
    rq, rs = app.request, app.response
    rq.foo = v
    rs.headers['X-A'] = v
    rs.headers.append('X-L', 'l' + v)
    rs.headers.append('X-L', 'm' + v)
    rs.set_cookie('k', 'v' + v)
    rs.status = '298 Fine'
    rs.content_type = 'text/plain; charset=UTF-8'


def make(hooks=False, paths=()):
    """the application, with the routes that these paths need"""
    app = Ombott({'max_body_size': 60, 'max_memfile_size': 8, 'app_name_header': 'HTTP_X_APP_NAME',
                  'domain_map': lambda host: 'work' if host == 'sub' else None})
    const = HTTPResponse('constant', 207, {'X-C': 'c'})
    const.set_cookie('c', 'const')
    const_error = HTTPError(409, 'shared')

    def work(v):
        begin(app, v)
        note(app)
        app.response.headers.append('X-L', 'after')
        app.request.bar = v
        note(app)
        return 'done ' + v + app.request.query.get('q', '') + app.request.get_cookie('c', '')

    def small(v):
        app.response.headers['X-A'] = v
        return v + app.request.query.q

    def status(v):
        app.response.status = 201 if v == 'a' else 202
        app.response.set_cookie('s', v)
        app.response.delete_cookie('t')
        return [v, 'x']

    def crash(v):
        begin(app, v)
        raise ValueError(v)

    def late(v):
        begin(app, v)
        note(app)
        yield 'one'
        note(app)
        yield app.request.foo
        yield app.request.path

    def go(v):
        begin(app, v)
        redirect('to/' + v)

    def send(v):
        app.response.headers['X-A'] = v
        return static_file('f.txt', '/srv')

    def fail(v):
        begin(app, v)
        raise HTTPError(410, 'gone ' + v)

    def resp(v):
        begin(app, v)
        r = HTTPResponse('other ' + v, 206, {'X-R': v})
        r.set_cookie('r', v)
        raise r

    def consts(v):
        app.response.headers['X-A'] = v
        app.response.set_cookie('k', v)
        raise const

    def consterr(v):
        app.response.headers['X-A'] = v
        raise const_error

    def form(v):
        rq = app.request
        app.response.headers['X-A'] = v
        rq.environ['x.log'].append([(k, x if isinstance(x, str) else x.filename) for k, x in rq.POST.items()])
        note(app)
        rq.environ['x.log'].append([(k, x) for k, x in rq.forms.items()])
        rq.environ['x.log'].append([(k, x.file.read()) for k, x in rq.files.items()])
        rq.environ['x.log'].append([(k, x if isinstance(x, str) else x.filename) for k, x in rq.params.items()])
        return 'form ' + v

    def body(v):
        rq = app.request
        app.response.headers['X-A'] = v
        x = rq.body.read()
        note(app)
        rq.body.seek(0)
        return rq.body.read() + b'!' + x

    def js(v):
        app.response.headers['X-A'] = v
        d = app.request.json
        note(app)
        return str(d['k']) + v

    def copy(v):
        begin(app, v)
        rq = app.request.copy()
        rs = app.response.copy(HTTPResponse)
        rs.headers['X-A'] = 'copy'
        rq.environ['PATH_INFO'] = '/elsewhere'
        rq.foo = 'copy'
        note(app)
        return rs

    def fileobj(v):
        app.response.content_type = 'application/octet-stream'
        app.response.headers['X-A'] = v
        return BytesIO(b'file ' + v.encode())

    def page(err):
        note(app)
        app.response.headers.append('X-L', app.request.path)
        return 'page ' + app.request.query_string

    def partial(path, values):
        note(app)
        app.response.headers['X-A'] = path
        app.response.status = 404
        return 'partial ' + path + app.request.query_string
    for name, fn in (('work', work), ('small', small), ('status', status), ('crash', crash), ('late', late), ('go', go), ('send', send),
                     ('fail', fail), ('resp', resp), ('const', consts), ('consterr', consterr), ('form', form), ('body', body),
                     ('json', js), ('copy', copy), ('file', fileobj)):
        if '/%s/' % name in paths:
            app.route('/%s/<v>' % name, callback=fn, method=['GET', 'POST'])
    app.route('/page/<v>', callback=lambda v: HTTPError(499, 'x' + v))
    if '/only/' in paths:
        app.route('/only/<v>', callback=small, method='PATCH')
    app.error(499)(page)
    if '/part/' in paths:
        app.error(404, '/part')(partial)
    if hooks:
        @app.on('before_request')
        def before():
            app.response.headers.append('X-H', 'b' + app.request.query_string)

        @app.on('after_request')
        def after():
            app.response.headers.append('X-H', 'e' + app.request.query_string)
            note(app)

        @app.on_route('/work')
        def on_work(path):
            app.response.headers.append('X-H', path + app.request.query_string)

        @app.on_route('/work/<v>')
        def on_value(path):
            app.response.headers.append('X-H', path + app.request.query_string)
    return app
