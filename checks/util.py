"""Helpers shared by the harnesses (run symbolically and concretely)."""


class Errs:
    """wsgi.errors"""
    def __init__(self):
        self.lines = []

    def write(self, s):
        self.lines.append(s)

    def flush(self):
        pass


class Stream:
    """wsgi.input over one byte string; full reads"""
    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.asked = []

    def read(self, n=-1):
        self.asked.append(n)
        if n is None or n < 0:
            r = self.data[self.pos:]
        else:
            left = len(self.data) - self.pos
            r = self.data[self.pos:self.pos + (n if n < left else left)]
        self.pos += len(r)
        return r


def environ(path='/', method='GET', body=None, **kw):
    env = {
        'REQUEST_METHOD': method, 'SCRIPT_NAME': '', 'PATH_INFO': path, 'QUERY_STRING': '',
        'SERVER_NAME': 'localhost', 'SERVER_PORT': '80', 'SERVER_PROTOCOL': 'HTTP/1.1', 'HTTP_HOST': 'localhost',
        'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http', 'wsgi.errors': Errs(),
        'wsgi.multithread': False, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
    }
    if body is None:
        env['wsgi.input'] = Stream(b'')
    elif isinstance(body, bytes):
        env['wsgi.input'] = Stream(body)
        env['CONTENT_LENGTH'] = str(len(body))
    else:
        env['wsgi.input'] = body
    env.update(kw)
    return env


class Resp:
    """what a WSGI server saw"""
    def __init__(self):
        self.started = []
        self.status = None
        self.headers = []
        self.chunks = []
        self.closed = 0

    @property
    def code(self):
        return int(self.status[:3])

    @property
    def body(self):
        return b''.join(self.chunks)

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]


def call(app, env):
    r = Resp()

    def start_response(status, headers, exc_info=None):
        r.started.append((status, headers, exc_info is not None))
        r.status = status
        r.headers = headers
        return None
    out = app(env, start_response)
    try:
        for c in out:
            r.chunks.append(c)
    finally:
        if hasattr(out, 'close'):
            out.close()
    return r
