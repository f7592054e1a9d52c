"""C20: framework error pages never reflect request data unescaped."""
import json
from ombott.ombott import Ombott
from ombott.response import HTTPError
from checks import util

ENT = ('&amp;', '&lt;', '&gt;', '&quot;', '&#x27;', '&#39;', '&#039;', '&#34;', '&#x22;', '&#60;', '&#62;', '&#38;')
MARKUP = '<>"\''
L1 = ((0, 255),)
PLAIN = 'zzz'       # a benign request carries letters instead

APPS = {}
BASE = {}


class Weird:
    """not a supported return type"""
    def __init__(self, text):
        self.text = text

    def __iter__(self):
        yield self

    def __repr__(self):
        return self.text


def make(kind):
    app = Ombott({'domain_map': (lambda host: 'shop'), 'app_name_header': 'HTTP_X_APP'}) if kind == 'domain' else (
        Ombott({'max_body_size': 4}) if kind == '413' else Ombott())
    req = app.request

    def seen():
        return req.path + req.query_string + (req.get('HTTP_HOST') or '')

    def boom(x=''):
        raise ValueError(seen())

    def gen(x=''):
        raise KeyError(seen())
        yield 'never'

    def odd(x=''):
        return [Weird(seen())]

    def odd_raise(x=''):
        class Bad(Exception):
            def __repr__(self):
                raise RuntimeError(seen())
        raise Bad(seen())

    def body(x=''):
        return req.body.read()

    def loop(x=''):
        def again():
            e = HTTPError(409, seen())
            e.body = app
            return e
        e = HTTPError(500)
        return e

    def bad_handler(err):
        raise ValueError(seen())

    def bad_hook():
        raise ValueError(seen())

    def bad_header(x=''):
        app.response.status = '200 OK'
        app.response._headers['X-Bad'] = 5      # makes assembling the header list fail
        return 'x'

    if kind == '405':
        app.add_route('/p/<x.path()>', 'PUT', boom)
        app.add_route('/p/zzz', 'PUT', boom)
    elif kind in ('500', '500str'):
        app.add_route('/p/<x.path()>', 'GET', boom)
    elif kind == 'gen':
        app.add_route('/p/<x.path()>', 'GET', gen)
    elif kind == 'odd':
        app.add_route('/p/<x.path()>', 'GET', odd)
    elif kind == 'odd_raise':
        app.add_route('/p/<x.path()>', 'GET', odd_raise)
    elif kind in ('413', 'chunk'):
        app.add_route('/p/<x.path()>', 'GET', body)
    elif kind == 'hook':
        app.add_hook('before_request', bad_hook)
    elif kind == 'after':
        app.add_hook('after_request', bad_hook)
    elif kind == 'crit':
        app.error(404)(bad_handler)
    elif kind == 'crit2':
        app.add_route('/p/<x.path()>', 'GET', boom)
        app.error(500)(bad_handler)
    elif kind == 'crit3':
        app.add_route('/p/<x.path()>', 'GET', bad_header)
    elif kind == 'abort':
        app.add_route('/p/<x.path()>', 'GET', loop)
    return app


KINDS = ['404', '405', '500', 'gen', 'odd', 'odd_raise', '413', 'chunk', 'hook', 'after', 'crit', 'crit2', 'crit3', 'abort', 'domain']
CRIT = ('crit', 'crit2', 'crit3')
SOURCES = ['path', 'query', 'host', 'xfh', 'proto', 'script', 'server']


def build(kind, source, text, accept):
    kw = {}
    path = '/p/zzz'
    if source == 'path':
        path = '/p/' + text
    elif source == 'root':
        path = '/'
    elif source == 'bad':
        path = '/p/' + text + '\xff'
    elif source == 'query':
        kw['QUERY_STRING'] = text
    elif source == 'host':
        kw['HTTP_HOST'] = text
    elif source == 'xfh':
        kw['HTTP_X_FORWARDED_HOST'] = text
    elif source == 'proto':
        kw['HTTP_X_FORWARDED_PROTO'] = text
    elif source == 'script':
        kw['SCRIPT_NAME'] = '/' + text
    elif source == 'server':
        kw['HTTP_HOST'] = ''
        kw['SERVER_PORT'] = text
    body = None
    if kind == '413':
        body = b'abcdefgh'
    elif kind == 'chunk':
        body = util.Stream(b'zz\r\n')
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
    if source == 'body':
        body = util.Stream(text)
    if accept:
        kw['HTTP_ACCEPT'] = accept
    return util.environ(path, 'GET', body, **kw)


def scan(body):
    """(number of markup characters, '&' that do not begin an entity, text)"""
    text = body.decode('utf8')
    n = 0
    amp = 0
    for i, c in enumerate(text):
        if c in MARKUP:
            n += 1
        elif c == '&' and not text[i:i + 8].startswith(ENT):
            amp += 1
    return n, amp


def setup(symbolic):
    for kind in KINDS:
        APPS[kind] = make(kind)
        for accept in ('', 'application/json'):
            for source in ('path', 'root', 'bad'):
                r = util.call(make(kind), build(kind, source, PLAIN, accept))
                if r.started:
                    BASE[kind, accept, r.code] = scan(r.body)


def base(kind, accept, code):
    return BASE.get((kind, accept, code))


def cases(tier):
    n = 4 if tier != 'quick' else 3
    out = []
    for kind in KINDS:
        for source in SOURCES + (['bad'] if kind in ('404', '405', '500', 'crit', 'crit2', 'domain') else []):
            for accept in ('', 'application/json'):
                out.append({'kind': kind, 'source': source, 'accept': accept, 'n': n})
                if source in ('query', 'path') and kind in ('404', '500', 'crit'):
                    out.append({'kind': kind, 'source': source, 'accept': accept, 'n': n + 1 if tier != 'quick' else n})
    # longer pieces of template and entity syntax with free characters around them
    for pre in ('{e.', '{url', '{{', '%', '&#', '&l', '<!-', '\\', '%3', "{0"):
        for source in ('path', 'query', 'host'):
            for kind in ('404', 'crit'):
                out.append({'kind': kind, 'source': source, 'accept': '', 'n': 2, 'pre': pre})
    return out


def run(cx, case):
    kind, source, accept = case['kind'], case['source'], case['accept']
    text = case.get('pre', '') + cx.str('t', (case['n'], case['n']), L1)
    app = APPS[kind]
    b = None
    r = util.call(app, build(kind, source, text, accept))
    cx.obs('status', r.status)
    cx.check(len(r.started) == 1, 'start_response')
    code = r.code
    crit = r.body.startswith(b'<h1>Critical')
    b = base(kind, accept, code)
    cx.obs('base', b)
    if b is None:
        cx.fail('a request without markup is answered with another status')
        return
    cx.check(code >= 400, 'not an error')
    ct = r.header('Content-Type')
    cx.check(len(ct) == 1, 'Content-Type')
    if accept and not crit:
        cx.check(ct == ['application/json'], 'JSON was requested')
        try:
            data = json.loads(r.body.decode('utf8'))
        except ValueError:
            cx.fail('the error body is not valid JSON')
            return
        cx.check(isinstance(data, dict), 'JSON object')
        cx.reach('json')
    else:
        cx.check(ct[0].lower().startswith('text/html'), 'HTML page')
        cx.reach('html')
    n, amp = scan(r.body)
    cx.obs('scan', (n, amp))
    cx.check(n == b[0], 'request text injects markup characters')
    cx.check(amp == b[1], 'unescaped ampersand')
    if crit:
        cx.reach('crit')
    cx.reach(str(code))


WITNESSES = ('json', 'html', 'crit', '400', '404', '405', '413', '500')
ASSUMPTIONS = ['debug is off; environ strings are Latin-1 text as PEP 3333 says',
               'the error body text an application passes to HTTPError/abort is its own markup, not framework-generated',
               'the last-resort page is HTML whatever the Accept header says']


def BOUNDS(tier):
    return ('%d error kinds x every source of request text (path, undecodable path, query, Host, X-Forwarded-Host/-Proto, SCRIPT_NAME, port) '
            'x HTML/JSON, up to %d arbitrary Latin-1 characters, also behind template and entity prefixes' % (len(KINDS), 4 if tier != 'quick' else 3))
