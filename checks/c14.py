"""C14: header values cannot split the response and are wire-safe."""
from ombott.ombott import Ombott
from ombott.response import Response, HTTPResponse, HTTPError
from checks import util

APP = None
ACT = [None]


def setup(symbolic):
    global APP
    APP = Ombott()
    APP.add_route('/', 'GET', lambda: ACT[0](APP))


# --- every single-value setter: f(cls, value) -> (response, emitted header name, values emitted before the new one)
def s_item(cls, v):
    r = cls()
    r.headers['X-H'] = v
    return r, 'X-H', []


def s_item_over(cls, v):
    r = cls()
    r.headers['X-H'] = 'old'
    r.headers['X-H'] = v
    return r, 'X-H', []


def s_append(cls, v):
    r = cls()
    r.headers.append('X-H', v)
    return r, 'X-H', []


def s_append2(cls, v):
    r = cls()
    r.headers['X-H'] = 'one'
    r.headers.append('X-H', v)
    return r, 'X-H', ['one']


def s_append3(cls, v):
    r = cls()
    r.headers.append('X-H', 'one')
    r.headers.append('X-H', 'two')
    r.headers.append('X-H', v)
    return r, 'X-H', ['one', 'two']


def s_setdefault(cls, v):
    r = cls()
    r.headers.setdefault('X-H', v)
    return r, 'X-H', []


def s_setdefault_present(cls, v):
    r = cls()
    r.headers['X-H'] = 'old'
    r.headers.setdefault('X-H', v)
    return r, 'X-H', None


def s_ctype(cls, v):
    r = cls()
    r.content_type = v
    return r, 'Content-Type', []


def s_clen(cls, v):
    r = cls()
    r.content_length = v
    return r, 'Content-Length', []


def s_expires(cls, v):
    r = cls()
    r.expires = v
    return r, 'Expires', []


def s_ctor_dict(cls, v):
    return mk(cls, headers={'X-H': v}), 'X-H', []


def s_ctor_list(cls, v):
    return mk(cls, headers=[('X-H', 'one'), ('X-H', v)]), 'X-H', ['one']


def s_ctor_kw(cls, v):
    return mk(cls, Etag=v), 'Etag', []


def mk(cls, **kw):
    if issubclass(cls, HTTPError):
        return cls(400, 'b', **kw)
    return cls('b', 200, **kw)


SETTERS = {f.__name__[2:]: f for f in (
    s_item, s_item_over, s_append, s_append2, s_append3, s_setdefault, s_setdefault_present, s_ctype, s_clen, s_expires,
    s_ctor_dict, s_ctor_list, s_ctor_kw)}
CLASSES = {'Response': Response, 'HTTPResponse': HTTPResponse, 'HTTPError': HTTPError}

# entity headers that the framework documents as forbidden for a status
FORBID = {
    204: ('Content-Type',),
    304: ('Allow', 'Content-Encoding', 'Content-Language', 'Content-Length', 'Content-Range', 'Content-Type',
          'Content-Md5', 'Last-Modified'),
}
OTHER = ('X-H', 'Etag', 'Location', 'Content', 'Vary')


def cases(tier):
    deep = tier != 'quick'
    out = []
    for s in SETTERS:
        for c in CLASSES:
            if s.startswith('ctor') and c == 'Response':
                continue        # the per-thread object of the framework, not constructed by applications
            for n in range(1, 6 if deep else 4):
                out.append({'kind': 'guard', 'setter': s, 'cls': c, 'n': n})
        for t in ('int', 'float', 'bool', 'none', 'bytes', 'list', 'object', 'strsub'):
            out.append({'kind': 'type', 'setter': s, 'cls': 'HTTPResponse', 'type': t})
    for via in ('item', 'append', 'return', 'raise'):
        for n in range(0, 4 if deep else 3):
            out.append({'kind': 'wsgi', 'via': via, 'n': n})
    for k in range(2, 5 if deep else 4):
        out.append({'kind': 'multi', 'k': k})
    for names in [FORBID[204] + OTHER, FORBID[304]]:
        for name in names:
            out.append({'kind': 'entity', 'name': name})
    out.append({'kind': 'status'})
    return out


def ctrl(v):
    return '\r' in v or '\n' in v or '\0' in v


def emitted(cx, headers, tag):
    """every emitted pair is a native, Latin-1 encodable string without control characters"""
    for k, v in headers:
        ok = isinstance(v, str) and isinstance(k, str)
        cx.check(ok, tag + ': header is not a native string')
        if not ok:
            continue
        cx.check(not ctrl(v), tag + ': control character in an emitted header value')
        try:
            v.encode('latin1')
        except UnicodeError:
            cx.fail(tag + ': header value is not Latin-1')


def values(headers, name):
    return [v for k, v in headers if k == name]


def text(v):
    return v.encode('latin1').decode('utf8')


class Sub(str):
    pass


class Obj:
    def __str__(self):
        return 'a\r\nb'


def run(cx, case):
    globals()['k_' + case['kind']](cx, case)


def k_guard(cx, case):
    v = cx.str('v', case['n'])
    bad = ctrl(v)
    f = SETTERS[case['setter']]
    try:
        r, name, before = f(CLASSES[case['cls']], v)
    except Exception:
        for ch in v:
            if ch < ' ' or ch == '\x7f':
                bad = True
        cx.check(bad, 'a harmless value was rejected')
        cx.reach('rejected')
        return
    h = r.headerlist
    cx.obs('headers', h)
    emitted(cx, h, 'guard')
    if before is None:
        cx.check(values(h, name) == ['old'], 'setdefault changed a present header')
        return
    cx.check(not bad, 'a value with a control character was accepted')
    got = values(h, name)
    cx.check(len(got) == len(before) + 1, 'number of emitted values')
    cx.check(got[:-1] == before, 'earlier values changed')
    cx.check(text(got[-1]) == v, 'emitted value does not decode to the original text')
    cx.reach('accepted')


def k_type(cx, case):
    t = case['type']
    v = {'int': lambda: cx.int('i', -10 ** 6, 10 ** 6) if case['setter'] != 'expires' else cx.choice('i', [0, -5, 10 ** 9]), 'float': lambda: cx.choice('f', [0.0, -1.5, 1e300, float('inf')]),
         'bool': lambda: cx.flag('b'), 'none': lambda: None, 'bytes': lambda: cx.bytes('y', 2), 'list': lambda: ['a\r\nb'],
         'object': Obj, 'strsub': lambda: Sub('a\nb')}[t]()
    try:
        r, name, before = SETTERS[case['setter']](CLASSES[case['cls']], v)
    except Exception:
        if case['setter'] != 'expires':
            cx.check(t in ('bytes', 'list', 'object', 'strsub'), 'an allowed type was rejected')
        return
    if t == 'list' and case['setter'].startswith('setdefault'):
        return      # a list is not a single value
    h = r.headerlist
    emitted(cx, h, 'type')
    if before is not None and case['setter'] != 'expires':
        cx.check(t not in ('bytes', 'list', 'object', 'strsub'), 'an unsupported value was accepted')
        cx.check(values(h, name)[-1] == str(v), 'value is not the text of the object')
        cx.reach('typed')


def k_wsgi(cx, case):
    v = cx.str('v', case['n'])
    via = case['via']

    def act(app):
        if via == 'item':
            app.response.headers['X-H'] = v
        elif via == 'append':
            app.response.headers.append('X-H', v)
        elif via == 'return':
            return HTTPResponse('x', 200, {'X-H': v})
        else:
            raise HTTPError(403, 'x', headers={'X-H': v})
        return 'x'
    ACT[0] = act
    r = util.call(APP, util.environ())
    cx.obs('code', r.code)
    emitted(cx, r.headers, 'wsgi')
    got = values(r.headers, 'X-H')
    if ctrl(v):
        cx.check(got == [], 'bad value handed to the server')
    else:
        cx.check(len(got) == 1 and text(got[0]) == v, 'value lost on the way to the server')
        cx.reach('wsgi')


def k_multi(cx, case):
    r = HTTPResponse('x')
    exp = {}
    order = []
    for i in range(case['k']):
        name = 'X-' + cx.str('n%d' % i, 1, 'abc')
        v = cx.str('v%d' % i, 1, ((32, 0xD7FF), (0xE000, 0x10FFFF)))
        r.headers.append(name, v)
        for e in order:
            if e[0] == name:
                e[1].append(v)
                break
        else:
            order.append((name, [v]))
    h = r.headerlist
    cx.obs('h', h)
    emitted(cx, h, 'multi')
    for name, vs in order:
        got = values(h, name)
        cx.check(len(got) == len(vs), 'multi-valued header is not emitted once per value')
        for a, b in zip(got, vs):
            cx.check(text(a) == b, 'order or content of a multi-valued header')
        if len(vs) > 1:
            cx.reach('multi')
    cx.check(len(h) == case['k'] + 1, 'extra headers')


def k_entity(cx, case):
    """name in any letter case x any status"""
    base = case['name']
    name = ''
    for i, c in enumerate(base):
        if c.isalpha():
            name += cx.str('c%d' % i, 1, c.upper() + c.lower())
        else:
            name += c
    status = cx.int('status', 100, 999)
    multi = cx.flag('multi')
    r = HTTPResponse('x', status)
    r.headers[name] = '1'
    if multi:
        r.headers.append(name, '2')
    r.headers['X-Other'] = 'o'
    h = r.headerlist
    emitted(cx, h, 'entity')
    present = [v for k, v in h if k.lower() == base.lower()]
    forbidden = False
    for code, names in FORBID.items():
        if status == code and base in names:
            forbidden = True
    if forbidden:
        cx.check(present == [], 'forbidden entity header is emitted')
        cx.reach('withheld')
    elif base == 'Content-Type':
        cx.check('1' in present, 'Content-Type is missing')
    else:
        cx.check(present == (['1', '2'] if multi else ['1']), 'header is missing')
        cx.reach('kept')
    cx.check(values(h, 'X-Other') == ['o'], 'unrelated header is missing')


def k_status(cx, case):
    """default Content-Type"""
    status = cx.int('status', 100, 999)
    r = HTTPResponse('x', status)
    h = r.headerlist
    ct = [v for k, v in h if k.lower() == 'content-type']
    if status == 204 or status == 304:
        cx.check(ct == [], 'Content-Type on 204 or 304')
    else:
        cx.check(len(ct) == 1, 'no default Content-Type')


WITNESSES = ('rejected', 'accepted', 'typed', 'wsgi', 'multi', 'withheld', 'kept')
ASSUMPTIONS = ['text values are sequences of Unicode scalar values (no lone surrogates)',
               'lists passed to setdefault and HeaderDict.update/HeaderDict() are not single-value setters']


def BOUNDS(tier):
    return ('values of up to %d characters, every character symbolic over all Unicode scalar values; every setter and response '
            'class; ints in +-10^6; up to %d values over three names; every letter case of the forbidden names; status 100..999'
            % ((5, 4) if tier != "quick" else (3, 3)))
