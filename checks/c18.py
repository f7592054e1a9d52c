"""C18: query strings and urlencoded forms decode to exactly what was sent; totality on raw strings."""
from ombott.ombott import Ombott
from checks import util

APP = None
BOX = [None]

UNRESERVED = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~*'


def setup(symbolic):
    global APP
    APP = Ombott()

    def handler():
        BOX[0] = BOX[1](APP.request)
        return 'ok'
    BOX.append(None)
    APP.add_route('/', 'POST', handler)


def served(via, raw, get):
    """parse `raw` through the request property; the result is computed inside a handler"""
    BOX[0] = None
    BOX[1] = get
    if via == 'query':
        env = util.environ(method='POST', QUERY_STRING=raw)
    else:
        env = util.environ(method='POST', body=raw.encode('latin1'),
                           CONTENT_TYPE='application/x-www-form-urlencoded')
    r = util.call(APP, env)
    return r


GET = {
    'query': lambda rq: dict(rq.query),
    'forms': lambda rq: dict(rq.forms),
    'params-q': lambda rq: dict(rq.params),
    'params-f': lambda rq: dict(rq.params),
}
HEX = '0123456789ABCDEF'


def pct(cx, name, data, lower):
    if lower is None:
        lower = cx.flag(name + '.lowerhex')
    out = ''
    for b in data:
        h = '%02x' % b if lower else '%02X' % b
        out += '%' + h
    return out


def encode(cx, name, text, lower):
    """any legal urlencoding of the text: per character literal, '+', or percent escapes in either hex case"""
    out = ''
    for i in range(len(text)):
        c = text[i]
        n = '%s.%d' % (name, i)
        if c in UNRESERVED:
            if cx.flag(n + '.esc'):
                out += pct(cx, n, c.encode('utf8'), lower)
            else:
                out += c
        elif c == ' ' and cx.flag(n + '.plus'):
            out += '+'
        else:
            out += pct(cx, n, c.encode('utf8'), lower)
    return out


def cases(tier):
    out = []
    deep = tier != 'quick'
    for via in ('query', 'forms', 'params-q', 'params-f'):
        light = via.startswith('params')
        for n in range(0, (7 if deep else 5) if not light else 2):
            out.append({'kind': 'raw', 'via': via, 'n': n})
        shapes = [((1, 0),), ((1, 1),), ((1, 1), (1, 0))]
        if not light:
            shapes += [((2, 1),), ((1, 2),), ((1, 0), (1, 1)), ((1, 1), (1, 1)), ((1, 0), (1, 0), (1, 0))]
            if deep:
                shapes += [((3, 0),), ((2, 2),), ((1, 3),), ((1, 1), (1, 1), (1, 0)), ((2, 0), (1, 1)), ((1, 2), (1, 1))]
        if via == 'forms' and not deep:
            shapes = [((1, 1),), ((2, 0),), ((1, 0), (1, 1))]
        for s in shapes:
            out.append({'kind': 'pairs', 'via': via, 'shape': s, 'lite': False, 'deep': deep})
        if not light:
            for s in [((1, 1),) * 3] + ([((1, 1),) * 4, ((2, 2), (2, 2))] if deep else []):
                out.append({'kind': 'pairs', 'via': via, 'shape': s, 'lite': True, 'deep': False})
    return out


def run(cx, case):
    via = case['via']
    chan = 'query' if via in ('query', 'params-q') else 'forms'
    if case['kind'] == 'raw':
        # a QUERY_STRING is any native string; a body any bytes
        raw = cx.str('raw', case['n'], None if chan == 'query' else ((0, 255),))
        r = served(chan, raw, GET[via])
        cx.check(r.code == 200, 'parsing a raw string failed')
        got = BOX[0]
        cx.check(got is not None, 'no result')
        cx.obs('raw', got)
        cx.reach('raw')
        return
    pairs = []
    raw = ''
    # hexadecimal case: one choice for all escapes, or one per escaped character
    lower = None if case['deep'] else cx.flag('lowerhex')
    for i, (kl, vl) in enumerate(case['shape']):
        # lite: characters whose encoding does not need alternatives, to reach longer lists
        dom = 'a=&+% é' if case['lite'] else None
        k = cx.str('k%d' % i, kl, dom)
        v = cx.str('v%d' % i, vl, dom)
        if case['lite']:
            s = [plain(c) for c in (k, v)]
        else:
            s = [encode(cx, 'e%d' % i, k, lower), encode(cx, 'f%d' % i, v, lower)]
        if i:
            raw += '&'
        raw += s[0] + '=' + s[1]
        pairs.append((k, v))
    expect = []
    for k, v in pairs:
        for e in expect:
            if e[0] == k:
                e[1].append(v)
                break
        else:
            expect.append((k, [v]))
    r = served(chan, raw, GET[via])
    cx.check(r.code == 200, 'parsing failed')
    got = BOX[0]
    cx.check(got is not None, 'no result')
    if got is None:
        return
    cx.obs('got', got)
    cx.check(len(got) == len(expect), 'number of keys differs')
    for k, vs in expect:
        ok = k in got
        cx.check(ok, 'key is missing')
        if not ok:
            continue
        g = got[k]
        if len(vs) == 1:
            cx.reach('single')
            cx.check(isinstance(g, str), 'single value is not a string')
            cx.check(g == vs[0], 'value differs')
        else:
            cx.reach('repeated')
            cx.check(isinstance(g, list), 'repeated key is not a list')
            cx.check(len(g) == len(vs), 'number of repeated values differs')
            for a, b in zip(g, vs):
                cx.check(a == b, 'repeated value differs')


def plain(text):
    out = ''
    for i in range(len(text)):
        c = text[i]
        if c == 'a':
            out += c
        elif c == ' ':
            out += '+'
        else:
            for b in c.encode('utf8'):
                out += '%' + ('%02X' % b)
    return out


WITNESSES = ('raw', 'single', 'repeated')
ASSUMPTIONS = ['escapes decode as UTF-8; raw bodies arrive whole under Content-Length framing (fragmentation is C04)']


def BOUNDS(tier):
    return ('raw strings of up to %d arbitrary characters; pair lists up to %s with every character of every key and '
            'value symbolic over all Unicode scalar values, every legal escape spelling (quick: one hex case per input)'
            % ((6, '3 pairs / 3 characters') if tier != 'quick' else (4, '3 pairs / 3 characters')))
