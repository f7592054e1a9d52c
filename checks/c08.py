"""C08: concurrent requests on one application never see each other."""
from symx import race
race.install()
import ombott                                   # noqa: E402
from checks import pristine, fsstub, c08_app    # noqa: E402
from checks.util import environ, call           # noqa: E402

KEY = ((97, 122),)
END = 1 << 20
MULTI = b'--B\r\nContent-Disposition: form-data; name="a"\r\n\r\n%s\r\n--B--'

# kind -> (path before the value, method, body, extra environ)
KINDS = {
    'work': ('/work/', 'GET', None, {}), 'work-post': ('/work/', 'POST', 'x=1', {}), 'small': ('/small/', 'GET', None, {}),
    'status': ('/status/', 'GET', None, {}), 'crash': ('/crash/', 'GET', None, {}), 'late': ('/late/', 'GET', None, {}),
    'go': ('/go/', 'GET', None, {}), 'send': ('/send/', 'GET', None, {'HTTP_RANGE': 'bytes=1-2'}), 'send-head': ('/send/', 'HEAD', None, {}),
    'fail': ('/fail/', 'GET', None, {}), 'fail-json': ('/fail/', 'GET', None, {'HTTP_ACCEPT': 'application/json'}),
    'resp': ('/resp/', 'GET', None, {}), 'const': ('/const/', 'GET', None, {}), 'consterr': ('/consterr/', 'GET', None, {}),
    'form': ('/form/', 'POST', 'a=1&b=', {'CONTENT_TYPE': 'application/x-www-form-urlencoded'}),
    'multi': ('/form/', 'POST', 'multi', {'CONTENT_TYPE': 'multipart/form-data; boundary=B'}),
    'body': ('/body/', 'POST', '0123456789', {}), 'chunked': ('/body/', 'POST', 'chunked', {'HTTP_TRANSFER_ENCODING': 'chunked'}),
    'bad-chunk': ('/body/', 'POST', 'bad', {'HTTP_TRANSFER_ENCODING': 'chunked'}), 'too-big': ('/body/', 'POST', 'b' * 61, {}),
    'json': ('/json/', 'POST', '{"k":"', {'CONTENT_TYPE': 'application/json'}), 'bad-json': ('/json/', 'POST', '{', {'CONTENT_TYPE': 'application/json'}),
    'copy': ('/copy/', 'GET', None, {}), 'file': ('/file/', 'GET', None, {}), 'page': ('/page/', 'GET', None, {}),
    'part': ('/part/', 'GET', None, {}), 'nowhere': ('/none/', 'GET', None, {}), 'method': ('/page/', 'PUT', None, {}),
    'badpath': ('/\xff', 'GET', None, {}), 'head': ('/work/', 'HEAD', None, {}),
    'method-b': ('/only/', 'GET', None, {}), 'domain': ('/', 'GET', None, {'HTTP_HOST': 'sub'}),
}


def setup(symbolic):
    pristine.take()


def request(kind, v):
    path, method, body, kw = KINDS[kind]
    data = None
    if body is not None:
        if body == 'multi':
            data = MULTI % v.encode()
        elif body == 'chunked':
            data = b'4\r\nabc' + v.encode() + b'\r\n0\r\n\r\n'
        elif body == 'bad':
            data = b'zz\r\n' + v.encode()
        elif body == '{"k":"':
            data = body.encode() + v.encode() + b'"}'
        else:
            data = body.encode() + v.encode()
    kw = {**{'HTTP_HOST': 'localhost'}, **kw}
    env = environ(path + v, method, data, QUERY_STRING='q=' + v + '&z=1', HTTP_COOKIE='c=' + v, HTTP_X_IN=v, **kw)
    env['x.log'] = []
    return env


def serve(app, kind, v):
    def f():
        env = request(kind, v)
        r = call(app, env)
        return [r.status, [h for h in r.headers if h[0] != 'Date'], r.body, env['x.log'], len(env['wsgi.errors'].lines)]
    return f


def world(cx, case, kinds, vals, plan, record=False):
    """the requests on one new application; (results, the run)"""
    pristine.restore()
    fs = fsstub.Fs(cx, 'file', b'0123456789', 1325419445, root='/srv')
    fs.only = '/srv'
    fsstub.CUR.append(fs)
    try:
        app = c08_app.make(case['hooks'], ['/work/' if KINDS[k][0] == '/' else KINDS[k][0] for k in kinds])
        state = race.State(race.modules(ombott) + [c08_app, app]) if record else None
        run = race.Run([serve(app, k, v) for k, v in zip(kinds, vals)], plan, state)
        return run.go(), run
    finally:
        fsstub.CUR.pop()


def switches(cx, case, vals):
    """for every thread: the statements before which the threads are changed; and the statements that write shared state"""
    key = repr(sorted(case.items()))
    if key not in race.POINTS:
        names, hot, runs = set(), set(), []
        kinds = case['kinds']
        n = len(kinds)
        for order in ([i for i in range(n)], [n - 1 - i for i in range(n)]):
            _, r = world(cx, case, [kinds[i] for i in order], [vals[i] for i in order], [(i, None) for i in range(n)], True)
            names |= r.names
            hot |= r.hot
            runs.append((order, r))
        out = [[set(), set()] for _ in kinds]
        for order, r in runs:
            for i in range(n):
                writes, touches, spread = points(r.sids[i], r.writes[i], names, hot, case['spread'])
                out[order[i]][0] |= writes
                out[order[i]][1] |= touches | spread if hot else spread
        lim = case['limit']
        pts = []
        for writes, rest in out:
            w = thin(sorted(writes), lim)
            pts.append(sorted(set(w + (thin(sorted(rest), max(4, lim - len(w))) if hot else sorted(rest)))))
        race.POINTS[key] = pts, [thin(sorted(w | r), case['inner']) for w, r in out], sorted(hot)
    return race.POINTS[key]


def points(sids, writes, names, hot, spread):
    """statement counts of one thread: around its shared writes, around what mentions the same names, and evenly spread"""
    r, more = set(), set()
    for w in writes:
        r |= {w, w + 1}
    for n, s in enumerate(sids):
        if s in hot or names & race.STM[s]:
            more |= {n + 1, n + 2}
    n = len(sids)
    even = set(range(1, n + 1)) if not spread else {n * i // (spread + 1) + 1 for i in range(1, spread + 1)}
    return r, more, even


def thin(x, n):
    return x if len(x) <= n else [x[i * len(x) // n] for i in range(n)]


def run(cx, case):
    kinds = case['kinds']
    n = len(kinds)
    vals = [cx.str('v%d' % i, 1, KEY) for i in range(n)]
    alone = [world(cx, case, [k], [v], [(0, None)])[0][0] for k, v in zip(kinds, vals)]
    if cx.symbolic:
        pts, inner, hot = switches(cx, case, vals)
        cx.reach('shared writes' if hot else 'isolated')
    first = cx.choice('first', range(n))
    order = [(first + i) % n for i in range(n)]
    if cx.symbolic:
        k1 = race.pick(cx, 'k1', pts[first])
        k2 = race.pick(cx, 'k2', (inner[order[1]] if hot or n > 2 else []) + [END])
    else:
        k1, k2 = cx.int('k1'), cx.int('k2')
    if n == 2:
        plan = [(first, k1), (order[1], k2), (first, None), (order[1], None)]
    elif cx.flag('nested'):
        plan = [(first, k1), (order[1], k2), (order[2], None), (order[1], None), (first, None)]
    else:
        plan = [(first, k1), (order[1], k2), (order[2], k1), (first, None), (order[2], None), (order[1], None)]
    got, r = world(cx, case, kinds, vals, plan)
    cx.obs('switches', r.switches)
    for i in range(len(kinds)):
        a, g = alone[i], got[i]
        cx.check(a[0] == 'ok' and g[0] == 'ok', 'a request fails because of another one')
        a, g = a[1], g[1]
        cx.obs('status', g[0])
        cx.check(g[0] == a[0], 'the status depends on another request')
        cx.check(len(g[1]) == len(a[1]) and g[1] == a[1], 'the headers depend on another request')
        cx.check(g[2] == a[2], 'the body depends on another request')
        cx.check(len(g[3]) == len(a[3]), 'a handler is called more or less often')
        for x, y in zip(g[3], a[3]):
            for j in range(len(y)):
                cx.check(len(x) == len(y) and x[j] == y[j], 'a handler sees something of another request (%d)' % j)
        cx.check(g[4] == a[4], 'errors are reported for another request')
    cx.reach('preempted' if r.switches > 2 else 'serial')


WITNESSES = ('preempted',)
STEP_LIMIT = 4000000
ASSUMPTIONS = ['threads change only between statements of the framework and of the handlers (a lambda counts as a statement); a library call is one step',
               'shared state is what can be reached from the modules of the package and from the application, except thread-local stores']


def cases(tier):
    names = list(KINDS)
    n = len(names)
    out = []
    quick = tier == 'quick'
    for i, a in enumerate(names):
        for d in ((0, 7 + i % 3) if quick else range(n // 2 + 1)):
            out.append({'kinds': [a, names[(i + d) % n]], 'hooks': i % 3 != 0, 'limit': 20 if quick else 60, 'inner': 2 if quick else 8,
                        'spread': 24 if quick else 0 if d in (0, 1) else 60})
        if i % 4 == 0 or not quick:
            out.append({'kinds': [a, names[(i + 5) % n], names[(i + 11) % n]], 'hooks': i % 2 == 0, 'limit': 12, 'inner': 3, 'spread': 5 if quick else 20})
    for a, b in (PAIRS if quick else ()):
        out.append({'kinds': [a, b], 'hooks': False, 'limit': 20, 'inner': 2, 'spread': 12})
    return out


PAIRS = [('method', 'method-b'), ('fail', 'fail-json'), ('form', 'multi'), ('body', 'chunked'), ('too-big', 'bad-chunk'), ('json', 'bad-json'), ('part', 'nowhere'),
         ('go', 'resp'), ('const', 'consterr'), ('work', 'status'), ('send', 'send-head'), ('page', 'fail'), ('work', 'domain'), ('work', 'head'), ('crash', 'fail')]


def BOUNDS(tier):
    return ('%d kinds of requests in pairs and triples on one application, symbolic values; every statement of the two serial runs is checked for changes of shared state (no change: all '
            'interleavings of any number of such threads are equivalent to the serial one); interleavings with up to 2 preemptions (3 threads: 3): around every shared write and around what mentions '
            'the same names, up to %d places per thread, and %s' % (len(KINDS), 20 if tier == 'quick' else 60, '24 evenly spread places' if tier == 'quick' else 'every statement for equal and neighbouring kinds, 60 evenly spread places otherwise'))
