"""C15: cookies round-trip; forged signed cookies are never deserialised."""
import base64
import hashlib
import hmac
import pickle

# stand-ins: an ideal MAC and an unpickler under observation (pass-through outside of a run)
CUR = []


def through(orig, name):
    def f(*a, **kw):
        if CUR:
            return getattr(CUR[-1], name)(*a, **kw)
        return orig(*a, **kw)
    return f


for mod, attr, name in ((hmac, 'new', 'mac'), (hmac, 'HMAC', 'mac'), (hmac, 'digest', 'mac_digest'), (hmac, 'compare_digest', 'same'),
                        (pickle, 'loads', 'loads'), (pickle, 'dumps', 'dumps'), (pickle, 'load', 'load'), (pickle, 'Unpickler', 'load')):
    setattr(mod, attr + '_real', getattr(mod, attr + '_real', getattr(mod, attr)))
    setattr(mod, attr, through(getattr(mod, attr), name))

from ombott import Ombott, HTTPResponse, HTTPError     # noqa: E402
from checks.util import environ, call                  # noqa: E402

LEGAL = ((33, 33), (35, 39), (42, 43), (45, 46), (48, 58), (65, 90), (94, 122), (124, 124), (126, 126))
RESERVED = ['expires', 'path', 'comment', 'domain', 'max-age', 'secure', 'httponly', 'version', 'samesite', 'partitioned']
TEXT = ((32, 126), (128, 0xD7FF), (0xE000, 0x10FFFF))
ANY = ((0, 255),)
FIRST = [bytes(range(1, 65)), bytes([0xfb, 0xff, 0xbf] * 22)[:64], b'\0' * 64]
VALUES = ['text', {'user': 'x', 'l': [1, (2, None)], 'd': {'k': b'\xff'}}, None, 0, '', [], '\xe9\u20ac' * 3, b'raw', 'x' * 300]


def setup(symbolic):
    pass


class World:
    """an ideal MAC: equal digests for equal key and message only, otherwise as close to each other as it likes"""
    def __init__(self, cx, first=0, table=None):
        self.cx = cx
        self.known = []
        self.first = FIRST[first]
        self.loaded = []
        self.table = table          # [(payload, object)]: pickle is replaced by a table
        self.good = []              # payloads made by the application
        self.size = 0
        self.near = 5

    def raw(self, key, msg, size):
        cx = self.cx
        for k, m, d in self.known:
            if k == key and m == msg:
                return d
        if not self.known:
            d = self.first[:size]
        else:
            near = self.known[0][2]
            at = cx.choice('near', (0, size - 1, size // 2, -1, 1)[:self.near])
            if at < 0:
                d = bytes([255 - b for b in self.first[:size]])
            else:
                b = cx.bytes('digest', 1)
                d = near[:at] + b + near[at + 1:]
            for k, m, e in self.known:
                cx.assume(d != e)
        self.known.append((key, msg, d))
        return d

    def mac(self, key, msg=None, digestmod=''):
        return Mac(self, key, b'' if msg is None else msg, size_of(digestmod))

    def mac_digest(self, key, msg, digest):
        return self.raw(key, msg, size_of(digest))

    def same(self, a, b):
        if isinstance(a, str) != isinstance(b, str):
            raise TypeError('unsupported operand types')
        return a == b

    def dumps(self, obj, protocol=None, **kw):
        if self.table is None:
            b = pickle.dumps_real(obj, protocol)
        else:
            b = self.cx.bytes('pickle', self.size)
            for p, o in self.table:
                self.cx.assume(p != b)
            self.table.append((b, obj))
        self.good.append(b)
        return b

    def loads(self, data, **kw):
        self.loaded.append(data)
        if self.table is not None:
            for p, o in self.table:
                if p == data:
                    return o
        else:
            for b in self.good:
                if len(b) == len(data) and b == data:
                    return pickle.loads_real(b)
        self.cx.fail('bytes the application never signed reach the unpickler')

    def load(self, *a, **kw):
        self.cx.fail('the unpickler is not reached through loads')


class Mac:
    def __init__(self, w, key, msg, size):
        self.w, self.key, self.msg, self.digest_size = w, key, msg, size

    def update(self, b):
        self.msg = self.msg + b

    def copy(self):
        return Mac(self.w, self.key, self.msg, self.digest_size)

    def digest(self):
        return self.w.raw(self.key, self.msg, self.digest_size)

    def hexdigest(self):
        return self.digest().hex()


def size_of(digestmod):
    if isinstance(digestmod, str):
        return hashlib.new(digestmod).digest_size
    return digestmod().digest_size


def cases(tier):
    deep = tier != 'quick'
    out = []

    def plain(names, values, how='response', shape=0):
        out.append({'kind': 'plain', 'names': names, 'values': values, 'how': how, 'shape': shape})
    vals = ['', '?', '??', '?;?', '"?"', '"?', '?"', '\\?', '?\\', '=?', '?=?', ' ?', '? ', ',?', '\\101?', '\\0?1', '\\?01', '\\"?', '%?', '?; b=x', 'a b?', '\xe9?', '?\xe9', '\u20ac?',
            '\xd0\xb6?', '!?', '!a?b', '\u20ac;\xe9?', '""', '" "', '\\', '\\\\', '\\3', 'None', '0', 'x' * 100 + '?', 'x' * 4096, ';' + 'x' * 4000 + '\xe9', '\U0001f600', '\x80?', 'b=?']
    for v in vals + (['???', '?"?\\?', '\\???', '?\xe9?', '"??"', ' ?? '] if deep else []):
        for how in ('response', 'return', 'raise', 'error') if deep else ('response', ('return', 'raise', 'error')[len(out) % 3]):
            plain(['a'], [v], how)
        if len(v) > 999:
            continue
        one = v.count('?') < 2 or deep
        plain(['a', 'b'], [v, '?' if one else 'y z'])
        plain(['b', 'a'], ['?' if one else 'z', v], shape=1)
        plain(['?', 'zz'] if one else ['zzz', 'zz'], [v, v if v.count('?') < 2 else 'z;'])
    for n in ['?', '??', 'a?', '?a', '$?', '$Path', '$Version', 'session.id', 'a:b', "it's", '*', 'A', 'pat?', '?xpires', 'x-?', '__Host-?'] + (['???'] if deep else []):
        for v in ('v', '; ?', ''):
            plain([n], [v])
            plain([n, 'other'], [v, 'x'])
            plain(['other', n], ['x', v], shape=2)
    # case of names, replaced and deleted cookies
    plain(['a', 'A'], ['?', '?'])
    plain(['a', 'a'], ['?', '?'])
    plain(['a', 'b', 'c', '??'], ['1', '?', '', '?'])
    # signed: any name, secret and pickle
    for secret in ['?', '??', 's', '\xe9?', '\u20ac', 'key with spaces', 'x' * 200]:
        for size in range(0, 7 if deep else 5):
            for first in range(len(FIRST)):
                if not deep and (first + size) % 3 and secret != '?':
                    continue
                out.append({'kind': 'signed', 'name': 'a' if size % 2 else '?', 'secret': secret, 'size': size, 'first': first, 'how': ('response', 'return', 'raise')[first]})
    # alterations
    for i in range(len(VALUES)):
        for j in range(len(FIRST)):
            out.append({'kind': 'alter', 'value': i, 'first': j, 'op': 'none', 'at': 0, 'secret': 'k\xe9y', 'quoted': True})
    for i in (0, 1) if deep else (0,):
        n = 26 + len(base64.b64encode(pickle.dumps_real(('a', VALUES[i]), -1)))
        for j in range(len(FIRST)) if deep else (0,):
            for op in ('replace', 'delete', 'insert', 'cut', 'head', 'replace2', 'signature', 'swapcase', 'move') + (('delete2', 'insert2') if deep else ()):
                for p in range(n + 1):
                    if op == 'signature' and p > 25 or op == 'replace2' and (p % (3 if deep else 9) or 15 < p < 26):   # guesses a MAC
                        continue
                    out.append({'kind': 'alter', 'value': i, 'first': j, 'op': op, 'at': p, 'secret': 'secret', 'quoted': p % 4 != 3, 'near': 5 if deep or p % 8 == 0 else 2})
    for i in range(len(VALUES)):
        for j in range(len(FIRST)):
            for op in ('swap', 'secret', 'empty secret', 'longer secret', 'payload', 'nothing', 'double', 'resign', 'unsigned', 'bytes secret', 'other payload'):
                out.append({'kind': 'alter', 'value': i, 'first': j, 'op': op, 'at': 0, 'secret': 'secret', 'quoted': j != 1, 'near': 5 if deep or i < 2 else 2})
    for t in ['!?', '!??', '!???', '!?\0', '!\0?', '!\0?\0', '\0!?', '!\0\0?\0', '!=?=', '!?\0\0', '\0\0\0', '!?' + 'gASVBQAAAAAAAACMAWGULg==', '\0?' + 'gASVBQAAAAAAAACMAWGULg==']:
        out.append({'kind': 'alter', 'value': 0, 'first': 0, 'op': 'text', 'at': t, 'secret': 'secret', 'quoted': True})
    return out


def fill(cx, t, name, dom, mark='?'):
    out = t[:0]
    for ch in t:
        out = out + (cx.char(name, dom) if ch == mark else ch)
    return out


def respond(cx, app, how, sets):
    """sets the cookies in a handler; the Set-Cookie headers seen by the client"""
    def handler():
        if how == 'response':
            r = app.response
        elif how == 'error':
            r = HTTPError(404, 'x')
        else:
            r = HTTPResponse('x')
        for n, v, secret in sets:
            r.set_cookie(n, v, secret=secret)
        if how == 'return':
            return r
        if how in ('raise', 'error'):
            raise r
        return 'ok'
    app.route('/set', callback=handler)
    r = call(app, environ('/set'))
    cx.check(r.code == (404 if how == 'error' else 200), 'a cookie cannot be set')
    return r.header('Set-Cookie')


def client(cx, lines, shape):
    jar = []
    for line in lines:
        pair = line.partition(';')[0].strip()
        name = pair.partition('=')[0]
        jar = [(n, p) for n, p in jar if n != name] + [(name, pair)]
    return ('; ', ';', ' ;  ')[shape].join([p for n, p in jar])


def run(cx, case):
    w = World(cx, case.get('first', 0), [] if case['kind'] == 'signed' else None)
    w.size = case.get('size', 0)
    w.near = case.get('near', 5)
    CUR.append(w)
    try:
        globals()[case['kind']](cx, case, w)
    finally:
        CUR.pop()


def plain(cx, case, w):
    app = Ombott({})
    sets = []
    for n, v in zip(case['names'], case['values']):
        name = fill(cx, n, 'name', LEGAL)
        for word in RESERVED:
            cx.assume(name.lower() != word)
        sets.append((name, fill(cx, v, 'value', TEXT), None))
    for i, (n, v, s) in enumerate(sets):
        for m, v2, s2 in sets[:i]:
            if case['names'][i] != case['names'][0]:
                cx.assume(m != n)
    lines = respond(cx, app, case['how'], sets)
    want = {}
    for n, v, s in sets:
        want[n] = v
    got = {}

    def read():
        rq = app.request
        for n in want:
            got[n] = (rq.get_cookie(n, 'DEFAULT'), rq.cookies.get(n))
        got['missing'] = rq.get_cookie('not there', 'DEFAULT')
        return 'ok'
    app.route('/get', callback=read, overwrite=True)
    r = call(app, environ('/get', HTTP_COOKIE=client(cx, lines, case['shape'])))
    cx.check(r.code == 200, 'reading a cookie fails')
    for n, v in want.items():
        cx.check(isinstance(got[n][0], str) and got[n][0] == v, 'a cookie is not read back as it was set')
    cx.check(got['missing'] == 'DEFAULT', 'a cookie nobody set')
    cx.reach('plain')


class Opaque:
    pass


def signed(cx, case, w):
    app = Ombott({})
    name = fill(cx, case['name'], 'name', LEGAL)
    secret = fill(cx, case['secret'], 'secret', TEXT)
    value = Opaque()
    lines = respond(cx, app, case['how'], [(name, value, secret)])
    out = {}

    def read():
        out['v'] = app.request.get_cookie(name, None, secret=secret)
        n = len(w.loaded)
        out['other'] = app.request.get_cookie(name, 'DEFAULT', secret=secret + 'x')
        cx.check(len(w.loaded) == n, 'a cookie signed with another secret is deserialised')
        return 'ok'
    app.route('/get', callback=read, overwrite=True)
    r = call(app, environ('/get', HTTP_COOKIE=client(cx, lines, 0)))
    cx.check(r.code == 200, 'reading a cookie fails')
    cx.check(out['v'] is value, 'a signed cookie is not read back as it was set')
    cx.check(out['other'] == 'DEFAULT', 'a cookie signed with another secret is accepted')
    cx.reach('signed')


def alter(cx, case, w):
    app = Ombott({})
    secret = case['secret']
    value = VALUES[case['value']]
    op, at = case['op'], case['at']
    lines = respond(cx, app, 'response', [('a', value, secret), ('b', 'other', secret)] if op in ('swap', 'other payload') else [('a', value, secret)])
    out = {}

    def get(cookie, secret):
        def read():
            rq = app.request
            out['raw'] = rq.cookies.get('a')
            out['v'] = rq.get_cookie('a', DEFAULT, secret=secret)
            return 'ok'
        app.route('/get', callback=read, overwrite=True)
        r = call(app, environ('/get', HTTP_COOKIE=cookie))
        cx.check(r.code == 200, 'reading a cookie fails')
        return out['v']
    del w.loaded[:]
    DEFAULT = ['default']
    v = get(client(cx, lines[:1], 0), secret)
    cx.check(type(v) is type(value) and v == value, 'a signed cookie is not read back as it was set')
    cx.check(len(w.loaded) == 1 or op != 'none', 'a signed cookie is read without its payload')
    good = out['raw']
    cx.reach('read')
    if op == 'none':
        return
    sig, mark, msg = good.partition('?')
    again = secret

    def ch():
        return cx.char('x', ANY)
    if op == 'replace':
        bad = good[:at] + ch() + good[at + 1:]
    elif op == 'replace2':
        bad = good[:at] + ch() + good[at + 1:at + 9] + ch() + good[at + 10:]
    elif op == 'delete':
        bad = good[:at] + good[at + 1:]
    elif op == 'delete2':
        bad = good[:at] + good[at + 1:at + 5] + good[at + 6:]
    elif op == 'insert':
        bad = good[:at] + ch() + good[at:]
    elif op == 'insert2':
        bad = good[:at] + ch() + ch() + good[at:]
    elif op == 'cut':
        bad = good[:at]
    elif op == 'head':
        bad = good[at:]
    elif op == 'signature':
        # a signature of another length
        bad = sig[:at] + mark + msg
    elif op == 'swapcase':
        bad = good[:at] + good[at:at + 1].swapcase() + good[at + 1:]
    elif op == 'move':
        # the separator somewhere else
        rest = sig + msg
        bad = rest[:at] + mark + rest[at:]
    elif op in ('swap', 'other payload'):
        get(client(cx, [lines[1].replace('b=', 'a=', 1)], 0), secret)
        other = out['raw'].partition('?')
        bad = other[0] + mark + msg if op == 'swap' else sig + mark + other[2]
        del w.good[1:]
    elif op == 'secret':
        bad, again = good, cx.char('s', TEXT) + cx.char('s', TEXT)
    elif op == 'empty secret':
        bad, again = good, ' '
    elif op == 'longer secret':
        bad, again = good, secret + cx.char('s', TEXT)
    elif op == 'bytes secret':
        bad, again = good, cx.bytes('s', 2)
    elif op == 'payload':
        bad = msg
    elif op == 'nothing':
        bad = '!' + mark + msg
    elif op == 'double':
        bad = good + mark + msg
    elif op == 'resign':
        # signed by somebody who does not know the secret
        bad = '!' + base64.b64encode(FIRST[2][:16]).decode() + mark + msg[:-1] + ch()
    elif op == 'unsigned':
        bad = '!' + mark.join([msg, msg])
    else:
        bad = fill(cx, at, 'x', ANY, '\0')
    del w.loaded[:]
    v = get('a="' + bad + '"' if case['quoted'] else 'a=' + bad, again)
    if again is secret and out['raw'] == good:
        cx.reach('same after parsing')
        return
    cx.check(not w.loaded, 'the payload of an altered cookie is deserialised')
    cx.check(v is DEFAULT, 'an altered cookie does not read as absent')
    cx.reach('altered')


WITNESSES = ('plain', 'signed', 'read', 'altered', 'same after parsing')
ASSUMPTIONS = ['HMAC is ideal: digests of different keys or messages differ, in as little as one byte',
               'pickle: in the signed round trips an injective table of arbitrary bytes, in the alterations the real one',
               'an altered header that unquotes to the very same cookie value is not altered', 'control characters in values and attribute names as cookie names are refused by the standard library']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    deep = tier != 'quick'
    return ('plain: names and values from templates with up to %d arbitrary characters, up to 4 cookies; signed: names and secrets of up to 2 arbitrary characters, '
            'payloads of 0-%d arbitrary bytes; alterations at every position of %d signed cookies (replaced and inserted characters arbitrary Latin-1), other secrets of up to 2 '
            'arbitrary characters, %d values' % ((3, 6, 6, len(VALUES)) if deep else (2, 4, 1, len(VALUES))))
