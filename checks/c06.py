"""C06: multipart parsing does not depend on how the body was divided into buffers."""
from ombott.request_pkg.multipart import MultipartMarkup

# '?' is an arbitrary byte, in headers any byte but CR and LF
HDR = tuple((a, b) for a, b in ((0, 9), (11, 12), (14, 255)))


def setup(symbolic):
    pass


DATA = ['', '?', '??', '???', '????', 'a???', '??a?', '\r???', '\r\n??', '\r\n-??', '\r\n--?', '\r\n--B?', '??\r\n-', '??\r\n--', '--B??', '\r\n\r\n?',
        '?\r\n--', '\r\r\n-?', '-?-?', '\r?\r?\r', '?\n?\n', 'aaaaa??', 'aaaaaa\r??', 'B\r\n?-']
BOUNDS_ = ['b', '-', '--', 'bb', 'b-', 'ab', '-b-', 'bab']
HEADERS = ['N:x', 'N:?', 'N: ?\r\nM:?', 'N:??', '?:']
EPI = ['', '\r\n', '?', '??', '\r\n--B\r\nN:x\r\n\r\n', '--', '\r\n?x\r\n--B--']


def cases(tier):
    deep = tier != 'quick'
    out = []
    for b in BOUNDS_:
        for d in DATA:
            free = d.count('?')
            if not deep and b not in ('b', '--') and (free > 3 or len(d) > 5):
                continue
            if not deep and free > 3 and b != 'b':
                continue
            out.append({'b': b, 'parts': [['N:x', d]], 'epi': '', 'crlf': b == 'bb',
                        'cuts': 2 if deep or free < 3 or b == 'b' else 1})
            if deep or b in ('b', '--') and free < 3:
                out.append({'b': b, 'parts': [['N:x', d], ['M:y', 'z']], 'epi': '', 'crlf': False, 'cuts': 2 if deep else 1})
        for h in HEADERS:
            out.append({'b': b, 'parts': [[h, 'z']], 'epi': '', 'crlf': False, 'cuts': 2})
            if b == 'b':
                out.append({'b': b, 'parts': [['N:x', ''], [h, 'z']], 'epi': '', 'crlf': True, 'cuts': 2})
    for e in EPI:
        for b in ('b', '--', 'b-') if deep else ('b', '--'):
            for crlf in (False, True):
                out.append({'b': b, 'parts': [['N:x', 'z']], 'epi': e, 'crlf': crlf, 'cuts': 2})
            out.append({'b': b, 'parts': [], 'epi': e, 'crlf': False, 'cuts': 2})
    # any boundary
    for n in (1, 2, 3) if deep else (1, 2):
        for d in ('', '?', '??', '\r\n-?', '\r\n--B'[:-1] + '?'):
            out.append({'b': n, 'parts': [['N:x', d]], 'epi': '', 'crlf': False, 'cuts': 1 if n > 1 and not deep else 2})
    return out


def build(cx, case):
    """(boundary, body, layout) ; layout: [name, start, end, end of what has to be seen]"""
    b = case['b']
    if not isinstance(b, str):
        bnd = cx.bytes('boundary', b, ((0x2B, 0x3A), (0x5F, 0x62), (0x20, 0x20)))
    else:
        bnd = b.encode()
    tok = b'--' + bnd

    def fill(t, dom=None):
        out = b''
        i = 0
        for ch in t:
            if ch == '?':
                out += cx.bytes('y', 1, dom)
            elif ch == 'B':
                out += bnd[:-1]
            else:
                out += ch.encode('latin1')
        return out
    body = (b'\r\n' if case['crlf'] else b'') + tok
    lay = [['data', 0, 0, len(body)]]
    for h, d in case['parts']:
        body += b'\r\n'
        st = len(body)
        body += fill(h, HDR)
        lay.append(['headers', st, len(body), len(body) + 4])
        body += b'\r\n\r\n'
        st = len(body)
        data = fill(d)
        cx.assume((data + b'\r\n' + tok).find(b'\r\n' + tok) == len(data))
        body += data
        lay.append(['data', st, len(body), len(body) + len(tok) + 2])
        body += b'\r\n' + tok
    body += b'--' + fill(case['epi'])
    return bnd, body, lay


def state(m):
    e = m.error
    return [[n, s, t] for n, (s, t) in m.markups], None if e is None else type(e).__name__


def feed(bnd, body, cuts):
    m = MultipartMarkup(bnd)
    pos = 0
    for c in list(cuts) + [len(body)]:
        m.parse(body[pos:c])
        pos = c
    return m


def run(cx, case):
    bnd, body, lay = build(cx, case)
    n = len(body)
    ref = {}

    def one(k):
        """the first k bytes in one piece"""
        if k not in ref:
            ref[k] = state(feed(bnd, body[:k], ()))
        return ref[k]
    whole = one(n)
    cx.obs('whole', whole)
    cx.check(whole[1] is None, 'a well-formed body is an error')
    cx.check(whole[0] == [x[:3] for x in lay], 'sections of a well-formed body')
    cx.reach('whole')
    a = cx.choice('cut', range(0, n + 1))
    if a == 0:
        # prefixes in one piece: exactly what is complete
        for k in range(n):
            s, e = one(k)
            cx.check(e is None, 'a prefix of a well-formed body is an error')
            cx.check(s == [x[:3] for x in lay if x[3] <= k], 'sections of a prefix')
        # byte at a time, regular cuts; every state on the way is that of a prefix
        for step in (1, 2, 3, 5, 7):
            m = MultipartMarkup(bnd)
            for i in range(0, n, step):
                m.parse(body[i:i + step])
                cx.check(state(m) == one(min(n, i + step)), 'regular division')
        cx.reach('steps')
    m = feed(bnd, body, (a,))
    cx.check(state(m) == whole, 'one cut')
    if case['cuts'] > 1:
        for b in range(a, n + 1):
            m = MultipartMarkup(bnd)
            m.parse(body[:a])
            m.parse(body[a:b])
            cx.check(state(m) == one(b), 'two cuts (prefix)')
            m.parse(body[b:])
            cx.check(state(m) == whole, 'two cuts')
        cx.reach('cuts')


WITNESSES = ('whole', 'steps', 'cuts')
ASSUMPTIONS = ['well-formed: no preamble, every part has a header line, header lines without bare CR or LF, data free of CRLF--boundary',
               'errors are compared by their type']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('bodies of 0..2 parts with data templates of up to 4 arbitrary bytes among look-alikes, header lines with arbitrary bytes, 8 boundaries and every '
            'boundary of 1-%d characters, epilogues; every single and double cut, regular cuts of 1,2,3,5,7 bytes, every prefix' % (3 if tier != 'quick' else 2))
