"""C12: malformed request bodies yield client errors, never server faults."""
import json
import json.decoder
import json.scanner
import re
from ombott import Ombott
from checks.util import environ, call

CD = 'Content-Disposition: form-data; name="a"'
ONE = '--B\r\n' + CD + '\r\n\r\nv\r\n--B--\r\n'
SHORT = '--B\r\n' + CD + '\r\n\r\nvw\r\n--B--'
FILE = '--B\r\n' + CD + '; filename="f"\r\nContent-Type: text/plain\r\n\r\nd\r\n--B--\r\n'
TWO = '--B\r\n' + CD + '\r\n\r\nv\r\n--B\r\nContent-Disposition: form-data; name="b"; filename="f"\r\n\r\nd\r\nd\r\n--B--\r\n'
MP = 'multipart/form-data; boundary=B'
URL = 'application/x-www-form-urlencoded'
JS = 'application/json'
HOWS = ['forms', 'files', 'POST', 'params', 'json', 'body', 'forms+files', 'files+POST+forms', 'body+forms', 'json+forms', 'params+body+json', 'POST+POST']


def setup(symbolic):
    if symbolic:
        # the C scanner in use takes hexadecimal digits only, its Python twin anything int() takes
        def decode(s, pos):
            esc = s[pos + 1:pos + 5]
            if len(esc) == 4 and all(c in '0123456789abcdefABCDEF' for c in esc):
                return int(esc, 16)
            raise json.decoder.JSONDecodeError('Invalid \\uXXXX escape', s, pos)
        json.decoder._decode_uXXXX = decode
        json.scanner.NUMBER_RE = re.compile(r'(-?(?:0|[1-9][0-9]*))(\.[0-9]+)?([eE][-+]?[0-9]+)?')
        json._default_decoder = json.JSONDecoder()


def cases(tier):
    deep = tier != 'quick'
    out = []

    def add(body, ct=MP, how='forms', fr='cl', mem=1000, top=None, cl=None):
        out.append({'body': body, 'ct': ct, 'how': how, 'fr': fr, 'mem': mem, 'top': top, 'cl': cl})
    n = 0

    def every(body, **kw):
        nonlocal n
        n += 1
        add(body, how=('forms', 'files', 'POST', 'params', 'files+POST+forms', 'body+forms')[n % 6], fr=('cl', 'chunked')[n % 2], mem=1000 if n % 3 else 20, **kw)
    for base in (ONE, SHORT, FILE, TWO):
        for k in range(len(base) + 1):
            # truncated anywhere, any byte put in, any byte replaced, one left out
            for tail in ('', '?', '\r?', '\r\n--?') if deep or base is not TWO else ('', '?'):
                every(base[:k] + tail)
            if k < len(base):
                every(base[:k] + '?' + base[k:])
                every(base[:k] + '?' + base[k + 1:])
                every(base[:k] + base[k + 1:])
                if deep:
                    every(base[:k] + '??' + base[k + 1:])
                    every(base[:k] + '??' + base[k + 2:])
                    every(base[:k] + base[k + 2:])
                    every(base[:k] + '\r\n--B?' + base[k:])
                    every(base[:k] + '\r\n\r\n' + base[k:])
    # headers
    for h in ['', '?', '??', '???', ':', '?:?', CD + '?', CD + '\r\n?', CD + '\r\n?:?', '?\r\n' + CD, CD + ';?', CD + '\r\n' + CD.replace('"a"', '?'), 'Content-Disposition:',
              'Content-Disposition: ?', 'Content-Disposition', 'Content-Disposition: form-data', 'Content-Disposition: form-data; name', 'Content-Disposition: form-data; name=',
              'Content-Disposition: form-data; name=?', 'Content-Disposition: form-data; name="?', 'Content-Disposition: form-data; ?=?', 'Content-Disposition: form-data; name=??',
              'Content-Disposition: form-data; name="??"', 'content-disposition:;name=?', 'Content-Disposition: ; ; =; name=a?', CD + '; filename', CD + '; filename=', CD + '; filename="?',
              CD + '\r\nContent-Type', CD + '\r\nContent-Type:', CD + '\r\nContent-Type: ?', CD + '; filename=x\r\nContent-Type:?', CD + '; filename=x\r\nContent-Length: ?',
              CD + '\r\n ?', CD + '\n?', CD + '\r?', 'Content-Type: text/plain', CD + '\r\n\xff: ?', CD + '\r\n--B?', CD + '\r\n--B: ?', 'Content-Disposition: form-data; name="\xff?"',
              'X: ??\r\n' + CD]:
        for m in (('cl', 1000), ('chunked', 1000), ('cl', 30)):
            add('--B\r\n' + h + '\r\n\r\nd?\r\n--B--\r\n', fr=m[0], mem=m[1], how=HOWS[len(out) % 4])
        add('--B\r\n' + CD + '\r\n\r\nd\r\n--B\r\n' + h + '\r\n\r\nx\r\n--B--', how='files+POST+forms')
        add('--B\r\n' + h, how='forms+files')
        add('--B\r\n' + h + '\r\n\r\n', how='POST')
        add('--B\r\n' + h + '\r\n--B--', how='POST')
    # delimiters
    p = CD + '\r\n\r\n'
    for b in ['', '?', '??', '???', '--B', '--B?', '--B??', '--B???', '--B-?-', '--B--?', '\r\n--B?', '\r\n--B--?', '\r\n?--B', '?--B\r\n', '-?B', '--?\r\n' + p + 'd\r\n--B--', 'x\r\n--B--?',
              'x\r\n--B\r\n' + p + 'd\r\n--B--', '--B\r\n' + p + 'd', '--B\r\n' + p + 'd\r\n--', '--B\r\n' + p + '\r\n--B--', '--B\r\n' + p + '--B--', '--B\r\n' + p + 'd\r\n--B',
              '--B\r\n' + p + 'd\r\n--B?', '--B\r\n' + p + 'd\r\n--B--?' + p, '--B\r\n' + p + 'd\r\n--B\r\n', '--B\r\n' + p + 'd\r\n--B\r\n?', '--B\r\n' + p + 'd\r\n--B\r\n--B--',
              '--B\r\n--B--', '--B\r\n\r\n--B--', '--B\r\n\r\n\r\n--B--', '--B\r\n' + p + 'd\r\n--B--\r\n--B\r\n' + p + 'e\r\n--B--', '--B--\r\n--B\r\n' + p + 'e\r\n--B--',
              '--B\n' + CD + '\n\nd\n--B--', '--B \r\n' + p + 'd\r\n--B--', '\r\n\r\n--B\r\n' + p + 'd\r\n--B--', '--B\r\n' + p + '????', '--B\r\n' + p + '\r\n--?????' + 'B',
              '--B\r\n' + p + 'd\r\n--B\r\n' + p + 'e??', '--B\r\n' + p + 'd\r\n--B\r\n' + p + '\xff\xfe?\r\n--B--', '--B\r\n' + p + '\xc3?\r\n--B--', '--B\r\n' + p + '\xed\xa0?\r\n--B--']:
        for how in ('forms', 'files+POST+forms', 'body+forms', 'POST+POST') if deep else ('forms', 'files+POST+forms'):
            for fr in ('cl', 'chunked'):
                add(b, how=how, fr=fr)
    # content types
    for ct in ['', '?', '??', '???', ';', '?;?', 'multipart/', 'multipart/?', 'multipart/form-data', 'multipart/form-data;', 'multipart/form-data; boundary', 'multipart/form-data; boundary=',
               'multipart/form-data; boundary=""', 'multipart/form-data; boundary=?', 'multipart/form-data; boundary="?"', 'multipart/form-data; boundary="??', 'multipart/form-data;?boundary=B',
               'multipart/form-data; boundary=B?', 'multipart/form-data; boundary=B;?', 'multipart/form-data? boundary=B', 'multipart/form-data; ?oundary=B', 'multipart?form-data; boundary=B',
               'multipart/form-data; boundary=?; boundary=B', 'application/json?', 'application/json;?', 'application/json; charset=?', '?application/json', 'application/jso?', 'text/plain',
               'text/?', 'application/x-www-form-urlencoded;?', 'multipart/mixed; boundary=\xff', 'Multipart/Form-Data; Boundary=B', 'multipart/form-data; boundary*=B?']:
        for body in (ONE, '', '--', '\xff', '[1]', '{"a": 1}', 'a=1&b'):
            for how in HOWS[:8] if deep else HOWS[:8:3]:
                add(body, ct=ct, how=how)
    # json
    js = ['', '?', '??', '???', '[?]', '{?}', '{"?": 1}', '{"a":?}', '{"a" ?', '"?', '"??"', '"\\?"', '"\\u00??"', '"\\ud8?0"', '[1?', '[1,?]', '-?', '1?', '1.?', '1e?', 'N?', '?NaN', 'nul?', 'tru?',
          ' ?', '\xef\xbb\xbf?', '\xff?', '\xc3?', '{}?', '[]?', 'null', 'true', '0', '""', '[]', '{}', '[[1]]', '{"a": {"b": ?}}', '{"a": 1, "a": ?}', '1e999', 'Infinity', '{"self": 1}',
          '{"": null}', '\x00?', '\xfe\xff\x00?', '{\x00?', '[\x00\x00\x00?', '1' * 4500, '[' * 60, '{"a":' * 60, '[' * 60 + '?' + ']' * 60]
    for b in js + (['????', '{"?":?}', '"\\u????"'] if deep else []):
        for how in (HOWS if deep or len(b) < 3 else [HOWS[(i * 3 + len(b)) % 12] for i in range(4)] + ['json']):
            add(b, ct=JS, how=how, fr='chunked' if how == 'forms' else 'cl', mem=10000)
    for how in HOWS[:10] if deep else ('json', 'forms', 'params'):
        for c in ('[', '{"a":'):
            add(c + '*', ct=JS, how=how, mem=200000)
    # urlencoded
    for b in ['?', '??', '???', 'a=?', '%?', '%??', 'a=%??', '?=?&?', '&?', '=&=?', '+?', 'a?b', 'self=?', '%', '%2', 'a=%C3%?8', 'a;?', '\xff=\xfe', 'x=%00?'] + (['????', '%??%??', '?=%?'] if deep else []):
        for how in HOWS if len(b) < 3 or deep else [HOWS[(i * 5 + len(b)) % 12] for i in range(4)]:
            add(b, ct=URL, how=how, fr='chunked' if how == 'files' else 'cl')
    # framing
    for ct, body in ((MP, ONE), (URL, 'a=b'), (JS, '{"a": 1}'), ('', 'xyz')):
        for how in HOWS if deep else HOWS[::2]:
            for cl in ('', '?', '??', '-?', '-1', '1?', '0', '1_0', ' 5', '5 ', '+3', '3.0', 'abc', '9' * 30, '9' * 5000, '\xb2', '\u0663'.encode('utf8').decode('latin1')):
                add(body, ct=ct, how=how, cl=cl)
            add(body, ct=ct, how=how, cl=None, fr='cl', top=len(body) - 1)
            add(body, ct=ct, how=how, cl=None, fr='chunked', top=len(body) - 1)
            for raw in ('', '?', '??', '3\r\n', '3\r\nab', '3\r\nabc', '3\r\nabc\r\n', '3\r\nabc?\n0\r\n\r\n', '?\r\nabc\r\n0\r\n\r\n', '-1\r\n?', '3;?\r\nabc\r\n0', '1' * 30 + '\r\nabc', '?3\r\nabc\r\n0\r\n\r\n'):
                add(raw, ct=ct, how=how, fr='raw')
    # thresholds
    for mem in range(0, 130) if deep else range(0, 130, 2):
        add(TWO, how='forms', mem=mem + 1)
        add('--B\r\n' + CD + '\r\n\r\n' + 'vw?xyz\r\n--B\r\n' + CD + '\r\n\r\n?2345\r\n--B--', how='POST', mem=mem, fr='cl' if mem % 3 else 'chunked')
    for mem in range(0, 120, 7) if not deep else range(0, 150):
        for how in ('forms', 'POST+POST', 'body', 'params') if deep else ('forms', 'POST+POST'):
            add('a=' + 'b' * 60 + '?', ct=URL, how=how, mem=mem, fr='chunked' if mem % 2 else 'cl')
            add('"' + 'b' * 60 + '?"', ct=JS, how=how, mem=mem)
    return out


def fill(cx, t, name):
    out = b''
    for ch in t:
        out = out + (cx.bytes(name, 1) if ch == '?' else ch.encode('latin1'))
    return out


LATIN = ((0, 255),)


def run(cx, case):
    t = case['body']
    if t.endswith('*'):
        t = t[:-1] * DEEP[0]
    body = fill(cx, t, 'y')
    ct = case['ct'][:0]
    for ch in case['ct']:
        ct = ct + (cx.char('c', LATIN) if ch == '?' else ch)
    app = Ombott({'max_memfile_size': case['mem'], 'max_body_size': case['top']})
    steps = case['how'].split('+')
    seen = {}

    def access(what):
        v = getattr(app.request, what)
        if what in ('forms', 'files', 'POST'):
            seen[what] = v
        elif what == 'body':
            v.read()

    def handler():
        for what in steps[:-1]:
            try:
                access(what)
            except Exception as e:
                cx.check(400 <= getattr(e, 'status_code', 500) < 500, 'reading the body raises something else than a client error')
                cx.reach('refused first')
        access(steps[-1])
        return 'ok'
    app.route('/', method='POST', callback=handler)
    kw = {'CONTENT_TYPE': ct}
    data = body
    known = body
    if case['fr'] == 'raw':
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
        known = None
    elif case['fr'] == 'chunked':
        data, pos = b'', 0
        cuts = (len(body) // 3, len(body) - 1, len(body))
        for c in cuts:
            if c > pos:
                data += b'%x\r\n' % (c - pos) + body[pos:c] + b'\r\n'
                pos = c
        data += b'0\r\n\r\n'
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
    elif case['cl'] is not None:
        cl = case['cl'][:0]
        for ch in case['cl']:
            cl = cl + (cx.char('l', LATIN) if ch == '?' else ch)
        kw['CONTENT_LENGTH'] = cl
        known = None
    env = environ(method='POST', body=data, **kw)
    errs = env['wsgi.errors']
    r = call(app, env)
    cx.obs('status', r.status)
    cx.check(not errs.lines, 'a traceback is written for a malformed body')
    cx.check(r.code == 200 or 400 <= r.code <= 499, 'a malformed body yields neither success nor a client error')
    if r.code == 200:
        cx.reach('accepted')
        if case['ct'] == MP and known is not None:
            whole = parts(known)
            for what, v in seen.items():
                for vals in v.values():
                    for x in vals if isinstance(vals, list) else [vals]:
                        d = x.encode('utf8') if isinstance(x, str) else x.file.read()
                        if not isinstance(x, str):
                            x.file.seek(0)
                        cx.check(complete(d, whole), 'a delivered field is not the complete data of a part')
                        cx.reach('delivered')
    else:
        cx.reach('refused')


def parts(body):
    """data of every part: from the blank line after a delimiter to the next delimiter"""
    tok = b'\r\n--B'
    out = []
    s = b'\r\n' + body
    pos = s.find(tok)
    while pos >= 0:
        pos += len(tok)
        h = s.find(b'\r\n\r\n', pos)
        if h < 0:
            break
        end = s.find(tok, h + 4)
        # the blank line and the delimiter do not share bytes in a part, but an empty header or an empty part may
        end2 = s.find(tok, h + 2)
        if end >= 0:
            out.append(s[h + 4:end])
        if 0 <= end2 < h + 4:
            out.append(b'')
        pos = s.find(tok, pos)
    return out


def complete(d, whole):
    for w in whole:
        if len(w) == len(d) and w == d:
            return True
    return False


DEEP = [60000]
WITNESSES = ('accepted', 'refused', 'refused first', 'delivered')
ASSUMPTIONS = ['the handler lets the error of its last access propagate', 'a part may also be refused although it is complete (C06 and C07 decide what must be accepted)']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('every truncation, insertion, replacement and deletion of one byte (thorough: also of two) in 4 multipart bodies, templates of headers, delimiters, JSON and urlencoded '
            'bodies of 0-%d arbitrary bytes, content types with up to 3 arbitrary Latin-1 characters, Content-Length and chunk framing with arbitrary characters, 12 access orders'
            % (4 if tier != 'quick' else 3))
