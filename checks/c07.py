"""C07: multipart forms and uploads round-trip exactly."""
import io
from ombott import Ombott
from checks.util import environ, call

# any character but the double quote and line breaks
NAME = ((0, 9), (11, 12), (14, 33), (35, 0xD7FF), (0xE000, 0x10FFFF))
NARROW = ((0, 9), (11, 12), (14, 33), (35, 126))
TOK = ((33, 126),)
ASCII = ((0, 127),)


def setup(symbolic):
    pass


# boundary parameter as sent, boundary
BND = [('B', 'B'), ('"B"', 'B'), ('"a b"', 'a b'), ("\"a:b=c;d\"", 'a:b=c;d'), ('--', '--'), ("----WebKitFormBoundaryAb0", "----WebKitFormBoundaryAb0"),
       ("'()+_,-./:=?", "'()+_,-./:=?"), ('b; charset=utf-8', 'b'), ('"b" ; x="y;z"', 'b'),
       # @: any character allowed there
       ('"@"', '@'), ('"x@"', 'x@'), ('"@ y"', '@ y'), ('"a@@b"', 'a@@b'), ('x#', 'x#'), ('#', '#'), ('"@@@"', '@@@'), ('##b', '##b')]
BCH = ((39, 41), (43, 58), (61, 61), (63, 63), (65, 90), (95, 95), (97, 122))
TCH = ((39, 39), (43, 43), (45, 46), (48, 57), (65, 90), (95, 95), (97, 122))
CT = ['multipart/form-data; boundary=%s', 'Multipart/Form-Data; Boundary=%s', 'multipart/form-data;boundary=%s', 'multipart/form-data; x=y; boundary=%s']


def T(name, value):
    return ['t', name, value]


def F(name, fn, ct, data):
    return ['f', name, fn, ct, data]


def cases(tier):
    deep = tier != 'quick'
    out = []

    def add(fields, b=0, ct=0, fr='cl', mem='mem', how='plain'):
        out.append({'fields': fields, 'b': b, 'ct': ct, 'fr': fr, 'mem': mem, 'how': how, 'w': 4 if deep else 2})
    add([])
    # names
    for n in ['?', '??', 'a?b', '?;?', '; name=?', '?=', '\\', '?\\', ' ?', '? ', 'a; filename=?', 'filename', "?'", ';?', '=?;', '%22?', '\\?'] + (['???', '?;?=', '=?=?'] if deep else []):
        add([T(n, 'v')])
        add([F(n, 'f.txt', 'text/plain', 'd')])
    for n in ['', '?', '??', 'a?b', '?;?', '; name=?', '?\\', ' ? ', 'C:\\d\\?', '; filename=?', '?=', ';', '..\\?', '?/?'] + (['???', '?;?=?'] if deep else []):
        add([F('a', n, 'text/plain', 'd')])
        add([F('?', n, '', 'd'), T('b', '1')])
    # values
    for v in ['', '?', '??', 'a?b', '\r\n?', '?\r\n', '\r\n--?', '--B', '--B--', '\r\n-?-B', '? ;', '\r\n\r\n?', 'é?'] + (['???', '\r\n--?\r'] if deep else []):
        add([T('a', v)])
        add([T('a', v), T('b', '?')])
        add([F('a', 'f', '', v.replace('é', '\xe9'))])
        add([F('a', 'f', '', v.replace('é', '\xe9')), T('b', 'z')], b=1)
    for d in ['?\r?', '\r\r\n?', '?-?-?', '\x00?', '????', '\r\n--\r\n--?']:
        add([F('a', 'f', 'image/png', d), F('b', 'g', '', d[:-1])])
    for d in ['\r\n???', '\r\n--??', '??\r\n--', '?\r\r\n--?', '--??', '\n?\r\n-?', 'B--??', '?a\r??\n'] + (['\r????', '\r\n--???'] if deep else []):
        for b in range(0, 9, 2) if deep else (0, 2, 4):
            d2 = d.replace('B', BND[b][1])
            add([F('a', 'f', '', d2), T('b', 'z')], b=b)
            add([F('a', 'f', '', d2), F('b', 'g', '', d2[:2] + '?')], b=b, fr='chunk2' if b % 2 else 'cl')
            add([T('a', d2.replace('?', 'x', 3)), F('b', '?', '', d2[:3])], b=b)
    for n in (('???', '??;') if deep else ('a??',)) + ('?;?', '?=?;', '\\??', '??\\', ' ?? '):
        for m in ('??', ';?', '?\\', '"'[:0]):
            add([F(n, m, 'text/plain', '?'), T(m, '?')])
            add([T(n, m), T(m, n)])
    # content types
    for c in ['text/plain', '?/?', 'text/plain; charset=?', 'text/plain; x="?;?"', 'a/b;?', '?']:
        add([F('a', 'f', c, 'd')])
    # repeated names, interleaving
    A, U = T('?', '1'), F('?', 'x', '', 'u')
    for fs in [[A, A], [A, A, A], [U, U], [A, U], [U, A], [A, U, A], [U, A, U], [T('a', ''), T('a', '')], [F('a', '', '', ''), F('a', 'b', '', 'c')],
               [T('a', '1'), F('a', 'f', '', '?'), T('a', '2'), F('a', 'g', '', '3'), T('b', '4')]] + ([[A, U, A, U], [A, A, A, A]] if deep else []):
        add(fs)
    # boundaries and spellings of the content type
    for i in range(len(BND)):
        add([T('a', '?'), F('b', 'f', '', '?')], b=i)
        add([F('a', 'f', '', '\r\n--?-'), T('b', 'x')], b=i, ct=i % len(CT))
    for i in range(len(CT)):
        add([T('a', '?')], b=1, ct=i)
    # framing and thresholds
    big = 'y' * 150 + '\r\n--?' + 'z' * 100
    for fr in ('cl', 'chunk1', 'chunk2', 'chunk7'):
        for mem in ('mem', 'disk'):
            add([T('a', 'v?'), F('b', 'f?', '', big), T('c', '?')], fr=fr, mem=mem)
            add([F('b', 'f', '', big), F('c', 'g', '', 'x' * 60 + '?')], fr=fr, mem=mem, how='mixed')
    # ways to read an upload
    for how in ('parts', 'seek', 'save', 'mixed', 'again'):
        add([F('a', 'f', '', 'ab?de'), F('b', 'g', '', 'x?'), T('c', 'v')], how=how)
        add([F('a', 'f', '', ''), F('b', 'g', '', '?\r\n')], how=how, fr='chunk7')
    return out


def fill(cx, t, name, dom, wide):
    # all free characters are arbitrary Unicode if they are few, else ASCII
    out = t[:0]
    for ch in t:
        if ch == '?':
            ch = cx.char(name, dom if wide else NARROW if dom is NAME else ASCII)
        out = out + ch
    return out


def fillb(cx, t):
    out = b''
    for ch in t:
        out = out + (cx.bytes('y', 1) if ch == '?' else ch.encode('latin1'))
    return out


def run(cx, case):
    param, bnd = BND[case['b']]
    if '@' in bnd or '#' in bnd:
        chars = [cx.char('b', BCH if ch == '@' else TCH) if ch in '@#' else ch for ch in bnd]
        bnd = chars[0]
        for ch in chars[1:]:
            bnd = bnd + ch
        param = bnd if param[0] != '"' else '"' + bnd + '"'
    tok = b'--' + bnd.encode()
    ct = CT[case['ct']] % param
    fields = []
    body = b''
    used = 0
    free = sum(f[1].count('?') + f[2].count('?') for f in case['fields'])
    for f in case['fields']:
        name = fill(cx, f[1], 'name', NAME, free <= case['w'])
        h = 'Content-Disposition: form-data; name="' + name + '"'
        if f[0] == 't':
            text = fill(cx, f[2], 'text', None, free <= case['w'])
            data = text.encode('utf8')
            fields.append(('t', name, text))
            fn = None
        else:
            fn = fill(cx, f[2], 'filename', NAME, free <= case['w'])
            h += '; filename="' + fn + '"'
            ctype = fill(cx, f[3], 'ctype', TOK, True)
            if f[3]:
                h += '\r\nContent-Type: ' + ctype
            data = fillb(cx, f[4])
            fields.append(('f', name, fn, ctype, data))
        cx.assume((data + b'\r\n' + tok).find(b'\r\n' + tok) == len(data))
        raw = h.encode('utf8')
        used += len(raw) + (len(data) if fn is None else 0)
        body += tok + b'\r\n' + raw + b'\r\n\r\n' + data + b'\r\n'
    body += tok + b'--\r\n'
    mem = len(body) + 40 if case['mem'] == 'mem' else used + 8
    app = Ombott({'max_memfile_size': mem})
    out = {}

    def handler():
        rq = app.request
        if case['how'] == 'again':
            rq.body.read()
        out['forms'], out['files'], out['POST'] = rq.forms, rq.files, rq.POST
        read_files(cx, case['how'], out)
        return 'ok'
    app.route('/', method='POST', callback=handler)
    kw = {'CONTENT_TYPE': ct}
    if case['fr'] == 'cl':
        data = body
    else:
        n = len(body)
        k = int(case['fr'][5:])
        cuts = [0] + [n * i // (k + 1) for i in range(1, k + 1)] + [n]
        data = b''
        for a, b in zip(cuts, cuts[1:]):
            if b > a:
                data += b'%x\r\n' % (b - a) + body[a:b] + b'\r\n'
        data += b'0\r\n\r\n'
        kw['HTTP_TRANSFER_ENCODING'] = 'chunked'
    if len(body) > mem:
        cx.reach('disk')
    r = call(app, environ(method='POST', body=data, **kw))
    cx.obs('status', r.status)
    cx.check(r.code == 200, 'a well-formed multipart form is refused')
    forms, files, post = {}, {}, {}
    for f in fields:
        dct = forms if f[0] == 't' else files
        v = f[2] if f[0] == 't' else f
        dct.setdefault(f[1], []).append(v)
        post.setdefault(f[1], []).append(v)
    compare(cx, forms, out['forms'], same_text)
    compare(cx, files, out['files'], same_file)
    compare(cx, post, out['POST'], lambda c, w, g: same_file(c, w, g) if isinstance(w, tuple) else same_text(c, w, g))
    cx.reach('fields' if fields else 'empty')


def read_files(cx, how, out):
    """contents of all uploads (each one is read once, in the way of the case)"""
    ups = []
    for v in out['files'].values():
        ups += v if isinstance(v, list) else [v]
    got = [b''] * len(ups)
    if how == 'mixed':
        # alternately, in pieces
        live = True
        while live:
            live = False
            for i, u in enumerate(ups):
                p = u.file.read(70)
                got[i] = got[i] + p
                live = live or len(p) > 0
    for i, u in enumerate(ups):
        f = u.file
        if how == 'parts':
            cx.check(f.read(0) == b'', 'read(0)')
            got[i] = f.read(1) + f.read(2) + f.read(-1)
            cx.check(f.read() == b'' and f.read(4) == b'', 'bytes after the end of an upload')
        elif how == 'seek':
            whole = f.read()
            n = len(whole)
            cx.check(f.tell() == n, 'tell at the end')
            for pos in range(n + 2):
                cx.check(f.seek(pos) == min(pos, n), 'seek')
                cx.check(f.read() == whole[pos:], 'read after seek')
                if pos <= n:
                    cx.check(f.seek(-pos, 2) == n - pos, 'seek from the end')
                    cx.check(f.read(2) == whole[n - pos:][:2], 'read after seek from the end')
            f.seek(0)
            f.read(1)
            f.seek(1, 1)
            cx.check(f.read() == whole[2:], 'read after relative seek')
            f.seek(0)
            got[i] = f.read()
        elif how == 'save':
            b = io.BytesIO()
            u.save(b)
            got[i] = b.getvalue()
            cx.check(f.read() == got[i], 'read after save')
        elif how != 'mixed':
            got[i] = f.read()
    out['content'] = [(u, g) for u, g in zip(ups, got)]
    for u, g in out['content']:
        u.got = g


def same_text(cx, want, got):
    cx.check(isinstance(got, str), 'a text field is not a string')
    cx.check(got == want, 'the text of a field differs')


def same_file(cx, want, got):
    cx.check(not isinstance(got, str) and hasattr(got, 'raw_filename'), 'an upload is not an upload')
    cx.check(got.name == want[1], 'the field name of an upload differs')
    cx.check(got.raw_filename == want[2], 'the filename of an upload differs')
    cx.check(isinstance(got.content_type, str) and got.content_type == want[3], 'the content type of an upload differs')
    cx.check(got.got == want[4], 'the content of an upload differs')


def compare(cx, want, got, same):
    cx.check(len(got) == len(want), 'number of names')
    for name, vals in want.items():
        cx.check(name in got, 'a name is missing')
        g = got[name]
        if len(vals) == 1:
            same(cx, vals[0], g)
        else:
            cx.check(isinstance(g, list) and len(g) == len(vals), 'repeated names are not collected')
            for w, x in zip(vals, g):
                same(cx, w, x)
            cx.reach('repeated')


WITNESSES = ('fields', 'empty', 'repeated', 'disk')
ASSUMPTIONS = ['an encoder writes name and filename between double quotes as UTF-8, unescaped, and header lines end with CRLF',
               'data does not contain CRLF--boundary (a legal boundary)', 'FileUpload.raw_filename is the filename as sent (filename is its sanitised form)']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('forms of 0-%d parts; names, filenames, content types, texts and contents from templates with up to %d arbitrary characters (any Unicode but quote and line '
            'breaks in forms with at most %d, ASCII with more) or bytes; 9 boundaries, 4 spellings of the content type, 4 framings, in memory and on disk, 6 ways to read'
            % ((5, 5, 4) if tier != 'quick' else (5, 4, 2)))
