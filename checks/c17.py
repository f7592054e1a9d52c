"""C17: range and conditional requests describe exactly the bytes delivered."""
import calendar
import mimetypes
import os
import time
from checks import fsstub
from ombott import Ombott, static_file
from checks.util import environ, call

mimetypes.init()
MB = 1048576
DIG = ((48, 57),)
TXT = ((9, 9), (32, 126), (128, 255))
MTIME = 1325419445          # Sun, 01 Jan 2012 12:04:05 GMT


def setup(symbolic):
    pass


def cases(tier):
    deep = True
    more = tier != 'quick'
    out = []

    def add(head, lo, hi, **kw):
        out.append(dict({'head': head, 'lo': lo, 'hi': hi, 'ims': None, 'wrap': len(out) % 3 == 1, 'dom': 'dig'}, **kw))
    # the grammar, small files
    spec = ['?-', '??-', '-?', '-??', '?-?', '??-?', '?-??', '??-??', '00?-0?', '-0?', '?-999', '999-?', '-0', '0-', '0-0', '-1', '0-18446744073709551616', '-18446744073709551616', '18446744073709551616-']
    for s in spec:
        add('bytes=' + s, 0, 40)
    for s in ('?-?', '-?', '?-') if not deep else spec[:8]:
        for rest in (',?-?', ',-?', ', ?-', ' ,?-?', ',', ',x', '\t, 0-0 ', ',0-0,-1'):
            add('bytes=' + s + rest, 0, 30)
    for s in ('', '-', '--?', '-?-', '?-?-?', '?', '?--', 'x-?', '?-x'):
        add('bytes=' + s, 0, 12)
    for u in ('byte=', 'bytes', 'Bytes=', 'BYTES=', 'items=', 'bytes =', 'xbytes=', ' bytes=', 'bytes==', 'bytes=bytes=', '=', 'bytes:'):
        add(u + '?-?', 0, 12)
    # near misses: any character
    for s in ('?', '??', '?0-1', '0?-1', '0-?1', '0-1?', '-?1', '-1?', '1?2', '?-?', '0?1-2?', '1-2??', '?,0-1'):
        add('bytes=' + s, 0, 30, dom='txt')
    for s in ('?', '??', '?ytes=0-1', 'bytes?0-1', 'bytes?=0-1', '?bytes=0-1', 'by?es=0-') + (('???', '????', 'b??es=0-1', 'bytes??-1') if deep else ()):
        add(s, 0, 12, dom='txt')
    if deep:
        for s in ('???', '????', '??-??', '?-?,?-?', '1?3?', '-???', '???-'):
            add('bytes=' + s, 0, 30, dom='txt')
        for s in ('???-???', '????-', '-????', '?????-??????'):
            add('bytes=' + s, 0, 1200)
    if more:
        for s in ('?????', '?0-1??', '0-??1?', '??-?,??', '1??-2?', '-????', '????-'):
            add('bytes=' + s, 0, 300, dom='txt')
        for s in ('?????', 'bytes=?-??', 'byte???0-1', '?bytes=?-1', 'bytes?????'):
            add(s, 0, 12, dom='txt')
        for s in ('????-????', '-?????', '???-,???-?', '0?0?-1?2?,-??'):
            add('bytes=' + s, 0, 100000)
        for s in ('10485??-', '-20971??', '10485??-20971??', '0-41943??', '-52428??'):
            add('bytes=' + s, MB - 5, 5 * MB + 5)
    # around the streaming buffer
    for s in ('0-', '?-', '-?', '0-104857?', '0-104858?', '1-104857?', '?-1048576', '1048575-', '104857?-', '104857?-104857?', '-104857?', '-1048577', '104857?-209715?', '-2097152', '-2097153', '0-2097151', '0-2097152',
              '5-2097159', '1048576-3145727') + (('??-209????', '?-314572?', '-314572?', '104857?-314572?') if deep else ()):
        add('bytes=' + s, MB - 2, 3 * MB + 3)
    for lo, hi in ((MB - 1, MB + 1), (2 * MB - 1, 2 * MB + 1), (3 * MB - 1, 3 * MB + 1)):
        add('bytes=0-', lo, hi)
        add('bytes=-9999999', lo, hi, wrap=True)
    # no range: everything
    for lo, hi in ((0, 3), (0, 200), (65530, 65540), (131070, 131075), (0, 400000 if more else 140000)):
        add(None, lo, hi, wrap=False)
        add(None, lo, hi, wrap=True)
    add('', 0, 10)
    # dates
    dates = ['Sun, 01 Jan 2012 12:04:0? GMT', 'Sun, 01 Jan 2012 12:0?:05 GMT', 'Sun, 01 Jan 2012 1?:04:05 GMT', 'Sun, 0? Jan 2012 12:04:05 GMT', 'Sun, 01 Jan 201? 12:04:05 GMT', 'Sun, 01 Jan 2012 ??:??:?? GMT',
             'Sunday, 01-Jan-12 12:04:0? GMT', 'Sunday, 01-Jan-12 12:0?:?? GMT', 'Sun Jan  1 12:04:0? 2012', 'Sun Jan  ? 12:04:05 2012', 'Sun, 01 Jan 2012 12:04:0? GMT; length=5', 'Thu, 01 Jan 1970 00:00:0? GMT',
             'Fri, 31 Dec 9999 23:59:5? GMT', 'Wed, 01 Aug 2012 0?:??:00 GMT', ' Sun, 01 Jan 2012 12:04:0? GMT ']
    for d in dates:
        for frac in (0, 0.75) if d is dates[0] or deep else (0,):
            for head in (None, 'bytes=?-3', 'bytes=9999-') if d is dates[0] or deep else (None,):
                add(head, 0, 20, ims=d, frac=frac)
    for zone in ('EST5EDT', 'Europe/Moscow', 'Europe/London', 'Asia/Kolkata', 'America/Caracas') if not deep else (
            'EST5EDT', 'Europe/Moscow', 'Europe/London', 'Asia/Kolkata', 'America/Caracas', 'Asia/Pyongyang', 'Europe/Istanbul', 'Africa/Casablanca', 'Pacific/Apia', 'Australia/Lord_Howe'):
        for d, m in (('Sun, 01 Jan 2012 12:04:0? GMT', MTIME), ('Fri, 01 Jun 2012 0?:?1:00 GMT', 1338509460), ('Wed, 01 Jul 1970 10:0?:00 GMT', 15674580), ('Sun, 28 Oct 2012 0?:30:00 GMT', 1351391400)):
            add(None, 0, 20, ims=d, zone=zone, mtime=m)
    for d in ('?', '??', 'Sun, ? Jan 2012 12:04:05 GMT', 'Sun, 01 Jan ? 12:04:05 GMT', 'Sun, 01 Jan 2012 ? GMT', 'Sun, 01 Jan 2012 12:04:05 ?', '?, 01 Jan 2012 12:04:05 GMT', 'Sun, 01 ? 2012 12:04:05 GMT',
              'Sun, 01 Jan 2012 99:99:9? GMT', '01 Jan 2012 12:04?05 GMT', 'Sun, 99 Jan 2012 12:04:0? GMT', 'Sun, 01 Jan 2012 12:04:05 +?', ';?', '0', '-1', 'Sun, 01 Jan 99999? 12:04:05 GMT',
              'Sun, 01 Jan 2012 12:04:05 -99?99'):
        add(None, 0, 5, ims=d, dom='txt')
    return out


def fill(cx, t, name, dom):
    out = ''
    for ch in t:
        out = out + (cx.char(name, dom) if ch == '?' else ch)
    return out


def number(s):
    """value of a string of ASCII digits, else None"""
    if s == '':
        return None
    for ch in s:
        if not '0' <= ch <= '9':
            return None
    return int(s)


def first(header, n):
    """(certain, slice of the first range): RFC 7233 bytes-unit "=" byte-range-set; not certain: the header is malformed, or has blanks where few clients put them"""
    if header[:6] != 'bytes=':
        return False, None
    specs = header[6:].split(',')
    for i in range(len(specs)):
        s = specs[i]
        if i:
            s = s.lstrip(' \t')
        ab = s.split('-')
        if len(ab) != 2:
            return False, None
        a, b = number(ab[0]), number(ab[1])
        if a is None and (ab[0] != '' or b is None) or b is None and ab[1] != '':
            return False, None
        if i == 0:
            if a is None:
                r = (n - b if b < n else 0, n) if b > 0 and n > 0 else None
            elif b is None:
                r = (a, n) if a < n else None
            else:
                r = (a, b + 1 if b < n else n) if a <= b and a < n else None
    return True, r


def epoch(text):
    """seconds of an IMF-fixdate, RFC 850 or asctime date made from the templates (fields are digits)"""
    mon = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
    text = text.strip().split(';')[0].split(' ')
    if text[1][2:3] == '-':
        d, m, y = text[1].split('-')
        y = '20' + y
        t = text[2]
    elif text[0][3:] == ',':
        d, m, y, t = text[1:5]
    else:
        text = [x for x in text if x != '']
        m, d, t, y = text[1:5]
    h, mi, s = t.split(':')
    y, d, h, mi, s = int(y), int(d), int(h), int(mi), int(s)
    m = mon.index(m) + 1
    days = (y - 1970) * 365 + (y - 1969) // 4 - (y - 1901) // 100 + (y - 1601) // 400 + (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)[m - 1] + d - 1
    if m > 2 and (y % 4 == 0 and y % 100 != 0 or y % 400 == 0):
        days += 1
    sane = 1 <= d and h <= 23 and mi <= 59 and s <= 59
    return days * 86400 + h * 3600 + mi * 60 + s if sane else None


def one(r, name):
    """value of a header that is given at most once"""
    v = r.header(name)
    return ', '.join(v) if v else None


class Wrapper:
    """what a server puts into wsgi.file_wrapper"""
    def __init__(self, f, size=MB):
        self.f, self.size = f, size

    def __iter__(self):
        while True:
            r = self.f.read(self.size)
            if not len(r):
                return
            yield r

    def close(self):
        self.f.close()


def serve(cx, case, fs, method, kw):
    app = Ombott({})
    app.route('/', callback=lambda: static_file('a.txt', '/srv'))
    if case['wrap']:
        kw = dict(kw)
        kw['wsgi.file_wrapper'] = Wrapper
    zone = case.get('zone')
    old = os.environ.get('TZ')
    fsstub.CUR.append(fs)
    try:
        if zone:
            fs.off = 1
            os.environ['TZ'] = zone
            time.tzset()
            fs.off = 0
        return call(app, environ('/', method=method, **kw))
    finally:
        fsstub.CUR.pop()
        if zone:
            if old is None:
                del os.environ['TZ']
            else:
                os.environ['TZ'] = old
            time.tzset()


def run(cx, case):
    data = cx.blob('file', case['lo'], case['hi'])
    n = len(data)
    mtime = case.get('mtime', MTIME) + case.get('frac', 0)
    dom = DIG if case['dom'] == 'dig' else TXT
    kw = {}
    header = ims = None
    if case['head'] is not None:
        header = kw['HTTP_RANGE'] = fill(cx, case['head'], 'range', dom)
    if case['ims'] is not None:
        ims = kw['HTTP_IF_MODIFIED_SINCE'] = fill(cx, case['ims'], 'date', dom)
    fs = fsstub.Fs(cx, 'file', data, mtime, root='/srv')
    r = serve(cx, case, fs, 'GET', kw)
    fh = fsstub.Fs(cx, 'file', data, mtime, root='/srv')
    h = serve(cx, case, fh, 'HEAD', kw)
    cx.obs('status', r.status)
    cx.obs('sizes', [len(c) for c in r.chunks][:6])
    cx.check(h.code == r.code, 'HEAD has another status than GET')
    cx.check(len(h.body) == 0, 'HEAD has a body')
    cx.check([x for x in h.headers if x[0] != 'Date'] == [x for x in r.headers if x[0] != 'Date'], 'HEAD has other headers than GET')
    want = r.code
    if ims is not None:
        if case['dom'] == 'dig':
            when = epoch(ims)
            if when is None:
                cx.check(header is not None or r.code in (200, 304), 'a date out of range is answered with something else than 200 or 304')
            else:
                old = when >= int(mtime)
                cx.check((r.code == 304) == old, 'a file no newer than the date is delivered, or a newer one is not')
                cx.reach('fresh' if old else 'stale')
        elif header is None:
            cx.check(r.code in (200, 304), 'a malformed date is answered with something else than 200 or 304')
        if r.code == 304:
            cx.check(len(r.body) == 0, 'a 304 has a body')
            return
    if not header:
        cx.check(r.code == 200, 'a file is not served with 200')
        cx.check(one(r, 'Content-Length') == str(n), 'the length is wrong')
        cx.check(one(r, 'Content-Range') is None, 'a Content-Range for a whole file')
        cx.check(r.body == data, 'the file is not delivered as it is')
        for c in r.chunks:
            cx.check(len(c) <= MB, 'a chunk is larger than the buffer')
        cx.reach('whole')
        return
    certain, want = first(header, n)
    cx.check(r.code in (206, 416), 'a range request is answered with something else than 206 or 416')
    if r.code == 416:
        cx.check(not certain or want is None, 'a range that can be satisfied is refused')
        cx.reach('refused')
        return
    cx.check(not certain or want is not None, 'a range that cannot be satisfied is served')
    cr = one(r, 'Content-Range')
    if certain:
        a, b = want
        cx.check(cr == 'bytes %d-%d/%d' % (a, b - 1, n), 'Content-Range is not the first range, clipped')
        cx.reach('served')
    else:
        cx.check(cr is not None and cr[:6] == 'bytes ', 'no Content-Range')
        span, total = cr[6:].split('/')
        a, b = [number(x) for x in span.split('-')]
        cx.check(a is not None and b is not None and number(total) == n, 'Content-Range is malformed')
        b = b + 1
        cx.check(0 <= a and a < b and b <= n, 'Content-Range is outside the file')
        cx.reach('odd')
    cx.check(one(r, 'Content-Length') == str(b - a), 'Content-Length is not the length of the range')
    got = 0
    for c in r.chunks:
        cx.check(len(c) <= MB, 'a chunk is larger than the buffer')
        got += len(c)
    cx.check(got == b - a, 'more or fewer bytes are delivered than announced')
    cx.check(r.body == data[a:b], 'other bytes are delivered than announced')


WITNESSES = ('served', 'refused', 'odd', 'whole', 'fresh', 'stale')
ASSUMPTIONS = ['the file does not change while it is served; reads are as long as asked unless the file ends', 'the content is an opaque byte string (only copied and sliced by the code)',
               'the file system is a stand-in with a symbolic file length']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('files of 0..40 bytes and %d..%d bytes (the streaming buffer and its multiples), Range headers from the grammar with up to %d symbolic digits, near misses with up to %d arbitrary '
            'characters, conditional dates in the three formats with symbolic digits in several time zones, malformed dates with arbitrary characters; GET and HEAD, with and without wsgi.file_wrapper'
            % (MB - 2, (5 if tier != 'quick' else 3) * MB + 5, 8 if tier != 'quick' else 11, 5 if tier != 'quick' else 4))
