"""C16: static_file never serves a file outside its root."""
import mimetypes
from checks import fsstub
from ombott import Ombott, static_file
from checks.util import environ, call

mimetypes.init()
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
ROOTS = ['/srv/files', '/srv/files/', '/srv/files//', '/srv/./files', '/srv/x/../files', 'files', './files/', '../files', '.', '', '..', '/', '//srv/files', '/srv/files/.', '/srv/f?', 'f?/',
         '/srv/files\\', '/srv/?/files', '/..', '//', './']
MAIN = ('/srv/files', 'files/')


def setup(symbolic):
    pass


def cases(tier):
    deep = tier != 'quick'
    out = []

    def add(root, name, how='call', kind=None):
        out.append({'root': root, 'name': name, 'how': how, 'kind': kind or 'file', 'cond': len(out) % 5})
    names = ['', '?', '??', '???', '????', 'a/?', '../?', '../files', '../files?', '../files??', '../files/?', '../files-old/x', '?/files-old/x', '../files/../?', '../files/../files/?', '..?x', '?./x', '.?/x',
             'x/../?', 'x/../../?', 'x/../..?files?', 'x/?/../y', './?/x', '..\\?', '..\\..\\?', '?..\\x', '..', '.', '...', '..../?', '....//?', '....\\\\?', '/?', '//?', '/../?', '\\../?', '\\/../?', '/\\..?x',
             '/etc/passwd', '/srv/files/?', '/srv/files/../?', '/srv/filesX?', 'C:\\?', '%2e%2e/?', '..%2f?', '..;/?', '../../../../?', 'x//..//..//?', 'x/./.././?', 'x/..?', '.../?', ' ../?', '../ ?', '?\0/x',
             '../f?', '../f?/x', '../f?les/x', '../../srv/files/?', '../../srv/files-old/?', 'a?b', '?/../?', '??/x', '../??', '/./../?', '..//files?x', 'x/..//../files?']
    if deep:
        names += ['?????', '??????', '../???', '../files???', '?/?/?', '??/??', '../?/?', 'x/?/??', '???/x', '.?.?.?', '/?/?/?', '?..?..?', '\\?\\?', '../files?../?', '?.?./?', '../../????']
    for root in ROOTS:
        for name in names if root in MAIN or deep and len(root) % 2 else ('', '??', 'a/?', '../?', '../files?', '../files-old/x', '?/../files/?', 'x/../?', '/?', '..\\?', '../../?/x', '..?x', '/srv/files/?', '../f?/x'):
            add(root, name)
    for root in ROOTS[:6]:
        for name in names[:24] if deep else names[:24:3]:
            for kind in ('missing', 'dir', 'secret', 'fifo'):
                add(root, name, kind=kind)
    for root in MAIN if not deep else ROOTS[:8]:
        for name in names:
            add(root, name, kind='decoys')
    for root in ROOTS[:6] if deep else ROOTS[:2]:
        for name in names if deep else names[2:60:3]:
            add(root, name, how='url')
            add(root, name, how='head')
            add(root, name, how='download')
    return out


def fill(cx, t, name, dom):
    out = t[:0]
    for ch in t:
        out = out + (cx.char(name, dom) if ch == '?' else ch)
    return out


def inside(cwd, path, root):
    p, r = fsstub.where(cwd, path), fsstub.where(cwd, root)
    return len(p) > len(r) and p[:len(r)] == r


def run(cx, case):
    root = fill(cx, case['root'], 'root', ANY)
    name = fill(cx, case['name'], 'name', ANY if case['how'] != 'url' else ((0, 127),))
    fs = fsstub.Fs(cx, case['kind'], root=root)
    app = Ombott({})
    opts = {'mimetype': 'text/plain'} if case['name'].count('?') > (2 if case['root'] in MAIN else 1) else {}
    kw = [{}, {'HTTP_RANGE': 'bytes=0-1'}, {'HTTP_IF_MODIFIED_SINCE': 'Wed, 01 Jan 2020 00:00:00 GMT'}, {'HTTP_RANGE': 'bytes=9-'}, {}][case['cond']]
    if case['how'] == 'url':
        app.route('/s/<fn:path>', callback=lambda fn: static_file(fn, root, **opts))
        env = environ('/s/' + name, **kw)
    else:
        app.route('/', callback=lambda: static_file(name, root, download=True, **opts) if case['how'] == 'download' else static_file(name, root=root, **opts))
        env = environ('/', method='HEAD' if case['how'] == 'head' else 'GET', **kw)
    fsstub.CUR.append(fs)
    try:
        r = call(app, env)
    finally:
        fsstub.CUR.pop()
    cx.obs('status', r.status)
    for p in fs.opened:
        cx.check(inside(fs.cwd, p, root), 'a file outside the root is opened')
    if r.code in (403, 404):
        cx.check(not fs.opened, 'a refused file is opened')
        cx.reach('refused')
        return
    if r.code == 500 and case['how'] == 'download' and ('\n' in name or '\r' in name or '\0' in name):
        return                  # a name that cannot be put in a header: refused loudly (C04)
    cx.check(r.code in (200, 206, 304, 416), 'a request for a file is answered with something else than the file, 403 or 404')
    cx.check(case['kind'] == 'file', 'something that is no readable file is served')
    cx.check(len(fs.asked) > 0 and inside(fs.cwd, fs.asked[-1], root), 'a file outside the root is described')
    cx.reach('served')


WITNESSES = ('served', 'refused')
ASSUMPTIONS = ['locations are lexical (symbolic links are the choice of whoever owns the root)', 'the file system is a stand-in: every name exists as the kind the case says (with decoys: every name outside the root exists, none inside), calls are recorded',
               'no lone surrogates in names']
STEP_LIMIT = 3000000


def BOUNDS(tier):
    return ('%d roots (absolute, relative, with and without trailing separators, with dots, with an arbitrary character), names from templates of dot segments, separators, sibling '
            'prefixes and absolute paths with up to %d arbitrary characters; existing, missing, unreadable and special files; GET, HEAD, range, conditional, download, through a URL'
            % (len(ROOTS), 6 if tier != 'quick' else 4))
