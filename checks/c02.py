"""C02: method dispatch: verb, HEAD and ANY fallbacks, 405 with the exact Allow list, 404 only for unmatched paths."""
from ombott.ombott import Ombott
from checks import util

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
NAME = LETTERS + '-'

# programs: add / over(write) with lists of method-name lengths on a rule, rm(remove a method), then the request
PROGRAMS = [
    [('add', 'A', (3,))],
    [('add', 'A', (4,))],
    [('add', 'A', (3,)), ('add', 'A', (4,))],
    [('add', 'A', (3, 3))],
    [('add', 'A', (3, 4)), ('add', 'A', (3,))],
    [('add', 'A', (3,)), ('over', 'A', (3,))],
    [('add', 'A', (3, 3)), ('over', 'A', (3,))],
    [('add', 'A', (3, 4)), ('rm', 'A', (3,))],
    [('add', 'A', (3, 3)), ('rm', 'A', (3,))],
    [('add', 'A', (3,)), ('rm', 'A', (3,)), ('add', 'A', (3,))],
    [('add', 'A', (3,)), ('add', 'W', (3,))],
    [('add', 'W', (4,)), ('add', 'A', (3,))],
    [('add', 'W', (3,)), ('add', 'V', (3,))],
]
DEEP = [
    [('add', 'A', (3, 4)), ('add', 'A', (3, 4))],
    [('add', 'A', (3, 3, 4))],
    [('add', 'A', (3,)), ('add', 'A', (3,)), ('add', 'A', (4,))],
    [('add', 'A', (3, 4)), ('over', 'A', (3, 4)), ('rm', 'A', (3,))],
    [('add', 'A', (3,)), ('add', 'W', (3,)), ('rm', 'A', (3,))],
    [('add', 'W', (3,)), ('add', 'V', (4,)), ('add', 'A', (3,))],
]
RULES = {'A': '/a', 'W': '/:x', 'V': '/<y>'}
HTTP = ('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS')


def setup(symbolic):
    pass


def cases(tier):
    deep = tier != 'quick'
    out = []
    for p in PROGRAMS + DEEP:
        for n in (3, 4):
            if (not deep) and n == 4 and not any(4 in o[2] for o in p) and len(p) > 1:
                continue
            out.append({'kind': 'prog', 'prog': p, 'req': n, 'single': False})
    # method given as one string, decorator and shortcut registration
    for n in (3, 4):
        out.append({'kind': 'prog', 'prog': [('add', 'A', (n,))], 'req': n, 'single': True})
    for i in range(len(HTTP)):
        for n in range(1, 9):
            out.append({'kind': 'short', 'verb': HTTP[i], 'req': n, 'style': i % 3})
    for names in (('GET', 'ANY'), ('ANY',), ('HEAD', 'ANY'), ('PUT', 'POST'), ('HEAD', 'GET', 'DELETE')):
        for n in range(1, 9):
            out.append({'kind': 'fixed', 'names': names, 'req': n})
    for n in range(0, 5 if deep else 4):
        out.append({'kind': 'path', 'prefix': '', 'n': n})
    for pre in ('http://', '//', 'a/b/c'):
        out.append({'kind': 'path', 'prefix': pre, 'n': 3 if deep else 2})
    return out


class Reg:
    """what is registered: rule pattern -> [(method, handler id)]"""
    def __init__(self):
        self.r = {'A': [], 'W': []}
        self.known = []

    def pat(self, rule):
        return 'A' if rule == 'A' else 'W'

    def add(self, rule, names, hid, overwrite):
        cur = self.r[self.pat(rule)]
        names = [n.upper() for n in names]
        if not overwrite:
            for n in names:
                for m, _ in cur:
                    if m == n:
                        return False
        for n in names:
            for i, (m, _) in enumerate(cur):
                if m == n:
                    cur[i] = (m, hid)
                    break
            else:
                cur.append((n, hid))
        if self.pat(rule) not in self.known:
            self.known.append(self.pat(rule))
        return True

    def remove(self, rule, name):
        name = name.upper()
        p = self.pat(rule)
        self.r[p] = [(m, h) for m, h in self.r[p] if not m == name]

    def find(self, pat, name):
        for m, h in self.r[pat]:
            if m == name:
                return h
        return None

    def dispatch(self, pat, method):
        method = method.upper()
        h = self.find(pat, method)
        if h is None and method == 'HEAD':
            h = self.find(pat, 'GET')
        if h is None:
            h = self.find(pat, 'ANY')
        return h


def run(cx, case):
    app = Ombott()
    ran = []

    def mk(hid):
        def handler(**kw):
            ran.append(hid)
            return 'ok'
        return handler
    if case['kind'] == 'path':
        return by_path(cx, case, app, mk, ran)
    reg = Reg()
    routes = {}
    if case['kind'] == 'short':
        reg.add('A', [case['verb']], 0, False)
        if case['style'] == 0:
            getattr(app, case['verb'].lower())('/a')(mk(0))
        elif case['style'] == 1:
            getattr(app, case['verb'].lower())('/a', callback=mk(0))
        else:
            app.route('/a', case['verb'].lower())(mk(0))
    elif case['kind'] == 'fixed':
        # one handler per method
        for i, name in enumerate(case['names']):
            reg.add('A', [name], i, False)
            app.add_route('/a', name, mk(i))
    else:
        for i, (op, rule, lens) in enumerate(case['prog']):
            names = [cx.str('m%d.%d' % (i, j), n, NAME) for j, n in enumerate(lens)]
            if op == 'rm':
                if rule in routes:
                    routes[rule].remove_method(names[0])
                    reg.remove(rule, names[0])
                    cx.reach('removed')
                continue
            arg = names[0] if case['single'] else names
            want = reg.add(rule, names, i, op == 'over')
            try:
                if op == 'over':
                    routes[rule] = app.add_route(RULES[rule], arg, mk(i), overwrite=True)
                else:
                    routes[rule] = app.add_route(RULES[rule], arg, mk(i))
                ok = True
            except Exception as e:
                cx.obs('rejected', type(e).__name__)
                ok = False
            cx.check(ok == want, 'registration accepted or rejected against the registered methods')
    method = cx.str('method', case['req'], NAME)
    pat = 'A' if 'A' in reg.known else 'W'
    r = util.call(app, util.environ('/a', method))
    want = reg.dispatch(pat, method)
    cx.obs('code', r.code)
    if want is not None:
        cx.reach('dispatched')
        cx.check(r.code == 200, 'a registered handler was not reached')
        cx.check(ran == [want], 'another handler ran')
        return
    cx.reach('405')
    cx.check(ran == [], 'a handler ran although none is registered for the method')
    cx.check(r.code == 405, 'not a 405')
    allow = r.header('Allow')
    cx.check(len(allow) <= 1, 'several Allow headers')
    listed = [x.strip() for x in allow[0].split(',')] if allow else []
    listed = [x for x in listed if x]
    cx.obs('allow', listed)
    cx.check(len(listed) == len(reg.r[pat]), 'Allow lists other methods than the registered ones')
    for m, _ in reg.r[pat]:
        cx.check(m in listed, 'Allow lacks a registered method')


def by_path(cx, case, app, mk, ran):
    app.add_route('/a', 'GET', mk(0))
    app.add_route('/a/<n.int()>', 'POST', mk(1))
    text = case['prefix'] + cx.str('path', case['n'])
    method = cx.choice('method', ('GET', 'HEAD', 'POST', 'get', 'X'))
    r = util.call(app, util.environ(('/' + text).encode('utf8').decode('latin1'), method))
    p = text.strip('/')
    cx.obs('code', r.code)
    if p == 'a':
        reg = ('GET',)
        hid = 0
    elif p[:2] == 'a/' and len(p) > 2 and isint(p[2:]):
        reg = ('POST',)
        hid = 1
    else:
        cx.reach('404')
        cx.check(r.code == 404, 'a path that matches no route is not answered with 404')
        cx.check(ran == [], 'a handler ran')
        return
    m = method.upper()
    if m in reg or m == 'HEAD' and 'GET' in reg:
        cx.check(r.code == 200 and ran == [hid], 'handler not reached')
    else:
        cx.check(r.code == 405 and ran == [], 'not a 405 for a matched path')
        cx.check(r.header('Allow') == [','.join(reg)], 'Allow header differs')


def isint(s):
    if s[0] == '-':
        s = s[1:]
    if not len(s):
        return False
    for c in s:
        if not c.isdecimal():
            return False
    return True


WITNESSES = ('dispatched', '405', '404', 'removed')
ASSUMPTIONS = ['method names are ASCII letters and hyphens']


def BOUNDS(tier):
    return ('registration programs of up to 3 operations (add, overwrite, remove) with every method name of 3 or 4 symbolic '
            'letters in any case, requests with methods of 3 or 4 (concrete registrations: 1 to 8) symbolic letters; paths of up to %d arbitrary characters'
            % (3 if tier == 'quick' else 4))
