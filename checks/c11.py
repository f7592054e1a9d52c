"""C11: after any edit history the router answers like one freshly built from the surviving routes and hooks."""
from ombott.ombott import Ombott
from ombott.router import RadiRouter, HookTypes
from checks import util
from checks.c01 import instantiate, accept

# rule sets: the history picks its operands from one of them
SETS = {
    'pfx': ('', 'f', 'fo', 'f/b'),
    'wild': (':a', ':a/x', 'f/:a', 'f'),
    'mix': ('f<a.int()>', 'f<a.int()>x', 'f', 'f<b>'),
    'path': ('f<a.path()>', 'f<a.path()>x', 'f/g', '<a>/g'),
    'rex': ('<a.rex((x)|(y))[1]>/b', '<a.rex((x)|(y))[2]>', '<a.rex((x)|(y))>/b', 'x/b'),
    'star': ('f*', 'fo', 'g/:a', 'f'),
    'dup': (':a/:a', '<a.int()>/<a.float()>', '<a.int()>', ':a/x'),
    'sym': ('L', 'LL', 'L/:a', 'f/L'),
}


def setup(symbolic):
    pass


# what an edit does: kinds of operations
EDITS = ('add', 'ren', 'rm', 'rmname', 'rm*', 'hook', 'unhook')


def seqs(n, ops=EDITS):
    if n == 0:
        return [()]
    return [s + (o,) for s in seqs(n - 1, ops) for o in ops]


def cases(tier):
    deep = tier != 'quick'
    out = []
    def case(k, ops, n):
        c = {'set': k, 'ops': list(ops), 'n': n + (deep and k not in ('sym', 'path'))}
        if c not in out:
            out.append(c)
    for k, s in SETS.items():
        if k == 'sym' and not deep:
            for ops in (('AAAA', 'rm'), ('AAAA', 'rm*'), ('add', 'add', 'rm'), ('add', 'hook', 'rm'), ('hook', 'phook', 'unhook')):
                case(k, ops, 2)
            continue
        # everything registered and hooked, then edits
        for ops in seqs(1):
            for base in (('AAAA',), ('AAAA', 'hook'), ('AAAA', 'hook', 'phook'), ('phook', 'AAAA'), ('hook', 'hook')):
                if (ops[0] == 'unhook' and 'hook' not in base[-1] + base[0]) or (ops[0] == 'ren' and base != ('AAAA',) and not deep):
                    continue
                case(k, base + ops, 3)
        for ops in seqs(2):
            if ops[0] in ('unhook', 'rmname', 'add') or (ops[1] == 'unhook' and ops[0] != 'hook') or 'ren' in ops and ops != ('ren', 'rm'):
                if not deep:
                    continue
            case(k, ('AAAA',) + ops, 3)
        case(k, ('AAAA', 'hook', 'rm', 'rm'), 3)
        for ops in (('add', 'add', 'rm'), ('add', 'hook', 'rm', 'add'), ('hook', 'add', 'unhook'), ('add', 'rm', 'hook'), ('ren', 'ren', 'ren'),
                    ('phook', 'add', 'rm'), ('hook', 'phook', 'unhook'), ('ren', 'ren', 'rmname'),
                    ('ren', 'ren', 'rm'), ('add', 'add', 'rm*'), ('ren', 'rm', 'ren')):
            case(k, ops, 2 if len(ops) > 3 else 3)
        if deep:
            for ops in seqs(3):
                if k != 'sym' and ops.count('rm*') < 2 and ops.count('ren') < 2:
                    out.append({'set': k, 'ops': list(ops), 'n': 3})
    for k in ('pfx', 'wild', 'mix', 'rex'):
        case(k, ['AAAA', 'hook', 'app'], 3)
        case(k, ['AAAA', 'hook', 'hook', 'app'], 3)
    return out


def sel(x):
    return x[2][1] if isinstance(x[2], tuple) else None


def extends(items, pre, shape=False):
    """rule extends another (shape: up to the filters of the wildcards)"""
    if len(items) < len(pre):
        return False
    for x, y in zip(items, pre):
        if isinstance(x, tuple) != isinstance(y, tuple):
            return False
        if isinstance(x, tuple):
            if (sel(x) != sel(y)) if shape else (x[1:] != y[1:]):
                return False
        elif x != y:
            return False
    return True


def same_pattern(a, b):
    """rules the router keeps in one place"""
    return len(a) == len(b) and extends(a, b)


def ends(items, path):
    """where each item of a matching rule ends"""
    out = [0]
    i = 0
    for it in items:
        if isinstance(it, tuple):
            i = accept(it[1], it[2], path, i)[1]
        else:
            i += 1
        out.append(i)
    return out


class World:
    """what should be there: routes {index of the rule: {method: (rule, handler)}}, names, hooks"""
    def __init__(self, rules):
        self.rules = rules
        self.routes = {}
        self.order = []
        self.names = {}
        self.hooks = {}
        self.unspec = []

    def place(self, r, d):
        """key in d of the rule kept in the same place as rule r"""
        for k in d:
            if same_pattern(self.rules[k][1], self.rules[r][1]):
                return k
        return None


def run(cx, case):
    rules = [instantiate(cx, n, t) for n, t in enumerate(SETS[case['set']])]
    if case['set'] == 'sym':
        for rule, items in rules:
            cx.assume(rule[-1] != '*')      # removal of such a rule means removal by prefix
    router = RadiRouter()
    app = None
    if case['ops'][-1] == 'app':
        app = Ombott()
        router = app.router
    W = World(rules)
    nth = 0
    for op in case['ops']:
        nth += 1
        if op == 'AAAA':
            for r in range(len(rules)):
                add(cx, router, W, r, 'r%d' % r, None, False)
        elif op == 'add':
            r = cx.choice('rule', range(len(rules)))
            add(cx, router, W, r, 'h%d' % nth, None, False)
        elif op == 'ren':
            r = cx.choice('rule', range(len(rules)))
            if 'ren' in case['ops'][:nth - 1]:
                add(cx, router, W, r, 'h%d' % nth, cx.choice('name', ('n', 'm')), cx.flag('overwrite'))
            else:
                add(cx, router, W, r, 'h%d' % nth, 'n', False)
        elif op == 'rm':
            r = cx.choice('rule', range(len(rules)))
            if case['set'] == 'star' and r == 0:
                wildrm(W, 'f')
                router.remove('/f*')
            else:
                k = W.place(r, W.routes)
                if other_filter(rules, W.routes, r):
                    cx.assume(False)     # another filter at the same place: removal is by position
                try:
                    router.remove(rules[r][0])
                except Exception as e:
                    cx.obs('exc', type(e).__name__)
                    cx.check(k is None, 'removal by rule failed')
                    continue
                if k is not None:
                    forget(W, k)
                    cx.reach('removed')
        elif op == 'rmname':
            name = cx.choice('name', ('n', 'm', 'r0'))
            try:
                router.remove(name=name)
            except KeyError:
                cx.check(name not in W.names, 'a name is unknown to the router')
                continue
            cx.check(name in W.names, 'the router removed a name that is not registered')
            if name in W.names:
                forget(W, W.names[name])
                cx.reach('removed by name')
        elif op == 'rm*':
            cuts = []
            for rule, items in rules:
                for k in range(len(items) + 1):
                    c = (cutrule(rule, items, k), items[:k])
                    if c[0] is not None and (case['set'] == 'sym' or c[0] not in [x[0] for x in cuts]):
                        cuts.append(c)
            text, pre = cx.choice('cut', cuts)
            for q in list(W.routes) + list(W.hooks):
                if extends(rules[q][1], pre, True) and not extends(rules[q][1], pre):
                    cx.assume(False)
            for q in list(W.routes):
                if extends(rules[q][1], pre):
                    forget(W, q)
            for q in list(W.hooks):
                if extends(rules[q][1], pre):
                    W.unspec += W.hooks.pop(q)
            try:
                router.remove(text + '*')
            except Exception as e:
                cx.obs('exc', (type(e).__name__, str(e)))
                cx.fail('removal by prefix failed')
        elif op == 'hook' or op == 'phook':
            r = cx.choice('rule', range(len(rules)))
            h = Hook('k%d' % nth)
            k = W.place(r, W.hooks)
            if other_filter(rules, W.hooks, r):
                cx.assume(False)
            try:
                if op == 'phook':
                    router.add_hook(rules[r][0], h, hook_type=HookTypes.PARTIAL)
                else:
                    router.add_hook(rules[r][0], h)
            except Exception as e:
                cx.obs('hook rejected', type(e).__name__)
                continue
            if k is None:
                k = r
                W.hooks[k] = [None, None]
            W.hooks[k][op == 'phook'] = h
        elif op == 'unhook':
            r = cx.choice('rule', range(len(rules)))
            if case['set'] == 'star' and r == 0:
                continue
            k = W.place(r, W.hooks)
            if other_filter(rules, W.hooks, r):
                cx.assume(False)
            try:
                router.remove_hook(rules[r][0])
            except Exception as e:
                cx.obs('exc', type(e).__name__)
                cx.check(k is None, 'removal of a hook failed')
                continue
            if k is not None:
                del W.hooks[k]
                cx.reach('unhooked')
    text = cx.str('path', (0, case['n']))
    cx.assume(not (text[:1] == '/' or text[-1:] == '/'))
    if app is not None:
        with_app(cx, app, W, text)
        return
    fresh = build(W)
    ask(cx, router, fresh, W, text)
    lookups(cx, router, W)


def with_app(cx, app, W, text):
    r = util.call(app, util.environ(('/' + text).encode('utf8').decode('latin1')))
    cx.obs('code', r.code)
    got = None
    for k in W.order:
        for m, (q, h) in W.routes[k].items():
            if h.calls:
                cx.check(got is None and len(h.calls) == 1, 'one handler is called once')
                got = (k, h)
    cx.check((r.code == 200) == (got is not None), 'answer without a handler')
    if got is None:
        for h, h404 in W.hooks.values():
            cx.check(h is None or not h.calls, 'a hook fired without a route')
        return
    pos = ends(W.rules[got[0]][1], text)
    for q, (h, h404) in W.hooks.items():
        if h is None:
            continue
        items = W.rules[q][1]
        if extends(W.rules[got[0]][1], items):
            cx.reach('fired')
            cx.check(h.calls == ['/' + text[:pos[len(items)]]], 'hook did not fire once with the matched prefix')
        else:
            cx.check(not h.calls, 'a hook fired for a route that does not extend its rule')


class Handler:
    def __init__(self, name):
        self.__name__ = self.__qualname__ = name
        self.__module__ = 'checks'
        self.calls = []

    def __call__(self, **kw):
        self.calls.append(kw)
        return 'ok'


class Hook(Handler):
    def __call__(self, prefix):
        self.calls.append(prefix)


def other_filter(rules, keys, r):
    """is there a rule at the same place as rule r that has other filters"""
    a = rules[r][1]
    for k in keys:
        b = rules[k][1]
        if len(a) == len(b) and extends(a, b, True) and not extends(a, b):
            return True
    return False


def cutrule(text, items, k):
    """text of the first k items of a rule (None when the cut would fall into a wildcard's text)"""
    out = '/'
    for it in items[:k]:
        if isinstance(it, tuple):
            if it[1] is None:
                out += '{%s}' % it[0]
            elif it[1] == 'int':
                out += '<%s.int()>' % it[0]
            else:
                return None
        else:
            out += it
    return out


def wildrm(W, pre):
    for q in list(W.routes):
        if extends(W.rules[q][1], list(pre)):
            forget(W, q)
    for q in list(W.hooks):
        if extends(W.rules[q][1], list(pre)):
            W.unspec += W.hooks.pop(q)


def forget(W, k):
    W.routes.pop(k)
    W.order.remove(k)
    for n in [n for n, q in W.names.items() if q == k]:
        del W.names[n]


def add(cx, router, W, r, label, name, overwrite):
    h = Handler(label)
    rule = W.rules[r][0]
    try:
        router.add(rule, 'GET', h, name, overwrite=overwrite)
    except Exception as e:
        cx.obs('rejected', type(e).__name__)
        cx.reach('rejected')
        return
    k = W.place(r, W.routes)
    if k is None:
        k = r
        W.routes[k] = {}
        W.order.append(k)
    W.routes[k]['GET'] = (r, h)
    if name:
        W.names[name] = k


def build(W):
    fresh = RadiRouter()
    for k in W.order:
        for m, (r, h) in W.routes[k].items():
            if r != k:      # the place keeps the rule it was made for
                fresh.add(W.rules[k][0], 'PUT', h)
            fresh.add(W.rules[r][0], m, h)
            for n, q in W.names.items():
                if q == k:
                    fresh.add(W.rules[k][0], m, h, n, overwrite=True)
    for k, (h, h404) in W.hooks.items():
        if h is not None:
            fresh.add_hook(W.rules[k][0], h)
        if h404 is not None:
            fresh.add_hook(W.rules[k][0], h404, hook_type=HookTypes.PARTIAL)
    return fresh


def fired(hooks, W, i):
    return [(pos, h[i]) for pos, h in hooks if h[i] is not None and h[i] not in W.unspec]


def ask(cx, router, fresh, W, text):
    ep, err = router.resolve('/' + text, ['GET'])
    ep2, err2 = fresh.resolve('/' + text, ['GET'])
    cx.obs('found', ep is not None)
    cx.check((ep is None) == (ep2 is None), 'found / not found differs from a freshly built router')
    if ep is None or ep2 is None:
        if ep is None and ep2 is None:
            cx.reach('404')
            cx.check(err[0] == err2[0], '404 versus 405')
            if err[0] == 404 and err2[0] == 404:
                a, b = err[2]['hooks'], err2[2]['hooks']
                if not W.unspec:
                    pa, pb = a[-1:] and a[-1][1][1], b[-1:] and b[-1][1][1]
                    cx.check((pa or None) is (pb or None), 'another 404 hook than in a freshly built router')
                    if pa and pb:
                        cx.reach('404 hook')
                        cx.check(a[-1][0] == b[-1][0], 'prefix of the 404 hook')
                        cx.check(err[2]['param_values'] == err2[2]['param_values'], 'values of the 404 hook')
        return
    cx.reach('200')
    same = ep[0].handler is ep2[0].handler
    cx.check(same, 'another handler than in a freshly built router')
    if not same:
        return
    cx.check(len(ep[1]) == len(ep2[1]), 'wildcards differ')
    for k in ep2[1]:
        cx.check(k in ep[1] and ep[1][k] == ep2[1][k], 'wildcard value differs')
    # hooks: exactly those of rules that the matched rule extends, outermost first, each with its part of the path
    for k in W.order:
        for m, (r, h) in W.routes[k].items():
            if h is ep2[0].handler:
                rid = k
    pos = ends(W.rules[rid][1], text)
    want = []
    for q, (h, h404) in W.hooks.items():
        if h is None:
            continue
        items = W.rules[q][1]
        if extends(W.rules[rid][1], items):
            want.append((pos[len(items)], len(items), h))
    want = [(p, h) for p, n, h in sorted(want, key=lambda x: x[1])]
    got = fired(ep[2], W, 0)
    cx.obs('hooks', [(p, h.__name__) for p, h in got])
    if want:
        cx.reach('hooks')
    cx.check([h for p, h in got] == [h for p, h in want], 'other hooks than those whose rule the matched rule extends')
    cx.check([p for p, h in got] == [p for p, h in want], 'hook with another prefix than the matched one')


def lookups(cx, router, W):
    for n in ('n', 'm'):
        rt = router[n]
        cx.check((rt is not None) == (n in W.names), 'lookup by name')
        if rt is not None and n in W.names:
            cx.check(rt['GET'].handler is W.routes[W.names[n]]['GET'][1], 'lookup by name finds another route')
    for k in range(len(W.rules)):
        if W.rules[k][0] == '/f*':
            continue
        q = W.place(k, W.routes)
        try:
            rt = router[{W.rules[k][0]}]
        except Exception as e:
            cx.obs('lookup', type(e).__name__)
            cx.check(q is None, 'lookup by rule fails')
            continue
        cx.check((rt is not None) == (q is not None), 'lookup by rule')
        if rt is not None and q is not None:
            cx.check(rt['GET'].handler is W.routes[q]['GET'][1], 'lookup by rule finds another route')
        q = W.place(k, W.hooks)
        if other_filter(W.rules, W.hooks, k):
            continue
        try:
            h = router.get_hook(W.rules[k][0])
        except Exception:
            h = None
        cx.check(q is None or h is not None and h[0] is W.hooks[q][0] and h[1] is W.hooks[q][1], 'lookup of a hook')
        if q is None and h is not None:
            cx.check(h[0] in W.unspec, 'lookup of a removed hook')
    cx.check(len(router.routes) == len(W.routes), 'the list of routes')


WITNESSES = ('200', '404', 'hooks', 'fired', '404 hook', 'rejected', 'removed', 'removed by name', 'unhooked')
ASSUMPTIONS = ['what prefix-wildcard removal does to hooks below the prefix is unspecified (such hooks are ignored afterwards)',
               'removal by rule and hook replacement name the rule as registered (not one with other filters at the same place)']


def BOUNDS(tier):
    deep = tier != 'quick'
    return ('8 sets of four rules (nested prefixes, wildcards, filters, rex selectors, literal *, duplicate wildcard names, symbolic '
            'literals); all histories of registering all four (with up to two hooks before or after) followed by 1%s edits, selected '
            'histories of 3-4 edits%s, all operands; every path of up to %d characters' % (
                '-2' , ', all histories of 3 edits' if deep else '', 5 if deep else 4))
