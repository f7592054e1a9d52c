"""C01: route resolution equals the plain rule-by-rule matcher, handlers get exactly their rule's wildcards."""
import re
from ombott.ombott import Ombott
from ombott.router import RadiRouter
from checks import util

# every character a rule can carry as literal text
LIT = ((1, 12), (14, 46), (48, 57), (59, 59), (61, 122), (124, 0xD7FF), (0xE000, 0x10FFFF))

TOK = re.compile(r':[a-z]*(?=/|$)|<[^>]*>|\{[^}]*\}|.', re.S)

# templates: L is a symbolic literal character, other characters are literal text, the rest are wildcards
POOL = [
    'L', 'LL', 'L/L', ':a', 'L/:a', ':a/L', 'L/:a/L', ':a/:b', 'L<a>', 'L<a>/L', '<a>/L/L', 'L/L/L',
    'L/<a.int()>', '<a.int()>L', '<a.int()>/<b>', '<a.path()>', 'L/<a.path()>', '<a.path()>x', '<a.path()>/x',
    '<a.re([xy]+)>L', '<a.re([xy]+)>/:b', '<a.float()>', 'L<a:int>', ':/L', '{a.re(x|/)}L',
]


def tokens(t):
    return TOK.findall(t)


def instantiate(cx, n, t):
    """-> (rule text, items); an item is a literal character or (name, kind, arg)"""
    rule, items = '/', []
    toks = tokens(t)
    for k, tok in enumerate(toks):
        if tok == 'L':
            c = cx.char('r%d.%d' % (n, k), LIT)
            rule += c
            items.append(c)
        elif len(tok) == 1 and tok != ':':
            rule += tok
            items.append(tok)
        else:
            rule += tok
            items.append(wild(tok, toks[k + 1:]))
    return rule, items


def wild(tok, rest):
    if tok[0] == ':':
        return (tok[1:] or None, None, None)
    m = re.fullmatch(r'[<{]:?(?:(\w+)[.:])?(\w+)(?:\((.*)\))?(?:\[(\d)\])?[>}]', tok)
    name, kind, arg, sel = m.groups()
    if kind not in ('int', 'float', 'path', 're', 'rex'):
        return (kind, None, None)
    if kind == 'path':
        arg = ''
        for c in rest:
            if len(c) > 1:
                break
            arg += c
    if sel:
        arg = (arg, int(sel))
    return (name, kind, arg)


def digits(s, i):
    while i < len(s) and s[i].isdecimal():
        i += 1
    return i


def accept(kind, arg, s, i):
    """(value, end) of what a wildcard accepts at position i of s, or None"""
    n = len(s)
    if i >= n:
        return None
    if kind is None:
        j = i
        while j < n and s[j] != '/':
            j += 1
        return s[i:j], j
    if kind == 'int' or kind == 'float':
        j = i + 1 if s[i] == '-' else i
        k = digits(s, j)
        if k == j:
            return None
        if kind == 'int':
            return int(s[i:k]), k
        if k < n and s[k] == '.':
            m = digits(s, k + 1)
            if m > k + 1:
                k = m
        return float(s[i:k]), k
    if kind == 'path':
        e = i
        while e < n and s[e] != '\n':
            e += 1
        if not arg:
            if e == n or e == n - 1:
                return (s[i:e], e) if e > i else None
            return None
        j = e
        while j > i:
            if s[j:j + len(arg)] == arg:
                return s[i:j], j
            j -= 1
        return None
    if kind == 're':
        m = re.match(arg, s[i:])
        return None if m is None else (m.group(), i + m.end())
    # rex: alternatives given as ((text, group), ...)
    pat, sel = arg if isinstance(arg, tuple) else (arg, None)
    m = re.match(pat, s[i:])
    if m is None:
        return None
    g, v = None, m.group()
    for k, x in enumerate(m.groups()):
        if x is not None:
            g, v = k + 1, x
            break
    if sel is not None and g != sel:
        return None
    return v, i + m.end()


def matches(items, path):
    """wildcard values [(name, value)] if the rule matches the whole path, else None"""
    i = 0
    vals = []
    for it in items:
        if isinstance(it, tuple):
            r = accept(it[1], it[2], path, i)
            if r is None:
                return None
            vals.append((it[0], r[0]))
            i = r[1]
        else:
            if i >= len(path) or path[i] != it:
                return None
            i += 1
    return vals if i == len(path) else None


def prefer(a, b):
    """of two rules matching the same path: the one with literal text where they first differ"""
    for x, y in zip(a, b):
        lx, ly = not isinstance(x, tuple), not isinstance(y, tuple)
        if lx and not ly:
            return 0
        if ly and not lx:
            return 1
        if not lx and x[2] != y[2]:
            # rex selectors: text that must follow versus none
            return 0 if isinstance(x[2], tuple) else 1
    return None


def setup(symbolic):
    pass


def pairs(tier):
    n = len(POOL)
    out = []
    for i in range(n):
        for j in range(n):
            if i != j and (tier != 'quick' or (i < j) == ((i + j) % 2 == 0)):
                out.append((POOL[i], POOL[j]))
    return out


TRIPLES = [
    ('L/L/L', ':a/L/:b', 'L/:a/:b'), (':a/:b', 'L/:b/L', ':a/L/L'), ('L/:a', ':a/L', ':a/:b'),
    ('LLL', 'LL:', 'L:') , ('LL/:a', 'L<a>/x', 'LLx'), ('L/<a.int()>', 'L/x', 'L/<a.int()>/x'),
    ('L/<a.path()>', 'L/L/x', 'L/Lx'), ('<a.int()>/L', '1/:b', '1/2'), ('L', 'LL', 'LLL'),
    ('x/<a.re([xy]+)>', 'y/<a.re([XY]+)>', 'z/<a.re(.[xy]+)>'), ('x/<a.path()>x', 'y/<a.path()>y', 'z/<a.path()>'),
    ('<a.path()>.x', 'x/L'), ('L/<a.path()>.x/:b', 'L/:a'),
    ('x/<a.int()>', 'y/<a.float()>', 'z/<a:int>L'),
    ('<a.re([xy]+)>/L', 'x/:b', 'xy/L'), (':a', ':a/L/:c', ':a/:b'), ('x/<a.path()>', 'x/y/<b.int()>', 'x/:/L'),
]
REX = [('<a.rex((x)|(y))[1]>L', '<a.rex((x)|(y))[2]>L', '<a.rex((x)|(y))>L'),
       ('<a.rex((x)|(y))[2]>', '<a.rex((x)|(y))>', 'x'),
       ('L/<a.rex((x+)|(y)|z)>/L', 'L/x/L')]
# same pattern, other wildcard names
NAMES = [(':a/L', '<b>/L'), ('L/<a>/:b', 'L/<b>/:a'), (':a', ':'), ('<a.int()>', '<int()>', '<c:int>'),
         ('L/:', 'L/:a')]


def cases(tier):
    deep = tier != 'quick'
    out = []
    for s in NAMES:
        out.append({'kind': 'names', 'rules': s, 'n': 4})
    for s in TRIPLES:
        out.append({'kind': 'set', 'rules': s, 'n': 6 if deep else 5})
        if deep:
            out.append({'kind': 'set', 'rules': s[::-1], 'n': 6})
    for s in REX:
        out.append({'kind': 'set', 'rules': s, 'n': 5 if deep else 4})
    for k, s in enumerate(pairs(tier)):
        m = [len(tokens(t)) for t in s]
        lens = {m[0], m[1], max(m) + 1} if not deep else {1, m[0], m[1], max(m) + 1, max(m) + 2}
        out.append({'kind': 'set', 'rules': s, 'lens': tuple(sorted(x for x in lens if x <= (6 if deep else 4) or x == max(m)))})
    for s in (':a/L', 'L/<a.int()>', 'L/<a.re([xy]+)>/:b', '<a>'):
        out.append({'kind': 'app', 'rules': (s,), 'n': 4 if deep else 3})
    return out


def run(cx, case):
    if case['kind'] == 'app':
        app = Ombott()
        add = lambda rule, h, m: app.add_route(rule, m, h)
    else:
        router = RadiRouter()
        add = lambda rule, h, m: router.add(rule, m, h)
    rules = []
    got = []
    methods = ('GET', 'POST', 'PUT')
    for n, t in enumerate(case['rules']):
        rule, items = instantiate(cx, n, t)

        def handler(n=n, **kw):
            got.append((n, kw))
            return 'ok'
        m = methods[n] if case['kind'] == 'names' else 'GET'
        try:
            add(rule, handler, m)
        except Exception as e:
            cx.obs('rejected', (n, type(e).__name__, str(e)))
            cx.reach('rejected')
            continue
        rules.append((n, items, m))
    if 'lens' in case:
        text = cx.str('path', cx.choice('path.len', case['lens']))
    else:
        text = cx.str('path', (0, case['n']))
    path = text.strip('/')
    want = None
    asked = cx.choice('method', [r[2] for r in rules]) if case['kind'] == 'names' else 'GET'
    for n, items, m in rules:
        if m != asked:
            continue
        v = matches(items, path)
        if v is None:
            continue
        if want is not None:
            p = prefer(want[1], items)
            if p is None:
                cx.fail('two accepted rules are indistinguishable')
                return
            if p == 0:
                continue
        want = (n, items, v)
    if case['kind'] == 'app':
        r = util.call(app, util.environ(('/' + text).encode('utf8').decode('latin1')))
        cx.obs('code', r.code)
        found = r.code == 200
        cx.check(found or r.code == 404, 'neither 200 nor 404')
    else:
        ep, err = router.resolve('/' + text, [asked])
        found = ep is not None
        cx.obs('err', err and err[0])
        if found:
            ep[0](**ep[1])
    if want is None:
        cx.reach('none')
        cx.check(not found, 'a path that no rule matches reaches a handler')
        return
    cx.reach('found')
    cx.check(found, 'a path that a rule matches is answered with not found')
    if not found:
        return
    n, items, vals = want
    cx.check(len(got) == 1, 'handler called once')
    gn, kw = got[0]
    cx.obs('got', (gn, kw))
    cx.check(gn == n, 'another rule was selected')
    if gn != n:
        return
    named = [(k, v) for k, v in vals if k]
    cx.check(len(named) == len(kw), 'other wildcards than the ones of the rule')
    for k, v in named:
        ok = k in kw
        cx.check(ok, 'a named wildcard of the rule is missing')
        if ok:
            cx.reach('wild')
            cx.check(isinstance(kw[k], type(v)) and kw[k] == v, 'wildcard value differs')


WITNESSES = ('none', 'found', 'wild', 'rejected')
ASSUMPTIONS = [
    'rule text: literal characters other than CR and the wildcard delimiters; the path is compared without its outer '
    'slashes (the router documents that it ignores them), the rule text as written',
    'an unfiltered wildcard takes everything up to the next slash and needs a remaining character; a filter takes what '
    'its regular expression matches at that position; filters that accept the empty string are not used',
    'rules whose registration is rejected (another filter at the same position) do not take part',
]


def BOUNDS(tier):
    deep = tier != 'quick'
    return ('rule sets: all %s of %d templates with up to 6 tokens (literal characters symbolic over all characters a rule '
            'can carry literally, every filter type), %d three-rule sets, rex selectors, %d sets with differing wildcard '
            'names; paths of up to %d arbitrary characters'
            % ('ordered pairs' if deep else 'unordered pairs', len(POOL), len(TRIPLES), len(NAMES), 7 if deep else 5))
