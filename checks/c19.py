"""C19: building a URL from matched parameters leads back to the same match."""
from ombott.ombott import Ombott
from ombott.router import RadiRouter
from checks.c01 import instantiate, matches

# ASCII and a few digits of other scripts
NUM = ((0, 127), (0x663, 0x663), (0xFF15, 0xFF15))

# no filter, every filter, several wildcards, anonymous ones, adjacent ones
POOL = [
    'L', 'L/L', '', ':a', 'L/:a', ':a/L', ':a/:b', 'L<a>', '<a>/<b>L', 'L/:a/L/:b', '{:re([^/]+)}/L', 'L/{a}/:', ':self',
    '<a.int()>', 'L/<a.int()>L', '<a.int()>/<b>', '<a:int>-<b:int>', '<int()>/<b>', '<a.int()><b>',
    '<a.float()>', 'L<a.float()>', '<a.float()>/<b>', '<a.float()><b>', '<a.float()>.x',
    '<a.path()>', 'L/<a.path()>', '<a.path()>x', '<a.path()>/x', '<a.path()>x<b>', 'L/<a.path()>/y/<b.int()>',
    '<a.re([xy]+)>L', '<a.re([xy]+)>/:b', '<re([^/]+)>/:b', '<a.re(x.(?=z))>z', 'L/<a.re(x|y/)>L', '<a.re(x.)><b.re(.y)>',
    '<int()>{b}/<c.int()>/L:', '{:re([^/])}<a>/:', '<int()>/{a}/<int()>', ':a/<int()>/<int()>', '<a.rex((x)|(y))>L', '<a.rex((x)|(y))[2]>L', '<a.rex(x+|(y))>/<b>', '<a.rex((x)(?=z)|(y))>z',
]
# a rex group that is only a part of the matched text
PARTIAL = ['<a.rex(x(y)z)>']


def setup(symbolic):
    pass


def cases(tier):
    deep = tier != 'quick'
    out = []
    for t in POOL:
        out.append({'kind': 'trip', 'rule': t, 'n': 7 if deep else 5, 'pre': ''})
    for t in PARTIAL:
        out.append({'kind': 'trip', 'rule': t, 'n': 3, 'pre': ''})
    # long numbers: other notations of the same float
    for pre, n, dom in (('1' + '0' * 15, 3, '0.-x'), ('-1' + '0' * 18, 3, '0.-x'), ('0.0000', 2, None), ('0.0000000', 3, None),
                        ('1234567890123', 2, None), ('90071992547409', 2, None)):
        for t in ('<a.float()>', '<a.int()>', '<a.float()><b>'):
            if '.' not in pre or 'float' in t:
                out.append({'kind': 'trip', 'rule': t, 'n': n, 'pre': pre, 'dom': dom})
    for t in (':a/L', '<a.int()>/<b>', 'L/<a.path()>'):
        out.append({'kind': 'named', 'rule': t, 'n': 5 if deep else 4, 'pre': ''})
    return out


def run(cx, case):
    rule, items = instantiate(cx, 0, case['rule'])

    def handler(**kw):
        return kw
    if case['kind'] == 'named':
        app = Ombott()
        app.add_route('/other/:x', 'GET', handler, 'other')
        app.add_route(rule, 'GET', handler, 'it')
        router = app.router
        route = router['it']
    else:
        router = RadiRouter()
        route = router.add(rule, 'GET', handler)
    path = case['pre'] + cx.str('path', (0, case['n']), case.get('dom') or (NUM if 'float' in case['rule'] or 'int' in case['rule'] else None))
    cx.assume(not (path[:1] == '/' or path[-1:] == '/'))
    vals = matches(items, path)
    if vals is None:
        cx.reach('nomatch')
        return
    ep, err = router.resolve('/' + path, 'GET')
    if ep is None:
        cx.reach('other')     # decided by C01
        return
    params = ep[1]
    anon = [v for k, v in vals if not k]
    cx.reach('match')
    if vals:
        cx.reach('wild')
    try:
        url = route.url(*anon, **params)
    except Exception as e:
        cx.obs('exc', type(e).__name__)
        cx.fail('building the URL from matched parameters failed')
        return
    cx.obs('url', url)
    back = matches(items, url)
    cx.check(back is not None, 'the rule does not match the built URL / literal text changed')
    if back is None:
        return
    cx.check(len(back) == len(vals), 'wildcards')
    for (k, v), (k2, v2) in zip(vals, back):
        cx.check(v == v2, 'the built URL carries another value')
    ep2, err2 = router.resolve('/' + url, 'GET')
    cx.check(ep2 is not None and ep2[0] is ep[0], 'the router does not lead the built URL back to the rule')
    if ep2 is None:
        return
    p2 = ep2[1]
    cx.check(len(p2) == len(params), 'parameters differ')
    for k in params:
        cx.check(k in p2 and p2[k] == params[k], 'parameter value differs')


WITNESSES = ('match', 'wild', 'nomatch')
ASSUMPTIONS = ['paths are compared without outer slashes; filters that accept the empty string are not used; '
               'values of anonymous wildcards are passed positionally in order']


def BOUNDS(tier):
    return ('%d rule templates (literal characters symbolic) with every filter type, every path of up to %d arbitrary characters '
            'plus long number prefixes (up to 20 digits)' % (len(POOL) + len(PARTIAL), 7 if tier != 'quick' else 5))
