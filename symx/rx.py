"""Backtracking matcher for Python regular expressions over symbolic strings.

The pattern is parsed by the interpreter's own re._parser; matching follows sre's order of alternatives, and
every test on a symbolic character is a branch of the executor.
"""
import re
from re import _parser as P, _constants as C, _compiler as CO
from . import iset
from . import expr as X
from . import vals as V
from .core import branch

ALL = ((0, V.MAXU),)
_SETS = {}
_PARSED = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    r = _PARSED.get(k)
    if r is None:
        r = _PARSED[k] = P.parse(pat.pattern, pat.flags & ~re.DEBUG)
    return r


def category(name, flags):
    k = (name, bool(flags & re.ASCII))
    r = _SETS.get(k)
    if r is None:
        n = str(name)
        neg = 'NOT_' in n
        base = n.replace('CATEGORY_', '').replace('NOT_', '')
        if flags & re.ASCII:
            f = {'DIGIT': str.isdigit, 'SPACE': lambda c: c in ' \t\n\r\f\v', 'WORD': lambda c: c.isalnum() or c == '_'}[base]
            s = iset.norm((c, c) for c in range(128) if f(chr(c)))
        else:
            s = {'DIGIT': lambda: V.cls('isdecimal'), 'SPACE': lambda: V.cls('isspace'),
                 'WORD': lambda: iset.union(V.cls('isalnum'), iset.of(95))}[base]()
        if neg:
            s = iset.inter(iset.compl(s), ALL)
        r = _SETS[k] = s
    return r


def charset(op, av, flags):
    """characters matched by a single-character node, or None if it is not one"""
    if op is C.LITERAL or op is C.NOT_LITERAL or op is C.IN or op is C.ANY:
        k = (op, str(av), flags & (re.I | re.A | re.S | re.U | re.L))
        r = _SETS.get(k)
        if r is None:
            r = _SETS[k] = _charset(op, av, flags)
        return r
    return None


def _charset(op, av, flags):
    if op is C.ANY:
        return ALL if flags & re.S else iset.diff(ALL, iset.of(10))
    if flags & re.I:
        st = P.State()
        st.flags = flags
        st.str = '' if flags & re.U else b''
        sp = P.SubPattern(st, [(op, av)])
        pat = CO.compile(sp, flags)
        top = 256 if not flags & re.U and isinstance(st.str, bytes) else V.MAXU + 1
        out = []
        for c in range(top):
            if pat.fullmatch(chr(c) if st.str == '' else bytes((c,))):
                out.append((c, c))
        return iset.norm(out)
    if op is C.LITERAL:
        return iset.of(av)
    if op is C.NOT_LITERAL:
        return iset.diff(ALL, iset.of(av))
    s, neg = [], False
    for o, a in av:
        if o is C.NEGATE:
            neg = True
        elif o is C.LITERAL:
            s.append((a, a))
        elif o is C.RANGE:
            s.append(a)
        elif o is C.CATEGORY:
            s += category(a, flags)
        else:
            raise NotImplementedError(o)
    s = iset.norm(s)
    return iset.diff(ALL, s) if neg else s


class Matcher:
    def __init__(self, pat, s, pos=0, endpos=None):
        self.pat = pat
        self.s = s
        self.tree = parsed(pat)
        self.flags = self.tree.state.flags | pat.flags
        self.e = V.els(s)
        n = len(self.e)
        self.end = n if endpos is None else max(0, min(n, V.concretize(endpos)))
        self.e = self.e[:self.end]
        self.pos = min(max(0, V.concretize(pos)), self.end)
        self.g = {}

    def test(self, i, st):
        return branch(X.inset(self.e[i], st))

    def seq(self, ops, j, i, fl, k):
        if j == len(ops):
            return k(i)
        op, av = ops[j]
        st = charset(op, av, fl)
        if st is not None:
            if i < self.end and self.test(i, st):
                return self.seq(ops, j + 1, i + 1, fl, k)
            return None
        return self.node(op, av, i, fl, lambda i2: self.seq(ops, j + 1, i2, fl, k))

    def node(self, op, av, i, fl, k):
        if op is C.AT:
            return k(i) if self.at(av, i, fl) else None
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            fl2 = (fl | addf) & ~delf
            if gid is None:
                return self.seq(list(sub), 0, i, fl2, k)
            old = self.g.get(gid)
            oldl = self.g.get('last')

            def done(i2):
                prev = self.g.get(gid)
                prevl = self.g.get('last')
                self.g[gid] = (i, i2)
                self.g['last'] = gid
                r = k(i2)
                if r is None:
                    self.put(gid, prev)
                    self.put('last', prevl)
                return r
            r = self.seq(list(sub), 0, i, fl2, done)
            if r is None:
                self.put(gid, old)
                self.put('last', oldl)
            return r
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, fl, k)
                if r is not None:
                    return r
            return None
        if op is C.MAX_REPEAT or op is C.MIN_REPEAT or op is C.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1:
                st = charset(sub[0][0], sub[0][1], fl)
                if st is not None:
                    return self.single(op, lo, hi, st, i, k)
            if op is C.MAX_REPEAT:
                return self.greedy(sub, 0, lo, hi, i, fl, k, -1)
            if op is C.MIN_REPEAT:
                return self.lazy(sub, 0, lo, hi, i, fl, k, -1)
            e = self.greedy(sub, 0, lo, hi, i, fl, lambda x: x, -1)
            return None if e is None else k(e)
        if op is C.ATOMIC_GROUP:
            e = self.seq(list(av), 0, i, fl, lambda x: x)
            return None if e is None else k(e)
        if op is C.ASSERT or op is C.ASSERT_NOT:
            d, sub = av
            if d < 0:
                w = sub.getwidth()[0]
                r = None
                if i - w >= 0:
                    r = self.seq(list(sub), 0, i - w, fl, lambda x: x if x == i else None)
            else:
                r = self.seq(list(sub), 0, i, fl, lambda x: x)
            if (r is None) == (op is C.ASSERT):
                return None
            return k(i)
        if op is C.GROUPREF:
            g = self.g.get(av)
            if g is None:
                return None
            a, b = g
            n = b - a
            if i + n > self.end:
                return None
            if fl & re.I:
                same = branch(V.eqcond(V.els(V.mkstr(self.e[a:b]).lower()), V.els(V.mkstr(self.e[i:i + n]).lower())))
            else:
                same = branch(V.eqcond(self.e[a:b], self.e[i:i + n]))
            return k(i + n) if same else None
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            sub = yes if self.g.get(gid) is not None else no
            return k(i) if sub is None else self.seq(list(sub), 0, i, fl, k)
        if op is C.FAILURE:
            return None
        raise NotImplementedError('regex node %s' % (op,))

    def put(self, key, v):
        if v is None:
            self.g.pop(key, None)
        else:
            self.g[key] = v

    def at(self, av, i, fl):
        n = str(av)
        if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            if i == 0:
                return True
            if n == 'AT_BEGINNING' and fl & re.M:
                return branch(X.cmp('==', self.e[i - 1], 10))
            return False
        if n == 'AT_END_STRING':
            return i == self.end
        if n == 'AT_END':
            if i == self.end:
                return True
            if fl & re.M:
                return branch(X.cmp('==', self.e[i], 10))
            return i == self.end - 1 and branch(X.cmp('==', self.e[i], 10))
        if n in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = category(C.CATEGORY_WORD, fl)
            a = i > 0 and branch(X.inset(self.e[i - 1], w))
            b = i < self.end and branch(X.inset(self.e[i], w))
            return (a != b) == (n == 'AT_BOUNDARY')
        raise NotImplementedError(n)

    def single(self, op, lo, hi, st, i, k):
        hi = self.end - i if hi is C.MAXREPEAT else min(hi, self.end - i)
        n = 0
        if op is C.MIN_REPEAT:
            while n < lo:
                if n >= hi or not self.test(i + n, st):
                    return None
                n += 1
            while True:
                r = k(i + n)
                if r is not None:
                    return r
                if n >= hi or not self.test(i + n, st):
                    return None
                n += 1
        while n < hi and self.test(i + n, st):
            n += 1
        if n < lo:
            return None
        if op is C.POSSESSIVE_REPEAT:
            return k(i + n)
        while n >= lo:
            r = k(i + n)
            if r is not None:
                return r
            n -= 1
        return None

    def greedy(self, sub, n, lo, hi, i, fl, k, last):
        if (hi is C.MAXREPEAT or n < hi) and not (n >= lo and i == last):
            r = self.seq(sub, 0, i, fl, lambda i2: self.greedy(sub, n + 1, lo, hi, i2, fl, k, i))
            if r is not None:
                return r
        if n >= lo:
            return k(i)
        return None

    def lazy(self, sub, n, lo, hi, i, fl, k, last):
        if n >= lo:
            r = k(i)
            if r is not None:
                return r
        if (hi is C.MAXREPEAT or n < hi) and not (n >= lo and i == last):
            return self.seq(sub, 0, i, fl, lambda i2: self.lazy(sub, n + 1, lo, hi, i2, fl, k, i))
        return None

    def match_at(self, i, full=False):
        self.g = {}
        fin = (lambda x: x if x == self.end else None) if full else (lambda x: x)
        e = self.seq(list(self.tree), 0, i, self.flags, fin)
        if e is None:
            return None
        return Match(self, i, e, dict(self.g))


class Match:
    _sx_match = True

    def __init__(self, m, i, e, g):
        self.re = m.pat
        self.string = m.s
        self.pos, self.endpos = m.pos, m.end
        self._sp = {0: (i, e)}
        self.lastindex = g.pop('last', None)
        self._sp.update(g)

    def _gid(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g if type(g) is str else str(g)]
            except KeyError:
                raise IndexError('no such group')
        g = V.concretize(g)
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        sp = self._sp.get(self._gid(g))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._sp.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastgroup(self):
        for n, i in self.re.groupindex.items():
            if i == self.lastindex:
                return n

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def expand(self, t):
        return template(self.re, t)(self)

    def __bool__(self):
        return True


def template(pat, repl):
    if isinstance(repl, V.Sym):
        repl = repl.conc()
    if '\\' not in repl if isinstance(repl, str) else b'\\' not in repl:
        return lambda m: repl
    t = P.parse_template(repl, pat)
    empty = pat.pattern[:0]

    def f(m):
        out = empty
        for x in t:
            out = out + ((m._get(x) or empty) if isinstance(x, int) else x)
        return out
    return f


def match(pat, s, pos=0, endpos=None):
    m = Matcher(pat, s, pos, endpos)
    return m.match_at(m.pos)


def fullmatch(pat, s, pos=0, endpos=None):
    m = Matcher(pat, s, pos, endpos)
    return m.match_at(m.pos, True)


def search(pat, s, pos=0, endpos=None):
    m = Matcher(pat, s, pos, endpos)
    for i in range(m.pos, m.end + 1):
        r = m.match_at(i)
        if r is not None:
            return r
    return None


def finditer(pat, s, pos=0, endpos=None):
    m = Matcher(pat, s, pos, endpos)
    i = m.pos
    last_empty = -1
    while i <= m.end:
        r = None
        # an empty match right after the previous match is allowed, twice the same empty match is not
        r = m.match_at(i)
        if r is not None and r.end() == i and i == last_empty:
            r = nonempty(m, i)
        if r is None:
            i += 1
            continue
        yield r
        if r.end() == r.start():
            last_empty = i
            r2 = nonempty(m, i)
            if r2 is not None:
                yield r2
                i = r2.end()
            else:
                i += 1
        else:
            i = r.end()
    return


def nonempty(m, i):
    m.g = {}
    e = m.seq(list(m.tree), 0, i, m.flags, lambda x: x if x > i else None)
    return None if e is None else Match(m, i, e, dict(m.g))


def findall(pat, s, pos=0, endpos=None):
    out = []
    empty = s[0:0]
    for m in finditer(pat, s, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            g = m.group(1)
            out.append(empty if g is None else g)
        else:
            out.append(m.groups(empty))
    return out


def subn(pat, repl, s, count=0):
    f = repl if callable(repl) else template(pat, repl)
    out = s[0:0]
    last = n = 0
    for m in finditer(pat, s):
        if count and n >= count:
            break
        out = out + s[last:m.start()] + f(m)
        last = m.end()
        n += 1
    return out + s[last:], n


def sub(pat, repl, s, count=0):
    return subn(pat, repl, s, count)[0]


def split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last:m.start()])
        out += list(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


METHODS = {'match': match, 'fullmatch': fullmatch, 'search': search, 'finditer': finditer, 'findall': findall,
           'sub': sub, 'subn': subn, 'split': split}
