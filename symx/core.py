"""Path context of the symbolic executor: variables, domains, path condition, branching, assertions.

A path is explored by executing the program from the start.  The decision log of earlier decisions is
replayed, then new symbolic branches are decided by the current model and the other side is queued when the
solver says that it is feasible.
"""
import time
import z3
from . import iset
from .iset import NEG, POS
from . import expr as X


class Abort(BaseException):
    """the path ends here (assumption is false, ...); never caught by the code under test"""


class Hang(Abort):
    """step budget of the path is used up"""


class EngineError(BaseException):
    """something the engine cannot do"""


class Fail(Exception):
    """concrete mode: a check failed"""


class Stats:
    F = ('paths', 'aborted', 'branches', 'forks', 'q_branch', 'q_assert', 'q_assert_triv', 'z3_calls', 'asserts',
         'validated', 'mismatch', 'unknown', 'steps')

    def __init__(self):
        for f in self.F:
            setattr(self, f, 0)
        self.z3_time = 0.0
        self.notes = {}
        self.funcs = set()
        self.witness = {}

    def dump(self):
        d = {f: getattr(self, f) for f in self.F}
        d['z3_time'] = self.z3_time
        d['notes'] = self.notes
        d['funcs'] = self.funcs
        d['witness'] = self.witness
        return d

    def merge(self, d):
        for f in self.F:
            setattr(self, f, getattr(self, f) + d[f])
        self.z3_time += d['z3_time']
        for k, v in d['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in d['witness'].items():
            self.witness[k] = self.witness.get(k, 0) + v
        self.funcs |= d['funcs']


STATS = Stats()
CUR = None      # current Path


def cur():
    return CUR


class Cex(Exception):
    pass


BVMAX = 1 << 31


def _bounds(l):
    return CUR.bounds(l)


X.BOUNDS = _bounds
X.DOM = lambda v: CUR.dom[v]


class Path:
    symbolic = True

    def __init__(self, prefix=(), model=None, step_limit=400000):
        self.prefix = prefix
        self.log = []
        self.carried = model or {}
        self.model = {}
        self.dom = []
        self.names = []
        self.pc = []
        self.known = {}
        self.ent = set()
        self.root = {}          # variable -> class of variables known to be equal (a list, shared)
        self.diseq = []         # pairs of variables known to differ
        self.alts = []          # (prefix, model)
        self.inputs = {}        # name -> symbolic/concrete value
        self.observed = []
        self.failures = []      # (msg, model)
        self.steps = 0
        self.step_limit = step_limit
        self.cache = {}         # scratch for the value layer (symbolic-key dicts, ...)
        self.fresh = 0
        self.tainted = 0        # concretisations on this path
        self.witnesses = set()

    # ------------------------------------------------------------ variables
    def new_var(self, dom, name='', prefer=()):
        i = len(self.dom)
        self.dom.append(dom)
        self.names.append(name)
        v = self.carried.get(i)
        if v is None or not iset.has(dom, v):
            v = iset.pick(dom, prefer)
        self.model[i] = v
        return i

    # ------------------------------------------------------------ reasoning with domains only
    def bounds(self, l):
        lo = hi = l.c
        for a, k in l.t:
            alo, ahi = self.abounds(a)
            if k > 0:
                lo = NEG if (alo <= NEG or lo <= NEG) else lo + k * alo
                hi = POS if (ahi >= POS or hi >= POS) else hi + k * ahi
            else:
                lo = NEG if (ahi >= POS or lo <= NEG) else lo + k * ahi
                hi = POS if (alo <= NEG or hi >= POS) else hi + k * alo
        return max(lo, NEG), min(hi, POS)

    def abounds(self, a):
        if isinstance(a, int):
            d = self.dom[a]
            return d[0][0], d[-1][1]
        if isinstance(a, X.ModC):
            return 0, a.k - 1
        if isinstance(a, X.DivC):
            lo, hi = self.bounds(a.l)
            return (NEG if lo <= NEG else lo // a.k), (POS if hi >= POS else hi // a.k)
        if isinstance(a, X.PMap):
            l0, h0 = self.bounds(a.l)
            d = ((l0, h0),)
            if len(a.l.t) == 1 and isinstance(a.l.t[0][0], int) and a.l.t[0][1] == 1:
                d = iset.shift(self.dom[a.l.t[0][0]], a.l.c)
            lo, hi = POS, NEG
            rest = d
            for x, y, s in a.pieces:
                i = iset.inter(d, ((x, y),))
                if i:
                    lo = min(lo, i[0][0] + s)
                    hi = max(hi, i[-1][1] + s)
                    rest = iset.diff(rest, ((x, y),))
            if rest:
                lo = min(lo, rest[0][0])
                hi = max(hi, rest[-1][1])
            return lo, hi
        if isinstance(a, X.Ite):
            l1, h1 = self.bounds(a.a)
            l2, h2 = self.bounds(a.b)
            return min(l1, l2), max(h1, h2)
        return NEG, POS

    def tri(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, X.U):
            d = self.dom[c.v]
            i = iset.inter(d, c.s)
            if not i:
                return False
            if i == d:
                return True
            return None
        r = self.known.get(c.key)
        if r is not None:
            return r
        if isinstance(c, X.L):
            lo, hi = self.bounds(c.l)
            if c.op == '<=':
                return True if hi <= 0 else False if lo > 0 else None
            if lo > 0 or hi < 0:
                return c.op == '!='
            if lo == hi == 0:
                return c.op == '=='
            if self.root or self.diseq:
                return self.eqtri(c)
            return None
        res = c.and_
        for x in c.cs:
            t = self.tri(x)
            if t is None:
                res = None
            elif t is not c.and_:
                return not c.and_
        return res

    def pair(self, c):
        """(a, b) if c is a == b or a != b for two variables"""
        t = c.l.t
        if len(t) == 2 and c.l.c == 0 and t[0][1] == -t[1][1] and t[0][1] in (1, -1) \
                and isinstance(t[0][0], int) and isinstance(t[1][0], int):
            return t[0][0], t[1][0]
        return None

    def eqtri(self, c):
        ab = self.pair(c)
        if ab is None:
            return None
        a, b = ab
        ra, rb = self.root.get(a), self.root.get(b)
        if ra is not None and ra is rb:
            return c.op == '=='
        for x, y in self.diseq:
            rx, ry = self.root.get(x), self.root.get(y)
            if ((x == a or rx is not None and rx is ra) and (y == b or ry is not None and ry is rb)
                    or (x == b or rx is not None and rx is rb) and (y == a or ry is not None and ry is ra)):
                return c.op == '!='
        return None

    def merge(self, a, b):
        ra = self.root.get(a) or [a]
        rb = self.root.get(b) or [b]
        if ra is rb:
            return
        d = iset.inter(self.dom[a], self.dom[b])
        if not d:
            raise Abort()
        r = ra + rb
        for v in r:
            self.root[v] = r
            self.dom[v] = d

    # ------------------------------------------------------------ path condition
    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise Abort()
            return
        if isinstance(c, X.U):
            d = iset.inter(self.dom[c.v], c.s)
            r = self.root.get(c.v)
            if r is None:
                self.dom[c.v] = d
            else:
                for v in r:
                    self.dom[v] = d
            return
        if isinstance(c, X.AO) and c.and_:
            for x in c.cs:
                self.add(x)
            return
        if isinstance(c, X.AO):
            # drop alternatives that the domains already exclude
            cs = [x for x in c.cs if self.tri(x) is not False]
            if len(cs) == 1:
                self.known[c.key] = True
                self.add(cs[0])
                return
        if isinstance(c, X.L) and c.op != '<=':
            ab = self.pair(c)
            if ab is not None:
                if c.op == '==':
                    self.merge(*ab)
                else:
                    self.diseq.append(ab)
        self.known[c.key] = True
        n = c.neg()
        self.known[n.key] = False
        self.pc.append(c)
        self.ent |= c.vs

    def cone(self, vs):
        vs = set(vs)
        picked = []
        left = self.pc
        while True:
            rest = []
            grew = False
            for c in left:
                if c.vs & vs:
                    picked.append(c)
                    vs |= c.vs
                    grew = True
                else:
                    rest.append(c)
            left = rest
            if not grew or not left:
                return picked, vs

    def quick(self, c, m):
        """try to turn model m (dict, modified in place) into one that satisfies c by changing free variables;
        True / None (do not know)"""
        if c.ev(m):
            return True
        if isinstance(c, X.U):
            if c.v in self.ent:
                return None
            i = iset.inter(self.dom[c.v], c.s)
            if i:
                m[c.v] = iset.pick(i)
                return True
            return None
        if isinstance(c, X.AO):
            if c.and_:
                for x in c.cs:
                    if not self.quick(x, m):
                        return None
                return True if c.ev(m) else None
            for x in c.cs:
                m2 = dict(m)
                if self.tri(x) is not False and self.quick(x, m2) and x.ev(m2):
                    m.update(m2)
                    return True
            return None
        for a, k in c.l.t:
            if isinstance(a, int) and a not in self.ent and abs(k) == 1:
                d = self.dom[a]
                rest = c.l.ev(m) - k * m[a]
                if c.op == '==':
                    v = -rest * k
                    s = ((v, v),)
                elif c.op == '!=':
                    v = -rest * k
                    s = iset.compl(((v, v),))
                else:
                    s = ((NEG, -rest),) if k > 0 else ((rest, POS),)
                i = iset.inter(d, s)
                if i:
                    old = m[a]
                    m[a] = iset.pick(i)
                    if c.ev(m):
                        return True
                    m[a] = old
        return None

    def local(self, c, picked, vs):
        """try to reach a model of the path condition and c by moving one variable (with its class) of c"""
        if isinstance(c, X.AO):
            return None
        for a in c.vs:
            dom = self.dom[a]
            if isinstance(c, X.U):
                s = iset.inter(dom, c.s)
            else:
                k = 0
                for x, kk in c.l.t:
                    if x == a and isinstance(x, int):
                        k = kk
                if k != 1 and k != -1:
                    continue
                rest = c.l.ev(self.model) - k * self.model[a]
                v = -rest * k
                if c.op == '==':
                    s = ((v, v),) if iset.has(dom, v) else ()
                elif c.op == '!=':
                    s = iset.diff(dom, ((v, v),))
                else:
                    s = iset.inter(dom, ((NEG, -rest),) if k > 0 else ((rest, POS),))
            if not s:
                continue
            cands = [iset.pick(s)]
            if s[0] != s[-1] or s[0][0] != s[0][1]:
                f = iset.diff(s, iset.of(*[self.model[x] for x in vs if x < len(self.dom)]))
                if f:
                    cands.append(iset.pick(f))
            cls = self.root.get(a) or (a,)
            for v in cands:
                m = dict(self.model)
                for x in cls:
                    m[x] = v
                if c.ev(m) and all(p.ev(m) for p in picked):
                    return m
        return None

    def solve(self, c, kind='q_branch'):
        """model of pc and c (dict over all variables) or None"""
        setattr(STATS, kind, getattr(STATS, kind) + 1)
        t = self.tri(c)
        if t is False:
            return None
        if c is True or (not isinstance(c, bool) and c.ev(self.model)):
            return dict(self.model)
        m = dict(self.model)
        if self.quick(c, m):
            return m
        if isinstance(c, X.U) and c.v not in self.ent:
            return None
        picked, vs = self.cone(c.vs)
        m = self.local(c, picked, vs)
        if m is not None:
            return m
        t0 = time.perf_counter()
        s = z3.Solver()
        s.set('timeout', 20000)
        w = self.width(picked, c, vs)
        if w:
            zv = lambda v: X.zbvar(v, w)
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 20000)
            for v in vs:
                s.add(X.zset(zv(v), self.dom[v]))
            for p in picked:
                s.add(p.zb(w))
            s.add(c.zb(w))
        else:
            zv = X.zvar
            for v in vs:
                d = self.dom[v]
                if d != iset.FULL:
                    s.add(X.zset(zv(v), d))
            for p in picked:
                s.add(p.z())
            s.add(c.z())
        r = s.check()
        STATS.z3_calls += 1
        if r == z3.unknown:
            STATS.unknown += 1
            STATS.z3_time += time.perf_counter() - t0
            raise EngineError('solver gave no answer: %s' % s.reason_unknown())
        if r == z3.unsat:
            STATS.z3_time += time.perf_counter() - t0
            return None
        zm = s.model()
        m = dict(self.model)
        for v in vs:
            x = zm[zv(v)]
            if x is not None:
                m[v] = x.as_signed_long() if w else x.as_long()
            elif not iset.has(self.dom[v], m[v]):
                m[v] = iset.pick(self.dom[v])
        STATS.z3_time += time.perf_counter() - t0
        if not c.ev(m):
            raise EngineError('solver model does not satisfy the condition %r' % (c.key,))
        return m

    def width(self, picked, c, vs):
        """bit width that holds every intermediate value of the conditions, 0 when there is no small one"""
        top = 1
        for v in vs:
            d = self.dom[v]
            if d[0][0] < -BVMAX or d[-1][1] > BVMAX:
                return 0
            top = max(top, -d[0][0], d[-1][1])
        try:
            for p in picked:
                top = max(top, self.mag(p))
            top = max(top, self.mag(c))
        except OverflowError:
            return 0
        if top > 5000 and self.linear(c) and all(map(self.linear, picked)):
            return 0              # sizes and offsets: linear integer arithmetic
        w = top.bit_length() + 2
        return 12 if w <= 12 else 24 if w <= 24 else 34 if w <= 34 else 0

    def linear(self, c):
        if isinstance(c, X.U):
            return len(c.s) <= 2
        if isinstance(c, X.L):
            return all(isinstance(a, int) for a, k in c.l.t)
        return all(map(self.linear, c.cs))

    def mag(self, c):
        if isinstance(c, X.U):
            return 1
        if isinstance(c, X.L):
            return self.lmag(c.l)
        return max([self.mag(x) for x in c.cs] or [1])

    def lmag(self, l):
        r = abs(l.c)
        for a, k in l.t:
            r += abs(k) * self.amag(a)
        if r > BVMAX:
            raise OverflowError
        return r

    def amag(self, a):
        if isinstance(a, int):
            d = self.dom[a]
            return max(abs(d[0][0]), abs(d[-1][1]))
        if isinstance(a, (X.DivC, X.ModC)):
            return max(self.lmag(a.l), a.k)
        if isinstance(a, X.PMap):
            return self.lmag(a.l) + max([max(abs(x), abs(y)) + abs(d) for x, y, d in a.pieces
                                         if abs(x) < BVMAX and abs(y) < BVMAX] or [0])
        if isinstance(a, X.Ite):
            return max(self.mag(a.c), self.lmag(a.a), self.lmag(a.b))
        raise OverflowError

    # ------------------------------------------------------------ branching
    def branch(self, c):
        if isinstance(c, bool):
            return c
        t = self.tri(c)
        if t is not None:
            return t
        STATS.branches += 1
        i = len(self.log)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d != c.ev(self.model):
                raise EngineError('carried model leaves the path at %d: %r' % (i, c.key))
        else:
            d = c.ev(self.model)
            m = self.solve(c.neg() if d else c)
            if m is not None:
                STATS.forks += 1
                self.alts.append((tuple(self.log) + (not d,), m))
        self.log.append(d)
        self.add(c if d else c.neg())
        return d

    def assume(self, c):
        t = self.tri(c)
        if t is True:
            return
        if t is False:
            raise Abort()
        if not c.ev(self.model):
            m = self.solve(c)
            if m is None:
                raise Abort()
            self.model = m
        self.add(c)

    # ------------------------------------------------------------ assertions
    def check(self, c, msg):
        STATS.asserts += 1
        if c is True or self.tri(c) is True:
            STATS.q_assert_triv += 1
            return True
        if c is False:
            self.failures.append((msg, dict(self.model)))
            return False
        m = self.solve(X.cneg(c), 'q_assert')
        if m is None:
            self.add(c)
            return True
        self.failures.append((msg, m))
        # continue on the side where the assertion holds, if there is one
        self.assume(c)
        return False

    def note(self, what):
        STATS.notes[what] = STATS.notes.get(what, 0) + 1
        self.tainted += 1

    def step(self):
        self.steps += 1
        STATS.steps += 1
        if self.steps > self.step_limit:
            raise Hang('step budget exceeded')


def branch(c):
    if c is True or c is False:
        return c
    return CUR.branch(c)
