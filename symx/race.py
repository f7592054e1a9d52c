"""Statement-level control of threads: yield points, shared-state change detection, schedules.

Every statement of the functions of the code under test (and of the application module of the check) is preceded by
a call of `_vpY`, in the instrumented form as well as in the plain one, so that both count the same statements.
"""
import _thread
import ast
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import threading
import types
from itertools import chain
from . import core

STM = {}            # statement id -> names mentioned by the statement
RUN = None
TL = threading.local()
ROOTS = ('ombott', 'checks.c08_app')
_RealLock = _thread.allocate_lock


# ---------------------------------------------------------------- yield points

class Yielder(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        node.body = self.block(node.body, True)
        self.depth -= 1
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        sid = '%s:%d:%d' % (self.mod, node.lineno, node.col_offset)
        STM.setdefault(sid, names_of(node.body))
        y = ast.Call(ast.Name('_vpY', ast.Load()), [ast.Constant(sid)], [])
        ast.copy_location(y, node.body)
        if self.yields(node.body):
            return node
        node.body = ast.IfExp(y, ast.Constant(None), node.body)     # (a yield point returns None)
        return node

    @staticmethod
    def yields(x):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(x))

    def block(self, body, top=False):
        out = []
        for i, s in enumerate(body):
            doc = top and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                sid = '%s:%d:%d' % (self.mod, s.lineno, s.col_offset)
                STM.setdefault(sid, names_of(s))
                e = ast.Expr(ast.Call(ast.Name('_vpY', ast.Load()), [ast.Constant(sid)], []))
                ast.copy_location(e, s)
                ast.fix_missing_locations(e)
                out.append(e)
            out.append(s)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) \
                        and not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
                    setattr(node, f, self.block(b))
        return node


def names_of(s):
    """names a statement mentions (the heads only, for compound statements)"""
    r = set()
    todo = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name):
            r.add(n.id)
        elif isinstance(n, ast.Attribute):
            r.add(n.attr)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            r.add(n.value)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, ast.stmt):
                todo.append(c)
    return frozenset(r)


def wants(name):
    return any(name == r or name.startswith(r + '.') for r in ROOTS)


def prepass(name, tree):
    if wants(name):
        tree = Yielder(name).visit(tree)
        ast.fix_missing_locations(tree)
    return tree


class _Src(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        p = self.get_filename(fullname)
        with open(p, encoding='utf8') as f:
            tree = ast.parse(f.read(), p)
        return compile(prepass(fullname, tree), p, 'exec', dont_inherit=True)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not wants(name):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return spec
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=_Src(name, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def install():
    """once per process, before the code under test is imported"""
    if getattr(builtins, '_vpY', None) is y:
        return
    builtins._vpY = y
    sys.meta_path.insert(0, _Finder)
    threading.Lock = Lock
    threading.RLock = RLock
    from . import loader
    if loader.LOADER is not None:
        loader.LOADER.bi['_vpY'] = y
        loader.LOADER.prepass = prepass


def y(sid):
    r = RUN
    if r is not None:
        t = getattr(TL, 'tid', None)
        if t is not None:
            r.step(t, sid)


# ---------------------------------------------------------------- locks that hand the turn on

class Lock:
    re = False

    def __init__(self):
        self.real = _RealLock()
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.re and self.owner == me:
            self.n += 1
            return True
        r = RUN
        t = getattr(TL, 'tid', None)
        if r is None or t is None or not blocking:
            if not self.real.acquire(blocking, timeout):
                return False
        else:
            while not self.real.acquire(False):
                if timeout is not None and timeout >= 0:
                    return False
                r.blocked(t, self)
        self.owner = me
        self.n = 1
        return True

    def release(self):
        if self.re:
            if self.owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self.n -= 1
            if self.n:
                return
        self.owner = None
        self.real.release()

    def locked(self):
        return self.real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class RLock(Lock):
    re = True

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        n, self.n = self.n, 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.n = n


# ---------------------------------------------------------------- shared state

ATOMS = (str, bytes, int, float, bool, type(None), types.BuiltinFunctionType, types.CodeType, range, complex)
SKIP = (threading.local, types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType,
        types.MemberDescriptorType, types.FrameType, types.TracebackType)
_NONE = object()
FROZEN = (tuple, frozenset, property, staticmethod, classmethod, types.MethodType)


class State:
    """what is reachable from the modules of the code under test and from the application, without what lives in
    thread-local stores"""

    def __init__(self, roots):
        self.roots = roots
        self.take()

    def take(self):
        self.items = []
        self.live = []
        self.slow = []
        self.seen = {}
        todo = [('', r) for r in self.roots]
        while todo:
            name, o = todo.pop()
            if isinstance(o, ATOMS) or isinstance(o, SKIP) or id(o) in self.seen:
                continue
            t = type(o)
            if t.__module__.startswith('symx') and t.__name__ != 'SxByteArray':
                continue
            self.seen[id(o)] = o
            if t in FROZEN:
                todo += [(name, v) for k, g in self.parts(o, t) for v in g(o)]
                continue
            for kind, get in self.parts(o, t):
                refs = get(o)
                if refs is None:
                    continue
                if t is not types.FunctionType or o.__closure__ or o.__dict__:
                    it = (o, name, kind, get, refs, [id(x) for x in refs])
                    self.items.append(it)
                    v = live(o, kind, get)
                    if v is None:
                        self.slow.append(it)
                    else:
                        self.live.append(v)
                if kind == 'map':
                    n = len(refs) // 2
                    todo += [(k if isinstance(k, str) else name, v) for k, v in zip(refs[:n], refs[n:])]
                    todo += [(name, k) for k in refs[:n] if not isinstance(k, str)]
                elif kind != 'val':
                    todo += [(name, v) for v in refs if v is not _NONE]
        self.lens = list(map(len, self.live))
        self.ids = list(map(id, chain.from_iterable(self.live)))

    def parts(self, o, t):
        if isinstance(o, types.ModuleType):
            if not wants(o.__name__):
                return []
            return [('map', lambda o: mapping({k: v for k, v in vars(o).items() if k not in MODNAMES}))]
        if isinstance(o, types.FunctionType):
            if not wants(o.__module__ or ''):
                return []
            return [('seq', func)]
        if isinstance(o, type):
            if not wants(o.__module__):
                return []
            return [('map', lambda o: mapping({k: v for k, v in vars(o).items() if k not in ('__dict__', '__weakref__', '__doc__', '_abc_impl')}))]
        out = []
        if isinstance(o, dict):
            out.append(('map', _dictparts))
        elif isinstance(o, (list, tuple)):
            out.append(('seq', lambda o: list(o)))
        elif isinstance(o, (set, frozenset)):
            out.append(('seq', lambda o: list(o)))
        elif isinstance(o, (property, staticmethod, classmethod, types.MethodType)):
            return [('seq', lambda o: [getattr(o, a) for a in ('fget', 'fset', 'fdel', '__func__', '__self__') if hasattr(o, a)])]
        elif isinstance(o, BaseException):
            out.append(('seq', lambda o: [o.args, o.__traceback__, o.__context__, o.__cause__]))
        elif hasattr(t, 'cache_info'):
            out.append(('val', lambda o: Val(o, lambda o: tuple(o.cache_info()))))
            out.append(('seq', lambda o: [o.__wrapped__]))
        elif t.__module__ in ('collections', '_collections', 'itertools', '_io', 'queue', 'array') or t in (bytearray,):
            out.append(('val', lambda o: Val(o, opaque)))
        elif isinstance(o, types.GeneratorType):
            out.append(('val', lambda o: Val(o, lambda o: (o.gi_frame.f_lasti if o.gi_frame else -1, o.gi_running))))
        if hasattr(o, '__dict__') and isinstance(getattr(o, '__dict__', None), dict):
            out.append(('map', _attrs))
        if any('__slots__' in c.__dict__ for c in t.__mro__):
            out.append(('map', slots))
        if not out and wants(t.__module__):
            out.append(('seq', lambda o: []))
        if not isinstance(o, types.FunctionType) and wants(t.__module__):
            out.append(('seq', lambda o: [type(o)]))
        return out

    def diff(self):
        """names of what changed since the last look; [] when nothing did"""
        bad = []
        items = self.slow
        if list(map(len, self.live)) != self.lens or list(map(id, chain.from_iterable(self.live))) != self.ids:
            items = self.items
        for o, name, kind, get, refs, ids in items:
            now = get(o)
            if kind == 'val':
                if now[0].v != refs[0].v:
                    bad.append(name)
            elif now is None or list(map(id, now)) != ids:
                bad.append(name)
                if kind == 'map' and now is not None:
                    a = {id(k): (k, id(v)) for k, v in halves(refs)}
                    b = {id(k): (k, id(v)) for k, v in halves(now)}
                    for i in set(a) | set(b):
                        if a.get(i) != b.get(i):
                            k = (a.get(i) or b.get(i))[0]
                            if isinstance(k, str):
                                bad.append(k)
        if bad:
            self.take()
        return [b for b in bad if b]


def live(o, kind, get):
    """something with the current parts of `o`, without building it anew"""
    if kind == 'val':
        return None
    if isinstance(o, (list, set, frozenset, tuple)):
        return o
    if isinstance(o, dict):
        return dict.values(o) if get is _dictparts else None
    if isinstance(o, (type, types.ModuleType)):
        return vars(o).values()
    if get is _attrs:
        return object.__getattribute__(o, '__dict__').values()
    return None


def _dictparts(o):
    return mapping(o)


def _attrs(o):
    return mapping(object.__getattribute__(o, '__dict__'))


MODNAMES = {'__builtins__', '__spec__', '__loader__', '__cached__', '__file__', '__name__', '__package__', '__path__', '__doc__'}


def halves(refs):
    n = len(refs) // 2
    return zip(refs[:n], refs[n:])


def mapping(d):
    return list(dict.keys(d)) + list(dict.values(d)) if isinstance(d, dict) else list(d.keys()) + list(d.values())


def func(o):
    r = [o.__defaults__, o.__kwdefaults__]
    for c in o.__closure__ or ():
        try:
            r.append(c.cell_contents)
        except ValueError:
            r.append(None)
    r.append(getattr(o, '__wrapped__', None))
    if o.__dict__:
        r += mapping(o.__dict__)
    return r


def slots(o):
    names, vals = [], []
    for c in type(o).__mro__:
        for n, m in c.__dict__.items():
            if isinstance(m, types.MemberDescriptorType):
                try:
                    v = m.__get__(o)
                except AttributeError:
                    continue
                names.append(n)
                vals.append(v)
    return names + vals


class _V:
    def __init__(self, v):
        self.v = v


def Val(o, f):
    try:
        return [_V(f(o))]
    except Exception:
        return [_V(None)]


def opaque(o):
    if hasattr(o, 'tell') and hasattr(o, 'getvalue'):
        return (o.tell(), o.getvalue())
    if hasattr(o, '__len__'):
        return (len(o), [id(x) for x in o])
    return repr(o)


def modules(top):
    """the package and the modules below it, in the form the caller uses"""
    out, todo = [], [top]
    while todo:
        m = todo.pop()
        if m not in out:
            out.append(m)
            todo += [v for v in vars(m).values() if isinstance(v, types.ModuleType) and wants(v.__name__)]
    return out


# ---------------------------------------------------------------- runs

class Deadlock(Exception):
    pass


class Killed(core.Abort):
    pass


class Run:
    """threads that take turns: plan = [(thread, n)]: `thread` goes on until it is about to execute its n-th
    statement (None: to its end)"""

    def __init__(self, funcs, plan, state=None):
        self.funcs = funcs
        self.plan = list(plan)
        self.state = state
        n = len(funcs)
        self.cnt = [0] * n
        self.sids = [[] for _ in range(n)]
        self.hot = set()
        self.names = set()
        self.writes = [[] for _ in range(n)]
        self.done = [False] * n
        self.result = [None] * n
        self.exc = None
        self.killed = False
        self.wait = [None] * n
        self.sem = [_RealLock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.main = _RealLock()
        self.main.acquire()
        self.switches = 0

    def go(self):
        global RUN
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.funcs))]
        RUN = self
        try:
            for t in ts:
                t.start()
            self.next(None)
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            RUN = None
        if self.exc is not None:
            raise self.exc
        return self.result

    def body(self, i):
        self.sem[i].acquire()
        TL.tid = i
        try:
            if not self.killed:
                self.result[i] = ('ok', self.funcs[i]())
        except Exception as e:
            self.result[i] = ('raised', type(e).__name__)
            if isinstance(e, (core.Fail, core.Cex)):
                self.stop(e)
        except BaseException as e:
            self.stop(e)
        finally:
            TL.tid = None
            if self.state is not None and not self.killed:
                self.look(i)
            self.done[i] = True
            self.next(i)

    def stop(self, e):
        if not self.killed:
            self.killed = True
            self.exc = e

    def next(self, me):
        """hand the turn on; (returns True when `me` keeps it)"""
        if self.killed:
            for i in range(len(self.funcs)):
                if not self.done[i]:
                    if i == me:
                        raise Killed
                    self.sem[i].release()
                    return False
            self.main.release()
            return False
        n = len(self.funcs)
        if all(self.done):
            self.main.release()
            return False
        while self.plan:
            t, k = self.plan[0]
            if self.runnable(t) and (k is None or self.cnt[t] < k):
                break
            self.plan.pop(0)
        else:
            self.plan = [(i, None) for i in range(n) if self.runnable(i)]
            if not self.plan:
                self.stop(Deadlock('all threads wait for locks'))
                return self.next(me)
        t = self.plan[0][0]
        if t == me:
            return True
        self.switches += 1
        self.sem[t].release()
        return False

    def runnable(self, t):
        return not self.done[t] and not (self.wait[t] is not None and self.wait[t].locked())

    def step(self, t, sid):
        if self.killed:
            raise Killed
        self.sids[t].append(sid)
        self.cnt[t] += 1
        if self.state is not None:
            self.look(t)
        n = self.plan[0][1] if self.plan and self.plan[0][0] == t else None
        if n is not None and self.cnt[t] >= n:
            self.turn(t)

    def turn(self, t):
        if not self.next(t):
            self.sem[t].acquire()
            if self.killed:
                raise Killed

    def blocked(self, t, lock):
        self.wait[t] = lock
        self.turn(t)
        self.wait[t] = None

    def look(self, t):
        tid, TL.tid = getattr(TL, 'tid', None), None
        try:
            d = self.state.diff()
        finally:
            TL.tid = tid
        if d:
            self.names.update(d)
            n = len(self.sids[t])
            # the statement before this yield point
            k = n - 2 if tid is not None else n - 1
            if k >= 0:
                self.hot.add(self.sids[t][k])
                self.writes[t].append(k + 1)


POINTS = {}         # per process: case -> points (not part of the state that is restored between paths)


def pick(cx, name, points):
    """one of the points; every one is explored"""
    points = sorted(set(points))
    k = cx.int(name, points[0], points[-1])
    lo, hi = 0, len(points) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if k <= points[mid]:
            hi = mid
        else:
            lo = mid + 1
    cx.assume(k == points[lo])
    return points[lo]
