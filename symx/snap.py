"""Snapshot and restore of the mutable state reachable from loaded modules (so that every path starts from the
state right after loading)."""
import threading
import types

ATOMS = (str, bytes, int, float, bool, type(None), types.FunctionType, types.BuiltinFunctionType, types.ModuleType,
         property, staticmethod, classmethod, range)


class Snapshot:
    def __init__(self, modules, own):
        """modules: module objects; own(module name) says whether a class belongs to the code under test"""
        self.items = []
        seen = set()
        stack = []
        self.own = own
        for m in modules:
            self.items.append(('d', m.__dict__, dict(m.__dict__)))
            seen.add(id(m.__dict__))
            stack += list(m.__dict__.values())
        while stack:
            o = stack.pop()
            if isinstance(o, ATOMS) and not isinstance(o, types.FunctionType):
                if not isinstance(o, property):
                    continue
            if id(o) in seen:
                continue
            seen.add(id(o))
            t = type(o)
            if t is dict or isinstance(o, dict):
                if o.get('__name__') == 'builtins':
                    continue
                self.items.append(('d', o, dict(o)))
                stack += list(o.keys()) + list(o.values())
            elif t is list or isinstance(o, list):
                self.items.append(('l', o, list(o)))
                stack += o
            elif t is set:
                self.items.append(('s', o, set(o)))
                stack += list(o)
            elif t is tuple or t is frozenset:
                stack += list(o)
            elif isinstance(o, threading.local):
                self.items.append(('d', o.__dict__, dict(o.__dict__)))
                stack += list(o.__dict__.values())
            elif isinstance(o, types.FunctionType):
                if own(o.__module__ or ''):
                    for c in o.__closure__ or ():
                        try:
                            v = c.cell_contents
                        except ValueError:
                            continue
                        self.items.append(('c', c, v))
                        stack.append(v)
                    if o.__defaults__:
                        stack += list(o.__defaults__)
                    if o.__kwdefaults__:
                        stack += list(o.__kwdefaults__.values())
                    if o.__dict__:
                        self.items.append(('d', o.__dict__, dict(o.__dict__)))
            elif isinstance(o, property):
                stack += [o.fget, o.fset, o.fdel]
            elif isinstance(o, type):
                if own(o.__module__):
                    d = {k: v for k, v in vars(o).items() if k not in ('__dict__', '__weakref__', '__doc__')}
                    self.items.append(('t', o, d))
                    stack += list(d.values())
                    for b in o.__mro__[1:]:
                        stack.append(b)
            elif own(t.__module__):
                for k in all_slots(t):
                    try:
                        v = object.__getattribute__(o, k)
                    except AttributeError:
                        v = _NONE
                    self.items.append(('a', o, (k, v)))
                    if v is not _NONE:
                        stack.append(v)
                d = getattr_dict(o)
                if d is not None:
                    self.items.append(('d', d, dict(d)))
                    stack += list(d.values())
                if isinstance(o, BaseException):
                    self.items.append(('x', o, (o.__traceback__, o.__context__, o.__cause__)))
                stack.append(t)
            elif isinstance(o, types.SimpleNamespace):
                self.items.append(('d', o.__dict__, dict(o.__dict__)))
                stack += list(o.__dict__.values())

    def restore(self):
        for k, o, v in self.items:
            if k == 'd':
                if len(o) != len(v) or any(o.get(x, _NONE) is not y for x, y in v.items()):
                    o.clear()
                    o.update(v)
            elif k == 'l':
                if len(o) != len(v) or any(a is not b for a, b in zip(o, v)):
                    o[:] = v
            elif k == 's':
                if len(o) != len(v) or any(x not in v for x in o):
                    o.clear()
                    o.update(v)
            elif k == 'c':
                try:
                    if o.cell_contents is not v:
                        o.cell_contents = v
                except ValueError:
                    o.cell_contents = v
            elif k == 'a':
                n, x = v
                try:
                    cur = object.__getattribute__(o, n)
                except AttributeError:
                    cur = _NONE
                if cur is not x:
                    if x is _NONE:
                        object.__delattr__(o, n)
                    else:
                        object.__setattr__(o, n, x)
            elif k == 't':
                cur = vars(o)
                for n, x in v.items():
                    if cur.get(n, _NONE) is not x:
                        setattr(o, n, x)
                extra = [n for n in cur if n not in v and n not in ('__dict__', '__weakref__', '__doc__')]
                for n in extra:
                    delattr(o, n)
            elif k == 'x':
                o.__traceback__, o.__context__, o.__cause__ = v


_NONE = object()
import weakref  # noqa
_SLOTS = {}


def all_slots(t):
    r = _SLOTS.get(t)
    if r is None:
        r = []
        for c in t.__mro__:
            s = c.__dict__.get('__slots__', ())
            if isinstance(s, str):
                s = (s,)
            for n in s:
                if n not in ('__dict__', '__weakref__'):
                    if n.startswith('__') and not n.endswith('__'):
                        n = '_%s%s' % (c.__name__.lstrip('_'), n)
                    # only real slot descriptors: a property of the same name may replace the slot
                    if isinstance(getattr(t, n, None), types.MemberDescriptorType):
                        r.append(n)
        _SLOTS[t] = r
    return r


def getattr_dict(o):
    try:
        return object.__getattribute__(o, '__dict__')
    except AttributeError:
        return None
