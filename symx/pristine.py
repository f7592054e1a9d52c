"""What the modules of a package keep: put back between runs, so that a run starts like a new process."""
import types

STORE = {}      # id of the top module -> (its snapshot)
MISS = object()


def modules(top):
    pre = top.__name__
    out, todo = [], [top]
    while todo:
        m = todo.pop()
        if m not in out:
            out.append(m)
            todo += [v for v in vars(m).values() if isinstance(v, types.ModuleType) and (v.__name__ == pre or v.__name__.startswith(pre + '.'))]
    return out


def containers(x, pre, depth, seen, snap):
    if id(x) in seen or depth > 3:
        return
    seen.add(id(x))
    t = type(x)
    if t is dict or t is list or t is set:
        snap.append((x, t(x)))
        for y in list(x.values()) if t is dict else list(x):
            containers(y, pre, depth + 1, seen, snap)
    elif isinstance(x, type):
        if str(x.__module__).startswith(pre):
            snap.append((x, dict(x.__dict__)))
            for y in list(x.__dict__.values()):
                containers(y, pre, depth + 1, seen, snap)
    elif hasattr(t, 'cache_clear') and hasattr(t, 'cache_info'):
        snap.append((x, None))
    elif isinstance(x, types.FunctionType) and x.__module__ and x.__module__.startswith(pre):
        for y in (x.__dict__, x.__defaults__ or ()):
            if y:
                containers(y, pre, depth + 1, seen, snap)
    elif t is tuple:
        for y in x:
            containers(y, pre, depth + 1, seen, snap)
    elif t.__module__.startswith(pre) and depth < 3:
        for name in ('_headers', '_cookies', '__dict__', 'config'):
            try:
                y = getattr(x, name, None)
            except Exception:
                continue
            if y is not None:
                containers(getattr(y, '__dict__', y) if name == 'config' else y, pre, depth + 1, seen, snap)


def take(top):
    snap, seen = [], set()
    for mod in modules(top):
        snap.append((mod, dict(mod.__dict__)))
        for k, v in list(mod.__dict__.items()):
            if not k.startswith('__'):
                containers(v, top.__name__, 0, seen, snap)
    STORE[id(top)] = snap


def restore(top):
    for x, old in STORE[id(top)]:
        t = type(x)
        if old is None:
            x.cache_clear()
        elif t is list:
            if len(x) != len(old) or [1 for a, b in zip(x, old) if a is not b]:
                x[:] = old
        elif t is dict:
            if len(x) != len(old) or [1 for k, v in old.items() if x.get(k, MISS) is not v]:
                x.clear()
                x.update(old)
        elif t is set:
            if len(x) != len(old) or [1 for k in old if k not in x]:
                x.clear()
                x.update(old)
        else:
            d = x.__dict__
            if len(d) == len(old) and list(map(id, d.values())) == list(map(id, old.values())):
                continue
            for k in [k for k in d if k not in old]:
                if isinstance(x, type):
                    delattr(x, k)
                else:
                    del d[k]
            for k in old:
                if d.get(k, MISS) is not old[k]:
                    if isinstance(x, type):
                        if k not in ('__dict__', '__weakref__', '__doc__'):
                            setattr(x, k, old[k])
                    else:
                        d[k] = old[k]
