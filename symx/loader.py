"""Source rewriting and private module registry for instrumented code."""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types
from . import core
from . import models as M
from . import fmt

PLAIN_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.mod = modname
        self.track = track
        self.stack = []

    def name(self, n, ctx=None):
        return ast.Name(n, ctx or ast.Load())

    def hook(self, n, *args):
        return ast.Call(self.name(n), list(args), [])

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in PLAIN_CALLS or node.func.id.startswith('_vp')):
            return node
        if any(k.arg is None for k in node.keywords):
            pairs = []
            for k in node.keywords:
                if k.arg is None:
                    pairs.append(ast.Starred(self.hook('_sxKP', k.value), ast.Load()))
                else:
                    pairs.append(ast.Tuple([ast.Constant(k.arg), k.value], ast.Load()))
            return self.hook('_sxK', node.func, ast.List(pairs, ast.Load()), ast.Tuple(node.args, ast.Load()))
        return ast.Call(self.name('_sxC'), [node.func] + node.args, node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.hook('_sxIn', node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                r = self.hook('_sxNot', r)
            return r
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.hook('_sxNot', node.operand)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook('_sxMod', node.left, node.right)
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
            return self.hook('_sxSet3', ast.Constant(type(node.op).__name__), node.left, node.right)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.hook('_sxG', node.value, self.idx(node.slice))
        return node

    def idx(self, s):
        if isinstance(s, ast.Slice):
            n = ast.Constant(None)
            return self.hook('_sxSlice', s.lower or n, s.upper or n, s.step or n)
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self.idx(x) for x in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # value is evaluated first in Python, too
            return ast.Expr(self.hook('_sxS', node.value, t.value, self.idx(t.slice)))
        if any(isinstance(t, ast.Subscript) for t in node.targets) or \
           any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for t in node.targets for x in ast.walk(t)):
            # several targets: go through temporaries
            out = [ast.Assign([self.name('_sx_t', ast.Store())], node.value)]
            for t in node.targets:
                out += self.store(t, self.name('_sx_t'))
            return out
        return node

    def store(self, t, value):
        if isinstance(t, ast.Subscript):
            return [ast.Expr(self.hook('_sxS', value, t.value, self.idx(t.slice)))]
        if isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Subscript) for x in ast.walk(t)):
            names = []
            post = []
            for i, x in enumerate(t.elts):
                n = '_sx_u%d' % i
                if isinstance(x, ast.Starred):
                    names.append(ast.Starred(self.name(n, ast.Store()), ast.Store()))
                    post += self.store(x.value, self.name(n))
                else:
                    names.append(self.name(n, ast.Store()))
                    post += self.store(x, self.name(n))
            return [ast.Assign([ast.Tuple(names, ast.Store())], value)] + post
        return [ast.Assign([t], value)]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        op = type(node.op).__name__
        if isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.Expr(self.hook('_sxAug', t.value, self.idx(t.slice), ast.Constant(op), node.value))
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.Assign([node.target], self.hook('_sxMod', self.name(node.target.id), node.value))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(self.hook('_sxD', t.value, self.idx(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return self.hook('_sxF', *parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(k is not None and isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple([self.name('_sxUnpack') if k is None else k, v], ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return self.hook('_sxDict', ast.List(pairs, ast.Load()))

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return self.hook('_sxSet', ast.List(node.elts, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.hook('_sxDict', ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.hook('_sxSet', ast.ListComp(node.elt, node.generators))

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self.hook('_sxL')))
        return node
    visit_While = visit_For = _loop

    def visit_Try(self, node):
        self.generic_visit(node)

        def broad(t):
            if t is None:
                return True
            if isinstance(t, ast.Name):
                return t.id == 'BaseException'
            if isinstance(t, ast.Tuple):
                return any(broad(x) for x in t.elts)
            return not isinstance(t, ast.Attribute)
        if any(broad(h.type) for h in node.handlers):
            node.handlers.insert(0, ast.ExceptHandler(self.name('_sxAbort'), None, [ast.Raise()]))
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        # annotations and decorators are left alone except for calls inside decorators
        node.returns = None
        for a in ast.walk(node.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        self.generic_visit(node)
        if self.track:
            q = self.mod + '.' + '.'.join(self.stack)
            i = 0
            if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                    and isinstance(node.body[0].value.value, str):
                i = 1
            node.body.insert(i, ast.Expr(self.hook('_sxE', ast.Constant(q))))
        self.stack.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        r = ast.Assign([node.target], node.value)
        ast.copy_location(r, node)
        return self.visit(r)

    def visit_Match(self, node):
        return node


def setsub(v, o, k):
    M.setitem(o, k, v)


def mkslice(a, b, c):
    return slice(a, b, c)


HOOKS = dict(_sxC=M.call, _sxK=M.callk, _sxKP=M.kwpairs, _sxIn=M.contains, _sxNot=M.not_, _sxMod=M.mod, _sxSet3=M.setop,
             _sxG=M.getitem, _sxS=setsub, _sxD=M.delitem, _sxAug=M.aug, _sxF=fmt.fstring, _sxDict=M.mkdict,
             _sxSet=M.mkset, _sxUnpack=M._UNPACK, _sxL=M.loop, _sxE=M.enter, _sxSlice=mkslice,
             _sxAbort=(core.Abort, core.EngineError))

# library modules whose pure-Python source is executed symbolically as well
STD = {'urllib.parse', 'html', 'http.cookies', 'posixpath', 'genericpath', 'email.utils', 'email._parseaddr',
       'json', 'json.encoder', 'json.decoder', 'json.scanner', 'mimetypes'}
NOACCEL = {'_json'}      # C accelerators: the pure-Python source is used instead
ALIAS = {'os.path': 'posixpath'}


class Loader:
    def __init__(self, repo='/repo', roots=('ombott',), std=STD, extra_path=()):
        self.repo = repo
        self.roots = set(roots)
        self.std = set(std)
        self.mods = {}
        self.overrides = {}      # module name -> module object used instead (stubs)
        self.prepass = None      # (module name, tree) -> tree, before the rewriting
        self.patches = []        # (module name, fn) run after loading
        self.extra = list(extra_path)
        self.bi = dict(vars(builtins))
        self.bi['__import__'] = self.imp
        self.sources = {}

    def wants(self, name):
        return name.split('.')[0] in self.roots or name in self.std

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        mod = self.load(name)
        if fromlist:
            for a in fromlist:
                if a != '*' and not hasattr(mod, a) and hasattr(mod, '__path__'):
                    try:
                        setattr(mod, a, self.load(name + '.' + a))
                    except ImportError:
                        pass
            return mod
        top = name.split('.')[0]
        return self.load(top)

    def load(self, name):
        name = ALIAS.get(name, name)
        m = self.mods.get(name)
        if m is not None:
            return m
        if name in self.overrides:
            m = self.mods[name] = self.overrides[name]
            return m
        if name in NOACCEL:
            raise ImportError(name)
        if name == 'posix':
            # without C twins of pure-Python code
            m = self.mods[name] = types.ModuleType(name)
            m.__dict__.update({k: v for k, v in vars(importlib.import_module(name)).items() if k != '_path_normpath'})
            return m
        if not self.wants(name):
            importlib.import_module(name)
            real = sys.modules[name]
            pre = name + '.'
            if any(s.startswith(pre) for s in self.std) or any(s.startswith(pre) for s in self.overrides) \
                    or name == 'os':
                return self.shadow(name, real)
            return real
        parent = name.rpartition('.')[0]
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.find(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.bi
        m.__dict__.update(HOOKS)
        self.mods[name] = m
        exec(self.compile(name, path), m.__dict__)
        if parent:
            setattr(p, name.rpartition('.')[2], m)
        for n, fn in self.patches:
            if n == name:
                fn(m)
        return m

    def shadow(self, name, real):
        """copy of a native module whose submodules are ours"""
        m = types.ModuleType(name)
        m.__dict__.update({k: v for k, v in vars(real).items() if k not in ('__builtins__', '__spec__', '__loader__')})
        m.__dict__['_sx_native'] = True
        self.mods[name] = m
        if name == 'os' and 'posixpath' in self.std:
            m.path = self.load('posixpath')
        for s in list(self.std) + list(self.overrides):
            if s.rpartition('.')[0] == name:
                setattr(m, s.rpartition('.')[2], self.load(s))
        return m

    def find(self, name):
        rel = name.replace('.', '/')
        if name.split('.')[0] in self.roots:
            for base in [self.repo] + self.extra:
                for cand, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
                    p = os.path.join(base, cand)
                    if os.path.isfile(p):
                        return p, pkg
            raise ImportError('No module named %r' % name, name=name)
        if name in sys.modules and getattr(sys.modules[name], '__file__', '').endswith('.py'):
            f = sys.modules[name].__file__
            return f, f.endswith('__init__.py')
        spec = importlib.util.find_spec(name)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            raise ImportError(name)
        return spec.origin, bool(spec.submodule_search_locations)

    def compile(self, name, path):
        with open(path, encoding='utf8') as f:
            src = f.read()
        self.sources[name] = path
        tree = ast.parse(src, path)
        if self.prepass is not None:
            tree = self.prepass(name, tree)
        track = name.split('.')[0] == 'ombott'
        tree = Rewriter(name, track).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


LOADER = None


def setup(**kw):
    global LOADER
    from . import libs
    LOADER = Loader(**kw)
    libs.install(LOADER)
    return LOADER
