"""Concrete side of a harness: the same harness function on plain code with given input values."""
import importlib
import json
import os
import sys


class Fail(Exception):
    pass


class Skip(BaseException):
    """assumption of the harness does not hold for these inputs"""


class ConCx:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failures = []
        self.observed = []
        self.reached = set()
        self.missing = []
        self._n = {}

    def _name(self, name):
        n = self._n.get(name, 0)
        self._n[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def _get(self, name, default):
        name = self._name(name)
        if name in self.values:
            return self.values[name]
        self.missing.append(name)
        return default

    def int(self, name, lo=0, hi=1 << 62):
        return self._get(name, lo)

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def flag(self, name):
        return bool(self._get(name, 0))

    def char(self, name, dom=None):
        return self._get(name, 'a')

    def str(self, name, n, dom=None):
        return self._get(name, 'a' * (n if isinstance(n, int) else n[0]))

    def bytes(self, name, n, dom=None):
        return self._get(name, b'a' * (n if isinstance(n, int) else n[0]))

    def blob(self, name, lo=0, hi=1 << 16):
        import random
        n = self.int(name, lo)
        return random.Random(name).randbytes(max(n, 4096))[:n]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg):
        if not c:
            self.failures.append(msg)
        return bool(c)

    def fail(self, msg):
        self.failures.append(msg)

    def obs(self, name, value):
        self.observed.append((name, value))

    def reach(self, name):
        self.reached.add(name)


def enc(x):
    if isinstance(x, bytes):
        return {'b': x.hex()}
    if isinstance(x, str):
        return {'s': x}
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, (list, tuple)):
        return {'l': [enc(y) for y in x]}
    if isinstance(x, dict):
        return {'d': [[enc(k), enc(v)] for k, v in x.items()]}
    return {'r': repr(x)}


def dec(x):
    if isinstance(x, dict):
        if 'b' in x:
            return bytes.fromhex(x['b'])
        if 's' in x:
            return x['s']
        if 'l' in x:
            return [dec(y) for y in x['l']]
        if 'd' in x:
            return {dec(k): dec(v) for k, v in x['d']}
    return x


def load_plain(name, repo=None, verif=None):
    repo = repo or os.environ.get('VERIF_REPO', '/repo')
    verif = verif or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in (verif, repo):
        if p not in sys.path:
            sys.path.insert(0, p)
    return importlib.import_module(name)


def execute(mod, case, values):
    """run a harness concretely -> (cx, exception or None)"""
    cx = ConCx(values)
    try:
        mod.run(cx, case)
    except Skip:
        return cx, 'skip'
    except Exception as e:   # harness-visible crash of the code under test
        import traceback
        cx.failures.append('exception escaped: %s' % type(e).__name__)
        cx.trace = traceback.format_exc()
        return cx, e
    return cx, None


def main(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_plain(d['module'])
    if hasattr(mod, 'setup'):
        mod.setup(False)
    case = dec(d['case'])
    values = dec(d['inputs'])
    cx, e = execute(mod, case, values)
    print('case  : %r' % (case,))
    print('inputs: %r' % (values,))
    for n, v in cx.observed:
        print('observed %s: %.600r' % (n, v))
    if hasattr(cx, 'trace'):
        print(cx.trace)
    if e == 'skip':
        print('the inputs are outside the assumptions of the harness')
        return 3
    for m in cx.failures:
        print('FAILED: %s' % m)
    return 1 if cx.failures else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
