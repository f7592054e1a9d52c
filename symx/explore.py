"""Parallel exploration of all paths of a harness, validation against the real code, replay, evidence."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
from collections import deque
from . import core
from . import vals as V
from . import loader
from . import snap
from . import concrete as CC
from .api import SymCx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Prog:
    """harness module in both forms"""

    def __init__(self, name, repo=REPO):
        self.name = name
        self.L = loader.setup(repo=repo, roots=('ombott', 'checks'), extra_path=[VERIF])
        self.plain = CC.load_plain(name, repo, VERIF)
        ov = getattr(self.plain, 'OVERRIDES', None)
        self.sym = self.L.load(name)
        for m in ('sym', 'plain'):
            f = getattr(getattr(self, m), 'setup', None)
            if f:
                f(m == 'sym')
        own = lambda n: n.split('.')[0] in ('ombott', 'checks')
        mods = [m for n, m in list(self.L.mods.items()) if own(n)]
        self.snap_s = snap.Snapshot(mods, own)
        self.snap_p = snap.Snapshot([m for n, m in list(sys.modules.items()) if own(n) and m is not None], own)
        self.step_limit = getattr(self.plain, 'STEP_LIMIT', 400000)

    def path(self, case, prefix, model):
        """explore one path -> (Path, outcome, exception)"""
        self.snap_s.restore()
        p = core.CUR = core.Path(prefix, model, self.step_limit)
        cx = SymCx(p)
        out, exc = 'done', None
        try:
            self.sym.run(cx, case)
        except core.Hang:
            out = 'hang'
        except core.Abort:
            out = 'abort'
        except core.EngineError as e:
            out, exc = 'engine', e
        except Exception as e:
            out, exc = 'exc', e
        return p, out, exc


def same(a, b):
    if type(a) is float or type(b) is float:
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if a == '<lazy>' or b == '<lazy>':
        return True
    return a == b


def inputs_of(p, model):
    model = {**p.model, **model}    # variables created after the model was recorded
    return {k: V.evaluate(v, model) for k, v in p.inputs.items()}


def burst(prog, cases, task, secs, validate=True):
    """depth-first exploration from a list of frontier entries for about `secs` seconds"""
    core.STATS = core.Stats()
    import symx.models
    symx.models.STATS = core.STATS
    st = core.STATS
    stack = list(task)
    fails, errors, samples = [], [], []
    t0 = time.time()
    while stack and (time.time() - t0 < secs):
        ci, prefix, model = stack.pop()
        case = cases[ci]
        p, out, exc = prog.path(case, prefix, model)
        for pre, m in p.alts:
            stack.append((ci, pre, m))
        for w in p.witnesses:
            if out == 'done':
                st.witness[w] = st.witness.get(w, 0) + 1
        if out == 'engine':
            errors.append('case %r: %s' % (case, exc))
            continue
        for msg, m in p.failures:
            fails.append((ci, msg, CC.enc(inputs_of(p, m))))
        if out == 'abort':      # (also: an assertion that fails for everything on the path)
            st.aborted += not p.failures
            continue
        st.paths += 1
        if out == 'hang':
            fails.append((ci, 'does not terminate (step budget)', CC.enc(inputs_of(p, p.model))))
            continue
        if out == 'exc':
            tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-4:])
            try:
                inp = CC.enc(inputs_of(p, p.model))
            except core.EngineError as e:
                errors.append(str(e))
                continue
            fails.append((ci, 'exception escaped: %s' % type(exc).__name__, inp))
            if not getattr(prog, 'quiet', False) and len(errors) < 3:
                prog.last_tb = tb
            fails[-1] = fails[-1] + (tb,)
            continue
        if validate:
            vals = inputs_of(p, p.model)
            prog.snap_p.restore()
            cur, core.CUR = core.CUR, None
            cx, e = CC.execute(prog.plain, case, vals)
            core.CUR = cur
            st.validated += 1
            if e == 'skip':
                errors.append('engine mismatch: concrete run left the assumptions; case %r inputs %r' % (case, vals))
                continue
            if cx.failures and not any(m2 == p.model for _, m2 in p.failures):
                if not p.failures:
                    fails.append((ci, 'concrete: ' + cx.failures[0], CC.enc(vals), getattr(cx, 'trace', '')))
                continue
            if not p.failures:
                so = [(n, V.evaluate(v, p.model)) for n, v in p.observed]
                if len(so) != len(cx.observed) or not all(same(a, b) for a, b in zip(so, cx.observed)):
                    d = next(((a, b) for a, b in zip(so, cx.observed) if not same(a, b)), (so, cx.observed))
                    st.mismatch += 1
                    errors.append('engine mismatch: case %r inputs %r: symbolic %.300r real %.300r' % (
                        (case, vals) + d))
                    continue
            if len(samples) < 2:
                samples.append({'case': repr(case)[:300], 'inputs': repr(vals)[:500],
                                'observed': repr(cx.observed)[:500]})
        if len(fails) > 40 or len(errors) > 10:
            break
    return stack, fails, errors, samples, st.dump()


def worker(prog, cases, conn, secs):
    try:
        while True:
            task = conn.recv()
            if task is None:
                return
            try:
                r = burst(prog, cases, task, secs)
            except BaseException as e:
                r = ([], [], ['worker: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-5:])], [],
                     core.Stats().dump())
            conn.send(r)
    except (EOFError, KeyboardInterrupt):
        pass


class Result:
    pass


def explore(prog, cases, deadline, nproc=None, secs=0.25, stop_on_fail=20, verbose=False):
    nproc = nproc or int(os.environ.get('SX_PROCS', '0')) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    conns, procs = [], []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        pr = ctx.Process(target=worker, args=(prog, cases, b, secs), daemon=True)
        pr.start()
        b.close()
        conns.append(a)
        procs.append(pr)
    frontier = deque((i, (), {}) for i in range(len(cases)))
    idle = list(conns)
    busy = {}
    total = core.Stats()
    R = Result()
    R.fails, R.errors, R.samples = [], [], []
    R.complete = False
    R.case_paths = {}
    t0 = time.time()
    lastp = t0
    from multiprocessing.connection import wait
    while True:
        stop = time.time() > deadline or len(R.fails) >= stop_on_fail or len(R.errors) > 20
        while idle and frontier and not stop:
            n = max(1, min(200, len(frontier) // (nproc * 2)))
            task = [frontier.popleft() for _ in range(min(n, len(frontier)))]
            c = idle.pop()
            c.send(task)
            busy[c] = task
        if not busy:
            R.complete = not frontier and not stop
            if not frontier:
                R.complete = True
            break
        for c in wait(list(busy), timeout=1.0):
            try:
                left, fails, errors, samples, d = c.recv()
            except EOFError:
                R.errors.append('worker died')
                busy.pop(c)
                continue
            busy.pop(c)
            idle.append(c)
            total.merge(d)
            frontier.extend(left)
            R.fails += fails
            R.errors += errors
            if len(R.samples) < 12:
                R.samples += samples[:1]
        if verbose and time.time() - lastp > 5:
            lastp = time.time()
            print('... %.0fs paths %d frontier %d fails %d errors %d' % (lastp - t0, total.paths, len(frontier),
                                                                         len(R.fails), len(R.errors)), flush=True)
        if time.time() > deadline + 30:
            break
    for c in conns:
        try:
            c.send(None)
        except Exception:
            pass
    for pr in procs:
        pr.join(0.5)
        if pr.is_alive():
            pr.kill()
    R.left = len(frontier)
    R.stats = total
    R.wall = time.time() - t0
    return R


def replay(pid, module, case, inputs, n, msg):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'module': module, 'case': CC.enc(case), 'inputs': inputs, 'message': msg}, f, indent=1)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONPATH=VERIF + ':' + REPO)
    try:
        r = subprocess.run([sys.executable, '-m', 'symx.concrete', path], cwd=VERIF, env=env, timeout=60,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return path, r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return path, 1, 'does not terminate within 60 s'


def known_findings(pid):
    """entries of known_findings.jsonl for a property (kind 'finding')"""
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.jsonl')) as f:
            for ln in f:
                ln = ln.strip()
                if ln and not ln.startswith('#'):
                    e = json.loads(ln)
                    if e.get('property') == pid and e.get('kind') == 'finding':
                        out.append(e)
    except FileNotFoundError:
        pass
    return out


def main(pid, tier, verbose=False, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'checks.' + pid.lower()
    prog = Prog(modname)
    mod = prog.plain
    if hasattr(mod, 'main'):        # check with its own driver
        return mod.main(tier, seed, verbose)
    cases = list(mod.cases(tier))
    if only is not None:
        cases = [c for i, c in enumerate(cases) if i in only]
    budget = float(os.environ.get('SX_BUDGET', '0')) or (780 if tier == 'quick' else 6 * 3600)
    R = explore(prog, cases, t0 + budget, verbose=verbose)
    return finish(pid, tier, seed, prog, cases, R, t0, verbose)


def finish(pid, tier, seed, prog, cases, R, t0, verbose=False, extra=None):
    mod = prog.plain
    modname = prog.name
    S = R.stats
    need = set(getattr(mod, 'WITNESSES', ()))
    confirmed, unrepro, known = [], [], []
    kf = known_findings(pid)
    seen = {}
    n = 0
    order = sorted(R.fails, key=lambda f: (f[0], f[1], len(json.dumps(f[2]))))
    for f in order:
        ci, msg, inp = f[0], f[1], f[2]
        key = (ci, msg.split('\n')[0][:80])
        if seen.get(key, 0) >= 2 or n > 24:
            continue
        seen[key] = seen.get(key, 0) + 1
        n += 1
        path, rc, text = replay(pid, modname, cases[ci], inp, n, msg)
        if rc == 1:
            e = match_known(kf, cases[ci], CC.dec(inp), msg, text)
            if e is not None:
                known.append((e, path))
            else:
                confirmed.append((msg, path, text))
        else:
            unrepro.append((msg, path, text, f[3] if len(f) > 3 else ''))
    for e in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    missing = [w for w in need if not S.witness.get(w)]
    cov = dict(
        states=S.paths, transitions=S.branches, traces_validated_against_impl=S.validated,
        samples=R.samples[:8] or [{'note': 'no path completed'}],
        cases=len(cases), paths_explored=S.paths, paths_outside_assumptions=S.aborted, forks=S.forks,
        branch_queries=S.q_branch, assertion_queries=S.q_assert, assertions_checked=S.asserts,
        assertions_decided_by_domains=S.q_assert_triv, z3_calls=S.z3_calls, solver_time_s=round(S.z3_time, 2),
        exploration_complete=bool(R.complete), frontier_left=R.left,
        functions_encoded=sorted(S.funcs)[:300], witnesses=S.witness,
        concretisations=dict(list(S.notes.items())[:40]),
        bounds=mod.BOUNDS(tier) if callable(getattr(mod, 'BOUNDS', None)) else getattr(mod, 'BOUNDS', ''),
        exhaustive=bool(R.complete and not S.notes),
    )
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s %s: %d cases, %d paths (+%d outside assumptions), %d branches, %d z3 calls (%.1fs), %d assertions, '
          '%d validated, complete=%s, %.1fs' % (pid, tier, len(cases), S.paths, S.aborted, S.branches, S.z3_calls,
                                               S.z3_time, S.asserts, S.validated, R.complete, time.time() - t0))
    if S.notes:
        print('concretised (outside the claim): %s' % dict(list(S.notes.items())[:8]))
    if verbose:
        print('witnesses', S.witness)
    if confirmed:
        for msg, path, text in confirmed[:5]:
            print(text[:3000])
            print('-> %s' % msg)
        for msg, path, text in confirmed:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    rc = 0
    for msg, path, text, tb in unrepro[:6]:
        print('NOT REPRODUCED: %s (%s)\n%s\n%s' % (msg, path, text[:1500], tb))
        rc = 2
    for e in R.errors[:8]:
        print('ENGINE ERROR: %s' % e[:1500])
        rc = 2
    if not R.complete and rc == 0 and not known:
        print('INCOMPLETE: %d frontier entries left' % R.left)
        rc = 2
    if missing and rc == 0:
        print('VACUOUS: never reached %s' % missing)
        rc = 2
    return rc


def match_known(kf, case, inputs, msg, text):
    for e in kf:
        m = e.get('match', {})
        if 'msg' in m and m['msg'] not in msg:
            continue
        if 'text' in m and m['text'] not in text:
            continue
        if 'inputs' in m and not all(repr(inputs.get(k)) == v for k, v in m['inputs'].items()):
            continue
        return e
    return None
