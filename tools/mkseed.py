#!/usr/bin/env python3
"""Author a planted bug: mkseed.add(id, prop, edits, needs, what, demo) -> seeded/<id>/ (kept only if it qualifies).

edits: list of (file, old, new).  The change is made in a scratch copy of /repo; it is kept only when the existing
tests pass with it and the demonstration passes without and fails with it."""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedw'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()


def fresh():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', os.environ.get('SEED_REPO', '/repo'), W], check=True)
    subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'], check=True)


def tests():
    bad = []
    for f in sorted(os.listdir(W + '/tests')):
        if f.startswith('test_') and f.endswith('.py'):
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests/' + f], cwd=W,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
            if r.returncode not in (0, 5):
                bad.append((f, r.stdout[-800:]))
    return bad


def demo(d, cwd):
    r = subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode, r.stdout


def check(pid, cwd=W, tier='quick', timeout=900):
    r = subprocess.run(['python3-vt', VERIF + '/run.py', pid], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VERIF_REPO=cwd, VERIF_TIER=tier), timeout=timeout)
    return r.returncode, r.stdout


def apply(sid):
    fresh()
    subprocess.run(['git', '-C', W, 'apply', '%s/seeded/%s/patch.diff' % (VERIF, sid)], check=True)


def add(sid, prop, edits, needs, what, code, run=True):
    fresh()
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print('%s: %r found %d times in %s' % (sid, old[:60], s.count(old), f))
            return
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
    d = '%s/seeded/%s' % (VERIF, sid)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(code.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    rc, out = demo(d, '/repo')
    if rc != 0:
        print('%s: demo fails on the unchanged tree\n%s' % (sid, out[-1500:]))
        ok = False
    rc, out = demo(d, W)
    if rc == 0:
        print('%s: demo passes with the patch' % sid)
        ok = False
    bad = tests()
    if bad:
        print('%s: tests fail: %s' % (sid, bad[0]))
        ok = False
    if not ok:
        shutil.rmtree(d)
        return
    if run:
        rc, out = check(prop)
        print('%s: kept; check %s exit %d %s' % (sid, prop, rc, 'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % prop in out else 'MISSED\n' + out[-1500:]))
    else:
        print('%s: kept' % sid)


def recheck(ids=None):
    for sid in sorted(os.listdir(VERIF + '/seeded')):
        if ids and sid not in ids:
            continue
        prop = json.load(open('%s/seeded/%s/meta.json' % (VERIF, sid)))['property']
        try:
            apply(sid)
        except subprocess.CalledProcessError:
            print('%s: does not apply' % sid)
            continue
        d = '%s/seeded/%s' % (VERIF, sid)
        r0, r1 = demo(d, '/repo')[0], demo(d, W)[0]
        bad = tests()
        rc, out = check(prop)
        print('%s %s: demo %d/%d tests %s check %d %s' % (sid, prop, r0, r1, 'ok' if not bad else bad, rc,
              'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % prop in out else 'MISSED ' + out[-600:]), flush=True)


if __name__ == '__main__':
    recheck(set(sys.argv[1:]))
