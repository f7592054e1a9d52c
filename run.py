#!/usr/bin/env python3-vt
"""check driver:  run.py <property id> [-v] [--tier quick|thorough] [--cases 0,3]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def cli():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = None
    if '--cases' in a:
        only = [int(x) for x in a[a.index('--cases') + 1].split(',')]
    from symx import explore
    try:
        rc = explore.main(pid, tier, '-v' in a, only)
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


cli()
