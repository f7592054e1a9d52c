"""paths per case of a check: tools/casecost.py C11 [tier] [every-nth] (single process, capped)"""
import sys, os, time, json
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from symx import explore
pid, tier = sys.argv[1], (sys.argv[2:] or ['quick'])[0]
nth = int((sys.argv[3:] or ['1'])[0])
prog = explore.Prog('checks.' + pid.lower())
cases = list(prog.plain.cases(tier))
tot = 0
for i, c in list(enumerate(cases))[::nth]:
    t0 = time.time()
    left, f, e, s, d = explore.burst(prog, cases, [(i, (), {})], 6)
    tot += time.time() - t0
    print('%4d %6d paths %5.1fs %s%s %s' % (i, d['paths'], time.time() - t0, 'MORE ' if left else '', 'FAIL' if f else '', json.dumps(c)[:150]), e[:1], flush=True)
print('total %.1f s x %d cases/%d' % (tot, len(cases), nth))
