"""branch coverage of the interpretations, per obligation: how many returned, which conditions had one outcome only"""
import sys; sys.path.insert(0, '/verif'); sys.setrecursionlimit(100000)
from msa.report import Ctx
from rules import algo, tools, io, cli
from msa.equiv import check
from msa.terms import show
ctx = Ctx(); P = ctx.P
obs = [algo.pure_ob(n) for n in algo.PURE] + algo.OTHERS + tools.OBS + io.OBS + cli.OBS
for o in obs:
    if len(sys.argv) > 1 and o.id not in sys.argv[1:]:
        continue
    r = check(P, o)
    print(o.id, r.status, 'normal %d/%d' % (r.normal, r.valuations), 'conditions %d one-sided %d' % (r.conditions, len(r.onesided)))
    for b, c in r.onesided:
        print('     never', 'true ' if b == 1 else 'false', show(c, 6)[:200])
