"""developer tool: append the current violations of one property to known_findings.txt
   usage: addknown.py PID 'description' [construct prefix]   (never used by a check)"""
import sys, threading
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from vlib import core, checks
checks.load_all()
pid, desc = sys.argv[1:3]
pre = sys.argv[3] if len(sys.argv) > 3 else ''
ctx = core.Ctx(pid, 'quick')
try:
    core.REG[pid][0](ctx)
except core.NoAnswer as e:
    print('noanswer', e)
n = 0
with open('/verif/known_findings.txt', 'a') as f:
    for v in ctx.viol:
        if v['construct'].startswith(pre):
            key = ('%s|%s' % (v['rule'], v['construct'])).replace(' ', '~')
            f.write('finding: property=%s key=%s :: %s\n' % (pid, key, desc + ' [' + v['construct'] + ']'))
            n += 1
print('added', n)
