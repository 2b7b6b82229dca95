"""dev tool: (re)write a reference table from the current tree.  Never run by a check."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)
from vlib import ref, core, checks
checks.load_all()


class C(core.Ctx):
    pass


def main():
    for name in sys.argv[1:]:
        mod, fn = {'smeft_beta': ('smeft_rge', lambda m: m.reference_table(m.beta(core.Ctx('R08', 'quick'))))}.get(name) or \
            (name.split(':')[0], None)
        m = __import__('vlib.checks.' + mod, fromlist=['x'])
        t = fn(m) if fn else None
        if t is None:
            m2, name2 = name.split(':')
            t = getattr(m, 'table_' + name2)(core.Ctx('X00', 'quick'))
            name = name2
        ref.save(name, t)
        print(name, len(t))


t = threading.Thread(target=main)
t.start()
t.join()
