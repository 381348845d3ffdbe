"""try.py driver.cc[,unit.cc...] [-v] [joint=<registry fn>] [names...]: prints the obligations of a driver"""
import sys, time
sys.path.insert(0, '/verif/engine')
import threading
from ir import *
from oblig import *
import registry


def main():
    t = time.time()
    a = sys.argv[1:]
    dr, *units = a[0].split(',')
    hints = {}
    v = '-v' in a
    for x in a[1:]:
        if x.startswith('joint='):
            hints = {'*': {'joint': getattr(registry, x[6:])}}
    p = load(units, [dr])
    print('load %.1f' % (time.time() - t))
    only = [x for x in a[1:] if '=' not in x and x != '-v'] or None
    if not only:
        c = Comparer(p, hints=hints)
        prs = find_pairs(p)
        for r in c.check_all(sorted(prs.items())):
            print('%-28s %-9s %5.2fs inst=%d %s' % (r.name, r.status, r.wall, r.instances, r.why[:700]))
            for o in r.obs:
                if o[1] == 'undecided':
                    print('      ', o)
        return
    rs = run(p, verbose=True, only=only, hints=hints)
    for r in rs:
        if v and hasattr(r, 'sc'):
            print('CODE ret', r.sc.ret, '\n  throw', r.sc.throw, '\n  fin', r.sc.finals, '\n  sent', r.sc.sent, '\n notes', r.sc.notes)
            print('SPEC ret', r.ss.ret, '\n  throw', r.ss.throw, '\n  fin', r.ss.finals, '\n  sent', r.ss.sent, '\n notes', r.ss.notes)


threading.stack_size(1 << 29)
th = threading.Thread(target=main)
th.start()
th.join()
