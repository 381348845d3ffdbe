import sys, time, threading
sys.path.insert(0, '/verif/engine')
sys.setrecursionlimit(100000)
from ir import *
from wstd import *
import wterm as wt


def main():
    units, drv = sys.argv[1].split(','), sys.argv[2]
    p = load([u for u in units if u], [drv])
    for name in sys.argv[3:]:
        for k in sorted(p.fns):
            if k.split('(')[0] == 'code::' + name:
                w = WStd(p)
                f = p.fns[k]

                def go(w):
                    args = []
                    for q in f['params']:
                        wd = w.width(w.deref_t(q['t']))
                        args.append(atom(q['v'] if 'n' not in q else q['n'], 0, (1 << (61 if wd[0] == 64 else 127)) - 2))
                    return w.invoke(k, None, args)
                t0 = time.time()
                for t in w.explore(go):
                    print(name, t.outcome, t.why, 'line', getattr(t, 'line', ''), 'ev', [e['kind'] for e in t.events][:20], 'val', str(t.val)[:400])
                    for c in t.path:
                        print('    ', c[0], str(c[1])[:200], c[2])
                print('%.2f s' % (time.time() - t0), w.gen)


threading.stack_size(1 << 29)
th = threading.Thread(target=main)
th.start()
th.join()
