#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source.
exit 0: holds on everything analysed; exit 1: violation; exit 2: no answer."""
import json
import os
import sys
import threading
import time
import traceback

LIMIT_S = 800
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)


def known(pid):
    """known findings: 'known: property=<id> key=<key> <text>'"""
    out = {}
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('known: property=%s ' % pid):
            key = l.split(' key=', 1)[1].split(' ', 1)
            out[key[0]] = key[1] if len(key) > 1 else ''
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import ir
    from registry import REGISTRY
    spec = REGISTRY[pid]
    try:
        rep = spec(tier, seed)
    except ir.Broken as x:
        print('NO ANSWER property=%s: %s' % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        print('NO ANSWER property=%s: internal error' % pid)
        return 2
    return finish(rep, pid, tier, seed, t0)


def finish(rep, pid, tier, seed, t0):
    kn = known(pid)
    bad = []
    for f in rep.findings:
        if f['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[f['key']] or f['text']))
        else:
            bad.append(f)
    cov = dict(rep.coverage)
    cov['explanation'] = rep.explanation
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': rep.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(bad)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in rep.summary():
        print(l)
    if bad:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as o:
            for f in bad:
                o.write('%s\n  rule: %s\n  construct: %s\n  %s\n\n' % (f['key'], f['rule'], f['where'], f['text']))
        for f in bad:
            print('%s: %s [%s]' % (f['where'], f['text'], f['rule']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s' % pid)
    return 0


if __name__ == '__main__':
    # deep terms: run on a thread with a large stack
    threading.stack_size(1 << 29)
    rc = [2]

    def go():
        rc[0] = main()
    began = time.time()
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(LIMIT_S)
    if t.is_alive():
        # out of time: what was decided so far is reported, the rest is listed as not analysed
        import multiprocessing
        import report
        for c in multiprocessing.active_children():
            c.kill()
        if report.CURRENT:
            rep = report.CURRENT[-1]
            rep.cov('not_followed', ['stopped after %d s: the remaining obligations were not analysed' % LIMIT_S])
            rc[0] = finish(rep, sys.argv[1], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1), began)
        else:
            print('NO ANSWER property=%s: out of time' % sys.argv[1])
        sys.stdout.flush()
        os._exit(rc[0])
    sys.stdout.flush()
    sys.exit(rc[0])
