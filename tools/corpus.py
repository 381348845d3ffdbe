#!/usr/bin/env python3
"""corpus.py <corpus file> [filter]: runs checks on scratch copies of /repo with one edit each.
An entry is (name, ids, expectation, [(file below src/frn, old text, new text)…]); expectation 'V' (every id reports
a violation), 'v' (at least one does) or 'Q' (none does, and each gives an answer)."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
entries = runpy.run_path(sys.argv[1])['ENTRIES']
flt = sys.argv[2] if len(sys.argv) > 2 else ''


def run(e):
    name, ids, want, edits = e
    d = tempfile.mkdtemp(prefix='corpus.', dir='/tmp')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
        for f, old, new in edits:
            p = os.path.join(d, 'src', 'frn', f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'NOT FOUND: ' + old[:50], ''
            open(p, 'w').write(s.replace(old, new, 1))
        out, txt = {}, ''
        for i in ids.split(','):
            ev = dict(os.environ, VERIF_REPO=d)
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check.py'), i], capture_output=True, text=True, env=ev)
            out[i] = r.returncode
            if r.returncode:
                txt += '\n      '.join([''] + [l[:150] for l in (r.stdout + r.stderr).splitlines() if '[' in l and ' line ' in l or 'NO ANSWER' in l][:1])
        v = [i for i in out if out[i] == 1]
        ok = {'V': len(v) == len(out), 'v': bool(v), 'Q': all(x == 0 for x in out.values())}[want]
        return name, 'ok' if ok else 'MISSED' if want in 'Vv' else 'ALARM', str(out) + txt
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    bad = 0
    for n, v, t in ex.map(run, [e for e in entries if flt in e[0]]):
        bad += v != 'ok'
        print('%-34s %-8s %s' % (n, v, t), flush=True)
print('%d unexpected' % bad)
