#!/usr/bin/env python3
"""automut.py <count> <seed> [file filter]: random one-token changes to the sources, each given to the checks of its file
until one reports a violation.  Prints the changes nothing reports (some of them change no behaviour)."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO, HERE = '/repo', os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'lib/'
MAP = {L + 'math/fp.h': 'C01 C02', L + 'math/p.h': 'C01', L + 'math/arithmetic.h': 'C01', L + 'math/arithmetic.cc': 'C01', L + 'math/ring.h': 'C01',
       L + 'math/vec.h': 'C26 C02', L + 'math/mat.h': 'C27', L + 'primitives/prg.h': 'C16', L + 'primitives/prg.cc': 'C16', L + 'primitives/hash.h': 'C17',
       L + 'secret_sharing/rep.h': 'C29 C06 C03 C05 C04 C02', L + 'secret_sharing/additive.h': 'C04 C03', 'shr.h': 'C07 C08 C09', 'shr.cc': 'C07 C09 C08',
       'corr.h': 'C10', 'corr.cc': 'C10', 'mult.h': 'C11 C15', 'mult.cc': 'C11 C14', 'input.h': 'C12 C15', 'input.cc': 'C12 C14',
       'input_corr.h': 'C12', 'input_corr.cc': 'C12 C14', 'check.h': 'C13 C14', L + 'net/channel.h': 'C20 C18 C24 C25', L + 'net/channel.cc': 'C20 C18 C25',
       L + 'net/connector.h': 'C25 C19 C18 C23 C20 C24', L + 'net/connector.cc': 'C19 C25 C18 C23 C20', L + 'net/sysi.h': 'C19', L + 'net/sysi.cc': 'C19 C23',
       L + 'net/shared_deque.h': 'C21 C20', L + 'net/builder.h': 'C22 C23', L + 'net/builder.cc': 'C22 C23', L + 'net/network.h': 'C24 C23 C25',
       'tcp_network.h': 'C24', 'network.h': 'C24', 'exp_mult.cc': 'C28', 'exp_input.cc': 'C28', 'exp_check.cc': 'C28'}
RULES = [(r' < (?![a-z:_]+>)', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '),
         (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' \+= ', ' = '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' / ', ' * '),
         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '1'), (r'(?<![\w.])2(?![\w.])', '3'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bif \((.*)\) ', r'if (!(\1)) '), (r'\bif \((.*)\)$', r'if (!(\1))'),
         (r'^(\s*)(?!return|using|#|//|break|public|private|throw|const|auto|std::|unsigned|friend|template|typename|int|case)([\w:>\[\].()*&-]+(\.|->|\(|\[| [-+*]?= ).*;)$', r'\1;'),
         (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\bbegin\(\)', 'end()'), (r'\+\+(\w+)', r'--\1'), (r'(\w+)\+\+', r'\1--'),
         (r'\bfront\(\)', 'back()'), (r'\bpush_back\b', 'push_front'), (r' << ', ' >> '), (r' >> ', ' << '), (r' \^ ', ' | '), (r' & ', ' | '), (r'\bmSize\b', 'mId'), (r'\bi\b', 'j'), (r'\bj\b', 'i')]


def mutants(f):
    out, com = [], False
    for no, l in enumerate(open(os.path.join(REPO, 'src/frn', f)).read().split('\n')):
        s = l.strip()
        if s.startswith('/*'):
            com = True
        if com or s.startswith(('//', '#', '*')) or 'LOG_' in s or '_TIMER' in s or s.startswith(('template', 'using', 'std::cout')):
            com = com and '*/' not in s
            continue
        code = l.split('//')[0]
        for a, b in RULES:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    out.append((f, no, l, n))
    return out


def run(m):
    f, no, old, new = m
    d = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'))
        p = os.path.join(d, 'src/frn', f)
        t = open(p).read().split('\n')
        t[no] = new
        open(p, 'w').write('\n'.join(t))
        tu = p if p.endswith('.cc') else os.path.join(d, 't.cc')
        if tu != p:
            open(tu, 'w').write('#include "frn/%s"\n' % f)
        c = subprocess.run(['clang++', '-std=gnu++17', '-march=native', '-fsyntax-only', '-Werror=return-type', '-w', '-include', 'cstdint', '-I', os.path.join(d, 'src'), tu], capture_output=True)
        if c.returncode:
            return m, 'nc', ''
        out = {}
        for i in MAP[f].split():
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), i], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
            out[i] = r.returncode
            if r.returncode == 1:
                return m, 'ok', ''
        return m, 'MISSED', str(out)
    finally:
        shutil.rmtree(d)


ms = [m for f in sorted(MAP) if not sys.argv[3:] or sys.argv[3] in f for m in mutants(f)]
rng = random.Random(int(sys.argv[2]))
rng.shuffle(ms)
per = {}
pick = []
for m in ms:
    per[m[0]] = per.get(m[0], 0) + 1
    pick.append((per[m[0]], m))
pick = [m for k, m in sorted(pick, key=lambda x: x[0])][:int(sys.argv[1])]
print(len(ms), 'possible', flush=True)
with ThreadPoolExecutor(4) as ex:
    n = {}
    for m, v, t in ex.map(run, pick):
        n[v] = n.get(v, 0) + 1
        if v == 'MISSED':
            print('%s:%d %s\n    - %s\n    + %s' % (m[0], m[1] + 1, t, m[2].strip(), m[3].strip()), flush=True)
    print(n)
