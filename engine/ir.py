"""Loading of the lowered program: builds the front end when needed, lowers the
translation units that a check asks for from /repo's current source (plus driver
units of /verif/spec) and merges them."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LOWER = os.path.join(BUILD, 'lower')


class Broken(Exception):
    """the analysis cannot be carried out (vanished anchor, front end failure)"""


def build_frontend():
    src = os.path.join(VERIF, 'frontend', 'lower.cc')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = LOWER + '.stamp'
    if os.path.exists(LOWER) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], capture_output=True, text=True).stdout.split()
    tmp = LOWER + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', src, '-o', tmp] + flags +
                       ['-fexceptions', '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken('front end does not build: ' + r.stderr[-2000:])
    os.replace(tmp, LOWER)
    open(stamp, 'w').write(key)


def overlay(dst):
    """copy of /repo/src for the clang front end. The project is built with g++;
    clang rejects in-class constexpr members of the enclosing (incomplete) class
    type, so their declarations are rewritten to the equivalent const form."""
    shutil.copytree(os.path.join(REPO, 'src'), os.path.join(dst, 'src'))
    n = 0
    for root, _, files in os.walk(os.path.join(dst, 'src')):
        for f in files:
            if not f.endswith(('.h', '.cc')):
                continue
            p = os.path.join(root, f)
            s = open(p, encoding='utf-8', errors='replace').read()
            t = s
            names = {}
            for m in re.finditer(r'static\s+constexpr\s+(?:const\s+)?(FpElement)\s+(\w+)\s*=\s*([^;]+);', t):
                names[m.group(2)] = m.group(3)
            for nm, init in names.items():
                t = re.sub(r'static\s+constexpr\s+(?:const\s+)?FpElement\s+%s\s*=\s*[^;]+;' % nm, 'static const FpElement %s;' % nm, t)
                e = init.strip()
                e = re.sub(r'^(?:FpElement(?:<Prime>)?::)?(?:template\s+)?FromConstant', 'FpElement<Prime>::template FromConstant', e)
                t = re.sub(r'constexpr\s+(?:const\s+)?FpElement<Prime>\s+FpElement<Prime>::%s\s*;' % nm,
                           lambda m: 'const FpElement<Prime> FpElement<Prime>::%s = %s;' % (nm, e), t)
            if t != s:
                n += 1
                open(p, 'w').write(t)
    return n


class Prog:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.globals = {}
        self.types = []
        self.tidx = {}
        self.units = []

    def merge(self, d, unit):
        self.units.append(unit)
        tm = {}
        base = []
        for i, t in enumerate(d['types']):
            key = t['s']
            if key in self.tidx:
                tm[i] = self.tidx[key]
                old = self.types[tm[i]]
                if len(t) > len(old):
                    base.append((tm[i], t))
            else:
                tm[i] = len(self.types)
                self.tidx[key] = tm[i]
                self.types.append(None)
                base.append((tm[i], t))
        for j, t in base:
            t = dict(t)
            for f in ('t', 'rt', 'e'):
                if isinstance(t.get(f), int) and t['k'] in ('ptr', 'ref', 'rref', 'arr', 'enum', 'fn'):
                    t[f] = tm[t[f]]
            if 'a' in t:
                t['a'] = [tm[x] if isinstance(x, int) else x for x in t['a']]
            self.types[j] = t
        for k, f in d['functions'].items():
            if k not in self.fns:
                self.fns[k] = remap_fn(f, tm)
        for k, r in d['records'].items():
            if k not in self.recs or (not self.recs[k].get('fields') and r.get('fields')):
                self.recs[k] = remap_rec(r, tm)
        for k, g in d['globals'].items():
            if k not in self.globals:
                g = dict(g)
                if 't' in g:
                    g['t'] = tm[g['t']]
                if g.get('init') is not None:
                    g['init'] = remap(g['init'], tm)
                self.globals[k] = g


# which positions of a node are type ids: every expression has it at [2]
STMTS = {'block', 'decl', 'decls', 'if', 'for', 'do', 'rfor', 'ret', 'break', 'cont', 'try', 'switch', 'expr', 'opaque_s', 'null_s'}


def remap_ref(r, tm):
    r = dict(r)
    if isinstance(r.get('rt'), int):
        r['rt'] = tm[r['rt']]
    for f in ('pt', 'ta'):
        if f in r:
            r[f] = [tm[x] if isinstance(x, int) else x for x in r[f]]
    return r


def remap(n, tm):
    if isinstance(n, dict):
        if 'k' in n and 'q' in n:
            return remap_ref(n, tm)
        return {k: tm[v] if k == 't' and isinstance(v, int) and 'body' in n else remap(v, tm) for k, v in n.items()}
    if not isinstance(n, list):
        return n
    if n and isinstance(n[0], str) and len(n) >= 2 and isinstance(n[1], int):
        k = n[0]
        if k in ('decl', 'rfor'):
            out = [k, n[1], n[2], tm[n[3]] if isinstance(n[3], int) else n[3]]
            return out + [remap(x, tm) for x in n[4:]]
        if k in ('block', 'decls', 'if', 'for', 'do', 'ret', 'break', 'cont', 'try', 'switch', 'expr'):
            return n[:2] + [remap(x, tm) for x in n[2:]]
        if k == 'opaque' and (len(n) < 3 or not isinstance(n[2], int)):
            return n
        if len(n) >= 3 and isinstance(n[2], int) and not isinstance(n[2], bool):
            out = [k, n[1], tm[n[2]]]
            if k == 'new':
                return out + [tm[n[3]] if isinstance(n[3], int) else n[3]] + [remap(x, tm) for x in n[4:]]
            if k == 'opassign':
                return out + [n[3], remap(n[4], tm), remap(n[5], tm)] + [tm[x] if isinstance(x, int) else x for x in n[6:]]
            return out + [remap(x, tm) for x in n[3:]]
        return n[:2] + [remap(x, tm) for x in n[2:]]
    return [remap(x, tm) for x in n]


def remap_fn(f, tm):
    f = dict(f)
    if isinstance(f.get('rt'), int):
        f['rt'] = tm[f['rt']]
    f['params'] = [dict(p, t=tm[p['t']]) for p in f.get('params', [])]
    if 'ta' in f:
        f['ta'] = [tm[x] if isinstance(x, int) else x for x in f['ta']]
    f['body'] = remap(f.get('body'), tm)
    if 'inits' in f:
        f['inits'] = [dict(i, e=remap(i.get('e'), tm)) for i in f['inits']]
    return f


def remap_rec(r, tm):
    r = dict(r)
    r['fields'] = [dict(x, t=tm[x['t']], **({'init': remap(x['init'], tm)} if x.get('init') is not None else {})) for x in r.get('fields', [])]
    if 'bases' in r:
        r['bases'] = [tm[b] if isinstance(b, int) else b for b in r['bases']]
    if 'methods' in r:
        r['methods'] = [remap_ref(m, tm) for m in r['methods']]
    return r


_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix='frnsa.')
        _scratch.append(d)
        overlay(d)
        import atexit
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return _scratch[0]


def lower_one(src, d, roots, extra=()):
    out = os.path.join(d, 'out.' + hashlib.sha1((src + str(extra)).encode()).hexdigest()[:12] + '.json')
    res = subprocess.run(['clang', '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    cmd = [LOWER, out, src, ','.join(roots), '--', '-std=gnu++17', '-march=native', '-include', 'cstdint',
           '-I' + os.path.join(d, 'src'), '-I' + os.path.join(VERIF, 'spec'), '-resource-dir', res, '-w'] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise Broken('cannot analyse %s: %s' % (src, (r.stderr or r.stdout)[-3000:]))
    return json.load(open(out))


def load(units, drivers=(), extra=()):
    """units: paths below src/frn of /repo; drivers: files of /verif/spec"""
    build_frontend()
    d = scratch()
    roots = [os.path.join(d, 'src'), os.path.join(VERIF, 'spec')]
    srcs = [os.path.join(d, 'src', 'frn', u) for u in units] + [os.path.join(VERIF, 'spec', x) for x in drivers]
    for s in srcs:
        if not os.path.exists(s):
            raise Broken('source file %s does not exist' % s.replace(d, REPO))
    p = Prog()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: lower_one(s, d, roots, extra if s.startswith(VERIF) else ()), srcs))
    for s, r in zip(srcs, res):
        p.merge(r, s.replace(d, REPO))
    for f in p.fns.values():
        f['file'] = f.get('file', '').replace(d, REPO)
    return p


ALL_UNITS = ['shr.cc', 'input.cc', 'input_corr.cc', 'corr.cc', 'mult.cc', 'check.cc', 'lib/primitives/prg.cc', 'lib/tools.cc',
             'lib/math/arithmetic.cc', 'lib/net/builder.cc', 'lib/net/channel.cc', 'lib/net/connector.cc', 'lib/net/sysi.cc']
