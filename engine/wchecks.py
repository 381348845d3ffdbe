"""Checks decided by the word analysis (word.py, wstd.py)."""
import os
import random
import re
import time
from multiprocessing import get_context

import wterm as wt
from wterm import C, ZERO, ONE, add, sub, mul, scale, addc, cv, atom, app, ge0, eq0, part
from word import *
from wstd import WStd
from ir import load, Broken, REPO
from report import Report
from oblig import literals

ASSUME = ['Clang 18 front end, -std=gnu++17, x86-64',
          'library functions and containers behave as modelled in engine/wstd.py',
          'integer conversions whose range the analysis cannot bound are taken to be exact (counted in the evidence)']


def fn_key(p, q, n=None):
    ks = [k for k, f in p.fns.items() if k.split('(')[0] == q and f.get('body') is not None and (n is None or len(f['params']) == n)]
    if not ks:
        raise Broken('function %s not found' % q)
    return sorted(ks)[0]


def where_of(w, only=None):
    """repository functions an analysis went through"""
    out = []
    for k, (f, l) in w.reached.items():
        if f and f.startswith(REPO):
            out.append('%s:%s %s' % (os.path.relpath(f, REPO), l, k.split('(')[0].split('@')[0]))
    return out


class Closed:
    """the closed-form parts of one function on given argument symbols"""

    def __init__(self, p, key, args, hooks=None, budget=60, cls=WStd, setup=None, cong=None, result=None, **kw):
        self.w = w = cls(p, hooks, **kw)
        w.deadline = time.time() + budget
        if cong:
            w.cong = cong
        self.names = args

        def go(w):
            a = setup(w) if setup else [self.make(w, x) for x in args]
            r = w.invoke(key, None, a)
            return result(w, r, a) if result else r
        try:
            self.traces = w.explore(go)
        except Unsupported as x:
            t = Trace()
            t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
            self.traces = [t]

    def make(self, w, x):
        return x() if callable(x) else x

    def gaps(self):
        return sorted({t.why or t.outcome for t in self.traces if t.outcome in ('unsupported', 'limit')})

    def exact(self, t):
        return not any(e['kind'] == 'loop' for e in t.events)

    def find(self, env):
        """the part that the valuation belongs to"""
        memo = {}
        for t in self.traces:
            if t.outcome == 'limit' or not self.exact(t):
                continue
            ok = True
            try:
                for _, c, b in t.path:
                    if bool(wt.evaluate(part(c), env, memo)) != b:
                        ok = False
                        break
            except wt.NoValue:
                ok = False
            if ok:
                return t, memo
        return None, None


def witnesses(t, terms, rng, n=6, tries=300):
    """valuations of the atoms under which the part t is taken"""
    at = wt.atoms_of([part(c) for _, c, _ in t.path] + list(terms))
    lim = {k: (x.a[1] if x.a[1] is not None else 0, x.a[2] if x.a[2] is not None else (1 << 20)) for k, x in at.items()}
    near = sorted({c + d for c in wt.consts_of([part(c) for _, c, _ in t.path]) for d in (-1, 0, 1)})

    def pick(k):
        lo, hi = lim[k]
        if near and rng.random() < 0.4:
            return min(hi, max(lo, rng.choice(near)))
        return rng.choice([lo, hi, min(lo + 1, hi), rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 300))])
    out = []
    for _ in range(tries):
        if len(out) >= n:
            break
        env = {k: rng.randint(*lim[k]) for k in lim}
        for _ in range(12):
            bad = None
            try:
                memo = {}
                for _, c, b in t.path:
                    if bool(wt.evaluate(part(c), env, memo)) != b:
                        bad = c
                        break
            except wt.NoValue:
                return out
            if bad is None:
                out.append(env)
                break
            ks = [k for k in wt.atoms_of([part(bad)])]
            if not ks:
                return out
            env[rng.choice(ks)] = None
            env.update({k: pick(k) for k, v in env.items() if v is None})
    return out


def thrown(t):
    return getattr(t.val, 'cls', 'exception')


# ------------------------------------------------------------------ C01
P61, P127 = (1 << 61) - 1, (1 << 127) - 1


def points(p, bits, seed, n):
    rng = random.Random(seed)
    h = bits // 2 + 3
    base = [0, 1, 2, 3, p - 1, p - 2, p - 3, p >> 1, (p >> 1) + 1, 1 << 32, (1 << 32) - 1, 1 << (bits // 2), (1 << (bits // 2)) - 1, (1 << h) - 1, p - (1 << 32),
            p ^ ((1 << 32) - 1), 0x5555555555555555 & p, 12345678901234567 % p, (1 << 60) + 7]
    if bits > 64:
        base += [(1 << 64) - 1, 1 << 64, p ^ ((1 << 64) - 1), (1 << 126) + (1 << 63), (p >> 64) << 64 | 5, (1 << 64) + 1, ((1 << 63) - 1) << 64 | (1 << 64) - 2]
    base = sorted({x % p for x in base})
    pairs = [(x, y) for x in base for y in base]
    for x in base:
        for d in (-1, 0, 1):
            pairs.append((x, (p - x + d) % p))
            if x:
                pairs.append((x, (pow(x, p - 2, p) + d) % p))
                pairs.append((x, (pow(2, p - 2, p) * x + d) % p))
    for _ in range(n):
        pairs.append((rng.randrange(p), rng.randrange(p)))
    return base, pairs


def c01(tier, seed):
    r = Report('C01', 'Abstract interpretation of the field operations on words: every path of the operation is summarised as an integer polynomial over '
                      'the operands and truncated quotients; discharged when the polynomial differs from the required one by a multiple of the prime and its '
                      'bounds lie in [0, p). Otherwise the closed expression is interpreted at boundary operands; a difference is reported.')
    prog = load(['lib/math/arithmetic.cc'], ['field.cc'])
    r.assumptions = list(ASSUME)
    proved, undecided, inst = [], [], 0
    for S, p, U in (('61', P61, 64), ('127', P127, 128)):
        base, pairs = points(p, U - (3 if U == 64 else 1), seed, 200 if tier == 'quick' else 2000)
        words = sorted(set(base + [p, p + 1, 2 * p, 2 * p - 1, 2 * p + 1, 3 * p, (1 << U) - 1, (1 << U) - 2, 1 << (U - 1), (1 << (U - 1)) - 1, (1 << U) - p, (1 << U) - p - 1]))
        words = [x for x in words if x < 1 << U]
        inv = lambda x, p=p: pow(x, p - 2, p) if x else None
        x = lambda: atom('x', 0, p - 1)
        y = lambda: atom('y', 0, p - 1)
        word = lambda: atom('x', 0, (1 << U) - 1)
        # name: arguments, polynomial, integers -> value (None: refused), is it a truth value
        ops = {}
        for nm, poly, f in (('Add', lambda a, b: add(a, b), lambda a, b: (a + b) % p), ('Sub', lambda a, b: sub(a, b), lambda a, b: (a - b) % p),
                            ('Mul', lambda a, b: mul(a, b), lambda a, b: a * b % p)):
            for v in {'Add': ('Add', 'AddTo'), 'Sub': ('Sub', 'SubFrom'), 'Mul': ('Mul', 'MulBy')}[nm]:
                ops[v] = (2, poly, f, 0)
        ops['KeepL'] = (2, lambda a, b: a, lambda a, b: a, 0)
        ops['KeepR'] = (2, lambda a, b: b, lambda a, b: b, 0)
        ops['Double'] = (1, lambda a: add(a, a), lambda a: 2 * a % p, 0)
        ops['Square'] = (1, lambda a: mul(a, a), lambda a: a * a % p, 0)
        ops['Less'] = (1, lambda a: ZERO, lambda a: 0, 0)
        for v in ('Minus', 'Negate'):
            ops[v] = (1, lambda a: scale(a, -1), lambda a: -a % p, 0)
        for v in ('New', 'Bytes'):
            ops[v] = ('w', lambda a: a, lambda a: a % p, 0)
        for v, k in (('Zero', 0), ('ConstZero', 0), ('ConstOne', 1)):
            ops[v] = (0, lambda k=k: C(k), lambda k=k: k, 0)
        for v in ('Eq', 'Equal'):
            ops[v] = (2, lambda a, b: eq0(sub(a, b)), lambda a, b: int(a == b), 1)
        for v in ('Ne', 'NotEqual'):
            ops[v] = (2, lambda a, b: sub(ONE, eq0(sub(a, b))), lambda a, b: int(a != b), 1)
        ops['Inv'] = ops['Invert'] = (1, None, inv, 0)
        ops['InvKeep'] = (1, None, lambda a: a if a else None, 0)
        ops['Div'] = ops['DivBy'] = (2, None, lambda a, b: a * inv(b) % p if b else None, 0)
        for nm, (n, poly, f, truth) in ops.items():
            key = fn_key(prog, 'code::' + nm + S)
            syms = [] if n == 0 else [word()] if n == 'w' else [x(), y()][:n]
            where = None
            if poly is not None:
                c = Closed(prog, key, syms, budget=40)
                where = where_of(c.w)
                target = poly(*syms)
                gaps = c.gaps()
                ok = not gaps and bool(c.traces)
                why = '; '.join(gaps)
                for t in c.traces:
                    if t.outcome != 'return' or not c.exact(t) or t.overflow:
                        ok = False
                        why = why or t.outcome
                        continue
                    if truth:
                        if sub(t.val, target) is not ZERO:
                            tv = t.ctx.truth(target)
                            if tv is None or t.ctx.truth(c.w.cond(t.val) if False else t.val) != tv:
                                ok = False
                                why = why or 'condition differs'
                        continue
                    d = sub(t.val, target)
                    if not (all(k % p == 0 for _, k in d.a[0]) or any(all(k % p == 0 for _, k in add(d, e, s).a[0]) for e in t.ctx.eqs for s in [-k for k in t.ctx.ratios(d, e)] + [1, -1])):
                        ok = False
                        why = why or 'not congruent in normal form'
                    elif not (t.ctx.nonneg(t.val) and t.ctx.nonneg(sub(C(p - 1), t.val))):
                        ok = False
                        why = why or 'range not bounded'
                if ok:
                    proved.append(nm + S)
                    continue
                cases = [()] if n == 0 else [(v,) for v in words] if n == 'w' else [(v,) for v in base] if n == 1 else pairs
                for cs in cases:
                    env = dict(zip('xy', cs))
                    t, memo = c.find(env)
                    if t is None or t.outcome in ('unsupported',):
                        continue
                    inst += 1
                    want = f(*cs)
                    got = describe_end(t, env, memo)
                    if got is None:
                        continue
                    if got != (want if want is not None else 'refusal'):
                        r.find('%s%s' % (nm, S), 'exact and canonical result', ', '.join(where[:4]),
                               '%s%s: the closed form of a path gives %s for operands %s, the residue is %s' % (nm, S, got, cs, want))
                        break
                else:
                    undecided.append('%s%s (%s)' % (nm, S, why))
                continue
            # inverses: constant operands, folded through the loop
            cases = [(v,) for v in (base if tier == 'quick' else words and base + [q[0] for q in pairs[-60:]])] if n == 1 else \
                [(b, a) for a in base[:8] + base[-3:] for b in (0, 1, 5, p - 1)]
            done = 0
            for cs in cases:
                c = Closed(prog, key, [C(v) for v in cs], budget=20)
                where = where_of(c.w)
                if len(c.traces) != 1 or c.traces[0].outcome in ('unsupported', 'limit') or not c.exact(c.traces[0]):
                    why = '; '.join(c.gaps()) or 'not folded'
                    continue
                done += 1
                want = f(*cs)
                got = describe_end(c.traces[0], {}, {})
                if got is not None and got != (want if want is not None else 'refusal'):
                    r.find('%s%s' % (nm, S), 'inverse', ', '.join(where[:5]), '%s%s: folds to %s for operands %s, expected %s' %
                           (nm, S, got, cs, want if want is not None else 'refusal'))
                    break
            inst += done
            undecided.append('%s%s (folded at %d operands)' % (nm, S, done))
    r.cov('discharged for every operand', proved)
    r.cov('refutation only', undecided)
    r.cov('interpretations of closed forms', inst)
    return r


def describe_end(t, env, memo):
    """what a part amounts to under a valuation; None when that is unknown"""
    if t.outcome == 'throw':
        return "refusal"
    if t.outcome == 'return':
        try:
            return wt.evaluate(part(t.val), env, memo)
        except wt.NoValue:
            return None
    if t.outcome == 'ub':
        return 'undefined (%s)' % t.why
    return t.outcome


# ------------------------------------------------------------------ C16
NONCE = 0x0123456789ABCDEF
RCON = [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36]


def aes_keys(w, seed):
    """the round keys of the seed"""
    k = w.from_bytes(seed)
    ks = [k]
    for r in RCON:
        g = w.simd('_mm_shuffle_epi32', [w.simd('_mm_aeskeygenassist_si128', [k, C(r)]), C(0xff)])
        for _ in range(3):
            k = w.simd('_mm_xor_si128', [k, w.simd('_mm_slli_si128', [k, C(4)])])
        k = w.simd('_mm_xor_si128', [k, g])
        ks.append(k)
    return ks


def aes_ctr(w, ks, ctr):
    """the bytes of block number ctr under the round keys (FIPS 197 in terms of the cipher instructions)"""
    m = w.simd('_mm_set_epi64x', [C(NONCE), ctr])
    m = w.simd('_mm_xor_si128', [m, ks[0]])
    for k in ks[1:10]:
        m = w.simd('_mm_aesenc_si128', [m, k])
    m = w.simd('_mm_aesenclast_si128', [m, ks[10]])
    return [w.byte(m, i) for i in range(16)]


_C16 = None


def c16_deal(i):
    import sys
    sys.setrecursionlimit(100000)
    return _C16(i)


def c16(tier, seed):
    r = Report('C16', 'Abstract interpretation of the generator on symbolic seeds and a symbolic block counter, for many request sizes and short histories: '
                      'the closed form of every byte written is compared with the counter-mode definition (identical normal form: discharged for every seed and '
                      'counter; different: both closed forms are interpreted with the meaning of the cipher instructions and a difference is reported).')
    r.assumptions = list(ASSUME) + ['cipher instructions have the meaning given in engine/wstd.py when a difference is interpreted', 'memory allocation succeeds']
    p = load(['lib/primitives/prg.cc'], ['prg.cc'])
    K = {n: fn_key(p, 'code::' + n) for n in ('Make', 'Default', 'Draw', 'DrawAll', 'DrawVec', 'Reset', 'Counter', 'Seed', 'Block', 'SeedSize')}
    w = WStd(p)
    w.deadline = time.time() + (200 if tier == 'quick' else 600)
    uc = next(i for i, t in enumerate(p.types) if t and t['s'] == 'unsigned char')
    bad, obls, gaps, split, wits = {}, [0, 0], {}, [0], {}

    def buf(name, n):
        return Vec([Cell(atom('%s%d' % (name, i), 0, 255), uc) for i in range(n)], uc, 'vector')

    def differ(t, a, b):
        """interpretations of two closed forms under which they differ"""
        at = wt.atoms_of([a, b])
        rng = random.Random(seed)
        if t.path:
            if t not in wits:
                wits.clear()
                wits[t] = witnesses(t, [x for _, u, v in t.val for x in (u, v) if x is not None], rng)
            for env in wits[t]:
                try:
                    va, vb = wt.evaluate(a, env), wt.evaluate(b, env)
                except wt.NoValue:
                    return None
                if va != vb:
                    return va, vb
            return None
        for k in range(4):
            env = {n: (x.a[1] or 0) if k == 3 else rng.randrange(x.a[1] or 0, (x.a[2] if x.a[2] is not None else 255) + 1) for n, x in at.items()}
            if k == 1:
                env.update({n: v % 3 for n, v in env.items() if n == 'c'})
            try:
                va, vb = wt.evaluate(a, env), wt.evaluate(b, env)
            except wt.NoValue:
                return None
            if va != vb:
                return va, vb
        return None

    def counter_cells(w, g):
        """cells of the generator that one block advances by one"""
        before = {id(c): (c, c.v) for c in walk_cells(g)}
        w.invoke(K['Draw'], None, [g, Ptr(buf('scrap', 16), ZERO, uc), C(16)])
        return [c for c, v in before.values() if isinstance(v, wt.N) and isinstance(c.v, wt.N) and sub(c.v, v) is ONE]

    def case(label, hist, symbolic, default=False):
        """hist: sequence of ('draw'|'vec'|'all', nbytes, room) | ('reset',)"""
        def go(w):
            sd = [atom('s%d' % i, 0, 255) for i in range(16)] if not default else [ZERO] * 16
            src = Vec([Cell(x, uc) for x in sd], uc, 'arr')
            g = w.invoke(K['Default'], None, []) if default else w.invoke(K['Make'], None, [Ptr(src, ZERO, uc)])
            base = ZERO
            ks = aes_keys(w, sd)
            if symbolic:
                cc = counter_cells(w, w.copy(g))
                gg = [c for c in walk_cells(g)]
                h = w.copy(g)
                hc = walk_cells(h)
                before = [c.v for c in hc]
                w.invoke(K['Draw'], None, [h, Ptr(buf('scrap', 16), ZERO, uc), C(16)])
                idx = [i for i, c in enumerate(walk_cells(h)) if isinstance(before[i], wt.N) and isinstance(c.v, wt.N) and sub(c.v, before[i]) is ONE]
                if len(idx) != 1:
                    raise Unsupported('no block counter found in the generator')
                base = atom('c', 0, (1 << 62))
                gg[idx[0]].v = add(gg[idx[0]].v, base)
            out = []
            pos = base
            for i, st in enumerate(hist):
                if st[0] == 'reset':
                    w.invoke(K['Reset'], None, [g])
                    pos = ZERO
                else:
                    how, n, room = st
                    d = buf('d%d_' % i, room)
                    old = [c.v for c in d.els]
                    thrown = False
                    try:
                        if how == 'draw':
                            w.invoke(K['Draw'], None, [g, Ptr(d, ZERO, uc), C(n)])
                        elif how == 'vec':
                            w.invoke(K['DrawVec'], None, [g, d, C(n)])
                        else:
                            w.invoke(K['DrawAll'], None, [g, d])
                    except CxxThrow:
                        thrown = True
                    refuse = n > room
                    if thrown != refuse:
                        out.append(('refusal of %d bytes into %d' % (n, room), ONE if thrown else ZERO, ONE if refuse else ZERO))
                        break
                    want = list(old)
                    if not refuse:
                        nb = -(-n // 16)
                        for b in range(nb):
                            bs = aes_ctr(w, ks, addc(pos, b))
                            want[16 * b:min(n, 16 * b + 16)] = bs[:min(16, n - 16 * b)]
                        pos = addc(pos, nb)
                    out.append(('size of the destination', C(len(d.els)), C(room)))
                    out.extend(('request %d (%d bytes), byte %d' % (i, n, j), c.v, x) for j, (c, x) in enumerate(zip(d.els, want)))
                out.append(('counter after step %d' % i, w.invoke(K['Counter'], None, [g]), pos))
            sp = w.invoke(K['Seed'], None, [g])
            if isinstance(sp, Ptr):
                out.extend(('seed byte %d' % j, a, b) for j, (a, b) in enumerate(zip(w.read_bytes(sp, 16), sd)))
            return out
        ts = w.explore(go)
        if any(e['kind'] == 'loop' for t in ts for e in t.events) and split[0] < 30:
            # a loop that ends on data was summarised: follow its iterations one by one instead
            split[0] += 1
            w2 = WStd(p, {'nogen': True}, unroll=300, max_traces=80)
            w2.deadline = time.time() + 10
            try:
                ts = w2.explore(go)
            except Unsupported as x:
                gaps[label] = str(x)
        for t in ts:
            if t.outcome == 'return' and not any(e['kind'] == 'loop' for e in t.events):
                for what, a, b in t.val:
                    obls[0] += 1
                    if a is b:
                        obls[1] += 1
                        continue
                    if a is None:
                        bad.setdefault(label, '%s is not written' % what)
                        break
                    d = differ(t, a, b)
                    if d:
                        bad.setdefault(label, '%s: the closed form gives %d, the definition %d' % (what, d[0], d[1]))
                        break
                    gaps[what] = 'normal forms differ'
            elif t.outcome == 'ub' and (not t.path or witnesses(t, [], random.Random(seed), 1)):
                bad.setdefault(label, t.why)
            elif t.outcome == 'throw' and (not t.path or witnesses(t, [], random.Random(seed), 1)):
                bad.setdefault(label, 'refused')
            else:
                gaps[label] = t.why or t.outcome
    work = []

    def todo(*a, **kw):
        work.append((a, kw))
    sizes = list(range(0, 35)) + [47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4113]
    if tier != 'quick':
        sizes += [n for n in range(35, 260) if n not in sizes] + [1000, 2048, 4097, 8191, 8192, 8193]
    near = sorted({n for k in literals(p) if 16 < k <= 20000 for n in (k, k + 1, k + 16, k + 33)} - set(sizes))      # sizes about the constants of the code
    r.cov('sizes about constants of the code', near)
    for n in sizes + near:
        todo('draw %d' % n, [('draw', n, n + 3)], True)
        if n > 2000:
            continue
        todo('draw %d exactly' % n, [('vec', n, n), ('draw', 5, 5)], True)
    for n in (0, 1, 15, 16, 17, 33):
        for m in (0, 1, 16, 20):
            todo('draw %d then %d' % (n, m), [('draw', n, n), ('vec', m, m + 1), ('all', 7, 7)], True)
            todo('fresh: draw %d, reset, draw %d' % (n, m), [('draw', n, n), ('reset',), ('draw', m, m + 2), ('draw', 16, 16)], False)
            todo('default seed: draw %d then %d' % (n, m), [('draw', n, n), ('draw', m, m)], False, default=True)
        todo('room for one byte less than %d' % (n + 1), [('draw', 16, 16), ('vec', n + 1, n), ('draw', 17, 17)], True)
        todo('all of %d' % n, [('all', n, n), ('all', 16, 16)], True)
    todo('many requests', [('draw', 1, 1), ('draw', 16, 16), ('draw', 31, 31), ('reset',), ('reset',), ('draw', 40, 40), ('vec', 0, 0), ('all', 3, 3)], True)
    # the cases with the most work first, dealt out to the processors
    work.sort(key=lambda x: -sum(st[1] for st in x[0][1] if len(st) > 1))

    def deal(i):
        bad.clear()
        gaps.clear()
        obls[:] = [0, 0]
        for a, kw in work[i::PARTS]:
            if len(bad) > 3:
                break
            if time.time() > w.deadline:
                gaps[a[0]] = 'not analysed in the time allowed'
                continue
            case(*a, **kw)
        return bad, obls, gaps, where_of(w)
    global _C16
    _C16 = deal
    PARTS = 16
    fns = []
    with get_context('fork').Pool(8) as pool:
        for b_, o_, g_, f_ in pool.map(c16_deal, range(PARTS), chunksize=1):
            bad.update(b_)
            gaps.update(g_)
            obls[0] += o_[0]
            obls[1] += o_[1]
            fns = max(fns, f_, key=len)
    for k, v in list(bad.items())[:20]:
        r.find('C16 ' + k, 'output is the counter-mode stream', ', '.join(fns[:5]), '%s: %s' % (k, v))
    if not obls[0]:
        raise Broken('the generator could not be analysed: %s' % '; '.join(sorted(set(gaps.values()))[:3]))
    r.cov('obligations', obls[0])
    r.cov('discharged by identical normal forms', obls[1])
    r.cov('not decided', ['%s: %s' % kv for kv in gaps.items()][:40])
    r.cov('functions', fns)
    return r


def walk_cells(o):
    if isinstance(o, Cell):
        return [o]
    if isinstance(o, Rec):
        return [c for k in sorted(o.f) for c in walk_cells(o.f[k])]
    if isinstance(o, Vec):
        return [c for x in o.els for c in walk_cells(x)]
    if isinstance(o, Atomic):
        return [o.c]
    return []


# ------------------------------------------------------------------ C17
def keccak_constants():
    """round constants and rotation offsets from their definitions (FIPS 202, 3.2.2 and 3.2.5)"""
    rc = []
    lfsr = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if lfsr & 1:
                v |= 1 << ((1 << j) - 1)
            lfsr = (lfsr << 1) ^ (0x171 if lfsr & 0x80 else 0)
        rc.append(v)
    rot = [[0] * 5 for _ in range(5)]
    x, y = 1, 0
    for t in range(24):
        rot[x][y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    return rc, rot


M64 = (1 << 64) - 1


def keccak_int(st):
    rc, _ = keccak_constants()

    def xor(xs):
        v = 0
        for x in xs:
            v ^= x
        return v
    return keccak_rounds(st, xor, lambda u, v: ~u & M64 & v, lambda v, n: ((v << n) | (v >> (64 - n))) & M64 if n else v, rc)


def keccak_rounds(st, xor, andnot, rotl, rc, rounds=24):
    _, rot = keccak_constants()
    a = list(st)
    for r in range(rounds):
        c = [xor([a[x + 5 * y] for y in range(5)]) for x in range(5)]
        d = [xor([c[(x - 1) % 5], rotl(c[(x + 1) % 5], 1)]) for x in range(5)]
        a = [xor([a[x + 5 * y], d[x]]) for y in range(5) for x in range(5)]
        b = [None] * 25
        for x in range(5):
            for y in range(5):
                b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(a[x + 5 * y], rot[x][y])
        a = [xor([b[x + 5 * y], andnot(b[(x + 1) % 5 + 5 * y], b[(x + 2) % 5 + 5 * y])]) for y in range(5) for x in range(5)]
        a[0] = xor([a[0], rc[r]])
    return a


def keccak_terms(w, st):
    rc, _ = keccak_constants()
    ctx = w.ctx

    def xor(xs):
        r = part(xs[0])
        for x in xs[1:]:
            r = ctx.bitop('xor', [r, C(x) if isinstance(x, int) else x])
        return r

    def rotl(v, n):
        if not n:
            return v
        return ctx.bitop('or', [ctx.rem(scale(v, 1 << n), 1 << 64), ctx.quo(v, 1 << (64 - n))])

    def andnot(u, v):
        return ctx.bitop('and', [sub(C(M64), u), v])
    return keccak_rounds(st, xor, andnot, rotl, rc)


def find_permutation(p):
    """the function that permutes the state: one parameter, a pointer to 64-bit words"""
    out = []
    for k, f in p.fns.items():
        if len(f['params']) == 1 and f.get('body') is not None and f.get('file', '').startswith(REPO):
            t = p.types[f['params'][0]['t']]
            if t['k'] == 'ptr':
                u = p.types[t['t']]
                if u['k'] == 'int' and u['w'] == 64 and u['u'] and not f.get('cls'):
                    out.append(k)
    return out


class HashW(WStd):
    perm = None

    def x_call(self, e):
        if self.perm and e[3]['k'] == self.perm:
            o = self.val(e[4][0])
            if isinstance(o, Ptr) and isinstance(o.o, Vec) and len(o.o.els) == 25 and (o.i is None or cv(o.i) == 0):
                st = [c.v for c in o.o.els]
                if all(x is not None for x in st):
                    self.reached[self.perm] = (self.p.fns[self.perm].get('file'), self.p.fns[self.perm].get('line'))
                    for c, x in zip(o.o.els, perm_terms(st)):
                        c.v = x
                    return ZERO
        return WStd.x_call(self, e)


def perm_terms(st):
    s = app('state', [part(x) for x in st], 0, 1)
    return [app('perm%d' % i, [s], 0, M64) for i in range(25)]


def lane_xor(w, a, b):
    return w.ctx.bitop('xor', [part(a), part(b)])


def sponge(w, msg, rate, out, perm):
    """SHA-3 of the byte terms msg"""
    m = [part(x) for x in msg]
    pad = rate - len(m) % rate
    tail = [0] * pad
    tail[0] |= 6
    tail[-1] |= 0x80
    m += [C(x) for x in tail]
    st = [ZERO] * 25
    for i in range(0, len(m), rate):
        for j in range(rate // 8):
            st[j] = lane_xor(w, st[j], w.from_bytes(m[i + 8 * j:i + 8 * j + 8]))
        st = perm(st)
    return [w.byte(st[i // 8], i % 8) for i in range(out)]


def c17_splits(rate, tier, rng):
    out = []
    n = rate + 10
    out += [[k] for k in list(range(0, n)) + [2 * rate - 1, 2 * rate, 2 * rate + 1, 2 * rate + 9]]
    out += [[a, b] for a in range(0, 17) for b in range(0, 17)]
    for a in list(range(rate - 10, rate + 2)):
        out += [[a, b] for b in (0, 1, 2, 5, 7, 8, 9, 15, 16)]
    for a, b, c in [(1, 1, 1), (3, 5, 7), (1, 6, 1), (2, 6, 8), (7, 1, 7), (5, 2, 9), (4, 4, 4), (1, 7, 0), (0, 0, 3), (8, 0, 8), (3, 0, 4), (6, 1, 1), (9, 15, 8)]:
        out.append([a, b, c])
    out += [[1] * k for k in (7, 8, 9, 15, 16, 17, rate - 1, rate, rate + 1)]
    for k in range(40 if tier == 'quick' else 400):
        out.append([rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 23, 24, rate - 8, rate - 1, rate, rate + 3]) for _ in range(rng.randrange(2, 6))])
    if tier != 'quick':
        out += [[a, b, c] for a in range(0, 9) for b in range(0, 9) for c in range(0, 9)]
        out += [[a, b] for a in range(0, rate + 9) for b in (1, 3, 7, 8, 12)]
    return out


def c17_tag(job):
    S, seed, tier, part_no, parts = job
    rate = 200 - 2 * S // 8
    p = _C17
    rng = random.Random(seed)
    splits = (c17_splits(rate, tier, rng) + [x for k in literals(p) if 8 < k <= 5000 for x in ([k], [k + 1], [k + 9], [3, k + 1], [k - 1, 2, 9])])[part_no::parts]
    w = HashW(p)
    w.deadline = time.time() + (220 if tier == 'quick' else 800)
    w.unroll = 100000
    pf = find_permutation(p)
    if len(pf) == 1:
        w.perm = pf[0]
    else:
        splits = [s for s in splits if sum(s) < rate + 20][::6]
    perm = perm_terms if w.perm else (lambda st: keccak_terms(w, st))
    K = {n: fn_key(p, 'code::%s%d' % (n, S)) for n in ('Make', 'Put', 'PutVec', 'PutTwice', 'End')}
    uc = next(i for i, t in enumerate(p.types) if t and t['s'] == 'unsigned char')
    bad, gaps, tot, ok = [], {}, 0, 0
    for no, sp in enumerate(splits):
        how = no % 3

        def go(w):
            h = w.invoke(K['Make'], None, [])
            msg = []
            pieces = []
            for i, n in enumerate(sp):
                bs = [atom('m%d_%d' % (i, j), 0, 255) for j in range(n)]
                msg += bs
                pieces.append(Vec([Cell(x, uc) for x in bs], uc, 'vector'))
            i = 0
            while i < len(pieces):
                if how == 2 and i + 1 < len(pieces):
                    w.invoke(K['PutTwice'], None, [h, pieces[i], pieces[i + 1]])
                    i += 2
                    continue
                if (how + i) % 2:
                    w.invoke(K['PutVec'], None, [h, pieces[i]])
                else:
                    w.invoke(K['Put'], None, [h, Ptr(pieces[i], ZERO, uc), C(len(pieces[i].els))])
                i += 1
            d = w.invoke(K['End'], None, [h])
            return [c.v for c in d.els], sponge(w, msg, rate, S // 8, perm)
        for t in w.explore(go):
            if t.outcome in ('unsupported', 'limit', 'cut') or t.path:
                gaps[t.why or t.outcome] = gaps.get(t.why or t.outcome, 0) + 1
                continue
            if t.outcome != 'return':
                bad.append((sp, t.why or t.outcome))
                break
            got, want = t.val
            tot += 1
            if len(got) != len(want):
                bad.append((sp, 'digest of %d bytes' % len(got)))
                break
            if all(a is b for a, b in zip(got, want)):
                ok += 1
                continue
            at = wt.atoms_of(list(got) + want)
            r2 = random.Random(5)
            diff = None
            for k in range(3):
                env = {n: r2.randrange(256) for n in at}
                env['#salt'] = k
                memo = {}
                try:
                    for j, (a, b) in enumerate(zip(got, want)):
                        if wt.evaluate(a, env, memo) != wt.evaluate(b, env, memo):
                            diff = j
                            break
                except wt.NoValue as x:
                    gaps['no value ' + str(x)] = 1
                if diff is not None:
                    break
            if diff is not None:
                bad.append((sp, 'byte %d of the digest' % diff))
                break
            gaps['normal forms differ'] = gaps.get('normal forms differ', 0) + 1
        if len(bad) > 4:
            break
    return S, tot, ok, bad, gaps, where_of(w)


def c17_perm(seed):
    """the permutation against the step mappings of the standard"""
    p = _C17
    pf = find_permutation(p)
    if len(pf) != 1:
        return 'no separate permutation function', None, ''
    w = WStd(p)
    w.deadline = time.time() + 200
    u64 = next(i for i, t in enumerate(p.types) if t and t['s'] == 'unsigned long')

    def go(w):
        ats = [atom('a%d' % i, 0, M64) for i in range(25)]
        v = Vec([Cell(x, u64) for x in ats], u64, 'arr')
        w.invoke(pf[0], None, [Ptr(v, ZERO, u64)])
        return [c.v for c in v.els], keccak_terms(w, ats)
    ts = w.explore(go)
    where = '%s:%s %s' % (os.path.relpath(p.fns[pf[0]]['file'], REPO), p.fns[pf[0]]['line'], pf[0].split('(')[0].split('@')[0])
    if len(ts) != 1 or ts[0].outcome != 'return':
        if len(ts) == 1 and ts[0].outcome in ('ub', 'throw'):
            return 'refuted', ts[0].why, where
        return 'not decided: %s' % '; '.join(t.why or t.outcome for t in ts)[:200], None, where
    got, want = ts[0].val
    if all(a is b for a, b in zip(got, want)):
        return 'discharged', None, where
    rng = random.Random(seed)
    for k in range(6):
        st = [rng.randrange(1 << 64) if k > 1 else k * M64 for _ in range(25)]
        env = {'a%d' % i: x for i, x in enumerate(st)}
        memo = {}
        ref = keccak_int(st)
        for i, a in enumerate(got):
            if wt.evaluate(part(a), env, memo) != ref[i]:
                return 'refuted', 'lane %d differs from the standard for the state %s..' % (i, hex(st[0])), where
    return 'not decided: normal forms differ', None, where


_C17 = None


def c17(tier, seed):
    global _C17
    r = Report('C17', 'Abstract interpretation of the hash on symbolic bytes. The permutation on 25 symbolic lanes is compared with the step mappings of FIPS 202 '
                      '(constants recomputed from their definitions); the sponge is compared, with the permutation as an unknown function, for every listed '
                      'sequence of update sizes: each digest byte must have the closed form given by the standard for the concatenated bytes.')
    r.assumptions = list(ASSUME)
    _C17 = p = load([], ['hash.cc'])
    jobs = [(S, seed, tier, i, 3) for S in (512, 384, 256) for i in range(3)]
    with get_context('fork').Pool(8) as pool:
        pm = pool.apply_async(c17_perm, (seed,))
        res = pool.map(c17_tag, jobs, chunksize=1)
        st, why, where = pm.get()
    if st == 'refuted':
        r.find('C17 permutation', 'permutation of the standard', where, 'permutation: ' + str(why))
    r.cov('permutation on 25 symbolic lanes', st)
    tot = ok = 0
    gaps = {}
    fns = []
    for S, t, o, bad, g, fs in res:
        tot += t
        ok += o
        for k, v in g.items():
            gaps[k] = gaps.get(k, 0) + v
        fns = fs or fns
        for sp, what in bad:
            r.find('C17 SHA3-%d' % S, 'digest is SHA-3 of the concatenation', ', '.join(fs[:4]), 'SHA3-%d, updates of %s bytes: %s' % (S, sp, what))
    if not tot:
        raise Broken('the hash could not be analysed: %s' % '; '.join(gaps)[:300])
    r.cov('update sequences', tot)
    r.cov('discharged by identical normal forms', ok)
    r.cov('not decided', ['%s x%d' % kv for kv in gaps.items()])
    r.cov('functions', fns)
    return r
