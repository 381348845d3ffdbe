"""Value-number terms.

Hash-consed canonical forms used as the abstract domain of the summary analysis
(summ.py).  Integers, booleans and ring elements are polynomials over atoms
(multilinear in Iverson brackets); sequences are comprehensions; loops have been
turned into closed forms (sums, comprehensions, first/last index terms) or, when
no closed form is known, into iterates of a canonical step function.  Two
expressions with the same term are equal for every input; no path is
enumerated, nothing is executed and no solver is involved.
"""
import hashlib
import itertools
import os
from math import gcd

_tab = {}
_cnt = [0]
_uid = [0]
EMPTY = frozenset()


class Node:
    __slots__ = ('op', 'args', 'id', 'free', 'h', '_s', 'opq')

    def __repr__(self):
        return show(self)


def _kids(args):
    for a in args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            yield from _kids(a)


def mk(op, *args):
    key = (op, args)
    n = _tab.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = _cnt[0]
    _cnt[0] += 1
    f = EMPTY
    h = 0
    opq = op == 'opaque'
    for k in _kids(args):
        if k.free:
            f = f | k.free
        if k.h > h:
            h = k.h
        if k.opq:
            opq = True
    n.free = f
    n.h = h
    n.opq = opq
    n._s = None
    _tab[key] = n
    return n


def fresh(hint='v'):
    """a fresh variable node"""
    _uid[0] += 1
    u = _uid[0]
    n = mk('v', u, hint)
    n.free = frozenset((u,))
    return n


# ---------------------------------------------------------------- facts
class Ctx:
    """linear facts (polynomials known to be >= 0) used to simplify comparisons"""

    def __init__(self):
        self.nonneg = set()
        self.set(())

    def set(self, facts):
        self.facts = facts
        c = _caches.get(facts)
        if c is None:
            c = _caches[facts] = ({}, {}, len(_caches))
        self.ent, self.nm, self.fid = c


_caches = {}
CTX = Ctx()


def set_nonneg(node):
    CTX.nonneg.add(node)


class assume:
    """with assume([p, q]): p >= 0 and q >= 0 hold inside"""

    def __init__(self, ps):
        self.ps = [p for p in ps if p is not None and isinstance(p, Node) and p.op == 'P' and not is_const(p)]

    def __enter__(self):
        self.old = CTX.facts
        new = tuple(p for p in self.ps if p not in self.old)
        if new:
            CTX.set(self.old + new)

    def __exit__(self, *a):
        if CTX.facts is not self.old:
            CTX.set(self.old)


# ---------------------------------------------------------------- polynomials
# Node('P', ((coef, mono), ...)); mono = ((atom, exp), ...) sorted by atom id
def _akey(a):
    return a.id


def from_dict(d):
    items = [(c, m) for m, c in d.items() if c]
    items.sort(key=lambda t: tuple((a.id, e) for a, e in t[1]))
    return mk('P', tuple(items))


def const(c):
    return mk('P', ((c, ()),)) if c else mk('P', ())


ZERO = const(0)
ONE = const(1)


def atom(a):
    if a.op == 'P':
        return a
    return mk('P', ((1, ((a, 1),)),))


def dict_of(p):
    return {m: c for c, m in p.args[0]}


def is_const(p):
    return p.op == 'P' and (not p.args[0] or (len(p.args[0]) == 1 and not p.args[0][0][1]))


def cval(p):
    """integer value of a constant polynomial, or None"""
    if p.op != 'P':
        return None
    t = p.args[0]
    if not t:
        return 0
    if len(t) == 1 and not t[0][1]:
        return t[0][0]
    return None


def as_atom(p):
    """the node a if p is exactly 1*a"""
    if p.op != 'P':
        return None
    t = p.args[0]
    if len(t) == 1 and t[0][0] == 1 and len(t[0][1]) == 1 and t[0][1][0][1] == 1:
        return t[0][1][0][0]
    return None


IVERSON = {'ge0', 'eq0', 'feq0', 'ex', 'bool', 'seteq'}


def add(a, b):
    if a.op != 'P' or b.op != 'P':
        return opaque_poly('add', a, b)
    if not a.args[0]:
        return b
    if not b.args[0]:
        return a
    d = dict_of(a)
    for c, m in b.args[0]:
        d[m] = d.get(m, 0) + c
    return from_dict(d)


def scale(a, k):
    if a.op != 'P':
        return opaque_poly('scale', a, const(k))
    if k == 1:
        return a
    return from_dict({m: c * k for c, m in a.args[0]})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def opaque_poly(why, *kids):
    return atom(mk('opaque', why, *kids))


def mul_mono(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            d[a] = 1 if a.op in IVERSON else d[a] + e
        else:
            d[a] = e
    return d


def mul(a, b):
    if a.op != 'P' or b.op != 'P':
        return opaque_poly('mul', a, b)
    ca = cval(a)
    if ca is not None:
        return scale(b, ca) if ca else ZERO
    cb = cval(b)
    if cb is not None:
        return scale(a, cb) if cb else ZERO
    out = {}
    post = []
    for c1, m1 in a.args[0]:
        for c2, m2 in b.args[0]:
            d = mul_mono(m1, m2)
            new = bool(m1) and bool(m2) and any(x.op in IVERSON for x in d)
            m = tuple(sorted(d.items(), key=lambda t: t[0].id))
            if new:
                r = _norm_mono(m)
                if r is not None:
                    post.append(scale(r, c1 * c2))
                    continue
            out[m] = out.get(m, 0) + c1 * c2
    r = from_dict(out)
    for p in post:
        r = add(r, p)
    if len(r.args[0]) > 1:
        r = _collapse(r)
    return r


def _collapse(r):
    """[p >= 0] - [p - 1 >= 0] is [p == 0]"""
    if len(r.args[0]) > 60:
        return r
    low = [(c, m, a) for c, m in r.args[0] if c < 0 for a, e in m if a.op == 'ge0']
    for c, m, a in low:
        p = add(a.args[0], ONE)
        l = _lead(p)
        if l is None or l[1] < 0:
            continue
        g = _tab.get(('ge0', (p,)))
        if g is None:
            continue
        m2 = tuple(sorted([(x, e) for x, e in m if x is not a] + [(g, 1)], key=lambda t: t[0].id))
        d = dict_of(r)
        if d.get(m2) == -c:
            t = from_dict({mm: cc for cc, mm in r.args[0] if mm is not m and mm != m2})
            rest = from_dict({tuple(x for x in m if x[0] is not a): -c})
            return _collapse(add(t, mul(rest, eq0(p))))
    return r


def _norm_mono(m):
    """normalise one monomial with Iverson factors; None if already normal"""
    c = CTX.nm
    if m in c:
        return c[m]
    r = _norm_mono0(m)
    c[m] = r
    return r


def _norm_mono0(m):
    eqs = [a for a, e in m if a.op == 'eq0']
    if eqs:
        # [x == e] * f(x)  ->  [x == e] * f(e)
        for q in eqs:
            s = solve_for(q.args[0])
            if s is None:
                continue
            x, e = s
            rest = [(a, k) for a, k in m if a is not q]
            hit = [a for a, k in rest if contains(a, x)]
            if hit:
                r = atom(q)
                for a, k in rest:
                    t = replace(atom(a), x, e)
                    for _ in range(k):
                        r = mul(r, t)
                return r
        # contradictory equalities handled through substitution above
    fs = [a for a, e in m if a.op == 'first' and e == 1]
    for f in fs:
        for x, e in m:
            if x.op == 'ex' and x.args[0] is f.args[0] and x.args[1] is f.args[1] and x.h == f.h:
                n = to_poly(f.args[0])
                r = add(sub(atom(f), n), mul(n, atom(x)))
                for a, k in m:
                    if a is not f and a is not x:
                        for _ in range(k):
                            r = mul(r, atom(a))
                return r
    ges = [a for a, e in m if a.op == 'ge0']
    if len(ges) > 1:
        for i, g in enumerate(ges):
            for g2 in ges[i + 1:]:
                d = sub(g.args[0], g2.args[0])
                c = cval(d)
                if c is not None:  # same linear part: keep the stronger
                    weak = g if c > 0 else g2
                    r = ONE
                    for a, k in m:
                        if a is not weak:
                            for _ in range(k):
                                r = mul(r, atom(a))
                    return r
                s = cval(add(g.args[0], g2.args[0]))
                if s is not None:
                    if s < 0:
                        return ZERO
                    if s == 0:  # p >= 0 and -p >= 0
                        r = eq0(g.args[0])
                        for a, k in m:
                            if a is not g and a is not g2:
                                for _ in range(k):
                                    r = mul(r, atom(a))
                        return r
    return None


def solve_for(p):
    """p == 0 solved for an atom: (atom, poly), choosing a canonical atom"""
    best = None
    for c, m in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op not in IVERSON:
            a = m[0][0]
            rest = from_dict({mm: -cc * c for cc, mm in p.args[0] if mm != m})
            if contains(rest, a):
                continue
            k = (0 if a.op == 'v' else 1 if a.op == 'b' else 2, -a.h, show(a))
            if a.op == 'v':
                k = (0, -a.args[0], '')
            if best is None or k < best[0]:
                best = (k, a, rest)
    return None if best is None else (best[1], best[2])


_contains_cache = {}


def contains(n, x):
    if n is x:
        return True
    if x.free and not (x.free <= n.free):
        return False
    key = (n.id, x.id)
    r = _contains_cache.get(key)
    if r is None:
        r = any(contains(k, x) for k in _kids(n.args))
        _contains_cache[key] = r
    return r


def power(a, k):
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


# ---------------------------------------------------------------- entailment


def atom_nonneg(a):
    return (a in CTX.nonneg or a.op in IVERSON or a.op in ('len', 'b', 'first', 'pos', 'strm', 'tb')
            or (a.op == 'div' and True) or a.op == 'mod')


def entails(p, depth=4):
    """is p >= 0 implied by the facts?  (sound, incomplete)"""
    key = (p, depth)
    c = CTX.ent
    r = c.get(key)
    if r is None:
        r = _entails(p, depth)
        c[key] = r
    return r


def mono_nonneg(m):
    return all(atom_nonneg(a) or e % 2 == 0 for a, e in m)


def _entails(p, depth):
    if p.op != 'P':
        return False
    c0 = 0
    bad = None
    for c, m in p.args[0]:
        if not m:
            c0 = c
            continue
        if c > 0 and mono_nonneg(m):
            continue
        if c < 0 and all(a.op in IVERSON for a, e in m):
            c0 += c  # -[x] >= -1
            continue
        if bad is None:
            bad = (c, m)
    if bad is None:
        if c0 >= 0:
            return True
        # need a positive lower bound from facts below
    if depth == 0:
        return False
    cands = CTX.facts
    if bad is not None:
        c, m = bad
        for f in cands:
            fd = dict_of(f)
            fc = fd.get(m)
            if fc and (fc < 0) == (c < 0):
                # p - (c/fc) f ; scale p by |fc|
                q = sub(scale(p, abs(fc)), scale(f, abs(c)))
                if entails(q, depth - 1):
                    return True
        return False
    # all monomials fine but the constant is negative: try facts that share a monomial
    ms = {m for c, m in p.args[0] if m}
    for f in cands:
        fd = dict_of(f)
        for m in ms:
            if fd.get(m, 0) > 0:
                pc = dict_of(p)[m]
                q = sub(scale(p, fd[m]), scale(f, pc))
                if entails(q, depth - 1):
                    return True
    return False


def _lead(p):
    """leading (non constant) monomial by a name order that does not depend on ids"""
    ms = [(show_mono(m), c, m) for c, m in p.args[0] if m]
    ms.sort(key=lambda t: t[0])
    return ms[0] if ms else None


def _content(p):
    g = 0
    for c, m in p.args[0]:
        if m:
            g = gcd(g, abs(c))
    return g


def ge0(p):
    """[p >= 0] for an integer polynomial"""
    if p.op != 'P':
        return atom(mk('bool', 'ge0', p))
    c = cval(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    iv = _inf_sign(p)
    if iv:
        return ONE if iv > 0 else ZERO
    g = _content(p)
    if g > 1:
        d = {}
        for cc, m in p.args[0]:
            d[m] = cc // g  # floor for the constant
        p = from_dict(d)
    fx = _first_cmp(p)
    if fx is not None:
        return fx
    if entails(p):
        return ONE
    if entails(sub(const(-1), p)):
        return ZERO
    b = boolval(p)
    if b is not None:
        return b
    if entails(add(p, ONE)):  # p >= -1: [p>=0] = 1 - [p == -1]
        return sub(ONE, eq0(add(p, ONE)))
    if entails(neg(p)):  # p <= 0
        return eq0(p)
    if CTX.facts and _nonlinear(p):
        r = row_ge0(p)
        if r is not None:
            return r
    l = _lead(p)
    if l[1] < 0:
        q = sub(const(-1), p)
        return sub(ONE, atom(mk('ge0', q)))
    return atom(mk('ge0', p))


INFA = mk('sym', 'INF')
INFA_P = None


def _nonlinear(p):
    return any(sum(e for a, e in m) > 1 for c, m in p.args[0])


def divide(p, c):
    """p = c*k + s for some atom x of c of coefficient 1 that s does not mention: (k, s)"""
    for cc, m in c.args[0]:
        if cc != 1 or len(m) != 1 or m[0][1] != 1:
            continue
        x = m[0][0]
        k = {}
        for pc, pm in p.args[0]:
            for i, (a, e) in enumerate(pm):
                if a is x:
                    if e != 1:
                        break
                    k[pm[:i] + pm[i + 1:]] = pc
        if not k:
            continue
        k = from_dict(k)
        s = sub(p, mul(k, c))
        if not any(a is x for _, pm in s.args[0] for a, e in pm):
            return k, s
    return None


def _widths(p):
    """widths of ranges some variable of p runs over, by the facts"""
    vs = [m for c, m in p.args[0] if len(m) == 1 and m[0][1] == 1 and abs(c) == 1]
    out = []
    for f in CTX.facts:
        if f.op != 'P' or is_const(f):
            continue
        fd = dict_of(f)
        for m in vs:
            if fd.get(m, 0) == -1:
                c = add(add(f, ONE), atom(m[0][0]))
                if c not in out and not is_const(c):
                    out.append(c)
    for c, m in p.args[0]:
        if len(m) > 1:
            for a, e in m:
                if atom_nonneg(a) and a.op not in IVERSON and atom(a) not in out:
                    out.append(atom(a))
    return out


def row_ge0(p):
    """[c*k + s >= 0] with 0 <= s < c is [k >= 0]"""
    for c in _widths(p):
        d = divide(p, c)
        if d is None:
            continue
        k, s = d
        for kk, ss in ((k, s), (sub(k, ONE), add(s, c)), (add(k, ONE), sub(s, c))):
            if entails(ss) and entails(sub(sub(c, ss), ONE)):
                return ge0(kk)
    return None


def row_eq0(p):
    """[c*k + s == 0] with -c < s < c is [k == 0]*[s == 0]"""
    for c in _widths(p):
        d = divide(p, c)
        if d is None:
            continue
        k, s = d
        if entails(sub(sub(c, s), ONE)) and entails(sub(add(c, s), ONE)):
            return mul(eq0(k), eq0(s))
    return None


def _inf_sign(p):
    for c, m in p.args[0]:
        if len(m) == 1 and m[0][0] is INFA:
            return c
    return 0


def _first_cmp(p):
    """[n - 1 - first(v<n, q) >= 0] = exists; [first - n >= 0] = not exists"""
    for c, m in p.args[0]:
        if len(m) == 1 and m[0][0].op == 'first' and m[0][1] == 1 and abs(c) == 1:
            f = m[0][0]
            n = to_poly(f.args[0])
            d = sub(p, scale(atom(f), c))
            if c == -1 and d is sub(n, ONE):
                return _first_ex(f)
            if c == 1 and d is neg(n):
                return sub(ONE, _first_ex(f))
    return None


def _first_ex(f):
    vs, (q,) = open_b(f, 1, (f.args[1],))
    set_nonneg(vs[0])
    return exists(vs[0], to_poly(f.args[0]), q)


def boolval(p):
    """[p >= 0] when p is linear in few Iverson atoms only: evaluate the truth table"""
    atoms = []
    for c, m in p.args[0]:
        for a, e in m:
            if a.op not in IVERSON:
                return None
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 4:
        return None
    return _bool_table(p, atoms, lambda v: v >= 0)


def _bool_table(p, atoms, pred):
    r = ZERO
    for vals in itertools.product((0, 1), repeat=len(atoms)):
        env = dict(zip(atoms, vals))
        v = 0
        for c, m in p.args[0]:
            t = c
            for a, e in m:
                t *= env[a]
            v += t
        if pred(v):
            t = ONE
            for a in atoms:
                t = mul(t, atom(a) if env[a] else sub(ONE, atom(a)))
            r = add(r, t)
    return r


def eq0(p, field=False):
    """[p == 0]"""
    if p.op != 'P':
        return atom(mk('bool', 'eq0', p))
    c = cval(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if not field:
        g = _content(p)
        if g > 1:
            c0 = dict_of(p).get((), 0)
            if c0 % g:
                return ZERO
            p = from_dict({m: cc // g for cc, m in p.args[0]})
        if entails(sub(p, ONE)) or entails(sub(const(-1), p)):
            return ZERO
        atoms = []
        ok = True
        for c, m in p.args[0]:
            for a, e in m:
                if a.op not in IVERSON:
                    ok = False
                elif a not in atoms:
                    atoms.append(a)
        if ok and len(atoms) <= 4:
            return _bool_table(p, atoms, lambda v: v == 0)
    if not field:
        if _inf_sign(p):
            return ZERO
        for s_ in (p, neg(p)):
            for c, m in s_.args[0]:
                if c == 1 and len(m) == 1 and m[0][0].op == 'first' and m[0][1] == 1:
                    f = m[0][0]
                    if sub(s_, atom(f)) is neg(to_poly(f.args[0])):
                        return sub(ONE, _first_ex(f))
        if CTX.facts and _nonlinear(p):
            r = row_eq0(p)
            if r is not None:
                return r
    l = _lead(p)
    if l[1] < 0:
        p = neg(p)
    return atom(mk('feq0' if field else 'eq0', p))


def lt(a, b):
    return ge0(sub(sub(b, a), ONE))


def le(a, b):
    return ge0(sub(b, a))


def eq(a, b):
    return eq0(sub(a, b))


def band(a, b):
    return mul(a, b)


def bnot(a):
    return sub(ONE, a)


def bor(a, b):
    return sub(add(a, b), mul(a, b))


def pos(p):
    """max(0, p)"""
    if p.op != 'P':
        return atom(mk('opaque', 'pos', p))
    c = cval(p)
    if c is not None:
        return const(max(0, c))
    if entails(p):
        return p
    if entails(neg(p)):
        return ZERO
    return atom(mk('pos', p))


def ppow(a, k):
    """a to the power k"""
    a, k = to_poly(a), to_poly(k)
    c = cval(k)
    if c is not None and 0 <= c <= 64:
        return power(a, c)
    if cval(a) == 1:
        return ONE
    return atom(mk('pow', node_of(a), k))


def floordiv(p, c):
    if c == 1:
        return p
    if p.op != 'P':
        return atom(mk('opaque', 'div', p))
    q, r = {}, {}
    for cc, m in p.args[0]:
        k = cc // c if m else cc // c
        if m:
            # keep remainder with smallest absolute value only when exact
            if cc % c == 0:
                q[m] = cc // c
            else:
                if cc > c:
                    q[m] = cc // c
                    r[m] = cc - (cc // c) * c
                else:
                    r[m] = cc
        else:
            q[m] = cc // c
            r[m] = cc - (cc // c) * c
    q, r = from_dict(q), from_dict(r)
    if entails(r) and entails(sub(const(c - 1), r)):
        return q
    if is_const(r):
        return q
    return add(q, atom(mk('div', r, c)))


def mod(p, c):
    return sub(p, scale(floordiv(p, c), c))


# ---------------------------------------------------------------- substitution
def subst(n, env):
    """replace fresh variables: env maps uid -> Node (any kind of term)"""
    if not env:
        return n
    return _subst(n, env, {})


def _subst(n, env, memo):
    if not n.free or n.free.isdisjoint(env):
        return n
    key = (n, CTX.fid)       # what is simplified under further facts holds only under them
    r = memo.get(key)
    if r is None:
        r = _rebuild(n, lambda k: _subst(k, env, memo), env)
        memo[key] = r
    return r


def replace(n, x, e):
    """replace every occurrence of node x (an atom) by polynomial e"""
    memo = {}

    def go(k):
        if k is x:
            return as_atom(e) or e
        if not contains(k, x):
            return k
        key = (k, CTX.fid)
        r = memo.get(key)
        if r is None:
            r = _rebuild(k, go, {})
            memo[key] = r
        return r
    return go(n)


def again(n):
    """n simplified afresh under the present facts"""
    memo = {}

    def go(k):
        if not k.args or k.op in ('v', 'b', 'sym'):
            return k
        key = (k, CTX.fid)
        r = memo.get(key)
        if r is None:
            if k.op == 'P':
                r = ZERO
                for c, m in k.args[0]:
                    t = const(c)
                    for a, e in m:
                        b = to_poly(go(a))
                        for _ in range(e):
                            t = mul(t, b)
                    r = add(r, t)
                if len(r.args[0]) > 1:
                    r = _collapse(r)
            else:
                r = _rebuild(k, go, {})
            memo[key] = r
        return r
    return go(n)


BINDERS = {'sum', 'first', 'ex', 'pc', 'iter', 'lastw', 'fb', 'lamb'}


def _map(args, f):
    return tuple(f(a) if isinstance(a, Node) else _map(a, f) if isinstance(a, tuple) else a for a in args)


def _rebuild(n, f, env):
    op = n.op
    if op == 'v':
        return env.get(n.args[0], n)
    if op == 'P':
        r = ZERO
        acc = {}
        for c, m in n.args[0]:
            if all(f(a) is a for a, e in m):
                acc[m] = acc.get(m, 0) + c
                continue
            t = const(c)
            for a, e in m:
                b = to_poly(f(a))
                for _ in range(e):
                    t = mul(t, b)
            r = add(r, t)
        if acc:
            r = add(r, from_dict(acc))
        return _collapse(r) if len(r.args[0]) > 1 else r
    if op in BINDERS:
        return _rebuild_binder(n, f)
    return construct(op, _map(n.args, f))


def to_poly(x):
    if x.op == 'P':
        return x
    if x.op == 'oo' and x.args[1] == ('oth', '?'):
        x = x.args[0]            # a number after all
        if x.op == 'P':
            return x
    return atom(x)


def construct(op, args):
    """smart constructors for nodes whose arguments changed"""
    c = CONS.get(op)
    if c is not None:
        return c(*args)
    return mk(op, *args)


def _cons_sel(a, i):
    r = sel(a, i)
    return r


CONS = {
    'ge0': lambda p: ge0(p),
    'eq0': lambda p: eq0(p),
    'feq0': lambda p: eq0(p, True),
    'pos': lambda p: pos(p),
    'div': lambda p, c: floordiv(p, c),
    'sel': lambda a, i: node_of(sel(a, i)),
    'len': lambda a: node_of(length(a)),
    'fld': lambda r, f: node_of(field(r, f)),
    'arr': lambda ps: mkarr(ps),
    'oa': lambda e, t: e if e.op in ('arr', 'oa') else e.args[0] if e.op == 'oo' else mk('oa', e, t),
    'or': lambda e, t: e if e.op in ('rec', 'or') else mk('or', e, t),
    'oo': lambda e, t: e if e.op not in ('sel', 'fld', 'sym', 'v', 'call', 'mux', 'b', 'opaque', 'iterv', 'last', 'P', 'recv', 'mapat', 'deref', 'elem') else mk('oo', e, t),
    'rec': lambda t, fs: mkrec(t, fs),
    'mux': lambda c, a, b: mux(c, a, b),
    'tb': lambda k, v, j: node_of(tb(k, v, j)),
    'mapat': lambda m, k: mk('mapat', m, k),
    'bool': lambda b, *e: e[0] if len(e) == 1 and e[0].op == 'P' else mk('bool', b, *e),
    'pow': lambda a, b: node_of(ppow(a, b)),
    'recv': lambda *a: mk('recv', *a),
    'bitop': lambda o, a, b: node_of(bitop(o, a, b)),
}


def node_of(v):
    """a node usable as the identity of value v inside other nodes"""
    if v.op == 'P':
        a = as_atom(v)
        return a if a is not None else v
    return v


# ------------------------------------------------ closing and opening binders
def _blevel(k):
    return mk('b', k)


def close(vs, parts, outer=()):
    """bind fresh variables vs (outermost first) in the tuple parts; returns the
    parts with bound variables b(level), levels counted up from the inside."""
    h = 0
    for k in _kids(parts):
        h = max(h, k.h)
    for k in _kids(outer):  # further arguments of the binder node
        h = max(h, k.h)
    n = len(vs)
    env = {}
    for i, v in enumerate(vs):
        env[v.args[0]] = _blevel(h + n - i)
    if all(env.keys().isdisjoint(k.free) for k in _kids(parts)):
        return parts, h + n
    memo = {}

    def go(k):
        if not k.free or k.free.isdisjoint(env):
            return k
        r = memo.get(k)
        if r is None:
            if k.op == 'v':
                r = env.get(k.args[0], k)
            else:
                r = _raw(k, go)
            memo[k] = r
        return r
    return _map(parts, go), h + n


def _raw(k, go):
    """rebuild without simplification (renaming only)"""
    if k.op == 'P':
        d = {}
        for c, m in k.args[0]:
            mm = tuple(sorted(((go(a), e) for a, e in m), key=lambda t: t[0].id))
            d[mm] = d.get(mm, 0) + c
        return from_dict(d)
    r = mk(k.op, *_map(k.args, go))
    if r.h < k.h:
        r.h = k.h
    return r


def bnode(op, level, *args):
    n = mk(op, *args)
    if n.h < level:
        n.h = level
    return n


def open_b(n, nv, parts):
    """inverse of close for binder node n with nv variables of levels n.h, n.h-1, ..
    returns (fresh vars, parts)"""
    vs = [fresh('o') for _ in range(nv)]
    env = {n.h - i: vs[i] for i in range(nv)}
    memo = {}

    def go(k):
        if k.op == 'b':
            return env.get(k.args[0], k)
        if k.h == 0 and not _hasb(k):
            return k
        r = memo.get(k)
        if r is None:
            if not _hasb(k):
                r = k
            else:
                r = _raw(k, go)
            memo[k] = r
        return r
    return vs, _map(parts, go)


_hasb_cache = {}


def _hasb(k):
    r = _hasb_cache.get(k)
    if r is None:
        r = k.op == 'b' or any(_hasb(x) for x in _kids(k.args))
        _hasb_cache[k] = r
    return r


def _rebuild_binder(n, f):
    op = n.op
    if op == 'sum':
        cs, body = n.args
        vs, (cs, body) = open_b(n, len(cs), (cs, body))
        cs = tuple(f(c) for c in cs)
        with assume(_ranges(vs, cs)):
            body = f(body)
        return node_of(sum_multi(vs, cs, body))
    if op == 'pc':
        cs, g, e = n.args
        vs, (cs, g, e) = open_b(n, len(cs), (cs, g, e))
        cs = tuple(f(c) for c in cs)
        with assume(_ranges(vs, cs)):
            g, e = f(g), f(e)
        return ('piece', vs, cs, to_poly(g), e)
    if op in ('first', 'ex'):
        c, q = n.args
        vs, (q,) = open_b(n, 1, (q,))
        c = f(c)
        with assume(_ranges(vs, (c,))):
            q = f(q)
        return node_of(first(vs[0], c, q) if op == 'first' else exists(vs[0], c, q))
    if op == 'lastw':
        c, q, val, init = n.args
        vs, (q, val) = open_b(n, 1, (q, val))
        c = f(c)
        with assume(_ranges(vs, (c,))):
            q, val = f(q), f(val)
        return node_of(lastw(vs[0], c, q, val, f(init)))
    if op == 'fb':
        k, body = n.args
        vs, (body,) = open_b(n, 1, (body,))
        with assume(_ranges(vs, (const(k),))):
            body = f(body)
        return node_of(mkfb(k, vs[0], body))
    if op == 'iter':
        nst, ups, inits, idx, which = n.args
        vs, (ups,) = open_b(n, nst + 1, (ups,))
        ups = tuple(f(u) for u in ups)
        inits = tuple(f(x) for x in inits)
        return mkiter(vs, ups, inits, to_poly(f(idx)), which)
    if op == 'lamb':
        nv, body = n.args
        vs, (body,) = open_b(n, nv, (body,))
        return lamb(vs, f(body))
    raise Exception(op)


def _ranges(vs, cs):
    out = []
    for v, c in zip(vs, cs):
        p = atom(v)
        set_nonneg(v)
        out.append(p)
        c = to_poly(c)
        out.append(sub(sub(c, p), ONE))
        a = as_atom(c)
        if a is not None and a.op == 'pos':
            out.append(sub(sub(to_poly(a.args[0]), p), ONE))
    return out


def lamb(vs, body):
    (body,), lv = close(vs, (body,))
    return bnode('lamb', lv, len(vs), body)


# ---------------------------------------------------------------- sums
def sum_(v, n, body):
    """sum over v in [0, n) of the polynomial body"""
    n = to_poly(n)
    body = to_poly(body)
    if cval(n) == 0:
        return ZERO
    if len(body.args[0]) > 1:
        body = _collapse(body)
    if len(body.args[0]) > 1 and v.args[0] in body.free:
        sp = _delta_split(v, n, body)
        if sp is not None:
            r = ZERO
            for _, vs, cs, _g, e in sp:
                e = to_poly(e)
                r = add(r, to_poly(subst(e, {v.args[0]: ZERO})) if cs[0] is ONE else sum_(v, cs[0], e))
            return r
    r = ZERO
    for c, m in body.args[0]:
        r = add(r, scale(_sum_mono([v], [n], m), c))
    return r


def trim_sums(p):
    """SUM_{j<n} f(j) - f(n-1)  ->  SUM_{j<n-1} f(j)  (n >= 1)"""
    if p.op != 'P':
        return p
    for c, m in p.args[0]:
        for a, k in m:
            if a.op != 'sum' or k != 1 or len(a.args[0]) != 1:
                continue
            vs, (cs, body) = open_b(a, 1, (a.args[0], a.args[1]))
            n = to_poly(cs[0])
            last = sub(n, ONE)
            if cval(n) is not None or not entails(last):
                continue
            rest = from_dict({tuple(t for t in m if t[0] is not a): c})
            t = mul(rest, to_poly(subst(body, {vs[0].args[0]: as_atom(last) or last})))
            d = dict_of(p)
            if t.args[0] and all(d.get(mm) == -cc for cc, mm in t.args[0]):
                set_nonneg(vs[0])
                s = mul(rest, sum_(vs[0], last, to_poly(body)))
                return trim_sums(add(add(sub(p, from_dict({m: c})), t), s))
    return p


def sum_multi(vs, cs, body):
    body = to_poly(body)
    r = body
    for v, c in reversed(list(zip(vs, cs))):
        r = sum_(v, c, r)
    return r


def _prod(atoms):
    r = ONE
    for a, e in atoms:
        for _ in range(e):
            r = mul(r, atom(a))
    return r


def _sum_mono(vs, ns, m):
    """sum over binders (outermost first) of one monomial"""
    u = vs[0].args[0]
    dep = [(a, e) for a, e in m if u in a.free]
    ind = [(a, e) for a, e in m if u not in a.free]
    n = ns[0]
    if not dep:
        return mul(n if entails(n) else pos(n), _prod(ind))
    # open inner sums that depend on the variable
    for a, e in dep:
        if a.op == 'sum' and e == 1:
            cs, body = a.args
            ivs, (cs, body) = open_b(a, len(cs), (cs, body))
            for x in ivs:
                set_nonneg(x)
            rest = _prod([t for t in dep if t[0] is not a])
            with assume(_ranges(ivs, cs)):
                inner = mul(rest, body)
            r = ZERO
            for c, mm in inner.args[0]:
                r = add(r, scale(_sum_flat([vs[0]] + ivs, [n] + [to_poly(c2) for c2 in cs], mm), c))
            return mul(_prod(ind), r)
    return mul(_prod(ind), _sum_flat([vs[0]], [n], tuple(dep)))


def _sum_flat(vs, ns, m):
    """canonical multi-binder sum of a monomial whose factors are not sums
    depending on the binders"""
    # Kronecker delta collapse
    for i, v in enumerate(vs):
        u = v.args[0]
        if any(u in n.free for n in ns[i + 1:]):
            # an inner bound depends on v: only collapse v if substitution is easy (it is)
            pass
        for a, e in m:
            if a.op == 'eq0' and u in a.free:
                s = _solve_var(a.args[0], v)
                if s is None:
                    continue
                rest = [t for t in m if t[0] is not a]
                # s must not contain binders deeper than v
                if any(x.args[0] in s.free for x in vs[i + 1:]):
                    continue
                body = ONE
                env = {u: as_atom(s) or s}
                for b, k in rest:
                    t = to_poly(subst(b, env))
                    for _ in range(k):
                        body = mul(body, t)
                body = mul(body, mul(ge0(s), lt(s, ns[i])))
                vs2 = vs[:i] + vs[i + 1:]
                ns2 = ns[:i] + [to_poly(subst(n, env)) for n in ns[i + 1:]]
                return _sum_again(vs2, ns2, body)
        # deeper solution: equality solvable for a deeper var that contains v is handled when i is that var
    # range restriction: [v <= e] * ... with e independent of v bounds the count
    for i, v in enumerate(vs):
        u = v.args[0]
        for a, e in m:
            if a.op == 'ge0' and u in a.free:
                p = a.args[0]
                cf = dict_of(p).get(((v, 1),))
                if cf in (1, -1):
                    rest = sub(p, scale(atom(v), cf))
                    if u in rest.free or any(x.args[0] in rest.free for x in vs[i + 1:]):
                        continue
                    others = tuple(t for t in m if t[0] is not a)
                    if cf == -1:  # v <= rest
                        cnt = add(rest, ONE)
                        if entails(sub(ns[i], cnt)):
                            return _sum_again(vs, ns[:i] + [cnt if entails(cnt) else pos(cnt)] + ns[i + 1:], _prod(others))
                    else:  # v >= -rest
                        lo = neg(rest)
                        if entails(lo) and entails(sub(ns[i], lo)) and not any(u in n.free for n in ns[i + 1:]):
                            # sum over [lo, n) = shift
                            env = {u: add(atom(v), lo)}
                            body = ONE
                            for b, k in others:
                                t = to_poly(subst(b, env))
                                for _ in range(k):
                                    body = mul(body, t)
                            return _sum_again(vs, ns[:i] + [sub(ns[i], lo)] + ns[i + 1:], body)
    # comprehension fusion: v used only as sel(A, v) with count len(A)
    for i, v in enumerate(vs):
        f = _fuse(v, ns[i], m, vs[i + 1:], ns[i + 1:])
        if f is not None:
            ivs, ics, g, env = f
            body = to_poly(g)
            for a, k in m:
                t = to_poly(env(a))
                for _ in range(k):
                    body = mul(body, t)
            return _sum_again(vs[:i] + ivs + vs[i + 1:], ns[:i] + ics + [to_poly(env(n)) for n in ns[i + 1:]], body)
    # canonical order of independent binders
    body = mk('P', ((1, tuple(sorted(m, key=lambda t: t[0].id))),))
    best = None
    k = len(vs)
    perms = [tuple(range(k))]
    if 1 < k <= 4:
        perms = itertools.permutations(range(k))
    for perm in perms:
        ok = True
        seen = set()
        for j in perm:
            need = {x.args[0] for x in vs} & ns[j].free
            if not need <= seen:
                ok = False
                break
            seen.add(vs[j].args[0])
        if not ok:
            continue
        pv = [vs[j] for j in perm]
        # each binder's count is outside its own scope but inside the previous ones
        parts, lv = close(pv, (tuple(ns[j] for j in perm), body))
        key = (show(parts[1]), tuple(show(x) for x in parts[0]))
        if best is None or key < best[0]:
            best = (key, parts, lv)
    parts, lv = best[1], best[2]
    return atom(bnode('sum', lv, parts[0], parts[1]))


def _sum_again(vs, ns, body):
    r = body
    for v, n in reversed(list(zip(vs, ns))):
        r = sum_(v, n, r)
    return r


def _solve_var(p, v):
    """p == 0 solved for the fresh variable v, if p is linear in it with coefficient +-1"""
    c = dict_of(p).get(((v, 1),))
    if c not in (1, -1):
        return None
    rest = sub(p, scale(atom(v), c))
    if v.args[0] in rest.free:
        return None
    return scale(rest, -c)


def _occurrences(n, v, acc, seen):
    """collect sel(A, v) nodes; return False if v occurs otherwise"""
    if v.args[0] not in n.free:
        return True
    if n in seen:
        return True
    if n.op == 'sel' and as_atom(n.args[1]) is v and v.args[0] not in n.args[0].free:
        acc.add(n.args[0])
        seen.add(n)
        return True
    if n is v:
        return False
    for k in _kids(n.args):
        if not _occurrences(k, v, acc, seen):
            return False
    seen.add(n)
    return True


def _fuse(v, n, m, ivs, ics):
    """if v ranges over len(A) for a guarded comprehension A and is used only to
    read A: return ([binders], [counts], guard, rewriting function)"""
    a = as_atom(n)
    if a is None or a.op != 'len':
        # the length of a fused comprehension may itself be a sum
        cand = set()
        seen = set()
        for x, e in m:
            if not _occurrences(x, v, cand, seen):
                return None
        if len(cand) != 1:
            return None
        A = next(iter(cand))
        if A.op != 'arr' or length(A) is not n:
            return None
    else:
        A = a.args[0]
        if A.op != 'arr':
            return None
        cand = set()
        seen = set()
        for x, e in m:
            if not _occurrences(x, v, cand, seen):
                return None
        if cand - {A}:
            return None
    if any(v.args[0] in c.free for c in ics):
        return None
    if A.op != 'arr' or len(A.args[0]) != 1:
        return None
    pc = A.args[0][0]
    cs, g, el = pc.args
    ovs, (cs, g, el) = open_b(pc, len(cs), (cs, g, el))
    for x in ovs:
        set_nonneg(x)
    target = mk('sel', A, atom(v))

    def env(x):
        memo = {}

        def go(k):
            if v.args[0] not in k.free:
                return k
            if k is target:
                return node_of(el)
            r = memo.get(k)
            if r is None:
                r = _rebuild(k, go, {})
                memo[k] = r
            return r
        return go(x)
    return list(ovs), [to_poly(c) for c in cs], g, env


def exists(v, n, q):
    """[exists v in [0,n): q(v)]"""
    n, q = to_poly(n), to_poly(q)
    if q is ZERO or cval(n) == 0:
        return ZERO
    if v.args[0] not in q.free:
        return mul(ge0(sub(n, ONE)), q)
    # delta
    if len(q.args[0]) == 1 and q.args[0][0][0] == 1:
        m = q.args[0][0][1]
        for a, e in m:
            if a.op == 'eq0' and v.args[0] in a.free:
                s = _solve_var(a.args[0], v)
                if s is not None:
                    env = {v.args[0]: as_atom(s) or s}
                    r = mul(ge0(s), lt(s, n))
                    for b, k in m:
                        if b is not a:
                            r = mul(r, to_poly(subst(b, env)))
                    return r
        ind = [(a, e) for a, e in m if v.args[0] not in a.free]
        dep = [(a, e) for a, e in m if v.args[0] in a.free]
        if ind:
            return mul(_prod(ind), exists(v, n, _prod(dep)))
        if len(dep) == 1 and dep[0][0].op == 'ex':
            # exists i exists j: canonical order when independent
            inner = dep[0][0]
            c2, q2 = inner.args
            ivs, (q2,) = open_b(inner, 1, (q2,))
            if v.args[0] not in c2.free:
                k1 = _ex_raw(v, n, _ex_raw(ivs[0], to_poly(c2), q2))
                k2 = _ex_raw(ivs[0], to_poly(c2), _ex_raw(v, n, q2))
                return min((k1, k2), key=show)
    if n.op == 'P':
        f = _fuse(v, n, ((node_of(q), 1),), [], []) if len(q.args[0]) == 1 else _fuse(v, n, ((q, 1),), [], [])
        if f is not None:
            ivs, ics, g, env = f
            r = mul(to_poly(g), to_poly(env(q)))
            for x, c in reversed(list(zip(ivs, ics))):
                r = exists(x, c, r)
            return r
    return _ex_raw(v, n, q)


def _ex_raw(v, n, q):
    q = to_poly(q)
    (qq,), lv = close([v], (q,), (n,))
    return atom(bnode('ex', lv, n, qq))


def first(v, n, q):
    """smallest v in [0,n) with q(v), or n"""
    n, q = to_poly(n), to_poly(q)
    if q is ZERO:
        return n
    if v.args[0] not in q.free:
        return mul(sub(ONE, q), n)
    if cval(n) == 0:
        return ZERO
    (qq,), lv = close([v], (q,), (n,))
    r = bnode('first', lv, n, qq)
    set_nonneg(r)
    return atom(r)


def lastw(v, n, q, val, init):
    """val at the last v in [0,n) with q(v), or init if there is none"""
    n, q = to_poly(n), to_poly(q)
    if q is ZERO or cval(n) == 0:
        return init
    u = v.args[0]
    # q(v) holds for every v: the last iteration wins
    if q is ONE:
        last = sub(n, ONE)
        c = ge0(last)
        return mux(c, subst(val, {u: as_atom(last) or last}), init)
    if u not in q.free:
        last = sub(n, ONE)
        return mux(mul(q, ge0(last)), subst(val, {u: as_atom(last) or last}), init)
    # q = g * [v == e] (g free of v): a single index
    s = _single_index(q, v, n)
    if s is not None:
        e, g = s
        env = {u: as_atom(e) or e}
        return mux(g, subst(val, env), init)
    if u not in val.free:
        return mux(exists(v, n, q), val, init)
    # q = [v <= e] : last index below e
    (qq, vv), lv = close([v], (q, node_of(val)), (n, node_of(init)))
    nd = bnode('lastw', lv, n, qq, vv, node_of(init))
    return revalue(val, nd)


def revalue(like, nd):
    """give the node nd the same kind of view as the value `like`"""
    if like.op == 'P':
        return atom(nd)
    if like.op == 'arr':
        return mk('oa', nd, elemtype(like))
    if like.op == 'oa':
        return mk('oa', nd, like.args[1])
    if like.op == 'rec':
        return mk('or', nd, like.args[0])
    if like.op == 'or':
        return mk('or', nd, like.args[1])
    if like.op == 'oo':
        return mk('oo', nd, like.args[1])
    return mk('oo', nd, ('oth', '?'))


def _single_index(q, v, n):
    """if q(v) is true for at most one v, return (that index e, condition that it is hit)"""
    u = v.args[0]
    if len(q.args[0]) != 1 or q.args[0][0][0] != 1:
        return None
    m = q.args[0][0][1]
    for a, e in m:
        if a.op == 'eq0' and u in a.free:
            s = _solve_var(a.args[0], v)
            if s is not None:
                env = {u: as_atom(s) or s}
                g = mul(ge0(s), lt(s, n))
                for b, k in m:
                    if b is not a:
                        g = mul(g, to_poly(subst(b, env)))
                return s, g
    # window: [x - k v >= 0][k v + k-1 - x >= 0]   ->  v = x div k
    ges = [a for a, e in m if a.op == 'ge0' and u in a.free]
    for lo in ges:
        k = dict_of(lo.args[0]).get(((v, 1),))
        if not k or k >= 0:
            continue
        k = -k
        x = add(lo.args[0], scale(atom(v), k))
        if u in x.free:
            continue
        want = sub(add(scale(atom(v), k), const(k - 1)), x)
        for hi in ges:
            if hi.args[0] is want:
                e = floordiv(x, k)
                env = {u: as_atom(e) or e}
                g = mul(ge0(x), lt(x, scale(n, k)))
                for b, kk in m:
                    if b is not lo and b is not hi:
                        g = mul(g, to_poly(subst(b, env)))
                return e, g
    # the window may have been canonicalised as ge0(p)*(1-ge0(q)); handled in lastw_poly
    return None


# ---------------------------------------------------------------- sequences
def elemtype(a):
    if a.op == 'oa':
        return a.args[1]
    return ('any',)


def oarr(e, t):
    return mk('oa', e, t)


def piece(vs, cs, g, e):
    return ('piece', list(vs), tuple(to_poly(c) for c in cs), to_poly(g), e)


_etactx = []


def mkarr(pieces):
    """sequence from pieces: Node('pc') or ('piece', vs, counts, guard, elem)"""
    out = []
    for p in pieces:
        if isinstance(p, Node) and p.op in ('oa', 'arr'):
            if p.op == 'arr':
                out.extend(p.args[0])
            else:
                out.extend(_fulls(p))
            continue
        if isinstance(p, tuple):
            q = _close_piece(p)
            if q is None:
                continue
            out.extend(q)
        else:
            out.append(p)
    # merge adjacent single pieces that form a range? (kept simple)
    out = _merge(out)
    if len(out) == 1:
        c = _eta(out[0])
        if c is not None:
            return c
    return mk('arr', tuple(out))


def _merge(ps):
    """<f(k) for k < n> ++ <f(n)>  ->  <f(k) for k < n+1>"""
    out = []
    for p in ps:
        if out:
            q = out[-1]
            m = _merge2(q, p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    return out


def _merge2(a, b):
    if len(a.args[0]) != 1 or len(b.args[0]) != 1:
        return None
    if a.args[1] is not ONE or b.args[1] is not ONE:
        return None
    na, nb = to_poly(a.args[0][0]), to_poly(b.args[0][0])
    if not entails(na) or not entails(nb):
        return None
    va, (ga, ea) = open_b(a, 1, (a.args[1], a.args[2]))
    v = va[0]
    vb, (gb, eb) = open_b(b, 1, (b.args[1], b.args[2]))
    w = vb[0]
    set_nonneg(w)
    set_nonneg(v)
    with assume(_ranges([w], [nb])):
        sh = subst(ea, {v.args[0]: add(atom(w), na)})
    if sh is eb:
        return _close_piece(('piece', [v], (add(na, nb),), ONE, ea))[0]
    # constant-length prefix: <e0> ++ <f(k+1) ...>
    if cval(na) is not None and cval(na) <= 4:
        ok = True
        with assume(_ranges([v], [na])):
            pass
        ext = subst(eb, {w.args[0]: sub(atom(v), na)}) if v.args[0] not in eb.free else None
        if ext is not None:
            for k in range(cval(na)):
                x = subst(ext, {v.args[0]: const(k)})
                y = subst(ea, {v.args[0]: const(k)})
                if x is not y:
                    ok = False
            if ok:
                return _close_piece(('piece', [v], (add(na, nb),), ONE, ext))[0]
    return None


def _fulls(a):
    """eta expansion of an opaque array"""
    v = fresh('e')
    set_nonneg(v)
    return _close_piece(('piece', [v], (length(a),), ONE, sel(a, atom(v))), expand=False) or []


def _full(a):
    r = _fulls(a)
    return r[0] if len(r) == 1 else None


def _delta_split(v, n, e):
    """<e for v < n> where e treats its last (first) index apart: split there"""
    u = v.args[0]
    if u not in e.free or cval(n) == 1:
        return None
    last = sub(n, ONE)
    if not entails(last):
        return None
    seen = set()
    top = e if e.op == 'P' else e.args[0] if e.op == 'mux' else None
    if top is None or top.op != 'P':
        return None
    for _, m in top.args[0]:
        for a, _k in m:
            if a.op != 'eq0' or u not in a.free or a in seen:
                continue
            seen.add(a)
            s = _solve_var(a.args[0], v)
            if s is None or (s is not last and s is not ZERO):
                continue
            e0 = replace(e, a, ZERO)
            e1 = replace(e, a, ONE)
            e1 = subst(e1, {u: as_atom(s) or s})
            if s is last:
                with assume(_ranges([v], [last])):
                    e0 = subst(e0, {})
                return [('piece', [v], (last,), ONE, e0), ('piece', [v], (ONE,), ONE, e1)]
            e0 = subst(e0, {u: add(atom(v), ONE)})
            return [('piece', [v], (ONE,), ONE, e1), ('piece', [v], (last,), ONE, e0)]
    return None


def _close_piece(p, expand=True):
    _, vs, cs, g, e = p
    if g is ZERO:
        return None
    if any(cval(c) == 0 for c in cs):
        return None
    # what the binder's range says need not be tested again
    for v, c in zip(vs, cs):
        if v.args[0] in e.free:
            b = as_atom(lt(atom(v), c))
            if b is not None and b.op == 'ge0' and contains(e, b):
                e = _asval(replace(node_of(e), b, ONE), e)
    if len(vs) == 1 and g is ONE:
        sp = _delta_split(vs[0], cs[0], e)
        if sp is not None:
            return [y for x in sp for y in (_close_piece(x) or [])]
    # fusion: binder over len(A) reading only A
    if expand:
        for i, v in enumerate(vs):
            f = _fuse(v, cs[i], ((node_of(e), 1), (g, 1)) if e.op != 'P' else ((e, 1), (g, 1)), vs[i + 1:], cs[i + 1:])
            if f is not None:
                ivs, ics, g2, env = f
                ncs = list(cs[:i]) + ics + [to_poly(env(c)) for c in cs[i + 1:]]
                return _close_piece(('piece', vs[:i] + ivs + vs[i + 1:], tuple(ncs), mul(g2, to_poly(env(g))), _asval(env(node_of(e)), e)))
    # a unit binder: count 1
    for i, c in enumerate(cs):
        if cval(c) == 1 and len(cs) > 1:
            env = {vs[i].args[0]: ZERO}
            return _close_piece(('piece', vs[:i] + vs[i + 1:], tuple(to_poly(subst(x, env)) for j, x in enumerate(cs) if j != i),
                                 to_poly(subst(g, env)), subst(e, env)))
    if len(cs) == 1 and cval(cs[0]) == 1:
        env = {vs[0].args[0]: ZERO}
        g, e = to_poly(subst(g, env)), subst(e, env)
    if len(cs) == 1 and g is not ONE and vs[0].args[0] not in g.free and cval(cs[0]) != 1:
        return _close_piece(('piece', vs, (mul(g, cs[0]),), ONE, e))
    # guard that bounds the only binder
    if len(cs) == 1 and g is not ONE and len(g.args[0]) == 1 and g.args[0][0][0] == 1:
        v, n = vs[0], cs[0]
        u = v.args[0]
        m = g.args[0][0][1]
        ind = [(a, k) for a, k in m if u not in a.free]
        dep = [(a, k) for a, k in m if u in a.free]
        if len(dep) == 1 and dep[0][0].op == 'eq0' and cval(n) != 1:
            s = _solve_var(dep[0][0].args[0], v)
            if s is not None:
                env = {u: as_atom(s) or s}
                g2 = mul(_prod(ind), mul(ge0(s), lt(s, n)))
                return _close_piece(('piece', [v], (ONE,), g2, subst(e, env)))
        if not dep and cval(n) != 1:
            # whole piece guarded: <e for v < n if c> = <e for v < c*n>
            return _close_piece(('piece', vs, (mul(g, n),), ONE, e))
    if len(cs) == 1 and g is not ONE and not (g.free & vs[0].free) and cval(cs[0]) == 1:
        # <e> if g   ==  <e for v < g>
        return _close_piece(('piece', vs, (g,), ONE, e))
    parts, lv = close(vs, (tuple(cs), g, e))
    return [bnode('pc', lv, *parts)]


def _asval(n, like):
    if like.op == 'P':
        return to_poly(n)
    return n


def _eta(pc):
    cs, g, e = pc.args
    if len(cs) != 1 or g is not ONE:
        return None
    n = cs[0]
    a = as_atom(n)
    if a is not None and a.op == 'len':
        A = a.args[0]
        x = e
        if x.op == 'P':
            x = as_atom(x)
            if x is None:
                return None
        elif x.op in ('oa', 'or', 'oo'):
            x = x.args[0]
        if x is not None and x.op == 'sel' and x.args[0] is A:
            i = as_atom(x.args[1])
            if i is not None and i.op == 'b' and i.args[0] == pc.h:
                return A
    return None


def comp(v, n, e):
    return mkarr([piece([v], [n], ONE, e)])


LENRULES = []


def length(a):
    if a.op == 'oa':
        x = a.args[0]
        for rule in LENRULES:
            r = rule(x)
            if r is not None:
                return r
        if a.args[0].op == 'lastw' or a.args[0].op == 'mux':
            pass
        return atom(mk('len', a))
    if a.op != 'arr':
        return atom(mk('len', a))
    r = ZERO
    for pc in a.args[0]:
        cs, g, e = pc.args
        if len(cs) == 1 and g is ONE:
            r = add(r, to_poly(cs[0]))
        else:
            vs, (cs, g) = open_b(pc, len(cs), (cs, g))
            for x in vs:
                set_nonneg(x)
            r = add(r, sum_multi(vs, [to_poly(c) for c in cs], g))
    return r


def view(t, nd):
    """value of type t identified by node nd"""
    k = t[0]
    if k in ('int', 'bool', 'fld', 'enum'):
        if k == 'int' and len(t) > 2 and t[2]:
            set_nonneg(nd)
        if k == 'bool' and nd.op not in IVERSON:
            nd = mk('bool', 'b', nd)
        return atom(nd)
    if k == 'vec':
        return mk('oa', nd, t[1])
    if k == 'rec':
        return mk('or', nd, t[1])
    return mk('oo', nd, t)


def sel(a, i):
    """element i of sequence a"""
    if a.op == 'oa':
        i = to_poly(i)
        inner = a.args[0]
        return view(a.args[1], mk('sel', a, i))
    if a.op == 'arr':
        i = to_poly(i)
        off = ZERO
        ps = a.args[0]
        # unguarded single-binder prefix
        conds = []
        for k, pc in enumerate(ps):
            cs, g, e = pc.args
            if len(cs) != 1 or g is not ONE:
                # constant inner length: index arithmetic
                if len(cs) == 2 and g is ONE and cval(to_poly(cs[1])) is not None:
                    c = cval(to_poly(cs[1]))
                    rel = sub(i, off)
                    n = scale(to_poly(cs[0]), c)
                    if k + 1 == len(ps) or entails(sub(sub(n, rel), ONE)):
                        vs, (e,) = open_b(pc, 2, (e,))
                        q = floordiv(rel, c)
                        v = subst(e, {vs[0].args[0]: as_atom(q) or q, vs[1].args[0]: node_of(sub(rel, scale(q, c)))})
                        return _muxchain(conds, v)
                v = mk('sel', a, i)
                return _muxchain(conds, view(etype_of(e), v))
            n = to_poly(cs[0])
            rel = sub(i, off)
            vs, (e,) = open_b(pc, 1, (e,))
            if k + 1 == len(ps):
                return _muxchain(conds, subst(e, {vs[0].args[0]: as_atom(rel) or rel}))
            c = lt(rel, n)
            if c is ONE:
                return _muxchain(conds, subst(e, {vs[0].args[0]: as_atom(rel) or rel}))
            if c is not ZERO:
                conds.append((c, subst(e, {vs[0].args[0]: as_atom(rel) or rel})))
            off = add(off, n)
        return _muxchain(conds, mk('oo', mk('opaque', 'oob', a, i), ('any',)))
    if a.op == 'mux':
        return mux(a.args[0], sel(a.args[1], i), sel(a.args[2], i))
    return mk('oo', mk('sel', a, to_poly(i)), ('any',))


def _muxchain(conds, last):
    r = last
    for c, v in reversed(conds):
        r = mux(c, v, r)
    return r


def etype_of(e):
    if e.op == 'P':
        return ('int',)
    if e.op == 'oa':
        return ('vec', e.args[1])
    if e.op == 'arr':
        return ('vec', etype_of(e.args[0][0].args[2]) if e.args[0] else ('any',))
    if e.op == 'rec':
        return ('rec', e.args[0])
    if e.op == 'or':
        return ('rec', e.args[1])
    if e.op == 'oo':
        return e.args[1]
    return ('oth', '?')


def naming(v):
    """the node that names an otherwise unknown value"""
    if v.op == 'P':
        a = as_atom(v)
        if a is not None and a.op == 'bool' and a.args[0] == 'b':
            return a.args[1]
        return a
    if v.op in ('oa', 'or', 'oo'):
        return v.args[0]
    return None


def store(a, i, val):
    """a with element i replaced"""
    i = to_poly(i)
    if a.op not in ('oa', 'arr', 'mux'):
        return mk('oo', mk('opaque', 'store', a, i, val), ('any',))
    v = fresh('s')
    set_nonneg(v)
    n = length(a)
    if cval(n) == 1 and cval(i) == 0:
        return comp(v, n, val)
    with assume(_ranges([v], [n])):
        old = sel(a, atom(v))
        cur = naming(sel(a, i))
        if cur is not None and cur.op == 'sel' and not is_const(i):
            o = naming(old)
            val = replace(val, cur, o if o is not None else old)
        e = mux(eq(atom(v), i), val, old)
    return comp(v, n, e)


def slice_(a, lo, n):
    v = fresh('s')
    set_nonneg(v)
    with assume(_ranges([v], [n])):
        e = sel(a, add(atom(v), lo))
    return comp(v, n, e)


def cat(a, b):
    return mkarr([a, b])


# ---------------------------------------------------------------- records
REC_FIELDS = {}  # type name -> [(field, type)]


def mkrec(t, fs):
    """fs: tuple of (name, value)"""
    # eta
    src = None
    for f, v in fs:
        x = v
        if x.op == 'P':
            x = as_atom(x)
        elif x.op in ('oa', 'or', 'oo'):
            x = x.args[0]
        if x is not None and x.op == 'bool' and x.args[0] == 'b':
            x = x.args[1]
        if x is None or not isinstance(x, Node) or x.op != 'fld' or x.args[1] != f:
            src = None
            break
        if src is None:
            src = x.args[0]
        elif src is not x.args[0]:
            src = None
            break
    if src is not None and fs and src.op == 'or' and src.args[1] == t:
        return src
    return mk('rec', t, tuple(fs))


def field(r, f):
    if r.op == 'rec':
        for n, v in r.args[1]:
            if n == f:
                return v
        return mk('oo', mk('opaque', 'nofield', r, f), ('any',))
    if r.op == 'or':
        for n, t in REC_FIELDS.get(r.args[1], ()):
            if n == f:
                return view(t, mk('fld', r, f))
        return mk('oo', mk('fld', r, f), ('any',))
    if r.op == 'mux':
        return mux(r.args[0], field(r.args[1], f), field(r.args[2], f))
    return mk('oo', mk('fld', r, f), ('any',))


def setfield(r, f, v):
    if r.op == 'rec':
        return mkrec(r.args[0], tuple((n, v if n == f else x) for n, x in r.args[1]))
    if r.op == 'or':
        t = r.args[1]
        fs = REC_FIELDS.get(t)
        if fs:
            return mkrec(t, tuple((n, v if n == f else field(r, n)) for n, _ in fs))
    return mk('oo', mk('opaque', 'setfield', r, f, v), ('any',))


# ---------------------------------------------------------------- conditionals
def mux(c, a, b):
    """c ? a : b on any kind of values; c a 0/1 polynomial"""
    c = to_poly(c)
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a.op == 'P' and b.op == 'P':
        return add(b, mul(c, sub(a, b)))
    if a.op in ('rec', 'or') and b.op in ('rec', 'or'):
        ta = a.args[0] if a.op == 'rec' else a.args[1]
        tb_ = b.args[0] if b.op == 'rec' else b.args[1]
        if ta == tb_ and (a.op == 'rec' or b.op == 'rec' or REC_FIELDS.get(ta)):
            names = [n for n, _ in (a.args[1] if a.op == 'rec' else b.args[1] if b.op == 'rec' else REC_FIELDS[ta])]
            return mkrec(ta, tuple((n, mux(c, field(a, n), field(b, n))) for n in names))
    if a.op in ('arr', 'oa') and b.op in ('arr', 'oa'):
        m = _mux_prefix(c, a, b)
        if m is not None:
            return m
        if _plain(a) and _plain(b):
            na, nb = length(a), length(b)
            v = fresh('m')
            set_nonneg(v)
            n = mux(c, na, nb)
            if a.op == 'arr' and not a.args[0]:
                return _guarded(b, bnot(c))
            if b.op == 'arr' and not b.args[0]:
                return _guarded(a, c)
            with assume(_ranges([v], [n])):
                e = mux(c, sel(a, atom(v)), sel(b, atom(v)))
            return comp(v, n, e)
        if a.op == 'arr' and not a.args[0]:
            return _guarded(b, bnot(c))
        if b.op == 'arr' and not b.args[0]:
            return _guarded(a, c)
        return mkarr(list(_pieces(_guarded(a, c))) + list(_pieces(_guarded(b, bnot(c)))))
    if a.op == 'ptr' and b.op == 'ptr' and a.args[0] is b.args[0] and a.args[2:] == b.args[2:]:
        return mk('ptr', a.args[0], mux(c, a.args[1], b.args[1]), *a.args[2:])
    if a.op == 'mux' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'mux' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # canonical polarity for opaque mux
    l = _lead(c)
    if l is not None and l[1] < 0:
        return mk('mux', bnot(c), b, a)
    return mk('mux', c, a, b)


def _plain(a):
    """random access is cheap: opaque, or unguarded single-binder pieces"""
    if a.op == 'oa':
        return True
    return all(len(p.args[0]) == 1 and p.args[1] is ONE for p in a.args[0]) and len(a.args[0]) <= 2


def _pieces(a):
    return a.args[0] if a.op == 'arr' else tuple(_fulls(a))


def _mux_prefix(c, a, b):
    """common prefix: c ? X++Y : X++Z = X ++ (c?Y:Z)"""
    pa, pb = list(_pieces(a)), list(_pieces(b))
    k = 0
    while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
        k += 1
    if k == 0:
        return None
    if k == len(pa) or k == len(pb):
        ra, rb = mk('arr', tuple(pa[k:])), mk('arr', tuple(pb[k:]))
        return mkarr(pa[:k] + list(_pieces(_guarded(ra, c))) + list(_pieces(_guarded(rb, bnot(c)))))
    ra, rb = mkarr(pa[k:]), mkarr(pb[k:])
    return mkarr(pa[:k] + list(_pieces(mux(c, ra, rb))))


def _guarded(a, c):
    out = []
    for pc in _pieces(a):
        cs, g, e = pc.args
        vs, (cs, g, e) = open_b(pc, len(cs), (cs, g, e))
        for x in vs:
            set_nonneg(x)
        out.append(('piece', vs, tuple(to_poly(x) for x in cs), mul(to_poly(g), c), e))
    return mkarr(out)


# ---------------------------------------------------------------- bytes
def tb(k, v, j):
    """byte j of the k-byte little-endian image of v"""
    j = to_poly(j)
    a = as_atom(v) if v.op == 'P' else None
    if a is not None and a.op == 'fb' and a.args[0] == k:
        vs, (body,) = open_b(a, 1, (a.args[1],))
        return to_poly(subst(body, {vs[0].args[0]: as_atom(j) or j}))
    if v.op == 'P' and cval(v) == 0:
        return ZERO
    return atom(mk('tb', k, node_of(v), j))


def mkfb(k, v, body):
    """value whose byte v is body(v), v < k"""
    body = to_poly(body)
    a = as_atom(body)
    if a is not None and a.op == 'tb' and a.args[0] == k and as_atom(a.args[2]) is v and v.args[0] not in a.args[1].free:
        return to_poly(a.args[1])
    if body is ZERO:
        return ZERO
    (bb,), lv = close([v], (body,))
    return atom(bnode('fb', lv, k, bb))


def bitop(o, a, b):
    ca, cb = cval(to_poly(a)), cval(to_poly(b))
    if ca is not None and cb is not None and ca >= 0 and cb >= 0:
        return const({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}.get(o, 0)) if o in '&|^' else atom(mk('bitop', o, a, b))
    if o in '&|^':
        if show(a) > show(b):
            a, b = b, a
    return atom(mk('bitop', o, a, b))


# ---------------------------------------------------------------- iterates
def mkiter(vs, ups, inits, idx, which):
    """component `which` of the idx-th iterate of the step function
    (vs[:-1] -> ups, with vs[-1] the iteration number) from inits"""
    if cval(idx) == 0:
        return inits[which]
    outer = (tuple(node_of(x) for x in inits), idx)
    (ups2,), lv = close(list(vs), (ups,), outer)
    nd = bnode('iter', lv, len(vs) - 1, ups2, outer[0], idx, which)
    return revalue(inits[which], nd)


# ---------------------------------------------------------------- printing
def show_mono(m):
    return '*'.join(sorted((show(a) + ('^%d' % e if e > 1 else '')) for a, e in m))


def show(n, depth=0):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x) for x in n) + ')'
        return str(n)
    if n._s is None:
        s = _show(n)
        if len(s) > MAXSHOW[0]:  # names only have to be canonical, not readable
            s = '%s..%s' % (n.op, hashlib.sha1(s.encode()).hexdigest()[:20])
        n._s = s
    return n._s


MAXSHOW = [int(os.environ.get('MAXSHOW', '1500'))]


def _show(n):
    op, a = n.op, n.args
    if op == 'P':
        if not a[0]:
            return '0'
        ts = []
        for c, m in a[0]:
            s = show_mono(m)
            ts.append((s, c))
        ts.sort()
        out = ''
        for s, c in ts:
            t = s if s else str(abs(c))
            if s and abs(c) != 1:
                t = '%d*%s' % (abs(c), s)
            out += (' - ' if c < 0 else ' + ' if out else '') + t
        return out.strip() if len(ts) == 1 else '(' + out.strip() + ')'
    if op == 'v':
        return '%s%d' % (a[1], a[0])
    if op == 'b':
        return '$%d' % a[0]
    if op == 'sym':
        return str(a[0])
    if op == 'ge0':
        return '[%s>=0]' % show(a[0])
    if op in ('eq0', 'feq0'):
        return '[%s==0]' % show(a[0])
    if op == 'sel':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'len':
        return '#%s' % show(a[0])
    if op == 'fld':
        return '%s.%s' % (show(a[0]), a[1])
    if op in ('oa', 'or', 'oo'):
        return show(a[0])
    if op == 'sum':
        k = len(a[0])
        return 'SUM{%s}(%s)' % (','.join('$%d<%s' % (n.h - i, show(c)) for i, c in enumerate(a[0])), show(a[1]))
    if op == 'pc':
        return '%s for %s%s' % (show(a[2]), ','.join('$%d<%s' % (n.h - i, show(c)) for i, c in enumerate(a[0])), '' if a[1] is ONE else ' if ' + show(a[1]))
    if op == 'arr':
        return '<' + ' ++ '.join(show(x) for x in a[0]) + '>'
    if op == 'rec':
        return '%s{%s}' % (a[0].split('::')[-1], ', '.join('%s=%s' % (f, show(v)) for f, v in a[1]))
    if op in ('first', 'ex'):
        return '%s{$%d<%s}(%s)' % ('FIRST' if op == 'first' else 'EX', n.h, show(a[0]), show(a[1]))
    if op == 'lastw':
        return 'LAST{$%d<%s | %s}(%s else %s)' % (n.h, show(a[0]), show(a[1]), show(a[2]), show(a[3]))
    if op == 'iter':
        return 'ITER%d{%s; init=%s; at=%s}' % (a[4], show(a[1]), show(a[2]), show(a[3]))
    return '%s(%s)' % (op, ','.join(show(x) for x in a))


def size(n, seen=None):
    seen = set() if seen is None else seen
    if n in seen:
        return 0
    seen.add(n)
    return 1 + sum(size(k, seen) for k in _kids(n.args))


def opaques(n):
    """reasons of opaque subterms"""
    out, seen = set(), set()

    def go(k):
        if k in seen or not k.opq:
            return
        seen.add(k)
        if k.op == 'opaque':
            out.add(str(k.args[0]))
        for x in _kids(k.args):
            go(x)
    go(n)
    return out
