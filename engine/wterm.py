"""Machine words as hash-consed closed expressions.

The normal form of an integer is a polynomial with integer coefficients over
indivisible parts: inputs, truncated quotients floor(x/m), bitwise combinations
and uninterpreted operations. Modular reduction introduces quotients, so that
cutting a word into slices and putting it together again cancels. Every part
has bounds; linear facts known at a program point tighten them."""

_tab = {}
_uid = [0]


class N:
    __slots__ = ('op', 'a', 'u', 'b')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.b = None
        _uid[0] += 1
        n.u = _uid[0]
        _tab[k] = n
    return n


# a polynomial: op 'P', a = tuple of (monomial, coefficient), monomial = tuple of (part, exponent) sorted by uid
def poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: tuple((p.u, e) for p, e in x[0])))
    return mk('P', items)


def C(v):
    v = int(v)
    return mk('P', (((), v),)) if v else mk('P', ())


ZERO = C(0)
ONE = C(1)


def part(n):
    """a non-polynomial node as a polynomial"""
    return n if n.op == 'P' else mk('P', ((((n, 1),), 1),))


def cv(n):
    """constant value or None"""
    if n.op != 'P':
        return None
    if not n.a[0]:
        return 0
    if len(n.a[0]) == 1 and n.a[0][0][0] == ():
        return n.a[0][0][1]
    return None


def items(n):
    return part(n).a[0]


def add(x, y, k=1):
    """x + k*y"""
    a, b = items(x), items(y)
    if not b:
        return part(x)
    if not a and k == 1:
        return part(y)
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return poly(d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if k == 1:
        return part(x)
    return poly({m: c * k for m, c in items(x)})


def addc(x, k):
    return add(x, C(k))


def mul(x, y):
    a, b = items(x), items(y)
    if len(a) == 1 and a[0][0] == ():
        return scale(y, a[0][1])
    if len(b) == 1 and b[0][0] == ():
        return scale(x, b[0][1])
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            e = dict(m1)
            for p, k in m2:
                e[p] = e.get(p, 0) + k
            m = tuple(sorted(e.items(), key=lambda t: t[0].u))
            d[m] = d.get(m, 0) + c1 * c2
    return poly(d)


def atom(name, lo=None, hi=None):
    return part(mk('A', name, lo, hi))


def app(name, args, lo=None, hi=None):
    return part(mk('F', name, tuple(args), lo, hi))


_qidx = {}      # part -> quotients whose dividend contains it (or which are it), in order of creation


def forget():
    _qidx.clear()


def quots(parts):
    seen = {}
    for p in parts:
        for q in _qidx.get(p, ()):
            seen[q] = 1
    return list(seen)


def only(x):
    """the part that x is, when x is one part with coefficient 1"""
    i = items(x)
    if len(i) == 1 and i[0][1] == 1 and len(i[0][0]) == 1 and i[0][0][0][1] == 1:
        return i[0][0][0][0]
    return None


from fractions import Fraction
from math import gcd


class Ctx:
    """bounds under the linear facts (forms known to be >= 0) of a program point"""

    def __init__(self):
        self.facts = []
        self.eqs = []
        self.nes = []
        self.memo = {}
        self.prov = {}
        self.deep = 0

    def hint(self, x, lo, hi):
        """x is known to lie in [lo, hi] from how it was computed"""
        o = self.prov.get(x)
        if o is not None:
            lo = o[0] if lo is None else lo if o[0] is None else max(lo, o[0])
            hi = o[1] if hi is None else hi if o[1] is None else min(hi, o[1])
        if (lo, hi) != o and (lo is not None or hi is not None):
            self.prov[x] = (lo, hi)
            self.memo.pop(('b', x), None)
        return x

    def assume(self, f):
        if f not in self.facts:
            self.facts.append(f)
            self.memo = {}

    # -- bounds -----------------------------------------------------------
    def pb(self, p):
        """bounds of a part"""
        r = self.memo.get(p)
        if r is not None:
            return r
        op = p.op
        if op == 'A':
            lo, hi = p.a[1], p.a[2]
        elif op == 'F':
            lo, hi = p.a[2], p.a[3]
        elif op == 'Q':
            l, h = self.bounds(p.a[0])
            m = p.a[1]
            lo = None if l is None else l // m
            hi = None if h is None else h // m
        elif op in ('and', 'or', 'xor'):
            bs = [self.bounds(x) for x in p.a[0]]
            lo, hi = 0, None
            if all(b[1] is not None for b in bs):
                if op == 'and':
                    hi = min(b[1] for b in bs)
                else:
                    hi = (1 << max(b[1] for b in bs).bit_length()) - 1
        elif op in ('ge0', 'eq0'):
            lo, hi = 0, 1
        else:
            lo = hi = None
        if self.facts and op != 'P':
            # x + c >= 0 and c - x >= 0
            for f in self.facts:
                it = f.a[0]
                if len(it) <= 2 and any(m == ((p, 1),) for m, _ in it):
                    k = [c for m, c in it if m == ((p, 1),)][0]
                    rest = [c for m, c in it if m == ()]
                    if len(it) == 1 + len(rest):
                        c = rest[0] if rest else 0
                        if k > 0:
                            v = -(c // k)          # k x + c >= 0  ->  x >= ceil(-c/k)
                            lo = v if lo is None else max(lo, v)
                        else:
                            v = c // (-k)
                            hi = v if hi is None else min(hi, v)
        self.memo[p] = (lo, hi)
        return lo, hi

    def naive(self, x):
        lo = hi = 0
        for m, c in items(x):
            l, h = 1, 1
            for p, e in m:
                pl, ph = self.pb(p)
                for _ in range(e):
                    if e == 2 and pl is not None and ph is not None and (pl < 0 < ph):
                        pass
                    cands = []
                    if pl is not None and pl >= 0 and l is not None and l >= 0:
                        l, h = l * pl, (None if h is None or ph is None else h * ph)
                        continue
                    if None in (l, h, pl, ph):
                        l = h = None
                        continue
                    cands = [l * pl, l * ph, h * pl, h * ph]
                    l, h = min(cands), max(cands)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi

    def bounds(self, x):
        x = part(x)
        k = ('b', x)
        r = self.memo.get(k)
        if r is not None:
            return r
        lo, hi = self.naive(x)
        if x in self.prov:
            l, h = self.prov[x]
            lo = l if lo is None else lo if l is None else max(lo, l)
            hi = h if hi is None else hi if h is None else min(hi, h)
        self.memo[k] = (lo, hi)
        it = x.a[0]
        if len(it) >= 1 and cv(x) is None:
            parts = {p for m, _ in it for p, _ in m}
            if any(p.op == 'Q' for p in parts):
                l, h = self.remainders(x)
                if l is not None:
                    lo = l if lo is None else max(lo, l)
                if h is not None:
                    hi = h if hi is None else min(hi, h)
            for f in self.facts:
                if not ({p for m, _ in f.a[0] for p, _ in m} & parts):
                    continue
                for kk in self.ratios(x, f):
                    l, h = self.naive(add(x, f, -kk))
                    if kk > 0 and l is not None:
                        lo = l if lo is None else max(lo, l)
                    if kk < 0 and h is not None:
                        hi = h if hi is None else min(hi, h)
        self.memo[k] = (lo, hi)
        return lo, hi

    def remainders(self, x):
        """bounds with quotients written as (dividend - remainder) / divisor"""
        d = {m: Fraction(c) for m, c in x.a[0]}
        el = eh = Fraction(0)
        best = [None, None]
        done = set()
        for _ in range(8):
            cand = []
            for m in d:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'Q' and m[0][0] not in done:
                    q = m[0][0]
                    c = -d[m] / q.a[1]
                    n = dict(d)
                    del n[m]
                    for mm, cc in q.a[0].a[0]:
                        v = n.get(mm, 0) - c * cc
                        if v:
                            n[mm] = v
                        else:
                            n.pop(mm, None)
                    cand.append((len(n), -q.a[1], q, c, n))
            if not cand:
                break
            k, _, q, c, n = min(cand, key=lambda t: t[:2])
            if k > len(d) + 4:
                break
            done.add(q)
            d = n
            zl, zh = self.bounds(q.a[0])
            rh = q.a[1] - 1
            if zl is not None and zl >= 0 and zh is not None:
                rh = min(rh, zh)
            if c > 0:
                eh += c * rh
            else:
                el += c * rh
            den = 1
            for v in d.values():
                den = den * v.denominator // gcd(den, v.denominator)
            l, h = self.naive(poly({m: int(v * den) for m, v in d.items()}))
            if l is not None:
                v = Fraction(l, den) + el
                v = -((-v.numerator) // v.denominator)
                best[0] = v if best[0] is None else max(best[0], v)
            if h is not None:
                v = Fraction(h, den) + eh
                v = v.numerator // v.denominator
                best[1] = v if best[1] is None else min(best[1], v)
        return best

    def ratios(self, x, f):
        fd = dict(f.a[0])
        out = set()
        for m, c in x.a[0]:
            if m != () and m in fd and c % fd[m] == 0:
                out.add(c // fd[m])
        return out

    def nonneg(self, x, depth=2):
        """x >= 0 follows"""
        x = part(x)
        lo, _ = self.bounds(x)
        if lo is not None and lo >= 0:
            return True
        if depth:
            parts = {p for m, _ in x.a[0] for p, _ in m}
            for f in self.facts:
                if {p for m, _ in f.a[0] for p, _ in m} & parts:
                    for k in self.ratios(x, f):
                        if k > 0:
                            y = add(x, f, -k)
                            if len(y.a[0]) <= len(x.a[0]) + 1 and self.nonneg(y, depth - 1):
                                return True
        return False

    def truth(self, c):
        """True, False or None for a 0/1 condition node"""
        v = cv(c)
        if v is not None:
            return v != 0
        p = only(c)
        if p is None or p.op not in ('ge0', 'eq0'):
            # 1 - condition
            q = only(sub(ONE, c))
            if q is not None and q.op in ('ge0', 'eq0'):
                t = self.truth(part(q))
                return None if t is None else not t
            lo, hi = self.bounds(c)
            if lo is not None and lo > 0:
                return True
            if (lo, hi) == (0, 0):
                return False
            return None
        x = p.a[0]
        if p.op == 'ge0':
            if self.nonneg(x):
                return True
            if self.nonneg(sub(C(-1), x)):
                return False
            return None
        if x in self.eqs:
            return True
        if x in self.nes:
            return False
        if self.nonneg(addc(x, -1)) or self.nonneg(sub(C(-1), x)):
            return False
        if self.nonneg(x) and self.nonneg(scale(x, -1)):
            return True
        return None

    def learn(self, c, v):
        """the condition c is known to have truth value v"""
        p = only(c)
        if p is None:
            q = only(sub(ONE, c))
            if q is not None and q.op in ('ge0', 'eq0'):
                return self.learn(part(q), not v)
            lo, hi = self.bounds(c)
            return self.learn(eq0(c), not v)
        if p.op == 'ge0':
            x = p.a[0]
            self.assume(x if v else sub(C(-1), x))
            for y in list(self.nes):
                self.sharpen(y)
        elif p.op == 'eq0':
            x = p.a[0]
            if v:
                self.eqs.append(x)
                self.assume(x)
                self.assume(scale(x, -1))
            else:
                self.nes.append(x)
                self.memo = {}
                self.sharpen(x)
        else:
            self.learn(eq0(c), not v)

    def sharpen(self, x):
        if self.nonneg(x):
            self.assume(addc(x, -1))
        elif self.nonneg(scale(x, -1)):
            self.assume(sub(C(-1), x))

    # -- operations whose normal form depends on bounds ----------------------
    def quo(self, x, m):
        """floor(x / m)"""
        r = self.quo1(x, m)
        if len(r.a[0]) > 1:
            l, h = self.bounds(x)
            self.hint(r, None if l is None else l // m, None if h is None else h // m)
        return r

    def quo1(self, x, m):
        if m == 1:
            return part(x)
        x = part(x)
        v = cv(x)
        if v is not None:
            return C(v // m)
        g = m
        for _, c in x.a[0]:
            g = gcd(g, c)
        if g > 1:
            x = poly({k: c // g for k, c in x.a[0]})
            return self.quo(x, m // g)
        q = {k: c // m for k, c in x.a[0] if c % m == 0}
        if q:
            r = poly({k: c for k, c in x.a[0] if c % m})
            return add(poly(q), self.quo(r, m))
        lo, hi = self.bounds(x)
        if lo is not None and hi is not None and lo // m == hi // m:
            return C(lo // m)
        xd = dict(x.a[0])
        self.deep += 1
        try:
            if self.deep < 12:
                for mm, c in x.a[0]:
                    if c == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == 'Q':
                        # floor((w + floor(z/a)) / m) = floor((a w + z) / (a m))
                        q = mm[0][0]
                        return self.quo(add(scale(sub(x, part(q)), q.a[1]), q.a[0]), q.a[1] * m)
            return self.quo2(x, m, xd)
        finally:
            self.deep -= 1

    def quo2(self, x, m, xd):
        for qn in quots({p for m_, _ in x.a[0] for p, _ in m_}):
            j = qn.a[1]
            if j < 2 or j > m or m % j:
                continue
            lowp = add(qn.a[0], part(qn), -j)
            d = sub(x, lowp)
            if self.deep >= 12 or ((qn, 1),) not in xd:
                continue
            if all(c % j == 0 for _, c in d.a[0]) and len(d.a[0]) <= len(x.a[0]) + 1 and d is not x:
                return self.quo(poly({k: c // j for k, c in d.a[0]}), m // j)
        # a constant in front: keep the remainder small
        n = mk('Q', x, m)
        for p in {p for m_, _ in x.a[0] for p, _ in m_} | {n}:
            l = _qidx.setdefault(p, [])
            if n not in l:
                l.append(n)
        return part(n)

    def rem(self, x, m):
        r = add(x, self.quo(x, m), -m)
        if cv(r) is None:
            self.hint(r, 0, m - 1)
        return r

    def plus(self, x, y, k=1):
        r = add(x, y, k)
        if len(r.a[0]) > 1:
            (a, b), (c, d) = self.bounds(x), self.bounds(y)
            if k < 0:
                c, d = d, c
            self.hint(r, None if a is None or c is None else a + k * c, None if b is None or d is None else b + k * d)
        return r

    def times(self, x, y):
        r = mul(x, y)
        if len(r.a[0]) > 1:
            (a, b), (c, d) = self.bounds(x), self.bounds(y)
            if a is not None and c is not None and a >= 0 and c >= 0:
                self.hint(r, a * c, None if b is None or d is None else b * d)
        return r

    def wrap(self, x, w, unsigned):
        lo, hi = self.bounds(x)
        if unsigned:
            if lo is not None and hi is not None and 0 <= lo and hi < (1 << w):
                return part(x)
            return self.rem(x, 1 << w)
        h = 1 << (w - 1)
        if lo is not None and hi is not None and -h <= lo and hi < h:
            return part(x)
        if cv(x) is not None:
            return C((cv(x) + h) % (1 << w) - h)
        return None

    # -- bitwise ----------------------------------------------------------------
    def span(self, x):
        """x is a multiple of 2^lo and below 2^hi"""
        lo, hi = self.bounds(x)
        if lo is None or hi is None or lo < 0:
            return None
        g = 0
        for _, c in part(x).a[0]:
            g = gcd(g, c)
        z = (g & -g).bit_length() - 1 if g else 0
        return z, hi.bit_length()

    def pieces(self, x):
        """x as a sum of terms that occupy disjoint bits"""
        x = part(x)
        if len(x.a[0]) <= 1:
            return [x]
        out = []
        for k, c in x.a[0]:
            if c <= 0:
                return [x]
            t = poly({k: c})
            s = self.span(t)
            if s is None:
                return [x]
            out.append((s, t))
        out.sort(key=lambda z: z[0])
        for (a, _), (b, _) in zip(out, out[1:]):
            if a[1] > b[0]:
                return [x]
        return [t for _, t in out]

    def bitop(self, op, xs):
        flat = []
        for x in xs:
            p = only(x)
            if p is not None and p.op == op:
                flat.extend(p.a[0])
            else:
                flat.extend(self.pieces(x) if op != 'and' else [part(x)])
        k = 0 if op != 'and' else -1
        rest = {}
        for x in flat:
            v = cv(x)
            if v is not None:
                k = k ^ v if op == 'xor' else k | v if op == 'or' else k & v
            else:
                rest[x] = rest.get(x, 0) + 1
        if op == 'xor':
            rest = {x: 1 for x, n in rest.items() if n % 2}
        xs = sorted(rest, key=lambda n: n.u)
        if op == 'and':
            if k == 0:
                return ZERO
            if len(xs) == 1 and k > 0:
                z = (k & -k).bit_length() - 1
                b = k >> z
                lo, hi = self.bounds(xs[0])
                if b & (b + 1) == 0 and lo is not None and lo >= 0:
                    # a run of ones: cut the slice out
                    return scale(self.rem(self.quo(xs[0], 1 << z), b + 1), 1 << z)
            if not xs:
                return C(k)
            if len(xs) == 1 and k == -1:
                return xs[0]
            if k != -1:
                xs.append(C(k))
            if len(xs) == 2:
                r = self.nested(xs[0], xs[1])
                if r:
                    return r[1]
            return part(mk('and', tuple(sorted(xs, key=lambda n: n.u))))
        if k:
            if op == 'xor':
                xs.append(C(k))
            else:
                xs.append(C(k))
        if not xs:
            return ZERO
        if len(xs) == 1:
            return xs[0]
        # operands with disjoint bits add up
        sp = [self.span(x) for x in xs]
        if None not in sp:
            o = sorted(range(len(xs)), key=lambda i: sp[i])
            if all(sp[a][1] <= sp[b][0] for a, b in zip(o, o[1:])):
                r = ZERO
                for x in xs:
                    r = add(r, x)
                return r
        if op == 'or' and len(xs) == 2:
            r = self.nested(xs[0], xs[1])
            if r:
                return r[0]
            # pairwise: pieces inside another piece vanish
        if op == 'or':
            ys = list(xs)
            ch = True
            while ch:
                ch = False
                for i in range(len(ys)):
                    for j in range(len(ys)):
                        if i != j:
                            r = self.nested(ys[i], ys[j])
                            if r and r[0] is ys[i]:
                                del ys[j]
                                ch = True
                                break
                    if ch:
                        break
            if len(ys) < len(xs):
                return self.bitop(op, ys)
        return part(mk(op, tuple(sorted(xs, key=lambda n: n.u))))

    def nested(self, x, y):
        """(larger, smaller) when one is a low slice of the other"""
        for a, b in ((x, y), (y, x)):
            d = sub(a, b)
            # b = a - 2^j * floor(a / 2^j): then a - b is 2^j times a quotient of a
            for m, c in d.a[0][:1]:
                pass
            if not d.a[0]:
                return a, b
            g = 0
            for _, c in d.a[0]:
                g = gcd(g, c)
            j = g & -g
            if j > 1:
                lo, hi = self.bounds(b)
                l2, _ = self.bounds(d)
                if lo is not None and hi is not None and lo >= 0 and hi < j and l2 is not None and l2 >= 0:
                    return a, b
        return None


def ge0(x):
    x = part(x)
    v = cv(x)
    if v is not None:
        return ONE if v >= 0 else ZERO
    g = 0
    k = 0
    for m, c in x.a[0]:
        if m == ():
            k = c
        else:
            g = gcd(g, c)
    if g > 1:
        x = poly({m: (c // g) for m, c in x.a[0] if m != ()} | {(): k // g})
    return part(mk('ge0', x))


def eq0(x):
    x = part(x)
    v = cv(x)
    if v is not None:
        return ONE if v == 0 else ZERO
    p = only(x)
    if p is not None and p.op in ('ge0', 'eq0'):
        return sub(ONE, x)
    q = only(sub(ONE, x))
    if q is not None and q.op in ('ge0', 'eq0'):
        return part(q)
    if x.a[0][0][1] < 0 and x.a[0][0][0] != () or (x.a[0][0][0] == () and x.a[0][1][1] < 0):
        x = scale(x, -1)
    return part(mk('eq0', x))


# -- interpretation of a closed expression -------------------------------------
class NoValue(Exception):
    pass


FUNS = {}


def evaluate(n, env, memo=None):
    """value of the expression under env: atom name -> int"""
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        if x.op == 'P':
            need = [p for m, _ in x.a[0] for p, _ in m if p not in memo]
            if need:
                stack.extend(need)
                continue
            v = 0
            for m, c in x.a[0]:
                for p, e in m:
                    c *= memo[p] ** e
                v += c
            memo[x] = v
        elif x.op == 'A':
            if x.a[0] not in env:
                raise NoValue(x.a[0])
            memo[x] = env[x.a[0]]
        else:
            kids = list(x.a[1]) if x.op == 'F' else list(x.a[0]) if x.op in ('and', 'or', 'xor') else [x.a[0]]
            need = [k for k in kids if k not in memo]
            if need:
                stack.extend(need)
                continue
            vs = [memo[k] for k in kids]
            if x.op == 'Q':
                memo[x] = vs[0] // x.a[1]
            elif x.op == 'ge0':
                memo[x] = int(vs[0] >= 0)
            elif x.op == 'eq0':
                memo[x] = int(vs[0] == 0)
            elif x.op == 'F':
                f = FUNS.get(x.a[0])
                if f is None:
                    if x.a[2] is None or x.a[3] is None:
                        raise NoValue(x.a[0])
                    # an arbitrary function of its arguments
                    import hashlib
                    h = int.from_bytes(hashlib.sha256(repr((x.a[0], vs, env.get('#salt'))).encode()).digest(), 'big')
                    memo[x] = x.a[2] + h % (x.a[3] - x.a[2] + 1)
                else:
                    memo[x] = f(*vs)
            else:
                v = vs[0]
                for y in vs[1:]:
                    v = v & y if x.op == 'and' else v | y if x.op == 'or' else v ^ y
                memo[x] = v
        stack.pop()
    return memo[n]


def consts_of(ns):
    """constants which occur in linear forms"""
    seen, out, st = set(), set(), list(ns)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'P':
            for m, c in x.a[0]:
                if not m:
                    out.add(abs(c))
                st.extend(p for p, _ in m)
        elif x.op == 'F':
            st.extend(x.a[1])
        elif x.op in ('and', 'or', 'xor'):
            st.extend(x.a[0])
        elif x.op != 'A':
            st.append(x.a[0])
    return out


def atoms_of(ns):
    seen, out, st = set(), {}, list(ns)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'A':
            out[x.a[0]] = x
        elif x.op == 'P':
            st.extend(p for m, _ in x.a[0] for p, _ in m)
        elif x.op == 'F':
            st.extend(x.a[1])
        elif x.op in ('and', 'or', 'xor'):
            st.extend(x.a[0])
        else:
            st.append(x.a[0])
    return out


def show(n, d=4):
    if n.op == 'P':
        if not n.a[0]:
            return '0'
        out = []
        for m, c in n.a[0][:8]:
            s = '*'.join((show(p, d - 1) + ('^%d' % e if e > 1 else '')) for p, e in m)
            out.append((str(c) + ('*' if s else '') if c != 1 or not s else '') + s)
        return ' + '.join(out) + (' + ...' if len(n.a[0]) > 8 else '')
    if d <= 0:
        return '..'
    if n.op == 'A':
        return n.a[0]
    if n.op == 'Q':
        return '[%s / %d]' % (show(n.a[0], d - 1), n.a[1])
    if n.op == 'F':
        return '%s(%s)' % (n.a[0], ', '.join(show(x, d - 1) for x in n.a[1][:4]))
    if n.op in ('ge0', 'eq0'):
        return '(%s %s 0)' % (show(n.a[0], d - 1), '>=' if n.op == 'ge0' else '==')
    return '%s(%s)' % (n.op, ', '.join(show(x, d - 1) for x in n.a[0][:6]))
