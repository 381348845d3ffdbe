"""Interpretation of closed summary terms in a finite valuation of their symbols.

Used only to decide whether two normal forms that are not syntactically identical
denote different functions: the terms (not the program) are interpreted for one
choice of their free symbols.  A difference refutes the obligation; opaque parts
reached by the interpretation make the valuation inconclusive."""
import hashlib
import random
from term import *
import term as T

P61 = (1 << 61) - 1
P127 = (1 << 127) - 1


class Inconclusive(Exception):
    pass


class OutOfDomain(Exception):
    pass


class Pz:
    """value that depends on something outside every object (out of range element,
    indeterminate value): a formal polynomial"""
    __slots__ = ('d', 'h')

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))

    def __eq__(self, o):
        return isinstance(o, Pz) and self.d == o.d

    def __hash__(self):
        return self.h

    def __repr__(self):
        return 'indeterminate'


def pz(key):
    return Pz({(key,): 1})


def lin(a):
    return a.d if isinstance(a, Pz) else ({(): a} if a else {})


def unlin(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1 and () in d:
        return d[()]
    return Pz(d)


def padd_(a, b):
    if not isinstance(a, Pz) and not isinstance(b, Pz):
        return a + b
    r = dict(lin(a))
    for m, c in lin(b).items():
        r[m] = r.get(m, 0) + c
    return unlin(r)


def pmul_(a, b):
    if not isinstance(a, Pz) and not isinstance(b, Pz):
        return a * b
    r = {}
    for m, c in lin(a).items():
        for m2, c2 in lin(b).items():
            k = tuple(sorted(m + m2, key=repr))
            r[k] = r.get(k, 0) + c * c2
    return unlin(r)


_bl = {}
_nk = {}


def blevels(n):
    """levels of the bound variables occurring free in n"""
    r = _bl.get(n)
    if r is None:
        if n.op == 'b':
            r = frozenset(n.args)
        else:
            r = frozenset()
            for k in T._kids(n.args):
                r |= blevels(k)
            own = own_levels(n)
            if own:
                r = r - own
        _bl[n] = r
    return r


def own_levels(n):
    op = n.op
    if op == 'sum' or op == 'pc':
        nv = len(n.args[0])
    elif op in ('first', 'ex', 'lastw', 'fb'):
        nv = 1
    elif op == 'iter':
        nv = n.args[0] + 1
    elif op == 'lamb':
        nv = n.args[0]
    else:
        return None
    return frozenset(n.h - i for i in range(nv))


class PzLen(Exception):
    pass


class Tok:
    """opaque identity"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Tok) and self.k == o.k

    def __hash__(self):
        return hash(('tok', self.k))

    def __repr__(self):
        return '<%s>' % (self.k,)


class Rec:
    __slots__ = ('t', 'get', 'c')

    def __init__(self, t, get):
        self.t = t
        self.get = get
        self.c = {}

    def field(self, f):
        if f not in self.c:
            self.c[f] = self.get(f)
        return self.c[f]


def hrand(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:16], 'little')


class Ground:
    CAP = 4000

    def __init__(self, syms, rng, p=P61, gen=None, budget=400000):
        self.syms = syms          # name -> concrete value
        self.rng = rng
        self.p = p
        self.memo = {}
        self.gen = gen
        self.steps = 0
        self.budget = budget
        self.lazy = {}
        self.globs = {}

    # -------------------------------------------------------- evaluation
    fmemo = True

    def ev(self, n, env=None, fenv=None):
        return self._ev(n, env or {}, fenv or {})

    def _ev(self, n, env, fenv):
        nk = _nk.get(n)
        if nk is None:
            nk = _nk[n] = (tuple(sorted(blevels(n))), tuple(sorted(n.free)), getattr(Ground, 'g_' + n.op, Ground.g_unknown))
        bl, fr, fn = nk
        op = n.op
        if op == 'b':
            return env[n.args[0]]
        if op == 'v':
            return fn(self, n, env, fenv)
        if bl:
            key = (n, tuple([env.get(l) for l in bl]), tuple([fenv.get(u) for u in fr])) if fr else (n, tuple([env.get(l) for l in bl]))
        elif fr:
            key = (n, tuple([fenv.get(u) for u in fr]))
        else:
            key = n
        try:
            r = self.memo.get(key, self)
        except TypeError:
            key = None
            r = self
        if r is not self:
            return r
        self.steps += 1
        if self.steps > self.budget:
            raise Inconclusive('budget')
        r = fn(self, n, env, fenv)
        if key is not None:
            self.memo[key] = r
        return r

    def g_unknown(self, n, env, fenv):
        raise Inconclusive('term ' + n.op)

    def g_opaque(self, n, env, fenv):
        if n.args and n.args[0] == 'oob':
            return pz(('oob', n.id, self.ienv(n, env)))
        raise Inconclusive('opaque %s' % (n.args[0],))

    def ienv(self, n, env):
        return repr([env.get(l) for l in sorted(blevels(n))])

    def g_undef(self, n, env, fenv):
        return pz(('undef', n.id))

    def g_v(self, n, env, fenv):
        if n.args[0] in fenv:
            return fenv[n.args[0]]
        raise Inconclusive('free variable')

    def g_b(self, n, env, fenv):
        return env[n.args[0]]

    def g_sym(self, n, env, fenv):
        nm = n.args[0]
        if nm == 'INF':
            return self.CAP + 1
        if nm in self.syms:
            return self.syms[nm]
        return Tok(('sym', nm))

    def g_glob(self, n, env, fenv):
        if n not in self.globs:
            self.globs[n] = self.gen(n)
        return self.globs[n]

    def g_dr(self, n, env, fenv):
        k = self._ev(n.args[0], env, fenv)
        if isinstance(k, Rec):
            return k            # the object a pointer parameter refers to
        if ('dr', k) not in self.lazy:
            raise Inconclusive('unknown object')
        return self.lazy[('dr', k)]

    def atomval(self, a, env, fenv):
        v = self._ev(a, env, fenv)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, Pz)):
            raise Inconclusive('non-number %s' % (a.op,))
        return v

    def g_P(self, n, env, fenv):
        tot = 0
        for c, m in n.args[0]:
            t = c
            rest = []
            for a, e in m:
                if a.op in T.IVERSON:
                    v = self.atomval(a, env, fenv)
                    if v == 0:
                        t = 0
                        break
                    if v != 1:
                        rest.append((v, e))
                else:
                    rest.append((a, e))
            if t == 0:
                continue
            for a, e in rest:
                v = a if not isinstance(a, Node) else self.atomval(a, env, fenv)
                for _ in range(e):
                    t = pmul_(t, v)
                if t == 0:
                    break
            tot = padd_(tot, t)
        return tot

    def g_ge0(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        if isinstance(v, Pz):
            return pz(('ge0', v))
        return int(v >= 0)

    def g_eq0(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        if isinstance(v, Pz):
            return pz(('eq0', v))
        return int(v == 0)

    def g_feq0(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        if isinstance(v, Pz):
            return pz(('feq0', v))
        return int(v % self.p == 0)

    def cnt(self, n, env, fenv):
        v = self._ev(n, env, fenv)
        if isinstance(v, Pz):
            return v
        if v > self.CAP:
            raise Inconclusive('bound')
        return v

    def g_sum(self, n, env, fenv):
        cs, body = n.args
        tot = [0]
        env = dict(env)

        def go(i):
            if i == len(cs):
                v = self._ev(body, env, fenv)
                tot[0] = padd_(tot[0], v)
                return
            c = self.cnt(cs[i], env, fenv)
            if isinstance(c, Pz):
                tot[0] = padd_(tot[0], pz(('sum', n.id, c)))
                return
            for x in range(c):
                env[n.h - i] = x
                go(i + 1)
        go(0)
        return tot[0]

    def seq_of(self, n, env, fenv):
        if n.op == 'pc':
            return self.g_pc(n, env, fenv)
        return self._ev(n, env, fenv)

    def g_pc(self, n, env, fenv):
        cs, g, e = n.args
        out = []
        env = dict(env)
        bl = blevels(g)
        at = max([i + 1 for i in range(len(cs)) if n.h - i in bl], default=0)   # the guard is decided from here on

        def go(i):
            if i == at and g is not ONE:
                gv = self._ev(g, env, fenv)
                if isinstance(gv, Pz):
                    raise Inconclusive('indeterminate guard')
                if not gv:
                    return
            if i == len(cs):
                out.append(self._ev(e, env, fenv))
                return
            c = self.cnt(cs[i], env, fenv)
            if isinstance(c, Pz):
                raise PzLen((n.id, i, c))
            for x in range(c):
                env[n.h - i] = x
                go(i + 1)
        go(0)
        return tuple(out)

    def g_arr(self, n, env, fenv):
        out = []
        for pc in n.args[0]:
            try:
                out.extend(self.g_pc(pc, env, fenv))
            except PzLen as x:
                return pz(('arr', n.id, x.args[0]))
            if len(out) > self.CAP:
                raise Inconclusive('size')
        return tuple(out)

    def interleave(self, n, env, fenv):
        """search below a bound that is itself the first index with a property:
        both properties are examined index by index"""
        a = T.as_atom(n.args[0]) if n.args[0].op == 'P' else None
        if a is None or a.op != 'first':
            return None
        env = dict(env)
        c2, q2 = a.args
        c2 = self._ev(c2, env, fenv)
        if isinstance(c2, Pz):
            return None
        for x in range(min(c2, self.CAP)):
            env[a.h] = x
            v = self._ev(q2, env, fenv)
            if isinstance(v, Pz):
                return pz(('first', n.id, x, v)), None
            if v:
                return x, 0
            env[n.h] = x
            v = self._ev(n.args[1], env, fenv)
            if isinstance(v, Pz):
                return pz(('first', n.id, x, v)), None
            if v:
                return x, 1
        if c2 > self.CAP:
            raise Inconclusive('bound')
        return c2, 0

    def g_first(self, n, env, fenv):
        r = self.interleave(n, env, fenv)
        if r is not None:
            return r[0]
        c, q = n.args
        c = self._ev(c, env, fenv)
        if isinstance(c, Pz):
            return pz(('first', n.id, c))
        env = dict(env)
        for x in range(min(c, self.CAP)):
            env[n.h] = x
            v = self._ev(q, env, fenv)
            if isinstance(v, Pz):
                return pz(('first', n.id, x, v))
            if v:
                return x
        if c > self.CAP:
            raise Inconclusive('bound')
        return c

    def g_ex(self, n, env, fenv):
        r = self.interleave(n, env, fenv)
        if r is not None:
            return r[0] if r[1] is None else r[1]
        c, q = n.args
        c = self._ev(c, env, fenv)
        if isinstance(c, Pz):
            return pz(('ex', n.id, c))
        env = dict(env)
        unk = None
        for x in range(min(max(c, 0), self.CAP)):
            env[n.h] = x
            v = self._ev(q, env, fenv)
            if isinstance(v, Pz):
                unk = pz(('ex', n.id, x, v))
            elif v:
                return 1
        if unk is not None:
            return unk
        if c > self.CAP:
            raise Inconclusive('bound')
        return 0

    def g_lastw(self, n, env, fenv):
        c, q, val, init = n.args
        c = self.cnt(c, env, fenv)
        if isinstance(c, Pz):
            return pz(('lastw', n.id, c))
        env = dict(env)
        for x in range(c - 1, -1, -1):
            env[n.h] = x
            v = self._ev(q, env, fenv)
            if isinstance(v, Pz):
                return pz(('lastw', n.id, x, v))
            if v:
                return self._ev(val, env, fenv)
        return self._ev(init, env, fenv)

    def g_iter(self, n, env, fenv):
        nst, ups, inits, idx, which = n.args
        k = self._ev(idx, env, fenv)
        if isinstance(k, Pz):
            return pz(('iter', n.id, k))
        if k > (600 if self.CAP < 5000 else self.CAP):
            raise Inconclusive('bound')
        # trajectories are shared between iterates of the same recurrence
        tk = None
        fr = n.free.union(*[u.free for u in ups if isinstance(u, Node)])
        if not fr or self.fmemo:
            lv = sorted(set().union(*[blevels(u) for u in ups if isinstance(u, Node)], *[blevels(u) for u in inits]) - {n.h - i for i in range(nst + 1)})
            tk = ('traj', nst, ups, inits, n.h, tuple(env.get(l) for l in lv), tuple(fenv.get(u) for u in sorted(fr)))
            try:
                hash(tk)
            except TypeError:
                tk = None
        tr = self.memo.get(tk) if tk is not None else None
        if tr is None:
            tr = [[self._ev(x, env, fenv) for x in inits]]
            if tk is not None:
                self.memo[tk] = tr
        e2 = dict(env)
        while len(tr) <= k:
            st = tr[-1]
            for i in range(nst):
                e2[n.h - i] = st[i]
            e2[n.h - nst] = len(tr) - 1
            # a number this long can only be an element: no machine integer is
            tr.append([x % self.p if type(x) is int and x.bit_length() > 2000 else x for x in (self._ev(u, e2, fenv) for u in ups)])
        return tr[max(k, 0)][which]

    def g_pos(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        return pz(('pos', v)) if isinstance(v, Pz) else max(0, v)

    def g_div(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        return pz(('div', v, n.args[1])) if isinstance(v, Pz) else v // n.args[1]

    def g_pow(self, n, env, fenv):
        a, k = self._ev(n.args[0], env, fenv), self._ev(n.args[1], env, fenv)
        if isinstance(a, Pz) or isinstance(k, Pz):
            return pz(('pow', a, k))
        if k < 0:
            return 1
        if k > 64:
            return pow(a, k, self.p)
        return a ** k

    def g_cast(self, n, env, fenv):
        w, x = n.args
        v = self._ev(x, env, fenv)
        if isinstance(v, Pz):
            return pz(('cast', w, v))
        v &= (1 << w) - 1
        return v - (1 << w) if v >> (w - 1) else v

    def g_res(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        return pz(('res', v)) if isinstance(v, Pz) else v % self.p

    def g_inv(self, n, env, fenv):
        v = self._ev(n.args[0], env, fenv)
        return pz(('inv', v)) if isinstance(v, Pz) else pow(v % self.p, self.p - 2, self.p)

    def g_bitop(self, n, env, fenv):
        op = n.args[0]
        a, b = self._ev(n.args[1], env, fenv), self._ev(n.args[2], env, fenv)
        if isinstance(a, Pz) or isinstance(b, Pz):
            return pz(('bit', op, a, b))
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '^':
            return a ^ b
        if op in ('/', '%'):
            if b == 0:
                return pz(('div0', n.id))
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if op == '/' else a - b * q
        if op == '<<':
            return a << b if 0 <= b < 4096 else pz(('shl', n.id))
        if op == '>>':
            return a >> b if 0 <= b else pz(('shr', n.id))
        raise Inconclusive('operator ' + op)

    def g_tb(self, n, env, fenv):
        k, v, j = n.args
        v, j = self._ev(v, env, fenv), self._ev(j, env, fenv)
        if isinstance(v, Pz) or isinstance(j, Pz):
            return pz(('tb', k, v, j))
        if not isinstance(v, int):
            return Tok(('tb', k, v, j))
        if not 0 <= j < k:
            return pz(('tb', n.id, j))
        return (v >> (8 * j)) & 255

    def g_fb(self, n, env, fenv):
        k, body = n.args
        env = dict(env)
        r = 0
        for j in range(k):
            env[n.h] = j
            v = self._ev(body, env, fenv)
            if isinstance(v, Pz):
                r = padd_(r, pmul_(1 << (8 * j), v))
            elif isinstance(v, int):
                r = padd_(r, (v & 255) << (8 * j))
            else:
                raise Inconclusive('bytes')
        return r

    def g_strm(self, n, env, fenv):
        s, i = self._ev(n.args[0], env, fenv), self._ev(n.args[1], env, fenv)
        if isinstance(s, Pz) or isinstance(i, Pz):
            return pz(('strm', s, i))
        if isinstance(s, tuple) and any(isinstance(x, Pz) for x in s):
            return pz(('strm', s, i))
        return hrand('strm', self.hsh(s), i) & 255

    def hsh(self, v):
        if isinstance(v, (int, str)):
            return v
        if isinstance(v, tuple):
            return tuple(self.hsh(x) for x in v)
        if isinstance(v, Rec):
            return (v.t,) + tuple(self.hsh(v.field(f)) for f, _ in T.REC_FIELDS.get(v.t, ()))
        return repr(v)

    def g_uf(self, n, env, fenv):
        vs = tuple(self.hsh(self._ev(a, env, fenv)) if isinstance(a, Node) else a for a in n.args[1:])
        return hrand('uf', n.args[0], vs) % 65536

    def g_bool(self, n, env, fenv):
        k = n.args[0]
        if k == 'b':
            v = self._ev(n.args[1], env, fenv)
            if isinstance(v, Pz):
                return v
            if isinstance(v, int):
                return int(v != 0)
            raise Inconclusive('bool')
        if k == 'nn':
            v = self._ev(n.args[1], env, fenv)
            if isinstance(v, Tok):
                return int(v.k[0] != 'null')
            raise Inconclusive('pointer')
        if k == 'eq':
            a, b = self._ev(n.args[1], env, fenv), self._ev(n.args[2], env, fenv)
            if isinstance(a, Pz) or isinstance(b, Pz):
                return pz(('eq', a, b))
            return int(self.same(a, b))
        if k == 'st':  # the constructor of a sealed object refuses
            from ev import T_SEALS
            c = n.args[1]
            s = T_SEALS.get(c.args[1])
            if s is None:
                raise Inconclusive('sealed object')
            vals = [self._ev(a, env, fenv) for a in c.args[2:]]
            return self.sealground(vals)._ev(s[1]['throw'], {}, {p.args[0]: v for p, v in zip(s[1]['params'], vals)})
        if k == 'ge0':
            return self.g_ge0(mk('ge0', n.args[1]), env, fenv)
        if k == 'eq0':
            return self.g_eq0(mk('eq0', n.args[1]), env, fenv)
        raise Inconclusive('bool ' + str(k))

    def same(self, a, b):
        if isinstance(a, Rec) and isinstance(b, Rec):
            return all(self.same(a.field(f), b.field(f)) for f, _ in T.REC_FIELDS.get(a.t, ()))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def g_sel(self, n, env, fenv):
        an, i = n.args
        i = self._ev(i, env, fenv)
        if isinstance(i, Pz):
            return pz(('sel', n.id, i, self.ienv(n, env)))
        if an.op == 'arr':
            # element of a comprehension without building it
            off = 0
            for pc in an.args[0]:
                cs, g, e = pc.args
                if len(cs) == 1 and g is ONE:
                    c = self._ev(cs[0], env, fenv)
                    if isinstance(c, Pz):
                        return pz(('sel', n.id, i))
                    if off <= i < off + c:
                        e2 = dict(env)
                        e2[pc.h] = i - off
                        return self._ev(e, e2, fenv)
                    off += max(c, 0)
                else:
                    try:
                        s = self.g_pc(pc, env, fenv)
                    except PzLen as x:
                        return pz(('sel', n.id, i, x.args[0]))
                    if off <= i < off + len(s):
                        return s[i - off]
                    off += len(s)
            return pz(('oob', n.id, i, self.ienv(n, env)))
        a = self._ev(an, env, fenv)
        if isinstance(a, Pz):
            return pz(('sel', a, i))
        if not isinstance(a, tuple):
            raise Inconclusive('index of %r' % (a,))
        if not 0 <= i < len(a):
            return pz(('oob', self.hsh(a), i))
        return a[i]

    def g_len(self, n, env, fenv):
        a = self._ev(n.args[0], env, fenv)
        if isinstance(a, Pz):
            return pz(('len', a))
        if not isinstance(a, tuple):
            raise Inconclusive('length of %r' % (a,))
        return len(a)

    def g_oa(self, n, env, fenv):
        return self._ev(n.args[0], env, fenv)

    g_or = g_oo = g_oa

    def g_fld(self, n, env, fenv):
        r = self._ev(n.args[0], env, fenv)
        if isinstance(r, Pz):
            return pz(('fld', r, n.args[1]))
        if isinstance(r, Rec):
            return r.field(n.args[1])
        raise Inconclusive('field of %r' % (r,))

    def g_rec(self, n, env, fenv):
        d = dict(n.args[1])
        env = dict(env)
        r = Rec(n.args[0], lambda f: self._ev(d[f], env, fenv))
        return r

    def g_mux(self, n, env, fenv):
        c = self._ev(n.args[0], env, fenv)
        if isinstance(c, Pz):
            return pz(('mux', n.id, c))
        return self._ev(n.args[1 if c else 2], env, fenv)

    def g_call(self, n, env, fenv):
        from ev import T_SEALS
        cls, key = n.args[0], n.args[1]
        s = T_SEALS.get(key)
        if s is None:
            raise Inconclusive('sealed object')
        sm = s[1]
        vals = [self._ev(a, env, fenv) for a in n.args[2:]]
        ck = ('seal', key, tuple(self.hsh(v) for v in vals))
        r = self.memo.get(ck)
        if r is None:
            fe = {p.args[0]: v for p, v in zip(sm['params'], vals)}
            g = self.sealground(vals)
            r = Rec(cls, lambda f: g._ev(sm['fields'][f], {}, fe))
            self.memo[ck] = r
        return r

    _shared = {}

    def sealground(self, vals):
        """objects built from numbers only do not depend on the valuation"""
        if not all(isinstance(v, int) for v in vals):
            return self
        g = Ground._shared.get(self.p)
        if g is None:
            import random
            g = Ground._shared[self.p] = Ground({}, random.Random(0), self.p)
            g.budget = 1 << 60
        return g

    def g_recv(self, n, env, fenv):
        kind, peer, idx = n.args
        peer, idx = (self._ev(x, env, fenv) for x in (peer, idx))
        if any(isinstance(x, Pz) for x in (peer, idx)):
            return pz(('recv', kind, peer, idx))
        if kind == 'msgF':
            return self.rcv(kind, peer, idx)
        if kind == 'msgB':
            return hrand('rcv', self.salt, kind, peer, idx) & 255
        return tuple(self.rcv(kind, peer, idx, x) for x in range(self.sharesize))

    def rcv(self, *key):
        """an element received: arbitrary, in some valuations often zero or equal to the previous message"""
        h = hrand('rcv', self.salt, *key)
        if self.salt % 8 == 6 and (h >> 100) % 3 == 0:
            return 0
        if self.salt % 8 == 7:
            h = hrand('rcv', self.salt, key[0], 0, *key[2:])
        return h % self.p

    sharesize = 3
    salt = 0

    def g_mapat(self, n, env, fenv):
        m, k = self._ev(n.args[0], env, fenv), self._ev(n.args[1], env, fenv)
        if isinstance(m, Pz) or isinstance(k, Pz):
            return pz(('mapat', m, k))
        for x in m:
            if self.same(x.field('first'), k):
                return x.field('second')
        return pz(('mapat', n.id, self.hsh(k)))

    def g_root(self, n, env, fenv):
        return Tok(('root', n.id))

    def g_str(self, n, env, fenv):
        return Tok(('str', n.args[0]))

    def g_null(self, n, env, fenv):
        return Tok(('null',))

    def g_fnref(self, n, env, fenv):
        return Tok(('fn', n.args[0]))

    def g_dflt(self, n, env, fenv):
        return Tok(('dflt', str(n.args)))

    def g_loc(self, n, env, fenv):
        r, path = n.args
        return Tok(('loc', r.id, tuple((k, self._ev(x, env, fenv) if isinstance(x, Node) else x) for k, x in path)))

    def g_pobj(self, n, env, fenv):
        return Tok(('p', self._ev(n.args[0], env, fenv).k))

    def g_ptr(self, n, env, fenv):
        return Tok(('p', self._ev(n.args[0], env, fenv).k, self._ev(n.args[1], env, fenv)))

    def g_exc(self, n, env, fenv):
        return Tok(('exc', n.args[0]))

    # -------------------------------------------------------- comparison
    def normal(self, v, t, depth=0):
        """comparable form of a value of view type t"""
        if isinstance(v, Pz):
            return v
        k = t[0]
        if k == 'fld':
            if not isinstance(v, int):
                raise Inconclusive('field value')
            return v % self.p
        if k in ('int', 'bool', 'enum'):
            if isinstance(v, (int, Pz)):
                return v
            raise Inconclusive('number')
        if k == 'vec':
            if not isinstance(v, tuple):
                raise Inconclusive('sequence')
            return tuple(self.normal(x, t[1], depth + 1) for x in v)
        if k == 'rec':
            if not isinstance(v, Rec):
                raise Inconclusive('record')
            if v.t.startswith('opt<'):
                h = v.field('has')
                if isinstance(h, Pz):
                    return h
                if not h:
                    return ('none',)
                return ('some', self.normal(v.field('val'), dict(T.REC_FIELDS[v.t])['val'], depth + 1))
            return tuple((f, self.normal(v.field(f), ft, depth + 1)) for f, ft in T.REC_FIELDS.get(v.t, ()))
        if k == 'oth' or k == 'any':
            if isinstance(v, Rec):
                return self.normal(v, ('rec', v.t), depth + 1)
            if isinstance(v, tuple):
                return tuple(self.normal(x, ('any',), depth + 1) for x in v)
            return v
        return v


# ------------------------------------------------------------ random values
class Gen:
    """random concrete values for symbolic parameters"""

    def __init__(self, rng, p=P61, lens=(0, 1, 2, 3, 4), ints=None, hints=None):
        self.rng = rng
        self.p = p
        self.lens = lens
        self.hints = hints or {}

    def value(self, t, name='', depth=0):
        rng = self.rng
        h = self.hints.get(name)
        if h is not None:
            v = h(rng) if callable(h) else rng.choice(h)
            return v
        k = t[0]
        if k == 'bool':
            return rng.randint(0, 1)
        if k == 'int':
            w, u = t[1], t[2]
            if w == 8:
                return rng.choice([0, 1, 255 if u else -1, rng.randrange(256) if u else rng.randrange(-128, 128)])
            r = rng.random()
            c = getattr(rng, 'consts', ())
            if c and rng.random() < 0.15:
                return max(0 if u else -(1 << (w - 1)), rng.choice(c) + rng.choice([-1, 0, 1]))
            if r < 0.8:
                return rng.randrange(0, 9) if u else rng.randrange(-1, 9)
            if r < 0.9:
                return rng.randrange(0, 70)
            return rng.randrange(1 << (min(w, 40) - 1))
        if k == 'fld':
            return rng.choice([0, 1, self.p - 1] + [rng.randrange(self.p)] * 4)
        if k == 'vec':
            c = getattr(rng, 'consts', ())
            n = max(0, rng.choice(c) + rng.choice([-1, 0, 1, 2])) if c and depth == 0 and (rng.random() < 0.2 or getattr(rng, 'force', False)) else rng.choice(self.lens)
            return tuple(self.value(t[1], name + '[]', depth + 1) for _ in range(n))
        if k == 'rec':
            if t[1].startswith('opt<'):
                fs = {'has': rng.randint(0, 1), 'val': self.value(dict(T.REC_FIELDS[t[1]])['val'], name + '?', depth + 1)}
            elif t[1] in T.REC_FIELDS:
                fs = {f: self.value(ft, name + '.' + f, depth + 1) for f, ft in T.REC_FIELDS[t[1]]}
            else:
                return Tok(('gen', rng.randrange(1 << 30)))
            return Rec(t[1], lambda f, fs=fs: fs[f])
        return Tok(('gen', name, rng.randrange(1 << 30)))
