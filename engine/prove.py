"""Equality of two normal forms that are not identical: the conditions in them are taken both ways,
sequences compared at an arbitrary index, records by field.  Sound, incomplete."""
import time

import term as T
from term import ONE, ZERO, as_atom, assume, atom, const, cval, entails, fresh, length, neg, sel, sub, to_poly


class GiveUp(Exception):
    pass


class Prover:
    def __init__(self, seconds=6, depth=7):
        self.end = time.time() + seconds
        self.max = depth
        self.splits = 0

    def same(self, t, a, b, dom=ONE, facts=(), pre=ONE):
        """are a and b equal wherever dom (which implies facts) and pre hold?"""
        try:
            with assume(list(facts)):
                for x in iversons(dom):
                    v = ONE if T.mul(dom, atom(x)) is dom else ZERO if T.mul(dom, atom(x)) is ZERO else None
                    if v is not None:
                        a, b, pre = T.replace(a, x, v), T.replace(b, x, v), T.replace(pre, x, v)
                return self.given(a, b, pre, 14)
        except (GiveUp, RecursionError):
            return False

    def given(self, a, b, pre, depth):
        """a and b are equal if pre holds: its conditions are taken both ways first"""
        pre = to_poly(pre)
        if pre is ZERO or a is b:
            return True
        from ev import facts_of
        gs = [g for g in iversons(pre) if g.op in ('ge0', 'eq0')]
        if pre is ONE or not gs or depth <= 0:
            return self.eq(a, b, self.max)
        return all(self.case(a, b, gs[0], v, depth - 1, pre) for v in (ONE, ZERO))

    def eq(self, a, b, depth):
        if a is b:
            return True
        if a.op == 'P' and b.op == 'P':
            d = telescope(sub(a, b))
            if d is ZERO or entails(d) and entails(neg(d)):
                return True
        if time.time() > self.end:
            raise GiveUp()
        if a.op == 'P' and b.op == 'P':
            if self.poly(a, b, depth):
                return True
        elif a.op in ('rec', 'or') and b.op in ('rec', 'or'):
            names = [n for x in (a, b) if x.op == 'rec' for n, _ in x.args[1]]
            names = list(dict.fromkeys(names)) or [n for n, _ in T.REC_FIELDS.get(a.args[1], ())]
            if names and all(self.eq(T.field(a, n), T.field(b, n), depth) for n in names):
                return True
        elif a.op in ('arr', 'oa', 'mux') and b.op in ('arr', 'oa', 'mux'):
            if self.seq(a, b, depth):
                return True
        if depth <= 0:
            return False
        g = guard(a, b)
        if g is None:
            return False
        self.splits += 1
        for v in (ONE, ZERO):
            if not self.case(a, b, g, v, depth - 1):
                return False
        return True

    def case(self, a, b, g, v, depth, pre=None):
        p = g.args[0] if g.op in ('ge0', 'eq0') else None
        fs = []
        if g.op == 'ge0':
            fs = [p] if v is ONE else [sub(const(-1), p)]
        elif g.op == 'eq0' and v is ONE:
            fs = [p, neg(p)]
        elif g.op == 'eq0':
            for s in (p, neg(p)):
                if entails(s):
                    fs = [sub(s, ONE)]
        if any(entails(sub(const(-1), f)) for f in fs):
            return True                        # cannot be
        if g.op == 'eq0' and v is ONE:
            s = T.solve_for(p)
            if s is not None:
                fs = fs + [T.replace(f, *s) for f in T.CTX.facts if T.contains(f, s[0])]
        with assume(fs):
            def there(x):
                x = T.replace(x, g, v)
                if g.op == 'eq0' and v is ONE:
                    s = T.solve_for(p)
                    if s is not None:
                        x = T.replace(x, *s)
                return T.again(x) if fs else x
            if pre is not None:
                pre = to_poly(there(pre))
                return pre is ZERO or self.given(there(a), there(b), pre, depth)
            return self.eq(there(a), there(b), depth)

    def seq(self, a, b, depth):
        for x, y in ((a, b), (b, a)):
            if grid(x) and simple(y):
                return self.rows(x, y, depth)
        if not (simple(a) and simple(b)):
            return self.pieces(a, b, depth)
        na, nb = length(a), length(b)
        if not self.eq(na, nb, depth):
            return False
        c = cval(na)
        if c is not None and c <= 4:
            return all(self.eq(sel(a, const(i)), sel(b, const(i)), depth) for i in range(c))
        v = fresh('i')
        n = na
        x = as_atom(n)
        if x is not None and x.op == 'pos':
            n = to_poly(x.args[0])
        with assume(T._ranges([v], [n])):
            ea, eb = T.again(sel(a, atom(v))), T.again(sel(b, atom(v)))
            return self.eq(ea, eb, depth)

    def rows(self, a, b, depth):
        """rows of equal length one after the other, against a sequence"""
        pc, = a.args[0]
        vs, (cs, e) = T.open_b(pc, 2, (pc.args[0], pc.args[2]))
        n, w = map(to_poly, cs)
        if any(v.args[0] in w.free for v in vs) or not self.eq(T.mul(n, w), length(b), depth):
            return False
        with assume(T._ranges(vs, (n, w))):
            ea = T.again(e)
            eb = T.again(sel(b, T.add(T.mul(atom(vs[0]), w), atom(vs[1]))))
            return self.eq(ea, eb, depth)

    def pieces(self, a, b, depth):
        """piece by piece"""
        if a.op != 'arr' or b.op != 'arr' or len(a.args[0]) != len(b.args[0]):
            return False
        for p, q in zip(a.args[0], b.args[0]):
            if p is q:
                continue
            if len(p.args[0]) != len(q.args[0]):
                return False
            n = len(p.args[0])
            vs, (cp, gp, ep) = T.open_b(p, n, p.args)
            ws, (cq, gq, eq) = T.open_b(q, n, q.args)
            env = {w.args[0]: v for v, w in zip(vs, ws)}
            cq, gq, eq = T._map((cq, gq, eq), lambda k: T.subst(k, env))
            with assume(T._ranges(vs, cp)):
                for i, (x, y) in enumerate(zip(cp, cq)):
                    if not self.eq(to_poly(x), to_poly(y), depth):
                        return False
                gp, gq = T.again(to_poly(gp)), T.again(to_poly(gq))
                if not self.eq(gp, gq, depth):
                    return False
                from ev import facts_of
                with assume(list(facts_of(gp))):
                    if not self.eq(T.again(ep), T.again(eq), depth):
                        return False
        return True

    def poly(self, a, b, depth):
        """sums over the same range, term by term"""
        d = sub(a, b)
        ms = d.args[0]
        if len(ms) != 2 or ms[0][0] != -ms[1][0]:
            return False
        (c, m1), (_, m2) = ms
        only = lambda m, o: [(x, e) for x, e in m if (x, e) not in o]
        d1, d2 = only(m1, m2), only(m2, m1)
        if len(d1) != 1 or len(d2) != 1 or d1[0][1] != 1 or d2[0][1] != 1:
            return False
        return self.node(d1[0][0], d2[0][0], depth)

    def node(self, x, y, depth):
        if x.op == y.op == 'sum' and len(x.args[0]) == len(y.args[0]):
            n = len(x.args[0])
            vs, (cx, bx) = T.open_b(x, n, x.args)
            ws, (cy, by) = T.open_b(y, n, y.args)
            by = T.subst(by, {w.args[0]: v for v, w in zip(vs, ws)})
            cy = T._map(cy, lambda k: T.subst(k, {w.args[0]: v for v, w in zip(vs, ws)}))
            with assume(T._ranges(vs, cx)):
                return all(self.eq(to_poly(p), to_poly(q), depth) for p, q in zip(cx, cy)) and self.eq(T.again(to_poly(bx)), T.again(to_poly(by)), depth)
        if x.op == y.op == 'pos':
            return self.eq(to_poly(x.args[0]), to_poly(y.args[0]), depth)
        if x.op == y.op and x.op not in T.BINDERS and x.op not in ('v', 'b', 'sym', 'ge0', 'eq0') and shape(x.args) == shape(y.args):
            # equal arguments
            return self.args(x.args, y.args, depth)
        return False

    def args(self, a, b, depth):
        for x, y in zip(a, b):
            if isinstance(x, tuple):
                if not self.args(x, y, depth):
                    return False
            elif isinstance(x, T.Node) and x is not y:
                if x.op in ('P', 'arr', 'oa', 'rec', 'or', 'mux') and y.op in ('P', 'arr', 'oa', 'rec', 'or', 'mux'):
                    if not self.eq(x, y, depth):
                        return False
                elif not self.node(x, y, depth):
                    return False
        return True


def shape(a):
    return tuple(shape(x) if isinstance(x, tuple) else None if isinstance(x, T.Node) else x for x in a)


def simple(a):
    """elements can be read at any index"""
    if a.op == 'mux':
        return simple(a.args[1]) and simple(a.args[2])
    if a.op == 'oa':
        return True
    if a.op != 'arr':
        return False
    return all(len(p.args[0]) == 1 and p.args[1] is ONE for p in a.args[0])


def telescope(p):
    """SUM_{j<n+1} f(j) - SUM_{j<n} f(j)  ->  f(n)   (n >= 0)"""
    if len(p.args[0]) > 40:
        return p
    ss = [(c, m, a) for c, m in p.args[0] for a, e in m if a.op == 'sum' and e == 1]
    for c1, m1, a1 in ss:
        for c2, m2, a2 in ss:
            if c1 + c2 or a1 is a2 or len(a1.args[0]) != len(a2.args[0]):
                continue
            rest = tuple(t for t in m1 if t[0] is not a1)
            if rest != tuple(t for t in m2 if t[0] is not a2):
                continue
            k = len(a1.args[0])
            vs, (ca, ba) = T.open_b(a1, k, a1.args)
            ws, (cb, bb) = T.open_b(a2, k, a2.args)
            env = {w.args[0]: v for v, w in zip(vs, ws)}
            cb, bb = T._map((cb, bb), lambda x: T.subst(x, env))
            if ba is not bb or any(x is not y for x, y in zip(ca[1:], cb[1:])) or sub(to_poly(ca[0]), to_poly(cb[0])) is not ONE or not entails(to_poly(cb[0])):
                continue
            at = {vs[0].args[0]: as_atom(to_poly(cb[0])) or to_poly(cb[0])}
            f = to_poly(T.subst(ba, at))
            cs = [to_poly(T.subst(x, at)) for x in ca[1:]]
            f = T.sum_multi(vs[1:], cs, f) if k > 1 else f
            q = sub(sub(p, T.from_dict({m1: c1})), T.from_dict({m2: c2}))
            return telescope(T.add(q, T.mul(T.from_dict({rest: c1}), f)))
    return p


def grid(a):
    """rows of one length"""
    return a.op == 'arr' and len(a.args[0]) == 1 and len(a.args[0][0].args[0]) == 2 and a.args[0][0].args[1] is ONE


def iversons(p):
    """the conditions p is made of"""
    out = []
    for c, m in p.args[0]:
        for x, e in m:
            if x.op in T.IVERSON and x not in out:
                out.append(x)
    return out


def guard(a, b):
    """a condition of a or b that depends on no bound variable"""
    da, db = conds(a), conds(b)
    one = [g for g in da if g not in db] + [g for g in db if g not in da]
    for g in one + list(da):
        return g
    return None


def conds(n):
    out = {}
    seen = set()
    todo = [n]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k.op in ('ge0', 'eq0', 'bool', 'ex', 'feq0') and not loose(k):
            out[k] = None
        todo.extend(T._kids(k.args))
    return out


_loose = {}


def loose(n, depth=None):
    """does n mention variables bound outside of it?"""
    return bool(_free(n))


def _free(n):
    r = _loose.get(n)
    if r is None:
        if n.op == 'b':
            r = frozenset((n.args[0],))
        else:
            r = frozenset()
            for k in T._kids(n.args):
                r = r | _free(k)
            if n.op in T.BINDERS and r:
                k = len(n.args[0]) if n.op in ('sum', 'pc') else n.args[0] + 1 if n.op == 'iter' else n.args[0] if n.op == 'lamb' else 1
                r = r - frozenset(range(n.h - k + 1, n.h + 1))
        _loose[n] = r
    return r
