"""Loops: the effect of a loop on every location it modifies is computed from one
symbolic iteration by solving the recurrences of the modified locations."""
from term import *
import term as T


class Slot:
    __slots__ = ('key', 'var', 'x', 'init', 'vt', 'kind', 'upd')

    def __init__(self, key):
        self.key = key


def depends(t, uid):
    return uid in t.free


class Loops:
    def run_loop(self, condf, bodyf, incf, ln, posttest=False):
        from ev import State, Exit, Dead, Unsupported, facts_of
        self.nloops += 1
        S0 = self.S
        pc0 = S0.pc
        ob, oe = self.base, self.exits
        oline = self.lastline
        self.base = tuple(dict.fromkeys(self.base + facts_of(pc0)))
        kv = fresh('k')
        set_nonneg(kv)
        k = atom(kv)
        slots = {}
        closed = {}
        try:
            for rnd in range(40):
                start = self.havoc(S0.st, slots, closed)
                it = self.one_iter(start, condf, bodyf, incf, posttest)
                nxt = it['next']
                if nxt is None:
                    break           # the body never completes normally: at most one iteration
                new = self.modified(start, nxt.st, slots, closed)
                if new:
                    for key in new:
                        slots[key] = self.mkslot(key, S0)
                    self.drop_sub(slots, closed)
                    continue
                todo = [s for s in slots.values() if s.key not in closed]
                if not todo:
                    break
                for s in todo:
                    s.upd = self.get_slot(nxt.st, s.key)
                # the closed form holds at the exit, too, where the loop condition does not
                self.S = State(ONE, {})
                self.sync()
                done = self.solve_round(todo, k, kv)
                if not done:
                    done = self.solve_scc(todo, k, kv)
                if not done:
                    raise Unsupported('loop not solved')
                closed.update(done)
            else:
                raise Unsupported('loop does not stabilise')
            self.S = State(ONE, {})
            self.sync()
            if it['next'] is None:
                X = None
                c = it['c']
                # iteration 0 only
                env = {kv.args[0]: ZERO}
                X = ZERO
                R = ONE
            else:
                X = self.trip(it['c'], kv)
                R = add(X, ONE) if posttest else X
        finally:
            self.base, self.exits = ob, oe
        self.lastline = oline
        self.base = ob
        exits = it['exits']
        self.S = State(pc0, S0.st)
        self.sync()
        q = ZERO
        for e in exits:
            q = add(q, e.pc)
        st_exit = it['exit']
        if q is ZERO:
            if st_exit is None:
                self.S = None
                raise Dead()
            self.S = State(pc0, self.sub_state(st_exit, kv, X, S0.st))
            self.sync()
            return
        inf = T._inf_sign(R) if R.op == 'P' else 0
        if it['next'] is None and posttest:
            F, hit = ZERO, subst(q, {kv.args[0]: ZERO})
        elif it['next'] is None:
            F, hit = ZERO, to_poly(subst(q, {kv.args[0]: ZERO}))
        else:
            with assume(T._ranges([kv], [R])):
                qq = to_poly(_renorm(q))
            F = first(kv, R, qq)
            hit = ONE if inf else exists(kv, R, qq)
        outer = []
        brk = []
        for e in exits:
            single = len(exits) == 1
            if hit is ZERO:
                continue
            self.S = State(self.conj(pc0, hit), {})
            self.sync()
            ej = ONE if single else to_poly(subst(e.pc, {kv.args[0]: as_atom(F) or F}))
            # the exit is taken at its first occurrence
            pc = mul(hit, ej) if not single else hit
            if pc is ZERO:
                continue
            st = self.sub_state(e.st, kv, F, None)
            val = self.sub_val(e.val, kv, F)
            if e.kind == 'break':
                brk.append(Exit('break', self.conj(pc0, pc), st, None))
            else:
                outer.append(Exit(e.kind, self.conj(pc0, pc), st, val))
        self.exits.extend(outer)
        tail = None
        if st_exit is not None and hit is not ONE:
            self.S = State(self.conj(pc0, bnot(hit)), {})
            self.sync()
            if self.S.pc is not ZERO:
                tail = State(self.S.pc, self.sub_state(st_exit, kv, X, S0.st))
        if tail is None and not brk:
            self.S = None
            raise Dead()
        # merge the break states
        self.S = State(pc0, {})
        self.sync()
        S = tail
        for b in reversed(brk):
            s2 = State(b.pc, {r: v for r, v in b.st.items() if r in S0.st or r.op != 'root'})
            if S is None:
                S = s2
            else:
                S = self.merge_break(hit, len(brk) == 1, b, s2, S, F, X)
        self.S = S
        self.sync()

    def merge_break(self, hit, single, b, s2, S, F, X):
        """join the state at a break with the state at normal termination; the
        first-index term equals the trip count when there is no break"""
        from ev import State
        c = hit if single else b.pc
        st = {}
        for r in list(s2.st) + [x for x in S.st if x not in s2.st]:
            va, vb = s2.st.get(r), S.st.get(r)
            if va is None:
                va = self.root_default(r) if r.op != 'root' else vb
            if vb is None:
                vb = self.root_default(r) if r.op != 'root' else va
            if va is vb:
                st[r] = va
                continue
            if single:
                # va(F) with F := X (valid when not hit) equals vb ?
                fa = as_atom(F)
                if fa is not None and fa.op == 'first':
                    t = replace_val(va, fa, X)
                    if t is vb:
                        st[r] = va
                        continue
            st[r] = self.mux(c, va, vb)
        return State(self.disj(s2.pc, S.pc), st)

    def sub_val(self, v, kv, F):
        if v is None:
            return None
        return subst(v, {kv.args[0]: as_atom(F) or F})

    def sub_state(self, st, kv, F, keep):
        env = {kv.args[0]: as_atom(F) or F}
        u = kv.args[0]
        out = {}
        for r, v in st.items():
            if keep is not None and r.op == 'root' and r not in keep:
                continue
            if u in v.free:
                v = subst(v, env)
                if v.op == 'P':
                    v = T.trim_sums(v)
            out[r] = v
        return out

    # ------------------------------------------------------------ slots
    def havoc(self, st, slots, closed):
        st = dict(st)
        for key, s in slots.items():
            v = closed.get(key)
            r, path = key
            cur = st.get(r)
            if cur is None:
                cur = self.root_default(r)
            st[r] = self._setpath(cur, path, s.x if v is None else v)
        return st

    def _setpath(self, v, path, val):
        if not path:
            return val
        if v.op == 'or' and v.args[0].op == 'call':
            v = self.unseal(v)
        return setfield(v, path[0], self._setpath(self.getfield(v, path[0]), path[1:], val))

    def get_slot(self, st, key):
        r, path = key
        v = st.get(r)
        if v is None:
            v = self.root_default(r)
        for f in path:
            v = self.getfield(v, f)
        return v

    def modified(self, a, b, slots, closed):
        out = []
        for r in b:
            if r not in a and r.op == 'root':
                continue
            va = a.get(r)
            if va is None:
                va = self.root_default(r)
            self._diff(r, (), va, b[r], slots, out)
        return out

    def _diff(self, r, path, va, vb, slots, out):
        if va is vb or (r, path) in slots:
            return
        ta = va.args[0] if va.op == 'rec' else va.args[1] if va.op == 'or' else None
        tb_ = vb.args[0] if vb.op == 'rec' else vb.args[1] if vb.op == 'or' else None
        if ta is not None and ta == tb_ and T.REC_FIELDS.get(ta):
            for f, _ in T.REC_FIELDS[ta]:
                self._diff(r, path + (f,), self.getfield(va, f), self.getfield(vb, f), slots, out)
            return
        out.append((r, path))

    def drop_sub(self, slots, closed):
        for key in list(slots):
            r, p = key
            for i in range(len(p)):
                if (r, p[:i]) in slots:
                    del slots[key]
                    closed.pop(key, None)
                    break

    def slot_type(self, key, init):
        r, path = key
        t = self.rtype.get(r, ('oth', '?'))
        for f in path:
            t = dict(T.REC_FIELDS.get(t[1], ())).get(f, ('oth', '?')) if t[0] == 'rec' else ('oth', '?')
        if t[0] in ('int', 'bool', 'fld', 'vec', 'rec') and not (t[0] == 'vec' and t[1][0] == 'any'):
            return t
        e = T.etype_of(init)
        if e[0] == 'oth' and e[1] == '?':
            return t
        return e

    def mkslot(self, key, S0):
        s = Slot(key)
        s.init = self.get_slot(S0.st, key)
        s.var = fresh('x')
        s.vt = self.slot_type(key, s.init)
        if s.init.op == 'ptr' or s.init.op in ('bv', 'bvo', 'tv'):
            s.kind = 'ptr'
            a = list(s.init.args)
            s.x = mk(s.init.op, *a[:1], atom(s.var)) if s.init.op == 'ptr' else mk(s.init.op, *a[:-1], atom(s.var))
        elif s.vt[0] == 'oth' and s.init.op in ('oo', 'mux', 'clo', 'pobj', 'null', 'exc', 'or'):
            s.kind = 'oth'
            s.x = mk('oo', s.var, s.vt)
        else:
            s.kind = 'val'
            s.x = view(s.vt, s.var)
        return s

    # ------------------------------------------------------------ one iteration
    def one_iter(self, start, condf, bodyf, incf, posttest):
        from ev import State, Exit, Dead
        self.exits = []
        self.S = State(ONE, dict(start))
        self.sync()
        res = {'next': None, 'exit': None, 'c': ZERO, 'exits': []}

        def body():
            """body and increment; returns False if it never completes"""
            n0 = len(self.exits)
            try:
                bodyf()
            except Dead:
                self.S = None
            conts = [e for e in self.exits[n0:] if e.kind == 'cont']
            self.exits = self.exits[:n0] + [e for e in self.exits[n0:] if e.kind != 'cont']
            if conts:
                self.merge_exits([Exit('x', e.pc, e.st) for e in conts], self.S)
                self.sync()
            if self.S is None:
                return False
            try:
                incf()
            except Dead:
                self.S = None
                return False
            return True

        if not posttest:
            try:
                c = to_poly(condf())
            except Dead:
                res['exits'] = self.exits
                return res
            sc = self.S
            res['c'] = c
            if c is not ONE:
                res['exit'] = sc.st
            self.S = State(self.conj(sc.pc, c), dict(sc.st))
            if c is ZERO:
                res['next'] = None
                res['exits'] = self.exits
                return res
            self.sync()
            if body():
                res['next'] = self.S
            res['exits'] = self.exits
            return res
        if not body():
            res['exits'] = self.exits
            return res
        try:
            c = to_poly(condf())
        except Dead:
            res['exits'] = self.exits
            return res
        res['c'] = c
        if c is not ONE:
            res['exit'] = self.S.st
        if c is not ZERO:
            res['next'] = self.S
        res['exits'] = self.exits
        return res

    # ------------------------------------------------------------ recurrences
    def solve_round(self, todo, k, kv):
        done = {}
        # sequences of invariant length: the others may depend on that length
        for s in todo:
            if s.kind == 'val' and s.x.op == 'oa' and s.upd.op in ('arr', 'oa'):
                lenx = mk('len', s.x)
                if length(s.upd) is atom(lenx):
                    for o in todo:
                        if o is not s and s.var.args[0] in o.upd.free and contains(o.upd, lenx):
                            o.upd = replace_val(o.upd, lenx, length(s.init))
        names = {s.var.args[0] for s in todo}
        for s in todo:
            others = names - {s.var.args[0]}
            if s.kind == 'ptr':
                if s.upd.op != s.x.op or (s.upd.args[:1] != s.x.args[:1] if s.x.op == 'ptr' else s.upd.args[:-1] != s.x.args[:-1]):
                    if s.upd.free & (others | {s.var.args[0]}):
                        continue
                    done[s.key] = self.overwrite(s.upd, s.init, k, kv)
                    continue
                i = 1 if s.x.op == 'ptr' else -1
                u, x, init = s.upd.args[i], atom(s.var), s.init.args[i]
                if u.free & others:
                    continue
                r = self.solve_val(x, u, init, k, kv)
                if r is not None:
                    a = list(s.init.args)
                    a[i] = to_poly(r)
                    done[s.key] = mk(s.x.op, *a)
                continue
            if s.upd.free & others:
                r = self.solve_lenonly(s, todo, k, kv)
                if r is not None:
                    done[s.key] = r
                continue
            r = self.solve_val(s.x, s.upd, s.init, k, kv)
            if r is not None:
                done[s.key] = r
        return done

    def solve_lenonly(self, s, todo, k, kv):
        return None

    def overwrite(self, u, init, k, kv):
        km = sub(k, ONE)
        with assume([km]):
            v = subst(u, {kv.args[0]: as_atom(km) or km})
        return mux(ge0(km), v, init)

    def solve_val(self, x, u, init, k, kv):
        """value at the start of iteration k of a location with value x at the start
        of an iteration, u at its end and init before the loop"""
        if u is x:
            return init
        xn = naming(x)
        if xn is None:
            xn = x
        if not contains(u, xn):
            return self.overwrite(u, init, k, kv)
        r = self.one_shot(x, xn, u, init, k, kv)
        if r is not None:
            return r
        if x.op == 'P' and u.op == 'P':
            return self.solve_poly(x, xn, u, init, k, kv)
        if x.op == 'oa' and u.op in ('arr', 'oa'):
            return self.solve_seq(x, xn, u, init, k, kv)
        if u.op == 'mux':
            r = self.cond_overwrite(x, xn, u, init, k, kv)
            if r is not None:
                return r
        return None

    def one_shot(self, x, xn, u, init, k, kv):
        """the location changes in a single iteration only"""
        if u.op == 'P':
            src = u
        elif u.op == 'mux':
            src = u.args[0]
        else:
            return None
        seen = set()
        for _, m in src.args[0]:
            for q, _e in m:
                if q.op != 'eq0' or kv.args[0] not in q.free or q in seen or contains(q, xn):
                    continue
                seen.add(q)
                mm, p0 = self.affine(q.args[0], kv)
                if mm not in (1, -1):
                    continue
                if u.op == 'P':
                    if given1(u, q, ZERO) is not x:
                        continue
                    u1 = given1(u, q, ONE)
                else:
                    c, a, b = u.args
                    r0, r1 = given1(c, q, ZERO), given1(c, q, ONE)
                    if mux(r0, a, b) is not x:
                        continue
                    u1 = mux(r1, a, b)
                e = scale(p0, -mm)
                g = mul(ge0(e), lt(e, k))
                with assume([e, sub(sub(k, e), ONE)]):
                    v = subst(u1, {kv.args[0]: as_atom(e) or e})
                    v = replace_val(v, xn, init) if contains(v, xn) else v
                return mux(g, v, init)
        return None

    def cond_overwrite(self, x, xn, u, init, k, kv):
        c, a, b = u.args
        if a is x:
            c, a, b = bnot(c), b, a
        if b is x and not contains(a, xn) and not contains(c, xn):
            return self._lastw(kv, k, c, a, init)
        return None

    def _lastw(self, kv, k, c, val, init):
        j = fresh('j')
        set_nonneg(j)
        with assume(T._ranges([j], [k])):
            cj = to_poly(subst(c, {kv.args[0]: j}))
            vj = subst(val, {kv.args[0]: j})
        return lastw(j, k, cj, vj, init)

    def solve_poly(self, x, xn, u, init, k, kv):
        A, B = {}, {}
        xa = as_atom(x)
        for c, m in u.args[0]:
            f = [(a, e) for a, e in m if a is xa]
            rest = tuple((a, e) for a, e in m if a is not xa)
            if any(contains(a, xn) for a, e in rest):
                return None
            if not f:
                B[rest] = B.get(rest, 0) + c
            elif f[0][1] == 1:
                A[rest] = A.get(rest, 0) + c
            else:
                return None
        A, B = from_dict(A), from_dict(B)
        init = to_poly(init)
        if A is ONE:
            if kv.args[0] not in B.free:
                return add(init, mul(k, B))
            j = fresh('j')
            set_nonneg(j)
            with assume(T._ranges([j], [k])):
                bj = to_poly(subst(B, {kv.args[0]: j}))
            return add(init, sum_(j, k, bj))
        if mul(A, A) is A:
            c = bnot(A)
            if mul(A, B) is ZERO:
                return self._lastw(kv, k, c, given(B, c), init)
            return None
        if kv.args[0] not in A.free:
            r = mul(init, ppow(A, k))
            if B is not ZERO:
                j = fresh('j')
                set_nonneg(j)
                with assume(T._ranges([j], [k])):
                    bj = mul(to_poly(subst(B, {kv.args[0]: j})), ppow(A, sub(sub(k, ONE), atom(j))))
                r = add(r, sum_(j, k, bj))
            return r
        return None

    def solve_seq(self, x, xn, u, init, k, kv):
        ps = list(T._pieces(u))
        full = T._full(x)
        lenx = mk('len', x)
        # append / prepend
        for front in (True, False):
            if len(ps) > 1 and ps[0 if front else -1] is full:
                rest = ps[1:] if front else ps[:-1]
                r = self.append_form(x, xn, rest, init, k, kv, lenx, front)
                if r is not None:
                    return r
        if len(ps) == 1:
            pc = ps[0]
            cs, g, e = pc.args
            if len(cs) == 1 and g is ONE:
                n = to_poly(cs[0])
                L0 = length(init)
                if n is atom(lenx) or n is L0:
                    r = self.pointwise(x, xn, pc, init, k, kv, lenx, L0)
                    if r is not None:
                        return r
        # x is only used through its length, which does not change
        if length(u) is atom(lenx):
            L0 = length(init)
            t = replace_val(u, lenx, L0)
            if not contains(t, xn):
                return self.overwrite(t, init, k, kv)
        return None

    def append_form(self, x, xn, rest, init, k, kv, lenx, front):
        arr = mk('arr', tuple(rest))
        L0 = length(init)
        L = length(arr)
        if contains(L, xn):
            return None
        if kv.args[0] not in L.free:
            lk = add(L0, mul(k, L))
        else:
            j = fresh('j')
            set_nonneg(j)
            with assume(T._ranges([j], [k])):
                lj = to_poly(subst(L, {kv.args[0]: j}))
            lk = add(L0, sum_(j, k, lj))
        if contains(arr, lenx):
            arr = replace_val(arr, lenx, lk)
        if contains(arr, xn):
            arr = self.via_init(arr, x, xn, init, lk, L0)
            if arr is None or contains(arr, xn):
                return None
        ps = T._pieces(arr)
        j = fresh('j')
        set_nonneg(j)
        idx = atom(j) if front else sub(sub(k, ONE), atom(j))
        env = {kv.args[0]: as_atom(idx) or idx}
        with assume(T._ranges([j], [k])):
            if len(ps) == 1:
                pc = ps[0]
                vs, (cs, g, e) = open_b(pc, len(pc.args[0]), pc.args)
                for v in vs:
                    set_nonneg(v)
                cs = [to_poly(subst(c, env)) for c in cs]
                with assume(T._ranges(vs, cs)):
                    new = ('piece', [j] + list(vs), (k,) + tuple(cs), to_poly(subst(g, env)), subst(e, env))
            else:
                inner = subst(arr, env)
                n = length(inner)
                t = fresh('t')
                set_nonneg(t)
                with assume(T._ranges([t], [n])):
                    e = sel(inner, atom(t))
                new = ('piece', [j, t], (k, n), ONE, e)
        return mkarr([init, new] if front else [new, init])

    def via_init(self, arr, x, xn, init, lk, L0):
        return None

    def pointwise(self, x, xn, pc, init, k, kv, lenx, L0):
        vs, (e,) = open_b(pc, 1, (pc.args[2],))
        v = vs[0]
        set_nonneg(v)
        selx = mk('sel', x, atom(v))
        et = x.args[1]
        with assume(T._ranges([v], [L0])):
            if contains(e, lenx):
                e = replace_val(e, lenx, L0)
            r = self.one_elem(x, xn, v, e, selx, init, k, kv)
            if r is not None:
                return comp(v, L0, r)
            leaves = []
            y = self.leafview(et, leaves)
            r = self.replace_elem(e, selx, y, et, leaves)
            if contains(r, xn):
                r = self.replace_aliases(r, x, v, selx, y, et, leaves)
            if contains(r, xn):
                return None
            i0 = sel(init, atom(v))
            sol = self.solve_system(leaves, r, i0, k, kv)
            if sol is None:
                return None
        return comp(v, L0, sol)

    def one_elem(self, x, xn, v, e, selx, init, k, kv):
        """every iteration overwrites one element, a different one each time"""
        qs = set()
        seen = set()

        def find(n):
            if n in seen:
                return
            seen.add(n)
            if n.op == 'eq0' and kv.args[0] in n.free and v.args[0] in n.free and not contains(n, xn):
                qs.add(n)
            for y in T._kids(n.args):
                find(y)
        find(e)
        if len(qs) != 1:
            return None
        q = qs.pop()
        mm, p0 = self.affine(q.args[0], kv)
        if mm not in (1, -1):
            return None
        e0, e1 = decide(e, q, ZERO), decide(e, q, ONE)
        if naming(e0) is not naming(selval(x, v)):
            return None
        at = scale(p0, -mm)
        if e.op == 'P':
            return self.scan_elem(x, xn, v, to_poly(e1), at, init, k, kv)
        g = mul(ge0(at), lt(at, k))
        i0 = sel(init, atom(v))
        with assume([at, sub(sub(k, at), ONE)]):
            e1 = subst(e1, {kv.args[0]: as_atom(at) or at})
            if contains(e1, xn):
                e1 = replace_val(e1, naming(e0), i0)
                if contains(e1, xn):
                    return None
        return mux(g, e1, i0)

    def scan_elem(self, x, xn, v, e1, at, init, k, kv):
        """iteration number j sets the element at j + s to the one before it plus d(j)"""
        if self.affine(at, v)[0] != 1 or kv.args[0] in at.free:
            return None
        g = mul(ge0(at), lt(at, k))
        with assume([at, sub(sub(k, at), ONE)]):
            e1 = to_poly(subst(e1, {kv.args[0]: as_atom(at) or at}))
            prev = mk('sel', x, sub(atom(v), ONE))
            d = sub(e1, atom(prev))
            if contains(d, xn):
                return None
            base = to_poly(sel(init, sub(sub(atom(v), at), ONE)))
            if v.args[0] in d.free:
                return None
            val = add(base, mul(d, add(at, ONE)))
        i0 = sel(init, atom(v))
        return mux(g, val, i0)

    def leafview(self, t, leaves, path=()):
        """havocked value of type t, records split into fields"""
        if t[0] == 'rec' and T.REC_FIELDS.get(t[1]):
            return mkrec(t[1], tuple((f, self.leafview(ft, leaves, path + (f,))) for f, ft in T.REC_FIELDS[t[1]]))
        w = fresh('y')
        xv = view(t, w)
        leaves.append((path, w, xv))
        return xv

    def replace_elem(self, e, selx, y, et, leaves):
        """replace the element node by the leaf variables"""
        if len(leaves) == 1 and not leaves[0][0]:
            return replace_val(e, selx, as_node(leaves[0][2]))
        orx = mk('or', selx, et[1]) if et[0] == 'rec' else None
        memo = {}

        def go(n):
            if n is orx:
                return y
            if not contains(n, selx):
                return n
            r = memo.get(n)
            if r is None:
                r = T._rebuild(n, go, {})
                memo[n] = r
            return r
        return go(e)

    def replace_aliases(self, e, x, v, selx, y, et, leaves):
        """element x[i] read under a condition that implies i == v is the element
        at v itself"""
        sels = []
        seen = set()

        def find(n):
            if n in seen:
                return
            seen.add(n)
            if n.op == 'sel' and n.args[0] is x and n is not selx:
                sels.append(n)
            for k in T._kids(n.args):
                find(k)
        find(e)
        for s in sels:
            d = sub(s.args[1], atom(v))
            q = as_atom(eq0(d))
            if q is None:
                continue
            orx = mk('or', s, et[1]) if et[0] == 'rec' else None
            yn = as_node(leaves[0][2]) if len(leaves) == 1 and not leaves[0][0] else None
            memo = {}

            def go(n, on):
                if on and orx is not None and n is orx:
                    return y
                if on and yn is not None and n is s:
                    return yn
                if not contains(n, s):
                    return n
                key = (n, on)
                r = memo.get(key)
                if r is not None:
                    return r
                if n.op == 'P' and not on:
                    r = ZERO
                    for c, m in n.args[0]:
                        o = any(a is q for a, _ in m)
                        t = const(c)
                        for a, ex in m:
                            b = to_poly(go(a, o))
                            for _ in range(ex):
                                t = mul(t, b)
                        r = add(r, t)
                elif n.op == 'mux' and not on:
                    c = n.args[0]
                    oa, ob_ = mul(c, atom(q)) is c, mul(c, atom(q)) is atom(q)
                    r = mux(go(c, False), go(n.args[1], oa), go(n.args[2], False))
                else:
                    r = T._rebuild(n, lambda k: go(k, on), {})
                memo[key] = r
                return r
            e = go(e, False)
        return e

    def solve_system(self, leaves, e, i0, k, kv):
        """closed form of one array element (a record of leaves)"""
        def get(v, path):
            for f in path:
                v = self.getfield(v, f)
            return v
        env = {}
        sols = {}
        todo = list(leaves)
        while todo:
            progress = False
            names = {w.args[0] for _, w, _ in todo}
            for lf in list(todo):
                path, w, xv = lf
                u = get(e, path)
                if env:
                    u = subst(u, env)
                if u.free & (names - {w.args[0]}):
                    continue
                r = self.solve_val(xv, u, get(i0, path), k, kv)
                if r is None:
                    continue
                sols[path] = r
                env[w.args[0]] = as_node(r)
                todo.remove(lf)
                progress = True
            if not progress:
                return None
        if len(leaves) == 1 and not leaves[0][0]:
            return sols[()]

        def build(t, path):
            if t[0] == 'rec' and T.REC_FIELDS.get(t[1]):
                return mkrec(t[1], tuple((f, build(ft, path + (f,))) for f, ft in T.REC_FIELDS[t[1]]))
            return sols[path]
        t = T.etype_of(e)
        return build(t, ())

    def solve_scc(self, todo, k, kv):
        """mutually dependent locations: iterate of a canonical step function"""
        dep = {}
        for s in todo:
            dep[s.key] = {t.key for t in todo if t.var.args[0] in s.upd.free}
            dep[s.key].add(s.key)
        # transitive closure
        changed = True
        while changed:
            changed = False
            for a in dep:
                n = set(dep[a])
                for b in dep[a]:
                    n |= dep[b]
                if n != dep[a]:
                    dep[a] = n
                    changed = True
        best = min(todo, key=lambda s: len(dep[s.key]))
        scc = [s for s in todo if s.key in dep[best.key]]
        scc.sort(key=lambda s: (show(s.init), s.key[0].args[1] if s.key[0].op == 'root' else '', str(s.key[1])))
        vs = [s.var for s in scc]
        kk = fresh('k')
        set_nonneg(kk)
        ups = []
        inits = []
        for s in scc:
            if s.kind == 'ptr':
                i = 1 if s.x.op == 'ptr' else -1
                if s.upd.op != s.x.op or s.upd.args[0] is not s.x.args[0]:
                    return {}
                ups.append(subst(s.upd.args[i], {kv.args[0]: kk}))
                inits.append(s.init.args[i])
            else:
                ups.append(subst(s.upd, {kv.args[0]: kk}))
                inits.append(s.init)
        done = {}
        nodes = {}
        for i, s in enumerate(scc):
            r = mkiter(vs + [kk], tuple(as_node(u) for u in ups), tuple(inits), k, i)
            nd = naming(r)
            if s.kind == 'ptr':
                j = 1 if s.x.op == 'ptr' else -1
                a = list(s.init.args)
                a[j] = to_poly(r)
                done[s.key] = mk(s.x.op, *a)
            elif nd is not None and nd.op == 'iter':
                done[s.key] = view(s.vt, nd)
            else:
                done[s.key] = r
        return done

    # ------------------------------------------------------------ trip count
    def trip(self, c, kv):
        c = to_poly(c)
        if c is ZERO:
            return ZERO
        if c is ONE:
            return atom(T.INFA)
        # conjunctions
        for cc, m in c.args[0]:
            for a, e in m:
                if a.op in T.IVERSON and mul(c, atom(a)) is c and as_atom(c) is not a:
                    rest = given1(c, a, ONE)
                    return self.tmin(self.trip(atom(a), kv), self.trip(rest, kv))
                if a.op in T.IVERSON and mul(c, atom(a)) is ZERO:
                    na = bnot(atom(a))
                    if na is c:
                        continue
                    rest = given1(c, a, ZERO)
                    return self.tmin(self.trip(na, kv), self.trip(rest, kv))
        a = as_atom(c)
        na = as_atom(bnot(c))
        p = None
        if a is not None and a.op == 'ge0':
            p = a.args[0]
        elif na is not None and na.op == 'ge0':
            p = sub(const(-1), na.args[0])
        if p is not None:
            m, p0 = self.affine(p, kv)
            if m is not None and m < 0:
                return pos(add(floordiv(p0, -m), ONE))
        if a is not None and a.op == 'eq0':
            m, p0 = self.affine(a.args[0], kv)
            if m:
                return eq0(p0)
        if na is not None and na.op == 'eq0':
            m, p0 = self.affine(na.args[0], kv)
            if m in (1, -1):
                s = scale(p0, -m)
                if entails(neg(s)) and not entails(s):
                    return ZERO
                return s
            if m:
                return floordiv(scale(p0, -1 if m > 0 else 1), abs(m))
        if kv.args[0] not in c.free:
            return mul(c, atom(T.INFA))
        j = fresh('j')
        set_nonneg(j)
        return first(j, atom(T.INFA), bnot(to_poly(subst(c, {kv.args[0]: j}))))

    def affine(self, p, kv):
        m = dict_of(p).get(((kv, 1),))
        if m is None:
            return None, None
        p0 = sub(p, scale(atom(kv), m))
        if kv.args[0] in p0.free:
            return None, None
        return m, p0

    def tmin(self, a, b):
        if T._inf_sign(a) > 0:
            return b
        if T._inf_sign(b) > 0:
            return a
        if a is b:
            return a
        if entails(sub(a, b)):
            return b
        if entails(sub(b, a)):
            return a
        fa, fb = self.unbounded(a), self.unbounded(b)
        if fa is None and fb is not None:
            a, b, fa, fb = b, a, fb, fa
        if fa is not None:
            j, qa = fa
            if fb is not None:
                qb = to_poly(subst(fb[1], {fb[0].args[0]: j}))
                return first(j, atom(T.INFA), bnot(mul(bnot(qa), bnot(qb))))
            with assume(T._ranges([j], [b])):
                qa = to_poly(_renorm(qa))
            return first(j, b, qa)
        if show(a) > show(b):
            a, b = b, a
        return sub(a, pos(sub(a, b)))

    def unbounded(self, a):
        x = as_atom(a)
        if x is None or x.op != 'first' or x.args[0] is not atom(T.INFA) and as_atom(to_poly(x.args[0])) is not T.INFA:
            return None
        vs, (q,) = T.open_b(x, 1, (x.args[1],))
        set_nonneg(vs[0])
        return vs[0], to_poly(q)


def as_node(v):
    if v.op == 'P':
        a = as_atom(v)
        return a if a is not None else v
    return v


def replace_val(v, x, e):
    """replace the atom x by the value e inside v"""
    memo = {}
    en = as_node(e)

    def go(n):
        if n is x:
            return en
        if not contains(n, x):
            return n
        r = memo.get(n)
        if r is None:
            r = T._rebuild(n, go, {})
            memo[n] = r
        return r
    return go(v)


def _renorm(p):
    memo = {}

    def go(n):
        if not n.free and n.h == 0:
            return n
        r = memo.get(n)
        if r is None:
            r = T._rebuild(n, go, {}) if n.op not in ('v',) else n
            memo[n] = r
        return r
    r = ZERO
    for c, m in p.args[0]:
        t = const(c)
        for a, e in m:
            b = to_poly(T.construct(a.op, a.args) if a.op in ('ge0', 'eq0') else a)
            for _ in range(e):
                t = mul(t, b)
        r = add(r, t)
    return r


def decide(e, q, val):
    """e with the 0/1 atom q replaced everywhere"""
    memo = {}

    def go(n):
        if not contains(n, q):
            return n
        if n.op == 'P':
            n = given1(n, q, val)
            if not contains(n, q):
                return n
        r = memo.get(n)
        if r is None:
            r = memo[n] = T._rebuild(n, go, {})
        return r
    return go(e)


def selval(x, v):
    return sel(x, atom(v))


def given1(p, a, val):
    """polynomial p with the 0/1 atom a set to val"""
    r = ZERO
    for c, m in p.args[0]:
        t = const(c)
        for b, e in m:
            t = mul(t, val if b is a else T.power(atom(b), e))
        r = add(r, t)
    return r


def given(p, c):
    """p simplified under the 0/1 condition c = 1"""
    if p.op != 'P' or c.op != 'P':
        return p
    atoms = []
    for _, m in c.args[0]:
        for a, e in m:
            if a.op in T.IVERSON and a not in atoms:
                atoms.append(a)
    for a in atoms:
        if mul(c, atom(a)) is c:
            p = given1(p, a, ONE)
        elif mul(c, atom(a)) is ZERO:
            p = given1(p, a, ZERO)
    return p
