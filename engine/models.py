"""Abstract semantics of the library operations the program uses: containers and
iterators, optional/map/pair, smart pointers, byte copies and typed views of byte
buffers, the field element class, the random generator and the message
interface.  Anything not listed here becomes an opaque value (and the affected
obligations stay undecided)."""
from term import *
import term as T

BYTE = ('int', 8, True)
IGN = ('std::chrono', 'std::basic_ostream', 'std::basic_ios', 'frn::lib::logging', 'std::basic_stringstream', 'std::this_thread',
       'std::setw', 'std::setfill', 'std::put_time', 'std::endl', 'std::flush', 'std::ios_base')
NETROOT = mk('glob', 'NET')


def cmp_ptr(a):
    return a.op in ('ptr', 'bv', 'tv', 'bvo')


class Models:
    # ------------------------------------------------------------ helpers
    def esize(self, vt):
        if vt[0] == 'int':
            return vt[1] // 8
        if vt[0] == 'fld':
            return vt[1]
        if vt[0] == 'bool':
            return 1
        return None

    def rep(self, v, vt):
        """integer image of a value of type vt"""
        if vt[0] == 'fld':
            return atom(mk('res', node_of(v))) if cval(v) != 0 else ZERO
        return v

    def veq(self, a, b, vt=None):
        """[a == b] on values"""
        if a is b:
            return ONE
        if a.op == 'P' and b.op == 'P':
            if vt is not None and vt[0] == 'fld':
                return eq0(sub(a, b), True)
            return eq(a, b)
        if a.op in ('arr', 'oa') and b.op in ('arr', 'oa'):
            return self.seq_eq(a, b, vt)
        if a.op in ('rec', 'or') and b.op in ('rec', 'or'):
            t = a.args[0] if a.op == 'rec' else a.args[1]
            r = ONE
            for n, ft in T.REC_FIELDS.get(t, ()):
                r = mul(r, self.veq(self.getfield(a, n), self.getfield(b, n), ft))
            return r
        return self.peq(a, b)

    def seq_eq(self, a, b, vt=None):
        la, lb = length(a), length(b)
        c = eq(la, lb)
        if c is ZERO:
            return ZERO
        v = fresh('q')
        set_nonneg(v)
        with assume(T._ranges([v], [la])):
            d = bnot(self.veq(sel(a, atom(v)), sel(b, atom(v)), vt[1] if vt and vt[0] == 'vec' else None))
        return mul(c, bnot(exists(v, la, d)))

    def throw_if(self, c, exc):
        c = to_poly(c)
        if c is ZERO:
            return

        def thr():
            self.leave('throw', mk('exc', exc, (), self.lastline or ()))
        self.branch(c, thr, lambda: None)

    def real_args(self, args):
        out = []
        for a in args:
            t = self.ty(self.deref_t(a[2]))
            if t.get('q') == 'std::allocator':
                continue
            out.append(a)
        return out

    def range_of(self, p, q):
        """sequence between two pointers"""
        n = self.pdiff(q, p)
        if p.op == 'ptr':
            return slice_(self.rd(p.args[0]), p.args[1], n)
        v = fresh('r')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            e = self.rd(self.deref(self.padd(p, atom(v))))
        return comp(v, n, e)

    def pdiff(self, q, p):
        r = self.binop('-', q, p, 0)
        return to_poly(r)

    def elem_t(self, loc):
        t = self.loc_type(loc) if loc.op == 'loc' else ('oth', '?')
        return t[1] if t[0] == 'vec' else None

    # ------------------------------------------------------------ byte access
    def ptr_cast(self, v, st, tt):
        if tt['k'] != 'ptr' or st['k'] not in ('ptr', 'arr'):
            return v
        to = self.vt(tt['t'])
        k = self.esize(to)
        if v.op == 'mux':
            return mux(v.args[0], self.ptr_cast(v.args[1], st, tt), self.ptr_cast(v.args[2], st, tt))
        if self.ty(tt['t'])['k'] == 'void' or k is None:
            return v
        if v.op == 'ptr':
            et = self.elem_t(v.args[0])
            if et is None or et == to:
                return v
            ek = self.esize(et)
            if ek is None:
                raise Exception('cast')
            if k == 1:
                return v if ek == 1 else mk('bv', v.args[0], et, scale(v.args[1], ek))
            if ek == 1:
                return mk('tv', v.args[0], k, to, v.args[1])
            return v if ek == k else mk('null')
        if v.op == 'pobj':
            lt_ = self.loc_type(v.args[0])
            ek = self.esize(lt_)
            if k == 1 and ek and ek > 1:
                return mk('bvo', v.args[0], lt_, ZERO)
            return v
        if v.op == 'bv' and k > 1:
            ek = self.esize(v.args[1])
            if ek == k:
                return mk('ptr', v.args[0], floordiv(v.args[2], k))
        if v.op == 'bvo' and k > 1 and k == self.esize(v.args[1]):
            return mk('pobj', v.args[0])
        if v.op == 'tv':
            if k == 1:
                return mk('ptr', v.args[0], v.args[3])
            return mk('tv', v.args[0], k, to, v.args[3])
        return v

    def as_bytes(self, p):
        """byte pointer for p"""
        if p.op == 'ptr':
            et = self.elem_t(p.args[0])
            ek = self.esize(et) if et else 1
            if ek == 1:
                return p
            if ek is None:
                return None
            return mk('bv', p.args[0], et, scale(p.args[1], ek))
        if p.op == 'pobj':
            root, path = p.args[0].args[:2]
            if path and path[-1][0] == 'f':
                up = mk('loc', root, path[:-1])
                if self.loc_type(up)[0] == 'fld':
                    p = mk('pobj', up)       # the representation of a field element
            lt_ = self.loc_type(p.args[0])
            if lt_[0] == 'vec':
                return self.as_bytes(mk('ptr', p.args[0], ZERO))
            ek = self.esize(lt_)
            return mk('bvo', p.args[0], lt_, ZERO) if ek else None
        if p.op in ('bv', 'bvo'):
            return p
        if p.op == 'tv':
            return mk('ptr', p.args[0], p.args[3])
        if p.op == 'oo':
            return self.padd(p, ZERO)
        return None

    def byte_at(self, p, j):
        """byte j after byte pointer p"""
        j = to_poly(j)
        if p.op == 'ptr':
            return sel(self.rd(p.args[0]), add(p.args[1], j))
        if p.op == 'bv':
            k = self.esize(p.args[1])
            o = add(p.args[2], j)
            i = floordiv(o, k)
            el = sel(self.rd(p.args[0]), i)
            return tb(k, self.rep(el, p.args[1]), sub(o, scale(i, k)))
        if p.op == 'bvo':
            k = self.esize(p.args[1])
            return tb(k, self.rep(self.rd(p.args[0]), p.args[1]), add(p.args[2], j))
        raise self.uns('bytes of ' + p.op)

    def uns(self, m):
        import ev
        return ev.Unsupported(m)

    def read_view(self, x):
        if x.op == 'tv':
            k, to = x.args[1], x.args[2]
            v = fresh('y')
            set_nonneg(v)
            with assume(T._ranges([v], [const(k)])):
                b = self.byte_at(mk('ptr', x.args[0], x.args[3]), atom(v))
            r = mkfb(k, v, b)
            return self.hom(r) if to[0] == 'fld' else r
        return self.byte_at(x, ZERO)

    def write_view(self, x, val):
        if x.op == 'tv':
            k, to = x.args[1], x.args[2]
            self.put_bytes(mk('ptr', x.args[0], x.args[3]), const(k), lambda j: tb(k, self.rep(val, to), j))
            return
        raise self.uns('write of one byte of a larger object')

    def put_bytes(self, p, n, f):
        """store bytes f(0..n-1) at byte pointer p"""
        n = to_poly(n)
        if n is ZERO:
            return
        if p.op == 'ptr':
            old = self.rd(p.args[0])
            L = length(old)
            i = p.args[1]
            v = fresh('w')
            set_nonneg(v)
            with assume(T._ranges([v], [L])):
                c = mul(ge0(sub(atom(v), i)), lt(atom(v), add(i, n)))
                with assume([sub(atom(v), i), sub(sub(add(i, n), atom(v)), ONE)]):
                    new = f(sub(atom(v), i))
                e = mux(c, new, sel(old, atom(v)))
            self.wr(p.args[0], comp(v, L, e))
            return
        if p.op == 'bvo' and cval(p.args[2]) == 0:
            k = self.esize(p.args[1])
            if cval(n) == k:
                v = fresh('y')
                set_nonneg(v)
                with assume(T._ranges([v], [const(k)])):
                    b = f(atom(v))
                r = mkfb(k, v, b)
                self.wr(p.args[0], self.hom(r) if p.args[1][0] == 'fld' else r)
                return
        if p.op == 'bv':
            k = self.esize(p.args[1])
            i = floordiv(p.args[2], k)
            m = floordiv(n, k)
            if scale(i, k) is p.args[2] and scale(m, k) is n:
                old = self.rd(p.args[0])
                L = length(old)
                v = fresh('w')
                set_nonneg(v)
                y = fresh('y')
                set_nonneg(y)
                with assume(T._ranges([v], [L])):
                    c = mul(ge0(sub(atom(v), i)), lt(atom(v), add(i, m)))
                    with assume([sub(atom(v), i), sub(sub(add(i, m), atom(v)), ONE)] + T._ranges([y], [const(k)])):
                        r = mkfb(k, y, f(add(scale(sub(atom(v), i), k), atom(y))))
                    r = self.hom(r) if p.args[1][0] == 'fld' else r
                    e = mux(c, r, sel(old, atom(v)))
                self.wr(p.args[0], comp(v, L, e))
                return
        raise self.uns('byte store to ' + p.op)

    def m_memcpy(self, e, obj, args):
        d, s, n = self.ev(args[0]), self.ev(args[1]), to_poly(self.ev(args[2]))
        if n is ZERO:
            return d
        db, sb = self.as_bytes(d), self.as_bytes(s)
        if db is None or sb is None:
            raise self.uns('memcpy of this kind of object %s %s' % (d, s))
        # snapshot of the source
        snap = None
        if db.op == 'ptr' and db.args[0].op == 'loc':
            snap = sb
        self.put_bytes(db, n, lambda j: self.byte_at(sb, j))
        return d

    # ------------------------------------------------------------ dispatch
    def model(self, q, ref, e, obj, args):
        m = TABLE.get(q)
        if m is not None:
            return getattr(self, m)(e, obj, self.real_args(args))
        if q.startswith('verif_'):
            return self.x_shapes(q[6:], args)
        for p in IGN:
            if q.startswith(p):
                return self.ignored(ref)
        if q == 'std::operator<<' or q == 'std::operator>>':
            return self.ignored(ref)
        if self.field_model and (q.startswith('frn::lib::math::FpElement::') or q.startswith('frn::lib::math::operator')
                                 or q.startswith('frn::lib::math::RingElement::')):
            r = self.fp_model(q.split('::')[-1], ref, e, obj, args)
            if r is not NotImplemented:
                return r
        if self.prg_model and q.startswith('frn::lib::primitives::PRG::'):
            r = self.prg_call(q.split('::')[-1], ref, e, obj, args)
            if r is not NotImplemented:
                return r
        i = q.rfind('::')
        cls, name = q[:i], q[i + 2:]
        c = CLS.get(cls)
        if c is not None:
            f = getattr(self, c + '_' + OPN.get(name, name), None)
            if f is not None:
                return f(e, obj, self.real_args(args))
            if name.startswith('operator ') and c in ('opt', 'up'):
                return getattr(self, c + '_bool')(e, obj, args)
            if name.startswith('operator ') and c == 'at':
                return self.rd(self.lv(obj))
        if cls in ('std', '__gnu_cxx', 'std::__cxx11') and name.startswith('operator'):
            return self.std_operator(name[8:], ref, e, obj, args)
        return self.extra_model(q, ref, e, obj, args)

    def extra_model(self, q, ref, e, obj, args):
        return NotImplemented

    def ignored(self, ref):
        rt = self.ty(ref['rt'])
        if rt['k'] == 'void':
            return None
        n = mk('sym', 'ignored')
        if rt['k'] in ('ref', 'rref'):
            return mk('oo', n, ('oth', 'ptr'))
        return view(self.vt(ref['rt']), n)

    # ------------------------------------------------------------ free functions
    def m_move(self, e, obj, args):
        if len(args) == 3:
            return self.m_copy(e, obj, args)
        return self.pobj(self.lv(args[0]))

    def m_min(self, e, obj, args):
        return self.minmax(args, 1)

    def m_max(self, e, obj, args):
        return self.minmax(args, -1)

    def minmax(self, args, s):
        if len(args) != 2:
            raise self.uns('min of a list')
        a, b = to_poly(self.ev(args[0])), to_poly(self.ev(args[1]))
        d = scale(sub(a, b), s)
        # min(a,b) = a - pos(a-b); max(a,b) = a + pos(b-a)
        r = sub(a, scale(pos(d), s))
        r2 = sub(b, scale(pos(neg(d)), s))
        if len(show(r2)) < len(show(r)):
            r = r2
        return self.pobj(self.new_root('mm', ('int', 64, False), r))

    def m_abs(self, e, obj, args):
        a = to_poly(self.ev(args[0]))
        return add(pos(a), pos(neg(a)))

    def m_swap(self, e, obj, args):
        a, b = self.lv(args[0]), self.lv(args[1])
        va, vb = self.rd(a), self.rd(b)
        self.wr(a, vb)
        self.wr(b, va)

    def m_find(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        loc = self.lv(args[2])
        n = self.pdiff(q, p)
        val = self.rd(loc)
        vt = self.loc_type(loc) if loc.op == 'loc' else None
        return self.padd(p, self.first_such(p, n, lambda x: self.veq(x, val, vt)))

    def first_such(self, p, n, f):
        v = fresh('f')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = f(self.rd(self.deref(self.padd(p, atom(v)))))
        return first(v, n, c)

    def m_find_if(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        g = self.ev(args[2])
        return self.padd(p, self.first_such(p, self.pdiff(q, p), lambda x: to_poly(self.pure_call(g, [x]))))

    def pure_call(self, g, vals):
        if g.op == 'clo':
            return self.call_closure(g, None, vals)
        raise self.uns('call of an unknown function object')

    def any_such(self, args, inv):
        p, q = self.ev(args[0]), self.ev(args[1])
        g = self.ev(args[2])
        n = self.pdiff(q, p)
        v = fresh('f')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = to_poly(self.pure_call(g, [self.rd(self.deref(self.padd(p, atom(v))))]))
        return exists(v, n, bnot(c) if inv else c)

    def m_any_of(self, e, obj, args):
        return self.any_such(args, False)

    def m_none_of(self, e, obj, args):
        return bnot(self.any_such(args, False))

    def m_all_of(self, e, obj, args):
        return bnot(self.any_such(args, True))

    def m_count(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        loc = self.lv(args[2])
        val = self.rd(loc)
        n = self.pdiff(q, p)
        v = fresh('f')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = self.veq(self.rd(self.deref(self.padd(p, atom(v)))), val, self.loc_type(loc) if loc.op == 'loc' else None)
        return sum_(v, n, c)

    def m_count_if(self, e, obj, args):
        p, q, g = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
        n = self.pdiff(q, p)
        v = fresh('f')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = to_poly(self.pure_call(g, [self.rd(self.deref(self.padd(p, atom(v))))]))
        return sum_(v, n, c)

    def m_binary_search(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        loc = self.lv(args[2])
        val = self.rd(loc)
        n = self.pdiff(q, p)
        v = fresh('f')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = self.veq(self.rd(self.deref(self.padd(p, atom(v)))), val)
        return exists(v, n, c)

    def m_lower_bound(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        val = to_poly(self.ev(args[2]))
        return self.padd(p, self.first_such(p, self.pdiff(q, p), lambda x: ge0(sub(to_poly(x), val))))

    def m_equal(self, e, obj, args):
        p, q, r = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
        a = self.range_of(p, q)
        b = self.range_of(r, self.padd(r, self.pdiff(q, p)))
        if len(args) == 4:
            b = self.range_of(r, self.ev(args[3]))
        return self.seq_eq(a, b)

    def m_distance(self, e, obj, args):
        return self.pdiff(self.ev(args[1]), self.ev(args[0]))

    def m_advance(self, e, obj, args):
        l = self.lv(args[0])
        self.wr(l, self.padd(self.rd(l), to_poly(self.ev(args[1]))))

    def m_next(self, e, obj, args):
        return self.padd(self.ev(args[0]), to_poly(self.ev(args[1])) if len(args) > 1 else ONE)

    def m_prev(self, e, obj, args):
        return self.padd(self.ev(args[0]), neg(to_poly(self.ev(args[1])) if len(args) > 1 else ONE))

    def m_begin(self, e, obj, args):
        return mk('ptr', self.lv(args[0]), ZERO)

    def m_end(self, e, obj, args):
        l = self.lv(args[0])
        return mk('ptr', l, length(self.rd(l)))

    def m_size(self, e, obj, args):
        return length(self.rd(self.lv(args[0])))

    def m_empty(self, e, obj, args):
        return eq0(length(self.rd(self.lv(args[0]))))

    def m_data(self, e, obj, args):
        return mk('ptr', self.lv(args[0]), ZERO)

    def m_copy(self, e, obj, args):
        p, q, d = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
        return self.put_range(d, self.range_of(p, q))

    def m_copy_n(self, e, obj, args):
        p, n, d = self.ev(args[0]), to_poly(self.ev(args[1])), self.ev(args[2])
        return self.put_range(d, self.range_of(p, self.padd(p, n)))

    def put_range(self, d, src):
        n = length(src)
        if d.op == 'backins':
            l = d.args[0]
            self.wr(l, cat(self.rd(l), src))
            return d
        if d.op != 'ptr':
            raise self.uns('copy to ' + d.op)
        old = self.rd(d.args[0])
        L = length(old)
        i = d.args[1]
        v = fresh('w')
        set_nonneg(v)
        with assume(T._ranges([v], [L])):
            c = mul(ge0(sub(atom(v), i)), lt(atom(v), add(i, n)))
            with assume([sub(atom(v), i), sub(sub(add(i, n), atom(v)), ONE)]):
                new = sel(src, sub(atom(v), i))
            x = mux(c, new, sel(old, atom(v)))
        self.wr(d.args[0], comp(v, L, x))
        return self.padd(d, n)

    def m_fill(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        val = self.ev(args[2])
        self.put_range(p, comp(fresh('u'), self.pdiff(q, p), val))

    def m_fill_n(self, e, obj, args):
        p, n = self.ev(args[0]), to_poly(self.ev(args[1]))
        return self.put_range(p, comp(fresh('u'), n, self.ev(args[2])))

    def m_memset(self, e, obj, args):
        d, c, n = self.ev(args[0]), to_poly(self.ev(args[1])), to_poly(self.ev(args[2]))
        self.put_bytes(self.as_bytes(d), n, lambda j: c)
        return d

    def m_iota(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        c = to_poly(self.ev(args[2]))
        v = fresh('u')
        set_nonneg(v)
        self.put_range(p, comp(v, self.pdiff(q, p), add(atom(v), c)))

    def m_back_inserter(self, e, obj, args):
        return mk('backins', self.lv(args[0]))

    def m_transform(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        n = self.pdiff(q, p)
        v = fresh('t')
        set_nonneg(v)
        two = len(args) == 5
        d = self.ev(args[3 if two else 2])
        g = self.ev(args[4 if two else 3])
        with assume(T._ranges([v], [n])):
            xs = [self.rd(self.deref(self.padd(p, atom(v))))]
            if two:
                xs.append(self.rd(self.deref(self.padd(self.ev(args[2]), atom(v)))))
            r = self.pure_call(g, xs)
        return self.put_range(d, comp(v, n, r))

    def m_accumulate(self, e, obj, args):
        p, q = self.ev(args[0]), self.ev(args[1])
        init = self.ev(args[2])
        n = self.pdiff(q, p)
        if len(args) == 3:
            v = fresh('t')
            set_nonneg(v)
            with assume(T._ranges([v], [n])):
                x = self.rd(self.deref(self.padd(p, atom(v))))
            return add(init, sum_(v, n, to_poly(x)))
        g = self.ev(args[3])
        acc = self.new_root('acc', self.vt(self.deref_t(e[2])), init)
        idx = self.new_root('it', ('int', 64, True), ZERO)

        def b():
            i = to_poly(self.rd(idx))
            self.wr(acc, self.pure_call(g, [self.rd(acc), self.rd(self.deref(self.padd(p, i)))]))
        self.run_loop(lambda: lt(to_poly(self.rd(idx)), n), b, lambda: self.wr(idx, add(to_poly(self.rd(idx)), ONE)), 0)
        return self.rd(acc)

    def m_inner_product(self, e, obj, args):
        p, q, r = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
        init = self.ev(args[3])
        if len(args) > 4:
            raise self.uns('inner_product with functions')
        n = self.pdiff(q, p)
        v = fresh('t')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            x = mul(to_poly(self.rd(self.deref(self.padd(p, atom(v))))), to_poly(self.rd(self.deref(self.padd(r, atom(v))))))
        return add(init, sum_(v, n, x))

    def m_for_each(self, e, obj, args):
        p, q, g = self.ev(args[0]), self.ev(args[1]), self.ev(args[2])
        n = self.pdiff(q, p)
        idx = self.new_root('it', ('int', 64, True), ZERO)
        fn = self.p.fns.get(self.p.recs[g.args[0]]['op']['k']) if g.op == 'clo' else None
        if fn is None:
            raise self.uns('for_each')

        def b():
            i = to_poly(self.rd(idx))
            el = self.deref(self.padd(p, i))
            isref = self.ty(fn['params'][0]['t'])['k'] in ('ref', 'rref')
            if isref:
                self.call_closure_locs(g, [el])
            else:
                self.call_closure(g, None, [self.rd(el)])
        self.run_loop(lambda: lt(to_poly(self.rd(idx)), n), b, lambda: self.wr(idx, add(to_poly(self.rd(idx)), ONE)), 0)
        return g

    def m_make_pair(self, e, obj, args):
        t = self.vt(e[2] if self.ty(e[2])['k'] == 'rec' else e[3]['rt'])
        return mkrec(t[1], (('first', self.ev(args[0])), ('second', self.ev(args[1]))))

    def m_make_optional(self, e, obj, args):
        t = self.vt(e[3]['rt'])
        return mkrec(t[1], (('has', ONE), ('val', self.ev(args[0]))))

    def m_make_ptr(self, e, obj, args):
        t = self.ty(e[3]['rt'])
        inner = t['a'][0]
        it = self.ty(inner)
        if it['k'] == 'arr':
            n = to_poly(self.ev(args[0]))
            loc = self.new_root('heap', ('vec', self.vt(it['t'])), comp(fresh('z'), n, self.zero(self.vt(it['t']), it['t'])))
            return mk('ptr', loc, ZERO)
        v = self.construct(inner, args)
        return self.pobj(self.new_root('heap', self.vt(inner), v))

    def construct(self, tid, args):
        """object of type tid from constructor arguments (forwarding functions)"""
        tid = self.deref_t(tid)
        vt = self.vt(tid)
        t = self.ty(tid)
        if vt[0] in ('int', 'bool'):
            return self.ev(args[0]) if args else ZERO
        if len(args) == 1:
            at = self.vt(self.deref_t(args[0][2]))
            if at == vt:
                return self.ev(args[0])
        if vt[0] == 'fld':
            return self.hom(to_poly(self.ev(args[0]))) if args else ZERO
        if vt[0] == 'vec':
            return self.vec_new(vt, tid, args)
        if vt == ('rec', PRG_CLASS_):
            return self.prg_new(self.ev(args[0]) if args else None)
        if vt[0] == 'rec' and vt[1].startswith('pair<'):
            return mkrec(vt[1], (('first', self.ev(args[0])), ('second', self.ev(args[1]))))
        if vt[0] == 'rec' and vt[1].startswith('opt<'):
            return mkrec(vt[1], (('has', ONE), ('val', self.ev(args[0])))) if args else self.default_value(vt, tid)
        if vt[0] == 'rec' and vt[1] in self.p.recs:
            if not args:
                return self.default_value(vt, tid)
            for m in self.p.recs[vt[1]].get('methods', []):
                if m.get('cls') and m.get('ctor') and len(m.get('pt', [])) == len(args) and not m.get('copy') and not m.get('move') and m['k'] in self.p.fns:
                    loc = self.new_root('obj', vt, self.undef_rec(vt[1]))
                    self.inline(m['k'], loc, self.bind_args(m, args), m)
                    return self.read(loc)
            for k, f in self.p.fns.items():
                if f.get('ctor') and f.get('cls') == vt[1] and len(f['params']) == len(args) and f.get('body') is not None:
                    loc = self.new_root('obj', vt, self.undef_rec(vt[1]))
                    bound = [self.bind_arg(p['t'], a) for p, a in zip(f['params'], args)]
                    self.inline(k, loc, bound, None)
                    return self.read(loc)
        if len(args) == 1 and vt[0] == 'oth':
            return self.ev(args[0])
        return view(vt, mk('opaque', 'make ' + t['s'], *[node_of(self.ev(a)) for a in args]))

    def m_malloc(self, e, obj, args):
        n = to_poly(self.ev(args[0]))
        loc = self.new_root('heap', ('vec', BYTE))
        self.S.st[loc.args[0]] = comp(fresh('z'), n, view(BYTE, mk('undef', 'heap')))
        return mk('ptr', loc, ZERO)

    def m_free(self, e, obj, args):
        self.ev(args[0])

    def m_assert(self, e, obj, args):
        from ev import Dead
        self.leave('throw', mk('exc', 'assert', (), self.lastline or ()))

    def m_bswap16(self, e, obj, args):
        return atom(mk('uf', 'htons', node_of(to_poly(self.ev(args[0])))))

    def std_operator(self, op, ref, e, obj, args):
        if obj is not None:
            return NotImplemented
        if len(args) == 2 and op in ('==', '!=', '<', '>', '<=', '>=', '-', '+'):
            a, b = self.ev(args[0]), self.ev(args[1])
            if a is None or b is None:
                return NotImplemented
            if op in ('==', '!='):
                ta = self.vt(self.deref_t(args[0][2]))
                for x, y, i in ((a, b, 1), (b, a, 0)):
                    tx = self.vt(self.deref_t(args[1 - i][2]))
                    ty_ = self.ty(self.deref_t(args[i][2]))
                    if tx[0] == 'rec' and tx[1].startswith('opt<'):
                        if ty_.get('q') == 'std::nullopt_t':
                            r = bnot(field(x, 'has'))
                            return r if op == '==' else bnot(r)
                        if self.vt(self.deref_t(args[i][2])) != tx:
                            r = mul(field(x, 'has'), self.veq(field(x, 'val'), y))
                            return r if op == '==' else bnot(r)
                r = self.veq(a, b, ta)
                return r if op == '==' else bnot(r)
            if a.op in ('ptr', 'bv', 'tv', 'P', 'oo', 'mux') and b.op in ('ptr', 'bv', 'tv', 'P', 'oo', 'mux'):
                return self.binop(op, a, b, ref['rt'])
        return NotImplemented

    # ------------------------------------------------------------ iterators
    def it_deref(self, e, obj, args):
        return self.pobj(self.deref(self.ev(obj), self.deref_t(e[3]['rt'])))

    def it_arrow(self, e, obj, args):
        return self.ev(obj)

    def it_inc(self, e, obj, args, d=ONE):
        l = self.lv(obj)
        v = self.rd(l)
        n = self.padd(v, d)
        self.wr(l, n)
        if args:
            return v
        return self.pobj(l)

    def it_dec(self, e, obj, args):
        return self.it_inc(e, obj, args, const(-1))

    def it_add(self, e, obj, args):
        return self.padd(self.ev(obj), to_poly(self.ev(args[0])))

    def it_sub(self, e, obj, args):
        return self.padd(self.ev(obj), neg(to_poly(self.ev(args[0]))))

    def it_iadd(self, e, obj, args):
        l = self.lv(obj)
        self.wr(l, self.padd(self.rd(l), to_poly(self.ev(args[0]))))
        return self.pobj(l)

    def it_isub(self, e, obj, args):
        l = self.lv(obj)
        self.wr(l, self.padd(self.rd(l), neg(to_poly(self.ev(args[0])))))
        return self.pobj(l)

    def it_at(self, e, obj, args):
        return self.pobj(self.deref(self.padd(self.ev(obj), to_poly(self.ev(args[0])))))

    def it_base(self, e, obj, args):
        return self.pobj(self.lv(obj))

    def it_assign(self, e, obj, args):
        l = self.lv(obj)
        self.wr(l, self.ev(args[0]))
        return self.pobj(l)

    # ------------------------------------------------------------ vectors
    def vec_new(self, vt, tid, args):
        args = self.real_args(args)
        t = self.ty(tid) if tid is not None else {}
        et = t['a'][0] if t.get('a') else None
        if not args:
            return self.zero(vt, tid)
        a0t = self.ty(self.deref_t(args[0][2]))
        if len(args) == 1:
            v = self.ev_init(args[0], tid) if args[0][0] == 'initlist' else self.ev(args[0])
            if a0t['k'] in ('int', 'enum'):
                return comp(fresh('z'), to_poly(v), self.zero(vt[1], et))
            return v
        if a0t['k'] in ('int', 'enum'):
            n = to_poly(self.ev(args[0]))
            return comp(fresh('z'), n, self.ev(args[1]))
        p, q = self.ev(args[0]), self.ev(args[1])
        if p.op in ('arr', 'oa'):
            return p
        return self.range_of(p, q)

    def vec_size(self, e, obj, args):
        return length(self.rd(self.lv(obj)))

    def vec_empty(self, e, obj, args):
        return eq0(length(self.rd(self.lv(obj))))

    def vec_at_(self, e, obj, args):
        l = self.lv(obj)
        return self.pobj(self.sub(l, ('i', to_poly(self.ev(args[0])))))

    def vec_at(self, e, obj, args):
        l = self.lv(obj)
        i = to_poly(self.ev(args[0]))
        self.throw_if(bnot(mul(ge0(i), lt(i, length(self.rd(l))))), 'std::out_of_range')
        return self.pobj(self.sub(l, ('i', i)))

    def vec_front(self, e, obj, args):
        return self.pobj(self.sub(self.lv(obj), ('i', ZERO)))

    def vec_back(self, e, obj, args):
        l = self.lv(obj)
        return self.pobj(self.sub(l, ('i', sub(length(self.rd(l)), ONE))))

    def vec_begin(self, e, obj, args):
        return mk('ptr', self.lv(obj), ZERO)

    def vec_end(self, e, obj, args):
        l = self.lv(obj)
        return mk('ptr', l, length(self.rd(l)))

    vec_data = vec_begin
    vec_cbegin = vec_begin
    vec_cend = vec_end

    def vec_elem(self, e, obj, args):
        t = self.ty(self.deref_t(obj[2]))
        et = t['a'][0]
        if len(args) == 1 and args[0][0] != 'initlist':
            at = self.deref_t(args[0][2])
            if self.vt(at) == self.vt(et) or self.vt(et)[0] == 'oth':
                return self.ev(args[0])
        if len(args) == 1 and args[0][0] == 'initlist':
            return self.ev_init(args[0], et)
        return self.construct(et, args)

    def vec_push_back(self, e, obj, args):
        v = self.vec_elem(e, obj, args)
        l = self.lv(obj)
        a = self.rd(l)
        self.wr(l, mkarr([a, ('piece', [fresh('u')], (ONE,), ONE, v)]))
        return self.pobj(self.sub(l, ('i', length(a)))) if l.op == 'loc' else None

    vec_emplace_back = vec_push_back

    def vec_pop_back(self, e, obj, args):
        l = self.lv(obj)
        a = self.rd(l)
        if a.op == 'arr' and len(a.args[0]) > 1:
            pc = a.args[0][-1]
            if len(pc.args[0]) == 1 and cval(to_poly(pc.args[0][0])) == 1 and pc.args[1] is ONE:
                self.wr(l, mkarr(list(a.args[0][:-1])))
                return
        self.wr(l, slice_(a, ZERO, sub(length(a), ONE)))

    def vec_pop_front(self, e, obj, args):
        l = self.lv(obj)
        a = self.rd(l)
        self.wr(l, slice_(a, ONE, sub(length(a), ONE)))

    def vec_clear(self, e, obj, args):
        self.wr(self.lv(obj), mk('arr', ()))

    def vec_reserve(self, e, obj, args):
        for a in args:
            self.ev(a)

    vec_shrink_to_fit = vec_reserve

    def vec_resize(self, e, obj, args):
        n = to_poly(self.ev(args[0]))
        t = self.ty(self.deref_t(obj[2]))
        et = t['a'][0]
        fill = self.ev(args[1]) if len(args) > 1 else self.zero(self.vt(et), et)
        l = self.lv(obj)
        a = self.rd(l)
        L = length(a)
        v = fresh('z')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = lt(atom(v), L)
            x = mux(c, sel(a, atom(v)), fill)
        self.wr(l, comp(v, n, x))

    def vec_assign_(self, e, obj, args):
        l = self.lv(obj)
        if args[0][0] == 'initlist':
            v = self.ev_init(args[0], self.deref_t(obj[2]))
        else:
            v = self.ev(args[0])
        self.wr(l, v)
        return self.pobj(l)

    def vec_assign(self, e, obj, args):
        l = self.lv(obj)
        t = self.deref_t(obj[2])
        self.wr(l, self.vec_new(self.vt(t), t, args))

    def vec_swap(self, e, obj, args):
        a, b = self.lv(obj), self.lv(args[0])
        va, vb = self.rd(a), self.rd(b)
        self.wr(a, vb)
        self.wr(b, va)

    def vec_insert(self, e, obj, args):
        l = self.lv(obj)
        p = self.ev(args[0])
        if p.op != 'ptr':
            raise self.uns('insert position')
        i = p.args[1]
        if len(args) == 2:
            v = self.ev(args[1])
            if self.vt(self.deref_t(args[1][2])) == self.vt(self.deref_t(obj[2])) and v.op in ('arr', 'oa'):
                new = v
            else:
                new = mkarr([('piece', [fresh('u')], (ONE,), ONE, v)])
        elif self.ty(self.deref_t(args[1][2]))['k'] in ('int', 'enum'):
            new = comp(fresh('u'), to_poly(self.ev(args[1])), self.ev(args[2]))
        else:
            new = self.range_of(self.ev(args[1]), self.ev(args[2]))
        a = self.rd(l)
        L = length(a)
        if i is L:
            r = cat(a, new)
        elif cval(i) == 0:
            r = cat(new, a)
        else:
            r = mkarr([slice_(a, ZERO, i), new, slice_(a, i, sub(L, i))])
        self.wr(l, r)
        return p

    def vec_erase(self, e, obj, args):
        l = self.lv(obj)
        p = self.ev(args[0])
        if p.op != 'ptr':
            raise self.uns('erase position')
        i = p.args[1]
        n = self.pdiff(self.ev(args[1]), p) if len(args) > 1 else ONE
        a = self.rd(l)
        L = length(a)
        rest = sub(sub(L, i), n)
        self.wr(l, mkarr([slice_(a, ZERO, i), slice_(a, add(i, n), rest)]))
        return p

    # ------------------------------------------------------------ map
    def map_slot(self, l, key):
        m = self.rd(l)
        n = length(m)
        v = fresh('k')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            c = self.veq(field(sel(m, atom(v)), 'first'), key)
        return m, n, first(v, n, c), exists(v, n, c)

    def map_key(self, a):
        return self.ev(a)

    def map_at(self, e, obj, args):
        key = self.ev(args[0])
        l = self.lv(obj)
        m, n, i, ex = self.map_slot(l, key)
        self.throw_if(bnot(ex), 'std::out_of_range')
        return self.pobj(self.sub(self.sub(l, ('i', i)), ('f', 'second')))

    def map_find(self, e, obj, args):
        key = self.ev(args[0])
        l = self.lv(obj)
        m, n, i, ex = self.map_slot(l, key)
        return mk('ptr', l, i)

    def map_count(self, e, obj, args):
        return self.map_slot(self.lv(obj), self.ev(args[0]))[3]

    map_contains = map_count

    def map_add(self, l, key, val):
        m, n, i, ex = self.map_slot(l, key)
        t = self.loc_type(l)[1][1] if l.op == 'loc' and self.loc_type(l)[0] == 'vec' else 'mapent'
        ent = mkrec(t, (('first', key), ('second', val)))
        new = mkarr([m, ('piece', [fresh('u')], (ONE,), ONE, ent)])
        self.wr(l, mux(ex, m, new))
        return i

    def map_insert(self, e, obj, args):
        v = self.ev(args[0])
        self.map_add(self.lv(obj), field(v, 'first'), field(v, 'second'))
        return mk('oo', mk('sym', 'insert'), ('oth', 'pair'))

    def map_emplace(self, e, obj, args):
        k, v = self.ev(args[0]), self.ev(args[1])
        self.map_add(self.lv(obj), k, v)
        return mk('oo', mk('sym', 'insert'), ('oth', 'pair'))

    def map_at_(self, e, obj, args):
        key = self.ev(args[0])
        l = self.lv(obj)
        t = self.ty(self.deref_t(obj[2]))
        i = self.map_add(l, key, self.zero(self.vt(t['a'][1]), t['a'][1]))
        return self.pobj(self.sub(self.sub(l, ('i', i)), ('f', 'second')))

    map_size = vec_size
    map_empty = vec_empty
    map_end = vec_end
    map_clear = vec_clear
    map_assign_ = vec_assign_

    # ------------------------------------------------------------ optional
    def opt_bool(self, e, obj, args):
        return to_poly(field(self.rd(self.lv(obj)), 'has'))

    opt_has_value = opt_bool

    def opt_deref(self, e, obj, args):
        return self.pobj(self.sub(self.lv(obj), ('f', 'val')))

    opt_arrow = opt_deref

    def opt_value(self, e, obj, args):
        l = self.lv(obj)
        self.throw_if(bnot(to_poly(field(self.rd(l), 'has'))), 'std::bad_optional_access')
        return self.pobj(self.sub(l, ('f', 'val')))

    def opt_value_or(self, e, obj, args):
        v = self.rd(self.lv(obj))
        return mux(to_poly(field(v, 'has')), field(v, 'val'), self.ev(args[0]))

    def opt_from(self, vt, a):
        t = self.ty(self.deref_t(a[2]))
        if t.get('q') == 'std::nullopt_t':
            return self.default_value(vt)
        if self.vt(self.deref_t(a[2])) == vt:
            return self.ev(a)
        if t.get('q') == 'std::optional':
            v = self.ev(a)
            return mkrec(vt[1], (('has', field(v, 'has')), ('val', field(v, 'val'))))
        if a[0] == 'initlist' and not a[3]:
            return self.default_value(vt)
        v = self.ev_init(a, None) if a[0] != 'initlist' else self.ev(a)
        return mkrec(vt[1], (('has', ONE), ('val', v)))

    def opt_assign_(self, e, obj, args):
        vt = self.vt(self.deref_t(obj[2]))
        v = self.opt_from(vt, args[0])
        l = self.lv(obj)
        self.wr(l, v)
        return self.pobj(l)

    def opt_reset(self, e, obj, args):
        self.wr(self.lv(obj), self.default_value(self.vt(self.deref_t(obj[2]))))

    def opt_emplace(self, e, obj, args):
        t = self.deref_t(obj[2])
        v = self.construct(self.ty(t)['a'][0], args)
        l = self.lv(obj)
        self.wr(l, mkrec(self.vt(t)[1], (('has', ONE), ('val', v))))
        return self.opt_deref(e, obj, args)

    # ------------------------------------------------------------ smart pointers
    def up_get(self, e, obj, args):
        return self.ev(obj)

    def up_arrow(self, e, obj, args):
        return self.ev(obj)

    def up_deref(self, e, obj, args):
        return self.pobj(self.deref(self.ev(obj), self.deref_t(e[3]['rt'])))

    def up_bool(self, e, obj, args):
        return self.truth(self.ev(obj), {'k': 'ptr'})

    def up_at_(self, e, obj, args):
        return self.pobj(self.deref(self.padd(self.ev(obj), to_poly(self.ev(args[0])))))

    def up_assign_(self, e, obj, args):
        v = self.ev(args[0])
        l = self.lv(obj)
        self.wr(l, v)
        return self.pobj(l)

    def up_reset(self, e, obj, args):
        self.wr(self.lv(obj), self.ev(args[0]) if args else mk('null'))

    def up_release(self, e, obj, args):
        l = self.lv(obj)
        v = self.rd(l)
        self.wr(l, mk('null'))
        return v

    def at_assign_(self, e, obj, args):
        v = self.ev(args[0])
        self.wr(self.lv(obj), v)
        return v

    def at_load(self, e, obj, args):
        return self.rd(self.lv(obj))

    def at_store(self, e, obj, args):
        self.wr(self.lv(obj), self.ev(args[0]))

    def fun_call(self, e, obj, args):
        f = self.ev(obj)
        if f.op == 'clo':
            return self.call_closure(f, args)
        vals = [self.ev(a) for a in args]
        rt = self.ty(e[3]['rt'])
        if f.op == 'oo' and f.args[0].op == 'fnref':
            k = f.args[0].args[0]
            fn = self.p.fns.get(k)
            if fn:
                return self.inline(k, None, [self.new_root('arg', self.vt(self.deref_t(p['t'])), v) for p, v in zip(fn['params'], vals)], None)
        return self.opq('function object', e[3]['rt'], f, *vals) if rt['k'] != 'void' else self.note_effect(f, vals)

    def note_effect(self, f, vals):
        self.notes.append('call of an unknown function object at %s' % (self.lastline,))
        raise self.uns('call of an unknown function object')

    def fun_bool(self, e, obj, args):
        f = self.ev(obj)
        return ONE if f.op == 'clo' else ZERO if f.op == 'null' else self.truth(f, {'k': 'ptr'})

    # strings are opaque
    def str_same(self, e, obj, args):
        return self.ev(obj)

    def str_assign_(self, e, obj, args):
        v = self.ev(args[0])
        l = self.lv(obj)
        self.wr(l, v)
        return self.pobj(l)

    def str_empty(self, e, obj, args):
        v = self.ev(obj)
        return self.veq(v, mk('oo', mk('str', ''), ('oth', 'string')))

    def lock_noop(self, e, obj, args):
        return None

    # ------------------------------------------------------------ constructors
    def model_ctor(self, ref, e, vt, args):
        t = self.ty(self.deref_t(e[2]))
        q = t.get('q', '')
        if ref.get('copy') or ref.get('move'):
            if q.startswith('std::') or q.startswith('__gnu_cxx::') or vt[0] == 'fld' or (vt == ('rec', PRG_CLASS_) and self.prg_model):
                return self.ev(args[0])
        if vt[0] == 'fld':
            if not args:
                return ZERO
            at = self.vt(self.deref_t(args[0][2]))
            v = self.ev(args[0])
            if at[0] in ('int', 'bool') or v.op == 'P':
                return self.hom(to_poly(v))
            return atom(mk('opaque', 'field element from a string', node_of(v)))
        if vt == ('rec', PRG_CLASS_) and self.prg_model:
            return self.prg_new(self.ev(args[0]) if args else None)
        if q in ('std::vector', 'std::deque', 'std::array', 'std::initializer_list'):
            return self.vec_new(vt, self.deref_t(e[2]), args)
        if q == 'std::optional':
            args = self.real_args(args)
            return self.opt_from(vt, args[-1]) if args else self.default_value(vt)
        if q == 'std::pair':
            args = self.real_args(args)
            if len(args) == 2:
                return mkrec(vt[1], (('first', self.ev(args[0])), ('second', self.ev(args[1]))))
            if len(args) == 1:
                v = self.ev(args[0])
                return mkrec(vt[1], (('first', field(v, 'first')), ('second', field(v, 'second'))))
            return self.default_value(vt, self.deref_t(e[2]))
        if q == 'std::map':
            args = self.real_args(args)
            return self.ev(args[0]) if args and self.vt(self.deref_t(args[0][2])) == vt else mk('arr', ())
        if q in ('std::shared_ptr', 'std::unique_ptr', '__gnu_cxx::__normal_iterator', 'std::function'):
            args = [a for a in args if self.ty(self.deref_t(a[2])).get('q') not in ('std::default_delete',)]
            return self.ev(args[0]) if args else mk('null')
        if q == 'std::basic_string':
            args = self.real_args(args)
            if len(args) == 1:
                v = self.ev(args[0])
                return v
            if not args:
                return mk('oo', mk('str', ''), ('oth', 'string'))
            return mk('oo', mk('opaque', 'string', *[node_of(self.ev(a)) for a in args]), ('oth', 'string'))
        if q == 'std::atomic':
            return self.ev(args[0]) if args else self.zero(vt)
        if q in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::mutex', 'std::condition_variable'):
            return mk('oo', mk('sym', q), vt)
        return NotImplemented

    # ------------------------------------------------------------ field elements
    def fp_model(self, name, ref, e, obj, args):
        op = name[8:] if name.startswith('operator') else name
        if obj is not None:
            if op in ('+=', '-=', '*=', '/='):
                b = to_poly(self.ev(args[0]))
                l = self.lv(obj)
                a = to_poly(self.rd(l))
                self.wr(l, self.fp_op(op[0], a, b))
                return self.pobj(l)
            if op == '=':
                v = self.ev(args[0])
                l = self.lv(obj)
                self.wr(l, v)
                return self.pobj(l)
            if op in ('Negate', 'Invert'):
                l = self.lv(obj)
                a = to_poly(self.rd(l))
                self.wr(l, neg(a) if op == 'Negate' else self.fp_inv(a))
                return self.pobj(l)
            if op == 'Inverse':
                return self.fp_inv(to_poly(self.rd(self.lv(obj))))
            if op in ('Equal', 'NotEqual'):
                a, b = to_poly(self.rd(self.lv(obj))), to_poly(self.ev(args[0]))
                r = eq0(sub(a, b), True)
                return r if op == 'Equal' else bnot(r)
            if op == 'ToString':
                return mk('oo', mk('uf', 'FieldToString', node_of(self.rd(self.lv(obj)))), ('oth', 'string'))
            return NotImplemented
        if not all(self.vt(self.deref_t(a[2]))[0] == 'fld' for a in args) or not args:
            return NotImplemented
        if op in ('+', '-', '*', '/') and len(args) == 2:
            a, b = to_poly(self.ev(args[0])), to_poly(self.ev(args[1]))
            return self.fp_op(op, a, b)
        if op == '-' and len(args) == 1:
            return neg(to_poly(self.ev(args[0])))
        if op in ('==', '!='):
            r = eq0(sub(to_poly(self.ev(args[0])), to_poly(self.ev(args[1]))), True)
            return r if op == '==' else bnot(r)
        return NotImplemented

    def fp_op(self, op, a, b):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        return mul(a, self.fp_inv(b))

    def fp_inv(self, a):
        self.throw_if(eq0(a, True), 'std::logic_error')
        if cval(a) == 1:
            return ONE
        x = as_atom(a)
        if x is not None and x.op == 'inv':
            return to_poly(x.args[0])
        return atom(mk('inv', node_of(a)))

    # ------------------------------------------------------------ random generator
    def prg_new(self, seed):
        if seed is None:
            s = comp(fresh('z'), const(16), ZERO)
        else:
            b = self.as_bytes(seed)
            if b is None:
                s = view(('vec', BYTE), mk('uf', 'seed', node_of(seed)))
            else:
                v = fresh('s')
                set_nonneg(v)
                with assume(T._ranges([v], [const(16)])):
                    x = self.byte_at(b, atom(v))
                s = comp(v, const(16), x)
        return mkrec(PRG_CLASS_, (('seed', s), ('ctr', ZERO)))

    def prg_call(self, name, ref, e, obj, args):
        if name == 'Next' and len(args) == 2 and self.ty(self.deref_t(args[0][2]))['k'] == 'ptr':
            dst = self.as_bytes(self.ev(args[0]))
            n = to_poly(self.ev(args[1]))
            l = self.lv(obj)
            p = self.rd(l)
            seed, ctr = field(p, 'seed'), to_poly(field(p, 'ctr'))
            self.put_bytes(dst, n, lambda j: atom(mk('strm', node_of(seed), add(scale(ctr, 16), to_poly(j)))))
            self.wr(self.sub(l, ('f', 'ctr')), add(ctr, floordiv(add(n, const(15)), 16)))
            return None
        if obj is None:
            return NotImplemented
        if name == 'Reset':
            l = self.lv(obj)
            self.wr(self.sub(l, ('f', 'ctr')), ZERO)
            return None
        if name == 'Counter':
            return to_poly(field(self.rd(self.lv(obj)), 'ctr'))
        if name == 'Seed':
            return mk('ptr', self.sub(self.lv(obj), ('f', 'seed')), ZERO)
        if name == 'operator=':
            v = self.ev(args[0])
            l = self.lv(obj)
            self.wr(l, v)
            return self.pobj(l)
        return NotImplemented

    # ------------------------------------------------------------ messages
    NETOPS = {'Send': 'msgF', 'SendShares': 'msgS', 'SendBytes': 'msgB', 'Recv': 'msgF', 'RecvShares': 'msgS', 'RecvBytes': 'msgB'}
    KINDNO = {'msgF': 1, 'msgS': 2, 'msgB': 3}
    shapes = False          # record kinds and lengths of messages instead of their contents

    def x_shapes(self, what, args):
        """verif_sent / verif_received / verif_before of a driver"""
        peer = to_poly(self.ev(args[1]))
        net = mk('loc', NETROOT, ())
        cell = self.sub(self.sub(net, ('f', 'rcv' if what == 'received' else 'sent')), ('i', peer))
        v = fresh('m')
        set_nonneg(v)
        n = length(self.rd(cell))
        with assume(T._ranges([v], [n])):
            x = self.sub(cell, ('i', atom(v)))
            f = lambda s: to_poly(self.rd(self.sub(x, ('f', s))))
            e = f('before') if what == 'before' else add(scale(f('kind'), 1 << 40), f('len'))
        return comp(v, n, e)

    MSGT = {'msgF': ('fld', 8), 'msgS': ('vec', ('fld', 8)), 'msgB': BYTE}     # what messages are made of

    def virtual_model(self, e, ref, loc, args):
        q = ref['q']
        name = q.split('::')[-1]
        if not q.startswith('frn::Network::') or name not in self.NETOPS:
            return NotImplemented
        kind = self.NETOPS[name]
        self.rtype[NETROOT] = ('rec', 'NET')
        net = mk('loc', NETROOT, ())
        peer = to_poly(self.ev(args[0]))
        if name.startswith('Send'):
            data = self.ev(args[1])
            cell = self.sub(self.sub(net, ('f', 'sent')), ('i', peer))
            old = self.rd(cell)
            T.REC_FIELDS.setdefault(kind, (('data', self.MSGT[kind]),))
            if self.shapes:
                T.REC_FIELDS.setdefault('SHP', (('kind', ('int', 32, True)), ('len', ('int', 64, True)), ('before', ('int', 64, True))))
                tot = to_poly(self.rd(self.sub(net, ('f', 'got'))))
                m = mkrec('SHP', (('kind', const(self.KINDNO[kind])), ('len', length(data)), ('before', tot)))
                self.wr(cell, mkarr([old, ('piece', [fresh('u')], (ONE,), ONE, m)]))
                return None
            # the elements sent to a party form one stream, however they are divided into messages
            n = length(data)
            v = fresh('e')
            set_nonneg(v)
            with assume(T._ranges([v], [n])):
                m = mkrec(kind, (('data', sel(data, atom(v))),))
            self.wr(cell, mkarr([old, comp(v, n, m)]))
            return None
        n = to_poly(self.ev(args[1]))
        cell = self.sub(self.sub(net, ('f', 'rcv')), ('i', peer))
        old = self.rd(cell)
        if self.shapes:
            T.REC_FIELDS.setdefault('RSH', (('kind', ('int', 32, True)), ('len', ('int', 64, True))))
            k = length(old)
            self.wr(cell, mkarr([old, ('piece', [fresh('u')], (ONE,), ONE, mkrec('RSH', (('kind', const(self.KINDNO[kind])), ('len', n))))]))
            tot = self.sub(net, ('f', 'got'))
            self.wr(tot, add(to_poly(self.rd(tot)), ONE))
        else:
            k = to_poly(old)
            self.wr(cell, add(k, n))
        v = fresh('e')
        set_nonneg(v)
        with assume(T._ranges([v], [n])):
            x = view(self.MSGT[kind], mk('recv', kind, node_of(peer), node_of(add(k, atom(v)))))
        return comp(v, n, x)


PRG_CLASS_ = 'frn::lib::primitives::PRG'

OPN = {'operator*': 'deref', 'operator->': 'arrow', 'operator++': 'inc', 'operator--': 'dec', 'operator+': 'add', 'operator-': 'sub',
       'operator+=': 'iadd', 'operator-=': 'isub', 'operator[]': 'at_', 'operator=': 'assign_', 'operator()': 'call'}

CLS = {'std::vector': 'vec', 'std::deque': 'vec', 'std::array': 'vec', 'std::initializer_list': 'vec', 'std::map': 'map',
       'std::optional': 'opt', 'std::unique_ptr': 'up', 'std::shared_ptr': 'up', 'std::__shared_ptr': 'up', 'std::__shared_ptr_access': 'up',
       'std::atomic': 'at', 'std::__atomic_base': 'at', 'std::function': 'fun', '__gnu_cxx::__normal_iterator': 'it', 'std::basic_string': 'str',
       'std::unique_lock': 'lock', 'std::mutex': 'lock', 'std::_Optional_base_impl': 'opt', 'std::__optional_base': 'opt'}

TABLE = {'std::forward': 'm_move', 'std::move': 'm_move', 'std::as_const': 'm_move', 'std::min': 'm_min', 'std::max': 'm_max', 'std::swap': 'm_swap',
         'std::find': 'm_find', 'std::find_if': 'm_find_if', 'std::any_of': 'm_any_of', 'std::all_of': 'm_all_of', 'std::none_of': 'm_none_of',
         'std::count': 'm_count', 'std::count_if': 'm_count_if', 'std::equal': 'm_equal', 'std::distance': 'm_distance', 'std::next': 'm_next',
         'std::prev': 'm_prev', 'std::advance': 'm_advance', 'std::begin': 'm_begin', 'std::end': 'm_end', 'std::cbegin': 'm_begin', 'std::cend': 'm_end',
         'std::size': 'm_size', 'std::empty': 'm_empty', 'std::data': 'm_data', 'std::copy': 'm_copy', 'std::copy_n': 'm_copy_n', 'std::fill': 'm_fill',
         'std::fill_n': 'm_fill_n', 'std::iota': 'm_iota', 'std::back_inserter': 'm_back_inserter', 'std::transform': 'm_transform',
         'std::accumulate': 'm_accumulate', 'std::inner_product': 'm_inner_product', 'std::for_each': 'm_for_each', 'std::make_pair': 'm_make_pair',
         'std::make_optional': 'm_make_optional', 'std::make_unique': 'm_make_ptr', 'std::make_shared': 'm_make_ptr', 'malloc': 'm_malloc',
         'free': 'm_free', 'memcpy': 'm_memcpy', 'std::memcpy': 'm_memcpy', '__builtin_memcpy': 'm_memcpy', 'memmove': 'm_memcpy', 'std::memmove': 'm_memcpy',
         'memset': 'm_memset', 'std::memset': 'm_memset', '__assert_fail': 'm_assert', 'std::abs': 'm_abs', 'abs': 'm_abs',
         'std::binary_search': 'm_binary_search', 'std::lower_bound': 'm_lower_bound', 'std::accumulate<>': 'm_accumulate',
         'std::basic_string::c_str': 'str_same', 'std::basic_string::data': 'str_same'}
