"""Library models of the word analysis."""
import wterm as wt
from wterm import C, ZERO, ONE, add, sub, mul, scale, addc, cv, atom, app, ge0, eq0, part
from word import *


class WStd(W):
    # ------------------------------------------------------------ construction
    def std_ctor(self, q, t, ref, e):
        xs = e[4]
        copy = ref.get('copy') or ref.get('move')
        if q in ('std::vector', 'std::deque', 'std::initializer_list'):
            et = t['a'][0]
            if copy and xs:
                o = self.obj(xs[0])
                if isinstance(o, (Vec, Seq)):
                    r = self.copy(o) if ref.get('copy') else self.moved_from(o)
                    return r
            pts = [self.T(x)['s'] for x in ref.get('pt', ())]
            xs = [x for x, p in zip(xs, pts) if not p.replace('const ', '').startswith('std::allocator<')]
            if not xs:
                return Vec([], et, q[5:])
            if len(xs) == 1 and 'initializer_list' in pts[0]:
                o = self.obj(xs[0])
                return Vec([self.copy(x) for x in o.els], et, q[5:])
            a = [self.ev(x) for x in xs]
            v = [self.load(x) for x in a]
            if isinstance(v[0], Ptr):
                return self.from_range(v[0], v[1], et)
            if isinstance(v[0], wt.N):
                if cv(v[0]) is None and hasattr(self, 'sized') and len(a) == 1:
                    return self.sized(et, v[0])
                n = self.known(v[0])
                els = []
                for _ in range(n):
                    if len(a) > 1:
                        x = self.copy(a[1]) if not isinstance(v[1], (wt.N, Ptr)) else Cell(v[1], et)
                        if isinstance(x, Cell):
                            x.t = et
                    else:
                        x = self.value_init(et)
                    els.append(x)
                return Vec(els, et, q[5:])
            raise Unsupported('construction of a ' + q)
        if q in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
            if copy and xs:
                return self.copy(self.obj(xs[0]))
            if not xs:
                return self.default_rec(t)
            raise Unsupported('construction of a ' + q)
        if q == 'std::basic_string':
            if not xs:
                return Str('')
            a = self.ev(xs[0])
            if isinstance(a, Str):
                return Str(a.v)
            v = self.load(a)
            if isinstance(v, Ptr) and isinstance(v.o, Str):
                return Str(v.o.v)
            if isinstance(v, Ptr):
                return Str(('chars', self.text(v)))
            return Str(('?',))
        if q in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'):
            if not xs:
                return Sp(NULL)
            a = self.ev(xs[0])
            if isinstance(a, Sp):
                r = Sp(a.v)
                if q == 'std::unique_ptr' or ref.get('move'):
                    a.v = NULL
                return r
            v = self.load(a)
            if isinstance(v, Ptr):
                return Sp(v)
            if isinstance(v, wt.N) and cv(v) == 0:
                return Sp(NULL)
            raise Unsupported(q)
        if q == 'std::function':
            if not xs:
                return Sp(NULL)
            a = self.ev(xs[0])
            if isinstance(a, Sp):
                return Sp(a.v)
            return Sp(Ptr(a))
        if q == 'std::optional':
            if not xs:
                return Opt()
            a = self.ev(xs[0])
            if isinstance(a, Opt) and copy:
                return self.copy(a)
            if isinstance(a, Opaque) and 'nullopt' in a.cls:
                return Opt()
            if isinstance(a, Opt):
                return self.copy(a)
            if isinstance(a, (wt.N, Ptr)):
                a = Cell(a, t['a'][0])
            return Opt(True, self.copy(a))
        if q == 'std::pair':
            if len(xs) == 2:
                return self.pair(t, xs)
            if not xs:
                return self.value_init(e[2])
            return self.copy(self.obj(xs[0]))
        if q == 'std::atomic':
            return Atomic(Cell(self.val(xs[0]) if xs else ZERO, t['a'][0]))
        if q in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
            if copy:
                o = self.obj(xs[0])
                r = Lock(o.m, o.owned)
                o.owned = False
                return r
            m = self.obj(xs[0])
            l = Lock(m, False)
            if len(xs) == 1:
                self.lock(l)
            return l
        if q == 'std::future':
            if xs:
                o = self.obj(xs[0])
                r = Future(o.job)
                r.__dict__.update(o.__dict__)
                return r
            return Future(None)
        if q == 'std::array':
            if xs:
                return self.copy(self.obj(xs[0]))
            return self.default(e[2])
        if q == 'std::pair' or q == 'std::tuple':
            r = Rec(t['n'])
            for n, x, et in zip(('first', 'second'), xs, t['a']):
                r.f[n] = self.bind(et, x)
            return r
        if 'iterator' in q and xs:
            a = self.ev(xs[0])
            v = self.load(a) if not isinstance(a, Opaque) else a
            if isinstance(v, (Ptr, Opaque)):
                return v
        if q == 'std::chrono::duration':
            r = Opaque(q)
            r.args = [self.ev(x) for x in xs]
            return r
        if q == 'std::basic_ifstream':
            o = Opaque(q)
            o.out = []
            o.name = self.text(self.ev(xs[0])) if xs else '?'
            o.lines = 0
            return o
        o = Opaque(q)
        o.out = []
        if copy and xs:
            s = self.obj(xs[0])
            if isinstance(s, Opaque):
                return s
        try:
            o.args = [self.ev(x) for x in xs]
        except Unsupported:
            if not isa(q, 'std::exception'):
                raise
        return o

    def pair(self, t, xs):
        r = Rec(t['n'])
        for f, i, x in zip(('first', 'second'), t['a'], xs):
            o = self.ev(x)
            if self.T(i)['k'] in ('ref', 'rref'):
                r.f[f] = o
            else:
                r.f[f] = Cell(self.load(o), i) if self.scalar(i) else self.converted(i, o)
        return r

    def moved_from(self, o):
        r = self.copy(o)
        return r

    def value_init(self, et):
        t = self.T(et)
        if t['k'] == 'rec':
            o = self.default(et)
            if isinstance(o, Rec):
                for m in self.p.recs.get(t['n'], {}).get('methods', ()):
                    if m.get('default') and m['k'] in self.p.fns:
                        return self.construct(o, m['k'], [])
                return self.zeroed(self.default_fields(o))
            return o
        return self.zeroed(self.default(et))

    def default_fields(self, o):
        for b in self.bases(o.cls):
            for f in self.p.recs.get(b, {}).get('fields', ()):
                if f.get('init') is not None:
                    o.f[f['n']] = self.bind(f['t'], f['init'])
        return o

    def text(self, v):
        """a string value: python str, or a hashable description"""
        v = self.load(v) if not isinstance(v, Str) else v
        if isinstance(v, Str):
            return v.v
        if isinstance(v, Ptr):
            if v.o is None:
                raise UB('a text is made from a null pointer')
            if isinstance(v.o, Str) and (v.i is None or cv(v.i) == 0):
                return v.o.v
            if isinstance(v.o, Str) and isinstance(v.o.v, str) and cv(v.i) is not None:
                return v.o.v[cv(v.i):]
            if isinstance(v.o, Mock):
                return v.o.name
            if isinstance(v.o, Blob):
                return '&' + v.o.name
        if isinstance(v, wt.N):
            return v
        return '?'

    def known(self, n):
        k = cv(n)
        if k is not None:
            if k < 0:
                raise UB('negative size')
            return k
        # a small range: one part per size
        lo, hi = self.ctx.bounds(n)
        if lo is not None and hi is not None and hi - lo <= 40:
            for k in range(lo, hi + 1):
                if self.decide(eq0(addc(n, -k))):
                    return k
        raise Unsupported('unknown size')

    def from_range(self, a, b, et):
        if a.o is not b.o:
            raise UB('range of two different objects')
        n = sub(b.i if b.i is not None else ZERO, a.i if a.i is not None else ZERO)
        o = a.o
        if isinstance(o, Vec):
            i, k = cv(a.i), cv(n)
            if i is None or k is None:
                raise Unsupported('unknown range')
            if i < 0 or i + k > len(o.els):
                raise UB('range outside an array')
            out = [self.copy(x) for x in o.els[i:i + k]]
            for x in out:
                if isinstance(x, Cell):
                    x.t = et
            return Vec(out, et)
        if isinstance(o, Blob):
            return Seq([(o, a.i if a.i is not None else ZERO, n)])
        if isinstance(o, Seq):
            return Seq(self.cut(o, a.i, n))
        if isinstance(o, Str):
            return Str(o.v)
        if o is None:
            if cv(n) == 0:
                return Vec([], et)
        raise Unsupported('range')

    def cut(self, o, off, n):
        """segments of o from offset off, length n"""
        if cv(n) == 0:
            return []
        off = part(off) if off is not None else ZERO
        if len(o.segs) == 1:
            s, b, l = o.segs[0]
            return [(s, add(b, off), n)]
        if cv(off) == 0 and self.size(o) is n:
            return list(o.segs)
        raise Unsupported('part of a message')

    def size(self, o):
        if isinstance(o, Seq):
            r = ZERO
            for _, _, l in o.segs:
                r = add(r, l)
            return r
        return C(len(o.els))

    # ------------------------------------------------------------ free functions
    def std_call(self, q, ref, e):
        n = q.rsplit('::', 1)[-1]
        xs = e[4]
        if n in ('move', 'forward', 'as_const') and len(xs) == 1:
            return self.ev(xs[0])
        if n == 'swap' and len(xs) == 2:
            a, b = self.obj(xs[0]), self.obj(xs[1])
            if type(a) is type(b):
                if isinstance(a, Cell):
                    a.v, b.v = b.v, a.v
                else:
                    a.__dict__, b.__dict__ = b.__dict__, a.__dict__
                return ZERO
        if q == '__assert_fail' or q in ('abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '_exit'):
            raise Exit(q)
        if q.startswith('std::operator') or q.startswith('std::basic_ostream') or n.startswith('operator'):
            r = self.std_operator(n, xs, e)
            if r is not NotImplemented:
                return r
        if n in ('make_unique', 'make_shared'):
            return self.make(ref, e)
        if n == 'make_pair':
            return self.pair(self.T(e[2]), xs)
        if n == 'make_optional':
            a = self.ev(xs[0])
            return Opt(True, self.copy(a) if not isinstance(a, (wt.N, Ptr)) else Cell(a))
        if n in ('min', 'max') and len(xs) == 2:
            a, b = self.val(xs[0]), self.val(xs[1])
            le = self.decide(ge0(sub(b, a)))
            return (a if le else b) if n == 'min' else (b if le else a)
        if n in ('memcpy', 'memmove', '__builtin_memcpy', 'memcmp', 'memset'):
            return self.memory(n, [self.val(x) for x in xs])
        if n == 'malloc':
            k = self.known(self.val(xs[0]))
            ut = next(i for i, t in enumerate(self.p.types) if t and t['s'] == 'unsigned char')
            return Ptr(Vec([Cell(None, ut) for _ in range(k)], ut, 'heap'), ZERO, ut)
        if n == 'free':
            self.ev(xs[0])
            return ZERO
        if n in ('copy', 'copy_n', 'fill', 'fill_n'):
            return self.algo(n, [self.ev(x) for x in xs])
        if n in ('htons', '__bswap_16', '__builtin_bswap16', 'ntohs'):
            x = self.val(xs[0])
            w = self.ctx.rem(x, 65536)
            return add(self.ctx.quo(w, 256), scale(self.ctx.rem(w, 256), 256))
        if n in ('htonl', 'ntohl', '__bswap_32', '__builtin_bswap32'):
            x = self.ctx.rem(self.val(xs[0]), 1 << 32)
            return app('bswap32', [x], 0, (1 << 32) - 1)
        if n in ('sleep_for', 'sleep_until', 'yield', 'usleep', 'sleep'):
            self.event('sleep')
            return ZERO
        if n in ('generic_category', 'system_category'):
            return Opaque('std::error_category')
        if n == 'async':
            a = [self.ev(x) for x in xs]
            job = a[-1] if len(a) == 2 else a[0]
            pol = a[0] if len(a) == 2 else None
            f = Future(job)
            f.policy = self.load(pol) if pol is not None else None
            f.id = len(self.jobs)
            self.jobs.append(f)
            self.event('async', future=f)
            return f
        if n in ('stoul', 'stoi', 'stol', 'stoull', 'atoi', 'atol'):
            s = self.ev(xs[0])
            v = self.text(s)
            hi = {'stoul': (1 << 64) - 1, 'stoull': (1 << 64) - 1, 'stoi': (1 << 31) - 1, 'atoi': (1 << 31) - 1}.get(n, (1 << 63) - 1)
            lo = 0 if n in ('stoul', 'stoull') else -hi - 1
            return app('number', [self.named(repr(v))], lo, hi)
        if n == 'getline':
            st, s = self.obj(xs[0]), self.obj(xs[1])
            k = getattr(st, 'lines', 0)
            st.lines = k + 1
            st.good = self.line_read(st, k)
            if st.good:
                s.v = ('line', getattr(st, 'name', '?'), k)
            return st
        if n == 'to_string' and q.startswith('std::'):
            return Str(('num', self.val(xs[0])))
        if n in ('duration_cast', 'time_point_cast'):
            return self.obj(xs[0])
        if n == 'time' or n == 'now':
            return Opaque('time')
        if n in ('to_time_t', 'localtime', 'gmtime', 'put_time', 'mktime', 'strftime', 'ctime', 'asctime'):
            return self.fresh('time', 0, 1 << 40) if n in ('to_time_t', 'mktime') else Opaque('time')
        if n in ('accumulate',):
            raise Unsupported(q)
        if n in ('endl', 'flush'):
            return self.ev(xs[0])
        if q.startswith('_mm_') or q.startswith('__builtin_ia32'):
            return self.simd(n, [self.val(x) for x in xs])
        if n == 'get' and q == 'std::get':
            raise Unsupported(q)
        if n in ('begin', 'end', 'size', 'data', 'cbegin', 'cend') and len(xs) == 1:
            o = self.obj(xs[0])
            return self.std_mcall(n, o, ref, ['mcall', e[1], e[2], ref, xs[0], [], False])
        if n == 'distance':
            a, b = self.val(xs[0]), self.val(xs[1])
            return self.ptrop('-', b, a)
        if n in ('next', 'advance'):
            a = self.val(xs[0])
            return self.ptrop('+', a, self.val(xs[1]) if len(xs) > 1 else ONE)
        if n == 'addressof':
            return self.lptr(xs[0])
        if n == 'exchange':
            o = self.obj(xs[0])
            old = self.load(o)
            self.assign(o, self.val(xs[1]), xs[0])
            return old
        if q == 'errno' or n == '__errno_location':
            return Ptr(Cell(self.fresh('errno', 0, 4095)))
        raise Unsupported('call of ' + q)

    def line_read(self, st, k):
        return self.choose('line')

    def make(self, ref, e):
        ta = ref.get('ta', [])
        t = self.T(ta[0])
        xs = e[4]
        if t['k'] == 'arr':
            n = self.val(xs[0])
            k = cv(n)
            if k is None:
                self.n['heap'] = self.n.get('heap', 0) + 1
                return Sp(Ptr(Blob('heap%d' % self.n['heap'], n), ZERO))
            return Sp(Ptr(Vec([self.zeroed(self.default(t['t'])) for _ in range(k)], t['t'], 'heap'), ZERO, t['t']))
        if t['k'] != 'rec':
            return Sp(Ptr(Cell(self.val(xs[0]) if xs else ZERO, ta[0])))
        q = t['q']
        args = [self.ev(x) for x in xs]
        if ('make:' + q) in self.hooks:
            return self.hooks['make:' + q](self, t, args)
        if self.mocked(t['n']):
            m = Mock(t['n'], t['n'])
            m.args = args
            self.event('ctor', cls=t['n'], args=args, obj=m)
            return Sp(Ptr(m))
        if q.startswith('std::'):
            if q in ('std::vector', 'std::deque') and not args:
                return Sp(Ptr(Vec([], t['a'][0])))
            if q == 'std::basic_string' and args:
                return Sp(Ptr(Str(self.text(args[0]))))
            raise Unsupported('make ' + q)
        # the constructor that takes these arguments
        best = None
        for m in self.p.recs.get(t['n'], {}).get('methods', ()):
            k = m['k']
            if '#ctor' not in k or k not in self.p.fns or m.get('copy') or m.get('move'):
                continue
            f = self.p.fns[k]
            if len(f['params']) == len(args) and all(self.suits(p['t'], a) for p, a in zip(f['params'], args)):
                best = k
                break
        rec = Rec(t['n'])
        if best is None:
            if len(args) == 1 and isinstance(args[0], Rec) and args[0].cls == t['n']:
                return Sp(Ptr(self.copy(args[0])))
            if args:
                raise Unsupported('constructor of ' + t['n'])
            o = self.default(ta[0])
            return Sp(Ptr(self.default_fields(o) if isinstance(o, Rec) else o))
        for b in self.bases(t['n']):
            for x in self.p.recs.get(b, {}).get('fields', ()):
                if self.T(x['t'])['k'] not in ('ref', 'rref'):
                    rec.f.setdefault(x['n'], self.default(x['t']))
        vals = []
        for p, a in zip(self.p.fns[best]['params'], args):
            pt = self.T(p['t'])
            if pt['k'] in ('ref', 'rref'):
                vals.append(a)
            elif self.scalar(p['t']):
                vals.append(Cell(self.fit(self.load(a), p['t']) if isinstance(self.load(a), wt.N) else self.load(a), p['t']))
            else:
                vals.append(self.converted(p['t'], a))
        return Sp(Ptr(self.construct(rec, best, vals)))

    def converted(self, ti, a):
        q = self.T(ti).get('q', '').replace('std::__cxx11::', 'std::')
        if q == 'std::basic_string' and not isinstance(a, Str):
            return Str(self.text(a))
        if q == 'std::optional' and not isinstance(a, Opt):
            return Opt(True, self.copy(a))
        return self.copy(a)

    def suits(self, ti, a):
        i = self.deref_t(ti)
        t = self.T(i)
        x = a.v if isinstance(a, Cell) else a
        if t['k'] in ('int', 'bool', 'enum', 'float'):
            return isinstance(x, wt.N) or isinstance(a, Atomic)
        if t['k'] == 'ptr':
            return isinstance(x, Ptr)
        q = t.get('q', '').replace('std::__cxx11::', 'std::')
        if q == 'std::basic_string':
            return isinstance(a, Str) or isinstance(x, Ptr)
        if q in ('std::vector', 'std::deque', 'std::array'):
            return isinstance(a, (Vec, Seq))
        if q in ('std::shared_ptr', 'std::unique_ptr', 'std::function'):
            return isinstance(a, (Sp, Rec))
        if q == 'std::optional':
            return True
        if t['k'] == 'rec':
            if isinstance(a, Rec):
                return t['n'] in self.bases(a.cls)
            if isinstance(a, Mock):
                return True
            return isinstance(a, Opaque)
        return True

    def memory(self, n, a):
        if n == 'memset':
            k = self.known(a[2])
            if isinstance(a[0].o, Rec) and a[0].o.cls not in self.p.recs:
                # a record of the system, whose layout is not known
                def fill(o):
                    for x in o.f.values():
                        if isinstance(x, Rec):
                            fill(x)
                        elif isinstance(x, Cell):
                            x.v = ZERO
                if cv(a[1]) != 0 or a[0].i is not None:
                    raise Unsupported('memset of ' + a[0].o.cls)
                fill(a[0].o)
                return a[0]
            self.write_bytes(a[0], [self.ctx.rem(a[1], 256)] * k)
            return a[0]
        if n == 'memcmp':
            raise Unsupported(n)
        d, s, k = a
        if isinstance(d.o, Blob) or isinstance(s.o, Seq) or isinstance(d.o, Seq):
            segs = None
            if isinstance(s.o, Seq):
                segs = self.cut(s.o, s.i, k)
            elif isinstance(s.o, Blob):
                segs = [(s.o, s.i if s.i is not None else ZERO, k)]
            elif cv(k) is not None:
                segs = [('bytes', tuple(self.read_bytes(s, cv(k))), k)] if cv(k) else []
            self.event('copy', dst=d, segs=segs, n=k, src=s)
            return d
        if cv(k) == 0:
            return d
        c = cv(k)
        if c is None:
            c = self.known(k)
        self.write_bytes(d, self.read_bytes(s, c))
        return d

    def algo(self, n, a):
        v = [self.load(x) for x in a]
        if n == 'copy':
            cnt = cv(sub(v[1].i or ZERO, v[0].i or ZERO))
            src, dst = v[0], v[2]
        elif n == 'copy_n':
            src, cnt, dst = v[0], cv(v[1]), v[2]
        elif n == 'fill':
            cnt = cv(sub(v[1].i or ZERO, v[0].i or ZERO))
            if cnt is None:
                raise Unsupported(n)
            for k in range(cnt):
                self.copy_into(self.target(self.ptrop('+', v[0], C(k))), a[2] if not isinstance(v[2], wt.N) else Cell(v[2]))
            return ZERO
        else:
            raise Unsupported(n)
        if cnt is None:
            raise Unsupported(n)
        vals = [self.copy(self.target(self.ptrop('+', src, C(k)))) for k in range(cnt)]
        if isinstance(dst, Opaque):
            for x in vals:
                dst.v.els.append(x)
            return dst
        for k, x in enumerate(vals):
            self.copy_into(self.target(self.ptrop('+', dst, C(k))), x)
        return self.ptrop('+', dst, C(cnt))

    def std_operator(self, n, xs, e):
        if n in ('operator<<', 'operator>>') and len(xs) == 2:
            o = self.obj(xs[0])
            if isinstance(o, Opaque):
                try:
                    x = self.ev(xs[1])
                except Unsupported:
                    x = '?'
                self.emit(o, x)
                return o
            return NotImplemented
        if n in ('operator==', 'operator!=') and len(xs) == 2:
            a, b = self.ev(xs[0]), self.ev(xs[1])
            r = self.same(a, b)
            return r if n == 'operator==' else sub(ONE, r)
        if n == 'operator+' and len(xs) == 2:
            a, b = self.ev(xs[0]), self.ev(xs[1])
            if isinstance(a, Str) or isinstance(b, Str):
                x, y = self.text(a), self.text(b)
                return Str(x + y if isinstance(x, str) and isinstance(y, str) else ('cat', x, y))
            va, vb = self.load(a), self.load(b)
            return self.ptrop('+', va, vb)
        if n == 'operator-' and len(xs) == 2:
            va, vb = self.val(xs[0]), self.val(xs[1])
            if isinstance(va, Opaque) and isinstance(vb, Opaque):
                return Opaque('time')
            return self.ptrop('-', va, vb)
        if n in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(xs) == 2:
            return self.binop(n[8:], self.val(xs[0]), self.val(xs[1]), None)
        if n.startswith('operator""') or n.startswith('operator\"\"'):
            return Opaque('duration')
        if n in ('operator++', 'operator--'):
            o = self.obj(xs[0])
            o.v = self.ptrop('+' if n == 'operator++' else '-', o.v, ONE)
            return o
        if n in ('operator|', 'operator&'):
            return Opaque('flags')
        return NotImplemented

    def same(self, a, b):
        if isinstance(a, Sp):
            a = a.v
        if isinstance(b, Sp):
            b = b.v
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(b, Opt):
                a, b = b, a
            if isinstance(b, Opaque):
                return ZERO if a.has else ONE
            if isinstance(b, Opt):
                if a.has != b.has:
                    return ZERO
                return self.same(a.o, b.o) if a.has else ONE
            return self.same(a.o, b) if a.has else ZERO
        va, vb = self.load(a), self.load(b)
        if isinstance(va, wt.N) and isinstance(vb, wt.N):
            return eq0(sub(va, vb))
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            return self.ptrop('==', va if isinstance(va, Ptr) else NULL, vb if isinstance(vb, Ptr) else NULL)
        if isinstance(a, Str) and isinstance(b, Str):
            if a.v == b.v:
                return ONE
            if isinstance(a.v, str) and isinstance(b.v, str):
                return ZERO
            return ONE if self.choose('strings') else ZERO
        if isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.els) != len(b.els):
                return ZERO
            for x, y in zip(a.els, b.els):
                if not self.decide(self.same(x, y)):
                    return ZERO
            return ONE
        raise Unsupported('comparison')

    def emit(self, o, x):
        v = self.load(x) if not isinstance(x, (str, Str)) else x
        if isinstance(v, Str):
            v = v.v
        elif isinstance(v, Ptr):
            v = self.text(v)
        o.__dict__.setdefault('out', []).append(v)
        if getattr(o, 'name', '').startswith('std::c'):
            self.event('print', to=o.name, what=v)

    # ------------------------------------------------------------ member functions
    def std_mcall(self, n, o, ref, e):
        xs = e[5]
        if n == 'operator=':
            if isinstance(o, Atomic):
                o.c.v = self.val(xs[0])
                return o.c.v
            a = self.ev(xs[0])
            if isinstance(o, Sp):
                if isinstance(a, Sp):
                    o.v = a.v
                elif isinstance(a, Ptr):
                    o.v = a
                elif isinstance(a, Rec):
                    o.v = Ptr(a)
                else:
                    o.v = NULL
                return o
            if isinstance(o, Opt):
                if isinstance(a, Opt):
                    o.has, o.o = a.has, (self.copy(a.o) if a.o is not None else None)
                elif isinstance(a, Opaque) and 'nullopt' in a.cls:
                    o.has, o.o = False, None
                else:
                    o.has, o.o = True, (Cell(a) if isinstance(a, (wt.N, Ptr)) else self.copy(a))
                return o
            if isinstance(o, Str):
                o.v = self.text(a)
                return o
            if isinstance(o, Future):
                o.__dict__.update(a.__dict__)
                return o
            if isinstance(o, Lock):
                if o.owned:
                    self.unlock(o)
                o.m, o.owned = a.m, a.owned
                a.owned = False
                return o
            self.copy_into(o, a if not isinstance(a, (wt.N, Ptr)) else Cell(a))
            return o
        if isinstance(o, Sp):
            return self.sp_call(n, o, xs)
        if isinstance(o, Map):
            return self.map_call(n, o, xs, e)
        if isinstance(o, Vec):
            return self.vec_call(n, o, xs, e)
        if isinstance(o, Seq):
            return self.seq_call(n, o, xs)
        if isinstance(o, Opt):
            return self.opt_call(n, o, xs)
        if isinstance(o, Str):
            return self.str_call(n, o, xs)
        if isinstance(o, Atomic):
            if n in ('load',) or n.startswith('operator '):
                return o.c.v
            if n == 'store':
                o.c.v = self.val(xs[0])
                return ZERO
            if n == 'exchange':
                old = o.c.v
                o.c.v = self.val(xs[0])
                return old
            if n in ('operator++', 'operator--', 'fetch_add', 'operator+='):
                old = o.c.v
                d = ONE if n == 'operator++' else C(-1) if n == 'operator--' else self.val(xs[0])
                o.c.v = add(old, d)
                return old if n == 'fetch_add' or xs and n in ('operator++', 'operator--') else o.c.v
        if isinstance(o, Lock):
            if n == 'unlock':
                self.unlock(o)
                return ZERO
            if n == 'lock':
                self.lock(o)
                return ZERO
            if n in ('owns_lock', 'operator bool'):
                return ONE if o.owned else ZERO
        if isinstance(o, Future):
            return self.future_call(n, o)
        if isinstance(o, (Cell,)) and isinstance(o.v, Ptr) or isinstance(o, Ptr):
            # iterators
            p = o.v if isinstance(o, Cell) else o
            if n == 'operator*':
                return self.target(p)
            if n == 'operator->':
                return p
            if n in ('operator++', 'operator--'):
                q = self.ptrop('+' if n == 'operator++' else '-', p, ONE)
                if isinstance(o, Cell):
                    o.v = q
                return p if xs else (o if isinstance(o, Cell) else q)
            if n in ('operator+=', 'operator-='):
                o.v = self.ptrop(n[8], p, self.val(xs[0]))
                return o
            if n in ('operator+', 'operator-'):
                return self.ptrop(n[8], p, self.val(xs[0]))
            if n == 'operator[]':
                return self.target(self.ptrop('+', p, self.val(xs[0])))
            if n in ('operator==', 'operator!='):
                return self.ptrop(n[8:], p, self.val(xs[0]))
            if n == 'base':
                return p
        if isinstance(o, Opaque):
            return self.opaque_call(n, o, ref, xs, e)
        if isinstance(o, Blob):
            if n in ('data', 'begin'):
                return Ptr(o, ZERO)
            if n == 'size' and o.size is not None:
                return o.size
        raise Unsupported('%s on %s' % (ref['q'], type(o).__name__))

    def sp_call(self, n, o, xs):
        if n in ('operator->', 'get'):
            return o.v
        if n == 'operator*':
            return self.target(o.v)
        if n == 'operator[]':
            return self.target(self.ptrop('+', o.v, self.val(xs[0])))
        if n == 'operator bool':
            return ZERO if o.v.o is None else ONE
        if n == 'reset':
            o.v = self.val(xs[0]) if xs else NULL
            return ZERO
        if n == 'release':
            v = o.v
            o.v = NULL
            return v
        if n == 'operator()':
            return self.call_value(o, [self.ev(x) for x in xs])
        if n == 'swap':
            a = self.obj(xs[0])
            a.v, o.v = o.v, a.v
            return ZERO
        raise Unsupported(n + ' on a smart pointer')

    def key(self, o):
        if isinstance(o, Str) and isinstance(o.v, str):
            return o.v
        if isinstance(o, (Vec, Rec)):
            return tuple(self.key(x) for x in (o.els if isinstance(o, Vec) else o.f.values()))
        v = self.load(o)
        c = cv(v) if isinstance(v, wt.N) else None
        if c is None:
            raise Unsupported('unknown key of a map')
        return c

    def map_call(self, n, o, xs, e):
        def keyed(x):
            return x.f['first'] if o.kind == 'map' else x

        def find(k):
            for i, x in enumerate(o.els):
                c = self.key(keyed(x))
                if c >= k:
                    return i, c == k
            return len(o.els), False

        def put(i, k, v):
            k = Cell(self.load(k), o.kt) if self.scalar(o.kt) else self.copy(k)
            if o.kind == 'map':
                x = Rec('std::pair')
                x.f = {'first': k, 'second': v if v is not None else self.value_init(o.vt)}
            else:
                x = k
            o.els.insert(i, x)
            return x

        if n in ('size', 'empty', 'begin', 'cbegin', 'end', 'cend', 'clear', 'swap'):
            return self.vec_call(n, o, xs, e)
        if n in ('operator[]', 'at', 'find', 'count', 'contains', 'lower_bound', 'erase'):
            a = self.ev(xs[0])
            if n == 'erase' and isinstance(self.load(a) if isinstance(a, Cell) else a, Ptr):
                return self.vec_call(n, o, xs, e)
            i, there = find(self.key(a))
            if n == 'operator[]':
                return (o.els[i] if there else put(i, a, None)).f['second']
            if n == 'at':
                if not there:
                    raise CxxThrow(Opaque('std::out_of_range'), self.line)
                return o.els[i].f['second']
            if n == 'find':
                return Ptr(o, C(i if there else len(o.els)), o.t)
            if n == 'lower_bound':
                return Ptr(o, C(i), o.t)
            if n == 'erase':
                if there:
                    del o.els[i]
                return ONE if there else ZERO
            return ONE if there else ZERO
        if n in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            a = [self.ev(x) for x in xs]
            if len(a) == 1 and o.kind == 'map' and isinstance(a[0], Rec):
                k, v = a[0].f['first'], a[0].f['second']
            elif len(a) == 2 and o.kind == 'map':
                k, v = a
            elif len(a) == 1 and o.kind == 'set':
                k, v = a[0], None
            else:
                raise Unsupported('%s of a %s' % (n, o.kind))
            i, there = find(self.key(k))
            if o.kind == 'map':
                v = Cell(self.load(v), o.vt) if self.scalar(o.vt) else self.copy(v)
            if there and n == 'insert_or_assign':
                self.copy_into(o.els[i].f['second'], v)
            elif not there:
                put(i, k, v)
            r = Rec('std::pair')
            r.f = {'first': Cell(Ptr(o, C(i), o.t)), 'second': Cell(ZERO if there else ONE)}
            return r
        raise Unsupported('map::' + n)

    def vec_call(self, n, o, xs, e):
        if n in ('operator[]', 'at'):
            i = self.val(xs[0])
            if n == 'at':
                if not self.decide(ge0(sub(C(len(o.els) - 1), i))):
                    raise CxxThrow(Opaque('std::out_of_range'), self.line)
            return self.element(o, i)
        if n == 'size' or n == 'max_size' or n == 'length':
            return C(len(o.els))
        if n == 'empty':
            return ONE if not o.els else ZERO
        if n in ('begin', 'cbegin', 'data'):
            return Ptr(o, ZERO, o.t)
        if n in ('end', 'cend'):
            return Ptr(o, C(len(o.els)), o.t)
        if n in ('rbegin', 'rend', 'crbegin', 'crend'):
            raise Unsupported(n)
        if n in ('front', 'back'):
            if not o.els:
                raise UB(n + ' of an empty container')
            return o.els[0 if n == 'front' else -1]
        if n == 'capacity' and o.kind == 'vector':
            if getattr(o, 'cap', (None, 0))[1] < len(o.els):
                o.cap = (self.fresh('capacity', len(o.els), 1 << 40), len(o.els))
            return o.cap[0]
        if n in ('reserve', 'shrink_to_fit'):
            for x in xs:
                k = self.val(x)
                if n == 'reserve' and o.kind == 'vector' and cv(k) is not None:
                    o.cap = (self.fresh('capacity', max(cv(k), len(o.els)), 1 << 40), max(cv(k), len(o.els)))
            if n != 'reserve' and hasattr(o, 'cap'):
                del o.cap
            return ZERO
        if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            x = self.new_element(o, xs)
            if n.endswith('back'):
                o.els.append(x)
            else:
                o.els.insert(0, x)
            return x
        if n in ('pop_back', 'pop_front'):
            if not o.els:
                raise UB(n + ' of an empty container')
            o.els.pop(-1 if n == 'pop_back' else 0)
            return ZERO
        if n == 'clear':
            o.els = []
            return ZERO
        if n == 'resize':
            k = self.known(self.val(xs[0]))
            x = self.ev(xs[1]) if len(xs) > 1 else None
            o.els = o.els[:k]
            while len(o.els) < k:
                o.els.append(self.value_init(o.t) if x is None else self.copy(x) if not isinstance(x, (wt.N, Ptr)) else Cell(x, o.t))
            return ZERO
        if n == 'erase':
            a = self.val(xs[0])
            i = cv(a.i)
            j = cv(self.val(xs[1]).i) if len(xs) > 1 else i + 1
            if i is None or j is None:
                raise Unsupported('erase')
            if not 0 <= i <= j <= len(o.els):
                raise UB('erase outside the container')
            del o.els[i:j]
            return Ptr(o, C(i), o.t)
        if n == 'insert':
            p = self.val(xs[0])
            i = cv(p.i)
            if len(xs) == 3:
                a, b = self.val(xs[1]), self.val(xs[2])
                if isinstance(a, Ptr):
                    r = self.from_range(a, b, o.t)
                    if isinstance(r, Seq):
                        raise Unsupported('insert')
                    o.els[i:i] = r.els
                    return Ptr(o, C(i), o.t)
                o.els[i:i] = [Cell(b, o.t) for _ in range(self.known(a))]
                return Ptr(o, C(i), o.t)
            o.els.insert(i, self.new_element(o, xs[1:]))
            return Ptr(o, C(i), o.t)
        if n == 'assign':
            a = [self.ev(x) for x in xs]
            v = [self.load(x) for x in a]
            if isinstance(v[0], Ptr):
                r = self.from_range(v[0], v[1], o.t)
            else:
                r = Vec([self.copy(a[1]) if not isinstance(v[1], (wt.N, Ptr)) else Cell(v[1], o.t) for _ in range(self.known(v[0]))], o.t)
            o.__class__ = type(r)
            o.__dict__.update(r.__dict__)
            return ZERO
        if n == 'fill':
            x = self.ev(xs[0])
            for c in o.els:
                self.copy_into(c, x if not isinstance(x, (wt.N, Ptr)) else Cell(x))
            return ZERO
        if n == 'swap':
            a = self.obj(xs[0])
            a.els, o.els = o.els, a.els
            return ZERO
        raise Unsupported('vector::' + n)

    def new_element(self, o, xs):
        t = self.T(o.t)
        if len(xs) == 1:
            a = self.ev(xs[0])
            if isinstance(a, (wt.N, Ptr)):
                if self.scalar(o.t):
                    return Cell(self.fit(a, o.t) if isinstance(a, wt.N) else a, o.t)
            if isinstance(a, Cell) and self.scalar(o.t):
                v = self.load(a)
                return Cell(self.fit(v, o.t) if isinstance(v, wt.N) else v, o.t)
            q = t.get('q', '').replace('std::__cxx11::', 'std::')
            if q in ('std::unique_ptr', 'std::shared_ptr') and isinstance(a, Sp):
                r = Sp(a.v)
                if q == 'std::unique_ptr':
                    a.v = NULL
                return r
            if q == 'std::optional':
                if isinstance(a, Opt):
                    return self.copy(a)
                if isinstance(a, Opaque) and 'nullopt' in a.cls:
                    return Opt()
                return Opt(True, self.copy(a))
            if q == 'std::basic_string':
                return Str(self.text(a))
            if isinstance(a, (Seq, Vec)) and q in ('std::vector', 'std::deque'):
                return self.copy(a)
            if isinstance(a, Rec) and a.cls == t.get('n'):
                return self.copy(a)
            if isinstance(a, (Mock, Opaque)):
                return a
            args = [a]
        else:
            args = [self.ev(x) for x in xs]
            q = t.get('q', '').replace('std::__cxx11::', 'std::')
            if q in ('std::vector', 'std::deque'):
                v = [self.load(a) for a in args]
                if not v:
                    return Vec([], t['a'][0])
                if isinstance(v[0], Ptr):
                    return self.from_range(v[0], v[1], t['a'][0])
                return Vec([self.copy(args[1]) if len(v) > 1 and not isinstance(v[1], (wt.N, Ptr)) else Cell(v[1], t['a'][0]) if len(v) > 1 else self.value_init(t['a'][0])
                            for _ in range(self.known(v[0]))], t['a'][0])
            if self.scalar(o.t):
                return Cell(ZERO, o.t)
            if not args:
                return self.value_init(o.t)
        if t['k'] == 'rec' and t['n'] in self.p.recs:
            for m in self.p.recs[t['n']].get('methods', ()):
                if '#ctor' in m['k'] and m['k'] in self.p.fns and not m.get('copy') and not m.get('move'):
                    f = self.p.fns[m['k']]
                    if len(f['params']) == len(args) and all(self.suits(p['t'], a) for p, a in zip(f['params'], args)):
                        rec = Rec(t['n'])
                        for b in self.bases(t['n']):
                            for x in self.p.recs.get(b, {}).get('fields', ()):
                                if self.T(x['t'])['k'] not in ('ref', 'rref'):
                                    rec.f.setdefault(x['n'], self.default(x['t']))
                        vals = [a if self.T(p['t'])['k'] in ('ref', 'rref') else Cell(self.load(a), p['t']) if self.scalar(p['t']) else self.converted(p['t'], a)
                                for p, a in zip(f['params'], args)]
                        return self.construct(rec, m['k'], vals)
        raise Unsupported('element of ' + t['s'])

    def seq_call(self, n, o, xs):
        if n == 'size':
            return self.size(o)
        if n in ('data', 'begin', 'cbegin'):
            return Ptr(o, ZERO)
        if n in ('end', 'cend'):
            return Ptr(o, self.size(o))
        if n == 'empty':
            return eq0(self.size(o))
        if n == 'erase':
            a, b = self.val(xs[0]), self.val(xs[1])
            if cv(a.i) == 0 and len(o.segs) == 1:
                s, off, l = o.segs[0]
                o.segs = [(s, add(off, b.i), sub(l, b.i))]
                return Ptr(o, ZERO)
            raise Unsupported('erase')
        if n == 'clear':
            o.segs = []
            return ZERO
        raise Unsupported('message::' + n)

    def opt_call(self, n, o, xs):
        if n in ('has_value', 'operator bool'):
            return ONE if o.has is True else ZERO if o.has is False else o.has
        if n == 'value':
            if not o.has:
                raise CxxThrow(Opaque('std::bad_optional_access'), self.line)
            return o.o
        if n == 'operator*':
            if not o.has:
                raise UB('value of an empty optional')
            return o.o
        if n == 'operator->':
            if not o.has:
                raise UB('value of an empty optional')
            return Ptr(o.o)
        if n == 'value_or':
            d = self.ev(xs[0])
            r = o.o if o.has else d
            return self.load(r) if isinstance(r, Cell) else r
        if n == 'reset':
            o.has, o.o = False, None
            return ZERO
        if n == 'emplace':
            a = [self.ev(x) for x in xs]
            o.has, o.o = True, (Cell(a[0]) if isinstance(a[0], (wt.N, Ptr)) else self.copy(a[0]))
            return o.o
        raise Unsupported('optional::' + n)

    def textlen(self, v):
        if isinstance(v, tuple) and v[0] == 'line':        # a line of a connection file: an address
            return atom('length of line %d' % v[2], 2, 45)
        return app('length', [self.named(repr(v))], 0, 1 << 40)

    def str_call(self, n, o, xs):
        if n in ('c_str', 'data', 'begin', 'cbegin'):
            return Ptr(o, ZERO)
        if n in ('size', 'length'):
            if isinstance(o.v, str):
                return C(len(o.v))
            return self.textlen(o.v)
        if n == 'empty':
            if isinstance(o.v, str):
                return ONE if not o.v else ZERO
            return eq0(self.textlen(o.v))
        if n in ('end', 'cend') and isinstance(o.v, str):
            return Ptr(o, C(len(o.v)))
        if n in ('operator+=', 'append', 'push_back'):
            a = self.text(self.ev(xs[0]))
            o.v = o.v + a if isinstance(o.v, str) and isinstance(a, str) else ('cat', o.v, a)
            return o
        if n == 'operator[]' and isinstance(o.v, str):
            i = cv(self.val(xs[0]))
            if i is not None and 0 <= i < len(o.v):
                return Cell(C(ord(o.v[i])))
        if n.startswith('operator basic_string_view'):
            return o
        raise Unsupported('string::' + n)

    def run_job(self, f):
        if f.done or f.job is None:
            return
        f.done = True
        old = self.thread
        olocks = self.locks
        self.locks = []
        self.thread = 'job%d' % getattr(f, 'id', 0)
        self.event('job', future=f)
        fr = self.frame
        d, fs = self.depth, len(self.frames)
        try:
            f.val = self.call_value(f.job, [])
        except CxxThrow as x:
            f.exc = x
            self.frame = fr
            self.depth = d
            del self.frames[fs:]
        finally:
            self.thread = old
            self.locks = olocks
        self.event('jobend', future=f, exc=f.exc)

    def future_call(self, n, o):
        if n in ('wait', 'get'):
            if o.job is None:
                raise UB('wait on a future without a job')
            if n == 'get' and o.taken:
                raise UB('get twice')
            self.event('join', future=o, how=n)
            self.run_job(o)
            if n == 'get':
                o.taken = True
                if o.exc is not None:
                    raise CxxThrow(o.exc.obj, o.exc.line)
                return o.val if o.val is not None else ZERO
            return ZERO
        if n == 'valid':
            return ONE if o.job is not None and not o.taken else ZERO
        raise Unsupported('future::' + n)

    def opaque_call(self, n, o, ref, xs, e):
        if n in ('lock', 'unlock') and o.cls == 'std::mutex':
            if n == 'lock':
                self.event('lock', m=o)
                self.locks.append(o)
            else:
                if o in self.locks:
                    self.locks.remove(o)
                self.event('unlock', m=o)
            return ZERO
        if o.cls.startswith('std::condition_variable'):
            if n == 'wait':
                l = self.obj(xs[0])
                if len(xs) > 1:
                    p = self.obj(xs[1])
                    k = 0
                    while True:
                        c = self.call_value(p, [])
                        if self.decide(self.cond(self.load(c))):
                            return ZERO
                        self.cond_wait(o, l)
                        k += 1
                        if k > 2:
                            raise Cut()
                self.cond_wait(o, l)
                return ZERO
            if n.startswith('notify'):
                self.event('notify', cv=o, all=n.endswith('all'))
                return ZERO
        if n == 'str':
            return Str(('text', tuple(x if isinstance(x, (str, tuple, wt.N)) else getattr(x, 'u', '?') for x in o.out)))
        if n == 'operator<<':
            a = self.ev(xs[0])
            if not isinstance(a, FnV):
                self.emit(o, a)
            return o
        if n == 'is_open':
            return ONE if self.choose('file opens') else ZERO
        if n in ('operator bool', 'good'):
            return ONE if getattr(o, 'good', True) else ZERO
        if n in ('eof', 'fail', 'operator!', 'bad'):
            return ZERO if getattr(o, 'good', True) else ONE
        if n in ('close', 'flush', 'precision', 'setf', 'fill', 'width'):
            return ZERO
        if n == 'count':
            return self.fresh('ticks', 0, 1 << 62)
        if n == 'what':
            return Ptr(Str('?'), ZERO)
        if n == 'code':
            return Opaque('std::error_code', o.args[:1])
        if n == 'value':
            return self.load(o.args[0])
        if n.startswith('operator'):
            return Opaque(o.cls)
        raise Unsupported('%s on %s' % (n, o.cls))

    def cond_wait(self, c, l):
        self.event('wait', cv=c, held=l.owned)

    # ------------------------------------------------------------ 128-bit vectors
    def simd(self, n, a):
        M = (1 << 128) - 1
        n = n.replace('__builtin_ia32_', '').replace('_mm_', '')
        if n in ('loadu_si128', 'load_si128', 'lddqu_si128'):
            return self.from_bytes(self.read_bytes(a[0], 16))
        if n in ('storeu_si128', 'store_si128'):
            self.write_bytes(a[0], [self.byte(a[1], k) for k in range(16)])
            return ZERO
        if n == 'xor_si128':
            return self.ctx.bitop('xor', [a[0], a[1]])
        if n in ('and_si128', 'or_si128'):
            return self.ctx.bitop(n.split('_')[0], [a[0], a[1]])
        if n == 'set_epi64x':
            return add(scale(self.ctx.rem(a[0], 1 << 64), 1 << 64), self.ctx.rem(a[1], 1 << 64))
        if n in ('setzero_si128',):
            return ZERO
        if n in ('pslldqi128_byteshift', 'slli_si128'):
            k = cv(a[1])
            return self.ctx.rem(scale(a[0], 1 << 8 * k), 1 << 128) if k < 16 else ZERO
        if n in ('psrldqi128_byteshift', 'srli_si128'):
            k = cv(a[1])
            return self.ctx.quo(a[0], 1 << 8 * k)
        if n in ('pshufd', 'shuffle_epi32'):
            k = cv(a[1])
            r = ZERO
            for j in range(4):
                s = (k >> 2 * j) & 3
                r = add(r, self.ctx.rem(self.ctx.quo(a[0], 1 << 32 * s), 1 << 32), 1 << 32 * j)
            return r
        names = {'aesenc128': 'aesenc', 'aesenc_si128': 'aesenc', 'aesenclast128': 'aesenclast', 'aesenclast_si128': 'aesenclast',
                 'aeskeygenassist128': 'aeskeygen', 'aeskeygenassist_si128': 'aeskeygen'}
        if names.get(n) == 'aeskeygen':
            a = [a[0], self.ctx.rem(a[1], 256)]
        if n in names:
            return app(names[n], a, 0, M)
        if n in ('set_epi32', 'setr_epi32', 'set1_epi8', 'set_epi8', 'add_epi64', 'set_epi64', 'set1_epi64x'):
            if n == 'add_epi64':
                lo = self.ctx.rem(add(self.ctx.rem(a[0], 1 << 64), self.ctx.rem(a[1], 1 << 64)), 1 << 64)
                hi = self.ctx.rem(add(self.ctx.quo(a[0], 1 << 64), self.ctx.quo(a[1], 1 << 64)), 1 << 64)
                return add(scale(hi, 1 << 64), lo)
            if n == 'set_epi32':
                r = ZERO
                for j, x in enumerate(reversed(a)):
                    r = add(r, self.ctx.rem(x, 1 << 32), 1 << 32 * j)
                return r
        return app('simd:' + n, a, 0, M)


# meaning of the cipher instructions, for interpreting closed expressions
def _aes():
    def xt(a):
        return ((a << 1) ^ 0x1b) & 0xff if a & 0x80 else a << 1

    def gm(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a = xt(a)
            b >>= 1
        return r
    inv = [0] * 256
    for i in range(1, 256):
        for j in range(1, 256):
            if gm(i, j) == 1:
                inv[i] = j
                break
    sb = []
    for i in range(256):
        b = inv[i]
        r = 0x63
        for k in range(5):
            r ^= ((b << k) | (b >> (8 - k))) & 0xff
        sb.append(r)

    def by(x):
        return list(x.to_bytes(16, 'little'))

    def rounds(s, k, last):
        s = by(s)
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        s = [sb[x] for x in s]
        if not last:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                o += [gm(a[i], 2) ^ gm(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = o
        return int.from_bytes(bytes(s), 'little') ^ k

    def sw(w):
        return int.from_bytes(bytes(sb[x] for x in w.to_bytes(4, 'little')), 'little')

    def keygen(x, rcon):
        x1, x3 = (x >> 32) & 0xffffffff, (x >> 96) & 0xffffffff
        rot = lambda w: ((w >> 8) | (w << 24)) & 0xffffffff
        return sw(x1) | (rot(sw(x1)) ^ rcon) << 32 | sw(x3) << 64 | (rot(sw(x3)) ^ rcon) << 96
    return {'aesenc': lambda s, k: rounds(s, k, False), 'aesenclast': lambda s, k: rounds(s, k, True), 'aeskeygen': keygen}


wt.FUNS.update(_aes())
