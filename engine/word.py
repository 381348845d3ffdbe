"""Abstract interpretation of the lowered program on machine words with trace
partitioning: conditions that the abstract state does not decide split the
analysis, each part keeping the linear fact it stands for; loops with undecided
conditions are generalised to an affine invariant that is checked to be
inductive. Values are the closed expressions of wterm. Nothing is executed: inputs, results of
system calls and unknown functions are symbols."""
import os
import re
import time
import wterm as wt
from wterm import C, ZERO, ONE, add, sub, mul, scale, addc, cv, atom, app, ge0, eq0, part, Ctx
from ev import strip_targs


DEBUG = os.environ.get('WDEBUG')


class Unsupported(Exception):
    pass


class Cut(Exception):
    """back edge of a generalised loop, invariant re-established"""


class Again(Exception):
    """loop templates changed: analyse once more"""


class UB(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, obj, line=0):
        self.obj = obj
        self.line = line


PAD = -1  # the type of a byte of padding


class Cell:
    __slots__ = ('v', 't')

    def __init__(self, v=None, t=None):
        self.v = v
        self.t = t


class Rec:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}


class Vec:
    def __init__(self, els, t=None, kind='vector'):
        self.els = els
        self.t = t
        self.kind = kind


class Map(Vec):
    """an ordered map or set: elements (pairs, for a map) in the order of their keys"""

    def __init__(self, els, t, kt, vt, kind, pn=''):
        super().__init__(els, t, kind)
        self.kt, self.vt, self.pn = kt, vt, pn


class Seq:
    """bytes of symbolic number: segments (source, offset, length)"""

    def __init__(self, segs):
        self.segs = segs


class Blob:
    def __init__(self, name, size=None):
        self.name = name
        self.size = size


class Str:
    def __init__(self, v):
        self.v = v


class Opt:
    def __init__(self, has=False, o=None):
        self.has = has
        self.o = o


class Sp:
    """smart pointer"""

    def __init__(self, v):
        self.v = v


class Atomic:
    def __init__(self, c):
        self.c = c


class Opaque:
    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = list(args)


class Mock:
    def __init__(self, cls, name):
        self.cls = cls
        self.name = name


class Lock:
    def __init__(self, m, owned):
        self.m = m
        self.owned = owned


class Future:
    def __init__(self, job):
        self.job = job
        self.done = False
        self.exc = None
        self.val = None
        self.taken = False


class Ptr:
    __slots__ = ('o', 'i', 't')

    def __init__(self, o, i=None, t=None):
        self.o = o
        self.i = i
        self.t = t


class FnV:
    def __init__(self, ref):
        self.ref = ref


NULL = Ptr(None)


class Frame:
    def __init__(self, key, this=None, up=None):
        self.key = key
        self.env = {}
        self.this = this
        self.up = up


class Trace:
    pass


EXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::system_error': 'std::runtime_error',
       'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
       'std::domain_error': 'std::logic_error', 'std::bad_alloc': 'std::exception', 'std::range_error': 'std::runtime_error',
       'std::bad_optional_access': 'std::exception', 'std::future_error': 'std::logic_error', 'std::overflow_error': 'std::runtime_error',
       'std::ios_base::failure': 'std::system_error'}


def isa(cls, base):
    while cls:
        if cls == base:
            return True
        cls = EXC.get(cls)
    return False


class W:
    def __init__(self, prog, hooks=None, mockcall=None, max_traces=3000, unroll=6000, mocked=None):
        self.p = prog
        self.hooks = hooks or {}
        self.mockcall = mockcall
        self.max_traces = max_traces
        self.unroll = unroll
        self.mocked = mocked or (lambda cls: False)
        self.gen = {}
        self.reached = {}
        self.cong = None
        self.splits_per_loop = 3
        self.track = False
        self.deadline = None

    # ------------------------------------------------------------ exploration
    def explore(self, go):
        """go(w) runs one analysis from a fresh state; returns the parts"""
        for attempt in range(25):
            try:
                return self._explore(go)
            except Again:
                continue
        raise Unsupported('loop invariants do not stabilise')

    def _explore(self, go):
        work = [[]]
        out = []
        while work:
            if len(out) >= self.max_traces:
                t = Trace()
                t.outcome, t.val, t.events, t.ctx, t.why = 'limit', None, [], Ctx(), 'more than %d parts' % self.max_traces
                out.append(t)
                break
            self.script = work.pop()
            self.taken = []
            self.pending = []
            self.reset()
            t = Trace()
            t.why = ''
            t.val = None
            try:
                t.val = go(self)
                t.outcome = 'return'
            except CxxThrow as x:
                t.outcome = 'throw'
                t.val = x.obj
                t.line = x.line
            except Cut:
                t.outcome = 'cut'
            except Exit as x:
                t.outcome = 'exit'
                t.line = self.line
                t.val = x.args[0] if x.args else None
            except UB as x:
                t.outcome = 'ub'
                t.why = str(x)
                t.line = self.line
            except Unsupported as x:
                t.outcome = 'unsupported'
                t.why = str(x)
            except (AttributeError, TypeError, KeyError, IndexError, ValueError) as x:
                if DEBUG:
                    raise
                t.outcome = 'unsupported'
                t.why = 'construct at line %s (%s)' % (self.line, str(x)[:80])
            t.events = self.events
            t.ctx = self.ctx
            t.ghost = {k: c.v for k, c in self.ghost.items()}
            t.path = list(self.choices)
            t.overflow = list(self.overflow)
            t.access = self.access
            out.append(t)
            work.extend(self.pending)
        return out

    def reset(self):
        wt.forget()
        self.ctx = Ctx()
        self.events = []
        self.ghost = {}
        self.globals = {}
        self.frame = None
        self.frames = []
        self.n = {}
        self.loopn = {}
        self.choices = []
        self.overflow = []
        self.locks = []
        self.thread = 'main'
        self.access = []
        self.jobs = []
        self.line = 0
        self.depth = 0
        self.steps = 0
        self.roots = []

    def fresh(self, name, lo=None, hi=None):
        k = self.n.get(name, 0)
        self.n[name] = k + 1
        return atom('%s%s' % (name, '#%d' % k if k else ''), lo, hi)

    def event(self, kind, **d):
        d['kind'] = kind
        d['line'] = self.line
        d['fn'] = self.frame.key if self.frame else ''
        d['locks'] = tuple(self.locks)
        d['thread'] = self.thread
        d['nfacts'] = len(self.ctx.facts)
        self.events.append(d)
        return d

    def decide(self, c):
        t = self.ctx.truth(c)
        if t is not None:
            return t
        i = len(self.taken)
        if i < len(self.script):
            b = self.script[i]
        else:
            b = True
            self.pending.append(list(self.taken) + [False])
        self.taken.append(b)
        self.choices.append((self.line, c, b))
        self.ctx.learn(c, b)
        return b

    def choose(self, name):
        """a free decision of the environment"""
        return self.decide(eq0(self.fresh('choice:' + name, 0, 1)))

    # ------------------------------------------------------------ types
    def T(self, i):
        return self.p.types[i]

    def deref_t(self, i):
        t = self.T(i)
        return t['t'] if t['k'] in ('ref', 'rref') else i

    def width(self, i):
        if i == PAD:
            return 8, True
        t = self.T(i)
        k = t['k']
        if k == 'int':
            return t['w'], t['u']
        if k == 'bool':
            return 1, True
        if k == 'enum':
            return 32, False
        return None

    def size_of(self, i):
        if i == PAD:
            return 1
        t = self.T(i)
        if t['k'] == 'int':
            return t['w'] // 8
        if t['k'] == 'bool':
            return 1
        if t['k'] == 'simd':
            return 16
        if t['k'] == 'arr':
            return self.size_of(t['t']) * t['n']
        if t['k'] in ('ptr',):
            return 8
        if t['k'] == 'enum':
            return 4
        raise Unsupported('size of ' + t['s'])

    def scalar(self, i):
        return self.T(i)['k'] in ('int', 'bool', 'enum', 'ptr', 'float', 'simd', 'fn')

    def bases(self, cls):
        out = [cls]
        r = self.p.recs.get(cls)
        if r:
            for b in r.get('bases', ()):
                out.extend(self.bases(b))
        return out

    def default(self, i):
        t = self.T(i)
        k = t['k']
        if k in ('int', 'bool', 'enum', 'float', 'simd'):
            return Cell(None, i)
        if k == 'ptr':
            return Cell(None, i)
        if k in ('ref', 'rref'):
            return Cell(None, i)
        if k == 'arr':
            return Vec([self.default(t['t']) for _ in range(t.get('n', 0))], t['t'], 'arr')
        if k == 'rec':
            return self.default_rec(t)
        return Cell(None, i)

    def default_rec(self, t):
        q = t['q'].replace('std::__cxx11::', 'std::')
        n = t['n']
        if q in ('std::vector', 'std::deque'):
            return Vec([], t['a'][0], q[5:])
        if q in ('std::map', 'std::unordered_map'):
            return Map([], None, t['a'][0], t['a'][1], 'map', n)
        if q in ('std::set', 'std::unordered_set'):
            return Map([], t['a'][0], t['a'][0], None, 'set', n)
        if q == 'std::array':
            return Vec([self.default(t['a'][0]) for _ in range(int(t['a'][1]['i']))], t['a'][0], 'array')
        if q == 'std::basic_string':
            return Str('')
        if q == 'std::optional':
            return Opt()
        if q in ('std::unique_ptr', 'std::shared_ptr', 'std::function', 'std::weak_ptr'):
            return Sp(NULL)
        if q == 'std::atomic' or q.startswith('std::__atomic_base'):
            return Atomic(Cell(ZERO, t['a'][0]))
        if q == 'std::future':
            return Future(None)
        if q == 'std::unique_lock':
            return Lock(None, False)
        if q == 'std::pair':
            r = Rec(n)
            r.f = {'first': self.default(t['a'][0]), 'second': self.default(t['a'][1])}
            return r
        if q.startswith('std::') or q.startswith('__gnu'):
            o = Opaque(q)
            o.out = []
            return o
        if self.mocked(n):
            return Mock(n, n)
        if n not in self.p.recs:
            return Rec(n)
        r = Rec(n)
        for b in self.bases(n):
            for f in self.p.recs.get(b, {}).get('fields', ()):
                if f.get('init') is None:
                    r.f.setdefault(f['n'], self.default(f['t']))
        return r

    # ------------------------------------------------------------ values
    def val(self, e):
        return self.load(self.ev(e), e)

    def load(self, x, e=None):
        if isinstance(x, Cell):
            if x.v is None:
                raise UB('value of an uninitialised object is used')
            return x.v
        if isinstance(x, Atomic):
            return x.c.v
        return x

    def obj(self, e):
        x = self.ev(e)
        if isinstance(x, (wt.N, Ptr, FnV)):
            return Cell(x, self.deref_t(e[2]) if isinstance(e[2], int) else None)
        return x

    def ev(self, e):
        self.line = e[1] or self.line
        self.steps += 1
        if self.deadline and not self.steps & 1023 and time.time() > self.deadline:
            raise Unsupported('time budget')
        return getattr(self, 'x_' + e[0])(e)

    def x_int(self, e):
        return C(int(e[3]))

    def x_str(self, e):
        return Str(e[3])

    def x_null(self, e):
        return NULL

    def x_zero(self, e):
        if self.scalar(e[2]):
            return NULL if self.T(e[2])['k'] == 'ptr' else ZERO
        return self.zeroed(self.default(e[2]))

    def zeroed(self, o):
        if isinstance(o, Cell):
            if o.v is None:
                o.v = NULL if o.t is not None and self.T(o.t)['k'] == 'ptr' else ZERO
        elif isinstance(o, Rec):
            for x in o.f.values():
                self.zeroed(x)
        elif isinstance(o, Vec):
            for x in o.els:
                self.zeroed(x)
        return o

    def x_this(self, e):
        return Ptr(self.frame.this)

    def x_fn(self, e):
        return FnV(e[3])

    def x_temp(self, e):
        return self.obj(e[3]) if not self.scalar(e[2]) else self.obj(e[3])

    def x_opaque(self, e):
        if self.T(e[2])['k'] == 'float':
            return self.fresh('float')
        raise Unsupported('%s at line %d' % (e[3] if len(e) > 3 else '?', e[1]))

    def lookup(self, v):
        f = self.frame
        while f is not None:
            if v in f.env:
                return f.env[v]
            f = f.up
        return None

    def x_var(self, e):
        v = e[3]
        o = self.lookup(v)
        if o is not None:
            return o
        if v.startswith('g:') or v in self.globals:
            if v not in self.globals:
                g = self.p.globals.get(v)
                if v in ('g:std::cout', 'g:std::cerr', 'g:std::clog'):
                    o = Opaque('std::ostream')
                    o.out = []
                    o.name = v[2:]
                    self.globals[v] = o
                elif v in self.hooks:
                    self.globals[v] = self.hooks[v](self)
                elif g is None:
                    o = Opaque(v)
                    o.out = []
                    self.globals[v] = o
                elif g.get('init') is not None:
                    of = self.frame
                    self.frame = Frame('init ' + v)
                    try:
                        self.globals[v] = self.bind(g['t'], g['init'])
                    finally:
                        self.frame = of
                else:
                    self.globals[v] = self.zeroed(self.default(g['t']))
            return self.globals[v]
        raise Unsupported('variable ' + v)

    def x_mem(self, e):
        o = self.ev(e[3])
        if isinstance(o, Mock):
            return self.mockfield(o, e)
        if isinstance(o, Rec):
            x = o.f.get(e[4])
            if x is None:
                x = o.f[e[4]] = self.default(e[2])
            if self.track:
                self.access.append((self.thread, o, e[4], x, False, tuple(self.locks), self.line, len(self.events)))
            return x
        if isinstance(o, (Vec, Str)) and e[4].startswith('_M'):
            return o
        raise Unsupported('member %s of %s' % (e[4], type(o).__name__))

    def mockfield(self, o, e):
        d = o.__dict__.setdefault('f', {})
        if e[4] not in d:
            d[e[4]] = self.default(e[2])
        return d[e[4]]

    def target(self, p, e=None):
        """object a pointer points to"""
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of %s' % type(p).__name__)
        if p.o is None:
            raise UB('null pointer dereferenced')
        if p.i is None:
            if isinstance(p.o, Cell) and p.t is not None and p.o.t is not None:
                self.view_check(p)
            return p.o
        i = cv(p.i)
        if isinstance(p.o, Blob):
            o = Cell(app('byte', [self.named(p.o.name), p.i], 0, 255), None)
            return o
        if i is None:
            raise Unsupported('pointer with unknown offset dereferenced')
        if isinstance(p.o, Vec):
            if p.t is not None and p.o.t is not None and p.t != p.o.t and self.viewed(p.t, p.o.t):
                n = self.size_of(p.t)
                return Cell(self.from_bytes(self.read_bytes(p, n), p.t), p.t)
            if not 0 <= i < len(p.o.els):
                raise UB('element %d of %d accessed' % (i, len(p.o.els)))
            return p.o.els[i]
        if isinstance(p.o, Str):
            if isinstance(p.o.v, str):
                if 0 <= i < len(p.o.v):
                    return Cell(C(ord(p.o.v[i])), None)
                if i == len(p.o.v):
                    return Cell(ZERO, None)
            raise Unsupported('character of a string')
        if i == 0:
            return p.o
        raise UB('offset %d from a single object' % i)

    def named(self, name):
        return atom('&' + name, 0, 0)

    def viewed(self, a, b):
        """pointer element types that differ in representation"""
        ta, tb = self.T(a), self.T(b)
        if ta['k'] in ('int', 'simd') and tb['k'] in ('int', 'simd', 'rec', 'bool'):
            return ta['k'] != tb['k'] or ta.get('w') != tb.get('w')
        return False

    def view_check(self, p):
        a, b = self.width(p.t), self.width(p.o.t)
        if a and b and a[0] != b[0]:
            raise Unsupported('object accessed at another width')

    # memory as bytes
    def byte(self, x, k):
        return self.ctx.rem(self.ctx.quo(x, 1 << (8 * k)), 256)

    def unsigned(self, v, t):
        w = self.width(t) if t is not None else None
        if w and not w[1]:
            return self.ctx.rem(v, 1 << w[0])
        return v

    def read_bytes(self, p, n):
        """n bytes from a pointer"""
        if p.o is None:
            raise UB('null pointer read')
        o = p.o
        i = 0 if p.i is None else cv(p.i)
        if isinstance(o, Blob):
            return [app('byte', [self.named(o.name), addc(p.i if p.i is not None else ZERO, k)], 0, 255) for k in range(n)]
        if i is None:
            raise Unsupported('bytes at an unknown offset')
        out = []
        if isinstance(o, Vec):
            if o.t is not None and (self.T(o.t)['k'] in ('int', 'simd', 'bool')):
                w = self.size_of(o.t)
                # the index counts elements of the vector's own type
                k = i * w
                for j in range(k, k + n):
                    if not 0 <= j // w < len(o.els):
                        raise UB('read of byte %d of %d' % (j, w * len(o.els)))
                    c = o.els[j // w]
                    v = c.v
                    if v is None:
                        v = self.fresh('undef', 0, (1 << 8 * w) - 1)
                    out.append(v if w == 1 else self.byte(self.unsigned(v, o.t), j % w))
                return out
            flat = self.cells(o)
            return self.cell_bytes(flat, i * (sum(self.size_of(c.t) for c in flat) // max(1, len(o.els))), n)
        flat = self.cells(o)
        return self.cell_bytes(flat, i if i else 0, n)

    def cell_bytes(self, flat, k, n):
        out = []
        pos = 0
        for c in flat:
            w = self.size_of(c.t)
            for b in range(w):
                if k <= pos < k + n:
                    v = c.v if c.v is not None else self.fresh('undef', 0, (1 << 8 * w) - 1)
                    out.append(v if w == 1 else self.byte(self.unsigned(v, c.t), b))
                pos += 1
        if len(out) < n:
            raise UB('read of %d bytes past an object' % (n - len(out)))
        return out

    def cells(self, o):
        if isinstance(o, Cell):
            return [o]
        if isinstance(o, Rec):
            out = []
            pos, most = 0, 1
            for b in reversed(self.bases(o.cls)):
                for f in self.p.recs.get(b, {}).get('fields', ()):
                    if f['n'] in o.f:
                        cs = self.cells(o.f[f['n']])
                        al = max([self.size_of(c.t) for c in cs] or [1])
                        most = max(most, al)
                        while pos % al:
                            out.append(Cell(None, PAD))
                            pos += 1
                        out.extend(cs)
                        pos += sum(self.size_of(c.t) for c in cs)
            while pos % most:
                out.append(Cell(None, PAD))
                pos += 1
            if not out:
                raise Unsupported('bytes of ' + o.cls)
            return out
        if isinstance(o, Vec):
            out = []
            for x in o.els:
                out.extend(self.cells(x))
            return out
        raise Unsupported('bytes of ' + type(o).__name__)

    def from_bytes(self, bs, t=None):
        r = ZERO
        for k, b in enumerate(bs):
            r = add(r, b, 1 << (8 * k))
        if t is not None:
            w = self.width(t)
            if w and not w[1]:
                x = self.ctx.wrap(r, w[0], False)
                if x is None:
                    raise Unsupported('signed value from bytes')
                return x
        return r

    def write_bytes(self, p, bs):
        if p.o is None:
            raise UB('null pointer written')
        o = p.o
        i = 0 if p.i is None else cv(p.i)
        if i is None:
            raise Unsupported('bytes written at an unknown offset')
        if isinstance(o, Vec) and o.t is not None and self.T(o.t)['k'] in ('int', 'simd', 'bool') and self.size_of(o.t) == 1:
            for k, b in enumerate(bs):
                if not 0 <= i + k < len(o.els):
                    raise UB('write of byte %d of %d' % (i + k, len(o.els)))
                o.els[i + k].v = b
            return
        flat = self.cells(o)
        k = i
        if isinstance(o, Vec) and o.els:
            k = i * (sum(self.size_of(c.t) for c in flat) // len(o.els))
        pos = 0
        n = len(bs)
        for c in flat:
            w = self.size_of(c.t)
            if pos + w <= k or pos >= k + n:
                pos += w
                continue
            if k <= pos and pos + w <= k + n:
                c.v = self.from_bytes(bs[pos - k:pos - k + w], c.t)
            else:
                v = c.v if c.v is not None else ZERO
                cur = [self.byte(self.unsigned(v, c.t), b) for b in range(w)]
                for b in range(w):
                    if k <= pos + b < k + n:
                        cur[b] = bs[pos + b - k]
                c.v = self.from_bytes(cur, c.t)
            pos += w
        if k + n > pos:
            raise UB('write of %d bytes past an object' % (k + n - pos))

    def store(self, p, v):
        """store through a pointer that views memory at its own width"""
        if isinstance(p.o, (Vec, Cell)) and p.t is not None:
            t = p.o.t
            if t is not None and p.t != t and self.viewed(p.t, t):
                n = self.size_of(p.t)
                self.write_bytes(p, [self.byte(self.unsigned(v, p.t), k) for k in range(n)])
                return True
        return False

    def x_deref(self, e):
        p = self.ev(e[3])
        if isinstance(p, Sp):
            p = p.v
        if isinstance(p, Cell):
            p = p.v
            if p is None:
                raise UB('uninitialised pointer used')
        if isinstance(p, Opt):
            return p.o
        if isinstance(p, FnV):
            return p
        return self.target(p, e)

    def lptr(self, e):
        """address of an lvalue expression"""
        if e[0] == 'deref':
            p = self.val(e[3])
            if isinstance(p, Ptr):
                return p
        if e[0] == 'idx':
            b = self.ev(e[3])
            i = self.val(e[4])
            if isinstance(b, Vec):
                return Ptr(b, i, b.t)
            p = self.load(b)
            return Ptr(p.o, add(p.i if p.i is not None else ZERO, i), p.t)
        if e[0] == 'mcall' and e[3]['q'].endswith('operator[]'):
            o = self.obj(e[4])
            if isinstance(o, (Vec, Seq)):
                return Ptr(o, self.val(e[5][0]), getattr(o, 't', None))
        if e[0] == 'mcall' and e[3]['q'].rsplit('::', 1)[-1] in ('front', 'back', 'at'):
            o = self.obj(e[4])
            if isinstance(o, Vec):
                n = e[3]['q'].rsplit('::', 1)[-1]
                return Ptr(o, ZERO if n == 'front' else C(len(o.els) - 1) if n == 'back' else self.val(e[5][0]), o.t)
        o = self.obj(e)
        if isinstance(o, Vec):
            return Ptr(o, None, None)
        return Ptr(o, None, o.t if isinstance(o, Cell) else None)

    def x_addr(self, e):
        if e[3][0] == 'fn':
            return FnV(e[3][3])
        return self.lptr(e[3])

    def x_decay(self, e):
        o = self.ev(e[3])
        if isinstance(o, (Vec, Str, Blob, Seq)):
            return Ptr(o, ZERO, getattr(o, 't', None))
        raise Unsupported('array ' + type(o).__name__)

    def x_cast(self, e):
        k = e[3]
        if k == 'void':
            self.ev(e[4])
            return ZERO
        v = self.val(e[4])
        t = self.T(e[2])
        if k == 'int':
            if isinstance(v, Ptr):
                return ZERO if v.o is None else ONE
            if not isinstance(v, wt.N):
                raise Unsupported('cast')
            if t['k'] == 'float':
                return self.fresh('float')
            if t['k'] == 'bool':
                lo, hi = self.ctx.bounds(v)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    return v
                return sub(ONE, eq0(v))
            return self.fit(v, e[2], True)
        if k == 'bit':
            if isinstance(v, Ptr):
                if t['k'] == 'ptr':
                    to = t['t']
                    if self.T(to)['k'] in ('int', 'simd', 'bool'):
                        return self.reptr(v, to)
                return v
            return v
        if isinstance(v, Ptr) and k in ('ToUnion', 'PointerToIntegral'):
            raise Unsupported('cast ' + k)
        return v

    def reptr(self, v, to):
        """the same address seen as elements of type to; the index keeps counting the container's own elements"""
        return Ptr(v.o, v.i, to)

    def fit(self, v, t, conv=False):
        w = self.width(t)
        if w is None:
            return v
        r = self.ctx.wrap(v, w[0], w[1])
        if r is None and conv:
            # two's complement conversion
            h = 1 << w[0] - 1
            return self.ctx.plus(self.ctx.rem(addc(v, h), 2 * h), C(-h))
        if r is None:
            # not known to fit: taken to (reported among the assumptions)
            self.overflow.append((self.frame.key if self.frame else '', self.line))
            return part(v)
        return r

    def x_un(self, e):
        v = self.val(e[4])
        op = e[3]
        if op == '!':
            if isinstance(v, Ptr):
                return ONE if v.o is None else ZERO
            return eq0(v)
        if op == '-':
            return self.fit(scale(v, -1), e[2])
        if op == '~':
            return self.fit(sub(C(-1), v), e[2])
        if op == '+':
            return v
        raise Unsupported('operator ' + op)

    def x_bin(self, e):
        op = e[3]
        if op == '&&':
            a = self.val(e[4])
            if not self.decide(self.cond(a)):
                return ZERO
            return self.cond(self.val(e[5]))
        if op == '||':
            a = self.val(e[4])
            if self.decide(self.cond(a)):
                return ONE
            return self.cond(self.val(e[5]))
        if op == ',':
            self.ev(e[4])
            return self.ev(e[5])
        a = self.val(e[4])
        b = self.val(e[5])
        return self.binop(op, a, b, e[2], e[4][2])

    def cond(self, v):
        if isinstance(v, Ptr):
            return ZERO if v.o is None else ONE
        if isinstance(v, FnV):
            return ONE
        lo, hi = self.ctx.bounds(v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return v
        return sub(ONE, eq0(v))

    def binop(self, op, a, b, t, ta=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, a, b, ta)
        if not isinstance(a, wt.N) or not isinstance(b, wt.N):
            raise Unsupported('operands of ' + op)
        if op == '+':
            return self.fit(self.ctx.plus(a, b), t)
        if op == '-':
            return self.fit(self.ctx.plus(a, b, -1), t)
        if op == '*':
            return self.fit(self.ctx.times(a, b), t)
        if op == '<':
            return ge0(addc(sub(b, a), -1))
        if op == '>':
            return ge0(addc(sub(a, b), -1))
        if op == '<=':
            return ge0(sub(b, a))
        if op == '>=':
            return ge0(sub(a, b))
        if op == '==':
            return eq0(sub(a, b))
        if op == '!=':
            return sub(ONE, eq0(sub(a, b)))
        if op in ('/', '%'):
            return self.divide(op, a, b, t)
        if op == '<<':
            k = cv(b)
            if k is None:
                raise Unsupported('shift by an unknown amount')
            w = self.width(t)
            if k < 0 or w and k >= w[0]:
                raise UB('shift by %d' % k)
            return self.fit(scale(a, 1 << k), t)
        if op == '>>':
            k = cv(b)
            if k is None:
                raise Unsupported('shift by an unknown amount')
            w = self.width(t)
            if k < 0 or w and k >= w[0]:
                raise UB('shift by %d' % k)
            return self.ctx.quo(a, 1 << k)
        if op in ('&', '|', '^'):
            w = self.width(t)
            neg = [self.ctx.bounds(x)[0] for x in (a, b)]
            if any(l is None or l < 0 for l in neg):
                if cv(a) is not None and cv(b) is not None:
                    x, y = cv(a), cv(b)
                    return C(x & y if op == '&' else x | y if op == '|' else x ^ y)
                if w is None:
                    raise Unsupported('bits of a signed value')
                a, b = self.ctx.rem(a, 1 << w[0]), self.ctx.rem(b, 1 << w[0])
                r = self.ctx.bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], [a, b])
                if not w[1]:
                    r = self.ctx.wrap(r, w[0], False)
                    if r is None:
                        raise Unsupported('bits of a signed value')
                return r
            return self.ctx.bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], [a, b])
        raise Unsupported('operator ' + op)

    def divide(self, op, a, b, t):
        x, y = cv(a), cv(b)
        if y == 0:
            raise UB('division by zero')
        lo = self.ctx.bounds(a)[0]
        if x is not None and y is not None:
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return C(q if op == '/' else x - q * y)
        if y is not None and y > 0 and lo is not None and lo >= 0:
            q = self.ctx.quo(a, y)
            return q if op == '/' else add(a, q, -y)
        w = self.width(t)
        h = None if w is None else (1 << w[0] - (0 if w[1] else 1))
        ok = lo is not None and lo >= 0 and (self.ctx.bounds(b)[0] or 0) >= 1
        hi = self.ctx.bounds(a)[1]
        if ok:
            q = app('div', [a, b], 0, hi)
            if cv(b) is None:
                self.ctx.assume(sub(a, mul(q, b)))
                self.ctx.assume(addc(sub(b, sub(a, mul(q, b))), -1))
        else:
            q = app('div', [a, b], None if h is None else (0 if w[1] else -h), None if h is None else h - 1)
        return q if op == '/' else sub(a, mul(q, b))

    def ptrop(self, op, a, b, ta=None):
        if op in ('==', '!='):
            if not isinstance(a, Ptr):
                a = NULL
            if not isinstance(b, Ptr):
                b = NULL
            if a.o is not b.o:
                r = ZERO
            elif a.o is None:
                r = ONE
            else:
                r = eq0(sub(a.i if a.i is not None else ZERO, b.i if b.i is not None else ZERO))
            return r if op == '==' else sub(ONE, r)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is not b.o:
                raise Unsupported('pointers into different objects')
            d = sub(a.i if a.i is not None else ZERO, b.i if b.i is not None else ZERO)
            if op == '-':
                return d
            return self.binop(op, d, ZERO, None)
        if isinstance(b, Ptr):
            a, b = b, a
        k = 1
        if isinstance(a.o, Vec) and a.t is not None and a.o.t is not None and a.t != a.o.t and self.viewed(a.t, a.o.t):
            ka, ko = self.size_of(a.t), self.size_of(a.o.t)
            if ka % ko:
                raise Unsupported('pointer step smaller than an element')
            k = ka // ko
        elif isinstance(a.o, (Cell, Rec)) and a.t is not None:
            k = self.size_of(a.t)
        i = a.i if a.i is not None else ZERO
        if op == '+':
            return Ptr(a.o, add(i, b, k), a.t)
        if op == '-':
            return Ptr(a.o, add(i, b, -k), a.t)
        raise Unsupported('pointer operator ' + op)

    def assign(self, lhs, v, e):
        """lhs: object of the left side; e: its expression"""
        if isinstance(lhs, Cell):
            lhs.v = v
        elif isinstance(lhs, Atomic):
            lhs.c.v = v
        elif isinstance(lhs, Sp):
            lhs.v = v.v if isinstance(v, Sp) else v
        else:
            raise Unsupported('assignment to ' + type(lhs).__name__)

    def wrote(self, o):
        if self.track and self.access:
            for k in range(len(self.access) - 1, max(-1, len(self.access) - 6), -1):
                a = self.access[k]
                if a[3] is o:
                    self.access[k] = a[:4] + (True,) + a[5:]
                    return

    def x_assign(self, e):
        if e[3][0] in ('deref', 'idx'):
            v = self.val(e[4])
            p = self.lptr(e[3])
            if isinstance(p, Ptr) and self.store(p, v):
                return v
            o = self.target(p)
            self.assign(o, v, e[3])
            return o
        if self.scalar(e[2]):
            v = self.val(e[4])
            o = self.obj(e[3])
            self.assign(o, v, e[3])
            self.wrote(o)
            return o
        o = self.obj(e[3])
        self.copy_into(o, self.obj(e[4]))
        return o

    def x_opassign(self, e):
        o = self.obj(e[4])
        a = self.load(o)
        b = self.val(e[5])
        t = e[6] if len(e) > 6 else e[2]
        if isinstance(a, Ptr):
            v = self.ptrop(e[3], a, b)
        else:
            lt = self.deref_t(e[4][2])
            v = self.fit(self.binop(e[3], self.fit(a, t), b, t), lt, conv=self.width(t) != self.width(lt))
        self.assign(o, v, e[4])
        self.wrote(o)
        return o

    def x_incdec(self, e):
        o = self.obj(e[5])
        a = self.load(o)
        d = ONE if e[3] == '++' else C(-1)
        if isinstance(a, Ptr):
            v = self.ptrop('+', a, d)
        else:
            v = self.fit(add(a, d), self.deref_t(e[5][2]))
        self.assign(o, v, e[5])
        self.wrote(o)
        return o if e[4] else a

    def x_cond(self, e):
        c = self.cond(self.val(e[3]))
        return self.ev(e[4]) if self.decide(c) else self.ev(e[5])

    def x_idx(self, e):
        b = self.ev(e[3])
        i = self.val(e[4])
        if isinstance(b, Vec):
            return self.element(b, i)
        p = self.load(b)
        if isinstance(p, Str):
            p = Ptr(p, ZERO)
        return self.target(self.ptrop('+', p, i))

    def element(self, o, i):
        k = cv(i)
        if k is None:
            n = len(o.els)
            # an unknown index: one part per element
            for j in range(n):
                if self.decide(eq0(addc(i, -j))):
                    return o.els[j]
            raise UB('element outside an array of %d' % n)
        if not 0 <= k < len(o.els):
            raise UB('element %d of %d accessed' % (k, len(o.els)))
        return o.els[k]

    def x_stmtexpr(self, e):
        self.exec(e[3])
        return ZERO

    def x_initlist(self, e):
        t = self.T(e[2])
        if t['k'] == 'arr' or t['k'] == 'rec' and t['q'] == 'std::array':
            if t['k'] == 'rec':
                n, et = int(t['a'][1]['i']), t['a'][0]
                xs = e[3]
                if len(xs) == 1 and xs[0][0] == 'initlist':
                    xs = xs[0][3]
            else:
                n, et = t.get('n', 0), t['t']
                xs = e[3]
            els = [self.bind(et, x) for x in xs[:n]]
            while len(els) < n:
                els.append(self.zeroed(self.default(et)))
            return Vec(els, et, 'arr')
        if t['k'] == 'rec':
            if t['q'] == 'std::initializer_list':
                return Vec([self.bind(t['a'][0], x) for x in e[3]], t['a'][0], 'il')
            r = Rec(t['n'])
            fs = [f for f in self.p.recs.get(t['n'], {}).get('fields', ())]
            for f, x in zip(fs, e[3]):
                r.f[f['n']] = self.bind(f['t'], x)
            for f in fs[len(e[3]):]:
                r.f[f['n']] = self.bind(f['t'], f['init']) if f.get('init') else self.zeroed(self.default(f['t']))
            return r
        if len(e[3]) == 1:
            return self.val(e[3][0])
        return ZERO

    def bind(self, t, e):
        """a new object of type t (or a reference) initialised by e"""
        k = self.T(t)['k']
        if e is None:
            return self.default(t)
        if k in ('ref', 'rref'):
            return self.obj(e)
        if self.scalar(t):
            v = self.val(e)
            return Cell(v, t)
        if k == 'arr' and e[0] == 'str':
            n = self.T(t).get('n', 0)
            b = e[3].encode('latin1', 'replace') + b'\0' * n
            return Vec([Cell(C(x), self.T(t)['t']) for x in b[:n]], self.T(t)['t'], 'arr')
        o = self.ev(e)
        if isinstance(o, (wt.N, Ptr)):
            return Cell(o, t)
        return o

    def copy(self, o):
        if isinstance(o, Cell):
            return Cell(o.v, o.t)
        if isinstance(o, Rec):
            r = Rec(o.cls)
            r.f = {k: self.copy(x) for k, x in o.f.items()}
            for a in ('caps', 'cthis'):
                if hasattr(o, a):
                    setattr(r, a, getattr(o, a))
            return r
        if isinstance(o, Map):
            return Map([self.copy(x) for x in o.els], o.t, o.kt, o.vt, o.kind, o.pn)
        if isinstance(o, Vec):
            return Vec([self.copy(x) for x in o.els], o.t, o.kind)
        if isinstance(o, Seq):
            return Seq(list(o.segs))
        if isinstance(o, Str):
            return Str(o.v)
        if isinstance(o, Opt):
            return Opt(o.has, self.copy(o.o) if o.o is not None else None)
        if isinstance(o, Sp):
            return Sp(o.v)
        if isinstance(o, Atomic):
            return Atomic(Cell(o.c.v, o.c.t))
        return o

    def copy_into(self, o, s):
        if isinstance(o, Cell):
            o.v = s.v if isinstance(s, Cell) else s
        elif isinstance(o, Rec) and isinstance(s, Rec):
            c = self.copy(s)
            for k, x in c.f.items():
                if k in o.f:
                    self.copy_into(o.f[k], x)
                else:
                    o.f[k] = x
        elif isinstance(o, (Vec, Seq)) and isinstance(s, (Vec, Seq)):
            c = self.copy(s)
            o.__class__ = type(c)
            o.__dict__.update(c.__dict__)
        elif isinstance(o, Str):
            o.v = s.v
        elif isinstance(o, Opt):
            o.has, o.o = (s.has, self.copy(s.o) if s.o is not None else None) if isinstance(s, Opt) else (True, s)
        elif isinstance(o, Sp):
            o.v = s.v
        elif type(o) is type(s):
            o.__dict__.update(s.__dict__)
        else:
            raise Unsupported('assignment of %s to %s' % (type(s).__name__, type(o).__name__))

    def x_throw(self, e):
        if not e[3]:
            raise CxxThrow(self.current_exc, e[1])
        o = self.ev(e[3])
        raise CxxThrow(o, e[1])

    def x_new(self, e):
        if e[4] is not None:
            n = cv(self.val(e[4]))
            if n is None:
                raise Unsupported('array of unknown size')
            return Ptr(Vec([self.default(e[3]) for _ in range(n)], e[3], 'heap'), ZERO, e[3])
        return Ptr(self.bind(e[3], e[5]))

    def x_delete(self, e):
        self.ev(e[3])
        return ZERO

    def x_lambda(self, e):
        r = Rec(e[3])
        info = self.p.recs.get(e[3], {})
        caps = info.get('caps', [])
        r.caps = {}
        r.cthis = None
        r.up = None
        for c, ci in zip(caps, e[4]):
            if c.get('this'):
                r.cthis = self.frame.this
            elif c['ref']:
                o = self.obj(ci) if ci is not None else self.lookup(c['v'])
                r.caps[c['v']] = o
            else:
                o = self.obj(ci)
                r.caps[c['v']] = self.copy(o) if isinstance(o, (Cell, Vec, Str, Opt)) else o
        return r

    # ------------------------------------------------------------ calls
    def method(self, cls, ref):
        """final overrider of ref in class cls"""
        n = ref['k'].split('(')[0].rsplit('::', 1)[-1]
        for b in self.bases(cls):
            r = self.p.recs.get(b)
            if not r:
                continue
            for m in r.get('methods', ()):
                if m['k'].split('(')[0].rsplit('::', 1)[-1] == n and len(m.get('pt', ())) == len(ref.get('pt', ())) and m['k'] in self.p.fns and \
                        [self.T(x)['s'] for x in m.get('pt', ())] == [self.T(x)['s'] for x in ref.get('pt', ())]:
                    return m
        return ref

    def args_for(self, f, es):
        out = []
        for p, e in zip(f['params'], es):
            out.append(self.bind(p['t'], e))
        return out

    def invoke(self, key, this, args, up=None, caps=None):
        f = self.p.fns[key]
        self.reached[key] = (f.get('file'), f.get('line'))
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion')
        of, ol = self.frame, self.line
        fr = Frame(key, this, None)
        fr.caller = of
        if caps:
            fr.env.update(caps)
        for p, a in zip(f['params'], args):
            if isinstance(a, (wt.N, Ptr, FnV)):
                a = Cell(a, self.deref_t(p['t']))
            fr.env[p['v']] = a
        self.frame = fr
        self.frames.append(fr)
        try:
            r = self.exec(f['body'])
        finally:
            self.frames.pop()
            self.frame = of
            self.depth -= 1
        self.line = ol
        if r and r[0] == 'ret':
            return r[1]
        return ZERO

    def construct(self, rec, key, args):
        f = self.p.fns[key]
        self.reached[key] = (f.get('file'), f.get('line'))
        of = self.frame
        fr = Frame(key, rec, None)
        fr.caller = of
        for p, a in zip(f['params'], args):
            if isinstance(a, (wt.N, Ptr, FnV)):
                a = Cell(a, self.deref_t(p['t']))
            fr.env[p['v']] = a
        self.frame = fr
        self.frames.append(fr)
        try:
            for i in f.get('inits', ()):
                e = i['e']
                if 'f' in i:
                    ft = None
                    for b in self.bases(rec.cls):
                        for x in self.p.recs.get(b, {}).get('fields', ()):
                            if x['n'] == i['f']:
                                ft = x['t']
                    if ft is None:
                        raise Unsupported('field ' + i['f'])
                    rec.f[i['f']] = self.bind(ft, e)
                else:
                    self.base_init(rec, e)
            self.exec(f['body'])
        finally:
            self.frames.pop()
            self.frame = of
        return rec

    def base_init(self, rec, e):
        if e is None:
            return
        if e[0] == 'ctor':
            ref = e[3]
            if ref['k'] in self.p.fns:
                args = self.args_for(self.p.fns[ref['k']], e[4])
                self.construct(rec, ref['k'], args)
                return
            if ref.get('copy') or ref.get('move'):
                o = self.obj(e[4][0])
                for k, x in self.copy(o).f.items():
                    rec.f.setdefault(k, x)
                return
            return
        if e[0] == 'initlist':
            return
        raise Unsupported('base initialiser')

    def x_ctor(self, e):
        ref = e[3]
        t = self.T(e[2])
        if t['k'] != 'rec':
            if t['k'] == 'arr':
                return self.default_ctor(e[2], ref)
            raise Unsupported('constructor of ' + t['s'])
        q = t['q'].replace('std::__cxx11::', 'std::')
        if ('ctor:' + q) in self.hooks:
            return self.hooks['ctor:' + q](self, e, ref)
        if self.mocked(t['n']):
            if (ref.get('copy') or ref.get('move')):
                return self.obj(e[4][0])
            m = Mock(t['n'], t['n'])
            m.args = [self.ev(x) for x in e[4]]
            self.event('ctor', cls=t['n'], args=m.args, obj=m)
            return m
        if ref['k'] in self.p.fns and not (ref.get('implicit') and (ref.get('copy') or ref.get('move'))):
            rec = Rec(t['n'])
            f = self.p.fns[ref['k']]
            args = self.args_for(f, e[4])
            for b in self.bases(t['n']):
                for x in self.p.recs.get(b, {}).get('fields', ()):
                    if self.T(x['t'])['k'] not in ('ref', 'rref'):
                        rec.f.setdefault(x['n'], self.default(x['t']))
            return self.construct(rec, ref['k'], args)
        if q.startswith('std::') or q.startswith('__gnu'):
            return self.std_ctor(q, t, ref, e)
        if ref.get('copy') or ref.get('move'):
            o = self.obj(e[4][0])
            return self.copy(o) if ref.get('copy') or not isinstance(o, Mock) else o
        if not e[4]:
            return self.default_ctor(e[2], ref)
        raise Unsupported('constructor of ' + t['n'])

    def default_ctor(self, ti, ref):
        o = self.default(ti)
        if isinstance(o, Vec):
            et = self.T(ti)['t']
            if ref['k'] in self.p.fns:
                o.els = [self.construct(Rec(self.T(et)['n']), ref['k'], []) for _ in o.els]
            return o
        if isinstance(o, Rec):
            for b in self.bases(o.cls):
                for f in self.p.recs.get(b, {}).get('fields', ()):
                    if f.get('init') is not None:
                        of = self.frame
                        self.frame = Frame('init', o)
                        try:
                            o.f[f['n']] = self.bind(f['t'], f['init'])
                        finally:
                            self.frame = of
        return o

    def x_call(self, e):
        ref = e[3]
        q = ref['q'].replace('std::__cxx11::', 'std::')
        if q in self.hooks:
            return self.hooks[q](self, None, [self.ev(x) for x in e[4]], e)
        for pre in self.hooks.get('prefix', ()):
            if q.startswith(pre[0]):
                r = pre[1](self, q, [self.ev(x) for x in e[4]], e)
                if r is not NotImplemented:
                    return r
        if ref['k'] in self.p.fns:
            f = self.p.fns[ref['k']]
            if ref.get('cls') and not ref.get('st'):
                # operator call on an object spelled as a free call
                this = self.obj(e[4][0])
                return self.invoke(ref['k'], this, self.args_for(f, e[4][1:]))
            return self.invoke(ref['k'], None, self.args_for(f, e[4]))
        return self.std_call(q, ref, e)

    def x_mcall(self, e):
        ref = e[3]
        o = self.ev(e[4])
        q = ref['q'].replace('std::__cxx11::', 'std::')
        if q in self.hooks:
            r = self.hooks[q](self, o, [self.ev(x) for x in e[5]], e)
            if r is not NotImplemented:
                return r
        if isinstance(o, Mock):
            args = [self.ev(x) for x in e[5]]
            r = self.mockcall(self, o, q.rsplit('::', 1)[-1], args, ref, e)
            if r is NotImplemented:
                raise Unsupported('call of %s on %s' % (q, o.name))
            return r
        if isinstance(o, Rec):
            if hasattr(o, 'caps'):
                return self.call_closure(o, [self.ev(x) for x in e[5]])
            if e[6] if len(e) > 6 else False:
                ref = self.method(o.cls, ref)
            if ref['k'] in self.p.fns and not ref.get('copyassign'):
                f = self.p.fns[ref['k']]
                return self.invoke(ref['k'], o, self.args_for(f, e[5]))
            if ref.get('copyassign'):
                self.copy_into(o, self.obj(e[5][0]))
                return o
            raise Unsupported('method ' + ref['q'])
        if isinstance(o, Cell) and isinstance(o.v, Ptr) and o.v.o is not None and q.endswith('operator()'):
            return self.call_value(o, [self.ev(x) for x in e[5]])
        i = q.find('::operator ')
        return self.std_mcall(q[i + 2:] if i >= 0 else q.rsplit('::', 1)[-1], o, ref, e)

    def call_closure(self, r, args):
        op = self.p.recs[r.cls]['op']
        caps = dict(r.caps)
        return self.invoke(op['k'], r.cthis, args, caps=caps)

    def call_value(self, f, args):
        if isinstance(f, (Cell, Sp)):
            f = f.v
        if isinstance(f, Ptr):
            f = f.o
        if isinstance(f, Sp):
            return self.call_value(f, args)
        if isinstance(f, FnV):
            if f.ref['k'] in self.p.fns:
                if f.ref.get('cls') and not f.ref.get('st') and args:
                    # a pointer to a member function
                    o = args[0].v if isinstance(args[0], (Cell, Sp)) else args[0]
                    o = self.target(o) if isinstance(o, Ptr) else o
                    ref = self.method(o.cls, f.ref) if isinstance(o, Rec) else f.ref
                    return self.invoke(ref['k'], o, args[1:])
                return self.invoke(f.ref['k'], None, args)
            raise Unsupported('call through a pointer to ' + f.ref['q'])
        if isinstance(f, Rec) and hasattr(f, 'caps'):
            return self.call_closure(f, args)
        if f is None:
            raise CxxThrow(Opaque('std::bad_function_call'))
        raise Unsupported('call of a value')

    def x_icall(self, e):
        f = self.ev(e[3])
        return self.call_value(f, [self.ev(x) for x in e[4]])

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None:
            return None
        self.line = s[1] or self.line
        return getattr(self, 's_' + s[0])(s)

    def s_block(self, s):
        fr = self.frame
        mark = len(fr.__dict__.setdefault('locals', []))
        try:
            for x in s[2]:
                r = self.exec(x)
                if r is not None:
                    self.leave(fr, mark, r[1] if r[0] == 'ret' else None)
                    return r
        except CxxThrow:
            self.unwind(fr, mark)
            raise
        self.leave(fr, mark)
        return None

    def unwind(self, fr, mark):
        self.frame = fr
        self.leave(fr, mark)

    def leave(self, fr, mark, result=None):
        """end of the lifetime of the locals declared since mark"""
        l = fr.__dict__.get('locals', [])
        while len(l) > mark:
            o = l.pop()
            if isinstance(o, Lock):
                if o.owned:
                    self.unlock(o)
            elif isinstance(o, Rec) and o is not result:
                for b in self.bases(o.cls):
                    if b + '::#dtor()' in self.p.fns:
                        line = self.line
                        self.invoke(b + '::#dtor()', o, [])
                        self.line = line

    def unlock(self, o):
        o.owned = False
        if o.m in self.locks:
            self.locks.remove(o.m)
        self.event('unlock', m=o.m)

    def lock(self, o):
        self.event('lock', m=o.m)
        o.owned = True
        self.locks.append(o.m)

    def s_decls(self, s):
        for x in s[2]:
            self.exec(x)

    def s_decl(self, s):
        v, t, e = s[2], s[3], s[4]
        if len(s) > 5 and s[5]:        # static local
            key = 'static:' + v
            if key not in self.globals:
                self.globals[key] = self.bind(t, e)
            self.frame.env[v] = self.globals[key]
            return
        o = self.bind(t, e)
        self.frame.env[v] = o
        if isinstance(o, Lock) or isinstance(o, Rec) and self.T(t)['k'] == 'rec' and any(b + '::#dtor()' in self.p.fns for b in self.bases(o.cls)):
            self.frame.__dict__.setdefault('locals', []).append(o)
        if len(s) > 6 and s[6]:
            self.bindings(s[6], o)

    def bindings(self, bs, o):
        for b in bs:
            if 'e' in b and b['e']:
                self.frame.env[b['v']] = self.obj(b['e'])
            else:
                raise Unsupported('structured binding')

    def s_expr(self, s):
        self.ev(s[2])

    def s_if(self, s):
        c = self.cond(self.val(s[2]))
        if self.decide(c):
            return self.exec(s[3])
        return self.exec(s[4]) if s[4] else None

    def s_ret(self, s):
        if s[2] is None:
            return ('ret', ZERO)
        key = self.frame.key
        f = self.p.fns.get(key)
        rt = f['rt'] if f else None
        x = self.ev(s[2])
        if rt is not None and self.T(rt)['k'] not in ('ref', 'rref') and isinstance(x, (Cell, Atomic)):
            x = self.load(x)
        return ('ret', x)

    def s_break(self, s):
        return ('brk',)

    def s_cont(self, s):
        return ('cont',)

    def s_opaque(self, s):
        raise Unsupported('statement at line %d' % s[1])

    def s_try(self, s):
        fr = self.frame
        d, fs = self.depth, len(self.frames)
        try:
            return self.exec(s[2])
        except CxxThrow as x:
            self.frame = fr
            self.depth = d
            del self.frames[fs:]
            cls = self.exc_class(x.obj)
            for h in s[3]:
                if 't' in h and not self.catches(self.deref_t(h['t']), cls):
                    continue
                if 'v' in h:
                    fr.env[h['v']] = x.obj if not isinstance(x.obj, (wt.N, Ptr)) else Cell(x.obj)
                old = getattr(self, 'current_exc', None)
                self.current_exc = x.obj
                try:
                    return self.exec(h['body'])
                finally:
                    self.current_exc = old
            raise

    def exc_class(self, o):
        return getattr(o, 'cls', None) or 'other'

    def catches(self, t, cls):
        n = self.T(t)
        q = n.get('q', n['s'])
        if q == cls or isa(cls, q):
            return True
        return q in self.bases(cls)

    def s_switch(self, s):
        v = self.val(s[2])
        items = s[3]
        start = None
        for i, it in enumerate(items):
            if it[0] == 'case' and self.decide(eq0(sub(v, self.val(it[1])))):
                start = i
                break
        if start is None:
            for i, it in enumerate(items):
                if it[0] == 'default':
                    start = i
        if start is None:
            return None
        for it in items[start:]:
            if it[0] == 's':
                r = self.exec(it[1])
                if r is not None:
                    if r[0] == 'brk':
                        return None
                    return r
        return None

    def s_for(self, s):
        fr = self.frame
        mark = len(fr.__dict__.setdefault('locals', []))
        if s[2]:
            self.exec(s[2])
        try:
            r = self.loop(s, s[3], s[4], s[5], False)
        except CxxThrow:
            self.unwind(fr, mark)
            raise
        self.leave(fr, mark, r[1] if r and r[0] == 'ret' else None)
        return r

    def s_do(self, s):
        return self.loop(s, s[2], None, s[3], True)

    def s_rfor(self, s):
        o = self.obj(s[4])
        if isinstance(o, (Opaque, Seq, Blob)):
            raise Unsupported('range loop over ' + type(o).__name__)
        if isinstance(o, Str):
            if not isinstance(o.v, str):
                raise Unsupported('characters of an unknown string')
            o = Vec([Cell(C(ord(c)), s[3]) for c in o.v], s[3])
        isref = self.T(s[3])['k'] in ('ref', 'rref')
        i = 0
        while i < len(o.els):
            x = o.els[i]
            self.frame.env[s[2]] = x if isref else self.copy(x)
            if len(s) > 7 and s[7]:
                self.bindings(s[7], x)
            r = self.exec(s[5])
            if r is not None:
                if r[0] == 'brk':
                    return None
                if r[0] == 'ret':
                    return r
            i += 1
        return None

    # ------------------------------------------------------------ loops
    def loop(self, s, cond, inc, body, post):
        base = (self.frame.key, s[1])
        k = self.loopn.get(base, 0)
        self.loopn[base] = k + 1
        key = base + (k,)
        tpl = self.gen.get(key)
        if tpl is not None:
            return self.loop_gen(key, tpl, s, cond, inc, body, post)
        n = 0
        splits = len(self.taken)
        first = post
        while True:
            if not first:
                if cond is not None and not self.decide(self.cond(self.val(cond))):
                    return None
            first = False
            r = self.exec(body)
            if r is not None:
                if r[0] == 'brk':
                    return None
                if r[0] == 'ret':
                    return r
            if inc is not None:
                self.ev(inc)
            n += 1
            if len(self.taken) - splits > self.splits_per_loop and n >= 2 and not self.hooks.get('nogen'):
                self.gen[key] = {'groups': None, 'pos': {}, 'cong': None}
                raise Again()
            if n > self.unroll:
                raise Unsupported('loop at line %d runs too long' % s[1])

    def places(self):
        """every scalar place reachable from the frames, by name"""
        out = {}
        seen = set()

        def walk(o, path):
            if id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, Cell):
                out[path] = o
                if isinstance(o.v, Ptr) and o.v.o is not None:
                    walk(o.v.o, path + '*')
            elif isinstance(o, Atomic):
                walk(o.c, path)
            elif isinstance(o, (Rec, Mock)):
                for k, x in getattr(o, 'f', {}).items():
                    walk(x, path + '.' + k)
                for k, x in getattr(o, 'caps', {}).items():
                    walk(x, path + '^' + k)
                if getattr(o, 'cthis', None) is not None:
                    walk(o.cthis, path + '^this')
            elif isinstance(o, Vec):
                out[path + '#'] = o
                for i, x in enumerate(o.els):
                    walk(x, '%s[%d]' % (path, i))
            elif isinstance(o, (Sp,)):
                if o.v.o is not None:
                    walk(o.v.o, path + '*')
            elif isinstance(o, Opt):
                if o.o is not None:
                    walk(o.o, path + '?')
        for i, f in enumerate(self.frames):
            if f.this is not None:
                walk(f.this, '%d.this' % i)
            for v, o in f.env.items():
                walk(o, '%d.%s' % (i, v))
        for v, o in self.ghost.items():
            walk(o, 'ghost.' + v)
        for i, o in enumerate(self.roots):
            walk(o, 'root%d' % i)
        return out

    def snap(self, pl):
        out = {}
        for k, o in pl.items():
            if isinstance(o, Vec):
                out[k] = len(o.els)
            else:
                out[k] = o.v
        return out

    def diff(self, a, b, path):
        """b - a as an integer form, None when unchanged"""
        if a is b:
            return None
        if isinstance(a, wt.N) and isinstance(b, wt.N):
            d = sub(b, a)
            return None if d is ZERO else d
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o:
                d = sub(b.i if b.i is not None else ZERO, a.i if a.i is not None else ZERO)
                return None if d is ZERO else d
        if a is None or b is None:
            return None          # not initialised at the head: dead there
        if isinstance(a, int) and a == b:
            return None
        raise Unsupported('loop changes ' + path)

    def shifted(self, v, d):
        if isinstance(v, Ptr):
            return Ptr(v.o, add(v.i if v.i is not None else ZERO, d), v.t)
        return add(v, d)

    PURE = {'bin', 'un', 'var', 'mem', 'cast', 'int', 'deref', 'this', 'temp'}

    def pure(self, e):
        if isinstance(e, list) and e and isinstance(e[0], str):
            if e[0] not in self.PURE or e[0] == 'bin' and e[3] in ('&&', '||', ','):
                return False
            return all(self.pure(x) for x in e[3:] if isinstance(x, list))
        return True

    def guards(self, cond):
        """terms that are not negative at the head of a loop that counts up to (or down to) its condition"""
        c = self.cond(self.val(cond))
        d = wt.only(sub(ONE, c))
        c = wt.only(c)
        if c is not None and c.op == 'ge0':
            return [addc(part(c.a[0]), 1)]
        if d is not None and d.op == 'eq0':
            g = part(d.a[0])
            return [g, scale(g, -1)]
        return []

    def mark(self):
        """state of the environment that a generalised loop must leave as it was"""
        return None

    def loop_gen(self, key, tpl, s, cond, inc, body, post):
        pl = self.places()
        mark = self.mark()
        live = tpl.get('ineq') if cond is not None and not post and self.pure(cond) else ()
        g0 = self.guards(cond) if live is None or live else []
        if live is None:
            live = tuple(i for i, g in enumerate(g0) if self.ctx.nonneg(g))
        else:
            live = tuple(i for i in live if i < len(g0) and self.ctx.nonneg(g0[i]))
        h0 = self.snap(pl)
        groups = tpl['groups']
        lams = []
        if groups is not None:
            for g, grp in enumerate(groups):
                lam = atom('~%d.%d.%s' % (key[1], key[2], g), 0 if tpl['pos'].get(g) else None)
                lams.append(lam)
                for path, c in grp.items():
                    if path in pl:
                        pl[path].v = self.shifted(pl[path].v, scale(lam, c))
            for n, (pi, pj) in enumerate(tpl['cong'] or ()):
                if pi in pl and pj in pl:
                    v, m = self.cong
                    kap = atom('~%d.%d.k%d' % (key[1], key[2], n))
                    pl[pi].v = add(mul(v, pl[pj].v), kap, m)
            # places keep the range of their type
            for grp in groups:
                for path in grp:
                    o = pl.get(path)
                    if isinstance(o, Cell) and isinstance(o.v, wt.N) and o.t is not None:
                        w = self.width(o.t)
                        if w:
                            lo, hi = (0, (1 << w[0]) - 1) if w[1] else (-(1 << w[0] - 1), (1 << w[0] - 1) - 1)
                            self.ctx.assume(addc(o.v, -lo))
                            self.ctx.assume(sub(C(hi), o.v))
        if live and groups is not None:
            g1 = self.guards(cond)
            if len(g1) != len(g0):
                live = ()
            for i in live:
                self.ctx.assume(g1[i])
        h1 = self.snap(pl)
        self.events.append({'kind': 'loop', 'line': s[1], 'fn': key[0], 'key': key, 'locks': (), 'thread': self.thread})
        if not post and cond is not None and not self.decide(self.cond(self.val(cond))):
            return None
        r = self.exec(body)
        if r is not None:
            if r[0] == 'brk':
                return None
            if r[0] == 'ret':
                return r
        if inc is not None:
            self.ev(inc)
        if post and cond is not None and not self.decide(self.cond(self.val(cond))):
            return None
        # back edge
        if live and groups is not None:
            g2 = self.guards(cond)
            keep = tuple(i for i in live if i < len(g2) and self.ctx.nonneg(g2[i]))
            if keep != live:
                self.gen[key] = dict(tpl, ineq=keep)
                raise Again()
        ch = {}
        for path, o in pl.items():
            cur = len(o.els) if isinstance(o, Vec) else o.v
            if isinstance(o, Vec) and cur != h1[path]:
                raise Unsupported('loop changes the length of ' + path)
            d = self.diff(h1[path], cur, path)
            if d is not None:
                ch[path] = d
        if groups is None:
            gs = []
            for path, d in ch.items():
                for g in gs:
                    piv = next(iter(g))
                    c = self.ratio(d, ch[piv])
                    if c is not None:
                        g[path] = c
                        break
                else:
                    gs.append({path: 1})
            cong = []
            if self.cong:
                v, m = self.cong
                ps = [p for p in ch if isinstance(h1[p], wt.N)]
                for i in ps:
                    for j in ps:
                        if i != j and self.congruent(sub(h0[i], mul(v, h0[j])), m) and self.congruent(sub(pl[i].v, mul(v, pl[j].v)), m):
                            cong.append((i, j))
            self.gen[key] = {'groups': gs, 'pos': {g: True for g in range(len(gs))}, 'cong': cong}
            raise Again()
        mu = {}
        bad = {}
        for g, grp in enumerate(groups):
            piv = next(iter(grp))
            mu[g] = ch.get(piv, ZERO)
            for path, c in grp.items():
                if sub(ch.get(path, ZERO), scale(mu[g], c)) is not ZERO and path != piv:
                    bad[path] = g
        congs = tpl['cong'] or []
        tied = {i for i, _ in congs}
        known = {p for grp in groups for p in grp}
        new = [p for p in ch if p not in known]
        change = False
        if bad or new:
            ngs = [dict((p, c) for p, c in grp.items() if p not in bad) for grp in groups]
            for p in list(bad) + new:
                ngs.append({p: 1})
            self.gen[key] = {'groups': ngs, 'pos': {g: tpl['pos'].get(g, True) for g in range(len(ngs))}, 'cong': congs, 'ineq': tpl.get('ineq')}
            raise Again()
        if congs:
            v, m = self.cong
            keep = [(i, j) for i, j in congs if self.congruent(sub(pl[i].v, mul(v, pl[j].v)), m)]
            if len(keep) < len(congs):
                self.gen[key] = dict(tpl, cong=keep)
                raise Again()
        pos = dict(tpl['pos'])
        for g in mu:
            if pos.get(g) and not self.ctx.nonneg(mu[g]):
                pos[g] = False
                change = True
        if change:
            self.gen[key] = dict(tpl, pos=pos)
            raise Again()
        if self.mark() != mark:
            raise Unsupported('loop changes the state of the environment')
        raise Cut()

    def ratio(self, d, p):
        """integer c with d = c p"""
        a, b = wt.items(d), wt.items(p)
        if len(a) != len(b) or not b:
            return None
        bd = dict(b)
        c = None
        for m, x in a:
            if m not in bd or x % bd[m]:
                return None
            q = x // bd[m]
            if c is None:
                c = q
            elif c != q:
                return None
        return c

    def congruent(self, x, m):
        """x = 0 modulo m in every interpretation"""
        if all(c % m == 0 for _, c in part(x).a[0]):
            return True
        for f in self.ctx.eqs:
            for k in (1, -1):
                if all(c % m == 0 for _, c in add(x, f, k).a[0]):
                    return True
        return False


class Exit(Exception):
    """the program ends (abort, failed assertion)"""
