"""Operating system and network environment of the word analysis, and the checks
on connections and channels.

The environment of the connections is the C library: every call chooses one of the
outcomes its manual page permits (a failure with a fresh error code, the end of the
stream, any number of bytes up to the requested one). What the connection must do
is stated as obligations on the abstract state at these calls; an obligation is
discharged when it follows from the linear facts of its path. For one that is not,
the closed conditions of the path are interpreted over small outcomes; a valuation
that satisfies the path and falsifies the obligation is a violation."""
import os
import time

import wterm as wt
from wterm import C, ZERO, ONE, add, sub, mul, scale, addc, cv, atom, app, ge0, eq0, part
from word import *
from wstd import WStd
from ir import load, Broken, REPO
from report import Report
from wchecks import ASSUME, fn_key, where_of

AF_INET, SOCK_STREAM = 2, 1
SYS = 'frn::lib::net::SystemInterface'
OTHER = ('send', 'recv', 'sendto', 'recvfrom', 'sendmsg', 'recvmsg', 'shutdown', 'accept4', 'poll', 'ppoll', 'select', 'fcntl', 'dup', 'dup2', 'dup3',
         'pipe', 'pipe2', 'getsockopt', 'ioctl', 'open', 'openat', 'creat', 'inet_aton', 'inet_addr', 'writev', 'readv', 'pread', 'pwrite', 'sendfile',
         'socketpair', 'getpeername', 'getsockname', 'epoll_create', 'epoll_ctl', 'epoll_wait', 'gethostbyname', 'getaddrinfo', 'syscall')
CORE = ('socket', 'close', 'connect', 'bind', 'listen', 'accept', 'write', 'read', 'setsockopt', 'inet_pton')


class Net(WStd):
    """analysis with the operating system as environment"""
    raw = False          # pass-through mode: system calls only recorded
    limit = 0            # transfers per path (0: any number, loops are generalised)

    def reset(self):
        super().reset()
        self.fds = []                  # [term, kind, open?]
        self.used = 0
        self.failed = None             # first failure: (call, error code, line)
        self.eof = None
        self.zero = False
        self.conn = None
        self.phase = None              # state last confirmed by the driver
        self.move = None               # current transfer
        self.hostok = {}
        self.cursor = [0, ZERO]
        self.msgs = []
        self.ghost['errno'] = Cell(self.fresh('errno', 0, 4095))
        self.connected = 0
        self.cfail = 0
        self.malformed = False
        self.port = None

    def mark(self):
        return (self.failed, self.eof, tuple((f[0].u, f[1], f[2]) for f in self.fds), self.connected > 0, self.malformed, id(self.move), id(self.conn),
                tuple(self.cursor), len(self.msgs))

    # -------------------------------------------------------- obligations
    def oblige(self, rule, cond, text):
        t = self.ctx.truth(cond)
        self.event('oblige', rule=rule, cond=cond, ok=t is True, text=text, n=len(self.choices))
        return t is True

    def constrain(self, x):
        """x >= 0 holds of the environment"""
        c = ge0(x)
        if cv(c) == 1:
            return
        self.ctx.assume(x)
        self.choices.append((self.line, c, True))

    # -------------------------------------------------------- operating system
    def caller(self):
        for f in reversed(self.frames):
            return f.key
        return ''

    def entered(self, name, e):
        k = self.caller()
        ok = k.startswith(SYS + '::') or '::SystemInterface::' in k
        self.event('oblige', rule='interface', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                   text='%s calls the system function %s without the replaceable interface' % (k.split('(')[0], name))
        if self.phase == 0 and self.conn is not None and name in ('socket', 'connect', 'bind', 'listen', 'accept', 'setsockopt'):
            self.oblige('state', eq0(eq0(addc(self.now(), -1))), 'the connection reports active before it is established')
        if not self.raw:
            self.errno_junk()

    def errno_junk(self):
        self.ghost['errno'].v = self.fresh('errno', 0, 4095)

    def fail(self, name):
        """the call fails with a fresh error code"""
        er = self.fresh('code', 1, 4095)
        self.ghost['errno'].v = er
        self.event('failure', call=name, code=er)
        if name == 'connect':
            self.cfail += 1
        elif self.failed is None:
            self.failed = (name, er, self.line, self.frames[-2].key if len(self.frames) > 1 else '')
        return C(-1)

    def fd_of(self, t):
        for f in self.fds:
            if f[0] is t:
                return f
        return None

    def uses(self, name, t):
        """a call uses descriptor t"""
        t = part(t)
        f = self.fd_of(t)
        ok = f is not None and f[2]
        what = 'the result of ' + f[1] if f else 'a descriptor that was never acquired'
        self.event('oblige', rule='descriptor', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                   text='%s is called on %s%s' % (name, what, '' if ok or f is None else ' after it was closed'))
        return f

    def new_fd(self, kind):
        t = self.fresh('fd', 0, 1 << 20)
        for f in self.fds:
            if f[2]:
                c = eq0(sub(t, f[0]))
                self.ctx.learn(c, False)
                self.choices.append((self.line, c, False))
        self.fds.append([part(t), kind, True])
        return t

    def step(self):
        self.used += 1
        if self.limit and self.used > self.limit:
            raise Cut()

    def ok(self, name):
        return self.choose(name + ' succeeds')

    def h_socket(self, _, a, e):
        self.entered('socket', e)
        d = self.load(a[0])
        self.oblige('address', eq0(addc(d, -AF_INET)), 'socket of another address family')
        self.oblige('address', eq0(addc(self.load(a[1]), -SOCK_STREAM)), 'socket that is not a stream socket')
        return self.new_fd('socket') if self.ok('socket') else self.fail('socket')

    def h_close(self, _, a, e):
        self.entered('close', e)
        f = self.uses('close', self.load(a[0]))
        if f:
            f[2] = False             # released even when close reports an error (close(2))
        return ZERO if self.ok('close') else self.fail('close')

    def addr(self, p, name):
        o = p.o
        if isinstance(o, Rec):
            out = {}
            for k, x in o.f.items():
                out[k] = x
            return out
        return {}

    def h_connect(self, _, a, e):
        self.entered('connect', e)
        self.step()
        f = self.uses('connect', self.load(a[0]))
        self.event('connect', fd=f, addr=self.sockaddr(a[1]), len=self.load(a[2]))
        if self.ok('connect'):
            self.connected += 1
            if f:
                f[1] = 'connected socket'
            return ZERO
        return self.fail('connect')

    def sockaddr(self, x):
        p = self.load(x)
        if not isinstance(p, Ptr) or not isinstance(p.o, Rec):
            return None
        r = p.o
        out = {}
        for k in ('sin_family', 'sin_port'):
            c = r.f.get(k)
            out[k] = c.v if c is not None else None
        s = r.f.get('sin_addr')
        c = s.f.get('s_addr') if isinstance(s, Rec) else None
        out['ip'] = c.v if c is not None else None
        return out

    def h_bind(self, _, a, e):
        self.entered('bind', e)
        f = self.uses('bind', self.load(a[0]))
        self.event('bind', fd=f, addr=self.sockaddr(a[1]), len=self.load(a[2]))
        if self.ok('bind'):
            if f:
                f[1] = 'bound socket'
            return ZERO
        return self.fail('bind')

    def h_listen(self, _, a, e):
        self.entered('listen', e)
        f = self.uses('listen', self.load(a[0]))
        self.event('listen', fd=f)
        if self.ok('listen'):
            if f:
                f[1] = 'listening socket'
            return ZERO
        return self.fail('listen')

    def h_accept(self, _, a, e):
        self.entered('accept', e)
        f = self.uses('accept', self.load(a[0]))
        self.event('accept', fd=f)
        if f is None or f[1] != 'listening socket':
            return self.fail('accept')
        if self.ok('accept'):
            return self.new_fd('accepted socket')
        return self.fail('accept')

    def h_setsockopt(self, _, a, e):
        self.entered('setsockopt', e)
        self.uses('setsockopt', self.load(a[0]))
        return ZERO if self.ok('setsockopt') else self.fail('setsockopt')

    def h_inet_pton(self, _, a, e):
        self.entered('inet_pton', e)
        s = repr(self.text(a[1]))
        d = self.load(a[2])
        # whether an address is well-formed does not change, but every call may fail
        r = 'ok' if self.ok('inet_pton') else 'fail'
        if r == 'fail' and s not in self.hostok and self.choose('address is malformed'):
            r = 'bad'
        self.hostok[s] = r
        if r == 'ok':
            o = d.o
            ip = atom('ip:' + s, 0, (1 << 32) - 1)
            if isinstance(o, Rec) and 's_addr' not in o.f:
                o.f['s_addr'] = Cell(None)
            if isinstance(o, Rec):
                o.f['s_addr'].v = ip
            elif isinstance(o, Cell):
                o.v = ip
            return ONE
        if r == 'bad':
            self.malformed = True
            self.event('malformed')
            return ZERO
        return self.fail('inet_pton')

    def moved(self, dr, name, fd, buf, n, whole=True):
        """some of the bytes of a transfer are moved; returns how many"""
        m = self.move
        p = self.load(buf)
        if m is None:
            self.event('oblige', rule='transfer', cond=ZERO, ok=False, n=len(self.choices), text='%s without a request' % name)
            raise Cut()
        pos = self.ghost['pos'].v
        self.event('oblige', rule='transfer', cond=ONE if dr == m['dir'] else ZERO, ok=dr == m['dir'], n=len(self.choices),
                   text='%s in answer to a request to %s' % (name, 'receive' if m['dir'] else 'send'))
        if isinstance(p, Ptr) and p.o is m['buf'].o:
            self.oblige('transfer', eq0(sub(sub(p.i if p.i is not None else ZERO, m['buf'].i or ZERO), pos)),
                        '%s %s the buffer at another place than the first byte not yet transferred' % (name, 'fills' if dr else 'reads'))
        else:
            self.event('oblige', rule='transfer', cond=ZERO, ok=False, n=len(self.choices), text='%s uses another buffer' % name)
        self.oblige('transfer', ge0(sub(sub(m['n'], pos), n)), '%s moves more bytes than were requested' % name)
        self.oblige('transfer', ge0(n), '%s of a negative number of bytes' % name)
        return m

    def h_write(self, _, a, e):
        return self.rw(0, 'write', a, e)

    def h_read(self, _, a, e):
        return self.rw(1, 'read', a, e)

    def rw(self, dr, name, a, e):
        self.entered(name, e)
        self.step()
        f = self.uses(name, self.load(a[0]))
        n = self.load(a[2])
        self.moved(dr, name, f, a[1], n)
        if not self.ok(name):
            return self.fail(name)
        if self.decide(eq0(n)):
            return ZERO
        if dr and self.choose('end of stream'):
            self.eof = (self.line,)
            self.event('eof')
            return ZERO
        k = self.fresh('moved', 0, (1 << 62))
        self.constrain(addc(k, -1) if dr else k)
        self.constrain(sub(n, k))
        if not dr:
            # a stream socket does not report 0 for a write, but nothing is lost if it does
            if self.limit and self.decide(eq0(k)):
                self.zero = True
        self.ghost['pos'].v = add(self.ghost['pos'].v, k)
        self.event('moved', dir=dr, k=k)
        return k

    def h_errno(self, _, a, e):
        k = self.caller()
        return Ptr(self.ghost['errno'])

    def h_other(self, name):
        def go(w, _, a, e):
            self.entered(name, e)
            if name in ('open', 'dup', 'socketpair', 'pipe', 'accept4', 'fcntl', 'syscall', 'openat', 'pipe2', 'dup2', 'dup3', 'send', 'recv'):
                raise Unsupported('system call ' + name)
            self.errno_junk()
            return self.fresh('sys:' + name, -1, 1 << 20) if self.ok(name) else self.fail(name)
        return go

    # -------------------------------------------------------- what drivers say
    def d_host(self, _, a, e):
        return Str(('host',))

    def d_seen(self, _, a, e):
        self.conn = self.load(a[0]) if not isinstance(a[0], Rec) else a[0]
        return ZERO

    def now(self):
        k = fn_key(self.p, 'frn::lib::net::%s::State' % ('Channel' if any(c.endswith('::Channel') for c in self.bases(self.conn.cls)) else 'Connector'))
        return self.load(self.invoke(k, self.conn, []))

    NAMES = {0: 'idle', 1: 'active', 2: 'closed', 3: 'error'}

    def d_state(self, _, a, e):
        s = self.phase = cv(self.load(a[0]))
        v = self.now()
        self.oblige('state', eq0(addc(v, -s)), 'the connection does not report %s' % self.NAMES[s])
        op = [f for f in self.fds if f[2]]
        want = 1 if s == 1 else 0
        self.event('oblige', rule='release', cond=ONE if len(op) == want else ZERO, ok=len(op) == want, n=len(self.choices),
                   text='%d descriptors are open where the connection is %s' % (len(op), self.NAMES[s]))
        if s == 1 and len(op) == 1:
            ok = op[0][1] in ('connected socket', 'accepted socket')
            self.event('oblige', rule='release', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                       text='the descriptor kept by an active connection is the %s' % op[0][1])
        if s == 1 and not self.connected and any(f[1] == 'socket' for f in self.fds if f[2]):
            self.event('oblige', rule='failure', cond=ZERO, ok=False, n=len(self.choices), text='a connection that was never established is taken for one')
        if s in (1, 2):
            self.no_failure('success')
        return ZERO

    def no_failure(self, how):
        f = self.failed
        self.event('oblige', rule='failure', cond=ZERO if f else ONE, ok=f is None, n=len(self.choices),
                   text='the failure of %s is taken for success' % (f[0] if f else ''))

    def d_transfer(self, _, a, e):
        p = self.load(a[1])
        self.move = {'dir': cv(self.load(a[0])), 'buf': p, 'n': self.load(a[2])}
        self.ghost['pos'] = Cell(ZERO)
        return ZERO

    def d_done(self, _, a, e):
        m = self.move
        pos = self.ghost['pos'].v
        what = 'receive' if m['dir'] else 'send'
        self.oblige('complete', eq0(sub(pos, m['n'])), '%s returns before all bytes are transferred' % what)
        if a:
            self.oblige('complete', eq0(sub(self.load(a[0]), m['n'])), '%s reports another number of bytes than was requested' % what)
        if self.eof:
            self.event('oblige', rule='complete', cond=ZERO, ok=False, n=len(self.choices), text='%s reports success after the end of the stream' % what)
        self.no_failure(what)
        if self.failed:
            self.event('oblige', rule='complete', cond=ZERO, ok=False, n=len(self.choices), text='%s reports success after %s failed' % (what, self.failed[0]))
        return ZERO

    def d_part(self, _, a, e):
        self.step()
        dr, n = cv(self.load(a[0])), self.load(a[2])
        self.moved(dr, 'the connection\'s ' + ('Recv' if dr else 'Send'), None, a[1], n)
        k = self.fresh('moved', 0, 1 << 62)
        if self.decide(eq0(n)):
            return ZERO
        self.constrain(addc(k, -1))
        self.constrain(sub(n, k))
        self.ghost['pos'].v = add(self.ghost['pos'].v, k)
        return k

    def all_hooks(self):
        h = {}
        for n in CORE:
            h[n] = lambda w, o, a, e, n=n: getattr(w, 'h_' + n)(o, a, e)
        for n in OTHER:
            h[n] = lambda w, o, a, e, n=n: w.h_other(n)(w, o, a, e)
        h['__errno_location'] = lambda w, o, a, e: w.h_errno(o, a, e)
        for n in ('host', 'seen', 'state', 'transfer', 'done', 'part'):
            h['code::' + n] = lambda w, o, a, e, n=n: getattr(w, 'd_' + n)(o, a, e)
        return h

    # -------------------------------------------------------- ends
    def ended(self, how, exc=None):
        """obligations at the end of a path; how: return | throw"""
        if self.conn is not None and how == 'throw':
            v = self.now()
            self.oblige('state', eq0(addc(v, -3)), 'the connection does not report error after a failure')
        if how == 'return' and self.port is not None:
            self.oblige('port', ge0(addc(self.port, -1025)), 'a port below 1025 is used')
            self.oblige('port', ge0(sub(C(65535), self.port)), 'a port above 65535 is used')
        if how == 'throw':
            op = [f for f in self.fds if f[2]]
            conn = [f for f in op if f[1] in ('connected socket', 'accepted socket')]
            established = self.move is not None
            n = 1 if established else 0
            ok = len(op) <= n
            self.event('oblige', rule='release', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                       text='the %s stays open when the attempt fails%s' % (op[0][1] if op else '', ' at ' + self.failed[0] if self.failed else ''))
            cls = getattr(exc, 'cls', '')
            if self.failed:
                ok = isa(cls, 'std::system_error')
                self.event('oblige', rule='failure', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                           text='the failure of %s raises %s without an error code' % (self.failed[0], cls or 'something else'))
                if ok:
                    a = getattr(exc, 'args', [])
                    v = self.load(a[0]) if a else None
                    if isinstance(v, Opaque) and v.args:
                        v = self.load(v.args[0])
                    if isinstance(v, wt.N):
                        self.oblige('failure', eq0(sub(v, self.failed[1])), 'the exception after the failure of %s carries another error code' % self.failed[0])
                    else:
                        self.event('oblige', rule='failure', cond=ONE, ok=False, n=len(self.choices), text='error code of the exception not followed')
            elif self.port is not None and not (self.decide(ge0(addc(self.port, -1025))) and self.decide(ge0(sub(C(65535), self.port)))):
                pass
            elif not self.eof and not self.zero and not self.malformed:
                c = self.cfail
                self.event('oblige', rule='failure' if c else 'spurious', cond=ZERO, ok=False, n=len(self.choices),
                           text='a failed connect is not retried' if c else 'the attempt fails although no system call failed')


class Local(Net):
    """local connections: messages are byte sequences of symbolic lengths"""

    def all_hooks(self):
        h = super().all_hooks()
        h['nogen'] = True
        return h

    def d_transfer(self, _, a, e):
        super().d_transfer(_, a, e)
        m = self.move
        if m['dir'] == 0:
            self.msgs.append((m['buf'].o, m['n']))
        self.ghost['pos'] = Cell(ZERO)
        return ZERO

    def rest(self):
        """bytes sent and not yet received"""
        k, off = self.cursor
        r = ZERO
        for _, n in self.msgs[k:]:
            r = add(r, n)
        return sub(r, off)

    def cond_wait(self, c, l):
        super().cond_wait(c, l)
        m = self.move
        left = sub(m['n'], self.ghost['pos'].v)
        self.oblige('complete', ge0(addc(sub(left, self.rest()), -1)), 'receive waits although the bytes it asks for were sent')
        raise Cut()

    def algo(self, n, a):
        v = [self.load(x) for x in a]
        if n == 'copy' and isinstance(v[2], Ptr) and isinstance(v[2].o, Blob):
            self.memory('memcpy', [v[2], v[0], sub(v[1].i or ZERO, v[0].i or ZERO)])
            return self.ptrop('+', v[2], sub(v[1].i or ZERO, v[0].i or ZERO))
        if n == 'copy_n' and isinstance(v[2], Ptr) and isinstance(v[2].o, Blob):
            self.memory('memcpy', [v[2], v[0], v[1]])
            return self.ptrop('+', v[2], v[1])
        return super().algo(n, a)

    def memory(self, n, a):
        m = self.move
        if n == 'memset' or not isinstance(a[0].o, Blob) or m is None:
            return super().memory(n, a)
        d, s, k = a
        if isinstance(s.o, Vec) and not s.o.els or s.o is None:
            self.oblige('transfer', eq0(k), 'bytes are taken from an empty message')
            return d
        if self.decide(eq0(k)):
            return d
        self.moved(1, 'receive', None, d, k)
        if not isinstance(s.o, Seq):
            raise Unsupported('source of a local message')
        o = s.o
        self.oblige('transfer', ge0(sub(sub(self.size(o), s.i or ZERO), k)), 'bytes beyond the end of a local message are read')
        for src, off, ln in self.cut(o, s.i, k):
            while self.cursor[0] < len(self.msgs) and self.decide(eq0(sub(self.msgs[self.cursor[0]][1], self.cursor[1]))):
                self.cursor = [self.cursor[0] + 1, ZERO]
            ok = self.cursor[0] < len(self.msgs) and src is self.msgs[self.cursor[0]][0]
            self.event('oblige', rule='transfer', cond=ONE if ok else ZERO, ok=ok, n=len(self.choices),
                       text='bytes of another message are delivered than the next ones sent')
            if ok:
                self.oblige('transfer', eq0(sub(off, self.cursor[1])), 'bytes of a message are lost or repeated')
            self.cursor = [self.cursor[0], add(self.cursor[1], ln)]
        self.ghost['pos'].v = add(self.ghost['pos'].v, k)
        return d

    def d_done(self, _, a, e):
        m = self.move
        pos = self.ghost['pos'].v
        if a:
            self.oblige('complete', eq0(sub(self.load(a[0]), pos)), 'receive reports another number of bytes than it delivered')
            self.oblige('complete', ge0(sub(m['n'], pos)), 'receive delivers more bytes than were requested')
        else:
            self.oblige('complete', eq0(sub(pos, m['n'])), 'receive returns before all bytes are transferred')
        return ZERO


def small_values(conds, want, budget=6000):
    """a valuation of the atoms by small numbers under which every condition (term, value) holds; None if none is found"""
    ats = {k: (a.a[1], a.a[2]) for k, a in wt.atoms_of([part(c) for c, _ in conds] + [part(x) for x in want]).items()}
    names = list(ats)
    dom = {}
    for n in names:
        lo, hi = ats[n]
        if n.startswith('&') or lo is not None and lo == hi:
            dom[n] = [lo or 0]
        elif n.startswith('choice:'):
            dom[n] = [0, 1]
        else:
            l = 0 if lo is None else lo
            c = [l, l + 1, l + 2, l + 3, l + 5] + [x for x in (0, 1, 2, 3, 4, 5, 1024, 1025, 5000, 60000, 65535, 65536, -1, (1 << 32) + 1, 1 << 31, 1 << 33)]
            if n.startswith('fd'):
                c = [3 + names.index(n), 0]
            if n.startswith(('code', 'errno')):
                c = [11 + 7 * names.index(n) % 90, 4, 11, 111]
            dom[n] = [x for i, x in enumerate(c) if x not in c[:i] and (lo is None or x >= lo) and (hi is None or x <= hi)]
    # conditions become checkable when their last atom is set
    use = []
    for c, b in conds:
        use.append((c, b, set(wt.atoms_of([part(c)]))))
    order = []
    rest = set(names)
    for c, b, s in use:
        for x in names:
            if x in s and x in rest:
                order.append(x)
                rest.discard(x)
    order += [x for x in names if x in rest]
    at = {x: i for i, x in enumerate(order)}
    ready = {}
    for c, b, s in use:
        ready.setdefault(max([at[x] for x in s], default=-1), []).append((c, b))
    count = [0]

    def holds(i, env):
        for c, b in ready.get(i, ()):
            try:
                if bool(wt.evaluate(part(c), env)) != b:
                    return False
            except wt.NoValue:
                return False
        return True
    if not holds(-1, {}):
        return None

    def go(i, env):
        count[0] += 1
        if count[0] > budget:
            return None
        if i == len(order):
            return dict(env)
        for v in dom[order[i]]:
            env[order[i]] = v
            if holds(i, env):
                r = go(i + 1, env)
                if r is not None:
                    return r
        env.pop(order[i], None)
        return None
    return go(0, {})


def explore(p, fn, args, limit=0, budget=60, cls=Net, **attrs):
    """parts of driver fn; limit 0: loops generalised (for discharging), otherwise at most limit transfers (for witnesses)"""
    w = cls(p)
    w.hooks = w.all_hooks()
    if limit:
        w.hooks['nogen'] = True
    w.limit = limit
    for k, v in attrs.items():
        setattr(w, k, v)
    w.deadline = time.time() + budget
    key = fn_key(p, 'code::' + fn)

    def go(w):
        try:
            r = w.invoke(key, None, [a(w) for a in args])
        except CxxThrow as x:
            w.ended('throw', x.obj)
            raise
        w.ended('return')
        return r
    try:
        ts = w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
        ts = [t]
    return w, ts


def obligations(ts):
    for t in ts:
        for ev in t.events:
            if ev['kind'] == 'oblige':
                yield t, ev
        if t.outcome == 'ub':
            yield t, {'kind': 'oblige', 'rule': 'undefined', 'cond': ZERO, 'ok': False, 'text': t.why, 'n': len(t.path), 'line': 0, 'fn': ''}


def refutes(t, ev):
    """a valuation of the environment that reaches the obligation and falsifies it"""
    conds = [(c, b) for _, c, b in t.path[:ev['n']]]
    if cv(ev['cond']) == 1:
        return None
    if cv(ev['cond']) != 0:
        conds = conds + [(ev['cond'], False)]
    for _, c, b in t.path[:ev['n']]:
        if any(a.startswith('~') for a in wt.atoms_of([part(c)])):
            return None
    return small_values(conds, [])


def story(t, ev, env):
    """what happens on the way to the obligation"""
    out = []
    for x in t.events:
        if x is ev:
            break
        k = x['kind']
        if k == 'failure':
            out.append('%s fails with error %s' % (x['call'], env.get(x['code'].a[0], '?') if x['code'].op == 'A' else '?'))
        elif k == 'moved':
            try:
                out.append('%s moves %d bytes' % ('read' if x['dir'] else 'write', wt.evaluate(part(x['k']), env)))
            except wt.NoValue:
                pass
        elif k == 'eof':
            out.append('the stream ends')
        elif k == 'malformed':
            out.append('the address is malformed')
    return '; '.join(out[:12])


def decide(r, p, cases, rules, limit=4, budget=100):
    """cases: (driver, arguments, limit); discharges or refutes the obligations of the named rules"""
    proved, undecided, gaps, parts = 0, {}, [], 0
    fns = set()
    end = time.time() + 450
    allowed = budget
    for fn, args, lim, gen, *cls in cases:
        kw = {'cls': cls[0]} if cls else {}
        # after a violation the other cases get less time; late ones share what is left
        budget = min(allowed, 20 if r.findings else allowed, max(10, int(end - time.time())))
        w, ts = (explore(p, fn, args, 0, budget, **kw) if gen else explore(p, fn, args, lim, budget, **kw))
        fns |= set(where_of(w))
        parts += len(ts)
        bad = [t for t in ts if t.outcome in ('unsupported', 'limit')]
        open_ = []
        for t, ev in obligations(ts):
            if ev['rule'] in rules:
                if ev['ok']:
                    proved += 1
                else:
                    open_.append((t, ev))
        if not bad and not open_:
            continue
        if gen:
            w2, ts2 = explore(p, fn, args, lim, budget, **kw)
            fns |= set(where_of(w2))
        else:
            ts2 = ts
        found = False
        done = set()
        tried = {}
        stop = time.time() + min(60, budget)
        for t, ev in obligations(ts2):
            if ev['rule'] in rules and not ev['ok'] and (ev['rule'], ev['text'], ev['line']) not in done:
                k = (ev['rule'], ev['text'], ev['line'])
                tried[k] = tried.get(k, 0) + 1
                if time.time() > stop and tried[k] > 1:
                    r.cov('refutation_cut_short', [fn])
                    continue
                env = refutes(t, ev)
                if env is not None:
                    done.add((ev['rule'], ev['text'], ev['line']))
                    found = True
                    at = (ev['fn'] or '').split('(')[0]
                    vals = {k: v for k, v in env.items() if not k.startswith(('choice', '&', 'errno', 'code', 'fd'))}
                    r.find('%s:%s:%s' % (fn, ev['rule'], ev['text'][:60]), ev['rule'], '%s line %d' % (at, ev['line']),
                           '%s: %s [%s%s]' % (fn, ev['text'], story(t, ev, env), ('; ' + ', '.join('%s=%d' % kv for kv in sorted(vals.items())[:8])) if vals else ''))
        if not found:
            for t, ev in open_:
                k = '%s: %s' % (fn, ev['text'])
                undecided[k] = undecided.get(k, 0) + 1
            for t in bad:
                gaps.append('%s: %s' % (fn, t.why or t.outcome))
            # a bounded exploration that went through everywhere is weaker evidence, and said to be so
            if gen and not any(t.outcome in ('unsupported', 'limit') for t in ts2):
                r.cov('bounded only (at most %d transfers)' % lim, [fn])
    r.cov('functions', sorted(fns))
    r.cov('paths', parts)
    r.cov('obligations_discharged', proved)
    if undecided:
        r.cov('undecided', sorted('%s (%d)' % kv for kv in undecided.items())[:40])
    if gaps:
        r.cov('not_followed', sorted(set(gaps))[:20])
    if not proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(set(gaps))[:5]))


def size(name='n'):
    return lambda w: atom(name, 0, (1 << 40))


def buf(name='buf'):
    return lambda w: Ptr(Blob(name), ZERO)


def port(w):
    w.port = atom('port', -(1 << 31), (1 << 31) - 1)
    return w.port


NETU = ['lib/net/sysi.cc', 'lib/net/connector.cc', 'lib/net/channel.cc']


def net_cases():
    b = [buf(), size()]
    return [('client', [port], 4, True), ('server', [port], 4, True)] + \
           [(f, b, 7, True) for f in ('client_send', 'client_recv', 'server_send', 'server_recv', 'channel_send', 'channel_recv', 'parts_send', 'parts_recv')]


def c18(tier, seed):
    r = Report('C18', 'Abstract interpretation of the transfer loops over a model of the C library in which every read and write moves any permitted number of bytes, ends the stream or fails: each call must continue at the first byte not yet transferred and stay inside the request, and a normal end must mean that all bytes were transferred. Loops are generalised to affine invariants that are checked to be inductive, so the obligations hold for every length and every split; local connections are followed for two messages and two requests of symbolic lengths.')
    r.assumptions = list(ASSUME)
    p = load(NETU, ['net.cc'])
    eight = [f for x in ('x', 'y', 'u', 'v') for f in (buf(x), size('n' + x))]
    decide(r, p, net_cases()[2:] + [('local', eight, 0, False, Local), ('local_self', eight, 0, False, Local)], ('transfer', 'complete', 'spurious', 'undefined'))
    return r


PASS = {'p_errno': None, 'p_close': 'close', 'p_inet': 'inet_pton', 'p_socket': 'socket', 'p_write': 'write', 'p_read': 'read', 'p_options': 'setsockopt',
        'p_connect': 'connect', 'p_bind': 'bind', 'p_listen': 'listen', 'p_accept': 'accept'}


class Raw(WStd):
    """system functions only recorded"""

    def all_hooks(self):
        h = {}

        def sysfn(n):
            def go(w, o, a, e):
                r = w.fresh('result', -(1 << 31), (1 << 31) - 1)
                w.event('sys', name=n, args=[w.load(x) for x in a], result=r)
                return r
            return go
        for n in CORE + OTHER:
            h[n] = sysfn(n)

        def errno(w, o, a, e):
            r = w.fresh('errno', 0, 4095)
            w.event('errno', result=r)
            return Ptr(Cell(r))
        h['__errno_location'] = errno
        return h


def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and sub(a.i or ZERO, b.i or ZERO) is ZERO
    return isinstance(a, wt.N) and isinstance(b, wt.N) and sub(a, b) is ZERO


def pass_through(r, p):
    return sum(one_entry(r, p, fn, prim, True) or one_entry(r, p, fn, prim, False) or 0 for fn, prim in PASS.items())


def one_entry(r, p, fn, prim, negative):
    n = 0
    if 1:
        key = fn_key(p, 'code::' + fn)
        w = Raw(p)
        w.hooks = w.all_hooks()
        w.deadline = time.time() + 30
        f = p.fns[key]
        keep = {}

        def go(w):
            args = []
            for k, q in enumerate(f['params']):
                t = w.T(w.deref_t(q['t']))
                if t['k'] == 'ptr':
                    to = w.T(t['t'])
                    args.append(Ptr(Rec(SYS)) if k == 0 else Ptr(Blob('arg%d' % k), ZERO))
                else:
                    wd = w.width(w.deref_t(q['t']))
                    args.append(atom('arg%d' % k, 0 if wd[1] or not negative else -(1 << wd[0] - 1), (1 << wd[0] - (0 if wd[1] else 1)) - 1))
            keep['args'] = args[1:]
            return w.invoke(key, None, list(args))
        for t in w.explore(go):
            where = '%s line %d' % (SYS, 0)
            calls = [e for e in t.events if e['kind'] == 'sys']
            what = prim or 'errno'
            loc = [x for x in where_of(w)]
            at = loc[-1] if loc else SYS
            if t.outcome == 'unsupported':
                if negative:
                    return None
                r.cov('not_followed', ['%s: %s' % (fn, t.why)])
                continue
            if t.outcome != 'return':
                r.find('%s:outcome' % fn, 'pass-through', at, 'the entry for %s does not return what the system function returned (%s)' % (what, t.why or t.outcome))
                continue
            env = small_values([(c, b) for _, c, b in t.path], [])
            if env is None:
                continue
            if prim is None:
                er = [e for e in t.events if e['kind'] == 'errno']
                if calls or not er or not same(t.val, er[-1]['result']):
                    r.find('%s:value' % fn, 'pass-through', at, 'the entry for errno does not return the error code of the last call')
                else:
                    n += 1
                continue
            if len(calls) != 1 or calls[0]['name'] != prim:
                r.find('%s:calls' % fn, 'pass-through', at, 'the entry for %s calls %s' % (prim, ', '.join(c['name'] for c in calls) or 'no system function'))
                continue
            a = calls[0]['args']
            bad = [k for k, (x, y) in enumerate(zip(a, keep['args'])) if not same(x, y)]
            if len(a) != len(keep['args']) or bad:
                r.find('%s:arguments' % fn, 'pass-through', at, 'the entry for %s passes argument %d on changed' % (prim, (bad or [len(a)])[0] + 1))
                continue
            if not same(t.val, calls[0]['result']):
                r.find('%s:result' % fn, 'pass-through', at, 'the entry for %s returns something else than the system function did' % prim)
                continue
            n += 1
    return 1 if n else 0


def calls_in(x, out):
    """names of the functions called or named below a syntax node"""
    if isinstance(x, list):
        if x and x[0] in ('call', 'fn') and len(x) > 3 and isinstance(x[3], dict) and 'q' in x[3]:
            out.append((x[3]['q'], x[1]))
        for y in x:
            calls_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            calls_in(y, out)


def all_units():
    base = os.path.join(REPO, 'src', 'frn')
    out = []
    for d, _, fs in os.walk(base):
        for f in sorted(fs):
            if f.endswith('.cc'):
                out.append(os.path.relpath(os.path.join(d, f), base))
    return sorted(out)


def primitives(r):
    """every function of the tree that reaches a socket primitive itself"""
    p = load(all_units(), ['net.cc'])
    n = 0
    for k, f in p.fns.items():
        if not f.get('file', '').startswith(REPO):
            continue
        n += 1
        out = []
        calls_in(f.get('body'), out)
        calls_in(f.get('inits'), out)
        inside = k.startswith(SYS + '::')
        for q, line in out:
            if q in CORE + OTHER and not inside:
                r.find('%s:%s' % (k.split('(')[0], q), 'interface', '%s:%s' % (os.path.relpath(f['file'], REPO), line),
                       'function %s reaches the system function %s without the replaceable interface' % (k.split('(')[0], q))
    r.cov('functions scanned for system calls', n)
    # entries can be replaced: the call through a pointer is dispatched
    for fn in PASS:
        body = p.fns[fn_key(p, 'code::' + fn)]['body']
        st, virt = [body], None
        while st:
            x = st.pop()
            if isinstance(x, list):
                if x and x[0] == 'mcall' and x[3]['q'].startswith(SYS):
                    virt = bool(x[6]) if len(x) > 6 else False
                st.extend(x)
        if virt is False:
            r.find('%s:virtual' % fn, 'interface', SYS, 'the entry for %s cannot be replaced (it is not virtual)' % (PASS[fn] or 'errno'))
    return p


def c19(tier, seed):
    r = Report('C19', 'Effect analysis: every function of the tree is scanned for socket primitives called outside the replaceable interface; each entry of the interface is summarised and must pass arguments and result on unchanged; on every path of connect, send, receive and close, on which any system call may fail with a fresh error code, the first failure must end in a system_error with that very code, except that connect is retried.')
    r.assumptions = list(ASSUME)
    p = primitives(r)
    r.cov('entries of the interface that pass on arguments and result', pass_through(r, p))
    decide(r, p, net_cases(), ('interface', 'failure', 'spurious'))
    return r


def c25(tier, seed):
    r = Report('C25', 'Typestate analysis of the descriptors: every path of the connections, with any system call failing, is followed; a descriptor is used only between the call that returned it and its close, an attempt that fails leaves none open, a completed connect leaves exactly the connected one, close releases exactly that one, and the reported state agrees.')
    r.assumptions = list(ASSUME)
    p = load(NETU, ['net.cc'])
    decide(r, p, net_cases(), ('state', 'release', 'descriptor', 'undefined'))
    return r
