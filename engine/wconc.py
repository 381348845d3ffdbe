"""The shared queue and the asynchronous channel (C21, C20).

C21 is decided thread-modularly: every operation of the queue is analysed on its own, in an
environment in which other threads may change the queue whenever its lock is free: at each
acquisition of the lock (and each return from a wait) the content is an arbitrary sequence of
arbitrary length. What is then required of the operation alone is enough for every schedule."""
import os
import threading
import time

import wterm as wt
from wterm import C, ZERO, ONE, add, sub, addc, cv, atom, ge0, eq0, part
from word import *
from wstd import WStd
from ir import load, Broken
from report import Report
from wchecks import ASSUME, fn_key, where_of
import wnet
from wnet import obligations, refutes, small_values

STORES = ('std::deque', 'std::vector', 'std::list', 'std::queue')


class Deck:
    """an arbitrary sequence, with what was done at its two ends since the lock was taken"""
    def __init__(self, w, et, name):
        self.t, self.name = et, name
        self.havoc(w)

    def havoc(self, w):
        self.n0 = w.fresh('length', 0, 1 << 40)
        self.base = {}
        self.pre, self.post, self.a, self.b = [], [], 0, 0
        self.all = False

    def size(self):
        return add(C(len(self.pre) + len(self.post)), ZERO if self.all else sub(self.n0, C(self.a + self.b)))

    def same(self):
        return not (self.pre or self.post or self.a or self.b or self.all)


class QueueW(WStd):
    """one operation of the queue among arbitrary others"""
    def reset(self):
        super().reset()
        self.decks = []
        self.sections = []
        self.waits = 0
        self.acquired = 0
        self.q = None

    def oblige(self, rule, cond, text):
        t = self.ctx.truth(cond)
        self.event('oblige', rule=rule, cond=cond, ok=t is True, text=text, n=len(self.choices))
        return t is True

    # ------------------------------------------------------------ the lock
    def acquire(self, m):
        if m in self.locks:
            self.oblige('lock', ZERO, 'takes a lock it already holds')
            raise Cut()
        others = [x for x in self.locks]
        self.acquired += 1
        if self.acquired > 6:
            raise Cut()
        self.locks.append(m)
        self.event('lock', m=m)
        if not others:
            for d in self.decks:
                d.havoc(self)

    def release(self, m):
        if m in self.locks:
            self.locks.remove(m)
        self.event('unlock', m=m)
        if not self.locks:
            self.section()

    def section(self):
        for d in self.decks:
            self.sections.append((d, d.n0, d.base, list(d.pre), list(d.post), d.a, d.b, d.all, d.size()))

    def lock(self, o):
        if o.owned:
            self.oblige('lock', ZERO, 'takes a lock it already holds')
            raise Cut()
        self.acquire(o.m)
        o.owned = True

    def unlock(self, o):
        if not o.owned:
            self.oblige('lock', ZERO, 'releases a lock it does not hold')
            raise Cut()
        o.owned = False
        self.release(o.m)

    def opaque_call(self, n, o, ref, xs, e):
        if o.cls == 'std::mutex' and n in ('lock', 'unlock'):
            if n == 'lock':
                self.acquire(o)
            elif o in self.locks:
                self.release(o)
            else:
                self.oblige('lock', ZERO, 'releases a lock it does not hold')
                raise Cut()
            return ZERO
        if o.cls.startswith('std::condition_variable') and n in ('wait_for', 'wait_until'):
            l = self.obj(xs[0])
            for x in xs[1:]:
                self.ev(x)
            if len(xs) > 2:
                p = self.obj(xs[2])
                for k in range(2):
                    c = self.call_value(p, [])
                    if self.decide(self.cond(self.load(c))):
                        return ONE
                    if self.choose('the time is up'):
                        return ZERO
                    self.cond_wait(o, l)
                raise Cut()
            self.cond_wait(o, l)
            return self.fresh('status', 0, 1)
        return super().opaque_call(n, o, ref, xs, e)

    def cond_wait(self, c, l):
        self.event('wait', cv=c, held=l.owned)
        self.waited.add(cv_name(self, c))
        if not l.owned:
            self.oblige('lock', ZERO, 'waits without holding the lock')
            raise Cut()
        for d in self.decks:
            self.oblige('wait', eq0(d.size()), 'waits although there is an element')
        m = l.m
        self.release(m)
        self.waits += 1
        if self.waits > 2:
            raise Cut()
        self.acquire(m)

    # ------------------------------------------------------------ the content
    def element(self, o, i):
        if isinstance(o, Deck):
            self.touch(o, 'operator[]')
            if cv(i) == 0:
                return self.end_of(o, True, False)
            raise Unsupported('element of the queue')
        return super().element(o, i)

    def touch(self, o, n):
        held = [m for m in self.locks if m in self.q_sync]
        self.event('access', n=n, held=tuple(held), names=tuple(sorted(cv_name(self, m) for m in held)))
        self.oblige('lock', ONE if held else ZERO, 'uses the content of the queue without its lock')

    def arbitrary(self, t, name):
        """an arbitrary element"""
        if self.scalar(t):
            return Cell(self.fresh(name, 0, (1 << 61) - 2), t)
        q = self.T(t)
        if q['q'] in ('std::vector',):
            b = Blob(name)
            return Seq([(b, ZERO, self.fresh('n' + name, 0, 1 << 40))])
        if q['q'] == 'std::optional':
            if self.choose(name + ' is empty'):
                return Opt()
            return Opt(True, self.arbitrary(q['a'][0], name))
        raise Unsupported('element type ' + q['s'])

    def base(self, d, i):
        """element i from the front (i >= 0) or from the back (i < 0) of the unknown part"""
        if i not in d.base:
            d.base[i] = self.arbitrary(d.t, 'e%d' % i if i >= 0 else 'z%d' % -i)
        return d.base[i]

    def end_of(self, d, front, take):
        near, far = (d.pre, d.post) if front else (d.post, d.pre)
        if near:
            return near.pop(0 if front else -1) if take else near[0 if front else -1]
        if not d.all and self.decide(ge0(addc(sub(d.n0, C(d.a + d.b)), -1))):
            x = self.base(d, d.a if front else -1 - d.b)
            if take:
                if front:
                    d.a += 1
                else:
                    d.b += 1
            return x
        if far:
            return far.pop(0 if front else -1) if take else far[0 if front else -1]
        self.oblige('empty', ZERO, 'reads or removes an element of the empty queue')
        raise Cut()

    def deck_call(self, n, o, xs):
        self.touch(o, n)
        if n in ('empty',):
            return eq0(o.size())
        if n in ('size',):
            return o.size()
        if n in ('push_back', 'emplace_back', 'push', 'emplace'):
            x = self.new_element(o, xs)
            o.post.append(x)
            self.event('insert', deck=o)
            return x
        if n in ('push_front', 'emplace_front'):
            x = self.new_element(o, xs)
            o.pre.insert(0, x)
            self.event('insert', deck=o)
            return x
        if n in ('front', 'back'):
            return self.end_of(o, n == 'front', False)
        if n in ('pop_front', 'pop', 'pop_back'):
            self.end_of(o, n != 'pop_back', True)
            return ZERO
        if n == 'clear':
            o.all, o.pre, o.post = True, [], []
            return ZERO
        if n in ('begin', 'cbegin'):
            return Ptr(o, ZERO)
        if n in ('end', 'cend'):
            return Ptr(o, o.size())
        if n == 'erase' and len(xs) == 1 and cv(self.val(xs[0]).i) == 0:
            self.end_of(o, True, True)
            return Ptr(o, ZERO)
        if n in ('insert', 'emplace') and len(xs) == 2:
            i = self.val(xs[0]).i
            if cv(i) == 0:
                o.pre.insert(0, self.new_element(o, xs[1:]))
            elif cv(sub(i, o.size())) == 0:
                o.post.append(self.new_element(o, xs[1:]))
            else:
                raise Unsupported('insertion')
            self.event('insert', deck=o)
            return Ptr(o, i)
        if n in ('operator[]', 'at'):
            return self.element(o, self.val(xs[0]))
        if n == 'shrink_to_fit':
            return ZERO
        raise Unsupported('deque::' + n)

    def std_mcall(self, n, o, ref, e):
        if isinstance(o, Deck):
            return self.deck_call(n, o, e[5])
        return super().std_mcall(n, o, ref, e)

    def target(self, p, e=None):
        if isinstance(p, Ptr) and isinstance(p.o, Deck):
            return self.element(p.o, p.i)
        return super().target(p, e)

    # ------------------------------------------------------------ the queue object
    def queue(self, t):
        """an arbitrary queue of the class of parameter type t"""
        r = self.default_rec(t)
        self.q = r
        self.q_sync = []
        self.extra = []
        for b in self.bases(r.cls):
            for f in self.p.recs.get(b, {}).get('fields', ()):
                ft = self.T(f['t'])
                q = ft.get('q', '')
                if q in STORES:
                    r.f[f['n']] = d = Deck(self, ft['a'][0], f['n'])
                    self.decks.append(d)
                elif q.startswith(('std::mutex', 'std::recursive_mutex', 'std::condition_variable')):
                    o = r.f.setdefault(f['n'], self.default(f['t']))
                    if 'mutex' in q:
                        o.cls = 'std::mutex'
                        self.q_sync.append(o)
                else:
                    self.extra.append(f['n'])
                    r.f[f['n']] = self.unknown(f['t'])
        if len(self.decks) != 1 or not self.q_sync:
            raise Unsupported('a queue of another structure')
        return r

    def unknown(self, t):
        q = self.T(t).get('q', '')
        if self.scalar(t):
            return Cell(self.fresh('~state', 0, (1 << 61) - 2), t)
        if q == 'std::atomic':
            return Atomic(Cell(self.fresh('~state', 0, (1 << 61) - 2), self.T(t)['a'][0]))
        return self.default(t)


def like(a, b):
    """the same value"""
    if isinstance(a, Cell) and isinstance(b, Cell):
        return sub(a.v, b.v)
    if isinstance(a, Opt) and isinstance(b, Opt):
        return like(a.o, b.o) if a.has and b.has else ZERO if a.has == b.has else ONE
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.segs) == len(b.segs) and all(x[0] is y[0] and sub(x[1], y[1]) is ZERO and sub(x[2], y[2]) is ZERO for x, y in zip(a.segs, b.segs)):
            return ZERO
        return ONE
    if isinstance(a, Vec) or isinstance(b, Vec):
        return ONE
    return ONE


def operation(p, fn, kind, budget=60):
    w = QueueW(p)
    w.waited = set()
    w.hooks['nogen'] = True
    import time
    w.deadline = time.time() + budget
    key = fn_key(p, 'code::' + fn)
    f = p.fns[key]

    def go(w):
        ps = f['params']
        q = w.queue(w.T(w.deref_t(ps[0]['t'])))
        d = w.decks[0]
        args = [q]
        item = None
        if len(ps) > 1:
            it = w.arbitrary(w.deref_t(ps[1]['t']), 'item')
            item = w.copy(it)
            args.append(it)
        try:
            r = w.invoke(key, None, args)
        except CxxThrow:
            w.oblige('content', ZERO, 'fails with an exception')
            raise
        if w.locks:
            w.oblige('lock', ZERO, 'returns with the lock held')
            w.section()
        judge(w, kind, r, item, args[1] if item is not None else None)
        return r
    try:
        return w, w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
        return w, [t]


def judge(w, kind, r, item, arg):
    d = w.decks[0]
    eff = [s for s in w.sections if s[3] or s[4] or s[5] or s[6] or s[7]]
    bad = None
    if kind in ('front', 'size'):
        if eff:
            bad = 'changes the content'
    elif len(eff) != 1:
        bad = ('leaves the content as it was' if not eff else 'changes the content in more than one step')
    if bad:
        w.oblige('content', ZERO, bad)
        return
    w.oblige('content', ONE, 'changes the content once')
    if kind == 'push':
        _, n0, base, pre, post, a, b, al, size = eff[0]
        # at the back exactly one element more, nothing else
        if al or a or b:
            return w.oblige('content', ZERO, 'removes elements')
        if pre:
            # an insertion in front of an empty queue is one at the back
            w.oblige('content', eq0(n0) if len(pre) + len(post) == 1 else ZERO, 'inserts at the front')
            return
        if len(post) != 1:
            return w.oblige('content', ZERO, 'inserts %d elements' % len(post))
        x = post[0]
        w.oblige('content', eq0(like(x, item)), 'inserts another value than the one given')
        if x is arg:
            w.oblige('content', ZERO, 'stores a reference to the argument')
        waking(w)
    elif kind == 'pop':
        _, n0, base, pre, post, a, b, al, size = eff[0]
        if pre or post:
            return w.oblige('content', ZERO, 'inserts elements')
        if al:
            return w.oblige('content', eq0(addc(n0, -1)), 'removes other elements than the first')
        # the first element, or the last one of a queue with a single element
        if b:
            w.oblige('content', eq0(addc(n0, -1)) if a + b == 1 else ZERO, 'removes the last element instead of the first')
        else:
            w.oblige('content', ONE if a == 1 else ZERO, 'removes %d elements' % a)
    elif kind == 'front':
        s = w.sections[-1] if w.sections else None
        if s is None:
            return w.oblige('content', ZERO, 'returns an element without looking at the queue')
        for s in w.sections:
            if any(x is r for x in s[2].values()):
                i = [k for k, x in s[2].items() if x is r][0]
                # front means index 0; the last one is the first of a queue with one element
                w.oblige('content', ONE if i == 0 else eq0(addc(s[1], -1)) if i == -1 else ZERO, 'returns another element than the first')
                return
        w.oblige('content', ZERO, 'returns something that is not in the queue')
    elif kind == 'size':
        v = w.load(r) if not isinstance(r, wt.N) else r
        if not w.sections:
            return w.oblige('content', ZERO, 'reports a size without looking at the queue')
        if any(sub(v, s[8]) is ZERO for s in w.sections):
            return w.oblige('content', ONE, 'reports the size')
        w.oblige('content', eq0(sub(v, w.sections[-1][8])), 'reports another number than the size')


def waking(w):
    """a waiter is woken when the element is in place: after the insertion, or before the lock under which it happened is released"""
    cvs = getattr(w, 'cvs', None) or []
    ins = [i for i, e in enumerate(w.events) if e['kind'] == 'insert']
    if not ins:
        return
    first = ins[-1]
    # start of the critical section of the insertion
    k = first
    while k > 0 and w.events[k]['kind'] not in ('lock', 'unlock', 'wait'):
        k -= 1
    for c in cvs:
        ok = any(e['kind'] == 'notify' and cv_name(w, e['cv']) == c for e in w.events[k:])
        early = any(e['kind'] == 'notify' and cv_name(w, e['cv']) == c for e in w.events[:k])
        w.oblige('wake', ONE if ok else ZERO, 'inserts an element without waking a waiter' + (' after it is in place' if early else ''))


def cv_name(w, o):
    for k, v in w.q.f.items():
        if v is o:
            return k
    return None


OPS = (('push_copy', 'push'), ('push_move', 'push'), ('front', 'front'), ('pop', 'pop'), ('size', 'size'))


def queue(r, rules, p, readers_wait=True):
    """analyses every operation; returns False if nothing could be decided"""
    QueueW.cvs = []
    done, gaps, undecided, proved, parts, fns = set(), set(), {}, 0, 0, set()
    held = {}
    for prefix in ('n', 'b', 'm'):
        for op, kind in sorted(OPS, key=lambda x: x[1] == 'push'):
            fn = '%s_%s' % (prefix, op)
            w, ts = operation(p, fn, kind)
            if kind != 'push':
                QueueW.cvs = sorted(set(QueueW.cvs) | w.waited)
            fns |= set(where_of(w))
            parts += len(ts)
            gaps |= set('%s: %s' % (fn, t.why or t.outcome) for t in ts if t.outcome in ('unsupported', 'limit'))
            for t in ts:
                for e in t.events:
                    if e['kind'] == 'access' and e['held']:
                        held.setdefault(e['names'], (fn, e['fn'], e['line']))
            for t, ev in obligations(ts):
                if ev['rule'] not in rules:
                    continue
                if ev['ok']:
                    proved += 1
                    continue
                env = refutes(t, ev)
                name = {'push': 'PushBack', 'front': 'Front', 'pop': 'PopFront', 'size': 'Size'}[kind]
                at = (ev['fn'] or fn_key(p, 'code::' + fn)).split('(')[0]
                if env is None:
                    k = '%s: %s' % (fn, ev['text'])
                    undecided[k] = undecided.get(k, 0) + 1
                elif (name, ev['text'], ev['line']) not in done:
                    done.add((name, ev['text'], ev['line']))
                    steps = [e['kind'] for e in t.events[:t.events.index(ev)] if e['kind'] in ('lock', 'unlock', 'wait', 'notify', 'insert')] if ev in t.events else []
                    vals = {k: v for k, v in env.items() if k.startswith('length')}
                    r.find('%s:%s' % (name, ev['text']), ev['rule'], '%s line %d' % (at, ev['line']),
                           '%s %s [%s%s]' % (name, ev['text'], ', '.join(steps), ('; ' + ', '.join('%s=%d' % x for x in sorted(vals.items()))) if vals else ''))
    if 'lock' in rules and held and not set.intersection(*[set(x) for x in held]):
        a, b = sorted(held.items())[0], sorted(held.items())[-1]
        r.find('lockset', 'lock', '%s line %d' % (b[1][1].split('(')[0], b[1][2]), 'the content is protected by %s in %s and by %s in %s' % ('/'.join(a[0]), a[1][0], '/'.join(b[0]), b[1][0]))
    r.cov('functions', sorted(fns))
    r.cov('paths', parts)
    r.cov('obligations_discharged', proved)
    r.cov('condition variables', QueueW.cvs)
    if undecided:
        r.cov('undecided', sorted('%s (%d)' % x for x in undecided.items())[:30])
    if gaps:
        r.cov('not_followed', sorted(gaps)[:20])
    if not proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(gaps)[:4]))


ALL = ('lock', 'wait', 'wake', 'empty', 'content', 'undefined')


def c21(tier, seed):
    r = Report('C21', 'Thread-modular analysis of the queue: each operation is interpreted abstractly on its own, and whenever it takes the lock the content is an arbitrary sequence of arbitrary length, as other threads may leave it. Lock-set rule: the content is used only with the lock held, the same lock everywhere. Wait rule: a wait happens only with the lock held and the queue empty, and after it the content is arbitrary again. Wake rule: an insertion is followed by a notification of the condition waited on, or happens in the critical section that notifies. Content rule: the critical sections of an operation together have exactly the effect of the sequential operation, in one step. These obligations on single operations give the property for every number of threads and every schedule.')
    r.assumptions = list(ASSUME) + ['std::mutex, std::condition_variable, std::deque and the lock classes behave as documented; a wait may return spuriously',
                                    'three element types represent all (numbers, byte vectors, optional byte vectors)']
    p = load([], ['queue.cc'])
    queue(r, ALL, p)
    return r


# ---------------------------------------------------------------- the asynchronous channel
class Kill(BaseException):
    """ends a thread of an abandoned path"""


class Task:
    def __init__(self, name, future=None):
        self.name = name
        self.future = future
        self.sem = threading.Semaphore(0)
        self.done = False
        self.blocked = None            # condition under which the thread can go on
        self.why = ''
        self.vc = {}
        self.state = None
        self.thread = None


FIFO = 'frn::lib::net::SharedDeque'
MUTATE = ('operator=', 'reset', 'swap', 'push_back', 'pop_back', 'pop_front', 'push_front', 'emplace_back', 'emplace', 'clear', 'erase', 'insert', 'assign', 'resize', 'release')


class AsyncW(WStd):
    """caller and sending threads; the threads change only where they block and at operations whose
    result depends on the schedule"""
    preempt = 2
    fifo = True

    def reset(self):
        super().reset()
        self.cur = Task('main')
        self.tasks = [self.cur]
        self.cur.vc = {'main': 1}
        self.failure = None
        self.left = self.preempt
        self.expected = []             # (content, offset, length) in the order of the calls
        self.cursor = [0, ZERO]
        self.conn = 'idle'
        self.nclosed = 0
        self.sendfail = 0
        self.version = {}
        self.log = {}                  # object -> [(task, clock, write, what, line)]
        self.switches = []
        self.ended_once = False
        self.racy = set()

    def mark(self):
        return (len(self.events),)

    def oblige(self, rule, cond, text):
        t = self.ctx.truth(cond)
        self.event('oblige', rule=rule, cond=cond, ok=t is True, text=text, n=len(self.choices), schedule=list(self.switches))
        return t is True

    def certainly(self, rule, ok, text):
        self.oblige(rule, ONE if ok else ZERO, text)

    # ------------------------------------------------------------ threads
    def swap_out(self):
        self.cur.state = (self.frame, self.frames, self.locks, self.depth, self.line, getattr(self, 'current_exc', None))

    def swap_in(self, t):
        self.cur = t
        self.thread = t.name
        if t.state is not None:
            self.frame, self.frames, self.locks, self.depth, self.line, self.current_exc = t.state
        else:
            self.frame, self.frames, self.locks, self.depth, self.line, self.current_exc = None, [], [], 0, self.line, None

    def switch(self, t):
        me = self.cur
        self.switches.append('%s runs' % t.name)
        self.swap_out()
        self.swap_in(t)
        if t.thread is None and t.future is not None:
            old = threading.stack_size(1 << 27)
            t.thread = threading.Thread(target=self.body, args=(t,), daemon=True)
            t.thread.start()
            threading.stack_size(old)
        else:
            t.sem.release()
        if me.done:
            return
        me.sem.acquire()
        if self.killed:
            raise Kill()
        if self.failure is not None and me is self.tasks[0]:
            x, self.failure = self.failure, None
            raise x

    def body(self, t):
        try:
            try:
                t.future.val = self.call_value(t.future.job, t.future.args)
            except CxxThrow as x:
                t.future.exc = x
                if t.future.kind == 'thread':
                    self.frame = None
                    self.certainly('failure', False, 'an exception leaves a thread and ends the program')
                    raise Cut()
            t.done = True
            t.future.done = True
            t.future.vc = dict(t.vc)
            self.event('jobend', future=t.future, exc=t.future.exc)
            self.next()
        except Kill:
            pass
        except BaseException as x:
            if self.killed:
                return
            if os.environ.get('WDEBUG') and not isinstance(x, (Cut, Unsupported, UB, Again)):
                import traceback
                traceback.print_exc()
            if not isinstance(x, (Cut, Unsupported, UB, Again, AttributeError, TypeError, KeyError, IndexError, ValueError)):
                x = Unsupported('in a thread: %r' % (x,))
            t.done = True
            self.failure = x
            main = self.tasks[0]
            self.swap_in(main)
            main.sem.release()

    def ready(self, t):
        return not t.done and (t.blocked is None or t.blocked())

    def next(self):
        """hands over to another thread that can run"""
        c = [t for t in self.tasks if t is not self.cur and self.ready(t)]
        if not c:
            # nobody can go on
            w = [t for t in self.tasks if not t.done]
            self.certainly('deadlock', False, 'nobody can go on: ' + ', '.join('%s %s' % (t.name, t.why or 'waits') for t in w))
            if self.cur is self.tasks[0]:
                raise Cut()
            self.failure = Cut()
            main = self.tasks[0]
            self.switch(main)
            return
        t = c[0]
        for x in c[:-1]:
            if self.choose('next is ' + x.name):
                t = x
                break
        else:
            t = c[-1]
        self.switch(t)

    def block(self, ready, why):
        if ready():
            return
        self.cur.blocked, self.cur.why = ready, why
        while not ready():
            self.next()
        self.cur.blocked, self.cur.why = None, ''

    def point(self, what):
        """the schedule matters here"""
        c = [t for t in self.tasks if t is not self.cur and self.ready(t)]
        if c and self.left > 0 and self.choose('switch at ' + what):
            self.left -= 1
            self.switches.append('at %s of %s' % (what, self.cur.name))
            self.next()

    def explore(self, go):
        def run(w):
            w.killed = False
            w.main_thread = threading.current_thread()
            try:
                return go(w)
            finally:
                w.killed = True
                for t in w.tasks[1:]:
                    if t.thread is not None and t.thread is not threading.current_thread():
                        while t.thread.is_alive():
                            t.sem.release()
                            t.thread.join(0.05)
                w.swap_in(w.tasks[0]) if w.tasks[0].state else None
        return super().explore(run)

    # ------------------------------------------------------------ ordering
    def tick(self):
        self.cur.vc[self.cur.name] = self.cur.vc.get(self.cur.name, 0) + 1

    def give_clock(self, o):
        k = o.__dict__.setdefault('vc', {}) if not isinstance(o, dict) else o
        for a, b in self.cur.vc.items():
            k[a] = max(k.get(a, 0), b)
        self.tick()

    def take_clock(self, o):
        for a, b in (o if isinstance(o, dict) else o.__dict__.get('vc', {})).items():
            self.cur.vc[a] = max(self.cur.vc.get(a, 0), b)

    def used(self, o, write, what):
        """an access to a shared object"""
        me = self.cur
        l = self.log.setdefault(id(o), [o])
        for t, k, w, what2, line in l[1:]:
            if t != me.name and (w or write) and me.vc.get(t, 0) < k:
                key = (what, what2)
                if key not in self.racy:
                    self.racy.add(key)
                    self.certainly('race', False, '%s in %s is not ordered with %s in %s (line %d)' % (what, me.name, what2, t, line))
        l.append((me.name, me.vc.get(me.name, 0), write, what, self.line))

    # ------------------------------------------------------------ starting and joining
    def start(self, job, args, kind, policy=None):
        f = Future(job)
        f.args, f.kind, f.policy, f.vc = args, kind, policy, {}
        f.id = len(self.jobs)
        self.jobs.append(f)
        self.event('async', future=f)
        lazy = policy is not None and cv(policy) == 2 or policy is None and kind == 'async' or policy is not None and cv(policy) not in (1, 2)
        f.deferred = lazy
        if isinstance(job, Rec) and hasattr(job, 'caps'):
            self.captured(job)
        if not lazy:
            t = Task('job%d' % f.id, f)
            self.tick()
            t.vc = dict(self.cur.vc)
            t.vc[t.name] = 1
            self.tick()
            self.tasks.append(t)
            f.task = t
        return f

    def captured(self, r):
        """captures by reference must outlive the function that made them"""
        info = self.p.recs.get(r.cls, {})
        for c in info.get('caps', ()):
            if not c.get('this') and c.get('ref'):
                o = r.caps.get(c['v'])
                f = self.frame
                if f is not None and f.env.get(c['v']) is o and c['v'] in f.__dict__.get('own', ()):
                    f.__dict__.setdefault('lent', []).append((o, c['v']))

    def invoke(self, key, this, args, up=None, caps=None):
        f = self.p.fns[key]
        own = [p['v'] for p in f['params'] if self.T(p['t'])['k'] not in ('ref', 'rref')]
        self.pending_own = own
        return super().invoke(key, this, args, up, caps)

    def exec(self, s):
        if self.frame is not None and 'own' not in self.frame.__dict__:
            self.frame.own = set(self.pending_own)
        return super().exec(s)

    def s_decl(self, s):
        if self.T(s[3])['k'] not in ('ref', 'rref'):
            self.frame.own.add(s[2])
        return super().s_decl(s)

    def join(self, f, how):
        self.event('join', future=f, how=how)
        if f.deferred:
            if not f.done:
                f.done = True
                fr, d, fs = self.frame, self.depth, len(self.frames)
                try:
                    f.val = self.call_value(f.job, f.args)
                except CxxThrow as x:
                    f.exc = x
                    self.frame, self.depth = fr, d
                    del self.frames[fs:]
            return
        self.block(lambda: f.done, 'waits for ' + f.task.name)
        self.take_clock(f)

    def future_call(self, n, o):
        if o.job is None and n in ('wait', 'get', 'join'):
            raise UB('wait on a future without a job') if n != 'join' else CxxThrow(Opaque('std::system_error'), self.line)
        if n in ('wait', 'join'):
            self.join(o, n)
            if n == 'join':
                o.job = None
            return ZERO
        if n == 'get':
            if o.taken:
                raise UB('get twice')
            self.join(o, n)
            o.taken = True
            if o.exc is not None:
                raise CxxThrow(o.exc.obj, o.exc.line)
            return o.val if o.val is not None else ZERO
        if n in ('valid', 'joinable'):
            return ONE if o.job is not None and not o.taken else ZERO
        if n in ('wait_for', 'wait_until'):
            self.point(n)
            if o.done:
                self.take_clock(o)
            return C(0) if o.done else C(2 if o.deferred else 1)
        if n == 'detach':
            o.job = None
            return ZERO
        raise Unsupported('future::' + n)

    def std_call(self, q, ref, e):
        n = q.rsplit('::', 1)[-1]
        if n == 'async':
            a = [self.ev(x) for x in e[4]]
            pol = None
            if not (isinstance(a[0], (Rec, FnV, Sp)) or isinstance(a[0], Cell) and isinstance(a[0].v, (FnV, Ptr))):
                pol = self.load(a.pop(0))
            return self.start(self.kept(a[0]), a[1:], 'async', pol)
        if n in ('sleep_for', 'sleep_until', 'yield', 'usleep', 'sleep'):
            for x in e[4]:
                self.ev(x)
            self.left += 1 if self.left < self.preempt else 0
            self.point(n)
            self.spins += 1
            if self.spins > 4:
                raise Cut()
            return ZERO
        return super().std_call(q, ref, e)

    def kept(self, f):
        if isinstance(f, Rec) and hasattr(f, 'caps'):
            return self.copy(f)
        return f

    def std_ctor(self, q, t, ref, e):
        if q == 'std::thread':
            a = [self.ev(x) for x in e[4]]
            if not a:
                return Future(None)
            if isinstance(a[0], Future):
                r = Future(None)
                r.__dict__.update(a[0].__dict__)
                a[0].job = None
                return r
            f = self.start(self.kept(a[0]), a[1:], 'thread', ONE)
            return f
        if q == 'std::future' and e[4]:
            a = self.ev(e[4][0])
            if isinstance(a, Future):
                r = Future(None)
                self.takeover(r, a)
                return r
        return super().std_ctor(q, t, ref, e)

    def takeover(self, o, a):
        """move assignment; the shared state stays the same object"""
        o.__dict__.update(a.__dict__)
        t = getattr(a, 'task', None)
        if t is not None:
            t.future = o
        if a in self.jobs:
            self.jobs[self.jobs.index(a)] = o

    def default_rec(self, t):
        q = t['q'].replace('std::__cxx11::', 'std::')
        if q == 'std::thread':
            return Future(None)
        return super().default_rec(t)

    # ------------------------------------------------------------ shared memory
    def x_mem(self, e):
        o = super().x_mem(e)
        b = e[3]
        if isinstance(o, (Cell, Vec, Seq, Str, Opt, Sp, Future)):
            self.last_mem = (o, e[4])
            self.used(o, False, 'reading ' + e[4])
        return o

    def wrote(self, o):
        k = self.log.get(id(o))
        if k is not None and k[0] is o:
            name = k[-1][3].split(' ', 1)[-1] if len(k) > 1 else 'an object'
            self.used(o, True, 'writing ' + name)

    def std_mcall(self, n, o, ref, e):
        if isinstance(o, Future) and n == 'operator=':
            a = self.ev(e[5][0])
            self.wrote(o)
            self.takeover(o, a)
            return o
        if getattr(o, 'gone', None):
            raise UB('uses an element after it was removed from the queue')
        if isinstance(o, Atomic):
            self.point('an atomic operation')
            self.take_clock(o)
            self.give_clock(o)
        elif n in MUTATE:
            self.wrote(o)
        return super().std_mcall(n, o, ref, e)

    def lock(self, o):
        self.grab(o.m)
        o.owned = True

    def grab(self, m):
        self.point('a lock')
        if m in self.locks:
            self.certainly('deadlock', False, 'takes a lock it already holds')
            raise Cut()
        self.block(lambda: not m.__dict__.get('owner'), 'waits for a lock')
        m.owner = self.cur.name
        self.take_clock(m)
        self.locks.append(m)
        self.event('lock', m=m)

    def unlock(self, o):
        o.owned = False
        self.drop(o.m)

    def drop(self, m):
        m.owner = None
        self.give_clock(m)
        if m in self.locks:
            self.locks.remove(m)
        self.event('unlock', m=m)

    def opaque_call(self, n, o, ref, xs, e):
        if o.cls == 'std::mutex' and n in ('lock', 'unlock'):
            self.grab(o) if n == 'lock' else self.drop(o)
            return ZERO
        if o.cls.startswith('std::condition_variable') and n.startswith('notify'):
            w = o.__dict__.setdefault('waiters', [])
            if w:
                if n.endswith('all'):
                    for x in w:
                        x[0] = True
                    del w[:]
                else:
                    w.pop(0)[0] = True
            self.event('notify', cv=o)
            return ZERO
        return super().opaque_call(n, o, ref, xs, e)

    def cond_wait(self, c, l):
        self.event('wait', cv=c, held=l.owned)
        f = [False]
        c.__dict__.setdefault('waiters', []).append(f)
        m = l.m
        self.unlock(l)
        self.block(lambda: f[0] and not m.__dict__.get('owner'), 'waits for a condition')
        self.lock(l)

    # ------------------------------------------------------------ the queue, by its contract (C21)
    def x_mcall(self, e):
        q = e[3]['q']
        if self.fifo and q.startswith(FIFO + '<'):
            f = {'PushBack': self.q_push, 'Front': self.q_front, 'PopFront': self.q_pop, 'Size': self.q_size}.get(q.rsplit('::', 1)[-1])
            if f:
                o = self.ev(e[4])
                return f(o, [self.ev(x) for x in e[5]], e)
        return super().x_mcall(e)

    def vec_call(self, n, o, xs, e):
        old = list(o.els) if o.kind == 'deque' and n in ('pop_front', 'pop_back', 'clear', 'erase') else ()
        r = super().vec_call(n, o, xs, e)
        for x in old:
            if not any(x is y for y in o.els):
                self.remove(x)
        return r

    def elements(self, q):
        for x in q.f.values():
            if isinstance(x, (Vec,)) and x.kind in ('deque', 'vector', 'list', 'queue'):
                return x
        raise Unsupported('a queue of another structure')

    def q_push(self, q, a, e):
        d = self.elements(q)
        x = a[0]
        if isinstance(x, Opaque) and 'nullopt' in x.cls:
            el = Opt()
        elif isinstance(x, (wt.N, Ptr)):
            el = Cell(x, d.t)
        elif self.T(d.t).get('q') == 'std::optional' and not isinstance(x, Opt):
            el = Opt(True, self.copy(x))
        else:
            el = self.copy(x)
        self.clocks[id(el)] = [el, {}]
        self.give_clock(self.clocks[id(el)][1])
        self.give_clock(q.__dict__.setdefault('qvc', {}))
        d.els.append(el)
        return ZERO

    def q_front(self, q, a, e):
        d = self.elements(q)
        self.block(lambda: bool(d.els), 'waits for an element of the queue')
        x = d.els[0]
        if id(x) in self.clocks:
            self.take_clock(self.clocks[id(x)][1])
        return x

    def q_pop(self, q, a, e):
        d = self.elements(q)
        self.block(lambda: bool(d.els), 'waits for an element of the queue')
        x = d.els.pop(0)
        if id(x) in self.clocks:
            self.take_clock(self.clocks[id(x)][1])
        self.give_clock(q.__dict__.setdefault('qvc', {}))
        self.remove(x)
        return ZERO

    def remove(self, x):
        if isinstance(x, (Opt, Seq, Vec, Cell)):
            x.gone = True
        if isinstance(x, Opt) and x.o is not None:
            self.remove(x.o)

    def q_size(self, q, a, e):
        self.point('Size')
        self.take_clock(q.__dict__.setdefault('qvc', {}))
        self.give_clock(q.qvc)
        return C(len(self.elements(q).els))

    # ------------------------------------------------------------ the caller and the connection
    def content(self, b):
        """the content of the caller's buffer as it is now"""
        v = self.version.get(id(b), 0)
        k = (id(b), v)
        if k not in self.snap_of:
            x = Blob('%s%s' % (b.name, "'" * v))
            x.snapshot = True
            self.snap_of[k] = (x, b)
        return self.snap_of[k][0]

    def from_range(self, a, b, et):
        r = super().from_range(a, b, et)
        if isinstance(r, Seq) and isinstance(a.o, Blob):
            self.used(a.o, False, "reading the caller's buffer")
            r.segs = [(self.content(s) if not hasattr(s, 'snapshot') else s, off, n) for s, off, n in r.segs]
        return r

    def h_given(self, _, a, e):
        p, n = self.load(a[0]), self.load(a[1])
        self.expected.append((self.content(p.o), p.i or ZERO, n))
        return ZERO

    def h_reused(self, _, a, e):
        p = self.load(a[0])
        self.used(p.o, True, "changing the caller's buffer")
        self.version[id(p.o)] = self.version.get(id(p.o), 0) + 1
        return ZERO

    def h_opened(self, _, a, e):
        self.used(self.conn_obj, True, 'opening the connection')
        self.certainly('connection', self.conn == 'idle', 'the connection is opened twice')
        self.conn = 'open'
        return ZERO

    def h_closed(self, _, a, e):
        self.used(self.conn_obj, True, 'closing the connection')
        self.certainly('connection', self.conn == 'open', 'the connection is closed %s' % ('twice' if self.conn == 'closed' else 'before it is opened'))
        self.conn = 'closed'
        if not self.sendfail:
            self.complete('the connection is closed')
        return ZERO

    def complete(self, when):
        k, off = self.cursor
        rest = ZERO
        for _, _, n in self.expected[k:]:
            rest = add(rest, n)
        self.oblige('content', eq0(sub(rest, off)), '%s before everything was handed over' % when)

    def h_sent(self, _, a, e):
        p, n = self.load(a[0]), self.load(a[1])
        if self.frame is None:
            pass
        self.used(self.conn_obj, True, 'sending')
        self.certainly('connection', self.conn == 'open', 'bytes are handed to a connection that is %s' % self.conn)
        if self.sendfail:
            self.event('resend')
        if not self.decide(eq0(n)):
            o = p.o
            if getattr(o, 'gone', None):
                raise UB('sends an element after it was removed from the queue')
            if isinstance(o, Blob):
                self.used(o, False, "reading the caller's buffer")
                segs = [(self.content(o), p.i or ZERO, n)]
            elif isinstance(o, Seq):
                self.oblige('content', ge0(sub(sub(self.size(o), p.i or ZERO), n)), 'bytes beyond the end of a message are sent')
                segs = self.cut(o, p.i or ZERO, n)
            elif isinstance(o, Vec):
                self.certainly('content', False, 'bytes are sent that were never given to the channel')
                raise Cut()
            else:
                raise Unsupported('source of a message')
            if not self.sendfail:
                for s, off, ln in segs:
                    self.handed(s, off, ln)
        if not self.sendfail and self.choose('sending fails'):
            self.sendfail += 1
            raise CxxThrow(Opaque('std::runtime_error'), self.line)
        return n

    def handed(self, s, off, ln):
        while self.cursor[0] < len(self.expected) and self.decide(eq0(sub(self.expected[self.cursor[0]][2], self.cursor[1]))):
            self.cursor = [self.cursor[0] + 1, ZERO]
        ok = self.cursor[0] < len(self.expected) and s is self.expected[self.cursor[0]][0]
        if not ok:
            self.certainly('content', False, 'other bytes are handed over than the next ones given to the channel')
            raise Cut()
        ex = self.expected[self.cursor[0]]
        self.oblige('content', eq0(sub(off, add(ex[1], self.cursor[1]))), 'bytes of a message are lost or repeated')
        self.oblige('content', ge0(sub(sub(ex[2], self.cursor[1]), ln)), 'bytes beyond the end of a message are sent')
        self.cursor = [self.cursor[0], add(self.cursor[1], ln)]

    def h_ended(self, _, a, e):
        failed = bool(cv(self.load(a[0])))
        self.ended_once = True
        self.certainly('close', self.conn == 'closed', 'closing the channel leaves the connection %s' % self.conn)
        if failed:
            self.certainly('close', self.sendfail > 0, 'closing the channel fails although nothing went wrong')
        elif self.sendfail:
            self.certainly('failure', False, 'sending failed and closing the channel does not report it')
        else:
            self.complete('closing the channel returns')
        return ZERO

    def finish(self):
        """what the destruction of the channel waits for"""
        for t in self.tasks[1:]:
            if not t.done:
                f = t.future
                if f.kind == 'thread' and f.job is not None:
                    self.certainly('failure', False, 'a joinable thread is destroyed')
                    raise Cut()
                self.certainly('close', False, 'closing the channel returns while %s still runs' % t.name)
                self.block(lambda: t.done, 'waits for ' + t.name)

    def all_hooks(self):
        h = {'nogen': True}
        for k in ('given', 'reused', 'opened', 'closed', 'sent', 'ended'):
            h['code::' + k] = getattr(AsyncW, 'h_' + k)
        return h


def talk(p, fn, args, budget=120, **attrs):
    w = AsyncW(p)
    w.hooks = w.all_hooks()
    w.deadline = time.time() + budget
    for k, v in attrs.items():
        setattr(w, k, v)
    key = fn_key(p, 'code::' + fn)

    def go(w):
        w.clocks, w.snap_of, w.spins = {}, {}, 0
        w.conn_obj = Blob('connection')
        r = w.invoke(key, None, [a(w) for a in args])
        w.finish()
        return r
    try:
        return w, w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
        return w, [t]


def case_list():
    b, n = wnet.buf, wnet.size
    return [('none', []), ('watched', [b('x'), n('nx')]), ('one', [b('x'), n('nx')]), ('again', [b('x'), n('nx'), n('ny')]), ('three', [b('x'), n('nx'), b('y'), n('ny'), b('z'), n('nz')])]


def c20(tier, seed):
    r = Report('C20', 'Ownership and ordering analysis of the caller and the sending thread. Both are interpreted abstractly together over messages of unknown content and length; the threads exchange data through the queue only, whose operations are taken by their contract (C21), so that the order of hand-over does not depend on the schedule; wherever an operation does depend on it (locks, atomics, the size of the queue, timed waits), the changes of thread at that point are followed too, up to a bound. Happens-before rule: two accesses of different threads to the same object, one of them a write, are ordered by start, join, queue, lock or atomic operations. Content rule: the connection is handed exactly the bytes given, in order, before it is closed. Failure rule: a failure of the sending thread is reported by Close.')
    r.assumptions = list(ASSUME) + ['up to three messages, at most %d changes of thread at schedule-dependent operations per path; messages and their lengths are arbitrary' % (3 if tier == 'thorough' else 2),
                                    'std::async with the async policy, std::thread, std::future and the lock classes behave as documented']
    p = load(['lib/net/connector.cc', 'lib/net/channel.cc'], ['async.cc'])
    rules = ('content', 'connection', 'close', 'failure', 'race', 'deadlock', 'undefined')
    proved, parts, gaps, undecided, fns, done = 0, 0, set(), {}, set(), set()
    for fifo in (True, False):
        for fn, args in case_list():
            w, ts = talk(p, fn, args, fifo=fifo, preempt=3 if tier == 'thorough' else 2)
            fns |= set(where_of(w))
            parts += len(ts)
            gaps |= set('%s: %s' % (fn, t.why or t.outcome) for t in ts if t.outcome in ('unsupported', 'limit'))
            for t, ev in obligations(ts):
                if ev['ok']:
                    proved += 1
                    continue
                env = refutes(t, ev)
                if env is None:
                    k = '%s: %s' % (fn, ev['text'])
                    undecided[k] = undecided.get(k, 0) + 1
                elif ev['text'] not in done:
                    done.add(ev['text'])
                    vals = {k: v for k, v in env.items() if k.startswith('n')}
                    r.find('%s:%s' % (ev['rule'], ev['text'][:70]), ev['rule'], '%s line %d' % ((ev['fn'] or '').split('(')[0], ev['line']),
                           '%s [use %s%s%s]' % (ev['text'], fn, ''.join('; ' + x for x in ev.get('schedule', ())[:6]), '; ' + ', '.join('%s=%d' % x for x in sorted(vals.items())) if vals else ''))
    # the contract of the queue, as far as one sending and one taking thread rely on it
    q = Report('C20', '')
    queue(q, ('lock', 'wait', 'wake', 'empty', 'content'), load([], ['queue.cc']))
    for f in q.findings:
        r.find('queue:' + f['key'], f['rule'], f['where'], 'the queue of messages: ' + f['text'])
    r.cov('functions', sorted(fns))
    r.cov('paths', parts)
    r.cov('obligations_discharged', proved + q.coverage.get('obligations_discharged', 0))
    if undecided:
        r.cov('undecided', sorted('%s (%d)' % x for x in undecided.items())[:30])
    if gaps:
        r.cov('not_followed', sorted(gaps)[:20])
    if not proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(gaps)[:4]))
    return r
