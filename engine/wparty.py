"""The network of a party (C24).

The network is built abstractly and its channels are the boundary: every call of a channel is recorded with the bytes
it is given, and what a channel delivers are unknown bytes. Between two marks of the driver the recorded bytes must be
exactly the serialized items (equal as terms), on the channel of the party addressed, whatever number of pieces they
are split into."""
import math
import re
import time

import wterm as wt
from wterm import C, ZERO, ONE, add, sub, addc, scale, cv, atom, ge0, eq0, part
from word import *
from ir import load, Broken
from report import Report
from wchecks import ASSUME, fn_key, where_of
from wnet import small_values
from wbuild import Build

UNITS = ['lib/net/builder.cc', 'lib/net/channel.cc', 'lib/net/connector.cc', 'lib/net/sysi.cc', 'lib/tools.cc', 'shr.cc']
FIELDS, SHARES, BYTES, RFIELDS, RSHARES, RBYTES, SENDTO, BROADCAST, RECVFROM = range(9)
NAMES = 'Send SendShares SendBytes Recv RecvShares RecvBytes SendTo Broadcast RecvFrom'.split()
P61 = (1 << 61) - 1


def segs_merge(l):
    out = []
    for s, o, n in l:
        if out and out[-1][0] is s and sub(add(out[-1][1], out[-1][2]), o) is ZERO:
            out[-1] = (s, out[-1][1], add(out[-1][2], n))
        elif cv(n) != 0:
            out.append((s, o, n))
    return out


class Party(Build):
    plan = ()          # (kind, party, count)

    def reset(self):
        super().reset()
        self.chans = None
        self.phase = 0
        self.now = None
        self.stepd = {}
        self.printing = None

    # ---------------------------------------------------------- channels
    def channels_in(self, o, seen=None):
        seen = seen if seen is not None else set()
        if isinstance(o, (Sp, Cell)):
            o = o.v
        if isinstance(o, Ptr):
            try:
                o = self.target(o)
            except (UB, Unsupported):
                return None
        if not isinstance(o, Rec) or id(o) in seen:
            return None
        seen.add(id(o))
        r = self.parts_of(o, 'Channel')
        if r:
            return [x.v.o for x in r]
        for x in o.f.values():
            r = self.channels_in(x, seen)
            if r:
                return r
        return None

    def invoke(self, key, this, args, up=None, caps=None):
        if isinstance(this, Rec) and any(b.endswith('::Channel') for b in self.bases(this.cls)):
            n = key.split('(')[0].rsplit('::', 1)[-1]
            if n in ('Open', 'Close', 'Send', 'Recv'):
                self.reached[key] = (self.p.fns[key].get('file'), self.p.fns[key].get('line'))
                return self.on_channel(n, this, args)
        return super().invoke(key, this, args, up, caps)

    def on_channel(self, n, ch, args):
        i = next((k for k, x in enumerate(self.chans or ()) if x is ch), None)
        if i is None:
            raise Unsupported('a channel that is not in the list of the network')
        f = self.frames[-1].key if self.frames else ''
        if n in ('Open', 'Close'):
            self.event('chan', op=n, i=i, phase=self.phase, fn=f)
            return ZERO
        p, k = self.load(args[0]), self.load(args[1])
        if n == 'Send':
            self.event('chan', op=n, i=i, step=self.now, data=self.content(p, k), phase=self.phase, fn=f)
        else:
            st = self.stepd.setdefault('pos', {})
            if cv(k) is not None and isinstance(p.o, (Vec, Cell, Rec)):
                c = cv(k)
                pos = st.get(i, 0)
                bs = [atom('in%d_%d' % (i, pos + j), 0, 30) for j in range(c)]
                if p.o is None:
                    raise UB('null pointer written')
                self.write_bytes(p, bs)
                st[i] = pos + c
                data = ('bytes', bs)
            elif cv(k) == 0:
                data = ('bytes', [])
            elif isinstance(p.o, Seq):
                b = Blob('in%d_%d' % (i, len(self.events)))
                data = ('segs', [(b, ZERO, k)])
                old = p.o.segs
                off = p.i if p.i is not None else ZERO
                if cv(off) == 0 and self.ctx.truth(eq0(sub(self.size(p.o), k))) is True:
                    p.o.segs = [(b, ZERO, k)]
                elif len(p.o.segs) and segs_merge(p.o.segs)[-1][0].name.startswith('in') and self.size(p.o) is not None:
                    raise Unsupported('part of a message')
                else:
                    raise Unsupported('part of a message')
            else:
                raise Unsupported('bytes of unknown number received')
            self.event('chan', op=n, i=i, step=self.now, data=data, phase=self.phase, fn=f)
        return ZERO

    def content(self, p, k):
        c = cv(k)
        if c == 0:
            return ('bytes', [])
        if isinstance(p.o, Blob):
            return ('segs', [(p.o, p.i if p.i is not None else ZERO, k)])
        if isinstance(p.o, Seq):
            return ('segs', self.cut(p.o, p.i, k))
        if c is None:
            raise Unsupported('bytes of unknown number sent')
        return ('bytes', self.read_bytes(p, c))

    def sized(self, et, n):
        """a vector of an unknown number of bytes"""
        if self.scalar(et) and self.size_of(et) == 1:
            return Seq([(Blob('new'), ZERO, n)])
        raise Unsupported('unknown size')

    # ---------------------------------------------------------- the driver
    def h_steps(self, _, a, e):
        return C(len(self.plan))

    def h_kind(self, _, a, e):
        return C(self.plan[cv(self.load(a[0]))][0])

    def h_to(self, _, a, e):
        return C(self.plan[cv(self.load(a[0]))][1])

    def h_count(self, _, a, e):
        c = self.plan[cv(self.load(a[0]))][2]
        return c if isinstance(c, wt.N) else C(c)

    def h_value(self, _, a, e):
        return atom('v%d_%d' % (cv(self.load(a[0])), cv(self.load(a[1]))), 0, P61 - 1)

    def h_message(self, _, a, e):
        k = cv(self.load(a[0]))
        o = a[1]
        o = self.target(o) if isinstance(o, Ptr) else o
        if isinstance(o, Seq):
            o.segs = [(Blob('m%d' % k), ZERO, self.size(o))]
        else:
            for i, c in enumerate(o.els):
                c.v = atom('m%d_%d' % (k, i), 0, 255)
        return ZERO

    def h_made(self, _, a, e):
        self.chans = self.channels_in(a[0])
        if self.chans is None:
            raise Unsupported('the channels of the network are not found')
        self.event('made', id=self.load(a[1]), n=self.load(a[2]))
        return ZERO

    def h_lib(self, _, a, e):
        self.chans = self.channels_in(a[0])
        if self.chans is None:
            raise Unsupported('the channels of the network are not found')
        return ZERO

    def h_phase(self, _, a, e):
        self.phase = cv(self.load(a[0]))
        return ZERO

    def h_want(self, _, a, e):
        self.event('want', step=cv(self.load(a[0])), data=self.content(self.load(a[1]), self.load(a[2])))
        return ZERO

    def h_begin(self, _, a, e):
        self.now = cv(self.load(a[0]))
        self.event('begin', step=self.now)
        return ZERO

    def h_end(self, _, a, e):
        self.event('end', step=self.now)
        self.now = None
        return ZERO

    def h_got(self, _, a, e):
        self.event('got', step=cv(self.load(a[0])), n=self.load(a[1]))
        return ZERO

    def came(self, k):
        out = []
        for ev in self.events:
            if ev['kind'] == 'chan' and ev['op'] == 'Recv' and ev['step'] == k and ev['data'][0] == 'bytes' and ev['i'] == self.plan[k][1]:
                out += ev['data'][1]
        return out

    def h_raw(self, _, a, e):
        k, i, p = cv(self.load(a[0])), cv(self.load(a[1])), self.load(a[2])
        b = self.came(k)[8 * i:8 * i + 8]
        self.write_bytes(p, b + [ZERO] * (8 - len(b)))
        return ZERO

    def h_item(self, _, a, e):
        n = cv(self.load(a[4]))
        self.event('item', step=cv(self.load(a[0])), i=cv(self.load(a[1])), have=self.read_bytes(self.load(a[2]), n), should=self.read_bytes(self.load(a[3]), n))
        return ZERO

    def h_whole(self, _, a, e):
        self.event('whole', step=cv(self.load(a[0])), data=self.content(self.load(a[1]), self.load(a[2])))
        return ZERO

    def h_summary(self, _, a, e):
        self.event('summary', on=cv(self.load(a[0])))
        return ZERO

    def all_hooks(self):
        h = super().all_hooks()
        for k in ('steps', 'kind', 'to', 'count', 'value', 'message', 'made', 'lib', 'phase', 'want', 'begin', 'end', 'got', 'raw', 'item', 'whole', 'summary'):
            h['code::' + k] = getattr(Party, 'h_' + k)
        return h


def run(p, fn, args, budget=120, **attrs):
    w = Party(p, max_traces=200)
    w.hooks = w.all_hooks()
    w.deadline = time.time() + budget
    w.limit = 0
    w.seq = (0,)
    for k, v in attrs.items():
        setattr(w, k, v)
    key = fn_key(p, 'code::' + fn)

    def go(w):
        return w.invoke(key, None, list(args))
    try:
        return w, w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
        return w, [t]


VALS = [lambda k, lo, hi, s=s: lo + (hash_of(k) * (2 * s + 1) + 977 * s) % (hi - lo + 1) for s in range(3)]


def hash_of(k):
    h = 5381
    for c in str(k):
        h = (h * 33 + ord(c)) & 0xffffffffffff
    return h


def differ(a, b):
    """False if equal terms, True with a valuation under which they differ, None if unknown"""
    d = sub(a, b)
    if d is ZERO:
        return False
    if cv(d) is not None:
        return True
    ats = wt.atoms_of([d])
    for f in VALS:
        env = {k: f(k, x.a[1] if x.a[1] is not None else 0, x.a[2] if x.a[2] is not None else (1 << 40)) for k, x in ats.items()}
        try:
            if wt.evaluate(d, env) != 0:
                return True
        except wt.NoValue:
            return None
    return None


class Judge:
    def __init__(self, r):
        self.r, self.done, self.proved, self.gaps, self.open = r, set(), 0, set(), set()
        self.fns = set()
        self.parts = 0

    def bad(self, key, rule, where, text):
        if key not in self.done and len(self.done) < 12:
            self.done.add(key)
            self.r.find(key, rule, where, text)

    def feasible(self, t):
        return small_values([(c, b) for _, c, b in t.path], []) is not None

    def join(self, ds):
        """the recorded pieces as one content: ('bytes', terms) or ('segs', …)"""
        if all(d[0] == 'bytes' for d in ds):
            return 'bytes', [b for d in ds for b in d[1]]
        ds = [d for d in ds if d != ('bytes', [])]
        if all(d[0] == 'segs' for d in ds):
            return 'segs', segs_merge([s for d in ds for s in d[1]])
        return None, None

    def compare(self, t, have, should, what, key, where):
        """contents of two lists of pieces"""
        (ka, a), (kb, b) = self.join(have), self.join(should)
        if ka is None or kb is None:
            self.open.add(what)
            return
        if ka == 'segs' or kb == 'segs':
            la = [(s, o, n) for s, o, n in (a if ka == 'segs' else [])]
            lb = [(s, o, n) for s, o, n in (b if kb == 'segs' else [])]
            na = nb = ZERO
            for _, _, n in la:
                na = add(na, n)
            for _, _, n in lb:
                nb = add(nb, n)
            if ka == 'bytes':
                na = C(len(a))
            if kb == 'bytes':
                nb = C(len(b))
            cond = [(c, v) for _, c, v in t.path]
            if t.ctx.truth(eq0(sub(na, nb))) is not True:
                env = small_values(cond + [(eq0(sub(na, nb)), False)], [])
                if env is not None:
                    self.bad(key + ':n', 'content', where, '%s: another number of bytes than given (%s)' % (what, ', '.join('%s = %s' % z for z in sorted(env.items())[:3])))
                else:
                    self.open.add(what)
                return
            if [(s, o) for s, o, _ in la] == [(s, o) for s, o, _ in lb]:
                self.proved += 1
            elif len(la) == len(lb) == 1 and (la[0][0] is not lb[0][0] or cv(sub(la[0][1], lb[0][1])) not in (None, 0)):
                if small_values(cond + [(ge0(addc(na, -1)), True)], []) is not None:
                    self.bad(key + ':c', 'content', where, '%s: other bytes than those given' % what)
            else:
                self.open.add(what)
            return
        if len(a) != len(b):
            if self.feasible(t):
                self.bad(key + ':n', 'content', where, '%s: %d bytes instead of %d' % (what, len(a), len(b)))
            return
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y)
            if d:
                if self.feasible(t):
                    self.bad(key + ':c', 'content', where, '%s: byte %d of %d is not the one given' % (what, k, len(a)))
                return
            if d is None:
                self.open.add(what)
                return
        self.proved += 1


def where(t, k):
    for ev in t.events:
        if ev['kind'] == 'chan' and ev.get('step') == k:
            return ev['fn'].split('(')[0] + ' line %d' % ev['line']
    return 'step %d' % k


def judge(j, w, t, plan, n, me, size):
    """one part of the driver"""
    evs = t.events
    total = {}          # (direction, party) -> bytes
    for k, (kind, q, c) in enumerate(plan):
        mine = [ev for ev in evs if ev.get('step') == k and ev['kind'] != 'begin']
        if not any(ev['kind'] == 'begin' and ev['step'] == k for ev in evs):
            continue
        if not any(ev['kind'] == 'end' and ev['step'] == k for ev in evs):
            continue
        what = '%s of %s items %s party %d by party %d of %d' % (NAMES[kind], c if not isinstance(c, wt.N) else 'any number of', 'to' if kind in (0, 1, 2, 6, 7) else 'from', q, me, n)
        wh = where(t, k)
        chans = [ev for ev in mine if ev['kind'] == 'chan']
        op = 'Send' if kind in (0, 1, 2, 6, 7) else 'Recv'
        key = NAMES[kind]

        def nonempty(ev):
            ka, a = j.join([ev['data']])
            return bool(a)
        for ev in chans:
            if ev['op'] != op:
                if nonempty(ev) and j.feasible(t):
                    j.bad(key + ':op', 'channel', wh, '%s: the channel of party %d is asked to %s' % (what, ev['i'], ev['op'].lower()))
            elif kind != BROADCAST and ev['i'] != q and nonempty(ev) and j.feasible(t):
                j.bad(key + ':party', 'channel', wh, '%s: uses the channel of party %d' % (what, ev['i']))
        if kind in (0, 1, 2):
            should = [ev['data'] for ev in evs if ev['kind'] == 'want' and ev['step'] == k]
            j.compare(t, [ev['data'] for ev in chans if ev['i'] == q and ev['op'] == 'Send'], should, what, key, wh)
        elif kind == SENDTO:
            j.compare(t, [ev['data'] for ev in chans if ev['i'] == q and ev['op'] == 'Send'], [w.given], what, key, wh)
        elif kind == BROADCAST:
            for i in range(n):
                j.compare(t, [ev['data'] for ev in chans if ev['i'] == i and ev['op'] == 'Send'], [w.given], what.replace('party %d' % q, 'party %d' % i, 1), key, wh)
        else:
            came = [ev['data'] for ev in chans if ev['i'] == q and ev['op'] == 'Recv']
            ka, a = j.join(came)
            per = {RFIELDS: 8, RSHARES: 8 * size, RBYTES: 1, RECVFROM: 1}[kind]
            if ka == 'bytes':
                if isinstance(c, wt.N):
                    j.open.add(what)
                elif len(a) != c * per:
                    if j.feasible(t):
                        j.bad(key + ':n', 'content', wh, '%s: takes %d bytes instead of %d from the channel' % (what, len(a), c * per))
                else:
                    j.proved += 1
            elif ka == 'segs':
                tot = ZERO
                for _, _, x in a:
                    tot = add(tot, x)
                d = eq0(sub(tot, scale(c if isinstance(c, wt.N) else C(c), per)))
                if t.ctx.truth(d) is True:
                    j.proved += 1
                else:
                    env = small_values([(z, v) for _, z, v in t.path] + [(d, False)], [])
                    if env is not None:
                        j.bad(key + ':n', 'content', wh, '%s: takes another number of bytes from the channel' % what)
                    else:
                        j.open.add(what)
            for ev in mine:
                if ev['kind'] == 'got':
                    d = eq0(sub(ev['n'], c if isinstance(c, wt.N) else C(c)))
                    if t.ctx.truth(d) is True:
                        j.proved += 1
                    else:
                        env = small_values([(z, v) for _, z, v in t.path] + [(d, False)], [])
                        if env is not None:
                            j.bad(key + ':got', 'content', wh, '%s: returns another number of items' % what)
                        else:
                            j.open.add(what)
                elif ev['kind'] == 'item':
                    j.compare(t, [('bytes', ev['have'])], [('bytes', ev['should'])], what + ', item %d' % ev['i'], key, wh)
                elif ev['kind'] == 'whole':
                    j.compare(t, [ev['data']], came, what, key, wh)
        if kind <= RBYTES:
            d = 'sent' if kind <= BYTES else 'received'
            x = scale(c if isinstance(c, wt.N) else C(c), {0: 8, 1: 8 * size, 2: 1, 3: 8, 4: 8 * size, 5: 1}[kind])
            total[d, q] = add(total.get((d, q), ZERO), x)
    return total


def opened(j, t, n):
    for op, ph, text in (('Open', 1, 'connecting'), ('Close', 3, 'closing')):
        evs = [ev for ev in t.events if ev['kind'] == 'chan' and ev['op'] == op]
        for i in range(n):
            c = sum(1 for ev in evs if ev['i'] == i and ev['phase'] == ph)
            o = sum(1 for ev in evs if ev['i'] == i and ev['phase'] != ph)
            if c == 1 and not o:
                j.proved += 1
            elif j.feasible(t):
                j.bad(op, 'once', 'frn::TcpNetwork', '%s the network of %d parties %ss the channel of party %d %d times%s' % (text, n, op.lower(), i, c, ' and once more at another time' if o else ''))


def flat(v):
    if isinstance(v, Str):
        v = v.v
    if isinstance(v, tuple) and v and v[0] in ('text', 'cat'):
        for x in (v[1] if v[0] == 'text' and isinstance(v[1], tuple) else v[1:]):
            yield from flat(x)
    elif isinstance(v, tuple) and len(v) == 2 and v[0] == 'num':
        yield v[1]
    elif isinstance(v, tuple) and len(v) == 2 and v[0] == 'chars':
        yield from flat(v[1])
    elif isinstance(v, wt.N):
        yield v
    elif isinstance(v, str):
        yield v
    else:
        yield None


def summary(j, t, total, n, me):
    """the printed summary against the totals: in every line that names numbers, the first is the party and the others
    are the bytes sent and received in the order in which the words occur"""
    on, out = False, []
    for ev in t.events:
        if ev['kind'] == 'summary':
            on = ev['on'] == 1
        elif ev['kind'] == 'print' and on:
            out += list(flat(ev['what']))
    lines, cur = [], []
    for x in out:
        if isinstance(x, str):
            ps = x.split('\n')
            for i, q in enumerate(ps):
                if i:
                    lines.append(cur)
                    cur = []
                if q:
                    cur.append(q)
        else:
            cur.append(x)
    lines.append(cur)
    shown = {}
    for l in lines:
        text = ' '.join(x for x in l if isinstance(x, str)).lower()
        nums = []
        for x in l:
            if isinstance(x, str):
                nums += [C(int(z)) for z in re.findall(r'(?<![\w.])\d+(?![\w.])', x)]
            elif x is None:
                j.open.add('summary')
                return
            else:
                nums.append(x)
        s, rc = text.find('sent'), max(text.find('received'), text.find('recv'))
        words = [d for _, d in sorted([(s, 'sent'), (rc, 'received')]) if _ >= 0]
        if not words or not nums:
            continue
        q = cv(nums[0])
        if q is None or len(nums) != 1 + len(words):
            j.open.add('summary')
            return
        for d, x in zip(words, nums[1:]):
            shown.setdefault((d, q), []).append(x)
    if not shown:
        if all(cv(x) == 0 for x in total.values()):
            return
        if total and any(True for _ in total) and not out:
            if j.feasible(t):
                j.bad('summary:none', 'summary', 'frn::TcpNetwork::PrintCommunicationSummary', 'the summary shows nothing')
        elif total:
            j.open.add('summary')
        return
    cond = [(c, v) for _, c, v in t.path]
    for d in ('sent', 'received'):
        for q in range(n):
            want = total.get((d, q), ZERO)
            have = shown.get((d, q), [])
            what = 'bytes %s %s party %d' % (d, 'to' if d == 'sent' else 'from', q)
            if not have:
                z = eq0(want)
                if t.ctx.truth(z) is True:
                    j.proved += 1
                elif small_values(cond + [(z, False)], []) is not None:
                    j.bad('summary:missing:' + d, 'summary', 'frn::TcpNetwork::PrintCommunicationSummary', 'the summary does not show the ' + what)
                continue
            for x in have:
                z = eq0(sub(x, want))
                if t.ctx.truth(z) is True:
                    j.proved += 1
                    continue
                env = small_values(cond + [(z, False)], [])
                if env is not None:
                    try:
                        a, b = wt.evaluate(part(x), env), wt.evaluate(part(want), env)
                    except wt.NoValue:
                        a, b = str(x)[:40], str(want)[:40]
                    j.bad('summary:' + d, 'summary', 'frn::TcpNetwork::PrintCommunicationSummary', 'the summary of party %d shows %s for the %s, which are %s' % (me, a, what, b))
                else:
                    j.open.add('summary')


def literals(p, w, files=('tcp_network', 'lib/net/network', '/network.h')):
    """the numbers written in the functions that carry the traffic"""
    out = set()

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) >= 4 and x[0] == 'int' and str(x[3]).isdigit():
                out.add(int(x[3]))
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for k, (f, _) in w.reached.items():
        if f and any(x in f for x in files):
            walk(p.fns[k])
    return sorted(c for c in out if 4 < c <= 70000)


def c24(tier, seed):
    r = Report('C24', 'The network of a party is interpreted abstractly from the factory on; the channels are the boundary. Content rule: the bytes a send puts on a channel equal, term by term, the serialized items, on the channel of the party addressed and no other; a receive takes exactly the announced number of bytes from the channel of the party named and returns the items in those bytes. Summary rule: the numbers printed are, as terms, the sums of the bytes sent to and received from each party. Once rule: connecting opens and closing closes each channel exactly once.')
    r.assumptions = list(ASSUME) + ['the channels carry bytes as C18 and C20 state; elements are serialized as C02 states', 'lengths up to 9 items, around every number written in the code of the network, and any length for messages of bytes']
    p = load(UNITS, ['party.cc'])
    j = Judge(r)
    lits = set()

    def go(fn, args, plan, n, me, size=1, **attrs):
        w, ts = run(p, fn, args, plan=plan, **attrs)
        j.fns |= set(where_of(w))
        j.parts += len(ts)
        lits.update(literals(p, w))
        for t in ts:
            if t.outcome in ('unsupported', 'limit', 'cut'):
                j.gaps.add('%s, party %d of %d: %s' % (fn, me, n, t.why or t.outcome))
            elif t.outcome == 'ub':
                if j.feasible(t):
                    j.bad('ub:' + t.why[:40], 'undefined', 'line %d' % t.line, '%s by party %d of %d: %s' % (fn, me, n, t.why))
            elif t.outcome in ('throw', 'exit'):
                if j.feasible(t):
                    j.bad('throw:' + fn, 'content', 'line %d' % t.line, '%s by party %d of %d fails' % (fn, me, n))
            total = judge(j, w, t, plan, n, me, size)
            if t.outcome != 'return':
                continue
            if fn == 'traffic':
                for ev in t.events:
                    if ev['kind'] == 'made':
                        for x, y, text in ((ev['id'], me, 'identifier'), (ev['n'], n, 'size')):
                            if cv(sub(x, C(y))) == 0:
                                j.proved += 1
                            elif cv(sub(x, C(y))) is not None:
                                j.bad('made:' + text, 'made', 'frn::TcpNetwork', 'the network has another %s than the one given' % text)
                summary(j, t, total, n, me)
            opened(j, t, n)
        return w, ts

    port = C(5000)
    configs = [(4, (0, 1, 3)), (6, (5,)), (7, (2,))] if tier != 'thorough' else [(4, range(4)), (5, (0, 4)), (6, (3,)), (7, (0, 2, 6)), (10, (4,))]
    for n, ids in configs:
        size = math.comb(n - 1, (n - 1) // 3)
        for me in ids:
            # every kind to and from every party, interleaved
            plan = []
            for q in range(n):
                plan += [(FIELDS, q, 2), (RFIELDS, (q + 1) % n, 3), (BYTES, q, 5), (SHARES, q, 2), (RBYTES, q, 4), (RSHARES, q, 2), (FIELDS, q, 1)]
            go('traffic', [C(me), C(n), port, ZERO, C(size)], plan, n, me, size)
        me, o = ids[0], n - 1
        for c in (0, 1, 9):
            go('traffic', [C(me), C(n), port, ZERO, C(size)], [(k, o, c) for k in range(6)], n, me, size)
        # parties nothing is exchanged with; only sent to; only received from
        go('traffic', [C(me), C(n), port, ONE, C(size)], [(FIELDS, 1, 1), (RFIELDS, 2, 2)], n, me, size)
        # messages of any number of bytes
        l1, l2 = atom('len', 0, 1 << 40), atom('rlen', 0, 1 << 40)
        go('traffic', [C(me), C(n), port, ZERO, C(size)], [(BYTES, o, l1), (BYTES, 1, 3), (FIELDS, o, 1)], n, me, size)
        go('traffic', [C(me), C(n), port, ZERO, C(size)], [(RBYTES, o, l2), (RFIELDS, 2, 1)], n, me, size)
    for n, me in ((1, 0), (2, 1), (4, 2)):
        b, c = Blob('data'), atom('len', 0, 1 << 40)
        given = ('segs', [(b, ZERO, c)])
        go('below', [C(me), C(n), port, Ptr(b, ZERO), c], [(SENDTO, q, 0) for q in range(n)] + [(BROADCAST, 0, 0), (RECVFROM, n - 1, 10), (RECVFROM, 0, 0), (SENDTO, 0, 0)], n, me, given=given)
    # lengths around the numbers written in the code
    n, me, size = 4, 1, 3
    used = set()
    for c in sorted(lits):
        for kind, per in ((FIELDS, 8), (RFIELDS, 8), (SHARES, 8 * size), (RSHARES, 8 * size), (BYTES, 1), (RBYTES, 1)):
            for x in {c - 1, c, c + 1, c // per, c // per + 1}:
                if 9 < x <= (3000 if tier == 'thorough' else 1100) // (1 if per < 20 else 2):
                    used.add((kind, x))
    for kind, x in sorted(used)[:60]:
        go('traffic', [C(me), C(n), port, ZERO, C(size)], [(kind, 2, x)], n, me, size)
    r.cov('functions', sorted(j.fns))
    r.cov('paths', j.parts)
    r.cov('obligations_discharged', j.proved)
    r.cov('lengths_from_the_code', len(used))
    if j.open:
        r.cov('undecided', sorted(j.open)[:30])
    if j.gaps:
        r.cov('not_followed', sorted(j.gaps)[:20])
    if not j.proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(j.gaps)[:4]))
    return r
