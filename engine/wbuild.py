"""Building and connecting networks (C22, C23)."""
import itertools
import time

import wterm as wt
from wterm import C, ZERO, ONE, add, sub, addc, scale, cv, atom, ge0, eq0, part
from word import *
from ir import load, Broken
from report import Report
from wchecks import ASSUME, fn_key, where_of
from wnet import Net, small_values, obligations, refutes

UNITS = ['lib/net/builder.cc', 'lib/net/channel.cc', 'lib/net/connector.cc', 'lib/net/sysi.cc', 'lib/tools.cc']
LOGIC = ('std::logic_error', 'std::invalid_argument', 'std::domain_error', 'std::length_error', 'std::out_of_range')
ID, SIZE, TCP, FAKE, PORT, FILE, LOCAL, LOG, ID2, SIZE2 = range(10)


class Build(Net):
    """descriptions of networks; the operating system always succeeds"""
    seq = ()
    lines = 0
    opts = {}

    def reset(self):
        super().reset()
        self.opens = None
        self.net = None

    def ok(self, name):
        return True

    def h_steps(self, _, a, e):
        return C(len(self.seq))

    def h_step(self, _, a, e):
        return C(self.seq[cv(self.load(a[0]))])

    def h_option(self, _, a, e):
        return self.opts[cv(self.load(a[0]))]

    def h_file(self, _, a, e):
        return Str(('file',))

    def h_logged(self, _, a, e):
        self.event('logged')
        return ZERO

    def h_opening(self, _, a, e):
        self.event('opening', k=self.load(a[0]))
        return ZERO

    def h_channel(self, _, a, e):
        k = cv(self.load(a[0]))
        c = self.channels
        if c is None:
            raise Unsupported('the channels of the network are not found')
        if k >= len(c):
            raise Cut()
        return self.target(c[k].v)

    def h_opened(self, _, a, e):
        self.event('opened')
        return ZERO

    def line_read(self, st, k):
        return self.lines != 'closed' and k < self.lines

    def opaque_call(self, n, o, ref, xs, e):
        if 'fstream' in o.cls and n in ('is_open', 'good', 'operator bool', 'fail', 'operator!', 'bad'):
            good = self.lines != 'closed' and getattr(o, 'good', True)
            return ONE if good == (n in ('is_open', 'good', 'operator bool')) else ZERO
        return super().opaque_call(n, o, ref, xs, e)

    def h_built(self, _, a, e):
        self.channels = self.parts_of(a[0], 'Channel')
        self.event('built', id=self.load(a[1]), n=self.load(a[2]), channels=self.parts_of(a[0], 'Channel'), net=a[0])
        return ZERO

    def parts_of(self, o, cls):
        """the number of objects of class cls held in a list of the network"""
        if isinstance(o, Ptr):
            o = self.target(o)
        for x in o.f.values():
            if isinstance(x, Vec):
                if all(isinstance(y, Sp) and y.v.o is not None and isinstance(y.v.o, Rec) and any(b.endswith('::' + cls) for b in self.bases(y.v.o.cls)) for y in x.els):
                    return x.els
        return None

    def all_hooks(self):
        h = super().all_hooks()
        h['nogen'] = True
        for k in ('steps', 'step', 'option', 'file', 'logged', 'built', 'opening', 'opened', 'channel'):
            h['code::' + k] = getattr(Build, 'h_' + k)
        return h


def run(p, fn, args, budget=60, **attrs):
    w = Build(p)
    w.hooks = w.all_hooks()
    w.deadline = time.time() + budget
    w.limit = 0
    for k, v in attrs.items():
        setattr(w, k, v)
    key = fn_key(p, 'code::' + fn)

    def go(w):
        return w.invoke(key, None, list(args))
    try:
        return w, w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow = 'unsupported', str(x), [], [], None, Ctx(), []
        return w, [t]


def sequences():
    """orders in which the options are set"""
    out = []
    for k in (3, 2, 1, 0):
        for c in itertools.permutations((ID, SIZE, FILE), k):
            for loc in ((), (LOCAL,)):
                out.append((PORT,) + c + loc + (TCP,))
                if loc and k == 3:
                    out.append((TCP,) + loc + c + (PORT, LOG))
    base = (ID, SIZE, FILE)
    for ty in ((), (TCP,), (FAKE,), (FAKE, TCP), (TCP, FAKE)):
        for po in ((), (PORT,)):
            for lo in ((), (LOG,)):
                out.append(ty + base + po + lo)
                out.append(po + (LOCAL, SIZE, ID) + lo + ty)
    # an option set again
    out += [(ID, SIZE, LOCAL, TCP, SIZE2), (SIZE, ID, LOCAL, TCP, ID2), (ID, SIZE2, SIZE, FILE, TCP), (SIZE, FILE, SIZE2, ID, TCP), (FILE, SIZE2, ID, SIZE, TCP), (SIZE2, ID, SIZE, TCP, FILE),
            (SIZE, FILE, ID, TCP, SIZE2, ID2)]
    return list(dict.fromkeys(out))


def describe(seq, n, lines, x):
    """the conditions under which a description is complete and consistent: [(condition, wanted value, what is wrong otherwise)]"""
    conds = []

    def lacks(what):
        conds.append((ZERO, True, what))
    ids, sizes = [s for s in seq if s in (ID, ID2)], [s for s in seq if s in (SIZE, SIZE2)]
    if not ids:
        lacks('the identifier is not given')
    if not sizes:
        lacks('the size is not given')
    ty = [s for s in seq if s in (TCP, FAKE)]
    if not ty or ty[-1] == FAKE:
        lacks('no supported transport is given')
    i = x['id'] if ids and ids[-1] == ID else x.get('id2')
    m = n if sizes and sizes[-1] == SIZE else x.get('n2')
    if ids:
        conds.append((ge0(i), True, 'the identifier is negative'))
        if sizes:
            conds.append((ge0(addc(sub(C(m), i), -1)), True, 'the identifier is not below the size'))
    if PORT in seq:
        conds.append((ge0(addc(x['port'], -1025)), True, 'the base port is below 1025'))
        conds.append((ge0(sub(C(65535), x['port'])), True, 'the base port is above 65535'))
    if LOCAL not in seq:
        if FILE not in seq:
            lacks('no addresses are given')
        elif sizes and lines != m:
            lacks('there is not exactly one address per party')
    return conds


def c22(tier, seed):
    r = Report('C22', 'Path-condition analysis of the builder: every order of setting the options, and every subset of them, is interpreted abstractly with an unknown identifier and base port. A path that ends with a network must imply that the description is complete and consistent (each condition is discharged from the facts of the path); one that ends with an exception must be explained by a defect of the description and throw a logic error. The built network is compared with the description.')
    r.assumptions = list(ASSUME) + ['networks of up to %d parties and connection files of up to %d lines; a port derived from the base port may still be refused when the network is built' % ((5, 6) if tier == 'thorough' else (3, 4)),
                                    'well-formed addresses']
    p = load(UNITS, ['build.cc'])
    idt, port = atom('id', -(1 << 31), (1 << 31) - 1), atom('port', -(1 << 31), (1 << 31) - 1)
    proved, parts, gaps, undecided, fns, done = 0, 0, set(), {}, set(), set()
    built = 0

    def report(seq, n, lines, rule, text, env, where):
        if text in done:
            return
        done.add(text)
        names = 'LocalPeerId Size TransportType(tcp) TransportType(fake) BasePort ConnectionFile AllPartiesLocal Logger LocalPeerId Size'.split()
        vals = {k: v for k, v in (env or {}).items() if k in ('id', 'port')}
        r.find('%s:%s' % (rule, text[:70]), rule, where, '%s [%s; size %d%s%s]' % (text, ', '.join(names[s] for s in seq), n, ', %d lines' % lines if FILE in seq else '', ''.join(', %s %d' % x for x in sorted(vals.items()))))

    N = (1, 2, 3, 5) if tier == 'thorough' else (1, 3)
    for seq in sequences():
        twice = ID2 in seq or SIZE2 in seq
        for n in N:
            for lines in ((n, n - 1, n + 1) if FILE in seq else (0,)):
                x = {'id': idt, 'port': port, 'id2': C(n), 'n2': n + 1} if SIZE2 in seq else {'id': idt, 'port': port, 'id2': C(n)}
                w, ts = run(p, 'build', [idt, C(n), port], seq=seq, lines=lines, opts={seq.index(s): (C(x['n2']) if s == SIZE2 else x['id2']) for s in seq if s in (ID2, SIZE2)})
                fns |= set(where_of(w))
                parts += len(ts)
                defects = describe(seq, n, lines, x)
                for t in ts:
                    conds = [(c, b) for _, c, b in t.path]
                    if t.outcome in ('unsupported', 'limit', 'cut'):
                        gaps.add('%s: %s' % (seq, t.why or t.outcome))
                    elif t.outcome == 'ub':
                        env = small_values(conds, [])
                        if env is not None:
                            report(seq, n, lines, 'undefined', t.why, env, 'builder')
                    elif t.outcome == 'return':
                        built += 1
                        for c, want, text in defects:
                            if t.ctx.truth(c) is want:
                                proved += 1
                                continue
                            env = small_values(conds + [(c, not want)], []) if cv(c) is None else small_values(conds, [])
                            if env is not None:
                                report(seq, n, lines, 'refuse', 'a network is built although ' + text, env, 'frn::lib::net::Network::Builder::Build')
                            else:
                                undecided['build: ' + text] = undecided.get('build: ' + text, 0) + 1
                        b = [ev for ev in t.events if ev['kind'] == 'built'][-1]
                        i = x['id2'] if ID2 in seq and (seq.index(ID2) > seq.index(ID)) else idt
                        m = x['n2'] if SIZE2 in seq and (SIZE not in seq or seq.index(SIZE2) > seq.index(SIZE)) else n
                        for got, want, text in ((b['id'], i, 'the network has another identifier than the one given'), (b['n'], C(m), 'the network has another size than the one given')):
                            d = eq0(sub(got, want))
                            if t.ctx.truth(d):
                                proved += 1
                            else:
                                env = small_values(conds + [(d, False)], []) if cv(d) is None else small_values(conds, [])
                                if env is not None:
                                    report(seq, n, lines, 'built', text, env, 'frn::lib::net::Network')
                        if b['channels'] is not None:
                            proved += 1
                            if len(b['channels']) != m and SIZE in seq:
                                report(seq, n, lines, 'built', 'the network has %d channels for %d parties' % (len(b['channels']), m), small_values(conds, []), 'frn::lib::net::Network')
                    elif t.outcome == 'throw':
                        cls = w.exc_class(t.val)
                        bad = [d for d in defects if cv(d[0]) == 0]
                        # explained by a defect?
                        if not bad and not twice:
                            extra = [(c, want) for c, want, _ in defects] + [(ge0(sub(C(60000), port)), True)]
                            env = small_values(conds + extra, []) if not (FILE in seq and lines != n) else None
                            if env is not None:
                                report(seq, n, lines, 'accept', 'a complete and consistent description is refused (%s at line %d)' % (cls.split('::')[-1], t.line), env, 'builder line %d' % t.line)
                            else:
                                proved += 1
                        if cls not in LOGIC:
                            env = None
                            for c, want, text in defects:
                                env = small_values(conds, []) if cv(c) == 0 else small_values(conds + [(c, not want)], [])
                                if env is not None:
                                    report(seq, n, lines, 'refuse', 'a description is refused with %s instead of a logic error: %s' % (cls, text), env, 'line %d' % t.line)
                                    break
                            else:
                                proved += 1
                        else:
                            proved += 1
    # a connection file that cannot be read
    w, ts = run(p, 'build', [idt, C(3), port], seq=(ID, SIZE, FILE, TCP), lines='closed')
    for t in ts:
        if t.outcome == 'return' and [ev for ev in t.events if ev['kind'] == 'built']:
            env = small_values([(c, b) for _, c, b in t.path], [])
            if env is not None:
                report((ID, SIZE, FILE, TCP), 3, 0, 'refuse', 'a network is built although the connection file cannot be read', env, 'frn::lib::net::Network::Builder::ConnectionFile')
    used_values(r, p, report, fns, gaps)
    r.cov('functions', sorted(fns))
    r.cov('orders of setting the options', len(sequences()))
    r.cov('paths', parts)
    r.cov('paths that build a network', built)
    r.cov('obligations_discharged', proved)
    if undecided:
        r.cov('undecided', sorted('%s (%d)' % z for z in undecided.items())[:30])
    if gaps:
        r.cov('not_followed', sorted(gaps)[:20])
    if not proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(gaps)[:4]))
    return r


class End:
    """what opening one channel does"""
    def __init__(self):
        self.role, self.port, self.ip, self.line, self.fn = 'local', None, None, 0, ''
        self.known = True


def ends(w, t):
    """per channel what opening it does"""
    out = {}
    cur = None
    for ev in t.events:
        k = ev['kind']
        if k == 'opening':
            cur = out.setdefault(cv(ev['k']), End())
        elif k == 'opened':
            cur = None
        elif cur is not None and k in ('connect', 'bind', 'listen'):
            cur.line, cur.fn = ev['line'], ev['fn'].split('(')[0]
            if k == 'connect':
                cur.role = 'client' if cur.role == 'local' else 'both'
            elif k == 'listen':
                cur.role = 'server' if cur.role == 'local' else 'both'
            if k != 'listen':
                a = ev['addr'] or {}
                p = a.get('sin_port')
                if p is None:
                    cur.known = False
                else:
                    cur.port = number(t.ctx, p)
                    cur.raw = p
                cur.ip = a.get('ip')
    return out


def number(ctx, p):
    """the port number in a sin_port, which has the other byte order"""
    def swap(x):
        return add(ctx.quo(ctx.rem(x, 65536), 256), scale(ctx.rem(x, 256), 256))
    if cv(p) is not None:
        v = cv(p) & 0xffff
        return C((v >> 8) | ((v & 255) << 8))
    ats = wt.atoms_of([p])
    base = [a for k, a in ats.items() if k == 'port']
    if len(ats) == 1 and base:
        try:
            v = int(wt.evaluate(p, {'port': 5000})) & 0xffff
        except wt.NoValue:
            return None
        q = add(base[0], C(((v >> 8) | ((v & 255) << 8)) - 5000))
        if sub(swap(q), p) is ZERO:
            return q
    return None


def value(e, base):
    """the port number for a base port, or None"""
    if e.port is not None:
        try:
            return wt.evaluate(e.port, {'port': base})
        except wt.NoValue:
            return None
    try:
        v = int(wt.evaluate(e.raw, {'port': base})) & 0xffff
        return (v >> 8) | ((v & 255) << 8)
    except (wt.NoValue, AttributeError):
        return None


def used_values(r, p, report, fns, gaps):
    """the addresses, the base port and the logger of the built network are the given ones, or the defaults"""
    port = atom('port', -(1 << 31), (1 << 31) - 1)
    n = 3
    given = {}
    for i in range(n):
        for seq in ((ID, SIZE, PORT, FILE, TCP), (ID, SIZE, FILE, TCP), (ID, SIZE, PORT, LOCAL, TCP, LOG)):
            w, ts = run(p, 'ends', [C(i), C(n), port], seq=seq, lines=n)
            fns |= set(where_of(w))
            gaps |= set('use of the values: ' + t.why for t in ts if t.outcome in ('unsupported', 'limit'))
            for t in ts:
                if t.outcome != 'return':
                    continue
                es = ends(w, t)
                for j, e in es.items():
                    if e.role == 'client' and e.ip is not None and not addressed(e, j, LOCAL in seq):
                        report(seq, n, n, 'built', 'party %d connects to party %d at another address than the one given: %s' % (i, j, str(e.ip)[:60]), {}, '%s line %d' % (e.fn, e.line))
                    if e.role in ('client', 'server') and e.known:
                        if PORT in seq:
                            v = [value(e, b) for b in (5000, 20000)]
                            if None not in v:
                                if v[1] - v[0] != 15000:
                                    report(seq, n, n, 'built', 'the port between parties %d and %d does not follow the given base port' % (i, j), {'port': 20000}, '%s line %d' % (e.fn, e.line))
                                given.setdefault((i, j), v[0] - 5000)
                        else:
                            v = value(e, 0)
                            if v is not None and (i, j) in given and v != 9876 + given[i, j]:
                                report(seq, n, n, 'built', 'without a base port the default 9876 is not used: port %d between parties %d and %d' % (v, i, j), {}, '%s line %d' % (e.fn, e.line))
                r.cov('ends of connections compared with the description', len(es))
                if LOG in seq:
                    b = [ev for ev in t.events if ev['kind'] == 'built'][-1]
                    o = b['net']
                    o = w.target(o) if isinstance(o, Ptr) else o
                    logs = [x.v.o.cls for x in o.f.values() if isinstance(x, Sp) and isinstance(x.v.o, Rec) and any(c.endswith('::Logger') for c in w.bases(x.v.o.cls))]
                    if logs and 'code::Recorder' not in logs:
                        report(seq, n, n, 'built', 'the network does not use the logger that was given', {}, 'frn::lib::net::Network::Builder::Build')


def addressed(e, j, local):
    s = str(e.ip)
    if local:
        return any(x in s for x in ('0.0.0.0', '127.0.0.1', 'localhost'))
    if not s.startswith('ip:'):
        return True
    return s == "ip:('line', ('file',), %d)" % j or "'line'" not in s and "0.0.0.0" not in s and '127.0.0.1' not in s


def c23(tier, seed):
    r = Report('C23', 'The network of every party is built abstractly with an unknown base port, and each of its channels is opened over a model of the system calls. Role rule: for every pair one end connects and the other listens, and the own channel makes no connection. Port rule: the port numbers of both ends are the same term, the terms of different pairs differ for every base port, and at every bind and connect the path conditions imply a port in 1025..65535. Address rule: the connecting end uses the address listed for the other party.')
    big = [(16, range(16))] if tier == 'thorough' else [(16, (0, 1, 7, 15))]
    r.assumptions = list(ASSUME) + ['networks of 1 to 6 parties, of 16 parties, and of sizes just above the numbers written in the code; the base port is arbitrary']
    p = load(UNITS, ['build.cc'])
    port = atom('port', -(1 << 31), (1 << 31) - 1)
    proved, parts, gaps, undecided, fns, done = 0, 0, set(), {}, set(), set()

    def bad(key, rule, where, text):
        if key not in done:
            done.add(key)
            r.find(key, rule, where, text)

    # sizes around the numbers written in the code that builds the network
    w, _ = run(p, 'ends', [C(0), C(2), port], seq=(ID, SIZE, TCP, PORT, FILE), lines=2)
    from wparty import literals
    lits = literals(p, w, ('lib/net/builder', 'lib/net/network', 'lib/net/connector', 'lib/net/channel'))
    near = [c for c in lits if 6 < c <= 64][:4]
    big += [(c + 4, [x for x in (0, 1, 2, c - 1, c, c + 1, c + 2) if x < c + 4]) for c in near] + ([(20, (0, 1, 10, 19))] if tier == 'thorough' else [])
    for n, ids in [(n, range(n)) for n in (1, 2, 3, 4, 5, 6)] + big:
        tab = {}
        for i in ids:
            for seq in ((ID, SIZE, TCP, PORT, FILE), (LOCAL, PORT, SIZE, TCP, ID)):
                if n > 4 and LOCAL in seq:
                    continue
                w, ts = run(p, 'ends', [C(i), C(n), port], seq=seq, lines=n)
                fns |= set(where_of(w))
                parts += len(ts)
                gaps |= set('%d parties: %s' % (n, t.why or t.outcome) for t in ts if t.outcome in ('unsupported', 'limit'))
                for t in ts:
                    if t.outcome == 'ub':
                        env = small_values([(c, b) for _, c, b in t.path], [])
                        if env is not None:
                            bad('undefined', 'undefined', 'building', 'party %d of %d: %s' % (i, n, t.why))
                    es = ends(w, t)
                    conds = [(c, b) for _, c, b in t.path]
                    for j, e in es.items():
                        proved += range_rule(r, t, e, conds, bad, undecided, 'party %d of %d to party %d' % (i, n, j))
                    if t.outcome == 'return':
                        for j, e in es.items():
                            tab[(i, j)] = e
                        if len(es) != n:
                            gaps.add('channels of party %d of %d' % (i, n))
                        for j, e in es.items():
                            if e.role == 'client' and e.ip is not None:
                                if addressed(e, j, LOCAL in seq):
                                    proved += 1
                                else:
                                    bad('address', 'address', '%s line %d' % (e.fn, e.line), 'party %d of %d connects to party %d at %s' % (i, n, j, str(e.ip)[:60]))
        # roles and ports of both ends
        for (i, j), e in sorted(tab.items()):
            at = '%s line %d' % (e.fn, e.line)
            if i == j:
                proved += 1
                if e.role != 'local':
                    bad('self', 'role', at, 'party %d of %d talks to itself through a socket' % (i, n))
                continue
            if e.role in ('local', 'both'):
                bad('role-local', 'role', at or 'building', 'party %d of %d %s party %d' % (i, n, 'makes no connection to' if e.role == 'local' else 'both connects to and listens for', j))
                continue
            f = tab.get((j, i))
            if f is None or i > j:
                continue
            if f.role == e.role:
                bad('role', 'role', at, 'parties %d and %d of %d are both %ss' % (i, j, n, e.role))
            else:
                proved += 1
            if e.port is not None and f.port is not None and sub(e.port, f.port) is ZERO:
                proved += 1
            else:
                for b in (5000, 20000, 1025):
                    u, v = value(e, b), value(f, b)
                    if u is not None and v is not None and u != v:
                        bad('port-differs', 'port', at, 'parties %d and %d of %d use ports %d and %d (base port %d)' % (i, j, n, u, v, b))
                        break
                else:
                    undecided['same port'] = undecided.get('same port', 0) + 1
        # different pairs, different ports
        pairs = sorted((k, e) for k, e in tab.items() if k[0] < k[1] and e.role in ('client', 'server'))
        seen = {}
        for k, e in pairs:
            if e.port is not None:
                if e.port.u in seen:
                    bad('port-shared', 'port', '%s line %d' % (e.fn, e.line), 'the pairs %s and %s of %d parties use the same port' % (seen[e.port.u], k, n))
                for l in seen:
                    proved += 1
                seen[e.port.u] = k
                # all terms are base + constant, so terms that differ differ for every base port
                if cv(sub(e.port, port)) is None and cv(e.port) is None:
                    undecided['distinct ports'] = undecided.get('distinct ports', 0) + 1
        for b in (1025, 5000, 60000):
            vals = {}
            for k, e in pairs:
                v = value(e, b)
                if v is not None:
                    if v in vals and vals[v] != k:
                        bad('port-shared', 'port', '%s line %d' % (e.fn, e.line), 'the pairs %s and %s of %d parties use the same port %d' % (vals[v], k, n, v))
                    vals[v] = k
    # a single connection
    for fn in ('client', 'server'):
        w, ts = run(p, fn, [port])
        fns |= set(where_of(w))
        parts += len(ts)
        gaps |= set('%s: %s' % (fn, t.why or t.outcome) for t in ts if t.outcome in ('unsupported', 'limit'))
        for t in ts:
            conds = [(c, b) for _, c, b in t.path]
            for j, e in ends(w, t).items():
                proved += range_rule(r, t, e, conds, bad, undecided, fn)
                for b in (1025, 5000, 65535):
                    v = value(e, b)
                    if v is not None and v != b:
                        bad('port-other', 'port', '%s line %d' % (e.fn, e.line), 'a connection for port %d uses port %d' % (b, v))
    r.cov('functions', sorted(fns))
    r.cov('paths', parts)
    r.cov('obligations_discharged', proved)
    if undecided:
        r.cov('undecided', sorted('%s (%d)' % z for z in undecided.items())[:30])
    if gaps:
        r.cov('not_followed', sorted(gaps)[:20])
    if not proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(gaps)[:4]))
    return r


def range_rule(r, t, e, conds, bad, undecided, who):
    if e.role == 'local' and e.port is None:
        return 0
    n = 0
    for lo in (True, False):
        if e.port is not None:
            c = ge0(addc(e.port, -1025)) if lo else ge0(sub(C(65535), e.port))
            if t.ctx.truth(c) is True:
                n += 1
                continue
            env = small_values(conds + [(c, False)], []) if cv(c) is None else small_values(conds, [])
        else:
            # the port number is not a simple term: look for a valuation that is outside
            env = None
            for b in (0, 80, 1024, 65536, 65535, 65600, -1):
                x = small_values(conds + [(eq0(addc(atom('port', -(1 << 31), (1 << 31) - 1), -b)), True)], [])
                v = value(e, b)
                if x is not None and v is not None and (v < 1025 or v > 65535 or b < 1025 or b > 65535):
                    env = x
                    break
        if env is not None:
            bad('range', 'port', '%s line %d' % (e.fn, e.line), '%s uses a port %s [port=%s]' % (who, 'below 1025' if lo else 'above 65535', env.get('port', '?')))
        else:
            undecided['range'] = undecided.get('range', 0) + 1
    return n
