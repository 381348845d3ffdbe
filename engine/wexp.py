"""The experiment programs (C28).

Each program is interpreted abstractly from main on; the classes of the library are the boundary: their constructions
and calls are recorded with the arguments. The command line is three unknown numbers: the conditions under which the
network is connected are compared with the documented ranges. For chosen numbers of parties, identifiers and workloads
(constants) the recorded calls must be those of the documented experiment."""
import time

import wterm as wt
from wterm import C, ZERO, ONE, sub, cv, atom, part
from word import *
from wstd import WStd
from ir import load, Broken
from report import Report
from wchecks import ASSUME, fn_key, where_of

PROGRAMS = {'exp_mult.cc': 100000, 'exp_check.cc': 100000, 'exp_input.cc': 1000000}
TOP = (1 << 64) - 1
NUMS = ('stoul', 'stoull', 'stoi', 'stol', 'stoll', 'atoi', 'atol', 'atoll', 'strtoul', 'strtoull', 'strtol', 'strtoll')


class Exp(WStd):
    given = None          # the numbers of the command line; None: unknown
    argc = 4

    # ---------------------------------------------------------- command line
    def number(self, n, xs):
        s = self.ev(xs[0])
        v = self.text(s)
        if isinstance(s, (Cell, Sp)):
            s = s.v
        if isinstance(s, Ptr) and s.o is None:
            raise UB('a missing argument is read')
        if not isinstance(v, str) or not v.startswith('<arg'):
            raise Unsupported('number from a text')
        i = int(v[4:-1])
        if n.startswith('strto') and len(xs) > 1:
            end = self.load(self.ev(xs[1]))
            if end.o is not None:
                self.store(end, Ptr(s.o, C(len(v))))
        if self.given is not None:
            return C(self.given[i - 1])
        x = atom('arg%d' % i, 0, TOP)
        if n in ('stoi', 'atoi', 'stol', 'stoll', 'strtol', 'strtoll', 'atol', 'atoll'):
            hi = (1 << 31) - 1 if n in ('stoi', 'atoi') else (1 << 63) - 1
            if not self.decide(wt.ge0(sub(C(hi), x))):
                if n.startswith('sto'):
                    raise CxxThrow(Opaque('std::out_of_range'), self.line)
                raise Unsupported('a number that does not fit')
        return x

    def std_call(self, q, ref, e):
        if q.rsplit('::', 1)[-1] in NUMS:
            return self.number(q.rsplit('::', 1)[-1], e[4])
        return super().std_call(q, ref, e)

    # ---------------------------------------------------------- the library
    def made(self, ti, what=None):
        """an unknown value of a type"""
        t = self.T(ti)
        k = t['k']
        if k in ('ref', 'rref'):
            return self.made(t['t'], what)
        if k == 'rec':
            q = t['q'].replace('std::__cxx11::', 'std::')
            if q == 'std::vector':
                return Vec([self.copyless(self.made(t['a'][0], (what[0], i) if isinstance(what, tuple) and what[1] is None else what), t['a'][0]) for i in range(self.parties)], t['a'][0])
            if q in ('std::shared_ptr', 'std::unique_ptr'):
                m = Mock(t['a'][0].__str__(), 'made')
                m.cls = self.T(t['a'][0]).get('n', '')
                m.args = []
                m.what = what
                return Sp(Ptr(m))
            if t['n'].startswith('frn::'):
                m = Mock(t['n'], t['n'])
                m.args = []
                m.what = what
                return m
            return self.default(ti)
        if k in ('int', 'bool', 'enum'):
            return self.fresh('some', 0, TOP)
        if k == 'void':
            return ZERO
        return self.default(ti)

    def copyless(self, v, t):
        return Cell(v, t) if isinstance(v, wt.N) else v

    parties = 17

    def mockfield(self, o, e):
        d = o.__dict__.setdefault('f', {})
        if e[4] not in d:
            v = self.made(e[2])
            d[e[4]] = Cell(v, e[2]) if isinstance(v, wt.N) else v
        return d[e[4]]

    def plain(self, x):
        if isinstance(x, (Cell, Sp)):
            x = x.v
        if isinstance(x, Ptr) and x.o is not None and x.i is None:
            x = x.o
        return x

    def on_call(self, name, o, args, ti):
        a = [self.plain(x) for x in args]
        ev = self.event('call', name=name, obj=o, args=a, items=[self.items(x) for x in a])
        if name == 'Share':
            k = self.n['share'] = self.n.get('share', 0) + 1
            ev['k'] = k - 1
            return self.made(ti, (k - 1, None))
        if o is None and name in ('CreateWithLocalParties', 'CreateReplicator'):
            r = self.made(ti)
            ev['result'] = self.plain(r)
            return r
        if name in ('Connect', 'Close') and self.stop == name:
            raise Exit('connected')
        if name in ('Id', 'Size', 'Threshold') and isinstance(o, Mock) and getattr(o, 'nt', None):
            return C(o.nt[name])
        return self.made(ti)

    stop = None

    def items(self, x):
        """what the elements of a list are; None: not a list"""
        if isinstance(x, Vec):
            return [self.what_of(c) for c in x.els]
        return None

    def what_of(self, c):
        c = self.plain(c)
        if isinstance(c, Vec):
            ws = {repr(self.what_of(z)) for z in c.els}
            return self.what_of(c.els[0]) if len(ws) == 1 else '?'
        if isinstance(c, Mock):
            w = getattr(c, 'what', None)
            if w is None and len(getattr(c, 'args', ())) == 1:
                a = self.plain(c.args[0])
                return ('value', cv(a)) if isinstance(a, wt.N) else '?'
            return w
        return '?'

    def free(self, q, args, e):
        f = self.p.fns.get(e[3]['k'])
        if f is not None and (f.get('file') or '').rsplit('/', 1)[-1].startswith('exp_'):
            return NotImplemented
        return self.on_call(q.rsplit('::', 1)[-1], None, args, e[2])

    def member(self, o, name, args, ref, e):
        return self.on_call(name, o, args, e[2])

    def sized(self, et, n):
        """a list of an unknown number of elements: none of them is looked at before the network is connected"""
        self.event('skipped')
        return Vec([], et)

    def loop(self, s, cond, inc, body, post):
        if self.given is None and cond is not None and not post:
            c = self.cond(self.val(cond))
            if self.ctx.truth(c) is None:
                self.event('skipped')
                return None
        return super().loop(s, cond, inc, body, post)


def run(p, budget=60, **attrs):
    w = Exp(p, None, lambda w, o, n, a, ref, e: w.member(o, n, a, ref, e), max_traces=120, mocked=lambda n: n.startswith('frn::'), unroll=20000)
    w.hooks = {'prefix': (('frn::', Exp.free),)}
    w.deadline = time.time() + budget
    for k, v in attrs.items():
        setattr(w, k, v)
    key = fn_key(p, 'main')
    two = len(p.fns[key]['params']) == 2

    def go(w):
        argv = Vec([Cell(Ptr(Str('<arg%d>' % i), ZERO)) for i in range(w.argc)] + [Cell(NULL)], None, 'arr')
        r = w.invoke(key, None, [C(w.argc), Ptr(argv, ZERO)] if two else [])
        return r
    try:
        ts = w.explore(go)
    except Unsupported as x:
        t = Trace()
        t.outcome, t.why, t.events, t.path, t.val, t.ctx, t.overflow, t.line = 'unsupported', str(x), [], [], None, Ctx(), [], 0
        ts = [t]
    return w, ts


NS = list(range(0, 19)) + [32, 65536 + 5, (1 << 32) + 7, 1 << 63, TOP]
IDS = list(range(0, 18)) + [255, 256, 65536, 1 << 32, (1 << 32) + 1, TOP]


def loads(bound):
    return [0, 1, 2, 3, 1000, 65535, 65536, 99999, 100000, 100001, 999999, 1000000, 1000001, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, TOP]


def valid(v, bound):
    return 4 <= v[0] <= 16 and v[1] < v[0] and v[2] < bound


def search(path, want, bound):
    """numbers of the command line under which the path is taken and `want` holds"""
    conds = [(part(c), b) for _, c, b in path]
    ats = wt.atoms_of([c for c, _ in conds])
    if any(not k.startswith('arg') for k in ats):
        return None, True
    for n in NS:
        e1 = {'arg1': n}
        # conditions on n alone first
        if not all(holds(c, b, e1) for c, b in conds if set(wt.atoms_of([c])) <= {'arg1'}):
            continue
        for i in IDS:
            e2 = {'arg1': n, 'arg2': i}
            if not all(holds(c, b, e2) for c, b in conds if set(wt.atoms_of([c])) <= {'arg1', 'arg2'}):
                continue
            for w in loads(bound):
                v = (n, i, w)
                if want(v) and all(holds(c, b, {'arg1': n, 'arg2': i, 'arg3': w}) for c, b in conds):
                    return v, False
    return None, False


def holds(c, b, env):
    try:
        return bool(wt.evaluate(c, env)) == b
    except wt.NoValue:
        return False


def show(v):
    return 'N = %d, id = %d, workload = %d' % v


class Judge:
    def __init__(self, r):
        self.r, self.done, self.proved, self.open, self.gaps, self.fns, self.paths = r, set(), 0, set(), set(), set(), 0

    def bad(self, key, rule, where, text):
        if key not in self.done:
            self.done.add(key)
            self.r.find(key, rule, where, text)

    def same(self, x, want, key, rule, where, text):
        x = x if isinstance(x, wt.N) else None
        if x is None:
            self.open.add(text)
        elif cv(sub(x, C(want))) == 0:
            self.proved += 1
        elif cv(x) is not None:
            self.bad(key, rule, where, '%s is %d instead of %d' % (text, cv(x), want))
        else:
            self.open.add(text)


def arguments(j, p, f, bound):
    """the ranges"""
    w, ts = run(p, stop='Connect')
    j.fns |= set(where_of(w))
    j.paths += len(ts)
    for t in ts:
        if t.outcome in ('unsupported', 'limit', 'cut'):
            j.gaps.add('%s: %s' % (f, t.why or t.outcome))
            continue
        con = [ev for ev in t.events if ev['kind'] == 'call' and ev['name'] == 'Connect']
        if con:
            v, unknown = search(t.path, lambda v: not valid(v, bound), bound)
            if v is not None:
                what = 'number of parties' if not 4 <= v[0] <= 16 else 'identifier' if v[1] >= v[0] else 'workload'
                j.bad('%s:accepts:%s' % (f, what.split()[0]), 'range', '%s line %d' % (f, con[0]['line']), 'the program connects the network with %s: the %s is outside the supported range' % (show(v), what))
            elif unknown:
                j.open.add('%s: conditions of connecting' % f)
            else:
                j.proved += 1
        elif not any('skipped' == ev['kind'] for ev in t.events):
            v, unknown = search(t.path, lambda v: valid(v, bound), bound)
            if v is not None and t.outcome != 'ub':
                j.bad('%s:refuses' % f, 'range', '%s line %d' % (f, getattr(t, 'line', 0) or 0), 'the program refuses %s' % show(v))
            elif v is not None:
                j.bad('%s:ub' % f, 'undefined', '%s line %d' % (f, t.line), 'with %s: %s' % (show(v), t.why))
            elif unknown:
                j.open.add('%s: conditions of refusing' % f)
            else:
                j.proved += 1
    for argc in (1, 2, 3):
        w, ts = run(p, stop='Connect', argc=argc)
        j.paths += len(ts)
        for t in ts:
            if t.outcome in ('unsupported', 'limit', 'cut'):
                j.gaps.add('%s: %s' % (f, t.why or t.outcome))
            elif any(ev['kind'] == 'call' and ev['name'] == 'Connect' for ev in t.events):
                j.bad('%s:argc' % f, 'range', f, 'the program runs with %d arguments' % (argc - 1))
            elif t.outcome == 'ub':
                j.bad('%s:argc' % f, 'range', '%s line %d' % (f, t.line), 'with %d arguments: %s' % (argc - 1, t.why))
            else:
                j.proved += 1


RUN = ('Run', 'Prepare', 'PrepareToReceive', 'ComputeRandomCoefficients', 'PrepareLinearCombinations', 'PrepareMsgs', 'ReconstructMsgs')
USES = ('Run', 'ReconstructMsgs', 'Connect')


def short(o):
    return o.cls.split('<')[0].rsplit('::', 1)[-1] if isinstance(o, Mock) else ''


def experiment(j, p, f, v):
    """the calls made with these numbers; returns what the parties must agree on"""
    n, me, load_ = v
    w, ts = run(p, given=v, parties=n)
    j.fns |= set(where_of(w))
    j.paths += len(ts)
    agree = None
    t3 = (n - 1) // 3
    for t in ts:
        if t.outcome in ('unsupported', 'limit', 'cut'):
            j.gaps.add('%s with %s: %s' % (f, show(v), t.why or t.outcome))
            continue
        sure = not t.path
        calls = [ev for ev in t.events if ev['kind'] in ('call', 'ctor')]
        wh = lambda ev: '%s line %d' % (f, ev['line'])
        con = [i for i, ev in enumerate(calls) if ev['kind'] == 'call' and ev['name'] == 'Connect']
        if t.outcome != 'return' or isinstance(t.val, wt.N) and t.val is not ZERO:
            if sure:
                j.bad('%s:ends' % f, 'run', '%s line %d' % (f, t.line), 'with %s the program ends early: %s' % (show(v), t.why or t.outcome))
            elif t.outcome == 'ub':
                j.bad('%s:ub' % f, 'undefined', '%s line %d' % (f, t.line), 'with %s: %s' % (show(v), t.why))
            continue
        if len(con) != 1:
            j.bad('%s:connect' % f, 'run', f, 'with %s the network is connected %d times' % (show(v), len(con)))
            continue
        con = con[0]
        net = calls[con]['obj']
        clo = [i for i, ev in enumerate(calls) if ev['kind'] == 'call' and ev['name'] == 'Close' and ev['obj'] is net]
        if len(clo) != 1:
            j.bad('%s:close' % f, 'close', f, 'with %s the network is closed %d times before the program ends' % (show(v), len(clo)))
        else:
            j.proved += 1
        port = None
        for i, ev in enumerate(calls):
            if ev['kind'] == 'ctor':
                c = ev['cls'].split('<')[0].rsplit('::', 1)[-1]
                a = [w.plain(x) for x in ev['args']]
                if c == 'ShrManipulator' and len(a) == 3:
                    for x, want, text in zip(a, (me, t3, n), ('identifier', 'threshold', 'size')):
                        j.same(x, want, '%s:manipulator:%s' % (f, text), 'threshold', wh(ev), 'with %s the %s of the share manipulator' % (show(v), text))
                elif c == 'CheckData' and len(a) == 1:
                    j.same(a[0], t3, '%s:checkdata' % f, 'threshold', wh(ev), 'with %s the threshold of the data of the check' % show(v))
                elif c == 'Replicator' and len(a) == 2:
                    for x, want, text in zip(a, (n, t3), ('size', 'threshold')):
                        j.same(x, want, '%s:replicator:%s' % (f, text), 'threshold', wh(ev), 'with %s the %s of the replicator' % (show(v), text))
                elif c == 'Correlator' and a and isinstance(a[0], wt.N):
                    j.same(a[0], me, '%s:correlator' % f, 'identity', wh(ev), 'with %s the identifier of the correlator' % show(v))
                continue
            if ev['name'] == 'CreateReplicator' and ev['args']:
                j.same(ev['args'][0], n, '%s:replicator' % f, 'threshold', wh(ev), 'with %s the size of the replicator' % show(v))
            elif ev['name'] == 'CreateWithLocalParties' and ev.get('result') is net:
                for x, want, text in zip(ev['args'], (me, n), ('identifier', 'size')):
                    j.same(x, want, '%s:network:%s' % (f, text), 'identity', wh(ev), 'with %s the %s of the network' % (show(v), text))
                port = cv(ev['args'][2]) if isinstance(ev['args'][2], wt.N) else None
            elif ev['name'] in USES and ev['obj'] is not net:
                if i < con:
                    j.bad('%s:before' % f, 'run', wh(ev), 'with %s %s::%s runs before the network is connected' % (show(v), short(ev['obj']), ev['name']))
                elif clo and i > clo[0]:
                    j.bad('%s:after' % f, 'close', wh(ev), 'with %s %s::%s runs after the network is closed' % (show(v), short(ev['obj']), ev['name']))
                else:
                    j.proved += 1
        # the work
        of = lambda cls, names: [(i, ev) for i, ev in enumerate(calls) if ev['kind'] == 'call' and ev['name'] in names and short(ev['obj']) == cls]
        gave = []
        if f == 'exp_input.cc':
            prep, runs = of('Input', ('Prepare', 'PrepareToReceive')), of('Input', ('Run',))
            own = other = 0
            ok = True
            for i, ev in prep:
                a, it = ev['args'], ev['items']
                if ev['name'] == 'Prepare':
                    own += len(it[0]) if it[0] is not None else 1
                else:
                    k = 1 if len(a) == 1 else cv(a[1]) if isinstance(a[1], wt.N) else None
                    d = cv(a[0]) if isinstance(a[0], wt.N) else None
                    if k is None or d is None:
                        ok = False
                    elif d != 0 and k:
                        j.bad('%s:dealer' % f, 'work', wh(ev), 'with %s inputs of party %d are awaited' % (show(v), d))
                    else:
                        other += k
            if ok:
                want = (load_, 0) if me == 0 else (0, load_)
                if (own, other) != want:
                    j.bad('%s:work' % f, 'work', f, 'with %s the party gives %d inputs and awaits %d of party 0' % (show(v), own, other))
                else:
                    j.proved += 1
            order(j, f, v, prep, runs, 'Input')
        else:
            prep, runs = of('Mult', ('Prepare',)), of('Mult', ('Run',))
            k = 0
            for i, ev in prep:
                x, y = ev['items'][:2]
                single = x is not None and y is not None and len(x) == len(y) and ev['args'] and isinstance(ev['args'][0], Vec) and ev['args'][0].els and not isinstance(w.plain(ev['args'][0].els[0]), Vec)
                if single:
                    xs, ys = [ev['args'][0]], [ev['args'][1]]
                else:
                    xs, ys = (list(a.els) if isinstance(a, Vec) else [None] for a in ev['args'][:2])
                if len(xs) != len(ys):
                    j.bad('%s:pairs' % f, 'work', wh(ev), 'with %s %d first and %d second factors are given' % (show(v), len(xs), len(ys)))
                k += len(xs)
                gave += [(w.what_of(a), w.what_of(b)) for a, b in zip(xs, ys)]
            if k != load_:
                j.bad('%s:work' % f, 'work', f, 'with %s %d products are prepared' % (show(v), k))
            else:
                j.proved += 1
            for a, b in gave:
                for x in (a, b):
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int) and x[0] != 'value':
                        if x[1] != me:
                            j.bad('%s:share' % f, 'work', f, 'with %s the party multiplies the shares of party %d' % (show(v), x[1]))
                        else:
                            j.proved += 1
            order(j, f, v, prep, runs, 'Mult')
            gave = [(a[0], b[0]) if isinstance(a, tuple) and isinstance(b, tuple) else None for a, b in gave]
        shares = []
        for ev in calls:
            if ev['kind'] == 'call' and ev['name'] == 'Share' and ev['args']:
                shares.append((w.what_of(ev['args'][0]), getattr(ev['args'][1], 'cls', '') if len(ev['args']) > 1 else ''))
        if f == 'exp_check.cc':
            steps = of('Check', RUN)
            names = [ev['name'] for _, ev in steps]
            for s in ('ComputeRandomCoefficients', 'PrepareLinearCombinations', 'PrepareMsgs', 'ReconstructMsgs'):
                if names.count(s) != 1:
                    j.bad('%s:check' % f, 'check', f, 'with %s Check::%s is called %d times' % (show(v), s, names.count(s)))
            if len(names) == len(set(names)) == 4:
                at = {ev['name']: i for i, ev in steps}
                if not at['ComputeRandomCoefficients'] < at['PrepareLinearCombinations'] < at['ReconstructMsgs'] or not at['ComputeRandomCoefficients'] < at['PrepareMsgs'] < at['ReconstructMsgs']:
                    j.bad('%s:check' % f, 'check', f, 'the steps of the check are run in another order')
                elif runs and at['ComputeRandomCoefficients'] < runs[-1][0]:
                    j.bad('%s:check' % f, 'check', f, 'the check starts before the products are computed')
                else:
                    j.proved += 1
            data = {}
            for ev in calls:
                if ev['kind'] == 'ctor':
                    c = ev['cls'].rsplit('::', 1)[-1]
                    if c in ('Mult', 'Check'):
                        data[c] = [w.plain(x) for x in ev['args'] if short(w.plain(x)) == 'CheckData']
            if len(data.get('Mult', ())) == len(data.get('Check', ())) == 1:
                if data['Mult'][0] is not data['Check'][0]:
                    j.bad('%s:data' % f, 'check', f, 'the check is given other data than those the products were recorded in')
                else:
                    j.proved += 1
        for ev in calls:
            if ev['kind'] == 'ctor' and ev['cls'].rsplit('::', 1)[-1] in ('Mult', 'Check', 'Input', 'InputSetup'):
                nets = [w.plain(x) for x in ev['args'] if 'Network' in getattr(w.plain(x), 'cls', '')]
                if nets and nets[0] is not net:
                    j.bad('%s:net' % f, 'run', wh(ev), 'a protocol is given another network than the one connected')
        agree = (port, tuple(shares), tuple(gave))
    return agree


def order(j, f, v, prep, runs, cls):
    if len(runs) != 1:
        j.bad('%s:runs' % f, 'run', f, 'with %s %s::Run is called %d times' % (show(v), cls, len(runs)))
    elif prep and prep[-1][0] > runs[0][0]:
        j.bad('%s:late' % f, 'run', f, 'with %s %s is prepared after its run' % (show(v), cls))
    else:
        j.proved += 1


def c28(tier, seed):
    r = Report('C28', 'Every experiment program is interpreted abstractly from main on. Range rule: the conditions of every path that reaches Network::Connect imply the documented ranges of the three numbers, and no path with numbers in the ranges ends before. Call rules, for chosen constants: network, replicator, manipulator, correlator and check data are made with the identifier, the size and (n-1)/3; all parties give the same base port and the same secrets; each party uses its own share; exactly the requested number of inputs or products is prepared and run once, between Connect and the only Close.')
    r.assumptions = list(ASSUME) + ['the classes of the library are the boundary: what their functions return is unknown', 'the arguments are decimal numbers that fit 64 bits; anything else makes std::stoul throw', 'assertions are compiled in, as the build of the repository does']
    j = Judge(r)
    for f, bound in PROGRAMS.items():
        p = load([f], [])
        arguments(j, p, f, bound)
        combos = [(4, range(4), 3)] + [(n, (0, n // 2 + n % 3, n - 1), (1, 2, 0)[n % 3]) for n in range(5, 17)]
        if tier == 'thorough':
            combos = [(n, range(n), 1 + n % 4) for n in range(4, 17)] + [(4, (0, 3), 40)]
        ports = set()
        for n, ids, load_ in combos:
            seen = {}
            for me in ids:
                a = experiment(j, p, f, (n, me, load_))
                if a is not None:
                    seen[me] = a
                    ports.add(a[0])
            if len({a[0] for a in seen.values()}) > 1:
                j.bad('%s:port' % f, 'port', f, 'parties of the same experiment use the base ports %s' % ', '.join(sorted({str(a[0]) for a in seen.values()})))
            elif seen and None not in ports:
                j.proved += 1
            if f != 'exp_input.cc':
                if len({a[1:] for a in seen.values()}) > 1:
                    j.bad('%s:secrets' % f, 'work', f, 'parties of the same experiment do not use shares of the same secrets')
                elif seen:
                    j.proved += 1
    r.cov('functions', sorted(j.fns))
    r.cov('paths', j.paths)
    r.cov('obligations_discharged', j.proved)
    if j.open:
        r.cov('undecided', sorted(j.open)[:30])
    if j.gaps:
        r.cov('not_followed', sorted(j.gaps)[:20])
    if not j.proved and not r.findings:
        raise Broken('nothing could be analysed: %s' % '; '.join(sorted(j.gaps)[:4]))
    return r
