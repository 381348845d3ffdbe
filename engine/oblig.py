"""Obligations: pairs code::f / spec::f of a driver whose summaries must denote the
same function (return value, refusal condition, final values of the reference
parameters, messages sent) on the domain dom::f."""
import random
import sys
import time
from term import *
import term as T
from ev import Ev, Unsupported, facts_of, Dead
from summ import summarise, net0
from ground import Ground, Gen, Inconclusive, Pz, P61, P127, Rec, Tok

sys.setrecursionlimit(20000)
START = time.time()


from prove import Prover


class Result:
    def __init__(self, name):
        self.name = name
        self.status = None        # proved / refuted / undecided
        self.obs = []             # (observable, status, detail)
        self.why = ''
        self.file = ''
        self.line = 0
        self.instances = 0
        self.wall = 0
        self.reached = []


def qname(k):
    i = k.find('(')
    return k if i < 0 else k[:i]


def find_pairs(prog):
    out = {}
    for k, f in prog.fns.items():
        if '(anonymous' in f.get('q', k) or 'lambda@' in k:
            continue
        q = qname(f.get('q', k))
        for ns in ('code', 'spec', 'dom'):
            if q.startswith(ns + '::') and '::' not in q[len(ns) + 2:]:
                out.setdefault(q[len(ns) + 2:], {})[ns] = k
    return {n: d for n, d in out.items() if 'code' in d and 'spec' in d}


def literals(prog):
    """integer constants of the functions of the repository: sizes near them are tried as well"""
    out = set()

    def go(x):
        if isinstance(x, list):
            if len(x) > 3 and x[0] == 'int' and isinstance(x[3], (int, str)):
                try:
                    v = abs(int(x[3]))
                except ValueError:
                    v = 0
                if 3 <= v <= 70000:
                    out.add(v)
            if len(x) > 4 and x[0] == 'cast' and x[3] == 'int' and isinstance(x[2], int) and prog.types[x[2]].get('w') in (8, 16):
                out.add(1 << prog.types[x[2]]['w'])         # what does not fit
            for y in x:
                if isinstance(y, (list, dict)):
                    go(y)
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (list, dict)):
                    go(y)
    for f in prog.fns.values():
        if '/src/frn/' in f.get('file', '') and f.get('body') is not None:
            go(f['body'])
    return out


class Comparer:
    def __init__(self, prog, make_ev=None, p=P61, hints=None, n=150, seed=1, budget_s=20, gkw=None, tries=4000, throwstate=False):
        self.throwstate = throwstate
        self.prog = prog
        self.make_ev = make_ev or (lambda: Ev(prog))
        self.p = p
        self.hints = hints or {}
        self.n = n
        self.seed = seed
        self.budget_s = budget_s
        self.tries = tries
        self.each_s, self.total_s = 150, 500
        self.gkw = gkw or {}
        self.consts = sorted(literals(prog))

    def check(self, name, keys):
        t0 = time.time()
        r = Result(name)
        ev = self.make_ev()
        fn = self.prog.fns[keys['code']]
        fn_s = self.prog.fns[keys['spec']]
        r.file, r.line = fn.get('file', ''), fn.get('line', 0)
        facts = ()
        dom = ONE
        try:
            if 'dom' in keys:
                sd = summarise(ev, keys['dom'])
                if sd.err:
                    raise Unsupported('domain: ' + sd.err)
                dom = to_poly(sd.ret)
                facts = tuple(dict.fromkeys(facts_of(dom)))
            sc = summarise(ev, keys['code'], facts)
            r.reached = sorted({'%s:%d %s' % (f.split('/src/')[-1], l, k.split('(')[0]) for k, (f, l) in ev.reached.items() if '/src/' in f})
            ss = summarise(ev, keys['spec'], facts)
        except Unsupported as x:
            r.status, r.why = 'undecided', str(x)
            r.wall = time.time() - t0
            return r
        r.sc, r.ss = sc, ss
        if ss.err:
            r.status, r.why = 'undecided', 'specification side: ' + ss.err
        elif sc.err:
            r.status, r.why = 'undecided', sc.err
        else:
            self.compare(r, fn, sc, ss, dom, ev, facts)
        r.wall = time.time() - t0
        return r

    def check_all(self, items, jobs=8):
        """all obligations, in forked workers (results carry no terms)"""
        import multiprocessing as mp
        global _CMP
        _CMP = self
        if jobs <= 1 or len(items) < 4:
            return [slim(self.check(n, k)) for n, k in items]
        self.warm()
        with mp.get_context('fork').Pool(min(jobs, len(items))) as pool:
            return pool.map(_one, items, chunksize=1)

    def warm(self):
        """summarise the constructors of sealed classes once, before forking"""
        ev = self.make_ev()
        from ev import Dead, Unsupported
        for k, f in list(self.prog.fns.items()):
            if '::#ctor(' in k and f.get('cls') in ev.sealed and f.get('body') is not None and len(f['params']) > 1:
                try:
                    ev.seal_summary(f['cls'], k)
                except (Dead, Unsupported):
                    pass

    def compare(self, r, fn, sc, ss, dom, ev, facts=()):
        obs = [('refusal', ('bool',), sc.throw, ss.throw)]
        if sc.ret is not None or ss.ret is not None:
            if (sc.ret is None) != (ss.ret is None):
                if sc.rett is not None or ss.rett is not None:
                    pass
            else:
                obs.append(('result', sc.rett, sc.ret, ss.ret))
        fc = {n: (t, v) for n, t, v in sc.finals}
        fs = {n: (t, v) for n, t, v in ss.finals}
        for n in fc:
            if n in fs:
                obs.append(('final value of ' + n, fc[n][0], fc[n][1], fs[n][1]))
        if self.throwstate:
            tc = {n: (t, v) for n, t, v in sc.tfinals}
            ts = {n: (t, v) for n, t, v in ss.tfinals}
            for n in tc:
                if n in ts:
                    obs.append(('value on refusal of ' + n, tc[n][0], tc[n][1], ts[n][1]))
        if not ev.shapes and (sc.sent is not None or ss.sent is not None):
            obs.append(('messages sent and received', ('rec', 'NET'), sc.sent if sc.sent is not None else net0(), ss.sent if ss.sent is not None else net0()))
        open_ = []
        for o in obs:
            # what is returned matters where neither refuses, if they refuse alike
            pre = ONE
            if not open_ and not o[0].startswith('value on refusal') and o[0] != 'refusal':
                pre = bnot(to_poly(ss.throw))
            if o[2] is o[3] or Prover().same(o[1], o[2], o[3], dom, facts, pre):
                r.obs.append((o[0], 'proved', ''))
            else:
                open_.append(o)
        if not open_:
            r.status = 'proved'
            return
        bad = self.refute(r, fn, open_, sc, ss, dom)
        if bad:
            r.status = 'refuted'
            r.why = bad
        else:
            r.status = 'undecided'
            r.why = 'normal forms of %s differ; no difference found in %d valuations' % (', '.join(o[0] for o in open_), r.instances)

    def params(self, fn, ev):
        return [(p['n'], ev.vt(ev.deref_t(p['t']))) for p in fn['params']]

    def refute(self, r, fn, open_, sc, ss, dom):
        ev = self.make_ev()
        ps = self.params(fn, ev)
        rng = random.Random(self.seed * 7919 + len(r.name))
        rng.consts = [x for x in self.consts if x <= 70]
        t0 = time.time()
        hints = dict(self.hints.get('*', {}))
        hints.update(self.hints.get(r.name, {}))
        inc = {}
        tries = 0
        last = [x(rng) for x in hints.pop('last', ())]      # costly valuations, tried once each after the others
        large = hints.pop('large', True)

        def special(**kw):
            keep = rng.consts
            for k, v in kw.items():
                setattr(rng, k, v)
            last.append(hints['joint'](rng) if 'joint' in hints else {n: [Gen(rng, self.p, hints=hints).value(t, n)] for n, t in ps})
            rng.consts, rng.force, rng.wide = keep, False, 0
        if large:
            own = [x for x in self.consts if 70 < x <= 70000]
            for big in own:
                if 'joint' in hints and big <= 900:
                    special(wide=big)
            for big in [x for x in own if x > 2000 or 'joint' not in hints][:3]:
                for _ in range(3 if 'joint' in hints else 1):
                    special(consts=[big], force=0.4 if 'joint' in hints else 1.0)
            for big in [300] + [x for x in own if x <= 2000][:3]:
                special(consts=[big], force=1.0)
        while True:
            more = r.instances < self.n and tries < self.tries and time.time() - t0 < self.budget_s
            if not more and not last:
                break
            tries += 1
            gen = Gen(rng, self.p, hints=hints)
            if not more:
                gen.hints = dict(hints)
                gen.hints.update(last.pop())
            elif 'joint' in hints:
                gen.hints = dict(hints)
                gen.hints.update(hints['joint'](rng))
            syms = {n: gen.value(t, n) for n, t in ps}
            g = Ground(syms, rng, self.p, gen=lambda n: self.globval(n))
            g.salt = tries
            if more and tries % 4:
                g.budget = 50000        # most of them cheap: what costs more must not use up the time
            for k, v in self.gkw.items():
                setattr(g, k, v)
            if 'sharesize' in gen.hints:
                g.sharesize = gen.hints['sharesize']
            if not more:
                g.CAP = 80000
                g.budget = 3000000
            try:
                if dom is not ONE and g.ev(dom) != 1:
                    continue
                r.instances += 1
                tc, ts = g.ev(sc.throw), g.ev(ss.throw)
                if isinstance(tc, Pz) and isinstance(ts, Pz):
                    continue
                if isinstance(ts, Pz):
                    continue
                if tc != ts:
                    return self.describe(fn, 'refusal', syms, 'refuses' if tc == 1 else 'does not refuse' if tc == 0 else 'depends on an indeterminate value',
                                         'refuses' if ts else 'does not refuse')
                for nm, t, a, b in open_:
                    if nm == 'refusal' or nm.startswith('value on refusal') != bool(ts):
                        continue
                    va = g.normal(g.ev(a), t)
                    vb = g.normal(g.ev(b), t)
                    if va != vb and not haspz(vb):
                        return self.describe(fn, nm, syms, va, vb)
            except Inconclusive as x:
                inc[str(x)] = inc.get(str(x), 0) + 1
            except RecursionError:
                inc['recursion'] = 1
        if inc:
            r.obs.append(('inconclusive', 'undecided', ', '.join('%s x%d' % kv for kv in sorted(inc.items(), key=lambda kv: -kv[1])[:4])))
        return None

    def globval(self, n):
        if n.args[0] == 'NPEERS':
            return 16
        raise Inconclusive('global %s' % (n.args[0],))

    def describe(self, fn, what, syms, a, b):
        ins = ', '.join('%s=%s' % (n, brief(v)) for n, v in syms.items())
        return '%s: code summary gives %s, specification %s for %s' % (what, brief(a), brief(b), ins)


def haspz(v):
    if isinstance(v, Pz):
        return True
    if isinstance(v, tuple):
        return any(haspz(x) for x in v)
    return False


def brief(v):
    if isinstance(v, Rec):
        v = {f: v.field(f) for f, _ in T.REC_FIELDS.get(v.t, ())}
    if isinstance(v, tuple):
        s = '[' + ','.join(brief(x) for x in v) + ']'
    elif isinstance(v, dict):
        s = '{' + ','.join('%s:%s' % (k, brief(x)) for k, x in v.items()) + '}'
    else:
        s = str(v)
    return s if len(s) < 300 else s[:300] + '..'


def run(prog, hints=None, verbose=False, only=None, **kw):
    out = []
    c = Comparer(prog, hints=hints, **kw)
    for n, keys in sorted(find_pairs(prog).items()):
        if only and n not in only:
            continue
        r = c.check(n, keys)
        out.append(r)
        if verbose:
            print('%-28s %-9s %5.2fs inst=%d %s' % (n, r.status, r.wall, r.instances, r.why[:600]))
            for o in r.obs:
                if o[1] == 'undecided':
                    print('      ', o)
    return out


def slim(r):
    for a in ('sc', 'ss'):
        if hasattr(r, a):
            delattr(r, a)
    return r


_CMP = None


class OutOfTime(BaseException):
    pass


def _late(sig, frame):
    raise OutOfTime()


def _one(it):
    import signal
    signal.signal(signal.SIGALRM, _late)
    signal.alarm(int(max(20, min(_CMP.each_s, START + _CMP.total_s - time.time()))))
    try:
        return slim(_CMP.check(*it))
    except OutOfTime:
        r = Result(it[0])
        r.status, r.why = 'undecided', 'not finished in the time allowed'
        return r
    except Exception:
        import traceback
        r = Result(it[0])
        r.status, r.why = 'undecided', 'internal: ' + traceback.format_exc()[-900:]
        return r
    finally:
        signal.alarm(0)
