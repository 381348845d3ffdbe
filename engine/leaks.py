"""Messages against the masked messages of the definition (C15).

The messages of the code and those of the definition are closed forms over the same symbols. Identical normal forms
discharge the obligation. Otherwise both are interpreted under valuations that differ in every private value, random
seed and received value and agree in every size: an element the code sends to a party which changes with them and is
not, in all of them, one of the elements the definition sends to that party is not masked as the property demands."""
import random
import time

import oblig
from oblig import Comparer, Gen, Ground, Inconclusive, Pz, net0, ONE
from ground import Rec
from term import field

VARIANTS = 4


def vary(v, t, rng, p, prg):
    """another value of the same shape"""
    k = t[0]
    if k == 'fld':
        return rng.randrange(3, p)
    if k == 'vec' and isinstance(v, tuple):
        return tuple(vary(x, t[1], rng, p, prg) for x in v)
    if k == 'rec' and isinstance(v, Rec) and v.t.endswith('::PRG'):
        c = v.field('ctr')
        s = tuple(rng.randrange(256) for _ in range(16))
        return Rec(v.t, lambda f: s if f == 'seed' else c)
    return v


def elements(v, out):
    """the field elements in normalised messages; None if some are not determined"""
    if isinstance(v, Pz):
        out.append(None)
    elif isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'data':
            elements(v[1], out)
        else:
            for x in v:
                elements(x, out)
    elif isinstance(v, int):
        out.append(v)
    return out


class Leaks(Comparer):
    def compare(self, r, fn, sc, ss, dom, ev, facts=()):
        a = sc.sent if sc.sent is not None else net0()
        b = ss.sent if ss.sent is not None else net0()
        if field(a, 'sent') is field(b, 'sent'):
            r.obs.append(('messages sent', 'proved', ''))
            r.status = 'proved'
            return
        bad = self.refute_sent(r, fn, a, b, sc, dom)
        r.status = 'refuted' if bad else 'undecided'
        r.why = bad or 'normal forms of the messages differ; no unmasked element found in %d valuations' % r.instances

    def refute_sent(self, r, fn, a, b, sc, dom):
        ev = self.make_ev()
        ps = self.params(fn, ev)
        rng = random.Random(self.seed * 7919 + len(r.name))
        rng.consts = [x for x in self.consts if x <= 20]
        t0 = time.time()
        hints = dict(self.hints.get('*', {}))
        tries = 0
        while r.instances < self.n and tries < self.tries and time.time() - t0 < self.budget_s:
            tries += 1
            gen = Gen(rng, self.p, hints=hints)
            if 'joint' in hints:
                gen.hints = dict(hints)
                gen.hints.update(hints['joint'](rng))
            first = {n: gen.value(t, n) for n, t in ps}
            runs = []
            try:
                for k in range(VARIANTS):
                    syms = first if k == 0 else {n: vary(first[n], t, rng, self.p, None) for n, t in ps}
                    g = Ground(syms, rng, self.p, gen=lambda n: self.globval(n))
                    g.salt = k
                    if 'sharesize' in gen.hints:
                        g.sharesize = gen.hints['sharesize']
                    if dom is not ONE and g.ev(dom) != 1 or g.ev(sc.throw) != 0:
                        runs = None
                        break
                    runs.append([[elements(m, []) for m in dict(g.normal(g.ev(x), ('rec', 'NET')))['sent']] for x in (a, b)])
            except Inconclusive:
                continue
            except RecursionError:
                continue
            if not runs:
                continue
            r.instances += 1
            bad = self.unmasked(runs)
            if bad:
                q, j, total = bad
                return 'element %d of the %d sent to party %d changes with private values and is none of the masked values meant for that party, for %s' % (
                    j, total, q, ', '.join('%s=%s' % (n, oblig.brief(v)[:60]) for n, v in first.items()))
        return None

    def unmasked(self, runs):
        for q in range(min(len(x[0]) for x in runs)):
            mine = [x[0][q] for x in runs]
            if len({len(m) for m in mine}) != 1:
                continue
            meant = [x[1][q] if q < len(x[1]) else [] for x in runs]
            if len({len(m) for m in meant}) != 1:
                continue
            ok = set(zip(*meant))
            for j, s in enumerate(zip(*mine)):
                if None in s or len(set(s)) == 1 or s in ok:
                    continue
                return q, j, len(mine[0])
        return None
