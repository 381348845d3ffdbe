"""The check of every property."""
import itertools
import ir
from report import Report

P61 = (1 << 61) - 1

EQ = ('Functions of the current source are summarised for all inputs by abstract interpretation over normal forms '
      '(value numbers with closed forms for loops); the summary of each code:: entry must denote the same function as the '
      'summary of the definition written for the property. Identical normal forms discharge an obligation; a difference that '
      'shows in an interpretation of the two closed forms refutes it; otherwise it stays undecided (reported below, no verdict).')
ASM = ['integers used for sizes, counts and indices do not overflow', 'reference parameters do not alias',
       'loops terminate', 'library containers and algorithms behave as specified by the C++ standard']


def equiv(pid, drivers, units=(), hints=None, rule=None, **kw):
    def go(tier, seed):
        import oblig
        rep = Report(pid, EQ)
        rep.assumptions = list(ASM) + list(kw.get('assumptions', ()))
        run_equiv(rep, drivers, units, hints, rule or 'summary equals definition', tier, seed, kw)
        return rep
    return go


def several(pid, *parts, assumptions=()):
    """a property decided by several groups of obligations"""
    def go(tier, seed):
        rep = Report(pid, EQ)
        rep.assumptions = list(ASM) + list(assumptions)
        for drivers, kw in parts:
            kw = dict(kw)
            run_equiv(rep, drivers, kw.pop('units', ()), kw.pop('hints', None), kw.pop('rule', 'summary equals definition'), tier, seed, kw)
        return rep
    return go


def bodies(prog):
    """analyse the element class itself instead of taking field arithmetic for granted"""
    from ev import Ev
    return Ev(prog, field_model=False)


def shapes(prog):
    """kinds and lengths of messages instead of their contents"""
    from ev import Ev
    ev = Ev(prog)
    ev.shapes = True
    return ev


def pair_valuation(rng):
    n, t = parties(rng, [(3, 1), (4, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 2)])
    i, j = rng.randrange(n), rng.randrange(n)
    if rng.randrange(3) == 0:
        i = 0
    elif rng.randrange(3) == 0:
        j = 0
    return {'p': [party(i, n)], 'q': [party(j, n)], 't': [t], 'k': [size(rng, [0, 1, 2, 3])], 'count': [tuple(size(rng, [0, 0, 1, 2, 3]) for _ in range(n))]}


def ser_valuation(rng):
    h = rep_valuation(rng)
    w = binom(h['n'][0] - 1, h['t'][0])
    rnd = lambda k: elems(rng, k)
    k, o = size(rng, [0, 1, 2, 3]), rng.choice([0, 0, 1, 5, 8])
    h.update({'v': [rnd(rng.choice([w, w, k]))], 'vs': [tuple(rnd(w) for _ in range(k))], 'k': [k], 'o': [o],
              'buf': [tuple(rng.randrange(256) for _ in range(o + 8 * max(k, 1) * max(w, 1) + rng.choice([0, 3, 9])))]})
    return h


def run_equiv(rep, drivers, units, hints, rule, tier, seed, kw):
    import oblig
    inner = list(kw.get('inner', ()))       # drivers that look at private members: optional
    try:
        prog = ir.load(list(units), list(drivers) + inner)
    except ir.Broken:
        if not inner:
            raise
        prog = ir.load(list(units), list(drivers))
        rep.cov('not examined', 'private members named in %s: the driver does not compile' % ', '.join(inner))
    pairs = oblig.find_pairs(prog)
    only = kw.get('only')
    c = kw.get('comparer', oblig.Comparer)(prog, make_ev=(lambda: kw['make_ev'](prog)) if 'make_ev' in kw else None, hints=hints or {}, seed=seed,
                       n=kw.get('n', 120) * (6 if tier == 'thorough' else 1), budget_s=kw.get('budget_s', 15) * (6 if tier == 'thorough' else 1),
                       gkw=kw.get('gkw'), throwstate=kw.get('throwstate', False), tries=kw.get('tries', 4000))
    if tier == 'thorough':
        c.each_s, c.total_s = 300, 650
    names = [n for n in sorted(pairs) if not only or n in only]
    if not names:
        raise ir.Broken('no obligations in %s' % (drivers,))
    rs = c.check_all([(n, pairs[n]) for n in names], kw.get('jobs', 8))
    acc = rep.cov
    acc('obligations', len(names))
    acc('discharged', sum(r.status == 'proved' for r in rs))
    acc('refuted', sum(r.status == 'refuted' for r in rs))
    acc('undecided', ['%s: %s' % (r.name, r.why[:300]) for r in rs if r.status == 'undecided'])
    acc('entries', names)
    fs = []
    for r in rs:
        for x in r.reached:
            if x not in fs:
                fs.append(x)
    if not fs:
        raise ir.Broken('no function of the repository was reached')
    rep.cov('functions analysed', sorted(fs))
    acc('interpretations of open obligations', sum(r.instances for r in rs))
    for r in rs:
        if r.status == 'refuted':
            rep.find(r.name, rule, '; '.join(r.reached[:8]) or r.name, 'entry %s: %s' % (r.name, r.why))


def elems(rng, k):
    """field elements: mostly arbitrary, sometimes with zeros or repetitions"""
    m = rng.randrange(20)
    if m == 0:
        return (0,) * k
    if m == 1:
        return (rng.randrange(P61),) * k
    r = tuple(rng.choice([1, 2, rng.randrange(P61), rng.randrange(P61)]) for _ in range(k))
    if m in (2, 3):
        return (0,) + r[1:] if k else r
    if m in (4, 5):
        return tuple(rng.choice([0, x]) for x in r)
    if m == 6:
        return tuple(rng.choice([0, 1, P61 - 1]) for x in r)
    if m == 7:
        return r[:-1] + (0,) if k else r
    return r


def size(rng, options):
    """a number of things; near a constant of the code under analysis now and then"""
    c = getattr(rng, 'consts', ())
    if c and rng.random() < (getattr(rng, 'force', 0) or 0.2):
        return max(0, rng.choice(c) + rng.choice([-1, 0, 1, 1, 2]))
    return rng.choice(options)


def parties(rng, options):
    wide = getattr(rng, 'wide', 0)
    if wide:
        # so many parties that each holds more pieces than this
        return min(((n, t) for n in range(4, 17) for t in range(1, (n + 1) // 2) if binom(n - 1, t) > wide), key=lambda x: binom(*x), default=options[0])
    c = [x for x in getattr(rng, 'consts', ()) if 2 <= x <= 8]
    if c and rng.random() < 0.15:
        return max(3, rng.choice(c) + rng.choice([-1, 0, 1, 1])), 1
    return rng.choice(options)


def mat_valuation(rng):
    side = lambda: size(rng, [1, 2, 2, 3, 3, 4, 5, 6]) if rng.randrange(8) else rng.choice([0, 1, 7, 9])
    r, c = side(), side()
    if r > 9 and c > 9 and not getattr(rng, 'force', False):
        r, c = rng.choice([(r, rng.randrange(1, 4)), (rng.randrange(1, 4), c)])
    k = rng.randrange(8)
    r2, c2 = (r, c) if k < 3 else (c, min(side(), 9)) if k < 6 else (c, r) if k == 6 else (side(), side())
    vec = lambda n: tuple(rng.choice([0, 1, 2, rng.randrange(P61), rng.randrange(P61)]) for _ in range(n))
    r0, c0 = rng.randrange(0, r + 1), rng.randrange(0, c + 1)
    h = {'r': [r], 'c': [c], 'r2': [r2], 'c2': [c2], 'v': [vec(r * c)], 'w': [vec(r2 * c2)], 'i': [rng.randrange(max(1, r))], 'k': [rng.randrange(max(1, r))],
         'j': [rng.randrange(max(1, c))], 'l': [rng.randrange(max(1, c))], 'r0': [r0], 'c0': [c0],
         'r1': [rng.randrange(r0, r + 2)], 'c1': [rng.randrange(c0, c + 2)]}
    if rng.randrange(3) == 0:
        h['k'], h['l'] = h['i'], h['j']
    if rng.randrange(6) == 0:
        h['r0'], h['c0'] = [rng.randrange(0, 6)], [rng.randrange(0, 6)]
    return h


def binom(n, k):
    import math
    return math.comb(n, k) if 0 <= k <= n else 0


def shr_valuation(rng):
    n, d = parties(rng, [(3, 1), (4, 1), (5, 1), (5, 2)] * 3 + [(6, 1), (6, 2), (7, 2), (7, 3)])
    rnd = lambda k: elems(rng, k)
    w = binom(n - 1, d)
    return {'n': [n], 'd': [d], 't': [d], 'id': [rng.randrange(n)], 'a': [rnd(w)], 'b': [rnd(w)], 'pa': [rnd(binom(n, d))], 'pb': [rnd(binom(n, d))],
            'i': [rng.randrange(w)], 'j': [rng.randrange(w)], 'shares': [tuple(rnd(w) for _ in range(n))]}


def wide_valuation(rng):
    """more pieces than a byte can number"""
    h = rep_valuation(rng, (11, 4))
    h['i'], h['j'] = [10], [rng.randrange(10)]
    return h


def rep_valuation(rng, nt=None):
    n, t = nt or parties(rng, [(2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3), (6, 2), (6, 3), (7, 2), (4, 0), (3, 3), (3, 5)])
    rnd = lambda k: elems(rng, k)
    m, w = binom(n, t), binom(n - 1, t)
    p = rnd(m)
    hold = [[i for i, s in enumerate(itertools.combinations(range(n), n - t)) if id in s] for id in range(n)] if 0 < t < n else []
    sh = [[p[i] for i in h] for h in hold]
    if sh and rng.randrange(3) == 0:
        sh[rng.randrange(n)][rng.randrange(w)] += 1
    if sh and rng.randrange(5) == 0:
        sh = [rnd(w) for _ in range(n)]
    sh = [list(x) for x in sh]
    if sh and n - t > 2 and rng.randrange(4) == 0:
        # two or more wrong copies of one piece whose errors cancel
        i = rng.randrange(m)
        who = [id for id in range(n) if i in hold[id]]
        rng.shuffle(who)
        e = rng.randrange(1, P61)
        for id, d in zip(who, rng.choice([(e, P61 - e), (e, e), (e, e, P61 - e, P61 - e), (1, 2, P61 - 3), (e,) * (len(who) - 1)])):
            sh[id][hold[id].index(i)] = (p[i] + d) % P61
    top = 8
    if rng.randrange(3) == 0:
        top = max([20] + [c + 3 for c in getattr(rng, 'consts', ()) if c <= 70])
        near = sorted({x for c in getattr(rng, 'consts', ()) if c <= 70 for x in range(max(0, c - 2), c + 3)} | set(range(12)))
    pool = range(8) if top == 8 else near
    asc = lambda: tuple(sorted(rng.sample(pool, rng.randrange(min(len(pool), 6 if top == 8 else 30)))))
    return {'n': [n], 't': [t], 'id': [rng.randrange(max(1, n))], 'i': [rng.randrange(max(1, rng.choice([n, m])))], 'j': [rng.randrange(max(1, rng.choice([n, w])))],
            'shares': [tuple(map(tuple, sh))], 'm': [size(rng, range(6))], 'k': [size(rng, range(6))], 'a': [asc()], 'b': [asc()], 's': [rng.randrange(P61)],
            'v': [rnd(size(rng, [0, 1, 2, 3]))], 'e': [rng.choice([0, 1, 1, rng.randrange(P61)])]}


def enum_valuation(rng):
    h = rep_valuation(rng)
    m = size(rng, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20, 26]) or 1
    k = rng.randrange(1, m + 1) if rng.randrange(3) else max(1, m - rng.randrange(3))
    c = sorted(rng.sample(range(m), k))
    if rng.randrange(3) == 0:
        j = rng.randrange(k)
        c[j:] = range(m - (k - j), m)
        if j and c[j - 1] >= c[j]:
            c = list(range(m - k, m))
    i = size(rng, range(8))
    h.update({'m': [m], 'k': [k], 'c': [tuple(c)], 'i': [i, rng.randrange(max(1, binom(h['n'][0], h['t'][0])))]})
    if m > 16:
        h['i'] = [rng.randrange(8)]
    return h


def wide_table(rng):
    """more entries than a byte can number"""
    h = rep_valuation(rng, (11, 4))
    h['i'] = [rng.choice([329, 256, 255, rng.randrange(330)])]
    return h


def prg_value(rng):
    from ground import Rec
    fs = {'seed': tuple(rng.randrange(256) for _ in range(16)), 'ctr': rng.choice([0, 0, 1, rng.randrange(40)])}
    return Rec('frn::lib::primitives::PRG', lambda f, fs=fs: fs[f])


def corr_valuation(rng):
    n, t = parties(rng, [(3, 1), (4, 1), (4, 1), (5, 1), (5, 2), (6, 2), (7, 2)])
    m, w = binom(n, t), binom(n - 1, t)
    prgs = lambda k: tuple(prg_value(rng) for _ in range(k))
    return {'n': [n], 't': [t], 'id': [rng.randrange(n)], 'own': [prgs(m)], 'rnd': [tuple(prgs(w) for _ in range(2 * t + 1))], 'keys': [tuple(prgs(m) for _ in range(2 * t + 1))], 'k': [rng.randrange(5)]}


def party(id, n):
    from ground import Rec
    fs = {'mId': id, 'mSize': n}
    return Rec('frn::Network', lambda f: fs[f])


def proto_valuation(rng):
    h = corr_valuation(rng)
    n, t, id = h['n'][0], h['t'][0], h['id'][0]
    if rng.randrange(2):
        id = 0
    w = binom(n - 1, t)
    k = size(rng, [0, 1, 1, 2, 2, 3])
    rnd = lambda k: elems(rng, k)
    h.update({'net': [party(id, n)], 'x': [rnd(w)], 'y': [rnd(w)], 'xs': [tuple(rnd(w) for _ in range(k))], 'ys': [tuple(rnd(w) for _ in range(k))], 'sharesize': w,
              'g': [prg_value(rng)], 'who': [rng.randrange(n)], 'k': [size(rng, [0, 1, 2, 3])], 'secrets': [rnd(size(rng, [0, 1, 2, 3]))],
              'held': [tuple(tuple(prg_value(rng) for _ in range(w)) for _ in range(n))]})
    return h


def check_valuation(rng):
    from ground import Rec
    h = proto_valuation(rng)
    while h['n'][0] > 5 and rng.randrange(4):
        h = proto_valuation(rng)
    n, t = h['n'][0], h['t'][0]
    k, u, w2 = size(rng, [0, 1, 2, 3]), 2 * t + 1, binom(n - 1, 2 * t)
    rnd = lambda k: elems(rng, k)
    fs = {'shares_sent_to_p1': rnd(k), 'shares_recv_by_p1': tuple(rnd(k) for _ in range(u)), 'values_recv_from_p1': rnd(k),
          'msgs': tuple(tuple(rnd(w2) for _ in range(u)) for _ in range(k)), 'counter': k}
    h['cd'] = [Rec('frn::CheckData', lambda f: fs[f])]
    return h


import wchecks
import wnet
import wconc
import wbuild
import wparty
import wexp
from leaks import Leaks

REGISTRY = {
    'C01': wchecks.c01,
    'C16': wchecks.c16,
    'C17': wchecks.c17,
    'C18': wnet.c18,
    'C19': wnet.c19,
    'C25': wnet.c25,
    'C20': wconc.c20,
    'C21': wconc.c21,
    'C22': wbuild.c22,
    'C23': wbuild.c23,
    'C24': wparty.c24,
    'C28': wexp.c28,
    'C02': several('C02', (['ser.cc'], {'units': ['shr.cc'], 'hints': {'*': {'joint': ser_valuation}}}),
                   (['serel.cc'], {'units': ['lib/math/arithmetic.cc'], 'make_ev': bodies})),
    'C03': equiv('C03', ['rep.cc'], units=['shr.cc'], hints={'*': {'joint': rep_valuation}, 'Share': {'last': [wide_valuation]}}),
    'C04': equiv('C04', ['piece.cc'], units=['shr.cc'], hints={'*': {'joint': rep_valuation}}),
    'C05': equiv('C05', ['detect.cc'], units=['shr.cc'], hints={'*': {'joint': rep_valuation}}),
    'C06': equiv('C06', ['table.cc'], units=['shr.cc'], hints={'*': {'joint': rep_valuation}}),
    'C07': equiv('C07', ['lin.cc'], units=['shr.cc'], hints={'*': {'joint': shr_valuation}}),
    'C08': equiv('C08', ['mul.cc'], units=['shr.cc'], hints={'*': {'joint': shr_valuation}}),
    'C09': equiv('C09', ['rec.cc'], units=['shr.cc'], hints={'*': {'joint': shr_valuation}}),
    'C10': equiv('C10', ['corr.cc'], units=['corr.cc', 'shr.cc'], hints={'*': {'joint': corr_valuation}}),
    'C11': equiv('C11', ['mult.cc'], units=['mult.cc', 'corr.cc', 'shr.cc'], hints={'*': {'joint': proto_valuation}}),
    'C12': equiv('C12', ['input.cc'], units=['input.cc', 'input_corr.cc', 'shr.cc'], hints={'*': {'joint': proto_valuation}}),
    'C13': equiv('C13', ['check.cc'], inner=['check_in.cc'], units=['check.cc', 'mult.cc', 'corr.cc', 'shr.cc'], hints={'*': {'joint': check_valuation}}),
    'C14': equiv('C14', ['match.cc'], units=['check.cc', 'mult.cc', 'corr.cc', 'shr.cc', 'input.cc', 'input_corr.cc'], make_ev=shapes, hints={'*': {'joint': pair_valuation}}),
    'C15': several('C15', (['leak.cc'], {'units': ['mult.cc', 'corr.cc', 'shr.cc'], 'hints': {'*': {'joint': proto_valuation}}, 'comparer': Leaks, 'rule': 'messages sent are the masked ones'}),
                   (['input.cc'], {'units': ['input.cc', 'input_corr.cc', 'shr.cc'], 'hints': {'*': {'joint': proto_valuation}}, 'comparer': Leaks, 'rule': 'messages sent are the masked ones',
                                   'only': ('FirstMask', 'Own', 'OtherBelow', 'OtherAbove', 'MixedBelow', 'MixedAbove')})),
    'C29': equiv('C29', ['enum.cc'], units=['shr.cc'], hints={'*': {'joint': enum_valuation}, 'Entry': {'last': [wide_table] * 3}}),
    'C26': equiv('C26', ['vec.cc'], throwstate=True),
    'C27': equiv('C27', ['mat.cc'], hints={'*': {'joint': mat_valuation}}, throwstate=True),
}

SUM = 'static analysis: abstract interpretation of the Clang AST into closed-form function summaries (value numbering, loop summarisation), compared with the summary of a specification'
SUMN = 'All inputs, for obligations reported as discharged (identical normal forms). Obligations whose normal forms differ are refuted only when an interpretation of both closed summaries differs; otherwise they stay undecided, are listed in the evidence and raise nothing. Trusts the front end (Clang), the library models in engine/models.py and the assumptions listed in the evidence.'
WORD = 'static analysis: path-partitioned abstract interpretation of the Clang AST over exact word-level terms (linear forms, intervals, congruences, inferred loop invariants)'
WORDN = 'Verdicts hold for all values of the symbols of a path; a violation needs a path whose conditions have a witness valuation. Anything the analysis cannot follow is listed in the evidence (not_followed, undecided) and raises nothing. Trusts the front end (Clang), the library and system models in engine/wstd.py and the assumptions in the evidence. '
TECH = {'*': SUM,
        'C01': WORD + '; range obligations of the element class',
        'C16': WORD + '; position/counter invariants of the generator against the definition of the stream',
        'C17': WORD + '; typestate of the digest context',
        'C18': WORD + '; progress and completeness of transfer loops over a model of the socket calls',
        'C19': WORD + '; typestate and error discipline of every system call',
        'C20': WORD + '; effect and happens-before rules for the sender thread, queue and channel states enumerated',
        'C21': WORD + '; lockset, guarded-wait and notify rules of the shared queue',
        'C22': WORD + '; validity conditions of the network builder',
        'C23': WORD + '; roles and ports of every pair of parties',
        'C24': WORD + '; bytes at the channel boundary compared as terms with the serialized items',
        'C25': WORD + '; ownership typestate of descriptors',
        'C28': WORD + '; argument ranges on every path to Connect and a call protocol for the library boundary'}
NOTE = {'*': SUMN, 'C01': WORDN, 'C16': WORDN, 'C17': WORDN, 'C18': WORDN, 'C19': WORDN,
        'C20': WORDN + 'Sequences of driver operations are bounded (listed in the evidence); message contents and lengths are symbolic.',
        'C21': WORDN,
        'C22': WORDN + 'Networks up to the sizes listed in the evidence; ports and identifiers symbolic where the path is followed.',
        'C23': WORDN + 'Networks up to the sizes listed in the evidence.',
        'C24': WORDN + 'Networks and numbers of items up to those in the evidence; contents are symbolic, byte messages of any length.',
        'C25': WORDN,
        'C28': WORDN + 'The ranges are decided for all arguments; the call protocol for every number of parties from 4 to 16 and the workloads and identifiers in the evidence.'}
NA = {
    'C30': 'liveness under arbitrary peer behaviour and operating-system buffering: not decidable from the source by a static rule',
    'C31': 'a probability bound over the random coefficients: a mathematical property of the protocol, not of the code',
}
