"""Summaries of whole functions: symbolic parameters in, observables out."""
from term import *
import term as T
from ev import Ev, State, Dead, Unsupported, Frame, facts_of
from models import NETROOT


class Summary:
    def __init__(self):
        self.ret = None
        self.rett = None
        self.throw = ZERO
        self.excs = []          # (condition, exception)
        self.finals = []        # (name, type, term)
        self.live = ZERO        # condition of normal return
        self.sent = None
        self.tfinals = []       # values of the reference parameters on refusal
        self.err = None
        self.notes = []
        self.steps = 0


def param_value(ev, p):
    t = ev.deref_t(p['t'])
    vt = ev.vt(t)
    n = mk('sym', p['n'])
    return vt, view(vt, n)


_net0 = {}


def net0(shapes=False):
    """no message sent and none received yet"""
    if shapes not in _net0:
        n = mk('glob', 'NPEERS')
        set_nonneg(n)
        v, w = fresh('z'), fresh('z')
        set_nonneg(v)
        set_nonneg(w)
        _net0[shapes] = mkrec('NET', (('sent', comp(v, atom(n), mkarr([]))), ('rcv', comp(w, atom(n), mkarr([]) if shapes else ZERO)), ('got', ZERO)))
    return _net0[shapes]


def summarise(ev, key, facts=(), net=True):
    """summary of the function key with symbolic parameters"""
    fn = ev.p.fns[key]
    sm = Summary()
    ev.S = State(ONE, {})
    ev.exits = []
    ev.base = tuple(facts)
    ev.frame = Frame(fn)
    ev.statics = {}
    ev.depth = 0
    n0 = len(ev.notes)
    if net:
        ev.rtype[NETROOT] = ('rec', 'NET')
        T.REC_FIELDS['NET'] = (('sent', ('vec', ('vec', ('rec', 'SHP') if ev.shapes else ('oth', 'msg')))),
                               ('rcv', ('vec', ('vec', ('rec', 'RSH')) if ev.shapes else ('int', 32, True))), ('got', ('int', 64, True)))
        ev.S.st[NETROOT] = net0(ev.shapes)
    ev.sync()
    locs = []
    outs = []
    for p in fn['params']:
        vt, v = param_value(ev, p)
        l = ev.new_root(p['n'], vt, v)
        locs.append(l)
        t = ev.ty(p['t'])
        if t['k'] in ('ref', 'rref') and not ev.ty(t['t']).get('const'):
            outs.append((p['n'], vt, l))
    try:
        try:
            r = ev.inline(key, None, locs, None)
            rt = ev.ty(fn['rt'])
            if rt['k'] in ('ref', 'rref'):
                r = ev.rd(ev.deref(r, ev.deref_t(fn['rt'])))
            sm.ret = r
            sm.rett = ev.vt(ev.deref_t(fn['rt']))
            sm.live = ev.S.pc
            for n, vt, l in outs:
                sm.finals.append((n, vt, ev.rd(l)))
            s = ev.S.st.get(NETROOT)
            if s is not None and net:
                sm.sent = s
        except Dead:
            sm.ret = None
        T.CTX.set(tuple(facts))
        thr = [e for e in ev.exits if e.kind == 'throw']
        if thr and outs:
            save = ev.S
            for n, vt, l in outs:
                v = None
                for e in reversed(thr):
                    ev.S = State(e.pc, e.st)
                    x = ev.rd(l)
                    v = x if v is None else ev.mux(e.pc, x, v)
                sm.tfinals.append((n, vt, v))
            ev.S = save
        for e in ev.exits:
            if e.kind == 'throw':
                sm.throw = add(sm.throw, e.pc)
                sm.excs.append((e.pc, e.val))
    except Unsupported as x:
        sm.err = '%s at %s' % (x, ev.lastline)
    except RecursionError:
        sm.err = 'recursion at %s' % (ev.lastline,)
    sm.notes = ev.notes[n0:]
    return sm


def domain(ev, key):
    """the condition computed by a dom:: function (no side effects)"""
    sm = summarise(ev, key)
    if sm.err:
        raise Unsupported('domain: ' + sm.err)
    return to_poly(sm.ret)
