"""Summary computation: a forward abstract interpretation of the lowered program
over the term domain of term.py.  A function is summarised once for all inputs;
branches are joined (no path is enumerated), calls are summarised in context,
loops are replaced by the closed form of their effect on each modified location
(see loops.py).  The result is one term per observable: return value, final value of every
location reachable from the parameters, conditions under which an exception
leaves the function, messages handed to the network."""
import re
from term import *
import term as T
from loops import Loops
from models import Models


class Dead(Exception):
    """no continuation: every path has left the current region"""


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('pc', 'st')

    def __init__(self, pc, st):
        self.pc = pc
        self.st = st

    def copy(self):
        return State(self.pc, dict(self.st))


class Exit:
    __slots__ = ('kind', 'pc', 'st', 'val', 'raw')

    def __init__(self, kind, pc, st, val=None, raw=None):
        self.kind = kind
        self.pc = pc
        self.st = st
        self.val = val
        self.raw = raw


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        if q.startswith('operator', i) and d == 0:
            out.append(q[i:])
            break
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('std::__cxx11::', 'std::')


def facts_of(c):
    """linear facts implied by the 0/1 polynomial c"""
    r = _facts.get(c)
    if r is not None:
        return r
    out = []
    atoms = []
    for k, m in c.args[0] if c.op == 'P' else ():
        for a, e in m:
            if a not in atoms:
                atoms.append(a)
    if len(atoms) <= 40:
        for a in atoms:
            if a.op not in ('ge0', 'eq0'):
                continue
            p = a.args[0]
            if p.op != 'P':
                continue
            x = atom(a)
            if mul(c, x) is c:
                out.append(p)
                if a.op == 'eq0':
                    out.append(neg(p))
            elif a.op == 'ge0' and mul(c, x) is ZERO:
                out.append(sub(const(-1), p))
            elif a.op == 'eq0' and mul(c, x) is ZERO:
                # a sum of non-negative terms that is not zero is positive
                for s in (p, neg(p)):
                    if all(cc > 0 and mono_nonneg(mm) for cc, mm in s.args[0]):
                        out.append(sub(s, ONE))
    r = tuple(out)
    _facts[c] = r
    return r


_facts = {}


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this


SEALED = re.compile(r'frn::(ShrManipulator|lib::secret_sharing::Replicator<.*)$')
FIELD_CLASS = 'frn::lib::math::FpElement'
PRG_CLASS = 'frn::lib::primitives::PRG'


class Ev(Models, Loops):
    def __init__(self, prog, field_model=True, prg_model=True, sealed=None, depth=60):
        self.p = prog
        self.field_model = field_model
        self.prg_model = prg_model
        if sealed is None:
            sealed = [c for c in prog.recs if SEALED.match(c)]
        self.sealed = set(sealed)
        self.maxdepth = depth
        self.depth = 0
        self.rootn = 0
        self.rtype = {}       # root -> view type
        self.rinit = {}
        self.S = None
        self.exits = []
        self.base = ()        # facts of the enclosing regions
        self.frame = None
        self.reached = {}     # repo functions analysed: key -> (file, line)
        self.calls = 0
        self.nloops = 0
        self.notes = []
        self.vtc = {}
        self.statics = {}
        self.lastline = None
        self.sealcache = prog.__dict__.setdefault('sealcache', {}).setdefault((frozenset(self.sealed), field_model, prg_model), {})
        if prg_model:
            T.REC_FIELDS[PRG_CLASS] = (('seed', ('vec', ('int', 8, True))), ('ctr', ('int', 64, False)))
        T.REC_FIELDS['NET'] = (('sent', ('vec', ('vec', ('oth', 'msg')))), ('rcv', ('vec', ('int', 32, True))), ('got', ('int', 64, True)))

    # ------------------------------------------------------------ types
    def ty(self, tid):
        return self.p.types[tid]

    def deref_t(self, tid):
        t = self.p.types[tid]
        while t['k'] in ('ref', 'rref'):
            tid = t['t']
            t = self.p.types[tid]
        return tid

    def vt(self, tid):
        r = self.vtc.get(tid)
        if r is None:
            self.vtc[tid] = ('oth', self.p.types[tid]['s'])
            r = self.vtc[tid] = self._vt(tid)
        return r

    def _vt(self, tid):
        t = self.p.types[tid]
        k = t['k']
        if k in ('ref', 'rref'):
            return ('oth', 'ref')
        if k == 'int':
            return ('int', t['w'], t['u'])
        if k == 'bool':
            return ('bool',)
        if k == 'enum':
            return ('int', 32, True)
        if k == 'arr':
            return ('vec', self.vt(t['t']))
        if k == 'rec':
            q = t['q']
            if q == FIELD_CLASS and self.field_model:
                a = self.p.types[t['a'][0]]['n']
                return ('fld', 16 if a.endswith('127') else 8)
            if q in ('std::vector', 'std::array', 'std::deque', 'std::initializer_list'):
                return ('vec', self.vt(t['a'][0]))
            if q == 'std::basic_string':
                return ('oth', 'string')
            if q == 'std::optional':
                n = 'opt<%s>' % (self.p.types[t['a'][0]]['s'].replace('const ', ''),)
                T.REC_FIELDS[n] = (('has', ('bool',)), ('val', self.vt(t['a'][0])))
                return ('rec', n)
            if q == 'std::pair':
                n = 'pair<%s>' % t['s'].replace('const ', '')
                T.REC_FIELDS[n] = (('first', self.vt(t['a'][0])), ('second', self.vt(t['a'][1])))
                return ('rec', n)
            if q == 'std::map':
                n = 'mapent<%s>' % t['s'].replace('const ', '')
                T.REC_FIELDS[n] = (('first', self.vt(t['a'][0])), ('second', self.vt(t['a'][1])))
                return ('vec', ('rec', n))
            if q == 'std::atomic':
                return self.vt(t['a'][0])
            if t.get('n') == PRG_CLASS and self.prg_model:
                return ('rec', PRG_CLASS)
            rn = t['n']
            if rn in self.p.recs and not t.get('lambda'):
                self.need_rec(rn)
                return ('rec', rn)
            return ('oth', re.sub(r'/tmp/frnsa\.\w+', '', rn))
        if k == 'ptr':
            return ('oth', 'ptr ' + self.p.types[t['t']]['s'])
        return ('oth', t['s'])

    def need_rec(self, rn):
        if rn in T.REC_FIELDS:
            return
        T.REC_FIELDS[rn] = ()
        T.REC_FIELDS[rn] = tuple((n, self.vt(t)) for n, t, i in self.fields_of(rn))

    def fields_of(self, rn):
        r = self.p.recs[rn]
        out = []
        for b in r.get('bases', []):
            if b in self.p.recs:
                out += self.fields_of(b)
        for f in r['fields']:
            out.append((f['n'], f['t'], f.get('init')))
        return out

    # ------------------------------------------------------------ memory
    def new_root(self, hint, vt, val=None):
        self.rootn += 1
        r = mk('root', self.rootn, hint)
        self.rtype[r] = vt
        if val is not None:
            self.S.st[r] = val
        return mk('loc', r, ())

    def root_default(self, r):
        v = self.rinit.get(r)
        if v is None:
            v = view(self.rtype.get(r, ('oth', '?')), mk('undef', r) if r.op == 'root' else r)
            self.rinit[r] = v
        return v

    def read(self, loc):
        r, path = loc.args
        v = self.S.st.get(r)
        if v is None:
            v = self.root_default(r)
        for k, x in path:
            v = self.getfield(v, x) if k == 'f' else sel(v, x)
        return v

    def getfield(self, v, f):
        if v.op == 'P':     # representation of a modelled field element
            return atom(mk('res', node_of(v)))
        if v.op == 'or' and v.args[0].op == 'call':
            return self.sealed_field(v, f)
        return field(v, f)

    def write(self, loc, val):
        r, path = loc.args
        v = self.S.st.get(r)
        if v is None:
            v = self.root_default(r)
        self.S.st[r] = self._wr(v, path, val)

    def _wr(self, v, path, val):
        if not path:
            return val
        k, x = path[0]
        if k == 'f':
            if v.op == 'P':
                return self.hom(val)
            if v.op == 'or' and v.args[0].op == 'call':
                v = self.unseal(v)
            return setfield(v, x, self._wr(self.getfield(v, x), path[1:], val) if len(path) > 1 else val)
        if len(path) > 1:
            return store(v, x, self._wr(sel(v, x), path[1:], val))
        return store(v, x, val)

    def hom(self, v):
        """ring element with integer representative v"""
        a = as_atom(v)
        if a is not None and a.op == 'res':
            return to_poly(a.args[0])
        return v

    def sub_loc(self, loc, item):
        return mk('loc', loc.args[0], loc.args[1] + (item,))

    def loc_type(self, loc):
        r, path = loc.args
        t = self.rtype.get(r, ('oth', '?'))
        for k, x in path:
            if k == 'f':
                t = dict(T.REC_FIELDS.get(t[1], ())).get(x, ('oth', '?')) if t[0] == 'rec' else ('oth', '?')
            else:
                t = t[1] if t[0] == 'vec' else ('oth', '?')
        return t

    # pointers
    def pobj(self, loc):
        r, path = loc.args
        if path and path[-1][0] == 'i':
            return mk('ptr', mk('loc', r, path[:-1]), path[-1][1])
        if r.op == 'dr' and not path:
            return mk('oo', r.args[0], ('oth', 'ptr'))
        return mk('pobj', loc)

    def deref(self, p, tid=None):
        if p.op == 'pobj':
            return p.args[0]
        if p.op == 'ptr':
            return self.sub_loc(p.args[0], ('i', p.args[1]))
        if p.op == 'tv' or p.op == 'bv' or p.op == 'bvo':
            return mk('vloc', p)
        if p.op == 'mux':
            a, b = self.deref(p.args[1], tid), self.deref(p.args[2], tid)
            return mk('muxloc', p.args[0], a, b)
        if p.op == 'oo':
            r = mk('dr', p.args[0])
            if r not in self.rtype:
                self.rtype[r] = self.vt(tid) if tid is not None else ('oth', '?')
            return mk('loc', r, ())
        r = mk('dr', p)
        self.rtype.setdefault(r, self.vt(tid) if tid is not None else ('oth', '?'))
        return mk('loc', r, ())

    def rd(self, loc):
        if loc.op == 'loc':
            return self.read(loc)
        if loc.op == 'vloc':
            return self.read_view(loc.args[0])
        if loc.op == 'muxloc':
            return mux(loc.args[0], self.rd(loc.args[1]), self.rd(loc.args[2]))
        raise Unsupported('location')

    def wr(self, loc, val):
        if loc.op == 'loc':
            return self.write(loc, val)
        if loc.op == 'vloc':
            return self.write_view(loc.args[0], val)
        if loc.op == 'muxloc':
            c, a, b = loc.args
            self.wr(a, mux(c, val, self.rd(a)))
            self.wr(b, mux(c, self.rd(b), val))
            return
        raise Unsupported('location')

    def sub(self, loc, item):
        if loc.op == 'muxloc':
            return mk('muxloc', loc.args[0], self.sub(loc.args[1], item), self.sub(loc.args[2], item))
        if loc.op != 'loc':
            raise Unsupported('component of a byte view')
        return self.sub_loc(loc, item)

    # ------------------------------------------------------------ control
    def sync(self):
        if self.S is not None:
            CTX.set(tuple(dict.fromkeys(self.base + facts_of(self.S.pc))))

    def alive(self):
        return self.S is not None

    # a path condition must keep the conditions it consists of: it is never
    # simplified under the facts that it states itself, only under the base facts
    def conj(self, a, b):
        old = CTX.facts
        CTX.set(self.base)
        try:
            return mul(a, b)
        finally:
            CTX.set(old)

    def disj(self, a, b):
        old = CTX.facts
        CTX.set(self.base)
        try:
            return add(a, b)
        finally:
            CTX.set(old)

    def merge(self, c, a, b):
        """state: a where c else b"""
        if a is None:
            return b
        if b is None:
            return a
        st = {}
        for r in list(a.st) + [x for x in b.st if x not in a.st]:
            va, vb = a.st.get(r), b.st.get(r)
            if va is None:
                va = self.root_default(r) if r.op != 'root' else vb
            if vb is None:
                vb = self.root_default(r) if r.op != 'root' else va
            st[r] = va if va is vb else self.mux(c, va, vb)
        return State(self.disj(a.pc, b.pc), st)

    def mux(self, c, a, b):
        return mux(c, a, b)

    def branch(self, c, fa, fb):
        """run fa under c and fb otherwise; both may kill the state. Returns the
        pair of values (None if dead)"""
        c = to_poly(c)
        if c is ONE:
            return fa(), None
        if c is ZERO:
            return None, fb()
        s = self.S
        ra = rb = None
        self.S = State(self.conj(s.pc, c), dict(s.st))
        sa = sb = None
        if self.S.pc is not ZERO:
            self.sync()
            try:
                ra = fa()
                sa = self.S
            except Dead:
                sa = None
        self.S = State(self.conj(s.pc, bnot(c)), dict(s.st))
        if self.S.pc is not ZERO:
            self.sync()
            try:
                rb = fb()
                sb = self.S
            except Dead:
                sb = None
        if sa is None and sb is None:
            self.S = None
            raise Dead()
        self.S = s
        self.sync()             # the joined terms must be valid on both sides
        self.S = self.merge(c, sa, sb)
        self.sync()
        if sa is None:
            ra = None
        if sb is None:
            rb = None
        return ra, rb

    def leave(self, kind, val=None):
        self.exits.append(Exit(kind, self.S.pc, self.S.st, val))
        self.S = None
        raise Dead()

    def merge_exits(self, exits, tail, val_tail=None):
        """join exits [(pc, st, val)] and the fall-through state; returns value"""
        S, v = tail, val_tail
        CTX.set(self.base)      # not the facts of the region that was left last
        for e in reversed(exits):
            s2 = State(e.pc, e.st)
            if S is None:
                S, v = s2, e.val
            else:
                v = self.mux_rv(e.pc, e.val, v)
                S = self.merge(e.pc, s2, S)
        self.S = S
        return v

    def mux_rv(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        return self.mux(c, a, b)

    # ------------------------------------------------------------ functions
    def inline(self, key, this, args, ref):
        """args: list of (loc or None, value or None) thunks already bound: list of
        Loc for the parameters"""
        fn = self.p.fns.get(key)
        if fn is None or fn.get('body') is None:
            raise Unsupported('no body for ' + key)
        if self.depth >= self.maxdepth:
            raise Unsupported('call depth')
        self.reached.setdefault(key, (fn.get('file', ''), fn.get('line', 0)))
        self.calls += 1
        fr = Frame(fn, this)
        for p, a in zip(fn['params'], args):
            fr.env[p['v']] = a
        of, oe, ob, opc = self.frame, self.exits, self.base, self.S.pc
        self.base = tuple(dict.fromkeys(self.base + facts_of(opc)))
        self.frame, self.exits = fr, []
        self.S = State(ONE, self.S.st)
        self.depth += 1
        self.sync()
        try:
            try:
                if fn.get('ctor'):
                    self.ctor_inits(fn, this)
                self.stmt(fn['body'])
            except Dead:
                self.S = None
            exits = self.exits
            rets = [e for e in exits if e.kind == 'ret']
            oth = [e for e in exits if e.kind != 'ret']
            v = self.merge_exits(rets, self.S)
        finally:
            self.frame, self.exits, self.base = of, oe, ob
            self.depth -= 1
        CTX.set(self.base)
        for e in oth:
            self.exits.append(Exit(e.kind, self.conj(opc, e.pc), e.st, e.val))
        if self.S is None:
            raise Dead()
        self.S = State(self.conj(opc, self.S.pc), self.S.st)
        self.sync()
        return v

    def ctor_inits(self, fn, this):
        cls = fn['cls']
        done = set()
        rec = self.p.recs.get(cls, {})
        order = {f['n']: i for i, f in enumerate(rec.get('fields', []))}
        for i in fn.get('inits', []):
            if i.get('d'):
                # delegating constructor
                self.construct_into(this, i['e'])
                return
            if 'b' in i:
                if i['e'] is not None:
                    self.construct_into(this, i['e'], base=True)
                continue
            f = i['f']
            done.add(f)
            e = i['e']
            if e is None:
                continue
            ft = None
            for fl in rec.get('fields', []):
                if fl['n'] == f:
                    ft = fl['t']
            if ft is not None and self.ty(ft)['k'] in ('ref', 'rref'):
                self.wr(self.sub(this, ('f', f)), self.pobj(self.lv(e)))
            else:
                v = self.ev(e)
                if e[0] == 'ctor' and e[3].get('default') and e[3].get('implicit') and e[3]['k'] not in self.p.fns and self.vt(ft)[0] in ('int',):
                    continue
                self.wr(self.sub(this, ('f', f)), v)

    def construct_into(self, this, e, base=False):
        while e[0] in ('temp',):
            e = e[3]
        if e[0] == 'ctor' and e[3]['k'] in self.p.fns and self.p.fns[e[3]['k']].get('body') is not None:
            args = self.bind_args(e[3], e[4])
            self.inline(e[3]['k'], this, args, e[3])
            return
        if base:
            return
        self.wr(this, self.ev(e))

    def bind_args(self, ref, args):
        out = []
        pts = ref.get('pt', [])
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else None
            out.append(self.bind_arg(pt, a))
        return out

    def bind_arg(self, pt, a):
        if pt is not None and self.ty(pt)['k'] in ('ref', 'rref'):
            return self.lv(a)
        v = self.ev(a)
        t = self.vt(pt) if pt is not None else self.vt(self.deref_t(a[2]))
        return self.new_root('arg', t, self.conv(v, pt))

    def conv(self, v, pt):
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s[0]
        if k not in ('block',):
            self.lastline = (self.frame.fn.get('file', ''), s[1])
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement ' + k)
        m(s)

    def s_block(self, s):
        for x in s[2]:
            self.stmt(x)

    def s_decls(self, s):
        for x in s[2]:
            self.stmt(x)

    def s_decl(self, s):
        _, ln, var, tid, init = s[:5]
        static = len(s) > 5 and s[5] is True
        t = self.ty(tid)
        if t['k'] in ('ref', 'rref'):
            self.frame.env[var] = self.lv(init)
            loc = self.frame.env[var]
        elif static and init is not None and init[0] != 'int':
            # function-local static: one location per variable
            key = (self.frame.fn.get('file'), var)
            loc = self.statics.get(key)
            if loc is None:
                loc = self.new_root('static', self.vt(tid), self.ev(init))
                self.statics[key] = loc
            self.frame.env[var] = loc
        else:
            vt = self.vt(tid)
            if init is None:
                v = None
                if vt[0] == 'rec' and t['k'] == 'rec':
                    v = self.default_value(vt, tid)
            else:
                v = self.ev_init(init, tid)
            loc = self.new_root(var.split('#')[0], vt, v)
            self.frame.env[var] = loc
        for x in s[6] if len(s) > 6 and isinstance(s[6], list) else []:
            self.bind_binding(x, loc)

    def bind_binding(self, b, loc):
        if 'e' in b:
            self.frame.env[b['v']] = self.lv(b['e'])
        elif 'hv' in b:
            self.frame.env[b['hv']] = self.lv(b['hi'])
            self.frame.env[b['v']] = self.frame.env[b['hv']]

    def s_if(self, s):
        c = self.evb(s[2])
        self.branch(c, lambda: self.stmt(s[3]), lambda: self.stmt(s[4]) if s[4] else None)

    def s_expr(self, s):
        e = s[2]
        self.ev_discard(e)

    def ev_discard(self, e):
        if e is None:
            return
        if self.is_ref_call(e) or e[0] in ('assign', 'opassign', 'incdec'):
            if e[0] == 'incdec' and not e[4]:
                self.ev(e)
            else:
                self.lv(e)
        else:
            self.ev(e)

    def is_ref_call(self, e):
        if e[0] in ('call', 'mcall'):
            return self.ty(e[3]['rt'])['k'] in ('ref', 'rref')
        return False

    def s_ret(self, s):
        e = s[2]
        if e is None:
            self.leave('ret', None)
        rt = self.ty(self.frame.fn['rt'])
        if rt['k'] in ('ref', 'rref'):
            v = self.pobj(self.lv(e))
        elif rt['k'] == 'void':
            self.ev_discard(e)
            v = None
        else:
            v = self.ev_init(e, self.frame.fn['rt'])
        self.leave('ret', v)

    def s_break(self, s):
        self.leave('break')

    def s_cont(self, s):
        self.leave('cont')

    def s_opaque(self, s):
        raise Unsupported('statement %s' % (s[2:],))

    def s_try(self, s):
        oe = self.exits
        self.exits = []
        pc0 = self.S.pc
        try:
            self.stmt(s[2])
        except Dead:
            self.S = None
        exits, self.exits = self.exits, oe
        tail = self.S
        handled = []
        for e in exits:
            h = None
            if e.kind == 'throw':
                for x in s[3]:
                    if 't' not in x or self.catches(x['t'], e.val):
                        h = x
                        break
            if h is None:
                self.exits.append(e)
                continue
            self.S = State(e.pc, dict(e.st))
            self.sync()
            if 'v' in h:
                t = self.deref_t(h['t'])
                self.frame.env[h['v']] = self.new_root('exc', self.vt(t), e.val)
            self.cur_exc = e.val
            try:
                self.stmt(h['body'])
                handled.append(Exit('x', self.S.pc, self.S.st))
            except Dead:
                pass
        self.merge_exits(handled, tail)
        if self.S is None:
            raise Dead()
        self.sync()

    EXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
           'std::out_of_range': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error',
           'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
           'std::system_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception', 'std::bad_optional_access': 'std::exception'}

    def catches(self, tid, val):
        want = self.ty(self.deref_t(tid)).get('q')
        n = val.args[0] if val is not None and val.op == 'exc' else None
        while n:
            if n == want:
                return True
            n = self.EXC.get(n)
        return False

    def s_switch(self, s):
        v = to_poly(self.ev(s[2]))
        items = s[3]
        # entry condition for every label
        labels = []
        cs = []
        for it in items:
            if it[0] == 'case':
                cs.append(eq(v, to_poly(self.ev(it[1]))))
        anyc = ZERO
        for c in cs:
            anyc = bor(anyc, c)
        oe, self.exits = self.exits, []
        entry = self.S
        cur = None
        ci = 0
        pend = ZERO
        hasdef = False
        for it in items:
            if it[0] == 'case':
                c = cs[ci]
                ci += 1
                cur = self.join_label(cur, entry, c)
            elif it[0] == 'default':
                hasdef = True
                cur = self.join_label(cur, entry, bnot(anyc))
            else:
                if cur is None:
                    continue
                self.S = cur
                self.sync()
                try:
                    self.stmt(it[1])
                    cur = self.S
                except Dead:
                    cur = None
        exits, self.exits = self.exits, oe
        CTX.set(tuple(dict.fromkeys(self.base + facts_of(entry.pc))))
        brk = [e for e in exits if e.kind == 'break']
        self.exits += [e for e in exits if e.kind != 'break']
        if not hasdef:
            pc = self.conj(entry.pc, bnot(anyc))
            if pc is not ZERO:
                brk.append(Exit('x', pc, entry.st))
        self.merge_exits(brk, cur)
        if self.S is None:
            raise Dead()
        self.sync()

    def join_label(self, cur, entry, c):
        CTX.set(tuple(dict.fromkeys(self.base + facts_of(entry.pc))))
        pc = self.conj(entry.pc, c)
        if pc is ZERO:
            return cur
        s = State(pc, dict(entry.st))
        if cur is None:
            return s
        return self.merge(pc, s, cur)

    # loops: see loops.py
    def s_for(self, s):
        _, ln, init, cond, inc, body = s
        if init is not None:
            self.stmt(init)
        self.run_loop(lambda: self.evb(cond) if cond is not None else ONE,
                      lambda: self.stmt(body),
                      lambda: self.ev_discard(inc) if inc is not None else None, ln)

    def s_do(self, s):
        _, ln, cond, body = s
        self.run_loop(lambda: self.evb(cond), lambda: self.stmt(body), lambda: None, ln, posttest=True)

    def s_rfor(self, s):
        _, ln, var, tid, rng, body = s[:6]
        loc = self.lv(rng)
        idx = self.new_root('rf', ('int', 64, True), ZERO)
        n = self.seq_len(self.rd(loc))
        isref = self.ty(tid)['k'] in ('ref', 'rref')
        src = None
        if len(s) > 6 and s[6] and s[6][0] == 'cast':
            src = self.deref_t(s[6][4][2])

        def b():
            i = to_poly(self.read(idx))
            el = self.sub(loc, ('i', i))
            if isref:
                self.frame.env[var] = el
            else:
                v = self.rd(el)
                ett = self.ty(tid)
                if ett['k'] == 'int' and v.op == 'P':
                    v = self.narrow(v, tid, src)
                elif ett['k'] == 'bool':
                    v = self.truth(v, self.ty(self.deref_t(s[6][2])) if len(s) > 6 and s[6] else ett)
                self.frame.env[var] = self.new_root(var.split('#')[0], self.vt(tid), v)
            for x in s[7] if len(s) > 7 else []:
                self.bind_binding(x, self.frame.env[var])
            self.stmt(body)

        self.run_loop(lambda: lt(to_poly(self.read(idx)), n), b,
                      lambda: self.write(idx, add(to_poly(self.read(idx)), ONE)), ln)

    def seq_len(self, v):
        return length(v)

    # ------------------------------------------------------------ expressions
    def evb(self, e):
        """0/1 polynomial"""
        v = self.ev(e)
        t = self.ty(self.deref_t(e[2]))
        return self.truth(v, t)

    def truth(self, v, t):
        if v.op == 'P':
            if t['k'] == 'bool':
                return v
            return bnot(eq0(v))
        if v.op == 'null':
            return ZERO
        if v.op in ('pobj', 'ptr', 'bv', 'tv', 'bvo'):
            return ONE
        return atom(mk('bool', 'nn', node_of(v)))

    def ev_init(self, e, tid):
        """value of an initialiser for an object of type tid"""
        if e[0] == 'initlist':
            return self.e_initlist(e, tid)
        return self.ev(e)

    def ev(self, e):
        k = e[0]
        m = getattr(self, 'e_' + k, None)
        if m is not None:
            return m(e)
        m = getattr(self, 'l_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return self.rd(m(e))

    def lv(self, e):
        """location of a glvalue (temporaries get a fresh one)"""
        k = e[0]
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            return m(e)
        if k in ('call', 'mcall', 'icall'):
            v = self.ev_call(e)
            if self.call_gives_ref(e):
                return self.deref(v, self.deref_t(e[3]['rt']) if k != 'icall' else None)
            return self.new_root('tmp', self.vt(self.deref_t(e[2])), v)
        if k == 'cast' and e[3] not in ('int', 'bit', 'void'):
            return self.lv(e[4])
        if k == 'cond':
            c = self.evb(e[3])
            if c is ONE:
                return self.lv(e[4])
            if c is ZERO:
                return self.lv(e[5])
            t1 = self.deref_t(e[2])
            a, b = self.branch(c, lambda: self.lv(e[4]), lambda: self.lv(e[5]))
            if a is None:
                return b
            if b is None:
                return a
            return mk('muxloc', c, a, b)
        v = self.ev(e)
        if v is None:
            v = mk('oo', mk('sym', 'void'), ('oth', 'void'))
        return self.new_root('tmp', self.vt(self.deref_t(e[2])), v)

    def e_int(self, e):
        return const(int(e[3]))

    def e_str(self, e):
        return mk('oo', mk('str', e[3]), ('oth', 'string'))

    def e_null(self, e):
        return mk('null')

    def e_zero(self, e):
        return self.zero(self.vt(e[2]), e[2])

    def e_fn(self, e):
        return mk('oo', mk('fnref', e[3]['k']), ('oth', 'fn'))

    def e_this(self, e):
        return self.pobj(self.frame.this)

    def l_this(self, e):
        return self.new_root('tmp', ('oth', 'ptr'), self.pobj(self.frame.this))

    def l_var(self, e):
        v = e[3]
        loc = self.frame.env.get(v)
        if loc is not None:
            return loc
        if v.startswith('g:'):
            return self.global_loc(v, e)
        raise Unsupported('variable ' + v)

    def global_loc(self, v, e):
        key = ('g', v)
        loc = self.statics.get(key)
        if loc is None:
            g = self.p.globals.get(v, {})
            tid = self.deref_t(g.get('t', e[2]))
            r = mk('glob', v)
            self.rtype[r] = self.vt(tid)
            loc = mk('loc', r, ())
            self.statics[key] = loc
        r = loc.args[0]
        if r not in self.S.st and r not in self.rinit:
            g = self.p.globals.get(v, {})
            m = self.const_global(v)
            if m is not None:
                self.rinit[r] = m
            elif g.get('init') is not None and (g.get('constv') or self.ty(g['t']).get('const')):
                f = self.frame
                self.rinit[r] = self.ev_init(g['init'], self.deref_t(g['t']))
        return loc

    def const_global(self, v):
        if self.field_model and FIELD_CLASS in v:
            if '::kZero' in v:
                return ZERO
            if '::kOne' in v:
                return ONE
        return None

    def l_mem(self, e):
        b = self.lv(e[3])
        if b.op == 'loc':
            t = self.loc_type(b)
        f = e[4]
        loc = self.sub(b, ('f', f))
        ft = self.field_tid(e[5], f)
        if ft is not None and self.ty(ft)['k'] in ('ref', 'rref'):
            return self.deref(self.rd(loc), self.deref_t(ft))
        if loc.op == 'loc':
            self.note_field(b, e[5])
        return loc

    def note_field(self, b, cls):
        if b.op == 'loc' and not b.args[1]:
            r = b.args[0]
            if self.rtype.get(r, ('oth', '?'))[0] == 'oth' and cls in self.p.recs and r.op != 'root':
                self.need_rec(cls)
                self.rtype[r] = ('rec', cls)
                if r in self.S.st:
                    return
                self.rinit.pop(r, None)

    def field_tid(self, cls, f):
        r = self.p.recs.get(cls)
        if r:
            for x in r['fields']:
                if x['n'] == f:
                    return x['t']
        return None

    def l_deref(self, e):
        p = self.ev(e[3])
        return self.deref(p, e[2])

    def e_addr(self, e):
        return self.pobj(self.lv(e[3]))

    def l_idx(self, e):
        b = e[3]
        i = to_poly(self.ev(e[4]))
        bt = self.ty(self.deref_t(b[2]))
        if b[0] == 'decay':
            return self.sub(self.lv(b[3]), ('i', i))
        p = self.ev(b)
        return self.deref(self.padd(p, i), e[2])

    def e_decay(self, e):
        if e[3][0] == 'str':
            return self.ev(e[3])
        return mk('ptr', self.lv(e[3]), ZERO)

    def padd(self, p, i):
        if p.op == 'ptr':
            return mk('ptr', p.args[0], add(p.args[1], i))
        if p.op in ('bv', 'bvo'):
            return mk(p.op, *p.args[:-1], add(p.args[-1], i))
        if p.op == 'tv':
            return mk('tv', *p.args[:-1], add(p.args[-1], scale(i, p.args[1])))
        if p.op == 'mux':
            return mux(p.args[0], self.padd(p.args[1], i), self.padd(p.args[2], i))
        if p.op == 'pobj':
            if cval(i) == 0:
                return p
            raise Unsupported('arithmetic on an object pointer')
        if p.op == 'oo':
            # unknown array
            r = mk('da', p.args[0])
            return mk('ptr', mk('loc', r, ()), i)
        raise Unsupported('pointer arithmetic on ' + p.op)

    def l_temp(self, e):
        if e[3] is None:
            raise Unsupported('temp')
        return self.lv(e[3])

    def e_temp(self, e):
        return self.ev(e[3])

    def arith_wrap(self, v, tid):
        return v

    def e_bin(self, e):
        op = e[3]
        if op in ('&&', '||'):
            a = self.evb(e[4])
            if op == '&&':
                if a is ZERO:
                    return ZERO
                _, (v, w) = None, self.branch(a, lambda: self.evb(e[5]), lambda: ZERO)
                if v is None:
                    return ZERO if w is not None else ZERO
                return mul(a, v)
            if a is ONE:
                return ONE
            w, v = self.branch(a, lambda: ONE, lambda: self.evb(e[5]))
            if v is None:
                return ONE
            return bor(a, v)
        if op == ',':
            self.ev_discard(e[4])
            return self.ev(e[5])
        a = self.ev(e[4])
        b = self.ev(e[5])
        return self.binop(op, a, b, e[2], self.ty(self.deref_t(e[4][2])))

    def binop(self, op, a, b, tid, lt_=None):
        if a.op == 'P' and b.op == 'P':
            return self.intop(op, a, b, tid)
        if op in ('==', '!='):
            r = self.peq(a, b)
            return r if op == '==' else bnot(r)
        if op == '-':
            if a.op == b.op == 'ptr' and a.args[0] is b.args[0]:
                return sub(a.args[1], b.args[1])
            if a.op == b.op and a.op in ('bv', 'bvo') and a.args[:-1] == b.args[:-1]:
                return sub(a.args[-1], b.args[-1])
            if b.op == 'P':
                return self.padd(a, neg(b))
        if op == '+':
            if b.op == 'P' and a.op != 'P':
                return self.padd(a, b)
            if a.op == 'P':
                return self.padd(b, a)
        if op in ('<', '<=', '>', '>=') and a.op == b.op == 'ptr' and a.args[0] is b.args[0]:
            return self.intop(op, a.args[1], b.args[1], tid)
        return self.opq('bin' + op, tid, a, b)

    def peq(self, a, b):
        if a is b:
            return ONE
        if a.op == b.op == 'ptr' and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.op == b.op and a.op in ('bv', 'tv', 'bvo') and a.args[:-1] == b.args[:-1]:
            return eq(a.args[-1], b.args[-1])
        for x, y in ((a, b), (b, a)):
            if y.op == 'null':
                if x.op in ('ptr', 'pobj', 'bv', 'tv', 'bvo'):
                    return ZERO
                return bnot(atom(mk('bool', 'nn', node_of(x))))
            if x.op == 'mux':
                return mux(x.args[0], self.peq(x.args[1], y), self.peq(x.args[2], y))
        if a.op == 'oo' and b.op == 'oo' and a.args[0].op == 'str' and b.args[0].op == 'str':
            return ZERO
        k = sorted((node_of(a), node_of(b)), key=lambda n: show(n))
        return atom(mk('bool', 'eq', k[0], k[1]))

    def intop(self, op, a, b, tid):
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if op == '<':
                return lt(a, b)
            if op == '<=':
                return le(a, b)
            if op == '>':
                return lt(b, a)
            if op == '>=':
                return le(b, a)
            return eq(a, b) if op == '==' else bnot(eq(a, b))
        if op in ('/', '%'):
            c = cval(b)
            if c is not None and c > 0:
                return floordiv(a, c) if op == '/' else mod(a, c)
            return atom(mk('bitop', op, a, b))
        if op == '<<':
            c = cval(b)
            if c is not None and 0 <= c < 200:
                return scale(a, 1 << c)
        if op == '>>':
            c = cval(b)
            if c is not None and 0 <= c < 200:
                return floordiv(a, 1 << c)
        if op in ('&', '|', '^'):
            if all(x.args[0] == () or all(y.op in IVERSON for _, m in x.args[0] for y, _2 in m) for x in (a, b)):
                isb = lambda x: mul(x, x) is x
                if isb(a) and isb(b):
                    return mul(a, b) if op == '&' else bor(a, b) if op == '|' else sub(add(a, b), scale(mul(a, b), 2))
            if op == '&':
                c = cval(b)
                if c is not None and c > 0 and (c & (c + 1)) == 0:
                    return mod(a, c + 1)
        return bitop(op, a, b)

    def opq(self, why, tid, *args):
        self.notes.append('%s at %s' % (why, self.lastline))
        n = mk('opaque', why, *[node_of(x) for x in args if isinstance(x, Node)])
        return view(self.vt(self.deref_t(tid)), n)

    def e_un(self, e):
        op = e[3]
        v = self.ev(e[4])
        if op == '!':
            return bnot(self.truth(v, self.ty(self.deref_t(e[4][2]))))
        if v.op == 'P':
            if op == '-':
                return neg(v)
            if op == '+':
                return v
            if op == '~':
                t = self.ty(self.deref_t(e[2]))
                if t.get('u'):
                    return sub(const((1 << t['w']) - 1), v)
                return sub(const(-1), v)
        return self.opq('un' + op, e[2], v)

    def e_incdec(self, e):
        op, pre, x = e[3], e[4], e[5]
        loc = self.lv(x)
        old = self.rd(loc)
        d = ONE if op == '++' else const(-1)
        new = add(old, d) if old.op == 'P' else self.padd(old, d)
        self.wr(loc, new)
        return new if pre else old

    def l_incdec(self, e):
        if not e[4]:
            return self.new_root('tmp', self.vt(self.deref_t(e[2])), self.e_incdec(e))
        loc = self.lv(e[5])
        old = self.rd(loc)
        d = ONE if e[3] == '++' else const(-1)
        self.wr(loc, add(old, d) if old.op == 'P' else self.padd(old, d))
        return loc

    def l_assign(self, e):
        lt_ = self.ty(self.deref_t(e[3][2]))
        v = self.ev_init(e[4], self.deref_t(e[3][2]))
        loc = self.lv(e[3])
        self.wr(loc, v)
        return loc

    def l_opassign(self, e):
        op = e[3]
        b = self.ev(e[5])
        loc = self.lv(e[4])
        a = self.rd(loc)
        v = self.binop(op, a, b, e[2])
        if len(e) > 6 and v.op == 'P':
            v = self.narrow(v, self.deref_t(e[2]))
        self.wr(loc, v)
        return loc

    def narrow(self, v, tid, src=None):
        t = self.ty(tid)
        if t['k'] == 'bool':
            return v
        if t['k'] != 'int' or t['w'] > 32 or v.op != 'P':
            return v
        w = t['w']
        if w == 32 and cval(v) is None and not any(sum(e for a, e in m if a.op not in T.IVERSON) > 1 for c, m in v.args[0]):
            return v         # numbers of things fit; products of them need not
        c = cval(v)
        if c is not None:
            c &= (1 << w) - 1
            if not t['u'] and c >> (w - 1):
                c -= 1 << w
            return const(c)
        lo, hi = (0, (1 << w) - 1) if t['u'] else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if entails(sub(v, const(lo))) and entails(sub(const(hi), v)):
            return v
        a = as_atom(v)
        if a is not None and w == 8 and (a.op in ('tb', 'strm', 'byte') or
                                         a.op == 'sel' and (src is None or self.ty(src)['k'] == 'int' and self.ty(src)['w'] == 8)):
            return v
        if src is not None and self.ty(src)['k'] == 'int' and self.ty(src)['w'] <= w and self.ty(src)['u'] == t['u']:
            return v
        if t['u']:
            return mod(v, 1 << w)
        return atom(mk('cast', w, node_of(v)))

    def e_cond(self, e):
        c = self.evb(e[3])
        if c is ONE:
            return self.ev(e[4])
        if c is ZERO:
            return self.ev(e[5])
        a, b = self.branch(c, lambda: self.ev(e[4]), lambda: self.ev(e[5]))
        if a is None:
            return b
        if b is None:
            return a
        return self.mux(c, a, b)

    def e_cast(self, e):
        kind, x = e[3], e[4]
        if kind == 'void':
            self.ev_discard(x)
            return None
        v = self.ev(x)
        tt = self.ty(e[2])
        st = self.ty(self.deref_t(x[2]))
        if kind == 'int':
            if tt['k'] == 'bool':
                return self.truth(v, st)
            if v.op == 'P':
                return self.narrow(v, e[2], self.deref_t(x[2]))
            return v
        if kind == 'bit':
            return self.ptr_cast(v, st, tt)
        if kind in ('ToVoid', 'Dependent'):
            return v
        if v.op in ('pobj', 'ptr', 'oo', 'null', 'P', 'arr', 'oa', 'rec', 'or', 'mux', 'bv', 'tv', 'bvo'):
            return v
        return self.opq('cast ' + kind, e[2], v)

    def e_initlist(self, e, tid=None):
        tid = e[2] if tid is None else tid
        tid = self.deref_t(tid)
        t = self.ty(tid)
        vt = self.vt(tid)
        items = e[3]
        if vt[0] == 'vec':
            vals = [self.ev_init(x, None) if x[0] != 'initlist' else self.e_initlist(x) for x in items]
            n = t.get('n', len(vals))
            return self.array_of(vals, n, vt[1], t.get('t'))
        if vt[0] == 'rec':
            fs = self.fields_of(vt[1]) if vt[1] in self.p.recs else []
            vals = []
            for i, (n, ft, init) in enumerate(fs):
                if i < len(items) and items[i] is not None:
                    vals.append((n, self.ev_init(items[i], ft)))
                elif init is not None:
                    vals.append((n, self.ev_init(init, ft)))
                else:
                    vals.append((n, self.zero(self.vt(ft), ft)))
            return mkrec(vt[1], tuple(vals))
        if len(items) == 1:
            return self.ev(items[0])
        if not items:
            return self.zero(vt, tid)
        return self.opq('initlist', tid)

    def array_of(self, vals, n, et, etid=None):
        ps = [('piece', [fresh('u')], (ONE,), ONE, v) for v in vals]
        if n is not None and n > len(vals):
            ps.append(('piece', [fresh('u')], (const(n - len(vals)),), ONE, self.zero(et, etid)))
        return mkarr(ps)

    def zero(self, vt, tid=None):
        k = vt[0]
        if k in ('int', 'bool', 'fld'):
            return ZERO
        if k == 'vec':
            t = self.ty(tid) if tid is not None else {}
            if t.get('k') == 'arr' and 'n' in t:
                return comp(fresh('z'), const(t['n']), self.zero(vt[1], t['t']))
            if t.get('q') == 'std::array':
                n = t['a'][1]
                n = int(n['i']) if isinstance(n, dict) else n
                return comp(fresh('z'), const(n), self.zero(vt[1], t['a'][0]))
            return mk('arr', ())
        if k == 'rec':
            return self.default_value(vt, tid)
        if k == 'oth' and (vt[1].startswith('ptr') or 'ptr<' in vt[1]):
            return mk('null')
        return mk('oo', mk('dflt', vt[1] if k == 'oth' else str(vt)), vt)

    def default_value(self, vt, tid=None):
        rn = vt[1]
        if rn == PRG_CLASS and self.prg_model:
            return self.prg_new(None)
        if rn.startswith('opt<'):
            return mkrec(rn, (('has', ZERO), ('val', view(T.REC_FIELDS[rn][1][1], mk('undef', 'opt')))))
        if rn.startswith('pair<'):
            return mkrec(rn, tuple((n, self.zero(t)) for n, t in T.REC_FIELDS[rn]))
        if rn in self.p.recs:
            for m in self.p.recs[rn].get('methods', []):
                if m.get('default') and not m.get('implicit') and m['k'] in self.p.fns:
                    loc = self.new_root('obj', vt)
                    self.S.st[loc.args[0]] = self.undef_rec(rn)
                    self.inline(m['k'], loc, [], m)
                    return self.read(loc)
            vals = []
            for n, ft, init in self.fields_of(rn):
                if init is not None:
                    vals.append((n, self.ev_init(init, ft)))
                else:
                    fvt = self.vt(ft)
                    if fvt[0] in ('int', 'bool'):
                        vals.append((n, view(fvt, mk('undef', n))))
                    else:
                        vals.append((n, self.zero(fvt, ft)))
            return mkrec(rn, tuple(vals))
        return mk('oo', mk('dflt', rn), vt)

    def undef_rec(self, rn):
        vals = []
        for n, ft, init in self.fields_of(rn):
            vals.append((n, view(self.vt(ft), mk('undef', n))))
        return mkrec(rn, tuple(vals)) if vals else mk('oo', mk('dflt', rn), ('rec', rn))

    def e_lambda(self, e):
        rec, caps = e[3], e[4]
        r = self.p.recs[rec]
        vals = []
        for i, c in enumerate(r.get('caps', [])):
            ci = caps[i] if i < len(caps) else None
            if c.get('this'):
                vals.append(('this', self.pobj(self.frame.this) if c.get('ref') else self.read(self.frame.this)))
            elif c.get('ref'):
                vals.append((c['v'], self.pobj(self.lv(ci)) if ci is not None else self.pobj(self.frame.env[c['v']])))
            else:
                vals.append((c['v'], self.ev(ci) if ci is not None else self.rd(self.frame.env[c['v']])))
        return mk('clo', rec, tuple(vals))

    def call_closure(self, clo, argexprs=None, argvals=None):
        rec = clo.args[0]
        r = self.p.recs[rec]
        op = r['op']
        fn = self.p.fns.get(op['k'])
        if fn is None:
            raise Unsupported('lambda body')
        args = []
        for i, p in enumerate(fn['params']):
            if argexprs is not None:
                args.append(self.bind_arg(p['t'], argexprs[i]))
            else:
                args.append(self.new_root('arg', self.vt(self.deref_t(p['t'])), argvals[i]))
        caps = {}
        this = self.frame.this
        for c, (n, v) in zip(r.get('caps', []), clo.args[1]):
            if c.get('this'):
                this = self.deref(v) if c.get('ref') else self.new_root('cap', ('oth', '?'), v)
            elif c.get('ref'):
                caps[n] = self.deref(v)
            else:
                caps[n] = self.new_root('cap', ('oth', '?'), v)
        return self.inline_env(op['k'], this, args, op, caps)

    def inline_env(self, key, this, args, ref, caps):
        fn = self.p.fns[key]
        old = fn.get('_caps')
        # captured variables are visible under their own identifiers
        fr_env = caps
        of = self.frame
        res = None
        fn2 = fn
        self._pending_env = fr_env
        return self._inline_caps(key, this, args, ref, fr_env)

    def _inline_caps(self, key, this, args, ref, env):
        fn = self.p.fns[key]
        params = fn['params']
        save = Frame.__init__

        ev = self
        orig_stmt = self.stmt
        done = []

        def stmt(s):
            if not done:
                done.append(1)
                ev.stmt = orig_stmt
                for k, v in env.items():
                    ev.frame.env.setdefault(k, v)
            return orig_stmt(s)
        self.stmt = stmt
        try:
            return self.inline(key, this, args, ref)
        finally:
            self.stmt = orig_stmt

    def e_throw(self, e):
        if e[3] is None:
            self.leave('throw', getattr(self, 'cur_exc', mk('exc', 'std::exception', (), ())))
        x = e[3]
        while x[0] in ('temp',):
            x = x[3]
        q = self.ty(self.deref_t(x[2])).get('q', self.ty(self.deref_t(x[2]))['s'])
        arg = None
        if x[0] == 'ctor' and x[4] and q == 'std::system_error':
            arg = self.ev(x[4][0])
        self.leave('throw', mk('exc', q, (node_of(arg),) if arg is not None else (), self.lastline or ()))

    def e_new(self, e):
        return self.opq('new', e[2])

    def e_delete(self, e):
        self.ev(e[3])
        return None

    def e_stmtexpr(self, e):
        self.stmt(e[3])
        return None

    def e_opaque(self, e):
        return self.opq(str(e[3]), e[2])

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        return self.value_of_call(e)

    e_mcall = e_icall = e_call

    def value_of_call(self, e):
        v = self.ev_call(e)
        if self.call_gives_ref(e) and v is not None:
            return self.rd(self.deref(v, self.deref_t(e[3]['rt']) if e[0] != 'icall' else None))
        return v

    def call_gives_ref(self, e):
        if e[0] == 'icall':
            return False
        return self.ty(e[3]['rt'])['k'] in ('ref', 'rref')

    def ev_call(self, e):
        if e[0] == 'icall':
            f = self.ev(e[3])
            if f.op == 'clo':
                return self.call_closure(f, e[4])
            if f.op == 'oo' and f.args[0].op == 'fnref':
                k = f.args[0].args[0]
                fn = self.p.fns.get(k)
                if fn:
                    args = [self.bind_arg(p['t'], a) for p, a in zip(fn['params'], e[4])]
                    return self.inline(k, None, args, None)
            return self.opq('indirect call', e[2], *[self.ev(a) for a in e[4]])
        ref = e[3]
        q = strip_targs(ref['q'])
        if e[0] == 'mcall':
            obj, args = e[4], e[5]
        else:
            obj, args = None, e[4]
        r = self.model(q, ref, e, obj, args)
        if r is not NotImplemented:
            return r
        key = ref['k']
        if obj is not None:
            loc = self.lv(obj)
            if len(e) > 6 and e[6]:
                return self.virtual(e, ref, loc, args)
        else:
            loc = None
        if key in self.p.fns and self.p.fns[key].get('body') is not None:
            bound = self.bind_args(ref, args)
            return self.inline(key, loc, bound, ref)
        return self.unknown(q, ref, e, loc, args)

    def unknown(self, q, ref, e, loc, args):
        vals = []
        locs = []
        pts = ref.get('pt', [])
        for i, a in enumerate(args):
            pt = self.ty(pts[i]) if i < len(pts) else None
            if pt is not None and pt['k'] in ('ref', 'rref') and not self.ty(pt['t']).get('const'):
                l = self.lv(a)
                locs.append(l)
                vals.append(self.rd(l))
            else:
                vals.append(self.ev(a))
        if loc is not None:
            vals.insert(0, self.rd(loc))
            if not ref.get('c'):
                locs.append(loc)
        self.notes.append('call of %s at %s' % (q, self.lastline))
        n = mk('opaque', 'call ' + q, *[node_of(v) for v in vals if v is not None])
        for i, l in enumerate(locs):
            if l.op == 'loc':
                self.wr(l, view(self.loc_type(l), mk('opaque', 'eff%d ' % i + q, *[node_of(v) for v in vals if v is not None])))
        rt = ref['rt']
        if self.ty(rt)['k'] in ('ref', 'rref'):
            t = self.deref_t(rt)
            loc2 = self.new_root('ukn', self.vt(t), view(self.vt(t), n))
            return self.pobj(loc2)
        if self.ty(rt)['k'] == 'void':
            return None
        return view(self.vt(rt), n)

    def virtual(self, e, ref, loc, args):
        """dynamic dispatch"""
        v = None
        try:
            v = self.rd(loc)
        except Unsupported:
            pass
        cls = None
        if v is not None and v.op in ('rec',):
            cls = v.args[0]
        name = ref['q'].split('::')[-1]
        if cls:
            k = self.find_method(cls, ref)
            if k:
                return self.inline(k, loc, self.bind_args(ref, args), ref)
        r = self.virtual_model(e, ref, loc, args)
        if r is not NotImplemented:
            return r
        return self.unknown(strip_targs(ref['q']), ref, e, loc, args)

    def find_method(self, cls, ref):
        tail = ref['k'].split('::')[-1]
        r = self.p.recs.get(cls)
        if not r:
            return None
        name = strip_targs(ref['q']).split('::')[-1]
        for m in r.get('methods', []):
            if strip_targs(m['q']).split('::')[-1] == name and m.get('pt') == ref.get('pt') and m['k'] in self.p.fns and self.p.fns[m['k']].get('body') is not None:
                return m['k']
        for b in r.get('bases', []):
            k = self.find_method(b, ref)
            if k:
                return k
        return None

    def e_ctor(self, e):
        ref, args = e[3], e[4]
        cls = ref.get('cls', '')
        vt = self.vt(self.deref_t(e[2]))
        r = self.model_ctor(ref, e, vt, args)
        if r is not NotImplemented:
            return r
        if (ref.get('copy') or ref.get('move')) and (ref.get('implicit') or ref['k'] not in self.p.fns):
            return self.ev(args[0])
        if vt[0] == 'rec' and vt[1] in self.sealed:
            return self.seal(ref, vt, args)
        if ref['k'] in self.p.fns and self.p.fns[ref['k']].get('body') is not None:
            loc = self.new_root('obj', vt)
            self.S.st[loc.args[0]] = self.undef_rec(vt[1]) if vt[0] == 'rec' and vt[1] in self.p.recs else mk('oo', mk('dflt', str(vt)), vt)
            if ref.get('default') and ref.get('implicit'):
                self.S.st[loc.args[0]] = self.default_value(vt, self.deref_t(e[2]))
                return self.read(loc)
            self.inline(ref['k'], loc, self.bind_args(ref, args), ref)
            return self.read(loc)
        if vt[0] == 'rec' and vt[1] in self.p.recs and not args:
            return self.default_value(vt, self.deref_t(e[2]))
        if not args:
            return self.zero(vt, self.deref_t(e[2]))
        return view(vt, mk('opaque', 'ctor ' + strip_targs(ref['q']), *[node_of(self.ev(a)) for a in args]))

    # sealed constructors
    def seal(self, ref, vt, args):
        vals = []
        for i, a in enumerate(args):
            vals.append(node_of(self.ev(a)))
        return self.mkseal(vt[1], ref['k'], vals)

    def mkseal(self, cls, key, vals):
        sm = self.seal_summary(cls, key)
        # refusal conditions of the constructor apply to the caller
        env = {p.args[0]: v for p, v in zip(sm['params'], vals)}
        if self.simple(sm['throw']):
            tc = to_poly(subst(sm['throw'], env))
        else:
            tc = atom(mk('bool', 'st', mk('call', cls, key, *vals)))
        if tc is not ZERO:
            def thr():
                self.leave('throw', mk('exc', sm['exc'], (), self.lastline or ()))
            self.branch(tc, thr, lambda: None)
        return mk('or', mk('call', cls, key, *vals), cls)

    def seal_summary(self, cls, key):
        sm = self.sealcache.get(key)
        if sm is not None:
            return sm
        fn = self.p.fns.get(key)
        if fn is None:
            raise Unsupported('constructor ' + key)
        self.need_rec(cls)
        self.sealcache[key] = {'params': [], 'throw': ZERO, 'exc': '', 'fields': {}}
        save = (self.S, self.exits, self.base, self.frame, CTX.facts)
        params = []
        self.S = State(ONE, {})
        self.exits = []
        self.base = ()
        self.sync()
        locs = []
        for p in fn['params']:
            v = fresh('a')
            t = self.deref_t(p['t'])
            params.append(v)
            locs.append(self.new_root('p', self.vt(t), view(self.vt(t), v)))
        loc = self.new_root('obj', ('rec', cls))
        self.S.st[loc.args[0]] = self.undef_rec(cls)
        self.frame = Frame(fn)
        fields = {}
        wassealed = cls in self.sealed
        self.sealed.discard(cls)
        try:
            try:
                self.inline(key, loc, locs, None)
                val = self.read(loc)
            except Dead:
                val = None
            CTX.set(())
            tc = ZERO
            exc = ''
            for e in self.exits:
                if e.kind == 'throw':
                    tc = add(tc, e.pc)
                    exc = e.val.args[0]
            if val is not None:
                for n, t in T.REC_FIELDS[cls]:
                    fields[n] = field(val, n)
        finally:
            if wassealed:
                self.sealed.add(cls)
            self.S, self.exits, self.base, self.frame = save[:4]
            CTX.set(save[4])
        sm = {'params': params, 'throw': tc, 'exc': exc, 'fields': fields}
        self.sealcache[key] = sm
        T_SEALS[key] = (self, sm)
        return sm

    SIMPLE = {'P', 'v', 'fld', 'or', 'call', 'ge0', 'eq0', 'pos', 'len', 'oa', 'sym', 'bool', 'sel', 'oo', 'uf', 'div'}

    def simple(self, t):
        if t.op not in self.SIMPLE:
            return False
        return all(self.simple(k) for k in T._kids(t.args))

    def sealed_field(self, v, f):
        call = v.args[0]
        cls, key = call.args[0], call.args[1]
        sm = self.seal_summary(cls, key)
        t = sm['fields'].get(f)
        if t is not None and self.simple(t):
            return subst(t, {p.args[0]: x for p, x in zip(sm['params'], call.args[2:])})
        return field(v, f)

    def unseal(self, v):
        cls = v.args[0].args[0]
        return mkrec(cls, tuple((n, self.getfield(v, n)) for n, t in T.REC_FIELDS[cls]))


T_SEALS = {}


def seal_len(x):
    """length of a field of a sealed object, when its summary has a simple length"""
    if x.op == 'fld' and x.args[0].op == 'or' and x.args[0].args[0].op == 'call':
        call = x.args[0].args[0]
        s = T_SEALS.get(call.args[1])
        if s:
            ev, sm = s
            t = sm['fields'].get(x.args[1])
            if t is not None and t.op in ('arr', 'oa'):
                n = length(t)
                if ev.simple(n):
                    return to_poly(subst(n, {p.args[0]: y for p, y in zip(sm['params'], call.args[2:])}))
    return None


T.LENRULES.append(seal_len)
