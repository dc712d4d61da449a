"""SEQ contracts, operation by operation.

Every op_* function states pre- and postcondition of one public operation, runs the verifier on
the operation's current body, and returns the run (with its obligations)."""
import re
import z3
from irparse import T, PTR
from symex import *
from fifo import *

U32 = 1 << 32


def find(mod, rx):
    c = [n for n, d in mod.dem.items() if n in mod.funcs and re.search(rx, d)]
    if len(c) != 1:
        # identical constructor/destructor variants (complete/base object) are interchangeable
        ds = {mod.dem[n] for n in c}
        if len(ds) == 1 and c:
            c = sorted(c, key=lambda n: (not re.search(r'[CD]1E', n), not re.search(r'[CD]2E', n), n))
            return mod.funcs[c[0]]
        raise Unsupported('entry %s: %d candidates' % (rx, len(c)))
    return mod.funcs[c[0]]


ET = dict(u64='unsigned long', item='Item', big='Big')


class VecRef(Contract):
    """std::vector<reference_wrapper<T>>: an (unbounded) sequence of references, kept as ghost"""
    name = 'std::vector<std::reference_wrapper> (default/move ctor, emplace_back, dtor)'
    trusted = True

    def __init__(self, what, f):
        self.what, self.f = what, f

    def key(self, p):
        return 'vec%d+%d' % (p.r.id, p.off)

    def apply(self, ex, st, args, loc):
        k = self.key(args[0])
        f = self.f
        if self.what == 'ctor':
            f.setg(st, k + 'n', 0)
            f.setg(st, k + 'a', ABase('novec%d' % next(ex.fresh_n), None))
            return [(st, 'ret', None)]
        if self.what == 'move':
            o = self.key(args[1])
            f.setg(st, k + 'n', st.ghost[o + 'n'])
            f.setg(st, k + 'a', st.ghost[o + 'a'])
            f.setg(st, o + 'n', 0)
            return [(st, 'ret', None)]
        if self.what == 'emplace':
            p = args[1]
            n, a = st.ghost[k + 'n'], st.ghost[k + 'a']
            ok = isinstance(p, Ptr) and p.r is f.STORE and p.off == 0
            ex.oblige(st, ok, '[C01,C05] allocate_range hands out element storage of the stream', loc)
            if not ok:
                return []
            ex.oblige(st, And(Le(0, p.idx), Lt(p.idx, f.v0.cap)), '[C01,C05] allocate_range stays inside the element storage', loc)
            f.setg(st, k + 'a', AStore(a, n, p.idx))
            f.setg(st, k + 'n', n + 1)
            return [(st, 'ret', UNDEF)]
        return [(st, 'ret', None)]


class SizeContract(Contract):
    """size(): exactly the number of unread elements, nothing changed, announced while it looks.
    Verified on the body by op_size before it is used at any call site."""
    name = 'size()'

    def __init__(self, f):
        self.f = f

    def apply(self, ex, st, args, loc):
        f = self.f
        if not (isinstance(args[0], Ptr) and args[0].r is f.this and args[0].off == 0):
            raise Unsupported('size() of another stream')
        if f.track:
            b = ex.fresh('resz', kind='bool')
            f.setg(st, 'resz', Or(st.ghost['resz'], b))
            f.setg(st, 'chk', f.registered(ex, st))
        if f.env:
            # the other end keeps moving: never more elements (consumer) / more room (producer) than there are;
            # exact once the producer has closed the stream
            was = f.view(ex, st).valid
            f.env_step(ex, st)
            v = f.view(ex, st)
            r = ex.fresh('size', None)
            ex.assume(st, And(r >= 0, Le(r, v.cap)))
            if f.role == 'consumer':
                ex.assume(st, And(Le(r, v.cnt), Implies(Eq(was, 0), Eq(r, v.cnt))))
                seen = If(r < st.ghost['seen'], r, st.ghost['seen'])
            else:
                ex.assume(st, Le(v.cnt, r))
                seen = If(r > st.ghost['seen'], r, st.ghost['seen'])
            f.setg(st, 'seen', seen)
            return [(st, 'ret', r)]
        return [(st, 'ret', f.view(ex, st).cnt)]


ENV = False
_size_ok = {}


def size_contract_holds(mod, kind):
    """the contract may stand in for the body only if the body satisfies it, in every caller's situation"""
    k = (id(mod), kind, ENV)
    if k not in _size_ok:
        _size_ok[k] = all(size_lemma(mod, kind, ENV, role, reg) for role in ('consumer', 'producer') for reg in (False, True))
    return _size_ok[k]


def size_lemma(mod, kind, env, role, reg):
    global ENV
    old, ENV = ENV, env
    try:
        return discharge_all(op_size(mod, kind, role, reg))
    except (Unsupported, Budget):
        return False
    finally:
        ENV = old


def discharge_all(r):
    S = z3.Solver()
    S.set('timeout', 10000)
    for a in r.ex.axioms:
        S.add(a)
    for o in r.ex.obs:
        S.push()
        for h in o.hyp:
            if h is not True:
                S.add(h)
        S.add(z3.Not(o.goal) if isz(o.goal) else z3.BoolVal(not o.goal))
        res = S.check()
        S.pop()
        if res != z3.unsat:
            return False
    return True


class Run:
    def __init__(self, mod, kind, role, cls=None, contracts=None, use_size=True, **kw):
        self.mod, self.kind = mod, kind
        if cls is None:
            import fifo_class
            import fifo_big
            cls = {'u64': Fifo, 'item': fifo_class.FifoItem, 'big': fifo_big.FifoBig}[kind]
        self.f = cls(mod, kind, role, ENV)
        cs = list(contracts or [])
        vr = r'^std::vector<std::reference_wrapper<%s>, .*>::' % re.escape(ET[kind])
        cs += [(vr + r'vector\(\)$', VecRef('ctor', self.f)),
               (vr + r'vector\(std::vector<.*&&\)$', VecRef('move', self.f)),
               (vr.replace('^std', r'(?:^| )std') + r'emplace_back<', VecRef('emplace', self.f)),
               (vr + r'~vector\(\)$', VecRef('dtor', self.f))]
        cs += self.f.contracts()
        if use_size and size_contract_holds(mod, kind):
            cs.append((r'^RingBufferBaseHeap<%s, [^<>]*>::size\(\)$' % re.escape(ET[kind]), SizeContract(self.f)))
        self.ex = Exec(mod, contracts=cs, hooks=self.f)
        self.st = self.f.setup(self.ex, **kw)
        self.E = re.escape(ET[kind])
        if use_size and ENV and not size_contract_holds(mod, kind):
            raise Unsupported('size() does not satisfy its contract')
        self.name = '?'

    @property
    def v0(self):
        return self.f.v0

    @v0.setter
    def v0(self, v):
        self.f.v0 = v

    def call(self, rx, args, st=None):
        fn = find(self.mod, rx)
        self.ex.cur = self.mod.dem[fn.name]
        st = (st or self.st).clone()
        return self.ex.run_function(fn, args, st)

    def vcall(self, name, args, st=None):
        """member function of the stream class, by name"""
        return self.call(r'(^| )RingBuffer(Base|BaseHeap|BaseHeapAbstract)?<%s, .*>::%s\([^\x27]*$' % (self.E, name), args, st)

    def this(self):
        return Ptr(self.f.this)

    def sigdest(self):
        sr = Region('sigdest', size=4, default='undef')
        self.st.cells(sr)
        return sr

    def ret_only(self, outs, what, tags='C01'):
        """the operation throws nothing"""
        for s, k, v in outs:
            self.f.rebase(self.ex, s)
            if k == 'exc':
                self.ex.oblige(s, False, '[%s] %s: throws nothing' % (tags, what))
            elif k == 'ret':
                yield s, v
            else:
                raise Unsupported('outcome ' + k)

    def split(self, outs, what, types, cond, tags='C07', flags={}, **post):
        """outcomes with the documented closed-port exceptions checked; yields normal returns"""
        ex, f = self.ex, self.f
        for s, k, v in outs:
            f.rebase(ex, s)
            if k != 'exc':
                yield s, v
                continue
            t = v['type'] if v else None
            ex.oblige(s, t in types, '[%s] %s: throws only the documented exception' % (tags, what))
            c = cond(t) if t in types else False
            ex.oblige(s, c, '[%s] %s: reports a closed port only when closed and drained' % (tags, what))
            f.post(ex, s, tags, flags=flags, exc=True, what=what + ' (throwing)', **post)


def ti(mod, n):
    v = mod.global_init(n)[1]
    return v.a if isinstance(v.a, str) else str(v.a)


def closed(r):
    return ti(r.mod, 'TI_CLOSED')


def nomore(r):
    return ti(r.mod, 'TI_NOMORE')


# ===================================================================== producer
def op_push(mod, kind, rv=False):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    item, val = f.new_item(ex, r.st, 'item')
    sig = ex.sym('sig', 4)
    outs = r.call(r'^void FIFO::push<%s>\(%s const&%s,' % (r.E, r.E, '&' if rv else ''), [r.this(), item, sig])
    w = 'push(T&&)' if rv else 'push'
    for s, v in r.ret_only(outs, w):
        f.post(ex, s, 'C01', pushed=[(val, sig)], wcount=1, flags={}, what=w, pushtag='C01')
        f.item_kept(ex, s, item, val, w)
    return r


def op_push_rv(mod, kind):
    return op_push(mod, kind, True)


def op_local_push(mod, kind):
    """the contract insert relies on"""
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    item, val = f.new_item(ex, r.st, 'item')
    sig = ex.sym('sig', 4)
    sr = r.sigdest()
    ex.store(r.st, Ptr(sr), I32, sig)
    w = 'local_push'
    for s, v in r.ret_only(r.vcall('local_push', [r.this(), item, Ptr(sr)]), w, 'C01,C03'):
        f.post(ex, s, 'C01', pushed=[(val, sig)], wcount=1, flags={}, what=w)
        f.item_kept(ex, s, item, val, w)
    return r


def op_push_default(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    item, val = f.new_item(ex, r.st, 'item')
    for s, v in r.ret_only(r.call('^client_push$', [r.this(), item]), 'push without a signal', 'C01,C03'):
        f.post(ex, s, 'C01,C03', pushed=[(val, f.C.SIG_NONE)], wcount=1, flags={}, what='push without a signal')
    return r


def op_inline_signal_send(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    sig = ex.sym('sig', 4)
    for s, v in r.ret_only(r.vcall('inline_signal_send', [r.this(), sig]), 'inline_signal_send', 'C03'):
        f.post(ex, s, 'C03', pushed=[(None, sig)], flags={}, what='inline_signal_send')
    return r


def op_allocate(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    args, val = f.ctor_args(ex, r.st)
    outs = r.call(r'^%s& FIFO::allocate<%s' % (r.E, r.E), [r.this()] + args)
    for s, v in r.ret_only(outs, 'allocate', 'C05'):
        f.post(ex, s, 'C05', ac=1, flags={'allocate': 1}, what='allocate', allocated=val)
        ex.oblige(s, Lt(r.v0.cnt, r.v0.cap), '[C01,C05] allocate: only when a slot is free')
        f.is_slot(ex, s, v, r.v0.wp, '[C01,C05] allocate: reference to the next free slot')
    return r


def op_allocate_s(mod, kind):
    """allocate_s, user writes element and signal through the handle, handle destroyed"""
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    args, val = f.ctor_args(ex, r.st)
    hd = Region('handle', size=64, default='undef')
    r.st.cells(hd)
    cls = r'FIFO::autorelease<%s, \(FIFO::autotype\)0>' % r.E
    outs = r.call(r'^%s FIFO::allocate_s<' % cls, [Ptr(hd), r.this()] + args)
    sig = ex.sym('sig', 4)
    for s, v in r.ret_only(outs, 'allocate_s', 'C05'):
        f.post(ex, s, 'C05', ac=1, flags={'allocate': 1}, what='allocate_s', allocated=val)
        for s1, p in r.ret_only(r.call('(^| )' + cls + r'::operator\*\(\)$', [Ptr(hd)], s), 'allocate_s: *', 'C05'):
            f.is_slot(ex, s1, p, r.v0.wp, '[C01,C05] allocate_s: handle refers to the next free slot')
            for s2, sp in r.ret_only(r.call('(^| )' + cls + r'::sig\(\)$', [Ptr(hd)], s1), 'allocate_s: sig', 'C05'):
                for user in (False, True):
                    s3 = s2.clone()
                    want = f.C.SIG_NONE
                    nv = val
                    if user:
                        ex.store(s3, sp, I32, sig)
                        want = sig
                        nv = f.user_write(ex, s3, p)
                    elif nv is None:
                        nv = f.slotval(ex, s3, f.STORE, r.v0.wp)
                    for s4, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s3), 'allocate_s: release', 'C05'):
                        f.post(ex, s4, 'C05', pushed=[(nv, want)], wcount=1, flags={'allocate': 0}, what='allocate_s + release')
    return r


def op_allocate_s_copied(mod, kind):
    """a copied handle publishes nothing itself; the copy does"""
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    args, val = f.ctor_args(ex, r.st)
    hd, hd2 = Region('handle', size=64, default='undef'), Region('handle2', size=64, default='undef')
    r.st.cells(hd), r.st.cells(hd2)
    cls = r'FIFO::autorelease<%s, \(FIFO::autotype\)0>' % r.E
    outs = r.call(r'^%s FIFO::allocate_s<' % cls, [Ptr(hd), r.this()] + args)
    for s, v in r.ret_only(outs, 'allocate_s', 'C05'):
        for s1, _ in r.ret_only(r.call('(^| )' + cls + r'::autorelease\(FIFO', [Ptr(hd2), Ptr(hd)], s), 'allocate_s: copy', 'C05'):
            for s2, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s1), 'allocate_s: dtor', 'C05'):
                f.post(ex, s2, 'C05', ac=1, flags={'allocate': 1}, what='allocate_s: copied-from handle destroyed', allocated=val)
                nv = val if val is not None else f.slotval(ex, s2, f.STORE, r.v0.wp)
                for s3, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd2)], s2), 'allocate_s: dtor', 'C05'):
                    f.post(ex, s3, 'C05', pushed=[(nv, f.C.SIG_NONE)], wcount=1, flags={'allocate': 0}, what='allocate_s: copy destroyed')
    return r


def op_send(mod, kind, default=False):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    f.allocated(ex, r.st, 'allocate')
    f.v0 = r.v0 = f.view(ex, r.st)
    sig = ex.sym('sig', 4)
    val = f.slotval(ex, r.st, f.STORE, r.v0.wp)
    w = 'send' + (' without a signal' if default else '')
    outs = r.call('^client_send$', [r.this()]) if default else r.vcall('send', [r.this(), sig])
    if default:
        sig = f.C.SIG_NONE
    for s, v in r.ret_only(outs, w, 'C05'):
        f.post(ex, s, 'C05', pushed=[(val, sig)], wcount=1, flags={'allocate': 0}, what=w)
    return r


def op_send_default(mod, kind):
    return op_send(mod, kind, True)


def _noop(mod, kind, fn, args, what):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    for s, v in r.ret_only(r.vcall(fn, [r.this()] + args(ex)), what, 'C05'):
        f.post(ex, s, 'C05', flags={}, what=what)
    return r


def op_send_unallocated(mod, kind):
    return _noop(mod, kind, 'send', lambda ex: [ex.sym('sig', 4)], 'send without allocate')


def op_send_range_unallocated(mod, kind):
    return _noop(mod, kind, 'send_range', lambda ex: [ex.sym('sig', 4)], 'send_range without allocate_range')


def op_deallocate_unallocated(mod, kind):
    return _noop(mod, kind, 'deallocate', lambda ex: [], 'deallocate without allocate')


def op_deallocate(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    f.allocated(ex, r.st, 'allocate')
    for s, v in r.ret_only(r.vcall('deallocate', [r.this()]), 'deallocate', 'C05'):
        f.post(ex, s, 'C05', flags={'allocate': 0}, what='deallocate')
    return r


def op_deallocate_range(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    f.allocated(ex, r.st, 'allocate_range')
    for s, v in r.ret_only(r.vcall('deallocate', [r.this()]), 'deallocate', 'C05'):
        f.post(ex, s, 'C05', flags={'allocate_range': 0}, what='deallocate after allocate_range')
    return r


def op_allocate_range(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    n = ex.sym('n')
    ex.assume(r.st, n < U32)
    f.force_ok = lambda ex, st, v: And(Eq(v, n), f.v0.cap < n)
    f.wait_cond = lambda ex, st, v: Lt(v.cap, v.cnt + n)
    out = Region('refs', size=24, default='undef')
    r.st.cells(out)
    k = 'vec%d+0' % out.id
    C, v0 = f.C, r.v0
    jj = ex.sym('i!any', None)

    def keys(s):
        for kk in s.ghost:
            if isinstance(kk, str) and kk.startswith('vec') and kk.endswith('n'):
                yield kk[:-1]

    def wrap(x):
        return If(x >= v0.cap, x - v0.cap, x)

    def sigs(ex, cnt, p):
        old = ex.arr_field(f.st0, f.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG).select(ex, p)
        return If(Lt(If(p >= v0.wp, p - v0.wp, p - v0.wp + v0.cap), cnt), C.SIG_NONE, old)

    def header(ex, s):
        a = s.rcells(f.SIG).get(C.OFF_SIG_SIG)
        ks = list(keys(s))
        if a and isinstance(a[1], ABase) and a[1].name.startswith('ha_') and len(ks) == 1:
            cnt = s.ghost[ks[0] + 'n']
            s.cells(f.SIG)[C.OFF_SIG_SIG] = (C.SZ_SIG_SIG, AFun(lambda ex, i: If(And(i >= 0, Lt(i, v0.cap)), sigs(ex, cnt, i), a[1].select(ex, i))))
    f.header = header

    def inv(ex, s):
        g = []
        for kk in keys(s):
            cnt, a = s.ghost[kk + 'n'], s.ghost[kk + 'a']
            g.append(And(cnt >= 0, Implies(And(jj >= 0, Lt(jj, cnt)), Eq(a.select(ex, jj), wrap(v0.wp + jj)))))
            # signals: slots handed out so far carry none, the rest is untouched
            p = ex.sym('j!any', None)
            now = ex.arr_field(s, f.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG).select(ex, p)
            g.append(Implies(And(p >= 0, Lt(p, v0.cap)), Eq(now, sigs(ex, cnt, p))))
        return And(*g)
    f.inv.append(('references handed out so far', inv))

    def lc(ex, fn, entry, hav, fr):
        out = []
        import symex
        for key, old, new in hav:
            if key[0] == 'cell' and key[3] == 8 and isz(new) and z3.is_int(new):
                for kk in keys(entry):
                    out.append(symex.Cand('%s == handed out' % symex.kname(key), lambda ex, s, e, fm, f0, key=key, kk=kk: Eq(symex.cur(ex, s, key, fm), s.ghost[kk + 'n'])))
                    out.append(symex.Cand('%s == next slot' % symex.kname(key), lambda ex, s, e, fm, f0, key=key, kk=kk: Eq(symex.cur(ex, s, key, fm), wrap(v0.wp + s.ghost[kk + 'n']))))
                    out.append(symex.Cand('%s <= n' % symex.kname(key), lambda ex, s, e, fm, f0, key=key: Le(symex.cur(ex, s, key, fm), n)))
        return out
    f.more_candidates = lc
    outs = r.call(r'^std::vector<std::reference_wrapper<%s>.* FIFO::allocate_range<' % r.E, [Ptr(out), r.this(), n])
    p = ex.sym('j!any', None)
    for s, v in r.ret_only(outs, 'allocate_range', 'C05'):
        cnt, a = s.ghost.get(k + 'n'), s.ghost.get(k + 'a')
        if cnt is None:
            ex.oblige(s, False, '[C05] allocate_range: returns its references')
            continue
        ex.oblige(s, Le(n, v0.cap - v0.cnt), '[C01,C05] allocate_range: only when the space is there')
        ex.oblige(s, Eq(cnt, n), '[C05] allocate_range: as many references as asked for')
        ex.oblige(s, Implies(And(jj >= 0, Lt(jj, n)), Eq(a.select(ex, jj), wrap(v0.wp + jj))), '[C01,C05] allocate_range: references to the next free slots in order')
        now = ex.arr_field(s, f.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG).select(ex, wrap(v0.wp + jj))
        ex.oblige(s, Implies(And(jj >= 0, Lt(jj, n)), Eq(now, C.SIG_NONE)), '[C03] allocate_range: handed out slots carry no signal yet')
        f.post(ex, s, 'C05', ac=1, nalloc=n, flags={'allocate_range': 1}, what='allocate_range')
    return r


def op_send_range(mod, kind, default=False):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    f.allocated(ex, r.st, 'allocate_range')
    n = f.nalloc0
    C, v0 = f.C, r.v0
    sig = ex.sym('sig', 4)
    w = 'send_range' + (' without a signal' if default else '')
    outs = r.call('^client_send_range$', [r.this()]) if default else r.vcall('send_range', [r.this(), sig])
    if default:
        sig = C.SIG_NONE
    st0 = r.st

    def at(k):
        x = v0.wp + k
        return If(x >= v0.cap, x - v0.cap, x)
    for s, v in r.ret_only(outs, w, 'C05'):
        f.post(ex, s, 'C05', pushed=(n, lambda k: f.slotval(ex, st0, f.STORE, at(k)),
                                     lambda k: If(Eq(k, 0), sig, ex.arr_field(st0, f.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG).select(ex, at(k)))),
               wcount=n, nalloc=0, flags={'allocate_range': 0}, what=w)
    return r


def op_send_range_default(mod, kind):
    return op_send_range(mod, kind, True)


def op_invalidate(mod, kind):
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    for s, v in r.ret_only(r.vcall('invalidate', [r.this()]), 'invalidate', 'C07'):
        f.post(ex, s, 'C07', valid=0, flags={}, what='invalidate')
    return r


# ===================================================================== either side
def _query(mod, kind, fn, spec, tags, role='consumer', **post):
    r = Run(mod, kind, role)
    f, ex = r.f, r.ex
    if fn in ('capacity', 'is_invalid', 'get_suggested_count'):
        f.free_access = True
    for s, v in r.ret_only(r.vcall(fn, [r.this()]), fn, tags):
        ex.oblige(s, spec(r, s, v), '[%s] %s: result' % (tags, fn))
        f.post(ex, s, tags, flags={}, what=fn, **post)
    return r


def op_size(mod, kind, role='consumer', announced=False):
    r = Run(mod, kind, role, use_size=False)
    f, ex = r.f, r.ex
    if announced:
        f.setflag(r.st, 'push' if role == 'producer' else 'pop', 1)
    reg = f.registered(ex, r.st)
    for s, v in r.ret_only(r.vcall('size', [r.this()]), 'size', 'C02'):
        if ENV:
            # r.v0 is the stream at the moment of return
            if role == 'consumer':
                ex.oblige(s, Le(v, r.v0.cnt), '[C02,C08] size: the consumer never sees more elements than there are')
                ex.oblige(s, Implies(Eq(f.valid0, 0), Eq(v, r.v0.cnt)), '[C02,C07,C08] size: exact once the stream is closed')
            else:
                ex.oblige(s, Le(r.v0.cnt, v), '[C02,C08] size: the producer never sees more room than there is')
            ex.oblige(s, And(v >= 0, Le(v, r.v0.cap)), '[C02] size: between 0 and the capacity')
        else:
            ex.oblige(s, Eq(v, r.v0.cnt), '[C02] size: result')
        f.post(ex, s, 'C02', flags={}, what='size')
        ex.oblige(s, Eq(s.ghost['chk'], reg), '[C10] size: looked while announced')
    return r


def op_size_producer(mod, kind):
    return op_size(mod, kind, 'producer')


def op_space_avail(mod, kind):
    return _query(mod, kind, 'space_avail', lambda r, s, v: And(v >= 0, Le(v, r.v0.cap - r.v0.cnt)) if ENV else Eq(v, r.v0.cap - r.v0.cnt), 'C02,C08' if ENV else 'C02', 'producer')


def op_capacity(mod, kind):
    return _query(mod, kind, 'capacity', lambda r, s, v: Eq(v, r.v0.cap), 'C02')


def op_is_invalid(mod, kind):
    return _query(mod, kind, 'is_invalid', lambda r, s, v: Eq(asbool(v), Eq(r.v0.valid, 0)), 'C07')


def op_suggested(mod, kind):
    return _query(mod, kind, 'get_suggested_count', lambda r, s, v: Eq(v, r.v0.force), 'C11')


def op_zero_stats(mod, kind, side='read'):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    C, v0 = f.C, r.v0
    w = 'get_zero_%s_stats' % side
    f.stats_reader = side
    b = Region('copy', size=8, default='undef')
    r.st.cells(b)
    for s, v in r.ret_only(r.vcall(w, [r.this(), Ptr(b)]), w, 'C11'):
        v1 = f.view(ex, s)
        o = {'read': (v0.rb, v0.rc), 'write': (v0.wb, v0.wc)}[side]
        base = C.D_RSTATS if side == 'read' else C.D_WSTATS
        got = (ex.load_obj(s, b, C.B_BLOCKED - C.B_BASE, 4, I32), ex.load_obj(s, b, C.B_COUNT - C.B_BASE, 4, I32))
        ex.oblige(s, And(Eq(got[0], o[0]), Eq(got[1], o[1])), '[C11] %s: returns the accumulated statistics' % w)
        n = {'read': (v1.rb, v1.rc), 'write': (v1.wb, v1.wc)}[side]
        ex.oblige(s, And(Eq(n[0], 0), Eq(n[1], 0)), '[C11] %s: resets them' % w)
        m = {'write': (v1.rb, v1.rc, v0.rb, v0.rc), 'read': (v1.wb, v1.wc, v0.wb, v0.wc)}[side]
        ex.oblige(s, And(Eq(m[0], m[2]), Eq(m[1], m[3])), '[C11] %s: leaves the other side alone' % w)
        f.post(ex, s, 'C11', flags={}, what=w, stats=False)
    return r


def op_zero_read_stats(mod, kind):
    return op_zero_stats(mod, kind, 'read')


def op_zero_write_stats(mod, kind):
    return op_zero_stats(mod, kind, 'write')


def op_frac_write_blocked(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    f.stats_reader = 'write'
    for s, v in r.ret_only(r.vcall('get_frac_write_blocked', [r.this()]), 'get_frac_write_blocked', 'C11'):
        v1 = f.view(ex, s)
        z = Or(Eq(v0.wb, 0), Eq(v0.wc, 0))
        g = If(z, Eq(v, z3.RealVal(0)), Eq(v, z3.ToReal(v0.wb) / z3.ToReal(v0.wc)))
        ex.oblige(s, g, '[C11] get_frac_write_blocked: blocked/count, zero if either is zero')
        ex.oblige(s, And(Eq(v1.wb, 0), Eq(v1.wc, 0), Eq(v1.rb, v0.rb), Eq(v1.rc, v0.rc)), '[C11] get_frac_write_blocked: resets the write statistics only')
        f.post(ex, s, 'C11', flags={}, what='get_frac_write_blocked', stats=False)
    return r


# ===================================================================== consumer
def op_pop(mod, kind, mode='sig', cls=None):
    r = Run(mod, kind, 'consumer', cls=cls)
    f, ex = r.f, r.ex
    v0 = r.v0
    item, val = f.new_item(ex, r.st, 'dest')
    if mode == 'default':
        outs = r.call('^client_pop$', [r.this(), item])
    elif mode == 'local':
        mode, sr = 'sig', r.sigdest()
        outs = r.vcall('local_pop', [r.this(), item, Ptr(sr)])
    else:
        sr = r.sigdest()
        outs = r.call(r'^void FIFO::pop<%s>\(' % r.E, [r.this(), item, Ptr(sr) if mode == 'sig' else NULL])
    w = {'sig': 'pop', 'nosig': 'pop(nullptr signal)', 'default': 'pop without signal'}[mode]
    for s, v in r.split(outs, w, [closed(r)], lambda t: And(Eq(v0.valid, 0), Eq(v0.cnt, 0))):
        ex.oblige(s, v0.cnt >= 1, '[C01,C07] %s: returns only an element that was published' % w)
        ex.oblige(s, Eq(f.item_val(ex, s, item), f.el(ex, r.st, v0, 0)), '[C01] %s: value of the oldest element' % w)
        if mode == 'sig':
            ex.oblige(s, Eq(ex.load_obj(s, sr, 0, 4, I32), f.sg(ex, r.st, v0, 0)), '[C03] %s: signal of the oldest element' % w)
        f.post(ex, s, 'C01', pops=1, rcount=1, flags={}, what=w)
        f.item_alive(ex, s, item, w)
    return r


def op_local_pop(mod, kind):
    """the contract pop_range relies on"""
    return op_pop(mod, kind, 'local')


def op_pop_nosig(mod, kind):
    return op_pop(mod, kind, 'nosig')


def op_pop_default(mod, kind):
    return op_pop(mod, kind, 'default')


def op_signal_pop(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    outs = r.vcall('signal_pop', [r.this()])
    for s, v in r.split(outs, 'signal_pop', [closed(r)], lambda t: And(Eq(v0.valid, 0), Eq(v0.cnt, 0))):
        ex.oblige(s, v0.cnt >= 1, '[C03] signal_pop: removes a published element')
        f.post(ex, s, 'C03', pops=1, flags={}, what='signal_pop')
    return r


def op_signal_peek(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    ex.assume(r.st, v0.cnt >= 1)
    for s, v in r.ret_only(r.vcall('signal_peek', [r.this()]), 'signal_peek', 'C03'):
        ex.oblige(s, Eq(v, f.sg(ex, r.st, v0, 0)), '[C03,C04] signal_peek: signal of the oldest element')
        f.post(ex, s, 'C03,C04', flags={}, what='signal_peek')
    return r


def op_peek(mod, kind, sig=True):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    sr = r.sigdest()
    outs = r.call(r'^%s& FIFO::peek<%s, ' % (r.E, r.E), [r.this(), Ptr(sr) if sig else NULL])
    w = 'peek' if sig else 'peek without signal'
    for s, v in r.split(outs, w, [closed(r)], lambda t: And(Eq(v0.valid, 0), Eq(v0.cnt, 0)), 'C07,C04', flags={'peek': 0}):
        ex.oblige(s, v0.cnt >= 1, '[C04,C07] %s: returns only when there is an element' % w)
        f.is_slot(ex, s, v, v0.rp, '[C01,C04] %s: reference to the oldest element' % w)
        if sig:
            ex.oblige(s, Eq(ex.load_obj(s, sr, 0, 4, I32), f.sg(ex, r.st, v0, 0)), '[C03,C04] %s: signal of the oldest element' % w)
        f.post(ex, s, 'C04', flags={'peek': 1}, what=w, peeked=True)
    return r


def op_peek_nosig(mod, kind):
    return op_peek(mod, kind, False)


def op_unpeek(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    for s, v in r.ret_only(r.vcall('unpeek', [r.this()]), 'unpeek', 'C04'):
        f.post(ex, s, 'C04', flags={'peek': 0}, what='unpeek')
    return r


def bulk_consumer(r):
    """op level loop invariant: i = cnt0 - cnt elements consumed so far"""
    f, ex, v0 = r.f, r.ex, r.v0
    if ENV:
        f.progress = lambda ex, s: s.ghost['own']
        return

    def inv(ex, s):
        v = f.view(ex, s)
        i = v0.cnt - v.cnt
        return And(f.wf(v), i >= 0,
                   Eq(v.rp, If(v0.rp + i >= v0.cap, v0.rp + i - v0.cap, v0.rp + i)),
                   Eq(v.wr, If(v0.rp + i >= v0.cap, v0.wr + 1, v0.wr)))
    f.inv.append(('consumed prefix', inv))
    f.progress = lambda ex, s: v0.cnt - f.view(ex, s).cnt


def op_recycle(mod, kind, default=False):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    n = 1 if default else ex.sym('n')
    bulk_consumer(r)
    w = 'recycle()' if default else 'recycle'
    outs = r.call('^client_recycle$', [r.this()]) if default else r.call(r'^FIFO::recycle\(unsigned long\)$', [r.this(), n])
    for s, v in r.ret_only(outs, w, 'C04,C07'):
        if ENV:
            D = s.ghost['own']
            ex.oblige(s, And(D <= n, Or(Eq(D, n), And(Eq(v0.valid, 0), Eq(v0.cnt, D)))), '[C04,C07] %s: removes exactly n elements, fewer only when closed and drained' % w)
            f.post(ex, s, 'C04,C07', pops=D, flags={}, what=w, consumed='recycle')
            continue
        f.post(ex, s, 'C04,C07', pops=If(Le(n, v0.cnt), n, v0.cnt), flags={}, what=w, consumed='recycle')
        ex.oblige(s, Or(Le(n, v0.cnt), Eq(v0.valid, 0)), '[C04,C07] %s: fewer than asked for only when closed and drained' % w)
    return r


def op_recycle_default(mod, kind):
    return op_recycle(mod, kind, True)


def op_pop_s(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    hd = Region('handle', size=64, default='undef')
    r.st.cells(hd)
    cls = r'FIFO::autorelease<%s, \(FIFO::autotype\)1>' % r.E
    bulk_consumer(r)
    outs = r.call(r'^%s FIFO::pop_s<' % cls, [Ptr(hd), r.this()])
    for s, v in r.split(outs, 'pop_s', [closed(r)], lambda t: And(Eq(v0.valid, 0), Eq(v0.cnt, 0)), 'C07,C04', flags={'peek': 0}):
        f.post(ex, s, 'C04', flags={'peek': 1}, what='pop_s', peeked=True)
        ex.oblige(s, v0.cnt >= 1, '[C04,C07] pop_s: only when there is an element')
        for s1, p in r.ret_only(r.call('(^| )' + cls + r'::operator\*\(\) const$', [Ptr(hd)], s), 'pop_s: *', 'C04'):
            f.is_slot(ex, s1, p, v0.rp, '[C01,C04] pop_s: handle refers to the oldest element')
        for s1, p in r.ret_only(r.call('(^| )' + cls + r'::sig\(\) const$', [Ptr(hd)], s), 'pop_s: sig', 'C04'):
            ex.oblige(s1, Eq(ex.load(s1, p, I32), f.sg(ex, r.st, v0, 0)), '[C03,C04] pop_s: handle carries the element\'s signal')
        for s1, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s), 'pop_s: release', 'C04'):
            f.post(ex, s1, 'C04', pops=1, flags={'peek': 0}, what='pop_s + release', peeked=True, consumed='recycle')
        hd2 = Region('handle2', size=64, default='undef')
        s.cells(hd2)
        for s1, _ in r.ret_only(r.call('(^| )' + cls + r'::autorelease\(FIFO::autorelease', [Ptr(hd2), Ptr(hd)], s), 'pop_s: copy', 'C04'):
            for s2, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s1), 'pop_s: release', 'C04'):
                f.post(ex, s2, 'C04', flags={'peek': 1}, what='pop_s: copied-from handle destroyed', peeked=True)
            for s2, p in r.ret_only(r.call('(^| )' + cls + r'::sig\(\) const$', [Ptr(hd2)], s1), 'pop_s: sig', 'C04'):
                ex.oblige(s2, Eq(ex.load(s2, p, I32), f.sg(ex, r.st, v0, 0)), '[C03,C04] pop_s: copied handle carries the element\'s signal')
            for s2, p in r.ret_only(r.call('(^| )' + cls + r'::operator\*\(\) const$', [Ptr(hd2)], s1), 'pop_s: *', 'C04'):
                f.is_slot(ex, s2, p, v0.rp, '[C01,C04] pop_s: copied handle refers to the oldest element')
    return r


def op_peek_range(mod, kind):
    r = Run(mod, kind, 'consumer')
    f, ex = r.f, r.ex
    v0 = r.v0
    n = ex.sym('n')
    hd = Region('handle', size=64, default='undef')
    r.st.cells(hd)
    cls = r'FIFO::autorelease<%s, \(FIFO::autotype\)2>' % r.E
    outs = r.call(r'^%s FIFO::peek_range<' % cls, [Ptr(hd), r.this(), n])
    cl, nm = closed(r), nomore(r)

    def cond(t):
        return And(Eq(v0.valid, 0), Lt(v0.cnt, n), Eq(v0.cnt, 0) if t == cl else True)
    i = ex.sym('i')
    C = f.C
    for s, v in r.split(outs, 'peek_range', [cl, nm], cond, 'C07,C04', flags={'peek': 0}):
        ex.oblige(s, Le(n, v0.cnt), '[C04,C07] peek_range: returns only when n elements are there')
        f.post(ex, s, 'C04', flags={'peek': 1}, what='peek_range')
        for s1, g in r.ret_only(r.call('(^| )' + cls + r'::size\(\)$', [Ptr(hd)], s), 'peek_range: size', 'C04'):
            ex.oblige(s1, Eq(g, n), '[C04] peek_range: size of the range')
        for s1, g in r.ret_only(r.call('(^| )' + cls + r'::getindex\(\)$', [Ptr(hd)], s), 'peek_range: getindex', 'C03'):
            ex.oblige(s1, Eq(g, f.sgidx(ex, r.st, v0, 0)), '[C03,C15] peek_range: start index')
        for s1, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s), 'peek_range: release', 'C04'):
            f.post(ex, s1, 'C04', flags={'peek': 0}, what='peek_range + release')
        for s1, k, g in r.call('(^| )' + cls + r'::operator\[\]\(unsigned long\)$', [Ptr(hd), i], s):
            if k == 'exc':
                ex.oblige(s1, i >= n, '[C04] peek_range: out-of-range access only beyond the range')
                continue
            ex.oblige(s1, Lt(i, n), '[C01,C04] peek_range: access beyond the range is refused')
            if not isinstance(g, list) or len(g) != 2:
                raise Unsupported('autopair layout')
            f.is_slot(ex, s1, g[0], f.pos(v0, i), '[C01,C04] peek_range: i-th reference is the i-th oldest element')
            p = g[1]
            ok = isinstance(p, Ptr) and p.r is f.SIG and p.off == 0
            ex.oblige(s1, Eq(p.idx, f.pos(v0, i)) if ok else False, '[C03,C04] peek_range: i-th signal is the i-th oldest element\'s')
        hd2 = Region('handle2', size=64, default='undef')
        s.cells(hd2)
        for s1, _ in r.ret_only(r.call('(^| )' + cls + r'::autorelease\(FIFO::autorelease', [Ptr(hd2), Ptr(hd)], s), 'peek_range: copy', 'C04'):
            for s2, _ in r.ret_only(r.call('(^| )' + cls + r'::~autorelease\(\)$', [Ptr(hd)], s1), 'peek_range: release', 'C04'):
                f.post(ex, s2, 'C04', flags={'peek': 1}, what='peek_range: copied-from handle destroyed')
    return r


def op_set_sets(mod, kind):
    """the scheduler gives the stream the sets its kernels note element addresses in"""
    r = Run(mod, kind, 'producer')
    f, ex = r.f, r.ex
    C = f.C
    offs = dict(setPtrMap=C.OFF_IN, setPtrSet=C.OFF_OUT, setInPeekSet=C.OFF_IN_PEEK, setOutPeekSet=C.OFF_OUT_PEEK)
    for fn, off in offs.items():
        new = Region('given', kind='opaque')
        for s, v in r.ret_only(r.vcall(fn, [r.this(), Ptr(new)]), fn, 'C06'):
            t, t0 = s.rcells(f.this), r.st.rcells(f.this)
            ex.oblige(s, And(*[Eq(t[o][1], Ptr(new) if o == off else t0[o][1]) for o in offs.values()]), '[C06] %s: exactly this set is replaced, by the one given' % fn)
            f.post(ex, s, 'C06', flags={}, what=fn)
    return r


SEQ_COMMON = ['set_sets', 'push', 'push_rv', 'push_default', 'send', 'send_default', 'send_unallocated', 'send_range_unallocated',
              'deallocate', 'deallocate_unallocated', 'allocate', 'allocate_s', 'allocate_s_copied', 'invalidate',
              'size', 'size_producer', 'space_avail', 'capacity', 'is_invalid', 'suggested', 'zero_read_stats', 'zero_write_stats',
              'frac_write_blocked', 'pop', 'pop_nosig', 'pop_default', 'signal_pop', 'signal_peek', 'peek', 'peek_nosig',
              'unpeek', 'recycle', 'recycle_default', 'pop_s', 'local_push', 'local_pop']
SEQ_U64 = SEQ_COMMON + ['inline_signal_send', 'allocate_range', 'send_range', 'send_range_default', 'deallocate_range', 'peek_range']
SEQ_ITEM = SEQ_COMMON + ['peek_range']
SEQ_BIG = SEQ_COMMON
