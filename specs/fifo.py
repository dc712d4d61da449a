"""Contracts of the stream (FIFO) operations.

SEQ mode: one call on an arbitrary well-formed stream, nobody else acting (the run-time monitor
may still raise and drop `resizing` at any time).  The abstract state of a stream is the sequence
el(0..cnt-1), sig(0..cnt-1) of published and unread elements; every contract is stated on it.
"""
import re
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, State, Arr, ABase, AConst, AStore, ACopy, Contract, Exec,
                   And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, FnVal, Undef)

I64 = T('int', 64)
I32 = T('int', 32)
I8 = T('int', 8)
MAXCAP = 1 << 32


class AFun(Arr):
    """array given by a definition"""

    def __init__(self, f):
        self.f = f

    def select(self, ex, i):
        return self.f(ex, i)


class Consts:
    def __init__(self, mod):
        for n in mod.globals:
            if re.match(r'^[A-Z][A-Z0-9]*_[A-Z_0-9]+$', n):
                try:
                    v = mod.global_init(n)[1]
                    if v is not None and v.k in ('int', 'zero'):
                        setattr(self, n, v.a if v.k == 'int' else 0)
                except Exception:
                    pass


def simp(b):
    if isinstance(b, bool):
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return b


class View:
    hist = False


class Base:
    """the base view of the stream (RG mode: moves with the other end), looked up when used"""

    def __init__(self, f):
        self.__dict__['f'] = f

    def __getattr__(self, n):
        return getattr(self.f._v0, n)


FLAG = dict(allocate=(0, 0), allocate_range=(0, 1), push=(0, 3), recycle=(1, 4), pop=(1, 5), peek=(1, 6))


class Fifo:
    """a stream in SEQ mode; also the hook object of the executor"""
    nonlinear = False

    @property
    def v0(self):
        return self._base

    @v0.setter
    def v0(self, v):
        self._v0 = v._v0 if isinstance(v, Base) else v

    def __init__(self, mod, kind, role, env=False):
        self._base, self._v0 = Base(self), None
        self.mod, self.kind, self.role = mod, kind, role
        self.env = env              # RG mode: the other end is running
        self.C = Consts(mod)
        self.track = True           # C10/C11 access monitoring on
        self.resizing_free = True   # `resizing` may change at any moment
        self.inv = []               # op specific loop invariants (ex, st) -> [(name, formula)]
        self.progress = None        # (ex, st) -> how far a bulk operation has got
        self.more_candidates = None
        self.header = None          # (ex, st): definitions of arrays at a loop head, as the invariants state them
        self.free_access = False    # query that by design reads one word of the buffer header unannounced
        self.stats_reader = None

    def contracts(self):
        return []

    # ---------------------------------------------------------------- initial state
    def setup(self, ex, monitor=False, ext=False):
        C = self.C
        st = State()
        self.ex = ex
        cls = 'RingBuffer'
        vt = [n for n, d in ex.mod.dem.items() if re.match(r'vtable for RingBuffer<.*, %s>$' % ('true' if monitor else 'false'), d)]
        self.this = Region('fifo', size=C.SZ_RBM if monitor else C.SZ_RB)
        self.this.shared = True
        self.D = Region('data', size=C.SZ_DATA)
        self.D.shared = True
        D = self.D
        cap, rp, wp, wr, ww = (ex.sym(n) for n in ('cap', 'rp', 'wp', 'rlap', 'wlap'))
        self.cap0 = cap
        self.mkstore(ex, st, cap)
        self.SIG = Region('signal', kind='arr', stride=C.SZ_SIGNAL, length=cap,
                          fields={C.OFF_SIG_SIG: (C.SZ_SIG_SIG, 'int'), C.OFF_SIG_INDEX: (8, 'int')},
                          meta={'autofields': False, 'heap': True})
        self.SIG.shared = True
        st.cells(self.SIG)
        t, d = st.cells(self.this), st.cells(D)
        t[0] = (8, ex.global_ptr(vt[0]) if vt else UNDEF)
        if vt:
            g = ex.global_ptr(vt[0])
            t[0] = (8, Ptr(g.r, 0, 16))
        t[C.OFF_DM_BUFFER] = (8, Ptr(D))
        t[C.OFF_DM_RESIZING] = (1, 0)
        t[C.OFF_DM_RESIZEABLE] = (1, 0 if ext else 1)
        t[C.OFF_DM_TA] = (8, Ptr(D, 0, C.D_TA))
        t[C.OFF_DM_CHECKING] = (8, ex.sym('checking'))
        self.chk0 = ex.sym('checking')
        ex.assume(st, self.chk0 < (1 << 40))
        # DataManager vptr
        dmv = [n for n, dd in ex.mod.dem.items() if re.match(r'vtable for DataManager<', dd)]
        if dmv:
            t[C.OFF_DM] = (8, Ptr(ex.global_ptr(dmv[0]).r, 0, 16))
        self.ac0 = 0
        t[C.OFF_ALLOCATE_CALLED] = (1, 0)
        self.nalloc0 = ex.sym('n_allocated', 4)
        t[C.OFF_N_ALLOCATED] = (4, self.nalloc0)
        self.sets = {}
        for nm, off in (('out', C.OFF_OUT), ('out_peek', C.OFF_OUT_PEEK), ('in', C.OFF_IN), ('in_peek', C.OFF_IN_PEEK)):
            r = Region('set_' + nm, kind='opaque')
            self.sets[nm] = r
            t[off] = (8, Ptr(r))
        t[C.OFF_WRITE_STATS_PTR] = (8, Ptr(D, 0, C.D_WSTATS))
        t[C.OFF_READ_STATS_PTR] = (8, Ptr(D, 0, C.D_RSTATS))
        dv = [n for n, dd in ex.mod.dem.items() if re.match(r'vtable for Buffer::Data<', dd)]
        if dv:
            d[0] = (8, Ptr(ex.global_ptr(dv[0]).r, 0, 16))
        d[C.D_MAX_CAP] = (8, cap)
        d[C.D_LEN_STORE] = (8, cap * C.SZ_SLOT)
        d[C.D_LEN_SIGNAL] = (8, cap * C.SZ_SIGNAL)
        for base, a, w in ((C.D_RP, rp, wr), (C.D_WP, wp, ww)):
            d[base + C.P_A] = (8, a)
            d[base + C.P_WRAP] = (8, w)
            d[base + C.P_CAP] = (8, cap)
        self.flags0 = {}
        for t_ in (0, 1):
            for i in range(8):
                own = (t_ == 0) == (self.role == 'producer')
                v = 0
                if not own and (t_, i) in FLAG.values() or (t_, i) == FLAG['peek']:
                    v = ex.sym('flag%d_%d' % (t_, i), 1)
                    ex.assume(st, v <= 1)
                self.flags0[(t_, i)] = v
                d[C.D_TA + t_ * C.SZ_TA + i] = (1, v)
        d[C.D_STORE] = (8, Ptr(self.STORE))
        d[C.D_SIGNAL] = (8, Ptr(self.SIG))
        d[C.D_EXT] = (1, 1 if ext else 0)
        self.valid0 = ex.sym('is_valid', 1)
        ex.assume(st, self.valid0 <= 1)
        d[C.D_VALID] = (1, self.valid0)
        for base, nm in ((C.D_RSTATS, 'r'), (C.D_WSTATS, 'w')):
            b, c = ex.sym(nm + 'blocked', 4), ex.sym(nm + 'count', 4)
            d[base + C.B_BLOCKED] = (4, b)
            d[base + C.B_COUNT] = (4, c)
        d[C.D_FORCE] = (8, ex.sym('force'))
        ex.assume(st, And(cap >= 1, cap < MAXCAP, rp < cap, wp < cap))
        ex.assume(st, Or(And(ww == wr, rp <= wp), And(ww == wr + 1, wp <= rp)))
        ex.assume(st, And(ww < (1 << 62)))
        st.ghost['chk'] = False
        st.ghost['resz'] = False          # this call saw a resize in progress
        self.peek0 = self.flags0[FLAG['peek']]
        if self.role == 'consumer':
            st.ghost['chk'] = Ne(self.peek0, 0)
        if self.env:
            self.env_setup(ex, st)
        self.st0 = st
        self.v0 = self.view(ex, st)
        self.mkelems(ex, st)
        self.st00, self.v00 = self.st0, self._v0
        return st

    # ---------------------------------------------------------------- RG mode: the other end
    # Rely (= what the other end's own contracts guarantee): the consumer only advances its cursor
    # over published elements; the producer only fills free slots, then advances its cursor over
    # them, and publishes nothing after closing.  The lap counter may lag
    # behind a cursor that has just wrapped.  The i-th element published from now on is HV(i), HS(i).
    def env_setup(self, ex, st):
        C = self.C
        self.HV, self.HS = ABase('H_el', self.STORE.fields[0][0]), ABase('H_sig', C.SZ_SIG_SIG)
        prod = self.role == 'producer'
        d = st.cells(self.D)
        base = C.D_RP if prod else C.D_WP
        self.ocur, self.olap = base + C.P_A, base + C.P_WRAP
        cur, lap = d[self.ocur][1], d[self.olap][1]
        tr = ex.fresh('lagging', kind='bool')
        ex.assume(st, Implies(tr, And(lap >= 1, True if prod else Ne(self.valid0, 0))))
        g = st.ghost
        g['glap'], g['ocur'], g['omem'], g['ext'], g['oval'] = lap, cur, lap - If(tr, 1, 0), 0, self.valid0
        g['own'] = 0
        g['pub'] = 0
        g['seen'] = 0 if prod else d[C.D_MAX_CAP][1]
        d[self.olap] = (8, g['omem'])
        if not prod:
            self.hist(ex, st)
        self.inv.append(('the other end moved only its own cursor', self.env_inv))

    def hist(self, ex, st):
        """consumer's view of the slots: published ones hold the history, the others anything"""
        C = self.C
        v = self.view(ex, st)
        r0 = self.v00.cnt + st.ghost['ext'] - v.cnt if hasattr(self, 'v00') else 0
        for r, off, size, H in ((self.STORE, 0, self.STORE.fields[0][0], self.HV), (self.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG, self.HS)):
            junk = ABase('junk%d' % next(ex.fresh_n), size)

            def f(ex, i, v=v, H=H, junk=junk, r0=r0):
                rank = If(i >= v.rp, i - v.rp, i - v.rp + v.cap)
                return If(And(i >= 0, Lt(i, v.cap), rank < v.cnt), H.select(ex, r0 + rank), junk.select(ex, i))
            st.cells(r)[off] = (size, AFun(f))
            if st.log is not None:
                st.log.add(('arr', r, off, size))

    def env_inv(self, ex, s):
        v = self.view(ex, s)
        g = s.ghost
        cur = self.rd(ex, s, self.D, self.ocur, 8)
        mem = self.rd(ex, s, self.D, self.olap, 8)
        out = [self.wf(v), Eq(cur, g['ocur']), Eq(mem, g['omem']), g['ext'] >= 0, g['seen'] >= 0, Le(g['seen'], v.cap),
               Or(Eq(mem, g['glap']), And(Eq(mem, g['glap'] - 1), True if self.role == 'producer' else Ne(v.valid, 0)))]
        out.append(Eq(v.cnt, self.v00.cnt + (-g['ext'] if self.role == 'producer' else g['ext'] - g['own'])))
        if self.role == 'consumer':
            out += [Eq(v.valid, g['oval']), Le(v.valid, self.valid0), Implies(Eq(self.valid0, 0), Eq(g['ext'], 0))]
        return And(*out)

    def env_step(self, ex, st):
        C = self.C
        prod = self.role == 'producer'
        v = self.view(ex, st)
        k = ex.fresh('envk', None)
        tr = ex.fresh('lag', kind='bool')
        cur = v.rp if prod else v.wp
        ex.assume(st, And(k >= 0, Le(k, v.cnt if prod else v.cap - v.cnt)))
        nc = ex.fresh('envcur', None)
        nl = ex.fresh('envlap', None)
        ex.assume(st, And(Eq(nc, If(cur + k >= v.cap, cur + k - v.cap, cur + k)), Eq(nl, If(cur + k >= v.cap, st.ghost['glap'] + 1, st.ghost['glap']))))
        ex.assume(st, nl < (1 << 62))
        ext = ex.fresh('envext', None)
        ex.assume(st, Eq(ext, st.ghost['ext'] + k))
        mem = ex.fresh('envmem', None)
        ex.assume(st, Eq(mem, nl - If(tr, 1, 0)))
        if prod:
            ex.assume(st, Implies(tr, nl >= 1))
        else:
            nv = ex.fresh('envvalid', 1)
            ex.assume(st, And(Le(nv, v.valid), Implies(Eq(v.valid, 0), Eq(k, 0)), Implies(tr, And(nl >= 1, Ne(nv, 0)))))
            ex.store_obj(st, self.D, C.D_VALID, 1, nv)
            self.setg(st, 'oval', nv)
        self.setg(st, 'glap', nl)
        self.setg(st, 'ocur', nc)
        self.setg(st, 'omem', mem)
        self.setg(st, 'ext', ext)
        self.env_life(ex, st, v, nc, nl)
        ex.store_obj(st, self.D, self.ocur, 8, nc)
        ex.store_obj(st, self.D, self.olap, 8, mem)
        if not prod:
            self.hist(ex, st)

    def env_life(self, ex, st, v, nc, nl):
        """what the other end does to the objects of the slots it moves its cursor over"""

    def moved(self, ex, st, before):
        """own cursor about to move / moved: slots it hands over are in the state the other end relies on"""

    def occ_eff(self, ex, st):
        """slots of unread elements, own lap counter possibly lagging"""
        v = self.view(ex, st)
        w = View()
        w.__dict__.update(v.__dict__)
        if self.role == 'producer':
            w.ww = v.ww + 1
        else:
            w.wr = v.wr + 1
        ok = self.wf(v)
        return lambda j: If(ok, self.occ(v, j), self.occ(w, j))

    def loop_header_axioms(self, ex, s, entry):
        if self.env and self.role == 'consumer':
            a = s.rcells(self.SIG).get(self.C.OFF_SIG_SIG)
            if a and isinstance(a[1], ABase) and a[1].name.startswith('ha_'):
                self.hist(ex, s)
        if self.header:
            self.header(ex, s)

    def rebase(self, ex, s):
        """RG mode: the stream as it would be at the end of the call without the call's own effect"""
        if not self.env:
            return
        v = View()
        v.__dict__.update(self.v00.__dict__)
        g = s.ghost
        if self.role == 'producer':
            v.rp, v.wr, v.cnt = g['ocur'], g['glap'], self.v00.cnt - g['ext']
        else:
            v.wp, v.ww, v.cnt, v.valid, v.hist = g['ocur'], g['glap'], self.v00.cnt + g['ext'], g['oval'], True
        self.v0 = v

    def setflag(self, st, name, v):
        t, i = FLAG[name]
        self.flags0[(t, i)] = v
        st.cells(self.D)[self.C.D_TA + t * self.C.SZ_TA + i] = (1, v)

    def allocated(self, ex, st, which, n=None):
        """precondition: an allocation is outstanding"""
        C = self.C
        t = st.cells(self.this)
        t[C.OFF_ALLOCATE_CALLED] = (1, 1)
        self.ac0 = 1
        self.setflag(st, which, 1)
        st.ghost['chk'] = True
        v = self.v0
        if which == 'allocate':
            ex.assume(st, v.cnt < v.cap)
        else:
            ex.assume(st, And(self.nalloc0 >= 0, Le(self.nalloc0, v.cap - v.cnt)))

    # ---------------------------------------------------------------- elements (scalar)
    def mkstore(self, ex, st, cap):
        C = self.C
        self.STORE = Region('store', kind='arr', stride=C.SZ_SLOT, length=cap, fields={0: (C.SZ_SLOT, 'int')},
                            meta={'autofields': False, 'heap': True})
        self.STORE.shared = True
        st.cells(self.STORE)

    def mkelems(self, ex, st):
        pass

    def slotval(self, ex, st, STORE, i):
        return ex.arr_field(st, STORE, 0, self.C.SZ_SLOT).select(ex, i)

    def new_item(self, ex, st, name):
        """an element object owned by the user: (pointer, value)"""
        r = Region(name, size=self.C.SZ_ELEM, default='undef')
        v = ex.sym('val_' + name)
        st.cells(r)[0] = (8, v)
        return Ptr(r), v

    def ctor_args(self, ex, st):
        """constructor arguments of allocate and the value of the element so constructed"""
        return [], None

    def item_kept(self, ex, s, p, val, w):
        ex.oblige(s, Eq(self.item_val(ex, s, p), val), '[C01] %s: the caller\'s element is left as it was' % w)

    def item_alive(self, ex, s, p, w):
        pass

    def is_slot(self, ex, s, p, i, name):
        ok = isinstance(p, Ptr) and p.r is self.view(ex, s).STORE.r and p.off == 0
        ex.oblige(s, Eq(p.idx, i) if ok else False, name)

    def user_write(self, ex, s, p):
        v = ex.sym('uservalue')
        self.track = False
        ex.store(s, p, I64, v)
        self.track = True
        return v

    def item_val(self, ex, st, p):
        return ex.load_obj(st, p.r, p.off, 8, I64)

    # ---------------------------------------------------------------- abstraction
    def rd(self, ex, st, r, off, size):
        return ex.load_obj(st, r, off, size, T('int', 8 * size))

    def view(self, ex, st, D=None):
        C = self.C
        v = View()
        if D is None:
            p = st.rcells(self.this)[C.OFF_DM_BUFFER][1]
            D = p.r
        v.D = D
        v.cap = self.rd(ex, st, D, C.D_MAX_CAP, 8)
        v.rp = self.rd(ex, st, D, C.D_RP + C.P_A, 8)
        v.wp = self.rd(ex, st, D, C.D_WP + C.P_A, 8)
        v.wr = self.rd(ex, st, D, C.D_RP + C.P_WRAP, 8)
        v.ww = self.rd(ex, st, D, C.D_WP + C.P_WRAP, 8)
        v.rcap = self.rd(ex, st, D, C.D_RP + C.P_CAP, 8)
        v.wcap = self.rd(ex, st, D, C.D_WP + C.P_CAP, 8)
        if self.env and D is self.D:
            if self.role == 'producer':
                v.wr = st.ghost['glap']
            else:
                v.ww = st.ghost['glap']
        v.cnt = If(Eq(v.ww, v.wr), v.wp - v.rp, v.cap - v.rp + v.wp)
        v.STORE = st.rcells(D)[C.D_STORE][1]
        v.SIG = st.rcells(D)[C.D_SIGNAL][1]
        v.valid = self.rd(ex, st, D, C.D_VALID, 1)
        v.rb = self.rd(ex, st, D, C.D_RSTATS + C.B_BLOCKED, 4)
        v.rc = self.rd(ex, st, D, C.D_RSTATS + C.B_COUNT, 4)
        v.wb = self.rd(ex, st, D, C.D_WSTATS + C.B_BLOCKED, 4)
        v.wc = self.rd(ex, st, D, C.D_WSTATS + C.B_COUNT, 4)
        v.force = self.rd(ex, st, D, C.D_FORCE, 8)
        return v

    def wf(self, v):
        return And(v.cap >= 1, v.rp >= 0, v.wp >= 0, Lt(v.rp, v.cap), Lt(v.wp, v.cap),
                   Eq(v.rcap, v.cap), Eq(v.wcap, v.cap),
                   Or(And(Eq(v.ww, v.wr), Le(v.rp, v.wp)), And(Eq(v.ww, v.wr + 1), Le(v.wp, v.rp))))

    def pos(self, v, k):
        return If(v.rp + k >= v.cap, v.rp + k - v.cap, v.rp + k)

    def el(self, ex, st, v, k):
        if v.hist:
            return self.HV.select(ex, k)
        return self.slotval(ex, st, v.STORE.r, self.pos(v, k))

    def sg(self, ex, st, v, k):
        if v.hist:
            return self.HS.select(ex, k)
        return ex.arr_field(st, v.SIG.r, self.C.OFF_SIG_SIG, self.C.SZ_SIG_SIG).select(ex, self.pos(v, k))

    def sgidx(self, ex, st, v, i):
        return ex.arr_field(st, v.SIG.r, self.C.OFF_SIG_INDEX, 8).select(ex, i)

    def occ(self, v, j):
        return If(Eq(v.ww, v.wr), And(Le(v.rp, j), Lt(j, v.wp)), Or(Le(v.rp, j), Lt(j, v.wp)))

    def flag(self, ex, st, D, t, i):
        return self.rd(ex, st, D, self.C.D_TA + t * self.C.SZ_TA + i, 1)

    # ---------------------------------------------------------------- access monitoring
    def registered(self, ex, st):
        t = 0 if self.role == 'producer' else 1
        p = st.rcells(self.this)[self.C.OFF_DM_BUFFER][1]
        fl = [Ne(self.flag(ex, st, p.r, t, i), 0) for i in range(8)]
        c = self.rd(ex, st, self.this, self.C.OFF_DM_CHECKING, 8)
        return simp(Or(*(fl + [Ne(c, self.chk0)])))

    def region_class(self, p):
        C = self.C
        if p.r is self.STORE or p.r is self.SIG:
            return 'buf'
        if p.r is self.D:
            o = p.off
            if C.D_RP <= o < C.D_RP + C.D_TA - C.D_RP and o < C.D_TA:
                return 'cursor'
            if C.D_WP <= o < C.D_STORE:
                return 'cursor'
            if o in (C.D_STORE, C.D_SIGNAL):
                return 'cursor'
            if C.D_TA <= o < C.D_TA + 2 * C.SZ_TA:
                return 'flag'
            if o == C.D_WSTATS + C.B_BLOCKED:
                return 'wblocked'
            if o == C.D_RSTATS + C.B_BLOCKED:
                return 'rblocked'
            if o == C.D_FORCE:
                return 'force'
        return None

    def setg(self, st, k, v):
        st.ghost[k] = v
        if st.log is not None:
            st.log.add(('ghost', k))

    def on_shared(self, ex, st, p, size, op, v, loc):
        if not self.track:
            return
        C = self.C
        if self.env:
            self.rg_access(ex, st, p, size, op, loc)
        if p.r is self.this:
            if p.off == C.OFF_DM_RESIZING and op == 'load':
                if self.resizing_free:
                    b = ex.fresh('resizing', kind='bool')
                    st.cells(self.this)[C.OFF_DM_RESIZING] = (1, If(b, 1, 0))
                else:
                    b = False
                self.setg(st, 'resz', Or(st.ghost['resz'], b))
                self.setg(st, 'chk', simp(Or(st.ghost['chk'], And(self.registered(ex, st), Not(b)))))
            elif p.off == C.OFF_DM_RESIZING and op == 'store':
                ex.oblige(st, False, '[C10] only the resizer moves the resizing flag', loc)
            return
        if self.env and self.role == 'consumer' and op == 'store' and p.r is self.D and size == 8:
            d = toint(v) - self.rd(ex, st, p.r, p.off, 8) if p.off in (C.D_RP + C.P_A, C.D_RP + C.P_WRAP) else 0
            if p.off == C.D_RP + C.P_A:
                self.setg(st, 'own', st.ghost['own'] + d)
            elif p.off == C.D_RP + C.P_WRAP:
                self.setg(st, 'own', st.ghost['own'] + If(Eq(d, 0), 0, If(Eq(d, 1), self.v00.cap, ex.fresh('badlap', None))))
        c = self.region_class(p)
        if c in ('buf', 'cursor') and not (self.free_access and op == 'load' and c == 'cursor'):
            ex.oblige(st, And(self.registered(ex, st), st.ghost['chk']),
                      '[C10] %s of %s only while announced and not resizing' % (op, p.r.name if c == 'buf' else 'cursor/buffer pointer'), loc)
        if c == 'wblocked' and op == 'store' and self.stats_reader != 'write':
            vw = self.wait_view(ex, st)
            ex.oblige(st, Or(Eq(v, self.v0.wb), And(Or(st.ghost['resz'], self.wait_cond(ex, st, vw)), Eq(v, 1), True if self.role == 'producer' else False)),
                      '[C11] write side marked blocked only when it has to wait', loc)
        if c == 'rblocked' and op == 'store' and self.stats_reader != 'read':
            vw = self.wait_view(ex, st)
            ex.oblige(st, Or(Eq(v, self.v0.rb), And(Or(st.ghost['resz'], self.wait_cond(ex, st, vw)), Eq(v, 1), True if self.role == 'consumer' else False)),
                      '[C11] read side marked blocked only when it has to wait', loc)
        if c == 'force' and op == 'store':
            ex.oblige(st, self.force_ok(ex, st, v), '[C11] suggested count is set only to a request larger than the capacity', loc)

    def own_fields(self):
        C = self.C
        b = C.D_WP if self.role == 'producer' else C.D_RP
        return b + C.P_A, b + C.P_WRAP

    def eff(self, ex, st):
        """unread elements as the other end sees them, own lap counter possibly lagging; (legal, number)"""
        v = self.view(ex, st)
        prod = self.role == 'producer'
        cur, lap = (v.wp, v.ww) if prod else (v.rp, v.wr)
        w = View()
        w.__dict__.update(v.__dict__)
        if prod:
            w.ww = lap + 1
        else:
            w.wr = lap + 1
        lcnt = If(Eq(w.ww, w.wr), w.wp - w.rp, w.cap - w.rp + w.wp)
        ok = self.wf(v)
        lagging = self.wf(w)
        return ok, v.cnt, lagging, lcnt

    def rg_access(self, ex, st, p, size, op, loc):
        C = self.C
        prod = self.role == 'producer'
        if p.r is self.D:
            o = p.off
            env = (self.ocur, self.olap) + (() if prod else (C.D_VALID,))
            if any(o < e + 8 and e < o + size for e in env[:2]) or o in env:
                if op == 'load':
                    self.env_step(ex, st)
                else:
                    ex.oblige(st, False, '[C08] never moves the other end\'s cursor or closes the stream for it', loc)
            if o in self.own_fields() and op == 'store':
                ok, n, lok, ln = self.eff(ex, st)
                self.setg(st, 'pub', If(ok, n, ln))
                self.moved(ex, st, True)
        elif p.r is self.STORE or p.r is self.SIG:
            v = self.view(ex, st)
            occ = self.occ(v, p.idx)
            if prod and op != 'load':
                ex.oblige(st, Not(occ), '[C08,C01] the producer writes only slots the consumer has finished with', loc)
            elif not prod and op == 'load' and not (p.r is self.SIG and p.off == C.OFF_SIG_INDEX):
                ex.oblige(st, occ, '[C08,C01] the consumer reads only slots that were published', loc)
            elif not prod and op != 'load':
                self.consumer_write(ex, st, p, occ, loc)

    def consumer_write(self, ex, st, p, occ, loc):
        ex.oblige(st, False, '[C08] the consumer does not write slots', loc)

    def wait_view(self, ex, st):
        v = self.view(ex, st)
        if self.env:
            v.cnt = st.ghost['seen']
        return v

    def wait_cond(self, ex, st, vw):
        if self.role == 'producer':
            return Eq(vw.cnt, vw.cap)
        return Eq(vw.cnt, 0)

    def force_ok(self, ex, st, v):
        return False

    def after_store(self, ex, st, p, size, v, loc):
        if not self.track:
            return
        if self.env and p.r is self.D and p.off in self.own_fields():
            ok, n, lok, ln = self.eff(ex, st)
            o = st.ghost['pub']
            prod = self.role == 'producer'
            fwd, lfwd = (Le(o, n), Le(o, ln)) if prod else (Le(n, o), Le(ln, o))
            ex.oblige(st, Or(And(ok, fwd), And(lok, lfwd)), '[C08] own cursor moves forward only, in a way the other end can follow', loc)
            self.setg(st, 'pub', If(And(ok, fwd), n, ln))
            self.moved(ex, st, False)
        if (p.r is self.D and self.region_class(p) == 'flag') or (p.r is self.this and p.off == self.C.OFF_DM_CHECKING):
            self.setg(st, 'chk', simp(And(st.ghost['chk'], self.registered(ex, st))))

    # ---------------------------------------------------------------- loops
    def loop_invariant(self, ex, fn):
        return [(n, lambda ex, s, e, f=f: f(ex, s)) for n, f in self.inv]

    def loop_candidates(self, ex, fn, entry, hav, fr):
        out = []
        if self.progress:
            p0 = self.progress(ex, entry)
            for key, old, new in hav:
                ptr = isinstance(old, Ptr)
                if key[0] == 'arr' or (ptr and not isinstance(new, Ptr)) or not (ptr or isinstance(old, int) or (isz(old) and z3.is_int(old))):
                    continue
                o = old.idx if ptr else toint(old)

                def get(ex, s, key, f, ptr):
                    v = symex.cur(ex, s, key, f)
                    if ptr:
                        if not isinstance(v, Ptr):
                            raise Unsupported('cand')
                        return v.idx
                    if isinstance(v, (Ptr, Undef)) or not (isinstance(v, int) or isz(v)):
                        raise Unsupported('cand')
                    return toint(v)
                for sg in (1, -1):
                    out.append(symex.Cand('%s %s progress' % (symex.kname(key), '+' if sg > 0 else '-'),
                               lambda ex, s, e, f, f0, key=key, ptr=ptr, o=o, sg=sg: Eq(get(ex, s, key, f, ptr) - o, sg * (self.progress(ex, s) - p0))))
        if self.more_candidates:
            out += self.more_candidates(ex, fn, entry, hav, fr)
        return out

    # ---------------------------------------------------------------- generic postcondition
    def post(self, ex, s, tags, pops=0, pushed=(), ac=0, nalloc=None, flags=None, wcount=0, rcount=0, exc=False,
             valid=None, what='', stats=True, allocated=None, peeked=False, consumed=None, pushtag=None):
        """the abstract effect of an operation on the stream.
        pushed: list of (value, signal) or (n, f(k)->value, g(k)->signal)"""
        C, v0 = self.C, self.v0
        st0 = self.st0
        v = self.view(ex, s)
        w = (what + ': ') if what else ''
        T1 = tags

        def ob(g, name, extra=''):
            t = ','.join(sorted(set((extra.split(',') if extra else []) + T1.split(','))))
            ex.oblige(s, g, '[%s] %s%s' % (t, w, name))
        ex.oblige(s, v.D is v0.D and v.STORE.r is v0.STORE.r and v.SIG.r is v0.SIG.r, '[%s,C01] %skeeps its buffer' % (T1, w))
        ob(self.wf(v), 'cursors stay well formed', 'C01,C02')
        ob(Eq(v.cap, v0.cap), 'capacity unchanged', 'C02')
        if isinstance(pushed, tuple) and len(pushed) == 3 and callable(pushed[1]):
            n, fv, fs = pushed
        else:
            pl = list(pushed)
            n = len(pl)

            def fv(k, pl=pl):
                return pl[0][0] if len(pl) == 1 else None

            def fs(k, pl=pl):
                return pl[0][1] if len(pl) == 1 else None
        ob(Eq(v.cnt, v0.cnt - pops + n), 'number of unread elements', 'C01,C02')
        if self.env:
            g = s.ghost
            ob(And(Eq(self.rd(ex, s, self.D, self.ocur, 8), g['ocur']), Eq(self.rd(ex, s, self.D, self.olap, 8), g['omem'])), 'the other end\'s cursor is left alone', 'C08')
        else:
            ob(And(Eq(v.rp, If(v0.rp + pops >= v0.cap, v0.rp + pops - v0.cap, v0.rp + pops)),
                   Eq(v.wr, If(v0.rp + pops >= v0.cap, v0.wr + 1, v0.wr))), 'read cursor', 'C01,C02')
        k = ex.sym('k!any', None)
        old = And(k >= 0, Lt(k, v0.cnt - pops))
        ob(Implies(old, Eq(self.el(ex, s, v, k), self.el(ex, st0, v0, k + pops))), 'elements already in the stream keep value and order', 'C01')
        ob(Implies(old, Eq(self.sg(ex, s, v, k), self.sg(ex, st0, v0, k + pops))), 'signals already in the stream stay with their element', 'C03')
        if not (isinstance(n, int) and n == 0):
            new = And(k >= 0, Lt(k, n))
            at = v0.cnt - pops + k
            if isinstance(n, int) and n == 1:
                at = v0.cnt - pops
                new = True
            if self.env:
                new = And(new, at >= 0)
            if fv(k) is not None:
                ob(Implies(new, Eq(self.el(ex, s, v, at), fv(k))), 'published value', 'C01')
            if fs(k) is not None:
                ob(Implies(new, Eq(self.sg(ex, s, v, at), fs(k))), 'published signal', 'C03')
        ob(Eq(v.valid, v0.valid if valid is None else valid), 'open/closed state', 'C07')
        j = ex.sym('j!any', None)
        ob(Implies(And(j >= 0, Lt(j, v0.cap)), Eq(self.sgidx(ex, s, v, j), self.sgidx(ex, st0, v0, j))), 'start index kept', 'C03')
        # statistics
        def plus(a, d):
            return If(a + d >= (1 << 32), a + d - (1 << 32), a + d)
        if stats:
            ex.oblige(s, Eq(v.wc, plus(v0.wc, wcount)), '[C11] %swrite count' % w)
            ex.oblige(s, Eq(v.rc, plus(v0.rc, rcount)), '[C11] %sread count' % w)
        if flags is not None:
            self.flags_post(ex, s, v, flags, w, exc)
        t = s.rcells(self.this)
        ob(Eq(self.rd(ex, s, self.this, C.OFF_ALLOCATE_CALLED, 1), ac), 'allocation state', 'C05')
        if nalloc is not None:
            ob(Eq(self.rd(ex, s, self.this, C.OFF_N_ALLOCATED, 4), nalloc), 'allocation size', 'C05')
        ex.oblige(s, And(Eq(t[C.OFF_WRITE_STATS_PTR][1], Ptr(v0.D, 0, C.D_WSTATS)), Eq(t[C.OFF_READ_STATS_PTR][1], Ptr(v0.D, 0, C.D_RSTATS))),
                  '[C11] %sstatistics call-backs' % w)
        self.life_post(ex, s, v, tags, w, ac, allocated, peeked, consumed)
        return v

    def life_post(self, ex, s, v, tags, w, ac, allocated, peeked, consumed):
        pass

    def flags_post(self, ex, s, v, changed, w, exc=False):
        exp = dict(self.flags0)
        for n, val in changed.items():
            exp[FLAG[n]] = val
        g = And(*[Eq(self.flag(ex, s, v.D, t, i), x) for (t, i), x in exp.items()])
        ex.oblige(s, And(g, Eq(self.rd(ex, s, self.this, self.C.OFF_DM_CHECKING, 8), self.chk0)),
                  '[C10] %sannouncements %s' % (w, 'withdrawn before throwing' if exc else 'as expected on return'))
