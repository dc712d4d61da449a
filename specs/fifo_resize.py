"""Construction, resizing and destruction of a stream.

construct / construct_ext establish the class invariant every other contract of a stream starts from.

resize runs while producer and consumer may still be at work: before every read of the stream the others may have
changed it in any well-formed way, until the resizer has announced itself and then seen every access announcement
withdrawn ("frozen"; from there on nobody else moves, which is what C10 obliges the operations to).  The buffer may be
replaced, copied or deleted only then."""
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, Contract, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, Undef)
from irparse import T, PTR
from fifo import Fifo, AFun, I64, I32, View, MAXCAP
from fifo_class import Fn, FifoItem, ALIVE
import fifo_ops


class Heap:
    """allocation: every block is noted; arrays of slots and signals get their layout"""
    def on_new(self, ex, st, name, n, loc):
        if not isinstance(n, int):
            raise Unsupported('allocation of symbolic size')
        p = ex.alloc(st, n, 'new')
        self.note(st, p)
        return p

    def note(self, st, p):
        st.ghost['allocs'] = st.ghost.get('allocs', ()) + (p.r,)

    def alloc_contracts(self):
        rt = self

        def slots(ex, st, n, what):
            C = rt.C
            S = C.SZ_SLOT
            ln = ex.fresh('slots', 8)
            ex.assume(st, And(ln * S <= n, n < ln * S + S))
            r = ex.new_region(st, what, kind='arr', meta={'heap': True, 'bytes': n, 'autofields': False})
            r.stride, r.length = S, ln
            r.fields[0] = (C.SZ_SLOT if not isinstance(rt, FifoItem) else 8, 'int')
            if isinstance(rt, FifoItem):
                r.fields[ALIVE] = (8, 'int')
                st.cells(r)[ALIVE] = (8, AConst(0))
            rt.note(st, Ptr(r))
            return Ptr(r)

        def memalign(ex, st, a, loc):
            p = slots(ex, st, toint(a[2]), 'newstore')
            ex.oblige(st, Ne(toint(a[1]), 0), '[C09] alignment is passed on', loc)
            if ex.store(st, a[0], PTR, p, loc) is None:
                return []
            return 0

        def calloc(ex, st, a, loc):
            C = rt.C
            if a[1] != C.SZ_SIGNAL:
                if a[0] == C.SZ_SIGNAL:
                    a = [a[1], a[0]]
                else:
                    raise Unsupported('calloc of something else')
            r = ex.new_region(st, 'newsignal', kind='arr', default='zero', meta={'heap': True, 'bytes': a[0] * a[1], 'autofields': False})
            r.stride, r.length = a[1], a[0]
            for o, s in ((C.OFF_SIG_SIG, C.SZ_SIG_SIG), (C.OFF_SIG_INDEX, 8)):
                r.fields[o] = (s, 'int')
                st.cells(r)[o] = (s, AConst(0))
            rt.note(st, Ptr(r))
            return Ptr(r)

        def malloc(ex, st, a, loc):
            if isinstance(a[0], int):
                p = ex.alloc(st, a[0], 'malloc')
                rt.note(st, p)
                return p
            return slots(ex, st, toint(a[0]), 'newstore')
        return [(r'^posix_memalign$', Fn('posix_memalign', memalign)), (r'^calloc$', Fn('calloc', calloc)), (r'^malloc$', Fn('malloc', malloc))]


class Resizer(Heap):
    """mixin: the stream as the resizer sees it"""
    def contracts(self):
        return super().contracts() + self.alloc_contracts()

    def begin(self, ex, st):
        g = st.ghost
        g['allocs'] = ()
        g['seen0'] = g['seen1'] = g['seenc'] = False
        g['mine'] = False              # `resizing` is set by this call
        g['swapped'] = False
        self.exitr = Region('exitflag', size=1)
        self.exitr.shared = True
        self.exit0 = ex.sym('exit_alloc', 1)
        ex.assume(st, self.exit0 <= 1)
        st.cells(self.exitr)[0] = (1, self.exit0)
        for i in (0, 1):                 # one cell, as the resizer reads them
            ta = self.C.D_TA + i * self.C.SZ_TA
            for k in range(8):
                st.cells(self.D).pop(ta + k, None)
            w = ex.sym('whole%d' % i)
            st.cells(self.D)[ta] = (8, w)
        st.cells(self.this)[self.C.OFF_DM_RESIZING] = (1, 0)
        self.inv.append(('the stream stays well formed', self.rinv))

    def frozen(self, st):
        g = st.ghost
        return And(g['mine'], g['seen0'], g['seen1'], g['seenc'])

    def rinv(self, ex, s):
        C = self.C
        v = self.view(ex, s)
        fz = self.frozen(s)
        d = s.rcells(self.D)
        whole = [self.rd(ex, s, self.D, C.D_TA + i * C.SZ_TA, 8) for i in (0, 1)]
        chk = self.rd(ex, s, self.this, C.OFF_DM_CHECKING, 8)
        ex_ = self.rd(ex, s, self.exitr, 0, 1)
        g = s.ghost
        return And(v.D is self.D, Eq(v.STORE, Ptr(self.STORE)), Eq(v.SIG, Ptr(self.SIG)), self.wf(v), Eq(v.cap, self.cap0), v.valid >= 0, Le(v.valid, self.valid0),
                   ex_ >= 0, Le(ex_, 1), Le(self.exit0, ex_),
                   Eq(toint(self.rd(ex, s, self.this, C.OFF_DM_RESIZING, 1)), If(g['mine'], 1, 0)),
                   Implies(fz, And(Eq(whole[0], 0), Eq(whole[1], 0), Eq(chk, 0))))

    def rg_step(self, ex, st):
        """producer, consumer, scheduler move, unless they are locked out"""
        C = self.C
        g = st.ghost
        fz = self.frozen(st)
        if st.ghost['swapped'] is not False or (fz is True):
            return
        free = Not(fz)
        n = lambda nm, size=8: ex.fresh(nm, size)
        D, this = self.D, self.this

        def put(r, off, size, nv, cond=None):
            old = self.rd(ex, st, r, off, size)
            x = ex.fresh('env', size)
            ex.assume(st, Eq(x, If(free, nv, old)))
            ex.store_obj(st, r, off, size, x)
        was = self.view(ex, st)
        for b in (C.D_RP, C.D_WP):
            put(D, b + C.P_A, 8, n('cur')); put(D, b + C.P_WRAP, 8, n('lap'))
        nv = n('valid', 1)
        ex.assume(st, Le(nv, was.valid))
        put(D, C.D_VALID, 1, nv)
        for i, ghost in ((0, 'seen0'), (1, 'seen1')):
            off = C.D_TA + i * C.SZ_TA
            old = self.rd(ex, st, D, off, 8)
            nw = n('whole')
            x = ex.fresh('env', 8)
            ex.assume(st, Eq(x, If(And(g['mine'], g[ghost]), old, nw)))
            ex.store_obj(st, D, off, 8, x)
        old = self.rd(ex, st, this, C.OFF_DM_CHECKING, 8)
        x = ex.fresh('env', 8)
        ex.assume(st, Eq(x, If(And(g['mine'], g['seenc']), old, n('chk'))))
        ex.store_obj(st, this, C.OFF_DM_CHECKING, 8, x)
        for b in (C.D_RSTATS, C.D_WSTATS):
            put(D, b + C.B_BLOCKED, 4, n('bl', 4)); put(D, b + C.B_COUNT, 4, n('ct', 4))
        put(D, C.D_FORCE, 8, n('force'))
        v = self.view(ex, st)
        ex.assume(st, And(self.wf(v), v.ww < (1 << 62), v.wr >= 0))
        for r in (self.STORE, self.SIG):
            for off, (size, _) in list(r.fields.items()):
                if r is self.SIG and off == C.OFF_SIG_INDEX:
                    continue
                old = ex.arr_field(st, r, off, size)
                if isinstance(r, Region) and off == ALIVE and r is self.STORE and isinstance(self, FifoItem):
                    new = AFun(lambda ex, i, v=v: toint(self.occ(v, i)))
                    st.cells(r)[off] = (size, new)
                else:
                    nb = ABase('env%d' % next(ex.fresh_n), size)
                    st.cells(r)[off] = (size, AFun(lambda ex, i, old=old, nb=nb, free=free: If(free, nb.select(ex, i), old.select(ex, i))))
                if st.log is not None:
                    st.log.add(('arr', r, off, size))

    def on_shared(self, ex, st, p, size, op, v, loc):
        if not self.track:
            return
        C = self.C
        g = st.ghost
        rmw = op not in ('load', 'store')
        if p.r is self.exitr:
            if op == 'load':
                x = ex.fresh('exit', 1)
                ex.assume(st, And(Le(x, 1), Le(self.rd(ex, st, p.r, 0, 1), x)))
                ex.store_obj(st, p.r, 0, 1, x)
            else:
                ex.oblige(st, False, '[C09] the exit flag belongs to the caller', loc)
            return
        if p.r is self.this:
            if p.off == C.OFF_DM_RESIZING:
                return
            if op == 'load' and p.off == C.OFF_DM_CHECKING:
                self.rg_step(ex, st)
                x = self.rd(ex, st, p.r, p.off, 8)
                self.setg(st, 'seenc', symex_simp(Or(g['seenc'], And(g['mine'], Eq(x, 0)))))
                return
            if op != 'load' and p.off in (C.OFF_DM_BUFFER, C.OFF_DM_TA):
                ex.oblige(st, self.frozen(st), '[C09] the buffer is replaced only when no operation is registered as using it', loc)
                if p.off == C.OFF_DM_BUFFER:
                    g['swapped'] = True
                return
            return
        if p.r is self.D:
            if op == 'load':
                self.rg_step(ex, st)
                for i, gh in ((0, 'seen0'), (1, 'seen1')):
                    o = C.D_TA + i * C.SZ_TA
                    if o == p.off and size == 8:
                        self.setg(st, gh, symex_simp(Or(g[gh], And(g['mine'], Eq(self.rd(ex, st, p.r, o, 8), 0)))))
            elif g['swapped'] is False:
                ex.oblige(st, False, '[C09,C10] the resizer leaves the old buffer untouched while it is in use', loc)
            return
        if p.r is self.STORE or p.r is self.SIG:
            if op == 'load':
                self.rg_step(ex, st)
            else:
                ex.oblige(st, False, '[C09] the resizer does not write the old slots', loc)

    def on_memcpy(self, ex, st, dst, src, n, loc):
        for p in (dst, src):
            if isinstance(p, Ptr) and p.r in (self.STORE, self.SIG):
                ex.oblige(st, self.frozen(st), '[C09] slots are copied only when no operation is registered as using the buffer', loc)

    def after_store(self, ex, st, p, size, v, loc):
        if not self.track:
            return
        if p.r is self.this and p.off == self.C.OFF_DM_RESIZING:
            g = st.ghost
            on = symex_simp(Ne(toint(v), 0))
            self.setg(st, 'mine', on)
            for k in ('seen0', 'seen1', 'seenc'):
                self.setg(st, k, False if on is False else symex_simp(And(g[k], on)))


def symex_simp(b):
    from fifo import simp
    return simp(b)


class RFifo(Resizer, Fifo):
    pass


class RItem(Resizer, FifoItem):
    pass


def cls(kind):
    return {'u64': RFifo, 'item': RItem, 'big': RFifo}[kind]


def kept(r, s, v, sz, w, tags='C09'):
    """v (of state s) holds what the old buffer held"""
    ex, f = r.ex, r.f
    C = f.C
    o = f.view(ex, s, f.D)
    ob = lambda g, n, t='C09': ex.oblige(s, g, '[%s] %s: %s' % (t, w, n))
    ob(Eq(v.cap, sz), 'capacity() is the new capacity', 'C09,C02')
    ob(f.wf(v), 'cursors well formed', 'C09,C01,C02')
    ob(Eq(v.cnt, o.cnt), 'every unread element is kept', 'C09,C01,C02')
    k = ex.sym('k!any', None)
    rng = And(k >= 0, Lt(k, o.cnt))
    ob(Implies(rng, Eq(f.el(ex, s, v, k), f.el(ex, s, o, k))), 'elements keep value and order', 'C09,C01')
    ob(Implies(rng, Eq(f.sg(ex, s, v, k), f.sg(ex, s, o, k))), 'signals stay with their element', 'C09,C03')
    ob(Eq(f.sgidx(ex, s, v, 0), f.sgidx(ex, s, o, 0)), 'start index kept', 'C09')
    ob(Eq(v.valid, o.valid), 'open/closed state kept', 'C09,C07')
    ob(And(Eq(v.rc, o.rc), Eq(v.wc, o.wc), Eq(v.rb, o.rb), Eq(v.wb, o.wb)), 'transfer statistics kept', 'C09,C11')
    ob(Eq(v.force, o.force), 'suggested count kept', 'C09,C11')
    for i in (0, 1):
        ob(Eq(f.rd(ex, s, v.D, C.D_TA + i * C.SZ_TA, 8), 0), 'no access announced on the new buffer', 'C09,C10')


def wired(r, s, v, w, ext=False, tags='C09'):
    """the stream and its buffer refer to each other"""
    ex, f = r.ex, r.f
    C = f.C
    t = s.rcells(f.this)
    ob = lambda g, n, tg: ex.oblige(s, g, '[%s] %s: %s' % (tg, w, n))
    ob(Eq(t[C.OFF_DM_TA][1], Ptr(v.D, 0, C.D_TA)), 'access announcements go to the buffer in use', tags + ',C10')
    ob(And(Eq(t[C.OFF_WRITE_STATS_PTR][1], Ptr(v.D, 0, C.D_WSTATS)), Eq(t[C.OFF_READ_STATS_PTR][1], Ptr(v.D, 0, C.D_RSTATS))),
       'statistics call-backs refer to the buffer in use', tags + ',C11')
    ok = isinstance(v.STORE, Ptr) and isinstance(v.SIG, Ptr) and v.STORE.r is not None and v.SIG.r is not None and v.STORE.off == 0 and v.SIG.off == 0 \
        and v.STORE.r not in s.freed and v.SIG.r not in s.freed and v.D not in s.freed and v.STORE.r.length is not None and v.SIG.r.length is not None
    ob(ok, 'storage is alive', tags + ',C01')
    if ok:
        ob(And(Eq(v.STORE.idx, 0), Eq(v.SIG.idx, 0), Le(v.cap, v.STORE.r.length), Le(v.cap, v.SIG.r.length)), 'there is a slot and a signal for every element', tags + ',C01,C03')
    ob(Eq(f.rd(ex, s, f.this, C.OFF_DM_RESIZING, 1), 0), 'no resize left pending', tags + ',C10')
    ob(Eq(toint(f.rd(ex, s, f.this, C.OFF_DM_RESIZEABLE, 1)), 0 if ext else 1), 'resizeable exactly if the memory is its own', tags)
    ob(Eq(toint(f.rd(ex, s, v.D, C.D_EXT, 1)), 1 if ext else 0), 'ownership of the memory', tags)
    return ok


def setup(r, kind, mon, ext=False):
    r.mon = mon
    r.f.begin(r.ex, r.st)


def op_resize(mod, kind, mon=False, ext=False):
    r = fifo_ops.Run(mod, kind, 'resizer', cls=cls(kind), use_size=False, monitor=mon, ext=ext)
    f, ex, st = r.f, r.ex, r.st
    C = f.C
    ex.unroll_limit, ex.unroll_budget = 70, 400
    f.begin(ex, st)
    sz, al = ex.sym('newsize'), ex.sym('align')
    ex.assume(st, And(Le(f.cap0, sz), sz < MAXCAP, al >= 1, al < 4096))
    t0 = {o: c for o, c in st.rcells(f.this).items()}
    rx = (r'^RingBufferBaseMonitor<%s, .*>::resize\(' if mon else r'^RingBuffer<%s, .*, false>::resize\(') % r.E
    w = 'resize' + (' (monitored stream)' if mon else '') + (' of user memory' if ext else '')
    for s, v in r.ret_only(r.call(rx, [r.this(), sz, al, Ptr(f.exitr)]), w, 'C09'):
        v = f.view(ex, s)
        allocs = set(s.ghost['allocs'])
        ob = lambda g, n, t='C09': ex.oblige(s, g, '[%s] %s: %s' % (t, w, n))
        ob(And(*[Eq(a[1], s.rcells(f.this)[o][1])
                 for o, a in t0.items() if o not in (C.OFF_DM_BUFFER, C.OFF_DM_TA, C.OFF_DM_CHECKING, C.OFF_DM_RESIZING, C.OFF_WRITE_STATS_PTR, C.OFF_READ_STATS_PTR)
                 and not isinstance(a[1], Undef)]), 'the rest of the stream is left alone')
        stop = Or(Ne(f.exit0, 0), Eq(f.valid0, 0))
        if v.D is f.D:
            ob(s.freed.isdisjoint({f.D, f.STORE, f.SIG}), 'unchanged stream keeps its buffer', 'C09,C01')
            ob(allocs <= s.freed, 'the unused buffer is released', 'C09')
            wired(r, s, v, w, ext)
            if not ext:
                ob(Or(Ne(f.rd(ex, s, f.exitr, 0, 1), 0), Eq(v.valid, 0)), 'gives up only when the application is finished or the stream closed')
        else:
            ob(not ext, 'a stream over user memory is never resized')
            ob(Not(stop), 'changes nothing when the application is finished or the stream is closed')
            ob(v.D in allocs and {f.D, f.STORE, f.SIG} <= s.freed and allocs.isdisjoint(s.freed), 'the old buffer, and only it, is released')
            if wired(r, s, v, w):
                kept(r, s, v, sz, w)
                if isinstance(f, FifoItem):
                    j = ex.sym('j!any', None)
                    ob(Implies(And(j >= 0, Lt(j, v.cap)), Eq(ex.arr_field(s, v.STORE.r, ALIVE, 8).select(ex, j), toint(f.occ(v, j)))),
                       'the objects alive are exactly those of unread elements', 'C09,C06')
    return r


def op_resize_ext(mod, kind):
    return op_resize(mod, kind, ext=True)


def op_resize_mon(mod, kind):
    return op_resize(mod, kind, mon=True)


class CFifo(Heap, Fifo):
    def contracts(self):
        return super().contracts() + self.alloc_contracts()


class CItem(Heap, FifoItem):
    def contracts(self):
        return super().contracts() + self.alloc_contracts()


def op_construct(mod, kind, mon=False, ext=False):
    r = fifo_ops.Run(mod, kind, 'producer', cls={'u64': CFifo, 'item': CItem, 'big': CFifo}[kind], use_size=False)
    f, ex, st = r.f, r.ex, r.st
    C = f.C
    ex.unroll_limit, ex.unroll_budget = 70, 400
    f.track = False
    st.ghost['allocs'] = ()
    n, al = ex.sym('n_items'), ex.sym('align_or_start')
    ex.assume(st, And(n >= 1, n < MAXCAP))
    data = NULL
    if ext:
        U = Region('userdata', kind='arr', stride=C.SZ_SLOT, length=n, fields=dict(f.STORE.fields), meta={'autofields': False})
        if isinstance(f, FifoItem):
            st.cells(U)[ALIVE] = (8, AConst(1))
        data = Ptr(U)
    else:
        ex.assume(st, And(al >= 1, al < 4096))
    st1 = st.clone()
    w = 'construct' + (' (monitored)' if mon else '') + (' over user memory' if ext else '')
    outs = r.call(r'^RingBuffer<%s, .*, %s>::make_new_fifo\(' % (r.E, 'true' if mon else 'false'), [n, al, data])
    for s, k, p in outs:
        if k == 'exc':
            ex.oblige(s, False, '[C01] %s: throws nothing' % w)
            continue
        ok = isinstance(p, Ptr) and p.r is not None and p.off == 0
        ex.oblige(s, ok, '[C01] %s: yields a stream' % w)
        if not ok:
            continue
        f.this = p.r
        v = f.view(ex, s)
        ob = lambda g, nm, t: ex.oblige(s, g, '[%s] %s: %s' % (t, w, nm))
        ob(Eq(v.cap, n), 'capacity as requested', 'C02')
        ob(f.wf(v), 'cursors well formed', 'C01,C02')
        ob(Eq(v.cnt, n if ext else 0), 'holds every element of the memory' if ext else 'starts empty', 'C01,C02')
        ob(And(Eq(v.rp, 0), Le(v.ww, 1)), 'starts at the front', 'C01')
        ob(Eq(v.valid, 1), 'starts open', 'C07')
        ob(And(Eq(v.wc, 0), Eq(v.rc, 0), Eq(v.wb, 0), Eq(v.rb, 0), Eq(v.force, 0)), 'statistics start at zero', 'C11')
        ob(And(*([Eq(f.rd(ex, s, v.D, C.D_TA + i * C.SZ_TA + b, 1), 0) for i in (0, 1) for b in range(8)] + [Eq(f.rd(ex, s, f.this, C.OFF_DM_CHECKING, 8), 0)])),
           'no access announced', 'C10')
        ob(Eq(f.rd(ex, s, f.this, C.OFF_ALLOCATE_CALLED, 1), 0), 'no allocation outstanding', 'C05')
        if wired(r, s, v, w, ext, 'C01'):
            if ext:
                ob(Eq(v.STORE, data), 'elements are the user\'s', 'C01')
                k = ex.sym('k!any', None)
                rng = And(k >= 0, Lt(k, n))
                ob(Implies(rng, Eq(f.el(ex, s, v, k), ex.arr_field(st1, U, 0, 8).select(ex, k))), 'elements appear in order', 'C01')
                ob(Implies(rng, Eq(f.sg(ex, s, v, k), C.SIG_NONE)), 'no signals', 'C03')
                ob(Eq(f.sgidx(ex, s, v, 0), al), 'start index as given', 'C01,C03')
            elif isinstance(f, FifoItem):
                j = ex.sym('j!any', None)
                ob(Implies(And(j >= 0, Lt(j, n)), Eq(ex.arr_field(s, v.STORE.r, ALIVE, 8).select(ex, j), 0)), 'no objects yet', 'C06')
    return r


def op_construct_ext(mod, kind):
    return op_construct(mod, kind, ext=True)


def op_construct_mon(mod, kind):
    return op_construct(mod, kind, mon=True)


def op_destroy(mod, kind, ext=False):
    """destroying a stream releases its buffer exactly once, never the user's memory"""
    r = fifo_ops.Run(mod, kind, 'producer', cls={'u64': CFifo, 'item': CItem, 'big': CFifo}[kind], use_size=False, ext=ext)
    f, ex, st = r.f, r.ex, r.st
    f.track = False
    w = 'destroy' + (' (user memory)' if ext else '')
    for s, v in r.ret_only(r.call(r'^(virtual )?RingBuffer<%s, .*, false>::~RingBuffer\(\)$' % r.E, [r.this()]), w, 'C06'):
        ex.oblige(s, {f.D, f.SIG} <= s.freed, '[C06,C01] %s: releases the buffer' % w)
        ex.oblige(s, (f.STORE in s.freed) == (not ext), '[C06,C01] %s: releases the element storage exactly if it is its own' % w)
    return r


def op_destroy_ext(mod, kind):
    return op_destroy(mod, kind, True)


OPS = dict(construct=op_construct, construct_mon=op_construct_mon, construct_ext=op_construct_ext, resize=op_resize, resize_mon=op_resize_mon, resize_ext=op_resize_ext,
           destroy=op_destroy, destroy_ext=op_destroy_ext)
