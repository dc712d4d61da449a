"""insert and pop_range: sequences of local_push / local_pop.

local_push and local_pop are verified by contracts of their own (fifo_ops: local_push, local_pop); here their contracts
stand in for the bodies, recorded as a history: the k-th call publishes (value, signal) / delivers (Q(k), QS(k))."""
import re
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, Contract, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, Undef)
from fifo import Fifo, AFun, I32, I64
from fifo_class import Fn, FifoItem, ALIVE
import fifo_ops
from fifo_ops import Run, find, closed, nomore

ML = r'^std::map<unsigned long, std::function<void \(void\*, void\*, raft::signal const&\)>.*>::'
NODE = 16          # offset of the value in a list node


def val_of(f, ex, st, p, loc):
    if isinstance(f, FifoItem):
        return f.value(ex, st, p, loc, 'published is')
    return ex.load(st, p, I64, loc)


class RangeRun(Run):
    def __init__(self, mod, kind, role):
        rt = self
        E = re.escape(fifo_ops.ET[kind])

        def init(ex, st, a, loc):
            arr, n = a[1], a[2]
            if not isinstance(n, int) or not isinstance(arr, Ptr) or arr.idx != 0 or arr.off != 0:
                raise Unsupported('initialiser list')
            m = Region('func_map', size=rt.PAIR * n)
            c = st.cells(m)
            for off, cell in st.rcells(arr.r).items():
                c[off] = cell
            ex.store(st, a[0], symex.PTR, Ptr(m), loc)
            st.ghost['map%d' % m.id] = n
            return None

        def find_(ex, st, a, loc):
            m = ex.load(st, a[0], symex.PTR, loc)
            n = st.ghost['map%d' % m.r.id]
            k = ex.load(st, a[1], I64, loc)
            outs = []
            for i in range(n + 1):
                s = st.clone()
                for j in range(min(i + 1, n)):
                    kj = ex.load(s, Ptr(m.r, 0, rt.PAIR * j), I64, loc)
                    ex.assume(s, Eq(kj, k) if j == i else Ne(kj, k))
                if ex.feasible(s):
                    outs.append((s, 'ret', Ptr(m.r, 0, rt.PAIR * i)))
            return outs

        def end(ex, st, a, loc):
            m = ex.load(st, a[0], symex.PTR, loc)
            return Ptr(m.r, 0, rt.PAIR * st.ghost['map%d' % m.r.id])

        def deref(ex, st, a, loc):
            p = ex.load(st, a[0], symex.PTR, loc)
            ex.oblige(st, p.off < rt.PAIR * st.ghost['map%d' % p.r.id], '[C01] insert: the past-the-end entry is not used', loc)
            return p

        def hash_(ex, st, a, loc):
            # hash codes of distinct types differ (assumed)
            if not isinstance(a[0], Ptr) or a[0].r is None:
                raise Unsupported('hash_code')
            return rt.hashes.setdefault(a[0].r.name, 7919 + len(rt.hashes))

        def nop(ex, st, a, loc):
            return None

        def distance(ex, st, a, loc):
            x, y = a[0], a[1]
            if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r is rt.items):
                raise Unsupported('distance')
            return toint(y.idx) - toint(x.idx)

        def push(ex, st, a, loc):
            f = rt.f
            g = st.ghost
            k = g['npush']
            ex.oblige(st, isinstance(a[0], Ptr) and a[0].r is f.this and a[0].off == 0, '[C01] insert: elements go into this stream', loc)
            ex.oblige(st, Lt(k, rt.n), '[C01] insert: not more elements than the range has', loc)
            ex.oblige(st, Implies(Lt(k, rt.n), Eq(val_of(f, ex, st, a[1], loc), rt.at(ex, st, k))), '[C01] insert: the k-th element published is the k-th of the range', loc)
            ex.oblige(st, Eq(ex.load(st, a[2], I32, loc), If(Eq(k, rt.n - 1), rt.sig, f.C.SIG_NONE)), '[C03] insert: the signal travels with the last element, the others carry none', loc)
            f.setg(st, 'npush', k + 1)
            return None

        def pop(ex, st, a, loc):
            f = rt.f
            k = st.ghost['npop']
            ex.oblige(st, isinstance(a[0], Ptr) and a[0].r is f.this and a[0].off == 0, '[C01] pop_range: elements come from this stream', loc)
            ex.oblige(st, Lt(k, rt.n), '[C01,C05] pop_range: not more elements than asked for', loc)
            outs = []
            for t in (closed(rt), nomore(rt)):
                s = st.clone()
                outs.append((s, 'exc', dict(type=t, obj=UNDEF)))
            if isinstance(f, FifoItem):
                ex.oblige(st, Eq(f.state_of(ex, st, a[1]), 1), '[C06] assigned to is a live object', loc)
            ex.store(st, a[1], I64, rt.Q.select(ex, k), loc)
            if a[2] is not NULL and not (isinstance(a[2], Ptr) and a[2].r is None):
                ex.store(st, a[2], I32, rt.QS.select(ex, k), loc)
            f.setg(st, 'npop', k + 1)
            return outs + [(st, 'ret', None)]
        cs = [(ML + r'map\(std::initializer_list', Fn('std::map from an initialiser list', init)), (ML + r'find\(unsigned long const&\)', Fn('std::map::find', find_)),
              (ML + r'c?end\(\)', Fn('std::map::end', end)), (ML + r'~map\(\)', Fn('std::map destructor', nop)),
              (r'^std::_Rb_tree_(const_)?iterator<std::pair<unsigned long const, std::function<.*::operator(\*|->)\(\) const$', Fn('std::map iterator *', deref)),
              (r'^std::pair<unsigned long const, std::function<void \(void\*, void\*, raft::signal const&\)>>::~pair\(\)$', Fn('pair destructor', nop)),
              (r'^std::type_info::hash_code\(\) const$', Fn('std::type_info::hash_code (distinct types, distinct codes)', hash_)),
              (r'std::__distance<.*std::_List_iterator<', Fn('std::distance (list)', distance))]
        lp, lo = Fn('local_push', push), Fn('local_pop', pop)
        lp.trusted = lo.trusted = False
        cs += [(r'^RingBufferBase(Heap)?<%s, [^<>]*>::local_push\(void\*, raft::signal const&\)$' % E, lp),
               (r'^RingBufferBase(Heap)?<%s, [^<>]*>::local_pop\(void\*, raft::signal\*\)$' % E, lo)]
        self.hashes = {}
        super().__init__(mod, kind, role, contracts=cs)
        self.ex.unroll_budget = 2000
        self.PAIR = self.f.C.SZ_FUNC_PAIR

    def at(self, ex, st, k):
        return ex.arr_field(st, self.items, self.voff, 8).select(ex, toint(k) + self.b0)


def op_insert(mod, kind, cont='vector'):
    r = RangeRun(mod, kind, 'producer')
    f, ex, st = r.f, r.ex, r.st
    n, b0 = ex.sym('range_n'), ex.sym('range_b0')
    ex.assume(st, And(n < (1 << 40), b0 < (1 << 40)))
    off = NODE if cont == 'list' else 0
    stride = f.C.SZ_ELEM + off
    fields = {off: (8, 'int'), off + ALIVE: (8, 'int')} if isinstance(f, FifoItem) else {off: (8, 'int')}
    items = Region('range', kind='arr', stride=stride, length=n + b0 + 1, fields=dict(fields), meta={'autofields': False, 'objoff': off})
    r.items, r.voff, r.b0, r.n, r.sig = items, off, b0, n, ex.sym('sig', 4)
    c = st.cells(items)
    if isinstance(f, FifoItem):
        c[off + ALIVE] = (8, AConst(1))
    if cont == 'list':
        items.fields[0] = (8, ('ptr', items))
        c[0] = (8, AFun(lambda ex, i: Ptr(items, i + 1)))
        items.fields[8] = (8, ('ptr', items))
        c[8] = (8, AFun(lambda ex, i: Ptr(items, i - 1)))
    f.setg(st, 'npush', 0)
    f.progress = lambda ex, s: s.ghost['npush']
    f.inv.append(('not more elements than the range has', lambda ex, s: And(Le(0, s.ghost['npush']), Le(s.ghost['npush'], n))))
    it = r'std::_List_iterator<' if cont == 'list' else r'__gnu_cxx::__normal_iterator<'
    outs = r.call(r'^void FIFO::insert<%s' % it, [r.this(), Ptr(items, b0), Ptr(items, b0 + n), r.sig])
    w = 'insert from a std::' + cont
    for s, v in r.ret_only(outs, w, 'C01,C03'):
        ex.oblige(s, Eq(s.ghost['npush'], n), '[C01] %s: every element of the range is published' % w)
        f.post(ex, s, 'C01,C03', flags={}, what=w + ', nothing beyond the pushes')
    return r


def op_insert_list(mod, kind):
    return op_insert(mod, kind, 'list')


def op_pop_range(mod, kind):
    r = RangeRun(mod, kind, 'consumer')
    f, ex, st = r.f, r.ex, r.st
    n = ex.sym('range_n')
    ex.assume(st, n < (1 << 40))
    es = f.C.SZ_ELEM
    stride = (es + 4 + 7) // 8 * 8
    fields = {0: (8, 'int'), es: (4, 'int')}
    if isinstance(f, FifoItem):
        fields[ALIVE] = (8, 'int')
    items = Region('range', kind='arr', stride=stride, length=n, fields=fields, meta={'autofields': False})
    r.items, r.n = items, n
    if isinstance(f, FifoItem):
        st.cells(items)[ALIVE] = (8, AConst(1))
    r.Q, r.QS = ABase('Q_el', 8), ABase('Q_sig', 4)
    vec = Region('items', size=24)
    c = st.cells(vec)
    c[0], c[8], c[16] = (8, Ptr(items, 0)), (8, Ptr(items, n)), (8, Ptr(items, n))
    f.setg(st, 'npop', 0)
    f.progress = lambda ex, s: s.ghost['npop']

    def got(ex, s, upto):
        j = ex.sym('j!any', None)
        return Implies(And(j >= 0, Lt(j, upto)), And(Eq(ex.arr_field(s, items, 0, 8).select(ex, j), r.Q.select(ex, j)),
                                                     Eq(ex.arr_field(s, items, es, 4).select(ex, j), r.QS.select(ex, j))))
    f.inv.append(('elements received so far', lambda ex, s: And(Le(0, s.ghost['npop']), Le(s.ghost['npop'], n), got(ex, s, s.ghost['npop']))))

    def header(ex, s):
        k = s.ghost['npop']
        for off, size, Q in ((0, 8, r.Q), (es, 4, r.QS)):
            a = s.rcells(items).get(off)
            if a and isinstance(a[1], ABase) and a[1].name.startswith('ha_'):
                s.cells(items)[off] = (size, AFun(lambda ex, i, Q=Q, a=a[1], k=k: If(And(i >= 0, Lt(i, k)), Q.select(ex, i), a.select(ex, i))))
    f.header = header
    w = 'pop_range'
    outs = r.call(r'^void FIFO::pop_range<', [r.this(), Ptr(vec), n])
    for s, k, v in outs:
        if k == 'exc':
            ex.oblige(s, bool(v) and v['type'] in (closed(r), nomore(r)), '[C07] pop_range: throws only what pop throws')
            continue
        ex.oblige(s, Eq(s.ghost['npop'], n), '[C01] pop_range: takes exactly the elements asked for')
        ex.oblige(s, got(ex, s, n), '[C01,C03] pop_range: the k-th entry holds the k-th element and its signal')
        f.post(ex, s, 'C01,C03', flags={}, what=w + ', nothing beyond the pops')
    return r


OPS = dict(insert=op_insert, insert_list=op_insert_list, pop_range=op_pop_range)
