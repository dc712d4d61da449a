"""Streams of class objects too large to be stored inline: a slot holds the address of the object.

OBJ is the storage of all objects of the class, addressed by number (0 is null): value, and a life state (0 no storage,
3 storage without an object, 1 a live object).  An object is in the stream iff the slot of an unread element (or of the
outstanding allocation) holds its address; SLOT is the inverse of the slot contents on entry.
Invariant: every object in the stream is alive, and in one slot only.
Sets of addresses (the kernels', shared by all their streams): PEEK objects looked at, OUT objects handed on, IN
recycled objects left to the clean-up (Schedule::fifo_gc).
Ownership: an object that was looked at and not yet handed on is not in an output stream."""
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, Contract, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, Undef)
from fifo import AFun, I64, FLAG, View
from fifo_class import FifoItem, Fn as Call, ALIVE
import fifo_ops

SET = r'std::set<unsigned long, .*>::'
MAP = r'std::map<unsigned long, std::function<void \(void\*\)>.*>::'
IT = r'std::_Rb_tree_(const_)?iterator<(unsigned long>|std::pair<unsigned long const, std::function<void \(void\*\)>>)'


class FifoBig(FifoItem):
    elem = 'Big'
    again = False
    attached = True           # the scheduler has given the stream its kernel's sets

    def mkstore(self, ex, st, cap):
        C = self.C
        self.OBJ = Region('objects', kind='arr', stride=C.SZ_ELEM, fields={0: (8, 'int'), ALIVE: (8, 'int')}, meta={'autofields': False, 'pool': True})
        self.STORE = Region('store', kind='arr', stride=8, length=cap, fields={0: (8, ('ptr', self.OBJ))}, meta={'autofields': False, 'heap': True})
        self.STORE.shared = True
        st.cells(self.STORE), st.cells(self.OBJ)

    def mkelems(self, ex, st):
        n = str(next(ex.fresh_n))
        self.slot_of = z3.Function('SLOT' + n, z3.IntSort(), z3.IntSort())
        self.base_store, self.base_state = ABase('store0', 8), ABase('LIFE0', 8)
        self.e0 = self._v0
        self.after = ABase('LIFE_AFTER', 8)        # what becomes of an object once the consumer has it (RG mode)
        if not self.future:
            st.cells(self.STORE)[0] = (8, AFun(lambda ex, i: self.store0(ex, i)))
        st.cells(self.OBJ)[ALIVE] = (8, AFun(lambda ex, p: self.state0(ex, p)))
        st.cells(self.OBJ)[0] = (8, ABase('VAL0', 8))
        self.sets_of = {}
        self.base_set = {}
        for k, nm in (('OUT', 'out'), ('PEEK', 'out_peek')) if self.role == 'producer' else (('IN', 'in'), ('PEEK', 'in_peek')):
            self.base_set[k] = ABase('MEM_' + k, 1)
            st.ghost['M_' + k] = self.base_set[k]
            self.sets_of[self.sets[nm]] = k
        self.its = {r: Region('it_' + k, kind='opaque') for r, k in self.sets_of.items()}
        if self.role == 'consumer' and not self.attached:
            st.cells(self.this)[self.C.OFF_IN_PEEK] = (8, NULL)
        self.handed = None
        self.p = ex.sym('p!any', None)
        self.inv.append(('objects alive are exactly those in the stream and those outside', lambda ex, s: And(*[g for _, g in self.own(ex, s, 'recycle')])))

    # ---------------------------------------------------------------- RG mode
    # consumer: the objects published from now on have addresses of their own, alive (RANK is the inverse of the
    # history); producer: what the consumer does to an object it was given is its own business
    @property
    def future(self):
        return self.env and self.role == 'consumer'

    def env_setup(self, ex, st):
        n = str(next(ex.fresh_n))
        self.rank = z3.Function('RANK' + n, z3.IntSort(), z3.IntSort())
        super().env_setup(ex, st)

    def hist(self, ex, st):
        if isinstance(self.HV, ABase):
            base = self.HV

            def h(ex, k):
                x = base.select(ex, k)
                ex.axiom(Implies(k >= 0, And(Lt(0, x), Eq(self.rank(toint(x)), k))))
                return x
            self.HV = AFun(h)
        super().hist(ex, st)

    def el(self, ex, st, v, k):
        if v.hist:
            return ex.arr_field(st, self.OBJ, 0, 8).select(ex, self.HV.select(ex, k))
        return super().el(ex, st, v, k)

    def taken(self, ex, p, s, since=0):
        """object in the stream on entry that the consumer has taken meanwhile"""
        j = self.slot_of(toint(p))
        v = self.e0
        n = If(j >= v.rp, j - v.rp, j - v.rp + v.cap)
        return And(self.in0(ex, p), self.occ(v, j), Le(since, n), Lt(n, s if isz(s) or isinstance(s, int) else s.ghost['ext']))

    def env_life(self, ex, st, v, nc, nl):
        if self.role == 'consumer':
            return
        e0, e1 = self.ext_before, st.ghost['ext']
        a = ex.arr_field(st, self.OBJ, ALIVE, 8)
        st.cells(self.OBJ)[ALIVE] = (8, AFun(lambda ex, p: If(self.taken(ex, p, e1, e0), self.after.select(ex, p), a.select(ex, p))))
        if st.log is not None:
            st.log.add(('arr', self.OBJ, ALIVE, 8))

    def env_step(self, ex, st):
        self.ext_before = st.ghost['ext']
        super().env_step(ex, st)

    def moved(self, ex, st, before):
        if self.role == 'consumer':
            return
        j = ex.sym('j!any', None)
        if before:
            st.ghost['occ_before'] = self.occ_eff(ex, st)(j)
            return
        n = self.occ_eff(ex, st)(j)
        ex.oblige(st, Implies(And(j >= 0, Lt(j, self.cap0), n, Not(st.ghost['occ_before'])), Eq(self.alive(ex, st, self.at(ex, st, j)), 1)),
                  '[C06,C08] only live objects are published')

    # ---------------------------------------------------------------- the state on entry
    def occA(self, v, j, ac):
        return And(j >= 0, Lt(j, v.cap), Or(self.occ(v, j), And(Eq(j, v.wp), ac == 1)))

    def store0(self, ex, i):
        x = self.base_store.select(ex, i)
        ex.axiom(Implies(self.occA(self.e0, i, self.ac0), And(Lt(0, x), Eq(self.slot_of(toint(x)), i))))
        return x

    def in0(self, ex, p):
        if self.future:
            k = self.rank(toint(p))
            return And(k >= 0, Eq(self.HV.select(ex, k), p))
        j = self.slot_of(toint(p))
        return And(self.occA(self.e0, j, self.ac0), Eq(self.store0(ex, j), p))

    def state0(self, ex, p):
        return If(self.in0(ex, p), 1, self.base_state.select(ex, p))

    def m0(self, ex, k, p):
        return Eq(toint(self.base_set[k].select(ex, p)), 1)

    def mem(self, ex, s, k, p):
        return Eq(toint(s.ghost['M_' + k].select(ex, p)), 1)

    def at(self, ex, s, j):
        return ex.arr_field(s, self.STORE, 0, 8).select(ex, j)

    def alive(self, ex, s, p):
        return ex.arr_field(s, self.OBJ, ALIVE, 8).select(ex, p)

    # ---------------------------------------------------------------- objects
    def obj(self, p):
        if isinstance(p, Ptr) and p.r is self.STORE:
            raise Unsupported('object at %r' % (p,))
        return super().obj(p)

    def state_of(self, ex, st, p):
        self.obj(p)
        if p.r is self.OBJ:
            ex.oblige(st, Ne(p.idx, 0), '[C06] no object at the null address')
            return self.alive(ex, st, p.idx)
        return super().state_of(ex, st, p)

    def set_obj(self, ex, st, i, a):
        st.cells(self.OBJ)[ALIVE] = (8, AStore(ex.arr_field(st, self.OBJ, ALIVE, 8), i, a))
        if st.log is not None:
            st.log.add(('arr', self.OBJ, ALIVE, 8))

    def set_state(self, ex, st, p, a):
        if p.r is self.OBJ:
            self.set_obj(ex, st, p.idx, a)
        else:
            super().set_state(ex, st, p, a)

    def begin_life(self, ex, st, p, v, loc):
        if p.r is not self.OBJ:
            return super().begin_life(ex, st, p, v, loc)
        ex.oblige(st, Eq(self.state_of(ex, st, p), 3), '[C06] an object is constructed only in storage that holds none', loc)
        ex.store(st, p, I64, v, loc)
        self.set_state(ex, st, p, 1)

    def on_new(self, ex, st, name, n, loc):
        if not isinstance(n, int) or n != self.C.SZ_ELEM:
            return None
        i = ex.fresh('obj', 8)
        ex.assume(st, And(Lt(0, i), Eq(self.alive(ex, st, i), 0)))
        self.set_obj(ex, st, i, 3)
        return Ptr(self.OBJ, i)

    def pool_free(self, ex, st, p, loc):
        ex.oblige(st, And(p.off == 0, Eq(self.alive(ex, st, p.idx), 3)), '[C06] storage is released once, and holds no object then', loc)
        self.set_obj(ex, st, p.idx, 0)
        return True

    # ---------------------------------------------------------------- contracts
    def contracts(self):
        rt = self
        E = self.elem

        def dtor(ex, st, a, loc):
            rt.value(ex, st, a[0], loc, 'destroyed is')
            rt.set_state(ex, st, a[0], 3 if a[0].r is rt.OBJ else 0)
        cs = [('^%s::~%s\\(\\)$' % (E, E), Call('destructor of the element class', dtor))] + super().contracts()

        def which(a):
            if not isinstance(a, Ptr) or a.r not in rt.sets_of:
                raise Unsupported('set %r' % (a,))
            return a.r, rt.sets_of[a.r]

        def key(ex, st, p, loc):
            v = ex.load(st, p, I64, loc)
            if isinstance(v, Ptr):
                if v.r is not None and (v.r is not rt.OBJ or v.off != 0):
                    ex.oblige(st, False, '[C06] addresses noted are those of element objects', loc)
                    return ex.fresh('foreign', 8)
                return v.idx
            if isinstance(v, Undef):
                raise Unsupported('undefined key')
            return toint(v)

        def find(ex, st, a, loc):
            r, k = which(a[0])
            return Ptr(rt.its[r], toint(rt.mem(ex, st, k, key(ex, st, a[1], loc))))

        def put(ex, st, k, p, b):
            rt.setg(st, 'M_' + k, AStore(st.ghost['M_' + k], p, b))

        def insert(ex, st, a, loc):
            r, k = which(a[0])
            p = key(ex, st, a[1], loc)
            new = Not(rt.mem(ex, st, k, p))
            put(ex, st, k, p, 1)
            return [Ptr(rt.its[r], 1), toint(new)]

        def erase(ex, st, a, loc):
            r, k = which(a[0])
            p = key(ex, st, a[1], loc)
            m = rt.mem(ex, st, k, p)
            put(ex, st, k, p, 0)
            return toint(m)

        def it(ex, st, p, loc):
            v = ex.load(st, p, symex.PTR, loc)
            if not isinstance(v, Ptr) or v.r not in rt.its.values():
                raise Unsupported('iterator')
            return v

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = it(ex, st, a[0], loc), it(ex, st, a[1], loc)
                if x.r is not y.r or not (y.idx == 0 if isinstance(y.idx, int) else x.idx == 0 if isinstance(x.idx, int) else False):
                    raise Unsupported('iterators are compared to the end only')
                r = Eq(x.idx, y.idx)
                return Not(r) if neg else r
            return f
        def Fn(name, f):
            def g(ex, st, a, loc):
                if isinstance(a[0], Ptr) and a[0].r is None:
                    ex.oblige(st, Ne(a[0].idx, 0), '[C06] a set of addresses is used only once the scheduler has given it', loc)
                    return []
                return f(ex, st, a, loc)
            return Call(name, g)
        CONT = '(%s|%s)' % (SET, MAP)
        S, M = 'std::set / std::map of addresses', 'std::map of addresses to release functions'
        cs += [('^' + CONT + r'find\(', Fn(S, find)),
               ('^' + CONT + r'c?end\(\)', Fn(S, lambda ex, st, a, loc: Ptr(rt.its[which(a[0])[0]], 0))),
               ('^' + CONT + r'(count|contains)\(', Fn(S, lambda ex, st, a, loc: toint(rt.mem(ex, st, which(a[0])[1], key(ex, st, a[1], loc))))),
               (r'(^|[ >])' + CONT + r'(insert|emplace)', Fn(S, insert)),
               ('^' + CONT + r'erase\(unsigned long const&\)', Fn(S, erase)),
               (r'^std::operator!=\(' + IT, Fn('std iterator', cmp(True))),
               (r'^std::operator==\(' + IT, Fn('std iterator', cmp(False)))]
        return cs

    # ---------------------------------------------------------------- hooks of the contracts
    def slotval(self, ex, st, STORE, i):
        return ex.arr_field(st, self.OBJ, 0, 8).select(ex, ex.arr_field(st, STORE, 0, 8).select(ex, i))

    def new_item(self, ex, st, name):
        x = ex.sym('obj_' + name)
        ex.assume(st, Lt(0, x))
        self.item = x
        if self.again:
            ex.assume(st, And(self.m0(ex, 'PEEK', x), self.m0(ex, 'OUT', x), Not(self.in0(ex, x))))
            return Ptr(self.OBJ, x), ex.arr_field(st, self.OBJ, 0, 8).select(ex, x)
        ex.assume(st, Eq(self.state0(ex, x), 1))
        # an object already handed on may still be in this stream; while its consumer runs: op_push_again
        out = self.m0(ex, 'OUT', x) if self.role == 'producer' and not self.env else False
        ex.assume(st, Or(Not(self.in0(ex, x)), out))
        return Ptr(self.OBJ, x), ex.arr_field(st, self.OBJ, 0, 8).select(ex, x)

    def item_val(self, ex, st, p):
        if p.r is self.OBJ:
            return ex.arr_field(st, self.OBJ, 0, 8).select(ex, p.idx)
        return super().item_val(ex, st, p)

    def is_slot(self, ex, s, p, i, name):
        ok = isinstance(p, Ptr) and p.r is self.OBJ and p.off == 0
        ex.oblige(s, Eq(p.idx, self.at(ex, s, i)) if ok else False, name)

    # ---------------------------------------------------------------- ownership
    def own(self, ex, s, consumed=None, ac=None):
        """what became of every object, against the state on entry: [(name, formula)]"""
        p = self.p
        v = self.view(ex, s)
        v0 = self.e0
        if ac is None:
            ac = self.rd(ex, s, self.this, self.C.OFF_ALLOCATE_CALLED, 1)
            ac = ac if isinstance(ac, int) else toint(ac)
        here = lambda j: And(j >= 0, Lt(j, v.cap), Or(self.occ(v, j), And(Eq(j, v.wp), Eq(ac, 1))))
        j0 = self.slot_of(p)
        was = self.in0(ex, p)
        st = self.alive(ex, s, p)
        out = []
        if self.role == 'producer':
            w = v0.wp
            new = And(self.ac0 == 0, Or(Ne(v.wp, w), Ne(v.ww, v0.ww), Eq(ac, 1)))
            nid = self.at(ex, s, w)
            x = getattr(self, 'item', None)
            handed = And(new, Eq(nid, x), self.m0(ex, 'PEEK', x), Not(self.m0(ex, 'OUT', x))) if x is not None else False
            taken = self.taken(ex, p, s) if self.env else False
            gone = And(was, Not(here(j0)))
            out.append(('a new element is an object of its own, or the one looked at, handed on once', Implies(new, Or(Eq(self.state0(ex, nid), 0), self.taken(ex, nid, s) if self.env else False, handed))))
            out.append(('objects withdrawn are released, all others left alone',
                        Eq(st, If(And(new, Eq(p, nid)), 1, If(taken, self.after.select(ex, p), If(gone, 0, self.state0(ex, p)))))))
            out.append(('objects handed on are noted, and only those', Eq(self.mem(ex, s, 'OUT', p), Or(self.m0(ex, 'OUT', p), And(handed, Eq(p, x)) if x is not None else False))))
            out.append(('the set of objects looked at is the consumer\'s', Eq(self.mem(ex, s, 'PEEK', p), self.m0(ex, 'PEEK', p))))
        else:
            gone = self.gone(ex, s, p, v)
            rec = consumed == 'recycle'
            noted = self.m0(ex, 'IN', p)
            out.append(('objects removed are released (or left to the clean-up), all others left alone',
                        Eq(st, If(gone, If(noted, 0, 1) if rec else 0, self.state0(ex, p)))))
            out.append(('recycled objects are left to the clean-up, and only those', Eq(self.mem(ex, s, 'IN', p), Or(noted, And(gone, rec)))))
            pk, pk0 = self.mem(ex, s, 'PEEK', p), self.m0(ex, 'PEEK', p)
            head = And(was, Eq(self.rank(p), 0) if self.future else Eq(j0, v0.rp))
            out.append(('only the oldest object is noted as looked at', Implies(pk, Or(pk0, head))))
            out.append(('an object is forgotten only when removed', Implies(And(pk0, Not(pk)), gone)))
            if self.attached:
                out.append(('the address of a released object is not kept as looked at', Implies(And(gone, Not(self.mem(ex, s, 'IN', p))), Not(pk))))
        return out

    def gone(self, ex, s, p, v):
        """object this call has removed (consumer)"""
        if self.future:
            return And(self.in0(ex, p), Lt(self.rank(toint(p)), s.ghost['own']))
        j = self.slot_of(toint(p))
        return And(self.in0(ex, p), Not(And(j >= 0, Lt(j, v.cap), self.occ(v, j))))

    def loop_header_axioms(self, ex, s, entry):
        v0 = self.e0
        v = self.view(ex, s)
        h = s.clone()

        def gone(p):
            return self.gone(ex, h, p, v)
        a = s.rcells(self.OBJ).get(ALIVE)
        if self.role == 'consumer':
            if a and isinstance(a[1], ABase) and a[1].name.startswith('ha_'):
                s.cells(self.OBJ)[ALIVE] = (8, AFun(lambda ex, p: If(gone(p), If(self.m0(ex, 'IN', p), 0, 1), self.state0(ex, p))))
            m = s.ghost.get('M_IN')
            if m is not entry.ghost.get('M_IN'):
                s.ghost['M_IN'] = AFun(lambda ex, p: toint(Or(self.m0(ex, 'IN', p), gone(p))))
        elif self.env and a and isinstance(a[1], ABase) and a[1].name.startswith('ha_'):
            s.cells(self.OBJ)[ALIVE] = (8, AFun(lambda ex, p, e=s.ghost['ext']: If(self.taken(ex, p, e), self.after.select(ex, p), self.state0(ex, p))))
        super(FifoItem, self).loop_header_axioms(ex, s, entry)

    def life(self, ex, s, j):
        return True

    def life_post(self, ex, s, v, tags, w, ac, allocated, peeked, consumed):
        for n, g in self.own(ex, s, consumed, ac):
            ex.oblige(s, g, '[C06] %s%s' % (w, n))
        j, k = ex.sym('j!any', None), ex.sym('k!any', None)
        here = lambda j: self.occA(v, j, ac)
        ex.oblige(s, Implies(here(j), And(Lt(0, self.at(ex, s, j)), Eq(self.alive(ex, s, self.at(ex, s, j)), 1))), '[C06] %severy element in the stream is a live object' % w)
        ex.oblige(s, Implies(And(here(j), here(k), Ne(j, k)), Ne(self.at(ex, s, j), self.at(ex, s, k))), '[C06] %sno object is in the stream twice' % w)
        if allocated is not None and ac == 1:
            ex.oblige(s, Eq(self.slotval(ex, s, v.STORE.r, v.wp), allocated), '[C05,C06] %sthe object is constructed with the arguments given' % w)


class FifoBigAlone(FifoBig):
    """not (yet) run by a scheduler: nothing is noted"""
    attached = False


def op_pop_alone(mod, kind):
    """pop on a stream no scheduler has given its sets"""
    return fifo_ops.op_pop(mod, kind, 'sig', cls=FifoBigAlone)


class FifoBigAgain(FifoBig):
    """the element pushed was handed on to another stream before, whose consumer is running"""
    again = True


def op_push_again(mod, kind):
    """push of an element already handed on to another stream: that stream's consumer may have destroyed it"""
    r = fifo_ops.Run(mod, kind, 'producer', cls=FifoBigAgain)
    f, ex = r.f, r.ex
    item, val = f.new_item(ex, r.st, 'item')
    sig = ex.sym('sig', 4)
    w = 'push of an element already handed on'
    for s, v in r.ret_only(r.call(r'^void FIFO::push<%s>\(%s const&,' % (r.E, r.E), [r.this(), item, sig]), w):
        f.post(ex, s, 'C01', pushed=[(val, sig)], wcount=1, flags={}, what=w)
    return r


def op_recycler(mod, kind):
    """the release function noted with a recycled object, run by the clean-up"""
    r = fifo_ops.Run(mod, kind, 'consumer')
    f, ex, p = r.f, r.ex, r.f.p
    import re
    fns = [n for n, d in mod.dem.items() if n in mod.funcs and re.search(r"RingBufferBase<%s, .*>::local_recycle\(unsigned long\)::'lambda.*'\(void\*\)::operator\(\)\(.*\) const$" % f.elem, d)]
    if not fns:
        raise Unsupported('release function')
    for n in fns:
        s = r.st.clone()
        ex.cur = mod.dem[n]
        x = ex.sym('recycled')
        ex.assume(s, And(Lt(0, x), Eq(f.alive(ex, s, x), 1)))
        a0 = ex.arr_field(s, f.OBJ, ALIVE, 8)
        lam = Region('closure', size=1)
        s.cells(lam)
        for s1, k, v in ex.run_function(mod.funcs[n], [Ptr(lam), Ptr(f.OBJ, x)], s):
            ex.oblige(s1, k == 'ret', '[C06] release function of a recycled object: returns')
            ex.oblige(s1, Eq(f.alive(ex, s1, p), If(Eq(p, x), 0, a0.select(ex, p))), '[C06] release function of a recycled object: destroys and releases exactly that object')
    return r


OPS = dict(pop_alone=op_pop_alone, recycler=op_recycler)
RG_OPS = dict(push_again=op_push_again)
