"""Streams of class objects.

Item (stored inline): every slot has a value and a life state; the special members of the class are opaque functions
with the contracts any class may rely on: a constructor needs raw storage, everything else a live object, the
destructor leaves raw storage.  Invariant of the stream: exactly the slots of unread elements (and of an outstanding
allocation) hold live objects."""
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, Contract, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, Undef)
from fifo import Fifo, AFun, I64, View

ALIVE = 8      # offset of the (ghost) life state in an object; its value is the field at 0


class Fn(Contract):
    trusted = True

    def __init__(self, name, f):
        self.name, self.f = name, f

    def apply(self, ex, st, args, loc):
        r = self.f(ex, st, args, loc)
        if isinstance(r, list) and r and isinstance(r[0], tuple):
            return r
        return [(st, 'ret', r)]


class FifoItem(Fifo):
    elem = 'Item'

    def mkstore(self, ex, st, cap):
        self.STORE = Region('store', kind='arr', stride=self.C.SZ_SLOT, length=cap, fields={0: (8, 'int'), ALIVE: (8, 'int')},
                            meta={'autofields': False, 'heap': True})
        self.STORE.shared = True
        st.cells(self.STORE)

    def mkelems(self, ex, st):
        v0 = self._v0
        raw = self._v0

        def alive(ex, i):
            return toint(Or(self.occ(raw, i), And(Eq(i, raw.wp), self.ac0 == 1)))
        st.cells(self.STORE)[ALIVE] = (8, AFun(alive))
        self.inv.append(('live objects are exactly those in the stream', lambda ex, s: self.life(ex, s, ex.sym('j!any', None))))

    def life(self, ex, s, j):
        v = self.view(ex, s)
        ac = self.rd(ex, s, self.this, self.C.OFF_ALLOCATE_CALLED, 1)
        return Implies(And(j >= 0, Lt(j, v.cap)), Eq(self.slot_alive(ex, s, j), toint(Or(self.occ(v, j), And(Eq(j, v.wp), Eq(ac, 1))))))

    def slot_alive(self, ex, s, j):
        return ex.arr_field(s, self.STORE, ALIVE, 8).select(ex, j)

    def loop_header_axioms(self, ex, s, entry):
        a = s.rcells(self.STORE).get(ALIVE)
        if a and isinstance(a[1], ABase) and a[1].name.startswith('ha_'):
            v = self.view(ex, s)
            ac = self.rd(ex, s, self.this, self.C.OFF_ALLOCATE_CALLED, 1)
            s.cells(self.STORE)[ALIVE] = (8, AFun(lambda ex, i: toint(Or(self.occ(v, i), And(Eq(i, v.wp), Eq(ac, 1))))))
        super().loop_header_axioms(ex, s, entry)

    # ------------------------------------------------------------------ RG mode
    def env_life(self, ex, st, v, nc, nl):
        """the consumer leaves raw storage behind, the producer live objects"""
        prod = self.role == 'producer'
        w = View()
        w.__dict__.update(v.__dict__)
        if prod:
            w.rp, w.wr = nc, nl
        else:
            w.wp, w.ww = nc, nl
        a = ex.arr_field(st, self.STORE, ALIVE, 8)

        def f(ex, i):
            o, n = self.occ(v, i), self.occ(w, i)
            return If(And(o, Not(n)), 0, a.select(ex, i)) if prod else If(And(n, Not(o)), 1, a.select(ex, i))
        st.cells(self.STORE)[ALIVE] = (8, AFun(f))
        if st.log is not None:
            st.log.add(('arr', self.STORE, ALIVE, 8))

    def moved(self, ex, st, before):
        if before:
            j = ex.sym('j!any', None)
            st.ghost['occ_before'] = self.occ_eff(ex, st)(j)
            return
        j = ex.sym('j!any', None)
        o, n = st.ghost['occ_before'], self.occ_eff(ex, st)(j)
        here = And(j >= 0, Lt(j, self.cap0))
        al = self.slot_alive(ex, st, j)
        if self.role == 'producer':
            ex.oblige(st, Implies(And(here, n, Not(o)), Eq(al, 1)), '[C06,C08] only live objects are published')
        else:
            ex.oblige(st, Implies(And(here, o, Not(n)), Eq(al, 0)), '[C06,C08] slots given back hold no object')

    # ------------------------------------------------------------------ objects
    def obj(self, p):
        if not isinstance(p, Ptr) or p.r is None or p.off != p.r.meta.get('objoff', 0):
            raise Unsupported('object at %r' % (p,))
        return p

    def state_of(self, ex, st, p):
        self.obj(p)
        if p.r is self.STORE:
            ex.oblige(st, And(Le(0, p.idx), Lt(p.idx, self.view(ex, st).cap)), '[C01,C06] element storage is accessed inside its bounds')
            return self.slot_alive(ex, st, p.idx)
        if p.r.kind == 'arr':
            ex.oblige(st, And(Le(0, p.idx), Lt(p.idx, p.r.length)), '[C01,C06] element accessed inside the bounds of its container')
            return ex.arr_field(st, p.r, p.off + ALIVE, 8).select(ex, p.idx)
        c = st.rcells(p.r).get(ALIVE)
        return c[1] if c else 0

    def set_state(self, ex, st, p, a):
        if p.r is self.STORE:
            c = st.cells(self.STORE)
            c[ALIVE] = (8, AStore(ex.arr_field(st, self.STORE, ALIVE, 8), p.idx, a))
            if st.log is not None:
                st.log.add(('arr', self.STORE, ALIVE, 8))
        elif p.r.kind == 'arr':
            o = p.off + ALIVE
            st.cells(p.r)[o] = (8, AStore(ex.arr_field(st, p.r, o, 8), p.idx, a))
            if st.log is not None:
                st.log.add(('arr', p.r, o, 8))
        else:
            st.cells(p.r)[ALIVE] = (8, a)
            if st.log is not None:
                st.log.add(('cell', p.r, ALIVE, 8))

    def begin_life(self, ex, st, p, v, loc):
        ex.oblige(st, Eq(self.state_of(ex, st, p), 0), '[C06] an object is constructed only in storage that holds none', loc)
        ex.store(st, p, I64, v, loc)
        self.set_state(ex, st, p, 1)

    def value(self, ex, st, p, loc, what):
        ex.oblige(st, Eq(self.state_of(ex, st, p), 1), '[C06] %s a live object' % what, loc)
        return ex.load(st, p, I64, loc)

    def contracts(self):
        rt = self

        def ctor(ex, st, a, loc):
            rt.begin_life(ex, st, a[0], a[1], loc)

        def copy(ex, st, a, loc):
            rt.begin_life(ex, st, a[0], rt.value(ex, st, a[1], loc, 'copied is'), loc)

        def assign(ex, st, a, loc):
            v = rt.value(ex, st, a[1], loc, 'assigned from is')
            ex.oblige(st, Eq(rt.state_of(ex, st, a[0]), 1), '[C06] assigned to is a live object', loc)
            ex.store(st, a[0], I64, v, loc)
            return a[0]

        def dtor(ex, st, a, loc):
            rt.value(ex, st, a[0], loc, 'destroyed is')
            rt.set_state(ex, st, a[0], 0)
        E = self.elem
        return [('^%s::%s\\(unsigned long\\)$' % (E, E), Fn('constructor of the element class', ctor)),
                ('^%s::%s\\(%s const&\\)$' % (E, E, E), Fn('copy constructor of the element class', copy)),
                ('^%s::operator=\\(%s const&\\)$' % (E, E), Fn('copy assignment of the element class', assign)),
                ('^%s::~%s\\(\\)$' % (E, E), Fn('destructor of the element class', dtor))]

    # ------------------------------------------------------------------ hooks of the contracts
    def slotval(self, ex, st, STORE, i):
        return ex.arr_field(st, STORE, 0, 8).select(ex, i)

    def new_item(self, ex, st, name):
        p, v = super().new_item(ex, st, name)
        st.cells(p.r)[ALIVE] = (8, 1)
        return p, v

    def ctor_args(self, ex, st):
        r = Region('ctorarg', size=8)
        v = ex.sym('ctorval')
        st.cells(r)[0] = (8, v)
        return [Ptr(r)], v

    def item_kept(self, ex, s, p, val, w):
        super().item_kept(ex, s, p, val, w)
        self.item_alive(ex, s, p, w)

    def item_alive(self, ex, s, p, w):
        ex.oblige(s, Eq(self.state_of(ex, s, p), 1), '[C06] %s: the caller\'s object stays alive' % w)

    def life_post(self, ex, s, v, tags, w, ac, allocated, peeked, consumed):
        j = ex.sym('j!any', None)
        ex.oblige(s, Implies(And(j >= 0, Lt(j, v.cap)), Eq(self.slot_alive(ex, s, j), toint(Or(self.occ(v, j), And(Eq(j, v.wp), ac == 1))))),
                  '[C06] %sthe objects alive are exactly those of unread elements and of an outstanding allocation' % w)
        if allocated is not None and ac == 1:
            ex.oblige(s, Eq(self.slotval(ex, s, v.STORE.r, v.wp), allocated), '[C05,C06] %sthe object is constructed with the arguments given' % w)

