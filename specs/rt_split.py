"""C15: split and join kernels, distribution methods, helpers of parallel kernels (model: rt.py, rt_ports.py).

The elements a call takes are numbered el(0), el(1), ... in the order they are taken; ghost T counts the elements
taken off an input stream, P the elements placed on an output stream.  Streams are seen through the contracts proved
for heap streams (C01..C05): peek_range shows the next elements without taking them, recycle takes the first n shown,
push / send place one element with its signal, pop takes one.  A distribution method may choose any stream of the list
it is given, or none; roundrobin is verified against that and more (t_select)."""
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported)
from fifo import I64, I32, I8
from rt_ports import Ports, PRun, strlit, added, INFO
import rt_ports

SLOT = 24


class Flow(Ports):
    """a split (side 1: many outputs) or join (side 0: many inputs) kernel k with arbitrary ports"""
    plain_ghosts = {'SZ', 'SP', 'ANSZ', 'ANSP'}

    def __init__(self, mod, side, method='UMethod'):
        super().__init__(mod, side, linked=True)
        self.method = method
        self.exact = False          # el(j) given by `given` instead of the peeked store / the environment
        self.given = None

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.K.stride = 4096
        for o in {C.W_SPLIT_F, C.W_JOIN_F}:
            self.K.fields[o] = (8, ('ptr', None))
            st.cells(self.K)[o] = (8, AConst(self.vtable(self.method)))
        self.K.fields[C.W_NAMEIDX] = (8, 'int')
        g = st.ghost
        for n in ('SZ', 'SP'):
            g[n] = AConst(0)
        g['ANSZ'] = AConst(-1)        # last answers of size() / space_avail(), -1: not asked
        g['ANSP'] = AConst(-1)
        g['T'] = g['P'] = 0
        g['CHOSE'] = -1             # what the distribution method chose last (-1: not asked, 0: none)
        g['slot'] = g['live'] = 0      # memory for a result is allocated; an object lives in it
        self.cap = ex.sym('capacity')
        self.rp = ex.sym('readpos')
        ex.assume(st, And(Le(1, self.cap), Lt(self.cap, 1 << 32), Le(0, self.rp), Lt(self.rp, self.cap)))
        self.STORE = Region('store', kind='arr', stride=8, length=self.cap, fields={0: (8, 'int')}, meta={'autofields': False})
        self.SIG = Region('signals', kind='arr', stride=C.SZ_SIGNAL, length=self.cap, meta={'autofields': False},
                          fields={C.OFF_SIG_SIG: (C.SZ_SIG_SIG, 'int'), C.OFF_SIG_INDEX: (8, 'int')})
        self.SLOT = Region('slot', kind='obj', size=8)
        st.cells(self.STORE)
        st.cells(self.SIG)
        self.ev, self.es = ABase('EV', 8), ABase('ES', 4)
        self.meth = Region('method', size=8)
        st.cells(self.meth)[0] = (8, self.vtable(self.method))
        self.src = None             # split: its input stream
        self.in0 = st
        return st

    # ------------------------------------------------------------------ elements
    def at(self, j):
        return If(Lt(self.rp + j, self.cap), self.rp + j, self.rp + j - self.cap)

    def el(self, j):
        """value and signal of the j-th element taken"""
        ex, C = self.ex, self.C
        if self.given:
            return self.given
        if self.src is not None:
            i = self.at(j)
            return (ex.arr_field(self.in0, self.STORE, 0, 8).select(ex, i), ex.arr_field(self.in0, self.SIG, C.OFF_SIG_SIG, C.SZ_SIG_SIG).select(ex, i))
        return self.ev.select(ex, j), self.es.select(ex, j)

    def listed(self, f, m):
        """f is the stream of a port of container m"""
        out = m % 2 if not isz(m) else None
        nd = self.fOUTP(f) if self.outside else self.fINP(f)
        self.node_axioms(self.in0, nd)
        n = self.in0.ghost['N'].select(self.ex, m)
        return And(Eq(self.fOWN(nd), m), nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n, Eq(self.FA.select(self.ex, nd), f))

    outside = True              # the list of streams to choose from are output ports

    def put(self, ex, st, f, v, s, loc):
        """one element placed on stream f"""
        p = st.ghost['P']
        ev, es = self.el(p)
        ok = self.listed(f, self.outm) if self.dest is None else Eq(f, self.dest)
        ex.oblige(st, ok, '[C15] elements are placed on output streams only', loc)
        ex.oblige(st, self.there(st, p), '[C15] only elements that are there are placed', loc)
        ex.oblige(st, Eq(v, ev), '[C15] the elements placed are those taken, in order, with their value', loc)
        ex.oblige(st, Eq(s, es), '[C15] the elements placed are those taken, in order, with their signal', loc)
        self.setg(st, 'P', p + 1)

    def there(self, st, p):
        if self.given:
            return Eq(p, 0)
        if self.src is not None:
            return And(Le(st.ghost['T'], p), Lt(p, self.gsel(st, 'SZ', self.src)))
        return Lt(p, st.ghost['T'])

    dest = None                 # join: its output stream
    outm = None

    # ------------------------------------------------------------------ streams
    def fifo_contracts(self, add):
        rt, C = self, self.C

        def asked(nm, g):
            def f(ex, st, a, loc):
                v = ex.fresh(nm, 8)
                i = a[0].idx
                ex.assume(st, And(Le(rt.gsel(st, g, i), v), Lt(v, 1 << 32)))
                if rt.src is not None and g == 'SZ':
                    ex.assume(st, Implies(Eq(i, rt.src), Le(v, rt.cap)))
                rt.gput(st, g, i, v)
                rt.gput(st, 'AN' + g, i, v)
                return v
            return f
        add(r'^UFifo::size\(\)$', 'stream: size()', asked('size', 'SZ'))
        add(r'^UFifo::space_avail\(\)$', 'stream: space_avail()', asked('space', 'SP'))

        def capacity(ex, st, a, loc):
            c = ex.fresh("capacity", 8)
            return If(Eq(a[0].idx, rt.src), rt.cap, c) if rt.src is not None else c
        add(r'^UFifo::capacity\(\)$', 'stream: capacity()', capacity)
        add(r'^UFifo::is_invalid\(\)$', 'stream: is_invalid()', lambda ex, st, a, loc: ex.fresh('invalid', 1))

        def source(ex, st, f, what, loc):
            if rt.src is None:
                raise Unsupported(what)
            ex.oblige(st, Eq(f, rt.src), '[C15] elements are taken from the input stream only', loc)

        def peek_range(ex, st, a, loc):
            source(ex, st, a[0].idx, 'peek_range', loc)
            n, t = a[3], st.ghost['T']
            v = rt.gsel(st, 'SZ', rt.src)
            # waits until so many elements are there
            ex.assume(st, And(Le(t + n, rt.cap)))
            ex.store(st, a[1], PTR, Ptr(rt.STORE, 0, 0), loc)
            ex.store(st, a[2], PTR, Ptr(rt.SIG, 0, 0), loc)
            ex.store(st, a[4], I64, rt.at(t) if isz(t) or t else rt.rp, loc)
            rt.gput(st, 'SZ', rt.src, If(Lt(v, t + n), t + n, v))
            return None
        add(r'^UFifo::local_peek_range\(', 'stream: peek_range (C04)', peek_range)

        def recycle(ex, st, a, loc):
            source(ex, st, a[0].idx, 'recycle', loc)
            t = st.ghost['T']
            ex.oblige(st, Le(t + a[1], st.ghost['P']), '[C15] no element is taken off the input that was not placed on an output', loc)
            rt.setg(st, 'T', t + a[1])
            return None
        add(r'^UFifo::local_recycle\(', 'stream: recycle (C04)', recycle)
        add(r'^UFifo::unpeek\(\)$', 'stream: unpeek (C04)', lambda ex, st, a, loc: None)

        def peek(ex, st, a, loc):
            source(ex, st, a[0].idx, 'peek', loc)
            t = st.ghost['T']
            ex.assume(st, Lt(t, rt.cap))
            v = rt.gsel(st, 'SZ', rt.src)
            rt.gput(st, 'SZ', rt.src, If(Lt(v, t + 1), t + 1, v))
            ex.store(st, a[1], PTR, Ptr(rt.STORE, rt.at(t), 0), loc)
            if isinstance(a[2], Ptr) and a[2].r is not None:
                ex.store(st, a[2], I32, rt.el(t)[1], loc)
            return None
        add(r'^UFifo::local_peek\(', 'stream: peek (C04)', peek)

        def pop(ex, st, a, loc):
            i = a[0].idx
            if rt.src is not None:
                source(ex, st, i, 'pop', loc)
            else:
                ex.oblige(st, rt.listed(i, rt.inm), '[C15] elements are taken from input streams only', loc)
            t = st.ghost['T']
            v, s = rt.el(t)
            if isinstance(a[1], Ptr) and a[1].r is rt.SLOT:
                rt.alive(ex, st, loc)
            ex.store(st, a[1], I64, v, loc)
            if isinstance(a[2], Ptr) and a[2].r is not None:
                ex.store(st, a[2], I32, s, loc)
            rt.setg(st, 'T', t + 1)
            return None
        add(r'^UFifo::local_pop\(', 'stream: pop (C01)', pop)

        def push(ex, st, a, loc):
            rt.put(ex, st, a[0].idx, ex.load(st, a[1], I64, loc), ex.load(st, a[2], I32, loc), loc)
            return None
        add(r'^UFifo::local_push\(', 'stream: push (C01)', push)

        def allocate(ex, st, a, loc):
            if rt.dest is None:
                raise Unsupported('allocate')
            ex.oblige(st, Eq(a[0].idx, rt.dest), '[C15] memory for results comes from the output stream', loc)
            if not ex.entails(st, Eq(st.ghost['slot'], 1)):
                rt.setg(st, 'slot', 1)
                st.cells(rt.SLOT)[0] = (8, ex.fresh('stale', 8))
            ex.store(st, a[1], PTR, Ptr(rt.SLOT), loc)
            return None
        add(r'^UFifo::local_allocate\(', 'stream: allocate (C05)', allocate)

        def send(ex, st, a, loc):
            if rt.dest is None:
                raise Unsupported('send')
            ex.oblige(st, Eq(st.ghost['slot'], 1), '[C15] a result is sent only after memory for it was allocated', loc)
            rt.alive(ex, st, loc)
            rt.setg(st, 'slot', 0)
            rt.setg(st, 'live', 0)
            rt.put(ex, st, a[0].idx, ex.load(st, Ptr(rt.SLOT), I64, loc), a[1], loc)
            return None
        add(r'^UFifo::send\(', 'stream: send (C05)', send)

        def dealloc(ex, st, a, loc):
            rt.alive(ex, st, loc)       # deallocate destroys the object in it (C06)
            rt.setg(st, 'slot', 0)
            rt.setg(st, 'live', 0)
            return None
        add(r'^UFifo::deallocate\(', 'stream: deallocate (C05)', dealloc)

        def construct(ex, st, a, loc):
            if not isinstance(a[0], Ptr) or a[0].r is not rt.SLOT:
                raise Unsupported('an element constructed elsewhere')
            ex.oblige(st, And(Eq(st.ghost['slot'], 1), Eq(st.ghost['live'], 0)), '[C15] a result is constructed once, in memory allocated for it', loc)
            rt.setg(st, 'live', 1)
            ex.store(st, a[0], I64, ex.fresh('constructed', 8), loc)
        add(r'^CItem::CItem\(\)$', "the element's default constructor", construct)

    def alive(self, ex, st, loc):
        if self.classes:
            ex.oblige(st, Implies(Eq(st.ghost['slot'], 1), Eq(st.ghost['live'], 1)), '[C15] memory for a result that is handed on holds an object', loc)

    @property
    def classes(self):
        return 'W_CLASS_ELT' in self.C.__dict__

    def pre_contracts(self, add):
        rt = self

        def select(ex, st, a, loc):
            """an arbitrary distribution method: some stream of the list, or none"""
            f = ex.fresh('chosen')
            s2 = st.clone()
            m = rt.mapid(Ptr(a[1].r, a[1].idx, a[1].off + rt.C.P_MAP))
            nd = rt.node(st, m, ex.fresh('choice'))
            i = rt.fPOS(nd)
            rt.setg(st, 'CHOSE', f)
            rt.setg(s2, 'CHOSE', 0)
            ex.assume(st, And(Le(0, i), Lt(i, rt.N(st, m)), Eq(rt.fOWN(nd), m), nd > 0, Eq(rt.stream(st, nd), f), f > 0))
            return [(st, 'ret', Ptr(rt.FIFO, f, 0)), (s2, 'ret', NULL)]
        add(r'^UMethod::select_fifo\(', 'distribution method: some stream of the list or none', select)
        super().pre_contracts(add)


class FRun(PRun):
    HOOK = Flow

    def __init__(self, mod, side, method='UMethod'):
        self.mod = mod
        f = self.f = self.HOOK(mod, side, method)
        ex = self.ex = symex.Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)
        self.init_globals()

    def obl(self, s, g, name):
        self.ex.oblige(s, g, '[C15] ' + name)

    def stream_of(self, m, key):
        """stream of the port `key` of container m, which the kernel has"""
        f = self.f
        nd = f.lookup(self.st, m, strlit(key))
        self.ex.assume(self.st, And(Ne(nd, 0), f.stream(self.st, nd) > 0))
        return f.stream(self.st, nd)


def conserved(r, s, k, what):
    if k == 'exc':
        r.obl(s, False, what + ': throws nothing')
        return False
    r.obl(s, Eq(s.ghost['T'], s.ghost['P']), what + ': every element taken was placed, every element placed was taken')
    return True


def progress(r, s, what, n, moved):
    """an element waiting and a stream chosen for it: it is moved (n: what is known of how many wait)"""
    c = s.ghost['CHOSE']
    if r.f.method == 'UMethod':
        r.obl(s, Implies(n, Ne(c, -1)), what + ': asks the distribution method when an element waits')
        r.obl(s, Implies(And(n, Lt(0, c), Ne(r.f.gsel(s, 'ANSP' if r.f.outside else 'ANSZ', c), 0)), Lt(0, moved)), what + ': an element that waits is moved to the stream chosen')


def t_split(mod, method):
    r = FRun(mod, 1, method)
    f = r.f
    f.outm = 2 * f.k + 1
    f.src = r.stream_of(2 * f.k, '0')
    for s, k, v in r.call(r'^raft::split<(unsigned long|CItem), %s>::run\(\)$' % method, [Ptr(f.K, f.k, 0)]):
        if conserved(r, s, k, 'split'):
            progress(r, s, 'split', Ne(f.gsel(s, 'ANSZ', f.src), 0), s.ghost['P'])
            r.obl(s, Eq(v, f.C.V_PROCEED), 'split: asks to be run again')
            r.unchanged(s, 'split')
    return r


def t_join(mod, method):
    r = FRun(mod, 0, method)
    f = r.f
    f.outside = False
    f.inm = 2 * f.k
    f.dest = r.stream_of(2 * f.k + 1, '0')
    for s, k, v in r.call(r'^raft::join<(unsigned long|CItem), %s>::run\(\)$' % method, [Ptr(f.K, f.k, 0)]):
        if conserved(r, s, k, 'join'):
            progress(r, s, 'join', True, s.ghost['P'])
            r.obl(s, Eq(v, f.C.V_PROCEED), 'join: asks to be run again')
            r.obl(s, Eq(s.ghost['slot'], 0), 'join: no memory of the output stream is left allocated')
            r.unchanged(s, 'join')
    return r


def t_range(mod):
    """splitmethod::send of a range of n elements"""
    r = FRun(mod, 1)
    f, ex = r.f, r.ex
    f.outm = f.m
    f.src = ex.sym('input')
    n = ex.sym('n')
    ex.assume(r.st, And(f.src > 0, Le(0, n), Le(n, f.cap)))
    for s, k, v in r.call(r'^vf_range$', [Ptr(f.meth), Ptr(f.FIFO, f.src, 0), n, f.this()]):
        if k == 'exc':
            r.obl(s, False, 'send(range): throws nothing')
            continue
        p = s.ghost['P']
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            r.obl(s, Eq(toint(v), If(Lt(0, p), 1, 0)), 'send(range): tells whether elements were placed')
        else:
            r.obl(s, Eq(v, p), 'send(range): tells how many elements were placed')
        progress(r, s, 'send(range)', Lt(0, n), p)
        r.obl(s, Le(p, n), 'send(range): places no more than the range')
        r.obl(s, Eq(s.ghost['T'], 0), 'send(range): takes nothing off the input')
    return r


def t_send(mod):
    """splitmethod::send of a single element"""
    r = FRun(mod, 1)
    f, ex = r.f, r.ex
    f.outm = f.m
    v, sg = ex.sym('value'), ex.sym('signal')
    f.given = (v, sg)
    it = Region('item', size=8)
    r.st.cells(it)[0] = (8, v)
    for s, k, x in r.call(r'^vf_send$', [Ptr(f.meth), Ptr(it), sg, f.this()]):
        if k == 'exc':
            r.obl(s, False, 'send: throws nothing')
            continue
        progress(r, s, 'send', True, s.ghost['P'])
        r.obl(s, Eq(toint(x), s.ghost['P']), 'send: places the element exactly when it says so')
    return r


def t_get(mod):
    r = FRun(mod, 0)
    f, ex = r.f, r.ex
    f.outside = False
    f.inm = f.m
    it, sg = Region('item', size=8), Region('sig', size=4)
    r.st.cells(it)[0] = (8, ex.sym('old'))
    r.st.cells(sg)[0] = (4, ex.sym('oldsig', 4))
    for s, k, x in r.call(r'^vf_get$', [Ptr(f.meth), Ptr(it), Ptr(sg), f.this()]):
        if k == 'exc':
            r.obl(s, False, 'get: throws nothing')
            continue
        t = s.ghost['T']
        progress(r, s, 'get', True, t)
        r.obl(s, Eq(toint(x), t), 'get: takes one element exactly when it says so')
        ev, es = f.el(0)
        r.obl(s, Implies(Eq(t, 1), Eq(ex.load(s, Ptr(it), I64), ev)), 'get: hands over the value of the element taken')
        r.obl(s, Implies(Eq(t, 1), Eq(ex.load(s, Ptr(sg), I32), es)), 'get: hands over the signal of the element taken')
    return r


def t_select(mod, side):
    """roundrobin: chooses a stream of the list that can take / give an element"""
    r = FRun(mod, side, 'roundrobin')
    f, ex = r.f, r.ex
    f.outside = side == 1
    q = f.p
    an = 'ANSP' if side else 'ANSZ'
    f.portpreds = [('answered 0', lambda ex, s, e, nd, p: Eq(f.gsel(s, an, f.stream(s, nd)), 0))]
    for s, k, v in r.call(r'^roundrobin::select_fifo\(', [Ptr(f.meth), f.this(), f.C.W_SENDTYPE if side else f.C.W_GETTYPE]):
        if k == 'exc':
            r.obl(s, False, 'roundrobin: throws nothing')
            continue
        if v.r is None:
            r.obl(s, Implies(And(Le(0, q), Lt(q, f.n0)), Eq(f.gsel(s, an, f.stream(s, f.node(s, f.m, q))), 0)),
                  'roundrobin: chooses no stream only when none of them can %s an element' % ('take' if side else 'give'))
            continue
        i = v.idx
        r.obl(s, f.listed(i, f.m), 'roundrobin: chooses a stream of the list')
        r.obl(s, Lt(0, f.gsel(s, 'SP' if side else 'SZ', i)), 'roundrobin: chooses a stream that can %s an element' % ('take' if side else 'give'))
        r.unchanged(s, 'roundrobin')
    return r


def t_addto(mod, side):
    """parallel_k::addPortTo: a new port, named by the number it returns"""
    r = FRun(mod, side)
    f, ex = r.f, r.ex
    n = f.kfield(r.st, f.k, f.C.W_NAMEIDX)
    q = ex.sym('q!old', None)
    ex.assume(r.st, And(q > 0, Le(0, f.fPOS(q)), Lt(f.fPOS(q), f.N(r.st, f.fOWN(q))), Le(0, n), Lt(n, 1 << 62)))
    key = strlit('0') + n
    old = f.lookup(r.st, f.m, key)
    f.known = [q, old]
    for x in f.known:
        f.node_axioms(r.st, x)
    ex.assume(r.st, Eq(old, 0))
    for s, k, v in r.call(r'^vf_addto$', [Ptr(f.K, f.k, 0), f.this()]):
        if k == 'exc':
            r.obl(s, False, 'addPort: a port with a new number is accepted')
            continue
        r.obl(s, Eq(v, n), 'addPort: returns the number of the new port')
        r.obl(s, Eq(f.kfield(s, f.k, f.C.W_NAMEIDX), n + 1), 'addPort: the next port gets the next number')
        r.obl(s, Eq(f.N(s, f.m), f.n0 + 1), 'addPort: one port more')
        rt_ports.TAG = 'C15'
        try:
            added(r, s, key, q, 'addPort', [key], 1)
        finally:
            rt_ports.TAG = 'C13'
    return r


P = {'C15'}
TASKS = [('split.run', lambda m: t_split(m, 'UMethod'), P, 2), ('split.run.roundrobin', lambda m: t_split(m, 'roundrobin'), P, 2),
         ('join.run', lambda m: t_join(m, 'UMethod'), P, 2), ('join.run.roundrobin', lambda m: t_join(m, 'roundrobin'), P, 2),
         ('splitmethod.send_range', t_range, P, 1), ('splitmethod.send', t_send, P, 1), ('splitmethod.get', t_get, P, 1),
         ('roundrobin.select_send', lambda m: t_select(m, 1), P, 1), ('roundrobin.select_get', lambda m: t_select(m, 0), P, 1),
         ('parallel_k.addPortTo.in', lambda m: t_addto(m, 0), P, 1), ('parallel_k.addPortTo.out', lambda m: t_addto(m, 1), P, 1)]


# what handles elements, verified for elements of an arbitrary inline class as well
CLS_TASKS = [t for t in TASKS if t[0].split('.')[0] in ('split', 'join') or t[0] in ('splitmethod.send_range', 'splitmethod.get')]


# ---------------------------------------------------------------- construction
def fresh_contracts(rt, add):
    """the standard library's part of constructing a kernel"""
    import rt as R

    def empty(ex, st, a, loc):
        m = rt.mapid(a[0])
        rt.mapver = True
        rt.gput(st, 'N', m, 0)
        old = st.ghost['look']
        fst = z3.Function('FST', z3.IntSort(), z3.IntSort())
        from fifo import AFun
        rt.setg(st, 'look', AFun(lambda ex, i: If(Eq(fst(i if isz(i) else z3.IntVal(i)), m), 0, old.select(ex, i))))
        return None
    add(R.PMAP + r'::map\(\)$', 'std::map', empty)
    nop = lambda ex, st, a, loc: None
    add(r'^std::mutex::mutex\(\)$', 'std::mutex', nop)
    add(r'^std::queue<.*>::queue<.*>\(\)$', 'std::queue', nop)
    add(r'^std::queue<.*>::~queue\(\)$', 'std::queue', nop)


class Fresh(Flow):
    """memory of a kernel that is about to be constructed"""

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.K.meta['ignore'] = (0, C.K_INPUT, C.K_OUTPUT, C.K_INPUT + C.P_PORTMAP, C.K_OUTPUT + C.P_PORTMAP, C.W_SPLIT_F, C.W_JOIN_F)   # vtable pointers
        st.cells(self.K)[0] = (8, AConst(self.vtable('raft::%s<unsigned long, UMethod>' % ('split' if self.side else 'join'))))
        return st

    def pre_contracts(self, add):
        fresh_contracts(self, add)
        super().pre_contracts(add)


class CRun(FRun):
    HOOK = Fresh


def t_ctor(mod, cls, side):
    """a new split / join with n ports on its many side and one on the other"""
    r = CRun(mod, side)
    f, ex = r.f, r.ex
    n = ex.sym('num_ports')
    ex.assume(r.st, And(Le(0, n), Lt(n, 1 << 40)))
    one, many = 2 * f.k + 1 - side, 2 * f.k + side
    j = ex.sym('j!any', None)

    def cands(ex, fn, entry, hav, fr):
        idx = lambda s: f.kfield(s, f.k, f.C.W_NAMEIDX)
        C_ = lambda n, g: symex.Cand(n, lambda ex, s, e, fr, f0: g(s, fr, f0))
        out = [C_('ports declared so far', lambda s, *_: Eq(f.N(s, many), idx(s))), C_('ports of the single side', lambda s, *_: Eq(f.N(s, one), 1)),
               C_('port "0" of the single side', lambda s, *_: Ne(f.lookup(s, one, strlit('0')), 0)),
               C_('numbers so far are ports', lambda s, *_: Implies(And(Le(0, j), Lt(j, idx(s))), Ne(f.lookup(s, many, strlit('0') + j), 0))),
               symex.Cand('numbers from here on are free', lambda ex, s, e, fr, f0, t=None: Implies(Le(idx(s), j if t is None else t), Eq(f.lookup(s, many, strlit('0') + (j if t is None else t)), 0)),
                          instance=lambda ex, s, e, fr, f0: Implies(Le(idx(s), idx(s)), Eq(f.lookup(s, many, strlit('0') + idx(s)), 0)))]
        for key, old, new in hav:
            if key[0] == 'cell' and key[3] == 8 and not isinstance(old, Ptr):
                out.append(symex.Cand('%s counts the ports' % symex.kname(key), lambda ex, s, e, fr, f0, key=key: Eq(symex.cur(ex, s, key, fr), idx(s))))
        return out
    f.extra_cands = [cands]
    for s, k, v in r.call(r'^raft::%s<unsigned long, UMethod>::%s\(unsigned long\)$' % (cls, cls), [Ptr(f.K, f.k, 0), n]):
        if k == 'exc':
            r.obl(s, False, cls + ': construction throws nothing')
            continue
        r.obl(s, Eq(f.N(s, one), 1), cls + ': one port on its single side')
        r.obl(s, Ne(f.lookup(s, one, strlit('0')), 0), cls + ': the port on its single side is "0"')
        r.obl(s, Eq(f.N(s, many), n), cls + ': as many ports on its other side as asked for')
        r.obl(s, Implies(And(Le(0, j), Lt(j, n)), Ne(f.lookup(s, many, strlit('0') + j), 0)), cls + ': the ports on its other side are numbered from 0')
    return r


TASKS += [('split.ctor', lambda m: t_ctor(m, 'split', 1), P, 1), ('join.ctor', lambda m: t_ctor(m, 'join', 0), P, 1)]


def t_kernel(mod, inplace):
    """a new kernel: no ports; its port containers know it, and the buffer it was given"""
    r = CRun(mod, 0)
    f, ex, C = r.f, r.ex, r.f.C
    q = ex.sym('k!other', None)
    ex.assume(r.st, Ne(q, f.k))
    buf, n = (ex.sym('buf'), ex.sym('nbytes')) if inplace else (0, 0)
    args = [Ptr(f.BUF, buf, 0), n] if inplace else []
    for s, k, v in r.call(r'^raft::kernel::kernel\(%s\)$' % (r'void\*, unsigned long' if inplace else ''), [Ptr(f.K, f.k, 0)] + args):
        O = lambda g, nm: ex.oblige(s, g, '[C13,C15] a new kernel: ' + nm)
        if k == 'exc':
            O(False, 'construction throws nothing')
            continue
        for side, o in ((0, C.K_INPUT), (1, C.K_OUTPUT)):
            w = ('inputs', 'outputs')[side]
            O(Eq(f.N(s, 2 * f.k + side), 0), 'has no %s' % w)
            O(rt_ports.sameval(f.kfield(s, f.k, o + C.P_KERNEL), Ptr(f.K, f.k, 0)), 'its %s are its own' % w)
            a = f.kfield(s, f.k, o + C.P_ALLOC)
            O(rt_ports.sameval(a, Ptr(f.BUF, buf, 0) if inplace else NULL), 'its %s hold the buffer it was given, if any' % w)
            O(Eq(f.kfield(s, f.k, o + C.P_ALLOCLEN), n), "its %s hold the buffer's size" % w)
            O(Eq(f.N(s, 2 * q + side), f.N(r.st, 2 * q + side)), 'other kernels keep their ports')
        O(Eq(toint(f.kfield(s, f.k, C.K_DONE)), 0), 'has not finished')
    return r


TASKS += [('kernel.ctor', lambda m: t_kernel(m, False), {'C13', 'C15'}, 1), ('kernel.ctor_buffer', lambda m: t_kernel(m, True), {'C13', 'C15'}, 1)]
