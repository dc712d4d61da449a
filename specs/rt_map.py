"""C14: linking, topology expressions, start-up checks and stream allocation (model: rt.py, rt_ports.py)."""
import re
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, State, ABase, AConst, AStore, Contract, Exec,
                   And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, FnVal)
from fifo import I64, I32, I8, AFun
from fifo_ops import find
from rt import RT, C_, strlit, STR
from rt_ops import present
from rt_ports import Ports, PRun, INFO, sameval, exc_is

KS = r'std::set<raft::kernel\*, [^>]*>, [^>]*>>::'
RV = r'std::vector<std::reference_wrapper<raft::kernel>, .*>>::'
Q = r'std::queue<std::__cxx11::basic_string<.*::'
SETS = ('SRC', 'DST', 'ALL', 'INT')
UPDATE = r'^void MapBase::updateKernels<raft::kernel\*, raft::kernel\*>\('
JOIN = r'^MapBase::join\(raft::kernel&'
ADD = r'^keeper<std::set<raft::kernel\*.*::operator\+=\(raft::kernel\*\)$'


class Map(Ports):
    """a map under construction: kernel ka with output ports, kernel kb with input ports (possibly the same)"""

    def __init__(self, mod, uses=()):
        super().__init__(mod, 1)
        self.uses = set(uses)

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.ka, self.kb = self.k, ex.sym('kb')
        ex.assume(st, self.kb > 0)
        self.ma, self.mb = 2 * self.ka + 1, 2 * self.kb
        g = st.ghost
        self.map = Region('map', size=C.M_SIZE)
        self.inited = Region('map fields', size=8)
        for n in SETS:
            g['mem_' + n] = ABase('MEM_' + n, 1)
            g['held_' + n] = 0
        g['vecs'] = {}
        for n in ('EQN', 'EQ0', 'EQ1'):
            g[n] = ABase(n, 8)
        for kk in (self.ka, self.kb):
            ex.assume(st, And(Le(0, g['EQN'].select(ex, kk)), Le(g['EQN'].select(ex, kk), 2)))
        # memory of this map object that is not one of the kernel lists is never looked into
        return st

    def node_axioms(self, st, nd):
        """what addPort establishes: a port knows its own name and its own kernel (C13)"""
        super().node_axioms(st, nd)
        ex = self.ex
        if isz(nd) and ('own', nd.get_id()) not in ex._axseen:
            ex._axseen.add(('own', nd.get_id()))
            n = self.st0.ghost['N'].select(ex, self.fOWN(nd))
            real = z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n)
            my = self.info(self.st0, nd, 'MYNAME')
            mk = self.info(self.st0, nd, 'MYKERNEL')
            mk = mk.idx if isinstance(mk, Ptr) else mk
            ex.axiom(z3.Implies(real, z3.And(my == self.key(self.st0, nd), mk * 2 + self.fOWN(nd) % 2 == self.fOWN(nd))))

    def keeper_at(self, p, off):
        if isinstance(p, Ptr) and p.r is self.map:
            for n in SETS:
                if p.off == getattr(self.C, 'M_' + n) + off:
                    return n
        return None

    def put_member(self, st, n, k):
        self.gput(st, 'mem_' + n, k, 1)

    def kptr(self, v):
        if not isinstance(v, Ptr) or v.r is not self.K or v.off != 0:
            raise Unsupported('kernel pointer %r' % (v,))
        return v.idx

    def pre_contracts(self, add):
        super().pre_contracts(add)
        rt = self
        nop = lambda ex, st, a, loc: None

        def keeper(a, off):
            n = rt.keeper_at(a, off)
            if n is None:
                raise Unsupported('kernel list %r' % (a,))
            return n

        def try_lock(ex, st, a, loc):
            n = rt.keeper_at(a[0], rt.C.KP_MUTEX)
            if n is None:
                return rt.other_lock(ex, st, a[0], loc)
            out = []
            for got in (1, 0):
                s = st.clone()
                if got:
                    ex.oblige(s, Eq(s.ghost['held_' + n], 0), '[C14] the lock of a kernel list is not taken twice', loc)
                    rt.setg(s, 'held_' + n, 1)
                out.append((s, 'ret', got))
            return out

        def lock(ex, st, a, loc):
            return [(s, k, None) for s, k, v in try_lock(ex, st, a, loc) if v == 1]

        def unlock(ex, st, a, loc):
            n = rt.keeper_at(a[0], rt.C.KP_MUTEX)
            if n is None:
                return rt.other_unlock(ex, st, a[0], loc)
            ex.oblige(st, Eq(st.ghost['held_' + n], 1), '[C14] only a held lock is released', loc)
            rt.setg(st, 'held_' + n, 0)
            return None
        add(r'^std::mutex::try_lock\(\)$', 'std::mutex', try_lock)
        add(r'^std::mutex::lock\(\)$', 'std::mutex', lock)
        add(r'^std::mutex::unlock\(\)$', 'std::mutex', unlock)
        add(r'^raft::yield\(|std::this_thread::yield', 'waiting', nop)

        def emplace(ex, st, a, loc):
            n = keeper(a[0], rt.C.KP_SET)
            ex.oblige(st, Eq(st.ghost['held_' + n], 1), '[C14] a kernel list is changed only with its lock held', loc)
            rt.put_member(st, n, rt.kptr(ex.load(st, a[1], PTR, loc)))
            return [UNDEF, ex.fresh('ins', 1)]
        add(r'(^| )' + KS + r'(emplace|insert)', 'std::set', emplace)
        if 'add' in self.uses and present(self.mod, ADD):
            def kadd(ex, st, a, loc):
                n = keeper(a[0], 0)
                ex.oblige(st, Eq(st.ghost['held_' + n], 0), '[C14] the lock of a kernel list is not taken twice', loc)
                rt.put_member(st, n, rt.kptr(a[1]))
                return None
            add(ADD, 'kernelkeeper +=', kadd, False)

        # vectors of kernel references (concrete length)
        def vec(st, p):
            return st.ghost['vecs'].get((p.r, p.off), None)

        def setvec(st, p, v):
            d = dict(st.ghost['vecs'])
            d[(p.r, p.off)] = v
            rt.setg(st, 'vecs', d)

        def vctor(ex, st, a, loc):
            setvec(st, a[0], ())
            return None

        def vcopy(ex, st, a, loc):
            setvec(st, a[0], vec(st, a[1]))
            return a[0]

        def vback(ex, st, a, loc):
            v = vec(st, a[0])
            if v is None:
                raise Unsupported('vector')
            x = a[1]
            if isinstance(x, Ptr) and x.r is not rt.K:      # reference_wrapper&
                x = ex.load(st, x, PTR, loc)
            setvec(st, a[0], v + (rt.kptr(x),))
            return UNDEF

        def vsize(ex, st, a, loc):
            return len(vec(st, a[0]))
        add('^' + RV + r'vector\(\)', 'std::vector', vctor)
        add('^' + RV + r'vector\(std::vector<', 'std::vector', vcopy)
        add('^' + RV + r'operator=\(', 'std::vector', vcopy)
        add('^' + RV + r'reserve\(', 'std::vector', nop)
        add('^' + RV + r'~vector\(', 'std::vector', nop)
        add('^' + RV + r'clear\(', 'std::vector', vctor)
        add('^' + RV + r'size\(', 'std::vector', vsize)
        add('(^| )' + RV + r'(emplace|push)_back', 'std::vector', vback)

        # queue of names given with k["x"]["y"]
        def qk(a):
            if not isinstance(a, Ptr) or a.r is not rt.K or a.off != rt.C.K_ENABLED:
                raise Unsupported('queue %r' % (a,))
            return a.idx
        add('^' + Q + r'size\(\)', 'std::queue', lambda ex, st, a, loc: rt.gsel(st, 'EQN', qk(a[0])))
        add('^' + Q + r'empty\(\)', 'std::queue', lambda ex, st, a, loc: Eq(rt.gsel(st, 'EQN', qk(a[0])), 0))

        def qref(ex, st, k, at):
            r = Region('queued name', size=32)
            v = If(Eq(at, 0), rt.gsel(st, 'EQ0', k), rt.gsel(st, 'EQ1', k))
            st.cells(r)[0] = (8, v)
            return Ptr(r)

        def front(ex, st, a, loc):
            k = qk(a[0])
            ex.oblige(st, Lt(0, rt.gsel(st, 'EQN', k)), 'mem:front of an empty queue', loc, 'mem')
            return qref(ex, st, k, 0)

        def back(ex, st, a, loc):
            k = qk(a[0])
            ex.oblige(st, Lt(0, rt.gsel(st, 'EQN', k)), 'mem:back of an empty queue', loc, 'mem')
            return qref(ex, st, k, rt.gsel(st, 'EQN', k) - 1)

        def pop(ex, st, a, loc):
            k = qk(a[0])
            n = rt.gsel(st, 'EQN', k)
            ex.oblige(st, Lt(0, n), 'mem:pop of an empty queue', loc, 'mem')
            rt.gput(st, 'EQN', k, n - 1)
            rt.gput(st, 'EQ0', k, rt.gsel(st, 'EQ1', k))
            return None

        def push(ex, st, a, loc):
            k = qk(a[0])
            n = rt.gsel(st, 'EQN', k)
            v = ex.load(st, a[1], I64, loc)
            ex.oblige(st, Lt(n, 2), '[C14] a kernel is given at most two port names before it is used', loc)
            rt.gput(st, 'EQ0', k, If(Eq(n, 0), v, rt.gsel(st, 'EQ0', k)))
            rt.gput(st, 'EQ1', k, If(Eq(n, 0), rt.gsel(st, 'EQ1', k), v))
            rt.gput(st, 'EQN', k, n + 1)
            return None
        add('(^| )' + Q + r'front\(\)', 'std::queue', front)
        add('(^| )' + Q + r'back\(\)', 'std::queue', back)
        add('(^| )' + Q + r'pop\(\)', 'std::queue', pop)
        add('(^| )' + Q + r'(push\(|emplace)', 'std::queue', push)
        if 'ports' in self.uses:
            self.port_lookups(add)
        if 'update' in self.uses and present(self.mod, UPDATE):
            def update(ex, st, a, loc):
                a_, b_ = [rt.kptr(ex.load(st, x, PTR, loc)) for x in a[1:3]]
                q = lambda n, c, k: rt.gput(st, 'mem_' + n, k, If(c, 1, rt.gsel(st, 'mem_' + n, k)))
                for n in SETS:
                    ex.oblige(st, Eq(st.ghost['held_' + n], 0), '[C14] the lock of a kernel list is not taken twice', loc)
                q('SRC', Eq(rt.N(st, 2 * a_), 0), a_)
                q('DST', Eq(rt.N(st, 2 * b_ + 1), 0), b_)
                for k in (a_, b_):
                    q('ALL', True, k)
                    q('INT', Ne(toint(rt.kfield(st, k, rt.C.K_INTERNAL)), 0), k)
                return None
            add(UPDATE, 'MapBase::updateKernels', update, False)
        if 'join' in self.uses and present(self.mod, JOIN):
            add(JOIN, 'MapBase::join', self.join_contract, False)

    def raises(self, s, ti, loc):
        t = self.ti(ti).r.meta['global']
        e = Region('exception', size=64)
        s.cells(e)[0] = (8, self.vtable(self.mod.dem[t].replace('typeinfo for ', '')))
        return (s, 'exc', {'type': t, 'ptr': Ptr(e), 'loc': loc})

    def port_lookups(self, add):
        '''the C13 contracts of getPortInfo and getPortInfoFor'''
        rt = self

        def container(p):
            C = rt.C
            if isinstance(p, Ptr) and p.r is rt.K and p.off in (C.K_INPUT, C.K_OUTPUT):
                return 2 * p.idx + (1 if p.off == C.K_OUTPUT else 0)
            raise Unsupported('port container %r' % (p,))

        def single(ex, st, a, loc):
            m = container(a[0])
            n, out = rt.N(st, m), []
            ex.axiom(z3.simplify(n >= 0))
            for c, ti in ((Eq(n, 1), None), (Eq(n, 0), 'TI_PNF'), (Lt(1, n), 'TI_AMB')):
                if ex.feasible(st, c):
                    s = st.clone()
                    ex.assume(s, c)
                    out.append(rt.raises(s, ti, loc) if ti else (s, 'ret', Ptr(rt.NODES, rt.node(s, m, 0), rt.C.N_INFO)))
            return out

        def named(ex, st, a, loc):
            m = container(a[0])
            r, out = rt.lookup(st, m, ex.load(st, a[1], I64, loc)), []
            for s, c, x in rt.split(ex, st, Eq(r, 0)):
                out.append(rt.raises(s, 'TI_PNF', loc) if x else (s, 'ret', Ptr(rt.NODES, r, rt.C.N_INFO)))
            return out
        for rx, f in ((r'^Port::getPortInfo\(\)$', single), (r'^Port::getPortInfoFor\(', named)):
            if present(self.mod, rx):
                add(rx, 'Port::getPortInfo', f, False)
        if present(self.mod, r'^Port::hasPorts\(\)$'):
            add(r'^Port::hasPorts\(\)$', 'Port::hasPorts', lambda ex, st, a, loc: If(Lt(0, rt.N(st, container(a[0]))), 1, 0), False)
        if present(self.mod, r'^Port::count\(\)$'):
            add(r'^Port::count\(\)$', 'Port::count', lambda ex, st, a, loc: rt.N(st, container(a[0])), False)

    def join_contract(self, ex, st, a, loc):
        '''proved by map.join'''
        ka, kb = self.kptr(a[0]), self.kptr(a[3])
        pa, pb = ex.load(st, a[1], I64, loc), ex.load(st, a[4], I64, loc)
        na, nb = a[2].idx, a[5].idx
        C = self.C
        for p in (a[2], a[5]):
            if p.r is not self.NODES or p.off != C.N_INFO:
                raise Unsupported('join of %r' % (p,))
        ex.oblige(st, And(Eq(self.fOWN(na), 2 * ka + 1), Eq(self.fOWN(nb), 2 * kb), na > 0, nb > 0), '[C14] an output port of the first kernel is joined to an input port of the second', loc)
        ex.oblige(st, And(Eq(pa, self.key(st, na)), Eq(pb, self.key(st, nb))), '[C14] a port is joined under its own name', loc)
        other = lambda n: (lambda v: v.idx if isinstance(v, Ptr) else v)(self.info(st, n, 'OTHERKERNEL'))
        same = Eq(self.info(st, na, 'TYPE'), self.info(st, nb, 'TYPE'))
        free = And(Eq(other(na), 0), Eq(other(nb), 0))
        out = []
        for c, ti in ((And(same, free), None), (Not(same), 'TI_TYPE'), (And(same, Not(free)), 'TI_DBL')):
            if not ex.feasible(st, c):
                continue
            s = st.clone()
            ex.assume(s, c)
            if ti:
                out.append(self.raises(s, ti, loc))
                continue
            for n, k, nm in ((na, kb, pb), (nb, ka, pa)):
                ex.store(s, Ptr(self.NODES, n, C.N_INFO + C.I_OTHERKERNEL), PTR, Ptr(self.K, k, 0), loc)
                ex.store(s, Ptr(self.NODES, n, C.N_INFO + C.I_OTHERNAME), I64, nm, loc)
            out.append((s, 'ret', None))
        return out

    def other_lock(self, ex, st, p, loc):
        """lock of a port container"""
        if not isinstance(p, Ptr) or p.r is not self.K:
            raise Unsupported('mutex %r' % (p,))
        return [(st.clone(), 'ret', 1), (st.clone(), 'ret', 0)]

    def other_unlock(self, ex, st, p, loc):
        return None


# what decides who destroys a kernel or a stream
OWNERSHIP = ('the stream is freed with the allocator', 'exactly the right kernels join the map (int)', 'takes over the kernel it was given by value')


class MRun(PRun):
    def __init__(self, mod, uses=('add',), cls=Map):
        self.mod = mod
        f = self.f = cls(mod, uses)
        ex = self.ex = Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)
        self.init_globals()

    def obl(self, s, g, name):
        self.ex.oblige(s, g, ('[C14,C19] ' if name.endswith(OWNERSHIP) else '[C14] ') + name)

    def port_a(self, key):
        return self.f.lookup(self.st, self.f.ma, key)

    def linked(self, s, na, nb, name_a, name_b, what):
        """na -> nb, nothing else changed"""
        f = self.f
        O = lambda g, n: self.obl(s, g, '%s: %s' % (what, n))
        O(sameval(f.info(s, na, 'OTHERKERNEL'), Ptr(f.K, f.kb, 0)), 'the output port knows the kernel it feeds')
        O(sameval(f.info(s, nb, 'OTHERKERNEL'), Ptr(f.K, f.ka, 0)), 'the input port knows the kernel that feeds it')
        O(Eq(f.info(s, na, 'OTHERNAME'), name_b), 'the output port knows the port it feeds')
        O(Eq(f.info(s, nb, 'OTHERNAME'), name_a), 'the input port knows the port that feeds it')

    def others_same(self, s, na, nb, may, what):
        """fields other than `may` of na, nb and every field of every other port are as before"""
        f = self.f
        q = self.ex.sym('q!any', None)
        for n in INFO:
            c = sameval(f.info(self.st, q, n), f.info(s, q, n))
            if n in may:
                c = Implies(And(Ne(q, na), Ne(q, nb)), c)
            self.obl(s, c, '%s: nothing else changes (%s)' % (what, n.lower()))
        m = self.ex.sym('m!any', None)
        self.obl(s, Eq(f.N(s, m), f.N(self.st, m)), '%s: adds and removes no port' % what)

    def members(self, s, exp, what):
        """exp: set name -> (cond, kernel) list that joins the set"""
        f = self.f
        q = self.ex.sym('k!any', None)
        for n in SETS:
            b, a = f.gsel(self.st, 'mem_' + n, q), f.gsel(s, 'mem_' + n, q)
            want = Or(Ne(toint(b), 0), *[And(c, Eq(q, k)) for c, k in exp.get(n, [])])
            self.obl(s, Eq(Ne(toint(a), 0), want), '%s: exactly the right kernels join the map (%s)' % (what, n.lower()))
            self.obl(s, Eq(s.ghost['held_' + n], 0), '%s: no lock is left taken' % what)


def ports2(r):
    """two arbitrary existing ports: na of ka's output, nb of kb's input"""
    f, ex = r.f, r.ex
    i, j = ex.sym('i'), ex.sym('j')
    ex.assume(r.st, And(Le(0, i), Lt(i, f.N(r.st, f.ma)), Le(0, j), Lt(j, f.N(r.st, f.mb))))
    return f.node(r.st, f.ma, i), f.node(r.st, f.mb, j)


def t_join(mod):
    r = MRun(mod)
    f, ex = r.f, r.ex
    na, nb = ports2(r)
    pa, pb = f.key(r.st, na), f.key(r.st, nb)
    C = f.C
    args = [Ptr(f.K, f.ka, 0), f.string(r.st, pa, 'name_a'), Ptr(f.NODES, na, C.N_INFO), Ptr(f.K, f.kb, 0), f.string(r.st, pb, 'name_b'), Ptr(f.NODES, nb, C.N_INFO)]
    idx = lambda s, n: (lambda v: v.idx if isinstance(v, Ptr) else v)(f.info(s, n, 'OTHERKERNEL'))
    same = Eq(f.info(r.st, na, 'TYPE'), f.info(r.st, nb, 'TYPE'))
    free = And(Eq(idx(r.st, na), 0), Eq(idx(r.st, nb), 0))
    for s, k, v in r.call(JOIN, args):
        if k == 'exc':
            r.obl(s, Implies(Not(same), exc_is(f, v, 'TI_TYPE')), 'join: ports of different element types are refused with PortTypeMismatchException')
            r.obl(s, Implies(same, exc_is(f, v, 'TI_DBL')), 'join: a port that is already connected is refused with PortDoubleInitializeException')
            r.obl(s, Not(And(same, free)), 'join: two free ports of the same type are joined')
            r.unchanged(s, 'join refused')
        else:
            r.obl(s, same, 'join: only ports of the same element type are joined')
            r.obl(s, free, 'join: only free ports are joined')
            r.linked(s, na, nb, pa, pb, 'join')
            r.others_same(s, na, nb, ('OTHERKERNEL', 'OTHERNAME'), 'join')
    return r


def t_keeper_add(mod):
    r = MRun(mod, ())
    f, ex = r.f, r.ex
    for n in SETS:
        for s, k, v in r.call(ADD, [Ptr(f.map, 0, getattr(f.C, 'M_' + n)), Ptr(f.K, f.ka, 0)]):
            if k == 'exc':
                r.obl(s, False, '+= on a kernel list throws nothing')
                continue
            r.members(s, {n: [(True, f.ka)]}, 'kernel list +=')
            r.unchanged(s, 'kernel list +=')
    return r


def t_update(mod):
    r = MRun(mod, ('add', 'ports'))
    f, ex, C = r.f, r.ex, r.f.C
    reg = Region('kernels', size=16)
    r.st.cells(reg)[0] = (8, Ptr(f.K, f.ka, 0))
    r.st.cells(reg)[8] = (8, Ptr(f.K, f.kb, 0))
    for s, k, v in r.call(UPDATE, [Ptr(f.map), Ptr(reg), Ptr(reg, 0, 8)]):
        if k == 'exc':
            r.obl(s, False, 'updateKernels throws nothing')
            continue
        r.members(s, joining(r), 'updateKernels')
        r.unchanged(s, 'updateKernels')
    return r


def joining(r):
    f, C = r.f, r.f.C
    intl = lambda k: Ne(toint(f.kfield(r.st, k, C.K_INTERNAL)), 0)
    return {'ALL': [(True, f.ka), (True, f.kb)], 'SRC': [(Eq(f.N(r.st, 2 * f.ka), 0), f.ka)], 'DST': [(Eq(f.N(r.st, 2 * f.kb + 1), 0), f.kb)],
            'INT': [(intl(f.ka), f.ka), (intl(f.kb), f.kb)]}


def choose(r, m, key):
    """(port, kind of failure) for a requested name: None/PNF/AMB, as the documentation describes it"""
    f = r.f
    named = f.lookup(r.st, m, key)
    single = f.node(r.st, m, 0)
    n = f.N(r.st, m)
    nd = If(Eq(key, 0), single, named)
    ok = If(Eq(key, 0), Eq(n, 1), Ne(named, 0))
    amb = And(Eq(key, 0), Lt(1, n))
    return nd, ok, amb


def link(mod, order):
    r = MRun(mod, ('add', 'ports', 'update', 'join'))
    f, ex, C = r.f, r.ex, r.f.C
    pa, pb, buf = ex.sym('port_a'), ex.sym('port_b'), ex.sym('buffer')
    ex.assume(r.st, And(Le(0, pa), Le(0, pb)))
    out = Region('linked pair', size=C.R_SIZE)
    sta, stb = (lambda s: s.idx if isinstance(s, Ptr) else s), None
    na, oka, amba = choose(r, f.ma, pa)
    nb, okb, ambb = choose(r, f.mb, pb)
    other = lambda s, n: sta(f.info(s, n, 'OTHERKERNEL'))
    same = Eq(f.info(r.st, na, 'TYPE'), f.info(r.st, nb, 'TYPE'))
    free = And(Eq(other(r.st, na), 0), Eq(other(r.st, nb), 0))
    intl = lambda k: Ne(toint(f.kfield(r.st, k, C.K_INTERNAL)), 0)
    rx = r'MapBase::link<\(raft::order::spec\)%d>\(' % (0 if order == 'in' else 1)
    for s, k, v in r.call(rx, [Ptr(out), Ptr(f.map), Ptr(f.K, f.ka, 0), f.string(r.st, pa, 'a_port'), Ptr(f.K, f.kb, 0), f.string(r.st, pb, 'b_port'), buf]):
        if k == 'exc':
            r.obl(s, Not(And(oka, okb, same, free)), 'link: two free ports of the same type are linked')
            r.obl(s, Implies(And(Not(oka), Not(amba)), exc_is(f, v, 'TI_PNF')), 'link: an unknown output port is refused with PortNotFoundException')
            r.obl(s, Implies(amba, exc_is(f, v, 'TI_AMB')), 'link: leaving out the name of one of several output ports is refused with AmbiguousPortAssignmentException')
            r.obl(s, Implies(And(oka, Not(okb), Not(ambb)), exc_is(f, v, 'TI_PNF')), 'link: an unknown input port is refused with PortNotFoundException')
            r.obl(s, Implies(And(oka, ambb), exc_is(f, v, 'TI_AMB')), 'link: leaving out the name of one of several input ports is refused with AmbiguousPortAssignmentException')
            r.obl(s, Implies(And(oka, okb, Not(same)), exc_is(f, v, 'TI_TYPE')), 'link: ports of different element types are refused with PortTypeMismatchException')
            r.obl(s, Implies(And(oka, okb, same), exc_is(f, v, 'TI_DBL')), 'link: a port that is already connected is refused with PortDoubleInitializeException')
            r.unchanged(s, 'link refused')
            for n in SETS:
                r.obl(s, Eq(s.ghost['held_' + n], 0), 'link refused: no lock is left taken')
        else:
            r.obl(s, oka, 'link: the output port asked for exists')
            r.obl(s, okb, 'link: the input port asked for exists')
            r.obl(s, same, 'link: only ports of the same element type are linked')
            r.obl(s, free, 'link: only free ports are linked')
            r.linked(s, na, nb, f.key(s, na), f.key(s, nb), 'link')
            for nd, w in ((na, 'output'), (nb, 'input')):
                r.obl(s, Eq(f.info(s, nd, 'FIXED'), buf), 'link: the %s port has the requested buffer size' % w)
                r.obl(s, Eq(toint(f.info(s, nd, 'OOO')), 0 if order == 'in' else 1), 'link: the %s port has the requested ordering' % w)
            r.others_same(s, na, nb, ('OTHERKERNEL', 'OTHERNAME', 'FIXED', 'OOO'), 'link')
            r.members(s, joining(r), 'link')
            vs, vd = s.ghost['vecs'].get((out, C.R_SRC)), s.ghost['vecs'].get((out, C.R_DST))
            r.obl(s, vs is not None and len(vs) == 1 and Eq(vs[0], f.ka), 'link: names the source kernel it linked')
            r.obl(s, vd is not None and len(vd) == 1 and Eq(vd[0], f.kb), 'link: names the destination kernel it linked')
    return r


def t_link_in(mod):
    return link(mod, 'in')


def t_link_out(mod):
    return link(mod, 'out')


# ===================================================================== topology expressions
SENTINEL = 0x7070707070707070
PFIELDS = dict(NEXT='kp', HEAD='kp', SRC='k', HASSRC=1, SRCNAME=8, DST='k', HASDST=1, DSTNAME=8, BUF=8, SPLIT=1, OUTS=8, JOIN=1, INS=8, OOO=1)
TAIL = r'^kpair::tail\(\)$'
SETHEAD = r'^kpair::setHead\(kpair\*\)$'


class Pairs(Map):
    """chains of pairs: PR(c,i) is the i-th pair of chain c, linked by next, all naming PR(c,0) as head"""

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.KP = Region('pair', kind='arr', stride=C.L_SIZE, length=None, meta={'pool': True, 'autofields': False})
        fl = self.KP.fields
        for n, t in PFIELDS.items():
            o = getattr(C, 'L_' + n)
            fl[o] = (8, ('ptr', self.KP)) if t == 'kp' else (8, ('ptr', self.K)) if t == 'k' else (t, 'bool' if t == 1 else 'int')
        st.cells(self.KP)
        Z = z3.IntSort()
        self.PR, self.PCH, self.PPOS, self.LEN = z3.Function('PR', Z, Z, Z), z3.Function('PCH', Z, Z), z3.Function('PPOS', Z, Z), z3.Function('PLEN', Z, Z)
        self.made = []
        self.q = ex.sym('pair!any', None)
        return st

    def pf(self, st, p, n):
        """field n of pair p"""
        C = self.C
        o = getattr(C, 'L_' + n)
        v = self.ex.arr_field(st, self.KP, o, self.KP.fields[o][0]).select(self.ex, p)
        return v.idx if isinstance(v, Ptr) and v.r is not None else 0 if isinstance(v, Ptr) else toint(v)

    def pr(self, c, i, deep=1):
        ex = self.ex
        t = self.PR(c, i if isz(i) else z3.IntVal(i))
        k = ('pr', t.get_id())
        if k not in ex._axseen:
            ex._axseen.add(k)
            ex.keep = getattr(ex, 'keep', []) + [t]
            i_ = i if isz(i) else z3.IntVal(i)
            n = self.LEN(c)
            ex.axiom(n >= 1)
            ex.axiom(z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(t > 0, self.PCH(t) == c, self.PPOS(t) == i_)))
            f = lambda nm: self.pf(self.st0, t, nm)
            ex.axiom(z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(f('NEXT') == z3.If(i_ + 1 < n, self.PR(c, i_ + 1), 0), f('HEAD') == self.PR(c, 0), f('SRC') > 0, f('DST') > 0)))
        if deep:
            self.pr(c, i + 1, 0)
            self.pr(c, 0, 0)
            self.pr(c, self.LEN(c) - 1, 0)
        return t

    def chain(self, name):
        """an arbitrary pair of an arbitrary chain"""
        ex = self.ex
        c, i = ex.sym('chain_' + name, None), ex.sym('pos_' + name, None)
        ex.assume(self.st, And(c > 0, Le(0, i), Lt(i, self.LEN(c))))
        return c, self.pr(c, i)

    def member(self, q, c):
        return And(q > 0, Eq(self.PCH(q), c), Le(0, self.PPOS(q)), Lt(self.PPOS(q), self.LEN(c)), Eq(self.pr(c, self.PPOS(q)), q))

    def on_new(self, ex, st, name, n, loc):
        if n == self.C.L_SIZE:
            p = ex.fresh('newpair')
            ex.assume(st, p > 0)
            for o in self.made:
                ex.assume(st, p != o)
            ex.assume(st, self.PCH(p) == -1)
            self.made = self.made + [p]
            st.ghost['new'] = st.ghost.get('new', ()) + (p,)
            return Ptr(self.KP, p, 0)
        return None

    def chain_of(self, p):
        """chain of a pair given by pointer"""
        if not isinstance(p, Ptr) or p.r is not self.KP or p.off != 0:
            raise Unsupported('pair %r' % (p,))
        return self.PCH(p.idx)

    def pre_contracts(self, add):
        super().pre_contracts(add)
        rt = self
        if 'tail' in self.uses and present(self.mod, TAIL):
            def tail(ex, st, a, loc):
                c = rt.chain_of(a[0])
                ex.oblige(st, rt.member(a[0].idx, c), '[C14] the pair belongs to a chain', loc)
                rt.intact(ex, st, c, loc)
                return Ptr(rt.KP, rt.pr(c, rt.LEN(c) - 1), 0)
            add(TAIL, 'kpair::tail', tail, False)
        if 'sethead' in self.uses and present(self.mod, SETHEAD):
            def sethead(ex, st, a, loc):
                c = rt.chain_of(a[0])
                ex.oblige(st, rt.member(a[0].idx, c), '[C14] the pair belongs to a chain', loc)
                rt.intact(ex, st, c, loc)
                o = rt.C.L_HEAD
                old = ex.arr_field(st, rt.KP, o, 8)
                new = a[1]
                if not isinstance(new, Ptr) or new.r is not rt.KP:
                    raise Unsupported('head')
                ni = new.idx
                st.cells(rt.KP)[o] = (8, AFun(lambda ex, q: Ptr(rt.KP, If(rt.member(q, c), ni, rt.old_id(ex, old, q)), 0)))
                if st.log is not None:
                    st.log.add(('arr', rt.KP, o, 8))
                return None
            add(SETHEAD, 'kpair::setHead', sethead, False)

    def old_id(self, ex, arr, q):
        v = arr.select(ex, q)
        return v.idx if isinstance(v, Ptr) and v.r is not None else 0 if isinstance(v, Ptr) else v

    def intact(self, ex, st, c, loc):
        """the chain's links are still as they were"""
        q = self.q
        ex.oblige(st, Implies(self.member(q, c), And(Eq(self.pf(st, q, 'NEXT'), self.pf(self.st0, q, 'NEXT')), Eq(self.pf(st, q, 'HEAD'), self.pf(self.st0, q, 'HEAD')))),
                  '[C14] the chain is well formed', loc)

    def loop_candidates(self, ex, fn, entry, hav, fr):
        out = super().loop_candidates(ex, fn, entry, hav, fr)
        c = getattr(self, 'c', None)
        if c is None:
            return out
        for key, old, new in hav:
            if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r is self.KP and old.off == 0:
                def at(ex, s, g, key=key):
                    v = symex.cur(ex, s, key, g)
                    if not isinstance(v, Ptr) or v.r not in (self.KP, None):
                        raise Unsupported('cand')
                    return v.idx if v.r is not None else z3.IntVal(0)
                out.append(symex.Cand('%s is a pair of the chain' % symex.kname(key), lambda ex, s, e, g, g0, at=at: self.member(at(ex, s, g), c)))
                out.append(symex.Cand('%s is a pair of the chain or null' % symex.kname(key), lambda ex, s, e, g, g0, at=at: Or(Eq(at(ex, s, g), 0), self.member(at(ex, s, g), c))))
                def done(ex, s, e, g, g0, at=at):
                    p, q = at(ex, s, g), self.q
                    upto = If(Eq(p, 0), self.LEN(c), self.PPOS(p))
                    return Eq(self.pf(s, q, 'HEAD'), If(And(self.member(q, c), Lt(self.PPOS(q), upto)), self.first, self.pf(self.st0, q, 'HEAD')))
                for okey, oold, onew in hav:
                    if okey != key and okey[0] in ('cell', 'phi') and isinstance(oold, Ptr) and oold.r is self.KP and oold.off == 0:
                        def after(ex, s, e, g, g0, at=at, okey=okey):
                            o = symex.cur(ex, s, okey, g)
                            if not isinstance(o, Ptr) or o.r is not self.KP:
                                raise Unsupported('cand')
                            return Eq(at(ex, s, g), self.pf(s, o.idx, 'NEXT'))
                        out.append(symex.Cand('%s follows %s' % (symex.kname(key), symex.kname(okey)), after))
                if getattr(self, 'first', None) is not None:
                    out.append(symex.Cand('%s: exactly the pairs before it have the new head' % symex.kname(key), done))
        return out


def t_tail(mod):
    r = MRun(mod, (), Pairs)
    f, ex = r.f, r.ex
    f.st = r.st
    c, p = f.chain('a')
    f.c = c
    for s, k, v in r.call(TAIL, [Ptr(f.KP, p, 0)]):
        r.obl(s, k == 'ret' and isinstance(v, Ptr) and v.r is f.KP and Eq(v.idx, f.pr(c, f.LEN(c) - 1)), 'tail is the last pair of the chain')
        for n in PFIELDS:
            r.obl(s, Eq(f.pf(s, f.q, n), f.pf(r.st, f.q, n)), 'tail changes nothing')
    return r


def t_setHead(mod):
    r = MRun(mod, (), Pairs)
    f, ex = r.f, r.ex
    f.st = r.st
    c, p = f.chain('a')
    f.c = c
    f.first = ex.sym('first')
    ex.assume(r.st, f.first > 0)
    for s, k, v in r.call(SETHEAD, [Ptr(f.KP, p, 0), Ptr(f.KP, f.first, 0)]):
        r.obl(s, k == 'ret', 'setHead throws nothing')
        q = f.q
        r.obl(s, Eq(f.pf(s, q, 'HEAD'), If(f.member(q, c), f.first, f.pf(r.st, q, 'HEAD'))), 'setHead gives every pair of the chain, and no other, the new head')
        for n in PFIELDS:
            if n != 'HEAD':
                r.obl(s, Eq(f.pf(s, q, n), f.pf(r.st, q, n)), 'setHead changes nothing else')
    return r


class Side:
    """one operand of a topology operator: a kernel, a wrapped kernel or a chain of pairs"""

    def __init__(self, r, kind, name, kid):
        f, ex = r.f, r.ex
        self.kind = kind
        if kind == 'pair':
            self.c, self.p = f.chain(name)
            self.arg = Ptr(f.KP, self.p, 0)
            self.first, self.last = f.pr(self.c, 0), f.pr(self.c, f.LEN(self.c) - 1)
            self.left = f.pf(r.st, self.last, 'DST')      # kernel a new pair starts from, when this is the left operand
            self.right = f.pf(r.st, self.first, 'SRC')
        else:
            self.left = self.right = kid
            if kind == 'kernel':
                self.arg = Ptr(f.K, kid, 0)
            else:
                self.w = Region('wrapper_' + name, size=16)
                r.st.cells(self.w)[0] = (8, UNDEF)
                r.st.cells(self.w)[8] = (8, Ptr(f.K, kid, 0))
                self.arg = Ptr(self.w)


def take(f, st, k):
    """the next name given with kernel[...]"""
    n = f.gsel(st, 'EQN', k)
    v = If(Lt(0, n), f.gsel(st, 'EQ0', k), 0)
    f.gput(st, 'EQ0', k, If(Lt(0, n), f.gsel(st, 'EQ1', k), f.gsel(st, 'EQ0', k)))
    f.gput(st, 'EQN', k, If(Lt(0, n), n - 1, n))
    return v


def paired(mod, akind, bkind, op, split, join, ooo, calls):
    """calls(r, a, b): run the operator(s); -> outcomes"""
    r = MRun(mod, ('tail', 'sethead', 'ports'), Pairs)
    f, ex, C = r.f, r.ex, r.f.C
    f.st = r.st
    a, b = Side(r, akind, 'a', f.ka), Side(r, bkind, 'b', f.kb)
    if akind == bkind == 'pair':
        ex.assume(r.st, a.c != b.c)
    what = '%s %s %s' % (akind, op, bkind)
    O = lambda s, g, n: r.obl(s, g, '%s: %s' % (what, n))
    e = r.st.clone()
    na = take(f, e, a.left)
    nb = take(f, e, b.right)
    q, kk = f.q, ex.sym('k!any', None)
    for s, k, v in calls(r, a, b):
        if k == 'exc':
            O(s, False, 'throws nothing')
            continue
        new = s.ghost.get('new', ())
        if not (isinstance(v, Ptr) and v.r is f.KP and len(new) == 1):
            O(s, False, 'makes one new pair')
            continue
        p = new[0]
        g = lambda n, x=p: f.pf(s, x, n)
        O(s, Eq(v.idx, p), 'yields the new pair')
        O(s, And(Eq(g('SRC'), a.left), Eq(g('DST'), b.right)), 'joins the last kernel on the left to the first on the right')
        O(s, And(Eq(g('SRCNAME'), na), Eq(g('DSTNAME'), nb)), 'uses the port names given with []')
        O(s, And(Eq(g('HASSRC'), If(Ne(na, 0), 1, 0)), Eq(g('HASDST'), If(Ne(nb, 0), 1, 0))), 'knows whether port names were given')
        O(s, And(Eq(g('SPLIT'), split), Eq(g('JOIN'), join)), 'is marked as what its operator says')
        O(s, Eq(g('OOO'), ooo), 'has the ordering asked for')
        O(s, Eq(g('BUF'), 0), 'asks for no particular buffer size')
        O(s, And(Eq(g('OUTS'), f.N(r.st, 2 * a.left + 1)), Eq(g('INS'), f.N(r.st, 2 * b.right))), 'knows the number of ports on both ends')
        head = a.first if akind == 'pair' else p
        O(s, Eq(g('HEAD'), head), 'the chain starts with its first pair')
        O(s, Eq(g('NEXT'), b.first if bkind == 'pair' else 0), 'is followed by the pairs on its right')
        ina = f.member(q, a.c) if akind == 'pair' else False
        inb = f.member(q, b.c) if bkind == 'pair' else False
        old = Or(ina, inb)
        if akind == 'pair':
            O(s, Implies(ina, Eq(g('NEXT', q), If(Eq(q, a.last), p, f.pr(a.c, f.PPOS(q) + 1)))), 'every pair on the left keeps its place before the new one')
            O(s, Implies(ina, Eq(g('HEAD', q), head)), 'every pair on the left keeps its head')
        if bkind == 'pair':
            O(s, Implies(inb, Eq(g('NEXT', q), f.pf(r.st, q, 'NEXT'))), 'every pair on the right keeps its place after the new one')
            O(s, Implies(inb, Eq(g('HEAD', q), head)), 'every pair on the right knows the new head')
        for n in PFIELDS:
            c = Eq(g(n, q), f.pf(r.st, q, n))
            O(s, Implies(And(Ne(q, p), Not(old)) if n in ('NEXT', 'HEAD') else Ne(q, p), c), 'changes no other pair')
        for n in ('EQN', 'EQ0', 'EQ1'):
            c = Eq(f.gsel(s, n, kk), f.gsel(e, n, kk))
            if n != 'EQN':
                c = Implies(Lt(0, f.gsel(e, 'EQN', kk)) if n == 'EQ0' else Lt(1, f.gsel(e, 'EQN', kk)), c)
            O(s, c, 'takes one name per end, if given, and no other')
        for w in (a, b):
            if w.kind == 'wrapped':
                O(s, isinstance(s.cells(w.w)[8][1], int) and s.cells(w.w)[8][1] == SENTINEL or sentinel(s.cells(w.w)[8][1]), 'takes over the kernel it was given by value')
        r.unchanged(s, what)
    return r


def sentinel(v):
    if isinstance(v, Ptr):
        return v.r is None and Eq(v.idx + v.off, SENTINEL)
    return Eq(v, SENTINEL) if isz(v) else v == SENTINEL


TY = {'kernel': r'raft::kernel&', 'wrapped': r'raft::kernel_wrapper&&', 'pair': r'kpair&'}


def plain(op, a, b):
    return r'^operator%s\(%s, %s\)$' % (re.escape(op), TY[a], TY[b])


def operator(mod, op, a, b):
    rx = plain(op, a, b)
    return paired(mod, a, b, op, int(op == '<='), int(op == '>='), 0, lambda r, x, y: r.call(rx, [x.arg, y.arg]))


def ooo_operator(mod, a, b):
    """a >> raft::order::out >> b"""
    def calls(r, x, y):
        o = Region('order', size=1)
        r.st.cells(o)[0] = (1, 1)
        rx = r'^operator>>\(%s, raft::order::spec const&&\)$' % TY[a]
        out = []
        for s, k, v in r.call(rx, [x.arg, Ptr(o)]):
            if k == 'exc' or not isinstance(v, Ptr):
                out.append((s, 'exc', v))
                continue
            fn = find(mod, r'^operator>>\(PairBase<%s, 0>&, %s\)$' % ('raft::kernel' if a == 'kernel' else 'kpair', TY[b]))
            r.ex.cur = mod.dem[fn.name]
            out += r.ex.run_function(fn, [v, y.arg], s.clone())
        return out
    return paired(mod, a, b, '>> order::out >>', 0, 0, 1, calls)


OPS = [('>>', 'kernel', 'kernel'), ('>>', 'wrapped', 'wrapped'), ('>>', 'kernel', 'wrapped'), ('>>', 'pair', 'kernel'), ('>>', 'pair', 'wrapped'),
       ('<=', 'kernel', 'kernel'), ('<=', 'wrapped', 'wrapped'), ('<=', 'kernel', 'pair'), ('<=', 'wrapped', 'pair'),
       ('>=', 'kernel', 'kernel'), ('>=', 'wrapped', 'wrapped'), ('>=', 'pair', 'kernel'), ('>=', 'pair', 'wrapped'), ('>=', 'pair', 'pair'),
       ('>=', 'kernel', 'pair'), ('>=', 'wrapped', 'pair')]
OOO = [(a, b) for a in ('kernel', 'pair') for b in ('kernel', 'wrapped')]


CTORS = [(a, b, True) for a in ('kernel', 'wrapped', 'pair') for b in ('kernel', 'wrapped', 'pair')]
CTORS += [(a, b, False) for a in ('kernel', 'wrapped') for b in ('kernel', 'wrapped')]


def constructor(mod, a, b, flags):
    """kpair( a, b[, split, join] )"""
    def calls(r, x, y):
        f, ex = r.f, r.ex
        st = r.st.clone()
        p = f.on_new(ex, st, 'kpair', f.C.L_SIZE, None)
        for x_ in (sp, jo) if flags else ():
            ex.assume(st, And(Le(0, x_), Le(x_, 1)))
        rx = r'^kpair::kpair\(%s, %s%s\)$' % (CTY[a], CTY[b], ', bool, bool' if flags else '')
        out = []
        for s, k, v in r.call(rx, [p, x.arg, y.arg] + ([sp, jo] if flags else []), st):
            out.append((s, k, p if k == 'ret' else v))
        return out
    sp, jo = (z3.Int('split'), z3.Int('join')) if flags else (0, 0)
    return paired(mod, a, b, 'pair of' + (' split, join' if flags else ''), sp, jo, 0, calls)


CTY = {'kernel': r'raft::kernel&', 'wrapped': r'raft::kernel_wrapper&', 'pair': r'kpair&'}


# ===================================================================== kernel[...]
def t_enabled(mod):
    r = MRun(mod)
    f, ex = r.f, r.ex
    e = r.st.clone()
    v0 = take(f, e, f.ka)
    kk = ex.sym('k!any', None)
    out = Region('name', size=32)
    for s, k, v in r.call(r'^raft::kernel::getEnabledPort(\[abi:cxx11\])?\(\)$', [Ptr(out), Ptr(f.K, f.ka, 0)]):
        if k == 'exc':
            r.obl(s, False, 'getEnabledPort: throws nothing')
            continue
        r.obl(s, Eq(s.cells(out)[0][1], v0), 'getEnabledPort: the first name not used yet, or none')
        same_queue(r, s, e, kk, 'getEnabledPort: takes that name and no other')
        r.unchanged(s, 'getEnabledPort')
    return r


def same_queue(r, s, e, kk, what):
    f = r.f
    n = f.gsel(e, 'EQN', kk)
    r.obl(s, And(Eq(f.gsel(s, 'EQN', kk), n), Implies(Lt(0, n), Eq(f.gsel(s, 'EQ0', kk), f.gsel(e, 'EQ0', kk))),
                 Implies(Lt(1, n), Eq(f.gsel(s, 'EQ1', kk), f.gsel(e, 'EQ1', kk)))), what)


def index(mod, rv):
    r = MRun(mod)
    f, ex = r.f, r.ex
    v, kk = ex.sym('name'), ex.sym('k!any', None)
    e = r.st.clone()
    n = f.gsel(e, 'EQN', f.ka)
    f.gput(e, 'EQ0', f.ka, If(Eq(n, 0), v, f.gsel(e, 'EQ0', f.ka)))
    f.gput(e, 'EQ1', f.ka, If(Eq(n, 0), f.gsel(e, 'EQ1', f.ka), v))
    f.gput(e, 'EQN', f.ka, n + 1)
    for s, k, x in r.call(r'^raft::kernel::operator\[\]\(.* const%s\)$' % ('&&' if rv else '&'), [Ptr(f.K, f.ka, 0), f.string(r.st, v)]):
        if k == 'exc':
            r.obl(s, Eq(n, 2), 'kernel[name]: up to two names are taken')
            r.obl(s, exc_is(f, x, 'TI_AMB'), 'kernel[name]: a third name is refused with AmbiguousPortAssignmentException')
            same_queue(r, s, r.st, kk, 'kernel[name] refused: the names given before are kept')
        else:
            r.obl(s, Lt(n, 2), 'kernel[name]: a third name is refused')
            r.obl(s, isinstance(x, Ptr) and x.r is f.K and x.off == 0 and Eq(x.idx, f.ka), 'kernel[name]: is the kernel itself')
            same_queue(r, s, e, kk, 'kernel[name]: the name is used after those given before')
        r.unchanged(s, 'kernel[name]')
    return r


# ===================================================================== map::joink
LINK = r'MapBase::link<\(raft::order::spec\)%d>\('


class Join(Pairs):
    """link as its contract says; remembers what it was asked for"""

    def pre_contracts(self, add):
        super().pre_contracts(add)
        rt = self

        def mk(order):
            def f(ex, st, a, loc):
                # result, map, a, a_port, b, b_port, buffer
                ex.oblige(st, isinstance(a[1], Ptr) and a[1].r is rt.map, '[C14] kernels are linked in this map', loc)
                args = (order, rt.kptr(a[2]), ex.load(st, a[3], I64, loc), rt.kptr(a[4]), ex.load(st, a[5], I64, loc), a[6])
                rt.on_link(ex, st, args, loc)
                return [(st, 'ret', None)] + [rt.raises(st.clone(), t, loc) for t in ('TI_PNF', 'TI_AMB', 'TI_TYPE', 'TI_DBL')]
            return f
        for o in (0, 1):
            if present(self.mod, LINK % o):
                add(LINK % o, 'MapBase::link', mk(o), False)

    def on_link(self, ex, st, args, loc):
        self.setg(st, 'links', st.ghost.get('links', ()) + (args,))


def t_joink(mod):
    r = MRun(mod, (), Join)
    f, ex = r.f, r.ex
    f.st = r.st
    c, p = f.chain('a')
    pf = lambda n: f.pf(r.st, p, n)
    for s, k, v in r.call(r'^raft::map::joink\(kpair\*\)$', [Ptr(f.map), Ptr(f.KP, p, 0)]):
        l = s.ghost.get('links', ())
        r.obl(s, len(l) == 1, 'a pair of a topology expression is linked once')
        if len(l) == 1:
            o, ka, pa, kb, pb, buf = l[0]
            r.obl(s, And(Eq(ka, pf('SRC')), Eq(kb, pf('DST'))), 'the kernels of the pair are linked')
            r.obl(s, And(Eq(pa, pf('SRCNAME')), Eq(pb, pf('DSTNAME'))), 'the ports named in the pair are linked')
            r.obl(s, Eq(buf, pf('BUF')), 'the link has the buffer size of the pair')
            r.obl(s, Eq(o, If(Ne(pf('OOO'), 0), 1, 0)), 'the link has the ordering of the pair')
        for n in PFIELDS:
            r.obl(s, Eq(f.pf(s, f.q, n), f.pf(r.st, f.q, n)), 'linking a pair leaves the expression alone')
    return r


# ===================================================================== every port connected?
class Linked(Map):
    """mode 'all': every port of ka is linked; mode 'one': port number p!any of side `side` is not"""
    mode, side_ = 'all', 0

    def node_axioms(self, st, nd):
        super().node_axioms(st, nd)
        if self.mode == 'all' and isz(nd) and ('lk', nd.get_id()) not in self.ex._axseen:
            self.ex._axseen.add(('lk', nd.get_id()))
            n = self.st0.ghost['N'].select(self.ex, self.fOWN(nd))
            o = self.info(self.st0, nd, 'OTHERKERNEL')
            o = o.idx if isinstance(o, Ptr) else o
            self.ex.axiom(z3.Implies(z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n, z3.Or(self.fOWN(nd) == 2 * self.ka, self.fOWN(nd) == 2 * self.ka + 1)), o > 0))


def connected(mod, mode, side=0):
    cls = type('Linked_', (Linked,), {'mode': mode, 'side_': side})
    r = MRun(mod, ('ports',), cls)
    f, ex = r.f, r.ex
    other = lambda s, nd: (lambda v: v.idx if isinstance(v, Ptr) else v)(f.info(s, nd, 'OTHERKERNEL'))
    f.portpreds = [('connected', lambda ex, s, e, nd, p: Ne(other(s, nd), 0))]
    if mode == 'one':
        m = 2 * f.ka + side
        ex.assume(r.st, And(Le(0, f.p), Lt(f.p, f.N(r.st, m))))
        ex.assume(r.st, Eq(other(r.st, f.node(r.st, m, f.p)), 0))
    for s, k, v in r.call(r'^raft::kernel::allConnected\(\)$', [Ptr(f.K, f.ka, 0)]):
        if k == 'exc':
            r.obl(s, mode == 'one', 'allConnected: a kernel with every port connected is accepted')
            r.obl(s, exc_is(f, v, 'TI_UNC'), 'allConnected: an unconnected port is reported with PortUnconnectedException')
        else:
            r.obl(s, mode == 'all', 'allConnected: an unconnected %s port is reported' % ('input', 'output')[side])
        r.unchanged(s, 'allConnected')
    return r


CONN = r'^raft::kernel::allConnected\(\)$'


class KSet(Join):
    """the kernels of the map as a sequence ALLK of length n_all"""

    def setup(self, ex):
        st = super().setup(ex)
        self.ALLK = Region('kernels', kind='arr', stride=8, length=None, fields={0: (8, ('ptr', self.K))}, meta={'autofields': False, 'len': lambda s: s.ghost['n_all']})
        st.cells(self.ALLK)
        st.ghost['n_all'] = ex.sym('n_all')
        ex.assume(st, And(Le(0, st.ghost['n_all']), Lt(st.ghost['n_all'], 1 << 32)))
        self.conn = z3.Function('CONNECTED', z3.IntSort(), z3.IntSort())
        self.seqs[self.ALLK] = (lambda s: s.ghost['n_all'], [('connected', lambda ex, s, e, p: Eq(self.conn(self.kid(s, p)), 1))])
        return st

    def kid(self, s, i):
        v = self.ex.arr_field(s, self.ALLK, 0, 8).select(self.ex, i)
        return v.idx if isinstance(v, Ptr) else v

    def iterable(self, ex, st, p, loc):
        """which sequence a std::set<kernel*> is"""
        n = self.keeper_at(p, self.C.KP_SET)
        if n != 'ALL':
            raise Unsupported('kernel set %r' % (p,))
        ex.oblige(st, Eq(st.ghost['held_' + n], 1), '[C14] a kernel list is used only with its lock held', loc)
        return self.ALLK

    def pre_contracts(self, add):
        super().pre_contracts(add)
        rt = self
        add('^' + KS + r'c?begin\(\)', 'std::set', lambda ex, st, a, loc: Ptr(rt.iterable(ex, st, a[0], loc), 0, 0))

        def end(ex, st, a, loc):
            e = rt.iterable(ex, st, a[0], loc)
            return Ptr(e, rt.seqs[e][0](st), 0)
        add('^' + KS + r'c?end\(\)', 'std::set', end)
        SI = r'std::_Rb_tree_const_iterator<raft::kernel\*>'

        def deref(ex, st, a, loc):
            v = ex.load(st, a[0], PTR, loc)
            if not isinstance(v, Ptr) or v.r not in rt.seqs:
                raise Unsupported('set iterator')
            ex.oblige(st, And(Le(0, v.idx), Lt(v.idx, rt.seqs[v.r][0](st))), 'mem:iterator past the last kernel is not used', loc, 'mem')
            ex.assume(st, Lt(0, rt.elem(st, v.r, v.idx)))
            return Ptr(v.r, v.idx, 0)
        add('^' + SI + r'::operator\*\(\)', 'std::set iterator', deref)

        def inc(ex, st, a, loc):
            v = ex.load(st, a[0], PTR, loc)
            ex.store(st, a[0], PTR, Ptr(v.r, v.idx + 1, 0), loc)
            return a[0]
        add('^' + SI + r'::operator\+\+\(\)', 'std::set iterator', inc)

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = ex.load(st, a[0], PTR, loc), ex.load(st, a[1], PTR, loc)
                r = And(x.r is y.r, Eq(x.idx, y.idx))
                return Not(r) if neg else r
            return f
        add(r'^std::operator!=\(' + SI, 'std::set iterator', cmp(True))
        add(r'^std::operator==\(' + SI, 'std::set iterator', cmp(False))
        if 'conn' in self.uses and present(self.mod, CONN):
            def conn(ex, st, a, loc):
                k = rt.kptr(a[0])
                out = []
                for s, c, x in rt.split(ex, st, Eq(rt.conn(k), 1)):
                    out.append((s, 'ret', None) if x else rt.raises(s, 'TI_UNC', loc))
                return out
            add(CONN, 'kernel::allConnected', conn, False)

    def elem(self, st, reg, i):
        v = self.ex.arr_field(st, reg, 0, 8).select(self.ex, i)
        return v.idx if isinstance(v, Ptr) else v


def t_checkEdges(mod):
    r = MRun(mod, ('conn',), KSet)
    f, ex = r.f, r.ex
    f.st = r.st
    p = ex.sym('p!any', None)
    f.invariants = [('the list is locked', lambda ex, s, e: Eq(s.ghost['held_ALL'], e.ghost['held_ALL']))]
    wit = []
    for s, k, v in r.call(r'^raft::map::checkEdges\(\)$', [Ptr(f.map)]):
        if k == 'exc':
            r.obl(s, exc_is(f, v, 'TI_UNC'), 'start-up: an unconnected port is reported with PortUnconnectedException')
        else:
            r.obl(s, Implies(And(Le(0, p), Lt(p, s.ghost['n_all'])), Eq(f.conn(f.kid(s, p)), 1)), 'start-up: an application with an unconnected port is refused')
        r.obl(s, Eq(s.ghost['held_ALL'], 0), 'start-up: the kernel list is left unlocked')
        r.unchanged(s, 'start-up check')
    # and a fully connected application is accepted
    r2 = MRun(mod, ('conn',), type('Conn', (KSet,), {'elem': lambda self, st, reg, i: self.all_connected(KSet.elem(self, st, reg, i)),
                                                     'all_connected': lambda self, e: (self.ex.axiom(self.conn(e) == 1), e)[1]}))
    r2.f.st = r2.st
    for s, k, v in r2.call(r'^raft::map::checkEdges\(\)$', [Ptr(r2.f.map)]):
        r2.obl(s, k == 'ret', 'start-up: an application with every port connected is accepted')
    r.ex.obs += [o for o in r2.ex.obs]
    r.ex.axioms += r2.ex.axioms
    return r



# ===================================================================== allocation
ALLOC = r'^Allocate::allocate\(PortInfo&, PortInfo&, void\*\)$'
AINIT = r'^Allocate::initialize\(PortInfo\*, PortInfo\*, FIFO\*\)$'
FSET = r'std::set<FIFO\*, [^>]*>, [^>]*>>::'


class Alloc(Map):
    """the allocator of a map; na: any output port, nb: any input port"""

    def setup(self, ex):
        st = super().setup(ex)
        self.alloc = Region('allocator', size=max(self.C.A_SIZE, 256))
        st.cells(self.alloc)[0] = (8, self.vtable('stdalloc'))
        st.ghost['made'] = ()
        st.ghost['kept'] = ()
        return st

    def pre_contracts(self, add):
        super().pre_contracts(add)
        rt = self

        def i_index(ex, st, a, loc):
            b = ex.load(st, a[1], I8, loc)
            if isz(b):
                raise Unsupported('factory index')
            r = Region('factory', size=32)
            st.cells(r)[0] = (8, rt.gsel(st, 'inst%d' % (b & 1), a[0].idx))
            return Ptr(r)
        add('^' + INSTR_ + r'.*>::(operator\[\]|at)\(', 'factory map', i_index)
        FN = r'^std::function<FIFO\* \(unsigned long, unsigned long, void\*\)>::'

        def make(ex, st, a, loc):
            fid = ex.load(st, a[0], I64, loc)
            f = ex.fresh('stream')
            ex.assume(st, f > 0)
            for o in rt.streams:
                ex.assume(st, Ne(f, o))
            rt.streams = rt.streams + [f]
            rt.setg(st, 'made', st.ghost['made'] + ((f, fid, a[1], a[2], a[3]),))
            return Ptr(rt.FIFO, f, 0)
        add(FN + r'operator\(\)\(', 'stream factory', make)

        def keep(ex, st, a, loc):
            v = ex.load(st, a[1], PTR, loc)
            rt.setg(st, 'kept', st.ghost['kept'] + (v.idx if isinstance(v, Ptr) else v,))
            return [UNDEF, ex.fresh('ins', 1)]
        add('(^| )' + FSET + r'(insert|emplace)', 'std::set', keep)
    streams = []


INSTR_ = r'std::map<bool, std::function<FIFO\* \(unsigned long, unsigned long, void\*\)>'


def stream_ids(f, s, n):
    return [(lambda v: v.idx if isinstance(v, Ptr) and v.r is not None else 0 if isinstance(v, Ptr) else v)(f.info(s, n, x)) for x in ('FIFOA', 'FIFOB')]


def t_initialize(mod):
    r = MRun(mod, ('ports',), Alloc)
    f, ex, C = r.f, r.ex, r.f.C
    na, nb = ports2(r)
    fi = ex.sym('newstream')
    ex.assume(r.st, fi > 0)
    sa, sb = stream_ids(f, r.st, na)[0], stream_ids(f, r.st, nb)[0]
    for s, k, v in r.call(AINIT, [Ptr(f.alloc), Ptr(f.NODES, na, C.N_INFO), Ptr(f.NODES, nb, C.N_INFO), Ptr(f.FIFO, fi, 0)]):
        if k == 'exc':
            r.obl(s, Or(Ne(sa, 0), Ne(sb, 0)), 'allocation: two ports without a stream get one')
            r.obl(s, exc_is(f, v, 'TI_DBL'), 'allocation: a port that has a stream already is reported with PortDoubleInitializeException')
            r.unchanged(s, 'allocation refused')
        else:
            r.obl(s, And(Eq(sa, 0), Eq(sb, 0)), 'allocation: no stream of a port is replaced')
            shared(r, s, na, nb, fi)
            r.obl(s, len(s.ghost['kept']) == 1 and Eq(s.ghost['kept'][0], fi), 'allocation: the stream is freed with the allocator')
    return r


def shared(r, s, na, nb, fi):
    f = r.f
    for n, w in ((na, 'output'), (nb, 'input')):
        for x in stream_ids(f, s, n):
            r.obl(s, Eq(x, fi), 'allocation: the stream is the one of the %s port' % w)
    r.others_same(s, na, nb, ('FIFOA', 'FIFOB'), 'allocation')


def t_allocate(mod):
    r = MRun(mod, ('ports',), Alloc)
    f, ex, C = r.f, r.ex, r.f.C
    na, nb = ports2(r)
    i = lambda n: f.info(r.st, na, n)
    tab = f.gsel(r.st, 'heapmap', i('CONSTMAP'))
    ex.assume(r.st, Lt(0, tab))
    sa, sb = stream_ids(f, r.st, na)[0], stream_ids(f, r.st, nb)[0]
    ext = Ne((lambda v: v.idx if isinstance(v, Ptr) else v)(i('EXISTING')), 0)
    f.streams = [sa, sb]
    for s, k, v in r.call(ALLOC, [Ptr(f.alloc), Ptr(f.NODES, na, C.N_INFO), Ptr(f.NODES, nb, C.N_INFO), NULL]):
        m = s.ghost['made']
        r.obl(s, len(m) == 1, 'allocation: one stream is made per link')
        if len(m) != 1:
            continue
        fi, fid, n, al, buf = m[0]
        r.obl(s, Eq(fid, f.gsel(r.st, 'inst0', tab)), 'allocation: the stream is made by the factory of the output port, so it has its element type')
        fixed = i('FIXED')
        r.obl(s, Implies(And(Not(ext), Ne(fixed, 0)), Eq(n, fixed)), 'allocation: the stream has the requested capacity')
        r.obl(s, Implies(Not(ext), Lt(0, n)), 'allocation: the stream has room')
        r.obl(s, Implies(ext, Eq(n, i('NITEMS'))), "allocation: a stream over the user's buffer has the buffer's length")
        r.obl(s, Implies(ext, Eq(al, i('START'))), "allocation: a stream over the user's buffer starts at its start index")
        b = buf.idx if isinstance(buf, Ptr) and buf.r is not None else 0 if isinstance(buf, Ptr) else buf
        r.obl(s, Eq(b, (lambda v: v.idx if isinstance(v, Ptr) else v)(i('EXISTING'))), "allocation: the stream uses the user's buffer, if there is one")
        if k == 'exc':
            r.obl(s, Or(Ne(sa, 0), Ne(sb, 0)), 'allocation: two ports without a stream get one')
            r.obl(s, exc_is(f, v, 'TI_DBL'), 'allocation: a port that has a stream already is reported with PortDoubleInitializeException')
            r.unchanged(s, 'allocation refused')
        else:
            r.obl(s, And(Eq(sa, 0), Eq(sb, 0)), 'allocation: no stream of a port is replaced')
            shared(r, s, na, nb, fi)
            r.obl(s, len(s.ghost['kept']) == 1 and Eq(s.ghost['kept'][0], fi), 'allocation: the stream is freed with the allocator')
    return r


# ===================================================================== graph traversal
EBFS = r'^GraphTools::__BFS\(.*std::function<void \(PortInfo&, PortInfo&, void\*\)>, void\*, bool\)$'
VBFS = r'^GraphTools::__BFS\(.*std::function<void \(raft::kernel\*, void\*\)>, void\*\)$'
KQ = r'std::queue<raft::kernel\*, .*>>>::'


class Graph(Linked):
    """every port of every kernel is linked, both ends know each other (link, checkEdges).
    INQ: kernels in the queue, VISD: kernels in the visited set, FN: times the function was called for an
    output port / a kernel.  REACH is any set of kernels closed under links that contains the sources."""

    def setup(self, ex):
        st = super().setup(ex)
        g = st.ghost
        Z = z3.IntSort()
        self.REACH, self.FAR = z3.Function('REACH', Z, Z), z3.Function('FAR', Z, Z)
        g['INQ'] = ABase('INQ', 1)
        g['VISD'] = ABase('INQ', 1)     # at the start the queue holds exactly what is marked visited
        g['FN'] = AConst(0)
        g['FK'] = AConst(0)
        g['qn'] = ex.sym('qn')
        g['front'] = 0
        g['nf'] = ex.sym('nf')
        g['lock'] = 0
        self.q = ex.sym('k!any')         # any kernel
        self.w = ex.sym('port!any', None)       # any output port
        self.kax(st, self.q)
        return st

    def qterms(self):
        o = self.owner(self.w)
        return (o, self.other(self.st0, self.w))

    def node_axioms(self, st, nd):
        RT.node_axioms(self, st, nd)
        ex = self.ex
        if not isz(nd) or ('gr', nd.get_id()) in ex._axseen:
            return
        Map.node_axioms(self, st, nd)
        ex._axseen.add(('gr', nd.get_id()))
        n = self.st0.ghost['N'].select(ex, self.fOWN(nd))
        real = z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n, self.fOWN(nd) % 2 == 1)
        o = self.info(self.st0, nd, 'OTHERKERNEL')
        o = o.idx if isinstance(o, Ptr) else o
        far = self.st0.ghost['look'].select(ex, self.lookkey(2 * o, self.info(self.st0, nd, 'OTHERNAME')))
        ex.axiom(z3.Implies(real, z3.And(o > 0, far == self.FAR(nd), far > 0)))
        me = (self.fOWN(nd) - 1) / 2
        ex.axiom(z3.Implies(z3.And(real, self.REACH(me) == 1), self.REACH(o) == 1))
        self.kax(self.st0, o)
        self.kax(self.st0, me)

    def kax(self, st, k):
        ex = self.ex
        if isz(k) and ('ka', k.get_id()) not in ex._axseen:
            ex._axseen.add(('ka', k.get_id()))
            ex.axiom(z3.Implies(self.st0.ghost['INQ'].select(ex, k) != 0, self.REACH(k) == 1) if hasattr(self, 'st0') else True)

    def other(self, s, nd):
        v = self.info(s, nd, 'OTHERKERNEL')
        return v.idx if isinstance(v, Ptr) else v

    def inq(self, s, k):
        return Ne(toint(self.gsel(s, 'INQ', k)), 0)

    def vis(self, s, k):
        return Ne(toint(self.gsel(s, 'VISD', k)), 0)

    def isport(self, nd):
        self.node_axioms(self.st0, nd)
        return And(nd > 0, Le(0, self.fPOS(nd)), Lt(self.fPOS(nd), self.st0.ghost['N'].select(self.ex, self.fOWN(nd))), Eq(self.fOWN(nd) % 2, 1),
                   Eq(self.node(self.st0, self.fOWN(nd), self.fPOS(nd)), nd))

    def owner(self, nd):
        return (self.fOWN(nd) - 1) / 2

    def other_lock(self, ex, st, p, loc):
        if not (isinstance(p, Ptr) and p.r is self.K and p.off == self.C.K_OUTPUT + self.C.P_MUTEX):
            raise Unsupported('mutex %r' % (p,))
        s, s2 = st.clone(), st.clone()
        ex.oblige(s, Eq(s.ghost['lock'], 0), '[C14] traversal: the lock of a port container is not taken twice', loc)
        self.setg(s, 'lock', p.idx)
        return [(s, 'ret', 1), (s2, 'ret', 0)]

    def other_unlock(self, ex, st, p, loc):
        ex.oblige(st, Eq(st.ghost['lock'], p.idx), '[C14] traversal: only a held lock is released', loc)
        self.setg(st, 'lock', 0)
        return None

    def pre_contracts(self, add):
        rt = self

        def qn(st):
            n = st.ghost['qn']
            return n

        def size(ex, st, a, loc):
            n = st.ghost['qn']
            ex.assume(st, And(Le(0, n), Implies(Eq(n, 0), Not(rt.inq(st, rt.q)))))
            for x in rt.qterms():
                ex.assume(st, Implies(Eq(n, 0), Not(rt.inq(st, x))))
            return n

        def nextf(ex, st):
            # the kernel at the front: any queued kernel ('nf' names it before it is looked at)
            n = ex.fresh('front')
            nf = st.ghost['nf']
            ex.assume(st, And(n > 0, rt.inq(st, n), Eq(n, If(Ne(st.ghost['front'], 0), st.ghost['front'], nf))))
            rt.kax(st, n)
            return n

        def front(ex, st, a, loc):
            ex.oblige(st, Lt(0, st.ghost['qn']), 'mem:front of an empty queue', loc, 'mem')
            f = nextf(ex, st)
            rt.setg(st, 'front', f)
            r = Region('front', size=8)
            st.cells(r)[0] = (8, Ptr(rt.K, f, 0))
            return Ptr(r)

        def pop(ex, st, a, loc):
            ex.oblige(st, Lt(0, st.ghost['qn']), 'mem:pop of an empty queue', loc, 'mem')
            f = nextf(ex, st)
            rt.setg(st, 'nf', ex.fresh('nf'))
            rt.gput(st, 'INQ', f, 0)
            rt.setg(st, 'qn', st.ghost['qn'] - 1)
            rt.setg(st, 'front', 0)
            return None

        def push(ex, st, a, loc):
            k = rt.kptr(ex.load(st, a[1], PTR, loc))
            ex.oblige(st, Not(rt.inq(st, k)), '[C14] traversal: a kernel is queued at most once', loc)
            rt.gput(st, 'INQ', k, 1)
            rt.setg(st, 'qn', st.ghost['qn'] + 1)
            return None
        add('^' + KQ + r'size\(\)', 'std::queue', size)
        add('^' + KQ + r'empty\(\)', 'std::queue', lambda ex, st, a, loc: Eq(size(ex, st, a, loc), 0))
        add('^' + KQ + r'front\(\)', 'std::queue', front)
        add('^' + KQ + r'pop\(\)', 'std::queue', pop)
        add('(^| )' + KQ + r'(push\(|emplace)', 'std::queue', push)

        # visited set (local): find / end / insert
        def find_(ex, st, a, loc):
            k = ex.load(st, a[1], PTR, loc)
            k = k.idx if isinstance(k, Ptr) and k.r is not None else 0
            return Ptr(rt.VIT, If(rt.vis(st, k), k, 0), 0)

        def insert(ex, st, a, loc):
            rt.gput(st, 'VISD', rt.kptr(ex.load(st, a[1], PTR, loc)), 1)
            return [UNDEF, ex.fresh('ins', 1)]
        rt.VIT = Region('visited', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        add('^' + KS + r'find\(', 'std::set', find_)
        add('^' + KS + r'count\(', 'std::set', lambda ex, st, a, loc: If(rt.vis(st, rt.kptr(ex.load(st, a[1], PTR, loc))), 1, 0))
        add('^' + KS + r'c?end\(', 'std::set', lambda ex, st, a, loc: Ptr(rt.VIT, 0, 0))
        add('(^| )' + KS + r'(insert|emplace)', 'std::set', insert)
        SI = r'std::_Rb_tree_const_iterator<raft::kernel\*>'

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = ex.load(st, a[0], PTR, loc), ex.load(st, a[1], PTR, loc)
                r = Eq(x.idx, y.idx)
                return Not(r) if neg else r
            return f
        add(r'^std::operator!=\(' + SI, 'std::set iterator', cmp(True))
        add(r'^std::operator==\(' + SI, 'std::set iterator', cmp(False))

        def call_edge(ex, st, a, loc):
            s_, d_ = a[1], a[2]
            for x in (s_, d_):
                if not isinstance(x, Ptr) or x.r is not rt.NODES or x.off != rt.C.N_INFO:
                    raise Unsupported('edge %r' % (x,))
            ex.oblige(st, rt.isport(s_.idx), '[C14] traversal: links are visited from their output port', loc)
            ex.oblige(st, Eq(d_.idx, rt.FAR(s_.idx)), '[C14] traversal: an output port is visited together with the input port it is linked to', loc)
            rt.gput(st, 'FN', s_.idx, rt.gsel(st, 'FN', s_.idx) + 1)
            return None

        def call_vertex(ex, st, a, loc):
            k = rt.kptr(a[1])
            rt.gput(st, 'FK', k, rt.gsel(st, 'FK', k) + 1)
            return None
        add(r'^std::function<void \(PortInfo&, PortInfo&, void\*\)>::operator\(\)\(', 'edge function', call_edge)
        add(r'^std::function<void \(raft::kernel\*, void\*\)>::operator\(\)\(', 'vertex function', call_vertex)
        super().pre_contracts(add)

    plain_ghosts = ('nf', 'front', 'lock')

    # what holds between two kernels of the queue; cur: the kernel whose ports are being visited (0: none), at: ports before it are done
    def facts(self, s, cur, at, vertex, q=None):
        q, w = self.q if q is None else q, self.w
        o = self.owner(w)
        self.kax(s, o)
        isin = self.isport(w)
        donek = And(self.vis(s, o), Not(self.inq(s, o)))
        if cur is None:
            done = donek
        else:
            done = And(donek, Or(Ne(o, cur), Lt(self.fPOS(w), at)))
        out = [('queued kernels are visited', Implies(self.inq(s, q), self.vis(s, q))),
               ('queued kernels are visited (owner of the port)', Implies(self.inq(s, o), self.vis(s, o))),
               ('queued kernels are visited (far end of the port)', Implies(And(isin, self.inq(s, self.other(self.st0, w))), self.vis(s, self.other(self.st0, w)))),
               ('only reachable kernels are visited', Implies(self.vis(s, q), Eq(self.REACH(q), 1))),
               ('only reachable kernels are visited (owner of the port)', Implies(self.vis(s, o), Eq(self.REACH(o), 1))),
               ('sources stay visited', Implies(self.inq(self.st0, q), self.vis(s, q))),
               ('no lock is held', Eq(s.ghost['lock'], 0 if cur is None else cur)),
               ('nothing looked at in the queue', Eq(s.ghost['front'], 0)),
               ('far ends of visited kernels are visited', Implies(And(isin, done), self.vis(s, self.other(self.st0, w))))]
        if vertex:
            out.append(('each kernel done is visited once', Eq(self.gsel(s, 'FK', q), If(And(self.vis(s, q), Not(self.inq(s, q))), 1, 0))))
        else:
            out.append(('each port done is visited once', Implies(isin, Eq(self.gsel(s, 'FN', w), If(done, 1, 0)))))
        return out


# the facts about every kernel q (the others are about the port w)
SHARED = ('queued kernels are visited', 'only reachable kernels are visited')


def bfs(mod, vertex):
    r = MRun(mod, ('ports',), Graph)
    f, ex = r.f, r.ex

    def cands(ex, fn, entry, hav, fr):
        out = []
        its = [key for key, old, new in hav if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r is f.NODES and old.off == 0]
        if not its:
            for n, g in f.facts(entry, None, None, vertex):
                out.append(symex.Cand('queue loop: ' + n, lambda ex, s, e, g_, f0, n=n: dict(f.facts(s, None, None, vertex))[n],
                                       (lambda ex, s, e, g_, f0, n=n: dict(f.facts(s, None, None, vertex, s.ghost['nf']))[n]) if n in SHARED else None))
        for key in its:
            def at(ex, s, g, key=key):
                v = symex.cur(ex, s, key, g)
                if not isinstance(v, Ptr) or v.r is not f.NODES:
                    raise Unsupported('cand')
                return v.idx
            def fact(s, n, a, q=None):
                f.node_axioms(f.st0, a)
                return dict(f.facts(s, f.owner(a), f.fPOS(a), vertex, q and q(a)))[n]
            for n, _ in f.facts(entry, z3.Int('dummy'), 0, vertex):
                out.append(symex.Cand('port loop: ' + n, lambda ex, s, e, g, g0, n=n, at=at: fact(s, n, at(ex, s, g)),
                                      (lambda ex, s, e, g, g0, n=n, at=at: fact(s, n, at(ex, s, g), lambda a: f.other(f.st0, a))) if n in SHARED else None))
            out.append(symex.Cand('port loop: the kernel was taken from the queue', lambda ex, s, e, g, g0, at=at:
                                  And(f.vis(s, f.owner(at(ex, s, g))), Not(f.inq(s, f.owner(at(ex, s, g)))), Eq(f.fOWN(at(ex, s, g)) % 2, 1), f.owner(at(ex, s, g)) > 0)))
        return out
    f.extra_cands = [cands]
    ex.no_unroll = True
    rx = VBFS if vertex else EBFS
    qr, vr, fr = Region('queue', size=80), Region('visited_set', size=48), Region('func', size=32)
    args = [Ptr(qr), Ptr(vr), Ptr(fr), NULL] + ([] if vertex else [0])
    for s, k, v in r.call(rx, args):
        what = 'traversal of %s: ' % ('kernels' if vertex else 'links')
        if k == 'exc':
            r.obl(s, False, what + 'throws nothing on a connected application')
            continue
        q, w = f.q, f.w
        o = f.owner(w)
        r.obl(s, Implies(f.inq(r.st, q), f.vis(s, q)), what + 'every source kernel is visited')
        r.obl(s, Implies(f.vis(s, q), Eq(f.REACH(q), 1)), what + 'only kernels reachable from the sources are visited')
        r.obl(s, Implies(And(f.isport(w), f.vis(s, o)), f.vis(s, f.other(r.st, w))), what + 'every kernel linked to a visited one is visited')
        if vertex:
            r.obl(s, Eq(f.gsel(s, 'FK', q), If(f.vis(s, q), 1, 0)), what + 'every reachable kernel is visited exactly once')
        else:
            r.obl(s, Implies(f.isport(w), Eq(f.gsel(s, 'FN', w), If(f.vis(s, o), 1, 0))), what + 'every link of a reachable kernel is visited exactly once')
        r.obl(s, Eq(s.ghost['lock'], 0), what + 'no lock is left taken')
        r.unchanged(s, what + 'the application is not changed')
    return r


TASKS = [('map.keeper_add', t_keeper_add, {'C14'}, 1), ('map.join', t_join, {'C14'}, 1), ('map.updateKernels', t_update, {'C14'}, 1),
         ('map.link_in', t_link_in, {'C14'}, 2), ('map.link_out', t_link_out, {'C14'}, 2),
         ('pair.tail', t_tail, {'C14'}, 1), ('pair.setHead', t_setHead, {'C14'}, 1)]
TASKS += [('pair.%s%s%s' % (a, op, b), (lambda mod, op=op, a=a, b=b: operator(mod, op, a, b)), {'C14'}, 1) for op, a, b in OPS]
TASKS += [('pair.%s>>out>>%s' % (a, b), (lambda mod, a=a, b=b: ooo_operator(mod, a, b)), {'C14'}, 1) for a, b in OOO]
TASKS += [('kpair(%s,%s%s)' % (a, b, ',split,join' if fl else ''), (lambda mod, a=a, b=b, fl=fl: constructor(mod, a, b, fl)), {'C14'}, 1) for a, b, fl in CTORS]
TASKS += [('kernel.getEnabledPort', t_enabled, {'C14'}, 1), ('kernel.index_rv', lambda mod: index(mod, True), {'C14'}, 1), ('kernel.index_lv', lambda mod: index(mod, False), {'C14'}, 1),
          ('map.joink', t_joink, {'C14'}, 1), ('kernel.allConnected', lambda mod: connected(mod, 'all'), {'C14'}, 1),
          ('kernel.unconnected_in', lambda mod: connected(mod, 'one', 0), {'C14'}, 1), ('kernel.unconnected_out', lambda mod: connected(mod, 'one', 1), {'C14'}, 1),
          ('map.checkEdges', t_checkEdges, {'C14'}, 1)]
TASKS += [('alloc.initialize', t_initialize, {'C14'}, 1), ('alloc.allocate', t_allocate, {'C14'}, 1),
          ('graph.links', lambda mod: bfs(mod, False), {'C14'}, 3), ('graph.kernels', lambda mod: bfs(mod, True), {'C14'}, 3)]
OWN_TASKS = ('pair.', 'kpair(', 'alloc.', 'map.updateKernels', 'map.keeper_add')
TASKS = [(n, f, p | {'C19'} if n.startswith(OWN_TASKS) else p, c) for n, f, p, c in TASKS]
