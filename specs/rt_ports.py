"""C13: port containers - declared names, types, lookup, iteration (model: rt.py)."""
import re
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, State, ABase, AConst, AStore, Contract, Exec,
                   And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, FnVal)
from fifo import I64, I32, I8
from fifo_ops import find
from rt import RT, C_, strlit, STR
from rt_ops import present, post

SH = r'std::(shared_ptr|__shared_ptr_access|__shared_ptr)<.*function<FIFO\* '
INSTR = r'std::map<bool, std::function<FIFO\* \(unsigned long, unsigned long, void\*\)>'
FMAP = r'std::map<Type::RingBufferType, std::shared_ptr<'
INFO = ('FIFOA', 'FIFOB', 'TYPE', 'CONSTMAP', 'SPLIT', 'JOIN', 'MYKERNEL', 'MYNAME', 'OTHERKERNEL', 'OTHERNAME', 'OOO', 'EXISTING', 'NITEMS', 'START', 'FIXED')


class Ports(RT):
    """an arbitrary kernel k with an arbitrary set of ports on one side (0 input, 1 output)"""

    def __init__(self, mod, side, linked=False):
        super().__init__(mod)
        self.side, self.linked = side, linked

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.k = ex.sym('k')
        ex.assume(st, self.k > 0)
        self.m = 2 * self.k + self.side
        self.p = ex.sym('p!any', None)
        self.n0 = self.N(st, self.m)
        ex.axiom(z3.And(self.n0 >= 0))
        g = st.ghost
        g['VIS'] = AConst(0)
        g['heapmap'] = ABase('HEAPMAP', 8)
        for b in (0, 1):
            g['inst%d' % b] = ABase('INST%d' % b, 8)
        self.INSTR = Region('factories', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        self.fnids = {}
        self.known = []
        self.ids = []
        return st

    def node_axioms(self, st, nd):
        super().node_axioms(st, nd)
        if self.linked and isz(nd) and ('lnk', nd.get_id()) not in self.ex._axseen:
            self.ex._axseen.add(('lnk', nd.get_id()))
            n = self.st0.ghost['N'].select(self.ex, self.fOWN(nd))
            self.ex.axiom(z3.Implies(z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n), self.FA.select(self.ex, nd) > 0))

    def known_nodes(self, ex):
        return self.known + self.news

    def newid(self, ex, st, what):
        v = ex.fresh(what)
        ex.assume(st, v > 0)
        for o in self.ids:
            ex.assume(st, v != o)
        self.ids = self.ids + [v]
        return v

    def this(self):
        return Ptr(self.K, self.k, self.C.K_OUTPUT if self.side else self.C.K_INPUT)

    def string(self, st, v, name='name'):
        r = Region(name, size=32)
        st.cells(r)[0] = (8, v)
        return Ptr(r)

    def ti(self, name):
        p = self.ex.global_ptr(name)
        return self.ex.global_load(self.st0, p.r, 0, PTR)

    def fnid(self, v):
        """identity of a function or callable type"""
        key = v.name if isinstance(v, FnVal) else v
        return self.fnids.setdefault(key, (1 << 41) + len(self.fnids))

    def pre_contracts(self, add):
        rt = self

        def visit(ex, st, a, loc):
            f = a[0].idx
            rt.gput(st, 'VIS', f, rt.gsel(st, 'VIS', f) + 1)
            return None

        def visit_named(ex, st, a, loc):
            f = a[0].idx
            rt.gput(st, 'VIS', f, rt.gsel(st, 'VIS', f) + 1)
            key = ex.load(st, a[1], I64, loc)
            nd = rt.lookup(st, rt.m, key)
            ex.oblige(st, And(Ne(nd, 0), Eq(rt.stream(st, nd), f)), '[C13] iteration shows each stream together with its own port name', loc)
            return None
        add(r'^vf_visit$', 'user code called for each port', visit)
        add(r'^vf_visit_named$', 'user code called for each port', visit_named)

        # factory maps: id -> shared factory table -> make function per "instrumented" flag
        def fm_ctor(ex, st, a, loc):
            v = rt.newid(ex, st, 'fmap')
            rt.gput(st, 'heapmap', v, 0)
            ex.store(st, a[0], I64, v, loc)
            return None

        def mkshared(ex, st, a, loc):
            v = rt.newid(ex, st, 'ftab')
            for b in (0, 1):
                rt.gput(st, 'inst%d' % b, v, 0)
            ex.store(st, a[0], I64, v, loc)
            return None

        def shcopy(ex, st, a, loc):
            ex.store(st, a[0], I64, ex.load(st, a[1], I64, loc), loc)
            return a[0]

        def fm_insert(ex, st, a, loc):
            ty = ex.load(st, a[1], I32, loc)
            sp = ex.load(st, Ptr(a[1].r, a[1].idx, a[1].off + 8), I64, loc)
            if ty != rt.C.V_HEAP:
                raise Unsupported('factory for buffer type %r' % (ty,))
            v = ex.load(st, a[0], I64, loc)
            old = rt.gsel(st, 'heapmap', v)
            rt.gput(st, 'heapmap', v, If(Eq(old, 0), sp, old))
            return [UNDEF, If(Eq(old, 0), 1, 0)]

        def fm_index(ex, st, a, loc):
            ty = ex.load(st, a[1], I32, loc)
            if ty != rt.C.V_HEAP:
                raise Unsupported('factory for buffer type %r' % (ty,))
            r = Region('factory slot', size=16)
            st.cells(r)[0] = (8, rt.gsel(st, 'heapmap', ex.load(st, a[0], I64, loc)))
            return Ptr(r)

        def arrow(ex, st, a, loc):
            v = ex.load(st, a[0], I64, loc)
            ex.oblige(st, Lt(0, v), 'mem:factory table exists', loc, 'mem')
            return Ptr(rt.INSTR, v, 0)

        def i_insert(ex, st, a, loc):
            v = a[0].idx
            b = ex.load(st, a[1], I8, loc)
            f = ex.load(st, Ptr(a[1].r, a[1].idx, a[1].off + 8), PTR, loc)
            if isz(b) or not isinstance(f, FnVal):
                raise Unsupported('factory entry %r %r' % (b, f))
            n = 'inst%d' % (b & 1)
            old = rt.gsel(st, n, v)
            rt.gput(st, n, v, If(Eq(old, 0), rt.fnid(f), old))
            return [UNDEF, If(Eq(old, 0), 1, 0)]
        M = '^' + FMAP
        add(M + r'.*::map\(\)$', 'factory map', fm_ctor)
        add(r'^std::shared_ptr<.*> std::make_shared<' + INSTR, 'std::make_shared', mkshared)
        add(r'^std::shared_ptr<' + INSTR + r'.*>::shared_ptr\(std::shared_ptr<.*>(&&| const&)\)$', 'std::shared_ptr', shcopy)
        add(r'^std::shared_ptr<' + INSTR + r'.*>::~shared_ptr\(\)$', 'std::shared_ptr', lambda ex, st, a, loc: None)
        add(r'^std::__shared_ptr_access<' + INSTR + r'.*::operator(->|\*)\(\) const$', 'std::shared_ptr', arrow)
        add('(^| )' + FMAP + r'.*>::(insert|emplace)<', 'factory map', fm_insert)
        add('^' + FMAP + r'.*>::operator\[\]\(', 'factory map', fm_index)
        add('(^| )' + INSTR + r'.*>::(insert|emplace)<', 'factory map', i_insert)

        def lam(d):
            def f(ex, st, a, loc):
                ex.store(st, a[0], I64, rt.fnid(d), loc)
                return a[0]
            return f
        # std::function = lambda: identified by the lambda
        for n, d in self.mod.dem.items():
            m = re.search(r"std::function<raft::kernel\* \(\)>::(operator=|function)<(?:void )?(Port::initialize\w+<[^()]*>\(PortInfo&\)::'lambda\d*'\(\))(, void)?>\(", d)
            if m:
                add('^' + re.escape(d) + '$', 'std::function', lam(m.group(2)))


TAG = 'C13'


class PRun:
    def __init__(self, mod, side, linked=False):
        self.mod = mod
        f = self.f = Ports(mod, side, linked)
        ex = self.ex = Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)
        self.init_globals()

    def init_globals(self):
        """run the dynamic initialiser of raft::null_port_value"""
        name = '_ZN4raftL15null_port_valueB5cxx11E'
        for fn in self.mod.funcs.values():
            if fn.name.startswith('__cxx_global_var_init') and any(name in l for l in fn.lines):
                outs = self.ex.run_function(fn, [], self.st)
                if len(outs) != 1 or outs[0][1] != 'ret':
                    raise Unsupported('initialiser of null_port_value')
                self.st = outs[0][0]

    def call(self, rx, args, st=None):
        fn = find(self.mod, rx)
        self.ex.cur = self.mod.dem[fn.name]
        return self.ex.run_function(fn, args, (st or self.st).clone())

    def obl(self, s, g, name):
        self.ex.oblige(s, g, '[%s] ' % TAG + name)

    def unchanged(self, s, what, fields=INFO):
        """no port of any container changed"""
        f = self.f
        q = self.ex.sym('q!any', None)
        m = self.ex.sym('m!any', None)
        for n in fields:
            a, b = f.info(self.st, q, n), f.info(s, q, n)
            self.obl(s, sameval(a, b), '%s: leaves every port as it was (%s)' % (what, n.lower()))
        self.obl(s, Eq(f.N(s, m), f.N(self.st, m)), '%s: adds and removes no port' % what)


def sameval(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is not b.r:
            return False if (a.r is not None and b.r is not None) else And(Eq(a.idx if a.r else 0, 0), Eq(b.idx if b.r else 0, 0))
        return Eq(a.idx, b.idx)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        p, v = (a, b) if isinstance(a, Ptr) else (b, a)
        return Eq(p.idx if p.r is not None else 0, v)
    return Eq(toint(a), toint(b))


def exc_is(f, v, ti):
    t = f.ti(ti)
    return v.get('type') == t.r.meta.get('global')


def simple(mod, side, rx, args, what, check, linked=False):
    r = PRun(mod, side, linked)
    for s, k, v in r.call(rx, args(r)):
        if k == 'exc':
            r.obl(s, False, what + ': throws nothing')
        else:
            check(r, s, v)
            r.unchanged(s, what)
    return r


def t_hasPorts(mod, side=0):
    return simple(mod, side, r'^Port::hasPorts\(\)$', lambda r: [r.f.this()], 'hasPorts',
                  lambda r, s, v: r.obl(s, Eq(toint(v), If(Lt(0, r.f.n0), 1, 0)), 'hasPorts tells whether any port was declared'))


def t_count(mod, side=0):
    return simple(mod, side, r'^Port::count\(\)$', lambda r: [r.f.this()], 'count',
                  lambda r, s, v: r.obl(s, Eq(v, r.f.n0), 'count is the number of declared ports'))


def itout(r):
    reg = Region('iterator', size=8)
    return reg, Ptr(reg)


def itnode(r, s, v):
    if isinstance(v, Ptr) and v.r is r.f.NODES:
        return v.idx
    raise Unsupported('iterator value %r' % (v,))


def t_begin(mod, side=0):
    return simple(mod, side, r'^Port::begin\(\)$', lambda r: [r.f.this()], 'begin',
                  lambda r, s, v: r.obl(s, Eq(itnode(r, s, v), r.f.node(s, r.f.m, 0)), 'begin is the first port (or the end)'))


def t_end(mod, side=0):
    return simple(mod, side, r'^Port::end\(\)$', lambda r: [r.f.this()], 'end',
                  lambda r, s, v: r.obl(s, Eq(itnode(r, s, v), r.f.node(s, r.f.m, r.f.n0)), 'end is past the last port'))


def it_at(r, pos):
    reg = Region('iterator', size=8)
    r.st.cells(reg)[0] = (8, Ptr(r.f.NODES, r.f.node(r.st, r.f.m, pos), 0))
    return reg


def t_iter_index(mod, side=0):
    """PortIterator( map, index )"""
    r = PRun(mod, side)
    i = r.ex.sym('index')
    r.ex.assume(r.st, And(Le(0, i), Le(i, r.f.n0)))
    reg = Region('iterator', size=8)
    this = r.f.this()
    for s, k, v in r.call(r'^PortIterator::PortIterator\(portmap_t\*, unsigned long\)$', [Ptr(reg), Ptr(this.r, this.idx, this.off + r.f.C.P_PORTMAP), i]):
        if k == 'exc':
            r.obl(s, False, 'PortIterator: throws nothing')
            continue
        r.obl(s, Eq(itnode(r, s, r.ex.load(s, Ptr(reg), PTR)), r.f.node(s, r.f.m, i)), 'the iterator for an index is at that port')
    return r


def t_iter_inc(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    i = r.ex.sym('pos')
    r.ex.assume(r.st, And(Le(0, i), Lt(i, f.n0)))
    reg = it_at(r, i)
    for s, k, v in r.call(r'^PortIterator::operator\+\+\(\)$', [Ptr(reg)]):
        if k == 'exc':
            r.obl(s, False, '++: throws nothing')
            continue
        r.obl(s, Eq(itnode(r, s, r.ex.load(s, Ptr(reg), PTR)), f.node(s, f.m, i + 1)), '++ moves to the next port')
        r.obl(s, isinstance(v, Ptr) and v.r is reg, '++ returns the iterator itself')
        r.unchanged(s, '++')
    return r


def t_iter_cmp(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    i, j = r.ex.sym('pos'), r.ex.sym('pos2')
    r.ex.assume(r.st, And(Le(0, i), Le(i, f.n0), Le(0, j), Le(j, f.n0)))
    a, b = it_at(r, i), it_at(r, j)
    for op, neg in (('==', False), ('!=', True)):
        if not present(mod, r'^PortIterator::operator%s\(' % op):
            continue
        for s, k, v in r.call(r'^PortIterator::operator%s\(' % op, [Ptr(a), Ptr(b)]):
            if k == 'exc':
                r.obl(s, False, op + ': throws nothing')
                continue
            r.obl(s, Eq(toint(v), If(Eq(i, j), 0 if neg else 1, 1 if neg else 0)), 'iterators are equal exactly when they are at the same port (%s)' % op)
    return r


def t_iter_deref(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    i = r.ex.sym('pos')
    r.ex.assume(r.st, And(Le(0, i), Lt(i, f.n0)))
    a = it_at(r, i)
    nd = f.node(r.st, f.m, i)
    for s, k, v in r.call(r'^PortIterator::operator\*\(\)', [Ptr(a)]):
        if k == 'exc':
            r.obl(s, False, '*: throws nothing')
            continue
        r.obl(s, And(v.r is f.FIFO, Eq(v.idx, f.stream(s, nd))), "the iterator yields the stream of its own port")
        r.unchanged(s, '*')
    for s, k, v in r.call(r'^PortIterator::name(\[abi:cxx11\])?\(\)', [Ptr(a)]):
        if k == 'exc':
            r.obl(s, False, 'name: throws nothing')
            continue
        r.obl(s, Eq(r.ex.load(s, v, I64), f.key(s, nd)), "the iterator names its own port")
    return r


def keyed(mod, side, rx, what, good, byval=False):
    """lookup by name: found -> that port, else PortNotFoundException"""
    r = PRun(mod, side)
    f = r.f
    key = r.ex.sym('key')
    r.ex.assume(r.st, Le(0, key))
    for s, k, v in r.call(rx, [f.this(), f.string(r.st, key)]):
        nd = f.lookup(s, f.m, key)
        if k == 'exc':
            r.obl(s, Eq(nd, 0), what + ': fails only for a name that was not declared')
            r.obl(s, exc_is(f, v, 'TI_PNF'), what + ': an unknown name is reported by PortNotFoundException')
        else:
            r.obl(s, Ne(nd, 0), what + ': an unknown name is reported, not answered')
            good(r, s, v, nd)
        r.unchanged(s, what)
    return r


def is_info(r, v, nd, extra=0):
    return And(isinstance(v, Ptr) and v.r is r.f.NODES and v.off == r.f.C.N_INFO + extra, Eq(v.idx, nd) if isinstance(v, Ptr) else False)


def t_index_rv(mod, side=0):
    return keyed(mod, side, r'^Port::operator\[\]\(.* const&&\)$', 'operator[]',
                 lambda r, s, v, nd: r.obl(s, And(v.r is r.f.FIFO, Eq(v.idx, r.f.stream(s, nd))), 'operator[]: gives the stream of the port declared under that name'))


def t_index_lv(mod, side=0):
    return keyed(mod, side, r'^Port::operator\[\]\(.* const&\)$', 'operator[]',
                 lambda r, s, v, nd: r.obl(s, And(v.r is r.f.FIFO, Eq(v.idx, r.f.stream(s, nd))), 'operator[]: gives the stream of the port declared under that name'))


def t_getPortType(mod, side=0):
    return keyed(mod, side, r'^Port::getPortType\(', 'getPortType',
                 lambda r, s, v, nd: r.obl(s, Eq(r.ex.load(s, v, I64), r.f.info(s, nd, 'TYPE')), 'getPortType: the type is that of the port declared under that name'))


def t_getPortInfoFor(mod, side=0):
    return keyed(mod, side, r'^Port::getPortInfoFor\(', 'getPortInfoFor',
                 lambda r, s, v, nd: r.obl(s, is_info(r, v, nd), 'getPortInfoFor: gives the port declared under that name'))


def t_getPortInfo(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    for s, k, v in r.call(r'^Port::getPortInfo\(\)$', [f.this()]):
        if k == 'exc':
            r.obl(s, Ne(f.n0, 1), 'getPortInfo: a single port is found')
            r.obl(s, Implies(Eq(f.n0, 0), exc_is(f, v, 'TI_PNF')), 'getPortInfo: no port at all is reported by PortNotFoundException')
            r.obl(s, Implies(Lt(1, f.n0), exc_is(f, v, 'TI_AMB')), 'getPortInfo: several ports are reported by AmbiguousPortAssignmentException')
        else:
            r.obl(s, Eq(f.n0, 1), 'getPortInfo: answers only when there is exactly one port')
            r.obl(s, is_info(r, v, f.node(s, f.m, 0)), 'getPortInfo: gives the one port')
        r.unchanged(s, 'getPortInfo')
    return r


def t_getFIFO(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    nd = f.node(r.st, f.m, f.p)
    r.ex.assume(r.st, And(Le(0, f.p), Lt(f.p, f.n0)))
    for s, k, v in r.call(r'^PortInfo::getFIFO\(\)$', [Ptr(f.NODES, nd, f.C.N_INFO)]):
        if k == 'exc':
            r.obl(s, False, 'getFIFO: throws nothing')
            continue
        r.obl(s, And(v.r is f.FIFO, Eq(v.idx, f.stream(s, nd))), 'getFIFO: the stream that was set')
        r.unchanged(s, 'getFIFO')
    return r


def t_setFIFO(mod, side=0):
    r = PRun(mod, side)
    f, ex = r.f, r.ex
    nd = f.node(r.st, f.m, f.p)
    r.ex.assume(r.st, And(Le(0, f.p), Lt(f.p, f.n0)))
    new = ex.sym('newfifo')
    ex.assume(r.st, new > 0)
    q = ex.sym('q!any', None)
    for s, k, v in r.call(r'^PortInfo::setFIFO\(', [Ptr(f.NODES, nd, f.C.N_INFO), Ptr(f.FIFO, new, 0)]):
        if k == 'exc':
            r.obl(s, False, 'setFIFO: throws nothing')
            continue
        for n in ('FIFOA', 'FIFOB'):
            r.obl(s, Eq(f.info(s, nd, n), new), 'setFIFO: the stream is the one given')
            r.obl(s, Implies(Ne(q, nd), Eq(f.info(s, q, n), f.info(r.st, q, n))), 'setFIFO: leaves other ports alone')
        r.unchanged(s, 'setFIFO', [n for n in INFO if n not in ('FIFOA', 'FIFOB')])
        for s2, k2, v2 in r.ex.run_function(find(mod, r'^PortInfo::getFIFO\(\)$'), [Ptr(f.NODES, nd, f.C.N_INFO)], s.clone()):
            r.obl(s2, k2 == 'ret' and Eq(v2.idx, new), 'getFIFO: the stream that was set')
    return r


def t_iterate(mod, side=0, named=False):
    r = PRun(mod, side, linked=True)
    f, ex = r.f, r.ex
    nv = lambda s, nd: f.gsel(s, 'VIS', f.stream(s, nd))
    f.portpreds = [('visited once', lambda ex, s, e, nd, p: Eq(nv(s, nd), 1))]

    def rest(ex, fn, entry, hav, fr):
        out = []
        for key, old, new in hav:
            if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r is f.NODES and old.off == 0:
                def at(ex, s, g, key=key):
                    v = symex.cur(ex, s, key, g)
                    if not isinstance(v, Ptr) or v.r is not f.NODES:
                        raise Unsupported('cand')
                    return v.idx
                out.append(symex.Cand('ports after it are not visited', lambda ex, s, e, g, g0, at=at:
                                      Implies(And(Le(f.fPOS(at(ex, s, g)), f.p), Lt(f.p, f.n0)), Eq(nv(s, f.node(s, f.m, f.p)), 0))))
                out.append(symex.Cand('port at it is not visited', lambda ex, s, e, g, g0, at=at:
                                      Implies(Lt(f.fPOS(at(ex, s, g)), f.n0), Eq(nv(s, at(ex, s, g)), 0))))
        return out
    f.extra_cands = [rest]
    # the streams of the container are pairwise different: stream -> port is a function (IN_OF/OUT_OF)
    for s, k, v in r.call(r'^vf_iterate_names$' if named else r'^vf_iterate$', [f.this()]):
        if k == 'exc':
            r.obl(s, False, 'iteration: throws nothing')
            continue
        r.obl(s, Implies(And(Le(0, f.p), Lt(f.p, f.n0)), Eq(nv(s, f.node(s, f.m, f.p)), 1)), 'iteration visits every port exactly once')
        r.unchanged(s, 'iteration')
    return r


def t_iterate_names(mod, side=0):
    return t_iterate(mod, side, True)


# ---------------------------------------------------------------- declaring ports
def added(r, s, key, q, what, others, n_new):
    """state after declaring `key`"""
    f = r.f
    nd = f.lookup(s, f.m, key)
    O = lambda g, n: r.obl(s, g, '%s: %s' % (what, n))
    O(Ne(nd, 0), 'the port can be found under its name')
    O(Eq(f.key(s, nd), key), 'the port has its name')
    O(Eq(f.info(s, nd, 'TYPE'), f.typeid(f.ti('TI_U64'))), 'the port has the declared element type')
    O(Eq(f.info(s, nd, 'MYKERNEL'), f.k), 'the port belongs to the kernel')
    O(Eq(f.info(s, nd, 'MYNAME'), key), 'the port knows its own name')
    O(Eq(f.info(s, nd, 'OTHERKERNEL'), 0), 'the port is not connected yet')
    O(Eq(f.info(s, nd, 'EXISTING'), 0), 'the port has no buffer of the user')
    O(And(Eq(f.info(s, nd, 'FIFOA'), 0), Eq(f.info(s, nd, 'FIFOB'), 0)), 'the port has no stream yet')
    O(Eq(f.info(s, nd, 'FIXED'), 0), 'the port has no fixed buffer size')
    tab = f.gsel(s, 'heapmap', f.info(s, nd, 'CONSTMAP'))
    O(Lt(0, tab), 'the port can make heap streams')
    for b in (0, 1):
        n = [x for x, d in r.mod.dem.items() if re.match(r'^RingBuffer(Base)?<unsigned long, \(Type::RingBufferType\)0, %s>::make_new_fifo\(' % ('true' if b else 'false'), d)]
        if len(n) == 1:
            O(Eq(f.gsel(s, 'inst%d' % b, tab), f.fnid(FnVal(n[0]))), 'streams the port makes hold the declared element type (%s)' % ('instrumented' if b else 'plain'))
    for fld, nm in (('SPLIT', 'initializeSplit'), ('JOIN', 'initializeJoin')):
        v = [i for kx, i in f.fnids.items() if nm + '<unsigned long>' in str(kx)]
        O(Or(*[Eq(f.info(s, nd, fld), i) for i in v]) if v else False, 'the port can make %s kernels of its element type' % fld.lower())


def declare(mod, side, rx, keys, what, lits=None):
    r = PRun(mod, side)
    f, ex = r.f, r.ex
    ks = [ex.sym(n) for n in keys] if lits is None else [strlit(x) for x in lits]
    q = ex.sym('q!old', None)          # any port that existed before
    k2 = ex.sym('key!any', None)       # any name
    ex.assume(r.st, And(q > 0, Le(0, f.fPOS(q)), Lt(f.fPOS(q), f.N(r.st, f.fOWN(q)))))
    for x in ks:
        if isz(x):
            ex.assume(r.st, Le(0, x))
    ex.assume(r.st, Le(0, k2))
    olds = [f.lookup(r.st, f.m, x) for x in ks]
    l2 = f.lookup(r.st, f.m, k2)
    f.known = [q, l2] + olds
    for x in f.known:
        f.node_axioms(r.st, x)
    n0 = f.n0
    present_ = Or(*[Ne(o, 0) for o in olds])
    if len(ks) == 2:
        present_ = Or(present_, Eq(ks[0], ks[1]))
    args = [f.this()] + ([f.string(r.st, x, 'name%d' % i) for i, x in enumerate(ks)] if lits is None else [])
    for s, k, v in r.call(rx, args):
        if k == 'exc':
            r.obl(s, present_, what + ': fails only when the name is already taken')
            r.obl(s, exc_is(f, v, 'TI_EXISTS'), what + ': a name declared twice is reported by PortAlreadyExists')
            r.obl(s, Implies(Ne(olds[0], 0), Eq(f.N(s, f.m), n0)), what + ': a refused declaration adds no port')
        else:
            r.obl(s, Not(present_), what + ': a name declared twice is reported')
            r.obl(s, Eq(f.N(s, f.m), n0 + len(ks)), what + ': one port more per declaration')
            for i, x in enumerate(ks):
                added(r, s, x, q, what, ks, len(ks))
            r.obl(s, Implies(And(*[Ne(k2, x) for x in ks]), Eq(f.lookup(s, f.m, k2), l2)), what + ': every other name finds what it found before')
        r.obl(s, Implies(Ne(l2, 0), Eq(f.lookup(s, f.m, k2), l2)), what + ': names declared before still find their ports')
        m2 = ex.sym('m!any', None)
        r.obl(s, Implies(Ne(m2, f.m), Eq(f.N(s, m2), f.N(r.st, m2))), what + ': other containers are not touched')
        for n in INFO:
            r.obl(s, sameval(f.info(s, q, n), f.info(r.st, q, n)), '%s: existing ports are not changed (%s)' % (what, n.lower()))
        r.obl(s, Eq(f.key(s, q), f.key(r.st, q)), '%s: existing ports keep their names' % what)
    return r


def t_addPort(mod, side=0):
    return declare(mod, side, r'^vf_add1$', ['key'], 'addPort')


def t_addPort2(mod, side=0):
    return declare(mod, side, r'^vf_add2$', ['key', 'key2'], 'addPort(a,b)')


def t_addPort_literals(mod, side=0):
    return declare(mod, side, r'^vf_addlit$', [], 'addPort("x","7")', ['x', '7'])


# ---------------------------------------------------------------- PortInfo
def info_of(r, s, reg, n):
    o = getattr(r.f.C, 'I_' + n)
    sz = r.f.NODES.fields[r.f.C.N_INFO + o][0]
    ptr = isinstance(r.f.NODES.fields[r.f.C.N_INFO + o][1], tuple)
    c = s.cells(reg).get(o)
    if c is None:
        raise Unsupported('PortInfo field %s is not initialised' % n)
    v = c[1]
    return toint(v) if not isinstance(v, Ptr) else v


def t_info_copy(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    q = r.ex.sym('q')
    r.ex.assume(r.st, And(q > 0))
    reg = Region('copy', size=f.C.I_SIZE)
    for s, k, v in r.call(r'^PortInfo::PortInfo\(PortInfo const&\)$', [Ptr(reg), Ptr(f.NODES, q, f.C.N_INFO)]):
        if k == 'exc':
            r.obl(s, False, 'PortInfo copy: throws nothing')
            continue
        for n in INFO:
            r.obl(s, sameval(info_of(r, s, reg, n), f.info(r.st, q, n)), 'a copied port description keeps %s' % n.lower())
        r.unchanged(s, 'PortInfo copy')
    return r


def t_info_ctor(mod, side=0):
    r = PRun(mod, side)
    f = r.f
    ti = r.ex.sym('type')
    buf, n, start = r.ex.sym('buf'), r.ex.sym('nitems'), r.ex.sym('start')
    for rx, args, inplace in ((r'^PortInfo::PortInfo\(std::type_info const&\)$', [], False),
                              (r'^PortInfo::PortInfo\(std::type_info const&, void\*, unsigned long, unsigned long\)$', [Ptr(f.BUF, buf, 0), n, start], True)):
        reg = Region('info', size=f.C.I_SIZE)
        for s, k, v in r.call(rx, [Ptr(reg), Ptr(f.TI, ti, 0)] + args):
            if k == 'exc':
                r.obl(s, False, 'PortInfo: throws nothing')
                continue
            g = lambda x: info_of(r, s, reg, x)
            r.obl(s, Eq(g('TYPE'), ti), 'a new port description has the declared type')
            for x in ('FIFOA', 'FIFOB', 'MYKERNEL', 'OTHERKERNEL', 'MYNAME', 'OTHERNAME', 'FIXED', 'OOO'):
                r.obl(s, sameval(g(x), NULL if x in ('FIFOA', 'FIFOB', 'MYKERNEL', 'OTHERKERNEL') else 0), 'a new port description has no %s' % x.lower())
            r.obl(s, sameval(g('EXISTING'), Ptr(f.BUF, buf, 0) if inplace else NULL), "a new port description holds the user's buffer, if any")
            r.obl(s, Eq(g('NITEMS'), n if inplace else 0), "a new port description holds the size of the user's buffer")
            r.obl(s, Eq(g('START'), start if inplace else 0), "a new port description holds the start index in the user's buffer")
    return r


LIST = ['hasPorts', 'count', 'begin', 'end', 'iter_index', 'iter_inc', 'iter_cmp', 'iter_deref', 'index_rv', 'index_lv', 'getPortType', 'getPortInfoFor',
        'getPortInfo', 'getFIFO', 'setFIFO', 'iterate', 'iterate_names', 'addPort', 'addPort2', 'addPort_literals']
LINKING = {'getPortInfo', 'getPortInfoFor', 'hasPorts', 'count'}      # C14 builds on these contracts


def tagged(n, s):
    def run(mod):
        global TAG
        TAG = 'C13,C14' if n in LINKING else 'C13'
        try:
            return globals()['t_' + n](mod, s)
        finally:
            TAG = 'C13'
    return run


TASKS = []
for _n in LIST:
    for _s in (0, 1):
        TASKS.append(('ports.%s.%s' % (('in', 'out')[_s], _n), tagged(_n, _s), {'C13', 'C14'} if _n in LINKING else {'C13'}, 1))
TASKS += [('ports.info_copy', t_info_copy, {'C13'}, 1), ('ports.info_ctor', t_info_ctor, {'C13'}, 1)]
