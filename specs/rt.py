"""Model of the run-time layer: kernels, port containers, ports, streams seen through their interface.

Kernels, port-map nodes and streams are elements of unbounded pools, addressed by an id (0 = null).
A port container is the pair (owner map m, 0 <= i < N(m)) -> node NODE(m,i); std::map's own code is
trusted and enters through contracts over this abstraction (begin, end, find, insert, iterators).
Strings, std::functions and type_infos are values with identity (copy, compare); their text/code is
not looked into.  Streams are seen through the interface contracts proved for heap streams: CNT[f]
unread elements, OPEN[f].
"""
import itertools
import re
import z3
import symex
from irparse import T, PTR
from symex import (Region, Ptr, NULL, UNDEF, State, Arr, ABase, AConst, AStore, Contract, Exec,
                   And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, FnVal, Undef)
from fifo import Consts, AFun, I64, I32, I8

STRBASE = 1 << 32
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
PMAP = r'^std::map<%s, PortInfo, std::less<%s>, std::allocator<std::pair<%s const, PortInfo>>>' % (STR, STR, STR)
PIT = r'std::_Rb_tree_iterator<std::pair<%s const, PortInfo>>' % STR
PCIT = r'std::_Rb_tree_const_iterator<std::pair<%s const, PortInfo>>' % STR


def strlit(s):
    """identity of a literal: decimal numerals are STRBASE + n, "" is 0"""
    if s == '':
        return 0
    if re.match(r'^(0|[1-9]\d*)$', s):
        return STRBASE + int(s)
    h = 0
    for c in s.encode():
        h = (h * 131 + c) % (STRBASE - 1)
    return 1 + h


def num(v):
    v = toint(v)
    if not isz(v) and not isinstance(v, int):
        raise Unsupported('not a number')
    return v


class C_(Contract):
    """contract given as a function (ex, st, args, loc) -> value | outcomes"""
    trusted = True

    def __init__(self, name, f, trusted=True):
        self.name, self.f, self.trusted = name, f, trusted

    def apply(self, ex, st, args, loc):
        r = self.f(ex, st, args, loc)
        if isinstance(r, list) and (not r or isinstance(r[0], tuple)):
            return r
        return [(st, 'ret', r)]


class RT:
    """hook object of the executor"""

    def __init__(self, mod):
        self.mod = mod
        self.C = C = Consts(mod)
        self.fNODE = z3.Function('NODE', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.fPOS = z3.Function('POS', z3.IntSort(), z3.IntSort())
        self.fOWN = z3.Function('OWNER', z3.IntSort(), z3.IntSort())
        self.fINP = z3.Function('IN_OF', z3.IntSort(), z3.IntSort())     # stream -> the input port it feeds
        self.fOUTP = z3.Function('OUT_OF', z3.IntSort(), z3.IntSort())   # stream -> the output port that fills it
        self.tids = {}
        self.nmaps = itertools.count(1)
        self.objmaps = {}
        self.invariants = []
        self.portpreds = []       # (name, f(ex, s, entry, nd)): properties of the ports already visited by a loop
        self.extra_cands = []
        self.seqs = {}            # region of an iterated sequence -> (length(st), [(name, pred(ex, s, entry, p))])
        self.mapver = False
        self.news = []

    # ------------------------------------------------------------------ initial state
    def setup(self, ex):
        C = self.C
        self.ex = ex
        st = State()
        self.TI = Region('type', kind='arr', stride=16, length=None, meta={'pool': True, 'autofields': False})
        self.BUF = Region('userbuffer', kind='arr', stride=1, length=None, meta={'pool': True, 'autofields': False})
        self.FIFO = Region('stream', kind='arr', stride=8, length=None, fields={0: (8, ('ptr', None))}, meta={'pool': True, 'autofields': False})
        self.K = Region('kernel', kind='arr', stride=C.K_SIZE, length=None, meta={'pool': True, 'autofields': False})
        self.NODES = Region('portnode', kind='arr', stride=C.N_SIZE, length=None, meta={'pool': True, 'autofields': False, 'ignore': (C.N_INFO,)})
        k = self.K.fields
        k[0] = (8, ('ptr', None))
        for o in (C.K_INPUT, C.K_OUTPUT):
            k[o] = (8, ('ptr', None))
            k[o + C.P_PORTMAP] = (8, ('ptr', None))
            k[o + C.P_KERNEL] = (8, ('ptr', self.K))
            k[o + C.P_ALLOC] = (8, ('ptr', self.BUF))
            k[o + C.P_ALLOCLEN] = (8, 'int')
        for o, n in ((C.K_INTERNAL, 1), (C.K_CORE, 8), (C.K_AFFINITY, 8), (C.K_SCHED, 1), (C.K_DUPEN, 1), (C.K_DUPCAND, 1), (C.K_ID, 8), (C.K_DONE, 1)):
            k[o] = (n, 'bool' if o in (C.K_INTERNAL, C.K_DUPEN, C.K_DUPCAND, C.K_DONE) else 'int')
        n = self.NODES.fields
        n[C.N_KEY] = (8, 'int')
        i = C.N_INFO
        n[i + C.I_FIFOA] = (8, ('ptr', self.FIFO))
        n[i + C.I_FIFOB] = (8, ('ptr', self.FIFO))
        for o in ('I_TYPE', 'I_CONSTMAP', 'I_SPLIT', 'I_JOIN', 'I_MYNAME', 'I_OTHERNAME', 'I_NITEMS', 'I_START', 'I_FIXED'):
            n[i + getattr(C, o)] = (8, 'int')
        for o in ('I_USEMY', 'I_OOO', 'I_MEM'):
            n[i + getattr(C, o)] = (1, 'bool')
        for o in ('I_MYKERNEL', 'I_OTHERKERNEL'):
            n[i + getattr(C, o)] = (8, ('ptr', self.K))
        n[i + C.I_EXISTING] = (8, ('ptr', self.BUF))
        vt = self.vtable
        kc = st.cells(self.K)
        kc[0] = (8, AConst(vt('UKernel')))
        for o in (C.K_INPUT, C.K_OUTPUT):
            kc[o] = (8, AConst(vt('Port')))
            kc[o + C.P_PORTMAP] = (8, AConst(vt('portmap_t')))
            kc[o + C.P_KERNEL] = (8, AFun(lambda ex, i: Ptr(self.K, i, 0)))
        st.cells(self.FIFO)[0] = (8, AConst(vt('UFifo')))
        nc = st.cells(self.NODES)
        fa = ABase('FIFO_OF', 8)
        self.FA = fa
        nc[i + C.I_FIFOA] = (8, fa)
        nc[i + C.I_FIFOB] = (8, fa)
        g = st.ghost
        g['N'] = ABase('N', 4)
        g['look'] = ABase('LOOK', 8)       # key of (m,key) -> node, see lookup()
        for nm in ('cnt', 'open'):
            g[nm] = ABase(nm.upper(), 8)
        self.st0 = st
        return st

    def vtable(self, cls):
        n = [x for x, d in self.mod.dem.items() if d == 'vtable for ' + cls]
        if not n:
            return UNDEF
        p = self.ex.global_ptr(n[0])
        return Ptr(p.r, 0, 16)

    def setg(self, st, k, v):
        st.ghost[k] = v
        if st.log is not None:
            st.log.add(('ghost', k))

    def gsel(self, st, k, i):
        a = st.ghost[k]
        v = a.select(self.ex, i)
        return v

    def gput(self, st, k, i, v):
        self.setg(st, k, AStore(st.ghost[k], i, v))

    # ------------------------------------------------------------------ port containers
    def mapid(self, p):
        C = self.C
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('port container %r' % (p,))
        if p.r is self.K:
            if p.off == C.K_INPUT + C.P_MAP:
                return 2 * p.idx
            if p.off == C.K_OUTPUT + C.P_MAP:
                return 2 * p.idx + 1
        raise Unsupported('port container %r' % (p,))

    def N(self, st, m):
        return self.gsel(st, 'N', m)

    def lookkey(self, m, key):
        f = z3.Function('PAIR', z3.IntSort(), z3.IntSort(), z3.IntSort())
        ex = self.ex
        t = f(m if isz(m) else z3.IntVal(m), key if isz(key) else z3.IntVal(key))
        # injective
        a, b = z3.Function('FST', z3.IntSort(), z3.IntSort()), z3.Function('SND', z3.IntSort(), z3.IntSort())
        ex.axiom(z3.And(a(t) == m, b(t) == key))
        return t

    def lookup(self, st, m, key):
        """node stored under key, 0 if none"""
        r = self.gsel(st, 'look', self.lookkey(m, key))
        r0 = r
        self.ex.axiom(z3.simplify(r0 >= 0) if isz(r0) else True)
        if not self.mapver:
            ex = self.ex
            self.node_axioms(st, r)
            ex.axiom(z3.Implies(r != 0, z3.And(self.fOWN(r) == m, self.key(st, r) == key, self.fPOS(r) < self.N(st, m), self.fPOS(r) >= 0,
                                               self.fNODE(m, self.fPOS(r)) == r)) if isz(r) else True)
        return r

    def key(self, st, nd):
        return self.ex.arr_field(st, self.NODES, self.C.N_KEY, 8).select(self.ex, nd)

    def node(self, st, m, i):
        ex = self.ex
        m_, i_ = (m if isz(m) else z3.IntVal(m)), (i if isz(i) else z3.IntVal(i))
        t = self.fNODE(m_, i_)
        k = ('node', t.get_id())
        if k not in ex._axseen:
            ex._axseen.add(k)
            ex.keep = getattr(ex, 'keep', []) + [t]
            n = self.st0.ghost['N'].select(ex, m_)
            ex.axiom(z3.Implies(z3.And(i_ >= 0, i_ <= n), z3.And(t > 0, self.fPOS(t) == i_, self.fOWN(t) == m_)))
            if not self.mapver:
                ky = self.key(st, t)
                ex.axiom(z3.Implies(z3.And(i_ >= 0, i_ < n), self.st0.ghost['look'].select(ex, self.lookkey(m_, ky)) == t))
            self.node_axioms(st, t)
        return t

    def node_axioms(self, st, nd):
        """streams of distinct ports of one direction are distinct"""
        ex = self.ex
        if not isz(nd):
            return
        k = ('nodeax', nd.get_id())
        if k in ex._axseen:
            return
        ex._axseen.add(k)
        ex.keep = getattr(ex, 'keep', []) + [nd]
        f = self.FA.select(ex, nd)
        n = self.st0.ghost['N'].select(ex, self.fOWN(nd))
        real = z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n)
        ex.axiom(z3.Implies(z3.And(real, self.fOWN(nd) % 2 == 0, f != 0), self.fINP(f) == nd))
        ex.axiom(z3.Implies(z3.And(real, self.fOWN(nd) % 2 == 1, f != 0), self.fOUTP(f) == nd))

    def stream(self, st, nd):
        return self.FA.select(self.ex, nd)

    def port(self, st, m, i):
        """stream of the i-th port of m"""
        return self.stream(st, self.node(st, m, i))

    def isin(self, f, k):
        """f feeds an input port of kernel k"""
        nd = self.fINP(f)
        self.node_axioms(self.st0, nd)
        n = self.st0.ghost['N'].select(self.ex, 2 * k)
        return And(Eq(self.fOWN(nd), 2 * k), nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n, Eq(self.FA.select(self.ex, nd), f))

    def isout(self, f, k):
        nd = self.fOUTP(f)
        self.node_axioms(self.st0, nd)
        n = self.st0.ghost['N'].select(self.ex, 2 * k + 1)
        return And(Eq(self.fOWN(nd), 2 * k + 1), nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n, Eq(self.FA.select(self.ex, nd), f))

    def info(self, st, nd, name, ptr=False):
        C = self.C
        o = C.N_INFO + getattr(C, 'I_' + name)
        return self.ex.arr_field(st, self.NODES, o, self.NODES.fields[o][0]).select(self.ex, nd)

    def kfield(self, st, k, off):
        return self.ex.arr_field(st, self.K, off, self.K.fields[off][0]).select(self.ex, k)

    # ------------------------------------------------------------------ identities
    def typeid(self, p):
        """identity of a std::type_info object"""
        if not isinstance(p, Ptr) or p.r is None:
            raise Unsupported('type_info %r' % (p,))
        if p.r is self.TI:
            return p.idx
        n = p.r.meta.get('global')
        if n is None:
            raise Unsupported('type_info %r' % (p,))
        return self.tids.setdefault(n, (1 << 40) + len(self.tids))

    def tid_named(self, cls):
        for n, d in self.mod.dem.items():
            if d == 'typeinfo for ' + cls:
                return self.typeid(self.ex.global_ptr(n))
        raise Unsupported('no typeinfo for ' + cls)

    def text(self, st, p):
        """bytes of a C string literal"""
        if isinstance(p, Ptr) and p.r is not None and p.r.meta.get('init') is not None and p.off == 0:
            v = p.r.meta['init']
            if v.k == 'cstr':
                return self.ex.cstr_bytes(v.a).split(b'\0')[0].decode()
            if v.k == 'zero':
                return ''
        return None

    def rd(self, ex, st, p, ty=I64):
        return ex.load(st, p, ty)

    # ------------------------------------------------------------------ contracts of the standard library
    def contracts(self):
        c = []
        rt = self

        def add(rx, name, f, trusted=True):
            c.append((rx, C_(name, f, trusted)))
        self.pre_contracts(add)
        self.string_contracts(add)
        self.type_contracts(add)
        self.map_contracts(add)
        self.function_contracts(add)
        self.fifo_contracts(add)
        self.more_contracts(add)
        return c

    def setup_contracts(self, ex):
        ex.add_contracts(self.contracts())

    def more_contracts(self, add):
        pass

    def pre_contracts(self, add):
        pass

    def string_contracts(self, add):
        rt = self
        S = '^' + re.escape('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>') + '::'

        def put(ex, st, p, v):
            if ex.store(st, p, I64, v) is None:
                return []
            return None

        def copy(ex, st, a, loc):
            v = ex.load(st, a[1], I64, loc)
            if v is None:
                return []
            r = put(ex, st, a[0], v)
            return r if r == [] else a[0]

        def move(ex, st, a, loc):
            r = copy(ex, st, a, loc)
            return r
        def fromc(ex, st, a, loc):
            t = rt.text(st, a[1])
            r = put(ex, st, a[0], strlit(t) if t is not None else ex.fresh('str'))
            return r if r == [] else a[0]

        def default(ex, st, a, loc):
            put(ex, st, a[0], 0)
            return None
        add(S + r'basic_string\(\)$', 'std::string', default)
        add(S + r'basic_string\(' + S[1:-2] + r' const&\)$', 'std::string', copy)
        add(S + r'basic_string\(' + S[1:-2] + r'&&\)$', 'std::string', move)
        add(S + r'operator=\(' + S[1:-2] + r' (const)?&+\)$', 'std::string', copy)
        add(S + r'operator=\(' + S[1:-2] + r'&&\)$', 'std::string', copy)
        add(S + r'operator=\(char const\*\)$', 'std::string', fromc)
        add(S + r'basic_string<std::allocator<char>>\(char const\*, std::allocator<char> const&\)$', 'std::string', fromc)
        add(S + r'~basic_string\(\)$', 'std::string', lambda ex, st, a, loc: None)
        add(S + r'empty\(\)', 'std::string', lambda ex, st, a, loc: Eq(ex.load(st, a[0], I64, loc), 0))
        def length(ex, st, a, loc):
            v = ex.load(st, a[0], I64, loc)
            t = z3.Function('STRLEN', z3.IntSort(), z3.IntSort())(v if isz(v) else z3.IntVal(v))
            ex.axiom(And(t >= 0, t < (1 << 62), Eq(Eq(t, 0), Eq(v, 0))))
            return t
        add(S + r'(size|length)\(\) const', 'std::string', length)

        def compare(ex, st, a, loc):
            x, y = ex.load(st, a[0], I64, loc), ex.load(st, a[1], I64, loc)
            r = ex.fresh('order', 4)
            ex.assume(st, Eq(Eq(r, 0), Eq(x, y)))
            return r
        add(S + r'compare\(' + S[1:-2] + r' const&\) const', 'std::string', compare)
        add(S + r'c_str\(\)', 'std::string', lambda ex, st, a, loc: UNDEF)

        def eq(neg, lit):
            def f(ex, st, a, loc):
                x = ex.load(st, a[0], I64, loc)
                if lit:
                    t = rt.text(st, a[1])
                    if t is None:
                        raise Unsupported('string compared with unknown text')
                    y = strlit(t)
                else:
                    y = ex.load(st, a[1], I64, loc)
                r = Eq(x, y)
                return Not(r) if neg else r
            return f
        for op, neg in (('==', False), ('!=', True)):
            add(r'^bool std::operator' + op + r'<char, .*>\(' + S[1:-2] + r' const&, ' + S[1:-2] + r' const&\)$', 'std::string comparison', eq(neg, False))
            add(r'^bool std::operator' + op + r'<char, .*>\(' + S[1:-2] + r' const&, char const\*\)$', 'std::string comparison', eq(neg, True))

        def tostr(ex, st, a, loc):
            v = a[1]
            put(ex, st, a[0], STRBASE + v if isz(v) or isinstance(v, int) else ex.fresh('str'))
            return None
        add(r'^std::(__cxx11::)?to_string\((unsigned long|unsigned int|unsigned long long)\)$', 'std::to_string', tostr)
        # text building: some string
        txt = lambda ex, st, a, loc: (put(ex, st, a[0], ex.fresh('str')), None)[1]
        add('^' + S[1:-2] + r' std::operator\+<', 'text (exception messages only)', txt)
        add(r'^std::__cxx11::basic_stringstream<.*::str\(\) const$', 'text (exception messages only)', txt)
        add(r'^raft::demangle', 'text (exception messages only)', txt)
        add(r'common::printClassName', 'text (exception messages only)', txt)
        add(r'Exception(Base<\d+>)?::what\(\) const$', 'text (exception messages only)', lambda ex, st, a, loc: UNDEF)
        add(r'^std::ostream::operator<<|basic_ostream<.*operator<<', 'text (exception messages only)', lambda ex, st, a, loc: a[0])

    def type_contracts(self, add):
        rt = self

        def ctor(ex, st, a, loc):
            ex.store(st, a[0], I64, rt.typeid(a[1]), loc)
            return None

        def eq(neg):
            def f(ex, st, a, loc):
                r = Eq(ex.load(st, a[0], I64, loc), ex.load(st, a[1], I64, loc))
                return Not(r) if neg else r
            return f
        add(r'^std::type_index::type_index\(std::type_info const&\)', 'std::type_index', ctor)
        add(r'^std::type_index::operator==', 'std::type_index', eq(False))
        add(r'^std::type_index::operator!=', 'std::type_index', eq(True))
        add(r'^std::type_index::name\(\)', 'std::type_index', lambda ex, st, a, loc: UNDEF)
        add(r'^std::type_info::name\(\)', 'std::type_info', lambda ex, st, a, loc: UNDEF)
        add(r'^std::type_info::operator==', 'std::type_info', lambda ex, st, a, loc: Eq(rt.typeid(a[0]), rt.typeid(a[1])))
        add(r'^std::type_info::operator!=', 'std::type_info', lambda ex, st, a, loc: Not(Eq(rt.typeid(a[0]), rt.typeid(a[1]))))

    def itval(self, ex, st, p, loc):
        v = ex.load(st, p, PTR, loc)
        if not isinstance(v, Ptr) or v.r is not self.NODES:
            raise Unsupported('iterator %r' % (v,))
        return v.idx

    def map_contracts(self, add):
        rt = self
        NP = lambda nd: Ptr(rt.NODES, nd, 0)
        add(PMAP + r'::begin\(\)', 'std::map', lambda ex, st, a, loc: NP(rt.node(st, rt.mapid(a[0]), 0)))
        add(PMAP + r'::cbegin\(\)', 'std::map', lambda ex, st, a, loc: NP(rt.node(st, rt.mapid(a[0]), 0)))

        def end(ex, st, a, loc):
            m = rt.mapid(a[0])
            return NP(rt.node(st, m, rt.N(st, m)))
        add(PMAP + r'::c?end\(\)', 'std::map', end)
        add(PMAP + r'::size\(\)', 'std::map', lambda ex, st, a, loc: rt.N(st, rt.mapid(a[0])))
        add(PMAP + r'::empty\(\)', 'std::map', lambda ex, st, a, loc: Eq(rt.N(st, rt.mapid(a[0])), 0))

        def find(ex, st, a, loc):
            m = rt.mapid(a[0])
            k = ex.load(st, a[1], I64, loc)
            r = rt.lookup(st, m, k)
            e = rt.node(st, m, rt.N(st, m))
            return NP(If(Eq(r, 0), e, r))
        add(PMAP + r'::find\(', 'std::map', find)

        def bound(upper):
            def f(ex, st, a, loc):
                # position in key order: exact when the key is there, else some element with another key (or the end)
                m = rt.mapid(a[0])
                k = ex.load(st, a[1], I64, loc)
                r = rt.lookup(st, m, k)
                i = ex.fresh('bound')
                n = rt.N(st, m)
                ex.assume(st, And(Le(0, i), Le(i, n)))
                o = rt.node(st, m, i)
                ex.assume(st, Implies(And(Eq(r, 0), Lt(i, n)), Ne(rt.key(st, o), k)))
                nx = rt.node(st, m, rt.fPOS(r) + 1) if upper else r
                return NP(If(Eq(r, 0), o, nx))
            return f
        add(PMAP + r'::lower_bound\(', 'std::map', bound(False))
        add(PMAP + r'::upper_bound\(', 'std::map', bound(True))

        def count(ex, st, a, loc):
            r = rt.lookup(st, rt.mapid(a[0]), ex.load(st, a[1], I64, loc))
            return If(Eq(r, 0), 0, 1)
        add(PMAP + r'::count\(', 'std::map', count)

        def at(ex, st, a, loc):
            r = rt.lookup(st, rt.mapid(a[0]), ex.load(st, a[1], I64, loc))
            out = []
            for s, c, x in rt.split(ex, st, Eq(r, 0)):
                if x:
                    out.append((s, 'exc', {'type': '_ZTISt12out_of_range', 'ptr': UNDEF, 'loc': loc}))
                else:
                    out.append((s, 'ret', Ptr(rt.NODES, r, rt.C.N_INFO)))
            return out
        add(PMAP + r'::at\(', 'std::map', at)

        def deref(ex, st, a, loc):
            nd = rt.itval(ex, st, a[0], loc)
            m = rt.fOWN(nd) if isz(nd) else None
            rt.inside(ex, st, nd, loc)
            return Ptr(rt.NODES, nd, rt.C.N_KEY)
        add('^' + PIT + r'::operator(\*|->)\(\)', 'std::map iterator', deref)
        add('^' + PCIT + r'::operator(\*|->)\(\)', 'std::map iterator', deref)

        def step(d, post):
            def f(ex, st, a, loc):
                it = a[0] if not post else a[0]
                nd = rt.itval(ex, st, it, loc)
                if d > 0:
                    rt.inside(ex, st, nd, loc)
                else:
                    ex.oblige(st, rt.fPOS(nd) > 0, 'mem:iterator moved before the first port', loc, 'mem')
                nn = rt.node(st, rt.fOWN(nd), rt.fPOS(nd) + d)
                ex.store(st, it, PTR, NP(nn), loc)
                return NP(nd) if post else it
            return f
        for I in (PIT, PCIT):
            add('^' + I + r'::operator\+\+\(\)', 'std::map iterator', step(1, False))
            add('^' + I + r'::operator--\(\)', 'std::map iterator', step(-1, False))
            add('^' + I + r'::operator\+\+\(int\)', 'std::map iterator', step(1, True))

            def cmp(neg):
                def f(ex, st, a, loc):
                    r = Eq(rt.itval(ex, st, a[0], loc), rt.itval(ex, st, a[1], loc))
                    return Not(r) if neg else r
                return f
            for op, neg in (('==', False), ('!=', True)):
                add(r'^std::operator' + op + r'\(' + I + ' const&, ' + I + r' const&\)', 'std::map iterator', cmp(neg))
                add('^' + I + '::operator' + op, 'std::map iterator', cmp(neg))

        def conv(ex, st, a, loc):
            v = a[1]
            ex.store(st, a[0], PTR, ex.load(st, v, PTR, loc) if rt.is_cell(st, v) else v, loc)
            return None
        add('^' + PCIT + r'::_Rb_tree_const_iterator\(' + PIT + r' const&\)', 'std::map iterator', conv)

        def advance(ex, st, a, loc):
            nd = rt.itval(ex, st, a[0], loc)
            n = a[1]
            m = rt.fOWN(nd)
            ex.oblige(st, And(rt.fPOS(nd) + n >= 0, Le(rt.fPOS(nd) + n, rt.N(st, m))), 'mem:iterator advanced past the end of the ports', loc, 'mem')
            ex.store(st, a[0], PTR, NP(rt.node(st, m, rt.fPOS(nd) + n)), loc)
            return None
        add(r'void std::__advance<' + PIT, 'std::map iterator', advance)

        def distance(ex, st, a, loc):
            x, y = a[0], a[1]
            x = x.idx if isinstance(x, Ptr) and x.r is rt.NODES else rt.itval(ex, st, x, loc)
            y = y.idx if isinstance(y, Ptr) and y.r is rt.NODES else rt.itval(ex, st, y, loc)
            return rt.fPOS(y) - rt.fPOS(x)
        add(r'std::distance<' + PIT, 'std::map iterator', distance)

        def insert(ex, st, a, loc):
            """a[0] map, a[1] pair<string,PortInfo>: keeps an existing element"""
            m = rt.mapid(a[0])
            src = a[1]
            c = st.cells(src.r).get(src.off) if src.r.kind != 'arr' else None
            key = c[1] if c else ex.load(st, src, I64, loc)
            ioff = rt.C.PAIR_INFO
            if isinstance(key, Ptr):        # pair< const char*, PortInfo >
                t = rt.text(st, key)
                if t is None:
                    raise Unsupported('port name of unknown text')
                key, ioff = strlit(t), 8
            r = rt.lookup(st, m, key)
            out = []
            for s, c, present in rt.split(ex, st, Ne(r, 0)):
                if present:
                    out.append((s, 'ret', [NP(r), 0]))
                    continue
                rt.mapver = True
                nd = ex.fresh('newnode')
                ex.assume(s, nd > 0)
                rt.news = rt.news + [nd]
                for o in [nd != x for x in rt.known_nodes(ex) + rt.known_lookups(ex, s) if x is not nd]:
                    ex.assume(s, o)
                n = rt.N(s, m)
                ex.store(s, Ptr(rt.NODES, nd, rt.C.N_KEY), I64, key, loc)
                for s2, k2, v2 in ex.call_dem(s, r'^PortInfo::PortInfo\(PortInfo const&\)$', [Ptr(rt.NODES, nd, rt.C.N_INFO), Ptr(src.r, src.idx, src.off + ioff)], loc):
                    if k2 != 'ret':
                        out.append((s2, k2, v2)); continue
                    rt.gput(s2, 'look', rt.lookkey(m, key), nd)
                    rt.gput(s2, 'N', m, n + 1)
                    s2.ghost['inserted'] = s2.ghost.get('inserted', ()) + ((m, key, nd),)
                    out.append((s2, 'ret', [NP(nd), 1]))
            return out
        add(r'(^| )' + PMAP[1:] + r'::(insert|emplace)', 'std::map', insert)

    def known_nodes(self, ex):
        return []

    def known_lookups(self, ex, st):
        """elements (or none) that are in containers in this state: a new one is none of them"""
        return []

    def is_cell(self, st, v):
        return isinstance(v, Ptr) and v.r is not None and v.r is not self.NODES

    def inside(self, ex, st, nd, loc):
        m = self.fOWN(nd)
        ex.oblige(st, And(nd > 0, Le(0, self.fPOS(nd)), Lt(self.fPOS(nd), self.N(st, m))), 'mem:iterator past the last port is not used', loc, 'mem')
        ex.assume(st, And(nd > 0, Le(0, self.fPOS(nd)), Lt(self.fPOS(nd), self.N(st, m))))

    def split(self, ex, st, cond):
        out = []
        for c, x in ((cond, True), (Not(cond), False)):
            if c is False or not ex.feasible(st, c):
                continue
            s = st.clone()
            ex.assume(s, c)
            out.append((s, c, x))
        return out

    def function_contracts(self, add):
        """values with identity: std::function, shared_ptr and the factory map"""
        rt = self

        def copy(ex, st, a, loc):
            ex.store(st, a[0], I64, ex.load(st, a[1], I64, loc), loc)
            return a[0]

        def null(ex, st, a, loc):
            ex.store(st, a[0], I64, 0, loc)
            return None
        nop = lambda ex, st, a, loc: None
        for F in (r'^std::function<raft::kernel\* \(\)>::', r'^std::function<FIFO\* \(unsigned long, unsigned long, void\*\)>::',
                  r'^std::function<void \(PortInfo&, PortInfo&, void\*\)>::'):
            add(F + r'function\(\)', 'std::function', null)
            add(F + r'function\(std::nullptr_t\)', 'std::function', null)
            add(F + r'function\(std::function<.*> const&\)', 'std::function', copy)
            add(F + r'function\(std::function<.*>&&\)', 'std::function', copy)
            add(F + r'operator=\(std::function<.*> const&\)', 'std::function', copy)
            add(F + r'operator=\(std::function<.*>&&\)', 'std::function', copy)
            add(F + r'~function\(\)', 'std::function', nop)
        M = r'^std::map<Type::RingBufferType, std::shared_ptr<'
        add(M + r'.*::map\(\)$', 'factory map', null)
        add(M + r'.*::map\(std::map<.* const&\)$', 'factory map', copy)
        add(M + r'.*::operator=\(std::map<.*(const)?&+\)$', 'factory map', copy)
        add(M + r'.*::~map\(\)$', 'factory map', nop)

    # ------------------------------------------------------------------ streams
    def fifo_contracts(self, add):
        """what may be asked of a stream without changing it: any answer"""
        def any_(name, size, kind='int'):
            return lambda ex, st, a, loc: ex.fresh(name, size)
        for nm, sz in (('size', 8), ('space_avail', 8), ('capacity', 8), ('is_invalid', 1), ('get_suggested_count', 8)):
            add(r'^UFifo::%s\(\)$' % nm, 'stream: %s()' % nm, any_(nm, sz))

    # ------------------------------------------------------------------ loops
    def loop_invariant(self, ex, fn):
        return [(n, f) for n, f in self.invariants]

    def bound_terms(self, ex, entry):
        return []

    def seq_cands(self, ex, key, old, p, hav):
        """iterator over a sequence: what holds of the elements before it"""
        ln, preds = self.seqs[old.r]
        out = []
        nm = symex.kname(key)

        def at(ex, s, f):
            v = symex.cur(ex, s, key, f)
            if not isinstance(v, Ptr) or v.r is not old.r:
                raise Unsupported('cand')
            return v.idx
        out.append(symex.Cand('%s stays in its sequence' % nm, lambda ex, s, e, f, f0: And(Le(0, at(ex, s, f)), Le(at(ex, s, f), ln(s)))))
        for pn, pf in preds:
            out.append(symex.Cand('%s: elements before it: %s' % (nm, pn),
                       lambda ex, s, e, f, f0, pf=pf: Implies(And(Le(0, p), Lt(p, at(ex, s, f))), pf(ex, s, e, p))))
            for fl, _, _ in hav:
                if fl[0] == 'cell' and fl[3] == 1:
                    for w in (0, 1):
                        out.append(symex.Cand('%s: elements before it, while %s is %d: %s' % (nm, symex.kname(fl), w, pn),
                                   lambda ex, s, e, f, f0, pf=pf, fl=fl, w=w: Implies(And(Le(0, p), Lt(p, at(ex, s, f)), Eq(toint(symex.cur(ex, s, fl, f)), w)), pf(ex, s, e, p))))
        return out

    def loop_candidates(self, ex, fn, entry, hav, fr):
        """for every iterator variable: it stays in its container, and what holds of all ports before it"""
        out = []
        p = ex.sym('p!any', None)
        for key, old, new in hav:
            if key[0] == 'cell' and key[3] == 1:
                out.append(symex.Cand('%s <= 1' % symex.kname(key), lambda ex, s, e, f, f0, key=key: Le(num(symex.cur(ex, s, key, f)), 1)))
        for reg, (ln, preds) in self.seqs.items():
            for pn, pf in preds:
                for fl, _, _ in hav:
                    if fl[0] == 'cell' and fl[3] == 1:
                        for w in (0, 1):
                            out.append(symex.Cand('all elements of %s, while %s is %d: %s' % (reg.name, symex.kname(fl), w, pn),
                                       lambda ex, s, e, f, f0, pf=pf, fl=fl, w=w, ln=ln: Implies(And(Le(0, p), Lt(p, ln(s)), Eq(toint(symex.cur(ex, s, fl, f)), w)), pf(ex, s, e, p))))
        for key, old, new in hav:
            if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r in self.seqs:
                out += self.seq_cands(ex, key, old, p, hav)
            if key[0] not in ('cell', 'phi') or not isinstance(old, Ptr) or old.r is not self.NODES or old.off != 0:
                continue
            m = self.fOWN(old.idx) if isz(old.idx) else None
            i0 = self.fPOS(old.idx)

            def at(ex, s, f, key=key):
                v = symex.cur(ex, s, key, f)
                if not isinstance(v, Ptr) or v.r is not self.NODES or v.off != 0:
                    raise Unsupported('cand')
                return v.idx
            nm = symex.kname(key)
            out.append(symex.Cand('%s stays in its container' % nm,
                       lambda ex, s, e, f, f0, at=at, m=m, i0=i0: And(Eq(self.fOWN(at(ex, s, f)), m), Le(i0, self.fPOS(at(ex, s, f))), Le(self.fPOS(at(ex, s, f)), self.N(s, m)),
                                                                      Eq(at(ex, s, f), self.node(s, m, self.fPOS(at(ex, s, f)))), at(ex, s, f) > 0)))
            for pn, pf in self.portpreds:
                out.append(symex.Cand('%s: ports before it: %s' % (nm, pn),
                           lambda ex, s, e, f, f0, at=at, m=m, i0=i0, pf=pf: Implies(And(Le(i0, p), Lt(p, self.fPOS(at(ex, s, f)))), pf(ex, s, e, self.node(s, m, p), p))))
        for fcand in self.extra_cands:
            out += fcand(ex, fn, entry, hav, fr)
        return out
