"""C19: who owns kernels and streams, and that each is destroyed exactly once (model: rt.py, rt_map.py)."""
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported)
from fifo import I64, I8
from fifo_ops import find
from rt_ops import present
from rt import C_
from rt_map import KSet, MRun, KS, FSET, SENTINEL, SETS, sentinel

SITER = r'std::_Rb_tree_const_iterator<FIFO\*>'


class Own(KSet):
    """kernels the map has to destroy: the sequence INTK without repetitions; streams of an allocator: STRS.
    DEADK / DEADF: kernels / streams destroyed so far."""

    def setup(self, ex):
        st = super().setup(ex)
        g = st.ghost
        self.k_alive, self.f_alive = ABase('DEADK', 1), ABase('DEADF', 1)
        g['deadk'], g['deadf'] = AConst(0), AConst(0)
        self.pos = z3.Function('POS_IN_SET', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.INTK, self.n_int = self.sequence(ex, st, 'own kernels', self.K)
        self.STRS, self.n_str = self.sequence(ex, st, 'own streams', self.FIFO)
        self.alloc = Region('allocator', size=max(self.C.A_SIZE, 256))
        st.cells(self.alloc)[0] = (8, self.vtable('stdalloc'))
        self.newk = []
        self.extra_cands.append(self.cands)
        return st

    def sequence(self, ex, st, name, pool):
        n = ex.sym('n_' + name.replace(' ', '_'))
        r = Region(name, kind='arr', stride=8, length=None, fields={0: (8, ('ptr', pool))}, meta={'autofields': False, 'len': lambda s: n})
        st.cells(r)
        ex.assume(st, And(Le(0, n), Lt(n, 1 << 32)))
        self.seqs[r] = (lambda s: n, [])
        return r, n

    # -------------------------------------------------------------- the sets
    def tag(self, reg):
        return 0 if reg is self.INTK else 1

    def elem(self, st, reg, i):
        x = KSet.elem(self, st, reg, i)
        if reg in (self.INTK, self.STRS):
            n = self.n_int if reg is self.INTK else self.n_str
            if isz(x):
                ii = i if isz(i) else z3.IntVal(i)
                self.ex.axiom(z3.Implies(z3.And(ii >= 0, ii < n), z3.And(x > 0, self.pos(self.tag(reg), x) == ii)))
        return x

    def inset(self, reg, q):
        """q was in the set on entry; -> (membership, position)"""
        j = self.pos(self.tag(reg), q)
        n = self.n_int if reg is self.INTK else self.n_str
        return And(Le(0, j), Lt(j, n), Eq(self.elem(self.st0, reg, j), q), q > 0), j

    def iterable(self, ex, st, p, loc):
        n = self.keeper_at(p, self.C.KP_SET)
        if n == 'INT':
            return self.INTK
        if isinstance(p, Ptr) and p.r is self.alloc and p.off == self.C.A_FIFOS:
            return self.STRS
        return super().iterable(ex, st, p, loc)

    def cands(self, ex, fn, entry, hav, fr):
        out = []
        q = ex.sym('q!any', None)
        for key, old, new in hav:
            if key[0] not in ('cell', 'phi') or not isinstance(old, Ptr) or old.r not in (self.INTK, self.STRS):
                continue
            reg, gh = old.r, 'deadk' if old.r is self.INTK else 'deadf'

            def at(s, f, key=key, reg=reg):
                v = symex.cur(ex, s, key, f)
                if not isinstance(v, Ptr) or v.r is not reg:
                    raise Unsupported('cand')
                return v.idx

            def holds(s, f, q, reg=reg, gh=gh, at=at):
                m, j = self.inset(reg, q)
                return Eq(toint(s.ghost[gh].select(ex, q)), If(And(m, Lt(j, at(s, f))), 1, 0))
            out.append(symex.Cand('destroyed so far: those before %s, each once' % symex.kname(key), lambda ex, s, e, f, f0, h=holds: h(s, f, q),
                                  instance=lambda ex, s, e, f, f0, h=holds, at=at, reg=reg: h(s, f, self.elem(self.st0, reg, at(s, f)))))
        return out

    # -------------------------------------------------------------- contracts
    def pre_contracts(self, add):
        rt = self

        def dtor(gh, pool, what):
            def f(ex, st, a, loc):
                p = a[0]
                if not isinstance(p, Ptr) or p.r is not pool or p.off != 0:
                    raise Unsupported('destroyed: %r' % (p,))
                ex.oblige(st, Ne(p.idx, 0), 'mem:null is not destroyed', loc, 'mem')
                ex.oblige(st, Eq(toint(st.ghost[gh].select(ex, p.idx)), 0), '[C19] a %s is destroyed once' % what, loc)
                rt.gput(st, gh, p.idx, 1)
                return None
            return f
        add(r'^UKernel::~UKernel\(\)$', 'destructor of a kernel', dtor('deadk', self.K, 'kernel'))
        add(r'^UFifo::~UFifo\(\)$', 'destructor of a stream', dtor('deadf', self.FIFO, 'stream'))

        def made(ex, st, a, loc):
            p = a[0]
            if not isinstance(p, Ptr) or p.r is not rt.K or p.off != 0:
                raise Unsupported('constructed: %r' % (p,))
            rt.setg(st, 'constructed', st.ghost.get('constructed', ()) + (p.idx,))
            ex.store(st, Ptr(rt.K, p.idx, rt.C.K_INTERNAL), I8, 0, loc)
            return None
        add(r'^UKernel::UKernel\(\)$', 'constructor of a kernel', made)
        nop = lambda ex, st, a, loc: None
        for rx in (r'^Port::(~?Port)\(', r'^std::(__cxx11::)?queue<std::__cxx11::basic_string.*>::(~?queue)[<(]', r'^std::set<raft::kernel\*, .*>::(~?set|clear)\(\)$', r'^std::set<FIFO\*, .*>::(~?set|clear)\(\)$',
                   r'^std::vector<MapBase\*, .*>::(~?vector|clear)\(\)$', r'^std::mutex::(~?mutex)\(\)$'):
            add(rx, 'std containers of pointers', nop)
        add('^' + FSET + r'c?begin\(\)', 'std::set', lambda ex, st, a, loc: Ptr(rt.iterable(ex, st, a[0], loc), 0, 0))

        def end(ex, st, a, loc):
            e = rt.iterable(ex, st, a[0], loc)
            return Ptr(e, rt.seqs[e][0](st), 0)
        add('^' + FSET + r'c?end\(\)', 'std::set', end)

        def deref(ex, st, a, loc):
            v = ex.load(st, a[0], symex.PTR, loc)
            if not isinstance(v, Ptr) or v.r not in rt.seqs:
                raise Unsupported('set iterator')
            ex.oblige(st, And(Le(0, v.idx), Lt(v.idx, rt.seqs[v.r][0](st))), 'mem:iterator past the last element is not used', loc, 'mem')
            ex.assume(st, Lt(0, rt.elem(st, v.r, v.idx)))
            return Ptr(v.r, v.idx, 0)
        add('^' + SITER + r'::operator\*\(\)', 'std::set iterator', deref)

        def inc(ex, st, a, loc):
            v = ex.load(st, a[0], symex.PTR, loc)
            ex.store(st, a[0], symex.PTR, Ptr(v.r, v.idx + 1, 0), loc)
            return a[0]
        add('^' + SITER + r'::operator\+\+\(\)', 'std::set iterator', inc)

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = ex.load(st, a[0], symex.PTR, loc), ex.load(st, a[1], symex.PTR, loc)
                r = And(x.r is y.r, Eq(x.idx, y.idx))
                return Not(r) if neg else r
            return f
        add(r'^std::operator!=\(' + SITER, 'std::set iterator', cmp(True))
        add(r'^std::operator==\(' + SITER, 'std::set iterator', cmp(False))
        super().pre_contracts(add)

    def on_new(self, ex, st, name, n, loc):
        if n == self.C.K_SIZE:
            p = ex.fresh('newkernel')
            ex.assume(st, p > 0)
            self.setg(st, 'news', st.ghost.get('news', ()) + (p,))
            return Ptr(self.K, p, 0)
        return super().on_new(ex, st, name, n, loc)


class ORun(MRun):
    def __init__(self, mod, uses=()):
        super().__init__(mod, uses, Own)

    def obl(self, s, g, name):
        self.ex.oblige(s, g, '[C19] ' + name)

    def wrapper(self, st, name, v):
        r = Region(name, size=16)
        st.cells(r)[0] = (8, UNDEF)
        st.cells(r)[8] = (8, v)
        return r

    def dead(self, s, gh, want, what):
        """want(q): destroyed, all others are left alone"""
        q = self.ex.sym('q!any', None)
        self.obl(s, Eq(toint(s.ghost[gh].select(self.ex, q)), If(want(q), 1, 0)), what)


def held(s, w):
    c = s.rcells(w).get(8)
    if c is None or c[0] != 8:
        raise Unsupported('wrapper')
    return c[1]


def t_wrapper(mod):
    r = ORun(mod)
    f, ex = r.f, r.ex
    none = lambda q: False
    W = r'^raft::kernel_wrapper::'
    kn = Ptr(f.K, f.ka, 0)
    same = lambda v: isinstance(v, Ptr) and v.r is f.K and v.off == 0 and Eq(v.idx, f.ka)
    # made of a kernel
    w = Region('wrapper', size=16)
    for s, k, v in r.call(W + r'kernel_wrapper\(raft::kernel\*\)$', [Ptr(w), kn]):
        r.obl(s, k == 'ret' and same(held(s, w)), 'a wrapper holds the kernel it is made of')
        r.dead(s, 'deadk', none, 'making a wrapper destroys nothing')
    # copied
    for what, v0 in (('a held', kn), ('no', SENTINEL)):
        a, b = r.wrapper(r.st, 'from_' + what, v0), Region('copy_' + what, size=16)
        for s, k, v in r.call(W + r'kernel_wrapper\(raft::kernel_wrapper const&\)$', [Ptr(b), Ptr(a)]):
            r.obl(s, k == 'ret' and (same(held(s, b)) if v0 is kn else sentinel(held(s, b))), 'the copy of a wrapper takes over its kernel (%s kernel)' % what)
            r.obl(s, sentinel(held(s, a)), 'the wrapper copied no longer owns a kernel (%s kernel)' % what)
            r.dead(s, 'deadk', none, 'copying a wrapper destroys nothing')
    # taken over by an expression
    a = r.wrapper(r.st, 'taken', kn)
    for s, k, v in r.call(W + r'operator\*\(\)$', [Ptr(a)]):
        r.obl(s, k == 'ret' and same(v), 'an expression is given the kernel of a wrapper')
        r.obl(s, sentinel(held(s, a)), 'a wrapper whose kernel was taken no longer owns it')
        r.dead(s, 'deadk', none, 'taking a kernel from its wrapper destroys nothing')
    # end of life
    for what, v0 in (('a held', kn), ('no', SENTINEL)):
        a = r.wrapper(r.st, 'ended_' + what, v0)
        for s, k, v in r.call(W + r'~kernel_wrapper\(\)$', [Ptr(a)]):
            r.obl(s, k == 'ret', 'the end of a wrapper throws nothing')
            r.dead(s, 'deadk', (lambda q: Eq(q, f.ka)) if v0 is kn else none, 'a wrapper destroys the kernel it still owns, and nothing else (%s kernel)' % what)
    return r


def t_make(mod):
    r = ORun(mod)
    f, ex = r.f, r.ex
    w = Region('made wrapper', size=16)
    for s, k, v in r.call(r'raft::kernel_wrapper raft::kernel::make<UKernel>\(\)$', [Ptr(w)]):
        n, c = s.ghost.get('news', ()), s.ghost.get('constructed', ())
        if k != 'ret' or len(n) != 1 or len(c) != 1:
            r.obl(s, False, 'make creates one kernel')
            continue
        r.obl(s, Eq(c[0], n[0]), 'make creates one kernel')
        h = held(s, w)
        r.obl(s, isinstance(h, Ptr) and h.r is f.K and h.off == 0 and Eq(h.idx, n[0]), 'the wrapper made owns the kernel')
        r.obl(s, Ne(toint(f.kfield(s, n[0], f.C.K_INTERNAL)), 0), 'a kernel created by make is the library\'s to destroy')
        r.dead(s, 'deadk', lambda q: False, 'make destroys nothing')
    return r


def t_mapend(mod):
    r = ORun(mod)
    f, ex = r.f, r.ex
    for rx in (r'^MapBase::~MapBase\(\)$', r'^raft::map::~map\(\)$'):
        for s, k, v in r.call(rx, [Ptr(f.map)]):
            r.obl(s, k == 'ret', 'the end of a map throws nothing')
            r.dead(s, 'deadk', lambda q: f.inset(f.INTK, q)[0], 'a map destroys every kernel it owns exactly once, and no other')
            r.dead(s, 'deadf', lambda q: False, 'a map destroys no stream')
    return r


def t_allocend(mod):
    r = ORun(mod)
    f, ex = r.f, r.ex
    for s, k, v in r.call(r'^Allocate::~Allocate\(\)$', [Ptr(f.alloc)]):
        r.obl(s, k == 'ret', 'the end of the allocator throws nothing')
        r.dead(s, 'deadf', lambda q: f.inset(f.STRS, q)[0], 'the allocator destroys every stream it made exactly once, and no other')
        r.dead(s, 'deadk', lambda q: False, 'the allocator destroys no kernel')
    return r


def t_ids(mod):
    """kernels are numbered in the order they are made (ids so far: 0 .. kernel_count - 1)"""
    r = ORun(mod)
    f, ex = r.f, r.ex
    cnt = ex.global_ptr([n for n, d in mod.dem.items() if d == 'raft::kernel::kernel_count'][0])
    n0 = ex.sym('kernels made so far')
    ex.assume(r.st, And(Le(0, n0), Lt(n0, (1 << 64) - 1)))
    ex.store(r.st, cnt, I64, n0, None)
    for i, (rx, args) in enumerate(((r'^raft::kernel::kernel\(\)$', []), (r'^raft::kernel::kernel\(void\*, unsigned long\)$', [NULL, ex.sym('nbytes')]))):
        k_ = Region('kernel made %d' % i, size=f.C.K_SIZE)
        r.st.cells(k_)
        for s, k, v in r.call(rx, [Ptr(k_)] + args):
            if k != 'ret':
                continue
            me = s.rcells(k_).get(f.C.K_ID)
            r.obl(s, me is not None and Eq(me[1], n0), 'a new kernel gets an id no other kernel has')
            r.obl(s, Eq(ex.load(s, cnt, I64, None), n0 + 1), 'the id of a kernel is not given again')
            inn = s.rcells(k_).get(f.C.K_INTERNAL)
            r.obl(s, inn is not None and Eq(toint(inn[1]), 0), "a kernel the user constructs is the user's to destroy")
            c = Region('id', size=8)
            for s2, k2, v2 in r.call(r'^raft::kernel::get_id\(\)$', [Ptr(k_)], s):
                r.obl(s2, k2 == 'ret' and Eq(v2, n0), 'get_id gives the id of the kernel')
    return r


TASKS = [('own.kernel ids', t_ids, {'C19'}, 1), ('own.wrapper', t_wrapper, {'C19'}, 1), ('own.make', t_make, {'C19'}, 1), ('own.map end', t_mapend, {'C19'}, 1), ('own.allocator end', t_allocend, {'C19'}, 1)]
