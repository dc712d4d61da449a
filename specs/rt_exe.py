"""C21: the allocators' run loops and automatic enlarging; C22: order of start-up and shut-down (models: rt.py, rt_map.py).

A traversal (GraphTools::BFS, under contract in rt_map) calls the visitor it is given for arbitrary links; at each call
the visitor's body is executed for one arbitrary link na -> nb.  CNT is the table of the monitor, LOOKS the number of
looks at which a link was found blocked since it was last enlarged.  Threads: the constructor executes the body it is
given on a copy of the state to see what it does; what a thread does in between is the contract of that function."""
import re
from fractions import Fraction
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, PTR)
from fifo import I64, I8
from fifo_ops import find
from rt_ops import present
from rt_map import Map, MRun, ALLOC, stream_ids, ports2

EFN = r'std::function<void \(PortInfo&, PortInfo&, void\*\)>'
BFS = r'^GraphTools::BFS\(std::set<raft::kernel\*, .*' + EFN + r', void\*, bool\)$'
SMAP = r'^std::map<unsigned long, int, .*>::'
LIMIT = z3.RealVal(str(Fraction(0.8)))


class Exe(Map):
    def setup(self, ex):
        st = super().setup(ex)
        C, g = self.C, st.ghost
        self.alloc = Region('allocator', size=max(C.A_SIZE, C.YD_SIZE, 256))
        st.cells(self.alloc)
        self.exitr = Region('exit flag', size=1)
        st.cells(self.exitr)[0] = (1, 0)
        self.exitr.shared = True
        self.CNT = Region('counters', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        st.cells(self.CNT)[0] = (4, ABase('CNT', 4))
        self.MAPS = Region('other maps', kind='arr', stride=C.M_SIZE, length=None, meta={'pool': True, 'autofields': False})
        st.cells(self.MAPS)
        self.SUBS = Region('sub maps', kind='arr', stride=8, length=None, fields={0: (8, ('ptr', self.MAPS))}, meta={'autofields': False, 'len': lambda s: self.n_sub})
        st.cells(self.SUBS)
        self.n_sub = ex.sym('n_sub')
        ex.assume(st, And(Le(0, self.n_sub), Lt(self.n_sub, 1 << 32)))
        self.SETOF = Region('kernels of another map', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        g['subheld'], g['merged'] = 0, AConst(0)
        self.seqs[self.SUBS] = (lambda s: self.n_sub, [('merged', lambda ex, s, e, p: Eq(toint(self.gsel(s, 'merged', self.sub(s, p))), 1))])
        m = st.cells(self.map)
        m[C.M_SUB] = (8, Ptr(self.SUBS, 0, 0))
        m[C.M_SUB + 8] = (8, Ptr(self.SUBS, self.n_sub, 0))
        g['ev'], g['keys'], g['resized'], g['alloced'], g['visits'] = (), (), (), (), ()
        self.frac = ex.fresh('blocked', kind='real')
        self.visitors = {}
        return st

    elem = None

    def sub(self, s, i):
        v = self.ex.arr_field(s, self.SUBS, 0, 8).select(self.ex, i)
        return v.idx if isinstance(v, Ptr) else v

    def event(self, st, *e):
        self.setg(st, 'ev', st.ghost['ev'] + (e,))

    def on_shared(self, ex, st, p, size, op, v, loc):
        if op != 'load':
            return
        if p.r is self.exitr or p.r is self.alloc and p.off == self.C.A_READY:
            # the flag is set by another thread, at any time
            x = ex.fresh('flag', 1)
            old = st.rcells(p.r).get(p.off, (1, 0))[1]
            ex.assume(st, And(Le(x, 1), Le(toint(old), x)))
            ex.store_obj(st, p.r, p.off, 1, x)

    # -------------------------------------------------------------- locks of sub maps
    def submap(self, p, off):
        if not (isinstance(p, Ptr) and p.r is self.MAPS and p.off == self.C.M_ALL + off):
            return None
        return p.idx

    def other_lock(self, ex, st, p, loc):
        i = self.submap(p, self.C.KP_MUTEX)
        if i is None:
            return super().other_lock(ex, st, p, loc)
        a, b = st.clone(), st.clone()
        ex.assume(a, i > 0)
        ex.oblige(a, Ne(a.ghost['subheld'], i), '[C22] the lock of a kernel list is not taken twice', loc)
        if not ex.entails(a, Eq(a.ghost['subheld'], 0)):
            raise Unsupported('two kernel lists locked')
        self.setg(a, 'subheld', i)
        return [(a, 'ret', 1), (b, 'ret', 0)]

    def other_unlock(self, ex, st, p, loc):
        i = self.submap(p, self.C.KP_MUTEX)
        if i is None:
            return super().other_unlock(ex, st, p, loc)
        ex.oblige(st, Eq(st.ghost['subheld'], i), '[C22] only a held lock is released', loc)
        self.setg(st, 'subheld', 0)
        return None

    # -------------------------------------------------------------- contracts
    def pre_contracts(self, add):
        rt, C = self, self.C
        nop = lambda ex, st, a, loc: None
        # visitors
        pre = 'std::function<void (PortInfo&, PortInfo&, void*)>::function<'
        for n, d in list(self.mod.dem.items()):
            if not d.startswith(pre) or n not in self.mod.funcs:
                continue
            lam = d[len(pre):].split(', void>(')[0].rstrip('&')
            body = [self.mod.funcs[x] for x, y in self.mod.dem.items() if x in self.mod.funcs and y.startswith(lam + '::operator()(')]
            if len(body) != 1:
                continue

            def mk(ex, st, a, loc, body=body[0], lam=lam):
                rt.visitors[a[0].r] = (lam, body, a[1])
                return None
            add('^' + re.escape(d) + '$', 'std::function (visitor of links)', mk)
        add(r'^' + EFN + r'::(~function\(\)|function\()', 'std::function (visitor of links)', nop)

        def bfs(ex, st, a, loc):
            n = rt.keeper_at(a[0], C.KP_SET)
            if n is None:
                raise Unsupported('traversal from %r' % (a[0],))
            ex.oblige(st, Eq(st.ghost['held_' + n], 1), '[C21] kernels are traversed with the lock of their list held', loc)
            if not isinstance(a[1], Ptr) or a[1].r not in rt.visitors:
                raise Unsupported('visitor %r' % (a[1],))
            lam, body, closure = rt.visitors[a[1].r]
            ready = st.rcells(rt.alloc).get(C.A_READY, (1, 0))[1]
            early = ex.entails(st, Eq(toint(ready), 0))
            if early:
                rt.setg(st, 'visits', st.ghost['visits'] + (n,))
            rt.on_visit(ex, st, body, closure, a[2], early, loc)
            return None
        if present(self.mod, BFS):
            add(BFS, 'GraphTools::BFS (set)', bfs, False)

        def allocate(ex, st, a, loc):
            rt.setg(st, 'alloced', st.ghost['alloced'] + ((a[0], a[1], a[2], a[3]),))
            return None
        if present(self.mod, ALLOC):
            add(ALLOC, 'Allocate::allocate', allocate, False)
        # the monitor
        def counter(ex, st, a, loc):
            k = ex.load(st, a[1], I64, loc)
            k = ex.addr(k) if isinstance(k, Ptr) else k
            rt.setg(st, 'keys', st.ghost['keys'] + (k,))
            return Ptr(rt.CNT, k, 0)
        add(SMAP + r'(operator\[\]|at)\(', 'std::map of counters', counter)
        add(SMAP + r'(map|~map)\(', 'std::map of counters', nop)

        def clear(ex, st, a, loc):
            st.cells(rt.CNT)[0] = (4, AConst(0))
            if st.log is not None:
                st.log.add(('arr', rt.CNT, 0, 4))
            return None
        add(SMAP + r'clear\(\)', 'std::map of counters', clear)

        def other(ex, st, a, loc):
            raise Unsupported('operation on the counters')
        add('(^| )' + SMAP[1:], 'std::map of counters', other)
        add(r'^UFifo::get_frac_write_blocked\(\)$', 'stream: share of blocked writes', lambda ex, st, a, loc: (rt.setg(st, 'asked', st.ghost.get('asked', ()) + (a[0].idx,)), rt.frac)[1])
        add(r'^UFifo::capacity\(\)$', 'stream: capacity()', lambda ex, st, a, loc: rt.capacity(a[0].idx))

        def resize(ex, st, a, loc):
            rt.setg(st, 'resized', st.ghost['resized'] + ((a[0].idx, a[1], a[2], a[3]),))
            return None
        add(r'^UFifo::resize\(', 'stream: resize (C09)', resize)
        add(r'std::this_thread::(yield|sleep_for)', 'waiting', nop)
        add(r'^std::set<FIFO\*, .*>::(~?set)\(', 'std::set', nop)
        add(r'^std::map<.*>::map\(\)$', 'std::map', nop)
        # start-up
        ev = lambda name, *n: (lambda ex, st, a, loc: rt.event(st, name, *[a[i] for i in n]))
        nosubs = lambda ex, st: And(*[Implies(And(Le(0, p), Lt(p, rt.n_sub)), Eq(toint(rt.gsel(st, 'merged', rt.sub(st, p))), 1)) for p in [ex.sym('p!any', None)]])

        def check(ex, st, a, loc):
            ex.oblige(st, isinstance(a[0], Ptr) and a[0].r is rt.map, '[C22] the application checked is the one executed', loc)
            ex.oblige(st, nosubs(ex, st), '[C22] kernels of sub maps join the application before it is checked', loc)
            rt.event(st, 'check')
            return [(st, 'ret', None), rt.raises(st.clone(), 'TI_UNC', loc)]
        add(r'^raft::map::checkEdges\(\)$', 'map::checkEdges', check, False)
        add(r'^XPart::(XPart|~XPart)\(\)$', 'partitioner', nop)
        add(r'^XPart::partition\(', 'partitioner', ev('partition', 1))

        def make(name, flag, *n):
            def f(ex, st, a, loc):
                ex.oblige(st, Eq(toint(ex.load(st, a[flag], I8, loc)), 0), '[C22] %s starts with its exit flag clear' % name, loc)
                rt.event(st, name, *[a[i] for i in n])
                if name == 'alloc':
                    st.cells(a[0].r)[a[0].off] = (8, rt.vtable('XAlloc'))
                return None
            return f
        add(r'^XAlloc::XAlloc\(', 'allocator', make('alloc', 2, 0, 1, 2))
        add(r'^XAlloc::~XAlloc\(', 'allocator', ev('~alloc', 0))
        add(r'^XAlloc::run\(', 'allocator', ev('alloc.run', 0))
        add(r'^Allocate::waitTillReady\(\)$', 'allocator', ev('ready', 0), False)

        def sched(ex, st, a, loc):
            st.cells(a[0].r)[a[0].off] = (8, rt.vtable('XSched'))
            rt.event(st, 'sched', a[0], a[1])
            return None
        add(r'^XSched::XSched\(', 'scheduler', sched)
        add(r'^XSched::~XSched\(', 'scheduler', ev('~sched', 0))
        add(r'^XSched::init\(', 'scheduler', ev('sched.init', 0))
        add(r'^XSched::start\(', 'scheduler', ev('sched.start', 0))
        add(r'^XPar::XPar\(', 'parallelism monitor', make('par', 4, 0, 1, 2, 3, 4))
        add(r'^XPar::~XPar\(', 'parallelism monitor', ev('~par', 0))
        add(r'^XPar::start\(', 'parallelism monitor', ev('par.start', 0))
        pre2 = 'std::thread::thread<void raft::map::exe<XPart, XSched, XAlloc, XPar>()::'
        for n, d in list(self.mod.dem.items()):
            if not d.startswith(pre2) or n not in self.mod.funcs:
                continue
            lam = d[len('std::thread::thread<'):].split(', void>(')[0]
            if lam.startswith('void '):
                lam = lam[5:]
            body = [self.mod.funcs[x] for x, y in self.mod.dem.items() if x in self.mod.funcs and re.sub('^void ', '', y).startswith(lam + '::operator()(')]
            if len(body) != 1:
                continue

            def thread(ex, st, a, loc, body=body[0]):
                s0 = st.clone()
                k = len(st.ghost['ev'])
                outs = ex.run_function(body, [a[1]], s0)
                does = {tuple((e[0],) + tuple(e[1:]) for e in s.ghost['ev'][k:]) for s, kind, v in outs if kind == 'ret'}
                if len(does) != 1 or len(outs) != 1:
                    raise Unsupported('body of a thread')
                rt.event(st, 'thread', a[0], does.pop())
                return None
            add('^' + re.escape(d) + '$', 'std::thread', thread)

        def join(ex, st, a, loc):
            flags = {}
            for e in st.ghost['ev']:
                if e[0] in ('alloc', 'par'):
                    c = st.rcells(e[-1].r).get(e[-1].off)
                    flags[e[0]] = toint(c[1]) if c else None
            rt.event(st, 'join', a[0], flags.get('alloc'), flags.get('par'))
            return None
        add(r'^std::thread::join\(\)', 'std::thread', join)
        add(r'^std::thread::detach\(\)', 'std::thread', ev('detach', 0))
        add(r'^std::thread::~thread\(\)', 'std::thread', ev('~thread', 0))

        def env(ex, st, a, loc):
            s2 = st.clone()
            return [(st, 'ret', NULL), (s2, 'ret', Ptr(Region('environment value', kind='opaque', size=8)))]
        add(r'^getenv$', 'getenv', env)
        add(r'^std::basic_ofstream<.*>::', 'output of the dot graph', nop)
        add(r'raft::make_dot::run', 'make_dot (reads the graph only)', nop)
        add(r'^std::__cxx11::stoi\(', 'std::stoi', lambda ex, st, a, loc: ex.fresh('exit_code', 4))
        add(r'^exit$', 'exit', lambda ex, st, a, loc: [])
        add(r'^std::__new_allocator<char>::', 'std::allocator', nop)
        KS = r'std::set<raft::kernel\*, std::less<raft::kernel\*>, std::allocator<raft::kernel\*>>::'

        def half(k):
            def f(ex, st, a, loc):
                i = rt.submap(a[0], C.KP_SET)
                if i is None:
                    raise Unsupported('kernel set %r' % (a[0],))
                ex.oblige(st, Eq(st.ghost['subheld'], i), '[C22] a kernel list is used only with its lock held', loc)
                return Ptr(rt.SETOF, i, k)
            return f
        add('^' + KS + r'c?begin\(\)', 'std::set', half(0))
        add('^' + KS + r'c?end\(\)', 'std::set', half(1))

        def insert(ex, st, a, loc):
            n = rt.keeper_at(a[0], C.KP_SET)
            b, e = a[1], a[2]
            ok = n == 'ALL' and isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is rt.SETOF and e.r is rt.SETOF and b.off == 0 and e.off == 1
            if not ok:
                raise Unsupported('range inserted')
            ex.oblige(st, Eq(b.idx, e.idx), 'mem:both iterators belong to the same set', loc, 'mem')
            ex.oblige(st, Eq(st.ghost['held_' + n], 1), '[C22] a kernel list is used only with its lock held', loc)
            rt.gput(st, 'merged', b.idx, 1)
            return None
        add('(^| )' + KS + r'insert<', 'std::set', insert)
        super().pre_contracts(add)

    def capacity(self, i):
        return self.ex_cap(i if isz(i) else z3.IntVal(i))

    ex_cap = staticmethod(z3.Function('CAPACITY', z3.IntSort(), z3.IntSort()))

    # -------------------------------------------------------------- what a visitor may do
    def on_visit(self, ex, st, body, closure, data, early, loc):
        s0 = st.clone()
        for k in ('alloced', 'resized', 'keys'):
            s0.ghost[k] = ()
        na, nb = self.na, self.nb
        if not early:
            ex.assume(s0, stream_ids(self, s0, na)[0] > 0)
        P = lambda p, nd: isinstance(p, Ptr) and p.r is self.NODES and p.off == self.C.N_INFO and Eq(p.idx, nd)
        O = lambda s, g, n: ex.oblige(s, g, '[C21] ' + n, loc)
        for s, k, v in ex.run_function(body, [closure, Ptr(self.NODES, na, self.C.N_INFO), Ptr(self.NODES, nb, self.C.N_INFO), data], s0):
            al, rs = s.ghost['alloced'], s.ghost['resized']
            if early:
                O(s, k == 'ret' and len(al) == 1, 'every link is allocated once, by the allocator')
                if len(al) == 1:
                    O(s, And(al[0][0].r is self.alloc, P(al[0][1], na), P(al[0][2], nb)), 'the link allocated is the link visited, from its source to its destination')
                O(s, len(rs) == 0, 'no stream is enlarged before every stream exists')
            else:
                O(s, k == 'ret' and len(al) == 0, 'a link is allocated only once')


class ERun(MRun):
    def __init__(self, mod, uses=(), cls=Exe, tag='C21'):
        self.tag = tag
        super().__init__(mod, uses, cls)
        self.f.na, self.f.nb = ports2(self)

    def obl(self, s, g, name):
        self.ex.oblige(s, g, '[%s] ' % self.tag + name)

    def made(self, cls):
        """an allocator of that class, made by its real constructor"""
        out = [(s, k) for s, k, v in self.call(r'^%s::%s\(raft::map&, bool volatile&\)$' % (cls, cls), [Ptr(self.f.alloc), Ptr(self.f.map), Ptr(self.f.exitr)])]
        if len(out) != 1 or out[0][1] != 'ret':
            raise Unsupported('constructor of the allocator')
        return out[0][0]


def run(cls):
    def t(mod):
        r = ERun(mod)
        f, ex, C = r.f, r.ex, r.f.C
        st = r.made(cls)
        r.obl(st, Eq(toint(st.rcells(f.alloc).get(C.A_READY, (1, 9))[1]), 0), 'a new allocator is not ready')
        f.invariants = [('%s unlocked' % n, lambda ex, s, e, n=n: Eq(s.ghost['held_' + n], e.ghost['held_' + n])) for n in ('SRC', 'DST', 'ALL', 'INT')]
        for s, k, v in r.call(r'^%s::run\(\)$' % cls, [Ptr(f.alloc)], st):
            r.obl(s, k == 'ret', 'the allocator throws nothing')
            vs = s.ghost['visits']
            r.obl(s, vs == ('SRC',), 'streams are allocated once, from every source kernel of the map, before the allocator reports to be ready')
            r.obl(s, Eq(toint(s.rcells(f.alloc)[C.A_READY][1]), 1), 'the allocator reports to be ready')
            for n in ('SRC', 'DST', 'ALL', 'INT'):
                r.obl(s, Eq(s.ghost['held_' + n], 0), 'the allocator leaves no list locked')
        return r
    return t


def t_ready(mod):
    r = ERun(mod, tag='C22')
    f, ex, C = r.f, r.ex, r.f.C
    f.alloc.shared = True
    st = r.st.clone()
    st.cells(f.alloc)[C.A_READY] = (1, 0)
    for s, k, v in r.call(r'^Allocate::waitTillReady\(\)$', [Ptr(f.alloc)], st):
        r.obl(s, k == 'ret' and Eq(toint(s.rcells(f.alloc)[C.A_READY][1]), 1), 'waiting for the allocator ends only once it is ready')
    for s, k, v in r.call(r'^Allocate::setReady\(\)$', [Ptr(f.alloc)], st):
        r.obl(s, k == 'ret' and Eq(toint(s.rcells(f.alloc)[C.A_READY][1]), 1), 'an allocator that reports to be ready is ready')
    return r


def t_exe(mod):
    r = ERun(mod, tag='C22')
    f, ex, C = r.f, r.ex, r.f.C
    f.invariants = [('%s unlocked' % n, lambda ex, s, e, n=n: Eq(s.ghost['held_' + n], e.ghost['held_' + n])) for n in ('SRC', 'DST', 'ALL', 'INT')]
    f.invariants.append(('no sub map locked', lambda ex, s, e: Eq(s.ghost['subheld'], e.ghost['subheld'])))
    for s, k, v in r.call(r'^void raft::map::exe<XPart, XSched, XAlloc, XPar>\(\)$', [Ptr(f.map)]):
        ev = s.ghost['ev']
        names = [e[0] for e in ev]
        O = lambda g, n: r.obl(s, g, n)
        for n in ('SRC', 'DST', 'ALL', 'INT'):
            O(Eq(s.ghost['held_' + n], 0), 'no list is left locked')
        O(Eq(s.ghost['subheld'], 0), 'no list of a sub map is left locked')
        if k == 'exc':
            O(names == ['check'], 'an application that is refused is not started')
            continue
        one = lambda n: names.count(n) == 1
        at = lambda n: names.index(n) if n in names else -1
        E = lambda n: ev[at(n)]
        ok = all(one(n) for n in ('check', 'partition', 'alloc', 'ready', 'sched', 'sched.init', 'par')) and names.count('thread') == 3
        O(ok, 'every step of start-up happens once')
        if not ok:
            continue
        th = {}
        for i, e in enumerate(ev):
            if e[0] == 'thread' and len(e[2]) == 1:
                th[e[2][0][0]] = (i, e[1], e[2][0][1])
        ok = set(th) == {'alloc.run', 'sched.start', 'par.start'}
        O(ok, 'allocator, scheduler and parallelism monitor run in a thread each')
        if not ok:
            continue
        same = lambda p, q: isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r and p.off == q.off and Eq(p.idx, q.idx)
        ismap = lambda p: isinstance(p, Ptr) and p.r is f.map and p.off == 0
        al, sc, pa = E('alloc'), E('sched'), E('par')
        O(at('check') < min(at('partition'), at('alloc'), at('sched')), 'an application is checked before anything is started')
        O(at('partition') < min(at('alloc'), at('sched')), 'kernels are partitioned before streams are made')
        O(f.keeper_at(E('partition')[1], 0) == 'ALL', 'every kernel is partitioned')
        O(And(ismap(al[2]), ismap(sc[2]), ismap(pa[2])), 'allocator, scheduler and monitor work on this map')
        O(And(same(pa[3], al[1]), same(pa[4], sc[1])), 'the parallelism monitor works with the allocator and scheduler of this execution')
        O(And(same(th['alloc.run'][2], al[1]), same(th['sched.start'][2], sc[1]), same(th['par.start'][2], pa[1])), 'the threads run what was set up for this execution')
        O(th['alloc.run'][0] < at('ready'), 'the allocator runs while it is waited for')
        O(same(E('ready')[1], al[1]), 'the allocator waited for is the one of this execution')
        O(at('ready') < min(at('sched'), th['sched.start'][0]), 'kernels run only after every stream is allocated')
        O(And(same(E('sched.init')[1], sc[1]), at('sched.init') < th['sched.start'][0]), 'the scheduler is initialised before it starts')
        # shut-down
        J = {}
        for i, e in enumerate(ev):
            if e[0] == 'join':
                for n, (_, t, _o) in th.items():
                    if same(t, e[1]) is True:
                        J.setdefault(n, []).append((i, e[2], e[3]))
        ok = all(len(J.get(n, [])) == 1 for n in th)
        O(ok, 'every thread is waited for once')
        if not ok:
            continue
        js, ja, jp = J['sched.start'][0], J['alloc.run'][0], J['par.start'][0]
        O(Eq(js[1], 0), 'the allocator is told to stop only after the scheduler has finished')
        O(js[0] < ja[0], 'the scheduler is waited for before the allocator')
        O(Eq(ja[1], 1), 'the allocator is told to stop before it is waited for')
        O(Eq(jp[2], 1), 'the parallelism monitor is told to stop before it is waited for')
        last = max(js[0], ja[0], jp[0])
        for n in ('~alloc', '~sched', '~par'):
            O(one(n) and at(n) > last, 'allocator, scheduler and monitor exist until every thread has ended')
    return r


class Mon(Exe):
    """the visitor of the monitor, reached through dynalloc::run"""

    def on_visit(self, ex, st, body, closure, data, early, loc):
        if early:
            return
        self.mon.append((st.clone(), body, closure, data))


def t_monitor(mod):
    r = ERun(mod, cls=Mon)
    f, ex, C = r.f, r.ex, r.f.C
    f.mon = []
    st = r.made('dynalloc')
    f.invariants = [('%s unlocked' % n, lambda ex, s, e, n=n: Eq(s.ghost['held_' + n], e.ghost['held_' + n])) for n in ('SRC', 'DST', 'ALL', 'INT')]
    r.call(r'^dynalloc::run\(\)$', [Ptr(f.alloc)], st)
    if not f.mon:
        raise Unsupported('no monitor')
    vtx = lambda nd: Ptr(f.NODES, nd, C.N_INFO)
    sa, sb = stream_ids(f, r.st, f.na)[0], stream_ids(f, r.st, f.nb)[0]
    # a second link
    i2, j2 = ex.sym('i2'), ex.sym('j2')
    kc, kd = ex.sym('kc'), ex.sym('kd')
    nq, nr = f.node(r.st, 2 * kc + 1, i2), f.node(r.st, 2 * kd, j2)
    for s0, body, closure, data in f.mon[-1:]:
        ex.assume(s0, And(0 < sa, Eq(sa, sb), 0 < kc, 0 < kd, Le(0, i2), Lt(i2, f.N(r.st, 2 * kc + 1)), Le(0, j2), Lt(j2, f.N(r.st, 2 * kd)), f.na > 0, f.nb > 0, nq > 0, nr > 0,
                          0 < f.info(r.st, nq, 'FIFOA').idx if isinstance(f.info(r.st, nq, 'FIFOA'), Ptr) else True))
        ex.assume(s0, And(0 < f.capacity(sa), f.capacity(sa) < (1 << 62)))
        s0.ghost['keys'] = s0.ghost['resized'] = ()
        go = lambda st, a, b: ex.run_function(body, [closure, vtx(a), vtx(b), data], st.clone())

        def key(a, b):
            ks = []
            for s, k, v in go(s0, a, b):
                for x in s.ghost['keys']:
                    if not any(ex.entails(s, Eq(x, y)) for y in ks):
                        ks.append(x)
            if len(ks) != 1:
                raise Unsupported('counters of a link: %s' % ks)
            return ks[0]
        n0 = len(ex.obs)
        h, hq = key(f.na, f.nb), key(nq, nr)
        del ex.obs[n0:]
        r.obl(s0, Implies(And(Ne(f.na, nq), Ne(f.nb, nr)), Ne(h, hq)), 'no two links share a counter')
        cnt = lambda s, k: ex.signed(toint(ex.arr_field(s, f.CNT, 0, 4).select(ex, k)), 32)
        looks = ex.sym('looks')
        s1 = s0.clone()
        ex.assume(s1, And(Le(0, looks), Le(looks, 3), Eq(cnt(s1, h), looks)))
        q = ex.sym('q!any', None)
        fixed = f.info(r.st, f.na, 'FIXED')
        for s, k, v in go(s1, f.na, f.nb):
            rs = s.ghost['resized']
            blocked = And(Eq(fixed, 0), f.frac >= LIMIT)
            r.obl(s, k == 'ret', 'the monitor throws nothing')
            r.obl(s, Implies(Ne(fixed, 0), len(rs) == 0), 'a stream of fixed capacity is never enlarged')
            r.obl(s, Implies(And(blocked, looks >= 3), len(rs) == 1), 'a stream found blocked again and again is enlarged')
            r.obl(s, And(*[Eq(x, sa) for x in s.ghost.get('asked', ())]) if s.ghost.get('asked') else True, 'the stream looked at is that of the link')
            if rs:
                r.obl(s, And(len(rs) == 1, f.frac >= LIMIT, looks >= 3), 'a stream is enlarged only after it was found blocked at more than three looks')
                fi, n, al, fl = rs[0]
                r.obl(s, Eq(fi, sa), 'the stream enlarged is that of the link')
                r.obl(s, Eq(n, 2 * f.capacity(sa)), 'a stream is enlarged to twice its capacity')
                r.obl(s, Eq(al, C.A_ALIGN), 'a stream enlarged keeps its alignment')
                r.obl(s, isinstance(fl, Ptr) and fl.r is f.exitr and fl.off == 0, "enlarging gives up when the application ends")
            new = 0 if rs else If(blocked, looks + 1, looks)
            r.obl(s, And(Eq(cnt(s, h), new), Le(cnt(s, h), 3)) if not rs else Eq(cnt(s, h), 0), 'the counter of a link counts the looks that found it blocked since it was enlarged')
            r.obl(s, Implies(Ne(q, h), Eq(cnt(s, q), cnt(s1, q))), 'a look at one link leaves the counters of others alone')
    return r


TASKS = [('exe.run stdalloc', run('stdalloc'), {'C21', 'C22', 'C14'}, 2), ('exe.run dynalloc', run('dynalloc'), {'C21', 'C22', 'C14'}, 2),
         ('exe.monitor', t_monitor, {'C21'}, 2), ('exe.ready', t_ready, {'C22', 'C14'}, 1), ('exe.exe', t_exe, {'C22', 'C14'}, 3)]
