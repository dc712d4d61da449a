"""C20: handlers of system signals; a scheduler is set up over the lists of its map (models: rt.py, rt_map.py).

HPAIR: the handler table, one pair per signal that has an entry (ghost HAS); the handler stored there is an
arbitrary function of the pool HF, checked for who is called, how often and with what."""
import z3
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, PTR, FnVal)
from fifo import I64, I32
from fifo_ops import find
from rt_ops import present
from rt_map import Map, MRun, SETS, ADD, joining
from rt_ops import HANDLE

ADDH = r'^SystemSignalHandler::addHandler\('
CALLH = r'^SystemSignalHandler::callHandler\('
HMAP = r'^std::map<raft::signal, .*>::'
HIT = r'std::_Rb_tree_iterator<std::pair<raft::signal const, .*>>'
END = -1


class Sig(Map):
    def setup(self, ex):
        st = super().setup(ex)
        g = st.ghost
        self.HF = Region('handler functions', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False, 'callee': self.handler})
        st.cells(self.HF)
        self.HPAIR = Region('handler table', kind='arr', stride=16, length=None, fields={8: (8, ('ptr', self.HF))}, meta={'autofields': False, 'len': lambda s: 1 << 32})
        st.cells(self.HPAIR)
        g['has'] = ABase('HAS', 1)
        g['calls'] = ()
        g['registered'] = ()
        g['closed'] = ()
        g['handed'] = ()
        self.hs = Region('signal handlers', size=64)
        st.cells(self.hs)
        return st

    def entry(self, s, q):
        v = self.ex.arr_field(s, self.HPAIR, 8, 8).select(self.ex, q)
        return v.idx if isinstance(v, Ptr) else v

    def handler(self, ex, st, callee, a, loc):
        """an arbitrary signal handler"""
        ex.oblige(st, Lt(0, callee.idx), 'mem:call-through-null', loc, 'mem')
        r = ex.fresh('status', 4)
        self.setg(st, 'calls', st.ghost['calls'] + ((callee.idx, a[0], a[1], a[2], a[3], r),))
        s2 = st.clone()
        return [(st, 'ret', r), self.raises(s2, 'TI_PNF', loc)]

    def pre_contracts(self, add):
        rt = self

        def key(ex, st, p, loc):
            return ex.load(st, p, I32, loc)

        def index(ex, st, a, loc):
            k = key(ex, st, a[1], loc)
            h = rt.entry(st, k)
            ex.store(st, Ptr(rt.HPAIR, k, 8), PTR, Ptr(rt.HF, If(Ne(toint(rt.gsel(st, 'has', k)), 0), h, 0), 0), loc)
            rt.gput(st, 'has', k, 1)
            return Ptr(rt.HPAIR, k, 8)
        add(HMAP + r'operator\[\]\(', 'std::map of handlers', index)

        def finder(ex, st, a, loc):
            k = key(ex, st, a[1], loc)
            return Ptr(rt.HPAIR, If(Ne(toint(rt.gsel(st, 'has', k)), 0), k, END), 0)
        def emplace(over, two):
            def g(ex, st, a, loc):
                k = key(ex, st, a[1], loc)
                h = ex.load(st, a[2] if two else a[1].at(8) if hasattr(a[1], 'at') else Ptr(a[1].r, a[1].idx, a[1].off + 8), PTR, loc)
                had = Ne(toint(rt.gsel(st, 'has', k)), 0)
                old = rt.entry(st, k)
                hid = h.idx if isinstance(h, Ptr) and h.r is rt.HF else 0
                ex.store(st, Ptr(rt.HPAIR, k, 8), PTR, Ptr(rt.HF, hid if over else If(had, old, hid), 0), loc)
                rt.gput(st, 'has', k, 1)
                return [Ptr(rt.HPAIR, k, 0), toint(Not(had))]
            return g
        M = HMAP.replace('^', '(^| )')
        add(M + r'(try_)?emplace<', 'std::map of handlers', emplace(False, True))
        add(M + r'insert_or_assign<', 'std::map of handlers', emplace(True, True))
        add(M + r'insert[(<]', 'std::map of handlers', emplace(False, False))
        add(HMAP + r'find\(', 'std::map of handlers', finder)

        add(HMAP + r'(c?end)\(\)', 'std::map of handlers', lambda ex, st, a, loc: Ptr(rt.HPAIR, END, 0))
        add(HMAP + r'(map|~map)\(', 'std::map of handlers', lambda ex, st, a, loc: None)
        add(HMAP + r'count\(', 'std::map of handlers', lambda ex, st, a, loc: If(Ne(toint(rt.gsel(st, 'has', key(ex, st, a[1], loc))), 0), 1, 0))

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = ex.load(st, a[0], PTR, loc), ex.load(st, a[1], PTR, loc)
                r = Eq(x.idx, y.idx)
                return Not(r) if neg else r
            return f
        add(r'^std::operator==\(' + HIT, 'std::map of handlers', cmp(False))
        add(r'^std::operator!=\(' + HIT, 'std::map of handlers', cmp(True))

        def deref(ex, st, a, loc):
            v = ex.load(st, a[0], PTR, loc)
            ex.oblige(st, Ne(v.idx, END), 'mem:the end of the handler table is not used', loc, 'mem')
            return Ptr(rt.HPAIR, v.idx, 0)
        add('^' + HIT + r'::operator(\*|->)\(\)', 'std::map of handlers', deref)

        def close(ex, st, a, loc):
            rt.setg(st, 'closed', st.ghost['closed'] + (a[0].idx,))
            return None
        add(r'^UFifo::invalidate\(\)$', 'FIFO::invalidate', close)
        if 'addh' in self.uses and present(self.mod, ADDH):
            def addh(ex, st, a, loc):
                rt.setg(st, 'registered', st.ghost['registered'] + ((a[0], a[1], a[2]),))
                return None
            add(ADDH, 'SystemSignalHandler::addHandler', addh, False)

        def handle(ex, st, a, loc):
            rt.setg(st, 'handed', st.ghost['handed'] + ((a[0], a[1].idx),))
            return None
        add(HANDLE, 'a scheduler starts a kernel', handle)
        nop = lambda ex, st, a, loc: None
        add(r'^std::(recursive_)?mutex::(~?(recursive_)?mutex)\(\)$', 'std::mutex', nop)
        add(r'^std::vector<simple_schedule::thread_info_t\*, .*>::(~?vector)\(\)$', 'std::vector', nop)
        super().pre_contracts(add)


class SRun(MRun):
    def __init__(self, mod, uses=(), cls=Sig, tag='C20'):
        self.tag = tag
        super().__init__(mod, uses, cls)

    def obl(self, s, g, name):
        self.ex.oblige(s, g, '[%s] ' % self.tag + name)

    def table_same(self, s, but, what):
        q = self.ex.sym('q!any', None)
        f = self.f
        o = Not(Eq(q, but)) if but is not None else True
        self.obl(s, Implies(o, And(Eq(toint(f.gsel(s, 'has', q)), toint(f.gsel(self.st, 'has', q))),
                                   Implies(Ne(toint(f.gsel(self.st, 'has', q)), 0), Eq(f.entry(s, q), f.entry(self.st, q))))), what)


def t_add(mod):
    r = SRun(mod)
    f, ex = r.f, r.ex
    sig, h = ex.sym('signal', 4), ex.sym('handler')
    ex.assume(r.st, h > 0)
    for s, k, v in r.call(ADDH, [Ptr(f.hs), sig, Ptr(f.HF, h, 0)]):
        r.obl(s, k == 'ret', 'registering a handler throws nothing')
        r.obl(s, And(Ne(toint(f.gsel(s, 'has', sig)), 0), Eq(f.entry(s, sig), h)), 'the handler registered last for a signal is the one kept')
        r.table_same(s, sig, 'registering a handler leaves those of the other signals alone')
        r.obl(s, len(s.ghost['calls']) == 0, 'registering a handler calls none')
    return r


def t_call(mod):
    r = SRun(mod)
    f, ex = r.f, r.ex
    sig, fi, da = ex.sym('signal', 4), ex.sym('stream'), ex.sym('data')
    ex.assume(r.st, And(fi > 0, 0 <= sig))
    q = ex.sym('q!any', None)
    # entries are made by addHandler: they hold a function
    has, h = Ne(toint(f.gsel(r.st, 'has', sig)), 0), f.entry(r.st, sig)
    ex.assume(r.st, Implies(has, h > 0))
    data = Region('handler data', kind='opaque', size=8)
    for s, k, v in r.call(CALLH, [Ptr(f.hs), sig, Ptr(f.FIFO, fi, 0), Ptr(f.K, f.ka, 0), Ptr(data)]):
        c = s.ghost['calls']
        r.table_same(s, None, 'handling a signal leaves the handlers as they are')
        r.obl(s, Implies(has, len(c) == 1), 'the handler of a signal is called, once')
        r.obl(s, Implies(Not(has), And(len(c) == 0, k == 'exc')), 'a signal nobody handles is reported with NoSignalHandlerFoundException')
        if k == 'exc' and len(c) == 0:
            r.obl(s, exc_named(f, v), 'a signal nobody handles is reported with NoSignalHandlerFoundException')
        if len(c) == 1:
            hh, a0, a1, a2, a3, st_ = c[0]
            r.obl(s, Eq(hh, h), 'the handler called is the one registered for the signal')
            r.obl(s, And(a0.r is f.FIFO, Eq(a0.idx, fi), a0.off == 0), 'the handler gets the stream the signal came on')
            r.obl(s, And(a1.r is f.K, Eq(a1.idx, f.ka)), 'the handler gets the kernel the signal reached')
            r.obl(s, Eq(a2, sig), 'the handler gets the signal')
            r.obl(s, isinstance(a3, Ptr) and a3.r is data, 'the handler gets the data')
            if k == 'ret':
                r.obl(s, Eq(v, st_), "the handler's answer is passed on")
    return r


def exc_named(f, v):
    from rt_ports import exc_is
    return exc_is(f, v, 'TI_NSH')


def t_quit(mod):
    r = SRun(mod)
    f, ex = r.f, r.ex
    sig, fi = ex.sym('signal', 4), ex.sym('stream')
    ex.assume(r.st, fi > 0)
    for s, k, v in r.call(r'^Schedule::quitHandler\(', [Ptr(f.FIFO, fi, 0), Ptr(f.K, f.ka, 0), sig, NULL]):
        c = s.ghost['closed']
        r.obl(s, k == 'ret' and Eq(v, f.C.V_STOP), 'the quit handler stops the kernel')
        r.obl(s, len(c) >= 1 and And(*[Eq(x, fi) for x in c]), 'the quit handler closes the stream the signal came on, and no other')
    return r


def t_sched(mod):
    """a scheduler made for a map: it knows the lists of that map, handles quit; scheduling a kernel adds it to the
    lists it belongs to and starts it once"""
    r = SRun(mod, ('add', 'ports', 'addh'))
    f, ex, C = r.f, r.ex, r.f.C
    sch = Region('a scheduler', size=C.S_SIZE)
    r.st.cells(sch)
    for s, k, v in r.call(r'^simple_schedule::simple_schedule\(raft::map&\)$', [Ptr(sch), Ptr(f.map)]):
        reg = s.ghost['registered']
        q = [x for x in reg if not isz(x[1]) and x[1] == C.V_QUIT]
        r.obl(s, k == 'ret', 'making a scheduler throws nothing')
        r.obl(s, len(q) >= 1 and isinstance(q[-1][2], FnVal) and r.f.mod.dem.get(q[-1][2].name, '').startswith('Schedule::quitHandler('), 'a scheduler handles the quit signal')
        r.obl(s, all(isinstance(x[0], Ptr) and x[0].r is sch and x[0].off == C.S_HANDLERS for x in reg), 'a scheduler registers its handlers with itself')
        r.members(s, {}, 'making a scheduler')
        if k != 'ret':
            continue
        for s2, k2, v2 in r.call(r'^Schedule::scheduleKernel\(raft::kernel\*\)$', [Ptr(sch), Ptr(f.K, f.ka, 0)], s):
            r.tag = 'C12'
            h = s2.ghost['handed']
            r.obl(s2, k2 == 'ret', 'scheduling a kernel throws nothing')
            r.obl(s2, len(h) == 1 and And(h[0][0].r is sch, Eq(h[0][1], f.ka)), 'a kernel handed to the scheduler is started once')
            r.tag = 'C12,C19'
            ka = {n: x[:1] for n, x in joining(r).items()}
            ka['DST'] = [(Eq(f.N(r.st, 2 * f.ka + 1), 0), f.ka)]
            r.members(s2, ka, 'scheduling a kernel')
            r.tag = 'C20'
    return r


TASKS = [('sig.add', t_add, {'C20'}, 1), ('sig.call', t_call, {'C20'}, 1), ('sig.quit', t_quit, {'C20'}, 1), ('sig.scheduler', t_sched, {'C20', 'C12', 'C19'}, 1)]
