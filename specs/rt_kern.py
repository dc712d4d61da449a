"""C23: the ready-made kernels: read_each, write_each, print, kernels made of a function, arrays offered as ports.

Ghosts: CUR the stream an element was looked at last, VIS how many of its elements were shown, P how many of them
were handed over (to the inserter, the output stream, the user's container), T how many were taken off it; TK[f] tells whether
elements were taken off stream f in the whole call, ANSZ[f] what it last said when asked for its size."""
import z3
from irparse import PTR
import symex
from symex import Region, Ptr, NULL, ABase, AConst, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported
from fifo import I64, I32, I8
from rt_ports import strlit, sameval
from rt_split import Flow, FRun, Fresh, CRun
import rt_ports

TAG = '[C23] '


class Adapt(Flow):
    """a ready-made kernel k; the streams of its ports as their users see them"""

    def setup(self, ex):
        st = super().setup(ex)
        g, C, k = st.ghost, self.C, self.K.fields
        for n in ('VIS', 'CUR', 'DEL', 'ADV'):
            g[n] = 0
        g['TK'] = AConst(0)
        self.n = ex.sym('nitems')
        self.b = ex.sym('begin')
        ex.assume(st, And(Le(0, self.b), Le(self.b, self.n), Lt(self.n, 1 << 56)))
        self.SRC = Region('container', kind='arr', stride=8, length=self.n, fields={0: (8, 'int')}, meta={'autofields': False})
        st.cells(self.SRC)
        self.OS = Region('ostream', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        self.own_fields(k)
        return st

    def own_fields(self, k):
        pass

    FIELDS = ()

    def source(self, ex, st, f, loc):
        """an element of stream f is looked at"""
        g = st.ghost
        ex.oblige(st, self.listed(f, self.inm), TAG + 'elements are read from inputs of the kernel only', loc)
        cur = g['CUR']
        same = Eq(cur, f)
        ex.oblige(st, Or(same, Eq(g['T'], g['P'])), TAG + 'every element handed over is taken off its stream', loc)
        if ex.entails(st, same):
            return
        # another stream: what waits there is not known
        for n in ('T', 'P', 'VIS'):
            self.setg(st, n, 0)
        self.setg(st, 'CUR', f)
        for r, o, z in ((self.STORE, 0, 8), (self.SIG, self.C.OFF_SIG_SIG, self.C.SZ_SIG_SIG)):
            st.cells(r)[o] = (z, ABase('waiting%d' % next(self.nmaps), z))
            if st.log is not None:
                st.log.add(('arr', r, o, z))

    def over(self, ex, st, v, loc, where):
        """an element is handed over"""
        g = st.ghost
        p = g['P']
        ex.oblige(st, Lt(p, g['VIS']), TAG + 'only elements that are there are handed over', loc)
        ex.oblige(st, Eq(v, ex.load(st, Ptr(self.STORE, self.at(p), 0), I64, loc)), TAG + 'elements are handed over in order, with their value', loc)
        self.setg(st, 'P', p + 1)

    def put(self, ex, st, f, v, s, loc):
        """read_each: an element placed on stream f"""
        p = st.ghost['P']
        ex.oblige(st, Eq(f, self.dest) if self.dest is not None else False, TAG + 'elements are placed on the output only', loc)
        ok = Lt(self.b + p, self.n)
        ex.oblige(st, ok, TAG + 'no more elements are placed than the container has', loc)
        ex.oblige(st, Implies(ok, Eq(v, ex.arr_field(st, self.SRC, 0, 8).select(ex, self.b + p))), TAG + 'the elements of the container are placed in order, with their value', loc)
        ex.oblige(st, Eq(s, 0), TAG + 'the elements of the container carry no signal', loc)
        self.setg(st, 'P', p + 1)

    def fifo_contracts(self, add):
        rt = self
        super().fifo_contracts(lambda rx, n, f: None if any(x in rx for x in ('peek', 'recycle', 'pop', 'capacity')) else add(rx, n, f))

        def peek_range(ex, st, a, loc):
            f = a[0].idx
            rt.source(ex, st, f, loc)
            n, t = a[3], st.ghost['T']
            ex.assume(st, Le(t + n, rt.cap))
            ex.store(st, a[1], PTR, Ptr(rt.STORE, 0, 0), loc)
            ex.store(st, a[2], PTR, Ptr(rt.SIG, 0, 0), loc)
            ex.store(st, a[4], I64, rt.at(t), loc)
            rt.setg(st, 'VIS', t + n)

        def peek(ex, st, a, loc):
            rt.source(ex, st, a[0].idx, loc)
            t = st.ghost['T']
            ex.assume(st, Lt(t, rt.cap))
            ex.store(st, a[1], PTR, Ptr(rt.STORE, rt.at(t), 0), loc)
            if isinstance(a[2], Ptr) and a[2].r is not None:
                ex.store(st, a[2], I32, ex.fresh('signal', 4), loc)
            v = st.ghost['VIS']
            rt.setg(st, 'VIS', If(Lt(v, t + 1), t + 1, v))

        def recycle(ex, st, a, loc):
            t, f = st.ghost['T'], a[0].idx
            ex.oblige(st, Or(Eq(a[1], 0), And(Eq(f, st.ghost['CUR']), Le(t + a[1], st.ghost['P']))), TAG + 'no element is taken off a stream that was not handed over', loc)
            rt.setg(st, 'T', t + a[1])
            rt.gput(st, 'TK', f, If(Lt(0, a[1]), 1, rt.gsel(st, 'TK', f)))

        def pop(ex, st, a, loc):
            f = a[0].idx
            rt.source(ex, st, f, loc)
            t = st.ghost['T']
            ex.oblige(st, Eq(t, st.ghost['P']), TAG + 'every element taken off a stream is handed over', loc)
            ex.assume(st, Lt(t, rt.cap))
            ex.store(st, a[1], I64, ex.load(st, Ptr(rt.STORE, rt.at(t), 0), I64, loc), loc)
            if isinstance(a[2], Ptr) and a[2].r is not None:
                ex.store(st, a[2], I32, ex.fresh('signal', 4), loc)
            rt.setg(st, 'VIS', t + 1)
            rt.setg(st, 'T', t + 1)
            rt.gput(st, 'TK', f, 1)
        add(r'^UFifo::capacity\(\)$', 'stream: capacity()', lambda ex, st, a, loc: If(Eq(a[0].idx, st.ghost['CUR']), rt.cap, ex.fresh('capacity', 8)))
        add(r'^UFifo::local_peek_range\(', 'stream: peek_range (C04)', peek_range)
        add(r'^UFifo::local_peek\(', 'stream: peek (C04)', peek)
        add(r'^UFifo::local_recycle\(', 'stream: recycle (C04)', recycle)
        add(r'^UFifo::local_pop\(', 'stream: pop (C01)', pop)
        add(r'^UFifo::unpeek\(\)$', 'stream: unpeek (C04)', lambda ex, st, a, loc: None)

    def pre_contracts(self, add):
        rt = self

        def star(ex, st, a, loc):
            return a[0]

        def assign(ex, st, a, loc):
            ex.oblige(st, Eq(st.ghost['ADV'], st.ghost['ALL']), TAG + 'the output iterator is moved on by one for every element', loc)
            ex.oblige(st, ex.load(st, a[0], I64, loc) == rt.insid if False else Eq(ex.load(st, a[0], I64, loc), rt.insid), TAG + "elements are handed to the user's iterator", loc)
            rt.over(ex, st, ex.load(st, a[1], I64, loc), loc, 'inserter')
            rt.setg(st, 'ALL', st.ghost['ALL'] + 1)
            return a[0]

        def incr(ex, st, a, loc):
            ex.oblige(st, Eq(st.ghost['ADV'] + 1, st.ghost['ALL']), TAG + 'the output iterator is moved on by one for every element', loc)
            rt.setg(st, 'ADV', st.ghost['ADV'] + 1)
            return a[0]
        add(r'^UOut::operator\*\(\)$', "user's output iterator", star)
        add(r'^UOut::operator=\(unsigned long const&\)$', "user's output iterator", assign)
        add(r'^UOut::operator\+\+\(\)$', "user's output iterator", incr)

        def mine(ex, st, p, loc):
            ok = isinstance(p, Ptr) and p.r is rt.OS
            ex.oblige(st, Eq(p.idx, rt.osid) if ok else False, TAG + 'prints to the stream it was given', loc)

        def show(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            ex.oblige(st, Eq(st.ghost['DEL'], 0), TAG + 'the delimiter follows every element', loc)
            rt.over(ex, st, a[1], loc, 'ostream')
            rt.setg(st, 'DEL', 1 if rt.delim else 0)
            return a[0]

        def char(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            ex.oblige(st, And(Eq(st.ghost['DEL'], 1), Eq(a[1], rt.delim)), TAG + 'only the delimiter is printed besides the elements', loc)
            rt.setg(st, 'DEL', 0)
            return a[0]
        add(r'^std::ostream::operator<<\(unsigned long\)$', 'std::ostream', show)
        add(r'^std::(basic_)?ostream<char, std::char_traits<char>>& std::operator<<<std::char_traits<char>>\(std::(basic_)?ostream<char, std::char_traits<char>>&, char\)$', 'std::ostream', char)
        super().pre_contracts(add)

    delim = 0
    insid = osid = -1


class ARun(FRun):
    HOOK = Adapt

    def __init__(self, mod, side, fields):
        self.mod = mod
        f = self.f = self.HOOK(mod, side)
        f.own_fields = lambda k: [k.__setitem__(getattr(f.C, n), x(f)) for n, x in fields]
        ex = self.ex = symex.Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        self.st.ghost['ALL'] = 0
        f.setup_contracts(ex)
        self.init_globals()

    def obl(self, s, g, name):
        self.ex.oblige(s, g, TAG + name)

    def set(self, off, v):
        """a field of the kernel"""
        self.ex.store(self.st, Ptr(self.f.K, self.f.k, off), PTR if isinstance(v, Ptr) else I64, v)


RE = 'raft::readeach<unsigned long, unsigned long const*>'
WE = 'raft::writeeach<unsigned long, UOut>'
PRINT = {0: 'raft::print<unsigned long, (char)0>', 35: 'raft::print<unsigned long, (char)35>'}
esc = symex.re.escape if hasattr(symex, 're') else __import__('re').escape
SRCP = lambda f: (8, ('ptr', f.SRC))
OSP = lambda f: (8, ('ptr', f.OS))
INT = lambda f: (8, 'int')


def t_readeach(mod):
    r = ARun(mod, 1, [('W_RE_BEGIN', SRCP), ('W_RE_END', SRCP)])
    f, ex, C = r.f, r.ex, r.f.C
    r.set(C.W_RE_BEGIN, Ptr(f.SRC, f.b, 0))
    r.set(C.W_RE_END, Ptr(f.SRC, f.n, 0))
    f.dest = r.stream_of(2 * f.k + 1, '0')

    def cands(ex, fn, entry, hav, fr):
        out = []
        for key, old, new in hav:
            def at(ex, s, fr, key=key):
                v = symex.cur(ex, s, key, fr)
                if not isinstance(v, Ptr) or v.r is not f.SRC:
                    raise Unsupported('cand')
                return v.idx
            if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r is f.SRC:
                out.append(symex.Cand('%s counts the elements placed' % symex.kname(key), lambda ex, s, e, fr, f0, at=at: Eq(at(ex, s, fr), f.b + s.ghost['P'])))
                out.append(symex.Cand('%s inside the container' % symex.kname(key), lambda ex, s, e, fr, f0, at=at: And(Le(f.b, at(ex, s, fr)), Le(at(ex, s, fr), f.n))))
        here = lambda s: ex.load(s, Ptr(f.K, f.k, C.W_RE_BEGIN), PTR).idx
        out.append(symex.Cand('the kernel counts the elements placed', lambda ex, s, e, fr, f0: Eq(here(s), f.b + s.ghost['P'])))
        out.append(symex.Cand('nothing left allocated', lambda ex, s, e, fr, f0: Eq(s.ghost['slot'], 0)))
        out.append(symex.Cand('elements placed', lambda ex, s, e, fr, f0: And(Le(0, s.ghost['P']), Le(f.b + s.ghost['P'], f.n))))
        return out
    f.extra_cands = [cands]
    for s, k, v in r.call('^' + esc(RE) + r'::run\(\)$', [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'read_each: throws nothing')
            continue
        r.obl(s, Eq(f.b + s.ghost['P'], f.n), 'read_each: every element of the container was placed on the output')
        r.obl(s, Eq(s.ghost['slot'], 0), 'read_each: no memory of the output stream is left allocated')
        r.obl(s, Eq(v, C.V_STOP), 'read_each: stops after the last element')
        r.unchanged(s, 'read_each')
    return r


def served(r, s, what, q):
    f = r.f
    r.obl(s, Eq(s.ghost['T'], s.ghost['P']), what + ': every element handed over was taken off its stream')
    fq = f.stream(s, f.node(s, 2 * f.k, q))
    r.obl(s, Implies(And(Le(0, q), Lt(q, f.n0)), Ne(f.gsel(s, 'ANSZ', fq), -1)), what + ': looks at every input')
    r.obl(s, Implies(And(Le(0, q), Lt(q, f.n0), Lt(0, f.gsel(s, 'ANSZ', fq))), Lt(0, f.gsel(s, 'TK', fq))), what + ': takes from every input that has an element')
    r.unchanged(s, what)


def preds(f):
    return [('asked', lambda ex, s, e, nd, p: Ne(f.gsel(s, 'ANSZ', f.stream(s, nd)), -1)),
            ('served', lambda ex, s, e, nd, p: Implies(Lt(0, f.gsel(s, 'ANSZ', f.stream(s, nd))), Lt(0, f.gsel(s, 'TK', f.stream(s, nd)))))]


def counters(f):
    def cands(ex, fn, entry, hav, fr):
        G = lambda n, g: symex.Cand(n, lambda ex, s, e, fr, f0: g(s.ghost, e.ghost))
        out = [G('everything handed over was taken off', lambda g, e: Eq(g['T'], g['P'])), G('not before the elements taken off', lambda g, e: Le(g['T'], g['P'])),
               G('iterator moved on', lambda g, e: Eq(g['ADV'], g['ALL'])), G('delimiter printed', lambda g, e: Eq(g['DEL'], 0)),
               G('nothing taken off before', lambda g, e: Eq(g['T'], 0)), G('counts', lambda g, e: And(Le(0, g['T']), Le(0, g['P'])))]
        for key, old, new in hav:
            if key[0] in ('cell', 'phi') and not isinstance(old, Ptr) and (key[0] != 'cell' or key[3] == 8):
                out.append(symex.Cand('%s counts what was handed over' % symex.kname(key), lambda ex, s, e, fr, f0, key=key: Eq(symex.cur(ex, s, key, fr), s.ghost['P'] - e.ghost['P'])))
        return out
    return cands


def t_writeeach(mod):
    r = ARun(mod, 0, [('W_WE_INS', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    f.outside, f.inm = False, 2 * f.k
    f.insid = ex.sym('iterator')
    r.set(C.W_WE_INS, f.insid)
    f.portpreds = preds(f)
    f.extra_cands = [counters(f)]
    for s, k, v in r.call('^' + esc(WE) + r'::run\(\)$', [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'write_each: throws nothing')
            continue
        served(r, s, 'write_each', f.p)
        r.obl(s, Eq(s.ghost['ADV'], s.ghost['ALL']), 'write_each: the output iterator is moved on by one for every element')
        r.obl(s, Eq(v, C.V_PROCEED), 'write_each: asks to be run again')
    return r


def t_print(mod, delim):
    p = 'W_PR' if delim else 'W_PR0'
    r = ARun(mod, 0, [(p + '_OFS', OSP), (p + '_CNT', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    f.outside, f.inm, f.delim = False, 2 * f.k, delim
    f.osid = ex.sym('ostream')
    ex.assume(r.st, Lt(0, f.osid))
    r.set(getattr(C, p + '_OFS'), Ptr(f.OS, f.osid, 0))
    f.portpreds = preds(f)
    f.extra_cands = [counters(f)]
    for s, k, v in r.call('^' + esc(PRINT[delim]) + r'::run\(\)$', [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'print: throws nothing')
            continue
        served(r, s, 'print', f.p)
        r.obl(s, Eq(s.ghost['DEL'], 0), 'print: the delimiter follows every element')
        r.obl(s, Eq(v, C.V_PROCEED), 'print: asks to be run again')
    return r



# ---------------------------------------------------------------- construction
LFN = r'^std::function<raft::kstatus \(Port&, Port&\)>::'
COUT = 1


class AFresh(Adapt):
    """memory of a kernel that is about to be constructed"""
    setup_more = Fresh.setup

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.K.meta['ignore'] = (0, C.K_INPUT, C.K_OUTPUT, C.K_INPUT + C.P_PORTMAP, C.K_OUTPUT + C.P_PORTMAP)   # vtable pointers
        return st

    def pre_contracts(self, add):
        from rt_split import fresh_contracts
        fresh_contracts(self, add)
        rt = self

        def copy(ex, st, a, loc):
            ex.store(st, a[0], I64, ex.load(st, a[1], I64, loc), loc)

        def call(ex, st, a, loc):
            O = lambda g, n: ex.oblige(st, g, TAG + 'a kernel made of a function: ' + n, loc)
            O(Eq(ex.load(st, a[0], I64, loc), rt.fid), 'calls the function it was made of')
            O(Eq(st.ghost['CALLS'], 0), 'calls it once per run')
            for x, o, n in ((a[1], rt.C.K_INPUT, 'inputs'), (a[2], rt.C.K_OUTPUT, 'outputs')):
                O(And(x.r is rt.K, Eq(x.idx, rt.k), Eq(x.off, o)), 'hands it its ' + n)
            rt.setg(st, 'CALLS', 1)
            return rt.answer
        add(LFN + r'function\(std::function<.*> const&\)', 'std::function', copy)
        add(LFN + r'function\(std::function<.*>&&\)', 'std::function', copy)
        add(LFN + r'~function\(\)', 'std::function', lambda ex, st, a, loc: None)
        add(LFN + r'operator\(\)', 'std::function', call)
        super().pre_contracts(add)

    fid = answer = -1
    keys = ()

    def known_lookups(self, ex, st):
        return [self.lookup(st, m, strlit('0') + t) for m, t in self.keys]


class KRun(ARun):
    HOOK = AFresh

    def __init__(self, mod, fields):
        super().__init__(mod, 0, fields)
        f, ex = self.f, self.ex
        self.st.ghost['CALLS'] = 0
        g = ex.global_ptr
        ex.global_ptr = lambda name: Ptr(f.OS, COUT, 0) if name == '_ZSt4cout' else g(name)
        self.j = ex.sym('j!any', None)
        self.q = ex.sym('k!other', None)
        ex.assume(self.st, And(Lt(0, self.q), Ne(self.q, f.k)))

    def numbered(self, upto):
        """invariants of loops that declare ports "0", "1", ... (upto: the containers)"""
        f, j = self.f, self.j

        def cands(ex, fn, entry, hav, fr):
            out = []
            for m in upto:
                n = lambda s, m=m: f.N(s, m)
                S = '%s: ' % ('inputs', 'outputs', 'inputs of the original', 'outputs of the original')[upto.index(m) if len(upto) > 1 else f.side]
                out += [symex.Cand(S + 'numbers so far are ports', lambda ex, s, e, fr, f0, n=n, m=m: Implies(And(Le(0, j), Lt(j, n(s))), Ne(f.lookup(s, m, strlit('0') + j), 0))),
                        symex.Cand(S + 'numbers from here on are free', lambda ex, s, e, fr, f0, t=None, n=n, m=m: Implies(Le(n(s), j if t is None else t), Eq(f.lookup(s, m, strlit('0') + (j if t is None else t)), 0)),
                                   instance=lambda ex, s, e, fr, f0, n=n, m=m: Eq(f.lookup(s, m, strlit('0') + n(s)), 0)),
                        symex.Cand(S + 'unchanged', lambda ex, s, e, fr, f0, n=n: Eq(n(s), n(e))), symex.Cand(S + 'counted', lambda ex, s, e, fr, f0, n=n: Le(0, n(s))),
                        symex.Cand(S + 'their type', lambda ex, s, e, fr, f0, n=n, m=m: Implies(And(Le(0, j), Lt(j, n(s))), self.typed(s, m, j))),
                        symex.Cand('other kernels keep their ports', lambda ex, s, e, fr, f0, m=m: Eq(f.N(s, m - 2 * f.k + 2 * self.q), f.N(e, m - 2 * f.k + 2 * self.q)))]
                for key, old, new in hav:
                    if key[0] in ('cell', 'phi') and not isinstance(old, Ptr) and (key[0] != 'cell' or key[3] == 8):
                        out.append(symex.Cand(S + '%s counts the ports' % symex.kname(key), lambda ex, s, e, fr, f0, key=key, n=n: Eq(symex.cur(ex, s, key, fr), n(s))))
            return out
        f.extra_cands.append(cands)

    def typed(self, s, m, j, ti='TI_U64'):
        f = self.f
        return Eq(f.info(s, f.lookup(s, m, strlit('0') + j), 'TYPE'), f.typeid(f.ti(ti)))

    def ports(self, s, what, side, n, s0=None):
        """ports "0".."n-1" of the element type"""
        f, j, m = self.f, self.j, 2 * self.f.k + side
        w = ('input', 'output')[side]
        self.obl(s, Eq(f.N(s, m), n), '%s: has as many %s ports as asked for' % (what, w))
        self.obl(s, Implies(And(Le(0, j), Lt(j, n)), Ne(f.lookup(s, m, strlit('0') + j), 0)), '%s: its %s ports are numbered from 0' % (what, w))
        self.obl(s, Implies(And(Le(0, j), Lt(j, n)), self.typed(s, m, j)), '%s: its %s ports are of its element type' % (what, w))
        self.obl(s, Eq(f.N(s, 2 * self.q + side), f.N(s0 or self.st, 2 * self.q + side)), '%s: other kernels keep their ports' % what)

    def field(self, s, off, size=8, ty=I64):
        return self.ex.load(s, Ptr(self.f.K, self.f.k, off), ty)


def t_readeach_ctor(mod, copy):
    r = KRun(mod, [('W_RE_BEGIN', SRCP), ('W_RE_END', SRCP), ('W_NAMEIDX', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    b, e = Ptr(f.SRC, f.b, 0), Ptr(f.SRC, f.n, 0)
    if copy:
        for o, v in ((C.W_RE_BEGIN, b), (C.W_RE_END, e)):
            ex.store(r.st, Ptr(f.K, r.q, o), PTR, v)
        args, rx = [Ptr(f.K, r.q, 0)], r'::readeach\(raft::readeach<.*> const&\)$'
    else:
        args, rx = [Region('b', size=8), Region('e', size=8)], r'::readeach\(unsigned long const\*&, unsigned long const\*&\)$'
        for x, v in zip(args, (b, e)):
            r.st.cells(x)[0] = (8, v)
        args = [Ptr(x) for x in args]
    for s, k, v in r.call('^' + esc(RE) + rx, [Ptr(f.K, f.k, 0)] + args):
        if k == 'exc':
            r.obl(s, False, 'read_each: construction throws nothing')
            continue
        r.ports(s, 'read_each', 0, 0)
        r.ports(s, 'read_each', 1, 1)
        for o, x, n in ((C.W_RE_BEGIN, b, 'first'), (C.W_RE_END, e, 'last')):
            r.obl(s, sameval(r.field(s, o, ty=PTR), x), 'read_each: reads the container it was given (%s)' % n)
    return r


def t_writeeach_ctor(mod, copy):
    r = KRun(mod, [('W_WE_INS', INT), ('W_NAMEIDX', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    it = ex.sym('iterator')
    if copy:
        ex.store(r.st, Ptr(f.K, r.q, C.W_WE_INS), I64, it)
        args, rx = [Ptr(f.K, r.q, 0)], r'::writeeach\(raft::writeeach<.*> const&\)$'
    else:
        x = Region('it', size=8)
        r.st.cells(x)[0] = (8, it)
        args, rx = [Ptr(x)], r'::writeeach\(UOut&\)$'
    for s, k, v in r.call('^' + esc(WE) + rx, [Ptr(f.K, f.k, 0)] + args):
        if k == 'exc':
            r.obl(s, False, 'write_each: construction throws nothing')
            continue
        r.ports(s, 'write_each', 0, 1)
        r.ports(s, 'write_each', 1, 0)
        r.obl(s, Eq(r.field(s, C.W_WE_INS), it), 'write_each: writes to the iterator it was given')
    return r


def t_print_ctor(mod, delim, how):
    p = 'W_PR' if delim else 'W_PR0'
    r = KRun(mod, [(p + '_OFS', OSP), (p + '_CNT', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    OFS = getattr(C, p + '_OFS')
    n, os = ex.sym('n_input_ports'), ex.sym('ostream')
    ex.assume(r.st, And(Le(0, n), Lt(n, 1 << 40), Lt(0, os)))
    sts = [r.st]
    K = lambda k: [2 * k, 2 * k + 1]
    w = 'print'
    if how == 'cout':
        args, rx, os = [n], r'\(unsigned long\)$', COUT
    elif how == 'stream':
        args, rx = [Ptr(f.OS, os, 0), n], r'\(std::ostream&, unsigned long\)$'
    else:
        # the original is made first, with n ports
        w = 'a copy of print'
        r.numbered(K(f.k) + K(r.q))
        sts = [s for s, k, v in r.call('^' + esc(PRINT[delim]) + r'::print\(std::ostream&, unsigned long\)$', [Ptr(f.K, r.q, 0), Ptr(f.OS, os, 0), n]) if k == 'ret']
        args, rx = [Ptr(f.K, r.q, 0)], r'\(raft::print<.*> const&\)$'
    if how != 'copy':
        r.numbered(K(f.k))
    for s0 in sts:
        for s, k, v in r.call('^' + esc(PRINT[delim]) + '::print' + rx, [Ptr(f.K, f.k, 0)] + args, s0):
            if k == 'exc':
                r.obl(s, False, w + ': construction throws nothing')
                continue
            r.ports(s, w, 0, n, s0)
            r.ports(s, w, 1, 0, s0)
            r.obl(s, sameval(r.field(s, OFS, ty=PTR), Ptr(f.OS, os, 0)), w + ': prints to the stream it was given')
    return r


def t_lambda_run(mod):
    r = KRun(mod, [('W_L1_FUNC', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    f.fid, f.answer = ex.sym('function'), ex.sym('answer', 4)
    r.set(C.W_L1_FUNC, f.fid)
    for s, k, v in r.call(r'^raft::lambdak<unsigned long>::run\(\)$', [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'a kernel made of a function: throws nothing itself')
            continue
        r.obl(s, Eq(s.ghost['CALLS'], 1), 'a kernel made of a function: calls it once per run')
        r.obl(s, Eq(v, f.answer), 'a kernel made of a function: answers what the function answers')
    return r


def t_lambda_ctor(mod, types):
    r = KRun(mod, [('W_L1_FUNC', INT)])
    f, ex, C = r.f, r.ex, r.f.C
    ni, no = ex.sym('inputs'), ex.sym('outputs')
    ex.assume(r.st, And(Le(0, ni), Le(0, no), Lt(ni, 1 << 40), Lt(no, 1 << 40)))
    if len(types) > 1:
        ex.assume(r.st, Eq(ni + no, len(types)))
    f.fid = ex.sym('function')
    x = Region('func', size=32)
    r.st.cells(x)[0] = (8, f.fid)
    r.numbered([2 * f.k, 2 * f.k + 1])
    nm = {'TI_U64': 'unsigned long', 'TI_I32': 'int'}
    for s, k, v in r.call(r'^raft::lambdak<%s>::lambdak\(' % ', '.join(nm[t] for t in types), [Ptr(f.K, f.k, 0), ni, no, Ptr(x)]):
        w = 'a kernel made of a function'
        if k == 'exc':
            r.obl(s, False, w + ': construction throws nothing')
            continue
        if len(types) == 1:
            r.ports(s, w, 0, ni)
            r.ports(s, w, 1, no)
        else:
            for side, n, o in ((0, ni, 0), (1, no, ni)):
                m = 2 * f.k + side
                r.obl(s, Eq(f.N(s, m), n), w + ': has as many ports as asked for')
                for i in range(len(types)):
                    r.obl(s, Implies(Lt(i, n), Ne(f.lookup(s, m, strlit('0') + i), 0)), w + ': its ports are numbered from 0')
                    for t, ti in enumerate(types):
                        r.obl(s, Implies(And(Lt(i, n), Eq(o + i, t)), r.typed(s, m, i, ti)), w + ': the types belong to its inputs and then its outputs, in order')
        r.obl(s, Eq(r.field(s, C.W_L1_FUNC), f.fid), w + ': keeps the function')
    return r


def t_foreach_ctor(mod):
    r = KRun(mod, [])
    f, ex, C = r.f, r.ex, r.f.C
    base, items, n, j = ex.sym('array'), ex.sym('items'), ex.sym('nports'), r.j
    ex.assume(r.st, And(Lt(0, base), Lt(base, 1 << 60), Le(0, items), Lt(items, 1 << 50), Le(1, n), Lt(n, 1 << 40)))
    m = 2 * f.k + 1
    f.side = 1
    r.numbered([2 * f.k, m])
    # the quotient of the division, and its multiples as a function: TIMES(i) = i * per
    per, rem = ex.sym('per_port'), ex.sym('remainder')
    TIMES = z3.Function('TIMES', z3.IntSort(), z3.IntSort())
    ex.assume(r.st, And(Le(0, per), Le(per, items), Le(0, rem), Lt(rem, n), Le(rem, items), Eq(TIMES(z3.IntVal(0)), 0), Eq(TIMES(n), items - rem)))

    def times(st, i):
        ex.assume(st, And(Eq(TIMES(i + 1), TIMES(i) + per), Implies(And(Le(0, i), Lt(i, n)), And(Le(0, TIMES(i)), Le(TIMES(i), items - rem - per)))))
        return TIMES(i)
    # the two facts used, for products
    a, b, c = ex.sym('lemma_i'), ex.sym('lemma_n'), ex.sym('lemma_per')
    r.obl(r.st, Implies(And(Le(0, a), Lt(a, b), Le(0, c)), And(Le(0, a * c), Le(a * c, b * c - c))), 'lemma: multiples of the share of a port')
    div, arith = ex.symdiv, ex.binop

    def symdiv(st, x, y, isdiv):
        if ex.entails(st, And(Eq(x, items), Eq(y, n))):
            return per if isdiv else rem
        return div(st, x, y, isdiv)

    def binop(st, op, ty, x, y, loc):
        if op == 'mul':
            for p, i in ((x, y), (y, x)):
                if isz(p) and p.eq(per) and not isinstance(i, int):
                    return times(st, i)
        return arith(st, op, ty, x, y, loc)
    ex.symdiv, ex.binop = symdiv, binop
    times(r.st, j)
    times(r.st, n - 1)
    at = lambda s, i, fld: f.info(s, f.lookup(s, m, strlit('0') + i), fld)
    FLD = [('START', lambda s, i: Eq(at(s, i, 'START'), TIMES(i)), 'start'), ('NITEMS', lambda s, i: Eq(at(s, i, 'NITEMS'), per + If(Eq(i, n - 1), rem, 0)), 'size'),
           ('EXISTING', lambda s, i: sameval(at(s, i, 'EXISTING'), base + 8 * TIMES(i)), 'place'), ('MYKERNEL', lambda s, i: sameval(at(s, i, 'MYKERNEL'), f.k), 'kernel')]

    def cands(ex, fn, entry, hav, fr):
        return [symex.Cand('share of port %s: %s' % (t, nm), lambda ex, s, e, fr, f0, g=g, q=q: Implies(And(Le(0, q), Lt(q, f.N(s, m))), g(s, q)))
                for _, g, nm in FLD for t, q in (('j', j), ('j+1', j + 1), ('n-1', n - 1), ('0', z3.IntVal(0)))]
    f.extra_cands.append(cands)
    f.keys = [(m, t) for t in (j, j + 1, n - 1, z3.IntVal(0))]
    for s, k, v in r.call(r'^raft::for_each<unsigned long>::for_each\(', [Ptr(f.K, f.k, 0), Ptr(f.BUF, base, 0), items, n]):
        if k == 'exc':
            r.obl(s, False, 'for_each: construction throws nothing')
            continue
        r.ports(s, 'for_each', 0, 0)
        r.ports(s, 'for_each', 1, n)
        start, size = lambda i: at(s, i, 'START'), lambda i: at(s, i, 'NITEMS')
        here = And(Le(0, j), Lt(j, n))
        r.obl(s, Eq(start(z3.IntVal(0)), 0), 'for_each: the first port starts at the first element')
        r.obl(s, Implies(And(Le(0, j), Lt(j + 1, n)), Eq(start(j + 1), start(j) + size(j))), 'for_each: each port starts where the one before it ends')
        r.obl(s, Eq(start(n - 1) + size(n - 1), items), 'for_each: the last port ends with the last element')
        r.obl(s, Implies(here, sameval(at(s, j, 'EXISTING'), base + 8 * start(j))), 'for_each: each port offers the memory where it starts')
        r.obl(s, Implies(here, sameval(at(s, j, 'MYKERNEL'), f.k)), 'for_each: each port belongs to the kernel')
    return r


P = {'C23'}
TASKS = [('readeach.run', t_readeach, P, 1), ('writeeach.run', t_writeeach, P, 1), ('print.run', lambda m: t_print(m, 0), P, 1), ('print.run.delim', lambda m: t_print(m, 35), P, 1),
         ('readeach.ctor', lambda m: t_readeach_ctor(m, False), P, 1), ('readeach.copy', lambda m: t_readeach_ctor(m, True), P, 1),
         ('writeeach.ctor', lambda m: t_writeeach_ctor(m, False), P, 1), ('writeeach.copy', lambda m: t_writeeach_ctor(m, True), P, 1)]
for d_, n_ in ((0, ''), (35, '.delim')):
    for h_ in ('cout', 'stream', 'copy'):
        TASKS.append(('print.%s%s' % (h_, n_), lambda m, d=d_, h=h_: t_print_ctor(m, d, h), P, 1))
TASKS += [('lambdak.run', t_lambda_run, P, 1), ('lambdak.ctor', lambda m: t_lambda_ctor(m, ['TI_U64']), P, 1),
          ('lambdak.ctor3', lambda m: t_lambda_ctor(m, ['TI_U64', 'TI_I32', 'TI_U64']), P, 1), ('for_each.ctor', t_foreach_ctor, P, 1)]
