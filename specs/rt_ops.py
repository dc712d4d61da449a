"""Contracts of the run-time layer's functions (see rt.py for the model)."""
import re
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, State, Arr, ABase, AConst, AStore, Contract, Exec,
                   And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported, FnVal, Undef)
from fifo import Consts, AFun, I64, I32, I8
from fifo_ops import find
from rt import RT, C_, strlit


def present(mod, rx):
    try:
        find(mod, rx)
        return True
    except Unsupported:
        return False


# ===================================================================== C12: one kernel, scheduled
HASDATA = r'^Schedule::kernelHasInputData\(raft::kernel\*\)$'
NOIN = r'^Schedule::kernelHasNoInputPorts\(raft::kernel\*\)$'
INVAL = r'^Schedule::invalidateOutputPorts\(raft::kernel\*\)$'
KRUN = r'^Schedule::kernelRun\(raft::kernel\*, bool volatile&\)$'


class Sched(RT):
    """an arbitrary kernel k with any number of input and output ports; the upstream kernels push
    into and close its input streams at any moment (rely: counts of input streams only grow, a closed
    stream stays closed and takes no more elements)"""

    def setup(self, ex):
        st = super().setup(ex)
        self.k = ex.sym('k')
        ex.assume(st, self.k > 0)
        g = st.ghost
        C = self.C
        for n in ('cnt', 'open'):
            g[n] = ABase(n.upper(), 8)
        g['INV'] = AConst(0)
        g['Z'] = AConst(0)
        for n in ('dw', 'zw'):
            g[n] = -1
        g['opn'] = 0
        g['zs'] = 0
        g['runs'] = 0
        g['stopped'] = 0
        g['stopreq'] = 0
        g['taken'] = 0
        g['sigfront'] = ABase('SIGFRONT', 4)
        for n in ('pin', 'pinpeek', 'pout', 'poutpeek', 'popped', 'handled'):
            g[n] = AConst(0)
        self.sb = self.kfield(st, self.k, C.K_SCHED)
        ex.assume(st, Or(Eq(self.sb, C.V_ANYPORT), Eq(self.sb, C.V_ALLPORT)))
        self.p = ex.sym('p!any', None)
        self.fa = ex.sym('f!any', None)
        ni, no = self.N(st, 2 * self.k), self.N(st, 2 * self.k + 1)
        ex.axiom(z3.And(ni >= 0, no >= 0))
        self.nin, self.nout = ni, no
        self.modular = True
        return st

    def node_axioms(self, st, nd):
        super().node_axioms(st, nd)
        if isz(nd) and ('lnk', nd.get_id()) not in self.ex._axseen:
            self.ex._axseen.add(('lnk', nd.get_id()))
            n = self.st0.ghost['N'].select(self.ex, self.fOWN(nd))
            f = self.FA.select(self.ex, nd)
            # ports of a scheduled kernel are linked
            self.ex.axiom(z3.Implies(z3.And(nd > 0, self.fPOS(nd) >= 0, self.fPOS(nd) < n), f > 0))

    # -- observations
    def sin(self, st, p):
        return self.port(st, 2 * self.k, p)

    def sout(self, st, p):
        return self.port(st, 2 * self.k + 1, p)

    def inr(self, p):
        return And(Le(0, p), Lt(p, self.nin))

    def outr(self, p):
        return And(Le(0, p), Lt(p, self.nout))

    def cnt(self, st, f):
        v = self.gsel(st, 'cnt', f)
        return v

    def opn(self, st, f):
        return self.gsel(st, 'open', f)

    def env(self, ex, st, f):
        """whatever the other ends did to stream f up to now"""
        c0, o0 = self.cnt(st, f), self.opn(st, f)
        c, o = ex.fresh('cnt', 8), ex.fresh('open', 1)
        ex.assume(st, And(Le(0, c0), Le(0, o), Le(o, 1), Implies(Eq(o0, 0), Eq(o, 0))))
        ex.assume(st, Implies(self.isin(f, self.k), And(Le(c0, c), Implies(Eq(o0, 0), Eq(c, c0)))))
        self.gput(st, 'cnt', f, c)
        self.gput(st, 'open', f, o)
        return c, o

    def fid(self, p):
        if not isinstance(p, Ptr) or p.r is not self.FIFO:
            raise Unsupported('stream %r' % (p,))
        return p.idx

    def fifo_contracts(self, add):
        rt = self

        def size(ex, st, a, loc):
            f = rt.fid(a[0])
            c, o = rt.env(ex, st, f)
            rt.gput(st, 'Z', f, If(Eq(c, 0), 1, rt.gsel(st, 'Z', f)))
            isn = rt.isin(f, rt.k)
            pos = rt.fPOS(rt.fINP(f))
            rt.setg(st, 'dw', If(And(isn, Lt(0, c)), pos, st.ghost['dw']))
            rt.setg(st, 'zw', If(And(isn, Eq(c, 0)), pos, st.ghost['zw']))
            rt.setg(st, 'zs', If(And(isn, Eq(c, 0)), 1, st.ghost['zs']))
            return c

        def is_invalid(ex, st, a, loc):
            f = rt.fid(a[0])
            c, o = rt.env(ex, st, f)
            rt.setg(st, 'opn', If(And(rt.isin(f, rt.k), Eq(o, 1)), 1, st.ghost['opn']))
            return If(Eq(o, 0), 1, 0)

        def invalidate(ex, st, a, loc):
            f = rt.fid(a[0])
            rt.gput(st, 'INV', f, 1)
            rt.gput(st, 'open', f, 0)
            return None

        def run(ex, st, a, loc):
            k = a[0]
            if not isinstance(k, Ptr) or k.r is not rt.K:
                raise Unsupported('run on %r' % (k,))
            ex.oblige(st, Eq(k.idx, rt.k), '[C12] only the scheduled kernel is run', loc)
            ex.oblige(st, Eq(st.ghost['stopped'], 0), '[C12] a kernel that returned stop is not run again', loc)
            rt.runnable(ex, st, loc)
            r = ex.fresh('status', 4)
            rt.setg(st, 'stopped', If(Eq(r, rt.C.V_STOP), 1, 0))
            rt.setg(st, 'runs', 1)
            rt.havoc_streams(ex, st, True)
            return r
        add(r'^UFifo::size\(\)$', 'stream: size()', size)
        add(r'^UFifo::is_invalid\(\)$', 'stream: is_invalid()', is_invalid)
        add(r'^UFifo::invalidate\(\)$', 'stream: invalidate()', invalidate)
        add(r'^UKernel::run\(\)$', 'kernel: run() (arbitrary user code)', run)

        def setset(nm):
            def f(ex, st, a, loc):
                rt.gput(st, nm, rt.fid(a[0]), 1 if isinstance(a[1], Ptr) and a[1].r is rt.setarg.get(nm) else 2)
                return None
            return f
        for m, nm in (('PtrMap', 'pin'), ('InPeekSet', 'pinpeek'), ('PtrSet', 'pout'), ('OutPeekSet', 'poutpeek')):
            add(r'^UFifo::set%s\(' % m, 'stream: in-flight pointer sets', setset(nm))

        def sysp(st, f):
            v = st.ghost['sigfront'].select(rt.ex, f)
            return And(Lt(0, v), Lt(v, rt.C.V_MAXSIG))

        def signal_peek(ex, st, a, loc):
            f = rt.fid(a[0])
            ex.oblige(st, Lt(0, rt.cnt(st, f)), '[C12,C20] a signal is looked at only where an element is queued', loc)
            return st.ghost['sigfront'].select(ex, f)

        def signal_pop(ex, st, a, loc):
            f = rt.fid(a[0])
            ex.oblige(st, Eq(st.ghost['taken'], 0), '[C12,C20] a signal that was taken is handled before the next is taken', loc)
            rt.setg(st, 'taken', f)
            ex.oblige(st, And(Lt(0, rt.cnt(st, f)), sysp(st, f)), '[C12,C20] only system signals are taken from a stream', loc)
            rt.gput(st, 'popped', f, 1)
            return None

        def handler(ex, st, a, loc):
            sig, f = a[1], rt.fid(a[2])
            ex.oblige(st, And(Eq(sig, st.ghost['sigfront'].select(ex, f)), Eq(st.ghost['taken'], f)),
                      '[C12,C20] the handler of a signal gets that signal and its stream, once', loc)
            ex.oblige(st, Eq(a[3].idx, rt.k), '[C12,C20] the handler gets the kernel', loc)
            r = ex.fresh('status', 4)
            rt.gput(st, 'handled', f, 1)
            rt.setg(st, 'taken', 0)
            rt.setg(st, 'stopreq', If(Eq(r, rt.C.V_STOP), 1, st.ghost['stopreq']))
            s2 = st.clone()
            return [(st, 'ret', r), (s2, 'exc', {'type': '_ZTI29NoSignalHandlerFoundException', 'ptr': UNDEF, 'loc': loc})]
        add(r'^UFifo::signal_peek\(\)', 'stream: signal_peek()', signal_peek)
        add(r'^UFifo::signal_pop\(\)', 'stream: signal_pop()', signal_pop)
        if 'handler' in self.uses:
            add(r'^SystemSignalHandler::callHandler\(', 'SystemSignalHandler::callHandler', handler, False)
        if self.modular_for('hasdata'):
            add(HASDATA, 'Schedule::kernelHasInputData', self.c_hasdata, False)
        if self.modular_for('noin'):
            add(NOIN, 'Schedule::kernelHasNoInputPorts', self.c_noin, False)
        if self.modular_for('inval'):
            add(INVAL, 'Schedule::invalidateOutputPorts', self.c_inval, False)
        if self.modular_for('krun'):
            add(KRUN, 'Schedule::kernelRun', self.c_krun, False)

    uses = ()
    setarg = {}

    def modular_for(self, what):
        return what in self.uses and present(self.mod, dict(hasdata=HASDATA, noin=NOIN, inval=INVAL, krun=KRUN)[what])

    def havoc_streams(self, ex, st, run):
        """anything may have happened to any stream: user code ran, or an unknown number of observations"""
        g = st.ghost
        oc, oo = g['cnt'], g['open']
        nc, no = ABase(ex.fresh_name('cnt'), 8), ABase(ex.fresh_name('open'), 8)
        rt = self

        def link(f):
            c0, o0, c, o = oc.select(ex, f), oo.select(ex, f), nc.select(ex, f), no.select(ex, f)
            ex.assume(st, And(Le(0, c), Le(0, o), Le(o, 1), Implies(Eq(o0, 0), Eq(o, 0))))
            if not run:
                ex.assume(st, Implies(rt.isin(f, rt.k), And(Le(c0, c), Implies(Eq(o0, 0), Eq(c, c0)))))
        self.setg(st, 'cnt', nc)
        self.setg(st, 'open', no)
        link(self.sin(st, self.p))
        return link

    def runnable(self, ex, st, loc):
        """precondition of run(): the scheduling rule of the kernel is met by the data actually queued"""
        dw = st.ghost['dw']
        C = self.C
        anyp = And(self.inr(dw), Lt(0, self.cnt(st, self.sin(st, dw))))
        allp = Implies(self.inr(self.p), Lt(0, self.cnt(st, self.sin(st, self.p))))
        ex.oblige(st, Implies(And(Lt(0, self.nin), Eq(self.sb, C.V_ANYPORT)), anyp),
                  '[C12] an any_port kernel with inputs runs only when some input has data', loc)
        ex.oblige(st, Implies(And(Lt(0, self.nin), Eq(self.sb, C.V_ALLPORT)), allp),
                  '[C12] an all_port kernel runs only when every input has data', loc)

    # -- contracts of the helpers; `assume` at calls, `oblige` against the body
    def post_hasdata(self, s, r):
        C, p = self.C, self.p
        isany, isall = Eq(self.sb, C.V_ANYPORT), Eq(self.sb, C.V_ALLPORT)
        cp = self.cnt(s, self.sin(s, p))
        dw, zw = s.ghost['dw'], s.ghost['zw']
        T_ = Ne(toint(r), 0)
        return [
            ('a kernel without inputs is always ready', Implies(Eq(self.nin, 0), T_)),
            ('any_port: ready means some input has data', Implies(And(Lt(0, self.nin), isany, T_), And(self.inr(dw), Lt(0, self.cnt(s, self.sin(s, dw)))))),
            ('any_port: not ready means every input was seen empty',
             Implies(And(isany, Not(T_), self.inr(p)), And(Eq(cp, 0), Eq(self.gsel(s, 'Z', self.sin(s, p)), 1)))),
            ('all_port: ready means every input has data', Implies(And(Lt(0, self.nin), isall, T_, self.inr(p)), Lt(0, cp))),
            ('all_port: not ready means some input was seen empty',
             Implies(And(isall, Not(T_)), And(self.inr(zw), Eq(self.cnt(s, self.sin(s, zw)), 0), Eq(s.ghost['zs'], 1)))),
        ]

    def c_hasdata(self, ex, st, a, loc):
        ex.oblige(st, Eq(a[0].idx, self.k), '[C12] the readiness test looks at the scheduled kernel', loc)
        link = self.havoc_streams(ex, st, False)
        oz = st.ghost['Z']
        nz = ABase(ex.fresh_name('Z'), 8)
        self.setg(st, 'Z', nz)
        for n in ('dw', 'zw'):
            self.setg(st, n, ex.fresh(n))
        for i in (self.p, st.ghost['dw'], st.ghost['zw']):
            f = self.sin(st, i)
            link(f)
            ex.assume(st, Implies(Eq(oz.select(ex, f), 1), Eq(nz.select(ex, f), 1)))
        r = ex.fresh('ready', 1)
        zs = ex.fresh('zs', 1)
        ex.assume(st, And(Le(r, 1), Le(zs, 1), Implies(Eq(st.ghost['zs'], 1), Eq(zs, 1))))
        self.setg(st, 'zs', zs)
        for n, g in self.post_hasdata(st, r):
            ex.assume(st, g)
        return r

    def post_noin(self, s, r, opn0):
        return [('true means every input was seen closed', Implies(And(Ne(toint(r), 0), self.inr(self.p)), Eq(self.opn(s, self.sin(s, self.p)), 0))),
                ('false means some input was seen open', Implies(Eq(toint(r), 0), Eq(s.ghost['opn'], 1)))]

    def c_noin(self, ex, st, a, loc):
        ex.oblige(st, Eq(a[0].idx, self.k), '[C12] the closed-input test looks at the scheduled kernel', loc)
        self.havoc_streams(ex, st, False)
        o = ex.fresh('opn', 1)
        ex.assume(st, And(Le(o, 1), Implies(Eq(st.ghost['opn'], 1), Eq(o, 1))))
        self.setg(st, 'opn', o)
        r = ex.fresh('closed', 1)
        ex.assume(st, Le(r, 1))
        for n, g in self.post_noin(st, r, None):
            ex.assume(st, g)
        return r

    def post_inval(self, s, inv0):
        f = self.fa
        return [('every output of the kernel is closed', Implies(self.outr(self.p), Eq(self.gsel(s, 'INV', self.sout(s, self.p)), 1))),
                ('no other stream is closed', Implies(And(Eq(self.gsel(s, 'INV', f), 1), Ne(inv0.select(self.ex, f), 1)), self.isout(f, self.k))),
                ('closed outputs stay closed', Implies(Eq(inv0.select(self.ex, f), 1), Eq(self.gsel(s, 'INV', f), 1)))]

    def c_inval(self, ex, st, a, loc):
        ex.oblige(st, Eq(a[0].idx, self.k), '[C12] outputs of the scheduled kernel are closed', loc)
        i0 = st.ghost['INV']
        self.setg(st, 'INV', ABase(ex.fresh_name('INV'), 8))
        for n, g in self.post_inval(st, i0):
            ex.assume(st, g)
        # open bits of the outputs are not used by any contract of this kernel; those of its inputs are untouched unless they are its outputs
        oo = st.ghost['open']
        no = ABase(ex.fresh_name('open'), 8)
        f = self.sin(st, self.p)
        self.setg(st, 'open', no)
        ex.assume(st, Implies(Eq(oo.select(ex, f), 0), Eq(no.select(ex, f), 0)))
        return None

    def done_reason(self, s):
        """nothing is left to do for the kernel: all inputs closed, and (any) all drained / (all) one drained"""
        C, p = self.C, self.p
        cp = self.cnt(s, self.sin(s, p))
        zw = s.ghost['zw']
        return And(Lt(0, self.nin),
                   Implies(self.inr(p), Eq(self.opn(s, self.sin(s, p)), 0)),
                   Implies(And(Eq(self.sb, C.V_ANYPORT), self.inr(p)), Eq(cp, 0)),
                   Implies(Eq(self.sb, C.V_ALLPORT), And(self.inr(zw), Eq(self.cnt(s, self.sin(s, zw)), 0))))

    def post_krun(self, s, fin0, fin, inv0, stopped0):
        C, p = self.C, self.p
        f = self.fa
        g = s.ghost
        F = Ne(toint(fin), 0)
        cp = self.cnt(s, self.sin(s, p))
        zp = self.gsel(s, 'Z', self.sin(s, p))
        dw = g['dw']
        return [
            ('a kernel that returned stop is finished', Implies(Ne(g['stopped'], 0), F)),
            ('a finished kernel stays finished', Implies(Ne(toint(fin0), 0), F)),
            ('a kernel that finishes has all its outputs closed', Implies(And(F, Eq(fin0, 0), self.outr(p)), Eq(self.gsel(s, 'INV', self.sout(s, p)), 1))),
            ('a kernel finishes only when it returned stop or its inputs are closed and drained', Implies(And(F, Eq(fin0, 0)), Or(Ne(g['stopped'], 0), self.done_reason(s)))),
            ('only outputs of the kernel are closed', Implies(And(Eq(self.gsel(s, 'INV', f), 1), Ne(inv0.select(self.ex, f), 1)), self.isout(f, self.k))),
            ('outputs are closed only when the kernel finishes', Implies(And(Eq(self.gsel(s, 'INV', f), 1), Ne(inv0.select(self.ex, f), 1)), F)),
            ('closed outputs stay closed', Implies(Eq(inv0.select(self.ex, f), 1), Eq(self.gsel(s, 'INV', f), 1))),
            ('a kernel whose inputs were seen closed and drained is finished',
             Implies(And(Not(F), Lt(0, self.nin)), Or(Eq(g['opn'], 1), And(Eq(self.sb, C.V_ANYPORT), self.inr(dw), Lt(0, self.cnt(s, self.sin(s, dw)))),
                                                      And(Eq(self.sb, C.V_ALLPORT), Implies(self.inr(p), Lt(0, cp)))))),
            ('a kernel that is ready is run', Implies(Eq(g['runs'], 0), And(Lt(0, self.nin), Implies(And(Eq(self.sb, C.V_ANYPORT), self.inr(p)), Eq(zp, 1)),
                                                      Implies(Eq(self.sb, C.V_ALLPORT), Eq(g['zs'], 1))))),
        ]

    def flag_cands(self, items, on, off):
        """a 4 byte local that tells whether a ghost flag is up"""
        def f(ex, fn, entry, hav, fr):
            out = []
            for key, old, new in hav:
                if key[0] == 'cell' and key[3] == 4 and not isinstance(old, (Ptr, Undef)):
                    for n, g in items:
                        out.append(symex.Cand('%s tells: %s' % (symex.kname(key), n),
                                   lambda ex, s, e, f, f0, key=key, g=g: Eq(toint(symex.cur(ex, s, key, f)), If(Ne(g(s), 0), on, off))))
            return out
        return f

    def frame(self, s, what):
        f = self.fa
        self.ex.oblige(s, Eq(self.gsel(s, 'INV', f), 0), '[C12] %s: closes no stream' % what)


class SRun:
    def __init__(self, mod, uses=()):
        self.mod = mod
        f = self.f = Sched(mod)
        f.uses = uses
        ex = self.ex = Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)

    def call(self, rx, args, st=None):
        fn = find(self.mod, rx)
        self.ex.cur = self.mod.dem[fn.name]
        return self.ex.run_function(fn, args, (st or self.st).clone())

    def ret_only(self, outs, what, tags):
        for s, k, v in outs:
            if k == 'exc':
                self.ex.oblige(s, False, '[%s] %s: throws nothing' % (tags, what))
            elif k == 'ret':
                yield s, v
            else:
                raise Unsupported('outcome ' + k)

    def kp(self):
        return Ptr(self.f.K, self.f.k, 0)


def post(r, s, tag, what, items):
    for n, g in items:
        r.ex.oblige(s, g, '[%s] %s: %s' % (tag, what, n))


def t_hasdata(mod):
    r = SRun(mod)
    f = r.f
    f.portpreds = [('seen empty', lambda ex, s, e, nd, p: And(Eq(f.cnt(s, f.stream(s, nd)), 0), Eq(f.gsel(s, 'Z', f.stream(s, nd)), 1))),
                   ('have data', lambda ex, s, e, nd, p: Lt(0, f.cnt(s, f.stream(s, nd))))]
    for s, v in r.ret_only(r.call(HASDATA, [r.kp()]), 'kernelHasInputData', 'C12'):
        post(r, s, 'C12', 'kernelHasInputData', f.post_hasdata(s, v))
        f.frame(s, 'kernelHasInputData')
    return r


def t_noin(mod):
    r = SRun(mod)
    f = r.f
    f.portpreds = [('seen closed', lambda ex, s, e, nd, p: Eq(f.opn(s, f.stream(s, nd)), 0))]
    for s, v in r.ret_only(r.call(NOIN, [r.kp()]), 'kernelHasNoInputPorts', 'C12'):
        post(r, s, 'C12', 'kernelHasNoInputPorts', f.post_noin(s, v, 0))
        f.frame(s, 'kernelHasNoInputPorts')
    return r


def t_inval(mod):
    r = SRun(mod)
    f = r.f
    f.portpreds = [('closed', lambda ex, s, e, nd, p: Eq(f.gsel(s, 'INV', f.stream(s, nd)), 1))]
    f.invariants = [('only outputs closed', lambda ex, s, e: Implies(Eq(f.gsel(s, 'INV', f.fa), 1), f.isout(f.fa, f.k)))]
    inv0 = r.st.ghost['INV']
    for s, v in r.ret_only(r.call(INVAL, [r.kp()]), 'invalidateOutputPorts', 'C12'):
        post(r, s, 'C12', 'invalidateOutputPorts', f.post_inval(s, inv0))
    return r


def finflag(r, v):
    fr = Region('finished', size=1)
    r.st.cells(fr)[0] = (1, v)
    return fr


def t_krun(mod):
    r = SRun(mod, uses=('hasdata', 'noin', 'inval'))
    f, ex = r.f, r.ex
    fin0 = ex.sym('finished0', 1)
    ex.assume(r.st, Le(fin0, 1))
    fr = finflag(r, fin0)
    inv0 = r.st.ghost['INV']
    for s, v in r.ret_only(r.call(KRUN, [r.kp(), Ptr(fr)]), 'kernelRun', 'C12'):
        fin = ex.load(s, Ptr(fr), I8)
        post(r, s, 'C12', 'kernelRun', f.post_krun(s, fin0, fin, inv0, 0))
    return r


# ===================================================================== C12: the thread-per-kernel scheduler
SIMPLE_RUN = r'^simple_schedule::simple_run\(void\*\)$'
HANDLE = r'^simple_schedule::handleSchedule\(raft::kernel\*\)$'
START = r'^simple_schedule::start\(\)$'
PTRSETS = r'^Schedule::setPtrSets\('
FIFOGC = r'^Schedule::fifo_gc\('
INFLIGHT = r'std::(map<unsigned long, std::function<void \(void\*\)>|set<unsigned long,)'


class Simple(Sched):
    """a simple_schedule over arbitrary kernel sets"""

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        g = st.ghost
        self.TINFO = Region('thread_info', kind='arr', stride=C.T_SIZE, length=None, meta={'pool': True, 'autofields': False})
        t = self.TINFO.fields
        t[C.T_FIN] = (1, 'bool')
        t[C.T_TERM] = (1, 'bool')
        t[C.T_DATA + C.D_K] = (8, ('ptr', self.K))
        t[C.T_DATA + C.D_FIN] = (8, ('ptr', None))
        t[C.T_DATA + C.D_LOC] = (8, 'int')
        self.TINFO.shared = True
        st.cells(self.TINFO)
        self.TM = Region('thread_map', kind='arr', stride=8, length=None, fields={0: (8, ('ptr', self.TINFO))}, meta={'autofields': False, 'len': lambda s: s.ghost['tmn']})
        tm = z3.Function('THREAD', z3.IntSort(), z3.IntSort())

        def entry(ex, i):
            t = tm(i if isz(i) else z3.IntVal(i))
            ex.axiom(t > 0)
            return Ptr(self.TINFO, t, 0)
        st.cells(self.TM)[0] = (8, AFun(entry))
        g['tmn'] = ex.sym('n_threads')
        ex.assume(st, And(Le(0, g['tmn']), Lt(g['tmn'], 1 << 32)))
        self.this = Region('scheduler', size=C.S_SIZE)
        c = st.cells(self.this)
        c[0] = (8, self.vtable('simple_schedule'))
        self.keepers = {}
        for i, n in enumerate(('all', 'source', 'dst', 'internal')):
            r = Region('keeper_' + n, size=C.KP_SIZE)
            st.cells(r)[0] = (8, UNDEF)
            c[C.S_ALL + 8 * i] = (8, Ptr(r, 0, 0))
            e = Region('set_' + n, kind='arr', stride=8, length=None, fields={0: (8, ('ptr', self.K))}, meta={'autofields': False, 'len': lambda s, n=n: s.ghost['n_' + n]})
            st.cells(e)
            self.keepers[r] = (n, e)
            self.seqs[e] = (lambda s, n=n: s.ghost['n_' + n], [])
            g['n_' + n] = ex.sym('n_' + n)
            ex.assume(st, And(Le(0, g['n_' + n]), Lt(g['n_' + n], 1 << 32)))
            g['mem_' + n] = ABase('MEM_' + n, 1)
        self.ALL = self.keepers[[r for r in self.keepers][0]][1]
        g['sched'] = AConst(0)      # kernels handed to a thread
        g['joined'] = ABase('JOINED', 1)
        g['held'] = 0               # thread map lock
        g['spawn'] = ()
        g['appended'] = ()
        g['spawned_k'] = AConst(0)
        g['gc'] = 0
        self.seqs[self.TM] = (lambda s: s.ghost['tmn'], [])
        return st

    def kid(self, s, reg, i):
        v = self.ex.arr_field(s, reg, 0, 8).select(self.ex, i)
        return v.idx if isinstance(v, Ptr) else v

    def on_shared(self, ex, st, p, size, op, v, loc):
        C = self.C
        if p.r is self.TINFO and p.off == C.T_FIN and op == 'load' and self.watch:
            # the kernel's own thread may set its finished flag at any moment
            old = ex.arr_field(st, self.TINFO, C.T_FIN, 1).select(ex, p.idx)
            n = ex.fresh('finished', 1)
            ex.assume(st, And(Le(n, 1), Implies(Ne(old, 0), Eq(n, 1))))
            c = st.cells(self.TINFO)
            c[C.T_FIN] = (1, AStore(ex.arr_field(st, self.TINFO, C.T_FIN, 1), p.idx, n))
            if st.log is not None:
                st.log.add(('arr', self.TINFO, C.T_FIN, 1))

    watch = False
    header = None

    def loop_header_axioms(self, ex, s, entry):
        if self.header:
            self.header(ex, s, entry)

    def more_contracts(self, add):
        rt = self
        nop = lambda ex, st, a, loc: None

        def own(a, r, off):
            return isinstance(a, Ptr) and a.r is r and a.off == off

        def try_lock(ex, st, a, loc):
            out = []
            for got in (True, False):
                s = st.clone()
                if got and own(a[0], rt.this, rt.C.S_MUTEX):
                    ex.oblige(s, Eq(s.ghost['held'], 0), '[C12] the thread list lock is not taken twice', loc)
                    rt.setg(s, 'held', 1)
                    n = ex.fresh('n_threads')
                    ex.assume(s, And(Le(s.ghost['tmn'], n), Lt(n, 1 << 33)))
                    rt.setg(s, 'tmn', n)
                out.append((s, 'ret', 1 if got else 0))
            return out

        def unlock(ex, st, a, loc):
            if own(a[0], rt.this, rt.C.S_MUTEX):
                ex.oblige(st, Eq(st.ghost['held'], 1), '[C12] only a held lock is released', loc)
                rt.setg(st, 'held', 0)
            return None
        add(r'^std::mutex::try_lock\(\)$', 'std::mutex', try_lock)
        add(r'^std::mutex::lock\(\)$', 'std::mutex', lambda ex, st, a, loc: [x for x in try_lock(ex, st, a, loc) if x[2] == 1][:1] and [(x[0], 'ret', None) for x in try_lock(ex, st, a, loc) if x[2] == 1])
        add(r'^std::mutex::unlock\(\)$', 'std::mutex', unlock)
        add(r'std::this_thread::(yield|sleep_for)', 'waiting', nop)
        # the thread list
        V = r'^std::vector<simple_schedule::thread_info_t\*, .*>::'

        def locked(ex, st, loc):
            ex.oblige(st, Eq(st.ghost['held'], 1), '[C12] the thread list is used only with its lock held', loc)

        def vbegin(ex, st, a, loc):
            locked(ex, st, loc)
            return Ptr(rt.TM, 0, 0)

        def vend(ex, st, a, loc):
            locked(ex, st, loc)
            return Ptr(rt.TM, st.ghost['tmn'], 0)
        add(V + r'c?begin\(\)', 'std::vector', vbegin)
        add(V + r'c?end\(\)', 'std::vector', vend)
        add(V + r'size\(\)', 'std::vector', lambda ex, st, a, loc: st.ghost['tmn'])

        def vpush(ex, st, a, loc):
            locked(ex, st, loc)
            v = ex.load(st, a[1], PTR, loc)
            rt.setg(st, 'appended', st.ghost['appended'] + (v,))
            rt.setg(st, 'tmn', st.ghost['tmn'] + 1)
            return Ptr(rt.TM, st.ghost['tmn'] - 1, 0)
        add(r'(^| )' + V[1:] + r'(emplace|push)_back', 'std::vector', vpush)
        # kernel sets
        SET = r'std::set<raft::kernel\*, [^>]*>, [^>]*>>::'

        def sr(a):
            if not isinstance(a, Ptr) or a.r not in rt.keepers or a.off != rt.C.KP_SET:
                raise Unsupported('kernel set %r' % (a,))
            return rt.keepers[a.r]
        add(SET + r'c?begin\(\)', 'std::set', lambda ex, st, a, loc: Ptr(sr(a[0])[1], 0, 0))
        add(SET + r'c?end\(\)', 'std::set', lambda ex, st, a, loc: Ptr(sr(a[0])[1], st.ghost['n_' + sr(a[0])[0]], 0))

        def emplace(ex, st, a, loc):
            n, e = sr(a[0])
            k = ex.load(st, a[1], PTR, loc)
            if not isinstance(k, Ptr) or k.r is not rt.K:
                raise Unsupported('set element')
            rt.gput(st, 'mem_' + n, k.idx, 1)
            return [Ptr(e, ex.fresh('at'), 0), ex.fresh('ins', 1)]
        add(SET[:-2] + r'::(emplace|insert)', 'std::set', emplace)
        SI = r'std::_Rb_tree_const_iterator<raft::kernel\*>'
        add('^' + SI + r'::operator\*\(\)', 'std::set iterator', lambda ex, st, a, loc: rt.deref(ex, st, a[0], loc))

        def inc(ex, st, a, loc):
            v = ex.load(st, a[0], PTR, loc)
            ex.store(st, a[0], PTR, Ptr(v.r, v.idx + 1, 0), loc)
            return a[0]
        add('^' + SI + r'::operator\+\+\(\)', 'std::set iterator', inc)

        def ne(neg):
            def f(ex, st, a, loc):
                x, y = ex.load(st, a[0], PTR, loc), ex.load(st, a[1], PTR, loc)
                r = And(x.r is y.r, Eq(x.idx, y.idx))
                return Not(r) if neg else r
            return f
        add(r'^std::operator!=\(' + SI, 'std::set iterator', ne(True))
        add(r'^std::operator==\(' + SI, 'std::set iterator', ne(False))
        # threads

        def spawn(ex, st, a, loc):
            d = ex.load(st, a[2], PTR, loc)
            rt.setg(st, 'spawn', st.ghost['spawn'] + ((a[0], a[1], d, ex.load(st, Ptr(d.r, d.idx, d.off + rt.C.D_K), PTR, loc), ex.load(st, Ptr(d.r, d.idx, d.off + rt.C.D_FIN), PTR, loc),
                                                                  ex.load(st, ex.load(st, Ptr(d.r, d.idx, d.off + rt.C.D_FIN), PTR, loc), I8, loc)),))
            return None
        add(r'^std::thread::thread<void \(&\)\(void\*\)', 'std::thread', spawn)

        def join(ex, st, a, loc):
            p = a[0]
            if not isinstance(p, Ptr) or p.r is not rt.TINFO or p.off != rt.C.T_TH:
                raise Unsupported('join %r' % (p,))
            ex.oblige(st, Eq(rt.gsel(st, 'joined', p.idx), 0), '[C12] a thread is joined once', loc)
            rt.gput(st, 'joined', p.idx, 1)
            return None
        add(r'^std::thread::join\(\)', 'std::thread', join)
        add(r'^raft::affinity::', 'affinity', nop)
        # in-flight pointer sets: local objects of the run loop
        add(r'(^| )' + INFLIGHT + r'.*::~?(map|set)\(\)$', 'in-flight pointer sets', nop)
        if 'gc' in self.uses and present(self.mod, FIFOGC):
            def gc(ex, st, a, loc):
                rt.setg(st, 'gc', 1)
                return None
            add(FIFOGC, 'Schedule::fifo_gc', gc, False)
        if 'sets' in self.uses and present(self.mod, PTRSETS):
            def sets(ex, st, a, loc):
                ex.oblige(st, Eq(a[0].idx, rt.k), '[C12] in-flight pointer sets are registered with the streams of the kernel that is run', loc)
                return None
            add(PTRSETS, 'Schedule::setPtrSets', sets, False)
        if 'handle' in self.uses and present(self.mod, HANDLE):
            def handle(ex, st, a, loc):
                ex.oblige(st, Eq(st.ghost['held'], 0), '[C12] a kernel is scheduled without holding the thread list lock', loc)
                ex.oblige(st, Lt(0, a[1].idx), '[C12] a kernel that exists is scheduled', loc)
                rt.gput(st, 'sched', a[1].idx, 1)
                n = ex.fresh('n_threads')
                ex.assume(st, Le(st.ghost['tmn'], n))
                rt.setg(st, 'tmn', n)
                return None
            add(HANDLE, 'simple_schedule::handleSchedule', handle, False)

    def deref(self, ex, st, p, loc):
        v = ex.load(st, p, PTR, loc)
        if not isinstance(v, Ptr) or v.r not in self.seqs:
            raise Unsupported('set iterator')
        ex.oblige(st, And(Le(0, v.idx), Lt(v.idx, self.seqs[v.r][0](st))), 'mem:iterator past the last kernel is not used', loc, 'mem')
        e = self.kid(st, v.r, v.idx)
        ex.assume(st, Lt(0, e))
        return Ptr(v.r, v.idx, 0)

    def c_krun(self, ex, st, a, loc):
        """kernelRun, as its contract says"""
        ex.oblige(st, Eq(a[0].idx, self.k), '[C12] only the scheduled kernel is run', loc)
        ex.oblige(st, Eq(st.ghost['stopped'], 0), '[C12] a kernel that returned stop is not run again', loc)
        fin0 = ex.load(st, a[1], I8, loc)
        g = st.ghost
        inv0 = g['INV']
        for n in ('cnt', 'open', 'INV', 'Z'):
            self.setg(st, n, ABase(ex.fresh_name(n), 8))
        for n in ('dw', 'zw'):
            self.setg(st, n, ex.fresh(n))
        for n in ('opn', 'zs', 'runs', 'stopped'):
            v = ex.fresh(n, 1)
            ex.assume(st, Le(v, 1))
            self.setg(st, n, v)
        fin = ex.fresh('finished', 1)
        ex.assume(st, Le(fin, 1))
        ex.store(st, a[1], I8, fin, loc)
        for n, x in self.post_krun(st, fin0, fin, inv0, 0):
            ex.assume(st, x)
        r = ex.fresh('ran', 1)
        ex.assume(st, Le(r, 1))
        return r


class SimpleRun(SRun):
    def __init__(self, mod, uses=()):
        self.mod = mod
        f = self.f = Simple(mod)
        f.uses = uses
        ex = self.ex = Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)

    def this(self):
        return Ptr(self.f.this, 0, 0)


def t_simple_run(mod):
    r = SimpleRun(mod, uses=('krun', 'gc', 'sets'))
    f, ex, C = r.f, r.ex, r.f.C
    fr = finflag(r, 0)
    d = Region('thread_data', size=C.D_SIZE)
    c = r.st.cells(d)
    c[C.D_K] = (8, r.kp())
    c[C.D_FIN] = (8, Ptr(fr))
    c[C.D_LOC] = (8, ex.sym('loc'))
    inv0 = r.st.ghost['INV']

    def fin(s):
        return ex.load(s, Ptr(fr), I8)

    def done(s):
        g, F = s.ghost, Ne(toint(fin(s)), 0)
        return [('stopped kernels are finished', Implies(Ne(g['stopped'], 0), F)),
                ('finished kernels have their outputs closed', Implies(And(F, f.outr(f.p)), Eq(f.gsel(s, 'INV', f.sout(s, f.p)), 1))),
                ('finished kernels stopped or have nothing left to do', Implies(F, Or(Ne(g['stopped'], 0), f.done_reason(s)))),
                ('only outputs of the kernel are closed, and only when it finishes', Implies(Eq(f.gsel(s, 'INV', f.fa), 1), And(F, f.isout(f.fa, f.k))))]
    f.invariants = [('the flag is a bool', lambda ex, s, e: Le(toint(fin(s)), 1))]
    f.invariants += [(n, lambda ex, s, e, i=i: done(s)[i][1]) for i, (n, _) in enumerate(done(r.st))]
    for s, v in r.ret_only(r.call(SIMPLE_RUN, [Ptr(d)]), 'simple_run', 'C12'):
        ex.oblige(s, Ne(toint(fin(s)), 0), '[C12] simple_run: the thread of a kernel ends only when the kernel is finished')
        post(r, s, 'C12', 'simple_run', done(s))
    return r


def t_handleSchedule(mod):
    r = SimpleRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    n0 = r.st.ghost['tmn']
    for s, v in r.ret_only(r.call(HANDLE, [r.this(), r.kp()]), 'handleSchedule', 'C12'):
        g = s.ghost
        w = '[C12] handleSchedule: '
        ex.oblige(s, len(g['spawn']) == 1, w + 'starts one thread')
        ex.oblige(s, len(g['appended']) == 1, w + 'the thread is entered in the thread list once')
        ex.oblige(s, Eq(g['held'], 0), w + 'leaves the lock free')
        if len(g['spawn']) == 1 and len(g['appended']) == 1:
            th, fn, d, k, finp, fin0 = g['spawn'][0]
            t = g['appended'][0]
            ok = isinstance(fn, FnVal) or isinstance(fn, Ptr)
            name = fn.name if isinstance(fn, FnVal) else None
            ex.oblige(s, name is not None and bool(re.search(SIMPLE_RUN, ex.mod.dem.get(name, name))), w + 'the thread runs the kernel loop')
            ex.oblige(s, isinstance(k, Ptr) and k.r is f.K and Eq(k.idx, f.k), w + 'the thread runs this kernel')
            ex.oblige(s, isinstance(t, Ptr) and isinstance(th, Ptr) and t.r is th.r and th.off == t.off + C.T_TH, w + 'the listed entry is the one that holds the thread')
            ex.oblige(s, isinstance(finp, Ptr) and isinstance(t, Ptr) and finp.r is t.r and finp.off == t.off + C.T_FIN, w + 'the thread reports on the flag the scheduler waits for')
            ex.oblige(s, Eq(toint(fin0), 0), w + 'the kernel starts unfinished')
            if isinstance(t, Ptr):
                ex.oblige(s, Eq(toint(ex.load(s, Ptr(t.r, t.idx, t.off + C.T_TERM), I8)), 0), w + 'the thread starts unjoined')
                k2 = ex.load(s, Ptr(t.r, t.idx, t.off + C.T_DATA + C.D_K), PTR)
                ex.oblige(s, isinstance(k2, Ptr) and k2.r is f.K and Eq(k2.idx, f.k), w + 'the thread keeps running this kernel')
    return r


def t_start(mod):
    r = SimpleRun(mod, uses=('handle',))
    f, ex, C = r.f, r.ex, r.f.C
    f.watch = True
    r.st.ghost['joined'] = AConst(0)

    def tid(s, i):
        v = f.kid(s, f.TM, i)
        return v

    def tfield(s, t, off):
        return ex.arr_field(s, f.TINFO, off, 1).select(ex, t)

    def done(s, p):
        t = tid(s, p)
        return And(Eq(tfield(s, t, C.T_TERM), 1), Eq(f.gsel(s, 'joined', t), 1))
    t0 = ex.sym('t!any', None)
    # a thread is marked ended exactly when it has been joined
    mark = lambda s: Eq(f.gsel(s, 'joined', t0), If(Eq(tfield(s, t0, C.T_TERM), 1), 1, 0))

    def header(ex, s, entry):
        term = ex.arr_field(s, f.TINFO, C.T_TERM, 1)
        s.ghost['joined'] = AFun(lambda ex, i: If(Eq(term.select(ex, i), 1), 1, 0))
    f.header = header
    c = r.st.cells(f.TINFO)
    c[C.T_TERM] = (1, AConst(0))
    f.seqs[f.ALL] = (f.seqs[f.ALL][0], [('handed to a thread', lambda ex, s, e, p: Eq(f.gsel(s, 'sched', f.kid(s, f.ALL, p)), 1))])
    f.seqs[f.TM] = (f.seqs[f.TM][0], [('joined', lambda ex, s, e, p: done(s, p))])
    f.invariants = [('a thread is marked ended exactly when it was joined', lambda ex, s, e: mark(s))]
    n = f.p
    for s, v in r.ret_only(r.call(START, [r.this()]), 'start', 'C12'):
        w = '[C12] start: '
        g = s.ghost
        ex.oblige(s, Implies(And(Le(0, n), Lt(n, g['n_all'])), Eq(f.gsel(s, 'sched', f.kid(s, f.ALL, n)), 1)), w + 'every kernel is handed to a thread')
        ex.oblige(s, Implies(And(Le(0, n), Lt(n, g['tmn'])), done(s, n)), w + 'returns only when every thread has been joined')
        ex.oblige(s, Eq(g['held'], 0), w + 'leaves the lock free')
    return r


def t_setPtrSets(mod):
    r = SRun(mod)
    f, ex = r.f, r.ex
    regs = [Region(n, kind='opaque') for n in ('in', 'out', 'peekset')]
    f.setarg = dict(pin=regs[0], pout=regs[1], pinpeek=regs[2], poutpeek=regs[2])
    ok = lambda s, n, st: Eq(f.gsel(s, n, st), 1)
    f.portpreds = [('registered as input', lambda ex, s, e, nd, p: And(ok(s, 'pin', f.stream(s, nd)), ok(s, 'pinpeek', f.stream(s, nd)))),
                   ('registered as output', lambda ex, s, e, nd, p: And(ok(s, 'pout', f.stream(s, nd)), ok(s, 'poutpeek', f.stream(s, nd))))]
    w = '[C06,C12] setPtrSets: '
    for s, v in r.ret_only(r.call(PTRSETS, [r.kp()] + [Ptr(x) for x in regs]), 'setPtrSets', 'C06,C12'):
        i, o = f.sin(s, f.p), f.sout(s, f.p)
        ex.oblige(s, Implies(f.inr(f.p), And(ok(s, 'pin', i), ok(s, 'pinpeek', i))), w + 'every input stream reports into the sets of the kernel')
        ex.oblige(s, Implies(f.outr(f.p), And(ok(s, 'pout', o), ok(s, 'poutpeek', o))), w + 'every output stream reports into the sets of the kernel')
        f.frame(s, 'setPtrSets')
    return r


CHECKSIG = r'^Schedule::checkSystemSignal\('


def t_checkSystemSignal(mod):
    r = SRun(mod, uses=('handler',))
    f, ex, C = r.f, r.ex, r.f.C
    h = Region('handlers', kind='opaque')

    def done(s, fs):
        g = s.ghost
        return Eq(f.gsel(s, 'handled', fs), f.gsel(s, 'popped', fs))
    f.extra_cands = [f.flag_cands([('stop requested by a handler', lambda s: s.ghost['stopreq'])], C.V_STOP, C.V_PROCEED)]
    f.invariants = [('no taken signal is pending', lambda ex, s, e: Eq(s.ghost['taken'], 0)),
                    ('a taken signal is handled', lambda ex, s, e: Eq(f.gsel(s, 'handled', f.sin(s, f.p)), f.gsel(s, 'popped', f.sin(s, f.p)))),
                    ('the request flag is a flag', lambda ex, s, e: And(Le(0, s.ghost['stopreq']), Le(s.ghost['stopreq'], 1)))]
    f.portpreds = [('system signals handled', lambda ex, s, e, nd, p: Implies(Eq(f.gsel(s, 'popped', f.stream(s, nd)), 0),
                    Or(Eq(f.cnt(s, f.stream(s, nd)), 0), Not(And(Lt(0, s.ghost['sigfront'].select(ex, f.stream(s, nd))), Lt(s.ghost['sigfront'].select(ex, f.stream(s, nd)), C.V_MAXSIG))))))]
    w = '[C12,C20] checkSystemSignal: '
    for s, k, v in r.call(CHECKSIG, [r.kp(), NULL, Ptr(h)]):
        if k == 'exc':
            continue
        g = s.ghost
        fs = f.sin(s, f.p)
        ex.oblige(s, Eq(Eq(v, C.V_STOP), Eq(g['stopreq'], 1)), w + 'answers stop exactly when a handler did')
        ex.oblige(s, Implies(f.inr(f.p), Eq(f.gsel(s, 'handled', fs), f.gsel(s, 'popped', fs))), w + 'every signal taken is handled')
        ex.oblige(s, Implies(And(f.inr(f.p), Eq(f.gsel(s, 'popped', fs), 0)), Or(Eq(f.cnt(s, fs), 0), Le(g['sigfront'].select(ex, fs), 0), Le(C.V_MAXSIG, g['sigfront'].select(ex, fs)))),
                  w + 'every system signal at the head of an input is taken')
        f.frame(s, 'checkSystemSignal')
    return r


def t_quitHandler(mod):
    r = SRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    fs = ex.sym('stream')
    ex.assume(r.st, Lt(0, fs))
    inv0 = r.st.ghost['INV']
    for s, v in r.ret_only(r.call(r'^Schedule::quitHandler\(', [Ptr(f.FIFO, fs, 0), r.kp(), ex.sym('sig', 4), NULL]), 'quitHandler', 'C12'):
        ex.oblige(s, Eq(v, C.V_STOP), '[C12] quitHandler: asks the kernel to stop')
        ex.oblige(s, Eq(f.gsel(s, 'INV', fs), 1), '[C12] quitHandler: closes the stream that carried the signal')
        ex.oblige(s, Implies(Ne(f.fa, fs), Eq(f.gsel(s, 'INV', f.fa), 0)), '[C12] quitHandler: closes no other stream')
    return r


def t_scheduleKernel(mod):
    r = SimpleRun(mod, uses=('handle',))
    f, ex, C = r.f, r.ex, r.f.C
    g0 = dict(r.st.ghost)
    internal = f.kfield(r.st, f.k, C.K_INTERNAL)
    o = ex.sym('other')
    for s, v in r.ret_only(r.call(r'^Schedule::scheduleKernel\(', [r.this(), r.kp()]), 'scheduleKernel', 'C12'):
        w = '[C12] scheduleKernel: '
        m = lambda n, k=f.k: Eq(s.ghost['mem_' + n].select(ex, k), 1)
        m0 = lambda n, k=f.k: Eq(g0['mem_' + n].select(ex, k), 1)
        ex.oblige(s, Eq(f.gsel(s, 'sched', f.k), 1), w + 'the kernel is started')
        ex.oblige(s, m('all'), w + 'the kernel is listed')
        ex.oblige(s, Eq(m('source'), Or(m0('source'), Eq(f.nin, 0))), w + 'kernels without inputs are listed as sources')
        ex.oblige(s, Eq(m('dst'), Or(m0('dst'), Eq(f.nout, 0))), w + 'kernels without outputs are listed as destinations')
        ex.oblige(s, Eq(m('internal'), Or(m0('internal'), Ne(toint(internal), 0))), w + 'kernels created by the run time are listed as such')
        for n in ('all', 'source', 'dst', 'internal'):
            ex.oblige(s, Implies(Ne(o, f.k), Eq(m(n, o), m0(n, o))), w + 'other kernels keep their listing')
        f.frame(s, 'scheduleKernel')
    return r


# ===================================================================== registered contracts
TASKS = [('schedule.' + n, globals()['t_' + n], p, c) for n, p, c in [
    ('hasdata', {'C12'}, 5), ('noin', {'C12'}, 4), ('inval', {'C12'}, 3), ('krun', {'C12'}, 3), ('simple_run', {'C12'}, 30),
    ('handleSchedule', {'C12'}, 2), ('start', {'C12'}, 8), ('setPtrSets', {'C06', 'C12'}, 5), ('checkSystemSignal', {'C12', 'C20'}, 8),
    ('quitHandler', {'C12'}, 1), ('scheduleKernel', {'C12'}, 2)]]
