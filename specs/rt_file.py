"""C16: the file reader, its chunks, and the text search over them (model: rt.py, rt_ports.py).

The file is a sequence of L bytes BYTE(0), BYTE(1), ...; its position is the ghost POS.  A reader made with chunk offset o
overlaps consecutive chunks by ov = max(o - 1, 0) bytes, so that every window of max(o, 1) bytes lies in exactly one chunk.
Ghosts: COV bytes of the file lie in the chunks sent so far, IDX chunks were sent.  std::search enters through its
specification: MATCH(q) says that the searched text is found at place q of the chunk."""
import re
import z3
from irparse import PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported)
from fifo import I64, I32, I8, AFun
from fifo_ops import find
from rt import strlit
from rt_ports import Ports, PRun, sameval
import rt
import rt_split

TAG = '[C16] '


class Reader(Ports):
    """an arbitrary file reader k with arbitrary output ports"""

    def __init__(self, mod, side=1):
        super().__init__(mod, side, linked=True)

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.K.stride = 4096
        k = self.K.fields
        self.FILE = Region('file', kind='arr', stride=8, length=None, meta={'pool': True, 'autofields': False})
        k[C.FR_FP] = (8, ('ptr', self.FILE))
        for o in (C.FR_LENGTH, C.FR_ITER, C.FR_INDEX, C.FR_OFFSET):
            k[o] = (8, 'int')
        k[C.FR_INIT] = (1, 'bool')
        self.bytes = C.FC_BYTES - 1                       # bytes of text a chunk holds
        self.L = ex.sym('filelength')
        self.off = ex.sym('chunkoffset')
        ex.assume(st, And(Le(0, self.L), Lt(self.L, 1 << 60), Le(0, self.off), Le(self.off, self.bytes)))
        self.ov = If(Eq(self.off, 0), 0, self.off - 1)
        self.s = self.bytes - self.ov                     # bytes by which a chunk advances
        self.t = If(Eq(self.off, 0), 1, self.off)         # windows of so many bytes are never split
        self.fp = ex.sym('fp')
        ex.assume(st, self.fp > 0)
        self.BYTE = ABase('BYTE', 1)
        self.SLOT = Region('slot', kind='obj', size=max(C.FC_SIZE, 64))
        self.CH = self.SLOT
        g = st.ghost
        g['POS'], g['COV'], g['IDX'], g['slot'], g['sent'] = 0, 0, 0, 0, 0
        self.in0 = st
        return st

    # ---------------------------------------------------------------- the file
    def pre_contracts(self, add):
        f = self

        def mine(ex, st, p, loc):
            ex.oblige(st, Eq(p.idx, f.fp) if isinstance(p, Ptr) and p.r is f.FILE else False, TAG + 'the file read is the one that was opened', loc)

        def stat(ex, st, a, loc):
            bad = st.clone()
            ex.store(st, Ptr(a[1].r, a[1].idx, a[1].off + f.C.STAT_SIZE), I64, f.L, loc)
            return [(st, 'ret', 0), (bad, 'ret', -1)]

        def fopen(ex, st, a, loc):
            bad = st.clone()
            f.setg(st, 'POS', 0)
            f.setg(st, 'opened', 1)
            return [(st, 'ret', Ptr(f.FILE, f.fp, 0)), (bad, 'ret', NULL)]

        def fseek(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            w = a[2]
            if w not in (0, 1, 2):
                raise Unsupported('fseek from %r' % (w,))
            d = f.signed(a[1])
            to = d + (0, st.ghost['POS'], f.L)[w]
            ok = And(Le(0, to))
            ex.oblige(st, ok, TAG + 'seeks inside the file', loc)
            ex.assume(st, ok)
            f.setg(st, 'POS', to)
            return 0

        def ftell(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            return st.ghost['POS']

        def fread(ex, st, a, loc):
            buf, sz, n = a[0], a[1], a[2]
            mine(ex, st, a[3], loc)
            if sz != 1 or isz(n) or not isinstance(buf, Ptr) or buf.r is not f.CH or isz(buf.off):
                raise Unsupported('fread of %r x %r' % (n, sz))
            o = buf.off - f.C.FC_BUFFER
            ex.oblige(st, 0 <= o and o + n <= f.C.FC_BYTES, TAG + 'reads into the buffer of the chunk, not past its end', loc)
            if not (0 <= o and o + n <= f.C.FC_BYTES):
                return []
            pos = st.ghost['POS']
            left = If(Lt(pos, f.L), f.L - pos, 0)
            got = If(Lt(left, n), left, n)
            v = ex.fresh('read')
            ex.assume(st, Eq(v, got))
            for i in range(n):
                old = ex.load(st, Ptr(buf.r, 0, buf.off + i), I8, loc)
                if old is UNDEF or isinstance(old, symex.Undef):
                    old = ex.fresh('stale', 1)
                ex.store(st, Ptr(buf.r, 0, buf.off + i), I8, If(Lt(i, v), f.BYTE.select(ex, pos + i), old), loc)
            f.setg(st, 'POS', pos + v)
            return v
        add(r'^stat$', 'stat(): the length of the file', stat)
        add(r'^fopen(64)?$', 'fopen()', fopen)
        add(r'^fseek(o|64)?$', 'fseek()', fseek)
        add(r'^ftell(o|64)?$', 'ftell()', ftell)
        add(r'^fread$', 'fread(): the bytes that follow, as many as are left', fread)
        super().pre_contracts(add)

    @staticmethod
    def signed(v):
        if isz(v):
            return z3.If(v >= (1 << 63), v - (1 << 64), v)
        return v - (1 << 64) if v >= 1 << 63 else v

    # ---------------------------------------------------------------- the output streams
    def fifo_contracts(self, add):
        f = self
        super().fifo_contracts(add)

        def dest(ex, st, p, loc):
            ex.oblige(st, f.isout(p.idx, f.k), TAG + 'chunks go to output streams of the reader', loc)

        def allocate(ex, st, a, loc):
            dest(ex, st, a[0], loc)
            st.cells(f.SLOT).clear()
            f.setg(st, 'slot', 1)
            ex.store(st, a[1], PTR, Ptr(f.SLOT), loc)
            return None

        def send(ex, st, a, loc):
            dest(ex, st, a[0], loc)
            ex.oblige(st, Eq(st.ghost['slot'], 1), TAG + 'a chunk is sent only after memory for it was allocated', loc)
            p = Ptr(f.SLOT)
            if f.C.FC_EXT:
                p = ex.load(st, p, PTR, loc)
                if not isinstance(p, Ptr) or p.r is None:
                    ex.oblige(st, False, TAG + 'the chunk sent was constructed', loc)
                    return []
            f.chunk_sent(ex, st, p, loc)
            f.setg(st, 'slot', 0)
            st.cells(f.SLOT).clear()
            return None
        add(r'^UFifo::local_allocate\(', 'stream: allocate (C05)', allocate)
        add(r'^UFifo::send\(', 'stream: send (C05)', send)

    def on_new(self, ex, st, name, size, loc):
        """a chunk that is stored externally"""
        if self.C.FC_EXT and size == self.C.FC_SIZE:
            p = ex.alloc(st, size, 'heap')
            self.CH = p.r
            return p
        return None

    def chunk_sent(self, ex, st, p, loc):
        C, g = self.C, st.ghost
        rd = lambda o, ty=I64: ex.load(st, Ptr(p.r, p.idx, p.off + o), ty, loc)
        O = lambda q, nm: ex.oblige(st, q, TAG + nm, loc)
        start, n, idx = rd(C.FC_START), rd(C.FC_LENGTH), rd(C.FC_INDEX)
        cov = g['COV']
        first = Eq(g['IDX'], 0)
        O(Eq(idx, g['IDX']), 'chunks are numbered in order')
        O(Implies(first, Eq(start, 0)), 'the first chunk starts at the start of the file')
        O(Implies(Not(first), Le(start, cov)), 'no gap between chunks')
        O(Implies(Not(first), Eq(start, cov - self.t + 1)), 'every piece of text of the length searched for lies in exactly one chunk')
        left = self.L - start
        O(Eq(n, If(Lt(left, self.bytes), left, self.bytes)), 'a chunk is as long as it can be, its length is what was read')
        O(Implies(Not(first), Lt(cov, self.L)), 'no chunk after the end of the file')
        i = ex.sym('i!byte', None)
        oks, ends = [], []
        for j in range(self.bytes):
            b = rd(C.FC_BUFFER + j, I8)
            oks.append(Implies(Lt(j, n), Eq(b, self.BYTE.select(ex, start + j))))
        for j in range(self.bytes + 1):
            ends.append(Implies(Eq(j, n), Eq(rd(C.FC_BUFFER + j, I8), 0)))
        O(And(*oks), 'the text of the chunk is that of the file at its position')
        O(And(*ends), 'the text of the chunk ends after its length')
        self.setg(st, 'COV', start + n)
        self.setg(st, 'IDX', g['IDX'] + 1)

    # ---------------------------------------------------------------- class invariant between chunks
    nonlinear = False

    def times(self, r):
        """r * s, known by its recursion"""
        if self.nonlinear:
            return r * self.s
        f = z3.Function('TIMES_S', z3.IntSort(), z3.IntSort())
        r = r if isz(r) else z3.IntVal(r)
        p = f(r - 1)
        self.ex.axiom(And(Eq(f(r), p + self.s), Implies(Eq(r, 1), Eq(p, 0)), Implies(Le(1, r), Le(0, p)), Implies(Le(2, r), Le(self.s, p)), Implies(Eq(r, 0), Eq(f(r), 0))))
        return f(r)

    def inv(self, st):
        """name -> formula: what run() needs and keeps"""
        g = st.ghost
        kf = lambda o: self.kfield(st, self.k, o)
        r, init, idx, pos, L = kf(self.C.FR_ITER), toint(kf(self.C.FR_INIT)), kf(self.C.FR_INDEX), g['POS'], self.L
        begun = Lt(0, idx)
        return [('chunk number', And(Le(0, idx), Le(idx, pos), Eq(idx, g['IDX']))),
                ('started', Eq(init, If(begun, 1, 0))),
                ('position', And(Eq(pos, g['COV']), Implies(Not(begun), Eq(pos, 0)), Implies(begun, And(Le(self.bytes, pos), Lt(pos, L))))),
                ('chunks left', And(Le(1, r), Lt(r, 1 << 61))),
                ('chunks left reach the end', Le(L, If(begun, pos, self.ov) + self.times(r))),
                ('each of them is needed', Or(And(Not(begun), Eq(r, 1), Le(L, self.bytes)), Lt(If(begun, pos, self.ov) + self.times(r) - self.s, L))),
                ('opened file', sameval(kf(self.C.FR_FP), Ptr(self.FILE, self.fp, 0))),
                ('offset', Eq(kf(self.C.FR_OFFSET), self.off))]


class FRun(PRun):
    HOOK = Reader

    def __init__(self, mod, *a):
        self.mod = mod
        f = self.f = self.HOOK(mod, *a)
        ex = self.ex = symex.Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)
        self.init_globals()

    def obl(self, s, g, name):
        self.ex.oblige(s, g, TAG + name)


def cls(f):
    return r'raft::filereader<raft::filechunk<%dul>, false>' % f.C.FC_BYTES


def t_run(mod):
    r = FRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    g = r.st.ghost
    cells = r.st.cells(f.K)
    idx = ex.sym('chunks')
    cells[C.FR_FP] = (8, AConst(Ptr(f.FILE, f.fp, 0)))
    g['POS'] = g['COV'] = ex.sym('position')
    g['IDX'] = f.kfield(r.st, f.k, C.FR_INDEX)
    for nm, q in f.inv(r.st):
        ex.assume(r.st, q)

    def cands(ex, fn, entry, hav, fr):
        names = [nm for nm, _ in f.inv(r.st)]
        out = [symex.Cand('reader: ' + nm, lambda ex, s, e, fr, f0, nm=nm: dict(f.inv(s))[nm]) for nm in names]
        out.append(symex.Cand('nothing allocated', lambda ex, s, e, fr, f0: Eq(s.ghost['slot'], 0)))
        return out
    f.extra_cands = [cands]
    for s, k, v in r.call(r'^%s::run\(\)$' % cls(f), [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'run: throws nothing')
            continue
        r.obl(s, Eq(s.ghost['slot'], 0), 'run: no memory of an output stream is left allocated')
        stop = Eq(v, C.V_STOP)
        r.obl(s, Or(stop, Eq(v, C.V_PROCEED)), 'run: stops or asks to be run again')
        r.obl(s, Implies(stop, And(Eq(s.ghost['COV'], f.L), Lt(0, s.ghost['IDX']))), 'run: stops only when the whole file was sent')
        for nm, q in f.inv(s):
            r.obl(s, Implies(Not(stop), q), 'run: consistent between chunks: ' + nm)
    return r


class Making(Reader):
    """memory of a reader that is about to be constructed"""
    nonlinear = True

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        self.K.meta['ignore'] = (0, C.K_INPUT, C.K_OUTPUT, C.K_INPUT + C.P_PORTMAP, C.K_OUTPUT + C.P_PORTMAP)
        st.cells(self.K)[0] = (8, AConst(self.vtable(cls(self))))
        st.ghost['opened'] = 0
        st.ghost['POS'] = -1
        return st

    def pre_contracts(self, add):
        rt_split.fresh_contracts(self, add)
        super().pre_contracts(add)


class MRun(FRun):
    HOOK = Making


def t_ctor(mod):
    r = MRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    n = ex.sym('num_ports')
    ex.assume(r.st, And(Le(0, n), Lt(n, 1 << 40)))
    many, none = 2 * f.k + 1, 2 * f.k
    j = ex.sym('j!any', None)

    def cands(ex, fn, entry, hav, fr):
        out = []
        for key, old, new in hav:
            if key[0] == 'cell' and key[3] == 8 and not isinstance(old, Ptr):
                idx = lambda s, fr, key=key: symex.cur(ex, s, key, fr)
                nm = symex.kname(key)
                out += [symex.Cand(nm + ' counts the ports', lambda ex, s, e, fr, f0, idx=idx: Eq(idx(s, fr), f.N(s, many))),
                        symex.Cand(nm + ': no inputs', lambda ex, s, e, fr, f0: Eq(f.N(s, none), 0)),
                        symex.Cand(nm + ': numbers so far are ports', lambda ex, s, e, fr, f0, idx=idx: Implies(And(Le(0, j), Lt(j, idx(s, fr))), Ne(f.lookup(s, many, strlit('0') + j), 0))),
                        symex.Cand(nm + ': numbers from here on are free',
                                   lambda ex, s, e, fr, f0, t=None, idx=idx: Implies(Le(idx(s, fr), j), Eq(f.lookup(s, many, strlit('0') + j), 0)),
                                   instance=lambda ex, s, e, fr, f0, idx=idx: Eq(f.lookup(s, many, strlit('0') + idx(s, fr)), 0))]
        return out
    f.extra_cands = [cands]
    name = Region('name', size=32)
    r.st.cells(name)[0] = (8, ex.sym('filename'))
    for s, k, v in r.call(r'^%s::filereader\(' % cls(f), [Ptr(f.K, f.k, 0), Ptr(name), f.off, n]):
        if k == 'exc':
            r.obl(s, False, 'reader: construction throws nothing')
            continue
        r.obl(s, Eq(f.N(s, many), n), 'reader: as many output ports as asked for')
        r.obl(s, Implies(And(Le(0, j), Lt(j, n)), Ne(f.lookup(s, many, strlit('0') + j), 0)), 'reader: the ports are numbered from 0')
        r.obl(s, Eq(f.N(s, none), 0), 'reader: no inputs')
        for nm, q in f.inv(s):
            r.obl(s, q, 'reader: ready to run: ' + nm)
    return r


# ---------------------------------------------------------------- chunks
def chunk(ex, st, f, name, n=None):
    C = f.C
    r = Region(name, size=C.FC_SIZE)
    c = st.cells(r)
    vals = {}
    for i in range(C.FC_BYTES):
        vals[i] = ex.sym('%s.byte%d' % (name, i), 1)
        c[C.FC_BUFFER + i] = (1, vals[i])
    for o, nm in ((C.FC_START, 'start'), (C.FC_LENGTH, 'length'), (C.FC_INDEX, 'index')):
        vals[nm] = n if nm == 'length' and n is not None else ex.sym('%s.%s' % (name, nm))
        c[o] = (8, vals[nm])
    return r, vals


def t_copy(mod, n, assign):
    """a copy of a chunk of n bytes says the same (n: every length a chunk can have)"""
    r = FRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    src, v = chunk(ex, r.st, f, 'other', n)
    dst, _ = chunk(ex, r.st, f, 'this')
    what = 'filechunk::operator=' if assign else 'filechunk: copy'
    rx = r'^raft::filechunk<%dul>::%s\(raft::filechunk<%dul> const&\)$' % (C.FC_BYTES, 'operator=' if assign else 'filechunk', C.FC_BYTES)
    for s, k, x in r.call(rx, [Ptr(dst), Ptr(src)]):
        if k == 'exc':
            r.obl(s, False, what + ': throws nothing')
            continue
        rd = lambda p, o, ty=I64: ex.load(s, Ptr(p, 0, o), ty)
        for p, w in ((dst, 'the copy'), (src, 'the original')):
            r.obl(s, Eq(rd(p, C.FC_START), v['start']), '%s: position of %s' % (what, w))
            r.obl(s, Eq(rd(p, C.FC_LENGTH), n), '%s: length of %s' % (what, w))
            r.obl(s, Eq(rd(p, C.FC_INDEX), v['index']), '%s: number of %s' % (what, w))
            r.obl(s, And(*[Eq(rd(p, C.FC_BUFFER + i, I8), v[i]) for i in range(n + 1)]), '%s: text of %s' % (what, w))
    return r


def t_copies(assign):
    def run(mod):
        n = FRun(mod).f.C.FC_BYTES
        rs = [t_copy(mod, i, assign) for i in range(n)]
        r = rs[0]
        for o in rs[1:]:
            r.ex.obs += o.ex.obs
            r.ex.npaths += o.ex.npaths
            r.ex.axioms = r.ex.axioms + o.ex.axioms
            for a in ('inlined', 'used_contracts', 'used_ext'):
                getattr(r.ex, a).update(getattr(o.ex, a))
        return r
    return run


def t_iter(mod):
    """chunk_iterator: a place in a chunk"""
    r = FRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    n = ex.sym('length')
    ex.assume(r.st, And(Le(0, n), Le(n, f.bytes)))
    ch, v = chunk(ex, r.st, f, 'chunk', n)
    ch2, _ = chunk(ex, r.st, f, 'otherchunk')
    ex.assume(r.st, And(Le(0, v['start']), Lt(v['start'], 1 << 61)))
    vt = r.f.vtable('raft::chunk_iterator<%dul>' % C.FC_BYTES)

    def it(name, idx, c=ch):
        p = Region(name, size=C.CI_SIZE)
        cl = r.st.cells(p)
        cl[0] = (8, vt)
        cl[C.CI_CHUNK] = (8, Ptr(c))
        cl[C.CI_INDEX] = (8, idx)
        for o in range(C.CI_INDEX + 8, C.CI_SIZE):
            if o == C.CI_END:
                cl[o] = (1, 0)
        return p
    i, j, d = ex.sym('i'), ex.sym('j'), ex.sym('step')
    ex.assume(r.st, And(Le(0, i), Le(i, n), Le(0, j), Le(j, n), Le(0, d), Lt(d, 1 << 31)))
    a, b = it('a', i), it('b', j)
    I = r'^raft::chunk_iterator<%dul>::' % C.FC_BYTES
    IT = r'raft::chunk_iterator<%dul>' % C.FC_BYTES
    res = Region('result', size=C.CI_SIZE)

    def place(s, p, c, q, what):
        r.obl(s, Eq(ex.load(s, Ptr(p, 0, C.CI_INDEX), I64), q), what + ': the place')
        r.obl(s, Eq(ex.load(s, Ptr(p, 0, C.CI_CHUNK), PTR), Ptr(c)), what + ': the chunk')

    def same(s, x, y, what):
        r.obl(s, Eq(x, Ptr(y)), what + ': returns itself')

    def cases(rx, args, what, post, optional=False):
        st = r.st.clone()
        try:
            find(r.mod, rx)
        except Unsupported:
            if optional:
                return
            raise
        for s, k, x in r.call(rx, args, st):
            if k == 'exc':
                r.obl(s, False, what + ': throws nothing')
            else:
                post(s, x)
    CH = r'^raft::filechunk<%dul>::' % C.FC_BYTES
    cases(CH + r'begin\(\)$', [Ptr(res), Ptr(ch)], 'begin', lambda s, x: place(s, res, ch, 0, 'begin'))
    cases(CH + r'end\(\)$', [Ptr(res), Ptr(ch)], 'end', lambda s, x: place(s, res, ch, n, 'end'))
    cases(I + r'chunk_iterator\(%s const&\)$' % IT, [Ptr(res), Ptr(a)], 'copy', lambda s, x: place(s, res, ch, i, 'copy'))
    c2 = it('c', j, ch2)
    cases(I + r'operator=\(%s const&\)$' % IT, [Ptr(c2), Ptr(a)], 'assignment', lambda s, x: (place(s, c2, ch, i, 'assignment'), same(s, x, c2, 'assignment')))
    cases(I + r'operator\+\+\(\)$', [Ptr(a)], '++', lambda s, x: (place(s, a, ch, i + 1, '++'), same(s, x, a, '++')))
    cases(r'^vf_iter_add$', [Ptr(a), d], '+=', lambda s, x: (place(s, a, ch, i + d, '+='), same(s, x, a, '+=')))
    for op, want in (('==', Eq(i, j)), ('!=', Ne(i, j)), ('<=', Le(i, j)), ('<', Lt(i, j))):
        cases(I + r'operator ?%s\(' % op, [Ptr(a), Ptr(b)], op, lambda s, x, want=want, op=op: r.obl(s, Eq(toint(x), toint(want)), 'places compare as %s' % op))
    cases(I + r'location\(\)$', [Ptr(a)], 'location', lambda s, x: r.obl(s, Eq(x, v['start'] + i), 'location: place in the file'))
    byte = lambda q: (lambda e: [e := If(Eq(q, t), v[t], e) for t in range(C.FC_BYTES)][-1])(0)
    cases(I + r'operator\*\(\)$', [Ptr(a)], '*', lambda s, x: r.obl(s, Eq(x, byte(i)), '*: the byte at the place'))
    return r


# ---------------------------------------------------------------- search
class Search(Reader):
    """an arbitrary search kernel k; its input stream shows the chunk CHUNK"""

    def __init__(self, mod):
        super().__init__(mod, 0)

    def setup(self, ex):
        st = super().setup(ex)
        C = self.C
        k = self.K.fields
        for o in (C.FR_FP, C.FR_LENGTH, C.FR_ITER, C.FR_INIT, C.FR_INDEX, C.FR_OFFSET):
            k.pop(o, None)
        k[C.SE_TLEN] = (8, 'int')
        k[C.SE_TERM] = (8, 'int')
        self.n = ex.sym('length')
        self.CHUNK, self.v = chunk(ex, st, self, 'chunk', self.n)
        self.tl = z3.Function('STRLEN', z3.IntSort(), z3.IntSort())(self.kfield(st, self.k, C.SE_TERM))
        ex.assume(st, And(Le(0, self.n), Le(self.n, self.bytes), Le(0, self.v['start']), Lt(self.v['start'], 1 << 60), Le(1, self.tl), Lt(self.tl, 1 << 60),
                          Eq(self.kfield(st, self.k, C.SE_TLEN), self.tl)))
        self.match = z3.Function('MATCH', z3.IntSort(), z3.BoolSort())
        self.first = z3.Function('FIRST', z3.IntSort(), z3.IntSort())
        self.q = ex.sym('q!any', None)
        g = st.ghost
        g['REP'] = 0         # times the text at place q was reported
        g['LAST'] = -1       # last place reported
        g['looked'] = g['taken'] = 0
        g['TBEG'] = None
        return st

    def M(self, p):
        return And(Le(0, p), Le(p + self.tl, self.n), self.match(p if isz(p) else z3.IntVal(p)))

    def pre_contracts(self, add):
        f, C = self, self.C
        TERM = lambda p: isinstance(p, Ptr) and p.r is f.K and p.off == C.SE_TERM

        def strit(what):
            def g(ex, st, a, loc):
                if not TERM(a[0]):
                    raise Unsupported('iterator over a string other than the text searched for')
                return Ptr(f.TERMCH, {'begin': 0, 'end': f.tl}[what], 0)
            return g
        f.TERMCH = Region('text', kind='arr', stride=1, length=None, meta={'pool': True, 'autofields': False})
        S = '^' + rt.re.escape(rt.STR) + '::'
        add(S + r'begin\(\) const$', 'std::string', strit('begin'))
        add(S + r'end\(\) const$', 'std::string', strit('end'))

        def it(ex, st, p, loc):
            return ex.load(st, Ptr(p.r, p.idx, p.off + C.CI_INDEX), I64, loc), ex.load(st, Ptr(p.r, p.idx, p.off + C.CI_CHUNK), PTR, loc)

        def search(ex, st, a, loc):
            i, c1 = it(ex, st, a[1], loc)
            e, c2 = it(ex, st, a[2], loc)
            own = isinstance(c1, Ptr) and isinstance(c2, Ptr) and c1.r is f.CHUNK and c2.r is f.CHUNK
            t = [ex.load(st, x, PTR, loc) if isinstance(x, Ptr) and x.r is not f.TERMCH else x for x in a[3:5]]
            whole = all(isinstance(x, Ptr) and x.r is f.TERMCH for x in t) and And(Eq(t[0].idx, 0), Eq(t[1].idx, f.tl))
            ex.oblige(st, And(own, whole), TAG + 'search: the whole text is searched for in the chunk received', loc)
            if not own:
                return []
            ex.oblige(st, And(Le(i, e), Le(e, f.n)), TAG + 'search: looks no further than the text of the chunk', loc)
            ex.assume(st, And(Le(i, e), Le(e, f.n)))
            r = ex.fresh('found')
            q = f.q
            # the first place in [i, e - tl] where the text is, or e
            ex.assume(st, And(Le(i, r), Le(r, e)))
            at = lambda p: And(Le(i, p), Le(p + f.tl, e), f.match(p))
            ex.assume(st, Or(Eq(r, e), at(r)))
            ex.assume(st, Implies(And(Le(i, q), Lt(q, r)), Not(at(q))))
            for o, n, val in ((0, 8, f.itvt), (C.CI_CHUNK, 8, c1), (C.CI_INDEX, 8, r)):
                ex.store(st, Ptr(a[0].r, a[0].idx, a[0].off + o), PTR if isinstance(val, Ptr) else I64, val, loc)
            ex.store(st, Ptr(a[0].r, a[0].idx, a[0].off + C.CI_END), I8, ex.fresh('end', 1), loc)
            return None
        f.itvt = f.vtable('raft::chunk_iterator<%dul>' % C.FC_BYTES)
        add(r'std::search<raft::chunk_iterator<', 'std::search: the first place from which the text is found', search)
        super().pre_contracts(add)

    def fifo_contracts(self, add):
        super().fifo_contracts(add)
        f, C = self, self.C

        def mine(ex, st, p, loc):
            ex.oblige(st, Eq(p.idx, f.inp), TAG + 'search: chunks come from the input stream', loc)

        def peek(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            ex.oblige(st, Eq(st.ghost['taken'], 0), TAG + 'search: one chunk per call', loc)
            f.setg(st, 'looked', 1)
            p = Ptr(f.CHUNK)
            if C.FC_EXT:
                r = Region('element', size=8)
                st.cells(r)[0] = (8, p)
                p = Ptr(r)
            ex.store(st, a[1], PTR, p, loc)
            return None

        def recycle(ex, st, a, loc):
            mine(ex, st, a[0], loc)
            ex.oblige(st, And(Eq(a[1], 1), Eq(st.ghost['looked'], 1)), TAG + 'search: the chunk looked at, and no other, is discarded', loc)
            f.setg(st, 'taken', st.ghost['taken'] + a[1])
            st.freed = st.freed | {f.CHUNK}
            if st.log is not None:
                st.log.add(('freed', f.CHUNK, 0, 0))
            return None

        def push(ex, st, a, loc):
            ex.oblige(st, Eq(a[0].idx, f.out), TAG + 'search: matches go to the output stream', loc)
            p = a[1]
            x, y = ex.load(st, p, I64, loc), ex.load(st, Ptr(p.r, p.idx, p.off + 8), I64, loc)
            q = x - f.v['start']
            ex.oblige(st, f.M(q), TAG + 'search: only places where the text is are reported', loc)
            ex.oblige(st, Eq(y, x + f.tl), TAG + 'search: a match ends where the text ends', loc)
            ex.oblige(st, Lt(st.ghost['LAST'], q), TAG + 'search: matches are reported in order', loc)
            f.setg(st, 'LAST', q)
            f.setg(st, 'REP', st.ghost['REP'] + If(Eq(q, f.q), 1, 0))
            return None
        add(r'^UFifo::local_peek\(', 'stream: peek (C04)', peek)
        add(r'^UFifo::unpeek\(\)$', 'stream: unpeek (C04)', lambda ex, st, a, loc: None)
        add(r'^UFifo::local_recycle\(', 'stream: recycle (C04)', recycle)
        add(r'^UFifo::local_push\(', 'stream: push (C01)', push)


class SRun(FRun):
    HOOK = Search


def t_search(mod):
    r = SRun(mod)
    f, ex, C = r.f, r.ex, r.f.C
    st = r.st
    for m, nm in ((2 * f.k, 'inp'), (2 * f.k + 1, 'out')):
        nd = f.lookup(st, m, strlit('0'))
        ex.assume(st, And(Ne(nd, 0), f.stream(st, nd) > 0))
        setattr(f, nm, f.stream(st, nd))
    q = f.q

    def cands(ex, fn, entry, hav, fr):
        out = []
        for key, old, new in hav:
            if key[0] == 'cell' and key[2] == C.CI_INDEX and key[3] == 8:
                at = lambda s, fr, key=key: symex.cur(ex, s, key, fr)
                nm = symex.kname(key)
                out += [symex.Cand(nm + ' is a place of the chunk', lambda ex, s, e, fr, f0, at=at: And(Le(0, at(s, fr)), Le(at(s, fr), f.n))),
                        symex.Cand('places before %s are reported' % nm, lambda ex, s, e, fr, f0, at=at: Eq(s.ghost['REP'], If(And(Lt(q, at(s, fr)), f.M(q)), 1, 0))),
                        symex.Cand('last place reported is before ' + nm, lambda ex, s, e, fr, f0, at=at: Lt(s.ghost['LAST'], at(s, fr)))]
        return out
    f.extra_cands = [cands]
    for s, k, v in r.call(r'^raft::search<raft::filechunk<%dul>, \(raft::searchalgo\)0>::run\(\)$' % C.FC_BYTES, [Ptr(f.K, f.k, 0)]):
        if k == 'exc':
            r.obl(s, False, 'search: throws nothing')
            continue
        r.obl(s, Eq(s.ghost['REP'], If(f.M(q), 1, 0)), 'search: the text is reported once at each place of the chunk where it is')
        r.obl(s, Eq(s.ghost['taken'], 1), 'search: the chunk searched is taken off the input')
        r.obl(s, Eq(v, C.V_PROCEED), 'search: asks to be run again')
    return r


P = {'C16'}
TASKS = [('filereader.run', t_run, P, 3), ('filereader.ctor', t_ctor, P, 3), ('filechunk.copy', t_copies(False), P, 1), ('filechunk.assign', t_copies(True), P, 1),
         ('chunk_iterator', t_iter, P, 1), ('search.run', t_search, P, 2)]
