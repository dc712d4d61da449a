"""C06: Schedule::fifo_gc, the clean-up of elements a kernel recycled (model: rt.py).

in: std::map from element address to the function releasing it; out, peekset: std::set of element addresses.  The
content of a container is a membership array (MEM_c); iteration runs over the content on entry, ordered by address:
KEY_c(i) is the i-th address, POS_c(p) the position of address p."""
import z3
from irparse import T, PTR
import symex
from symex import (Region, Ptr, NULL, UNDEF, ABase, AConst, AStore, And, Or, Not, If, Eq, Ne, Implies, Le, Lt, toint, isz, Unsupported)
from fifo import I64
from fifo_ops import find
from rt import RT
from symex import Exec

GC = r'^Schedule::fifo_gc\('
CONT = r'std::(map<unsigned long, std::function<void \(void\*\)>.*|set<unsigned long, .*)>::'
ITER = r'std::_Rb_tree_(const_)?iterator<(std::pair<unsigned long const, std::function<void \(void\*\)>>|unsigned long)>'


class Gc(RT):
    plain_ghosts = {'REL', 'M_in', 'M_out', 'M_peek'}

    def setup(self, ex):
        st = super().setup(ex)
        self.cont = {}
        self.seqof = {}
        self.terms = {}
        self.nexts, self.keep = {}, []
        for n in ('in', 'out', 'peek'):
            c = Region('set_' + n, kind='opaque')
            ln = ex.sym('n_' + n)
            seq = Region('elements_' + n, kind='arr', stride=48 if n == 'in' else 8, length=ln, fields={0: (8, 'int')}, meta={'autofields': False})
            key = ABase('KEY_' + n, 8)
            st.cells(seq)[0] = (8, key)
            ex.assume(st, And(Le(0, ln), Lt(ln, 1 << 32)))
            self.cont[c] = n
            self.seqof[seq] = n
            setattr(self, 'c_' + n, c)
            setattr(self, 's_' + n, seq)
            setattr(self, 'n_' + n, ln)
            setattr(self, 'key_' + n, key)
            setattr(self, 'base_' + n, ABase('MEM_' + n, 1))
            setattr(self, 'pos_' + n, z3.Function('POS_' + n, z3.IntSort(), z3.IntSort()))
            st.ghost['M_' + n] = getattr(self, 'base_' + n)
            self.terms[n] = []
        st.ghost['REL'] = AConst(0)
        self.p = ex.sym('p!any', None)
        return st

    # ---------------------------------------------------------------- content
    def K_(self, n, i):
        """the i-th address of container n"""
        ex = self.ex
        k = getattr(self, 'key_' + n).select(ex, i)
        ln, pos = getattr(self, 'n_' + n), getattr(self, 'pos_' + n)
        if not any(z3.eq(a, b) if isz(a) and isz(b) else a is b for a, b in ((x, i) for x in self.terms[n])):
            ex.axiom(Implies(And(Le(0, i), Lt(i, ln)), And(Eq(pos(k), i), Lt(0, k), Lt(k, 1 << 64))))
            for j in self.terms[n]:
                kj = getattr(self, 'key_' + n).select(ex, j)
                ex.axiom(Implies(And(Le(0, i), Lt(i, ln), Le(0, j), Lt(j, ln)), Eq(Lt(k, kj), Lt(i, j))))
            self.terms[n].append(i)
        return k

    def P_(self, n, p):
        return getattr(self, 'pos_' + n)(p)

    def M0(self, n, p):
        """p was in container n on entry"""
        i = self.P_(n, p)
        b = getattr(self, 'base_' + n).select(self.ex, p)
        t = And(Le(0, i), Lt(i, getattr(self, 'n_' + n)), Eq(self.K_(n, i), p))
        self.ex.axiom(And(Le(0, toint(b)), Le(toint(b), 1), Eq(Eq(toint(b), 1), t)))
        return t

    def M(self, s, n, p):
        self.M0(n, p)
        return Eq(toint(self.gsel(s, 'M_' + n, p)), 1)

    def rel(self, s, p):
        return Eq(self.gsel(s, 'REL', p), 1)

    # ---------------------------------------------------------------- contracts
    nxt = None

    def more_contracts(self, add):
        rt = self

        def which(a):
            if not isinstance(a, Ptr) or a.r not in rt.cont:
                raise Unsupported('container %r' % (a,))
            return rt.cont[a.r]

        def seq(n):
            return getattr(rt, 's_' + n)

        def nxt(ex, st, n, i):
            """the first element still there at position i or later"""
            ln = getattr(rt, 'n_' + n)
            if st.ghost['M_' + n] is getattr(rt, 'base_' + n):
                return i
            memo = st.ghost['M_' + n], i
            j = rt.nexts.get((id(memo[0]), str(i)))
            if j is None:
                j = ex.fresh('next')
                rt.nexts[(id(memo[0]), str(i))] = j
                rt.keep.append(memo)
            ex.assume(st, And(Le(i, j), Le(j, ln), Implies(Lt(j, ln), rt.M(st, n, rt.K_(n, j)))))
            ex.assume(st, Implies(And(Lt(i, ln), rt.M(st, n, rt.K_(n, i))), Eq(j, i)))
            ex.assume(st, Implies(And(Le(i, rt.P_(n, rt.p)), Lt(rt.P_(n, rt.p), j), rt.M0(n, rt.p)), Not(rt.M(st, n, rt.p))))
            return j

        rt.nxt = nxt

        def begin(ex, st, a, loc):
            n = which(a[0])
            return Ptr(seq(n), nxt(ex, st, n, 0), 0)
        add('^' + CONT + r'c?begin\(\)', 'std container', begin)
        add('^' + CONT + r'c?end\(\)', 'std container', lambda ex, st, a, loc: Ptr(seq(which(a[0])), getattr(rt, 'n_' + which(a[0])), 0))

        def empty(ex, st, a, loc):
            n = which(a[0])
            e = ex.fresh('empty', 1)
            j = nxt(ex, st, n, 0)
            ex.assume(st, And(Le(e, 1), Eq(Eq(e, 1), Eq(j, getattr(rt, 'n_' + n)))))
            return e
        add('^' + CONT + r'empty\(\)', 'std container', empty)

        def size(ex, st, a, loc):
            n = which(a[0])
            v = ex.fresh('size', 8)
            j = nxt(ex, st, n, 0)
            ex.assume(st, And(Le(v, getattr(rt, 'n_' + n)), Eq(Eq(v, 0), Eq(j, getattr(rt, 'n_' + n)))))
            return v
        add('^' + CONT + r'size\(\)', 'std container', size)

        def keyarg(ex, st, p, loc):
            v = ex.load(st, p, I64, loc)
            if isinstance(v, Ptr):
                raise Unsupported('key')
            return v

        def look(ex, st, a, loc):
            n = which(a[0])
            k = keyarg(ex, st, a[1], loc)
            return n, k, rt.M(st, n, k)
        add('^' + CONT + r'find\(unsigned long const&\)', 'std container',
            lambda ex, st, a, loc: (lambda n, k, m: Ptr(seq(n), If(m, rt.P_(n, k), getattr(rt, 'n_' + n)), 0))(*look(ex, st, a, loc)))
        add('^' + CONT + r'count\(unsigned long const&\)', 'std container', lambda ex, st, a, loc: toint(look(ex, st, a, loc)[2]))

        def erase(ex, st, a, loc):
            n, k, m = look(ex, st, a, loc)
            rt.gput(st, 'M_' + n, k, 0)
            return toint(m)
        add('^' + CONT + r'erase\(unsigned long const&\)', 'std container', erase)

        def erase_it(ex, st, a, loc):
            n = which(a[0])
            v = a[1]
            if not isinstance(v, Ptr) or v.r is not seq(n):
                raise Unsupported('erase')
            deref(ex, st, v, loc)
            rt.gput(st, 'M_' + n, rt.K_(n, v.idx), 0)
            return Ptr(v.r, nxt(ex, st, n, v.idx + 1), 0)
        add(r'(^| )' + CONT + r'erase(\[abi:\w+\])?\(std::_Rb_tree_(const_)?iterator', 'std container', erase_it)

        def clear(ex, st, a, loc):
            rt.setg(st, 'M_' + which(a[0]), AConst(0))
            return None
        add('^' + CONT + r'clear\(\)', 'std container', clear)

        def insert(ex, st, a, loc):
            n = which(a[0])
            if n == 'in':
                raise Unsupported('insert into the map')
            k = keyarg(ex, st, a[1], loc)
            m = rt.M(st, n, k)
            rt.gput(st, 'M_' + n, k, 1)
            return [Ptr(seq(n), ex.fresh('at'), 0), toint(Not(m))]
        add(r'(^| )' + CONT + r'(insert|emplace)', 'std container', insert)

        # iterators
        def deref(ex, st, v, loc):
            n = rt.seqof[v.r]
            ex.oblige(st, And(Le(0, v.idx), Lt(v.idx, getattr(rt, 'n_' + n))), '[C06] clean-up: the end of a container is never read', loc)
            ex.oblige(st, rt.M(st, n, rt.K_(n, v.idx)), '[C06] clean-up: an entry is not used after it was erased', loc)
            return v

        def it(ex, st, p, loc):
            v = ex.load(st, p, PTR, loc)
            if not isinstance(v, Ptr) or v.r not in rt.seqof:
                raise Unsupported('iterator')
            return v
        add('^' + ITER + r'::operator(\*|->)\(\)', 'iterator', lambda ex, st, a, loc: Ptr((lambda v: v.r)(deref(ex, st, it(ex, st, a[0], loc), loc)), it(ex, st, a[0], loc).idx, 0))

        def inc(ex, st, a, loc):
            v = it(ex, st, a[0], loc)
            n = rt.seqof[v.r]
            ex.oblige(st, And(Le(0, v.idx), Lt(v.idx, getattr(rt, 'n_' + n))), '[C06] clean-up: iteration stops at the end', loc)
            w = Ptr(v.r, nxt(ex, st, n, v.idx + 1), 0)
            ex.store(st, a[0], PTR, w, loc)
            return v, w
        add('^' + ITER + r'::operator\+\+\(\)', 'iterator', lambda ex, st, a, loc: (inc(ex, st, a, loc), a[0])[1])
        add('^' + ITER + r'::operator\+\+\(int\)', 'iterator', lambda ex, st, a, loc: inc(ex, st, a, loc)[0])
        add('^' + ITER + r'::_Rb_tree_', 'iterator', lambda ex, st, a, loc: ex.store(st, a[0], PTR, it(ex, st, a[1], loc), loc))

        def cmp(neg):
            def f(ex, st, a, loc):
                x, y = it(ex, st, a[0], loc), it(ex, st, a[1], loc)
                r = And(x.r is y.r, Eq(x.idx, y.idx))
                return Not(r) if neg else r
            return f
        add(r'^std::operator!=\(' + ITER, 'iterator', cmp(True))
        add(r'^std::operator==\(' + ITER, 'iterator', cmp(False))

        # releasing an element
        def release(ex, st, a, loc):
            fn, p = a[0], a[1]
            if not isinstance(fn, Ptr) or fn.r is not rt.s_in or fn.off != 8:
                raise Unsupported('function object %r' % (fn,))
            if isinstance(p, Ptr):
                if p.r is not None:
                    raise Unsupported('released pointer %r' % (p,))
                p = p.idx
            ex.oblige(st, And(Le(0, fn.idx), Lt(fn.idx, rt.n_in), Eq(p, rt.K_('in', fn.idx))), '[C06] clean-up: an element is released with its own release function', loc)
            ex.oblige(st, Not(rt.rel(st, p)), '[C06] clean-up: no element is released twice', loc)
            ex.oblige(st, Not(rt.M0('out', p)), '[C06] clean-up: an element that was sent on is not released', loc)
            rt.gput(st, 'REL', p, 1)
            return None
        add(r'^std::function<void \(void\*\)>::operator\(\)\(void\*\) const', 'std::function', release)
        add(r'^std::function<void \(void\*\)>::operator bool', 'std::function', lambda ex, st, a, loc: 1)

    # ---------------------------------------------------------------- loops
    def loop_candidates(self, ex, fn, entry, hav, fr):
        out = []
        p = self.p
        its = []
        for key, old, new in hav:
            if key[0] in ('cell', 'phi') and isinstance(old, Ptr) and old.r in self.seqof:
                def at(s, f, key=key, old=old):
                    v = symex.cur(ex, s, key, f)
                    if not isinstance(v, Ptr) or v.r is not old.r:
                        raise Unsupported('cand')
                    return v.idx
                its.append((self.seqof[old.r], at))
        def gen(nm, f):
            """f at an arbitrary address, and at the addresses the iterators refer to"""
            inst = [lambda ex, s, e, f2, f0, n=n, at=at: f(s, f2, self.K_(n, at(s, f2))) for n, at in its]
            if not any(n == 'in' for n, _ in its) and ('ghost', 'M_in') in [k[:2] for k, _, _ in hav]:
                inst.append(lambda ex, s, e, f2, f0: f(s, f2, self.K_('in', self.nxt(ex, s, 'in', 0))))
            out.append(symex.Cand(nm, lambda ex, s, e, f2, f0: f(s, f2, p), (lambda ex, s, e, f2, f0: And(*[i(ex, s, e, f2, f0) for i in inst])) if inst else None))
        I, O, K = (lambda q: self.M0('in', q)), (lambda q: self.M0('out', q)), self.P_
        for n, at in its:
            out.append(symex.Cand('iterator over %s stays inside' % n, lambda ex, s, e, f, f0, n=n, at=at: And(Le(0, at(s, f)), Le(at(s, f), getattr(self, 'n_' + n)))))
            out.append(symex.Cand('iterator over %s refers to an entry' % n, lambda ex, s, e, f, f0, n=n, at=at:
                                  Implies(Lt(at(s, f), getattr(self, 'n_' + n)), self.M(s, n, self.K_(n, at(s, f))))))
            past = lambda s, f, q, n=n, at=at: And(self.M0(n, q), Lt(self.P_(n, q), at(s, f)))
            if n == 'in':
                gen('entries before it are done', lambda s, f, q, past=past: Eq(self.rel(s, q), And(past(s, f, q), Not(O(q)))))
                gen('entries before it are matched', lambda s, f, q, past=past: Eq(self.M(s, 'out', q), And(O(q), Not(past(s, f, q)))))
                gen('entries before it are erased', lambda s, f, q, past=past: Eq(self.M(s, 'in', q), And(I(q), Not(past(s, f, q)))))
            if n == 'out':
                gen('sent entries before it are matched', lambda s, f, q, past=past: Eq(self.M(s, 'out', q), And(O(q), Not(And(past(s, f, q), I(q))))))
                gen('sent and recycled entries before it are taken out', lambda s, f, q, past=past: Eq(self.M(s, 'in', q), And(I(q), Not(past(s, f, q)))))
            for n2, at2 in its:
                if n != n2:
                    gen('%s before the one over %s' % (n, n2), lambda s, f, q, n2=n2, at2=at2, past=past:
                        Implies(past(s, f, q), Or(Le(getattr(self, 'n_' + n2), at2(s, f)), Lt(q, self.K_(n2, at2(s, f))))))
        gen('what was taken out is done', lambda s, f, q: Eq(self.rel(s, q), And(I(q), Not(self.M(s, 'in', q)), Not(O(q)))))
        gen('what was taken out is matched', lambda s, f, q: Eq(self.M(s, 'out', q), And(O(q), Not(And(I(q), Not(self.M(s, 'in', q)))))))
        gen('only what was recycled is there', lambda s, f, q: Implies(self.M(s, 'in', q), I(q)))
        gen('only what was sent is there', lambda s, f, q: Implies(self.M(s, 'out', q), O(q)))
        gen('nothing sent is released', lambda s, f, q: Implies(self.rel(s, q), And(I(q), Not(O(q)))))
        gen('released is taken out', lambda s, f, q: Implies(self.M(s, 'in', q), Not(self.rel(s, q))))
        gen('recycled, not sent: still there or released', lambda s, f, q: Implies(And(I(q), Not(O(q))), Or(self.M(s, 'in', q), self.rel(s, q))))
        gen('nothing released yet', lambda s, f, q: Not(self.rel(s, q)))
        gen('input unchanged', lambda s, f, q: Eq(self.M(s, 'in', q), I(q)))
        gen('output unchanged', lambda s, f, q: Eq(self.M(s, 'out', q), O(q)))
        gen('output matched', lambda s, f, q: Eq(self.M(s, 'out', q), And(O(q), Not(I(q)))))
        return out


class GRun:
    def __init__(self, mod):
        self.mod = mod
        f = self.f = Gc(mod)
        ex = self.ex = Exec(mod, contracts=[], hooks=f)
        self.st = f.setup(ex)
        f.setup_contracts(ex)
        ex.no_unroll = True


def t_fifo_gc(mod):
    r = GRun(mod)
    f, ex, p = r.f, r.ex, r.f.p
    f.M0('in', p), f.M0('out', p)
    fn = find(mod, GC)
    ex.cur = mod.dem[fn.name]
    w = '[C06] clean-up of recycled elements: '
    for s, k, v in ex.run_function(fn, [Ptr(f.c_in), Ptr(f.c_out), Ptr(f.c_peek)], r.st.clone()):
        if k == 'exc':
            ex.oblige(s, False, w + 'throws nothing')
            continue
        O = lambda g, n: ex.oblige(s, g, w + n)
        O(Implies(And(f.M0('in', p), Not(f.M0('out', p))), f.rel(s, p)), 'every recycled element that was not sent on is released')
        O(Implies(f.rel(s, p), And(f.M0('in', p), Not(f.M0('out', p)))), 'nothing else is released')
        O(Not(f.M(s, 'in', p)), 'no element stays noted as recycled')
        O(Eq(f.M(s, 'out', p), And(f.M0('out', p), Not(f.M0('in', p)))), 'an element sent on is remembered exactly until it is recycled')
        O(Not(f.M(s, 'peek', p)), 'no element stays noted as peeked')
    return r


TASKS = [('schedule.fifo_gc', t_fifo_gc, {'C06'}, 3)]
