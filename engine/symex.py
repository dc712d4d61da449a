"""Deductive verification of LLVM IR, function by function.

Forward symbolic execution over one function at a time.  Loops are cut by
invariants, calls to functions under contract are replaced by the contract,
calls to functions without a contract are executed (inlined).  Obligations are
collected as (name, hypotheses, goal) and discharged by an SMT solver.

Integers are mathematical integers constrained to the machine range; every
add/sub/mul carries its exact wrap-around.  Floating point is treated as real.
"""
import re, itertools, os, sys
import z3
from irparse import T, PTR, V, Module, ParseError, Function


class Unsupported(Exception):
    """construct outside the verifier's reach: no verdict for this function"""


class Budget(Exception):
    pass


TRUE = True


def isz(x):
    return isinstance(x, z3.ExprRef)


# ------------------------------------------------------------------ booleans
def Not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
    if not isz(a) and not isz(b):
        if a == b:
            return a
        a = z3.IntVal(a) if isinstance(a, int) else a
    if isz(a) and isz(b) and a.eq(b):
        return a
    return z3.If(c, a, b)


def Eq(a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_eq(a, b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return a == b


def Ne(a, b):
    return Not(Eq(a, b))


def Lt(a, b):
    r = a < b
    return r


def Le(a, b):
    if isz(a) and isz(b) and a.eq(b):
        return True
    return a <= b


def asbool(v):
    """i1 value -> bool"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if z3.is_bool(v):
        return v
    return boolish(v, True)


def boolish(v, low=False):
    """integer value known to be used as truth (v & 1 if low else v != 0)"""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1) if low else v != 0
    if z3.is_bool(v):
        return v
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            if {x, y} == {0, 1}:
                return c if x == 1 else Not(c)
    if low:
        return v % 2 == 1
    return v != 0


def toint(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isz(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


# ------------------------------------------------------------------ memory
class Region:
    _n = itertools.count()

    def __init__(self, name, kind='obj', size=None, stride=None, length=None, fields=None,
                 default='lazy', meta=None):
        self.id = next(Region._n)
        self.name = name
        self.kind = kind            # obj | arr | fn | opaque
        self.size = size
        self.stride = stride
        self.length = length        # number of elements (expr) for arr
        self.fields = fields or {}  # arr: off -> (size, kind) kind: 'int' | 'real' | ('ptr', Region|None)
        self.default = default      # lazy | undef | zero
        self.meta = meta or {}
        self.shared = False
        self.ptrkinds = {}          # obj: off -> Region|callable for lazily created pointers

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('r', 'idx', 'off')

    def __init__(self, r, idx=0, off=0):
        self.r, self.idx, self.off = r, idx, off

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.r, self.idx, self.off)


NULL = Ptr(None, 0, 0)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class FnVal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


def ptr_eq(a, b):
    if isinstance(a, FnVal) or isinstance(b, FnVal):
        return isinstance(a, FnVal) and isinstance(b, FnVal) and a.name == b.name
    if not isinstance(a, Ptr):
        if isinstance(a, int):
            a = Ptr(None, a, 0)
        else:
            raise Unsupported('pointer compared with integer')
    if not isinstance(b, Ptr):
        if isinstance(b, int):
            b = Ptr(None, b, 0)
        else:
            raise Unsupported('pointer compared with integer')
    if a.r is b.r:
        if a.r is None:
            return Eq(a.idx + a.off, b.idx + b.off)
        if a.off != b.off:
            return False
        return Eq(a.idx, b.idx)
    if a.r is None or b.r is None:
        p, n = (b, a) if a.r is None else (a, b)
        if p.r.meta.get('pool') and p.off == 0:
            return And(Eq(n.idx + n.off, 0), Eq(p.idx, 0))
        return False
    return False


class Arr:
    """functional array int -> int"""

    def select(self, ex, i):
        raise NotImplementedError


class ABase(Arr):
    def __init__(self, name, size, kind='int'):
        self.name, self.size, self.kind = name, size, kind
        self.a = z3.Array(name, z3.IntSort(), z3.RealSort() if kind == 'real' else z3.IntSort())
        self.seen = {}

    def select(self, ex, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        t = z3.Select(self.a, i)
        if self.kind != 'real' and self.size is not None:
            ex.range_axiom(t, 'b' if self.kind == 'bool' else self.size)
        return t


class AConst(Arr):
    def __init__(self, v):
        self.v = v

    def select(self, ex, i):
        return self.v


class AStore(Arr):
    def __init__(self, prev, i, v):
        self.prev, self.i, self.v = prev, i, v

    def select(self, ex, i):
        e = Eq(i, self.i)
        if e is True:
            return self.v
        if e is False:
            return self.prev.select(ex, i)
        return If(e, self.v, self.prev.select(ex, i))


class ACopy(Arr):
    """dst with [doff, doff+n) taken from src at [soff, soff+n)"""

    def __init__(self, dst, src, n, doff=0, soff=0):
        self.dst, self.src, self.n, self.doff, self.soff = dst, src, n, doff, soff

    def select(self, ex, i):
        c = And(Le(self.doff, i), Lt(i, self.doff + self.n))
        if c is True:
            return self.src.select(ex, i - self.doff + self.soff)
        if c is False:
            return self.dst.select(ex, i)
        return If(c, self.src.select(ex, i - self.doff + self.soff), self.dst.select(ex, i))


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'log', 'freed', 'trace', 'own', 'depth')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.log = None
        self.freed = frozenset()
        self.trace = ()
        self.own = set()
        self.depth = 0

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.log = set(self.log) if self.log is not None else None
        s.freed = self.freed
        s.trace = self.trace
        s.depth = self.depth
        return s

    def cells(self, r):
        c = self.mem.get(r)
        if c is None:
            c = self.mem[r] = {}
            self.own.add(r)
        elif r not in self.own:
            c = self.mem[r] = dict(c)
            self.own.add(r)
        return c

    def rcells(self, r):
        c = self.mem.get(r)
        return c if c is not None else {}


class Frame:
    __slots__ = ('fn', 'regs', 'loops', 'allocas')

    def __init__(self, fn):
        self.fn = fn
        self.regs = {}
        self.loops = ()
        self.allocas = []

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = dict(self.regs)
        f.loops = self.loops
        f.allocas = list(self.allocas)
        return f


class Ob:
    __slots__ = ('name', 'hyp', 'goal', 'loc', 'fn', 'trace', 'status', 'model', 'backend', 'time', 'kind')

    def __init__(self, name, hyp, goal, loc, fn, trace, kind):
        self.name, self.hyp, self.goal, self.loc, self.fn, self.trace = name, hyp, goal, loc, fn, trace
        self.kind = kind
        self.status = None
        self.model = None
        self.backend = None
        self.time = 0.0


class Contract:
    """Contract of a function, used at call sites instead of the body.
    apply(ex, st, args, ins) -> list of (state, kind, value); kind 'ret' | 'exc'"""
    name = '?'
    trusted = False

    def apply(self, ex, st, args, loc):
        raise NotImplementedError


def add_all(solver, fs):
    for f in fs:
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        z3.Z3_solver_assert(solver.ctx.ref(), solver.solver, f.as_ast())


FRESHNAME = re.compile(r'.*!\d+$').match


class Exec:
    def __init__(self, mod, contracts=None, hooks=None, solver_timeout=20000, max_paths=6000):
        self.mod = mod
        self.contracts = contracts or []   # list of (regex, Contract)
        self.hooks = hooks                 # spec object with optional callbacks
        self.axioms = []
        self._axseen = set()
        self.obs = []
        self.cur = None                    # function under verification
        self.fresh_n = itertools.count()
        self.globals = {}
        self.timeout = solver_timeout
        self.max_paths = max_paths
        self.npaths = 0
        self.used_contracts = set()
        self.used_ext = set()
        self.inlined = set()
        self.notes = set()
        self._ccache = {}
        self._feas = z3.Solver()
        self._feas.set('timeout', 4000)
        self.nfeas = 0
        self.quiet = 0
        self.no_unroll = False
        self.deadline = None
        self._axn = 0
        self._symcache, self._axby, self._axbase, self._axsymn = {}, {}, [], 0
        self.loopdepth = 0
        self.ob_filter = None
        self.unrolling = []
        self.unroll_fail = {}
        self.unroll_budget = 80

    # ----------------------------------------------------------- symbols
    def fresh(self, base, size=8, kind='int'):
        n = '%s!%d' % (base, next(self.fresh_n))
        if kind == 'bool':
            return z3.Bool(n)
        if kind == 'real':
            return z3.Real(n)
        v = z3.Int(n)
        if size is not None:
            self.range_axiom(v, size)
        return v

    def fresh_name(self, base):
        return '%s!%d' % (base, next(self.fresh_n))

    def add_contracts(self, cs):
        self.contracts = list(self.contracts) + list(cs)
        self._ccache = {}

    def sym(self, name, size=8):
        v = z3.Int(name)
        if size is not None:
            self.range_axiom(v, size)
        return v

    def range_axiom(self, t, size):
        k = (t.get_id(), size)
        if k in self._axseen:
            return
        self._axseen.add(k)
        self.axioms.append(z3.And(t >= 0, t <= 1) if size == 'b' else z3.And(t >= 0, t < (1 << (8 * size))))

    def axiom(self, f):
        if f is True:
            return
        self.axioms.append(f)

    # ----------------------------------------------------------- solving
    def fresh_syms(self, f):
        """the fresh constants (name!number) of a formula"""
        k = f.get_id()
        hit = self._symcache.get(k)
        if hit is not None and hit[0].eq(f):
            return hit[1]
        out, seen, work = set(), set(), [f]
        while work:
            t = work.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            hit = self._symcache.get(i)
            if hit is not None and hit[0].eq(t):
                out |= hit[1]
                continue
            n = t.num_args()
            if n == 0:
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    d = t.decl().name()
                    if FRESHNAME(d):
                        out.add(d)
            else:
                work.extend(t.children())
        self._symcache[k] = (f, out)
        return out

    def relevant_axioms(self, formulas):
        """the axioms that can bear on `formulas`: those about no fresh constant at all or about fresh constants connected with
        theirs (leaving axioms out only weakens the hypotheses)"""
        while self._axsymn < len(self.axioms):
            a = self.axioms[self._axsymn]
            ss = self.fresh_syms(a) if isz(a) else ()
            if not ss:
                self._axbase.append(self._axsymn)
            for x in ss:
                self._axby.setdefault(x, []).append(self._axsymn)
            self._axsymn += 1
        want, done, idx = [], set(), set()
        for f in formulas:
            if isz(f):
                want.extend(self.fresh_syms(f))
        while want:
            x = want.pop()
            if x in done:
                continue
            done.add(x)
            for i in self._axby.get(x, ()):
                if i not in idx:
                    idx.add(i)
                    want.extend(self.fresh_syms(self.axioms[i]))
        return [self.axioms[i] for i in self._axbase] + [self.axioms[i] for i in sorted(idx)]

    def check(self, formulas, timeout=None):
        """sat / unsat / unknown of conj(formulas) with axioms"""
        self.nfeas += 1
        if len(self.axioms) > 600:
            s = z3.Solver()
            s.set('timeout', 4000)
            for f in formulas:
                if f is False:
                    return z3.unsat
            fs = [f for f in formulas if f is not True]
            add_all(s, self.relevant_axioms(fs))
            add_all(s, fs)
            return s.check()
        s = self._feas
        while self._axn < len(self.axioms):
            s.add(self.axioms[self._axn])
            self._axn += 1
        s.push()
        try:
            for f in formulas:
                if f is True:
                    continue
                if f is False:
                    return z3.unsat
                s.add(f)
            return s.check()
        finally:
            s.pop()

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        return self.check(st.pc + [cond]) != z3.unsat

    def entails(self, st, goal):
        if goal is True:
            return True
        return self.check(st.pc + [Not(goal)]) == z3.unsat

    def assume(self, st, f):
        if f is True:
            return
        if f is False:
            st.pc.append(z3.BoolVal(False))
            return
        st.pc.append(f)

    def oblige(self, st, goal, name, loc=None, kind='post'):
        """record proof obligation: pc(st) |- goal"""
        if self.quiet:
            return
        if self.ob_filter and not self.ob_filter(name):
            return
        goal = goal if isz(goal) or isinstance(goal, bool) else And(goal)
        self.obs.append(Ob(name, list(st.pc), goal, loc, self.cur, st.trace, kind))

    # ----------------------------------------------------------- memory
    def new_region(self, st, name, **kw):
        r = Region('%s#%d' % (name, next(self.fresh_n)), **kw)
        st.cells(r)
        return r

    def init_cell(self, st, r, off, size, ty):
        """value of a cell never written since the start"""
        if r.default == 'zero':
            if ty is not None and ty.k == 'ptr':
                return NULL
            if ty is not None and ty.k in ('float', 'double', 'x86_fp80'):
                return z3.RealVal(0)
            return 0
        if ty is not None and ty.k == 'ptr':
            if off in r.ptrkinds:
                tgt = r.ptrkinds[off]
                if callable(tgt):
                    return tgt(self, st, r, off)
                if isinstance(tgt, Ptr):
                    return tgt
                return Ptr(tgt)
            if r.default == 'undef':
                return UNDEF
            if r.default == 'lazy':
                # unknown pointer: opaque object
                if self.hooks and hasattr(self.hooks, 'lazy_ptr'):
                    v = self.hooks.lazy_ptr(self, st, r, off)
                    if v is not None:
                        return v
                return UNDEF
        if ty is not None and ty.k in ('float', 'double', 'x86_fp80'):
            return z3.Real('%s+%d' % (r.name, off))
        v = z3.Int('%s+%d:%d' % (r.name, off, size))
        self.range_axiom(v, size)
        return v

    def load_obj(self, st, r, off, size, ty):
        c = st.rcells(r)
        e = c.get(off)
        if e is not None and e[0] == size:
            return self.conv(e[1], ty, size)
        # overlapping cells?
        ov = [(o, c[o]) for o in range(off - 15, off + size) if o in c and o + c[o][0] > off]
        if not ov:
            v = self.init_cell(st, r, off, size, ty)
            if not isinstance(v, Undef) or r.default != 'undef':
                cc = st.cells(r)
                cc[off] = (size, v)
            return v
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + size:
            o, (s, v) = ov[0]
            v = self.intval(v)
            sh = off - o
            if isinstance(v, int):
                return self.conv((v >> (8 * sh)) & ((1 << (8 * size)) - 1), ty, size)
            v = v / (1 << (8 * sh)) if sh else v
            return self.conv(v % (1 << (8 * size)), ty, size)
        # compose from smaller pieces (fill the gaps with initial values)
        total = 0
        o = off
        while o < off + size:
            if o in c:
                s, v = c[o]
                if o + s > off + size:
                    raise Unsupported('straddling load at %s+%d' % (r, off))
            else:
                s = 1
                v = self.load_obj(st, r, o, 1, T('int', 8))
                c = st.rcells(r)
            v = self.intval(v)
            total = total + (v * (1 << (8 * (o - off))) if o > off else v)
            o += s
        return self.conv(total, ty, size)

    def intval(self, v):
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return toint(v)
        if isinstance(v, Ptr):
            if v.r is None and not isz(v.idx):
                return v.idx
            return self.addr(v)
        if isinstance(v, Undef):
            return self.fresh('undef')
        if isz(v) and z3.is_real(v):
            raise Unsupported('bits of a floating value')
        return v

    def addr(self, p):
        """symbolic machine address of a pointer"""
        if isinstance(p, FnVal):
            a = z3.Int('addr!fn!' + p.name)
            self.range_axiom(a, 8)
            return a
        if p.r is None:
            return p.idx
        base = z3.Int('addr!%s' % p.r.name)
        k = ('addr', p.r.id)
        if k not in self._axseen:
            self._axseen.add(k)
            self.axioms.append(z3.And(base > 4096, base < (1 << 62)))
        a = base + p.off
        if p.r.kind == 'arr':
            a = a + p.idx * p.r.stride
            if p.r.meta.get('pool') and p.off >= 0:
                # number 0 is null; the address space does not wrap inside an object
                self.axiom(Implies(Lt(0, p.idx), Lt(a + p.r.stride, 1 << 62)))
                if p.off == 0:
                    a = If(Eq(p.idx, 0), 0, a)
        return a

    def conv(self, v, ty, size):
        if ty is None:
            return v
        if ty.k == 'int':
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                return toint(v) if ty.a != 1 else v
            if isz(v) and z3.is_real(v):
                t = z3.Int('bits!%d' % v.get_id())
                self.range_axiom(t, size)
                return t
            if ty.a == 1 and not isinstance(v, (Ptr, Undef)):
                return asbool(v)
            if isinstance(v, Undef):
                return self.fresh('undef', size)
            return v
        if ty.k == 'ptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v, 0)
            if isz(v):
                return Ptr(None, v, 0)
            return v
        if ty.k in ('float', 'double', 'x86_fp80'):
            if isinstance(v, int):
                if v == 0:
                    return z3.RealVal(0)
                return self.fresh('fbits', kind='real')
            if isz(v) and not z3.is_real(v):
                return self.fresh('fbits', kind='real')
            return v
        return v

    def store_obj(self, st, r, off, size, v):
        c = st.cells(r)
        for o in range(off - 15, off + size):
            if o in c and o + c[o][0] > off and not (o == off and c[o][0] == size):
                s, ov = c[o]
                del c[o]
                if o < off or o + s > off + size:
                    # split the larger cell into bytes outside the written range
                    ov = self.intval(ov)
                    for b in range(o, o + s):
                        if off <= b < off + size:
                            continue
                        sh = b - o
                        if isinstance(ov, int):
                            c[b] = (1, (ov >> (8 * sh)) & 255)
                        else:
                            c[b] = (1, (ov / (1 << (8 * sh)) if sh else ov) % 256)
        c[off] = (size, v)
        if st.log is not None:
            st.log.add(('cell', r, off, size))

    def elem(self, p, size):
        """normalise pointer into array region: (idx, off)"""
        r = p.r
        idx, off = p.idx, p.off
        if off < 0 or off >= r.stride:
            k = off // r.stride
            idx = idx + k
            off = off - k * r.stride
        return idx, off

    def arr_field(self, st, r, off, size, ty=None):
        c = st.rcells(r)
        if off in c:
            s, a = c[off]
            if s != size:
                raise Unsupported('array element access size %d at field +%d (%d) of %s' % (size, off, s, r))
            return a
        f = r.fields.get(off)
        if f is None:
            if r.meta.get('autofields', True) and not any(o < off + size and o + s > off for o, (s, _) in c.items()) \
                    and not any(o < off + size and o + f2[0] > off for o, f2 in r.fields.items()):
                kind = 'int'
                if ty is not None and ty.k == 'ptr':
                    kind = ('ptr', r.meta.get('elemptr'))
                elif ty is not None and ty.k in ('float', 'double'):
                    kind = 'real'
                r.fields[off] = (size, kind)
                f = r.fields[off]
            else:
                raise Unsupported('field +%d of array %s' % (off, r))
        if f[0] != size:
            raise Unsupported('array element access size %d at field +%d (%d) of %s' % (size, off, f[0], r))
        a = AConst(0) if r.default == 'zero' else ABase('%s[]+%d' % (r.name, off), size, f[1] if f[1] in ('real', 'bool') else 'int')
        st.cells(r)[off] = (size, a)
        return a

    def check_access(self, st, p, size, loc, what):
        if isinstance(p, FnVal):
            raise Unsupported('data access to function')
        if isinstance(p, Undef):
            if loc and not str(loc[0]).startswith('/repo') and '/c++/' in str(loc[0]):
                # the library reads what the model left open: a gap of the model, not of the code
                raise Unsupported('library reads a value the model leaves open at %s:%s' % loc[:2])
            self.oblige(st, False, 'mem:uninitialised-pointer', loc, 'mem')
            return False
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        if p.r is None:
            self.oblige(st, False, 'mem:null-dereference', loc, 'mem')
            return False
        if p.r in st.freed:
            self.oblige(st, False, 'mem:use-after-free(%s)' % p.r.name.split('#')[0], loc, 'mem')
            return False
        if p.r.kind == 'opaque':
            raise Unsupported('access into opaque %s' % p.r)
        if p.r.kind == 'arr':
            idx, off = self.elem(p, size)
            if p.r.meta.get('pool'):
                g = Ne(idx, 0)
                if g is not True:
                    self.oblige(st, g, 'mem:null-dereference', loc, 'mem')
                    self.assume(st, g)
                return True
            ln = p.r.meta['len'](st) if 'len' in p.r.meta else p.r.length
            g = And(Le(0, idx), Lt(idx, ln))
            if g is not True:
                self.oblige(st, g, 'mem:bounds(%s)' % p.r.name.split('#')[0], loc, 'mem')
                self.assume(st, g)
        else:
            if p.r.size is not None and (p.off < 0 or p.off + size > p.r.size):
                self.oblige(st, False, 'mem:bounds(%s)' % p.r.name.split('#')[0], loc, 'mem')
                return False
        return True

    def load(self, st, p, ty, loc=None):
        size = self.mod.sizeof(ty)
        rty = self.mod.resolve(ty)
        if rty.k in ('struct', 'array'):
            return self.load_agg(st, p, rty, loc)
        if not self.check_access(st, p, size, loc, 'load'):
            return None
        if p.r.shared and self.hooks and hasattr(self.hooks, 'on_shared'):
            self.hooks.on_shared(self, st, p, size, 'load', None, loc)
        if p.r.kind == 'arr':
            idx, off = self.elem(p, size)
            a = self.arr_field(st, p.r, off, size, ty)
            v = a.select(self, idx)
            f = p.r.fields.get(off)
            if f and isinstance(f[1], tuple) and f[1][0] == 'ptr':
                if isinstance(v, Ptr):
                    return v
                return Ptr(f[1][1], v, 0)
            return self.conv(v, ty, size)
        v = self.load_obj(st, p.r, p.off, size, ty)
        if isinstance(v, Undef) and ty.k != 'ptr':
            v = self.conv(v, ty, size)
        return v

    def load_agg(self, st, p, rty, loc):
        out = []
        if rty.k == 'struct':
            offs = self.mod.layout(rty)[2]
            for e, o in zip(rty.a, offs):
                out.append(self.load(st, Ptr(p.r, p.idx, p.off + o), e, loc))
        else:
            s = self.mod.sizeof(rty.b)
            for i in range(rty.a):
                out.append(self.load(st, Ptr(p.r, p.idx, p.off + i * s), rty.b, loc))
        return out

    def store(self, st, p, ty, v, loc=None):
        rty = self.mod.resolve(ty)
        if rty.k in ('struct', 'array'):
            if rty.k == 'struct':
                offs = self.mod.layout(rty)[2]
                for e, o, x in zip(rty.a, offs, v):
                    if not isinstance(x, Undef):
                        self.store(st, Ptr(p.r, p.idx, p.off + o), e, x, loc)
            else:
                s = self.mod.sizeof(rty.b)
                for i in range(rty.a):
                    self.store(st, Ptr(p.r, p.idx, p.off + i * s), rty.b, v[i], loc)
            return True
        size = self.mod.sizeof(ty)
        if not self.check_access(st, p, size, loc, 'store'):
            return None
        if p.r.meta.get('const'):
            self.oblige(st, False, 'mem:write-to-constant', loc, 'mem')
            return None
        if ty.k == 'int' and ty.a == 1:
            v = toint(v)
        if p.r.shared and self.hooks and hasattr(self.hooks, 'on_shared'):
            self.hooks.on_shared(self, st, p, size, 'store', v, loc)
        if p.r.kind == 'arr' and p.off in p.r.meta.get('ignore', ()):
            return True
        if p.r.kind == 'arr':
            idx, off = self.elem(p, size)
            a = self.arr_field(st, p.r, off, size, ty)
            if isinstance(v, Ptr):
                f = p.r.fields.get(off)
                if v.r is not None and v.r.kind == 'arr' and v.r.stride == 1:
                    v = Ptr(v.r, v.idx + v.off, 0)
                if f and isinstance(f[1], tuple) and f[1][0] == 'ptr' and (v.r is f[1][1] or v.r is None) and v.off == 0:
                    v = v.idx
                elif v.r is None and v.off == 0:
                    v = v.idx
                elif isinstance(a, ABase) or isinstance(a, (AStore, ACopy, AConst)):
                    raise Unsupported('storing pointer %r into array %s at offset %d (%s)' % (v, p.r, off, loc))
            if isinstance(v, Undef):
                v = self.fresh('undef', size)
            st.cells(p.r)[off] = (size, AStore(a, idx, v))
            if st.log is not None:
                st.log.add(('arr', p.r, off, size))
        else:
            self.store_obj(st, p.r, p.off, size, v)
        if p.r.shared and self.hooks and hasattr(self.hooks, 'after_store'):
            self.hooks.after_store(self, st, p, size, v, loc)
        return True

    # ----------------------------------------------------------- globals
    def global_ptr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnVal(name)
        if name not in self.globals:
            ty, val, const = self.mod.global_init(name)
            try:
                size = self.mod.sizeof(ty)
            except ParseError:
                size = None
            r = Region('@' + name, kind='obj', size=size if val is not None else None,
                       default='zero' if val is not None and val.k == 'zero' else 'lazy',
                       meta={'global': name, 'const': const, 'init': val, 'ty': ty})
            self.globals[name] = r
            if not const:
                r.default = 'lazy'
        return Ptr(self.globals[name], 0, 0)

    def global_load(self, st, r, off, ty):
        """load from a constant global initialiser"""
        v, t = r.meta['init'], r.meta['ty']
        o = off
        while True:
            t = self.mod.resolve(t)
            if v.k == 'zero':
                return self.zero(ty)
            if t.k == 'struct':
                offs = self.mod.layout(t)[2]
                k = max(i for i, x in enumerate(offs) if x <= o)
                o -= offs[k]; v = v.a[k]; t = t.a[k]
            elif t.k == 'array':
                s = self.mod.sizeof(t.b)
                k = o // s
                if v.k == 'cstr':
                    bs = self.cstr_bytes(v.a)
                    sz = self.mod.sizeof(ty)
                    return int.from_bytes(bs[o:o + sz], 'little')
                o -= k * s; v = v.a[k]; t = t.b
            else:
                if o != 0:
                    raise Unsupported('constant global partial read')
                return self.value(None, v, st)

    def cstr_bytes(self, s):
        out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'int':
            return False if ty.a == 1 else 0
        if ty.k in ('float', 'double', 'x86_fp80'):
            return z3.RealVal(0)
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.a]
        if ty.k == 'array':
            return [self.zero(ty.b) for _ in range(ty.a)]
        raise Unsupported('zero of ' + repr(ty))

    # ----------------------------------------------------------- operands
    def value(self, fr, v, st):
        k = v.k
        if k == 'loc':
            try:
                return fr.regs[v.a]
            except KeyError:
                raise Unsupported('register %' + v.a)
        if k == 'int':
            return bool(v.a) if v.ty.a == 1 else v.a
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(v.a)
        if k == 'undef':
            if v.ty.k == 'struct':
                return [UNDEF for _ in v.ty.a]
            return UNDEF
        if k == 'zero':
            return self.zero(v.ty)
        if k == 'fp':
            return z3.RealVal(fp_const(v.a))
        if k == 'agg':
            return [self.value(fr, x, st) for x in v.a]
        if k == 'expr':
            if v.a[0] == 'gep':
                base = self.value(fr, v.a[2][0], st)
                return self.gep(st, base, v.a[1], [self.value(fr, x, st) for x in v.a[2][1:]],
                                [x.ty for x in v.a[2][1:]])
            if v.a[0] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.value(fr, v.a[1], st)
        raise Unsupported('operand %r' % v)

    def gep(self, st, base, ety, idxs, itys):
        """pointer arithmetic; symbolic indices only into array regions with matching stride"""
        if isinstance(base, Undef):
            return UNDEF
        if isinstance(base, FnVal):
            raise Unsupported('gep on function')
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        p = base
        first = True
        ty = ety
        for iv, ity in zip(idxs, itys):
            if isinstance(iv, bool):
                iv = int(iv)
            if isinstance(iv, int) and ity.k == 'int' and iv >= 1 << (ity.a - 1):
                iv -= 1 << ity.a
            if first:
                p = self.padd(st, p, iv, self.mod.sizeof(ty), ity)
                first = False
                continue
            rt = self.mod.resolve(ty)
            if rt.k == 'struct':
                p = self.padd(st, p, self.mod.layout(ty)[2][iv], 1, ity)
                ty = rt.a[iv]
            elif rt.k == 'array':
                ty = rt.b
                p = self.padd(st, p, iv, self.mod.sizeof(ty), ity)
            else:
                raise Unsupported('gep type')
        return p

    def padd(self, st, p, i, scale, ity):
        """p + i*scale bytes"""
        if isinstance(i, int):
            if i == 0:
                return p
            if p.r is None:
                return Ptr(None, p.idx + i * scale, 0)
            if p.r.kind == 'arr':
                if p.r.stride is None:
                    self.set_stride(st, p.r, scale)
                b = p.off + i * scale
                if 0 <= b < p.r.stride:
                    return Ptr(p.r, p.idx, b)
                k, o = divmod(b, p.r.stride)
                return Ptr(p.r, p.idx + k, o)
            return Ptr(p.r, p.idx, p.off + i * scale)
        # symbolic
        i = self.signed(i, ity.a) if not self.nonneg(st, i, ity.a) else i
        if p.r is None:
            raise Unsupported('symbolic offset from null/integer pointer')
        if p.r.kind == 'arr':
            if p.r.stride is None:
                self.set_stride(st, p.r, scale)
            if scale == p.r.stride:
                return Ptr(p.r, p.idx + i, p.off)
            if p.r.stride == 1:
                return Ptr(p.r, p.idx + scale * i, p.off)
            if scale == 1:
                # byte offset multiple of the stride?
                q = self.fresh('q', None)
                if self.entails(st, i % p.r.stride == 0):
                    return Ptr(p.r, p.idx + i / p.r.stride, p.off)
            raise Unsupported('stride mismatch %d vs %s on %s' % (scale, p.r.stride, p.r))
        # symbolic index into an object: enumerate feasible values
        raise NeedConcrete(i, p, scale)

    def set_stride(self, st, r, scale):
        r.stride = scale
        n = r.meta['bytes']
        if isinstance(n, int):
            r.length = n // scale
        else:
            ln = self.fresh('len_' + r.name.split('#')[0], 8)
            self.axiom(z3.And(ln * scale <= n, n < (ln + 1) * scale))
            r.length = ln

    def nonneg(self, st, i, bits):
        return self.entails(st, i < (1 << (bits - 1)))

    def signed(self, v, bits):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return v - (1 << bits) if v >= 1 << (bits - 1) else v
        return z3.If(v >= (1 << (bits - 1)), v - (1 << bits), v)

    # ----------------------------------------------------------- arithmetic
    def wrap(self, v, bits):
        m = 1 << bits
        if isinstance(v, int):
            return v % m
        return v

    def binop(self, st, op, ty, a, b, loc):
        if ty.k in ('float', 'double', 'x86_fp80'):
            a, b = self.real(a), self.real(b)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv': return a / b
            raise Unsupported(op)
        if ty.k != 'int':
            raise Unsupported('binop on ' + repr(ty))
        n = ty.a
        M = 1 << n
        if n == 1:
            a, b = asbool(a), asbool(b)
            if op == 'xor': return Ne(a, b) if not isinstance(b, bool) or not isinstance(a, bool) else a != b
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            raise Unsupported('i1 ' + op)
        a, b = self.num(a), self.num(b)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if op == 'add':
            s = a + b
            if ca and cb: return s % M
            if cb and b >= M // 2:   # adding a negative constant
                k = M - b
                return z3.If(a >= k, a - k, a + b)
            if ca and a >= M // 2:
                k = M - a
                return z3.If(b >= k, b - k, a + b)
            if self.entails(st, s < M): return s
            return z3.If(s >= M, s - M, s)
        if op == 'sub':
            s = a - b
            if ca and cb: return s % M
            if self.entails(st, s >= 0): return s
            return z3.If(s < 0, s + M, s)
        if op == 'mul':
            if ca and cb: return (a * b) % M
            s = a * b
            if self.entails(st, z3.And(s >= 0, s < M)): return s
            return s % M
        if op in ('udiv', 'urem'):
            if ca and cb and b:
                return a // b if op == 'udiv' else a % b
            if cb and b:
                return a / b if op == 'udiv' else a % b
            self.oblige(st, Ne(b, 0), 'arith:division-by-zero', loc, 'mem')
            self.assume(st, Ne(b, 0))
            return self.symdiv(st, a, b, op == 'udiv')
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(a, n), self.signed(b, n)
            if isinstance(sb, int) and sb > 0:
                if isinstance(sa, int):
                    q = abs(sa) // sb * (1 if sa >= 0 else -1)
                    return (q if op == 'sdiv' else sa - q * sb) % M
                if self.entails(st, sa >= 0):
                    return sa / sb if op == 'sdiv' else sa % sb
                q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                r = q if op == 'sdiv' else sa - q * sb
                return z3.If(r < 0, r + M, r)
            self.oblige(st, Ne(b, 0), 'arith:division-by-zero', loc, 'mem')
            self.assume(st, Ne(b, 0))
            if self.entails(st, And(sa >= 0, sb > 0)):
                return self.symdiv(st, a, b, op == 'sdiv')
            raise Unsupported(op)
        if op == 'shl':
            if cb:
                return self.binop(st, 'mul', ty, a, (1 << b) % M, loc) if b < n else 0
        if op == 'lshr':
            if cb:
                if ca: return a >> b
                return a / (1 << b)
        if op == 'ashr' and cb:
            s = self.signed(a, n)
            if isinstance(s, int): return (s >> b) % M
            q = s / (1 << b)   # floor division for negative with positive divisor (z3 Int div is euclidean)
            return z3.If(q < 0, q + M, q)
        if op in ('and', 'or', 'xor'):
            if ca and cb:
                return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            if ca:
                a, b, ca, cb = b, a, cb, ca
            if cb:
                if op == 'and':
                    if b == 0: return 0
                    if b & (b + 1) == 0: return a % (b + 1)
                    # single bit or contiguous mask
                    low = (b & -b).bit_length() - 1
                    if ((b >> low) & ((b >> low) + 1)) == 0:
                        return ((a / (1 << low)) % ((b >> low) + 1)) * (1 << low)
                if op == 'or' and b == 0: return a
                if op == 'xor':
                    if b == 0: return a
                    if b == M - 1: return (M - 1) - a
            ba, bb = bit01(a), bit01(b)
            if ba is not None and bb is not None:
                f = {'and': And, 'or': Or}.get(op)
                if f: return toint(f(ba, bb))
                return toint(Ne(ba, bb))
            if self.entails(st, And(a <= 1, b <= 1)):
                x, y = Eq(a, 1), Eq(b, 1)
                if op == 'xor': return toint(Ne(x, y))
                return toint({'and': And, 'or': Or}[op](x, y))
            if n <= 16:
                x = z3.Int2BV(a if isz(a) else z3.IntVal(a), n); y = z3.Int2BV(b if isz(b) else z3.IntVal(b), n)
                return z3.BV2Int({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
            f = z3.Function('bv_%s_%d' % (op, n), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(a, b if isz(b) else z3.IntVal(b))
            self.range_axiom(r, n // 8)
            if op == 'and':
                self.axiom(z3.And(r <= a, r <= b))
            if op == 'or':
                self.axiom(z3.And(r >= a, r >= b, r <= a + b))
            return r
        if op in ('shl', 'lshr', 'ashr'):
            f = z3.Function('bv_%s_%d' % (op, n), z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f(a if isz(a) else z3.IntVal(a), b if isz(b) else z3.IntVal(b))
            self.range_axiom(r, n // 8)
            return r
        raise Unsupported('binop ' + op)

    def symdiv(self, st, a, b, isdiv):
        """unsigned division by a symbolic divisor: instances of the division lemmas
        (0<=r<b; a<b => q=0,r=a; b<=a<2b => q=1,r=a-b; a = q*b + r); lemmas proved in lemmas.smt2"""
        q = self.fresh('q', 8)
        r = self.fresh('r', 8)
        self.assume(st, And(r >= 0, Lt(r, b), q >= 0, Le(q, a), Le(r, a)))
        self.assume(st, Implies(Lt(a, b), And(Eq(r, a), Eq(q, 0))))
        self.assume(st, Implies(And(Le(b, a), Lt(a, 2 * b)), And(Eq(r, a - b), Eq(q, 1))))
        self.assume(st, Implies(Le(2 * b, a), q >= 2))
        if os.environ.get('IRV_NONLINEAR') or (isinstance(a, int) or isinstance(b, int)) or self.hooks and getattr(self.hooks, 'nonlinear', False):
            self.assume(st, Eq(a, q * b + r))
        return q if isdiv else r

    def real(self, a):
        if isinstance(a, Undef):
            return self.fresh('undef', kind='real')
        return a

    def num(self, a):
        if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
            return toint(a)
        if isinstance(a, (Ptr, FnVal)):
            if isinstance(a, Ptr) and a.r is None:
                return a.idx
            return self.addr(a)
        if isinstance(a, Undef):
            return self.fresh('undef')
        if isinstance(a, list):
            raise Unsupported('aggregate arithmetic')
        return a

    def icmp(self, st, p, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, FnVal)) or isinstance(b, (Ptr, FnVal)):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return self.fresh('undef', kind='bool')
            if p == 'eq': return self.peq(a, b)
            if p == 'ne': return Not(self.peq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None:
                if a.r.kind == 'arr':
                    x = a.idx * a.r.stride + a.off; y = b.idx * b.r.stride + b.off
                else:
                    x, y = a.off, b.off
                return self.cmp(p, x, y)
            return self.cmp(p, self.addr(a) if isinstance(a, Ptr) else a, self.addr(b) if isinstance(b, Ptr) else b)
        n = ty.a
        if n == 1:
            a, b = asbool(a) if not isinstance(a, Undef) else self.fresh('u', kind='bool'), asbool(b)
            if p == 'eq': return Eq(a, b)
            if p == 'ne': return Not(Eq(a, b))
            a, b = toint(a), toint(b)
        a, b = self.num(a), self.num(b)
        if p in ('eq', 'ne'):
            # bool-shaped compare against constants
            if isinstance(b, int) and b in (0, 1):
                ba = bit01(a)
                if ba is not None:
                    r = Not(ba) if b == 0 else ba
                    return r if p == 'eq' else Not(r)
            r = Eq(a, b)
            return r if p == 'eq' else Not(r)
        if p[0] == 's':
            return self.cmp('u' + p[1:], self.signed(a, n), self.signed(b, n))
        return self.cmp(p, a, b)

    def peq(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r is None and isz(a.idx) and b.r is not None or b.r is None and isz(b.idx) and a.r is not None:
                return Eq(self.addr(a), self.addr(b))
        if (isinstance(a, Ptr) and a.r is not None and isz(b) ) or (isinstance(b, Ptr) and b.r is not None and isz(a)):
            return Eq(self.addr(a) if isinstance(a, Ptr) else a, self.addr(b) if isinstance(b, Ptr) else b)
        return ptr_eq(a, b)

    def cmp(self, p, a, b):
        p = p[1:]
        if p == 'lt': return a < b
        if p == 'le': return a <= b
        if p == 'gt': return a > b
        if p == 'ge': return a >= b
        raise Unsupported('cmp ' + p)

    def cast(self, st, op, sty, v, dty):
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            return v
        if op == 'inttoptr':
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v, 0)
            if isz(v):
                return Ptr(None, v, 0)
            return v
        if op == 'trunc':
            if isinstance(v, (Ptr, Undef)):
                v = self.num(v)
            if dty.a == 1:
                return asbool(v)
            if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                v = toint(v)
            if isinstance(v, int):
                return v & ((1 << dty.a) - 1)
            if bit01(v) is not None:
                return v
            if self.entails(st, v < (1 << dty.a)):
                return v
            return v % (1 << dty.a)
        if op == 'zext':
            if sty.a == 1:
                return toint(asbool(v)) if not isinstance(v, Undef) else self.fresh('u', 1)
            return self.num(v) if not isinstance(v, Ptr) else v
        if op == 'sext':
            if sty.a == 1:
                v = asbool(v)
                return If(v, (1 << dty.a) - 1, 0)
            v = self.num(v)
            if isinstance(v, int):
                return self.signed(v, sty.a) % (1 << dty.a)
            if self.entails(st, v < (1 << (sty.a - 1))):
                return v
            return z3.If(v >= (1 << (sty.a - 1)), v + (1 << dty.a) - (1 << sty.a), v)
        if op == 'uitofp':
            v = self.num(v)
            return z3.ToReal(v) if isz(v) else z3.RealVal(v)
        if op == 'sitofp':
            v = self.signed(self.num(v), sty.a)
            return z3.ToReal(v) if isz(v) else z3.RealVal(v)
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'fptoui':
            i = z3.ToInt(v)
            return i % (1 << dty.a)
        if op == 'fptosi':
            i = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return i % (1 << dty.a)
        raise Unsupported(op)

    # ----------------------------------------------------------- execution
    def loc(self, ins):
        return self.mod.loc(ins.dbg) if ins is not None else None

    def run_function(self, fn, args, st, cont_unroll=None):
        """execute fn's body on st; list of (state, kind, value)"""
        fn.parse()
        fr = Frame(fn)
        if len(args) < len(fn.params):
            raise Unsupported('arity of ' + fn.name)
        for (ty, nm, info), a in zip(fn.params, args):
            if 'byval' in info:
                # callee owns a copy
                r = self.new_region(st, 'byval', size=self.mod.sizeof(info['byval']), default='undef')
                self.memcpy(st, Ptr(r), a, self.mod.sizeof(info['byval']), None)
                a = Ptr(r)
            fr.regs[nm] = a
        st.depth += 1
        if st.depth > 60:
            raise Unsupported('recursion depth in ' + fn.name)
        outs = self.exec_from(fr, st, fn.entry, None)
        for s, k, v in outs:
            s.depth -= 1
        return outs

    def exec_from(self, fr, st, block, prev, stop_header=None):
        """runs until return; returns outcome list (state, kind, value).  kinds: 'ret','exc','backedge'"""
        outs = []
        work = [(fr, st, block, prev, 0)]
        while work:
            fr, st, block, prev, pos = work.pop()
            self.npaths += 1
            for c in self.unrolling:
                if self.npaths > c['paths']:
                    raise UnrollAbort(c)
            if self.npaths > self.max_paths:
                raise Budget('path budget exceeded in %s' % (self.cur,))
            if self.deadline and self.nfeas % 50 == 0:
                import time
                if time.time() > self.deadline:
                    raise Budget('time budget exceeded in %s' % (self.cur,))
            self.exec_block(fr, st, block, prev, pos, work, outs)
        return outs

    def goto(self, fr, st, frm, to, work, outs):
        """control transfer with loop handling"""
        fn = fr.fn
        # leave loops whose body does not contain `to`
        loops = fr.loops
        while loops and to not in fn.loops[loops[-1][0]]:
            if loops[-1][1] is not None and loops[-1][1].get('drop'):
                return          # only the iterations matter while the invariant is being inferred
            loops = loops[:-1]
        fr.loops = loops
        if to in fn.loops:
            if loops and loops[-1][0] == to:
                ctx = loops[-1][1]
                if ctx is not None and ctx.get('mode') == 'unroll':
                    ctx['count'] += 1
                    if ctx['count'] > ctx['limit']:
                        raise UnrollAbort(ctx)
                    work.append((fr, st, to, frm, 0))
                    return
                outs.append((st, 'backedge', (fr, ctx, frm)))
                return
            for o in self.loop_entry(fr, st, to, frm):
                outs.append(o)
            return
        work.append((fr, st, to, frm, 0))

    def loop_entry(self, fr, st, header, prev):
        fn = fr.fn
        # try bounded complete unrolling first
        lim = getattr(self, "unroll_limit", 20)
        key = (fn.name, header)
        if not self.no_unroll and self.unroll_fail.get(key, 0) < 1:
            ctx = {'mode': 'unroll', 'count': 0, 'limit': lim, 'id': object(), 'paths': self.npaths + self.unroll_budget}
            nobs = len(self.obs)
            f2, s2 = fr.clone(), st.clone()
            f2.loops = f2.loops + ((header, ctx),)
            np0, ld = self.npaths, self.loopdepth
            self.unrolling.append(ctx)
            try:
                return self.exec_from(f2, s2, header, prev)
            except UnrollAbort as e:
                if e.ctx is not ctx:
                    raise
                del self.obs[nobs:]
                self.loopdepth = ld
                self.npaths = np0
                self.unroll_fail[key] = self.unroll_fail.get(key, 0) + 1
            finally:
                self.unrolling.remove(ctx)
        return self.loop_invariant(fr, st, header, prev)

    # -- loop cut by an invariant
    def loop_invariant(self, fr, st, header, prev):
        fn = fr.fn
        hooks = self.hooks
        self.loopdepth += 1
        loc = None
        for ins in fn.blocks[header]:
            loc = loc or self.loc(ins)
        lname = '%s:loop@%s' % (short(self.mod.dem.get(fn.name, fn.name)), loc[1] if loc else header)

        # header phis: treat as loop-carried registers
        phis = [i for i in fn.blocks[header] if i.op == 'phi']

        def body(s0, f0, record):
            """run one arbitrary iteration from the havocked header"""
            ctx = {'mode': 'inv', 'id': object(), 'drop': not record}
            f0 = f0.clone()
            f0.loops = f0.loops + ((header, ctx),)
            if not record:
                self.quiet += 1
            try:
                outs = self.exec_from(f0, s0, header, 'phi!havoc' if phis else prev)
            finally:
                if not record:
                    self.quiet -= 1
            back = [o for o in outs if o[1] == 'backedge' and o[2][1] is ctx]
            rest = [o for o in outs if not (o[1] == 'backedge' and o[2][1] is ctx)]
            return back, rest

        entry = st
        spec_inv = []
        if hooks and hasattr(hooks, 'loop_invariant'):
            spec_inv = hooks.loop_invariant(self, fn) or []
        if self.loopdepth > 6:
            raise Unsupported('loop nesting')

        def inv_of(s, s_entry):
            out = []
            for nm, f in spec_inv:
                g = f(self, s, s_entry)
                if g is not None:
                    out.append((nm, g))
            return out

        # header phis values
        phiv = {}

        def mk(modset, cands, with_inv=True):
            s = entry.clone()
            s.log = set()
            f = fr.clone()
            hav = self.havoc(s, entry, modset, f)
            for ins in phis:
                for v, b in ins.d[1]:
                    if b == prev:
                        ev = self.value(fr, v, entry)
                if isinstance(ev, Ptr):
                    if ev.r is not None and ev.r.kind == 'arr':
                        nv = Ptr(ev.r, self.fresh('phi', None), ev.off)
                    else:
                        raise Unsupported("pointer phi at loop header of %s" % fr.fn.name)
                elif isinstance(ev, bool) or (isz(ev) and z3.is_bool(ev)):
                    nv = self.fresh('phi', kind='bool')
                elif isz(ev) and z3.is_real(ev):
                    nv = self.fresh('phi', kind='real')
                else:
                    nv = self.fresh('phi', self.mod.sizeof(ins.d[0]))
                f.regs[ins.dst] = nv
                hav.append((('phi', ins.dst), ev, nv))
            if with_inv:
                for nm, g in inv_of(s, entry):
                    self.assume(s, g)
            if hooks and hasattr(hooks, 'loop_header_axioms'):
                hooks.loop_header_axioms(self, s, entry)
            for c in cands:
                g = c.formula(self, s, entry, f, fr)
                self.assume(s, g)
                if c.instance is not None:
                    self.assume(s, c.instance(self, s, entry, f, fr))
            return s, f, hav

        # 1. modified locations (fixpoint)
        modset = set()
        stable = set()      # pointer cells the body overwrites with the value they have

        def value_of(st_, m):
            c = st_.rcells(m[1]).get(m[2]) if m[1] in st_.mem else None
            return c[1] if c is not None and c[0] == m[3] else None

        def keeps(b, m):
            o, v = value_of(entry, m), value_of(b[0], m)
            return (m[0] == 'cell' and isinstance(o, Ptr) and isinstance(v, Ptr) and (o.r is None or o.r.kind == 'obj') and v.r is o.r
                    and not isz(o.idx) and not isz(v.idx) and o.idx == v.idx and not isz(o.off) and not isz(v.off) and o.off == v.off)
        if hooks and hasattr(hooks, 'loop_modifies'):
            modset |= set(hooks.loop_modifies(self, fn, entry) or ())
        for _ in range(12):
            s, f, hav = mk(modset, [])
            back, rest = body(s, f, False)
            new = set()
            for b in back:
                new |= b[0].log
            stable = {m for m in new | stable if m[0] == 'cell' and m not in modset and all(keeps(b, m) for b in back)}
            new -= stable
            # locations of regions that do not exist at entry are irrelevant
            new = {m for m in new if m[0] == 'ghost' or m[1] in entry.mem or m[1].meta.get('persistent') or m[1].meta.get('global')}
            if new <= modset:
                break
            modset |= new
        else:
            raise Unsupported('loop write set does not stabilise in ' + lname)
        modset = normalise_modset(modset)
        # 2./3. Houdini over generated candidates
        s, f, hav = mk(modset, [])
        cands = gen_candidates(self, entry, hav, fr)
        if hooks and hasattr(hooks, 'loop_candidates'):
            cands += hooks.loop_candidates(self, fn, entry, hav, fr)
        # entry filter
        cands = [c for c in cands if self.cand_holds(entry, c, entry, fr, fr)]
        if cands:
            for _ in range(12):
                s, f, hav = mk(modset, cands)
                back, rest = body(s, f, False)
                keep = []
                for c in cands:
                    if all(self.cand_holds(b[0], c, entry, self.back_frame(b, phis), fr) for b in back):
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
            else:
                cands = []
        # 4. final pass, obligations recorded
        for nm, g in inv_of(entry, entry):
            self.oblige(entry, g, '%s:entry:%s' % (lname, nm), loc, 'inv')
        s, f, hav = mk(modset, cands)
        back, rest = body(s, f, True)
        if not all(keeps(b, m) for b in back for m in stable):
            raise Unsupported('loop-carried pointer')
        modset = modset | stable
        for b in back:
            bs = b[0]
            for nm, g in inv_of(bs, entry):
                self.oblige(bs, g, '%s:preserved:%s' % (lname, nm), loc, 'inv')
            for c in cands:
                g = c.formula(self, bs, entry, self.back_frame(b, phis), fr)
                self.oblige(bs, g, '%s:inferred:%s' % (lname, c.name), loc, 'inferred-inv')
        # exits leave with the outer log restored
        for o in rest:
            if entry.log is not None:
                o[0].log = (o[0].log or set()) | entry.log | modset
            else:
                o[0].log = None
        self.loopdepth -= 1
        return rest

    def back_frame(self, b, phis):
        fr, ctx, frm = b[2]
        if not phis:
            return fr
        f = fr.clone()
        for ins in phis:
            for v, blk in ins.d[1]:
                if blk == frm:
                    f.regs[ins.dst] = self.value(fr, v, b[0])
        return f

    def cand_holds(self, st, c, entry, f, fr0):
        try:
            g = c.formula(self, st, entry, f, fr0)
        except Unsupported:
            return False
        return self.entails(st, g)

    def havoc(self, s, entry, modset, f):
        """replace every modified location by a fresh value; returns [(key, old, new)]"""
        out = []
        for m in sorted(modset, key=lambda m: (m[0], str(m[1]) if m[0] == 'ghost' else m[1].id, m[2:] )):
            if m[0] == 'ghost':
                old = entry.ghost.get(m[1])
                if isinstance(old, Arr):
                    s.ghost[m[1]] = ABase(self.name('hg_' + str(m[1])), None)
                elif isz(old) and z3.is_bool(old) or isinstance(old, bool):
                    s.ghost[m[1]] = self.fresh('hg_' + str(m[1]), kind='bool')
                elif isinstance(old, (Ptr, Undef)) or old is None:
                    continue
                else:
                    s.ghost[m[1]] = self.fresh('hg_' + str(m[1]), None)
                out.append((m, old, s.ghost[m[1]]))
            elif m[0] == 'cell':
                _, r, off, size = m
                c = entry.rcells(r)
                old = c[off][1] if off in c and c[off][0] == size else None
                if isinstance(old, Ptr):
                    if old.r is not None and old.r.kind == 'arr':
                        new = Ptr(old.r, self.fresh('hp', None), old.off)
                    else:
                        new = HavocPtr(old)
                elif isinstance(old, (FnVal, HavocPtr)):
                    new = UNDEF
                elif old is None:
                    new = None
                elif isz(old) and z3.is_real(old):
                    new = self.fresh('h', kind='real')
                elif isinstance(old, Undef):
                    new = UNDEF
                else:
                    new = self.fresh('h_%s+%d' % (r.name.split('#')[0], off), size)
                if new is None:
                    # not accessed before: becomes unknown
                    sc = s.cells(r)
                    for o in list(sc):
                        if o < off + size and o + sc[o][0] > off:
                            del sc[o]
                    if r.default == 'undef':
                        sc[off] = (size, UNDEF)
                    else:
                        sc[off] = (size, HavocAny())
                    new = None
                    out.append((m, None, None))
                    continue
                self.store_obj(s, r, off, size, new)
                out.append((m, old, new))
            elif m[0] == 'arr':
                _, r, off, size = m
                fk = r.fields.get(off, (size, 'int'))[1]
                s.cells(r)[off] = (size, ABase(self.name('ha_%s+%d' % (r.name, off)), size, fk if fk in ('real', 'bool') else 'int'))
                out.append((m, None, None))
            if s.log is not None:
                s.log.add(m)
        s.log = set()
        return out

    def name(self, b):
        return '%s!%d' % (b, next(self.fresh_n))

    # -- blocks
    def exec_block(self, fr, st, block, prev, pos, work, outs):
        fn = fr.fn
        ins_list = fn.blocks[block]
        n = len(ins_list)
        # phis evaluated simultaneously
        if pos == 0:
            ph = [i for i in ins_list if i.op == 'phi']
            if ph and prev != 'phi!havoc':
                vals = []
                for i in ph:
                    for v, b in i.d[1]:
                        if b == prev:
                            vals.append((i.dst, self.value(fr, v, st)))
                            break
                    else:
                        raise Unsupported('phi predecessor')
                for d, v in vals:
                    fr.regs[d] = v
            pos = len(ph)
        while pos < n:
            ins = ins_list[pos]
            pos += 1
            op = ins.op
            d = ins.d
            R = fr.regs
            if op == 'load':
                p = self.value(fr, d[1], st)
                if isinstance(p, Ptr) and p.r is not None and p.r.meta.get('init') is not None and p.r.meta.get('const'):
                    R[ins.dst] = self.global_load(st, p.r, p.off, d[0])
                    continue
                v = self.load(st, p, d[0], self.loc(ins))
                if v is None:
                    return
                if isinstance(v, HavocPtr):
                    v = v.resolve(self, st)
                if isinstance(v, HavocAny):
                    v = v.resolve(self, st, p, d[0])
                R[ins.dst] = v
            elif op == 'store':
                v = self.value(fr, d[1], st)
                p = self.value(fr, d[2], st)
                if self.store(st, p, d[0], v, self.loc(ins)) is None:
                    return
            elif op == 'alloca':
                ty, cnt = d
                size = self.mod.sizeof(ty)
                if cnt is not None:
                    c = self.value(fr, cnt, st)
                    if not isinstance(c, int):
                        raise Unsupported('variable alloca')
                    size *= c
                r = self.new_region(st, 'loc%s' % (ins.dst or ''), size=size, default='undef')
                fr.allocas.append(r)
                R[ins.dst] = Ptr(r)
            elif op == 'getelementptr':
                base = self.value(fr, d[1][0], st)
                idxs = [self.value(fr, x, st) for x in d[1][1:]]
                try:
                    R[ins.dst] = self.gep(st, base, d[0], idxs, [x.ty for x in d[1][1:]])
                except NeedConcrete as e:
                    vals = self.enum_values(st, e.i)
                    # split on the value of the index expression
                    for val in vals:
                        s2, f2 = st.clone(), fr.clone()
                        self.assume(s2, Eq(e.i, val))
                        p = Ptr(e.p.r, e.p.idx, e.p.off + val * e.scale)
                        # re-run the remaining indices is only supported when this is the last symbolic one
                        rest = self.gep_with(s2, base, d[0], idxs, [x.ty for x in d[1][1:]], e.i, val)
                        f2.regs[ins.dst] = rest
                        work.append((f2, s2, block, prev, pos))
                    return
            elif op == 'br':
                if len(d) == 1:
                    self.goto(fr, st, block, d[0], work, outs)
                    return
                c = self.value(fr, d[0], st)
                if isinstance(c, Undef):
                    c = self.fresh('undef', kind='bool')
                c = asbool(c)
                if isinstance(c, bool):
                    self.goto(fr, st, block, d[1] if c else d[2], work, outs)
                    return
                loc = self.loc(ins)
                t_ok = self.feasible(st, c)
                f_ok = self.feasible(st, Not(c)) if t_ok else True
                if t_ok and f_ok:
                    s2, f2 = st.clone(), fr.clone()
                    self.assume(s2, Not(c))
                    s2.trace = (st.trace, (loc, False))
                    self.assume(st, c)
                    st.trace = (st.trace, (loc, True))
                    self.goto(f2, s2, block, d[2], work, outs)
                    self.goto(fr, st, block, d[1], work, outs)
                elif t_ok:
                    self.goto(fr, st, block, d[1], work, outs)
                else:
                    if not self.feasible(st, True):
                        return
                    self.goto(fr, st, block, d[2], work, outs)
                return
            elif op == 'switch':
                v = self.num(self.value(fr, d[0], st))
                taken = []
                if isinstance(v, int):
                    to = d[1]
                    for c, b in d[2]:
                        if c.a == v:
                            to = b
                    self.goto(fr, st, block, to, work, outs)
                    return
                neg = True
                for c, b in d[2]:
                    e = Eq(v, c.a)
                    if self.feasible(st, And(neg, e)):
                        s2, f2 = st.clone(), fr.clone()
                        self.assume(s2, And(neg, e))
                        self.goto(f2, s2, block, b, work, outs)
                    neg = And(neg, Not(e))
                if self.feasible(st, neg):
                    self.assume(st, neg)
                    self.goto(fr, st, block, d[1], work, outs)
                return
            elif op == 'ret':
                v = self.value(fr, d[1], st) if d[1] is not None else None
                for r in fr.allocas:
                    st.mem.pop(r, None)
                outs.append((st, 'ret', v))
                return
            elif op in ('call', 'invoke'):
                res = self.call(fr, st, ins)
                if res is None:     # simple in-place result
                    if op == 'invoke':
                        self.goto(fr, st, block, d['normal'], work, outs)
                        return
                    continue
                multi = len(res) > 1
                for s2, k, v in res:
                    f2 = fr.clone() if multi else fr
                    if k == 'ret':
                        if ins.dst is not None:
                            f2.regs[ins.dst] = v
                        if op == 'invoke':
                            self.goto(f2, s2, block, d['normal'], work, outs)
                        else:
                            work.append((f2, s2, block, prev, pos))
                    elif k == 'exc':
                        if op == 'invoke':
                            f2.regs['!exc'] = v
                            self.goto(f2, s2, block, d['unwind'], work, outs)
                        else:
                            for r in f2.allocas:
                                s2.mem.pop(r, None)
                            outs.append((s2, 'exc', v))
                    else:
                        outs.append((s2, k, v))
                return
            elif op == 'landingpad':
                e = R.get('!exc')
                sel = 0
                ok = d[1]
                for ck, cv in d[2]:
                    if ck == 'catch':
                        tn = cv.a if cv.k == 'glob' else None
                        if tn is None or self.exc_matches(e, tn):
                            ok = True
                            sel = self.typeid(tn) if tn else 1
                            break
                    else:
                        ok = True
                if not ok:
                    for r in fr.allocas:
                        st.mem.pop(r, None)
                    outs.append((st, 'exc', e))
                    return
                R[ins.dst] = [e['ptr'] if e else UNDEF, sel]
                R['!lp' + ins.dst] = e
                st.ghost['!exc'] = ExcBox(e)
            elif op == 'resume':
                e = st.ghost.get('!exc')
                for r in fr.allocas:
                    st.mem.pop(r, None)
                outs.append((st, 'exc', e.e if isinstance(e, ExcBox) else e))
                return
            elif op == 'unreachable':
                return
            elif op == 'icmp':
                a, b = self.value(fr, d[2], st), self.value(fr, d[3], st)
                R[ins.dst] = self.icmp(st, d[0], d[1], a, b)
            elif op == 'fcmp':
                a, b = self.real(self.value(fr, d[2], st)), self.real(self.value(fr, d[3], st))
                p = d[0]
                R[ins.dst] = {'oeq': lambda: a == b, 'one': lambda: a != b, 'une': lambda: a != b, 'ueq': lambda: a == b,
                              'olt': lambda: a < b, 'ole': lambda: a <= b, 'ogt': lambda: a > b, 'oge': lambda: a >= b,
                              'ult': lambda: a < b, 'ule': lambda: a <= b, 'ugt': lambda: a > b, 'uge': lambda: a >= b,
                              'ord': lambda: True, 'uno': lambda: False, 'true': lambda: True, 'false': lambda: False}[p]()
            elif op in CASTS:
                R[ins.dst] = self.cast(st, op, d[0], self.value(fr, d[1], st), d[2])
            elif op in BINS:
                R[ins.dst] = self.binop(st, op, d[0], self.value(fr, d[1], st), self.value(fr, d[2], st), self.loc(ins))
            elif op == 'fneg':
                R[ins.dst] = -self.real(self.value(fr, d[1], st))
            elif op == 'freeze':
                R[ins.dst] = self.value(fr, d[1], st)
            elif op == 'select':
                c = self.value(fr, d[0], st)
                c = asbool(c)
                a, b = self.value(fr, d[2], st), self.value(fr, d[3], st)
                if isinstance(c, bool):
                    R[ins.dst] = a if c else b
                elif isinstance(a, (Ptr, FnVal, Undef, list)) or isinstance(b, (Ptr, FnVal, Undef, list)):
                    if self.feasible(st, Not(c)):
                        s2, f2 = st.clone(), fr.clone()
                        self.assume(s2, Not(c)); f2.regs[ins.dst] = b
                        work.append((f2, s2, block, prev, pos))
                    if not self.feasible(st, c):
                        return
                    self.assume(st, c); R[ins.dst] = a
                else:
                    R[ins.dst] = If(c, a, b)
            elif op == 'extractvalue':
                v = self.value(fr, d[1], st)
                for i in d[2]:
                    v = UNDEF if isinstance(v, Undef) else v[i]
                R[ins.dst] = v
            elif op == 'insertvalue':
                v = self.value(fr, d[1], st)
                rt = self.mod.resolve(d[0])
                v = list(v) if isinstance(v, list) else [UNDEF for _ in range(len(rt.a) if rt.k == 'struct' else rt.a)]
                x = self.value(fr, d[3], st)
                if len(d[4]) != 1:
                    raise Unsupported('nested insertvalue')
                v[d[4][0]] = x
                R[ins.dst] = v
            elif op == 'atomicrmw':
                p = self.value(fr, d[1], st)
                old = self.load(st, p, d[2], self.loc(ins))
                if old is None:
                    return
                v = self.value(fr, d[3], st)
                if d[0] == 'xchg': nv = v
                elif d[0] in ('add', 'sub', 'and', 'or', 'xor'): nv = self.binop(st, d[0], d[2], old, v, self.loc(ins))
                else: raise Unsupported('atomicrmw ' + d[0])
                if self.store(st, p, d[2], nv, self.loc(ins)) is None:
                    return
                R[ins.dst] = old
            elif op == 'cmpxchg':
                p = self.value(fr, d[0], st)
                old = self.load(st, p, d[1], self.loc(ins))
                if old is None:
                    return
                c, nv = self.value(fr, d[2], st), self.value(fr, d[3], st)
                e = self.icmp(st, 'eq', d[1], old, c)
                if not isinstance(e, bool):
                    if self.feasible(st, Not(e)):
                        s2, f2 = st.clone(), fr.clone()
                        self.assume(s2, Not(e)); f2.regs[ins.dst] = [old, False]
                        work.append((f2, s2, block, prev, pos))
                    if not self.feasible(st, e):
                        return
                    self.assume(st, e); e = True
                if e:
                    if self.store(st, p, d[1], nv, self.loc(ins)) is None:
                        return
                R[ins.dst] = [old, e]
            elif op == 'fence':
                pass
            elif op == 'phi':
                pass
            else:
                raise Unsupported('instruction ' + op)
        raise Unsupported('fell off block')

    def gep_with(self, st, base, ety, idxs, itys, sym, val):
        idxs = [val if (isz(x) and (x.eq(sym) or self.signed(x, 64).eq(sym) or self.signed(x, 32).eq(sym))) else x for x in idxs]
        return self.gep(st, base, ety, idxs, itys)

    def enum_values(self, st, e, limit=40, linear=False):
        vals = []
        s = z3.Solver()
        s.set('timeout', 5000)
        for f in self.axioms:
            if not (linear and nonlinear(f)):
                s.add(f)
        for f in st.pc:
            if f is not True and not (linear and nonlinear(f)):
                s.add(f)
        while True:
            r = s.check()
            if r == z3.unsat:
                return vals
            if r == z3.unknown and not linear:
                return self.enum_values(st, e, limit, True)      # fewer facts: possibly more values, never fewer
            if r != z3.sat or len(vals) >= limit:
                raise Unsupported('symbolic index into an object')
            v = s.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            s.add(e != v)

    # ----------------------------------------------------------- exceptions
    def exc_matches(self, e, tn):
        if e is None:
            return False
        t = e['type']
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x == tn:
                return True
            if x in seen or x is None:
                continue
            seen.add(x)
            todo += self.ti_bases(x)
        if any(self.ti_unknown(x) for x in seen):
            # external typeinfo: fall back on known std hierarchy
            if tn == '_ZTISt9exception':
                return True
        return False

    def ti_unknown(self, x):
        return x not in self.mod.globals or self.mod.global_init(x)[1] is None

    def ti_bases(self, x):
        if x in EXC_BASES:
            return [EXC_BASES[x]]
        if x not in self.mod.globals:
            return []
        ty, val, c = self.mod.global_init(x)
        if val is None:
            return EXTRA_TI_BASES.get(x, [])
        return [v.a for v in val.a[2:] if v.k == 'glob' and v.a.startswith('_ZTI')]

    def typeid(self, tn):
        ids = self.__dict__.setdefault('_tids', {})
        return ids.setdefault(tn, len(ids) + 2)

    # ----------------------------------------------------------- calls
    def find_contract(self, dem):
        if dem in self._ccache:
            return self._ccache[dem]
        r = None
        for rx, c in self.contracts:
            if re.search(rx, dem):
                r = c
                break
        self._ccache[dem] = r
        return r

    def call(self, fr, st, ins):
        d = ins.d
        cv = d['callee']
        loc = self.loc(ins)
        if cv.k == 'asm':
            if ins.dst is not None:
                raise Unsupported('inline asm with result')
            self.used_ext.add('inline asm "%s"' % cv.a[0].strip('"').strip())
            return None
        callee = self.value(fr, cv, st)
        if isinstance(callee, Undef):
            self.oblige(st, False, 'mem:call-through-uninitialised-pointer', loc, 'mem')
            return []
        if isinstance(callee, Ptr):
            if callee.r is None:
                self.oblige(st, False, 'mem:call-through-null', loc, 'mem')
                return []
            fn = callee.r.meta.get('callee')
            if fn is None:
                raise Unsupported('indirect call through %r' % callee)
            args = [self.value(fr, a[1], st) if a[1] is not None else None for a in d['args']]
            return fn(self, st, callee, args, loc)
        name = self.mod.aliases.get(callee.name, callee.name)
        if name.startswith('llvm.'):
            return self.intrinsic(fr, st, ins, name, loc)
        args = [self.value(fr, a[1], st) if a[1] is not None else None for a in d['args']]
        outs = self.call_named(st, name, args, loc, d)
        if outs is None:
            return None
        if len(outs) == 1 and outs[0][1] == 'ret' and outs[0][0] is st:
            if ins.dst is not None:
                fr.regs[ins.dst] = outs[0][2]
            return None
        return outs

    def call_named(self, st, name, args, loc, d=None):
        dem = self.mod.dem.get(name, name)
        c = self.find_contract(dem)
        if c is not None:
            self.used_contracts.add((c.name, dem, c.trusted))
            return c.apply(self, st, args, loc)
        if self.hooks and hasattr(self.hooks, 'call'):
            r = self.hooks.call(self, st, name, dem, args, loc, d)
            if r is not NotImplemented:
                self.used_ext.add(dem)
                return r
        r = self.builtin(st, name, dem, args, loc, d)
        if r is not NotImplemented:
            return r
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('external function %s' % dem)
        self.inlined.add(dem)
        return self.run_function(f, args, st)

    def call_dem(self, st, regex, args, loc=None):
        for n, dm in self.mod.dem.items():
            if n in self.mod.funcs and re.search(regex, dm):
                return self.call_named(st, n, args, loc)
        raise Unsupported('no function ' + regex)

    # memcpy / memset on modelled memory
    def memcpy(self, st, dst, src, n, loc):
        if isinstance(n, int):
            if n == 0:
                return True
            if not isinstance(dst, Ptr) or not isinstance(src, Ptr) or dst.r is None or src.r is None:
                self.oblige(st, False, 'mem:null-dereference', loc, 'mem')
                return None
            if src.r.kind == 'obj' and dst.r.kind == 'obj':
                if not self.check_access(st, dst, n, loc, 'store') or not self.check_access(st, src, n, loc, 'load'):
                    return None
                if src.r.meta.get('const') and src.r.meta.get('init') is not None:
                    # constant initialiser: bytes
                    o = 0
                    ty = src.r.meta['ty']
                    self.copy_const(st, dst, src.r.meta['init'], ty, src.off, n)
                    return True
                cells = sorted((o, c) for o, c in st.rcells(src.r).items() if o < src.off + n and o + c[0] > src.off)
                done = src.off
                todo = []
                for o, (s, v) in cells:
                    if o < src.off or o + s > src.off + n:
                        raise Unsupported('memcpy splits a cell')
                    todo.append((o - src.off, s, v))
                # cells never touched: materialise if source is lazy (by 8 bytes)
                cov = set()
                for o, s, v in todo:
                    cov.update(range(o, o + s))
                o = 0
                while o < n:
                    if o in cov:
                        o += 1; continue
                    s = 8
                    while s > 1 and (o % s or o + s > n or any((o + j) in cov for j in range(s))):
                        s //= 2
                    if src.r.default in ('lazy', 'zero'):
                        if src.off + o in src.r.ptrkinds:
                            v = self.load_obj(st, src.r, src.off + o, 8, PTR); s = 8
                        else:
                            v = self.load_obj(st, src.r, src.off + o, s, T('int', 8 * s))
                        todo.append((o, s, v))
                    o += s
                for o, s, v in todo:
                    self.store_obj(st, dst.r, dst.off + o, s, v)
                return True
            # array elements
            return self.memcpy_elem(st, dst, src, n, loc)
        return self.memcpy_sym(st, dst, src, n, loc)

    def copy_const(self, st, dst, v, ty, off, n):
        rt = self.mod.resolve(ty)
        def rec(v, t, base):
            t = self.mod.resolve(t)
            if t.k == 'struct':
                offs = self.mod.layout(t)[2]
                for i, e in enumerate(t.a):
                    rec(V('zero', None, e) if v.k == 'zero' else v.a[i], e, base + offs[i])
            elif t.k == 'array':
                s = self.mod.sizeof(t.b)
                if v.k == 'cstr':
                    for i, b in enumerate(self.cstr_bytes(v.a)):
                        self.store_obj(st, dst.r, dst.off + base + i, 1, b)
                    return
                for i in range(t.a):
                    rec(V('zero', None, t.b) if v.k == 'zero' else v.a[i], t.b, base + i * s)
            else:
                self.store_obj(st, dst.r, dst.off + base, self.mod.sizeof(t), self.value(None, v, st))
        rec(v, ty, -off)

    def memcpy_elem(self, st, dst, src, n, loc):
        """n constant bytes, at least one side an array element (scalar fields)"""
        def fields(p):
            if p.r.kind == 'arr':
                return sorted(set(p.r.fields) | set(st.rcells(p.r)))
            return None
        fs = fields(src) or fields(dst)
        base = (src if src.r.kind == 'arr' else dst)
        idx, o0 = self.elem(base, 1)
        if base.r.stride is not None and n > base.r.stride - o0:
            raise Unsupported('memcpy across elements')
        lst = [(o - o0, (base.r.fields.get(o) or st.rcells(base.r)[o])[0]) for o in fs if o0 <= o < o0 + n and o >= 0]
        if not lst:
            raise Unsupported('memcpy of unknown array element layout')
        for o, s in lst:
            kind = base.r.fields.get(o + o0, (s, 'int'))[1]
            ty = PTR if isinstance(kind, tuple) else (T('double') if kind == 'real' else T('int', 8 * s))
            v = self.load(st, Ptr(src.r, src.idx, src.off + o), ty, loc)
            if v is None:
                return None
            if self.store(st, Ptr(dst.r, dst.idx, dst.off + o), ty, v, loc) is None:
                return None
        return True

    def memcpy_sym(self, st, dst, src, n, loc):
        if self.hooks and hasattr(self.hooks, 'on_memcpy'):
            self.hooks.on_memcpy(self, st, dst, src, n, loc)
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr)) or dst.r is None or src.r is None:
            if isinstance(dst, Ptr) and isinstance(src, Ptr):
                self.oblige(st, Eq(n, 0), 'mem:null-dereference', loc, 'mem')
                self.assume(st, Eq(n, 0))
                return True
            raise Unsupported('memcpy on %r' % (dst,))
        for p in (dst, src):
            if p.r in st.freed:
                self.oblige(st, False, 'mem:use-after-free(%s)' % p.r.name.split('#')[0], loc, 'mem')
                return None
            if p.r.kind != 'arr':
                raise Unsupported('memcpy of symbolic length on object ' + p.r.name)
        sd = dst.r.stride or src.r.stride
        if dst.r.stride is None: self.set_stride(st, dst.r, sd)
        if src.r.stride is None: self.set_stride(st, src.r, sd)
        if dst.r.stride != src.r.stride or dst.off or src.off:
            raise Unsupported('memcpy between different strides')
        S = dst.r.stride
        # bounds in bytes
        self.oblige(st, Le(src.idx * S + n, src.r.length * S), 'mem:bounds-read(%s)' % src.r.name.split('#')[0], loc, 'mem')
        self.oblige(st, Le(dst.idx * S + n, dst.r.length * S), 'mem:bounds-write(%s)' % dst.r.name.split('#')[0], loc, 'mem')
        # whole elements copied; a trailing partial element becomes unknown
        cnt = self.fresh('cnt', 8)
        self.assume(st, z3.And(cnt * S <= n, n < cnt * S + S))
        whole = self.entails(st, cnt * S == n)
        fo = sorted(set(src.r.fields) | set(dst.r.fields) | set(st.rcells(src.r)) | set(st.rcells(dst.r)))
        for o in fo:
            if o < 0:
                continue
            size = (src.r.fields.get(o) or dst.r.fields.get(o))[0]
            if o not in dst.r.fields: dst.r.fields[o] = src.r.fields[o]
            if o not in src.r.fields: src.r.fields[o] = dst.r.fields[o]
            a = self.arr_field(st, src.r, o, size); b = self.arr_field(st, dst.r, o, size)
            nb = ACopy(b, a, cnt, dst.idx, src.idx)
            if not whole:
                nb = AStore(nb, dst.idx + cnt, self.fresh('part', size))
            st.cells(dst.r)[o] = (size, nb)
            if st.log is not None:
                st.log.add(('arr', dst.r, o, size))
        return True

    def intrinsic(self, fr, st, ins, name, loc):
        d = ins.d
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore',
                            'llvm.experimental.noalias', 'llvm.invariant', 'llvm.x86.sse2.pause')):
            if ins.dst is not None:
                fr.regs[ins.dst] = UNDEF
            return None
        args = [self.value(fr, a[1], st) if a[1] is not None else None for a in d['args']]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            r = self.memcpy(st, args[0], args[1], args[2], loc)
            return [] if r is None else None
        if name.startswith('llvm.memset'):
            r = self.memset(st, args[0], args[1], args[2], loc)
            return [] if r is None else None
        if name.startswith('llvm.expect'):
            fr.regs[ins.dst] = args[0]
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            return []
        if name.startswith(('llvm.umax', 'llvm.umin')):
            a, b = self.num(args[0]), self.num(args[1])
            fr.regs[ins.dst] = If(Le(a, b), b if 'umax' in name else a, a if 'umax' in name else b)
            return None
        if name.startswith('llvm.eh.typeid.for'):
            a = args[0]
            fr.regs[ins.dst] = self.typeid(a.r.meta['global']) if isinstance(a, Ptr) and a.r is not None else 1
            return None
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m and m.group(1) == 'u':
            n = int(m.group(3)); a, b = self.num(args[0]), self.num(args[1])
            e = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(2)]
            M = 1 << n
            if isinstance(e, int):
                fr.regs[ins.dst] = [e % M, not (0 <= e < M)]
            else:
                fr.regs[ins.dst] = [self.binop(st, m.group(2), T('int', n), a, b, loc), z3.Or(e < 0, e >= M)]
            return None
        if name.startswith('llvm.fmuladd'):
            fr.regs[ins.dst] = args[0] * args[1] + args[2]
            return None
        if name.startswith(('llvm.fabs',)):
            fr.regs[ins.dst] = z3.If(args[0] >= 0, args[0], -args[0])
            return None
        if name.startswith('llvm.abs'):
            n = d['rty'].a
            s = self.signed(self.num(args[0]), n)
            fr.regs[ins.dst] = If(s >= 0, s, -s)
            return None
        raise Unsupported('intrinsic ' + name)

    def memset(self, st, p, v, n, loc):
        if isinstance(n, int):
            if n == 0:
                return True
            if not self.check_access(st, p, min(n, 1), loc, 'store'):
                return None
            if p.r.kind == 'arr':
                if v != 0 or p.r.stride is None or not p.r.meta.get('pool') or p.off + n > p.r.stride:
                    raise Unsupported('memset on array element')
                for o, (sz, kind) in list(p.r.fields.items()):
                    if o + sz <= p.off or o >= p.off + n or o in p.r.meta.get('ignore', ()):
                        continue
                    if o < p.off or o + sz > p.off + n:
                        raise Unsupported('memset on part of a field')
                    self.store(st, Ptr(p.r, p.idx, o), PTR if isinstance(kind, tuple) else T('int', sz * 8), NULL if isinstance(kind, tuple) else 0, loc)
                return True
            if isinstance(v, int) and v == 0:
                for o in list(st.rcells(p.r)):
                    pass
                c = st.cells(p.r)
                for o in list(c):
                    if o >= p.off and o + c[o][0] <= p.off + n:
                        del c[o]
                o = 0
                while o < n:
                    s = 8
                    while s > 1 and ((p.off + o) % s or o + s > n):
                        s //= 2
                    self.store_obj(st, p.r, p.off + o, s, 0)
                    o += s
                return True
            if isinstance(v, int):
                for o in range(n):
                    self.store_obj(st, p.r, p.off + o, 1, v & 255)
                return True
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'arr' and isinstance(v, int) and v == 0 and not isz(p.idx) and p.off == 0:
            if p.r.stride is None:
                raise Unsupported('memset on untyped memory')
            self.oblige(st, Le(p.idx * p.r.stride + n, p.r.length * p.r.stride), 'mem:bounds-write(%s)' % p.r.name.split('#')[0], loc, 'mem')
            for o in list(p.r.fields):
                size = p.r.fields[o][0]
                a = self.arr_field(st, p.r, o, size)
                cnt = self.fresh('cnt', 8)
                self.assume(st, z3.And(cnt * p.r.stride <= n, n < cnt * p.r.stride + p.r.stride))
                st.cells(p.r)[o] = (size, ACopy(a, AConst(0), cnt, p.idx, 0))
                if st.log is not None:
                    st.log.add(('arr', p.r, o, size))
            return True
        raise Unsupported('memset')

    def alloc(self, st, n, what, zero=False):
        if isinstance(n, int):
            r = self.new_region(st, what, size=n, default='zero' if zero else 'undef', meta={'heap': True, 'bytes': n})
        else:
            r = self.new_region(st, what, kind='arr', default='zero' if zero else 'lazy', meta={'heap': True, 'bytes': n})
        return Ptr(r)

    def free(self, st, p, loc):
        if isinstance(p, Undef):
            self.oblige(st, False, 'mem:free-uninitialised', loc, 'mem')
            return None
        if isinstance(p, Ptr) and p.r is not None:
            if p.r in st.freed:
                self.oblige(st, False, 'mem:double-free(%s)' % p.r.name.split('#')[0], loc, 'mem')
                return None
            if p.off != 0 or (not isinstance(p.idx, int)) or p.idx != 0:
                if p.r.meta.get('pool'):
                    return self.hooks.pool_free(self, st, p, loc)
                self.oblige(st, False, 'mem:free-interior', loc, 'mem')
                return None
            st.freed = st.freed | {p.r}
            if st.log is not None:
                st.log.add(('freed', p.r, 0, 0))
        return True

    def builtin(self, st, name, dem, args, loc, d):
        ret = lambda v=None: [(st, 'ret', v)]
        if name == '__assert_fail':
            msg = ''
            try:
                msg = self.cstr_bytes(args[0].r.meta['init'].a).split(b'\0')[0].decode()
            except Exception:
                pass
            self.oblige(st, False, 'assert(%s)' % msg, loc, 'assert')
            return []
        if name in ('exit', 'abort', '_exit', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual', 'perror_exit'):
            self.used_ext.add(dem)
            if name in ('abort', '_ZSt9terminatev', '__clang_call_terminate', '__cxa_pure_virtual'):
                self.oblige(st, False, 'reach:%s' % name, loc, 'assert')
            return []
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            if self.hooks and hasattr(self.hooks, 'on_new'):
                r = self.hooks.on_new(self, st, name, args[0], loc)
                if r is not None:
                    return ret(r)
            return ret(self.alloc(st, self.num(args[0]), 'heap'))
        if name == 'calloc':
            a, b = self.num(args[0]), self.num(args[1])
            if isinstance(a, int) and isinstance(b, int):
                return ret(self.alloc(st, a * b, 'calloc', True))
            n = a * b
            p = self.alloc(st, n, 'calloc', True)
            if isinstance(b, int):
                p.r.stride = b; p.r.length = a
            return ret(p)
        if name == 'posix_memalign':
            p = self.alloc(st, self.num(args[2]), 'memalign')
            if self.store(st, args[0], PTR, p, loc) is None:
                return []
            return ret(0)
        if name == 'aligned_alloc':
            return ret(self.alloc(st, self.num(args[1]), 'memalign'))
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t'):
            if self.free(st, args[0], loc) is None:
                return []
            return ret()
        if name in ('posix_madvise', 'madvise', 'sched_yield', 'usleep', 'nanosleep', 'perror', 'strerror', '__errno_location', 'printf', 'puts', 'fprintf', 'fflush') \
                or dem.startswith('std::this_thread::') or dem.startswith('raft::yield'):
            self.used_ext.add(dem)
            if name == '__errno_location':
                r = self.globals.setdefault('!errno', Region('errno', size=4))
                return ret(Ptr(r))
            v = None
            if d and d['rty'].k == 'int':
                v = self.fresh('ext', max(1, d['rty'].a // 8))
            elif d and d['rty'].k == 'ptr':
                v = UNDEF
            return ret(v)
        if name == '__cxa_allocate_exception':
            return ret(Ptr(self.new_region(st, 'exc', size=None, default='undef')))
        if name == '__cxa_free_exception':
            return ret()
        if name == '__cxa_throw':
            ti = args[1].r.meta['global'] if isinstance(args[1], Ptr) and args[1].r is not None else None
            return [(st, 'exc', {'type': ti, 'ptr': args[0], 'loc': loc})]
        if name == '__cxa_begin_catch':
            b = st.ghost.get('!exc')
            return ret(args[0])
        if name in ('__cxa_end_catch',):
            return ret()
        if name == '__cxa_rethrow':
            b = st.ghost.get('!exc')
            return [(st, 'exc', b.e if b else None)]
        if name == '__cxa_guard_acquire':
            return ret(1)
        if name in ('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit'):
            return ret(0)
        if name in ('memcpy', 'memmove'):
            if self.memcpy(st, args[0], args[1], args[2], loc) is None:
                return []
            return ret(args[0])
        if name == 'memset':
            if self.memset(st, args[0], args[1], args[2], loc) is None:
                return []
            return ret(args[0])
        # opaque text/stream helpers: no effect on modelled memory
        if re.search(OPAQUE_RX, dem):
            self.used_ext.add(opaque_group(dem))
            v = None
            if d:
                rt = d['rty']
                if rt.k == 'ptr':
                    v = args[0] if args and isinstance(args[0], Ptr) else UNDEF
                elif rt.k == 'int':
                    v = self.fresh('ext', max(1, rt.a // 8)) if rt.a > 1 else self.fresh('ext', kind='bool')
                elif rt.k in ('float', 'double'):
                    v = self.fresh('ext', kind='real')
                elif rt.k == 'struct':
                    v = [UNDEF for _ in rt.a]
            return ret(v)
        return NotImplemented


OPAQUE_RX = (r'^(std::(__cxx11::)?basic_(string|ostream|ios|stringstream|ostringstream|stringbuf|streambuf|istream|iostream)\b'
             r'|std::basic_ostream<.*operator<<|std::ostream::|std::ios_base|std::allocator<char>|std::locale'
             r'|std::endl|std::flush|(std::)?operator<< ?<|std::__ostream_insert|std::to_string'
             r'|[A-Za-z:]*(Exception|RaftException)\w*::|std::(length_error|runtime_error|exception|logic_error|out_of_range)::'
             r'|std::basic_string<|std::operator\+ ?<|std::char_traits|std::__cxx11::|std::basic_o|std::basic_i'
             r'|bool std::operator==<char|bool std::operator!=<char|std::operator<<|.* std::operator(<<|\+) ?<.*char)')


def opaque_group(dem):
    if 'Exception' in dem:
        return 'exception constructors/destructors (text only)'
    return 'std string/stream helpers (text only)'


class ExcBox:
    def __init__(self, e):
        self.e = e


class HavocPtr:
    """a pointer cell overwritten inside a loop whose target is not an array"""

    def __init__(self, old):
        self.old = old

    def resolve(self, ex, st):
        raise Unsupported('loop-carried pointer %r' % (self.old,))


class HavocAny:
    def resolve(self, ex, st, p, ty):
        if ty.k == 'int':
            if ty.a == 1:
                return ex.fresh('hv', kind='bool')
            v = ex.fresh('hv', ex.mod.sizeof(ty))
            ex.store_obj(st, p.r, p.off, ex.mod.sizeof(ty), v)
            return v
        raise Unsupported('loop-carried location %r' % (p,))


class UnrollAbort(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class NeedConcrete(Exception):
    def __init__(self, i, p, scale):
        self.i, self.p, self.scale = i, p, scale


CASTS = set('trunc zext sext ptrtoint inttoptr bitcast fptrunc fpext uitofp sitofp fptoui fptosi addrspacecast'.split())
BINS = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
EXC_BASES = {}
EXTRA_TI_BASES = {
    '_ZTI23PortUnconnectedException': [],
}


def bit01(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if isz(v) and z3.is_bool(v):
        return v
    if isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            if (x, y) == (1, 0): return c
            if (x, y) == (0, 1): return Not(c)
    return None


def fp_const(s):
    import struct
    from fractions import Fraction
    if s.startswith('0x'):
        if s[2] in 'KLMHR':
            raise Unsupported('long double constant')
        f = struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]
    else:
        f = float(s)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('fp constant')
    fr = Fraction(f)
    return '%d/%d' % (fr.numerator, fr.denominator)


def short(d):
    """demangled name without template and function arguments"""
    d = d.replace('operator<<', 'operator LSH').replace('operator()', 'operator CALL').replace('operator->', 'operator ARROW').replace('(anonymous namespace)', 'anon')
    o, n, p = [], 0, 0
    for c in d:
        if c == '<':
            n += 1
        elif c == '>' and n:
            n -= 1
        elif c == '(' and not n:
            break
        elif not n:
            o.append(c)
    return ''.join(o).split(' ')[-1] if o else d


def normalise_modset(ms):
    """drop cells covered by overlapping bigger cells of the same region"""
    out = set()
    for m in ms:
        if m[0] == 'freed':
            continue
        if m[0] == 'cell':
            _, r, off, size = m
            if any(n[0] == 'cell' and n[1] is r and n != m and n[2] <= off and n[2] + n[3] >= off + size and n[3] > size for n in ms):
                continue
        out.add(m)
    return out


# ---------------------------------------------------------------- inferred loop invariants
def nonlinear(f):
    seen, todo = set(), [f] if isz(f) else []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_mul(t) and sum(not z3.is_int_value(c) for c in t.children()) > 1:
            return True
        todo += t.children()
    return False


class Cand:
    def __init__(self, name, f, instance=None):
        # instance: the same statement for another value of a variable over which it is generalised (an arbitrary
        # constant constrained by nothing else): may be assumed at the loop header with the candidate
        self.name, self.f, self.instance = name, f, instance

    def formula(self, ex, s, entry, fr, fr0):
        return self.f(ex, s, entry, fr, fr0)


def cur(ex, s, key, fr):
    if key[0] == 'ghost':
        return s.ghost.get(key[1])
    if key[0] == 'phi':
        return fr.regs.get(key[1])
    if key[0] == 'cell':
        c = s.rcells(key[1])
        e = c.get(key[2])
        if e is None or e[0] != key[3]:
            raise Unsupported('cell gone')
        return e[1]
    return None


def gen_candidates(ex, entry, hav, fr):
    """template candidates over the loop-modified integer locations and values live at entry"""
    ints = []
    bools = []
    out = []
    for key, old, new in hav:
        if key[0] == 'arr' or old is None or isinstance(old, (Undef, Arr)):
            continue
        if key[0] == 'ghost' and key[1] in getattr(ex.hooks, 'plain_ghosts', ()):
            continue
        if isinstance(old, Ptr):
            if isinstance(new, Ptr):
                ints.append((key, 'p', old.idx))
            elif isinstance(new, HavocPtr):
                pass
            continue
        if isinstance(old, (FnVal, HavocAny, HavocPtr, list)):
            continue
        if isinstance(old, bool) or (isz(old) and z3.is_bool(old)):
            out.append(Cand('unchanged %s' % kname(key), lambda ex, s, e, f, f0, key=key, old=old: Eq(cur(ex, s, key, f), old)))
            continue
        if isz(old) and z3.is_real(old):
            continue
        ints.append((key, 'i', old))

    def get(ex, s, key, kind, f):
        v = cur(ex, s, key, f)
        if kind == 'p':
            if not isinstance(v, Ptr):
                raise Unsupported('cand')
            return v.idx
        if isinstance(v, (Ptr, Undef, HavocAny, HavocPtr)):
            raise Unsupported('cand')
        return toint(v)

    for key, kind, old in ints:
        nm = kname(key)
        old = toint(old)
        out.append(Cand('%s unchanged' % nm, lambda ex, s, e, f, f0, key=key, kind=kind, old=old: Eq(get(ex, s, key, kind, f), old)))
        out.append(Cand('%s >= initial' % nm, lambda ex, s, e, f, f0, key=key, kind=kind, old=old: get(ex, s, key, kind, f) >= old))
        out.append(Cand('%s <= initial' % nm, lambda ex, s, e, f, f0, key=key, kind=kind, old=old: get(ex, s, key, kind, f) <= old))
        if key[0] != 'ghost':
            out.append(Cand('%s >= 1' % nm, lambda ex, s, e, f, f0, key=key, kind=kind: get(ex, s, key, kind, f) >= 1))
    # bounds by values visible at entry (locals, parameters)
    bounds = []
    seen = set()
    modcells = {k for k, _, _ in hav}
    for r in fr.allocas:
        for o, (sz, v) in entry.rcells(r).items():
            if ('cell', r, o, sz) in modcells:
                continue
            if isinstance(v, int) and not isinstance(v, bool) or (isz(v) and z3.is_int(v)):
                k = str(v)
                if k not in seen and sz in (4, 8):
                    seen.add(k); bounds.append(v)
    for k, v in getattr(ex.hooks, 'bound_terms', lambda *a: [])(ex, entry) if ex.hooks else []:
        if str(v) not in seen:
            seen.add(str(v)); bounds.append(v)
    for key, kind, old in ints:
        for b in bounds[:10]:
            out.append(Cand('%s <= %s' % (kname(key), str(b)[:40]), lambda ex, s, e, f, f0, key=key, kind=kind, b=b: Le(get(ex, s, key, kind, f), b)))
            out.append(Cand('%s < %s' % (kname(key), str(b)[:40]), lambda ex, s, e, f, f0, key=key, kind=kind, b=b: Lt(get(ex, s, key, kind, f), b)))
    # equal / opposite progress of two locations
    for i, (k1, t1, o1) in enumerate(ints):
        for (k2, t2, o2) in ints[i + 1:]:
            o1_, o2_ = toint(o1), toint(o2)
            out.append(Cand('%s and %s advance together' % (kname(k1), kname(k2)),
                            lambda ex, s, e, f, f0, k1=k1, t1=t1, o1=o1_, k2=k2, t2=t2, o2=o2_:
                            Eq(get(ex, s, k1, t1, f) - o1, get(ex, s, k2, t2, f) - o2)))
            out.append(Cand('%s and %s advance oppositely' % (kname(k1), kname(k2)),
                            lambda ex, s, e, f, f0, k1=k1, t1=t1, o1=o1_, k2=k2, t2=t2, o2=o2_:
                            Eq(get(ex, s, k1, t1, f) - o1, o2 - get(ex, s, k2, t2, f))))
    return out


def kname(key):
    if key[0] == 'ghost':
        return 'ghost ' + str(key[1])
    if key[0] == 'phi':
        return '%' + str(key[1])
    return '%s+%d' % (key[1].name.split('#')[0], key[2])
