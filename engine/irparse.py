"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers).

The verified text is the IR clang produces from /repo's current source; this
module only reads it.  Function bodies are parsed lazily.
"""
import re, shutil, subprocess

CXXFILT = shutil.which("llvm-cxxfilt-18") or shutil.which("llvm-cxxfilt") or "c++filt"

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<str>"(?:[^"])*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z0-9._]*)
 | (?P<attr>\#\d+)
 | (?P<com>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<ell>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot tokenise: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


# ---- types -----------------------------------------------------------------
class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return '%s(%s)' % (self.k, self.a) if self.a is not None else self.k

    def key(self):
        return (self.k, repr(self.a), repr(self.b))


VOID = T('void'); PTR = T('ptr')


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ParseError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


PARAM_ATTR = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly
 readnone writeonly returned immarg nofree nest nonnull swiftself swifterror noext
 allocalign allocptr dead_on_unwind writable inalloca'''.split())
PARAM_ATTR_ARG = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated memory nofpclass range'.split())


def parse_type(t):
    k, v = t.kind(), t.peek()
    if k == 'loc':
        t.next()
        ty = T('named', v[1:].strip('"'))
    elif v == '{':
        t.next(); el = []
        while t.peek() != '}':
            el.append(parse_type(t)); t.accept(',')
        t.expect('}')
        ty = T('struct', el, False)
    elif v == '<':
        t.next()
        if t.peek() == '{':
            t.next(); el = []
            while t.peek() != '}':
                el.append(parse_type(t)); t.accept(',')
            t.expect('}'); t.expect('>')
            ty = T('struct', el, True)
        else:
            n = int(t.next()); t.expect('x')
            e = parse_type(t); t.expect('>')
            ty = T('vec', n, e)
    elif v == '[':
        t.next(); n = int(t.next()); t.expect('x')
        e = parse_type(t); t.expect(']')
        ty = T('array', n, e)
    elif k == 'word':
        t.next()
        if v == 'ptr':
            if t.peek() == 'addrspace':
                t.next(); t.expect('('); t.next(); t.expect(')')
            ty = PTR
        elif re.fullmatch(r'i\d+', v):
            ty = T('int', int(v[1:]))
        elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            ty = T(v)
        elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
            ty = T(v)
        else:
            raise ParseError('type? ' + v)
    else:
        raise ParseError('type? %r' % v)
    # function type
    if t.peek() == '(' and ty.k != 'label':
        t.next(); args = []; va = False
        while t.peek() != ')':
            if t.accept('...'):
                va = True
            else:
                args.append(parse_type(t)); skip_attrs(t)
            t.accept(',')
        t.expect(')')
        ty = T('func', ty, (args, va))
    return ty


def skip_attrs(t):
    info = {}
    while True:
        v = t.peek()
        if v in PARAM_ATTR:
            t.next(); info[v] = True
        elif v in PARAM_ATTR_ARG:
            t.next()
            if t.accept('('):
                if v in ('sret', 'byval', 'byref', 'elementtype'):
                    info[v] = parse_type(t)
                    t.expect(')')
                else:
                    d = 1
                    while d:
                        x = t.next()
                        d += (x == '(') - (x == ')')
            else:
                t.next()
        elif t.kind() == 'attr':
            t.next()
        elif t.kind() == 'str':
            t.next()
            if t.accept('='):
                t.next()
        else:
            return info


# ---- values ----------------------------------------------------------------
class V:
    """operand: kind in loc, glob, int, fp, null, undef, zero, agg, cstr, expr, bool, meta"""
    __slots__ = ('k', 'a', 'ty')

    def __init__(self, k, a, ty):
        self.k, self.a, self.ty = k, a, ty

    def __repr__(self):
        return '%s:%r' % (self.k, self.a)


def parse_value(t, ty):
    k, v = t.kind(), t.peek()
    if k == 'loc':
        t.next(); return V('loc', v[1:].strip('"'), ty)
    if k == 'glob':
        t.next(); return V('glob', v[1:].strip('"'), ty)
    if k == 'num':
        t.next()
        if ty.k == 'int':
            return V('int', int(v) & ((1 << ty.a) - 1), ty)
        return V('fp', v, ty)
    if k == 'cstr':
        t.next(); return V('cstr', v[2:-1], ty)
    if v in ('true', 'false'):
        t.next(); return V('int', 1 if v == 'true' else 0, ty)
    if v == 'null':
        t.next(); return V('null', None, ty)
    if v in ('undef', 'poison'):
        t.next(); return V('undef', None, ty)
    if v == 'zeroinitializer':
        t.next(); return V('zero', None, ty)
    if v == 'none':
        t.next(); return V('undef', None, ty)
    if v in ('{', '[', '<'):
        t.next(); packed = False
        if v == '<' and t.peek() == '{':
            t.next(); packed = True
        close = {'{': '}', '[': ']', '<': '>'}[v] if not packed else '}'
        el = []
        while t.peek() != close:
            et = parse_type(t); el.append(parse_value(t, et)); t.accept(',')
        t.expect(close)
        if packed:
            t.expect('>')
        return V('agg', el, ty)
    if v == 'getelementptr':
        t.next()
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        t.expect('(')
        et = parse_type(t); t.expect(',')
        ops = []
        while t.peek() != ')':
            while t.peek() == 'inrange':
                t.next()
                if t.accept('('):
                    while t.next() != ')':
                        pass
            oty = parse_type(t); ops.append(parse_value(t, oty)); t.accept(',')
        t.expect(')')
        return V('expr', ('gep', et, ops), ty)
    if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
        t.next(); t.expect('(')
        oty = parse_type(t); o = parse_value(t, oty); t.expect('to')
        nty = parse_type(t); t.expect(')')
        return V('expr', (v, o, nty), ty)
    if v in ('sub', 'add', 'icmp', 'select', 'xor', 'and', 'or'):
        # rare constant expression: keep opaque
        t.next()
        while t.peek() != '(':
            t.next()
        d = 0
        while True:
            x = t.next()
            d += (x == '(') - (x == ')')
            if d == 0:
                break
        return V('undef', None, ty)
    if k == 'meta':
        # metadata operand
        t.next()
        return V('meta', v, ty)
    if v == 'asm':
        t.next()
        while t.kind() == 'word':
            t.next()
        a = t.next(); t.expect(','); c = t.next()
        return V('asm', (a, c), ty)
    if v in ('dso_local_equivalent', 'no_cfi'):
        t.next(); return parse_value(t, ty)
    raise ParseError('value? %r (%s)' % (v, ' '.join(x[1] for x in t.t)[:200]))


class I:
    """instruction"""
    __slots__ = ('op', 'dst', 'd', 'dbg', 'text')

    def __init__(self, op, dst, d, dbg, text):
        self.op, self.dst, self.d, self.dbg, self.text = op, dst, d, dbg, text

    def __repr__(self):
        return self.text.strip()[:160]


BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext ptrtoint inttoptr bitcast fptrunc fpext uitofp sitofp fptoui fptosi addrspacecast'.split())
FLAGS = set('nuw nsw exact inbounds nnan ninf nsz arcp contract afn reassoc fast volatile disjoint nneg samesign nusw'.split())
FNATTR = set('''dso_local dso_preemptable linkonce_odr weak_odr internal external private hidden protected default
  available_externally linkonce weak common appending extern_weak unnamed_addr local_unnamed_addr
  fastcc ccc coldcc noundef'''.split())


def parse_call(t, op, text):
    # after 'call'/'invoke'
    while t.peek() in FLAGS or t.peek() in ('fastcc', 'ccc', 'coldcc'):
        t.next()
    skip_attrs(t)
    ty = parse_type(t)
    rty = ty.a if ty.k == 'func' else ty
    callee = parse_value(t, PTR)
    t.expect('(')
    args = []
    while t.peek() != ')':
        at = parse_type(t)
        info = skip_attrs(t)
        if at.k == 'metadata':
            # skip metadata operand entirely
            d = 0
            while not (d == 0 and t.peek() in (',', ')')):
                x = t.next()
                d += (x in '({[') - (x in ')}]') if len(x) == 1 else 0
            args.append((at, None, info))
        else:
            args.append((at, parse_value(t, at), info))
        t.accept(',')
    t.expect(')')
    d = dict(rty=rty, callee=callee, args=args)
    skip_attrs(t)
    if t.peek() == '[':  # operand bundles
        while t.next() != ']':
            pass
    if op == 'invoke':
        t.expect('to'); t.expect('label'); d['normal'] = t.next()[1:].strip('"')
        t.expect('unwind'); t.expect('label'); d['unwind'] = t.next()[1:].strip('"')
    return d


def parse_instr(line):
    toks = tokenize(line)
    t = Toks(toks)
    dst = None
    if t.kind() == 'loc' and t.peek(1) == '=':
        dst = t.next()[1:].strip('"'); t.next()
    op = t.next()
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    if op in ('tail', 'musttail', 'notail'):
        op = t.next()
    d = None
    if op == 'alloca':
        t.accept('inalloca')
        ty = parse_type(t)
        n = None
        if t.accept(','):
            if t.peek() not in ('align',) and t.kind() != 'meta':
                nty = parse_type(t); n = parse_value(t, nty)
        d = (ty, n)
    elif op == 'load':
        at = t.accept('atomic'); t.accept('volatile')
        ty = parse_type(t); t.expect(',')
        pty = parse_type(t); d = (ty, parse_value(t, pty), at)
    elif op == 'store':
        at = t.accept('atomic'); t.accept('volatile')
        ty = parse_type(t); v = parse_value(t, ty); t.expect(',')
        pty = parse_type(t); d = (ty, v, parse_value(t, pty), at)
    elif op == 'getelementptr':
        while t.peek() in ('inbounds', 'nuw', 'nusw'):
            t.next()
        et = parse_type(t); t.expect(',')
        ops = []
        while True:
            oty = parse_type(t); ops.append(parse_value(t, oty))
            if not (t.peek() == ',' and t.kind(1) != 'meta'):
                break
            t.next()
        d = (et, ops)
    elif op == 'br':
        if t.accept('label'):
            d = (t.next()[1:].strip('"'),)
        else:
            ty = parse_type(t); c = parse_value(t, ty); t.expect(',')
            t.expect('label'); a = t.next()[1:].strip('"'); t.expect(',')
            t.expect('label'); b = t.next()[1:].strip('"')
            d = (c, a, b)
    elif op == 'switch':
        ty = parse_type(t); v = parse_value(t, ty); t.expect(','); t.expect('label')
        dflt = t.next()[1:].strip('"'); t.expect('[')
        cases = []
        while t.peek() != ']':
            cty = parse_type(t); c = parse_value(t, cty); t.expect(','); t.expect('label')
            cases.append((c, t.next()[1:].strip('"')))
        d = (v, dflt, cases)
    elif op == 'ret':
        ty = parse_type(t)
        d = (ty, None if ty.k == 'void' else parse_value(t, ty))
    elif op in ('call', 'invoke'):
        d = parse_call(t, op, line)
    elif op in ('icmp', 'fcmp'):
        while t.peek() in FLAGS:
            t.next()
        p = t.next(); ty = parse_type(t); a = parse_value(t, ty); t.expect(',')
        d = (p, ty, a, parse_value(t, ty))
    elif op in BIN:
        while t.peek() in FLAGS:
            t.next()
        ty = parse_type(t); a = parse_value(t, ty); t.expect(',')
        d = (ty, a, parse_value(t, ty))
    elif op == 'fneg':
        while t.peek() in FLAGS:
            t.next()
        ty = parse_type(t); d = (ty, parse_value(t, ty))
    elif op in CAST:
        while t.peek() in FLAGS:
            t.next()
        ty = parse_type(t); a = parse_value(t, ty); t.expect('to')
        d = (ty, a, parse_type(t))
    elif op == 'freeze':
        ty = parse_type(t); d = (ty, parse_value(t, ty))
    elif op == 'select':
        while t.peek() in FLAGS:
            t.next()
        cty = parse_type(t); c = parse_value(t, cty); t.expect(',')
        ty = parse_type(t); a = parse_value(t, ty); t.expect(',')
        ty2 = parse_type(t); d = (c, ty, a, parse_value(t, ty2))
    elif op == 'phi':
        while t.peek() in FLAGS:
            t.next()
        ty = parse_type(t); inc = []
        while t.accept('['):
            v = parse_value(t, ty); t.expect(',')
            inc.append((v, t.next()[1:].strip('"'))); t.expect(']')
            if not (t.peek() == ',' and t.peek(1) == '['):
                break
            t.next()
        d = (ty, inc)
    elif op == 'extractvalue':
        ty = parse_type(t); v = parse_value(t, ty); idx = []
        while t.peek() == ',' and t.kind(1) == 'num':
            t.next(); idx.append(int(t.next()))
        d = (ty, v, idx)
    elif op == 'insertvalue':
        ty = parse_type(t); v = parse_value(t, ty); t.expect(',')
        ety = parse_type(t); e = parse_value(t, ety); idx = []
        while t.peek() == ',' and t.kind(1) == 'num':
            t.next(); idx.append(int(t.next()))
        d = (ty, v, ety, e, idx)
    elif op == 'landingpad':
        ty = parse_type(t)
        cleanup = False; clauses = []
        while not t.done():
            if t.accept('cleanup'):
                cleanup = True
            elif t.peek() in ('catch', 'filter'):
                k = t.next(); cty = parse_type(t); clauses.append((k, parse_value(t, cty)))
            else:
                break
        d = (ty, cleanup, clauses)
    elif op == 'resume':
        ty = parse_type(t); d = (ty, parse_value(t, ty))
    elif op == 'unreachable':
        d = ()
    elif op == 'atomicrmw':
        t.accept('volatile')
        o = t.next(); pty = parse_type(t); p = parse_value(t, pty); t.expect(',')
        ty = parse_type(t); d = (o, p, ty, parse_value(t, ty))
    elif op == 'cmpxchg':
        t.accept('weak'); t.accept('volatile')
        pty = parse_type(t); p = parse_value(t, pty); t.expect(',')
        ty = parse_type(t); c = parse_value(t, ty); t.expect(',')
        ty2 = parse_type(t); d = (p, ty, c, parse_value(t, ty2))
    elif op == 'fence':
        d = ()
    elif op in ('va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        d = ()
    else:
        raise ParseError('instruction? ' + line)
    return I(op, dst, d, dbg, line)


class Function:
    def __init__(self, name, header, lines, mod):
        self.name = name
        self.header = header
        self.lines = lines
        self.mod = mod
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        h = self.header
        toks = Toks(tokenize(h))
        toks.expect('define')
        while toks.peek() in FNATTR:
            toks.next()
        skip_attrs(toks)
        while toks.peek() in FNATTR:
            toks.next()
        self.rty = parse_type(toks) if toks.kind() != 'glob' else VOID
        if self.rty.k == 'func':
            raise ParseError('fn type')
        toks.next()  # name
        toks.expect('(')
        self.params = []
        n = 0
        self.vararg = False
        while toks.peek() != ')':
            if toks.accept('...'):
                self.vararg = True
                continue
            ty = parse_type(toks); info = skip_attrs(toks)
            if toks.kind() == 'loc':
                nm = toks.next()[1:].strip('"')
            else:
                nm = str(n)
            n += 1
            self.params.append((ty, nm, info)); toks.accept(',')
        m = re.search(r'!dbg !(\d+)', h)
        self.dbg = int(m.group(1)) if m else None
        self.blocks = {}
        self.order = []
        cur = str(len(self.params)) if not self.lines or not re.match(r'^[-a-zA-Z$._0-9"]+:', self.lines[0]) else None
        buf = []
        def flush():
            if cur is not None:
                self.blocks[cur] = buf
                self.order.append(cur)
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                if buf or cur is not None:
                    flush()
                cur = m.group(1).strip('"'); buf = []
                i += 1
                continue
            s = ln.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'):
                i += 1
                continue
            # join continuation lines
            if s.startswith('switch') or re.match(r'^%\S+ = switch', s):
                while ']' not in L[i]:
                    i += 1
                    s += ' ' + L[i].strip()
            elif ' invoke ' in (' ' + s) and ' unwind label ' not in s:
                i += 1
                s += ' ' + L[i].strip()
            elif re.match(r'^%\S+ = landingpad', s):
                while i + 1 < len(L) and re.match(r'^\s+(cleanup|catch|filter)\b', L[i + 1]):
                    i += 1
                    s += ' ' + L[i].strip()
            buf.append(parse_instr(s))
            i += 1
        flush()
        # drop empty implicit entry
        self.order = [b for b in self.order if self.blocks[b]]
        self.entry = self.order[0]
        self.parsed = True
        self._loops()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.d[0]] if len(t.d) == 1 else [t.d[1], t.d[2]]
        if t.op == 'switch':
            return [t.d[1]] + [c[1] for c in t.d[2]]
        if t.op == 'invoke':
            return [t.d['normal'], t.d['unwind']]
        return []

    def _loops(self):
        # dominators (simple iterative), natural loops by header
        order = []
        seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        dom = {b: set(rpo) for b in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b]]
                nd = set.intersection(*ps) | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.succs(b):
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.md = {}
        self.aliases = {}
        self._layout = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m:
                    body = m.group(2)
                    self.types[m.group(1).strip('"')] = body
            elif ln.startswith('@'):
                m = re.match(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m:
                    nm = m.group(1).strip('"')
                    am = re.search(r'\balias\b.*@("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', m.group(2))
                    if am and ' alias ' in m.group(2):
                        self.aliases[nm] = am.group(1).strip('"')
                    else:
                        self.globals[nm] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = ln[:ln.rindex('{')]
                self.funcs[nm] = Function(nm, hdr, lines[i + 1:j], self)
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', ln)
                self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        names = list(self.funcs) + list(self.decls) + list(self.globals) + list(self.aliases)
        self.dem = demangle(names)
        self._gcache = {}

    # ---- layout
    def resolve(self, ty):
        if ty.k == 'named':
            b = self.types.get(ty.a)
            if b is None:
                raise ParseError('type ' + ty.a)
            if isinstance(b, str):
                if b.strip() == 'opaque':
                    b = T('opaque')
                else:
                    b = parse_type(Toks(tokenize(b)))
                self.types[ty.a] = b
            return b
        return ty

    def layout(self, ty):
        """(size, align, field offsets)"""
        ty0 = ty
        if ty.k == 'named' and ty.a in self._layout:
            return self._layout[ty.a]
        ty = self.resolve(ty)
        if ty.k == 'int':
            s = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty.a, (ty.a + 7) // 8)
            r = (s, min(s, 16), None)
        elif ty.k == 'ptr':
            r = (8, 8, None)
        elif ty.k == 'float':
            r = (4, 4, None)
        elif ty.k == 'double':
            r = (8, 8, None)
        elif ty.k == 'x86_fp80':
            r = (16, 16, None)
        elif ty.k in ('array', 'vec'):
            s, a, _ = self.layout(ty.b)
            r = (s * ty.a, a, None)
        elif ty.k == 'struct':
            off = 0; al = 1; offs = []
            for e in ty.a:
                s, a, _ = self.layout(e)
                if ty.b:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        elif ty.k == 'opaque':
            r = (0, 1, None)
        else:
            raise ParseError('layout ' + repr(ty))
        if ty0.k == 'named':
            self._layout[ty0.a] = r
        return r

    def sizeof(self, ty):
        return self.layout(ty)[0]

    # ---- globals
    def global_init(self, name):
        """returns (type, V or None, is_const)"""
        if name in self._gcache:
            return self._gcache[name]
        txt = self.globals[name]
        t = Toks(tokenize(txt))
        const = False
        ext = False
        while True:
            v = t.peek()
            if v in ('constant', 'global'):
                const = v == 'constant'
                t.next()
                break
            if v == 'external':
                ext = True
            t.next()
            if v in ('thread_local',) and t.peek() == '(':
                while t.next() != ')':
                    pass
        ty = parse_type(t)
        val = None
        if not ext and not t.done() and t.peek() != ',':
            val = parse_value(t, ty)
        self._gcache[name] = (ty, val, const)
        return self._gcache[name]

    # ---- debug info
    def loc(self, dbg):
        if dbg is None:
            return None
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        line = int(m.group(1)) if m else 0
        f = None
        seen = 0
        while s and seen < 50:
            seen += 1
            m = re.search(r'\bfile: !(\d+)', s)
            if m:
                fm = re.search(r'filename: "([^"]*)"', self.md.get(int(m.group(1)), ''))
                if fm:
                    f = fm.group(1)
                break
            m = re.search(r'\bscope: !(\d+)', s)
            if not m:
                break
            s = self.md.get(int(m.group(1)), '')
        return (f or '?', line)


def demangle(names):
    out = subprocess.run([CXXFILT], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))
