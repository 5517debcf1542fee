"""Parser for the textual LLVM-18 IR that clang emits (-O0 + mem2reg) for the C sources of /repo.

Only the subset that occurs there is accepted; anything else raises IRError, which the
driver reports as "outside the verifier's reach" and never as a violation.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
    [%@]"(?:[^"\\]|\\.)*" | [%@][-a-zA-Z$._0-9]+ |
    ![0-9]+ | \#[0-9]+ | \.\.\. |
    -?[0-9]+\.[0-9]+e[+-]?[0-9]+ | 0x[0-9A-Fa-f]+ | -?[0-9]+ |
    [a-zA-Z_][-a-zA-Z_.0-9]* | [\[\]{}()<>,=*:|!]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---- types -------------------------------------------------------------------------------
class Type:
    __slots__ = ('k', 'n', 'el', 'name')

    def __init__(self, k, n=0, el=None, name=None):
        self.k, self.n, self.el, self.name = k, n, el, name

    def __repr__(self):
        return {'i': 'i%d' % self.n, 'p': 'ptr', 'v': 'void'}.get(self.k) or '%s(%s,%s)' % (self.k, self.n, self.name)


VOID, PTR = Type('v'), Type('p')
I = {n: Type('i', n) for n in (1, 8, 16, 32, 64, 128)}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r at %r' % (x, self.t[self.i - 2:self.i + 6]))

    def type(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
        elif t == 'float' or t == 'double':
            r = Type('f', 32 if t == 'float' else 64)
        elif re.fullmatch(r'i[0-9]+', t):
            r = I.get(int(t[1:])) or Type('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            r = Type('a', n, el)
        elif t == '{':
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            r = Type('s', 0, els)
        elif t == '<':
            self.expect('{')
            els = []
            while not self.accept('}'):
                els.append(self.type())
                self.accept(',')
            self.expect('>')
            r = Type('s', 1, els)
        elif t[0] == '%':
            r = Type('n', 0, None, t)
        elif t in ('metadata', 'label', 'token'):
            r = Type(t)
        else:
            raise IRError('type %r' % t)
        if self.peek() == '(':      # function type
            d = 0
            while True:
                x = self.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            return r
        return r

    ATTRS = {'noundef', 'signext', 'zeroext', 'noalias', 'nonnull', 'nocapture', 'readonly', 'inreg', 'returned',
             'writeonly', 'immarg', 'readnone', 'nest', 'swiftself', 'noreturn', 'dso_local', 'allocalign',
             'allocptr', 'nofree', 'range'}

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.i += 1
            elif t == 'align':
                self.i += 2
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'memory'):
                self.i += 1
                d = 0
                while True:
                    x = self.next()
                    d += (x == '(') - (x == ')')
                    if d == 0:
                        break
            else:
                return

    def value(self, ty):
        """operand of type ty -> tuple"""
        t = self.next()
        if t[0] == '%':
            return ('r', t)
        if t[0] == '@':
            return ('g', t)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if re.fullmatch(r'-?[0-9]+', t):
            return ('c', int(t))
        if t.startswith('c"'):
            return ('str', unesc(t[2:-1]))
        if t == 'getelementptr':
            while self.accept('inbounds') or self.accept('nuw') or self.accept('nusw'):
                pass
            self.expect('(')
            sty = self.type()
            self.expect(',')
            args = []
            while True:
                at = self.type()
                args.append((at, self.value(at)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', sty, args)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.expect('(')
            at = self.type()
            v = self.value(at)
            self.expect('to')
            bt = self.type()
            self.expect(')')
            return (t, at, v, bt)
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            els = []
            if t == '<':
                self.expect('{')
            while not self.accept('}' if t == '<' else close):
                et = self.type()
                els.append((et, self.value(et)))
                self.accept(',')
            if t == '<':
                self.expect('>')
            return ('agg', els)
        raise IRError('value %r' % t)

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'dst', 'a', 'line', 'txt')

    def __init__(self, op, dst, a, line, txt):
        self.op, self.dst, self.a, self.line, self.txt = op, dst, a, line, txt

    def __repr__(self):
        return self.txt


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.file = None

    def analyse(self):
        """natural loops: header -> set of blocks"""
        succ = {b: self.succs(b) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in self.order:
            for s in succ[b]:
                pred[s].append(b)
        entry = self.order[0]
        reach, st = set(), [entry]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st += succ[b]
        dom = {b: set(reach) for b in reach}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in reach or b == entry:
                    continue
                ps = [dom[p] for p in pred[b] if p in reach]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        self.loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += [p for p in pred[x] if p in reach]
        # irreducible graphs (goto into loops): reject
        color = {}

        def dfs(b):
            color[b] = 1
            for s in succ[b]:
                if color.get(s) == 1 and s not in dom[b]:
                    raise IRError('irreducible control flow in ' + self.name)
                if s not in color:
                    dfs(s)
            color[b] = 2
        import sys
        sys.setrecursionlimit(100000)
        dfs(entry)

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [l for _, l in t.a[3]]
        return []


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.layout = {}

    # ---- layout (x86-64) ----
    def res(self, t):
        while t.k == 'n':
            if t.name not in self.types:
                raise IRError('opaque type ' + t.name)
            t = self.types[t.name]
        return t

    def cached(fn):
        def g(self, *a):
            k = (fn, id(a[0])) + a[1:]
            c = self.layout.get(k)
            if c is None or c[0] is not a[0]:
                c = self.layout[k] = (a[0], fn(self, *a))
            return c[1]
        return g

    @cached
    def align(self, t):
        t = self.res(t)
        if t.k == 'i':
            return max(1, min(16, (t.n + 7) // 8))
        if t.k == 'p':
            return 8
        if t.k == 'f':
            return t.n // 8
        if t.k == 'a':
            return self.align(t.el)
        if t.k == 's':
            return 1 if t.n else max([self.align(e) for e in t.el] or [1])
        raise IRError('align ' + t.k)

    @cached
    def size(self, t):
        t = self.res(t)
        if t.k == 'i':
            return (t.n + 7) // 8
        if t.k == 'p':
            return 8
        if t.k == 'f':
            return t.n // 8
        if t.k == 'a':
            return t.n * self.size(t.el)
        if t.k == 's':
            off = 0
            for e in t.el:
                a = 1 if t.n else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise IRError('size ' + t.k)

    @cached
    def fieldoff(self, t, i):
        t = self.res(t)
        off = 0
        for k, e in enumerate(t.el):
            a = 1 if t.n else self.align(e)
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += self.size(e)
        raise IRError('field')


CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptoui'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def parse(text, mod=None, prefix=''):
    mod = mod or Module()
    lines = text.split('\n')
    dl = {}
    for l in lines:
        m = re.match(r'(![0-9]+) = (?:distinct )?!DILocation\(line: (\d+)', l)
        if m:
            dl[m.group(1)] = int(m.group(2))
    src = re.search(r'^source_filename = "(.*)"', text, re.M)
    srcf = src.group(1) if src else ''
    # private/internal globals are renamed per file so several files can be loaded together
    local = set(re.findall(r'^(@[-a-zA-Z$._0-9]+) = (?:private|internal) ', text, re.M))
    local |= set('@' + x for x in re.findall(r'^define internal [^@]*@([-a-zA-Z$._0-9]+)\(', text, re.M))
    lm = {g: '@' + prefix + g[1:] for g in local if g.startswith('@.str') or g in mod.globals or g[1:] in mod.funcs or prefix and g.startswith('@__')}
    if lm:
        rx = re.compile('|'.join(re.escape(g) + r'(?![-a-zA-Z$._0-9])' for g in sorted(lm, key=len, reverse=True)))
        text = rx.sub(lambda m: lm[m.group(0)], text)
        lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        if not l or l[0] in ';!' or l.startswith(('source_filename', 'target ', 'attributes', 'declare')):
            if l.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l)
                mod.decls[m.group(1)] = l
            continue
        m = re.match(r'(%[-a-zA-Z$._0-9"]+) = type (.*)$', l)
        if m:
            if m.group(2).strip() == 'opaque':
                continue
            mod.types[m.group(1)] = P(tokenize(m.group(2)), mod).type()
            continue
        if l[0] == '@':
            m = re.match(r'(@[-a-zA-Z$._0-9"]+) = (.*)$', l)
            name, rest = m.group(1), re.sub(r', !dbg ![0-9]+', '', m.group(2))
            p = P(tokenize(rest), mod)
            ext = False
            const = False
            while p.peek() in ('private', 'internal', 'external', 'common', 'unnamed_addr', 'local_unnamed_addr', 'global',
                               'constant', 'dso_local', 'hidden', 'weak', 'thread_local', 'linkonce_odr', 'comdat'):
                t = p.next()
                ext = ext or t == 'external'
                const = const or t == 'constant'
                if t in ('global', 'constant'):
                    break
            ty = p.type()
            init = None
            if not ext:
                init = p.value(ty)
            if not const and ' internal ' in l and init is not None:      # a static that is only ever read keeps its first value
                uses = [u for u in re.findall(r'.*' + re.escape(name) + r'(?![-a-zA-Z$._0-9]).*', text) if not u.startswith(name + ' =')]
                const = all(re.search(r'= load [^,]+, ptr ' + re.escape(name) + r'(,|$)', u) for u in uses)
            if name not in mod.globals or mod.globals[name][1] is None:
                mod.globals[name] = (ty, init, const)
            continue
        if l.startswith('define'):
            m = re.match(r'define (.*?)@([-a-zA-Z$._0-9]+)\((.*)\)[^()]*(?:!dbg ![0-9]+ )?\{$', l)
            if not m:
                raise IRError('define: ' + l)
            pre = [t for t in tokenize(m.group(1)) if t not in ('dso_local', 'internal', 'hidden', 'noundef', 'signext',
                                                                 'zeroext', 'weak', 'nonnull', 'noalias', 'linkonce_odr')]
            f = Func(m.group(2), P(pre, mod).type(), [])
            f.file = srcf
            f.vararg = False
            pp = P(tokenize(m.group(3)), mod)
            while pp.peek() is not None:
                if pp.accept('...'):
                    f.vararg = True
                    break
                ty = pp.type()
                pp.skip_attrs()
                f.params.append((ty, pp.next()))
                pp.accept(',')
            cur = None
            while lines[i] != '}':
                s = lines[i]
                i += 1
                if not s.strip():
                    continue
                mm = re.match(r'([-a-zA-Z$._0-9]+|"[^"]+"):', s)
                if mm:
                    cur = mm.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
                if cur is None:
                    cur = 'entry'
                    f.blocks[cur] = []
                    f.order.append(cur)
                s = s.strip()
                if s.startswith('switch') and ']' not in s:
                    while ']' not in lines[i]:
                        s += ' ' + lines[i].strip()
                        i += 1
                    s += ' ' + lines[i].strip()
                    i += 1
                if s.startswith('#dbg') or '@llvm.dbg.' in s:
                    continue
                f.blocks[cur].append(('raw', s))
            i += 1
            f.raw = True
            f.dl = dl
            mod.funcs[f.name] = f
            continue
    return mod


def lower(mod, f):
    """parse instruction text lazily (only for functions that are executed)"""
    if not f.raw:
        return f
    for b in f.order:
        f.blocks[b] = [parse_ins(s, mod, f.dl) for _, s in f.blocks[b]]
    f.raw = False
    f.defblock = {i.dst: b for b in f.order for i in f.blocks[b] if i.dst is not None}
    f.analyse()
    return f


def parse_ins(s, mod, dl):
    line = 0
    m = re.search(r', !dbg (![0-9]+)', s)
    if m:
        line = dl.get(m.group(1), 0)
    txt = s
    s = re.sub(r',? ![a-zA-Z.]+ ![0-9]+', '', s)
    p = P(tokenize(s), mod)
    dst = None
    if p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    mk = lambda *a: Ins(op, dst, a, line, txt)
    if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
        return Ins('fopaque', dst, (op,), line, txt)
    if op in BIN:
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            fl.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return mk(ty, a, p.value(ty), fl)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        return mk(ty, v, p.type())
    if op == 'icmp':
        c = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return mk(c, ty, a, p.value(ty))
    if op == 'load':
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        return mk(ty, p.value(PTR))
    if op == 'store':
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        return mk(ty, v, p.value(PTR))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.accept(','):
            t = p.type()
            idx.append((t, p.value(t)))
        return mk(sty, base, idx)
    if op == 'alloca':
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                t = p.type()
                n = (t, p.value(t))
        return mk(ty, n)
    if op == 'phi':
        ty = p.type()
        inc = []
        while p.accept('['):
            v = p.value(ty)
            p.expect(',')
            lab = p.next()[1:]
            p.expect(']')
            inc.append((v, lab))
            p.accept(',')
        return mk(ty, inc)
    if op == 'br':
        if p.accept('label'):
            return mk(p.next()[1:])
        p.type()
        c = p.value(I[1])
        p.expect(',')
        p.expect('label')
        a = p.next()[1:]
        p.expect(',')
        p.expect('label')
        return mk(c, a, p.next()[1:])
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cs = []
        while not p.accept(']'):
            p.type()
            c = int(p.next())
            p.expect(',')
            p.expect('label')
            cs.append((c, p.next()[1:]))
        return mk(ty, v, d, cs)
    if op == 'ret':
        ty = p.type()
        return mk(ty, None if ty.k == 'v' else p.value(ty))
    if op == 'call':
        while p.peek() in ('fastcc', 'nnan'):
            p.next()
        p.skip_attrs()
        ty = p.type()
        if p.peek() == 'asm':
            return Ins('asm', dst, (), line, txt)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at.k == 'metadata':
                raise IRError('metadata arg')
            p.skip_attrs()
            args.append((at, p.value(at)))
            p.accept(',')
        return mk(ty, callee, args)
    if op == 'select':
        t0 = p.type()
        c = p.value(t0)
        p.expect(',')
        t1 = p.type()
        a = p.value(t1)
        p.expect(',')
        p.type()
        return mk(c, t1, a, p.value(t1))
    if op == 'unreachable':
        return mk()
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        ty = p.type()
        return mk(o, ptr, ty, p.value(ty))
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        p.type()
        ptr = p.value(PTR)
        p.expect(',')
        ty = p.type()
        old = p.value(ty)
        p.expect(',')
        p.type()
        return mk(ptr, ty, old, p.value(ty))
    if op == 'freeze':
        ty = p.type()
        return mk(ty, p.value(ty))
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        return mk(ty, v, int(p.next()))
    return Ins('unsupported', dst, (op,), line, txt)
