"""Contracts of src/onion/shortcuts.c: files are sent whole, ranges exactly, moves lose nothing"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
F = ['shortcuts.c']


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.cmp_witness, E.measure_terms, E.ptr_havoc = True, [], None
    return State()


def fd_open(E, s, fds, fd):
    return s.ghost.get('fd%d' % fd) == 'open'


class File:
    """one file that does not change meanwhile: N bytes F, a read position, descriptor 7.. ; reads and sends may be short or fail"""

    def __init__(self, E, st, x):
        self.E, self.x = E, x
        self.N = z3.Int('filesize')
        st.add(self.N >= 0, self.N < (1 << 62))
        self.F = E.newobj(st, 'file', iv(1 << 62), 'ghost', const=True)
        self.B = st.om(self.F).bm
        self.pos = E.newobj(st, 'pos', 8, 'ghost')
        E.poke(st, self.pos, iv(0), 8, iv(0))
        self.out = E.newobj(st, 'out', iv(1 << 62), 'ghost')
        self.len = E.newobj(st, 'outlen', 8, 'ghost')
        E.poke(st, self.len, iv(0), 8, iv(0))
        self.bad = E.newobj(st, 'failed', 8, 'ghost')
        E.poke(st, self.bad, iv(0), 8, iv(0))

    def get(self, s, o):
        return toint(self.E.load(s, Ptr(o, iv(0)), ir.I[64], None))

    def set(self, s, o, v):
        self.E.poke(s, o, iv(0), 8, v)

    def take(self, s, n):
        """some of the next bytes: (state, count) list; count 0 at the end of the file, -1 on error"""
        E = self.E
        p = self.get(s, self.pos)
        s2, s3 = s.copy(), s.copy()
        k = E.fint('got', s, 1)
        s.add(k <= n, p + k <= self.N, p >= 0)
        self.set(s, self.pos, S(p + k))
        s2.add(Or(p >= self.N, n == 0))
        self.set(s3, self.bad, iv(1))
        return [(s, p, k), (s2, p, iv(0)), (s3, p, iv(-1))]

    def read(self, E, s, a):
        fd, p, n = a
        n = toint(n)
        E.oblige(s, 'reads the open file', And(toint(fd) == 7, z3.BoolVal(s.ghost.get('open') is True)))
        if not E.access(s, p, n, True, None):
            return iv(0)
        r = []
        for s2, q, k in self.take(s, n):
            if not (isc(k)):
                po = p.off
                E.flush_range(s2, p, k)
                E.store_range(s2, p.obj, po, k, lambda i, q=q: self.B.read(S(i - po + q)))
            r.append((s2, k))
        return [(s2, k) for s2, k in r if E.feasible(s2)]

    def append(self, s, fn, k):
        L = self.get(s, self.len)
        self.E.store_range(s, self.out, L, k, lambda i: fn(S(i - L)))
        self.set(s, self.len, S(L + k))


@proof('P20', 'onion_shortcut_response_file', F, budget=300)
def response_file(E):
    """the content is exactly the file, or exactly the asked range of it (clamped), announced with that length; nothing for HEAD and 304; the file is closed"""
    c = front.consts(['OCS_NOT_PROCESSED', 'OCS_PROCESSED', 'OR_METHODS', 'OR_HEAD', 'HTTP_PARTIAL_CONTENT', 'HTTP_NOT_MODIFIED', 'HTTP_RANGE_NOT_SATISFIABLE', 'HTTP_OK'])
    st = init(E)
    x, nn, rn, dash, a1, a2, pn = z3.Ints('x namelen rangelen dash first last previouslen')
    st.add(x >= 0, nn >= 0, nn < 4096, rn >= 0, rn < (1 << 20), dash >= 0, dash <= rn, pn >= 0, pn < (1 << 20))
    name = E.cstring(st, 'filename', nn)
    rng = E.cstring(st, 'range', rn, const=True)
    R = st.om(rng).bm
    prev = E.cstring(st, 'ifnonematch', pn, const=True)
    # after "bytes=": the first dash is at `dash` (or the end), the numbers before and after it are a1 and a2
    st.add(Or(6 + dash >= rn, R.read(S(dash + 6)) == 45), -(1 << 63) <= a1, a1 < (1 << 63), -(1 << 63) <= a2, a2 < (1 << 63))
    st.strfacts.append((rng, models._Ne(R, bv(45, 8)), iv(6), dash))
    X = File(E, st, x)
    N = X.N
    E.skolem_list = [(None, x), ('out', x), ('range', x + 6)]
    E.cmp_sk = [x]
    rq = front.offsets('struct onion_request_t', ['connection.listen_point', 'connection.fd', 'flags'])
    lpf = front.offsets('struct onion_listen_point_t', ['write'])
    rs = front.offsets('struct onion_response_t', ['sent_bytes', 'sent_bytes_total'])
    so = front.offsets('struct stat', ['st_mode', 'st_size', 'st_mtime'], extra='#include <sys/stat.h>')
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    req = E.newobj(st, 'req', rq[''][1], 'input')
    fl = z3.BitVec('flags', 32)
    E.poke(st, req, iv(rq['flags'][0]), 4, fl)
    E.poke(st, req, iv(rq['connection.listen_point'][0]), 8, Ptr(lp, iv(0)))
    E.poke(st, req, iv(rq['connection.fd'][0]), 4, iv(3))
    res = E.newobj(st, 'res', rs[''][1], 'heap')
    for k in ('sent_bytes', 'sent_bytes_total'):
        E.poke(st, res, iv(rs[k][0]), 8, iv(0))

    def open_(E, s, a):
        same(E, s, a[0], 'opens the given file')
        s2 = s.copy()
        s2.ghost['notopen'] = True
        s.ghost['open'] = True
        return [(s, iv(7)), (s2, iv(-1))]

    def same(E, s, p, what):
        E.oblige(s, what, And(p.off == 0) if p.obj is name else z3.BoolVal(False))

    def stat(E, s, a):
        if isinstance(a[0], Ptr):
            same(E, s, a[0], 'looks at the given file')
        else:
            E.oblige(s, 'looks at the open file', toint(a[0]) == 7)
        s2 = s.copy()
        s2.ghost['notopen'] = True
        if not E.access(s, a[1], iv(so[''][1]), True, None):
            return iv(-1)
        b = BMBase('statbuf')
        E.store_range(s, a[1].obj, a[1].off, iv(so[''][1]), lambda i: b.read(i))
        o = cval(S(a[1].off))
        E.poke(s, a[1].obj, iv(o + so['st_size'][0]), 8, N)
        m = tobv(E.load(s, Ptr(a[1].obj, iv(o + so['st_mode'][0])), ir.I[32], None), 32)
        s.ghost['isdir'] = (m & 0o170000) == 0o040000
        return [(s, iv(0)), (s2, iv(-1))]

    def header(E, s, a):
        k = models.constbytes(E, s, a[1])
        if k not in (b'Range', b'If-None-Match'):
            raise Unsupported('header %r' % k)
        s2 = s.copy()
        s.ghost[k] = True
        s2.ghost[k] = False
        return [(s, Ptr(rng if k == b'Range' else prev, iv(0))), (s2, NULL)]

    def number(E, s, a):
        """value of one of the two texts around the dash"""
        p = a[0]
        L = models.cstrlen(E, s, p)
        if L is None:
            return iv(0)
        E.flush(s, p.obj, p)
        for i in (iv(6), S(dash + 6), S(dash + 7), S(rn - 1), S(L + 6), S(L + dash + 7), S(p.off + 6), S(p.off + L + 6)):
            E.read_byte(s, rng, i)
        for off, n, v in ((iv(6), dash, a1), (S(dash + 7), S(rn - dash - 7), a2)):
            E.read_byte(s, rng, S(L + off))
            E.read_byte(s, rng, S(n + off))
            if E.prove(s, And(L == n, Implies(x < n, E.read_byte(s, p.obj, S(p.off + x)) == E.read_byte(s, rng, S(off + x))))):
                return v
        E.oblige(s, 'a number of the range is read', False)
        return iv(0)

    def lseek(E, s, a):
        E.oblige(s, 'moves in the open file, to a place in it', And(toint(a[0]) == 7, toint(a[2]) == 0, toint(a[1]) >= 0, toint(a[1]) <= N))
        X.set(s, X.pos, toint(a[1]))
        return toint(a[1])

    def close(E, s, a):
        E.oblige(s, 'closes the open file once', And(toint(a[0]) == 7, z3.BoolVal(s.ghost.get('open') is True)))
        s.ghost['open'] = False
        return iv(0)

    def set_length(E, s, a):
        s.ghost['length'] = toint(a[1])
        return None

    def set_code(E, s, a):
        s.ghost['code'] = toint(a[1])
        return None

    def set_header(E, s, a):
        k = models.constbytes(E, s, a[1])
        if k == b'Content-Range':
            s.ghost['crange'] = (a[2], models.cstrlen(E, s, a[2]), s.om(a[2].obj).bm)
        elif k == b'Etag':
            L = models.cstrlen(E, s, a[2])
            E.flush(s, a[2].obj, a[2])
            s.ghost['etag'] = (s.om(a[2].obj).bm, a[2].off, L)
        return None

    def write_headers(E, s, a):
        E.oblige(s, 'headers are written once', z3.BoolVal('head' not in s.ghost))
        s.ghost['head'] = (s.ghost.get('code', iv(200)), s.ghost.get('length'))
        return E.i32(s, 'wh')

    def write(E, s, a):
        n = toint(a[2])
        if isc(S(n)) and cval(S(n)) == 0:
            s.ghost['flushed'] = True
            return iv(0)
        E.oblige(s, 'content follows the headers', z3.BoolVal('head' in s.ghost))
        if not E.access(s, a[1], n, False, None):
            return n
        s2 = s.copy()
        E.flush_range(s, a[1], n)
        sb, po = s.om(a[1].obj).bm, a[1].off
        X.append(s, lambda i: sb.read(S(i + po)), n)
        X.set(s2, X.bad, iv(1))
        k = E.i32(s2, 'short')
        s2.add(k < n)
        return [(s, n), (s2, k)]

    def sendfile(E, s, a):
        E.oblige(s, 'sends the open file to the connection, after what was written', And(toint(a[0]) == 3, toint(a[1]) == 7, z3.BoolVal(isnull(a[2]) and s.ghost.get('open') is True and s.ghost.get('flushed') is True and 'head' in s.ghost)))
        n = toint(a[3])
        r = []
        for s2, q, k in X.take(s, n):
            if not isc(k):
                X.append(s2, lambda i, q=q: X.B.read(S(i + q)), k)
            r.append((s2, k))
        return [(s2, k) for s2, k in r if E.feasible(s2)]

    def etag(E, s, a):
        p = a[1]
        if not E.access(s, p, 32, True, None):
            return None
        L = E.fint('short', s, 0, 31)
        bb = BMBase('etag')
        E.store_range(s, p.obj, p.off, iv(32), lambda i: bb.read(i))
        s.add(s.om(p.obj).bm.read(S(p.off + L)) == 0)
        s.wom(p.obj).nuls = (S(p.off + L),)
        return None

    def env(E, s, a):
        s2 = s.copy()
        return [(s, Ptr(E.cstring(s, 'env', E.fint('envlen', s, 0, 1000)), iv(0))), (s2, NULL)]
    E.contracts.update(open=open_, open64=open_, stat=stat, fstat=stat, onion_request_get_header=header, atol=number, lseek=lseek, lseek64=lseek, close=close, read=X.read,
                       onion_response_set_length=set_length, onion_response_set_code=set_code, onion_response_set_header=set_header, onion_response_write_headers=write_headers,
                       onion_response_write=write, sendfile=sendfile, sendfile64=sendfile, onion_shortcut_etag=etag, getenv=env, onion_mime_get=lambda E, s, a: Ptr(E.cstring(s, 'mime', E.fint('mimelen', s, 0, 100)), iv(0)),
                       onion_request_get_flags=lambda E, s, a: fl, fcntl=lambda E, s, a: E.i32(s, 'fcntl'))
    st0 = st

    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr) and v.obj is not None:
                out.append(('upto dash ' + m, lambda c, m=m: And(c.phis[m].off >= 0, c.phis[m].off <= dash, c.phis[m].off <= rn - 6)))
            elif z3.is_expr(v) and isint(v):
                g = lambda c, m=m: toint(c.phis[m])
                e = lambda c, m=m: toint(c.entry.phis[m])
                pe = lambda c: X.get(c.entry.st, X.pos)
                pc = lambda c: X.get(c.st, X.pos)
                ln = lambda c: X.get(c.st, X.len)
                bd = lambda c: X.get(c.st, X.bad)
                out.append(('left ' + m, lambda c, g=g, e=e: And(g(c) >= 0, ln(c) + g(c) == e(c))))
                out.append(('place ' + m, lambda c: And(pc(c) == pe(c) + ln(c), pc(c) <= N, ln(c) >= 0)))
                out.append(('sent ' + m, lambda c: Implies(x < ln(c), c.read(X.out, x) == X.B.read(S(x + pe(c))))))
                out.append(('fine ' + m, lambda c: bd(c) == 0))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        ret = toint(ret)
        E.oblige(s, 'the file is closed', z3.BoolVal(s.ghost.get('open') is not True))
        if s.ghost.get('notopen') or 'head' not in s.ghost:
            E.oblige(s, 'what cannot be served is reported', ret != c['OCS_PROCESSED'])
            E.oblige(s, 'refused only if it cannot be opened, is a directory or the range is very long', Or(z3.BoolVal(bool(s.ghost.get('notopen'))), s.ghost.get('isdir', z3.BoolVal(False)), And(z3.BoolVal(s.ghost.get(b'Range') is True), rn - 6 >= 1024)))
            return
        E.oblige(s, 'processed', ret == c['OCS_PROCESSED'])
        code, length = s.ghost['head']
        out, bad = X.get(s, X.len), X.get(s, X.bad)
        ranged = z3.BoolVal(s.ghost.get(b'Range') is True)
        lit = b'bytes='
        isr = And(ranged, rn >= 7, *[R.read(iv(i)) == lit[i] for i in range(6)])
        isr = And(isr, dash < rn - 6)
        first = If(dash == 0, If(N - u64(a2) > 0, N - u64(a2), 0), u64(a1))
        last0 = If(Or(dash == 0, dash == rn - 7), N - 1, u64(a2))
        last = If(last0 >= N, N - 1, last0)
        ok = And(first <= last, first < N)
        E.oblige(s, '416 exactly when the range holds no byte of the file', (code == c['HTTP_RANGE_NOT_SATISFIABLE']) == And(isr, Not(ok)))
        if E.prove(s, code == c['HTTP_RANGE_NOT_SATISFIABLE']):
            E.oblige(s, 'no content then', out == 0)
            return
        n = If(isr, last - first + 1, N)
        base = If(isr, first, 0)
        et = s.ghost.get('etag')
        if E.prove(s, code == c['HTTP_NOT_MODIFIED']):
            E.oblige(s, 'not modified: no content', And(out == 0, length == 0))
            E.oblige(s, 'not modified only if the client has this very version', And(z3.BoolVal(s.ghost.get(b'If-None-Match') is True), et[2] == pn, Implies(x < pn, et[0].read(S(et[1] + x)) == E.read_byte(s, prev, x))) if et else False)
            return
        E.oblige(s, '206 exactly for ranges', code == If(isr, c['HTTP_PARTIAL_CONTENT'], 200))
        E.oblige(s, 'the exact length is announced', length == n if length is not None else False)
        E.oblige(s, 'content is only bytes of the file, in order, from the first asked one', And(out >= 0, Implies(x < out, E.read_byte(s, X.out, x) == X.B.read(S(x + base)))))
        head = fl & c['OR_METHODS'] == c['OR_HEAD']
        E.oblige(s, 'all of them, unless the connection or the disk fails; none for HEAD', If(head, out == 0, Or(out == n, bad != 0)))
    for w in ('onion_http_write', 'vf_other_write'):
        s = st0.copy()
        E.poke(s, lp, iv(lpf['write'][0]), 8, Fn(w))
        E.run(s, 'onion_shortcut_response_file', [Ptr(name, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)


def u64(v):
    return If(v < 0, v + (1 << 64), v)


@proof('P20', 'onion_shortcut_rename', F)
def shortcut_rename(E):
    """the original goes only when the destination is a whole copy of it (or the system moved it), the result says which, and both files are closed"""
    st = init(E)
    x = z3.Int('x')
    st.add(x >= 0)
    names = [E.cstring(st, n, E.fint('len', st, 0, 4096)) for n in ('orig', 'dest')]
    X = File(E, st, x)
    E.skolem_list = [(None, x), ('out', x)]

    def one(E, s, p, i, what):
        E.oblige(s, what, And(p.off == 0) if isinstance(p, Ptr) and p.obj is names[i] else z3.BoolVal(False))

    def rename(E, s, a):
        one(E, s, a[0], 0, 'moves the original')
        one(E, s, a[1], 1, 'moves it to the destination')
        s2 = s.copy()
        s.ghost['moved'] = True
        s2.ghost['norename'] = True
        return [(s, iv(0)), (s2, iv(-1))]

    def open_(E, s, a):
        dst = isinstance(a[0], Ptr) and a[0].obj is names[1]
        one(E, s, a[0], int(dst), 'opens the original or the destination')
        fl = z3.simplify(tobv(a[1], 32)).as_long()
        if dst:
            E.oblige(s, 'the destination is created, or emptied, for writing', (fl & 3) in (1, 2) and fl & 0o100 and fl & 0o1000)
        else:
            E.oblige(s, 'the original is not changed', fl & 3 == 0 and not fl & 0o1000)
        s2 = s.copy()
        s.ghost['dopen' if dst else 'open'] = True
        s2.ghost['fail'] = True
        return [(s, iv(8 if dst else 7)), (s2, iv(-1))]

    def write(E, s, a):
        fd, p, n = a[0], a[1], toint(a[2])
        E.oblige(s, 'writes to the destination', And(toint(fd) == 8, z3.BoolVal(s.ghost.get('dopen') is True), n >= 0))
        if not E.access(s, p, n, False, None):
            return iv(0)
        s2 = s.copy()
        k = E.fint('put', s, 1)
        s.add(k <= n)
        E.flush_range(s, p, n)
        sb, po = s.om(p.obj).bm, p.off
        X.append(s, lambda i: sb.read(S(i + po)), k)
        X.set(s2, X.bad, iv(1))
        k2 = E.fint('none', s2, -1, 0)
        return [(t, v) for t, v in [(s, k), (s2, k2)] if E.feasible(t)]

    def close(E, s, a):
        fd = toint(a[0])
        r = []
        for n, g in ((7, 'open'), (8, 'dopen')):
            t = s.copy()
            t.add(fd == n)
            if E.feasible(t):
                E.oblige(t, 'closes what it opened, once', z3.BoolVal(t.ghost.get(g) is True))
                t.ghost[g] = False
                t2 = t.copy()
                if n == 8:
                    t.ghost['dclosed'] = True
                    t2.ghost['fail'] = True
                r += [(t, iv(0)), (t2, iv(-1))]
        E.oblige(s, 'closes an open file', Or(fd == 7, fd == 8))
        return r

    def unlink(E, s, a):
        one(E, s, a[0], 0, 'removes only the original')
        L = X.get(s, X.len)
        E.oblige(s, 'removed only when the whole of it is in the destination', And(L == X.N, Implies(x < L, E.read_byte(s, X.out, x) == X.B.read(x)), z3.BoolVal(s.ghost.get('dclosed') is True and not s.ghost.get('fail'))))
        s.ghost['removed'] = True
        return E.i32(s, 'unlink')
    E.contracts.update(rename=rename, open=open_, open64=open_, read=X.read, write=write, close=close, unlink=unlink)

    def cands(ctx):
        ln, pc = lambda c: X.get(c.st, X.len), lambda c: X.get(c.st, X.pos)
        out = [('all', lambda c: And(ln(c) == pc(c), pc(c) <= X.N, ln(c) >= 0)), ('pos', lambda c: And(pc(c) <= X.N, ln(c) >= 0, pc(c) >= 0)), ('sent', lambda c: Implies(x < ln(c), c.read(X.out, x) == X.B.read(x))),
               ('fine', lambda c: X.get(c.st, X.bad) == 0)]
        for m, v in ctx.phis.items():
            if z3.is_expr(v) and isint(v):
                out.append(('part ' + m, lambda c, m=m: And(ln(c) == X.get(c.entry.st, X.len) + toint(c.phis[m]) - toint(c.entry.phis[m]))))
                out.append(('zero ' + m, lambda c, m=m: toint(c.phis[m]) == 0))
                out.append(('ok ' + m, lambda c, m=m: Or(toint(c.phis[m]) != 0, And(ln(c) == pc(c), pc(c) <= X.N, ln(c) >= 0, X.get(c.st, X.bad) == 0))))
                out.append(('ko ' + m, lambda c, m=m: Or(toint(c.phis[m]) == 0, X.get(c.st, X.bad) != 0)))
        return out
    E.cand_hooks = [cands]

    def left(c):
        return X.N - X.get(c.st, X.pos) + If(X.get(c.st, X.bad) != 0, 0, 1)
    E.measure_terms = [('unread', left)]

    def post(s, ret):
        ret = toint(ret)
        g = s.ghost
        E.oblige(s, 'both files are closed', z3.BoolVal(not g.get('open') and not g.get('dopen')))
        if g.get('moved'):
            E.oblige(s, 'moved', And(ret == 0, z3.BoolVal('removed' not in g)))
            return
        E.oblige(s, 'success means the original is gone', (ret == 0) == z3.BoolVal('removed' in g))
        E.oblige(s, 'failure only if the system failed', Or(ret == 0, z3.BoolVal(bool(g.get('norename'))), z3.BoolVal(bool(g.get('fail'))), X.get(s, X.bad) != 0))
    E.run(st, 'onion_shortcut_rename', [Ptr(names[0], iv(0)), Ptr(names[1], iv(0))], post)


@proof('P20', 'onion_shortcut_etag', F)
def shortcut_etag(E):
    """the tag is a terminated text of at most 31 characters, made of the size and the time of the file"""
    st = init(E)
    so = front.offsets('struct stat', ['st_size', 'st_mtime'], extra='#include <sys/stat.h>')
    stb = E.newobj(st, 'statbuf', iv(so[''][1]), 'input')
    tag = E.newobj(st, 'etag', 32, 'output')
    size, mt = [toint(E.load(st, Ptr(stb, iv(so[k][0])), ir.I[64], None)) for k in ('st_size', 'st_mtime')]

    def snprintf(E, s, a):
        E.oblige(s, 'at most the 32 bytes of the tag', And(z3.BoolVal(a[0].obj is tag), a[0].off + toint(a[1]) <= 32, toint(a[1]) >= 17))
        args = [v for v in a[3:] if z3.is_expr(v)]
        for what, w in (('size', size), ('time', mt)):
            E.oblige(s, 'the %s is part of the tag' % what, Or(*[(toint(v) - w) % (1 << 32) == 0 for v in args]) if args else False)
        s.ghost['done'] = True
        return E.fint('len', s, 0, 31)
    E.contracts['snprintf'] = snprintf

    def post(s, ret):
        E.oblige(s, 'there is a tag', z3.BoolVal('done' in s.ghost))
    E.run(st, 'onion_shortcut_etag', [Ptr(stb, iv(0)), Ptr(tag, iv(0))], post)


def date(E, fn, n):
    st = init(E)
    t = z3.Int('t')
    st.add(t >= -(1 << 63), t < (1 << 63))
    d = E.newobj(st, 'dest', n, 'output')

    def gmtime(E, s, a):
        E.oblige(s, 'the given time', toint(E.load(s, Ptr(a[0].obj, a[0].off), ir.I[64], None)) == t)
        if not E.access(s, a[1], 56, True, None):
            return NULL
        b = BMBase('tm')
        E.store_range(s, a[1].obj, a[1].off, iv(56), lambda i: b.read(i))
        s.ghost['tm'] = (a[1].obj, a[1].off)
        return a[1]

    def strftime(E, s, a):
        E.access(s, a[0], a[1], True, None)
        E.oblige(s, 'the broken down time is written to the destination', And(a[0].off == 0, a[3].off == s.ghost['tm'][1]) if a[0].obj is d and 'tm' in s.ghost and a[3].obj is s.ghost['tm'][0] else z3.BoolVal(False))
        E.oblige(s, 'the standard date fits', toint(a[1]) >= (30 if n == 32 else 21))
        s.ghost['done'] = True
        return E.fint('len', s, 0, n - 1)
    E.contracts.update(gmtime_r=gmtime, strftime=strftime)

    def post(s, ret):
        E.oblige(s, 'there is a date', z3.BoolVal('done' in s.ghost))
    E.run(st, fn, [t, Ptr(d, iv(0))], post)


@proof('P20', 'onion_shortcut_date_string', F)
def date_string(E):
    """the date of the given time is written within the promised 32 bytes"""
    date(E, 'onion_shortcut_date_string', 32)


@proof('P20', 'onion_shortcut_date_string_iso', F)
def date_string_iso(E):
    """the date of the given time is written within the promised 21 bytes"""
    date(E, 'onion_shortcut_date_string_iso', 21)
