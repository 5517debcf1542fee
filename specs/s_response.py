"""Contracts of src/onion/response.c: what reaches the connection is exactly what was written"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
F = ['response.c']


def C():
    return front.consts(['OR_HEADER_SENT', 'OR_CHUNKED', 'OR_SKIP_CONTENT', 'OR_LENGTH_SET', 'OR_CONNECTION_UPGRADE', 'OR_NO_KEEP_ALIVE', 'OR_HTTP11', 'OR_METHODS', 'OR_HEAD',
                         'OCS_CLOSE_CONNECTION', 'OCS_KEEP_ALIVE'])


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds = [], [], [], []
    return State()


class Res:
    """a response in any state with 0 <= buffer_pos <= sizeof(buffer), on a connection whose output so far is the ghost `out`"""

    def __init__(self, E, st):
        f = self.f = front.offsets('struct onion_response_t', ['request', 'headers', 'code', 'flags', 'length', 'sent_bytes', 'sent_bytes_total', 'buffer', 'buffer_pos'])
        r = self.r = front.offsets('struct onion_request_t', ['connection.listen_point', 'flags', 'session', 'session_id', 'fullpath'])
        lpf = front.offsets('struct onion_listen_point_t', ['server', 'write'])
        self.E = E
        self.B = f['buffer'][1]
        self.bp, self.len0 = z3.Ints('buffer_pos outlen')
        self.fl, self.rfl = z3.BitVecs('flags req_flags', 32)
        self.length, self.sent, self.tot, self.code = z3.Ints('length sent_bytes sent_total code')
        st.add(self.bp >= 0, self.bp <= self.B, self.len0 >= 0, self.len0 < (1 << 60))
        for v in (self.length, self.sent, self.tot):
            st.add(v >= 0, v < (1 << 31))
        st.add(self.code >= 0, self.code < 100000)
        self.lp = E.newobj(st, 'lp', lpf[''][1], 'input')
        E.poke(st, self.lp, iv(lpf['write'][0]), 8, Fn('vf_conn_write'))
        self.req = E.newobj(st, 'req', r[''][1], 'input')
        E.poke(st, self.req, iv(r['connection.listen_point'][0]), 8, Ptr(self.lp, iv(0)))
        E.poke(st, self.req, iv(r['flags'][0]), 4, self.rfl)
        for n in ('session', 'session_id', 'fullpath'):
            E.poke(st, self.req, iv(r[n][0]), 8, NULL)
        self.o = E.newobj(st, 'res', f[''][1], 'heap')
        self.hdr = E.newobj(st, 'hdrdict', 8, 'heap')
        for n, v in (('request', Ptr(self.req, iv(0))), ('headers', Ptr(self.hdr, iv(0))), ('code', self.code), ('flags', self.fl), ('length', self.length),
                     ('sent_bytes', self.sent), ('sent_bytes_total', self.tot), ('buffer_pos', self.bp)):
            E.poke(st, self.o, iv(f[n][0]), f[n][1], v)
        self.out = E.newobj(st, 'out', iv(1 << 62), 'ghost')
        self.l = E.newobj(st, 'outlen', 8, 'ghost')
        E.poke(st, self.l, iv(0), 8, self.len0)
        self.out0 = st.om(self.out).bm
        self.buf0 = lambda k, bm=st.om(self.o).bm: bm.read(S(k + f['buffer'][0]))
        E.contracts['vf_conn_write'] = self.conn_write
        E.hints = []

    def p(self):
        return Ptr(self.o, iv(0))

    def get(self, st, n, ty=ir.I[32]):
        return self.E.load(st, Ptr(self.o, iv(self.f[n][0])), ty, None)

    def flags(self, st):
        return tobv(self.E.load(st, Ptr(self.o, iv(self.f['flags'][0])), ir.I[32], None), 32)

    def rflags(self, st):
        return tobv(self.E.load(st, Ptr(self.req, iv(self.r['flags'][0])), ir.I[32], None), 32)

    def pos(self, st):
        return toint(self.get(st, 'buffer_pos', ir.I[64]))

    def len(self, st):
        return toint(self.E.load(st, Ptr(self.l, iv(0)), ir.I[64], None))

    def append(self, st, p, k):
        """the first k bytes at p go out"""
        E = self.E
        L = self.len(st)
        E.flush_range(st, p, k)
        sb, po = st.om(p.obj).bm, p.off
        for q in E.skolems(st, self.out):
            E.pointwise(st, p.obj, S(q - L + po))
        E.store_range(st, self.out, L, k, lambda i: sb.read(S(i - L + po)))
        E.poke(st, self.l, iv(0), 8, S(L + k))

    def conn_write(self, E, st, a):
        """connection write: sends some of the bytes (at least one), or fails"""
        rq, p, n = a
        n = toint(n)
        E.oblige(st, 'writes to its own connection', rq.obj is self.req)
        E.oblige(st, 'no empty write, no negative length', n > 0)
        if not E.access(st, p, n, False, None):
            return [(st, n)]
        s2 = st.copy()
        k = E.fint('sent', st, 1)
        st.add(k <= n)
        self.append(st, p, k)
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad <= 0)
        s2.ghost['failed'] = True
        return [(st, k), (s2, bad)]


def has(f, bit):
    return (f & bv(bit, 32)) != 0


def hexlen(x):
    return models._digits(x, 16, 8)


@proof('P16', 'onion_response_flush', F)
def res_flush(E):
    """headers already out: the buffered bytes reach the connection exactly once and in order, framed as one chunk when chunked;
    if the connection fails, what went out is a prefix and the connection is marked to close"""
    c = C()
    st = init(E)
    R = Res(E, st)
    st.add(has(R.fl, c['OR_HEADER_SENT']))
    x = z3.Int('x')
    st.add(x >= 0)
    E.skolem_list = [('out', x)]
    nd, dig = models._digits(R.bp, 16, 8)
    ch = has(R.fl, c['OR_CHUNKED'])
    skip = has(R.fl, c['OR_SKIP_CONTENT'])
    H = If(ch, nd + 2, 0)
    tot = R.len0 + If(Or(skip, R.bp == 0), 0, H + R.bp + If(ch, 2, 0))

    def want(k):
        d = k - R.len0
        crlf = lambda q: If(q == 0, bv(13, 8), bv(10, 8))
        return If(d < 0, R.out0.read(k), If(d < H, If(d < nd, dig(d), crlf(d - nd)), If(d < H + R.bp, R.buf0(d - H), crlf(d - H - R.bp))))
    lk, bk = 'm:outlen.0', 'm:res.%d' % R.f['buffer_pos'][0]

    def cands(ctx):
        out = []
        lv = lambda c: c.q().get(lk, R.len0)
        pv = lambda c: c.q().get(bk, R.bp)
        out.append(('sent so far', lambda c: Implies(x < lv(c), c.read(R.out, x) == want(x))))
        out.append(('len', lambda c: And(lv(c) >= R.len0, lv(c) <= tot)))
        out.append(('rest', lambda c: And(pv(c) > 0, lv(c) + pv(c) == R.len0 + H + R.bp)))
        out.append(('buffer kept', pointwise(ctx.key, R.o, lambda c, m: Implies(And(m >= R.f['buffer'][0], m < R.f['buffer'][0] + R.bp), c.st.om(R.o).bm.read(m) == R.buf0(m - R.f['buffer'][0])))))
        for n, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                g = lambda c, n=n: toint(c.phis[n])
                out.append(('off ' + n, lambda c, g=g: lv(c) == R.len0 + H + g(c)))
                for nm, base in (('head', iv(0)), ('tail', H + R.bp)):
                    for e, ln in (('head', H), ('tail', 2)):
                        out.append(('left %s %s %s' % (n, nm, e), lambda c, g=g, base=base, ln=ln: And(g(c) >= 0, lv(c) + g(c) == R.len0 + base + ln)))
            if isinstance(v, Ptr) and v.obj is not None:
                for nm, base in (('head', iv(0)), ('tail', H + R.bp)):
                    out.append(('at %s %s' % (n, nm), lambda c, n=n, base=base: c.phis[n].off == lv(c) - R.len0 - base))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        L, f, rf = R.len(st), R.flags(st), R.rflags(st)
        E.oblige(st, 'buffer is empty', R.pos(st) == 0)
        E.oblige(st, 'what went out is a prefix of the framed data', And(L >= R.len0, L <= tot, Implies(x < L, E.read_byte(st, R.out, x) == want(x))))
        E.oblige(st, 'success means everything went out', Implies(ret >= 0, L == tot))
        E.oblige(st, 'a failed write closes the connection', Implies(ret < 0, And(has(rf, c['OR_NO_KEEP_ALIVE']), has(f, c['OR_SKIP_CONTENT']))))
        E.oblige(st, 'a failure is reported', Or(ret < 0, z3.BoolVal(not st.ghost.get('failed'))))
        E.oblige(st, 'bytes are counted', (toint(R.get(st, 'sent_bytes')) - R.sent - R.bp) % (1 << 32) == 0)
    E.run(st, 'onion_response_flush', [R.p()], post)


def flush_contract(R, c):
    """onion_response_flush as proved above (`out` = the data stream the flush accepted; framing abstracted)"""
    def f(E, st, a):
        E.oblige(st, 'flush of this response', And(z3.BoolVal(a[0].obj is R.o), a[0].off == 0))
        bp = R.pos(st)
        E.oblige(st, 'buffer position within the buffer', And(bp >= 0, bp <= R.B))
        s2 = st.copy()
        R.append(st, Ptr(R.o, iv(R.f['buffer'][0])), bp)
        E.poke(st, R.o, iv(R.f['buffer_pos'][0]), 8, iv(0))
        E.poke(s2, R.o, iv(R.f['buffer_pos'][0]), 8, iv(0))
        E.poke(s2, R.o, iv(R.f['flags'][0]), 4, R.flags(s2) | bv(c['OR_SKIP_CONTENT'], 32))
        s2.ghost['failed'] = True
        return [(st, iv(0)), (s2, iv(c['OCS_CLOSE_CONNECTION']))]
    return f


@proof('P16', 'onion_response_write', F)
def res_write(E):
    """accepted data plus buffer grow by exactly the bytes written, for every length"""
    c = C()
    st = init(E)
    R = Res(E, st)
    n = z3.Int('n')
    x = z3.Int('x')
    st.add(n >= 0, n < (1 << 28), x >= 0)
    d = E.newobj(st, 'data', n, 'input', const=True)
    D = st.om(d).bm
    E.skolem_list = [('out', x), ('res', x - R.len0 + R.f['buffer'][0])]
    E.contracts['onion_response_flush'] = flush_contract(R, c)
    E.contracts['onion_response_write_headers'] = lambda E, st, a: E.i32(st, 'wh')
    b0 = R.f['buffer'][0]

    def stream(k):
        return If(k < R.len0, R.out0.read(k), If(k < R.len0 + R.bp, R.buf0(k - R.len0), D.read(k - R.len0 - R.bp)))
    lk, bk = 'm:outlen.0', 'm:res.%d' % R.f['buffer_pos'][0]

    def cands(ctx):
        out = []
        lv = lambda c: c.q().get(lk, R.len0)
        pv = lambda c: c.q().get(bk, R.bp)
        out.append(('accepted', lambda c: Implies(x < lv(c), c.read(R.out, x) == stream(x))))
        out.append(('buffered', lambda c: Implies(And(x >= lv(c), x < lv(c) + pv(c)), c.read(R.o, x - lv(c) + b0) == stream(x))))
        out.append(('pos', lambda c: And(pv(c) >= 0, pv(c) <= R.B, lv(c) >= R.len0)))
        for m, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                g = lambda c, m=m: toint(c.phis[m])
                out.append(('left ' + m, lambda c, g=g: And(g(c) >= 0, lv(c) + pv(c) + g(c) == R.len0 + R.bp + n)))
                out.append(('done ' + m, lambda c, g=g: And(g(c) >= 0, lv(c) + pv(c) == R.len0 + R.bp + g(c))))
            if isinstance(v, Ptr) and v.obj is d:
                out.append(('at ' + m, lambda c, m=m: c.phis[m].off == lv(c) + pv(c) - R.len0 - R.bp))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        L, p = R.len(st), R.pos(st)
        skip = has(R.fl, c['OR_SKIP_CONTENT'])
        E.oblige(st, 'buffer position within the buffer', And(p >= 0, p <= R.B))
        if E.prove(st, skip):
            E.oblige(st, 'nothing is buffered when content is skipped', And(p == R.bp, L == R.len0))
            return
        if st.ghost.get('failed'):
            E.oblige(st, 'a failed flush is reported as a short write', Or(ret < n, n == 0))
            return
        E.oblige(st, 'reports every byte written', ret == n)
        E.oblige(st, 'stream is longer by exactly the data', L + p == R.len0 + R.bp + n)
        E.oblige(st, 'accepted bytes are the stream', Implies(x < L, E.read_byte(st, R.out, x) == stream(x)))
        E.oblige(st, 'buffered bytes are the rest of the stream', Implies(And(x >= L, x < L + p), E.read_byte(st, R.o, x - L + b0) == stream(x)))
    E.run(st, 'onion_response_write', [R.p(), Ptr(d, iv(0)), n], post)


@proof('P16', 'onion_response_flush', F)
def res_flush_first(E):
    """first flush: headers go out before the data, and the data goes out after them, unchanged and once"""
    c = C()
    st = init(E)
    R = Res(E, st)
    x = z3.Int('x')
    st.add(Not(has(R.fl, c['OR_HEADER_SENT'])), x >= 0, x < R.bp)
    b0 = R.f['buffer'][0]
    E.skolem_list = [('res', x + b0), (None, x)]

    def headers(E, st, a):
        E.oblige(st, 'headers are written once, with nothing buffered before them', And(R.pos(st) == 0, z3.BoolVal(not st.ghost.get('h'))))
        st.ghost['h'] = 1
        hb = E.fint('hbuf', st, 0, R.B)
        E.poke(st, R.o, iv(R.f['buffer_pos'][0]), 8, hb)
        fl = z3.BitVec('hflags!%d' % uid(), 32)
        st.add(fl & R.fl == R.fl, has(fl, c['OR_HEADER_SENT']))
        E.poke(st, R.o, iv(R.f['flags'][0]), 4, fl)
        return E.i32(st, 'wh')

    def write(E, st, a):
        o, p, n = a
        n = toint(n)
        E.oblige(st, 'data is written after the headers, once', z3.BoolVal(st.ghost.get('h') == 1 and not st.ghost.get('w')))
        E.oblige(st, 'all the data is written', n == R.bp)
        if E.access(st, p, n, False, None):
            E.oblige(st, 'the data is what was buffered', E.read_byte(st, p.obj, S(p.off + x)) == R.buf0(x))
        st.ghost['w'] = 1
        return n

    def flush(E, st, a):
        E.oblige(st, 'flushes after headers and data (recursion ends: headers are sent)', z3.BoolVal(st.ghost.get('w') == 1))
        E.oblige(st, 'headers are marked as sent', has(R.flags(st), c['OR_HEADER_SENT']))
        st.ghost['f'] = 1
        st.ghost['fr'] = E.i32(st, 'fr')
        return st.ghost['fr']
    E.contracts.update(onion_response_write_headers=headers, onion_response_write=write, onion_response_flush=flush)

    def post(st, ret):
        if E.prove(st, R.bp == 0):
            E.oblige(st, 'nothing to flush', And(toint(ret) == 0, z3.BoolVal(not st.ghost)))
            return
        E.oblige(st, 'headers, data and flush all happened', st.ghost.get('f') == 1)
        E.oblige(st, 'result of the flush is reported', toint(ret) == st.ghost.get('fr', iv(1 << 40)))
    E.run(st, 'onion_response_flush', [R.p()], post)


def isp0(p):
    return isinstance(p, Ptr) and p.obj is not None and isc(S(p.off)) and cval(S(p.off)) == 0


class Log:
    """text written to the response: literal bytes and formatted arguments, in order"""

    def __init__(self, E, R):
        E.contracts['onion_response_write'] = self.write
        E.contracts['onion_response_write0'] = self.write0
        E.contracts['onion_response_printf'] = self.printf
        self.R = R
        self.known = {}        # strings the code may write in one piece: object -> length

    def text(self, E, st, name, cap=40):
        """a string of any length"""
        n = z3.Int('len_' + name)
        st.add(n >= 0, n < cap)
        o = E.cstring(st, name, n)
        self.known[o.id] = n
        return o

    def add(self, st, *items):
        st.ghost['log'] = st.ghost.get('log', ()) + items

    def lit(self, E, st, p, n=None):
        if isinstance(p, Ptr) and p.obj is not None and p.obj.const and isinstance(st.om(p.obj).bm, BMConst) and isc(S(p.off)):
            b = st.om(p.obj).bm.d[cval(S(p.off)):]
            return b.split(b'\0')[0] if n is None else b[:n]
        return None

    def write(self, E, st, a):
        n = S(toint(a[2]))
        if not isc(n):
            if isp0(a[1]) and a[1].obj.id in self.known and E.prove(st, n == self.known[a[1].obj.id]):
                return self.write0(E, st, a)
            raise Unsupported('header text of unknown length')
        b = self.lit(E, st, a[1], cval(n))
        if b is None:
            raise Unsupported('header text is not a literal')
        E.oblige(st, 'in-bounds header text', len(b) == cval(n))
        self.add(st, b)
        return n

    def write0(self, E, st, a):
        b = self.lit(E, st, a[1])
        self.add(st, b if b is not None else ('s', a[1].obj, cval(S(a[1].off))))
        return E.i32(st, 'w0')

    def printf(self, E, st, a):
        import re
        fmt = self.lit(E, st, a[1])
        if fmt is None:
            raise Unsupported('format is not a literal')
        for i, v in enumerate(a[2:]):
            # a small number chosen without branching (the minor version, say): one case for each value
            v = S(toint(v)) if not isinstance(v, (Ptr, Fn)) else iv(0)
            if not isc(v) and not E.prove(st, v == self.R.code) and E.prove(st, And(v >= 0, v < 10)):
                out = []
                for k in range(10):
                    s2 = st.copy()
                    s2.add(v == k)
                    if E.feasible(s2):
                        r = self.printf(E, s2, list(a[:2 + i]) + [iv(k)] + list(a[3 + i:]))
                        out += r if isinstance(r, list) else [(s2, r)]
                return out
        args = list(a[2:])
        for m in re.finditer(rb'%[a-z]+|[^%]+', fmt):
            t = m.group(0)
            if not t.startswith(b'%'):
                self.add(st, t)
            elif t == b'%s':
                b = self.lit(E, st, args[0])
                self.add(st, b if b is not None else ('s', args[0].obj, cval(S(args[0].off))))
                args.pop(0)
            elif t in (b'%d', b'%i', b'%u'):
                v = S(toint(args.pop(0)))
                if not isc(v) and E.prove(st, v == self.R.code):
                    v = S(self.R.code)
                self.add(st, b'%d' % cval(v) if isc(v) else ('d', v.get_id()))
            else:
                raise Unsupported('format %r' % t)
        return E.i32(st, 'pf')

    def lines(self, st):
        """the text cut into lines: list of tuples of items (literals merged)"""
        out, cur = [], []
        for x in st.ghost.get('log', ()):
            if isinstance(x, bytes):
                while b'\r\n' in x:
                    h, x = x.split(b'\r\n', 1)
                    if h:
                        cur.append(h)
                    out.append(self.merge(cur))
                    cur = []
                if x:
                    cur.append(x)
            else:
                cur.append(x)
        return out, self.merge(cur)

    @staticmethod
    def merge(items):
        r = []
        for x in items:
            if isinstance(x, bytes) and r and isinstance(r[-1], bytes):
                r[-1] += x
            else:
                r.append(x)
        return tuple(r)


@proof(['P16', 'P17', 'P23'], 'onion_response_write_headers', F)
def res_headers(E):
    """status line, framing headers, the header dict, the session cookie and the blank line, for every combination of flags"""
    c = C()
    st = init(E)
    R = Res(E, st)
    R.sess = E.newobj(st, 'sessiondict', 8, 'heap')
    hassid = z3.Bool('has_session')
    cnt, ka = z3.Ints('session_entries wants_keep_alive')
    st.add(cnt >= 0, cnt < 1000, ka >= 0, ka <= 1)
    E.contracts['onion_request_keep_alive'] = lambda E, st, a: If(has(R.rflags(st), c['OR_NO_KEEP_ALIVE']), iv(0), ka)
    E.contracts['onion_dict_count'] = lambda E, st, a: (E.oblige(st, 'counts the session', a[0].obj is R.sess), cnt)[1]
    L = Log(E, R)
    desc = L.text(E, st, 'description')
    R.sid = L.text(E, st, 'session_id')

    def description(E, st, a):
        E.oblige(st, 'describes the response code', toint(a[0]) == R.code)
        return Ptr(desc, iv(0))
    E.contracts['onion_response_code_description'] = description

    def preorder(E, st, a):
        E.oblige(st, 'writes the response headers through write_header', And(z3.BoolVal(a[0].obj is R.hdr and isinstance(a[1], Fn) and a[1].name.endswith('write_header')),
                                                                            z3.BoolVal(a[2].obj is R.o)))
        L.add(st, 'HEADERS', b'\r\n')
        return None
    E.contracts['onion_dict_preorder'] = preorder

    def flush(E, st, a):
        st.ghost['flushed'] = len(st.ghost.get('log', ()))
        E.poke(st, R.o, iv(R.f['buffer_pos'][0]), 8, iv(0))
        st.ghost['sent'] = (R.get(st, 'sent_bytes'), R.pos(st))
        return iv(0)
    E.contracts['onion_response_flush'] = flush
    E.poke(st, R.req, iv(R.r['session'][0]), 8, Ptr(R.sess, iv(0)))
    s2 = st.copy()
    E.poke(st, R.req, iv(R.r['session_id'][0]), 8, Ptr(R.sid, iv(0)))
    E.poke(s2, R.req, iv(R.r['session_id'][0]), 8, NULL)

    def known(st, b):
        if E.prove(st, b):
            return True
        if E.prove(st, Not(b)):
            return False
        raise Unsupported('header text does not depend on the flags by branching')

    def post_(sess):
        def post(st, ret):
            h11, ls, up = [known(st, has(R.rfl if n == 'OR_HTTP11' else R.fl, c[n])) for n in ('OR_HTTP11', 'OR_LENGTH_SET', 'OR_CONNECTION_UPGRADE')]
            keep = Not(has(R.rfl, c['OR_NO_KEEP_ALIVE'])) if True else None
            chunk = known(st, And(ka != 0, keep)) if h11 and not ls else False
            head = known(st, (R.rfl & bv(c['OR_METHODS'], 32)) == c['OR_HEAD'])
            want = [('HEADERS',)]
            if chunk:
                want.append((b'Transfer-Encoding: chunked',))
            if not h11 and ls:
                want.append((b'Connection: Keep-Alive',))
            if not ls and not chunk and not up:
                want.append((b'Connection: Close',))
            if up:
                want.append((b'Connection: Upgrade',))
            if sess and known(st, cnt > 0):
                want.append((b'Set-Cookie: sessionid=', ('s', R.sid, 0), b'; httponly; Path=/'))
            lines, rest = L.lines(st)
            status = (b'HTTP/1.1 ' if h11 else b'HTTP/1.0 ', ('d', S(R.code).get_id()), b' ', ('s', desc, 0))
            E.oblige(st, 'status line first: version, code, description', bool(lines) and lines[0] == status)
            E.oblige(st, 'the head ends with one blank line', len(lines) > 1 and lines[-1] == () and rest == () and () not in lines[:-1])
            E.oblige(st, 'each header line exactly once: framing, headers, session', sorted(map(repr, lines[1:-1])) == sorted(map(repr, want)))
            f, rf = R.flags(st), R.rflags(st)
            E.oblige(st, 'headers are marked as sent', And(has(f, c['OR_HEADER_SENT']), has(rf, c['OR_HEADER_SENT'])))
            E.oblige(st, 'HEAD: the head is flushed and the content skipped', z3.BoolVal(True) if not head else And(
                has(f, c['OR_SKIP_CONTENT']), toint(ret) == c['OR_SKIP_CONTENT'], z3.BoolVal(st.ghost.get('flushed') == len(st.ghost['log']))))
            E.oblige(st, 'without HEAD nothing is skipped', head or has(f, c['OR_SKIP_CONTENT']) == has(R.fl, c['OR_SKIP_CONTENT']))
            E.oblige(st, 'chunked is set exactly when announced, after the head is flushed', True if head else And(
                has(f, c['OR_CHUNKED']) == Or(z3.BoolVal(chunk), has(R.fl, c['OR_CHUNKED'])), z3.BoolVal(not chunk or st.ghost.get('flushed') == len(st.ghost['log']))))
            if not ls and not chunk and not up:
                E.oblige(st, 'announced close means close', has(rf, c['OR_NO_KEEP_ALIVE']))
            if not st.ghost.get('flushed'):
                E.oblige(st, 'the head does not count as body', (toint(R.get(st, 'sent_bytes')) + R.pos(st)) % (1 << 32) == 0)
        return post
    E.run(st, 'onion_response_write_headers', [R.p()], post_(True))
    E.run(s2, 'onion_response_write_headers', [R.p()], post_(False))


@proof(['P16', 'P17'], 'write_header', F)
def res_write_header(E):
    st = init(E)
    R = Res(E, st)
    L = Log(E, R)
    k, v = [L.text(E, st, n) for n in ('hkey', 'hvalue')]

    def post(st, ret):
        lines, rest = L.lines(st)
        E.oblige(st, 'one line: name, colon, value, CR LF', lines == [(('s', k, 0), b': ', ('s', v, 0))] and rest == ())
    E.run(st, 'write_header', [R.p(), Ptr(k, iv(0)), Ptr(v, iv(0)), iv(0)], post)


@proof('P16', 'onion_response_free', F)
def res_free(E):
    """the end of a response: everything goes out, the chunk end follows, keep alive only if the response delimits itself"""
    c = C()
    st = init(E)
    R = Res(E, st)
    ka = z3.Int('wants_keep_alive')
    st.add(ka >= 0, ka <= 1, Implies(has(R.fl, c['OR_CHUNKED']), has(R.fl, c['OR_HEADER_SENT'])))
    E.contracts['onion_request_keep_alive'] = lambda E, st, a: If(has(R.rflags(st), c['OR_NO_KEEP_ALIVE']), iv(0), ka)
    E.contracts['onion_request_get_client_description'] = lambda E, st, a: NULL
    E.opaque_globals = ('onion_request_methods',)      # only logged
    ev = lambda st, x: st.ghost.__setitem__('ev', st.ghost.get('ev', ()) + (x,))

    def set_length(E, st, a):
        E.oblige(st, 'announced length is what is buffered, before the headers', And(toint(a[1]) == R.pos(st), Not(has(R.flags(st), c['OR_HEADER_SENT']))))
        E.poke(st, R.o, iv(R.f['flags'][0]), 4, R.flags(st) | bv(c['OR_LENGTH_SET'], 32))
        E.poke(st, R.o, iv(R.f['length'][0]), 4, toint(a[1]))
        return None

    def havoc(st):
        fl, rf = z3.BitVecs('hfl!%d hrf!%d' % (uid(), uid()), 32)
        old, oldr = R.flags(st), R.rflags(st)
        st.add(fl & old == old, rf & oldr == oldr)
        return fl, rf

    def headers(E, st, a):
        E.oblige(st, 'headers are written once, before any data', And(R.pos(st) == 0, Not(has(R.flags(st), c['OR_HEADER_SENT']))))
        ev(st, 'H')
        fl, rf = havoc(st)
        st.add(has(fl, c['OR_HEADER_SENT']))
        E.poke(st, R.o, iv(R.f['flags'][0]), 4, fl)
        E.poke(st, R.req, iv(R.r['flags'][0]), 4, rf)
        E.poke(st, R.o, iv(R.f['buffer_pos'][0]), 8, E.fint('hb', st, 0, R.B))
        return E.i32(st, 'wh')

    def flush(E, st, a):
        ev(st, 'F')
        E.oblige(st, 'no data after the chunk end', R.len(st) == R.len0)
        fl, rf = havoc(st)
        st.add(Implies(R.pos(st) > 0, has(fl, c['OR_HEADER_SENT'])), Implies(R.pos(st) == 0, And(fl == R.flags(st), rf == R.rflags(st))))
        E.poke(st, R.o, iv(R.f['flags'][0]), 4, fl)
        E.poke(st, R.req, iv(R.r['flags'][0]), 4, rf)
        E.poke(st, R.o, iv(R.f['sent_bytes'][0]), 4, E.i32(st, 'sent'))
        E.poke(st, R.o, iv(R.f['buffer_pos'][0]), 8, iv(0))
        st.ghost['fin'] = (R.flags(st), R.rflags(st))
        return E.i32(st, 'fl')

    def dict_free(E, st, a):
        E.oblige(st, 'header dict released once', And(z3.BoolVal(a[0].obj is R.hdr), z3.BoolVal(not st.ghost.get('hf'))))
        st.ghost['hf'] = 1
        return None

    def conn(E, st, a):
        E.oblige(st, 'the chunk end comes after all the data', 'F' in st.ghost.get('ev', ()))
        return R.conn_write(E, st, a)
    E.contracts.update(onion_response_set_length=set_length, onion_response_write_headers=headers, onion_response_flush=flush, onion_dict_free=dict_free, vf_conn_write=conn)
    fin = {}

    def free(E, st, a):
        if a[0].obj is R.o:
            st.ghost['len'] = (toint(R.get(st, 'length')), toint(R.get(st, 'sent_bytes')), R.flags(st))
        return models.free_(E, st, a)
    E.contracts['onion_low_free'] = free
    x = z3.Int('x')
    st.add(x >= 0)
    E.skolem_list = [('out', x)]
    TXT = b'0\r\n\r\n'
    lk = 'm:outlen.0'

    def cands(ctx):
        lv = lambda c: c.q().get(lk, R.len0)
        out = [('end', lambda c: Implies(And(x >= R.len0, x < lv(c)), c.read(R.out, x) == BMConst(TXT).read(S(x - R.len0)))), ('len', lambda c: And(lv(c) >= R.len0, lv(c) <= R.len0 + 5))]
        for n, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                out.append(('left ' + n, lambda c, n=n: And(toint(c.phis[n]) >= 0, lv(c) + toint(c.phis[n]) == R.len0 + 5)))
            if isinstance(v, Ptr) and v.obj is not None:
                out.append(('at ' + n, lambda c, n=n: c.phis[n].off == lv(c) - R.len0))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        e = st.ghost.get('ev', ())
        E.oblige(st, 'pending data is flushed last, before the chunk end', bool(e) and e[-1] == 'F')
        E.oblige(st, 'header dict and response released', z3.BoolVal(st.ghost.get('hf') == 1 and not st.om(R.o).alive))
        E.oblige(st, 'headers went out', has(st.ghost['fin'][0], c['OR_HEADER_SENT']) if 'fin' in st.ghost else False)
        L = R.len(st)
        fl, rf = st.ghost['fin']
        ch = And(has(fl, c['OR_CHUNKED']), Not(has(fl, c['OR_SKIP_CONTENT'])))
        E.oblige(st, 'the chunk end is written exactly after chunked content', And(Implies(Not(ch), L == R.len0), Implies(And(ch, z3.BoolVal(not st.ghost.get('failed'))), L == R.len0 + 5),
                 Implies(And(x >= R.len0, x < L), E.read_byte(st, R.out, x) == BMConst(TXT).read(S(x - R.len0)))))
        ln, sb, f2 = st.ghost['len']
        self_del = Or(has(f2, c['OR_SKIP_CONTENT']), (ln - sb) % (1 << 32) == 0, has(f2, c['OR_CHUNKED']))
        E.oblige(st, 'keep alive exactly when the client wants it and the response delimits itself', (ret == c['OCS_KEEP_ALIVE']) == And(ka != 0, Not(has(R.rflags(st), c['OR_NO_KEEP_ALIVE'])), self_del))
        E.oblige(st, 'otherwise close', Or(ret == c['OCS_KEEP_ALIVE'], ret == c['OCS_CLOSE_CONNECTION']))
        E.oblige(st, 'a failed write closes', Or(ret == c['OCS_CLOSE_CONNECTION'], z3.BoolVal(not st.ghost.get('failed'))))
    E.run(st, 'onion_response_free', [R.p()], post)


@proof(['P16', 'P22'], 'onion_request_keep_alive', ['request.c'])
def req_keep_alive(E):
    c = C()
    st = init(E)
    R = Res(E, st)
    v = E.cstring(st, 'connhdr', z3.Int('connlen'))
    st.add(z3.Int('connlen') >= 0, z3.Int('connlen') < 1000)
    vo = v if isinstance(v, Obj) else v.obj

    def get_header(E, st, a):
        E.oblige(st, 'asks for the Connection header', (models.constbytes(E, st, a[1]) or b'').lower() == b'connection')
        s2 = st.copy()
        st.ghost['h'] = 1
        return [(st, Ptr(vo, iv(0))), (s2, NULL)]
    E.contracts['onion_request_get_header'] = get_header

    def is_(st, lit):
        return models.str_eq_const(E, st, Ptr(vo, iv(0)), lit, None, True) if st.ghost.get('h') else z3.BoolVal(False)

    def post(st, ret):
        ret = toint(ret)
        E.oblige(st, 'no keep alive when told so', Implies(has(R.rfl, c['OR_NO_KEEP_ALIVE']), ret == 0))
        if 'h' not in st.ghost and not E.prove(st, has(R.rfl, c['OR_NO_KEEP_ALIVE'])):
            E.oblige(st, 'without Connection header only HTTP/1.1 keeps alive', (ret != 0) == has(R.rfl, c['OR_HTTP11']))
        if st.ghost.get('h'):
            E.oblige(st, 'HTTP/1.1 keeps alive unless Close, HTTP/1.0 only with Keep-Alive',
                     (ret != 0) == If(has(R.rfl, c['OR_HTTP11']), Not(is_(st, b'close')), is_(st, b'keep-alive')))
    E.run(st, 'onion_request_keep_alive', [Ptr(R.req, iv(0))], post)


@proof('P17', 'onion_response_add_cookie', F, budget=200)
def res_cookie(E):
    """the cookie text handed to the headers is exactly name=value and its attributes, or the cookie is refused"""
    c = front.consts(['OC_HTTP_ONLY', 'OC_SECURE', 'OC_SAMESITE_NONE', 'OC_SAMESITE_LAX', 'OC_SAMESITE_STRICT', 'OD_DUP_VALUE', 'OD_REPLACE', 'OD_FREE_VALUE'], extra='#include <onion/dict.h>')
    st0 = init(E)
    R = Res(E, st0)
    x = z3.Int('x')
    st0.add(x >= 0)
    E.skolem_list = [(None, x)]
    val = z3.Int('validity')
    st0.add(val >= -1, val < (1 << 40))
    fl = z3.BitVec('cflags', 32)
    strs = {}
    for nm in ('name', 'value', 'path', 'domain'):
        n = z3.Int('len_' + nm)
        st0.add(n >= 0, n < (1 << 20))
        o = E.newobj(st0, nm, n + 1, 'input', const=True)
        o.cstr = n
        st0.add(st0.om(o).bm.read(n) == 0)
        st0.strfacts.append((o, st0.om(o).bm, iv(0), n))
        strs[nm] = (o, n, st0.om(o).bm)
    tt = {}

    def strftime(E, st, a):
        r = models.strftime_(E, st, a)
        if isinstance(r, list):
            s1, L = r[0]
            s1.ghost['exp'] = (L, s1.om(a[0].obj).bm, a[0].off)
        return r
    E.contracts['strftime'] = strftime

    def dict_add(E, st, a):
        d, k, v, f = a
        E.oblige(st, 'goes to the response headers as Set-Cookie', And(z3.BoolVal(d.obj is R.hdr), z3.BoolVal(models.constbytes(E, st, k) == b'Set-Cookie')))
        f = tobv(f, 32)
        E.oblige(st, 'copied, and other cookies stay', And(f & bv(c['OD_DUP_VALUE'], 32) == c['OD_DUP_VALUE'], f & bv(c['OD_REPLACE'], 32) == 0))
        L = models.cstrlen(E, st, v)
        st.ghost['added'] = (L, E.read_byte(st, v.obj, S(v.off + x)), st.ghost.get('n', 0) + 1)
        return None
    E.contracts['onion_dict_add'] = dict_add

    def known(st, b):
        if E.prove(st, b):
            return True
        if E.prove(st, Not(b)):
            return False
        raise Unsupported('cookie text does not depend on the flags by branching')

    def post_(haspath, hasdom):
        def post(st, ret):
            r = ret if z3.is_bool(ret) else toint(ret) != 0
            refused = E.prove(st, Not(r))
            exp = st.ghost.get('exp')
            lit = lambda t: (iv(len(t)), BMConst(t + b'\0').read)
            sp = [(strs['name'][1], strs['name'][2].read), lit(b'='), (strs['value'][1], strs['value'][2].read)]
            if known(st, val == 0):
                sp.append(lit(b'; expires=Thu, 01 Jan 1970 00:00:00 GMT'))
            elif known(st, val > 0):
                if exp is None:
                    E.oblige(st, 'a cookie whose expiry cannot be expressed is refused', And(Not(r), z3.BoolVal('added' not in st.ghost)))
                    return
                sp += [lit(b'; expires='), (exp[0], lambda i: exp[1].read(S(i + exp[2])))]
            if haspath:
                sp += [lit(b'; path='), (strs['path'][1], strs['path'][2].read)]
            if hasdom:
                sp += [lit(b'; domain='), (strs['domain'][1], strs['domain'][2].read)]
            if known(st, (fl & bv(c['OC_HTTP_ONLY'], 32)) != 0):
                sp.append(lit(b'; HttpOnly'))
            if known(st, (fl & bv(c['OC_SECURE'], 32)) != 0):
                sp.append(lit(b'; Secure'))
            m = fl & bv(c['OC_SAMESITE_NONE'] | c['OC_SAMESITE_LAX'] | c['OC_SAMESITE_STRICT'], 32)
            for n, t in (('NONE', b'None'), ('LAX', b'Lax'), ('STRICT', b'Strict')):
                if known(st, m == c['OC_SAMESITE_' + n]):
                    sp.append(lit(b'; SameSite=' + t))
            tot = iv(0)
            spans = []
            for n, f in sp:
                spans.append((tot, n, f))
                tot = S(tot + n)

            def want(i):
                r_ = bv(0, 8)
                for lo, n, f in reversed(spans):
                    r_ = If(And(i >= lo, i < lo + n), f(S(i - lo)), r_)
                return r_
            E.oblige(st, 'added exactly when it fits', r == (tot < 4096))
            a = st.ghost.get('added')
            E.oblige(st, 'reports whether it was added', r == z3.BoolVal(a is not None))
            if a is not None:
                L, b, k = a
                E.oblige(st, 'one header with the whole text', And(L == tot, k == 1))
                E.oblige(st, 'the text is name=value and its attributes, in order', Implies(x < tot, b == want(x)))
        return post
    for hp in (True, False):
        for hd in (True, False):
            st = st0.copy()
            E.run(st, 'onion_response_add_cookie', [R.p(), Ptr(strs['name'][0], iv(0)), Ptr(strs['value'][0], iv(0)), val,
                  Ptr(strs['path'][0], iv(0)) if hp else NULL, Ptr(strs['domain'][0], iv(0)) if hd else NULL, fl], post_(hp, hd))


@proof('P17', 'onion_response_set_header', F)
def res_set_header(E):
    c = front.consts(['OD_DUP_VALUE', 'OD_DUP_KEY', 'OD_REPLACE', 'OD_FREE_VALUE', 'OD_DUP_ALL', 'OD_DICT'], extra='#include <onion/dict.h>')
    st = init(E)
    R = Res(E, st)
    k, v = [E.newobj(st, n, 16, 'input', const=True) for n in ('hkey', 'hvalue')]

    def dict_add(E, st, a):
        E.oblige(st, 'name and value go to the headers', a[0].obj is R.hdr and a[1].obj is k and a[2].obj is v)
        f = tobv(a[3], 32)
        E.oblige(st, 'both are copied and an earlier value is replaced', And(f & bv(c['OD_DUP_ALL'] | c['OD_REPLACE'], 32) == bv(c['OD_DUP_ALL'] | c['OD_REPLACE'], 32), f & bv(c['OD_DICT'], 32) == 0))
        st.ghost['n'] = st.ghost.get('n', 0) + 1
        return None
    E.contracts['onion_dict_add'] = dict_add

    def post(st, ret):
        E.oblige(st, 'set exactly once', st.ghost.get('n') == 1)
    E.run(st, 'onion_response_set_header', [R.p(), Ptr(k, iv(0)), Ptr(v, iv(0))], post)


@proof('P16', 'onion_response_set_length', F)
def res_set_length(E):
    """the announced length is the decimal text of the length, for every length"""
    c = C()
    st = init(E)
    R = Res(E, st)
    n, x = z3.Ints('n x')
    st.add(n >= 0, n < (1 << 63), x >= 0)
    E.skolem_list = [(None, x)]
    nd, dig = models._digits(n, 10, 20)

    def set_header(E, st, a):
        E.oblige(st, 'sets Content-Length', models.constbytes(E, st, a[1]) == b'Content-Length')
        L = models.cstrlen(E, st, a[2])
        b = E.read_byte(st, a[2].obj, S(a[2].off + x))
        E.oblige(st, 'decimal text of the length', And(L == nd, Implies(x < nd, b == dig(x))))
        st.ghost['n'] = st.ghost.get('n', 0) + 1
        return None
    E.contracts['onion_response_set_header'] = set_header

    def post(st, ret):
        sent = has(R.fl, c['OR_HEADER_SENT'])
        if st.ghost.get('n'):
            E.oblige(st, 'length is remembered and marked', And((toint(R.get(st, 'length')) - n) % (1 << 32) == 0, has(R.flags(st), c['OR_LENGTH_SET'])))
        else:
            E.oblige(st, 'ignored only after the headers went out, with nothing changed', And(sent, R.flags(st) == R.fl, toint(R.get(st, 'length')) == R.length))
    E.run(st, 'onion_response_set_length', [R.p(), n], post)
