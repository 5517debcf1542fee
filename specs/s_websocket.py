"""Contracts of src/onion/websocket.c: frames out and frames in, over a connection that may split or fail any read or write"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
F = ['websocket.c']
WS_FIN, WS_MASK, WS_PING = 1, 2, 4
CLOSE, PING, PONG = 8, 9, 10     # RFC 6455


def C():
    return front.consts(['OCS_CLOSE_CONNECTION', 'OCS_NEED_MORE_DATA'])


class Ws:
    """a websocket in any state; ghosts: `out` (bytes sent so far), `in` (all the bytes the peer sends) with position `inpos`"""

    def __init__(self, E, st):
        E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
        f = self.f = front.offsets('struct onion_websocket_t', ['callback', 'user_data', 'req', 'data_left', 'mask', 'mask_pos', 'flags'])
        f['opcode'] = (f['flags'][0] + 1, 1)     # 4 bit field in the byte after flags
        r = front.offsets('struct onion_request_t', ['connection.listen_point'])
        lpf = front.offsets('struct onion_listen_point_t', ['write', 'read'])
        self.E = E
        E.auto_unroll = 16
        self.len0, self.pos0, self.left, self.mp, self.total = z3.Ints('outlen inpos data_left mask_pos total')
        self.fl, self.op = z3.BitVecs('wsflags opcode', 8)
        st.add(self.len0 >= 0, self.len0 < (1 << 60), self.pos0 >= 0, self.pos0 < (1 << 60), self.left >= 0, self.left < (1 << 63), self.mp >= -128, self.mp < 128)
        self.lp = E.newobj(st, 'lp', lpf[''][1], 'input')
        E.poke(st, self.lp, iv(lpf['write'][0]), 8, Fn('vf_conn_write'))
        E.poke(st, self.lp, iv(lpf['read'][0]), 8, Fn('vf_conn_read'))
        self.req = E.newobj(st, 'req', r[''][1], 'input')
        E.poke(st, self.req, iv(r['connection.listen_point'][0]), 8, Ptr(self.lp, iv(0)))
        self.o = E.newobj(st, 'ws', f[''][1], 'heap')
        for n, v in (('req', Ptr(self.req, iv(0))), ('data_left', self.left), ('mask_pos', self.mp), ('callback', Fn('vf_callback'))):
            E.poke(st, self.o, iv(f[n][0]), f[n][1], v)
        self.mask0 = lambda k, bm=st.om(self.o).bm: bm.read(S(k + f['mask'][0]))
        self.flags0 = st.om(self.o).bm.read(iv(f['flags'][0]))
        self.op0 = st.om(self.o).bm.read(iv(f['opcode'][0]))
        self.out = E.newobj(st, 'out', iv(1 << 62), 'ghost')
        self.l = E.newobj(st, 'outlen', 8, 'ghost')
        E.poke(st, self.l, iv(0), 8, self.len0)
        self.out0 = st.om(self.out).bm
        self.inp = E.newobj(st, 'in', iv(1 << 62), 'ghost', const=True)
        self.IN = st.om(self.inp).bm
        self.ip = E.newobj(st, 'inpos', 8, 'ghost')
        E.poke(st, self.ip, iv(0), 8, self.pos0)
        E.contracts['vf_conn_write'] = self.conn_write
        E.contracts['vf_conn_read'] = self.conn_read

    def p(self):
        return Ptr(self.o, iv(0))

    def get(self, st, n, w=64):
        return toint(self.E.load(st, Ptr(self.o, iv(self.f[n][0])), ir.I[w], None))

    def b(self, st, n, k=0):
        return tobv(self.E.load(st, Ptr(self.o, iv(self.f[n][0] + k)), ir.I[8], None), 8)

    def len(self, st):
        return toint(self.E.load(st, Ptr(self.l, iv(0)), ir.I[64], None))

    def pos(self, st):
        return toint(self.E.load(st, Ptr(self.ip, iv(0)), ir.I[64], None))

    def append(self, st, p, k):
        E = self.E
        L = self.len(st)
        E.flush_range(st, p, k)
        sb, po = st.om(p.obj).bm, p.off
        for q in E.skolems(st, self.out):
            E.pointwise(st, p.obj, S(q - L + po))
        E.store_range(st, self.out, L, k, lambda i: sb.read(S(i - L + po)))
        E.poke(st, self.l, iv(0), 8, S(L + k))

    def conn_write(self, E, st, a):
        """sends some of the bytes (at least one), or fails"""
        rq, p, n = a
        n = toint(n)
        E.oblige(st, 'writes to its own connection', rq.obj is self.req)
        E.oblige(st, 'no empty write', n > 0)
        if not E.access(st, p, n, False, None):
            return [(st, n)]
        s2 = st.copy()
        k = E.fint('sent', st, 1)
        st.add(k <= n)
        self.append(st, p, k)
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad <= 0)
        s2.ghost['failed'] = True
        return [(st, k), (s2, bad)]

    def conn_read(self, E, st, a):
        """gives some of the next bytes of the stream (at least one), or fails"""
        rq, p, n = a
        n = toint(n)
        E.oblige(st, 'reads from its own connection', rq.obj is self.req)
        E.oblige(st, 'no empty read', n > 0)
        if not E.access(st, p, n, True, None):
            return [(st, n)]
        s2 = st.copy()
        k = E.fint('got', st, 1)
        st.add(k <= n)
        P = self.pos(st)
        po = p.off
        E.flush_range(st, p, k)
        E.store_range(st, p.obj, po, k, lambda i: self.IN.read(S(i - po + P)))
        E.poke(st, self.ip, iv(0), 8, S(P + k))
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad <= 0)
        s2.ghost['rfailed'] = True
        return [(st, k), (s2, bad)]


def size(name):
    """an integer in 0..2^31-1 known to the engine as bits, too"""
    b = z3.BitVec(name, 31)
    n = z3.BV2Int(b)
    BITS[n.get_id()] = INT2BV[n.get_id()] = (n, z3.ZeroExt(33, b))
    return n


def frame_len(n):
    return If(n < 126, 2, If(n <= 0xFFFF, 4, 10))


def frame_byte(op, n, d):
    """byte d of the header of a final unmasked frame of n bytes"""
    if n.get_id() in BITS:
        N = BITS[n.get_id()][1]
        be = lambda k: z3.Extract(8 * k + 7, 8 * k, N)
    else:
        be = lambda k: z3.Int2BV(n / (1 << (8 * k)), 8)
    r = bv(0, 8)
    for k in range(8):
        r = If(d == 9 - k, be(k), r)
    return If(d == 0, bv(0x80, 8) | (op & 15), If(d == 1, If(n < 126, be(0), If(n <= 0xFFFF, bv(126, 8), bv(127, 8))), If(n <= 0xFFFF, If(d == 2, be(1), be(0)), r)))


@proof('P18', 'onion_websocket_write', F)
def ws_write(E):
    """one final unmasked frame with the exact length in the shortest form goes out, whatever the short writes; on failure a prefix of it"""
    st = State()
    W = Ws(E, st)
    n, x = size('n'), z3.Int('x')
    st.add(x >= 0)
    d = E.newobj(st, 'data', n, 'input', const=True)
    D = st.om(d).bm
    E.skolem_list = [('out', x)]
    H = frame_len(n)

    def want(k):
        q = k - W.len0
        return If(q < 0, W.out0.read(k), If(q < H, frame_byte(W.op0, n, q), D.read(q - H)))
    lk = 'm:outlen.0'

    def cands(ctx):
        out = []
        lv = lambda c: c.q().get(lk, W.len0)
        out.append(('sent', lambda c: Implies(x < lv(c), c.read(W.out, x) == want(x))))
        out.append(('len', lambda c: And(lv(c) >= W.len0, lv(c) <= W.len0 + H + n)))
        for m, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                g = lambda c, m=m: toint(c.phis[m])
                for nm, base in (('head', H), ('all', H + n)):
                    out.append(('left %s %s' % (m, nm), lambda c, g=g, base=base: And(g(c) >= 0, lv(c) + g(c) == W.len0 + base)))
                out.append(('done %s' % m, lambda c, g=g: And(g(c) >= 0, lv(c) == W.len0 + g(c))))
                out.append(('donebody %s' % m, lambda c, g=g: And(g(c) >= 0, lv(c) == W.len0 + H + g(c))))
            if isinstance(v, Ptr) and v.obj is not None:
                for nm, base in (('head', iv(0)), ('body', H)):
                    out.append(('at %s %s' % (m, nm), lambda c, m=m, base=base: c.phis[m].off == lv(c) - W.len0 - base))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        L = W.len(st)
        E.oblige(st, 'what went out is a prefix of the frame', And(L >= W.len0, L <= W.len0 + H + n, Implies(x < L, E.read_byte(st, W.out, x) == want(x))))
        E.oblige(st, 'the length written, or an error', Or(ret == n, ret < 0))
        E.oblige(st, 'success means the whole frame went out', Implies(ret >= 0, L == W.len0 + H + n))
        E.oblige(st, 'an error only if the connection failed', Implies(ret < 0, z3.BoolVal(bool(st.ghost.get('failed')))))
        E.oblige(st, 'the websocket is otherwise unchanged', And(W.get(st, 'data_left') == W.left, W.b(st, 'opcode') == W.op0, W.b(st, 'flags') == W.flags0))
    E.run(st, 'onion_websocket_write', [W.p(), Ptr(d, iv(0)), n], post)


def reads(E, W):
    """invariants of the loops that gather a few bytes from the connection: what was stored is what the stream holds"""
    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr) and v.obj is not None and v.obj is not W.inp:
                for j in range(8):
                    def f(c, m=m, j=j, o=v.obj):
                        p, e = c.phis[m], c.entry.phis[m]
                        return Implies(p.off - e.off > j, c.st.om(o).bm.read(S(e.off + j)) == W.IN.read(S(W.pos(c.entry.st) + j)))
                    out.append(('got %s %d' % (m, j), f))
        return out
    return cands


@proof('P18', 'onion_websocket_read_all', F)
def ws_read_all(E):
    """exactly len bytes of the stream land in the buffer, or an error is reported"""
    st = State()
    W = Ws(E, st)
    n, x = z3.Ints('n x')
    st.add(n >= 0, n <= 8, x >= 0, x < n)
    d = E.newobj(st, 'tmp', iv(8), 'heap')
    E.cand_hooks = [reads(E, W)]

    def post(st, ret):
        ret = toint(ret)
        E.oblige(st, 'all the bytes, in order', Implies(ret >= 0, And(W.pos(st) == W.pos0 + n, E.read_byte(st, d, x) == W.IN.read(W.pos0 + x))))
        E.oblige(st, 'an error only if the connection ended', Implies(ret < 0, z3.BoolVal(bool(st.ghost.get('rfailed')))))
    E.run(st, 'onion_websocket_read_all', [W.p(), Ptr(d, iv(0)), n], post)


def low2(b):
    """value of the two low bits of a byte"""
    e = z3.Extract(1, 0, b)
    return If(e == 0, iv(0), If(e == 1, iv(1), If(e == 2, iv(2), iv(3))))


def sel4(bs, k):
    k = k % 4
    return If(k == 0, bs[0], If(k == 1, bs[1], If(k == 2, bs[2], bs[3])))


def write_contract(W):
    """onion_websocket_write as proved by ws_write"""
    def f(E, st, a):
        w, p, n = a
        n = toint(n)
        E.oblige(st, 'this websocket', And(z3.BoolVal(w.obj is W.o), w.off == 0))
        if not E.access(st, p, n, False, None):
            return [(st, n)]
        s2 = st.copy()
        L = W.len(st)
        H = frame_len(n)
        E.flush_range(st, p, n)
        sb, po, op = st.om(p.obj).bm, p.off, W.b(st, 'opcode')
        for q in E.skolems(st, W.out):
            E.pointwise(st, p.obj, S(q - L - H + po))
        E.store_range(st, W.out, L, S(H + n), lambda i: If(i - L < H, frame_byte(op, n, i - L), sb.read(S(i - L - H + po))))
        E.poke(st, W.l, iv(0), 8, S(L + H + n))
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad < 0)
        s2.ghost['failed'] = True
        return [(st, n), (s2, bad)]
    return f


def read_contract(W):
    """onion_websocket_read as proved by ws_read, for a request within the current frame"""
    def f(E, st, a):
        w, p, n = a
        n = toint(n)
        left, mp = W.get(st, 'data_left'), low2(W.b(st, 'mask_pos'))
        E.oblige(st, 'this websocket', And(z3.BoolVal(w.obj is W.o), w.off == 0))
        E.oblige(st, 'within the current frame', And(n > 0, n <= left))
        if not E.access(st, p, n, True, None):
            return [(st, n)]
        s2 = st.copy()
        k = E.fint('got', st, 1)
        st.add(k <= n)
        P, po = W.pos(st), p.off
        masked = (W.b(st, 'flags') & WS_MASK) != 0
        M = [W.b(st, 'mask', i) for i in range(4)]
        E.flush_range(st, p, k)
        E.store_range(st, p.obj, po, k, lambda i: W.IN.read(S(i - po + P)) ^ If(masked, sel4(M, mp + i - po), bv(0, 8)))
        E.poke(st, W.ip, iv(0), 8, S(P + k))
        E.poke(st, W.o, iv(W.f['data_left'][0]), 8, S(left - k))
        mp2 = z3.BitVec('mp%d' % uid(), 8)
        st.add(Implies(masked, low2(mp2) == (mp + k) % 4))
        E.poke(st, W.o, iv(W.f['mask_pos'][0]), 1, mp2)
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad <= 0)
        s2.ghost['rfailed'] = True
        return [(st, k), (s2, bad)]
    return f


@proof('P18', 'onion_websocket_read_packet_header', F, budget=300)
def ws_header(E):
    """every frame header is decoded exactly; pings are answered with their data, a close with its status; after an error no data is pending"""
    c = C()
    st = State()
    W = Ws(E, st)
    x = z3.Int('x')
    st.add(W.left == 0, x >= 0)
    E.skolem_list = [('out', x)]
    E.contracts['onion_websocket_write'] = write_contract(W)
    E.contracts['onion_websocket_read'] = read_contract(W)
    at = lambda k: W.IN.read(W.pos0 + k)
    b0, b1 = at(0), at(1)
    masked = (b1 & 0x80) != 0
    l7 = b1 & 0x7F
    ext = If(l7 == 126, 2, If(l7 == 127, 8, 0))
    hl = 2 + ext + If(masked, 4, 0)
    z = lambda b: z3.ZeroExt(56, b)
    ln = If(l7 == 126, z3.Concat(bv(0, 48), at(2), at(3)), If(l7 == 127, z3.Concat(*[at(2 + k) for k in range(8)]), z(l7)))
    n = If(l7 == 126, z3.BV2Int(at(2)) * 256 + z3.BV2Int(at(3)), If(l7 == 127, z3.BV2Int(z3.Concat(*[at(2 + k) for k in range(8)])), z3.BV2Int(l7)))
    op = b0 & 15
    M = [If(masked, at(2 + ext + k), bv(0, 8)) for k in range(4)]
    pay = lambda k: at(hl + k) ^ sel4(M, k)

    def cands(ctx):
        out = []
        for nm, k in [('flags', 0), ('opcode', 0)] + [('mask', j) for j in range(4)]:
            out.append(('%s %d kept' % (nm, k), lambda c, nm=nm, k=k: W.b(c.st, nm, k) == W.b(c.entry.st, nm, k)))
        for m, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                g = lambda c, m=m: toint(c.phis[m])
                out.append(('left %s' % m, lambda c, g=g: And(g(c) >= 0, g(c) <= n, W.get(c.st, 'data_left') == n - g(c), W.pos(c.st) == W.pos0 + hl + g(c))))
                out.append(('mask %s' % m, lambda c, g=g: Implies(masked, low2(W.b(c.st, 'mask_pos')) == g(c) % 4)))
                for o in ctx.st.named('onion_websocket_read_packet_header.data'):
                    out.append(('payload %s' % m, pointwise(ctx.key, o, lambda c, q, g=g, o=o: Implies(And(q >= 0, q < g(c)), c.st.om(o).bm.read(q) == pay(q)))))
        return out
    E.cand_hooks = [reads(E, W), cands]

    def post(st, ret):
        ret = toint(ret)
        L = W.len(st)
        lraw = E.load(st, Ptr(W.o, iv(W.f['data_left'][0])), ir.I[64], None)
        left = toint(lraw)
        ok = ret >= 0
        ping, close = op == PING, op == CLOSE
        sent = z3.BoolVal(not st.ghost.get('failed'))
        got = z3.BoolVal(not st.ghost.get('rfailed'))
        E.oblige(st, 'the header is never accepted without its bytes', Implies(ok, got))
        E.oblige(st, 'after an error nothing is pending', Implies(Not(ok), left == 0))
        E.oblige(st, 'a length of 63 bits at most is pending', left >= 0)
        data = And(Not(ping), Not(close))
        E.oblige(st, 'frame length', Implies(And(ok, data), And(lraw == ln if z3.is_bv(lraw) else left == n, W.pos(st) == W.pos0 + hl)))
        E.oblige(st, 'opcode, final and mask flags', Implies(And(ok, data), And(W.b(st, 'opcode') & 15 == op, W.b(st, 'flags') == (If((b0 & 0x80) != 0, bv(WS_FIN, 8), bv(0, 8)) | If(masked, bv(WS_MASK, 8), bv(0, 8))))))
        E.oblige(st, 'mask', Implies(And(ok, data, masked), And(W.b(st, 'mask_pos') == 0, *[W.b(st, 'mask', k) == M[k] for k in range(4)])))
        E.oblige(st, 'nothing is sent for data', Implies(data, L == W.len0))
        E.oblige(st, 'a complete header of a data frame is accepted', Implies(And(got, data, n < (1 << 63)), ok))
        E.oblige(st, 'a ping is consumed', Implies(And(ok, ping), And(left == 0, W.pos(st) == W.pos0 + hl + n, n <= 125, (W.b(st, 'flags') & WS_PING) != 0)))
        E.oblige(st, 'a ping leaves the opcode', Implies(And(ok, ping), W.b(st, 'opcode') & 15 == W.op0 & 15))
        E.oblige(st, 'a ping of up to 125 bytes is answered', Implies(And(got, ping, n <= 125), And(ok, Implies(sent, L == W.len0 + 2 + n))))
        E.oblige(st, 'a longer ping is refused', Implies(And(ping, n > 125), And(Not(ok), L == W.len0)))
        E.oblige(st, 'a close ends the connection', Implies(close, Not(ok)))
        cn = If(n < 2, 0, 2)
        E.oblige(st, 'a close is answered', Implies(And(got, close, sent, n < (1 << 63)), L == W.len0 + 2 + cn))
        q = x - W.len0
        o = E.read_byte(st, W.out, x)
        E.oblige(st, 'the answer is a final frame with the same data', Implies(And(x >= W.len0, x < L), o == If(
            q == 0, If(ping, bv(0x80 | PONG, 8), bv(0x80 | CLOSE, 8)), If(q == 1, If(ping, z3.Extract(7, 0, ln), z3.Int2BV(cn, 8)), pay(q - 2)))))
        E.oblige(st, 'what was sent before is kept', Implies(x < W.len0, o == W.out0.read(x)))
    E.run(st, 'onion_websocket_read_packet_header', [W.p()], post)


@proof('P18', 'onion_websocket_read', F)
def ws_read(E):
    """whatever the frames and the short reads, the bytes delivered are exactly the unmasked payload bytes taken from the stream, in order"""
    st = State()
    W = Ws(E, st)
    n, x, alen0, cm0 = z3.Ints('n x applen consumed')
    st.add(n >= 0, n < (1 << 31), x >= 0, alen0 >= 0, alen0 < (1 << 60), cm0 >= 0, cm0 < 4)
    masked = lambda s: (W.b(s, 'flags') & WS_MASK) != 0
    st.add(Implies(masked(st), low2(W.b(st, 'mask_pos')) == cm0))
    d = E.newobj(st, 'buffer', n, 'heap')
    app = E.newobj(st, 'app', iv(1 << 62), 'ghost')       # payload taken from the stream so far, unmasked
    al = E.newobj(st, 'applen', 8, 'ghost')
    cm = E.newobj(st, 'cm', 8, 'ghost')                   # payload bytes of this frame taken, modulo 4
    fl = E.newobj(st, 'frameleft', 8, 'ghost')            # payload bytes of this frame not yet taken
    E.poke(st, al, iv(0), 8, alen0)
    E.poke(st, cm, iv(0), 8, cm0)
    E.poke(st, fl, iv(0), 8, W.left)
    g = lambda s, o: toint(E.load(s, Ptr(o, iv(0)), ir.I[64], None))
    st.add(x < n)
    E.skolem_list = [('app', alen0 + x), ('buffer', x)]

    def conn_read(E, st, a):
        rq, p, k = a
        k = toint(k)
        E.oblige(st, 'no empty read', k > 0)
        E.oblige(st, 'never reads past the frame', k <= g(st, fl))
        if not E.access(st, p, k, True, None):
            return [(st, k)]
        s2 = st.copy()
        r = E.fint('got', st, 1)
        st.add(r <= k, W.pos(st) + r <= (1 << 61))
        P, po, A, m0 = W.pos(st), p.off, g(st, al), g(st, cm)
        M = [If(masked(st), W.b(st, 'mask', j), bv(0, 8)) for j in range(4)]
        E.flush_range(st, p, r)
        E.store_range(st, p.obj, po, r, lambda i: W.IN.read(S(i - po + P)))
        E.store_range(st, app, A, r, lambda i: W.IN.read(S(i - A + P)) ^ sel4(M, m0 + i - A))
        E.poke(st, W.ip, iv(0), 8, S(P + r))
        E.poke(st, al, iv(0), 8, S(A + r))
        E.poke(st, cm, iv(0), 8, S((m0 + r) % 4))
        E.poke(st, fl, iv(0), 8, S(g(st, fl) - r))
        bad = E.fint('err', s2, -(1 << 31))
        s2.add(bad <= 0)
        s2.ghost['rfailed'] = True
        return [(st, r), (s2, bad)]
    E.contracts['vf_conn_read'] = conn_read

    def header(E, st, a):
        """onion_websocket_read_packet_header as proved by ws_header"""
        E.oblige(st, 'this websocket', And(z3.BoolVal(a[0].obj is W.o), a[0].off == 0))
        E.oblige(st, 'the previous frame is used up', And(W.get(st, 'data_left') == 0, g(st, fl) == 0))
        s2 = st.copy()
        f = W.f
        left = E.fint('left', st, 0, (1 << 63) - 1)
        for nm, k in [('flags', 0), ('opcode', 0), ('mask_pos', 0)] + [('mask', j) for j in range(4)]:
            for s in (st, s2):
                E.poke(s, W.o, iv(f[nm][0] + k), 1, z3.BitVec('hdr%d' % uid(), 8))
        st.add(Implies(masked(st), W.b(st, 'mask_pos') == 0))
        E.poke(st, W.o, iv(f['data_left'][0]), 8, left)
        E.poke(st, fl, iv(0), 8, left)
        E.poke(st, cm, iv(0), 8, iv(0))
        E.poke(s2, W.o, iv(f['data_left'][0]), 8, iv(0))
        P = W.pos(st)
        q = E.fint('pos', st)
        st.add(q > P, q <= (1 << 61))
        E.poke(st, W.ip, iv(0), 8, q)
        bad = E.fint('err', s2, -(1 << 31), -1)
        s2.ghost['rfailed'] = True
        return [(st, iv(1)), (s2, bad)]
    E.contracts['onion_websocket_read_packet_header'] = header
    E.measure_terms = [('rest of the stream', lambda c: (1 << 61) - W.pos(c.st))]
    tot = lambda c: g(c.st, al) - alen0
    buf = lambda c, m: c.st.om(d).bm.read(m)
    ap = lambda c, m: c.st.om(app).bm.read(S(alen0 + m))

    def cands(ctx):
        out = []
        out.append(('delivered', lambda c: Implies(x < tot(c), buf(c, x) == ap(c, x))))
        out.append(('total', lambda c: And(tot(c) >= 0, tot(c) <= n)))
        out.append(('frame', lambda c: And(W.get(c.st, 'data_left') == g(c.st, fl), g(c.st, fl) >= 0)))
        out.append(('cm', lambda c: And(g(c.st, cm) >= 0, g(c.st, cm) < 4)))
        out.append(('mask', lambda c: Implies(masked(c.st), low2(W.b(c.st, 'mask_pos')) == g(c.st, cm))))
        for nm, k in [('flags', 0)] + [('mask', j) for j in range(4)]:
            out.append(('%s %d kept' % (nm, k), lambda c, nm=nm, k=k: W.b(c.st, nm, k) == W.b(c.entry.st, nm, k)))
        for m, v in ctx.phis.items():
            D = None
            if isinstance(v, Ptr) and v.obj is d:
                D = lambda c, m=m: c.phis[m].off
            elif not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                D = lambda c, m=m: toint(c.phis[m])
                out.append(('rest ' + m, lambda c, D=D: tot(c) + D(c) == n))
            if D is None:
                continue
            out.append(('at ' + m, lambda c, D=D: D(c) == tot(c)))
            mk = lambda c: [W.b(c.st, 'mask', j) for j in range(4)]
            out.append(('unmasked up to ' + m, lambda c, D=D: Implies(x < D(c), buf(c, x) == ap(c, x))))
            out.append(('masked from ' + m, lambda c, D=D: Implies(And(x >= D(c), x < tot(c)), buf(c, x) ^ sel4(mk(c), low2(W.b(c.st, 'mask_pos')) + x - D(c)) == ap(c, x))))
            out.append(('mask index ' + m, lambda c, D=D: (low2(W.b(c.st, 'mask_pos')) + tot(c) - D(c) - g(c.st, cm)) % 4 == 0))
            out.append(('within ' + m, lambda c, D=D: D(c) <= tot(c)))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        t = g(st, al) - alen0
        E.oblige(st, 'no more than asked', ret <= n)
        E.oblige(st, 'every payload byte taken from the stream is delivered', If(ret > 0, t == ret, t == 0))
        E.oblige(st, 'the bytes delivered are the unmasked payload', Implies(And(ret > 0, x < ret), E.read_byte(st, d, x) == E.read_byte(st, app, S(alen0 + x))))
        E.oblige(st, 'what is left of the frame is known', W.get(st, 'data_left') == g(st, fl))
        E.oblige(st, 'the mask goes on where it was', Implies(And(masked(st), g(st, fl) > 0), low2(W.b(st, 'mask_pos')) == g(st, cm)))
        E.oblige(st, 'nothing read only if the connection ended', Implies(And(n > 0, ret <= 0), z3.BoolVal(bool(st.ghost.get('rfailed')))))
    E.run(st, 'onion_websocket_read', [W.p(), Ptr(d, iv(0)), n], post)


MAGIC = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'     # RFC 6455


@proof('P18', 'onion_websocket_new', F)
def ws_new(E):
    """the handshake: a request to upgrade with key and version 13 is answered 101 with the digest of its key and the magic, and only such a request"""
    c = front.consts(['OR_CONNECTION_UPGRADE', 'OR_LENGTH_SET', 'OR_HEADER_SENT', 'HTTP_SWITCH_PROTOCOL', 'OWS_TEXT'])
    st = State()
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.auto_unroll = 0
    f = front.offsets('struct onion_websocket_t', ['callback', 'user_data', 'free_user_data', 'req', 'data_left', 'mask', 'mask_pos', 'flags'])
    f['opcode'] = (f['flags'][0] + 1, 1)
    r = front.offsets('struct onion_request_t', ['websocket', 'data'])
    rs = front.offsets('struct onion_response_t', ['request', 'code', 'flags'])
    req = E.newobj(st, 'req', r[''][1], 'input')
    res = E.newobj(st, 'res', rs[''][1], 'input')
    udata = E.newobj(st, 'userdata', 8, 'input')
    E.poke(st, req, iv(r['data'][0]), 8, Ptr(udata, iv(0)))
    E.poke(st, req, iv(r['websocket'][0]), 8, NULL)
    E.poke(st, res, iv(rs['request'][0]), 8, Ptr(req, iv(0)))
    fl0, kn, x, ver = z3.BitVec('resflags', 32), z3.Int('keylen'), z3.Int('x'), z3.BitVec('version', 32)
    st.add(fl0 & c['OR_HEADER_SENT'] == 0, kn >= 0, kn < (1 << 20), x >= 0, x < kn + len(MAGIC))
    E.poke(st, res, iv(rs['flags'][0]), 4, fl0)
    H = {b'upgrade': E.cstring(st, 'upgrade', E.fint('upgradelen', st, 0, 1 << 20)), b'sec-websocket-key': E.cstring(st, 'key', kn),
         b'sec-websocket-protocol': E.cstring(st, 'protocol', E.fint('protocollen', st, 0, 1 << 20)), b'sec-websocket-version': E.cstring(st, 'wsversion', E.fint('versionlen', st, 0, 1 << 20))}
    key = H[b'sec-websocket-key']
    E.skolem_list = [(None, x)]
    has = {k: z3.Bool('has ' + k.decode()) for k in H}
    nocase = models.str_eq_const(E, st, Ptr(H[b'upgrade'], iv(0)), b'websocket', nocase=True)

    def header(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'?').lower()
        if k not in H:
            s2 = s.copy()
            return [(s, Ptr(E.cstring(s, 'other', E.fint('otherlen', s, 0, 1 << 20)), iv(0))), (s2, NULL)]
        s2 = s.copy()
        s.add(has[k])
        s2.add(Not(has[k]))
        return [(s, Ptr(H[k], iv(0))), (s2, NULL)]

    def atoi(E, s, a):
        if isinstance(a[0], Ptr) and a[0].obj is H[b'sec-websocket-version'] and isc(S(a[0].off)) and cval(S(a[0].off)) == 0:
            return ver
        return E.i32(s, 'atoi')

    digest = z3.Function('digest', z3.IntSort(), z3.BitVecSort(8))
    b64 = z3.Function('encoded', z3.IntSort(), z3.BitVecSort(8))
    enc = lambda i: If(Or(b64(i) == 0, b64(i) == 10), bv(65, 8), b64(i))

    def sha1(E, s, a):
        p, n, o = a
        n = toint(n)
        if not E.access(s, p, n, False, None) or not E.access(s, o, iv(20), True, None):
            return None
        E.pointwise(s, p.obj, S(p.off + x))
        b = E.read_byte(s, p.obj, S(p.off + x))
        m = bv(0, 8)
        for k, ch in enumerate(MAGIC):
            m = If(x - kn == k, bv(ch, 8), m)
        E.oblige(s, 'digest of exactly the key and the magic', And(n == kn + len(MAGIC), b == If(x < kn, E.read_byte(s, key, x), m)))
        E.flush_range(s, o, iv(20))
        E.store_range(s, o.obj, o.off, iv(20), lambda i: digest(i - o.off))
        return None

    def encode(E, s, a):
        p, n = a
        E.oblige(s, 'all the digest is encoded', And(toint(n) == 20, *[E.read_byte(s, p.obj, S(p.off + k)) == digest(iv(k)) for k in range(20)]))
        o = E.newobj(s, 'answer', 30, 'heap')
        E.store_range(s, o, iv(0), iv(30), lambda i: If(i < 28, enc(i), If(i == 28, bv(10, 8), bv(0, 8))))
        s.wom(o).nuls = (iv(29),)
        return Ptr(o, iv(0))

    def set_code(E, s, a):
        E.oblige(s, 'its own response', And(z3.BoolVal(a[0].obj is res), a[0].off == 0))
        E.poke(s, res, iv(rs['code'][0]), 4, a[1])
        return None

    def set_header(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'?').lower()
        E.oblige(s, 'its own response', And(z3.BoolVal(a[0].obj is res), a[0].off == 0))
        E.oblige(s, 'before the headers go out', z3.BoolVal('head' not in s.ghost))
        v = a[2]
        if k == b'upgrade':
            E.oblige(s, 'upgrades to websocket', models.str_eq_const(E, s, v, b'websocket', nocase=True))
        elif k == b'sec-websocket-protocol':
            E.oblige(s, 'the protocol asked for', And(z3.BoolVal(v.obj is H[k]), v.off == 0, has[k]))
        elif k == b'sec-websocket-accept':
            E.oblige(s, 'accepts with exactly the encoded digest', And(*[E.read_byte(s, v.obj, S(v.off + j)) == (enc(iv(j)) if j < 28 else bv(0, 8)) for j in range(29)]))
        s.ghost['set ' + k.decode('latin1')] = True
        return None

    def head(E, s, a):
        g = lambda k: z3.BoolVal('set ' + k in s.ghost)
        fl = tobv(E.load(s, Ptr(res, iv(rs['flags'][0])), ir.I[32], None), 32)
        E.oblige(s, 'one head', z3.BoolVal('head' not in s.ghost))
        E.oblige(s, 'the head says it all', And(g('upgrade'), g('sec-websocket-accept'), Implies(has[b'sec-websocket-protocol'], g('sec-websocket-protocol'))))
        E.oblige(s, 'switching protocols, without body', And(toint(E.load(s, Ptr(res, iv(rs['code'][0])), ir.I[32], None)) == c['HTTP_SWITCH_PROTOCOL'],
                                                             fl & c['OR_CONNECTION_UPGRADE'] != 0, fl & c['OR_LENGTH_SET'] != 0))
        s.ghost['head'] = True
        return E.i32(s, 'head')

    def write(E, s, a):
        E.oblige(s, 'no body', toint(a[2]) == 0)
        return flush(E, s, a)

    def flush(E, s, a):
        E.oblige(s, 'the head is written before it is flushed', And(z3.BoolVal('head' in s.ghost), z3.BoolVal(a[0].obj is res)))
        s.ghost['flushed'] = True
        return E.i32(s, 'w')
    E.contracts.update(onion_request_get_header=header, onion_dict_get=header, atoi=atoi, onion_sha1=sha1, onion_base64_encode=encode, onion_response_set_code=set_code, onion_response_set_header=set_header,
                       onion_response_write_headers=head, onion_response_write=write, onion_response_flush=flush, onion_random_init=lambda E, s, a: None)

    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            cur = (lambda cc, m=m: S(cc.phis[m].off)) if isinstance(v, Ptr) and v.obj is not None else (lambda cc, m=m: toint(cc.phis[m])) if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v) else None
            if cur:
                out.append(('up to the end ' + m, lambda cc, cur=cur: And(cur(cc) >= 0, cur(cc) <= 28)))
        return out
    E.cand_hooks = [cands]
    E.measure_terms = []
    ok = And(has[b'upgrade'], nocase, has[b'sec-websocket-key'], has[b'sec-websocket-version'], ver == 13)

    def post(s, ret):
        live = [o for o in s.objs.values() if o.kind == 'heap' and s.om(o).alive]
        now = E.load(s, Ptr(req, iv(r['websocket'][0])), ir.PTR, None)
        if not isinstance(ret, Ptr) or ret.obj is None:
            E.oblige(s, 'only what is no handshake is declined', Not(ok))
            E.oblige(s, 'and then nothing was said or kept', And(z3.BoolVal('head' not in s.ghost and not live and not any(k.startswith('set ') for k in s.ghost)), z3.BoolVal(isinstance(now, Ptr) and now.obj is None)))
            return
        E.oblige(s, 'only a handshake is answered', ok)
        E.oblige(s, 'the answer is on its way', z3.BoolVal('flushed' in s.ghost))
        E.oblige(s, 'the request has its websocket, and nothing else is left', And(ret.off == 0, z3.BoolVal(isinstance(now, Ptr) and now.obj is ret.obj and [o.id for o in live] == [ret.obj.id])))
        g = lambda n: E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.PTR, None)
        b = lambda n: tobv(E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.I[8], None), 8)
        nul = lambda v: z3.BoolVal(isinstance(v, Ptr) and v.obj is None)
        E.oblige(s, 'it is of this request, with its data', z3.BoolVal(g('req').obj is req and g('user_data').obj is udata))
        E.oblige(s, 'no callback, nothing pending, talks text', And(nul(g('callback')), nul(g('free_user_data')), toint(E.load(s, Ptr(ret.obj, iv(f['data_left'][0])), ir.I[64], None)) == 0, b('flags') == 0, b('opcode') & 15 == c['OWS_TEXT']))
    E.run(st, 'onion_websocket_new', [Ptr(req, iv(0)), Ptr(res, iv(0))], post)


@proof('P18', 'onion_websocket_call', F)
def ws_call(E):
    """as long as it is open, every frame is announced to the callback of the moment with what is left of it, pings are not, and an error or a missing callback ends it"""
    c = C()
    st = State()
    W = Ws(E, st)
    E.auto_unroll = 0
    E.partial = True      # goes on as long as the peer and the callback do
    r = front.offsets('struct onion_request_t', ['connection.fd'])
    ud = E.newobj(st, 'userdata', 8, 'input')
    E.poke(st, W.o, iv(W.f['user_data'][0]), 8, Ptr(ud, iv(0)))
    E.poke(st, W.req, iv(r['connection.fd'][0]), 4, z3.BitVec('fd', 32))
    cbo = E.newobj(st, 'cb', 1, 'ghost')
    E.poke(st, W.o, iv(W.f['callback'][0]), 8, Ptr(cbo, iv(0)))
    G = {k: E.newobj(st, k, 8, 'ghost') for k in ('announced', 'status', 'ping', 'nocb')}
    g = lambda s, k: toint(E.load(s, Ptr(G[k], iv(0)), ir.I[64], None))
    w = lambda s, k, v: E.poke(s, G[k], iv(0), 8, v if z3.is_expr(v) else iv(v))
    for k in G:
        w(st, k, 0)
    w(st, 'status', c['OCS_NEED_MORE_DATA'])
    w(st, 'announced', 1)      # what is pending now was announced

    def poll(E, s, a):
        k = E.fint('ready', s, -1, 1)
        s.add(k != 0)             # waits for ever
        return k

    def header(E, s, a):
        E.oblige(s, 'the previous frame is used up', W.get(s, 'data_left') == 0)
        E.oblige(s, 'every frame reaches the callback, empty ones too', g(s, 'announced') == 1)
        E.oblige(s, 'this websocket', And(z3.BoolVal(a[0].obj is W.o), a[0].off == 0))
        s2, s3 = s.copy(), s.copy()
        for q in (s, s2, s3):
            E.poke(q, W.o, iv(W.f['opcode'][0]), 1, z3.BitVec('op%d' % uid(), 8))
        fl = z3.BitVec('fl%d' % uid(), 8)
        s.add(fl & WS_PING == 0)
        E.poke(s, W.o, iv(W.f['flags'][0]), 1, fl)
        E.poke(s, W.o, iv(W.f['data_left'][0]), 8, E.fint('left', s, 0, (1 << 63) - 1))
        w(s, 'announced', 0)
        w(s, 'ping', 0)
        E.poke(s2, W.o, iv(W.f['flags'][0]), 1, z3.BitVec('fl%d' % uid(), 8) | bv(WS_PING, 8))
        w(s2, 'ping', 1)
        bad = E.fint('err', s3, -(1 << 31), -1)
        w(s3, 'status', bad)
        s3.ghost['ended'] = True
        return [(s, iv(c['OCS_NEED_MORE_DATA'])), (s2, iv(c['OCS_NEED_MORE_DATA'])), (s3, bad)]
    E.contracts.update(poll=poll, sleep=lambda E, s, a: iv(0), onion_websocket_read_packet_header=header)

    def callback(E, s, fp, a, ty):
        if fp.obj is None or fp.obj.id != cbo.id:
            return NotImplemented
        E.oblige(s, 'the callback gets its data, the websocket and what is ready', And(z3.BoolVal(a[0].obj is ud), z3.BoolVal(a[1].obj is W.o), a[1].off == 0, toint(a[2]) == W.get(s, 'data_left')))
        E.oblige(s, 'no callback for a ping', g(s, 'ping') == 0)
        E.oblige(s, 'not once more after the last', g(s, 'nocb') == 0)
        E.oblige(s, 'once for an empty frame, else only with something left', Or(g(s, 'announced') == 0, W.get(s, 'data_left') != 0))
        w(s, 'announced', 1)
        E.poke(s, W.o, iv(W.f['data_left'][0]), 8, E.fint('left', s, 0, (1 << 63) - 1))
        E.poke(s, W.o, iv(W.f['flags'][0]), 1, z3.BitVec('fl%d' % uid(), 8))
        E.poke(s, W.o, iv(W.f['opcode'][0]), 1, z3.BitVec('op%d' % uid(), 8))
        v = E.i32(s, 'cbret')
        w(s, 'status', v)
        s2 = s.copy()
        E.poke(s2, W.o, iv(W.f['callback'][0]), 8, NULL)
        w(s2, 'nocb', 1)
        return [(s, v), (s2, v)]
    E.indirect = callback

    def cands(ctx):
        out = [('something to announce', lambda c_: Or(g(c_.st, 'announced') == 0, W.get(c_.st, 'data_left') != 0)), ('a ping leaves nothing', lambda c_: And(g(c_.st, 'ping') >= 0, g(c_.st, 'ping') <= 1, Implies(g(c_.st, 'ping') == 1, W.get(c_.st, 'data_left') == 0))),
               ('callback or gone', lambda c_: g(c_.st, 'nocb') == (1 if E.load(c_.st, Ptr(W.o, iv(W.f['callback'][0])), ir.PTR, None).obj is None else 0)),
               ('not a ping', lambda c_: g(c_.st, 'ping') == 0), ('callback', lambda c_: g(c_.st, 'nocb') == 0), ('announced', lambda c_: g(c_.st, 'announced') == 1), ('goes on', lambda c_: g(c_.st, 'status') == c['OCS_NEED_MORE_DATA'])]
        for m, v in ctx.phis.items():
            if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v):
                out.append(('status ' + m, lambda c_, m=m: toint(c_.phis[m]) == g(c_.st, 'status')))
                out.append(('status, or gone ' + m, lambda c_, m=m: Or(And(g(c_.st, 'nocb') == 0, toint(c_.phis[m]) == g(c_.st, 'status')), And(g(c_.st, 'nocb') == 1, toint(c_.phis[m]) == c['OCS_CLOSE_CONNECTION']))))
                out.append(('went on ' + m, lambda c_, m=m: toint(c_.phis[m]) == c['OCS_NEED_MORE_DATA']))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        ret = toint(ret)
        E.oblige(s, 'ends with an error or closed', ret < 0)
        E.oblige(s, 'every frame reaches the callback', g(s, 'announced') == 1)
        E.oblige(s, 'ends only when the connection, the callback or its absence says so', Or(z3.BoolVal('ended' in s.ghost), g(s, 'nocb') == 1, g(s, 'status') != c['OCS_NEED_MORE_DATA']))
        E.oblige(s, 'a callback that is gone closes', Implies(And(g(s, 'nocb') == 1, z3.BoolVal('ended' not in s.ghost)), ret == c['OCS_CLOSE_CONNECTION']))
        E.oblige(s, 'what the callback or the connection closes is closed', Implies(g(s, 'status') == c['OCS_CLOSE_CONNECTION'], ret == c['OCS_CLOSE_CONNECTION']))
    E.run(st, 'onion_websocket_call', [W.p()], post)
