"""Contracts of src/onion/codecs.c"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import ir
import models
MAXN = 1 << 28           # lengths are `int` in the API; stated bound on string length so that int arithmetic cannot overflow


def src_string(E, name='str', const=True, extra=()):
    """arbitrary NUL-terminated input of unbounded (< MAXN) length and a skolem position k in it"""
    st = State()
    n, k = z3.Int('n'), z3.Int('k')
    st.add(n >= 0, n <= MAXN, k >= 0, k < n)
    s = E.cstring(st, name, n, const=const)
    E.skolem_list = [(name, k)]
    E.hints = [(name, st.om(s).bm, n)]
    return st, s, n, k


def transducer(E, st, s, n, k, P, enc, maxlen, extra_cands=None, prefix=0):
    """offer the invariants of a left-to-right rewriting loop: cursors advance as P, and the encoding of byte k is in place"""
    src = st.om(s).bm
    ck = E.read_byte(st, s, k)
    st.add(P.base(), P.unfold(k), P.mono(iv(0), k), P.mono(k + 1, n), P.mono(iv(0), n))

    def facts(ctx):
        out = []
        for q in ctx.q().values():
            out += [P.unfold(q), P.mono(q, n), P.mono(iv(0), q), P.mono(k + 1, q), P.mono(q, k), P.mono(q + 1, n)]
        return out

    def cands(ctx):
        out = []
        q = ctx.q()
        for a in q:
            for b in q:
                if a != b:
                    out.append(('%s=P(%s)' % (b, a), lambda c, a=a, b=b: c.q()[b] == P(c.q()[a]) + c.entry.q()[b] - P(c.entry.q()[a])))
                    out.append(('%s+P(%s)' % (b, a), lambda c, a=a, b=b: c.q()[b] + P(c.q()[a]) == c.entry.q()[b] + P(c.entry.q()[a])))
        for a in q:
            for o in [o for o in ctx.st.objs.values() if o.kind in ('heap', 'out')]:
                out.append(('done %s %s' % (a, o.name), lambda c, a=a, o=o: Implies(
                    And(k < c.q()[a], c.q()[a] <= n),
                    And(*[Implies(d < P.ln(k), c.read(o, P(k) + prefix + d) == enc(ck, d)) for d in range(maxlen)]))))
        return out + (extra_cands(ctx) if extra_cands else [])
    E.fact_hooks, E.cand_hooks = [facts], [cands]
    E.bounds = [('n', n), ('P(n)', P(n))]
    return ck


# ---------------------------------------------------------------- HTML
HTML = {ord('<'): b'&lt;', ord('>'): b'&gt;', ord('"'): b'&quot;', ord('&'): b'&amp;', ord("'"): b'&#39;'}


def html_spec(E):
    st, s, n, k = src_string(E)
    src = st.om(s).bm
    P = Sum('Phtml', n, lambda i: tablelen(HTML, src.read(i)), 1, 6)
    ck = transducer(E, st, s, n, k, P, lambda c, d: table(HTML, c, d), 6)
    return st, s, n, k, P, ck


@proof('P03', 'onion_html_quote', ['codecs.c'])
def html_quote(E):
    st, s, n, k, P, ck = html_spec(E)

    def post(st, ret):
        if ret.obj is None:
            E.oblige(st, 'NULL only when no byte needs escaping', tablelen(HTML, ck) == 1)
            return
        E.oblige(st, 'result is a fresh block holding exactly the escaped string', And(ret.off == 0, ret.obj.size >= P(n) + 1, st.om(ret.obj).alive))
        E.oblige(st, 'result ends with NUL at the escaped length', E.read_byte(st, ret.obj, P(n)) == 0)
        for d in range(6):
            E.oblige(st, 'escape of byte k, position %d' % d, Implies(d < P.ln(k), E.read_byte(st, ret.obj, P(k) + d) == table(HTML, ck, d)))
    E.run(st, 'onion_html_quote', [Ptr(s, iv(0))], post)


@proof('P03', 'onion_html_quote_dup', ['codecs.c'])
def html_quote_dup(E):
    st, s, n, k, P, ck = html_spec(E)

    def post(st, ret):
        E.oblige(st, 'never NULL for a string', ret.obj is not None)
        if ret.obj is None:
            return
        same = ret.obj.name.startswith('dup@')
        if same:     # nothing needed escaping: result is a copy of str
            E.oblige(st, 'copy only when no byte needs escaping', tablelen(HTML, ck) == 1)
            E.oblige(st, 'copy of byte k', E.read_byte(st, ret.obj, k) == ck)
            E.oblige(st, 'copy ends at n', E.read_byte(st, ret.obj, n) == 0)
        else:
            for d in range(6):
                E.oblige(st, 'escape of byte k, position %d' % d, Implies(d < P.ln(k), E.read_byte(st, ret.obj, P(k) + d) == table(HTML, ck, d)))
            E.oblige(st, 'result ends with NUL at the escaped length', E.read_byte(st, ret.obj, P(n)) == 0)
        E.oblige(st, 'result is owned by the caller', And(st.om(ret.obj).alive, ret.obj.kind == 'heap', ret.off == 0))
    E.run(st, 'onion_html_quote_dup', [Ptr(s, iv(0))], post)


@proof('P03', 'onion_html_quote_dup', ['codecs.c'])
def html_quote_dup_null(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list = [], [], []

    def post(st, ret):
        E.oblige(st, 'NULL in, NULL out', ret.obj is None)
    E.run(State(), 'onion_html_quote_dup', [NULL], post)


# ---------------------------------------------------------------- URL quoting
def url_enc(c, d):
    q = [bv(ord('%'), 8), hexdigit(z3.LShR(c, 4)), hexdigit(c)][d]
    return If(isalnum(c), c, q) if d == 0 else q


def url_spec(E):
    st, s, n, k = src_string(E)
    src = st.om(s).bm
    P = Sum('Purl', n, lambda i: If(isalnum(src.read(i)), iv(1), iv(3)), 1, 3)
    ck = transducer(E, st, s, n, k, P, url_enc, 3)
    return st, s, n, k, P, ck


@proof('P02', 'onion_quote', ['codecs.c'])
def url_quote(E):
    st, s, n, k, P, ck = url_spec(E)
    m = z3.Int('maxlength')
    st.add(m >= 1, m <= (1 << 30))
    res = E.newobj(st, 'res', m, 'out')
    E.bounds.append(('maxlength', m))

    def post(st, ret):
        E.oblige(st, 'terminating NUL inside the buffer', And(ret >= 0, ret < m, E.read_byte(st, res, ret) == 0))
        E.oblige(st, 'complete when it fits', Implies(P(n) < m, ret == P(n)))
        E.oblige(st, 'never longer than the quoted string', ret <= P(n))
        for d in range(3):
            E.oblige(st, 'quote of byte k, position %d' % d, Implies(And(P(k + 1) <= ret, d < P.ln(k)), E.read_byte(st, res, P(k) + d) == url_enc(ck, d)))
        E.oblige(st, 'no partial escape: byte k is quoted entirely or not at all', Or(P(k + 1) <= ret, P(k) >= ret))
    E.run(st, 'onion_quote', [Ptr(s, iv(0)), Ptr(res, iv(0)), m], post)


@proof('P02', 'onion_quote_new', ['codecs.c'])
def url_quote_new(E):
    st, s, n, k, P, ck = url_spec(E)

    def post(st, ret):
        E.oblige(st, 'fresh block', ret.obj is not None and ret.obj.kind == 'heap' and st.om(ret.obj).alive)
        if ret.obj is None:
            return
        E.oblige(st, 'NUL at quoted length', E.read_byte(st, ret.obj, P(n)) == 0)
        for d in range(3):
            E.oblige(st, 'quote of byte k, position %d' % d, Implies(d < P.ln(k), E.read_byte(st, ret.obj, P(k) + d) == url_enc(ck, d)))
    E.run(st, 'onion_quote_new', [Ptr(s, iv(0))], post)


def strtol_hex2(E, st, a):
    """strtol on the 3-byte scratch string: value of two hex digits (base 16); unconstrained for other contents"""
    p = a[0]
    b0, b1, b2 = (E.read_byte(st, p.obj, S(p.off + d)) for d in range(3))
    E.oblige(st, 'string argument is NUL-terminated', Or(b0 == 0, b1 == 0, b2 == 0))
    E.oblige(st, 'base 16', toint(a[2]) == 16)
    r = z3.BitVec('strtol!%d' % uid(), 64)
    h = z3.ZeroExt(56, hexval(b0)) * 16 + z3.ZeroExt(56, hexval(b1))
    st.add(Implies(And(ishex(b0), ishex(b1), b2 == 0), r == h))
    h1 = z3.ZeroExt(56, hexval(b0))
    st.add(Implies(And(ishex(b0), Not(ishex(b1)), b1 != 120, b1 != 88), r == h1))
    return r


@proof('P02', 'onion_unquote_inplace', ['codecs.c'])
def url_unquote(E):
    """spec: S(0)=0, S(t+1)=S(t)+3 at a complete %XX escape, +1 otherwise; out[t]=dec(S(t)); the result has T bytes with S(T)=n"""
    st, s, n, k0 = src_string(E, const=False)
    src = st.om(s).bm
    E.contracts['strtol'] = strtol_hex2
    E.used_models.add('strtol')
    Sq = z3.Function('Squ', z3.IntSort(), z3.IntSort())
    m = z3.Int('m')                      # skolem output position
    st.add(m >= 0, m < n)
    rd = lambda i: E.read_byte(st, s, i)

    def nz(i):
        return Implies(And(i >= 0, i < n), src.read(i) != 0)

    def esc(i):
        return And(src.read(i) == 37, i + 2 < n)

    def dec(i):
        return If(esc(i), If(And(ishex(src.read(i + 1)), ishex(src.read(i + 2))), hexval(src.read(i + 1)) * 16 + hexval(src.read(i + 2)), bv(0, 8)),
                  If(src.read(i) == 43, bv(32, 8), src.read(i)))

    def decknown(i):
        return Or(Not(esc(i)), And(ishex(src.read(i + 1)), ishex(src.read(i + 2))))

    def unf(t):
        i = Sq(t)
        return And(Implies(And(t >= 0, i >= 0, i < n), And(Sq(t + 1) == i + If(esc(i), iv(3), iv(1)))), nz(i), nz(i + 1), nz(i + 2))
    st.add(Sq(iv(0)) == 0, unf(m), Sq(m) >= 0)
    lemma('unquote positions stay inside the string (step)', And(Sq(iv(1)) >= 1, Sq(iv(1)) < n, unf(iv(1))), And(Sq(iv(2)) >= 2, Sq(iv(2)) <= n))

    def facts(ctx):
        out = []
        for q in ctx.q().values():
            out += [unf(q), nz(q), nz(q + 1), nz(q + 2)]
        return out

    def cands(ctx):
        out = []
        q = ctx.q()
        for a in q:
            for b in q:
                if a != b:
                    out.append(('%s=S(%s)' % (b, a), lambda c, a=a, b=b: c.q()[b] == Sq(c.q()[a])))
                    out.append(('%s<=%s' % (a, b), lambda c, a=a, b=b: c.q()[a] <= c.q()[b]))
        for a in q:
            out.append(('done %s' % a, lambda c, a=a: Implies(And(m < c.q()[a]), Implies(decknown(Sq(m)), c.read(s, m) == dec(Sq(m))))))
            out.append(('mono %s' % a, lambda c, a=a: And(Implies(m < c.q()[a], And(Sq(m) >= 0, Sq(m) < n)))))
            out.append(('eq %s' % a, lambda c, a=a: c.st.om(s).bm.read(n) == 0 if not c.st.om(s).bm is None else None))
        return out
    E.fact_hooks, E.cand_hooks, E.bounds = [facts], [cands], [('n', n)]

    def post(st, ret):
        # result length: the position of the NUL the function wrote
        om = st.om(s)
        E.oblige(st, 'result ends with a NUL inside the original string', len(om.nuls) > 0)
        if not om.nuls:
            return
        T = om.nuls[-1]
        E.oblige(st, 'every input byte is consumed', And(Sq(T) == n, T >= 0, T <= n, om.bm.read(T) == 0))
        E.oblige(st, 'output byte m is the decoding of its escape, plus or literal', Implies(And(m < T, decknown(Sq(m))), om.bm.read(m) == dec(Sq(m))))
    E.run(st, 'onion_unquote_inplace', [Ptr(s, iv(0))], post)


# ---------------------------------------------------------------- C quoting
CQ = {10: b'\\n"\n"', 13: b'\\r', 34: b'\\"', 92: b'\\\\', 9: b'\\t'}


def c_enc(c, d):
    o = [bv(92, 8), (z3.LShR(c, 6) & 3) + 48, (z3.LShR(c, 3) & 7) + 48, (c & 7) + 48]
    return If(z3.UGT(c, 127), o[d] if d < 4 else bv(0, 8), table(CQ, c, d))


def c_spec(E):
    st, s, n, k = src_string(E)
    src = st.om(s).bm
    P = Sum('Pcq', n, lambda i: If(z3.UGT(src.read(i), 127), iv(4), tablelen(CQ, src.read(i))), 1, 5)
    ck = transducer(E, st, s, n, k, P, c_enc, 5, prefix=1)
    return st, s, n, k, P, ck


def c_post(E, st, o, n, k, P, ck, l):
    om = st.om(o)
    E.oblige(st, 'result ends with a NUL', len(om.nuls) > 0)
    if not om.nuls:
        return
    T = om.nuls[-1]
    E.oblige(st, 'opening and closing quote, NUL inside the buffer', And(
        T >= 2, T < l, E.read_byte(st, o, iv(0)) == 34, E.read_byte(st, o, T) == 0, E.read_byte(st, o, T - 1) == 34))
    E.oblige(st, 'complete when it fits', Implies(P(n) + 3 <= l, T == P(n) + 2))
    for d in range(5):
        E.oblige(st, 'quote of byte k, position %d' % d, Implies(And(P(k + 1) + 2 <= T, d < P.ln(k)), E.read_byte(st, o, P(k) + 1 + d) == c_enc(ck, d)))
    E.oblige(st, 'no partial escape', Or(P(k + 1) + 2 <= T, P(k) + 2 >= T))


@proof('P05', 'onion_c_quote', ['codecs.c'])
def c_quote(E):
    st, s, n, k, P, ck = c_spec(E)
    l = z3.Int('l')
    st.add(l >= 3, l <= (1 << 30))
    res = E.newobj(st, 'res', l, 'out')

    def post(st, ret):
        E.oblige(st, 'returns the buffer', ret.obj is res and isc(S(ret.off)) and cval(S(ret.off)) == 0)
        c_post(E, st, res, n, k, P, ck, l)
    E.run(st, 'onion_c_quote', [Ptr(s, iv(0)), Ptr(res, iv(0)), l], post)


@proof('P05', 'onion_c_quote_new', ['codecs.c'])
def c_quote_new(E):
    st, s, n, k, P, ck = c_spec(E)
    # size pass counts 5 for a non-ASCII byte (4 are used)
    src = st.om(s).bm
    Q = Sum('Pcq5', n, lambda i: If(z3.UGT(src.read(i), 127), iv(5), tablelen(CQ, src.read(i))), 1, 5)
    i = z3.Int('i')
    lemma('reserved size covers the quoted size (step)', And(Q(i) >= P(i), i >= 0, i < n, P.unfold(i), Q.unfold(i)), Q(i + 1) >= P(i + 1))
    st.add(Q.base(), Q(n) >= P(n))
    f0, c0 = E.fact_hooks[0], E.cand_hooks[0]

    def facts(ctx):
        return f0(ctx) + [x for q in ctx.q().values() for x in (Q.unfold(q), Implies(And(q >= 0, q <= n), Q(q) >= P(q)), Q.mono(q, n), Q.mono(iv(0), q))]

    def cands(ctx):
        q = ctx.q()
        return c0(ctx) + [('%s=Q(%s)' % (b, a), lambda c, a=a, b=b: c.q()[b] == Q(c.q()[a]) + c.entry.q()[b]) for a in q for b in q if a != b]
    E.fact_hooks, E.cand_hooks = [facts], [cands]

    def post(st, ret):
        E.oblige(st, 'fresh block', ret.obj is not None and ret.obj.kind == 'heap' and st.om(ret.obj).alive)
        if ret.obj is not None:
            c_post(E, st, ret.obj, n, k, P, ck, ret.obj.size)
            E.oblige(st, 'block is large enough for the whole quoted string', ret.obj.size >= P(n) + 3)
    E.run(st, 'onion_c_quote_new', [Ptr(s, iv(0))], post)


# ---------------------------------------------------------------- base64
def b64chr(v):
    """alphabet character of the 6-bit value v (BV8)"""
    return If(z3.ULT(v, 26), v + 65, If(z3.ULT(v, 52), v + 71, If(z3.ULT(v, 62), v - 4, If(v == 62, bv(43, 8), bv(47, 8)))))


def b64val(c):
    return If(And(z3.UGE(c, 65), z3.ULE(c, 90)), c - 65, If(And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 71, If(
        And(z3.UGE(c, 48), z3.ULE(c, 57)), c + 4, If(c == 43, bv(62, 8), bv(63, 8)))))


def b64ok(c):
    return Or(isalnum(c), c == 43, c == 47)


def raw6(x, y, z, d):
    return [z3.LShR(x, 2), ((x & 3) << 4) | z3.LShR(y, 4), ((y & 15) << 2) | z3.LShR(z, 6), z & 63][d]


@proof('P01', 'onion_base64_encode', ['codecs.c'], budget=250)
def b64_encode(E):
    """input byte group g (3 bytes) is encoded at 4g + g/19 as RFC 4648 base64 with a newline after every 76 characters and at the end"""
    st = State()
    n, g = z3.Int('n'), z3.Int('g')
    st.add(n >= 0, n <= MAXN, g >= 0, 3 * g < n)
    o = E.newobj(st, 'orig', n, 'input', const=True)
    src = st.om(o).bm
    E.hints = [('orig', src, n)]
    E.skolem_list = []
    t19 = z3.Int('g_div19')
    st.add(t19 * 19 <= g, g < t19 * 19 + 19, t19 >= 0)
    pos = 4 * g + t19
    G = (n + 2) / 3
    zb = lambda i: If(i < n, src.read(i), bv(0, 8))
    x, y, z = src.read(3 * g), zb(3 * g + 1), zb(3 * g + 2)
    E.mods = (3, 4, 57, 77)

    raw = [raw6(x, y, z, d) for d in range(4)]
    chr_ = [b64chr(r) for r in raw]
    ch_ = [chr_[0], chr_[1], If(3 * g + 1 >= n, bv(61, 8), chr_[2]), If(3 * g + 2 >= n, bv(61, 8), chr_[3])]
    posd = [S(pos + d) for d in range(5)]
    ch = lambda d: ch_[d]

    def envints(ctx):
        return [('0', iv(0))] + [(nm, v) for nm, v in E.envints(ctx) if z3.is_const(v)][-7:]

    def cands(ctx):
        out = []
        q = ctx.q()
        heap = [h for h in ctx.st.objs.values() if h.kind == 'heap']
        for a in q:
            for b in q:
                if a != b:
                    for (r, w) in ((57, 77), (3, 4)):
                        out.append(('%s*%d=%s*%d' % (a, w, b, r), lambda c, a=a, b=b, r=r, w=w: (c.q()[a] - c.entry.q()[a]) * w == (c.q()[b] - c.entry.q()[b]) * r))
        for a in q:
            for h in heap:
                rd = lambda c, d, h=h: c.read(h, posd[d])
                out.append(('line done %s' % a, lambda c, a=a, h=h: Implies(3 * g < c.q()[a], And(
                    *[c.read(h, posd[d]) == ch(d) for d in range(4)],
                    Implies(And(g == 19 * t19 + 18), c.read(h, posd[4]) == 10)))))
                out.append(('nl done %s' % a, lambda c, a=a, h=h: Implies(And(3 * g < c.q()[a], g == 19 * t19 + 18), c.read(h, posd[4]) == 10)))
                for (bn, b) in envints(ctx):
                    out.append(('raw %s+%s' % (bn, a), lambda c, a=a, h=h, b=b: Implies(And(b <= 3 * g, 3 * g < b + c.q()[a]), And(
                        *[c.read(h, posd[d]) == raw[d] for d in range(4)]))))
                    out.append(('prev %s' % bn, lambda c, h=h, b=b: Implies(3 * g < b, And(
                        *[c.read(h, posd[d]) == ch(d) for d in range(4)], Implies(g == 19 * t19 + 18, c.read(h, posd[4]) == 10)))))
                    out.append(('small %s+%s' % (bn, a), pointwise(ctx.key, h, lambda c, m, a=a, h=h, b=b: Implies(
                        And(b <= m, m < b + c.q()[a]), z3.ULT(c.read(h, m), 64)))))
                    for (b2n, b2) in envints(ctx):
                        out.append(('map %s,%s+%s' % (bn, b2n, a), lambda c, a=a, h=h, b=b, b2=b2: Implies(And(b <= 3 * g, 3 * g < b + 57), And(
                            *[c.read(h, posd[d]) == If(pos + d < b2 + c.q()[a], chr_[d], raw[d]) for d in range(4)]))))
                    for lim in (76, None):
                        for (b2n, b2) in (envints(ctx) if lim is None else [('0', iv(0))]):
                            L = lim if lim is not None else b2 + 4
                            out.append(('small2 %s+%s,%s%s' % (bn, a, lim, b2n), pointwise(ctx.key, h, lambda c, m, a=a, h=h, b=b, L=L: Implies(
                                And(b + c.q()[a] <= m, m < b + L), z3.ULT(c.read(h, m), 64)))))
        return out
    E.fact_hooks, E.cand_hooks, E.bounds = [], [cands], [('n', n), ('n-57', n - 57)]
    v, a_, b_, c_ = z3.BitVecs('v a b c', 8)
    lemma('alphabet is inverted by the decoder table', z3.ULT(v, 64), And(b64val(b64chr(v)) == v, b64ok(b64chr(v))))
    r = [raw6(a_, b_, c_, d) for d in range(4)]
    lemma('three bytes are recovered from their four 6-bit values', z3.BoolVal(True), And(
        (r[0] << 2) | z3.LShR(r[1], 4) == a_, (r[1] << 4) | z3.LShR(r[2], 2) == b_, (r[2] << 6) | r[3] == c_, *[z3.ULT(q, 64) for q in r]))

    def post(st, ret):
        E.oblige(st, 'fresh block', ret.obj is not None and ret.obj.kind == 'heap' and st.om(ret.obj).alive)
        if ret.obj is None:
            return
        rd = lambda i: E.read_byte(st, ret.obj, i)
        for d in range(4):
            E.oblige(st, 'character %d of group g' % d, rd(pos + d) == ch(d))
        E.oblige(st, 'newline after every 76 characters', Implies(g == 19 * t19 + 18, rd(pos + 4) == 10))
        last = 3 * g + 3 >= n
        E.oblige(st, 'newline and NUL after the last group', Implies(last, And(rd(pos + 4) == 10, rd(pos + 5) == 0)))
    E.run(st, 'onion_base64_encode', [Ptr(o, iv(0)), n], post)


@proof('P01', 'onion_base64_encode', ['codecs.c'])
def b64_encode_empty(E):
    st = State()
    o = E.newobj(st, 'orig', 0, 'input', const=True)
    E.fact_hooks, E.cand_hooks, E.bounds, E.skolem_list = [], [], [], []

    def post(st, ret):
        E.oblige(st, 'empty input encodes to the empty string', ret.obj is not None and E.read_byte(st, ret.obj, iv(0)) == 0)
    E.run(st, 'onion_base64_encode', [Ptr(o, iv(0)), iv(0)], post)


def isws(c):
    return Or(c == 10, c == 13, c == 32)


def get_next_contract(E, st, a, s, n, V, facts):
    """skip blanks; at the end of the string stay there, else consume one character and return its 6-bit value"""
    cell = a[0]
    cur = E.load(st, cell, ir.PTR, None)
    E.oblige(st, 'cursor inside the string', And(z3.BoolVal(cur.obj is s), cur.off >= 0, cur.off <= n))
    src = st.om(s).bm
    j = E.fint('next', st, 0)
    st.add(j >= cur.off, j <= n, V(j) == V(cur.off), Or(j == n, Not(isws(src.read(j)))), Implies(j < n, src.read(j) != 0))
    for f in facts(j):
        st.add(f)
    c = src.read(j)
    r = z3.BitVec('b64!%d' % uid(), 8)
    st.add(Implies(And(j < n, b64ok(c)), r == b64val(c)))
    E.store(st, cell, ir.PTR, Ptr(s, S(If(j < n, j + 1, j))), None)
    return r


@proof('P01', 'onion_base64_decode_get_next', ['codecs.c'])
def b64_get_next(E):
    st, s, n, k = src_string(E)
    src = st.om(s).bm
    V = Sum('V', n, lambda i: If(isws(src.read(i)), iv(0), iv(1)), 0, 1)
    i0 = z3.Int('i0')
    st.add(i0 >= 0, i0 <= n)
    cell = E.newobj(st, 'cursor', 8, 'input')
    E.poke(st, cell, iv(0), 8, Ptr(s, i0))
    E.fact_hooks = [lambda ctx: [f for q in ctx.q().values() for f in (V.unfold(q), Implies(And(q >= 0, q < n), src.read(q) != 0))]]
    E.cand_hooks = [lambda ctx: [('sameV %s' % a, lambda c, a=a: V(c.q()[a]) == V(c.entry.q()[a])) for a in ctx.q()]]
    E.bounds = [('n', n)]

    def post(st, ret):
        cur = E.load(st, Ptr(cell, iv(0)), ir.PTR, None)
        E.oblige(st, 'cursor stays in the string', And(z3.BoolVal(cur.obj is s), cur.off >= i0, cur.off <= n))
        e = cur.off
        atend = e == n
        for f in (V.unfold(e - 1), Implies(And(e - 1 >= 0, e - 1 < n), src.read(e - 1) != 0)):
            st.add(f)
        took = And(e > i0, V(e - 1) == V(i0), Not(isws(src.read(e - 1))))
        E.oblige(st, 'either the end was reached over blanks only, or exactly one non-blank was consumed', Or(And(atend, V(e) == V(i0)), took))
        c = src.read(e - 1)
        E.oblige(st, 'value of the consumed character', Implies(And(took, V(e) != V(i0), b64ok(c)), ret == b64val(c)))
    E.run(st, 'onion_base64_decode_get_next', [Ptr(cell, iv(0))], post)


@proof('P01', 'onion_base64_decode', ['codecs.c'], budget=250)
def b64_decode(E):
    """V(i) = number of non-blank characters before i; the characters of group g are the four non-blank ones numbered 4g..4g+3"""
    st, s, n, k0 = src_string(E)
    src = st.om(s).bm
    V = Sum('V', n, lambda i: If(isws(src.read(i)), iv(0), iv(1)), 0, 1)
    F = z3.Function('padcount', z3.IntSort(), z3.IntSort())     # trailing '=' (at most 2), blanks ignored

    def unfF(i):
        c = src.read(i)
        return Implies(And(i >= 0, i < n), F(i + 1) == If(isws(c), F(i), If(c == 61, If(F(i) < 2, F(i) + 1, F(i)), iv(0))))
    g = z3.Int('g')
    p = [z3.Int('p%d' % d) for d in range(4)]
    st.add(V.base(), F(iv(0)) == 0, g >= 0)
    i_ = z3.Int('i')
    lemma('trailing pad count is 0..2 (step)', And(F(i_) >= 0, F(i_) <= 2, unfF(i_), i_ >= 0, i_ < n), And(F(i_ + 1) >= 0, F(i_ + 1) <= 2))
    lemma('a counted pad is a counted character (step)', And(F(i_) <= V(i_), unfF(i_), V.unfold(i_), i_ >= 0, i_ < n, F(i_) >= 0, F(i_) <= 2), F(i_ + 1) <= V(i_ + 1))
    for d in range(4):
        st.add(p[d] >= 0, p[d] < n, Not(isws(src.read(p[d]))), src.read(p[d]) != 0, V(p[d]) == 4 * g + d, V.unfold(p[d]), V.mono(p[d] + 1, n))
    st.add(V.mono(iv(0), n), F(n) >= 0, F(n) <= 2, F(n) <= V(n))
    c = [src.read(x) for x in p]
    vals = [b64val(x) for x in c]
    out = [(vals[0] << 2) | z3.LShR(vals[1], 4), (vals[1] << 4) | z3.LShR(vals[2], 2), (vals[2] << 6) | vals[3]]
    okc = [b64ok(x) for x in c]
    cond = [And(okc[0], okc[1]), And(okc[1], okc[2]), And(okc[2], okc[3])]
    okc = cond

    def facts(ctx):
        o = []
        for q in ctx.q().values():
            o += [V.unfold(q), V.mono(iv(0), q), V.mono(q, n), V.mono(q + 1, n), unfF(q), Implies(And(q >= 0, q <= n), And(F(q) >= 0, F(q) <= 2, F(q) <= V(q)))]
            for d in range(4):
                o += [V.mono(q + 1, p[d]), V.mono(p[d] + 1, q)]
        return o

    def cands(ctx):
        o = []
        q = ctx.q()
        for a in q:
            o.append(('sameV %s' % a, lambda cx, a=a: V(cx.q()[a]) == V(cx.entry.q()[a])))
            for b in q:
                if a == b:
                    continue
                o.append(('%s=V(%s)' % (b, a), lambda cx, a=a, b=b: cx.q()[b] == V(cx.q()[a]) + cx.entry.q()[b] - V(cx.entry.q()[a])))
                o.append(('%s+V(%s)' % (b, a), lambda cx, a=a, b=b: cx.q()[b] + V(cx.q()[a]) == cx.entry.q()[b] + V(cx.entry.q()[a])))
                o.append(('%s=F(%s)' % (b, a), lambda cx, a=a, b=b: cx.q()[b] == F(cx.q()[a])))
                o.append(('4%s=3V(%s)' % (b, a), lambda cx, a=a, b=b: 4 * cx.q()[b] == 3 * V(cx.q()[a])))
                o.append(('3%s+4%s' % (a, b), lambda cx, a=a, b=b: 3 * cx.q()[a] + 4 * cx.q()[b] == 3 * cx.entry.q()[a] + 4 * cx.entry.q()[b]))
            for h in [h for h in ctx.st.objs.values() if h.kind == 'heap']:
                for d in range(3):
                    o.append(('done%d %s' % (d, a), lambda cx, a=a, h=h, d=d: Implies(And(3 * g < cx.q()[a], okc[d]), cx.read(h, 3 * g + d) == out[d])))
        return o
    E.mods = (3, 4)
    E.fact_hooks, E.cand_hooks, E.bounds = [facts], [cands], [('n', n), ('V(n)', V(n))]
    E.contracts['onion_base64_decode_get_next'] = lambda E, st, a: get_next_contract(E, st, a, s, n, V, lambda j: facts_at(j))

    def facts_at(q):
        o = [V.unfold(q), V.mono(iv(0), q), V.mono(q, n), V.mono(q + 1, n)]
        for d in range(4):
            o += [V.mono(q + 1, p[d]), V.mono(p[d] + 1, q)]
        return o
    ln = E.newobj(st, 'length', 4, 'input')

    def post(st, ret):
        L = E.load(st, Ptr(ln, iv(0)), ir.I[32], None)
        if ret.obj is None:
            E.oblige(st, 'NULL only for malformed input', Or(V(n) % 4 != 0, n <= 1))
            E.oblige(st, 'length 0 on error', L == 0)
            return
        E.oblige(st, 'input is a whole number of groups', V(n) % 4 == 0)
        E.oblige(st, 'fresh block', And(z3.BoolVal(ret.obj.kind == 'heap' and st.om(ret.obj).alive), ret.off == 0))
        full = 3 * (V(n) / 4)
        E.oblige(st, 'decoded length is three bytes per group minus padding', L == full - F(n))
        E.oblige(st, 'NUL after the data', E.read_byte(st, ret.obj, L) == 0)
        for d in range(3):
            E.oblige(st, 'byte %d of group g' % d, Implies(And(4 * g + 3 < V(n), okc[d], 3 * g + d < L), E.read_byte(st, ret.obj, 3 * g + d) == out[d]))
    E.run(st, 'onion_base64_decode', [Ptr(s, iv(0)), Ptr(ln, iv(0))], post)


# ---------------------------------------------------------------- JSON
def block_ghost(E, st, name='block'):
    """a block seen through its contract (proved for block.c under P06): an append-only byte sequence with a length"""
    b = E.newobj(st, name, 24, 'input')
    d = E.newobj(st, name + '_bytes', 1 << 62, 'out')
    b.tag = d
    n0 = z3.Int(name + '_len0')
    st.add(n0 >= 0, n0 <= MAXN)
    E.poke(st, b, iv(8), 8, n0)        # ghost length lives at offset 8 of the abstract object
    return b, d, n0


def blen(st, b):
    return st.om(b).cells[8][1]


def block_add_char(E, st, a):
    b = a[0].obj
    if b is None or b.tag is None:
        raise Unsupported('block contract: not an abstract block')
    n = blen(st, b)
    c = a[1] if z3.is_bv(a[1]) and a[1].size() == 8 else E.trunc(st, a[1], 32, 8)
    E.poke(st, b.tag, n, 1, c)
    E.poke(st, b, iv(8), 8, S(n + 1))
    return iv(1)


def block_add_data(E, st, a):
    b = a[0].obj
    if b is None or b.tag is None:
        raise Unsupported('block contract: not an abstract block')
    n, l = blen(st, b), toint(a[2])
    models.copy_bytes(E, st, Ptr(b.tag, n), a[1], l)
    E.poke(st, b, iv(8), 8, S(n + l))
    return E.wrap(st, l, 32)


def block_size(E, st, a):
    return blen(st, a[0].obj)


def block_noop(E, st, a):
    return None


BLOCK = {'onion_block_add_char': block_add_char, 'onion_block_add_data': block_add_data, 'onion_block_size': block_size,
         'onion_block_min_maxsize': block_noop}
JQ = {8: b'\\b', 12: b'\\f', 10: b'\\n', 13: b'\\r', 9: b'\\t', 34: b'\\"', 92: b'\\\\'}


def json_ctl(c):
    return And(Or(z3.ULT(c, 32), c == 127), *[c != k for k in JQ])


def json_enc(c, d):
    u = [bv(92, 8), bv(117, 8), bv(48, 8), bv(48, 8), hexdigit(z3.LShR(c, 4)), hexdigit(c)][d]
    return If(json_ctl(c), u, table(JQ, c, d))


@proof('P04', 'onion_json_quote_add', ['codecs.c'])
def json_quote(E):
    st, s, n, k = src_string(E)
    src = st.om(s).bm
    b, out, n0 = block_ghost(E, st)
    P = Sum('Pjson', n, lambda i: If(json_ctl(src.read(i)), iv(6), tablelen(JQ, src.read(i))), 1, 6)
    E.contracts.update(BLOCK)

    def xc(ctx):
        q = ctx.q()
        return [('jdone %s' % a, lambda c, a=a: Implies(And(k < c.q()[a], c.q()[a] <= n), And(*[
            Implies(d < P.ln(k), c.read(out, n0 + P(k) + d) == json_enc(ck, d)) for d in range(6)]))) for a in q]
    ck = transducer(E, st, s, n, k, P, json_enc, 6, extra_cands=xc)

    def post(st, ret):
        E.oblige(st, 'appended length is the quoted length', blen(st, b) == n0 + P(n))
        for d in range(6):
            E.oblige(st, 'quote of byte k, position %d' % d, Implies(d < P.ln(k), E.read_byte(st, out, n0 + P(k) + d) == json_enc(ck, d)))
        E.oblige(st, 'quoted text never contains a raw quote, backslash-free control or DEL', Implies(P.ln(k) == 1, And(
            z3.UGE(E.read_byte(st, out, n0 + P(k)), 32), E.read_byte(st, out, n0 + P(k)) != 34, E.read_byte(st, out, n0 + P(k)) != 92)))
    E.run(st, 'onion_json_quote_add', [Ptr(b, iv(0)), Ptr(s, iv(0))], post)


def hexs(bs):
    r = z3.BitVecVal(0, 32)
    for x in bs:
        r = r * 16 + z3.ZeroExt(24, hexval(x))
    return r


@proof('P04', 'hex4', ['codecs.c'])
def json_hex4(E):
    st, s, n, k = src_string(E)
    E.fact_hooks, E.cand_hooks, E.bounds = [], [], []
    E.unroll_sel = lambda key, fr, h: 5
    bs = [E.read_byte(st, s, iv(d)) for d in range(4)]

    def post(st, ret):
        ok = And(*[ishex(x) for x in bs])
        E.oblige(st, 'value of four hex digits, else 0', tobv(ret, 32) == If(ok, hexs(bs), bv(0, 32)))
    E.run(st, 'hex4', [Ptr(s, iv(0))], post)


def hex4_contract(E, st, a):
    p = a[0]
    bs = []
    r = z3.BitVec('hex4!%d' % uid(), 32)
    # reads stop at the first non-digit: each byte is only read when all previous ones are digits
    prev = []
    for d in range(4):
        E.oblige(st, 'in-bounds read of ' + p.obj.name, Implies(And(*prev) if prev else z3.BoolVal(True), And(p.off + d >= 0, p.off + d < p.obj.size)))
        b = E.read_byte(st, p.obj, S(p.off + d))
        bs.append(b)
        prev.append(ishex(b))
    st.add(r == If(And(*prev), hexs(bs), bv(0, 32)))
    return r


SIMPLE = {98: 8, 102: 12, 110: 10, 114: 13, 116: 9}


@proof('P04', 'onion_json_unquote_add', ['codecs.c'], budget=250)
def json_unquote(E):
    """token sequence: boundary(i), W(i)=bytes produced before i; each token yields exactly its decoding"""
    st, s, n, k0 = src_string(E)
    src = st.om(s).bm
    b, out, n0 = block_ghost(E, st)
    E.contracts.update(BLOCK)
    E.contracts['hex4'] = hex4_contract
    E.unroll_sel = lambda key, fr, h: 5 if (len(fr.path.split('/')) > 2 or any(h != o and h in body for o, body in fr.f.loops.items())) else 0
    W = z3.Function('W', z3.IntSort(), z3.IntSort())
    B = z3.Function('boundary', z3.IntSort(), z3.BoolSort())
    R = src.read
    q0 = R(iv(0)) == 34
    start = If(q0, iv(1), iv(0))
    eos = If(q0, bv(34, 8), bv(0, 8))

    def inb(i, d):
        return i + d < n

    def tok(i):
        """(bad, length, outlen, bytes) of the token at i"""
        c1 = R(i + 1)
        esc = R(i) == 92
        isu = And(esc, c1 == 117)
        h = [R(i + 2 + d) for d in range(4)]
        hok = And(*[ishex(x) for x in h])
        uc = If(hok, hexs(h), bv(0, 32))
        low = And(z3.UGE(uc, 0xdc00), z3.ULE(uc, 0xdfff))
        high = And(z3.UGE(uc, 0xd800), z3.ULE(uc, 0xdbff))
        h2 = [R(i + 8 + d) for d in range(4)]
        uc2 = hexs(h2)
        pair = And(R(i + 6) == 92, R(i + 7) == 117, *[ishex(x) for x in h2], z3.UGE(uc2, 0xdc00), z3.ULE(uc2, 0xdfff))
        cp = If(high, bv(0x10000, 32) + ((uc - 0xd800) << 10) + (uc2 - 0xdc00), uc)
        bad = Or(And(esc, c1 == 0), And(isu, Or(uc == 0, low, And(high, Not(pair)))))
        n1, n2, n3 = z3.ULT(cp, 0x80), z3.ULT(cp, 0x800), z3.ULT(cp, 0x10000)
        ol = If(isu, If(n1, iv(1), If(n2, iv(2), If(n3, iv(3), iv(4)))), iv(1))
        il = If(isu, If(high, iv(12), iv(6)), If(esc, iv(2), iv(1)))

        def ex(sh, mask, mark):
            return z3.Extract(7, 0, (z3.LShR(cp, sh) & mask) | mark)
        simple = c1
        for a_, v_ in SIMPLE.items():
            simple = If(c1 == a_, bv(v_, 8), simple)
        by = [
            If(isu, If(n1, ex(0, 0x7f, 0), If(n2, ex(6, 0x1f, 0xc0), If(n3, ex(12, 0x0f, 0xe0), ex(18, 0x07, 0xf0)))), If(esc, simple, R(i))),
            If(n2, ex(0, 0x3f, 0x80), If(n3, ex(6, 0x3f, 0x80), ex(12, 0x3f, 0x80))),
            If(n3, ex(0, 0x3f, 0x80), ex(6, 0x3f, 0x80)), ex(0, 0x3f, 0x80)]
        return bad, il, ol, by
    k = z3.Int('kt')
    st.add(k >= start, k < n, B(start), W(start) == 0)
    kbad, kil, kol, kby = tok(k)
    st.add(R(k) != eos, Not(kbad), B(k))
    st.add(z3.BoolVal(True))

    def nzs(i):
        return [Implies(And(i + d >= 0, i + d < n), R(i + d) != 0) for d in range(12)] + [Implies(i + d == n, R(i + d) == 0) for d in range(13)]
    for c in nzs(k) + nzs(iv(0)):
        st.add(c)

    def step(i):
        bad, il, ol, by = tok(i)
        live = And(B(i), i >= start, i < n, R(i) != eos)
        return [Implies(And(live, Not(bad)), And(B(i + il), W(i + il) == W(i) + ol)),
                # token boundaries form one increasing sequence, hence tokens do not overlap; W grows along it
                Implies(And(live, Not(bad), i < k), And(i + il <= k, W(i + il) <= W(k))), Implies(And(live, Not(bad), k < i), And(k + kil <= i, W(k) + kol <= W(i))),
                Implies(And(i == k), W(i) == W(k))]
    ts, tt = z3.Ints('s t')
    Sp = z3.Function('Sp', z3.IntSort(), z3.IntSort())
    lemma('token boundaries increase along the sequence (step)', And(Sp(ts + 1) <= Sp(tt), ts < tt, Sp(tt + 1) >= Sp(tt) + 1), Sp(ts + 1) <= Sp(tt + 1))
    for c in step(k):
        st.add(c)
    st.add(W(k) >= 0)

    def facts(ctx):
        o = []
        for q in ctx.q().values():
            o += step(q) + nzs(q)
        return o

    def cands(ctx):
        o = []
        q = ctx.q()
        for a in q:
            o.append(('B %s' % a, lambda c, a=a: And(B(c.q()[a]), c.q()[a] >= start)))
            o.append(('kdone %s' % a, lambda c, a=a: Implies(k < c.q()[a], And(k + kil <= c.q()[a], W(k) + kol <= W(c.q()[a])))))
            o.append(('kb %s' % a, lambda c, a=a: Implies(k < c.q()[a], And(*[Implies(d < kol, c.read(out, n0 + W(k) + d) == kby[d]) for d in range(4)]))))
            for b_ in q:
                if a != b_:
                    o.append(('%s=W(%s)' % (b_, a), lambda c, a=a, b_=b_: c.q()[b_] == n0 + W(c.q()[a])))
        return o
    E.fact_hooks, E.cand_hooks, E.bounds = [facts], [cands], [('n', n)]

    def post(st, ret):
        L = blen(st, b)
        r = toint(ret)
        E.oblige(st, 'error is reported as -1', Or(r == -1, r >= 0))
        e = If(q0, r - 1, r)          # position of the terminator
        okr = r >= 0
        for c in nzs(e) + step(e):
            st.add(c)
        E.oblige(st, 'success stops exactly at the closing quote (or the end of an unquoted string)', Implies(okr, And(
            e >= start, e <= n, R(e) == eos, B(e), r <= n)))
        E.oblige(st, 'every token contributed exactly its decoding', Implies(okr, L == n0 + W(e)))
        for d in range(4):
            E.oblige(st, 'byte %d of token k' % d, Implies(And(okr, k < e, d < kol), E.read_byte(st, out, n0 + W(k) + d) == kby[d]))
    E.run(st, 'onion_json_unquote_add', [Ptr(b, iv(0)), Ptr(s, iv(0))], post)
