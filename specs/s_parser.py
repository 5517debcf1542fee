"""Contracts of src/onion/request_parser.c: the token readers and the parser states.

Every token reader is specified as a function of the bytes stored so far followed by the bytes at hand, so the outcome of a
stream does not depend on where it was cut; the stored bytes never pass the token buffer."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
F = ['request_parser.c']
NEED, READY, IERR = 1, 5, -500
STRING, KEY, LINE, NEW_LINE, URLENCODE, MP_BOUNDARY, MP_END, MP_NEXT, STRING_NL = range(1001, 1010)


def tf():
    return front.offsets('onion_token', ['str', 'pos', 'extra', 'extra_size', 'fd'], 'request_parser.c')


def bf():
    return front.offsets('onion_buffer', ['data', 'size', 'pos'], 'request_parser.c')


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    return State()


class Tok:
    """a token with `pos` bytes stored and n bytes of data of which p are already used"""

    def __init__(self, E, st, cap=None, extra=None):
        f, g = tf(), bf()
        self.E, self.f, self.g = E, f, g
        self.cap = f['str'][1]
        self.tp = z3.Int('tokpos')
        self.n, self.p = z3.Ints('n p')
        st.add(self.tp >= 0, self.tp < self.cap, self.n >= 0, self.n < (1 << 30), self.p >= 0, self.p <= self.n)
        self.t = E.newobj(st, 'token', f[''][1], 'heap')
        E.poke(st, self.t, iv(f['pos'][0]), 8, self.tp)
        if extra is not None:
            E.poke(st, self.t, iv(f['extra'][0]), 8, extra)
        else:
            E.poke(st, self.t, iv(f['extra'][0]), 8, NULL)
        self.old = st.om(self.t).bm
        self.src = E.newobj(st, 'data', self.n, 'input', const=True)
        self.D = st.om(self.src).bm
        self.b = E.newobj(st, 'odata', g[''][1], 'stack')
        E.poke(st, self.b, iv(g['data'][0]), 8, Ptr(self.src, iv(0)))
        E.poke(st, self.b, iv(g['size'][0]), 8, self.n)
        E.poke(st, self.b, iv(g['pos'][0]), 8, self.p)
        E.hints = [('data', self.D, self.n)]
        E.bounds += [('n', self.n), ('cap', iv(self.cap)), ('cap1', iv(self.cap - 1))]

    def args(self):
        return [Ptr(self.t, iv(0)), Ptr(self.b, iv(0))]

    def tpos(self, st):
        return toint(self.E.load(st, Ptr(self.t, iv(self.f['pos'][0])), ir.I[64], None))

    def dpos(self, st):
        return toint(self.E.load(st, Ptr(self.b, iv(self.g['pos'][0])), ir.I[64], None))

    def dsize(self, st):
        return toint(self.E.load(st, Ptr(self.b, iv(self.g['size'][0])), ir.I[64], None))

    def str(self, st, k):
        return self.E.read_byte(st, self.t, k)


def isspace(c):
    return Or(c == 9, c == 10, c == 13, c == 32)


def linear(E, T, delim, extra=lambda c: []):
    """invariants of the copying loops: str[tp + (j-p)] = data[j] for every consumed non-delimiter byte, the rest unchanged"""
    t, src = T.t, T.src

    def cands(ctx):
        dp = 'm:odata.%d' % T.g['pos'][0]
        tk = 'm:token.%d' % T.f['pos'][0]
        out = []
        q = ctx.q()
        if dp not in q:
            return out
        out.append(('copied', pointwise(ctx.key, t, lambda c, m: Implies(And(m >= T.tp, m < T.tp + c.q()[dp] - 1 - T.p), c.st.om(t).bm.read(m) == T.D.read(m - T.tp + T.p)))))
        out.append(('kept', pointwise(ctx.key, t, lambda c, m: Implies(And(m >= 0, m < T.tp), c.st.om(t).bm.read(m) == T.old.read(m)))))
        out.append(('nodelim', lambda c: Implies(And(T.j >= T.p, T.j < c.q()[dp] - 1), Not(delim(T.D.read(T.j))))))
        for n, v in ctx.phis.items():
            if z3.is_expr(v) and z3.is_bv(v):
                out.append(('%s=last' % n, lambda c, n=n: (tobv(c.phis[n], 8) == T.D.read(c.q()[dp] - 1)) if z3.is_bv(c.phis.get(n)) and c.phis[n].size() == 8 else None))
        if tk in q:
            out.append(('sync', lambda c: c.q()[tk] == T.tp + c.q()[dp] - 1 - T.p))
            out.append(('tokcap', lambda c: c.q()[tk] < T.cap))
        return out + extra(ctx)
    E.cand_hooks = [cands]


@proof(['P09', 'P10'], 'token_read_STRING', F)
def tok_string(E):
    st = init(E)
    T = Tok(E, st)
    j, i = z3.Ints('j i')
    T.j = j
    st.add(j >= T.p, j < T.n, i >= 0, i < T.tp, T.tp < T.cap - 1)
    linear(E, T, isspace)

    def post(st, ret):
        ret = toint(ret)
        q, tp = T.dpos(st), T.tpos(st)
        E.oblige(st, 'consumes data only forward and within it', And(q >= T.p, q <= T.n))
        E.oblige(st, 'token stays inside its buffer', And(tp >= 0, tp < T.cap - 1 + If(ret == IERR, 1, 0)))
        E.oblige(st, 'stored bytes kept', Implies(ret != IERR, T.str(st, i) == T.old.read(i)))
        fin = Or(ret == STRING, ret == STRING_NL)
        E.oblige(st, 'outcome is token, need more or too long', Or(fin, ret == NEED, ret == IERR))
        used = If(fin, q - 1, q)
        E.oblige(st, 'no delimiter is skipped', Implies(j < used, Not(isspace(T.D.read(j)))))
        E.oblige(st, 'data appended byte for byte', Implies(j < used, T.str(st, T.tp + j - T.p) == T.D.read(j)))
        E.oblige(st, 'token ends at its delimiter', Implies(fin, And(q > T.p, isspace(T.D.read(q - 1)), T.str(st, T.tp + q - 1 - T.p) == 0, tp == 0)))
        E.oblige(st, 'newline is told from blank', Implies(fin, (ret == STRING_NL) == (T.D.read(q - 1) == 10)))
        E.oblige(st, 'need more only when all data is stored', Implies(ret == NEED, And(q == T.n, tp == T.tp + T.n - T.p)))
        E.oblige(st, 'refused only when the token is full', Implies(ret == IERR, T.tp + q - T.p == T.cap - 1))
    E.run(st, 'token_read_STRING', T.args(), post)


def skipcr(E, T, st, delim):
    """token_read_until copies every byte but carriage returns: positions advance by the count of other bytes"""
    P = Sum('Pcr', T.n, lambda i: If(T.D.read(i) == 13, iv(0), iv(1)), 0, 1)
    t, j = T.t, T.j
    dp, tk = 'm:odata.%d' % T.g['pos'][0], 'm:token.%d' % T.f['pos'][0]
    st.add(P.base(), P.unfold(j), P.mono(T.p, j), P.mono(T.p, T.n), P.unfold(T.p), P.mono(iv(0), T.p))

    def facts(ctx):
        out = []
        q = ctx.q()
        if dp in q:
            for x in (q[dp], q[dp] - 1):
                out += [P.unfold(x), P.mono(T.p, x), P.mono(j, x), P.mono(j + 1, x), P.mono(x, j)]
        return out

    def cands(ctx):
        out = []
        q = ctx.q()
        if dp not in q:
            return out
        out.append(('kept', pointwise(ctx.key, t, lambda c, m: Implies(And(m >= 0, m < T.tp), c.st.om(t).bm.read(m) == T.old.read(m)))))
        out.append(('copied', lambda c: Implies(And(j >= T.p, j < c.q()[dp] - 1, T.D.read(j) != 13), c.st.om(t).bm.read(T.tp + P(j) - P(T.p)) == T.D.read(j))))
        out.append(('nodelim', lambda c: Implies(And(j >= T.p, j < c.q()[dp] - 1), Not(delim(T.D.read(j))))))
        for n, v in ctx.phis.items():
            if z3.is_expr(v) and z3.is_bv(v):
                out.append(('%s=last' % n, lambda c, n=n: (tobv(c.phis[n], 8) == T.D.read(c.q()[dp] - 1)) if z3.is_bv(c.phis.get(n)) and c.phis[n].size() == 8 else None))
        if tk in q:
            out.append(('sync', lambda c: c.q()[tk] == T.tp + P(c.q()[dp] - 1) - P(T.p)))
            out.append(('tokcap', lambda c: c.q()[tk] < T.cap - 1))
        return out
    E.fact_hooks, E.cand_hooks = [facts], [cands]
    return P


def until_post(E, st, T, ret, P, d, i, key=False):
    j = T.j
    delim = lambda c: Or(c == d, c == 10)
    ret = toint(ret)
    q, tp = T.dpos(st), T.tpos(st)
    st.add(P.unfold(q - 1), P.unfold(q), P.mono(T.p, q), P.mono(T.p, q - 1), P.mono(j, q), P.mono(j + 1, q - 1), P.mono(j + 1, q))
    E.oblige(st, 'consumes data only forward and within it', And(q >= T.p, q <= T.n))
    E.oblige(st, 'token stays inside its buffer', And(tp >= 0, tp < T.cap - 1 + If(ret == IERR, 1, 0)))
    E.oblige(st, 'stored bytes kept', Implies(ret != IERR, T.str(st, i) == T.old.read(i)))
    last = T.D.read(q - 1)
    endp = T.tp + P(q - 1) - P(T.p)
    used = If(Or(ret == STRING, ret == STRING_NL, ret == NEW_LINE, ret == KEY), q - 1, q)
    E.oblige(st, 'no delimiter is skipped', Implies(And(ret != IERR, j < used), Not(delim(T.D.read(j)))))
    E.oblige(st, 'data but carriage returns appended byte for byte', Implies(And(ret != IERR, j < used, T.D.read(j) != 13), T.str(st, T.tp + P(j) - P(T.p)) == T.D.read(j)))
    one = KEY if key else STRING
    fin = Or(ret == one, ret == NEW_LINE, *([] if key else [ret == STRING_NL]))
    E.oblige(st, 'outcome is token, end of line, need more or an error', Or(fin, ret == NEED, ret == IERR))
    E.oblige(st, 'token ends at its delimiter', Implies(fin, And(q > T.p, T.str(st, endp) == 0, tp == 0)))
    E.oblige(st, 'delimited string', (ret == one) == And(Or(ret == one), last == d, q > T.p))
    E.oblige(st, 'delimited string stops at the delimiter', Implies(ret == one, last == d))
    E.oblige(st, 'empty line iff only the newline was there', Implies(ret == NEW_LINE, And(last == 10, endp == 0)))
    if not key:
        E.oblige(st, 'line end after text', Implies(ret == STRING_NL, And(last == 10, endp > 0)))
        E.oblige(st, 'refused only when the token is full', Implies(ret == IERR, T.tp + P(q) - P(T.p) == T.cap - 1))
    else:
        E.oblige(st, 'refused only when the token is full or the line ends without the delimiter', Implies(ret == IERR, Or(T.tp + P(q) - P(T.p) == T.cap - 1, And(last == 10, endp > 0))))
    E.oblige(st, 'need more only when all data is stored', Implies(ret == NEED, And(q == T.n, tp == T.tp + P(T.n) - P(T.p))))


@proof(['P09', 'P10', 'P13'], 'token_read_until', F)
def tok_until(E):
    st = init(E)
    T = Tok(E, st)
    j, i = z3.Ints('j i')
    T.j = j
    d = z3.BitVec('delimiter', 8)
    st.add(j >= T.p, j < T.n, i >= 0, i < T.tp, T.tp < T.cap - 1, d != 10, d != 13)
    P = skipcr(E, T, st, lambda c: Or(c == d, c == 10))
    E.run(st, 'token_read_until', T.args() + [d], lambda st, ret: until_post(E, st, T, ret, P, d, i))


@proof(['P09', 'P10', 'P13'], 'token_read_KEY', F)
def tok_key(E):
    st = init(E)
    T = Tok(E, st)
    j, i = z3.Ints('j i')
    T.j = j
    d = bv(ord(':'), 8)
    st.add(j >= T.p, j < T.n, i >= 0, i < T.tp, T.tp < T.cap - 1)
    P = skipcr(E, T, st, lambda c: Or(c == d, c == 10))
    E.run(st, 'token_read_KEY', T.args(), lambda st, ret: until_post(E, st, T, ret, P, d, i, True))


@proof(['P09', 'P10', 'P13'], 'token_read_LINE', F)
def tok_line(E):
    st = init(E)
    T = Tok(E, st)
    j, i = z3.Ints('j i')
    T.j = j
    C = T.cap - 1
    st.add(j >= T.p, j < T.n, i >= 0, i < T.tp)
    t = T.t
    dp, tk = 'm:odata.%d' % T.g['pos'][0], 'm:token.%d' % T.f['pos'][0]

    def mn(a, b):
        return If(a < b, a, b)

    def cands(ctx):
        q = ctx.q()
        out = []
        if dp not in q:
            return out
        used = lambda c: c.q()[dp] - 1 - T.p
        out.append(('copied', pointwise(ctx.key, t, lambda c, m: Implies(And(m >= T.tp, m < T.tp + used(c), m < C), c.st.om(t).bm.read(m) == T.D.read(m - T.tp + T.p)))))
        out.append(('kept', pointwise(ctx.key, t, lambda c, m: Implies(And(m >= 0, m < T.tp), c.st.om(t).bm.read(m) == T.old.read(m)))))
        out.append(('nodelim', lambda c: Implies(And(j >= T.p, j < c.q()[dp] - 1), T.D.read(j) != 10)))
        for n, v in ctx.phis.items():
            if z3.is_expr(v) and z3.is_bv(v):
                out.append(('%s=last' % n, lambda c, n=n: (tobv(c.phis[n], 8) == T.D.read(c.q()[dp] - 1)) if z3.is_bv(c.phis.get(n)) and c.phis[n].size() == 8 else None))
        if tk in q:
            out.append(('sync', lambda c: c.q()[tk] == mn(T.tp + used(c), iv(C))))
            for n, v in ctx.phis.items():
                if z3.is_expr(v) and isint(v):
                    out.append(('%s=full' % n, lambda c, n=n: Implies(toint(c.phis[n]) != 0, c.q()[tk] == C)))
        return out
    E.cand_hooks = [cands]

    def post(st, ret):
        ret = toint(ret)
        q, tp = T.dpos(st), T.tpos(st)
        E.oblige(st, 'consumes data only forward and within it', And(q >= T.p, q <= T.n))
        E.oblige(st, 'token stays inside its buffer', And(tp >= 0, tp < T.cap))
        E.oblige(st, 'stored bytes kept', Implies(i < tp, T.str(st, i) == T.old.read(i)))
        E.oblige(st, 'outcome is line or need more', Or(ret == LINE, ret == NEED))
        used = If(ret == LINE, q - 1, q)
        full = mn(T.tp + used - T.p, iv(C))
        E.oblige(st, 'no newline is skipped', Implies(j < used, T.D.read(j) != 10))
        E.oblige(st, 'data appended byte for byte up to the limit', Implies(And(j < used, T.tp + j - T.p < tp), T.str(st, T.tp + j - T.p) == T.D.read(j)))
        E.oblige(st, 'need more only when all data is stored', Implies(ret == NEED, And(q == T.n, tp == full)))
        lastc = If(full - 1 >= T.tp, T.D.read(full - 1 - T.tp + T.p), T.old.read(full - 1))
        E.oblige(st, 'line ends at its newline, one final carriage return dropped', Implies(ret == LINE, And(
            q > T.p, T.D.read(q - 1) == 10, T.str(st, tp) == 0, tp == full - If(And(full > 0, lastc == 13), 1, 0))))
    E.run(st, 'token_read_LINE', T.args(), post)


@proof(['P09', 'P11', 'P12'], 'token_read_URLENCODE', F)
def tok_urlencode(E):
    st = init(E)
    es = z3.Int('extra_size')
    st.add(es >= 1, es < (1 << 40))
    ex = E.newobj(st, 'extra', es + 1, 'heap')
    T = Tok(E, st, extra=Ptr(ex, iv(0)))
    f = T.f
    tp = z3.Int('bodypos')
    E.poke(st, T.t, iv(f['pos'][0]), 8, tp)
    E.poke(st, T.t, iv(f['extra_size'][0]), 8, es)
    j, i = z3.Ints('j i')
    st.add(tp >= 0, tp < es, j >= T.p, j < T.n, i >= 0, i < tp)
    old = st.om(ex).bm

    def post(st, ret):
        ret = toint(ret)
        q, n2, t2 = T.dpos(st), T.dsize(st), T.tpos(st)
        take = If(T.n - T.p < es - tp, T.n - T.p, es - tp)
        left = n2 - q
        E.oblige(st, 'consumes exactly what the body still needs', And(left == T.n - T.p - take, t2 == tp + take))
        E.oblige(st, 'earlier bytes kept', E.read_byte(st, ex, i) == old.read(i))
        E.oblige(st, 'data appended byte for byte', Implies(j < T.p + take, E.read_byte(st, ex, tp + j - T.p) == T.D.read(j)))
        E.oblige(st, 'complete exactly when the announced length is there', And(Or(ret == URLENCODE, ret == NEED), (ret == URLENCODE) == (tp + take == es)))
        E.oblige(st, 'complete body is terminated', Implies(ret == URLENCODE, E.read_byte(st, ex, es) == 0))
    E.run(st, 'token_read_URLENCODE', T.args(), post)


def two(E, func, table, first_nl):
    """readers of a two-byte separator kept in the token between calls: outcome is a function of the concatenated bytes"""
    st = init(E)
    T = Tok(E, st)
    st.add(T.tp < 2, Implies(T.tp == 1, T.old.read(iv(0)) != 10))
    E.unroll_sel = lambda key, fr, h: 3

    def post(st, ret):
        ret = toint(ret)
        q, t2 = T.dpos(st), T.tpos(st)
        c0 = If(T.tp == 1, T.old.read(iv(0)), T.D.read(T.p))
        have0 = Or(T.tp == 1, T.p < T.n)
        s = If(T.tp == 1, T.p, T.p + 1)     # where the second byte is
        c1 = T.D.read(s)
        nl = And(T.tp == 0, T.p < T.n, c0 == 10)
        have1 = And(have0, s < T.n, Not(nl))
        want = iv(IERR)
        for (a, b), v in table.items():
            want = If(And(c0 == ord(a), c1 == ord(b)), iv(v), want)
        E.oblige(st, 'single newline', Implies(nl, And(ret == first_nl, q == T.p + 1, t2 == 0)))
        E.oblige(st, 'two bytes decide', Implies(have1, And(ret == want, q == s + 1, t2 == 0)))
        E.oblige(st, 'one byte is kept for the next call', Implies(And(have0, Not(have1), Not(nl)), And(ret == NEED, q == T.n, t2 == 1, T.str(st, iv(0)) == c0)))
        E.oblige(st, 'no data, nothing changes', Implies(Not(have0), And(ret == NEED, q == T.p, t2 == 0)))
    E.run(st, func, T.args(), post)


@proof(['P09', 'P10'], 'token_read_NEW_LINE', F)
def tok_newline(E):
    two(E, 'token_read_NEW_LINE', {('\r', '\n'): NEW_LINE}, NEW_LINE)


@proof(['P09', 'P13'], 'token_read_MULTIPART_next', F)
def tok_mpnext(E):
    two(E, 'token_read_MULTIPART_next', {('\r', '\n'): MP_NEXT, ('-', '-'): MP_END}, MP_NEXT)


# ---------------------------------------------------------------- request object and multipart buffer
def rf():
    return front.offsets('struct onion_request_t', ['connection.listen_point', 'flags', 'fullpath', 'path', 'headers', 'GET', 'POST', 'FILES', 'session', 'data',
                                                    'cookies', 'session_id', 'parser', 'parser_data', 'websocket', 'free_list', 'connection.fd', 'connection.cli_info'])


def mf():
    return front.offsets('onion_multipart_buffer', ['boundary', 'size', 'pos', 'startpos', 'data', 'name', 'filename', 'file_total_size', 'post_total_size'], 'request_parser.c')


def sf():
    return front.offsets('struct onion_t', ['max_post_size', 'max_file_size', 'sessions', 'root_handler', 'internal_error_handler'])


STATES = ['parse_' + n for n in ('POST_multipart_next', 'CONTENT_LENGTH', 'PUT', 'POST_multipart_file', 'POST_multipart_data', 'POST_multipart_headers_key', 'POST_multipart_content_type',
                                'POST_multipart_ignore_header', 'POST_multipart_start', 'POST_urlencode', 'headers_KEY', 'headers_VALUE', 'headers_VALUE_multiline_if_space', 'headers_VALUE_skip_leading_whitespace',
                                'headers_KEY_skip_NL', 'headers_VERSION', 'headers_URL', 'headers_GET')]


class Req:
    """a request whose parser data is the token T"""

    def __init__(self, E, st, T, parser='parse_headers_GET', fresh=False):
        f = rf()
        self.E, self.f = E, f
        self.mp_, self.mf_ = z3.Ints('max_post_size max_file_size')
        st.add(self.mp_ >= 0, self.mp_ < (1 << 30), self.mf_ >= 0, self.mf_ < (1 << 40))
        g = sf()
        lpf = front.offsets('struct onion_listen_point_t', ['server', 'secure', 'write', 'close', 'request_init'])
        self.srv = E.newobj(st, 'server', g[''][1], 'input')
        E.poke(st, self.srv, iv(g['max_post_size'][0]), 8, self.mp_)
        E.poke(st, self.srv, iv(g['max_file_size'][0]), 8, self.mf_)
        self.lp = E.newobj(st, 'lp', lpf[''][1], 'input')
        E.poke(st, self.lp, iv(lpf['server'][0]), 8, Ptr(self.srv, iv(0)))
        self.o = E.newobj(st, 'req', f[''][1], 'heap')
        E.poke(st, self.o, iv(f['connection.listen_point'][0]), 8, Ptr(self.lp, iv(0)))
        E.poke(st, self.o, iv(f['parser'][0]), 8, Fn(parser))
        E.poke(st, self.o, iv(f['parser_data'][0]), 8, Ptr(T.t, iv(0)) if T is not None else NULL)
        for n in ('fullpath', 'path', 'GET', 'POST', 'FILES', 'session', 'data', 'cookies', 'session_id', 'free_list', 'websocket', 'headers'):
            E.poke(st, self.o, iv(f[n][0]), 8, NULL)

    def p(self):
        return Ptr(self.o, iv(0))

    def get(self, st, n, ty=ir.PTR):
        return self.E.load(st, Ptr(self.o, iv(self.f[n][0])), ty, None)

    def set(self, st, n, v):
        self.E.poke(st, self.o, iv(self.f[n][0]), self.f[n][1], v)

    def parser(self, st):
        v = self.get(st, 'parser')
        if not isinstance(v, Fn):
            return None
        n = v.name.split('.c.')[-1].lstrip('@')
        if n not in STATES:
            raise Unsupported('a parser state these contracts do not know: ' + n)
        return n


class Mp:
    """multipart parser memory: header, boundary text (B bytes and NUL) and a data area with `left` bytes still allowed"""

    def __init__(self, E, st, state='data'):
        f = mf()
        self.E, self.f = E, f
        S0 = f[''][1]
        self.S0 = S0
        self.B, self.left, self.doff, self.m, self.s, self.cl, self.ft = z3.Ints('B left doff m s cl file_total')
        st.add(self.B >= 4, self.B < (1 << 14), self.left >= 0, self.cl >= 0, self.cl < (1 << 30), self.doff >= S0 + self.B + 2, self.ft >= 0, self.ft < (1 << 40))
        self.size = self.cl + S0 + self.B + 3
        self.o = E.newobj(st, 'mp', self.size, 'heap')
        st.add(self.s >= 0, self.s <= 1, Or(self.m == 0, self.m >= self.s), self.m >= 0, self.m < self.B)     # with nothing matched, where it started does not matter
        E.poke(st, self.o, iv(f['boundary'][0]), 8, Ptr(self.o, iv(S0 + 1)))
        for n, v in (('size', self.B), ('pos', self.m), ('startpos', self.s), ('file_total_size', self.ft), ('post_total_size', self.left)):
            E.poke(st, self.o, iv(f[n][0]), 8, v)
        E.poke(st, self.o, iv(f['data'][0]), 8, Ptr(self.o, self.doff))
        self.bm0 = st.om(self.o).bm

    def bd(self, k):
        return self.bm0.read(k + self.S0 + 1)

    def get(self, st, n, ty=ir.I[64]):
        v = self.E.load(st, Ptr(self.o, iv(self.f[n][0])), ty, None)
        return v if ty is ir.PTR else toint(v)

    def room(self, doff, tp, left):
        """the data still allowed fits the allocation, with one byte to spare"""
        return doff + tp + left <= self.S0 + self.B + 2 + self.cl


@proof(['P09', 'P13'], 'parse_POST_multipart_data', F, budget=200)
def mp_data(E):
    st = init(E)
    M = Mp(E, st)
    T = Tok(E, st, extra=Ptr(M.o, iv(0)))
    tp = z3.Int('valpos')
    E.poke(st, T.t, iv(T.f['pos'][0]), 8, tp)
    name = E.newobj(st, 'partname', 8, 'input')
    E.poke(st, M.o, iv(M.f['name'][0]), 8, Ptr(name, iv(0)))
    R = Req(E, st, T, 'parse_POST_multipart_data')
    post_dict = E.newobj(st, 'POSTdict', 8, 'input')
    R.set(st, 'POST', Ptr(post_dict, iv(0)))
    x, y = z3.Ints('x y')
    st.add(tp >= 0, M.room(M.doff, tp, M.left), x >= 0, y >= 0, M.bd(iv(0)) == 13, M.bd(iv(1)) == 10)
    # matched prefix may start at LF only with startpos 1
    o, dbm = M.o, T.D
    pend0 = If(M.m == 0, 0, M.m - M.s)
    pe = lambda m, s: If(m == 0, 0, m - s)

    def stream(k):
        return If(k < tp, M.bm0.read(M.doff + k), If(k < tp + pend0, M.bd(M.s + k - tp), dbm.read(T.p + k - tp - pend0)))
    dp, tk = 'm:odata.%d' % T.g['pos'][0], 'm:token.%d' % T.f['pos'][0]
    mk, sk, lk = ['m:mp.%d' % M.f[n][0] for n in ('pos', 'startpos', 'post_total_size')]

    def qv(c, k, d):
        return c.q().get(k, d)

    def cands(ctx):
        out = []
        tpv = lambda c: qv(c, tk, tp)
        mv = lambda c: qv(c, mk, M.m)
        sv = lambda c: qv(c, sk, M.s)
        dv = lambda c: qv(c, dp, T.p)
        out.append(('conserve', lambda c: tpv(c) + pe(mv(c), sv(c)) == tp + pend0 + dv(c) - T.p))
        out.append(('stored', lambda c: Implies(x < tpv(c), c.read(o, M.doff + x) == stream(x))))
        out.append(('pending', lambda c: Implies(And(x >= tpv(c), x < tpv(c) + pe(mv(c), sv(c))), M.bd(sv(c) + x - tpv(c)) == stream(x))))
        out.append(('boundary kept', lambda c: Implies(And(y >= 0, y <= M.B), c.read(o, M.S0 + 1 + y) == M.bd(y))))
        out.append(('bkept', pointwise(ctx.key, o, lambda c, m: Implies(And(m > M.S0, m <= M.S0 + 1 + M.B), c.st.om(o).bm.read(m) == M.bm0.read(m)))))
        out.append(('m', lambda c: And(sv(c) >= 0, sv(c) <= 1, Or(mv(c) == 0, sv(c) <= mv(c)), mv(c) >= 0, mv(c) < M.B)))
        out.append(('room', lambda c: And(qv(c, lk, M.left) >= 0, M.room(M.doff, tpv(c), qv(c, lk, M.left)))))
        return out
    E.cand_hooks = [cands]
    E.skolem_list = [('mp', M.doff + x)]
    E.measure_terms = [('stream left, then pending bytes', lambda c: 2 * (T.n - qv(c, dp, T.p)) + If(qv(c, mk, M.m) > 0, 1, 0))]
    added = []

    def dict_add(E, st, a):
        added.append(1)
        st.ghost['added'] = (a, T.tpos(st), st.om(o).bm, M.get(st, 'post_total_size'))
        return None
    E.contracts['onion_dict_add'] = dict_add

    def post(st, ret):
        ret = toint(ret)
        q = T.dpos(st)
        E.oblige(st, 'consumes data only forward and within it', And(q >= T.p, q <= T.n))
        E.oblige(st, 'need more or refused', Or(ret == NEED, ret == IERR))
        par = R.parser(st)
        if par == 'parse_POST_multipart_next':
            g = st.ghost.get('added')
            E.oblige(st, 'value is stored under its name', g is not None)
            if g is None:
                return
            (d, k, v, fl), _, bm, left = g
            L = q - T.p + tp + pend0 - (M.B - If(M.E is None, 0, iv(0)))
            E.oblige(st, 'stored in POST under the part name', And(d.obj is post_dict, k.obj is name, v.obj is o))
            E.oblige(st, 'value starts where the data area was', v.off == M.doff)
            nd = M.get(st, 'data', ir.PTR)
            ln = nd.off - M.doff - 1          # bytes of the value
            E.oblige(st, 'value is terminated', E.read_byte(st, o, M.doff + ln) == 0)
            E.oblige(st, 'value is exactly the bytes before the delimiter', Implies(x < ln, E.read_byte(st, o, M.doff + x) == stream(x)))
            tot = tp + pend0 + q - T.p
            E.oblige(st, 'the delimiter follows the value', And(tot - ln >= M.B - 1, tot - ln <= M.B,
                     Implies(And(x >= ln, x < tot), stream(x) == M.bd(x - ln + M.B - (tot - ln)))))
            E.oblige(st, 'next part starts fresh', And(T.tpos(st) == 0, M.get(st, 'pos') == 0))
            E.oblige(st, 'room accounting', And(M.get(st, 'post_total_size') >= 0, M.room(nd.off, 0, M.get(st, 'post_total_size'))))
        else:
            E.oblige(st, 'parser unchanged', par == 'parse_POST_multipart_data')
            if E.prove(st, ret == IERR):
                return
            t2, m2, s2, l2 = T.tpos(st), M.get(st, 'pos'), M.get(st, 'startpos'), M.get(st, 'post_total_size')
            E.oblige(st, 'all data used', q == T.n)
            E.oblige(st, 'no byte lost: value so far and pending delimiter are the stream', And(
                t2 + pe(m2, s2) == tp + pend0 + T.n - T.p, Implies(x < t2, E.read_byte(st, o, M.doff + x) == stream(x)),
                Implies(And(x >= t2, x < t2 + pe(m2, s2)), M.bd(s2 + x - t2) == stream(x))))
            E.oblige(st, 'parser memory invariant kept', And(s2 >= 0, s2 <= 1, Or(m2 == 0, s2 <= m2), m2 < M.B, l2 >= 0, M.room(M.doff, t2, l2)))
            E.oblige(st, 'boundary text kept', Implies(y <= M.B, E.read_byte(st, o, y + M.S0 + 1) == M.bd(y)))
    E.run(st, 'parse_POST_multipart_data', [R.p(), T.args()[1]], post)


class GFile:
    """ghost contents of an open file: bytes written so far, in order"""

    def __init__(self, E, st, fd):
        self.E, self.fd = E, fd
        self.o = E.newobj(st, 'gfile', iv(1 << 60), 'ghost')
        self.l = E.newobj(st, 'gflen', 8, 'ghost')
        self.len0 = z3.Int('flen')
        st.add(self.len0 >= 0, self.len0 < (1 << 50))
        E.poke(st, self.l, iv(0), 8, self.len0)
        E.poke(st, self.l, iv(0), 8, self.len0)
        self.bm0 = st.om(self.o).bm
        E.contracts['write'] = self.write
        E.contracts['close'] = self.close

    def len(self, st):
        return self.E.load(st, Ptr(self.l, iv(0)), ir.I[64], None)

    def write(self, E, st, a):
        """write(2) on the open file: appends n bytes, or fewer, or fails"""
        fd, p, n = a
        n = toint(n)
        E.oblige(st, 'write to the open file', And(toint(fd) == self.fd, Not(z3.BoolVal(st.ghost.get('closed', 0) > 0))))
        E.oblige(st, 'length to write is not negative', n >= 0)
        s2 = st.copy()
        k = E.fint('written', st, 0)
        st.add(k <= n, k <= 1 << 30, Implies(n > 0, k >= 0))
        if not (isc(S(n)) and cval(S(n)) == 0):
            if not E.access(st, p, n, False, None):
                return [(st, k)]
            L = self.len(st)
            E.flush_range(st, p, n)
            sb = st.om(p.obj).bm
            po = p.off
            for q in E.skolems(st, self.o):
                E.pointwise(st, p.obj, S(q - L + po))
            E.store_range(st, self.o, L, k, lambda i: sb.read(S(i - L + po)))
            E.poke(st, self.l, iv(0), 8, S(L + k))
        return [(st, k), (s2, iv(-1))]

    def close(self, E, st, a):
        E.oblige(st, 'closes the open file, once', And(toint(a[0]) == self.fd, z3.BoolVal(st.ghost.get('closed', 0) == 0)))
        st.ghost['closed'] = st.ghost.get('closed', 0) + 1
        return iv(0)


@proof(['P09', 'P13'], 'parse_POST_multipart_file', F, budget=240)
def mp_file(E):
    st = init(E)
    M = Mp(E, st)
    T = Tok(E, st, extra=Ptr(M.o, iv(0)))
    E.poke(st, T.t, iv(T.f['pos'][0]), 8, iv(0))
    fd = z3.Int('fd')
    st.add(fd >= 0, fd < (1 << 20))
    E.poke(st, T.t, iv(T.f['fd'][0]), 4, fd)
    R = Req(E, st, T, 'parse_POST_multipart_file')
    G = GFile(E, st, fd)
    x, y = z3.Ints('x y')
    st.add(x >= 0, y >= 0, M.bd(iv(0)) == 13, M.bd(iv(1)) == 10)
    g0 = G.len0
    pend0 = If(M.m == 0, 0, M.m - M.s)
    pe = lambda m, s: If(m == 0, 0, m - s)

    def stream(k):     # k-th byte of the file as received
        return If(k < g0, G.bm0.read(k), If(k < g0 + pend0, M.bd(M.s + k - g0), T.D.read(T.p + k - g0 - pend0)))
    dp, gl = 'm:odata.%d' % T.g['pos'][0], 'm:gflen.0'
    mk, sk, fk = ['m:mp.%d' % M.f[n][0] for n in ('pos', 'startpos', 'file_total_size')]

    def qv(c, k, d):
        return c.q().get(k, d)

    def cands(ctx):
        out = []
        mv = lambda c: qv(c, mk, M.m)
        sv = lambda c: qv(c, sk, M.s)
        dv = lambda c: qv(c, dp, T.p)
        gv = lambda c: qv(c, gl, g0)
        fv = lambda c: qv(c, fk, M.ft)
        ints = [n for n, v in ctx.phis.items() if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v) and isint(v)]
        for n in ints:
            tv = lambda c, n=n: toint(c.phis[n])
            out.append(('conserve ' + n, lambda c, tv=tv: gv(c) + tv(c) + pe(mv(c), sv(c)) == g0 + pend0 + dv(c) - T.p))
            out.append(('counted ' + n, lambda c, tv=tv: fv(c) == M.ft + gv(c) + tv(c) - g0))
            out.append(('fill ' + n, lambda c, tv=tv: And(tv(c) >= 0, tv(c) < 1024)))
            for b in [b for b in ctx.st.objs.values() if b.kind == 'stack' and isc(S(b.size)) and cval(S(b.size)) >= 64]:
                out.append(('buffered %s %s' % (n, b.name), lambda c, tv=tv, b=b: Implies(And(x >= gv(c), x < gv(c) + tv(c)), c.read(b, x - gv(c)) == stream(x))))
            out.append(('pending ' + n, lambda c, tv=tv: Implies(And(x >= gv(c) + tv(c), x < gv(c) + tv(c) + pe(mv(c), sv(c))), M.bd(sv(c) + x - gv(c) - tv(c)) == stream(x))))
        out.append(('written', lambda c: Implies(x < gv(c), c.read(G.o, x) == stream(x))))
        out.append(('bkept', pointwise(ctx.key, M.o, lambda c, m: Implies(And(m > M.S0, m <= M.S0 + 1 + M.B), c.st.om(M.o).bm.read(m) == M.bm0.read(m)))))
        out.append(('m', lambda c: And(sv(c) >= 0, sv(c) <= 1, Or(mv(c) == 0, sv(c) <= mv(c)), mv(c) >= 0, mv(c) < M.B)))
        out.append(('limit', lambda c: Or(fv(c) == M.ft, fv(c) <= R.mf_)))
        out.append(('glen', lambda c: gv(c) >= g0))
        return out
    E.cand_hooks = [cands]
    E.skolem_list = [('gfile', x)]
    E.measure_terms = [('stream left, then pending bytes', lambda c: 2 * (T.n - qv(c, dp, T.p)) + If(qv(c, mk, M.m) > 0, 1, 0))]

    def post(st, ret):
        ret = toint(ret)
        q, gl_ = T.dpos(st), G.len(st)
        E.oblige(st, 'consumes data only forward and within it', And(q >= T.p, q <= T.n))
        E.oblige(st, 'need more or refused', Or(ret == NEED, ret == IERR))
        par = R.parser(st)
        if E.prove(st, ret == IERR):
            return
        ft2 = M.get(st, 'file_total_size')
        E.oblige(st, 'file bytes are counted once', ft2 == M.ft + gl_ - g0)
        E.oblige(st, 'the size limit is exact', Or(gl_ == g0, ft2 <= R.mf_))
        E.oblige(st, 'file holds exactly the stream', Implies(x < gl_, E.read_byte(st, G.o, x) == stream(x)))
        tot = g0 + pend0 + q - T.p
        if par == 'parse_POST_multipart_next':
            E.oblige(st, 'file closed', st.ghost.get('closed') == 1)
            E.oblige(st, 'the delimiter follows the file', And(tot - gl_ >= M.B - 1, tot - gl_ <= M.B,
                     Implies(And(x >= gl_, x < tot), stream(x) == M.bd(x - gl_ + M.B - (tot - gl_)))))
            E.oblige(st, 'next part starts fresh', And(T.tpos(st) == 0, M.get(st, 'pos') == 0))
        else:
            m2, s2 = M.get(st, 'pos'), M.get(st, 'startpos')
            E.oblige(st, 'parser unchanged', par == 'parse_POST_multipart_file')
            E.oblige(st, 'file stays open', not st.ghost.get('closed'))
            E.oblige(st, 'all data used, nothing lost', And(q == T.n, gl_ + pe(m2, s2) == tot, Implies(And(x >= gl_, x < tot), M.bd(s2 + x - gl_) == stream(x))))
            E.oblige(st, 'parser memory invariant kept', And(s2 >= 0, s2 <= 1, Or(m2 == 0, s2 <= m2), m2 < M.B))
    E.run(st, 'parse_POST_multipart_file', [R.p(), T.args()[1]], post)


# ---------------------------------------------------------------- bodies of a given length
def isp(p, o, off=0):
    return p.off == off if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


def no():
    return z3.BoolVal(False)


class Num:
    """a ghost counter kept in memory, so that loops treat it like any other variable"""

    def __init__(self, E, st, name, v=0):
        self.E = E
        self.o = E.newobj(st, name, 8, 'ghost')
        self.key = 'm:%s.0' % name
        E.poke(st, self.o, iv(0), 8, iv(v))

    def get(self, s):
        return toint(self.E.load(s, Ptr(self.o, iv(0)), ir.I[64], None))

    def add(self, s, v):
        self.E.poke(s, self.o, iv(0), 8, S(self.get(s) + v))


def body(E, st):
    """a token that expects N bytes of which tp have come, and the data at hand"""
    T = Tok(E, st)
    R = Req(E, st, T, 'parse_PUT')
    N = z3.Int('announced')
    st.pc = [c for c in st.pc if not c.eq(T.tp < T.cap)]
    st.add(N >= 0, N < (1 << 29), T.tp <= N)
    E.poke(st, T.t, iv(T.f['extra_size'][0]), 8, N)
    return T, R, N


@proof(['P09', 'P11'], 'parse_CONTENT_LENGTH', F)
def content_length(E):
    """of the data at hand exactly what is still missing of the body is added to it, unchanged and in order; the request is ready exactly when the body is complete"""
    st = init(E)
    T, R, N = body(E, st)
    C = z3.Int('have')
    st.add(C >= 0, C <= N)
    blk = E.newobj(st, 'block', 8, 'heap')
    R.set(st, 'data', Ptr(blk, iv(0)))
    added = Num(E, st, 'added')

    def bsize(E, s, a):
        E.oblige(s, 'the size of the body so far', isp(a[0], blk))
        return S(C + added.get(s))

    def badd(E, s, a):
        n = toint(a[2])
        E.oblige(s, 'adds the next bytes of the body', And(isp(a[0], blk), isp(a[1], T.src, S(T.p + added.get(s))), n >= 0, T.p + added.get(s) + n <= T.n))
        added.add(s, n)
        return E.i32(s, 'added')

    def bchar(E, s, a):
        E.oblige(s, 'adds the next byte of the body', And(isp(a[0], blk), T.p + added.get(s) < T.n, tobv(a[1], 8) == T.D.read(T.p + added.get(s))))
        added.add(s, iv(1))
        return E.i32(s, 'added')
    E.contracts.update(onion_block_size=bsize, onion_block_add_data=badd, onion_block_add_char=bchar)

    def post(s, ret):
        ret, k = toint(ret), added.get(s)
        E.oblige(s, 'takes what is there, up to the announced length', k == If(T.n - T.p < N - C, T.n - T.p, N - C))
        E.oblige(s, 'uses up what it takes, and no more', T.dpos(s) == T.p + k)
        E.oblige(s, 'ready exactly when the body is complete', And((ret == READY) == (C + k == N), Or(ret == READY, ret == NEED)))
    E.run(st, 'parse_CONTENT_LENGTH', [R.p(), Ptr(T.b, iv(0))], post)


@proof(['P09', 'P11'], 'parse_PUT', F)
def put(E):
    """of the data at hand exactly what is still missing of the file is written to it, in order, however the writes are split; the request is ready exactly when the file is complete, and a write that fails refuses it; the file is closed then"""
    st = init(E)
    T, R, N = body(E, st)
    fd = z3.Int('fd')
    st.add(fd >= 0, fd < (1 << 31))
    E.poke(st, T.t, iv(T.f['fd'][0]), 4, fd)
    wr = Num(E, st, 'written')
    rest = If(T.n - T.p < N - T.tp, T.n - T.p, N - T.tp)

    def write(E, s, a):
        n, w = toint(a[2]), wr.get(s)
        E.oblige(s, 'writes the next bytes of the file', And(toint(a[0]) == fd, isp(a[1], T.src, S(T.p + w)), n > 0, w + n <= rest) if 'closed' not in s.ghost and 'failed' not in s.ghost else no())
        r = E.fint('w', s)
        bad = s.copy()
        s.add(r > 0, r <= n)
        wr.add(s, r)
        bad.add(r <= 0, r >= -1)
        bad.ghost['failed'] = True
        return [(s, r), (bad, r)]

    def close(E, s, a):
        E.oblige(s, 'closes its file, once', toint(a[0]) == fd if 'closed' not in s.ghost else no())
        s.ghost['closed'] = True
        return E.i32(s, 'c')
    E.contracts.update(write=write, close=close)

    def cands(ctx):
        dp, tk = 'm:odata.%d' % T.g['pos'][0], 'm:token.%d' % T.f['pos'][0]
        q = ctx.q()
        out = [('count', lambda c: And(wr.get(c.st) >= 0, wr.get(c.st) <= rest)), ('src', lambda c: T.dpos(c.st) == T.p + wr.get(c.st)), ('tok', lambda c: T.tpos(c.st) == T.tp + wr.get(c.st))]
        for m, v in ctx.phis.items():
            if not isinstance(v, Ptr):
                out += [('left ' + m, lambda c, m=m: toint(c.phis[m]) == rest - wr.get(c.st)), ('done ' + m, lambda c, m=m: toint(c.phis[m]) == wr.get(c.st))]
        return out
    E.cand_hooks = [cands]
    E.measure_terms = [('rest of the file', lambda c: rest - wr.get(c.st))]

    def post(s, ret):
        ret, k = toint(ret), wr.get(s)
        if 'failed' in s.ghost:
            E.oblige(s, 'a failed write refuses the request', And(ret < 0, z3.BoolVal('closed' in s.ghost)))
        else:
            E.oblige(s, 'writes what is there, up to the announced length', k == rest)
            E.oblige(s, 'uses up what it writes, and no more', And(T.dpos(s) == T.p + k, T.tpos(s) == T.tp + k))
            E.oblige(s, 'ready exactly when the file is complete', And((ret == READY) == (T.tp + k == N), Or(ret == READY, ret == NEED)))
            E.oblige(s, 'the file is closed exactly when it is complete', z3.BoolVal('closed' in s.ghost) == (T.tp + k == N))
        if 'closed' in s.ghost:
            E.oblige(s, 'a closed file is forgotten', toint(E.load(s, Ptr(T.t, iv(T.f['fd'][0])), ir.I[32], None)) == -1)
    E.run(st, 'parse_PUT', [R.p(), Ptr(T.b, iv(0))], post)


def headers(E, st, R, T):
    """Content-Length as the client sent it (absent, or a text whose value is cl)"""
    hd = E.newobj(st, 'headers', 8, 'heap')
    R.set(st, 'headers', Ptr(hd, iv(0)))
    cls = E.newobj(st, 'cltext', 8, 'input')
    cl = z3.Int('cl')
    st.add(cl >= -(1 << 63), cl < (1 << 63))

    def get(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'').lower()
        E.oblige(s, 'asks for a header of the request', isp(a[0], hd) if k in (b'content-length', b'content-type') else no())
        if k == b'content-type':
            return s.ghost['ctype']
        if 'cl' in s.ghost:
            return Ptr(cls, iv(0)) if s.ghost['cl'] else NULL
        s2 = s.copy()
        s.ghost['cl'], s2.ghost['cl'] = True, False
        return [(s, Ptr(cls, iv(0))), (s2, NULL)]

    def atol(E, s, a):
        E.oblige(s, 'the length the client announces', isp(a[0], cls))
        return cl
    E.contracts.update(onion_dict_get=get, atol=atol, atoll=atol)
    return cl


def ok(ret):
    return Or(ret == READY, ret == NEED)


def clean_token(E, st):
    T = Tok(E, st)
    R = Req(E, st, T, 'parse_headers_KEY')
    E.poke(st, T.t, iv(T.f['fd'][0]), 4, iv(-1))
    E.poke(st, T.t, iv(T.f['extra_size'][0]), 8, iv(0))
    return T, R


def tget(E, T, s, n, w=8):
    return toint(E.load(s, Ptr(T.t, iv(T.f[n][0])), ir.I[w * 8], None))


@proof('P11', 'prepare_CONTENT_LENGTH', F)
def prepare_length(E):
    """a body without length, or longer than the limit, is refused before anything is stored; otherwise exactly the announced length is awaited, from nothing"""
    st = init(E)
    T, R = clean_token(E, st)
    cl = headers(E, st, R, T)
    blk = E.newobj(st, 'block', 8, 'heap')

    def bnew(E, s, a):
        E.oblige(s, 'one new body', z3.BoolVal('blk' not in s.ghost))
        s.ghost['blk'] = True
        return Ptr(blk, iv(0))
    E.contracts['onion_block_new'] = bnew

    def post(s, ret):
        ret = toint(ret)
        good = And(cl >= 0, cl <= R.mp_) if s.ghost.get('cl') else no()
        E.oblige(s, 'refused exactly without a length or beyond the limit', And((ret == NEED) == good, Or(ret == NEED, ret < 0)))
        if 'blk' in s.ghost:
            E.oblige(s, 'the body starts empty, the announced length is awaited', Implies(good, And(isp(R.get(s, 'data'), blk), tget(E, T, s, 'extra_size') == cl, tget(E, T, s, 'pos') == 0, z3.BoolVal(R.parser(s) == 'parse_CONTENT_LENGTH'))))
        else:
            E.oblige(s, 'accepted with a body', Not(good))
    E.run(st, 'prepare_CONTENT_LENGTH', [R.p()], post)


@proof('P11', 'prepare_PUT', F)
def prepare_put(E):
    """a file without length, longer than the limit, or that cannot be created is refused; otherwise a temporary file of its own awaits exactly the announced length and its name is given to the application"""
    st = init(E)
    T, R = clean_token(E, st)
    cl = headers(E, st, R, T)
    blk, files, txt = [E.newobj(st, n, 8, 'heap') for n in ('block', 'files', 'blocktext')]
    fd = z3.Int('newfd')
    st.add(fd >= 0, fd < (1 << 31))

    def bnew(E, s, a):
        E.oblige(s, 'one new body', z3.BoolVal('blk' not in s.ghost))
        s.ghost['blk'] = True
        return Ptr(blk, iv(0))

    def mk(E, s, a):
        o, n, sz = S(a[0].off), None, S(a[0].obj.size)
        if isc(o) and isc(sz):
            n = next((i for i in range(cval(o), cval(sz)) if E.prove(s, E.read_byte(s, a[0].obj, iv(i)) == 0)), None)
        if n is None:
            raise Unsupported('template of the temporary file')
        E.oblige(s, 'one temporary file, from a template', And(n >= 6, *[E.read_byte(s, a[0].obj, iv(n - k)) == 88 for k in range(1, 7)]) if 'mk' not in s.ghost else no())
        s.ghost['tmpl'] = a[0]
        bad = s.copy()
        s.ghost['mk'], bad.ghost['mk'] = True, False
        return [(s, fd), (bad, iv(-1))]

    def addstr(E, s, a):
        E.oblige(s, 'the body names the temporary file', And(isp(a[0], blk), a[1].off == s.ghost['tmpl'].off) if 'tmpl' in s.ghost and a[1].obj.id == s.ghost['tmpl'].obj.id and 'named' not in s.ghost else no())
        s.ghost['named'] = True
        return E.i32(s, 'n')

    def dnew(E, s, a):
        E.oblige(s, 'one new list of files', z3.BoolVal('files' not in s.ghost))
        s.ghost['files'] = True
        return Ptr(files, iv(0))

    def bdata(E, s, a):
        E.oblige(s, 'the name of the file', isp(a[0], blk) if 'named' in s.ghost else no())
        return Ptr(txt, iv(0))

    def dadd(E, s, a):
        E.oblige(s, 'the application gets the name of the file', And(isp(a[0], files), isp(a[2], txt)) if models.constbytes(E, s, a[1]) == b'filename' and 'given' not in s.ghost else no())
        s.ghost['given'] = True

    def close(E, s, a):
        E.oblige(s, 'closes only its file, once', toint(a[0]) == fd if s.ghost.get('mk') and 'closed' not in s.ghost else no())
        s.ghost['closed'] = True
        return E.i32(s, 'c')

    def unlink(E, s, a):
        E.oblige(s, 'removes nothing', no())
        return E.i32(s, 'u')
    E.contracts.update(onion_block_new=bnew, mkstemp=mk, onion_block_add_str=addstr, onion_dict_new=dnew, onion_block_data=bdata, onion_dict_add=dadd, close=close, unlink=unlink)

    def post(s, ret):
        ret = toint(ret)
        good = And(cl >= 0, cl <= R.mf_) if s.ghost.get('cl') else no()
        made = s.ghost.get('mk') is True
        if s.ghost.get('mk') is False:
            E.oblige(s, 'a file that cannot be created refuses the request', ret < 0)
            return
        E.oblige(s, 'refused exactly without a length or beyond the limit', And(Or(ret == NEED, ret == READY) == good, Or(ret == NEED, ret == READY, ret < 0)))
        if not made:
            E.oblige(s, 'accepted with a file', Not(good))
            return
        E.oblige(s, 'an empty file is ready at once', Implies(good, (ret == READY) == (cl == 0)))
        if {'named', 'given', 'blk'} <= set(s.ghost):
            E.oblige(s, 'the body and the files name it', Implies(good, And(isp(R.get(s, 'data'), blk), isp(R.get(s, 'FILES'), files))))
        else:
            E.oblige(s, 'the body and the files name it', Not(good))
        E.oblige(s, 'exactly the announced length is awaited, into this file', Implies(ret == NEED, And(tget(E, T, s, 'extra_size') == cl, tget(E, T, s, 'pos') == 0, tget(E, T, s, 'fd', 4) == fd, z3.BoolVal(R.parser(s) == 'parse_PUT' and 'closed' not in s.ghost))))
        E.oblige(s, 'no file stays open without being written', Implies(ret != NEED, Or(z3.BoolVal('closed' in s.ghost), tget(E, T, s, 'fd', 4) == fd)))
    E.run(st, 'prepare_PUT', [R.p()], post)


@proof('P14', 'onion_request_parser_data_free', F)
def parser_data_free(E):
    """the parser gives up its memory once and closes the file it was writing, if any"""
    for ex in (True, False):
        for op in (True, False):
            st = init(E)
            T = Tok(E, st)
            fd = z3.Int('fd')
            st.add(fd >= 0, fd < (1 << 31))
            E.poke(st, T.t, iv(T.f['fd'][0]), 4, fd if op else iv(-1))
            x = E.newobj(st, 'extra', 8, 'heap')
            E.poke(st, T.t, iv(T.f['extra'][0]), 8, Ptr(x, iv(0)) if ex else NULL)

            def close(E, s, a):
                E.oblige(s, 'closes its file, once', toint(a[0]) == fd if op and 'closed' not in s.ghost else no())
                s.ghost['closed'] = True
                return E.i32(s, 'c')
            E.contracts['close'] = close

            def post(s, ret):
                E.oblige(s, 'its memory is given up', z3.BoolVal(not s.om(T.t).alive and (not ex or not s.om(x).alive)))
                E.oblige(s, 'its file is closed', z3.BoolVal(('closed' in s.ghost) == op))
            E.run(st, 'onion_request_parser_data_free', [Ptr(T.t, iv(0))], post)
