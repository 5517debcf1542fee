"""Contracts of the parser states of src/onion/request_parser.c that read the head of a request and start its body

The token readers and the following states are used by contract (proved in s_parser.py and here); each state is entered with the parser of
the request set to it, so that a read ending anywhere resumes in it."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
from s_parser import init, Tok, Req, Mp, STATES, F, NEED, READY, IERR, STRING, KEY, LINE, NEW_LINE, STRING_NL, MP_BOUNDARY, MP_END, MP_NEXT, isp, no, tget, headers, tf, mf, isspace
B = z3.BoolVal


def isnullp(p):
    return isinstance(p, Ptr) and p.obj is None


class Head:
    """a request whose parser state is `state`, its token, and the data at hand"""

    def __init__(self, E, st, state, extra=None):
        self.E = E
        E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
        self.T = T = Tok(E, st, extra=extra)
        self.R = R = Req(E, st, T, state)
        self.state = state
        self.flags0 = z3.BitVec('flags0', 32)
        E.poke(st, R.o, iv(R.f['flags'][0]), 4, self.flags0)
        E.poke(st, T.t, iv(T.f['fd'][0]), 4, iv(-1))
        E.poke(st, T.t, iv(T.f['extra_size'][0]), 8, iv(0))
        self.hd = E.newobj(st, 'headers', 8, 'heap')
        R.set(st, 'headers', Ptr(self.hd, iv(0)))
        self.k = z3.Int('token_length')
        st.add(self.k >= 0, self.k < T.cap)
        self.W = BMBase('word')
        self.extra = extra

    def args(self):
        return [self.R.p(), Ptr(self.T.b, iv(0))]

    def flags(self, s):
        return tobv(self.E.load(s, Ptr(self.R.o, iv(self.R.f['flags'][0])), ir.I[32], None), 32)

    def word(self, s, lit):
        """the token is exactly lit"""
        return And(self.k == len(lit), *[self.W.read(iv(i)) == c for i, c in enumerate(lit)])

    def settext(self, s):
        T, k = self.T, self.k
        so = T.f['str'][0]
        om = s.wom(T.t)
        W = self.W
        om.bm = BMRange(om.bm, iv(so), iv(so + T.cap), lambda i: W.read(S(i - so)))
        om.nuls = (S(k + so),)
        s.add(W.read(k) == 0)
        s.strfacts.append((T.t, om.bm, iv(so), k))
        for j in range(12):
            s.add(Implies(k > j, W.read(iv(j)) != 0))

    def reader(self, name, kinds, zero=True):
        """the token reader of this state: a status to hand on, or a whole token of one of the kinds"""
        E, T = self.E, self.T

        def f(E, s, a):
            E.oblige(s, 'reads the next token, once', And(isp(a[0], T.t), isp(a[1], T.b), B('read' not in s.ghost)))
            out = []
            more = s.copy()
            r = E.fint('status', more, -600, 1000)
            more.ghost['read'] = r
            more.ghost['kind'] = None
            out.append((more, r))
            for kd in kinds:
                t = s.copy()
                self.settext(t)
                if zero:
                    E.poke(t, T.t, iv(T.f['pos'][0]), 8, iv(0))
                t.ghost['read'], t.ghost['kind'] = iv(kd), kd
                out.append((t, iv(kd)))
            return out
        E.contracts[name] = f

    def nexts(self, *names):
        """the states that may follow"""
        for n in names:
            def f(E, s, a, n=n):
                E.oblige(s, 'goes on with ' + n + ', the state the request is in', And(isp(a[0], self.R.o), isp(a[1], self.T.b) if len(a) > 1 else B(True), B(len(a) == 1 or self.R.parser(s) == n), B('next' not in s.ghost)))
                s.ghost['next'] = n
                r = E.fint('outcome', s, -600, 1000)
                s.ghost['out'] = r
                return r
            self.E.contracts[n] = f

    def handed_on(self, s, ret):
        """the reader's status goes back as it is, and the request stays in its state"""
        E = self.E
        E.oblige(s, 'a token that is not there yet, or bad, changes nothing', And(toint(ret) == s.ghost['read'], B(self.R.parser(s) == self.state and 'next' not in s.ghost), self.flags(s) == self.flags0))

    def went(self, s, ret, n):
        self.E.oblige(s, 'goes on with ' + n, And(toint(ret) == s.ghost['out'], B(True)) if s.ghost.get('next') == n else no())


@proof('P10', 'parse_headers_KEY_skip_NL', F)
def head_skip_nl(E):
    """after the request line and its end of line come the headers"""
    st = init(E)
    H = Head(E, st, 'parse_headers_KEY_skip_NL')
    H.reader('token_read_NEW_LINE', [NEW_LINE])
    H.nexts('parse_headers_KEY')

    def post(s, ret):
        if s.ghost.get('kind') is None:
            H.handed_on(s, ret)
        else:
            H.went(s, ret, 'parse_headers_KEY')
    E.run(st, 'parse_headers_KEY_skip_NL', H.args(), post)


def dicts(E, st, H, known):
    """the GET dict of the request: there already, or made here"""
    old, new = E.newobj(st, 'GET', 8, 'heap'), E.newobj(st, 'newGET', 8, 'heap')
    H.R.set(st, 'GET', Ptr(old, iv(0)) if known else NULL)

    def dnew(E, s, a):
        E.oblige(s, 'one dict', B('dict' not in s.ghost))
        s.ghost['dict'] = True
        return Ptr(new, iv(0))
    E.contracts['onion_dict_new'] = dnew
    return lambda s: isp(H.R.get(s, 'GET'), old if known else new)


@proof('P10', 'parse_headers_VERSION', F)
def head_version(E):
    """HTTP/1.1, and only that, is remembered; the request has its parameters; the headers follow"""
    c = front.consts(['OR_HTTP11'])
    for known in (True, False):
        st = init(E)
        H = Head(E, st, 'parse_headers_VERSION')
        H.reader('token_read_STRING', [STRING, STRING_NL])
        H.nexts('parse_headers_KEY', 'parse_headers_KEY_skip_NL')
        has = dicts(E, st, H, known)

        def post(s, ret):
            k = s.ghost.get('kind')
            if k is None:
                H.handed_on(s, ret)
                return
            H.went(s, ret, 'parse_headers_KEY_skip_NL' if k == STRING else 'parse_headers_KEY')
            E.oblige(s, 'the version is remembered', H.flags(s) == If(H.word(s, b'HTTP/1.1'), H.flags0 | c['OR_HTTP11'], H.flags0))
            E.oblige(s, 'the request has its parameters', has(s))
        E.run(st, 'parse_headers_VERSION', H.args(), post)


@proof(['P10', 'P12'], 'parse_headers_URL', F)
def head_url(E):
    """the address is kept as it came, cut and decoded once; the version follows, or the headers"""
    for q in (True, False):     # with or without a query
        st = init(E)
        H = Head(E, st, 'parse_headers_URL')
        x = z3.Int('x')
        st.add(x >= 0, x <= H.k)
        E.skolem_list = [('token', S(x + H.T.f['str'][0]))]
        H.reader('token_read_STRING', [STRING, STRING_NL])
        H.nexts('parse_headers_KEY', 'parse_headers_VERSION')
        has = dicts(E, st, H, False)
        got = E.newobj(st, 'query', 8, 'heap')

        def cut(E, s, a, q=q, got=got):
            p = H.R.get(s, 'fullpath')
            own = isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap' and p.obj.id != H.T.t.id
            E.oblige(s, 'cuts the address of the request, its own copy', And(isp(a[0], H.R.o), p.off == 0, E.read_byte(s, p.obj, x) == H.W.read(x), p.obj.size >= H.k + 1) if own and 'cut' not in s.ghost else no())
            s.ghost['cut'] = True
            if q:
                H.R.set(s, 'GET', Ptr(got, iv(0)))
            return iv(1)
        E.contracts['onion_request_parse_query'] = cut

        def post(s, ret, q=q, got=got):
            k = s.ghost.get('kind')
            if k is None:
                H.handed_on(s, ret)
                return
            E.oblige(s, 'the address is cut', B('cut' in s.ghost))
            H.went(s, ret, 'parse_headers_VERSION' if k == STRING else 'parse_headers_KEY')
            g = H.R.get(s, 'GET')
            if q:
                E.oblige(s, 'the query stays', isp(g, got))
            elif k == STRING_NL:
                E.oblige(s, 'the request has its parameters', has(s))
        E.run(st, 'parse_headers_URL', H.args(), post)


METHODS = ['GET', 'POST', 'HEAD', 'OPTIONS', 'PROPFIND', 'PUT', 'DELETE', 'MOVE', 'MKCOL', 'PROPPATCH', 'PATCH']


@proof('P10', 'parse_headers_GET', ['request_parser.c', 'request.c'])
def head_method(E):
    """the method is the word, exactly; a word that is no method is refused; ends of line before it do not matter"""
    c = front.consts(['OR_' + m for m in METHODS] + ['OR_METHODS', 'OCS_NOT_IMPLEMENTED'])
    st = init(E)
    H = Head(E, st, 'parse_headers_GET')
    H.nexts('parse_headers_URL')
    E.global_init['onion_request_methods'] = lambda E, s, o: E.init_global(s, o)
    E.auto_unroll = 17
    T = H.T
    j = z3.Int('j')
    st.add(j >= T.p, j < T.n)
    E.skolem_list = [('data', j)]
    H.reader('token_read_STRING', [STRING, STRING_NL])
    rd = E.contracts['token_read_STRING']
    nl = lambda x: Or(x == 10, x == 13)

    def read(E, s, a):
        d = T.dpos(s)
        E.oblige(s, 'only ends of line before the request are skipped', And(d >= T.p, d <= T.n, Implies(T.tp > 0, d == T.p), Implies(And(T.p < T.n, j < d), nl(T.D.read(j)))))
        E.oblige(s, 'what was read of the word stays', T.tpos(s) == T.tp)
        return rd(E, s, a)
    E.contracts['token_read_STRING'] = read

    def cands(ctx):
        return [('skipped', lambda c: And(T.dpos(c.st) >= T.p, T.dpos(c.st) <= T.n)), ('ends of line', lambda c: Implies(j < T.dpos(c.st), nl(T.D.read(j)))), ('fresh', lambda c: T.tp == 0)]
    E.cand_hooks = [cands]
    E.measure_terms = [('rest of the data', lambda c: T.n - T.dpos(c.st))]

    def post(s, ret):
        if s.ghost.get('kind') is None:
            H.handed_on(s, ret)
            return
        known = Or(*[H.word(s, m.encode()) for m in METHODS])
        if s.ghost.get('next') == 'parse_headers_URL':
            H.went(s, ret, 'parse_headers_URL')
            for m in METHODS:
                E.oblige(s, m + ' is ' + m, Implies(H.word(s, m.encode()), H.flags(s) == ((H.flags0 & bv(0xffffffff ^ c['OR_METHODS'], 32)) | c['OR_' + m])))
            E.oblige(s, 'only methods go on', known)
        else:
            E.oblige(s, 'what is no method is refused', And(toint(ret) == c['OCS_NOT_IMPLEMENTED'], Not(known)))
    E.run(st, 'parse_headers_GET', H.args(), post)


@proof(['P10', 'P11', 'P12', 'P13'], 'parse_headers_KEY', F)
def head_key(E):
    """a header name is kept and its value read; the empty line ends the head, and the body that the head announces, if any, is awaited the way the method and the type say"""
    c = front.consts(['OR_POST', 'OR_PUT', 'OR_METHODS'])
    st = init(E)
    H = Head(E, st, 'parse_headers_KEY')
    x = z3.Int('x')
    st.add(x >= 0, x <= H.k)
    E.skolem_list = [('token', S(x + H.T.f['str'][0]))]
    H.reader('token_read_KEY', [KEY, NEW_LINE])
    H.nexts('parse_headers_VALUE', 'prepare_POST', 'prepare_PUT', 'prepare_CONTENT_LENGTH')
    ct, cls = E.newobj(st, 'type', 8, 'input'), E.newobj(st, 'length', 8, 'input')
    cl = z3.Int('announced')
    st.add(cl >= -(1 << 63), cl < (1 << 63))

    def get(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'').lower()
        E.oblige(s, 'asks for a header of the request', Or(isp(a[0], H.R.o), isp(a[0], H.hd)) if k in (b'content-length', b'content-type') else no())
        o = ct if k == b'content-type' else cls
        if o.name in s.ghost:
            return Ptr(o, iv(0)) if s.ghost[o.name] else NULL
        s2 = s.copy()
        s.ghost[o.name], s2.ghost[o.name] = True, False
        return [(s, Ptr(o, iv(0))), (s2, NULL)]

    def strstr(E, s, a):
        k = models.constbytes(E, s, a[1])
        E.oblige(s, 'looks at the type', isp(a[0], ct) if k in (b'application/x-www-form-urlencoded', b'boundary', b'boundary=') else no())
        k = 'bd' if k and k.startswith(b'boundary') else 'ue'
        if k in s.ghost:
            return Ptr(ct, iv(0)) if s.ghost[k] else NULL
        s2 = s.copy()
        s.ghost[k], s2.ghost[k] = True, False
        return [(s, Ptr(ct, iv(0))), (s2, NULL)]

    def atol(E, s, a):
        E.oblige(s, 'the length the client announces', isp(a[0], cls))
        return cl
    E.contracts.update(onion_request_get_header=get, onion_dict_get=get, strstr=strstr, atol=atol, atoll=atol)

    def post(s, ret):
        k = s.ghost.get('kind')
        if k is None:
            H.handed_on(s, ret)
            return
        if k == KEY:
            H.went(s, ret, 'parse_headers_VALUE')
            p = E.load(s, Ptr(H.T.t, iv(H.T.f['extra'][0])), ir.PTR, None)
            own = isinstance(p, Ptr) and p.obj is not None and p.obj.kind == 'heap' and p.obj.id != H.T.t.id
            E.oblige(s, 'the name is kept whole', And(p.off == 0, E.read_byte(s, p.obj, x) == H.W.read(x), p.obj.size >= H.k + 1) if own else no())
            return
        m = H.flags0 & c['OR_METHODS']
        n, g = s.ghost.get('next'), s.ghost
        form = B(bool(g.get('type') and (g.get('ue') or g.get('bd'))))
        unasked = B('type' not in g or (g['type'] and not (g.get('ue') or g.get('bd')) and not ('ue' in g and 'bd' in g)))
        want_post = And(m == c['OR_POST'], form)
        if n == 'prepare_POST':
            E.oblige(s, 'forms of a POST are read as such', want_post)
        else:
            E.oblige(s, 'forms of a POST are read as such', Implies(m == c['OR_POST'], And(Not(form), Not(unasked))))
        if n == 'prepare_PUT':
            E.oblige(s, 'a PUT is stored in a file', m == c['OR_PUT'])
        else:
            E.oblige(s, 'a PUT is stored in a file', m != c['OR_PUT'])
        if n == 'prepare_CONTENT_LENGTH':
            E.oblige(s, 'any other body is kept', And(B(g.get('length') is True), cl > 0))
        elif n is None:
            E.oblige(s, 'without a body the request is ready', And(toint(ret) == READY, Or(B(g.get('length') is False), And(B(g.get('length') is True), cl <= 0))))
        if n is not None:
            H.went(s, ret, n)
    E.run(st, 'parse_headers_KEY', H.args(), post)


@proof('P10', 'parse_headers_VALUE', F)
def head_value(E):
    """a header value is read to its end of line, then it is seen whether it goes on"""
    st = init(E)
    H = Head(E, st, 'parse_headers_VALUE')
    H.reader('token_read_LINE', [LINE], zero=False)

    def f(E, s, a):
        E.oblige(s, 'sees whether the value goes on', And(isp(a[0], H.R.o), isp(a[1], H.T.b), B('next' not in s.ghost)))
        s.ghost['next'] = 'parse_headers_VALUE_multiline_if_space'
        s.ghost['out'] = r = E.fint('outcome', s, -600, 1000)
        return r
    E.contracts['parse_headers_VALUE_multiline_if_space'] = f

    def post(s, ret):
        if s.ghost.get('kind') is None:
            H.handed_on(s, ret)
        else:
            H.went(s, ret, 'parse_headers_VALUE_multiline_if_space')
    E.run(st, 'parse_headers_VALUE', H.args(), post)


@proof('P10', 'parse_headers_VALUE_multiline_if_space', F)
def head_multiline(E):
    """a line that starts with a blank continues the value; otherwise the header is added once under its name, without the blanks before its value"""
    c = front.consts(['OD_DUP_VALUE', 'OD_FREE_KEY'], extra='#include <onion/dict.h>')
    st = init(E)
    H = Head(E, st, 'parse_headers_VALUE')
    T = H.T
    so = T.f['str'][0]
    f = z3.Int('first_nonblank')
    st.add(f >= 0, f <= H.k)
    E.skolem_list = [('token', S(f + so))]
    H.settext(st)
    st.add(Not(isspace(H.W.read(f))), Implies(f < H.k, H.W.read(f) != 0))
    key = E.newobj(st, 'name', 8, 'heap')
    E.poke(st, T.t, iv(T.f['extra'][0]), 8, Ptr(key, iv(0)))

    def skip(E, s, a):
        E.oblige(s, 'the value goes on', And(isp(a[0], H.R.o), isp(a[1], T.b), B(H.R.parser(s) is not None and 'next' not in s.ghost)))
        s.ghost['next'] = 'skip'
        s.ghost['out'] = r = E.fint('outcome', s, -600, 1000)
        return r
    E.contracts['parse_headers_VALUE_skip_leading_whitespace'] = skip

    def add(E, s, a):
        E.oblige(s, 'adds the header once, under its name, its value without the blanks before it', And(isp(a[0], H.hd), isp(a[1], key), isp(a[2], T.t, S(f + so)), toint(a[3]) == (c['OD_DUP_VALUE'] | c['OD_FREE_KEY']), B('added' not in s.ghost),
                                                                                                       E.read_byte(s, T.t, S(f + so)) == H.W.read(f)))
        s.ghost['added'] = True
    E.contracts['onion_dict_add'] = add

    def cands(ctx):
        return [('before the value ' + m, lambda c, m=m: And(c.phis[m].off >= so, c.phis[m].off <= f + so) if isinstance(c.phis[m], Ptr) and c.phis[m].obj is not None and c.phis[m].obj.id == T.t.id else None)
                for m, v in ctx.phis.items() if isinstance(v, Ptr)] + [
                ('index before the value ' + m, lambda c, m=m: And(toint(c.phis[m]) >= 0, toint(c.phis[m]) <= f)) for m, v in ctx.phis.items() if not isinstance(v, Ptr)]

    def facts(ctx):
        os = [S(v.off - so) for v in ctx.phis.values() if isinstance(v, Ptr) and v.obj is not None and v.obj.id == T.t.id] + [toint(v) for v in ctx.phis.values() if not isinstance(v, (Ptr, Fn))]
        return [Implies(And(o >= 0, o < f), isspace(H.W.read(o))) for o in os]
    E.cand_hooks, E.fact_hooks = [cands], [facts]
    E.measure_terms = [('rest of the value', lambda c: sum([f + so + 1 - v.off for v in c.phis.values() if isinstance(v, Ptr) and v.obj is not None and v.obj.id == T.t.id], iv(0)))]

    def post(s, ret):
        blank = Or(T.D.read(T.p) == 32, T.D.read(T.p) == 9)
        ps = H.R.parser(s)
        ex = E.load(s, Ptr(T.t, iv(T.f['extra'][0])), ir.PTR, None)
        E.oblige(s, 'nothing of the next line is used up here', T.dpos(s) == T.p)
        if s.ghost.get('next'):
            E.oblige(s, 'only a blank continues a value', And(T.p < T.n, blank, toint(ret) == s.ghost['out'], B(ps == 'parse_headers_VALUE_skip_leading_whitespace' and 'added' not in s.ghost), isp(ex, key)))
        elif 'added' in s.ghost:
            E.oblige(s, 'a value that does not go on is added', And(T.p < T.n, Not(blank), toint(ret) == NEED, B(ps == 'parse_headers_KEY' and isnullp(ex)), T.tpos(s) == 0))
        else:
            E.oblige(s, 'without data it is seen later', And(T.p == T.n, toint(ret) == NEED, B(ps == 'parse_headers_VALUE_multiline_if_space'), isp(ex, key), T.tpos(s) == T.tp))
    E.run(st, 'parse_headers_VALUE_multiline_if_space', H.args(), post)


@proof('P10', 'parse_headers_VALUE_skip_leading_whitespace', F)
def head_fold(E):
    """a continuation line is joined to the value by one space, without its leading blanks; an empty one adds nothing"""
    st = init(E)
    H = Head(E, st, 'parse_headers_VALUE_skip_leading_whitespace')
    T = H.T
    so = T.f['str'][0]
    f, j, z = z3.Ints('first_nonblank j z')
    blank = lambda x: Or(x == 32, x == 9)
    st.add(f >= T.p, f <= T.n, Implies(f < T.n, Not(blank(T.D.read(f)))), z >= 0, z < T.cap)
    E.skolem_list = [('data', f), ('token', S(z + so))]
    old = st.om(T.t).bm

    def value(E, s, a):
        E.oblige(s, 'the rest of the line follows', And(isp(a[0], H.R.o), isp(a[1], T.b), B(H.R.parser(s) == 'parse_headers_VALUE' and 'next' not in s.ghost)))
        s.ghost['next'] = True
        s.ghost['out'] = r = E.fint('outcome', s, -600, 1000)
        join(s)
        return r
    E.contracts['parse_headers_VALUE'] = value

    def join(s):
        d = T.tpos(s)
        room = T.cap - 1 - T.tp
        n = If(room > 2, iv(2), If(room > 0, room, iv(0)))
        E.oblige(s, 'joined by one space', And(f < T.n, T.D.read(f) != 10, T.dpos(s) == f + 1, d == T.tp + n))
        E.oblige(s, 'what was read stays, then the space and the first byte', E.read_byte(s, T.t, S(z + so)) == If(And(z == T.tp, n > 0), bv(32, 8), If(And(z == T.tp + 1, n > 1), T.D.read(f), old.read(S(z + so)))))

    def cands(ctx):
        return [('blanks', lambda c: And(T.dpos(c.st) >= T.p, T.dpos(c.st) <= f))]

    def facts(ctx):
        d = T.dpos(ctx.st)
        return [Implies(And(d >= T.p, d < f), blank(T.D.read(d)))]
    E.cand_hooks, E.fact_hooks = [cands], [facts]
    E.measure_terms = [('rest of the data', lambda c: T.n - T.dpos(c.st))]

    def post(s, ret):
        if s.ghost.get('next'):
            E.oblige(s, 'the outcome of the rest is the outcome', toint(ret) == s.ghost['out'])
            return
        ps = H.R.parser(s)
        E.oblige(s, 'blanks alone wait for more, an empty line adds nothing', And(toint(ret) == NEED, T.tpos(s) == T.tp, E.read_byte(s, T.t, S(z + so)) == old.read(S(z + so)), Or(
            And(f == T.n, T.dpos(s) == T.n, B(ps == H.state)), And(f < T.n, T.D.read(f) == 10, T.dpos(s) == f + 1, B(ps == 'parse_headers_VALUE_multiline_if_space')))))
    E.run(st, 'parse_headers_VALUE_skip_leading_whitespace', H.args(), post)


@proof(['P09', 'P10'], 'onion_request_write', F)
def feed(E):
    """what was received goes to the current state of the request, in order and as it came, until it is used up or a state says that the request is ready or refused; that is the outcome.
    The states are one arbitrary state here: it uses up any part of the data (twice in a row nothing is not possible) and goes to any other state"""
    for fresh in (True, False):
        st = init(E)
        E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
        T = Tok(E, st)
        R = Req(E, st, T, 'parse_headers_GET')
        if fresh:
            R.set(st, 'parser_data', NULL)
            R.set(st, 'parser', NULL)
        g = T.g
        pos, size, idle, calls = [models_num(E, st, n) for n in ('used', 'left', 'idle', 'calls')]
        E.poke(st, size.o, iv(0), 8, T.n)
        st.add(T.p == 0)

        def step(E, s, a):
            b = a[1]
            ok = isinstance(b, Ptr) and b.obj is not None
            d = E.load(s, Ptr(b.obj, S(b.off + g['data'][0])), ir.PTR, None) if ok else None
            ld = lambda n: toint(E.load(s, Ptr(b.obj, S(b.off + g[n][0])), ir.I[64], None))
            E.oblige(s, 'offers the state what follows what was used, once', And(isp(a[0], R.o), isp(d, T.src), ld('pos') == pos.get(s), ld('size') == size.get(s), pos.get(s) < size.get(s), B('over' not in s.ghost)) if ok else no())
            if fresh and 'token' not in s.ghost:
                t = R.get(s, 'parser_data')
                if isinstance(t, Ptr) and t.obj is not None and t.obj.kind == 'heap':
                    f = T.f
                    L = lambda n, w: toint(E.load(s, Ptr(t.obj, iv(f[n][0])), ir.I[w], None))
                    ex = E.load(s, Ptr(t.obj, iv(f['extra'][0])), ir.PTR, None)
                    E.oblige(s, 'a new request starts with an empty token', And(t.off == 0, t.obj.size >= f[''][1], L('pos', 64) == 0, L('fd', 32) < 0, B(isnullp(ex) or not isinstance(ex, Ptr))))
                else:
                    E.oblige(s, 'a new request starts with an empty token', no())
                s.ghost['token'] = True
            p2, s2 = E.fint('used', s, 0), E.fint('left', s, 0)
            s.add(p2 >= pos.get(s), s2 <= size.get(s), p2 <= s2, s2 >= pos.get(s))
            moved = Or(p2 > pos.get(s), s2 < size.get(s))
            s.add(Or(moved, idle.get(s) == 0))
            idle.set(s, If(moved, iv(0), iv(1)))
            pos.set(s, p2)
            size.set(s, s2)
            if ok:
                E.poke(s, b.obj, S(b.off + g['pos'][0]), 8, p2)
                E.poke(s, b.obj, S(b.off + g['size'][0]), 8, s2)
            calls.set(s, iv(1))
            over = s.copy()
            r = E.fint('outcome', over, -600, 1000)
            over.add(r != NEED)
            over.ghost['over'] = r
            return [(s, iv(NEED)), (over, r)]
        for n in STATES:
            E.contracts[n] = step

        def cands(ctx):
            out = []
            for o in ctx.st.objs.values():
                if o.name.startswith('odata') or (o.kind == 'stack' and isc(o.size) and cval(o.size) == g[''][1]):
                    ld = lambda c, n, o=o: toint(E.load(c.st, Ptr(o, iv(g[n][0])), ir.I[64], None))
                    out += [('pos ' + o.name, lambda c, ld=ld: ld(c, 'pos') == pos.get(c.st)), ('size ' + o.name, lambda c, ld=ld: ld(c, 'size') == size.get(c.st))]
            return out + [('order', lambda c: And(pos.get(c.st) >= 0, pos.get(c.st) <= size.get(c.st), size.get(c.st) <= T.n)), ('idle', lambda c: And(idle.get(c.st) >= 0, idle.get(c.st) <= 1))]
        E.cand_hooks = [cands]
        E.measure_terms = [('rest of the data', lambda c: 2 * (size.get(c.st) - pos.get(c.st)) + 1 - idle.get(c.st))]

        def post(s, ret):
            if 'over' in s.ghost:
                E.oblige(s, 'the outcome of the state is the outcome', toint(ret) == s.ghost['over'])
            else:
                E.oblige(s, 'all of it is offered, then more is needed', And(pos.get(s) >= size.get(s), toint(ret) == NEED))
            t = R.get(s, 'parser_data')
            if not fresh:
                E.oblige(s, 'the token stays', isp(t, T.t))
        E.run(st, 'onion_request_write', [R.p(), Ptr(T.src, iv(0)), T.n], post)


class models_num:
    def __init__(self, E, st, name, v=0):
        self.E = E
        self.o = E.newobj(st, name, 8, 'ghost')
        E.poke(st, self.o, iv(0), 8, iv(v))

    def get(self, s):
        return toint(self.E.load(s, Ptr(self.o, iv(0)), ir.I[64], None))

    def set(self, s, v):
        self.E.poke(s, self.o, iv(0), 8, v)
