"""Contracts of the multipart states of src/onion/request_parser.c: the delimiter before the first part, the headers of a part, and how the body of a POST is prepared

Together with parse_POST_multipart_data and parse_POST_multipart_file (s_parser.py) these are all the states of a multipart body; each keeps the memory
invariant of the multipart buffer (boundary text in place, and room for every byte that may still come) that the next one starts from."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
from s_parser import init, Tok, Req, Mp, F, NEED, READY, IERR, STRING, KEY, LINE, NEW_LINE, STRING_NL, MP_BOUNDARY, MP_END, MP_NEXT, isp, no, tf, mf, isspace
from s_heads import Head, isnullp, models_num
B = z3.BoolVal


@proof(['P09', 'P13'], 'token_read_MULTIPART_BOUNDARY', F)
def mp_boundary(E):
    """the bytes at hand are compared with the delimiter from where it was left: wait for more, refused at the first difference, or found right after its last byte"""
    st = init(E)
    M = Mp(E, st)
    T = Tok(E, st, extra=Ptr(M.o, iv(0)))
    m = z3.Int('at')
    E.poke(st, M.o, iv(M.f['pos'][0]), 8, m)
    x = z3.Int('x')
    st.add(m >= 0, m <= M.B, T.p < T.n, x >= T.p, M.bd(M.B) == 0, Implies(m < M.B, M.bd(m) != 0))
    dp, mk = 'm:odata.%d' % T.g['pos'][0], 'm:mp.%d' % M.f['pos'][0]
    text = lambda k: Implies(And(k >= 0, k < M.B), M.bd(k) != 0)     # the delimiter is a C string of B bytes

    def cands(ctx):
        q = ctx.q()
        if dp not in q or mk not in q:
            return []
        return [('in step', lambda c: c.q()[mk] - m == c.q()[dp] - T.p), ('range', lambda c: And(c.q()[mk] >= m, c.q()[mk] <= M.B, c.q()[dp] < T.n)),
                ('matched', lambda c: Implies(x < c.q()[dp], T.D.read(x) == M.bd(m + x - T.p)))]

    def facts(ctx):
        q = ctx.q()
        return [text(q[mk]), text(q[mk] + 1)] if mk in q else []
    E.cand_hooks, E.fact_hooks = [cands], [facts]
    E.measure_terms = [('rest of the data', lambda c: T.n - c.q().get(dp, T.p))]

    def post(s, ret):
        ret = toint(ret)
        q, m2 = T.dpos(s), M.get(s, 'pos')
        s.add(text(m2))
        E.oblige(s, 'every byte used is the next one of the delimiter', And(q >= T.p, q <= T.n, m2 == m + q - T.p, m2 <= M.B, Implies(x < q, T.D.read(x) == M.bd(m + x - T.p))))
        E.oblige(s, 'wait, refuse or found', Or(ret == NEED, ret == IERR, ret == MP_BOUNDARY))
        E.oblige(s, 'found at its end', Implies(ret == MP_BOUNDARY, m2 == M.B))
        E.oblige(s, 'waits only without data', Implies(ret == NEED, q == T.n))
        E.oblige(s, 'refused only at a difference', Implies(ret == IERR, And(m2 < M.B, q < T.n, T.D.read(q) != M.bd(m2))))
    E.run(st, 'token_read_MULTIPART_BOUNDARY', T.args(), post)


class Part(Head):
    def __init__(self, E, st, state):
        self.M = Mp(E, st)
        super().__init__(E, st, state, extra=Ptr(self.M.o, iv(0)))
        M = self.M
        for n in ('name', 'filename'):
            E.poke(st, M.o, iv(M.f[n][0]), 8, NULL)
        self.old = st.om(M.o).bm
        y = self.y = z3.Int('y')
        st.add(y >= 0, y <= M.B, M.room(M.doff, 0, M.left))
        E.skolem_list = [('mp', S(y + M.S0 + 1))]

    def kept(self, s):
        """the delimiter is as it was and there is room for what may still come"""
        M = self.M
        b, d = M.get(s, 'boundary', ir.PTR), M.get(s, 'data', ir.PTR)
        ok = isinstance(d, Ptr) and d.obj is not None and d.obj.id == M.o.id
        self.E.oblige(s, 'parser memory invariant kept', And(isp(b, M.o, iv(M.S0 + 1)), M.get(s, 'size') == M.B, self.E.read_byte(s, M.o, S(self.y + M.S0 + 1)) == M.bd(self.y),
                                                            M.get(s, 'post_total_size') >= 0, d.off >= M.S0 + M.B + 2, M.room(d.off, 0, M.get(s, 'post_total_size')), M.get(s, 'file_total_size') == M.ft) if ok else no())


@proof(['P09', 'P13'], 'parse_POST_multipart_start', F)
def mp_start(E):
    """the first delimiter, then what follows a delimiter"""
    st = init(E)
    H = Part(E, st, 'parse_POST_multipart_start')
    H.reader('token_read_MULTIPART_BOUNDARY', [MP_BOUNDARY], zero=False)
    H.nexts('parse_POST_multipart_next')

    def post(s, ret):
        if s.ghost.get('kind') is None:
            H.handed_on(s, ret)
        else:
            H.went(s, ret, 'parse_POST_multipart_next')
        H.kept(s)
    E.run(st, 'parse_POST_multipart_start', H.args(), post)


@proof(['P09', 'P13'], 'parse_POST_multipart_next', F)
def mp_next(E):
    """after a delimiter the body ends, or the headers of a part come that knows nothing of the names of the part before"""
    st = init(E)
    H = Part(E, st, 'parse_POST_multipart_next')
    M = H.M
    nm = E.newobj(st, 'oldname', 8, 'input')
    for n in ('name', 'filename'):
        E.poke(st, M.o, iv(M.f[n][0]), 8, Ptr(nm, iv(0)))
    H.reader('token_read_MULTIPART_next', [MP_END, MP_NEXT])
    H.nexts('parse_POST_multipart_headers_key')
    hk = E.contracts['parse_POST_multipart_headers_key']

    def key(E, s, a):
        E.oblige(s, 'a part starts without names', B(all(isnullp(M.get(s, n, ir.PTR)) for n in ('name', 'filename'))))
        H.kept(s)
        return hk(E, s, a)
    E.contracts['parse_POST_multipart_headers_key'] = key

    def post(s, ret):
        k = s.ghost.get('kind')
        if k is None:
            H.handed_on(s, ret)
            H.kept(s)
        elif k == MP_END:
            E.oblige(s, 'the closing delimiter ends the request', And(toint(ret) == READY, B('next' not in s.ghost)))
        else:
            H.went(s, ret, 'parse_POST_multipart_headers_key')
    E.run(st, 'parse_POST_multipart_next', H.args(), post)


@proof(['P09', 'P13'], 'parse_POST_multipart_headers_key', F)
def mp_key(E):
    """of the headers of a part only Content-Disposition matters, in any case; the empty line starts the contents: a file of its own when there is a file name, listed under the name of
    the part, else a value; a part without a name is refused"""
    c = front.consts(['OD_DUP_VALUE', 'OD_DUP_KEY'], extra='#include <onion/dict.h>')
    for named in (False, True):
        for file in ((False, True) if named else (False,)):
            for has in ((True, False) if file or named else (True,)):
                st = init(E)
                H = Part(E, st, 'parse_POST_multipart_headers_key')
                T, M, R = H.T, H.M, H.R
                nm, fnm = E.newobj(st, 'partname', 8, 'input'), E.newobj(st, 'partfile', 8, 'input')
                if named:
                    E.poke(st, M.o, iv(M.f['name'][0]), 8, Ptr(nm, iv(0)))
                if file:
                    E.poke(st, M.o, iv(M.f['filename'][0]), 8, Ptr(fnm, iv(0)))
                D = {n: E.newobj(st, n + 'dict', 8, 'heap') for n in ('POST', 'FILES')}
                for n in D:
                    R.set(st, n, Ptr(D[n], iv(0)) if has else NULL)
                # an empty line has no text; a name has some
                H.reader('token_read_KEY', [KEY, NEW_LINE])

                def dnew(E, s, a):
                    return Ptr(E.newobj(s, 'madedict', 8, 'heap'), iv(0))

                def mk(E, s, a):
                    p = a[0]
                    ok = isinstance(p, Ptr) and p.obj is not None
                    lit = b'/tmp/onion-XXXXXX'
                    E.oblige(s, 'asks for a file of its own, once', And(B('fd' not in s.ghost), *[E.read_byte(s, p.obj, S(p.off + len(lit) - 6 + i)) == 88 for i in range(6)]) if ok and E.access(s, p, iv(len(lit) + 1), True, None) else no())
                    s2 = s.copy()
                    fd = E.fint('fd', s, 0, 1 << 20)
                    s.ghost['fd'], s2.ghost['fd'] = fd, iv(-1)
                    s.ghost['path'] = s2.ghost['path'] = p.obj.id if ok else None
                    return [(s, fd), (s2, iv(-1))]

                def add(E, s, a):
                    d, k, v, fl = a
                    fl = toint(fl)
                    which = [n for n in D if isinstance(d, Ptr) and d.obj is not None and R.get(s, n).obj is not None and R.get(s, n).obj.id == d.obj.id]
                    n = which[0] if which else None
                    own = Or(*[fl == x for x in (0, c['OD_DUP_VALUE'], c['OD_DUP_KEY'], c['OD_DUP_VALUE'] | c['OD_DUP_KEY'])])
                    copy = Or(fl == c['OD_DUP_VALUE'], fl == (c['OD_DUP_VALUE'] | c['OD_DUP_KEY']))
                    if n == 'FILES':
                        E.oblige(s, 'the file is listed under the name of the part, by a path of its own', And(isp(k, nm), copy, B('fd' in s.ghost and isinstance(v, Ptr) and v.obj is not None and v.obj.id == s.ghost['path'] and 'FILES' not in s.ghost)))
                    else:
                        E.oblige(s, 'the file name is listed under the name of the part', And(isp(k, nm), isp(v, fnm), own, B(n == 'POST' and 'POST' not in s.ghost)))
                    s.ghost[n] = True
                E.contracts.update(onion_dict_new=dnew, mkstemp=mk, onion_dict_add=add)
                H.nexts('parse_POST_multipart_content_type', 'parse_POST_multipart_ignore_header', 'parse_POST_multipart_file', 'parse_POST_multipart_data')

                def post(s, ret, H=H, named=named, file=file):
                    k, n = s.ghost.get('kind'), s.ghost.get('next')
                    if k is None:
                        H.handed_on(s, ret)
                    elif k == KEY:
                        lit = b'content-disposition'
                        low = lambda v: If(And(z3.UGE(v, 65), z3.ULE(v, 90)), v + 32, v)
                        is_cd = And(H.k == len(lit), *[low(H.W.read(iv(i))) == ch for i, ch in enumerate(lit)])
                        E.oblige(s, 'only Content-Disposition matters, in any case', is_cd == B(n == 'parse_POST_multipart_content_type'))
                        H.went(s, ret, n if n in ('parse_POST_multipart_content_type', 'parse_POST_multipart_ignore_header') else None)
                    elif not named:
                        E.oblige(s, 'a part without a name is refused', And(toint(ret) == IERR, B(n is None)))
                        return
                    else:
                        E.oblige(s, 'the search for the delimiter starts anew', H.M.get(s, 'pos') == 0)
                        P = H.R.get(s, 'POST')
                        E.oblige(s, 'the request has its values', B(isinstance(P, Ptr) and P.obj is not None))
                        if file:
                            fd = s.ghost.get('fd', iv(-2))
                            tfd = toint(E.load(s, Ptr(H.T.t, iv(H.T.f['fd'][0])), ir.I[32], None))
                            if n is None:
                                E.oblige(s, 'without a file it is refused', And(toint(ret) == IERR, fd == -1))
                                return
                            E.oblige(s, 'the file is listed, its contents follow', B('POST' in s.ghost and 'FILES' in s.ghost))
                            E.oblige(s, 'into the file that was made', And(tfd == fd, fd >= -1))
                            H.went(s, ret, 'parse_POST_multipart_file')
                        else:
                            E.oblige(s, 'no file', B('fd' not in s.ghost and 'POST' not in s.ghost and 'FILES' not in s.ghost))
                            H.went(s, ret, 'parse_POST_multipart_data')
                    H.kept(s)
                E.run(st, 'parse_POST_multipart_headers_key', H.args(), post)


@proof(['P09', 'P13'], 'parse_POST_multipart_ignore_header', F)
def mp_ignore(E):
    """a header that does not matter is read to its end of line; then comes the next one"""
    st = init(E)
    H = Part(E, st, 'parse_POST_multipart_ignore_header')
    H.reader('token_read_LINE', [LINE], zero=False)
    H.nexts('parse_POST_multipart_headers_key')

    def post(s, ret):
        H.kept(s)
        if s.ghost.get('kind') is None:
            H.handed_on(s, ret)
        elif s.ghost.get('next'):
            H.went(s, ret, 'parse_POST_multipart_headers_key')
        else:
            E.oblige(s, 'the next header follows', And(toint(ret) == NEED, H.T.tpos(s) == 0, B(H.R.parser(s) == 'parse_POST_multipart_headers_key')))
    E.run(st, 'parse_POST_multipart_ignore_header', H.args(), post)


@proof(['P09', 'P13'], 'parse_POST_multipart_content_type', F)
def mp_disposition(E):
    """one parameter of Content-Disposition: name= and filename=, at its start but for blanks, are kept whole and without their quotes in memory that was allowed for; anything else changes nothing"""
    st = init(E)
    H = Part(E, st, 'parse_POST_multipart_content_type')
    T, M = H.T, H.M
    so = T.f['str'][0]
    W, k = H.W, H.k
    f, x = z3.Ints('first_nonblank x')
    st.add(f >= 0, f <= k, Not(isspace(W.read(f))), x >= 0, W.read(k) == 0)
    for j in range(11):
        st.add(Implies(f + j < k, W.read(f + j) != 0))
    keep = {n: E.newobj(st, 'old' + n, 8, 'input') for n in ('name', 'filename')}
    for n in keep:
        E.poke(st, M.o, iv(M.f[n][0]), 8, Ptr(keep[n], iv(0)))
    at = {n: [W.read(f + i) == ch for i, ch in enumerate(n + b'=')] for n in (b'name', b'filename')}
    starts = {n: And(f + len(n) + 1 <= k, *at[n]) for n in at}
    v = {n: f + len(n) + 1 for n in at}                    # where the value starts
    ln = {n: k - v[n] for n in at}
    quoted = {n: And(ln[n] >= 2, W.read(v[n]) == 34, W.read(k - 1) == 34) for n in at}
    E.skolem_list += [('mp', S(M.doff + x)), ('token', S(f + so)), ('mp', S(M.doff + ln[b'name'])), ('mp', S(M.doff + ln[b'filename'])), ('mp', S(M.doff + x + 1)), ('token', S(k + so))]
    E.skolem_list += [('token', S(so + v[n] + x + d)) for n in v for d in (0, 1)]
    for n in v:
        st.add(Implies(And(starts[n], x < ln[n]), W.read(v[n] + x) != 0))
    H.reader('token_read_PARAMETER', [STRING, STRING_NL, NEW_LINE])
    H.nexts('parse_POST_multipart_headers_key')

    def cands(ctx):
        return [('before the parameter ' + m, lambda c, m=m: And(c.phis[m].off >= so, c.phis[m].off <= f + so) if isinstance(c.phis[m], Ptr) and c.phis[m].obj is not None and c.phis[m].obj.id == T.t.id else None)
                for m, p in ctx.phis.items() if isinstance(p, Ptr)]

    def facts(ctx):
        os = [S(p.off - so) for p in ctx.phis.values() if isinstance(p, Ptr) and p.obj is not None and p.obj.id == T.t.id]
        return [Implies(And(o >= 0, o < f), isspace(W.read(o))) for o in os]
    E.cand_hooks, E.fact_hooks = [cands], [facts]
    E.measure_terms = [('rest of the parameter', lambda c: sum([f + so + 1 - p.off for p in c.phis.values() if isinstance(p, Ptr) and p.obj is not None and p.obj.id == T.t.id], iv(0)))]

    def post(s, ret):
        kd = s.ghost.get('kind')
        if kd is None:
            H.handed_on(s, ret)
            H.kept(s)
            return
        r = toint(ret)
        if E.prove(s, r == IERR):
            E.oblige(s, 'refused only when there is no room', Or(*[And(starts[n], ln[n] + 1 > M.left) for n in at]))
            return
        for n, other in ((b'name', 'filename'), (b'filename', 'name')):
            p = M.get(s, n.decode(), ir.PTR)
            if isinstance(p, Ptr) and p.obj is not None and p.obj.id == M.o.id:
                q = If(quoted[n], iv(1), iv(0))
                L = ln[n] - 2 * q
                d = M.get(s, 'data', ir.PTR)
                E.oblige(s, 'only a %s= parameter sets the %s' % (n.decode(), n.decode()), starts[n])
                E.oblige(s, 'the %s is whole and without quotes' % n.decode(), And(Implies(x < L, E.read_byte(s, M.o, S(p.off + x)) == W.read(v[n] + q + x)), E.read_byte(s, M.o, S(p.off + L)) == 0))
                E.oblige(s, 'the %s lies before what comes next' % n.decode(), And(p.off >= M.doff, p.off + L + 1 <= d.off, d.off >= M.doff) if isinstance(d, Ptr) else no())
            else:
                E.oblige(s, 'a %s= parameter sets the %s' % (n.decode(), n.decode()), And(isp(p, keep[n.decode()]), Not(starts[n])))
        H.kept(s)
        if s.ghost.get('next'):
            E.oblige(s, 'headers follow only a whole line', B(kd != STRING))
            H.went(s, ret, 'parse_POST_multipart_headers_key')
        else:
            E.oblige(s, 'another parameter, or the next header, follows', And(r == NEED, B(H.R.parser(s) == (H.state if kd == STRING else 'parse_POST_multipart_headers_key'))))
    E.run(st, 'parse_POST_multipart_content_type', H.args(), post)


@proof(['P09', 'P11', 'P12', 'P13'], 'prepare_POST', F)
def prepare(E):
    """the body of a form: refused without a length, nothing to read when it is empty; urlencoded forms up to the limit get memory for all of it; multipart ones the delimiter that
    Content-Type gives (quoted or not) and memory for what is announced and allowed"""
    for typed in ('none', 'urlencoded', 'nothing', 'boundary'):
        st = init(E)
        H = Head(E, st, 'parse_headers_KEY')
        T, R = H.T, H.R
        E.poke(st, T.t, iv(T.f['pos'][0]), 8, iv(0))
        n, b, cl, x = z3.Ints('typelen at announced x')
        st.add(n >= 0, n < (1 << 14), b >= 0, b + 9 <= n, cl >= -(1 << 63), cl < (1 << 63), x >= 0)
        ct, cls = E.cstring(st, 'type', n, kind='input', const=True), E.newobj(st, 'length', 8, 'input')
        C = st.om(ct).bm
        st.add(C.read(n) == 0, Implies(b + 9 < n, C.read(b + 9) != 0))
        E.skolem_list = [('type', S(b + 9))]

        def get(E, s, a, typed=typed, ct=ct, cls=cls):
            k = (models.constbytes(E, s, a[1]) or b'').lower()
            E.oblige(s, 'asks for a header of the request', Or(isp(a[0], H.R.o), isp(a[0], H.hd)) if k in (b'content-length', b'content-type') else no())
            if k == b'content-type':
                return NULL if typed == 'none' else Ptr(ct, iv(0))
            if 'length' in s.ghost:
                return Ptr(cls, iv(0)) if s.ghost['length'] else NULL
            s2 = s.copy()
            s.ghost['length'], s2.ghost['length'] = True, False
            return [(s, Ptr(cls, iv(0))), (s2, NULL)]

        def strstr(E, s, a, typed=typed, ct=ct, b=b):
            k = models.constbytes(E, s, a[1])
            E.oblige(s, 'looks at the type', isp(a[0], ct) if k in (b'application/x-www-form-urlencoded', b'boundary=') else no())
            if k == b'boundary=':
                return Ptr(ct, b) if typed == 'boundary' else NULL
            return Ptr(ct, iv(0)) if typed == 'urlencoded' else NULL

        def strcspn(E, s, a, ct=ct, n=n):
            p, stop = a[0], models.constbytes(E, s, a[1])
            if stop is None or not (isinstance(p, Ptr) and p.obj is not None and p.obj.id == ct.id):
                raise Unsupported('strcspn of something else')
            E.oblige(s, 'searches the type', And(p.off >= 0, p.off <= n))
            r = E.fint('span', s, 0)
            isstop = lambda v: Or(v == 0, *[v == ch for ch in stop])
            s.add(p.off + r <= n, isstop(C.read(p.off + r)), Implies(x < r, Not(isstop(C.read(p.off + x)))))
            return r

        def atol(E, s, a, cls=cls, cl=cl):
            E.oblige(s, 'the length the client announces', isp(a[0], cls))
            return cl
        E.contracts.update(onion_request_get_header=get, onion_dict_get=get, strstr=strstr, strcspn=strcspn, atol=atol, atoll=atol)

        def post(s, ret, typed=typed, C=C, n=n, b=b, cl=cl, T=T, R=R):
            r = toint(ret)
            if s.ghost.get('length') is False:
                E.oblige(s, 'refused without a length', r == IERR)
                return
            big = Or(cl < 0, cl > R.mp_)
            if E.prove(s, r == READY):
                E.oblige(s, 'ready only without a body', cl == 0)
                return
            E.oblige(s, 'an empty body is ready', cl != 0)
            ps = R.parser(s)
            if E.prove(s, r == IERR):
                E.oblige(s, 'refused only over the limit or without a delimiter', {'none': big, 'urlencoded': big, 'nothing': B(True), 'boundary': B(False)}[typed])
                return
            ex = E.load(s, Ptr(T.t, iv(T.f['extra'][0])), ir.PTR, None)
            es = toint(E.load(s, Ptr(T.t, iv(T.f['extra_size'][0])), ir.I[64], None))
            own = isinstance(ex, Ptr) and ex.obj is not None and ex.obj.kind == 'heap' and s.om(ex.obj).alive
            E.oblige(s, 'has memory of its own', And(ex.off == 0, r == NEED, T.tpos(s) == 0) if own else no())
            if not own:
                return
            if typed in ('none', 'urlencoded'):
                E.oblige(s, 'room for exactly the announced body and its end, within the limit', And(Not(big), es == cl, ex.obj.size >= cl + 1, B(ps == 'parse_POST_urlencode')))
                return
            E.oblige(s, 'multipart needs a delimiter', B(typed == 'boundary' and ps == 'parse_POST_multipart_start'))
            g = mf()
            ld = lambda f, ty=ir.I[64]: E.load(s, Ptr(ex.obj, iv(g[f][0])), ty, None)
            bd, d = ld('boundary', ir.PTR), ld('data', ir.PTR)
            ok = all(isinstance(p, Ptr) and p.obj is not None and p.obj.id == ex.obj.id for p in (bd, d))
            q = If(C.read(b + 9) == 34, iv(1), iv(0))
            v = b + 9 + q
            size = toint(ld('size'))
            L = size - 4
            stop = lambda ch: Or(ch == 0, If(q == 1, ch == 34, Or(ch == 59, ch == 32, ch == 9)))
            E.oblige(s, 'the delimiter is that of Content-Type', And(L >= 0, v + L <= n, stop(C.read(v + L)), Implies(x < L, Not(stop(C.read(v + x))))))
            rd = lambda i: E.read_byte(s, ex.obj, S(bd.off + i))
            E.oblige(s, 'the delimiter is kept, after an end of line and two dashes', And(rd(iv(0)) == 13, rd(iv(1)) == 10, rd(iv(2)) == 45, rd(iv(3)) == 45, Implies(x < L, rd(x + 4) == C.read(v + x)), rd(size) == 0) if ok else no())
            left = toint(ld('post_total_size'))
            E.oblige(s, 'room for what is announced and allowed', And(left == If(big, R.mp_, cl), d.off > bd.off + size, bd.off >= g[''][1], d.off + left + 1 <= ex.obj.size, toint(ld('pos')) == 2, toint(ld('file_total_size')) == 0) if ok else no())
        E.run(st, 'prepare_POST', [R.p()], post)


@proof(['P09', 'P13'], 'token_read_PARAMETER', F)
def mp_parameter(E):
    """a parameter ends at a semicolon that is not between quotes: one between quotes is put back where it was and reading goes on after it; everything else is handed on as it is"""
    st = init(E)
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    T = Tok(E, st)
    so = T.f['str'][0]
    E.Q = None
    rest = models_num(E, st, 'rest', 0)
    E.poke(st, rest.o, iv(0), 8, T.n)

    x = z3.Int('x')
    st.add(x >= 0)
    E.skolem_list = [('token', S(x + so))]
    going, klen, odd, valx = [models_num(E, st, n) for n in ('going', 'klen', 'odd', 'valx')]

    def resumed(s):
        """what must hold when reading goes on"""
        k = klen.get(s)
        return And(odd.get(s) == 1, T.tpos(s) == k + 1, E.read_byte(s, T.t, S(k + so)) == 59, T.tpos(s) < T.cap - 1, Implies(x < k, E.read_byte(s, T.t, S(x + so)) == tobv(valx.get(s), 8)))

    def until(E, s, a):
        E.oblige(s, 'reads up to a semicolon', And(isp(a[0], T.t), isp(a[1], T.b), tobv(a[2], 8) == 59))
        E.oblige(s, 'goes on only after a semicolon between quotes, which stays like all that was read', Implies(going.get(s) == 1, resumed(s)))
        out = []
        more = s.copy()
        r = E.fint('status', more, -600, 1000)
        more.ghost['res'] = r
        out.append((more, r))
        for kd in (STRING, STRING_NL, NEW_LINE):
            t = s.copy()
            W, k = BMBase('param'), E.fint('len', t, 0, T.cap - 2)
            Q = Sum('Q%d' % uid(), k, lambda i, W=W: If(W.read(i) == 34, iv(1), iv(0)), 0, 1)
            om = t.wom(T.t)
            om.bm = BMRange(om.bm, iv(so), iv(so + T.cap), lambda i, W=W: W.read(S(i - so)))
            E.poke(t, T.t, iv(T.f['pos'][0]), 8, iv(0))
            t.add(W.read(k) == 0, Q.base(), k < T.cap - 1)
            n = rest.get(t)
            left = E.fint('left', t, 0)
            t.add(left < n)                       # the semicolon or the newline was used
            rest.set(t, left)
            t.ghost['text'], t.ghost['res'] = (W, k, Q), iv(kd)
            going.set(t, iv(1))
            klen.set(t, k)
            odd.set(t, Q(k) % 2)
            valx.set(t, z3.BV2Int(W.read(x)))
            out.append((t, iv(kd)))
        return out
    E.contracts['token_read_until'] = until

    def ints(ctx):
        return [n for n, v in ctx.phis.items() if not isinstance(v, (Ptr, Fn)) and z3.is_expr(v)]

    def cands(ctx):
        g = ctx.st.ghost.get('text')
        if g is None:
            return [('resumed', lambda c: Implies(going.get(c.st) == 1, resumed(c.st))), ('going', lambda c: Or(going.get(c.st) == 0, going.get(c.st) == 1))]
        W, k, Q = g
        out = []
        for n in ints(ctx):
            out.append(('index ' + n, lambda c, n=n: And(toint(c.phis[n]) >= 0, toint(c.phis[n]) <= k)))
            for m in ints(ctx):
                if m != n:
                    out.append(('quotes before %s %s' % (n, m), lambda c, n=n, m=m: toint(c.phis[m]) == Q(toint(c.phis[n]))))
                    out.append(('parity before %s %s' % (n, m), lambda c, n=n, m=m: And(toint(c.phis[m]) >= 0, toint(c.phis[m]) <= 1, toint(c.phis[m]) == Q(toint(c.phis[n])) % 2)))
        return out

    def facts(ctx):
        g = ctx.st.ghost.get('text')
        if g is None:
            return []
        W, k, Q = g
        out = []
        for n in ints(ctx):
            i = toint(ctx.phis[n])
            out += [Implies(And(i >= 0, i < k), W.read(i) != 0), Q.unfold(i)]
        return out
    E.cand_hooks, E.fact_hooks = [cands], [facts]
    def textleft(w):
        return lambda c: c.st.ghost['text'][1] - toint(c.phis[ints(c)[w]]) if 'text' in c.st.ghost and len(ints(c)) > w else iv(0)
    E.measure_terms = [('rest of the data', lambda c: rest.get(c.st))] + [('rest of the text', textleft(w)) for w in (0, 1)]

    def post(s, ret):
        r, res = toint(ret), s.ghost['res']
        if E.prove(s, res <= 1000) or E.prove(s, res != STRING):
            E.oblige(s, 'handed on as it is', r == res)
            return
        W, k, Q = s.ghost['text']
        if E.prove(s, r == IERR):
            E.oblige(s, 'refused only when the token is full', And(Q(k) % 2 == 1, k + 1 >= T.cap - 1))
            return
        E.oblige(s, 'a semicolon that is not between quotes ends the parameter', And(r == STRING, Q(k) % 2 == 0, T.tpos(s) == 0, E.read_byte(s, T.t, S(k + so)) == 0, Implies(And(x >= 0, x < k), E.read_byte(s, T.t, S(x + so)) == W.read(x))))
    E.run(st, 'token_read_PARAMETER', T.args(), post)
