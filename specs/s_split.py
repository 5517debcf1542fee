"""Contracts of the functions that split a text in place into names and values: cookies (request.c), queries and forms (request_parser.c)

The wanted split is a state machine run over the text (spec functions st, ks, vs with their step equations); the code's pointers are
shown to follow it at every byte, and every pair it ends is added once, with the name and value the machine says."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def at(p, o):
    return isinstance(p, Ptr) and p.obj is not None and o is not None and p.obj.id == o.id


def isp(p, o, off=0):
    return p.off == off if at(p, o) else z3.BoolVal(False)


class Num:
    def __init__(self, E, st, name, v=0):
        self.E = E
        self.o = E.newobj(st, name, 8, 'ghost')
        E.poke(st, self.o, iv(0), 8, iv(v))

    def get(self, s):
        return toint(self.E.load(s, Ptr(self.o, iv(0)), ir.I[64], None))

    def set(self, s, v):
        self.E.poke(s, self.o, iv(0), 8, v)


class Machine:
    """st: 0 before a name, 1 in a name, 2 in a value; ks, vs: where the name and the value began"""

    def __init__(self, C, L, step):
        I = z3.IntSort()
        self.st, self.ks, self.vs = [z3.Function(n, I, I) for n in ('spec_state', 'spec_name', 'spec_value')]
        self.C, self.L, self.step = C, L, step

    def base(self, k):
        return And(self.st(iv(0)) == k, self.ks(iv(0)) == 0, self.vs(iv(0)) == 0)

    def unfold(self, n):
        c = self.C(n)
        a, b, v = self.st(n), self.ks(n), self.vs(n)
        a2, b2, v2 = self.step(n, c, a, b, v)
        m = S(n + 1)
        return Implies(And(n >= 0, n < self.L), And(self.st(m) == a2, self.ks(m) == b2, self.vs(m) == v2, a >= 0, a <= 2, b >= 0, b <= n, v >= 0, v <= n))


@proof('P15', 'onion_request_get_cookies_dict', ['request.c'])
def cookies(E):
    """every name=value pair of the Cookie header is added once, with exactly its name and value; nothing else is"""
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['headers', 'cookies', 'free_list'])
    L, n0, x = z3.Ints('len event x')
    st.add(L >= 0, L < (1 << 28), n0 >= 0, n0 <= L, x >= 0, x < L)
    ck = E.cstring(st, 'cookie', L)
    E.hints = [('str', st.om(ck).bm, L)]
    bm = st.om(ck).bm
    C = lambda i: bm.read(i)

    def step(n, c, a, b, v):
        begin = And(a == 0, c != 32, c != 59)
        return (If(begin, iv(1), If(And(a == 1, c == 61), iv(2), If(And(a != 0, c == 59), iv(0), a))), If(begin, n, b), If(And(a == 1, c == 61), S(n + 1), v))
    M = Machine(C, L, step)
    st.add(M.base(0))
    hd, dc, fl, fl2 = [E.newobj(st, n, 8, 'input') for n in ('headers', 'cookiedict', 'freelist', 'freelist2')]
    req = E.newobj(st, 'req', rq[''][1], 'input')
    E.poke(st, req, iv(rq['headers'][0]), 8, Ptr(hd, iv(0)))
    E.poke(st, req, iv(rq['free_list'][0]), 8, Ptr(fl, iv(0)))
    E.skolem_list = [('cookie', n0), ('cookie', x)]
    cnt = Num(E, st, 'count')
    for k in (n0, S(n0 - 1), x):
        st.add(M.unfold(k))
    vs0, ks0 = M.vs(n0), M.ks(n0)
    st.add(M.unfold(S(vs0 - 1)), M.unfold(vs0), Implies(n0 < L, bm.read(n0) != 0))
    event = And(M.st(n0) == 2, Or(n0 == L, C(n0) == 59))      # a pair ends here
    st.add(ks0 >= 0, ks0 <= n0, vs0 >= 0, vs0 <= n0)
    # going back from the end of the pair: all the way to where its value began the machine is in that value (by induction)
    inval = lambda i: Implies(And(event, i >= vs0, i <= n0), And(M.st(i) == 2, M.vs(i) == vs0))
    sl = st.copy()
    j = z3.Int('j')
    sl.add(j >= 0, j < n0, M.unfold(j), inval(S(j + 1)))
    E.oblige(sl, 'the value of a pair is one stretch', inval(j))
    # in a value the name before it ended in an equals sign right there (by induction)
    named = lambda i: Implies(And(i >= 0, i <= L, M.st(i) == 2), And(M.vs(i) >= 1, M.vs(i) <= i, M.ks(i) >= 0, M.ks(i) < M.vs(i), M.st(S(M.vs(i) - 1)) == 1, C(S(M.vs(i) - 1)) == 61, M.ks(S(M.vs(i) - 1)) == M.ks(i)))
    sl = st.copy()
    sl.add(j >= 0, j < L, M.unfold(j), named(j), Implies(M.st(j) == 1, M.ks(j) < j))
    E.oblige(sl, 'a value follows the equals sign of its name', And(named(S(j + 1)), Implies(M.st(S(j + 1)) == 1, M.ks(S(j + 1)) < j + 1)))
    E.oblige(st, 'at the start there is none yet', And(named(iv(0)), M.st(iv(0)) != 1))
    began = lambda i: Implies(And(i >= 0, i <= L, M.st(i) >= 1), And(M.ks(i) >= 0, M.ks(i) < i, M.st(M.ks(i)) == 0))
    sl = st.copy()
    sl.add(j >= 0, j < L, M.unfold(j), began(j))
    E.oblige(sl, 'a name begins where there was none', And(began(S(j + 1)), began(iv(0))))
    st.add(named(n0), began(n0))
    # and back to where the name began the machine is in that name (by induction)
    inname = lambda i: Implies(And(event, i > ks0, i < vs0), And(M.st(i) == 1, M.ks(i) == ks0))
    sl = st.copy()
    sl.add(j >= 0, j < vs0 - 1, M.unfold(j), inname(S(j + 1)))
    E.oblige(sl, 'the name of a pair is one stretch', inname(j))
    E.oblige(st, 'the name ends before its value', inname(S(vs0 - 1)))
    st.add(inval(x), inval(S(x + 1)), inname(x), inname(S(x + 1)))

    def pastof(i):
        return [inval(i), inval(S(i + 1)), named(i), Implies(i < vs0, M.vs(i) < vs0)]
    name = lambda s: [o for o in s.objs.values() if o.name == 'strdup']

    def header(E, s, a):
        E.oblige(s, 'asks for the Cookie header', Or(isp(a[0], hd), isp(a[0], req)) if (models.constbytes(E, s, a[1]) or b'').lower() == b'cookie' else z3.BoolVal(False))
        s2 = s.copy()
        s.ghost['has'] = True
        return [(s, Ptr(ck, iv(0))), (s2, NULL)]

    def dnew(E, s, a):
        E.oblige(s, 'one dict', z3.BoolVal('dict' not in s.ghost))
        s.ghost['dict'] = True
        return Ptr(dc, iv(0))

    def strdup(E, s, a):
        E.oblige(s, 'works on a copy of the header', isp(a[0], ck))
        r = models.strdup_(E, s, a)
        q = r if isinstance(r, Ptr) else r[0][1]
        s.ghost['dup'] = q.obj
        return r

    def ladd(E, s, a):
        d = s.ghost.get('dup')
        E.oblige(s, 'the copy lives as long as the request', And(isp(a[0], fl), isp(a[1], d)) if d is not None else z3.BoolVal(False))
        s.ghost['kept'] = True
        return Ptr(fl2, iv(0))

    def dadd(E, s, a):
        d = s.ghost.get('dup')
        ok = d is not None and at(a[1], d) and at(a[2], d)
        k, v = (S(a[1].off), S(a[2].off)) if ok else (iv(0), iv(0))
        s.add(M.unfold(S(v - 1)), M.unfold(v))
        E.oblige(s, 'adds a pair of the header under its name', And(isp(a[0], dc), v >= 1, M.st(S(v - 1)) == 1, C(S(v - 1)) == 61, M.ks(S(v - 1)) == k, toint(a[3]) == 0) if ok else z3.BoolVal(False))
        E.oblige(s, 'adds a pair once', Implies(And(event, v == vs0), cnt.get(s) == 0))
        cnt.set(s, If(And(event, v == vs0), iv(1), cnt.get(s)))
    E.contracts.update(onion_request_get_header=header, onion_dict_get=header, onion_dict_new=dnew, onion_low_strdup=strdup, onion_ptr_list_add=ladd, onion_dict_add=dadd)

    def want(i, p):
        z = And(i < p, Or(And(M.st(i) == 1, C(i) == 61), And(M.st(i) == 2, C(i) == 59)))
        return If(z, bv(0, 8), C(i))

    def cands(ctx):
        out = []
        d = ctx.st.ghost.get('dup')
        if d is None:
            return out
        ph = {m: v for m, v in ctx.phis.items() if isinstance(v, Ptr)}
        for m, v in ph.items():
            if not at(v, d):
                continue
            P = lambda c, m=m: S(c.phis[m].off)
            isd = lambda c, m=m: at(c.phis[m], d)
            out += [('inside ' + m, lambda c, m=m, P=P, isd=isd: And(P(c) >= 0, P(c) <= L) if isd(c) else None),
                    ('text ' + m, pointwise(ctx.key, d, lambda c, i, P=P, isd=isd: Implies(And(i >= 0, i <= L), c.st.om(d).bm.read(i) == want(i, P(c))) if isd(c) else None)),
                    ('added before ' + m, lambda c, P=P, isd=isd: cnt.get(c.st) == If(And(event, n0 < P(c)), iv(1), iv(0)) if isd(c) else None)]
            for m2, v2 in ph.items():
                if m2 == m:
                    continue
                out += [('%s is the name at %s' % (m2, m), lambda c, m2=m2, P=P, isd=isd: (And(M.st(P(c)) >= 1, M.ks(P(c)) == S(c.phis[m2].off)) if at(c.phis[m2], d) else M.st(P(c)) == 0) if isd(c) else None),
                        ('%s is the value at %s' % (m2, m), lambda c, m2=m2, P=P, isd=isd: (And(M.st(P(c)) == 2, M.vs(P(c)) == S(c.phis[m2].off)) if at(c.phis[m2], d) else M.st(P(c)) <= 1) if isd(c) else None)]
            out += [('vs known ' + m, lambda c, P=P, isd=isd: Implies(And(event, n0 < P(c)), M.vs(P(c)) >= vs0) if isd(c) else None),
                    ('vs later ' + m, lambda c, P=P, isd=isd: Implies(And(event, n0 < P(c), M.st(P(c)) == 2), M.vs(P(c)) > vs0) if isd(c) else None)]
        return out
    E.cand_hooks = [cands]

    def facts(ctx):
        out = []
        d = ctx.st.ghost.get('dup')
        for v in ctx.phis.values():
            if at(v, d):
                out += [M.unfold(S(v.off)), M.unfold(S(v.off + 1)), M.unfold(S(v.off - 1))] + pastof(S(v.off)) + pastof(S(v.off + 1))
        return out
    E.fact_hooks = [facts]
    E.measure_terms = [('rest of the text', lambda c: sum([L - v.off + 1 for v in c.phis.values() if at(v, c.st.ghost.get('dup'))], iv(0)))]

    def post(s, ret):
        c = E.load(s, Ptr(req, iv(rq['cookies'][0])), ir.PTR, None)
        E.oblige(s, 'the request keeps its cookies', And(isp(ret, dc), isp(c, dc)))
        d = s.ghost.get('dup')
        if s.ghost.get('known'):
            E.oblige(s, 'cookies are read once', z3.BoolVal('dict' not in s.ghost and d is None))
        elif not s.ghost.get('has'):
            E.oblige(s, 'no cookies without a header', z3.BoolVal(d is None))
        else:
            E.oblige(s, 'works on a copy that is kept', z3.BoolVal(d is not None and 'kept' in s.ghost))
            E.oblige(s, 'every pair is added', Implies(event, cnt.get(s) == 1))
            if d is not None:
                r = lambda i: E.read_byte(s, d, i)
                E.oblige(s, 'the value ends where it ends', Implies(event, r(n0) == 0))
                E.oblige(s, 'the name ends where it ends', Implies(event, r(S(vs0 - 1)) == 0))
                E.oblige(s, 'names and values stay as sent', Implies(And(event, Or(And(x >= vs0, x < n0), And(x >= ks0, x < vs0 - 1))), r(x) == C(x)))
    for known in (True, False):
        s = st.copy()
        E.poke(s, req, iv(rq['cookies'][0]), 8, Ptr(dc, iv(0)) if known else NULL)
        if known:
            s.ghost['known'] = True
        E.run(s, 'onion_request_get_cookies_dict', [Ptr(req, iv(0))], post)


def recent_nul(bm, off, L, depth=12):
    """where a text at off surely ends: at one of the terminators just written, or at L"""
    e, over = L, []
    while isinstance(bm, (BMStore, BMRange)) and depth:
        if isinstance(bm, BMRange):
            over.append((bm.lo, bm.hi))
        else:
            e = If(And(bm.idx >= off, bm.idx < e, bm.val == 0, *[Or(bm.idx < lo, bm.idx >= hi) for lo, hi in over]), bm.idx, e)
        bm, depth = bm.prev, depth - 1
    return e


class Query:
    """the split of a query at & and =, seen at one arbitrary position n0 where a pair ends and at one arbitrary byte x"""

    def __init__(self, E, st, d, L, fr=0):
        self.E, self.d, self.L = E, d, L
        c = front.consts(['OD_DUP_KEY', 'OD_DUP_VALUE'], extra='#include <onion/dict.h>')
        dk, dv = c['OD_DUP_KEY'], c['OD_DUP_VALUE']
        self.flags = sorted({0, dk, dv, dk | dv})
        self.n0, self.x = n0, x = z3.Ints('pair_end x')
        st.add(n0 >= 0, n0 <= L, x >= 0, x <= L)
        self.C0 = bm = st.om(d).bm
        C = lambda i: bm.read(i)

        def step(n, c, a, b, v):
            return (If(c == 38, iv(1), If(And(a == 1, c == 61), iv(2), a)), If(c == 38, S(n + 1), b), If(And(a == 1, c == 61), S(n + 1), v))
        self.M = M = Machine(C, L, step)
        self.C = C
        self.prove_lemmas()
        st.add(M.base(1))
        for k in (n0, S(n0 - 1), x, S(x - 1)):
            st.add(M.unfold(k))
        st.add(Implies(n0 < L, C(n0) != 0), Implies(x < L, C(x) != 0), C(L) == 0)
        self.ks, self.vs = M.ks(n0), M.vs(n0)
        st.add(M.unfold(S(self.vs - 1)), M.unfold(self.vs), M.unfold(self.ks), M.unfold(S(self.ks - 1)))
        st.add(M.st(n0) >= 1, M.st(n0) <= 2, self.ks <= n0, self.ks >= 0)
        st.add(self.L1(n0))
        self.isval = M.st(n0) == 2
        self.ne = If(self.isval, S(self.vs - 1), n0)
        self.end = Or(n0 == L, C(n0) == 38)                       # a pair ends here
        self.need = And(self.end, Or(self.isval, self.ks < n0))    # and it is not empty
        self.cn, self.cv, self.ca = Num(E, st, 'names decoded'), Num(E, st, 'values decoded'), Num(E, st, 'pairs added')
        self.DEC = z3.Function('decoded', z3.IntSort(), z3.BitVecSort(8))
        E.skolem_list = E.skolem_list + [(d.name, n0), (d.name, x)]
        E.hints = [('str', bm, L)]

    def L1(self, n):
        """lemma 1 at n: where the pair around n begins"""
        M, C = self.M, self.C
        a, k, v = M.st(n), M.ks(n), M.vs(n)
        return Implies(And(n >= 0, n <= self.L), And(a >= 1, a <= 2, k >= 0, k <= n, Or(k == 0, C(S(k - 1)) == 38), Implies(a == 2, And(v > k, v <= n, C(S(v - 1)) == 61))))

    def L2(self, p, n):
        """lemma 2 for p <= n: what lies between the beginning of the pair around n and n belongs to the same pair"""
        M = self.M
        a, k, v = M.st(n), M.ks(n), M.vs(n)
        b, j, w = M.st(p), M.ks(p), M.vs(p)
        return Implies(And(p >= 0, p <= n, n <= self.L), And(
            Implies(p < k, And(j < k)), Implies(And(p >= k), And(j == k, Implies(b == 2, And(a == 2, w == v)), Implies(And(a == 2, p < v), b == 1), Implies(And(a == 2, p >= v), b == 2)))))

    def L3(self, n, p):
        """lemma 3 for n < p: after the end of a pair comes another one"""
        return Implies(And(n >= 0, n < p, p <= self.L, self.C(n) == 38), self.M.ks(p) > n)

    def prove_lemmas(self):
        M = self.M
        n, p = z3.Ints('ln lp')
        at0 = And(M.base(1), self.L >= 0)
        lemma('1: the pair around a position (base)', at0, self.L1(iv(0)))
        lemma('1: the pair around a position (step)', And(n >= 0, n < self.L, self.L1(n), M.unfold(n)), self.L1(S(n + 1)))
        lemma('2: one pair up to its end (base)', And(self.L1(n), M.st(n) >= 1), self.L2(n, n))
        lemma('2: one pair up to its end (step)', And(p >= 0, p <= n, n < self.L, self.L2(p, n), self.L1(n), self.L1(p), M.unfold(n)), self.L2(p, S(n + 1)))
        lemma('3: pairs follow each other (base)', And(n >= 0, n < self.L, M.unfold(n)), self.L3(n, S(n + 1)))
        lemma('3: pairs follow each other (step)', And(n >= 0, n < p, p < self.L, self.L3(n, p), M.unfold(p)), self.L3(n, S(p + 1)))

    def unquote(self, E, s, a):
        d, M, L, x, n0 = self.d, self.M, self.L, self.x, self.n0
        if not at(a[0], d):
            E.oblige(s, 'decodes a part of the text', z3.BoolVal(False))
            return iv(0)
        off = S(a[0].off)
        E.oblige(s, 'decodes a part of the text', And(off >= 0, off <= L))
        isn, isv = And(self.end, off == self.ks), And(self.end, self.isval, off == self.vs)
        rd = lambda i: E.read_byte(s, d, i)
        E.oblige(s, 'the name is decoded once and whole', Implies(isn, And(self.cn.get(s) == 0, rd(self.ne) == 0, Implies(And(x >= self.ks, x < self.ne), rd(x) == self.C(x)))))
        E.oblige(s, 'the value is decoded once and whole', Implies(isv, And(self.cv.get(s) == 0, rd(n0) == 0, Implies(And(x >= self.vs, x < n0), rd(x) == self.C(x)))))
        # the text decoded ends at its first terminator: somewhere, but not after those the code knows of
        at_ = [S(v.off) for f in s.frames[-1:] for v in f.env.values() if at(v, d)]
        at_ = list({q.get_id(): q for o in at_ for q in (o, S(o - 1))}.values()) + [L, n0, self.ne, x, S(self.vs - 1)]
        E.oblige(s, 'the text decoded is terminated', Or(*[And(q >= off, q <= L, rd(q) == 0) for q in at_]))
        e = z3.Int('end!%d' % uid())
        s.add(e >= off, e <= L, rd(e) == 0, *[Implies(And(q >= off, q <= L, rd(q) == 0), e <= q) for q in at_])
        s.add(Implies(isn, e == self.ne), Implies(isv, e == n0))      # as the two obligations above say
        E.oblige(s, 'nothing decoded is decoded again', And(
            Implies(And(self.end, Not(isn), self.cn.get(s) == 1), Or(off > self.ne, e < self.ks)),
            Implies(And(self.end, self.isval, Not(isv), self.cv.get(s) == 1), Or(off > n0, e < self.vs))))
        self.cn.set(s, If(isn, iv(1), self.cn.get(s)))
        self.cv.set(s, If(isv, iv(1), self.cv.get(s)))
        om = s.wom(d)
        om.bm = BMRange(om.bm, off, S(e + 1), lambda i: self.DEC(i))
        r = E.fint('unquoted', s, 0, 1 << 28)
        return r

    def add(self, E, s, a, dictok):
        d, M, L, n0 = self.d, self.M, self.L, self.n0
        if not at(a[1], d):
            E.oblige(s, 'adds a pair under a name of the text', z3.BoolVal(False))
            return
        k = S(a[1].off)
        E.oblige(s, 'adds a pair under a name of the text', And(dictok, k >= 0, k <= L, Or(k == 0, self.C(S(k - 1)) == 38), Or(*[toint(a[3]) == f for f in self.flags])))
        mine = And(self.end, k == self.ks)
        if at(a[2], d):
            vok = And(self.isval, S(a[2].off) == self.vs, self.cv.get(s) == 1)
        else:
            vok = And(Not(self.isval), z3.BoolVal(models.constbytes(E, s, a[2]) == b''))
        E.oblige(s, 'with its own decoded value, or an empty one', Implies(mine, And(vok, self.cn.get(s) == 1)))
        E.oblige(s, 'adds a pair once', Implies(mine, self.ca.get(s) == 0))
        self.ca.set(s, If(mine, iv(1), self.ca.get(s)))

    def seg(self):
        """x is a byte of the pair"""
        return And(self.x >= self.ks, self.x <= self.n0)

    def cands(self, ctx):
        d, M, L, E, n0 = self.d, self.M, self.L, self.E, self.n0
        out = []
        ph = {m: v for m, v in ctx.phis.items() if isinstance(v, Ptr)}
        ints = [m for m, v in ctx.phis.items() if not isinstance(v, Ptr)]
        for m, v in ph.items():
            if not at(v, d):
                continue
            P = lambda c, m=m: S(c.phis[m].off)
            isd = lambda c, m=m: at(c.phis[m], d)

            def clause(name, fn, P=P, isd=isd, m=m):
                out.append((name + ' ' + m, lambda c: fn(c, P(c)) if isd(c) else None))
            clause('inside', lambda c, p: And(p >= 0, p <= L))
            out.append(('text ' + m, pointwise(ctx.key, d, lambda c, i, P=P, isd=isd: Implies(And(i >= M.ks(P(c)), i <= L), c.st.om(d).bm.read(i) ==
                        If(And(M.st(P(c)) == 2, i == M.vs(P(c)) - 1), bv(0, 8), self.C(i))) if isd(c) else None)))
            done = lambda p: And(self.end, n0 < p)
            clause('added', lambda c, p: And(Implies(And(self.need, n0 < p), self.ca.get(c.st) == 1), Implies(And(self.end, n0 >= p), self.ca.get(c.st) == 0)))
            clause('decoded', lambda c, p: And(Implies(And(self.need, n0 < p), And(self.cn.get(c.st) == 1, Implies(self.isval, self.cv.get(c.st) == 1))),
                                                Implies(And(self.end, n0 >= p), And(self.cn.get(c.st) == 0, self.cv.get(c.st) == 0))))
            clause('counts', lambda c, p: And(self.ca.get(c.st) >= 0, self.ca.get(c.st) <= 1, self.cn.get(c.st) >= 0, self.cn.get(c.st) <= 1, self.cv.get(c.st) >= 0, self.cv.get(c.st) <= 1))
            clause('decoded text', lambda c, p: Implies(And(done(p), self.need, self.seg()), c.st.om(d).bm.read(self.x) == self.DEC(self.x)))
            for m2 in ph:
                if m2 != m:
                    out.append(('%s is the name at %s' % (m2, m), lambda c, m2=m2, P=P, isd=isd: M.ks(P(c)) == S(c.phis[m2].off) if isd(c) and at(c.phis[m2], d) else None))
                    out.append(('%s is the value at %s' % (m2, m), lambda c, m2=m2, P=P, isd=isd: (Implies(M.st(P(c)) == 2, M.vs(P(c)) == S(c.phis[m2].off)) if at(c.phis[m2], d) else M.st(P(c)) == 1) if isd(c) else None))
                    out.append(('%s is the value iff at %s' % (m2, m), lambda c, m2=m2, P=P, isd=isd: (And(M.st(P(c)) == 2, M.vs(P(c)) == S(c.phis[m2].off)) if at(c.phis[m2], d) else M.st(P(c)) == 1) if isd(c) else None))
            for m2 in ints:
                for a in (0, 1, 2):
                    for k in (1, 2):
                        out.append(('%s is %d in state %d at %s' % (m2, a, k, m), lambda c, m2=m2, a=a, k=k, P=P, isd=isd: Implies(M.st(P(c)) == k, toint(c.phis[m2]) == a) if isd(c) else None))
        return out

    def facts(self, ctx):
        out = []
        for v in ctx.phis.values():
            if at(v, self.d):
                o = S(v.off)
                out += [self.M.unfold(o), self.M.unfold(S(o + 1)), self.M.unfold(S(o - 1)), Implies(And(o >= 0, o < self.L), self.C(o) != 0),
                        self.L1(o), self.L1(S(o + 1)), self.L2(o, self.n0), self.L3(self.n0, o), self.L2(S(o + 1), self.n0), self.L3(self.n0, S(o + 1))]
        return out

    def install(self):
        E = self.E
        E.cand_hooks, E.fact_hooks = E.cand_hooks + [self.cands], E.fact_hooks + [self.facts]
        E.measure_terms = E.measure_terms + [('rest of the text', lambda c: sum([self.L - v.off + 1 for v in c.phis.values() if at(v, self.d)], iv(0)))]

    def post(self, E, s):
        E.oblige(s, 'every pair is added', Implies(self.need, self.ca.get(s) == 1))
        E.oblige(s, 'names and values are what was decoded', Implies(And(self.need, self.seg()), E.read_byte(s, self.d, self.x) == self.DEC(self.x)))


@proof('P12', 'onion_request_parse_query_to_dict', ['request_parser.c'])
def query_split(E):
    """every name=value pair of a query is added once, with its own decoded name and value; nothing else is"""
    st = init(E)
    L = z3.Int('len')
    st.add(L >= 0, L < (1 << 28))
    q = E.cstring(st, 'query', L)
    dc = E.newobj(st, 'dict', 8, 'input')
    Q = Query(E, st, q, L)
    Q.install()
    E.contracts.update(onion_unquote_inplace=Q.unquote, onion_dict_add=lambda E, s, a: Q.add(E, s, a, isp(a[0], dc)))
    E.run(st, 'onion_request_parse_query_to_dict', [Ptr(dc, iv(0)), Ptr(q, iv(0))], lambda s, r: Q.post(E, s))


@proof(['P12', 'P10'], 'onion_request_parse_query', ['request_parser.c'])
def query_cut(E):
    """the address is cut at its first question mark: what precedes it is decoded as the path, what follows is split as it was sent; without address nothing happens"""
    rq = front.offsets('struct onion_request_t', ['fullpath', 'GET'])
    for known in (None, True, False):
        st = init(E)
        L, q, x = z3.Ints('len first_question_mark x')
        st.add(L >= 0, L < (1 << 28), q >= 0, q <= L, x >= 0, x <= L)
        p = E.cstring(st, 'fullpath', L)
        E.hints = [('str', st.om(p).bm, L)]
        bm = st.om(p).bm
        C = lambda i, bm=bm: bm.read(i)
        st.add(Implies(q < L, C(q) == 63), C(L) == 0, Implies(x < q, C(x) != 63), Implies(x < L, C(x) != 0))
        E.skolem_list = [('fullpath', q), ('fullpath', x)]
        st.pw.append((p, lambda i, C=C, q=q: Implies(And(i >= 0, i < q), C(i) != 63)))
        req = E.newobj(st, 'req', rq[''][1], 'input')
        dc, old = E.newobj(st, 'dict', 8, 'input'), E.newobj(st, 'GET', 8, 'input')
        E.poke(st, req, iv(rq['fullpath'][0]), 8, NULL if known is None else Ptr(p, iv(0)))
        E.poke(st, req, iv(rq['GET'][0]), 8, Ptr(old, iv(0)) if known else NULL)

        def unquote(E, s, a, p=p, C=C, q=q, x=x):
            rd = lambda i: E.read_byte(s, p, i)
            E.oblige(s, 'the path is decoded once, before the question mark', And(isp(a[0], p), rd(q) == 0, Implies(x < q, rd(x) == C(x)), z3.BoolVal('path' not in s.ghost)))
            s.ghost['path'] = True
            om = s.wom(p)
            D = BMBase('decoded')
            om.bm = BMRange(om.bm, iv(0), S(q + 1), lambda i: D.read(i))
            return E.fint('unquoted', s, 0, 1 << 28)

        def dnew(E, s, a, dc=dc):
            E.oblige(s, 'one dict', z3.BoolVal('dict' not in s.ghost))
            s.ghost['dict'] = True
            return Ptr(dc, iv(0))

        def split(E, s, a, p=p, C=C, q=q, L=L, x=x, dc=dc):
            E.oblige(s, 'the query is split once, into the dict of the request, as it was sent', And(isp(a[0], dc), isp(a[1], p, S(q + 1)), q < L, Implies(And(x > q, x <= L), E.read_byte(s, p, x) == C(x)),
                                                                                                       z3.BoolVal('split' not in s.ghost)))
            s.ghost['split'] = True
        E.contracts.update(onion_unquote_inplace=unquote, onion_dict_new=dnew, onion_request_parse_query_to_dict=split)

        def cands(ctx, p=p, q=q, L=L):
            out = []
            for m, v in ctx.phis.items():
                if at(v, p):
                    out.append(('before the question mark ' + m, lambda c, m=m: And(c.phis[m].off >= 0, c.phis[m].off <= q) if at(c.phis[m], p) else None))
                elif not isinstance(v, Ptr):
                    out.append(('index before the question mark ' + m, lambda c, m=m: And(toint(c.phis[m]) >= 0, toint(c.phis[m]) <= q)))
            return out

        def facts(ctx, p=p, q=q, L=L, C=C):
            os = [S(v.off) for v in ctx.phis.values() if at(v, p)] + [toint(v) for v in ctx.phis.values() if not isinstance(v, Ptr) and not isinstance(v, Fn)]
            return [Implies(And(o >= 0, o < q), And(C(o) != 63, C(o) != 0)) for o in os] + [Implies(And(o >= 0, o < L), C(o) != 0) for o in os]
        E.cand_hooks, E.fact_hooks = [cands], [facts]
        E.measure_terms = [('rest of the address', lambda c, p=p, L=L: sum([L - v.off + 1 for v in c.phis.values() if at(v, p)], iv(0)))]

        def post(s, ret, known=known, q=q, L=L, dc=dc, old=old, p=p):
            g = E.load(s, Ptr(req, iv(rq['GET'][0])), ir.PTR, None)
            f = E.load(s, Ptr(req, iv(rq['fullpath'][0])), ir.PTR, None)
            if known is None:
                E.oblige(s, 'no address, nothing to do', And(toint(ret) == 0, z3.BoolVal('path' not in s.ghost and 'split' not in s.ghost)))
            elif known:
                E.oblige(s, 'the address is cut once', And(toint(ret) != 0, isp(g, old), isp(f, p), z3.BoolVal('path' not in s.ghost and 'split' not in s.ghost)))
            else:
                E.oblige(s, 'the path is decoded and the query, if any, split', And(toint(ret) != 0, isp(f, p), z3.BoolVal('path' in s.ghost), z3.BoolVal('split' in s.ghost) == (q < L)))
                E.oblige(s, 'the request has the query', isp(g, dc) if 'split' in s.ghost else z3.BoolVal(isinstance(g, Ptr) and g.obj is None))
        E.run(st, 'onion_request_parse_query', [Ptr(req, iv(0))], post)


@proof(['P11', 'P12'], 'parse_POST_urlencode', ['request_parser.c'])
def form_split(E):
    """a form is split once it is complete, whole, into the dict of the request; its text lives as long as the request; until then nothing happens"""
    rq = front.offsets('struct onion_request_t', ['parser_data', 'POST', 'free_list'])
    c = front.consts(['OCS_REQUEST_READY', 'OCS_NEED_MORE_DATA', 'OCS_INTERNAL_ERROR'])
    st = init(E)
    T = front.offsets('onion_token', ['extra', 'extra_size', 'pos'], 'request_parser.c')
    es = z3.Int('extra_size')
    st.add(es >= 0, es < (1 << 28))
    tx = E.newobj(st, 'form', S(es + 1), 'heap')
    tok = E.newobj(st, 'token', T[''][1], 'input')
    req = E.newobj(st, 'req', rq[''][1], 'input')
    buf, dc, fl, fl2 = [E.newobj(st, n, 8, 'input') for n in ('data', 'dict', 'freelist', 'freelist2')]
    E.poke(st, tok, iv(T['extra'][0]), 8, Ptr(tx, iv(0)))
    E.poke(st, req, iv(rq['parser_data'][0]), 8, Ptr(tok, iv(0)))
    E.poke(st, req, iv(rq['POST'][0]), 8, NULL)
    E.poke(st, req, iv(rq['free_list'][0]), 8, Ptr(fl, iv(0)))

    def read(E, s, a):
        E.oblige(s, 'reads the form once', And(isp(a[0], tok), isp(a[1], buf), z3.BoolVal('read' not in s.ghost)))
        s.ghost['read'] = r = E.fint('read', s, -20, 2000)
        return r

    def dnew(E, s, a):
        return Ptr(dc, iv(0))

    def split(E, s, a):
        E.oblige(s, 'splits the complete form once', And(isp(a[0], dc), isp(a[1], tx), s.ghost['read'] > 1000 if 'read' in s.ghost else z3.BoolVal(False), z3.BoolVal('split' not in s.ghost)))
        s.ghost['split'] = True

    def ladd(E, s, a):
        E.oblige(s, 'the form lives as long as the request', And(isp(a[0], fl), isp(a[1], tx)))
        s.ghost['kept'] = True
        return Ptr(fl2, iv(0))
    E.contracts.update(token_read_URLENCODE=read, onion_dict_new=dnew, onion_request_parse_query_to_dict=split, onion_ptr_list_add=ladd)

    def post(s, ret):
        ld = lambda o, k: E.load(s, Ptr(o, iv(k[0])), ir.PTR, None)
        r = s.ghost.get('read')
        P, X, F = ld(req, rq['POST']), ld(tok, T['extra']), ld(req, rq['free_list'])
        if r is None:
            E.oblige(s, 'reads the form', z3.BoolVal(False))
        elif 'split' in s.ghost:
            E.oblige(s, 'a complete form makes the request ready', And(toint(ret) == c['OCS_REQUEST_READY'], isp(P, dc), z3.BoolVal('kept' in s.ghost), isp(F, fl2), z3.BoolVal(isinstance(X, Ptr) and X.obj is None)))
        else:
            E.oblige(s, 'an incomplete form waits, a bad one is refused', And(r <= 1000, toint(ret) == r, isp(X, tx), isp(F, fl)))
    E.run(st, 'parse_POST_urlencode', [Ptr(req, iv(0)), Ptr(buf, iv(0))], post)
