"""Contracts of handler.c, url.c, handlers/path.c, handlers/static.c: every request reaches the right handler"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


class Marks:
    """ghost: one mark per position of a list"""

    def __init__(self, E, st, name):
        self.E = E
        self.o = E.newobj(st, name, iv(1 << 62), 'ghost')
        z = BMZero()
        st.wom(self.o).bm = z

    def get(self, s, i):
        return self.E.read_byte(s, self.o, i)

    def set(self, s, i, v=1):
        self.E.store_range(s, self.o, i, iv(1), lambda k: v if z3.is_expr(v) else bv(v, 8))


class Num:
    def __init__(self, E, st, name, v):
        self.E = E
        self.o = E.newobj(st, name, 8, 'ghost')
        E.poke(st, self.o, iv(0), 8, iv(v))

    def get(self, s):
        return toint(self.E.load(s, Ptr(self.o, iv(0)), ir.I[64], None))

    def set(self, s, v):
        self.E.poke(s, self.o, iv(0), 8, v)


def hoffs():
    return front.offsets('struct onion_handler_t', ['handler', 'priv_data', 'priv_data_free', 'next'])


@proof('P21', 'onion_handler_handle', ['handler.c'])
def handler_handle(E):
    """handlers are asked in order, each once with its own data, until one accepts; its answer is flushed and returned; if none does the request is not processed"""
    c = front.consts(['OCS_NOT_PROCESSED', 'OCS_WEBSOCKET', 'OCS_INTERNAL_ERROR', 'OR_HEADER_SENT'])
    st = init(E)
    h = hoffs()
    rq = front.offsets('struct onion_request_t', ['websocket'])
    rs = front.offsets('struct onion_response_t', ['flags', 'buffer', 'buffer_pos'])
    j, n = z3.Ints('j count')
    st.add(j >= 0, n >= 0)
    has, hasp = [z3.Function(k, z3.IntSort(), z3.BoolSort()) for k in ('has', 'hasdata')]
    ask = Marks(E, st, 'asked')
    last = Num(E, st, 'lastasked', -1)
    got = Num(E, st, 'answer', 0)
    fl = Num(E, st, 'flushed', 0)
    ws = E.newobj(st, 'websocket', 64, 'input')
    req = E.newobj(st, 'req', rq[''][1], 'input')
    res = E.newobj(st, 'res', rs[''][1], 'input')
    req.lazy = {rq['websocket'][0]: lambda E, s, o: fork(E, s, Ptr(ws, iv(0)))}
    E.skolem_list = [('asked', j)]

    def lazy(s, o):
        name = 'vf_handler!%d' % uid()

        def called(E, s, a):
            p = o.pos
            E.oblige(s, 'a handler gets its own data, the request and the response', And(a[0].off == 0, a[1].off == 0, a[2].off == 0, And(hasp(p), a[0].obj.pos == p) if a[0].obj is not None else Not(hasp(p))) if isinstance(a[0], Ptr) and getattr(a[0].obj, 'name', 'priv') == 'priv' and a[1].obj is req and a[2].obj is res else z3.BoolVal(False))
            E.oblige(s, 'handlers are asked in order, each once, until one accepts', And(last.get(s) < p, got.get(s) == 0))
            ask.set(s, p)
            last.set(s, p)
            r = E.i32(s, 'answer')
            s.add(r > -100, r < 100)
            got.set(s, r)
            return r
        E.contracts[name] = called

        def priv(E, s, ob):
            q = E.newobj(s, 'priv', 8, 'input')
            q.pos = ob.pos
            return [(hasp(ob.pos), Ptr(q, iv(0)), None), (Not(hasp(ob.pos)), NULL, None)]
        return {h['handler'][0]: lambda E, s, ob: [(has(ob.pos), Fn(name), None), (Not(has(ob.pos)), NULL, None)], h['priv_data'][0]: priv}
    ch = Chain(E, 'handler', h[''][1], h['next'][0], lazy)

    def flush(E, s, a):
        fl.set(s, iv(1))
        return E.i32(s, 'fl')

    def set_length(E, s, a):
        f = tobv(E.load(s, Ptr(res, iv(rs['flags'][0])), ir.I[32], None), 32)
        b = toint(E.load(s, Ptr(res, iv(rs['buffer_pos'][0])), ir.I[32], None))
        E.oblige(s, 'the length of what was written is announced only if that is all and the head has not gone', And(f & c['OR_HEADER_SENT'] == 0, toint(a[1]) == b, fl.get(s) == 0, got.get(s) != 0))
        return None

    def wscall(E, s, a):
        E.oblige(s, 'a websocket goes on after the answer to its opening', And(fl.get(s) == 1, got.get(s) == c['OCS_WEBSOCKET'], a[0].off == 0) if a[0].obj is ws else z3.BoolVal(False))
        s.ghost['ws'] = r = E.i32(s, 'wsret')
        return r
    E.contracts.update(onion_response_flush=flush, onion_response_set_length=set_length, onion_websocket_call=wscall)

    def cands(ctx):
        out = [('none accepted', lambda c_: And(got.get(c_.st) == 0, fl.get(c_.st) == 0))]
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr):
                cur = lambda c_, m=m: c_.phis[m].obj.pos if c_.phis[m].obj is not None else n
                out += [('in order ' + m, lambda c_, cur=cur: last.get(c_.st) < cur(c_)),
                        ('earlier ones were asked ' + m, lambda c_, cur=cur: Implies(And(j < cur(c_), has(j)), c_.read(ask.o, j) == 1)),
                        ('within ' + m, lambda c_, m=m: c_.phis[m].obj is None or c_.phis[m].obj.pos + c_.phis[m].obj.rest + 1 == n)]
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        ret, g = toint(ret), got.get(s)
        E.oblige(s, 'every handler before the one that accepted was asked', Implies(And(has(j), j < n, Or(g == 0, j <= last.get(s))), ask.get(s, j) == 1))
        E.oblige(s, 'not processed exactly if nobody accepted', Implies(g == 0, ret == c['OCS_NOT_PROCESSED']))
        E.oblige(s, 'the answer of the one that accepted is flushed and returned', Implies(g != 0, And(fl.get(s) == 1, Or(ret == g, g == c['OCS_WEBSOCKET']))))
        E.oblige(s, 'a websocket runs, or is an error without one', Implies(g == c['OCS_WEBSOCKET'], ret == s.ghost.get('ws', iv(c['OCS_INTERNAL_ERROR']))))
    for empty in (False, True):
        s = st.copy()
        s.add(n == 0 if empty else n > 0)
        E.run(s, 'onion_handler_handle', [NULL if empty else ch.ptr(s, iv(0), S(n - 1)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)


@proof('P21', 'onion_handler_free', ['handler.c'])
def handler_free(E):
    """every handler of the list is freed once, its data released once with its own function, and their number returned"""
    st = init(E)
    h = hoffs()
    j, n = z3.Ints('j count')
    st.add(j >= 0, n >= 0, n < (1 << 30))
    hasf, hasp = [z3.Function(k, z3.IntSort(), z3.BoolSort()) for k in ('hasfree', 'hasdata')]
    dead, rel = Marks(E, st, 'freed'), Marks(E, st, 'released')
    E.skolem_list = [('freed', j), ('released', j)]

    def lazy(s, o):
        o.kind = 'heap'
        name = 'vf_free!%d' % uid()

        def called(E, s, a):
            E.oblige(s, 'the release function gets its own data, once', And(a[0].off == 0, a[0].obj.pos == o.pos, rel.get(s, o.pos) == 0) if isinstance(a[0], Ptr) and getattr(a[0].obj, 'name', '') == 'priv' else z3.BoolVal(False))
            rel.set(s, o.pos)
            return None
        E.contracts[name] = called

        def priv(E, s, ob):
            q = E.newobj(s, 'priv', 8, 'input')
            q.pos = ob.pos
            return [(hasp(ob.pos), Ptr(q, iv(0)), None), (Not(hasp(ob.pos)), NULL, None)]
        return {h['handler'][0]: lambda E, s, ob: fork(E, s, Fn('vf_handler')), h['priv_data_free'][0]: lambda E, s, ob: [(hasf(ob.pos), Fn(name), None), (Not(hasf(ob.pos)), NULL, None)], h['priv_data'][0]: priv}
    ch = Chain(E, 'handler', h[''][1], h['next'][0], lazy)

    def hav(s, o):
        s.wom(o).alive = False
        return True
    E.alive_havoc = hav

    def free(E, s, a):
        o = a[0].obj
        r = models.free_(E, s, a)
        if o is not None and o.name == 'handler':
            E.oblige(s, 'freed once, after its data', And(dead.get(s, o.pos) == 0, Implies(And(hasf(o.pos), hasp(o.pos)), rel.get(s, o.pos) == 1)))
            dead.set(s, o.pos)
        return r
    E.contracts.update(onion_low_free=free, free=free)

    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr):
                cur = lambda c_, m=m: c_.phis[m].obj.pos if c_.phis[m].obj is not None else n
                out += [('gone ' + m, pointwise(ctx.key + m, dead.o, lambda c_, q, cur=cur: And(Implies(And(q >= 0, q < cur(c_)), c_.read(dead.o, q) == 1), Implies(q >= cur(c_), c_.read(dead.o, q) == 0)))),
                        ('released ' + m, pointwise(ctx.key + m, rel.o, lambda c_, q, cur=cur: And(Implies(And(q >= 0, q < cur(c_)), (c_.read(rel.o, q) == 1) == And(hasf(q), hasp(q))), Implies(q >= cur(c_), c_.read(rel.o, q) == 0)))),
                        ('within ' + m, lambda c_, m=m: c_.phis[m].obj is None or c_.phis[m].obj.pos + c_.phis[m].obj.rest + 1 == n)]
                for k, w in ctx.phis.items():
                    if not isinstance(w, Ptr) and z3.is_expr(w):
                        out.append(('counted %s %s' % (m, k), lambda c_, cur=cur, k=k: toint(c_.phis[k]) == cur(c_)))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        E.oblige(s, 'every handler was freed once, and its data if there was a way', Implies(j < n, And(dead.get(s, j) == 1, (rel.get(s, j) == 1) == And(hasf(j), hasp(j)))))
        E.oblige(s, 'their number', toint(ret) == n)
    for empty in (False, True):
        s = st.copy()
        s.add(n == 0 if empty else n > 0)
        E.run(s, 'onion_handler_free', [NULL if empty else ch.ptr(s, iv(0), S(n - 1))], post)


@proof('P21', 'onion_handler_add', ['handler.c'])
def handler_add(E):
    """the new handler goes after the last one; nothing else changes"""
    st = init(E)
    h = hoffs()
    n = z3.Int('count')
    st.add(n > 0)
    ch = Chain(E, 'handler', h[''][1], h['next'][0], lambda s, o: {})
    new = E.newobj(st, 'new', h[''][1], 'heap')

    def post(s, ret):
        w = [(o, off, v) for o in s.objs.values() if o.name == 'handler' for off, (sz, v) in s.om(o).cells.items() if isinstance(v, Ptr) and v.obj is new]
        E.oblige(s, 'the new handler is attached once', len(w) == 1)
        for o, off, v in w:
            E.oblige(s, 'after the last one', And(o.rest == 0, v.off == 0, z3.BoolVal(off == h['next'][0])))
    E.run(st, 'onion_handler_add', [ch.ptr(st, iv(0), S(n - 1)), Ptr(new, iv(0))], post)


class Routed:
    """request and response as a routing handler sees them: path at p0 of a text of length fn"""

    def __init__(self, E, st):
        self.E = E
        rq = front.offsets('struct onion_request_t', ['path', 'fullpath', 'GET', 'connection.listen_point', 'free_list'])
        self.rq = rq
        self.fn, self.p0 = z3.Ints('fullpathlen pathpos')
        st.add(self.fn >= 0, self.fn < (1 << 30), self.p0 >= 0, self.p0 <= self.fn)
        self.full = E.cstring(st, 'fullpath', self.fn)
        self.req = E.newobj(st, 'req', rq[''][1], 'input')
        self.res = E.newobj(st, 'res', 64, 'input')
        self.get = E.newobj(st, 'GET', 8, 'input')
        E.poke(st, self.req, iv(rq['path'][0]), 8, Ptr(self.full, self.p0))
        E.poke(st, self.req, iv(rq['fullpath'][0]), 8, Ptr(self.full, iv(0)))
        E.poke(st, self.req, iv(rq['GET'][0]), 8, Ptr(self.get, iv(0)))
        self.plen = S(self.fn - self.p0)

    def path(self, s):
        return self.E.load(s, Ptr(self.req, iv(self.rq['path'][0])), ir.PTR, None)

    def at(self, s, off):
        p = self.path(s)
        return And(p.off == off) if isinstance(p, Ptr) and p.obj is self.full else z3.BoolVal(False)

    def is_path(self, p):
        return isinstance(p, Ptr) and p.obj is self.full

    def inside(self, E, s, a, ok, skip):
        """contract of onion_handler_handle for the inner handlers"""
        E.oblige(s, 'the inner handlers of the route that matches get the request', And(ok, a[0].off == 0, a[1].off == 0, a[2].off == 0) if isinstance(a[0], Ptr) and a[0].obj is not None and a[1].obj is self.req and a[2].obj is self.res else z3.BoolVal(False))
        E.oblige(s, 'they see the rest of the path', self.at(s, S(self.p0 + skip)))
        E.oblige(s, 'only one route is tried', z3.BoolVal('ret' not in s.ghost))
        r = E.i32(s, 'inner')
        s.ghost['ret'] = r
        return r

    def done(self, s, ret):
        E = self.E
        r = s.ghost['ret']
        E.oblige(s, 'the answer of the inner handlers is returned', toint(ret) == r)
        E.oblige(s, 'if they decline the path is as it was', Implies(r == 0, self.at(s, self.p0)))


def regmatch(E, s, R, a, groups):
    """regexec found something: rm_so, rm_eo of the whole match and the groups; returns (start, end) of the whole match"""
    n = cval(S(toint(a[2])))
    if not E.access(s, a[3], 8 * n, True, None):
        return None
    if not (cval(S(a[3].off)) == 0 and cval(S(a[3].obj.size)) == 8 * n):
        raise Unsupported('part of an array of matches')
    b = BMBase('match')
    W = z3.Function('rm!%d' % uid(), z3.IntSort(), z3.IntSort())
    b.word, b.wsize = W, 4
    s.wom(a[3].obj).bm = b
    s.wom(a[3].obj).cells.clear()
    po = iv(0)

    def at(s, k, w):
        return W(S(8 * k + 4 * w))
    so, eo = E.fint('so', s), E.fint('eo', s)
    E.poke(s, a[3].obj, po, 4, so)
    E.poke(s, a[3].obj, S(po + 4), 4, eo)
    s.add(so >= 0, so <= eo, eo <= R.plen)
    s.ghost['match'] = at
    return so, eo


@proof('P21', 'onion_url_handler', ['url.c', 'request.c'])
def url_handler(E):
    """the first url whose text equals the remaining path, or whose expression matches it, gets the request with the rest of the path and the matched groups as parameters"""
    c = front.consts(['OUD_REGEXP', 'OUD_STRCMP', 'OD_DUP_KEY', 'OD_DUP_VALUE', 'OD_FREE_VALUE'], 'url.c')
    st = init(E)
    f = front.offsets('struct onion_url_data_t', ['regexp', 'str', 'flags', 'inside', 'next'], 'url.c')
    R = Routed(E, st)
    j, n, x, jg = z3.Ints('j count x group')
    st.add(j >= 0, n >= 0, x >= 0, jg >= 1, jg < 16)
    isre, rx, eqs = [z3.Function(k, z3.IntSort(), z3.BoolSort()) for k in ('isregexp', 'regexpmatches', 'textequal')]
    slen = z3.Function('textlen', z3.IntSort(), z3.IntSort())
    hit = lambda k: If(isre(k), rx(k), eqs(k))
    added = Marks(E, st, 'added')
    E.skolem_list = [(None, x), ('added', jg)]

    def lazy(s, o):
        E.poke(s, o, iv(f['flags'][0]), 4, If(isre(o.pos), iv(c['OUD_REGEXP']), iv(c['OUD_STRCMP'])))

        def text(E, s, ob):
            s.add(slen(ob.pos) >= 0, slen(ob.pos) < (1 << 30))
            t = E.cstring(s, 'urltext', slen(ob.pos))
            t.pos = ob.pos
            return Ptr(t, iv(0))

        def inner(E, s, ob):
            q = E.newobj(s, 'inside', 8, 'input')
            q.pos = ob.pos
            return Ptr(q, iv(0))
        return {f['str'][0]: text, f['inside'][0]: inner}
    ch = Chain(E, 'url', f[''][1], f['next'][0], lazy)

    def strcmp(E, s, a):
        k = [p.obj for p in a if isinstance(p, Ptr) and p.obj is not None and p.obj.name == 'urltext']
        if len(k) == 1 and any(R.is_path(p) for p in a):
            k = k[0].pos
            E.oblige(s, 'the whole remaining path is compared with the whole text of a text url', And(Not(isre(k)), *[p.off == (R.p0 if R.is_path(p) else 0) for p in a]))
            s2 = s.copy()
            s.add(eqs(k), slen(k) == R.plen)
            s2.add(Not(eqs(k)))
            r = E.i32(s2, 'cmp')
            s2.add(r != 0)
            s.ghost['hit'], s.ghost['skip'] = k, R.plen
            return [(t, v) for t, v in ((s, iv(0)), (s2, r)) if E.feasible(t)]
        return models.strcmp_(E, s, a)

    def regexec(E, s, a):
        o = a[0].obj
        if o is None or o.name != 'url':
            raise Unsupported('regexec of something else')
        E.oblige(s, 'the expression of an expression url is looked for in the remaining path', And(isre(o.pos), a[0].off == f['regexp'][0], a[1].off == R.p0) if R.is_path(a[1]) else z3.BoolVal(False))
        E.oblige(s, 'all groups are asked for', toint(a[2]) == 16)
        s2 = s.copy()
        s2.add(Not(rx(o.pos)))
        s.add(rx(o.pos))
        so, eo = regmatch(E, s, R, a, True)
        s.ghost['hit'], s.ghost['skip'] = o.pos, eo
        r = E.i32(s2, 'nomatch')
        s2.add(r != 0)
        return [(t, v) for t, v in ((s, iv(0)), (s2, r)) if E.feasible(t)]

    def rng(s, k):
        """what regexec guarantees about group k"""
        so, eo = s.ghost['match'](s, k, 0), s.ghost['match'](s, k, 1)
        return Implies(And(k >= 1, k < 16), Or(And(so == -1, eo == -1), And(so >= 0, so <= eo, eo <= R.plen)))

    def dict_add(E, s, a):
        L = models.cstrlen(E, s, a[1])
        V = models.cstrlen(E, s, a[2])
        if L is None or V is None:
            return None
        k0, k1 = [z3.BV2Int(E.read_byte(s, a[1].obj, S(a[1].off + i))) - 48 for i in (0, 1)]
        g = E.fint('g', s)
        s.add(g == If(L == 1, k0, 10 * k0 + k1))
        E.oblige(s, 'a group is added to the parameters under its number, once', And(L >= 1, L <= 2, k0 >= 1, k0 <= 9, g >= 1, g < 16, added.get(s, g) == 0, a[0].off == 0) if a[0].obj is R.get and 'match' in s.ghost else z3.BoolVal(False))
        if 'match' in s.ghost:
            s.add(rng(s, g))
            so, eo = s.ghost['match'](s, g, 0), s.ghost['match'](s, g, 1)
            E.read_byte(s, R.full, S(R.p0 + so + V))
            E.oblige(s, 'its value is the matched part of the path', And(so >= 0, V == eo - so, Implies(x < V, E.read_byte(s, a[2].obj, S(a[2].off + x)) == E.read_byte(s, R.full, S(R.p0 + so + x)))))
        fl = tobv(a[3], 32)
        E.oblige(s, 'the dict owns what it keeps', And(Or(fl & c['OD_DUP_KEY'] != 0, z3.BoolVal(a[1].obj.kind == 'heap')), Or(fl & c['OD_DUP_VALUE'] == c['OD_DUP_VALUE'], And(fl & c['OD_FREE_VALUE'] != 0, z3.BoolVal(a[2].obj.kind == 'heap')))))
        added.set(s, g)
        return None

    def handle(E, s, a):
        k = s.ghost.get('hit')
        if k is None:
            E.oblige(s, 'only a url that matches', False)
            return iv(0)
        E.oblige(s, 'no earlier url matches', Implies(And(j < k), Not(hit(j))))
        if 'match' in s.ghost:
            E.oblige(s, 'all matched groups are parameters', (added.get(s, jg) == 1) == (s.ghost['match'](s, jg, 0) != -1))
        return R.inside(E, s, a, a[0].obj.pos == k if a[0].obj is not None and a[0].obj.name == 'inside' else z3.BoolVal(False), s.ghost['skip'])
    E.contracts.update(strcmp=strcmp, regexec=regexec, onion_dict_add=dict_add, onion_handler_handle=handle)

    def facts(ctx):
        if 'match' in ctx.st.ghost:
            for v in ctx.phis.values():
                if z3.is_expr(v) and isint(v):
                    yield rng(ctx.st, v)
                    yield rng(ctx.st, jg)
    E.fact_hooks = [facts]

    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr):
                cur = lambda c_, m=m: c_.phis[m].obj.pos if c_.phis[m].obj is not None else n
                out += [('earlier ones do not match ' + m, lambda c_, cur=cur: Implies(j < cur(c_), Not(hit(j)))),
                        ('within ' + m, lambda c_, m=m: c_.phis[m].obj is None or c_.phis[m].obj.pos + c_.phis[m].obj.rest + 1 == n)]
            elif z3.is_expr(v) and isint(v) and 'match' in ctx.st.ghost:
                out.append(('groups ' + m, pointwise(ctx.key + m, added.o, lambda c_, q, m=m: And(Implies(And(q >= 1, q < toint(c_.phis[m]), q < 16), (c_.read(added.o, q) == 1) == (c_.st.ghost['match'](c_.st, q, 0) != -1)), Implies(q >= toint(c_.phis[m]), c_.read(added.o, q) == 0)))))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        if 'ret' in s.ghost:
            R.done(s, ret)
            return
        E.oblige(s, 'declined only if no url matches', And(toint(ret) == 0, Implies(j < n, Not(hit(j)))))
        E.oblige(s, 'declined with the path as it was', R.at(s, R.p0))
    for empty in (False, True):
        s = st.copy()
        s.add(n == 0 if empty else n > 0)
        dd = E.newobj(s, 'dd', 8, 'input')
        E.poke(s, dd, iv(0), 8, NULL if empty else ch.ptr(s, iv(0), S(n - 1)))
        E.run(s, 'onion_url_handler', [Ptr(dd, iv(0)), Ptr(R.req, iv(0)), Ptr(R.res, iv(0))], post)


@proof('P21', 'onion_handler_path_handler', ['handlers/path.c', 'request.c'])
def path_handler(E):
    """if the expression matches the remaining path the inner handlers get the request with the rest of the path; if they decline the path is as it was"""
    st = init(E)
    f = front.offsets('struct onion_handler_path_data_t', ['path', 'inside'], 'handlers/path.c')
    R = Routed(E, st)
    d = E.newobj(st, 'data', f[''][1], 'input')
    ins = E.newobj(st, 'inside', 8, 'input')
    E.poke(st, d, iv(f['inside'][0]), 8, Ptr(ins, iv(0)))

    def regexec(E, s, a):
        E.oblige(s, 'the expression is looked for in the remaining path', And(a[0].off == f['path'][0], a[1].off == R.p0, toint(a[2]) >= 1) if a[0].obj is d and R.is_path(a[1]) else z3.BoolVal(False))
        s2 = s.copy()
        so, eo = regmatch(E, s, R, a, False)
        s.ghost['skip'] = eo
        r = E.i32(s2, 'nomatch')
        s2.add(r != 0)
        return [(s, iv(0)), (s2, r)]
    E.contracts.update(regexec=regexec, onion_handler_handle=lambda E, s, a: R.inside(E, s, a, z3.BoolVal(a[0].obj is ins and 'skip' in s.ghost), s.ghost.get('skip', iv(0))))

    def post(s, ret):
        if 'ret' in s.ghost:
            R.done(s, ret)
            return
        E.oblige(s, 'declined only if it does not match', And(toint(ret) == 0, z3.BoolVal('skip' not in s.ghost), R.at(s, R.p0)))
    E.run(st, 'onion_handler_path_handler', [Ptr(d, iv(0)), Ptr(R.req, iv(0)), Ptr(R.res, iv(0))], post)


@proof('P21', 'onion_url_free_data', ['url.c'])
def url_free_data(E):
    """every url is freed once, with its inner handlers and its text or expression"""
    c = front.consts(['OUD_REGEXP', 'OUD_STRCMP'], 'url.c')
    st = init(E)
    f = front.offsets('struct onion_url_data_t', ['regexp', 'str', 'flags', 'inside', 'next'], 'url.c')
    j, n = z3.Ints('j count')
    st.add(j >= 0, n >= 0)
    isre = z3.Function('isregexp', z3.IntSort(), z3.BoolSort())
    dead, txt, inn = Marks(E, st, 'freed'), Marks(E, st, 'textfreed'), Marks(E, st, 'insidefreed')
    E.skolem_list = [(k.o.name, j) for k in (dead, txt, inn)]

    def lazy(s, o):
        o.kind = 'heap'
        E.poke(s, o, iv(f['flags'][0]), 4, If(isre(o.pos), iv(c['OUD_REGEXP']), iv(c['OUD_STRCMP'])))

        def sub(name):
            def mk(E, s, ob):
                q = E.newobj(s, name, 8, 'heap')
                q.pos = ob.pos
                return Ptr(q, iv(0))
            return mk
        return {f['str'][0]: sub('urltext'), f['inside'][0]: sub('inside')}
    ch = Chain(E, 'url', f[''][1], f['next'][0], lazy)

    def hav(s, o):
        s.wom(o).alive = False
        return True
    E.alive_havoc = hav

    def free(E, s, a):
        o = a[0].obj
        r = models.free_(E, s, a)
        if o is not None and o.name == 'url':
            E.oblige(s, 'freed once, after what is in it', And(dead.get(s, o.pos) == 0, txt.get(s, o.pos) == 1, inn.get(s, o.pos) == 1))
            dead.set(s, o.pos)
        elif o is not None and o.name == 'urltext':
            E.oblige(s, 'the text of a text url is freed once', And(Not(isre(o.pos)), txt.get(s, o.pos) == 0))
            txt.set(s, o.pos)
        elif o is dd:
            s.ghost['dd'] = True
        return r

    def regfree(E, s, a):
        o = a[0].obj
        E.oblige(s, 'the expression of an expression url is freed once', And(isre(o.pos), a[0].off == f['regexp'][0], txt.get(s, o.pos) == 0, z3.BoolVal(s.om(o).alive)) if o is not None and o.name == 'url' else z3.BoolVal(False))
        txt.set(s, o.pos)
        return None

    def hfree(E, s, a):
        o = a[0].obj
        E.oblige(s, 'the inner handlers are freed once', And(a[0].off == 0, inn.get(s, o.pos) == 0) if o is not None and o.name == 'inside' else z3.BoolVal(False))
        inn.set(s, o.pos)
        return E.i32(s, 'n')
    E.contracts.update(onion_low_free=free, free=free, regfree=regfree, onion_handler_free=hfree)

    def cands(ctx):
        out = []
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr):
                cur = lambda c_, m=m: c_.phis[m].obj.pos if c_.phis[m].obj is not None else n
                for k in (dead, txt, inn):
                    out.append((k.o.name + m, pointwise(ctx.key + m, k.o, lambda c_, q, cur=cur, k=k: And(Implies(And(q >= 0, q < cur(c_)), c_.read(k.o, q) == 1), Implies(q >= cur(c_), c_.read(k.o, q) == 0)))))
                out.append(('within ' + m, lambda c_, m=m: c_.phis[m].obj is None or c_.phis[m].obj.pos + c_.phis[m].obj.rest + 1 == n))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        E.oblige(s, 'everything was freed', And(Implies(j < n, And(*[k.get(s, j) == 1 for k in (dead, txt, inn)])), z3.BoolVal('dd' in s.ghost)))
    for empty in (False, True):
        s = st.copy()
        s.add(n == 0 if empty else n > 0)
        dd = E.newobj(s, 'dd', 8, 'heap')
        E.poke(s, dd, iv(0), 8, NULL if empty else ch.ptr(s, iv(0), S(n - 1)))
        E.run(s, 'onion_url_free_data', [Ptr(dd, iv(0))], post)


@proof('P21', 'onion_url_add_handler', ['url.c', 'handler.c'])
def url_add_handler(E):
    """the url goes after all others with a copy of its text or its compiled expression and its handlers; a bad expression is reported and changes nothing"""
    c = front.consts(['OUD_REGEXP', 'OUD_STRCMP'], 'url.c')
    st = init(E)
    h = hoffs()
    f = front.offsets('struct onion_url_data_t', ['regexp', 'str', 'flags', 'inside', 'next'], 'url.c')
    n, L, x = z3.Ints('count textlen x')
    st.add(n >= 0, L >= 0, L < (1 << 28), x >= 0)
    E.skolem_list = [(None, x)]
    text = E.cstring(st, 'text', L)
    T0 = E.read_byte(st, text, iv(0))
    TX = E.read_byte(st, text, x)
    ch = Chain(E, 'url', f[''][1], f['next'][0], lambda s, o: {})
    inn = E.newobj(st, 'inside', h[''][1], 'heap')
    E.measure_terms.append(('to the end', lambda c_: sum([n + 1 if v.obj.name == 'dd' else v.obj.rest + 1 for v in c_.phis.values() if isinstance(v, Ptr) and v.obj is not None and v.obj.name in ('dd', 'url')], iv(0))))
    E.cand_hooks = [lambda ctx: [('within ' + m, lambda c_, m=m: c_.phis[m].obj is None or c_.phis[m].obj.name != 'url' or c_.phis[m].obj.pos + c_.phis[m].obj.rest + 1 == n) for m, v in ctx.phis.items() if isinstance(v, Ptr)]]
    chain = E.ptr_havoc
    E.ptr_havoc = lambda st, ex, ent, key, nm: ex if isinstance(ex, Ptr) and ex.obj is not None and ex.obj.name == 'dd' and ex.obj.id in st.mem else chain(st, ex, ent, key, nm)

    def regcomp(E, s, a):
        E.oblige(s, 'the text is compiled in the new url', And(a[0].off == f['regexp'][0], a[1].off == 0, T0 == 94) if a[1].obj is text and a[0].obj.name not in ('url', 'dd') else z3.BoolVal(False))
        s2 = s.copy()
        s.ghost['compiled'] = a[0].obj
        r = E.i32(s2, 'regerr')
        s2.add(r != 0)
        s2.ghost['bad'] = True
        return [(s, iv(0)), (s2, r)]
    E.contracts.update(regcomp=regcomp, regerror=lambda E, s, a: E.fint('n', s, 0, 1023))

    def run(empty):
        s = st.copy()
        s.add(n == 0 if empty else n > 0)
        dd = E.newobj(s, 'dd', 8, 'input')
        E.poke(s, dd, iv(0), 8, NULL if empty else ch.ptr(s, iv(0), S(n - 1)))
        url = E.newobj(s, 'handler', h[''][1], 'input')
        E.poke(s, url, iv(h['priv_data'][0]), 8, Ptr(dd, iv(0)))

        def post(s, ret):
            E.oblige(s, 'a bad expression is reported', (toint(ret) != 0) == z3.BoolVal(bool(s.ghost.get('bad'))))
            w = [(o, off, v) for o in s.objs.values() if o.name in ('url', 'dd') for off, (sz, v) in s.om(o).cells.items() if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'heap' and v.obj is not inn]
            if s.ghost.get('bad'):
                E.oblige(s, 'a bad expression adds nothing', not w)
                E.oblige(s, 'nor leaks', not any(o.kind == 'heap' and s.om(o).alive and o is not inn for o in s.objs.values()))
                return
            E.oblige(s, 'one url is added', len(w) == 1)
            if len(w) != 1:
                return
            o, off, v = w[0]
            E.oblige(s, 'after the last one', And(v.off == 0, n == 0) if o is dd else And(v.off == 0, o.rest == 0, z3.BoolVal(off == f['next'][0])))
            fl = tobv(E.load(s, Ptr(v.obj, iv(f['flags'][0])), ir.I[32], None), 32)
            re = T0 == 94
            E.oblige(s, 'an expression if it starts with ^, else a text', And((fl & c['OUD_REGEXP'] != 0) == re, (fl & c['OUD_STRCMP'] != 0) == Not(re)))
            q = E.load(s, Ptr(v.obj, iv(f['inside'][0])), ir.PTR, None)
            E.oblige(s, 'with its handlers', And(q.off == 0) if q.obj is inn else False)
            E.oblige(s, 'it is the last one', isnull(E.load(s, Ptr(v.obj, iv(f['next'][0])), ir.PTR, None)))
            if 'compiled' in s.ghost:
                E.oblige(s, 'with its expression', s.ghost['compiled'] is v.obj)
            else:
                t = E.load(s, Ptr(v.obj, iv(f['str'][0])), ir.PTR, None)
                tl = models.cstrlen(E, s, t)
                E.oblige(s, 'with a copy of its text', And(Not(re), t.off == 0, tl == L, Implies(x < L, E.read_byte(s, t.obj, x) == TX)) if t.obj is not None and t.obj.kind == 'heap' else False)
        E.run(s, 'onion_url_add_handler', [Ptr(url, iv(0)), Ptr(text, iv(0)), Ptr(inn, iv(0))], post)
    run(False)
    run(True)


@proof('P21', 'onion_handler_path_delete', ['handlers/path.c'])
def path_delete(E):
    """the expression, the inner handlers and the data are freed once"""
    st = init(E)
    f = front.offsets('struct onion_handler_path_data_t', ['path', 'inside'], 'handlers/path.c')
    d = E.newobj(st, 'data', f[''][1], 'heap')
    ins = E.newobj(st, 'inside', 8, 'heap')
    E.poke(st, d, iv(f['inside'][0]), 8, Ptr(ins, iv(0)))

    def once(what, obj, off):
        def fn(E, s, a):
            E.oblige(s, what + ' freed once', And(a[0].off == off, z3.BoolVal(what not in s.ghost and s.om(d).alive)) if a[0].obj is obj else z3.BoolVal(False))
            s.ghost[what] = True
            return iv(0)
        return fn
    E.contracts.update(regfree=once('expression', d, f['path'][0]), onion_handler_free=once('handlers', ins, 0))

    def post(s, ret):
        E.oblige(s, 'all of it', 'expression' in s.ghost and 'handlers' in s.ghost and not s.om(d).alive)
    E.run(st, 'onion_handler_path_delete', [Ptr(d, iv(0))], post)


def answer_static(E, fn, files, struct, text, hdr):
    """the configured text with the configured code and its exact length is the answer"""
    c = front.consts(['OCS_PROCESSED'])
    st = init(E)
    f = front.offsets(struct, [text, 'code'], hdr)
    L, x = z3.Ints('textlen x')
    st.add(L >= 0, L < (1 << 30), x >= 0)
    E.skolem_list = [(None, x)]
    t = E.cstring(st, 'text', L)
    d = E.newobj(st, 'data', f[''][1], 'input')
    E.poke(st, d, iv(f[text][0]), 8, Ptr(t, iv(0)))
    code = toint(E.load(st, Ptr(d, iv(f['code'][0])), ir.I[32], None))
    req, res = E.newobj(st, 'req', 8, 'input'), E.newobj(st, 'res', 8, 'input')

    def keep(k):
        def g(E, s, a):
            E.oblige(s, 'before the content', And(a[0].off == 0, z3.BoolVal('sent' not in s.ghost)) if a[0].obj is res else z3.BoolVal(False))
            s.ghost[k] = toint(a[1]) if len(a) > 1 else True
            return iv(0)
        return g

    def write(E, s, a):
        if not E.access(s, a[1], toint(a[2]), False, None):
            return iv(0)
        E.oblige(s, 'the text is sent whole, once', And(a[1].off == 0, toint(a[2]) == L, z3.BoolVal('sent' not in s.ghost)) if a[1].obj is t and a[0].obj is res else z3.BoolVal(False))
        s.ghost['sent'] = True
        return toint(a[2])
    E.contracts.update(onion_response_set_length=keep('length'), onion_response_set_code=keep('code'), onion_response_write_headers=keep('head'), onion_response_write=write,
                       onion_response_write0=lambda E, s, a: write(E, s, [a[0], a[1], models.cstrlen(E, s, a[1])]))

    def post(s, ret):
        g = s.ghost
        E.oblige(s, 'processed, with the configured code and the exact length', And(toint(ret) == c['OCS_PROCESSED'], g['length'] == L, g['code'] == code, z3.BoolVal('sent' in g)) if 'length' in g and 'code' in g else False)
    E.run(st, fn, [Ptr(d, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)


@proof('P21', 'onion_url_static', ['url.c'])
def url_static(E):
    """the configured text with the configured code and its exact length is the answer"""
    answer_static(E, 'onion_url_static', None, 'struct onion_url_static_data', 'text', 'url.c')


@proof('P21', 'onion_handler_static_handler', ['handlers/static.c'])
def static_handler(E):
    """the configured text with the configured code and its exact length is the answer"""
    answer_static(E, 'onion_handler_static_handler', None, 'struct onion_handler_static_data_t', 'data', 'handlers/static.c')


@proof('P21', 'onion_shortcut_internal_redirect', ['shortcuts.c'])
def internal_redirect(E):
    """the new address is processed from the root with a path of its own; the old one stays alive for the query that points into it"""
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['path', 'fullpath', 'connection.listen_point', 'free_list'])
    lpf = front.offsets('struct onion_listen_point_t', ['server'])
    of = front.offsets('struct onion_t', ['root_handler'])
    L, M, x, k = z3.Ints('newlen oldlen x start')
    st.add(L >= 0, L < (1 << 28), M >= 0, M < (1 << 28), x >= 0, k >= 0, k <= M)
    E.skolem_list = [(None, x)]
    old = E.cstring(st, 'fullpath', M, kind='heap')
    new = E.cstring(st, 'newurl', L)
    root = E.newobj(st, 'root', 8, 'input')
    on = E.newobj(st, 'onion', of[''][1], 'input')
    E.poke(st, on, iv(of['root_handler'][0]), 8, Ptr(root, iv(0)))
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    E.poke(st, lp, iv(lpf['server'][0]), 8, Ptr(on, iv(0)))
    req = E.newobj(st, 'req', rq[''][1], 'input')
    res = E.newobj(st, 'res', 8, 'input')
    fl = E.newobj(st, 'freelist', 16, 'heap')
    E.poke(st, req, iv(rq['connection.listen_point'][0]), 8, Ptr(lp, iv(0)))
    E.poke(st, req, iv(rq['fullpath'][0]), 8, Ptr(old, iv(0)))

    def list_add(E, s, a):
        E.oblige(s, 'the old path is remembered', And(a[1].off == 0, a[0].off == 0) if a[1].obj is old and a[0].obj in (None, fl) else z3.BoolVal(False))
        s.ghost['kept'] = True
        return Ptr(fl2(s), iv(0))

    def fl2(s):
        o = E.newobj(s, 'freelist2', 16, 'heap')
        s.ghost['list'] = o
        return o

    def handle(E, s, a):
        E.oblige(s, 'the root handler gets the request', And(a[0].off == 0, a[1].off == 0, a[2].off == 0) if (a[0].obj, a[1].obj, a[2].obj) == (root, req, res) else z3.BoolVal(False))
        p, q = [E.load(s, Ptr(req, iv(rq[w][0])), ir.PTR, None) for w in ('path', 'fullpath')]
        n = models.cstrlen(E, s, p)
        src, so, sl = s.ghost['src']
        E.oblige(s, 'the path is a copy of the new address', And(p.off == 0, q.off == 0, n == sl, Implies(x < n, E.read_byte(s, p.obj, x) == E.read_byte(s, src, S(so + x)))) if p.obj is q.obj and p.obj is not None and p.obj.kind == 'heap' and p.obj is not old else z3.BoolVal(False))
        v = E.load(s, Ptr(req, iv(rq['free_list'][0])), ir.PTR, None)
        E.oblige(s, 'the old path lives as long as the request', 'kept' in s.ghost and s.om(old).alive and v.obj is s.ghost.get('list'))
        s.ghost['ret'] = r = E.i32(s, 'ret')
        return r
    E.contracts.update(onion_ptr_list_add=list_add, onion_handler_handle=handle)

    def post(s, ret):
        E.oblige(s, 'its answer is returned', toint(ret) == s.ghost['ret'] if 'ret' in s.ghost else False)
    for had in (False, True):
        for own in (False, True):
            s = st.copy()
            E.poke(s, req, iv(rq['free_list'][0]), 8, Ptr(fl, iv(0)) if had else NULL)
            E.poke(s, req, iv(rq['path'][0]), 8, Ptr(old, k))
            s.ghost['src'] = (old, k, S(M - k)) if own else (new, iv(0), L)
            E.run(s, 'onion_shortcut_internal_redirect', [Ptr(old, k) if own else Ptr(new, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)
