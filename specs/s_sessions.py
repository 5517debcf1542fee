"""Contracts of sessions.c, sessions_mem.c, sessions_sqlite3.c and of the session part of request.c"""
import itertools
import os
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def isp(p, o, off=0):
    return p.off == off if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


def at(p, o):
    return isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id


def once(s, k):
    r = k not in s.ghost
    s.ghost[k] = True
    return r


@proof('P23', 'onion_sessions_generate_id', ['sessions.c'])
def generate_id(E):
    """a new id is 32 letters or digits drawn from 32 random bytes, and a string"""
    st = init(E)
    x = z3.Int('x')
    st.add(x >= 0, x < 32)
    E.skolem_list = [(None, x)]
    rnd = z3.Function('random', z3.IntSort(), z3.BitVecSort(8))

    def rand(E, s, a):
        E.oblige(s, '32 random bytes that fit', And(a[0].off == 0, toint(a[1]) == 32, a[0].obj.size >= 32))
        E.store_range(s, a[0].obj, iv(0), iv(32), lambda k: rnd(k))
        s.ghost['r'] = a[0].obj
        return None
    E.contracts['onion_random_generate'] = rand

    al = sorted(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')

    def cands(ctx):
        o = ctx.st.ghost.get('r')
        out = []
        for m, v in ctx.phis.items():
            if o is None:
                continue
            cur = (lambda c_, m=m: S(c_.phis[m].off)) if isinstance(v, Ptr) else (lambda c_, m=m: toint(c_.phis[m]))
            out += [('done %s %s' % (m, w), lambda c_, cur=cur, o=o, f=f: Implies(f(cur(c_)), Or(*[c_.read(o, x) == q for q in al]))) for w, f in (('up', lambda i: x < i), ('down', lambda i: x > i), ('down to', lambda i: x >= i))]
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        ok = isinstance(ret, Ptr) and ret.obj is not None and ret.obj.kind == 'heap'
        E.oblige(s, 'an id of its own', And(ret.off == 0, ret.obj.size == 33) if ok else z3.BoolVal(False))
        b = E.read_byte(s, ret.obj, x)
        E.oblige(s, 'of letters and digits', Or(*[b == c for c in al]))
        E.oblige(s, 'that ends', And(E.read_byte(s, ret.obj, iv(32)) == 0, z3.BoolVal('r' in s.ghost)))
    E.run(st, 'onion_sessions_generate_id', [], post)


class Num:
    def __init__(self, E, st, name, v):
        self.E = E
        self.o = E.newobj(st, name, 8, 'ghost')
        E.poke(st, self.o, iv(0), 8, iv(v))

    def get(self, s):
        return toint(self.E.load(s, Ptr(self.o, iv(0)), ir.I[64], None))

    def set(self, s, v):
        self.E.poke(s, self.o, iv(0), 8, v)


LIT = b'sessionid='


@proof('P23', 'onion_request_guess_session_id', ['request.c'])
def guess_session_id(E):
    """the session is that of the first cookie named sessionid whose session exists; no other text is ever taken for an id"""
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['headers', 'session_id', 'session', 'connection.listen_point'])
    lpf = front.offsets('struct onion_listen_point_t', ['server'])
    of = front.offsets('struct onion_t', ['sessions'])
    L, k, x = z3.Ints('cookielen k x')
    st.add(L >= 0, L < (1 << 28), k >= 0, k + 10 <= L, x >= 0)
    E.skolem_list = [('cookie', k), ('cookie', S(k - 1)), ('cookie', S(k - 2)), (None, x)]
    ck = E.cstring(st, 'cookie', L)
    ck = ck if isinstance(ck, Obj) else ck.obj
    hd, ss, sd, old = [E.newobj(st, n, 8, 'input') for n in ('headers', 'sessions', 'sessiondata', 'oldid')]
    on = E.newobj(st, 'onion', of[''][1], 'input')
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    req = E.newobj(st, 'req', rq[''][1], 'input')
    for o, f, n, v in ((on, of, 'sessions', ss), (lp, lpf, 'server', on), (req, rq, 'connection.listen_point', lp), (req, rq, 'headers', hd)):
        E.poke(st, o, iv(f[n][0]), 8, Ptr(v, iv(0)))
    asked = Num(E, st, 'askedk', 0)
    held = Num(E, st, 'held', 0)
    got = Num(E, st, 'got', 0)
    b = lambda s, i: E.read_byte(s, ck, i)
    occ = lambda s, i: And(i + 10 <= L, *[b(s, S(i + j)) == c for j, c in enumerate(LIT)])
    blank = lambda c: Or(c == 32, c == 9)
    proper = lambda s, i: And(occ(s, i), Or(i == 0, b(s, S(i - 1)) == 59, And(i >= 2, blank(b(s, S(i - 1))), b(s, S(i - 2)) == 59)))
    bound = lambda s, i: Or(i == 0, b(s, S(i - 1)) == 59, blank(b(s, S(i - 1))))

    def header(E, s, a):
        E.oblige(s, 'asks for the Cookie header', isp(a[0], hd) if (models.constbytes(E, s, a[1]) or b'').lower() == b'cookie' else z3.BoolVal(False))
        s2 = s.copy()
        s.ghost['has'] = True
        return [(s, Ptr(ck, iv(0))), (s2, NULL)]

    def strdup(E, s, a):
        r = models.strdup_(E, s, a)
        held.set(s, S(held.get(s) + 1))
        s.ghost['src'] = a[0]
        return r

    def free(E, s, a):
        held.set(s, S(held.get(s) - 1))
        return models.free_(E, s, a)

    def get(E, s, a):
        r, src = a[1], s.ghost.get('src')
        ok = isinstance(r, Ptr) and r.obj is not None and r.obj.kind == 'heap' and src is not None and src.obj is not None and src.obj.id == ck.id
        E.oblige(s, 'the store is asked for an id of the cookie header', And(isp(a[0], ss), r.off == 0, got.get(s) == 0) if ok else z3.BoolVal(False))
        if ok:
            n = models.cstrlen(E, s, r)
            v = S(src.off)
            E.oblige(s, 'an id is what follows a cookie name sessionid', And(v >= 10, occ(s, S(v - 10)), bound(s, S(v - 10))))
            E.oblige(s, 'an id is the value as sent', Implies(x < n, And(E.read_byte(s, r.obj, x) == b(s, S(v + x)), E.read_byte(s, r.obj, x) != 59)))
            E.oblige(s, 'up to its end', And(v + n <= L, Or(v + n == L, b(s, S(v + n)) == 59)))
            asked.set(s, If(v - 10 == k, iv(1), asked.get(s)))
        s2 = s.copy()
        got.set(s, iv(1))
        s.ghost['id'] = r
        return [(s, Ptr(sd, iv(0))), (s2, NULL)]
    E.contracts.update(onion_dict_get=header, onion_low_strdup=strdup, onion_low_free=free, onion_sessions_get=get)

    def key_(ex, n, s):      # a cursor into the string of this round
        return any(o.kind == 'heap' and s.om(o).alive for o in s.objs.values())

    def hav(s, ex, ent, key, n):
        if isinstance(ex, Ptr) and ex.obj is not None and ex.obj.kind == 'heap' and ex.obj.id not in s.mem:
            if key_(ex, n, s):
                return None
            o = E.newobj(s, 'strdup', E.fint('sz', s, 1), 'heap')
            return Ptr(o, iv(0))
    E.ptr_havoc = hav
    E.alive_havoc = lambda s, o: True      # `held` counts what is allocated

    def cands(ctx):
        out = [('not yet', lambda c: got.get(c.st) == 0), ('held0', lambda c: held.get(c.st) == 0)]
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr):
                out += [('held ' + m, lambda c, m=m: held.get(c.st) == (1 if c.phis[m].obj is not None and c.phis[m].obj.kind == 'heap' else 0)),
                        ('all before were asked ' + m, lambda c, m=m: Implies(And(proper(c.st, k), k < c.phis[m].off), asked.get(c.st) == 1) if at(c.phis[m], ck) else Implies(proper(c.st, k), asked.get(c.st) == 1) if c.phis[m].obj is None and c.st.ghost.get('has') else None),
                        ('cookies only if there are ' + m, lambda c, m=m: z3.BoolVal(not at(c.phis[m], ck) or bool(c.st.ghost.get('has')))),
                        ('inside ' + m, lambda c, m=m: And(c.phis[m].off >= 0, c.phis[m].off <= L) if at(c.phis[m], ck) else None),
                        ('no end before ' + m, lambda c, m=m: Implies(x < c.phis[m].off, And(c.read(c.phis[m].obj, x) != 59, c.read(c.phis[m].obj, x) != 0)) if c.phis[m].obj is not None and c.phis[m].obj.kind == 'heap' else None)]
        return out
    E.cand_hooks = [cands]
    E.measure_terms = [('rest of the cookie', lambda c: sum([L - v.off + 1 for v in c.phis.values() if at(v, ck)], iv(0)))]

    def post(s, ret):
        sid, sn = [E.load(s, Ptr(req, iv(rq[w][0])), ir.PTR, None) for w in ('session_id', 'session')]
        if s.ghost.get('known'):
            E.oblige(s, 'a known session stays', And(isp(sid, old), got.get(s) == 0, held.get(s) == 0))
            return
        f = at(sn, sd)
        E.oblige(s, 'a session is set exactly if one exists', And(got.get(s) == (1 if f else 0), held.get(s) == (1 if f else 0)))
        if f:
            E.oblige(s, 'the session is the one of its id', And(sn.off == 0, isp(sid, s.ghost['id'].obj)))
        else:
            E.oblige(s, 'without one nothing is set', z3.BoolVal(sid.obj is None and sn.obj is None))
            if s.ghost.get('has'):
                E.oblige(s, 'every cookie named sessionid was tried', Implies(proper(s, k), asked.get(s) == 1))
    for known in (True, False):
        s = st.copy()
        E.poke(s, req, iv(rq['session_id'][0]), 8, Ptr(old, iv(0)) if known else NULL)
        E.poke(s, req, iv(rq['session'][0]), 8, NULL)
        if known:
            s.ghost['known'] = True
        E.run(s, 'onion_request_guess_session_id', [Ptr(req, iv(0))], post)


def Sess(E, st):
    """a session store with functions of its own"""
    f = front.offsets('struct onion_sessions_t', ['data', 'get', 'save', 'free'])
    o = E.newobj(st, 'sessions', f[''][1], 'heap')
    d = E.newobj(st, 'storedata', 8, 'heap')
    E.poke(st, o, iv(f['data'][0]), 8, Ptr(d, iv(0)))
    for n in ('get', 'save', 'free'):
        E.poke(st, o, iv(f[n][0]), 8, Fn('vf_' + n))
    return o, d


def false():
    return z3.BoolVal(False)


@proof('P23', 'onion_sessions_create', ['sessions.c'])
def sessions_create(E):
    """a new session has an id of its own and nothing in it; getting, saving and removing a session reach the store with that id and nothing else"""
    st = init(E)
    ss, _ = Sess(E, st)
    idn, dt, new, res = [E.newobj(st, n, 8, 'heap') for n in ('id', 'data', 'newdict', 'result')]

    def gen(E, s, a):
        E.oblige(s, 'one new id', z3.BoolVal(once(s, 'id')))
        return Ptr(idn, iv(0))

    def dnew(E, s, a):
        E.oblige(s, 'one new dict', z3.BoolVal(once(s, 'dict')))
        return Ptr(new, iv(0))

    def dfree(E, s, a):
        E.oblige(s, 'the dict is given up after it was saved', isp(a[0], new) if 'dict' in s.ghost and 'save' in s.ghost and once(s, 'freed') else false())

    def save(E, s, a):
        E.oblige(s, 'the store saves once', And(isp(a[0], ss), isp(a[1], idn)) if once(s, 'save') else false())
        s.ghost['what'] = a[2]

    def get(E, s, a):
        E.oblige(s, 'the store is asked once', And(isp(a[0], ss), isp(a[1], idn)) if once(s, 'get') else false())
        return Ptr(res, iv(0))
    E.contracts.update(onion_sessions_generate_id=gen, onion_dict_new=dnew, onion_dict_free=dfree, vf_save=save, vf_get=get)
    p = lambda o: Ptr(o, iv(0))

    def post_create(s, ret):
        E.oblige(s, 'the new session is saved, empty, under the new id that is returned', And(isp(ret, idn), isp(s.ghost.get('what'), new)) if {'freed', 'save'} <= set(s.ghost) and 'get' not in s.ghost else false())

    def post_get(s, ret):
        E.oblige(s, 'what the store has is what is given', isp(ret, res) if 'get' in s.ghost and 'save' not in s.ghost else false())

    def post_save(s, ret):
        E.oblige(s, 'the data is saved', isp(s.ghost.get('what'), dt) if 'get' not in s.ghost and 'freed' not in s.ghost else false())

    def post_rm(s, ret):
        w = s.ghost.get('what')
        E.oblige(s, 'nothing is kept of a removed session', z3.BoolVal(isinstance(w, Ptr) and w.obj is None and 'save' in s.ghost))
    E.run(st.copy(), 'onion_sessions_create', [p(ss)], post_create)
    E.run(st.copy(), 'onion_sessions_get', [p(ss), p(idn)], post_get)
    E.run(st.copy(), 'onion_sessions_save', [p(ss), p(idn), p(dt)], post_save)
    E.run(st.copy(), 'onion_sessions_remove', [p(ss), p(idn)], post_rm)
    none = lambda s, ret: E.oblige(s, 'without a store nothing happens', z3.BoolVal(not set(s.ghost) & {'save', 'get'} and (not isinstance(ret, Ptr) or ret.obj is None)))
    for f, n in (('create', 0), ('get', 1), ('save', 2), ('remove', 1)):
        E.run(st.copy(), 'onion_sessions_' + f, [NULL, p(idn), p(dt)][:n + 1], none)


@proof('P23', 'onion_sessions_mem_get', ['sessions_mem.c'])
def sessions_mem(E):
    """sessions in memory: an id gives the data saved under exactly that id, shared; an id never saved or removed since gives nothing"""
    c = front.consts(['OD_DUP_KEY', 'OD_FREE_VALUE', 'OD_DICT', 'OD_REPLACE', 'OD_DUP_VALUE', 'OD_TYPE_MASK'], extra='#include <onion/dict.h>')
    st = init(E)
    ss, d = Sess(E, st)
    idn, dt, old = [E.newobj(st, n, 8, 'heap') for n in ('id', 'data', 'olddata')]
    p = lambda o: Ptr(o, iv(0))

    def mine(a):
        return And(isp(a[0], d), isp(a[1], idn))

    def get(E, s, a):
        E.oblige(s, 'looks for the session in the store', mine(a))
        if 'known' in s.ghost:
            return p(old) if s.ghost['known'] else NULL
        s2 = s.copy()
        s.ghost['known'], s2.ghost['known'] = True, False
        return [(s, p(old)), (s2, NULL)]

    def dup(E, s, a):
        E.oblige(s, 'shares the data of the session', Or(isp(a[0], old), isp(a[0], dt)) if once(s, 'dup') else false())
        return a[0]

    def rm(E, s, a):
        E.oblige(s, 'removes this session, once', mine(a) if once(s, 'rm') and 'add' not in s.ghost else false())
        s.ghost['known'] = False
        return E.i32(s, 'removed')

    def add(E, s, a):
        f = tobv(a[3], 32)
        must = c['OD_DUP_KEY'] | c['OD_FREE_VALUE'] | c['OD_DICT']
        rep = f & c['OD_REPLACE'] == c['OD_REPLACE']
        E.oblige(s, 'saves the data under this id as a dict the store owns a share of', And(mine(a), isp(a[2], dt), f & must == must, f & c['OD_DUP_VALUE'] != c['OD_DUP_VALUE'], rep if s.ghost.get('known', True) else z3.BoolVal(True)) if 'dup' in s.ghost and once(s, 'add') else false())
    E.contracts.update(onion_dict_get_dict=get, onion_dict_dup=dup, onion_dict_remove=rm, onion_dict_add=add)

    def post_get(s, ret):
        k = s.ghost.get('known')
        E.oblige(s, 'a known session gives its data, an unknown one nothing', z3.BoolVal(False) if k is None or 'rm' in s.ghost or 'add' in s.ghost else And(isp(ret, old), z3.BoolVal('dup' in s.ghost)) if k else z3.BoolVal(isinstance(ret, Ptr) and ret.obj is None and 'dup' not in s.ghost))

    def post_save(s, ret):
        E.oblige(s, 'the data is in the store', z3.BoolVal('add' in s.ghost))

    def post_rm(s, ret):
        E.oblige(s, 'the session is gone', z3.BoolVal(s.ghost.get('known', True) is False and not {'add', 'dup'} & set(s.ghost)))
    E.run(st.copy(), 'onion_sessions_mem_get', [p(ss), p(idn)], post_get)
    E.run(st.copy(), 'onion_sessions_mem_save', [p(ss), p(idn), p(dt)], post_save)
    E.run(st.copy(), 'onion_sessions_mem_save', [p(ss), p(idn), NULL], post_rm)


@proof('P23', 'onion_sessions_sqlite3_get', ['sessions_sqlite3.c'])
def sessions_sqlite3(E):
    """sessions in sqlite3: each call holds the lock for its whole use of the database and releases it; the statements get this id and this data, starting afresh; what is given is what the row says"""
    st = init(E)
    src = os.path.join(front.REPO, 'src/onion/sessions_sqlite3.c')
    ss, _ = Sess(E, st)
    f = front.offsets('struct onion_sessions_t', ['data', 'get', 'save', 'free'])
    idn, dt, js, bl, res, row = [E.newobj(st, n, 8, 'heap') for n in ('id', 'data', 'json', 'block', 'dict', 'row')]
    stm = {n: E.newobj(st, 'stmt_' + n, 8, 'input') for n in ('save', 'get', 'remove')}
    x = front.offsets('onion_session_sqlite3', ['db', 'save', 'get', 'remove', 'mutex'], extra='#include "%s"' % src)
    po = E.newobj(st, 'priv', x[''][1], 'heap')
    E.poke(st, ss, iv(f['data'][0]), 8, Ptr(po, iv(0)))
    for n, o in stm.items():
        E.poke(st, po, iv(x[n][0]), 8, Ptr(o, iv(0)))
    p = lambda o: Ptr(o, iv(0))
    which = lambda q: next((n for n, o in stm.items() if isp(q, o) is not None and isinstance(q, Ptr) and q.obj is not None and q.obj.id == o.id), None)
    G = lambda s: s.ghost

    def lock(E, s, a):
        E.oblige(s, 'takes the lock of the store once', isp(a[0], po, x['mutex'][0]) if once(s, 'lock') else false())
        s.ghost['locked'] = True
        return iv(0)

    def unlock(E, s, a):
        E.oblige(s, 'releases the lock it holds', isp(a[0], po, x['mutex'][0]) if G(s).get('locked') else false())
        s.ghost['locked'] = False
        return iv(0)

    def use(s, q):
        w = which(q)
        E.oblige(s, 'uses the statements only under the lock', z3.BoolVal(w is not None and bool(G(s).get('locked'))))
        return w

    def reset(E, s, a):
        w = use(s, a[0])
        for k in [k for k in G(s) if k[0] == w]:
            if k[1] in ('stepped', 'fresh'):
                del s.ghost[k]
        s.ghost[(w, 'fresh')] = True
        return E.i32(s, 'reset')

    def bind(E, s, a):
        w = use(s, a[0])
        E.oblige(s, 'binds to a statement that starts afresh, a text that outlives it', And(toint(a[3]) == -1) if (w, 'fresh') in G(s) and (w, 'stepped') not in G(s) else false())
        ok = z3.Bool('bound!%d' % uid())
        r = E.i32(s, 'bind')
        s2 = s.copy()
        s.add(r == 0)
        s2.add(r != 0)
        s.ghost[(w, 'arg', z3.simplify(toint(a[1])).as_long())] = a[2]
        s2.ghost['dberror'] = True
        return [(s, r), (s2, r)]

    def step(E, s, a):
        w = use(s, a[0])
        i = G(s).get((w, 'arg', 1))
        good = (w, 'fresh') in G(s) and (w, 'stepped') not in G(s) and i is not None
        E.oblige(s, 'runs a statement afresh for this session', isp(i, idn) if good else false())
        s.ghost[(w, 'stepped')] = True
        out = []
        for r, n in ((101, 'done'), (100, 'row'), (1, 'dberror')):
            if n == 'row' and w != 'get':
                continue
            t = s.copy()
            t.ghost[n if n == 'dberror' else (w, n)] = True
            if w == 'save':
                j = G(s).get((w, 'arg', 2))
                E.oblige(t, 'saves the data given', isp(j, js) if j is not None and 'js' in G(s) and 'blfreed' not in G(s) else false())
            out.append((t, iv(r)))
        return out

    def column(E, s, a):
        w = use(s, a[0])
        E.oblige(s, 'reads the data of the row that was found', toint(a[1]) == 0 if (w, 'row') in G(s) else false())
        return p(row)

    def from_json(E, s, a):
        E.oblige(s, 'reads what the row says', isp(a[0], row))
        s2 = s.copy()
        s.ghost['dict'] = True
        return [(s, p(res)), (s2, NULL)]

    def to_json(E, s, a):
        E.oblige(s, 'writes the data given', isp(a[0], dt) if once(s, 'js') else false())
        return p(bl)

    def bdata(E, s, a):
        E.oblige(s, 'the text of the data', isp(a[0], bl) if 'blfreed' not in G(s) else false())
        return p(js)

    def bfree(E, s, a):
        E.oblige(s, 'gives up the text once', isp(a[0], bl) if once(s, 'blfreed') else false())
    E.contracts.update(pthread_mutex_lock=lock, pthread_mutex_unlock=unlock, sqlite3_reset=reset, sqlite3_bind_text=bind, sqlite3_step=step, sqlite3_column_text=column,
                       onion_dict_from_json=from_json, onion_dict_to_json=to_json, onion_block_data=bdata, onion_block_free=bfree)

    def common(s):
        E.oblige(s, 'the lock is taken and released', z3.BoolVal(G(s).get('locked') is False))

    def post_get(s, ret):
        common(s)
        null = z3.BoolVal(isinstance(ret, Ptr) and ret.obj is None)
        E.oblige(s, 'a row gives its data, no row gives nothing', isp(ret, res) if G(s).get('dict') else And(null, z3.BoolVal(('get', 'row') in G(s) or ('get', 'done') in G(s) or 'dberror' in G(s))))

    def post_save(s, ret):
        common(s)
        E.oblige(s, 'the data is saved, or the database failed', z3.BoolVal((('save', 'done') in G(s) or 'dberror' in G(s)) and 'blfreed' in G(s)))

    def post_rm(s, ret):
        common(s)
        E.oblige(s, 'the session is removed, or the database failed', z3.BoolVal((('remove', 'done') in G(s) or 'dberror' in G(s)) and ('save', 'stepped') not in G(s)))
    E.run(st.copy(), 'onion_sessions_sqlite3_get', [p(ss), p(idn)], post_get)
    E.run(st.copy(), 'onion_sessions_sqlite3_save', [p(ss), p(idn), p(dt)], post_save)
    E.run(st.copy(), 'onion_sessions_sqlite3_save', [p(ss), p(idn), NULL], post_rm)


RF = ['headers', 'session_id', 'session', 'connection.listen_point', 'flags', 'GET', 'POST', 'FILES', 'data', 'connection.cli_info', 'cookies', 'free_list', 'websocket', 'parser_data', 'fullpath', 'path']


def Req(E, st):
    rq = front.offsets('struct onion_request_t', RF)
    lpf = front.offsets('struct onion_listen_point_t', ['server', 'close'])
    of = front.offsets('struct onion_t', ['sessions'])
    ss = E.newobj(st, 'sessions', 8, 'input')
    on = E.newobj(st, 'onion', of[''][1], 'input')
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    req = E.newobj(st, 'req', rq[''][1], 'heap')
    for o, f, n, v in ((on, of, 'sessions', ss), (lp, lpf, 'server', on), (req, rq, 'connection.listen_point', lp)):
        E.poke(st, o, iv(f[n][0]), 8, Ptr(v, iv(0)))
    E.poke(st, lp, iv(lpf['close'][0]), 8, Fn('vf_close'))
    f0 = z3.Int('reqflags')
    st.add(f0 >= 0, f0 < (1 << 31))
    E.poke(st, req, iv(rq['flags'][0]), 4, f0)
    return rq, req, ss, lp, f0


@proof('P23', 'onion_request_get_session_dict', ['request.c'])
def session_dict(E):
    """a request has one session: the one it has, or that of its cookie, or a new one; giving it up removes it from the store and lets the request forget it"""
    st = init(E)
    rq, req, ss, lp, f0 = Req(E, st)
    a_id, a_s, n_id, n_s = [E.newobj(st, n, 8, 'heap') for n in ('cookieid', 'cookiesession', 'newid', 'newsession')]
    p = lambda o: Ptr(o, iv(0))

    def get(s, n):
        return E.load(s, Ptr(req, iv(rq[n][0])), ir.PTR, None)

    def guess(E, s, a):
        E.oblige(s, 'looks at the cookies of this request', isp(a[0], req))
        s.ghost['guessed'] = True
        if get(s, 'session_id').obj is not None:
            return None
        s2 = s.copy()
        E.poke(s, req, iv(rq['session_id'][0]), 8, p(a_id))
        E.poke(s, req, iv(rq['session'][0]), 8, p(a_s))
        s.ghost['cookie'] = True
        return [(s, None), (s2, None)]

    def create(E, s, a):
        E.oblige(s, 'a new session only if the request brings none', isp(a[0], ss) if s.ghost.get('guessed') and 'cookie' not in s.ghost and once(s, 'created') else false())
        return p(n_id)

    def sget(E, s, a):
        E.oblige(s, 'gets the data of the session it created', And(isp(a[0], ss), isp(a[1], n_id)) if 'created' in s.ghost else false())
        return p(n_s)

    def rm(E, s, a):
        has = s.ghost.get('had') or 'cookie' in s.ghost
        E.oblige(s, 'removes the session of the request, once', And(isp(a[0], ss), isp(a[1], a_id)) if once(s, 'removed') and has and 'freed' not in s.ghost else false())
        s.ghost['rmid'] = a[1]

    def dfree(E, s, a):
        E.oblige(s, 'gives up the data of the session once', isp(a[0], a_s) if once(s, 'dfreed') else false())

    def free(E, s, a):
        E.oblige(s, 'gives up the id once, after the session was removed', isp(a[0], a_id) if 'removed' in s.ghost and once(s, 'freed') else false())
        return models.free_(E, s, a)
    E.contracts.update(onion_request_guess_session_id=guess, onion_sessions_create=create, onion_sessions_get=sget, onion_sessions_remove=rm, onion_dict_free=dfree, onion_low_free=free)

    def post_get(s, ret):
        i, d = get(s, 'session_id'), get(s, 'session')
        w = (a_id, a_s) if s.ghost.get('had') or 'cookie' in s.ghost else (n_id, n_s)
        E.oblige(s, 'the session given is the one the request keeps, under its id', And(isp(ret, w[1]), isp(d, w[1]), isp(i, w[0])))
        E.oblige(s, 'a session the request has stays', z3.BoolVal(not s.ghost.get('had') or 'created' not in s.ghost))

    def post_free(s, ret):
        i, d = get(s, 'session_id'), get(s, 'session')
        had = bool(s.ghost.get('had') or 'cookie' in s.ghost)
        E.oblige(s, 'the request forgets its session', z3.BoolVal(i.obj is None and d.obj is None))
        E.oblige(s, 'a session the request had is removed, and only then', z3.BoolVal(had == ('removed' in s.ghost) == ('freed' in s.ghost) == ('dfreed' in s.ghost)))
    for had in (True, False):
        s = st.copy()
        E.poke(s, req, iv(rq['session_id'][0]), 8, p(a_id) if had else NULL)
        E.poke(s, req, iv(rq['session'][0]), 8, p(a_s) if had else NULL)
        if had:
            s.ghost['had'] = True
        E.run(s.copy(), 'onion_request_get_session_dict', [p(req)], post_get)
        E.run(s.copy(), 'onion_request_session_free', [p(req)], post_free)


KINDS = dict(headers='dict', GET='dict', POST='dict', FILES='dict', cookies='dict', fullpath='low', data='block', parser_data='parser', free_list='list', websocket='ws', session='dict', session_id='low')
KINDS['connection.cli_info'] = 'low'


def owned(E, whole):
    """the request owns what its fields point to: each is given up exactly once, and nothing else"""
    c = front.consts(['OR_NO_KEEP_ALIVE', 'OD_ICASE'], extra='#include <onion/dict.h>')
    st = init(E)
    rq, req, ss, lp, f0 = Req(E, st)
    p = lambda o: Ptr(o, iv(0))
    objs = {}
    hd2 = E.newobj(st, 'newheaders', 8, 'heap')

    names = [n for n in KINDS if n not in ('session', 'session_id', 'headers')]
    if not whole:
        names.remove('websocket')        # a request that became a websocket is never cleaned: its connection closes
    for n in names:
        objs[n] = E.newobj(st, 'own_' + n, 8, 'heap')
    seen, keep = set(), []
    objs.update(headers=E.newobj(st, 'own_headers', 8, 'heap'), session=E.newobj(st, 'own_session', 8, 'heap'), session_id=E.newobj(st, 'own_sid', 8, 'heap'))
    cnt = z3.Int('entries')
    st.add(cnt >= 0, cnt < (1 << 30))
    by = {o.id: n for n, o in objs.items()}
    val = E.cstring(st, 'tmpname', E.fint('tl', st, 0, 1 << 20))

    def gone(s, q, kind, what):
        n = by.get(q.obj.id) if isinstance(q, Ptr) and q.obj is not None else None
        E.oblige(s, 'gives up what the request owns, once (%s)' % (n or what), And(q.off == 0) if n and KINDS[n] == kind and ('gone', n) not in s.ghost else false())
        s.ghost[('gone', n)] = True

    def giver(kind, nullok=True):
        def f(E, s, a):
            if isinstance(a[0], Ptr) and a[0].obj is None and nullok:
                return None
            gone(s, a[0], kind, kind)
        return f

    def low(E, s, a):
        if isinstance(a[0], Ptr) and a[0].obj is not None and a[0].obj.id == req.id:
            E.oblige(s, 'the request itself goes last, once', z3.BoolVal(whole and once(s, 'reqgone')))
            return models.free_(E, s, a)
        gone(s, a[0], 'low', 'memory')
        return models.free_(E, s, a)

    def live(s, q):
        n = by.get(q.obj.id) if isinstance(q, Ptr) and q.obj is not None else None
        return n if n and ('gone', n) not in s.ghost else None

    def preorder(E, s, a):
        E.oblige(s, 'goes through the files while they are there', z3.BoolVal(live(s, a[0]) == 'FILES' and isinstance(a[1], Fn)))
        s.ghost['unlinking'] = True
        return Enter(a[1].name, [a[2], Ptr(val, iv(0)), Ptr(val, iv(0)), iv(0)])       # any of them

    def unlink(E, s, a):
        E.oblige(s, 'removes a temporary file, and no other', isp(a[0], val) if s.ghost.get('unlinking') else false())
        s.ghost['unlinked'] = True
        return z3.Int('unlinked')

    def count(E, s, a):
        E.oblige(s, 'counts the session', z3.BoolVal(live(s, a[0]) == 'session'))
        return cnt

    def save(E, s, a):
        E.oblige(s, 'saves the data of the session under its id', And(isp(a[0], ss), cnt > 0, z3.BoolVal(live(s, a[1]) == 'session_id' and live(s, a[2]) == 'session' and once(s, 'saved'))))

    def rm(E, s, a):
        E.oblige(s, 'removes only a session that is empty', And(isp(a[0], ss), cnt == 0, z3.BoolVal(live(s, a[1]) == 'session_id' and once(s, 'removed'))))

    def sfree(E, s, a):
        E.oblige(s, 'removes only a session that is empty', And(isp(a[0], req), cnt == 0, z3.BoolVal(once(s, 'removed'))))
        for n in ('session', 'session_id'):
            q = E.load(s, Ptr(req, iv(rq[n][0])), ir.PTR, None)
            if n == 'session_id' and q.obj is None:
                E.oblige(s, 'the session is known', False)
            gone(s, q, KINDS[n], n)
            E.poke(s, req, iv(rq[n][0]), 8, NULL)

    def foreach(E, s, a):
        E.oblige(s, 'frees what was added to the request, once', z3.BoolVal(live(s, a[0]) == 'free_list' and isinstance(a[1], Fn) and a[1].name == 'onion_low_free' and once(s, 'list')))

    def dnew(E, s, a):
        E.oblige(s, 'new headers, once', z3.BoolVal(not whole and once(s, 'newheaders')))
        return p(hd2)

    def dflags(E, s, a):
        E.oblige(s, 'header names have no case', And(isp(a[0], hd2), toint(a[1]) == c['OD_ICASE']))
        s.ghost['icase'] = True

    def close(E, s, a):
        E.oblige(s, 'the connection is closed once, while the request is there', isp(a[0], req) if whole and once(s, 'closed') and 'reqgone' not in s.ghost else false())
    E.contracts.update(onion_dict_free=giver('dict'), onion_low_free=low, onion_block_free=giver('block'), onion_request_parser_data_free=giver('parser'), onion_ptr_list_free=giver('list'), onion_websocket_free=giver('ws', False),
                       onion_dict_preorder=preorder, unlink=unlink, onion_dict_count=count, onion_sessions_save=save, onion_sessions_remove=rm, onion_request_session_free=sfree, onion_ptr_list_foreach=foreach,
                       onion_dict_new=dnew, onion_dict_set_flags=dflags, vf_close=close)

    def post(s, ret):
        sess, has = s.ghost['sess'], s.ghost['has']
        for n in names:
            E.oblige(s, 'everything the request owned is given up (%s)' % n, z3.BoolVal((('gone', n) in s.ghost) == has[n]))
        E.oblige(s, 'the headers are given up', z3.BoolVal(('gone', 'headers') in s.ghost))
        E.oblige(s, 'the session is let go', z3.BoolVal(sess == (('gone', 'session') in s.ghost) == (('gone', 'session_id') in s.ghost)))
        E.oblige(s, 'the session is saved, or removed if it is empty', And(z3.BoolVal('saved' in s.ghost) == (cnt > 0), z3.BoolVal('removed' in s.ghost) == (cnt == 0)) if sess else z3.BoolVal('saved' not in s.ghost and 'removed' not in s.ghost))
        E.oblige(s, 'uploaded files are removed', z3.BoolVal(('unlinked' in s.ghost) == has['FILES']))
        E.oblige(s, 'what was added to the request is freed', z3.BoolVal(('list' in s.ghost) == has['free_list']))
        if whole:
            E.oblige(s, 'the request is gone, its connection closed', z3.BoolVal('reqgone' in s.ghost and 'closed' in s.ghost))
            return
        for n in KINDS:
            if n in ('headers', 'websocket'):
                continue
            q = E.load(s, Ptr(req, iv(rq[n][0])), ir.PTR, None)
            E.oblige(s, 'nothing of the last request stays (%s)' % n, z3.BoolVal(q.obj is None))
        q = E.load(s, Ptr(req, iv(rq['path'][0])), ir.PTR, None)
        E.oblige(s, 'nothing of the last request stays (path)', z3.BoolVal(q.obj is None))
        q = E.load(s, Ptr(req, iv(rq['headers'][0])), ir.PTR, None)
        E.oblige(s, 'new headers', isp(q, hd2) if 'icase' in s.ghost else false())
        fl = tobv(E.load(s, Ptr(req, iv(rq['flags'][0])), ir.I[32], None), 32)
        key = (fl.get_id(),) + tuple(q.get_id() for q in s.pc)       # the same question, asked on another path
        keep.append((fl, list(s.pc)))
        if key in seen:
            return
        seen.add(key)
        E.oblige(s, 'of its flags only the wish to close stays', fl == tobv(f0, 32) & c['OR_NO_KEEP_ALIVE'])
    E.poke(st, req, iv(rq['headers'][0]), 8, p(objs['headers']))
    E.poke(st, req, iv(rq['path'][0]), 8, NULL)
    for sess in (True, False):
        s = st.copy()
        s.ghost['sess'] = sess
        E.poke(s, req, iv(rq['session'][0]), 8, p(objs['session']) if sess else NULL)
        E.poke(s, req, iv(rq['session_id'][0]), 8, p(objs['session_id']) if sess else NULL)
        for bits in itertools.product((True, False), repeat=len(names)):      # each field may be there or not
            u = s.copy()
            u.ghost['has'] = dict(zip(names, bits))
            for n, v in zip(names, bits):
                E.poke(u, req, iv(rq[n][0]), 8, p(objs[n]) if v else NULL)
            E.poke(u, req, iv(rq['path'][0]), 8, p(objs['fullpath']) if u.ghost['has']['fullpath'] else NULL)
            E.run(u, 'onion_request_free' if whole else 'onion_request_clean', [p(req)], post)


@proof(['P14', 'P23', 'P22'], 'onion_request_clean', ['request.c'])
def request_clean(E):
    """between two requests of a connection everything of the first is given up exactly once and forgotten, its temporary files are removed and its session saved (or removed if empty)"""
    owned(E, False)


@proof(['P14', 'P23'], 'onion_request_free', ['request.c'])
def request_free(E):
    """at the end of a connection everything the request owns is given up exactly once, its temporary files are removed, its session saved (or removed if empty), the connection closed"""
    owned(E, True)


@proof('P23', 'onion_sessions_redis_get', ['sessions_redis.c'])
def sessions_redis(E):
    """sessions in redis: each call holds the lock for its whole use of the connection and releases it; the commands name this id and this data with their lengths; every reply is checked and given up once"""
    st = init(E)
    src = os.path.join(front.REPO, 'src/onion/sessions_redis.c')
    ss, _ = Sess(E, st)
    f = front.offsets('struct onion_sessions_t', ['data', 'get', 'save', 'free'])
    L, J = z3.Ints('idlen jsonlen')
    st.add(L >= 0, L < (1 << 28), J >= 0, J < (1 << 28))
    idn = E.cstring(st, 'id', L)
    js = E.cstring(st, 'json', J)
    dt, bl, res, row, ctx = [E.newobj(st, n, 8, 'heap') for n in ('data', 'block', 'dict', 'row', 'ctx')]
    x = front.offsets('onion_session_redis', ['context', 'mutex'], extra='#include "%s"' % src)
    ry = front.offsets('redisReply', ['type', 'integer', 'str'], extra='#include <hiredis/hiredis.h>')
    c = front.consts(['REDIS_REPLY_INTEGER', 'REDIS_REPLY_STRING'], extra='#include <hiredis/hiredis.h>')
    po = E.newobj(st, 'priv', x[''][1], 'heap')
    E.poke(st, ss, iv(f['data'][0]), 8, Ptr(po, iv(0)))
    E.poke(st, po, iv(x['context'][0]), 8, Ptr(ctx, iv(0)))
    p = lambda o: Ptr(o, iv(0))
    G = lambda s: s.ghost

    def lock(E, s, a):
        E.oblige(s, 'takes the lock of the store once', isp(a[0], po, x['mutex'][0]) if once(s, 'lock') else false())
        s.ghost['locked'] = True
        return iv(0)

    def unlock(E, s, a):
        E.oblige(s, 'releases the lock it holds', isp(a[0], po, x['mutex'][0]) if G(s).get('locked') else false())
        s.ghost['locked'] = False
        return iv(0)

    def cmd(E, s, a):
        t = models.constbytes(E, s, a[1]) if isinstance(a[1], Ptr) else None
        w = t.split()[0] if t else None
        good = G(s).get('locked') and w is not None and t == {b'HSET': b'HSET SESSIONS %b %b'}.get(w, w + b' SESSIONS %b') and w in (b'HSET', b'HGET', b'HEXISTS', b'HDEL')
        E.oblige(s, 'a command on this session, under the lock', And(isp(a[0], ctx), isp(a[2], idn), toint(a[3]) == L) if good else false())
        if w == b'HSET':
            E.oblige(s, 'saves the data given, whole', And(isp(a[4], js), toint(a[5]) == J) if 'blfreed' not in G(s) and 'js' in G(s) else false())
        lost, wrong = s.copy(), s.copy()
        for u in (lost, wrong):
            u.ghost['dberror'] = True
        out = [(lost, NULL)]

        def reply(u, ty, **kw):
            o = E.newobj(u, 'reply', ry[''][1], 'heap')
            u.ghost['open'] = G(u).get('open', 0) + 1
            E.poke(u, o, iv(ry['type'][0]), 4, ty)
            for k, v in kw.items():
                E.poke(u, o, iv(ry[k][0]), 8, v)
            out.append((u, p(o)))
            return o
        ty = E.i32(wrong, 'type')
        wrong.add(ty != c['REDIS_REPLY_INTEGER'], ty != c['REDIS_REPLY_STRING'])
        reply(wrong, ty)
        if w == b'HGET':
            s.ghost['row'] = True
            s.ghost['rowof'] = reply(s, iv(c['REDIS_REPLY_STRING']), str=p(row)).id
        elif w == b'HEXISTS':
            no = s.copy()
            s.ghost['exists'], no.ghost['exists'] = True, False
            reply(s, iv(c['REDIS_REPLY_INTEGER']), integer=iv(1))
            reply(no, iv(c['REDIS_REPLY_INTEGER']), integer=iv(0))
        else:
            s.ghost['done'] = w
            n = E.fint('n', s, 0, 1)
            reply(s, iv(c['REDIS_REPLY_INTEGER']), integer=n)
        return out

    def rfree(E, s, a):
        q = a[0]
        E.oblige(s, 'gives up a reply once', q.off == 0 if isinstance(q, Ptr) and q.obj is not None and q.obj.name == 'reply' and s.om(q.obj).alive else false())
        s.ghost['open'] = G(s).get('open', 0) - 1
        return models.free_(E, s, a)

    def from_json(E, s, a):
        E.oblige(s, 'reads what the store has, while it has it', isp(a[0], row) if G(s).get('open', 0) > 0 else false())
        s2 = s.copy()
        s.ghost['dict'] = True
        s2.ghost['bad'] = True
        return [(s, p(res)), (s2, NULL)]

    def to_json(E, s, a):
        E.oblige(s, 'writes the data given', isp(a[0], dt) if once(s, 'js') else false())
        return p(bl)

    def bdata(E, s, a):
        E.oblige(s, 'the text of the data', isp(a[0], bl) if 'blfreed' not in G(s) else false())
        return p(js)

    def bfree(E, s, a):
        E.oblige(s, 'gives up the text once', isp(a[0], bl) if once(s, 'blfreed') else false())
    E.contracts.update(pthread_mutex_lock=lock, pthread_mutex_unlock=unlock, redisCommand=cmd, freeReplyObject=rfree, onion_dict_from_json=from_json, onion_dict_to_json=to_json, onion_block_data=bdata, onion_block_free=bfree)

    def common(s):
        E.oblige(s, 'the lock is taken and released', z3.BoolVal(G(s).get('locked') is False))
        E.oblige(s, 'every reply is given up', z3.BoolVal(G(s).get('open', 0) == 0))

    def post_get(s, ret):
        common(s)
        null = z3.BoolVal(isinstance(ret, Ptr) and ret.obj is None)
        E.oblige(s, 'a session that is there gives its data, one that is not gives nothing', isp(ret, res) if G(s).get('dict') else And(null, z3.BoolVal('bad' in G(s) or 'dberror' in G(s) or G(s).get('exists') is False)))

    def post_save(s, ret):
        common(s)
        E.oblige(s, 'the data is saved, or redis failed', z3.BoolVal((G(s).get('done') == b'HSET' or 'dberror' in G(s)) and 'blfreed' in G(s)))

    def post_rm(s, ret):
        common(s)
        E.oblige(s, 'the session is removed, or redis failed', z3.BoolVal((G(s).get('done') == b'HDEL' or 'dberror' in G(s)) and ('js' in G(s)) == ('blfreed' in G(s))))
    E.run(st.copy(), 'onion_sessions_redis_get', [p(ss), p(idn)], post_get)
    E.run(st.copy(), 'onion_sessions_redis_save', [p(ss), p(idn), p(dt)], post_save)
    E.run(st.copy(), 'onion_sessions_redis_save', [p(ss), p(idn), NULL], post_rm)
