"""Contracts of the formatted and escaped writes of response.c and websocket.c, and of the making and freeing of responses and websockets"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def same(p, o):
    return p.off == 0 if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


def writer(E, me, text, n, x):
    """the write the text has to end in: once, whole, to the same response (or websocket)"""
    def write(E, s, a):
        p, k = a[1], toint(a[2])
        E.oblige(s, 'writes to the same one', same(a[0], me))
        E.oblige(s, 'writes once', z3.BoolVal('written' not in s.ghost))
        if not E.access(s, p, k, False, None):
            return E.i32(s, 'w')
        E.pointwise(s, p.obj, S(p.off + x))
        E.oblige(s, 'writes all the text and no more', k == n)
        E.oblige(s, 'writes exactly the text', Implies(x < n, E.read_byte(s, p.obj, S(p.off + x)) == text(x)))
        s.ghost['written'] = E.fint('wrote', s, -(1 << 31), (1 << 31) - 1)
        return s.ghost['written']
    return write


def clean(E, s):
    E.oblige(s, 'gives back what it took', z3.BoolVal(not any(o.kind == 'heap' and s.om(o).alive for o in s.objs.values())))


def vprintf(E, fn, write):
    st = init(E)
    me, fmt = E.newobj(st, 'me', 64, 'input'), E.cstring(st, 'fmt', E.fint('fmtlen', st, 0, 1 << 20))
    args = E.newobj(st, 'args', 24, 'heap')
    args.kind = 'input'
    L, x = z3.Ints('textlen x')
    st.add(L >= -1, L < (1 << 30), x >= 0)
    E.skolem_list = [(None, x)]
    txt = z3.Function('text', z3.IntSort(), z3.BitVecSort(8))

    def vsn(E, s, a):
        d, n, f, va = a
        n = toint(n)
        E.oblige(s, 'formats what was given', same(f, fmt))
        k = ('args', va.obj.id if isinstance(va, Ptr) and va.obj is not None else None)
        E.oblige(s, 'with arguments not used up', z3.BoolVal(k[1] is not None and s.ghost.get(k) == 'fresh'))
        s.ghost[k] = 'used'
        if isinstance(d, Ptr) and d.obj is None:
            E.oblige(s, 'room to write', n == 0)
            return L
        if not E.access(s, d, n, True, None):
            return L
        if isc(S(n)) and cval(S(n)) == 0:
            return L
        m = S(If(L < 0, iv(0), If(L < n, L, n - 1)))
        do = d.off
        E.flush_range(s, d, S(m + 1))
        E.store_range(s, d.obj, do, S(m + 1), lambda i: If(i - do == m, bv(0, 8), txt(S(i - do))))
        return L

    def copy(E, s, a):
        k = ('args', a[1].obj.id)
        E.oblige(s, 'copies arguments not used up', z3.BoolVal(s.ghost.get(k) == 'fresh'))
        s.ghost[('args', a[0].obj.id)] = s.ghost.get(k)
        return None
    st.ghost[('args', args.id)] = 'fresh'
    E.contracts.update({'vsnprintf': vsn, 'llvm.va_copy': copy, 'llvm.va_end': lambda E, s, a: None, write: writer(E, me, txt, L, x)})

    def post(s, ret):
        w = s.ghost.get('written')
        E.oblige(s, 'written, unless it can not be formatted', (L < 0) if w is None else And(L >= 0, toint(ret) == w))
        E.oblige(s, 'an error if it can not be formatted', Implies(L < 0, toint(ret) < 0))
        clean(E, s)
    E.run(st, fn, [Ptr(me, iv(0)), Ptr(fmt, iv(0)), Ptr(args, iv(0))], post)


@proof(['P16', 'P17'], 'onion_response_vprintf', ['response.c'])
def response_vprintf(E):
    """a formatted write is one write of exactly the formatted text, of any length"""
    vprintf(E, 'onion_response_vprintf', 'onion_response_write')


@proof('P18', 'onion_websocket_vprintf', ['websocket.c'])
def websocket_vprintf(E):
    """a formatted write is one frame of exactly the formatted text, of any length"""
    vprintf(E, 'onion_websocket_vprintf', 'onion_websocket_write')


def string(E, st, name='str'):
    n = z3.Int(name + 'len')
    st.add(n >= 0, n < (1 << 30))
    return E.cstring(st, name, n), n


@proof(['P16', 'P17'], 'onion_response_write0', ['response.c'])
def response_write0(E):
    """writes the whole string"""
    st = init(E)
    me, x = E.newobj(st, 'me', 64, 'input'), z3.Int('x')
    d, n = string(E, st)
    st.add(x >= 0)
    D = st.om(d).bm
    E.contracts['onion_response_write'] = writer(E, me, D.read, n, x)

    def post(s, ret):
        E.oblige(s, 'written', z3.BoolVal(False) if 'written' not in s.ghost else toint(ret) == s.ghost['written'])
        clean(E, s)
    E.run(st, 'onion_response_write0', [Ptr(me, iv(0)), Ptr(d, iv(0))], post)


@proof(['P16', 'P03'], 'onion_response_write_html_safe', ['response.c'])
def response_html(E):
    """writes the escaped text, as onion_html_quote gives it (nothing when there is nothing to escape)"""
    st = init(E)
    me, x, n = E.newobj(st, 'me', 64, 'input'), z3.Int('x'), z3.Int('quotedlen')
    d, dn = string(E, st)
    st.add(x >= 0, n >= 0, n < (1 << 30))
    D = st.om(d).bm
    Q = z3.Function('quoted', z3.IntSort(), z3.BitVecSort(8))
    qt = lambda k: If(Q(k) == 0, bv(1, 8), Q(k))
    E.skolem_list = [(None, x)]
    E.strlen_hook = None

    def quote(E, s, a):
        E.oblige(s, 'escapes the text', same(a[0], d))
        E.oblige(s, 'escapes once', z3.BoolVal('q' not in s.ghost))
        s.ghost['q'] = True
        s2 = s.copy()
        o = E.cstring(s, 'quoted', n, 'heap') if False else None
        o = E.newobj(s, 'quoted', S(n + 1), 'heap')
        E.store_range(s, o, iv(0), S(n + 1), lambda i: If(i == n, bv(0, 8), qt(i)))
        s.wom(o).nuls = (n,)
        s.strfacts.append((o, s.om(o).bm, iv(0), n))
        s2.add(n == dn, Implies(x < n, qt(x) == D.read(x)))      # nothing to escape
        return [(s, Ptr(o, iv(0))), (s2, NULL)]
    E.contracts.update(onion_html_quote=quote, onion_response_write=writer(E, me, qt, n, x))

    def post(s, ret):
        E.oblige(s, 'written escaped', z3.BoolVal(False) if 'written' not in s.ghost or 'q' not in s.ghost else toint(ret) == s.ghost['written'])
        clean(E, s)
    E.run(st, 'onion_response_write_html_safe', [Ptr(me, iv(0)), Ptr(d, iv(0))], post)


@proof(['P18', 'P14'], 'onion_websocket_free', ['websocket.c'])
def websocket_free(E):
    """the callback of the moment is told once, the user data freed once, the request forgets it"""
    st = init(E)
    f = front.offsets('struct onion_websocket_t', ['callback', 'user_data', 'free_user_data', 'req'])
    r = front.offsets('struct onion_request_t', ['websocket'])
    ws, req, ud = E.newobj(st, 'ws', f[''][1], 'heap'), E.newobj(st, 'req', r[''][1], 'input'), E.newobj(st, 'ud', 8, 'input')
    cb, fr = E.newobj(st, 'cb', 1, 'ghost'), E.newobj(st, 'freer', 1, 'ghost')
    E.poke(st, ws, iv(f['req'][0]), 8, Ptr(req, iv(0)))
    E.poke(st, ws, iv(f['user_data'][0]), 8, Ptr(ud, iv(0)))
    E.poke(st, req, iv(r['websocket'][0]), 8, Ptr(ws, iv(0)))

    def ind(E, s, fp, a, ty):
        if fp.obj is None:
            return NotImplemented
        live = z3.BoolVal(bool(s.om(ws).alive) and 'freed' not in s.ghost)
        if fp.obj.id == cb.id:
            E.oblige(s, 'the callback is told that it ends, once, before its data goes', And(live, z3.BoolVal('told' not in s.ghost), same(a[0], ud), same(a[1], ws), toint(a[2]) == -1))
            s.ghost['told'] = True
            return E.i32(s, 'cb')
        E.oblige(s, 'the user data is freed once', And(live, same(a[0], ud)))
        s.ghost['freed'] = True
        return None
    E.indirect = ind
    E.contracts['onion_random_free'] = lambda E, s, a: None

    def run(c, q):
        s0 = st.copy()
        E.poke(s0, ws, iv(f['callback'][0]), 8, Ptr(cb, iv(0)) if c else NULL)
        E.poke(s0, ws, iv(f['free_user_data'][0]), 8, Ptr(fr, iv(0)) if q else NULL)

        def post(s, ret):
            now = E.load(s, Ptr(req, iv(r['websocket'][0])), ir.PTR, None)
            E.oblige(s, 'the callback was told, the data freed', z3.BoolVal(('told' in s.ghost) == c and ('freed' in s.ghost) == q))
            E.oblige(s, 'the request has no websocket', z3.BoolVal(isinstance(now, Ptr) and now.obj is None))
            E.oblige(s, 'the websocket is freed', z3.BoolVal(not s.om(ws).alive))
        E.run(s0, 'onion_websocket_free', [Ptr(ws, iv(0))], post)
    for c in (0, 1):
        for q in (0, 1):
            run(c, q)


@proof(['P16', 'P17', 'P22'], 'onion_response_new', ['response.c'])
def response_new(E):
    """a new response is 200, of its request, with nothing set, sent or buffered, and the default headers"""
    st = init(E)
    c = front.consts(['OD_DUP_VALUE'], extra='#include <onion/dict.h>')
    f = front.offsets('struct onion_response_t', ['request', 'headers', 'code', 'flags', 'length', 'sent_bytes', 'sent_bytes_total', 'buffer_pos', 'buffer'])
    req = E.newobj(st, 'req', 64, 'input')
    old = E.cstring(st, 'olddate', iv(29))
    old.kind = 'heap'
    E.global_init['onion_response_last_date_header'] = lambda E, s, o: E.poke(s, o, iv(0), 8, Ptr(old, iv(0)))

    def dnew(E, s, a):
        s.ghost['dict'] = E.newobj(s, 'headers', 64, 'heap')
        return Ptr(s.ghost['dict'], iv(0))

    def dadd(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'?').lower()
        E.oblige(s, 'to its own headers', same(a[0], s.ghost['dict']) if 'dict' in s.ghost else z3.BoolVal(False))
        v, fl = a[2], toint(a[3])
        E.oblige(s, 'a header value that stays', z3.BoolVal(isinstance(v, Ptr) and v.obj is not None and (v.obj.const or isc(S(fl)) and bool(cval(S(fl)) & c['OD_DUP_VALUE'] == c['OD_DUP_VALUE']))))
        models.cstrlen(E, s, v)
        E.oblige(s, 'each header once', z3.BoolVal(('h', k) not in s.ghost))
        s.ghost[('h', k)] = models.constbytes(E, s, v) or True
        return None

    def tm(E, s, a):
        s2 = s.copy()
        return [(s, a[1])]
    E.contracts.update(onion_dict_new=dnew, onion_dict_add=dadd, time=lambda E, s, a: E.fint('now', s, 0, 1 << 40), localtime_r=tm, gmtime_r=tm)
    for n in ('pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_unlock'):
        E.contracts[n] = lambda E, s, a: iv(0)

    def post(s, ret):
        ok = isinstance(ret, Ptr) and ret.obj is not None and ret.obj.kind == 'heap' and s.om(ret.obj).alive
        E.oblige(s, 'a response of its own', And(z3.BoolVal(bool(ok)), ret.off == 0, ret.obj.size >= f[''][1]))
        g = lambda n: E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.PTR, None)
        i = lambda n: toint(E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.I[8 * f[n][1]], None))
        E.oblige(s, 'of this request', same(g('request'), req))
        E.oblige(s, 'with headers of its own', same(g('headers'), s.ghost['dict']))
        E.oblige(s, 'answers 200 unless told', i('code') == 200)
        E.oblige(s, 'nothing set, sent or buffered', And(*[i(n) == 0 for n in ('flags', 'length', 'sent_bytes', 'sent_bytes_total', 'buffer_pos')]))
        E.oblige(s, 'the default content is html', z3.BoolVal(s.ghost.get(('h', b'content-type')) == b'text/html'))
        for h in (b'server', b'date'):
            E.oblige(s, 'says %s' % h.decode(), z3.BoolVal(('h', h) in s.ghost))
    E.run(st, 'onion_response_new', [Ptr(req, iv(0))], post)
