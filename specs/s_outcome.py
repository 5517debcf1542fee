"""Contracts of request.c, onion.c, http.c: one answer per request, and what happens to the connection after it"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models

ERR = ['OCS_NOT_PROCESSED', 'OCS_INTERNAL_ERROR', 'OCS_NOT_IMPLEMENTED', 'OCS_FORBIDDEN']
FLAG = dict(OCS_NOT_PROCESSED='OR_NOT_FOUND', OCS_INTERNAL_ERROR='OR_INTERNAL_ERROR', OCS_NOT_IMPLEMENTED='OR_NOT_IMPLEMENTED', OCS_FORBIDDEN='OR_FORBIDDEN')


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def C(*more):
    return front.consts(ERR + list(FLAG.values()) + ['OCS_YIELD', 'OCS_KEEP_ALIVE', 'OCS_CLOSE_CONNECTION', 'OCS_PROCESSED', 'OCS_NEED_MORE_DATA', 'OCS_REQUEST_READY', 'OR_HEADER_SENT'] + list(more))


def isp(p, o, off=0):
    return p.off == off if isinstance(p, Ptr) and p.obj is o else z3.BoolVal(False)


@proof('P22', 'onion_request_process', ['request.c'])
def request_process(E):
    """a request is handled once; if nobody takes it or it fails before anything was sent, the error handler answers, knowing what failed; one response goes out, and the connection goes on only if it may"""
    c = C()
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['path', 'fullpath', 'connection.listen_point', 'connection.fd', 'flags'])
    rs = front.offsets('struct onion_response_t', ['flags', 'buffer_pos'])
    lpf = front.offsets('struct onion_listen_point_t', ['server'])
    of = front.offsets('struct onion_t', ['root_handler', 'internal_error_handler', 'poller'])
    M = z3.Int('pathlen')
    st.add(M >= 0, M < (1 << 28))
    fp = E.cstring(st, 'fullpath', M, kind='heap')
    root, err, pol, slot = [E.newobj(st, k, 8, 'input') for k in ('root', 'errorhandler', 'poller', 'slot')]
    on = E.newobj(st, 'onion', of[''][1], 'input')
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    req = E.newobj(st, 'req', rq[''][1], 'input')
    res = E.newobj(st, 'res', rs[''][1], 'input')
    for o, f, k, v in ((on, of, 'root_handler', root), (on, of, 'internal_error_handler', err), (on, of, 'poller', pol), (lp, lpf, 'server', on), (req, rq, 'connection.listen_point', lp), (req, rq, 'fullpath', fp)):
        E.poke(st, o, iv(f[k][0]), 8, Ptr(v, iv(0)))
    f0, fd = z3.Ints('reqflags fd')
    bits = 0
    for v in FLAG.values():
        bits |= c[v]
    bits |= 0xF000      # what failed is a number in these bits
    st.add(f0 >= 0, f0 < (1 << 31), tobv(f0, 32) & bits == 0)
    E.poke(st, req, iv(rq['flags'][0]), 4, f0)
    E.poke(st, req, iv(rq['connection.fd'][0]), 4, fd)
    st.add(fd >= 0, fd < (1 << 31))

    def rflags(s):
        return tobv(E.load(s, Ptr(req, iv(rq['flags'][0])), ir.I[32], None), 32)

    def sflags(s):
        return tobv(E.load(s, Ptr(res, iv(rs['flags'][0])), ir.I[32], None), 32)

    def is_err(h):
        return Or(*[h == c[k] for k in ERR])

    def res_new(E, s, a):
        E.oblige(s, 'one response, for this request', isp(a[0], req) if 'new' not in s.ghost else z3.BoolVal(False))
        s.ghost['new'] = True
        E.poke(s, res, iv(rs['flags'][0]), 4, iv(0))
        E.poke(s, res, iv(rs['buffer_pos'][0]), 4, iv(0))
        return Ptr(res, iv(0))

    def handle(E, s, a):
        E.oblige(s, 'a handler gets the request and its response', And(isp(a[1], req), isp(a[2], res)) if s.ghost.get('new') and 'freed' not in s.ghost else z3.BoolVal(False))
        n = s.ghost['n'] = s.ghost.get('n', 0) + 1
        r = E.i32(s, 'hs%d' % n)
        if n == 1:
            p = E.load(s, Ptr(req, iv(rq['path'][0])), ir.PTR, None)
            E.oblige(s, 'the root handler is asked first, with the whole path after its slash', And(isp(a[0], root), p.off == If(M > 0, 1, 0)) if p.obj is fp else z3.BoolVal(False))
            s.ghost['hs'] = r
            sf, bp = E.i32(s, 'sflags'), E.i32(s, 'bufpos')
            s.add(sf >= 0, bp >= 0, bp < 4096)
            E.poke(s, res, iv(rs['flags'][0]), 4, sf)          # it may have written a part of a response
            E.poke(s, res, iv(rs['buffer_pos'][0]), 4, bp)
            s.ghost['sent'] = tobv(sf, 32) & c['OR_HEADER_SENT'] != 0
        else:
            h = s.ghost['hs']
            E.oblige(s, 'the error handler is asked only if the request failed or nobody took it', And(isp(a[0], err), is_err(h)) if n == 2 else z3.BoolVal(False))
            E.oblige(s, 'an error page is never added to a response that has begun', And(Not(s.ghost['sent']), toint(E.load(s, Ptr(res, iv(rs['buffer_pos'][0])), ir.I[32], None)) == 0))
            E.oblige(s, 'the error handler is told what failed, and nothing else', And(*[Implies(h == c[k], rflags(s) & bits == c[FLAG[k]]) for k in ERR]))
            s.ghost['hs2'] = r
        return r

    def res_free(E, s, a):
        E.oblige(s, 'the response is sent once, after the handlers', isp(a[0], res) if 'freed' not in s.ghost and s.ghost.get('n') else z3.BoolVal(False))
        s.ghost['freed'] = r = E.i32(s, 'rs')
        s.add(Or(r == c['OCS_KEEP_ALIVE'], r == c['OCS_CLOSE_CONNECTION']))
        return r

    def clean(E, s, a):
        E.oblige(s, 'the request is cleaned once, after its response, for the next one', And(isp(a[0], req), s.ghost['freed'] == c['OCS_KEEP_ALIVE']) if 'freed' in s.ghost and 'clean' not in s.ghost else z3.BoolVal(False))
        s.ghost['clean'] = True
        return None

    def get_poller(E, s, a):
        E.oblige(s, 'the poller of this server', isp(a[0], on))
        return Ptr(pol, iv(0))

    def poller_get(E, s, a):
        E.oblige(s, 'the slot of this connection', And(isp(a[0], pol), toint(a[1]) == fd))
        return Ptr(slot, iv(0))

    def shutdown(E, s, a):
        E.oblige(s, 'the poller forgets the connection without closing it', isp(a[0], slot) if a[1] is NULL or getattr(a[1], 'obj', 1) is None else z3.BoolVal(False))
        s.ghost['yielded'] = True
        return None
    E.contracts.update(onion_response_new=res_new, onion_handler_handle=handle, onion_response_free=res_free, onion_request_clean=clean, onion_get_poller=get_poller, onion_poller_get=poller_get, onion_poller_slot_set_shutdown=shutdown)

    def post(s, ret):
        ret, h = toint(ret), s.ghost['hs']
        E.oblige(s, 'the error handler answers whenever the request failed before anything was sent', z3.BoolVal('hs2' in s.ghost) == And(is_err(h), Not(s.ghost['sent'])))
        last = s.ghost.get('hs2', If(is_err(h), iv(c['OCS_CLOSE_CONNECTION']), h))
        y = last == c['OCS_YIELD']
        E.oblige(s, 'a request that is processed elsewhere is left alone', Implies(y, And(ret == c['OCS_YIELD'], z3.BoolVal('yielded' in s.ghost and 'freed' not in s.ghost and 'clean' not in s.ghost))))
        rsv = s.ghost.get('freed', iv(0))
        E.oblige(s, 'otherwise exactly one response is sent', Implies(Not(y), z3.BoolVal('freed' in s.ghost and 'yielded' not in s.ghost)))
        E.oblige(s, 'the connection goes on exactly if no handler closes it and the response allows it', Implies(Not(y), (ret >= 0) == And(last >= 0, rsv == c['OCS_KEEP_ALIVE'])))
        E.oblige(s, 'a connection that goes on starts clean', Implies(Not(y), z3.BoolVal('clean' in s.ghost) == And(last >= 0, rsv == c['OCS_KEEP_ALIVE'])))
    for k in (0, 1):
        s = st.copy()
        E.poke(s, req, iv(rq['path'][0]), 8, NULL if k == 0 else Ptr(fp, If(M > 0, iv(1), iv(0))))
        E.run(s, 'onion_request_process', [Ptr(req, iv(0))], post)


@proof('P22', 'onion_default_error', ['onion.c'])
def default_error(E):
    """the error page has the status code of what failed, a length that is its own, and is written whole"""
    c = C('HTTP_INTERNAL_ERROR', 'HTTP_NOT_IMPLEMENTED', 'HTTP_FORBIDDEN', 'HTTP_NOT_FOUND')
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['flags'])
    req = E.newobj(st, 'req', rq[''][1], 'input')
    res = E.newobj(st, 'res', 8, 'input')
    f0 = z3.Int('reqflags')
    st.add(f0 >= 0, f0 < (1 << 31))
    E.poke(st, req, iv(rq['flags'][0]), 4, f0)
    F = tobv(f0, 32)
    bits = 0
    for v in FLAG.values():
        bits |= c[v]
    bits |= 0xF000      # what failed is a number in these bits
    st.add(Or(*[F & bits == c[v] for v in FLAG.values()]))

    def code(E, s, a):
        E.oblige(s, 'one status code, before the headers', isp(a[0], res) if not {'code', 'headers'} & set(s.ghost) else z3.BoolVal(False))
        s.ghost['code'] = toint(a[1])
        return None

    def length(E, s, a):
        E.oblige(s, 'one length, before the headers', isp(a[0], res) if not {'len', 'headers'} & set(s.ghost) else z3.BoolVal(False))
        s.ghost['len'] = toint(a[1])
        return None

    def headers(E, s, a):
        E.oblige(s, 'the headers go once, before the page', isp(a[0], res) if not {'body', 'headers'} & set(s.ghost) else z3.BoolVal(False))
        s.ghost['headers'] = True
        return E.i32(s, 'h')

    def write(E, s, a):
        b = models.constbytes(E, s, a[1]) if isinstance(a[1], Ptr) else None
        E.oblige(s, 'the page is a text of its own, whole', And(isp(a[0], res), toint(a[2]) == len(b)) if b else z3.BoolVal(False))
        s.ghost['body'] = s.ghost.get('body', b'') + (b or b'')
        return E.i32(s, 'w')

    def write0(E, s, a):
        b = models.constbytes(E, s, a[1]) if isinstance(a[1], Ptr) else None
        E.oblige(s, 'the page is a text of its own, whole', isp(a[0], res) if b else z3.BoolVal(False))
        s.ghost['body'] = s.ghost.get('body', b'') + (b or b'')
        return E.i32(s, 'w')
    E.contracts.update(onion_response_set_code=code, onion_response_set_length=length, onion_response_write_headers=headers, onion_response_write=write, onion_response_write0=write0)

    def post(s, ret):
        E.oblige(s, 'the page answers the request', toint(ret) == c['OCS_PROCESSED'])
        w = dict(OR_INTERNAL_ERROR='HTTP_INTERNAL_ERROR', OR_NOT_IMPLEMENTED='HTTP_NOT_IMPLEMENTED', OR_FORBIDDEN='HTTP_FORBIDDEN', OR_NOT_FOUND='HTTP_NOT_FOUND')
        for k, v in w.items():
            E.oblige(s, 'the status code of ' + k, Implies(F & bits == c[k], And(s.ghost['code'] == c[v], z3.BoolVal(str(c[v]).encode() in s.ghost.get('body', b'')))) if 'code' in s.ghost else False)
        E.oblige(s, 'the length announced is that of the page', s.ghost['len'] == len(s.ghost.get('body', b'')) if 'len' in s.ghost else z3.BoolVal(bool(s.ghost.get('body'))))
    E.run(st, 'onion_default_error', [NULL, Ptr(req, iv(0)), Ptr(res, iv(0))], post)


@proof('P22', 'onion_http_read_ready', ['http.c'])
def read_ready(E):
    """what is read from the connection goes whole and unchanged to the parser; a complete request is processed once; an error, a malformed request or the end closes the connection"""
    c = C()
    st = init(E)
    rq = front.offsets('struct onion_request_t', ['connection.listen_point'])
    lpf = front.offsets('struct onion_listen_point_t', ['read'])
    req = E.newobj(st, 'req', rq[''][1], 'input')
    lp = E.newobj(st, 'lp', lpf[''][1], 'input')
    E.poke(st, req, iv(rq['connection.listen_point'][0]), 8, Ptr(lp, iv(0)))
    E.poke(st, lp, iv(lpf['read'][0]), 8, Fn('vf_read'))
    x = z3.Int('x')
    st.add(x >= 0)
    byte = z3.Function('incoming', z3.IntSort(), z3.BitVecSort(8))
    E.skolem_list = [(None, x)]

    def rd(E, s, a):
        p, n = a[1], toint(a[2])
        E.oblige(s, 'reads once, into a buffer that is large enough', And(isp(a[0], req), n > 0, p.off >= 0, p.off + n <= p.obj.size) if 'len' not in s.ghost and p.obj is not None else z3.BoolVal(False))
        r = E.fint('len', s)
        s.add(r >= -1, r <= n)
        s.ghost['len'] = r
        E.store_range(s, p.obj, p.off, If(r > 0, r, iv(0)), lambda k: byte(S(k - p.off)))
        return r

    def wr(E, s, a):
        p, n = a[1], toint(a[2])
        E.oblige(s, 'the parser gets exactly what arrived', And(isp(a[0], req), s.ghost['len'] > 0, n == s.ghost['len'], Implies(x < n, E.read_byte(s, p.obj, S(p.off + x)) == byte(x))) if 'len' in s.ghost and 'parsed' not in s.ghost else z3.BoolVal(False))
        s.ghost['parsed'] = r = E.i32(s, 'parsed')
        s.add(Or(r < 0, r == c['OCS_NEED_MORE_DATA'], r == c['OCS_REQUEST_READY']))
        return r

    def proc(E, s, a):
        E.oblige(s, 'a request is processed once, when it is complete', And(isp(a[0], req), s.ghost['parsed'] == c['OCS_REQUEST_READY']) if 'parsed' in s.ghost and 'done' not in s.ghost else z3.BoolVal(False))
        s.ghost['done'] = r = E.i32(s, 'done')
        return r
    E.contracts.update(vf_read=rd, onion_request_write=wr, onion_request_process=proc)

    def post(s, ret):
        ret, n = toint(ret), s.ghost['len']
        E.oblige(s, 'everything that arrives is parsed', z3.BoolVal('parsed' in s.ghost) == (n > 0))
        E.oblige(s, 'the end of the input closes', Implies(n <= 0, ret < 0))
        if 'parsed' in s.ghost:
            pr = s.ghost['parsed']
            E.oblige(s, 'a complete request is processed', z3.BoolVal('done' in s.ghost) == (pr == c['OCS_REQUEST_READY']))
            E.oblige(s, 'the connection goes on exactly if neither the parser nor the processing closes it', (ret >= 0) == And(pr >= 0, s.ghost.get('done', iv(0)) >= 0))
            E.oblige(s, 'a request that is processed elsewhere is told to the poller', Implies(s.ghost.get('done', iv(0)) == c['OCS_YIELD'], ret == c['OCS_YIELD']))
    E.run(st, 'onion_http_read_ready', [Ptr(req, iv(0))], post)
