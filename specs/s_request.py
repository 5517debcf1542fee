"""Contracts of the small functions of request.c through which an application sees a request, and of the making of one"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models

R = ['connection.listen_point', 'connection.fd', 'connection.cli_len', 'connection.cli_info', 'connection.user_data', 'flags', 'fullpath', 'path', 'headers', 'GET', 'POST', 'FILES', 'session', 'data', 'cookies',
     'session_id', 'parser', 'parser_data', 'websocket', 'free_list']


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def same(p, o):
    if o is None:
        return p.off == 0 if isinstance(p, Ptr) and p.obj is None else z3.BoolVal(False)
    return p.off == 0 if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


DICTS = ['headers', 'GET', 'POST', 'FILES', 'session', 'cookies']


def request(E, st):
    f = front.offsets('struct onion_request_t', R)
    req = E.newobj(st, 'req', f[''][1], 'input')
    d = {n: E.newobj(st, n, 64, 'input') for n in DICTS + ['data']}
    for n, o in d.items():
        E.poke(st, req, iv(f[n][0]), 8, Ptr(o, iv(0)))
    return f, req, d


def lookup(E, fn, field, may_miss, default=False):
    """what the client sent under that name in that dictionary, or nothing (the default)"""
    for there in ((True, False) if may_miss else (True,)):
        st = init(E)
        f, req, d = request(E, st)
        if not there:
            E.poke(st, req, iv(f[field][0]), 8, NULL)
        key, val, df = E.cstring(st, 'key', E.fint('keylen', st, 0, 1 << 20)), E.cstring(st, 'val', E.fint('vallen', st, 0, 1 << 20)), E.cstring(st, 'def', E.fint('deflen', st, 0, 1 << 20))

        def get(E, s, a):
            E.oblige(s, 'looks in the right place', same(a[0], d[field]))
            E.oblige(s, 'for the name given', same(a[1], key))
            s2 = s.copy()
            s.ghost['v'], s2.ghost['v'] = val, None
            return [(s, Ptr(val, iv(0))), (s2, NULL)]
        E.contracts['onion_dict_get'] = get
        if field == 'cookies':
            E.contracts['onion_request_get_cookies_dict'] = lambda E, s, a: (E.oblige(s, 'of this request', same(a[0], req)), Ptr(d['cookies'], iv(0)))[1]
        if field == 'session':
            E.contracts['onion_request_get_session_dict'] = lambda E, s, a: (E.oblige(s, 'of this request', same(a[0], req)), Ptr(d['session'], iv(0)))[1]

        def post(s, ret, there=there):
            v = s.ghost.get('v')
            E.oblige(s, 'asked, if there is something to ask', z3.BoolVal('v' in s.ghost or not there))
            E.oblige(s, 'gives what was sent', same(ret, v if v is not None else df if default else None))
        E.run(st, fn, [Ptr(req, iv(0)), Ptr(key, iv(0))] + ([Ptr(df, iv(0))] if default else []), post)


@proof(['P10', 'P15', 'P22'], 'onion_request_get_header', ['request.c'])
def get_header(E):
    """the value of that header"""
    lookup(E, 'onion_request_get_header', 'headers', False)


@proof('P12', 'onion_request_get_query', ['request.c'])
def get_query(E):
    """the value of that query parameter"""
    lookup(E, 'onion_request_get_query', 'GET', True)


@proof('P12', 'onion_request_get_queryd', ['request.c'])
def get_queryd(E):
    """the value of that query parameter, or the default"""
    lookup(E, 'onion_request_get_queryd', 'GET', True, True)


@proof(['P12', 'P13'], 'onion_request_get_post', ['request.c'])
def get_post(E):
    """the value of that field"""
    lookup(E, 'onion_request_get_post', 'POST', True)


@proof(['P11', 'P13'], 'onion_request_get_file', ['request.c'])
def get_file(E):
    """the file of that field"""
    lookup(E, 'onion_request_get_file', 'FILES', True)


@proof('P15', 'onion_request_get_cookie', ['request.c'])
def get_cookie(E):
    """the value of that cookie"""
    lookup(E, 'onion_request_get_cookie', 'cookies', False)


@proof('P23', 'onion_request_get_session', ['request.c'])
def get_session(E):
    """the value in the session"""
    lookup(E, 'onion_request_get_session', 'session', False)


def field(E, fn, n):
    st = init(E)
    f, req, d = request(E, st)
    E.run(st, fn, [Ptr(req, iv(0))], lambda s, ret: E.oblige(s, 'gives what the request has', same(ret, d[n])))


@proof('P10', 'onion_request_get_header_dict', ['request.c'])
def header_dict(E):
    """the headers"""
    field(E, 'onion_request_get_header_dict', 'headers')


@proof('P12', 'onion_request_get_query_dict', ['request.c'])
def query_dict(E):
    """the query parameters"""
    field(E, 'onion_request_get_query_dict', 'GET')


@proof(['P12', 'P13'], 'onion_request_get_post_dict', ['request.c'])
def post_dict(E):
    """the fields of the form"""
    field(E, 'onion_request_get_post_dict', 'POST')


@proof(['P11', 'P13'], 'onion_request_get_file_dict', ['request.c'])
def file_dict(E):
    """the files"""
    field(E, 'onion_request_get_file_dict', 'FILES')


@proof('P11', 'onion_request_get_data', ['request.c'])
def get_data(E):
    """the body"""
    field(E, 'onion_request_get_data', 'data')


@proof(['P10', 'P21', 'P22'], 'onion_request_polish', ['request.c'])
def polish(E):
    """the path handlers see starts after the first slash, or is the empty path"""
    st = init(E)
    f, req, d = request(E, st)
    n = z3.Int('fulllen')
    st.add(n >= 0, n < (1 << 20))
    full = E.cstring(st, 'full', n)
    E.poke(st, req, iv(f['fullpath'][0]), 8, Ptr(full, iv(0)))
    E.poke(st, req, iv(f['path'][0]), 8, NULL)

    def post(s, ret):
        p = E.load(s, Ptr(req, iv(f['path'][0])), ir.PTR, None)
        E.oblige(s, 'the path without its slash', p.off == If(n > 0, 1, 0) if isinstance(p, Ptr) and p.obj is not None and p.obj.id == full.id else z3.BoolVal(False))
        E.oblige(s, 'the full path stays', same(E.load(s, Ptr(req, iv(f['fullpath'][0])), ir.PTR, None), full))
    E.run(st, 'onion_request_polish', [Ptr(req, iv(0))], post)


@proof('P21', 'onion_request_advance_path', ['request.c'])
def advance_path(E):
    """moves on exactly as told, within the path; never out of it"""
    st = init(E)
    f, req, d = request(E, st)
    n, p0, k = z3.Ints('fulllen pos add')
    st.add(n >= 0, n < (1 << 20), p0 >= 0, p0 <= n, k >= -(1 << 21), k <= (1 << 21))
    full = E.cstring(st, 'full', n)
    E.poke(st, req, iv(f['fullpath'][0]), 8, Ptr(full, iv(0)))
    E.poke(st, req, iv(f['path'][0]), 8, Ptr(full, p0))

    def post(s, ret):
        p = E.load(s, Ptr(req, iv(f['path'][0])), ir.PTR, None)
        ok = isinstance(p, Ptr) and p.obj is not None and p.obj.id == full.id
        E.oblige(s, 'stays within the path', And(p.off >= 0, p.off <= n) if ok else z3.BoolVal(False))
        E.oblige(s, 'moves on as told', p.off == If(And(p0 + k >= 0, p0 + k <= n), p0 + k, p0) if ok else z3.BoolVal(False))
    E.run(st, 'onion_request_advance_path', [Ptr(req, iv(0)), k], post)


@proof(['P09', 'P10', 'P14', 'P22'], 'onion_request_new', ['request.c'])
def request_new(E):
    """a new request knows its connection and nothing else; one that its listen point refuses is given back whole"""
    c = front.consts(['OD_ICASE'], extra='#include <onion/dict.h>')
    for kind in ('alone', 'default', 'own'):
        st = init(E)
        f = front.offsets('struct onion_request_t', R)
        lpf = front.offsets('struct onion_listen_point_t', ['request_init'])
        lp = E.newobj(st, 'lp', lpf[''][1], 'input')
        hook = E.newobj(st, 'hook', 1, 'ghost')
        E.poke(st, lp, iv(lpf['request_init'][0]), 8, Ptr(hook, iv(0)) if kind == 'own' else NULL)

        def dnew(E, s, a):
            s.ghost['dict'] = E.newobj(s, 'headers', 64, 'heap')
            return Ptr(s.ghost['dict'], iv(0))

        def flags(E, s, a):
            E.oblige(s, 'header names have no case', And(same(a[0], s.ghost['dict']), toint(a[1]) == c['OD_ICASE']))
            s.ghost['icase'] = True
            return None

        def ready(E, s, r):
            o = r.obj
            E.oblige(s, 'the request is there before the listen point looks at it', And(r.off == 0, same(E.load(s, Ptr(o, iv(f['connection.listen_point'][0])), ir.PTR, None), lp),
                                                                                    same(E.load(s, Ptr(o, iv(f['headers'][0])), ir.PTR, None), s.ghost['dict']), z3.BoolVal('looked' not in s.ghost)))
            s.ghost['looked'] = True

        def ind(E, s, fp, a, ty):
            ready(E, s, a[0])
            s2 = s.copy()
            v = E.fint('no', s2, -(1 << 31), -1)
            s2.ghost['no'] = True
            return [(s, E.fint('yes', s, 0, (1 << 31) - 1)), (s2, v)]

        def dflt(E, s, a):
            ready(E, s, a[0])
            return E.i32(s, 'init')

        def rfree(E, s, a):
            E.oblige(s, 'frees what was refused, once', z3.BoolVal('no' in s.ghost and 'freed' not in s.ghost and a[0].obj is not None and a[0].obj.kind == 'heap'))
            s.ghost['freed'] = True
            return None
        E.indirect = ind
        E.contracts.update(onion_dict_new=dnew, onion_dict_set_flags=flags, onion_listen_point_request_init_from_socket=dflt, onion_request_free=rfree)

        def post(s, ret, kind=kind):
            if isinstance(ret, Ptr) and ret.obj is None:
                E.oblige(s, 'none only if refused, and freed', z3.BoolVal('no' in s.ghost and 'freed' in s.ghost))
                return
            E.oblige(s, 'not refused, not freed', z3.BoolVal('no' not in s.ghost and 'freed' not in s.ghost))
            E.oblige(s, 'header names have no case', z3.BoolVal('icase' in s.ghost))
            E.oblige(s, 'the listen point had a look', z3.BoolVal(('looked' in s.ghost) == (kind != 'alone')))
            for n in R:
                if n in ('connection.listen_point', 'headers', 'connection.fd'):
                    continue
                w = f[n][1]
                v = E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.PTR if w == 8 else ir.I[8 * w], None)
                E.oblige(s, 'starts with no %s' % n, (same(v, None)) if w == 8 else toint(v) == 0)
            E.oblige(s, 'no connection yet', toint(E.load(s, Ptr(ret.obj, iv(f['connection.fd'][0])), ir.I[32], None)) == -1)
            E.oblige(s, 'of its listen point, with headers', And(same(E.load(s, Ptr(ret.obj, iv(f['connection.listen_point'][0])), ir.PTR, None), lp if kind != 'alone' else None),
                                                              same(E.load(s, Ptr(ret.obj, iv(f['headers'][0])), ir.PTR, None), s.ghost['dict'])))
        E.run(st, 'onion_request_new', [Ptr(lp, iv(0)) if kind != 'alone' else NULL], post)


@proof('P23', 'onion_request_session_free', ['request.c'])
def session_free(E):
    """the session of the request, asked for before or not, is removed under its id, and the request has none"""
    for known in (True, False):
        st = init(E)
        f, req, d = request(E, st)
        lpf = front.offsets('struct onion_listen_point_t', ['server'])
        sf = front.offsets('struct onion_t', ['sessions'])
        lp, srv, ses = E.newobj(st, 'lp', lpf[''][1], 'input'), E.newobj(st, 'srv', sf[''][1], 'input'), E.newobj(st, 'sessions', 64, 'input')
        E.poke(st, req, iv(f['connection.listen_point'][0]), 8, Ptr(lp, iv(0)))
        E.poke(st, lp, iv(lpf['server'][0]), 8, Ptr(srv, iv(0)))
        E.poke(st, srv, iv(sf['sessions'][0]), 8, Ptr(ses, iv(0)))
        sid = E.cstring(st, 'sid', E.fint('sidlen', st, 0, 1 << 20))
        sid.kind = 'heap'
        sd = E.newobj(st, 'sd', 64, 'input')

        def put(s):
            E.poke(s, req, iv(f['session'][0]), 8, Ptr(sd, iv(0)))
            E.poke(s, req, iv(f['session_id'][0]), 8, Ptr(sid, iv(0)))
            s.ghost['has'] = True
        E.poke(st, req, iv(f['session'][0]), 8, NULL)
        E.poke(st, req, iv(f['session_id'][0]), 8, NULL)
        if known:
            put(st)

        def guess(E, s, a):
            E.oblige(s, 'asks for this request', same(a[0], req))
            if 'has' in s.ghost:      # known already
                return None
            s2 = s.copy()
            put(s)
            s.ghost['asked'] = s2.ghost['asked'] = True
            return [(s, None), (s2, None)]

        def remove(E, s, a):
            E.oblige(s, 'removes its own session, once', And(same(a[0], ses), same(a[1], sid), z3.BoolVal('removed' not in s.ghost and bool(s.om(sid).alive))))
            s.ghost['removed'] = True
            return None

        def dfree(E, s, a):
            E.oblige(s, 'lets its own session go, once', And(same(a[0], sd), z3.BoolVal('dropped' not in s.ghost)))
            s.ghost['dropped'] = True
            return None
        E.contracts.update(onion_request_guess_session_id=guess, onion_sessions_remove=remove, onion_dict_free=dfree)

        def post(s, ret, known=known):
            has = 'has' in s.ghost
            E.oblige(s, 'the cookie was asked', z3.BoolVal(known or 'asked' in s.ghost))
            E.oblige(s, 'removed and let go, if there is one', z3.BoolVal(('removed' in s.ghost) == has and ('dropped' in s.ghost) == has))
            E.oblige(s, 'the request has no session', And(same(E.load(s, Ptr(req, iv(f['session'][0])), ir.PTR, None), None), same(E.load(s, Ptr(req, iv(f['session_id'][0])), ir.PTR, None), None)))
            E.oblige(s, 'the id is given back', z3.BoolVal(bool(s.om(sid).alive) != has))
        E.run(st, 'onion_request_session_free', [Ptr(req, iv(0))], post)
