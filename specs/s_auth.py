"""Contracts of handlers/auth_pam.c: what is inside runs only for who PAM lets in"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def at(p, o, off=0):
    return p.off == off if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


def heaps(s):
    return {o.id for o in s.objs.values() if o.kind == 'heap' and s.om(o).alive}


FIELDS = ['realm', 'pamname', 'inside']


def data(E, st, kind):
    f = front.offsets('struct onion_handler_auth_pam_data_t', FIELDS, header='handlers/auth_pam.c')
    d = E.newobj(st, 'data', f[''][1], kind)
    rn, sn = z3.Ints('realmlen servicelen')
    st.add(rn >= 0, rn < (1 << 20), sn >= 0, sn < (1 << 20))
    o = {'realm': E.cstring(st, 'realm', rn), 'pamname': E.cstring(st, 'service', sn), 'inside': E.newobj(st, 'inside', 32, 'input')}
    for k in FIELDS:
        if kind == 'heap':
            o[k].kind = 'heap' if k != 'inside' else 'input'
        E.poke(st, d, iv(f[k][0]), 8, Ptr(o[k], iv(0)))
    return f, d, o, rn


@proof('P24', 'onion_handler_auth_pam_handler', ['handlers/auth_pam.c'])
def auth_handler(E):
    """the handler inside gets the request only if the session is logged in or PAM accepts the user and the password sent (split at the first colon), which the session then records; anybody else gets 401 and the realm"""
    c = front.consts(['OD_DUP_VALUE', 'OD_REPLACE', 'OD_FREE_VALUE', 'OD_DICT', 'OCS_PROCESSED', 'HTTP_UNAUTHORIZED'], 'handlers/auth_pam.c')
    st = init(E)
    f, d, o, rn = data(E, st, 'input')
    req = E.newobj(st, 'req', 8, 'input')
    res = E.newobj(st, 'res', 8, 'input')
    ses = E.newobj(st, 'session', 8, 'input')
    hn, dn, x, q, y = z3.Ints('headerlen decodedlen x q y')
    st.add(hn >= 0, hn < (1 << 20), dn >= 0, dn < (1 << 20), x >= 0, q >= 0, y >= 0, y <= rn)
    head = E.cstring(st, 'authorization', hn)
    raw = z3.Function('sent', z3.IntSort(), z3.BitVecSort(8))
    sent = lambda i: If(raw(i) == 0, bv(1, 8), raw(i))      # what the credentials decode to, up to its NUL
    E.skolem_list = [('decoded', x), ('decoded', q), ('realm', y), (None, S(y + 13))]
    yes = E.cstring(st, 'loggedin', E.fint('loggedinlen', st, 0, 1 << 20))

    def get_session(E, s, a):
        k = models.constbytes(E, s, a[1])
        s2 = s.copy()
        if k == b'pam_logged_in' and 'flag' not in s.ghost:
            s.ghost['flag'], s2.ghost['flag'] = True, False
            return [(s, Ptr(yes, iv(0))), (s2, NULL)]
        if k == b'pam_logged_in':
            return Ptr(yes, iv(0)) if s.ghost['flag'] else NULL
        return [(s, Ptr(E.cstring(s, 'other', E.fint('otherlen', s, 0, 1 << 20)), iv(0))), (s2, NULL)]

    def get(E, s, a):
        if at(a[0], ses) is not False and isinstance(a[0], Ptr) and a[0].obj is ses:
            return get_session(E, s, a)
        raise Unsupported('another dict')

    def header(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'?').lower()
        s2 = s.copy()
        if k != b'authorization':
            return [(s, Ptr(E.cstring(s, 'other', E.fint('otherlen', s, 0, 1 << 20)), iv(0))), (s2, NULL)]
        if 'head' in s.ghost:
            return Ptr(head, iv(0)) if s.ghost['head'] else NULL
        s.ghost['head'], s2.ghost['head'] = True, False
        return [(s, Ptr(head, iv(0))), (s2, NULL)]

    def decode(E, s, a):
        p = a[0]
        here = isinstance(p, Ptr) and p.obj is head
        E.oblige(s, 'the credentials of the header are decoded', And(p.off >= 6, p.off <= hn, models.str_eq_const(E, s, Ptr(head, iv(0)), b'Basic ', 6), Implies(And(q >= 6, q < p.off), E.read_byte(s, head, q) == 32)) if here else z3.BoolVal(False))
        if not E.access(s, p, iv(1), False, None):
            return NULL
        s.ghost['tried'] = True
        s2 = s.copy()
        w = E.newobj(s, 'decoded', S(dn + 1), 'heap')
        E.store_range(s, w, iv(0), S(dn + 1), lambda i: If(i < dn, sent(i), bv(0, 8)))
        s.wom(w).nuls = (dn,)
        s.ghost['w'] = w
        if isinstance(a[1], Ptr) and a[1].obj is not None:
            E.store(s, a[1], ir.I[32], dn, None)
        return [(s, Ptr(w, iv(0))), (s2, NULL)]

    def start(E, s, a):
        w = s.ghost.get('w')
        svc, user, conv, h = a
        E.oblige(s, 'PAM is asked once, for the service of this handler', And(at(svc, o['pamname']), z3.BoolVal('pam' not in s.ghost)))
        s.ghost['pam'] = 'start'
        E.oblige(s, 'for the user that was sent', at(user, w) if w is not None else z3.BoolVal(False))
        pw = E.load(s, Ptr(conv.obj, S(conv.off + 8)), ir.PTR, None)
        fn = E.load(s, conv, ir.PTR, None)
        E.oblige(s, 'with somebody to ask for the password', z3.BoolVal(isinstance(fn, Fn)))
        ok = w is not None and isinstance(pw, Ptr) and pw.obj is not None and pw.obj.id == w.id
        E.oblige(s, 'which is part of what was sent', z3.BoolVal(ok))
        if ok:
            po = pw.off
            E.pointwise(s, w, x)
            E.oblige(s, 'the password follows a colon', And(po >= 1, po <= dn, sent(po - 1) == 58))
            E.oblige(s, 'the name ends there', E.read_byte(s, w, S(po - 1)) == 0)
            E.oblige(s, 'the first colon', Implies(x < po - 1, And(sent(x) != 58, sent(x) != 0, E.read_byte(s, w, x) == sent(x))))
            E.oblige(s, 'the password is whole', Implies(And(x >= po, x < dn), E.read_byte(s, w, x) == sent(x)))
        s2 = s.copy()
        hd = E.newobj(s, 'pamhandle', 8, 'input')
        E.store(s, h, ir.PTR, Ptr(hd, iv(0)), None)
        s.ghost['pam'], s.ghost['h'] = 'started', hd
        s2.ghost['pam'] = 'no'
        r = E.i32(s2, 'pamerr')
        s2.add(r > 0, r < 100)
        return [(s, iv(0)), (s2, r)]

    def step(n, before, after):
        def g(E, s, a):
            E.oblige(s, '%s on the open handle' % n, at(a[0], s.ghost['h']) if 'h' in s.ghost else z3.BoolVal(False))
            s2 = s.copy()
            s.ghost[n] = True
            s2.ghost[n] = False
            r = E.i32(s2, 'pamerr')
            s2.add(r > 0, r < 100)
            return [(s, iv(0)), (s2, r)]
        return g

    def end(E, s, a):
        if 'h' in s.ghost:
            E.oblige(s, 'the handle is closed once', And(at(a[0], s.ghost['h']), z3.BoolVal('ended' not in s.ghost)))
            s.ghost['ended'] = True
        r = E.i32(s, 'endret')
        s.add(r >= 0, r < 100)
        return r

    def allowed(s):
        return bool(s.ghost.get('flag')) or (s.ghost.get('pam') == 'started' and s.ghost.get('auth') is True and s.ghost.get('acct') is True)

    def add(E, s, a):
        k = models.constbytes(E, s, a[1])
        w = s.ghost.get('w')
        fl = tobv(a[3], 32)
        E.oblige(s, 'the session is changed only after PAM accepted', And(at(a[0], ses), z3.BoolVal(allowed(s))))
        v = a[2]
        mine = isinstance(v, Ptr) and w is not None and v.obj is not None and v.obj.id == w.id
        if k in (b'username', b'pam_logged_in'):
            E.oblige(s, 'it records the user, a copy of its own, and only one', And(at(v, w), z3.BoolVal(s.om(w).alive), fl & c['OD_DUP_VALUE'] == c['OD_DUP_VALUE'], fl & c['OD_REPLACE'] == c['OD_REPLACE'], fl & c['OD_DICT'] == 0) if mine else z3.BoolVal(False))
            s.ghost[k.decode()] = True
        return None

    def handle(E, s, a):
        E.oblige(s, 'the handler inside runs only for who is let in', z3.BoolVal(allowed(s)))
        E.oblige(s, 'once, with this request and response', And(at(a[0], o['inside']), at(a[1], req), at(a[2], res), z3.BoolVal('ret' not in s.ghost)))
        s.ghost['ret'] = r = E.i32(s, 'inner')
        return r

    def set_header(E, s, a):
        k = (models.constbytes(E, s, a[1]) or b'?').lower()
        if k == b'www-authenticate':
            p = a[2]
            L = models.cstrlen(E, s, p)
            if L is not None:
                E.pointwise(s, p.obj, S(p.off + y + 13))
                pre = And(*[E.read_byte(s, p.obj, S(p.off + i)) == ch for i, ch in enumerate(b'Basic realm="')])
                E.oblige(s, 'the realm is told', And(L == rn + 14, pre, E.read_byte(s, p.obj, S(p.off + y + 13)) == If(y == rn, bv(34, 8), E.read_byte(s, o['realm'], y))))
            s.ghost['told'] = True
        return None

    def set_code(E, s, a):
        s.ghost['code'] = toint(a[1])
        return None

    def set_length(E, s, a):
        s.ghost['length'] = toint(a[1])
        return None

    def write(E, s, a):
        n = toint(a[2])
        E.access(s, a[1], n, False, None)
        E.oblige(s, 'the refusal is as long as announced', Or(z3.BoolVal('length' not in s.ghost), n == s.ghost.get('length', n)))
        return n

    def write0(E, s, a):
        n = models.cstrlen(E, s, a[1])
        return write(E, s, [a[0], a[1], n]) if n is not None else iv(0)
    nop = lambda E, s, a: None
    E.contracts.update(onion_request_get_session=get_session, onion_dict_get=get, onion_request_get_header=header, onion_base64_decode=decode, pam_start=start,
                       pam_authenticate=step('auth', 'started', 'auth'), pam_acct_mgmt=step('acct', 'auth', 'acct'), pam_end=end, onion_request_get_session_dict=lambda E, s, a: Ptr(ses, iv(0)), onion_dict_lock_write=nop, onion_dict_lock_read=nop,
                       onion_dict_unlock=nop, onion_dict_add=add, onion_handler_handle=handle, onion_response_set_header=set_header, onion_response_set_code=set_code,
                       onion_response_set_length=set_length, onion_response_write=write, onion_response_write0=write0)
    E.contracts['pam_strerror'] = models.MODELS['strerror']

    def cands(ctx):
        w = ctx.st.ghost.get('w')
        out = []
        for m, v in ctx.phis.items():
            if w is None:
                continue
            cur = (lambda c_, m=m: S(c_.phis[m].off)) if isinstance(v, Ptr) else (lambda c_, m=m: toint(c_.phis[m]))
            out += [('name ' + m, lambda c_, cur=cur: Implies(x < cur(c_), And(sent(x) != 58, sent(x) != 0))),
                    ('no colon ' + m, lambda c_, cur=cur: Implies(q < cur(c_), sent(q) != 58)),
                    ('within ' + m, lambda c_, cur=cur: And(cur(c_) >= 0, cur(c_) <= dn))]
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        let = allowed(s)
        E.oblige(s, 'who is let in gets the answer of the handler inside', z3.BoolVal(('ret' in s.ghost) == let))
        E.oblige(s, 'what PAM opened is closed', z3.BoolVal('h' not in s.ghost or 'ended' in s.ghost))
        E.oblige(s, 'nothing is left behind', z3.BoolVal(not heaps(s)))
        if let:
            E.oblige(s, 'which is returned', toint(ret) == s.ghost.get('ret', iv(-999)))
            E.oblige(s, 'a login is remembered in the session', z3.BoolVal(bool(s.ghost.get('flag')) or ('username' in s.ghost and 'pam_logged_in' in s.ghost)))
        else:
            if 'w' in s.ghost and 'pam' not in s.ghost:
                E.oblige(s, 'a user and a password are always tried', Implies(q < dn, sent(q) != 58))
            if s.ghost.get('head') and 'tried' not in s.ghost:
                E.oblige(s, 'Basic credentials are always tried', Not(models.str_eq_const(E, s, Ptr(head, iv(0)), b'Basic ', 6)))
            E.oblige(s, 'the session and the header are looked at', z3.BoolVal('flag' in s.ghost and 'head' in s.ghost))
            E.oblige(s, 'everybody else is refused', And(toint(ret) == c['OCS_PROCESSED'], z3.BoolVal('told' in s.ghost), s.ghost.get('code', iv(0)) == c['HTTP_UNAUTHORIZED']))
    E.run(st, 'onion_handler_auth_pam_handler', [Ptr(d, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)


@proof('P24', 'onion_handler_auth_pam', ['handlers/auth_pam.c'])
def auth_new(E):
    """keeps the handler inside and copies of the realm and the service"""
    st = init(E)
    f = front.offsets('struct onion_handler_auth_pam_data_t', FIELDS, header='handlers/auth_pam.c')
    n, x = {'realm': z3.Int('realmlen'), 'pamname': z3.Int('servicelen')}, z3.Int('x')
    st.add(x >= 0, *[And(v >= 0, v < (1 << 20)) for v in n.values()])
    E.skolem_list = [(None, x)]
    t = {k: E.cstring(st, k, v) for k, v in n.items()}
    ins = E.newobj(st, 'inside', 32, 'input')

    def handler_new(E, s, a):
        """as proved by handler_new_: takes the data over"""
        E.oblige(s, 'one handler, with something to call and to free with', z3.BoolVal('handler' not in s.ghost and isinstance(a[0], Fn) and isinstance(a[2], Fn)))
        s.ghost['handler'] = E.newobj(s, 'handler', 32, 'input')
        s.ghost['priv'] = a[1]
        return Ptr(s.ghost['handler'], iv(0))
    E.contracts['onion_handler_new'] = handler_new

    def post(s, ret):
        p = s.ghost.get('priv')
        E.oblige(s, 'the handler made', at(ret, s.ghost['handler']) if p is not None else z3.BoolVal(False))
        if p is None:
            return
        E.oblige(s, 'with the handler inside', at(E.load(s, Ptr(p.obj, iv(f['inside'][0])), ir.PTR, None), ins))
        own = {p.obj.id}
        for k in t:
            q = E.load(s, Ptr(p.obj, iv(f[k][0])), ir.PTR, None)
            ok = isinstance(q, Ptr) and q.obj is not None and q.obj.kind == 'heap' and q.obj.id not in own
            E.oblige(s, 'its own ' + k, And(q.off == 0) if ok else z3.BoolVal(False))
            if ok:
                own.add(q.obj.id)
                E.pointwise(s, q.obj, x)
                E.oblige(s, 'the ' + k, Implies(x <= n[k], E.read_byte(s, q.obj, x) == E.read_byte(s, t[k], x)))
        E.oblige(s, 'and nothing more', z3.BoolVal(heaps(s) == own))
    E.run(st, 'onion_handler_auth_pam', [Ptr(t['realm'], iv(0)), Ptr(t['pamname'], iv(0)), Ptr(ins, iv(0))], post)


@proof('P24', 'onion_handler_auth_pam_delete', ['handlers/auth_pam.c'])
def auth_delete(E):
    """frees what the handler owns and the handler inside, once"""
    st = init(E)
    f, d, o, rn = data(E, st, 'heap')

    def hfree(E, s, a):
        E.oblige(s, 'the handler inside is freed once', And(at(a[0], o['inside']), z3.BoolVal('in' not in s.ghost)))
        s.ghost['in'] = True
        return E.i32(s, 'n')
    E.contracts['onion_handler_free'] = hfree

    def post(s, ret):
        E.oblige(s, 'everything was freed', z3.BoolVal(not heaps(s) and 'in' in s.ghost))
    E.run(st, 'onion_handler_auth_pam_delete', [Ptr(d, iv(0))], post)
