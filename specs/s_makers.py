"""Contracts of the functions that make handlers (handler.c, handlers/path.c, handlers/static.c, url.c)"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def same(p, o):
    if o is None:
        return p.off == 0 if isinstance(p, Ptr) and p.obj is None else z3.BoolVal(False)
    return p.off == 0 if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


def heaps(s):
    return {o.id for o in s.objs.values() if o.kind == 'heap' and s.om(o).alive}


def handler_new(E, s, a):
    """as proved by handler_new_: takes the data over"""
    E.oblige(s, 'one handler, with something to call and to free with', z3.BoolVal('handler' not in s.ghost and isinstance(a[0], Fn) and isinstance(a[2], Fn)))
    s.ghost['handler'] = E.newobj(s, 'handler', 32, 'input')
    s.ghost['priv'] = a[1]
    return Ptr(s.ghost['handler'], iv(0))


@proof('P21', 'onion_handler_new', ['handler.c'])
def handler_new_(E):
    """a handler of its own with exactly that function, data and way to free it, and no next"""
    st = init(E)
    f = front.offsets('struct onion_handler_t', ['handler', 'priv_data', 'priv_data_free', 'next'])
    o = {n: E.newobj(st, n, 8, 'input') for n in ('handler', 'priv_data', 'priv_data_free')}

    def post(s, ret):
        ok = isinstance(ret, Ptr) and ret.obj is not None and heaps(s) == {ret.obj.id}
        E.oblige(s, 'a handler of its own', And(z3.BoolVal(ok), ret.off == 0, ret.obj.size >= f[''][1]) if ok else z3.BoolVal(False))
        if ok:
            for n in ('handler', 'priv_data', 'priv_data_free', 'next'):
                E.oblige(s, 'with its ' + n, same(E.load(s, Ptr(ret.obj, iv(f[n][0])), ir.PTR, None), o.get(n)))
    E.run(st, 'onion_handler_new', [Ptr(o[n], iv(0)) for n in ('handler', 'priv_data', 'priv_data_free')], post)


@proof('P21', 'onion_handler_static', ['handlers/static.c'])
def static_new(E):
    """keeps the code and a copy of the text"""
    st = init(E)
    f = front.offsets('struct onion_handler_static_data_t', ['code', 'data'], header='handlers/static.c')
    n, x, code = z3.Int('textlen'), z3.Int('x'), z3.BitVec('code', 32)
    st.add(n >= 0, n < (1 << 20), x >= 0, x <= n)
    E.skolem_list = [(None, x)]
    text = E.cstring(st, 'text', n)
    E.contracts['onion_handler_new'] = handler_new

    def post(s, ret):
        p = s.ghost.get('priv')
        E.oblige(s, 'the handler made', z3.BoolVal(p is not None and isinstance(ret, Ptr) and ret.obj is s.ghost.get('handler')))
        if p is None:
            return
        d = E.load(s, Ptr(p.obj, iv(f['data'][0])), ir.PTR, None)
        E.oblige(s, 'with its code', tobv(E.load(s, Ptr(p.obj, iv(f['code'][0])), ir.I[32], None), 32) == code)
        E.oblige(s, 'and its own text', And(z3.BoolVal(d.obj is not None and heaps(s) == {p.obj.id, d.obj.id}), d.off == 0))
        E.pointwise(s, d.obj, x)
        E.oblige(s, 'the text given', E.read_byte(s, d.obj, x) == E.read_byte(s, text, x))
    E.run(st, 'onion_handler_static', [Ptr(text, iv(0)), code], post)


@proof('P21', 'onion_handler_path', ['handlers/path.c'])
def path_new(E):
    """compiles exactly the expression given (none: one that always matches) and keeps the handler inside, or frees it when there is no such expression"""
    f = front.offsets('struct onion_handler_path_data_t', ['path', 'inside'], header='handlers/path.c')
    for given in (True, False):
        st = init(E)
        expr = E.cstring(st, 'expr', E.fint('exprlen', st, 0, 1 << 20))
        inside = E.newobj(st, 'inside', 32, 'input')

        def regcomp(E, s, a, given=given):
            E.oblige(s, 'compiles the expression given', same(a[1], expr) if given else E.read_byte(s, a[1].obj, a[1].off) == 0)
            E.access(s, a[0], iv(f['path'][1]), True, None)
            E.oblige(s, 'once', z3.BoolVal('re' not in s.ghost))
            s2 = s.copy()
            s.ghost['re'] = s2.ghost['re'] = a[0].obj.id
            s2.ghost['bad'] = True
            return [(s, iv(0)), (s2, E.fint('err', s2, 1, 100))]

        def regfree(E, s, a):
            s.ghost['refreed'] = True
            return None

        def hfree(E, s, a):
            E.oblige(s, 'frees the handler inside only when refused, once', And(same(a[0], inside), z3.BoolVal('bad' in s.ghost and 'infreed' not in s.ghost)))
            s.ghost['infreed'] = True
            return iv(1)

        def regerror(E, s, a):
            if not E.access(s, a[2], toint(a[3]), True, None):
                return iv(0)
            b = BMBase('err')
            E.store_range(s, a[2].obj, a[2].off, toint(a[3]), lambda i: b.read(i))
            s.add(E.read_byte(s, a[2].obj, S(a[2].off + toint(a[3]) - 1)) == 0)
            s.wom(a[2].obj).nuls = (S(a[2].off + toint(a[3]) - 1),)
            return E.fint('n', s, 1, 100)
        E.contracts.update(onion_handler_new=handler_new, regcomp=regcomp, regfree=regfree, onion_handler_free=hfree, regerror=regerror)

        def post(s, ret):
            if isinstance(ret, Ptr) and ret.obj is None:
                E.oblige(s, 'refused only if it is no expression', z3.BoolVal('bad' in s.ghost and 'handler' not in s.ghost))
                E.oblige(s, 'and then nothing is kept', z3.BoolVal(not heaps(s) and 'infreed' in s.ghost))
                return
            p = s.ghost.get('priv')
            E.oblige(s, 'the handler made', z3.BoolVal(p is not None and ret.obj is s.ghost.get('handler') and 'bad' not in s.ghost))
            if p is not None:
                E.oblige(s, 'with its expression and the handler inside', And(same(E.load(s, Ptr(p.obj, iv(f['inside'][0])), ir.PTR, None), inside), z3.BoolVal(s.ghost.get('re') == p.obj.id and heaps(s) == {p.obj.id})))
        E.run(st, 'onion_handler_path', [Ptr(expr, iv(0)) if given else NULL, Ptr(inside, iv(0))], post)


@proof('P21', 'onion_url_new', ['url.c'])
def url_new(E):
    """starts with no expressions"""
    st = init(E)
    E.contracts['onion_handler_new'] = handler_new

    def post(s, ret):
        p = s.ghost.get('priv')
        E.oblige(s, 'the handler made', z3.BoolVal(p is not None and isinstance(ret, Ptr) and ret.obj is s.ghost.get('handler')))
        if p is not None:
            E.oblige(s, 'with an empty list', And(p.off == 0, same(E.load(s, p, ir.PTR, None), None), z3.BoolVal(heaps(s) == {p.obj.id})))
    E.run(st, 'onion_url_new', [], post)
