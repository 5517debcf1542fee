"""Contracts of the JSON writer of dict.c: what is written, piece by piece"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.measure_terms, E.ptr_havoc, E.alive_havoc, E.auto_unroll = [], None, None, 0
    return State()


def same(p, o):
    if o is None:
        return p.off == 0 if isinstance(p, Ptr) and p.obj is None else z3.BoolVal(False)
    return p.off == 0 if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id else z3.BoolVal(False)


class Blocks:
    """blocks as the list of what was appended: text, ('quoted', string), ('json', dict), ('entries',); content None: cleared after an error"""

    def __init__(self, E):
        self.E = E
        E.contracts.update(onion_block_new=self.new, onion_block_free=self.free, onion_block_size=self.size, onion_block_clear=self.clear, onion_block_add_char=self.char, onion_block_add_str=self.str,
                           onion_block_add_data=self.data, onion_block_add_block=self.block, onion_json_quote_add=self.quote, onion_block_rewind=self.rewind, onion_dict_to_json=self.json)

    def make(self, s, *content):
        o = self.E.newobj(s, 'block', 24, 'heap')
        s.ghost[('b', o.id)] = content
        return o

    def ok(self, s, p):
        k = isinstance(p, Ptr) and p.obj is not None and ('b', p.obj.id) in s.ghost and bool(s.om(p.obj).alive)
        self.E.oblige(s, 'a block that is there', p.off == 0 if k else z3.BoolVal(False))
        return k

    def get(self, s, o):
        return s.ghost[('b', o.id)]

    def add(self, s, p, x):
        if self.ok(s, p):
            c = self.get(s, p.obj)
            if c and isinstance(c[-1], bytes) and isinstance(x, bytes):
                c = c[:-1] + (c[-1] + x,)
            else:
                c = c + (x,)
            s.ghost[('b', p.obj.id)] = c

    def new(self, E, s, a):
        return Ptr(self.make(s), iv(0))

    def free(self, E, s, a):
        if self.ok(s, a[0]):
            s.wom(a[0].obj).alive = False
        return None

    def size(self, E, s, a):
        if not self.ok(s, a[0]):
            return iv(0)
        c = self.get(s, a[0].obj)
        n = 0
        for x in c:
            n = n + (len(x) if isinstance(x, bytes) else E.fint('len', s, 0, 1 << 30))
        if any(not isinstance(x, bytes) and x[0] == 'entries' for x in c):
            s.add(n >= 5)
        return S(n) if z3.is_expr(n) else iv(n)

    def clear(self, E, s, a):
        if self.ok(s, a[0]):
            s.ghost[('b', a[0].obj.id)] = ()
        return None

    def char(self, E, s, a):
        c = S(toint(a[1]))
        if not isc(c):
            raise Unsupported('block character')
        self.add(s, a[0], bytes([cval(c) & 255]))
        return None

    def str(self, E, s, a):
        b = models.constbytes(E, s, a[1])
        if b is None:
            raise Unsupported('block string')
        self.add(s, a[0], b)
        return iv(len(b))

    def data(self, E, s, a):
        b = models.constbytes(E, s, a[1])
        n = S(toint(a[2]))
        if b is None or not isc(n) or cval(n) > len(b):
            raise Unsupported('block data')
        self.add(s, a[0], b[:cval(n)])
        return iv(cval(n))

    def quote(self, E, s, a):
        self.add(s, a[0], ('quoted', a[1].obj.id if isinstance(a[1], Ptr) and a[1].obj is not None and isc(S(a[1].off)) and cval(S(a[1].off)) == 0 else None))
        return iv(0)

    def block(self, E, s, a):
        if self.ok(s, a[1]):
            for x in self.get(s, a[1].obj):
                self.add(s, a[0], x)
        return iv(0)

    def rewind(self, E, s, a):
        if self.ok(s, a[0]):
            c, n = self.get(s, a[0].obj), S(toint(a[1]))
            if not isc(n):
                raise Unsupported('rewind')
            n = cval(n)
            if c and isinstance(c[-1], bytes) and len(c[-1]) >= n:
                t = c[-1][:len(c[-1]) - n]
                s.ghost[('b', a[0].obj.id)] = c[:-1] + ((t,) if t else ())
            else:
                s.ghost[('b', a[0].obj.id)] = c + (('rewound', n),)
        return None

    def json(self, E, s, a):
        """onion_dict_to_json of a nested dictionary, as proved by dict_to_json"""
        s2 = s.copy()
        d = a[0].obj.id if isinstance(a[0], Ptr) and a[0].obj is not None else None
        s.ghost['sub'], s2.ghost['sub'] = True, False
        return [(s, Ptr(self.make(s, ('json', d)), iv(0))), (s2, NULL)]


def blocks(s):
    return {o.id for o in s.objs.values() if o.kind == 'heap' and s.om(o).alive}


@proof('P04', 'onion_dict_json_preorder', ['dict.c'])
def json_entry(E):
    """an entry is "key":"value", or "key":{...}, both quoted; after an error nothing is written"""
    c = front.consts(['OD_DICT', 'OD_TYPE_MASK'], extra='#include <onion/dict.h>')
    for dead in (False, True):
        st = init(E)
        B = Blocks(E)
        b = B.make(st) if dead else B.make(st, b'{')
        key, val = E.cstring(st, 'key', E.fint('keylen', st, 0, 1 << 20)), E.cstring(st, 'val', E.fint('vallen', st, 0, 1 << 20))
        fl = z3.BitVec('flags', 32)
        st.add(Or(fl & c['OD_TYPE_MASK'] == 0, fl & c['OD_TYPE_MASK'] == c['OD_DICT']))       # a string or a dictionary

        def post(s, ret, dead=dead):
            got = B.get(s, b)
            E.oblige(s, 'no other block is left', z3.BoolVal(blocks(s) == {b.id}))
            sub = s.ghost.get('sub')
            if dead:
                E.oblige(s, 'nothing after an error', z3.BoolVal(got == ()))
                return
            isd = fl & c['OD_DICT'] != 0
            q = lambda o: ('quoted', o.id)
            E.oblige(s, 'a value in quotes, or a dictionary', isd if sub is not None else Not(isd))
            if sub is None:
                want = (b'{"', q(key), b'":"', q(val), b'", ')
            elif sub:
                want = (b'{"', q(key), b'":', ('json', val.id), b', ')
            else:
                want = ()
            E.oblige(s, 'writes exactly the entry', z3.BoolVal(got == want))
        E.run(st, 'onion_dict_json_preorder', [Ptr(b, iv(0)), Ptr(key, iv(0)), Ptr(val, iv(0)), fl], post)


@proof('P04', 'onion_dict_to_json', ['dict.c'])
def dict_to_json(E):
    """a dictionary is its entries between braces, none when it is empty; NULL, and nothing left, after an error"""
    f = front.offsets('struct onion_dict_t', ['root'])
    for kind in ('none', 'empty', 'some'):
        st = init(E)
        B = Blocks(E)
        d, root = E.newobj(st, 'dict', f[''][1], 'input'), E.newobj(st, 'root', 64, 'input')
        E.poke(st, d, iv(f['root'][0]), 8, Ptr(root, iv(0)) if kind == 'some' else NULL)

        def pre(E, s, a):
            E.oblige(s, 'visits this dictionary once, writing entries', And(same(a[0], root), z3.BoolVal(isinstance(a[1], Fn) and 'visited' not in s.ghost)))
            s.ghost['visited'] = True
            s2 = s.copy()
            B.add(s, a[2], ('entries', ))
            B.add(s, a[2], b', ')
            if B.ok(s2, a[2]):
                s2.ghost[('b', a[2].obj.id)] = ()
            s2.ghost['failed'] = True
            return [(s, None), (s2, None)]
        E.contracts['onion_dict_node_preorder'] = pre
        E.contracts['onion_dict_preorder'] = lambda E, s, a, d=d, root=root: pre(E, s, [Ptr(root, iv(0)) if a[0].obj is d else NULL] + list(a[1:]))

        def post(s, ret, kind=kind):
            if isinstance(ret, Ptr) and ret.obj is None:
                E.oblige(s, 'none only after an error, and nothing left', z3.BoolVal('failed' in s.ghost and not blocks(s)))
                return
            E.oblige(s, 'not after an error', z3.BoolVal('failed' not in s.ghost))
            E.oblige(s, 'the block given is all that is left', And(ret.off == 0, z3.BoolVal(blocks(s) == {ret.obj.id})))
            got = B.get(s, ret.obj)
            E.oblige(s, 'the entries between braces', z3.BoolVal(got == ((b'{', ('entries',), b'}') if kind == 'some' else (b'{}',))))
        E.run(st, 'onion_dict_to_json', [Ptr(d, iv(0)) if kind != 'none' else NULL], post)


@proof('P04', 'onion_dict_from_json_', ['dict.c'])
def dict_from_json(E):
    """reading never leaves the text; every key that is read is stored once with the value after it; what is not stored is given back"""
    c = front.consts(['OD_DUP_KEY', 'OD_DUP_VALUE', 'OD_FREE_VALUE', 'OD_DICT', 'OD_TYPE_MASK'], extra='#include <onion/dict.h>')
    st = init(E)
    n, p0 = z3.Ints('textlen start')
    st.add(n >= 0, n < (1 << 30), p0 >= 0, p0 <= n)
    text = E.cstring(st, 'text', n)
    dd = E.newobj(st, 'data', 8, 'heap')
    dd.kind = 'input'
    E.poke(st, dd, iv(0), 8, Ptr(text, p0))
    G = {}

    def num(s, k, v=0):
        G[k] = E.newobj(s, 'g_' + k, 8, 'ghost')
        put(s, k, v)

    def put(s, k, v):
        E.poke(s, G[k], iv(0), 8, v if z3.is_expr(v) else iv(v))

    def g(s, k):
        return toint(E.load(s, Ptr(G[k], iv(0)), ir.I[64], None))
    for k in ('read', 'used', 'pending', 'last'):
        num(st, k)
    for i in range(2):
        for k in ('cnt', 'pos', 'dig'):
            num(st, '%s%d' % (k, i))
    sub = E.newobj(st, 'sub', 8, 'ghost')
    bo = [E.newobj(st, 'block%d' % i, 24, 'input') for i in range(2)]
    bd = [E.newobj(st, 'bdata%d' % i, 1 << 20, 'input') for i in range(2)]
    do = E.newobj(st, 'dict', 64, 'input')
    live = lambda s, w: s.ghost.get(w) == 'live'

    def which(s, p, l, w):
        for i, o in enumerate(l):
            if isinstance(p, Ptr) and p.obj is not None and p.obj.id == o.id:
                E.oblige(s, w, And(p.off == 0, z3.BoolVal(live(s, 'block%d' % i))))
                return i
        E.oblige(s, w, z3.BoolVal(False))
        return None

    def bnew(E, s, a):
        for i in range(2):
            if 'block%d' % i not in s.ghost:
                s.ghost['block%d' % i] = 'live'
                for k in ('cnt', 'pos', 'dig'):
                    put(s, '%s%d' % (k, i), 0)
                return Ptr(bo[i], iv(0))
        raise Unsupported('more blocks')

    def bfree(E, s, a):
        i = which(s, a[0], bo, 'frees a block once')
        if i is not None:
            s.ghost['block%d' % i] = 'freed'
        return None

    def bclear(E, s, a):
        i = which(s, a[0], bo, 'a block that is there')
        if i is not None:
            put(s, 'cnt%d' % i, 0)
            put(s, 'dig%d' % i, 0)
        return None

    def bdata(E, s, a):
        i = which(s, a[0], bo, 'a block that is there')
        return Ptr(bd[i], iv(0)) if i is not None else NULL

    def bchar(E, s, a):
        i = which(s, a[0], bo, 'a block that is there')
        if i is not None:
            put(s, 'dig%d' % i, S(g(s, 'dig%d' % i) + 1))
        return None

    def unquote(E, s, a):
        i = which(s, a[0], bo, 'a block that is there')
        p = a[1]
        E.oblige(s, 'reads the text, after what was read before', And(z3.BoolVal(isinstance(p, Ptr) and p.obj is not None and p.obj.id == text.id), p.off >= g(s, 'last'), p.off <= n))
        s2 = s.copy()
        for q in (s, s2):
            put(q, 'cnt%d' % i, S(g(q, 'cnt%d' % i) + 1))
            put(q, 'pos%d' % i, p.off)
        r = E.fint('tok', s, 2)
        s.add(p.off + r <= n, E.read_byte(s, text, p.off) == 34)
        put(s, 'read', S(g(s, 'read') + 1))
        put(s, 'last', S(p.off + r))
        s2.ghost['bad'] = True
        return [(s, r), (s2, iv(-1))]

    def dnew(E, s, a):
        if 'dict' in s.ghost:
            raise Unsupported('more dictionaries')
        s.ghost['dict'] = 'live'
        return Ptr(do, iv(0))

    def dfree(E, s, a):
        if isinstance(a[0], Ptr) and a[0].obj is None:
            return None
        if a[0].obj.id == sub.id:
            E.oblige(s, 'frees a nested dictionary once', g(s, 'pending') == 1)
            put(s, 'pending', 0)
            return None
        E.oblige(s, 'frees the dictionary once', And(same(a[0], do), z3.BoolVal(live(s, 'dict'))))
        s.ghost['dict'] = 'freed'
        return None

    def dadd(E, s, a):
        fl = tobv(a[3], 32)
        E.oblige(s, 'into the dictionary', And(same(a[0], do), z3.BoolVal(live(s, 'dict'))))
        k = which(s, a[1], bd, 'under the key read')
        if k is None:
            return None
        E.oblige(s, 'exactly the key read', And(g(s, 'cnt%d' % k) == 1, g(s, 'dig%d' % k) == 0, fl & c['OD_DUP_KEY'] == c['OD_DUP_KEY']))
        if isinstance(a[2], Ptr) and a[2].obj is not None and a[2].obj.id == sub.id:
            E.oblige(s, 'the nested dictionary, whose owner it is', And(g(s, 'pending') == 1, fl & c['OD_TYPE_MASK'] == c['OD_DICT'], fl & c['OD_FREE_VALUE'] != 0, fl & 0x20 == 0))
            put(s, 'pending', 0)
            put(s, 'used', S(g(s, 'used') + 1))
            return None
        v = which(s, a[2], bd, 'the value read')
        if v is None:
            return None
        E.oblige(s, 'the value after the key, and only that', And(z3.BoolVal(v != k), Or(And(g(s, 'cnt%d' % v) == 1, g(s, 'dig%d' % v) == 0, g(s, 'pos%d' % v) > g(s, 'pos%d' % k)), And(g(s, 'cnt%d' % v) == 0, g(s, 'dig%d' % v) >= 1)),
                                                             fl & c['OD_DUP_VALUE'] == c['OD_DUP_VALUE'], fl & c['OD_TYPE_MASK'] == 0))
        put(s, 'used', S(g(s, 'used') + 1 + g(s, 'cnt%d' % v)))
        return None

    def nested(E, s, a):
        E.oblige(s, 'goes on in the same text', same(a[0], dd))
        p = E.load(s, Ptr(dd, iv(0)), ir.PTR, None)
        E.oblige(s, 'where a dictionary opens, after what was read before', And(z3.BoolVal(isinstance(p, Ptr) and p.obj is not None and p.obj.id == text.id), p.off >= g(s, 'last'), p.off <= n, E.read_byte(s, text, p.off) == 123))
        s2 = s.copy()
        q = E.fint('after', s, 0)
        s.add(q > p.off, q <= n)
        E.poke(s, dd, iv(0), 8, Ptr(text, q))
        E.oblige(s, 'no other nested one waits', g(s, 'pending') == 0)
        put(s, 'pending', 1)
        put(s, 'last', q)
        s2.ghost['bad'] = True
        return [(s, Ptr(sub, iv(0))), (s2, NULL)]
    E.contracts.update(onion_block_new=bnew, onion_block_free=bfree, onion_block_clear=bclear, onion_block_data=bdata, onion_block_add_char=bchar, onion_json_unquote_add=unquote, onion_dict_new=dnew,
                       onion_dict_free=dfree, onion_dict_add=dadd, onion_dict_from_json_=nested)

    def cands(ctx):
        out = []
        ks = ['pending'] + ['%s%d' % (k, i) for i in range(2) for k in ('cnt', 'dig')]
        for k in ks:
            for v in (0, 1):
                out.append(('%s is %d' % (k, v), lambda c_, k=k, v=v: g(c_.st, k) == v))
        for i in range(2):
            out.append(('dig%d' % i, lambda c_, i=i: g(c_.st, 'dig%d' % i) >= 0))
            out.append(('some dig%d' % i, lambda c_, i=i: g(c_.st, 'dig%d' % i) >= 1))
            out.append(('pos%d' % i, lambda c_, i=i: g(c_.st, 'pos%d' % i) < g(c_.st, 'last')))
        for d in (0, 1):
            out.append(('all used %d' % d, lambda c_, d=d: g(c_.st, 'read') == g(c_.st, 'used') + d))
        out.append(('last', lambda c_: And(g(c_.st, 'last') >= 0, g(c_.st, 'last') <= n)))
        for m, v in ctx.phis.items():
            if isinstance(v, Ptr) and v.obj is not None and v.obj.id == text.id:
                o = lambda c_, m=m: c_.phis[m].off
                out.append(('in ' + m, lambda c_, o=o: And(o(c_) >= p0, o(c_) <= n)))
                out.append(('past the first ' + m, lambda c_, o=o: o(c_) > p0))
                out.append(('past ' + m, lambda c_, o=o: o(c_) >= g(c_.st, 'last')))
                for i in range(2):
                    out.append(('past key%d %s' % (i, m), lambda c_, o=o, i=i: o(c_) > g(c_.st, 'pos%d' % i)))
                out.append(('digit seen ' + m, lambda c_, o=o: Or(*[g(c_.st, 'dig%d' % i) >= 1 for i in range(2)] + [And(z3.UGE(E.read_byte(c_.st, text, o(c_)), bv(48, 8)), z3.ULE(E.read_byte(c_.st, text, o(c_)), bv(57, 8)))])))
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        E.oblige(s, 'no block is left, no nested dictionary lost', And(z3.BoolVal(not live(s, 'block0') and not live(s, 'block1')), g(s, 'pending') == 0))
        if isinstance(ret, Ptr) and ret.obj is None:
            E.oblige(s, 'nor the dictionary', z3.BoolVal(not live(s, 'dict')))
            return
        E.oblige(s, 'the dictionary read', And(same(ret, do), z3.BoolVal(live(s, 'dict') and 'bad' not in s.ghost)))
        E.oblige(s, 'everything read is stored', g(s, 'read') == g(s, 'used'))
        p = E.load(s, Ptr(dd, iv(0)), ir.PTR, None)
        ok = isinstance(p, Ptr) and p.obj is not None and p.obj.id == text.id
        E.oblige(s, 'goes on right after the closing brace', And(p.off > p0, p.off <= n, p.off > g(s, 'last'), E.read_byte(s, text, S(p.off - 1)) == 125) if ok else z3.BoolVal(False))
    E.run(st, 'onion_dict_from_json_', [Ptr(dd, iv(0))], post)


@proof('P04', 'onion_dict_from_json', ['dict.c'])
def json_whole(E):
    """the whole text is one dictionary and blanks: with anything after it there is none, and what was read is given back"""
    st = init(E)
    n, k = z3.Ints('textlen other')
    st.add(n >= 0, n < (1 << 30))
    text = E.cstring(st, 'text', n)
    do = E.newobj(st, 'dict', 64, 'input')
    W = {}
    blank = lambda b: Or(*[b == x for x in (9, 10, 13, 32)])

    def read(E, s, a):
        p = E.load(s, a[0], ir.PTR, None)
        E.oblige(s, 'reads the text from where it starts, once', And(same(p, text), z3.BoolVal('read' not in s.ghost)))
        W['at'] = a[0]
        s.ghost['read'] = True
        q = E.fint('after', s, 0)
        s.add(q <= n)
        E.poke(s, a[0].obj, a[0].off, 8, Ptr(text, q))
        W['q'] = q
        s2 = s.copy()
        s.add(q >= 1, E.read_byte(s, text, S(q - 1)) == 125)
        s.ghost['dict'] = 'live'
        s3 = s.copy()
        s3.add(k >= q, k < n, Not(blank(E.read_byte(s3, text, k))))
        s3.ghost['more'] = True
        s.ghost['more'] = False
        x = z3.Int('x')
        s.add(z3.ForAll([x], Implies(And(x >= q, x < n), blank(E.read_byte(s, text, x)))))
        return [(s, Ptr(do, iv(0))), (s3, Ptr(do, iv(0))), (s2, NULL)]

    def dfree(E, s, a):
        if isinstance(a[0], Ptr) and a[0].obj is None:
            return None
        E.oblige(s, 'frees the dictionary once', And(same(a[0], do), z3.BoolVal(s.ghost.get('dict') == 'live')))
        s.ghost['dict'] = 'freed'
        return None
    E.contracts.update(onion_dict_from_json_=read, onion_dict_free=dfree)

    def cands(ctx):
        out = []

        def add(m, o):
            out.append(('in ' + m, lambda c_: And(o(c_) >= W['q'], o(c_) <= n)))
            out.append(('before what is more ' + m, lambda c_: o(c_) <= k if c_.st.ghost.get('more') else z3.BoolVal(True)))
        if 'at' in W:
            p = E.load(ctx.st, W['at'], ir.PTR, None)
            if isinstance(p, Ptr) and p.obj is not None and p.obj.id == text.id:
                add('kept', lambda c_: E.load(c_.st, W['at'], ir.PTR, None).off)
            for m, v in ctx.phis.items():
                if isinstance(v, Ptr) and v.obj is not None and v.obj.id == text.id:
                    add(m, lambda c_, m=m: c_.phis[m].off)
        return out
    E.cand_hooks = [cands]

    def post(s, ret):
        if isinstance(ret, Ptr) and ret.obj is None:
            E.oblige(s, 'none: what was read is given back', z3.BoolVal(s.ghost.get('dict') != 'live'))
            E.oblige(s, 'and only if there is no dictionary, or more after it', z3.BoolVal(s.ghost.get('more') is not False))
            return
        E.oblige(s, 'the dictionary read', And(same(ret, do), z3.BoolVal(s.ghost.get('dict') == 'live')))
        E.oblige(s, 'nothing but blanks after it', z3.BoolVal(s.ghost.get('more') is False))
    E.run(st, 'onion_dict_from_json', [Ptr(text, iv(0))], post)
    E.run(st.copy(), 'onion_dict_from_json', [NULL], lambda s, ret: E.oblige(s, 'none of none', z3.BoolVal(isinstance(ret, Ptr) and ret.obj is None)))
