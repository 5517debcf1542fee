"""Contracts of src/onion/block.c: a block is an append-only byte sequence"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
MAXB = 1 << 29


def fields():
    f = front.offsets('struct onion_block_t', ['data', 'size', 'maxsize'])
    return f


class Blk:
    """a block in an arbitrary state satisfying the representation invariant"""

    def __init__(self, E, st, name='bl'):
        f = fields()
        self.E, self.f = E, f
        self.n, self.m = z3.Int(name + '_size'), z3.Int(name + '_max')
        st.add(self.n >= 0, self.n <= self.m, self.m >= 16, self.m <= MAXB)
        cap = z3.Int(name + '_cap')
        st.add(cap >= self.m, cap <= 2 * MAXB)
        self.data = E.newobj(st, name + '_data', cap, 'heap')
        self.o = E.newobj(st, name, f[''][1], 'heap')
        E.poke(st, self.o, iv(f['data'][0]), 8, Ptr(self.data, iv(0)))
        E.poke(st, self.o, iv(f['size'][0]), f['size'][1], self.n)
        E.poke(st, self.o, iv(f['maxsize'][0]), f['maxsize'][1], self.m)
        self.old = st.om(self.data).bm

    def p(self):
        return Ptr(self.o, iv(0))

    def now(self, st, o=None):
        E, f = self.E, self.f
        o = o or self.o
        return (E.load(st, Ptr(o, iv(f['data'][0])), ir.PTR, None), E.load(st, Ptr(o, iv(f['size'][0])), ir.I[32], None),
                E.load(st, Ptr(o, iv(f['maxsize'][0])), ir.I[32], None))

    def inv(self, st, o=None):
        d, n, m = self.now(st, o)
        self.E.oblige(st, 'representation invariant: buffer is live, owned and size<=maxsize<=allocated', And(
            z3.BoolVal(d.obj is not None and d.obj.kind == 'heap' and st.om(d.obj).alive), d.off == 0, n >= 0, n <= m, m >= 16,
            (d.obj.size if d.obj is not None else iv(0)) >= m))
        return d, n, m


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds = [], [], [], []
    return State()


@proof('P06', 'onion_block_new', ['block.c'])
def block_new(E):
    st = init(E)
    b = Blk(E, State())

    def post(st, ret):
        E.oblige(st, 'fresh block', ret.obj is not None and ret.obj.kind == 'heap')
        d, n, m = b.inv(st, ret.obj)
        E.oblige(st, 'empty', n == 0)
    E.run(st, 'onion_block_new', [], post)


@proof('P06', 'onion_block_free', ['block.c'])
def block_free(E):
    st = init(E)
    b = Blk(E, st)

    def post(st, ret):
        E.oblige(st, 'both allocations released', not st.om(b.o).alive and not st.om(b.data).alive)
    E.run(st, 'onion_block_free', [b.p()], post)


@proof('P06', 'onion_block_add_char', ['block.c'])
def block_add_char(E):
    st = init(E)
    b = Blk(E, st)
    k = z3.Int('k')
    st.add(k >= 0, k < b.n)
    c = z3.BitVec('c', 8)

    def post(st, ret):
        d, n, m = b.inv(st)
        E.oblige(st, 'one byte longer', n == b.n + 1)
        if d.obj is None:
            return
        E.oblige(st, 'previous bytes kept', E.read_byte(st, d.obj, k) == b.old.read(k))
        E.oblige(st, 'new byte appended', E.read_byte(st, d.obj, b.n) == c)
        E.oblige(st, 'a replaced buffer is released', d.obj is b.data or not st.om(b.data).alive)
    E.run(st, 'onion_block_add_char', [b.p(), c], post)


def add_data_post(E, st, b, k, j, l, src, extra=0):
    d, n, m = b.inv(st)
    E.oblige(st, 'longer by exactly the data', n == b.n + l)
    if d.obj is None:
        return
    E.oblige(st, 'previous bytes kept', Implies(k < b.n, E.read_byte(st, d.obj, k) == b.old.read(k)))
    E.oblige(st, 'data appended byte for byte', Implies(j < l, E.read_byte(st, d.obj, b.n + j) == src(j)))
    E.oblige(st, 'a replaced buffer is released', d.obj is b.data or not st.om(b.data).alive)
    return d


@proof('P06', 'onion_block_add_data', ['block.c'])
def block_add_data(E):
    st = init(E)
    b = Blk(E, st)
    k, j, l = z3.Ints('k j l')
    st.add(k >= 0, j >= 0, l >= 0, l <= MAXB)
    o = E.newobj(st, 'data', l, 'input', const=True)
    src = st.om(o).bm

    def post(st, ret):
        add_data_post(E, st, b, k, j, l, src.read)
    E.run(st, 'onion_block_add_data', [b.p(), Ptr(o, iv(0)), l], post)


@proof('P06', 'onion_block_add_data', ['block.c'])
def block_add_own_data(E):
    """appending a part of the block itself"""
    st = init(E)
    b = Blk(E, st)
    k, j, l, off = z3.Ints('k j l off')
    st.add(k >= 0, j >= 0, l >= 0, off >= 0, off + l <= b.n)

    def post(st, ret):
        add_data_post(E, st, b, k, j, l, lambda i: b.old.read(off + i))
    E.run(st, 'onion_block_add_data', [b.p(), Ptr(b.data, off), l], post)


@proof('P06', 'onion_block_add_block', ['block.c'])
def block_add_block(E):
    st = init(E)
    b, c = Blk(E, st), Blk(E, st, 'toadd')
    k, j = z3.Ints('k j')
    st.add(k >= 0, j >= 0)

    def post(st, ret):
        add_data_post(E, st, b, k, j, c.n, c.old.read)
        d, n, m = c.inv(st)
        E.oblige(st, 'source block unchanged', And(n == c.n, Implies(j < c.n, E.read_byte(st, d.obj, j) == c.old.read(j))))
    E.run(st, 'onion_block_add_block', [b.p(), c.p()], post)


@proof('P06', 'onion_block_add_block', ['block.c'])
def block_add_self(E):
    st = init(E)
    b = Blk(E, st)
    k, j = z3.Ints('k j')
    st.add(k >= 0, j >= 0)

    def post(st, ret):
        add_data_post(E, st, b, k, j, b.n, b.old.read)
    E.run(st, 'onion_block_add_block', [b.p(), b.p()], post)


@proof('P06', 'onion_block_add_str', ['block.c'])
def block_add_str(E):
    st = init(E)
    b = Blk(E, st)
    k, j, l = z3.Ints('k j l')
    st.add(k >= 0, j >= 0, l >= 0, l <= MAXB)
    o = E.cstring(st, 'str', l, const=True)
    src = st.om(o).bm

    def post(st, ret):
        d = add_data_post(E, st, b, k, j, l, src.read)
    E.run(st, 'onion_block_add_str', [b.p(), Ptr(o, iv(0))], post)


@proof('P06', 'onion_block_data', ['block.c'])
def block_data(E):
    st = init(E)
    b = Blk(E, st)
    k = z3.Int('k')
    st.add(k >= 0, k < b.n)

    def post(st, ret):
        d, n, m = b.inv(st)
        E.oblige(st, 'size unchanged', n == b.n)
        E.oblige(st, 'returns the buffer', ret.obj is not None and ret.obj is d.obj and isc(S(ret.off)) and cval(S(ret.off)) == 0)
        if d.obj is not None:
            E.oblige(st, 'bytes unchanged', E.read_byte(st, d.obj, k) == b.old.read(k))
            E.oblige(st, 'terminated by a NUL after the data', E.read_byte(st, d.obj, b.n) == 0)
    E.run(st, 'onion_block_data', [b.p()], post)


@proof('P06', 'onion_block_size', ['block.c'])
def block_size(E):
    st = init(E)
    b = Blk(E, st)

    def post(st, ret):
        E.oblige(st, 'returns the size', toint(ret) == b.n)
    E.run(st, 'onion_block_size', [b.p()], post)


@proof('P06', 'onion_block_min_maxsize', ['block.c'])
def block_min_maxsize(E):
    st = init(E)
    b = Blk(E, st)
    k, q = z3.Ints('k q')
    st.add(k >= 0, k < b.n, q >= -(1 << 31), q <= MAXB)

    def post(st, ret):
        d, n, m = b.inv(st)
        E.oblige(st, 'contents unchanged', And(n == b.n, E.read_byte(st, d.obj, k) == b.old.read(k)))
        E.oblige(st, 'room reserved', m >= q)
    E.run(st, 'onion_block_min_maxsize', [b.p(), q], post)


@proof('P06', 'onion_block_rewind', ['block.c'])
def block_rewind(E):
    st = init(E)
    b = Blk(E, st)
    k, q = z3.Ints('k q')
    st.add(k >= 0, q >= 0, q < (1 << 40))

    def post(st, ret):
        d, n, m = b.inv(st)
        E.oblige(st, 'drops the last bytes, at most all', n == If(q > b.n, iv(0), b.n - q))
        E.oblige(st, 'remaining bytes unchanged', Implies(k < n, E.read_byte(st, d.obj, k) == b.old.read(k)))
    E.run(st, 'onion_block_rewind', [b.p(), q], post)


@proof('P06', 'onion_block_clear', ['block.c'])
def block_clear(E):
    st = init(E)
    b = Blk(E, st)

    def post(st, ret):
        d, n, m = b.inv(st)
        E.oblige(st, 'empty', n == 0)
    E.run(st, 'onion_block_clear', [b.p()], post)
