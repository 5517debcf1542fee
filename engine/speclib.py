"""Helpers shared by the contracts: prefix-sum spec functions with their induction lemmas, character classes."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *

LEMMAS = {}


def lemma(name, hyp, concl):
    """machine-check a lemma about a spec function (its induction base/step); result goes to the evidence"""
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(hyp)
    s.add(Not(concl))
    ok = s.check() == z3.unsat
    LEMMAS[name] = ok
    if not ok:
        raise Unsupported('lemma %s not provable' % name)


class Sum:
    """P(0)=0, P(i+1)=P(i)+len(i) for 0<=i<n, with lo<=len(i)<=hi.
    mono(i,j): 0<=i<=j<=n -> P(i)+lo*(j-i) <= P(j) <= P(i)+hi*(j-i)   (induction on j, step checked by the solver)"""

    def __init__(self, name, n, ln, lo, hi):
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.n, self.ln, self.lo, self.hi = n, ln, lo, hi
        i, j = z3.Ints('i j')
        p = self.f
        L = z3.Int('len')
        lemma('%s: prefix sums bounded (step)' % name,
              And(i <= j, p(i) + lo * (j - i) <= p(j), p(j) <= p(i) + hi * (j - i), p(j + 1) == p(j) + L, lo <= L, L <= hi),
              And(p(i) + lo * (j + 1 - i) <= p(j + 1), p(j + 1) <= p(i) + hi * (j + 1 - i)))

    def __call__(self, i):
        return self.f(i if z3.is_expr(i) else iv(i))

    def unfold(self, i):
        p = self.f
        return Implies(And(i >= 0, i < self.n), And(p(i + 1) == p(i) + self.ln(i), self.ln(i) >= self.lo, self.ln(i) <= self.hi))

    def mono(self, i, j):
        p = self.f
        return Implies(And(i >= 0, i <= j, j <= self.n), And(p(i) + self.lo * (j - i) <= p(j), p(j) <= p(i) + self.hi * (j - i)))

    def base(self):
        return self.f(iv(0)) == 0


def ishex(b):
    return Or(And(z3.UGE(b, 48), z3.ULE(b, 57)), And(z3.UGE(b, 65), z3.ULE(b, 70)), And(z3.UGE(b, 97), z3.ULE(b, 102)))


def hexval(b):
    """8-bit value of hex digit b (BV8)"""
    return If(z3.ULE(b, 57), b - 48, If(z3.ULE(b, 70), b - 55, b - 87))


def hexdigit(b, lower=False):
    """BV8 digit of the low nibble of b"""
    x = b & 15
    return If(z3.ULT(x, 10), x + 48, x + (87 if lower else 55))


def isalnum(b):
    return Or(And(z3.UGE(b, 48), z3.ULE(b, 57)), And(z3.UGE(b, 65), z3.ULE(b, 90)), And(z3.UGE(b, 97), z3.ULE(b, 122)))


def table(mapping, c, d, default=None):
    """byte d of the encoding of c (BV8)"""
    r = c if default is None else default
    for k, v in mapping.items():
        r = If(c == k, bv(v[d] if d < len(v) else 0, 8), r)
    return r


def tablelen(mapping, c, default=1):
    r = iv(default)
    for k, v in mapping.items():
        r = If(c == k, iv(len(v)), r)
    return r


class Chain:
    """linked lists of unknown length: each node knows its position `pos` and how many nodes follow it (`rest`, which makes walking it terminate)"""

    def __init__(self, E, name, size, nxt, lazy, child=()):
        """lazy(st, node) -> {offset: fn(E, st, obj)}; nxt: offset of the next pointer; child: offsets of pointers to further (child) chains"""
        self.E, self.name, self.size, self.nxt, self.lazy, self.child = E, name, size, nxt, lazy, child
        old = getattr(E, 'ptr_havoc', None)

        def hav(st, ex, ent, key, n):
            if isinstance(ex, Ptr) and ex.obj is not None and ex.obj.name == self.name:
                q = self.ptr(st)
                return Ptr(q.obj, ex.off) if isc(S(ex.off)) else q
            return old(st, ex, ent, key, n) if old else None
        E.ptr_havoc = hav
        E.measure_terms.append((name, lambda c: self.measure(c)))

    def measure(self, c):
        t = iv(0)
        for v in c.phis.values():
            if isinstance(v, Ptr) and v.obj is not None and v.obj.name == self.name:
                t = t + v.obj.rest + 1
        return t

    def ptr(self, st, pos=None, rest=None, depth=None):
        E = self.E
        o = E.newobj(st, self.name, iv(self.size), 'input')
        o.pos = pos if pos is not None else E.fint('pos', st, 0)
        o.rest = rest if rest is not None else E.fint('rest', st, 0)
        o.lazy = dict(self.lazy(st, o))

        def nx(E, st, ob):
            return [(ob.rest == 0, NULL, None), (ob.rest > 0, self.ptr(st, S(ob.pos + 1), S(ob.rest - 1)), None)]
        o.lazy[self.nxt] = nx
        for off in self.child:
            o.lazy[off] = lambda E, st, ob: fork(E, st, self.ptr(st))
        for fn in o.lazy.values():
            fn.pure = True       # reading a node does not change it
        return Ptr(o, iv(0))


def fork(E, st, v):
    """NULL or v"""
    b = z3.Bool('null!%d' % uid())
    return [(b, NULL, None), (Not(b), v, None)]
