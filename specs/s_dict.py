"""Contracts of src/onion/dict.c.

A subtree is described by ghost quantities that add up over its entries, for arbitrary but fixed key rank Q, value V and
allocation A: cnt (entries), mN / mQ (entries whose key compares equal to the argument key / to Q), mQV (of those, the
entries holding value V), own (how often the entries own allocation A), the key bounds lo/hi, the AA level and whether the
right child is on the same level (hor), and its first and last entries.  A well-formed subtree is ordered (left keys <=
node <= right keys) and AA-balanced (left one level below, right at most on the level, its right child below).
Every recursive function is proved for one unfolding against its own contract on strictly smaller subtrees (induction);
the comparison function is any total preorder (its sign is the difference of the keys' ranks)."""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models

FREE_KEY, FREE_VALUE, DICT, REPLACE, DUP_KEY, DUP_VALUE = 2, 4, 0x100, 0x40, 0x12, 0x24


def nodefields():
    return front.offsets('struct onion_dict_node_t', ['data.key', 'data.value', 'data.flags', 'level', 'left', 'right'], header='dict.c')


def dictfields():
    return front.offsets('struct onion_dict_t', ['root', 'refcount', 'cmp'])


B2I = lambda c: If(c, iv(1), iv(0))
CNT = ('cnt', 'mN', 'mQ', 'mQV', 'own')
EDGE = ('lastQV', 'lastown', 'firstQV', 'firstown')


class World:
    def __init__(self, E, const=False):
        E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds = [], [], [], []
        self.E, self.f, self.df, self.const = E, nodefields(), dictfields(), const
        self.st = State()
        self.Q, self.N = z3.Real('Q'), z3.Real('N')
        self.V, self.A = z3.Ints('V A')
        self.st.ghost['freed'] = iv(0)
        self.st.ghost['nodes'] = iv(0)
        E.contracts['cmp!'] = self.cmp
        for n in ('onion_low_free', 'free'):
            E.contracts[n] = self.free
        E.loop_hook = self.spine
        self.sides, self.consumed = E.__dict__.setdefault('spine_sides', {}), []

    # ---- entries
    def newkey(self, st, name, rank=None, aid=None, kind='key'):
        o = self.E.newobj(st, '%s#%d' % (name, uid()), z3.Int('sz!%s!%d' % (name, uid())), 'input')
        o.tag = kind
        o.rank = rank if rank is not None else z3.Real('rank!%s!%d' % (name, uid()))
        o.aid = aid if aid is not None else z3.Int('aid!%s!%d' % (name, uid()))
        return o

    def owns(self, k, v, fl):
        return B2I(And(fl & FREE_KEY != 0, k.aid == self.A)) + B2I(And(fl & FREE_VALUE != 0, v.aid == self.A))

    def ecount(self, k, v, fl):
        return dict(cnt=iv(1), mN=B2I(k.rank == self.N), mQ=B2I(k.rank == self.Q), mQV=B2I(And(k.rank == self.Q, v.aid == self.V)), own=self.owns(k, v, fl))

    # ---- ghosts
    def gnull(self):
        g = {c: iv(0) for c in CNT}
        g.update({c: iv(0) for c in EDGE})
        g.update(lvl=iv(0), lo=z3.RealVal(0), hi=z3.RealVal(0), hor=z3.BoolVal(False), null=z3.BoolVal(True))
        return g

    def ghost(self, st, name):
        """an arbitrary well-formed subtree"""
        u = uid()
        g = {c: z3.Int('%s.%s!%d' % (name, c, u)) for c in CNT + EDGE + ('lvl',)}
        g.update(lo=z3.Real('%s.lo!%d' % (name, u)), hi=z3.Real('%s.hi!%d' % (name, u)), hor=z3.Bool('%s.hor!%d' % (name, u)), null=z3.Bool('%s.null!%d' % (name, u)))
        st.add(g['cnt'] >= 0, g['mN'] >= 0, g['mQ'] >= 0, g['mQV'] >= 0, g['own'] >= 0, g['mN'] <= g['cnt'], g['mQV'] <= g['mQ'], g['mQ'] <= g['cnt'],
               (g['cnt'] == 0) == g['null'], g['lvl'] >= 0, (g['lvl'] == 0) == g['null'], g['lo'] <= g['hi'], Implies(g['mQ'] > 0, And(g['lo'] <= self.Q, self.Q <= g['hi'])),
               Implies(g['mN'] > 0, And(g['lo'] <= self.N, self.N <= g['hi'])), Implies(g['null'], And(Not(g['hor']), g['own'] == 0)), g['lvl'] <= g['cnt'], g['cnt'] <= 1 << 30, Implies(self.N == self.Q, g['mN'] == g['mQ']))
        for s in ('last', 'first'):
            st.add(g[s + 'QV'] >= 0, g[s + 'QV'] <= 1, g[s + 'QV'] <= g['mQV'], g[s + 'own'] >= 0, g[s + 'own'] <= g['own'],
                   Implies(g[s + 'QV'] == 1, self.Q == g['hi' if s == 'last' else 'lo']))
        st.add(Implies(Not(g['null']), And(Implies(g['hi'] == self.N, g['mN'] > 0), Implies(g['lo'] == self.N, g['mN'] > 0), Implies(g['hi'] == self.Q, g['mQ'] > 0), Implies(g['lo'] == self.Q, g['mQ'] > 0))))
        return g

    def wf(self, r, L, R, lvl):
        """ordering and AA balance of a node with rank r, given its children's ghosts; the child->child level condition uses hor"""
        return [('left keys are not greater', Or(L['null'], L['hi'] <= r)), ('right keys are not smaller', Or(R['null'], R['lo'] >= r)),
                ('AA: left child one level below', L['lvl'] == lvl - 1), ('AA: right child on the level or one below', Or(R['lvl'] == lvl, R['lvl'] == lvl - 1)),
                ('AA: at most one right child on the same level', Not(And(R['lvl'] == lvl, R['hor'])))]

    def combine(self, st, e, r, L, R, lvl):
        u = uid()
        g = {}
        for c in CNT:
            g[c] = S(e[c] + L[c] + R[c])
        for x, y in (('QV', 'mQV'), ('own', 'own')):
            g['last' + x] = If(R['null'], e[y], R['last' + x])
            g['first' + x] = If(L['null'], e[y], L['first' + x])
        g.update(lo=If(L['null'], r, L['lo']), hi=If(R['null'], r, R['hi']), lvl=lvl, hor=R['lvl'] == lvl, null=z3.BoolVal(False))
        return g

    def node(self, st, name, g=None, level=None):
        """materialise a non-null well-formed subtree with ghost g"""
        E, f = self.E, self.f
        if g is None:
            g = self.ghost(st, name)
        st.add(Not(g['null']))
        o = E.newobj(st, '%s#%d' % (name, uid()), f[''][1], 'heap', const=self.const)
        o.tag = 'node'
        k, v = self.newkey(st, name + '.key'), self.newkey(st, name + '.val', kind='val')
        fl = z3.BitVec('%s.flags!%d' % (name, uid()), 16)
        r = k.rank
        L, R = self.ghost(st, name + '.L'), self.ghost(st, name + '.R')
        e = self.ecount(k, v, fl)
        c = self.combine(st, e, r, L, R, g['lvl'])
        st.add(*[g[x] == c[x] for x in CNT + EDGE + ('lo', 'hi')])
        st.add(g['hor'] == c['hor'], *[w for _, w in self.wf(r, L, R, g['lvl'])])
        o.gL, o.gR, o.g0, o.entry = L, R, g, (k, v, fl)
        cells = st.wom(o).cells
        cells[f['data.key'][0]] = (8, Ptr(k, iv(0)))
        cells[f['data.value'][0]] = (8, Ptr(v, iv(0)))
        cells[f['data.flags'][0]] = (2, fl)
        cells[f['level'][0]] = (4, g['lvl'])

        def child(side, cg):
            def lz(E, st, obj):
                s2 = State()

                def upd_null(s):
                    pass
                box = {}

                # the child object is created in the forked state itself
                def mk(s):
                    p = self.node(s, name[:12] + side, cg)
                    p.parent = (obj, side)
                    p.viewed = getattr(obj, 'viewed', None)
                    box['o'] = p
                    s.wom(obj).cells[off] = (8, Ptr(p, iv(0)))
                return [(cg['null'], NULL, upd_null), (Not(cg['null']), ('mk', mk), None)]
            off = f['left' if side == 'l' else 'right'][0]
            return lz
        o.lazy = {f['left'][0]: child('l', L), f['right'][0]: child('r', R)}
        return o

    def ent(self, st, o):
        f = self.f
        c = st.om(o).cells
        return c[f['data.key'][0]][1].obj, c[f['data.value'][0]][1].obj, tobv(c[f['data.flags'][0]][1], 16)

    def abs(self, st, p, seen=None, wfs=None):
        """ghost of the tree at p as it is in memory now; obligations of well-formedness are appended to wfs"""
        E, f = self.E, self.f
        if p.obj is None:
            return self.gnull()
        o = p.obj
        seen = seen if seen is not None else set()
        if o.tag == 'opaque':
            if o.id in seen:
                wfs.append(('no subtree is shared', z3.BoolVal(False)))
            seen.add(o.id)
            return o.g0
        ok = o.tag == 'node' and st.om(o).alive and o.id not in seen
        wfs.append(('every node reached once, live', z3.BoolVal(ok)))
        if not ok:
            return self.gnull()
        seen.add(o.id)
        c = st.om(o).cells
        for k in ('data.key', 'data.value', 'data.flags', 'level'):
            if f[k][0] not in c:
                wfs.append(('node field %s is set' % k, z3.BoolVal(False)))
                return self.gnull()
        k, v, fl = self.ent(st, o)
        lvl = toint(c[f['level'][0]][1])
        sub = []
        for side, g in (('left', getattr(o, 'gL', None)), ('right', getattr(o, 'gR', None))):
            x = c.get(f[side][0])
            if x is None:
                if g is None:
                    wfs.append(('node field %s is set' % side, z3.BoolVal(False)))
                    g = self.gnull()
                sub.append(g)
            else:
                if not isinstance(x[1], Ptr):
                    x = (8, NULL)
                sub.append(self.abs(st, x[1], seen, wfs))
        L, R = sub
        wfs.extend(self.wf(k.rank, L, R, lvl))
        return self.combine(st, self.ecount(k, v, fl), k.rank, L, R, lvl)

    def oblige_tree(self, st, p, what):
        w = []
        g = self.abs(st, p, None, w)
        self.E.oblige(st, what + ' is an ordered, AA-balanced tree', And(*[c for _, c in w]) if w else z3.BoolVal(True))
        return g

    def consume(self, st, p):
        if p.obj is None:
            return
        st.wom(p.obj).alive = False
        for side in ('left', 'right'):
            x = st.om(p.obj).cells.get(self.f[side][0])
            if x and isinstance(x[1], Ptr):
                self.consume(st, x[1])

    # ---- callee contracts
    def cmp(self, E, st, a):
        x, y = a[0], a[1]
        for p in (x, y):
            if not isinstance(p, Ptr) or p.obj is None or getattr(p.obj, 'rank', None) is None or not (isc(S(p.off)) and cval(S(p.off)) == 0):
                E.oblige(st, 'comparison is given keys', False)
                return E.i32(st)
        c = E.i32(st, 'cmp')
        rx, ry = x.obj.rank, y.obj.rank
        st.add((c == 0) == (rx == ry), (c < 0) == (rx < ry))
        return c

    def free(self, E, st, a):
        p = a[0]
        if isinstance(p, Ptr) and p.obj is not None and p.obj.tag in ('key', 'val'):
            E.oblige(st, 'frees the start of the allocation', p.off == 0)
            st.ghost['freed'] = st.ghost['freed'] + B2I(p.obj.aid == self.A)
            return None
        if isinstance(p, Ptr) and p.obj is not None and p.obj.tag in ('node', 'opaque'):
            st.ghost['nodes'] = st.ghost['nodes'] + 1
        return models.MODELS['free'](E, st, a)

    def rel_lvl_add(self, g, h):
        return Or(And(g['null'], h['lvl'] == 1, Not(h['hor'])), And(Not(g['null']), h['lvl'] == g['lvl']),
                  And(Not(g['null']), g['hor'], h['lvl'] == g['lvl'] + 1, Not(h['hor'])))

    def rel_add(self, g, h, e, rank, v, rep, freed, x):
        """h: tree g after adding entry e (key rank, value v); x: how many (Q,V) entries the replaced one accounted for"""
        hit = And(rep, g['mN'] > 0)
        return [('count grows by one unless replaced', h['cnt'] == g['cnt'] + If(hit, 0, 1)), ('equal keys', h['mN'] == g['mN'] + If(hit, 0, 1)),
                ('entries of any key kept', h['mQ'] == g['mQ'] + If(hit, 0, e['mQ'])),
                ('values of any key kept, the new one present', h['mQV'] == g['mQV'] + e['mQV'] - x),
                ('nothing but the replaced entry goes', And(x >= 0, x <= 1, x <= g['mQV'], Implies(Not(And(hit, self.N == self.Q)), x == 0), Implies(And(hit, self.N == self.Q, g['mN'] == 1), x == g['mQV']))),
                ('owned allocations are kept or freed once', h['own'] + freed == g['own'] + e['own']), ('frees only what was owned', And(freed >= 0, freed <= g['own'], Implies(Not(hit), freed == 0))),
                ('lower bound', h['lo'] == If(g['null'], rank, If(rank < g['lo'], rank, g['lo']))), ('upper bound', h['hi'] == If(g['null'], rank, If(rank > g['hi'], rank, g['hi']))),
                ('level', self.rel_lvl_add(g, h))]

    def c_add(self, limit=None):
        def c(E, st, a):
            sub, nn = a[1], a[2]
            g = self.oblige_tree(st, sub, 'argument')
            if limit is not None:
                E.oblige(st, 'recursion on a smaller subtree', g['cnt'] < limit)
            if nn.obj is None or nn.obj.tag != 'node':
                raise Unsupported('node_add without a node')
            k, v, fl = self.ent(st, nn.obj)
            wf = []
            self.abs(st, nn, None, wf)
            E.oblige(st, 'new entry is a single leaf', And(*[x for _, x in wf]))
            self.consume(st, sub)
            self.consume(st, nn)
            h = self.ghost(st, 'added')
            fr, x = E.fint('freed', st), E.fint('gone', st)
            st.add(*[c for _, c in self.rel_add(g, h, self.ecount(k, v, fl), k.rank, v, fl & REPLACE != 0, fr, x)])
            st.ghost['freed'] = st.ghost['freed'] + fr
            st.ghost['nodes'] = st.ghost['nodes'] + If(And(fl & REPLACE != 0, g['mN'] > 0), iv(1), iv(0))
            o = self.node(st, 'added', h)
            return Ptr(o, iv(0))
        return c

    def rel_rem(self, g, h, freed, x):
        hit = g['mN'] > 0
        return [('one entry less iff the key is present', h['cnt'] == g['cnt'] - B2I(hit)), ('one equal key less', h['mN'] == g['mN'] - B2I(hit)),
                ('entries of other keys kept', h['mQ'] == g['mQ'] - B2I(And(hit, self.N == self.Q))), ('values kept but the removed one', h['mQV'] == g['mQV'] - x),
                ('only the removed value goes', And(x >= 0, x <= 1, Implies(Not(And(hit, self.N == self.Q)), x == 0), Implies(And(hit, self.N == self.Q, g['mN'] == 1), x == g['mQV']))),
                ('owned allocations are kept or freed once', h['own'] + freed == g['own']), ('frees only what was owned', And(freed >= 0, Implies(Not(hit), freed == 0))),
                ('bounds do not grow', Or(h['null'], And(g['lo'] <= h['lo'], h['hi'] <= g['hi']))),
                ('level drops at most by one', Or(h['lvl'] == g['lvl'], h['lvl'] == g['lvl'] - 1)), ('no new right child on the level', Implies(And(h['lvl'] == g['lvl'], h['hor']), g['hor']))]

    def rel_edge(self, g, h, freed, s):
        """h: tree g without its last (first) entry"""
        b = g['hi' if s == 'last' else 'lo']
        return [('one entry less', h['cnt'] == g['cnt'] - 1), ('one equal key less', h['mN'] == g['mN'] - B2I(b == self.N)), ('entries of other keys kept', h['mQ'] == g['mQ'] - B2I(b == self.Q)),
                ('values kept but the edge one', h['mQV'] == g['mQV'] - g[s + 'QV']), ('exactly the edge entry is released', And(freed == g[s + 'own'], h['own'] == g['own'] - freed)),
                ('bounds do not grow', Or(h['null'], And(g['lo'] <= h['lo'], h['hi'] <= g['hi']))),
                ('level drops at most by one', Or(h['lvl'] == g['lvl'], h['lvl'] == g['lvl'] - 1)), ('no new right child on the level', Implies(And(h['lvl'] == g['lvl'], h['hor']), g['hor']))]

    # ---- walking down a spine: t is a node of X whose subtree contains X's last (first) entry
    def spine(self, E, st, fr, h, phis, vals, back):
        ps = [i.dst for i in phis if isinstance(vals[i.dst], Ptr)]
        if len(ps) != 1 or len(phis) != 1 or vals[ps[0]].obj is None or vals[ps[0]].obj.tag != 'node':
            return NotImplemented
        n = ps[0]
        t = vals[n].obj
        if back:
            view, = [x for x in st.ghost['views'] if x[2] == (fr.path, h)]
            par = getattr(t, 'parent', None)
            side = st.ghost.get(('side', fr.path, h))
            ok = par is not None and par[0] is view[1]
            E.oblige(st, 'spine walk moves to a child', ok)
            if ok:
                k = ('spine', fr.path, h)
                if self.sides.setdefault(k, par[1]) != par[1]:
                    raise Unsupported('zig-zag walk')
                if view[3] is None:      # direction learnt only now: repeat with the invariant for that side
                    E.dirty = True
                    return []
                E.oblige(st, 'the walk stays on the path to the edge entry', t.g0['hi'] == view[1].g0['hi'] if par[1] == 'r' else t.g0['lo'] == view[1].g0['lo'])
                E.oblige(st, 'walk descends', t.g0['cnt'] < view[1].g0['cnt'])
            return []
        fr.loops[h] = 0
        g = t.g0
        side = self.sides.get(('spine', fr.path, h))
        v = self.ghost(st, 'spine')
        st.add(*[v[c] <= g[c] for c in CNT + ('lvl',)])
        if side != 'l':
            st.add(v['hi'] == g['hi'], v['lastQV'] == g['lastQV'], v['lastown'] == g['lastown'])
        if side != 'r':
            st.add(v['lo'] == g['lo'], v['firstQV'] == g['firstQV'], v['firstown'] == g['firstown'])
        o = self.node(st, 'spine', v)
        if self.touched(st, t):
            raise Unsupported('spine walk over a modified tree')
        st.ghost['views'] = st.ghost.get('views', ()) + ((t, o, (fr.path, h), side),)
        st.wom(t).alive = False
        fr.env[n] = Ptr(o, iv(0))
        return None

    def touched(self, st, o):
        k, v, fl = self.ent(st, o)
        return not (k is o.entry[0] and v is o.entry[1] and fl.eq(o.entry[2]))

    def arg_ghost(self, st, p, edge):
        """ghost of an argument subtree, allowing for a spine view into it"""
        for (X, t, _, side) in st.ghost.get('views', ()):
            if p.obj is X:
                k, v, fl = self.ent(st, t)
                k0, v0, f0 = t.entry
                if k is not k0 or v is not v0:
                    raise Unsupported('viewed entry changed its key')
                c = st.om(t).cells
                if edge == 0 or (side is not None and side != ('r' if edge > 0 else 'l')):
                    raise Unsupported('view of the other edge')
                sd = 'right' if edge > 0 else 'left'
                x = c.get(self.f[sd][0])
                if x is None or not isnull(x[1]):
                    raise Unsupported('view is not the edge entry')
                for s2 in ('left', 'right', 'level'):
                    y = c.get(self.f[s2][0])
                    if s2 == 'level' and not toint(y[1]).eq(t.g0['lvl']):
                        raise Unsupported('viewed node changed level')
                g = dict(X.g0)
                g['own'] = g['own'] - self.owns(k0, v0, f0) + self.owns(k, v, fl)
                a, b = ('last', 'first') if edge > 0 else ('first', 'last')
                g[a + 'own'] = self.owns(k, v, fl)
                g[b + 'own'] = self.E.fint('edgeown', st)
                st.wom(t).alive = False
                self.consumed.append(t)
                return g
        return None

    def c_rem(self, limit, key):
        def c(E, st, a):
            sub, kp, edge = a[1], a[2], S(toint(a[3]))
            if not isc(edge):
                raise Unsupported('symbolic edge')
            edge = cval(edge)
            g = self.arg_ghost(st, sub, edge)
            if g is None:
                g = self.oblige_tree(st, sub, 'argument')
            E.oblige(st, 'recursion on a smaller subtree', g['cnt'] < limit)
            if not isinstance(kp, Ptr) or kp.obj is None or getattr(kp.obj, 'rank', None) is None:
                E.oblige(st, 'remove is given a key', False)
                return NULL
            self.consume(st, sub)
            h = self.ghost(st, 'rest')
            fr = E.fint('freed', st)
            if edge == 0:
                E.oblige(st, 'recursion keeps the key', kp.obj.rank == self.N)
                x = E.fint('gone', st)
                st.add(*[c for _, c in self.rel_rem(g, h, fr, x)])
                nd = B2I(g['mN'] > 0)
            else:
                s = 'last' if edge > 0 else 'first'
                E.oblige(st, 'edge removal is given the edge key', And(Not(g['null']), kp.obj.rank == g['hi' if edge > 0 else 'lo']))
                st.add(*[c for _, c in self.rel_edge(g, h, fr, s)])
                nd = iv(1)
            st.ghost['freed'] = st.ghost['freed'] + fr
            st.ghost['nodes'] = st.ghost['nodes'] + nd
            return self.treeptr(st, h, 'rest')
        return c

    def treeptr(self, st, g, name):
        """[(state, pointer)] null or a node with ghost g"""
        out = []
        s2 = st.copy()
        s2.add(g['null'])
        if self.E.feasible(s2):
            out.append((s2, NULL))
        st.add(Not(g['null']))
        if self.E.feasible(st):
            out.append((st, Ptr(self.node(st, name, g), iv(0))))
        return out

    def dictobj(self, st, root):
        E, f = self.E, self.df
        o = E.newobj(st, 'dict#%d' % uid(), f[''][1], 'heap')
        c = st.wom(o).cells
        c[f['root'][0]] = (8, root)
        c[f['cmp'][0]] = (8, Fn('cmp!'))
        return o


def key_rank(W, st, o, R):
    st.add(o.rank == R)


@proof(['P07'], 'onion_dict_find_node', ['dict.c'])
def dict_find(E):
    for shape in ('null', 'node'):
        W = World(E, const=True)
        st = W.st
        st.add(W.N == W.Q)
        root = NULL if shape == 'null' else Ptr(W.node(st, 'T'), iv(0))
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        key = W.newkey(st, 'key')
        st.add(key.rank == W.Q)

        def rec(E, st, a):
            h = W.abs(st, a[1], None, [])
            E.oblige(st, 'recursion keeps the dict and the key', a[0].obj is d and isinstance(a[2], Ptr) and a[2].obj is key)
            E.oblige(st, 'recursion on a smaller subtree', h['cnt'] < g['cnt'])
            s2 = st.copy()
            s2.add(h['mQ'] == 0)
            st.add(h['mQ'] > 0)
            o = W.node(st, 'found')
            k, v, fl = W.ent(st, o)
            st.add(k.rank == W.Q, Implies(v.aid == W.V, h['mQV'] > 0))
            return [(s, v) for s, v in ((s2, NULL), (st, Ptr(o, iv(0)))) if E.feasible(s)]
        E.contracts['onion_dict_find_node'] = rec

        def post(st, ret):
            E.oblige(st, 'found iff the key is present', (g['mQ'] > 0) if ret.obj is not None else (g['mQ'] == 0))
            if ret.obj is not None:
                k, v, fl = W.ent(st, ret.obj)
                E.oblige(st, 'the found entry has the key', k.rank == W.Q)
                E.oblige(st, 'the found entry is in the tree', Implies(v.aid == W.V, g['mQV'] > 0))
        E.run(st, 'onion_dict_find_node', [Ptr(d, iv(0)), root, Ptr(key, iv(0)), NULL], post)


def find_contract(W, d, key, g):
    def c(E, st, a):
        E.oblige(st, 'searches the dict from its root', a[0].obj is d and a[1].same(root_of(W, st, d)) and a[2].obj is key)
        s2 = st.copy()
        s2.add(g['mQ'] == 0)
        st.add(g['mQ'] > 0)
        o = W.node(st, 'found')
        k, v, fl = W.ent(st, o)
        st.add(k.rank == W.Q, Implies(v.aid == W.V, g['mQV'] > 0))
        st.ghost['found'] = o
        return [(s, v) for s, v in ((s2, NULL), (st, Ptr(o, iv(0)))) if E.feasible(s)]
    return c


def root_of(W, st, d):
    return st.om(d).cells[W.df['root'][0]][1]


def get_like(E, fn, want_dict):
    for shape in ('nodict', 'null', 'node'):
        W = World(E, const=True)
        st = W.st
        st.add(W.N == W.Q)
        root = Ptr(W.node(st, 'T'), iv(0)) if shape == 'node' else NULL
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        key = W.newkey(st, 'key')
        st.add(key.rank == W.Q)
        E.contracts['onion_dict_find_node'] = find_contract(W, d, key, g)

        def post(st, ret):
            if shape == 'nodict':
                E.oblige(st, 'nothing in no dict', ret.obj is None)
                return
            o = st.ghost.get('found')
            if o is None:
                E.oblige(st, 'absent key gives nothing', And(z3.BoolVal(ret.obj is None), g['mQ'] == 0))
                return
            k, v, fl = W.ent(st, o)
            isd = fl & DICT != 0
            if ret.obj is None:
                E.oblige(st, 'present key of the wanted type gives its value', isd if not want_dict else Not(isd))
            else:
                E.oblige(st, 'gives the value stored under the key', And(z3.BoolVal(ret.obj is v), ret.off == 0, isd if want_dict else Not(isd), Implies(v.aid == W.V, g['mQV'] > 0)))
        if shape == 'nodict':
            if want_dict:
                continue
            E.run(st, fn, [NULL, Ptr(key, iv(0))], post)
        else:
            E.run(st, fn, [Ptr(d, iv(0)), Ptr(key, iv(0))], post)


@proof(['P07'], 'onion_dict_get', ['dict.c'])
def dict_get(E):
    get_like(E, 'onion_dict_get', False)


@proof(['P07'], 'onion_dict_get_dict', ['dict.c'])
def dict_get_dict(E):
    get_like(E, 'onion_dict_get_dict', True)


def newnode(W, st, name='nn'):
    """a fresh leaf as made by onion_dict_node_new"""
    E, f = W.E, W.f
    o = E.newobj(st, name + '#%d' % uid(), f[''][1], 'heap')
    o.tag = 'node'
    k, v = W.newkey(st, 'nkey', rank=W.N), W.newkey(st, 'nval', kind='val')
    fl = z3.BitVec('nflags!%d' % uid(), 16)
    c = st.wom(o).cells
    c[f['data.key'][0]] = (8, Ptr(k, iv(0)))
    c[f['data.value'][0]] = (8, Ptr(v, iv(0)))
    c[f['data.flags'][0]] = (2, fl)
    c[f['level'][0]] = (4, iv(1))
    c[f['left'][0]] = (8, NULL)
    c[f['right'][0]] = (8, NULL)
    return o, k, v, fl


def c_dict_free(W):
    def c(E, st, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.obj is None or p.obj.tag != 'val':
            raise Unsupported('dict_free of something else')
        st.ghost['freed'] = st.ghost['freed'] + B2I(p.obj.aid == W.A)
        return None
    return c


def c_data_free(W):
    """releases what the entry owns, as its flags say, and nothing else (proved for onion_dict_node_data_free)"""
    def c(E, st, a):
        o = a[0].obj
        if o is None or o.tag != 'node':
            raise Unsupported('node_data_free')
        E.oblige(st, 'entry belongs to a live node', z3.BoolVal(st.om(o).alive))
        k, v, fl = W.ent(st, o)
        st.ghost['freed'] = st.ghost['freed'] + W.owns(k, v, fl)
    return c


@proof(['P08', 'P07'], 'onion_dict_node_add', ['dict.c'])
def dict_node_add(E):
    for shape in ('null', 'node'):
        W = World(E)
        st = W.st
        nn, k, v, fl = newnode(W, st)
        root = NULL if shape == 'null' else Ptr(W.node(st, 'T'), iv(0))
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        E.contracts['onion_dict_node_add'] = W.c_add(g['cnt'])
        E.contracts['onion_dict_node_data_free'] = c_data_free(W)
        e = W.ecount(k, v, fl)

        def post(st, ret):
            h = W.oblige_tree(st, ret, 'result')
            hit = And(fl & REPLACE != 0, g['mN'] > 0)
            x = g['mQV'] + e['mQV'] - h['mQV']
            for n, c in W.rel_add(g, h, e, W.N, v, fl & REPLACE != 0, st.ghost['freed'], x):
                E.oblige(st, n, c)
            E.oblige(st, 'a replaced entry releases the unused node', st.ghost['nodes'] == If(hit, iv(1), iv(0)))
        E.run(st, 'onion_dict_node_add', [Ptr(d, iv(0)), root, Ptr(nn, iv(0))], post)


@proof(['P08'], 'onion_dict_node_data_free', ['dict.c'])
def dict_data_free(E):
    W = World(E)
    st = W.st
    o = W.node(st, 'T')
    k, v, fl = W.ent(st, o)
    E.contracts['onion_dict_free'] = c_dict_free(W)
    st.ghost['isdict'] = None
    seen = {}

    def fr(E, st, a):
        p = a[0]
        if p.obj is v:
            E.oblige(st, 'a dict value is released as a dict', fl & DICT == 0)
        return W.free(E, st, a)

    def dfr(E, st, a):
        if a[0].obj is v:
            E.oblige(st, 'only a dict value is released as a dict', fl & DICT != 0)
        return c_dict_free(W)(E, st, a)
    E.contracts['onion_low_free'] = fr
    E.contracts['onion_dict_free'] = dfr

    def post(st, ret):
        E.oblige(st, 'releases exactly what the entry owns', st.ghost['freed'] == W.owns(k, v, fl))
    E.run(st, 'onion_dict_node_data_free', [Ptr(o, iv(W.f['data.key'][0]))], post)


def node_remove(E, edge):
    for shape in (('null', 'node') if edge == 0 else ('node',)):
        W = World(E)
        st = W.st
        root = NULL if shape == 'null' else Ptr(W.node(st, 'T'), iv(0))
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        key = W.newkey(st, 'key')
        st.add(key.rank == (W.N if edge == 0 else g['hi' if edge > 0 else 'lo']))
        E.contracts['onion_dict_node_remove'] = W.c_rem(g['cnt'], key)
        E.contracts['onion_dict_node_data_free'] = c_data_free(W)

        def post(st, ret):
            h = W.oblige_tree(st, ret, 'result')
            fr = st.ghost['freed']
            if edge == 0:
                rel = W.rel_rem(g, h, fr, g['mQV'] - h['mQV'])
                nd = B2I(g['mN'] > 0)
            else:
                rel = W.rel_edge(g, h, fr, 'last' if edge > 0 else 'first')
                nd = iv(1)
            for n, c in rel:
                E.oblige(st, n, c)
            E.oblige(st, 'exactly the unlinked node is released', st.ghost['nodes'] == nd)
        E.run(st, 'onion_dict_node_remove', [Ptr(d, iv(0)), root, Ptr(key, iv(0)), iv(edge)], post)


@proof(['P07', 'P08'], 'onion_dict_node_remove', ['dict.c'])
def dict_node_remove(E):
    node_remove(E, 0)


@proof(['P07', 'P08'], 'onion_dict_node_remove', ['dict.c'])
def dict_node_remove_last(E):
    node_remove(E, 1)


@proof(['P07', 'P08'], 'onion_dict_node_remove', ['dict.c'])
def dict_node_remove_first(E):
    node_remove(E, -1)


def null_ok(E, fn, more=(), value=None):
    """does fn take no tree for an empty one: no effect, result `value`?"""
    def run():
        W = World(E, const=True)

        def bad(E, s, a):
            E.oblige(s, 'does nothing', False)
        for n in ('onion_low_free', 'free', 'onion_dict_node_data_free', 'onion_dict_node_free', 'onion_dict_node_count', 'onion_dict_node_preorder', 'cb!'):
            E.contracts[n] = bad
        E.run(W.st, fn, [NULL] + list(more), lambda s, ret: E.oblige(s, 'empty', True if value is None else toint(ret) == value))
    return E.tolerates(run)


@proof(['P08'], 'onion_dict_node_free', ['dict.c'])
def dict_node_free(E):
    W = World(E)
    st = W.st
    o = W.node(st, 'T')
    g = o.g0

    def rec(E, st, a):
        if a[0].obj is None:
            E.oblige(st, 'frees an existing subtree', null_ok(E, 'onion_dict_node_free'))
            return None
        h = W.oblige_tree(st, a[0], 'argument')
        E.oblige(st, 'recursion on a smaller subtree', h['cnt'] < g['cnt'])
        W.consume(st, a[0])
        st.ghost['freed'] = st.ghost['freed'] + h['own']
        st.ghost['nodes'] = st.ghost['nodes'] + h['cnt']
    E.contracts['onion_dict_node_free'] = rec
    E.contracts['onion_dict_node_data_free'] = c_data_free(W)

    def post(st, ret):
        E.oblige(st, 'every owned allocation is released exactly once', st.ghost['freed'] == g['own'])
        E.oblige(st, 'every node is released exactly once', And(st.ghost['nodes'] == g['cnt'], z3.BoolVal(not st.om(o).alive)))
    E.run(st, 'onion_dict_node_free', [Ptr(o, iv(0))], post)


@proof(['P08'], 'onion_dict_free', ['dict.c'])
def dict_free(E):
    for shape in ('nodict', 'null', 'node'):
        W = World(E)
        st = W.st
        root = Ptr(W.node(st, 'T'), iv(0)) if shape == 'node' else NULL
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        rc = z3.Int('refcount')
        st.add(rc >= 1, rc < 1 << 30)
        st.wom(d).cells[W.df['refcount'][0]] = (4, rc)

        def nf(E, st, a):
            E.oblige(st, 'frees the whole tree', a[0].same(root) and (a[0].obj is not None or null_ok(E, 'onion_dict_node_free')))
            if a[0].obj is None:
                return
            W.consume(st, a[0])
            st.ghost['freed'] = st.ghost['freed'] + g['own']
            st.ghost['nodes'] = st.ghost['nodes'] + g['cnt']
        E.contracts['onion_dict_node_free'] = nf

        def post(st, ret):
            if shape == 'nodict':
                E.oblige(st, 'freeing no dict does nothing', st.ghost['freed'] == 0)
                return
            if st.om(d).alive:
                E.oblige(st, 'kept while referenced, one reference less', And(rc > 1, toint(st.om(d).cells[W.df['refcount'][0]][1]) == rc - 1, st.ghost['nodes'] == 0, st.ghost['freed'] == 0))
            else:
                E.oblige(st, 'the last reference releases everything once', And(rc == 1, st.ghost['nodes'] == g['cnt'], st.ghost['freed'] == g['own']))
        E.run(st, 'onion_dict_free', [NULL if shape == 'nodict' else Ptr(d, iv(0))], post)


@proof(['P08'], 'onion_dict_dup', ['dict.c'])
def dict_dup(E):
    W = World(E)
    st = W.st
    root = Ptr(W.node(st, 'T'), iv(0))
    d = W.dictobj(st, root)
    rc = z3.Int('refcount')
    st.add(rc >= 1, rc < 1 << 30)
    st.wom(d).cells[W.df['refcount'][0]] = (4, rc)

    def post(st, ret):
        E.oblige(st, 'the same dict, one reference more', And(z3.BoolVal(ret.obj is d and root_of(W, st, d).same(root)), toint(st.om(d).cells[W.df['refcount'][0]][1]) == rc + 1))
    E.run(st, 'onion_dict_dup', [Ptr(d, iv(0))], post)


@proof(['P07'], 'onion_dict_node_count', ['dict.c'])
def dict_node_count(E):
    W = World(E, const=True)
    st = W.st
    o = W.node(st, 'T')

    def rec(E, st, a):
        if a[0].obj is None:
            E.oblige(st, 'counts an existing subtree', null_ok(E, 'onion_dict_node_count', (), 0))
            return iv(0)
        h = W.abs(st, a[0], None, [])
        E.oblige(st, 'recursion on a smaller subtree', h['cnt'] < o.g0['cnt'])
        return h['cnt']
    E.contracts['onion_dict_node_count'] = rec

    def post(st, ret):
        E.oblige(st, 'counts every entry once', toint(ret) == o.g0['cnt'])
    E.run(st, 'onion_dict_node_count', [Ptr(o, iv(0))], post)


@proof(['P07'], 'onion_dict_count', ['dict.c'])
def dict_count(E):
    for shape in ('nodict', 'null', 'node'):
        W = World(E, const=True)
        st = W.st
        root = Ptr(W.node(st, 'T'), iv(0)) if shape == 'node' else NULL
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)

        def nc(E, st, a):
            E.oblige(st, 'counts the whole tree', a[0].same(root) and (root.obj is not None or null_ok(E, 'onion_dict_node_count', (), 0)))
            return g['cnt']
        E.contracts['onion_dict_node_count'] = nc

        def post(st, ret):
            E.oblige(st, 'number of entries', toint(ret) == (iv(0) if shape == 'nodict' else g['cnt']))
        E.run(st, 'onion_dict_count', [NULL if shape == 'nodict' else Ptr(d, iv(0))], post)


@proof(['P07'], 'onion_dict_node_preorder', ['dict.c'])
def dict_node_preorder(E):
    W = World(E, const=True)
    st = W.st
    o = W.node(st, 'T')
    g = o.g0
    data = E.newobj(st, 'data', iv(8), 'input')
    last0 = z3.Real('last0')
    st.add(last0 <= g['lo'])
    st.ghost['seen'] = {c: iv(0) for c in CNT}
    st.ghost['last'] = last0

    def cb(E, st, a):
        E.oblige(st, 'callback gets the user data', a[0].obj is data)
        if not all(isinstance(a[i], Ptr) and a[i].obj is not None for i in (1, 2)):
            E.oblige(st, 'callback gets a key and a value', False)
            return None
        k, v = a[1].obj, a[2].obj
        E.oblige(st, 'visited in key order', k.rank >= st.ghost['last'])
        st.ghost['last'] = k.rank
        e = W.ecount(k, v, tobv(a[3], 32))
        st.ghost['seen'] = {c: st.ghost['seen'][c] + e[c] for c in CNT}

    def rec(E, st, a):
        if a[0].obj is None:
            E.oblige(st, 'visits an existing subtree', null_ok(E, 'onion_dict_node_preorder', a[1:]))
            return
        E.oblige(st, 'recursion passes callback and data on', isinstance(a[1], Fn) and a[1].name == 'cb!' and a[2].obj is data)
        h = W.abs(st, a[0], None, [])
        E.oblige(st, 'recursion on a smaller subtree', h['cnt'] < g['cnt'])
        E.oblige(st, 'visited in key order', h['lo'] >= st.ghost['last'])
        st.ghost['last'] = h['hi']
        st.ghost['seen'] = {c: st.ghost['seen'][c] + h[c] for c in CNT}
    E.contracts['cb!'] = cb
    E.contracts['onion_dict_node_preorder'] = rec

    def post(st, ret):
        for c, n in (('cnt', 'every entry visited once'), ('mQ', 'every key visited as often as stored'), ('mQV', 'every value visited under its key'), ('own', 'flags handed over')):
            E.oblige(st, n, st.ghost['seen'][c] == g[c])
        E.oblige(st, 'ends at the last key', st.ghost['last'] == g['hi'])
    E.run(st, 'onion_dict_node_preorder', [Ptr(o, iv(0)), Fn('cb!'), Ptr(data, iv(0))], post)


def dup_contracts(W, E):
    def sd(E, st, a):
        p = a[0]
        if p.obj is None:
            return NULL
        if p.obj.tag not in ('key', 'val') or not (isc(S(p.off)) and cval(S(p.off)) == 0):
            raise Unsupported('strdup of something else')
        o = W.newkey(st, 'dup', rank=p.obj.rank, kind=p.obj.tag)
        o.dupof, o.how = p.obj, 'str'
        return Ptr(o, iv(0))

    def hd(E, st, a):
        o = W.newkey(st, 'ddup', kind='val')
        o.dupof, o.how = a[0].obj, 'dict'
        return Ptr(o, iv(0))
    E.contracts['onion_low_strdup'] = sd
    E.contracts['onion_dict_hard_dup'] = hd


def data_post(E, W, st, o, key, val, fl):
    c = st.om(o).cells
    f = W.f
    if not all(f[x][0] in c and isinstance(c[f[x][0]][1], Ptr) for x in ('data.key', 'data.value')) or f['data.flags'][0] not in c:
        E.oblige(st, 'the entry is set', False)
        return
    k, v, s = c[f['data.key'][0]][1].obj, c[f['data.value'][0]][1].obj, tobv(c[f['data.flags'][0]][1], 16)
    dk, dv = fl & DUP_KEY == DUP_KEY, fl & DUP_VALUE == DUP_VALUE
    isd = fl & DICT != 0
    E.oblige(st, 'the key is stored, or a private copy when asked', And(Implies(dk, z3.BoolVal(getattr(k, 'dupof', None) is key)), Implies(Not(dk), z3.BoolVal(k is key))))
    E.oblige(st, 'the value is stored, or a private copy when asked', And(Implies(dv, z3.BoolVal(getattr(v, 'dupof', None) is val)), Implies(Not(dv), z3.BoolVal(v is val)),
                                                                        Implies(dv, isd == z3.BoolVal(getattr(v, 'how', None) == 'dict'))))
    E.oblige(st, 'a private copy is owned, anything else only when given', And((s & FREE_KEY != 0) == (fl & FREE_KEY != 0), (s & FREE_VALUE != 0) == (fl & FREE_VALUE != 0),
                                                                             (s & DICT != 0) == isd, (s & REPLACE != 0) == (fl & REPLACE != 0)))


@proof(['P08', 'P07'], 'onion_dict_node_new', ['dict.c'])
def dict_node_new(E):
    W = World(E)
    st = W.st
    dup_contracts(W, E)
    key, val = W.newkey(st, 'key'), W.newkey(st, 'val', kind='val')
    fl = z3.BitVec('flags', 32)

    def post(st, ret):
        E.oblige(st, 'a fresh node', ret.obj is not None and ret.obj.kind == 'heap' and st.om(ret.obj).alive)
        data_post(E, W, st, ret.obj, key, val, fl)
        ret.obj.tag = 'node'
        for side in ('left', 'right'):      # memory that starts as zeros is a NULL pointer as well
            at = W.f[side][0]
            if at not in st.om(ret.obj).cells and E.prove(st, And(*[E.read_byte(st, ret.obj, iv(at + i)) == 0 for i in range(8)])):
                st.wom(ret.obj).cells[at] = (8, NULL)
        w = []
        g = W.abs(st, ret, None, w)
        E.oblige(st, 'a single leaf of level one', And(g['cnt'] == 1, g['lvl'] == 1, *[c for _, c in w]))
    E.run(st, 'onion_dict_node_new', [Ptr(key, iv(0)), Ptr(val, iv(0)), fl], post)


@proof(['P08', 'P07'], 'onion_dict_add', ['dict.c'])
def dict_add(E):
    for shape in ('nokey', 'null', 'node'):
        W = World(E)
        st = W.st
        root = Ptr(W.node(st, 'T'), iv(0)) if shape == 'node' else NULL
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        key, val = W.newkey(st, 'key', rank=W.N), W.newkey(st, 'val', kind='val')
        fl = z3.BitVec('flags', 32)
        box = {}

        def nn(E, st, a):
            E.oblige(st, 'the entry is made from the arguments', a[0].obj is key and a[1].obj is val and z3.is_bv(a[2]) and a[2].eq(fl))
            o, k, v, f16 = newnode(W, st)
            st.ghost['nn'] = (k, v, f16)
            st.add((f16 & REPLACE != 0) == (fl & REPLACE != 0))
            return Ptr(o, iv(0))
        E.contracts['onion_dict_node_new'] = nn
        E.contracts['onion_dict_node_add'] = W.c_add()

        def post(st, ret):
            r = root_of(W, st, d)
            if shape == 'nokey':
                E.oblige(st, 'nothing added without a key', r.same(root))
                return
            h = W.oblige_tree(st, r, 'the dict')
            k, v, f16 = st.ghost['nn']
            e = W.ecount(k, v, f16)
            hit = And(fl & REPLACE != 0, g['mN'] > 0)
            E.oblige(st, 'count', h['cnt'] == g['cnt'] + If(hit, 0, 1))
            E.oblige(st, 'the key is there', h['mN'] == g['mN'] + If(hit, 0, 1))
            E.oblige(st, 'other keys are untouched', Implies(W.Q != W.N, And(h['mQ'] == g['mQ'], h['mQV'] == g['mQV'])))
            E.oblige(st, 'the new value is there', Implies(And(W.Q == W.N, v.aid == W.V), h['mQV'] >= 1))
            E.oblige(st, 'a replaced value is gone', Implies(And(hit, W.Q == W.N, g['mN'] == 1, v.aid != W.V), h['mQV'] == 0))
            E.oblige(st, 'no owned allocation is lost or freed twice', h['own'] + st.ghost['freed'] == g['own'] + e['own'])
        E.run(st, 'onion_dict_add', [Ptr(d, iv(0)), NULL if shape == 'nokey' else Ptr(key, iv(0)), Ptr(val, iv(0)), fl], post)


@proof(['P08', 'P07'], 'onion_dict_remove', ['dict.c'])
def dict_remove(E):
    for shape in ('null', 'node'):
        W = World(E)
        st = W.st
        root = Ptr(W.node(st, 'T'), iv(0)) if shape == 'node' else NULL
        g = W.abs(st, root, None, [])
        d = W.dictobj(st, root)
        key = W.newkey(st, 'key', rank=W.N)

        def fnd(E, st, a):
            E.oblige(st, 'searches the dict from its root', a[0].obj is d and a[1].same(root) and a[2].obj is key)
            s2 = st.copy()
            s2.add(g['mN'] == 0)
            st.add(g['mN'] > 0)
            o = W.node(st, 'found')
            return [(s, v) for s, v in ((s2, NULL), (st, Ptr(o, iv(0)))) if E.feasible(s)]
        E.contracts['onion_dict_find_node'] = fnd
        E.contracts['onion_dict_node_remove'] = W.c_rem(iv(1 << 40), key)

        def post(st, ret):
            h = W.oblige_tree(st, root_of(W, st, d), 'the dict')
            hit = g['mN'] > 0
            E.oblige(st, 'reports whether an entry was removed', (toint(ret) != 0) == hit)
            E.oblige(st, 'one entry of the key less', And(h['mN'] == g['mN'] - B2I(hit), h['cnt'] == g['cnt'] - B2I(hit)))
            E.oblige(st, 'other keys are untouched', Implies(W.Q != W.N, And(h['mQ'] == g['mQ'], h['mQV'] == g['mQV'])))
            E.oblige(st, 'no owned allocation is lost or freed twice', h['own'] + st.ghost['freed'] == g['own'])
        E.run(st, 'onion_dict_remove', [Ptr(d, iv(0)), Ptr(key, iv(0))], post)


@proof(['P08'], 'onion_dict_hard_dup', ['dict.c'])
def dict_hard_dup(E):
    W = World(E)
    st = W.st
    d = W.dictobj(st, NULL)

    def pre(E, st, a):
        E.oblige(st, 'walks the original once', a[0].obj is d and 'pre' not in st.ghost and isinstance(a[1], Fn))
        st.ghost['pre'] = (a[1].name, a[2].obj)
    E.contracts['onion_dict_preorder'] = pre

    def post(st, ret):
        ok = ret.obj is not None and ret.obj is not d and st.ghost.get('pre') is not None and st.ghost['pre'][1] is ret.obj
        E.oblige(st, 'a new dict that every entry is added to', ok)
        if not ok:
            return
        c = st.om(ret.obj).cells
        E.oblige(st, 'compares keys like the original', c.get(W.df['cmp'][0], (8, NULL))[1] is st.om(d).cells[W.df['cmp'][0]][1])
        # the helper copies one entry
        k, v = W.newkey(st, 'key'), W.newkey(st, 'val', kind='val')
        fl = z3.BitVec('eflags', 32)
        s2 = st.copy()
        s2.ghost['added'] = None

        def add(E, s, a):
            f = tobv(a[3], 32)
            E.oblige(s, 'copies the entry into the new dict', a[0].obj is ret.obj and a[1].obj is k and a[2].obj is v and s.ghost['added'] is None)
            E.oblige(s, 'the copy has its own key and value of the same type', And(f & (DUP_KEY | DUP_VALUE) == (DUP_KEY | DUP_VALUE), (f & DICT != 0) == (fl & DICT != 0)))
            s.ghost['added'] = True
        E.contracts['onion_dict_add'] = add
        E.run(s2, st.ghost['pre'][0], [Ptr(ret.obj, iv(0)), Ptr(k, iv(0)), Ptr(v, iv(0)), fl], lambda s, r: E.oblige(s, 'each entry is copied', s.ghost['added'] is True))
    E.run(st, 'onion_dict_hard_dup', [Ptr(d, iv(0))], post)


@proof(['P08'], 'onion_dict_merge', ['dict.c'])
def dict_merge(E):
    W = World(E)
    st = W.st
    me, other = W.dictobj(st, NULL), W.dictobj(st, NULL)

    def pre(E, st, a):
        E.oblige(st, 'walks the other dict once', a[0].obj is other and 'pre' not in st.ghost and isinstance(a[1], Fn) and a[2].obj is me)
        st.ghost['pre'] = a[1].name
    E.contracts['onion_dict_preorder'] = pre

    def post(st, ret):
        if 'pre' not in st.ghost:
            E.oblige(st, 'every entry is added', False)
            return
        k, v = W.newkey(st, 'key'), W.newkey(st, 'val', kind='val')
        fl = z3.BitVec('eflags', 32)
        s2 = st.copy()
        s2.ghost['added'] = None

        def add(E, s, a):
            f = tobv(a[3], 32)
            E.oblige(s, 'copies the entry', a[0].obj is me and a[1].obj is k and a[2].obj is v and s.ghost['added'] is None)
            E.oblige(s, 'the copy has its own key and value of the same type', And(f & (DUP_KEY | DUP_VALUE) == (DUP_KEY | DUP_VALUE), (f & DICT != 0) == (fl & DICT != 0)))
            s.ghost['added'] = True
        E.contracts['onion_dict_add'] = add
        E.run(s2, st.ghost['pre'], [Ptr(me, iv(0)), Ptr(k, iv(0)), Ptr(v, iv(0)), fl], lambda s, r: E.oblige(s, 'each entry is copied', s.ghost['added'] is True))
    E.run(st, 'onion_dict_merge', [Ptr(me, iv(0)), Ptr(other, iv(0))], post)
