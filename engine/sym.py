"""Modular symbolic executor / verification-condition generator for LLVM IR.

One run verifies ONE function against its contract:
  * the pre-state is built by the contract's `setup` (all inputs symbolic, sizes unbounded);
  * every loop is cut at its header: the header state is havocked over everything the body may
    modify, the loop invariant is assumed, and the body is checked to re-establish it.  The invariant
    is the greatest inductive subset (Houdini) of the candidate clauses offered by the contract and by
    fixed templates, so a clause is only ever used after being proved initially true and preserved;
  * calls are replaced by the callee's contract, or - for functions without one - inlined;
  * obligations: memory safety of each access (object and sub-object bounds, liveness, null), signed
    overflow, shift and division ranges, callee preconditions, loop termination (a decreasing measure) and
    the contract's postconditions on every return.
Integers are exact: values of 16 bits and more are integers constrained to their machine range, with wrap-around
modelled explicitly for unsigned operations and excluded by an obligation for signed ones; bytes and bit-twiddled
values are bit-vectors.
"""
import time
import z3
from z3 import BitVecVal, BitVec, If, And, Or, Not, Implies, Extract, Concat, ZeroExt, SignExt, ULE, ULT, UGE, UGT, simplify
import ir
from ir import IRError


class Unsupported(Exception):
    """the function is outside the verifier's reach (never a violation)"""


class Budget(Exception):
    pass


def bv(x, n):
    return BitVecVal(x, n)


_iv = {}
TRUE = z3.BoolVal(True)


def iv(x):
    if type(x) is not int or x < -4 or x > 4096:
        return z3.IntVal(x)
    r = _iv.get(x)
    if r is None:
        r = _iv[x] = z3.IntVal(x)
    return r


def isc(x):
    return z3.is_int_value(x) or z3.is_bv_value(x)


def cval(x):
    return x.as_long()


def isint(x):
    return z3.is_expr(x) and z3.is_int(x)


BITS = {}        # integers to be treated as bits by shifts and masks
INT2BV = {}      # id of integer term -> (term, bit-vector term it was made from)
PAIR = {}        # id of integer term of two words -> (term, low word, high word or None)
EXT = {}         # id of extended bit-vector -> (term, kind, inner)


def u2i(b):
    """unsigned value of a bit-vector as integer"""
    if z3.is_bv_value(b):
        return iv(b.as_long())
    r = z3.BV2Int(b)
    return r


def s2i(b):
    if z3.is_bv_value(b):
        return iv(b.as_signed_long())
    n = b.size()
    return If(b < 0, z3.BV2Int(b) - (1 << n), z3.BV2Int(b))


def toint(v):
    """signed integer value of any integer value"""
    if z3.is_bool(v):
        return If(v, iv(1), iv(0))
    if z3.is_int(v):
        return v
    if z3.is_bv_value(v):
        return iv(v.as_signed_long())
    e = EXT.get(v.get_id())
    if e:
        r = u2i(e[2]) if e[1] == 'z' else s2i(e[2])
    else:
        # zero-extension shape left by simplify: Concat(0.., x)
        r = None
        if v.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0 and v.num_args() == 2:
            r = u2i(v.arg(1))
        if r is None:
            r = s2i(v)
    r = S(r)
    if not isc(r):
        INT2BV[r.get_id()] = (r, v)
    return r


def tobv(v, n):
    if z3.is_bool(v):
        return If(v, bv(1, n), bv(0, n))
    if z3.is_bv(v):
        return v
    if z3.is_int_value(v):
        return bv(v.as_long(), n)
    e = INT2BV.get(v.get_id())
    if e and e[1].size() == n:
        return e[1]
    if e and e[1].size() < n:
        return SignExt(n - e[1].size(), e[1])
    r = S(z3.Int2BV(v, n))
    EXT.setdefault('i%d' % r.get_id(), (r, v))
    return r


def ule(a, b):
    return a <= b


S = simplify


class Ptr:
    __slots__ = ('obj', 'off', 'lo', 'hi')

    def __init__(self, obj, off, lo=None, hi=None):
        self.obj, self.off, self.lo, self.hi = obj, off, lo, hi

    def add(self, d):
        return Ptr(self.obj, S(self.off + d), self.lo, self.hi)

    def same(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off.eq(o.off)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj.name if self.obj else None, self.off)


class Enter:
    """result of a contract that calls back: the body of `name` runs now, with these arguments"""
    def __init__(self, name, args):
        self.name, self.args = name, args


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULL = Ptr(None, iv(0))


def isnull(p):
    return isinstance(p, Ptr) and p.obj is None


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Obj:
    """memory object. size: BV64 term. kind: 'heap','stack','global','input'"""

    def __init__(self, name, size, kind='input', const=False, cstr=None, ty=None, lazy=None):
        self.id = uid()
        self.name = name
        self.size = size if z3.is_expr(size) else iv(size)
        self.kind, self.const, self.cstr, self.ty = kind, const, cstr, ty
        self.lazy = lazy or {}
        self.base = z3.Int('base!%s!%d' % (name, self.id))
        self.tag = None       # free for specs
        self.addr_used = False

    def __repr__(self):
        return 'Obj(%s)' % self.name


# ---- persistent byte maps ------------------------------------------------------------------
class BM:
    def read(self, i):
        c = self.__dict__.setdefault('_c', {})
        k = i.get_id()
        r = c.get(k)
        if r is None:
            r = (i, self._read(i))
            c[k] = r
        return r[1]


class BMBase(BM):
    def __init__(self, name):
        self.f = z3.Function('%s!%d' % (name, uid()), z3.IntSort(), z3.BitVecSort(8))

    def _read(self, i):
        return self.f(i)


class BMZero(BM):
    def _read(self, i):
        return bv(0, 8)


class BMConst(BM):
    def __init__(self, data):
        self.d = data

    def _read(self, i):
        i = S(i)
        d = self.d
        if isc(i):
            k = cval(i)
            return bv(d[k] if 0 <= k < len(d) else 0, 8)
        e = INT2BV.get(i.get_id())
        r = bv(0, 8)
        k = 0
        while k < len(d):
            j = k
            while j + 1 < len(d) and d[j + 1] == d[j] + 1:
                j += 1
            q = k
            while q + 1 < len(d) and d[q + 1] == d[k]:
                q += 1
            hi = max(j, q)
            if e is not None:
                x = e[1]
                n = x.size()
                sg = EXT.get(x.get_id(), (0, 's'))[1] == 's' and n < 64
                cond = And(ULE(bv(k, n), x), ULE(x, bv(hi, n))) if hi < (1 << (n - 1)) else None
                if cond is None:
                    cond = And(i >= k, i <= hi)
                low = Extract(7, 0, x) if n > 8 else x
            else:
                cond = And(i >= k, i <= hi)
                low = z3.Int2BV(i, 8)
            if q > j:
                r = If(cond, bv(d[k], 8), r)
                k = q + 1
            else:
                r = If(cond, low + bv((d[k] - k) & 255, 8) if j > k else bv(d[k], 8), r)
                k = j + 1
        return r


class BMStore(BM):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val

    def _read(self, i):
        n = self
        chain = []
        while isinstance(n, BMStore):
            d = S(i - n.idx)
            if isc(d):
                if cval(d) == 0:
                    r = n.val
                    break
            else:
                chain.append((i == n.idx, n.val))
            n = n.prev
        else:
            r = n.read(i)
        for c, v in reversed(chain):
            r = If(c, v, r)
        return r


class BMRange(BM):
    """[lo,hi) overwritten by fn(idx)"""

    def __init__(self, prev, lo, hi, fn):
        self.prev, self.lo, self.hi, self.fn = prev, lo, hi, fn

    def _read(self, i):
        c = S(And(i >= self.lo, i < self.hi))
        if z3.is_true(c):
            return self.fn(i)
        if z3.is_false(c):
            return self.prev.read(i)
        return If(c, self.fn(i), self.prev.read(i))


class OM:
    """per-path content of an object"""
    __slots__ = ('cells', 'bm', 'alive', 'zero', 'nuls')

    def __init__(self, bm, zero=False):
        self.cells, self.bm, self.alive, self.zero, self.nuls = {}, bm, True, zero, ()

    def copy(self):
        o = OM(self.bm, self.zero)
        o.cells, o.alive, o.nuls = dict(self.cells), self.alive, self.nuls
        return o


class Frame:
    __slots__ = ('f', 'env', 'block', 'prev', 'idx', 'loops', 'ret', 'allocas', 'path')

    def __init__(self, f, path):
        self.f, self.env, self.block, self.prev, self.idx = f, {}, f.order[0], None, 0
        self.loops, self.ret, self.allocas, self.path = {}, None, [], path

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.env, g.block, g.prev, g.idx = self.f, dict(self.env), self.block, self.prev, self.idx
        g.loops, g.ret, g.allocas, g.path = dict(self.loops), self.ret, list(self.allocas), self.path
        return g


class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.ghost = [], {}, [], {}
        self.objs = {}
        self.own = set()
        self.pcids = set()
        self.strfacts = []
        self.pw = []           # pointwise facts: (object, fn(offset)->Bool), instantiated at every read
        self.trace = []
        self.notes = []
        self.hav = False       # a loop was replaced by its invariant on the way here

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set()
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.ghost = dict(self.ghost)
        s.objs = dict(self.objs)
        s.strfacts = list(self.strfacts)
        s.pw = list(self.pw)
        s.trace = list(self.trace)
        s.notes = list(self.notes)
        s.hav = self.hav
        return s

    def snap(self):
        """cheap snapshot of memory+ghost (for old())"""
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.ghost = dict(self.ghost)
        s.objs = dict(self.objs)
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.strfacts = list(self.strfacts)
        s.pw = list(self.pw)
        return s

    def om(self, obj):
        return self.mem[obj.id]

    def named(self, name):
        return [o for o in self.objs.values() if o.name == name and o.id in self.mem]

    def wom(self, obj):
        if obj.id not in self.own:
            self.mem[obj.id] = self.mem[obj.id].copy()
            self.own.add(obj.id)
        return self.mem[obj.id]

    def add(self, *cs):
        for c in cs:
            c = S(c) if z3.is_expr(c) else z3.BoolVal(c)
            if not z3.is_true(c) and c.get_id() not in self.pcids:
                self.pcids.add(c.get_id())
                self.pc.append(c)


class LoopCtx:
    """what candidate generators see: current and entry values of everything the loop changes"""

    def __init__(self, E, key, st, phis, entry):
        self.E, self.key, self.st, self.phis, self.entry = E, key, st, phis, entry

    def q(self):
        """numeric quantities as signed 64-bit terms: label -> term"""
        ck = (id(self.st), len(self.E.modset.get(self.key, ())), id(self.phis))
        if getattr(self, '_q', (None,))[0] == ck and self.frozen:
            return self._q[1]
        r = self._q0()
        self._q = (ck, r)
        return r

    frozen = False

    def _q0(self):
        r = {}
        for n, v in self.phis.items():
            if isinstance(v, Ptr):
                if v.obj is not None:
                    r['o:' + n + '@' + v.obj.name] = v.off
            elif isint(v):
                r['s:' + n] = v
        for (on, kind, off, sz) in sorted(self.E.modset.get(self.key, ()), key=str):
            if on == 'ghost':
                v = self.st.ghost.get(kind)
                if v is not None and isint(v):
                    r['g:%s' % (kind,)] = v
            elif kind == 'cell':
                for o in self.st.named(on):
                    c = self.st.mem[o.id].cells.get(off)
                    if c is not None and c[0] == sz:
                        v = c[1]
                        if isinstance(v, Ptr):
                            if v.obj is not None:
                                r['mo:%s.%d@%s' % (on, off, v.obj.name)] = v.off
                        elif isint(v):
                            r['m:%s.%d' % (on, off)] = v
        return r

    def ptrs(self, obj=None):
        for n, v in self.phis.items():
            if isinstance(v, Ptr) and v.obj is not None and (obj is None or v.obj is obj):
                yield n, v

    def read(self, obj, off):
        return self.st.om(obj).bm.read(off)


def pointwise(key, obj, at):
    """candidate 'for every index m: at(ctx, m)' about the bytes of obj: checked at one arbitrary index, used at every read"""
    M = z3.Int('M!%s!%s' % (key, obj.name))

    def fn(c):
        return at(c, M)
    fn.pw, fn.M, fn.at = obj, M, at
    return fn


class Failure:
    def __init__(self, name, func, line, detail, model=None, st=None):
        self.name, self.func, self.line, self.detail, self.model, self.st = name, func, line, detail, model, st


# what a client sent under some name: nothing, or some text (proofs that care have contracts of their own)
GETTERS = {'onion_request_get_header', 'onion_request_get_query', 'onion_request_get_post', 'onion_request_get_file'}


def getter(E, st, a):
    import models
    b = models.constbytes(E, st, a[1]) if isinstance(a[1], Ptr) else None
    k = b and 'sent %s' % b.lower().decode('latin1')
    if k and k in st.ghost:     # the same answer every time
        return st.ghost[k]
    s2 = st.copy()
    p = Ptr(E.cstring(st, 'sent', E.fint('sentlen', st, 0, 1 << 20)), iv(0))
    if k:
        st.ghost[k], s2.ghost[k] = p, NULL
    return [(st, p), (s2, NULL)]


class Engine:
    def __init__(self, mod, contracts=None, timeout_ms=8000, budget_s=300):
        self.mod = mod
        self.contracts = dict(contracts or {})
        self.modset, self.dropped, self.shapes, self.sorts = {}, {}, {}, {}
        self.global_init = {}
        self.frames = {}
        self.use_frames = True
        self.measures = {}
        self.measure_terms = []   # extra termination measures: (label, fn(ctx) -> integer term)
        self.cands = {}
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.unroll = None
        self.unroll_sel = None
        self.soft = False
        self.tracing = 0          # follow loops for at most this many iterations instead of using invariants (to confirm a counterexample)
        self.auto_unroll = 0      # execute counted loops of at most this many iterations exactly
        self.loop_hook = None     # fn(key, frame, header) -> k: execute this loop exactly (at most k iterations, checked)
        self.inline_only = set()
        self.noterm = set()
        self.stats = dict(obligations=0, discharged=0, queries=0, solver_s=0.0, paths=0, trivial=0, returns=0, unknown=0, passes=0)
        self.final = False
        self.failures = []
        self.obl_names = {}
        self.bounds = []          # extra bound terms for templates: list of (label, term)
        self.cand_hooks = []      # fn(ctx)->[(label, fn(ctx)->Bool)]
        self.fact_hooks = []      # fn(ctx)->[facts]  (instances of spec-function definitions)
        self.gobj = {}
        self.used_contracts = set()
        self.used_models = set()
        self.inlined = set()
        self.check_overflow = True
        self.debug = False
        self.solver = None
        self.sstack = []
        self.memo = {}
        self.max_paths = 20000
        self.templates = True
        self.mods = ()            # step sizes for divisibility templates

    # ---- solver -----------------------------------------------------------------------
    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            self.sstack = []
        n = 0
        while n < len(self.sstack) and n < len(pc) and self.sstack[n] is pc[n]:
            n += 1
        if len(self.sstack) > n:
            self.solver.pop(len(self.sstack) - n)
            del self.sstack[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.sstack.append(c)

    def check(self, pc, extra=None, want_model=False):
        if time.time() > self.deadline:
            raise Budget('time budget')
        if extra is not None:
            extra = S(extra)
            if z3.is_false(extra):
                return 'unsat', None
        key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not None else None)
        if key in self.memo and (not want_model or self.memo[key][0] == 'unsat'):       # asked before, on another path
            return self.memo[key][0], None
        t = time.time()
        self.stats['queries'] += 1
        self._sync(pc)
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat and want_model else None
        self.solver.pop()
        if r == z3.unknown:
            s2 = z3.SolverFor('ALL')
            s2.set('timeout', self.timeout_ms * 4)
            for c in pc:
                s2.add(c)
            if extra is not None:
                s2.add(extra)
            r = s2.check()
            m = s2.model() if r == z3.sat and want_model else None
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if dt > 4 and self.debug:
            print('slow %.1fs %s line %s final=%s' % (dt, r, self.curline, self.final), str(extra)[:300].replace('\n', ' '))
        if str(r) != 'unknown' and len(self.memo) < 20000:
            self.memo[key] = (str(r), list(pc), extra)       # keeps the terms alive, so that their ids stay theirs
        return str(r), m

    def feasible(self, st, c=None):
        if c is not None:
            c = S(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        return self.check(st.pc, c)[0] != 'unsat'

    def prove(self, st, c):
        c = S(c)
        if z3.is_true(c):
            return True
        return self.check(st.pc, Not(c))[0] == 'unsat'

    def oblige(self, st, name, c, line=None):
        """obligation: c must hold on this path; assumed afterwards"""
        if not z3.is_expr(c):
            c = TRUE if c else z3.BoolVal(False)
        c = TRUE if c is TRUE else S(c)
        fr = st.frames[-1] if st.frames else None
        if line is None and fr:
            line = self.curline
        fn = fr.f.name if fr else '-'
        if not self.final:
            if z3.is_false(c):
                self.final_needed = True
                st.add(c)
                return
            st.add(c)
            return
        self.stats['obligations'] += 1
        self.obl_names[name] = self.obl_names.get(name, 0) + 1
        if z3.is_true(c):
            self.stats['discharged'] += 1
            self.stats['trivial'] += 1
            return
        r, m = self.check(st.pc, Not(c), True)
        if r == 'unsat':
            self.stats['discharged'] += 1
        else:
            if r != 'sat':
                self.stats['unknown'] += 1
            self.failures.append(Failure(name, fn, line, 'solver: ' + r, m, st))
            if len(self.failures) > 40:
                raise Budget('too many failures')
        st.add(c)

    def tolerates(self, thunk):
        """whether the run thunk() starts meets every obligation; nothing of it is kept.  Decides, from the code, whether a contract may also admit a case (NULL, say) that the
        present callers never use"""
        keep = (self.failures, dict(self.stats), dict(self.obl_names), self.final, self.dirty, self.measures, self.curline, dict(self.contracts))
        self.failures, self.final, self.measures = [], True, {}
        try:
            thunk()
            ok = not self.failures and not [k for k, v in self.measures.items() if not v]
        except (Unsupported, Budget, AttributeError, KeyError, TypeError):
            ok = False
        finally:
            q = self.stats['queries'], self.stats['solver_s']
            self.failures, self.stats, self.obl_names, self.final, self.dirty, self.measures, self.curline, self.contracts = keep
            self.stats['queries'], self.stats['solver_s'] = q
            self.solver, self.sstack = None, []
        return ok

    # ---- state helpers ----------------------------------------------------------------
    def newobj(self, st, name, size, kind='heap', bm=None, zero=False, **kw):
        o = Obj(name, size, kind, **kw)
        st.objs[o.id] = o
        st.mem[o.id] = OM(bm or (BMZero() if zero else BMBase(name)), zero)
        st.own.add(o.id)
        return o

    def cstring(self, st, name, n, size=None, kind='input', const=False):
        """NUL-terminated string with strlen exactly n (no earlier NUL), object size n+1 by default"""
        o = self.newobj(st, name, S(n + 1) if size is None else size, kind, const=const)
        om = st.wom(o)
        o.cstr = n
        st.strfacts.append((o, om.bm, iv(0), n))
        st.add(om.bm.read(n) == 0)
        om.nuls = om.nuls + (n,)
        return o

    def byte(self, st, obj, off):
        """spec-level read of a byte (adds string facts)"""
        b = self.read_byte(st, obj, off)
        return b

    def read_byte(self, st, obj, off):
        om = st.om(obj)
        off = S(off)
        if om.cells:
            if isc(off):
                for co, (cs, v) in om.cells.items():
                    if co <= cval(off) < co + cs:
                        if isinstance(v, (Ptr, Fn)):
                            raise Unsupported('byte of pointer cell')
                        k = cval(off) - co
                        return S(Extract(8 * k + 7, 8 * k, tobv(v, 8 * cs)))
            else:
                for co in list(om.cells):
                    cs = om.cells[co][0]
                    if self.feasible(st, And(off >= co, off < co + cs)):
                        self.flush(st, obj)
                        om = st.om(obj)
                        break
        v = S(om.bm.read(off))
        self.pointwise(st, obj, off)
        for (o, bm, lo, L) in st.strfacts:
            if o is obj:
                st.add(Implies(And(off >= lo, off < lo + L), bm.read(off) != 0))
        return v

    def pointwise(self, st, obj, off):
        for (o, fn) in st.pw:
            if o is obj:
                c = fn(off)
                if c is not None:
                    st.add(c)

    def pw_prepare(self, st, live):
        """instantiate the known pointwise facts at the arbitrary index of each pointwise candidate"""
        for l, fn in live:
            o = getattr(fn, 'pw', None)
            if o is not None:
                self.pointwise(st, o, fn.M)

    def flush(self, st, obj, p=None):
        """turn integer cells into bytes; with p: only those inside the subobject p points into"""
        om = st.wom(obj)
        old, done = om.bm, []
        for co, (cs, v) in sorted(om.cells.items()):
            if isinstance(v, (Ptr, Fn)):
                continue
            if p is not None and p.hi is not None and (z3.is_false(S(And(co < p.hi, p.lo < co + cs)))):
                continue
            self.spill(om, co)
            done.append((co, cs))
        self.refact(st, obj, old, done)

    def refact(self, st, obj, old, done):
        """string facts stay true when only bytes outside the string were turned from cells into bytes"""
        if done:
            bm = st.om(obj).bm
            for (so, b, lo, L) in list(st.strfacts):
                if so is obj and b is old and self.prove(st, And(*[Or(co + cs <= lo, co > lo + L) for co, cs in done])):
                    st.strfacts.append((obj, bm, lo, L))

    def flush_range(self, st, p, n):
        """turn into bytes the integer cells that the n bytes at p may overlap"""
        om = st.wom(p.obj)
        old, done = om.bm, []
        for co, (cs, v) in sorted(om.cells.items()):
            if isinstance(v, (Ptr, Fn)):
                continue
            if self.prove(st, Or(iv(co + cs) <= p.off, iv(co) >= p.off + n)):
                continue
            self.spill(om, co)
            done.append((co, cs))
        self.refact(st, p.obj, old, done)

    def spill(self, om, co):
        cs, v = om.cells.pop(co)
        x = tobv(v, 8 * cs)
        for k in range(cs):
            om.bm = BMStore(om.bm, iv(co + k), S(Extract(8 * k + 7, 8 * k, x)))

    def access(self, st, p, n, write, line, what=None):
        """memory-safety obligations for an n-byte access (n int or integer term)"""
        if isinstance(p, Fn):
            self.oblige(st, 'no data access through function pointer', False, line)
            return False
        if p.obj is None:
            self.oblige(st, 'no null dereference', False, line)
            return False
        om = st.om(p.obj)
        if not om.alive:
            self.oblige(st, 'no use after free', False, line)
            return False
        if write and p.obj.const:
            self.oblige(st, 'no write to constant object', False, line)
        lo = 0 if p.lo is None else p.lo
        hi = p.obj.size if p.hi is None else p.hi
        w = 'write' if write else 'read'
        self.oblige(st, 'in-bounds %s of %s' % (w, p.obj.name), And(lo <= p.off, p.off + n <= hi, n >= 0 if z3.is_expr(n) else True), line)
        return True

    def symval(self, st, name, n, as_bv=False):
        """named unknown of n bytes"""
        if n == 1 or as_bv:
            return BitVec(name, 8 * n)
        v = z3.Int(name)
        st.add(v >= -(1 << (8 * n - 1)), v < (1 << (8 * n - 1)))
        return v

    def load(self, st, p, ty, line):
        n = self.mod.size(ty)
        if not self.access(st, p, n, False, line):
            return self.fresh(ty, st)
        obj = p.obj
        om = st.om(obj)
        off = S(p.off)
        t = self.mod.res(ty)
        h = getattr(obj, 'load_hook', None)
        if h:
            v = h(self, st, obj, off, t)
            if v is not None:
                return v
        if isc(off):
            o = cval(off)
            c = om.cells.get(o)
            if c and c[0] == n:
                v = c[1]
                if t.k == 'p' and not isinstance(v, (Ptr, Fn)):
                    if isc(S(v)) and cval(S(v)) == 0:
                        return NULL
                    raise Unsupported('integer loaded as pointer from %s+%d' % (obj.name, o))
                if t.k == 'i' and isinstance(v, (Ptr, Fn)):
                    return self.p2i(v)
                return v
            over = [co for co, (cs, _) in om.cells.items() if co < o + n and o < co + cs]
            if t.k == 'p':
                if over:
                    raise Unsupported('partial pointer load')
                if o in obj.lazy:
                    v = obj.lazy[o](self, st, obj)
                    if not isinstance(v, list):
                        st.wom(obj).cells[o] = (n, v)
                    else:
                        def upd(val):
                            def u(s):
                                s.wom(obj).cells[o] = (n, val)
                            return u
                        v = [(c_, x, (lambda s, u0=u_, u1=upd(x): (u0(s) if u0 else None, u1(s)))) for (c_, x, u_) in v]
                    return v
                if om.zero or (obj.kind == 'global' and obj.const):
                    return NULL
                if obj.kind == 'global' and obj.name.split('.c.')[-1].lstrip('@') == 'onion_log':
                    return Fn('onion_log')       # the logging function is replaceable; its contract: no effect on library state
                if obj.kind == 'global' and obj.name in ('stderr', 'stdout'):
                    return Ptr(None, self.fint('opaqueptr'))
                h = getattr(obj, 'ptr_default', None)
                if h:
                    v = h(self, st, obj, o)
                    st.wom(obj).cells[o] = (n, v)
                    return v
                raise Unsupported('load of unspecified pointer %s+%d line %s' % (obj.name, o, line))
            if t.k == 'f':
                return self.fresh(t, st)
            if not over and n > 1 and isinstance(om.bm, BMZero):
                return iv(0)
            w = getattr(om.bm, 'word', None)
            if not over and n > 1 and w is not None and t.k == 'i' and n == om.bm.wsize:
                return w(off)
            if not over and n == 8 and w is not None and t.k == 'i' and om.bm.wsize == 4:
                return self.pair(w(off), w(S(off + 4)))
            if n == 8 and sorted(over) == [o, o + 4] and all(om.cells[k][0] == 4 and z3.is_int(om.cells[k][1]) for k in over):
                return self.pair(om.cells[o][1], om.cells[o + 4][1])
            if not over and n > 1 and isinstance(om.bm, BMBase):
                v = self.symval(st, '%s@%d.%d.%s' % (obj.name, o, n, om.bm.f.name()), n, o in getattr(obj, 'bvcells', ()))
                st.wom(obj).cells[o] = (n, v)
                return v
            if n == 1:
                return self.read_byte(st, obj, off)
            bs = [self.read_byte(st, obj, iv(o + k)) for k in range(n)]
            return self.norm(S(Concat(*reversed(bs))))
        w = getattr(om.bm, 'word', None)
        if w is not None and t.k == 'i' and n == om.bm.wsize and not any(self.feasible(st, And(off < co + cs, co < off + n)) for co, (cs, _) in om.cells.items()):
            return w(off)
        if w is not None and t.k == 'i' and n == 8 and om.bm.wsize == 4 and not any(self.feasible(st, And(off < co + cs, co < off + n)) for co, (cs, _) in om.cells.items()):
            return self.pair(w(off), w(S(off + 4)))
        if t.k == 'p' and obj.name in getattr(self, 'opaque_globals', ()):
            return Ptr(None, self.fint('opaqueptr'))
        if t.k == 'p':
            raise Unsupported('pointer load at symbolic offset from %s' % obj.name)
        if n == 1:
            return self.read_byte(st, obj, off)
        bs = [self.read_byte(st, obj, S(off + k)) for k in range(n)]
        return self.norm(S(Concat(*reversed(bs))))

    def pair(self, lo, hi):
        """two adjacent words loaded together"""
        r = S(If(lo < 0, lo + (1 << 32), lo) + (1 << 32) * hi)
        if not isc(r):
            PAIR[r.get_id()] = (r, lo, hi)
        return r

    def norm(self, v):
        """constants of 16 bits and more are kept as integers"""
        if z3.is_bv_value(v) and v.size() > 8:
            return iv(v.as_signed_long())
        return v

    def store(self, st, p, ty, v, line):
        n = self.mod.size(ty)
        if z3.is_expr(v) and z3.is_bool(v):
            v = If(v, bv(1, 8), bv(0, 8))
        if not self.access(st, p, n, True, line):
            return
        h = getattr(p.obj, 'store_hook', None)
        if h and h(self, st, p.obj, S(p.off), n, v):
            return
        self.poke(st, p.obj, S(p.off), n, v)

    def poke(self, st, obj, off, n, v):
        om = st.wom(obj)
        if isc(off):
            o = cval(off)
            over = [co for co, (cs, _) in om.cells.items() if co < o + n and o < co + cs and not (co == o and cs == n)]
            for co in over:
                cs, cv = om.cells[co]
                if o <= co and co + cs <= o + n:
                    del om.cells[co]
                    continue
                if isinstance(cv, (Ptr, Fn)):
                    raise Unsupported('partial overwrite of pointer')
                self.spill(om, co)
            if n > 1 or isinstance(v, (Ptr, Fn)):
                om.cells[o] = (n, v)
                return
            om.cells.pop(o, None)
        else:
            if isinstance(v, (Ptr, Fn)):
                raise Unsupported('pointer store at symbolic offset')
            for co in list(om.cells):
                cs, cv = om.cells[co]
                if self.feasible(st, And(co < off + n, off < co + cs)):
                    if isinstance(cv, (Ptr, Fn)):
                        raise Unsupported('symbolic store may hit pointer cell of ' + obj.name)
                    self.spill(om, co)
        x = tobv(v, 8 * n)
        for k in range(n):
            b = x if n == 1 else S(Extract(8 * k + 7, 8 * k, x))
            om.bm = BMStore(om.bm, S(off + k), b)
        if n == 1 and isc(x) and cval(x) == 0:
            om.nuls = (om.nuls + (off,))[-6:]

    def store_range(self, st, obj, lo, n, fn):
        """bytes [lo,lo+n) := fn(idx)"""
        om = st.wom(obj)
        lo = S(lo) if z3.is_expr(lo) else iv(lo)
        n = S(n) if z3.is_expr(n) else iv(n)
        for co in list(om.cells):
            cs, cv = om.cells[co]
            c = S(And(co < lo + n, lo < co + cs))
            if z3.is_false(c) or not self.feasible(st, c):
                continue
            if isc(lo) and isc(n) and cval(lo) <= co and co + cs <= cval(lo) + cval(n):
                del om.cells[co]
                continue
            if isinstance(cv, (Ptr, Fn)):
                raise Unsupported('range store over pointer cell of ' + obj.name)
            self.spill(om, co)
        if isc(n) and cval(n) <= 8:
            vals = [S(fn(S(lo + k))) for k in range(cval(n))]
            for k in range(cval(n)):
                om.bm = BMStore(om.bm, S(lo + k), vals[k])
                if isc(vals[k]) and cval(vals[k]) == 0:
                    om.nuls = (om.nuls + (S(lo + k),))[-6:]
        else:
            om.bm = BMRange(om.bm, lo, S(lo + n), fn)

    def fresh(self, ty, st=None, name='v', as_bv=False):
        t = self.mod.res(ty) if isinstance(ty, ir.Type) else ty
        if t.k == 'i':
            if t.n == 1:
                return z3.Bool('%s!%d' % (name, uid()))
            if t.n == 8 or as_bv:
                return BitVec('%s!%d' % (name, uid()), t.n)
            v = z3.Int('%s!%d' % (name, uid()))
            st.add(v >= -(1 << (t.n - 1)), v < (1 << (t.n - 1)))
            return v
        if t.k == 'p':
            return NULL
        if t.k == 'v':
            return None
        if t.k == 'f':
            return ('float', uid())
        raise Unsupported('fresh ' + t.k)

    def fint(self, name, st=None, lo=None, hi=None):
        v = z3.Int('%s!%d' % (name, uid()))
        if lo is not None:
            st.add(v >= lo)
        if hi is not None:
            st.add(v <= hi)
        return v

    def i32(self, st, name='r'):
        return self.fint(name, st, -(1 << 31), (1 << 31) - 1)

    def p2i(self, p):
        if isinstance(p, Fn):
            return z3.Int('fnaddr!' + p.name)
        if p.obj is None:
            return p.off
        p.obj.addr_used = True
        return S(p.obj.base + p.off)

    # ---- operands -----------------------------------------------------------------------
    def glob(self, st, name):
        n = name[1:]
        if n in self.mod.funcs or (n in self.mod.decls and name not in self.mod.globals):
            return Fn(n)
        if name in self.gobj:
            o = self.gobj[name]
            self.restore_global(st, o)
            return Ptr(o, iv(0))
        if name not in self.mod.globals:
            raise Unsupported('global ' + name)
        ty, init, const = self.mod.globals[name]
        opaque = ty.k == 'n' and ty.name not in self.mod.types
        o = Obj(n, 8 if opaque else self.mod.size(ty), 'global', const=const, ty=ty)
        hook = self.global_init.get(n)
        st.objs[o.id] = o
        if hook:
            st.mem[o.id] = OM(BMBase(n))
            hook(self, st, o)
        elif init is not None and init[0] == 'str':
            om = OM(BMConst(init[1]))
            if 0 in init[1]:
                om.nuls = tuple(iv(k) for k, b in enumerate(init[1]) if b == 0)[:4]
                o.cstr = iv(init[1].index(0))
            st.mem[o.id] = om
        elif init is not None and const:
            st.mem[o.id] = OM(BMZero(), True)
            self.init_const(st, o, 0, ty, init)
        else:                 # mutable or external global: contents unknown at function entry
            st.mem[o.id] = OM(BMBase(n))
        o.init = st.mem[o.id].copy()
        self.gobj[name] = o
        return Ptr(o, iv(0))

    def restore_global(self, st, o):
        if o.id not in st.mem:
            st.objs[o.id] = o
            st.mem[o.id] = o.init.copy()
            for _, v in o.init.cells.values():
                if isinstance(v, Ptr) and v.obj is not None and getattr(v.obj, 'init', None) is not None:
                    self.restore_global(st, v.obj)

    def init_global(self, st, o):
        """give a mutable global its C initialiser (for functions that run once at start)"""
        ty, init, const = self.mod.globals['@' + o.name]
        st.mem[o.id] = OM(BMZero(), True)
        self.init_const(st, o, 0, ty, init)

    def init_const(self, st, o, off, ty, v):
        t = self.mod.res(ty)
        om = st.mem[o.id]
        if v[0] in ('zero', 'null', 'undef'):
            return
        if v[0] == 'str':
            om.bm = self._bytes_over(om.bm, off, v[1])
        elif v[0] == 'c':
            n = self.mod.size(t)
            if n == 1:
                om.bm = BMStore(om.bm, iv(off), bv(v[1], 8))
            else:
                om.cells[off] = (n, iv(v[1]))
        elif v[0] == 'agg':
            if t.k == 'a' and self.mod.res(t.el).k == 'i' and self.mod.res(t.el).n == 8:
                om.bm = self._bytes_over(om.bm, off, bytes((x[1] & 255) if x[0] == 'c' else 0 for _, x in v[1]))
                return
            for k, (et, ev) in enumerate(v[1]):
                eo = off + (k * self.mod.size(et) if t.k == 'a' else self.mod.fieldoff(t, k))
                self.init_const(st, o, eo, et, ev)
        else:
            om.cells[off] = (8, self.val(st, v, t))

    def _bytes_over(self, bm, off, data):
        if off == 0 and isinstance(bm, BMZero):
            return BMConst(data)
        c = BMConst(data)
        return BMRange(bm, iv(off), iv(off + len(data)), lambda i: c.read(S(i - off)))

    def val(self, st, v, ty):
        k = v[0]
        if k == 'r':
            return st.frames[-1].env[v[1]]
        if k == 'c':
            if ty.k == 'i' and ty.n == 1:
                return z3.BoolVal(bool(v[1]))
            if ty.n == 8:
                return bv(v[1], 8)
            return iv(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.glob(st, v[1])
        if k == 'undef':
            t = self.mod.res(ty)
            if t.k == 'p':
                return Ptr(None, self.fint('undefptr'))
            return self.fresh(ty, st, 'undef')
        if k == 'zero':
            t = self.mod.res(ty)
            if t.k == 'i':
                return iv(0) if t.n > 8 else bv(0, t.n)
            return NULL
        if k == 'gep':
            (_, base) = v[2][0]
            p = self.val(st, base, ir.PTR)
            return self.gep(st, v[1], p, v[2][1:])
        if k == 'ptrtoint':
            return self.p2i(self.val(st, v[2], v[1]))
        if k == 'inttoptr':
            x = self.val(st, v[2], v[1])
            return self.i2p(st, x)
        raise Unsupported('operand ' + k)

    def i2p(self, st, x):
        x = S(toint(x))
        if isc(x):
            return Ptr(None, x)
        for o in st.objs.values():
            if o.addr_used:
                d = S(x - o.base)
                if 'base!' not in str(d):
                    return Ptr(o, d)
        raise Unsupported('inttoptr')

    def gep(self, st, sty, p, idx):
        if isinstance(p, Fn):
            raise Unsupported('gep on function')
        ty = sty
        off = p.off
        lo, hi = p.lo, p.hi
        for k, (it, ivv) in enumerate(idx):
            x = toint(self.val(st, ivv, it))
            if k == 0:
                if ivv[0] == 'c' and ivv[1] == 0:
                    continue
                sz = self.mod.size(ty)
                off = off + x * sz if sz != 1 else off + x
                continue
            t = self.mod.res(ty)
            if t.k == 's':
                i = cval(S(x))
                fo = self.mod.fieldoff(t, i)
                off = S(off + fo)
                ty = t.el[i]
                ft = self.mod.res(ty) if not (ty.k == 'n' and ty.name not in self.mod.types) else None
                if ft is not None and ft.k == 'a':
                    lo, hi = off, S(off + self.mod.size(ft))
                else:
                    lo, hi = None, None
            elif t.k == 'a':
                ty = t.el
                off = off + x * self.mod.size(ty)
                et = self.mod.res(ty)
                if et.k in 'as':
                    lo, hi = None, None
            else:
                raise Unsupported('gep')
        return Ptr(p.obj, S(off), lo, hi)

    # ---- running -------------------------------------------------------------------------
    def run(self, st, fname, args, on_return, path=''):
        """execute fname from st to completion of this activation; on_return(st, ret) for each path"""
        f = self.mod.funcs.get(fname)
        if f is None:
            raise Unsupported('no definition of ' + fname)
        ir.lower(self.mod, f)
        fr = Frame(f, path + '/' + fname)
        if len(args) != len(f.params):
            raise Unsupported('%s: signature changed' % fname)
        for (ty, n), a in zip(f.params, args):
            fr.env[n] = a
        fr.ret = on_return
        st.frames.append(fr)
        self.work(st)

    def work(self, st0):
        stack = [st0]
        depth0 = len(st0.frames)
        while stack:
            st = stack.pop()
            self.stats['paths'] += 1
            if self.stats['paths'] > self.max_paths:
                raise Budget('path budget')
            r = self.path(st, stack)

    def path(self, st, stack):
        """run one path until it ends or forks"""
        while True:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.idx]
            self.curline = ins.line
            fr.idx += 1
            op = ins.op
            if op == 'phi':
                raise Unsupported('phi out of place')
            r = getattr(self, 'i_' + op, None)
            if r is None:
                raise Unsupported('instruction: ' + ins.txt)
            out = r(st, fr, ins)
            if out is None:
                continue
            # out: list of successor states (forked), possibly empty
            if len(out) == 1 and out[0] is st:
                continue
            stack.extend(out)
            return

    def goto(self, st, fr, label):
        """enter block; returns None to continue or list"""
        prev = fr.block
        fr.prev, fr.block, fr.idx = prev, label, 0
        blk = fr.f.blocks[label]
        phis = []
        for ins in blk:
            if ins.op != 'phi':
                break
            phis.append(ins)
        vals = {}
        for ins in phis:
            for v, l in ins.a[1]:
                if l == prev:
                    vals[ins.dst] = self.val(st, v, ins.a[0])
                    break
            else:
                raise Unsupported('phi edge')
        fr.idx = len(phis)
        if label in fr.f.loops:
            return self.loop_header(st, fr, label, prev, phis, vals)
        # leaving loops
        for h in [h for h in fr.loops if label not in fr.f.loops[h]]:
            del fr.loops[h]
        fr.env.update(vals)
        return None

    # ---- loops ---------------------------------------------------------------------------
    def shape(self, v):
        if isinstance(v, Fn):
            return ('fn', v.name)
        if isinstance(v, Ptr):
            return ('null',) if v.obj is None else ('obj', v.obj.name)
        return None

    def shapekey(self, key, st, pv):
        k = [(n, self.shape(v)) for n, v in pv.items() if self.shape(v)]
        for c in self.shapes[key]:
            if isinstance(c, tuple) and c[0] == 'cell':
                for o in st.named(c[1]):
                    x = st.om(o).cells.get(c[2])
                    k.append((c, o.id, self.shape(x[1]) if x else None))
        return tuple(sorted(k, key=str))

    def loop_header(self, st, fr, h, prev, phis, vals):
        body = fr.f.loops[h]
        key = fr.path + ':' + h
        for hh in [x for x in fr.loops if h not in fr.f.loops[x]]:
            del fr.loops[hh]
        back = h in fr.loops and prev in body
        if self.loop_hook is not None:
            r = self.loop_hook(self, st, fr, h, phis, vals, back)
            if r is not NotImplemented:
                return r
        if self.unroll is not None:
            n = fr.loops.get(h, 0) + 1 if back else 0
            if n > self.unroll:
                self.stats['cut'] = self.stats.get('cut', 0) + 1
                return []
            fr.loops[h] = n
            fr.env.update(vals)
            return None
        if self.unroll_sel is not None:
            k = self.unroll_sel(key, fr, h)
            if k:
                n = fr.loops.get(h, 0) + 1 if back else 0
                if n > k:
                    self.oblige(st, 'loop runs at most %d times' % k, False)
                    return []
                fr.loops[h] = n
                fr.env.update(vals)
                return None
        if self.auto_unroll:
            k = fr.loops[h][2] if back and fr.loops[h][0] == 'unroll' else (None if back else self.trip(fr, h, phis, vals))
            if k is not None:
                n = fr.loops[h][1] + 1 if back else 0
                if n > k:
                    self.oblige(st, 'loop runs at most %d times' % k, False)
                    return []
                fr.loops[h] = ('unroll', n, k)
                fr.env.update(vals)
                return None
        if self.tracing and self.unroll is None:
            n = fr.loops[h][1] + 1 if back else 0
            if n > self.tracing:
                return []
            pv = {i.dst: vals[i.dst] for i in phis}
            ctx = LoopCtx(self, key, st, pv, None)
            ctx.entry = fr.loops[h][2] if back else ctx
            ctx.fn = fr.f
            ctx.env = {n_: v for n_, v in fr.env.items() if n_ not in pv and (fr.f.defblock.get(n_) not in body)}
            if not back:
                ctx.st = st.snap()
            fr.loops[h] = ('trace', n, ctx.entry)
            fr.env.update(vals)
            cur = LoopCtx(self, key, st.snap(), pv, ctx.entry)
            cur.fn, cur.env = ctx.fn, ctx.env
            for fh in self.fact_hooks:
                for c in fh(cur) or ():
                    st.add(c)
            return None
        if back:
            return self.loop_back(st, fr, h, key, phis, vals)
        # ---- first arrival
        entry = {i.dst: vals[i.dst] for i in phis}
        es = st.snap()
        self.cur_key = key
        ctxe = LoopCtx(self, key, st, entry, None)
        ctxe.entry = ctxe
        ctxe.fn = fr.f
        ctxe.env = {n: v for n, v in fr.env.items() if n not in entry and (fr.f.defblock.get(n) not in body)}
        # record shapes
        sh = self.shapes.setdefault(key, {})
        for n, v in entry.items():
            s = self.shape(v)
            if s:
                sh.setdefault(n, {})[s] = v
        ms = self.modset.setdefault(key, set())
        sorts = sk = self.sorts.setdefault(key, {})
        tys = {i.dst: i.a[0] for i in phis}
        for n, v in entry.items():
            self.note_sort(sk, n, v)
        for (on, kind, off, sz) in ms:
            if kind != 'cell':
                continue
            for o in st.named(on):
                c = st.om(o).cells.get(off)
                if c is None:      # materialise so entry/current are comparable
                    try:
                        v0 = self.load(st, Ptr(o, iv(off)), ir.I[8 * sz] if self.shapes[key].get(('cell', on, off)) is None else ir.PTR, 0)
                        if not isinstance(v0, list):
                            st.wom(o).cells[off] = (sz, v0)
                    except Unsupported:
                        pass
                    c = st.om(o).cells.get(off)
                if c is not None and isinstance(c[1], (Ptr, Fn)):
                    sh.setdefault(('cell', on, off), {})[self.shape(c[1])] = c[1]
        es = st.snap()
        ctxe.st = es
        # ---- fork over pointer shapes
        alts = [(st, dict(entry))]
        for n, v in entry.items():
            if self.shape(v):
                new = []
                for (s2, pv) in alts:
                    items = list(sh[n].items())
                    for k, (s, ex) in enumerate(items):
                        s3 = s2.copy() if k < len(items) - 1 else s2
                        nv = self.havoc_ptr(s3, ex, entry[n], key, n)
                        if nv is None:
                            continue
                        d = dict(pv)
                        d[n] = nv
                        new.append((s3, d))
                alts = new
        res = []
        reg = {}      # the candidates of every shape: a path that comes back in that shape has to keep them
        for (s2, pv) in alts:
            for n, v in entry.items():
                if not self.shape(v):
                    pv[n] = self.havoc_int(s2, v, tys[n], sk.get(n, ()), n[1:])
            # havoc memory
            alts2 = [s2]
            for (on, kind, off, sz) in sorted(ms, key=str):
                if on == 'ghost':
                    for s3 in alts2:
                        g = s3.ghost.get(kind)
                        if g is None:
                            continue
                        if isinstance(g, BM):
                            s3.ghost[kind] = BMBase('g')
                        elif z3.is_bool(g):
                            s3.ghost[kind] = z3.Bool('gh!%d' % uid())
                        elif z3.is_bv(g):
                            s3.ghost[kind] = BitVec('gh_%s!%d' % (kind, uid()), g.size())
                        elif isint(g):
                            s3.ghost[kind] = z3.Int('gh_%s!%d' % (kind, uid()))
                        elif hasattr(g, 'havoc'):
                            s3.ghost[kind] = g.havoc(self, s3)
                        else:
                            raise Unsupported('ghost %s changes in loop' % (kind,))
                    continue
                for oid in [o.id for o in st.named(on)]:
                    nxt = []
                    for s3 in alts2:
                        if oid not in s3.objs:
                            nxt.append(s3)
                            continue
                        o = s3.objs[oid]
                        if kind == 'bm':
                            om = s3.wom(o)
                            fr_ = self.frames.get((key, on), [None])[0]
                            q1 = None
                            if fr_ is not None:
                                q0 = ctxe.q().get(fr_[0])
                                q1 = LoopCtx(self, key, s3, pv, ctxe).q().get(fr_[0])
                            fo = self.frame_off(ctxe, fr_) if fr_ is not None else None
                            if q1 is not None and q0 is not None and fo is not None:
                                # only [cursor at entry, cursor now) was written
                                nb = BMBase(o.name)
                                om.bm = BMRange(om.bm, S(q0 + fo), S(q1 + fo), nb.read)
                                s3.add(q0 <= q1)
                            else:
                                om.bm = BMBase(o.name)
                            om.nuls = ()
                            nxt.append(s3)
                        elif kind == 'cell':
                            psh = sh.get(('cell', on, off))
                            c = s3.om(o).cells.get(off)
                            if psh:
                                items = list(psh.items())
                                for k, (s_, ex) in enumerate(items):
                                    s4 = s3.copy() if k < len(items) - 1 else s3
                                    nv = self.havoc_ptr(s4, ex, c[1] if c else ex, key, (on, off))
                                    if nv is None:
                                        continue
                                    s4.wom(o).cells[off] = (8, nv)
                                    nxt.append(s4)
                            else:
                                s3.wom(o).cells[off] = (sz, self.havoc_int(s3, c[1] if c else None, ir.I[8 * sz], sorts.get((on, off), ()), '%s.%d' % (on, off)))
                                nxt.append(s3)
                        elif kind == 'alive':
                            ah = getattr(self, 'alive_havoc', None)
                            if not ah or not ah(s3, o):
                                raise Unsupported('object %s freed in loop' % on)
                            nxt.append(s3)
                    alts2 = nxt
            for s3 in alts2:
                s3.hav = True
                ctx = LoopCtx(self, key, s3, pv, ctxe)
                cl = self.candidates(ctx)
                # init check for live candidates
                drop = self.dropped.setdefault(key, set())
                live = [(l, fn) for l, fn in cl if l not in drop]
                ctx.frozen = ctxe.frozen = True
                self.pw_prepare(es, live)
                self.houdini(es, ctxe, live, drop, key, init=True)
                live = [(l, fn) for l, fn in live if l not in drop]
                reg.setdefault(self.shapekey(key, s3, pv), {}).update(live)
                for l, fn in live:
                    c = fn(ctx)
                    if c is not None:
                        s3.add(c)
                    if getattr(fn, 'pw', None) is not None:
                        s3.pw.append((fn.pw, lambda off, fn=fn, ctx=ctx: fn.at(ctx, off)))
                for fh in self.fact_hooks:
                    for c in fh(ctx) or ():
                        s3.add(c)
                f3 = s3.frames[-1]
                f3.env.update(pv)
                f3.loops[h] = (ctxe, pv, s3.snap(), live, ctx, reg)
                ctx.st = f3.loops[h][2]
                if self.feasible(s3):
                    res.append(s3)
        return res

    def trip(self, fr, h, phis, vals):
        """number of iterations of a counted loop: its counters start at constants and only constants decide one of its exits; None otherwise"""
        body = fr.f.loops[h]
        defs = {}
        for b in body:
            for ins in fr.f.blocks[b]:
                if getattr(ins, 'dst', None) is not None:
                    defs[ins.dst] = ins
        ph = {i.dst: i for i in phis}
        cur = {}
        for i in phis:
            v = vals[i.dst]
            if i.a[0].k == 'i' and z3.is_expr(v) and not z3.is_bool(v) and isc(S(v)):
                cur[i.dst] = cval(S(v)) % (1 << i.a[0].n)

        def ev(v, n, depth=0):
            if v[0] == 'c':
                return v[1] % (1 << n)
            if v[0] != 'r' or depth > 12:
                return None
            if v[1] in ph:
                return cur.get(v[1])
            ins = defs.get(v[1])
            if ins is None:
                return None
            if ins.op in ('add', 'sub', 'mul', 'shl', 'lshr'):
                ty, a, b = ins.a[0], ins.a[1], ins.a[2]
                x, y = ev(a, ty.n, depth + 1), ev(b, ty.n, depth + 1)
                if x is None or y is None:
                    return None
                if ins.op in ('shl', 'lshr') and y >= ty.n:
                    return None
                return {'add': x + y, 'sub': x - y, 'mul': x * y, 'shl': x << (y % 64), 'lshr': x >> (y % 64)}[ins.op] % (1 << ty.n)
            if ins.op in ('zext', 'sext', 'trunc'):
                ty, a, to = ins.a
                x = ev(a, ty.n, depth + 1)
                if x is None:
                    return None
                if ins.op == 'sext' and x >> (ty.n - 1):
                    x -= 1 << ty.n
                return x % (1 << to.n)
            if ins.op == 'icmp':
                pred, ty, a, b = ins.a
                if ty.k != 'i':
                    return None
                x, y = ev(a, ty.n, depth + 1), ev(b, ty.n, depth + 1)
                if x is None or y is None:
                    return None
                if pred[0] == 's':
                    x, y = (x - (1 << ty.n) if x >> (ty.n - 1) else x), (y - (1 << ty.n) if y >> (ty.n - 1) else y)
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])
            return None
        for k in range(self.auto_unroll + 1):
            if not cur:
                return None
            for b in body:
                t = fr.f.blocks[b][-1]
                if t.op == 'br' and len(t.a) == 3:
                    ins_, outs = (t.a[1] in body), (t.a[2] in body)
                    if ins_ != outs:
                        c = ev(t.a[0], 1)
                        if c is not None and bool(c) != ins_:
                            return k
            nxt = {}
            for i in phis:
                if i.dst in cur:
                    vs = {ev(v, i.a[0].n) for v, l in i.a[1] if l in body}
                    if len(vs) == 1 and None not in vs:
                        nxt[i.dst] = vs.pop()
            cur = nxt
        return None

    def note_sort(self, sk, n, v):
        if isinstance(v, (Ptr, Fn, tuple)) or v is None or z3.is_bool(v) or isc(S(v)):
            return
        k = 'int' if z3.is_int(v) else 'bv'
        d = sk.setdefault(n, set())
        if k not in d:
            d.add(k)
            self.dirty = True

    def havoc_int(self, st, v, ty, kinds, name):
        if isinstance(v, tuple):
            return ('float', uid())
        if ty.n == 1:
            return z3.Bool('%s!h%d' % (name, uid()))
        if ty.n == 8 or ('bv' in kinds and 'int' not in kinds):
            return BitVec('%s!h%d' % (name, uid()), ty.n)
        return self.fresh(ty, st, name + '!h')

    def havoc_ptr(self, st, ex, ent, key, name):
        h = getattr(self, 'ptr_havoc', None)
        if h:
            r = h(st, ex, ent, key, name)
            if r is not None:
                return r if r != 'skip' else None
        if isinstance(ex, Fn):
            return ex
        if ex.obj is None:
            return NULL
        if ex.obj.id not in st.mem:
            # an object born in an earlier pass / other path: match by name
            for o in st.objs.values():
                if o.name == ex.obj.name:
                    return Ptr(o, self.fint('ho_' + o.name), ex.lo, ex.hi)
            return None
        return Ptr(ex.obj, self.fint('ho_' + ex.obj.name), ex.lo, ex.hi)

    def houdini(self, st, ctx, live, drop, key, init):
        """drop every candidate that is not implied by st.pc; ctx gives the values"""
        fs = []
        for l, fn in live:
            if l in drop:
                continue
            try:
                c = fn(ctx)
            except (KeyError, AttributeError):
                c = z3.BoolVal(False)
            if c is None:
                continue
            c = S(c) if z3.is_expr(c) else z3.BoolVal(c)
            if z3.is_false(c):
                drop.add(l)
                self.dirty = True
                continue
            if not z3.is_true(c):
                fs.append((l, c))
        while fs:
            if self.final:
                pass
            r, m = self.check(st.pc, Not(And(*[c for _, c in fs])), True)
            if r == 'unsat':
                break
            if r == 'sat':
                keep = []
                n = 0
                for l, c in fs:
                    if z3.is_false(m.eval(c, model_completion=True)):
                        drop.add(l)
                        n += 1
                    else:
                        keep.append((l, c))
                self.dirty = True
                if n == 0:
                    # model evaluation inconclusive: fall to individual checks
                    r = 'unknown'
                fs = keep
            if r not in ('sat', 'unsat'):
                keep = []
                for l, c in fs:
                    r1, _ = self.check(st.pc, Not(c))
                    if r1 != 'unsat':
                        drop.add(l)
                        self.dirty = True
                        if r1 != 'sat':
                            self.soft = True      # given up, not refuted: later failures may be spurious
                    else:
                        keep.append((l, c))
                fs = []
        return

    def loop_back(self, st, fr, h, key, phis, vals):
        ctxe, pv, hs, live, hctx, reg = fr.loops[h]
        # modifications
        ms = self.modset[key]
        n0 = len(ms)
        sh = self.shapes[key]
        for oid, om in st.mem.items():
            o0 = hs.mem.get(oid)
            if o0 is None or o0 is om:
                continue
            on = st.objs[oid].name
            if om.alive != o0.alive:
                ms.add((on, 'alive', 0, 0))
            if om.bm is not o0.bm:
                ms.add((on, 'bm', None, 0))
                self.check_frame(st, key, on, om.bm, o0.bm, hctx, LoopCtx(self, key, st, vals, ctxe))
            for off in set(om.cells) | set(o0.cells):
                a, b = om.cells.get(off), o0.cells.get(off)
                if a is b or a is None:
                    continue
                if b is None:
                    # created by a load (deterministic name) or a real store
                    if not isinstance(a[1], (Ptr, Fn)) and a[1].decl().name().startswith('%s@%d.' % (on, off)):
                        continue
                    lz = st.objs[oid].lazy.get(off)
                    if lz is not None and getattr(lz, 'pure', False):
                        continue
                elif self.same(a[1], b[1]):
                    continue
                if isinstance(a[1], (Ptr, Fn)):
                    d = sh.setdefault(('cell', on, off), {})
                    s = self.shape(a[1])
                    if s not in d:
                        d[s] = a[1]
                        self.dirty = True
                else:
                    self.note_sort(self.sorts[key], (on, off), a[1])
                ms.add((on, 'cell', off, a[0]))
        for g, v in st.ghost.items():
            w = hs.ghost.get(g)
            if w is v or w is None:
                continue
            if z3.is_expr(v) and z3.is_expr(w) and v.eq(w):
                continue
            if not z3.is_expr(v) and not isinstance(v, BM) and not hasattr(v, 'havoc'):
                if v == w:
                    continue
                raise Unsupported('ghost %s changes in loop' % (g,))
            ms.add(('ghost', g, 0, 0))
        if len(ms) != n0:
            self.dirty = True
        for n, v in vals.items():
            s = self.shape(v)
            self.note_sort(self.sorts[key], n, v)
            if s and s not in sh.setdefault(n, {}):
                sh[n][s] = v
                self.dirty = True
        if self.dirty and len(ms) != n0:
            return []
        ctx = LoopCtx(self, key, st, vals, ctxe)
        ctx.frozen = True
        for fh in self.fact_hooks:
            for c in fh(ctx) or ():
                st.add(c)
        mine = {l for l, fn in live}
        live = live + [(l, fn) for l, fn in reg.get(self.shapekey(key, st, vals), {}).items() if l not in mine and l not in self.dropped[key]]
        self.pw_prepare(st, live)
        self.houdini(st, ctx, live, self.dropped[key], key, False)
        if self.final and key not in self.noterm and not getattr(self, 'partial', False):
            self.measure(st, ctx, hctx, key)
        return []

    def envints(self, ctx, maxn=14):
        """loop-invariant integers of the current frame (registers defined before the loop)"""
        env = getattr(ctx.entry, 'env', None) or {}
        out, seen = [], set()
        for nm, v in env.items():
            if isint(v) and not isc(S(v)) and v.get_id() not in seen and nm not in ctx.phis:
                seen.add(v.get_id())
                out.append((nm, v))
        return out[-maxn:]

    def loopconsts(self, ctx):
        """constants the loop compares against"""
        f = getattr(ctx.entry, 'fn', None)
        h = ctx.key.rsplit(':', 1)[1]
        if f is None or h not in f.loops:
            return []
        out = set()
        for b in f.loops[h]:
            for i in f.blocks[b]:
                if i.op == 'icmp' and i.a[1].k == 'i' and i.a[1].n >= 32:
                    for v in i.a[2:4]:
                        if v[0] == 'c' and v[1] not in (0, -1):
                            out.add(v[1])
        return sorted(out)[:8]

    def frame_off(self, ctx, f):
        if f[1] is None:
            return iv(f[2])
        v = (getattr(ctx.entry, 'env', None) or {}).get(f[1])
        return None if v is None or not isint(v) else v + f[2]

    def check_frame(self, st, key, on, bm, base, hctx, ctx):
        """all bytes written in this iteration lie in [cursor at loop entry, cursor at the back edge)?"""
        ws = []
        n = bm
        while n is not base:
            if isinstance(n, BMStore):
                ws.append((n.idx, S(n.idx + 1)))
            elif isinstance(n, BMRange):
                ws.append((n.lo, n.hi))
            else:
                ws = None
                break
            n = n.prev
        fk = (key, on)
        if fk not in self.frames:
            c = []
            if ws and self.use_frames:
                q = hctx.q()
                env = self.envints(hctx)
                for lo, hi in ws:
                    for l, t in q.items():
                        d = S(lo - t)
                        if isc(d) and abs(cval(d)) < 100000:
                            if (l, None, cval(d)) not in c:
                                c.append((l, None, cval(d)))
                            continue
                        for (en, ev) in env:
                            d2 = S(d - ev)
                            if isc(d2) and abs(cval(d2)) < 100000 and (l, en, cval(d2)) not in c:
                                c.append((l, en, cval(d2)))
                c.sort(key=lambda x: x[2])
            self.frames[fk] = c + [None]
            self.dirty = True
            return
        while True:
            f = self.frames[fk][0]
            if f is None:
                return
            ok = ws is not None
            if ok:
                e, q1 = ctx.entry.q().get(f[0]), ctx.q().get(f[0])
                fo = self.frame_off(hctx, f)
                ok = e is not None and q1 is not None and fo is not None and self.prove(
                    st, And(e <= q1, *[Or(hi <= lo, And(lo >= e + fo, hi <= q1 + fo)) for lo, hi in ws]))
            if ok:
                return
            self.frames[fk].pop(0)
            self.dirty = True

    def same(self, a, b):
        if isinstance(a, Ptr):
            return a.same(b)
        if isinstance(a, Fn):
            return isinstance(b, Fn) and a.name == b.name
        return z3.is_expr(b) and a.eq(b)

    # ---- candidates ------------------------------------------------------------------------
    def candidates(self, ctx):
        out = []
        for hk in self.cand_hooks:
            out += [(l, fn) for l, fn in (hk(ctx) or ())]
        if not self.templates:
            return out
        qn = list(ctx.q().keys())
        eq_ = ctx.entry.q()

        def get(c, n):
            return c.q().get(n)
        G = {}

        def qq(c):
            k = id(c)
            if k not in G:
                G[k] = (c.q(), c)
            return G[k][0]

        def mk(f):
            def g(c):
                q = qq(c)
                e = qq(c.entry)
                try:
                    return f(q, e)
                except KeyError:
                    return None
            return g
        bnds = list(self.bounds)
        for n, v in ctx.phis.items():
            if isinstance(v, Ptr) and v.obj is not None:
                bnds.append(('size(%s)' % v.obj.name, v.obj.size))
        # loop-invariant integers of the frame (arguments)
        bnds += self.envints(ctx)
        bnds += [(str(c), iv(c)) for c in self.loopconsts(ctx)]
        seenb = set()
        bb = []
        for l, t in bnds:
            t = S(t)
            if t.get_id() not in seenb:
                seenb.add(t.get_id())
                bb.append((l, t))
        for a in qn:
            out.append(('%s>=0' % a, mk(lambda q, e, a=a: q[a] >= 0)))
            out.append(('%s>=entry' % a, mk(lambda q, e, a=a: q[a] >= e[a])))
            out.append(('%s<=entry' % a, mk(lambda q, e, a=a: q[a] <= e[a])))
            for l, t in bb:
                out.append(('%s<=%s' % (a, l), mk(lambda q, e, a=a, t=t: q[a] <= t)))
                out.append(('%s<%s' % (a, l), mk(lambda q, e, a=a, t=t: q[a] < t)))
            for m in self.mods:
                out.append(('%s%%%d' % (a, m), mk(lambda q, e, a=a, m=m: (q[a] - e[a]) % m == 0)))
        for (on, kind, off, sz) in sorted(self.modset.get(ctx.key, ()), key=str):
            if kind == 'bm':
                for o in ctx.st.named(on):
                    if isc(S(o.size)) and cval(S(o.size)) <= 16:
                        for j in range(cval(S(o.size))):
                            out.append(('%s[%d] unchanged' % (on, j), lambda c, o=o, j=j: c.st.om(o).bm.read(iv(j)) == c.entry.st.om(o).bm.read(iv(j))))
        for n, v in ctx.phis.items():       # a register caching the byte under a cursor
            if isinstance(v, (Ptr, Fn, tuple)) or v is None or not z3.is_bv(v):
                continue
            for a in qn:
                if '@' in a and (a.startswith('o:') or a.startswith('mo:')):
                    for o in ctx.st.named(a.split('@', 1)[1])[:1]:
                        def cur(c, n=n, a=a, o=o, w=v.size()):
                            x = c.phis.get(n)
                            if x is None or not z3.is_expr(x) or a not in c.q() or o.id not in c.st.mem:
                                return None
                            b = c.st.om(o).bm.read(S(c.q()[a]))
                            x = tobv(x, w)
                            return x == (b if w == 8 else SignExt(w - 8, b))
                        out.append(('%s=*%s' % (n, a), cur))
        for i, a in enumerate(qn):
            for b in qn[i + 1:]:
                out.append(('%s-%s' % (a, b), mk(lambda q, e, a=a, b=b: q[a] - q[b] == e[a] - e[b])))
                out.append(('%s+%s' % (a, b), mk(lambda q, e, a=a, b=b: q[a] + q[b] == e[a] + e[b])))
                out.append(('%s<=%s' % (a, b), mk(lambda q, e, a=a, b=b: q[a] - e[a] <= q[b] - e[b])))
                out.append(('%s>=%s' % (a, b), mk(lambda q, e, a=a, b=b: q[a] - e[a] >= q[b] - e[b])))
        return out

    def measure(self, st, ctx, hctx, key):
        q0, q1 = hctx.q(), ctx.q()
        if key not in self.measures:
            ml = []
            for a in q0:
                ml.append(('dec', a, None))
                ml.append(('inc', a, None))
            for a in q0:
                for b in q0:
                    if a != b:
                        ml.append(('dif', a, b))
            for l, fn in self.measure_terms:
                ml.append(('term', l, fn))
            self.measures[key] = ml
        keep = []
        for (k, a, b) in self.measures[key]:
            if k == 'term':
                d0, d1 = b(hctx), b(ctx)
                if self.prove(st, And(d1 < d0, d0 >= 0, d1 >= -2 ** 20)):
                    keep.append((k, a, b))
                continue
            if a not in q1 or a not in q0 or (b and (b not in q1 or b not in q0)):
                continue
            if k == 'dec':
                c = And(q1[a] < q0[a], q0[a] >= 0, q1[a] >= -1)
            elif k == 'inc':          # strictly increasing and bounded above by a fixed term
                c = And(q1[a] > q0[a], q1[a] <= 2 ** 62)
            else:
                d0, d1 = q0[a] - q0[b], q1[a] - q1[b]
                c = And(d1 < d0, d0 >= 0, d1 >= -2 ** 20)
            if self.prove(st, c):
                keep.append((k, a, b))
        self.measures[key] = keep

    # ---- instructions ------------------------------------------------------------------------
    def i_br(self, st, fr, ins):
        if len(ins.a) == 1:
            return self.goto(st, fr, ins.a[0])
        c = self.val(st, ins.a[0], ir.I[1])
        return self.branch(st, c, lambda s: self.goto(s, s.frames[-1], ins.a[1]), lambda s: self.goto(s, s.frames[-1], ins.a[2]))

    def branch(self, st, c, ft, ff):
        c = S(c)
        if z3.is_true(c):
            return ft(st)
        if z3.is_false(c):
            return ff(st)
        t = self.feasible(st, c)
        e = self.feasible(st, Not(c)) if t else True
        if t and not e:
            return ft(st)
        if e and not t:
            return ff(st)
        s2 = st.copy()
        st.add(c)
        s2.add(Not(c))
        out = []
        for s, g in ((st, ft), (s2, ff)):
            line = self.curline
            r = g(s)
            self.curline = line
            out += [s] if r is None else r
        return out

    def i_switch(self, st, fr, ins):
        ty, v, d, cs = ins.a
        x = S(self.val(st, v, ty))
        n = ty.n

        def eq(c):
            return x == (bv(c, n) if z3.is_bv(x) else c)
        if isc(x):
            for c, l in cs:
                if z3.is_true(S(eq(c))):
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        out = []
        groups = {}
        for c, l in cs:
            groups.setdefault(l, []).append(eq(c))
        for l, conds in list(groups.items()):
            cond = S(Or(*conds))
            if self.feasible(st, cond):
                s2 = st.copy()
                s2.add(cond)
                r = self.goto(s2, s2.frames[-1], l)
                out += [s2] if r is None else r
        nd = S(And(*[Not(eq(c)) for c, _ in cs]))
        if self.feasible(st, nd):
            st.add(nd)
            r = self.goto(st, fr, d)
            out += [st] if r is None else r
        return out

    def i_ret(self, st, fr, ins):
        ty, v = ins.a
        r = None if v is None else self.val(st, v, ty)
        for o in fr.allocas:
            if o.id in st.mem:
                st.wom(o).alive = False
        st.frames.pop()
        if callable(fr.ret):
            self.stats['returns'] += 1
            st.frames.append(fr)     # keep for line info
            try:
                fr.ret(st, r)
            finally:
                st.frames.pop()
            return []
        if fr.ret is not None:
            st.frames[-1].env[fr.ret] = r
        return None

    def i_unreachable(self, st, fr, ins):
        return []

    def i_alloca(self, st, fr, ins):
        ty, n = ins.a
        sz = self.mod.size(ty)
        size = iv(sz)
        if n is not None:
            c = toint(self.val(st, n[1], n[0]))
            size = S(c * sz)
        o = self.newobj(st, '%s.%s' % (fr.f.name, ins.dst[1:]), size, 'stack', ty=ty)
        fr.allocas.append(o)
        fr.env[ins.dst] = Ptr(o, iv(0))

    def i_load(self, st, fr, ins):
        ty, pv = ins.a
        p = self.val(st, pv, ir.PTR)
        v = self.load(st, p, ty, ins.line)
        if isinstance(v, list):      # forked: [(state-constraint, value)]
            out = []
            for k, (cond, vv, upd) in enumerate(v):
                s2 = st.copy() if k < len(v) - 1 else st
                if cond is not None:
                    s2.add(cond)
                if cond is not None and not self.feasible(s2):
                    continue
                if isinstance(vv, tuple) and vv[0] == 'mk':      # object created lazily in the forked state
                    vv[1](s2)
                    vv = self.load(s2, p, ty, ins.line)
                elif upd:
                    upd(s2)
                s2.frames[-1].env[ins.dst] = vv
                out.append(s2)
            return out
        fr.env[ins.dst] = v

    def i_store(self, st, fr, ins):
        ty, v, pv = ins.a
        self.store(st, self.val(st, pv, ir.PTR), ty, self.val(st, v, ty), ins.line)

    def i_getelementptr(self, st, fr, ins):
        sty, base, idx = ins.a
        fr.env[ins.dst] = self.gep(st, sty, self.val(st, base, ir.PTR), idx)

    def i_phi(self, st, fr, ins):
        raise Unsupported('phi')

    def i_freeze(self, st, fr, ins):
        fr.env[ins.dst] = self.val(st, ins.a[1], ins.a[0])

    def ovf(self, st, name, c, line):
        if self.check_overflow:
            self.oblige(st, name, c, line)

    def wrap(self, st, r, n):
        """two's complement wrap of the exact integer r"""
        r = S(r)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if isc(r):
            v = (cval(r) - lo) % (1 << n) + lo
            return iv(v)
        if self.prove(st, And(r >= lo, r <= hi)):
            return r
        return S(If(And(r >= lo, r <= hi), r, (r - lo) % (1 << n) + lo))

    def _bin(op):
        def f(self, st, fr, ins):
            ty, a, b, fl = ins.a
            x, y = self.val(st, a, ty), self.val(st, b, ty)
            fr.env[ins.dst] = self.arith(st, op, ty.n, x, y, fl, ins.line)
        return f
    for _o in ir.BIN:
        locals()['i_' + _o] = _bin(_o)

    def arith(self, st, op, n, x, y, fl, line):
        if z3.is_bool(x):
            return S({'and': lambda: And(x, y), 'or': lambda: Or(x, y), 'xor': lambda: z3.Xor(x, y)}[op]())
        xb, yb = z3.is_bv(x) and not isc(x), z3.is_bv(y) and not isc(y)
        xi, yi = z3.is_int(x) and not isc(x), z3.is_int(y) and not isc(y)
        use_bv = n == 8 or ((xb or yb) and not (xi or yi))
        if op in ('and', 'or', 'lshr', 'ashr') and xi and x.get_id() in BITS and BITS[x.get_id()][1].size() == n:
            x, xi, xb = BITS[x.get_id()][1], False, True
            use_bv = not yi
        if op in ('and', 'or', 'xor') and not use_bv:
            if isc(x) and isc(y):
                X, Y = bv(cval(x), n), bv(cval(y), n)
                r = S({'and': X & Y, 'or': X | Y, 'xor': X ^ Y}[op])
                return iv(r.as_signed_long())
            k, v = (cval(x), y) if isc(x) else (cval(y), x) if isc(y) else (None, None)
            if k is not None and z3.is_int(v):
                k %= 1 << n
                if op == 'and':
                    if k == 0:
                        return iv(0)
                    if k & (k + 1) == 0:
                        return self.sgn(S(v % (k + 1)), n, k)
                    if k & (k - 1) == 0:
                        b_ = k.bit_length() - 1
                        return S(If((v / (1 << b_)) % 2 == 1, iv(k if b_ < n - 1 else -k), iv(0)))
                    inv = (1 << n) - 1 - k
                    if inv & (inv + 1) == 0:
                        return S(v - v % (inv + 1))
                if op in ('or', 'xor') and k == 0:
                    return v
            use_bv = True
        if op in ('shl', 'lshr', 'ashr') and not use_bv and not isc(y):
            use_bv = True
        if op == 'mul' and use_bv and n > 8:
            use_bv = False
        if use_bv and not (n == 8) and (xi or yi) and op in ('add', 'sub', 'mul'):
            use_bv = False
        if use_bv:
            return self.norm(S(self.arith_bv(st, op, n, tobv(x, n), tobv(y, n), fl, line)))
        x, y = toint(x), toint(y)
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if op in ('add', 'sub', 'mul', 'shl'):
            if op == 'shl':
                k = cval(y)
                if not 0 <= k < n:
                    self.oblige(st, 'shift amount in range', False, line)
                    return self.fresh(ir.I[n], st)
                r = S(x * (1 << k))
            else:
                r = S(x + y if op == 'add' else x - y if op == 'sub' else x * y)
            if 'nsw' in fl:
                if not isc(r) and self.check_overflow:
                    self.oblige(st, 'no signed overflow', And(r >= lo, r <= hi), line)
                    return r
            return self.wrap(st, r, n)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.oblige(st, 'no division by zero', y != 0, line)
            if op[0] == 'u':
                x, y = self.uns(st, x, n), self.uns(st, y, n)
                return self.sgn(S(x / y if op == 'udiv' else x % y), n)
            if isc(y) and cval(y) > 0:
                q = If(x >= 0, x / y, -((-x) / y))
            else:
                self.oblige(st, 'no division overflow', Not(And(x == lo, y == -1)), line)
                q = If((x >= 0) == (y > 0), If(x >= 0, x, -x) / If(y >= 0, y, -y), -(If(x >= 0, x, -x) / If(y >= 0, y, -y)))
            return S(q) if op == 'sdiv' else S(x - y * q)
        if op in ('lshr', 'ashr'):
            k = cval(y)
            e = PAIR.get(x.get_id())
            if e and k == 32 and n == 64 and e[2] is not None:
                hi = e[2]
                r = S(If(hi < 0, hi + (1 << 32), hi)) if op == 'lshr' else hi
                if not isc(r):
                    PAIR.setdefault(r.get_id(), (r, hi, None))
                return r
            if op == 'lshr':
                x = self.uns(st, x, n)
            return self.sgn(S(x / (1 << k)), n) if k == 0 else S(x / (1 << k))
        raise Unsupported(op)

    def uns(self, st, x, n):
        if isc(x):
            return iv(cval(x) % (1 << n))
        if self.prove(st, x >= 0):
            return x
        return S(If(x >= 0, x, x + (1 << n)))

    def sgn(self, x, n, maxv=None):
        if isc(x):
            v = cval(x) % (1 << n)
            return iv(v - (1 << n) if v >> (n - 1) else v)
        if maxv is not None and maxv < (1 << (n - 1)):
            return x
        return S(If(x >= (1 << (n - 1)), x - (1 << n), x))

    def arith_bv(self, st, op, n, x, y, fl, line):
        if 'nsw' in fl and op in ('add', 'sub', 'mul') and not (isc(x) and isc(y)):
            if op == 'add':
                c = And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                c = And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.ovf(st, 'no signed overflow', c, line)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.oblige(st, 'no division by zero', y != 0, line)
            if op[0] == 's':
                self.oblige(st, 'no division overflow', Not(And(x == bv(1 << (n - 1), n), y == bv(-1, n))), line)
        if op in ('shl', 'lshr', 'ashr') and not isc(y):
            self.oblige(st, 'shift amount in range', ULT(y, bv(n, n)), line)
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y),
                'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y), 'and': lambda: x & y, 'or': lambda: x | y,
                'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()

    def i_trunc(self, st, fr, ins):
        ty, v, to = ins.a
        fr.env[ins.dst] = self.trunc(st, self.val(st, v, ty), ty.n, to.n)

    def trunc(self, st, x, n, m):
        if z3.is_bv(x) and not isc(x):
            if m == 1:
                return S(Extract(0, 0, x) == bv(1, 1))
            return self.norm(S(Extract(m - 1, 0, x)))
        if m == 1:
            return S(toint(x) % 2 == 1)
        if m == 32 and x.get_id() in PAIR:
            return PAIR[x.get_id()][1]
        if m == 8:
            e = INT2BV.get(x.get_id())
            if e and e[1].size() >= 8:
                return S(Extract(7, 0, e[1]))
            return S(tobv(toint(x), 8)) if not isc(x) else bv(cval(x), 8)
        return self.wrap(st, toint(x), m)

    def i_zext(self, st, fr, ins):
        ty, v, to = ins.a
        x = self.val(st, v, ty)
        if z3.is_bool(x):
            r = S(If(x, iv(1), iv(0))) if to.n > 8 else S(If(x, bv(1, 8), bv(0, 8)))
        elif z3.is_bv(x):
            r = self.norm(S(ZeroExt(to.n - ty.n, x)))
            if z3.is_bv(r) and not isc(r):
                EXT[r.get_id()] = (r, 'z', x)
        else:
            r = self.uns(st, x, ty.n)
        fr.env[ins.dst] = r

    def i_sext(self, st, fr, ins):
        ty, v, to = ins.a
        x = self.val(st, v, ty)
        if z3.is_bool(x):
            r = S(If(x, iv(-1), iv(0))) if to.n > 8 else S(If(x, bv(-1, 8), bv(0, 8)))
        elif z3.is_bv(x):
            r = self.norm(S(SignExt(to.n - ty.n, x)))
            if z3.is_bv(r) and not isc(r):
                EXT[r.get_id()] = (r, 's', x)
        else:
            r = x
        fr.env[ins.dst] = r

    def i_ptrtoint(self, st, fr, ins):
        ty, v, to = ins.a
        x = self.p2i(self.val(st, v, ty))
        fr.env[ins.dst] = self.wrap(st, x, to.n) if to.n < 64 else x

    def i_inttoptr(self, st, fr, ins):
        ty, v, to = ins.a
        fr.env[ins.dst] = self.i2p(st, self.val(st, v, ty))

    def i_fopaque(self, st, fr, ins):
        """floating point is unconstrained: any comparison may go either way"""
        fr.env[ins.dst] = z3.Bool('fcmp!%d' % uid()) if ins.a[0] == 'fcmp' else ('float', uid())

    def i_sitofp(self, st, fr, ins):
        fr.env[ins.dst] = ('float', uid())
    i_uitofp = i_fpext = i_fptrunc = i_sitofp

    def i_bitcast(self, st, fr, ins):
        fr.env[ins.dst] = self.val(st, ins.a[1], ins.a[0])

    def i_select(self, st, fr, ins):
        c, ty, a, b = ins.a
        cc = S(self.val(st, c, ir.I[1]))
        x, y = self.val(st, a, ty), self.val(st, b, ty)
        if z3.is_true(cc):
            fr.env[ins.dst] = x
            return
        if z3.is_false(cc):
            fr.env[ins.dst] = y
            return
        if isinstance(x, (Ptr, Fn)):
            def setv(v):
                def g(s):
                    s.frames[-1].env[ins.dst] = v
                return g
            return self.branch(st, cc, setv(x), setv(y))
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            x, y = toint(x), toint(y)
        fr.env[ins.dst] = S(If(cc, x, y))

    def peq(self, st, x, y):
        """equality of pointers as Bool"""
        if isinstance(x, Fn) or isinstance(y, Fn):
            if isinstance(x, Fn) and isinstance(y, Fn):
                return z3.BoolVal(x.name == y.name)
            return z3.BoolVal(False)
        if x.obj is y.obj:
            return x.off == y.off
        if x.obj is None or y.obj is None:
            o = x if x.obj is None else y
            p = y if x.obj is None else x
            if isc(S(o.off)) and cval(S(o.off)) == 0:
                return z3.BoolVal(False)
            return z3.Bool('pe!%d' % uid())
        return z3.BoolVal(False)

    def i_icmp(self, st, fr, ins):
        pred, ty, a, b = ins.a
        x, y = self.val(st, a, ty), self.val(st, b, ty)
        if ty.k == 'p':
            if pred in ('eq', 'ne'):
                c = self.peq(st, x, y)
                fr.env[ins.dst] = S(c if pred == 'eq' else Not(c))
                return
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.obj is not None:
                # both in one object: compare offsets (signed so that base-1 compares below base)
                x, y = x.off, y.off
                pred = 's' + pred[1:]
            else:
                x, y = self.p2i(x), self.p2i(y)
        fr.env[ins.dst] = S(self.icmp(st, pred, x, y, ty.n if ty.k == 'i' else 64))

    def icmp(self, st, pred, x, y, n):
        if z3.is_bool(x):
            c = x == y
            return c if pred == 'eq' else Not(c)
        xb, yb = z3.is_bv(x) and not isc(x), z3.is_bv(y) and not isc(y)
        xi, yi = z3.is_int(x) and not isc(x), z3.is_int(y) and not isc(y)
        if n == 8 or ((xb or yb) and not (xi or yi)):
            x, y = tobv(x, n), tobv(y, n)
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y,
                    'sge': lambda: x >= y, 'ult': lambda: ULT(x, y), 'ule': lambda: ULE(x, y), 'ugt': lambda: UGT(x, y),
                    'uge': lambda: UGE(x, y)}[pred]()
        x, y = toint(x), toint(y)
        if pred == 'eq':
            return x == y
        if pred == 'ne':
            return x != y
        if pred[0] == 'u':
            if pred in ('ugt', 'uge'):
                x, y = y, x
            base = (x < y) if pred in ('ult', 'ugt') else (x <= y)
            if isc(S(x)) and cval(S(x)) >= 0:
                return Or(base, y < 0)
            if isc(S(y)) and cval(S(y)) >= 0:
                return And(base, x >= 0)
            return If((x >= 0) == (y >= 0), base, x >= 0)
        return {'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()

    def i_call(self, st, fr, ins):
        ty, cv, args = ins.a
        callee = self.val(st, cv, ir.PTR)
        av = [self.val(st, v, t) for t, v in args]
        if isinstance(callee, Ptr):
            h = getattr(self, 'indirect', None)
            r = h(self, st, callee, av, ty) if h else NotImplemented
            if r is NotImplemented:
                if callee.obj is None:
                    self.oblige(st, 'no call through null function pointer', False, ins.line)
                    return []
                raise Unsupported('indirect call at line %d' % ins.line)
            return self.ret_contract(st, fr, ins, r)
        name = callee.name
        base = name.split('.c.')[-1]
        if base.startswith('llvm.'):
            base = '.'.join(base.split('.')[:2])
        c = self.contracts.get(name) or self.contracts.get(base)
        if c is None and base in GETTERS and 'onion_dict_get' not in self.contracts and st.frames[0].f.name.split('.c.')[-1] != base:
            c = getter
        if c is not None:
            self.used_contracts.add(base)
            r = c(self, st, av)
            if not isinstance(r, Enter):
                return self.ret_contract(st, fr, ins, r)
            name, av = r.name, r.args
        if name in self.mod.funcs:
            f = ir.lower(self.mod, self.mod.funcs[name])
            if sum(1 for x in st.frames if x.f is f) > 0 and self.unroll is None:
                raise Unsupported('recursion without contract: ' + name)
            if len(st.frames) > 40:
                raise Unsupported('call depth')
            if f.vararg:
                raise Unsupported('inlining variadic ' + name)
            self.inlined.add(name)
            g = Frame(f, fr.path + '/' + name + self.callsite(fr.f, ins, name))
            for (pt, n), a in zip(f.params, av):
                g.env[n] = a
            g.ret = ins.dst
            st.frames.append(g)
            return None
        raise Unsupported('call to %s (no contract, no body) at line %d' % (name, ins.line))

    def callsite(self, f, ins, name):
        """'' when f calls name once; else the ordinal of this call, so that each call site has loop invariants of its own"""
        c = f.__dict__.setdefault('calls', {})
        if name not in c:
            c[name] = [i for b in f.order for i in f.blocks[b] if i.op == 'call' and name in i.txt]
        k = c[name]
        return '' if len(k) < 2 else '#%d' % next((n for n, i in enumerate(k) if i is ins), 0)

    def ret_contract(self, st, fr, ins, r):
        """contract result: value | list of (state, value)"""
        if isinstance(r, list):
            out = []
            for s2, v in r:
                if ins.dst is not None:
                    s2.frames[-1].env[ins.dst] = v
                out.append(s2)
            return out
        if ins.dst is not None:
            if r is None and ins.a[0].k != 'v':
                r = self.fresh(ins.a[0], st, 'ret')
            fr.env[ins.dst] = r
        return None

    def i_atomicrmw(self, st, fr, ins):
        o, pv, ty, v = ins.a
        p = self.val(st, pv, ir.PTR)
        x = self.load(st, p, ty, ins.line)
        y = self.val(st, v, ty)
        n = y if o == 'xchg' else self.arith(st, o, ty.n, x, y, set(), ins.line)
        self.store(st, p, ty, n, ins.line)
        fr.env[ins.dst] = x

    def i_cmpxchg(self, st, fr, ins):
        pv, ty, ov, nv = ins.a
        p = self.val(st, pv, ir.PTR)
        x = self.load(st, p, ty, ins.line)
        eq = toint(x) == toint(self.val(st, ov, ty))
        self.store(st, p, ty, If(eq, toint(self.val(st, nv, ty)), toint(x)), ins.line)
        fr.env[ins.dst] = ('agg', (x, eq))

    def i_extractvalue(self, st, fr, ins):
        ty, v, k = ins.a
        x = self.val(st, v, ty)
        if not (isinstance(x, tuple) and x[0] == 'agg'):
            raise Unsupported('extractvalue')
        fr.env[ins.dst] = x[1][k]

    # ---- top level: verify --------------------------------------------------------------------
    def verify(self, body, max_passes=40):
        """body(E) builds the pre-state(s) and calls E.run(...).  Iterates Houdini to a fixpoint, then
        runs the final pass in which every obligation is discharged."""
        self.final = False
        for k in range(max_passes):
            self.stats['passes'] += 1
            self.dirty = False
            self.stats['paths'] = 0
            self.reset_pass()
            body(self)
            if not self.dirty:
                break
        else:
            raise Unsupported('no fixpoint')
        self.final = True
        self.stats['paths'] = 0
        self.stats['returns'] = 0
        self.dirty = False
        self.reset_pass()
        self.measures = {}
        body(self)
        if self.dirty:
            raise Unsupported('final pass not stable')
        for key, ml in self.measures.items():
            self.stats['obligations'] += 1
            self.obl_names['loop terminates'] = self.obl_names.get('loop terminates', 0) + 1
            if ml:
                self.stats['discharged'] += 1
            else:
                self.failures.append(Failure('loop terminates', key, 0, 'no decreasing measure'))

    def confirm(self, body, rounds):
        """follow the code without invariants for a few iterations of each loop: does an obligation still fail?"""
        self.final = True
        for k in rounds:
            self.tracing = k
            self.stats['paths'] = 0
            self.reset_pass()
            self.measures = {}
            body(self)
            if [f for f in self.failures if f.detail.endswith('sat')]:
                return True
        return False

    def reset_pass(self):
        _uid[0] = 0
        INT2BV.clear()
        PAIR.clear()
        EXT.clear()
        self.gobj = {}
        self.solver = None
        self.sstack = []
        self.curline = 0
