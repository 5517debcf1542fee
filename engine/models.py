"""Assumed contracts of libc and of the allocation/logging layer (trusted base; each one used is listed in the evidence)."""
import z3
from z3 import And, Or, Not, If, Implies, Extract
from sym import *
import ir

MODELS = {}


def le(a, b):
    return a <= b


def lt(a, b):
    return a < b


def gt(a, b):
    return a > b


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def z64(x):
    return toint(x)


@model('onion_low_malloc', 'onion_low_scalar_malloc')
def low_malloc(E, st, a):
    """returns a fresh, non-null block of exactly n bytes (aborts the process otherwise), contents unspecified"""
    n = z64(a[0])
    st.add(n >= 0, n < (1 << 62))        # larger requests abort
    o = E.newobj(st, 'heap@%d' % E.curline, S(n), 'heap')
    o.site = E.curline
    return Ptr(o, iv(0))


@model('onion_low_calloc')
def low_calloc(E, st, a):
    n = S(z64(a[0]) * z64(a[1]))
    st.add(n >= 0, n < (1 << 62))
    o = E.newobj(st, 'heap@%d' % E.curline, n, 'heap', zero=True)
    o.site = E.curline
    return Ptr(o, iv(0))


@model('malloc')
def malloc_(E, st, a):
    n = z64(a[0])
    s2 = st.copy()
    o = E.newobj(st, 'heap@%d' % E.curline, S(n), 'heap')
    return [(st, Ptr(o, iv(0))), (s2, NULL)]


@model('calloc')
def calloc_(E, st, a):
    n = S(z64(a[0]) * z64(a[1]))
    st.add(n >= 0, n < (1 << 62))
    s2 = st.copy()
    o = E.newobj(st, 'heap@%d' % E.curline, n, 'heap', zero=True)
    return [(st, Ptr(o, iv(0))), (s2, NULL)]


@model('onion_low_free', 'free')
def free_(E, st, a):
    p = a[0]
    if isinstance(p, Fn):
        E.oblige(st, 'free of function', False)
        return None
    if p.obj is None:
        return None
    E.oblige(st, 'free only of live heap block start', And(z3.BoolVal(st.om(p.obj).alive and p.obj.kind in ('heap',)), p.off == 0))
    st.wom(p.obj).alive = False
    return None


@model('onion_low_realloc', 'realloc')
def low_realloc(E, st, a):
    p, n = a[0], z64(a[1])
    o = E.newobj(st, 'heap@%d' % E.curline, S(n), 'heap')
    if p.obj is not None:
        E.oblige(st, 'realloc only of live heap block start', And(z3.BoolVal(st.om(p.obj).alive and p.obj.kind in ('heap',)), p.off == 0))
        old = st.om(p.obj)
        E.flush(st, p.obj)
        old = st.om(p.obj)
        ob, nb = old.bm, st.om(o).bm
        st.wom(o).bm = BMRange(nb, iv(0), p.obj.size, ob.read)
        st.wom(p.obj).alive = False
    return Ptr(o, iv(0))


def cstrlen(E, st, p, what='string argument is NUL-terminated'):
    """length of the NUL-terminated string at p (term), with its defining facts"""
    if isinstance(p, Fn) or p.obj is None:
        E.oblige(st, 'no null string', False)
        return None
    o = p.obj
    om = st.om(o)
    if not om.alive:
        E.oblige(st, 'no use after free', False)
        return None
    hi = o.size if p.hi is None else p.hi
    if o.const and isinstance(om.bm, BMConst) and isc(S(p.off)):
        d = om.bm.d
        k = d.find(b'\0', cval(S(p.off)))
        if k >= 0:
            return iv(k - cval(S(p.off)))
    if o.const and isinstance(om.bm, BMZero):
        E.oblige(st, 'in-bounds read of ' + o.name, And(p.off >= 0, p.off < hi))
        return iv(0)
    if om.cells and any(not isinstance(v, (Ptr, Fn)) for _, v in om.cells.values()) and o.kind == 'stack':
        E.flush(st, o, p)
        om = st.om(o)
    # exact length known (no write since)?
    for (so, bm, lo, L) in reversed(st.strfacts):
        if so is o and bm is om.bm and E.prove(st, And(le(lo, p.off), le(p.off, lo + L))):
            E.oblige(st, 'in-bounds read of ' + o.name, And(lt(lo + L, hi)))
            return S(lo + L - p.off)
    L = E.fint('strlen', st, 0, (1 << 62))
    nuls = list(reversed(om.nuls)) + ([o.cstr] if o.cstr is not None else [])
    for x in nuls:
        if E.prove(st, And(om.bm.read(x) == 0, le(p.off, x), lt(x, hi))):
            st.add(le(L, x - p.off))
            break
    else:
        ok = False
        h = getattr(E, 'nul_hook', None)
        if h:
            x = h(E, st, p)
            if x is not None:
                E.oblige(st, what, And(om.bm.read(x) == 0, le(p.off, x), lt(x, hi)))
                st.add(le(L, x - p.off))
                ok = True
        if not ok:
            x = None
            E.oblige(st, what, z3.BoolVal(False))
            st.add(le(L, hi - p.off - 1))
    st.add(om.bm.read(S(p.off + L)) == 0)
    st.strfacts.append((o, om.bm, p.off, L))
    for k in E.skolems(st, o):
        st.add(Implies(And((k) >= (p.off), lt(k, p.off + L)), om.bm.read(k) != 0))
    return L


@model('strlen')
def strlen_(E, st, a):
    L = cstrlen(E, st, a[0])
    return L if L is not None else E.fint('strlen', st, 0)


def reader(E, st, p):
    """byte reader of the memory at p: fn(k)-> byte k (term), reading the current version"""
    E.flush(st, p.obj, p)
    bm = st.om(p.obj).bm
    return lambda k: bm.read(S(p.off + k))


def copy_bytes(E, st, dst, src, n, line=None):
    n = S(n)
    if isc(n) and cval(n) == 0:
        return
    if not E.access(st, src, n, False, line) or not E.access(st, dst, n, True, line):
        return
    so, do = src.obj, dst.obj
    ws = getattr(st.om(so).bm, 'wsize', 0)
    if ws and isc(n) and cval(n) % ws == 0 and cval(n) <= 64 and isc(S(dst.off)):      # words, kept as such
        vs = [E.load(st, Ptr(so, S(src.off + k)), ir.I[8 * ws], line) for k in range(0, cval(n), ws)]
        for k, v in enumerate(vs):
            E.poke(st, do, S(dst.off + k * ws), ws, v)
        return
    # struct copies: move pointer cells
    if isc(n) and isc(S(src.off)) and isc(S(dst.off)):
        s0, d0, nn = cval(S(src.off)), cval(S(dst.off)), cval(n)
        cells = {co: c for co, c in st.om(so).cells.items() if s0 <= co and co + c[0] <= s0 + nn}
        sb = st.om(so).bm
        zero = st.om(so).zero
        E.store_range(st, do, iv(d0), n, lambda i: sb.read(S(i - d0 + s0)))
        w = st.wom(do)
        for co, c in cells.items():
            w.cells[co - s0 + d0] = c
        lz = {k: f for k, f in so.lazy.items() if s0 <= k < s0 + nn and k not in cells}
        if lz:
            for k in list(lz):
                v = E.load(st, Ptr(so, iv(k)), ir.PTR, 0)
                if isinstance(v, list):
                    raise Unsupported('memcpy of lazy pointer')
                st.wom(do).cells[k - s0 + d0] = (8, v)
        if zero and s0 == 0 and d0 == 0:
            w.zero = True
        return
    E.flush(st, so, src)
    sb = st.om(so).bm
    so_off, d_off = src.off, dst.off
    for k in E.skolems(st, do):
        E.read_byte(st, so, S(k - d_off + so_off))
    E.store_range(st, do, d_off, n, lambda i: sb.read(S(i - d_off + so_off)))


@model('memcpy', 'llvm.memcpy')
def memcpy_no(E, st, a):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj is a[1].obj and a[0].obj is not None:
        n = z64(a[2])
        E.oblige(st, 'memcpy regions do not overlap', Or(a[0].off + n <= a[1].off, a[1].off + n <= a[0].off, a[0].off == a[1].off))
    return memcpy_(E, st, a)


@model('memmove', 'llvm.memmove')
def memcpy_(E, st, a):
    if len(a) > 2 and not isinstance(a[0], Fn):
        n = z64(a[2])
        if isc(S(n)) and cval(S(n)) == 0:
            return a[0]
        if isnull(a[0]) or isnull(a[1]):
            if E.prove(st, n == 0):
                return a[0]
        copy_bytes(E, st, a[0], a[1], n)
    return a[0]


@model('memset', 'llvm.memset')
def memset_(E, st, a):
    p, c, n = a[0], a[1], S(z64(a[2]))
    if not E.access(st, p, n, True, None):
        return p
    c8 = E.trunc(st, c, 32, 8) if not (z3.is_bv(c) and c.size() == 8) else c
    om = st.wom(p.obj)
    whole = isc(S(p.off)) and cval(S(p.off)) == 0 and S(n - p.obj.size).eq(iv(0))
    if whole and isc(c8) and cval(c8) == 0:
        om.cells, om.bm, om.zero = {}, BMZero(), True
        return p
    if isc(S(p.off)) and isc(n) and isc(c8) and cval(c8) == 0:
        lo, hi = cval(S(p.off)), cval(S(p.off)) + cval(n)
        for k in list(p.obj.lazy):
            if lo <= k and k + 8 <= hi:
                om.cells[k] = (8, NULL)
        for co in list(om.cells):
            if lo <= co and co + om.cells[co][0] <= hi and isinstance(om.cells[co][1], (Ptr, Fn)):
                om.cells[co] = (8, NULL)
        keep = {co: c for co, c in om.cells.items() if lo <= co < hi and isnull(c[1])}
        E.store_range(st, p.obj, p.off, n, lambda i: c8)
        st.wom(p.obj).cells.update(keep)
        return p
    E.store_range(st, p.obj, p.off, n, lambda i: c8)
    return p


@model('strdup', 'onion_low_strdup')
def strdup_(E, st, a):
    L = cstrlen(E, st, a[0])
    if L is None:
        return NULL
    o = E.newobj(st, 'dup@%d' % E.curline, S(L + 1), 'heap')
    E.flush(st, a[0].obj, a[0])
    sb = st.om(a[0].obj).bm
    off = a[0].off
    w = st.wom(o)
    w.bm = BMRange(w.bm, iv(0), S(L + 1), lambda i: sb.read(S(i + off)))
    w.nuls = (L,)
    st.strfacts.append((o, w.bm, iv(0), L))
    st.add(sb.read(S(off + L)) == 0)
    o.dup_of = (a[0], L)
    return Ptr(o, iv(0))


def constbytes(E, st, p):
    """python bytes of a constant string (up to NUL) or None"""
    if isinstance(p, Ptr) and p.obj is not None and p.obj.const and isinstance(st.om(p.obj).bm, BMConst) and isc(S(p.off)):
        d = st.om(p.obj).bm.d[cval(S(p.off)):]
        return d.split(b'\0')[0] if 0 in d else None
    if isinstance(p, Ptr) and p.obj is not None and p.obj.const and isinstance(st.om(p.obj).bm, BMZero):
        return b''
    return None


def lower8(c):
    return If(And(z3.UGE(c, bv(65, 8)), z3.ULE(c, bv(90, 8))), c + bv(32, 8), c)


def str_eq_const(E, st, p, lit, n=None, nocase=False):
    """Bool: string at p equals literal (first n bytes for strncmp)."""
    fold = lower8 if nocase else (lambda c: c)
    lit = lit.lower() if nocase else lit
    cs = []
    m = len(lit) + 1 if n is None else min(n, len(lit) + 1)
    full = lit + b'\0'
    for k in range(m):
        cs.append(fold(E.read_byte(st, p.obj, S(p.off + k))) == bv(full[k], 8))
    return And(*cs) if cs else z3.BoolVal(True)


def cmpfn(nocase, bounded):
    def f(E, st, a):
        r = E.i32(st, 'cmp')
        n = None
        if bounded:
            nn = S(z64(a[2]))
            n = cval(nn) if isc(nn) else nn
        for p in a[:2]:
            if isnull(p):
                E.oblige(st, 'no null string', False)
                return r
        ca, cb = constbytes(E, st, a[0]), constbytes(E, st, a[1])
        if ca is not None and cb is not None and not z3.is_expr(n):
            x, y = (ca.lower(), cb.lower()) if nocase else (ca, cb)
            if n is not None:
                x, y = x[:n], y[:n]
            return iv((x > y) - (x < y))
        if (ca is None) != (cb is None) and not z3.is_expr(n):
            lit, p = (ca, a[1]) if ca is not None else (cb, a[0])
            if n is None or n > len(lit):
                cstrlen(E, st, p)
            else:
                # reads at most n bytes or up to NUL
                st_n = iv(n)
                if not E.prove(st, le(p.off + st_n, p.obj.size)):
                    cstrlen(E, st, p)
            if not st.om(p.obj).alive:
                return r
            st.add((r == 0) == str_eq_const(E, st, p, lit, n, nocase))
            return r
        la = cstrlen(E, st, a[0])
        lb = cstrlen(E, st, a[1])
        if la is None or lb is None:
            return r
        fold = lower8 if nocase else (lambda c: c)
        if n is None:
            st.add(Implies(r == 0, la == lb))
            for k in E.cmp_skolems(st):
                st.add(Implies(And(r == 0, le(k, la)), fold(E.read_byte(st, a[0].obj, S(a[0].off + k))) == fold(E.read_byte(st, a[1].obj, S(a[1].off + k)))))
        else:
            nn = n if z3.is_expr(n) else iv(n)
            st.add(Implies(And(r == 0, lt(la, nn)), la == lb), Implies(And(r == 0, lt(lb, nn)), la == lb))
            for k in E.cmp_skolems(st):
                st.add(Implies(And(r == 0, le(k, la), lt(k, nn)), fold(E.read_byte(st, a[0].obj, S(a[0].off + k))) == fold(E.read_byte(st, a[1].obj, S(a[1].off + k)))))
        if getattr(E, 'cmp_witness', False):       # different: at some place
            w = E.fint('differ', st, 0)
            nn = iv(1 << 62) if n is None else n if z3.is_expr(n) else iv(n)
            st.add(Implies(r != 0, And(w < nn, w <= la, w <= lb, fold(E.read_byte(st, a[0].obj, S(a[0].off + w))) != fold(E.read_byte(st, a[1].obj, S(a[1].off + w))))))
            st.ghost['wit'] = st.ghost.get('wit', ()) + (w,)
        E.cmp_log.append((a[0], a[1], la, lb, n, r))
        return r
    return f


MODELS['strcmp'] = cmpfn(False, False)
MODELS['strncmp'] = cmpfn(False, True)
MODELS['strcasecmp'] = cmpfn(True, False)
MODELS['strncasecmp'] = cmpfn(True, True)


@model('strchr', 'index')
def strchr_(E, st, a):
    """first occurrence or NULL"""
    p, c = a
    L = cstrlen(E, st, p)
    if L is None:
        return NULL
    c8 = E.trunc(st, c, 32, 8)
    bm = st.om(p.obj).bm
    s2 = st.copy()
    k = E.fint('strchr', st, 0)
    st.add(le(k, L), E.read_byte(st, p.obj, S(p.off + k)) == c8)
    # first occurrence
    st.strfacts.append((p.obj, _Ne(bm, c8), p.off, k))
    s2.strfacts.append((p.obj, _Ne(bm, c8), p.off, L))
    for q in E.skolems(st, p.obj):
        st.add(Implies(And((q) >= (p.off), lt(q, p.off + k)), bm.read(q) != c8))
        s2.add(Implies(And((q) >= (p.off), lt(q, p.off + L)), bm.read(q) != c8))
    if isc(c8) and cval(c8) != 0:
        st.add(lt(k, L))
        # s2: c absent
    out = [(st, Ptr(p.obj, S(p.off + k), p.lo, p.hi))]
    if not (isc(c8) and cval(c8) == 0):
        out.append((s2, NULL))
    return [(s, v) for s, v in out if E.feasible(s)]


class _Ne(BM):
    """reads as nonzero iff the byte differs from c (so string facts can express 'no c here')"""

    def __init__(self, bm, c):
        self.bm, self.c = bm, c

    def _read(self, i):
        return If(self.bm.read(i) == self.c, bv(0, 8), bv(1, 8))


@model('strrchr', 'rindex')
def strrchr_(E, st, a):
    p, c = a
    L = cstrlen(E, st, p)
    if L is None:
        return NULL
    c8 = E.trunc(st, c, 32, 8)
    bm = st.om(p.obj).bm
    s2 = st.copy()
    k = E.fint('strrchr', st, 0)
    st.add(lt(k, L), bm.read(S(p.off + k)) == c8)
    st.strfacts.append((p.obj, _Ne(bm, c8), S(p.off + k + 1), S(L - k - 1)))
    s2.strfacts.append((p.obj, _Ne(bm, c8), p.off, L))
    for q in E.skolems(st, p.obj):
        st.add(Implies(And(gt(q, p.off + k), lt(q, p.off + L)), bm.read(q) != c8))
        s2.add(Implies(And((q) >= (p.off), lt(q, p.off + L)), bm.read(q) != c8))
    return [(s, v) for s, v in [(st, Ptr(p.obj, S(p.off + k), p.lo, p.hi)), (s2, NULL)] if E.feasible(s)]


@model('onion_log', 'onion_log_syslog', 'printf', 'fprintf', 'perror', 'pthread_mutex_lock', 'pthread_mutex_unlock',
       'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'pthread_mutex_init', 'pthread_rwlock_init',
       'pthread_rwlock_destroy', 'pthread_mutex_destroy', 'llvm.lifetime', 'syslog')
def noop(E, st, a):
    return None


@model('__errno_location')
def errno_(E, st, a):
    o = next((o for o in st.objs.values() if o.name == 'errno'), None) or E.newobj(st, 'errno', 4, 'global')
    E.poke(st, o, iv(0), 4, E.i32(st, 'errno'))
    return Ptr(o, iv(0))


@model('abort', 'exit', '_exit', '__assert_fail')
def die(E, st, a):
    return []


@model('onion_low_initialize', 'onion_low_initialize_memory_allocation')
def lowinit(E, st, a):
    return None


def setup(E, extra=None):
    E.contracts.update(MODELS)
    E.contracts.update(extra or {})
    E.alloc_limit = None
    E.skolem_list = []
    E.skolems = lambda st, o: [k for (ob, k) in E.skolem_list if ob is None or ob == o.name]
    E.cmp_sk = []
    E.cmp_skolems = lambda st: E.cmp_sk
    E.cmp_log = []


@model('strncpy')
def strncpy_(E, st, a):
    """copies up to n bytes of the string and pads with NUL"""
    d, s, n = a[0], a[1], S(z64(a[2]))
    if isnull(s) or isnull(d):
        E.oblige(st, 'no null string', False)
        return d
    hi = s.obj.size if s.hi is None else s.hi
    if not E.access(st, d, n, True, None):
        return d
    if not st.om(s.obj).alive:
        E.oblige(st, 'no use after free', False)
        return d
    if E.prove(st, s.off + n <= hi):
        E.flush(st, s.obj, s)
        sb = st.om(s.obj).bm
        L = E.fint('strncpy', st, 0)
        st.add(L <= n, Implies(L < n, sb.read(S(s.off + L)) == 0))
        st.strfacts.append((s.obj, sb, s.off, L))
        for k in E.skolems(st, s.obj):
            st.add(Implies(And(k >= s.off, k < s.off + L), sb.read(k) != 0))
    else:
        L0 = cstrlen(E, st, s)
        if L0 is None:
            return d
        E.flush(st, s.obj, s)
        sb = st.om(s.obj).bm
        L = If(L0 < n, L0, n)
    so, do = s.off, d.off
    E.store_range(st, d.obj, d.off, n, lambda i: If(i - do < L, sb.read(S(i - do + so)), bv(0, 8)))
    if E.prove(st, L < n):
        st.wom(d.obj).nuls = (st.om(d.obj).nuls + (S(do + L),))[-6:]
        E.flush(st, d.obj, d)
        st.strfacts.append((d.obj, st.om(d.obj).bm, do, S(L)))
    return d


@model('strcpy')
def strcpy_(E, st, a):
    d, s = a[0], a[1]
    L = cstrlen(E, st, s)
    if L is None:
        return d
    if not E.access(st, d, S(L + 1), True, None):
        return d
    E.flush(st, s.obj, s)
    sb = st.om(s.obj).bm
    so, do = s.off, d.off
    E.store_range(st, d.obj, d.off, S(L + 1), lambda i: sb.read(S(i - do + so)))
    st.wom(d.obj).nuls = (st.om(d.obj).nuls + (S(d.off + L),))[-6:]
    st.strfacts.append((d.obj, st.om(d.obj).bm, d.off, L))
    return d


class _NoMatch(BM):
    """reads as zero iff the literal starts there"""

    def __init__(self, bm, lit):
        self.bm, self.lit = bm, lit

    def _read(self, i):
        return If(And(*[self.bm.read(S(i + j)) == c for j, c in enumerate(self.lit)]), bv(0, 8), bv(1, 8))


@model('strstr')
def strstr_(E, st, a):
    """a position inside the string where the literal starts (the first one), or NULL"""
    p = a[0]
    L = cstrlen(E, st, p)
    lit = constbytes(E, st, a[1])
    if L is None:
        return NULL
    if lit is None:
        raise Unsupported('strstr with a non-literal needle')
    s2 = st.copy()
    k = E.fint('strstr', st, 0)
    st.add(k + len(lit) <= L)
    E.flush(st, p.obj, p)
    bm = st.om(p.obj).bm
    for i, c in enumerate(lit):
        st.add(bm.read(S(p.off + k + i)) == c)
    nm = _NoMatch(bm, lit)      # nowhere before
    st.strfacts.append((p.obj, nm, p.off, k))
    s2.strfacts.append((p.obj, nm, p.off, S(L - len(lit) + 1)))
    for q in E.skolems(st, p.obj):
        st.add(Implies(And(q >= p.off, lt(q, p.off + k)), nm.read(q) != 0))
        s2.add(Implies(And(q >= p.off, le(q + len(lit), p.off + L)), nm.read(q) != 0))
    return [(s, v) for s, v in [(st, Ptr(p.obj, S(p.off + k), p.lo, p.hi)), (s2, NULL)] if E.feasible(s)]


@model('atoi')
def atoi_(E, st, a):
    cstrlen(E, st, a[0])
    return E.i32(st, 'atoi')


@model('atol', 'strtol')
def atol_(E, st, a):
    cstrlen(E, st, a[0])
    return E.fint('atol', st, -(1 << 63), (1 << 63))


# ---------------------------------------------------------------- formatted text
def _digits(x, base, maxd, upper=True):
    """(number of digits, fn(i)->digit char BV8 from the most significant) of the non-negative int x"""
    n = iv(maxd)
    for d in range(maxd - 1, 0, -1):
        n = If(x < base ** d, iv(d), n)

    def ch(v):
        c = z3.Int2BV(v, 8)
        return If(v < 10, c + 48, c + (55 if upper else 87))

    def at(i):
        r = bv(48, 8)
        for d in range(maxd):      # digit with weight base^d is at position n-1-d
            r = If(i == n - 1 - d, ch((x / (base ** d)) % base), r)
        return r
    return n, at


def fmt_parts(E, st, a):
    """text of a printf call: list of (length, fn(i)->byte) from the literal format and its arguments"""
    import re
    fmt = constbytes(E, st, a[0])
    if fmt is None:
        raise Unsupported('format is not a literal')
    args = list(a[1:])
    out = []
    for m in re.finditer(rb'%%|%(?:-?0?\d*)?(?:l|ll|z|h)?[a-zA-Z]|%[^a-zA-Z]*[a-zA-Z]|[^%]+', fmt):
        t = m.group(0)
        if t == b'%%' or not t.startswith(b'%'):
            lit = b'%' if t == b'%%' else t
            out.append((iv(len(lit)), (lambda lit: lambda i: BMConst(lit).read(i))(lit + b'\0')))
            continue
        v = args.pop(0)
        conv = t[1:].lstrip(b'lzh')
        if conv == b's':
            L = cstrlen(E, st, v)
            if L is None:
                raise Unsupported('%s of a bad pointer')
            out.append((L, (lambda r: lambda i: r(i))(reader(E, st, v))))
        elif conv in (b'X', b'x', b'u'):
            bits = 64 if b'l' in t or b'z' in t else 32
            x = E.uns(st, toint(v), bits)
            out.append(_digits(x, 10 if conv == b'u' else 16, (20 if bits == 64 else 10) if conv == b'u' else bits // 4, conv != b'x'))
        elif conv == b'd':
            x = toint(v)
            n, at = _digits(If(x < 0, -x, x), 10, 20 if b'l' in t else 10)
            out.append((n + If(x < 0, 1, 0), (lambda x, at: lambda i: If(x < 0, If(i == 0, bv(45, 8), at(i - 1)), at(i)))(x, at)))
        elif conv == b'c':
            c8 = E.trunc(st, v, 32, 8)
            if not E.prove(st, c8 != 0):
                raise Unsupported('%c of a possible NUL')
            out.append((iv(1), (lambda c: lambda i: c)(c8)))
        else:
            raise Unsupported('format %r' % t)
    return out


def fmt_text(E, st, a):
    """(total length, fn(i)->byte)"""
    ps = fmt_parts(E, st, a)
    tot = iv(0)
    spans = []
    for n, f in ps:
        v = E.fint('fmtlen', st, 0)
        st.add(v == n)
        spans.append((tot, v, f))
        tot = S(tot + v)

    def at(i):
        r = bv(0, 8)
        for lo, n, f in reversed(spans):
            r = If(And(i >= lo, i < lo + n), f(S(i - lo)), r)
        return r
    return tot, at


def text_at(E, st, d, w, at):
    """store a text of w non-NUL bytes and its NUL at d; a string that ended at d now ends at d+w"""
    do = d.off
    E.flush(st, d.obj)
    bm = st.om(d.obj).bm
    ext = [(lo, L) for (o, b, lo, L) in st.strfacts if o is d.obj and b is bm and not S(lo - do).eq(iv(0)) and E.prove(st, do == lo + L)]
    E.store_range(st, d.obj, do, S(w + 1), lambda i: If(i - do < w, at(S(i - do)), bv(0, 8)))
    E.flush(st, d.obj)
    st.wom(d.obj).nuls = (st.om(d.obj).nuls + (S(do + w),))[-6:]
    nb = st.om(d.obj).bm
    st.strfacts.append((d.obj, nb, do, w))      # the text holds no NUL
    for lo, L in ext:
        st.strfacts.append((d.obj, nb, lo, S(L + w)))


@model('snprintf')
def snprintf_(E, st, a):
    """writes the text cut to n-1 bytes and its NUL; returns the whole length"""
    d, n = a[0], S(z64(a[1]))
    L, at = fmt_text(E, st, a[2:])
    st.add(L < (1 << 31))
    if E.prove(st, n == 0):
        return L
    w = S(If(L < n, L, n - 1))
    if isinstance(d, Ptr) and E.access(st, d, S(w + 1), True, None):
        text_at(E, st, d, w, at)
    return L


@model('sprintf')
def sprintf_(E, st, a):
    d = a[0]
    L, at = fmt_text(E, st, a[1:])
    if isinstance(d, Ptr) and E.access(st, d, S(L + 1), True, None):
        text_at(E, st, d, L, at)
    return L


@model('strerror')
def strerror_(E, st, a):
    n = E.fint('errlen', st, 0, 1000)
    o = E.newobj(st, 'strerror', S(n + 1), 'input')
    st.add(st.om(o).bm.read(n) == 0)
    o.cstr = n
    return Ptr(o, iv(0))


@model('time')
def time_(E, st, a):
    t = E.fint('now', st, 0, 1 << 40)
    if isinstance(a[0], Ptr) and a[0].obj is not None:
        E.store(st, a[0], ir.I[64], t, None)
    return t


@model('llvm.threadlocal')
def tls_(E, st, a):
    return a[0]


@model('difftime')
def difftime_(E, st, a):
    return ('float', 0)


@model('localtime', 'gmtime', 'localtime_r', 'gmtime_r')
def localtime_(E, st, a):
    """broken-down time, or NULL when it cannot be represented"""
    s2 = st.copy()
    if len(a) > 1:
        if not E.access(st, a[1], 56, True, None):
            return NULL
        b = BMBase('tm')
        E.store_range(st, a[1].obj, a[1].off, iv(56), lambda i: b.read(i))
        return [(st, a[1]), (s2, NULL)]
    o = E.newobj(st, 'tm', 56, 'input')
    return [(st, Ptr(o, iv(0))), (s2, NULL)]


@model('strftime')
def strftime_(E, st, a):
    """a text of at most max-1 bytes and its NUL, or 0 with unspecified contents"""
    d, n = a[0], S(z64(a[1]))
    if not E.access(st, d, n, True, None):
        return iv(0)
    if isnull(a[3]):
        E.oblige(st, 'no null time', False)
        return iv(0)
    s2 = st.copy()
    L = E.fint('strftime', st, 1)
    st.add(L < n)
    b = BMBase('timetext')
    E.store_range(st, d.obj, d.off, n, lambda i: b.read(i))
    st.add(st.om(d.obj).bm.read(S(d.off + L)) == 0)
    st.wom(d.obj).nuls = (S(d.off + L),)
    st.strfacts.append((d.obj, st.om(d.obj).bm, d.off, L))
    b2 = BMBase('timejunk')
    E.store_range(s2, d.obj, d.off, n, lambda i: b2.read(i))
    return [(st, L), (s2, iv(0))]


@model('strncat', 'strcat')
def strncat_(E, st, a):
    """appends the string (at most n bytes of it) and a NUL"""
    d = a[0]
    L = cstrlen(E, st, d)
    K = cstrlen(E, st, a[1])
    if L is None or K is None:
        return d
    if len(a) > 2:
        n = S(z64(a[2]))
        K = S(If(K < n, K, n))
    if not E.access(st, Ptr(d.obj, S(d.off + L), d.lo, d.hi), S(K + 1), True, None):
        return d
    rd = reader(E, st, a[1])
    text_at(E, st, Ptr(d.obj, S(d.off + L), d.lo, d.hi), K, rd)
    return d
