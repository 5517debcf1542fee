"""Contracts of the handlers that give out files (handlers/exportlocal.c, handlers/webdav.c): only what really lies inside"""
import z3
from z3 import And, Or, Not, If, Implies
from sym import *
from speclib import *
from proof import proof
import front
import ir
import models
from speclib import Chain, fork
PMAX = 4096
SLASH = 47


def init(E):
    E.fact_hooks, E.cand_hooks, E.skolem_list, E.bounds, E.hints = [], [], [], [], []
    E.cmp_witness, E.measure_terms, E.ptr_havoc = True, [], None
    return State()


class Fs:
    """assumed contracts of the file name calls. realpath gives nothing or an absolute name < PATH_MAX; each result remembers what was resolved"""

    def __init__(self, E):
        self.so = front.offsets('struct stat', ['st_mode'], extra='#include <sys/stat.h>')
        self.real = {}       # object -> (obj, bm, length)
        E.contracts.update(stat=self.stat, lstat=self.stat, realpath=self.realpath)
        self.E = E

    def stat(self, E, st, a):
        L = models.cstrlen(E, st, a[0])
        r = E.i32(st, 'stat')
        st.add(Or(r == 0, r == -1))
        if L is None or not E.access(st, a[1], iv(self.so[''][1]), True, None):
            return r
        st.ghost['statok'] = r == 0
        b = BMBase('statbuf')
        E.store_range(st, a[1].obj, a[1].off, iv(self.so[''][1]), lambda i: b.read(i))
        m = E.load(st, Ptr(a[1].obj, S(a[1].off + self.so['st_mode'][0])), ir.I[32], None)
        st.ghost['mode'] = tobv(m, 32) & 0o170000
        return r

    def realpath(self, E, st, a):
        L = models.cstrlen(E, st, a[0])
        if L is None:
            return NULL
        E.flush(st, a[0].obj, a[0])
        src = (a[0], st.om(a[0].obj).bm, L)
        s2 = st.copy()
        n = E.fint('real', st, 1, PMAX - 1)
        if isnull(a[1]):
            o = E.cstring(st, 'resolved', n, kind='heap')
            d = Ptr(o, iv(0))
        else:
            d = a[1]
            if not E.access(st, d, iv(PMAX), True, None):
                return NULL
            b = BMBase('resolved')
            E.store_range(st, d.obj, d.off, iv(PMAX), lambda i: b.read(i))
            st.add(st.om(d.obj).bm.read(S(d.off + n)) == 0)
            st.wom(d.obj).nuls = (S(d.off + n),)
            st.strfacts.append((d.obj, st.om(d.obj).bm, d.off, n))
        st.add(E.read_byte(st, d.obj, d.off) == SLASH)
        st.ghost['real'] = st.ghost.get('real', ()) + ((d.obj, st.om(d.obj).bm, d.off, n, src),)
        s2.ghost['norealpath'] = s2.ghost.get('norealpath', ()) + (src,)
        if not isnull(a[1]):       # contents unspecified
            b2 = BMBase('unresolved')
            E.store_range(s2, d.obj, d.off, iv(PMAX), lambda i: b2.read(i))
            zz = E.fint('zz', s2, 0, PMAX - 1)
            s2.add(s2.om(d.obj).bm.read(S(d.off + zz)) == 0)
            s2.wom(d.obj).nuls = (S(d.off + zz),)
        return [(st, d), (s2, NULL)]

    def resolved(self, st, p):
        """the realpath result held at p, or None"""
        if not isinstance(p, Ptr) or p.obj is None:
            return None
        self.E.flush(st, p.obj, p)
        for r in reversed(st.ghost.get('real', ())):
            if r[0] is p.obj and r[1] is st.om(p.obj).bm and S(r[2] - p.off).eq(iv(0)):
                return r
        return None


def inside(E, st, o, off, n, base, bn, x):
    """component-wise: the text (n bytes at o+off) is the base or continues it at a slash; at skolem x"""
    rb = lambda k: E.read_byte(st, o, S(off + k))
    bb = lambda k: E.read_byte(st, base.obj, S(base.off + k))
    return And(n >= bn, Implies(x < bn, rb(x) == bb(x)), Or(n == bn, rb(bn) == SLASH, bb(S(bn - 1)) == SLASH))


def request(E, st, x):
    """a request with any path (inside its full path)"""
    f = front.offsets('struct onion_request_t', ['path', 'fullpath', 'flags', 'headers'])
    n, k = z3.Ints('pathlen skip')
    st.add(n >= 0, n < (1 << 28), k >= 0, k <= n)
    full = E.cstring(st, 'fullpath', n)
    req = E.newobj(st, 'req', f[''][1], 'input')
    E.poke(st, req, iv(f['fullpath'][0]), 8, Ptr(full, iv(0)))
    E.poke(st, req, iv(f['path'][0]), 8, Ptr(full, k))
    fl = z3.BitVec('flags', 32)
    E.poke(st, req, iv(f['flags'][0]), 4, fl)
    return req, full, k, S(n - k), fl


@proof('P19', 'onion_handler_export_local_handler', ['handlers/exportlocal.c', 'request.c'])
def export_handler(E):
    """what is served or listed is the resolved requested name, component-wise inside the exported directory; all such files and directories are"""
    c = front.consts(['OCS_NOT_PROCESSED'])
    st = init(E)
    x, bn = z3.Int('x'), z3.Int('baselen')
    st.add(x >= 0, bn >= 1, bn < PMAX)
    base = E.cstring(st, 'localpath', bn, kind='heap')
    B = Ptr(base, iv(0))
    f = front.offsets('struct onion_handler_export_local_data_t', ['localpath', 'renderer_header'], header='handlers/exportlocal.c')
    d = E.newobj(st, 'data', f[''][1], 'heap')
    E.poke(st, d, iv(f['localpath'][0]), 8, B)
    st.add(st.om(base).bm.read(iv(0)) == SLASH)
    req, full, k, pn, fl = request(E, st, x)
    res = E.newobj(st, 'res', 64, 'input')
    isf = lambda st: (E.read_byte(st, d, iv(f['localpath'][0] + 8)) & 1) == 1
    fs = Fs(E)
    E.skolem_list = [(None, x)]
    E.cmp_sk = [x]

    def named(s, src):
        """the resolved name is base/path (or the exported file)"""
        p, bm, L = src
        at = bm.read(S(p.off + x))
        return If(isf(s), And(L == bn, Implies(x < bn, at == E.read_byte(s, base, x))),
                  And(L == bn + 1 + pn, Implies(x < bn, at == E.read_byte(s, base, x)), Implies(x == bn, at == SLASH),
                      Implies(And(x > bn, x < bn + 1 + pn), at == E.read_byte(s, full, S(x - bn - 1 + k)))))

    def serve(kind):
        def g(E, s, a):
            p = a[1] if kind == 'dir' else a[0]
            r = fs.resolved(s, p)
            E.oblige(s, 'only a resolved name is served', r is not None)
            if r is not None:
                E.oblige(s, 'it lies inside the exported directory', inside(E, s, r[0], r[2], r[3], B, bn, x))
                E.oblige(s, 'it is what was requested', named(s, r[4]))
            E.oblige(s, 'files are served, directories listed', s.ghost.get('mode', bv(0, 32)) == (0o040000 if kind == 'dir' else 0o100000))
            E.oblige(s, 'the request and response are handed on', z3.BoolVal(all(isinstance(v, Ptr) and v.obj is o for v, o in zip(a[-2:], (req, res)))))
            s.ghost['served'] = E.i32(s, 'served')
            return s.ghost['served']
        return g
    E.contracts.update(onion_shortcut_response_file=serve('file'), onion_handler_export_local_directory=serve('dir'))

    def post(s, ret):
        if 'served' in s.ghost:
            E.oblige(s, 'the answer is returned', toint(ret) == s.ghost['served'])
            return
        if 'mode' not in s.ghost:
            E.oblige(s, 'refused unseen only when the name is too long', If(isf(s), bn, bn + 1 + pn) >= PMAX)
            return
        E.oblige(s, 'declined', toint(ret) == c['OCS_NOT_PROCESSED'])
        m = s.ghost['mode']
        s = s.copy()
        s.add(s.ghost['statok'], Or(m == 0o040000, m == 0o100000))
        if s.ghost.get('norealpath') and not s.ghost.get('real'):
            return
        r = (s.ghost.get('real') or (None,))[-1]
        if r:
            for w in [x] + list(s.ghost.get('wit', ())):
                s.add(inside(E, s, r[0], r[2], r[3], B, bn, w))
        E.oblige(s, 'declines only what is not there or lies outside', False)
    E.run(st, 'onion_handler_export_local_handler', [Ptr(d, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], post)


WD = ['handlers/webdav.c', 'request.c']


@proof('P19', 'onion_webdav_default_check_permissions', WD)
def webdav_check(E):
    """granted only if the name resolves inside the share, or it is a name not used yet in a directory that resolves inside it; refused only otherwise"""
    st = init(E)
    x, bn, fn, y = z3.Ints('x baselen namelen y')
    st.add(x >= 0, bn >= 1, bn < (1 << 20), fn >= 1, fn < (1 << 20))
    base = E.cstring(st, 'exported', bn)
    name = E.cstring(st, 'filename', fn)
    fs = Fs(E)
    E.skolem_list = [(None, x)]
    E.cmp_sk = [x]
    N = st.om(name).bm

    def text_is(s, p, bm, L, b2, n):
        return And(L == n, Implies(x < n, bm.read(S(p.off + x)) == b2.read(x)))

    def dirname(E, s, a):
        """the parent directory of the name in its argument (which it may change)"""
        L = models.cstrlen(E, s, a[0])
        if L is None or not E.access(s, a[0], S(L + 1), True, None):
            return NULL
        E.flush(s, a[0].obj, a[0])
        E.oblige(s, 'the parent of the checked name is taken', text_is(s, a[0], s.om(a[0].obj).bm, L, N, fn))
        b = BMBase('chopped')
        E.store_range(s, a[0].obj, a[0].off, S(L + 1), lambda i: b.read(i))
        o = E.cstring(s, 'parent', E.fint('parentlen', s, 1, 1 << 20))
        o.parent = True
        return Ptr(o, iv(0))

    def lstat(E, s, a):
        r = fs.stat(E, s, a)
        if isinstance(a[0], Ptr) and a[0].obj is name:
            s.ghost['exists'] = toint(r) == 0
        return r
    E.contracts.update({'dirname': dirname, '__xpg_basename': dirname, 'lstat': lstat})
    req = E.newobj(st, 'req', 8, 'input')

    def post(s, ret):
        ret = toint(ret)
        real = s.ghost.get('real', ())
        bs = [r for r in real if r[4][0].obj is base]
        fr = [r for r in real if r[4][0].obj is name]
        pr = [r for r in real if getattr(r[4][0].obj, 'parent', False)]
        tried = [q for q in s.ghost.get('norealpath', ()) if q[0].obj is name]
        for r in real:
            if r[0].kind == 'heap':
                E.oblige(s, 'resolved names are released', z3.BoolVal(not s.om(r[0]).alive))
        rb = lambda r, k: r[1].read(S(r[2] + k))

        def ins(r, w):
            b = bs[-1]
            return And(r[3] >= b[3], Implies(w < b[3], rb(r, w) == rb(b, w)), Or(r[3] == b[3], rb(r, b[3]) == SLASH, rb(b, S(b[3] - 1)) == SLASH))
        granted = s.copy()
        granted.add(ret == 0)
        if E.feasible(granted):
            ok = bool(bs) and (bool(fr) or (bool(tried) and bool(pr)))
            E.oblige(granted, 'granted only after resolving the share and the name (or its parent)', ok)
            if ok:
                r = fr[-1] if fr else pr[-1]
                E.oblige(granted, 'granted only inside the share', ins(r, x))
                if not fr:
                    E.oblige(granted, 'a name that leads nowhere yet is granted only if it is not used', Not(granted.ghost.get('exists', z3.BoolVal(True))))
        denied = s.copy()
        denied.add(ret != 0)
        if fr and bs:
            for w in [x] + list(denied.ghost.get('wit', ())):
                denied.add(ins(fr[-1], w))
            E.oblige(denied, 'names that resolve inside the share are not refused', False)
    E.contracts['strstr'] = lambda E, s, a: MODELS_strstr(E, s, a)
    E.run(st, 'onion_webdav_default_check_permissions', [Ptr(base, iv(0)), Ptr(name, iv(0)), Ptr(req, iv(0))], post)


def MODELS_strstr(E, s, a):
    r = models.strstr_(E, s, a)
    for s2, v in r if isinstance(r, list) else []:
        if not isnull(v):
            s2.ghost['dots'] = True
    return r


class Dav:
    def __init__(self, E, st, x):
        f = front.offsets('struct onion_webdav_t', ['path', 'check_permissions'], header='handlers/webdav.c')
        self.E, self.x = E, x
        self.bn = z3.Int('sharelen')
        st.add(self.bn >= 0, self.bn < (1 << 28))
        self.base = E.cstring(st, 'share', self.bn, kind='heap')
        self.wd = E.newobj(st, 'wd', f[''][1], 'heap')
        E.poke(st, self.wd, iv(f['path'][0]), 8, Ptr(self.base, iv(0)))
        E.poke(st, self.wd, iv(f['check_permissions'][0]), 8, Fn('vf_check'))
        self.req, self.full, self.k, self.pn, self.fl = request(E, st, x)
        self.res = E.newobj(st, 'res', 64, 'input')
        E.skolem_list = [(None, x), ('fullpath', x)]
        E.cmp_sk = [x]
        E.contracts['vf_check'] = self.check
        noop = lambda E, s, a: E.i32(s, 'r')
        E.contracts.update(onion_response_set_header=noop, onion_response_write0=noop, onion_response_set_code=noop, onion_response_write_headers=noop,
                           onion_response_set_length=noop, onion_shortcut_response=self.answer)

    def answer(self, E, s, a):
        s.ghost['answer'] = toint(a[1])
        r = E.i32(s, 'answered')
        s.ghost['ret'] = r
        return r

    def text(self, s, p):
        """(bytes, offset, length) of the string at p"""
        L = models.cstrlen(self.E, s, p)
        self.E.flush(s, p.obj, p)
        return s.om(p.obj).bm, p.off, L

    def check(self, E, s, a):
        """any permission check: 0 grants the name it was given"""
        E.oblige(s, 'the check gets the share', z3.BoolVal(isinstance(a[0], Ptr) and a[0].obj is self.base))
        E.oblige(s, 'the check gets the request', z3.BoolVal(isinstance(a[2], Ptr) and a[2].obj is self.req))
        t = self.text(s, a[1])
        r = E.i32(s, 'check')
        s.ghost['checks'] = s.ghost.get('checks', ()) + ((a[1], t, toint(r)),)
        return r

    def granted(self, s, p):
        """p is a name that was checked and granted, unchanged since"""
        self.E.flush(s, p.obj, p)
        for q, t, r in s.ghost.get('checks', ()):
            if q.obj is p.obj and s.om(p.obj).bm is t[0] and S(q.off - p.off).eq(iv(0)):
                return r == 0
        return z3.BoolVal(False)

    def named(self, s, t, src, so, sn):
        """the text t is share/src"""
        bm, off, L = t
        x, E = self.x, self.E
        at = bm.read(S(off + x))
        return And(L == self.bn + 1 + sn, Implies(x < self.bn, at == E.read_byte(s, self.base, x)), Implies(x == self.bn, at == SLASH),
                   Implies(And(x > self.bn, x < self.bn + 1 + sn), at == E.read_byte(s, src, S(x - self.bn - 1 + so))))


@proof('P19', 'onion_webdav_handler', WD)
def webdav_dispatch(E):
    """each method gets exactly the requested name inside the share, after the permission check granted that name, once"""
    st = init(E)
    x = z3.Int('x')
    st.add(x >= 0)
    D = Dav(E, st, x)
    M = dict(get=('OR_GET', 'OR_HEAD'), put=('OR_PUT',), mkcol=('OR_MKCOL',), move=('OR_MOVE',), delete=('OR_DELETE',), options=('OR_OPTIONS',), propfind=('OR_PROPFIND',), proppatch=('OR_PROPPATCH',))
    c = front.consts([v for t in M.values() for v in t] + ['OR_METHODS', 'HTTP_FORBIDDEN'])

    def method(m):
        def g(E, s, a):
            E.oblige(s, 'acts only on a name that was checked and granted', D.granted(s, a[0]))
            E.oblige(s, 'acts on exactly the requested name', D.named(s, D.text(s, a[0]), D.full, D.k, D.pn))
            E.oblige(s, 'acts in its own share, request and response', z3.BoolVal(all(isinstance(v, Ptr) and v.obj is o for v, o in zip(a[1:], (D.wd, D.req, D.res)))))
            E.oblige(s, 'the method is the requested one', Or(*[D.fl & c['OR_METHODS'] == c[k] for k in M[m]]))
            E.oblige(s, 'one action', z3.BoolVal('done' not in s.ghost))
            s.ghost['done'] = E.i32(s, 'done')
            return s.ghost['done']
        return g
    E.contracts.update({'onion_webdav_' + m: method(m) for m in M})

    def header(E, s, a):
        s2 = s.copy()
        return [(s, Ptr(E.cstring(s, 'header', E.fint('headerlen', s, 0, 1 << 20)), iv(0))), (s2, NULL)]
    E.contracts.update(onion_request_get_header=header, onion_dict_get=header)

    def post(s, ret):
        if 'done' in s.ghost:
            E.oblige(s, 'its answer is returned', toint(ret) == s.ghost['done'])
            return
        ch = s.ghost.get('checks', ())
        if 'answer' in s.ghost:
            E.oblige(s, 'forbidden, and said so', And(s.ghost['answer'] == c['HTTP_FORBIDDEN'], toint(ret) == s.ghost['ret']))
            E.oblige(s, 'refused only if the check refuses or the name is very long', Or(*([r != 0 for _, _, r in ch] or [D.bn + 1 + D.pn >= 512])))
        else:
            E.oblige(s, 'every known method is done', And(*[D.fl & c['OR_METHODS'] != c[k] for t in M.values() for k in t]))
    E.run(st, 'onion_webdav_handler', [Ptr(D.wd, iv(0)), Ptr(D.req, iv(0)), Ptr(D.res, iv(0))], post)


def same_name(E, s, p, o, what):
    """p is the string object o, or a copy of its text"""
    if isinstance(p, Ptr) and p.obj is o:
        E.oblige(s, what, p.off == 0)
        return
    if not isinstance(p, Ptr) or p.obj is None:
        E.oblige(s, what, False)
        return
    L = models.cstrlen(E, s, p)
    x = E.cmp_sk[0]
    E.flush(s, p.obj, p)
    E.oblige(s, what, And(L == o.cstr, Implies(x < L, E.read_byte(s, p.obj, S(p.off + x)) == E.read_byte(s, o, x))))


def one_name(func, extra):
    def body(E):
        st = init(E)
        x, n = z3.Int('x'), z3.Int('namelen')
        st.add(x >= 0, n >= 0, n < 512)
        D = Dav(E, st, x)
        name = E.cstring(st, 'filename', n)
        c = front.consts(['HTTP_FORBIDDEN', 'HTTP_OK', 'HTTP_CREATED', 'HTTP_INTERNAL_ERROR'])
        body.post = None
        extra(E, st, D, name, c)
        E.run(st, func, [Ptr(name, iv(0)), Ptr(D.wd, iv(0)), Ptr(D.req, iv(0)), Ptr(D.res, iv(0))], lambda s, ret: body.post(s, ret))
    return body


def act(E, D, name, fn, args=1, pos=0, key='acted'):
    """a call that changes files: only once and only on the given name"""
    def g(E, s, a):
        same_name(E, s, a[pos], name, 'acts only on the given name')
        E.oblige(s, 'acts once', z3.BoolVal(key not in s.ghost))
        r = E.i32(s, fn)
        s.ghost[key] = r
        return r
    E.contracts[fn] = g


def reported(E, s, ret, ok, key='acted'):
    E.oblige(s, 'the file operation happens', z3.BoolVal(key in s.ghost))
    E.oblige(s, 'an answer is given and returned', z3.BoolVal('answer' in s.ghost))
    if key in s.ghost and 'answer' in s.ghost:
        E.oblige(s, 'success is reported only, and always, when the operation succeeded', And((s.ghost[key] == 0) == (s.ghost['answer'] == ok), (s.ghost[key] == 0) == (s.ghost['answer'] < 400), toint(ret) == s.ghost['ret']))


@proof('P19', 'onion_webdav_delete', WD)
def webdav_delete(E):
    """removes exactly the given name and says truly whether it did"""
    def extra(E, st, D, name, c):
        act(E, D, name, 'remove')
        b.post = lambda s, ret: reported(E, s, ret, c['HTTP_OK'])
    b = one_name('onion_webdav_delete', extra)
    b(E)


@proof('P19', 'onion_webdav_mkcol', WD)
def webdav_mkcol(E):
    """creates exactly the given directory and says truly whether it did"""
    def extra(E, st, D, name, c):
        act(E, D, name, 'mkdir')
        b.post = lambda s, ret: reported(E, s, ret, 201)
    b = one_name('onion_webdav_mkcol', extra)
    b(E)


@proof('P19', 'onion_webdav_get', WD)
def webdav_get(E):
    """serves exactly the given name"""
    def extra(E, st, D, name, c):
        act(E, D, name, 'onion_shortcut_response_file')
        b.post = lambda s, ret: E.oblige(s, 'its answer is returned', toint(ret) == s.ghost.get('acted', iv(1 << 50)))
    b = one_name('onion_webdav_get', extra)
    b(E)


@proof('P19', 'onion_webdav_put', WD)
def webdav_put(E):
    """moves the received file to exactly the given name and says truly whether it did"""
    def extra(E, st, D, name, c):
        tl = z3.Int('tmplen')
        st.add(tl >= 0, tl < 1000)
        tmp = E.cstring(st, 'received', tl)
        blk = E.newobj(st, 'block', 8, 'input')
        E.contracts.update(onion_request_get_data=lambda E, s, a: Ptr(blk, iv(0)), onion_block_data=lambda E, s, a: Ptr(tmp, iv(0)))

        def ren(E, s, a):
            same_name(E, s, a[0], tmp, 'takes the received file')
            return act_(E, s, a)
        act(E, D, name, 'onion_shortcut_rename', pos=1)
        act_ = E.contracts['onion_shortcut_rename']
        E.contracts['onion_shortcut_rename'] = ren
        b.post = lambda s, ret: reported(E, s, ret, 201)
    b = one_name('onion_webdav_put', extra)
    b(E)


@proof('P19', 'onion_webdav_move', WD)
def webdav_move(E):
    """moves exactly the given name to share/<destination below the handler's own address>, only after that name was checked and granted"""
    def extra(E, st, D, name, c):
        x = D.x
        hn, un = z3.Ints('headerlen unquotedlen')
        st.add(hn >= 0, hn < (1 << 20), un >= 0, un <= hn)
        hdr = E.cstring(st, 'destination', hn)
        U = BMBase('unquoted')
        st.add(U.read(un) == 0)

        def header(E, s, a):
            s2 = s.copy()
            s2.ghost['nodest'] = True
            E.oblige(s, 'the destination header is read', z3.BoolVal(models.constbytes(E, s, a[1]) == b'Destination'))
            return [(s, Ptr(hdr, iv(0))), (s2, NULL)]

        def unquote(E, s, a):
            """decodes in place: a text that is not longer (contract proved in P02)"""
            p = a[0]
            L = models.cstrlen(E, s, p)
            E.flush(s, p.obj, p)
            E.oblige(s, 'the destination is decoded', And(L == hn, Implies(x < hn, E.read_byte(s, p.obj, S(p.off + x)) == E.read_byte(s, hdr, x))))
            if not E.access(s, p, S(L + 1), True, None):
                return iv(0)
            po = p.off
            E.store_range(s, p.obj, p.off, S(un + 1), lambda i: U.read(S(i - po)))
            s.wom(p.obj).nuls = (S(p.off + un),)
            s.strfacts.append((p.obj, s.om(p.obj).bm, p.off, un))
            s.ghost['decoded'] = True
            return un
        E.contracts.update(onion_request_get_header=header, onion_unquote_inplace=unquote, onion_dict_get=header)

        def ren(E, s, a):
            same_name(E, s, a[0], name, 'moves the given name')
            E.oblige(s, 'only to a name that was checked and granted', D.granted(s, a[1]))
            bm, off, L = D.text(s, a[1])
            q = S(un - (L - D.bn - 1))       # where the rest of the destination starts
            at = bm.read(S(off + x))
            E.oblige(s, 'to share/rest of the destination', And(q >= 0, q <= un, Implies(x < D.bn, at == E.read_byte(s, D.base, x)), Implies(x == D.bn, at == SLASH),
                                                              Implies(And(x > D.bn, x < L), at == U.read(S(x - D.bn - 1 + q)))))
            E.oblige(s, 'the destination is below the address of the handler', And(q >= D.k, Implies(x < D.k, U.read(S(q - D.k + x)) == E.read_byte(s, D.full, x))))
            E.oblige(s, 'acts once', z3.BoolVal('acted' not in s.ghost))
            s.ghost['acted'] = E.i32(s, 'rename')
            return s.ghost['acted']
        E.contracts['onion_shortcut_rename'] = ren

        def post(s, ret):
            if 'acted' in s.ghost:
                reported(E, s, ret, 201)
            elif 'answer' in s.ghost:
                E.oblige(s, 'refused', And(s.ghost['answer'] >= 400, toint(ret) == s.ghost['ret']))
            else:
                E.oblige(s, 'an error', toint(ret) < 0)
        b.post = post

        def cands(ctx):
            out = []
            for m, v in ctx.phis.items():
                if isinstance(v, Ptr) and v.obj is not None:
                    out.append(('in ' + m, lambda c, m=m: And(c.phis[m].off >= 0, c.phis[m].off <= un)))
                    for m2, v2 in ctx.phis.items():
                        if not isinstance(v2, (Ptr, Fn)) and isint(v2):
                            out.append(('moved %s %s' % (m, m2), lambda c, m=m, m2=m2: And(toint(c.phis[m2]) >= 0, toint(c.phis[m2]) <= c.phis[m].off)))
            return out
        E.cand_hooks = [cands]
    b = one_name('onion_webdav_move', extra)
    b(E)


def xml(E):
    """the xml writer and parser only see text"""
    def txt(E, s, a):
        for p in a[1:]:
            if isinstance(p, Ptr) and p.obj is not None and p.obj.name != 'xml':
                models.cstrlen(E, s, p)
        return E.i32(s, 'xml')
    for n in ('StartElement', 'WriteAttribute', 'WriteElement', 'EndElement', 'StartDocument', 'EndDocument'):
        E.contracts['xmlTextWriter' + n] = txt


def statonly(E, fs, names):
    """stat of the given name or of an entry of it"""
    def g(E, s, a):
        p = a[0]
        base, entry = names
        x = E.cmp_sk[0]
        L = models.cstrlen(E, s, p)
        E.flush(s, p.obj, p)
        at = E.read_byte(s, p.obj, S(p.off + x))
        if entry is None:
            ok = And(L == base.cstr, Implies(x < L, at == E.read_byte(s, base, x)))
        else:
            ok = And(Implies(And(x < L, x < base.cstr), at == E.read_byte(s, base, x)), Implies(And(x == base.cstr, x < L), at == SLASH),
                     Implies(And(x > base.cstr, x < L), at == E.read_byte(s, entry, S(x - base.cstr - 1))))
        E.oblige(s, 'looks only at the given name or an entry of it', ok)
        return fs.stat(E, s, a)
    E.contracts['stat'] = g


@proof('P19', 'onion_webdav_write_props', WD)
def webdav_props(E):
    """looks only at the given name (or an entry of it), and no address makes it write outside its buffers"""
    st = init(E)
    x = z3.Int('x')
    st.add(x >= 0)
    E.skolem_list = [(None, x)]
    E.cmp_sk = [x]
    fs = Fs(E)
    xml(E)
    n = dict(zip(('base', 'name', 'url', 'entry'), z3.Ints('baselen namelen urllen entrylen')))
    o = {}
    for k, v in n.items():
        st.add(v >= 0, v < (1 << 20))
        o[k] = E.cstring(st, k, v)
    for fn in ('onion_shortcut_date_string', 'onion_shortcut_date_string_iso', 'onion_shortcut_etag'):
        def short(E, s, a):
            """a text of less than 32 bytes (contract proved in P20)"""
            p = a[1]
            if not E.access(s, p, 32, True, None):
                return None
            L = E.fint('short', s, 0, 31)
            bb = BMBase('short')
            E.store_range(s, p.obj, p.off, iv(32), lambda i: bb.read(i))
            s.add(s.om(p.obj).bm.read(S(p.off + L)) == 0)
            s.wom(p.obj).nuls = (S(p.off + L),)
            return None
        E.contracts[fn] = short
    w = E.newobj(st, 'xml', 8, 'input')
    s2 = st.copy()

    def post(s, ret):
        E.oblige(s, 'missing files are reported', Implies(Not(s.ghost.get('statok', z3.BoolVal(False))), toint(ret) != 0))
    props = z3.Int('props')
    for s, e in ((st, None), (s2, o['entry'])):
        s.add(Or(props == 255, props == 0, *[props == 1 << k for k in range(8)]))      # one property asked, or all, or none: they are written independently
        statonly(E, fs, (o['name'], e))
        E.run(s, 'onion_webdav_write_props', [Ptr(w, iv(0)), Ptr(o['base'], iv(0)), Ptr(o['name'], iv(0)), Ptr(o['url'], iv(0)), NULL if e is None else Ptr(e, iv(0)), props], post)


def directory(E, name, size=280):
    """opendir of the given name; readdir gives any entries; it must be closed once"""
    f = front.offsets('struct dirent', ['d_name'], extra='#include <dirent.h>')

    def opend(E, s, a):
        same_name(E, s, a[0], name, 'opens only the given directory')
        s2 = s.copy()
        o = E.newobj(s, 'DIR', 8, 'heap')
        s.ghost['entries'] = E.fint('entries', s, 0)       # a directory is finite
        return [(s, Ptr(o, iv(0))), (s2, NULL)]

    def live(E, s, p):
        E.oblige(s, 'an open directory', z3.BoolVal(isinstance(p, Ptr) and p.obj is not None and p.obj.name == 'DIR' and s.om(p.obj).alive))

    def readd(E, s, a):
        live(E, s, a[0])
        s2 = s.copy()
        s.add(s.ghost['entries'] > 0)
        s.ghost['entries'] = S(s.ghost['entries'] - 1)
        k = E.fint('entrylen', s, 0, 255)
        o = E.newobj(s, 'dirent', iv(f[''][1]), 'input')
        s.add(s.om(o).bm.read(S(k + f['d_name'][0])) == 0)
        o.cstr = S(k + f['d_name'][0])
        return [(s, Ptr(o, iv(0))), (s2, NULL)]

    def closed(E, s, a):
        live(E, s, a[0])
        if isinstance(a[0], Ptr) and a[0].obj is not None:
            s.wom(a[0].obj).alive = False
        return iv(0)
    E.contracts.update(opendir=opend, readdir=readd, readdir64=readd, closedir=closed)


def closed_dirs(E, s):
    for o in s.objs.values():
        if o.name == 'DIR':
            E.oblige(s, 'the directory is closed', z3.BoolVal(not s.om(o).alive))


@proof('P19', 'onion_webdav_write_propfind', WD)
def webdav_propfind_dir(E):
    """lists only the given directory, with its entries, and closes it"""
    st = init(E)
    x = z3.Int('x')
    st.add(x >= 0)
    E.skolem_list = [(None, x)]
    E.cmp_sk = [x]
    xml(E)
    n = dict(zip(('base', 'name', 'url'), z3.Ints('baselen namelen urllen')))
    o = {}
    for k, v in n.items():
        st.add(v >= 0, v < (1 << 20))
        o[k] = E.cstring(st, k, v)
    directory(E, o['name'])

    def mk(name, null=True):
        def g(E, s, a):
            s2 = s.copy()
            ob = E.newobj(s, name, 64, 'heap')
            if name == 'xmlbuf':
                t = E.cstring(s, 'xmltext', E.fint('xmllen', s, 0, 1 << 28))
                ob.ptr_default = lambda E, s, ob, off: Ptr(t, iv(0))
            return [(s, Ptr(ob, iv(0)))] + ([(s2, NULL)] if null else [])
        return g

    def kill(E, s, a):
        return models.free_(E, s, a)

    def props(E, s, a):
        same_name(E, s, a[2], o['name'], 'describes the given name')
        return E.i32(s, 'props')
    E.contracts.update(onion_block_new=mk('block', False), xmlBufferCreate=mk('xmlbuf'), xmlNewTextWriterMemory=mk('xml'), xmlFreeTextWriter=kill, xmlBufferFree=kill,
                       onion_block_free=kill, onion_block_add_str=lambda E, s, a: E.i32(s, 'added'), onion_webdav_write_props=props)

    def post(s, ret):
        closed_dirs(E, s)
    dp, pr = z3.Ints('depth props')
    st.add(dp >= -(1 << 31), dp < (1 << 31), pr >= -(1 << 31), pr < (1 << 31))
    E.run(st, 'onion_webdav_write_propfind', [Ptr(o['base'], iv(0)), Ptr(o['name'], iv(0)), Ptr(o['url'], iv(0)), dp, pr], post)


@proof('P19', 'onion_webdav_propfind', WD)
def webdav_propfind(E):
    """describes exactly the given name; nothing outside its buffers is touched"""
    def extra(E, st, D, name, c):
        def header(E, s, a):
            s2 = s.copy()
            k = E.fint('depthlen', s, 0, 1 << 20)
            return [(s, Ptr(E.cstring(s, 'depth', k), iv(0))), (s2, NULL)]
        blk = E.newobj(st, 'block', 8, 'input')

        def data(E, s, a):
            s2 = s.copy()
            return [(s, Ptr(blk, iv(0))), (s2, NULL)]

        def find(E, s, a):
            same_name(E, s, a[1], name, 'describes the given name')
            same_text(E, s, a[2], D.full, D.k, D.pn, 'of the requested path')
            models.cstrlen(E, s, a[0])
            E.oblige(s, 'once', z3.BoolVal('acted' not in s.ghost))
            s.ghost['acted'] = iv(0)
            s2 = s.copy()
            o = E.newobj(s, 'found', 8, 'heap')
            return [(s, Ptr(o, iv(0))), (s2, NULL)]
        rd = lambda E, s, a: Ptr(E.cstring(s, 'blocktext', E.fint('blocklen', s, 0, 1 << 28)), iv(0))
        E.contracts.update(onion_request_get_header=header, onion_request_get_data=data, onion_webdav_parse_propfind=lambda E, s, a: E.i32(s, 'props'), onion_webdav_write_propfind=find,
                           onion_block_data=rd, onion_block_size=lambda E, s, a: E.fint('blocksize', s, 0, 1 << 28), onion_block_free=models.free_,
                           onion_response_flush=lambda E, s, a: E.i32(s, 'fl'), onion_response_write=lambda E, s, a: E.i32(s, 'w'))

        def post(s, ret):
            for o in s.objs.values():
                if o.name == 'found':
                    E.oblige(s, 'the description is released', z3.BoolVal(not s.om(o).alive))
        b.post = post
    b = one_name('onion_webdav_propfind', extra)
    b(E)


def same_text(E, s, p, o, off, n, what):
    if isinstance(p, Ptr) and p.obj is o:
        E.oblige(s, what, p.off == off)
        return
    x = E.cmp_sk[0]
    L = models.cstrlen(E, s, p)
    E.flush(s, p.obj, p)
    E.oblige(s, what, And(L == n, Implies(x < L, E.read_byte(s, p.obj, S(p.off + x)) == E.read_byte(s, o, S(x + off)))))


def xmldoc(E):
    """any parsed document: a node has a name, perhaps children, a content and a next node"""
    f = front.offsets('xmlNode', ['name', 'children', 'next', 'content'], extra='#include <libxml/tree.h>')
    text = lambda n: (lambda E, s, ob: Ptr(E.cstring(s, n, E.fint(n + 'len', s, 0, 1 << 20)), iv(0)))
    ch = Chain(E, 'xmlnode', f[''][1], f['next'][0], lambda st, o: {f['name'][0]: text('xmlname'), f['content'][0]: lambda E, s, ob: fork(E, s, text('xmlcontent')(E, s, ob))}, child=(f['children'][0],))

    def null_or(mk):
        def g(E, s, a):
            s2 = s.copy()
            return [(s, mk(s)), (s2, NULL)]
        return g
    doc = lambda s: Ptr(E.newobj(s, 'xmldoc', 8, 'heap'), iv(0))

    def root(E, s, a):
        if isnull(a[0]):
            return NULL
        return null_or(lambda s: ch.ptr(s))(E, s, a)

    def free(E, s, a):
        if not isnull(a[0]):
            models.free_(E, s, a)
        return None
    E.contracts.update(xmlParseMemory=null_or(doc), xmlDocGetRootElement=root, xmlFreeDoc=free)


def released(E, s, name, what):
    for o in s.objs.values():
        if o.name == name:
            E.oblige(s, what, z3.BoolVal(not s.om(o).alive))


@proof('P19', 'onion_webdav_proppatch', WD)
def webdav_proppatch(E):
    """changes the mode of exactly the given name, and only its executable bits; any document is walked safely"""
    def extra(E, st, D, name, c):
        fs = Fs(E)
        xmldoc(E)
        blk = E.newobj(st, 'block', 8, 'input')
        rd = lambda E, s, a: Ptr(E.cstring(s, 'blocktext', E.fint('blocklen', s, 0, 1 << 28)), iv(0))

        def data(E, s, a):
            s2 = s.copy()
            return [(s, Ptr(blk, iv(0))), (s2, NULL)]
        def stat(E, s, a):
            same_name(E, s, a[0], name, 'looks at the given name')
            r = fs.stat(E, s, a)
            s.ghost['mode'] = tobv(E.load(s, Ptr(a[1].obj, S(a[1].off + fs.so['st_mode'][0])), ir.I[32], None), 32)
            return r

        def chmod(E, s, a):
            same_name(E, s, a[0], name, 'changes only the given name')
            m = tobv(a[1], 32)
            E.oblige(s, 'changes only the executable bits of the mode it has', And(m & ~bv(0o111, 32) == s.ghost['mode'] & ~bv(0o111, 32), Or(m & 0o111 == 0o111, m & 0o111 == 0)) if 'mode' in s.ghost else False)
            return E.i32(s, 'chmod')
        E.contracts.update(onion_request_get_data=data, onion_block_data=rd, onion_block_size=lambda E, s, a: E.fint('blocksize', s, 0, 1 << 28), stat=stat, chmod=chmod)

        def post(s, ret):
            released(E, s, 'xmldoc', 'the document is released')
        b.post = post
    b = one_name('onion_webdav_proppatch', extra)
    b(E)


@proof('P19', 'onion_webdav_parse_propfind', WD)
def webdav_parse_propfind(E):
    """any document is walked safely to its end and released"""
    st = init(E)
    xmldoc(E)
    blk = E.newobj(st, 'block', 8, 'input')
    rd = lambda E, s, a: Ptr(E.cstring(s, 'blocktext', E.fint('blocklen', s, 0, 1 << 28)), iv(0))
    E.contracts.update(onion_block_data=rd, onion_block_size=lambda E, s, a: E.fint('blocksize', s, 0, 1 << 28))
    fn = next((k for k in E.mod.funcs if k.split('.')[-1] == 'onion_webdav_parse_propfind'), 'onion_webdav_parse_propfind')
    E.run(st, fn, [Ptr(blk, iv(0))], lambda s, ret: released(E, s, 'xmldoc', 'the document is released'))


@proof('P19', 'onion_handler_export_local_directory', ['handlers/exportlocal.c'])
def export_directory(E):
    """lists only the given directory, looks only at its entries, closes it; no entry makes it touch memory outside its buffers"""
    st = init(E)
    x, n, sn = z3.Ints('x namelen showlen')
    st.add(x >= 0, n >= 1, n < PMAX, sn >= 0, sn < (1 << 28))
    E.skolem_list = [(None, x)]
    E.cmp_sk = [x]
    name, show = E.cstring(st, 'name', n), E.cstring(st, 'show', sn)
    fs = Fs(E)
    directory(E, name)
    f = front.offsets('struct onion_handler_export_local_data_t', ['localpath', 'renderer_header', 'renderer_footer'], header='handlers/exportlocal.c')
    d = E.newobj(st, 'data', f[''][1], 'heap')
    for k in ('renderer_header', 'renderer_footer'):
        E.poke(st, d, iv(f[k][0]), 8, Fn('vf_render'))
    pw = front.offsets('struct passwd', ['pw_name'], extra='#include <pwd.h>')

    def user(E, s, a):
        s2 = s.copy()
        o = E.newobj(s, 'passwd', pw[''][1], 'input')
        E.poke(s, o, iv(pw['pw_name'][0]), 8, Ptr(E.cstring(s, 'user', E.fint('userlen', s, 0, 1000)), iv(0)))
        return [(s, Ptr(o, iv(0))), (s2, NULL)]
    noop = lambda E, s, a: E.i32(s, 'r')
    dn = front.offsets('struct dirent', ['d_name'], extra='#include <dirent.h>')['d_name'][0]
    opend, readd, closed = [E.contracts[k] for k in ('opendir', 'readdir', 'closedir')]

    def opend1(E, s, a):
        s.ghost['pending'] = iv(0)
        return opend(E, s, a)

    def settled(E, s):
        E.oblige(s, 'every entry that can be looked at is listed, but hidden ones', s.ghost['pending'] == 0)

    def readd1(E, s, a):
        settled(E, s)
        r = readd(E, s, a)
        o = r[0][1].obj
        k = models.cstrlen(E, r[0][0], Ptr(o, iv(dn)))
        r[0][0].ghost['entry'] = (o, k)
        r[0][0].ghost['pending'] = If(Or(E.read_byte(r[0][0], o, iv(dn)) == 46, n + 1 + k >= PMAX), iv(0), iv(1))      # longer names cannot be looked at
        r[0][0].ghost.pop('looked', None)
        return r

    def closed1(E, s, a):
        settled(E, s)
        return closed(E, s, a)

    def printf(E, s, a):
        models.fmt_parts(E, s, a[1:])
        e = s.ghost.get('entry')
        if e and any(isinstance(v, Ptr) and v.obj is e[0] for v in a[2:]):
            at = lambda k: E.read_byte(s, e[0], iv(dn + k))
            E.oblige(s, 'lists entries of the directory, not what is above it', Not(And(at(0) == 46, at(1) == 46, at(2) == 0)))
            L = s.ghost.get('looked')
            fmt = models.constbytes(E, s, a[1])
            isdir = s.ghost['mode'] == 0o040000 if L is not None else None
            E.oblige(s, 'lists an entry by its name, after looking at it', z3.BoolVal(L is not None and isinstance(a[2], Ptr) and a[2].obj is e[0]) if not isinstance(a[2], Ptr) or L is None else And(z3.BoolVal(a[2].obj is e[0]), a[2].off == dn, L))
            if L is not None:
                if fmt is not None and b'dir' in fmt and b'file' not in fmt:
                    E.oblige(s, 'what is listed as directory is one', isdir)
                elif fmt is not None and b'file' in fmt and b'dir' not in fmt:
                    E.oblige(s, 'what is not listed as directory is none', Not(isdir))
            s.ghost['pending'] = iv(0)
        return E.i32(s, 'printed')

    def stat(E, s, a):
        L = models.cstrlen(E, s, a[0])
        E.flush(s, a[0].obj, a[0])
        at = E.read_byte(s, a[0].obj, S(a[0].off + x))
        E.oblige(s, 'looks only at entries of the directory', And(L >= 1, Implies(And(x < n, x < L), at == E.read_byte(s, name, x)), Implies(And(x == n, x < L), at == SLASH)))
        e = s.ghost.get('entry')
        if e:
            E.oblige(s, 'looks at the entry by its whole name', And(L == n + 1 + e[1], Implies(And(x > n, x < L), at == E.read_byte(s, e[0], S(dn + x - n - 1)))))
        r = fs.stat(E, s, a)
        s.ghost['looked'] = r == 0
        s.ghost['pending'] = If(r == 0, s.ghost['pending'], iv(0))
        return r

    E.contracts.update(opendir=opend1, readdir=readd1, readdir64=readd1, closedir=closed1)
    E.cand_hooks = [lambda ctx: [('nothing pending', lambda c_: c_.st.ghost['pending'] == 0)] if 'pending' in ctx.st.ghost else []]
    E.contracts.update(onion_response_set_header=noop, onion_response_write0=noop, onion_response_write=noop, onion_response_printf=printf, vf_render=noop, getpwuid=user, stat=stat)
    req, res = E.newobj(st, 'req', 8, 'input'), E.newobj(st, 'res', 8, 'input')
    E.run(st, 'onion_handler_export_local_directory', [Ptr(d, iv(0)), Ptr(name, iv(0)), Ptr(show, iv(0)), Ptr(req, iv(0)), Ptr(res, iv(0))], lambda s, ret: closed_dirs(E, s))


def handler_new(E):
    """onion_handler_new takes the data over"""
    def f(E, s, a):
        E.oblige(s, 'one handler', z3.BoolVal('handler' not in s.ghost))
        E.oblige(s, 'that serves the share', z3.BoolVal(isinstance(a[0], Fn)))
        E.oblige(s, 'and frees it', z3.BoolVal(isinstance(a[2], Fn)))
        s.ghost['handler'] = E.newobj(s, 'handler', 32, 'input')
        s.ghost['priv'] = a[1]
        return Ptr(s.ghost['handler'], iv(0))
    return f


def heaps(s):
    return {o.id for o in s.objs.values() if o.kind == 'heap' and s.om(o).alive}


@proof('P19', 'onion_handler_export_local_new', ['handlers/exportlocal.c'])
def export_new(E):
    """the share is where its path really leads, a file only if it is one; nothing is kept when it is not there"""
    st = init(E)
    Fs_ = Fs(E)
    f = front.offsets('struct onion_handler_export_local_data_t', ['localpath', 'renderer_header', 'renderer_footer'], 'handlers/exportlocal.c')
    path = E.cstring(st, 'path', E.fint('pathlen', st, 0, 1 << 20))
    real, sta = Fs_.realpath, Fs_.stat

    def realpath(E, s, a):
        E.oblige(s, 'resolves the path given', And(z3.BoolVal(a[0].obj is path), a[0].off == 0))
        out = real(E, s, a)
        for s2, v in (out if isinstance(out, list) else [(s, out)]):
            s2.ghost['rp'] = v
        return out

    def stat(E, s, a):
        r = sta(E, s, a)
        rp = s.ghost.get('rp')
        if rp is not None and isinstance(a[0], Ptr) and a[0].obj is not None and rp.obj is not None and a[0].obj.id == rp.obj.id:
            s.ghost['known'] = r
        return r
    E.contracts.update(realpath=realpath, stat=stat, lstat=stat, onion_handler_new=handler_new(E))

    def post(s, ret):
        rp, k = s.ghost.get('rp'), s.ghost.get('known')
        if isinstance(ret, Ptr) and ret.obj is None:
            E.oblige(s, 'none only if there is no such file', z3.BoolVal(rp is not None and rp.obj is None) if k is None else k != 0)
            E.oblige(s, 'and nothing is kept', z3.BoolVal(not heaps(s)))
            return
        p = s.ghost.get('priv')
        E.oblige(s, 'the handler made', z3.BoolVal(ret.obj is s.ghost.get('handler')))
        lp = E.load(s, Ptr(p.obj, iv(f['localpath'][0])), ir.PTR, None)
        E.oblige(s, 'shares what the path leads to, that is there', And(z3.BoolVal(rp is not None and rp.obj is not None and lp.obj is not None and lp.obj.id == rp.obj.id and bool(s.om(lp.obj).alive)), lp.off == 0, k == 0 if k is not None else z3.BoolVal(False)))
        bit = tobv(E.load(s, Ptr(p.obj, iv(f['localpath'][0] + 8)), ir.I[8], None), 8) & 1
        E.oblige(s, 'a file only if it is one', (bit == 1) == (s.ghost['mode'] == 0o100000))
        E.oblige(s, 'nothing else is kept', z3.BoolVal(heaps(s) == {p.obj.id, lp.obj.id}))
        for n in ('renderer_header', 'renderer_footer'):
            v = E.load(s, Ptr(p.obj, iv(f[n][0])), ir.PTR, None)
            E.oblige(s, 'has its ' + n, z3.BoolVal(isinstance(v, Fn)))
    E.run(st, 'onion_handler_export_local_new', [Ptr(path, iv(0))], post)


@proof('P19', 'onion_handler_webdav', ['handlers/webdav.c'])
def webdav_new(E):
    """the share is a copy of the path given; without a permission check of its own it has the default one"""
    f = front.offsets('struct onion_webdav_t', ['path', 'check_permissions'], 'handlers/webdav.c')
    for own in (False, True):
        st = init(E)
        n, x = z3.Ints('pathlen x')
        st.add(n >= 0, n < (1 << 20), x >= 0, x <= n)
        path = E.cstring(st, 'path', n)
        E.skolem_list = [(None, x)]
        perm = E.newobj(st, 'perm', 1, 'ghost')
        for q in ('xmlInitParser', 'xmlCheckVersion'):
            E.contracts[q] = lambda E, s, a: None
        E.contracts['onion_handler_new'] = handler_new(E)

        def post(s, ret, own=own):
            p = s.ghost.get('priv')
            if p is None:
                E.oblige(s, 'a handler', z3.BoolVal(False))
                return
            E.oblige(s, 'the handler made', z3.BoolVal(isinstance(ret, Ptr) and ret.obj is s.ghost.get('handler')))
            lp, ck = E.load(s, Ptr(p.obj, iv(f['path'][0])), ir.PTR, None), E.load(s, Ptr(p.obj, iv(f['check_permissions'][0])), ir.PTR, None)
            E.oblige(s, 'a copy of the path', And(z3.BoolVal(lp.obj is not None and lp.obj.kind == 'heap' and bool(s.om(lp.obj).alive)), lp.off == 0))
            E.pointwise(s, lp.obj, x)
            E.oblige(s, 'of exactly the path', E.read_byte(s, lp.obj, x) == E.read_byte(s, path, x))
            E.oblige(s, 'checked', z3.BoolVal(isinstance(ck, Ptr) and ck.obj is perm if own else isinstance(ck, Fn) and ck.name.split('.c.')[-1] == 'onion_webdav_default_check_permissions'))
            E.oblige(s, 'nothing else is kept', z3.BoolVal(heaps(s) == {p.obj.id, lp.obj.id}))
        E.run(st, 'onion_handler_webdav', [Ptr(path, iv(0)), Ptr(perm, iv(0)) if own else NULL], post)
