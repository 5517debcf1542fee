"""clang front end: /repo C sources -> LLVM IR module (rebuilt from the working tree on every run)."""
import os
import subprocess
import tempfile
import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ('-DHAVE_GNUTLS -DHAVE_PAM -DHAVE_PTHREADS -DHAVE_REDIS -DHAVE_SQLITE3 -DHAVE_SYSTEMD -DHAVE_WEBDAV -D_BSD_SOURCE '
        '-D_DEFAULT_SOURCE -D_ISOC99_SOURCE -D_POSIX_C_SOURCE=200112L -DNDEBUG -DONION_VERSION="0.8.0.GIT" -I/usr/include/libxml2').split()
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        _scratch = tempfile.mkdtemp(prefix='vf-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def version_h():
    """version.h is generated by cmake from version.h.in; regenerate it here"""
    d = os.path.join(scratch(), 'gen', 'onion')
    p = os.path.join(d, 'version.h')
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        t = open(os.path.join(REPO, 'src/onion/version.h.in')).read()
        import re
        vals = {'MAJOR': '0', 'MINOR': '8', 'PATCH': '0'}
        t = re.sub(r'\$\{([A-Z_a-z0-9]*)\}|@([A-Z_a-z0-9]+)@',
                   lambda m: next((v for k, v in vals.items() if k in (m.group(1) or m.group(2))), '0.8.0.GIT'), t)
        t = re.sub(r'#cmakedefine01\s+(\w+).*', r'#define \1 1', t)
        t = re.sub(r'#cmakedefine', '#define', t)
        open(p, 'w').write(t)
    return os.path.join(scratch(), 'gen')


def flags():
    return DEFS + ['-I' + os.path.join(REPO, 'src'), '-I' + version_h(), '-I' + os.path.join(version_h(), 'onion')]


def emit(path):
    src = path if path.startswith('/') else os.path.join(REPO, 'src/onion', path)
    r = subprocess.run(['clang-18', *flags(), '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w',
                        '-gline-tables-only', '-emit-llvm', '-S', '-o', '-', src], capture_output=True, text=True)
    if r.returncode:
        raise ir.IRError('clang: ' + r.stderr[:2000])
    o = subprocess.run(['opt-18', '-S', '-passes=mem2reg', '-'], input=r.stdout, capture_output=True, text=True)
    if o.returncode:
        raise ir.IRError('opt: ' + o.stderr[:500])
    return o.stdout


def load(*files):
    mod = ir.Module()
    for f in files:
        ir.parse(emit(f), mod, os.path.basename(f) + '.')
    return mod


_off = {}


def offsets(struct, fields, header='types_internal.h', extra=''):
    """byte offsets (and sizes) of struct fields, taken from the current headers: {field: (offset, size)}; '' -> struct size"""
    key = (struct, tuple(fields))
    if key in _off:
        return _off[key]
    src = '#include <stddef.h>\n#include <onion/types.h>\n#include "%s"\n%s\n' % (os.path.join(REPO, 'src/onion', header), extra)
    src += 'const unsigned long vf_tab[] = {%s, sizeof(%s)};\n' % (
        ', '.join('offsetof(%s, %s), sizeof(((%s*)0)->%s)' % (struct, f, struct, f) for f in fields), struct)
    p = os.path.join(scratch(), 'off%d.c' % len(_off))
    open(p, 'w').write(src)
    r = subprocess.run(['clang-18', *flags(), '-w', '-emit-llvm', '-S', '-o', '-', p], capture_output=True, text=True)
    if r.returncode:
        raise ir.IRError('offsets: ' + r.stderr[:1000])
    import re
    m = re.search(r'@vf_tab = .*?\[(\d+) x i64\] \[(.*?)\]', r.stdout)
    v = [int(x.split()[-1]) for x in m.group(2).split(',')]
    d = {f: (v[2 * i], v[2 * i + 1]) for i, f in enumerate(fields)}
    d[''] = (0, v[-1])
    _off[key] = d
    return d


_con = {}


def consts(names, header='types_internal.h', extra=''):
    """values of enum constants and macros in the current headers"""
    key = tuple(names)
    if key not in _con:
        src = '#include <stddef.h>\n#include <onion/types.h>\n#include <onion/response.h>\n#include <onion/request.h>\n#include "%s"\n%s\nconst long vf_tab[] = {%s, 1};\n' % (
            os.path.join(REPO, 'src/onion', header), extra, ', '.join('(long)(%s)' % n for n in names))
        p = os.path.join(scratch(), 'con%d.c' % len(_con))
        open(p, 'w').write(src)
        r = subprocess.run(['clang-18', *flags(), '-w', '-emit-llvm', '-S', '-o', '-', p], capture_output=True, text=True)
        if r.returncode:
            raise ir.IRError('consts: ' + r.stderr[:1000])
        import re
        m = re.search(r'@vf_tab = .*?\[(\d+) x i64\] \[(.*?)\]', r.stdout)
        v = [int(x.split()[-1]) for x in m.group(2).split(',')]
        _con[key] = dict(zip(names, v))
    return _con[key]
