// SOURCES: @all handlers/exportlocal.c handlers/webdav.c
// LIBS: -lgnutls -lgcrypt -lsystemd -lxml2
// CFLAGS: -D_GNU_SOURCE -I/usr/include/libxml2
#include "vfreq.h"
#include <errno.h>
#include <limits.h>
#include <dirent.h>
#include <stdarg.h>
#include "handler.h"
#include "shortcuts.h"
#include "handlers/exportlocal.h"
#include "handlers/webdav.h"
#include "url.h"
#include <libxml/xmlerror.h>
static void xmlquiet(void *c, const char *m, ...) {}
// a small world in a scratch directory:  S/srv (exported), S/srv-private, S/srvx, S/out; links between them.
// every call that can change files is a stand-in that refuses anything outside the scratch directory.
static char S[PATH_MAX], share[PATH_MAX]; static int guard; static char escaped[PATH_MAX + 64];
static int inside(const char *base, const char *p) { size_t l = strlen(base); return !strncmp(p, base, l) && (!p[l] || p[l] == '/'); }
// where a path really leads (its parent resolved, and the last link too when `follow`)
static int where(const char *p, char *o, int follow) {
  char t[PATH_MAX * 2], *r = malloc(PATH_MAX); snprintf(t, sizeof t, "%s", p); size_t l = strlen(t); int slash = 0; while (l > 1 && t[l - 1] == '/') t[--l] = 0, slash = 1;
  struct stat sx; if (slash && !lstat(t, &sx) && !realpath(p, r)) { free(r); return 0; }  // a slash after something that is not a directory: the call fails
  if ((follow || slash) && realpath(t, r)) { strcpy(o, r); free(r); return 1; }
  char *s = strrchr(t, '/'); const char *last = s ? s + 1 : t; char dir[PATH_MAX * 2]; if (!s) strcpy(dir, "."); else { *s = 0; strcpy(dir, t[0] ? t : "/"); }
  if (!realpath(dir, r)) { free(r); return 0; } snprintf(o, PATH_MAX, "%s/%s", r, last); char lk[PATH_MAX]; ssize_t n; if (follow && !slash && (n = readlink(o, lk, sizeof lk - 1)) > 0) { lk[n] = 0; free(r); return lk[0] == '/' ? where(lk, o, 0) : 0; } free(r); return 1;
}
static int allow(const char *what, const char *p, int follow) { if (!guard) return 1; char o[PATH_MAX]; int k = where(p, o, follow); const char *tmp = "/tmp/onion-"; if (!strncmp(p, tmp, strlen(tmp)) && !strchr(p + strlen(tmp), '/')) return 1; if (!k) return 1; if (inside(share, o)) return 1; snprintf(escaped, sizeof escaped, "%s(%s) acts on %s", what, p, o); return 0; }
int rename(const char *a, const char *b) { if (!allow("rename from", a, 0) || !allow("rename to", b, 0)) { errno = EACCES; return -1; } return syscall(SYS_rename, a, b); }
int remove(const char *a) { if (!allow("remove", a, 0)) { errno = EACCES; return -1; } int r = syscall(SYS_unlink, a); if (r < 0 && errno == EISDIR) r = syscall(SYS_rmdir, a); return r; }
int unlink(const char *a) { if (!allow("unlink", a, 0)) { errno = EACCES; return -1; } return syscall(SYS_unlink, a); }
int mkdir(const char *a, mode_t m) { if (!allow("mkdir", a, 0)) { errno = EACCES; return -1; } return syscall(SYS_mkdir, a, m); }
int chmod(const char *a, mode_t m) { if (!allow("chmod", a, 1)) { errno = EACCES; return -1; } return syscall(SYS_chmod, a, m); }
int open(const char *a, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (guard && !(fl & O_DIRECTORY) && strncmp(a, "/etc/", 5) && strncmp(a, "/usr/", 5) && !allow("open", a, 1)) { errno = EACCES; return -1; } return syscall(SYS_openat, AT_FDCWD, a, fl, m); }
DIR *opendir(const char *a) { if (!allow("opendir", a, 1)) { errno = EACCES; return NULL; } int fd = syscall(SYS_openat, AT_FDCWD, a, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0); return fd < 0 ? NULL : fdopendir(fd); }

static void put(const char *rel, const char *text) { char p[PATH_MAX]; snprintf(p, sizeof p, "%s/%s", S, rel); int fd = syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_TRUNC | O_WRONLY, 0644); CHECK(fd >= 0, "setup %s: %s", p, strerror(errno)); syscall(SYS_write, fd, text, strlen(text)); close(fd); }
static void dirn(const char *rel) { char p[PATH_MAX]; snprintf(p, sizeof p, "%s/%s", S, rel); syscall(SYS_mkdir, p, 0755); }
static void lnk(const char *to, const char *rel) { char p[PATH_MAX]; snprintf(p, sizeof p, "%s/%s", S, rel); symlink(to, p); }
static void wipe(const char *p) { struct stat st; if (lstat(p, &st)) return; CHECK(inside(S, p), "wipe"); if (S_ISDIR(st.st_mode)) { int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0); DIR *d = fdopendir(fd); struct dirent *e; while ((e = readdir(d))) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { char q[PATH_MAX]; snprintf(q, sizeof q, "%s/%s", p, e->d_name); wipe(q); } closedir(d); syscall(SYS_rmdir, p); } else syscall(SYS_unlink, p); }
static void world(void) { guard = 0; char p[PATH_MAX]; const char *top[] = { "srv", "srv-private", "srvx", "out", "s", "srv.old", "srv0" }; for (int i = 0; i < 7; i++) { snprintf(p, sizeof p, "%s/%s", S, top[i]); wipe(p); dirn(top[i]); }
  put("srv/a.txt", "A-public"); put("srv/b.txt", "B-public"); dirn("srv/sub"); put("srv/sub/c.txt", "C-public"); dirn("srv/sub/deep"); put("srv/sub/deep/d.txt", "D-public"); dirn("srv/empty"); put("srv-private/secret.txt", "SECRET1"); put("srvx/secret.txt", "SECRET2"); put("srv.old/secret.txt", "SECRET6"); put("srv0/secret.txt", "SECRET7"); put("out/secret.txt", "SECRET3"); dirn("out/dir"); put("out/dir/secret.txt", "SECRET4"); put("s/secret.txt", "SECRET5");
  snprintf(p, sizeof p, "%s/out/dir", S); lnk(p, "srv/ldir"); lnk("../srv-private", "srv/lpriv"); snprintf(p, sizeof p, "%s/out/secret.txt", S); lnk(p, "srv/lsecret"); lnk("../srvx/secret.txt", "srv/sub/lx"); lnk("../srv.old/secret.txt", "srv/sub/lo"); lnk("../srv0/secret.txt", "srv/sub/l0"); lnk("sub", "srv/lsub"); lnk("a.txt", "srv/la"); snprintf(p, sizeof p, "%s/out/nothing-yet", S); lnk(p, "srv/dangling"); lnk("..", "srv/lup"); }
// everything outside the share, and inside it, as text
static void tree(buf *o, const char *p, const char *rel, int skip) { int fd = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0); if (fd < 0) return; struct dirent **l; close(fd); int g = guard; guard = 0; int n = scandir(p, &l, NULL, alphasort); guard = g; for (int i = 0; i < n; i++) { const char *d = l[i]->d_name; if (strcmp(d, ".") && strcmp(d, "..") && !(skip && !strcmp(d, "srv")) && strncmp(d, "tmpz", 4)) { char q[PATH_MAX], r[PATH_MAX]; snprintf(q, sizeof q, "%s/%s", p, d); snprintf(r, sizeof r, "%s/%s", rel, d); struct stat st; lstat(q, &st); if (S_ISDIR(st.st_mode)) { b_fmt(o, "%s/\n", r); tree(o, q, r, 0); } else if (S_ISLNK(st.st_mode)) b_fmt(o, "%s@\n", r); else { char t[300]; int f = syscall(SYS_openat, AT_FDCWD, q, O_RDONLY, 0); ssize_t k = syscall(SYS_read, f, t, 299); close(f); if (k < 0) k = 0; t[k] = 0; b_fmt(o, "%s%s=%s\n", r, st.st_mode & 0111 ? "*" : "", t); } } free(l[i]); } if (n >= 0) free(l); }
static void snap(buf *o, int outside) { o->n = 0; b_str(o, ""); if (outside) tree(o, S, "", 1); else tree(o, share, "", 0); }
static const char *names[] = { "a.txt", "b.txt", "sub", "sub/c.txt", "sub/deep/d.txt", "new.txt", "sub/new", "..", "../out", "secret.txt", "ldir", "lpriv", "lsecret", "lsub", "la", "lo", "l0", "dangling", "lup", "srv-private", "../srv-private", "../srvx/secret.txt", "../srv.old/secret.txt", "../srv0/secret.txt", ".old/secret.txt", "-private/secret.txt", "x/secret.txt", ".", "", "/", "deep", "empty", "nosuch/..", "nosuch", "c.txt", "d.txt", "out", "srv", "s" };
static void rpath(char *o) { o[0] = 0; int k = 1 + vf_rnd(4); for (int i = 0; i < k; i++) { strcat(o, names[vf_rnd(sizeof names / sizeof *names)]); if (i + 1 < k || vf_rnd(6) == 0) strcat(o, vf_rnd(8) ? "/" : "//"); } }
static void enc(buf *o, const char *p) { for (; *p; p++) { int c = (unsigned char)*p; if (c <= ' ' || c == '%' || c == '?' || c == '#' || c == '+' || c > 126 || vf_rnd(12) == 0) b_fmt(o, vf_rnd(2) ? "%%%02X" : "%%%02x", c); else b_ch(o, c); } }
// the oracle: where this path leads, or nothing. 2: exists, 1: its directory exists
static int lead(const char *p, char *o) { char full[PATH_MAX * 3]; snprintf(full, sizeof full, "%s/%s", share, p); char *r = malloc(PATH_MAX); int k = 0; if (realpath(full, r)) { strcpy(o, r); k = 2; } free(r); return k; }
static char *readall(const char *p, size_t *n) { static char t[4][70000]; static int z; char *o = t[z = (z + 1) & 3]; int f = syscall(SYS_openat, AT_FDCWD, p, O_RDONLY, 0); ssize_t k = f < 0 ? -1 : syscall(SYS_read, f, o, 69999); if (f >= 0) close(f); if (k < 0) return NULL; o[k] = 0; *n = k; return o; }
static int code; static char *body; static size_t bodyn;
static int ask(onion_handler *h, const char *method, const char *prefix, const char *path, const char *extra, const char *data, int raw) {
  buf rq = { 0 }; b_fmt(&rq, "%s ", method); b_str(&rq, prefix); if (raw) b_str(&rq, path); else enc(&rq, path); b_str(&rq, " HTTP/1.1\r\n"); if (extra) b_str(&rq, extra); if (data) b_fmt(&rq, "Content-Length: %zu\r\n", strlen(data)); b_str(&rq, "\r\n"); if (data) b_str(&rq, data);
  onion_request *r = vr_new(); int s = vr_feed(r, rq.d, rq.n, 0, 0); free(rq.d); if (s != OCS_REQUEST_READY) { onion_request_free(r); return -1000; } onion_request_polish(r); vr_out.n = 0; b_str(&vr_out, ""); onion_response *res = onion_response_new(r); guard = 1; escaped[0] = 0; code = 0; body = NULL; int low = vr_lowfd();
  int st = onion_handler_handle(h, r, res); guard = 0; CHECK(!escaped[0], "%s", escaped); CHECK(low == vr_lowfd(), "a descriptor stays open"); if (st == OCS_PROCESSED) { onion_response_free(res); char *e = strstr((char *)vr_out.d, "\r\n\r\n"); CHECK(e, "no answer"); code = atoi((char *)vr_out.d + 9); body = e + 4; bodyn = vr_out.n - (body - (char *)vr_out.d); } else { onion_dict_free(res->headers); onion_low_free(res); } onion_request_free(r); vr_files_gone("the request"); return st;
}
#define OUT(w) CHECK(!strstr((char *)vr_out.d, "SECRET"), "%s gives out a file outside the exported directory", w)
int main(void) {
  vr_setup(); xmlSetGenericErrorFunc(NULL, xmlquiet); const char *d = getenv("VF_DIR"); if (!d) d = "."; char *rp = realpath(d, NULL); snprintf(S, sizeof S, "%s/w", rp); free(rp); syscall(SYS_mkdir, S, 0755); snprintf(share, sizeof share, "%s/srv", S); world(); buf out0 = { 0 }, out1 = { 0 }, in0 = { 0 }, in1 = { 0 };
  char viaLink[PATH_MAX]; snprintf(viaLink, sizeof viaLink, "%s/slink", S); syscall(SYS_unlink, viaLink); symlink("srv", viaLink);
  snap(&out0, 1);
  while (vf_time()) {
    // ---- export
    { char arg[PATH_MAX]; int how = vf_rnd(4), isfile = vf_rnd(8) == 0; snprintf(arg, sizeof arg, how == 0 ? "%s/" : how == 1 ? "%s/sub/.." : "%s", how == 2 ? viaLink : share); if (isfile) snprintf(arg, sizeof arg, "%s/a.txt", share); onion_handler *h = onion_handler_export_local_new(arg); CHECK(h, "export"); onion_handler *root = h; const char *prefix = "/"; onion_url *u = NULL; if (vf_rnd(3) == 0) { u = onion_url_new(); onion_url_add_handler(u, "^files/", h); root = onion_url_to_handler(u); prefix = "/files/"; }
      for (int i = 0; i < 12; i++) { char p[9000], o[PATH_MAX]; rpath(p); if (vf_rnd(40) == 0) { char t[9000]; strcpy(t, "a.txt"); while (strlen(t) < 3000 + vf_rnd(1200)) { char q[9000]; snprintf(q, sizeof q, "./%s", t); strcpy(t, q); } if (vf_rnd(2)) { size_t have = strlen(share) + 1; t[0] = 0; while (strlen(t) + have + 5 < PATH_MAX - 1) strcat(t, (PATH_MAX - 1 - strlen(t) - have - 5) % 2 ? "/" : "./"); strcat(t, "a.txt"); if (vf_rnd(2)) strcat(t, "garbage"); } strcpy(p, t); }
        vf_case("export of %s (%s), path %.600s%s", arg, prefix, p, strlen(p) > 600 ? "..." : ""); int st = ask(root, "GET", prefix, p, NULL, NULL, 0); OUT("the export"); if (st == -1000) continue; VF_NT();
        if (isfile) { CHECK(st == OCS_PROCESSED && code == 200 && bodyn == 8 && !strcmp(body, "A-public"), "exported file: %d %d", st, code); continue; }
        int k = lead(p, o); struct stat sb; int in = k == 2 && inside(share, o) && strlen(share) + 1 + strlen(p) < PATH_MAX; if (in && !stat(o, &sb) && S_ISREG(sb.st_mode)) { size_t n; char *t = readall(o, &n); CHECK(st == OCS_PROCESSED && code == 200 && bodyn == n && !memcmp(t, body, n), "file %s inside is not served (%d, %d)", o, st, code); }
        else if (in && S_ISDIR(sb.st_mode)) { CHECK(st == OCS_PROCESSED && code == 200, "directory %s inside is not listed (%d)", o, st); int g = guard; struct dirent **l; int n = scandir(o, &l, NULL, NULL); for (int q = 0; q < n; q++) { char want[400]; struct stat x; char f[PATH_MAX]; snprintf(f, sizeof f, "%s/%s", o, l[q]->d_name); if (l[q]->d_name[0] != '.' && !stat(f, &x)) { snprintf(want, sizeof want, "['%s%s',%ld,", l[q]->d_name, S_ISDIR(x.st_mode) ? "/" : "", (long)x.st_size); CHECK(strstr(body, want), "%s is not listed", want); } else { snprintf(want, sizeof want, "['%s',", l[q]->d_name); CHECK(!strstr(body, want), "%s is listed, nothing is known about it", want); snprintf(want, sizeof want, "['%s/',", l[q]->d_name); CHECK(strcmp(l[q]->d_name, "..") || !strstr(body, want), "%s is listed, it is outside", want); } free(l[q]); } free(l); }
        else CHECK(st == OCS_NOT_PROCESSED, "path leading to %s gives %d %d", k ? o : "nothing", st, code); vf_sample(); }
      onion_handler_free(root); (void)u; }
    // ---- webdav
    { char arg[PATH_MAX]; int how = vf_rnd(3); snprintf(arg, sizeof arg, how == 0 ? "%s/" : "%s", how == 2 ? viaLink : share); onion_handler *h = onion_handler_webdav(arg, NULL), *root = h; const char *prefix = "/"; if (vf_rnd(3)) { onion_url *u = onion_url_new(); onion_url_add_handler(u, "^dav/", h); root = onion_url_to_handler(u); prefix = "/dav/"; }
      for (int i = 0; i < 10; i++) { char p[3000], o[PATH_MAX]; rpath(p); int longp = vf_rnd(20) == 0; if (longp) { size_t have = strlen(arg) + 1; p[0] = 0; while (strlen(p) + have + 5 < 511) strcat(p, (511 - strlen(p) - have - 5) % 2 ? "/" : "./"); strcat(p, "b.txt"); if (vf_rnd(2)) strcat(p, ".not-this"); else longp = 0; }
        static const char *M[] = { "GET", "PUT", "DELETE", "MOVE", "MKCOL", "PROPFIND", "PROPPATCH", "OPTIONS", "HEAD" }; int m = vf_rnd(9); snap(&in0, 0); int k = lead(p, o), in = k == 2 && inside(share, o); struct stat sb; int isdir = in && !stat(o, &sb) && S_ISDIR(sb.st_mode); char op[PATH_MAX]; char full[9000]; snprintf(full, sizeof full, "%s/%s", share, p); struct stat l0; int ex = !lstat(full, &l0); char host[4000] = ""; char dst[3000] = "", dpath[PATH_MAX] = ""; const char *data = NULL, *extra = NULL; char ex_[9000];
        if (m == 1) data = vf_rnd(5) ? "stored by put" : ""; if (m == 3) { rpath(dst); if (vf_rnd(3)) strcpy(dst, vf_rnd(2) ? "moved.txt" : "sub/moved.txt"); buf e = { 0 }; enc(&e, dst); snprintf(ex_, sizeof ex_, "Destination: http://localhost:8080%s%s\r\n", vf_rnd(12) ? prefix : vf_rnd(3) ? vf_rnd(2) && prefix[1] ? "/davx" : "/" : "/other/", e.d ? (char *)e.d : ""); free(e.d); extra = vf_rnd(20) ? ex_ : NULL; }
        int body_kind = 0; if (m == 5) { extra = vf_rnd(10) ? vf_rnd(2) ? "Depth: 0\r\n" : "Depth: 1\r\n" : NULL; static const char *x[] = { "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\"><D:prop><D:getcontentlength/><D:resourcetype/><D:getetag/><D:getlastmodified/></D:prop></D:propfind>", "", "<not closed", "<a/>", NULL }; body_kind = vf_rnd(5); if (vf_rnd(2)) body_kind = 0; data = x[body_kind]; }
        if (m == 6) { static const char *x[] = { "<D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><D:executable>T</D:executable></D:prop></D:set></D:propertyupdate>", "<D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><D:executable>F</D:executable></D:prop></D:set></D:propertyupdate>", "<D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><D:executable/></D:prop></D:set></D:propertyupdate>", "<propertyupdate><set><prop><executable><b/></executable></prop></set></propertyupdate>", "<oops", NULL }; data = x[body_kind = vf_rnd(6)]; }
        char ex2[9500]; static const char *other[] = { "Destination: http://localhost:8080/dav/moved.txt\r\n", "Destination: http://localhost:8080/moved.txt\r\n", "Overwrite: F\r\n", "Depth: 1\r\n", "Depth: infinity\r\n", "If: (<x>)\r\n", "X-HTTP-Method-Override: DELETE\r\n", "Authorization: Basic eDp5\r\n", "Content-Location: b.txt\r\n", "Translate: f\r\n" }; if (vf_rnd(3) == 0) { int q = vf_rnd(10); if ((m != 3 || (q > 1 && extra)) && (m != 5 || (extra && (q < 3 || q > 4)))) { snprintf(ex2, sizeof ex2, "%s%s", extra ? extra : "", other[q]); extra = ex2; } }
        char wd[PATH_MAX] = ""; if (m == 3) { char df[9000]; snprintf(df, sizeof df, "%s/%s", share, dst); if (!where(df, wd, 0)) wd[0] = 0; }
        vf_case("webdav of %s: %s %s%.300s%s", arg, M[m], prefix, p, extra ? extra : ""); int st = ask(root, M[m], prefix, p, extra, data, 0); OUT("webdav"); snap(&out1, 1); CHECK(!strcmp((char *)out0.d, (char *)out1.d), "%s changes files outside the share:\nbefore\n%s\nafter\n%s", M[m], out0.d, out1.d); if (st == -1000) continue; VF_NT(); snap(&in1, 0); int same = !strcmp((char *)in0.d, (char *)in1.d); size_t n; char *t;
        int dd = !!strstr(full, "/../"); if (longp) { CHECK(same && code != 200 && code != 201, "a path too long acts on the file of its beginning"); continue; }
        if (m == 0 && in && !isdir && !dd) { t = readall(o, &n); CHECK(st == OCS_PROCESSED && code == 200 && bodyn == n && !memcmp(t, body, n), "GET of %s gives %d %d", o, st, code); }
        if (m == 0 && !in) CHECK(code != 200, "GET of nothing gives 200");
        if (m == 8 || m == 0 || m == 5 || m == 7) CHECK(same, "%s changes the share", M[m]);
        if (m == 1) { char *v; if (code == 201) { CHECK(where(full, op, 0) && inside(share, op) && (v = readall(op, &n)) && !strcmp(v, data), "PUT done but %s holds something else", full); } else CHECK(same, "refused PUT changes the share"); if (!dd && !isdir && p[0] && p[strlen(p) - 1] != '/' && where(full, op, 0) && inside(share, op) && (in || (!ex && !k))) { char *ls = strrchr(op, '/'); char par[PATH_MAX]; struct stat ps; snprintf(par, sizeof par, "%.*s", (int)(ls - op), op); if (strcmp(ls, "/..") && strcmp(ls, "/.") && !stat(par, &ps) && S_ISDIR(ps.st_mode)) CHECK(code == 201, "PUT of %s gives %d", full, code); } }
        if (m == 2) { if (code == 200) { CHECK(lstat(full, &l0), "DELETE done but %s is there", full); CHECK(!same, "nothing deleted"); } else CHECK(same, "failed DELETE changes the share"); if (in && !isdir && !dd && p[strlen(p) - 1] != '/') CHECK(code == 200, "DELETE of %s gives %d", o, code); }
        if (m == 3) { if (code == 201) { CHECK(wd[0] && !lstat(wd, &l0), "MOVE done but there is no %s", dst); } else CHECK(same, "failed MOVE changes the share"); if (in && !isdir && !dd && extra && !strncmp(p, "a.txt", 6) && strstr(ex_, "moved.txt") && strstr(extra, prefix) == extra + 34 && strlen(prefix) > 1) { CHECK(code == 201, "MOVE of a.txt to %s gives %d %d", dst, st, code); CHECK(lstat(full, &l0), "MOVE leaves the original"); char df[9000]; snprintf(df, sizeof df, "%s/%s", share, dst); char *v = readall(df, &n); CHECK(v && !strcmp(v, "A-public"), "MOVE loses the content"); } }
        if (m == 4) { if (code == 201) CHECK(!ex && !stat(full, &sb) && S_ISDIR(sb.st_mode), "MKCOL done but no directory"); else CHECK(same, "failed MKCOL changes the share"); }
        if (m == 5 && in && !dd && extra && (data == NULL || body_kind == 0)) { CHECK(st == OCS_PROCESSED && code == 207, "PROPFIND of %s gives %d %d", o, st, code); char *c = strstr(body, "<D:href>"); char hr[PATH_MAX], nz[9000]; CHECK(c && sscanf(c + 8, "%4000[^<]", hr) == 1, "no href"); { char *q = nz, w[9000]; snprintf(w, sizeof w, "%s%s", prefix, p); char *x = w; while (*x) { *q++ = *x; if (*x == '/') while (x[1] == '/') x++; x++; } *q = 0; char h2[9000]; q = h2; x = hr; while (*x) { *q++ = *x; if (*x == '/') while (x[1] == '/') x++; x++; } *q = 0; size_t a = strlen(nz), b = strlen(h2); while (a > 1 && nz[a - 1] == '/') nz[--a] = 0; while (b > 1 && h2[b - 1] == '/') h2[--b] = 0; CHECK(!strcmp(nz, h2), "href %s, want %s", h2, nz); } if (!isdir && body_kind == 0 && data) { char w[100]; sprintf(w, "getcontentlength>%ld<", (long)sb.st_size); CHECK(strstr(body, w), "no %s", w); } }
        if (m == 6) { if (body_kind >= 2) CHECK(same, "PROPPATCH without value changes the share"); else if (in && !isdir && !dd) { stat(o, &sb); CHECK(!!(sb.st_mode & 0111) == !body_kind, "executable is %o", sb.st_mode); } }
        if (!same || vf_rnd(50) == 0) { world(); } }
      onion_handler_free(root); }
  }
  vf_done();
}
