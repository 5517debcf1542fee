// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#define write vf_unused_write
#include "vf.h"
#undef write
#include <errno.h>
#include <fcntl.h>
#include <sys/sendfile.h>
static int shortio, failio = -1, shrink = -1, exdev; // faults: short reads/writes/sendfiles, the n-th write fails, reads end early, rename crosses file systems
#include "vfreq.h"
#include "shortcuts.h"
#include "mime.h"
extern int onion_use_sendfile; ssize_t onion_http_write(onion_request *req, const char *data, size_t len);
static int faulty_fd(int fd) { return fd > 2 && (shortio || shrink >= 0); }
ssize_t read(int fd, void *p, size_t n) { if (faulty_fd(fd)) { if (shrink == 0) return 0; if (shrink > 0) shrink--; if (shortio && n > 1 && vf_rnd(3) == 0) n = 1 + vf_rnd(n - 1); } return syscall(SYS_read, fd, p, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (shrink == 0) return 0; if (shrink > 0) shrink--; if (failio == 0) { errno = EPIPE; return -1; } if (failio > 0) failio--; if (shortio && n > 1 && vf_rnd(2)) n = 1 + vf_rnd(n - 1); return syscall(SYS_sendfile, o, i, off, n); }
int rename(const char *a, const char *b) { if (exdev) { errno = EXDEV; return -1; } return syscall(SYS_rename, a, b); }
static ssize_t w_write(onion_request *r, const char *d, size_t n) { if (failio == 0) return vf_rnd(2) ? -1 : 0; if (failio > 0) failio--; if (shortio && n > 1 && vf_rnd(2)) n = 1 + vf_rnd(n - 1); b_add(&vr_out, d, n); return n; }
static unsigned char content[200000]; static char fname[64]; static int outfd;
static int sizes[] = { 0, 1, 2, 10, 100, 1023, 1500, 4045, 4046, 4047, 8091, 8092, 8093, 16383, 16384, 16385, 40000, 65536, 150000 };
static const char *hdr(const char *h, const char *n, char *o) { char k[100]; snprintf(k, 100, "\r\n%s: ", n); char *p = strcasestr(h, k), *e = strstr(h, "\r\n\r\n"); if (!p || p > e) return NULL; p += strlen(k); int i = 0; while (*p != '\r' && i < 1999) o[i++] = *p++; o[i] = 0; return o; }
typedef struct { int st, code, body, keep; long cl; char range[200], etag[2000]; unsigned char *b; size_t n; } ans;
static ans get(const char *method, const char *path, const char *range, const char *inm, int http11, int http) {
  ans a = { 0 }; buf rq = { 0 }; b_fmt(&rq, "%s /x HTTP/1.%d\r\nX-A: 1\r\n", method, http11); vr_more(&rq); if (range) { b_str(&rq, "Range: "); b_str(&rq, range); b_str(&rq, "\r\n"); } if (inm) { b_str(&rq, "If-None-Match: "); b_str(&rq, inm); b_str(&rq, "\r\n"); } if (!strcmp(method, "POST")) b_str(&rq, "Content-Length: 0\r\n"); b_str(&rq, "\r\n");
  onion_request *r = vr_new(); int s = vr_feed(r, rq.d, rq.n, 0, 0); CHECK(s == OCS_REQUEST_READY, "request gives %d", s); free(rq.d); vr_out.n = 0; b_str(&vr_out, "");
  vr_lp.write = http ? (void *)onion_http_write : (void *)w_write; if (http) { r->connection.fd = outfd; ftruncate(outfd, 0); lseek(outfd, 0, SEEK_SET); }
  onion_response *res = onion_response_new(r); int low = vr_lowfd(); a.st = onion_shortcut_response_file(path, r, res); CHECK(low == vr_lowfd(), "a descriptor stays open");
  if (a.st == OCS_NOT_PROCESSED || a.st == OCS_INTERNAL_ERROR) { CHECK(!vr_out.n, "answered, too"); onion_dict_free(res->headers); onion_low_free(res); r->connection.fd = -1; onion_request_free(r); return a; }
  a.keep = onion_response_free(res) == OCS_KEEP_ALIVE; r->connection.fd = -1; onion_request_free(r);
  if (http) { long n = lseek(outfd, 0, SEEK_CUR); int so = shortio, sh = shrink; shortio = 0; shrink = -1; char *t = malloc(n + 1); lseek(outfd, 0, SEEK_SET); CHECK(read(outfd, t, n) == n, "out"); b_add(&vr_out, t, n); free(t); shortio = so; shrink = sh; }
  char *h = (char *)vr_out.d, *e = strstr(h, "\r\n\r\n"); if (!e) { a.code = -1; return a; } a.code = atoi(h + 9); char t[2000]; a.cl = hdr(h, "content-length", t) ? atol(t) : -1; if (hdr(h, "content-range", t)) snprintf(a.range, 200, "%s", t); if (hdr(h, "etag", t)) strcpy(a.etag, t); a.b = (void *)(e + 4); a.n = vr_out.n - (e + 4 - h);
  if (a.code == 416) { char *c = strcasestr(h, "transfer-encoding: chunked"); if (c && c < e && strcmp(method, "HEAD")) { CHECK(a.n == 5 && !memcmp(a.b, "0\r\n\r\n", 5), "416 has a body"); a.n = 0; } }
  return a;
}
static void setfile(size_t n, time_t when) { int so = vr_shortw; vr_shortw = 0; int fd = open(fname, O_CREAT | O_TRUNC | O_WRONLY, 0644); CHECK(fd >= 0 && write(fd, content, n) == (ssize_t)n, "file"); close(fd); struct timeval tv[2] = { { when, 0 }, { when, 0 } }; utimes(fname, tv); vr_shortw = so; }
static void serve(void) {
  size_t n = vf_rnd(3) ? sizes[vf_rnd(sizeof sizes / sizeof *sizes)] : vf_rnd(20000); time_t when = 1000000000 + vf_rnd(1000000); setfile(n, when); onion_use_sendfile = vf_rnd(4) != 0;
  for (int it = 0; it < 8; it++) {
    int http = vf_rnd(2), m = vf_rnd(8), http11 = vf_rnd(3) != 0; const char *method = m == 0 ? "HEAD" : m == 1 ? "OPTIONS" : m == 2 ? "POST" : "GET"; shortio = vf_rnd(3) == 0; failio = shrink = -1; char range[3000] = ""; int kind = vf_rnd(9), full = 1, maybe = 0, anyr = 0; size_t s = 0, e = n;
    if (kind == 1) { size_t a = vf_rnd(2) ? vf_rnd(n + 3) : vf_rnd(20), b = vf_rnd(2) ? a + vf_rnd(n + 3) : vf_rnd(n + 3); sprintf(range, "bytes=%zu-%zu", a, b); full = 0; if (a > b) maybe = 1; s = a; e = b + 1 < n ? b + 1 : n; }
    else if (kind == 2) { size_t a = vf_rnd(n + 3); sprintf(range, "bytes=%zu-", a); full = 0; s = a; } else if (kind == 3) { size_t a = vf_rnd(2) ? vf_rnd(n + 3) : vf_rnd(10); sprintf(range, "bytes=-%zu", a); full = 0; s = a < n ? n - a : 0; if (!a) s = n; }
    else if (kind == 4) { static const char *odd[] = { "bytes=", "bytes=5", "items=0-3", "bytes", "none" }; strcpy(range, odd[vf_rnd(5)]); }
    else if (kind == 5) { static const char *odd[] = { "bytes=0-0,2-3", "bytes=a-b", "bytes=--5", "bytes=-", "bytes=5--1", "bytes= 1-2", "bytes=99999999999999999999-", "bytes=0-99999999999999999999", "bytes=18446744073709551615-2", "bytes=-18446744073709551615" }; strcpy(range, odd[vf_rnd(10)]); anyr = 1; }
    else if (kind == 6) { size_t k = vf_rnd(3) ? 1000 + vf_rnd(60) : vf_rnd(2500); strcpy(range, vf_rnd(2) ? "bytes=" : "x"); size_t l = strlen(range); for (size_t i = 0; i < k; i++) range[l + i] = "0123456789-"[vf_rnd(vf_rnd(10) ? 10 : 11)]; range[l + k] = 0; anyr = 1; }
    vf_case("%s of %zu bytes, range %.300s, HTTP/1.%d, sendfile %d/%d, short %d", method, n, range, http11, onion_use_sendfile, http, shortio); VF_NT(); vr_shortw = shortio;
    ans a = get(method, fname, range[0] ? range : NULL, NULL, http11, http); vr_shortw = 0; shortio = 0; int head = m == 0;
    if (a.st == OCS_INTERNAL_ERROR) { CHECK(strlen(range) >= 1024, "refused"); continue; } CHECK(a.st == OCS_PROCESSED && a.code > 0, "status %d, code %d", a.st, a.code);
    if (anyr || maybe) { // malformed or many ranges: whatever is announced has to be what is sent
      if (a.code == 206) { unsigned long x, y, z; CHECK(sscanf(a.range, "bytes %lu-%lu/%lu", &x, &y, &z) == 3 && x <= y && y < n && z == n, "content range %s", a.range); s = x; e = y + 1; full = 0; } else if (a.code == 416) { full = 0; s = n; } else full = 1; CHECK(full || !maybe || a.code == 416, "backward range gives %d", a.code); if (full) { s = 0; e = n; } }
    if (full) { CHECK(a.code == 200, "code %d", a.code); CHECK(!a.range[0], "content range %s", a.range); s = 0; e = n; }
    else if (s >= n || s >= e) { CHECK(a.code == 416, "range outside: code %d", a.code); CHECK(a.n == 0, "416 with %zu bytes", a.n); char w[100]; sprintf(w, "bytes */%zu", n); CHECK(!strcmp(a.range, w), "content range %s, want %s", a.range, w); continue; }
    else { char w[100]; CHECK(a.code == 206, "code %d", a.code); sprintf(w, "bytes %zu-%zu/%zu", s, e - 1, n); CHECK(!strcmp(a.range, w), "content range %s, want %s", a.range, w); }
    CHECK(a.cl == (long)(e - s), "announces %ld bytes, want %zu", a.cl, e - s); if (head) CHECK(a.n == 0, "HEAD with %zu bytes", a.n); else CHECK(a.n == e - s && !memcmp(a.b, content + s, e - s), "%zu bytes, want %zu, or different", a.n, e - s); CHECK(a.keep == http11, "keep alive %d", a.keep); CHECK(a.etag[0], "no etag"); vf_sample();
    // validators
    ans b = get(method, fname, range[0] ? range : NULL, a.etag, http11, http); vf_more(" not modified"); CHECK(b.code == 304 && b.n == 0, "code %d, %zu bytes for the current etag", b.code, b.n); CHECK(!strcmp(a.etag, b.etag), "etag");
    char other[2100]; strcpy(other, a.etag); int ch = vf_rnd(5); if (ch == 0) strcat(other, "0"); else if (ch == 3) other[vf_rnd(strlen(other))] = 0; else if (ch == 4) memmove(other, other + 1, strlen(other)); else if (ch == 1) other[vf_rnd(4)]++; else other[strlen(other) - 1] ^= 1; vf_more(", other etag"); ans c = get(method, fname, range[0] ? range : NULL, other, http11, http); CHECK(c.code == a.code && c.cl == a.cl, "code %d for another etag", c.code);
    vf_more(", changed"); setfile(n, when + 1 + it); c = get(method, fname, range[0] ? range : NULL, a.etag, http11, http); CHECK(c.code == a.code, "code %d for the etag of the previous version", c.code); setfile(n, when);
    // the connection or the file fails midway: it ends, without keeping the connection on a short body
    if (!head && e - s > 1) { int w = vf_rnd(2); if (w) failio = 1 + vf_rnd(5); else shrink = vf_rnd(4); vf_more(", fault %d %d", failio, shrink); ans d = get(method, fname, range[0] ? range : NULL, NULL, http11, http); if (d.code > 0 && d.n < e - s) CHECK(!d.keep, "connection kept after %zu of %zu bytes", d.n, e - s); if (d.code > 0) CHECK(d.n <= e - s && !memcmp(d.b, content + s, d.n), "wrong bytes before a fault"); failio = shrink = -1; }
  }
  ans a = get("GET", "nosuchfile", NULL, NULL, 1, 0); CHECK(a.st == OCS_NOT_PROCESSED, "missing file: %d", a.st); a = get("GET", ".", "bytes=0-1", NULL, 1, 0); CHECK(a.st == OCS_NOT_PROCESSED, "directory: %d", a.st); unlink(fname);
}
static void big(void) { // a sparse file over 4 GB, from its end
  int fd = open(fname, O_CREAT | O_TRUNC | O_WRONLY, 0644); long n = (5L << 30) + 17; ftruncate(fd, n); pwrite(fd, content, 100, n - 100); close(fd); int http = vf_rnd(2); vf_case("sparse file of %ld bytes", n); char rg[100], w[100]; sprintf(rg, "bytes=%ld-%ld", n - 60, n - 20); ans a = get("GET", fname, rg, NULL, 1, http); sprintf(w, "bytes %ld-%ld/%ld", n - 60, n - 20, n); CHECK(a.code == 206 && !strcmp(a.range, w), "content range %s, want %s", a.range, w); CHECK(a.n == 41 && !memcmp(a.b, content + 40, 41), "bytes"); a = get("HEAD", fname, NULL, NULL, 1, http); CHECK(a.cl == n, "length %ld", a.cl); unlink(fname);
}
static void move(void) {
  size_t n = vf_rnd(2) ? sizes[vf_rnd(15)] : vf_rnd(20000); setfile(n, 1000000000); int have = vf_rnd(2), bad = vf_rnd(6) == 0; char to[80]; sprintf(to, "%s%s", bad ? "nodir/" : "", "moved"); if (have) { int fd = open("moved", O_CREAT | O_TRUNC | O_WRONLY, 0644); write(fd, content + 7, 50000); close(fd); } exdev = vf_rnd(3) != 0; shortio = vr_shortw = vf_rnd(2); shrink = -1; vf_case("move %zu bytes to %s, over a file %d, other file system %d, short %d", n, to, have, exdev, shortio); VF_NT(); int low = vr_lowfd(); int r = onion_shortcut_rename(fname, to); shortio = vr_shortw = 0; exdev = 0; CHECK(low == vr_lowfd(), "a descriptor stays open");
  static unsigned char t[200000]; if (r == 0) { CHECK(!bad, "moved nowhere"); CHECK(access(fname, F_OK), "moved and still there"); int fd = open(to, O_RDONLY); ssize_t k = fd < 0 ? -1 : read(fd, t, sizeof t); close(fd); CHECK(k == (ssize_t)n && !memcmp(t, content, n), "%zd bytes after the move, want %zu", k, n); } else { CHECK(bad, "move fails"); int fd = open(fname, O_RDONLY); ssize_t k = fd < 0 ? -1 : read(fd, t, sizeof t); close(fd); CHECK(k == (ssize_t)n && !memcmp(t, content, n), "a failed move lost the file"); }
  unlink("moved"); unlink(fname);
}
static void full_disk(void) { // writing to the destination fails
  size_t n = 1 + vf_rnd(20000); setfile(n, 1000000000); if (access("/dev/full", W_OK)) return; unlink("full"); symlink("/dev/full", "full"); exdev = 1; vf_case("move %zu bytes to a full file system", n); int r = onion_shortcut_rename(fname, "full"); exdev = 0; static unsigned char t[200000]; CHECK(r != 0, "a failed copy is reported as done"); int fd = open(fname, O_RDONLY); ssize_t k = fd < 0 ? -1 : read(fd, t, sizeof t); close(fd); CHECK(k == (ssize_t)n && !memcmp(t, content, n), "a failed move lost the file"); unlink("full"); unlink(fname); }
static void dates(void) {
  time_t t = vf_rnd(3) ? vf_rnd(2000000000) : vf_rnd(40); vf_case("date %ld", (long)t); long d = t / 86400, s = t % 86400; int wd = (d + 4) % 7; int y = 1970; for (;;) { int l = (y % 4 == 0 && y % 100) || y % 400 == 0 ? 366 : 365; if (d < l) break; d -= l; y++; } static const int md[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; int mo = 0; for (;; mo++) { int l = md[mo] + (mo == 1 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); if (d < l) break; d -= l; }
  char w[64], *g = malloc(32), *g2 = malloc(21); memset(g, 'x', 32); memset(g2, 'x', 21); sprintf(w, "%.3s, %02ld %.3s %d %02ld:%02ld:%02ld GMT", "SunMonTueWedThuFriSat" + 3 * wd, d + 1, "JanFebMarAprMayJunJulAugSepOctNovDec" + 3 * mo, y, s / 3600, s / 60 % 60, s % 60); onion_shortcut_date_string(t, g); CHECK(!memcmp(g, w, strlen(w) + 1), "date %.31s, want %s", g, w); sprintf(w, "%d-%02d-%02ldT%02ld:%02ld:%02ldZ", y, mo + 1, d + 1, s / 3600, s / 60 % 60, s % 60); onion_shortcut_date_string_iso(t, g2); CHECK(!memcmp(g2, w, strlen(w) + 1), "date %.20s, want %s", g2, w); free(g); free(g2);
}
static void quick(void) { // the other shortcuts
  onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.1\r\n\r\n", 18, 0, 0); vr_lp.write = (void *)w_write; failio = -1; vr_out.n = 0; b_str(&vr_out, ""); onion_response *res = onion_response_new(r); char t[6000]; size_t n = vf_rnd(4) ? vf_rnd(200) : vf_rnd(5900); for (size_t i = 0; i < n; i++) t[i] = 1 + vf_rnd(255); t[n] = 0; int k = vf_rnd(3), code = 200 + vf_rnd(300); char o[2000]; vf_case("shortcut %d of %zu bytes", k, n); const char *want = t; size_t wn = n; char js[100];
  if (k == 0) onion_shortcut_response_extra_headers(t, code, r, res, "X-One", "1", "X-Two", "2", NULL); else if (k == 1) { code = 302; want = NULL; onion_shortcut_redirect("/else", r, res); } else { code = 200; onion_dict *d = onion_dict_new(); sprintf(js, "v%d", vf_rnd(1000)); onion_dict_add(d, "k", js, OD_DUP_ALL); char x[50]; strcpy(x, js); sprintf(js, "{\"k\":\"%s\"}", x); want = js; wn = strlen(js); onion_shortcut_response_json(d, r, res); }
  onion_response_free(res); char *h = (char *)vr_out.d, *e = strstr(h, "\r\n\r\n"); CHECK(e && atoi(h + 9) == code, "code"); CHECK(hdr(h, "content-length", o), "no length"); size_t cl = atol(o); CHECK(cl == vr_out.n - (e + 4 - h), "length %zu of %zu", cl, vr_out.n - (e + 4 - h)); if (want && k == 0) CHECK(cl == wn && !memcmp(e + 4, want, wn), "body differs"); if (k == 2) { char z[200]; int j = 0; for (char *c = e + 4; c < h + vr_out.n; c++) if (*c != ' ' && *c != '\n') z[j++] = *c; z[j] = 0; CHECK(!strcmp(z, js), "json %s, want %s", z, js); CHECK(hdr(h, "content-type", o) && !strcmp(o, "application/json"), "type"); } if (k == 0) CHECK(hdr(h, "x-one", o) && !strcmp(o, "1") && hdr(h, "x-two", o) && !strcmp(o, "2"), "headers"); if (k == 1) CHECK(hdr(h, "location", o) && !strcmp(o, "/else"), "location"); onion_request_free(r);
}
int main(void) {
  vr_setup(); for (size_t i = 0; i < sizeof content; i++) content[i] = vf_rnd(256); const char *d = getenv("VF_DIR"); if (d) CHECK(!chdir(d), "dir"); strcpy(fname, "file.html"); outfd = open("out.tmp", O_CREAT | O_TRUNC | O_RDWR, 0600); vfa_init(); quick(); setfile(10, 1); get("GET", fname, NULL, NULL, 1, 0); long base = vfa_live;
  for (int i = 0; vf_time(); i++) { serve(); for (int k = 0; k < 4; k++) { move(); dates(); quick(); } if (i % 50 == 0) { full_disk(); big(); } CHECK(vfa_live == base, "%ld blocks not freed", vfa_live - base); }
  vf_done();
}
