// a fake server around the real request parser: builds requests with known content, feeds them cut anywhere, compares
#include <errno.h>
#include "vf.h"
#include "vfalloc.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include "onion.h"
#include "dict.h"
#include "request.h"
#include "response.h"
#include "block.h"
#include "sessions.h"
#include "types_internal.h"
onion_connection_status onion_request_write(onion_request *req, const char *data, size_t size);
void onion_request_polish(onion_request *req);

typedef struct { unsigned char *d; size_t n, cap; } buf;
static void b_add(buf *b, const void *p, size_t n) { if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->d = realloc(b->d, b->cap); } memcpy(b->d + b->n, p, n); b->n += n; b->d[b->n] = 0; }
static void b_str(buf *b, const char *s) { b_add(b, s, strlen(s)); }
static void b_ch(buf *b, int c) { char x = c; b_add(b, &x, 1); }
static void b_fmt(buf *b, const char *f, ...) { char t[512]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); b_str(b, t); }

// a multiset of (key,value) with binary-safe value (files)
typedef struct { struct { char *k; unsigned char *v; size_t n; } e[512]; int n; } kv;
static void kv_add(kv *m, const char *k, const void *v, size_t n) { if (m->n >= 512) return; m->e[m->n].k = strdup(k); m->e[m->n].v = (void *)vf_str(v, n); m->e[m->n++].n = n; }
static void kv_free(kv *m) { for (int i = 0; i < m->n; i++) { free(m->e[i].k); free(m->e[i].v); } m->n = 0; }
static int kv_files;
static void kv_coll(void *d, const char *k, const void *v, int flags) {
  kv *m = d;
  if (kv_files) { // value names a file: its content counts
    int fd = open(v, O_RDONLY); if (fd < 0) { kv_add(m, k, "<missing file>", 14); return; }
    static unsigned char t[1 << 18]; ssize_t n = read(fd, t, sizeof t); close(fd); kv_add(m, k, t, n < 0 ? 0 : n);
  } else kv_add(m, k, v, strlen(v));
}
static void kv_get(kv *m, const onion_dict *d, int files) { m->n = 0; kv_files = files; if (d) onion_dict_preorder(d, kv_coll, m); }
static void kv_cmp(const char *what, kv *got, kv *want) {
  char hit[512] = { 0 };
  for (int i = 0; i < want->n; i++) { int f = -1;
    for (int j = 0; j < got->n && f < 0; j++) if (!hit[j] && !strcmp(got->e[j].k, want->e[i].k) && got->e[j].n == want->e[i].n && !memcmp(got->e[j].v, want->e[i].v, want->e[i].n)) f = j;
    if (f < 0) { for (int j = 0; j < got->n; j++) dprintf(1, "  %s[%s] = %zu bytes %s\n", what, got->e[j].k, got->e[j].n, vf_hex(got->e[j].v, got->e[j].n > 200 ? 200 : got->e[j].n));
      vf_fail("%s: entry \"%s\" (%zu bytes: %s) is missing or different", what, want->e[i].k, want->e[i].n, vf_hex(want->e[i].v, want->e[i].n > 300 ? 300 : want->e[i].n)); }
    hit[f] = 1; }
  for (int j = 0; j < got->n; j++) if (!hit[j]) vf_fail("%s: entry \"%s\" = %s was never sent", what, got->e[j].k, vf_hex(got->e[j].v, got->e[j].n > 300 ? 300 : got->e[j].n));
}

// ---- fake server
static onion vr_server; static onion_listen_point vr_lp; static buf vr_out; static int vr_closed;
static int vr_init_req(onion_request *r) { r->connection.fd = -1; return 0; }
static ssize_t vr_write(onion_request *r, const char *d, size_t n) { b_add(&vr_out, d, n); return n; }
static void vr_close(onion_request *r) { vr_closed++; }
// temporary files and their descriptors are accounted for
static struct { char name[64]; } vr_tmp[4096]; static int vr_ntmp; static int vr_shortw, vr_failw, vr_nomk, vr_mkfailed, vr_wshort, vr_wfailed; // faults: short or failing writes, no temporary files; and whether they happened
int mkstemp(char *t) { if (vr_nomk && vf_rnd(2)) { vr_mkfailed = 1; errno = EMFILE; return -1; } int fd = mkostemp(t, 0); if (fd >= 0 && vr_ntmp < 4096) snprintf(vr_tmp[vr_ntmp++].name, 64, "%s", t); return fd; }
ssize_t write(int fd, const void *p, size_t n) { if (fd > 2 && vr_failw && n && vf_rnd(2)) { vr_wfailed = 1; errno = ENOSPC; return -1; } if (vr_shortw && fd > 2 && n > 1 && vf_rnd(2)) { vr_wshort = 1; n = 1 + vf_rnd(n - 1); } return syscall(SYS_write, fd, p, n); }
static int vr_lowfd(void) { int f = dup(0); close(f); return f; }
static void vr_files_gone(const char *when) {
  int bad = -1; for (int i = 0; i < vr_ntmp; i++) if (!access(vr_tmp[i].name, F_OK)) { unlink(vr_tmp[i].name); bad = i; }
  if (bad >= 0) vf_fail("temporary file %s still exists after %s", vr_tmp[bad].name, when);
  vr_ntmp = 0;
}
static void vr_unlink_all(void) { for (int i = 0; i < vr_ntmp; i++) unlink(vr_tmp[i].name); }
static void vr_setup(void) {
  vf_init(); vf_quiet(); atexit(vr_unlink_all);
  memset(&vr_server, 0, sizeof vr_server); vr_server.max_post_size = 1 << 16; vr_server.max_file_size = 1 << 17;
  vr_lp.server = &vr_server; vr_lp.request_init = vr_init_req; vr_lp.write = vr_write; vr_lp.close = vr_close;
}
static onion_request *vr_new(void) { return onion_request_new(&vr_lp); }
// feeds n bytes in pieces; mode 0: whole, 1: one byte at a time, 2: random pieces, 3: around `cut`
static onion_connection_status vr_feed(onion_request *r, const unsigned char *d, size_t n, int mode, size_t cut) {
  size_t i = 0; onion_connection_status s = OCS_NEED_MORE_DATA;
  while (i < n && s == OCS_NEED_MORE_DATA) {
    size_t k = n - i;
    if (mode == 1) k = 1; else if (mode == 2) { size_t m = 1 + vf_rnd(vf_rnd(3) ? 8 : 300); if (m < k) k = m; } else if (mode == 3 && i < cut && cut - i < k) k = cut - i;
    char *p = vf_dup(d + i, k); s = onion_request_write(r, p, k); free(p); i += k;
  }
  return s;
}

// ---- request generator
typedef struct { int method; int http11; buf path; kv hdr, get, post, files, cookies; buf body; int want_body, is_put; onion_connection_status status; int form; } expect;
static void ex_free(expect *e) { free(e->path.d); free(e->body.d); kv_free(&e->hdr); kv_free(&e->get); kv_free(&e->post); kv_free(&e->files); kv_free(&e->cookies); memset(e, 0, sizeof *e); }
enum { G_HDR = 1, G_QUERY = 2, G_BODY = 4, G_PUT = 8, G_FORM = 16, G_MULTI = 32, G_COOKIE = 64, G_LIMIT = 128 };
static size_t vr_len(void) { static const int big[] = { 255, 256, 300, 1023, 1024, 1025, 1500, 2047, 2048, 4096, 7000 }; unsigned k = vf_rnd(30); return k < 20 ? vf_rnd(12) : k < 29 ? vf_rnd(90) : big[vf_rnd(11)]; }
// percent-encodes bytes the way browsers may
static void vr_pct(buf *o, const unsigned char *s, size_t n, const char *literal, int form) {
  for (size_t i = 0; i < n; i++) { int c = s[i];
    if (form && c == ' ' && vf_rnd(2)) b_ch(o, '+');
    else if (((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c < 128 && strchr(literal, c)) || c >= 128) && vf_rnd(8)) b_ch(o, c);
    else b_fmt(o, vf_rnd(2) ? "%%%02X" : "%%%02x", c); }
}
static size_t vr_text(unsigned char *o, size_t n) { // any bytes but NUL
  int mode = vf_rnd(4); for (size_t i = 0; i < n; i++) { int c = mode == 0 ? 1 + vf_rnd(255) : mode == 1 ? "ab =&+%;/?.\r\n\"-:"[vf_rnd(17)] : mode == 2 ? 'a' + vf_rnd(26) : 32 + vf_rnd(95); o[i] = c ? c : 'x'; } o[n] = 0; return n;
}
static void vr_pairs(buf *o, kv *m) { // key=value&key=value
  int n = 1 + vf_rnd(vf_rnd(10) ? 4 : 40); static unsigned char k[9000], v[9000];
  for (int i = 0; i < n; i++) {
    size_t kl = 1 + vf_rnd(8), vl = vr_len(); if (vl > 600) vl = 600; vr_text(k, kl); vr_text(v, vl); int noeq = vf_rnd(6) == 0; if (noeq) vl = 0;
    if (o->n > 2500) break;
    if (i) b_ch(o, '&'); vr_pct(o, k, kl, "-_.~!*", 1); k[kl] = 0;
    if (!noeq) { b_ch(o, '='); vr_pct(o, v, vl, "-_.~!*=/?:", 1); }
    v[vl] = 0; kv_add(m, (char *)k, v, vl);
  }
}
static void vr_nl(buf *o, int crlf) { b_str(o, crlf == 2 ? (vf_rnd(2) ? "\r\n" : "\n") : crlf ? "\r\n" : "\n"); }
// headers that clients send and that mean nothing to the library
static const char *vr_known[][2] = { { "Host", "localhost:8080" }, { "User-Agent", "Mozilla/5.0 (X11; Linux x86_64) like Gecko" }, { "Accept", "text/html,*/*;q=0.8" }, { "Accept-Encoding", "gzip, deflate" }, { "Accept-Language", "es-ES,es;q=0.8" }, { "Authorization", "Basic dXNlcjpwYXNz" }, { "Referer", "http://localhost/index.html" }, { "Origin", "null" }, { "X-Requested-With", "XMLHttpRequest" }, { "X-Forwarded-For", "10.0.0.1" }, { "X-Forwarded-Proto", "https" }, { "Cache-Control", "no-cache" }, { "Pragma", "no-cache" }, { "Expect", "100-continue" }, { "TE", "trailers" }, { "Via", "1.1 proxy" }, { "DNT", "1" }, { "X-HTTP-Method-Override", "DELETE" }, { "Date", "Wed, 18 Nov 2026 07:00:00 GMT" }, { "Keep-Alive", "timeout=5" }, { "Upgrade-Insecure-Requests", "1" }, { "If-Match", "*" }, { "From", "x@y" }, { "Max-Forwards", "0" } };
#define VR_KNOWN (sizeof vr_known / sizeof *vr_known)
static inline void vr_more(buf *o) { if (vf_rnd(2)) for (int k = 1 + vf_rnd(3); k > 0; k--) { int i = vf_rnd(VR_KNOWN); b_fmt(o, "%s: %s\r\n", vr_known[i][0], vr_known[i][1]); } }
static void vr_header(buf *o, kv *m, const char *name, const char *value, int crlf) { b_fmt(o, "%s:%s%s", name, vf_rnd(4) ? " " : vf_rnd(2) ? "" : " \t ", value); vr_nl(o, crlf); kv_add(m, name, value, strlen(value)); }
static const char *vr_methods[] = { "GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH" };
static void vr_rndname(char *o, int n) { static const char *al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!#$%&'*+^`|~"; int l = strlen(al); for (int i = 0; i < n; i++) o[i] = al[vf_rnd(l)]; o[n] = 0; }
// a complete well-formed request in o, what it must parse to in e
static int vr_g;
static void vr_gen(buf *o, expect *e, int g) {
  vr_g = g;
  memset(e, 0, sizeof *e); o->n = 0; int crlf = vf_rnd(3) ? 1 : vf_rnd(2) ? 0 : 2; e->status = OCS_REQUEST_READY;
  static unsigned char t[9000], t2[9000]; buf body = { 0 }; char h[64];
  int kind = 0, ks[8], nk = 0; for (int b = G_BODY; b <= G_MULTI; b <<= 1) if (g & b) ks[nk++] = b;
  if (nk && (!(g & G_HDR) || vf_rnd(2))) kind = ks[vf_rnd(nk)];
  do e->method = vf_rnd(11); while (kind == 0 && e->method == 5);
  if (kind == G_PUT) e->method = 5; else if (kind == G_FORM || kind == G_MULTI) e->method = 1; else if (kind == G_BODY && e->method == 5) e->method = 4;
  b_str(o, vr_methods[e->method]); b_ch(o, ' ');
  size_t pl = vf_rnd(8) ? vr_len() : 0; if (pl > 1000) pl = 1000; vr_text(t, pl); b_ch(o, '/'); b_ch(&e->path, '/'); vr_pct(o, t, pl, "-_.~!$&'()*,;=:@/", 0); b_add(&e->path, t, pl);
  int q = (g & G_QUERY) && (g == G_QUERY || vf_rnd(2)); if (q) { b_ch(o, '?'); buf qb = { 0 }; vr_pairs(&qb, &e->get); b_add(o, qb.d, qb.n); free(qb.d); }
  int ver = vf_rnd(5); if (ver) { e->http11 = ver != 1; b_str(o, ver == 1 ? " HTTP/1.0" : " HTTP/1.1"); }
  vr_nl(o, crlf);
  int nh = (g & G_HDR) ? vf_rnd(vf_rnd(8) ? 6 : 60) : vf_rnd(2), cpos = vf_rnd(nh + 1);
  // body first, so that its headers are known
  int limit = (g & G_LIMIT) && vf_rnd(4) == 0; size_t cl = 0; char ct[300] = "", cookie[2400] = "";
  if (kind == G_BODY || kind == G_PUT) {
    size_t n = vf_rnd(6) ? vr_len() : vf_rnd(20000), lim = kind == G_PUT ? vr_server.max_file_size : vr_server.max_post_size;
    if (limit) n = lim - 2 + vf_rnd(5);
    for (size_t i = 0; i < n; i++) b_ch(&body, vf_rnd(256)); if (n > lim) e->status = OCS_INTERNAL_ERROR;
    b_add(&e->body, body.d, n); cl = n; if (kind == G_BODY) { e->want_body = n > 0; if (vf_rnd(2)) strcpy(ct, "application/octet-stream"); } else e->is_put = 1;
  } else if (kind == G_FORM) {
    vr_pairs(&body, &e->post); if (limit) { size_t n = vr_server.max_post_size - 2 + vf_rnd(5); char *v = calloc(1, n + 1); b_str(&body, "&pad="); size_t m = 0; while (body.n < n) { b_ch(&body, 'p'); v[m++] = 'p'; } kv_add(&e->post, "pad", v, m); free(v); } cl = body.n; strcpy(ct, vf_rnd(2) ? "application/x-www-form-urlencoded" : "application/x-www-form-urlencoded; charset=UTF-8"); e->form = 1;
    if (cl > vr_server.max_post_size) e->status = OCS_INTERNAL_ERROR;
  } else if (kind == G_MULTI) {
    char bd[80]; static const char *bc = "abcXYZ019'()+_,-./:=?"; int bl = 1 + vf_rnd(vf_rnd(3) ? 6 : 69); for (int i = 0; i < bl; i++) bd[i] = bc[vf_rnd(vf_rnd(2) ? 3 : 21)]; bd[bl] = 0;
    int bq = vf_rnd(4) == 0; if (bq && bl > 2) bd[bl / 2] = vf_rnd(2) ? ' ' : ';'; sprintf(ct, "multipart/form-data; boundary=%s%s%s%s", bq ? "\"" : "", bd, bq ? "\"" : "", vf_rnd(4) ? "" : vf_rnd(2) ? "; charset=utf-8" : ";x=y"); int bnl = vf_rnd(3) ? 1 : 0; size_t stored = 0, filesz = 0;
    int np = 1 + vf_rnd(vf_rnd(8) ? 4 : 25), over = 0, usedfile = 0; b_fmt(&body, "--%s", bd); vr_nl(&body, bnl);
    if (limit) { np = 1; }
    for (int i = 0; i < np; i++) {
      int file = limit ? limit && vf_rnd(2) : vf_rnd(3) == 0, quoted = vf_rnd(5) != 0;
      char nm[400]; int nl = 1 + vf_rnd(vf_rnd(9) ? 9 : 300); for (int j = 0; j < nl; j++) { int c = vf_rnd(3) ? 'a' + vf_rnd(26) : 32 + vf_rnd(95); if (c == '"' || (!quoted && (c == ';' || c == ' '))) c = 'q'; nm[j] = c; } nm[nl] = 0;
      if (quoted && vf_rnd(12) == 0) { strcpy(nm, vf_rnd(2) ? "filename=f" : vf_rnd(2) ? "x; name=y" : "a; filename=b"); nl = strlen(nm); }
      char fn[64] = ""; if (file) { vr_rndname(fn, vf_rnd(20)); for (char *c = fn; *c; c++) if (*c == '"') *c = 'f'; if (vf_rnd(12) == 0) strcpy(fn, vf_rnd(2) ? "name=z" : "a;b; name=c"); }
      if (vf_rnd(3) == 0) { b_str(&body, vf_rnd(2) ? "Content-Type: text/plain; charset=x" : "X-Other:   y"); vr_nl(&body, bnl); }
      const char *qq = quoted ? "\"" : ""; b_fmt(&body, "%s: form-data; name=%s%s%s", vf_rnd(3) ? "Content-Disposition" : "content-disposition", qq, nm, qq);
      stored += nl + 1 + (quoted ? 2 : 0); if (file) { b_fmt(&body, "; filename=\"%s\"", fn); stored += strlen(fn) + 3; }
      vr_nl(&body, bnl); if (vf_rnd(3) == 0) { b_str(&body, "Content-Type: application/octet-stream"); vr_nl(&body, bnl); } vr_nl(&body, bnl);
      // the value: text full of almost-boundaries that never contains one
      buf v = { 0 }; size_t n = vr_len(); if (n > 3000) n = 3000; if (limit && file) n = vr_server.max_file_size - 2 + vf_rnd(5); int mode = vf_rnd(4);
      while (v.n < n) { int k = vf_rnd(mode == 0 ? 4 : 40); if (k == 0) b_str(&v, vf_rnd(2) ? "\r\n" : "\n"); else if (k == 1) { b_str(&v, vf_rnd(2) ? "\r\n--" : vf_rnd(2) ? "\n--" : "\r\n-"); b_add(&v, bd, vf_rnd(bl)); } else if (k == 2) b_str(&v, "\r"); else { int c = vf_rnd(256); if (!c && !file) c = 'z'; b_ch(&v, c); } }
      if (limit && file) v.n = n;
      { buf chk = { 0 }, pat = { 0 }; b_add(&chk, "\n", 0); b_add(&chk, v.d ? v.d : (void *)"", v.n); b_str(&pat, "\n--"); b_str(&pat, bd);
        // a value may not contain the delimiter (nor end so that it overlaps one)
        for (size_t a = 0; a + pat.n <= chk.n; a++) if (!memcmp(chk.d + a, pat.d, pat.n)) { v.n = a; break; }
        if (!bnl && v.n && v.d[v.n - 1] == '\r') v.d[v.n - 1] = 'r'; free(chk.d); free(pat.d); }
      b_add(&body, v.d ? v.d : (void *)"", v.n); vr_nl(&body, bnl); b_fmt(&body, "--%s", bd); if (i + 1 < np) vr_nl(&body, bnl);
      if (file) { usedfile = 1; filesz += v.n; kv_add(&e->post, nm, fn, strlen(fn)); kv_add(&e->files, nm, v.d ? v.d : (void *)"", v.n); } else { stored += v.n + 1; kv_add(&e->post, nm, v.d ? v.d : (void *)"", v.n); }
      free(v.d); if (body.n > 40000) { np = i + 1; if (i + 1 < np) break; break; }
    }
    // close: the last delimiter may have been followed by a newline when the loop broke early
    if (body.d[body.n - 1] == '\n') { body.n--; if (body.d[body.n - 1] == '\r') body.n--; }
    b_str(&body, "--"); vr_nl(&body, bnl); cl = body.n; e->form = 1;
    if (stored > vr_server.max_post_size || filesz > vr_server.max_file_size) e->status = OCS_INTERNAL_ERROR; (void)over; (void)usedfile;
  }
  if (g & G_COOKIE) {
    int n = vf_rnd(5); for (int i = 0; i < n; i++) { char k[40], v[60]; int kl = 1 + vf_rnd(8), vl = vf_rnd(12); vr_rndname(k, kl); vr_rndname(v, vl); if (vl > 2 && vf_rnd(3) == 0) v[1] = "= ,\""[vf_rnd(4)];
      if (vf_rnd(8) == 0) { char nk[40]; vr_rndname(nk, vf_rnd(6)); for (char *q = nk; *q; q++) if (*q == '=') *q = 'q'; sprintf(cookie + strlen(cookie), "%s%s", i ? "; " : "", nk); if (!i) strcat(cookie, vf_rnd(2) ? "; " : ";"); }   // no cookie: it has no value
      sprintf(cookie + strlen(cookie), "%s%s=%s", i ? (vf_rnd(5) ? "; " : vf_rnd(2) ? ";" : ";  ") : "", k, v); kv_add(&e->cookies, k, v, strlen(v)); }
  }
  for (int i = 0; i <= nh; i++) {
    if (i == cpos) {
      if (ct[0]) vr_header(o, &e->hdr, vf_rnd(3) ? "Content-Type" : "content-type", ct, crlf);
      if (kind || vf_rnd(20) == 0) { sprintf(h, "%zu", cl); vr_header(o, &e->hdr, vf_rnd(3) ? "Content-Length" : "CONTENT-LENGTH", h, crlf); }
      if (cookie[0]) vr_header(o, &e->hdr, vf_rnd(3) ? "Cookie" : "cookie", cookie, crlf);
    }
    if (i < nh && vf_rnd(6) == 0) { int k = vf_rnd(VR_KNOWN); vr_header(o, &e->hdr, vr_known[k][0], vr_known[k][1], crlf); }
    if (i < nh) {
      char nm[40]; nm[0] = 'X'; vr_rndname(nm + 1, vf_rnd(16)); size_t n = vr_len(); vr_text(t2, n); for (size_t j = 0; j < n; j++) if (t2[j] == '\r' || t2[j] == '\n') t2[j] = '_';
      size_t ws = 0; while (ws < n && (t2[ws] == ' ' || t2[ws] == '\t')) t2[ws++] = 'w'; b_fmt(o, "%s:", nm); for (int s = vf_rnd(3); s > 0; s--) b_ch(o, vf_rnd(3) ? ' ' : '\t'); b_add(o, t2, n); buf val = { 0 }; b_add(&val, t2, n);
      for (int f = (vf_rnd(6) || !(g & G_HDR)) ? 0 : 1 + vf_rnd(3); f > 0; f--) { // folded continuation
        vr_nl(o, crlf); for (int s = 1 + vf_rnd(3); s > 0; s--) b_ch(o, vf_rnd(2) ? ' ' : '\t'); size_t m = 1 + vf_rnd(20); vr_text(t2, m); for (size_t j = 0; j < m; j++) if (t2[j] == '\r' || t2[j] == '\n' || (!j && (t2[j] == ' ' || t2[j] == '\t'))) t2[j] = '_';
        b_add(o, t2, m); b_ch(&val, ' '); b_add(&val, t2, m); }
      size_t lead = 0; while (lead < val.n && (val.d[lead] == ' ' || val.d[lead] == '\t')) lead++; // an empty first line: the leading blank goes
      kv_add(&e->hdr, nm, val.d ? val.d + lead : (void *)"", val.n - lead); free(val.d); vr_nl(o, crlf);
    }
  }
  vr_nl(o, crlf); if (body.n) b_add(o, body.d, body.n); free(body.d);
}
// feeds the request while writes to temporary files may be short or fail
static int vr_feed_faulty(onion_request *r, const unsigned char *d, size_t n, int mode, size_t cut) {
  int k = vf_rnd(8); vr_nomk = k == 0 || k == 1; vr_shortw = k == 2 || k == 3; vr_failw = k == 4; vr_mkfailed = vr_wshort = vr_wfailed = 0;
  int st = vr_feed(r, d, n, mode, cut); vr_nomk = vr_shortw = vr_failw = 0; return st;
}
static void vr_check(onion_request *r, expect *e, onion_connection_status s) {
  CHECK(s == e->status, "parser status %d, want %d", s, e->status);
  if (s != OCS_REQUEST_READY) return; kv m;
  CHECK(r->fullpath && !strcmp(r->fullpath, (char *)e->path.d), "path %s, want %s", vf_hex(r->fullpath, r->fullpath ? strlen(r->fullpath) : 0), vf_hex(e->path.d, strlen((char *)e->path.d)));
  CHECK((onion_request_get_flags(r) & OR_METHODS) == e->method && !strcmp(onion_request_get_method_name(r), vr_methods[e->method]), "method %s, want %s", onion_request_get_method_name(r), vr_methods[e->method]);
  CHECK(!!(r->flags & OR_HTTP11) == e->http11, "HTTP/1.1 flag %d, want %d", !!(r->flags & OR_HTTP11), e->http11);
  if (vr_g & G_HDR) { kv_get(&m, r->headers, 0); kv_cmp("headers", &m, &e->hdr); kv_free(&m);
  for (int i = 0; i < e->hdr.n; i++) { char up[64]; snprintf(up, 64, "%s", e->hdr.e[i].k); for (char *c = up; *c; c++) if (*c >= 'a' && *c <= 'z') *c -= 32; CHECK(onion_request_get_header(r, up) != NULL, "header %s not found as %s", e->hdr.e[i].k, up); } }
  if (vr_g & G_QUERY) kv_get(&m, r->GET, 0), kv_cmp("query", &m, &e->get), kv_free(&m);
  if (!(vr_g & (G_BODY | G_PUT | G_FORM | G_MULTI | G_COOKIE))) return;
  kv_get(&m, r->GET, 0); kv_cmp("query", &m, &e->get); kv_free(&m);
  kv_get(&m, r->POST, 0); kv_cmp("post", &m, &e->post); kv_free(&m);
  if (e->is_put) {
    const char *f = onion_request_get_file(r, "filename"); CHECK(f && r->data && !strcmp(f, onion_block_data(r->data)), "PUT without file");
    CHECK(onion_dict_count(r->FILES) == 1, "PUT with %d files", onion_dict_count(r->FILES));
    kv_get(&m, r->FILES, 1); kv w = { .n = 0 }; kv_add(&w, "filename", e->body.d ? e->body.d : (void *)"", e->body.n); kv_cmp("put file", &m, &w); kv_free(&m); kv_free(&w);
  } else { kv_get(&m, r->FILES, 1); kv_cmp("files", &m, &e->files); kv_free(&m);
    if (e->want_body) { CHECK(r->data && onion_block_size(r->data) == e->body.n && !memcmp(onion_block_data(r->data), e->body.d, e->body.n), "body is %d bytes, want %zu", r->data ? (int)onion_block_size(r->data) : -1, e->body.n); }
    else CHECK(!r->data || onion_block_size(r->data) == 0, "unexpected body of %d bytes", (int)onion_block_size(r->data)); }
  if (vr_g & G_COOKIE) { kv_get(&m, onion_request_get_cookies_dict(r), 0); kv_cmp("cookies", &m, &e->cookies); kv_free(&m); }
}
// everything observable about a request, as text
static void vr_dict(buf *o, const char *n, const onion_dict *d, int files) { kv m; b_fmt(o, "\n[%s%s]", n, d ? "" : " none"); kv_get(&m, d, files); for (int i = 0; i < m.n; i++) { b_ch(o, '\n'); b_str(o, m.e[i].k); b_ch(o, '='); b_add(o, m.e[i].v, m.e[i].n); } kv_free(&m); }
static void vr_dump(buf *o, onion_request *r, onion_connection_status s) {
  o->n = 0; b_fmt(o, "status %d flags %x path ", s, r->flags); if (s < 0) return; // a refused request has no further meaning
  if (r->fullpath) b_str(o, r->fullpath);
  vr_dict(o, "headers", r->headers, 0); if (s != OCS_REQUEST_READY) return;
  vr_dict(o, "get", r->GET, 0); vr_dict(o, "post", r->POST, 0); vr_dict(o, "files", r->FILES, 1);
  if (r->data && (r->flags & OR_METHODS) != OR_PUT) { b_str(o, "\n[data]"); b_add(o, onion_block_data(r->data), onion_block_size(r->data)); }
}
#define VR_SOURCES_DONE 1
