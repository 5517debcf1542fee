// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include <locale.h>
// the header block of a response against what the application set: replaced headers, repeated cookies, session cookie
static char *name(void) { static char b[4][80]; static int k; char *p = b[k = (k + 1) & 3]; vr_rndname(p, 1 + vf_rnd(12)); return p; }
static char *text(size_t max) { size_t n = vf_rnd(max + 1); char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) { p[i] = 33 + vf_rnd(90); if (p[i] == ';') p[i] = '.'; } p[n] = 0; return p; }
int main(void) {
  vr_setup(); setenv("TZ", "GMT", 1); tzset(); vfa_init(); 
  { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); onion_response_free(onion_response_new(r)); onion_request_free(r); }
  onion *o = onion_new(O_ONE); o->sessions = onion_sessions_new(); long base = vfa_live;
  while (vf_time()) {
    vr_out.n = 0; long live = vfa_live; onion_request *r = vr_new(); int http11 = vf_rnd(2);
    vf_case("HTTP/1.%d", http11); VF_NT();
    { buf rq = { 0 }; b_fmt(&rq, "%s / HTTP/1.%d\r\n", (const char *[]) { "GET", "GET", "MKCOL", "OPTIONS", "DELETE" }[vf_rnd(5)], http11); vr_more(&rq); b_str(&rq, "\r\n"); vr_feed(r, rq.d, rq.n, 0, 0); free(rq.d); }
    onion_response *res = onion_response_new(r); kv want = { .n = 0 }; if (vf_rnd(2)) onion_response_set_code(res, (int[]) { 200, 201, 302, 304, 400, 401, 403, 404, 500, 501 }[vf_rnd(10)]);
    int n = vf_rnd(12);
    for (int i = 0; i < n; i++) {
      if (vf_rnd(2)) { // a header, sometimes again
        char *k = name(), *v = text(vf_rnd(8) ? 40 : 1500); char key[96]; snprintf(key, sizeof key, "%s", vf_rnd(4) || !want.n ? k : want.e[vf_rnd(want.n)].k);
        if (!strcmp(key, "Set-Cookie")) strcpy(key, "X"); if (vf_rnd(12) == 0) strcpy(key, vf_rnd(2) ? "Content-Type" : "Server");
        if (!strcasecmp(key, "Content-Length") || !strcasecmp(key, "Connection") || !strcasecmp(key, "Transfer-Encoding") || !strcasecmp(key, "Date")) { free(v); continue; }
        int f = -1; for (int j = 0; j < want.n; j++) if (!strcmp(want.e[j].k, key)) f = j;
        vf_more(" header %s=%s", key, v); char *k2 = vf_str(key, strlen(key)); onion_response_set_header(res, k2, v); memset(k2, '#', strlen(key)); free(k2);
        if (f >= 0) { free(want.e[f].v); want.e[f].v = (void *)vf_str(v, strlen(v)); want.e[f].n = strlen(v); } else kv_add(&want, key, v, strlen(v));
        memset(v, '#', strlen(v)); free(v);
      } else {
        char *v = text(vf_rnd(8) ? 40 : 4300), *p = vf_rnd(2) ? text(vf_rnd(6) ? 30 : 4200) : NULL, *d = vf_rnd(2) ? text(vf_rnd(6) ? 20 : 4200) : NULL, *k = vf_rnd(3) ? name() : "same"; int fl = vf_rnd(32);
        static const long val[] = { -1, 0, 1, 3600, 86400L * 365, 1L << 40, 1L << 61 }; long vt = val[vf_rnd(vf_rnd(8) ? 4 : 7)];
        if (vf_rnd(6) == 0) { // aim at the size limit
          free(v); size_t rest = strlen(k) + 1 + (vt == 0 ? 39 : 0) + (p ? 7 + strlen(p) : 0) + (d ? 9 + strlen(d) : 0); if (vt > 0) vt = -1; fl = vf_rnd(4); rest += (fl & OC_HTTP_ONLY ? 10 : 0) + (fl & OC_SECURE ? 8 : 0); long l = 4095 - (long)rest - 2 + vf_rnd(5); if (l < 0) l = 3; v = malloc(l + 1); memset(v, 'v', l); v[l] = 0; }
        vf_more(" cookie %s (%zu) validity %ld path %zu domain %zu flags %d", k, strlen(v), vt, p ? strlen(p) : 0, d ? strlen(d) : 0, fl);
        time_t t0 = time(0); bool ok = onion_response_add_cookie(res, k, v, vt, p, d, fl); time_t t1 = time(0);
        buf b = { 0 }; int many = 0; b_str(&b, k); b_str(&b, "="); b_str(&b, v);
        size_t expat = 0; if (vt == 0) b_str(&b, "; expires=Thu, 01 Jan 1970 00:00:00 GMT"); if (vt > 0) { char e[80]; struct tm tm; time_t t = t0 + vt; if (!localtime_r(&t, &tm)) many = 2; else { strftime(e, 80, "%a, %d %b %Y %H:%M:%S %Z", &tm); b_str(&b, "; expires="); expat = b.n; b_str(&b, e); } }
        if (p) { b_str(&b, "; path="); b_str(&b, p); } if (d) { b_str(&b, "; domain="); b_str(&b, d); } if (fl & OC_HTTP_ONLY) b_str(&b, "; HttpOnly"); if (fl & OC_SECURE) b_str(&b, "; Secure");
        int ss = fl & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT); if (ss == OC_SAMESITE_NONE) b_str(&b, "; SameSite=None"); if (ss == OC_SAMESITE_LAX) b_str(&b, "; SameSite=Lax"); if (ss == OC_SAMESITE_STRICT) b_str(&b, "; SameSite=Strict");
        if (many == 2) CHECK(!ok, "impossible expiration accepted"); else CHECK(ok == (b.n < 4096), "cookie of %zu bytes %s", b.n, ok ? "accepted" : "refused");
        if (ok && t0 == t1) kv_add(&want, "Set-Cookie", b.d, b.n); else if (ok) { free(b.d); free(v); free(p); free(d); goto skip; } free(b.d); free(v); free(p); free(d);
      }
    }
    char sid[200] = ""; int session = vf_rnd(4) == 0;
    if (session) { r->connection.listen_point->server->sessions = o->sessions; onion_dict *s = onion_request_get_session_dict(r); CHECK(s, "session"); if (vf_rnd(3)) { onion_dict_add(s, "a", "b", OD_DUP_ALL); snprintf(sid, sizeof sid, "sessionid=%s; httponly; Path=/", r->session_id); kv_add(&want, "Set-Cookie", sid, strlen(sid)); } vf_more(" session %s", sid); }
    onion_response_write0(res, "body"); onion_response_free(res);
    // read the block back
    kv got = { .n = 0 }; size_t at = 0; int ln = 0; for (;;) { unsigned char *e = memmem(vr_out.d + at, vr_out.n - at, "\r\n", 2); CHECK(e, "head not terminated"); size_t l = e - vr_out.d - at; char *s = vf_str(vr_out.d + at, l); CHECK(strlen(s) == l && !strchr(s, '\n'), "bad header line %s", vf_hex(s, l)); at += l + 2; if (!l) { free(s); break; }
      if (ln++) { char *c = strstr(s, ": "); CHECK(c && c > s, "header line \"%s\"", s); *c = 0; if (strcmp(s, "Date") && strcasecmp(s, "Content-Length") && strcmp(s, "Connection")) kv_add(&got, s, c + 2, strlen(c + 2)); } free(s); }
    CHECK(vr_out.n - at == 4 && !memcmp(vr_out.d + at, "body", 4), "body after the headers");
    int ct = 0, sv = 0; for (int i = 0; i < want.n; i++) { ct |= !strcmp(want.e[i].k, "Content-Type"); sv |= !strcmp(want.e[i].k, "Server"); }
    if (!ct) kv_add(&want, "Content-Type", "text/html", 9);
    if (!sv) { for (int j = 0; j < got.n; j++) if (!strcmp(got.e[j].k, "Server")) { kv_add(&want, "Server", got.e[j].v, got.e[j].n); break; } }
    kv_cmp("response headers", &got, &want); kv_free(&got); vf_sample();
    if (0) { skip: onion_response_free(res); }
    kv_free(&want); char *id = r->session_id ? strdup(r->session_id) : NULL; if (id && o->sessions) onion_request_session_free(r); free(id); onion_request_free(r); 
    if (!session) CHECK(vfa_live == live, "%ld blocks leaked", vfa_live - live);
  }
  return vf_done();
}
