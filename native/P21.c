// SOURCES: @all handlers/path.c
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include "handler.h"
#include "url.h"
#include "shortcuts.h"
#include "handlers/path.h"
#include "handlers/static.h"
#include <regex.h>
// a random tree of handlers, and what it has to do with a path
enum { LEAF, ROUTER, PATHH, STATIC };
typedef struct node { int kind, id, ret, nalt; char pat[8][90]; struct node *inside[8], *next; void *data; char text[40]; int code; } node;
static node *all[512]; static int nall, freed[512], leaves; static node *rootn; static onion_handler *rooth;
static const char *PATS[] = { "a", "b", "a/b", "", "index.html", "ab", "^a", "^a/", "^b(.*)", "^(a)?(b)", "^([a-z]*)/([0-9]*)", "^", "^a$", "^[ab]/", "^(a|ab)(c|bcd)?(d*)", "^(((x)))/?", "^.*/(..)$", "^a\\.", "^ab/|b", "^x|(c)|d/", "^(a)(b)(a)(b)(a)(b)(a)(b)(a)(b)(a)(b)(a)(b)(a)?(b)?" };
static buf log_, want; static int redirs;
static void d_free(void *p) { node *n = p; freed[n->id]++; }
static onion_connection_status d_call(void *p, onion_request *r, onion_response *s) {
  node *n = p; CHECK(!freed[n->id], "freed handler is called"); b_fmt(&log_, "[%d %s", n->id, onion_request_get_path(r)); kv m; kv_get(&m, r->GET, 0);
  char line[512][90]; for (int i = 0; i < m.n; i++) snprintf(line[i], 90, "%s=%s", m.e[i].k, (char *)m.e[i].v); qsort(line, m.n, 90, (void *)strcmp); for (int i = 0; i < m.n; i++) b_fmt(&log_, " %s", line[i]); b_str(&log_, "]"); kv_free(&m);
  if (n->ret == 1000) { if (redirs++ < 2) { const char *pp = onion_request_get_path(r); return onion_shortcut_internal_redirect(*pp ? pp + 1 : n->text, r, s); } return OCS_NOT_PROCESSED; }
  return n->ret;
}
static node *mk(int depth, int chain, onion_handler **h) { // a chain of handlers
  node *first = 0, **np = &first; *h = 0;
  for (int i = 0; i < chain; i++) {
    if (nall >= 500) break; node *n = calloc(1, sizeof *n); n->id = nall; all[nall++] = n; *np = n; np = &n->next; onion_handler *x; int k = vf_rnd(depth > 0 ? 8 : 3);
    if (k < 3) { int q = vf_rnd(8); n->kind = LEAF; n->ret = q < 3 ? OCS_PROCESSED : q < 6 ? OCS_NOT_PROCESSED : q == 6 ? (const int[]) { OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN, OCS_KEEP_ALIVE, OCS_YIELD }[vf_rnd(5)] : vf_rnd(3) ? OCS_CLOSE_CONNECTION : 1000; if (n->ret == 1000) strcpy(n->text, PATS[vf_rnd(6)]); n->data = n; x = onion_handler_new(d_call, n, d_free); leaves++; }
    else if (k < 6) { n->kind = ROUTER; onion_url *u = onion_url_new(); x = onion_url_to_handler(u); n->nalt = vf_rnd(6);
      for (int j = 0; j < n->nalt; j++) { strcpy(n->pat[j], PATS[vf_rnd(sizeof PATS / sizeof *PATS)]); onion_handler *c; if (vf_rnd(20) == 0) { onion_handler *b = onion_handler_new(d_call, NULL, NULL); CHECK(onion_url_add_handler(u, "^(", b) != 0, "bad regexp is accepted"); onion_handler_free(b); }
        n->inside[j] = mk(depth - 1, 1 + vf_rnd(2), &c); if (!c) { n->nalt = j; break; }
        if (n->inside[j]->kind == LEAF && !n->inside[j]->next && vf_rnd(2)) { onion_handler_free(c); freed[n->inside[j]->id] = 0; CHECK(!onion_url_add_with_data(u, n->pat[j], d_call, n->inside[j], d_free), "add %s", n->pat[j]); }
        else if (n->inside[j]->kind == ROUTER) CHECK(!onion_url_add_url(u, n->pat[j], (onion_url *)c), "add %s", n->pat[j]);
        else CHECK(!onion_url_add_handler(u, n->pat[j], c), "add %s", n->pat[j]); } }
    else if (k == 6) { n->kind = PATHH; strcpy(n->pat[0], PATS[6 + vf_rnd(sizeof PATS / sizeof *PATS - 6)]); onion_handler *c; n->inside[0] = mk(depth - 1, 1 + vf_rnd(2), &c); x = onion_handler_path(n->pat[0], c); CHECK(x, "path"); }
    else { n->kind = STATIC; n->code = 200 + vf_rnd(200); sprintf(n->text, "text%d", vf_rnd(1000)); x = onion_handler_static(n->text, n->code); }
    if (!*h) *h = x; else onion_handler_add(*h, x);
  }
  return first;
}
// the oracle
static char groups[64][90]; static int ng, polluted, takeback; static int wantcode; static char wanttext[40]; static int wredirs;
static int sim(node *n, const char *p, int *redirected);
static int simone(node *n, const char *p, int *rd) {
  if (n->kind == LEAF) { b_fmt(&want, "[%d %s", n->id, p); char s[64][90]; memcpy(s, groups, sizeof s); qsort(s, ng, 90, (void *)strcmp); for (int i = 0; i < ng; i++) b_fmt(&want, " %s", s[i]); b_str(&want, "]");
    if (n->ret == 1000) { if (wredirs++ < 2) { static char np[4][600]; char *q = np[wredirs & 3]; strcpy(q, *p ? p + 1 : n->text); *rd = 1; int r2 = 0; return sim(rootn, q, &r2); } return OCS_NOT_PROCESSED; }
    return n->ret; }
  if (n->kind == STATIC) { wantcode = n->code; strcpy(wanttext, n->text); return OCS_PROCESSED; }
  int alts = n->kind == ROUTER ? n->nalt : 1;
  for (int j = 0; j < alts; j++) { regex_t re; regmatch_t m[20]; int keep = ng; const char *rest;
    if (n->pat[j][0] == '^') { CHECK(!regcomp(&re, n->pat[j], REG_EXTENDED), "re"); int bad = regexec(&re, p, 20, m, 0); regfree(&re); if (bad) continue; rest = p + m[0].rm_eo;
      if (n->kind == ROUTER) for (int g = 1; g < 16; g++) if (m[g].rm_so >= 0 && ng < 60) snprintf(groups[ng++], 90, "%d=%.*s", g, (int)(m[g].rm_eo - m[g].rm_so), p + m[g].rm_so); }
    else { if (strcmp(p, n->pat[j])) continue; rest = p + strlen(p); }
    int r = sim(n->inside[j], rest, rd); if (r == OCS_NOT_PROCESSED) { if (ng > keep) polluted = 1; if (takeback) ng = keep; } return r; }
  return OCS_NOT_PROCESSED;
}
static int sim(node *n, const char *p, int *rd) { for (; n; n = n->next) { int r = simone(n, p, rd); if (r) return r; if (*rd) polluted = 2; } return OCS_NOT_PROCESSED; }
int main(void) {
  vr_setup(); vfa_init(); { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); onion_response_free(onion_response_new(r)); onion_request_free(r); }
  long base = vfa_live;
  while (vf_time()) {
    nall = 0; memset(freed, 0, sizeof freed); leaves = 0; int top = 1 + vf_rnd(3); rootn = mk(3, top, &rooth); vr_server.root_handler = rooth;
    for (int it = 0; it < 6; it++) {
      buf p = { 0 }; b_str(&p, ""); int k = vf_rnd(7); for (int i = 0; i < k; i++) b_str(&p, vf_rnd(8) == 0 ? "index.html" : (const char *[]) { "a", "b", "/", "ab", "0", ".", "x", "c", "bcd", "d" }[vf_rnd(10)]);
      vf_case("tree of %d handlers, path /%s", nall, p.d); onion_request *r = vr_new(); buf rq = { 0 }; int old = vf_rnd(8) == 0; b_fmt(&rq, "%s /%s%s%s\n", (const char *[]) { "GET", "GET", "OPTIONS", "DELETE", "MKCOL" }[vf_rnd(5)], p.d, vf_rnd(3) ? "" : "?q=1", old ? "" : " HTTP/1.1"); vr_more(&rq); b_str(&rq, "\n"); CHECK(vr_feed(r, rq.d, rq.n, 0, 0) == OCS_REQUEST_READY, "request"); int q = !!strchr((char *)rq.d, '?'); free(rq.d);
      onion_request_polish(r); log_.n = want.n = 0; b_str(&log_, ""); b_str(&want, ""); ng = 0; polluted = 0; wantcode = 0; redirs = wredirs = 0; if (q) strcpy(groups[ng++], "q=1"); vr_out.n = 0; b_str(&vr_out, "");
      onion_response *res = onion_response_new(r); int rd = 0; int w = sim(rootn, (char *)p.d, &rd); int g = onion_handler_handle(rooth, r, res); int rdd = rd || wredirs;
      // a declined match may leave its groups behind, and after a declined redirect the path is the new one: then only the handlers count up to there
      if (!polluted && !rdd) { CHECK(g == w, "status %d, want %d (called %s, want %s)", g, w, log_.d, want.d); CHECK(!strcmp((char *)log_.d, (char *)want.d), "called %s, want %s", log_.d, want.d); VF_NT(); }
      else if (!rdd) { // the listed finding: groups of a declined match are still there; exactly those, or none of them
        CHECK(g == w, "status %d, want %d", g, w); if (strcmp((char *)log_.d, (char *)want.d)) { char *w1 = strdup((char *)want.d); want.n = 0; b_str(&want, ""); ng = 0; wredirs = 0; if (q) strcpy(groups[ng++], "q=1"); takeback = 1; sim(rootn, (char *)p.d, &rd); takeback = 0;
          CHECK(!strcmp((char *)log_.d, (char *)want.d), "called %s, want %s", log_.d, w1); free(w1); } VF_NT(); }
      if (g == 0 && !rdd) CHECK(!strcmp(onion_request_get_path(r), (char *)p.d), "a declined request has path %s, was %s", onion_request_get_path(r), p.d);
      if (!rdd && w == OCS_PROCESSED && wantcode) { onion_response_flush(res); char st[40]; sprintf(st, "HTTP/1.%d %d ", !old, wantcode); CHECK(!strncmp((char *)vr_out.d, st, strlen(st)), "static answer %.20s, want %s", vr_out.d, st); char *e = strstr((char *)vr_out.d, "\r\n\r\n"); CHECK(e && !strcmp(e + 4, wanttext), "static text %s, want %s", e ? e + 4 : "-", wanttext); }
      vf_sample(); onion_response_free(res); onion_request_free(r); free(p.d);
    }
    int n = onion_handler_free(rooth); CHECK(n == top, "%d handlers freed at the top, want %d", n, top); for (int i = 0; i < nall; i++) { if (all[i]->kind == LEAF) CHECK(freed[i] == 1, "private data freed %d times", freed[i]); free(all[i]); }
    CHECK(vfa_live == base, "%ld blocks not freed", vfa_live - base);
  }
  vf_done();
}
