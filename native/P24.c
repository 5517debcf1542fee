// SOURCES: @all handlers/auth_pam.c
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include "handler.h"
#include "sessions.h"
#include "sessions_mem.h"
#include "handlers/auth_pam.h"
#include <security/pam_appl.h>
onion_sessions *onion_sessions_mem_new();
// a PAM that knows a few accounts, with two services, and may fail at each step
#define NU 6
static struct { char user[64], pass[200]; int expired; } acc[NU]; static char service[2][12] = { "svc-a", "svc-b" };
static int p_asked, p_yes, p_open, p_mode, p_startfail, p_unk, p_auth; static char p_user[600], p_pass[600], p_svc[64]; static struct pam_conv p_conv; static int p_handle;
int pam_start(const char *svc, const char *user, const struct pam_conv *c, pam_handle_t **h) {
  p_asked++; snprintf(p_user, sizeof p_user, "%s", user); snprintf(p_svc, sizeof p_svc, "%s", svc); p_conv = *c; p_auth = 0;
  if (p_startfail) { *h = 0; return PAM_SYSTEM_ERR; } p_open++; *h = (void *)&p_handle; return PAM_SUCCESS;
}
static int p_find(void) { for (int i = 0; i < NU; i++) if (!strcmp(acc[i].user, p_user) && !strcmp(acc[i].pass, p_pass)) return i; return -1; }
int pam_authenticate(pam_handle_t *h, int fl) {
  CHECK((void *)h == &p_handle, "a session of PAM that was not opened"); struct pam_message m[3]; const struct pam_message *pm[3]; int n = 1 + vf_rnd(3);
  for (int i = 0; i < n; i++) { m[i].msg_style = i ? PAM_ERROR_MSG : PAM_PROMPT_ECHO_OFF; m[i].msg = "Password: "; pm[i] = &m[0] + i; }
  struct pam_response *r = 0; int k = p_conv.conv(n, pm, &r, p_conv.appdata_ptr); CHECK(k == PAM_SUCCESS && r, "no answer to the question for the password");
  snprintf(p_pass, sizeof p_pass, "%s", r[0].resp); for (int i = 0; i < n; i++) { CHECK(r[i].resp && r[i].resp_retcode == 0, "answer %d of %d", i, n); CHECK(!strcmp(r[i].resp, p_pass), "answer %d of %d differs", i, n); vfa_free(r[i].resp); } vfa_free(r);
  int a = p_find(); p_auth = a >= 0 && p_mode != 1; return p_auth ? PAM_SUCCESS : PAM_AUTH_ERR;
}
int pam_acct_mgmt(pam_handle_t *h, int fl) { CHECK((void *)h == &p_handle, "a session of PAM that was not opened"); int a = p_find(); if (p_auth && a >= 0 && !acc[a].expired && p_mode != 2) { p_yes++; return PAM_SUCCESS; } return PAM_ACCT_EXPIRED; }
int pam_end(pam_handle_t *h_, int st) { pam_handle_t *volatile h = h_; void *volatile z = 0; if (h == z) return PAM_SYSTEM_ERR; CHECK((void *)h == &p_handle && p_open == 1, "PAM closed twice (%p %d)", (void *)h, p_open); p_open--; return PAM_SUCCESS; }
static int in_calls, in_ret; static onion_request *cur; static int in_ok;
static onion_connection_status inside(void *p, onion_request *r, onion_response *res) { in_calls++; CHECK(p == &in_calls && r == cur, "the handler inside gets other data"); CHECK(in_ok || p_yes, "the protected handler runs for a request that is not authenticated"); if (in_ret) onion_response_write0(res, "secret"); return in_ret; }
static void b64(buf *o, const unsigned char *d, size_t n) { static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (size_t i = 0; i < n; i += 3) { unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); b_ch(o, A[v >> 18]); b_ch(o, A[v >> 12 & 63]); b_ch(o, i + 1 < n ? A[v >> 6 & 63] : '='); b_ch(o, i + 2 < n ? A[v & 63] : '='); } }
static void text(char *o, size_t n, int colon) { for (size_t i = 0; i < n; i++) { int c = vf_rnd(3) ? 'a' + vf_rnd(26) : vf_rnd(2) ? 1 + vf_rnd(255) : ":= \"'%"[vf_rnd(6)]; o[i] = c == ':' && !colon ? 'c' : c; } o[n] = 0; }
static size_t plen(size_t max) { size_t n = vf_rnd(10) ? vf_rnd(12) : vf_rnd(max); return n < max ? n : max - 1; }
#define NS 8
static struct { char id[64]; int in; char user[64]; } ses[NS]; static int ns;
int main(void) {
  vr_setup(); vfa_init();
  while (vf_time()) {
    long base = vfa_live; vr_server.sessions = onion_sessions_mem_new(); ns = 0;
    for (int i = 0; i < NU; i++) { text(acc[i].user, plen(63), 0); text(acc[i].pass, plen(199), 1); acc[i].expired = vf_rnd(5) == 0; }
    char realm[2000]; size_t rl = vf_rnd(4) ? vf_rnd(30) : vf_rnd(vf_rnd(2) ? 300 : 1500); for (size_t i = 0; i < rl; i++) realm[i] = "abcdefg XYZ%.-/"[vf_rnd(15)]; realm[rl] = 0; int sv = vf_rnd(2);
    vf_case("realm %zu service %s:", rl, service[sv]); VF_NT();
    onion_handler *root = onion_handler_auth_pam(realm, service[sv], onion_handler_new((void *)inside, &in_calls, 0));
    memset(realm + rl + 1, 'z', 8);
    for (int step = 1 + vf_rnd(6); step > 0; step--) {
      onion_request *r = cur = vr_new(); onion_response *res; buf h = { 0 }; char user[600] = "", pass[600] = ""; int exact = 0, kind = vf_rnd(12), who = -1; in_ok = 0; p_mode = vf_rnd(5) ? 0 : 1 + vf_rnd(2); p_startfail = vf_rnd(10) == 0; in_ret = vf_rnd(3) ? OCS_PROCESSED : vf_rnd(2) ? OCS_NOT_PROCESSED : OCS_FORBIDDEN;
      r->flags = OR_GET | OR_HTTP11; r->fullpath = onion_low_strdup("/"); r->path = r->fullpath + 1;
      if (ns && vf_rnd(2)) { who = vf_rnd(ns); char c[100]; sprintf(c, "sessionid=%s", ses[who].id); onion_dict_add(r->headers, "Cookie", c, OD_DUP_ALL); in_ok = ses[who].in; vf_more(" [session %d %s", who, in_ok ? "in" : "out"); } else { vf_more(" ["); if (vf_rnd(6) == 0) onion_dict_add(r->headers, "Cookie", "pam_logged_in=1; sessionid=pam_logged_in", OD_DUP_ALL); }
      if (kind < 8) { // credentials
        int a = vf_rnd(NU); strcpy(user, acc[a].user); strcpy(pass, acc[a].pass); exact = 1;
        if (vf_rnd(3) == 0) { int w = vf_rnd(5); if (w == 0) text(pass, plen(300), 1); else if (w == 1) strcat(pass, "x"); else if (w == 2) { if (*pass) pass[strlen(pass) - 1] = 0; } else if (w == 3) text(user, plen(300), 0); else strcpy(pass, acc[vf_rnd(NU)].pass); }
        buf c = { 0 }; b_str(&c, user); int nocolon = vf_rnd(12) == 0; if (nocolon) exact = 0; else { b_ch(&c, ':'); b_str(&c, pass); } b_str(&h, "Basic "); b64(&h, c.d, c.n); free(c.d);
        if (kind == 7 && h.n > 7) { h.d[--h.n] = 0; exact = 0; } // not whole groups
      } else if (kind == 8) b_str(&h, (char *[]) { "Basic", "Basic ", "Basi", "B", "", "Basic =", "Basic ====", "Basic A", "Digest username=\"x\"", "Bearer dXNlcjpwYXNz", "Basic Og==", "Basic  Og==" }[vf_rnd(12)]);
      else if (kind == 9) { b_str(&h, vf_rnd(2) ? "Basic " : "Basic"); char g[300]; text(g, plen(299), 1); b_str(&h, g); }
      else h.n = 0;
      if (kind < 10) { onion_dict_add(r->headers, "Authorization", h.d ? (char *)h.d : "", OD_DUP_ALL); vf_more(" auth %s", vf_hex(h.d, h.n)); } free(h.d);
      vf_more(" mode %d%s ret %d]", p_mode, p_startfail ? "f" : "", in_ret);
      p_asked = p_yes = in_calls = 0; vr_out.n = 0; res = onion_response_new(r);
      int st = onion_handler_handle(root, r, res);
      CHECK(p_open == 0, "PAM is left open");
      int let = in_ok || p_yes; CHECK(in_calls == (let ? 1 : 0), "authenticated %d, the handler ran %d times", let, in_calls);
      if (in_ok) CHECK(p_asked == 0 || p_asked == 1, "PAM asked %d times", p_asked);
      else if (exact) { CHECK(p_asked == 1 && !strcmp(p_user, user) && !strcmp(p_svc, service[sv]), "PAM is asked for user \"%s\" of %s", p_user, p_svc); if (!p_startfail) { CHECK(!strcmp(p_pass, pass), "PAM is told another password"); int good = 0; for (int i = 0; i < NU; i++) if (!strcmp(acc[i].user, user) && !strcmp(acc[i].pass, pass)) { good = !acc[i].expired; break; } CHECK(let == (good && p_mode == 0), "account good %d mode %d, let in %d", good, p_mode, let); } }
      else if (kind >= 10) CHECK(p_asked == 0, "PAM asked without credentials");
      if (let) CHECK(st == in_ret, "the answer of the handler inside is %d, returned %d", in_ret, st);
      else { CHECK(st == OCS_PROCESSED, "refused with %d", st); CHECK(res->code == 401, "refused with code %d", res->code); char w[2100]; snprintf(w, sizeof w, "Basic realm=\"%s\"", realm); const char *g = onion_dict_get(res->headers, "WWW-Authenticate"); CHECK(g && !strcmp(g, w), "WWW-Authenticate: %s", g ? g : "(none)"); }
      char id[64] = ""; if (r->session_id) snprintf(id, sizeof id, "%s", r->session_id);
      if (who >= 0 && in_ok) CHECK(!strcmp(id, ses[who].id), "another session");
      if (p_yes) { CHECK(r->session, "no session after login"); const char *u = onion_dict_get(r->session, "username"), *l = onion_dict_get(r->session, "pam_logged_in"); CHECK(u && l && !strcmp(u, p_user), "the session holds user %s", u ? u : "(none)"); }
      else if (who < 0 && r->session) { CHECK(!onion_dict_get(r->session, "pam_logged_in"), "a session is logged in without PAM"); CHECK(onion_dict_count(r->session) == 0, "a refused request is remembered"); if (vf_rnd(2)) onion_dict_add(r->session, vf_rnd(2) ? "other" : "username", "x", OD_DUP_ALL); }
      int keep = r->session && onion_dict_count(r->session) > 0; onion_response_free(res);
      if (!let) { CHECK(vr_out.n > 12 && !memcmp(vr_out.d + 8, " 401", 4), "no 401 sent"); CHECK(!memmem(vr_out.d, vr_out.n, "secret", 6), "the protected text is sent"); }
      if (keep && who >= 0 && p_yes) { ses[who].in = 1; } else if (keep && who < 0 && ns < NS) { strcpy(ses[ns].id, id); ses[ns++].in = p_yes > 0; }
      onion_request_free(r);
    }
    onion_handler_free(root); onion_sessions_free(vr_server.sessions); vr_server.sessions = 0; static int warm; if (warm++) CHECK(vfa_live == base, "%ld blocks of memory are left", vfa_live - base); vf_sample();
  }
  return vf_done();
}
