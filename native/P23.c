// SOURCES: @all sessions_sqlite3.c sessions_redis.c
// LIBS: -lgnutls -lgcrypt -lsystemd -lsqlite3
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include "vfwire.h"
#include "handler.h"
#include "sessions.h"
#include "sessions_mem.h"
#include "sessions_sqlite3.h"
onion_sessions *onion_sessions_sqlite3_new(const char *database_filename);
#include "sessions_redis.h"
#include <hiredis/hiredis.h>
#include <stdarg.h>
onion_sessions *onion_sessions_redis_new(const char *server_ip, int port);
// a redis server that holds one hash, SESSIONS, and may be down
static kv R_; static int r_down, r_replies; static redisContext r_ctx;
redisContext *redisConnect(const char *ip, int port) { memset(&r_ctx, 0, sizeof r_ctx); return &r_ctx; }
void redisFree(redisContext *c) { CHECK(c == &r_ctx, "redisFree"); kv_free(&R_); }
void freeReplyObject(void *p) { redisReply *r = p; CHECK(r, "frees no reply"); free(r->str); free(r); r_replies--; }
void *redisCommand(redisContext *c, const char *fmt, ...) {
  CHECK(c == &r_ctx, "redis context"); if (r_down) return 0; char cmd[16], hash[16]; CHECK(sscanf(fmt, "%15s %15s", cmd, hash) == 2 && !strcmp(hash, "SESSIONS"), "redis command %s", fmt);
  int n = 0; for (const char *f = fmt; *f; f++) n += *f == '%'; va_list va; va_start(va, fmt); const char *a[2] = { 0 }; size_t l[2] = { 0 }; for (int i = 0; i < n && i < 2; i++) { a[i] = va_arg(va, const char *); if (strstr(fmt, "%b")) l[i] = va_arg(va, size_t); else l[i] = strlen(a[i]); } va_end(va);
  char k[300]; CHECK(n >= 1 && l[0] < sizeof k, "redis key"); memcpy(k, a[0], l[0]); k[l[0]] = 0; int at = -1; for (int i = 0; i < R_.n; i++) if (!strcmp(R_.e[i].k, k)) at = i;
  redisReply *r = calloc(1, sizeof *r); r_replies++; r->type = REDIS_REPLY_INTEGER;
  if (!strcmp(cmd, "HEXISTS")) r->integer = at >= 0; else if (!strcmp(cmd, "HDEL")) { r->integer = at >= 0; if (at >= 0) { free(R_.e[at].k); free(R_.e[at].v); R_.e[at] = R_.e[--R_.n]; } }
  else if (!strcmp(cmd, "HGET")) { if (at < 0) r->type = REDIS_REPLY_NIL; else { r->type = REDIS_REPLY_STRING; r->len = R_.e[at].n; r->str = vf_str(R_.e[at].v, r->len); } }
  else { CHECK(!strcmp(cmd, "HSET") && n == 2, "redis command %s", fmt); r->integer = at < 0; if (at >= 0) { free(R_.e[at].v); R_.e[at].v = (void *)vf_str(a[1], l[1]); R_.e[at].n = l[1]; } else kv_add(&R_, k, a[1], l[1]); }
  return r;
}
// clients with cookies against a real server; what every session holds is known
#define MAXS 24
typedef struct { char id[64]; int live; kv data; } sess;
static sess S[MAXS]; static int nS; static onion *srv; static char dead[MAXS][64]; static int ndead;
static sess *find(const char *id) { for (int i = 0; i < nS; i++) if (S[i].live && !strcmp(S[i].id, id)) return &S[i]; return 0; }
static int everdead(const char *id) { for (int i = 0; i < ndead; i++) if (!strcmp(dead[i], id)) return 1; return 0; }
static void kill_(sess *s) { s->live = 0; kv_free(&s->data); if (ndead < MAXS) strcpy(dead[ndead++], s->id); *s = S[--nS]; }
static void goodid(const char *id) { CHECK(strlen(id) == 32, "session id of %zu characters", strlen(id)); for (const char *c = id; *c; c++) CHECK((*c >= '0' && *c <= '9') || (*c >= 'a' && *c <= 'z') || (*c >= 'A' && *c <= 'Z'), "session id %s", id); }
static char expectid[64], sent[4096], usedid[64]; static int otherlive, touched, freed_, filled; static kv after;
static void put(kv *m, const char *k, const char *v) { for (int i = 0; i < m->n; i++) if (!strcmp(m->e[i].k, k)) { free(m->e[i].v); m->e[i].v = (void *)vf_str(v, strlen(v)); m->e[i].n = strlen(v); return; } kv_add(m, k, v, strlen(v)); }
static void del(kv *m, const char *k) { for (int i = 0; i < m->n; i++) if (!strcmp(m->e[i].k, k)) { free(m->e[i].k); free(m->e[i].v); m->e[i] = m->e[--m->n]; return; } }
static void edit(onion_dict *d, kv *m) {
  int n = vf_rnd(4); for (int i = 0; i < n; i++) { char k[8], v[80]; sprintf(k, "k%d", vf_rnd(5)); if (vf_rnd(3)) { size_t l = vf_rnd(30); for (size_t j = 0; j < l; j++) v[j] = vf_rnd(6) ? 32 + vf_rnd(95) : "\"\\\n\t\r/"[vf_rnd(6)]; v[l] = 0; vf_more(" %s=%zu", k, l); onion_dict_add(d, k, v, OD_DUP_ALL | OD_REPLACE); put(m, k, v); } else { vf_more(" -%s", k); onion_dict_remove(d, k); del(m, k); } }
  if (vf_rnd(5) == 0) { vf_more(" empty"); while (m->n) { onion_dict_remove(d, m->e[0].k); del(m, m->e[0].k); } }
}
static void same(onion_dict *d, kv *m, const char *what) { kv g; CHECK(d, "%s: no session", what); kv_get(&g, d, 0); kv_cmp(what, &g, m); kv_free(&g); }
static onion_connection_status h_root(void *p, onion_request *r, onion_response *res) {
  if (vf_rnd(2)) onion_response_set_code(res, (int[]) { 200, 201, 302, 304, 400, 401, 403, 404, 500, 501 }[vf_rnd(10)]);
  int n = vf_rnd(4); touched = n > 0; if (!touched) return onion_response_write0(res, "x"), OCS_PROCESSED;
  if (n == 1 && expectid[0]) { sess *s = find(expectid); const char *k = s->data.n ? s->data.e[vf_rnd(s->data.n)].k : "none", *v = onion_request_get_session(r, k); CHECK(s->data.n ? v && !strcmp(v, (char *)s->data.e[0].v) | !strcmp(k, s->data.e[0].k) ^ 1 : !v, "value of %s", k); }
  if (n == 2 && vf_rnd(4) == 0) { vf_more(" free"); onion_request_session_free(r); freed_ = 1; if (expectid[0]) { strcpy(usedid, expectid); } CHECK(!r->session && !r->session_id, "session remains after it is freed"); return onion_response_write0(res, "x"), OCS_PROCESSED; }
  onion_dict *d = onion_request_get_session_dict(r); CHECK(d && r->session_id, "no session"); strcpy(usedid, r->session_id);
  if (expectid[0]) { CHECK(!strcmp(usedid, expectid), "cookie %s gets session %s, want %s", sent, usedid, expectid); sess *s = find(usedid); same(d, &s->data, "session data"); for (int i = 0; i < s->data.n; i++) put(&after, s->data.e[i].k, (char *)s->data.e[i].v); }
  else { goodid(usedid); CHECK(!find(usedid) && !everdead(usedid) && !strstr(sent, usedid), "session id %s for cookie %s is not fresh", usedid, sent); CHECK(onion_dict_count(d) == 0, "a new session has data"); }
  edit(d, &after); same(onion_request_get_session_dict(r), &after, "session while the request runs");
  filled = after.n > 0; if (vf_rnd(6) == 0) { vf_more(" free"); onion_request_session_free(r); freed_ = 1; filled = 0; kv_free(&after); if (!otherlive && vf_rnd(2)) { freed_ = 2; d = onion_request_get_session_dict(r); goodid(r->session_id); CHECK(strcmp(r->session_id, usedid), "a freed session is reused"); CHECK(onion_dict_count(d) == 0, "a freed session is back"); strcpy(sent, r->session_id); edit(d, &after); filled = after.n > 0; } }
  onion_response_write0(res, "hello"); return OCS_PROCESSED;
}
static void mkcookie(void) {
  sent[0] = expectid[0] = 0; otherlive = 0; int n = vf_rnd(5);
  for (int i = 0; i < n; i++) {
    char id[80]; int k = vf_rnd(6); if (k < 3 && nS) strcpy(id, S[vf_rnd(nS)].id); else if (k == 3 && ndead) strcpy(id, dead[vf_rnd(ndead)]); else if (k == 4 && nS) { strcpy(id, S[vf_rnd(nS)].id); if (vf_rnd(2)) strcat(id, "x"); else id[vf_rnd(32)] ^= 1; for (char *c = id; *c; c++) if (*c < 33 || *c == ';') *c = 'q'; } else { vr_rndname(id, vf_rnd(40)); }
    const char *nm = vf_rnd(3) ? "sessionid" : vf_rnd(4) == 0 ? "my_sessionid" : vf_rnd(3) == 0 ? "xsessionid" : vf_rnd(2) ? "v=sessionid" : "other"; if (i) strcat(sent, vf_rnd(4) ? "; " : ";"); sprintf(sent + strlen(sent), "%s=%s", nm, id);
    if (!strcmp(nm, "sessionid") && find(id)) { if (!expectid[0]) strcpy(expectid, id); else if (strcmp(id, expectid)) otherlive = 1; }
  }
}
int main(void) {
  vr_setup(); srv = onion_new(O_ONE | O_NO_SIGTERM | O_NO_SIGPIPE); vr_lp.server = srv; srv->root_handler = onion_handler_new(h_root, NULL, NULL); char db[4096]; snprintf(db, sizeof db, "%s/s.db", getenv("VF_DIR") ? getenv("VF_DIR") : ".");
  { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); onion_response_free(onion_response_new(r)); onion_request_free(r); }
  vfa_init(); onion_sessions_free(srv->sessions); srv->sessions = 0;
  while (vf_time()) {
    long live = vfa_live; int rd = vf_rnd(5) == 0, sq = !rd && vf_rnd(4) == 0, file = sq && vf_rnd(8) == 0; unlink(db); srv->sessions = rd ? onion_sessions_redis_new("127.0.0.1", 6379) : sq ? onion_sessions_sqlite3_new(file ? db : ":memory:") : onion_sessions_new(); CHECK(srv->sessions, "backend"); vf_case(rd ? "redis:" : sq ? "sqlite:" : "memory:"); VF_NT(); int steps = 1 + vf_rnd(14);
    onion_request *r = 0;
    for (int q = 0; q < steps; q++) {
      int k = vf_rnd(10);
      if (k == 0 && nS < MAXS - 2) { char *id = onion_sessions_create(srv->sessions); goodid(id); CHECK(!find(id) && !everdead(id), "created id is not fresh"); sess *s = &S[nS++]; memset(s, 0, sizeof *s); s->live = 1; strcpy(s->id, id); vf_more(" create"); onion_low_free(id); }
      else if (k == 1) { const char *id = vf_rnd(3) && nS ? S[vf_rnd(nS)].id : ndead ? dead[vf_rnd(ndead)] : "nobody"; sess *s = find(id); vf_more(" get %d", !!s); onion_dict *d = onion_sessions_get(srv->sessions, id); CHECK(!d == !s, "session %s %s", id, d ? "exists" : "is lost"); if (d) { same(d, &s->data, "stored session"); if (vf_rnd(2)) { edit(d, &s->data); onion_sessions_save(srv->sessions, id, d); } onion_dict_free(d); } }
      else if (k == 2) { char id[64]; strcpy(id, vf_rnd(3) && nS ? S[vf_rnd(nS)].id : "nobody"); sess *s = find(id); vf_more(" remove %d", !!s); onion_sessions_remove(srv->sessions, id); if (s) kill_(s); onion_dict *d = onion_sessions_get(srv->sessions, id); CHECK(!d, "removed session is still there"); }
      else if (nS < MAXS - 4) {
        if (!r) r = vr_new(); mkcookie(); buf rq = { 0 }; b_fmt(&rq, "GET / HTTP/1.1\r\n"); vr_more(&rq); if (sent[0]) { b_str(&rq, "Cookie: "); b_str(&rq, sent); b_str(&rq, "\r\n"); } b_str(&rq, "\r\n"); vf_more(" [%s", sent); vr_out.n = 0; touched = freed_ = filled = 0; usedid[0] = 0; kv_free(&after);
        CHECK(vr_feed(r, rq.d, rq.n, vf_rnd(3), 0) == OCS_REQUEST_READY, "request"); free(rq.d); int st = onion_request_process(r); vf_more("]"); CHECK(st >= 0, "status %d", st); wire w; parse(&w, 0);
        const char *ck = 0; for (int i = 0; i < w.hdr.n; i++) if (!strcasecmp(w.hdr.e[i].k, "Set-Cookie")) { CHECK(!ck, "two cookies"); ck = (char *)w.hdr.e[i].v; }
        const char *final = freed_ == 2 ? sent : usedid;
        if (touched && filled) { CHECK(ck && !strncmp(ck, "sessionid=", 10) && !strncmp(ck + 10, final, 32) && ck[42] == ';' && strcasestr(ck, "httponly"), "cookie %s, want session %s", ck ? ck : "(none)", final); } else CHECK(!ck || !touched, "cookie %s although there is no session", ck);
        kv_free(&w.hdr); free(w.body.d);
        if (touched) { sess *s = usedid[0] ? find(usedid) : 0; char fin[64]; strcpy(fin, final);
          if (freed_ || after.n == 0) { if (s) kill_(s); else if (usedid[0] && ndead < MAXS) strcpy(dead[ndead++], usedid); }
          if (!(freed_ == 1) && after.n) { s = find(fin); if (!s) { s = &S[nS++]; memset(s, 0, sizeof *s); s->live = 1; strcpy(s->id, fin); } kv_free(&s->data); for (int i = 0; i < after.n; i++) put(&s->data, after.e[i].k, (char *)after.e[i].v); } }
        if (vf_rnd(2)) { onion_request_free(r); r = 0; }
      }
      if (file && vf_rnd(4) == 0 && !r) { vf_more(" restart"); onion_sessions_free(srv->sessions); srv->sessions = onion_sessions_sqlite3_new(db); CHECK(srv->sessions, "backend"); }
      // everything that lives is there, everything that died is not
      for (int i = 0; i < nS; i++) { onion_dict *d = onion_sessions_get(srv->sessions, S[i].id); same(d, &S[i].data, "live session"); onion_dict_free(d); }
      for (int i = 0; i < ndead; i++) { onion_dict *d = onion_sessions_get(srv->sessions, dead[i]); CHECK(!d, "dead session %s is back", dead[i]); }
    }
    if (r) onion_request_free(r);
    if (rd && vf_rnd(4) == 0) { vf_more(" down"); r_down = 1; const char *id = nS ? S[0].id : "nobody"; onion_dict *d = onion_sessions_get(srv->sessions, id); CHECK(!d, "a session from a redis that is down"); d = onion_dict_new(); onion_sessions_save(srv->sessions, id, d); onion_dict_free(d); onion_sessions_remove(srv->sessions, id); r_down = 0; }
    CHECK(r_replies == 0, "%d redis replies leaked", r_replies); onion_sessions_free(srv->sessions); srv->sessions = 0; for (int i = 0; i < nS; i++) kv_free(&S[i].data); nS = ndead = 0; kv_free(&after);
    CHECK(vfa_live == live, "%ld blocks leaked", vfa_live - live); vf_sample();
  }
  unlink(db); return vf_done();
}
