// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include "vfwire.h"
#include "handler.h"
#include "http.h"
int onion_http_read_ready(onion_request *r);
// a real server (onion_new) behind a fake socket: sequences of requests on one connection, cut anywhere
static const unsigned char *in; static size_t inn, inpos; static int inmode; static int inend; static size_t lastread; static onion *srv;
static ssize_t k_read(onion_request *r, char *d, size_t n) {
  size_t k = inn - inpos; if (!k) return inend; if (k > n) k = n;
  if (inmode == 1) k = 1; else if (inmode == 2) { size_t m = 1 + vf_rnd(vf_rnd(3) ? 9 : 300); if (m < k) k = m; }
  memcpy(d, in + inpos, k); inpos += k; lastread = k; return k;
}
// the handler's plan for the request
static expect want; static int plan_ret, plan_code, plan_pre, plan_err, plan_free, hsent, calls, errcalls; static size_t plan_n; static unsigned char data[1 << 14];
enum { FREE_LEN = 1, FREE_HEADERS = 2 };
static onion_connection_status h_root(void *p, onion_request *r, onion_response *s) {
  calls++; vr_check(r, &want, OCS_REQUEST_READY); CHECK(r->path && r->fullpath && !strcmp(r->path, r->fullpath + 1), "path is not polished"); CHECK(!(r->flags & (OR_INTERNAL_ERROR | OR_NOT_FOUND | OR_NOT_IMPLEMENTED | OR_FORBIDDEN)), "error flags %x set before any error", r->flags);
  if (plan_pre) { if (plan_code) onion_response_set_code(s, plan_code); if (plan_free & FREE_LEN) onion_response_set_length(s, plan_n); if (plan_free & FREE_HEADERS) onion_response_write_headers(s); onion_response_write(s, (char *)data, plan_n); }
  hsent = !!(s->flags & OR_HEADER_SENT); CHECK(hsent || !vr_out.n, "bytes sent before the headers"); return plan_ret;
}
static onion_connection_status h_second(void *p, onion_request *r, onion_response *s) { CHECK(plan_ret == OCS_NOT_PROCESSED, "a handler runs after another took the request"); return OCS_NOT_PROCESSED; }
static onion_connection_status h_err(void *p, onion_request *r, onion_response *s) {
  errcalls++; int f = r->flags & (OR_INTERNAL_ERROR | OR_NOT_FOUND | OR_NOT_IMPLEMENTED | OR_FORBIDDEN), w = plan_ret == OCS_INTERNAL_ERROR ? OR_INTERNAL_ERROR : plan_ret == OCS_NOT_PROCESSED ? OR_NOT_FOUND : plan_ret == OCS_FORBIDDEN ? OR_FORBIDDEN : OR_NOT_IMPLEMENTED;
  CHECK(f == w, "error handler sees flags %x, want %x", f, w); onion_response_set_code(s, 418); onion_response_write0(s, "custom error"); return plan_err;
}
int main(void) {
  vr_setup(); srv = onion_new(O_ONE | O_NO_SIGTERM | O_NO_SIGPIPE); srv->max_post_size = vr_server.max_post_size; srv->max_file_size = vr_server.max_file_size; vr_lp.server = srv; vr_lp.read = k_read; vr_lp.read_ready = onion_http_read_ready;
  onion_handler *root = onion_handler_new(h_root, NULL, NULL), *err0 = srv->internal_error_handler, *err1 = onion_handler_new(h_err, NULL, NULL); onion_handler_add(root, onion_handler_new(h_second, NULL, NULL)); srv->root_handler = root;
  for (size_t i = 0; i < sizeof data; i++) data[i] = 'a' + vf_rnd(26);
  static const int rets[] = { OCS_PROCESSED, OCS_PROCESSED, OCS_NOT_PROCESSED, OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN, OCS_CLOSE_CONNECTION, OCS_KEEP_ALIVE };
  { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); onion_response_free(onion_response_new(r)); onion_request_free(r); }
  vfa_init(); buf rq = { 0 };
  while (vf_time()) {
    long live = vfa_live; int lowfd = vr_lowfd(); onion_request *r = vr_new(); int nreq = 1 + vf_rnd(5), open = 1; vf_case("connection:"); VF_NT();
    for (int q = 0; q < nreq && open; q++) {
      int bad = vf_rnd(12) == 0, cut = vf_rnd(12) == 0; vr_gen(&rq, &want, G_HDR | G_QUERY | G_BODY | G_PUT | G_FORM | G_MULTI | G_COOKIE | G_LIMIT);
      // Connection header right after the request line
      int conn = vf_rnd(3); if (conn) { unsigned char *nl = memchr(rq.d, '\n', rq.n); size_t at = nl - rq.d + 1; buf t = { 0 }; b_add(&t, rq.d, at); vr_header(&t, &want.hdr, vf_rnd(2) ? "Connection" : "connection", conn == 1 ? (vf_rnd(2) ? "close" : "Close") : vf_rnd(2) ? "keep-alive" : "Keep-Alive", 1); b_add(&t, rq.d + at, rq.n - at); rq.n = 0; b_add(&rq, t.d, t.n); free(t.d); }
      if (bad) { if (vf_rnd(2)) { rq.d[0] = 'g'; } else { buf t = { 0 }; b_str(&t, "NOTAMETHOD "); b_add(&t, rq.d, rq.n); rq.n = 0; b_add(&rq, t.d, t.n); free(t.d); } }
      int head = want.method == 2; plan_ret = rets[vf_rnd(8)]; plan_pre = vf_rnd(3) != 0; plan_code = vf_rnd(2) ? 200 + vf_rnd(300) : 0; plan_n = vf_rnd(3) ? vf_rnd(40) : vf_rnd(5000); plan_free = vf_rnd(3) ? 0 : 1 + vf_rnd(3); int custom = vf_rnd(3) == 0; plan_err = vf_rnd(3) ? OCS_PROCESSED : vf_rnd(2) ? OCS_NOT_PROCESSED : OCS_CLOSE_CONNECTION; srv->internal_error_handler = custom ? err1 : err0;
      vf_more(" [%zu bytes, %s%s%s, handler %s%d, ret %d%s]", rq.n, bad ? "bad " : "", cut ? "cut " : "", conn == 0 ? "" : conn == 1 ? "close" : "keep", plan_pre ? "writes " : "", plan_pre ? (int)plan_n : 0, plan_ret, custom ? " custom error handler" : "");
      calls = errcalls = 0; vr_out.n = 0; in = rq.d; inn = cut ? vf_rnd(rq.n) : rq.n; inpos = 0; inmode = vf_rnd(3); inend = vf_rnd(2) ? 0 : -1; int st = OCS_PROCESSED; size_t before = 0;
      while (st >= 0 && calls == 0 && (inpos < inn || cut)) { before = inpos; st = onion_http_read_ready(r); if (!calls) CHECK(vr_out.n == 0, "bytes are sent before any handler ran"); if (inpos == before) break; }
      if (cut) { if (!calls) { CHECK(st < 0, "the connection stays open although the client closed it"); CHECK(!vr_out.n, "response to an incomplete request"); open = 0; } }
      else if (bad) { CHECK(!calls && st < 0, "malformed request: handler called %d times, status %d", calls, st); open = 0; }
      else if (want.status != OCS_REQUEST_READY) { CHECK(!calls && st < 0, "too big request: handler called %d times, status %d", calls, st); open = 0; }
      else CHECK(calls == 1, "%zu bytes of a complete request are sent but the handler was called %d times", inpos, calls);
      if (calls == 1) {
        int iserr = plan_ret == OCS_NOT_PROCESSED || plan_ret == OCS_INTERNAL_ERROR || plan_ret == OCS_NOT_IMPLEMENTED || plan_ret == OCS_FORBIDDEN; int code = plan_pre && plan_code ? plan_code : 200, started = 0;
        const char *body = 0; size_t bn = 0;
        if (plan_pre) { body = (char *)data; bn = plan_n; started = hsent || (plan_n > 0 && plan_ret); }
        if (iserr && !started) { code = custom ? 418 : plan_ret == OCS_NOT_PROCESSED ? 404 : plan_ret == OCS_INTERNAL_ERROR ? 500 : plan_ret == OCS_NOT_IMPLEMENTED ? 501 : 403; body = custom ? "custom error" : NULL; bn = body ? 12 : 0; CHECK(errcalls == custom, "error handler called %d times", errcalls); }
        else CHECK(errcalls == 0, "error handler called although the request was answered");
        wire w; parse(&w, head); CHECK(w.end == vr_out.n || (iserr && started), "%zu bytes after the response: %s", vr_out.n - w.end, vf_hex(vr_out.d, vr_out.n)); CHECK(w.code == code, "status %d, want %d: %s", w.code, code, vf_hex(vr_out.d, vr_out.n));
        if (!head && (body || !iserr)) CHECK(w.body.n == bn && (!bn || !memcmp(w.body.d, body, bn)), "body %s, want %zu bytes", vf_hex(w.body.d, w.body.n), bn); if (!head && iserr && !started && !custom) { char t[40]; sprintf(t, "%d", code); CHECK(w.body.d && memmem(w.body.d, w.body.n, t, 3), "error page %s does not tell %d", vf_hex(w.body.d, w.body.n), code); }
        CHECK(memmem(w.body.d ? w.body.d : (void *)"", w.body.n, "HTTP/1.", 7) == NULL, "a second status line inside the body");
        int keep = want.http11 ? conn != 1 : conn == 2; if (w.close || w.complete != 1) keep = 0; if (plan_ret == OCS_CLOSE_CONNECTION || (iserr && started) || (iserr && custom && plan_err == OCS_CLOSE_CONNECTION)) keep = 0;
        if (keep) CHECK(st >= 0, "connection is closed (%d) although both sides may keep it", st); else CHECK(st < 0, "connection is kept (%d) although it must close", st);
        open = keep; kv_free(&w.hdr); free(w.body.d);
        if (open && inpos < inn && !cut) { // the rest of this request must not disturb the next
          int c = calls; size_t o = vr_out.n; while (inpos < inn && st >= 0) st = onion_http_read_ready(r); CHECK(st >= 0 && calls == c && vr_out.n == o, "%zu trailing bytes of the request break the connection: %s", inn - before, vf_hex(in + before, inn - before > 30 ? 30 : inn - before)); }
      }
      ex_free(&want);
    }
    onion_request_free(r); CHECK(vfa_live == live, "%ld blocks leaked", vfa_live - live); CHECK(vr_lowfd() == lowfd, "descriptors leaked"); vr_files_gone("the connection is closed"); vf_sample();
  }
  return vf_done();
}
