// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
// a client that reads one response: status line, headers, body by its framing; compares with what the handler wrote
static int shortw, failat; static size_t written;
static ssize_t w_write(onion_request *r, const char *d, size_t n) {
  if (failat >= 0 && written >= (size_t)failat) return vf_rnd(2) ? -1 : 0;
  if (shortw && n > 1 && vf_rnd(2)) n = 1 + vf_rnd(n - 1);
  b_add(&vr_out, d, n); written += n; return n;
}
#include "vfwire.h"
int main(void) {
  vr_setup(); vfa_init(); vr_lp.write = w_write; static unsigned char data[1 << 17]; for (size_t i = 0; i < sizeof data; i++) data[i] = vf_rnd(256);
  { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); failat = -1; onion_response_free(onion_response_new(r)); onion_request_free(r); }
  static const int codes[] = { 200, 201, 206, 302, 304, 400, 404, 500, 777, 99999 };
  while (vf_time()) {
    long live = vfa_live; int head = vf_rnd(4) == 0, v11 = vf_rnd(3) != 0, conn = vf_rnd(3); vr_out.n = 0; written = 0; shortw = vf_rnd(3) == 0; failat = vf_rnd(8) ? -1 : (int)vf_rnd(4000);
    buf rq = { 0 }; static const char *ms[] = { "GET", "GET", "GET", "POST", "OPTIONS", "DELETE", "PROPFIND", "MKCOL" }; const char *meth = head ? "HEAD" : ms[vf_rnd(8)]; int post = !strcmp(meth, "POST"); b_fmt(&rq, "%s / HTTP/1.%d\r\n%s", meth, v11, conn == 1 ? "Connection: close\r\n" : conn == 2 ? "Connection: Keep-Alive\r\n" : ""); vr_more(&rq); b_str(&rq, post ? "Content-Type: text/plain\r\nContent-Length: 5\r\n\r\nhello" : "\r\n");
    vf_case("%s HTTP/1.%d conn %d short %d fail at %d ops:", meth, v11, conn, shortw, failat); VF_NT();
    onion_request *r = vr_new(); CHECK(vr_feed(r, rq.d, rq.n, 0, 0) == OCS_REQUEST_READY, "request"); free(rq.d);
    onion_response *res = onion_response_new(r); buf want = { 0 }; kv hdr = { .n = 0 }; int code = 200, skip = 0; long setlen = -1; int hs = 0;
    // the plan of the body first, so that a length may be announced
    int nw = vf_rnd(6); size_t ln[8], tot = 0; for (int i = 0; i < nw; i++) { ln[i] = vf_rnd(4) ? vf_rnd(60) : vf_rnd(3) ? (vf_rnd(3) ? vf_rnd(3000) : 509 + vf_rnd(6)) : vf_rnd(3) ? 1024 * (1 + vf_rnd(6)) - 2 + vf_rnd(5) : vf_rnd(60000); tot += ln[i]; }
    int nh = vf_rnd(4) ? vf_rnd(4) : vf_rnd(60);
    for (int i = 0; i < nh; i++) { char k[40], v[2000]; k[0] = 'X'; vr_rndname(k + 1, 1 + vf_rnd(10)); size_t n = vf_rnd(9) ? vf_rnd(40) : vf_rnd(1900); for (size_t j = 0; j < n; j++) v[j] = 33 + vf_rnd(90); v[n] = 0; int dup = 0; for (int j = 0; j < hdr.n; j++) if (!strcmp(hdr.e[j].k, k)) { dup = 1; free(hdr.e[j].v); hdr.e[j].v = (void *)vf_str(v, n); hdr.e[j].n = n; } onion_response_set_header(res, k, v); if (!dup) kv_add(&hdr, k, v, n); }
    if (vf_rnd(2)) { code = codes[vf_rnd(10)]; onion_response_set_code(res, code); }
    if (vf_rnd(3) == 0) { setlen = tot; if (vf_rnd(6) == 0) setlen += (long)vf_rnd(5) - 2; if (setlen < 0) setlen = 0; onion_response_set_length(res, setlen); vf_more(" length %ld", setlen); }
    size_t at = 0; int explicit_h = vf_rnd(6) == 0;
    for (int i = 0; i <= nw; i++) {
      if (explicit_h && i == 0) { vf_more(" headers"); int x = onion_response_write_headers(res); CHECK((x == OR_SKIP_CONTENT) == head, "write_headers gives %d for %s", x, head ? "HEAD" : "GET"); hs = 1; }
      if (i == nw) break; size_t n = ln[i]; at = vf_rnd(sizeof data - n); int k = vf_rnd(8);
      if (k == 0 && n && !vf_rnd(3)) { size_t m = 256u << vf_rnd(4); m = m - 3 + vf_rnd(6); if (m <= n) { n = m; } }
      if (k == 0 && n) { char *s = vf_str(data + at, n); for (size_t j = 0; j < n; j++) if (!s[j]) s[j] = '0'; vf_more(" printf %zu", n); onion_response_printf(res, "%s", s); b_add(&want, s, n); free(s); }
      else if (k == 1) { char *s = vf_str(data + at, n); for (size_t j = 0; j < n; j++) if (!s[j]) s[j] = '0'; vf_more(" write0 %zu", n); onion_response_write0(res, s); b_add(&want, s, n); free(s); }
      else { vf_more(" write %zu", n); char *p = vf_dup(data + at, n); ssize_t x = onion_response_write(res, p, n); free(p); b_add(&want, data + at, n); if (!head && failat < 0) CHECK(x == n, "write of %zu gives %zd", n, x); }
      if (vf_rnd(8) == 0) { vf_more(" flush"); onion_response_flush(res); }
    }
    onion_connection_status s = onion_response_free(res);
    CHECK(s == OCS_KEEP_ALIVE || s == OCS_CLOSE_CONNECTION, "status %d", s);
    int keep = v11 ? conn != 1 : conn == 2;
    if (failat < 0) { wire w; parse(&w, head);
      CHECK(w.http11 == v11 && w.code == code, "status HTTP/1.%d %d, want HTTP/1.%d %d", w.http11, w.code, v11, code);
      for (int i = 0; i < hdr.n; i++) { int f = 0; for (int j = 0; j < w.hdr.n; j++) f += !strcmp(w.hdr.e[j].k, hdr.e[i].k) && !strcmp((char *)w.hdr.e[j].v, (char *)hdr.e[i].v); CHECK(f == 1, "header %s sent %d times", hdr.e[i].k, f); }
      CHECK(w.hdr.n >= hdr.n, "headers");
      CHECK(w.end == vr_out.n || (setlen >= 0 && setlen < (long)want.n), "%zu stray bytes after the response", vr_out.n - w.end);
      if (!head) { size_t L = w.body.n; if (setlen >= 0 && setlen < (long)want.n) { CHECK(L <= want.n && !memcmp(w.body.d, want.d, L), "body differs"); } else CHECK(L == want.n && (!L || !memcmp(w.body.d, want.d, L)), "body of %zu bytes arrives as %zu bytes (%s)", want.n, L, w.chunked ? "chunked" : w.clen >= 0 ? "length" : "close");
        if (!w.complete) CHECK(s == OCS_CLOSE_CONNECTION && setlen > (long)want.n, "incomplete body, status %d", s); }
      CHECK(!w.chunked || v11, "chunked to an HTTP/1.0 client");
      if (s == OCS_KEEP_ALIVE) { CHECK(keep, "connection kept although the client did not ask"); CHECK(head || (w.complete == 1 && w.end == vr_out.n), "connection kept after a response that is not self-delimited"); CHECK(!w.close, "Connection: Close announced but kept"); }
      else CHECK(!keep || (setlen >= 0 && setlen != (long)want.n) || w.close, "connection closed although it could be kept");
      kv_free(&w.hdr); free(w.body.d);
    } else { // the transport failed: what arrived is a prefix and the connection must not be reused for another response
      if (written >= (size_t)failat && s == OCS_KEEP_ALIVE) { failat = -1; shortw = 0; wire w; size_t n = vr_out.n; int ok = 0; unsigned char *e = memmem(vr_out.d, n, "\r\n\r\n", 4); if (e) { parse(&w, head); ok = w.complete == 1 && (head || (w.body.n == want.n)); kv_free(&w.hdr); free(w.body.d); } CHECK(ok, "writing failed after %zu bytes but the connection is kept", n); }
    }
    free(want.d); kv_free(&hdr); onion_request_free(r); CHECK(vfa_live == live, "%ld blocks leaked", vfa_live - live); vf_sample();
  }
  return vf_done();
}
