// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
// any byte stream, cut anywhere: same outcome, no memory error, bounded work (ASan/UBSan + alarm)
static void mutate(buf *o) {
  int n = 1 + vf_rnd(4); static const char *frag[] = { "\r\n", "\n", "\r", "\n ", "\r\n\t", ":", " ", "\n\n", "\r\n\r\n", "--", "Content-Length: 5\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999\n", "Content-Length: 4294967297\n", "Content-Length: 4294967296\n",
    "Content-Type: multipart/form-data; boundary=\r\n", "Content-Type: multipart/form-data; boundary=a\n", "Content-Type: boundary\n", "boundary=", "Content-Disposition: form-data; name=", "; filename=\"", "name=\"", "name=x;\r\n", "\"", ";", "%", "%a", "%zz", "?", "&", "=", "PUT ", "POST ", "Content-Type: application/x-www-form-urlencoded\n", "Cookie: ", "Cookie: a=b;;c\n", "\n--a\r\n", "\r\n--a--\r\n", "GET / HTTP/1.1\r\n" };
  while (n-- > 0) { size_t at = o->n ? vf_rnd(vf_rnd(2) ? o->n : o->n < 60 ? o->n : 60) : 0; buf t = { 0 }; int k = vf_rnd(7);
    b_add(&t, o->d ? o->d : (void *)"", at); size_t rest = at;
    if (k == 0) { b_ch(&t, vf_rnd(3) ? vf_rnd(256) : 0); rest = at + (o->n > at); } else if (k == 1) { const char *f = frag[vf_rnd(sizeof frag / sizeof *frag)]; b_str(&t, f); } else if (k == 2) rest = at + vf_rnd(o->n - at < 8 ? o->n - at + 1 : 8);
    else if (k == 3) b_ch(&t, 0); else if (k == 4) { size_t len = (vf_rnd(3) == 0 ? 8180 : 0) + vf_rnd(30); int c = "aa \t:;=%&-\r"[vf_rnd(11)]; while (len-- > 0) b_ch(&t, c); } else if (k == 5) { const char *f = frag[vf_rnd(sizeof frag / sizeof *frag)]; b_str(&t, f); b_str(&t, f); } else if (o->n) { size_t l = vf_rnd(40), p = vf_rnd(o->n); if (p + l > o->n) l = o->n - p; b_add(&t, o->d + p, l); }
    if (rest > o->n) rest = o->n; b_add(&t, o->d ? o->d + rest : (void *)"", o->n - rest); free(o->d); *o = t; }
}
static void one(buf *o, int maxpost) {
  static buf a, b; size_t omp = vr_server.max_post_size, omf = vr_server.max_file_size; if (maxpost) { vr_server.max_post_size = 1 + vf_rnd(maxpost); vr_server.max_file_size = 1 + vf_rnd(maxpost); }
  onion_request *r = vr_new(); onion_connection_status s = vr_feed(r, o->d, o->n, 0, 0), s2; vr_dump(&a, r, s); onion_request_free(r);
  for (int k = 0; k < 2; k++) { int mode = 1 + vf_rnd(3); size_t cut = vf_rnd(o->n + 1); vf_more(k ? "" : " ");
    r = vr_new(); s2 = vr_feed(r, o->d, o->n, mode, cut); vr_dump(&b, r, s2); onion_request_free(r);
    CHECK(a.n == b.n && !memcmp(a.d, b.d, a.n), "cutting the stream (mode %d at %zu) changes the outcome: whole status %d, cut status %d\n%s\n--- vs ---\n%s", mode, cut, s, s2, a.d, b.d); }
  vr_server.max_post_size = omp; vr_server.max_file_size = omf; vr_unlink_all(); vr_ntmp = 0;
}
static void hint(const unsigned char *d, size_t n) { buf o = { 0 }; b_add(&o, d, n); vf_case("hint %s", vf_hex(d, n)); one(&o, 0); free(o.d); }
int main(void) {
  vr_setup(); buf o = { 0 }; expect e; vf_hints(hint);
  while (vf_time()) {
    vr_gen(&o, &e, vf_rnd(2) ? G_HDR | G_QUERY : G_HDR | G_QUERY | G_BODY | G_PUT | G_FORM | G_MULTI); ex_free(&e); if (o.n > 12000) continue;
    int k = vf_rnd(10); if (k == 0) { o.n = vf_bytes(o.d, o.n, "GET POUHD/ :\r\n%=&;?", 0); } else if (k < 9) mutate(&o);
    vf_case("stream: %s", vf_hex(o.d, o.n)); VF_NT(); one(&o, vf_rnd(3) ? 0 : 200); vf_sample();
  }
  return vf_done();
}
