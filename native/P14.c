// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
// whatever was received and wherever the connection ended, freeing or cleaning the request gives back memory, descriptors and temporary files,
// and a cleaned request parses the next one as a fresh request does
int main(void) {
  vr_setup(); vfa_init(); buf o = { 0 }, o2 = { 0 }; expect e, e2; buf a = { 0 }, b = { 0 };
  while (vf_time()) {
    int g = G_HDR | G_QUERY | G_COOKIE | (vf_rnd(3) ? G_BODY | G_PUT | G_FORM | G_MULTI : 0);
    vr_gen(&o, &e, g); size_t n = vf_rnd(3) ? vf_rnd(o.n + 1) : o.n; int bad = vf_rnd(4) == 0; if (bad && n) { o.d[vf_rnd(n)] = "\n:;-\0\r"[vf_rnd(6)]; }
    vf_case("%zu of %zu bytes: %s", n, o.n, vf_hex(o.d, o.n)); VF_NT();
    long live = vfa_live; int fd = vr_lowfd(), mode = vf_rnd(3); onion_request *r = vr_new(); long live1 = vfa_live;
    onion_connection_status s = vr_feed_faulty(r, o.d, n, mode, 0); if (vf_rnd(2) && r->fullpath) { onion_request_get_cookies_dict(r); onion_request_get_cookie(r, "a"); }
    if (vf_rnd(2)) {
      onion_request_clean(r); vr_files_gone("onion_request_clean"); CHECK(vr_lowfd() == fd, "a file descriptor is still open after onion_request_clean");
      CHECK(vfa_live == live1, "%ld blocks still allocated after onion_request_clean", vfa_live - live1);
      vr_gen(&o2, &e2, g); vf_more(" then %s", vf_hex(o2.d, o2.n)); onion_connection_status s2 = vr_feed(r, o2.d, o2.n, mode, 0); vr_check(r, &e2, s2); ex_free(&e2);
    }
    onion_request_free(r); vr_files_gone("onion_request_free"); CHECK(vr_lowfd() == fd, "a file descriptor is still open after onion_request_free");
    CHECK(vfa_live == live, "%ld blocks still allocated after onion_request_free (status %d)", vfa_live - live, s); ex_free(&e); vf_sample();
  }
  return vf_done();
}
