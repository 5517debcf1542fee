// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
int main(void) {
  vr_setup(); buf o = { 0 }; expect e;
  while (vf_time()) {
    vr_gen(&o, &e, G_MULTI | G_LIMIT); int mode = vf_rnd(4); size_t cut = vf_rnd(o.n);
    vf_case("mode %d cut %zu request: %s", mode, cut, vf_hex(o.d, o.n)); VF_NT();
    onion_request *r = vr_new(); int st = vr_feed_faulty(r, o.d, o.n, mode, cut);
    if (vr_mkfailed || vr_wfailed) CHECK(st < 0, "status %d although a temporary file could not be %s", st, vr_mkfailed ? "created" : "written"); else if (!vr_wshort || st == OCS_REQUEST_READY) vr_check(r, &e, st);   // a short write may be refused, but never loses bytes onion_request_free(r); ex_free(&e); vf_sample();
  }
  return vf_done();
}
