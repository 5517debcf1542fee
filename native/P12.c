// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
int main(void) {
  vr_setup(); buf o = { 0 }; expect e;
  while (vf_time()) {
    vr_gen(&o, &e, G_QUERY | G_FORM); int mode = vf_rnd(4); size_t cut = vf_rnd(o.n);
    vf_case("mode %d cut %zu request: %s", mode, cut, vf_hex(o.d, o.n)); VF_NT();
    onion_request *r = vr_new(); vr_check(r, &e, vr_feed(r, o.d, o.n, mode, cut)); onion_request_free(r); ex_free(&e); vf_sample();
  }
  return vf_done();
}
