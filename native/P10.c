// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
int main(void) {
  vr_setup(); buf o = { 0 }; expect e;
  while (vf_time()) {
    vr_gen(&o, &e, G_HDR | G_QUERY);
    if (vf_rnd(12) == 0) { // an unknown method: prefix, extension, other case or any token
      char m[40]; const char *k = vr_methods[vf_rnd(11)]; int t = vf_rnd(4), known = 0;
      if (t == 0) snprintf(m, 40, "%.*s", 1 + (int)vf_rnd(strlen(k)), k); else if (t == 1) snprintf(m, 40, "%s%c", k, 'A' + (int)vf_rnd(26)); else if (t == 2) { snprintf(m, 40, "%s", k); m[vf_rnd(strlen(k))] ^= 32; } else vr_rndname(m, 1 + vf_rnd(12));
      for (int i = 0; i < 11; i++) known |= !strcmp(m, vr_methods[i]);
      if (!known) { buf n = { 0 }; b_str(&n, m); unsigned char *sp = memchr(o.d, ' ', o.n); b_add(&n, sp, o.n - (sp - o.d)); free(o.d); o = n; e.status = OCS_NOT_IMPLEMENTED; }
    }
    int mode = vf_rnd(4); size_t cut = vf_rnd(o.n);
    vf_case("mode %d cut %zu request: %s", mode, cut, vf_hex(o.d, o.n)); VF_NT();
    onion_request *r = vr_new(); vr_check(r, &e, vr_feed(r, o.d, o.n, mode, cut)); onion_request_free(r); ex_free(&e); vf_sample();
  }
  return vf_done();
}
