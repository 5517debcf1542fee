// SOURCES: block.c low.c log.c
#include "vf.h"
#include "block.h"
#define N 3
static onion_block *bl[N]; static unsigned char *m[N]; static size_t ml[N], mc[N];
static void app(int i, const void *d, size_t n) { if (ml[i] + n > mc[i]) { mc[i] = (ml[i] + n) * 2 + 64; m[i] = realloc(m[i], mc[i]); } memmove(m[i] + ml[i], d, n); ml[i] += n; }
static void chk(void) { for (int i = 0; i < N; i++) { CHECK(onion_block_size(bl[i]) == (off_t)ml[i], "block %d: size %ld want %zu", i, (long)onion_block_size(bl[i]), ml[i]); const char *d = onion_block_data(bl[i]); CHECK(!memcmp(d, m[i], ml[i]), "block %d: contents differ", i); CHECK(d[ml[i]] == 0, "block %d: not NUL terminated", i); CHECK(onion_block_size(bl[i]) == (off_t)ml[i], "data() changed the size"); } }
int main(void) {
  vf_init();
  for (int i = 0; i < N; i++) { mc[i] = 64; m[i] = malloc(64); }
  while (vf_time()) {
    for (int i = 0; i < N; i++) { bl[i] = onion_block_new(); ml[i] = 0; }
    vf_case("block history:"); VF_NT();
    int steps = 1 + vf_rnd(60); unsigned char t[3000];
    for (int s = 0; s < steps; s++) {
      int i = vf_rnd(N), j = vf_rnd(N), op = vf_rnd(10); size_t n;
      if (ml[i] > 200000) op = 7;
      switch (op) {
      case 0: case 1: n = vf_rnd(3) ? 1 + vf_rnd(20) : 1; vf_more(" char%zux%d", n, i); while (n--) { char c = vf_rnd(256); onion_block_add_char(bl[i], c); app(i, &c, 1); } break;
      case 2: case 3: n = vf_rnd(4) ? vf_rnd(40) : vf_rnd(3000); for (size_t k = 0; k < n; k++) t[k] = vf_rnd(256); vf_more(" data%zu>%d", n, i); { char *d = vf_dup(t, n); onion_block_add_data(bl[i], d, n); free(d); } app(i, t, n); break;
      case 4: n = vf_rnd(40); for (size_t k = 0; k < n; k++) t[k] = 1 + vf_rnd(255); t[n] = 0; vf_more(" str%zu>%d", n, i); { char *d = vf_str(t, n); onion_block_add_str(bl[i], d); free(d); } app(i, t, n); break;
      case 5: vf_more(" block%d>%d", j, i); if (ml[i] + ml[j] < 400000) { onion_block_add_block(bl[i], bl[j]); if (ml[i] + ml[j] > mc[i]) { mc[i] = (ml[i] + ml[j]) * 2; m[i] = realloc(m[i], mc[i]); } app(i, m[j], ml[j]); } break;
      case 6: n = vf_rnd(ml[i] + 20); vf_more(" rewind%zu>%d", n, i); onion_block_rewind(bl[i], n); ml[i] = n > ml[i] ? 0 : ml[i] - n; break;
      case 7: if (vf_rnd(3)) break; vf_more(" clear>%d", i); onion_block_clear(bl[i]); ml[i] = 0; break;
      case 8: n = vf_rnd(500); vf_more(" min%zu>%d", n, i); onion_block_min_maxsize(bl[i], n); break;
      case 9: if (ml[i]) { size_t o = vf_rnd(ml[i]), l = vf_rnd(ml[i] - o + 1); vf_more(" own%zu+%zu>%d", o, l, i); unsigned char *c = malloc(l + 1); memcpy(c, m[i] + o, l); onion_block_add_data(bl[i], onion_block_data(bl[i]) + o, l); app(i, c, l); free(c); } break;
      }
      chk();
    }
    vf_sample();
    for (int i = 0; i < N; i++) onion_block_free(bl[i]);
  }
  return vf_done();
}
