// SOURCES: dict.c block.c codecs.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "vfalloc.h"
#include "dict.h"
#include "types_internal.h"
// every combination of ownership flags; borrowed storage must never be freed or changed, owned storage exactly once
#define NB 8
static char *bk[NB], *bv_[NB];
#define ND 4
static onion_dict *d[ND]; static int refs[ND];
static char *hk(const char *s) { size_t n = strlen(s) + 1; char *p = vfa_malloc(n); memcpy(p, s, n); return p; }
static onion_dict *sub(int depth) { onion_dict *r = onion_dict_new(); int n = vf_rnd(4); for (int i = 0; i < n; i++) { char k[8]; sprintf(k, "s%u", vf_rnd(6)); if (depth && !vf_rnd(3)) onion_dict_add(r, k, sub(depth - 1), OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | (vf_rnd(2) ? OD_REPLACE : 0)); else onion_dict_add(r, k, "val", OD_DUP_ALL | (vf_rnd(2) ? OD_REPLACE : 0)); } return r; }
static char ser[2][200000]; static size_t sl[2]; static int sw;
static void put(const char *s) { size_t n = strlen(s); if (sl[sw] + n + 1 < sizeof ser[0]) { memcpy(ser[sw] + sl[sw], s, n + 1); sl[sw] += n; } }
static void walk(void *x, const char *k, const void *v, int fl) { put(k); put("="); if (fl & OD_DICT) { put("{"); onion_dict_preorder((void *)v, walk, 0); put("}"); } else put(v); put(";"); }
static int nshared; static void shared_(const onion_dict *o, const char *k, const void *v, int fl) { if (fl & OD_DICT) { if (onion_dict_get_dict(o, k) == v) nshared++; } else if (onion_dict_get(o, k) == v) nshared++; }
int main(void) {
  vf_init(); vf_quiet(); vfa_init();
  while (vf_time()) {
    for (int i = 0; i < NB; i++) { char t[8]; sprintf(t, "k%d", i); bk[i] = vf_str(t, 2); t[0] = 'v'; bv_[i] = vf_str(t, 2); }
    long base = vfa_live; memset(refs, 0, sizeof refs);
    onion_dict *inner[NB] = {0}; int ninner = 0;
    d[0] = onion_dict_new(); refs[0] = 1; vf_case("ownership:"); VF_NT();
    int steps = 1 + vf_rnd(40);
    for (int s = 0; s < steps; s++) {
      int i = vf_rnd(ND), j = vf_rnd(ND), k = vf_rnd(NB), v = vf_rnd(NB), rep = vf_rnd(2) ? OD_REPLACE : 0;
      if (!refs[i]) { if (vf_rnd(3) == 0) { d[i] = onion_dict_new(); refs[i] = 1; vf_more(" new%d", i); if (!vf_rnd(3)) { onion_dict_set_flags(d[i], OD_ICASE); vf_more("i"); } } continue; }
      switch (vf_rnd(9)) {
      case 0: vf_more(" %d:borrow(k%d,v%d)%d", i, k, v, rep); onion_dict_add(d[i], bk[k], bv_[v], rep); break;
      case 1: vf_more(" %d:dup(k%d,v%d)%d", i, k, v, rep); { char *a = hk(bk[k]), *b = hk(bv_[v]); onion_dict_add(d[i], a, b, OD_DUP_ALL | rep); memset(a, '#', strlen(a)); memset(b, '#', strlen(b)); vfa_free(a); vfa_free(b); } break;
      case 2: vf_more(" %d:give(k%d,v%d)%d", i, k, v, rep); onion_dict_add(d[i], hk(bk[k]), hk(bv_[v]), OD_FREE_ALL | rep); break;
      case 3: { int f = (vf_rnd(2) ? OD_DUP_KEY : 0) | (vf_rnd(2) ? OD_DUP_VALUE : 0); vf_more(" %d:mix%x(k%d,v%d)%d", i, f, k, v, rep); onion_dict_add(d[i], bk[k], bv_[v], f | rep); } break;
      case 4: { int f = vf_rnd(3); vf_more(" %d:dict%d(k%d)%d", i, f, k, rep);
          if (f == 0) onion_dict_add(d[i], bk[k], sub(2), OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | rep);
          else if (f == 1) { onion_dict *x = sub(2); onion_dict_add(d[i], bk[k], x, OD_DUP_ALL | OD_DICT | rep); onion_dict_free(x); }
          else if (ninner < NB) { inner[ninner] = sub(1); onion_dict_add(d[i], bk[k], inner[ninner], OD_DICT | rep); ninner++; } } break;
      case 5: vf_more(" %d:del(k%d)", i, k); onion_dict_remove(d[i], bk[k]); break;
      case 6: if (refs[i] < 4) { vf_more(" ref%d", i); CHECK(onion_dict_dup(d[i]) == d[i], "dup is another dict"); refs[i]++; } break;
      case 7: vf_more(" unref%d", i); { int c = onion_dict_count(d[i]); onion_dict_free(d[i]); if (--refs[i]) CHECK(onion_dict_count(d[i]) == c, "a referenced dict lost entries"); } break;
      case 8: if (!refs[j]) { vf_more(" hard_dup%d>%d", i, j); d[j] = onion_dict_hard_dup(d[i]); refs[j] = 1;
          sw = 0; sl[0] = 0; ser[0][0] = 0; onion_dict_preorder(d[i], walk, 0); sw = 1; sl[1] = 0; ser[1][0] = 0; onion_dict_preorder(d[j], walk, 0);
          CHECK(!strcmp(ser[0], ser[1]), "deep copy differs:\n%.500s\n%.500s", ser[0], ser[1]);
          CHECK(d[j]->cmp == d[i]->cmp, "deep copy compares keys differently"); nshared = 0; onion_dict_preorder(d[i], shared_, d[j]); CHECK(!nshared, "deep copy shares %d values with the original", nshared); }
        else if (i != j) { vf_more(" merge%d>%d", i, j); int a = onion_dict_count(d[i]), b = onion_dict_count(d[j]); if (a + b < 200) { onion_dict_merge(d[j], d[i]); CHECK(onion_dict_count(d[i]) == a, "merge changed its source"); } } break;
      }
      for (int x = 0; x < ND; x++) if (refs[x]) { sw = 0; sl[0] = 0; onion_dict_preorder(d[x], walk, 0); }   // touches every key and value: dangling ones are caught by ASan
      for (int x = 0; x < NB; x++) CHECK(bk[x][0] == 'k' && bv_[x][0] == 'v' && bk[x][2] == 0, "borrowed storage changed");
    }
    vf_sample();
    for (int i = 0; i < ND; i++) while (refs[i]) { onion_dict_free(d[i]); refs[i]--; }
    for (int i = 0; i < ninner; i++) { sw = 0; sl[0] = 0; onion_dict_preorder(inner[i], walk, 0); onion_dict_free(inner[i]); }
    CHECK(vfa_live == base, "%ld allocations leaked (or freed twice)", vfa_live - base);
    for (int i = 0; i < NB; i++) { free(bk[i]); free(bv_[i]); }
  }
  return vf_done();
}
