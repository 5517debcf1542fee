// SOURCES: dict.c block.c codecs.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "vfalloc.h"
#include <strings.h>
#include <math.h>
#include "dict.h"
#include "types_internal.h"
// model: multimap key class -> values; dict must behave like it
#define MAXE 4000
static struct { char k[12]; int v; int alive; } e[MAXE]; static int ne, live, icase;
static long cmps;
static int (*realcmp)(const char *, const char *);
static int countcmp(const char *a, const char *b) { cmps++; return realcmp(a, b); }
static int mc(const char *a, const char *b) { return icase ? strcasecmp(a, b) : strcmp(a, b); }
static const char *key(char *o, int space) { static const char *al = "abAB\x80z"; int n = vf_rnd(4), i; for (i = 0; i < n; i++) o[i] = al[vf_rnd(space)]; o[n] = 0; return o; }
static struct { char k[12]; int v; } got[MAXE]; static int ng; static int bad;
static void coll(void *d, const char *k, const void *v, int flags) { if (d != &ng || ng >= MAXE) { bad = 1; return; } snprintf(got[ng].k, 12, "%s", k); got[ng++].v = atoi((const char *)v); }
static int has(const char *k, int v) { for (int i = 0; i < ne; i++) if (e[i].alive && e[i].v == v && !mc(e[i].k, k)) return i; return -1; }
static int mult(const char *k) { int c = 0; for (int i = 0; i < ne; i++) c += e[i].alive && !mc(e[i].k, k); return c; }
static void lookup(onion_dict *d, const char *k) {
  cmps = 0; const char *g = onion_dict_get(d, k); int m = mult(k);
  CHECK((g != NULL) == (m > 0), "get(\"%s\") %s but %d entries exist", k, g ? g : "NULL", m);
  if (g) CHECK(has(k, atoi(g)) >= 0, "get(\"%s\")=%s is not a value stored under it", k, g);
  CHECK(cmps <= 2 * log2(live + 1) + 2, "lookup in %d entries took %ld comparisons", live, cmps);
  CHECK(onion_dict_get_dict(d, k) == NULL, "string value returned as a dict");
}
// collects the dict and, allowing for at most one entry with key rk to have gone, brings the model in step
static void sync_(onion_dict *d, const char *rk, int gone) {
  ng = 0; onion_dict_preorder(d, coll, &ng);
  CHECK(!bad, "preorder broken"); CHECK(ng == live - gone, "preorder visits %d entries, expected %d", ng, live - gone);
  CHECK(onion_dict_count(d) == ng, "count %d but preorder visits %d", onion_dict_count(d), ng);
  for (int i = 1; i < ng; i++) CHECK(mc(got[i - 1].k, got[i].k) <= 0, "preorder out of key order at %d", i);
  static char hit[MAXE]; memset(hit, 0, ne);
  for (int i = 0; i < ng; i++) { int f = -1; for (int j = 0; j < ne; j++) if (e[j].alive && !hit[j] && e[j].v == got[i].v && !strcmp(e[j].k, got[i].k)) { f = j; break; } CHECK(f >= 0, "entry (%s,%d) never stored, lost its key or visited twice", got[i].k, got[i].v); hit[f] = 1; }
  for (int j = 0; j < ne; j++) if (e[j].alive && !hit[j]) { CHECK(rk && !mc(e[j].k, rk), "entry (%s,%d) disappeared", e[j].k, e[j].v); e[j].alive = 0; live--; }
}
int main(void) {
  vf_init(); vf_quiet(); vfa_init();
  while (vf_time()) {
    onion_dict *d = onion_dict_new(); icase = vf_rnd(3) == 0; if (icase) onion_dict_set_flags(d, OD_ICASE);
    realcmp = d->cmp; d->cmp = countcmp; ne = live = 0;
    vf_case("dict%s:", icase ? " icase" : ""); VF_NT();
    int steps = vf_rnd(20) ? 1 + vf_rnd(50) : 400, space = 2 + vf_rnd(5), dups = vf_rnd(2), seq = vf_rnd(3) == 0; char k[12];
    for (int s = 0; s < steps; s++) {
      if (seq) sprintf(k, "k%03d", vf_rnd(3) ? s % 300 : (int)vf_rnd(300)); else key(k, space);
      int op = vf_rnd(10), before;
      if (op < 5) {
        int fl = (dups && vf_rnd(2)) ? 0 : OD_REPLACE; char v[16]; sprintf(v, "%d", ne); vf_more(" add(%s,%s,%s)", k, v, fl ? "R" : "");
        before = mult(k); char *kk = vf_str(k, strlen(k)); onion_dict_add(d, kk, v, OD_DUP_ALL | fl); free(kk);
        strcpy(e[ne].k, k); e[ne].v = ne; e[ne].alive = 1; ne++; live++;
        sync_(d, k, fl && before ? 1 : 0); CHECK(has(k, ne - 1) == ne - 1, "the added value was the one dropped");
        if (fl && before <= 1) CHECK(atoi(onion_dict_get(d, k)) == ne - 1, "replaced key does not give the new value");
      } else if (op < 8) {
        before = mult(k); vf_more(" del(%s)", k); CHECK(!!onion_dict_remove(d, k) == !!before, "remove does not report whether it removed an entry"); sync_(d, k, before ? 1 : 0);
      } else { vf_more(" get(%s)", k); }
      lookup(d, k);
      if (vf_rnd(8) == 0 && !dups) for (int i = 0; i < ne; i++) if (e[i].alive) { const char *g = onion_dict_get(d, e[i].k); CHECK(g && atoi(g) == e[i].v, "get(%s) is %s, want %d", e[i].k, g ? g : "NULL", e[i].v); }
    }
    if (vf_rnd(6) == 0) { // a merge adds every entry of the other
      onion_dict *m = onion_dict_new(); onion_dict_merge(m, d); d->cmp = realcmp; int c = onion_dict_count(m); CHECK(c <= live && (c > 0) == (live > 0), "merge holds %d of %d", c, live); onion_dict_free(m);
    }
    vf_sample(); onion_dict_free(d);
    CHECK(vfa_live == 0, "%ld allocations left after freeing the dict", vfa_live);
  }
  return vf_done();
}
