// shared by the native drivers: seeded randomness, case bookkeeping, failure reports
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>

static uint64_t vf_s = 88172645463325252ULL;
static long vf_cases, vf_nontriv;
static int vf_shard, vf_shards = 1, vf_samples;
static long vf_deadline;
static char vf_cur[16384];

static inline uint64_t vf_r64(void) { vf_s ^= vf_s << 13; vf_s ^= vf_s >> 7; vf_s ^= vf_s << 17; return vf_s * 2685821657736338717ULL; }
static inline unsigned vf_rnd(unsigned n) { return n ? (unsigned)((vf_r64() >> 33) % n) : 0; }
static long vf_now(void) { struct timeval t; gettimeofday(&t, 0); return t.tv_sec * 1000L + t.tv_usec / 1000; }
static const char *vf_hex(const void *p, size_t n) {
  static char b[4][4200]; static int k; char *o = b[k = (k + 1) & 3]; const unsigned char *s = p; size_t i, m = n > 2000 ? 2000 : n;
  for (i = 0; i < m; i++) sprintf(o + 2 * i, "%02x", s[i]);
  o[2 * m] = 0; if (m < n) strcat(o, "..."); return o;
}
static void vf_case(const char *fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(vf_cur, sizeof vf_cur, fmt, a); va_end(a); vf_cases++; alarm(20); }
static void vf_more(const char *fmt, ...) { size_t l = strlen(vf_cur); va_list a; va_start(a, fmt); vsnprintf(vf_cur + l, sizeof vf_cur - l, fmt, a); va_end(a); }
#define VF_NT() (vf_nontriv++)
static void vf_dump(void) { dprintf(1, "\nFAILING CASE: %s\n", vf_cur); }
void __asan_on_error(void);
void __asan_on_error(void) { vf_dump(); }
void __ubsan_on_report(void);
void __ubsan_on_report(void) { vf_dump(); }
static void vf_fail(const char *fmt, ...) {
  va_list a; char b[8192]; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  fflush(stdout); dprintf(1, "\nFAIL: %s\n", b); vf_dump(); _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) vf_fail(__VA_ARGS__); } while (0)
static void vf_alarm(int s) { dprintf(1, "\nFAIL: no termination within 20 s\n"); vf_dump(); _exit(3); }
static void vf_sample(void) { if (vf_samples < 2) { vf_samples++; char t[400]; snprintf(t, sizeof t, "%s", vf_cur); for (char *c = t; *c; c++) if (*c == '\n' || *c=='\r') *c = ' '; printf("SAMPLE %s\n", t); } }
static void vf_init(void) {
  const char *e;
  uint64_t seed = (e = getenv("VERIF_SEED")) ? strtoull(e, 0, 10) : 1;
  vf_shard = (e = getenv("VF_SHARD")) ? atoi(e) : 0;
  vf_shards = (e = getenv("VF_SHARDS")) ? atoi(e) : 1;
  vf_s ^= (seed * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)(vf_shard + 1) * 0xD1B54A32D192ED03ULL);
  for (int i = 0; i < 20; i++) vf_r64();
  vf_deadline = vf_now() + ((e = getenv("VF_MS")) ? atol(e) : 3000);
  signal(SIGALRM, vf_alarm);
  signal(SIGPIPE, SIG_IGN);
}
static int vf_time(void) { return vf_now() < vf_deadline; }
// the k-th exhaustive case belongs to this shard?
#define VF_MINE(k) ((k) % vf_shards == (unsigned)vf_shard)
static int vf_done(void) { alarm(0); printf("OK cases=%ld nontrivial=%ld\n", vf_cases, vf_nontriv); fflush(stdout); _exit(0); }
// counterexample inputs handed over by the verifier (hex lines); calls f(bytes,len)
static void vf_hints(void (*f)(const unsigned char *, size_t)) {
  const char *e = getenv("VF_HINTS"); if (!e) return; FILE *h = fopen(e, "r"); if (!h) return;
  static char l[1 << 16]; static unsigned char b[1 << 15];
  while (fgets(l, sizeof l, h)) { size_t n = 0; for (char *c = l; c[0] && c[1] && c[0] != '\n'; c += 2) { unsigned v; if (sscanf(c, "%2x", &v) != 1) break; b[n++] = v; } f(b, n); }
  fclose(h);
}
// exact-size heap copy so that ASan sees any over-read
static char *vf_dup(const void *p, size_t n) { char *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static char *vf_str(const void *p, size_t n) { char *r = malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
// random bytes drawn from an interesting alphabet
static size_t vf_bytes(unsigned char *o, size_t max, const char *alpha, int nonul) {
  size_t n = vf_rnd(4) ? vf_rnd(max < 24 ? max + 1 : 24) : vf_rnd(max + 1), al = alpha ? strlen(alpha) : 0;
  int mode = vf_rnd(3);
  for (size_t i = 0; i < n; i++) { unsigned c = (al && (mode == 0 || (mode == 1 && vf_rnd(2)))) ? (unsigned char)alpha[vf_rnd(al)] : vf_rnd(256); if (nonul && !c) c = 1; o[i] = c; }
  return n;
}
#endif
