// SOURCES: codecs.c block.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "codecs.h"
static int an(unsigned c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int hx(unsigned c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char *ref_q(const char *s) { char *o = malloc(strlen(s) * 3 + 1), *p = o; for (; *s; s++) if (an((unsigned char)*s)) *p++ = *s; else p += sprintf(p, "%%%02X", (unsigned char)*s); *p = 0; return o; }
static void one(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("quote %s", vf_hex(s, n)); if (n) VF_NT();
  char *r = ref_q(s), *q = onion_quote_new(s);
  CHECK(!strcmp(q, r), "quoted '%s', want '%s'", q, r);
  // bounded variant: every buffer size around the boundary
  size_t rl = strlen(r);
  for (int t = 0; t < 6; t++) {
    int m = t < 4 ? (int)(rl + 2) - t : 1 + (int)vf_rnd(rl + 3); if (m < 1) continue;
    char *buf = malloc(m); memset(buf, 'Z', m);
    int l = onion_quote(s, buf, m);
    CHECK(l >= 0 && l < m && buf[l] == 0, "maxlength %d: returned %d / not terminated", m, l);
    CHECK(!strncmp(buf, r, l), "maxlength %d: '%s' is not a prefix of '%s'", m, buf, r);
    if (m > (int)rl) CHECK(l == (int)rl, "maxlength %d: truncated to %d although %zu fit", m, l, rl);
    // cut only between characters
    int pos = 0, ok = l == 0; for (const char *c = s; *c; c++) { pos += an((unsigned char)*c) ? 1 : 3; if (pos == l) ok = 1; }
    CHECK(ok, "maxlength %d: cut inside an escape at %d of '%s'", m, l, r);
    free(buf);
  }
  onion_unquote_inplace(q); CHECK(!strcmp(q, s), "unquote(quote(x)) = %s", vf_hex(q, strlen(q)));
  vf_sample(); free(q); free(r); free(s);
}
static void unq(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("unquote '%s' %s", s, vf_hex(s, n)); if (n) VF_NT();
  char *ref = malloc(n + 1); char *known = malloc(n + 1); size_t k = 0;
  for (size_t i = 0; i < n;) {
    if (s[i] == '%' && i + 2 < n) { int a = hx((unsigned char)s[i + 1]), b = hx((unsigned char)s[i + 2]); known[k] = a >= 0 && b >= 0; ref[k++] = a * 16 + b; i += 3; }
    else { known[k] = 1; ref[k++] = s[i] == '+' ? ' ' : s[i]; i++; }
  }
  onion_unquote_inplace(s);
  for (size_t i = 0; i < k; i++) if (known[i]) CHECK(s[i] == ref[i], "byte %zu is %02x, want %02x", i, (unsigned char)s[i], (unsigned char)ref[i]);
  CHECK(s[k] == 0, "result is not %zu bytes long", k);
  free(s); free(ref); free(known);
}
int main(void) {
  vf_init(); vf_hints(one); vf_hints(unq);
  unsigned char b[300];
  for (unsigned c = 1; c < 256; c++) { b[0] = c; one(b, 1); unq(b, 1); }
  for (unsigned c = 0; c < 65536; c++) if (VF_MINE(c)) { b[0] = '%'; b[1] = c >> 8 ? c >> 8 : '4'; b[2] = c & 255 ? c & 255 : '1'; unq(b, 3); if (!(c & 31)) { b[3] = 'x'; unq(b, 4); unq(b, 2); } }
  while (vf_time()) for (int k = 0; k < 50; k++) {
    size_t n = vf_bytes(b, 200, "aZ09 %/?&=+.-_~", 1); one(b, n);
    n = vf_bytes(b, 60, "%%%+aF09 4", 1); unq(b, n);
  }
  return vf_done();
}
