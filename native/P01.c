// SOURCES: codecs.c block.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "codecs.h"
#include "block.h"
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static char *ref_enc(const unsigned char *d, int n) {
  char *o = malloc(n * 2 + n / 57 + 16), *p = o; int col = 0;
  for (int i = 0; i < n; i += 3) {
    unsigned v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
    if (col == 76) { *p++ = '\n'; col = 0; }
    *p++ = AL[v >> 18]; *p++ = AL[(v >> 12) & 63]; *p++ = i + 1 < n ? AL[(v >> 6) & 63] : '='; *p++ = i + 2 < n ? AL[v & 63] : '='; col += 4;
  }
  if (n) *p++ = '\n';
  *p = 0; return o;
}
static void roundtrip(const unsigned char *d, size_t n) {
  vf_case("encode+decode of %zu bytes %s", n, vf_hex(d, n)); if (n) VF_NT();
  char *in = vf_dup(d, n), *e = onion_base64_encode(in, n), *r = ref_enc(d, n);
  CHECK(!strcmp(e, r), "encoding differs from RFC 4648 with 76-char lines: got %s want %s", e, r);
  if (n) {
    int l = -1; char *dec = onion_base64_decode(e, &l);
    CHECK(dec, "decode(encode(x)) returned NULL");
    CHECK(l == (int)n && !memcmp(dec, d, n), "decode(encode(x)) != x: got %d bytes %s", l, vf_hex(dec, l > 0 ? l : 0));
    CHECK(dec[l] == 0, "no NUL after data"); free(dec);
    dec = onion_base64_decode(e, NULL); CHECK(dec && !memcmp(dec, d, n), "decode with no length pointer"); free(dec);
    // blanks anywhere do not matter
    size_t el = strlen(e); char *w = malloc(el * 3 + 4); size_t k = 0;
    for (size_t i = 0; i < el; i++) { if (e[i] == '\n' && vf_rnd(2)) continue; while (!vf_rnd(6)) w[k++] = " \n\r"[vf_rnd(3)]; if (k > el * 2) { memcpy(w + k, e + i, el - i); k += el - i; break; } w[k++] = e[i]; }
    w[k] = 0; char *w2 = vf_str(w, k); dec = onion_base64_decode(w2, &l);
    vf_more(" | as %s", w2);
    CHECK(dec && l == (int)n && !memcmp(dec, d, n), "blanks change the decoding: got %d", l);
    free(dec); free(w); free(w2);
  }
  vf_sample(); free(e); free(r); free(in);
}
static void anydec(const unsigned char *d, size_t n) {   // arbitrary text: memory safety, sane length
  char *s = vf_str(d, n); size_t m = strlen(s); free(s); s = vf_str(d, m);
  vf_case("decode of %s", vf_hex(s, m)); VF_NT();
  int l = -7; char *r = onion_base64_decode(s, &l);
  size_t cnt = 0; int bad = 0, pad = 0; unsigned char v[4]; unsigned char *ref = malloc(m + 8); size_t rl = 0; 
  for (size_t i = 0; i < m; i++) {
    char c = s[i]; if (c == '\n' || c == '\r' || c == ' ') continue;
    const char *q = strchr(AL, c); if (c == '=') pad++; else if (!q) bad = 1; else if (pad) bad = 1;
    v[cnt & 3] = q && c != '=' ? q - AL : 0; cnt++;
    if (!(cnt & 3)) { ref[rl++] = v[0] << 2 | v[1] >> 4; ref[rl++] = v[1] << 4 | v[2] >> 2; ref[rl++] = v[2] << 6 | v[3]; }
  }
  if (cnt % 4) CHECK(!r, "accepted %zu characters (not a multiple of 4)", cnt);
  if (r) { CHECK(l >= 0 && (size_t)l <= cnt / 4 * 3, "length %d out of range", l); CHECK(r[l] == 0, "no NUL"); }
  if (!bad && pad <= 2 && cnt && cnt % 4 == 0) { rl -= pad; CHECK(r && l == (int)rl && !memcmp(r, ref, rl), "valid base64 decoded wrongly: got %d %s", l, r ? vf_hex(r, l) : "NULL"); }
  free(r); free(s); free(ref);
}
int main(void) {
  vf_init(); vf_hints(roundtrip); vf_hints(anydec);
  unsigned char b[1200];
  for (unsigned n = 0; n < 400; n++) if (VF_MINE(n)) for (int v = 0; v < 3; v++) { for (unsigned i = 0; i < n; i++) b[i] = v == 0 ? 255 : v == 1 ? i : vf_rnd(256); roundtrip(b, n); }
  unsigned char e = 0; roundtrip(&e, 0);
  CHECK(onion_base64_encode(NULL, 3) == NULL && onion_base64_decode(NULL, NULL) == NULL, "NULL in, NULL out");
  while (vf_time()) {
    for (int k = 0; k < 50; k++) {
      size_t n = vf_bytes(b, vf_rnd(5) ? 130 : 1100, NULL, 0); roundtrip(b, n);
      n = vf_bytes(b, 60, "QUJDYWJj0189+/==\n\r ", 1); anydec(b, n);
      n = vf_rnd(9); for (size_t i = 0; i < n; i++) b[i] = vf_rnd(8) ? AL[vf_rnd(64)] : "= \n\r\x80!"[vf_rnd(6)]; anydec(b, n);
    }
  }
  return vf_done();
}
