// SOURCES: codecs.c block.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "codecs.h"
static int en(unsigned char c, char *o) {
  switch (c) { case '\n': return sprintf(o, "\\n\"\n\""); case '\r': return sprintf(o, "\\r"); case '\t': return sprintf(o, "\\t"); case '"': return sprintf(o, "\\\""); case '\\': return sprintf(o, "\\\\"); }
  if (c > 127) return sprintf(o, "\\%03o", c); o[0] = c; o[1] = 0; return 1;
}
static void one(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("c quote %s", vf_hex(s, n)); if (n) VF_NT();
  char *o = malloc(n * 5 + 8), *p = o; *p++ = '"'; for (size_t i = 0; i < n; i++) p += en(s[i], p); *p++ = '"'; *p = 0;
  char *r = onion_c_quote_new(s); CHECK(r && !strcmp(r, o), "got %s want %s", r, o);
  size_t ol = strlen(o);
  for (int t = 0; t < 7; t++) {
    int m = t < 5 ? (int)(ol + 3) - t : 3 + (int)vf_rnd(ol + 3); if (m < 3) continue;
    char *buf = malloc(m); memset(buf, 'Z', m); char *x = onion_c_quote(s, buf, m); vf_more(" l=%d", m);
    CHECK(x == buf, "returns the buffer"); size_t l = strnlen(buf, m); CHECK(l < (size_t)m, "not terminated within %d", m);
    CHECK(l >= 2 && buf[0] == '"' && buf[l - 1] == '"', "not a quoted string: %s", buf);
    CHECK(!strncmp(buf, o, l - 1), "'%s' is not a prefix of '%s'", buf, o);
    if (m > (int)ol) CHECK(l == ol, "truncated although it fits");
    size_t pos = 1; int ok = pos == l - 1; char t2[16]; for (size_t i = 0; i < n; i++) { pos += en(s[i], t2); if (pos == l - 1) ok = 1; } CHECK(ok, "cut inside an escape: %s", buf);
    free(buf);
  }
  vf_sample(); free(r); free(o); free(s);
}
int main(void) {
  vf_init(); vf_hints(one); unsigned char b[300];
  for (unsigned c = 1; c < 256; c++) { b[0] = c; one(b, 1); b[1] = 'a'; one(b, 2); b[1] = c; one(b, 2); }
  while (vf_time()) for (int k = 0; k < 50; k++) { size_t n = vf_bytes(b, 200, "\n\r\t\"\\a\x80\xff", 1); one(b, n); }
  return vf_done();
}
