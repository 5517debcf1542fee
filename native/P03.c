// SOURCES: codecs.c block.c low.c log.c
// LIBS: -lgnutls
#include "vf.h"
#include "codecs.h"
static const char *en(unsigned char c) { return c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '\'' ? "&#39;" : NULL; }
static void one(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("html quote '%s' %s", s, vf_hex(s, n));
  char *o = malloc(n * 6 + 1), *p = o; int need = 0;
  for (size_t i = 0; i < n; i++) { const char *e = en(s[i]); if (e) { need = 1; p += sprintf(p, "%s", e); } else *p++ = s[i]; }
  *p = 0; if (need) VF_NT();
  char *r = onion_html_quote(s); const char *q = onion_html_quote_dup(s);
  if (need) CHECK(r && !strcmp(r, o), "got '%s' want '%s'", r, o); else CHECK(!r, "needs no escaping but got '%s'", r);
  CHECK(q && !strcmp(q, o), "dup: got '%s' want '%s'", q, o); CHECK(q != s, "dup returned its argument");
  vf_sample(); free(r); free((char *)q); free(o); free(s);
}
int main(void) {
  vf_init(); vf_hints(one);
  unsigned char b[400];
  CHECK(onion_html_quote_dup(NULL) == NULL, "dup(NULL)");
  for (unsigned c = 0; c < 256; c++) { b[0] = c; one(b, 1); b[1] = 'x'; b[2] = c; one(b, 3); }
  for (unsigned c = 0; c < 6 * 6 * 6 * 6; c++) if (VF_MINE(c)) { unsigned x = c; for (int i = 0; i < 4; i++, x /= 6) b[i] = "<>&\"'a"[x % 6]; one(b, 4); }
  while (vf_time()) for (int k = 0; k < 50; k++) { size_t n = vf_bytes(b, 300, "<>&\"'ab;", 1); one(b, n); }
  return vf_done();
}
