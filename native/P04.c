// SOURCES: codecs.c block.c low.c log.c dict.c
// LIBS: -lgnutls
#include <ctype.h>
#include "vf.h"
#include "codecs.h"
#include "block.h"
#include "dict.h"
static int jq(unsigned char c, char *o) {
  const char *k = "\b\f\n\r\t\"\\", *v = "bfnrt\"\\", *q = c ? strchr(k, c) : NULL;
  if (q) return sprintf(o, "\\%c", v[q - k]);
  if (c < 32 || c == 127) return sprintf(o, "\\u%04X", c);
  o[0] = c; return 1;
}
static void quote(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("json quote %s", vf_hex(s, n)); if (n) VF_NT();
  char *o = malloc(n * 6 + 4); size_t l = 0; for (size_t i = 0; i < n; i++) l += jq(s[i], o + l);
  onion_block *b = onion_block_new(); onion_block_add_str(b, "<"); onion_json_quote_add(b, s);
  CHECK(onion_block_size(b) == (off_t)l + 1 && !memcmp(onion_block_data(b) + 1, o, l), "got '%s'", onion_block_data(b));
  // unquote(quote(x)) == x, quoted and unquoted forms
  char *t = malloc(l + 3); t[0] = '"'; memcpy(t + 1, o, l); t[l + 1] = '"'; t[l + 2] = 0;
  onion_block *u = onion_block_new(); ssize_t r = onion_json_unquote_add(u, t);
  CHECK(r == (ssize_t)l + 2, "unquote returned %zd for %zu", r, l + 2); CHECK(onion_block_size(u) == (off_t)n && !memcmp(onion_block_data(u), s, n), "roundtrip: got %s", vf_hex(onion_block_data(u), onion_block_size(u)));
  vf_sample(); onion_block_free(b); onion_block_free(u); free(t); free(o); free(s);
}
static int hx(unsigned c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int h4(const char *p) { int v = 0; for (int i = 0; i < 4; i++) { int x = hx((unsigned char)p[i]); if (x < 0) return -1; v = v * 16 + x; } return v; }
static void unquote(const unsigned char *d, size_t n) {
  char *s = vf_str(d, n); n = strlen(s); free(s); s = vf_str(d, n);
  vf_case("json unquote '%s' %s", s, vf_hex(s, n)); VF_NT();
  unsigned char *o = malloc(n + 8); size_t l = 0, i = 0; char eos = 0; ssize_t want = -2;
  if (s[0] == '"') { eos = '"'; i = 1; }
  for (;;) {
    if (s[i] == eos) { want = eos ? i + 1 : i; break; }
    if (!s[i]) { want = -1; break; }
    if (s[i] != '\\') { o[l++] = s[i++]; continue; }
    char c = s[i + 1]; if (!c) { want = -1; break; }
    if (c != 'u') { const char *k = "bfnrt", *q = strchr(k, c); o[l++] = q ? "\b\f\n\r\t"[q - k] : c; i += 2; continue; }
    int v = h4(s + i + 2); if (v <= 0 || (v >= 0xdc00 && v <= 0xdfff)) { want = -1; break; }
    i += 6; unsigned cp = v;
    if (v >= 0xd800 && v <= 0xdbff) { int w = s[i] == '\\' && s[i + 1] == 'u' ? h4(s + i + 2) : -1; if (w < 0xdc00 || w > 0xdfff) { want = -1; break; } i += 6; cp = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
    if (cp < 0x80) o[l++] = cp; else if (cp < 0x800) { o[l++] = 0xc0 | cp >> 6; o[l++] = 0x80 | (cp & 63); }
    else if (cp < 0x10000) { o[l++] = 0xe0 | cp >> 12; o[l++] = 0x80 | (cp >> 6 & 63); o[l++] = 0x80 | (cp & 63); }
    else { o[l++] = 0xf0 | cp >> 18; o[l++] = 0x80 | (cp >> 12 & 63); o[l++] = 0x80 | (cp >> 6 & 63); o[l++] = 0x80 | (cp & 63); }
  }
  onion_block *b = onion_block_new(); ssize_t r = onion_json_unquote_add(b, s);
  CHECK(r == want, "returned %zd, want %zd", r, want);
  if (r >= 0) CHECK(onion_block_size(b) == (off_t)l && !memcmp(onion_block_data(b), o, l), "decoded %s want %s", vf_hex(onion_block_data(b), onion_block_size(b)), vf_hex(o, l));
  onion_block_free(b); free(o); free(s);
}
static void rs(char *o, int max) { size_t n = vf_bytes((unsigned char *)o, max, "\"\\/{}:,\b\f\n\r\t\x01\x7f\xc3\xa9", 1); o[n] = 0; }
static int eqd(const onion_dict *a, const onion_dict *b);
typedef struct { const onion_dict *o; int ok, n; } cmp_t;
static void cmpit(cmp_t *c, const char *k, const void *v, int f) {
  c->n++;
  if (f & OD_DICT) { onion_dict *x = onion_dict_get_dict(c->o, k); if (!x || !eqd(v, x)) c->ok = 0; }
  else { const char *x = onion_dict_get(c->o, k); if (!x || strcmp(x, v)) c->ok = 0; }
}
static int eqd(const onion_dict *a, const onion_dict *b) { cmp_t c = { b, 1, 0 }; onion_dict_preorder(a, cmpit, &c); return c.ok && onion_dict_count(a) == onion_dict_count(b); }
static onion_dict *rdict(int depth) {
  onion_dict *d = onion_dict_new(); int n = vf_rnd(5);
  for (int i = 0; i < n; i++) { char k[64], v[64]; rs(k, vf_rnd(6) ? 12 : vf_rnd(2)); if (vf_rnd(3) == 0 && depth) onion_dict_add(d, k, rdict(depth - 1), OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE); else { rs(v, vf_rnd(5) ? 30 : vf_rnd(2)); onion_dict_add(d, k, v, OD_DUP_ALL | OD_REPLACE); } }
  return d;
}
// strictly JSON, as RFC 8259 has it: a dictionary of strings and dictionaries
static const char *ws_(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n') p++; return p; }
static const char *jstr(const char *p) {
  if (*p++ != '"') return NULL;
  for (; *p != '"'; p++) { if ((unsigned char)*p < 32) return NULL; if (*p == '\\') { p++; if (*p == 'u') { for (int i = 0; i < 4; i++) if (!isxdigit((unsigned char)*++p)) return NULL; } else if (!*p || !strchr("\"\\/bfnrt", *p)) return NULL; } }
  return p + 1;
}
static const char *jobj(const char *p) {
  if (*p != '{') return NULL;
  p = ws_(p + 1); if (*p == '}') return p + 1;
  for (;;) { p = jstr(p); if (!p) return NULL; p = ws_(p); if (*p != ':') return NULL; p = ws_(p + 1); p = *p == '{' ? jobj(p) : jstr(p); if (!p) return NULL; p = ws_(p); if (*p == '}') return p + 1; if (*p != ',') return NULL; p = ws_(p + 1); }
}
static void djson(void) {
  onion_dict *d = rdict(3); onion_block *b = onion_dict_to_json(d); if (!b) vf_fail("to_json NULL");
  char *j = vf_str(onion_block_data(b), onion_block_size(b)); vf_case("dict json %s", j); VF_NT(); const char *je = jobj(j); CHECK(je && !*je, "not JSON");
  onion_dict *e = onion_dict_from_json(j); CHECK(e, "own JSON not readable"); CHECK(eqd(d, e) && eqd(e, d), "JSON roundtrip changed the dict"); vf_sample();
  onion_dict_free(e);
  size_t jl = strlen(j);
  for (int k = 0; k < 4; k++) {   // blanks around it are nothing; anything else after it, or an end before the closing brace, is no dictionary
    char *t = malloc(jl + 12); int bl = vf_rnd(4), w = vf_rnd(3); char *o = t;
    for (int i = vf_rnd(3); i; i--) *o++ = " \t\r\n"[vf_rnd(4)];
    memcpy(o, j, jl); o += jl; if (w == 2) o -= 1 + (vf_rnd(2) ? vf_rnd(jl) : 0);
    for (int i = bl; i; i--) *o++ = " \t\r\n"[vf_rnd(4)];
    if (w == 1) *o++ = ",}{]:\"a0'\b\f\v;/\x7f\xa0"[vf_rnd(16)];
    *o = 0; char *x = vf_str(t, strlen(t)); free(t); vf_case("dict from json, %s %s", w == 0 ? "blanks around" : w == 1 ? "more after" : "cut", x);
    e = onion_dict_from_json(x); CHECK(w ? !e : e && eqd(d, e), "what is around the dictionary"); if (e) onion_dict_free(e); free(x);
  }
  // mutate: parser must stay in bounds and answer
  size_t n = strlen(j); for (int k = 0; k < 6 && n; k++) { char *m = vf_str(j, vf_rnd(3) ? n : vf_rnd(n + 1)); size_t l = strlen(m); if (l) for (int q = vf_rnd(3); q; q--) m[vf_rnd(l)] = "\"\\{}:,u1 a"[vf_rnd(10)]; char *x = vf_str(m, strlen(m)); vf_case("dict from json %s", x); e = onion_dict_from_json(x); if (e) onion_dict_free(e); free(m); free(x); }
  onion_block_free(b); onion_dict_free(d); free(j);
}
int main(void) {
  vf_init(); vf_hints(quote); vf_hints(unquote); unsigned char b[300];
  for (unsigned c = 0; c < 256; c++) { b[0] = c; quote(b, 1); b[1] = c; b[0] = '"'; unquote(b, 2); b[0] = '\\'; unquote(b, 2); b[2] = 0; b[3] = b[1]; b[0] = '"'; b[1] = '\\'; b[2] = b[3]; b[3] = '"'; unquote(b, 4); unquote(b, 3); }
  for (int p = 0; p < 17; p++) for (int d = -2; d < 3; d++) { unsigned c = p * 65536 + 65536 + d; if (c > 0x10ffff) c -= 0x100; if (c >= 0x10000) { sprintf((char *)b, "\"\\u%04x\\u%04X\"", 0xd7c0 + (c >> 10), 0xdc00 + (c & 1023)); unquote(b, 14); } }
  for (unsigned h = 0xd7fe; h < 0xe002; h++) if (VF_MINE(h)) for (int k = 0; k < 12; k++) { static const unsigned lo[] = { 0xdbff, 0xdc00, 0xdc01, 0xddff, 0xde00, 0xdffe, 0xdfff, 0xe000 }; sprintf((char *)b, "\"\\u%04x\\u%04X\"", h, k < 8 ? lo[k] : 0xdc00 + (unsigned)vf_rnd(1024)); unquote(b, 14); }
  for (unsigned c = 0; c < 65536; c++) if (VF_MINE(c)) { sprintf((char *)b, "\"\\u%04x\"", c); unquote(b, 8); if (!(c & 7)) { sprintf((char *)b, "\"\\uD%03X\\u%04X\"", c & 0xfff, 0xd800 + (unsigned)vf_rnd(0x900)); unquote(b, 14); sprintf((char *)b, "\\u%04X", c); unquote(b, vf_rnd(7)); } }
  while (vf_time()) for (int k = 0; k < 40; k++) {
    size_t n = vf_bytes(b, 200, "\b\f\n\r\t\"\\a\x01\x1f\x7f", 1); quote(b, n);
    n = vf_bytes(b, 60, "\\\\\\uuuD89cC00nrt\"\"", 1); if (vf_rnd(2)) b[0] = '"'; unquote(b, n); djson();
  }
  return vf_done();
}
