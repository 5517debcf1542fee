// reads one response from vr_out the way a client would: status line, headers, body by its framing
typedef struct { int code, http11, chunked, close, ka; long clen; kv hdr; buf body; size_t end; int complete; } wire;
static char *line(size_t *at) { unsigned char *nl = memchr(vr_out.d + *at, '\n', vr_out.n - *at); if (!nl) vf_fail("response head is not terminated: %s", vf_hex(vr_out.d, vr_out.n > 600 ? 600 : vr_out.n)); size_t e = nl - vr_out.d; CHECK(e > *at && vr_out.d[e - 1] == '\r', "header line without CR LF: %s", vf_hex(vr_out.d + *at, e - *at)); char *l = vf_dup(vr_out.d + *at, e - *at); l[e - 1 - *at] = 0; *at = e + 1; return l; }
static void parse(wire *w, int head) {
  memset(w, 0, sizeof *w); w->clen = -1; size_t at = 0; char *l = line(&at); int n = -1; CHECK(sscanf(l, "HTTP/1.%d %d %n", &w->http11, &w->code, &n) == 2 && n > 0, "status line %s", l); free(l);
  for (;;) { l = line(&at); if (!*l) { free(l); break; } char *c = strstr(l, ": "); CHECK(c && c > l, "header line %s", l); *c = 0; kv_add(&w->hdr, l, c + 2, strlen(c + 2));
    if (!strcasecmp(l, "Content-Length")) { CHECK(w->clen < 0, "Content-Length twice"); char *e; w->clen = strtol(c + 2, &e, 10); CHECK(!*e && c[2], "Content-Length %s", c + 2); }
    if (!strcasecmp(l, "Transfer-Encoding")) { CHECK(!strcmp(c + 2, "chunked"), "encoding %s", c + 2); w->chunked = 1; }
    if (!strcasecmp(l, "Connection")) { if (!strcasecmp(c + 2, "Close")) w->close = 1; if (!strcasecmp(c + 2, "Keep-Alive")) w->ka = 1; } free(l); }
  CHECK(!(w->chunked && w->clen >= 0), "both Content-Length and chunked");
  if (head) { w->end = at; w->complete = 1; return; }
  if (w->chunked) for (;;) {
      unsigned char *nl = memchr(vr_out.d + at, '\n', vr_out.n - at); if (!nl) { w->end = vr_out.n; return; } char *e; size_t len = strtoul((char *)vr_out.d + at, &e, 16); CHECK((unsigned char *)e + 1 == nl && *e == '\r' && e != (char *)vr_out.d + at, "chunk header %s", vf_hex(vr_out.d + at, nl - vr_out.d - at + 1)); at = nl + 1 - vr_out.d;
      if (at + len + 2 > vr_out.n) { size_t k = vr_out.n - at; b_add(&w->body, vr_out.d + at, k < len ? k : len); w->end = vr_out.n; return; } b_add(&w->body, vr_out.d + at, len); at += len; CHECK(vr_out.d[at] == '\r' && vr_out.d[at + 1] == '\n', "chunk of %zu bytes is not followed by CR LF: %s", len, vf_hex(vr_out.d + at, 2)); at += 2;
      if (!len) { w->complete = 1; break; } }
  else { size_t k = vr_out.n - at; if (w->clen >= 0 && (size_t)w->clen <= k) { k = w->clen; w->complete = 1; } if (w->clen < 0) w->complete = 2; b_add(&w->body, vr_out.d + at, k); at += k; }
  w->end = at;
}
