// SOURCES: @all
// LIBS: -lgnutls -lgcrypt -lsystemd
// CFLAGS: -D_GNU_SOURCE
#include "vfreq.h"
#include "websocket.h"
#include <errno.h>
unsigned sleep(unsigned s) { return 0; }
static buf in; static size_t inpos; static int rcut, wcut; static long failw;
static ssize_t w_read(onion_request *r, char *d, size_t n) { size_t k = in.n - inpos; if (!k) { errno = vf_rnd(2) ? ECONNRESET : 0; return vf_rnd(2) ? 0 : -1; } CHECK(n > 0, "empty read"); if (k > n) k = n; if (rcut && k > 1 && vf_rnd(2)) k = 1 + vf_rnd(k - 1); memcpy(d, in.d + inpos, k); memset(d + k, 0, 0); inpos += k; return k; }
static ssize_t w_write(onion_request *r, const char *d, size_t n) { if (failw >= 0 && (long)vr_out.n >= failw) return vf_rnd(2) ? -1 : 0; if (wcut && n > 1 && vf_rnd(2)) n = 1 + vf_rnd(n - 1); b_add(&vr_out, d, n); return n; }
// ---- an own SHA-1 and base64, as oracle of the handshake
static uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void sha1(const unsigned char *m, size_t n, unsigned char *o) {
  uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 }; size_t t = (n + 9 + 63) / 64 * 64; unsigned char *p = calloc(t, 1); memcpy(p, m, n); p[n] = 0x80; for (int i = 0; i < 8; i++) p[t - 1 - i] = (uint64_t)n * 8 >> (8 * i);
  for (size_t b = 0; b < t; b += 64) { uint32_t w[80], a = h[0], B = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 16; i++) w[i] = p[b + 4 * i] << 24 | p[b + 4 * i + 1] << 16 | p[b + 4 * i + 2] << 8 | p[b + 4 * i + 3]; for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    for (int i = 0; i < 80; i++) { uint32_t f, k; if (i < 20) f = (B & c) | (~B & d), k = 0x5A827999; else if (i < 40) f = B ^ c ^ d, k = 0x6ED9EBA1; else if (i < 60) f = (B & c) | (B & d) | (c & d), k = 0x8F1BBCDC; else f = B ^ c ^ d, k = 0xCA62C1D6; uint32_t x = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(B, 30); B = a; a = x; }
    h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e; }
  for (int i = 0; i < 20; i++) o[i] = h[i / 4] >> (24 - 8 * (i % 4)); free(p);
}
static void b64(const unsigned char *d, int n, char *o) { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; for (int i = 0; i < n; i += 3) { uint32_t v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0); *o++ = A[v >> 18]; *o++ = A[v >> 12 & 63]; *o++ = i + 1 < n ? A[v >> 6 & 63] : '='; *o++ = i + 2 < n ? A[v & 63] : '='; } *o = 0; }
static void frame(buf *o, int op, int masked, const unsigned char *d, uint64_t n, int fin) {
  b_ch(o, (fin ? 0x80 : 0) | op); int m = masked ? 0x80 : 0; int form = n < 126 ? 0 : n < 65536 ? 1 : 2; if (vf_rnd(12) == 0 && form < 2) form++;
  if (form == 0) b_ch(o, m | n); else if (form == 1) { b_ch(o, m | 126); b_ch(o, n >> 8); b_ch(o, n); } else { b_ch(o, m | 127); for (int i = 7; i >= 0; i--) b_ch(o, n >> (8 * i)); }
  unsigned char k[4]; for (int i = 0; i < 4; i++) k[i] = vf_rnd(256); if (masked) b_add(o, k, 4); for (uint64_t i = 0; i < n; i++) b_ch(o, d[i] ^ (masked ? k[i & 3] : 0));
}
typedef struct { int op; uint64_t n; unsigned char *d; } fr;
static int unframe(size_t *at, fr *f) { // one server frame from vr_out; must be complete, unmasked, final
  if (*at >= vr_out.n) return 0; unsigned char *p = vr_out.d + *at; size_t left = vr_out.n - *at; CHECK(left >= 2, "frame header cut"); CHECK((p[0] & 0xF0) == 0x80, "first frame byte %02x", p[0]); CHECK(!(p[1] & 0x80), "server frame is masked"); f->op = p[0] & 15; f->n = p[1]; size_t h = 2;
  if (f->n == 126) { CHECK(left >= 4, "cut"); f->n = p[2] << 8 | p[3]; h = 4; CHECK(f->n >= 126, "16 bit length form for %lu bytes", f->n); } else if (f->n == 127) { CHECK(left >= 10, "cut"); f->n = 0; for (int i = 0; i < 8; i++) f->n = f->n << 8 | p[2 + i]; h = 10; CHECK(f->n >= 65536, "64 bit length form for %lu bytes", f->n); }
  CHECK(left >= h + f->n, "frame of %lu bytes announced, %zu sent", f->n, left - h); f->d = p + h; *at += h + f->n; return 1;
}
static unsigned char data[1 << 18]; static buf got; static int ops[4096], nops; static size_t calls; static int stopat;
static size_t rlen(void) { int k = vf_rnd(10); return k < 4 ? vf_rnd(40) : k < 6 ? vf_rnd(300) : k == 6 ? 123 + vf_rnd(6) : k == 7 ? 1024 * (1 + vf_rnd(4)) - 2 + vf_rnd(5) : k == 8 ? 65533 + vf_rnd(6) : vf_rnd(80000); }
static onion_connection_status cb(void *u, onion_websocket *ws, ssize_t n) {
  calls++; if (n == -1) return OCS_CLOSE_CONNECTION; CHECK(n >= 0, "callback told of %zd bytes", n); size_t k = n; if (k > 1 && vf_rnd(3) == 0) k = 1 + vf_rnd(k - 1); if (k > sizeof data) k = sizeof data;
  if (nops < 4096) ops[nops++] = onion_websocket_get_opcode(ws); char *t = malloc(k ? k : 1); int r = onion_websocket_read(ws, t, k); if (r > 0) { CHECK((size_t)r <= k, "read of %zu gives %d", k, r); b_add(&got, t, r); } free(t); return OCS_NEED_MORE_DATA;
}
int main(void) {
  vr_setup(); vr_lp.write = w_write; vr_lp.read = w_read; for (size_t i = 0; i < sizeof data; i++) data[i] = vf_rnd(256); vfa_init(); failw = -1;
  { onion_request *r = vr_new(); vr_feed(r, (void *)"GET / HTTP/1.0\r\n\r\n", 18, 0, 0); onion_response_free(onion_response_new(r)); onion_request_free(r); }
  int first = 1; long base = 0;
  while (vf_time()) {
    // ---- handshake
    vr_out.n = 0; in.n = inpos = 0; got.n = 0; nops = 0; calls = 0; failw = -1; wcut = vf_rnd(2); rcut = vf_rnd(2); char key[200]; size_t kl = vf_rnd(4) ? 24 : 1 + vf_rnd(150); for (size_t i = 0; i < kl; i++) key[i] = 33 + vf_rnd(90); key[kl] = 0; if (vf_rnd(20) == 0) strcpy(key, "dGhlIHNhbXBsZSBub25jZQ==");
    int bad = vf_rnd(5) == 0 ? 1 + vf_rnd(5) : 0; int proto = vf_rnd(2); buf rq = { 0 }; b_fmt(&rq, "GET /ws HTTP/1.1\r\n"); if (bad != 1) b_fmt(&rq, "Upgrade: %s\r\n", bad == 2 ? (const char *[]) { "h2c", "websocke", "websockets", "web", "xwebsocket", "" }[vf_rnd(6)] : vf_rnd(2) ? "websocket" : "WebSocket"); if (bad != 3) b_fmt(&rq, "Sec-WebSocket-Key: %s\r\n", key); if (bad != 4) b_fmt(&rq, "Sec-WebSocket-Version: %s\r\n", bad == 5 ? (const char *[]) { "12", "14", "8", "0", "130", "1", "-13", "none", "7", "25", "" }[vf_rnd(11)] : "13"); if (proto) b_fmt(&rq, "Sec-WebSocket-Protocol: chat\r\n"); b_str(&rq, "\r\n");
    vf_case("handshake key %s bad %d", key, bad); onion_request *r = vr_new(); CHECK(vr_feed(r, rq.d, rq.n, 0, 0) == OCS_REQUEST_READY, "request"); free(rq.d); onion_response *res = onion_response_new(r); onion_websocket *ws = onion_websocket_new(r, res);
    CHECK(!ws == !!bad, "websocket %s", ws ? "accepted without a proper handshake" : "refused");
    if (!ws) { CHECK(!vr_out.n, "answered"); onion_response_free(res); onion_request_free(r); continue; }
    { unsigned char dg[20]; char all[300], ac[40], want[100]; snprintf(all, 300, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key); sha1((void *)all, strlen(all), dg); b64(dg, 20, ac); snprintf(want, 100, "\r\nsec-websocket-accept: %s\r\n", ac); b_ch(&vr_out, 0); char *h = (char *)vr_out.d; CHECK(!strncmp(h, "HTTP/1.1 101 ", 13), "status %.20s", h); char *e = strcasestr(h, "\r\nsec-websocket-accept: "); CHECK(e && !strncmp(e + 24, want + 24, strlen(want) - 24), "accept key differs from %s", ac); CHECK(strcasestr(h, "\r\nupgrade: websocket\r\n") && strcasestr(h, "\r\nconnection: upgrade\r\n"), "upgrade headers"); CHECK(!proto == !strcasestr(h, "\r\nsec-websocket-protocol: chat\r\n"), "protocol header"); char *end = strstr(h, "\r\n\r\n"); CHECK(end && end[4] == 0 && end + 5 == h + vr_out.n, "bytes after the handshake"); }
    vr_out.n = 0; VF_NT(); int mode = vf_rnd(3);
    if (mode == 0) { // ---- writes
      int n = 1 + vf_rnd(4); size_t len[4], off[4]; int op[4]; char *sent[4] = { 0 }; if (vf_rnd(8) == 0) failw = vf_rnd(5000); vf_case("write failat %ld:", failw); int dead = 0;
      for (int i = 0; i < n && !dead; i++) { len[i] = rlen(); off[i] = vf_rnd(sizeof data - len[i]); op[i] = 1 + vf_rnd(2); onion_websocket_set_opcode(ws, op[i]); int x;
        if (vf_rnd(3) == 0) { len[i] = vf_rnd(2) ? 505 + vf_rnd(12) : vf_rnd(1500); off[i] = vf_rnd(sizeof data - len[i]); char *s = vf_str(data + off[i], len[i]); for (size_t j = 0; j < len[i]; j++) if (!s[j]) s[j] = 1; sent[i] = vf_dup(s, len[i]); vf_more(" printf %zu", len[i]); x = onion_websocket_printf(ws, "%s%s", s, ""); free(s); }
        else { vf_more(" write %zu", len[i]); char *s = vf_dup(data + off[i], len[i]); sent[i] = vf_dup(s, len[i]); x = onion_websocket_write(ws, s, len[i]); free(s); }
        if (failw < 0) CHECK(x == (int)len[i], "write of %zu bytes gives %d", len[i], x); else if ((long)vr_out.n >= failw) { dead = 1; CHECK(x < 0 || x == (int)len[i], "failed write of %zu bytes gives %d", len[i], x); } }
      if (failw < 0) { size_t at = 0; fr f; for (int i = 0; i < n; i++) { CHECK(unframe(&at, &f), "message %d is missing", i); CHECK(f.op == op[i], "opcode %d, want %d", f.op, op[i]); CHECK(f.n == len[i] && !memcmp(f.d, sent[i], len[i]), "message of %zu bytes arrives as %lu different bytes", len[i], f.n); } CHECK(at == vr_out.n, "stray bytes"); } for (int i = 0; i < n; i++) free(sent[i]);
    } else { // ---- received frames
      buf want = { 0 }, pong = { 0 }; int n = vf_rnd(6), closing = vf_rnd(3), lastop = OWS_TEXT; unsigned char st[2] = { 3, 0xE8 }; uint64_t sizes[8]; int opsw[8], nd = 0; vf_case("%s", mode == 1 ? "read" : "callback");
      for (int i = 0; i < n; i++) { int ping = vf_rnd(4) == 0, masked = vf_rnd(5) != 0; size_t l = ping ? vf_rnd(126) : rlen(), at = vf_rnd(sizeof data - l); vf_more(" %s%s%zu", ping ? "ping" : "data", masked ? " " : " unmasked ", l);
        frame(&in, ping ? 9 : 1 + (i & 1), masked, data + at, l, 1); if (ping) { b_ch(&pong, l); b_add(&pong, data + at, l); } else { b_add(&want, data + at, l); opsw[nd] = 1 + (i & 1); sizes[nd++] = l; } }
      if (vf_rnd(40) == 0) { vf_more(" then 150000 empty frames"); for (int i = 0; i < 150000; i++) b_add(&in, "\x81\0", 2); }
      size_t cut = 0; if (closing == 1) { int masked = vf_rnd(4) != 0; st[1] = vf_rnd(256); int k = vf_rnd(4) ? 2 : 0; vf_more(" close%d", k); frame(&in, 8, masked, st, k, 1); if (!k) closing = 3; }
      else if (closing == 2 && vf_rnd(2)) { size_t b = in.n; vf_more(" huge ping"); closing = 5; b_ch(&in, 0x89); b_ch(&in, 0xFF); for (int i = 0; i < 8; i++) b_ch(&in, i ? vf_rnd(256) : vf_rnd(2) ? 0x7F : vf_rnd(256)); b_add(&in, "abcdxyz", 7); }
      else if (closing == 2 && in.n) { closing = 4; cut = vf_rnd(in.n); in.n = cut; vf_more(" stream ends at %zu", cut); }
      if (mode == 1) { int dead = 0; while (!dead) { size_t k = 1 + (vf_rnd(2) ? vf_rnd(20) : vf_rnd(5) ? vf_rnd(2000) : vf_rnd(100000)); char *t = malloc(k); int x = onion_websocket_read(ws, t, k); if (x > 0) { CHECK((size_t)x <= k, "read of %zu bytes gives %d", k, x); b_add(&got, t, x); } else dead = 1; free(t); } }
      else { onion_websocket_set_callback(ws, cb); onion_connection_status s = onion_websocket_call(ws); CHECK(s < 0, "the connection ends with status %d", s); if (closing != 4 && closing != 5) { size_t q = 0; (void)q; for (int i = 0; i < nops; i++) CHECK(ops[i] == 1 || ops[i] == 2, "callback sees opcode %d", ops[i]); } }
      if (closing == 5) CHECK(got.n >= want.n && (!want.n || !memcmp(got.d, want.d, want.n)), "data before the refused frame is lost or different"); else if (closing != 4) CHECK(got.n == want.n && (!got.n || !memcmp(got.d, want.d, got.n)), "%zu bytes sent, %zu bytes read or different", want.n, got.n); else CHECK(got.n <= want.n && (!got.n || !memcmp(got.d, want.d, got.n)), "data read is not a prefix");
      size_t at = 0, pa = 0; fr f; while (pa < pong.n) { size_t l = pong.d[pa]; if (!unframe(&at, &f)) { CHECK(closing == 4, "ping is not answered"); break; } CHECK(f.op == 10 && f.n == l && !memcmp(f.d, pong.d + pa + 1, l), "ping of %zu bytes answered by opcode %d with %lu bytes", l, f.op, f.n); pa += l + 1; }
      if (closing == 1 || closing == 3) { CHECK(unframe(&at, &f) && f.op == 8, "close is not answered"); CHECK(closing == 3 ? f.n == 0 : f.n == 2 && !memcmp(f.d, st, 2), "close status differs: %s", vf_hex(f.d, f.n)); }
      if (closing != 5) CHECK(at == vr_out.n, "unexpected frame sent"); free(want.d); free(pong.d);
    }
    failw = -1; onion_response_free(res); onion_request_free(r); if (first) { base = vfa_live; first = 0; } CHECK(vfa_live <= base, "%ld blocks leaked", vfa_live - base); base = vfa_live; vf_sample();
  }
  return vf_done();
}
