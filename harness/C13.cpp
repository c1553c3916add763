#include "h.h"
#include "StringBuilder.h"
#include "M2MLink/M2MLink.h"
using namespace H;
static bool okcode(int m) { return (m >= 1 && m <= 9) || m == 0xE || (m >= 0xF && m <= 0x1F); }
static M2MMsgCode code() { for (;;) { int m = below(0x20); if (okcode(m)) return (M2MMsgCode) m; } }
static uint32_t ident() { switch (below(5)) { case 0: return 0; case 1: return 1 + below(255); case 2: return 256 + below(0xFF00); case 3: return 0x10000 + below(0xFF0000); default: { static const uint32_t b[] = { 1, 255, 256, 65535, 65536, 0xFFFFFF, 0x1000000, 0x2000000, 0xFFFFFFFF }; return b[below(9)]; } } }
static uint32_t plen() { switch (below(5)) { case 4: return 0xFFFFE8 + below(26); case 0: return below(10); case 1: return 240 + below(20); case 2: return 65515 + below(30); default: return val(24); } }
static bool same(M2MMsgHdr& a, M2MMsgHdr& b) { return a.msg_code == b.msg_code && a.flags == b.flags && a.chk_byte == b.chk_byte && a.msg_len == b.msg_len && a.msg_id == b.msg_id; }
static void frag(StringBuilder* s, const std::string& d) { size_t i = 0; while (i < d.size()) { size_t n = coin(3) ? d.size() - i : std::min<size_t>(d.size() - i, 1 + below(7)); s->concat((uint8_t*) d.data() + i, n); i += n; } }
SECTION(header) {
  for (int k = 0; k < 20000 * scale; k++) {
    M2MMsgCode m = code(); uint8_t f = below(4); uint32_t i = ident(); uint8_t p0 = coin() ? 0 : below(256);
    M2MMsgHdr h(m, p0, f, i); ctx("header code %u pl %u flags %u id %u", (unsigned) m, p0, f, i);
    CHECK(h.payload_length() == p0, "ctor_payload", "payload_length %d", h.payload_length()); CHECK(h.total_length() == h.header_length() + p0, "ctor_total", "total %d", h.total_length());
    bool wantid = h.msg_id != 0; if (i & 0xFFFFFF) CHECK(h.msg_id == (i & 0xFFFFFF), "ctor_id", "id %u", h.msg_id);
    if ((f & 1) && m != M2MMsgCode::SYNC_KEEPALIVE) CHECK(wantid, "reply_id", "no id");
    if (coin()) { uint32_t n = plen(); M2MMsgHdr o(&h); ctx_append(" set_payload_length %u", n); bool r = h.set_payload_length(n); uint64_t base = (uint64_t) n + h.id_length() + 4; if (base > 255) base++; if (base > 65535) base++; CHECK(r == (base <= 0xFFFFFF), "accepts", "returned %d", r);
      if (r) { CHECK(h.payload_length() == (int) n, "payload", "payload_length %d", h.payload_length()); } else CHECK(same(o, h), "refuse", "changed"); }
    bool rule = m == M2MMsgCode::SYNC_KEEPALIVE || ((f & 3) != 0) == wantid; CHECK(h.isValid() == rule, "valid", "isValid %d", h.isValid());
    StringBuilder o; bool r = h.serialize(&o); CHECK(r == h.isValid(), "serialize", "%d", r);
    if (r) { CHECK(o.length() == h.header_length(), "serialized_len", "%d", o.length()); int extra = coin() ? below(20) : 0; std::string d((char*) o.string(), o.length()); d += bytes(extra); StringBuilder in; frag(&in, d); M2MMsgHdr g; int8_t q = M2MMsg::attempt_header_parse(&g, &in);
      CHECK(same(g, h), "roundtrip", "fields differ"); int want = h.payload_length() == 0 ? 1 : (h.total_length() <= (int) d.size() ? 2 : 0); CHECK(q == want, "parse_code", "returned %d want %d", q, want); }
    else CHECK(o.length() == 0, "serialize_invalid", "wrote %d", o.length());
  }
}
SECTION(hostile) {
  for (int k = 0; k < 20000 * scale; k++) {
    int n = below(14); std::string d = bytes(n); if (n > 1 && coin()) { d[0] = 1 + below(31); d[1] = (below(4) << 4) | (below(4) << 6) | below(4); }
    if (n >= 4 && coin()) { int l = (d[1] >> 4) & 3, i = (d[1] >> 6) & 3; uint32_t len = 0; for (int q = 0; q < l && 2 + q < n; q++) len = len << 8 | (uint8_t) d[2 + q]; if (2 + l + i < n) d[2 + l + i] = (char)(d[0] + d[1] + len + 1); }
    ctx("parse %s", hex(d).c_str()); StringBuilder in; if (n) frag(&in, d); M2MMsgHdr g; int8_t q = M2MMsg::attempt_header_parse(&g, &in); int want = -2;
    if (n >= 4) { int l = ((uint8_t) d[1] >> 4) & 3, i = ((uint8_t) d[1] >> 6) & 3, H = l + i + 3; if (!l) want = -3; else if (H <= n) { uint32_t len = 0; for (int z = 0; z < l; z++) len = len << 8 | (uint8_t) d[2 + z]; want = -3; if ((uint8_t) d[H - 1] == (uint8_t)(d[0] + d[1] + len + 1) && len >= (uint32_t) H) want = len == (uint32_t) H ? 1 : (int) len > n ? 0 : 2; } }
    CHECK(q == want, "hostile", "returned %d want %d", q, want);
  }
}
SECTION(stream) {   // several messages, delivered in arbitrary pieces, are reassembled exactly
  for (int k = 0; k < 300 * scale; k++) {
    M2MMsgHdr h(code(), 0, 0, 0); uint32_t n = coin(6) ? plen() % 70000 : below(600); ctx("stream payload %u", n); if (!h.set_payload_length(n)) continue; if (!h.isValid()) continue;
    std::string pay = bytes(n), tail = bytes(below(30)); for (auto& x : pay) if (coin(3)) x = (char) 0xF6; M2MMsg m(&h); m.encoding(TCode::BINARY); StringBuilder in; size_t i = 0; std::string all = pay + tail; int r = 0;
    if (n == 0) { frag(&in, all); r = m.accumulate(&in); CHECK(r == 1 && m.rxComplete(), "complete0", "returned %d", r); CHECK(in.length() == (int) all.size(), "left0", "%d left", in.length()); continue; }
    while (i < all.size()) { size_t c = std::min<size_t>(all.size() - i, n > 2000 ? 1 + below(30000) : 1 + below(100)); in.concat((uint8_t*) all.data() + i, c); i += c; bool done = i >= n; r = m.accumulate(&in); CHECK(r == (done ? 1 : 0), "complete", "returned %d after %u of %u", r, (unsigned) i, n); CHECK(m.rxComplete() == done, "rxcomplete", "%d", m.rxComplete()); if (done) break; CHECK(in.length() == 0, "consumed", "%d left", in.length()); }
    std::string rest((char*) in.string(), in.length()); CHECK(rest == all.substr(n, i - n), "rest", "%u bytes left, want %u", (unsigned) rest.size(), (unsigned)(i - n));
  }
}
