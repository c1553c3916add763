#include "h.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
using namespace H;
struct Ref { uint64_t s = 0, i = 15; uint32_t step() { uint64_t o = s; s = o * 6364136223846793005ULL + i; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27); uint32_t r = o >> 59; return r ? (x >> r | x << (32 - r)) : x; } void seed(uint64_t v) { s = 0; step(); s += v; step(); } };
static void reffill(Ref& r, uint8_t* b, uint32_t n) { uint32_t i = 0; while (n - i >= 4) { uint32_t w = r.step(); for (int k = 0; k < 4; k++) b[i++] = w >> (8 * k); } uint32_t w = 0; bool have = false; while (i < n) { if (!have) { w = r.step(); have = true; } b[i++] = w; w >>= 8; } if (!have) r.step(); }
SECTION(stream) {
  for (int k = 0; k < 3000 * scale; k++) {
    uint64_t seed = val(64); if (!seed) seed = 1; C3P_pRNG g, g2; g.init(seed); g2.init(seed); int ops = range(1, 6); ctx("pRNG seed %llu", (unsigned long long) seed);
    Ref r; r.seed(seed); bool first = true;
    for (int o = 0; o < ops; o++) {
      uint32_t n = coin(4) ? below(3000) : below(40); uint8_t* a = (uint8_t*) malloc(n ? n : 1); std::string e(n, 0), b(n, 0); ctx_append(" fill %u", n);
      CHECK(g.fill(a, n) == 0, "fill_ret", "nonzero"); g2.fill((uint8_t*) &b[0], n);
      CHECK(!memcmp(a, b.data(), n), "determinism", "two generators with one seed differ");
      if (first) { reffill(r, (uint8_t*) &e[0], n); CHECK(!memcmp(a, e.data(), n), "stream", "differs from PCG32: %s want %s", hex(a, n < 16 ? n : 16).c_str(), hex(e.data(), n < 16 ? n : 16).c_str()); first = false; }
      free(a);
    }
  }
}
SECTION(typed) {
  for (int k = 0; k < 3000 * scale; k++) {
    uint64_t seed = val(64) | 1; C3P_pRNG g; g.init(seed); Ref r; r.seed(seed); uint32_t w0 = r.step(), w1 = r.step(); ctx("typed seed %llu", (unsigned long long) seed);
    switch (below(5)) { case 0: CHECK(g.randomUInt8() == (uint8_t) w0, "u8", "differs"); break; case 1: CHECK(g.randomUInt16() == (uint16_t) w0, "u16", "differs"); break; case 2: CHECK(g.randomUInt32() == w0, "u32", "differs"); break;
      case 3: CHECK(g.randomUInt64() == ((uint64_t) w1 << 32 | w0), "u64", "differs"); break; case 4: CHECK(g.randomBool() == (w0 & 1), "bool", "differs"); }
  }
}
// the typed getters return the bytes of the source, whatever the source
struct Src : public C3PRandom { uint8_t d[16]; uint32_t asked = 0; int8_t fill(uint8_t* b, const uint32_t n) override { for (uint32_t i = 0; i < n; i++) b[i] = d[(asked + i) & 15]; asked += n; return 0; } };
SECTION(getters) {
  for (int k = 0; k < 20000 * scale; k++) {
    Src s; uint64_t v = coin(3) ? (uint64_t) val(32) << 32 : coin(3) ? val(32) : val(64); memset(s.d, 0xEE, 16); memcpy(s.d, &v, 8); ctx("source %llx", (unsigned long long) v);
    switch (below(5)) { case 0: CHECK(s.randomUInt8() == (uint8_t) v && s.asked == 1, "src_u8", "differs"); break; case 1: CHECK(s.randomUInt16() == (uint16_t) v && s.asked == 2, "src_u16", "differs"); break; case 2: CHECK(s.randomUInt32() == (uint32_t) v && s.asked == 4, "src_u32", "differs"); break;
      case 3: { uint64_t r = s.randomUInt64(); CHECK(r == v && s.asked == 8, "src_u64", "%llx", (unsigned long long) r); break; } case 4: CHECK(s.randomBool() == (v & 1), "src_bool", "differs"); }
  }
}
