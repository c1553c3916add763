#include "h.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
using namespace H;
static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string& s) { std::string o; size_t i = 0; auto b = [&](size_t k) { return k < s.size() ? (uint32_t)(uint8_t) s[k] : 0u; };
  for (; i < s.size(); i += 3) { uint32_t v = b(i) << 16 | b(i + 1) << 8 | b(i + 2); o += AL[v >> 18]; o += AL[v >> 12 & 63]; o += i + 1 < s.size() ? AL[v >> 6 & 63] : '='; o += i + 2 < s.size() ? AL[v & 63] : '='; } return o; }
static bool dec(const std::string& t, std::string* o) { o->clear(); if (t.size() % 4) return false; size_t pad = 0; if (t.size() && t[t.size() - 1] == '=') { pad = 1; if (t[t.size() - 2] == '=') pad = 2; }
  uint32_t v = 0; for (size_t i = 0; i < t.size(); i++) { uint32_t d = 0; if (i < t.size() - pad) { const char* p = (const char*) memchr(AL, t[i], 64); if (!p) return false; d = p - AL; } v = v << 6 | d; if (i % 4 == 3) { *o += (char)(v >> 16); *o += (char)(v >> 8); *o += (char) v; v = 0; } }
  o->resize(o->size() - pad); return true; }
struct Sink : public BufferAccepter { int32_t cap; std::string got; int pushes = 0; bool over = false; Sink(int32_t c) : cap(c) {}
  int8_t pushBuffer(StringBuilder* b) { pushes++; int l = b->length(); if (l > cap) { over = true; return -1; } if (l) got.append((char*) b->string(), l); cap -= l; b->clear(); return 1; } int32_t bufferAvailable() { return cap; } };
static void frag(StringBuilder& b, const std::string& s) { size_t i = 0; while (i < s.size()) { size_t n = coin(3) ? s.size() - i : 1 + below(s.size() - i); b.concat((uint8_t*) s.data() + i, (int) n); i += n; } }
static std::string str(StringBuilder& b) { return std::string((char*) b.string(), b.length()); }
static std::string data() { size_t n = coin(3) ? below(300) : below(20); std::string s = bytes(n); if (coin(3)) for (auto& c : s) c = coin() ? 0 : (char) 0xff; return s; }
SECTION(encode) {
  for (int k = 0; k < 6000 * scale; k++) {
    std::string s = data(); Sink sink(coin(3) ? (int) below(420) : 100000); Base64Encoder e(&sink); StringBuilder b; frag(b, s); int ch = coin(3) ? (int) below(60) : 0; e.inputLength(ch);
    int32_t cap0 = sink.cap, av = e.bufferAvailable(); ctx("encode len %d chunk %d sink %d: %s", (int) s.size(), ch, cap0, hex(s).c_str());
    int r = e.pushBuffer(&b); size_t take = ch ? ch : s.size(); bool fits = take > 0 && take <= s.size() && (int) take <= av;
    CHECK(!sink.over, "overrun", "pushed more than the sink had offered to take");
    CHECK(av <= cap0 && (cap0 < 8 || av > 0), "available", "%d for %d", av, cap0);
    if (!fits) { CHECK(r == -1 && sink.pushes == 0 && str(b) == s, "refuse", "ret %d", r); continue; }
    CHECK(r == (take == s.size() ? 1 : 0), "ret", "%d", r); CHECK(sink.got == enc(s.substr(0, take)), "encode", "got %s want %s", sink.got.c_str(), enc(s.substr(0, take)).c_str()); CHECK(str(b) == s.substr(take), "rest", "left %s", hex(str(b)).c_str());
  }
}
SECTION(decode) {
  for (int k = 0; k < 12000 * scale; k++) {
    std::string s = data(), t = enc(s); if (coin(3) && t.size()) { t[coin() ? t.size() - 1 - below(t.size() < 4 ? t.size() : 4) : below(t.size())] = coin() ? '=' : coin() ? AL[below(64)] : (char) val(8); }
    if (coin(6)) t.resize(below(t.size() + 1)); if (coin(8)) { t = ""; int n = below(10); for (int i = 0; i < n; i++) t += coin(5) ? '=' : coin(12) ? (char) val(8) : AL[below(64)]; }
    Sink sink(coin(3) ? (int) below(400) : 100000); Base64Decoder d(&sink); StringBuilder b; frag(b, t); int ch = coin(3) ? (int) below(15) * (coin() ? 4 : 1) : 0; d.inputLength(ch);
    int32_t cap0 = sink.cap, av = d.bufferAvailable(); ctx("decode '%s' chunk %d sink %d", hex(t).c_str(), ch, cap0);
    int r = d.pushBuffer(&b); size_t take = ch ? ch : t.size(); std::string o; bool fits = take > 0 && take <= t.size() && (int) take <= av && dec(t.substr(0, take), &o);
    CHECK(!sink.over, "overrun", "pushed more than the sink had offered to take");
    if (!fits) { CHECK(r == -1 && sink.pushes == 0 && str(b) == t, "refuse", "ret %d, left %s", r, hex(str(b)).c_str()); continue; }
    CHECK(r == (take == t.size() ? 1 : 0), "ret", "%d", r); CHECK(sink.got == o, "decode", "got %s want %s", hex(sink.got).c_str(), hex(o).c_str()); CHECK(str(b) == t.substr(take), "rest", "left %s", hex(str(b)).c_str());
  }
}
SECTION(loop) {
  for (int k = 0; k < 6000 * scale; k++) {
    std::string s = data(); Sink sink(coin() ? (int) below(500) : 100000); Base64Decoder d(&sink); Base64Encoder e(&d); StringBuilder b; frag(b, s); int32_t av = e.bufferAvailable();
    if (coin() && av > 0) { s = bytes(1 + below(av < 300 ? av : 300)); if (coin() && av < 2000) s = bytes(av); b.clear(); frag(b, s); }
    ctx("loopback len %d sink %d offered %d", (int) s.size(), sink.cap, av); int r = e.pushBuffer(&b);
    if (s.size() && (int) s.size() <= av) { CHECK(r == 1, "loop_ret", "%d", r); CHECK(sink.got == s, "loop", "got %s", hex(sink.got).c_str()); CHECK(b.length() == 0, "loop_rest", "%d", b.length()); }
    else CHECK(r == -1 && str(b) == s, "loop_refuse", "%d", r);
  }
  Base64Encoder e0; Base64Decoder d0; StringBuilder b; b.concat("abcd"); ctx("no efferant"); CHECK(e0.pushBuffer(&b) == -1 && d0.pushBuffer(&b) == -1 && e0.bufferAvailable() == 0 && d0.bufferAvailable() == 0 && str(b) == "abcd", "no_efferant", "x");
}
