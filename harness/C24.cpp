#include "h.h"
#include "EnumWrapper.h"
using namespace H;
enum class E8 : uint8_t { Z = 0 }; enum class E32 : uint32_t { Z = 0 };
static bool same(const std::string& a, const std::string& b) { return a.size() == b.size() && strcasecmp(a.c_str(), b.c_str()) == 0; }
template <class E, class U> static void lists() {
  for (int k = 0; k < 1500 * scale; k++) {
    int n = below(9); struct R { U v; uint8_t f, x; std::string s; }; std::vector<R> m; int alpha = range(1, 4); ctx("list of %d:", n);
    for (int i = 0; i < n; i++) { std::string s(range(1, 3), 'a'); for (auto& ch : s) { ch = 'a' + below(alpha); if (coin(3)) ch ^= 32; } if (coin(20)) s = ""; m.push_back({(U) (coin(6) ? val(sizeof(U) * 8) : below(6)), (uint8_t) below(8), (uint8_t) rnd(), s}); ctx_append(" {%u,%u,\"%s\"}", (unsigned) m[i].v, m[i].f, s.c_str()); }
    typedef EnumDef<E> D; D* d = (D*) malloc(sizeof(D) * n + 1); for (int i = 0; i < n; i++) new (d + i) D((E) m[i].v, m[i].s.c_str(), m[i].f, m[i].x);
    EnumDefList<E> l(d, n, "list");
    int valid = 0; std::string cat; for (auto& r : m) if (!(r.f & 2)) { valid++; cat += r.s; }
    StringBuilder out; l.exportKeys(&out); CHECK(l.exportCount() == (uint32_t) valid, "exportCount", "got %u", l.exportCount()); CHECK(std::string((char*) out.string(), out.length()) == cat, "exportKeys", "got %s", (char*) out.string());
    for (int q = 0; q < 8; q++) {
      U v = (n && coin()) ? m[below(n)].v : (U) below(8); int at = -1; for (int i = 0; i < n; i++) if (m[i].v == v) { at = i; break; }
      CHECK(l.enumValid((E) v) == (at >= 0 && !(m[at].f & 2)), "enumValid", "value %u", (unsigned) v);
      CHECK(std::string(l.enumStr((E) v)) == (at < 0 ? "<NO ENUM>" : m[at].s), "enumStr", "value %u got %s", (unsigned) v, l.enumStr((E) v));
      CHECK(l.enumExtra((E) v) == (at < 0 ? 0 : m[at].x), "enumExtra", "value %u", (unsigned) v);
      CHECK(l.enumDef((E) v) == (at < 0 ? nullptr : d + at), "enumDef", "value %u", (unsigned) v);
      std::string s = (n && coin()) ? m[below(n)].s : std::string(range(1, 3), 'a'); for (auto& ch : s) if (coin(3) && ch) ch ^= 32;
      at = -1; int ca = -1; for (int i = 0; i < n; i++) { if (same(m[i].s, s)) { at = i; break; } } if (at < 0) for (int i = 0; i < n; i++) if (m[i].f & 1) ca = i;
      const D* want = at >= 0 ? d + at : (ca >= 0 ? d + ca : nullptr);
      CHECK(l.getEnumDefByStr(s.c_str()) == want, "getEnumDefByStr", "text %s", s.c_str());
      if (n) { int8_t f = 77; E r = l.getEnumByStr(s.c_str(), &f); CHECK(f == (at >= 0), "getEnumByStr found", "text %s got %d", s.c_str(), f); CHECK((U) r == (want ? m[want - d].v : m[n - 1].v), "getEnumByStr", "text %s got %u", s.c_str(), (unsigned) r); CHECK(l.getEnumByStr(s.c_str()) == r, "getEnumByStr", "without found flag"); }
    }
    free(d);
  }
}
SECTION(lists8) { lists<E8, uint8_t>(); }
SECTION(lists32) { lists<E32, uint32_t>(); }
