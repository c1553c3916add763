#include "h.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
using namespace H;
static std::string ref(const std::string& d, const char* title) {
  static const char* S = " .-:+=R^v<>*&#XoO"; uint8_t a[153]; memset(a, 0, 153); int x = 8, y = 4;
  for (unsigned char c : d) for (int i = 0; i < 4; i++) { int ox = x, oy = y; x += (c & 1) ? 1 : -1; y += (c & 2) ? 1 : -1; x = x < 0 ? 0 : x > 16 ? 16 : x; y = y < 0 ? 0 : y > 8 ? 8 : y; if (x != ox || y != oy) a[y * 17 + x]++; c >>= 2; }
  a[y * 17 + x] = 16; a[76] = 15;
  std::string r = sfmt("+--[%10s ]--+\n", title); for (int i = 0; i < 9; i++) { r += '|'; for (int j = 0; j < 17; j++) { int k = a[i * 17 + j]; r += k < 17 ? S[k] : '?'; } r += "|\n"; } return r + "+-----------------+\n";
}
static void one(const std::string& d, const char* title) {
  StringBuilder o; char* m = (char*) malloc(d.size() ? d.size() : 1); memcpy(m, d.data(), d.size()); ctx("randomArt len %u %s", (unsigned) d.size(), hex(d.substr(0, 40)).c_str());
  int r = randomArt((uint8_t*) m, d.size(), title, &o); free(m);
  if (d.empty()) { CHECK(r != 0 && o.length() == 0, "empty", "ret %d len %d", r, o.length()); return; }
  std::string w = ref(d, title), g((char*) o.string(), o.length()); CHECK(r == 0, "ret", "%d", r);
  CHECK(g.size() == w.size(), "size", "got %u bytes want %u:\n%s", (unsigned) g.size(), (unsigned) w.size(), g.c_str());
  if (g.size() == w.size()) for (size_t i = 0; i < g.size(); i++) { if (w[i] == '?') CHECK(strchr(" .-:+=R^v<>*&#XoO", g[i]) && g[i], "symbol", "bad symbol"); else CHECK(g[i] == w[i], "picture", "differs at %u:\n%s\nwant\n%s", (unsigned) i, g.c_str(), w.c_str()); }
}
SECTION(art) {
  one("", "x");
  for (int k = 0; k < 1500 * scale; k++) { std::string d = bytes(coin(8) ? below(600) : 1 + below(64)); if (coin(3)) { char p = (char) rnd(); for (auto& c : d) if (coin(4)) c = p; } one(d, coin() ? "t" : "ten-chars!"); }
  for (unsigned n : { 255u, 256u, 257u, 65535u, 65536u, 65537u, 100000u }) one(bytes(n), "big");
}
