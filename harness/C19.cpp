#include "h.h"
#include "CppPotpourri.h"
using namespace H;
SECTION(all) { for (int n = 0; n < 65536; n++) { ctx("count %d", n); { C3PRefCounter r(n); CHECK(r.refCount() == n, "ctor", "%u", r.refCount()); bool t = r.refTake(); CHECK(t == (n < 64000), "take", "%d", t); CHECK(r.refCount() == n + t, "take_count", "%u", r.refCount()); }
  { C3PRefCounter r(n); bool z = r.refRelease(); int e = n ? n - 1 : 0; CHECK(r.refCount() == e, "release", "%u", r.refCount()); CHECK(z == (e == 0), "release_ret", "%d", z); CHECK(r.refTake() == (e < 64000), "relock", "x"); } } }
SECTION(histories) { for (int k = 0; k < 500 * scale; k++) { uint32_t m = coin(3) ? 63990 + below(20) : below(5); C3PRefCounter r(m); ctx("history from %u", m); for (int i = 0; i < 60; i++) { if (coin()) { bool t = r.refTake(); CHECK(t == (m < 64000), "h_take", "at %u", m); m += t; } else { if (m) m--; bool z = r.refRelease(); CHECK(z == (m == 0), "h_rel", "at %u", m); } CHECK(r.refCount() == m, "h_count", "%u vs %u", r.refCount(), m); } }
  C3PRefCounter d; ctx("default"); CHECK(d.refCount() == 0, "default", "x"); }
