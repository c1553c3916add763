#include "h.h"
#include "FlagContainer.h"
using namespace H;
template <class C, class T> static void one(T v, T f) {
  ctx("FlagContainer%d raw %llx flag %llx", (int) sizeof(T) * 8, (unsigned long long) v, (unsigned long long) f);
  { C c(v); CHECK(c.all_set(f) == ((v & f) == f), "all_set", "x"); CHECK(c.value(f) == ((v & f) != 0), "value", "x"); CHECK(c.raw == v, "frame", "x"); }
  { C c(v); c.flip(f); CHECK(c.raw == (T)(v ^ f), "flip", "x"); } { C c(v); c.clear(f); CHECK(c.raw == (T)(v & ~f), "clear", "x"); } { C c(v); c.set(f); CHECK(c.raw == (T)(v | f), "set", "x"); }
  { C c(v); c.set(f, true); CHECK(c.raw == (T)(v | f), "set_true", "x"); } { C c(v); c.set(f, false); CHECK(c.raw == (T)(v & ~f), "set_false", "x"); } { C c; CHECK(c.raw == 0, "default", "x"); }
}
SECTION(f8) { for (int v = 0; v < 256; v++) for (int f = 0; f < 256; f++) one<FlagContainer8, uint8_t>(v, f); }
SECTION(f16) { for (int k = 0; k < 30000 * scale; k++) one<FlagContainer16, uint16_t>(val(16), val(16)); }
SECTION(f32) { for (int k = 0; k < 30000 * scale; k++) one<FlagContainer32, uint32_t>(val(32), val(32)); }
SECTION(f64) { for (int k = 0; k < 30000 * scale; k++) one<FlagContainer64, uint64_t>(val(64), val(64)); }
