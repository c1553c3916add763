#include "h.h"
#include "CppPotpourri.h"
#include <cmath>
#include <limits>
using namespace H;
template <class T> static T gen() { return (T) val(8 * sizeof(T)); }
template <> float gen<float>() { for (;;) { uint32_t u = (uint32_t) val(32); float f; memcpy(&f, &u, 4); if (f == f) return f; } }
template <> double gen<double>() { for (;;) { uint64_t u = val(64); double f; memcpy(&f, &u, 8); if (f == f) return f; } }
template <class T> static void one(const char* nm, bool fp) {
  for (int k = 0; k < 4000 * scale; k++) {
    T a = gen<T>(), b = coin(5) ? a : gen<T>(), v = coin(5) ? a : gen<T>(); ctx("%s a=%.20Lg b=%.20Lg v=%.20Lg", nm, (long double) a, (long double) b, (long double) v);
    CHECK(strict_min(a, b) == (b < a ? b : a), "min", "wrong"); CHECK(strict_max(a, b) == (a < b ? b : a), "max", "wrong");
    T lo = a < b ? a : b, hi = a < b ? b : a; CHECK(strict_range_bind(v, lo, hi) == (v < lo ? lo : v > hi ? hi : v), "bind", "wrong");
    T x = a, y = b; strict_swap(&x, &y); CHECK(x == b && y == a, "swap", "wrong");
    if (fp) { volatile T d = a > b ? a - b : b - a; volatile T g = strict_abs_delta(a, b); if (d == d) CHECK(g == d && !(g < 0), "delta", "wrong"); }
    else { long double d = fabsl((long double) a - (long double) b); if (d <= (long double) std::numeric_limits<T>::max()) CHECK((long double) strict_abs_delta(a, b) == d, "delta", "got %.20Lg", (long double) strict_abs_delta(a, b)); }
  }
}
#define S(T, n, f) SECTION(n) { one<T>(#n, f); }
#include <limits>
S(double, f64, true) S(float, f32, true) S(uint64_t, u64, false) S(uint32_t, u32, false) S(uint16_t, u16, false) S(uint8_t, u8, false) S(int64_t, s64, false) S(int32_t, s32, false) S(int16_t, s16, false) S(int8_t, s8, false)
