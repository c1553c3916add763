#include "h.h"
#include "CppPotpourri.h"
#include "C3PValue/C3PType.h"
#include "C3PValue/C3PValue.h"
#include <math.h>
#include <limits>
using namespace H;
template <class T> struct TC; 
#define D(t, c) template <> struct TC<t> { static const TCode v = TCode::c; };
D(int8_t, INT8) D(int16_t, INT16) D(int32_t, INT32) D(int64_t, INT64) D(uint8_t, UINT8) D(uint16_t, UINT16) D(uint32_t, UINT32) D(uint64_t, UINT64) D(bool, BOOLEAN) D(float, FLOAT) D(double, DOUBLE)
template <class T> static bool isf() { return !std::numeric_limits<T>::is_integer; }
template <class A, class B> static void pair(A a) {
  ctx("%s -> %s value %.17g", typecodeToStr(TC<A>::v), typecodeToStr(TC<B>::v), (double) a);
  for (int dir = 0; dir < 2; dir++) {
    uint8_t src[16], dst[16], old[16]; for (int i = 0; i < 16; i++) { src[i] = 0xFF; dst[i] = old[i] = 0xA5; } memcpy(src, &a, sizeof a);
    int8_t r = dir ? getTypeHelper(TC<A>::v)->get_as(src, TC<B>::v, dst) : getTypeHelper(TC<B>::v)->set_from(dst, TC<A>::v, src);
    CHECK(r == 0 || r == -1, "code", "r %d", r); CHECK(!memcmp(dst + sizeof(B), old, 16 - sizeof(B)), "overrun", "dir %d", dir);
    if (r != 0) CHECK(!memcmp(dst, old, 16), "refusal_frame", "dir %d", dir);
    B got; memcpy(&got, dst, sizeof got); bool exact = true; B want = (B) 0;
    bool must = false, mustnot = false;
    if (std::is_same<B, bool>::value) { want = (B) (a != 0); must = true; }
    else if (isf<B>()) { if (isf<A>() && sizeof(A) > sizeof(B)) exact = false; want = (B) a; must = std::is_same<A, bool>::value || std::is_same<A, B>::value; }
    else if (isf<A>()) mustnot = true;
    else { bool neg = a < (A) 0; uint64_t mag = neg ? 0 - (uint64_t) (int64_t) a : (uint64_t) a; uint64_t lim = neg ? (std::numeric_limits<B>::is_signed ? (uint64_t) std::numeric_limits<B>::max() + 1 : 0) : (uint64_t) std::numeric_limits<B>::max();
      must = mag <= lim; mustnot = !must; want = (B) a; }
    if (must) CHECK(r == 0, "refused", "dir %d", dir); if (mustnot) CHECK(r != 0, "accepted", "dir %d", dir);
    if (r == 0 && exact) CHECK(got == want || (want != want && got != got), "value", "dir %d", dir);
    if (dir) { int8_t k = C3PType::conversionRisk(TC<A>::v, TC<B>::v); if (k == 0) CHECK(r == 0, "risk_zero", "x"); if (k == -1) CHECK(r != 0, "risk_impossible", "x"); if (must) CHECK(k >= 0, "risk_possible", "x"); if (mustnot && !isf<A>()) CHECK(k > 0, "risk_table", "k %d", k); }
  }
}
template <class A> static void all(A a) { pair<A, int8_t>(a); pair<A, int16_t>(a); pair<A, int32_t>(a); pair<A, int64_t>(a); pair<A, uint8_t>(a); pair<A, uint16_t>(a); pair<A, uint32_t>(a); pair<A, uint64_t>(a); pair<A, bool>(a); pair<A, float>(a); pair<A, double>(a);
  { C3PValue v(a); A back = (A) 0; ctx("C3PValue of %s %.17g", typecodeToStr(TC<A>::v), (double) a); CHECK(v.get_as(&back) == 0 && (!memcmp(&back, &a, sizeof a)), "value_container", "x"); } }
template <class A> static void ints() {
  for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { uint64_t v = (1ULL << k) + d; all<A>((A) v); all<A>((A) (0 - v)); }
  for (int k = 0; k < 400 * scale; k++) all<A>((A) rnd());
}
SECTION(integers) { ints<int8_t>(); ints<int16_t>(); ints<int32_t>(); ints<int64_t>(); ints<uint8_t>(); ints<uint16_t>(); ints<uint32_t>(); ints<uint64_t>(); all<bool>(true); all<bool>(false); }
SECTION(floats) {
  double s[] = {0.0, -0.0, 1, -1, 0.5, 1e-40, 1e300, -1e300, INFINITY, -INFINITY, NAN, 255, 256, 4294967296.0};
  for (double d : s) { all<double>(d); all<float>((float) d); }
  for (int k = 0; k < 400 * scale; k++) { uint64_t b = rnd(); double d; memcpy(&d, &b, 8); all<double>(d); uint32_t b4 = (uint32_t) b; float f; memcpy(&f, &b4, 4); all<float>(f); }
}
template <class V> static void vec(TCode tc, int n) { for (int o = 0; o < 256; o++) { if (o == (int) TCode::BINARY) continue; uint8_t s[24], d[24]; for (int i = 0; i < 24; i++) { s[i] = i + 1; d[i] = 0xA5; } ctx("vector type %d with code %d", (int) tc, o);
  int8_t r = getTypeHelper(tc)->set_from(d, (TCode) o, s); CHECK((r == 0) == (o == (int) tc), "vector_code", "r %d", r); for (int i = 0; i < 24; i++) CHECK(d[i] == (r == 0 && i < n ? s[i] : 0xA5), "vector_bytes", "i %d", i); }
  for (int l = 0; l < 30; l++) { uint8_t* s = (uint8_t*) malloc(l + 1), d[24]; uint8_t* q = (uint8_t*) realloc(s, l ? l : 1); for (int i = 0; i < l; i++) q[i] = i + 1; for (int i = 0; i < 24; i++) d[i] = 0xA5; C3PBinBinder b; b.buf = q; b.len = l; ctx("vector type %d from %d bytes", (int) tc, l);
    int8_t r = getTypeHelper(tc)->set_from(d, TCode::BINARY, &b); CHECK((r == 0) == (l >= n), "vector_binary", "r %d", r); for (int i = 0; i < 24; i++) CHECK(d[i] == (r == 0 && i < n ? i + 1 : 0xA5), "vector_binary_bytes", "i %d", i); free(q); } }
SECTION(vectors) { vec<int>(TCode::VECT_3_INT8, 3); vec<int>(TCode::VECT_3_INT16, 6); vec<int>(TCode::VECT_3_INT32, 12); vec<int>(TCode::VECT_3_UINT8, 3); vec<int>(TCode::VECT_3_UINT16, 6); vec<int>(TCode::VECT_3_UINT32, 12); vec<int>(TCode::VECT_3_FLOAT, 12); vec<int>(TCode::VECT_3_DOUBLE, 24); }
