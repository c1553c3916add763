#include "h.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "cbor-cpp/cbor.h"
#include <string>
#include <vector>
using namespace H;
typedef std::vector<uint8_t> V;
/* the x87 quiets a signalling NaN when it is passed by value: compare NaNs with the quiet bit set */
static uint64_t qn(uint64_t b) { return (b & 0x7F800000) == 0x7F800000 && (b & 0x7FFFFF) ? b | 0x400000 : b; } static uint64_t qd(uint64_t b) { return (b >> 52 & 0x7FF) == 0x7FF && (b << 12) ? b | 1ULL << 51 : b; }
struct Ev { char k; uint64_t v; V d; bool operator==(const Ev& o) const { return k == o.k && v == o.v && d == o.d; } };
struct L : cbor::listener { std::vector<Ev> e; void A(char k, uint64_t v) { e.push_back(Ev{k, v, V()}); }
  void on_integer(int8_t v) { A('n', (uint64_t)(int64_t) v); } void on_integer(int16_t v) { A('n', (uint64_t)(int64_t) v); } void on_integer(int32_t v) { A('n', (uint64_t)(int64_t) v); } void on_integer(int64_t v) { A('n', (uint64_t) v); }
  void on_integer(uint8_t v) { A('p', v); } void on_integer(uint16_t v) { A('p', v); } void on_integer(uint32_t v) { A('p', v); } void on_integer(uint64_t v) { A('p', v); }
  void on_float32(float v) { uint32_t b; memcpy(&b, &v, 4); A('f', qn(b)); } void on_double(double v) { uint64_t b; memcpy(&b, &v, 8); A('d', qd(b)); } void on_bytes(uint8_t* p, int n) { e.push_back(Ev{'b', (uint64_t) n, V(p, p + n)}); }
  void on_string(char* s) { e.push_back(Ev{'s', 0, V((uint8_t*) s, (uint8_t*) s + strlen(s))}); } void on_array(int n) { A('a', (uint32_t) n); } void on_map(int n) { A('m', (uint32_t) n); } void on_tag(unsigned t) { A('t', t); } void on_special(unsigned c) { A('x', c); }
  void on_bool(bool b) { A('B', b); } void on_null() { A('0', 0); } void on_undefined() { A('u', 0); } void on_error(const char*) { A('E', 0); } void on_extra_integer(uint64_t v, int s) { A(s == -1 ? 'N' : '?', v); } void on_extra_tag(uint64_t v) { A('T', v); } };
// reference: decode in[], stop at an incomplete item
static std::vector<Ev> refd(const V& in) {
  std::vector<Ev> r; size_t i = 0, n = in.size();
  while (i < n) { int mj = in[i] >> 5, mn = in[i] & 31, x = mn == 24 ? 1 : mn == 25 ? 2 : mn == 26 ? 4 : mn == 27 ? 8 : 0; if (mn >= 28) { r.push_back(Ev{'E', 0, V()}); break; }
    if (n - i - 1 < (size_t) x) break; uint64_t v = x ? 0 : mn; for (int k = 0; k < x; k++) v = (v << 8) | in[i + 1 + k]; size_t at = i + 1 + x; Ev e{'?', v, V()};
    switch (mj) { case 0: e.k = 'p'; break; case 1: if (v >> 63) e.k = 'N'; else { e.k = 'n'; e.v = (uint64_t) (-1 - (int64_t) v); } break;
      case 2: case 3: if (x == 8 || v >= 0x7FFFFFFF) { r.push_back(Ev{'E', 0, V()}); return r; } if (n - at < v) return r; e.d = V(in.begin() + at, in.begin() + at + v); at += v; e.k = mj == 2 ? 'b' : 's'; if (mj == 3) { e.v = 0; size_t z = 0; while (z < e.d.size() && e.d[z]) z++; e.d.resize(z); } break;
      case 4: case 5: if (x == 8) { r.push_back(Ev{'E', 0, V()}); return r; } e.k = mj == 4 ? 'a' : 'm'; break; case 6: e.k = x == 8 ? 'T' : 't'; break;
      case 7: if (mn < 20 || mn == 24 || mn == 25) e.k = 'x'; else if (mn < 22) { e.k = 'B'; e.v = mn - 20; } else if (mn < 24) { e.k = mn == 22 ? '0' : 'u'; e.v = 0; } else { e.k = mn == 26 ? 'f' : 'd'; e.v = mn == 26 ? qn(e.v) : qd(e.v); } break; }
    r.push_back(e); i = at; }
  return r;
}
static std::string hx(const V& v) { std::string s; char b[4]; for (size_t i = 0; i < v.size() && i < 40; i++) { sprintf(b, "%02x", v[i]); s += b; } return s; }
static void same(const std::vector<Ev>& g, const std::vector<Ev>& w, const char* nm) { bool ok = g == w; size_t i = 0; while (i < g.size() && i < w.size() && g[i] == w[i]) i++; CHECK(ok, nm, "%d events, expected %d; first difference at %d (%c %llx)", (int) g.size(), (int) w.size(), (int) i, i < g.size() ? g[i].k : '-', i < g.size() ? (unsigned long long) g[i].v : 0ULL); }
static void feed(const V& in) {
  std::vector<Ev> w = refd(in); ctx("bytes %s (%d)", hx(in).c_str(), (int) in.size()); uint8_t* p = (uint8_t*) malloc(in.size() + !in.size()); if (in.size()) memcpy(p, &in[0], in.size());
  { L l; cbor::input_static i(p, in.size()); cbor::decoder d(i, l); d.run(); same(l.e, w, "static_input"); CHECK(d.failed() == (w.size() && w.back().k == 'E'), "failed", "x"); }
  for (int m = 0; m < 3; m++) { L l; StringBuilder* sb = new StringBuilder(); { cbor::input_stringbuilder i(sb, m > 0, false); cbor::decoder d(i, l); size_t at = 0; while (at < in.size()) { size_t k = 1 + below(m == 2 ? 3 : 9); if (k > in.size() - at) k = in.size() - at; sb->concat(p + at, (int) k); at += k; d.run(); } } delete sb; same(l.e, w, m ? "consumed_fragments" : "fragments"); }
  if (in.size()) { L l; StringBuilder* sb = new StringBuilder(p, (int) in.size()); { cbor::input_stringbuilder i(sb, true, true); cbor::decoder d(i, l); d.run(); } same(l.e, w, "consumed_container"); }
  free(p);
}
SECTION(heads) { V v; for (int b = 0; b < 256; b++) for (int k = 0; k < 10; k++) { v.clear(); v.push_back(b); for (int i = 0; i < k; i++) v.push_back(rnd()); v.push_back(0x01); feed(v); }
  uint64_t e[] = {0, 1, 23, 24, 127, 128, 254, 255, 256, 32767, 32768, 65534, 65535, 65536, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x100000000ULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, ~0ULL};
  for (uint64_t n : e) for (int mj = 0; mj < 8; mj++) for (int mn = 24; mn < 28; mn++) { v.clear(); v.push_back(mj << 5 | mn); for (int k = (1 << (mn - 24)) - 1; k >= 0; k--) v.push_back((uint8_t) (n >> (8 * k))); v.push_back(7); for (int k = 0; k < 300; k++) if (mj == 2 || mj == 3) v.push_back(k); feed(v); } }
SECTION(hostile) { for (int k = 0; k < 3000 * scale; k++) { V v; int n = below(40); for (int i = 0; i < n; i++) v.push_back(below(3) ? rnd() : (below(8) << 5) | below(8)); feed(v); } }
struct Enc { uint8_t b[512]; cbor::output_static o; StringBuilder sb; cbor::output_stringbuilder os; cbor::encoder e, f; Enc() : o(512, b), os(&sb), e(o), f(os) {}
  V done() { CHECK(o.size() == (uint32_t) sb.length(), "output_lengths", "x"); CHECK(o.size() == 0 || !memcmp(o.data(), sb.string(), o.size()), "outputs_differ", "x"); return V(b, b + o.size()); } };
template <class T> static void integer(T v) { Enc x; ctx("integer of %d bytes %lld", (int) sizeof(T), (long long) v); x.e.write_int(v); x.f.write_int(v); V o = x.done(); std::vector<Ev> r = refd(o); CHECK(r.size() == 1, "one_item", "%d", (int) r.size()); if (r.size() == 1) { bool neg = v < (T) 0; CHECK(r[0].k == (neg ? 'n' : 'p') && r[0].v == (uint64_t) (int64_t) v, "integer_value", "%c %llx", r[0].k, (unsigned long long) r[0].v);
  uint64_t m = neg ? (uint64_t) (-1 - (int64_t) v) : (uint64_t) v; size_t want = m < 24 ? 1 : m < 256 ? 2 : m < 65536 ? 3 : m <= 0xFFFFFFFFULL ? 5 : 9; CHECK(o.size() == want, "shortest_form", "%d", (int) o.size()); } feed(o); }
SECTION(encode_integers) { for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { uint64_t v = (1ULL << k) + d; integer((uint8_t) v); integer((uint16_t) v); integer((uint32_t) v); integer((uint64_t) v); integer((int8_t) v); integer((int16_t) v); integer((int32_t) v); integer((int64_t) v); integer((int64_t) (0 - v)); integer((int32_t) (0 - v)); } }
SECTION(encode_others) {
  for (int k = 0; k < 400 * scale; k++) { Enc x; std::vector<Ev> w; uint32_t u = (uint32_t) val(32); ctx("mixed items, case %d", k);
    x.e.write_tag(u); x.f.write_tag(u); w.push_back(Ev{'t', u, V()}); x.e.write_array(u); x.f.write_array(u); w.push_back(Ev{'a', u, V()}); x.e.write_map(u); x.f.write_map(u); w.push_back(Ev{'m', u, V()}); bool b = u & 1; x.e.write_bool(b); x.f.write_bool(b); w.push_back(Ev{'B', b, V()});
    uint32_t fb = qn(r32()); float f; memcpy(&f, &fb, 4); x.e.write_float(f); x.f.write_float(f); memcpy(&fb, &f, 4); w.push_back(Ev{'f', fb, V()}); uint64_t db = qd(rnd()); double d; memcpy(&d, &db, 8); x.e.write_double(d); x.f.write_double(d); memcpy(&db, &d, 8); w.push_back(Ev{'d', db, V()});
    V c; int n = 1 + below(60); for (int i = 0; i < n; i++) c.push_back(1 + below(255)); x.e.write_bytes(&c[0], n); x.f.write_bytes(&c[0], n); w.push_back(Ev{'b', (uint64_t) n, c}); x.e.write_string((char*) &c[0], n); x.f.write_string((char*) &c[0], n); w.push_back(Ev{'s', 0, c}); V z = c; z.push_back(0); x.e.write_string((char*) &z[0]); x.f.write_string((char*) &z[0]); w.push_back(Ev{'s', 0, c});
    uint32_t aw[8] = {1, 2, 3, 4, 5, 6, 7, 8}; int t = below(6); const uint32_t CN = 1 + below(8); int by = 4, tag = 0; int8_t r1 = 0, r2 = 0;
    switch (t) { case 0: r1 = x.e.write_typed_array((uint32_t*) aw, CN); r2 = x.f.write_typed_array((uint32_t*) aw, CN); tag = 70; break; case 1: r1 = x.e.write_typed_array((uint8_t*) aw, CN); r2 = x.f.write_typed_array((uint8_t*) aw, CN); tag = 68; by = 1; break; case 2: r1 = x.e.write_typed_array((float*) aw, CN); r2 = x.f.write_typed_array((float*) aw, CN); tag = 85; break;
      case 3: r1 = x.e.write_typed_array((int16_t*) aw, CN); r2 = x.f.write_typed_array((int16_t*) aw, CN); tag = 77; by = 2; break; case 4: r1 = x.e.write_typed_array((double*) aw, CN / 2 + 1 > 4 ? 4 : CN / 2 + 1); r2 = x.f.write_typed_array((double*) aw, CN / 2 + 1 > 4 ? 4 : CN / 2 + 1); tag = 86; by = 8; break; case 5: r1 = x.e.write_typed_array((int64_t*) aw, 3); r2 = x.f.write_typed_array((int64_t*) aw, 3); tag = 79; by = 8; break; }
    uint32_t cnt = t == 4 ? (CN / 2 + 1 > 4 ? 4 : CN / 2 + 1) : t == 5 ? 3 : CN; CHECK(r1 == 0 && r2 == 0, "typed_array", "x"); w.push_back(Ev{'t', (uint64_t) tag, V()}); w.push_back(Ev{'b', (uint64_t) cnt * by, V((uint8_t*) aw, (uint8_t*) aw + cnt * by)});
    V o = x.done(); same(refd(o), w, "encoded_items"); feed(o); }
  { Enc x; ctx("empty typed array"); uint8_t q = 0; CHECK(x.e.write_typed_array(&q, 0) == -2 && x.o.size() == 0, "empty_array", "x"); }
  for (int cap = 0; cap < 12; cap++) { uint8_t* b = (uint8_t*) malloc(cap + !cap); cbor::output_static o(cap, b); ctx("static output of %d bytes", cap); uint8_t s[20]; memset(s, 7, 20); int at = 0; for (int k = 0; k < 30; k++) { int n = 1 + below(5); bool one = below(2); bool fit = at + (one ? 1 : n) <= cap; int8_t r = one ? o.put_byte(7) : o.put_bytes(s, n); CHECK((r == 0) == fit, "room", "r %d", r); if (fit) at += one ? 1 : n; CHECK((int) o.size() == at, "static_size", "x"); } free(b); }
  { ctx("allocating static output"); cbor::output_static o(8); CHECK(o.data() && o.put_byte(1) == 0, "alloc", "x"); }
}
