#include "h.h"
#include "RingBuffer.h"
using namespace H;
struct __attribute__((packed)) S3 { uint8_t a, b, c; S3() {} S3(int x) : a(x), b(x >> 8), c(x >> 16) {} };
template <class T> static T mk(uint64_t v) { T t; memset(&t, 0, sizeof t); memcpy(&t, &v, sizeof(T) < 8 ? sizeof(T) : 8); return t; }
template <class T> static bool eq(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
template <class T> static void run(const char* nm, int rounds) {
  for (int k = 0; k < rounds; k++) {
    unsigned cap = coin(6) ? 0 : coin(3) ? 1 + below(4) : coin(6) ? (unsigned) (val(16) & 0x1FF) : 1 + below(20);
    long live0 = live; { RingBuffer<T>* r = new RingBuffer<T>(cap); std::deque<T> m; bool al = false;
    ctx("%s capacity %u:", nm, cap); const T z = mk<T>(0);
    if (coin()) { al = r->allocated(); CHECK(al, "allocated", "false"); }
    int steps = range(1, 50), dom = coin() ? 3 : 256;
    for (int i = 0; i < steps; i++) {
      int op = below(13);
      switch (op) {
        case 0: case 1: { T v = mk<T>(coin(3) ? val(64) : below(dom)); ctx_append(" insert"); int x = r->insert(v); bool ok = m.size() < cap; CHECK((x == 0) == ok && (ok || x < 0), "insert", "returned %d with %zu/%u", x, m.size(), cap); if (ok) m.push_back(v); break; }
        case 2: case 3: { int n = coin(8) ? 0 : range(1, 12); T* d = new T[n ? n : 1]; for (int j = 0; j < n; j++) d[j] = mk<T>(coin(3) ? val(64) : below(dom)); ctx_append(" insert[%d]", n); int x = r->insert(d, n); int e = std::min<int>(n, cap - m.size()); if (e <= 0) CHECK(x <= 0, "insert_n", "returned %d", x); else CHECK(x == e, "insert_n", "returned %d, %d fit", x, e); for (int j = 0; j < e; j++) m.push_back(d[j]); delete[] d; break; }
        case 4: { ctx_append(" get"); T x = r->get(); CHECK(eq(x, m.empty() ? z : m.front()), "get", "wrong element"); if (m.size()) m.pop_front(); break; }
        case 5: { ctx_append(" peek"); T x = r->peek(); CHECK(eq(x, m.empty() ? z : m.front()), "peek", "wrong element"); break; }
        case 6: { int n = coin(6) ? 0 : range(1, 12); T* d = new T[n ? n : 1]; ctx_append(" get[%d]", n); int x = r->get(d, n); int e = std::min<int>(n, m.size()); if (n) CHECK(x == e, "get_n", "returned %d, want %d", x, e); else CHECK(x <= 0, "get_n", "returned %d", x); for (int j = 0; j < e; j++) { CHECK(eq(d[j], m.front()), "get_n_data", "element %d", j); m.pop_front(); } delete[] d; break; }
        case 7: { int n = coin(6) ? 0 : range(1, 12); T* d = new T[n ? n : 1]; ctx_append(" peek[%d]", n); int x = r->peek(d, n); int e = std::min<int>(n, m.size()); if (n) CHECK(x == e, "peek_n", "returned %d, want %d", x, e); else CHECK(x <= 0, "peek_n", "returned %d", x); for (int j = 0; j < e; j++) CHECK(eq(d[j], m[j]), "peek_n_data", "element %d", j); delete[] d; break; }
        case 8: { unsigned n = coin(5) ? 0xFFFFFFFFu : below(8); ctx_append(" cull(%u)", n); int x = r->cull(n); unsigned e = std::min<unsigned>(n, m.size()); if (n) CHECK(x == (int) e, "cull", "returned %d, want %u", x, e); else CHECK(x <= 0, "cull", "returned %d", x); for (unsigned j = 0; j < e; j++) m.pop_front(); break; }
        case 9: if (coin(4)) { ctx_append(" clear"); r->clear(); m.clear(); } break;
        case 10: { T v = mk<T>(coin(3) ? val(64) : below(dom)); if (m.size() && coin()) v = m[below(m.size())]; ctx_append(" contains"); bool e = false; for (auto& y : m) e |= eq(y, v); CHECK(r->contains(v) == e, "contains", "want %d", e); break; }
        case 11: { T v = mk<T>(below(dom)); bool e = false; for (auto& y : m) e |= eq(y, v); ctx_append(" insertIfAbsent"); int x = r->insertIfAbsent(v); if (e) CHECK(x == -2, "absent", "returned %d", x); else { bool ok = m.size() < cap; CHECK((x == 0) == ok, "absent", "returned %d", x); if (ok) m.push_back(v); } break; }
        case 12: { if (m.size()) { unsigned j = below(m.size()); ctx_append(" peek(%u)", j); CHECK(eq(r->peek(j), m[j]), "peek_i", "element %u", j); } unsigned j = cap + (coin() ? 0 : (uint32_t) val(32) % 1000); CHECK(eq(r->peek(j), z), "peek_out", "index %u of %u", j, cap); break; }
      }
      CHECK(r->count() == m.size(), "count", "count %u, want %zu", r->count(), m.size()); CHECK(r->vacancy() == cap - m.size(), "vacancy", "%u", r->vacancy()); CHECK(r->isEmpty() == m.empty(), "empty", "x"); CHECK(r->capacity() == cap, "capacity", "%u", r->capacity()); CHECK(r->heap_use() == cap * sizeof(T), "heap", "%u", r->heap_use());
      for (size_t j = 0; j < m.size(); j++) CHECK(eq(r->peek((unsigned) j), m[j]), "content", "element %zu of %zu", j, m.size());
    }
    delete r; } CHECK(live == live0, "leak", "%ld blocks remain", live - live0);
  }
}
SECTION(u8) { run<uint8_t>("u8", 1500 * scale); }
SECTION(u16) { run<uint16_t>("u16", 800 * scale); }
SECTION(u32) { run<uint32_t>("u32", 1500 * scale); }
SECTION(u64) { run<uint64_t>("u64", 800 * scale); }
SECTION(ptr) { run<void*>("pointer", 800 * scale); }
SECTION(f32) { run<float>("float", 800 * scale); }
SECTION(s3) { run<S3>("struct3", 800 * scale); }
// rings longer than any byte-wide index: the sought element sits near the far end
SECTION(big) {
  for (int k = 0; k < 60 * scale; k++) {
    unsigned cap = 250 + below(coin() ? 20 : 900), n = coin(3) ? cap : cap - below(20), skew = below(cap); RingBuffer<uint16_t> r(cap); ctx("ring of %u, %u elements, rotated by %u", cap, n, skew);
    for (unsigned i = 0; i < skew; i++) { r.insert((uint16_t) 0); r.get(); }
    for (unsigned i = 0; i < n; i++) CHECK(r.insert((uint16_t)(1000 + i)) == 0, "big_insert", "element %u refused", i);
    for (int q = 0; q < 8; q++) { unsigned j = q ? below(n) : n - 1; CHECK(r.contains((uint16_t)(1000 + j)), "big_contains", "element %u not found", j); CHECK(r.insertIfAbsent((uint16_t)(1000 + j)) == -2, "big_absent", "element %u inserted again", j); CHECK(r.peek(j) == 1000 + j, "big_peek", "element %u", j); }
    CHECK(!r.contains((uint16_t) 999) && !r.contains((uint16_t)(1000 + n)), "big_missing", "found an element that is not there"); CHECK(r.count() == n, "big_count", "%u", r.count());
    for (unsigned i = 0; i < n; i++) { unsigned x = r.get(); CHECK(x == 1000 + i, "big_get", "element %u is %u", i, x); }
  }
}
