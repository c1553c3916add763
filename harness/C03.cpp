#include "h.h"
#include "PriorityQueue.h"
using namespace H;
static int dummy[64];
struct E { int* v; int p; };
typedef std::vector<E> M;
static int place(const M& m, int q) { int k = 0; while (k < (int) m.size() && m[k].p >= q) k++; return k; }
static int findv(const M& m, int* v) { for (size_t i = 0; i < m.size(); i++) if (m[i].v == v) return (int) i; return -1; }
template <class P> static void run(int rounds, bool oom) {
  for (int k = 0; k < rounds; k++) {
    long live0 = live; { PriorityQueue<P>* l = new PriorityQueue<P>(); M m; int dom = coin() ? 4 : 40; int prange = coin() ? 1 : (coin() ? 3 : 0); ctx("queue:");
    int steps = range(1, 40);
    auto rp = [&]() { return prange ? range(-prange, prange) : (int) val(32); };
    if (coin(60)) { int n = range(30, 400); ctx_append(" %d inserts", n); for (int i = 0; i < n; i++) { int* vi = &dummy[below(dom)]; int q = rp(); if (l->insert((P) vi, q) >= 0) m.insert(m.begin() + place(m, q), E{vi, q}); } steps = range(1, 12); }
    for (int i = 0; i < steps; i++) {
      int* vi = &dummy[below(dom)]; P v = (P) vi; bool failing = oom && coin(5); int q = rp(); int id = (int) (vi - dummy);
      switch (below(18)) {
        case 0: case 1: case 2: case 3: { ctx_append(failing ? " insert(oom)" : " insert(%d,%d)", id, q); malloc_fail = failing; int x = l->insert(v, q); malloc_fail = 0; if (failing) CHECK(x == -1, "insert_oom", "returned %d", x); else { int w = place(m, q); CHECK(x == w, "insert", "returned %d, want %d", x, w); m.insert(m.begin() + w, E{vi, q}); } break; }
        case 4: { ctx_append(" insert(%d)", id); int x = l->insert(v); int w = place(m, 0); CHECK(x == w, "insert0", "returned %d, want %d", x, w); m.insert(m.begin() + w, E{vi, 0}); break; }
        case 5: case 6: { bool one = coin(4); if (one) q = 0; ctx_append(failing ? " insertIfAbsent(oom %d,%d)" : " insertIfAbsent(%d,%d)", id, q); malloc_fail = failing; int x = one ? l->insertIfAbsent(v) : l->insertIfAbsent(v, q); malloc_fail = 0; if (failing || findv(m, vi) >= 0) CHECK(x == -1, "absent_refused", "returned %d", x); else { int w = place(m, q); CHECK(x == w, "absent", "returned %d, want %d", x, w); m.insert(m.begin() + w, E{vi, q}); } break; }
        case 7: { ctx_append(" dequeue"); P x = l->dequeue(); CHECK(x == (m.empty() ? nullptr : (P) m[0].v), "dequeue", "wrong payload"); if (m.size()) m.erase(m.begin()); break; }
        case 8: { ctx_append(" recycle"); P x = l->recycle(); CHECK(x == (m.empty() ? nullptr : (P) m[0].v), "recycle", "wrong payload"); if (m.size() > 1) { E e = m[0]; m.erase(m.begin()); e.p = m.back().p; m.push_back(e); } break; }
        case 9: case 10: { ctx_append(" remove(%d)", id); bool x = l->remove(v); M o; for (auto& e : m) if (e.v != vi) o.push_back(e); CHECK(x == (o.size() != m.size()), "remove_value", "returned %d", x); m = o; break; }
        case 11: { int p = coin(6) ? (int) val(32) : range(-1, (int) m.size()); ctx_append(" remove_at(%d)", p); bool x = l->remove(p); bool in = p >= 0 && p < (int) m.size(); CHECK(x == in, "remove_at", "returned %d", x); if (in) m.erase(m.begin() + p); break; }
        case 12: case 13: { int w = findv(m, vi); if (w >= 0 && m[w].p == INT32_MAX) break; ctx_append(" inc(%d)", id); bool x = l->incrementPriority(v); CHECK(x == (w >= 0), "inc", "returned %d", x); if (w >= 0) { E e = m[w]; m.erase(m.begin() + w); e.p++; int k2 = place(m, e.p); if (k2 > w) k2 = w; m.insert(m.begin() + k2, e); } break; }
        case 14: case 15: { int w = findv(m, vi); if (w >= 0 && m[w].p == INT32_MIN) break; ctx_append(" dec(%d)", id); bool x = l->decrementPriority(v); CHECK(x == (w >= 0), "dec", "returned %d", x); if (w >= 0) { E e = m[w]; m.erase(m.begin() + w); e.p--; int k2 = 0; while (k2 < (int) m.size() && m[k2].p > e.p) k2++; if (k2 < w) k2 = w; m.insert(m.begin() + k2, e); } break; }
        case 16: { int p = range(-1, (int) m.size()); int w = findv(m, vi); CHECK(l->contains(v) == (w >= 0), "contains", "%d", w); CHECK(l->getPosition(v) == w, "getPosition", "want %d", w); CHECK(l->getPriority(v) == (w >= 0 ? m[w].p : -1), "getPriority", "value %d", id);
          int f = -1; for (size_t j = 0; j < m.size() && f < 0; j++) if (m[j].p == q) f = (int) j; CHECK(l->getByPriority(q) == (f < 0 ? nullptr : (P) m[f].v), "getByPriority", "pri %d", q); CHECK(l->get(p) == ((p >= 0 && p < (int) m.size()) ? (P) m[p].v : nullptr), "get_at", "%d", p); break; }
        case 17: if (coin(4)) { ctx_append(" clear"); int x = l->clear(); CHECK(x == (int) m.size(), "clear", "returned %d of %zu", x, m.size()); m.clear(); } break;
      }
      CHECK(l->size() == (int) m.size(), "size", "%d, want %zu", l->size(), m.size()); CHECK(l->hasNext() == !m.empty(), "hasNext", "x"); CHECK(l->get() == (m.empty() ? nullptr : (P) m[0].v), "get", "x");
      for (size_t j = 0; j < m.size(); j++) { CHECK(l->get((int) j) == (P) m[j].v, "content", "position %zu of %zu", j, m.size()); CHECK(l->getPriority((int) j) == m[j].p, "priority", "position %zu of %zu", j, m.size()); }
      CHECK(l->get((int) m.size()) == nullptr, "content_end", "extra element");
    }
    delete l; } CHECK(live == live0, "leak", "%ld blocks remain", live - live0);
  }
}
SECTION(voidp) { run<void*>(4000 * scale, false); }
SECTION(intp) { run<int*>(4000 * scale, false); }
SECTION(oom) { run<void*>(3000 * scale, true); }
