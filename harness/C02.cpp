#include "h.h"
#include "LightLinkedList.h"
using namespace H;
static int dummy[64];
template <class P> static void run(int rounds, bool oom) {
  for (int k = 0; k < rounds; k++) {
    long live0 = live; { LinkedList<P>* l = new LinkedList<P>(); std::deque<P> m; int dom = coin() ? 3 : 40; ctx("list:");
    int steps = range(1, 40);
    if (coin(60)) { int n = range(30, 400); ctx_append(" %d inserts", n); for (int i = 0; i < n; i++) { P v = (P) &dummy[below(dom)]; if (l->insert(v) >= 0) m.push_back(v); } steps = range(1, 12); }
    for (int i = 0; i < steps; i++) {
      P v = (P) &dummy[below(dom)]; bool failing = oom && coin(5);
      switch (below(12)) {
        case 0: case 1: case 2: { ctx_append(failing ? " insert(oom)" : " insert %d", (int) ((int*) v - dummy)); malloc_fail = failing; int x = l->insert(v); malloc_fail = 0; if (failing) CHECK(x < 0, "insert_oom", "returned %d", x); else { CHECK(x >= 0, "insert", "returned %d", x); m.push_back(v); } break; }
        case 3: { ctx_append(failing ? " insertAtHead(oom)" : " insertAtHead %d", (int) ((int*) v - dummy)); malloc_fail = failing; int x = l->insertAtHead(v); malloc_fail = 0; if (failing) CHECK(x < 0, "head_oom", "returned %d", x); else { CHECK(x == 0, "head", "returned %d", x); m.push_front(v); } break; }
        case 4: { ctx_append(" remove"); P x = l->remove(); CHECK(x == (m.empty() ? nullptr : m.front()), "remove", "wrong payload"); if (m.size()) m.pop_front(); break; }
        case 5: case 6: { ctx_append(" remove(%d)", (int) ((int*) v - dummy)); size_t n = m.size(); bool x = l->remove(v); std::deque<P> o; for (auto y : m) if (y != v) o.push_back(y); m = o; CHECK(x == (n != m.size()), "remove_value", "returned %d", x); break; }
        case 7: { int p = coin(6) ? (int) val(32) : range(-1, (int) m.size()); ctx_append(" remove_at(%d)", p); P x = l->remove(p); bool in = p >= 0 && p < (int) m.size(); CHECK(x == (in ? m[p] : nullptr), "remove_at", "wrong payload"); if (in) m.erase(m.begin() + p); break; }
        case 8: { int p = coin(6) ? (int) val(32) : range(-1, (int) m.size()); ctx_append(" get(%d)", p); P x = l->get(p); bool in = p >= 0 && p < (int) m.size(); CHECK(x == (in ? m[p] : nullptr), "get_at", "wrong payload"); break; }
        case 9: { ctx_append(" contains"); bool e = std::find(m.begin(), m.end(), v) != m.end(); CHECK(l->contains(v) == e, "contains", "want %d", e); break; }
        case 10: { CHECK(l->get() == (m.empty() ? nullptr : m.front()), "get", "wrong payload"); break; }
        case 11: if (coin(4)) { ctx_append(" clear"); int x = l->clear(); CHECK(x == (int) m.size(), "clear", "returned %d of %zu", x, m.size()); m.clear(); } break;
      }
      CHECK(l->size() == (int) m.size(), "size", "%d, want %zu", l->size(), m.size()); CHECK(l->hasNext() == !m.empty(), "hasNext", "x");
      for (size_t j = 0; j < m.size(); j++) CHECK(l->get((int) j) == m[j], "content", "position %zu of %zu", j, m.size());
      CHECK(l->get((int) m.size()) == nullptr, "content_end", "extra element");
    }
    delete l; } CHECK(live == live0, "leak", "%ld blocks remain", live - live0);
  }
}
SECTION(voidp) { run<void*>(4000 * scale, false); }
SECTION(intp) { run<int*>(4000 * scale, false); }
SECTION(oom) { run<void*>(3000 * scale, true); }
