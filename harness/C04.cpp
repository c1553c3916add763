#include "h.h"
#include "ElementPool.h"
using namespace H;
static int ctors = 0, dtors = 0;
struct E { uint32_t a, b; E() : a(0x1111), b(0x2222) { ctors++; } ~E() { dtors++; } };
SECTION(histories) {
  for (int k = 0; k < 1500 * scale; k++) {
    unsigned cap = below(6), lim = below(4); bool own = coin(); E* mem = own ? nullptr : (E*) malloc(sizeof(E) * cap + 1); long base = live; { ElementPool<E> p(cap, lim, mem); std::vector<E*> held; std::set<E*> pooled; unsigned od = 0, fr = 0, low = cap, nh = 0; bool started = false; ctx("capacity %u limit %u %s:", cap, lim, own ? "own memory" : "given memory");
    if (coin(8)) { malloc_fail = coin() ? 1 : 2; bool r = p.allocated(); malloc_fail = 0; ctx_append(" allocation failed"); (void) r; }
    if (coin()) { CHECK(p.allocated(), "allocated", "failed"); ctx_append(" allocated"); started = true; }
    for (int i = 0; i < 30; i++) {
      if (coin() || held.empty()) {
        unsigned fre = cap - nh; E* e = p.take(); ctx_append(" take"); started = true;
        if (fre) { CHECK(e && p.inPool(e), "take", "not from the pool though %u are free", fre); if (!e) break; if (mem) CHECK(e >= mem && e < mem + cap && ((char*) e - (char*) mem) % sizeof(E) == 0, "take", "outside the given memory"); nh++; pooled.insert(e); if (fre - 1 < low) low = fre - 1; CHECK(pooled.size() <= cap, "take", "more distinct elements than the capacity"); }
        else { if (0 < low) low = 0; if (od - fr < lim) { CHECK(e && !p.inPool(e), "overdraw", "refused below the limit"); od++; } else CHECK(!e, "overdraw", "given beyond the limit"); }
        if (e) { CHECK(std::find(held.begin(), held.end(), e) == held.end(), "take", "an element was handed out twice"); e->a = e->b = (uint32_t)(uintptr_t) e; held.push_back(e); }
      } else { int w = below(held.size()); E* e = held[w]; CHECK(e->a == (uint32_t)(uintptr_t) e && e->b == e->a, "content", "a held element was overwritten"); held.erase(held.begin() + w); bool in = pooled.count(e); int8_t r = p.give(e); ctx_append(" give"); CHECK(r == (in ? 1 : 0), "give", "returned %d", r); if (in) nh--; else fr++; }
      if (started) CHECK(p.available() == cap - nh && p.overdraws() == od && p.overdrawsFreed() == fr && p.lowWaterMark() == low && p.capacity() == cap && p.overdrawLimit() == lim, "counters", "available %u overdraws %u freed %u low %u", p.available(), p.overdraws(), p.overdrawsFreed(), p.lowWaterMark());
      if (coin(12)) { lim = below(5); p.overdrawLimit(lim); ctx_append(" limit %u", lim); }
    }
    for (auto e : held) if (!pooled.count(e)) p.give(e); }
    CHECK(live == base, "leak", "%ld blocks left", live - base); free(mem);
  }
}
