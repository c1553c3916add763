#include "h.h"
#define protected public
#include "FiniteStateMachine.h"
#undef protected
using namespace H;
enum class E8 : uint8_t { Z = 0 };
static int decision; static int entered; static bool lock; static uint32_t lockv;
struct M : public StateMachine<E8> { M(const EnumDefList<E8>* d, E8 i, unsigned n) : StateMachine<E8>("fsm", d, i, n) {} int8_t _fsm_poll() { return 0; } int8_t _fsm_set_position(E8 e) { entered = (int)(uint8_t) e; if (lock) _fsm_lockout(lockv); return (int8_t) decision; } };
static const EnumDef<E8> defs[] = { {(E8) 0, "A"}, {(E8) 1, "B"}, {(E8) 2, "BAD", 2}, {(E8) 7, "C"}, {(E8) 200, "D"}, {(E8) 255, "X", 3} };
static bool ok(uint8_t v) { return v == 0 || v == 1 || v == 7 || v == 200; }
static uint8_t pick() { static const uint8_t t[] = {0, 1, 7, 200, 0, 1, 7, 200, 0, 1, 7, 200, 2, 3, 255}; return coin(9) ? (uint8_t) rnd() : t[below(15)]; }
template <class F> static int8_t call(F f, M& m, int n, const uint8_t* a) { auto e = [&](int i) { return (E8) a[i]; }; switch (n) { case 0: return (m.*f)(0); case 1: return (m.*f)(1, e(0)); case 2: return (m.*f)(2, e(0), e(1)); case 3: return (m.*f)(3, e(0), e(1), e(2)); case 4: return (m.*f)(4, e(0), e(1), e(2), e(3)); default: return (m.*f)(5, e(0), e(1), e(2), e(3), e(4)); } }
SECTION(routes) {
  EnumDefList<E8> l(defs, 6, "states");
  for (int k = 0; k < 1200 * scale; k++) {
    unsigned cap = below(7); uint8_t init = pick(); M m(&l, (E8) init, cap); std::deque<uint8_t> q; uint8_t cur = init, prior = init; uint32_t slow = 0; FakePlat::now_us = 1000ull * (uint32_t) val(32); uint32_t lockm = (uint32_t)(FakePlat::now_us / 1000), lockp = 0; ctx("capacity %u initial %u:", cap, init);
    for (int i = 0; i < 30; i++) {
      if (coin(3)) FakePlat::now_us += 1000ull * below(5); uint32_t now = (uint32_t)(FakePlat::now_us / 1000); auto rem = [&]() { return (uint32_t)(now - lockm) >= lockp ? 0 : lockp - (uint32_t)(now - lockm); };
      uint8_t a[5]; for (auto& x : a) x = coin() ? pick() : 1; uint8_t x = pick();
      switch (below(9)) {
        case 0: case 1: { bool set = coin(); int n = below(6), pc = std::min<int>(n, set ? cap : cap - q.size()); ctx_append(set ? " set(%d:%u,%u,%u,%u,%u)" : " append(%d:%u,%u,%u,%u,%u)", n, a[0], a[1], a[2], a[3], a[4]); int w = pc <= 0 ? -1 : 0; for (int j = 0; j < pc; j++) if (!ok(a[j])) w = -2;
          int8_t r = set ? call(&M::_fsm_set_route, m, n, a) : call(&M::_fsm_append_route, m, n, a); CHECK(r == w, set ? "set_route" : "append_route", "returned %d", r); if (w == 0) { if (set) q.clear(); for (int j = 0; j < pc; j++) q.push_back(a[j]); } break; }
        case 2: { ctx_append(" append %u", x); int w = !ok(x) ? -1 : q.size() < cap ? 0 : -2; CHECK(m._fsm_append_state((E8) x) == w, "append_state", "wrong answer"); if (!w) q.push_back(x); break; }
        case 3: { ctx_append(" prepend %u", x); int w = !ok(x) ? -1 : q.size() < cap ? 0 : -2; CHECK(m._fsm_prepend_state((E8) x) == w, "prepend_state", "wrong answer"); if (!w) q.push_front(x); break; }
        case 4: case 5: case 6: { decision = coin(3) ? range(-2, 1) : 0; entered = -1; lock = coin(3); lockv = below(40); uint32_t r0 = lock ? lockv : rem(); ctx_append(" advance(%d)", decision); int8_t r = m._fsm_advance(); if (q.empty()) { CHECK(r == -1 && entered == -1, "advance", "moved without a route"); break; }
          CHECK(entered == q.front(), "advance", "entered %d", entered); if (lock) { lockm = now; lockp = lockv; } CHECK(r == (decision == 0 ? 0 : -1), "advance", "returned %d", r); if (!decision) { prior = cur; cur = q.front(); q.pop_front(); if (slow) { lockm = now; lockp = std::max(slow, r0); } } break; }
        case 7: if (coin(4)) { ctx_append(" reset %u", x); m._fsm_reset((E8) x); prior = cur; cur = x; q.clear(); lockm = now; } else { slow = coin() ? 0 : below(30); ctx_append(" slowdown %u", slow); m._fsm_slowdown(slow); } break;
        case 8: { uint32_t v = below(20); ctx_append(" lockout %u", v); m._fsm_lockout(v); lockm = now; lockp = v; break; }
      }
      CHECK((uint8_t) m.currentState() == cur && (uint8_t) m.priorState() == prior, "state", "current %u prior %u", (unsigned) m.currentState(), (unsigned) m.priorState());
      CHECK(m._fsm_is_stable() == q.empty(), "stable", "wrong"); CHECK(m._fsm_state_planned((E8) x) == (std::find(q.begin(), q.end(), x) != q.end()), "planned", "state %u", x); if (!q.empty()) CHECK((uint8_t) m._fsm_pos_next() == q.front(), "next", "wrong"); CHECK(m._fsm_is_next_pos((E8) x) == (!q.empty() && q.front() == x), "is_next", "wrong");
      CHECK(m._fsm_is_waiting() == (rem() != 0) && m._fsm_lockout() == rem(), "lockout", "remaining %u instead of %u", m._fsm_lockout(), rem());
    }
    decision = 0; lock = false; while (!q.empty()) { CHECK(m._fsm_advance() == 0 && (uint8_t) m.currentState() == q.front(), "route order", "state %u instead of %u", (unsigned) m.currentState(), q.front()); q.pop_front(); }
  }
}
