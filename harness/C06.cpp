#include "h.h"
#include "AbstractPlatform.h"
#include "TimerTools/TimerTools.h"
using namespace H;
template <class T> static void delta(int bits) { for (int k = 0; k < 3000 * scale; k++) { T a = (T) val(bits), b = (T) val(bits); ctx("delta_assume_wrap<%d>(%llu,%llu)", bits, (unsigned long long) a, (unsigned long long) b); CHECK(delta_assume_wrap(a, b) == (T)(a - b), "delta", "got %llu", (unsigned long long) delta_assume_wrap(a, b)); } }
SECTION(delta) { delta<uint8_t>(8); delta<uint16_t>(16); delta<uint32_t>(32); delta<uint64_t>(64); for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { ctx("delta8 %d %d", a, b); CHECK(delta_assume_wrap((uint8_t) a, (uint8_t) b) == (uint8_t)(a - b), "delta8", "wrong"); } }
static uint32_t nowU() { return (uint32_t) FakePlat::now_us; } static uint32_t nowM() { return (uint32_t)(FakePlat::now_us / 1000); }
static void setU(uint32_t v) { FakePlat::now_us = v; } static void setM(uint32_t v) { FakePlat::now_us = 1000ull * v; }
SECTION(since) {
  for (int k = 0; k < 5000 * scale; k++) {
    uint32_t n = (uint32_t) val(32), m = (uint32_t) val(32); ctx("since/until now %u mark %u", n, m);
    setU(n); CHECK(micros_since(m) == (uint32_t)(n - m), "micros_since", "%lu", micros_since(m)); CHECK(micros_until(m) == (uint32_t)(m - n), "micros_until", "%lu", micros_until(m));
    setM(n); CHECK(millis_since(m) == (uint32_t)(n - m), "millis_since", "%lu", millis_since(m)); CHECK(millis_until(m) == (uint32_t)(m - n), "millis_until", "%lu", millis_until(m));
  }
}
template <class C> static void timeouts(void (*set)(uint32_t), uint32_t (*now)(), const char* nm) {
  for (int k = 0; k < 5000 * scale; k++) {
    uint32_t p = (uint32_t) val(32), m = (uint32_t) val(32), e = coin() ? (uint32_t) val(32) : p + (uint32_t) range(-2, 2);
    C t(p); set(m); t.reset(); uint32_t n = m + e; set(n); ctx("%s period %u mark %u now %u", nm, p, m, n);
    bool ex = p == 0 || e >= p; CHECK(t.expired() == ex, "expired", "got %d", t.expired()); CHECK(t.remaining() == (ex ? 0 : p - e), "remaining", "got %lu", t.remaining());
    CHECK(t.enabled() == (p != 0) && t.period() == p, "period", "wrong");
    if (p != 0xFFFFFFFF) { t.trigger(); CHECK(t.expired(), "trigger", "not expired"); }
    uint32_t q = (uint32_t) val(32); t.reset(q); CHECK(t.period() == q && t.expired() == (q == 0) && t.remaining() == q, "reset", "wrong");
    set(n + q - 1); if (q > 0) CHECK(!t.expired() && t.remaining() == 1, "reset", "too early");
    set(n + q); CHECK(t.expired() && t.remaining() == 0, "reset", "too late");
  }
}
SECTION(timeouts) { timeouts<MillisTimeout>(setM, nowM, "MillisTimeout"); timeouts<MicrosTimeout>(setU, nowU, "MicrosTimeout"); }
// a clock that advances at each read
class Ticking : public PeriodicTimeout { public: Ticking(unsigned long p) : PeriodicTimeout(p), t(0), step(1) {} uint32_t t, step;
  unsigned long _now() { uint32_t r = t; t += step; return r; } unsigned long _since(unsigned long m) { return (uint32_t)(_now() - m); } unsigned long _until(unsigned long m) { return (uint32_t)(m - _now()); } };
SECTION(ticking) { for (int k = 0; k < 3000 * scale; k++) { uint32_t p = 1 + below(60); Ticking t(p); t.t = (uint32_t) val(32); t.step = 1 + below(5); t.reset(); ctx("ticking clock period %u step %u", p, t.step);
  for (int i = 0; i < 60; i++) CHECK(t.remaining() <= p, "remaining_tick", "remaining exceeds the period"); } }
SECTION(stopwatch) {
  for (int k = 0; k < 1500 * scale; k++) {
    uint32_t tag = (uint32_t) val(32); void* mem = malloc(sizeof(StopWatch)); memset(mem, 0xA5, sizeof(StopWatch)); StopWatch& w = *(new (mem) StopWatch(tag));
    uint32_t best = 0xFFFFFFFF, worst = 0, last = 0, total = 0, n = 0; bool run = false; uint32_t st = 0; ctx("stopwatch");
    for (int i = 0; i < 14; i++) {
      uint32_t now = (uint32_t) val(32); setU(now); int op = below(8);
      auto add = [&](uint32_t d) { last = d; if (d < best) best = d; if (d > worst) worst = d; total += d; n++; };
      if (op < 2) { if (now == 0) continue; w.markStart(); run = true; st = now; ctx_append(" start@%u", now); }
      else if (op < 5) { bool r = w.markStop(); ctx_append(" stop@%u", now); CHECK(r == run, "markStop", "returned %d", r); if (run) { add(now - st); run = false; } }
      else if (op < 7) { uint32_t a = (uint32_t) val(32); w.addRuntime(a, now); ctx_append(" add(%u,%u)", a, now); add(now - a); run = false; }
      else if (!run) { w.reset(); ctx_append(" reset"); best = 0xFFFFFFFF; worst = last = total = n = 0; }
      CHECK(w.bestTime() == best && w.worstTime() == worst && w.lastTime() == last && w.totalTime() == total && w.executions() == n && w.tag() == tag, "stats", "best %u worst %u last %u total %u n %u", w.bestTime(), w.worstTime(), w.lastTime(), w.totalTime(), w.executions());
      CHECK(w.meanTime() == (n ? total / n : 0), "mean", "got %u", w.meanTime());
    }
    free(mem);
  }
}
