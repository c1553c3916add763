#include "h.h"
#define private public
#define protected public
#include "TimerTools/C3PScheduler.h"
#undef private
#undef protected
using namespace H;
static std::vector<int> ran; static std::function<int8_t(int)> work;
struct W : public C3PSchedule { int id; W(int i, uint32_t p, int32_t r, bool e) : C3PSchedule("w", p, r, e), id(i) {} int8_t _execute() { ran.push_back(id); return work ? work(id) : 0; } void _print_schedule(StringBuilder*) {} };
struct M { uint32_t per, at, last; int32_t rec; bool en, ex; };
static void setU(uint32_t v) { FakePlat::now_us = v; } static uint32_t nowU() { return (uint32_t) FakePlat::now_us; }
static bool again(const M& m) { return m.en && (m.rec > 0 || m.rec == -1); }
static void mrun(M& m) { uint32_t t = nowU(); if (m.en) { if (m.rec > 0) m.rec--; if (m.rec == 0) m.en = false; m.last = t; } m.at = again(m) ? t + m.per : 0; }
static bool eq(W& s, const M& m) { return s.period() == m.per && s.nextExec() == m.at && s.lastExec() == m.last && s.recurrence() == m.rec && s.enabled() == m.en && s.executingNow() == m.ex && s.willRunAgain() == again(m) && s.valid() == (m.per != 0); }
static uint32_t rper() { return coin(4) ? (uint32_t) val(32) : below(50); }
SECTION(schedule) {
  for (int k = 0; k < 6000 * scale; k++) {
    setU((uint32_t) val(32)); M m = { rper(), 0, 0, coin(3) ? -1 : (int32_t) below(4), coin(4) != 0, false }; W s(0, m.per, m.rec, m.en); ctx("schedule period %u runs %d enabled %d at %u:", m.per, m.rec, m.en, nowU()); CHECK(eq(s, m), "new schedule", "wrong settings");
    for (int i = 0; i < 12; i++) {
      setU(nowU() + below(60));
      switch (below(6)) {
        case 0: case 1: { int what = below(6); uint32_t v = rper(); int8_t ans = (int8_t) range(-2, 2); ctx_append(" run(%d,%u)", what, v); bool during = false;
          work = [&](int) { during = s.executingNow(); setU(nowU() + below(9)); if (what == 1) s.enabled(false); if (what == 2) s.period(v); if (what == 3) s.recurrence((int) (v & 3)); if (what == 4) s.delay(v); if (what == 5) s.enabled(true); return ans; };
          M w = m; if (what == 1) w.en = false; if (what == 2) w.per = v; if (what == 3) w.rec = v & 3; if (what == 5) w.en = true; uint32_t t = nowU(); ran.clear(); int8_t r = s.execute(); uint32_t t2 = nowU(); setU(t); mrun(w); setU(t2); m = w; CHECK(r == ans && ran.size() == 1 && during, "execute", "answer %d, %u runs", r, (unsigned) ran.size()); break; }
        case 2: { uint32_t v = rper(); ctx_append(" delay(%u)", v); s.delay(v); if (!m.en) m.at = nowU(); m.en = true; m.at += v; break; }
        case 3: ctx_append(" delay()"); s.delay(); m.at = nowU() + m.per; m.en = true; break;
        case 4: { bool b = coin(); ctx_append(" enabled(%d)", b); s.enabled(b); m.en = b; break; }
        case 5: { int32_t v = coin(3) ? -1 : (int32_t) below(5); ctx_append(" recurrence(%d)", v); s.recurrence(v); m.rec = v; uint32_t p = rper(); s.period(p); m.per = p; break; }
      }
      CHECK(eq(s, m), "schedule", "next %u period %u runs %d enabled %d; expected %u %u %d %d", s.nextExec(), s.period(), (int) s.recurrence(), s.enabled(), m.at, m.per, (int) m.rec, m.en);
    }
    work = nullptr;
  }
}
SECTION(scheduler) {
  for (int k = 0; k < 1500 * scale; k++) {
    const int N = 9, cap = 1 + below(6); setU((uint32_t) val(32)); C3PScheduler q(cap); std::vector<W*> s; std::vector<M> m; std::vector<int> listed; std::deque<int> queue; bool pinged = false; ctx("scheduler of %d at %u:", cap, nowU());
    for (int i = 0; i < N; i++) { M x = { 1 + below(40), 0, 0, coin(3) ? -1 : (int32_t) (1 + below(3)), coin(5) == 0 ? false : true, false }; m.push_back(x); s.push_back(new W(i, x.per, x.rec, x.en)); }
    for (int i = 0; i < 40; i++) {
      setU(nowU() + (coin(12) ? (uint32_t) val(31) : below(25))); int j = below(N); auto in = [&](int x) { return std::find(listed.begin(), listed.end(), x) != listed.end(); };
      switch (below(8)) {
        case 0: case 1: { ctx_append(" add(%d)", j); int8_t r = q.addSchedule(s[j]); bool ok = !in(j) && (int) listed.size() < cap; CHECK(ok ? r == 0 : r < 0, "add", "returned %d", r); if (ok) { listed.push_back(j); if (m[j].en) m[j].at = nowU() + m[j].per; } break; }
        case 2: case 3: case 4: ctx_append(" advance@%u", nowU()); q.advanceScheduler(); pinged = true; for (int x : listed) if (m[x].en && (uint32_t)(nowU() - m[x].at) < 0x7FFFFFFFu && std::find(queue.begin(), queue.end(), x) == queue.end()) queue.push_back(x); break;
        case 5: case 6: { ctx_append(" service"); ran.clear(); q.serviceSchedules(); std::vector<int> want; if (pinged) { want.assign(queue.begin(), queue.end()); queue.clear(); for (int x : want) mrun(m[x]); } CHECK(ran == want, "service", "%u runs instead of %u", (unsigned) ran.size(), (unsigned) want.size()); break; }
        case 7: if (coin()) { bool b = coin(); ctx_append(" enabled(%d,%d)", j, b); s[j]->enabled(b); m[j].en = b; if (b && m[j].rec == 0) { s[j]->recurrence(2); m[j].rec = 2; } } else { uint32_t v = below(60); ctx_append(" delay(%d,%u)", j, v); s[j]->delay(v); if (!m[j].en) m[j].at = nowU(); m[j].en = true; m[j].at += v; if (m[j].rec == 0) { s[j]->recurrence(1); m[j].rec = 1; } } break;
      }
      CHECK(q.scheduleCount() == listed.size() && q.containsSchedule(s[j]) == in(j), "list", "%u listed instead of %u", q.scheduleCount(), (unsigned) listed.size());
      for (size_t x = 0; x < listed.size(); x++) CHECK(q.getScheduleByIndex(x) == s[listed[x]], "list", "wrong schedule at %u", (unsigned) x);
      for (int x = 0; x < N; x++) CHECK(eq(*s[x], m[x]), "schedule state", "schedule %d: next %u runs %d enabled %d; expected %u %d %d", x, s[x]->nextExec(), (int) s[x]->recurrence(), s[x]->enabled(), m[x].at, (int) m[x].rec, m[x].en);
    }
    for (auto p : s) delete p;
  }
}
struct P : public C3PPollable { int n = 0; PollResult poll() { n++; return PollResult::REPOLL; } };
SECTION(kinds) {
  P p; int calls = 0; C3PScheduledPolling a("poll", 10, -1, true, &p); C3PScheduledLambda b("lambda", 10, -1, true, [&]() -> int8_t { calls++; return 0; });
  for (int i = 1; i <= 20; i++) { ctx("kind of schedule, run %d", i); a.execute(); b.execute(); CHECK(p.n == i, "polling", "%d polls", p.n); CHECK(calls == i, "lambda", "%d calls", calls); }
}
