#include "h.h"
#include "AsyncSequencer.h"
#include "StringBuilder.h"
using namespace H;
struct Rec { uint32_t flag, dep; bool req, rbl, run, com, pas; };
static std::vector<std::pair<char, int>> calls; static std::vector<int> ans_d, ans_p;
static std::string log_(const std::vector<std::pair<char, int>>& v) { std::string s; for (auto& c : v) s += sfmt(" %c%d", c.first, c.second); return s; }
SECTION(sequencer) {
  for (int k = 0; k < 500 * scale; k++) {
    int n = coin(8) ? 32 : coin(15) ? 0 : range(1, 8); std::vector<int> bit(32); for (int i = 0; i < 32; i++) bit[i] = i; for (int i = 31; i > 0; i--) std::swap(bit[i], bit[below(i + 1)]);
    uint32_t known = 0; std::vector<Rec> m(n); std::vector<int> order(n); for (int i = 0; i < n; i++) { m[i] = Rec{1u << bit[i], 0, 0, 0, 0, 0, 0}; known |= m[i].flag; order[i] = i; } for (int i = n - 1; i > 0; i--) std::swap(order[i], order[below(i + 1)]);
    bool chain = coin(3), foreign = coin(4); for (int q = 1; q < n; q++) { if (chain) m[order[q]].dep |= m[order[q - 1]].flag; else for (int e = 0; e < 2; e++) if (coin()) m[order[q]].dep |= m[order[below(q)]].flag; } if (foreign) for (int i = 0; i < n; i++) if (coin(4) && ~known) m[i].dep |= ~known & (1u << below(32));
    ctx("steps:"); for (int i = 0; i < n; i++) ctx_append(" {%x<-%x}", m[i].flag, m[i].dep);
    ans_d.assign(n, 0); ans_p.assign(n, 0); std::vector<std::string> names(n); for (int i = 0; i < n; i++) names[i] = sfmt("s%d,", i);
    StepSequenceList* l = (StepSequenceList*) malloc(sizeof(StepSequenceList) * n + 1); for (int i = 0; i < n; i++) new (l + i) StepSequenceList{m[i].flag, names[i].c_str(), m[i].dep, [i]() { calls.push_back({'d', i}); return ans_d[i]; }, [i]() { calls.push_back({'p', i}); return ans_p[i]; }};
    void* mem = malloc(sizeof(AsyncSequencer)); memset(mem, 0xA5, sizeof(AsyncSequencer)); AsyncSequencer& a = *new (mem) AsyncSequencer(l, n);
    uint32_t extra = 0;   // requested flags of no step stay out
    for (int t = 0; t < 40; t++) {
      int op = below(8);
      if (op == 0) { uint32_t q = coin() ? (uint32_t) rnd() & known : n ? m[below(n)].flag | (coin() ? ~known & (uint32_t) rnd() : 0) : (uint32_t) rnd(); ctx_append(" request(%x)", q); a.requestSteps(q); uint32_t want = q & known; for (;;) { uint32_t w = want; for (auto& r : m) if (w & r.flag) w |= r.dep & known; if (w == want) break; want = w; } for (auto& r : m) if (want & r.flag) r.req = true; }
      else if (op == 1 && coin(3)) { uint32_t q = (uint32_t) rnd() & known; ctx_append(" resetSteps(%x)", q); a.resetSteps(q); for (auto& r : m) if (q & r.flag) r.req = r.rbl = r.run = r.com = r.pas = false; }
      else if (op == 1 && coin(4)) { uint32_t q[5]; for (auto& x : q) x = (uint32_t) rnd() & known & (coin() ? (uint32_t) rnd() : ~0u); ctx_append(" setState(%x,%x,%x,%x,%x)", q[0], q[1], q[2], q[3], q[4]); a.setState(q[0], q[1], q[2], q[3], q[4]); for (auto& r : m) { r.req = q[0] & r.flag; r.rbl = q[1] & r.flag; r.run = q[2] & r.flag; r.com = q[3] & r.flag; r.pas = q[4] & r.flag; } }
      else if (op == 2 && coin(8)) { ctx_append(" reset"); a.resetSequencer(); for (auto& r : m) r.req = r.rbl = r.run = r.com = r.pas = false; }
      else {
        calls.clear(); std::vector<std::pair<char, int>> want; int chg = 0; for (int i = 0; i < n; i++) { ans_d[i] = coin(6) ? (coin() ? -1 : 2) : coin(4) ? 0 : 1; ans_p[i] = coin(6) ? (coin() ? -1 : 7) : coin(4) ? 0 : 1; }
        auto old = m; uint32_t passed = 0; for (auto& r : m) if (r.pas) passed |= r.flag;
        for (auto& r : m) if (!r.rbl && r.req && (r.dep & passed) == r.dep) r.rbl = true;
        for (int i = 0; i < n; i++) if (old[i].rbl && !old[i].run && !old[i].com) { want.push_back({'d', i}); if (ans_d[i] == 1) { m[i].run = true; m[i].com = m[i].pas = false; } else if (ans_d[i] != 0) { m[i].run = false; m[i].com = true; m[i].pas = false; } }
        for (int i = 0; i < n; i++) if (m[i].run) want.push_back({'p', i}); for (auto& w : want) if (w.first == 'p') { int i = w.second; if (ans_p[i] == 1) { m[i].run = false; m[i].com = m[i].pas = true; } else if (ans_p[i] != 0) { m[i].run = false; m[i].com = true; m[i].pas = false; } }
        for (int i = 0; i < n; i++) { chg += old[i].run != m[i].run; chg += old[i].com != m[i].com; chg += (old[i].rbl && !old[i].run && !old[i].com) != (m[i].rbl && !m[i].run && !m[i].com); }
        int8_t r = a.poll(); ctx_append(" poll"); CHECK(calls == want, "calls", "called%s, expected%s", log_(calls).c_str(), log_(want).c_str()); CHECK(r == chg, "poll count", "returned %d instead of %d", r, chg);
      }
      uint32_t R = 0, B = 0, U = 0, C = 0, P = 0, e[5] = {0, 0, 0, 0, 0}; a.getState(&R, &B, &U, &C, &P); for (auto& r : m) { e[0] |= r.req ? r.flag : 0; e[1] |= r.rbl ? r.flag : 0; e[2] |= r.run ? r.flag : 0; e[3] |= r.com ? r.flag : 0; e[4] |= r.pas ? r.flag : 0; }
      CHECK(R == e[0], "requested", "%x instead of %x", R, e[0]); CHECK(B == e[1], "runnable", "%x instead of %x", B, e[1]); CHECK(U == e[2], "running", "%x instead of %x", U, e[2]); CHECK(C == e[3], "complete", "%x instead of %x", C, e[3]); CHECK(P == e[4], "passed", "%x instead of %x", P, e[4]);
      CHECK(a.steps_running() == (U != 0) && a.request_fulfilled() == ((R & ~(P & C)) == 0) && a.request_completed() == ((R & ~C) == 0) && a.all_steps_have_run() == ((B & ~C) == 0) && a.all_steps_have_passed() == ((B & ~P) == 0), "queries", "wrong answer");
      CHECK(a.failed_steps(true) == (B & ~P) && a.failed_steps(false) == (C & ~P), "failed_steps", "wrong answer"); if (R != e[0]) break;
    }
    StringBuilder o; std::string all; for (auto& s : names) all += s; CHECK(a.stepList(&o) == (uint32_t) n && all == std::string((char*) o.string(), o.length()), "stepList", "wrong"); CHECK(a.getStep(n) == nullptr && (!n || a.getStep(n - 1) == l + n - 1), "getStep", "wrong");
    for (int i = 0; i < n; i++) l[i].~StepSequenceList(); free(l); free(mem);
  }
}
