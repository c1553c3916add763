#include "sbm.h"
static int cf(StringBuilder& b, const char* f, ...) { va_list a; va_start(a, f); int r = b.concatf(f, a); va_end(a); return r; }
static void same(StringBuilder& b, const M& m, const char* k) { S w = cat(m); CHECK(b.length() == (int) w.size(), k, "length %d, want %zu", b.length(), w.size()); S g = content(b); CHECK(g == w, k, "content %s, want %s", hex(g.substr(0, 60)).c_str(), hex(w.substr(0, 60)).c_str());
  CHECK(b.isEmpty() == w.empty(), "isEmpty", "%zu bytes", w.size()); CHECK(b.isEmpty(false) == (w.empty() || (w.size() == 1 && w[0] == 0)), "isEmpty_lax", "%zu bytes", w.size());
  size_t mx = 0, tot = 0; M f = frags(b); for (auto& x : f) { mx = std::max(mx, x.size()); tot += x.size(); CHECK(x.size() > 0, "empty_fragment", "x"); } CHECK((int) mx == b.maximumFragmentLength(), "max_fragment", "%d", b.maximumFragmentLength()); CHECK(tot == w.size(), "fragment_sum", "x"); }
static M take(M& src, size_t n) { M r; while (n && src.size()) { if (src[0].size() <= n) { n -= src[0].size(); r.push_back(src[0]); src.erase(src.begin()); } else { r.push_back(src[0].substr(0, n)); src[0] = src[0].substr(n); n = 0; } } return r; }
static void app(M& d, const M& s) { d.insert(d.end(), s.begin(), s.end()); }
static void history(bool oom, int rounds) {
  for (int k = 0; k < rounds; k++) { long live0 = live; int alpha = coin() ? 256 : 4; {
    StringBuilder* b[2] = {new StringBuilder(), new StringBuilder()}; M m[2]; ctx("history:"); int steps = range(1, 25);
    for (int i = 0; i < steps; i++) { int x = below(2), y = 1 - x; StringBuilder& B = *b[x]; StringBuilder& D = *b[y]; M was = m[x], wasd = m[y]; bool fl = oom && coin(3); S s = rtext(coin(10) ? 700 : 12, alpha); int at = fl ? range(1, 2) : 0; const char* op = "";
      #define F malloc_fail = at
      #define E malloc_fail = 0
      int len = (int) cat(m[x]).size(), dlen = (int) cat(m[y]).size(); S cs = rtext(9, 20); bool lossy = false;
      switch (below(25)) {
        case 0: case 1: { op = "concat"; uint8_t* p = exact(s); ctx_append(" %d.concat(%s%s)", x, hex(s).c_str(), fl ? " oom" : ""); F; B.concat(p, (int) s.size()); E; free(p); if (s.size()) m[x].push_back(s); break; }
        case 2: { op = "prepend"; uint8_t* p = exact(s); ctx_append(" %d.prepend(%s)", x, hex(s).c_str()); F; B.prepend(p, (int) s.size()); E; free(p); if (s.size()) m[x].insert(m[x].begin(), s); break; }
        case 3: { op = "concat_text"; ctx_append(" %d.concat('%s')", x, cs.c_str()); F; B.concat(cs.c_str()); E; if (cs.size()) m[x].push_back(cs); break; }
        case 4: { op = "concat_values"; ctx_append(" %d.concat(value)", x); int v = (int) val(32); char t[80]; F; switch (below(6)) { case 0: B.concat(v); sprintf(t, "%d", v); break; case 1: B.concat((unsigned) v); sprintf(t, "%u", (unsigned) v); break; case 2: { char c = (char) (1 + below(255)); B.concat(c); t[0] = c; t[1] = 0; break; } case 3: { uint8_t c = (uint8_t) (1 + below(255)); B.concat(c); t[0] = c; t[1] = 0; break; } case 4: B.concat((v & 1) != 0); strcpy(t, v & 1 ? "T" : "F"); break; case 5: { double d = v / 8.0; B.concat(d); sprintf(t, "%f", d); break; } } E; m[x].push_back(t); break; }
        case 5: { op = "concat_sb"; ctx_append(" %d.concat(other)", x); F; B.concat(&D); E; if (dlen) m[x].push_back(cat(m[y])); break; }
        case 6: case 7: { op = "handoff"; ctx_append(" %d.concatHandoff(other)", x); F; B.concatHandoff(&D); E; app(m[x], m[y]); m[y].clear(); break; }
        case 8: { op = "prependHandoff"; ctx_append(" %d.prependHandoff(other)", x); F; B.prependHandoff(&D); E; m[y].insert(m[y].end(), m[x].begin(), m[x].end()); m[x] = m[y]; m[y].clear(); break; }
        case 9: case 10: case 11: case 12: { op = "handoffLimit"; unsigned n = coin(10) ? (unsigned) val(32) : (unsigned) range(0, dlen + 2); if (coin() && m[y].size()) { n = 0; int fr = below(m[y].size()) + 1; for (int j = 0; j < fr; j++) n += m[y][j].size(); n += range(-1, 1); } ctx_append(" %d.concatHandoffLimit(other%s %u)", x, show(m[y]).c_str(), n); F; B.concatHandoffLimit(&D, n); E; app(m[x], take(m[y], n)); break; }
        case 13: { op = "limit"; unsigned n = coin(10) ? (unsigned) val(32) : (unsigned) range(0, dlen + 2); ctx_append(" %d.concatLimit(other, %u)", x, n); F; B.concatLimit(&D, n); E; S t = cat(m[y]).substr(0, n); if (t.size()) m[x].push_back(t); break; }
        case 14: { op = "handoff_buffer"; ctx_append(" %d.concatHandoff(buf %zu)", x, s.size()); if (s.empty()) break; uint8_t* p = dup(s); F; B.concatHandoff(p, (int) s.size()); E; m[x].push_back(s); break; }
        case 15: case 16: { op = "cull_front"; int n = coin(10) ? (int) val(32) : range(-1, len + 1); ctx_append(" %d.cull(%d)", x, n); F; B.cull(n); E; if (n > 0) { M t = {cat(m[x]).substr(std::min(n, len))}; if (t[0].empty()) t.clear(); m[x] = t; } break; }
        case 17: { op = "cull_range"; int o = coin(8) ? (int) val(32) : range(-1, len + 1), n = coin(8) ? (int) val(32) : range(0, len + 1); if (n < 0) break; ctx_append(" %d.cull(%d, %d)", x, o, n); F; B.cull(o, n); E; if (n == 0) m[x].clear(); else if (o >= 0 && (int64_t) o + n <= len) m[x] = M{cat(m[x]).substr(o, n)}; break; }
        case 18: if (coin(4)) { op = "clear"; ctx_append(" %d.clear", x); B.clear(); m[x].clear(); } break;
        case 19: { op = "case"; bool up = coin(); ctx_append(" %d.case", x); up ? B.toUpper() : B.toLower(); for (auto& f : m[x]) for (auto& c : f) { if (up && c >= 'a' && c <= 'z') c -= 32; if (!up && c >= 'A' && c <= 'Z') c += 32; } break; }
        case 20: { op = "string"; ctx_append(" %d.string", x); if (fl) break; S w = cat(m[x]); uint8_t* p = B.string(); CHECK(p && !memcmp(p, w.data(), w.size()), "string", "%zu bytes", w.size()); CHECK(p && p[w.size()] == 0, "string_terminated", "%zu bytes", w.size()); CHECK(B.count() <= 1, "string_flat", "%d fragments", B.count()); break; }
        case 21: { S w = cat(m[x]); uint32_t o = coin(8) ? (uint32_t) val(32) : (uint32_t) range(0, len + 1), n = coin(8) ? (uint32_t) val(31) : (uint32_t) range(0, len + 1); ctx_append(" %d.copyToBuffer(%u, %u)", x, n, o); S want = o < w.size() ? w.substr(o, n) : S(); size_t room = want.size(); uint8_t* p = (uint8_t*) malloc(room + !room); int g = B.copyToBuffer(p, n, o); CHECK(g == (int) want.size(), "copyToBuffer", "returned %d, want %zu", g, want.size()); CHECK(g != (int) want.size() || !memcmp(p, want.data(), g), "copyToBuffer_bytes", "%u %u", o, n); free(p);
          int q = coin(6) ? (int) val(32) : range(-1, len + 1); ctx_append(" byteAt(%d)", q); uint8_t bb = B.byteAt(q); CHECK(bb == (q >= 0 && q < len ? (uint8_t) w[q] : 0), "byteAt", "%d", q); break; }
        case 22: { op = "concatf"; int v = (int) val(32); S t = rtext(coin(4) ? 900 : 30, 26); ctx_append(" %d.concatf(%zu)", x, t.size()); std::vector<char> buf(2000); int w, r; F; if (coin()) { w = sprintf(&buf[0], "%d-%s|%04x%%%c", v, t.c_str(), v & 0xffff, 'q'); r = coin() ? B.concatf("%d-%s|%04x%%%c", v, t.c_str(), v & 0xffff, 'q') : cf(B, "%d-%s|%04x%%%c", v, t.c_str(), v & 0xffff, 'q'); } else { w = sprintf(&buf[0], "%s", t.c_str()); r = B.concatf("%s", t.c_str()); } E; if (!fl) CHECK(r == w, "concatf", "returned %d, want %d", r, w); if (w) m[x].push_back(&buf[0]); break; }
        case 23: { op = "concat_self"; ctx_append(" %d.concat(self)", x); F; B.concat(&B); E; if (len) m[x].push_back(cat(was)); break; }
        case 24: { op = "printBuffer"; if (fl) break; uint8_t* p = exact(s); ctx_append(" %d.printBuffer(%zu)", x, s.size()); StringBuilder::printBuffer(&B, p, (uint32_t) s.size(), "> "); S t; char q[80]; if (s.empty()) t = "> (NULL BUFFER)\n"; else for (size_t j = 0; j < s.size(); j++) { if (j % 16 == 0) { sprintf(q, "> 0x%04x: ", (unsigned) j); t += q; } bool full = j / 16 < s.size() / 16; sprintf(q, "%02x%s", (uint8_t) s[j], full ? (j % 16 == 15 ? "\n" : " ") : " "); t += q; if (!full && j + 1 == s.size()) t += "\n"; } m[x].push_back(t); free(p); break; }
      }
      if (fl) { S g = content(B); if (g == cat(was) && content(D) == cat(wasd)) { m[x] = was; m[y] = wasd; } }  // an allocation failed: all or nothing
      same(B, m[x], op); same(D, m[y], op); }
    delete b[0]; delete b[1]; } CHECK(live == live0, "leak", "%ld blocks remain", live - live0); }
}
SECTION(histories) { history(false, 9000 * scale); }
SECTION(out_of_memory) { history(true, 5000 * scale); }
SECTION(structure) { // fragments are handed over whole, in order
  for (int k = 0; k < 4000 * scale; k++) { M a = rfrags(4, 6, 256), b = rfrags(6, 6, 256); StringBuilder A, B; build(A, a); build(B, b); int n = range(0, (int) cat(b).size() + 1); ctx("fragments %s + %s limit %d", show(a).c_str(), show(b).c_str(), n); switch (below(3)) { case 0: A.concatHandoff(&B); app(a, b); b.clear(); break; case 1: A.prependHandoff(&B); b.insert(b.end(), a.begin(), a.end()); a = b; b.clear(); break; case 2: A.concatHandoffLimit(&B, n); app(a, take(b, n)); break; }
    CHECK(frags(A) == a, "fragments_recipient", "%s, want %s", show(frags(A)).c_str(), show(a).c_str()); CHECK(frags(B) == b, "fragments_donor", "%s, want %s", show(frags(B)).c_str(), show(b).c_str()); } }
SECTION(constructors) { for (int k = 0; k < 500; k++) { S s = rtext(30, 256), t = rtext(30, 26); ctx("constructors"); uint8_t* p = exact(s); { StringBuilder a(p, (int) s.size()), b((const uint8_t*) p, (int) s.size()), c((char*) t.c_str()), d(t.c_str()), e; CHECK(content(a) == s && content(b) == s && content(c) == t && content(d) == t && e.isEmpty(), "construct", "x"); CHECK(a.memoryCost() == (s.size() ? (int) s.size() + 13 : 0), "cost", "%d", a.memoryCost()); } free(p); } }
