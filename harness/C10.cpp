#include "sbm.h"
static M tokens(const S& s, const S& d) { M r; S c; for (char x : s) { if (d.find(x) != S::npos) { if (c.size()) r.push_back(c); c.clear(); } else c += x; } if (c.size()) r.push_back(c); return r; }
SECTION(search) { for (int k = 0; k < 20000 * scale; k++) { int alpha = coin(3) ? 256 : range(1, 3); M m = rfrags(6, 6, alpha); StringBuilder b; build(b, m); S w = cat(m); S n = rtext(5, alpha); if (coin() && w.size()) { int i = below(w.size()); n = w.substr(i, 1 + below(5)); if (coin(4)) n += (char) ('a' + below(3)); } int st = coin(6) ? (int) val(32) : range(-1, (int) w.size() + 1);
    uint8_t* p = exact(n); ctx("locate %s in %s from %d", hex(n).c_str(), show(m).c_str(), st); int want = -1; if (n.size() && st >= 0 && st <= (int) w.size()) { size_t f = w.find(n, st); if (f != S::npos) want = (int) f; } int g = b.locate(p, (int) n.size(), st); CHECK(g == want, "locate", "found at %d, want %d", g, want);
    if (n.find('\0') == S::npos) { ctx("text locate %s in %s from %d", hex(n).c_str(), show(m).c_str(), st); CHECK(b.locate(n.c_str(), st) == want, "locate_text", "want %d", want); CHECK(b.contains(n.c_str()) == (n.size() && w.find(n) != S::npos), "contains_text", "x"); } char c = (char) ('a' + below(4)); CHECK(b.contains(c) == (w.find(c) != S::npos), "contains_char", "x");
    S q = w; if (coin() && q.size()) q[below(q.size())] ^= 1; if (coin(4)) q += 'a'; uint8_t* qq = exact(q); ctx("compare %s with %s", hex(q).c_str(), show(m).c_str()); CHECK(b.cmpBinString(qq, (int) q.size()) == (q == w && q.size()), "cmpBinString", "x"); free(qq);
    CHECK(frags(b) == m, "search_changes", "x"); free(p); } }
SECTION(replacing) { for (int k = 0; k < 20000 * scale; k++) { long live0 = live; { int alpha = range(1, 3); M m = rfrags(7, 6, alpha); StringBuilder b; build(b, m); S w = cat(m); S n = rtext(4, alpha), r = rtext(4, 26); bool fl = coin(5); ctx("replace '%s' by '%s' in %s%s", n.c_str(), r.c_str(), show(m).c_str(), fl ? " (out of memory)" : ""); S want; int cnt = 0; size_t i = 0; if (n.size()) while (i < w.size()) { if (w.compare(i, n.size(), n) == 0) { want += r; cnt++; i += n.size(); } else want += w[i++]; } else want = w;
    malloc_fail = fl ? range(1, 6) : 0; int g = b.replace(n.c_str(), (r.empty() && coin()) ? nullptr : r.c_str()); malloc_fail = 0; if (fl && g == -1) CHECK(content(b) == w, "replace_oom", "changed to %s", content(b).c_str()); else { CHECK(g == cnt, "replace_count", "returned %d, want %d", g, cnt); CHECK(content(b) == want, "replace", "%s, want %s", content(b).c_str(), want.c_str()); } } CHECK(live == live0, "replace_leak", "%ld", live - live0); } }
SECTION(tokenizing) { for (int k = 0; k < 12000 * scale; k++) { long live0 = live; { M m = rfrags(7, 6, coin() ? 3 : 256); if (coin()) for (auto& x : m) for (auto& c : x) if (coin(3)) c = ','; StringBuilder b; build(b, m); S w = cat(m); bool fl = coin(5); int op = below(3); int g;
    switch (op) {
      case 0: { S d = coin() ? "," : "a,"; S z = w; for (auto& c : z) if (!c) c = 'z'; StringBuilder e; M mz; size_t at = 0; for (auto& x : m) { mz.push_back(z.substr(at, x.size())); at += x.size(); } build(e, mz); M t = tokens(z, d); ctx("split %s by '%s'", show(mz).c_str(), d.c_str()); g = e.split(d.c_str()); CHECK(g == (int) t.size(), "split_count", "returned %d, want %zu", g, t.size()); if (t.size()) CHECK(frags(e) == t, "split", "%s, want %s", show(frags(e)).c_str(), show(t).c_str()); for (size_t i = 0; i < t.size(); i++) CHECK(!strcmp(e.position((int) i), t[i].c_str()), "token_text", "%zu", i); break; }
      case 1: { S d = rtext(3, 26); ctx("implode %s with '%s'", show(m).c_str(), d.c_str()); malloc_fail = fl; g = b.implode(d.c_str()); malloc_fail = 0; if (fl && g == -1) { CHECK(frags(b) == m, "implode_oom", "changed"); break; } S t; for (size_t i = 0; i < m.size(); i++) t += (i ? d : S()) + m[i]; if (m.size() > 1 && d.size()) { CHECK(g == (int) m.size(), "implode_count", "returned %d", g); CHECK(content(b) == t, "implode", "%s, want %s", content(b).c_str(), t.c_str()); CHECK(b.count() == 1, "implode_flat", "x"); } else { CHECK(g == 0, "implode_none", "returned %d", g); CHECK(frags(b) == m, "implode_unchanged", "x"); } break; }
      case 2: { int c = coin(8) ? (int) val(32) : range(-1, 9); ctx("chunk %s by %d%s", show(m).c_str(), c, fl ? " (out of memory)" : ""); malloc_fail = fl ? range(1, 4) : 0; g = b.chunk(c); malloc_fail = 0; if (fl && (g == -1 || content(b) != w || b.count() != g)) { CHECK(content(b) == w, "chunk_oom", "changed"); break; } if (c <= 0) { CHECK(g == -1 && frags(b) == m, "chunk_refused", "%d", g); break; } M t; for (size_t i = 0; i < w.size(); i += c) t.push_back(w.substr(i, c)); if (w.empty()) { CHECK(b.isEmpty(), "chunk_empty", "x"); break; } CHECK(g == (int) t.size(), "chunk_count", "returned %d, want %zu", g, t.size()); CHECK(frags(b) == t, "chunk", "%s, want %s", show(frags(b)).c_str(), show(t).c_str()); break; } } }
    CHECK(live == live0, "token_leak", "%ld", live - live0); } }
SECTION(positions) { for (int k = 0; k < 12000 * scale; k++) { long live0 = live; { M m = rfrags(7, 4, 256), o = rfrags(3, 4, 256); StringBuilder a, b; build(a, m); build(b, o); ctx("positions of %s", show(m).c_str()); CHECK(a.count() == m.size(), "count", "%d", a.count());
    int p = coin(8) ? (int) val(32) : range(-1, 8); int l = -9; uint8_t* q = a.position(p, &l); bool in = p >= 0 && p < (int) m.size(); CHECK(q && l == (in ? (int) m[p].size() : 0) && (!in || !memcmp(q, m[p].data(), l)), "position", "%d", p); CHECK(a.position(p) == (in ? (char*) q : a.position(p)) && (in || !*a.position(p)), "position_text", "%d", p);
    if (coin()) { ctx_append(" drop %d", p); bool r = a.drop_position((unsigned) p); CHECK(r == in, "drop", "returned %d", r); if (in) m.erase(m.begin() + p); }
    else { unsigned c = coin(8) ? (unsigned) val(32) : below(5); ctx_append(" handoff %u at %d to %s", c, p, show(o).c_str()); int r = b.concatHandoffPositions(&a, (unsigned) p, c); int n = in ? (int) std::min<uint64_t>(c, m.size() - p) : 0; CHECK(r == n, "handoff_positions", "returned %d, want %d", r, n); if (n) { o.insert(o.end(), m.begin() + p, m.begin() + p + n); m.erase(m.begin() + p, m.begin() + p + n); } }
    CHECK(frags(a) == m, "remaining", "%s, want %s", show(frags(a)).c_str(), show(m).c_str()); CHECK(frags(b) == o, "received", "%s, want %s", show(frags(b)).c_str(), show(o).c_str()); } CHECK(live == live0, "positions_leak", "%ld", live - live0); } }
SECTION(numbers) { for (int k = 0; k < 4000 * scale; k++) { uint64_t v = val(64); int w = coin() ? 32 : 64; if (w == 32) v &= 0xFFFFFFFF; char t[60]; StringBuilder b; b.concat("x"); ctx("number %llu", (unsigned long long) v);
    sprintf(t, "%lld", (long long) (int32_t) v); b.concat(t); CHECK(b.position_as_int(1) == (int32_t) v, "as_int", "%s", t); sprintf(t, "0x%llx", (unsigned long long) (uint32_t) v); b.concat(t); CHECK((uint32_t) b.position_as_int(2) == (uint32_t) v, "as_int_hex", "%s", t); sprintf(t, coin() ? "0x%llX" : "0x%llx", (unsigned long long) v); b.concat(t); CHECK(b.position_as_uint64(3) == v, "as_uint64_hex", "%s", t); sprintf(t, "%llu", (unsigned long long) v); b.concat(t); CHECK(b.position_as_uint64(4) == v, "as_uint64", "%s", t);
    S x; int n = 1 + below(24); for (int i = 0; i < n; i++) x += "0123456789abcdefABCDEF"[below(22)]; b.concat(("0x" + x).c_str()); uint64_t e = strtoull(x.substr(0, 16).c_str(), nullptr, 16); ctx("number 0x%s", x.c_str()); CHECK(b.position_as_uint64(5) == e, "as_uint64_long", "%llx", (unsigned long long) b.position_as_uint64(5)); uint32_t e4 = (uint32_t) strtoull(x.substr(0, 8).c_str(), nullptr, 16); CHECK((uint32_t) b.position_as_int(5) == e4, "as_int_long", "x"); } }
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
SECTION(statics) { for (int k = 0; k < 12000 * scale; k++) { auto mk = [&]() { S s; int n = below(8); for (int i = 0; i < n; i++) { char c = (char) ('a' + below(3)); if (coin()) c -= 32; s += c; } return s; }; S h = mk() + mk(), n = mk(); if (n.size() > 3) n = n.substr(0, 3); ctx("strcasestr '%s' in '%s'", n.c_str(), h.c_str()); auto lo = [](S s) { for (auto& c : s) c = tolower(c); return s; }; size_t f = n.empty() ? S::npos : lo(h).find(lo(n)); char* g = StringBuilder::strcasestr(h.c_str(), n.c_str()); CHECK(g == (f == S::npos ? nullptr : h.c_str() + f), "strcasestr", "x");
    S b = coin() ? h : mk(); if (coin() && b.size()) b[below(b.size())] ^= 32; ctx("strcasecmp '%s' '%s'", h.c_str(), b.c_str()); CHECK(sgn(StringBuilder::strcasecmp(h.c_str(), b.c_str())) == sgn(lo(h).compare(lo(b))), "strcasecmp", "x");
    S t; for (int i = below(4); i > 0; i--) t += " \t\n"[below(3)]; S core = h; t += core; for (int i = below(4); i > 0; i--) t += " \t\n"[below(3)]; char* z = (char*) dup(t); ctx("trim '%s'", t.c_str()); CHECK(S(StringBuilder::trim(z)) == core, "trim", "x"); free(z); unsigned mx = below(12); char* d = StringBuilder::deep_copy(t.c_str(), mx); CHECK(d && S(d) == (mx ? t.substr(0, mx) : t), "deep_copy", "x"); free(d); } CHECK(StringBuilder::deep_copy(nullptr) == nullptr, "deep_copy_null", "x"); }
