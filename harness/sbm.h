#pragma once
#include "h.h"
#include "StringBuilder.h"
using namespace H;
typedef std::string S; typedef std::vector<S> M;
static S cat(const M& m) { S r; for (auto& x : m) r += x; return r; }
static S rtext(int maxn, int alpha) { S r; int n = below(maxn + 1); for (int i = 0; i < n; i++) r += alpha == 256 ? (char) below(256) : (char) ('a' + below(alpha)); return r; }
static uint8_t* dup(const S& s) { uint8_t* p = (uint8_t*) malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
static uint8_t* exact(const S& s) { uint8_t* p = (uint8_t*) malloc(s.size() + !s.size()); memcpy(p, s.data(), s.size()); return p; }
// read back without changing the structure
static M frags(StringBuilder& b) { M m; int n = b.count(); for (int i = 0; i < n; i++) { int l = -1; uint8_t* p = b.position(i, &l); m.push_back(S((char*) p, l < 0 ? 0 : l)); } return m; }
static S content(StringBuilder& b) { int n = b.length(); S r(n < 0 ? 0 : n, '\xEE'); int g = b.copyToBuffer((uint8_t*) &r[0], n); if (g != n) r += "<short>"; return r; }
static void build(StringBuilder& b, const M& m) { for (auto& x : m) { if (coin(4)) b.concatHandoff(dup(x), (int) x.size()); else b.concat((uint8_t*) x.data(), (int) x.size()); } }
static M rfrags(int maxf, int maxl, int alpha) { M m; int n = below(maxf + 1); for (int i = 0; i < n; i++) { S s = rtext(maxl, alpha); if (s.size()) m.push_back(s); } return m; }
static S show(const M& m) { S r; for (auto& x : m) { r += '['; bool pr = true; for (unsigned char c : x) if (c < 32 || c > 126) pr = false; r += pr ? x.substr(0, 40) : "0x" + hex(x.substr(0, 20)); r += ']'; } return r.substr(0, 300); }
