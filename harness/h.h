/* Shared replay/bounded-search support.  Each SECTION runs in a forked child; a crash, sanitizer report or hang is a
   failure of that section, reported with the description of the case that was running. */
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <deque>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
namespace H {
  extern uint64_t seed; extern int scale;         // scale: 1 quick, more for thorough / search
  extern std::vector<uint64_t> hints;
  uint64_t rnd();                                  // deterministic
  inline uint32_t r32() { return (uint32_t) rnd(); }
  inline uint32_t below(uint32_t n) { return n ? (uint32_t)(rnd() % n) : 0; }
  inline int range(int a, int b) { return a + (int) below((uint32_t)(b - a + 1)); }
  inline bool coin(int n = 2) { return below(n) == 0; }
  uint64_t val(int bits);                          // boundary-biased value, also drawn from the solver's counterexample
  std::string bytes(size_t n);                     // random bytes
  std::string hex(const void* p, size_t n);
  inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
  void ctx(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // describe the running case (for crashes)
  void ctx_append(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
  void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  bool failed(const char* key);
  extern uint64_t cases;
  extern int malloc_fail;                          // >0: the n-th malloc from now on fails (1: the next one); -1: all fail
  extern long live;                                // heap blocks currently allocated (operator new and malloc)
  struct Section { Section(const char* name, void (*fn)(), int secs); };
  std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
}
#define SECTION(nm) static void sec_##nm(); static H::Section reg_##nm(#nm, sec_##nm, 60); static void sec_##nm()
#define CHECK(cond, key, ...) do { if (!(cond)) H::fail(key, __VA_ARGS__); } while (0)
namespace FakePlat { extern uint64_t now_us; extern uint32_t (*rand_hook)(); }
