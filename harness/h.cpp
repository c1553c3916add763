#include "h.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <signal.h>
#include <time.h>
namespace H {
  uint64_t seed = 1; int scale = 1; std::vector<uint64_t> hints; uint64_t cases = 0;
  static uint64_t s0 = 88172645463325252ull;
  uint64_t rnd() { s0 += 0x9E3779B97F4A7C15ull; uint64_t z = s0; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t val(int bits) {
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    if (!hints.empty() && below(4) == 0) return (hints[below(hints.size())] + (uint64_t)(int64_t) (below(3) == 0 ? range(-1, 1) : 0)) & m;
    switch (below(8)) {
      case 0: return below(4) & m;
      case 1: return (m - below(4)) & m;
      case 2: return ((1ull << (bits - 1)) + (uint64_t)(int64_t) range(-2, 2)) & m;
      case 3: { uint64_t b = 1ull << below(bits); return (b + (uint64_t)(int64_t) range(-2, 2)) & m; }
      case 4: return rnd() & m & ((1ull << below(bits)) * 2 - 1);
      case 5: return below(300) & m;
      default: return rnd() & m;
    }
  }
  std::string bytes(size_t n) { std::string r; for (size_t i = 0; i < n; i++) r.push_back((char) rnd()); return r; }
  std::string hex(const void* p, size_t n) { std::string r; char b[4]; for (size_t i = 0; i < n && i < 200; i++) { snprintf(b, 4, "%02x", ((const uint8_t*) p)[i]); r += b; } if (n > 200) r += ".."; return r; }
  static char* shared = nullptr;
  void ctx(const char* fmt, ...) { cases++; va_list a; va_start(a, fmt); vsnprintf(shared, 4000, fmt, a); va_end(a); }
  void ctx_append(const char* fmt, ...) { size_t l = strlen(shared); if (l > 3900) { memmove(shared, shared + 1500, l - 1500 + 1); l -= 1500; } va_list a; va_start(a, fmt); vsnprintf(shared + l, 4000 - l, fmt, a); va_end(a); }
  std::string sfmt(const char* fmt, ...) { char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
  static std::map<std::string, int> seen;
  bool failed(const char* key) { return seen.count(key); }
  void fail(const char* key, const char* fmt, ...) {
    if (seen[key]++) return;
    char b[3000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
    std::string c(shared); for (auto& x : c) if (x == '\n') x = ' ';
    printf("FAIL key=%s :: %s [case: %s]\n", key, b, c.c_str()); fflush(stdout);
  }
  struct Rec { const char* n; void (*f)(); int secs; };
  static std::vector<Rec>& recs() { static std::vector<Rec> r; return r; }
  Section::Section(const char* n, void (*f)(), int secs) { recs().push_back({n, f, secs}); }
}
namespace H { int malloc_fail = 0; long live = 0; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __real__Znwj(size_t); void* __real__Znaj(size_t); void __real__ZdlPv(void*); void __real__ZdaPv(void*); void __real__ZdlPvj(void*, size_t); void __real__ZdaPvj(void*, size_t);
static int failing() { if (H::malloc_fail == 0) return 0; if (H::malloc_fail < 0) return 1; return --H::malloc_fail == 0; }
void* __wrap_malloc(size_t n) { if (failing()) return nullptr; void* p = __real_malloc(n); if (p) H::live++; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (failing()) return nullptr; void* p = __real_calloc(a, b); if (p) H::live++; return p; }
void* __wrap_realloc(void* q, size_t n) { if (failing()) return nullptr; void* p = __real_realloc(q, n); if (p && !q) H::live++; return p; }
void __wrap_free(void* p) { if (p) H::live--; __real_free(p); }
void* __wrap__Znwj(size_t n) { H::live++; return __real__Znwj(n); }
void* __wrap__Znaj(size_t n) { H::live++; return __real__Znaj(n); }
void __wrap__ZdlPv(void* p) { if (p) H::live--; __real__ZdlPv(p); }
void __wrap__ZdaPv(void* p) { if (p) H::live--; __real__ZdaPv(p); }
void __wrap__ZdlPvj(void* p, size_t n) { if (p) H::live--; __real__ZdlPvj(p, n); }
void __wrap__ZdaPvj(void* p, size_t n) { if (p) H::live--; __real__ZdaPvj(p, n); }
}
using namespace H;
int main(int ac, char** av) {
  const char* only = nullptr;
  for (int i = 1; i < ac; i++) {
    if (!strcmp(av[i], "--seed")) seed = strtoull(av[++i], 0, 10);
    else if (!strcmp(av[i], "--scale")) scale = atoi(av[++i]);
    else if (!strcmp(av[i], "--hint")) hints.push_back(strtoull(av[++i], 0, 10));
    else if (!strcmp(av[i], "--only")) only = av[++i];
  }
  shared = (char*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int bad = 0;
  for (auto& r : recs()) {
    if (only && strcmp(only, r.n)) continue;
    strcpy(shared, "");
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      uint64_t h = 1469598103934665603ull; for (const char* c = r.n; *c; c++) h = (h ^ (uint8_t) *c) * 1099511628211ull;
      s0 = h ^ (seed * 0x9E3779B97F4A7C15ull);
      alarm(r.secs * (scale > 1 ? 4 : 1));
      r.f();
      printf("DONE section=%s cases=%llu\n", r.n, (unsigned long long) cases); fflush(stdout);
      _exit(seen.empty() ? 0 : 3);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) {
      std::string c(shared); for (auto& x : c) if (x == '\n') x = ' ';
      const char* kind = (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) ? "hang" : "crash";
      printf("FAIL key=%s:%s :: %s %d [case: %s]\n", kind, r.n, WIFSIGNALED(st) ? "signal" : "memory error, exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), c.c_str()); bad = 1;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) bad = 1;
  }
  printf("END bad=%d\n", bad);
  return bad;
}
