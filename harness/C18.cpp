#include "h.h"
#include <math.h>
#include <vector>
#include <algorithm>
#define private public
#define protected public
#include "TimeSeries/TimeSeries.h"
#undef private
#undef protected
using namespace H;
template <class T> static T any();
template <> uint8_t any<uint8_t>() { return val(8); }
template <> int32_t any<int32_t>() { return val(32); }
template <> uint32_t any<uint32_t>() { return val(32); }
template <> int16_t any<int16_t>() { return val(16); }
template <> float any<float>() { return ((int32_t) r32()) / 1024.0f; }
template <class T> static bool close(double a, double b) { return a == b || fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b)) || (std::isnan(a) && std::isnan(b)); }
template <class T> static void run(const char* nm) {
  for (int k = 0; k < 300 * scale; k++) {
    uint32_t W = coin(4) ? range(1, 3) : range(1, 40); bool ext = coin(3); T* mem = (T*) malloc(W * sizeof(T));
    {
      TimeSeries<T>* t = ext ? new TimeSeries<T>(mem, W) : new TimeSeries<T>(W); ctx("TimeSeries<%s> window %u%s", nm, W, ext ? " external" : "");
      CHECK(t->feedSeries(T(1)) == -1, "uninit", "accepted before init"); CHECK(t->value() == T(0) && t->windowSize() == 0, "uninit", "window or value before init");
      if (!ext && coin(10)) { malloc_fail = 1; CHECK(t->init() < 0 && !t->initialized(), "init_oom", "initialised without memory"); malloc_fail = 0; CHECK(t->feedSeries(T(1)) == -1 && t->windowSize() == 0, "init_oom", "usable without memory"); delete t; free(mem); continue; }
      CHECK(t->init() == 0 && t->initialized(), "init", "init failed"); std::vector<T> h; int ops = range(1, 120);
      for (int o = 0; o < ops; o++) {
        switch (below(14)) {
          case 0: { ctx_append(" purge"); CHECK(t->purge() == 0, "purge", "ret"); h.clear(); break; }
          case 1: { if (!ext && coin(3)) { uint32_t n = range(1, 40); ctx_append(" resize %u", n); if (n == W || !coin(6)) { CHECK(t->windowSize(n) == 0, "resize", "ret"); W = n; h.clear(); CHECK(t->windowSize() == W, "resize", "size"); }
              else { malloc_fail = 1; CHECK(t->windowSize(n) < 0 && !t->initialized(), "resize_oom", "reported success"); malloc_fail = 0; CHECK(t->value() == T(0) && t->feedSeries(T(3)) == -1 && t->totalSamples() == 0, "resize_oom", "usable without memory"); CHECK(t->windowSize(n) == 0, "resize_retry", "cannot be resized once memory is available"); W = n; h.clear(); } }
            else if (ext) { CHECK(t->windowSize(W + 1) < 0 && t->windowSize() == W, "resize_ext", "an external buffer was resized"); } break; }
          case 2: { if (!coin(4)) break; std::vector<T> v(W); for (uint32_t i = 0; i < W; i++) t->memPtr()[i] = v[i] = any<T>(); uint32_t at = h.size() % W; ctx_append(" bulk"); CHECK(t->feedSeries() == 1, "bulk", "ret"); for (uint32_t i = 0; i < W; i++) h.push_back(v[(at + i) % W]); break; }
          default: { T v = coin(3) ? T(below(4)) : any<T>(); ctx_append(" %g", (double) v); h.push_back(v); int r = t->feedSeries(v); CHECK(r == (h.size() >= W ? 1 : 0), "feed_ret", "returned %d with %zu of %u", r, h.size(), W); }
        }
        CHECK(t->totalSamples() == h.size(), "total", "%u want %zu", t->totalSamples(), h.size()); bool full = h.size() >= W; CHECK(t->windowFull() == full, "full", "windowFull");
        if (full) {
          std::vector<T> w(h.end() - W, h.end()), s = w; std::sort(s.begin(), s.end()); uint32_t k0 = below(W + 1), off = below(W + 1);
          for (uint32_t i = 0; i < W; i++) { uint32_t which = h.size() - 1 - ((h.size() - 1 - i) % W); CHECK(t->memPtr()[i] == h[which], "memory", "slot %u", i); CHECK(t->indexIsWhichSample(i) == which, "which", "slot %u is sample %u want %u", i, t->indexIsWhichSample(i), which); }
          if (k0) { std::vector<T> b(k0); CHECK(t->copyValues(b.data(), k0, false) == 0, "copy_recent", "failed"); CHECK(b == std::vector<T>(h.end() - k0, h.end()), "copy_recent", "%u most recent samples differ", k0); CHECK(!t->dirty(), "dirty", "dirty after a read");
            if (off + k0 <= h.size()) { CHECK(t->copyValueRange(b.data(), k0, off, true) == 0, "copy_abs", "failed"); for (uint32_t i = 0; i < k0; i++) CHECK(b[i] == t->memPtr()[(off + i) % W], "copy_abs", "differs"); } }
          { std::vector<T> b(W + 1); CHECK(t->copyValues(b.data(), W + 1, true) != 0, "copy_over", "copied more than the window"); CHECK(t->copyValueRange(b.data(), W, 0xFFFFFFFF - below(W), true) != 0, "copy_far", "copied samples that do not exist"); }
          CHECK(t->value() == h.back(), "value", "%g want %g", (double) t->value(), (double) h.back()); CHECK(!t->dirty(), "dirty", "dirty after a read");
          CHECK(t->minValue() == s[0] && t->maxValue() == s[W - 1], "minmax", "%g..%g want %g..%g", (double) t->minValue(), (double) t->maxValue(), (double) s[0], (double) s[W - 1]);
          double sum = 0, sq = 0, dv = 0; for (uint32_t i = 0; i < W; i++) { sum += (double) w[i]; sq += (double) w[i] * (double) w[i]; } double m = sum / W; for (uint32_t i = 0; i < W; i++) dv += ((double) w[i] - m) * ((double) w[i] - m); double sd = sqrt(dv / W);
          CHECK(fabs(t->mean() - m) <= 1e-9 * (1 + fabs(sq)), "mean", "%g want %g", t->mean(), m);
          if (W > 1) { CHECK(close<T>(t->rms(), sqrt(sq / W)), "rms", "%g want %g", t->rms(), sqrt(sq / W)); CHECK(fabs(t->stdev() - sd) <= 1e-6 * (1 + sqrt(sq)), "stdev", "%g want %g", t->stdev(), sd);
            T md = t->median(); CHECK(md >= s[(W - 1) / 2] && md <= s[W / 2], "median", "%g not in %g..%g", (double) md, (double) s[(W - 1) / 2], (double) s[W / 2]); if (W & 1) CHECK(md == s[W / 2], "median", "differs"); else CHECK(fabs((double) md - ((double) s[W / 2 - 1] + (double) s[W / 2]) / 2) <= (std::is_integral<T>::value ? 1 : 1e-3 * fabs((double) md) + 1e-6), "median_mid", "%g not midway", (double) md); }
        } else {
          CHECK(t->value() == T(0), "value_early", "value before the window is full");
          if (h.size()) { uint32_t k0 = range(1, h.size()); std::vector<T> b(k0); CHECK(t->copyValues(b.data(), k0, false) == 0, "copy_recent_early", "failed"); CHECK(b == std::vector<T>(h.end() - k0, h.end()), "copy_recent_early", "%u most recent samples differ", k0); }
        }
        uint16_t lt = t->totalSamples(); t->feedSeries(T(1)); h.push_back(T(1)); CHECK(t->dirty(), "dirty", "not dirty after a feed"); (void) lt;
      }
      delete t;
    }
    free(mem);
  }
}
SECTION(u8) { run<uint8_t>("u8"); }
SECTION(i16) { run<int16_t>("i16"); }
SECTION(i32) { run<int32_t>("i32"); }
SECTION(u32) { run<uint32_t>("u32"); }
SECTION(f32) { run<float>("float"); }
