#include "h.h"
#include <time.h>
#include "CppPotpourri.h"
#include "StringBuilder.h"
using namespace H;
SECTION(days) {
  struct tm t; memset(&t, 0, sizeof t); long long day = 0;
  for (int y = 1970; y <= 2099; y++) for (int m = 1; m <= 12; m++) {
    int L = m == 2 ? ((y % 4 == 0 && (y % 100 || y % 400 == 0)) ? 29 : 28) : (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
    for (int d = 1; d <= L; d++, day++) {
      int h = coin(4) ? (coin() ? 0 : 23) : below(24), mi = coin(4) ? (coin() ? 0 : 59) : below(60), s = coin(4) ? (coin() ? 0 : 59) : below(60);
      char b[40]; snprintf(b, 40, "%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, h, mi, s); char* e = (char*) malloc(20); memcpy(e, b, 20);
      ctx("stringToTimestamp %s", b); uint64_t want = (uint64_t) day * 86400 + h * 3600 + mi * 60 + s, got = stringToTimestamp(e);
      CHECK(got == want, "epoch", "got %llu want %llu", (unsigned long long) got, (unsigned long long) want); CHECK(!memcmp(e, b, 20), "text", "modified"); free(e);
    }
  }
}
SECTION(refused) {
  for (int k = 0; k < 20000 * scale; k++) {
    int f[6] = { range(1970, 2099), range(1, 12), range(1, 28), range(0, 23), range(0, 59), range(0, 59) }; int w = below(6);
    switch (w) { case 0: f[0] = range(0, 1969); break; case 1: f[1] = coin() ? 0 : range(13, 99); break; case 2: f[2] = range(32, 99); break; case 3: f[3] = range(24, 99); break; case 4: f[4] = range(60, 99); break; case 5: f[5] = range(60, 99); }
    char b[40]; snprintf(b, 40, "%04d-%02d-%02dT%02d:%02d:%02dZ", f[0], f[1], f[2], f[3], f[4], f[5]); ctx("stringToTimestamp %s", b);
    uint64_t got = stringToTimestamp(b); CHECK(got == 0, "refused", "got %llu", (unsigned long long) got);
  }
}
