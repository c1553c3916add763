#include "h.h"
#include "uuid.h"
#include "StringBuilder.h"
using namespace H;
static std::string ref(const uint8_t* u) { std::string r; char b[4]; for (int i = 0; i < 16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) r += '-'; snprintf(b, 4, "%02x", u[i]); r += b; } return r; }
static UUID rnd_uuid() { UUID u; for (int i = 0; i < 16; i++) u.id[i] = (uint8_t) val(8); return u; }
SECTION(format) {
  for (int k = 0; k < 3000 * scale; k++) {
    UUID u = rnd_uuid(); int len = below(3) ? 37 + (int) below(10) : range(-3, 50);
    int cap = len < 0 ? 0 : len; char* b = (char*) malloc(cap + 1); memset(b, 0x5A, cap + 1);
    ctx("uuid_to_str %s len %d", hex(u.id, 16).c_str(), len);
    UUID u2 = u; uuid_to_str(&u, b, len);
    if (len >= 37) CHECK(ref(u2.id) == std::string(b), "to_str", "got %s", b);
    else for (int i = 0; i < cap + 1; i++) CHECK(b[i] == 0x5A, "to_str_short", "byte %d written", i);
    CHECK(!memcmp(u.id, u2.id, 16), "to_str_frame", "uuid changed");
    free(b);
    StringBuilder sb; uuid_to_sb(&u, &sb); CHECK(ref(u.id) == (const char*) sb.string(), "to_sb", "got %s", (char*) sb.string());
  }
}
SECTION(parse) {
  for (int k = 0; k < 6000 * scale; k++) {
    UUID u = rnd_uuid(), v = rnd_uuid(); std::string t = ref(u.id);
    int mode = below(4); for (auto& c : t) if (mode == 1 || (mode == 2 && coin())) c = toupper(c);
    bool extra = coin(4); if (extra) t += "ab-0123";
    ctx("uuid_from_str %s", t.c_str());
    uuid_from_str(t.c_str(), &v);
    CHECK(!memcmp(u.id, v.id, 16), "from_str", "got %s", hex(v.id, 16).c_str());
    CHECK(uuid_compare(&u, &v) == 0, "roundtrip", "unequal");
  }
  for (int k = 0; k < 6000 * scale; k++) {   // arbitrary text: digits pair up in order, the rest of the UUID is untouched
    std::string t; int n = range(0, 80); for (int i = 0; i < n; i++) t.push_back(coin(3) ? (char) range(1, 255) : "0123456789abcdefABCDEF-{}"[below(25)]);
    std::vector<int> nib; for (unsigned char c : t) { if (isdigit(c)) nib.push_back(c - '0'); else if (c >= 'a' && c <= 'f') nib.push_back(c - 87); else if (c >= 'A' && c <= 'F') nib.push_back(c - 55); }
    UUID* u = (UUID*) malloc(16); UUID o = rnd_uuid(); *u = o; UUID e = o; for (size_t i = 0; i + 1 < nib.size() && i < 32; i += 2) e.id[i / 2] = nib[i] << 4 | nib[i + 1];
    ctx("uuid_from_str arbitrary %s", hex(t).c_str());
    char* s = strdup(t.c_str()); uuid_from_str(s, u); free(s);
    CHECK(!memcmp(u->id, e.id, 16), "from_str_any", "got %s want %s", hex(u->id, 16).c_str(), hex(e.id, 16).c_str());
    free(u);
  }
}
SECTION(compare) {
  for (int k = 0; k < 4000 * scale; k++) {
    UUID u = rnd_uuid(), v = u; int i = below(16), b = below(8); if (coin(5) == 0) v.id[i] ^= 1 << b;
    ctx("compare %s %s", hex(u.id, 16).c_str(), hex(v.id, 16).c_str());
    CHECK((uuid_compare(&u, &v) == 0) == !memcmp(u.id, v.id, 16), "compare", "result %d", uuid_compare(&u, &v));
    CHECK((uuid_compare(&v, &u) == 0) == !memcmp(u.id, v.id, 16), "compare", "result %d", uuid_compare(&v, &u));
    UUID w = rnd_uuid(); uuid_copy(&u, &w); CHECK(!memcmp(u.id, w.id, 16), "copy", "differs");
  }
}
SECTION(gen) {
  for (int k = 0; k < 4000 * scale; k++) {
    UUID u = rnd_uuid(); ctx("uuid_gen"); uuid_gen(&u);
    CHECK((u.id[6] >> 4) == 4, "version", "%s", hex(u.id, 16).c_str()); CHECK((u.id[8] >> 6) == 2, "variant", "%s", hex(u.id, 16).c_str());
  }
  uint8_t o[16], a[16]; memset(o, 0, 16); memset(a, 255, 16);
  for (int k = 0; k < 200; k++) { UUID u; uuid_gen(&u); for (int i = 0; i < 16; i++) { o[i] |= u.id[i]; a[i] &= u.id[i]; } }
  for (int i = 0; i < 16; i++) { int m = i == 6 ? 15 : i == 8 ? 63 : 255; ctx("uuid_gen randomness byte %d", i); CHECK((o[i] & m) == m && (a[i] & m) == 0, "entropy", "byte %d has fixed bits", i); }
}
