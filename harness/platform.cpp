/* A deterministic platform: fake clock, seeded randomness. */
#include "h.h"
#include "AbstractPlatform.h"
namespace FakePlat { uint64_t now_us = 1000; uint32_t (*rand_hook)() = nullptr; }
long unsigned micros() { return (uint32_t) FakePlat::now_us; }
long unsigned millis() { return (uint32_t) (FakePlat::now_us / 1000); }
void sleep_ms(uint32_t n) { FakePlat::now_us += 1000ull * n; }
void sleep_us(uint32_t n) { FakePlat::now_us += n; }
uint32_t randomUInt32() { return FakePlat::rand_hook ? FakePlat::rand_hook() : H::r32(); }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) randomUInt32(); return 0; }
class HPlat : public AbstractPlatform {
  public: HPlat() : AbstractPlatform("harness") {} int8_t init() { return 0; } void printDebug(StringBuilder*) {} void firmware_reset(uint8_t) {} void firmware_shutdown(uint8_t) {}
};
static HPlat plat;
AbstractPlatform* platformObj() { return &plat; }
int8_t platform_init() { return 0; }
