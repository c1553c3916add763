#include "AbstractPlatform.h"
uint64_t plat_us = 1000; uint32_t plat_seed = 12345;
long unsigned micros() { return (uint32_t) plat_us; }
long unsigned millis() { return (uint32_t) (plat_us / 1000); }
void sleep_ms(uint32_t n) { plat_us += 1000ull * n; }
void sleep_us(uint32_t n) { plat_us += n; }
uint32_t randomUInt32() { plat_seed = plat_seed * 1664525u + 1013904223u; return plat_seed; }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (randomUInt32() >> 11); return 0; }
class DemoPlat : public AbstractPlatform { public: DemoPlat() : AbstractPlatform("demo") {} int8_t init() { return 0; } void printDebug(StringBuilder*) {} void firmware_reset(uint8_t) {} void firmware_shutdown(uint8_t) {} };
static DemoPlat plat_;
AbstractPlatform* platformObj() { return &plat_; }
int8_t platform_init() { return 0; }
