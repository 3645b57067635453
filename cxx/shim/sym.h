#pragma once
#include <stdint.h>
extern "C" {
uint64_t sym_u64(const char*); uint32_t sym_u32(const char*); uint8_t sym_u8(const char*); bool sym_bool(const char*);
void sym_assume(bool); void sym_assert(bool, const char*);
// references for the CRC and carry-less multiplication instructions
uint32_t sym_crc32c(uint32_t crc, uint64_t v, int bits); uint64_t sym_clmul(uint64_t a, uint64_t b, int high);
[[noreturn]] void sym_stop(void);
}
