// Runs a harness natively with the values of a counterexample (file named by SYM_VALUES: "name value" per line).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <stdint.h>
static std::vector<std::pair<std::string, uint64_t>>& vals() {
  static std::vector<std::pair<std::string, uint64_t>> v; static bool init = false;
  if (!init) { init = true; FILE* f = fopen(getenv("SYM_VALUES"), "r"); char n[256]; unsigned long long x;
    while (f && fscanf(f, "%255s %llu", n, &x) == 2) v.push_back({n, x}); if (f) fclose(f); }
  return v;
}
static size_t pos = 0;
static uint64_t nextv(const char* n) {
  auto& v = vals();
  if (pos < v.size() && v[pos].first == n) return v[pos++].second;
  if (pos >= v.size()) return 0;
  fprintf(stderr, "REPLAY-DIVERGED at %s\n", n); fflush(stderr); _exit(3);
}
extern "C" {
uint64_t sym_u64(const char* n) { return nextv(n); }
uint32_t sym_u32(const char* n) { return nextv(n); }
uint8_t sym_u8(const char* n) { return nextv(n); }
bool sym_bool(const char* n) { return nextv(n) & 1; }
void sym_assume(bool b) { if (!b) { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); _exit(3); } }
void sym_assert(bool b, const char* n) { if (!b) { printf("ASSERT-FAILED %s\n", n); fflush(stdout); _exit(42); } }
uint32_t sym_crc32c(uint32_t r, uint64_t v, int n) { for (int i = 0; i < n; i++) { bool b = (r ^ (uint32_t)(v >> i)) & 1; r = (r >> 1) ^ (b ? 0x82F63B78u : 0); } return r; }
uint64_t sym_clmul(uint64_t a, uint64_t b, int high) { uint64_t lo = 0, hi = 0; for (int i = 0; i < 64; i++) if (a >> i & 1) { lo ^= b << i; if (i) hi ^= b >> (64 - i); } return high ? hi : lo; }
void sym_stop(void) { _exit(0); }
void ENTRY();
}
int main() { ENTRY(); return 0; }
