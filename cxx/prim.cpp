// C02: the native routines Dafny code calls as {:extern} with an assumed contract; here the contract is decided on the C++.
#include "DafnyRuntime.h"
#include "sym.h"
#include "model.h"
#include <chrono>
#define private public
#include "framework/Framework.h"
#include "framework/LinearCongruentialGenerator.h"
using namespace NativeArrays_Compile;
using namespace NativePackedInts_Compile;
typedef DafnySequence<uint8> S8;

static S8 symseq(uint64 max, const char* name) {
  uint64 n = sym_u64("len"); sym_assume(n <= max);
  S8 s(n); for (uint64 i = 0; i < n; i++) s.ptr()[i] = sym_u8(name);
  return s;
}
template <class T> static T symv() { if (sizeof(T) == 1) return (T)sym_u8("v"); if (sizeof(T) == 4) return (T)sym_u32("v"); return (T)sym_u64("v"); }
static void cmp(uint64 max) {
  S8 a = symseq(max, "a"), b = symseq(max, "b");
  if (sym_bool("sub") && a.size() > 0) a = a.drop(1);
  int32_t r = ByteSeqCmpByteSeq(a, b);
  int e = 0;
  for (uint64 i = 0; i < a.size() && i < b.size(); i++) { int d = (a.ptr()[i] > b.ptr()[i]) - (a.ptr()[i] < b.ptr()[i]); e = e ? e : d; }
  int l = (a.size() > b.size()) - (a.size() < b.size()); e = e ? e : l;
  sym_assert(((r < 0) == (e < 0)) & ((r > 0) == (e > 0)), "ByteSeqCmpByteSeq is the lexicographic order of byte strings");
}
template <class T> static void arrays() {
  uint64 n = sym_u64("n"), m = sym_u64("m"); sym_assume(n <= 4 && m <= 4);
  DafnySequence<T> src(n); T a[4], d[4];
  for (uint64 i = 0; i < n; i++) src.ptr()[i] = a[i] = symv<T>();
  DafnyArray<T> dst(m); for (uint64 i = 0; i < m; i++) dst.at(i) = d[i] = symv<T>();
  uint64 si = sym_u64("srcIndex"), di = sym_u64("dstIndex"), len = sym_u64("len");
  sym_assume(si <= n && di <= m && len <= n - si && len <= m - di);
  CopySeqIntoArray<T>(src, si, dst, di, len);
  for (uint64 i = 0; i < m; i++) { T w = i >= di && i < di + len ? a[i - di + si] : d[i]; sym_assert(dst.at(i) == w, "CopySeqIntoArray copies exactly the range asked for"); }
  for (uint64 i = 0; i < n; i++) sym_assert(src.ptr()[i] == a[i], "CopySeqIntoArray leaves the source alone");
}
template <class T> static void arrays2() {
  uint64 n = sym_u64("n"), m = sym_u64("m"); sym_assume(n <= 4 && m <= 4);
  DafnyArray<T> src(n), dst(m); T a[4], d[4];
  for (uint64 i = 0; i < n; i++) src.at(i) = a[i] = symv<T>();
  for (uint64 i = 0; i < m; i++) dst.at(i) = d[i] = symv<T>();
  uint64 si = sym_u64("srcIndex"), di = sym_u64("dstIndex"), len = sym_u64("len");
  sym_assume(si <= n && di <= m && len <= n - si && len <= m - di);
  CopyArrayIntoDifferentArray<T>(src, si, dst, di, len);
  for (uint64 i = 0; i < m; i++) { T w = i >= di && i < di + len ? a[i - di + si] : d[i]; sym_assert(dst.at(i) == w, "CopyArrayIntoDifferentArray copies exactly the range asked for"); }
  for (uint64 i = 0; i < n; i++) sym_assert(src.at(i) == a[i], "CopyArrayIntoDifferentArray leaves the source alone");
}
template <class T> static void fillclone() {
  uint64 n = sym_u64("n"); sym_assume(n <= 4); T v = symv<T>();
  DafnyArray<T> f = newArrayFill<T>(n, v);
  sym_assert(f.size() == n, "newArrayFill has the length asked for");
  for (uint64 i = 0; i < n; i++) sym_assert(f.at(i) == v, "newArrayFill fills every element");
  for (uint64 i = 0; i < n; i++) f.at(i) = symv<T>();
  DafnyArray<T> g = newArrayClone<T>(f);
  sym_assert(g.size() == n, "newArrayClone has the same length");
  for (uint64 i = 0; i < n; i++) sym_assert(g.at(i) == f.at(i), "newArrayClone copies every element");
  if (n > 0) { T old = f.at(n - 1); g.at(n - 1) = old + 1; sym_assert(f.at(n - 1) == old, "newArrayClone is a fresh array"); }
}
template <class T> static T le(const uint8* p) { T r = 0; for (size_t i = 0; i < sizeof(T); i++) r |= (T)p[i] << (8 * i); return r; }
static void pack() {
  uint8 d[14]; DafnyArray<uint8> ar(14);
  for (int i = 0; i < 14; i++) ar.at(i) = d[i] = sym_u8("d");
  uint64 idx = sym_u64("idx"); bool wide = sym_bool("wide"); uint64 w = wide ? 8 : 4; sym_assume(idx <= 14 - w);
  uint64 v = sym_u64("v");
  if (wide) Pack__LittleEndian__Uint64__into__Array(v, ar, idx); else Pack__LittleEndian__Uint32__into__Array((uint32)v, ar, idx);
  for (uint64 i = 0; i < 14; i++) { uint8 x = i >= idx && i < idx + w ? (uint8)(v >> (8 * (i - idx))) : d[i]; sym_assert(ar.at(i) == x, "packing writes the little-endian bytes and nothing else"); }
}
static void unpack() {
  S8 s(13); for (int i = 0; i < 13; i++) s.ptr()[i] = sym_u8("d");
  S8 t = s.drop(1); DafnyArray<uint8> ar(13); for (int i = 0; i < 13; i++) ar.at(i) = s.ptr()[i];
  uint64 idx = sym_u64("idx");
  if (sym_bool("wide")) {
    sym_assume(idx <= 12 - 8); sym_assert(Unpack__LittleEndian__Uint64(t, idx) == le<uint64>(t.ptr() + idx), "unpacking reads the little-endian value at the index");
    sym_assert(Unpack__LittleEndian__Uint64__From__Array(ar, idx) == le<uint64>(s.ptr() + idx), "unpacking reads the little-endian value at the index");
  } else { sym_assume(idx <= 12 - 4); sym_assert(Unpack__LittleEndian__Uint32(t, idx) == le<uint32>(t.ptr() + idx), "unpacking reads the little-endian value at the index"); }
}
template <class T> static void packseq() {
  const uint64 W = sizeof(T);
  uint64 n = sym_u64("n"); sym_assume(n <= 3); uint64 size = 3 * W + 2;
  DafnySequence<T> u(n); for (uint64 i = 0; i < n; i++) u.ptr()[i] = symv<T>();
  DafnyArray<uint8> ar(size); uint8 d[32]; for (uint64 i = 0; i < size; i++) ar.at(i) = d[i] = sym_u8("d");
  uint64 idx = sym_u64("idx"); sym_assume(idx <= size - n * W);
  if (W == 4) Pack__LittleEndian__Uint32__Seq__into__Array((DafnySequence<uint32> const&)u, ar, idx);
  else Pack__LittleEndian__Uint64__Seq__into__Array((DafnySequence<uint64> const&)u, ar, idx);
  for (uint64 i = 0; i < size; i++) { uint8 x = i >= idx && i < idx + n * W ? (uint8)(u.ptr()[(i - idx) / W] >> (8 * ((i - idx) % W))) : d[i]; sym_assert(ar.at(i) == x, "packing a sequence writes its little-endian bytes and nothing else"); }
  S8 s(size); for (uint64 i = 0; i < size; i++) s.ptr()[i] = ar.at(i);
  if (W == 4) { auto r = Unpack__LittleEndian__Uint32__Seq(s, idx, n); sym_assert(r.size() == n, "unpacking a sequence returns its length"); for (uint64 i = 0; i < n; i++) sym_assert(r.select(i) == (uint32)u.select(i), "unpacking a sequence inverts packing"); }
  else { auto r = Unpack__LittleEndian__Uint64__Seq(s, idx, n); sym_assert(r.size() == n, "unpacking a sequence returns its length"); for (uint64 i = 0; i < n; i++) sym_assert(r.select(i) == u.select(i), "unpacking a sequence inverts packing"); }
}
using namespace LinearExtern;
static void lin() {
  uint64 n = sym_u64("n"); sym_assume(n <= 3); uint64 v = sym_u64("v");
  linear_seq<uint64> s = seq_alloc<uint64>(n, v);
  sym_assert(seq_length<uint64>(s) == n, "seq_alloc has the length asked for");
  uint64 w[6]; for (uint64 i = 0; i < n; i++) { sym_assert(seq_get<uint64>(s, i) == v, "seq_alloc fills every element"); w[i] = v; }
  for (int k = 0; k < 2 && n > 0; k++) {
    uint64 i = sym_u64("i"); sym_assume(i < n); uint64 x = sym_u64("x"); s = seq_set<uint64>(s, i, x); w[i] = x;
    for (uint64 j = 0; j < n; j++) sym_assert(seq_get<uint64>(s, j) == w[j], "seq_set updates one element");
  }
  uint64 m = sym_u64("m"); sym_assume(m <= 5);
  s = TrustedRuntimeSeqResize<uint64>(s, m);
  sym_assert(seq_length<uint64>(s) == m, "resizing gives the length asked for");
  for (uint64 j = 0; j < n && j < m; j++) sym_assert(seq_get<uint64>(s, j) == w[j], "resizing keeps the common prefix");
  uint64 k[5]; for (uint64 j = 0; j < m; j++) k[j] = seq_get<uint64>(s, j);
  DafnySequence<uint64> u = seq_unleash<uint64>(s);
  sym_assert(u.size() == m, "seq_unleash keeps the sequence"); for (uint64 j = 0; j < m; j++) sym_assert(u.select(j) == k[j], "seq_unleash keeps the sequence");
  linear_seq<uint64> e = seq_empty<uint64>(); sym_assert(seq_length<uint64>(e) == 0, "seq_empty is empty"); seq_free<uint64>(e);
}
static void lseqs() {
  using LinearMaybe::maybe; using LinearMaybe::give; using LinearMaybe::unwrap; using LinearMaybe::peek;
  uint64 n = sym_u64("n"); sym_assume(n >= 1 && n <= 3);
  lseq<uint64> s = lseq_alloc_raw<uint64>(n); sym_assert(lseq_length_raw<uint64>(s) == n, "lseq_alloc has the length asked for");
  uint64 w[6]; for (uint64 i = 0; i < n; i++) { w[i] = sym_u64("x"); auto t = lseq_swap_raw_fun<uint64>(s, i, give<uint64>(w[i])); s = t.get<0>(); }
  for (uint64 i = 0; i < n; i++) sym_assert(peek(lseq_share_raw<uint64>(s, i)) == w[i], "an lseq holds what was given to it");
  uint64 i = sym_u64("i"), x = sym_u64("x"); sym_assume(i < n);
  auto t = lseq_swap_raw_fun<uint64>(s, i, give<uint64>(x)); s = t.get<0>();
  sym_assert(unwrap(t.get<1>()) == w[i], "lseq_swap returns the old element"); w[i] = x;
  for (uint64 j = 0; j < n; j++) sym_assert(peek(lseq_share_raw<uint64>(s, j)) == w[j], "lseq_swap replaces one element");
  uint64 m = sym_u64("m"); sym_assume(m <= 5); s = TrustedRuntimeLSeqResize<uint64>(s, m);
  sym_assert(lseq_length_raw<uint64>(s) == m, "resizing gives the length asked for");
  for (uint64 j = 0; j < n && j < m; j++) sym_assert(peek(lseq_share_raw<uint64>(s, j)) == w[j], "resizing keeps the common prefix");
  lseq_free_raw<uint64>(s);
}
static int destroyed = 0; static uint64 destroyed_value;
static Tuple0 destroy(uint64 a) { destroyed++; destroyed_value = a; return Tuple0(); }
static Tuple0 destroy_env(uint64 a, uint64 e) { destroyed++; destroyed_value = a + e; return Tuple0(); }
static void box() {
  uint64 a = sym_u64("a"), b = sym_u64("b"), c = sym_u64("c"), env = sym_u64("env"); bool with_env = sym_bool("with_env");
  {
    LinearBox_s::SwapAffine<uint64> s(a); sym_assert(s.Borrow() == a, "a box holds its value");
    sym_assert(s.Swap(b) == a && s.Borrow() == b && s.Swap(c) == b, "swapping a box returns the old value");
    LinearBox_s::SwapLinear<uint64> l(a, with_env ? LinearBox_s::ToDestructorEnv<uint64, uint64>(destroy_env, env) : LinearBox_s::ToDestructor<uint64>(destroy));
    sym_assert(l.Borrow() == a && l.Swap(b) == a && l.Borrow() == b, "a box holds its value");
    sym_assert(destroyed == 0, "a box is not destroyed while in use");
  }
  sym_assert(destroyed == 1 && destroyed_value == (with_env ? b + env : b), "a box destroys the value it holds, once");
  LinearBox_s::CallDestructor<uint64>(LinearBox_s::ToDestructor<uint64>(destroy), c);
  sym_assert(destroyed == 2 && destroyed_value == c, "CallDestructor runs the destructor on the value");
}
static void mapremove() {
  DafnyMap<uint64, uint64> m; uint64 k[3], v[3], n = sym_u64("n"); sym_assume(n <= 3);
  for (uint64 i = 0; i < n; i++) { k[i] = sym_u64("k"); sym_assume(k[i] < 4); for (uint64 j = 0; j < i; j++) sym_assume(k[i] != k[j]); v[i] = sym_u64("v"); m.map.insert(std::make_pair(k[i], v[i])); }
  uint64 r = sym_u64("r"); sym_assume(r < 4);
  DafnyMap<uint64, uint64> q = MapRemove__s_Compile::ComputeMapRemove1<uint64, uint64>(m, r);
  uint64 left = 0;
  for (uint64 i = 0; i < n; i++) {
    auto it = q.map.find(k[i]);
    if (k[i] == r) sym_assert(it == q.map.end(), "MapRemove1 removes the key");
    else { left++; sym_assert(it != q.map.end() && it->second == v[i], "MapRemove1 keeps every other entry"); }
    auto jt = m.map.find(k[i]); sym_assert(jt != m.map.end() && jt->second == v[i], "MapRemove1 leaves its argument alone");
  }
  sym_assert(q.size() == left, "MapRemove1 adds nothing");
}
static void arith() {
  uint64 a = sym_u64("a"), b = sym_u64("b"); uint32 c = sym_u32("c"), d = sym_u32("d");
  sym_assert(NativeArithmetic_Compile::u64add(a, b) == a + b, "u64add is addition modulo 2^64");
  uint64 x = 0; for (int i = 0; i < 64; i++) x |= (uint64)(((a >> i) & 1) != ((b >> i) & 1)) << i;
  sym_assert(F2__X__s_Compile::bitxor64(a, b) == x, "bitxor64 is exclusive or, bit by bit");
  uint32 y = 0; for (int i = 0; i < 32; i++) y |= (uint32)(((c >> i) & 1) != ((d >> i) & 1)) << i;
  sym_assert(F2__X__s_Compile::bitxor32(c, d) == y, "bitxor32 is exclusive or, bit by bit");
}
static void crc() {
  uint32 c = sym_u32("crc"); uint8 b = sym_u8("b"); uint64 q = sym_u64("q");
  sym_assert(F2__X__s_Compile::intrinsic_mm_crc32_u8(c, b) == sym_crc32c(c, b, 8), "crc32_u8 divides by the CRC-32C polynomial");
  sym_assert(F2__X__s_Compile::intrinsic_mm_crc32_u64(c, q) == (uint64)sym_crc32c(c, q, 64), "crc32_u64 divides by the CRC-32C polynomial");
}
static void lo_hi(__m128i v, uint64& lo, uint64& hi) { uint64 t[2]; memcpy(t, &v, 16); lo = t[0]; hi = t[1]; }
static __m128i mk(uint64 lo, uint64 hi) { uint64 t[2] = {lo, hi}; __m128i v; memcpy(&v, t, 16); return v; }
static void clref(uint64 a, uint64 b, uint64& lo, uint64& hi) { lo = sym_clmul(a, b, 0); hi = sym_clmul(a, b, 1); }
static void simd() {
  uint64 a = sym_u64("a"), b = sym_u64("b"), c = sym_u64("c"), d = sym_u64("d"), l, h, rl, rh;
  lo_hi(F2__X__s_Compile::intrinsic_mm_xor_si128(mk(a, b), mk(c, d)), l, h); sym_assert(l == (a ^ c) && h == (b ^ d), "mm_xor_si128 is exclusive or");
  lo_hi(F2__X__s_Compile::intrinsic_mm_clmulepi64_si128_0(mk(a, b), mk(c, d)), l, h); clref(a, c, rl, rh); sym_assert((l == rl) & (h == rh), "clmul 0 multiplies the low halves");
  lo_hi(F2__X__s_Compile::intrinsic_mm_clmulepi64_si128_16(mk(a, b), mk(c, d)), l, h); clref(a, d, rl, rh); sym_assert((l == rl) & (h == rh), "clmul 16 multiplies the low half by the high half");
  lo_hi(Bits__s_Compile::intrinsic_mm_cvtepu32_epi64(mk(a, b)), l, h); sym_assert(l == (a & 0xffffffff) && h == a >> 32, "cvtepu32_epi64 widens the two low words");
  lo_hi(Bits__s_Compile::intrinsic_mm_cvtsi64_si128(a), l, h); sym_assert(l == a && h == 0, "cvtsi64_si128 zero-extends");
  sym_assert(Bits__s_Compile::intrinsic_mm_cvtsi128_si64(mk(a, b)) == a, "cvtsi128_si64 takes the low half");
  DafnySequence<uint64> s(4); s.ptr()[0] = a; s.ptr()[1] = b; s.ptr()[2] = c; s.ptr()[3] = d; uint32 i = sym_u32("i"); sym_assume(i < 3);
  lo_hi(Bits__s_Compile::intrinsic_mm_loadu_si128(s, i), l, h); sym_assert(l == s.select(i) && h == s.select(i + 1), "loadu_si128 loads two neighbours");
}
static void lcg() {
  uint64 seed = sym_u64("seed"); LinearCongruentialGenerator_Compile::LCG g(seed);
  uint64 x = seed * 6364136223846793005ull + 1442695040888963407ull; sym_assert(g.next() == x, "LCG steps by Knuth's recurrence"); sym_assert(g.next() == x * 6364136223846793005ull + 1442695040888963407ull, "LCG steps by Knuth's recurrence");
}
extern "C" {
void p_cmp() { cmp(4); }
void p_cmp_deep() { cmp(8); }
void p_copy8() { arrays<uint8>(); }
void p_copy64() { arrays<uint64>(); }
void p_copy2_8() { arrays2<uint8>(); }
void p_copy2_64() { arrays2<uint64>(); }
void p_fill8() { fillclone<uint8>(); }
void p_fill64() { fillclone<uint64>(); }
void p_pack() { pack(); }
void p_unpack() { unpack(); }
void p_packseq32() { packseq<uint32>(); }
void p_packseq64() { packseq<uint64>(); }
void p_lin() { lin(); }
void p_lseq() { lseqs(); }
void p_box() { box(); }
void p_mapremove() { mapremove(); }
void p_arith() { arith(); }
void p_crc() { crc(); }
void p_simd() { simd(); }
void p_lcg() { lcg(); }
}
