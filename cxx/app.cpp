// C03: the user-facing Application facade (framework/Framework.cpp, framework/BundleWrapper.cpp, framework/Application.h).
#include "DafnyRuntime.h"
#include "sym.h"
#include "model.h"
#include <chrono>
#include <set>
#include "os.h"
#define private public
#include "framework/Framework.cpp"
#include "framework/BundleWrapper.cpp"
#ifdef USE_UNVERIFIED_ROW_CACHE
#include "rowcache_small.cpp"
#endif
const char* horrible_amass_label;
void benchmark_start(std::string const&) {}
void benchmark_end(std::string const&) {}
void benchmark_append(std::string const&, long long) {}
extern "C" ssize_t pread(int, void* b, size_t n, off_t) { memset(b, 1, n); return n; }
extern "C" ssize_t pwrite(int, const void*, size_t n, off_t) { return n; }
extern "C" ssize_t pread64(int f, void* b, size_t n, off_t o) { return pread(f, b, n, o); }
extern "C" ssize_t pwrite64(int f, const void* b, size_t n, off_t o) { return pwrite(f, b, n, o); }
typedef DafnySequence<uint8> S8;
typedef FullImpl_Compile::Full Full;

static S8 mkseq(uint64 n, const char* name) { S8 s(n); for (uint64 i = 0; i < n; i++) s.ptr()[i] = sym_u8(name); return s; }
static bool same(S8 const& a, S8 const& b) { if (a.size() != b.size()) return false; bool r = true; for (uint64 i = 0; i < a.size(); i++) r = r & (a.ptr()[i] == b.ptr()[i]); return r; }

// ---- an arbitrary core
namespace core {
  static int refusals = 2;             // how often an operation may answer "try again"
  static int started = 0;              // I/O requests the core made
  static int responses_r = 0, responses_w = 0, reads = 0, writes = 0;
  static S8 key, value;                // what the user passed
  static int inserts = 0, inserted = 0, queries = 0, answered = 0, pushes = 0, pops = 0, synced = 0, inits = 0;
  static S8 answer; static bool graph; static uint64 sync_id;
  static uint64 wid[8]; static bool wdone[8];
  static void work(BIO io) {           // the core may start I/O in any step
    if (started < 2 && sym_bool("starts_write")) { S8 b(2); b.ptr()[0] = b.ptr()[1] = 7; wid[writes] = io->write(4096 * (started + 1), b); wdone[writes] = false; started++; writes++; }
    if (started < 2 && sym_bool("starts_read")) { io->read(4096 * (started + 8), 2); started++; reads++; }
  }
  static bool refuse(const char* n) { if (refusals > 0 && sym_bool(n)) { refusals--; return true; } return false; }
  Full InitState() { inits++; Full f; f.x = 42 + inits; return f; }
  DafnyMap<uint64, S8> Mkfs() { return DafnyMap<uint64, S8>(); }
  static void mine(Full& f, BIO io) { sym_assert(f.x == 42 + inits && io, "the core is called on its own state"); }
  uint64 PushSync(Full& f, BIO io) { mine(f, io); pushes++; work(io); sync_id = sym_u64("sync_id"); if (sync_id == 0) os::may_stop = true; return sync_id; }
  Tuple<bool, bool> PopSync(Full& f, BIO io, uint64 id, bool g) {
    mine(f, io); sym_assert(id == sync_id && pushes == 1, "a sync waits for its own request"); sym_assert(g == graph, "the kind of sync is passed on"); pops++;
    if (refuse("sync_pending")) { work(io); return Tuple<bool, bool>(io->has_write_task() && sym_bool("wait"), false); }
    synced++; return Tuple<bool, bool>(false, true);
  }
  bool Insert(Full& f, BIO io, S8 k, S8 v) {
    mine(f, io); inserts++; sym_assert(same(k, key), "the key reaches the core unchanged"); sym_assert(same(v, value), "the value reaches the core unchanged");
    bool r = refuse("insert_pending"); work(io); if (!r) inserted++; return !r;
  }
  BOption<S8> Query(Full& f, BIO io, S8 k) {
    mine(f, io); queries++; sym_assert(same(k, key), "the key reaches the core unchanged");
    bool r = refuse("query_pending"); work(io); BOption<S8> o; o.some = !r; if (!r) { answered++; o.v = answer; } return o;
  }
  void ReadResponse(Full& f, BIO io) { mine(f, io); responses_r++; sym_assert(responses_r <= reads, "the core sees each read response once"); }
  void WriteResponse(Full& f, BIO io) {
    mine(f, io); responses_w++; uint64 id = io->getWriteResult().get<0>(); bool hit = false;
    for (int i = 0; i < writes; i++) if (wid[i] == id) { sym_assert(!wdone[i], "the core sees each write response once"); wdone[i] = true; hit = true; }
    sym_assert(hit, "the core sees only its own write responses");
  }
  static int evicts = 0, counts = 0;
  void Evict(Full& f, BIO io) { mine(f, io); evicts++; }
  void Count(Full& f, BIO io) { mine(f, io); counts++; }
  // sorted store for range queries
  static uint8 keys[4]; static int nkeys = 0; static int pages = 0;
  BOption<UI_Compile::SuccResultList> Succ(Full& f, BIO io, UI_Compile::RangeStart s, uint64 max) {
    using namespace UI_Compile;
    mine(f, io); BOption<SuccResultList> o; o.some = false;
    sym_assert(max >= 1, "a range query asks for at least one result");
    if (refuse("succ_pending")) { work(io); return o; }
    uint64 take = 1; if (max >= 2 && pages < 3 && sym_bool("two")) take = 2;
    uint64 empty = pages == 0 && sym_bool("empty_page"); if (empty) take = 0;   // a page may be empty as long as it makes progress
    pages++;
    int i = 0; while (i < nkeys && (s.is_RangeStart_NegativeInf() ? false : s.is_RangeStart_SInclusive() ? keys[i] < s.dtor_key().ptr()[0] : keys[i] <= s.dtor_key().ptr()[0])) i++;
    int n = nkeys - i < (int)take ? nkeys - i : (int)take;
    o.some = true; o.v.results = DafnySequence<SuccResult>((uint64)n);
    for (int j = 0; j < n; j++) { S8 k(1), v(1); k.ptr()[0] = keys[i + j]; v.ptr()[0] = keys[i + j] ^ 0x55; o.v.results.ptr()[j].key = k; o.v.results.ptr()[j].value = v; }
    if (i + n == nkeys && sym_bool("at_end")) o.v.end = RangeEnd::create_PositiveInf();
    else if (i + n < nkeys && sym_bool("end_exclusive")) { S8 k(1); k.ptr()[0] = keys[i + n]; o.v.end = RangeEnd::create_EExclusive(k); }
    else if (n > 0) { S8 k(1); k.ptr()[0] = keys[i + n - 1]; o.v.end = RangeEnd::create_EInclusive(k); }
    else if (i < nkeys) { S8 k(1); k.ptr()[0] = keys[i]; o.v.end = RangeEnd::create_EExclusive(k); }
    else o.v.end = RangeEnd::create_PositiveInf();
    return o;
  }
}
static void settled() { sym_assert(core::responses_r <= core::reads && core::responses_w <= core::writes, "no response is invented"); }

extern "C" {
void a_insert() {
  os::delays = 1;
  Application app("img");
  uint64 n = sym_u64("keylen"), m = sym_u64("vallen"); sym_assume(n <= 4 && m <= 5);
  core::key = mkseq(n, "key"); core::value = mkseq(m, "value");
  os::may_stop = n > 3 || m > 4;
  app.Insert(ByteString(core::key), ByteString(core::value));
  sym_assert(n <= 3 && m <= 4, "an over-long key or value is refused");
  sym_assert(core::inserted == 1, "an insert returns only when the core accepted it"); settled();
}
void a_insert_str() {
  core::refusals = 0; core::started = 2;
  Application app("img");
  std::string k("ab"), v("xyz"); k[0] = sym_u8("key"); v[2] = sym_u8("value");
  core::key = S8(2); core::key.ptr()[0] = k[0]; core::key.ptr()[1] = 'b'; core::value = S8(3); core::value.ptr()[0] = 'x'; core::value.ptr()[1] = 'y'; core::value.ptr()[2] = v[2];
  app.Insert(k, v); sym_assert(core::inserted == 1, "an insert returns only when the core accepted it");
  core::answer = mkseq(2, "answer");
#ifndef USE_UNVERIFIED_ROW_CACHE
  ByteString r = app.Query(k); sym_assert(same(r.seq, core::answer), "a query returns the core's answer");
  std::string s = r.as_string(); sym_assert(s.size() == 2 && (uint8)s[0] == core::answer.ptr()[0] && (uint8)s[1] == core::answer.ptr()[1], "bytes survive conversion to a string");
#endif
}
void a_query() {
  os::delays = 1;
  Application app("img");
  uint64 n = sym_u64("keylen"); sym_assume(n <= 4); core::key = mkseq(n, "key"); core::answer = mkseq(2, "answer");
  os::may_stop = n > 3;
  ByteString r = app.Query(ByteString(core::key));
  sym_assert(n <= 3, "an over-long key is refused");
  sym_assert(core::answered == 1 && same(r.seq, core::answer), "a query returns the core's answer"); settled();
}
void a_expect() {
  core::refusals = 0; core::started = 2;
  Application app("img");
  core::key = mkseq(1, "key"); core::answer = mkseq(2, "answer"); S8 want = mkseq(2, "want");
  os::may_stop = !same(want, core::answer);
  app.QueryAndExpect(ByteString(core::key), ByteString(want));
  sym_assert(same(want, core::answer), "an unexpected answer is reported");
}
static void syncs() {
  Application app("img");
  core::graph = sym_bool("graph");
  app.Sync(core::graph);
  sym_assert(core::pushes == 1 && core::synced == 1, "a sync returns only when the core reports it durable"); settled();
}
void a_sync_late() { os::delays = 2; syncs(); }
void a_sync_early() { os::eager = false; os::surprises = 2; syncs(); }
void a_sync_sees_responses() {   // responses that are ready reach the core before it is asked again
  os::lazy = false; core::refusals = 1;
  Application app("img");
  core::graph = true; app.Sync(true);
  sym_assert(core::synced == 1, "a sync returns only when the core reports it durable");
}
void a_evict() {
  Application app("img"); app.EvictEverything(); sym_assert(core::evicts == 1 && core::counts == 0, "eviction reaches the core"); app.CountAmassAllocations(); sym_assert(core::counts == 1 && core::evicts == 1, "accounting reaches the core");
  app.crash(); sym_assert(core::inits == 2 && os::opens == 2, "a restart begins from a fresh state"); core::key = mkseq(1, "key"); core::value = mkseq(1, "value"); core::refusals = 0; core::started = 2; app.Insert(ByteString(core::key), ByteString(core::value)); sym_assert(core::inserted == 1, "an insert returns only when the core accepted it");
}
static void succ(int nk, uint64 maxtarget) {
  core::started = 2; core::refusals = 1;
  core::nkeys = nk; for (int i = 0; i < nk; i++) { core::keys[i] = sym_u8("k"); if (i) sym_assume(core::keys[i] > core::keys[i - 1]); }
  Application app("img");
  S8 lo(1); lo.ptr()[0] = sym_u8("low"); bool inc = sym_bool("inclusive"); uint64 target = sym_u64("target"); sym_assume(target <= maxtarget);
  auto r = app.Succ(ByteString(lo), inc, target);
  uint64 n = 0;
  for (int i = 0; i < nk; i++) if (inc ? core::keys[i] >= lo.ptr()[0] : core::keys[i] > lo.ptr()[0]) {
    if (n < target) { sym_assert(r.size() > n, "a range query returns every key up to the count asked for");
      sym_assert(r[n].first.size() == 1 && r[n].first.seq.ptr()[0] == core::keys[i] && r[n].second.size() == 1 && r[n].second.seq.ptr()[0] == (core::keys[i] ^ 0x55), "a range query returns the keys in order with their values"); }
    n++;
  }
  sym_assert(r.size() == (n < target ? n : target), "a range query returns nothing else");
}
void a_succ2() { succ(2, 3); }
void a_succ3() { succ(3, 4); }
void a_succ_long() { core::started = 2; core::refusals = 0; Application app("img"); uint64 n = sym_u64("len"); sym_assume(n <= 5); S8 k = mkseq(n, "low"); if (n == 0) sym_assume(false); os::may_stop = n > 3; app.Succ(ByteString(k), true, 1); sym_assert(n <= 3, "an over-long key is refused"); }
// ByteString
void a_bytestring() {
  uint64 n = sym_u64("n"), m = sym_u64("m"); sym_assume(n <= 3 && m <= 3);
  ByteString a(mkseq(n, "a")), b(mkseq(m, "b"));
  int e = 0; for (uint64 i = 0; i < n && i < m; i++) { int d = (a.seq.ptr()[i] > b.seq.ptr()[i]) - (a.seq.ptr()[i] < b.seq.ptr()[i]); e = e ? e : d; }
  int l = (n > m) - (n < m); e = e ? e : l;
  bool lt = a < b, gt = b < a, eq = a == b;
  sym_assert((lt == (e < 0)) & (gt == (e > 0)) & (eq == (e == 0)), "byte strings are ordered lexicographically");
  sym_assert(a.size() == n, "a byte string knows its length");
}
#ifdef USE_UNVERIFIED_ROW_CACHE
struct Ref {                                       // reference: most recent first
  RowCache c; uint8 lk[3], lv[3]; int ln = 0;
  void step(uint8 k, bool isset) {
    S8 ks(1); ks.ptr()[0] = k; int at = -1; for (int i = 0; i < ln; i++) if (lk[i] == k) at = i;
    uint8 v;
    if (isset) { v = sym_u8("value"); S8 vs(1); vs.ptr()[0] = v; c.set(ByteString(ks), ByteString(vs)); if (at < 0 && ln < ROW_CACHE_SIZE) ln++; if (at < 0) at = ln - 1; }
    else {
      auto r = c.get(ByteString(ks));
      sym_assert(r.has_value() == (at >= 0), "the row cache keeps exactly the most recently used keys");
      if (at < 0) return;
      v = lv[at]; sym_assert(r->size() == 1 && r->seq.ptr()[0] == v, "the row cache returns the value last set");
    }
    for (int i = at; i > 0; i--) { lk[i] = lk[i - 1]; lv[i] = lv[i - 1]; } lk[0] = k; lv[0] = v;
  }
};
static void rows(int prefix, int steps, int nk) {
  Ref r; int fresh = prefix; for (int i = 0; i < prefix; i++) r.step(i, true);
  for (int s = 0; s < steps; s++) {
    bool isset = sym_bool("set"); int k = 0; while (k < nk - 1 && k < fresh && sym_bool("next_key")) k++;   // unused keys are interchangeable
    if (k == fresh && fresh < nk) fresh++;
    r.step(k, isset);
  }
  r.step(9, true); for (int k = 0; k < fresh; k++) r.step(k, false); r.step(9, false);
}
void r_rows0() { rows(0, 4, 3); }
void r_rows3() { rows(3, 3, 5); }
void r_rows4() { rows(3, 4, 5); }
void r_rows0_deep() { rows(0, 6, 4); }
void r_app() {   // a query never answers from a stale row
  core::refusals = 0; core::started = 2;
  Application app("img");
  S8 k1 = mkseq(1, "key"), k2 = mkseq(1, "key"); S8 v1 = mkseq(1, "value"), v2 = mkseq(1, "value"); core::answer = mkseq(1, "answer");
  core::key = k1; core::value = v1; app.Insert(ByteString(k1), ByteString(v1));
  core::key = k2; core::value = v2; app.Insert(ByteString(k2), ByteString(v2));
  core::key = k1; bool eq = same(k1, k2);
  ByteString r = app.Query(ByteString(k1));
  sym_assert(same(r.seq, core::queries ? core::answer : eq ? v2 : v1), "a cached row is the last value inserted");
  app.crash(); int q = core::queries;
  ByteString r2 = app.Query(ByteString(k1)); sym_assert(core::queries == q + 1 && same(r2.seq, core::answer), "a restart empties the row cache");
}
#endif
}
