// C01: the asynchronous disk-I/O handler (framework/Framework.cpp, framework/Framework.h).
#include "DafnyRuntime.h"
#include "sym.h"
#include "model.h"
#include <chrono>
#include <set>
#include "os.h"
#define private public
#include "framework/Framework.cpp"
using namespace MainDiskIOHandler_Compile;

// ---- what the harness is not about
const char* horrible_amass_label;
static DafnyMap<uint64, DafnySequence<uint8>> mkfs_map;
Variables handle_InitState() { return Variables(); }
DafnyMap<uint64, DafnySequence<uint8>> handle_Mkfs() { return mkfs_map; }
typedef std::shared_ptr<DiskIOHandler> IO;
void handle_EvictEverything(Variables, IO) {}
void handle_CountAmassAllocations(Variables, IO) {}
uint64 handle_PushSync(Variables, IO) { return 1; }
std::pair<bool, bool> handle_PopSync(Variables, IO, uint64, bool) { return std::make_pair(false, true); }
bool handle_Insert(Variables, IO, DafnySequence<uint8>, DafnySequence<uint8>) { return true; }
std::optional<DafnySequence<uint8>> handle_Query(Variables, IO, DafnySequence<uint8>) { return std::nullopt; }
std::optional<UI_Compile::SuccResultList> handle_Succ(Variables, IO, UI_Compile::RangeStart, uint64) { return std::nullopt; }
void handle_ReadResponse(Variables, IO) {}
void handle_WriteResponse(Variables, IO) {}
uint64 MaxKeyLen() { return 4; }
uint64 MaxValueLen() { return 4; }
void benchmark_start(std::string const&) {}
void benchmark_end(std::string const&) {}
void benchmark_append(std::string const&, long long) {}

// ---- synchronous calls
namespace os {
  struct PW { uint64 off; size_t n; }; static PW pws[8]; static int npw = 0;
  static uint64 rd_off; static size_t rd_n; static uint8 rd_data[64];
  static const uint8* want[8]; static size_t wantn[8]; static uint64 wantoff[8]; static int nwant = 0;
}
extern "C" ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) {
  using namespace os;
  sym_assert(fd == 7, "pwrite goes to the image file");
  if (faults && sym_bool("pwrite_short")) { injected = true; uint64_t r = sym_u64("pwrite_ret"); sym_assume(r < n || r == ~(uint64_t)0); return (ssize_t)r; }
  int hit = 0;
  for (int i = 0; i < nwant; i++) if (wantoff[i] == (uint64)off) {
    sym_assert(n >= wantn[i] && n < wantn[i] + 4096, "pwrite covers the bytes, padded to a block");
    bool same = true;
    for (size_t k = 0; k < wantn[i]; k = (k + 1 == wantn[i] || k < 2) ? k + 1 : wantn[i] - 1) same = same & (((const uint8*)buf)[k] == want[i][k]);
    sym_assert(same, "pwrite writes the requested bytes");
    hit++;
  }
  sym_assert(hit == 1, "pwrite writes at a requested address");
  pws[npw].off = off; pws[npw].n = n; npw++;
  return n;
}
extern "C" ssize_t pwrite64(int fd, const void* buf, size_t n, off_t off) { return pwrite(fd, buf, n, off); }
extern "C" ssize_t pread(int fd, void* buf, size_t n, off_t off) {
  using namespace os;
  sym_assert(fd == 7, "pread reads the image file");
  rd_off = off; rd_n = n;
  size_t got = n;
  if (faults && sym_bool("pread_short")) { injected = true; uint64_t r = sym_u64("pread_ret"); sym_assume(r < n || r == ~(uint64_t)0); if (r == ~(uint64_t)0) return -1; got = r; }
  for (size_t i = 0; i < got; i++) { rd_data[i] = sym_u8("disk"); ((uint8*)buf)[i] = rd_data[i]; }
  return got;
}
extern "C" ssize_t pread64(int fd, void* buf, size_t n, off_t off) { return pread(fd, buf, n, off); }

// ---- oracle: the writes that were requested
struct Req { uint64 id, addr; size_t len; uint8 b0, b1; bool reported; DafnySequence<uint8> bytes; };
static Req reqs[20]; static int nreq = 0; static uint64 readid[4]; static int nread = 0;
static void fresh(uint64 id) {
  for (int i = 0; i < nreq; i++) sym_assert(reqs[i].id != id, "request ids are never reused");
  for (int i = 0; i < nread; i++) sym_assert(readid[i] != id, "request ids are never reused");
}
static DafnySequence<uint8> payload(size_t len, Req& r) {
  DafnySequence<uint8> s(len); memset(s.ptr(), 0, len);
  r.b0 = sym_u8("first"); r.b1 = len > 1 ? sym_u8("last") : r.b0;
  s.ptr()[0] = r.b0; s.ptr()[len - 1] = r.b1; r.len = len; r.reported = false; r.bytes = s;
  return s;
}
static int submitted(Req& r) {  // how often this write was submitted, with the right contents
  int hits = 0;
  for (int j = 0; j < os::naio; j++) if (os::aios[j].off == r.addr) {
    os::Aio& a = os::aios[j]; hits++;
    sym_assert(a.n >= r.len && a.n % 4096 == 0 && a.n < r.len + 4096, "a write covers its bytes, padded to a block");
  }
  return hits;
}
static os::Aio* aio_of(Req& r) { for (int j = 0; j < os::naio; j++) if (os::aios[j].off == r.addr) return &os::aios[j]; return 0; }
static void check_submitted() {  // contents: while the request is in flight its buffer holds the requested bytes
  int waiting = 0, out = 0;
  for (int i = 0; i < nreq; i++) {
    Req& r = reqs[i]; int h = submitted(r);
    sym_assert(h <= 1, "each write is submitted at most once");
    if (h == 0) { waiting++; sym_assert(!r.reported, "no completion is reported for a write that was not submitted"); continue; }
    os::Aio* a = aio_of(r);
    if (!a->reaped) {
      out++;
      const volatile uint8* b = (const volatile uint8*)a->buf;
      sym_assert(b[0] == r.b0 && b[r.len - 1] == r.b1, "the device sees the requested bytes");
    }
  }
  sym_assert(out <= 8, "at most eight writes are outstanding");
}
static void do_write(DiskIOHandler& io, uint64 addr, size_t len) {
  Req& r = reqs[nreq]; r.addr = addr; DafnySequence<uint8> s = payload(len, r);
  uint64 id = io.write(addr, s); fresh(id); r.id = id; nreq++;
  memset(s.ptr(), 0xee, len);    // the caller may change its buffer afterwards
}
static bool do_report(DiskIOHandler& io) {
  bool all = !os::lazy;
  bool ok = io.prepareWriteResponse();
  if (ok) {
    auto t = io.getWriteResult(); bool hit = false;
    for (int i = 0; i < nreq; i++) if (reqs[i].id == t.get<0>()) {
      Req& r = reqs[i]; hit = true;
      sym_assert(!r.reported, "a write is reported once"); r.reported = true;
      sym_assert(t.get<1>() == r.addr && t.get<2>() == r.len, "a write is reported with its address and length");
      os::Aio* a = aio_of(r);
      sym_assert(a != 0 && a->done && !a->failed && a->ret == a->n, "a write is reported only when it is on disk");
    }
    sym_assert(hit, "only requested writes are reported");
  } else if (all) {
    for (int i = 0; i < nreq; i++) sym_assert(reqs[i].reported || aio_of(reqs[i]) == 0, "a completed write is reported");
  }
  return ok;
}
static void drain(DiskIOHandler& io) {
  os::lazy = false; os::faults = false;
  for (int i = 0; i < 20 && do_report(io); i++) check_submitted();
  for (int i = 0; i < nreq; i++) { sym_assert(reqs[i].reported, "no write is lost"); sym_assert(submitted(reqs[i]) == 1, "every write is submitted exactly once"); }
  sym_assert(!io.has_write_task(), "nothing is left after all writes are reported");
  sym_assert(!io.prepareWriteResponse(), "nothing is reported twice");
}
static void op(DiskIOHandler& io, uint8 k, uint64 addr) {
  if (k == 0) do_write(io, addr, 5);
  else if (k == 1) do_report(io);
  else if (k == 2) { if (io.has_write_task()) io.waitForOne(); }
  else { io.completeWriteTasks();
    for (int i = 0; i < nreq; i++) { os::Aio* a = aio_of(reqs[i]); sym_assert(a != 0 && a->done, "completeWriteTasks returns when every write is complete"); } }
  check_submitted();
}
static uint64 symaddr(int i) { uint64 a = sym_u64("addr"); sym_assume(a % 4096 == 0 && a < ((uint64)1 << 62)); for (int k = 0; k < nreq; k++) sym_assume(a != reqs[k].addr); return a; }

extern "C" {
// any sequence of operations; completions arrive late (in at most `delays` polls) or early (at most `surprises` polls)
static void ops(int n) {
  DiskIOHandler io("img");
  do_write(io, symaddr(0), 3); check_submitted();
  for (int i = 0; i < n; i++) { uint8 k = sym_u8("op"); sym_assume(k < 4); op(io, k, ((uint64)1 << 62) + 4096 * (uint64)(i + 1)); }
  drain(io);
}
void h_ops_late() { os::delays = 3; ops(3); }
void h_ops_early() { os::eager = false; os::surprises = 2; ops(3); }
void h_ops4_late() { os::delays = 3; ops(4); }
void h_ops4_early() { os::eager = false; os::surprises = 3; ops(4); }
// two writes in one call
void h_write2() {
  DiskIOHandler io("img");
  Req& r = reqs[0]; r.addr = symaddr(0); DafnySequence<uint8> a = payload(4096, r);
  nreq = 1; reqs[1].addr = symaddr(1); DafnySequence<uint8> b = payload(4097, reqs[1]); nreq = 0;
  auto t = io.write2(r.addr, a, reqs[1].addr, b);
  sym_assert(t.get<0>() != t.get<1>(), "request ids are never reused");
  r.id = t.get<0>(); reqs[1].id = t.get<1>(); nreq = 2;
  check_submitted();
  do_report(io); check_submitted(); drain(io);
}
// more writes than may be outstanding
static void many(int n, int steps) {
  DiskIOHandler io("img");
  for (int i = 0; i < n; i++) do_write(io, 4096 * (uint64)(i + 1), 2);
  check_submitted();
  sym_assert(os::naio == (n < 8 ? n : 8), "writes start as soon as a slot is free");
  for (int i = 0; i < steps; i++) { uint8 k = sym_u8("op"); sym_assume(k < 4 && k > 0); op(io, k, 0); }
  drain(io);
}
void h_many9_late() { os::delays = 2; many(9, 1); }
void h_many10_late() { os::delays = 1; many(10, 2); }
void h_many9_early() { os::eager = false; os::surprises = 2; many(9, 1); }
void h_many10_early() { os::eager = false; os::surprises = 1; many(10, 2); }
void h_many11_early() { os::eager = false; os::surprises = 3; many(11, 2); }
void h_many18() {
  os::lazy = false; many(18, 2);
}
void h_order() {  // nothing completes by itself: a reported slot is reused at once
  DiskIOHandler io("img");
  for (int i = 0; i < 10; i++) do_write(io, 4096 * (uint64)(i + 1), 2);
  uint8 j = sym_u8("which"); sym_assume(j < 8);
  os::finish(aio_of(reqs[j]));
  os::faults = false;
  bool any = false;
  for (int i = 0; i < 8; i++) if (i != j) { /* still in progress */ }
  uint8 n0 = os::naio;
  bool ok = io.prepareWriteResponse();
  if (ok) { sym_assert(os::naio > n0, "a freed slot is used for a waiting write"); auto t = io.getWriteResult(); for (int i = 0; i < nreq; i++) if (reqs[i].id == t.get<0>()) reqs[i].reported = true; any = true; }
  check_submitted();
  (void)any; drain(io);
}
// errors from the kernel: the process stops, it never acknowledges
void h_faults() {
  os::faults = true;
  DiskIOHandler io("img");
  sym_assert((os::lastflags & O_ACCMODE) == O_RDWR && (os::lastflags & O_DSYNC) == O_DSYNC, "the image is opened for durable read-write access");
  do_write(io, 4096, 3); check_submitted();
  do_write(io, 8192, 3); check_submitted();
  uint8 k = sym_u8("op"); sym_assume(k < 4); op(io, k, 12288);
  do_report(io); check_submitted();
  do_report(io); check_submitted();
}
// reads
void h_read() {
  os::faults = sym_bool("faulty");
  DiskIOHandler io("img");
  uint64 addr = sym_u64("addr"), len = sym_u64("len"); sym_assume(len >= 1 && len <= 5); sym_assume(addr < (uint64)1 << 62);
  sym_assert(!io.prepareReadResponse(), "no read is answered before it is requested");
  uint64 id = io.read(addr, len); readid[nread++] = id; bool bad = os::injected;
  sym_assert(!bad, "a failed or short read is not answered");
  sym_assert(os::rd_off == addr && os::rd_n >= len, "a read asks for its address and length");
  uint8 d[8]; for (uint64 i = 0; i < len; i++) d[i] = os::rd_data[i];
  os::faults = false;
  uint64 id2 = io.read(addr + 64, 2); fresh(id2); readid[nread++] = id2; uint8 e0 = os::rd_data[0], e1 = os::rd_data[1];
  bool seen[2] = {false, false};
  for (int k = 0; k < 2; k++) {
    sym_assert(io.has_read_task() && io.prepareReadResponse(), "a finished read is answered");
    auto t = io.getReadResult();
    if (t.get<0>() == id) {
      sym_assert(!seen[0], "a read is answered once"); seen[0] = true;
      sym_assert(t.get<1>() == addr && t.get<2>().size() == len, "a read is answered with its address and length");
      for (uint64 i = 0; i < len; i++) sym_assert(t.get<2>().select(i) == d[i], "a read returns the bytes on disk");
    } else {
      sym_assert(t.get<0>() == id2 && !seen[1], "a read is answered once"); seen[1] = true;
      sym_assert(t.get<1>() == addr + 64 && t.get<2>().size() == 2 && t.get<2>().select(0) == e0 && t.get<2>().select(1) == e1, "a read returns the bytes on disk");
    }
  }
  sym_assert(!io.prepareReadResponse() && !io.has_read_task(), "a read is answered once");
}
// reads and writes share the id space
void h_mixed() {
  DiskIOHandler io("img");
  do_write(io, 4096, 2);
  readid[nread] = io.read(sym_u64("addr") & 0xffff, 1); fresh(readid[nread]); nread++;
  do_write(io, 8192, 2); check_submitted();
  sym_assert(io.prepareReadResponse(), "a finished read is answered");
  sym_assert(io.getReadResult().get<0>() == readid[0], "a read is answered with its id");
  drain(io);
}
void h_close() { { DiskIOHandler io("img"); } sym_assert(os::closed, "the image is closed with the handler"); }
// formatting
static void mk(int n) {
  os::faults = sym_bool("faulty");
  uint64 addr[3];
  for (int i = 0; i < n; i++) {
    addr[i] = (uint64)(i + 1) * 8192; DafnySequence<uint8> s(i == 1 ? 4097 : 3); memset(s.ptr(), 0, s.size());
    s.ptr()[0] = sym_u8("b"); s.ptr()[s.size() - 1] = sym_u8("b");
    mkfs_map.map.insert(std::make_pair(addr[i], s));
    os::want[i] = s.ptr(); os::wantn[i] = s.size(); os::wantoff[i] = addr[i];
  }
  os::nwant = n;
  os::may_stop = n == 0;
  Mkfs("img");
  sym_assert(n > 0, "an empty image is refused");
  sym_assert(!os::injected, "a failed write stops formatting");
  sym_assert((os::lastflags & O_CREAT) && (os::lastflags & O_DSYNC) == O_DSYNC && (os::lastflags & O_ACCMODE) == O_RDWR, "the image is created for durable access");
  for (int i = 0; i < n; i++) {
    int h = 0; size_t need = i == 1 ? 4097 : 3;
    for (int j = 0; j < os::npw; j++) if (os::pws[j].off == addr[i]) { h++; sym_assert(os::pws[j].n >= need && os::pws[j].n < need + 4096, "pwrite covers the bytes, padded to a block"); }
    sym_assert(h == 1, "formatting writes every block once");
  }
  sym_assert(os::npw == n && os::closed, "formatting writes nothing else");
}
void h_mkfs0() { mk(0); }
void h_mkfs2() { mk(2); }
}
