// Model of the operating-system calls the I/O handler makes.  Every answer the kernel may give is a symbolic choice.
#pragma once
#include <aio.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include "sym.h"
namespace os {
struct Aio { const aiocb* cb; uint64_t off; const volatile void* buf; size_t n; int fd; bool done, failed, reaped; size_t ret; };
static Aio aios[64]; static int naio = 0;          // every request ever submitted
static int inflight = 0;                            // submitted, not yet reaped by aio_return
static int maxinflight = 0;
static bool faults = false;                         // may the kernel report errors?
static bool injected = false;                       // an error was reported
static bool lazy = true;                            // completion is a symbolic choice (else: everything submitted is complete)
static int delays = 3, surprises = 0;               // how many polls may answer against the default
static bool eager = true;                           // default answer of a poll: complete (else: still in progress)
static bool closed = false; static int opens = 0; static int lastflags = 0;
static bool may_stop = false;                       // harness: stopping the process is allowed here
static Aio* find(const aiocb* cb) { for (int i = naio - 1; i >= 0; i--) if (aios[i].cb == cb && !aios[i].reaped) return &aios[i]; return 0; }
static void finish(Aio* a) {
  if (a->done || a->failed) return;
  if (faults && sym_bool("aio_fails")) { a->failed = true; injected = true; return; }
  a->ret = a->n;
  if (faults && sym_bool("aio_short")) { a->ret = sym_u64("aio_ret"); sym_assume(a->ret < a->n || a->ret == ~(uint64_t)0); injected = true; }
  a->done = true;
  // the kernel reads the buffer now: it must still be there
  volatile uint8_t x = ((const volatile uint8_t*)a->buf)[0]; x = ((const volatile uint8_t*)a->buf)[a->n - 1]; (void)x;
}
}
extern "C" {
int aio_write(struct aiocb* cb) {
  using namespace os;
  sym_assert(cb->aio_fildes == 7, "aio_write goes to the image file");
  if (faults && sym_bool("aio_write_fails")) { errno = EAGAIN; injected = true; return -1; }
  sym_assert(find(cb) == 0, "a write request is submitted once");
  Aio* a = &aios[naio++]; a->cb = cb; a->off = cb->aio_offset; a->buf = cb->aio_buf; a->n = cb->aio_nbytes; a->fd = cb->aio_fildes;
  a->done = a->failed = a->reaped = false; a->ret = 0;
  inflight++; if (inflight > maxinflight) maxinflight = inflight;
  sym_assert(inflight <= 8, "at most eight writes are outstanding");
  return 0;
}
int aio_error(const struct aiocb* cb) {
  using namespace os;
  Aio* a = find(cb);
  sym_assert(a != 0, "aio_error asks about a submitted request");
  if (!a->done && !a->failed) { 
    if (lazy) {
      if (eager) { if (delays > 0 && sym_bool("in_progress")) { delays--; return EINPROGRESS; } }
      else { if (!(surprises > 0 && sym_bool("completed"))) return EINPROGRESS; surprises--; }
    }
    finish(a); }
  return a->failed ? EIO : 0;
}
ssize_t aio_return(struct aiocb* cb) {
  using namespace os;
  Aio* a = find(cb);
  sym_assert(a != 0, "aio_return asks about a submitted request");
  sym_assert(a->done || a->failed, "aio_return is called after completion");
  a->reaped = true; inflight--;
  return a->failed ? -1 : (ssize_t)a->ret;
}
int aio_suspend(const struct aiocb* const list[], int n, const struct timespec*) {
  using namespace os;
  sym_assert(n > 0, "aio_suspend waits for something");
  int k = 0; bool any = false;
  for (int i = 0; i < n; i++) {
    if (!list[i]) continue;
    Aio* a = find(list[i]);
    sym_assert(a != 0, "aio_suspend waits for submitted requests");
    k++; if (a->done || a->failed) any = true;
  }
  sym_assert(k > 0, "aio_suspend waits for something");
  if (any) return 0;
  if (lazy) {
    for (int i = 0; i < n; i++) if (list[i]) { if (--k == 0 || surprises <= 0 || (surprises--, sym_bool("wakes"))) { finish(find(list[i])); return 0; } }
  } else for (int i = 0; i < n; i++) if (list[i]) finish(find(list[i]));
  return 0;
}
int open(const char*, int flags, ...) { os::opens++; os::lastflags = flags; if (os::faults && sym_bool("open_fails")) { os::injected = true; return -1; } return 7; }
int open64(const char* p, int flags, ...) { return open(p, flags, 0); }
int close(int fd) { if (fd == 7) os::closed = true; return 0; }
void exit(int) { sym_assert(os::injected || os::may_stop, "the process stops only when the kernel reported a failure"); sym_stop(); }
}
