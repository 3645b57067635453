"""Runs numbered jobs in forked processes, one process a job: a job that is killed or hangs costs only itself."""
import os, pickle, resource, select, signal, sys, time, traceback


def run(work, n, procs=8, mem_mb=3600, grace=60, limit=lambda i: 600):
    """Yields work(i) for i in range(n) as they finish; work returns a picklable dict. A job that dies yields None with its index: (i, r)."""
    todo, live = list(range(n))[::-1], {}
    sys.stdout.flush(); sys.stderr.flush()
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    for (q, _, _, _) in live.values(): os.close(q)
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
                    b = pickle.dumps(work(i))
                    with os.fdopen(w, "wb") as f: f.write(b)
                    rc = 0
                except BaseException:
                    pass
                finally: os._exit(rc)
            os.close(w)
            live[pid] = (r, i, time.time(), [])
        fds = {v[0]: p for p, v in live.items()}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            p = fds[fd]
            b = os.read(fd, 1 << 20)
            if b: live[p][3].append(b); continue
            os.close(fd)
            _, i, _, bufs = live.pop(p)
            try: os.killpg(p, signal.SIGKILL)      # solver processes it may have left
            except OSError: pass
            os.waitpid(p, 0)
            try: yield i, pickle.loads(b"".join(bufs))
            except Exception: yield i, None
        now = time.time()
        for p, (fd, i, t, _) in list(live.items()):
            if now - t > limit(i) + grace:
                try: os.killpg(p, signal.SIGKILL)
                except OSError: pass
                try: os.kill(p, signal.SIGKILL)
                except OSError: pass
