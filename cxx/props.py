import re

def shrink_rowcache(repo, scratch):
    s = open(repo + "/framework/UnverifiedRowCache.cpp").read()
    t, n = re.subn(r"(#define\s+ROW_CACHE_SIZE\s+).*", r"\g<1>3", s)
    if n == 0: t, n = re.subn(r"(\bROW_CACHE_SIZE\s*=\s*)[^;]+;", r"\g<1>3;", s)
    if n == 0: raise RuntimeError("no ROW_CACHE_SIZE definition found in UnverifiedRowCache.cpp")
    open(scratch + "/rowcache_small.cpp", "w").write(t)

T = dict(thorough=True)
COMMON = ["clang's translation to LLVM IR at -O1 and the interpreter lib/llir.py", "libstdc++ headers are executed as they are; its out-of-line "
          "red-black tree and hash policy are replaced by simple equivalents (cxx/shim/model.h)", "allocation does not fail",
          "the Dafny runtime header is a stand-in of the same shape (cxx/shim/DafnyRuntime.h)"]
PROPS = {
 "C01": dict(
   harness={"disk.cpp": ["h_ops_late", "h_ops_early", ("h_ops4_late", T), ("h_ops4_early", T), "h_write2", "h_many9_late", "h_many9_early",
                         "h_many10_late", "h_many10_early", ("h_many11_early", T), "h_many18", "h_order", "h_faults", "h_read", "h_mixed", "h_close",
                         "h_mkfs0", "h_mkfs2"]},
   bounds=["any 3 (thorough 4) operations after a first write, symbolic addresses and payload bytes; 9, 10 (thorough 11) and 18 writes around the limit of 8",
           "completions: up to 3 polls answer against the default (late or early), aio_suspend wakes on any listed request",
           "kernel failures at every aio_write/aio_error/aio_return/pread/pwrite/open of a 3-write history; short counts symbolic",
           "payload lengths 2, 3, 5, 4096, 4097; read lengths 1..5"],
   assumptions=COMMON + ["the kernel's AIO follows POSIX as modelled in cxx/shim/os.h; distinct outstanding writes have distinct addresses"],
   excluded=["overlapping writes", "USE_DIRECT and LOG_QUERY_STATS builds", "more than 18 writes"]),
 "C02": dict(
   harness={"prim.cpp": ["p_cmp", ("p_cmp_deep", T), "p_copy8", "p_copy64", "p_copy2_8", "p_copy2_64", "p_fill8", "p_fill64", "p_pack", "p_unpack",
                         "p_packseq32", "p_packseq64", "p_lin", "p_lseq", "p_box", "p_mapremove", "p_arith", "p_crc", "p_simd", "p_lcg"]},
   bounds=["byte strings to 4 bytes (thorough 8), arrays to 4 elements, packed sequences to 3 elements at every offset, linear sequences to 3 resized to 0..5, maps to 3 entries",
           "all element values, indices and lengths symbolic"],
   assumptions=COMMON + ["the CRC and carry-less multiplication instructions compute what Intel documents"],
   excluded=["longer arrays", "lib/Lang/LinearExtern.cpp (does not compile against its own header)"]),
 "C03": dict(
   harness={"app.cpp": ["a_insert", "a_insert_str", "a_query", "a_expect", "a_sync_late", "a_sync_early", "a_sync_sees_responses", "a_evict", "a_succ2",
                        ("a_succ3", T), "a_succ_long", "a_bytestring"],
            "app.cpp#rowcache": ["r_rows0", "r_rows3", ("r_rows4", T), ("r_rows0_deep", T), "r_app"]},
   defs={"app.cpp#rowcache": ["-DUSE_UNVERIFIED_ROW_CACHE", "-I@SCRATCH@"]},
   prepare={"app.cpp#rowcache": shrink_rowcache},
   bounds=["keys to 4 bytes (limit 3), values to 5 (limit 4), all bytes symbolic; the core refuses up to 2 times and starts up to 2 I/O requests at any step",
           "range queries over 2 (thorough 3) keys, every page split, targets to 3 (4); row cache of 3 rows, 3..4 (thorough 6) symbolic operations over 5 keys"],
   assumptions=COMMON + ["the verified core is any implementation of its handler interface: it may refuse, it may start I/O, its pages make progress"],
   excluded=["the core's own behaviour", "row cache at its real size of 2^18", "Main.cpp and the benchmarks"]),
}
