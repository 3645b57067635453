"""What each S property runs: harness files of this directory and lemma groups (regex over VIR paths, bounds)."""
SB = {"T": ("data", "lib::betree::Buffer_v::SimpleBuffer", "", ())}
LINK = dict(depth=3, maxtick=30000000, addrs=[(0, 0), (0, 1), (1, 0)], inst=SB)
TREE = dict(depth=2, seq=3, maxtick=30000000, addrs=[(0, 0), (0, 1), (1, 0)], inst=SB)
JRNL = dict(depth=5, maxtick=30000000, addrs=[(0, 0), (0, 1), (1, 0)])
LINKJ = dict(depth=3, maxtick=30000000, addrs=[(0, 0), (0, 1), (1, 0)])
M = r"^lib::"
COMMON = ["the installed Verus compiles a scratch copy of the sources in which Set/Map are renamed to the vstd types of the same meaning (ISet/IMap) and proof bodies are dropped",
          "vstd collections mean what their documentation says (interpreted directly)"]


def g(rx, cfg={}): return (M + rx, cfg)


def P(files, groups, bounds, harness=(), excluded=(), **k):
    return dict(files=["Splinter/src/" + f for f in files], groups=groups, bounds=bounds, harness=list(harness), assumptions=COMMON,
                excluded=list(excluded) + ["whatever lies outside the bounds", "executable Verus code"], **k)


B0 = "sequences <= 2, integers 0..2 (quantifiers 0..3), 2 machine-integer values, recursion depth 4"
PROPS = {
    "S01": P(["spec/*", "marshalling/math_v.rs", "betree/Memtable_v.rs"],
             [g(r"spec::(?!ImplDisk|AppIO)"), g(r"betree::(Memtable|BufferOffsets|Utils|BufferSeq|BufferDisk)_v", LINK), g(r"marshalling::math_v")], [B0], ["spec.rs"]),
    "S02": P(["abstract_system/MsgHistory_v.rs", "abstract_system/StampedMap_v.rs", "abstract_system/AbstractJournal_v.rs", "abstract_system/AbstractMap_v.rs"],
             [g(r"abstract_system::(MsgHistory|StampedMap|AbstractJournal|AbstractMap)_v")], [B0], ["log.rs"]),
    "S03": P(["abstract_system/AbstractCrashAware*"], [g(r"abstract_system::AbstractCrashAware")], [B0], ["sys.rs"]),
    "S04": P(["journal/*"], [g(r"journal::PagedJournal", JRNL), g(r"journal::LinkedJournal", LINKJ)], ["journals of <= 4 pages (paged) or 3 (linked), <= 2 records a page, addresses (0,0) (0,1) (1,0), LSNs 0..2 (quantifiers 0..3)"], ["journal.rs"]),
    "S05": P(["betree/Paged*", "betree/Pivot*", "betree/Filtered*"], [g(r"betree::(PagedBetree|PivotBetree|FilteredBetree|PivotTable)", TREE)],
             ["trees of depth <= 2 (whole-state steps) or 3, <= 3 children or buffers a node, 2 keys"], ["tree.rs"]),
    "S06": P(["betree/LinkedBetree*", "betree/BufferDisk_v.rs", "betree/LinkedSeq_v.rs"], [g(r"betree::LinkedBetree", LINK)], ["trees of <= 2 levels (3 after growing) on 3 to 5 page addresses, <= 2 or 3 children and buffers a node, 2 keys"], ["link.rs"]),
    "S09": P(["betree/PivotBranch*", "betree/LinkedBranch*"], [g(r"betree::LinkedBranch", LINK), g(r"betree::PivotBranch", TREE)],
             ["B+-trees of depth <= 3 (values) or <= 2 levels on 4 page addresses (pages), <= 3 keys a node, 3 distinct keys"], ["branch.rs"]),
    "S07": P(["allocation_layer/*Journal*", "allocation_layer/Likes_v.rs", "disk/*"],
             [g(r"allocation_layer::\w*Journal", LINKJ), g(r"allocation_layer::(Likes|MiniAllocator)_v", LINKJ), g(r"disk::", LINKJ)],
             ["journals of <= 3 pages on addresses (0,0) (0,1) (1,0), LSNs 0..2 (quantifiers 0..3)"], ["alloc.rs"]),
    "S08": P(["allocation_layer/*B*"], [g(r"allocation_layer::\w*(Betree|Branch)", LINK)], ["trees of <= 2 levels (3 after growing) on 4 or 5 page addresses, branches of <= 2 levels on 4 page addresses"], ["likes.rs", "abranch.rs"]),
    "S10": P(["allocation_layer/AllocationBranchBetree*"], [], ["trees of <= 2 levels (3 after growing) on 5 allocation units, <= 2 (split: 3) children and branches a node, <= 2 compactions and <= 2 branches under construction, summaries any sets of units"],
             ["bbetree.rs"], ["the bytes of a branch (a branch's contents are an arbitrary buffer here; S08 and S09 decide them)"]),
    "S11": P(["trusted/SystemModel_t.rs", "implementation/AtomicState_v.rs", "implementation/ConcreteProgramModel_v.rs", "implementation/DiskLayout_v.rs", "implementation/MultisetMapRelation_v.rs", "implementation/ModelRefinement_v.rs", "spec/AsyncDisk_t.rs"],
             [g(r"(trusted::|implementation::(AtomicState|ConcreteProgramModel|DiskLayout|MultisetMapRelation|ModelRefinement)_v)", LINKJ)], ["2 keys, 2 values, versions 0..2, <= 2 requests, replies or disk operations under way"], ["store.rs"],
             ["the bytes of the superblock (a stand-in encodes every store within the bounds)"], root="sequential_main.rs"),
    "S12": P(["implementation/Cache_v.rs", "spec/AsyncDisk_t.rs"],
             [g(r"(implementation::Cache_v|spec::AsyncDisk_t)", LINKJ)], ["3 page addresses, <= 3 slots, <= 3 request ids, pages of one byte"], ["cache.rs"], root="sequential_main.rs"),
    "S13": P(["implementation/CachedJournal_v.rs", "implementation/JournalCoordinationSystem_v.rs", "implementation/JournalModel_v.rs"],
             [g(r"implementation::(CachedJournal|JournalCoordination\w*|JournalModel)_v", LINKJ)], ["journals of <= 3 pages on 3 addresses, <= 2 records a page, LSNs 0..3, cache of <= 3 slots, <= 3 disk operations under way"], ["cjournal.rs", "jcoord.rs"],
             ["the bytes of a journal page (a stand-in encodes every record within the bounds)"], root="sequential_main.rs"),
}
