"""Writes properties.jsonl (kept as a script so that the long text stays readable)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], hook_needed=hook)))


VER = ("The tests are per-function Verus proofs of the marshalling, message and buffer-offset modules and a parse of the Dafny "
       "files; ")
SM = "Splinter/src/marshalling/"
p("M01", "Serialised values read back exactly",
  "Writing any integer, integer sequence, length-prefixed sequence or key/value pair into a page and parsing the written "
  "range yields the same value. The writer consumes exactly the size it announced, reports the right end offset, encodes "
  "integers little-endian, and leaves every byte outside the range alone.",
  ["inputs"], "every value, every start offset and every prior content of the page",
  VER + "length-prefixed sequences have unproven (assumed or failing) functions, nothing executes the code, and no test value "
  "can stand for every value and offset.",
  [SM + f for f in ["IntegerMarshalling_v.rs", "UniformSizedSeq_v.rs", "ResizableUniformSizedSeq_v.rs", "KVPairFormat_v.rs",
                    "Slice_v.rs", "Marshalling_v.rs"]],
  [("exec_marshall / try_parse pairs", SM), ("Slice arithmetic", SM + "Slice_v.rs")],
  ["bytes in the buffer", "returned end offset and size", "parsed value"])
p("M02", "Editing a serialised sequence changes only the named element",
  "Overwriting an element, changing the length of, appending to, or initialising a sequence that is stored inside a larger "
  "page changes exactly that element or length as later reads see it: every other element, the length (unless it is what "
  "changes) and every byte outside the sequence stay as they were. An append is accepted exactly while there is room for it.",
  ["inputs", "histories"], "every page content, element index, value and position of the sequence in the page",
  VER + "the overwrite, resize and append of the length-prefixed sequence are the three functions that fail verification, so "
  "no test guards them, and the variable-sized append is only proven against them.",
  [SM + f for f in ["ResizableUniformSizedSeq_v.rs", "VariableSizedElementSeq_v.rs", "UniformSizedSeq_v.rs", "SeqMarshalling_v.rs",
                    "IntegerMarshalling_v.rs"]],
  [("exec_set, resize, exec_append, exec_appendable, initialize", SM)],
  ["elements read back", "bytes outside the element", "appendable/settable verdicts"])
p("M03", "Parsing arbitrary bytes is safe and exact",
  "Parsing any byte string as an integer, sequence, variable-sized-element page or key/value pair never panics, overflows, "
  "over-allocates or reads outside the given range. It accepts exactly the byte strings that follow the page format, and every "
  "slice or value it hands out lies inside the range and is the one those bytes encode.",
  ["inputs", "fault_sequences"], "every buffer content (including torn or corrupt pages) and every sub-range of it",
  VER + "proofs of the parsing loops are partly assumed away, allocation and arithmetic panics in library calls are not "
  "modelled, and samples cannot cover all corrupt pages.",
  [SM + f for f in ["IntegerMarshalling_v.rs", "UniformSizedSeq_v.rs", "ResizableUniformSizedSeq_v.rs", "VariableSizedElementSeq_v.rs",
                    "KVPairFormat_v.rs", "Slice_v.rs"]],
  [("try_length, try_get, try_parse, exec_well_formed, exec_parsable", SM)],
  ["accept/reject verdict", "returned slices and values", "panics"])

DT = "for this file the tests only run a parser, so any change that still parses passes; "
p("D01", "The block allocator never hands out a block that is still in use",
  "A block is offered for allocation only if no view of the disk (in memory, frozen, persistent or written-but-unacknowledged) uses it, "
  "and one is offered whenever such a block exists. Marking, freeing, freezing and crash-persisting blocks change exactly the "
  "views they name, and the combined in-use record always equals the union of the views. The bit-level operations behind it (set, clear, "
  "test, union, first free bit, 64-bit word tricks) do exactly that to the bits.",
  ["inputs", "histories"], "every content of every bitmap, every block number, every 64-bit word",
  DT + "reusing a block some view still needs shows only after a crash at the wrong moment.",
  ["Impl/BlockAllocatorModel.i.dfy", "lib/DataStructures/BitmapModel.i.dfy", "lib/Base/BitsetLemmas.i.dfy", "lib/Base/Option.s.dfy"],
  [("Alloc, MarkUsed*, MarkFree*, MoveEphemeralToFrozen, MoveFrozenToPersistent, Inv", "Impl/BlockAllocatorModel.i.dfy"),
   ("BitSet, BitUnset, BitAlloc, BitUnion", "lib/DataStructures/BitmapModel.i.dfy"),
   ("set_bit_to_*, bit, mask and word lemmas", "lib/Base/BitsetLemmas.i.dfy")],
  ["block offered", "contents of each view after each operation"])
p("D02", "Regions of the disk never overlap",
  "Superblocks, journal ring, indirection tables and tree nodes occupy disjoint, in-range byte regions: every location is classified "
  "as at most one kind, two valid locations of one kind are equal or disjoint, and a journal range of any start and length (including one that "
  "wraps round) maps to exactly the ring blocks it names. A full node and a full table fit their blocks.",
  ["inputs", "configurations"], "every 64-bit address and length and every journal start and length",
  DT + "an overlap needs a specific address or a wrapped journal interval to do damage.",
  ["BlockCacheSystem/DiskLayout.i.dfy", "PivotBetree/Bounds.i.dfy"],
  [("Valid*Location, *Addr, JournalRangeLocation, JournalPoint, overlap", "BlockCacheSystem/DiskLayout.i.dfy"), ("sizes and counts", "PivotBetree/Bounds.i.dfy")],
  ["address and length of each region"])
p("D03", "The specified store behaves as a key-value map",
  "In the top-level specification a query returns the value last written to that key (the default value if none), a write changes only "
  "its key, and a successor query returns exactly the present keys of its range in order, bounded as requested, together with the right "
  "end. The asynchronous view of it starts, runs and completes each request exactly once, and pairs each reply with its own request.",
  ["inputs", "histories"], "every map content, key, value, range bounds and pending-request set",
  DT + "what the specification admits for every key, range and interleaving is not something an example can show.",
  ["MapSpec/MapSpec.s.dfy", "MapSpec/AsyncMap.i.dfy", "MapSpec/UI.s.dfy", "lib/Base/MapRemove.s.dfy"],
  [("Query, Write, Succ, WF, Next", "MapSpec/MapSpec.s.dfy"), ("asynchronous steps", "MapSpec/AsyncMap.i.dfy")],
  ["reply of each operation", "map content after each operation"])
p("D04", "Synced data survives a crash",
  "In the crash-safety specification a crash reverts the store to its persistent version and to nothing newer or older, a version becomes "
  "persistent only after it was frozen, and a sync request is acknowledged only once everything that was visible when it was made is "
  "persistent. The layer below it keeps the persistent copy, and the frozen copy once written, intact through every disk change, loads the "
  "persistent one on recovery, and exposes each internal operation to the user as exactly the operation it stands for.",
  ["crash_points", "histories"], "every version triple, disk content, set of outstanding syncs, and one arbitrary step or crash from there",
  DT + "crashes at each point of each history cannot be enumerated by tests.",
  ["MapSpec/ThreeStateVersioned.s.dfy", "MapSpec/ThreeStateVersionedMap.s.dfy", "Versions/StatesView.i.dfy", "Versions/StatesViewMap.i.dfy", "Versions/VOp.i.dfy"],
  [("Crash, Move1to2, Move2to3, PushSync, PopSync", "MapSpec/ThreeStateVersioned.s.dfy"),
   ("Crash, Freeze, ProvideFrozenLoc, ForgetOld, ObtainPersistentLoc, DiskChange, Advance", "Versions/StatesView.i.dfy"), ("VOpAgreesUIOp", "Versions/VOp.i.dfy")],
  ["persistent, frozen and in-memory versions after each step", "which sync requests are acknowledged"])
p("D05", "Keys are ordered bytewise and translated by prefix only",
  "Keys compare exactly in lexicographic byte order, which is total, antisymmetric and transitive with the empty key least. Translating a key "
  "from one prefix to another replaces exactly that prefix, keeps the rest, and can be undone; the sequence helpers (last, all-but-last, find, concatenate) return "
  "exactly what they name.",
  ["inputs"], "every pair and triple of byte strings, prefix and suffix",
  DT + "order laws quantify over all keys.",
  ["lib/Lang/System/SeqComparison.s.dfy", "lib/Buckets/TranslationApply.s.dfy", "lib/Base/KeyType.s.dfy", "lib/Base/SequencesLite.s.dfy", "lib/Marshalling/Seqs.i.dfy"],
  [("lte, lt", "lib/Lang/System/SeqComparison.s.dfy"), ("changePrefix", "lib/Buckets/TranslationApply.s.dfy")],
  ["comparison verdicts", "translated keys"])
p("D06", "The collection libraries compute what they name",
  "Removing, restricting, uniting, inverting and looking up maps and infinite maps, and the set, sequence-of-set, optional-value and map-object "
  "operations built on them, return exactly the entries their names promise for every content. The overlap cases resolve to the promised side, absent keys stay absent, and sizes add up.",
  ["inputs"], "every pair of maps or sets over the element type, every key",
  DT + "wrong overlap or absent-key handling shows only on particular contents.",
  ["lib/Base/Maps.i.dfy", "lib/Base/MapRemove.s.dfy", "lib/Base/Sets.i.dfy", "lib/Base/map.i.dfy", "lib/Base/SetBijectivity.i.dfy", "lib/Base/Option.s.dfy",
   "lib/Marshalling/Maps.i.dfy", "Splinter/SequenceSets.i.dfy"],
  [("map operations", "lib/Base/Maps.i.dfy"), ("set operations", "lib/Base/Sets.i.dfy"), ("map objects", "lib/Base/map.i.dfy")],
  ["resulting maps, sets and sequences"])
p("D07", "Integer encodings and arithmetic lemmas are exact",
  "Little-endian packing and unpacking and big-endian conversion of integers are exact inverses with the byte order their names say, for single values and "
  "for sequences, and array copies place every element. The power-of-two, division, modulus, min and max facts the rest relies on are true, and the bit-string "
  "operations set exactly the bits they name.",
  ["inputs"], "every 16-, 32- and 64-bit value and byte string",
  DT + "a wrong shift or byte can matter for a few values out of 2^64.",
  ["lib/Lang/System/PackedInts.s.dfy", "lib/Base/PackedIntsLib.i.dfy", "lib/Marshalling/Util.i.dfy", "lib/Base/mathematics.i.dfy", "lib/Math/Math.i.dfy",
   "lib/Math/Nonlinear.i.dfy", "lib/Math/ModLemmas.i.dfy", "lib/Lang/System/Bits.s.dfy", "lib/Lang/NativeTypes.s.dfy"],
  [("unpack_LittleEndian_*, pack_LittleEndian_Uint32", "lib/Base/PackedIntsLib.i.dfy"), ("BEByteSeqToInt, Uint64ToSeqByte, SeqByteToUint16, seqIntoArrayOpt", "lib/Marshalling/Util.i.dfy")],
  ["encoded bytes", "decoded values"])
p("D08", "Page reads see exactly the writes applied to the page",
  "In the disk-view model an address is valid exactly when it lies inside the disk. Reading a page after a batch of writes returns the batch's value for the pages it names and the old "
  "content for all others. Two views count as equivalent over a set of addresses exactly when every read of those addresses agrees, and state outside a structure's own "
  "address set cannot change its meaning.",
  ["inputs", "histories"], "every disk view, batch of writes and address",
  DT + "framing has to hold for every address outside the batch.",
  ["Splinter/DiskTypes.s.dfy", "Splinter/Allocation.i.dfy", "Splinter/CacheIfc.i.dfy", "Splinter/CacheLemmas.i.dfy", "Splinter/ReprsAsSets.i.dfy", "Splinter/IndirectionTable.i.dfy"],
  [("ApplyWrites, ReadValue", "Splinter/CacheIfc.i.dfy"), ("DiskViewsEquivalent, FullView", "Splinter/Allocation.i.dfy"), ("ValidCU, CUsInDisk", "Splinter/DiskTypes.s.dfy")],
  ["page values read"])
p("D09", "The log-on-disk system never loses a flushed entry",
  "In the logging system every step keeps the disk a well-formed log whose in-memory copy agrees with it. Entries below the durable length never change and the durable length never "
  "shrinks, a flush makes the whole log durable only once every entry is on disk, and a crash followed by recovery yields exactly the durable entries in order. "
  "Every step is a step of the crash-safe log specification.",
  ["crash_points", "histories"], "every disk and memory state that satisfies the invariant, and one arbitrary step or crash from there",
  DT + "loss needs a crash between two particular writes.",
  ["examples/log/Disk.dfy", "examples/log/DiskLog.dfy", "examples/log/DiskLogSystem.dfy", "examples/log/DiskLogSystemInv.dfy",
   "examples/log/DiskLogSystemCrashSafeLogRefinement.dfy", "examples/log/LogSpec.dfy", "examples/log/CrashSafeLog.dfy"],
  [("Append, StageElement, Flush, FetchSuperblock, FetchElement", "examples/log/DiskLog.dfy"), ("Crash", "examples/log/DiskLogSystem.dfy"), ("Inv", "examples/log/DiskLogSystemInv.dfy")],
  ["durable log", "recovered log"])
p("D10", "Red-black tree insertion keeps the tree ordered, balanced and complete",
  "After any sequence of insertions the tree holds exactly the inserted values with their multiplicities, in order, with equal black heights and no red node under a red one. A membership test "
  "answers yes exactly for the values inserted.",
  ["inputs", "histories"], "every sequence of insertions and every queried value",
  DT + "each rebalancing case needs its own insertion order.",
  ["examples/red-black.dfy"], [("Insert, InnerInsert, RepairCase*, Contains", "examples/red-black.dfy")], ["tree contents", "membership verdicts"])
p("D11", "Concurrent examples conserve money and serialise correctly",
  "A bank transfer moves the amount between two distinct existing accounts, touches no other and conserves the total. In the lock-coupling donation game at most one thread holds each lock, a finished donation "
  "bumps exactly the first matching well on its path, and steps on later locks commute before steps on earlier ones. The fraction arithmetic yields reduced, exact sums and the atomic "
  "byte operations act bit by bit.",
  ["schedules", "inputs"], "every board, thread set, interleaved step, account list, fraction and byte",
  DT + "races and wrong amounts depend on the schedule and values.",
  ["concurrency/bank/bank.dfy", "concurrency/refcounter2/Rational.s.dfy", "concurrency/hack-concurrency-framework/Rational.s.dfy", "concurrency/scache/Atomic.s.dfy",
   "concurrency/scache/Constants.i.dfy", "examples/concurrency-strategies/spec.s.dfy", "examples/concurrency-strategies/commutativity-strategy.dfy"],
  [("Transfer", "concurrency/bank/bank.dfy"), ("Start, Advance, Commute", "examples/concurrency-strategies/commutativity-strategy.dfy"), ("add, gcd", "concurrency/refcounter2/Rational.s.dfy")],
  ["account balances", "board and thread states", "sums", "bits"])
p("D12", "Paths relate to directories as prefixes",
  "One path lies beneath another exactly when it extends it, an entry of a directory is a path one name longer, and the parent of a path is that path without its last name (the root is its own parent). "
  "A directory is empty exactly when nothing beneath it exists; a new file system contains only the root. Entries of one directory are ordered by the bytes of their names.",
  ["inputs"], "every pair of paths and every path map",
  DT + "prefix relations quantify over all paths.",
  ["Filesys/PathSpec.s.dfy", "Filesys/FSTypes.s.dfy"], [("BeneathDir, IsDirEntry, GetParentDir, IsEmptyDir, DirEntryLte", "Filesys/PathSpec.s.dfy")], ["verdicts and parents"])
CT = "the tests never compile or run the C++ framework; "
p("C01", "The disk framework reports a write only when it is on disk",
  "A write is reported finished only after the kernel wrote every byte of it to its own location; a short or failed transfer stops the process instead of being "
  "reported. Every accepted write is issued once, in order, with at most eight outstanding, and is eventually reported exactly once under its own id. "
  "Reads return the bytes at their location, and nothing is read, freed or overrun that the kernel still uses.",
  ["schedules", "fault_sequences", "histories"], "every sequence of reads, writes, polls and waits, every order in which the kernel completes requests, every kernel failure",
  CT + "a lost or early completion depends on how requests complete and fail.",
  ["framework/Framework.cpp", "framework/Framework.h"],
  [("DiskIOHandler::write, maybeStartWriteReq, completeWriteTasks, waitForOne, prepareWriteResponse, read, mkfs", "framework/Framework.cpp")],
  ["requests issued to the kernel", "ids reported finished", "bytes on disk and bytes read"])
p("C02", "The native primitives compute what they are specified to",
  "The hand-written native routines that verified code relies on (byte comparison, copying and filling of arrays, packing and unpacking of integers, linear sequences, boxes and map removal, checksums) return "
  "exactly their specified results for every argument. Byte strings compare in unsigned lexicographic order, copies between overlapping ranges behave as if simultaneous, and no call touches memory outside its arguments.",
  ["inputs"], "every argument within the specified preconditions",
  CT + "the verifier trusts them by axiom, so nothing checks them at all.",
  ["framework/Framework.cpp", "framework/NativeArrays.h", "framework/LinearExtern.h", "framework/LinearBox.h", "framework/LinearCongruentialGenerator.cpp"],
  [("NativeArrays, NativePackedInts, NativeArithmetic, Crc32 sections", "framework/Framework.cpp"), ("linear sequences and boxes", "framework/LinearExtern.h")],
  ["results and memory contents"])
p("C03", "The application interface gives the store's answers to its caller",
  "An insert, query or range query retries until the store accepts it and then returns exactly the store's answer; a range query returns each key of its range once, in order, whatever pages the store splits it into. "
  "A sync returns only after the store reports it, with every disk response handed on. The optional row cache never returns a value other than the one last inserted or fetched, and over-long keys and values are refused.",
  ["inputs", "histories", "schedules"], "every key, value, page split, refusal pattern and interleaving with disk completions",
  CT + "stale rows and lost or repeated keys depend on the history and the page boundaries.",
  ["framework/Framework.cpp", "framework/Application.h", "framework/BundleWrapper.cpp", "framework/UnverifiedRowCache.cpp"],
  [("Insert, Query, Succ, Sync, SuccOnce, EvictEverything", "framework/Framework.cpp"), ("row cache", "framework/UnverifiedRowCache.cpp")],
  ["values and keys returned", "acknowledged syncs"])
SV = "The tests verify only the marshalling, message and offset modules; this part is not compiled, verified or run by any of them, so any change passes; "
SP = "Splinter/src/"


def sf(d, *names): return [SP + d + "/" + n + "_v.rs" for n in names]


p("S01", "The Splinter specification is a crash-tolerant key-value map",
  "In the top-level specification a put changes exactly its key, a query returns the last value put, and each request is executed once and answered once. A crash rolls the store "
  "back to one version it held no older than any acknowledged sync, and loses only outstanding requests. Key search, merging of updates and versioned sequences behave as an ordered map with associative updates requires.",
  ["inputs", "histories", "crash_points"], "every map, request, version history and update within the stated bounds",
  SV + "everything else is proved against this specification, so an error in it is invisible.",
  [SP + "spec/" + f for f in ["MapSpec_t.rs", "Messages_t.rs", "KeyType_t.rs", "TotalKMMap_t.rs", "FloatingSeq_t.rs"]] + sf("betree", "Memtable", "BufferOffsets"),
  [("MapSpec, AsyncMap, CrashTolerantAsyncMap", SP + "spec/MapSpec_t.rs"), ("Message merge", SP + "spec/Messages_t.rs"), ("Key order and search", SP + "spec/KeyType_t.rs")],
  ["replies", "versions surviving a crash", "merged update"])
p("S02", "Replaying a log gives the map its entries describe",
  "A log holds one update for each sequence number of its range. Applying it to a map at its first number gives, for every key, the updates of that key merged in order and nothing else; cutting it in two and replaying both halves, "
  "discarding a prefix or suffix, or appending changes exactly the entries named. The abstract log and map report and freeze exactly what they hold.",
  ["inputs", "histories"], "every log, map and cut point within the stated bounds", SV + "an off-by-one at a cut shows only after a recovery that starts there.",
  sf("abstract_system", "MsgHistory", "StampedMap", "AbstractJournal", "AbstractMap"),
  [("MsgHistory apply/discard/concat", SP + "abstract_system/MsgHistory_v.rs"), ("AbstractJournal, AbstractMap steps", SP + "abstract_system")], ["map after replay", "entries kept"])
p("S03", "The crash-aware system loses nothing that was synced",
  "The combination of log, map and superblock answers queries from the newest contents, and acknowledges a sync only when the log covering it is durable. After a crash at any point, whether or not the write in flight landed, recovery yields a state the store "
  "held no older than any acknowledged sync. Each step that is needed to make progress (start and finish a commit, answer a sync, recover) can be taken.",
  ["histories", "crash_points", "schedules"], "every state reachable by consistent steps, every step and every crash point within the stated bounds",
  SV + "a lost update needs a crash between particular steps of a commit.",
  sf("abstract_system", "AbstractCrashAwareJournal", "AbstractCrashAwareMap", "AbstractCrashAwareSystem", "AbstractCrashAwareSystemRefinement"),
  [("CoordinationSystem steps and invariant", SP + "abstract_system/AbstractCrashAwareSystem_v.rs"), ("refinement to CrashTolerantAsyncMap", SP + "abstract_system/AbstractCrashAwareSystemRefinement_v.rs")],
  ["query answers", "acknowledged syncs", "contents after recovery"])
p("S04", "The journal keeps every entry across marshalling, truncation and freezing",
  "The entries a journal holds, as pages linked in memory or on disk plus an unwritten tail, are the ones put since its boundary. Writing the tail to a page changes none of them, discarding drops exactly those before the new boundary, and freezing or reading for recovery gives exactly the "
  "entries of the range asked for. A journal whose links are consistent stays so, and keeps no unreachable page once tidied.",
  ["inputs", "histories"], "every journal, boundary and step within the stated bounds", SV + "a dropped or repeated entry shows only when recovery reads the page it was on.",
  sf("journal", "PagedJournal", "PagedJournalRefinement", "LinkedJournal", "LinkedJournalRefinement"),
  [("PagedJournal, LinkedJournal steps", SP + "journal"), ("crop, discard, build_tight", SP + "journal/LinkedJournal_v.rs")], ["entries read back", "pages kept"])
p("S05", "Reorganising the tree never changes what any key reads",
  "In the tree models with in-memory nodes, reading a key gives the merge of everything put for it since the beginning. Flushing, splitting, compacting, growing the root and garbage-collecting buffers leave every key's answer as it was, a put changes exactly its keys, and freezing captures exactly the current contents. "
  "The tree's well-formedness survives every step.",
  ["inputs", "histories"], "every tree, key and step within the stated bounds", SV + "a wrong answer needs a particular tree shape and flush offset.",
  sf("betree", "PagedBetree", "PagedBetreeRefinement", "PivotBetree", "PivotBetreeRefinement", "PivotTable", "FilteredBetree", "FilteredBetreeRefinement", "SplitRequest", "OffsetMap", "Domain"),
  [("flush, split, compact, grow", SP + "betree/FilteredBetree_v.rs"), ("PivotTable route and insert", SP + "betree/PivotTable_v.rs")], ["query answers"])
p("S06", "Reorganising the tree on disk never changes what any key reads",
  "In the tree of disk pages every read through the page links gives the merge of the buffered updates for the key. Flushing, splitting, compacting and growing write only fresh pages, substitute exactly the path they rewrote, "
  "and leave every key's answer and every page of the old tree as they were.",
  ["inputs", "histories"], "every tree on the stated page addresses, every key and step within the stated bounds", SV + "a page shared or dropped by mistake shows only when the key range on it is read.",
  sf("betree", "LinkedBetree", "LinkedBetreeRefinement", "BufferDisk", "LinkedSeq"),
  [("LinkedBetree split, flush, compact, substitute", SP + "betree/LinkedBetree_v.rs")], ["query answers", "pages on disk"])
p("S07", "The journal's page accounting never frees or reuses a live page",
  "The index from sequence number to page or allocation unit names, for every entry still held, the page that really holds it. The allocator hands out only pages that are free, and truncation releases only units that hold nothing the current, frozen or persistent journal still needs. "
  "A crash or a finished commit leaves exactly the image it should.",
  ["inputs", "histories", "crash_points"], "every journal, index and allocator state within the stated bounds", SV + "reusing a live page shows only after the right truncation and crash.",
  sf("allocation_layer", "LikesJournal", "LikesJournalRefinement", "AllocationJournal", "AllocationJournalRefinement", "AllocationCrashAwareJournal", "AllocationCrashAwareJournalRefinement", "UnifiedCrashAwareJournal",
     "UnifiedCrashAwareJournalRefinement", "Likes", "MiniAllocator") + sf("disk", "GenericDisk"),
  [("AllocationJournal steps and invariant", SP + "allocation_layer/AllocationJournal_v.rs"), ("MiniAllocator", SP + "allocation_layer/MiniAllocator_v.rs")], ["pages allocated and released", "entries read back"])
p("S08", "The tree's page accounting matches the pages the tree uses",
  "The reference counts kept for tree pages and buffers are exactly those the tree's links imply. A page or allocation unit is released only when nothing refers to it, and every step of the tree with accounting is a step of the tree without it.",
  ["inputs", "histories"], "every tree within the stated bounds", SV + "a leaked or prematurely freed page shows only after a particular sequence of reorganisations.",
  sf("allocation_layer", "LikesBetree", "LikesBetreeRefinement", "AllocationBetree", "AllocationBetreeRefinement", "AllocationBranch", "AllocationBranchBetree", "AllocationBranchBetreeRefinement"),
  [("tree_likes, buffer_likes", SP + "allocation_layer/LikesBetree_v.rs")], ["pages in use"])
p("S09", "A branch is a search tree: inserts, appends, splits keep every key",
  "Looking a key up in a branch, as values or as linked pages, returns the update stored for it and nothing for an absent key. Insert and append change exactly the keys they name; growing and splitting change none. The order of keys and the fences between "
  "children survive every step.",
  ["inputs", "histories"], "every B+-tree and key within the stated bounds", SV + "a key on the wrong side of a split shows only for that key.",
  sf("betree", "PivotBranch", "PivotBranchRefinement", "LinkedBranch") + [SP + "betree/LinkedBranch_v/Refinement_v.rs"],
  [("insert, append, split, grow, query", SP + "betree/PivotBranch_v.rs")], ["answer for each key"])
p("S10", "A storage unit is handed back only when nothing in use needs it",
  "Across the whole tree with its branches, unfinished compactions and branches being built: a step takes only unused allocation units and gives back exactly those that neither the tree, nor a branch the tree lists, nor the input of an unfinished compaction, nor a branch under construction needs afterwards. "
  "Nothing in use is freed, nothing unused stays taken, and no two owners share a unit.",
  ["inputs", "histories"], "every combined state of tree, branches, compactions and builders within the stated bounds", SV + "a unit freed while a compaction still reads it fails only under one order of flush, compaction and reuse.",
  sf("allocation_layer", "AllocationBranchBetree", "AllocationBranch", "AllocationBetree", "LikesBetree"),
  [("AllocationBranchBetree transitions", SP + "allocation_layer/AllocationBranchBetree_v.rs"), ("flush/split/compact reference counts", SP + "allocation_layer/AllocationBetree_v.rs")], ["allocation units taken and released"])
p("S11", "An acknowledged sync survives a crash of the running store and its disk",
  "The store running against its asynchronous disk answers puts and queries as a map does. A sync is answered only for a sync that was asked for, and only once the superblock on disk holds every put before it. Whatever the disk has done or lost at a crash, a restart recovers the contents after some prefix of the puts "
  "that includes everything synced. Disk operations may finish in any order and at any time.",
  ["inputs", "histories", "schedules", "crash_points"], "every state of program, client and disk within the stated bounds, every step from it", SV + "a lost sync shows only when the crash falls between two disk operations.",
  [SP + "trusted/SystemModel_t.rs", SP + "spec/AsyncDisk_t.rs"] + sf("implementation", "AtomicState", "ConcreteProgramModel", "DiskLayout", "MultisetMapRelation", "ModelRefinement"),
  [("AtomicState steps", SP + "implementation/AtomicState_v.rs"), ("SystemModel transitions", SP + "trusted/SystemModel_t.rs"), ("AsyncDisk", SP + "spec/AsyncDisk_t.rs")], ["replies to clients", "superblock on disk"])
p("S12", "Caching pages never changes what a page reads or loses a written one",
  "Every page read through the cache is the page last written, wherever it lives: in memory, on disk, or on its way between them. Loading, evicting and writing back change no page. A page is evicted only when the disk holds it, one page never has two copies or two operations under way, and disk requests may finish in any order.",
  ["inputs", "histories", "schedules"], "every state of cache and disk within the stated bounds, every step from it", SV + "a stale page shows only under one order of write-back, completion and eviction.",
  sf("implementation", "Cache") + [SP + "spec/AsyncDisk_t.rs"],
  [("Cache transitions", SP + "implementation/Cache_v.rs"), ("AsyncDisk transitions", SP + "spec/AsyncDisk_t.rs")], ["pages read", "disk contents"])
p("S13", "The cached journal keeps its records, in memory or on disk",
  "The journal's index names, for each record still held, the page that holds it. Put appends, moving the tail to a page loses nothing, discarding drops exactly the records before the boundary, and recovery reads back the records put. "
  "A frozen journal can be read from the disk alone, and nothing the cache does afterwards changes the pages it names.",
  ["inputs", "histories", "schedules", "crash_points"], "every state of journal, cache and disk within the stated bounds, every step from it", SV + "a page missing from a frozen journal shows only after a crash.",
  sf("implementation", "CachedJournal", "JournalCoordinationSystem", "JournalModel", "JournalCoordinationRefinement"),
  [("CachedJournal transitions", SP + "implementation/CachedJournal_v.rs"), ("JournalCoordinationSystem transitions", SP + "implementation/JournalCoordinationSystem_v.rs")], ["records read back", "frozen journal"])
p("M04", "The running store acknowledges a sync only when its puts are on disk",
  "In the store's main loop every put and no-op is answered exactly once, with its own id and kind. A sync is answered exactly once, only after a superblock that holds every put before the sync has been written, and at the latest when the first superblock written after it is on disk; "
  "while a sync waits, a write is under way. There is one superblock write at a time, to the superblock's address, never before the superblock was read, and it carries exactly the puts executed so far.",
  ["inputs", "histories", "schedules"], "every key, value and request id, in the listed orders of requests and disk completions", "The tests neither compile nor run the store, so any change passes; a sync answered early loses data only if a crash follows.",
  [SP + "implementation/Implementation_v.rs", SP + "implementation/DiskLayout_v.rs", SP + "trusted/ReqReply_t.rs", SP + "spec/ImplDisk_t.rs"],
  [("handle_user_request, handle_disk_response, send_superblock", SP + "implementation/Implementation_v.rs")], ["replies to clients", "requests to the disk"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
