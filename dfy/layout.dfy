include "REPO/BlockCacheSystem/DiskLayout.i.dfy"
module H_Layout {
  import opened NativeTypes
  import opened DiskLayout
  import opened Bounds
  import opened Options
  // how a location is laid out, in blocks: exact arithmetic, independent of the predicates
  function JN(): int { DiskNumJournalBlocks() }
  function JEnd(): int { 2 * 4096 + JN() * 4096 }
  predicate Fits(l: Location) { l.addr as int + l.len as int <= 0xffff_ffff_ffff_ffff }
  predicate Disjoint(a: Location, b: Location) {
    a.addr as int + a.len as int <= b.addr as int || b.addr as int + b.len as int <= a.addr as int
  }
  lemma superblocks_apart()
    ensures Disjoint(Superblock1Location(), Superblock2Location())
    ensures Superblock1Location().len as int >= SuperblockSize() && Superblock2Location().len as int >= SuperblockSize()
  {}
  lemma super_vs_journal(l: Location) requires ValidJournalLocation(l)
    ensures Disjoint(l, Superblock1Location()) && Disjoint(l, Superblock2Location()) {}
  lemma super_vs_table(l: Location) requires ValidIndirectionTableLocation(l)
    ensures Disjoint(l, Superblock1Location()) && Disjoint(l, Superblock2Location()) {}
  lemma super_vs_node(l: Location) requires ValidNodeLocation(l)
    ensures Disjoint(l, Superblock1Location()) && Disjoint(l, Superblock2Location()) {}
  lemma journal_vs_table(j: Location, t: Location) requires ValidJournalLocation(j) && ValidIndirectionTableLocation(t) ensures Disjoint(j, t) {}
  lemma journal_vs_node(j: Location, n: Location) requires ValidJournalLocation(j) && ValidNodeLocation(n) ensures Disjoint(j, n) {}
  lemma table_vs_node(t: Location, n: Location) requires ValidIndirectionTableLocation(t) && ValidNodeLocation(n) ensures Disjoint(t, n) {}
  lemma tables_apart(t: Location, u: Location)
    requires ValidIndirectionTableLocation(t) && ValidIndirectionTableLocation(u) && t.addr != u.addr
    ensures Disjoint(t, u) {}
  lemma nodes_apart(n: Location, o: Location)
    requires ValidNodeLocation(n) && ValidNodeLocation(o) && n.addr != o.addr
    requires n.addr as int + n.len as int <= 0xffff_ffff_ffff_ffff && o.addr as int + o.len as int <= 0xffff_ffff_ffff_ffff
    ensures Disjoint(n, o) {}
  lemma journal_in_bounds(l: Location) requires ValidJournalLocation(l)
    ensures 2 * 4096 <= l.addr as int && l.addr as int + l.len as int <= JEnd() && l.addr as int % 4096 == 0 && l.len as int % 4096 == 0 {}
  lemma journal_all(s: uint64, n: uint64)
    requires s as int < JN() && s as int + n as int <= JN()
    ensures var l := Location((2 * 4096 + s as int * 4096) as uint64, (n as int * 4096) as uint64); ValidJournalLocation(l)
      && JournalRangeLocation(s, n) == l {}
  lemma journal_idx(l: Location) requires ValidJournalLocation(l)
    ensures JournalBlockIdx(l) * 4096 + 2 * 4096 == l.addr as int && 0 <= JournalBlockIdx(l) < JN() {}
  lemma kinds(l: Location)
    ensures ValidLocation(l) <==> (ValidSuperblockLocation(l) || ValidJournalLocation(l) || ValidIndirectionTableLocation(l) || ValidNodeLocation(l))
    ensures ValidSuperblockLocation(l) <==> (ValidSuperblock1Location(l) || ValidSuperblock2Location(l))
    ensures ValidSuperblock1Location(l) <==> l == Superblock1Location()
    ensures ValidSuperblock2Location(l) <==> l == Superblock2Location()
  {}
  lemma {:cfg "native=(0,2**44), types=dict()"} node_iff(a: uint64, n: uint64)
    ensures ValidNodeLocation(Location(a, n)) <==> a as int % NodeBlockSize() == 0 && a as int >= NodeBlockSize() * MinNodeBlockIndex() && n as int <= NodeBlockSize() {}
  lemma every_block_has_address(i: uint64)
    requires MinNodeBlockIndex() <= i as int < NumBlocks()
    ensures i as int * NodeBlockSize() <= 0xffff_ffff_ffff_ffff
    ensures ValidNodeAddr((i as int * NodeBlockSize()) as uint64) {}
  lemma min_block_past_tables()
    ensures MinNodeBlockIndex() * NodeBlockSize() >= JEnd() + 2 * IndirectionTableBlockSize()
    ensures MinNodeBlockIndex() <= NumBlocks()
    ensures MaxTotalBucketWeight() < NodeBlockSize()
    ensures FlushTriggerWeight() <= MaxTotalBucketWeight() && MaxNumChildren() >= 2
    ensures LargestBlockSizeOfAnyTypeUint64() as int >= IndirectionTableBlockSize() && LargestBlockSizeOfAnyTypeUint64() as int >= NodeBlockSize() {}
  lemma sizes_agree()
    ensures NodeBlockSize() == NodeBlockSizeUint64() as int && NumBlocks() == NumBlocksUint64() as int
    ensures IndirectionTableBlockSize() == IndirectionTableBlockSizeUint64() as int && JN() == NumJournalBlocks() as int
    ensures MinNodeBlockIndex() == MinNodeBlockIndexUint64() as int && IndirectionTableMaxLength() as int == IndirectionTableBlockSize() {}
  lemma other_table(a: uint64)
    requires ValidIndirectionTableAddr(a)
    ensures ValidIndirectionTableAddr(otherIndirectionTableAddr(a)) && otherIndirectionTableAddr(a) != a {}
  lemma overlap_means(a: Location, b: Location) requires Fits(a) && Fits(b)
    ensures overlap(a, b) == (a.addr as int < b.addr as int + b.len as int && b.addr as int < a.addr as int + a.len as int) {}
  lemma sub_means(a: Location, b: Location)
    ensures LocationSub(a, b) == (b.addr as int <= a.addr as int && a.addr as int + a.len as int <= b.addr as int + b.len as int) {}
  // block p of the ring is inside the circular range [s, s+n)
  predicate InRing(p: int, s: int, n: int) { (s <= p < s + n) || (s <= p + JN() < s + n) }
  lemma ring_contains(p: uint64, s: uint64, n: uint64)
    requires p as int < JN() && s as int < JN() && n as int <= JN()
    ensures var l := Location((8192 + p as int * 4096) as uint64, 4096);
      locContainedInCircularJournalRange(l, s, n) == InRing(p as int, s as int, n as int) {}
  lemma ring_disjoint(p: uint64, s: uint64, n: uint64)
    requires p as int < JN() && s as int < JN() && n as int <= JN()
    ensures var l := Location((8192 + p as int * 4096) as uint64, 4096);
      n > 0 ==> locDisjointFromCircularJournalRange(l, s, n) == !InRing(p as int, s as int, n as int) {}
  // byte x of the disk lies in a block of the ring that is inside the circular range [s, s+n)
  predicate InRingByte(x: int, s: int, n: int) { 8192 <= x < 8192 + JN() * 4096 && InRing((x - 8192) / 4096, s, n) }
  lemma {:cfg "int=(0,2**45)"} ring_contains_bytes(l: Location, s: uint64, n: uint64, x: int)
    requires Fits(l) && s as int < JN() && n as int <= JN() && l.addr as int <= x < l.addr as int + l.len as int
    requires locContainedInCircularJournalRange(l, s, n)
    ensures InRingByte(x, s as int, n as int) {}
  lemma {:cfg "int=(0,2**45)"} ring_disjoint_bytes(l: Location, s: uint64, n: uint64, x: int)
    requires Fits(l) && s as int < JN() && n as int <= JN() && l.addr as int <= x < l.addr as int + l.len as int
    requires locDisjointFromCircularJournalRange(l, s, n)
    ensures !InRingByte(x, s as int, n as int) {}
  lemma ring_disjoint_complete(l: Location, s: uint64, n: uint64)
    requires Fits(l) && s as int < JN() && n as int <= JN()
    requires l.addr as int + l.len as int <= 8192 || l.addr as int >= 8192 + JN() * 4096
    ensures n > 0 ==> locDisjointFromCircularJournalRange(l, s, n) {}
  lemma {:cfg "int=(0,2**20)"} ring_add(s: int, d: int) requires 0 <= s < JN() && 0 <= d <= JN()
    ensures JournalPosAdd(s, d) == (s + d) % JN() {}
  lemma front_back(s: uint64, n: uint64, p: uint64)
    requires s as int < JN() && n as int <= JN() && p as int < JN()
    ensures var f := JournalFrontLocation(s, n); var b := JournalBackLocation(s, n);
      (InRing(p as int, s as int, n as int) <==>
        ((f.Some? && f.value.addr as int <= 8192 + p as int * 4096 < f.value.addr as int + f.value.len as int)
         || (b.Some? && b.value.addr as int <= 8192 + p as int * 4096 < b.value.addr as int + b.value.len as int)))
      && (f.Some? ==> f.value.addr as int == 8192 + s as int * 4096) && (b.Some? ==> f.Some? && b.value.addr == 8192)
      && (f.Some? ==> ValidJournalLocation(f.value) && f.value.len > 0) && (b.Some? ==> ValidJournalLocation(b.value) && b.value.len > 0)
      && (f.Some? ==> f.value.len as int + (if b.Some? then b.value.len as int else 0) == n as int * 4096) {}
}
