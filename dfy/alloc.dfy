include "REPO/Impl/BlockAllocatorModel.i.dfy"
module H_Bitmap {
  import opened BitmapModel
  import opened Options
  lemma set_bit(bm: seq<bool>, i: int, j: int)
    requires 0 <= i < |bm| && 0 <= j < |bm|
    ensures |BitSet(bm, i)| == |bm|
    ensures BitSet(bm, i)[j] == (i == j || bm[j])
  {}
  lemma unset_bit(bm: seq<bool>, i: int, j: int)
    requires 0 <= i < |bm| && 0 <= j < |bm|
    ensures |BitUnset(bm, i)| == |bm|
    ensures BitUnset(bm, i)[j] == (i != j && bm[j])
  {}
  lemma is_set(bm: seq<bool>, i: int) requires 0 <= i < |bm| ensures IsSet(bm, i) == bm[i] {}
  lemma empty(n: int) requires 0 <= n <= 5 ensures |EmptyBitmap(n)| == n && forall i | 0 <= i < n :: !EmptyBitmap(n)[i] {}
  lemma union(a: seq<bool>, b: seq<bool>, i: int)
    requires |a| == |b| && 0 <= i < |a|
    ensures |BitUnion(a, b)| == |a|
    ensures BitUnion(a, b)[i] == (a[i] || b[i])
  {}
  lemma alloc_free_bit(bm: seq<bool>)
    ensures BitAlloc(bm).Some? ==> 0 <= BitAlloc(bm).value < |bm| && !bm[BitAlloc(bm).value]
    ensures BitAlloc(bm).Some? <==> exists i :: 0 <= i < |bm| && !bm[i]
  {}
  lemma alloc_lowest(bm: seq<bool>, i: int)
    requires 0 <= i < |bm| && !bm[i]
    ensures BitAlloc(bm).Some? && BitAlloc(bm).value <= i
  {}
  lemma alloc_from(bm: seq<bool>, i: int)
    requires 0 <= i <= |bm|
    ensures BitAllocIter(bm, i).Some? ==> i <= BitAllocIter(bm, i).value < |bm| && !bm[BitAllocIter(bm, i).value]
    ensures BitAllocIter(bm, i).None? ==> forall k | i <= k < |bm| :: bm[k]
  {}
}
module H_BlockAllocator {
  import opened BlockAllocatorModel
  import opened Bounds
  import opened Options
  import BitmapModel

  function B(b: seq<bool>, i: int): bool { 0 <= i < |b| && b[i] }
  // what "block i is used by some view" means
  predicate Used(b: BlockAllocatorModel, i: int) {
    B(b.ephemeral, i) || (b.frozen.Some? && B(b.frozen.value, i)) || B(b.persistent, i) || B(b.outstanding, i)
  }
  predicate WF(b: BlockAllocatorModel) {
    |b.ephemeral| == NumBlocks() && |b.persistent| == NumBlocks() && |b.outstanding| == NumBlocks() && |b.full| == NumBlocks()
    && (b.frozen.Some? ==> |b.frozen.value| == NumBlocks())
    && forall i | 0 <= i < NumBlocks() :: b.full[i] == Used(b, i)
  }
  lemma inv_means(b: BlockAllocatorModel) ensures Inv(b) == WF(b) {}
  lemma init(bm: seq<bool>, i: int)
    requires |bm| == NumBlocks() && 0 <= i < NumBlocks()
    ensures WF(InitBlockAllocator(bm))
    ensures B(InitBlockAllocator(bm).ephemeral, i) == bm[i] && B(InitBlockAllocator(bm).persistent, i) == bm[i]
    ensures Used(InitBlockAllocator(bm), i) == bm[i]
  {}
  lemma alloc_is_unused(b: BlockAllocatorModel)
    requires WF(b)
    ensures Alloc(b).Some? ==> 0 <= Alloc(b).value < NumBlocks() && !Used(b, Alloc(b).value)
    ensures Alloc(b).None? ==> forall i | 0 <= i < NumBlocks() :: Used(b, i)
  {}
  lemma used_ephemeral(b: BlockAllocatorModel, i: int, j: int)
    requires WF(b) && 0 <= i < NumBlocks() && 0 <= j < NumBlocks()
    ensures var c := MarkUsedEphemeral(b, i); WF(c) && B(c.ephemeral, j) == (i == j || B(b.ephemeral, j))
      && c.frozen == b.frozen && c.persistent == b.persistent && c.outstanding == b.outstanding
  {}
  lemma used_frozen(b: BlockAllocatorModel, i: int, j: int)
    requires WF(b) && b.frozen.Some? && 0 <= i < NumBlocks() && 0 <= j < NumBlocks()
    ensures var c := MarkUsedFrozen(b, i); WF(c) && c.frozen.Some? && B(c.frozen.value, j) == (i == j || B(b.frozen.value, j))
      && c.ephemeral == b.ephemeral && c.persistent == b.persistent && c.outstanding == b.outstanding
  {}
  lemma used_outstanding(b: BlockAllocatorModel, i: int, j: int)
    requires WF(b) && 0 <= i < NumBlocks() && 0 <= j < NumBlocks()
    ensures var c := MarkUsedOutstanding(b, i); WF(c) && B(c.outstanding, j) == (i == j || B(b.outstanding, j))
      && c.ephemeral == b.ephemeral && c.persistent == b.persistent && c.frozen == b.frozen
  {}
  lemma free_outstanding(b: BlockAllocatorModel, i: int, j: int)
    requires WF(b) && 0 <= i < NumBlocks() && 0 <= j < NumBlocks()
    ensures var c := MarkFreeOutstanding(b, i); WF(c) && B(c.outstanding, j) == (i != j && B(b.outstanding, j))
      && c.ephemeral == b.ephemeral && c.persistent == b.persistent && c.frozen == b.frozen
  {}
  lemma free_ephemeral(b: BlockAllocatorModel, i: int, j: int)
    requires WF(b) && 0 <= i < NumBlocks() && 0 <= j < NumBlocks()
    ensures var c := MarkFreeEphemeral(b, i); WF(c) && B(c.ephemeral, j) == (i != j && B(b.ephemeral, j))
      && c.outstanding == b.outstanding && c.persistent == b.persistent && c.frozen == b.frozen
  {}
  lemma frozen_to_persistent(b: BlockAllocatorModel)
    requires WF(b) && b.frozen.Some?
    ensures var c := MoveFrozenToPersistent(b); WF(c) && c.persistent == b.frozen.value && c.frozen.None?
      && c.ephemeral == b.ephemeral && c.outstanding == b.outstanding
  {}
  lemma copy_to_frozen(b: BlockAllocatorModel)
    requires WF(b)
    ensures var c := CopyEphemeralToFrozen(b); c.frozen == Some(b.ephemeral) && c.ephemeral == b.ephemeral
      && c.outstanding == b.outstanding && c.persistent == b.persistent && (b.frozen.None? ==> WF(c))
  {}
  // a block in use by a view stays in use across allocation of another block, and a freed outstanding block is reusable only when no view has it
  lemma reuse(b: BlockAllocatorModel, i: int)
    requires WF(b) && 0 <= i < NumBlocks()
    requires B(b.persistent, i) || (b.frozen.Some? && B(b.frozen.value, i))
    ensures var c := MarkFreeEphemeral(MarkFreeOutstanding(b, i), i); Alloc(c) != Some(i)
  {}
}
