include "REPO/Filesys/FSTypes.s.dfy"
module H_Path {
  import opened PathSpec
  import opened FSTypes
  import SeqComparison
  import opened NativeTypes
  lemma beneath(d: Path, p: Path) ensures BeneathDir(d, p) <==> |d| < |p| && forall i | 0 <= i < |d| :: p[i] == d[i] {}
  lemma beneath_order(a: Path, b: Path, c: Path) requires BeneathDir(a, b) && BeneathDir(b, c) ensures BeneathDir(a, c) ensures !BeneathDir(b, a) ensures !BeneathDir(a, a) {}
  lemma entry(d: Path, p: Path) ensures IsDirEntry(d, p) <==> |p| == |d| + 1 && p[..|d|] == d ensures IsDirEntry(d, p) ==> GetParentDir(p) == d {}
  lemma parent(p: Path) ensures p == RootDir ==> GetParentDir(p) == RootDir ensures p != RootDir ==> GetParentDir(p) == p[..|p| - 1] && IsDirEntry(GetParentDir(p), p) {}
  lemma root(p: Path) ensures RootDir == [] && RootID == ID(0) ensures p in InitPathMap() ensures InitPathMap()[p] == (if p == [] then ID(0) else Nonexistent)
    ensures p != RootDir <==> BeneathDir(RootDir, p) {}
  lemma complete(m: PathMap, p: Path) ensures PathMapComplete(m) ==> p in m ensures (forall q: Path :: q in m) ==> PathMapComplete(m) {}
  lemma emptydir(m: PathMap, d: Path) requires PathMapComplete(m) ensures IsEmptyDir(m, d) <==> forall p | BeneathDir(d, p) :: m[p] == Nonexistent {}
  lemma initempty() ensures IsEmptyDir(InitPathMap(), RootDir) {}
  lemma order(a: Path, b: Path) requires |a| > 0 && |a| == |b| && GetParentDir(a) == GetParentDir(b)
    ensures DirEntryLte(a, b) <==> SeqComparison.lte(a[|a| - 1], b[|b| - 1]) ensures DirEntryLte(a, b) || DirEntryLte(b, a) ensures DirEntryLte(a, b) && DirEntryLte(b, a) ==> a == b {}
  lemma meta(m: MetaData, p: Path) ensures ValidNewMetaData(m, p) <==> m.MetaData? && m.atime == m.mtime && m.mtime == m.ctime
    ensures InitRootMetaData().ftype == Directory && InitRootMetaData().perm == 755 && ValidNewMetaData(InitRootMetaData(), RootDir) ensures EmptyData() == [] {}
}
