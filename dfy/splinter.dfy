include "REPO/Splinter/CacheLemmas.i.dfy"
include "REPO/Splinter/IndirectionTable.i.dfy"
include "REPO/Splinter/ReprsAsSets.i.dfy"
module H_Disk {
  import opened DiskTypesMod
  import opened AllocationMod
  import opened CacheIfc
  import opened Options
  lemma valid(cu: CU) ensures ValidCU(cu) <==> cu.au < DiskSizeInAU() && cu.offset < AUSizeInCUs()
    ensures cu in CUsInDisk() <==> ValidCU(cu) {}
  lemma equal_at(a: DiskView, b: DiskView, cu: CU) ensures EqualAt(a, b, cu) <==> ReadValue(Variables(a), cu) == ReadValue(Variables(b), cu) {}
  lemma equiv(a: DiskView, b: DiskView, cus: seq<CU>, s: set<CU>)
    ensures DiskViewsEquivalent(a, b, s) <==> forall cu | cu in s :: ReadValue(Variables(a), cu) == ReadValue(Variables(b), cu)
    ensures DiskViewsEquivalentForSeq(a, b, cus) <==> forall i | 0 <= i < |cus| :: ReadValue(Variables(a), cus[i]) == ReadValue(Variables(b), cus[i]) {}
  lemma full(d: DiskView, cu: CU) ensures FullView(d) ==> (cu in d <==> ValidCU(cu)) ensures Empty(d) <==> d == map[]
    ensures (forall c: CU :: c in d <==> ValidCU(c)) ==> FullView(d) {}
  lemma reads(v: Variables, cu: CU, p: UninterpretedDiskPage)
    ensures ReadValue(v, cu) == (if cu in v.dv then Some(v.dv[cu]) else None)
    ensures Read(v, cu, p) <==> cu in v.dv && v.dv[cu] == p {}
  lemma writes(v: Variables, a: Op, b: Op, cu: CU) requires FullView(v.dv) && WFOpSeq([a, b]) && ValidCU(cu) && a.cu != b.cu
    ensures ApplyWrites(v, [a, b]).dv[cu] == (if cu == a.cu then a.value else if cu == b.cu then b.value else v.dv[cu])
    ensures ApplyWrites(v, []) == v
    ensures ApplyWrites(v, [a]).dv == v.dv[a.cu := a.value] {}
  lemma mkfs(v: Variables, d: DiskView) ensures Mkfs(v, d) <==> FullView(d) && v.dv == d ensures Init(v) <==> v.dv == map[] {}
  lemma ops(o: seq<Op>) ensures WFOpSeq(o) <==> forall i | 0 <= i < |o| :: ValidCU(o[i].cu) {}
}
module H_Snap {
  import opened IndirectionTableMod
  lemma empty() ensures IndirectionTableMod.Empty() == map[] ensures EmptySuperblock().snapshot.firstCU.None? {}
}
module H_Repr {
  import opened Example
  import opened Options
  lemma {:cfg "seq=2, int=(0,2), qint=(-1,3), recdepth=130"} frame(s: Variables, d: DiskView)
    requires Inv(s) && (forall k | k in s.repr :: (k in s.disk) == (k in d) && (k in s.disk ==> d[k] == s.disk[k]))
    ensures Inv(Variables(s.repr, d)) {}
  lemma {:cfg "seq=2, int=(0,2), qint=(-1,3), recdepth=130"} set19(s: Variables) requires Inv(s)
    ensures var d := s.disk[0 := AllocationTable({0, 1})][1 := Link(19, None)];
      set_to_19(s, Variables({0, 1}, d)) && Inv(Variables({0, 1}, d)) && StampedMap(view_of_repr({0, 1}, d)).list == [19] {}
  lemma {:cfg "seq=2, int=(0,3), qint=(-1,4)"} restricted(r: set<int>, d: DiskView, i: int)
    ensures i in view_of_repr(r, d) <==> i in d && i in r ensures i in view_of_repr(r, d) ==> view_of_repr(r, d)[i] == d[i] {}
}
