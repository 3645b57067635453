include "REPO/lib/Base/Maps.i.dfy"
include "REPO/lib/Base/Sets.i.dfy"
include "REPO/lib/Base/map.i.dfy"
include "REPO/lib/Base/SetBijectivity.i.dfy"
include "REPO/lib/Marshalling/Maps.i.dfy"
include "REPO/Splinter/SequenceSets.i.dfy"
module H_Maps {
  import opened Maps
  import opened Options
  import R = MapRemove_s
  lemma remove<K,V>(m: map<K,V>, ks: set<K>, k: K)
    ensures k in MapRemove(m, ks) <==> k in m && k !in ks
    ensures k in MapRemove(m, ks) ==> MapRemove(m, ks)[k] == m[k]
    ensures MapRemoveStrong(m, ks) == MapRemove(m, ks) {}
  lemma remove1<K,V>(m: map<K,V>, j: K, k: K)
    ensures k in MapRemove1(m, j) <==> k in m && k != j
    ensures k in MapRemove1(m, j) ==> MapRemove1(m, j)[k] == m[k]
    ensures MapRemove1Strong(m, j) == MapRemove1(m, j) == R.MapRemove1(m, j) {}
  lemma iremove<K,V>(m: imap<K,V>, ks: iset<K>, j: K, k: K)
    ensures k in IMapRemove(m, ks) <==> k in m && k !in ks
    ensures k in IMapRemove(m, ks) ==> IMapRemove(m, ks)[k] == m[k]
    ensures k in IMapRemove1(m, j) <==> k in m && k != j
    ensures k in IMapRemove1(m, j) ==> IMapRemove1(m, j)[k] == m[k] {}
  lemma restrict<K,V>(m: map<K,V>, ks: set<K>, k: K)
    ensures k in MapRestrict(m, ks) <==> k in m && k in ks
    ensures k in MapRestrict(m, ks) ==> MapRestrict(m, ks)[k] == m[k] {}
  lemma irestrict<K,V>(m: imap<K,V>, n: map<K,V>, ks: iset<K>, k: K)
    ensures k in IMapRestrict(m, ks) <==> k in m && k in ks
    ensures k in IMapRestrict(m, ks) ==> IMapRestrict(m, ks)[k] == m[k]
    ensures k in MapIRestrict(n, ks) <==> k in n && k in ks
    ensures k in MapIRestrict(n, ks) ==> MapIRestrict(n, ks)[k] == n[k] {}
  lemma union<K,V>(a: map<K,V>, b: map<K,V>, k: K)
    ensures k in MapUnionPreferA(a, b) <==> k in a || k in b
    ensures k in MapUnionPreferB(a, b) <==> k in a || k in b
    ensures k in MapUnion(a, b) <==> k in a || k in b
    ensures k in a ==> MapUnionPreferA(a, b)[k] == a[k]
    ensures k in b && k !in a ==> MapUnionPreferA(a, b)[k] == b[k]
    ensures k in b ==> MapUnionPreferB(a, b)[k] == b[k]
    ensures k in a && k !in b ==> MapUnionPreferB(a, b)[k] == a[k]
    ensures k in a && k !in b ==> MapUnion(a, b)[k] == a[k]
    ensures k in b && k !in a ==> MapUnion(a, b)[k] == b[k]
    ensures k in b && k in a ==> MapUnion(a, b)[k] == b[k] || MapUnion(a, b)[k] == a[k] {}
  lemma disjoint_union<K,V>(a: map<K,V>, b: map<K,V>, c: map<K,V>, k: K)
    requires a.Keys !! b.Keys && a.Keys !! c.Keys && b.Keys !! c.Keys
    ensures k in MapDisjointUnion(a, b) <==> k in a || k in b
    ensures k in a ==> MapDisjointUnion(a, b)[k] == a[k]
    ensures k in b ==> MapDisjointUnion(a, b)[k] == b[k]
    ensures k in MapDisjointUnion3(a, b, c) <==> k in a || k in b || k in c
    ensures k in a ==> MapDisjointUnion3(a, b, c)[k] == a[k]
    ensures k in b ==> MapDisjointUnion3(a, b, c)[k] == b[k]
    ensures k in c ==> MapDisjointUnion3(a, b, c)[k] == c[k]
    ensures |MapDisjointUnion(a, b)| == |a| + |b| {}
  lemma iunion<K,V>(a: imap<K,V>, b: imap<K,V>, k: K)
    ensures k in IMapUnionPreferA(a, b) <==> k in a || k in b
    ensures k in IMapUnionPreferB(a, b) <==> k in a || k in b
    ensures k in IMapUnion(a, b) <==> k in a || k in b
    ensures k in a ==> IMapUnionPreferA(a, b)[k] == a[k]
    ensures k in b && k !in a ==> IMapUnionPreferA(a, b)[k] == b[k]
    ensures k in b ==> IMapUnionPreferB(a, b)[k] == b[k]
    ensures k in a && k !in b ==> IMapUnionPreferB(a, b)[k] == a[k]
    ensures k in a && k !in b ==> IMapUnion(a, b)[k] == a[k]
    ensures k in b && k !in a ==> IMapUnion(a, b)[k] == b[k] {}
  lemma lookup<K,V>(m: map<K,V>, n: imap<K,V>, k: K)
    ensures MapLookupOption(m, k) == (if k in m then Some(m[k]) else None)
    ensures ImapLookupOption(n, k) == (if k in n then Some(n[k]) else None)
    ensures k in MapToImap(m) <==> k in m
    ensures k in m ==> MapToImap(m)[k] == m[k] {}
  lemma preds<K,V>(a: map<K,V>, b: map<K,V>, k: K, v: V)
    ensures MapsTo(a, k, v) <==> k in a && a[k] == v
    ensures MapsAgreeOnKey(a, b, k) <==> ((k in a) == (k in b) && (k in a && k in b ==> a[k] == b[k]))
    ensures IsSubMap(a, b) <==> forall j | j in a :: j in b && a[j] == b[j]
    ensures MapsAgree(a, b) <==> forall j | j in a && j in b :: a[j] == b[j] {}
  lemma ipreds<K,V>(a: imap<K,V>, b: imap<K,V>, k: K, v: V)
    ensures IMapsTo(a, k, v) <==> k in a && a[k] == v
    ensures IMapsAgreeOnKey(a, b, k) <==> ((k in a) == (k in b) && (k in a && k in b ==> a[k] == b[k]))
    ensures IsSubIMap(a, b) <==> forall j | j in a :: j in b && a[j] == b[j]
    ensures IMapInjective(a) <==> forall i, j | i in a && j in a && a[i] == a[j] :: i == j {}
  lemma invert<K,V>(m: imap<K,V>, k: K, v: V)
    ensures k in m ==> m[k] in IMapInvert(m)
    ensures v in IMapInvert(m) ==> IMapInvert(m)[v] in m && m[IMapInvert(m)[v]] == v {}
  lemma options<A>(o: Option<int>)
    ensures MapOption(o, x => x + 1) == (match o { case None => None case Some(v) => Some(v + 1) })
    ensures FlatMapOption(o, x => if x == 0 then None else Some(x)) == (match o { case None => None case Some(v) => if v == 0 then None else Some(v) }) {}
}
module H_Sets {
  import opened Sets
  import opened SequenceSetsMod
  import M = Collections__Maps_i
  lemma range(n: int, i: int) ensures i in SetRange(n) <==> 0 <= i < n {}
  lemma smax(a: set<int>, e: int) requires |a| > 0 ensures SetMax(a) in a ensures e in a ==> e <= SetMax(a) {}
  lemma unions<T>(s: seq<set<T>>, e: T) ensures e in UnionSeqOfSets(s) <==> exists i :: 0 <= i < |s| && e in s[i] {}
  lemma {:cfg "tv=2"} unions2<T>(s: set<set<T>>, e: T) ensures e in UnionSetOfSets(s) <==> exists x :: x in s && e in x {}
  lemma subseq<T>(a: seq<T>, b: seq<T>) ensures SequenceSubset(a, b) <==> forall e | e in a :: e in b
    ensures forall e :: e in Members(a) <==> e in a {}
  lemma arb<T>(a: set<T>, e: T) ensures |ArbitrarySequentialization(a)| == |a|
    ensures e in ArbitrarySequentialization(a) <==> e in a {}
  lemma mlib<K,V>(m: map<K,V>, n: map<K,V>, k: K)
    ensures M.eq_map(m, n) <==> m == n
    ensures k in M.domain(m) <==> k in m
    ensures m.Keys !! n.Keys ==> (k in M.union(m, n) <==> k in m || k in n) && (k in m ==> M.union(m, n)[k] == m[k]) && (k in n ==> M.union(m, n)[k] == n[k]) {}
  lemma mrem<K,V>(m: map<K,V>, j: K, k: K) requires j in m
    ensures k in M.RemoveElt(m, j) <==> k in m && k != j
    ensures k in M.RemoveElt(m, j) ==> M.RemoveElt(m, j)[k] == m[k] {}
}
module H_BuiltinMap {
  import B : BuiltinMap
  import I : Builtin_Map_Sequence_Iterator
  method ops(m: B.Map, k: B.Key, v: B.Value, j: B.Key) {
    var d := B.Defines(m, k); assert d <==> k in m;
    var q := B.Query(m, k);
    assert q == (if k in m then B.Defined(m[k]) else B.NotDefined);
    if k in m { var e := B.Evaluate(m, k); assert e == m[k]; }
    var n := B.Define(m, k, v);
    assert n == m[k := v];
    var u := B.Undefine(m, k);
    assert j in u <==> j in m && j != k;
    assert j in u ==> u[j] == m[j];
    var z := B.Is_Empty(m); assert z <==> m == map[];
    var e := B.Empty_Map(); assert e == map[];
    assert B.Interpretation(m) == m;
  }
}
