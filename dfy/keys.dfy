include "REPO/lib/Base/KeyType.s.dfy"
include "REPO/lib/Lang/System/SeqComparison.s.dfy"
include "REPO/lib/Buckets/TranslationApply.s.dfy"
include "REPO/lib/Base/SequencesLite.s.dfy"
include "REPO/lib/Marshalling/Seqs.i.dfy"
module H_Order {
  import opened SeqComparison
  import opened NativeTypes
  // byte-wise lexicographic order, as a prefix plus the first difference
  predicate Lex(a: seq<byte>, b: seq<byte>) {
    (|a| <= |b| && forall i | 0 <= i < |a| :: a[i] == b[i])
    || (exists j | 0 <= j < |a| :: j < |b| && a[j] < b[j] && forall i | 0 <= i < j :: a[i] == b[i])
  }
  lemma {:cfg "native=None, seq=3"} lex(a: seq<byte>, b: seq<byte>) ensures lte(a, b) <==> Lex(a, b) {}
  lemma {:cfg "native=None, seq=3"} strict(a: seq<byte>, b: seq<byte>) ensures lt(a, b) <==> (lte(a, b) && !lte(b, a)) {}
  lemma {:cfg "native=None, seq=3"} total(a: seq<byte>, b: seq<byte>) ensures lte(a, b) || lte(b, a) ensures lte(a, b) && lte(b, a) ==> a == b {}
  lemma {:cfg "native=None, seq=2"} transitive(a: seq<byte>, b: seq<byte>, c: seq<byte>)
    requires lte(a, b) && lte(b, c) ensures lte(a, c) ensures lt(a, b) || lt(b, c) ==> lt(a, c) {}
  lemma {:cfg "native=None, seq=3"} least(a: seq<byte>) ensures lte([], a) ensures !lt(a, a) {}
}
module H_Translate {
  import opened NativeTypes
  import opened KeyType
  import opened TranslationApply
  lemma {:cfg "native=None, byte=(0,255), seq=3"} swap(o: Key, n: Key, k: Key)
    requires |o| <= |k| && k[..|o|] == o
    ensures |changePrefix(o, n, k)| == |k| - |o| + |n|
    ensures forall i | 0 <= i < |n| :: changePrefix(o, n, k)[i] == n[i]
    ensures forall i | |o| <= i < |k| :: changePrefix(o, n, k)[i - |o| + |n|] == k[i] {}
  lemma {:cfg "native=None, seq=3"} back(o: Key, n: Key, k: Key)
    requires |o| <= |k| && k[..|o|] == o
    ensures changePrefix(n, o, changePrefix(o, n, k)) == k {}
  lemma {:cfg "native=None, seq=2"} injective(o: Key, n: Key, k: Key, l: Key)
    requires |o| <= |k| && k[..|o|] == o && |o| <= |l| && l[..|o|] == o && changePrefix(o, n, k) == changePrefix(o, n, l)
    ensures k == l {}
  lemma limits() ensures KeyType.MaxLen() == 1024 ensures ValueType.MaxLen() == 1024 ensures ValueType.DefaultValue() == [] {}
  lemma bytestrings(s: seq<seq<byte>>) ensures ValueType.ValidMessageBytestrings(s) {}
  lemma vlen(v: ValueType.Value) ensures ValueType.Len(v) == |v| {}
}
module H_SeqLib {
  import opened SequencesLite
  import S = Collections__Seqs_i
  lemma last<E>(s: seq<E>) requires |s| > 0
    ensures Last(s) == s[|s| - 1] && S.last(s) == s[|s| - 1]
    ensures DropLast(s) + [Last(s)] == s && S.all_but_last(s) + [S.last(s)] == s {}
  lemma find<E>(s: seq<E>, v: E) ensures S.FindIndexInSeq(s, v) == -1 <==> v !in s
    ensures v in s ==> 0 <= S.FindIndexInSeq(s, v) < |s| && s[S.FindIndexInSeq(s, v)] == v {}
  lemma cat<E>(a: seq<E>, b: seq<E>, c: seq<E>) ensures S.SeqCat([a, b, c]) == a + b + c ensures S.SeqCatRev([a, b, c]) == a + b + c {}
  lemma cat0<E>(a: seq<E>) ensures S.SeqCat<E>([]) == [] && S.SeqCatRev<E>([]) == [] && S.SeqCat([a]) == a && S.SeqCatRev([a]) == a {}
  lemma at<E>(s: seq<E>, v: E, i: int) ensures S.ItemAtPositionInSeq(s, v, i) <==> 0 <= i < |s| && s[i] == v {}
}
