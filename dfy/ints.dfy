include "REPO/lib/Base/PackedIntsLib.i.dfy"
include "REPO/lib/Marshalling/Util.i.dfy"
include "REPO/lib/Base/mathematics.i.dfy"
include "REPO/lib/Math/Math.i.dfy"
include "REPO/lib/Lang/System/Bits.s.dfy"
include "REPO/lib/Lang/System/Arithmetic.s.dfy"
module H_LE {
  import opened NativePackedInts
  import opened PackedIntsLib
  import opened NativeTypes
  function LE(s: seq<byte>): int { if |s| == 0 then 0 else s[0] as int + 256 * LE(s[1..]) }
  lemma unpack32(s: seq<byte>) requires |s| == 4 ensures unpack_LittleEndian_Uint32(s) as int == LE(s) {}
  lemma unpack64(s: seq<byte>) requires |s| == 8 ensures unpack_LittleEndian_Uint64(s) as int == LE(s) {}
  lemma pack32(i: uint32) ensures |pack_LittleEndian_Uint32(i)| == 4 && LE(pack_LittleEndian_Uint32(i)) == i as int
    ensures pack_LittleEndian_Uint32(i)[0] as int == i as int % 256 {}
  lemma pack_of_unpack(s: seq<byte>) requires |s| == 4 ensures pack_LittleEndian_Uint32(unpack_LittleEndian_Uint32(s)) == s {}
  lemma seq32(a: seq<byte>, b: seq<byte>) requires |a| == 4 && |b| == 4
    ensures unpack_LittleEndian_Uint32_Seq(a + b, 2) == [unpack_LittleEndian_Uint32(a), unpack_LittleEndian_Uint32(b)]
    ensures unpack_LittleEndian_Uint32_Seq([], 0) == [] {}
  lemma seq64(a: seq<byte>, b: seq<byte>) requires |a| == 8 && |b| == 8
    ensures unpack_LittleEndian_Uint64_Seq(a + b, 2) == [unpack_LittleEndian_Uint64(a), unpack_LittleEndian_Uint64(b)]
    ensures unpack_LittleEndian_Uint64_Seq([], 0) == [] {}
  lemma sizes() ensures Uint64Size() == 8 && Uint32Size() == 4 && Uint16Size() == 2 && Uint64UpperBound() == 0x1_0000_0000_0000_0000 && Uint32UpperBound() == 0x1_0000_0000 && Uint8UpperBound() == 256 {}
}
module H_BE {
  import opened Common__Util_i
  import opened NativeTypes
  function BE(s: seq<byte>): int { if |s| == 0 then 0 else BE(s[..|s| - 1]) * 256 + s[|s| - 1] as int }
  lemma decode(s: seq<byte>) requires |s| <= 4 ensures BEByteSeqToInt(s) == BE(s) {}
  lemma {:cfg "int=(0,2**32-1)"} encode(v: int) requires 0 <= v < 0x1_0000_0000
    ensures |BEUintToSeqByte(v, 4)| == 4 && BE(BEUintToSeqByte(v, 4)) == v {}
  lemma encode64(u: uint64) ensures |Uint64ToSeqByte(u)| == 8 && BE(Uint64ToSeqByte(u)) == u as int {}
  lemma decode16(s: seq<byte>) requires |s| == 2 ensures SeqByteToUint16(s) as int == BE(s) {}
  lemma round(u: uint64) ensures BEByteSeqToInt(Uint64ToSeqByte(u)) == u as int {}
}
module H_Arr {
  import opened Common__Util_i
  import opened NativeTypes
  method {:cfg "seq=4, native=(0,6)"} into_array(s: seq<int>, a: array<int>) requires |s| == a.Length modifies a {
    seqIntoArrayOpt(s, a);
    assert a[..] == s;
  }
  method {:cfg "seq=4, native=(0,6)"} into_chars(s: seq<char>, a: array<char>) requires |s| == a.Length modifies a {
    seqIntoArrayChar(s, a);
    assert a[..] == s;
  }
}
module H_Math {
  import opened Math
  import opened Mathematics
  lemma {:cfg "int=(-10**30,10**30)"} minmax(a: int, b: int) ensures min(a, b) <= a && min(a, b) <= b && (min(a, b) == a || min(a, b) == b)
    ensures max(a, b) >= a && max(a, b) >= b && (max(a, b) == a || max(a, b) == b) {}
  lemma pow(e: nat) ensures power2(0) == 1 ensures power2(e + 1) == 2 * power2(e) {}
  lemma msets<T>(m: multiset<T>, s: set<T>, e: T) ensures e in Mathematics.Set(m) <==> e in m ensures e in Mathematics.ISet(s) <==> e in s {}
}
module H_Bits {
  import opened Bits_s
  import A = NativeArithmetic
  import opened NativeTypes
  lemma {:cfg "nat=(0,255)"} bits(n: nat, i: nat) requires n < 256 && i < 8 ensures |bits_of_int(n, 8)| == 8 ensures bits_of_int(n, 8)[i] == ((n / (if i == 0 then 1 else if i == 1 then 2 else if i == 2 then 4 else if i == 3 then 8 else if i == 4 then 16 else if i == 5 then 32 else if i == 6 then 64 else 128)) % 2 == 1) {}
  lemma fill(i: nat) requires i < 5 ensures |zeroes(5)| == 5 && !zeroes(5)[i] && |ones(5)| == 5 && ones(5)[i] {}
  lemma {:cfg "seq=128, recdepth=200"} widen(a: seq<bool>, i: nat) requires |a| == 128 && i < 32
    ensures |mm_cvtepu32_epi64(a)| == 128
    ensures mm_cvtepu32_epi64(a)[i] == a[i] && !mm_cvtepu32_epi64(a)[32 + i] && mm_cvtepu32_epi64(a)[64 + i] == a[32 + i] && !mm_cvtepu32_epi64(a)[96 + i] {}
}
