include "REPO/concurrency/bank/bank.dfy"
include "REPO/concurrency/refcounter2/RationalUtil.i.dfy"
include "REPO/concurrency/scache/Atomic.s.dfy"
include "REPO/concurrency/scache/Constants.i.dfy"
include "REPO/concurrency/hack-concurrency-framework/StateMachines.s.dfy"
include "REPO/examples/concurrency-strategies/commutativity-strategy.dfy"
module H_Bank {
  import opened Bank
  function Sum(a: seq<int>): int { if |a| == 0 then 0 else Sum(a[..|a| - 1]) + a[|a| - 1] }
  lemma {:cfg "seq=4, int=(-10**9,10**9), qint=(-1,5)"} conserve(s: variables, t: variables, step: Step) requires NextStep(s, t, step)
    ensures |t.accounts| == |s.accounts| && Sum(t.accounts) == Sum(s.accounts)
    ensures step.from_account != step.to_account && 0 <= step.from_account < |s.accounts| && 0 <= step.to_account < |s.accounts|
    ensures t.accounts[step.from_account] == s.accounts[step.from_account] - step.amt && t.accounts[step.to_account] == s.accounts[step.to_account] + step.amt
    ensures forall i | 0 <= i < |s.accounts| && i != step.from_account && i != step.to_account :: t.accounts[i] == s.accounts[i] {}
  lemma zero(s: variables) requires Init(s) ensures Sum(s.accounts) == 0 && forall i | 0 <= i < |s.accounts| :: s.accounts[i] == 0 {}
}
module H_Rational {
  import opened Rationals
  lemma {:cfg "nat=(0,9)"} divides(a: nat, b: nat) requires a > 0 && b > 0
    ensures gcd(a, b) > 0 && a % gcd(a, b) == 0 && b % gcd(a, b) == 0
    ensures forall d: nat | 0 < d <= 9 && a % d == 0 && b % d == 0 :: gcd(a, b) % d == 0
    ensures gcd(a, 0) == a && gcd(0, b) == b {}
  lemma {:cfg "nat=(0,4), int=(1,4)"} sum(a: PositiveRational, b: PositiveRational)
    requires a.num <= 4 && a.denom <= 4 && b.num <= 3 && b.denom <= 3
    ensures add(a, b).num * (a.denom * b.denom) == add(a, b).denom * (a.num * b.denom + b.num * a.denom)
    ensures gcd(add(a, b).num, add(a, b).denom) == 1 {}
  lemma unit() ensures one() == PositiveRational(1, 1) {}
}
module H_Atomic {
  import opened AtomicSpec
  import opened NativeTypes
  function Bit(a: int, i: int): int { (a / (if i == 0 then 1 else if i == 1 then 2 else if i == 2 then 4 else if i == 3 then 8 else if i == 4 then 16 else if i == 5 then 32 else if i == 6 then 64 else 128)) % 2 }
  lemma {:cfg "native=None, byte=(0,255), int=(0,7)"} bits(a: uint8, b: uint8, i: int) requires 0 <= i < 8
    ensures Bit(bit_or(a, b) as int, i) == (if Bit(a as int, i) == 1 || Bit(b as int, i) == 1 then 1 else 0)
    ensures Bit(bit_and(a, b) as int, i) == (if Bit(a as int, i) == 1 && Bit(b as int, i) == 1 then 1 else 0)
    ensures Bit(bit_xor(a, b) as int, i) == (if Bit(a as int, i) != Bit(b as int, i) then 1 else 0) {}
  lemma sizes() ensures Constants.CACHE_SIZE == Constants.CHUNK_SIZE * Constants.NUM_CHUNKS && Constants.CLEAN_AHEAD < Constants.NUM_CHUNKS
    && 0 < Constants.NUM_THREADS && 0 < Constants.NUM_IO_SLOTS && Constants.CACHE_SIZE < Constants.NUM_DISK_PAGES {}
}
module H_Donate {
  import opened Abstract
  import opened Options
  import C = Concrete
  import O = ConcreteOrdered
  lemma {:cfg "seq=4"} least(v: View, x: nat) ensures LeastIndexOf(v, x).None? <==> x !in v
    ensures LeastIndexOf(v, x).Some? ==> var i := LeastIndexOf(v, x).value; i < |v| && v[i] == x && x !in v[..i] {}
  lemma {:cfg "seq=4"} donate(v: View, x: nat) ensures var (w, o) := Donate(v, x); |w| == |v| && o == LeastIndexOf(v, x)
      && forall i | 0 <= i < |v| :: w[i] == (if o == Some(i) then x + 1 else v[i]) {}
  lemma next(s: State, t: State, ui: UI) requires Next(s, t, ui)
    ensures ui.None? ==> t == s
    ensures ui.Some? ==> (t.board, ui.value.outidx) == Donate(s.board, ui.value.victim) {}
  lemma {:cfg "seq=3, nat=(0,3), int=(0,3), opq=2"} step(s: C.State, t: C.State, tid: int, ui: UI) requires C.Inv(s) && C.Next(s, t, tid, ui)
    ensures forall a, b | a in t.threads && b in t.threads && a != b :: t.threads[a].lockHeld != t.threads[b].lockHeld
    ensures forall j | j != tid :: (j in s.threads <==> j in t.threads) && (j in s.threads ==> t.threads[j] == s.threads[j])
    ensures |t.board| == |s.board|
    ensures ui.None? ==> t.board == s.board
    ensures ui.Some? ==> tid in s.threads && tid !in t.threads && ui.value.victim == s.threads[tid].victim
    ensures ui.Some? && ui.value.outidx.Some? ==> var i := ui.value.outidx.value; i == s.threads[tid].lockHeld && i < |s.board| && s.board[i].stones == ui.value.victim && t.board == s.board[i := C.Well(ui.value.victim + 1)]
    ensures ui.Some? && ui.value.outidx.None? ==> t.board == s.board && s.threads[tid].lockHeld + 1 == |s.board|
    ensures tid in s.threads && tid in t.threads ==> t.threads[tid].lockHeld == s.threads[tid].lockHeld + 1 && t.threads[tid].victim == s.threads[tid].victim && s.board[s.threads[tid].lockHeld].stones != s.threads[tid].victim
    ensures tid !in s.threads && tid in t.threads ==> t.threads[tid].lockHeld == 0 {}
  lemma {:cfg "seq=3"} view(b: C.Board) ensures |C.View(b, 0)| == |b| && forall i | 0 <= i < |b| :: C.View(b, 0)[i] == b[i].stones {}
  // the order in which two adjacent steps may be exchanged: every lock the first holds or takes is before every lock of the second
  lemma {:cfg "int=(0,3)"} exchange(a: O.LockTrans, b: O.LockTrans)
    ensures O.lt_less(a, b) <==> forall x: O.Lock, y: O.Lock | (x == a.from || x == a.to) && (y == b.from || y == b.to) && x.HasLock? && y.HasLock? :: x.lock < y.lock {}
  lemma {:cfg "seq=2, nat=(0,2), int=(0,2), opq=2"} labels(s: C.State, t: C.State, tid: int, ui: UI, lt: O.LockTrans)
    ensures O.Next(s, t, tid, ui, lt) <==> C.Next(s, t, tid, ui)
      && lt.from == (if tid in s.threads then O.HasLock(s.threads[tid].lockHeld) else O.NotStarted)
      && lt.to == (if tid in t.threads then O.HasLock(t.threads[tid].lockHeld) else O.Done) {}
  lemma {:cfg "seq=2, nat=(0,2), int=(0,2), opq=2"} start_allowed(s: C.State, tid: int, v: nat)
    requires tid !in s.threads && forall j | j in s.threads :: s.threads[j].lockHeld != 0
    ensures C.Start(s, C.State(s.board, s.threads[tid := C.Thread(0, v)]), v, tid, None) {}
  lemma {:cfg "seq=2, nat=(0,2), int=(0,2), opq=2"} start_only(s: C.State, t: C.State, tid: int, v: nat, ui: UI) requires C.Start(s, t, v, tid, ui)
    ensures ui.None? && t.board == s.board && tid !in s.threads && t.threads == s.threads[tid := C.Thread(0, v)] && forall j | j in s.threads :: s.threads[j].lockHeld != 0 {}
  lemma {:cfg "seq=3, nat=(0,2), int=(0,2), opq=2"} take_only(s: C.State, t: C.State, tid: int, ui: UI) requires C.Advance(s, t, tid, ui) && tid in t.threads
    ensures ui.None? && t.board == s.board && forall j | j in s.threads :: s.threads[j].lockHeld != t.threads[tid].lockHeld {}
}
module H_Order {
  import opened Options
  import A = Abstract
  import C = Concrete
  import opened TheoremProof
  // donations are ordered by when they started; a running one that started later is still behind
  predicate Ordered(s: SState) {
    (forall j | j in s.state.threads :: j in s.thread_map && s.thread_map[j] <= s.largest_so_far)
    && (forall a, b | a in s.state.threads && b in s.state.threads && s.thread_map[a] > s.thread_map[b] :: s.state.threads[a].lockHeld < s.state.threads[b].lockHeld)
    && (forall a, b | a in s.state.threads && b in s.state.threads && a != b :: s.thread_map[a] != s.thread_map[b])
    && (forall j | j in s.thread_map :: j in s.state.threads)
  }
  lemma {:cfg "seq=2, nat=(0,2), int=(0,2), opq=2"} tickets(s: SState, t: SState, tid: int, ui: A.UI, order: int)
    requires C.Inv(s.state) && Ordered(s) && C.Next(s.state, t.state, tid, ui) && ThreadMapUpdate(s, t, tid, order)
    ensures Ordered(t) && t.largest_so_far >= s.largest_so_far && order <= t.largest_so_far
    ensures tid in s.state.threads ==> order == s.thread_map[tid]
    ensures tid !in s.state.threads ==> order == t.largest_so_far && order > s.largest_so_far
    ensures forall j | j != tid :: (j in s.thread_map <==> j in t.thread_map) && (j in s.thread_map ==> t.thread_map[j] == s.thread_map[j]) {}
}
