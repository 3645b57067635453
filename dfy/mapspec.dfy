include "REPO/MapSpec/AsyncMap.i.dfy"
module H_Map {
  import opened MapSpec
  import opened KeyType
  import opened ValueType
  import UI
  import SeqComparison
  predicate Full(s: Variables) { forall k: Key :: k in s.view }
  // plain dictionary order on at most two bytes
  predicate Less(a: Key, b: Key) {
    if |b| == 0 then false else if |a| == 0 then true else
    if a[0] != b[0] then a[0] < b[0] else
    if |b| == 1 then false else if |a| == 1 then true else a[1] < b[1]
  }
  lemma key_order(a: Key, b: Key)
    ensures SeqComparison.lt(a, b) == Less(a, b)
    ensures SeqComparison.lte(a, b) == (a == b || Less(a, b)) {}
  lemma init(s: Variables, k: Key) ensures Init(s) ==> Full(s) && s.view[k] == [] {}
  lemma init_all(s: Variables) requires Full(s) && forall k: Key :: s.view[k] == [] ensures Init(s) {}
  lemma query(s: Variables, t: Variables, op: UI.Op, k: Key, v: Value) requires Full(s)
    ensures Query(s, t, op, k, v) <==> (op == UI.GetOp(k, v) && v == s.view[k] && t == s) {}
  lemma write(s: Variables, t: Variables, op: UI.Op, k: Key, v: Value) requires Full(s) && Full(t)
    ensures Write(s, t, op, k, v) <==> (op == UI.PutOp(k, v) && forall j: Key :: t.view[j] == (if j == k then v else s.view[j])) {}
  lemma stutter(s: Variables, t: Variables, op: UI.Op) ensures Stutter(s, t, op) <==> op.NoOp? && s == t {}
  predicate Below(st: UI.RangeStart, k: Key) { match st { case SInclusive(a) => a == k || Less(a, k) case SExclusive(a) => Less(a, k) case NegativeInf => true } }
  predicate Above(k: Key, e: UI.RangeEnd) { match e { case EInclusive(a) => a == k || Less(k, a) case EExclusive(a) => Less(k, a) case PositiveInf => true } }
  lemma in_range(st: UI.RangeStart, k: Key, e: UI.RangeEnd) ensures InRange(st, k, e) == (Below(st, k) && Above(k, e)) {}
  lemma {:cfg "seq=2"} succ(s: Variables, t: Variables, op: UI.Op, st: UI.RangeStart, r: seq<UI.SuccResult>, e: UI.RangeEnd) requires Full(s)
    requires Succ(s, t, op, st, r, e)
    ensures t == s && op == UI.SuccOp(st, r, e)
    ensures forall i | 0 <= i < |r| :: Below(st, r[i].key) && Above(r[i].key, e) && r[i].value == s.view[r[i].key] && r[i].value != []
    ensures forall i | 0 < i < |r| :: Less(r[i-1].key, r[i].key)
    ensures forall k: Key :: Below(st, k) && Above(k, e) && s.view[k] != [] ==> exists i :: 0 <= i < |r| && r[i].key == k {}
  lemma {:cfg "seq=2"} succ_allowed(s: Variables, st: UI.RangeStart, r: seq<UI.SuccResult>, e: UI.RangeEnd) requires Full(s)
    requires NonEmptyRange(st, e)
    requires forall i | 0 <= i < |r| :: Below(st, r[i].key) && Above(r[i].key, e) && r[i].value == s.view[r[i].key] && r[i].value != []
    requires forall i, j | 0 <= i < j < |r| :: Less(r[i].key, r[j].key)
    requires forall k: Key :: Below(st, k) && Above(k, e) && s.view[k] != [] ==> exists i :: 0 <= i < |r| && r[i].key == k
    ensures Succ(s, s, UI.SuccOp(st, r, e), st, r, e) {}
  lemma nonempty(st: UI.RangeStart, e: UI.RangeEnd)
    ensures NonEmptyRange(st, e) <==> (st.NegativeInf? || e.PositiveInf? || (st.SInclusive? && e.EInclusive? && !Less(e.key, st.key)) || Less(st.key, e.key)) {}
  lemma prefix(k: Key, p: Key) ensures KeyHasPrefix(k, p) == (|p| <= |k| && forall i | 0 <= i < |p| :: k[i] == p[i]) {}
  lemma {:cfg "seq=2"} clone(s: Variables, t: Variables, op: UI.Op, m: imap<Key, Key>, k: Key)
    requires Full(s) && Full(t) && op.CloneOp? && |op.from| <= |op.to| && m == CloneMap(op.from, op.to) && Clone(s, t, op, m)
    ensures (|op.to| <= |k| && k[..|op.to|] == op.to) ==> t.view[k] == s.view[op.from + k[|op.to|..]]
    ensures !(|op.to| <= |k| && k[..|op.to|] == op.to) ==> t.view[k] == s.view[k] {}
  lemma clone_allowed(s: Variables, from: Key, to: Key)
    requires Full(s) && |from| <= |to|
    ensures Clone(s, Variables(imap k: Key :: if |to| <= |k| && k[..|to|] == to then s.view[from + k[|to|..]] else s.view[k]), UI.CloneOp(from, to), CloneMap(from, to)) {}
  lemma apply_clone(s: Variables, m: imap<Key, Key>, k: Key)
    ensures k in ApplyCloneView(s.view, m)
    ensures ApplyCloneView(s.view, m)[k] == (if k in m && m[k] in s.view then s.view[m[k]] else if k in s.view then s.view[k] else []) {}
  lemma steps(s: Variables, t: Variables, op: UI.Op, step: Step) requires Full(s)
    requires NextStep(s, t, op, step)
    ensures Full(t) && Inv(t)
    ensures (op.GetOp? || op.SuccOp? || op.NoOp?) ==> t == s
    ensures op.GetOp? ==> op.value == s.view[op.key]
    ensures op.PutOp? ==> forall j: Key :: t.view[j] == (if j == op.key then op.value else s.view[j])
    ensures op.GetOp? || op.SuccOp? || op.NoOp? || op.PutOp? || op.CloneOp? {}
}
module H_AsyncMap {
  import opened AsyncMapSpec
  import opened KeyType
  import opened ValueType
  import MapSpec
  import UI
  predicate Full(s: MapSpec.Variables) { forall k: Key :: k in s.view }
  lemma init(s: Variables, k: Key) requires Init(s) ensures s.queries == map[] && s.dict.view[k] == [] {}
  lemma begin(s: Variables, t: Variables, op: UI.Op, k: Key) requires Full(s.dict)
    ensures QueryBegin(s, t, op, k) <==> (op.GetBeginOp? && op.key == k && op.id !in s.queries && t.dict == s.dict && t.queries == s.queries[op.id := s.dict.view[k]]) {}
  lemma end(s: Variables, t: Variables, op: UI.Op, v: Value, i: int) requires Full(s.dict) && QueryEnd(s, t, op, v)
    ensures op.GetEndOp? && op.value == v && op.id in s.queries && s.queries[op.id] == v && t.dict == s.dict
    ensures op.id !in t.queries && (i != op.id ==> (i in t.queries <==> i in s.queries) && (i in s.queries ==> t.queries[i] == s.queries[i])) {}
  lemma end_allowed(s: Variables, id: int) requires id in s.queries
    ensures QueryEnd(s, Variables(s.dict, map i | i in s.queries && i != id :: s.queries[i]), UI.GetEndOp(s.queries[id], id), s.queries[id]) {}
  lemma steps(s: Variables, t: Variables, op: UI.Op, step: Step) requires Full(s.dict) && NextStep(s, t, op, step)
    ensures Full(t.dict)
    ensures (!op.PutOp? ==> t.dict == s.dict)
    ensures op.PutOp? && !step.StutterStep? ==> forall j: Key :: t.dict.view[j] == (if j == op.key then op.value else s.dict.view[j])
    ensures op.GetOp? && !step.StutterStep? ==> op.value == s.dict.view[op.key]
    ensures forall i | i in t.queries && i !in s.queries :: op.GetBeginOp? && i == op.id && t.queries[i] == s.dict.view[op.key]
    ensures forall i | i in t.queries && i in s.queries :: t.queries[i] == s.queries[i]
    ensures forall i | i in s.queries && i !in t.queries :: op.GetEndOp? && i == op.id && op.value == s.queries[i] {}
}
