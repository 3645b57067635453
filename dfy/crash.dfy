include "REPO/MapSpec/ThreeStateVersionedMap.s.dfy"
include "REPO/Versions/StatesViewMap.i.dfy"
module H_ThreeState {
  import opened ThreeStateVersionedMap
  import opened ThreeStateTypes
  import opened KeyType
  import opened ValueType
  import MapSpec
  import UI
  predicate SameReqs(a: map<int, SyncReqStatus>, b: map<int, SyncReqStatus>, except: int) {
    forall i :: i != except ==> (i in a <==> i in b) && (i in a ==> a[i] == b[i])
  }
  lemma init(s: Variables) ensures Init(s) <==> (MapSpec.Init(s.s1) && s.s2 == s.s1 && s.s3 == s.s1 && s.outstandingSyncReqs == map[]) {}
  lemma crash(s: Variables, t: Variables, op: UI.Op)
    ensures Crash(s, t, op) <==> (op.CrashOp? && t.s1 == s.s1 && t.s2 == s.s1 && t.s3 == s.s1 && t.outstandingSyncReqs == map[]) {}
  lemma commit(s: Variables, t: Variables, op: UI.Op, i: int) requires Move1to2(s, t, op)
    ensures op.NoOp? && t.s1 == s.s2 && t.s2 == s.s2 && t.s3 == s.s3
    ensures i in t.outstandingSyncReqs <==> i in s.outstandingSyncReqs
    ensures i in s.outstandingSyncReqs ==> (t.outstandingSyncReqs[i] == State3 <==> s.outstandingSyncReqs[i] == State3)
    ensures i in s.outstandingSyncReqs ==> t.outstandingSyncReqs[i] != State2 {}
  lemma freeze(s: Variables, t: Variables, op: UI.Op, i: int) requires Move2to3(s, t, op)
    ensures op.NoOp? && t.s1 == s.s1 && t.s2 == s.s3 && t.s3 == s.s3
    ensures i in t.outstandingSyncReqs <==> i in s.outstandingSyncReqs
    ensures i in s.outstandingSyncReqs ==> (t.outstandingSyncReqs[i] == State1 <==> s.outstandingSyncReqs[i] == State1)
    ensures i in s.outstandingSyncReqs ==> t.outstandingSyncReqs[i] != State3 {}
  lemma commit_allowed(s: Variables) ensures exists op :: op == UI.NoOp && Move1to2(s, Variables(s.s2, s.s2, s.s3, SyncReqs2to1(s.outstandingSyncReqs)), op) {}
  lemma freeze_allowed(s: Variables) ensures exists op :: op == UI.NoOp && Move2to3(s, Variables(s.s1, s.s3, s.s3, SyncReqs3to2(s.outstandingSyncReqs)), op) {}
  lemma advance(s: Variables, t: Variables, op: UI.Op) requires MapSpec.WF(s.s3) && Move3(s, t, op)
    ensures t.s1 == s.s1 && t.s2 == s.s2 && t.outstandingSyncReqs == s.outstandingSyncReqs
    ensures (op.GetOp? || op.SuccOp? || op.NoOp?) ==> t.s3 == s.s3
    ensures op.PutOp? ==> forall j: Key :: t.s3.view[j] == (if j == op.key then op.value else s.s3.view[j]) {}
  lemma push(s: Variables, t: Variables, op: UI.Op, id: int)
    ensures PushSync(s, t, op, id) <==> (op == UI.PushSyncOp(id) && id !in s.outstandingSyncReqs && t.s1 == s.s1 && t.s2 == s.s2 && t.s3 == s.s3
      && SameReqs(s.outstandingSyncReqs, t.outstandingSyncReqs, id) && id in t.outstandingSyncReqs && t.outstandingSyncReqs[id] == State3) {}
  lemma pop(s: Variables, t: Variables, op: UI.Op, id: int)
    ensures PopSync(s, t, op, id) <==> (op == UI.PopSyncOp(id) && id in s.outstandingSyncReqs && s.outstandingSyncReqs[id] == State1
      && t.s1 == s.s1 && t.s2 == s.s2 && t.s3 == s.s3 && SameReqs(s.outstandingSyncReqs, t.outstandingSyncReqs, id) && id !in t.outstandingSyncReqs) {}
  // the durability promise, over one arbitrary step: every write that a pending sync covers is in the state that sync waits for
  // nothing writes k after the sync request: each copy the request's stage says is covered still maps k to v
  predicate Covers(s: Variables, k: Key, v: Value, id: int) {
    id in s.outstandingSyncReqs && s.s3.view[k] == v && match s.outstandingSyncReqs[id] {
      case State1 => s.s1.view[k] == v && s.s2.view[k] == v
      case State2 => s.s2.view[k] == v
      case State3 => true }
  }
  lemma sync_waits_for_durability(s: Variables, t: Variables, op: UI.Op, step: Step, k: Key, v: Value, id: int)
    requires MapSpec.WF(s.s1) && MapSpec.WF(s.s2) && MapSpec.WF(s.s3) && NextStep(s, t, op, step)
    requires Covers(s, k, v, id) && !step.CrashStep?
    requires step.Move3Step? ==> t.s3.view[k] == s.s3.view[k]
    ensures id in t.outstandingSyncReqs ==> Covers(t, k, v, id)
    ensures id !in t.outstandingSyncReqs ==> step.PopSyncStep? && t.s1.view[k] == v {}
  lemma persistent_only_from_frozen(s: Variables, t: Variables, op: UI.Op, step: Step)
    requires NextStep(s, t, op, step)
    ensures t.s1 == s.s1 || (step.Move1to2Step? && t.s1 == s.s2)
    ensures t.s2 == s.s2 || t.s2 == s.s3 || (op.CrashOp? && t.s2 == s.s1)
    ensures op.CrashOp? && !step.Move3Step? ==> t.s3 == s.s1 && t.s2 == s.s1 {}
}
module H_States {
  import opened StatesViewMap
  import opened ViewOp
  import opened Options
  import MapSpec
  import UI
  import opened KeyType
  import opened ValueType
  predicate WFLocs(s: Variables) {
    (s.persistentLoc.Some? ==> s.persistentLoc.value in s.disk && MapSpec.WF(s.disk[s.persistentLoc.value]))
    && (s.frozenLoc.Some? ==> s.frozenLoc.value in s.disk && MapSpec.WF(s.disk[s.frozenLoc.value]))
    && (s.frozenState.Some? ==> MapSpec.WF(s.frozenState.value)) && (s.ephemeralState.Some? ==> MapSpec.WF(s.ephemeralState.value))
  }
  lemma inv(s: Variables) ensures Inv(s) <==> WFLocs(s) {}
  lemma init(s: Variables, l: Loc) ensures Init(s, l) <==> (l in s.disk && MapSpec.Init(s.disk[l]) && s.persistentLoc.None? && s.frozenLoc.None? && s.frozenState.None? && s.ephemeralState.None?) {}
  // what every step keeps on disk: the persistent copy, and the frozen copy once it has been written
  lemma copies_kept(s: Variables, t: Variables, op: VOp, step: Step) requires WFLocs(s) && NextStep(s, t, op, step)
    ensures WFLocs(t)
    ensures s.persistentLoc.Some? && (t.persistentLoc == s.persistentLoc || step.CrashStep?) ==> s.persistentLoc.value in t.disk && t.disk[s.persistentLoc.value] == s.disk[s.persistentLoc.value]
    ensures s.frozenLoc.Some? && (t.persistentLoc == s.frozenLoc || step.CrashStep?) ==> s.frozenLoc.value in t.disk && t.disk[s.frozenLoc.value] == s.disk[s.frozenLoc.value]
    ensures s.persistentLoc.None? ==> forall l | l in s.disk :: l in t.disk && t.disk[l] == s.disk[l] {}
  lemma recover(s: Variables, t: Variables, op: VOp) requires WFLocs(s) && ObtainPersistentLoc(s, t, op)
    ensures op.SendPersistentLocOp? && s.persistentLoc.None? && t.persistentLoc == Some(op.loc) && op.loc in s.disk && t.ephemeralState == Some(s.disk[op.loc]) && t.disk == s.disk
    ensures t.frozenLoc == s.frozenLoc && t.frozenState == s.frozenState {}
  lemma advance(s: Variables, t: Variables, op: VOp) requires WFLocs(s) && Advance(s, t, op)
    ensures op.AdvanceOp? && t.disk == s.disk && t.persistentLoc == s.persistentLoc && t.frozenLoc == s.frozenLoc && t.frozenState == s.frozenState
    ensures s.ephemeralState.Some? && t.ephemeralState.Some?
    ensures op.uiop.PutOp? ==> forall j: Key :: t.ephemeralState.value.view[j] == (if j == op.uiop.key then op.uiop.value else s.ephemeralState.value.view[j])
    ensures op.uiop.GetOp? || op.uiop.SuccOp? || op.uiop.NoOp? ==> t.ephemeralState == s.ephemeralState {}
  lemma crash(s: Variables, t: Variables, op: VOp) requires Crash(s, t, op)
    ensures op.CrashOp? && t.persistentLoc.None? && t.frozenLoc.None? && t.frozenState.None? && t.ephemeralState.None? {}
  lemma freeze(s: Variables, t: Variables, op: VOp)
    ensures Freeze(s, t, op) <==> (op.FreezeOp? && t == Variables(s.disk, s.persistentLoc, None, s.ephemeralState, s.ephemeralState)) {}
  lemma frozen_loc(s: Variables, t: Variables, op: VOp) requires WFLocs(s) && ProvideFrozenLoc(s, t, op)
    ensures op.SendFrozenLocOp? && s.frozenLoc.None? && s.frozenState.Some? && op.loc in s.disk && s.disk[op.loc] == s.frozenState.value
    ensures t == s.(frozenLoc := Some(op.loc)) {}
  lemma cleanup(s: Variables, t: Variables, op: VOp)
    ensures ForgetOld(s, t, op) <==> (op.CleanUpOp? && t == Variables(s.disk, s.frozenLoc, None, None, s.ephemeralState)) {}
  lemma disk_change(s: Variables, t: Variables, op: VOp) requires DiskChange(s, t, op)
    ensures op.StatesInternalOp? && t.persistentLoc == s.persistentLoc && t.frozenLoc == s.frozenLoc && t.frozenState == s.frozenState && t.ephemeralState == s.ephemeralState {}
  lemma stutter(s: Variables, t: Variables, op: VOp)
    ensures Stutter(s, t, op) <==> (t == s && (op.JournalInternalOp? || op.StatesInternalOp? || op.PushSyncOp? || op.PopSyncOp?)) {}
  lemma vop_ui(v: VOp, u: UI.Op)
    ensures VOpAgreesUIOp(v, u) ==> (v.AdvanceOp? && !v.replay ==> u == v.uiop)
    ensures VOpAgreesUIOp(v, u) && (u.GetOp? || u.PutOp? || u.SuccOp? || u.CloneOp?) ==> (v.AdvanceOp? && !v.replay)
    ensures VOpAgreesUIOp(v, u) && u.CrashOp? && !v.AdvanceOp? ==> v.CrashOp?
    ensures VOpAgreesUIOp(v, u) && v.CrashOp? ==> u.CrashOp?
    ensures VOpAgreesUIOp(v, u) && v.PopSyncOp? ==> u.PopSyncOp? && u.id == v.id
    ensures VOpAgreesUIOp(v, u) && v.PushSyncOp? ==> u.PushSyncOp? && u.id == v.id
    ensures VOpAgreesUIOp(v, u) && !(v.AdvanceOp? && !v.replay) && !v.CrashOp? && !v.PushSyncOp? && !v.PopSyncOp? ==> u.NoOp?
    ensures v.AdvanceOp? && !v.replay && u == v.uiop ==> VOpAgreesUIOp(v, u) {}
}
