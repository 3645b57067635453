include "REPO/examples/log/DiskLogSystemCrashSafeLogRefinement.dfy"
module H_Log {
  import opened DiskLogSystemInv
  import opened DiskLogSystem
  import R = DiskLogSystemCrashSafeLogRefinement
  import CSL = CrashSafeLog
  import L = LogSpec
  // the durable log as the disk alone shows it: element i sits at block i+1, the superblock (block 0) holds the length
  predicate Formatted(b: map<int, M.Sector>) {
    0 in b && b[0].SuperblockSector? && b[0].superblock.length >= 0
    && forall i | 0 <= i < b[0].superblock.length :: i + 1 in b && b[i + 1].LogSector?
  }
  function At(b: map<int, M.Sector>, i: int): M.L.Element requires i + 1 in b && b[i + 1].LogSector? { b[i + 1].element }
  predicate WF(s: Variables) {
    var b := s.disk.blocks; var m := s.machine;
    Formatted(b) && m.stagedLength <= |m.log|
    && (m.cachedSuperblock.Ready? ==> m.cachedSuperblock.superblock.length == b[0].superblock.length)
    && (m.cachedSuperblock.Unready? ==> m.log == [])
    && forall i | 0 <= i < |m.log| && (i < m.stagedLength || i < b[0].superblock.length) :: i + 1 in b && b[i + 1].LogSector? && At(b, i) == m.log[i]
  }
  lemma inv(k: Constants, s: Variables) ensures WF(s) <==> Inv(k, s) {}
  lemma init(k: Constants, s: Variables) requires Init(k, s)
    ensures Formatted(s.disk.blocks) && s.disk.blocks[0].superblock.length == 0 && s.machine.log == [] && s.machine.cachedSuperblock.Unready? {}
  lemma {:cfg "seq=2"} invariant(k: Constants, s: Variables, t: Variables, step: Step) requires WF(s) && NextStep(k, s, t, step) ensures WF(t) {}
  // durability: an element below the durable length never changes, and the durable length never shrinks
  lemma {:cfg "seq=2"} durable(k: Constants, s: Variables, t: Variables, step: Step, i: int)
    requires WF(s) && NextStep(k, s, t, step) && 0 <= i < s.disk.blocks[0].superblock.length
    ensures i < t.disk.blocks[0].superblock.length && At(t.disk.blocks, i) == At(s.disk.blocks, i) {}
  // crash: memory is lost, the disk is not
  lemma crash(k: Constants, s: Variables, t: Variables)
    ensures Crash(k, s, t) <==> t.disk == s.disk && t.machine == M.Variables([], M.Unready, 0) {}
  // flush: the durable length moves to the whole log only once every element is on disk
  lemma {:cfg "seq=2"} flush(k: Constants, s: Variables, t: Variables, op: M.DiskOp)
    requires WF(s) && M.Flush(k.machine, s.machine, t.machine, op) && D.Next(k.disk, s.disk, t.disk, op)
    ensures t.disk.blocks[0] == M.SuperblockSector(M.Superblock(|s.machine.log|)) && t.machine.log == s.machine.log
    ensures forall i | 0 <= i < |s.machine.log| :: i + 1 in t.disk.blocks && t.disk.blocks[i + 1] == M.LogSector(s.machine.log[i]) {}
  lemma {:cfg "seq=2"} query(k: Constants, s: Variables, t: Variables, op: M.DiskOp, i: M.Index, r: M.L.Element)
    ensures M.Query(k.machine, s.machine, t.machine, op, i, r) <==> (0 <= i.idx < |s.machine.log| && r == s.machine.log[i.idx] && op == D.NoDiskOp && t.machine == s.machine) {}
  lemma {:cfg "seq=2"} append(k: Constants, s: Variables, t: Variables, op: M.DiskOp, e: M.L.Element)
    requires M.Append(k.machine, s.machine, t.machine, op, e)
    ensures t.machine.log == s.machine.log + [e] && op == D.NoDiskOp && t.machine.stagedLength == s.machine.stagedLength
    ensures s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log| {}
  lemma {:cfg "seq=2"} recover(k: Constants, s: Variables, t: Variables, op: M.DiskOp, i: M.Index, e: M.L.Element)
    requires WF(s) && M.FetchElement(k.machine, s.machine, t.machine, op, i, e) && D.Next(k.disk, s.disk, t.disk, op)
    ensures i.idx == |s.machine.log| < s.disk.blocks[0].superblock.length && t.machine.log == s.machine.log + [At(s.disk.blocks, i.idx)] && t.disk == s.disk {}
  lemma {:cfg "seq=2"} disk(k: D.Constants, s: M.DiskVariables, t: M.DiskVariables, op: M.DiskOp) requires D.Next(k, s, t, op)
    ensures op.WriteOp? ==> t.blocks == s.blocks[op.lba := op.sector]
    ensures op.ReadOp? ==> op.lba in s.blocks && s.blocks[op.lba] == op.sector
    ensures !op.WriteOp? ==> t == s {}
  lemma {:cfg "seq=2"} abstraction(k: Constants, s: Variables) requires WF(s)
    ensures var p := R.I(k, s).persistent.log; |p| == s.disk.blocks[0].superblock.length && forall i | 0 <= i < |p| :: p[i] == At(s.disk.blocks, i)
    ensures R.I(k, s).ephemeral == (if s.machine.cachedSuperblock.Ready? && s.machine.cachedSuperblock.superblock.length <= |s.machine.log| then L.Variables(s.machine.log) else R.I(k, s).persistent) {}
  lemma {:cfg "seq=2"} spec(k: CSL.Constants, s: CSL.Variables, t: CSL.Variables) requires CSL.Next(k, s, t)
    ensures t.persistent == s.persistent || t.persistent == s.ephemeral
    ensures t.ephemeral == s.ephemeral || t.ephemeral == s.persistent || (t.persistent == s.persistent && |t.ephemeral.log| == |s.ephemeral.log| + 1 && t.ephemeral.log[..|s.ephemeral.log|] == s.ephemeral.log) {}
}
