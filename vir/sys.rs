#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::TotalKMMap_t::*;
use crate::spec::MapSpec_t::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::abstract_system::AbstractJournal_v::*;
use crate::abstract_system::AbstractMap_v::*;
use crate::abstract_system::AbstractCrashAwareJournal_v;
use crate::abstract_system::AbstractCrashAwareJournal_v::CrashTolerantJournal;
use crate::abstract_system::AbstractCrashAwareMap_v;
use crate::abstract_system::AbstractCrashAwareMap_v::CrashTolerantMap;
use crate::abstract_system::AbstractCrashAwareSystem_v::*;

verus! {

type Sys = CoordinationSystem::State;
type Lbl = CoordinationSystem::Label;
type Ct = CrashTolerantAsyncMap::Label;

// ---- oracle: the key-value contents reached by replaying the records lo..hi of a history over a map
spec fn replay(m: TotalKMMap, h: MsgHistory, lo: nat, hi: nat) -> TotalKMMap
    decreases hi - lo when lo <= hi
{
    if lo == hi { m } else {
        let p = replay(m, h, lo, (hi - 1) as nat);
        let r = h.msgs[(hi - 1) as nat];
        p.insert(r.key, p[r.key].merge(r.message))
    }
}

spec fn agree(a: MsgHistory, b: MsgHistory) -> bool {
    forall|l: nat| a.msgs.dom().contains(l) && b.msgs.dom().contains(l) ==> a.msgs[l] == b.msgs[l]
}

spec fn hist(h: MsgHistory) -> bool {
    h.seq_start <= h.seq_end && forall|l: nat| h.msgs.dom().contains(l) <==> h.seq_start <= l && l < h.seq_end
}

spec fn full(m: StampedMap) -> bool { m.value.0.dom() =~= Set::new(|k: Key| true) }

spec fn jrn(v: Sys) -> MsgHistory { v.journal.ephemeral->v.journal }
spec fn map(v: Sys) -> StampedMap { v.mapadt.ephemeral->v.stamped_map }
spec fn up(v: Sys) -> bool { v.ephemeral is Some }
spec fn know(v: Sys) -> Known { v.ephemeral.get_Some_0() }

// ---- what holds in every reachable state
spec fn good(v: Sys) -> bool {
    &&& hist(v.journal.persistent) && full(v.mapadt.persistent)
    &&& v.journal.persistent.seq_start == v.mapadt.persistent.seq_end
    &&& up(v) == v.journal.ephemeral is Known && up(v) == v.mapadt.ephemeral is Known
    &&& v.superblock_in_flight ==> v.journal.in_flight is Some
    &&& v.journal.in_flight is Some ==> v.mapadt.in_flight is Some
    &&& v.mapadt.in_flight is Some ==> up(v)
    &&& up(v) ==> {
        &&& hist(jrn(v)) && full(map(v))
        &&& jrn(v).seq_start == v.mapadt.persistent.seq_end
        &&& jrn(v).seq_start <= map(v).seq_end <= jrn(v).seq_end
        &&& v.journal.persistent.seq_end <= jrn(v).seq_end
        &&& know(v).map_lsn == map(v).seq_end
        &&& agree(v.journal.persistent, jrn(v))
        &&& map(v).value == replay(v.mapadt.persistent.value, jrn(v), jrn(v).seq_start, map(v).seq_end)
    }
    &&& v.mapadt.in_flight is Some ==> {
        let f = v.mapadt.in_flight.get_Some_0();
        &&& full(f) && v.mapadt.persistent.seq_end <= f.seq_end <= jrn(v).seq_end
        &&& f.value == replay(v.mapadt.persistent.value, jrn(v), jrn(v).seq_start, f.seq_end)
    }
    &&& v.journal.in_flight is Some ==> {
        let f = v.journal.in_flight.get_Some_0();
        &&& hist(f) && f.seq_start == v.mapadt.in_flight.get_Some_0().seq_end
        &&& v.journal.persistent.seq_end <= f.seq_end <= jrn(v).seq_end
        &&& agree(f, v.journal.persistent) && agree(f, jrn(v))
    }
}

//cfgall depth=6, maxtick=60000000, nat=(0,4), int=(0,4), qint=(0,5), native=(0,2)
proof fn h_init(v: Sys, s: Sys)
    requires CoordinationSystem::State::init_by(v, CoordinationSystem::Config::initialize(s)),
    ensures good(v), !up(v), v.journal.persistent.seq_end == 0, v.mapadt.persistent.seq_end == 0, v.mapadt.persistent.value == TotalKMMap::empty()
{ }

proof fn h_good_load(v: Sys, w: Sys)
    requires good(v), !up(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop })
    ensures good(w), up(w), jrn(w) == v.journal.persistent, map(w) == v.mapadt.persistent, know(w).progress.requests =~= Set::empty(), know(w).progress.replies =~= Set::empty(), know(w).sync_reqs =~= Map::empty()
{ }

// a step nobody outside sees
proof fn h_good_noop(v: Sys, w: Sys)
    requires good(v), up(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop })
    ensures good(w), up(w), know(w).progress == know(v).progress, know(w).sync_reqs == know(v).sync_reqs,
        jrn(w).seq_end == jrn(v).seq_end, agree(jrn(w), jrn(v)), map(w).seq_end >= map(v).seq_end,
        map(w).seq_end == map(v).seq_end ==> map(w) == map(v),
        w.journal.persistent.seq_end >= v.journal.persistent.seq_end,
        w.journal.persistent == v.journal.persistent && w.mapadt.persistent == v.mapadt.persistent
            || v.journal.in_flight is Some && !v.superblock_in_flight && w.journal.persistent == v.journal.in_flight.get_Some_0() && w.mapadt.persistent == v.mapadt.in_flight.get_Some_0(),
        v.journal.in_flight is Some ==> (w.journal.in_flight == v.journal.in_flight && w.mapadt.in_flight == v.mapadt.in_flight && w.superblock_in_flight == v.superblock_in_flight)
            || w.journal.in_flight is None && w.mapadt.in_flight is None && w.journal.persistent == v.journal.in_flight.get_Some_0(),
        v.journal.in_flight is None && w.journal.in_flight is Some ==> w.superblock_in_flight,
        w.superblock_in_flight && !v.superblock_in_flight ==> v.journal.in_flight is None,
{ }

proof fn h_good_put(v: Sys, w: Sys, q: Request, r: Reply, k: Key)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } }), q.input is PutInput
    ensures good(w), q.input is PutInput, r.output is PutOutput, q.id == r.id,
        map(v).seq_end == jrn(v).seq_end, jrn(w).seq_end == jrn(v).seq_end + 1, map(w).seq_end == jrn(w).seq_end,
        jrn(w).msgs[jrn(v).seq_end] == (KeyedMessage { key: q.input->PutInput_key, message: Message::Define { value: q.input->PutInput_value } }),
        map(w).value[k] == (if k == q.input->PutInput_key { Message::Define { value: q.input->PutInput_value } } else { map(v).value[k] }),
        know(v).progress.requests.contains(q), know(w).progress.requests =~= know(v).progress.requests.remove(q),
        !know(v).progress.replies.contains(r), know(w).progress.replies =~= know(v).progress.replies.insert(r),
        know(w).sync_reqs == know(v).sync_reqs, w.journal.persistent == v.journal.persistent, w.mapadt.persistent == v.mapadt.persistent
{ }

proof fn h_exec_kinds(v: Sys, w: Sys, q: Request, r: Reply)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } })
    ensures good(w), q.input is PutInput || q.input is QueryInput, up(v), up(w)
{ }

proof fn h_good_query(v: Sys, w: Sys, q: Request, r: Reply)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } }), q.input is QueryInput
    ensures good(w), q.input is QueryInput, r.output is QueryOutput, q.id == r.id,
        r.output->QueryOutput_value == replay(v.mapadt.persistent.value, jrn(v), jrn(v).seq_start, jrn(v).seq_end)[q.input->QueryInput_key]->value,
        jrn(w) == jrn(v), map(w) == map(v), w.journal.persistent == v.journal.persistent, w.mapadt.persistent == v.mapadt.persistent,
        know(v).progress.requests.contains(q), know(w).progress.requests =~= know(v).progress.requests.remove(q),
        !know(v).progress.replies.contains(r), know(w).progress.replies =~= know(v).progress.replies.insert(r),
        know(w).sync_reqs == know(v).sync_reqs
{ }

proof fn h_good_accept(v: Sys, w: Sys, q: Request)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::RequestOp { req: q } } })
    ensures good(w), !know(v).progress.requests.contains(q), know(w).progress.requests =~= know(v).progress.requests.insert(q), know(w).progress.replies == know(v).progress.replies,
        w.journal == v.journal, w.mapadt == v.mapadt, know(w).sync_reqs == know(v).sync_reqs
{ }

proof fn h_good_deliver(v: Sys, w: Sys, r: Reply)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ReplyOp { reply: r } } })
    ensures good(w), know(v).progress.replies.contains(r), know(w).progress.replies =~= know(v).progress.replies.remove(r), know(w).progress.requests == know(v).progress.requests,
        w.journal == v.journal, w.mapadt == v.mapadt, know(w).sync_reqs == know(v).sync_reqs
{ }

proof fn h_good_req_sync(v: Sys, w: Sys, id: SyncReqId)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::ReqSyncOp { sync_req_id: id } })
    ensures good(w), !know(v).sync_reqs.dom().contains(id), know(w).sync_reqs =~= know(v).sync_reqs.insert(id, jrn(v).seq_end),
        w.journal == v.journal, w.mapadt == v.mapadt, know(w).progress == know(v).progress
{ }

proof fn h_good_reply_sync(v: Sys, w: Sys, id: SyncReqId)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::ReplySyncOp { sync_req_id: id } })
    ensures good(w), know(v).sync_reqs.dom().contains(id), know(v).sync_reqs[id] <= v.journal.persistent.seq_end, know(w).sync_reqs =~= know(v).sync_reqs.remove(id),
        w.journal == v.journal, w.mapadt == v.mapadt, know(w).progress == know(v).progress
{ }

proof fn h_good_commit_start(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }), !v.superblock_in_flight, w.superblock_in_flight
    ensures good(w), w.superblock_in_flight, w.journal.in_flight is Some, v.journal.in_flight is None,
        jrn(w) == jrn(v), map(w) == map(v), w.journal.persistent == v.journal.persistent, w.mapadt.persistent == v.mapadt.persistent, w.ephemeral == v.ephemeral
{ }

//reach
proof fn h_can_commit_start(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }), !v.superblock_in_flight, w.superblock_in_flight,
        jrn(v).seq_start < map(v).seq_end, w.journal.in_flight.get_Some_0().seq_end == jrn(v).seq_end
    ensures false
{ }

proof fn h_good_lands(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::SyncOp })
    ensures good(w), v.superblock_in_flight, !w.superblock_in_flight, w.journal == v.journal, w.mapadt == v.mapadt, w.ephemeral == v.ephemeral
{ }

proof fn h_good_commit_complete(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }), v.journal.in_flight is Some, w.journal.in_flight is None, up(v)
    ensures good(w), !v.superblock_in_flight, v.journal.in_flight is Some, w.journal.in_flight is None, w.mapadt.in_flight is None,
        w.journal.persistent == v.journal.in_flight.get_Some_0(), w.mapadt.persistent == v.mapadt.in_flight.get_Some_0(),
        w.journal.persistent.seq_end >= v.journal.persistent.seq_end, map(w) == map(v), w.ephemeral == v.ephemeral, jrn(w).seq_end == jrn(v).seq_end,
        replay(w.mapadt.persistent.value, jrn(w), jrn(w).seq_start, jrn(w).seq_end) == replay(v.mapadt.persistent.value, jrn(v), jrn(v).seq_start, jrn(v).seq_end)
{ }

// a crash loses no record the persistent journal had, and what is left is a prefix of the history that was
proof fn h_good_crash(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::CrashOp })
    ensures good(w), !up(w), w.journal.persistent.seq_end >= v.journal.persistent.seq_end,
        v.journal.in_flight is Some && !v.superblock_in_flight ==> w.journal.persistent == v.journal.in_flight.get_Some_0() && w.mapadt.persistent == v.mapadt.in_flight.get_Some_0(),
        v.superblock_in_flight || v.journal.in_flight is None ==> w.journal.persistent == v.journal.persistent && w.mapadt.persistent == v.mapadt.persistent,
        up(v) ==> w.journal.persistent.seq_end <= jrn(v).seq_end
{ }

// the contents after a crash are those of the history cut at the persistent end
proof fn h_crash_contents(v: Sys, w: Sys)
    requires good(v), up(v), v.journal.persistent.seq_start <= jrn(v).seq_start, CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::CrashOp })
    ensures replay(w.mapadt.persistent.value, w.journal.persistent, w.journal.persistent.seq_start, w.journal.persistent.seq_end)
         == replay(v.mapadt.persistent.value, jrn(v), jrn(v).seq_start, w.journal.persistent.seq_end)
{ }

// restart: load and replay the whole journal: the contents are exactly what was persistent
proof fn h_restart(v: Sys, w: Sys, x: Sys)
    requires good(v), !up(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }),
        CoordinationSystem::State::next(w, x, Lbl::Label { ctam_label: Ct::Noop }), map(x).seq_end == v.journal.persistent.seq_end,
    ensures
        map(x).value == replay(v.mapadt.persistent.value, v.journal.persistent, v.journal.persistent.seq_start, v.journal.persistent.seq_end)
{ }

// a put whose sync was answered is among the persistent records
proof fn h_put_sync_durable(a: Sys, b: Sys, c: Sys, d: Sys, e: Sys, q: Request, r: Reply, id: SyncReqId)
    requires good(c), q.input is PutInput,
        CoordinationSystem::State::next(a, b, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } }),
        good(a), know(c).sync_reqs.dom().contains(id), know(c).sync_reqs[id] == jrn(b).seq_end, agree(jrn(b), jrn(c)),
        CoordinationSystem::State::next(c, e, Lbl::Label { ctam_label: Ct::ReplySyncOp { sync_req_id: id } }),
        CoordinationSystem::State::next(e, d, Lbl::Label { ctam_label: Ct::CrashOp }),
    ensures d.journal.persistent.seq_end > jrn(a).seq_end
{ }

//reach
proof fn h_can_complete(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }), v.journal.in_flight is Some, w.journal.in_flight is None, up(v), w.journal.persistent.seq_end > v.journal.persistent.seq_end
    ensures false
{ }

//reach
proof fn h_can_recover(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::Noop }), up(v), map(v).seq_end + 2 <= map(w).seq_end
    ensures false
{ }

//reach
proof fn h_can_reply_sync(v: Sys, w: Sys, id: SyncReqId)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::ReplySyncOp { sync_req_id: id } }), know(v).sync_reqs[id] == 2
    ensures false
{ }

//reach
proof fn h_can_put(v: Sys, w: Sys, q: Request, r: Reply)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } }), q.input is PutInput, map(v).seq_end == 1
    ensures false
{ }

//reach
proof fn h_can_query(v: Sys, w: Sys, q: Request, r: Reply)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::OperateOp { base_op: AsyncMap::Label::ExecuteOp { req: q, reply: r } } }), q.input is QueryInput, map(v).seq_end == 1, map(v).seq_end > jrn(v).seq_start
    ensures false
{ }

//reach
proof fn h_can_crash_keep(v: Sys, w: Sys)
    requires good(v), CoordinationSystem::State::next(v, w, Lbl::Label { ctam_label: Ct::CrashOp }), w.journal.persistent.seq_end > v.journal.persistent.seq_end
    ensures false
{ }

} // verus!
