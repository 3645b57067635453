#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*, multiset::*, seq::*};
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::TotalKMMap_t::*;
use crate::spec::MapSpec_t::*;
use crate::spec::FloatingSeq_t::*;
use crate::spec::AsyncDisk_t::*;
use crate::trusted::ProgramModelTrait_t::*;
use crate::trusted::SystemModel_t::*;
use crate::implementation::DiskLayout_v::*;
use crate::implementation::AtomicState_v::*;
use crate::implementation::ConcreteProgramModel_v::*;
use crate::implementation::MultisetMapRelation_v::*;

verus! {

type Sys = SystemModel::State<ConcreteProgramModel>;
type Lbl = SystemModel::Label;

// ---- what stands for the marshalling the sources leave open: any encoding that can be read back
spec fn digit(m: Message) -> u8 { if m->value.0 == 0 { 0u8 } else { 1u8 } }

spec fn enc(sb: Superblock) -> RawPage {
    let m = sb.store.appv.kmmap;
    let v = sb.version_index;
    seq![if v == 1 || v == 3 { 1u8 } else { 0u8 }, if v == 2 || v == 3 { 1u8 } else { 0u8 }, digit(m[Key(0)]), digit(m[Key(1)])]
}

spec fn dec(p: RawPage) -> Superblock {
    Superblock {
        version_index: (if p[0] == 1 { 1nat } else { 0nat }) + (if p[1] == 1 { 2nat } else { 0nat }),
        store: PersistentState { appv: MapSpec::State { kmmap: TotalKMMap(Map::new(|k: Key| true, |k: Key| Message::Define { value: Value(if p[if k.0 == 0 { 2int } else { 3int }] == 0 { 0u64 } else { 1u64 }) })) } },
    }
}

spec fn plain(m: TotalKMMap) -> bool {
    m.0.dom() =~= Set::new(|k: Key| true) && forall|k: Key| m.0[k] is Define
}

proof fn h_codec(sb: Superblock)
    requires sb.version_index <= 3, plain(sb.store.appv.kmmap)
    ensures dec(enc(sb)).version_index == sb.version_index, dec(enc(sb)).store.appv.kmmap.0 =~= sb.store.appv.kmmap.0
{ }

// ---- the durable state: what a restart would find
spec fn sbaddr() -> Address { Address { au: 0, page: 0 } }
spec fn sbpage(s: Sys) -> RawPage { s.disk.content[sbaddr()] }
spec fn dur(s: Sys) -> Superblock { spec_unmarshall(sbpage(s)) }
spec fn st(s: Sys) -> AtomicState { s.program.state }
spec fn ready(s: Sys) -> bool { st(s).recovery_state is RecoveryComplete }
// the contents after the first v operations
spec fn at(s: Sys, v: nat) -> TotalKMMap { st(s).history.entries[v - st(s).history.start].appv.kmmap }
spec fn ver(s: Sys) -> nat { (st(s).history.start + st(s).history.entries.len() - 1) as nat }

spec fn good(s: Sys) -> bool {
    let a = st(s);
    let q = s.disk.requests;
    let r = s.disk.responses;
    &&& s.disk.content.dom().contains(sbaddr())
    &&& exists|b: Superblock| #![auto] b.version_index <= 3 && plain(b.store.appv.kmmap) && sbpage(s) == spec_marshall(b)
    &&& a.recovery_state is Begin ==> q =~= Map::empty() && r =~= Map::empty()
    &&& a.recovery_state is AwaitingSuperblock ==>
        (r =~= Map::empty() && exists|i: ID| #![auto] q =~= Map::empty().insert(i, DiskRequest::ReadReq { from: sbaddr() }))
        || (q =~= Map::empty() && exists|i: ID| #![auto] r =~= Map::empty().insert(i, DiskResponse::ReadResp { data: sbpage(s) }))
    &&& a.recovery_state is RecoveryComplete ==> {
        &&& 1 <= a.history.entries.len()
        &&& forall|i: int| 0 <= i < a.history.entries.len() ==> plain(a.history.entries[i].appv.kmmap)
        &&& a.persistent_version == a.history.start
        &&& ver(s) <= 3
        &&& forall|i: SyncReqId| a.sync_req_map.dom().contains(i) ==> a.sync_req_map[i] <= ver(s)
        &&& a.in_flight is None ==> q =~= Map::empty() && r =~= Map::empty() && holds(s, a.history.start)
        &&& a.in_flight is Some ==> {
            let f = a.in_flight.get_Some_0();
            &&& a.history.start <= f.version <= ver(s)
            &&& {
                ||| r =~= Map::empty() && holds(s, a.history.start)
                    && q =~= Map::empty().insert(f.req_id, DiskRequest::WriteReq { to: sbaddr(), data: spec_marshall(Superblock { version_index: f.version, store: PersistentState { appv: MapSpec::State { kmmap: at(s, f.version) } } }) })
                ||| q =~= Map::empty() && holds(s, f.version) && r =~= Map::empty().insert(f.req_id, DiskResponse::WriteResp {  })
            }
        }
    }
}

// the disk has the state after the first v operations
spec fn holds(s: Sys, v: nat) -> bool {
    sbpage(s) == spec_marshall(Superblock { version_index: v, store: PersistentState { appv: MapSpec::State { kmmap: at(s, v) } } })
}

spec fn one<A>(b: bool, x: A) -> Multiset<A> { if b { Multiset::singleton(x) } else { Multiset::empty() } }

//cfgall subst={"DiskLayout_v::spec_marshall": "lib::vharness_store::enc", "DiskLayout_v::spec_unmarshall": "lib::vharness_store::dec"}, addrs=[(0, 0), (0, 1)], seq=4, nat=(0, 3), int=(0, 3), qint=(0, 4), maxtick=30000000, inst={"ProgramModel": ("data", "lib::implementation::ConcreteProgramModel_v::ConcreteProgramModel", "", ())}
proof fn h_good_init(s: Sys, p: ConcreteProgramModel, d: DiskModel)
    requires SystemModel::State::init_by(s, SystemModel::Config::initialize(p, d))
    ensures good(s), !ready(s), dur(s).version_index == 0, dur(s).store.appv.kmmap.0 =~= TotalKMMap::empty().0
{ }

proof fn h_good_put(s: Sys, t: Sys, q: Request, r: Reply, k: Key)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::Execute { req: q, reply: r } }), q.input is PutInput, s.requests.len() <= 1, s.replies.len() <= 1, ver(s) <= 2
    ensures good(t), ready(s), r.id == q.id, r.output is PutOutput, (ver(t) == ver(s) + 1 || ver(t) == ver(s)),
        at(t, ver(t))[k] == (if k == q.input->PutInput_key { Message::Define { value: q.input->PutInput_value } } else { at(s, ver(s))[k] }),
        st(t).history.start == st(s).history.start, forall|v: nat| st(s).history.start <= v <= ver(s) ==> at(t, v) == at(s, v),
        t.disk == s.disk, s.requests.contains(q), t.requests == s.requests.remove(q), t.replies == s.replies.insert(r),
        st(t).sync_req_map == st(s).sync_req_map, st(t).in_flight == st(s).in_flight
{ }


proof fn h_good_query(s: Sys, t: Sys, q: Request, r: Reply, k: Key)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::Execute { req: q, reply: r } }), !(q.input is PutInput), s.requests.len() <= 1, s.replies.len() <= 1, ver(s) <= 2
    ensures good(t), ready(s), r.id == q.id, q.input is QueryInput ==> r.output is QueryOutput && r.output->QueryOutput_value == at(s, ver(s))[q.input->QueryInput_key]->value,
        q.input is NoopInput ==> r.output is NoopOutput, ver(s) <= ver(t), ver(t) <= ver(s) + 1, at(t, ver(t))[k] == at(s, ver(s))[k],
        st(t).history.start == st(s).history.start, forall|v: nat| st(s).history.start <= v <= ver(s) ==> at(t, v) == at(s, v),
        t.disk == s.disk, s.requests.contains(q), t.requests == s.requests.remove(q), t.replies == s.replies.insert(r),
        st(t).sync_req_map == st(s).sync_req_map, st(t).in_flight == st(s).in_flight
{ }

// requests come in once under an id, replies go out once
proof fn h_good_accept(s: Sys, t: Sys, q: Request)
    requires SystemModel::State::next(s, t, Lbl::AcceptRequest { req: q })
    ensures t.program == s.program, t.disk == s.disk, !s.id_history.contains(q.id), t.id_history == s.id_history.insert(q.id), t.requests == s.requests.insert(q), t.replies == s.replies, t.sync_requests == s.sync_requests, t.sync_replies == s.sync_replies
{ }

proof fn h_good_deliver(s: Sys, t: Sys, r: Reply)
    requires SystemModel::State::next(s, t, Lbl::DeliverReply { reply: r })
    ensures t.program == s.program, t.disk == s.disk, s.replies.contains(r), t.replies == s.replies.remove(r), t.requests == s.requests, t.id_history == s.id_history
{ }

proof fn h_good_sync_accept(s: Sys, t: Sys, i: SyncReqId)
    requires SystemModel::State::next(s, t, Lbl::AcceptSyncRequest { sync_req_id: i })
    ensures t.program == s.program, t.disk == s.disk, !s.id_history.contains(i), t.id_history == s.id_history.insert(i), t.sync_requests == s.sync_requests.insert(i), t.sync_replies == s.sync_replies, t.requests == s.requests, t.replies == s.replies
{ }

proof fn h_good_sync_deliver(s: Sys, t: Sys, i: SyncReqId)
    requires SystemModel::State::next(s, t, Lbl::DeliverSyncReply { sync_req_id: i })
    ensures t.program == s.program, t.disk == s.disk, s.sync_replies.contains(i), t.sync_replies == s.sync_replies.remove(i), t.requests == s.requests, t.replies == s.replies
{ }

// a sync asked for covers everything executed before it
proof fn h_good_sync_start(s: Sys, t: Sys, i: SyncReqId)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::AcceptSyncRequest { sync_req_id: i } })
    ensures good(t), ready(s), t.disk == s.disk, st(t).history == st(s).history, st(t).sync_req_map.dom().contains(i), st(t).sync_req_map[i] >= ver(s),
        forall|j: SyncReqId| j != i ==> st(t).sync_req_map.dom().contains(j) == st(s).sync_req_map.dom().contains(j) && (st(s).sync_req_map.dom().contains(j) ==> st(t).sync_req_map[j] == st(s).sync_req_map[j]),
        st(t).in_flight == st(s).in_flight, t.requests == s.requests, t.replies == s.replies, t.sync_replies == s.sync_replies
{ }

// a sync is answered only when a restart would find everything it covers
proof fn h_good_sync_done(s: Sys, t: Sys, i: SyncReqId)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id: i } }), st(s).sync_req_map.dom().contains(i)
    ensures good(t), ready(s), t.disk == s.disk, st(s).sync_req_map[i] <= dur(s).version_index, st(t).history == st(s).history, !st(t).sync_req_map.dom().contains(i),
        forall|j: SyncReqId| j != i ==> st(t).sync_req_map.dom().contains(j) == st(s).sync_req_map.dom().contains(j) && (st(s).sync_req_map.dom().contains(j) ==> st(t).sync_req_map[j] == st(s).sync_req_map[j]),
        st(t).in_flight == st(s).in_flight, t.sync_replies == s.sync_replies.insert(i)
{ }

// only syncs the store has taken in are answered
proof fn h_good_sync_only_taken(s: Sys, t: Sys, i: SyncReqId)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id: i } })
    ensures st(s).sync_req_map.dom().contains(i)
{ }

spec fn io(b: bool, i: ID, q: DiskRequest, c: bool, j: ID, r: DiskResponse) -> Lbl {
    Lbl::ProgramDiskOp { info: ProgramDiskInfo { reqs: one(b, (i, q)), resps: one(c, (j, r)) } }
}

// talking to the disk changes nothing that is on it; what is executed stays executed
proof fn h_good_disk_running(s: Sys, t: Sys, b: bool, i: ID, q: DiskRequest, c: bool, j: ID, r: DiskResponse)
    requires good(s), ready(s), SystemModel::State::next(s, t, io(b, i, q, c, j, r))
    ensures good(t), ready(t), t.disk.content == s.disk.content, ver(t) == ver(s), st(t).history.start >= st(s).history.start, st(t).history.start <= dur(s).version_index,
        forall|v: nat| st(t).history.start <= v <= ver(s) ==> at(t, v) == at(s, v), st(t).sync_req_map == st(s).sync_req_map,
        st(s).in_flight is Some ==> st(t).in_flight is None, st(s).in_flight is None ==> st(t).in_flight is Some && st(t).in_flight.get_Some_0().version == ver(s),
        t.requests == s.requests, t.replies == s.replies, t.sync_replies == s.sync_replies
{ }

// starting up reads the superblock and nothing else
proof fn h_good_disk_start(s: Sys, t: Sys, b: bool, i: ID, q: DiskRequest, c: bool, j: ID, r: DiskResponse)
    requires good(s), st(s).recovery_state is Begin, SystemModel::State::next(s, t, io(b, i, q, c, j, r))
    ensures good(t), st(t).recovery_state is AwaitingSuperblock, t.disk.content == s.disk.content
{ }

// what the restarted store shows is exactly what was on the disk
proof fn h_good_recover(s: Sys, t: Sys, b: bool, i: ID, q: DiskRequest, c: bool, j: ID, r: DiskResponse, k: Key)
    requires good(s), st(s).recovery_state is AwaitingSuperblock, SystemModel::State::next(s, t, io(b, i, q, c, j, r))
    ensures good(t), ready(t), t.disk.content == s.disk.content, ver(t) == dur(s).version_index, st(t).history.start == dur(s).version_index,
        at(t, ver(t))[k] == dur(s).store.appv.kmmap[k], st(t).in_flight is None, st(t).sync_req_map.dom() =~= Set::empty()
{ }

// inside the disk: the durable state only ever moves to a later point of the same history
proof fn h_good_disk(s: Sys, t: Sys, k: Key)
    requires good(s), SystemModel::State::next(s, t, Lbl::DiskInternal)
    ensures good(t), t.program == s.program, t.requests == s.requests, t.replies == s.replies,
        !ready(s) ==> dur(t) == dur(s), dur(t).version_index >= dur(s).version_index,
        ready(s) ==> dur(t).version_index <= ver(s) && dur(t).store.appv.kmmap[k] == at(s, dur(t).version_index)[k],
        ready(s) && st(s).in_flight is None ==> dur(t) == dur(s)
{ }

// a crash at any point: the disk keeps what it has, and that is a point of the history no sync answered is beyond
proof fn h_good_crash(s: Sys, t: Sys, k: Key)
    requires good(s), SystemModel::State::next(s, t, Lbl::Crash)
    ensures good(t), !ready(t), dur(t) == dur(s), t.disk.content == s.disk.content, st(t).recovery_state is Begin,
        ready(s) ==> st(s).history.start <= dur(t).version_index <= ver(s) && dur(t).store.appv.kmmap[k] == at(s, dur(t).version_index)[k],
        t.requests == Multiset::<Request>::empty(), t.replies == Multiset::<Reply>::empty(), t.sync_requests == Multiset::<SyncReqId>::empty()
{ }

proof fn h_good_internal(s: Sys, t: Sys)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramInternal)
    ensures good(t), t == s
{ }

proof fn h_noop(s: Sys, t: Sys)
    requires SystemModel::State::next(s, t, Lbl::Noop)
    ensures t == s
{ }

// answered, crashed, restarted: what the sync covered is there
proof fn h_sync_crash_restart(s: Sys, t: Sys, u: Sys, i: SyncReqId, k: Key)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id: i } }), st(s).sync_req_map.dom().contains(i),
        SystemModel::State::next(t, u, Lbl::Crash),
    ensures dur(u).version_index >= st(s).sync_req_map[i], dur(u).store.appv.kmmap[k] == at(s, dur(u).version_index)[k]
{ }

//reach
proof fn h_can_put(s: Sys, t: Sys, q: Request, r: Reply)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::Execute { req: q, reply: r } }), q.input is PutInput, ver(t) == 2, st(s).history.start == 0, st(s).in_flight is Some, s.requests.len() <= 1, s.replies.len() <= 1
    ensures false
{ }

//reach
proof fn h_can_query(s: Sys, t: Sys, q: Request, r: Reply)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::Execute { req: q, reply: r } }), q.input is QueryInput, r.output->QueryOutput_value.0 == 1, s.requests.len() <= 1, s.replies.len() <= 1
    ensures false
{ }

//reach
proof fn h_can_sync(s: Sys, t: Sys, i: SyncReqId)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::AcceptSyncRequest { sync_req_id: i } }), ver(s) == 2
    ensures false
{ }

//reach
proof fn h_can_answer(s: Sys, t: Sys, i: SyncReqId)
    requires good(s), SystemModel::State::next(s, t, Lbl::ProgramUIOp { op: ProgramUserOp::DeliverSyncReply { sync_req_id: i } }), st(s).sync_req_map.dom().contains(i), st(s).sync_req_map[i] == 1
    ensures false
{ }

//reach
proof fn h_can_write(s: Sys, t: Sys, i: ID, j: ID, q: DiskRequest, r: DiskResponse)
    requires good(s), ready(s), SystemModel::State::next(s, t, io(true, i, q, false, j, r)), ver(s) == 2, st(s).history.start == 1
    ensures false
{ }

//reach
proof fn h_can_finish(s: Sys, t: Sys, i: ID, j: ID, q: DiskRequest, r: DiskResponse)
    requires good(s), ready(s), SystemModel::State::next(s, t, io(false, i, q, true, j, r)), ver(s) == 3, st(s).history.start == 1, st(t).history.start == 2
    ensures false
{ }

//reach
proof fn h_can_start(s: Sys, t: Sys, i: ID, j: ID, q: DiskRequest, r: DiskResponse)
    requires good(s), st(s).recovery_state is Begin, SystemModel::State::next(s, t, io(true, i, q, false, j, r))
    ensures false
{ }

//reach
proof fn h_can_recover(s: Sys, t: Sys, i: ID, j: ID, q: DiskRequest, r: DiskResponse)
    requires good(s), st(s).recovery_state is AwaitingSuperblock, SystemModel::State::next(s, t, io(false, i, q, true, j, r)), dur(s).version_index == 2
    ensures false
{ }

//reach
proof fn h_can_land(s: Sys, t: Sys)
    requires good(s), ready(s), SystemModel::State::next(s, t, Lbl::DiskInternal), dur(t).version_index == 2, dur(s).version_index == 1, page_count() > 0, au_count() > 0
    ensures false
{ }

//reach
proof fn h_can_read(s: Sys, t: Sys)
    requires good(s), !ready(s), SystemModel::State::next(s, t, Lbl::DiskInternal), page_count() > 0, au_count() > 0
    ensures false
{ }

//reach
proof fn h_can_crash(s: Sys, t: Sys)
    requires good(s), ready(s), SystemModel::State::next(s, t, Lbl::Crash), dur(t).version_index == 2, ver(s) == 3
    ensures false
{ }

} // verus!
