#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::journal::PagedJournal_v;
use crate::journal::PagedJournal_v::PagedJournal;
use crate::journal::LinkedJournal_v;
use crate::journal::LinkedJournal_v::LinkedJournal;


verus! {

//cfgall depth=5, maxtick=60000000, addrs=[(0,0),(0,1),(1,0)], nat=(0,3), int=(0,3), qint=(0,4)

type PJ = PagedJournal::State;
type PL = PagedJournal::Label;

// oracle: the message at a log sequence number, looked up from the newest page
spec fn rec_at(r: PagedJournal_v::JournalRecord, l: nat) -> KeyedMessage
    decreases r
{
    if r.message_seq.seq_start <= l { r.message_seq.msgs[l] } else { match *r.prior_rec { Some(p) => rec_at(p, l), None => arbitrary() } }
}

spec fn p_tj_at(t: PagedJournal_v::TruncatedJournal, l: nat) -> KeyedMessage {
    rec_at(t.freshest_rec.unwrap(), l)
}

spec fn p_tj_end(t: PagedJournal_v::TruncatedJournal) -> nat {
    match t.freshest_rec { Some(r) => r.message_seq.seq_end, None => t.boundary_lsn }
}

spec fn p_at(v: PJ, l: nat) -> KeyedMessage {
    if v.unmarshalled_tail.seq_start <= l { v.unmarshalled_tail.msgs[l] } else { p_tj_at(v.truncated_journal, l) }
}
spec fn p_start(v: PJ) -> nat { v.truncated_journal.boundary_lsn }
spec fn p_end(v: PJ) -> nat { v.unmarshalled_tail.seq_end }

proof fn hp_init(w: PJ, t: PagedJournal_v::TruncatedJournal)
    requires PagedJournal::State::init_by(w, PagedJournal::Config::initialize(t))
    ensures w.wf(), p_start(w) == t.boundary_lsn, p_end(w) == p_tj_end(t), forall|l: nat| p_start(w) <= l < p_end(w) ==> p_at(w, l) == p_tj_at(t, l)
{ }

proof fn hp_put(v: PJ, w: PJ, h: MsgHistory)
    requires v.wf(), PagedJournal::State::next(v, w, PL::Put { messages: h })
    ensures w.wf(), h.seq_start == p_end(v), p_start(w) == p_start(v), p_end(w) == h.seq_end, p_end(v) <= p_end(w),
        forall|l: nat| p_start(v) <= l < p_end(v) ==> p_at(w, l) == p_at(v, l),
        forall|l: nat| p_end(v) <= l < p_end(w) ==> p_at(w, l) == h.msgs[l]
{ }

proof fn hp_discard(v: PJ, w: PJ, n: nat, e: nat)
    requires v.wf(), PagedJournal::State::next(v, w, PL::DiscardOld { start_lsn: n, require_end: e })
    ensures w.wf(), p_start(v) <= n <= p_end(v), p_start(w) == n, p_end(w) == p_end(v), e == p_end(v),
        forall|l: nat| n <= l < p_end(v) ==> p_at(w, l) == p_at(v, l)
{ }

proof fn hp_internal(v: PJ, w: PJ)
    requires v.wf(), PagedJournal::State::next(v, w, PL::Internal {})
    ensures w.wf(), p_start(w) == p_start(v), p_end(w) == p_end(v), forall|l: nat| p_start(v) <= l < p_end(v) ==> p_at(w, l) == p_at(v, l),
        p_tj_end(v.truncated_journal) <= p_tj_end(w.truncated_journal)
{ }

//reach
proof fn hp_can_marshal(v: PJ, w: PJ)
    requires v.wf(), PagedJournal::State::next(v, w, PL::Internal {}), p_tj_end(v.truncated_journal) > p_start(v), p_tj_end(w.truncated_journal) > p_tj_end(v.truncated_journal)
    ensures false
{ }

proof fn hp_read(v: PJ, w: PJ, h: MsgHistory)
    requires v.wf(), PagedJournal::State::next(v, w, PL::ReadForRecovery { messages: h })
    ensures w == v, h.wf(), p_start(v) <= h.seq_start, h.seq_end <= p_end(v), forall|l: nat| h.seq_start <= l < h.seq_end ==> h.msgs[l] == p_at(v, l)
{ }

//reach
proof fn hp_can_read_second(v: PJ, w: PJ, h: MsgHistory)
    requires v.wf(), PagedJournal::State::next(v, w, PL::ReadForRecovery { messages: h }), h.seq_end < p_tj_end(v.truncated_journal), h.seq_start < h.seq_end
    ensures false
{ }

proof fn hp_freeze(v: PJ, w: PJ, t: PagedJournal_v::TruncatedJournal)
    requires v.wf(), PagedJournal::State::next(v, w, PL::FreezeForCommit { frozen_journal: t })
    ensures w == v, t.wf(), p_start(v) <= t.boundary_lsn, p_tj_end(t) <= p_tj_end(v.truncated_journal),
        forall|l: nat| t.boundary_lsn <= l < p_tj_end(t) ==> p_tj_at(t, l) == p_at(v, l)
{ }

proof fn hp_end(v: PJ, w: PJ, n: nat)
    requires v.wf(), PagedJournal::State::next(v, w, PL::QueryEndLsn { end_lsn: n })
    ensures w == v, n == p_end(v)
{ }

// ---- pages linked by address
type LJ = LinkedJournal::State;
type LL = LinkedJournal::Label;
type LT = LinkedJournal_v::TruncatedJournal;

spec fn l_read(t: LinkedJournal_v::DiskView, p: Pointer, l: nat, fuel: nat) -> Option<KeyedMessage>
    decreases fuel
{
    if fuel == 0 || p is None || !t.entries.contains_key(p.unwrap()) { None } else {
        let e = t.entries[p.unwrap()];
        if l < t.boundary_lsn || e.message_seq.seq_end <= l { None }
        else if e.message_seq.seq_start <= l { Some(e.message_seq.msgs[l]) }
        else { l_read(t, e.prior_rec, l, (fuel - 1) as nat) }
    }
}
// every message from the boundary to the end is found
spec fn l_whole(t: LT) -> bool { forall|l: nat| t.disk_view.boundary_lsn <= l < l_tend(t) ==> l_tat(t, l) is Some }
spec fn l_tat(t: LT, l: nat) -> Option<KeyedMessage> { l_read(t.disk_view, t.freshest_rec, l, 4) }
spec fn l_tend(t: LT) -> nat { match t.freshest_rec { Some(a) => t.disk_view.entries[a].message_seq.seq_end, None => t.disk_view.boundary_lsn } }
spec fn l_at(v: LJ, l: nat) -> Option<KeyedMessage> {
    if v.unmarshalled_tail.seq_start <= l { Some(v.unmarshalled_tail.msgs[l]) } else { l_tat(v.truncated_journal, l) }
}
spec fn l_start(v: LJ) -> nat { v.truncated_journal.disk_view.boundary_lsn }
spec fn l_end(v: LJ) -> nat { v.unmarshalled_tail.seq_end }

proof fn hl_inv(v: LJ)
    requires v.inv()
    ensures l_whole(v.truncated_journal), v.unmarshalled_tail.seq_start == l_tend(v.truncated_journal), l_start(v) <= l_end(v)
{ }

proof fn hl_init(w: LJ, t: LT)
    requires LinkedJournal::State::init_by(w, LinkedJournal::Config::initialize(t)), t.seq_start() <= t.seq_end()
    ensures w.wf(), l_start(w) == t.disk_view.boundary_lsn, l_end(w) == l_tend(t), forall|l: nat| l_start(w) <= l < l_end(w) ==> l_at(w, l) == l_tat(t, l)
{ }

proof fn hl_put(v: LJ, w: LJ, h: MsgHistory)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::Put { messages: h })
    ensures w.wf(), h.seq_start == l_end(v), l_start(w) == l_start(v), l_end(w) == h.seq_end, l_end(v) <= l_end(w),
        forall|l: nat| l_start(v) <= l < l_end(v) ==> l_at(w, l) == l_at(v, l),
        forall|l: nat| l_end(v) <= l < l_end(w) ==> l_at(w, l) == Some(h.msgs[l])
{ }

proof fn hl_discard(v: LJ, w: LJ, n: nat, e: nat)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::DiscardOld { start_lsn: n, require_end: e })
    ensures w.wf(), l_start(v) <= n <= l_end(v), l_start(w) == n, l_end(w) == l_end(v), e == l_end(v), l_whole(w.truncated_journal),
        forall|l: nat| n <= l < l_end(v) ==> l_at(w, l) == l_at(v, l),
        forall|a: Address| w.truncated_journal.disk_view.entries.contains_key(a) ==> v.truncated_journal.disk_view.entries.contains_key(a) && w.truncated_journal.disk_view.entries[a] == v.truncated_journal.disk_view.entries[a]
{ }

proof fn hl_internal(v: LJ, w: LJ)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::Internal {})
    ensures w.wf(), l_start(w) == l_start(v), l_end(w) == l_end(v), l_whole(w.truncated_journal), forall|l: nat| l_start(v) <= l < l_end(v) ==> l_at(w, l) == l_at(v, l),
        forall|a: Address| v.truncated_journal.disk_view.entries.contains_key(a) ==> w.truncated_journal.disk_view.entries.contains_key(a) && w.truncated_journal.disk_view.entries[a] == v.truncated_journal.disk_view.entries[a]
{ }

proof fn hl_read(v: LJ, w: LJ, h: MsgHistory)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::ReadForRecovery { messages: h })
    ensures w == v, h.wf(), l_start(v) <= h.seq_start, h.seq_end <= l_end(v), forall|l: nat| h.seq_start <= l < h.seq_end ==> l_at(v, l) == Some(h.msgs[l])
{ }

proof fn hl_freeze(v: LJ, w: LJ, t: LT)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::FreezeForCommit { frozen_journal: t })
    ensures w == v, t.disk_view.wf(), l_start(v) <= t.disk_view.boundary_lsn, l_tend(t) <= l_tend(v.truncated_journal), l_whole(t),
        forall|l: nat| t.disk_view.boundary_lsn <= l < l_tend(t) ==> l_tat(t, l) == l_at(v, l)
{ }

proof fn hl_end(v: LJ, w: LJ, n: nat)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::QueryEndLsn { end_lsn: n })
    ensures w == v, n == l_end(v)
{ }

proof fn hl_tight(t: LT)
    requires t.wf(), t.decodable(), t.disk_view.acyclic()
    ensures ({ let s = t.build_tight();
        &&& l_tend(s) == l_tend(t) &&& s.disk_view.boundary_lsn == t.disk_view.boundary_lsn
        &&& forall|l: nat| t.disk_view.boundary_lsn <= l < l_tend(t) ==> l_tat(s, l) == l_tat(t, l)
        &&& forall|a: Address| s.disk_view.entries.contains_key(a) ==> t.disk_view.entries.contains_key(a) })
{ }

//reach
proof fn hl_can_marshal(v: LJ, w: LJ)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::Internal {}), l_tend(v.truncated_journal) > l_start(v), l_tend(w.truncated_journal) > l_tend(v.truncated_journal)
    ensures false
{ }

//reach
proof fn hl_can_drop_page(v: LJ, w: LJ, n: nat, e: nat)
    requires v.inv(), LinkedJournal::State::next(v, w, LL::DiscardOld { start_lsn: n, require_end: e }), n < l_tend(v.truncated_journal), v.truncated_journal.disk_view.entries.dom() != w.truncated_journal.disk_view.entries.dom()
    ensures false
{ }

} // verus!
