#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::journal::LinkedJournal_v;
use crate::journal::LinkedJournal_v::LinkedJournal;
use crate::allocation_layer::MiniAllocator_v::*;
use crate::allocation_layer::LikesJournal_v::LikesJournal;
use crate::allocation_layer::AllocationJournal_v;
use crate::allocation_layer::AllocationJournal_v::AllocationJournal;
use crate::allocation_layer::AllocationCrashAwareJournal_v;
use crate::allocation_layer::AllocationCrashAwareJournal_v::AllocationCrashAwareJournal;
use crate::allocation_layer::UnifiedCrashAwareJournal_v;
use crate::allocation_layer::UnifiedCrashAwareJournal_v::UnifiedCrashAwareJournal;

verus! {

//cfgall depth=4, maxtick=60000000, addrs=[(0,0),(0,1),(1,0)], nat=(0,3), int=(0,3), qint=(0,4)

// ---- pages of allocation units
spec fn taken(m: MiniAllocator, a: Address) -> bool { m.allocs.contains_key(a.au) && (m.allocs[a.au].reserved.contains(a) || m.allocs[a.au].observed.contains(a)) }

proof fn ha_allocate(m: MiniAllocator, a: Address, b: Address)
    requires m.wf(), m.can_allocate(a)
    ensures ({ let n = m.allocate(a);
        &&& n.wf() &&& !taken(m, a) &&& m.allocs.contains_key(a.au) &&& taken(n, a) &&& n.page_is_reserved(a) &&& !n.can_allocate(a)
        &&& a != b ==> n.can_allocate(b) == m.can_allocate(b) && n.page_is_reserved(b) == m.page_is_reserved(b) && taken(n, b) == taken(m, b)
        &&& n.all_aus() =~= m.all_aus() })
{ }

//reach
proof fn ha_can_allocate(m: MiniAllocator, a: Address, b: Address)
    requires m.wf(), m.can_allocate(a), taken(m, b), a.au == b.au, m.curr is None
    ensures false
{ }

proof fn ha_observe(m: MiniAllocator, a: Address, b: Address)
    requires m.wf(), m.page_is_reserved(a)
    ensures ({ let n = m.observe(a);
        &&& n.wf() &&& taken(n, a) &&& n.page_is_reserved(b) == m.page_is_reserved(b) &&& n.can_allocate(b) == m.can_allocate(b) &&& taken(n, b) == taken(m, b)
        &&& n.all_aus() =~= m.all_aus() &&& n.curr == m.curr })
{ }

proof fn ha_add(m: MiniAllocator, s: Set<AU>, b: Address)
    requires m.wf()
    ensures ({ let n = m.add_aus(s);
        &&& n.wf() &&& n.all_aus() =~= m.all_aus() + s &&& n.curr == m.curr &&& taken(n, b) == taken(m, b)
        &&& n.can_allocate(b) == (m.can_allocate(b) || s.contains(b.au) && !m.allocs.contains_key(b.au) && b.wf()) })
{ }

proof fn ha_prune(m: MiniAllocator, s: Set<AU>, b: Address)
    requires m.wf()
    ensures ({ let n = m.prune(s);
        &&& n.wf() &&& n.all_aus() =~= m.all_aus().difference(s)
        &&& n.can_allocate(b) == (m.can_allocate(b) && !s.contains(b.au)) &&& taken(n, b) == (taken(m, b) && !s.contains(b.au))
        &&& n.curr is Some ==> !s.contains(n.curr.unwrap()) && n.curr == m.curr })
{ }

proof fn ha_removable(m: MiniAllocator, a: Address)
    requires m.wf()
    ensures m.removable_aus().contains(a.au) ==> m.can_remove(a.au) && !m.page_is_reserved(a),
        m.page_is_reserved(a) ==> m.reserved_aus().contains(a.au),
        forall|u: AU| m.all_aus().contains(u) ==> m.removable_aus().contains(u) != m.reserved_aus().contains(u)
{ }

// ---- what the log holds, read page by page
spec fn l_page(t: LinkedJournal_v::DiskView, p: Pointer, l: nat, fuel: nat) -> Option<Address>
    decreases fuel
{
    if fuel == 0 || p is None || !t.entries.contains_key(p.unwrap()) { None } else {
        let e = t.entries[p.unwrap()];
        if l < t.boundary_lsn || e.message_seq.seq_end <= l { None }
        else if e.message_seq.seq_start <= l { p }
        else { l_page(t, e.prior_rec, l, (fuel - 1) as nat) }
    }
}
type LT = LinkedJournal_v::TruncatedJournal;
type LJ = LinkedJournal::State;
spec fn tend(t: LT) -> nat { match t.freshest_rec { Some(a) => t.disk_view.entries[a].message_seq.seq_end, None => t.disk_view.boundary_lsn } }
spec fn page(t: LT, l: nat) -> Option<Address> { l_page(t.disk_view, t.freshest_rec, l, 4) }
spec fn tat(t: LT, l: nat) -> Option<KeyedMessage> { match page(t, l) { Some(a) => Some(t.disk_view.entries[a].message_seq.msgs[l]), None => None } }
spec fn at(v: LJ, l: nat) -> Option<KeyedMessage> { if v.unmarshalled_tail.seq_start <= l { Some(v.unmarshalled_tail.msgs[l]) } else { tat(v.truncated_journal, l) } }
spec fn start(v: LJ) -> nat { v.truncated_journal.disk_view.boundary_lsn }
spec fn end(v: LJ) -> nat { v.unmarshalled_tail.seq_end }
spec fn same(v: LJ, w: LJ) -> bool { start(v) == start(w) && end(v) == end(w) && forall|l: nat| start(v) <= l < end(v) ==> at(w, l) == at(v, l) }

// ---- the index of pages
type KJ = LikesJournal::State;
type KL = LikesJournal::Label;
spec fn k_indexed(v: KJ) -> bool {
    forall|l: nat| #[trigger] v.lsn_addr_index.contains_key(l) <==> start(v.journal) <= l < tend(v.journal.truncated_journal)
}
spec fn k_exact(v: KJ) -> bool {
    forall|l: nat| start(v.journal) <= l < tend(v.journal.truncated_journal) ==> Some(v.lsn_addr_index[l]) == page(v.journal.truncated_journal, l)
}

proof fn hk_inv(v: KJ)
    requires v.inv()
    ensures k_indexed(v), k_exact(v)
{ }

proof fn hk_put(v: KJ, w: KJ, h: MsgHistory)
    requires v.inv(), LikesJournal::State::next(v, w, KL::Put { messages: h })
    ensures k_indexed(w), k_exact(w), end(v.journal) == h.seq_start, end(w.journal) == h.seq_end, start(w.journal) == start(v.journal),
        forall|l: nat| start(v.journal) <= l < end(v.journal) ==> at(w.journal, l) == at(v.journal, l),
        forall|l: nat| h.seq_start <= l < h.seq_end ==> at(w.journal, l) == Some(h.msgs[l])
{ }

proof fn hk_internal(v: KJ, w: KJ)
    requires v.inv(), LikesJournal::State::next(v, w, KL::Internal {})
    ensures k_indexed(w), k_exact(w), same(v.journal, w.journal),
        forall|a: Address| #[trigger] v.journal.truncated_journal.disk_view.entries.contains_key(a) ==> w.journal.truncated_journal.disk_view.entries.contains_key(a)
            && w.journal.truncated_journal.disk_view.entries[a] == v.journal.truncated_journal.disk_view.entries[a]
{ }

proof fn hk_discard(v: KJ, w: KJ, n: nat, e: nat)
    requires v.inv(), LikesJournal::State::next(v, w, KL::DiscardOld { start_lsn: n, require_end: e })
    ensures k_indexed(w), k_exact(w), start(w.journal) == n, end(w.journal) == end(v.journal), start(v.journal) <= n <= end(v.journal),
        forall|l: nat| n <= l < end(v.journal) ==> at(w.journal, l) == at(v.journal, l)
{ }

proof fn hk_freeze(v: KJ, w: KJ, t: LT)
    requires v.inv(), LikesJournal::State::next(v, w, KL::FreezeForCommit { frozen_journal: t })
    ensures w == v, start(v.journal) <= t.disk_view.boundary_lsn, tend(t) <= tend(v.journal.truncated_journal), t.disk_view.boundary_lsn <= tend(t),
        forall|l: nat| t.disk_view.boundary_lsn <= l < tend(t) ==> tat(t, l) == at(v.journal, l) && tat(t, l) is Some
{ }

proof fn hk_read(v: KJ, w: KJ, h: MsgHistory)
    requires v.inv(), LikesJournal::State::next(v, w, KL::ReadForRecovery { messages: h })
    ensures w == v, start(v.journal) <= h.seq_start, h.seq_end <= end(v.journal), forall|l: nat| h.seq_start <= l < h.seq_end ==> at(v.journal, l) == Some(h.msgs[l])
{ }

// ---- allocation units
type AJ = AllocationJournal::State;
type AL = AllocationJournal::Label;
type Img = AllocationJournal_v::JournalImage;
spec fn tj(v: AJ) -> LT { v.journal.truncated_journal }
// the units that hold an entry of a log
spec fn live(t: LT, u: AU) -> bool { exists|l: nat| t.disk_view.boundary_lsn <= l < tend(t) && #[trigger] page(t, l) is Some && page(t, l).unwrap().au == u }
// a page that was handed out is never thought unreferenced (holds at the start, see hj_init)
spec fn resv(m: MiniAllocator) -> bool { forall|u: AU, a: Address| m.allocs.contains_key(u) && #[trigger] m.allocs[u].observed.contains(a) ==> m.allocs[u].reserved.contains(a) }
spec fn j_exact(v: AJ) -> bool {
    forall|l: nat| start(v.journal) <= l < tend(tj(v)) ==> v.lsn_au_index.contains_key(l) && page(tj(v), l) is Some && v.lsn_au_index[l] == page(tj(v), l).unwrap().au
}
spec fn j_only(v: AJ) -> bool { forall|l: nat| #[trigger] v.lsn_au_index.contains_key(l) ==> start(v.journal) <= l < tend(tj(v)) }
spec fn held(v: AJ, u: AU) -> bool { v.mini_allocator.allocs.contains_key(u) || live(tj(v), u) }
spec fn kept(v: LT, w: LT) -> bool { forall|a: Address| #[trigger] v.disk_view.entries.contains_key(a) ==> w.disk_view.entries.contains_key(a) && w.disk_view.entries[a] == v.disk_view.entries[a] }

proof fn hj_init(w: AJ, j: LJ, i: Img)
    requires AllocationJournal::State::init_by(w, AllocationJournal::Config::initialize(j, i))
    ensures resv(w.mini_allocator), j_exact(w), j_only(w), tj(w) == i.tj, end(w.journal) == tend(i.tj)
{ }

proof fn hj_inv(v: AJ)
    requires v.inv()
    ensures j_exact(v), j_only(v)
{ }

proof fn hj_put(v: AJ, w: AJ, h: MsgHistory)
    requires v.inv(), resv(v.mini_allocator), AllocationJournal::State::next(v, w, AL::Put { messages: h })
    ensures resv(w.mini_allocator), j_exact(w), j_only(w), end(v.journal) == h.seq_start, end(w.journal) == h.seq_end, start(w.journal) == start(v.journal),
        tj(w) == tj(v), w.mini_allocator == v.mini_allocator,
        forall|l: nat| start(v.journal) <= l < end(v.journal) ==> at(w.journal, l) == at(v.journal, l),
        forall|l: nat| h.seq_start <= l < h.seq_end ==> at(w.journal, l) == Some(h.msgs[l])
{ }

// writing a page, or taking or giving back units: the log stays, no live page is overwritten, no live unit is given back
proof fn hj_internal(v: AJ, w: AJ, al: Set<AU>, de: Set<AU>)
    requires v.inv(), resv(v.mini_allocator), AllocationJournal::State::next(v, w, AL::InternalAllocations { allocs: al, deallocs: de })
    ensures resv(w.mini_allocator), j_exact(w), j_only(w), same(v.journal, w.journal), kept(tj(v), tj(w)),
        forall|u: AU| de.contains(u) ==> !live(tj(v), u) && !live(tj(w), u),
        forall|u: AU| al.contains(u) ==> !live(tj(v), u),
        forall|u: AU| held(w, u) <==> (held(v, u) || al.contains(u)) && !de.contains(u)
{ }

//reach
proof fn hj_can_marshal(v: AJ, w: AJ)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::InternalAllocations { allocs: Set::empty(), deallocs: Set::empty() }), tend(tj(v)) > start(v.journal), tend(tj(w)) > tend(tj(v))
    ensures false
{ }

proof fn hj_discard(v: AJ, w: AJ, n: nat, e: nat, de: Set<AU>)
    requires v.inv(), resv(v.mini_allocator), AllocationJournal::State::next(v, w, AL::DiscardOld { start_lsn: n, require_end: e, deallocs: de })
    ensures resv(w.mini_allocator), j_exact(w), j_only(w), start(w.journal) == n, end(w.journal) == end(v.journal), start(v.journal) <= n <= end(v.journal),
        forall|l: nat| n <= l < end(v.journal) ==> at(w.journal, l) == at(v.journal, l),
        forall|u: AU| de.contains(u) ==> !live(tj(w), u) && !w.mini_allocator.allocs.contains_key(u) && live(tj(v), u),
        forall|u: AU| held(v, u) && !de.contains(u) ==> held(w, u)
{ }

//reach
proof fn hj_can_discard(v: AJ, w: AJ, n: nat, e: nat)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::DiscardOld { start_lsn: n, require_end: e, deallocs: set![0] }), start(v.journal) < n, n < tend(tj(v))
    ensures false
{ }

proof fn hj_freeze(v: AJ, w: AJ, i: Img)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::FreezeForCommit { frozen_journal: i })
    ensures w == v, start(v.journal) <= i.tj.disk_view.boundary_lsn, tend(i.tj) <= tend(tj(v)),
        forall|l: nat| i.tj.disk_view.boundary_lsn <= l < tend(i.tj) ==> tat(i.tj, l) == at(v.journal, l) && tat(i.tj, l) is Some,
        i.tj.disk_view.boundary_lsn < tend(i.tj) ==> i.first == page(i.tj, i.tj.disk_view.boundary_lsn).unwrap().au
{ }

//reach
proof fn hj_can_freeze(v: AJ, w: AJ, i: Img)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::FreezeForCommit { frozen_journal: i }), start(v.journal) < i.tj.disk_view.boundary_lsn, i.tj.disk_view.boundary_lsn < tend(i.tj)
    ensures false
{ }

proof fn hj_read(v: AJ, w: AJ, h: MsgHistory)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::ReadForRecovery { messages: h })
    ensures w == v, start(v.journal) <= h.seq_start, h.seq_end <= end(v.journal), forall|l: nat| h.seq_start <= l < h.seq_end ==> at(v.journal, l) == Some(h.msgs[l])
{ }

proof fn hj_end(v: AJ, w: AJ, n: nat)
    requires v.inv(), AllocationJournal::State::next(v, w, AL::QueryEndLsn { end_lsn: n })
    ensures w == v, n == end(v.journal)
{ }

// ---- the durable image, the one in flight, and crashes
type CJ = AllocationCrashAwareJournal::State;
type CL = AllocationCrashAwareJournal::Label;
type CE = AllocationCrashAwareJournal_v::Ephemeral;

proof fn hc_load(v: CJ, w: CJ)
    requires v.inv(), AllocationCrashAwareJournal::State::next(v, w, CL::LoadEphemeralFromPersistent {})
    ensures w.persistent == v.persistent, w.inflight == v.inflight, v.ephemeral is Unknown, w.ephemeral is Known, tj(w.ephemeral->v) == v.persistent.tj,
        end(w.ephemeral->v.journal) == tend(v.persistent.tj)
{ }

proof fn hc_put(v: CJ, w: CJ, h: MsgHistory)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::Put { records: h })
    ensures w.persistent == v.persistent, w.inflight == v.inflight, v.ephemeral is Known, w.ephemeral is Known, end(v.ephemeral->v.journal) == h.seq_start, end(w.ephemeral->v.journal) == h.seq_end
{ }

proof fn hc_internal(v: CJ, w: CJ, al: Set<AU>, de: Set<AU>)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::Internal { allocs: al, deallocs: de })
    ensures w.persistent == v.persistent, w.inflight == v.inflight, v.ephemeral is Known, w.ephemeral is Known, end(v.ephemeral->v.journal) == end(w.ephemeral->v.journal),
        start(v.ephemeral->v.journal) == start(w.ephemeral->v.journal),
        forall|a: Address| #[trigger] v.persistent.tj.disk_view.entries.contains_key(a) ==> !al.contains(a.au),
        v.inflight is Some ==> forall|a: Address| #[trigger] v.inflight.unwrap().tj.disk_view.entries.contains_key(a) ==> !al.contains(a.au)
{ }

proof fn hc_durable(v: CJ, w: CJ, n: nat)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::QueryLsnPersistence { sync_lsn: n })
    ensures w == v, n <= v.persistent.tj.seq_end()
{ }

proof fn hc_commit_start(v: CJ, w: CJ, b: nat, m: nat)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::CommitStart { new_boundary_lsn: b, max_lsn: m })
    ensures w.persistent == v.persistent, w.ephemeral == v.ephemeral, v.inflight is None, w.inflight is Some, v.ephemeral is Known,
        w.inflight.unwrap().tj.disk_view.boundary_lsn == b, b <= m, w.inflight.unwrap().tj.seq_end() >= v.persistent.tj.seq_end()
{ }

//cfg depth=3
proof fn hc_commit_start_contents(v: CJ, w: CJ, b: nat, m: nat)
    requires v.ephemeral is Known, v.ephemeral->v.inv(), AllocationCrashAwareJournal::State::next(v, w, CL::CommitStart { new_boundary_lsn: b, max_lsn: m })
    ensures ({ let i = w.inflight.unwrap();
        &&& start(v.ephemeral->v.journal) <= b &&& tend(i.tj) <= tend(tj(v.ephemeral->v))
        &&& forall|l: nat| b <= l < tend(i.tj) ==> tat(i.tj, l) == at(v.ephemeral->v.journal, l) && tat(i.tj, l) is Some })
{ }

proof fn hc_commit_complete(v: CJ, w: CJ, e: nat, d: Set<AU>)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::CommitComplete { require_end: e, discarded: d })
    ensures v.inflight is Some, w.persistent == v.inflight.unwrap(), w.inflight is None, v.ephemeral is Known, w.ephemeral is Known,
        e == end(v.ephemeral->v.journal), start(w.ephemeral->v.journal) == v.inflight.unwrap().tj.disk_view.boundary_lsn, end(w.ephemeral->v.journal) == e
{ }

proof fn hc_crash(v: CJ, w: CJ, k: bool)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::Crash { keep_in_flight: k })
    ensures w.ephemeral is Unknown, w.inflight is None, w.persistent == (if k && v.inflight is Some { v.inflight.unwrap() } else { v.persistent })
{ }

proof fn hc_observe(v: CJ, w: CJ, h: MsgHistory, n: nat)
    requires AllocationCrashAwareJournal::State::next(v, w, CL::ReadForRecovery { records: h }) || AllocationCrashAwareJournal::State::next(v, w, CL::QueryEndLsn { end_lsn: n })
    ensures w == v, v.ephemeral is Known
{ }

// ---- one shared disk
type UJ = UnifiedCrashAwareJournal::State;
type UL = UnifiedCrashAwareJournal::Label;
type UI = UnifiedCrashAwareJournal_v::ImageState;
spec fn utj(i: UI, d: UnifiedCrashAwareJournal_v::DiskView) -> LT { LinkedJournal_v::TruncatedJournal { freshest_rec: i.freshest_rec, disk_view: LinkedJournal_v::DiskView { boundary_lsn: i.boundary_lsn, entries: d.entries } } }
// an image reads the same from two disks
spec fn reads_same(i: UI, d: UnifiedCrashAwareJournal_v::DiskView, e: UnifiedCrashAwareJournal_v::DiskView) -> bool {
    tend(utj(i, d)) == tend(utj(i, e)) && forall|l: nat| i.boundary_lsn <= l < tend(utj(i, d)) ==> tat(utj(i, e), l) == tat(utj(i, d), l) && tat(utj(i, d), l) is Some
}
spec fn unext(v: UJ, w: UJ, l: UL) -> bool { UnifiedCrashAwareJournal::State::next(v, w, l) }

proof fn hu_load(v: UJ, w: UJ)
    requires v.inv(), unext(v, w, UL::LoadEphemeralFromPersistent {})
    ensures w.persistent == v.persistent, w.inflight == v.inflight, v.ephemeral is Unknown, w.ephemeral is Known, reads_same(v.persistent, v.dv, w.dv),
        w.ephemeral->v.image == v.persistent, w.ephemeral->v.unmarshalled_tail.seq_end == tend(utj(v.persistent, v.dv))
{ }

proof fn hu_put(v: UJ, w: UJ, h: MsgHistory)
    requires v.inv(), unext(v, w, UL::Put { records: h })
    ensures w.persistent == v.persistent, w.inflight == v.inflight, w.dv == v.dv, w.ephemeral is Known, v.ephemeral is Known, w.ephemeral->v.image == v.ephemeral->v.image,
        v.ephemeral->v.unmarshalled_tail.seq_end == h.seq_start, w.ephemeral->v.unmarshalled_tail.seq_end == h.seq_end
{ }

proof fn hu_internal(v: UJ, w: UJ, al: Set<AU>, de: Set<AU>)
    requires v.inv(), unext(v, w, UL::Internal { allocs: al, deallocs: de })
    ensures w.persistent == v.persistent, w.inflight == v.inflight, reads_same(v.persistent, v.dv, w.dv), v.inflight is Some ==> reads_same(v.inflight.unwrap(), v.dv, w.dv),
        same(v.ephemeral->v.to_lj(v.dv), w.ephemeral->v.to_lj(w.dv))
{ }

proof fn hu_commit_start(v: UJ, w: UJ, b: nat, m: nat)
    requires v.inv(), unext(v, w, UL::CommitStart { new_boundary_lsn: b, max_lsn: m })
    ensures w.persistent == v.persistent, w.ephemeral == v.ephemeral, w.dv == v.dv, v.inflight is None, w.inflight is Some, b <= m, v.ephemeral is Known,
        ({ let i = w.inflight.unwrap(); let j = v.ephemeral->v.to_lj(v.dv);
            &&& i.boundary_lsn == b &&& start(j) <= b &&& tend(utj(v.persistent, v.dv)) <= tend(utj(i, v.dv)) <= tend(j.truncated_journal)
            &&& forall|l: nat| b <= l < tend(utj(i, v.dv)) ==> tat(utj(i, v.dv), l) == at(j, l) && tat(utj(i, v.dv), l) is Some })
{ }

//reach
proof fn hu_can_commit_start(v: UJ, w: UJ, b: nat, m: nat)
    requires v.inv(), unext(v, w, UL::CommitStart { new_boundary_lsn: b, max_lsn: m }), w.inflight.unwrap().freshest_rec is Some, w.inflight.unwrap().boundary_lsn > v.persistent.boundary_lsn
    ensures false
{ }

// the new durable image is whole on the disk that is left, and nothing it needs was released
proof fn hu_commit_complete(v: UJ, w: UJ, e: nat, d: Set<AU>)
    requires v.inv(), unext(v, w, UL::CommitComplete { require_end: e, discarded: d })
    ensures v.inflight is Some, w.persistent == v.inflight.unwrap(), w.inflight is None, w.ephemeral is Known, reads_same(w.persistent, v.dv, w.dv),
        forall|u: AU| d.contains(u) ==> !live(utj(w.persistent, v.dv), u)
{ }

//reach
proof fn hu_can_complete(v: UJ, w: UJ, e: nat, d: Set<AU>)
    requires v.inv(), unext(v, w, UL::CommitComplete { require_end: e, discarded: d }), d.contains(0), w.persistent.freshest_rec is Some
    ensures false
{ }

//reach
proof fn hu_can_write(v: UJ, w: UJ)
    requires v.inv(), unext(v, w, UL::Internal { allocs: Set::empty(), deallocs: Set::empty() }), v.inflight is Some, v.inflight.unwrap().freshest_rec is Some, v.dv != w.dv, v.persistent.freshest_rec is Some
    ensures false
{ }

proof fn hu_crash(v: UJ, w: UJ, k: bool)
    requires unext(v, w, UL::Crash { keep_in_flight: k })
    ensures w.ephemeral is Unknown, w.inflight is None, w.dv == v.dv, w.persistent == (if k && v.inflight is Some { v.inflight.unwrap() } else { v.persistent })
{ }

proof fn hu_durable(v: UJ, w: UJ, n: nat)
    requires v.inv(), unext(v, w, UL::QueryLsnPersistence { sync_lsn: n })
    ensures w == v, n <= tend(utj(v.persistent, v.dv))
{ }

proof fn hu_observe(v: UJ, w: UJ, h: MsgHistory, n: nat)
    requires unext(v, w, UL::ReadForRecovery { records: h }) || unext(v, w, UL::QueryEndLsn { end_lsn: n })
    ensures w == v, v.ephemeral is Known
{ }

} // verus!
