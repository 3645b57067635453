#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*, seq::*};
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::MapSpec_t::*;

use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::journal::LinkedJournal_v::*;
use crate::implementation::JournalModel_v::*;
use crate::implementation::CachedJournal_v::*;

verus! {

type J = CachedJournal::State;
type L = CachedJournal::Label;
type Pages = Map<Address, JournalRecord>;

spec fn hist(h: MsgHistory) -> bool {
    h.seq_start <= h.seq_end && forall|l: nat| h.msgs.dom().contains(l) <==> h.seq_start <= l && l < h.seq_end
}

spec fn ix(j: J, l: nat) -> Address { j.lsn_addr_index[l] }

// the pages behind the index form one unbroken run of records from the boundary to the tail
spec fn good(j: J, w: Pages) -> bool {
    let b = j.boundary_lsn;
    let t = j.unmarshalled_tail;
    &&& hist(t) && b <= t.seq_start
    &&& forall|l: nat| j.lsn_addr_index.dom().contains(l) <==> b <= l && l < t.seq_start
    &&& if b < t.seq_start { j.freshest_rec == Some(ix(j, (t.seq_start - 1) as nat)) } else { j.freshest_rec is None }
    &&& forall|l: nat| b <= l && l < t.seq_start ==> {
        let r = w[ix(j, l)];
        let m = r.message_seq;
        &&& w.dom().contains(ix(j, l)) && hist(m) && m.seq_start <= l < m.seq_end && m.seq_end <= t.seq_start
        &&& b < m.seq_start ==> r.prior_rec == Some(ix(j, (m.seq_start - 1) as nat))
        &&& forall|k: nat| b <= k && k < t.seq_start ==> (ix(j, k) == ix(j, l)) == (m.seq_start <= k && k < m.seq_end)
    }
}

spec fn at(j: J, w: Pages, l: nat) -> KeyedMessage {
    if j.unmarshalled_tail.seq_start <= l { j.unmarshalled_tail.msgs[l] } else { w[ix(j, l)].message_seq.msgs[l] }
}

spec fn lo(j: J) -> nat { j.boundary_lsn }
spec fn hi(j: J) -> nat { j.unmarshalled_tail.seq_end }

// ---- a journal image on disk, read the way a restart reads it: from the newest page backwards
spec fn chain_end(p: Pointer, b: nat, w: Pages) -> nat { match p { Some(a) => w[a].message_seq.seq_end, None => b } }

spec fn chain_page(p: Pointer, b: nat, w: Pages, l: nat, fuel: nat) -> Pointer
    decreases fuel
{
    if fuel == 0 || p is None { None } else {
        let m = w[p.unwrap()].message_seq;
        if l < m.seq_start { if b < m.seq_start { chain_page(w[p.unwrap()].prior_rec, b, w, l, (fuel - 1) as nat) } else { None } } else if l < m.seq_end { p } else { None }
    }
}

spec fn chain_at(p: Pointer, b: nat, w: Pages, l: nat) -> KeyedMessage { w[chain_page(p, b, w, l, 4).unwrap()].message_seq.msgs[l] }

spec fn chain_has(p: Pointer, b: nat, w: Pages, l: nat) -> bool { chain_page(p, b, w, l, 4) is Some && w.dom().contains(chain_page(p, b, w, l, 4).unwrap()) }

//cfgall addrs=[(0, 0), (0, 1), (1, 0)], nat=(0, 3), int=(0, 3), qint=(0, 4), depth=3, maxtick=30000000
proof fn h_put(v: J, w: J, p: Pages, h: MsgHistory)
    requires good(v, p), CachedJournal::State::next(v, w, L::Put { messages: h })
    ensures good(w, p), h.seq_start == hi(v), lo(w) == lo(v), hi(w) == h.seq_end, hi(w) >= hi(v),
        forall|l: nat| lo(v) <= l < hi(v) ==> at(w, p, l) == at(v, p, l), forall|l: nat| hi(v) <= l < hi(w) ==> at(w, p, l) == h.msgs[l]
{ }

proof fn h_discard(v: J, w: J, p: Pages, n: nat, e: nat, x: Set<Address>, a: Address)
    requires good(v, p), CachedJournal::State::next(v, w, L::DiscardOld { start_lsn: n, require_end: e, discard_addrs: x })
    ensures good(w, p), lo(w) == n, lo(v) <= n, n <= v.unmarshalled_tail.seq_start, hi(w) == hi(v), e == v.unmarshalled_tail.seq_start,
        forall|l: nat| n <= l < hi(v) ==> at(w, p, l) == at(v, p, l),
        x.contains(a) == (v.lsn_addr_index.contains_value(a) && !w.lsn_addr_index.contains_value(a))
{ }

// writing out part of the tail: to a page not in use, and nothing is lost or changed
proof fn h_marshal(v: J, w: J, p: Pages, x: Pages, a: Address)
    requires good(v, p), CachedJournal::State::next(v, w, L::JournalMarshal { writes: x }), x.dom().contains(a)
    ensures good(w, p.union_prefer_right(x)), lo(w) == lo(v), hi(w) == hi(v), !v.lsn_addr_index.contains_value(a),
        forall|b: Address| x.dom().contains(b) ==> b == a, w.unmarshalled_tail.seq_start > v.unmarshalled_tail.seq_start,
        forall|l: nat| lo(v) <= l < hi(v) ==> at(w, p.union_prefer_right(x), l) == at(v, p, l)
{ }

proof fn h_end(v: J, w: J, e: nat)
    requires CachedJournal::State::next(v, w, L::QueryEndLsn { end_lsn: e })
    ensures w == v, e == hi(v)
{ }

// what recovery is handed is a part of the journal
proof fn h_recover(v: J, w: J, p: Pages, h: MsgHistory, r: Pages)
    requires good(v, p), CachedJournal::State::next(v, w, L::ReadForRecovery { messages: h, reads: r }), r.submap_of(p)
    ensures w == v, hist(h), lo(v) <= h.seq_start, h.seq_end <= hi(v), h.seq_start < h.seq_end, forall|l: nat| h.seq_start <= l < h.seq_end ==> at(v, p, l) == h.msgs[l]
{ }

// a frozen journal: following it from its newest page meets exactly the records of the journal, on the pages it names
proof fn h_freeze(v: J, w: J, p: Pages, r: Pages, f: JournalSnapShot, x: Set<Address>)
    requires good(v, p), CachedJournal::State::next(v, w, L::FreezeForCommit { frozen: f, frozen_domain: x, reads: r }), r.submap_of(p)
    ensures w == v, lo(v) <= f.boundary_lsn, f.boundary_lsn <= chain_end(f.freshest_rec, f.boundary_lsn, p), chain_end(f.freshest_rec, f.boundary_lsn, p) <= hi(v),
        forall|l: nat| f.boundary_lsn <= l && l < chain_end(f.freshest_rec, f.boundary_lsn, p) ==> chain_has(f.freshest_rec, f.boundary_lsn, p, l)
            && x.contains(chain_page(f.freshest_rec, f.boundary_lsn, p, l, 4).unwrap()) && chain_at(f.freshest_rec, f.boundary_lsn, p, l) == at(v, p, l)
{ }

// a restart from a frozen journal has its records, and an index that finds them
proof fn h_restart(v: J, p: Pages, f: JournalSnapShot, w: J, r: Pages, x: Set<Address>)
    requires good(v, p), CachedJournal::State::next(v, v, L::FreezeForCommit { frozen: f, frozen_domain: x, reads: p }),
        CachedJournal::State::init_by(w, CachedJournal::Config::initialize(r, f)), r == p.restrict(x)
    ensures good(w, r), lo(w) == f.boundary_lsn, hi(w) == chain_end(f.freshest_rec, f.boundary_lsn, p), w.unmarshalled_tail.seq_start == hi(w),
        forall|l: nat| lo(w) <= l < hi(w) ==> at(w, r, l) == at(v, p, l)
{ }

//reach
proof fn h_can_put(v: J, w: J, p: Pages, h: MsgHistory)
    requires good(v, p), CachedJournal::State::next(v, w, L::Put { messages: h }), h.seq_start == 2, h.seq_end == 3, lo(v) == 0, v.unmarshalled_tail.seq_start == 1
    ensures false
{ }

//reach
proof fn h_can_discard(v: J, w: J, p: Pages, n: nat, e: nat, x: Set<Address>, a: Address)
    requires good(v, p), CachedJournal::State::next(v, w, L::DiscardOld { start_lsn: n, require_end: e, discard_addrs: x }), lo(v) < n, n < e, x.contains(a), w.lsn_addr_index[n] != a
    ensures false
{ }

//reach
proof fn h_can_marshal(v: J, w: J, p: Pages, x: Pages, a: Address)
    requires good(v, p), CachedJournal::State::next(v, w, L::JournalMarshal { writes: x }), x.dom().contains(a), w.unmarshalled_tail.seq_start < hi(w), lo(v) < v.unmarshalled_tail.seq_start
    ensures false
{ }

//reach
proof fn h_can_recover(v: J, w: J, p: Pages, h: MsgHistory, r: Pages)
    requires good(v, p), CachedJournal::State::next(v, w, L::ReadForRecovery { messages: h, reads: r }), r.submap_of(p), h.seq_end < v.unmarshalled_tail.seq_start
    ensures false
{ }

//reach
proof fn h_can_freeze(v: J, w: J, p: Pages, r: Pages, f: JournalSnapShot, x: Set<Address>)
    requires good(v, p), CachedJournal::State::next(v, w, L::FreezeForCommit { frozen: f, frozen_domain: x, reads: r }), r.submap_of(p), f.freshest_rec is Some, f.freshest_rec != v.freshest_rec
    ensures false
{ }

//reach
proof fn h_can_restart(v: J, p: Pages, f: JournalSnapShot, w: J, r: Pages, x: Set<Address>)
    requires good(v, p), CachedJournal::State::next(v, v, L::FreezeForCommit { frozen: f, frozen_domain: x, reads: p }),
        CachedJournal::State::init_by(w, CachedJournal::Config::initialize(r, f)), r == p.restrict(x), lo(w) + 1 < hi(w), w.lsn_addr_index[lo(w)] != w.lsn_addr_index[(hi(w) - 1) as nat]
    ensures false
{ }

} // verus!
