#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*, seq::*};
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::MapSpec_t::*;
use crate::spec::AsyncDisk_t::{AsyncDisk, Disk, DiskRequest, DiskResponse, RawPage};
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::journal::LinkedJournal_v::*;
use crate::implementation::JournalModel_v::*;
use crate::implementation::CachedJournal_v::*;
use crate::implementation::Cache_v::*;
use crate::implementation::JournalCoordinationSystem_v::*;

verus! {

type C = Cache::State;
type D = AsyncDisk::State;
type J = CachedJournal::State;
type Pages = Map<Address, JournalRecord>;
type S = JournalCoordinationSystem::State;
type L = JournalCoordinationSystem::Label;

// ---- what stands for the page format the sources leave open: [first, count, prior, record, record]
spec fn enc_kv(m: KeyedMessage) -> u8 {
    if m.key.0 == 0 { if m.message->value.0 == 0 { 0u8 } else { 1u8 } } else { if m.message->value.0 == 0 { 2u8 } else { 3u8 } }
}

spec fn dec_kv(b: u8) -> KeyedMessage {
    KeyedMessage { key: Key(if b < 2 { 0u64 } else { 1u64 }), message: Message::Define { value: Value(if b == 0 || b == 2 { 0u64 } else { 1u64 }) } }
}

spec fn small(n: nat) -> u8 { if n == 0 { 0u8 } else if n == 1 { 1u8 } else if n == 2 { 2u8 } else { 3u8 } }

spec fn enc_ptr(p: Pointer) -> u8 {
    match p { None => 0u8, Some(a) => if a.au == 1 { 3u8 } else if a.page == 0 { 1u8 } else { 2u8 } }
}

spec fn dec_ptr(b: u8) -> Pointer {
    if b == 0 { None } else if b == 1 { Some(Address { au: 0, page: 0 }) } else if b == 2 { Some(Address { au: 0, page: 1 }) } else { Some(Address { au: 1, page: 0 }) }
}

spec fn enc(r: JournalRecord) -> RawPage {
    let m = r.message_seq;
    seq![small(m.seq_start), small((m.seq_end - m.seq_start) as nat), enc_ptr(r.prior_rec), enc_kv(m.msgs[m.seq_start]), if m.seq_start + 1 < m.seq_end { enc_kv(m.msgs[m.seq_start + 1]) } else { 0u8 }]
}

spec fn dec(p: RawPage) -> JournalRecord {
    let s = p[0] as nat;
    let n = if p[1] >= 2 { 2nat } else { 1nat };
    JournalRecord { message_seq: MsgHistory { msgs: Map::new(|l: nat| s <= l && l < s + n, |l: nat| dec_kv(if l == s { p[3] } else { p[4] })), seq_start: s, seq_end: s + n }, prior_rec: dec_ptr(p[2]) }
}

spec fn plain(h: MsgHistory) -> bool { forall|l: nat| h.msgs.dom().contains(l) ==> h.msgs[l].message is Define }

//cfgall subst={"System_v::record_to_raw_page": "lib::vharness_jcoord::enc", "System_v::raw_page_to_record": "lib::vharness_jcoord::dec"}, addrs=[(0, 0), (0, 1), (1, 0)], nat=(0, 3), int=(0, 3), qint=(0, 4), depth=3, seq=5, cseq=0, byte=(0, 3), maxuniv=6000, maxtick=60000000
proof fn h_codec(r: JournalRecord)
    requires hist(r.message_seq), plain(r.message_seq), r.message_seq.seq_start < r.message_seq.seq_end, r.message_seq.seq_end <= r.message_seq.seq_start + 2, r.message_seq.seq_start <= 3
    ensures dec(enc(r)).prior_rec == r.prior_rec, dec(enc(r)).message_seq.seq_start == r.message_seq.seq_start, dec(enc(r)).message_seq.seq_end == r.message_seq.seq_end, dec(enc(r)).message_seq.msgs =~= r.message_seq.msgs
{ }

// ---- the cache with its disk, as one state; w: what each page is supposed to contain
spec fn present(c: C, s: Slot) -> bool { c.entries.dom().contains(s) && !(c.entries[s] is Empty) }

spec fn addr_of(e: Entry) -> Address {
    match e { Entry::Reserved { addr } => addr, Entry::Loading { addr } => addr, Entry::Filled { addr, data } => addr, Entry::Empty => arbitrary() }
}

// a page lives in at most one slot, and is found there
spec fn table(c: C) -> bool {
    &&& c.status_map.dom() =~= c.entries.dom()
    &&& forall|s: Slot| present(c, s) ==> c.lookup_map.dom().contains(addr_of(c.entries[s])) && c.lookup_map[addr_of(c.entries[s])] == s
    &&& forall|a: Address| c.lookup_map.dom().contains(a) ==> present(c, c.lookup_map[a]) && addr_of(c.entries[c.lookup_map[a]]) == a
    &&& forall|s: Slot| c.entries.dom().contains(s) ==> ((c.status_map[s] is NotFilled) == !(c.entries[s] is Filled))
}

// what is under way at the disk is what the cache waits for
spec fn transit(c: C, d: D) -> bool {
    &&& c.outstanding_reqs.dom() =~= d.requests.dom().union(d.responses.dom())
    &&& forall|i: ID| !(d.requests.dom().contains(i) && d.responses.dom().contains(i))
    &&& forall|i: ID, j: ID| c.outstanding_reqs.dom().contains(i) && c.outstanding_reqs.dom().contains(j) && i != j ==> c.outstanding_reqs[i] != c.outstanding_reqs[j]
    &&& forall|i: ID| c.outstanding_reqs.dom().contains(i) ==> present(c, c.outstanding_reqs[i]) && (c.entries[c.outstanding_reqs[i]] is Loading
        || c.entries[c.outstanding_reqs[i]] is Filled && c.status_map[c.outstanding_reqs[i]] is Writeback)
    &&& forall|s: Slot| c.entries.dom().contains(s) && (c.entries[s] is Loading || c.status_map[s] is Writeback) ==> exists|i: ID| #![auto] c.outstanding_reqs.dom().contains(i) && c.outstanding_reqs[i] == s
    &&& forall|i: ID| d.requests.dom().contains(i) ==> {
        let e = c.entries[c.outstanding_reqs[i]];
        if e is Loading { d.requests[i] == (DiskRequest::ReadReq { from: addr_of(e) }) } else { d.requests[i] == (DiskRequest::WriteReq { to: addr_of(e), data: e->data }) }
    }
}

spec fn true_page(c: C, d: D, w: Disk, a: Address) -> bool {
    if c.lookup_map.dom().contains(a) && c.entries[c.lookup_map[a]] is Filled {
        let s = c.lookup_map[a];
        &&& c.entries[s]->data == w[a]
        &&& c.status_map[s] is Clean ==> d.content[a] == w[a]
    } else { d.content[a] == w[a] }
}

spec fn answers(c: C, d: D, w: Disk) -> bool {
    forall|i: ID| d.responses.dom().contains(i) ==> {
        let e = c.entries[c.outstanding_reqs[i]];
        if e is Loading { d.responses[i] == (DiskResponse::ReadResp { data: w[addr_of(e)] }) }
        else { d.responses[i] == (DiskResponse::WriteResp {  }) && d.content[addr_of(e)] == w[addr_of(e)] }
    }
}

spec fn cgood(c: C, d: D, w: Disk) -> bool {
    &&& table(c)
    &&& transit(c, d)
    &&& forall|a: Address| d.content.dom().contains(a) && w.dom().contains(a)
    &&& forall|a: Address| true_page(c, d, w, a)
    &&& answers(c, d, w)
}

spec fn hist(h: MsgHistory) -> bool {
    h.seq_start <= h.seq_end && forall|l: nat| h.msgs.dom().contains(l) <==> h.seq_start <= l && l < h.seq_end
}

spec fn ix(j: J, l: nat) -> Address { j.lsn_addr_index[l] }

// the pages behind the index form one unbroken run of records from the boundary to the tail
spec fn jgood(j: J, w: Pages) -> bool {
    let b = j.boundary_lsn;
    let t = j.unmarshalled_tail;
    &&& hist(t) && b <= t.seq_start
    &&& forall|l: nat| j.lsn_addr_index.dom().contains(l) <==> b <= l && l < t.seq_start
    &&& if b < t.seq_start { j.freshest_rec == Some(ix(j, (t.seq_start - 1) as nat)) } else { j.freshest_rec is None }
    &&& forall|l: nat| b <= l && l < t.seq_start ==> {
        let r = w[ix(j, l)];
        let m = r.message_seq;
        &&& w.dom().contains(ix(j, l)) && hist(m) && m.seq_start <= l < m.seq_end && m.seq_end <= t.seq_start
        &&& b < m.seq_start ==> r.prior_rec == Some(ix(j, (m.seq_start - 1) as nat))
        &&& forall|k: nat| b <= k && k < t.seq_start ==> (ix(j, k) == ix(j, l)) == (m.seq_start <= k && k < m.seq_end)
    }
}

spec fn at(j: J, w: Pages, l: nat) -> KeyedMessage {
    if j.unmarshalled_tail.seq_start <= l { j.unmarshalled_tail.msgs[l] } else { w[ix(j, l)].message_seq.msgs[l] }
}

spec fn lo(j: J) -> nat { j.boundary_lsn }
spec fn hi(j: J) -> nat { j.unmarshalled_tail.seq_end }

// ---- a journal image on disk, read the way a restart reads it: from the newest page backwards
spec fn chain_end(p: Pointer, b: nat, w: Pages) -> nat { match p { Some(a) => w[a].message_seq.seq_end, None => b } }

spec fn chain_page(p: Pointer, b: nat, w: Pages, l: nat, fuel: nat) -> Pointer
    decreases fuel
{
    if fuel == 0 || p is None { None } else {
        let m = w[p.unwrap()].message_seq;
        if l < m.seq_start { if b < m.seq_start { chain_page(w[p.unwrap()].prior_rec, b, w, l, (fuel - 1) as nat) } else { None } } else if l < m.seq_end { p } else { None }
    }
}

spec fn chain_at(p: Pointer, b: nat, w: Pages, l: nat) -> KeyedMessage { w[chain_page(p, b, w, l, 4).unwrap()].message_seq.msgs[l] }

spec fn chain_has(p: Pointer, b: nat, w: Pages, l: nat) -> bool { chain_page(p, b, w, l, 4) is Some && w.dom().contains(chain_page(p, b, w, l, 4).unwrap()) }


spec fn pages(w: Disk) -> Pages { Map::new(|a: Address| w.dom().contains(a), |a: Address| raw_page_to_record(w[a])) }

spec fn good(s: S, w: Disk) -> bool {
    &&& cgood(s.cache, s.disk, w)
    &&& jgood(s.journal, pages(w))
    &&& forall|a: Address| w[a].len() == 5
    &&& plain(s.journal.unmarshalled_tail) && s.journal.unmarshalled_tail.seq_end <= s.journal.unmarshalled_tail.seq_start + 2
}

spec fn on(s: S, w: Disk, l: nat) -> KeyedMessage { at(s.journal, pages(w), l) }

// the image a frozen journal names is on the disk, and nothing under way will touch it
spec fn image(s: S, w: Disk, x: Set<Address>) -> bool {
    forall|a: Address| x.contains(a) ==> s.journal.lsn_addr_index.contains_value(a) && s.disk.content[a] == w[a]
        && (s.cache.lookup_map.dom().contains(a) ==> !(s.cache.status_map[s.cache.lookup_map[a]] is Dirty || s.cache.status_map[s.cache.lookup_map[a]] is Writeback))
}

proof fn h_put(s: S, t: S, w: Disk, h: MsgHistory)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::Put { messages: h }), plain(h), h.seq_end <= s.journal.unmarshalled_tail.seq_start + 2
    ensures good(t, w), t.cache == s.cache, t.disk == s.disk, lo(t.journal) == lo(s.journal), h.seq_start == hi(s.journal), hi(t.journal) == h.seq_end,
        forall|l: nat| lo(s.journal) <= l < hi(s.journal) ==> on(t, w, l) == on(s, w, l), forall|l: nat| h.seq_start <= l < h.seq_end ==> on(t, w, l) == h.msgs[l]
{ }

proof fn h_end(s: S, t: S, w: Disk, e: nat)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::QueryEndLsn { end_lsn: e })
    ensures t == s, e == hi(s.journal)
{ }

proof fn h_discard(s: S, t: S, w: Disk, n: nat, e: nat)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::DiscardOld { start_lsn: n, require_end: e })
    ensures good(t, w), t.cache == s.cache, t.disk == s.disk, lo(t.journal) == n, lo(s.journal) <= n, hi(t.journal) == hi(s.journal),
        forall|l: nat| n <= l < hi(s.journal) ==> on(t, w, l) == on(s, w, l)
{ }

proof fn h_recover(s: S, t: S, w: Disk, h: MsgHistory)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::ReadForRecovery { messages: h })
    ensures t == s, hist(h), lo(s.journal) <= h.seq_start, h.seq_start < h.seq_end, h.seq_end <= hi(s.journal), forall|l: nat| h.seq_start <= l < h.seq_end ==> on(s, w, l) == h.msgs[l]
{ }

// a frozen journal can be read back from the disk alone
proof fn h_freeze(s: S, t: S, w: Disk, f: JournalSnapShot, l: nat)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::FreezeForCommit { frozen: f })
    ensures t == s, lo(s.journal) <= f.boundary_lsn, chain_end(f.freshest_rec, f.boundary_lsn, pages(s.disk.content)) <= hi(s.journal),
        f.boundary_lsn <= chain_end(f.freshest_rec, f.boundary_lsn, pages(s.disk.content)),
        f.boundary_lsn <= l && l < chain_end(f.freshest_rec, f.boundary_lsn, pages(s.disk.content)) ==>
            chain_has(f.freshest_rec, f.boundary_lsn, pages(s.disk.content), l) && chain_at(f.freshest_rec, f.boundary_lsn, pages(s.disk.content), l) == on(s, w, l)
{ }

// pages move between memory and disk: the journal does not notice, and an image on the disk stays there
proof fn h_pages(s: S, t: S, w: Disk, x: Set<Address>)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::Internal {  }), t.journal == s.journal, image(s, w, x)
    ensures good(t, w), image(t, w, x)
{ }

// records move from the tail to a page: nothing is lost, and an image on the disk stays there
proof fn h_marshal(s: S, t: S, w: Disk, v: Disk, x: Set<Address>)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::Internal {  }), t.journal != s.journal, image(s, w, x),
        v == w.insert(t.journal.freshest_rec.unwrap(), t.cache.entries[t.cache.lookup_map[t.journal.freshest_rec.unwrap()]]->data)
    ensures good(t, v), t.disk == s.disk, lo(t.journal) == lo(s.journal), hi(t.journal) == hi(s.journal), t.journal.unmarshalled_tail.seq_start > s.journal.unmarshalled_tail.seq_start,
        t.journal.freshest_rec is Some, t.cache.lookup_map.dom().contains(t.journal.freshest_rec.unwrap()), image(t, v, x),
        forall|l: nat| lo(s.journal) <= l < hi(s.journal) ==> on(t, v, l) == on(s, w, l)
{ }

//reach
proof fn h_can_freeze(s: S, t: S, w: Disk, f: JournalSnapShot)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::FreezeForCommit { frozen: f }), f.freshest_rec is Some, lo(s.journal) < f.boundary_lsn
    ensures false
{ }

//reach
proof fn h_can_recover(s: S, t: S, w: Disk, h: MsgHistory)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::ReadForRecovery { messages: h }), h.seq_start + 2 == h.seq_end
    ensures false
{ }

//reach
proof fn h_can_discard(s: S, t: S, w: Disk, n: nat, e: nat)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::DiscardOld { start_lsn: n, require_end: e }), lo(s.journal) < n, t.journal.freshest_rec is Some
    ensures false
{ }

//reach
proof fn h_can_marshal(s: S, t: S, w: Disk)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::Internal {  }), t.journal != s.journal, s.journal.freshest_rec is Some
    ensures false
{ }

//reach
proof fn h_can_write_back(s: S, t: S, w: Disk, x: Set<Address>, a: Address)
    requires good(s, w), image(s, w, x), JournalCoordinationSystem::State::next(s, t, L::Internal {  }), t.journal == s.journal, t.disk.content != s.disk.content, x.contains(a)
    ensures false
{ }

//reach
proof fn h_can_load(s: S, t: S, w: Disk, i: ID)
    requires good(s, w), JournalCoordinationSystem::State::next(s, t, L::Internal {  }), t.journal == s.journal, s.disk.responses.dom().contains(i), !t.disk.responses.dom().contains(i)
    ensures false
{ }

} // verus!
