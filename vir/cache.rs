#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*, seq::*};
use crate::spec::MapSpec_t::*;
use crate::spec::AsyncDisk_t::*;
use crate::implementation::Cache_v::*;

verus! {

type C = Cache::State;
type D = AsyncDisk::State;

// ---- the cache with its disk, as one state; w: what each page is supposed to contain
spec fn present(c: C, s: Slot) -> bool { c.entries.dom().contains(s) && !(c.entries[s] is Empty) }

spec fn addr_of(e: Entry) -> Address {
    match e { Entry::Reserved { addr } => addr, Entry::Loading { addr } => addr, Entry::Filled { addr, data } => addr, Entry::Empty => arbitrary() }
}

// a page lives in at most one slot, and is found there
spec fn table(c: C) -> bool {
    &&& c.status_map.dom() =~= c.entries.dom()
    &&& forall|s: Slot| present(c, s) ==> c.lookup_map.dom().contains(addr_of(c.entries[s])) && c.lookup_map[addr_of(c.entries[s])] == s
    &&& forall|a: Address| c.lookup_map.dom().contains(a) ==> present(c, c.lookup_map[a]) && addr_of(c.entries[c.lookup_map[a]]) == a
    &&& forall|s: Slot| c.entries.dom().contains(s) ==> ((c.status_map[s] is NotFilled) == !(c.entries[s] is Filled))
}

// what is under way at the disk is what the cache waits for
spec fn transit(c: C, d: D) -> bool {
    &&& c.outstanding_reqs.dom() =~= d.requests.dom().union(d.responses.dom())
    &&& forall|i: ID| !(d.requests.dom().contains(i) && d.responses.dom().contains(i))
    &&& forall|i: ID, j: ID| c.outstanding_reqs.dom().contains(i) && c.outstanding_reqs.dom().contains(j) && i != j ==> c.outstanding_reqs[i] != c.outstanding_reqs[j]
    &&& forall|i: ID| c.outstanding_reqs.dom().contains(i) ==> present(c, c.outstanding_reqs[i]) && (c.entries[c.outstanding_reqs[i]] is Loading
        || c.entries[c.outstanding_reqs[i]] is Filled && c.status_map[c.outstanding_reqs[i]] is Writeback)
    &&& forall|s: Slot| c.entries.dom().contains(s) && (c.entries[s] is Loading || c.status_map[s] is Writeback) ==> exists|i: ID| #![auto] c.outstanding_reqs.dom().contains(i) && c.outstanding_reqs[i] == s
    &&& forall|i: ID| d.requests.dom().contains(i) ==> {
        let e = c.entries[c.outstanding_reqs[i]];
        if e is Loading { d.requests[i] == (DiskRequest::ReadReq { from: addr_of(e) }) } else { d.requests[i] == (DiskRequest::WriteReq { to: addr_of(e), data: e->data }) }
    }
}

spec fn true_page(c: C, d: D, w: Disk, a: Address) -> bool {
    if c.lookup_map.dom().contains(a) && c.entries[c.lookup_map[a]] is Filled {
        let s = c.lookup_map[a];
        &&& c.entries[s]->data == w[a]
        &&& c.status_map[s] is Clean ==> d.content[a] == w[a]
    } else { d.content[a] == w[a] }
}

spec fn answers(c: C, d: D, w: Disk) -> bool {
    forall|i: ID| d.responses.dom().contains(i) ==> {
        let e = c.entries[c.outstanding_reqs[i]];
        if e is Loading { d.responses[i] == (DiskResponse::ReadResp { data: w[addr_of(e)] }) }
        else { d.responses[i] == (DiskResponse::WriteResp {  }) && d.content[addr_of(e)] == w[addr_of(e)] }
    }
}

spec fn good(c: C, d: D, w: Disk) -> bool {
    &&& table(c)
    &&& transit(c, d)
    &&& forall|a: Address| d.content.dom().contains(a) && w.dom().contains(a)
    &&& forall|a: Address| true_page(c, d, w, a)
    &&& answers(c, d, w)
}

//cfgall addrs=[(0, 0), (0, 1), (1, 0)], native=(0, 2), seq=1, maxtick=30000000
proof fn h_init(c: C, n: nat, d: D, w: Disk)
    requires Cache::State::init_by(c, Cache::Config::initialize(n)), d.content == w, d.requests =~= Map::empty(), d.responses =~= Map::empty(), forall|a: Address| w.dom().contains(a)
    ensures good(c, d, w), c.lookup_map =~= Map::empty()
{ }

// what is read is what the page is supposed to contain
proof fn h_read(c: C, e: C, d: D, w: Disk, r: Map<Address, RawPage>, x: Map<Address, RawPage>, a: Address)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Access { reads: r, writes: x }), r.dom().contains(a)
    ensures r[a] == w[a]
{ }

// a write changes the pages written, and only them
proof fn h_write(c: C, e: C, d: D, w: Disk, r: Map<Address, RawPage>, x: Map<Address, RawPage>, a: Address)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Access { reads: r, writes: x })
    ensures good(e, d, w.union_prefer_right(x)), e.outstanding_reqs == c.outstanding_reqs,
        x.dom().contains(a) ==> e.lookup_map.dom().contains(a) && e.entries[e.lookup_map[a]] is Filled && e.entries[e.lookup_map[a]]->data == x[a] && e.status_map[e.lookup_map[a]] is Dirty,
        !x.dom().contains(a) && c.lookup_map.dom().contains(a) ==> e.lookup_map.dom().contains(a) && e.entries[e.lookup_map[a]] == c.entries[c.lookup_map[a]]
{ }

// reserving and evicting: no content is lost
proof fn h_internal(c: C, e: C, d: D, w: Disk)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Internal)
    ensures good(e, d, w), e.outstanding_reqs == c.outstanding_reqs,
        forall|s: Slot| c.entries.dom().contains(s) && (c.status_map[s] is Dirty || c.status_map[s] is Writeback) ==> e.entries[s] == c.entries[s] && e.status_map[s] == c.status_map[s],
        forall|s: Slot| c.entries.dom().contains(s) && (c.entries[s] is Reserved || c.entries[s] is Loading) ==> e.entries[s] == c.entries[s]
{ }

proof fn h_io(c: C, e: C, d: D, f: D, w: Disk, q: Map<ID, DiskRequest>, r: Map<ID, DiskResponse>)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::DiskOps { requests: q, responses: r }), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: q, responses: r })
    ensures good(e, f, w), f.content == d.content,
        forall|s: Slot| c.entries.dom().contains(s) && c.status_map[s] is Dirty ==> e.entries[s] == c.entries[s] && (e.status_map[s] is Dirty || e.status_map[s] is Writeback),
        forall|s: Slot| c.entries.dom().contains(s) && c.status_map[s] is Writeback && e.status_map[s] is Clean ==> d.content[addr_of(c.entries[s])] == c.entries[s]->data
{ }

proof fn h_disk(c: C, d: D, f: D, w: Disk)
    requires good(c, d, w), AsyncDisk::State::next(d, f, AsyncDisk::Label::Internal)
    ensures good(c, f, w), forall|a: Address| f.content[a] == d.content[a] || f.content[a] == w[a]
{ }

// pages found evictable are on the disk as they should be
proof fn h_evictable(c: C, e: C, d: D, w: Disk, x: Set<Address>, a: Address)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::EvictableCheck { addrs: x }), x.contains(a)
    ensures d.content[a] == w[a], e == c
{ }

//reach
proof fn h_can_load(c: C, e: C, d: D, f: D, w: Disk, q: Map<ID, DiskRequest>, i: ID, j: ID)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::DiskOps { requests: q, responses: Map::empty() }), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: q, responses: Map::empty() }), i != j, q[i] is ReadReq, q.dom().contains(i), q.dom().contains(j)
    ensures false
{ }

//reach
proof fn h_can_loaded(c: C, e: C, d: D, f: D, w: Disk, r: Map<ID, DiskResponse>, i: ID, j: ID)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::DiskOps { requests: Map::empty(), responses: r }), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: Map::empty(), responses: r }), i != j, r[i] is ReadResp, r.dom().contains(i), r.dom().contains(j), d.content[Address { au: 0, page: 1 }] != d.content[Address { au: 0, page: 0 }]
    ensures false
{ }

//reach
proof fn h_can_write_back(c: C, e: C, d: D, f: D, w: Disk, q: Map<ID, DiskRequest>, i: ID, j: ID)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::DiskOps { requests: q, responses: Map::empty() }), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: q, responses: Map::empty() }), i != j, q[i] is WriteReq, q.dom().contains(i), q.dom().contains(j)
    ensures false
{ }

//reach
proof fn h_can_written(c: C, e: C, d: D, f: D, w: Disk, r: Map<ID, DiskResponse>, i: ID, j: ID)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::DiskOps { requests: Map::empty(), responses: r }), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: Map::empty(), responses: r }), i != j, r[i] is WriteResp, r.dom().contains(i), r.dom().contains(j)
    ensures false
{ }

//reach
proof fn h_can_reserve(c: C, e: C, d: D, w: Disk)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Internal), e.entries[0] is Reserved, e.entries[1] is Reserved, c.entries[0] is Empty, c.entries[1] is Empty
    ensures false
{ }

//reach
proof fn h_can_evict(c: C, e: C, d: D, w: Disk)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Internal), c.entries[0] is Filled, c.entries[1] is Filled, e.entries[0] is Empty, e.entries[1] is Empty, c.entries.dom().contains(0), c.entries.dom().contains(1)
    ensures false
{ }

//reach
proof fn h_can_access(c: C, e: C, d: D, w: Disk, r: Map<Address, RawPage>, x: Map<Address, RawPage>, a: Address, b: Address)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::Access { reads: r, writes: x }), r.dom().contains(a), x.dom().contains(a), x[a] != r[a], x.dom().contains(b), c.entries[c.lookup_map[b]] is Reserved, !r.dom().contains(b)
    ensures false
{ }

//reach
proof fn h_can_check(c: C, e: C, d: D, w: Disk, x: Set<Address>, a: Address, b: Address)
    requires good(c, d, w), Cache::State::next(c, e, Cache::Label::EvictableCheck { addrs: x }), x.contains(a), x.contains(b), c.lookup_map.dom().contains(a), !c.lookup_map.dom().contains(b)
    ensures false
{ }

// ---- crash: what is not in the disk's content is gone; clean or absent pages are intact
proof fn h_crash(c: C, d: D, f: D, w: Disk, a: Address)
    requires good(c, d, w), AsyncDisk::State::next(d, f, AsyncDisk::Label::Crash)
    ensures f.content == d.content, f.requests =~= Map::empty(), f.responses =~= Map::empty(),
        (!c.lookup_map.dom().contains(a) || c.status_map[c.lookup_map[a]] is Clean) ==> f.content[a] == w[a]
{ }

// the disk by itself: an operation is answered once, by its own kind of answer, and reads see the content
proof fn h_disk_ops(d: D, f: D, q: Map<ID, DiskRequest>, r: Map<ID, DiskResponse>)
    requires d.inv(), AsyncDisk::State::next(d, f, AsyncDisk::Label::DiskOps { requests: q, responses: r })
    ensures f.inv(), f.content == d.content, r.submap_of(d.responses), f.responses =~= d.responses.remove_keys(r.dom()), f.requests =~= d.requests.union_prefer_right(q),
        forall|i: ID| q.dom().contains(i) ==> !d.requests.dom().contains(i) && !d.responses.dom().contains(i)
{ }

proof fn h_disk_step(d: D, f: D, i: ID, a: Address)
    requires d.inv(), d.content.dom().contains(a), AsyncDisk::State::next(d, f, AsyncDisk::Label::Internal)
    ensures f.inv(),
        d.requests.dom().contains(i) ==> f.requests.dom().contains(i) && f.requests[i] == d.requests[i] || !f.requests.dom().contains(i) && f.responses.dom().contains(i)
            && match d.requests[i] {
                DiskRequest::ReadReq { from } => f.responses[i] == (DiskResponse::ReadResp { data: d.content[from] }) && f.content == d.content,
                DiskRequest::WriteReq { to, data } => f.responses[i] == (DiskResponse::WriteResp {  }) && f.content =~= d.content.insert(to, data),
            },
        d.responses.dom().contains(i) ==> f.responses.dom().contains(i) && f.responses[i] == d.responses[i],
        f.requests.dom().contains(i) ==> d.requests.dom().contains(i) && d.requests[i] == f.requests[i],
        f.content[a] != d.content[a] ==> exists|j: ID| #![auto] d.requests.dom().contains(j) && !f.requests.dom().contains(j) && d.requests[j] == (DiskRequest::WriteReq { to: a, data: f.content[a] })
{ }

} // verus!
