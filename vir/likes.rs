#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::oldvstd::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::BufferDisk_v::*;
use crate::betree::LinkedSeq_v::*;
use crate::betree::PivotTable_v::*;
use crate::betree::Memtable_v::*;
use crate::betree::SplitRequest_v::*;
use crate::betree::LinkedBetree_v;
use crate::betree::LinkedBetree_v::*;
use crate::allocation_layer::Likes_v::*;
use crate::allocation_layer::LikesBetree_v::*;
use crate::allocation_layer::AllocationBetree_v::*;

verus! {

//cfgall depth=3, seq=2, maxtick=60000000, maxuniv=2000, addrs=[(0,0),(0,1),(1,0),(1,1)], nat=(0,3), int=(0,3), qint=(0,4), inst={"T": ("data", "lib::betree::Buffer_v::SimpleBuffer", "", ())}

type SB = SimpleBuffer;
type LB = LinkedBetree<SimpleBuffer>;
type Path = LinkedBetree_v::Path<SimpleBuffer>;
type BV = LinkedBetreeVars::State<SimpleBuffer>;

spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
// the tree under a pointer has at most `fuel` levels and its pages are on the disk
spec fn ok(t: LB, p: Pointer, fuel: nat) -> bool
    decreases fuel
{
    p is Some ==> fuel > 0 && t.dv.entries.contains_key(p.unwrap()) && ({
        let n = t.dv.entries[p.unwrap()];
        &&& n.wf()
        &&& forall|i: int| 0 <= i < n.buffers.addrs.len() ==> t.buffer_dv.entries.contains_key(n.buffers.addrs[i])
        &&& forall|i: int| 0 <= i < n.children.len() ==> ok(t, n.children[i], (fuel - 1) as nat)
        &&& forall|i: int| 0 <= i < n.children.len() && n.children[i] is Some ==> t.dv.entries[n.children[i].unwrap()].pivots.pivots[0] == n.pivots.pivots[i]
                && t.dv.entries[n.children[i].unwrap()].pivots.pivots.last() == n.pivots.pivots[i + 1]
    })
}
spec fn top(t: LB) -> bool { t.root is Some ==> t.root().pivots.pivots[0] == Element::min_elem() && t.root().pivots.pivots.last() is Max }
// how many pointers of the tree lead to a page
spec fn refs(t: LB, p: Pointer, a: Address, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { one(p.unwrap() == a) + refs_from(t, t.dv.entries[p.unwrap()].children, a, fuel, 0) }
}
spec fn refs_from(t: LB, c: Seq<Pointer>, a: Address, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { refs(t, c[i as int], a, (fuel - 1) as nat) + refs_from(t, c, a, fuel, i + 1) }
}
spec fn listed(s: Seq<Address>, a: Address, i: nat) -> nat
    decreases s.len() - i
{
    if i >= s.len() { 0 } else { one(s[i as int] == a) + listed(s, a, i + 1) }
}
// how often the nodes of the tree list a buffer
spec fn bufs(t: LB, p: Pointer, a: Address, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { listed(t.dv.entries[p.unwrap()].buffers.addrs, a, 0) + bufs_from(t, t.dv.entries[p.unwrap()].children, a, fuel, 0) }
}
spec fn bufs_from(t: LB, c: Seq<Pointer>, a: Address, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { bufs(t, c[i as int], a, (fuel - 1) as nat) + bufs_from(t, c, a, fuel, i + 1) }
}

// ---- pages and buffers counted one by one
type KV = LikesBetree::State;
type KB = LikesBetree::Label;
spec fn kl() -> KB { KB::Label { linked_lbl: LinkedBetreeVars::Label::Internal {} } }
spec fn k_good(v: KV, fuel: nat) -> bool {
    let t = v.betree.linked;
    &&& t.wf() &&& ok(t, t.root, fuel) &&& top(t)
    &&& forall|a: Address| #[trigger] v.betree_likes.count(a) == refs(t, t.root, a, fuel)
    &&& forall|a: Address| #[trigger] v.buffer_likes.count(a) == bufs(t, t.root, a, fuel)
}

proof fn hk_push(v: KV, w: KV, b: BV, a: TwoAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_flush_memtable(v, w, kl(), b, a)
    ensures k_good(w, 2)
{ }

proof fn hk_grow(v: KV, w: KV, b: BV, a: Address)
    requires k_good(v, 2), LikesBetree::State::internal_grow(v, w, kl(), b, a)
    ensures k_good(w, 3)
{ }

//cfg seq=3, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)]
proof fn hk_split(v: KV, w: KV, b: BV, p: Path, r: SplitRequest, a: SplitAddrs, q: PathAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_split(v, w, kl(), b, p, r, a, q)
    ensures k_good(w, 2)
{ }

//cfg seq=3
proof fn hk_flush(v: KV, w: KV, b: BV, p: Path, c: nat, g: nat, a: TwoAddrs, q: PathAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_flush(v, w, kl(), b, p, c, g, a, q)
    ensures k_good(w, 2)
{ }

//cfg recdepth=130, depth=5, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)]
proof fn hk_compact(v: KV, w: KV, b: BV, p: Path, s: nat, e: nat, x: SB, a: TwoAddrs, q: PathAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_compact(v, w, kl(), b, p, s, e, x, a, q)
    ensures k_good(w, 2)
{ }

proof fn hk_view(v: KV, w: KV, b: BV)
    requires k_good(v, 2), LikesBetree::State::internal_buffer_noop(v, w, kl(), b), v.betree.linked.reachable_buffers_preserved(b.linked)
    ensures w.betree_likes == v.betree_likes, w.buffer_likes == v.buffer_likes, w.betree.linked.root == v.betree.linked.root, w.betree.memtable == v.betree.memtable
{ }

//reach
//cfg seq=3, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)]
proof fn hk_can_split(v: KV, w: KV, b: BV, p: Path, r: SplitRequest, a: SplitAddrs, q: PathAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_split(v, w, kl(), b, p, r, a, q)
    ensures false
{ }

//reach
proof fn hk_can_flush(v: KV, w: KV, b: BV, p: Path, c: nat, g: nat, a: TwoAddrs, q: PathAddrs)
    requires k_good(v, 2), LikesBetree::State::internal_flush(v, w, kl(), b, p, c, g, a, q), g == 1
    ensures false
{ }

// ---- the same counted by allocation unit
type AV = AllocationBetree::State;
type AB = AllocationBetree::Label;
spec fn al() -> AB { AB::Label { linked_lbl: LinkedBetreeVars::Label::Internal {} } }
spec fn refs_au(t: LB, p: Pointer, u: AU, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { one(p.unwrap().au == u) + refs_au_from(t, t.dv.entries[p.unwrap()].children, u, fuel, 0) }
}
spec fn refs_au_from(t: LB, c: Seq<Pointer>, u: AU, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { refs_au(t, c[i as int], u, (fuel - 1) as nat) + refs_au_from(t, c, u, fuel, i + 1) }
}
spec fn listed_au(s: Seq<Address>, u: AU, i: nat) -> nat
    decreases s.len() - i
{
    if i >= s.len() { 0 } else { one(s[i as int].au == u) + listed_au(s, u, i + 1) }
}
spec fn bufs_au(t: LB, p: Pointer, u: AU, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { listed_au(t.dv.entries[p.unwrap()].buffers.addrs, u, 0) + bufs_au_from(t, t.dv.entries[p.unwrap()].children, u, fuel, 0) }
}
spec fn bufs_au_from(t: LB, c: Seq<Pointer>, u: AU, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { bufs_au(t, c[i as int], u, (fuel - 1) as nat) + bufs_au_from(t, c, u, fuel, i + 1) }
}
spec fn a_good(v: AV, fuel: nat) -> bool {
    let t = v.betree.linked;
    &&& t.wf() &&& ok(t, t.root, fuel) &&& top(t)
    &&& forall|u: AU| #[trigger] v.betree_aus.count(u) == refs_au(t, t.root, u, fuel)
    &&& forall|u: AU| #[trigger] v.buffer_aus.count(u) == bufs_au(t, t.root, u, fuel)
}

proof fn hn_push(v: AV, w: AV, b: BV, a: TwoAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_flush_memtable(v, w, al(), b, a)
    ensures a_good(w, 2)
{ }

proof fn hn_grow(v: AV, w: AV, b: BV, a: Address)
    requires a_good(v, 2), AllocationBetree::State::internal_grow(v, w, al(), b, a), ok(w.betree.linked, w.betree.linked.root, 3)
    ensures a_good(w, 3)
{ }

//cfg recdepth=130, depth=5, seq=3, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)]
proof fn hn_split(v: AV, w: AV, b: BV, p: Path, r: SplitRequest, a: SplitAddrs, q: PathAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_split(v, w, al(), b, p, r, a, q)
    ensures a_good(w, 2)
{ }

//cfg seq=3
proof fn hn_flush(v: AV, w: AV, b: BV, p: Path, c: nat, g: nat, a: TwoAddrs, q: PathAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_flush(v, w, al(), b, p, c, g, a, q)
    ensures a_good(w, 2)
{ }

//cfg recdepth=130, depth=5, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)]
proof fn hn_compact(v: AV, w: AV, b: BV, p: Path, s: nat, e: nat, x: SB, a: TwoAddrs, q: PathAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_compact_complete(v, w, al(), b, p, s, e, x, a, q)
    ensures a_good(w, 2)
{ }

proof fn hn_view(v: AV, w: AV, b: BV)
    requires a_good(v, 2), AllocationBetree::State::internal_buffer_noop(v, w, al(), b)
    ensures w.betree_aus == v.betree_aus, w.buffer_aus == v.buffer_aus, w.betree.linked.root == v.betree.linked.root, w.betree.memtable == v.betree.memtable
{ }

//reach
proof fn hn_can_compact(v: AV, w: AV, b: BV, p: Path, s: nat, e: nat, x: SB, a: TwoAddrs, q: PathAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_compact_complete(v, w, al(), b, p, s, e, x, a, q), s == 0, e == 1
    ensures false
{ }

//reach
proof fn hn_can_flush(v: AV, w: AV, b: BV, p: Path, c: nat, g: nat, a: TwoAddrs, q: PathAddrs)
    requires a_good(v, 2), AllocationBetree::State::internal_flush(v, w, al(), b, p, c, g, a, q), g == 1
    ensures false
{ }

} // verus!
