#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::oldvstd::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::BufferDisk_v::*;
use crate::betree::LinkedSeq_v::*;
use crate::betree::PivotTable_v::*;
use crate::betree::Memtable_v::*;
use crate::betree::SplitRequest_v::*;
use crate::betree::LinkedBetree_v;
use crate::betree::LinkedBetree_v::*;
use crate::betree::LinkedBranch_v;
use crate::betree::LinkedBranch_v::LinkedBranch;
use crate::allocation_layer::Likes_v::*;
use crate::allocation_layer::LikesBetree_v::*;
use crate::allocation_layer::MiniAllocator_v::*;
use crate::allocation_layer::AllocationBranch_v;
use crate::allocation_layer::AllocationBranch_v::*;
use crate::allocation_layer::AllocationBetree_v::*;
use crate::allocation_layer::AllocationBranchBetree_v::*;

verus! {

//cfgall free=["AllocationBranch_v::impl&%[0-9]+::(i|linked_query|linked_contains)$"], recdepth=130, depth=3, seq=2, maxtick=60000000, maxuniv=20000, addrs=[(0,0),(1,0),(2,0),(3,0),(4,0)], native=(0,0), nat=(0,4), int=(-1,4), qint=(-1,5)

type LB = LinkedBetree<BranchNode>;
type Path = LinkedBetree_v::Path<BranchNode>;
type BV = LinkedBetreeVars::State<BranchNode>;
type ZV = AllocationBranchBetree::State;
type ZB = AllocationBranchBetree::Label;

spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
// the tree under a pointer has at most `fuel` levels and its pages are on the disk
spec fn ok(t: LB, p: Pointer, fuel: nat) -> bool
    decreases fuel
{
    p is Some ==> fuel > 0 && t.dv.entries.contains_key(p.unwrap()) && ({
        let n = t.dv.entries[p.unwrap()];
        &&& n.wf()
        &&& forall|i: int| 0 <= i < n.buffers.addrs.len() ==> t.buffer_dv.entries.contains_key(n.buffers.addrs[i])
        &&& forall|i: int| 0 <= i < n.children.len() ==> ok(t, n.children[i], (fuel - 1) as nat)
        &&& forall|i: int| 0 <= i < n.children.len() && n.children[i] is Some ==> t.dv.entries[n.children[i].unwrap()].pivots.pivots[0] == n.pivots.pivots[i]
                && t.dv.entries[n.children[i].unwrap()].pivots.pivots.last() == n.pivots.pivots[i + 1]
    })
}
spec fn top(t: LB) -> bool { t.root is Some ==> t.root().pivots.pivots[0] == Element::min_elem() && t.root().pivots.pivots.last() is Max }
// how many pointers of the tree lead to a page
spec fn refs(t: LB, p: Pointer, a: Address, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { one(p.unwrap() == a) + refs_from(t, t.dv.entries[p.unwrap()].children, a, fuel, 0) }
}
spec fn refs_from(t: LB, c: Seq<Pointer>, a: Address, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { refs(t, c[i as int], a, (fuel - 1) as nat) + refs_from(t, c, a, fuel, i + 1) }
}
spec fn listed(s: Seq<Address>, a: Address, i: nat) -> nat
    decreases s.len() - i
{
    if i >= s.len() { 0 } else { one(s[i as int] == a) + listed(s, a, i + 1) }
}
// how often the nodes of the tree list a buffer
spec fn bufs(t: LB, p: Pointer, a: Address, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { listed(t.dv.entries[p.unwrap()].buffers.addrs, a, 0) + bufs_from(t, t.dv.entries[p.unwrap()].children, a, fuel, 0) }
}
spec fn bufs_from(t: LB, c: Seq<Pointer>, a: Address, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { bufs(t, c[i as int], a, (fuel - 1) as nat) + bufs_from(t, c, a, fuel, i + 1) }
}

spec fn refs_au(t: LB, p: Pointer, u: AU, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { one(p.unwrap().au == u) + refs_au_from(t, t.dv.entries[p.unwrap()].children, u, fuel, 0) }
}
spec fn refs_au_from(t: LB, c: Seq<Pointer>, u: AU, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { refs_au(t, c[i as int], u, (fuel - 1) as nat) + refs_au_from(t, c, u, fuel, i + 1) }
}
spec fn listed_au(s: Seq<Address>, u: AU, i: nat) -> nat
    decreases s.len() - i
{
    if i >= s.len() { 0 } else { one(s[i as int].au == u) + listed_au(s, u, i + 1) }
}
spec fn bufs_au(t: LB, p: Pointer, u: AU, fuel: nat) -> nat
    decreases fuel, 1nat, 0nat
{
    if fuel == 0 || p is None { 0 } else { listed_au(t.dv.entries[p.unwrap()].buffers.addrs, u, 0) + bufs_au_from(t, t.dv.entries[p.unwrap()].children, u, fuel, 0) }
}
spec fn bufs_au_from(t: LB, c: Seq<Pointer>, u: AU, fuel: nat, i: nat) -> nat
    decreases fuel, 0nat, c.len() - i
{
    if fuel == 0 || i >= c.len() { 0 } else { bufs_au(t, c[i as int], u, (fuel - 1) as nat) + bufs_au_from(t, c, u, fuel, i + 1) }
}
// the tree, an unfinished compaction or a branch being built needs something on the unit
spec fn by_tree(v: ZV, u: AU, fuel: nat) -> bool { refs_au(v.betree.linked, v.betree.linked.root, u, fuel) > 0 }
spec fn reading(v: ZV, b: AU, i: nat) -> bool
    decreases v.compactors.len() - i
{
    if i >= v.compactors.len() { false } else { listed_au(v.compactors[i as int].input_buffers.addrs, b, 0) > 0 || reading(v, b, i + 1) }
}
// the branch whose root lies on the unit is one the tree lists, or an input of a compaction
spec fn kept(v: ZV, b: AU, fuel: nat) -> bool { bufs_au(v.betree.linked, v.betree.linked.root, b, fuel) > 0 || reading(v, b, 0) }
spec fn by_branch(v: ZV, u: AU, fuel: nat) -> bool { exists|b: AU| #[trigger] v.branch_summary.contains_key(b) && kept(v, b, fuel) && v.branch_summary[b].contains(u) }
spec fn by_wip(v: ZV, u: AU, i: nat) -> bool
    decreases v.wip_branches.len() - i
{
    if i >= v.wip_branches.len() { false } else { v.wip_branches[i as int].mini_allocator.all_aus().contains(u) || by_wip(v, u, i + 1) }
}
spec fn live(v: ZV, u: AU, fuel: nat) -> bool { by_tree(v, u, fuel) || by_branch(v, u, fuel) || by_wip(v, u, 0) }
spec fn z_good(v: ZV, fuel: nat) -> bool {
    let t = v.betree.linked;
    &&& t.wf() &&& ok(t, t.root, fuel) &&& top(t)
    &&& forall|u: AU| #[trigger] v.betree_aus.count(u) == refs_au(t, t.root, u, fuel)
    &&& forall|u: AU| #[trigger] v.branch_aus.count(u) == bufs_au(t, t.root, u, fuel)
    // a summary for each kept branch and no other; no unit in two of them
    &&& forall|b: AU| #[trigger] v.branch_summary.contains_key(b) <==> kept(v, b, fuel)
    &&& forall|b: AU| #[trigger] v.branch_summary.contains_key(b) ==> v.branch_summary[b].contains(b)
    &&& forall|b: AU, c: AU, u: AU| b != c && #[trigger] v.branch_summary.contains_key(b) && #[trigger] v.branch_summary.contains_key(c) && v.branch_summary[b].contains(u) ==> !#[trigger] v.branch_summary[c].contains(u)
    // tree, branches and builders keep to themselves
    &&& forall|u: AU| #[trigger] by_tree(v, u, fuel) ==> !by_branch(v, u, fuel) && !by_wip(v, u, 0)
    &&& forall|u: AU| #[trigger] by_branch(v, u, fuel) ==> !by_wip(v, u, 0)
    &&& v.wip_branches.len() == 2 ==> (forall|u: AU| v.wip_branches[0].mini_allocator.all_aus().contains(u) ==> !#[trigger] v.wip_branches[1].mini_allocator.all_aus().contains(u))
    &&& forall|i: int| 0 <= i < v.wip_branches.len() && v.wip_branches[i].sealed ==> v.wip_branches[i].branch is Some && ({
            let b = v.wip_branches[i].branch.unwrap();
            &&& b.disk_view.entries.contains_key(b.root) &&& v.wip_branches[i].mini_allocator.all_aus().contains(b.root.au) &&& b.sealed_root()
            &&& forall|u: AU| #[trigger] b.get_summary().contains(u) <==> v.wip_branches[i].mini_allocator.all_aus().contains(u) })
}
// what a step does to the units: nothing in use is handed back or handed out again, nothing unused is kept
spec fn sound(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, f: nat, g: nat) -> bool {
    &&& forall|u: AU| #[trigger] x.contains(u) ==> !live(v, u, f)
    &&& forall|u: AU| #[trigger] y.contains(u) ==> live(v, u, f) && !live(w, u, g)
    &&& forall|u: AU| (x.contains(u) || live(v, u, f)) && !y.contains(u) <==> #[trigger] live(w, u, g)
    &&& forall|b: AU| #[trigger] v.branch_summary.contains_key(b) && w.branch_summary.contains_key(b) ==> w.branch_summary[b] == v.branch_summary[b]
}
// a branch under construction: the units of its pages are its own
spec fn b_good(b: AllocationBranch) -> bool {
    &&& b.mini_allocator.wf()
    &&& forall|a: Address| #[trigger] b.mini_allocator.page_is_reserved(a) <==> b.branch is Some && b.branch.unwrap().disk_view.entries.contains_key(a)
    &&& forall|u: AU, a: Address| b.mini_allocator.allocs.contains_key(u) ==> !#[trigger] b.mini_allocator.allocs[u].observed.contains(a)
    &&& b.branch is Some ==> b.branch.unwrap().wf() && (b.branch.unwrap().root() is Leaf ==> (forall|a: Address| #[trigger] b.branch.unwrap().disk_view.entries.contains_key(a) ==> a == b.branch.unwrap().root))
}
spec fn zl(x: Set<AU>, y: Set<AU>) -> ZB { ZB::Internal { allocs: x, deallocs: y } }

proof fn hz_begin(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>)
    requires z_good(v, 2), AllocationBranchBetree::State::branch_begin(v, w, zl(x, y)), v.wip_branches.len() < 2
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

proof fn hz_abort(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, i: int)
    requires z_good(v, 2), AllocationBranchBetree::State::branch_abort(v, w, zl(x, y), i)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

//cfg free=["AllocationBranch_v::impl&%\\d+::i$"]
proof fn hz_push(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, i: int, a: Address)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_flush_memtable(v, w, zl(x, y), b, i, a)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

proof fn hz_grow(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, a: Address)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_grow(v, w, zl(x, y), b, a)
    ensures z_good(w, 3), sound(v, w, x, y, 2, 3)
{ }

proof fn hz_build(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, i: int, p: AllocationBranch, e: BuildEvent)
    requires z_good(v, 2), AllocationBranchBetree::State::branch_build(v, w, zl(x, y), i, p, e), b_good(v.wip_branches[i])
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

//cfg seq=3, native=(0,1)
proof fn hz_split(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, r: SplitRequest, a: SplitAddrs, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_split(v, w, zl(x, y), b, p, r, a, q)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

//reach
//cfg seq=3, native=(0,1)
proof fn hz_can_split(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, r: SplitRequest, a: SplitAddrs, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_split(v, w, zl(x, y), b, p, r, a, q)
    ensures false
{ }

proof fn hz_flush(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, c: nat, gc: nat, a: TwoAddrs, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_flush(v, w, zl(x, y), b, p, c, gc, a, q)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

proof fn hz_compact_begin(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, p: Path, s: nat, e: nat, i: CompactorInput)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_compact_begin(v, w, zl(x, y), p, s, e, i)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

proof fn hz_compact_abort(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, i: int, b: BV)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_compact_abort(v, w, zl(x, y), i, b)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

proof fn hz_compact(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, s: nat, e: nat, i: int, j: int, a: Address, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_compact_complete(v, w, zl(x, y), b, p, s, e, i, j, a, q)
    ensures z_good(w, 2), sound(v, w, x, y, 2, 2)
{ }

//reach
//cfg free=["AllocationBranch_v::impl&%\\d+::i$"]
proof fn hz_can_push(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, i: int, a: Address)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_flush_memtable(v, w, zl(x, y), b, i, a), !y.is_empty()
    ensures false
{ }

//reach
proof fn hz_can_flush(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, c: nat, gc: nat, a: TwoAddrs, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_flush(v, w, zl(x, y), b, p, c, gc, a, q), gc == 1
    ensures false
{ }

//reach
proof fn hz_can_compact_abort(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, i: int, b: BV)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_compact_abort(v, w, zl(x, y), i, b), !y.is_empty()
    ensures false
{ }

//reach
proof fn hz_can_compact(v: ZV, w: ZV, x: Set<AU>, y: Set<AU>, b: BV, p: Path, s: nat, e: nat, i: int, j: int, a: Address, q: PathAddrs)
    requires z_good(v, 2), AllocationBranchBetree::State::internal_compact_complete(v, w, zl(x, y), b, p, s, e, i, j, a, q), !y.is_empty()
    ensures false
{ }

} // verus!
