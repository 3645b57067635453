#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::LinkedBranch_v;
use crate::betree::LinkedBranch_v::LinkedBranch;
use crate::allocation_layer::MiniAllocator_v::*;
use crate::allocation_layer::AllocationBranch_v;
use crate::allocation_layer::AllocationBranch_v::*;

verus! {

//cfgall depth=3, seq=2, maxtick=60000000, maxuniv=20000, addrs=[(0,0),(0,1),(1,0),(1,1)], native=(0,2), nat=(0,2), int=(-1,3), qint=(-1,4)

type AR = AllocationBranch;
type LN = LinkedBranch<Summary>;
type LP = LinkedBranch_v::Path<Summary>;

spec fn nop() -> Message { Message::Update { delta: nop_delta() } }
// how many pivots are at most the key
spec fn below(p: Seq<Key>, k: Key, i: int) -> int
    decreases p.len() - i
{
    if i >= p.len() || p[i].0 > k.0 { i } else { below(p, k, i + 1) }
}
spec fn find(s: Seq<Key>, m: Seq<Message>, k: Key, i: int) -> Option<Message>
    decreases s.len() - i
{
    if i >= s.len() { None } else if s[i] == k { Some(m[i]) } else { find(s, m, k, i + 1) }
}
spec fn lat(t: LN, p: Address, k: Key, fuel: nat) -> Option<Message>
    decreases fuel
{
    if fuel == 0 { None } else {
        match t.disk_view.entries[p] { LinkedBranch_v::Node::Leaf { keys, msgs } => find(keys, msgs, k, 0),
            LinkedBranch_v::Node::Index { pivots, children, .. } => lat(t, children[below(pivots, k, 0)], k, (fuel - 1) as nat),
            _ => None }
    }
}
spec fn sorted(s: Seq<Key>, lo: int, hi: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> lo <= s[i].0 < hi
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> s[i].0 < s[i + 1].0
}
// at most `fuel` levels below the page, every key of it between lo and hi and in order
spec fn lok(t: LN, p: Address, fuel: nat, lo: int, hi: int) -> bool
    decreases fuel
{
    fuel > 0 && t.disk_view.entries.contains_key(p) && match t.disk_view.entries[p] {
        LinkedBranch_v::Node::Leaf { keys, msgs } => keys.len() > 0 && keys.len() == msgs.len() && sorted(keys, lo, hi),
        LinkedBranch_v::Node::Index { pivots, children, .. } => {
            &&& pivots.len() == children.len() - 1
            &&& sorted(pivots, lo, hi)
            &&& forall|i: int| 0 <= i < children.len() ==> lok(t, children[i], (fuel - 1) as nat, if i == 0 { lo } else { pivots[i - 1].0 as int }, if i == children.len() - 1 { hi } else { pivots[i].0 as int })
        },
        _ => false }
}
// no page is in the tree twice (two levels)
spec fn lone(t: LN) -> bool {
    match t.disk_view.entries[t.root] { LinkedBranch_v::Node::Index { pivots, children, .. } => {
            &&& forall|i: int| 0 <= i < children.len() ==> children[i] != t.root
            &&& forall|i: int, j: int| 0 <= i < j < children.len() ==> children[i] != children[j] },
        _ => true }
}
spec fn lgood(t: LN, fuel: nat) -> bool { t.wf() && lok(t, t.root, fuel, 0, 100) }

spec fn page(t: LN, a: Address) -> bool { t.disk_view.entries.contains_key(a) }
spec fn held(b: AR, k: Key) -> Option<Message> { if b.branch is None { None } else { lat(b.branch.unwrap(), b.branch.unwrap().root, k, 2) } }
// a branch under construction: its pages are exactly the reserved ones, the tree reaches all of them, nothing is sealed
spec fn linked_to(t: LN, a: Address) -> bool {
    a == t.root || (match t.disk_view.entries[t.root] { LinkedBranch_v::Node::Index { children, .. } => children.contains(a), _ => false })
}
spec fn raw(t: LN) -> bool { t.disk_view.entries.contains_key(t.root) && (match t.disk_view.entries[t.root] { LinkedBranch_v::Node::Index { aux_ptr, .. } => aux_ptr is None, _ => true }) }
spec fn growing(b: AR) -> bool {
    &&& !b.sealed &&& b.mini_allocator.wf()
    &&& forall|u: AU, a: Address| b.mini_allocator.allocs.contains_key(u) ==> !#[trigger] b.mini_allocator.allocs[u].observed.contains(a)
    &&& forall|a: Address| #[trigger] b.mini_allocator.page_is_reserved(a) <==> b.branch is Some && page(b.branch.unwrap(), a)
    &&& b.branch is Some ==> lgood(b.branch.unwrap(), 2) && lone(b.branch.unwrap()) && raw(b.branch.unwrap()) && (forall|a: Address| page(b.branch.unwrap(), a) ==> #[trigger] linked_to(b.branch.unwrap(), a))
}

proof fn hr_new(s: Set<AU>, k: Key, u: AU)
    ensures growing(AR::new(s)), held(AR::new(s), k) is None, AR::new(s).mini_allocator.all_aus().contains(u) == s.contains(u)
{ }

proof fn hr_start(b: AR, w: AR, a: Address, s: Seq<Key>, m: Seq<Message>, x: Set<AU>, y: Set<AU>, k: Key)
    requires growing(b), b.branch is None, AR::build_next(b, w, BuildEvent::Initialize { addr: a, keys: s, msgs: m }, x, y)
    ensures growing(w), held(w, k) == find(s, m, k, 0), w.branch is Some, w.mini_allocator.all_aus() =~= b.mini_allocator.all_aus(), x.is_empty(), y.is_empty()
{ }

proof fn hr_append(b: AR, w: AR, s: Seq<Key>, m: Seq<Message>, p: LP, x: Set<AU>, y: Set<AU>, k: Key)
    requires growing(b), AR::build_next(b, w, BuildEvent::Append { keys: s, msgs: m, path: p }, x, y), p.depth <= 1
    ensures growing(w), held(w, k) == (match find(s, m, k, 0) { Some(z) => Some(z), None => held(b, k) }), w.mini_allocator.all_aus() =~= b.mini_allocator.all_aus(), x.is_empty(), y.is_empty()
{ }

//cfg seq=3
proof fn hr_split(b: AR, w: AR, a: Address, p: LP, s: LinkedBranch_v::SplitArg, x: Set<AU>, y: Set<AU>, k: Key)
    requires growing(b), AR::build_next(b, w, BuildEvent::Split { addr: a, path: p, split_arg: s }, x, y), p.depth == 0
    ensures growing(w), held(w, k) == held(b, k), w.mini_allocator.all_aus() =~= b.mini_allocator.all_aus(), x.is_empty(), y.is_empty()
{ }

proof fn hr_fill(b: AR, w: AR, x: Set<AU>, y: Set<AU>, k: Key, u: AU)
    requires growing(b), AR::build_next(b, w, BuildEvent::AllocFill {}, x, y)
    ensures growing(w), held(w, k) == held(b, k), w.mini_allocator.all_aus().contains(u) == (b.mini_allocator.all_aus().contains(u) || x.contains(u)),
        x.contains(u) ==> !b.mini_allocator.all_aus().contains(u), y.is_empty()
{ }

spec fn done(w: AR) -> bool {
    &&& w.sealed &&& w.mini_allocator.wf() &&& w.branch is Some &&& lgood(w.branch.unwrap(), 2)
    // the summary names the units the branch occupies, all its pages lie in them, and nothing else is kept
    &&& w.branch.unwrap().sealed_root()
    &&& forall|u: AU| #[trigger] w.branch.unwrap().get_summary().contains(u) <==> w.mini_allocator.all_aus().contains(u)
    &&& forall|a: Address| #[trigger] w.branch.unwrap().disk_view.entries.contains_key(a) ==> w.mini_allocator.all_aus().contains(a.au)
    &&& forall|u: AU| #[trigger] w.mini_allocator.all_aus().contains(u) ==> exists|a: Address| #[trigger] w.branch.unwrap().disk_view.entries.contains_key(a) && a.au == u
}
proof fn hr_seal(b: AR, w: AR, q: Pointer, x: Set<AU>, y: Set<AU>, k: Key, u: AU)
    requires growing(b), AR::build_next(b, w, BuildEvent::Seal { aux_ptr: q }, x, y)
    ensures done(w), held(w, k) == held(b, k), x.is_empty(),
        y.contains(u) ==> b.mini_allocator.all_aus().contains(u),
        w.mini_allocator.all_aus().contains(u) == (b.mini_allocator.all_aus().contains(u) && !y.contains(u)),
        forall|a: Address| #[trigger] b.mini_allocator.page_is_reserved(a) ==> w.branch.unwrap().disk_view.entries.contains_key(a)
{ }

//reach
proof fn hr_can_seal(b: AR, w: AR, q: Pointer, x: Set<AU>, y: Set<AU>)
    requires growing(b), AR::build_next(b, w, BuildEvent::Seal { aux_ptr: q }, x, y), q is Some, !y.is_empty()
    ensures false
{ }

//reach
//cfg seq=3
proof fn hr_can_split(b: AR, w: AR, a: Address, p: LP, s: LinkedBranch_v::SplitArg, x: Set<AU>, y: Set<AU>)
    requires growing(b), AR::build_next(b, w, BuildEvent::Split { addr: a, path: p, split_arg: s }, x, y), p.depth == 0
    ensures false
{ }

//reach
proof fn hr_can_start(b: AR, w: AR, a: Address, s: Seq<Key>, m: Seq<Message>, x: Set<AU>, y: Set<AU>)
    requires growing(b), b.branch is None, AR::build_next(b, w, BuildEvent::Initialize { addr: a, keys: s, msgs: m }, x, y), s.len() == 2
    ensures false
{ }

// a sealed branch is closed for good
proof fn hr_closed(b: AR, w: AR, e: BuildEvent, x: Set<AU>, y: Set<AU>)
    requires b.sealed
    ensures !AR::build_next(b, w, e, x, y)
{ }

} // verus!
