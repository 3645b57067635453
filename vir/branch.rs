#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::PivotBranch_v;
use crate::betree::LinkedBranch_v;
use crate::betree::LinkedBranch_v::LinkedBranch;

verus! {

//cfgall depth=3, seq=3, maxtick=60000000, addrs=[(0,0),(0,1),(1,0),(1,1)], native=(0,2), nat=(0,2), int=(-1,3), qint=(-1,4), inst={"T": ("data", "lib::spec::AsyncDisk_t::Address", "", ())}

type PN = PivotBranch_v::Node;

spec fn nop() -> Message { Message::Update { delta: nop_delta() } }
// how many pivots are at most the key
spec fn below(p: Seq<Key>, k: Key, i: int) -> int
    decreases p.len() - i
{
    if i >= p.len() || p[i].0 > k.0 { i } else { below(p, k, i + 1) }
}
spec fn find(s: Seq<Key>, m: Seq<Message>, k: Key, i: int) -> Option<Message>
    decreases s.len() - i
{
    if i >= s.len() { None } else if s[i] == k { Some(m[i]) } else { find(s, m, k, i + 1) }
}
spec fn at(n: PN, k: Key) -> Option<Message>
    decreases n
{
    match n { PivotBranch_v::Node::Leaf { keys, msgs } => find(keys, msgs, k, 0),
        PivotBranch_v::Node::Index { pivots, children } => at(children[below(pivots, k, 0)], k) }
}

proof fn hn_query(n: PN, k: Key)
    requires n.wf()
    ensures n.query(k) == (match at(n, k) { Some(m) => m, None => nop() })
{ }

proof fn hn_insert(n: PN, k: Key, m: Message, p: PivotBranch_v::Path, j: Key)
    requires n.wf(), p.valid(), p.node == n, p.key == k, p.target() is Leaf
    ensures n.insert(k, m, p).wf(), at(n.insert(k, m, p), j) == (if j == k { Some(m) } else { at(n, j) })
{ }

proof fn hn_append(n: PN, s: Seq<Key>, m: Seq<Message>, p: PivotBranch_v::Path, j: Key)
    requires n.wf(), p.valid(), p.node == n, s.len() > 0, s.len() == m.len(), Key::is_strictly_sorted(s), p.target() is Leaf, Key::lt(p.target()->keys.last(), s[0]),
        p.key == s[0], p.path_equiv(s.last())
    ensures n.append(s, m, p).wf(), at(n.append(s, m, p), j) == (match find(s, m, j, 0) { Some(x) => Some(x), None => at(n, j) })
{ }

//reach
proof fn hn_can_append(n: PN, s: Seq<Key>, m: Seq<Message>, p: PivotBranch_v::Path)
    requires n.wf(), p.valid(), p.node == n, s.len() == 1, s.len() == m.len(), Key::is_strictly_sorted(s), p.target() is Leaf, Key::lt(p.target()->keys.last(), s[0]),
        p.key == s[0], p.path_equiv(s.last()), p.depth == 1
    ensures false
{ }

proof fn hn_grow(n: PN, j: Key)
    requires n.wf()
    ensures n.grow().wf(), at(n.grow(), j) == at(n, j)
{ }

proof fn hn_split(n: PN, p: PivotBranch_v::Path, a: PivotBranch_v::SplitArg, j: Key)
    requires n.wf(), p.valid(), p.node == n, p.key == a.get_pivot(), p.target().can_split_child_of_index(a)
    ensures n.split(p, a).wf(), at(n.split(p, a), j) == at(n, j)
{ }

//reach
proof fn hn_can_split_leaf(n: PN, p: PivotBranch_v::Path, a: PivotBranch_v::SplitArg)
    requires n.wf(), p.valid(), p.node == n, p.key == a.get_pivot(), p.target().can_split_child_of_index(a), a is SplitLeaf, n->pivots.len() == 1
    ensures false
{ }

//reach
proof fn hn_can_split_index(n: PN, p: PivotBranch_v::Path, a: PivotBranch_v::SplitArg)
    requires n.wf(), p.valid(), p.node == n, p.key == a.get_pivot(), p.target().can_split_child_of_index(a), a is SplitIndex
    ensures false
{ }

// ---- nodes on pages
type LN = LinkedBranch<Address>;
type LP = LinkedBranch_v::Path<Address>;

spec fn lat(t: LN, p: Address, k: Key, fuel: nat) -> Option<Message>
    decreases fuel
{
    if fuel == 0 { None } else {
        match t.disk_view.entries[p] { LinkedBranch_v::Node::Leaf { keys, msgs } => find(keys, msgs, k, 0),
            LinkedBranch_v::Node::Index { pivots, children, .. } => lat(t, children[below(pivots, k, 0)], k, (fuel - 1) as nat),
            _ => None }
    }
}
spec fn sorted(s: Seq<Key>, lo: int, hi: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> lo <= s[i].0 < hi
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> s[i].0 < s[i + 1].0
}
// at most `fuel` levels below the page, every key of it between lo and hi and in order
spec fn lok(t: LN, p: Address, fuel: nat, lo: int, hi: int) -> bool
    decreases fuel
{
    fuel > 0 && t.disk_view.entries.contains_key(p) && match t.disk_view.entries[p] {
        LinkedBranch_v::Node::Leaf { keys, msgs } => keys.len() > 0 && keys.len() == msgs.len() && sorted(keys, lo, hi),
        LinkedBranch_v::Node::Index { pivots, children, .. } => {
            &&& pivots.len() == children.len() - 1
            &&& sorted(pivots, lo, hi)
            &&& forall|i: int| 0 <= i < children.len() ==> lok(t, children[i], (fuel - 1) as nat, if i == 0 { lo } else { pivots[i - 1].0 as int }, if i == children.len() - 1 { hi } else { pivots[i].0 as int })
        },
        _ => false }
}
// no page is in the tree twice (two levels)
spec fn lone(t: LN) -> bool {
    match t.disk_view.entries[t.root] { LinkedBranch_v::Node::Index { pivots, children, .. } => {
            &&& forall|i: int| 0 <= i < children.len() ==> children[i] != t.root
            &&& forall|i: int, j: int| 0 <= i < j < children.len() ==> children[i] != children[j] },
        _ => true }
}
spec fn lgood(t: LN, fuel: nat) -> bool { t.wf() && lok(t, t.root, fuel, 0, 100) }

//cfg maxuniv=2000
proof fn hl_query(t: LN, k: Key, r: Ranking)
    requires lgood(t, 2), t.valid_ranking(r)
    ensures t.query_internal(k, r) == (match lat(t, t.root, k, 2) { Some(m) => m, None => nop() })
{ }

proof fn hl_insert(t: LN, k: Key, m: Message, p: LP, j: Key)
    requires lgood(t, 2), lone(t), t.can_insert(k, m, p), p.depth <= 1
    ensures lok(t.insert(k, m, p), t.root, 2, 0, 100), t.insert(k, m, p).wf(), t.insert(k, m, p).root == t.root, lat(t.insert(k, m, p), t.root, j, 2) == (if j == k { Some(m) } else { lat(t, t.root, j, 2) })
{ }

proof fn hl_append(t: LN, s: Seq<Key>, m: Seq<Message>, p: LP, j: Key)
    requires lgood(t, 2), lone(t), t.can_append(s, m, p), p.depth <= 1
    ensures lok(t.append(s, m, p), t.root, 2, 0, 100), t.append(s, m, p).wf(), lat(t.append(s, m, p), t.root, j, 2) == (match find(s, m, j, 0) { Some(x) => Some(x), None => lat(t, t.root, j, 2) })
{ }

//reach
proof fn hl_can_append(t: LN, s: Seq<Key>, m: Seq<Message>, p: LP)
    requires lgood(t, 2), lone(t), t.can_append(s, m, p), p.depth == 1
    ensures false
{ }

proof fn hl_grow(t: LN, a: Address, j: Key)
    requires lgood(t, 2), t.can_grow(a)
    ensures lok(t.grow(a), a, 3, 0, 100), t.grow(a).wf(), t.grow(a).root == a, lat(t.grow(a), a, j, 3) == lat(t, t.root, j, 2)
{ }

proof fn hl_split(t: LN, a: Address, p: LP, s: LinkedBranch_v::SplitArg, j: Key)
    requires lgood(t, 2), lone(t), t.can_split(a, p, s), p.depth == 0
    ensures lok(t.split(a, p, s), t.root, 2, 0, 100), lone(t.split(a, p, s)), t.split(a, p, s).wf(), lat(t.split(a, p, s), t.root, j, 2) == lat(t, t.root, j, 2)
{ }

//reach
proof fn hl_can_split(t: LN, a: Address, p: LP, s: LinkedBranch_v::SplitArg)
    requires lgood(t, 2), lone(t), t.can_split(a, p, s), p.depth == 0
    ensures false
{ }

} // verus!
