#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::disk::GenericDisk_v::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::BufferDisk_v::*;
use crate::betree::LinkedSeq_v::*;
use crate::betree::Domain_v::*;
use crate::betree::PivotTable_v::*;
use crate::betree::Memtable_v::*;
use crate::betree::SplitRequest_v::*;
use crate::betree::LinkedBetree_v;
use crate::betree::LinkedBetree_v::*;

verus! {

//cfgall depth=3, seq=3, maxtick=60000000, addrs=[(0,0),(0,1),(1,0),(1,1)], nat=(0,2), int=(0,2), qint=(0,3), inst={"T": ("data", "lib::betree::Buffer_v::SimpleBuffer", "", ())}

type LB = LinkedBetree<SimpleBuffer>;

spec fn none() -> Message { Message::Define { value: default_value() } }
spec fn msg(b: SimpleBuffer, k: Key) -> Message { if b.map.contains_key(k) { b.map[k] } else { Message::Update { delta: nop_delta() } } }
spec fn slot_from(p: Seq<Element>, k: Key, i: int) -> int
    decreases p.len() - i
{
    if i + 1 >= p.len() { -1 } else if Element::lte(p[i], to_element(k)) && Element::lt(to_element(k), p[i + 1]) { i } else { slot_from(p, k, i + 1) }
}
spec fn fold(m: Message, t: LB, b: Seq<Address>, k: Key, i: int) -> Message
    decreases b.len() - i
{
    if i >= b.len() { m } else { fold(m.merge(msg(t.buffer_dv.entries[b[i]], k)), t, b, k, i + 1) }
}
// the value of a key in the tree under a pointer
spec fn val(t: LB, p: Pointer, k: Key, fuel: nat) -> Message
    decreases fuel
{
    if fuel == 0 || p is None { none() } else {
        let n = t.dv.entries[p.unwrap()];
        let s = slot_from(n.pivots.pivots, k, 0);
        if s < 0 { none() } else { fold(val(t, n.children[s], k, (fuel - 1) as nat), t, n.buffers.addrs, k, n.flushed.offsets[s] as int) }
    }
}
// the tree under a pointer has at most `fuel` levels, its pages are on the disk and fit together
spec fn ok(t: LB, p: Pointer, fuel: nat) -> bool
    decreases fuel
{
    p is Some ==> fuel > 0 && t.dv.entries.contains_key(p.unwrap()) && ({
        let n = t.dv.entries[p.unwrap()];
        &&& n.wf()
        &&& forall|i: int| 0 <= i < n.buffers.addrs.len() ==> t.buffer_dv.entries.contains_key(n.buffers.addrs[i])
        &&& forall|i: int| 0 <= i < n.children.len() ==> ok(t, n.children[i], (fuel - 1) as nat)
        &&& forall|i: int| 0 <= i < n.children.len() && n.children[i] is Some ==> t.dv.entries[n.children[i].unwrap()].pivots.pivots[0] == n.pivots.pivots[i]
                && t.dv.entries[n.children[i].unwrap()].pivots.pivots.last() == n.pivots.pivots[i + 1]
    })
}
spec fn top(t: LB) -> bool { t.root is Some ==> t.root().pivots.pivots[0] == Element::min_elem() && t.root().pivots.pivots.last() is Max }

proof fn hb_query(t: LB, r: LinkedBetree_v::QueryReceipt<SimpleBuffer>, k: Key)
    requires ok(t, t.root, 2), r.valid_for(t, k)
    ensures r.result() == val(t, t.root, k, 2)
{ }

proof fn hb_push(t: LB, b: SimpleBuffer, a: TwoAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), top(t), a.no_duplicates(), t.is_fresh(a.repr())
    ensures ({ let u = t.push_memtable(b, a);
        &&& ok(u, u.root, 2) &&& top(u) &&& u.root is Some &&& t.dv.is_sub_disk(u.dv) &&& t.buffer_dv.is_sub_disk(u.buffer_dv)
        &&& val(u, u.root, k, 2) == val(t, t.root, k, 2).merge(msg(b, k)) })
{ }

proof fn hb_grow(t: LB, a: Address, k: Key)
    requires t.wf(), ok(t, t.root, 2), top(t), t.is_fresh(set![a])
    ensures ({ let u = t.grow(a); ok(u, u.root, 3) && top(u) && u.root == Some(a) && t.dv.is_sub_disk(u.dv) && u.buffer_dv == t.buffer_dv && val(u, u.root, k, 3) == val(t, t.root, k, 2) })
{ }

//cfg addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)], seq=3
proof fn hb_split(t: LB, r: SplitRequest, a: SplitAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.can_split_parent(r), a.no_duplicates(), t.is_fresh(a.repr())
    ensures ({ let u = t.split_parent(r, a);
        &&& ok(u, u.root, 2) &&& u.root().my_domain() == t.root().my_domain() &&& t.dv.is_sub_disk(u.dv) &&& u.buffer_dv == t.buffer_dv
        &&& u.root().children.len() == t.root().children.len() + 1 &&& val(u, u.root, k, 2) == val(t, t.root, k, 2) })
{ }

//reach
//cfg addrs=[(0,0),(0,1),(1,0),(1,1),(2,0)], seq=3
proof fn hb_can_split(t: LB, r: SplitRequest, a: SplitAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.can_split_parent(r), a.no_duplicates(), t.is_fresh(a.repr()), val(t, t.root, k, 2) != none()
    ensures false
{ }

//cfg seq=3
proof fn hb_flush(t: LB, c: nat, g: nat, a: TwoAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.can_flush(c, g), a.no_duplicates(), t.is_fresh(a.repr())
    ensures ({ let u = t.flush(c, g, a);
        &&& ok(u, u.root, 2) &&& u.root().my_domain() == t.root().my_domain() &&& t.dv.is_sub_disk(u.dv) &&& u.buffer_dv == t.buffer_dv
        &&& val(u, u.root, k, 2) == val(t, t.root, k, 2) })
{ }

//reach
proof fn hb_can_flush(t: LB, c: nat, g: nat, a: TwoAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.can_flush(c, g), g == 1, a.no_duplicates(), t.is_fresh(a.repr()), val(t, t.root, k, 2) != none()
    ensures false
{ }

proof fn hb_compact(t: LB, s: nat, e: nat, b: SimpleBuffer, d: BufferDisk<SimpleBuffer>, a: TwoAddrs, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.can_compact(s, e, b, d, a), a.no_duplicates(), t.is_fresh(a.repr())
    ensures ({ let u = t.compact(s, e, b, a);
        &&& ok(u, u.root, 2) &&& u.root().my_domain() == t.root().my_domain() &&& t.dv.is_sub_disk(u.dv) &&& t.buffer_dv.is_sub_disk(u.buffer_dv)
        &&& u.root().buffers.len() == t.root().buffers.len() - (e - s) + 1 &&& val(u, u.root, k, 2) == val(t, t.root, k, 2) })
{ }

// what replaces the target of a path below the root keeps every value the target had
//cfg maxuniv=2000, seq=2
proof fn hb_substitute(p: LinkedBetree_v::Path<SimpleBuffer>, u: LB, a: PathAddrs, k: Key)
    requires ok(p.linked, p.linked.root, 2), p.valid(), p.depth == 1, p.can_substitute(u, a), ok(u, u.root, 1), forall|i: int| 0 <= i < a.len() ==> !u.dv.entries.contains_key(a[i]),
        forall|j: Key| #[trigger] val(u, u.root, j, 1) == val(p.target(), p.target().root, j, 1)
    ensures ({ let w = p.substitute(u, a);
        &&& ok(w, w.root, 2) &&& w.root().my_domain() == p.linked.root().my_domain() &&& u.dv.is_sub_disk(w.dv) &&& w.buffer_dv == u.buffer_dv
        &&& val(w, w.root, k, 2) == val(p.linked, p.linked.root, k, 2) })
{ }

//thorough
//cfg maxuniv=2000
proof fn hb_substitute_wide(p: LinkedBetree_v::Path<SimpleBuffer>, u: LB, a: PathAddrs, k: Key)
    requires ok(p.linked, p.linked.root, 2), p.valid(), p.depth == 1, p.can_substitute(u, a), ok(u, u.root, 1), forall|i: int| 0 <= i < a.len() ==> !u.dv.entries.contains_key(a[i]),
        forall|j: Key| #[trigger] val(u, u.root, j, 1) == val(p.target(), p.target().root, j, 1)
    ensures ({ let w = p.substitute(u, a);
        &&& ok(w, w.root, 2) &&& w.root().my_domain() == p.linked.root().my_domain() &&& u.dv.is_sub_disk(w.dv) &&& w.buffer_dv == u.buffer_dv
        &&& val(w, w.root, k, 2) == val(p.linked, p.linked.root, k, 2) })
{ }

// dropping pages that are not in the tree changes no value
//cfg addrs=[(0,0),(0,1),(1,0)], maxuniv=2000
proof fn hb_view(t: LB, u: LB, k: Key)
    requires t.wf(), ok(t, t.root, 2), t.acyclic(), t.valid_view(u), t.reachable_buffers_preserved(u)
    ensures ok(u, u.root, 2), val(u, u.root, k, 2) == val(t, t.root, k, 2)
{ }

} // verus!
