#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::betree::Buffer_v::*;
use crate::betree::BufferSeq_v::*;
use crate::betree::Domain_v::*;
use crate::betree::PivotTable_v::*;
use crate::betree::Memtable_v::*;
use crate::betree::PagedBetree_v;
use crate::betree::PagedBetree_v::PagedBetree;
use crate::betree::PivotBetree_v;
use crate::betree::PivotBetree_v::PivotBetree;
use crate::betree::FilteredBetree_v;
use crate::betree::FilteredBetree_v::FilteredBetree;

verus! {

//cfgall depth=3, seq=3, maxtick=60000000, nat=(0,3), int=(0,3), qint=(0,4)

// the messages for a key, applied oldest first to the default value
spec fn none() -> Message { Message::Define { value: default_value() } }
spec fn msg(b: SimpleBuffer, k: Key) -> Message { if b.map.contains_key(k) { b.map[k] } else { Message::Update { delta: nop_delta() } } }
spec fn puts_on(m: Message, h: MsgHistory, k: Key, from: nat) -> Message
    decreases h.seq_end - from
{
    if from >= h.seq_end { m } else { puts_on(if h.msgs[from].key == k { m.merge(h.msgs[from].message) } else { m }, h, k, from + 1) }
}
spec fn slot_from(p: Seq<Element>, k: Key, i: int) -> int
    decreases p.len() - i
{
    if i + 1 >= p.len() { -1 } else if Element::lte(p[i], to_element(k)) && Element::lt(to_element(k), p[i + 1]) { i } else { slot_from(p, k, i + 1) }
}
spec fn fold(m: Message, b: Seq<SimpleBuffer>, k: Key, i: int) -> Message
    decreases b.len() - i
{
    if i >= b.len() { m } else { fold(m.merge(msg(b[i], k)), b, k, i + 1) }
}

// ---- a child for every key
//cfgall depth=5
type GN = PagedBetree_v::BetreeNode;
type GS = PagedBetree::State;
type GL = PagedBetree::Label;

spec fn g_val(n: GN, k: Key) -> Message
    decreases n
{
    match n { PagedBetree_v::BetreeNode::Nil => none(), PagedBetree_v::BetreeNode::Node { buffer, children } => g_val(children.map[k], k).merge(msg(buffer, k)) }
}
spec fn g_at(v: GS, k: Key) -> Message { g_val(v.root, k).merge(msg(v.memtable.buffer, k)) }

proof fn hg_init(w: GS, t: Stamped<GN>)
    requires PagedBetree::State::init_by(w, PagedBetree::Config::initialize(t))
    ensures w.wf(), w.memtable.seq_end == t.seq_end, forall|k: Key| g_at(w, k) == g_val(t.value, k)
{ }

proof fn hg_empty(k: Key)
    ensures g_val(PagedBetree_v::empty_image().value, k) == none(), PagedBetree_v::empty_image().value.wf(), PagedBetree_v::empty_image().seq_end == 0
{ }

proof fn hg_query(v: GS, w: GS, e: nat, k: Key, x: Value)
    requires v.wf(), PagedBetree::State::next(v, w, GL::Query { end_lsn: e, key: k, value: x })
    ensures w == v, e == v.memtable.seq_end, g_at(v, k) == (Message::Define { value: x })
{ }

//reach
proof fn hg_can_query(v: GS, w: GS, e: nat, k: Key, x: Value)
    requires v.wf(), PagedBetree::State::next(v, w, GL::Query { end_lsn: e, key: k, value: x }), v.root is Node, v.root->children.map[k] is Node, x != default_value()
    ensures false
{ }

proof fn hg_put(v: GS, w: GS, h: MsgHistory)
    requires v.wf(), PagedBetree::State::next(v, w, GL::Put { puts: h })
    ensures w.wf(), h.seq_start == v.memtable.seq_end, w.memtable.seq_end == h.seq_end, forall|k: Key| g_at(w, k) == puts_on(g_at(v, k), h, k, h.seq_start)
{ }

proof fn hg_freeze(v: GS, w: GS, t: Stamped<GN>)
    requires v.wf(), PagedBetree::State::next(v, w, GL::FreezeAs { stamped_betree: t })
    ensures w == v, t.value.wf(), t.seq_end == v.memtable.seq_end, forall|k: Key| g_val(t.value, k) == g_at(v, k)
{ }

proof fn hg_internal(v: GS, w: GS)
    requires v.wf(), PagedBetree::State::next(v, w, GL::Internal {})
    ensures w.wf(), w.memtable.seq_end == v.memtable.seq_end, forall|k: Key| g_at(w, k) == g_at(v, k)
{ }

// every key the tree covers has a receipt
spec fn g_lines(n: GN, k: Key) -> Seq<PagedBetree_v::QueryReceiptLine>
    decreases n
{
    let top = PagedBetree_v::QueryReceiptLine { node: n, result: g_val(n, k) };
    if n is Nil { seq![top] } else { seq![top] + g_lines(n->children.map[k], k) }
}
proof fn hg_total(n: GN, k: Key)
    requires n.wf()
    ensures (PagedBetree_v::QueryReceipt { key: k, root: n, lines: g_lines(n, k) }).valid_for(n, k)
{ }

// ---- children between pivots
//cfgall depth=3
type IN = PivotBetree_v::BetreeNode;
type IS = PivotBetree::State;
type IL = PivotBetree::Label;

spec fn i_val(n: IN, k: Key) -> Message
    decreases n
{
    match n { PivotBetree_v::BetreeNode::Nil => none(),
        PivotBetree_v::BetreeNode::Node { buffer, pivots, children } => { let s = slot_from(pivots.pivots, k, 0); if s < 0 { none() } else { i_val(children[s], k).merge(msg(buffer, k)) } } }
}
spec fn i_at(v: IS, k: Key) -> Message { i_val(v.root, k).merge(msg(v.memtable.buffer, k)) }
// the root covers every key
spec fn i_ok(v: IS) -> bool { v.wf() && i_cover(v.root) }
spec fn i_cover(n: IN) -> bool { n is Node ==> n->pivots.pivots[0] == Element::min_elem() && n->pivots.pivots.last() is Max }

proof fn hi_init(w: IS, t: Stamped<IN>)
    requires PivotBetree::State::init_by(w, PivotBetree::Config::initialize(t)), i_cover(t.value)
    ensures i_ok(w), w.memtable.seq_end == t.seq_end, forall|k: Key| i_at(w, k) == i_val(t.value, k)
{ }

proof fn hi_empty(k: Key)
    ensures i_val(PivotBetree_v::empty_image().value, k) == none(), PivotBetree_v::empty_image().value.wf(), PivotBetree_v::empty_image().seq_end == 0
{ }

proof fn hi_query(v: IS, w: IS, e: nat, k: Key, x: Value)
    requires i_ok(v), PivotBetree::State::next(v, w, IL::Query { end_lsn: e, key: k, value: x })
    ensures w == v, e == v.memtable.seq_end, i_at(v, k) == (Message::Define { value: x })
{ }

//reach
//cfg depth=3
proof fn hi_can_query(n: IN, r: PivotBetree_v::QueryReceipt, k: Key)
    requires r.valid_for(n, k), r.lines.len() == 3, r.result() != none()
    ensures false
{ }

proof fn hi_put(v: IS, w: IS, h: MsgHistory)
    requires i_ok(v), PivotBetree::State::next(v, w, IL::Put { puts: h })
    ensures i_ok(w), h.seq_start == v.memtable.seq_end, w.memtable.seq_end == h.seq_end, forall|k: Key| i_at(w, k) == puts_on(i_at(v, k), h, k, h.seq_start)
{ }

proof fn hi_freeze(v: IS, w: IS, t: Stamped<IN>)
    requires i_ok(v), PivotBetree::State::next(v, w, IL::FreezeAs { stamped_betree: t })
    ensures w == v, t.value.wf(), t.seq_end == v.memtable.seq_end, forall|k: Key| i_val(t.value, k) == i_at(v, k)
{ }

//cfg depth=2
proof fn hi_internal(v: IS, w: IS)
    requires i_ok(v), PivotBetree::State::next(v, w, IL::Internal {})
    ensures i_ok(w), w.memtable.seq_end == v.memtable.seq_end, forall|k: Key| i_at(w, k) == i_at(v, k)
{ }

//cfg depth=3
proof fn hi_split(n: IN, r: crate::betree::SplitRequest_v::SplitRequest)
    requires n.can_split_parent(r)
    ensures n.split_parent(r).wf(), n.split_parent(r).my_domain() == n.my_domain(), n.split_parent(r)->children.len() == n->children.len() + 1,
        forall|k: Key| i_val(n.split_parent(r), k) == i_val(n, k)
{ }

//reach
proof fn hi_can_split_leaf(n: IN, r: crate::betree::SplitRequest_v::SplitRequest)
    requires n.can_split_parent(r), r is SplitLeaf
    ensures false
{ }

//reach
//cfg depth=3
proof fn hi_can_split_index(n: IN, r: crate::betree::SplitRequest_v::SplitRequest)
    requires n.can_split_parent(r), r is SplitIndex
    ensures false
{ }

//cfg depth=3
proof fn hi_flush(n: IN, c: nat)
    requires n.can_flush(c)
    ensures n.flush(c).wf(), n.flush(c).my_domain() == n.my_domain(), forall|k: Key| i_val(n.flush(c), k) == i_val(n, k)
{ }

// every key the tree covers has a receipt
spec fn i_lines(n: IN, k: Key) -> Seq<PivotBetree_v::QueryReceiptLine>
    decreases n
{
    let top = PivotBetree_v::QueryReceiptLine { node: n, result: i_val(n, k) };
    if n is Nil { seq![top] } else { seq![top] + i_lines(n->children[slot_from(n->pivots.pivots, k, 0)], k) }
}
proof fn hi_total(n: IN, k: Key)
    requires n.wf(), i_cover(n)
    ensures (PivotBetree_v::QueryReceipt { key: k, root: n, lines: i_lines(n, k) }).valid_for(n, k)
{ }

// ---- buffers shared by the children and filtered by what was flushed
type FN = FilteredBetree_v::BetreeNode;
type FS = FilteredBetree::State;
type FL = FilteredBetree::Label;

spec fn f_val(n: FN, k: Key) -> Message
    decreases n
{
    match n { FilteredBetree_v::BetreeNode::Nil => none(),
        FilteredBetree_v::BetreeNode::Node { buffers, pivots, children, flushed } => { let s = slot_from(pivots.pivots, k, 0);
            if s < 0 { none() } else { fold(f_val(children[s], k), buffers.buffers, k, flushed.offsets[s] as int) } } }
}
spec fn f_at(v: FS, k: Key) -> Message { f_val(v.root, k).merge(msg(v.memtable.buffer, k)) }
spec fn f_ok(v: FS) -> bool { v.wf() && f_cover(v.root) }
spec fn f_cover(n: FN) -> bool { n is Node ==> n->pivots.pivots[0] == Element::min_elem() && n->pivots.pivots.last() is Max }

proof fn hf_init(w: FS, t: Stamped<FN>)
    requires FilteredBetree::State::init_by(w, FilteredBetree::Config::initialize(t)), f_cover(t.value)
    ensures f_ok(w), w.memtable.seq_end == t.seq_end, forall|k: Key| f_at(w, k) == f_val(t.value, k)
{ }

proof fn hf_empty(k: Key)
    ensures f_val(FilteredBetree_v::empty_image().value, k) == none(), FilteredBetree_v::empty_image().value.wf(), FilteredBetree_v::empty_image().seq_end == 0
{ }

proof fn hf_query(v: FS, w: FS, e: nat, k: Key, x: Value)
    requires f_ok(v), FilteredBetree::State::next(v, w, FL::Query { end_lsn: e, key: k, value: x })
    ensures w == v, e == v.memtable.seq_end, f_at(v, k) == (Message::Define { value: x })
{ }

//reach
//cfg depth=3
proof fn hf_can_query(n: FN, r: FilteredBetree_v::QueryReceipt, k: Key)
    requires r.valid_for(n, k), r.lines.len() == 3, r.result() != none()
    ensures false
{ }

proof fn hf_put(v: FS, w: FS, h: MsgHistory)
    requires f_ok(v), FilteredBetree::State::next(v, w, FL::Put { puts: h })
    ensures f_ok(w), h.seq_start == v.memtable.seq_end, w.memtable.seq_end == h.seq_end, forall|k: Key| f_at(w, k) == puts_on(f_at(v, k), h, k, h.seq_start)
{ }

proof fn hf_freeze(v: FS, w: FS, t: Stamped<FN>)
    requires f_ok(v), FilteredBetree::State::next(v, w, FL::FreezeAs { stamped_betree: t })
    ensures w == v, t.value.wf(), t.seq_end == v.memtable.seq_end, forall|k: Key| f_val(t.value, k) == f_at(v, k)
{ }

//cfg depth=2
proof fn hf_internal(v: FS, w: FS)
    requires f_ok(v), FilteredBetree::State::next(v, w, FL::Internal {})
    ensures f_ok(w), w.memtable.seq_end == v.memtable.seq_end, forall|k: Key| f_at(w, k) == f_at(v, k)
{ }

//cfg depth=3
proof fn hf_split(n: FN, r: crate::betree::SplitRequest_v::SplitRequest)
    requires n.can_split_parent(r)
    ensures n.split_parent(r).wf(), n.split_parent(r).my_domain() == n.my_domain(), n.split_parent(r)->children.len() == n->children.len() + 1,
        forall|k: Key| f_val(n.split_parent(r), k) == f_val(n, k)
{ }

//cfg depth=2
proof fn hf_flush(n: FN, c: nat, g: nat)
    requires n.can_flush(c, g)
    ensures n.flush(c, g).wf(), n.flush(c, g).my_domain() == n.my_domain(), forall|k: Key| f_val(n.flush(c, g), k) == f_val(n, k)
{ }

//reach
proof fn hf_can_flush_gc(n: FN, c: nat, g: nat)
    requires n.can_flush(c, g), g == 1, n->children.len() == 2, n->flushed.offsets[0] != n->flushed.offsets[1]
    ensures false
{ }

//cfg depth=2
proof fn hf_compact(n: FN, s: nat, e: nat, b: SimpleBuffer)
    requires n.can_compact(s, e, b)
    ensures n.compact(s, e, b).wf(), n.compact(s, e, b).my_domain() == n.my_domain(), n.compact(s, e, b)->buffers.len() == n->buffers.len() - (e - s) + 1,
        forall|k: Key| f_val(n.compact(s, e, b), k) == f_val(n, k)
{ }

//reach
//cfg depth=2
proof fn hf_can_compact(n: FN, s: nat, e: nat, b: SimpleBuffer, k: Key)
    requires n.can_compact(s, e, b), e == s + 2, n->flushed.offsets[0] == s + 1, b.map.contains_key(k)
    ensures false
{ }

// every key the tree covers has a receipt
spec fn f_lines(n: FN, k: Key) -> Seq<FilteredBetree_v::QueryReceiptLine>
    decreases n
{
    let top = FilteredBetree_v::QueryReceiptLine { node: n, result: f_val(n, k) };
    if n is Nil { seq![top] } else { seq![top] + f_lines(n->children[slot_from(n->pivots.pivots, k, 0)], k) }
}
proof fn hf_total(n: FN, k: Key)
    requires n.wf(), f_cover(n)
    ensures (FilteredBetree_v::QueryReceipt { key: k, root: n, lines: f_lines(n, k) }).valid_for(n, k)
{ }

} // verus!
