#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::TotalKMMap_t::*;
use crate::spec::FloatingSeq_t::*;
use crate::spec::MapSpec_t::*;
use crate::spec::AsyncDisk_t::*;
use crate::betree::Memtable_v::*;

verus! {

// ---- keys: the position of a key in a sorted run
//cfg native=(0,3), seq=4
proof fn h_largest_lte(run: Seq<Key>, k: Key, n: int)
    requires Key::is_strictly_sorted(run), 0 <= n <= run.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] run[i]).0 <= k.0,
        forall|i: int| n <= i < run.len() ==> k.0 < (#[trigger] run[i]).0,
    ensures Key::largest_lte(run, k) == n - 1
{ }

//cfg native=(0,3), seq=4
proof fn h_largest_lt(run: Seq<Key>, k: Key, n: int)
    requires Key::is_strictly_sorted(run), 0 <= n <= run.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] run[i]).0 < k.0,
        forall|i: int| n <= i < run.len() ==> k.0 <= (#[trigger] run[i]).0,
    ensures Key::largest_lt(run, k) == n - 1
{ }

//cfg native=(0,3)
proof fn h_order(a: Key, b: Key, c: Key)
    ensures Key::lte(a, b) || Key::lte(b, a), Key::lte(a, b) && Key::lte(b, a) ==> a == b,
        Key::lt(a, b) == (a.0 < b.0), Key::lte(a, b) == (a.0 <= b.0),
        Key::lt(a, b) == !Key::lte(b, a),
        Element::lt(to_element(a), to_element(b)) == (a.0 < b.0),
        Element::lte(to_element(a), to_element(b)) == (a.0 <= b.0),
        Element::lt(to_element(a), Element::Max), !Element::lt(Element::Max, to_element(a)),
        Element::lte(Element::Max, Element::Max), !Element::lt(Element::Max, Element::Max),
        !Element::lte(Element::Max, to_element(a)),
        to_key(to_element(a)) == a,
        Element::lte(Element::min_elem(), to_element(a)),
{ }

//cfg native=(0,3), seq=4
proof fn h_elem_largest_lte(run: Seq<Element>, k: Element, n: int)
    requires Element::is_strictly_sorted(run), 0 <= n <= run.len(),
        forall|i: int| 0 <= i < n ==> !Element::lt(k, #[trigger] run[i]),
        forall|i: int| n <= i < run.len() ==> Element::lt(k, #[trigger] run[i]),
    ensures Element::largest_lte(run, k) == n - 1
{ }

//cfg native=(0,3)
proof fn h_pivoted_union(l: Map<Key, nat>, p: Key, r: Map<Key, nat>, k: Key)
    ensures ({ let u = Key::map_pivoted_union(l, p, r);
        &&& u.dom().contains(k) == (if k.0 < p.0 { l.dom().contains(k) } else { r.dom().contains(k) })
        &&& u.dom().contains(k) ==> u[k] == (if k.0 < p.0 { l[k] } else { r[k] }) })
{ }

// ---- messages: merging composes
spec fn effect(m: Message, v: Value) -> Value {
    match m { Message::Define { value } => value, Message::Update { delta } => Message::apply_delta(delta, v) }
}

proof fn h_merge_effect(a: Message, b: Message, v: Value)
    ensures effect(a.merge(b), v) == effect(b, effect(a, v))
{ }

proof fn h_merge_assoc(a: Message, b: Message, c: Message)
    requires !(a is Update && b is Update && c is Update) || a->delta == nop_delta() || b->delta == nop_delta() || c->delta == nop_delta()
    ensures a.merge(b.merge(c)) == a.merge(b).merge(c)
{ }

proof fn h_merge_define(a: Message, w: Value)
    ensures a.merge(Message::Define { value: w }) == (Message::Define { value: w }),
        (Message::Define { value: w }).merge(a) is Define,
        (Message::Define { value: w }).merge(Message::Update { delta: nop_delta() }) == (Message::Define { value: w }),
        (Message::Update { delta: nop_delta() }).merge(a) == a,
        a.merge(Message::Update { delta: nop_delta() }) == a,
{ }

// ---- the total map
proof fn h_total(m: TotalKMMap, k: Key, j: Key, v: Message)
    requires m.wf(),
    ensures m.insert(k, v).wf(), m.insert(k, v)[j] == (if j == k { v } else { m[j] }),
        TotalKMMap::empty().wf(), TotalKMMap::empty()[k] == (Message::Define { value: Value(0) }),
{ }

// ---- the application state machine
proof fn h_map_put(pre: MapSpec::State, post: MapSpec::State, k: Key, v: Value, j: Key)
    requires pre.kmmap.wf(), MapSpec::State::next(pre, post, MapSpec::Label::Put { input: Input::PutInput { key: k, value: v }, output: Output::PutOutput })
    ensures post.kmmap.wf(), post.kmmap[j] == (if j == k { Message::Define { value: v } } else { pre.kmmap[j] })
{ }

proof fn h_map_query(pre: MapSpec::State, post: MapSpec::State, k: Key, v: Value)
    requires pre.kmmap.wf(), MapSpec::State::next(pre, post, MapSpec::Label::Query { input: Input::QueryInput { key: k }, output: Output::QueryOutput { value: v } })
    ensures post == pre, v == pre.kmmap[k]->value
{ }

proof fn h_map_kinds(pre: MapSpec::State, post: MapSpec::State, lbl: MapSpec::Label)
    requires MapSpec::State::next(pre, post, lbl)
    ensures
        getInput(lbl) is QueryInput <==> lbl is Query, getInput(lbl) is PutInput <==> lbl is Put, getInput(lbl) is NoopInput <==> lbl is Noop,
        getOutput(lbl) is QueryOutput <==> lbl is Query, getOutput(lbl) is PutOutput <==> lbl is Put, getOutput(lbl) is NoopOutput <==> lbl is Noop,
        !(lbl is Put) ==> post == pre,
{ }

proof fn h_map_put_then_query(a: MapSpec::State, b: MapSpec::State, c: MapSpec::State, k: Key, v: Value, k2: Key, v2: Value)
    requires a.kmmap.wf(), forall|k: Key| (#[trigger] a.kmmap[k]) is Define,
        MapSpec::State::next(a, b, MapSpec::Label::Put { input: Input::PutInput { key: k, value: v }, output: Output::PutOutput }),
        MapSpec::State::next(b, c, MapSpec::Label::Query { input: Input::QueryInput { key: k2 }, output: Output::QueryOutput { value: v2 } }),
    ensures k2 == k ==> v2 == v, k2 != k ==> v2 == a.kmmap[k2]->value
{ }

// ---- requests and replies
proof fn h_async_request(pre: AsyncMap::State, post: AsyncMap::State, r: Request)
    requires AsyncMap::State::next(pre, post, AsyncMap::Label::RequestOp { req: r })
    ensures post.persistent == pre.persistent, post.ephemeral.replies == pre.ephemeral.replies,
        !pre.ephemeral.requests.contains(r), post.ephemeral.requests =~= pre.ephemeral.requests.insert(r)
{ }

proof fn h_async_reply(pre: AsyncMap::State, post: AsyncMap::State, r: Reply)
    requires AsyncMap::State::next(pre, post, AsyncMap::Label::ReplyOp { reply: r })
    ensures post.persistent == pre.persistent, post.ephemeral.requests == pre.ephemeral.requests,
        pre.ephemeral.replies.contains(r), post.ephemeral.replies =~= pre.ephemeral.replies.remove(r)
{ }

proof fn h_async_execute(pre: AsyncMap::State, post: AsyncMap::State, q: Request, r: Reply, k: Key)
    requires pre.persistent.appv.kmmap.wf(), AsyncMap::State::next(pre, post, AsyncMap::Label::ExecuteOp { req: q, reply: r })
    ensures q.id == r.id, pre.ephemeral.requests.contains(q), !pre.ephemeral.replies.contains(r),
        post.ephemeral.requests =~= pre.ephemeral.requests.remove(q), post.ephemeral.replies =~= pre.ephemeral.replies.insert(r),
        q.input is PutInput ==> r.output is PutOutput && post.persistent.appv.kmmap[k] == (if k == q.input->PutInput_key { Message::Define { value: q.input->PutInput_value } } else { pre.persistent.appv.kmmap[k] }),
        q.input is QueryInput ==> r.output is QueryOutput && r.output->QueryOutput_value == pre.persistent.appv.kmmap[q.input->QueryInput_key]->value && post.persistent == pre.persistent,
        q.input is NoopInput ==> r.output is NoopOutput && post.persistent == pre.persistent,
{ }

// ---- versions
spec fn same<T>(a: FloatingSeq<T>, b: FloatingSeq<T>, lo: int, hi: int) -> bool {
    forall|i: int| lo <= i < hi ==> a[i] == b[i]
}

//cfg seq=3, int=(0,5), qint=(0,6)
proof fn h_fseq(f: FloatingSeq<nat>, n: int, m: int)
    requires 0 <= n <= f.len(), f.start <= m <= f.len(),
    ensures ({ let p = f.get_prefix(n); let s = f.get_suffix(m);
        &&& p.len() == n &&& (f.start <= n ==> p.start == f.start && same(p, f, f.start as int, n))
        &&& s.start == m &&& s.len() == f.len() &&& same(s, f, m, f.len())
        &&& forall|i: int| p.is_active(i) <==> f.is_active(i) && i < n
        &&& forall|i: int| s.is_active(i) <==> f.is_active(i) && m <= i })
{ }

//cfg seq=3, int=(0,5), qint=(0,6)
proof fn h_fseq_append(f: FloatingSeq<nat>, e: Seq<nat>)
    ensures ({ let a = f.append(e);
        &&& a.start == f.start &&& a.len() == f.len() + e.len() &&& same(a, f, f.start as int, f.len())
        &&& forall|i: int| 0 <= i < e.len() ==> a[f.len() + i] == e[i]
        &&& (e.len() == 1 ==> a.last() == e[0] && a.drop_last() =~= f) })
{ }

//cfg seq=3, int=(0,5), qint=(0,6)
proof fn h_fseq_new(a: nat, b: nat, i: int)
    requires a <= b <= a + 3, a <= i < b,
    ensures ({ let f = FloatingSeq::new(a, b, |i: int| i * 7); f.start == a && f.len() == b && f[i] == i * 7 && f.get(i) == i * 7 && f.first_active_index() == a })
{ }

proof fn h_ct_init(s: CrashTolerantAsyncMap::State)
    requires CrashTolerantAsyncMap::State::initialize(s)
    ensures s.versions.start == 0, s.versions.len() == 1, s.versions[0].appv.kmmap == TotalKMMap::empty(), s.sync_requests =~= Map::empty(),
        s.async_ephemeral.requests =~= Set::empty(), s.async_ephemeral.replies =~= Set::empty()
{ }

// a crash forgets everything above the stable version, nothing at or below it
proof fn h_ct_crash(pre: CrashTolerantAsyncMap::State, post: CrashTolerantAsyncMap::State)
    requires pre.versions.entries.len() > 0, CrashTolerantAsyncMap::State::next(pre, post, CrashTolerantAsyncMap::Label::CrashOp)
    ensures post.versions.entries.len() == 1, post.versions.start == pre.versions.start, post.versions.last() == pre.versions[pre.versions.start as int],
        post.async_ephemeral.requests =~= Set::empty(), post.async_ephemeral.replies =~= Set::empty(), post.sync_requests =~= Map::empty()
{ }

// a sync keeps the latest version and every version at or above the new stable one; it never moves back
proof fn h_ct_sync(pre: CrashTolerantAsyncMap::State, post: CrashTolerantAsyncMap::State)
    requires pre.versions.entries.len() > 0, CrashTolerantAsyncMap::State::next(pre, post, CrashTolerantAsyncMap::Label::SyncOp)
    ensures pre.versions.start <= post.versions.start, post.versions.start < pre.versions.len(), post.versions.len() == pre.versions.len(),
        forall|i: int| post.versions.start <= i < pre.versions.len() ==> post.versions[i] == pre.versions[i],
        post.async_ephemeral == pre.async_ephemeral, post.sync_requests == pre.sync_requests
{ }

proof fn h_ct_req_sync(pre: CrashTolerantAsyncMap::State, post: CrashTolerantAsyncMap::State, id: SyncReqId)
    requires pre.versions.entries.len() > 0, CrashTolerantAsyncMap::State::next(pre, post, CrashTolerantAsyncMap::Label::ReqSyncOp { sync_req_id: id })
    ensures post.versions == pre.versions, post.async_ephemeral == pre.async_ephemeral, !pre.sync_requests.dom().contains(id),
        post.sync_requests =~= pre.sync_requests.insert(id, (pre.versions.len() - 1) as nat)
{ }

// a completed sync request means the version current when it was made is stable
proof fn h_ct_reply_sync(pre: CrashTolerantAsyncMap::State, post: CrashTolerantAsyncMap::State, id: SyncReqId)
    requires CrashTolerantAsyncMap::State::next(pre, post, CrashTolerantAsyncMap::Label::ReplySyncOp { sync_req_id: id })
    ensures post.versions == pre.versions, post.async_ephemeral == pre.async_ephemeral, pre.sync_requests.dom().contains(id),
        pre.sync_requests[id] <= pre.versions.start, post.sync_requests =~= pre.sync_requests.remove(id)
{ }

// an operation appends at most one version and edits none
proof fn h_ct_operate(pre: CrashTolerantAsyncMap::State, post: CrashTolerantAsyncMap::State, op: AsyncMap::Label)
    requires pre.versions.entries.len() > 0, CrashTolerantAsyncMap::State::next(pre, post, CrashTolerantAsyncMap::Label::OperateOp { base_op: op })
    ensures post.sync_requests == pre.sync_requests, post.versions.start <= pre.versions.start,
        pre.versions.len() <= post.versions.len() <= pre.versions.len() + 1,
        forall|i: int| pre.versions.start <= i < pre.versions.len() ==> post.versions[i] == pre.versions[i],
        op is ExecuteOp ==> pre.async_ephemeral.requests.contains(op->ExecuteOp_req) && post.async_ephemeral.requests =~= pre.async_ephemeral.requests.remove(op->ExecuteOp_req)
            && post.async_ephemeral.replies =~= pre.async_ephemeral.replies.insert(op->ExecuteOp_reply),
        op is ReplyOp ==> post.versions.last() == pre.versions.last() && pre.async_ephemeral.replies.contains(op->ReplyOp_reply),
        op is RequestOp ==> post.versions.last() == pre.versions.last() && post.async_ephemeral.requests.contains(op->RequestOp_req)
{ }

// sync requested, answered, then a crash: the state at the request is in the surviving prefix
proof fn h_ct_durable(a: CrashTolerantAsyncMap::State, b: CrashTolerantAsyncMap::State, c: CrashTolerantAsyncMap::State, d: CrashTolerantAsyncMap::State, e: CrashTolerantAsyncMap::State, id: SyncReqId)
    requires a.versions.entries.len() > 0,
        CrashTolerantAsyncMap::State::next(a, b, CrashTolerantAsyncMap::Label::ReqSyncOp { sync_req_id: id }),
        CrashTolerantAsyncMap::State::next(b, c, CrashTolerantAsyncMap::Label::SyncOp),
        CrashTolerantAsyncMap::State::next(c, d, CrashTolerantAsyncMap::Label::ReplySyncOp { sync_req_id: id }),
        CrashTolerantAsyncMap::State::next(d, e, CrashTolerantAsyncMap::Label::CrashOp),
    ensures e.versions.last() == a.versions.last(), e.versions.len() == a.versions.len()
{ }

} // verus!
