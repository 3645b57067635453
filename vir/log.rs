#![allow(unused_imports)]
use builtin::*;
use builtin_macros::*;
use vstd::prelude::*;
use vstd::{map::*, set::*};
use vstd::imap::*; use vstd::iset::*;
use crate::spec::KeyType_t::*;
use crate::spec::Messages_t::*;
use crate::spec::TotalKMMap_t::*;
use crate::abstract_system::StampedMap_v::*;
use crate::abstract_system::MsgHistory_v::*;
use crate::abstract_system::AbstractJournal_v::*;
use crate::abstract_system::AbstractMap_v::*;

verus! {

// oracle: the messages of a history as a sequence
spec fn listed(h: MsgHistory) -> Seq<KeyedMessage> {
    Seq::new(h.len(), |i: int| h.msgs[(h.seq_start + i) as nat])
}

// oracle: the value of one key after a sequence of messages, from the left
spec fn after(s: Seq<KeyedMessage>, k: Key, m: Message) -> Message
    decreases s.len()
{
    if s.len() == 0 { m } else { after(s.subrange(1, s.len() as int), k, if s[0].key == k { m.merge(s[0].message) } else { m }) }
}

spec fn merges(s: Seq<KeyedMessage>, m: StampedMap) -> bool { true }

proof fn h_wf(h: MsgHistory)
    requires h.wf(),
    ensures h.seq_start <= h.seq_end, h.len() == h.seq_end - h.seq_start, h.is_empty() == (h.len() == 0),
        forall|l: nat| h.msgs.dom().contains(l) <==> h.seq_start <= l && l < h.seq_end
{ }

//cfg depth=5
proof fn h_replay(h: MsgHistory, m: StampedMap, k: Key)
    requires h.wf(), m.value.wf(), h.seq_start == m.seq_end,
    ensures ({ let r = h.apply_to_stamped_map(m);
        &&& r.seq_end == h.seq_end &&& r.value.wf() &&& r.value[k] == after(listed(h), k, m.value[k]) })
{ }

//cfg depth=5
proof fn h_plus(h: MsgHistory, m: StampedMap)
    requires h.wf(), m.value.wf(), h.seq_start == m.seq_end,
    ensures MsgHistory::map_plus_history(m, h) == h.apply_to_stamped_map(m), m.plus_history(h) == h.apply_to_stamped_map(m)
{ }

proof fn h_concat(a: MsgHistory, b: MsgHistory)
    requires a.wf(), b.wf(), a.seq_end == b.seq_start,
    ensures a.can_concat(b), a.concat(b).wf(), listed(a.concat(b)) =~= listed(a) + listed(b), a.concat(b).seq_start == a.seq_start, a.concat(b).seq_end == b.seq_end
{ }

//cfg depth=5
proof fn h_concat_replay(a: MsgHistory, b: MsgHistory, m: StampedMap)
    requires a.wf(), b.wf(), a.seq_end == b.seq_start, m.value.wf(), a.seq_start == m.seq_end,
    ensures a.concat(b).apply_to_stamped_map(m) == b.apply_to_stamped_map(a.apply_to_stamped_map(m))
{ }

proof fn h_discard(h: MsgHistory, n: nat)
    requires h.wf(), h.seq_start <= n <= h.seq_end,
    ensures h.can_discard_to(n),
        h.discard_old(n).wf(), listed(h.discard_old(n)) =~= listed(h).subrange(n - h.seq_start, h.len() as int),
        h.discard_recent(n).wf(), listed(h.discard_recent(n)) =~= listed(h).subrange(0, n - h.seq_start),
        h.discard_recent(n).concat(h.discard_old(n)) == h,
        h.discard_old(n).seq_start == n, h.discard_old(n).seq_end == h.seq_end,
        h.discard_recent(n).seq_start == h.seq_start, h.discard_recent(n).seq_end == n,
        h.maybe_discard_old(n) == h.discard_old(n),
{ }

proof fn h_maybe_discard(h: MsgHistory, n: nat)
    requires h.wf(), n < h.seq_start,
    ensures h.maybe_discard_old(n) == h, !h.can_discard_to(n), !h.can_discard_to(h.seq_end + 1)
{ }

proof fn h_subseq(h: MsgHistory, s: MsgHistory)
    requires h.wf(), s.wf(),
    ensures h.includes_subseq(s) == (h.seq_start <= s.seq_start && s.seq_end <= h.seq_end && forall|l: nat| s.seq_start <= l < s.seq_end ==> h.msgs[l] == s.msgs[l])
{ }

proof fn h_empty(n: nat)
    ensures MsgHistory::empty_history_at(n).wf(), MsgHistory::empty_history_at(n).is_empty(), MsgHistory::empty_history_at(n).seq_start == n, MsgHistory::empty_history_at(n).seq_end == n
{ }

proof fn h_singleton(n: nat, km: KeyedMessage)
    ensures ({ let h = MsgHistory::singleton_at(n, km); h.wf() && h.seq_start == n && h.seq_end == n + 1 && h.msgs[n] == km })
{ }

// ---- the journal
proof fn h_journal_put(a: AbstractJournal::State, b: AbstractJournal::State, h: MsgHistory)
    requires a.journal.wf(), h.wf(), AbstractJournal::State::next(a, b, AbstractJournal::Label::PutLabel { messages: h })
    ensures b.journal.wf(), listed(b.journal) =~= listed(a.journal) + listed(h), b.journal.seq_start == a.journal.seq_start, b.journal.seq_end == h.seq_end, h.seq_start == a.journal.seq_end
{ }

proof fn h_journal_discard(a: AbstractJournal::State, b: AbstractJournal::State, n: nat, e: nat)
    requires AbstractJournal::State::next(a, b, AbstractJournal::Label::DiscardOldLabel { start_lsn: n, require_end: e })
    ensures b.journal.wf(), a.journal.seq_end == e, b.journal.seq_end == e, b.journal.seq_start == n, a.journal.seq_start <= n <= e,
        listed(b.journal) =~= listed(a.journal).subrange(n - a.journal.seq_start, a.journal.len() as int)
{ }

spec fn reads(a: AbstractJournal::State, m: MsgHistory) -> bool {
    a.journal.seq_start <= m.seq_start && m.seq_end <= a.journal.seq_end && forall|l: nat| m.seq_start <= l < m.seq_end ==> a.journal.msgs[l] == m.msgs[l]
}

proof fn h_journal_observe(a: AbstractJournal::State, b: AbstractJournal::State, lbl: AbstractJournal::Label)
    requires AbstractJournal::State::next(a, b, lbl), !(lbl is PutLabel), !(lbl is DiscardOldLabel)
    ensures b == a,
        lbl is QueryEndLsnLabel ==> lbl->end_lsn == a.journal.seq_end,
        lbl is FreezeForCommitLabel ==> lbl->frozen_journal.wf() && reads(a, lbl->frozen_journal),
        lbl is ReadForRecoveryLabel && lbl.arrow_ReadForRecoveryLabel_messages().wf() ==> reads(a, lbl.arrow_ReadForRecoveryLabel_messages()),
{ }

// ---- the map
//cfg depth=5
proof fn h_map_put(a: AbstractMap::State, b: AbstractMap::State, h: MsgHistory, k: Key)
    requires a.stamped_map.value.wf(), h.wf(), AbstractMap::State::next(a, b, AbstractMap::Label::PutLabel { puts: h })
    ensures h.seq_start == a.stamped_map.seq_end, b.stamped_map.seq_end == h.seq_end, b.stamped_map.value[k] == after(listed(h), k, a.stamped_map.value[k])
{ }

proof fn h_map_other(a: AbstractMap::State, b: AbstractMap::State, lbl: AbstractMap::Label)
    requires AbstractMap::State::next(a, b, lbl), !(lbl is PutLabel)
    ensures b == a,
        lbl is QueryLabel ==> lbl->end_lsn == a.stamped_map.seq_end && lbl->value == a.stamped_map.value[lbl->key]->value,
        lbl is FreezeAsLabel ==> lbl->stamped_map == a.stamped_map,
{ }

} // verus!
