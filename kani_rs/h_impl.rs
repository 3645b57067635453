// The real main loop of the store against the judging API: values, keys and ids are symbolic, the order of events is the plan.
use crate::implementation::Implementation_v::Implementation;
use crate::trusted::ClientAPI_t::*;
use crate::trusted::KVStoreTrait_t::*;

fn run(plan: &[u8; N]) {
    let first: u64 = kani::any();
    kani::assume(first >= 1 && first < u64::MAX - 100);
    let mut s = Implementation::new();
    s.kvstore_main(ClientAPI::plan(*plan, first));
}

macro_rules! plan { ($name:ident, $p:expr) => { #[kani::proof] #[kani::unwind(9)] fn $name() { run($p); } } }
plan!(m04_put_sync, b"psdpsd");
plan!(m04_deferred, b"pspsdd");
plan!(m04_syncs_only, b"ssdsdd");
plan!(m04_many_deferred, b"pssspd");
plan!(m04_all_kinds, b"npqsdn");
plan!(m04_same_turn_sync, b"psSdd.");
plan!(m04_same_turn_put, b"psPsdd");
plan!(m04_put_under_way, b"pspdsd");
plan!(m04_puts, b"pppsd.");
plan!(m04_idle_disk, b"dsdpsd");
plan!(m04_sync_before_puts, b"sppdsd");
