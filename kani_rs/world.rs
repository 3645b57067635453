
        // Stand-in for the world outside: clients and the disk, with every reply and disk request judged as it comes.
        use super::{KVStoreTokenized_t::*, ReqReply_t::*, ProgramModelTrait_t::*};
        use crate::spec::{ImplDisk_t::*, KeyType_t::*, Messages_t::*, AsyncDisk_t::*};
        use crate::vstd::prelude::Tracked;
        pub const N: usize = 6;
        pub struct PollResult { pub user_input_ready: bool, pub disk_response_ready: bool }
        #[derive(Clone, Copy, PartialEq)]
        pub enum Kind { Put, Query, Sync, Noop }
        // a request: how many puts came before it, how many writes had been sent before it
        #[derive(Clone, Copy)]
        pub struct Asked { pub id: u64, pub kind: Kind, pub key: u64, pub val: u64, pub puts: usize, pub writes: usize, pub answered: bool }
        pub struct World {
            pub plan: [u8; N], pub step: usize, pub at_disk: bool,
            pub asked: [Asked; N], pub n: usize,
            pub keys: [u64; N], pub vals: [u64; N], pub np: usize,
            pub next: u64, pub read: u8, pub writes: usize, pub under_way: bool, pub write_id: u64, pub carried: usize, pub durable: usize, pub done: usize,
        }
        pub struct ClientAPI<M: ProgramModelTrait> { pub w: std::cell::RefCell<World>, pub _p: core::marker::PhantomData<M> }
        impl<M: ProgramModelTrait> ClientAPI<M> {
            // a plan: what happens at each turn; p put, q query, s sync, n noop, d disk answers, and P Q S N: the disk answers, then the request
            pub fn plan(plan: [u8; N], first: u64) -> Self {
                let a = Asked { id: 0, kind: Kind::Noop, key: 0, val: 0, puts: 0, writes: 0, answered: true };
                Self { w: std::cell::RefCell::new(World { plan, step: 0, at_disk: false, asked: [a; N], n: 0, keys: [0; N], vals: [0; N], np: 0,
                    next: first, read: 0, writes: 0, under_way: false, write_id: 0, carried: 0, durable: 0, done: 0 }), _p: core::marker::PhantomData }
            }
            pub fn receive_request(&mut self, print: bool) -> (Request, Tracked<KVStoreTokenized::requests<M>>) {
                let mut w = self.w.borrow_mut();
                let c = w.plan[w.step - 1].to_ascii_lowercase();
                let (n, np, wr) = (w.n, w.np, w.writes);
                let id = w.next; w.next += 1;
                let key: u64 = any(); let val: u64 = any();
                let kind = match c { b'p' => Kind::Put, b'q' => Kind::Query, b's' => Kind::Sync, _ => Kind::Noop };
                w.asked[n] = Asked { id, kind, key, val, puts: np, writes: wr, answered: false };
                w.n += 1;
                let input = match kind {
                    Kind::Put => { w.keys[np] = key; w.vals[np] = val; w.np += 1; Input::PutInput { key: Key(key), value: Value(val) } }
                    Kind::Query => Input::QueryInput { key: Key(key) },
                    Kind::Sync => Input::SyncInput,
                    Kind::Noop => Input::NoopInput,
                };
                (Request { input, id }, Tracked::assume_new())
            }
            pub fn send_reply(&self, reply: Reply, t: Tracked<KVStoreTokenized::replies<M>>, print: bool) {
                let mut w = self.w.borrow_mut();
                let mut found = false;
                let mut i = 0;
                while i < w.n {
                    if w.asked[i].id == reply.id {
                        found = true;
                        let a = w.asked[i];
                        assert!(!a.answered, "a request is answered twice");
                        w.asked[i].answered = true;
                        match reply.output {
                            Output::PutOutput => assert!(a.kind == Kind::Put, "the answer is not for this kind of request"),
                            Output::NoopOutput => assert!(a.kind == Kind::Noop, "the answer is not for this kind of request"),
                            Output::SyncOutput => {
                                assert!(a.kind == Kind::Sync, "the answer is not for this kind of request");
                                assert!(a.puts <= w.durable, "a sync is answered before the puts before it are on disk");
                            }
                            Output::QueryOutput { value } => {
                                assert!(a.kind == Kind::Query, "the answer is not for this kind of request");
                                assert!(value.0 == last(&w, a.key, a.puts), "a query is answered with a value not last put");
                            }
                        }
                    }
                    i += 1;
                }
                assert!(found, "an answer to a request nobody made");
            }
            pub fn send_disk_request(&mut self, q: IDiskRequest, i: Tracked<u64>, t: Tracked<KVStoreTokenized::disk_requests_multiset<M>>) -> u64 {
                let mut w = self.w.borrow_mut();
                let id = w.next; w.next += 1;
                match q {
                    IDiskRequest::ReadReq { from } => {
                        assert!(from.au == 0 && from.page == 0, "not the superblock");
                        assert!(w.read == 0, "the superblock is read once");
                        w.read = 1; w.write_id = id;
                    }
                    IDiskRequest::WriteReq { to, data } => {
                        assert!(to.au == 0 && to.page == 0, "not the superblock");
                        assert!(w.read == 2, "the superblock is written before it was read");
                        assert!(!w.under_way, "two writes of the superblock under way");
                        // what a restart would find there: every put so far
                        assert!(data.start as usize + data.msgs.len() == w.np, "the superblock carries another version");
                        let key: u64 = any();
                        let mut v = 0u64; let mut j = 0;
                        while j < data.msgs.len() { if data.msgs[j].0 == key { v = data.msgs[j].1; } j += 1; }
                        assert!(v == last(&w, key, w.np), "the superblock holds another value for a key");
                        w.under_way = true; w.write_id = id; w.carried = w.np; w.writes += 1;
                    }
                }
                id
            }
            pub fn receive_disk_response(&mut self) -> (u64, IDiskResponse, Tracked<KVStoreTokenized::disk_responses_multiset<M>>) {
                let mut w = self.w.borrow_mut();
                if w.read == 1 {
                    w.read = 2;
                    return (w.write_id, IDiskResponse::ReadResp { data: RawPage { start: 0, msgs: Vec::new() } }, Tracked::assume_new());
                }
                assert!(w.under_way, "waiting for a disk that was asked nothing");
                w.under_way = false; w.durable = w.carried; w.done = w.writes;
                (w.write_id, IDiskResponse::WriteResp {}, Tracked::assume_new())
            }
            pub fn poll(&self) -> PollResult {
                let mut w = self.w.borrow_mut();
                assert!(w.read == 2, "serving before the superblock is read");
                let mut i = 0;
                while i < w.n {
                    let a = w.asked[i];
                    if !a.answered {
                        assert!(a.kind != Kind::Put && a.kind != Kind::Noop, "a request is never answered");
                        if a.kind == Kind::Sync {
                            assert!(a.writes >= w.done, "a sync its write has covered is not answered");
                            assert!(w.under_way, "a sync waits and nothing is being written for it");
                        }
                    }
                    i += 1;
                }
                let s = w.step;
                if s == N || w.plan[s] == b'.' { finish(&w); }
                let c = w.plan[s];
                w.step += 1;
                let d = (c == b'd' || c.is_ascii_uppercase()) && w.under_way;
                PollResult { user_input_ready: c != b'd', disk_response_ready: d }
            }
        }
        fn last(w: &World, key: u64, n: usize) -> u64 {
            let mut v = 0u64; let mut i = 0;
            while i < n { if w.keys[i] == key { v = w.vals[i]; } i += 1; }
            v
        }
        #[cfg(kani)]
        fn any() -> u64 { kani::any() }
        #[cfg(not(kani))]
        fn any() -> u64 { 0 }
        #[cfg(kani)]
        fn finish(w: &World) { kani::cover!(w.done > 0); kani::assume(false); }
        #[cfg(not(kani))]
        fn finish(w: &World) { ::std::panic!("the plan is done") }
    