// The executable store with stand-ins for the ghost world around it: tokens carry nothing, the API only records.
#![allow(warnings)]
pub mod spec {
    pub mod KeyType_t;
    pub mod Messages_t;
    pub mod ImplDisk_t;
    pub mod MapSpec_t { pub type ID = u64; pub struct MapSpec; pub struct PersistentState; pub type Version = PersistentState; pub struct Request; pub struct Reply; pub struct Input; pub struct Output; }
    pub mod TotalKMMap_t { pub struct TotalKMMap; }
    pub mod FloatingSeq_t { pub struct FloatingSeq<T>(pub core::marker::PhantomData<T>); }
    pub mod AsyncDisk_t {
        // a page as far as the store is concerned: what its encoder was given
        #[derive(Clone, PartialEq, Debug)]
        pub struct RawPage { pub start: u64, pub msgs: Vec<(u64, u64)> }
        pub struct Address;
        #[derive(Clone, PartialEq, Debug)]
        pub enum GenericDiskRequest<A> { ReadReq { from: A }, WriteReq { to: A, data: RawPage } }
        pub type DiskRequest = GenericDiskRequest<Address>;
        #[derive(Clone, PartialEq, Debug)]
        pub enum GenericDiskResponse { ReadResp { data: RawPage }, WriteResp {} }
        pub type DiskResponse = GenericDiskResponse;
    }
}
pub mod abstract_system {
    pub mod StampedMap_v { pub type LSN = u64; pub struct StampedMap; }
    pub mod MsgHistory_v {
        use crate::spec::{KeyType_t::*, Messages_t::*};
        pub struct MsgHistory;
        pub struct KeyedMessage { pub key: Key, pub message: Message }
    }
    pub mod AbstractCrashAwareSystemRefinement_v {}
}
pub mod trusted {
    pub mod ReqReply_t;
    pub mod ProgramModelTrait_t { pub trait ProgramModelTrait {} }
    pub mod KVStoreTrait_t {
        use super::{ClientAPI_t::*, ProgramModelTrait_t::*};
        pub trait KVStoreTrait: Sized { type ProgramModel: ProgramModelTrait; type Proof; fn new() -> Self; fn kvstore_main(&mut self, api: ClientAPI<Self::ProgramModel>); }
    }
    pub mod KVStoreTokenized_t {
        pub mod KVStoreTokenized {
            use core::marker::PhantomData as P;
            pub struct model<T>(P<T>); pub struct requests<T>(P<T>); pub struct replies<T>(P<T>); pub struct Instance<T>(P<T>);
            pub struct disk_responses_multiset<T>(P<T>); pub struct disk_requests_multiset<T>(P<T>);
        }
    }
    pub mod ClientAPI_t { pub struct PollResult; pub struct ClientAPI<M>(M); pub struct World; }
}
pub mod implementation {
    pub mod Implementation_v;
    pub mod DiskLayout_v;
    pub mod ModelRefinement_v { pub struct RefinementProof; }
    pub mod ConcreteProgramModel_v { pub struct ConcreteProgramModel; impl crate::trusted::ProgramModelTrait_t::ProgramModelTrait for ConcreteProgramModel {} }
    pub mod AtomicState_v {}
    pub mod MultisetMapRelation_v {}
}
