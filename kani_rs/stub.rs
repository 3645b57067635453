// Stand-ins for the parts of vstd that the erased executable code mentions by name.
#[allow(non_camel_case_types)]
pub mod builtin {
    pub trait Integer {}
    impl<T> Integer for T {}
    pub trait SpecOrd {}
    impl<T> SpecOrd for T {}
    pub struct int;
    pub struct nat;
}
pub mod vstd {
    pub mod seq { pub struct Seq<T>(core::marker::PhantomData<T>); }
    pub mod prelude {
        pub use super::seq::Seq;
        pub use crate::builtin::*;
        pub use std::prelude::rust_2021::*;
        pub use super::pervasive::*;
        pub trait View { type V; }
        pub struct Tracked<T>(core::marker::PhantomData<T>);
        impl<T> Tracked<T> {
            pub fn assume_new() -> Self { Tracked(core::marker::PhantomData) }
            pub fn assume_new_fallback<F>(_f: F) -> Self { Tracked(core::marker::PhantomData) }
        }
        pub struct Ghost<T>(core::marker::PhantomData<T>);
        impl<T> Ghost<T> { pub fn assume_new_fallback<F>(_f: F) -> Self { Ghost(core::marker::PhantomData) } }
        pub trait VecSet<T> { fn set(&mut self, i: usize, v: T); }
        impl<T> VecSet<T> for Vec<T> { fn set(&mut self, i: usize, v: T) { self[i] = v; } }
    }
    pub mod seq_lib {}
    pub mod map {}
    pub mod set_lib {}
    pub mod multiset {}
    pub mod modes {}
    pub mod pervasive { pub fn unreached<A>() -> A { panic!("code declared unreachable is reached") } pub fn panic_fmt(_a: core::fmt::Arguments) -> ! { panic!("a panic of the code") } pub fn arbitrary<A>() -> A { panic!("a ghost value is used") } }
    pub mod tokens { pub struct InstanceId; }
    pub mod std_specs { pub mod hash {} }
    pub mod hash_map {
        pub struct HashMapWithView<K, V>(std::collections::HashMap<K, V>);
        impl<K, V> HashMapWithView<K, V> { pub fn new() -> Self { HashMapWithView(Default::default()) } }
    }
    pub mod set {}
    pub mod bytes {
        pub fn u16_to_le_bytes(x: u16) -> Vec<u8> { let b = x.to_le_bytes(); vec![b[0], b[1]] }
        pub fn u32_to_le_bytes(x: u32) -> Vec<u8> { let b = x.to_le_bytes(); vec![b[0], b[1], b[2], b[3]] }
        pub fn u64_to_le_bytes(x: u64) -> Vec<u8> { let b = x.to_le_bytes(); vec![b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]] }
        pub fn u16_from_le_bytes(s: &[u8]) -> u16 { assert!(s.len() == 2); u16::from_le_bytes([s[0], s[1]]) }
        pub fn u32_from_le_bytes(s: &[u8]) -> u32 { assert!(s.len() == 4); u32::from_le_bytes([s[0], s[1], s[2], s[3]]) }
        pub fn u64_from_le_bytes(s: &[u8]) -> u64 {
            assert!(s.len() == 8);
            u64::from_le_bytes([s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]])
        }
    }
    pub mod slice {
        pub fn slice_subrange<T>(s: &[T], i: usize, j: usize) -> &[T] { &s[i..j] }
    }
}
