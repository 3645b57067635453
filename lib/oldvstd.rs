// Stand-ins for what the old vstd offered and the installed one types differently
// (OMultiset::dom over possibly infinite sets).  The evaluator gives them their meaning.
use vstd::prelude::*;
use vstd::iset::*;
use vstd::imap::*;
verus!{
#[verifier::external_body]
#[verifier::ext_equal]
#[verifier::reject_recursive_types(V)]
pub struct OMultiset<V> { dummy: core::marker::PhantomData<V> }
impl<V> OMultiset<V> {
    pub uninterp spec fn count(self, v: V) -> nat;
    pub uninterp spec fn empty() -> Self;
    pub uninterp spec fn singleton(v: V) -> Self;
    pub uninterp spec fn add(self, o: Self) -> Self;
    pub uninterp spec fn sub(self, o: Self) -> Self;
    pub uninterp spec fn insert(self, v: V) -> Self;
    pub uninterp spec fn remove(self, v: V) -> Self;
    pub uninterp spec fn update(self, v: V, n: nat) -> Self;
    pub uninterp spec fn subset_of(self, o: Self) -> bool;
    pub uninterp spec fn contains(self, v: V) -> bool;
    pub uninterp spec fn intersection_with(self, o: Self) -> Self;
    pub uninterp spec fn difference_with(self, o: Self) -> Self;
    pub uninterp spec fn is_disjoint_from(self, o: Self) -> bool;
    pub uninterp spec fn filter(self, f: spec_fn(V) -> bool) -> Self;
    pub uninterp spec fn dom(self) -> ISet<V>;
    pub open spec fn is_empty(self) -> bool { self.len() == 0 }
    pub uninterp spec fn len(self) -> nat;
    pub uninterp spec fn choose(self) -> V;
    #[verifier::inline]
    pub open spec fn spec_add(self, o: Self) -> Self { self.add(o) }
    #[verifier::inline]
    pub open spec fn spec_sub(self, o: Self) -> Self { self.sub(o) }
    #[verifier::inline]
    pub open spec fn spec_le(self, o: Self) -> bool { self.subset_of(o) }
    #[verifier::inline]
    pub open spec fn le(self, o: Self) -> bool { self.subset_of(o) }
}
pub uninterp spec fn seq_to_multiset<A>(s: Seq<A>) -> OMultiset<A>;
pub trait OldSeq<A> { spec fn to_omultiset(self) -> OMultiset<A>; }
impl<A> OldSeq<A> for Seq<A> { open spec fn to_omultiset(self) -> OMultiset<A> { seq_to_multiset(self) } }
}
