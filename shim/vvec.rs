/// Verified stand-ins for the adapters of a vector's own iterator. They are eager.
pub mod vvec {
use vstd::prelude::*;
verus! {
pub struct VVec<T> { pub v: Vec<T> }
pub trait IntoX<T> { spec fn iv(self) -> Seq<T>; fn v_into_iter(self) -> (r: VVec<T>) ensures r.v@ == self.iv(); }
impl<T> IntoX<T> for Vec<T> { open spec fn iv(self) -> Seq<T> { self@ } fn v_into_iter(self) -> (r: VVec<T>) { VVec { v: self } } }
/// what `filter_map` gives: the contents of the `Some`s, in order; `g` relates elements and answers
pub open spec fn fmap<T, U>(v: Seq<T>, g: spec_fn(T, Option<U>) -> bool, r: Seq<U>) -> bool decreases v.len() {
    if v.len() == 0 { r.len() == 0 }
    else { (g(v.last(), None) && fmap(v.drop_last(), g, r)) || (r.len() > 0 && g(v.last(), Some(r.last())) && fmap(v.drop_last(), g, r.drop_last())) }
}
pub open spec fn within<T, U, F: Fn(T) -> Option<U>>(f: F, g: spec_fn(T, Option<U>) -> bool) -> bool { forall|x: T, o: Option<U>| #[trigger] f.ensures((x,), o) ==> g(x, o) }
pub trait VFrom<T>: Sized { spec fn made(s: Seq<T>, r: Self) -> bool; fn make(s: Vec<T>) -> (r: Self) ensures Self::made(s@, r); }
impl<T> VFrom<T> for Vec<T> { open spec fn made(s: Seq<T>, r: Self) -> bool { r@ == s } fn make(s: Vec<T>) -> (r: Self) { s } }
impl VFrom<char> for String { open spec fn made(s: Seq<char>, r: Self) -> bool { r@ == s } #[verifier::external_body] fn make(s: Vec<char>) -> (r: Self) { s.into_iter().collect() } }
/// `slice.iter()` under patterns that copy the element
pub fn v_copied(s: &[u8]) -> (r: VVec<u8>) ensures r.v@ == s@ { VVec { v: super::SliceX::v_to_vec(s) } }
impl<T: Copy> VVec<T> {
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VVec<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r.v@.len() == self.v@.len(), forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((self.v@[i],), #[trigger] r.v@[i])
    {
        let v = self.v;
        let mut r: Vec<U> = Vec::new();
        let mut k: usize = 0;
        while k < v.len()
            invariant k <= v@.len(), r@.len() == k, forall|x: T| #[trigger] f.requires((x,)), forall|i: int| 0 <= i < k ==> f.ensures((v@[i],), #[trigger] r@[i])
            decreases v@.len() - k
        { r.push(f(v[k])); k += 1; }
        VVec { v: r }
    }
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures match r {
            Some(k) => k < self.v@.len() && f.ensures((self.v@[k as int],), true) && forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] self.v@[i],), false),
            None => forall|i: int| 0 <= i < self.v@.len() ==> f.ensures((#[trigger] self.v@[i],), false),
        }
    {
        let v = self.v;
        let mut k: usize = 0;
        while k < v.len()
            invariant k <= v@.len(), v@ == self.v@, forall|x: T| #[trigger] f.requires((x,)), forall|i: int| 0 <= i < k ==> f.ensures((#[trigger] v@[i],), false)
            decreases v@.len() - k
        { if f(v[k]) { return Some(k); } k += 1; }
        None
    }
}
impl<T> VVec<T> {
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VVec<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures forall|g: spec_fn(T, Option<U>) -> bool| within(f, g) ==> #[trigger] fmap(self.v@, g, r.v@)
    {
        let mut v = self.v;
        let mut r: Vec<U> = Vec::new();
        let ghost v0 = v@;
        let ghost mut i = 0int;
        while v.len() > 0
            invariant 0 <= i <= v0.len(), v@ == v0.skip(i), forall|x: T| #[trigger] f.requires((x,)), forall|g: spec_fn(T, Option<U>) -> bool| within(f, g) ==> #[trigger] fmap(v0.take(i), g, r@),
            decreases v@.len()
        {
            let x = v.remove(0);
            assert(x == v0[i]);
            assert(v0.take(i + 1).drop_last() =~= v0.take(i));
            assert(v0.take(i + 1).last() == x);
            assert(v@ =~= v0.skip(i + 1));
            let ghost r0 = r@;
            let ghost o: Option<U>;
            match f(x) { Some(y) => { r.push(y); assert(r@.drop_last() =~= r0); proof { o = Some(y); } }, None => { proof { o = None; } } }
            assert forall|g: spec_fn(T, Option<U>) -> bool| within(f, g) implies #[trigger] fmap(v0.take(i + 1), g, r@) by { assert(f.ensures((x,), o)); assert(g(x, o)); assert(fmap(v0.take(i), g, r0)); }
            proof { i = i + 1; }
        }
        proof { assert(v0.take(i) =~= v0); }
        VVec { v: r }
    }
    pub fn skip(self, n: usize) -> (r: VVec<T>) ensures r.v@ == (if n <= self.v@.len() { self.v@.skip(n as int) } else { Seq::empty() })
    {
        let mut v = self.v;
        let ghost v0 = v@;
        let mut k: usize = 0;
        while k < n && v.len() > 0
            invariant k <= n, k <= v0.len(), v@ == v0.skip(k as int),
            decreases v@.len()
        { let _ = v.remove(0); k += 1; assert(v@ =~= v0.skip(k as int)); }
        VVec { v }
    }
    pub fn collect<C: VFrom<T>>(self) -> (r: C) ensures C::made(self.v@, r) { C::make(self.v) }
}
}
}
pub use vvec::*;
