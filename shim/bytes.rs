/// Verified stand-in for `bytes::Bytes`: an immutable byte string; cloning and slicing share nothing.
pub mod vbytes {
use vstd::prelude::*;
use super::SliceX;
verus! {
pub struct Bytes { pub v: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.v@ } }
pub trait VRange: Sized { spec fn lo(self) -> int; spec fn hi(self, len: int) -> int; fn lo_(&self) -> (r: usize) ensures r == self.lo(); fn hi_(&self, len: usize) -> (r: usize) ensures r == self.hi(len as int); }
impl VRange for core::ops::RangeFrom<usize> { open spec fn lo(self) -> int { self.start as int } open spec fn hi(self, len: int) -> int { len } fn lo_(&self) -> (r: usize) { self.start } fn hi_(&self, len: usize) -> (r: usize) { len } }
impl VRange for core::ops::Range<usize> { open spec fn lo(self) -> int { self.start as int } open spec fn hi(self, len: int) -> int { self.end as int } fn lo_(&self) -> (r: usize) { self.start } fn hi_(&self, len: usize) -> (r: usize) { self.end } }
impl Bytes {
    pub proof fn bound(&self) ensures self@.len() <= usize::MAX { assert(self.v.len() == self.v@.len()); }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn sl(&self) -> (r: &[u8]) ensures r@ == self@ { self.v.as_slice() }
    /// panics outside the bytes, hence the precondition
    pub fn slice<R: VRange>(&self, range: R) -> (r: Bytes)
        requires 0 <= range.lo() <= range.hi(self@.len() as int) <= self@.len(),
        ensures r@ == self@.subrange(range.lo(), range.hi(self@.len() as int))
    { let a = range.lo_(); let b = range.hi_(self.v.len()); let s = self.v.as_slice(); Bytes { v: s[a..b].v_to_vec() } }
}
/// `BytesMut` as what a uniquely held `Bytes` turns into; `Err` when it is shared, which the contract leaves open
pub struct BytesMut { pub v: Vec<u8> }
impl Bytes {
    #[verifier::external_body]
    pub fn try_into_mut(self) -> (r: Result<BytesMut, Bytes>) ensures match r { Ok(m) => m.v@ == self@, Err(b) => b@ == self@ } { Err(self) }
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { Bytes { v } }
}
pub fn v_from_mut(m: BytesMut) -> (r: Vec<u8>) ensures r@ == m.v@ { m.v }
#[verifier::external_body]
pub fn v_capacity(v: &Vec<u8>) -> (r: usize) { v.capacity() }
#[verifier::external_body]
pub fn v_shrink_to(v: &mut Vec<u8>, n: usize) ensures final(v)@ == old(v)@ { v.shrink_to(n) }
impl Clone for Bytes { fn clone(&self) -> (r: Bytes) ensures r@ == self@ { Bytes { v: self.v.as_slice().v_to_vec() } } }
}
}
pub use vbytes::*;
