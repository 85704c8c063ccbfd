/// Verified stand-in for `std::io::Cursor<&[u8]>` with the methods of `BufRead` and `bytes::Buf` in use.
/// Panics of the real methods (reading past the end, position overflow) are preconditions.
pub mod vcursor {
use vstd::prelude::*;
use super::nom::{s16be, s32be, s64be};
verus! {
/// a slice of bytes spans at most isize::MAX of them (a rule of the language)
pub axiom fn slice_max(s: &[u8]) ensures s@.len() <= isize::MAX;
pub struct Cursor<T> { inner: T, pos: u64 }
pub uninterp spec fn cur_f32(n: int) -> f64;
pub uninterp spec fn cur_f64(n: int) -> f64;
impl<'a> Cursor<&'a [u8]> {
    pub closed spec fn data(&self) -> Seq<u8> { self.inner@ }
    pub closed spec fn at(&self) -> nat { self.pos as nat }
    pub open spec fn left(&self) -> int { if self.at() <= self.data().len() { self.data().len() - self.at() } else { 0 } }
    pub open spec fn rest(&self) -> Seq<u8> { if self.at() <= self.data().len() { self.data().skip(self.at() as int) } else { Seq::empty() } }
    pub proof fn wf(&self) ensures 0 <= self.at() <= u64::MAX, self.data().len() <= isize::MAX { slice_max(self.inner); }
    pub fn new(inner: &'a [u8]) -> (r: Self) ensures r.data() == inner@, r.at() == 0 { Cursor { inner, pos: 0 } }
    pub fn position(&self) -> (r: u64) ensures r == self.at(), self.data().len() <= isize::MAX { proof { self.wf(); } self.pos }
    pub fn set_position(&mut self, pos: u64) ensures final(self).data() == old(self).data(), final(self).at() == pos { self.pos = pos; }
    pub fn get_ref(&self) -> (r: &&'a [u8]) ensures r@ == self.data() { &self.inner }
    pub fn remaining(&self) -> (r: usize) ensures r == self.left(), self.data().len() <= isize::MAX { proof { self.wf(); } if self.pos <= self.inner.len() as u64 { self.inner.len() - self.pos as usize } else { 0 } }
    pub fn has_remaining(&self) -> (r: bool) ensures r == (self.left() > 0) { self.remaining() > 0 }
    pub fn chunk(&self) -> (r: &'a [u8]) ensures r@ == self.rest() {
        proof { self.wf(); }
        let p = if self.pos <= self.inner.len() as u64 { self.pos as usize } else { self.inner.len() };
        let r = &self.inner[p..];
        assert(r@ =~= self.rest()); r
    }
    /// BufRead::consume: the position moves, past the end too
    pub fn consume(&mut self, amt: usize) requires old(self).at() + amt <= u64::MAX ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + amt { self.pos = self.pos + amt as u64; }
    fn byte(&mut self) -> (r: u8) requires old(self).left() >= 1 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 1, r == old(self).data()[old(self).at() as int] { let r = self.inner[self.pos as usize]; self.pos = self.pos + 1; r }
    pub fn get_u8(&mut self) -> (r: u8) requires old(self).left() >= 1 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 1, r == old(self).data()[old(self).at() as int] { self.byte() }
    pub fn get_u16(&mut self) -> (r: u16) requires old(self).left() >= 2 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 2, r == s16be(old(self).rest()) { let a = self.byte(); let b = self.byte(); a as u16 * 256 + b as u16 }
    pub fn get_u32(&mut self) -> (r: u32) requires old(self).left() >= 4 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 4, r == s32be(old(self).rest()) { let a = self.byte(); let b = self.byte(); let c = self.byte(); let d = self.byte(); a as u32 * 0x100_0000 + b as u32 * 0x1_0000 + c as u32 * 0x100 + d as u32 }
    /// the value of a float is std's business; which bytes it is made of is said here
    #[verifier::external_body]
    pub fn get_f32(&mut self) -> (r: f32) requires old(self).left() >= 4 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 4, f32_val(r) == cur_f32(s32be(old(self).rest())) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_f64(&mut self) -> (r: f64) requires old(self).left() >= 8 ensures final(self).data() == old(self).data(), final(self).at() == old(self).at() + 8, r == cur_f64(s64be(old(self).rest())) { unimplemented!() }
    /// Read::read_exact
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), ()>) ensures final(self).data() == old(self).data(), final(buf)@.len() == old(buf)@.len(),
        old(self).left() >= old(buf)@.len() ==> r is Ok && final(buf)@ == old(self).rest().take(old(buf)@.len() as int) && final(self).at() == old(self).at() + old(buf)@.len(),
        old(self).left() < old(buf)@.len() ==> r is Err
    {
        let n = buf.len();
        if self.remaining() < n { return Err(()); }
        proof { self.wf(); }
        let d = self.chunk();
        buf.copy_from_slice(&d[..n]);
        assert(buf@ =~= self.rest().take(n as int));
        self.pos = self.pos + n as u64;
        Ok(())
    }
}
/// the f64 that an f32 converts to
pub uninterp spec fn f32_val(x: f32) -> f64;
}
}
pub use vcursor::*;
