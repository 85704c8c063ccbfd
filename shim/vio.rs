/// Stand-ins for the parts of `std::io` in use. Assumed contracts on the outside world: a reader hands over its bytes in order, each once.
pub mod vio {
use vstd::prelude::*;
verus! {
/// the error came from the reader or from its seek
pub uninterp spec fn io_src(e: std::io::Error) -> bool;
/// the error says that a read is too large
pub uninterp spec fn io_big(e: std::io::Error) -> bool;
/// the error says that the input has ended
pub open spec fn io_eof(e: std::io::Error) -> bool { !io_src(e) && !io_big(e) }
#[verifier::external_body]
pub fn v_eof() -> (r: std::io::Error) ensures io_eof(r) { std::io::ErrorKind::UnexpectedEof.into() }
#[verifier::external_body]
pub fn v_unsupported() -> (r: std::io::Error) ensures io_big(r) && !io_src(r) { std::io::ErrorKind::Unsupported.into() }
/// `e.kind() == io::ErrorKind::UnexpectedEof`; a reader may report that kind by itself
#[verifier::external_body]
pub fn v_is_eof(e: &std::io::Error) -> (r: bool) ensures io_eof(*e) ==> r, io_big(*e) && !io_src(*e) ==> !r { e.kind() == std::io::ErrorKind::UnexpectedEof }
pub mod io { pub type Result<T> = core::result::Result<T, std::io::Error>; }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub trait Read: Sized {
    /// the bytes still to come
    spec fn rest(&self) -> Seq<u8>;
    /// `self.take(n).read_to_end(buf)`
    fn v_read_upto(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures match r {
            Ok(k) => k == imin(n as int, old(self).rest().len() as int) && final(buf)@ == old(buf)@ + old(self).rest().take(k as int) && final(self).rest() == old(self).rest().skip(k as int),
            Err(e) => io_src(e) && old(buf)@.is_prefix_of(final(buf)@) }, final(buf)@.len() <= usize::MAX;
    /// `self.read_to_end(buf)`
    fn v_read_all(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures match r { Ok(k) => final(buf)@ == old(buf)@ + old(self).rest() && final(self).rest() == Seq::<u8>::empty() && k == old(self).rest().len(), Err(e) => io_src(e) && old(buf)@.is_prefix_of(final(buf)@) }, final(buf)@.len() <= usize::MAX;
}
/// the fn pointer a source carries to skip by seeking
pub struct SkipBySeekFn<R> { pub r: core::marker::PhantomData<R>, pub can: bool }
impl<R> Clone for SkipBySeekFn<R> { fn clone(&self) -> (r: Self) ensures r == *self { SkipBySeekFn { r: core::marker::PhantomData, can: self.can } } }
impl<R> Copy for SkipBySeekFn<R> {}
pub open spec fn seeked(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.skip(n) } else { Seq::empty() } }
/// what a skip function does; `MediaSource::seekable`'s and `unseekable`'s are shown to do it (unit parser)
pub open spec fn skips(can: bool, a: Seq<u8>, b: Seq<u8>, n: int, res: io::Result<bool>) -> bool {
    match res { Ok(true) => can && b == seeked(a, n), Ok(false) => !can && b == a, Err(e) => io_src(e) }
}
impl<R: Read> SkipBySeekFn<R> {
    pub open spec fn seeks(&self) -> bool { self.can }
    #[verifier::external_body]
    pub fn call(&self, r: &mut R, n: u64) -> (res: io::Result<bool>)
        ensures skips(self.seeks(), old(r).rest(), final(r).rest(), n as int, res)
    { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub trait Seek: Read {
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        ensures match r { Ok(_) => (p matches SeekFrom::Current(n) ==> n >= 0 ==> final(self).rest() == seeked(old(self).rest(), n as int)), Err(e) => io_src(e) };
    /// forward only, which is all the crate does; past the end nothing is left to read
    fn seek_relative(&mut self, n: i64) -> (r: io::Result<()>)
        ensures match r { Ok(_) => n >= 0 ==> final(self).rest() == seeked(old(self).rest(), n as int), Err(e) => io_src(e) };
}
/// a distance no file offset can hold
#[verifier::external_body]
pub fn v_invalid() -> (r: std::io::Error) ensures io_src(r) { std::io::ErrorKind::InvalidInput.into() }
}
}
pub use vio::*;
