/// Verified stand-ins for the adapters of std's slice iterator that the extracted code uses.
/// They are eager; the closures they are given have contracts and no effects.
pub mod viter {
use vstd::prelude::*;
use super::SliceX;
verus! {
pub struct VIter<'a> { pub s: &'a [u8] }
pub struct VCloned<'a> { pub s: &'a [u8] }
pub fn v_iter<'a>(s: &'a [u8]) -> (r: VIter<'a>) ensures r.s@ == s@ { VIter { s } }
pub open spec fn is_skip_while<'a, P: Fn(&&'a u8) -> bool>(p: P, s: Seq<u8>, t: Seq<u8>) -> bool {
    exists|k: int| 0 <= k <= s.len() && t == #[trigger] s.skip(k) && (forall|j: int| 0 <= j < k ==> call_ensures(p, (&&#[trigger] s[j],), true)) && (k < s.len() ==> call_ensures(p, (&&s[k],), false))
}
pub open spec fn is_take_while<'a, P: Fn(&&'a u8) -> bool>(p: P, s: Seq<u8>, t: Seq<u8>) -> bool {
    exists|k: int| 0 <= k <= s.len() && t == #[trigger] s.take(k) && (forall|j: int| 0 <= j < k ==> call_ensures(p, (&&#[trigger] s[j],), true)) && (k < s.len() ==> call_ensures(p, (&&s[k],), false))
}
fn prefix_len<'a, P: Fn(&&'a u8) -> bool>(s: &'a [u8], p: &P) -> (k: usize)
    requires forall|x: &&'a u8| #[trigger] call_requires(*p, (x,)),
    ensures k <= s@.len(), forall|j: int| 0 <= j < k ==> call_ensures(*p, (&&#[trigger] s@[j],), true), k < s@.len() ==> call_ensures(*p, (&&s@[k as int],), false),
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), forall|x: &&'a u8| #[trigger] call_requires(*p, (x,)), forall|j: int| 0 <= j < k ==> call_ensures(*p, (&&#[trigger] s@[j],), true),
        decreases s@.len() - k
    {
        let x: &'a u8 = &s[k];
        if !p(&x) { return k; }
        k += 1;
    }
    k
}
impl<'a> VIter<'a> {
    pub fn skip_while<P: Fn(&&'a u8) -> bool>(self, p: P) -> (r: VIter<'a>)
        requires forall|x: &&'a u8| #[trigger] call_requires(p, (x,)),
        ensures is_skip_while(p, self.s@, r.s@)
    { let k = prefix_len(self.s, &p); assert(self.s@.skip(k as int) == self.s@.subrange(k as int, self.s@.len() as int)); VIter { s: &self.s[k..] } }
    pub fn take_while<P: Fn(&&'a u8) -> bool>(self, p: P) -> (r: VIter<'a>)
        requires forall|x: &&'a u8| #[trigger] call_requires(p, (x,)),
        ensures is_take_while(p, self.s@, r.s@)
    { let k = prefix_len(self.s, &p); assert(self.s@.take(k as int) == self.s@.subrange(0, k as int)); VIter { s: &self.s[..k] } }
    pub fn cloned(self) -> (r: VCloned<'a>) ensures r.s@ == self.s@ { VCloned { s: self.s } }
}
pub trait VCollect: Sized { spec fn from(self, s: Seq<u8>) -> bool; fn make(s: &[u8]) -> (r: Self) ensures r.from(s@); }
impl VCollect for Vec<u8> { open spec fn from(self, s: Seq<u8>) -> bool { self@ == s } fn make(s: &[u8]) -> (r: Vec<u8>) { s.v_to_vec() } }
impl<'a> VCloned<'a> { pub fn collect<C: VCollect>(self) -> (r: C) ensures r.from(self.s@) { C::make(self.s) } }
}
}
pub use viter::*;
