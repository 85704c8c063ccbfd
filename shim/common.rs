pub use seqlib::*;
pub mod seqlib {
use vstd::prelude::*;
verus! {
pub fn vpanic() requires false { }
// error message text: dropped by the extraction
pub struct VMsg;
pub fn vmsg() -> VMsg { VMsg }
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn v_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }
pub fn v_eq_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != b.len() { return false; }
    let mut k: usize = 0;
    while k < a.len()
        invariant k <= a@.len() == b@.len(), forall|i: int| 0 <= i < k ==> a@[i] == b@[i],
        decreases a@.len() - k
    { if a[k] != b[k] { return false; } k += 1; }
    assert(a@ =~= b@);
    true
}
pub fn v_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

/// Verified implementations of standard slice methods.
pub trait SliceX {
    spec fn sv(&self) -> Seq<u8>;
    fn v_starts_with(&self, needle: &[u8]) -> (r: bool)
        ensures r == needle@.is_prefix_of(self.sv());
    fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.sv();
}
impl SliceX for [u8] {
    open spec fn sv(&self) -> Seq<u8> { self@ }
    fn v_to_vec(&self) -> (r: Vec<u8>) {
        let mut r: Vec<u8> = Vec::new();
        let mut k: usize = 0;
        while k < self.len()
            invariant k <= self@.len(), r@ == self@.take(k as int),
            decreases self@.len() - k,
        {
            r.push(self[k]);
            assert(self@.take(k as int).push(self@[k as int]) =~= self@.take(k + 1));
            k += 1;
        }
        assert(self@.take(k as int) =~= self@);
        r
    }
    fn v_starts_with(&self, needle: &[u8]) -> (r: bool) {
        if self.len() < needle.len() { return false; }
        let mut k: usize = 0;
        while k < needle.len()
            invariant k <= needle@.len() <= self@.len(), forall|i: int| 0 <= i < k ==> self@[i] == needle@[i],
            decreases needle@.len() - k,
        {
            if self[k] != needle[k] {
                assert(!(needle@ =~= self@.subrange(0, needle@.len() as int))) by { assert(self@.subrange(0, needle@.len() as int)[k as int] != needle@[k as int]); }
                return false;
            }
            k += 1;
        }
        assert(needle@ =~= self@.subrange(0, needle@.len() as int));
        true
    }
}

    pub trait SliceT<T> {
        spec fn svt(&self) -> Seq<T>;
        fn v_split_at_checked<'a>(&'a self, mid: usize) -> (r: Option<(&'a [T], &'a [T])>)
            ensures mid <= self.svt().len() ==> (r matches Some((a, b)) && a@ == self.svt().take(mid as int) && b@ == self.svt().skip(mid as int)),
                mid > self.svt().len() ==> r is None;
    }
    impl<T> SliceT<T> for [T] {
        open spec fn svt(&self) -> Seq<T> { self@ }
        fn v_split_at_checked<'a>(&'a self, mid: usize) -> (r: Option<(&'a [T], &'a [T])>) {
            if mid <= self.len() { Some((&self[..mid], &self[mid..])) } else { None }
        }
    }
    pub trait OptionX<T> {
        spec fn ov(self) -> Option<T>;
        fn v_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>)
            requires self.ov() is None ==> f.requires(()),
            ensures match self.ov() { Some(x) => r == Ok::<T, E>(x), None => r is Err && f.ensures((), r->Err_0) };
        fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
            requires self.ov() matches Some(x) ==> f.requires((x,)),
            ensures match self.ov() { Some(x) => f.ensures((x,), r), None => !r };
        fn v_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
            requires self.ov() matches Some(x) ==> f.requires((&x,)),
            ensures match self.ov() { Some(x) => (r == Some(x) && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)), None => r is None };
    }
    impl<T> OptionX<T> for Option<T> {
        open spec fn ov(self) -> Option<T> { self }
        fn v_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) { match self { Some(x) => Ok(x), None => Err(f()) } }
        fn v_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(x) => f(x), None => false } }
        fn v_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { match self { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
    }

pub broadcast proof fn skip_skip<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn skip_subrange<A>(s: Seq<A>, a: int, b: int, c: int)
    requires 0 <= a, 0 <= b <= c, a + c <= s.len(),
    ensures #[trigger] s.skip(a).subrange(b, c) == s.subrange(a + b, a + c)
{ assert(s.skip(a).subrange(b, c) =~= s.subrange(a + b, a + c)); }
pub broadcast proof fn skip_take<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).take(b) == s.subrange(a, a + b)
{ assert(s.skip(a).take(b) =~= s.subrange(a, a + b)); }
pub broadcast proof fn subrange_skip<A>(s: Seq<A>, a: int, b: int, c: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= b - a,
    ensures #[trigger] s.subrange(a, b).skip(c) == s.subrange(a + c, b)
{ assert(s.subrange(a, b).skip(c) =~= s.subrange(a + c, b)); }
pub broadcast proof fn subrange_take<A>(s: Seq<A>, a: int, b: int, c: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= b - a,
    ensures #[trigger] s.subrange(a, b).take(c) == s.subrange(a, a + c)
{ assert(s.subrange(a, b).take(c) =~= s.subrange(a, a + c)); }
pub broadcast proof fn subrange_subrange<A>(s: Seq<A>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn skip_zero<A>(s: Seq<A>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn prefix_take<A>(p: Seq<A>, s: Seq<A>)
    ensures #[trigger] p.is_prefix_of(s) == (p.len() <= s.len() && s.take(p.len() as int) == p)
{ if p.len() <= s.len() { if p.is_prefix_of(s) { assert(s.take(p.len() as int) =~= p); } else { if s.take(p.len() as int) == p { assert(p.is_prefix_of(s)); } } } }
/// the `?` operator converts the error with From::from
pub broadcast axiom fn q_from<S: vstd::std_specs::convert::FromSpec<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) ==> (S::obeys_from_spec() ==> r == S::from_spec(v));
pub broadcast group seq_slices { skip_skip, skip_subrange, skip_take, subrange_skip, subrange_take, subrange_subrange, skip_zero, prefix_take }
}
}
