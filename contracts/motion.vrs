#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include vvec.rs
use nom::{bytes::streaming, combinator::fail, number, IResult, Parser, is_inc, is_error, is_failure, s16be};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_jpeg.vrs
//@include inc_motion.vrs
//@item src/jpeg.rs const XMP_NS_HEADER | bytes
//@item src/jpeg.rs enum MotionPhotoScan
//@stub jpeg src/jpeg.rs impl MarkerCode :: code
//@stub jpeg src/jpeg.rs parse_segment

// ---------------------------------------------------------------- std
/// `[a, b, ..].concat()`
pub open spec fn cat(v: Seq<&[u8]>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last()@ } }
pub trait CatX { spec fn parts(&self) -> Seq<&[u8]>; fn v_concat(&self) -> (r: Vec<u8>) ensures r@ == cat(self.parts()); }
impl<'a, const N: usize> CatX for [&'a [u8]; N] {
    open spec fn parts(&self) -> Seq<&[u8]> { self@ }
    #[verifier::external_body]
    fn v_concat(&self) -> (r: Vec<u8>) { self.as_slice().concat() }
}
/// `h.windows(n)`: every run of n bytes
#[verifier::external_body]
pub fn v_windows<'a>(h: &'a [u8], n: usize) -> (r: VVec<&'a [u8]>)
    requires n > 0
    ensures r.v@.len() == (if h@.len() >= n { h@.len() - n + 1 } else { 0 }), forall|i: int| 0 <= i < r.v@.len() ==> (#[trigger] r.v@[i])@ == h@.subrange(i, i + n)
{ VVec { v: h.windows(n).collect() } }
pub fn v_refs<'a, T: Copy>(v: &Vec<T>) -> (r: VVec<T>) ensures r.v@ == v@ {
    let mut r: Vec<T> = Vec::new(); let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), r@ == v@.take(k as int) decreases v@.len() - k { r.push(v[k]); assert(v@.take(k as int).push(v@[k as int]) =~= v@.take(k + 1)); k += 1; }
    assert(v@.take(k as int) =~= v@);
    VVec { v: r }
}
/// `std::str::from_utf8(s).ok()?.parse::<u64>().ok()`
#[verifier::external_body]
pub fn v_u64(s: &[u8]) -> (r: Option<u64>) ensures r == u64_text(s@) { std::str::from_utf8(s).ok()?.parse::<u64>().ok() }
pub fn v_is(a: Option<&[u8]>, b: &[u8]) -> (r: bool) ensures r == (a matches Some(x) && x@ == b@) { match a { Some(x) => v_eq_bytes(x, b), None => false } }

pub proof fn find_at(h: Seq<u8>, n: Seq<u8>, i: int)
    requires occurs_at(h, n, i), forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(h, n, j)
    ensures find(h, n) == Some(i)
{ reveal(find); let c = find(h, n)->0; assert(occurs_at(h, n, c)); if c < i {} if i < c { assert(!occurs_at(h, n, i)); } }
pub proof fn find_facts(h: Seq<u8>, n: Seq<u8>)
    ensures find(h, n) matches Some(i) ==> occurs_at(h, n, i) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs_at(h, n, j)
{
    reveal(find);
    if exists|i: int| occurs_at(h, n, i) { let i = choose|i: int| occurs_at(h, n, i); least(h, n, i); }
}
pub proof fn least(h: Seq<u8>, n: Seq<u8>, i: int)
    requires occurs_at(h, n, i)
    ensures exists|k: int| #[trigger] occurs_at(h, n, k) && forall|j: int| 0 <= j < k ==> !#[trigger] occurs_at(h, n, j)
    decreases i
{ if exists|j: int| 0 <= j < i && occurs_at(h, n, j) { let j = choose|j: int| 0 <= j < i && occurs_at(h, n, j); least(h, n, j); } }
pub proof fn upto_at(h: Seq<u8>, b: u8, i: int)
    requires first(h, b, i)
    ensures upto(h, b) == Some(h.take(i))
{ reveal(upto); let c = choose|i: int| first(h, b, i); assert(first(h, b, c)); if c < i {} if i < c {} }

pub proof fn found_window(h: Seq<u8>, n: Seq<u8>, ws: Seq<&[u8]>, r: Option<usize>)
    requires 0 < n.len() <= h.len(), ws.len() == h.len() - n.len() + 1, forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i])@ == h.subrange(i, i + n.len()),
        match r { Some(k) => k < ws.len() && ws[k as int]@ == n && forall|i: int| 0 <= i < k ==> (#[trigger] ws[i])@ != n, None => forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i])@ != n }
    ensures match r { Some(k) => find(h, n) == Some(k as int), None => find(h, n) is None }
{
    match r {
        Some(k) => { assert forall|j: int| 0 <= j < k implies !#[trigger] occurs_at(h, n, j) by { assert(ws[j]@ != n); } find_at(h, n, k as int); }
        None => { reveal(find); assert forall|j: int| !#[trigger] occurs_at(h, n, j) by { if occurs_at(h, n, j) { assert(ws[j]@ != n); } } }
    }
}
//@fn src/jpeg.rs memchr_subslice
//@presubst `haystack.windows(needle.len()).position(|w| w == needle)` => `let ws = v_windows(haystack, needle.len()); let ghost wv = ws.v@; let vr = ws.position(|w| v_eq_bytes(w, needle)); proof { found_window(haystack@, needle@, wv, vr); } vr`
//@closure 0
|w: &[u8]| -> (o: bool) ensures o == (w@ == needle@)
//@at start
    proof { reveal(find); }
//@spec
    requires needle@.len() > 0
    ensures match res { Some(i) => find(haystack@, needle@) == Some(i as int) && i + needle@.len() <= haystack@.len() && occurs_at(haystack@, needle@, i as int), None => find(haystack@, needle@) is None }, haystack@.len() <= usize::MAX
//@end

pub proof fn cats(a: &[u8], b: &[u8])
    ensures cat(seq![a, b]) == a@ + b@
{ let v = seq![a, b]; assert(v.drop_last() =~= seq![a]); assert(v.drop_last().drop_last() =~= Seq::<&[u8]>::empty()); reveal_with_fuel(cat, 3); assert(cat(v) =~= a@ + b@); }
pub proof fn cats4(a: &[u8], b: &[u8], c: &[u8], d: &[u8])
    ensures cat(seq![a, b, c, d]) == a@ + b@ + c@ + d@
{ let v = seq![a, b, c, d]; assert(v.drop_last() =~= seq![a, b, c]); assert(v.drop_last().drop_last() =~= seq![a, b]); cats(a, b); reveal_with_fuel(cat, 3); assert(cat(v) =~= a@ + b@ + c@ + d@); }
/// `iter().position(|&b| b == c)`
pub trait FirstX { spec fn fv(&self) -> Seq<u8>; fn v_first(&self, c: u8) -> (r: Option<usize>) ensures match r { Some(k) => k < self.fv().len() && upto(self.fv(), c) == Some(self.fv().take(k as int)) && self.fv()[k as int] == c, None => upto(self.fv(), c) is None }; }
impl FirstX for [u8] {
    open spec fn fv(&self) -> Seq<u8> { self@ }
    fn v_first(&self, c: u8) -> (r: Option<usize>) {
        let mut k: usize = 0;
        while k < self.len() invariant k <= self@.len(), forall|i: int| 0 <= i < k ==> #[trigger] self@[i] != c decreases self@.len() - k
        { if self[k] == c { proof { upto_at(self@, c, k as int); } return Some(k); } k += 1; }
        proof { reveal(upto); }
        None
    }
}

//@fn src/jpeg.rs contains_attr_eq
//@subst `.concat()` => `; let needle = va.v_concat()`
//@presubst `let needle =` => `let va =`
//@at before `memchr_subslice`
    proof { reveal(attr_is); cats4(va@[0], va@[1], va@[2], va@[3]); assert(va@ =~= seq![va@[0], va@[1], va@[2], va@[3]]); }
//@spec
    ensures res == attr_is(xmp@, name@, value@)
//@end
//@fn src/jpeg.rs extract_attr_value
//@subst `.concat()` => `; let prefix = va.v_concat()`
//@presubst `let prefix =` => `let va =`
//@presubst `.iter().position(|&b| b ==` => `.v_first(`
//@at before `let start`
    proof { reveal(attr); cats(va@[0], va@[1]); assert(va@ =~= seq![va@[0], va@[1]]); }
//@spec
    ensures match res { Some(v) => attr(xmp@, name@) == Some(v@), None => attr(xmp@, name@) is None }
//@end

pub open spec fn views(v: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn behind(a: Seq<Seq<u8>>, r: Option<Seq<Seq<u8>>>) -> Option<Seq<Seq<u8>>> { match r { Some(x) => Some(a + x), None => None } }
pub open spec fn plus(a: int, r: Option<int>) -> Option<int> { match r { Some(x) => Some(a + x), None => None } }
pub proof fn nothing_before(r: Option<Seq<Seq<u8>>>) ensures behind(Seq::empty(), r) == r { if let Some(x) = r { assert(Seq::<Seq<u8>>::empty() + x =~= x); } }
pub proof fn pushed(iv: Seq<&[u8]>, t: &[u8], r: Option<Seq<Seq<u8>>>)
    ensures behind(views(iv.push(t)), r) == behind(views(iv), match r { Some(x) => Some(seq![t@] + x), None => None })
{ if let Some(x) = r { assert(views(iv.push(t)) + x =~= views(iv) + (seq![t@] + x)); } }
pub proof fn tags_step(d: Seq<u8>, pos: int)
    requires 0 <= pos <= d.len()
    ensures match find(d.skip(pos), item_tag()) {
        None => tags(d, pos) == Some(Seq::<Seq<u8>>::empty()),
        Some(i) => 0 <= i && pos + i + 15 <= d.len() && match upto(d.skip(pos + i), 0x3E) {
            None => tags(d, pos) is None,
            Some(t) => 0 < t.len() && pos + i + t.len() <= d.len() && tags(d, pos) == (match tags(d, pos + i + t.len()) { Some(r) => Some(seq![t] + r), None => None }),
        } }
{
    reveal(tags); find_facts(d.skip(pos), item_tag());
    if let Some(i) = find(d.skip(pos), item_tag()) {
        assert(d.skip(pos).subrange(i, i + item_tag().len())[0] == item_tag()[0]);
        assert(d.skip(pos + i)[0] == 0x3C);
        reveal(upto);
        if d.skip(pos + i).contains(0x3E) { let h = d.skip(pos + i); let j = choose|j: int| 0 <= j < h.len() && h[j] == 0x3E; least_first(h, 0x3E, j); }
    }
}
pub proof fn least_first(h: Seq<u8>, b: u8, i: int)
    requires 0 <= i < h.len(), h[i] == b
    ensures exists|k: int| first(h, b, k)
    decreases i
{ if exists|j: int| 0 <= j < i && h[j] == b { let j = choose|j: int| 0 <= j < i && h[j] == b; least_first(h, b, j); } else { assert(first(h, b, i)); } }
pub proof fn sum_step(ts: Seq<Seq<u8>>, k: int)
    ensures sum_from(ts, k) matches Some(t) ==> t >= 0,
        0 <= k < ts.len() ==> sum_from(ts, k) == (match (num_attr(ts[k], n_length()), sum_from(ts, k + 1)) {
        (Some(l), Some(r)) => Some(l + (if k == ts.len() - 1 { 0 } else { match num_attr(ts[k], n_padding()) { Some(p) => p as int, None => 0 } }) + r),
        _ => None }),
        k == ts.len() ==> sum_from(ts, k) == Some(0int),
    decreases ts.len() - k
{ reveal(sum_from); if 0 <= k < ts.len() { sum_step(ts, k + 1); } }
pub proof fn motion_is(ts: Seq<Seq<u8>>, k: int)
    requires first_motion(ts, k)
    ensures (choose|k: int| first_motion(ts, k)) == k
{ let c = choose|k: int| first_motion(ts, k); assert(first_motion(ts, c)); if c < k { assert(is_motion(ts[c])); } if k < c {} }
pub fn v_or_else<T, F: FnOnce() -> Option<T>>(a: Option<T>, f: F) -> (r: Option<T>) requires a is None ==> f.requires(()) ensures match a { Some(x) => r == a, None => f.ensures((), r) } { match a { Some(x) => Some(x), None => f() } }
//@fn src/jpeg.rs container_motion_photo_offset
//@presubst `.iter().position(|&b| b ==` => `.v_first(`
//@presubst `items.iter().position(` => `v_refs(&items).position(`
//@presubst `extract_attr_value(tag, b"Item:Semantic") == Some(b"MotionPhoto")` => `v_is(extract_attr_value(tag, b"Item:Semantic"), b"MotionPhoto")`
//@presubst `extract_attr_value(tag, b"Item:Mime") == Some(b"video/mp4")` => `v_is(extract_attr_value(tag, b"Item:Mime"), b"video/mp4")`
//@presubst `for (i, tag) in items.iter().enumerate().skip(mp_idx) {` => `let mut vk: usize = mp_idx; while vk < items.len() { let i = vk; let tag = items[vk]; vk += 1;`
//@presubst `std::str::from_utf8(s).ok()?.parse::<u64>().ok()` => `v_u64(s)`
//@at start
    proof { reveal(container); }
//@closure 0
|tag: &[u8]| -> (o: bool) ensures o == is_motion(tag@)
//@closure 1
|s: &[u8]| -> (o: Option<u64>) ensures o == u64_text(s@)
//@closure 2
|s: &[u8]| -> (o: Option<u64>) ensures o == u64_text(s@)
//@at before loop 0
    let ghost d = dir@;
    proof { tags_step(d, 0); assert(views(items@) =~= Seq::empty()); nothing_before(tags(d, 0)); }
//@loop 0
    invariant d == dir@, d.len() <= usize::MAX, pos <= d.len(), tags(d, 0) == behind(views(items@), tags(d, pos as int)), container(xmp@) == (match tags(d, 0) { None => None, Some(ts) => of_items(ts) })
    ensures find(d.skip(pos as int), item_tag()) is None
    decreases d.len() - pos
//@at loop 0 start
    proof { tags_step(d, pos as int); }
    let ghost iv = items@;
//@at before `pos = abs + tag_end_rel`
    proof {
        let t = d.skip(abs as int).take(tag_end_rel as int);
        assert(items@ == iv.push(items@.last()) && items@.last()@ == t);
        pushed(iv, items@.last(), tags(d, abs + tag_end_rel));
    }
//@at before `let mp_idx`
    let ghost ts = views(items@);
    proof { tags_step(d, pos as int); assert(ts + Seq::<Seq<u8>>::empty() =~= ts); assert(tags(d, 0) == Some(ts)); }
    assert(container(xmp@) == of_items(ts));
    proof { if forall|k: int| 0 <= k < ts.len() ==> !is_motion(#[trigger] ts[k]) { assert(container(xmp@) is None); } }
//@at before `let mut total`
    proof { motion_is(ts, mp_idx as int); sum_step(ts, mp_idx as int); }
//@at after loop 1
    proof { sum_step(ts, ts.len() as int); }
//@loop 1
    invariant ts == views(items@), mp_idx <= vk <= items@.len(), last == items@.len() - 1, sum_from(ts, mp_idx as int) == plus(total as int, sum_from(ts, vk as int)),
        container(xmp@) == (match sum_from(ts, mp_idx as int) { Some(t) => if t <= u64::MAX { Some(t as u64) } else { None }, None => None }),
    decreases items@.len() - vk
//@at loop 1 start
    proof { sum_step(ts, vk as int); sum_step(ts, vk + 1); assert(ts[vk as int] == items@[vk as int]@); }
//@spec
    ensures res == container(xmp@)
//@end

//@fn src/jpeg.rs parse_motion_photo_offset
//@presubst `std::str::from_utf8(s).ok()?.parse::<u64>().ok()` => `v_u64(s)`
//@presubst `container_motion_photo_offset(xmp).or_else(` => `v_or_else(container_motion_photo_offset(xmp),`
//@presubst `extract_attr_value(xmp, b"GCamera:MotionPhotoOffset").or_else(` => `v_or_else(extract_attr_value(xmp, b"GCamera:MotionPhotoOffset"),`
//@closure 0
|| -> (o: Option<u64>) ensures o == (match attr(xmp@, n_photo_off()) { Some(v) => u64_text(v), None => num_attr(xmp@, n_video_off()) })
//@closure 1
|| -> (o: Option<&[u8]>) ensures match o { Some(v) => attr(xmp@, n_video_off()) == Some(v@), None => attr(xmp@, n_video_off()) is None }
//@closure 2
|s: &[u8]| -> (o: Option<u64>) ensures o == u64_text(s@)
//@spec
    ensures res == declared(xmp@)
//@end
//@fn src/jpeg.rs scan_motion_photo
//@loop 0
    invariant scan(remain@) == scan(input@)
    decreases remain@.len()
//@spec
    ensures match scan(input@) { Scan::More => res is NeedMoreBytes, Scan::No => res is NotPresent, Scan::Found(n) => res == MotionPhotoScan::Found(n) }
//@end
//@fn src/jpeg.rs find_motion_photo_offset
//@spec
    ensures res == (match scan(input@) { Scan::Found(n) => Some(n), _ => None })
//@end
} // verus!
fn main() {}
