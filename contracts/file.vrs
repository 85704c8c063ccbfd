#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpecImpl;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include cursor.rs
use nom::{bytes::complete, IResult, Needed, Parser, is_inc, is_error, is_failure, number, number::Endianness, s16, s32, s64, s16be, s24be, s32be, s64be, s16le, s32le, s64le};
verus! {
broadcast use {q_from};
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_bbox.vrs
//@include inc_ebml.vrs
//@include inc_ebmlx.vrs
//@include inc_tiff.vrs
//@include inc_mime.vrs
//@item src/jpeg.rs enum MarkerCode | derive(Clone, Copy) | repr(u8)
//@item src/raf.rs struct RafInfo
//@item src/raf.rs const MAGIC
//@item src/file.rs const PNG_SIGNATURE
/// a constant list: what is in it
#[verifier::opaque]
pub open spec fn r_list(v: Seq<&'static [u8]>, p: spec_fn(Seq<u8>) -> bool) -> bool { (forall|i: int| 0 <= i < v.len() ==> p(#[trigger] v[i]@)) && (forall|b: Seq<u8>| #[trigger] p(b) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == b) }
//@item src/file.rs const HEIF_HEIC_BRAND_NAMES | byteslist
//@item src/file.rs const HEIC_BRAND_NAMES | byteslist
//@item src/file.rs const MP4_BRAND_NAMES | byteslist
//@item src/file.rs const QT_BRAND_NAMES | byteslist
//@item src/file.rs const CR3_BRAND_NAMES | byteslist
//@item src/file.rs const AVIF_BRAND_NAMES | byteslist
pub fn v_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { if a.len() != b.len() { return false; } let r = nom::eq_upto(a, b, a.len()); assert(r ==> a@ =~= b@); r }
pub fn v_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.as_str() == b }
#[verifier::opaque]
pub open spec fn any_of(l: Seq<&'static [u8]>, g: spec_fn(Seq<u8>) -> bool) -> bool { exists|i: int| 0 <= i < l.len() && g(#[trigger] l[i]@) }
pub open spec fn same(x: Seq<u8>) -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| b == x }
pub open spec fn occurs(s: Seq<u8>) -> spec_fn(Seq<u8>) -> bool { |b: Seq<u8>| has_sub(s, b) }
pub trait ListX {
    spec fn lv(&self) -> Seq<&'static [u8]>;
    /// std: contains
    fn v_contains(&self, x: &&[u8]) -> (r: bool) ensures r == any_of(self.lv(), same((*x)@));
    /// std: Iterator::any
    fn v_any<F: Fn(&&'static [u8]) -> bool>(&self, Ghost(g): Ghost<spec_fn(Seq<u8>) -> bool>, f: F) -> (r: bool)
        requires forall|x: &&'static [u8]| #[trigger] f.requires((x,)), forall|x: &&'static [u8], b: bool| #[trigger] f.ensures((x,), b) ==> b == g((*x)@)
        ensures r == any_of(self.lv(), g);
}
impl ListX for [&'static [u8]] {
    open spec fn lv(&self) -> Seq<&'static [u8]> { self@ }
    fn v_contains(&self, x: &&[u8]) -> (r: bool)
    { proof { reveal(any_of); } let mut k: usize = 0; while k < self.len() invariant k <= self@.len(), forall|j: int| 0 <= j < k ==> (#[trigger] self@[j])@ != (*x)@, decreases self@.len() - k { proof { reveal(any_of); } if v_eq(self[k], x) { assert(same((*x)@)(self@[k as int]@)); return true; } k += 1; } false }
    fn v_any<F: Fn(&&'static [u8]) -> bool>(&self, Ghost(g): Ghost<spec_fn(Seq<u8>) -> bool>, f: F) -> (r: bool)
    { proof { reveal(any_of); } let mut k: usize = 0; while k < self.len() invariant k <= self@.len(), forall|x: &&'static [u8]| #[trigger] f.requires((x,)), forall|x: &&'static [u8], b: bool| #[trigger] f.ensures((x,), b) ==> b == g((*x)@), forall|j: int| 0 <= j < k ==> !g((#[trigger] self@[j])@), decreases self@.len() - k { proof { reveal(any_of); } let x = self[k]; if f(&x) { assert(g(self@[k as int]@)); return true; } k += 1; } false }
}
/// what the lists of the source hold
pub open spec fn means(p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool) -> bool {
    (forall|l: Seq<&'static [u8]>, x: Seq<u8>| #![trigger r_list(l, p), any_of(l, same(x))] r_list(l, p) ==> any_of(l, same(x)) == q(x))
    && (forall|l: Seq<&'static [u8]>, s: Seq<u8>| #![trigger r_list(l, p), any_of(l, occurs(s))] r_list(l, p) ==> any_of(l, occurs(s)) == compat(q, s))
}
proof fn listed(p: spec_fn(Seq<u8>) -> bool, q: spec_fn(Seq<u8>) -> bool)
    requires forall|b: Seq<u8>| #[trigger] p(b) == q(b)
    ensures means(p, q)
{
    reveal(any_of); reveal(compat); reveal(r_list);
    assert forall|l: Seq<&'static [u8]>, x: Seq<u8>| #![trigger r_list(l, p), any_of(l, same(x))] r_list(l, p) implies any_of(l, same(x)) == q(x) by { if any_of(l, same(x)) { assert(p(x)); } if q(x) { assert(p(x)); let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i]@ == x; assert(same(x)(l[i]@)); } }
    assert forall|l: Seq<&'static [u8]>, s: Seq<u8>| #![trigger r_list(l, p), any_of(l, occurs(s))] r_list(l, p) implies any_of(l, occurs(s)) == compat(q, s) by {
        if any_of(l, occurs(s)) { let i = choose|i: int| 0 <= i < l.len() && occurs(s)(#[trigger] l[i]@); assert(p(l[i]@)); assert(q(l[i]@) && has_sub(s, l[i]@)); }
        if compat(q, s) { let b = choose|b: Seq<u8>| #[trigger] q(b) && has_sub(s, b); assert(p(b)); let i = choose|i: int| 0 <= i < l.len() && #[trigger] l[i]@ == b; assert(occurs(s)(l[i]@)); }
    }
}
proof fn the_lists()
    ensures means(HEIF_HEIC_BRAND_NAMES__p(), heif()), means(HEIC_BRAND_NAMES__p(), heic()), means(MP4_BRAND_NAMES__p(), mp4()), means(QT_BRAND_NAMES__p(), qt()), means(CR3_BRAND_NAMES__p(), cr3()), means(AVIF_BRAND_NAMES__p(), avif()), forall|b: Seq<u8>| #[trigger] heic_brand(b) ==> heif_brand(b)
{
    reveal(qt_brand); reveal(avif_brand); reveal(heic_brand); reveal(heif_brand); reveal(mp4_brand); reveal(cr3_brand);
    listed(HEIF_HEIC_BRAND_NAMES__p(), heif()); listed(HEIC_BRAND_NAMES__p(), heic()); listed(MP4_BRAND_NAMES__p(), mp4()); listed(QT_BRAND_NAMES__p(), qt()); listed(CR3_BRAND_NAMES__p(), cr3()); listed(AVIF_BRAND_NAMES__p(), avif());
}
pub trait FindSubstring {
    spec fn fv(&self) -> Seq<u8>;
    /// nom: the first occurrence
    fn find_substring(&self, t: &[u8]) -> (r: Option<usize>) ensures r is Some == has_sub(self.fv(), t@);
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.fv();
}
impl FindSubstring for [u8] {
    open spec fn fv(&self) -> Seq<u8> { self@ }
    fn as_bytes(&self) -> (r: &[u8]) { self }
    fn find_substring(&self, t: &[u8]) -> (r: Option<usize>)
    {
        if t.len() > self.len() { return None; }
        let mut k: usize = 0;
        while k <= self.len() - t.len()
            invariant t@.len() <= self@.len(), k <= self@.len() - t@.len() + 1, forall|i: int| 0 <= i < k ==> #[trigger] self@.subrange(i, i + t@.len()) != t@,
            decreases self@.len() + 1 - k
        { proof { slice_max(self); } if v_eq(&self[k..k + t.len()], t) { return Some(k); } k += 1; }
        None
    }
}
//@stub ifd src/error.rs nom_err_to_malformed
//@stub ifd src/exif/exif_exif.rs impl TiffHeader :: parse
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: parse
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: body_data
//@stub bbox src/bbox.rs travel_header
//@stub ebml src/ebml/element.rs parse_ebml_doc_type
//@stub jpeg src/jpeg.rs impl MarkerCode :: code

//@fn src/ebml/element.rs impl From<ParseEBMLFailed> for crate::Error :: from
//@presubst `e.to_string()` => `vmsg()`
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseEBMLFailed> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseEBMLFailed) -> Self { match v { ParseEBMLFailed::Need(_) => Error::UnexpectedEof { context: "ebml element" }, _ => Error::Malformed { kind: MalformedKind::EbmlElement, message: VMsg } } }
}
//@fn src/jpeg.rs check_jpeg
//@spec
    ensures res is Ok == jpeg_sig(input@)
//@end
//@fn src/raf.rs impl RafInfo :: check
//@wrap impl RafInfo<'_>
//@spec
    ensures res is Ok == raf_sig().is_prefix_of(input@)
//@end
//@fn src/file.rs check_png
//@presubst `&input[..PNG_SIGNATURE.len()] == PNG_SIGNATURE` => `v_eq(&input[..PNG_SIGNATURE.len()], PNG_SIGNATURE)`
//@spec
    ensures res is Ok == png_sig().is_prefix_of(input@)
//@end
//@fn src/file.rs get_ebml_doc_type
//@spec
    ensures match doc_type(input@, 0) { Doc::T(t, _) => res matches Ok(x) && x@ == t, _ => res is Err }
//@end
//@fn src/file.rs get_ftyp_and_major_brand
//@spec
    ensures match bx(input@) {
        Hdr::H(h) => {
            let b = input@.take(h.size).skip(h.hlen);
            if h.ty == "ftyp"@ { if b.len() < 4 { res is Err } else { res matches Ok((f, m)) && holds(f, input@.take(h.size), h) && f.wf() && (m matches Some(x) && x@ == b.take(4)) } }
            else if h.ty == "wide"@ { res matches Ok((_, None)) }
            else { res is Err } },
        _ => res is Err,
    }
//@end
//@fn src/file.rs parse_bmff_mime
//@presubst `header.box_type != "mdat"` => `!v_is(&header.box_type, "mdat")`
//@presubst `travel_header(input, ` => `travel_header(input, Ghost(is_mdat()), `
//@presubst `.contains(` => `.v_contains(`
//@presubst `.iter().any(|v| v.as_bytes() == major_brand)` => `.v_any(Ghost(same(major_brand@)), |v: &&'static [u8]| -> (o: bool) ensures o == (v@ == major_brand@) { v_eq(v.as_bytes(), major_brand) })`
//@presubst `.iter().any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())` => `.v_any(Ghost(occurs(compatible_brands@)), |v: &&'static [u8]| -> (o: bool) ensures o == has_sub(compatible_brands@, v@) { compatible_brands.find_substring(v.as_bytes()).is_some() })`
//@presubst `.iter().any(|x| compatible_brands.find_substring(*x).is_some())` => `.v_any(Ghost(occurs(compatible_brands@)), |v: &&'static [u8]| -> (o: bool) ensures o == has_sub(compatible_brands@, v@) { compatible_brands.find_substring(*v).is_some() })`
//@closure 0
|vt: Error| -> (o: Error) ensures o == Error::UnsupportedFormat
//@closure 1
|header: &BoxHeader, vt: &[u8]| -> (o: bool) ensures o == (header.box_type@ != "mdat"@)
//@closure 9
|header: &BoxHeader, vt: &[u8]| -> (o: bool) ensures o == (header.box_type@ != "mdat"@)
//@at start
    proof { the_lists(); }
//@spec
    ensures match bmff(input@) { Some(m) => res == Ok::<MediaMime, Error>(m), None => res is Err }
//@end
//@fn src/file.rs impl TryFrom<&[u8]> for MediaMime :: try_from
//@wrap none
//@sig fn mime_try_from(input: &[u8]) -> (res: Result<MediaMime, Error>)
//@presubst `x == "webm"` => `v_is(&x, "webm")`
//@spec
    ensures match mime_of(input@) { Some(m) => res == Ok::<MediaMime, Error>(m), None => res matches Err(Error::UnsupportedFormat) }
//@end
} // verus!
fn main() {}
