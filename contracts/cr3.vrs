#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use core::ops::Range;
//@include nom.rs
//@include common.rs
use nom::{number::{self, Endianness}, s16, s32, bytes, bytes::streaming, combinator::{fail}, multi::PR, IResult, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, s16be, s24be, s32be, s64be};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_bbox.vrs
//@include inc_tiff.vrs
//@include inc_cr3.vrs
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: parse
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: header_size
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: body_data
//@stub bbox src/bbox.rs find_box
//@stub ifd src/exif/exif_exif.rs impl TiffHeader :: parse
//@include inc_perr.vrs
//@stub heif src/error.rs nom_error_to_parsing_error_with_state
//@stub heif src/error.rs impl ParsingErrorState :: new
//@stub heif src/exif/exif_exif.rs check_exif_header2
//@item src/bbox/uuid.rs const UUID_SIZE
//@item src/bbox/uuid.rs const CANON_UUID
//@item src/bbox/uuid.rs struct CanonUuidBox
//@item src/bbox/cr3_moov.rs struct Cr3MoovBox
//@item src/bbox/cr3_moov.rs const MIN_CR3_INPUT_SIZE
//@item src/bbox/cr3_moov.rs const MIN_FTYP_BODY_SIZE
//@item src/cr3.rs struct Cr3CmtRanges
impl CanonUuidBox { pub open spec fn is(&self, full: Seq<u8>, c: Cmts) -> bool { orng(self.cmt1_offset, full, c.c1) && orng(self.cmt2_offset, full, c.c2) && orng(self.cmt3_offset, full, c.c3) } }
/// std
pub assume_specification<I: Clone>[ <Range<I> as Clone>::clone ](r: &Range<I>) -> (x: Range<I>) ensures cloned(r.start, x.start), cloned(r.end, x.end);
pub open spec fn canon_is(o: Option<CanonUuidBox>, full: Seq<u8>, c: Option<Cmts>) -> bool { match c { None => o is None, Some(c) => o matches Some(x) && x.is(full, c) } }
impl Cr3MoovBox { pub open spec fn is(&self, full: Seq<u8>, c: Option<Cmts>) -> bool { match c { None => self.uuid_canon_box is None, Some(c) => self.uuid_canon_box matches Some(x) && x.is(full, c) } } }
/// the addresses of two slices, the first of which was sliced out of the second
/// (the verifier has no addresses: that `d` is part of `full` is known here as
/// "its bytes occur in `full`", where the real relation is that it was sliced from it)
#[verifier::external_body]
pub fn v_addrs(d: &[u8], full: &[u8]) -> (r: (usize, usize))
    requires nested(d@, full@), d@.len() > 0,
    ensures r.1 <= r.0, r.0 + d@.len() <= r.1 + full@.len() <= usize::MAX, full@.subrange(r.0 - r.1, r.0 - r.1 + d@.len()) == d@,
{ (d.as_ptr() as usize, full.as_ptr() as usize) }
/// the names in CMT_BOX_TYPES
pub fn v_is_cmt(s: &str) -> (r: bool) ensures r == (s@ == "CMT1"@ || s@ == "CMT2"@ || s@ == "CMT3"@) { v_str_eq(s, "CMT1") || v_str_eq(s, "CMT2") || v_str_eq(s, "CMT3") }
proof fn nest(full: Seq<u8>, d: Seq<u8>, a: int, b: int)
    requires nested(d, full), 0 <= a <= b <= d.len()
    ensures nested(d.subrange(a, b), full), b == d.len() ==> nested(d.skip(a), full), a == 0 ==> nested(d.take(b), full)
{ reveal(nested); let o = choose|o: int| 0 <= o && o + d.len() <= full.len() && #[trigger] full.subrange(o, o + d.len()) == d;
  assert(full.subrange(o + a, o + a + (b - a)) =~= d.subrange(a, b)); assert(d.take(b) =~= d.subrange(0, b)); assert(d.skip(a) =~= d.subrange(a, d.len() as int)); }
/// of the first box of `s`: the box, its body and what follows
proof fn nest_box(full: Seq<u8>, s: Seq<u8>)
    requires nested(s, full)
    ensures bx(s) matches Hdr::H(h) ==> nested(s.take(h.size), full) && nested(body(s.take(h.size), h), full) && nested(s.skip(h.size), full)
{ match bx(s) { Hdr::H(h) => { nest(full, s, 0, h.size); nest(full, s, h.size, s.len() as int); nest(full, s.take(h.size), h.hlen, h.size); }, _ => {} } }
proof fn nest_find(full: Seq<u8>, s: Seq<u8>, ty: Seq<char>)
    requires nested(s, full)
    ensures find_ty(s, ty) matches Fnd::At(b, h, _) ==> nested(b, full)
    decreases s.len()
{ if s.len() > 0 { nest_box(full, s); match bx(s) { Hdr::H(h) => { if h.ty != ty && 0 < h.size <= s.len() { nest_find(full, s.skip(h.size), ty); } }, _ => {} } } }
proof fn nest_path(full: Seq<u8>, s: Seq<u8>, p: Seq<Seq<char>>)
    requires nested(s, full)
    ensures find_path(s, p) matches Fnd::At(b, h, _) ==> nested(b, full) && nested(body(b, h), full)
    decreases p.len()
{ if p.len() > 0 { nest_find(full, s, p[0]); find_len(s, p[0]); match find_ty(s, p[0]) { Fnd::At(b, h, _) => { nest(full, b, h.hlen, b.len() as int); if p.len() > 1 { nest_path(full, body(b, h), p.skip(1)); } }, _ => {} } } }
proof fn find_len(s: Seq<u8>, ty: Seq<char>)
    ensures find_ty(s, ty) matches Fnd::At(b, h, _) ==> 0 <= h.hlen <= b.len()
    decreases s.len()
{ if s.len() > 0 { match bx(s) { Hdr::H(h) => { if h.ty != ty && 0 < h.size <= s.len() { find_len(s.skip(h.size), ty); } }, _ => {} } } }

//@fn src/bbox/uuid.rs impl CanonUuidBox :: exif_data_offset
//@spec
    ensures match self.cmt1_offset { None => res is None, Some(r) => res matches Some(x) && *x == r }
//@end
//@fn src/bbox/uuid.rs impl CanonUuidBox :: cmt2_data_offset
//@spec
    ensures match self.cmt2_offset { None => res is None, Some(r) => res matches Some(x) && *x == r }
//@end
//@fn src/bbox/uuid.rs impl CanonUuidBox :: cmt3_data_offset
//@spec
    ensures match self.cmt3_offset { None => res is None, Some(r) => res matches Some(x) && *x == r }
//@end
//@fn src/bbox/uuid.rs impl CanonUuidBox :: validate_cmt_data
//@spec
    ensures res == (cmt_ok(box_type@, data@) && (box_type@ == "CMT1"@ || box_type@ == "CMT2"@ || box_type@ == "CMT3"@))
//@end
//@fn src/bbox/uuid.rs impl CanonUuidBox :: parse
//@presubst `CMT_BOX_TYPES.contains(&box_type)` => `v_is_cmt(box_type)`
//@presubst `let data_start = bbox.data.as_ptr() as usize; let input_start = full_input.as_ptr() as usize;` => `let (data_start, input_start) = v_addrs(bbox.data, full_input);`
//@at before loop 0
    let ghost mut acc = no_cmts();
    proof { nest(full_input@, uuid_data@, 16, uuid_data@.len() as int); }
//@at loop 0 start
    let ghost r0 = remain@;
    proof { nest_box(full_input@, r0); }
//@at before all `remain = new_remain;`
    proof { match bx(r0) { Hdr::H(h) => { acc = cmt_add(acc, h.ty, body(r0.take(h.size), h)); }, _ => {} } }
//@loop 0
    invariant nested(remain@, full_input@), full_input@.len() > 0,
        orng(cmt1_offset, full_input@, acc.c1), orng(cmt2_offset, full_input@, acc.c2), orng(cmt3_offset, full_input@, acc.c3),
        cmts(remain@, acc) == cmts(uuid_data@.skip(16), no_cmts()),
    ensures acc == cmts(uuid_data@.skip(16), no_cmts()),
    decreases remain@.len()
//@spec
    requires nested(uuid_data@, full_input@)
    ensures if uuid_data@.len() < 16 || full_input@.len() == 0 { is_error(res) } else { res matches Ok((_, x)) && x.is(full_input@, cmts(uuid_data@.skip(16), no_cmts())) }
//@end
//@fn src/bbox/cr3_moov.rs impl Cr3MoovBox :: parse_moov_content
//@at loop 0 start
    let ghost r0 = remain@;
    proof { nest_box(full_input@, r0); assert(CANON_UUID@ =~= canon_id()); }
//@loop 0
    invariant_except_break nested(remain@, full_input@), canon_is(uuid_canon_box, full_input@, None), moov_cmts(remain@) == moov_cmts(moov_data@),
    invariant full_input@.len() > 0,
    ensures canon_is(uuid_canon_box, full_input@, moov_cmts(moov_data@)),
    decreases remain@.len()
//@spec
    requires nested(moov_data@, full_input@), full_input@.len() > 0
    ensures res matches Ok((_, x)) && x.is(full_input@, moov_cmts(moov_data@))
//@end
//@fn src/bbox/cr3_moov.rs impl Cr3MoovBox :: parse
//@presubst? `super::find_box` => `find_box`
//@at before `let (remain, Some(moov_bbox))`
    proof { assert(nested(input@, input@)) by { reveal(nested); assert(input@.subrange(0, 0 + (input@.len() as int)) =~= input@); } nest(input@, input@, 0, input@.len() as int); nest_box(input@, input@); nest_path(input@, remain@, path_parts("moov"@)); }
//@spec
    ensures match cr3_of(input@) { PR::Inc => is_inc(res), PR::Bad => is_error(res), PR::Ok(None, _) => res matches Ok((_, None)), PR::Ok(Some(c), _) => res matches Ok((_, Some(x))) && x.is(input@, c) }
//@end
//@fn src/bbox/cr3_moov.rs impl Cr3MoovBox :: exif_data_offset
//@spec
    ensures match self.uuid_canon_box { None => res is None, Some(c) => match c.cmt1_offset { None => res is None, Some(r) => res matches Some(x) && x == r } }
//@end
//@fn src/bbox/cr3_moov.rs impl Cr3MoovBox :: all_cmt_data_offsets
//@spec
    ensures forall|full: Seq<u8>, c: Option<Cmts>| #[trigger] self.is(full, c) ==> rngs(res@, full, cmt_list(c))
//@end
//@fn src/cr3.rs parse_moov_box
//@spec
    ensures match cr3_of(input@) { PR::Inc => is_inc(res), PR::Bad => is_error(res), PR::Ok(None, _) => res matches Ok((_, None)), PR::Ok(Some(c), _) => res matches Ok((_, Some(x))) && x.is(input@, c) }
//@end
//@fn src/cr3.rs extract_all_cmt_ranges
//@closure 0
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: ParsingErrorState) ensures e is Incomplete ==> o.err is Need, !(e is Incomplete) ==> o.err is Failed, o.state is None
//@presubst `for (block_id, range) in &ranges {` => `let mut vk: usize = 0; while vk < ranges.len() { let (block_id, range) = &ranges[vk]; vk += 1;`
//@loop 0
    invariant vk <= ranges@.len(), forall|i: int| 0 <= i < ranges@.len() ==> (#[trigger] ranges@[i]).1.end <= buf@.len(),
    decreases ranges@.len() - vk
//@spec
    ensures match cr3_of(buf@) {
        PR::Inc => p_need(res, None), PR::Bad => p_fail(res), PR::Ok(None, _) => res matches Ok(None),
        PR::Ok(Some(c), _) => if cmt_list(c).len() == 0 { p_fail(res) } else { res matches Ok(Some(x)) && rngs(x.ranges@, buf@, cmt_list(c)) },
    }
//@end
pub open spec fn cr3_tiff(b: Seq<u8>) -> Option<Seq<u8>> { if tiff_hdr(b) is Ok { Some(b) } else { item_tiff(b) } }
pub open spec fn cr3_extract<'a>(state: Option<ParsingState>, buf: Seq<u8>, r: Result<(Option<&'a [u8]>, Option<ParsingState>), ParsingErrorState>) -> bool {
    match state {
        Some(ParsingState::Cr3ExifSize(n)) => if buf.len() < n { p_need(r, state) } else { r matches Ok((d, s)) && s == state && data_is(d, cr3_tiff(buf.take(n as int))) },
        None => match cr3_of(buf) {
            PR::Inc => p_need(r, None), PR::Bad => p_fail(r), PR::Ok(None, _) => r matches Ok((None, None)),
            PR::Ok(Some(c), _) => match c { Some(Cmts { c1: Some(b), .. }) => r matches Ok((d, None)) && data_is(d, cr3_tiff(b)), _ => p_fail(r) },
        },
        _ => p_fail(r),
    }
}
//@fn src/cr3.rs extract_exif_data
//@sig fn cr3_extract_exif_data<'a>(state: Option<ParsingState>, buf: &'a [u8]) -> (res: Result<(Option<&'a [u8]>, Option<ParsingState>), ParsingErrorState>)
//@subst `nom :: bytes` => `bytes`
//@presubst `range.len()` => `v_range_len(&range)`
//@closure 0
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingErrorState) ensures e is Incomplete ==> o.err is Need, !(e is Incomplete) ==> o.err is Failed, o.state == state
//@closure 1
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingErrorState) ensures e is Incomplete ==> o.err is Need, !(e is Incomplete) ==> o.err is Failed, o.state == state
//@closure 2
|x: &'a [u8]| -> (o: Option<&'a [u8]>) ensures data_is(o, cr3_tiff(x@))
//@closure 3
|x: (&'a [u8], ())| -> (o: &'a [u8]) ensures o == x.0
//@spec
    requires state matches Some(s) ==> s is Cr3ExifSize
    ensures cr3_extract(state, buf@, res)
//@end
pub fn v_range_len(r: &Range<usize>) -> (n: usize) ensures r.start <= r.end ==> n == r.end - r.start { if r.start < r.end { r.end - r.start } else { 0 } }
} // verus!
fn main() {}
