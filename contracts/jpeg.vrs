#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
use nom::{bytes::streaming, combinator::fail, number, IResult, Parser, is_inc, is_error, is_failure, s16be};
verus! {
broadcast use seq_slices;
//@bconsts
//@include inc_jpeg.vrs
//@item src/exif/exif_exif.rs const EXIF_IDENT | bytes

// ---------------------------------------------------------------- specification (from the JPEG/Exif standards)
pub open spec fn exif_id() -> Seq<u8> { seq![0x45u8, 0x78u8, 0x69u8, 0x66u8, 0u8, 0u8] }
pub open spec fn has_exif_id(p: Seq<u8>) -> bool { p.len() >= 6 && p.take(6) == exif_id() }
pub ghost enum ExifR { Inc, Bad, NoExif, Found(Seq<u8>) }
/// first APP1 segment with the Exif identifier before SOS
pub open spec fn find_exif(s: Seq<u8>) -> ExifR decreases s.len() {
    match seg(s) {
        Seg::Inc => ExifR::Inc,
        Seg::Bad => ExifR::Bad,
        Seg::Seg { code, payload, next } =>
            if code == 0xE1 && has_exif_id(payload) { ExifR::Found(payload) }
            else if code == 0xDA { ExifR::NoExif }
            else if 0 < next <= s.len() { find_exif(s.skip(next)) }
            else { ExifR::Bad },
    }
}
//@fn src/jpeg.rs impl MarkerCode :: code
//@spec
    ensures res == (self as u8)
//@end

//@fn src/exif/exif_exif.rs check_exif_header
//@subst `EXIF_IDENT.as_bytes()` => `EXIF_IDENT`
//@at start
    assert(EXIF_IDENT__() =~= exif_id());
    proof { if has_exif_id(data@) { assert(exif_id().is_prefix_of(data@)); } }
//@spec
    ensures res == has_exif_id(data@)
//@end

//@fn src/jpeg.rs parse_segment
//@spec
    ensures match seg_res(marker_code, input@) {
        Seg::Inc => is_inc(res),
        Seg::Bad => is_error(res),
        Seg::Seg { code, payload, next } => res matches Ok((rem, g)) && rem@ == input@.skip(next) && g.marker_code == code && g.payload@ == payload,
    }
//@end

//@fn src/jpeg.rs find_exif_segment
//@brktype (&[u8], Segment<'_>)
//@loop 0
    invariant_except_break find_exif(remain@) == find_exif(input@)
    ensures match find_exif(input@) {
        ExifR::Inc => false, ExifR::Bad => false,
        ExifR::NoExif => brk0.1.marker_code == 0xDA,
        ExifR::Found(p) => brk0.1.payload@ == p && brk0.1.marker_code != 0xDA,
    }
    decreases remain@.len()
//@spec
    ensures match find_exif(input@) {
        ExifR::Inc => is_inc(res),
        ExifR::Bad => is_error(res),
        ExifR::NoExif => res matches Ok((_, None)),
        ExifR::Found(p) => res matches Ok((_, Some(g))) && g.payload@ == p,
    }
//@end

//@fn src/jpeg.rs extract_exif_data
//@closure 0
|segment: Segment<'_>| -> (o: Option<&[u8]>)
   ensures segment.payload@.len() <= 6 ==> o is None, segment.payload@.len() > 6 ==> (o matches Some(x) && x@ == segment.payload@.skip(6))
//@spec
    ensures match find_exif(input@) {
        ExifR::Inc => is_inc(res),
        ExifR::Bad => is_error(res),
        ExifR::NoExif => res matches Ok((_, None)),
        ExifR::Found(p) => if p.len() <= 6 { res matches Ok((_, None)) } else { res matches Ok((_, Some(d))) && d@ == p.skip(6) },
    }
//@end

//@fn src/jpeg.rs impl Segment < '_ > :: payload_len
//@spec
    ensures res == self.payload@.len()
//@end
} // verus!
fn main() {}
