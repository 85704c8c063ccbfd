#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use core::ops::Range;
pub mod bytes { pub use super::vbytes::Bytes; }
pub mod png { pub use super::{PngExifSource, PngParseOut, extract_chunks}; }
//@include nom.rs
//@include common.rs
//@include vvec.rs
//@include bytes.rs
//@include vio.rs
//@include hashset.rs
use nom::{IResult, Parser, Needed, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number::Endianness};
verus! {
global size_of usize == 8;
broadcast use {seq_slices, q_from};
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@include inc_ifd.vrs
//@include inc_walk.vrs
//@include inc_perr.vrs
//@include inc_parser.vrs
//@include inc_png.vrs
//@include inc_pngx.vrs
//@stub parser src/error.rs impl From<std::io::Error> for ParsedError :: from
//@stub walk src/exif/exif_iter.rs input_into_iter
//@stub png src/png.rs extract_chunks
//@stub parser_async src/parser_async.rs trait AsyncBufParser : Buf + Debug :: load_and_parse
//@stub parser src/parser.rs impl ShareBuf for MediaParser :: share_buf
//@include inc_glue.vrs
//@fn src/exif.rs parse_png_exif_iter_async
//@sig fn parse_png_exif_iter_async<R: Read>(parser: &mut MediaParser, reader: &mut R, skip_by_seek: SkipBySeekFn<R>) -> (res: CResult<ExifIter>)
//@subst? `crate::Error` => `Error`
//@at start
    hide(pwalk); hide(extracted); hide(ExifIter::wf); hide(ExifIter::st); hide(ExifIter::init); hide(open_block); hide(png_short); hide(sees); hide(IfdIter::dir);
    broadcast use png_ends;
    let ghost s0 = old(parser).stream(old(reader));
    proof { png_coherent(s0); }
//@at before `crate::png::extract_chunks(buf`
    proof { slice_max(buf); }
//@closure 0
|buf: &[u8], state: Option<ParsingState>| -> (o: Result<PngParseOut, ParsingErrorState>) requires pst_ok(pst_of(state)) ensures png_rel()(buf@, state, o)
//@spec
    requires old(parser).wf(), old(parser).pos() == 0, old(parser).mem() ==> !skip_by_seek.seeks()
    ensures png_exif_is(old(parser).stream(old(reader)), res)
//@end
//@fn src/exif.rs parse_png_full_async
//@sig fn parse_png_full_async<R: Read>(parser: &mut MediaParser, reader: &mut R, skip_by_seek: SkipBySeekFn<R>) -> (res: CResult<(Option<ExifIter>, Vec<(String, String)>)>)
//@at start
    hide(pwalk); hide(extracted); hide(ExifIter::wf); hide(ExifIter::st); hide(ExifIter::init); hide(open_block); hide(png_short); hide(sees); hide(IfdIter::dir);
    broadcast use png_ends;
    let ghost s0 = old(parser).stream(old(reader));
    proof { png_coherent(s0); }
//@at before `crate::png::extract_chunks(buf`
    proof { slice_max(buf); }
//@closure 0
|buf: &[u8], state: Option<ParsingState>| -> (o: Result<PngParseOut, ParsingErrorState>) requires pst_ok(pst_of(state)) ensures png_rel()(buf@, state, o)
//@spec
    requires old(parser).wf(), old(parser).pos() == 0, old(parser).mem() ==> !skip_by_seek.seeks()
    ensures png_full_is(old(parser).stream(old(reader)), res)
//@end
} // verus!
fn main() {}
