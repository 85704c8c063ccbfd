#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include cursor.rs
//@include hashmap.rs
use nom::{bytes::streaming, multi::{PR, rep, rep0, views, agrees}, number::Endianness, IResult, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, s16, s32, s64, s16be, s24be, s32be, s64be, s16le, s32le, s64le};
verus! {
broadcast use {q_from, skip_zero};
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@item src/error.rs enum ParsingError | sub `String` => `VMsg`
//@include inc_bbox.vrs
//@include inc_values.vrs
//@include inc_moov.vrs
//@include inc_ebml.vrs
//@include inc_ebmlx.vrs
//@include inc_webm.vrs
//@include inc_webm2.vrs
//@include inc_track.vrs
//@include inc_mov.vrs
//@item src/file.rs enum MediaMimeTrack | derive(Clone, Copy)
//@stub access src/values.rs impl EntryValue :: as_str
//@stub mov src/mov.rs parse_isobmff
//@stub mov src/mov.rs extract_moov_body_from_buf
//@stub webm src/ebml/webm.rs parse_webm
//@stub webm src/ebml/webm.rs impl From<EbmlFileInfo> for TrackInfo :: from
impl vmap::VQ<TrackInfoTag> for TrackInfoTag { open spec fn qv(&self) -> TrackInfoTag { *self } fn same(&self, o: &TrackInfoTag) -> (r: bool) { *self == *o } }
/// the tags found, and the position the location text says
pub open spec fn says(i: TrackInfo, m: Map<TrackInfoTag, TV>) -> bool {
    tvm(i.entries@) == m && i.gps_info == (if m.contains_key(TrackInfoTag::GpsIso6709) { match m[TrackInfoTag::GpsIso6709] { TV::Text(t) => iso6709(t), _ => None } } else { None })
}
/// ISO 6709: the position a text denotes
pub uninterp spec fn iso6709(t: Seq<char>) -> Option<GPSInfo>;
#[verifier::external_body]
pub fn v_gps(s: &str) -> (r: Result<GPSInfo, ()>) ensures r == (match iso6709(s@) { Some(g) => Ok::<GPSInfo, ()>(g), None => Err(()) }) { unimplemented!() }
/// the answer for a video or audio file
pub open spec fn track_is(input: Seq<u8>, mime: MediaMimeTrack, res: Result<TrackInfo, ParsingError>) -> bool {
    match mime {
        MediaMimeTrack::QuickTime | MediaMimeTrack::_3gpp | MediaMimeTrack::Mp4 => match moov_of(input) {
            Mb::Need => res matches Err(ParsingError::Need(_)), Mb::Fail => res matches Err(ParsingError::Failed { .. }), Mb::Skip(n) => res matches Err(ParsingError::ClearAndSkip(k)) && k == n,
            Mb::At(a, b) => res matches Ok(i) && says(i, movie_of(input.subrange(a, b))) },
        MediaMimeTrack::Webm | MediaMimeTrack::Matroska => match webm(input) { Out::Need => perr(res, true), Out::Bad => perr(res, false), Out::V(w) => res matches Ok(i) && says(i, tvm(webm_all(w))) },
    }
}
//@fn src/video.rs impl TrackInfo :: get
//@spec
    ensures match res { Some(v) => self.entries@.contains_key(tag) && self.entries@[tag] == *v, None => !self.entries@.contains_key(tag) }
//@end
//@fn src/video.rs parse_track_info
//@presubst `crate::file::MediaMimeTrack` => `MediaMimeTrack`
//@presubst `parse_webm(input)?.into()` => `track_info_from_ebml(parse_webm(input)?)`
//@presubst `s.parse().ok()` => `v_gps(s).ok()`
//@closure 0
|s: &str| -> (o: Option<GPSInfo>) ensures o == iso6709(s@)
//@spec
    ensures track_is(input@, mime_video, res)
//@end
} // verus!
fn main() {}
