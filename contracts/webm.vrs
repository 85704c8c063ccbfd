#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpecImpl;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include cursor.rs
//@include hashmap.rs
use nom::{s16, s32, s64, s16be, s24be, s32be, s64be, s16le, s32le, s64le, number::Endianness};
verus! {
broadcast use {q_from, skip_zero};
global size_of usize == 8;
//@bconsts
pub open spec fn latin1(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
//@include inc_err.vrs
//@item src/error.rs enum ParsingError | sub `String` => `VMsg`
//@include inc_ebml.vrs
//@include inc_ebmlx.vrs
#[verifier::external_body]
pub fn v_zero() -> (r: f64) ensures r == fzero() { 0.0 }
#[verifier::external_body]
pub fn v_scaled(d: f64, t: u64) -> (r: f64) ensures r == fscaled(d, t) { d * t as f64 }
#[verifier::external_body]
pub fn v_millis(d: f64) -> (r: u64) ensures r == fmillis(d) { (d / 1000.0 / 1000.0) as u64 }
//@include inc_webm.vrs
//@include inc_webm2.vrs
//@include inc_values.vrs
//@include inc_track.vrs
pub struct VSpan { pub nanos: i128 }
impl VDate {
    pub fn from_timestamp_nanos(n: i64) -> (r: VDate) ensures r.nanos == n { VDate { nanos: n as i128 } }
    /// midnight of a day: of 2001-01-01 only
    pub fn v_midnight(y: i32, m: u32, d: u32) -> (r: VDate) requires y == 2001, m == 1, d == 1 ensures r.nanos == 978_307_200_000_000_000 { VDate { nanos: 978_307_200_000_000_000 } }
    pub fn v_minus(self, o: VDate) -> (r: VSpan) requires -0x1_0000_0000_0000_0000 <= self.nanos <= 0x1_0000_0000_0000_0000, -0x1_0000_0000_0000_0000 <= o.nanos <= 0x1_0000_0000_0000_0000 ensures r.nanos == self.nanos - o.nanos { VSpan { nanos: self.nanos - o.nanos } }
    pub fn v_plus(self, o: VSpan) -> (r: VDate) requires -0x1_0000_0000_0000_0000 <= self.nanos <= 0x1_0000_0000_0000_0000, -0x2_0000_0000_0000_0000 <= o.nanos <= 0x2_0000_0000_0000_0000 ensures r.nanos == self.nanos + o.nanos { VDate { nanos: self.nanos + o.nanos } }
}
/// what nom carries along with an error: never looked at
pub struct VNE;
/// nom::multi::many_till, over functions that `g` and `f` describe
pub struct ManyTill<F, G, T> { pub f: F, pub g: G, pub gf: Ghost<(spec_fn(Seq<u8>) -> Option<T>, spec_fn(Seq<u8>) -> Option<int>)> }
pub open spec fn till_f<'a, F: Fn(&'a [u8]) -> Result<(&'a [u8], ()), nom::Err<VNE>>>(f: F, fs: spec_fn(Seq<u8>) -> Option<int>) -> bool {
    (forall|i: &'a [u8]| #[trigger] f.requires((i,))) && (forall|i: &'a [u8], r: Result<(&'a [u8], ()), nom::Err<VNE>>| #[trigger] f.ensures((i,), r) ==> match fs(i@) { Some(n) => r matches Ok((m, _)) && 0 <= n <= i@.len() && m@ == i@.skip(n), None => r is Err })
}
pub open spec fn till_g<'a, G: Fn(&'a [u8]) -> Result<(&'a [u8], Option<TracksInfo>), nom::Err<VNE>>>(g: G, gs: spec_fn(Seq<u8>) -> Option<(u32, u32)>) -> bool {
    (forall|i: &'a [u8]| #[trigger] g.requires((i,))) && (forall|i: &'a [u8], r: Result<(&'a [u8], Option<TracksInfo>), nom::Err<VNE>>| #[trigger] g.ensures((i,), r) ==> match gs(i@) { Some(t) => r matches Ok((m, o)) && t_is(o, Some(t)), None => r matches Err(nom::Err::Error(_)) })
}
pub open spec fn t_is(o: Option<TracksInfo>, t: Option<(u32, u32)>) -> bool { match t { None => o is None, Some(t) => o matches Some(o) && o.width == t.0 && o.height == t.1 } }
pub fn many_till<F, G>(Ghost(gs): Ghost<spec_fn(Seq<u8>) -> Option<(u32, u32)>>, Ghost(fs): Ghost<spec_fn(Seq<u8>) -> Option<int>>, f: F, g: G) -> (r: ManyTill<F, G, (u32, u32)>) ensures r.f == f, r.g == g, r.gf@ == (gs, fs) { ManyTill { f, g, gf: Ghost((gs, fs)) } }
impl<F, G> ManyTill<F, G, (u32, u32)> {
    pub fn parse<'a>(&mut self, input: &'a [u8]) -> (r: Result<(&'a [u8], (Vec<()>, Option<TracksInfo>)), nom::Err<VNE>>)
        where F: Fn(&'a [u8]) -> Result<(&'a [u8], ()), nom::Err<VNE>>, G: Fn(&'a [u8]) -> Result<(&'a [u8], Option<TracksInfo>), nom::Err<VNE>>
        requires till_f(old(self).f, old(self).gf@.1), till_g(old(self).g, old(self).gf@.0)
        ensures match till(old(self).gf@.0, old(self).gf@.1, input@) { Some(t) => r matches Ok((_, (_, o))) && t_is(o, Some(t)), None => r is Err }
    {
        let mut v: Vec<()> = Vec::new();
        let mut i = input;
        loop
            invariant till(self.gf@.0, self.gf@.1, i@) == till(self.gf@.0, self.gf@.1, input@), *self == *old(self), till_f(self.f, self.gf@.1), till_g(self.g, self.gf@.0),
            decreases i@.len()
        {
            match (self.g)(i) {
                Ok((m, o)) => { return Ok((m, (v, o))); }
                Err(nom::Err::Error(_)) => match (self.f)(i) {
                    Err(e) => { return Err(e); }
                    Ok((m, o)) => { if m.len() == i.len() { return Err(nom::Err::Error(VNE)); } v.push(o); i = m; }
                },
                Err(e) => { return Err(e); }
            }
        }
    }
}
//@item src/ebml/webm.rs enum ParseWebmFailed | sub `Box<dyn std::error::Error>` => `VMsg`
//@item src/ebml/webm.rs struct VideoTrackInfo | derive(PartialEq, Eq, Structural)
//@item src/ebml/webm.rs struct SeekEntry
//@item src/ebml/webm.rs enum SegmentId | derive(Clone, Copy)
//@item src/ebml/webm.rs enum InfoId | derive(Clone, Copy)
//@item src/ebml/webm.rs enum TracksId | derive(Clone, Copy, PartialEq, Eq, Structural)
//@item src/ebml/webm.rs enum SeekHeadId | derive(Clone, Copy)
//@item src/ebml/element.rs enum EBMLGlobalId
//@item src/ebml/element.rs struct UnknowEbmlIDError
//@item src/ebml/element.rs const INVALID_ELEMENT_ID
//@stub ebml src/ebml/vint.rs impl VInt :: as_u64_with_marker
//@stub ebml src/ebml/vint.rs impl VInt :: as_usize
//@stub ebml src/ebml/element.rs next_element_header
//@stub ebml src/ebml/element.rs find_element_by_id
//@stub ebml src/ebml/element.rs travel_while
//@stub ebml src/ebml/element.rs get_as_u64
//@stub ebml src/ebml/element.rs get_as_f64
//@stub ebml src/ebml/element.rs parse_ebml_doc_type
// ---- derived Default
impl Default for TracksInfo { fn default() -> (r: Self) ensures r.width == 0, r.height == 0 { TracksInfo { width: 0, height: 0 } } }
impl Default for VideoTrackInfo { fn default() -> (r: Self) ensures r.width == 0, r.height == 0 { VideoTrackInfo { width: 0, height: 0 } } }
impl Default for SegmentInfo { fn default() -> (r: Self) ensures r.date is None, r.duration == fzero() { SegmentInfo { duration: v_zero(), date: None } } }

//@fn src/ebml/webm.rs impl From<ParseEBMLFailed> for ParseWebmFailed :: from
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseEBMLFailed> for ParseWebmFailed {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseEBMLFailed) -> Self { match v { ParseEBMLFailed::Need(i) => ParseWebmFailed::Need(i), ParseEBMLFailed::NotEBMLFile => ParseWebmFailed::NotWebmFile, ParseEBMLFailed::InvalidEBMLFile(e) => ParseWebmFailed::InvalidWebmFile(e) } }
}
//@fn src/ebml/webm.rs impl From<ParseEBMLFailed> for ParsingError :: from
//@presubst `value.to_string()` => `vmsg()`
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseEBMLFailed> for ParsingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseEBMLFailed) -> Self { match v { ParseEBMLFailed::Need(i) => ParsingError::Need(i), _ => ParsingError::Failed { kind: MalformedKind::EbmlElement, message: VMsg } } }
}
//@fn src/ebml/webm.rs impl From<ParseVIntFailed> for ParseWebmFailed :: from
//@presubst `e.into()` => `vmsg()`
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseVIntFailed> for ParseWebmFailed {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseVIntFailed) -> Self { match v { ParseVIntFailed::Need(i) => ParseWebmFailed::Need(i), ParseVIntFailed::InvalidVInt(_) => ParseWebmFailed::InvalidWebmFile(VMsg) } }
}
//@fn src/ebml/webm.rs impl From<ParseWebmFailed> for ParsingError :: from
//@presubst `value.to_string()` => `vmsg()`
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseWebmFailed> for ParsingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseWebmFailed) -> Self { match v { ParseWebmFailed::Need(i) => ParsingError::Need(i), _ => ParsingError::Failed { kind: MalformedKind::EbmlElement, message: VMsg } } }
}
//@fn src/ebml/webm.rs impl From<ParseEBMLFailed> for nom::Err<(&[u8], ErrorKind)> :: from
//@wrap impl From<ParseEBMLFailed> for nom::Err<VNE>
//@presubst `(&[], ErrorKind::Fail)` => `VNE`
//@spec
    ensures true
//@end
impl FromSpecImpl<ParseEBMLFailed> for nom::Err<VNE> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseEBMLFailed) -> Self { nom::Err::Error(VNE) }
}
//@fn src/ebml/webm.rs impl From<ParseWebmFailed> for nom::Err<(&[u8], ErrorKind)> :: from
//@wrap impl From<ParseWebmFailed> for nom::Err<VNE>
//@presubst `(&[], ErrorKind::Fail)` => `VNE`
//@sig fn from(value: ParseWebmFailed) -> (res: Self)
//@spec
    ensures res == nom::Err::Error(VNE)
//@end
impl FromSpecImpl<ParseWebmFailed> for nom::Err<VNE> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseWebmFailed) -> Self { nom::Err::Error(VNE) }
}
//@fn src/ebml/webm.rs impl TryFrom<u64> for TracksId :: try_from
//@wrap impl TracksId
//@sig fn try_from(v: u64) -> (res: Result<TracksId, UnknowEbmlIDError>)
//@spec
    ensures match v { 0xAEu64 => res == Ok::<TracksId, UnknowEbmlIDError>(TracksId::TrackEntry), 0x83u64 => res == Ok::<TracksId, UnknowEbmlIDError>(TracksId::TrackType), 0xE0u64 => res == Ok::<TracksId, UnknowEbmlIDError>(TracksId::VideoTrack), 0xB0u64 => res == Ok::<TracksId, UnknowEbmlIDError>(TracksId::PixelWidth), 0xBAu64 => res == Ok::<TracksId, UnknowEbmlIDError>(TracksId::PixelHeight), _ => res is Err }
//@end
//@fn src/ebml/webm.rs impl TryFrom<u64> for InfoId :: try_from
//@wrap impl InfoId
//@sig fn try_from(v: u64) -> (res: Result<InfoId, UnknowEbmlIDError>)
//@spec
    ensures match v { 0x2AD7B1u64 => res == Ok::<InfoId, UnknowEbmlIDError>(InfoId::TimestampScale), 0x4489u64 => res == Ok::<InfoId, UnknowEbmlIDError>(InfoId::Duration), 0x4461u64 => res == Ok::<InfoId, UnknowEbmlIDError>(InfoId::Date), _ => res is Err }
//@end

pub open spec fn werr<T>(r: Result<T, ParseWebmFailed>, need: bool) -> bool { r matches Err(e) && (e is Need) == need && !(e is InvalidSeekEntry) }

pub open spec fn size_is(o: Option<VideoTrackInfo>, t: Option<(u32, u32)>) -> bool { match t { None => o is None, Some(t) => o matches Some(o) && o.width == t.0 && o.height == t.1 } }
//@fn src/ebml/webm.rs parse_video_track
//@presubst `travel_while(&mut cursor,` => `travel_while(&mut cursor, Ghost(gg),`
//@closure 0
|h: &ElementHeader| -> (o: bool) ensures o == (h.id != 0xB0)
//@closure 1
|h: &ElementHeader| -> (o: bool) ensures o == (h.id != 0xBA)
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    let ghost gg = id_is(0xB0);
//@at before `cursor.set_position(0)`
    let ghost gg = id_is(0xBA);
//@spec
    ensures match video(input@) { Out::Need => werr(res, true), Out::Bad => werr(res, false), Out::V(t) => res matches Ok(o) && size_is(o, t) }
//@end
//@fn src/ebml/webm.rs parse_track
//@presubst `TryInto::<TracksId>::try_into(` => `TracksId::try_from(`
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    proof { slice_max(input); }
//@loop 0
    invariant input@.len() <= isize::MAX, cursor.data() == input@, track(input@, cursor.at() as int) == track(input@, 0),
    decreases cursor.left()
//@spec
    ensures match track(input@, 0) { Out::Need => werr(res, true), Out::Bad => werr(res, false), Out::V(t) => res matches Ok(o) && size_is(o, t) }
//@end
//@fn src/ebml/webm.rs parse_tracks_info
//@sig fn parse_tracks_info<'a>(input: &'a [u8], pos: usize) -> (res: Result<Option<TracksInfo>, ParseWebmFailed>)
//@presubst `const Z: &[u8] = &[];` => ``
//@presubst `(Z, ErrorKind::Fail)` => `VNE`
//@presubst `Ok((Z, track))` => `Ok((v_empty(), track))`
//@presubst `many_till(` => `many_till(Ghost(entry_video()), Ghost(skip_el()),`
//@closure 0
|data: &'a [u8]| -> (o: Result<(&'a [u8], ()), nom::Err<VNE>>) ensures match skip_el()(data@) { Some(n) => o matches Ok((m, _)) && 0 <= n <= data@.len() && m@ == data@.skip(n), None => o is Err }
//@closure 1
|data: &'a [u8]| -> (o: Result<(&'a [u8], Option<TracksInfo>), nom::Err<VNE>>) ensures match entry_video()(data@) { Some(t) => o matches Ok((_, x)) && t_is(x, Some(t)), None => o matches Err(nom::Err::Error(_)) }
//@closure 2
|x: Option<VideoTrackInfo>| -> (o: Option<TracksInfo>) ensures match x { None => o is None, Some(x) => o matches Some(o) && o.width == x.width && o.height == x.height }
//@closure 3
|x: VideoTrackInfo| -> (o: TracksInfo) ensures o.width == x.width && o.height == x.height
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    proof { reveal(tracks); }
//@spec
    requires input@.len() > 0 || pos < usize::MAX
    ensures match tracks(input@, pos as int) { Out::Need => werr(res, true), Out::Bad => werr(res, false), Out::V(t) => res matches Ok(o) && t_is(o, t) }
//@end
pub fn v_empty<'a>() -> (r: &'a [u8]) ensures r@.len() == 0 { &[] }

//@fn src/ebml/webm.rs parse_segment_info_body
//@presubst `TryInto::<InfoId>::try_into(` => `InfoId::try_from(`
//@presubst `let mut time_scale = 1_000_000;` => `let mut time_scale: u64 = 1_000_000;`
//@presubst `let mut duration = 0.0;` => `let mut duration = v_zero();`
//@presubst `NaiveDate::from_ymd_opt(2001, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap().and_utc()` => `VDate::v_midnight(2001, 1, 1)`
//@presubst `dt - DateTime::from_timestamp_nanos(0)` => `dt.v_minus(VDate::from_timestamp_nanos(0))`
//@presubst `DateTime::from_timestamp_nanos(v as i64) + diff` => `VDate::from_timestamp_nanos(v as i64).v_plus(diff)`
//@presubst `duration * time_scale as f64` => `v_scaled(duration, time_scale)`
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    let ghost mut acc = si0();
    proof { cursor.wf(); }
//@loop 0
    invariant cursor.data() == old(cursor).data(), cursor.data().len() <= isize::MAX, info_body(cursor.data(), cursor.at() as int, acc) == info_body(old(cursor).data(), old(cursor).at() as int, si0()),
        time_scale == acc.scale, duration == acc.dur, match acc.date { None => info.date is None, Some(n) => info.date matches Some(d) && d.nanos == n },
    decreases cursor.left()
//@at after `let id = InfoId :: try_from (header . id) ;`
        let ghost d = cursor.rest();
//@at before `cursor.set_position(end)`
        proof {
            acc = if header.id == 0x2AD7B1 { match uint_of(d, header.data_size as int) { Some(v) => SI { scale: v, ..acc }, None => acc } }
            else if header.id == 0x4489 { match float_of(d, header.data_size as int) { Some(v) => SI { dur: v, ..acc }, None => acc } }
            else if header.id == 0x4461 { match uint_of(d, header.data_size as int) { Some(v) => SI { date: Some(((v as u64) as i64) + 978_307_200_000_000_000), ..acc }, None => acc } }
            else { acc };
        }
//@spec
    ensures match info_body(old(cursor).data(), old(cursor).at() as int, si0()) { Out::Need => perr(res, true), Out::Bad => perr(res, false), Out::V(i) => res matches Ok(x) && info_is(x, i) }
//@end
//@fn src/ebml/webm.rs parse_segment_info
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    proof { reveal(info); }
//@spec
    requires input@.len() > 0 || pos < usize::MAX
    ensures match info(input@, pos as int) { Out::Need => perr(res, true), Out::Bad => perr(res, false), Out::V(None) => res matches Ok(None), Out::V(Some(i)) => res matches Ok(Some(x)) && info_is(x, i) }
//@end
//@fn src/ebml/webm.rs parse_seek_entry
//@closure 0
|| -> (o: ParseWebmFailed) ensures o is InvalidSeekEntry
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    proof { input.wf(); }
//@loop 0
    invariant_except_break seek_fields(buf.data(), buf.at() as int, seek_id, seek_pos) == seek_fields(bd, 0, 0xFF, 0),
    invariant input.data() == old(input).data(), old(input).at() < input.at() <= input.data().len(), seek_entry(old(input).data(), old(input).at() as int) == (seek_fields(bd, 0, 0xFF, 0), input.at() as int), buf.at() <= buf.data().len(), buf.data() == bd,
    ensures seek_fields(bd, 0, 0xFF, 0) == seek_done(seek_id, seek_pos),
    decreases buf.left()
//@at before loop 0
    let ghost bd = buf.data();
//@spec
    requires old(input).at() <= old(input).data().len()
    ensures final(input).data() == old(input).data(), match seek_entry(old(input).data(), old(input).at() as int) {
        (SE::Need, _) => res matches Err(ParseWebmFailed::Need(_)), (SE::Bad, _) => res matches Err(ParseWebmFailed::InvalidWebmFile(_)),
        (SE::Skip, q) => (res matches Ok(None) || res matches Err(ParseWebmFailed::InvalidSeekEntry)) && final(input).at() == q && old(input).at() < q <= final(input).data().len(),
        (SE::E(id, pos), q) => (res matches Ok(Some(x)) && x.seek_id == id && x.seek_pos == pos) && final(input).at() == q && old(input).at() < q <= final(input).data().len() }
//@end
//@fn src/ebml/webm.rs parse_seek_head
//@loop 0
    invariant input.data() == old(input).data(), seek_head(input.data(), input.at() as int, entries@) == seek_head(old(input).data(), old(input).at() as int, Map::empty()),
    decreases input.left()
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
//@spec
    ensures match seek_head(old(input).data(), old(input).at() as int, Map::empty()) { Out::Need => werr(res, true), Out::Bad => werr(res, false), Out::V(m) => res matches Ok(x) && x@ == m }
//@end
//@fn src/ebml/webm.rs parse_seeks
//@closure 0
|seek_pos: u64| -> (o: u64) ensures o == sat64(seek_pos + pos)
//@at before `Ok (seeks)`
    proof { assert(seeks@ =~= seek_map(input@, pos as int)->0); }
//@at start
    broadcast use {skip_skip, skip_subrange, skip_take};
    proof { reveal(seek_map); }
//@spec
    requires pos <= input@.len()
    ensures match seek_map(input@, pos as int) { None => res is Err, Some(m) => res matches Ok(x) && x@ == m }
//@end
//@fn src/ebml/webm.rs parse_webm
//@presubst `ParseWebmFailed::NotWebmFile.into()` => `ParsingError::from(ParseWebmFailed::NotWebmFile)`
//@presubst `..Default::default()` => `segment_info: SegmentInfo::default(), tracks_info: TracksInfo::default()`
//@presubst `travel_while(&mut cursor,` => `travel_while(&mut cursor, Ghost(gg),`
//@closure 0
|h: &ElementHeader| -> (o: bool) ensures o == (h.id != 0x1549A966)
//@closure 1
|h: &ElementHeader| -> (o: bool) ensures o == (h.id != 0x1654AE6B)
//@at before `if ! info_set`
    let ghost gg = id_is(0x1549A966);
    assert(true);
    proof { find_at(gg, input@.skip(pos as int), 0); slice_max(input); }
//@at before `if ! tracks_set`
    let ghost gg = id_is(0x1654AE6B);
    proof { find_at(gg, input@.skip(pos as int), 0); }
//@spec
    ensures match webm(input@) { Out::Need => perr(res, true), Out::Bad => perr(res, false), Out::V(w) => res matches Ok(x) && webm_is(x, w) }
//@end

// ---- the answer
impl VDate {
    #[verifier::external_body]
    pub fn fixed_offset(self) -> (r: DateTime<FixedOffset>) ensures r == date_fixed(self.nanos as int) { unimplemented!() }
}
//@fn src/ebml/webm.rs impl From<EbmlFileInfo> for TrackInfo :: from
//@presubst `((value.segment_info.duration / 1000.0 / 1000.0) as u64).into()` => `from_U64(v_millis(value.segment_info.duration))`
//@presubst `value.tracks_info.width.into()` => `from_U32(value.tracks_info.width)`
//@presubst `value.tracks_info.height.into()` => `from_U32(value.tracks_info.height)`
//@wrap none
//@sig fn track_info_from_ebml(value: EbmlFileInfo) -> (res: TrackInfo)
//@spec
    ensures res.gps_info is None, res.entries@ == webm_tags(match value.segment_info.date { Some(d) => Some(d.nanos as int), None => None }, value.segment_info.duration, value.tracks_info.width, value.tracks_info.height)
//@end
} // verus!
fn main() {}
