// ---- what reading a WebM file answers
/// floating point is the machine's business: only which numbers go in is said here
pub uninterp spec fn fzero() -> f64;
pub uninterp spec fn fscaled(d: f64, t: u64) -> f64;
pub uninterp spec fn fmillis(d: f64) -> u64;
/// chrono: a point in time, as nanoseconds since 1970-01-01 UTC
pub struct VDate { pub nanos: i128 }
//@item src/ebml/webm.rs struct EbmlFileInfo
//@item src/ebml/webm.rs struct TracksInfo
//@item src/ebml/webm.rs struct SegmentInfo | sub `DateTime<Utc>` => `VDate`
pub open spec fn info_is(x: SegmentInfo, i: SI) -> bool { x.duration == fscaled(i.dur, i.scale as u64) && match i.date { None => x.date is None, Some(n) => x.date matches Some(d) && d.nanos == n } }
pub open spec fn perr<T>(r: Result<T, ParsingError>, need: bool) -> bool { r matches Err(e) && if need { e is Need } else { e is Failed } }
pub open spec fn webm_is(x: EbmlFileInfo, w: Webm) -> bool {
    x.doc_type@ == w.doc && (match w.info { Some(i) => info_is(x.segment_info, i), None => x.segment_info.date is None && x.segment_info.duration == fzero() }) && (match w.size { Some(t) => x.tracks_info.width == t.0 && x.tracks_info.height == t.1, None => x.tracks_info.width == 0 && x.tracks_info.height == 0 })
}
/// chrono: the same instant at offset zero
pub uninterp spec fn date_fixed(n: int) -> DateTime<FixedOffset>;
/// what is said about a WebM movie
pub open spec fn webm_tags(date: Option<int>, dur: f64, w: u32, h: u32) -> Map<TrackInfoTag, EntryValue> {
    let m = match date { Some(n) => Map::empty().insert(TrackInfoTag::CreateDate, EntryValue::DateTime(date_fixed(n))), None => Map::empty() };
    m.insert(TrackInfoTag::DurationMs, EntryValue::U64(fmillis(dur))).insert(TrackInfoTag::Width, EntryValue::U32(w)).insert(TrackInfoTag::Height, EntryValue::U32(h))
}
/// what is said about a WebM file
pub open spec fn webm_all(w: Webm) -> Map<TrackInfoTag, EntryValue> {
    let (date, dur) = match w.info { Some(i) => (i.date, fscaled(i.dur, i.scale as u64)), None => (None, fzero()) };
    let (x, y) = match w.size { Some(t) => t, None => (0u32, 0u32) };
    webm_tags(date, dur, x, y)
}
