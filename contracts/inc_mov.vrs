// ---- where a movie's metadata is
pub open spec fn moov_hit(h: Hd, rem: Seq<u8>) -> bool { h.ty == "moov"@ || rem.len() < h.size - h.hlen }
pub open spec fn moov_g() -> spec_fn(Hd, Seq<u8>) -> bool { |h: Hd, rem: Seq<u8>| moov_hit(h, rem) }
pub ghost enum Mb { Need, Fail, Skip(int), At(int, int) }
/// the moov box's body in `s`; if a box reaches beyond `s` first, where it ends
pub open spec fn moov_of(s: Seq<u8>) -> Mb {
    match trav(moov_g(), s) {
        Trav::Inc => Mb::Need, Trav::Bad => Mb::Fail,
        Trav::Stop(h, rem) => { let n = h.size - h.hlen; let at = s.len() - rem.len();
            if h.ty != "moov"@ { if at + n > usize::MAX { Mb::Fail } else { Mb::Skip(at + n) } }
            else if rem.len() < n { Mb::Need } else { Mb::At(at, at + n) } },
    }
}
pub fn v_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// the conversion of a `u64` cannot fail where `usize` has 64 bits
pub fn v_usize(x: u64) -> (r: usize) ensures r == x { x as usize }
// ---- what a movie's metadata says
/// an item names its key by its 1-based index; an index without a key is dropped
pub open spec fn paired(keys: Seq<Seq<char>>, items: Seq<(int, TV)>) -> Seq<(Seq<char>, TV)> decreases items.len() {
    if items.len() == 0 { Seq::empty() } else { let i = items.last(); let p = paired(keys, items.drop_last()); if 1 <= i.0 <= keys.len() { p.push((keys[i.0 - 1], i.1)) } else { p } }
}
pub open spec fn meta_pairs(s: Seq<u8>) -> Option<Seq<(Seq<char>, TV)>> {
    match find_path(s, path_parts("meta"@)) {
        Fnd::At(b, h, _) => match (find_path(body(b, h), path_parts("keys"@)), find_path(body(b, h), path_parts("ilst"@))) {
            (Fnd::At(kb, _, _), Fnd::At(ib, _, _)) => match (boxed_as(keys_f(), kb), ilst_of(ib)) { (PR::Ok(k, _), Some(i)) => Some(paired(k, i)), _ => None },
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn udta_entries(l: Seq<(Seq<u8>, Hd)>) -> Seq<(Seq<char>, TV)> { Seq::new(l.len(), |i: int| ("udta."@ + l[i].1.ty, TV::Bytes(body(l[i].0, l[i].1)))) }
pub open spec fn udta_of(s: Seq<u8>) -> Seq<(Seq<char>, TV)> {
    match find_path(s, path_parts("udta"@)) { Fnd::At(b, h, _) => match box_list(body(b, h)) { Some(l) => udta_entries(l), None => Seq::empty() }, _ => Seq::empty() }
}
pub open spec fn moov_entries(s: Seq<u8>) -> Seq<(Seq<char>, TV)> { (match meta_pairs(s) { Some(p) => p, None => Seq::empty() }) + udta_of(s) }
/// chrono: the date-time a text denotes in ISO 8601
pub uninterp spec fn iso_date(t: Seq<char>) -> Option<DateTime<FixedOffset>>;
/// the author: after the zero bytes and the language code, UTF-8
pub open spec fn auth_of(b: Seq<u8>) -> Option<Seq<char>> {
    let t = trimmed(b); let u = if seq![0x55u8, 0xc4u8].is_prefix_of(t) { t.skip(2) } else { t };
    if utf8_ok(u) { Some(utf8_dec(u)) } else { None }
}
/// the location: Latin-1, after four bytes
pub open spec fn loc_of(b: Seq<u8>) -> Option<Seq<char>> { if b.len() <= 4 { None } else { Some(latin1(b.skip(4))) } }
/// which tag an entry gives, and its value
pub open spec fn tagged(k: Seq<char>, v: TV) -> Option<(TrackInfoTag, TV)> {
    if k == "com.apple.quicktime.creationdate"@ { match v { TV::Text(t) => match iso_date(t) { Some(d) => Some((TrackInfoTag::CreateDate, TV::V(EntryValue::DateTime(d)))), None => None }, _ => None } }
    else if k == "com.apple.quicktime.make"@ { Some((TrackInfoTag::Make, v)) }
    else if k == "com.apple.quicktime.model"@ { Some((TrackInfoTag::Model, v)) }
    else if k == "com.apple.quicktime.software"@ { Some((TrackInfoTag::Software, v)) }
    else if k == "com.apple.quicktime.author"@ { Some((TrackInfoTag::Author, v)) }
    else if k == "com.apple.quicktime.location.ISO6709"@ { Some((TrackInfoTag::GpsIso6709, v)) }
    else if k == "udta.©xyz"@ { match v { TV::Bytes(b) => match loc_of(b) { Some(t) => Some((TrackInfoTag::GpsIso6709, TV::Text(t))), None => None }, _ => None } }
    else if k == "udta.auth"@ { match v { TV::Bytes(b) => match auth_of(b) { Some(t) => Some((TrackInfoTag::Author, TV::Text(t))), None => None }, _ => None } }
    else { None }
}
/// entries in order, a later one with the same tag replaces an earlier one
pub open spec fn tags_of(l: Seq<(Seq<char>, TV)>) -> Map<TrackInfoTag, TV> decreases l.len() {
    if l.len() == 0 { Map::empty() } else { let m = tags_of(l.drop_last()); match tagged(l.last().0, l.last().1) { Some(t) => m.insert(t.0, t.1), None => m } }
}
/// duration and creation time from the movie header, size from the video track's
pub open spec fn extras_of(s: Seq<u8>) -> Map<TrackInfoTag, TV> {
    let m = match find_path(s, path_parts("mvhd"@)) {
        Fnd::At(b, _, _) => match boxed_as(mvhd_f(), b) {
            PR::Ok(mv, _) => Map::empty().insert(TrackInfoTag::DurationMs, TV::V(EntryValue::U64(dur_ms(mv) as u64))).insert(TrackInfoTag::CreateDate, TV::V(EntryValue::DateTime(DateTime { v: (mv.created + mac_epoch()) as i64, t: FixedOffset { v: 0 } }))),
            _ => Map::empty() },
        _ => Map::empty(),
    };
    match video_dims(s) { Some(d) => m.insert(TrackInfoTag::Width, TV::V(EntryValue::U32(d.0 as u32))).insert(TrackInfoTag::Height, TV::V(EntryValue::U32(d.1 as u32))), None => m }
}
/// all of it; a creation date among the entries goes before the movie header's
pub open spec fn movie_of(s: Seq<u8>) -> Map<TrackInfoTag, TV> {
    let a = tags_of(moov_entries(s)); let x = extras_of(s);
    a.union_prefer_right(if a.contains_key(TrackInfoTag::CreateDate) { x.remove(TrackInfoTag::CreateDate) } else { x })
}
pub open spec fn tvm(m: Map<TrackInfoTag, EntryValue>) -> Map<TrackInfoTag, TV> { m.map_values(|x: EntryValue| tv(x)) }
pub open spec fn pv() -> spec_fn((String, EntryValue)) -> (Seq<char>, TV) { |x: (String, EntryValue)| (x.0@, tv(x.1)) }
pub open spec fn tag_is(t: Option<(TrackInfoTag, TV)>, o: Option<(TrackInfoTag, EntryValue)>) -> bool { match t { None => o is None, Some(t) => o matches Some(p) && p.0 == t.0 && tv(p.1) == t.1 } }
