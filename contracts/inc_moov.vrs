// ---- movie boxes: specification (ISO/IEC 14496-12 8.2.2, 8.3.2; QuickTime metadata)
/// a full box at the head of `s`, its body as `f` (of the version) says
pub open spec fn boxed_as<T>(f: spec_fn(int, Seq<u8>) -> PR<T>, s: Seq<u8>) -> PR<T> {
    match fhdr(s) {
        FHdr::Inc => PR::Inc, FHdr::Bad => PR::Bad,
        FHdr::F(h) => if h.h.size - h.hlen > max_body() { PR::Bad } else if s.len() < h.h.size { PR::Inc }
            else { match f(h.version, s.subrange(h.hlen, h.h.size)) { PR::Ok(t, _) => PR::Ok(t, s.skip(h.h.size)), e => e } },
    }
}
/// 1904-01-01T00:00:00Z, and the last second a calendar date exists for (chrono), in seconds since 1970
pub open spec fn mac_epoch() -> int { -2_082_844_800 }
pub open spec fn last_second() -> int { 8_210_266_876_799 }
pub open spec fn calendar(t: int) -> bool { t + mac_epoch() <= last_second() }
/// a movie header: creation time (seconds since 1904), time units per second, duration in them
pub ghost struct Mv { pub created: int, pub scale: int, pub dur: int }
pub open spec fn mvhd_of(ver: int, s: Seq<u8>) -> PR<Mv> {
    let n = if ver == 1 { 28int } else { 16 };
    if s.len() < n + 80 { PR::Bad }
    else {
        let m = if ver == 1 { Mv { created: s64be(s), scale: s32be(s.skip(16)), dur: s64be(s.skip(20)) } } else { Mv { created: s32be(s), scale: s32be(s.skip(8)), dur: s32be(s.skip(12)) } };
        if calendar(m.created) { PR::Ok(m, s.skip(n + 80)) } else { PR::Bad }
    }
}
pub open spec fn mvhd_f() -> spec_fn(int, Seq<u8>) -> PR<Mv> { |v: int, b: Seq<u8>| mvhd_of(v, b) }
/// duration in milliseconds; none without a time scale
pub open spec fn dur_ms(m: Mv) -> int { if m.scale == 0 { 0 } else { let q = m.dur * 1000 / m.scale; if q > 0xffff_ffff_ffff_ffff { 0xffff_ffff_ffff_ffff } else { q } } }
/// width and height of a track (16.16 fixed point, whole part)
pub open spec fn tkhd_of(ver: int, s: Seq<u8>) -> PR<(int, int)> {
    let n = if ver == 1 { 32int } else { 20 };
    if s.len() < n + 60 { PR::Bad } else { PR::Ok((s16be(s.skip(n + 52)), s16be(s.skip(n + 56))), s.skip(n + 60)) }
}
pub open spec fn tkhd_f() -> spec_fn(int, Seq<u8>) -> PR<(int, int)> { |v: int, b: Seq<u8>| tkhd_of(v, b) }
pub open spec fn vide() -> Seq<u8> { seq![0x76u8, 0x69u8, 0x64u8, 0x65u8] }
/// a track whose media handler is "vide"
pub open spec fn is_vide(b: Seq<u8>, h: Hd) -> bool {
    h.ty == "trak"@ && (match find_path(body(b, h), path_parts("mdia/hdlr"@)) { Fnd::At(b2, h2, _) => body(b2, h2).len() >= 12 && body(b2, h2).subrange(8, 12) == vide(), _ => false })
}
pub open spec fn is_vide_f() -> spec_fn(Seq<u8>, Hd) -> bool { |b: Seq<u8>, h: Hd| is_vide(b, h) }
/// width and height of the first video track, if it can be told
pub open spec fn video_dims(s: Seq<u8>) -> Option<(int, int)> {
    match trav_while(is_vide_f(), s) {
        Fnd::At(b, h, _) => match find_path(body(b, h), path_parts("tkhd"@)) {
            Fnd::At(b2, _, _) => match boxed_as(tkhd_f(), b2) { PR::Ok(t, _) => Some(t), _ => None },
            _ => None,
        },
        _ => None,
    }
}
/// one key: its size, a 4-character namespace, its name
pub open spec fn key_of(s: Seq<u8>) -> PR<Seq<char>> {
    if s.len() < 4 { PR::Bad } else { let n = s32be(s);
        if n < 4 || s.len() < n { PR::Bad } else { let b = s.subrange(4, n);
            if !utf8_ok(b) { PR::Bad } else { let t = utf8_dec(b); PR::Ok(if t.len() <= 4 { Seq::empty() } else { t.skip(4) }, s.skip(n)) } } }
}
pub open spec fn key_f() -> spec_fn(Seq<u8>) -> PR<Seq<char>> { |s: Seq<u8>| key_of(s) }
pub open spec fn keys_of(ver: int, s: Seq<u8>) -> PR<Seq<Seq<char>>> { if s.len() < 4 { PR::Bad } else { rep(key_f(), s32be(s), s.skip(4)) } }
pub open spec fn keys_f() -> spec_fn(int, Seq<u8>) -> PR<Seq<Seq<char>>> { |v: int, b: Seq<u8>| keys_of(v, b) }
/// values, by what they hold
pub ghost enum TV { Text(Seq<char>), Bytes(Seq<u8>), V(EntryValue) }
pub open spec fn tv(x: EntryValue) -> TV { match x { EntryValue::Text(s) => TV::Text(s@), EntryValue::U8Array(v) => TV::Bytes(v@), o => TV::V(o) } }
/// the value of an item, by its type code
pub open spec fn ilst_value(code: int, d: Seq<u8>) -> Option<TV> {
    let n = d.len();
    if code == 1 { if utf8_ok(d) { Some(TV::Text(utf8_dec(d))) } else { None } }
    else if code == 21 {
        if n == 1 { Some(TV::V(EntryValue::U8(d[0]))) } else if n == 2 { Some(TV::V(EntryValue::I16((s16be(d) as u16) as i16))) }
        else if n == 3 { Some(TV::V(EntryValue::I32(if s24be(d) >= 0x80_0000 { (s24be(d) - 0x100_0000) as i32 } else { s24be(d) as i32 }))) }
        else if n == 4 { Some(TV::V(EntryValue::I32((s32be(d) as u32) as i32))) } else if n == 8 { Some(TV::V(EntryValue::I64((s64be(d) as u64) as i64))) } else { None }
    } else if code == 22 {
        if n == 1 { Some(TV::V(EntryValue::U8(d[0]))) } else if n == 2 { Some(TV::V(EntryValue::U16(s16be(d) as u16))) }
        else if n == 3 { Some(TV::V(EntryValue::U32(s24be(d) as u32))) } else if n == 4 { Some(TV::V(EntryValue::U32(s32be(d) as u32))) }
        else if n == 8 { Some(TV::V(EntryValue::U64(s64be(d) as u64))) } else { None }
    } else if code == 23 { if n >= 4 { Some(TV::V(EntryValue::F32(f32_bits(s32be(d) as u32)))) } else { None } }
    else if code == 24 { if n >= 8 { Some(TV::V(EntryValue::F64(f64_bits(s64be(d) as u64)))) } else { None } }
    else { None }
}
pub open spec fn data_ty() -> Seq<u8> { seq![0x64u8, 0x61u8, 0x74u8, 0x61u8] }
/// one item: size, 1-based key index, one data box (size, "data", type code, locale, value)
pub open spec fn item_of(s: Seq<u8>) -> Option<(int, TV)> {
    if s.len() < 24 || s.subrange(12, 16) != data_ty() { None }
    else { let n = s32be(s); let dl = s32be(s.skip(8));
        if n < 24 || dl < 16 || n - 24 != dl - 16 || s.len() < 24 + (dl - 16) { None }
        else { match ilst_value(s24be(s.skip(17)), s.subrange(24, 24 + (dl - 16))) { Some(v) => Some((s32be(s.skip(4)), v)), None => None } } }
}
pub open spec fn ilst_items(s: Seq<u8>) -> Seq<(int, TV)> decreases s.len() {
    if s.len() < 4 { Seq::empty() } else { let n = s32be(s);
        if n < 8 || s.len() < n { Seq::empty() }
        else { (match item_of(s.take(n)) { Some(i) => seq![i], None => Seq::empty() }) + ilst_items(s.skip(n)) } }
}
/// the item list box: its header, then items
pub open spec fn ilst_of(s: Seq<u8>) -> Option<Seq<(int, TV)>> { match hdr(s) { Hdr::H(h) => Some(ilst_items(s.skip(h.hlen))), _ => None } }

//@item src/bbox/mvhd.rs struct MvhdBox
//@item src/bbox/tkhd.rs struct TkhdBox
//@item src/bbox/keys.rs struct KeysBox
//@item src/bbox/keys.rs struct KeyEntry
//@item src/bbox/ilst.rs struct IlstBox
//@item src/bbox/ilst.rs struct IlstItem
impl MvhdBox { pub open spec fn mv(&self) -> Mv { Mv { created: self.creation_time as int, scale: self.time_scale as int, dur: self.duration as int } } }
pub open spec fn mvhd_v() -> spec_fn(MvhdBox) -> Mv { |x: MvhdBox| x.mv() }
pub open spec fn tkhd_v() -> spec_fn(TkhdBox) -> (int, int) { |x: TkhdBox| (x.width as int, x.height as int) }
pub open spec fn key_v() -> spec_fn(KeyEntry) -> Seq<char> { |x: KeyEntry| x.key@ }
pub open spec fn keys_v() -> spec_fn(KeysBox) -> Seq<Seq<char>> { |x: KeysBox| views(x.entries@, key_v()) }
pub open spec fn item_v() -> spec_fn(IlstItem) -> (int, TV) { |x: IlstItem| (x.index as int, tv(x.value)) }
pub open spec fn mvhd_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], MvhdBox>) -> bool { agrees(mvhd_of(header.version as int, body), r, mvhd_v()) }
pub open spec fn tkhd_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], TkhdBox>) -> bool { agrees(tkhd_of(header.version as int, body), r, tkhd_v()) }
pub open spec fn keys_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], KeysBox>) -> bool { agrees(keys_of(header.version as int, body), r, keys_v()) }

pub open spec fn dims_are(r: CResult<Option<TkhdBox>>, t: Option<(int, int)>) -> bool { match t { Some(t) => r matches Ok(Some(x)) && tkhd_v()(x) == t, None => !(r matches Ok(Some(_))) } }

impl ParseBody<MvhdBox> for MvhdBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], MvhdBox>) -> bool { mvhd_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], MvhdBox>) { unimplemented!() }
}
impl ParseBody<TkhdBox> for TkhdBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], TkhdBox>) -> bool { tkhd_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], TkhdBox>) { unimplemented!() }
}
impl ParseBody<KeysBox> for KeysBox {
    open spec fn body_post<'a>(body: Seq<u8>, header: FullBoxHeader, r: IResult<&'a [u8], KeysBox>) -> bool { keys_post(body, header, r) }
    #[verifier::external_body]
    fn parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (r: IResult<&'a [u8], KeysBox>) { unimplemented!() }
}

// ---- chrono: instants and spans of whole seconds
pub struct Utc;
#[derive(Clone, Copy)]
pub struct Duration { pub s: i64 }
impl Duration {
    /// i64::MAX milliseconds at most
    pub fn try_seconds(s: i64) -> (r: Option<Duration>) ensures -9_223_372_036_854_775 <= s <= 9_223_372_036_854_775 ==> (r matches Some(d) && d.s == s), !(-9_223_372_036_854_775 <= s <= 9_223_372_036_854_775) ==> r is None
    { if -9_223_372_036_854_775 <= s && s <= 9_223_372_036_854_775 { Some(Duration { s }) } else { None } }
    pub fn seconds(s: i64) -> (r: Duration) requires -9_223_372_036_854_775 <= s <= 9_223_372_036_854_775 ensures r.s == s { Duration { s } }
}
pub struct NaiveDate { pub days: i64 }
impl NaiveDate {
    /// of 1904-01-01 only
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) requires y == 1904, m == 1, d == 1 ensures r matches Some(x) && x.days == -24107 { Some(NaiveDate { days: -24107 }) }
    pub fn and_hms_opt(&self, h: u32, m: u32, s: u32) -> (r: Option<NaiveDateTime>) requires -100_000_000 <= self.days <= 90_000_000 ensures h < 24 && m < 60 && s < 60 ==> (r matches Some(x) && x.v == self.days * 86400 + h * 3600 + m * 60 + s)
    { if h < 24 && m < 60 && s < 60 { Some(NaiveDateTime { v: self.days * 86400 + h as i64 * 3600 + m as i64 * 60 + s as i64 }) } else { None } }
}
impl NaiveDateTime {
    pub fn checked_add_signed(self, d: Duration) -> (r: Option<NaiveDateTime>) requires mac_epoch() <= self.v <= last_second(), 0 <= d.s ensures self.v + d.s <= last_second() ==> (r matches Some(x) && x.v == self.v + d.s), self.v + d.s > last_second() ==> r is None
    { if d.s <= 8_210_266_876_799 - self.v { Some(NaiveDateTime { v: self.v + d.s }) } else { None } }
    /// the `+` operator: panics where `checked_add_signed` gives none
    pub fn v_after(self, d: Duration) -> (r: NaiveDateTime) requires mac_epoch() <= self.v <= last_second(), 0 <= d.s, self.v + d.s <= last_second() ensures r.v == self.v + d.s { NaiveDateTime { v: self.v + d.s } }
    pub fn and_utc(&self) -> (r: DateTime<Utc>) ensures r.v == self.v { DateTime { v: self.v, t: Utc } }
}
impl DateTime<Utc> {
    pub fn fixed_offset(&self) -> (r: DateTime<FixedOffset>) ensures r.v == self.v, r.t.v == 0 { DateTime { v: self.v, t: FixedOffset { v: 0 } } }
}
