// ---------------------------------------------------------------- data types
//@item src/error.rs enum EntryError | derive(Clone)
//@item src/values.rs enum DataFormat | derive(Clone, Copy, PartialEq, Eq, Structural) | repr(u16)
//@item src/values.rs struct Rational | derive(Clone, Copy)
pub type URational = Rational<u32>;
pub type IRational = Rational<i32>;
#[derive(Clone, Copy)]
pub struct FixedOffset { pub v: i32 }
/// opaque stand-ins for the chrono types: nothing looks inside them
#[derive(Clone, Copy)]
pub struct DateTime<T> { pub v: i64, pub t: T }
#[derive(Clone, Copy)]
pub struct NaiveDateTime { pub v: i64 }
//@item src/values.rs enum EntryValue

// ---------------------------------------------------------------- what an entry's bytes mean (Exif/TIFF)
pub open spec fn comp_size(f: DataFormat) -> int {
    match f {
        DataFormat::U8 | DataFormat::Text | DataFormat::I8 | DataFormat::Undefined => 1,
        DataFormat::U16 | DataFormat::I16 => 2,
        DataFormat::U32 | DataFormat::I32 | DataFormat::F32 => 4,
        DataFormat::URational | DataFormat::IRational | DataFormat::F64 => 8,
    }
}
pub open spec fn fmt_of(v: u16) -> Option<DataFormat> {
    if v == 1 { Some(DataFormat::U8) } else if v == 2 { Some(DataFormat::Text) } else if v == 3 { Some(DataFormat::U16) }
    else if v == 4 { Some(DataFormat::U32) } else if v == 5 { Some(DataFormat::URational) } else if v == 6 { Some(DataFormat::I8) }
    else if v == 7 { Some(DataFormat::Undefined) } else if v == 8 { Some(DataFormat::I16) } else if v == 9 { Some(DataFormat::I32) }
    else if v == 10 { Some(DataFormat::IRational) } else if v == 11 { Some(DataFormat::F32) } else if v == 12 { Some(DataFormat::F64) }
    else { None }
}
/// whether bytes are UTF-8, and the text they encode (std)
pub uninterp spec fn utf8_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn utf8_dec(b: Seq<u8>) -> Seq<char>;
pub open spec fn nul_at(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 || b[0] == 0 { 0 } else { 1 + nul_at(b.skip(1)) } }
/// without leading zero bytes, up to the next zero byte
pub open spec fn trimmed(b: Seq<u8>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { b } else if b[0] == 0 { trimmed(b.skip(1)) } else { b.take(nul_at(b)) }
}
/// UTF-8 where the bytes are UTF-8, Latin-1 otherwise
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> {
    let t = trimmed(b);
    if utf8_ok(t) { utf8_dec(t) } else { Seq::new(t.len(), |i: int| t[i] as char) }
}
/// IEEE 754 values of a bit pattern
pub uninterp spec fn f32_bits(b: u32) -> f32;
pub uninterp spec fn f64_bits(b: u64) -> f64;
/// chrono: the date-time a text denotes in the Exif format, without and with an offset
pub uninterp spec fn naive_of(t: Seq<char>) -> Option<NaiveDateTime>;
pub uninterp spec fn aware_of(t: Seq<char>) -> Option<DateTime<FixedOffset>>;
/// an offset such as "+08:0" gets its missing digit
pub uninterp spec fn tz_fixed(t: Seq<char>) -> Seq<char>;

pub open spec fn u_at(e: Endianness, d: Seq<u8>, k: int) -> int { s32(e, d.skip(k)) }
pub open spec fn is_shape(r: Result<EntryValue, EntryError>, f: DataFormat, n: u32) -> bool {
    r matches Err(EntryError::InvalidShape { format, count }) && fmt_of(format) == Some(f) && count == n
}
pub open spec fn is_date_tag(tag: u16) -> bool { tag == 0x9003 || tag == 0x9004 || tag == 0x0132 }
pub open spec fn date_is(t: Seq<char>, tz: Option<Seq<char>>, r: Result<EntryValue, EntryError>) -> bool {
    let aware = match tz { Some(z) => aware_of(t + seq![' '] + tz_fixed(z)), None => None };
    match aware {
        Some(d) => r matches Ok(EntryValue::DateTime(x)) && x == d,
        None => match naive_of(t) {
            Some(n) => r matches Ok(EntryValue::NaiveDateTime(x)) && x == n,
            None => r matches Err(EntryError::InvalidValue(_)),
        },
    }
}
pub open spec fn urat(e: Endianness, d: Seq<u8>, k: int) -> URational { Rational { numerator: u_at(e, d, 8 * k) as u32, denominator: u_at(e, d, 8 * k + 4) as u32 } }
pub open spec fn irat(e: Endianness, d: Seq<u8>, k: int) -> IRational { Rational { numerator: (u_at(e, d, 8 * k) as u32) as i32, denominator: (u_at(e, d, 8 * k + 4) as u32) as i32 } }
/// the answer for one entry of tag `tag`, format `f`, `n` components and value bytes `d`
pub open spec fn value_is(e: Endianness, tag: u16, f: DataFormat, n: u32, d: Seq<u8>, tz: Option<Seq<char>>, r: Result<EntryValue, EntryError>) -> bool {
    if n == 0 { is_shape(r, f, n) }
    else if is_date_tag(tag) { date_is(text_of(d), tz, r) }
    else { match f {
        DataFormat::U8 => if n == 1 { r matches Ok(EntryValue::U8(x)) && x == d[0] } else { r matches Ok(EntryValue::U8Array(v)) && v@ == d },
        DataFormat::Text => r matches Ok(EntryValue::Text(s)) && s@ == text_of(d),
        DataFormat::U16 => if n == 1 { r matches Ok(EntryValue::U16(x)) && x == s16(e, d) }
            else { r matches Ok(EntryValue::U16Array(v)) && v@.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v@[k] == s16(e, d.skip(2 * k)) },
        DataFormat::U32 => if n == 1 { r matches Ok(EntryValue::U32(x)) && x == s32(e, d) }
            else { r matches Ok(EntryValue::U32Array(v)) && v@.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v@[k] == s32(e, d.skip(4 * k)) },
        DataFormat::URational => if n == 1 { r matches Ok(EntryValue::URational(x)) && x == urat(e, d, 0) }
            else { r matches Ok(EntryValue::URationalArray(v)) && v@.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v@[k] == urat(e, d, k) },
        DataFormat::I8 => if n == 1 { r matches Ok(EntryValue::I8(x)) && x == d[0] as i8 } else { is_shape(r, f, n) },
        DataFormat::Undefined => r matches Ok(EntryValue::Undefined(v)) && v@ == d,
        DataFormat::I16 => if n == 1 { r matches Ok(EntryValue::I16(x)) && x == (s16(e, d) as u16) as i16 } else { is_shape(r, f, n) },
        DataFormat::I32 => if n == 1 { r matches Ok(EntryValue::I32(x)) && x == (s32(e, d) as u32) as i32 } else { is_shape(r, f, n) },
        DataFormat::IRational => if n == 1 { r matches Ok(EntryValue::IRational(x)) && x == irat(e, d, 0) }
            else { r matches Ok(EntryValue::IRationalArray(v)) && v@.len() == n && forall|k: int| 0 <= k < n ==> #[trigger] v@[k] == irat(e, d, k) },
        DataFormat::F32 => if n == 1 { r matches Ok(EntryValue::F32(x)) && x == f32_bits(s32(e, d) as u32) } else { is_shape(r, f, n) },
        DataFormat::F64 => if n == 1 { r matches Ok(EntryValue::F64(x)) && x == f64_bits(s64(e, d) as u64) } else { is_shape(r, f, n) },
    } }
}
pub open spec fn tz_view(tz: Option<String>) -> Option<Seq<char>> { match tz { Some(s) => Some(s@), None => None } }
