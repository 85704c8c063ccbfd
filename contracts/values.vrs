#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include iter.rs
use nom::{IResult, Parser, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, num_complete, number::Endianness, multi::{many_m_n, chain}};
verus! {
global size_of usize == 8;
global size_of f32 == 4;
global size_of f64 == 8;
broadcast use {seq_slices, vstd::layout::group_layout_axioms, chainlib::chain_reader};
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@item src/values.rs struct EntryData

pub mod chainlib {
    use vstd::prelude::*;
    use super::nom::{*, multi::chain};
    use super::seqlib::*;
    verus! {
    broadcast use seq_slices;
    /// `p` reads one number of `w` bytes, whose value is `val`
    pub open spec fn reads<'a, P: Parser<'a>>(p: P, w: int, val: spec_fn(Seq<u8>) -> P::Output) -> bool {
        w > 0 && forall|i: &'a [u8], r: IResult<&'a [u8], P::Output>| #[trigger] p.post(i, r) ==> num_complete(w, i, r) && (r matches Ok((_, v)) ==> v == val(i@))
    }
    pub proof fn chain_at<'a, P: Parser<'a>>(p: P, w: int, val: spec_fn(Seq<u8>) -> P::Output, ins: Seq<&'a [u8]>, v: Seq<P::Output>, k: int)
        requires chain(p, ins, v), reads(p, w, val), 0 <= k <= v.len(),
        ensures w * k <= ins[0]@.len(), ins[k]@ == ins[0]@.skip(w * k), forall|j: int| 0 <= j < k ==> #[trigger] v[j] == val(ins[0]@.skip(w * j)),
        decreases k
    {
        if k > 0 {
            chain_at(p, w, val, ins, v, k - 1);
            assert(p.post(ins[k - 1], Ok((ins[k - 1 + 1], v[k - 1]))));
            assert(w * (k - 1) + w == w * k) by(nonlinear_arith);
            assert(ins[0]@.skip(w * (k - 1)).len() >= w);
        }
    }
    pub broadcast proof fn chain_reader<'a, P: Parser<'a>>(p: P, w: int, val: spec_fn(Seq<u8>) -> P::Output, ins: Seq<&'a [u8]>, v: Seq<P::Output>)
        requires #[trigger] chain(p, ins, v), #[trigger] reads(p, w, val),
        ensures w * v.len() <= ins[0]@.len(), ins.last()@ == ins[0]@.skip(w * v.len()), forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == val(ins[0]@.skip(w * j)),
    { chain_at(p, w, val, ins, v, v.len() as int); }
    }
}
use chainlib::reads;

// ---------------------------------------------------------------- numbers
/// contract of the crate's trait (restated: a trait method carries its contract in its declaration)
pub trait TryFromBytes: Sized {
    spec fn sz() -> int;
    spec fn dec(e: Endianness, s: Seq<u8>) -> Self;
    fn try_from_bytes(bs: &[u8], endian: Endianness) -> (r: Result<Self, EntryError>)
        requires endian !is Native,
        ensures bs@.len() < Self::sz() ==> (r matches Err(EntryError::Truncated { needed, available }) && needed == Self::sz() && available == bs@.len()),
            bs@.len() >= Self::sz() ==> (r matches Ok(x) && x == Self::dec(endian, bs@));
}
/// `from_be_bytes`/`from_le_bytes` of std
pub trait FromB: Sized {
    spec fn bsz() -> int;
    spec fn be(s: Seq<u8>) -> Self;
    spec fn le(s: Seq<u8>) -> Self;
    fn v_from_be_bytes(b: &[u8]) -> (r: Self) requires b@.len() == Self::bsz(), ensures r == Self::be(b@);
    fn v_from_le_bytes(b: &[u8]) -> (r: Self) requires b@.len() == Self::bsz(), ensures r == Self::le(b@);
}
impl FromB for u16 {
    open spec fn bsz() -> int { 2 }
    open spec fn be(s: Seq<u8>) -> u16 { s16be(s) as u16 }
    open spec fn le(s: Seq<u8>) -> u16 { s16le(s) as u16 }
    fn v_from_be_bytes(b: &[u8]) -> (r: u16) { b[0] as u16 * 256 + b[1] as u16 * 1 }
    fn v_from_le_bytes(b: &[u8]) -> (r: u16) { b[0] as u16 * 1 + b[1] as u16 * 256 }
}
impl FromB for i16 {
    open spec fn bsz() -> int { 2 }
    open spec fn be(s: Seq<u8>) -> i16 { (s16be(s) as u16) as i16 }
    open spec fn le(s: Seq<u8>) -> i16 { (s16le(s) as u16) as i16 }
    #[verifier::truncate] fn v_from_be_bytes(b: &[u8]) -> (r: i16) { <u16 as FromB>::v_from_be_bytes(b) as i16 }
    #[verifier::truncate] fn v_from_le_bytes(b: &[u8]) -> (r: i16) { <u16 as FromB>::v_from_le_bytes(b) as i16 }
}
impl FromB for u32 {
    open spec fn bsz() -> int { 4 }
    open spec fn be(s: Seq<u8>) -> u32 { s32be(s) as u32 }
    open spec fn le(s: Seq<u8>) -> u32 { s32le(s) as u32 }
    fn v_from_be_bytes(b: &[u8]) -> (r: u32) { b[0] as u32 * 16777216 + b[1] as u32 * 65536 + b[2] as u32 * 256 + b[3] as u32 * 1 }
    fn v_from_le_bytes(b: &[u8]) -> (r: u32) { b[0] as u32 * 1 + b[1] as u32 * 256 + b[2] as u32 * 65536 + b[3] as u32 * 16777216 }
}
impl FromB for i32 {
    open spec fn bsz() -> int { 4 }
    open spec fn be(s: Seq<u8>) -> i32 { (s32be(s) as u32) as i32 }
    open spec fn le(s: Seq<u8>) -> i32 { (s32le(s) as u32) as i32 }
    #[verifier::truncate] fn v_from_be_bytes(b: &[u8]) -> (r: i32) { <u32 as FromB>::v_from_be_bytes(b) as i32 }
    #[verifier::truncate] fn v_from_le_bytes(b: &[u8]) -> (r: i32) { <u32 as FromB>::v_from_le_bytes(b) as i32 }
}
impl FromB for f32 {
    open spec fn bsz() -> int { 4 }
    open spec fn be(s: Seq<u8>) -> f32 { f32_bits(s32be(s) as u32) }
    open spec fn le(s: Seq<u8>) -> f32 { f32_bits(s32le(s) as u32) }
    #[verifier::external_body]
    fn v_from_be_bytes(b: &[u8]) -> (r: f32) { f32::from_be_bytes(b.try_into().unwrap()) }
    #[verifier::external_body]
    fn v_from_le_bytes(b: &[u8]) -> (r: f32) { f32::from_le_bytes(b.try_into().unwrap()) }
}
impl FromB for f64 {
    open spec fn bsz() -> int { 8 }
    open spec fn be(s: Seq<u8>) -> f64 { f64_bits(s64be(s) as u64) }
    open spec fn le(s: Seq<u8>) -> f64 { f64_bits(s64le(s) as u64) }
    #[verifier::external_body]
    fn v_from_be_bytes(b: &[u8]) -> (r: f64) { f64::from_be_bytes(b.try_into().unwrap()) }
    #[verifier::external_body]
    fn v_from_le_bytes(b: &[u8]) -> (r: f64) { f64::from_le_bytes(b.try_into().unwrap()) }
}
//@fn src/values.rs#impl_try_from_bytes#u32 impl TryFromBytes for u32 :: try_from_bytes
//@prefix open spec fn sz() -> int { 4 } open spec fn dec(e: Endianness, s: Seq<u8>) -> u32 { s32(e, s) as u32 }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@end
//@fn src/values.rs#impl_try_from_bytes#i32 impl TryFromBytes for i32 :: try_from_bytes
//@prefix open spec fn sz() -> int { 4 } open spec fn dec(e: Endianness, s: Seq<u8>) -> i32 { (s32(e, s) as u32) as i32 }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@end
//@fn src/values.rs#impl_try_from_bytes#u16 impl TryFromBytes for u16 :: try_from_bytes
//@prefix open spec fn sz() -> int { 2 } open spec fn dec(e: Endianness, s: Seq<u8>) -> u16 { s16(e, s) as u16 }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 2 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 2 && available == bs@.len())
//@end
//@fn src/values.rs#impl_try_from_bytes#i16 impl TryFromBytes for i16 :: try_from_bytes
//@prefix open spec fn sz() -> int { 2 } open spec fn dec(e: Endianness, s: Seq<u8>) -> i16 { (s16(e, s) as u16) as i16 }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 2 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 2 && available == bs@.len())
//@end
//@fn src/values.rs#impl_try_from_bytes#f32 impl TryFromBytes for f32 :: try_from_bytes
//@prefix open spec fn sz() -> int { 4 } open spec fn dec(e: Endianness, s: Seq<u8>) -> f32 { f32_bits(s32(e, s) as u32) }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 4 && available == bs@.len())
//@end
//@fn src/values.rs#impl_try_from_bytes#f64 impl TryFromBytes for f64 :: try_from_bytes
//@prefix open spec fn sz() -> int { 8 } open spec fn dec(e: Endianness, s: Seq<u8>) -> f64 { f64_bits(s64(e, s) as u64) }
//@presubst `int_bytes.try_into().map_err(|_| make_err::<Self>(bs.len()))?` => `int_bytes`
//@subst `Self::from_be_bytes` => `Self::v_from_be_bytes`
//@subst `Self::from_le_bytes` => `Self::v_from_le_bytes`
//@hoistspec ensures h == (EntryError::Truncated { needed: vstd::layout::size_of::<T>() as usize, available })
//@at start
    assert(vstd::layout::size_of::<Self>() == Self::sz());
//@closure 0
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 8 && available == bs@.len())
//@closure 1
|| -> (o: EntryError) ensures (o matches EntryError::Truncated { needed, available } && needed == 8 && available == bs@.len())
//@end

//@fn src/values.rs impl DataFormat :: component_size
//@spec
    ensures res == comp_size(*self)
//@end
/// `transmute` of a number to the enumeration whose discriminants are those numbers
#[verifier::external_body]
pub fn v_format_of_discriminant(v: u16) -> (r: DataFormat) requires 1 <= v <= 12, ensures fmt_of(v) == Some(r) { unsafe { std::mem::transmute::<u16, DataFormat>(v) } }
//@fn src/values.rs impl TryFrom < u16 > for DataFormat :: try_from
//@wrap impl DataFormat
//@subst `Self::Error` => `u16`
//@subst `unsafe { std::mem::transmute::<u16, Self>(v) }` => `v_format_of_discriminant(v)`
//@spec
    ensures match fmt_of(v) { Some(f) => res == Ok::<DataFormat, u16>(f), None => res == Err::<DataFormat, u16>(v) }
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: new
//@spec
    ensures res == (Rational { numerator, denominator })
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: numerator
//@spec
    ensures res == self.numerator
//@end
//@fn src/values.rs impl < T : Copy > Rational < T > :: denominator
//@spec
    ensures res == self.denominator
//@end
//@item src/error.rs enum ConvertError
//@fn src/values.rs impl TryFrom < IRational > for URational :: try_from
//@wrap impl Rational<u32>
//@subst `Self::Error` => `ConvertError`
//@subst `crate::ConvertError` => `ConvertError`
//@spec
    ensures value.numerator < 0 || value.denominator < 0 ==> res is Err,
        value.numerator >= 0 && value.denominator >= 0 ==> (res matches Ok(u) && u.numerator == value.numerator && u.denominator == value.denominator)
//@end

pub open spec fn rat<T: TryFromBytes>(e: Endianness, d: Seq<u8>, k: int) -> Rational<T> { Rational { numerator: T::dec(e, d.skip(8 * k)), denominator: T::dec(e, d.skip(8 * k + 4)) } }
//@fn src/values.rs decode_rational
//@spec
    requires endian !is Native, T::sz() == 4,
    ensures data@.len() < 8 ==> res is Err, data@.len() >= 8 ==> (res matches Ok(r) && r == rat::<T>(endian, data@, 0))
//@end
//@fn src/values.rs impl EntryData < '_ > :: try_as_rationals
//@loop 0
    invariant self.endian !is Native, T::sz() == 4, self.data@.len() == 8 * self.components_num,
        vec@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] vec@[k] == rat::<T>(self.endian, self.data@, k)
//@spec
    requires self.endian !is Native, T::sz() == 4, self.data@.len() == 8 * self.components_num,
    ensures self.components_num == 0 ==> (res matches Err(EntryError::InvalidShape { format, count }) && fmt_of(format) == Some(self.data_format) && count == 0),
        self.components_num > 0 ==> (res matches Ok(v) && v@.len() == self.components_num && forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == rat::<T>(self.endian, self.data@, k))
//@end

// ---------------------------------------------------------------- text
pub proof fn trim_skip(d: Seq<u8>, k: int) requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> d[j] == 0 ensures trimmed(d) == trimmed(d.skip(k)) decreases k
{ if k > 0 { trim_skip(d.skip(1), k - 1); assert(d.skip(1).skip(k - 1) =~= d.skip(k)); } else { assert(d.skip(0) =~= d); } }
pub proof fn nul_is(d: Seq<u8>, k: int) requires 0 <= k <= d.len(), forall|j: int| 0 <= j < k ==> d[j] != 0, k < d.len() ==> d[k] == 0 ensures nul_at(d) == k decreases k
{ if k > 0 { nul_is(d.skip(1), k - 1); } }
//@fn src/values.rs filter_zero
//@subst `data.iter()` => `v_iter(data)`
//@closure 0
|b: &&u8| -> (r: bool) ensures r == (**b == 0)
//@closure 1
|b: &&u8| -> (r: bool) ensures r == (**b != 0)
//@at start
    proof {
        assert forall|k: int| 0 <= k <= data@.len() && (forall|j: int| 0 <= j < k ==> data@[j] == 0) implies trimmed(data@) == trimmed(#[trigger] data@.skip(k)) by { trim_skip(data@, k); }
        assert forall|t: Seq<u8>, k: int| 0 <= k <= t.len() && (forall|j: int| 0 <= j < k ==> t[j] != 0) && (k < t.len() ==> t[k] == 0) && (t.len() > 0 ==> t[0] != 0) implies trimmed(t) == #[trigger] t.take(k) by { nul_is(t, k); assert(t.take(k) =~= t.take(nul_at(t))); }
    }
//@spec
    ensures res@ == trimmed(data@)
//@end
pub struct FromUtf8Error;
/// std's String::from_utf8
#[verifier::external_body]
pub fn v_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures utf8_ok(v@) ==> (r matches Ok(s) && s@ == utf8_dec(v@)), !utf8_ok(v@) ==> r is Err
{ String::from_utf8(v).map_err(|_| FromUtf8Error) }
/// a string of the characters with the code points the bytes are
#[verifier::external_body]
pub fn v_latin1(v: Vec<u8>) -> (r: String) ensures r@ == Seq::new(v@.len(), |i: int| v@[i] as char)
{ v.into_iter().map(|x| x as char).collect() }
//@fn src/values.rs get_cstr
//@subst `std::result::Result` => `Result`
//@subst `String::from_utf8` => `v_from_utf8`
//@subst `filter_zero(data).into_iter().map(|x| x.as_char()).collect::<String>()` => `v_latin1(filter_zero(data))`
//@spec
    ensures res matches Ok(s) && s@ == text_of(data@)
//@end

// ---------------------------------------------------------------- dates (chrono behind contracts)
#[verifier::external_body]
pub fn v_naive_parse(s: &String, fmt: &str) -> (r: Result<NaiveDateTime, ()>)
    requires fmt@ == "%Y:%m:%d %H:%M:%S"@,
    ensures match naive_of(s@) { Some(n) => r == Ok::<NaiveDateTime, ()>(n), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_aware_parse(s: &String, fmt: &str) -> (r: Result<DateTime<FixedOffset>, ()>)
    requires fmt@ == "%Y:%m:%d %H:%M:%S %z"@,
    ensures match aware_of(s@) { Some(n) => r == Ok::<DateTime<FixedOffset>, ()>(n), None => r is Err }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_join_space(a: &String, b: &String) -> (r: String) ensures r@ == a@ + seq![' '] + b@ { format!("{a} {b}") }
/// not extracted: str search and slicing by byte offset have no contract in Verus
#[verifier::external_body]
pub fn repair_tz_str(tz: &String) -> (r: String) ensures r@ == tz_fixed(tz@) { unimplemented!() }
//@fn src/values.rs parse_naive_time
//@subst `NaiveDateTime::parse_from_str` => `v_naive_parse`
//@closure 0
|_u: ()| -> (o: EntryError) ensures o is InvalidValue
//@spec
    ensures match naive_of(s@) { Some(n) => res == Ok::<NaiveDateTime, EntryError>(n), None => res matches Err(EntryError::InvalidValue(_)) }
//@end

// ---------------------------------------------------------------- values
/// proved in unit `tags`
#[verifier::external_body]
pub fn from_code__stub(code: u16) -> (res: Option<ExifTag>)
    ensures match res { Some(t) => tcode(t) == code, None => forall|t: ExifTag| #[trigger] tcode(t) != code }
{ unimplemented!() }
pub proof fn date_tags()
    ensures forall|t: ExifTag| #[trigger] tcode(t) == 0x9003 <==> t == ExifTag::DateTimeOriginal, forall|t: ExifTag| #[trigger] tcode(t) == 0x9004 <==> t == ExifTag::CreateDate, forall|t: ExifTag| #[trigger] tcode(t) == 0x0132 <==> t == ExifTag::ModifyDate,
        tcode(ExifTag::DateTimeOriginal) == 0x9003, tcode(ExifTag::CreateDate) == 0x9004, tcode(ExifTag::ModifyDate) == 0x0132,
{ reveal(tcode); }
/// never called: an entry with value bytes has a component count
impl EntryValue { pub fn variant_default(f: DataFormat) -> EntryValue requires false { vstd::pervasive::unreached() } }
//@fn src/values.rs impl EntryValue :: parse
//@subst `ExifTag::from_code` => `from_code__stub`
//@presubst `format!("{s} {tz}")` => `v_join_space(&s, &tz)`
//@presubst `DateTime::parse_from_str` => `v_aware_parse`
//@subst `Self::U8Array(data.into())` => `Self::U8Array(data.v_to_vec())`
//@closure 0
|_u: FromUtf8Error| -> (o: EntryError) ensures o is InvalidValue
//@closure 1
|_u: FromUtf8Error| -> (o: EntryError) ensures o is InvalidValue
//@at start
    proof { date_tags(); }
//@at before `nom::number::complete::u16(endian)`
    { let p =
//@at after `nom::number::complete::u16(endian)`
    ; assert(reads(p, 2, |s: Seq<u8>| s16(endian, s) as u16)); p }
//@at before `nom::number::complete::u32(endian)`
    { let p =
//@at after `nom::number::complete::u32(endian)`
    ; assert(reads(p, 4, |s: Seq<u8>| s32(endian, s) as u32)); p }
//@spec
    requires entry.endian !is Native, entry.data@.len() == entry.components_num * comp_size(entry.data_format),
    ensures value_is(entry.endian, entry.tag, entry.data_format, entry.components_num, entry.data@, tz_view(*tz), res)
//@end
} // verus!
fn main() {}
