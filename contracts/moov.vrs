#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
use nom::{bytes::complete::{tag, take, take_p}, combinator::{cond, fail, flat_map, map_res}, error::context, multi::{many_m_n, many_n, PR, rep, rep0, views, agrees}, number::{Endianness, complete::{be_i16, be_i24, be_i32, be_i64, be_u16, be_u24, be_u32, be_u64, u8}}, IResult, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, agree, num_complete, s16, s32, s64, s16be, s24be, s32be, s64be, s16le, s32le, s64le};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_bbox.vrs
//@include inc_values.vrs
//@include inc_moov.vrs
//@stub bbox src/bbox.rs impl BoxHeader :: parse
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: body_data
//@stub bbox src/bbox.rs find_box
//@stub bbox src/bbox.rs travel_while
//@stub bbox src/bbox.rs impl<O, T: ParseBody<O>> ParseBox<O> for T :: parse_box
//@stub ifd src/error.rs nom_err_to_malformed

//@fn src/bbox/mvhd.rs epoch
//@spec
    ensures res.v == mac_epoch()
//@end
//@fn src/bbox/mvhd.rs impl MvhdBox :: creation_time_naive
//@presubst `epoch() + Duration::seconds(self.creation_time as i64)` => `epoch().v_after(Duration::seconds(self.creation_time as i64))`
//@spec
    requires calendar(self.creation_time as int)
    ensures res.v == self.creation_time + mac_epoch()
//@end
//@fn src/bbox/mvhd.rs impl MvhdBox :: creation_time_utc
//@spec
    requires calendar(self.creation_time as int)
    ensures res.v == self.creation_time + mac_epoch()
//@end
//@fn src/bbox/mvhd.rs impl MvhdBox :: creation_time
//@spec
    requires calendar(self.creation_time as int)
    ensures res.v == self.creation_time + mac_epoch(), res.t.v == 0
//@end
/// std
pub trait ResX<T> { spec fn rv(self) -> Option<T>; fn v_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.rv() { Some(x) => x, None => d }); }
impl<T, E> ResX<T> for Result<T, E> { open spec fn rv(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } fn v_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }
impl<T> ResX<T> for Option<T> { open spec fn rv(self) -> Option<T> { self } fn v_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } } }
pub fn v_i64_from_u64(v: u64) -> (r: Result<i64, ()>) ensures v <= i64::MAX ==> r == Ok::<i64, ()>(v as i64), v > i64::MAX ==> r is Err { if v <= i64::MAX as u64 { Ok(v as i64) } else { Err(()) } }
pub fn v_u64_from_u128(v: u128) -> (r: Result<u64, ()>) ensures v <= u64::MAX ==> r == Ok::<u64, ()>(v as u64), v > u64::MAX ==> r is Err { if v <= u64::MAX as u128 { Ok(v as u64) } else { Err(()) } }
//@fn src/bbox/mvhd.rs impl MvhdBox :: duration_ms
//@subst `u64::try_from` => `v_u64_from_u128`
//@subst `unwrap_or` => `v_unwrap_or`
//@spec
    ensures res == dur_ms(self.mv())
//@end
//@fn src/bbox/mvhd.rs impl ParseBody<MvhdBox> for MvhdBox :: parse_body
//@wrap none
//@sig fn mvhd_parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], MvhdBox>)
//@subst `i64::try_from` => `v_i64_from_u64`
//@closure 0
|d: Duration| -> (o: Option<NaiveDateTime>) requires 0 <= d.s ensures match o { Some(x) => d.s + mac_epoch() <= last_second(), None => d.s + mac_epoch() > last_second() }
//@spec
    requires header.wf()
    ensures mvhd_post(body@, header, res)
//@end
proof fn boxed_tkhd()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], TkhdBox>| #[trigger] boxed::<TkhdBox, TkhdBox>(s, r) ==> agrees(boxed_as(tkhd_f(), s), r, tkhd_v())
{ }
pub fn v_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub fn v_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { let r = a.len() == b.len() && a.v_starts_with(b); assert(b@.is_prefix_of(a@) && a@.len() == b@.len() ==> a@ =~= b@); r }
//@fn src/bbox/tkhd.rs find_video_track
//@at start
    assert(forall|b: Seq<u8>, h: Hd| #[trigger] is_vide_f()(b, h) == is_vide(b, h));
//@presubst `travel_while(input, |b|` => `travel_while(input, Ghost(is_vide_f()), |b|`
//@presubst `b.box_type() != "trak"` => `!v_is(b.box_type(), "trak")`
//@presubst `subtype == b"vide"` => `{ let vw: &[u8] = b"vide"; assert(vw@ =~= vide()); v_eq(subtype, vw) }`
//@closure 0
|b: &BoxHolder<'a>| -> (o: bool) requires b.wf() ensures o == !is_vide(b.data@, hd_of(b.header))
//@closure 1
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: Error)
//@sig fn find_video_track<'a>(input: &'a [u8]) -> (res: CResult<Option<BoxHolder<'a>>>)
//@spec
    ensures match trav_while(is_vide_f(), input@) { Fnd::No => res matches Ok(None), Fnd::At(b, h, _) => res matches Ok(Some(x)) && holds(x, b, h) && x.wf(), _ => res is Err }
//@end
//@fn src/bbox/tkhd.rs parse_video_tkhd_in_moov
//@subst `TkhdBox :: parse_box` => `parse_box::<_, TkhdBox>`
//@closure 0
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: Error)
//@closure 1
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: Error)
//@at start
    proof { boxed_tkhd(); }
//@sig fn parse_video_tkhd_in_moov<'a>(input: &'a [u8]) -> (res: CResult<Option<TkhdBox>>)
//@spec
    ensures dims_are(res, video_dims(input@))
//@end

// ---- keys
/// std's String::from_utf8
pub struct FromUtf8Error;
#[verifier::external_body]
pub fn v_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures utf8_ok(v@) ==> (r matches Ok(s) && s@ == utf8_dec(v@)), !utf8_ok(v@) ==> r is Err
{ String::from_utf8(v).map_err(|_| FromUtf8Error) }
/// std: some of the characters; a text has less than 2^63 bytes
#[verifier::external_body]
pub fn v_chars_take(s: &String, n: usize) -> (r: String) ensures r@ == (if s@.len() <= n { s@ } else { s@.take(n as int) }) { s.chars().take(n).collect() }
#[verifier::external_body]
pub fn v_chars_skip(s: &String, n: usize) -> (r: String) ensures r@ == (if s@.len() <= n { Seq::empty() } else { s@.skip(n as int) }) { s.chars().skip(n).collect() }
#[verifier::external_body]
pub fn v_str_len(s: &String) -> (r: usize) ensures r <= isize::MAX { s.len() }
//@fn src/bbox/keys.rs impl KeyEntry :: parse
//@subst `String::from_utf8` => `v_from_utf8`
//@presubst `s.chars().take(4).collect()` => `v_chars_take(&s, 4)`
//@presubst `s.chars().skip(4).collect()` => `v_chars_skip(&s, 4)`
//@presubst `s.len()` => `v_str_len(&s)`
//@presubst `, take,` => `, take_p,`
//@presubst `"invalid KeyEntry header"` => `()`
//@closure 0
|len: u32| -> (o: Result<u32, ()>) ensures match o { Ok(n) => n == len - 4, Err(_) => len < 4 }
//@closure 1
|bs: &'a [u8]| -> (o: Result<String, FromUtf8Error>) ensures match o { Ok(s) => utf8_ok(bs@) && s@ == utf8_dec(bs@), Err(_) => !utf8_ok(bs@) }
//@spec
    ensures agrees(key_of(input@), res, key_v())
//@end
//@fn src/bbox/keys.rs impl ParseBody<KeysBox> for KeysBox :: parse_body
//@wrap none
//@rename keys_parse_body
//@sig fn keys_parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], KeysBox>)
//@presubst `many_m_n(entry_count as usize, entry_count as usize, KeyEntry::parse)` => `many_n::<_, KeyEntry, Seq<char>>(entry_count as usize, entry_count as usize, Ghost(key_f()), Ghost(key_v()), KeyEntry::parse)`
//@spec
    requires header.wf()
    ensures keys_post(body@, header, res)
//@end

// ---- item list
//@fn src/bbox/ilst.rs take_item
//@sig fn take_item<'a>(input: &'a [u8]) -> (res: IResult<&'a [u8], &'a [u8]>)
//@spec
    ensures if input@.len() < 4 || s32be(input@) < 8 || input@.len() < s32be(input@) { is_error(res) } else { res matches Ok((m, o)) && o@ == input@.take(s32be(input@)) && m@ == input@.skip(s32be(input@)) }
//@end
/// values made from what is known
#[verifier::external_body]
fn f_32(b: u32) -> (r: f32) ensures r == f32_bits(b) { f32::from_bits(b) }
#[verifier::external_body]
fn f_64(b: u64) -> (r: f64) ensures r == f64_bits(b) { f64::from_bits(b) }
pub fn be_f32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], f32>) ensures num_complete(4, i, r), r matches Ok((_, v)) ==> v == f32_bits(s32be(i@) as u32) { let (m, v) = be_u32(i)?; Ok((m, f_32(v))) }
pub fn be_f64<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], f64>) ensures num_complete(8, i, r), r matches Ok((_, v)) ==> v == f64_bits(s64be(i@) as u64) { let (m, v) = be_u64(i)?; Ok((m, f_64(v))) }
//@stub access src/values.rs impl From < u8 > for EntryValue :: from
//@stub access src/values.rs impl From < u16 > for EntryValue :: from
//@stub access src/values.rs impl From < u32 > for EntryValue :: from
//@stub access src/values.rs impl From < u64 > for EntryValue :: from
//@stub access src/values.rs impl From < i16 > for EntryValue :: from
//@stub access src/values.rs impl From < i32 > for EntryValue :: from
//@stub access src/values.rs impl From < i64 > for EntryValue :: from
//@stub access src/values.rs impl From < f32 > for EntryValue :: from
//@stub access src/values.rs impl From < f64 > for EntryValue :: from
/// `.into()`: which conversion runs is the compiler's business
pub trait VInto: Sized { spec fn iv(self) -> EntryValue; fn v_into(self) -> (r: EntryValue) ensures r == self.iv(); }
impl VInto for u8 { open spec fn iv(self) -> EntryValue { EntryValue::U8(self) } fn v_into(self) -> (r: EntryValue) { from_U8(self) } }
impl VInto for u16 { open spec fn iv(self) -> EntryValue { EntryValue::U16(self) } fn v_into(self) -> (r: EntryValue) { from_U16(self) } }
impl VInto for u32 { open spec fn iv(self) -> EntryValue { EntryValue::U32(self) } fn v_into(self) -> (r: EntryValue) { from_U32(self) } }
impl VInto for u64 { open spec fn iv(self) -> EntryValue { EntryValue::U64(self) } fn v_into(self) -> (r: EntryValue) { from_U64(self) } }
impl VInto for i16 { open spec fn iv(self) -> EntryValue { EntryValue::I16(self) } fn v_into(self) -> (r: EntryValue) { from_I16(self) } }
impl VInto for i32 { open spec fn iv(self) -> EntryValue { EntryValue::I32(self) } fn v_into(self) -> (r: EntryValue) { from_I32(self) } }
impl VInto for i64 { open spec fn iv(self) -> EntryValue { EntryValue::I64(self) } fn v_into(self) -> (r: EntryValue) { from_I64(self) } }
impl VInto for f32 { open spec fn iv(self) -> EntryValue { EntryValue::F32(self) } fn v_into(self) -> (r: EntryValue) { from_F32(self) } }
impl VInto for f64 { open spec fn iv(self) -> EntryValue { EntryValue::F64(self) } fn v_into(self) -> (r: EntryValue) { from_F64(self) } }
//@fn src/bbox/ilst.rs parse_value
//@subst? `into` => `v_into`
//@subst `String::from_utf8` => `v_from_utf8`
//@spec
    ensures match ilst_value(type_code as int, data@) { Some(t) => res matches Ok(x) && tv(x) == t, None => res is Err }
//@end
} // verus!
/// apart, where no facts about slices of slices are around
pub mod tk { use vstd::prelude::*; use super::*; verus! {
//@fn src/bbox/tkhd.rs impl ParseBody<TkhdBox> for TkhdBox :: parse_body
//@wrap none
//@rename tkhd_parse_body
//@sig fn tkhd_parse_body<'a>(body: &'a [u8], header: FullBoxHeader) -> (res: IResult<&'a [u8], TkhdBox>)
//@at start
    hide(s16be); hide(s32be); hide(s64be);
    assert(forall|k: int| 0 <= k <= body@.len() - 60 ==> #[trigger] body@.skip(k).skip(52) =~= body@.skip(k + 52) && body@.skip(k).skip(56) =~= body@.skip(k + 56) && body@.skip(k).skip(60) =~= body@.skip(k + 60));
//@spec
    requires header.wf()
    ensures tkhd_post(body@, header, res)
//@end

//@fn src/bbox/ilst.rs impl IlstItem :: parse
//@presubst `tag("data")` => `tag(b"data")`
//@presubst `fail::<_, (), _>()` => `fail::<()>()`
//@closure 0
|bs: &'a [u8]| -> (o: Result<EntryValue, Error>) ensures match ilst_value(type_code as int, bs@) { Some(t) => o matches Ok(x) && tv(x) == t, None => o is Err }
//@at start
    hide(s16be); hide(s32be); hide(s24be); hide(ilst_value);
    let ghost t4 = input@.skip(12); assert(seq![0x64u8, 0x61u8, 0x74u8, 0x61u8] =~= data_ty());
    assert(input@.len() >= 24 ==> (agree(t4, data_ty(), 4) <==> input@.subrange(12, 16) == data_ty())) by { if input@.len() >= 24 { let u = input@.subrange(12, 16); assert(forall|k: int| 0 <= k < 4 ==> u[k] == t4[k]); if agree(t4, data_ty(), 4) { assert(u =~= data_ty()); } } }
//@at before `let (remain, value)`
    assert(remain@.len() >= data_len - 16 ==> remain@.take(data_len - 16) =~= input@.subrange(24, 24 + (data_len - 16)));
//@spec
    ensures match item_of(input@) { Some(i) => res matches Ok((_, x)) && item_v()(x) == i, None => res is Err }
//@end
//@fn src/bbox/ilst.rs impl IlstBox :: parse_box
//@loop 0
    invariant views(items@, item_v()) + ilst_items(remain@) == s0
    ensures views(items@, item_v()) == s0
    decreases remain@.len()
//@at loop 0 start
    let ghost r0 = remain@; let ghost i0 = items@;
//@at loop 0 end
    proof {
        let n = s32be(r0); let one = match item_of(r0.take(n)) { Some(i) => seq![i], None => Seq::empty() };
        assert(views(items@, item_v()) =~= views(i0, item_v()) + one);
        assert((views(i0, item_v()) + one) + ilst_items(r0.skip(n)) =~= views(i0, item_v()) + (one + ilst_items(r0.skip(n))));
    }
//@at before `Ok((remain, IlstBox`
    assert(views(items@, item_v()) + Seq::<(int, TV)>::empty() =~= views(items@, item_v()));
//@at before loop 0
    let ghost s0 = ilst_items(remain@); assert(views(items@, item_v()) =~= Seq::empty());
//@sig fn parse_box<'a>(input: &'a [u8]) -> (res: IResult<&'a [u8], IlstBox>)
//@spec
    ensures match ilst_of(input@) { Some(l) => res matches Ok((_, x)) && views(x.items@, item_v()) == l, None => res is Err }
//@end
} }
fn main() {}
