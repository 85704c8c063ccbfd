#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include bytes.rs
use nom::{IResult, Parser, Needed, bytes::streaming::tag, branch::alt, combinator, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number, number::{complete, Endianness}};
verus! {
global size_of usize == 8;
broadcast use seq_slices;
use core::ops::Range;
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@item src/values.rs struct EntryData
//@include inc_ifd.vrs
//@stub tags src/exif/tags.rs impl ExifTag :: code
//@stub tags src/exif/tags.rs impl TagOrCode :: tag
//@stub tags src/exif/tags.rs impl TagOrCode :: code
//@stub tags src/exif/tags.rs impl From < u16 > for TagOrCode :: from
//@stub values src/values.rs impl DataFormat :: component_size
//@stub values src/values.rs impl TryFrom < u16 > for DataFormat :: try_from
//@stub values src/values.rs impl EntryValue :: parse
//@stub access src/values.rs impl EntryValue :: as_str
pub proof fn codes()
    ensures tcode(ExifTag::ExifOffset) == 0x8769, tcode(ExifTag::GPSInfo) == 0x8825, tcode(ExifTag::OffsetTime) == 0x9010, tcode(ExifTag::OffsetTimeOriginal) == 0x9011, tcode(ExifTag::OffsetTimeDigitized) == 0x9012,
        forall|t: ExifTag| #[trigger] tcode(t) == 0x8825 <==> t == ExifTag::GPSInfo,
{ reveal(tcode); }
pub trait SliceChecked { spec fn sq(&self) -> Seq<u8>; fn slice_checked(&self, range: core::ops::Range<usize>) -> (r: Option<&Self>) requires range.start <= range.end, ensures range.end <= self.sq().len() ==> (r matches Some(x) && x.sq() == self.sq().subrange(range.start as int, range.end as int)), range.end > self.sq().len() ==> r is None; }
//@fn src/slice.rs impl < T > SliceChecked for [ T ] :: slice_checked
//@wrap impl SliceChecked for [u8]
//@prefix open spec fn sq(&self) -> Seq<u8> { self@ }
//@subst `&self[range]` => `&self[range.start..range.end]`
//@end
//@item src/exif/exif_iter.rs const SUBIFD_TAGS | fn ensures r@.len() == 2, r@[0] == 0x8769u16, r@[1] == 0x8825u16 | proof codes();
#[verifier::external_body]
pub fn v_owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_owned() }
pub fn v_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { if a.len() != b.len() { return false; } let r = nom::eq_upto(a, b, a.len()); assert(r ==> a@ =~= b@); r }
pub fn v_contains(s: &[u16], x: &u16) -> (r: bool) ensures r == s@.contains(*x) {
    let mut k: usize = 0;
    while k < s.len() invariant k <= s@.len(), forall|j: int| 0 <= j < k ==> s@[j] != *x, decreases s@.len() - k { if s[k] == *x { assert(s@[k as int] == *x); return true; } k += 1; }
    false
}
/// text of a message: dropped
//@fn src/error.rs nom_err_to_malformed
//@subst `< T: Debug >` => `<T>`
//@presubst `e.code.description().to_string()` => `vmsg()`
//@spec
    ensures res matches Error::Malformed { kind: k2, message } && k2 == kind
//@end

// ---------------------------------------------------------------- TIFF header
//@fn src/exif/exif_exif.rs impl TiffHeader :: parse_endian
//@presubst `"MM"` => `b"MM"`
//@presubst `"II"` => `b"II"`
//@presubst `endian_marker == b"MM"` => `v_eq(endian_marker, b"MM")`
//@closure 0
|endian_marker: &[u8]| -> (o: Endianness) ensures o == (if endian_marker@ == seq![0x4Du8, 0x4Du8] { Endianness::Big } else { Endianness::Little })
//@spec
    ensures match res {
        Ok((rem, e)) => input@.len() >= 2 && input@[0] == input@[1] && (input@[0] == 0x4D || input@[0] == 0x49) && rem@ == input@.skip(2) && e == (if input@[0] == 0x4D { Endianness::Big } else { Endianness::Little }),
        Err(e) => if is_inc(res) { input@.len() < 2 && (input@.len() == 1 ==> input@[0] == 0x4D || input@[0] == 0x49) }
            else { is_error(res) && input@.len() > 0 && !((input@[0] == 0x4D || input@[0] == 0x49) && (input@.len() > 1 ==> input@[1] == input@[0])) },
    }
//@end
//@fn src/exif/exif_exif.rs impl TiffHeader :: parse
//@presubst `use nom::number::streaming::{u16, u32};` => ``
//@subst `u16(endian)` => `number::streaming::u16(endian)`
//@subst `u32(endian)` => `number::streaming::u32(endian)`
//@closure 0
|magic: &u16| -> (o: bool) ensures o == (*magic == 0x2a)
//@spec
    ensures match tiff_hdr(input@) { HdrR::Inc => is_inc(res), HdrR::Bad => is_error(res), HdrR::Ok(e, o) => res matches Ok((rem, h)) && rem@ == input@.skip(2) && h.endian == e && h.ifd0_offset == o }
//@end
//@fn src/exif/exif_exif.rs impl TiffHeader :: parse_ifd_entry_num
//@at start
    proof { num_bounds(); }
//@spec
    ensures dir_ok(input@, endian, 0) ==> (res matches Ok((rem, n)) && rem@ == input@.skip(2) && n == s16(endian, input@)),
        !dir_ok(input@, endian, 0) ==> is_inc(res)
//@end

// ---------------------------------------------------------------- directories
//@include fn_ifd_clone.vrs
//@fn src/exif/exif_iter.rs impl IfdIter :: rewind
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).dir() == (Dir { k: 0, ..old(self).dir() })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: clone_and_rewind
//@spec
    requires self.wf(),
    ensures res.wf(), res.dir() == (Dir { k: 0, ..self.dir() })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: tag_code_maybe
//@presubst `x.into()` => `TagOrCode::from(x)`
//@closure 0
|x: u16| -> (o: TagOrCode) ensures tc_ok(o), tc_code(o) == x
//@spec
    requires self.wf(),
    ensures res.wf(), res.dir() == (Dir { code: code, ..self.dir() })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: tag_code
//@presubst `code.into()` => `TagOrCode::from(code)`
//@spec
    requires self.wf(),
    ensures res.wf(), res.dir() == (Dir { code: Some(code), ..self.dir() })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: is_gps_subifd
//@at start
    proof { codes(); }
//@closure 0
|t: &TagOrCode| -> (o: Option<ExifTag>) ensures o == (match *t { TagOrCode::Tag(t) => Some(t), TagOrCode::Unknown(_) => None })
//@spec
    requires self.wf(),
    ensures res == is_gps(self.dir())
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: try_new
//@subst `(&ifd_data,` => `(ifd_data.sl(),`
//@at start
    proof { num_bounds(); }
//@closure 0
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: Error) ensures o is Malformed
//@spec
    requires offset <= input@.len(), header.endian !is Native,
    ensures match res {
        Ok(r) => r.wf() && dir_ok(input@, header.endian, offset as int) && r.dir() == (Dir { idx: ifd_idx as int, code: None, d: input@, e: header.endian, h0: header.ifd0_offset as int, tz: tz_view(tz), off: offset as int, n: s16(header.endian, input@.skip(offset as int)), k: 0 }),
        Err(e) => !dir_ok(input@, header.endian, offset as int) && e is Malformed,
    }
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: get_data_pos
//@spec
    ensures res == value_or_offset
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: new_ifd_iter
//@subst `self.header.to_owned()` => `self.header`
//@subst `self.tz.clone()` => `v_clone_tz(&self.tz)`
//@spec
    requires self.wf(),
    ensures if 0 < value_or_offset < self.input@.len() && dir_ok(self.input@, self.header.endian, value_or_offset as int) { res matches Some(IfdEntry::IfdNew(it)) && it.wf() && it.dir() == sub_dir(self.dir(), value_or_offset as int, ifd_idx as int, tag) } else { res is None }
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: parse_entry
//@subst `self.input.slice_checked` => `self.input.sl().slice_checked`
//@subst `SUBIFD_TAGS.contains(&tag)` => `v_contains(SUBIFD_TAGS().as_slice(), &tag)`
//@at start
    proof { codes(); num_bounds(); }
//@spec
    requires self.wf(), entry_data@.len() == 12, 
    ensures res.0 == tag, ({
        let x = self.dir(); let size = components_num * comp_size(data_format); let vo = value_or_offset as int;
        let en = if size > 4 && vo + size > x.d.len() { Ent::Short { needed: size, available: if x.d.len() > vo { x.d.len() - vo } else { 0 } } }
            else if (tag == 0x8769 || tag == 0x8825) && 0 < vo < x.d.len() && dir_ok(x.d, x.e, vo) { Ent::Sub { off: vo } }
            else { Ent::Val { f: data_format, n: components_num, data: if size <= 4 { entry_data@.subrange(8, 8 + size) } else { x.d.subrange(vo, vo + size) } } };
        ent_is(x, tag, en, res.1) })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: parse_tag_entry
//@subst? `tag.into()` => `TagOrCode::from(tag)`
//@at start
    proof { codes(); num_bounds(); }
//@spec
    requires self.wf(), entry_data@.len() == 12, exists|p: int| 0 <= p && p + 12 <= self.input@.len() && entry_data@ == #[trigger] self.input@.subrange(p, p + 12),
    ensures forall|p: int| 0 <= p && p + 12 <= self.input@.len() && entry_data@ == #[trigger] self.input@.subrange(p, p + 12) ==> ({
        let x = self.dir();
        match ent(x.d, x.e, is_gps(x), p) { Ent::Stop => res is None, en => res matches Some((t, r)) && t == s16(x.e, x.d.skip(p)) && ent_is(x, t, en, r) } })
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: find_exif_iter
//@subst `complete::u16(endian)(&self.input[pos..])` => `complete::u16(endian)(&self.input.sl()[pos..])`
//@subst `self.input.slice_checked` => `self.input.sl().slice_checked`
//@at start
    proof { codes(); num_bounds(); self.input.bound(); }
//@loop 0
    invariant self.wf(), self.index == 0, endian == self.header.endian, exif_ptr(self.dir(), 0) == exif_ptr(self.dir(), i as int), self.input@.len() <= usize::MAX, tcode(ExifTag::ExifOffset) == 0x8769,
//@spec
    requires self.wf(), self.index == 0,
    ensures match exif_dir(self.dir()) { Some(y) => res matches Some(it) && it.wf() && it.dir() == y, None => res is None }
//@end
//@fn src/exif/exif_iter.rs impl Iterator for IfdIter :: next
//@wrap impl IfdIter
//@sig fn next(&mut self) -> (res: Option<(Option<TagOrCode>, IfdEntry)>)
//@subst `complete::u32(endian)(&self.input[self.pos..])` => `complete::u32(endian)(&self.input.sl()[self.pos..])`
//@subst `self.input.slice_checked` => `self.input.sl().slice_checked`
//@subst `tag.into()` => `TagOrCode::from(tag)`
//@closure 0
|x: IfdEntry| -> (o: (Option<TagOrCode>, IfdEntry)) ensures o == (None::<TagOrCode>, x)
//@at start
    proof { codes(); num_bounds(); self.input.bound(); }
//@spec
    requires old(self).wf(), old(self).ifd_idx < usize::MAX,
    ensures final(self).wf(), final(self).dir() == dstep(old(self).dir()).0, dres_is(old(self).dir(), dstep(old(self).dir()).1, res)
//@end
//@fn src/exif/exif_iter.rs impl IfdIter :: find_tz_offset
//@presubst `for entry in iter {` => `let mut iter = iter; loop { let Some(entry) = iter.next() else { break; };`
//@presubst `x.to_owned()` => `v_owned(x)`
//@closure 0
|x: &str| -> (o: String) ensures o@ == x@
//@closure 1
|x: &str| -> (o: String) ensures o@ == x@
//@at start
    proof { codes(); num_bounds(); }
//@loop 0
    invariant_except_break tz_of(self.dir()) == tz_scan(iter.dir(), tz_view(offset)),
    invariant iter.wf(), iter.ifd_idx < usize::MAX, tcode(ExifTag::OffsetTime) == 0x9010, tcode(ExifTag::OffsetTimeOriginal) == 0x9011, tcode(ExifTag::OffsetTimeDigitized) == 0x9012,
    ensures tz_of(self.dir()) == tz_view(offset),
    decreases iter.dir().n + 2 - iter.dir().k
//@spec
    requires self.wf(), self.index == 0, self.ifd_idx < usize::MAX,
    ensures tz_view(res) == tz_of(self.dir())
//@end
//@fn src/exif/exif_iter.rs impl IfdEntry :: as_str
//@spec
    ensures match self { IfdEntry::Entry(EntryValue::Text(x)) => (res matches Some(s) && s@ == x@), _ => res is None }
//@end
} // verus!
fn main() {}
