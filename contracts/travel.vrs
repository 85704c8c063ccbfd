#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include bytes.rs
//@include hashset.rs
use nom::{IResult, Parser, Needed, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number, number::{streaming, Endianness}};
verus! {
global size_of usize == 8;
broadcast use seq_slices;
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@include inc_ifd.vrs
//@include inc_perr.vrs
//@stub tags src/exif/tags.rs impl ExifTag :: code
//@stub tags src/exif/tags.rs impl TagOrCode :: tag
//@stub tags src/exif/tags.rs impl TagOrCode :: code
//@stub tags src/exif/tags.rs impl From < u16 > for TagOrCode :: from
//@stub values src/values.rs impl DataFormat :: component_size
//@stub values src/values.rs impl TryFrom < u16 > for DataFormat :: try_from
//@stub ifd src/exif/exif_exif.rs impl TiffHeader :: parse_ifd_entry_num
//@stub heif src/error.rs nom_error_to_parsing_error_with_state
pub proof fn codes()
    ensures tcode(ExifTag::ExifOffset) == 0x8769, tcode(ExifTag::GPSInfo) == 0x8825, forall|t: ExifTag| #[trigger] tcode(t) == 0x8825 <==> t == ExifTag::GPSInfo,
{ reveal(tcode); }
//@item src/exif/exif_iter.rs const SUBIFD_TAGS | fn ensures r@.len() == 2, r@[0] == 0x8769u16, r@[1] == 0x8825u16 | proof codes();
pub fn v_contains(s: &[u16], x: &u16) -> (r: bool) ensures r == s@.contains(*x) {
    let mut k: usize = 0;
    while k < s.len() invariant k <= s@.len(), forall|j: int| 0 <= j < k ==> s@[j] != *x, decreases s@.len() - k { if s[k] == *x { assert(s@[k as int] == *x); return true; } k += 1; }
    false
}
pub fn v_item<'a>(v: &Vec<IfdHeaderTravel<'a>>, k: usize) -> (r: IfdHeaderTravel<'a>) requires k < v@.len(), ensures r == v@[k as int] { IfdHeaderTravel { data: v[k].data, tag: v[k].tag, endian: v[k].endian, offset: v[k].offset } }
impl VKey for (usize, bool) { fn same(&self, o: &Self) -> (r: bool) { self.0 == o.0 && self.1 == o.1 } }
//@include inc_travel.vrs

//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: new
//@spec
    ensures res.data == input, res.tag == tag, res.endian == endian, res.offset == offset
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: is_gps_subifd
//@at start
    proof { codes(); }
//@spec
    requires tc_ok(self.tag),
    ensures res == self.gps()
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: get_data_pos
//@spec
    ensures res == value_or_offset
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: parse_tag_entry_header
//@presubst? `data_format.try_into()` => `DataFormat::try_from(data_format)`
//@subst `SUBIFD_TAGS.contains(&tag)` => `v_contains(SUBIFD_TAGS().as_slice(), &tag)`
//@at start
    proof { codes(); num_bounds(); reveal(te); }
//@at before `let size =`
    proof { assert(0 <= components_num as int * component_size as int <= 0xffff_ffff * 8) by(nonlinear_arith) requires 0 <= components_num <= 0xffff_ffff, 0 <= component_size <= 8; }
//@spec
    requires self.wf(), entry_data@.len() == 12,
    ensures forall|p: int| 0 <= p && p + 12 <= self.data@.len() && entry_data@ == #[trigger] self.data@.subrange(p, p + 12) ==> match res {
        Err(e) => is_inc(res) && te(self.data@, self.endian, self.gps(), p) is Need,
        Ok((rem, None)) => rem@.len() == 0 && te(self.data@, self.endian, self.gps(), p) is Skip,
        Ok((rem, Some(en))) => rem@.len() == 0 && (match en.sub_ifd_offset {
            None => te(self.data@, self.endian, self.gps(), p) is Skip,
            Some(o) => o > 0 && (if o + 2 > self.data@.len() { te(self.data@, self.endian, self.gps(), p) is Need } else { te(self.data@, self.endian, self.gps(), p) == TE::Sub(o as int, en.tag) }) }) }
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: parse_ifd_entry_header
//@presubst `entry.tag.into()` => `TagOrCode::from(entry.tag)`
//@at start
    proof { num_bounds(); reveal(te); }
//@spec
    requires self.wf(), pos <= self.data@.len(),
    ensures match res {
        Err(e) => is_inc(res) && te(self.data@, self.endian, self.gps(), pos as int) is Need,
        Ok((_, None)) => te(self.data@, self.endian, self.gps(), pos as int) is Skip,
        Ok((_, Some(y))) => te(self.data@, self.endian, self.gps(), pos as int) matches TE::Sub(a, t) && sub_is(*self, (a, t), y) }
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: travel_unvisited
//@presubst? `msg.into()` => `vmsg()`
//@presubst `for _ in 0..entry_num {` => `for vk in 0..entry_num {`
//@presubst `for mut ifd in sub_ifds {` => `let mut vk: usize = 0; while vk < sub_ifds.len() { let mut ifd = v_item(&sub_ifds, vk); vk += 1;`
//@closure 0
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: ParsingError) ensures e is Incomplete ==> o is Need
//@closure 1
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: ParsingError) ensures e is Incomplete ==> o is Need
//@at start
    let ghost (d, en, g, o, v0) = (self.data@, self.endian, self.gps(), self.offset as int, visited@);
    proof { num_bounds(); }
//@loop 0
    invariant *self == *old(self), v0 == old(visited)@, self.wf(), d == self.data@, en == self.endian, g == self.gps(), o == self.offset, visited@ == v0, depth < 3,
        dir_ok(d, en, o), entry_num == s16(en, d.skip(o)), pos == o + 2 + 12 * vk,
        tsubs(d, en, g, o, vk as int) matches Some(s) && s.len() == sub_ifds@.len() && forall|j: int| 0 <= j < s.len() ==> sub_is(*self, s[j], #[trigger] sub_ifds@[j]),
    ensures dsubs(d, en, g, o) matches Some(s) && s.len() == sub_ifds@.len() && forall|j: int| 0 <= j < s.len() ==> sub_is(*self, s[j], #[trigger] sub_ifds@[j]),
//@at loop 0 start
    proof { if te(d, en, g, pos as int) is Need { assert(tsubs(d, en, g, o, vk + 1) is None); tsubs_none(d, en, g, o, vk + 1, entry_num as int); } }
//@at before loop 1
    let ghost subs = dsubs(d, en, g, o)->0;
//@loop 1
    invariant *self == *old(self), v0 == old(visited)@, self.wf(), d == self.data@, en == self.endian, vk <= sub_ifds@.len(), depth < 3, subs.len() == sub_ifds@.len(), forall|j: int| 0 <= j < subs.len() ==> sub_is(*self, subs[j], #[trigger] sub_ifds@[j]),
        tfold(d, en, subs, vk as int, depth as nat, visited@) == tfold(d, en, subs, 0, depth as nat, v0),
        old(self).visit(depth as nat, v0) == tfold(d, en, subs, 0, depth as nat, v0),
    decreases sub_ifds@.len() - vk
//@at loop 1 start
    let ghost vis1 = visited@; let ghost k = vk as int;
    proof { assert(sub_is(*self, subs[k], sub_ifds@[k])); tfold_step(d, en, subs, k, depth as nat, vis1); }
//@at before `ifd.travel_unvisited`
    proof { assert(!vis1.contains(tkey(subs[k]))); assert(visited@ == vis1.insert(tkey(subs[k]))); assert(ifd.visit((depth + 1) as nat, visited@) == trav(d, en, subs[k].1 == 0x8825, subs[k].0, (depth as nat + 1) as nat, vis1.insert(tkey(subs[k])))); }
//@at after loop 1
    proof { assert(vk == subs.len()); }
//@at before `if visited.insert`
    proof { if vis1.contains(tkey(subs[k])) { assert(vis1.insert(tkey(subs[k])) =~= vis1); }
        assert(ifd == sub_ifds@[k]); assert(tkey(subs[k]) == (ifd.offset, ifd.gps()));
        assert(ifd.visit((depth + 1) as nat, vis1.insert(tkey(subs[k]))) == trav(d, en, subs[k].1 == 0x8825, subs[k].0, (depth as nat + 1) as nat, vis1.insert(tkey(subs[k])))); }
//@spec
    requires old(self).wf(),
    ensures *final(self) == *old(self), match old(self).visit(depth as nat, old(visited)@) { TR::Ok(v) => res is Ok && final(visited)@ == v, TR::Need => res matches Err(e) && e is Need, TR::Fail => res matches Err(e) && e is Failed },
    decreases 3 - depth
//@end
//@fn src/exif/travel.rs impl < 'a > IfdHeaderTravel < 'a > :: travel_ifd
//@spec
    requires old(self).wf(),
    ensures *final(self) == *old(self), match old(self).visit(depth as nat, Set::empty()) { TR::Ok(v) => res is Ok, TR::Need => res matches Err(e) && e is Need, TR::Fail => res matches Err(e) && e is Failed },
//@end
} // verus!
fn main() {}
