#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include vvec.rs
use nom::{number::Endianness, IResult, Parser, is_inc, is_error, is_failure, s16, s16be, s32, s32be};
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_perr.vrs
//@include inc_tiff.vrs
//@include inc_png.vrs
//@stub heif src/error.rs impl ParsingErrorState :: new
//@stub ifd src/exif/exif_exif.rs impl TiffHeader :: parse
//@include inc_pngx.vrs
//@item src/png.rs const PNG_SIGNATURE | bytes
//@item src/png.rs const MAX_TEXT_CHUNK_SIZE
//@item src/png.rs const MAX_TEXT_CHUNKS_TOTAL
/// the derived Clone
impl Clone for PngCollected {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// std: u32::from_be_bytes
pub fn v_be32(a: [u8; 4]) -> (r: u32) ensures r == s32be(a@) { a[0] as u32 * 0x100_0000 + a[1] as u32 * 0x1_0000 + a[2] as u32 * 0x100 + a[3] as u32 }
#[verifier::external_body]
pub fn v_utf8(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { s.as_bytes() }
#[verifier::external_body]
pub fn v_slen(s: &String) -> (r: usize) ensures r == utf8(s@).len() { s.len() }
#[verifier::external_body]
pub fn v_ends_with(s: &String, t: &str) -> (r: bool) ensures r == (s@.len() >= t@.len() && s@.skip(s@.len() - t@.len()) == t@) { s.ends_with(t) }
/// std: str::lines
#[verifier::external_body]
pub struct VLines<'a> { l: core::str::Lines<'a> }
impl<'a> VLines<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match line1(old(self).rest()) { None => r is None && final(self).rest() == old(self).rest(), Some((l, t)) => r matches Some(x) && x@ == l && final(self).rest() == t }
    { self.l.next() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: String) ensures r@ == join(self.rest()) { self.l.collect() }
}
#[verifier::external_body]
pub fn v_lines<'a>(s: &'a str) -> (r: VLines<'a>) ensures r.rest() == s@ { VLines { l: s.lines() } }
/// `v.drain(0..n)` with the answer dropped
pub fn v_drain(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int)
{
    let w = v.as_slice()[n..].v_to_vec();
    *v = w;
}
proof fn nul_at(d: Seq<u8>, k: int, i: int)
    requires 0 <= i <= k <= d.len(), k < d.len() ==> d[k] == 0, forall|j: int| i <= j < k ==> d[j] != 0
    ensures first_nul(d, i) == k
    decreases k - i
{ if i < k { nul_at(d, k, i + 1); } }
proof fn profile_names()
    ensures "Raw profile type APP1"@ != "Raw profile type exif"@,
        "Raw profile type APP1"@.skip(17) == "APP1"@, "Raw profile type exif"@.skip(17) != "APP1"@, "Raw profile type APP1"@.len() == 21, "Raw profile type exif"@.len() == 21, "APP1"@.len() == 4
{
    reveal_strlit("Raw profile type APP1"); reveal_strlit("Raw profile type exif"); reveal_strlit("APP1");
    assert("Raw profile type APP1"@.skip(17) =~= "APP1"@);
    assert("Raw profile type exif"@.skip(17)[0] != "APP1"@[0]);
    assert("Raw profile type exif"@[17] != "Raw profile type APP1"@[17]);
}
//@fn src/png.rs decode_latin1
//@presubst `bytes.iter()` => `v_copied(bytes)`
//@closure 0
|b: u8| -> (o: char) ensures o == b as char
//@spec
    ensures res@ =~= latin1(bytes@)
//@end

//@fn src/png.rs hex_decode
//@presubst `for c in s.bytes() {` => `let vb = v_utf8(s); let mut vk: usize = 0; while vk < vb.len() { let c = vb[vk]; vk += 1;`
//@presubst `s.len()` => `v_utf8(s).len()`
//@loop 0
    invariant vk <= vb@.len(), vb@ == utf8(s@), hexf(vb@.skip(vk as int), high, out@) == hexf(utf8(s@), None, Seq::empty()), high matches Some(h) ==> h < 16
    decreases vb@.len() - vk
//@at loop 0 start
    proof { assert(vb@.skip(vk as int).skip(1) =~= vb@.skip(vk + 1)); assert(vb@.skip(vk as int)[0] == vb@[vk as int]); }
    assert(forall|a: u8, b: u8| a < 16 && b < 16 ==> #[trigger] ((a << 4) | b) == a * 16 + b) by(bit_vector);
//@spec
    ensures match hexf(utf8(s@), None, Seq::empty()) { None => res is Err, Some(v) => res matches Ok(r) && r@ == v }
//@end

//@fn src/png.rs decode_raw_profile_value
//@presubst `s.lines()` => `v_lines(s)`
//@at start
    proof { reveal(raw_profile); }
//@spec
    ensures match raw_profile(s@) { None => res is Err, Some(v) => res matches Ok(r) && r@ == v }
//@end

//@fn src/png.rs skip_state
//@closure 0
|source: PngExifSource| -> (o: Vec<u8>) requires src_ok(buf@, Some(source)) ensures Some(o@) == src_of(buf@, Some(source))
//@at start
    proof { if out.text_chunks@.len() == 0 { assert(texts_of(out.text_chunks@) =~= Seq::empty()); } }
//@spec
    requires src_ok(buf@, out.exif), pst_ok(rep(buf@, out, exif_priority, text_total))
    ensures past(res), pst_of(res) == rep(buf@, out, exif_priority, text_total)
//@end

//@fn src/png.rs extract_chunks
//@subst? `crate::exif::TiffHeader` => `TiffHeader`
//@presubst `&buf[..PNG_SIGNATURE.len()] != PNG_SIGNATURE` => `!v_eq_bytes(&buf[..PNG_SIGNATURE.len()], PNG_SIGNATURE)`
//@presubst `state.clone().filter` => `state.clone().v_filter`
//@presubst `u32::from_be_bytes` => `v_be32`
//@presubst `c.exif.map(PngExifSource::Legacy)` => `match c.exif { Some(vx) => Some(PngExifSource::Legacy(vx)), None => None }`
//@presubst `data.iter()` => `v_copied(data)`
//@presubst `key.ends_with("APP1")` => `v_ends_with(&key, "APP1")`
//@presubst `bytes.drain(0..6)` => `v_drain(&mut bytes, 6)`
//@presubst `key.len() + value.len()` => `v_slen(&key) + v_slen(&value)`
//@at before `let entry_size`
    proof { utf8_len(key@); utf8_len(value@); }
    let ghost st1 = rep(buf@, out, exif_priority, text_total);
    assert(st1 == (if profile_prio(key@) > 0 && profile_prio(key@) > st0.prio && legacy(key@, value@) is Some { Pst { exif: legacy(key@, value@), prio: profile_prio(key@), ..st0 } } else { st0 })) by { reveal(legacy); }
//@at before `let key =`
    proof { nul_at(data@, nul_pos as int, 0); profile_names(); }
//@at after `out.text_chunks.push((key, value));`
    assert(texts_of(out.text_chunks@) =~= st0.texts.push((key@, value@)));
//@at before all `cursor += total`
    proof { if ctype@ == text4() && length <= MAX_TEXT_CHUNK_SIZE { let d = buf@.subrange(cursor + 8, cursor + 8 + length);
        if forall|j: int| 0 <= j < d.len() ==> d[j] != 0 { nul_at(d, d.len() as int, 0); }
        assert(rep(buf@, out, exif_priority, text_total) == text_step(st0, d)) by { reveal(text_step); } } }
//@at before loop 0
    proof { assert(texts_of(Seq::empty()) =~= Seq::empty()); let vl = buf.len(); slice_max(buf); assert(PNG_SIGNATURE__() =~= png_sig()); assert(rep(buf@, out, exif_priority, text_total) == pst_of(state)); }
//@at loop 0 start
    let ghost st0 = rep(buf@, out, exif_priority, text_total);
//@closure 0
|| -> (o: Option<ParsingState>) ensures o == keep(state)
//@closure 1
|vx: &ParsingState| -> (o: bool) ensures o == past_signature
//@closure 2
|b: u8| -> (o: bool) ensures o == (b == 0)
//@loop 0
    invariant cursor <= buf@.len(), buf@.len() <= isize::MAX, src_ok(buf@, out.exif), pst_ok(rep(buf@, out, exif_priority, text_total)),
        pwalk(buf@, cursor as int, rep(buf@, out, exif_priority, text_total)) == pwalk(buf@, if past(state) { 0 } else { 8 }, pst_of(state)),
        past_signature == past(state), !past(state) ==> buf@.len() >= 8 && buf@.take(8) == png_sig(),
        forall|o: Option<ParsingState>| #[trigger] preserve.ensures((), o) ==> o == keep(state), preserve.requires(()),
    ensures src_ok(buf@, out.exif), pwalk(buf@, if past(state) { 0 } else { 8 }, pst_of(state)) == PO::Done(rep(buf@, out, exif_priority, text_total))
    decreases buf@.len() - cursor
//@spec
    requires pst_ok(pst_of(state))
    ensures extracted(buf@, state, res)
//@end
} // verus!
fn main() {}
