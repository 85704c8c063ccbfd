#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpecImpl;
use core::ops::Range;
//@include nom.rs
//@include common.rs
//@include cursor.rs
use nom::{s16be, s24be, s32be, s64be};
verus! {
broadcast use {seq_slices, q_from};
global size_of usize == 8;
//@bconsts
pub open spec fn latin1(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
//@include inc_ebml.vrs
//@include inc_ebmlx.vrs

proof fn be_small()
    ensures forall|s: Seq<u8>| s.len() == 1 ==> #[trigger] be_val(s) == s[0],
        forall|s: Seq<u8>| s.len() == 2 ==> #[trigger] be_val(s) == s16be(s),
        forall|s: Seq<u8>| s.len() == 3 ==> #[trigger] be_val(s) == s24be(s),
        forall|s: Seq<u8>| s.len() == 4 ==> #[trigger] be_val(s) == s32be(s),
        forall|s: Seq<u8>| s.len() == 8 ==> #[trigger] be_val(s) == s64be(s),
{
    assert forall|s: Seq<u8>| s.len() == 1 implies #[trigger] be_val(s) == s[0] by { assert(s.drop_last() =~= Seq::empty()); reveal_with_fuel(be_val, 3); }
    assert forall|s: Seq<u8>| s.len() == 2 implies #[trigger] be_val(s) == s16be(s) by { reveal_with_fuel(be_val, 4); }
    assert forall|s: Seq<u8>| s.len() == 3 implies #[trigger] be_val(s) == s24be(s) by { reveal_with_fuel(be_val, 5); }
    assert forall|s: Seq<u8>| s.len() == 4 implies #[trigger] be_val(s) == s32be(s) by { reveal_with_fuel(be_val, 6); }
    assert forall|s: Seq<u8>| s.len() == 8 implies #[trigger] be_val(s) == s64be(s) by { reveal_with_fuel(be_val, 10); }
}
/// leading zero bytes do not change a number
proof fn be_pad(z: Seq<u8>, s: Seq<u8>)
    requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0
    ensures be_val(z + s) == be_val(s)
    decreases z.len() + s.len()
{
    if s.len() > 0 { assert((z + s).drop_last() =~= z + s.drop_last()); be_pad(z, s.drop_last()); }
    else if z.len() > 0 { assert((z + s).drop_last() =~= z.drop_last() + s); be_pad(z.drop_last(), s); }
}
proof fn be_bound(s: Seq<u8>, k: int)
    requires s.len() <= 8, 0 <= k <= 256, s.len() > 0 ==> s[0] < k
    ensures 0 <= be_val(s), s.len() == 8 ==> be_val(s) < k * 0x100_0000_0000_0000, s.len() < 8 ==> be_val(s) < 0x100_0000_0000_0000
{ reveal_with_fuel(be_val, 10); }

/// std: u8::leading_zeros
pub fn v_lead(b: u8) -> (r: u32) ensures r == lead(b) { if b >= 128 { 0 } else if b >= 64 { 1 } else if b >= 32 { 2 } else if b >= 16 { 3 } else if b >= 8 { 4 } else if b >= 4 { 5 } else if b >= 2 { 6 } else if b >= 1 { 7 } else { 8 } }
/// std: u64::from_be_bytes
pub fn v_be64(a: [u8; 8]) -> (r: u64) ensures r == s64be(a@) { let h = a[0] as u64 * 0x100_0000 + a[1] as u64 * 0x1_0000 + a[2] as u64 * 0x100 + a[3] as u64; let l = a[4] as u64 * 0x100_0000 + a[5] as u64 * 0x1_0000 + a[6] as u64 * 0x100 + a[7] as u64; h * 0x1_0000_0000 + l }
/// std: u32::from_be_bytes
pub fn v_be32(a: [u8; 4]) -> (r: u32) ensures r == s32be(a@) { a[0] as u32 * 0x100_0000 + a[1] as u32 * 0x1_0000 + a[2] as u32 * 0x100 + a[3] as u32 }
proof fn lead_mask(b: u8, n: int)
    requires n == lead(b) + 1, n <= 8
    ensures n == 1 ==> b & (0xFFu8 >> 1usize) == b - 128, n == 2 ==> b & (0xFFu8 >> 2usize) == b - 64, n == 3 ==> b & (0xFFu8 >> 3usize) == b - 32, n == 4 ==> b & (0xFFu8 >> 4usize) == b - 16, n == 5 ==> b & (0xFFu8 >> 5usize) == b - 8, n == 6 ==> b & (0xFFu8 >> 6usize) == b - 4, n == 7 ==> b & (0xFFu8 >> 7usize) == b - 2
{
    assert(b >= 128 ==> b & (0xFFu8 >> 1usize) == b - 128) by(bit_vector);
    assert(64 <= b < 128 ==> b & (0xFFu8 >> 2usize) == b - 64) by(bit_vector);
    assert(32 <= b < 64 ==> b & (0xFFu8 >> 3usize) == b - 32) by(bit_vector);
    assert(16 <= b < 32 ==> b & (0xFFu8 >> 4usize) == b - 16) by(bit_vector);
    assert(8 <= b < 16 ==> b & (0xFFu8 >> 5usize) == b - 8) by(bit_vector);
    assert(4 <= b < 8 ==> b & (0xFFu8 >> 6usize) == b - 4) by(bit_vector);
    assert(2 <= b < 4 ==> b & (0xFFu8 >> 7usize) == b - 2) by(bit_vector);
}
//@fn src/ebml/vint.rs impl VInt :: parse_unsigned
//@presubst `data[0].leading_zeros()` => `v_lead(data[0])`
//@subst `u64 :: from_be_bytes` => `v_be64`
//@at before `let v = `
        proof {
            let z = Seq::new((8 - n) as nat, |i: int| 0u8); let t = if reserve_marker { data@.take(n as int) } else { data@.take(n as int).update(0, (data@[0] - mark(n as int)) as u8) };
            assert(octets@ =~= z + t); be_pad(z, t); be_small(); be_bound(t, if reserve_marker { 256 } else { mark(n as int) });
        }
//@at before `octets[start] = first`
                proof { lead_mask(data@[0], n as int); }
//@at start
    proof { reveal(vint); }
//@spec
    ensures match vint(data@, reserve_marker) { VI::Need => res matches Err(ParseVIntFailed::Need(_)), VI::Bad => res matches Err(ParseVIntFailed::InvalidVInt(_)),
        VI::V(v, n) => res matches Ok((rem, x)) && x == v && rem@ == data@.skip(n) && (!reserve_marker ==> v < 0x100_0000_0000_0000) }
//@end
//@fn src/ebml/vint.rs impl VInt :: as_u64_with_marker
//@at start
    proof { reveal(vint); }
//@spec
    requires old(data).at() <= old(data).data().len()
    ensures final(data).data() == old(data).data(), match vint(old(data).rest(), true) { VI::Need => res matches Err(ParseVIntFailed::Need(_)), VI::Bad => res matches Err(ParseVIntFailed::InvalidVInt(_)),
        VI::V(v, n) => res matches Ok(x) && n >= 1 && x == v && final(data).at() == old(data).at() + n && final(data).at() <= final(data).data().len() }
//@end
//@fn src/ebml/vint.rs impl VInt :: as_usize
//@closure 0
|vt: (&[u8], u64)| -> (o: (&[u8], usize)) ensures o.0@ == vt.0@ && o.1 == vt.1
//@at start
    proof { reveal(vint); }
//@spec
    requires old(data).at() <= old(data).data().len()
    ensures final(data).data() == old(data).data(), match vint(old(data).rest(), false) { VI::Need => res matches Err(ParseVIntFailed::Need(_)), VI::Bad => res matches Err(ParseVIntFailed::InvalidVInt(_)),
        VI::V(v, n) => res matches Ok(x) && n >= 1 && x == v && final(data).at() == old(data).at() + n && final(data).at() <= final(data).data().len() && v < 0x100_0000_0000_0000 }
//@end

//@fn src/ebml/element.rs impl From<ParseVIntFailed> for ParseEBMLFailed :: from
//@presubst `e.into()` => `vmsg()`
//@spec
    ensures match value { ParseVIntFailed::InvalidVInt(_) => res is InvalidEBMLFile, ParseVIntFailed::Need(n) => res == ParseEBMLFailed::Need(n) }
//@end
impl FromSpecImpl<ParseVIntFailed> for ParseEBMLFailed {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ParseVIntFailed) -> Self { match v { ParseVIntFailed::InvalidVInt(_) => ParseEBMLFailed::InvalidEBMLFile(VMsg), ParseVIntFailed::Need(n) => ParseEBMLFailed::Need(n) } }
}
//@fn src/ebml/element.rs next_element_header
//@at start
    proof { reveal(vint); reveal(el); }
//@spec
    requires old(cursor).at() <= old(cursor).data().len()
    ensures final(cursor).data() == old(cursor).data(), match el(old(cursor).rest()) { Elr::Need => res matches Err(ParseEBMLFailed::Need(_)), Elr::Bad => res matches Err(ParseEBMLFailed::InvalidEBMLFile(_)),
        Elr::E(h) => res matches Ok(x) && el_is(x, h) && final(cursor).at() == old(cursor).at() + h.hlen && final(cursor).at() <= final(cursor).data().len() && 2 <= h.hlen <= 16 }
//@end
//@fn src/ebml/element.rs find_element_by_id
//@loop 0
    invariant cursor.data() == old(cursor).data(), el_find(id_is(target_id as int), cursor.data(), cursor.at() as int) == el_find(id_is(target_id as int), old(cursor).data(), old(cursor).at() as int),
    decreases cursor.left()
//@spec
    ensures final(cursor).data() == old(cursor).data(), el_found(res, *final(cursor), el_find(id_is(target_id as int), old(cursor).data(), old(cursor).at() as int))
//@end
//@fn src/ebml/element.rs travel_while
//@subst `mut predict: F` => `Ghost(g): Ghost<spec_fn(int) -> bool>, predict: F`
//@subst `F: FnMut` => `F: Fn`
//@loop 0
    invariant cursor.data() == old(cursor).data(), el_find(g, cursor.data(), cursor.at() as int) == el_find(g, old(cursor).data(), old(cursor).at() as int), decides(predict, g),
    decreases cursor.left()
//@spec
    requires decides(predict, g)
    ensures final(cursor).data() == old(cursor).data(), el_found(res, *final(cursor), el_find(g, old(cursor).data(), old(cursor).at() as int))
//@end
/// std: the bytes up to the first zero, as characters
#[verifier::external_body]
pub fn v_text(v: &[u8], n: usize) -> (r: String) ensures n <= v@.len() ==> r@ == latin1(to_zero(v@.take(n as int)))
{ v.iter().take(n).take_while(|b| **b != 0).map(|b| (*b) as char).collect::<String>() }
//@fn src/ebml/element.rs get_cstr
//@presubst `let it = Iterator::take(cursor.chunk().iter(), size); let s = it.take_while(|b| **b != 0).map(|b| (*b) as char).collect::<String>();` => `let s = v_text(cursor.chunk(), size);`
//@spec
    requires old(cursor).at() <= old(cursor).data().len()
    ensures if old(cursor).left() < size { res is None && *final(cursor) == *old(cursor) } else { res matches Some(t) && t@ == latin1(to_zero(old(cursor).rest().take(size as int))) && cmoved(*final(cursor), *old(cursor), old(cursor).at() + size) }
//@end
//@fn src/ebml/element.rs get_as_u64
//@subst? `u32 :: from_be_bytes` => `v_be32`
//@subst? `u64 :: from_be_bytes` => `v_be64`
//@at start
    proof { reveal(uint_of); }
    proof { be_small(); }
    let ghost r0 = cursor.rest(); let ghost p0 = cursor.at() as int;
//@at before `let bytes`
            proof { assert(r0.take(3) =~= seq![r0[0], r0[1], r0[2]]); }
//@at before all `v_be64 (`
                proof { let z = Seq::new((8 - size) as nat, |i: int| 0u8); assert(buf@ =~= z + r0.take(size as int)); be_pad(z, r0.take(size as int)); }
//@spec
    requires old(cursor).at() <= old(cursor).data().len()
    ensures final(cursor).data() == old(cursor).data(), old(cursor).at() <= final(cursor).at() <= final(cursor).data().len(), match uint_of(old(cursor).rest(), size as int) { None => res is None, Some(v) => res matches Some(x) && x == v && final(cursor).at() == old(cursor).at() + size }
//@end
/// `as f64`
#[verifier::external_body]
pub fn v_wide(x: f32) -> (r: f64) ensures r == f32_val(x) { x as f64 }
//@fn src/ebml/element.rs get_as_f64
//@presubst `cursor.get_f32() as f64` => `v_wide(cursor.get_f32())`
//@at start
    proof { reveal(float_of); }
//@spec
    requires old(cursor).at() <= old(cursor).data().len()
    ensures final(cursor).data() == old(cursor).data(), match float_of(old(cursor).rest(), size as int) { None => res is None, Some(v) => res matches Some(x) && x == v }
//@end
//@fn src/ebml/element.rs parse_ebml_head_data
//@closure 0
|| -> (o: ParseEBMLFailed) requires h.data_size >= cur.left() ensures o is Need
//@loop 0
    invariant cur.data() == input@, el_find(id_is(0x4282), cur.data(), cur.at() as int) == el_find(id_is(0x4282), input@, 0),
    decreases cur.left()
//@spec
    ensures match el_find(id_is(0x4282), input@, 0) { ElF::At(d, a) => if input@.len() - a < d.size { res is Err } else { res matches Ok(t) && t@ == latin1(to_zero(input@.subrange(a, a + d.size))) }, _ => res is Err }, res matches Err(e) ==> e is Need || e is NotEBMLFile || e is InvalidEBMLFile
//@end
//@fn src/ebml/element.rs parse_ebml_doc_type
//@spec
    requires old(cursor).at() <= old(cursor).data().len()
    ensures final(cursor).data() == old(cursor).data(), match doc_type(old(cursor).data(), old(cursor).at() as int) { Doc::Need => res matches Err(ParseEBMLFailed::Need(_)), Doc::Bad => res matches Err(e) && !(e is Need), Doc::T(t, a) => res matches Ok(x) && x@ == t && final(cursor).at() == a && a <= final(cursor).data().len() }
//@end
} // verus!
fn main() {}
