#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include hashmap.rs
//@include vvec.rs
use nom::{bytes::streaming, multi::{PR, rep, rep0, views, agrees}, number::Endianness, IResult, Needed, Parser, is_inc, is_inc_n, is_error, is_failure, s16, s32, s64, s16be, s24be, s32be, s64be};
use std::ops::Range;
verus! {
broadcast use seq_slices;
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_tiff.vrs
//@include inc_perr.vrs
//@include inc_bbox.vrs
//@include inc_values.vrs
//@include inc_moov.vrs
//@include inc_track.vrs
//@include inc_mov.vrs
//@item src/mov.rs type EntriesResult
//@stub bbox src/bbox.rs impl BoxHeader :: parse
//@stub bbox src/bbox.rs impl BoxHeader :: body_size
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: box_type
//@stub bbox src/bbox.rs impl<'a> BoxHolder<'a> :: body_data
//@stub bbox src/bbox.rs find_box
//@stub bbox src/bbox.rs to_boxes
//@stub bbox src/bbox.rs impl<O, T: ParseBody<O>> ParseBox<O> for T :: parse_box
//@stub moov src/bbox/mvhd.rs impl MvhdBox :: duration_ms
//@stub moov src/bbox/mvhd.rs impl MvhdBox :: creation_time
//@stub moov src/bbox/tkhd.rs parse_video_tkhd_in_moov
//@stub moov src/bbox/ilst.rs impl IlstBox :: parse_box
//@stub access src/values.rs impl EntryValue :: as_u8_slice
//@stub access src/values.rs impl EntryValue :: as_str
//@stub values src/values.rs filter_zero

// ---- where the moov box is
//@fn src/mov.rs extract_moov_body_from_buf
//@onlyclosure 1
//@rename moov_step
//@presubst `skipped +=` => `*skipped +=`
//@presubst `to_skip =` => `*to_skip =`
//@presubst `h.box_type == "moov"` => `v_is(h.box_type.as_str(), "moov")`
//@sig fn moov_step(h: &BoxHeader, remain: &[u8], skipped: &mut usize, to_skip: &mut usize) -> (res: bool)
//@spec
    requires h.wf(), h.header_size >= 8, remain@.len() >= h.box_size - h.header_size ==> *old(skipped) + h.box_size <= usize::MAX, *old(skipped) + h.header_size <= usize::MAX
    ensures res == !moov_g()(hd_of(*h), remain@),
        *final(skipped) == (if h.box_type@ == "moov"@ { *old(skipped) + h.header_size } else if res { *old(skipped) + h.box_size } else { *old(skipped) as int }),
        *final(to_skip) == (if res || h.box_type@ == "moov"@ { *old(to_skip) as int } else { h.box_size - h.header_size - remain@.len() })
//@end
//@fn src/bbox.rs travel_header
//@rename travel_moov
//@at start
    let vl = input.len();
//@presubst `predicate(&header, rem)` => `moov_step(&header, rem, skipped, to_skip)`
//@presubst `break Ok((rem, header));` => `return Ok((rem, header));`
//@at loop 0 start
        let ghost r0 = remain@;
//@at before `remain = & remain[`
        assert(r0.skip(header.header_size as int).skip(header.box_size - header.header_size) =~= r0.skip(header.box_size as int));
//@loop 0
    invariant trav(moov_g(), remain@) == trav(moov_g(), input@), *skipped + remain@.len() == input@.len(), *to_skip == 0, input@.len() <= usize::MAX
    decreases remain@.len()
//@sig fn travel_moov<'a>(input: &'a [u8], skipped: &mut usize, to_skip: &mut usize) -> (res: IResult<&'a [u8], BoxHeader>)
//@spec
    requires *old(skipped) == 0, *old(to_skip) == 0
    ensures match trav(moov_g(), input@) { Trav::Inc => is_inc(res), Trav::Bad => is_error(res), Trav::Stop(h, rem) => res matches Ok((r, x)) && hd_is(x, h) && r@ == rem && x.wf() && moov_hit(h, rem)
        && (if h.ty == "moov"@ { *final(skipped) == input@.len() - rem.len() && *final(to_skip) == 0 } else { *final(to_skip) == h.size - h.hlen - rem.len() }) }
//@end
//@fn src/mov.rs extract_moov_body_from_buf
//@subst `travel_header` => `travel_moov`
//@subst `n.get()` => `n`
//@at start
    let vl = input.len();
//@presubst `msg.to_string()` => `vmsg()`
//@dropclosure 1 => &mut skipped, &mut to_skip
//@closure 0
|e: nom::Err<nom::error::Error<&'a [u8]>>, msg: &str| -> (o: ParsingError) ensures match e { nom::Err::Incomplete(_) => o is Need, _ => o is Failed }
//@closure 1
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingError) ensures match e { nom::Err::Incomplete(_) => o is Need, _ => o is Failed }
//@closure 2
|| -> (o: ParsingError) ensures o is Failed
//@closure 3
|e: nom::Err<nom::error::Error<&'a [u8]>>| -> (o: ParsingError) ensures match e { nom::Err::Incomplete(_) => o is Need, _ => o is Failed }
//@sig fn extract_moov_body_from_buf<'a>(input: &'a [u8]) -> (res: Result<Range<usize>, ParsingError>)
//@presubst `header.body_size().try_into().expect("must fit")` => `v_usize(header.body_size())`
//@spec
    ensures match moov_of(input@) { Mb::Need => res matches Err(ParsingError::Need(_)), Mb::Fail => res matches Err(ParsingError::Failed { .. }), Mb::Skip(n) => res matches Err(ParsingError::ClearAndSkip(k)) && k == n,
        Mb::At(a, b) => res matches Ok(r) && r.start == a && r.end == b && 0 <= a <= b <= input@.len() }
//@end
// ---- metadata
impl VFrom<(TrackInfoTag, EntryValue)> for HashMap<TrackInfoTag, EntryValue> { open spec fn made(s: Seq<(TrackInfoTag, EntryValue)>, r: Self) -> bool { r.v@ == s } fn make(s: Vec<(TrackInfoTag, EntryValue)>) -> (r: Self) { HashMap { v: s } } }
impl vmap::VQ<TrackInfoTag> for TrackInfoTag { open spec fn qv(&self) -> TrackInfoTag { *self } fn same(&self, o: &TrackInfoTag) -> (r: bool) { *self == *o } }
proof fn boxed_keys()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], KeysBox>| #[trigger] boxed::<KeysBox, KeysBox>(s, r) ==> agrees(boxed_as(keys_f(), s), r, keys_v())
{ }
proof fn boxed_mvhd()
    ensures forall|s: Seq<u8>, r: IResult<&[u8], MvhdBox>| #[trigger] boxed::<MvhdBox, MvhdBox>(s, r) ==> agrees(boxed_as(mvhd_f(), s), r, mvhd_v())
{ }
pub trait DefX<T> { spec fn dv(self) -> Option<Seq<T>>; fn v_unwrap_or_default(self) -> (r: Vec<T>) ensures r@ == (match self.dv() { Some(x) => x, None => Seq::empty() }); }
impl<T> DefX<T> for Option<Vec<T>> { open spec fn dv(self) -> Option<Seq<T>> { match self { Some(v) => Some(v@), None => None } } fn v_unwrap_or_default(self) -> (r: Vec<T>) { match self { Some(x) => x, None => Vec::new() } } }
pub open spec fn item_is(keys: Seq<KeyEntry>, x: IlstItem, o: Option<(String, EntryValue)>) -> bool { if 1 <= x.index <= keys.len() { o matches Some(p) && p.0@ == keys[x.index - 1].key@ && p.1 == x.value } else { o is None } }
pub open spec fn item_g(keys: Seq<KeyEntry>) -> spec_fn(IlstItem, Option<(String, EntryValue)>) -> bool { |x: IlstItem, o: Option<(String, EntryValue)>| item_is(keys, x, o) }
proof fn fmap_paired(v: Seq<IlstItem>, r: Seq<(String, EntryValue)>, keys: Seq<KeyEntry>)
    requires fmap(v, item_g(keys), r)
    ensures views(r, pv()) == paired(views(keys, key_v()), views(v, item_v()))
    decreases v.len()
{
    let ks = views(keys, key_v()); let is = views(v, item_v()); let g = item_g(keys);
    if v.len() > 0 {
        assert(is.drop_last() =~= views(v.drop_last(), item_v()));
        if g(v.last(), None) && fmap(v.drop_last(), g, r) { fmap_paired(v.drop_last(), r, keys); }
        else { fmap_paired(v.drop_last(), r.drop_last(), keys); assert(views(r, pv()) =~= views(r.drop_last(), pv()).push(pv()(r.last()))); assert(r.last().1 == v.last().value); }
    } else { assert(views(r, pv()) =~= Seq::empty()); }
}
//@fn src/mov.rs parse_meta
//@subst `into_iter` => `v_into_iter`
//@subst `KeysBox :: parse_box` => `parse_box::<_, KeysBox>`
//@closure 0
|item: IlstItem| -> (o: Option<(String, EntryValue)>) ensures item_is(keys.entries@, item, o)
//@at start
    proof { boxed_keys(); }
//@at before `let entries`
    let ghost items0 = ilst.items@;
//@at before `Some(entries)`
    proof { assert(fmap(items0, item_g(keys.entries@), entries@)); fmap_paired(items0, entries@, keys.entries@); }
//@spec
    ensures match meta_pairs(input@) { Some(p) => res matches Some(v) && views(v@, pv()) == p, None => res is None }
//@end
/// std: the formatted text of an entry of the user data box
#[verifier::external_body]
pub fn v_udta(ty: &str) -> (r: String) ensures r@ == "udta."@ + ty@ { format!("udta.{}", ty) }
//@fn src/mov.rs parse_moov_body
//@subst `unwrap_or_default` => `v_unwrap_or_default`
//@presubst `for entry in boxes.iter() {` => `let mut vk: usize = 0; while vk < boxes.len() { let entry = &boxes[vk]; vk += 1;`
//@presubst `format!("udta.{}", entry.box_type())` => `v_udta(entry.box_type())`
//@presubst `Vec::from(entry.body_data())` => `entry.body_data().to_vec()`
//@at start
    let ghost e0 = match meta_pairs(input@) { Some(p) => p, None => Seq::empty() };
    assert(e0 + Seq::empty() =~= e0);
    assert(views(Seq::<(String, EntryValue)>::empty(), pv()) =~= Seq::empty());
//@at before loop 0
    let ghost l = box_list(body(udta.data@, hd_of(udta.header)))->0; let ghost ue = udta_entries(l);
    assert(e0 + ue.take(0) =~= e0);
//@loop 0
    invariant vk <= boxes@.len(), all_hold(boxes@, l), ue == udta_entries(l), views(entries@, pv()) == e0 + ue.take(vk as int)
    decreases boxes@.len() - vk
//@at loop 0 start
    let ghost n0 = entries@;
//@at loop 0 end
    proof { assert(holds(boxes@[vk - 1], l[vk - 1].0, l[vk - 1].1)); let x = entries@.last(); assert(x.0@ =~= ue[vk - 1].0); assert(tv(x.1) == ue[vk - 1].1); assert(entries@ =~= n0.push(x)); assert(views(entries@, pv()) =~= views(n0, pv()).push(ue[vk - 1])); assert(e0 + ue.take(vk as int) =~= (e0 + ue.take(vk - 1)).push(ue[vk - 1])); }
//@at after loop 0
    assert(ue.take(vk as int) =~= ue);
//@sig fn parse_moov_body<'a>(input: &'a [u8]) -> (res: EntriesResult<'a>)
//@spec
    ensures res matches Ok((_, Some(v))) && views(v@, pv()) == moov_entries(input@)
//@end
/// std: the bytes as characters
#[verifier::external_body]
pub fn v_latin1(v: &[u8]) -> (r: String) ensures r@ == latin1(v@)
{ v.iter().map(|b| *b as char).collect::<String>() }
//@fn src/mov.rs parse_udta_gps
//@presubst `let location = data[4..]` => `let location = v_latin1(&data[4..])`
//@presubst `.iter() .map(|b| *b as char) .collect::<String>()` => ``
//@spec
    ensures match loc_of(data@) { Some(t) => res matches Some(s) && s@ == t, None => res is None }
//@end
pub struct FromUtf8Error;
/// std's String::from_utf8
#[verifier::external_body]
pub fn v_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures utf8_ok(v@) ==> (r matches Ok(s) && s@ == utf8_dec(v@)), !utf8_ok(v@) ==> r is Err
{ String::from_utf8(v).map_err(|_| FromUtf8Error) }
//@item src/mov.rs const ISO_639_2_UND
//@fn src/mov.rs parse_udta_auth
//@subst `into_iter` => `v_into_iter`
//@subst `String::from_utf8` => `v_from_utf8`
//@spec
    ensures match auth_of(data@) { Some(t) => res matches Some(s) && s@ == t, None => res is None }
//@end
impl DateTime<FixedOffset> {
    /// chrono, with the format "%+" only
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, f: &str) -> (r: Result<DateTime<FixedOffset>, ()>) requires f@ == "%+"@ ensures match iso_date(s@) { Some(d) => r == Ok::<DateTime<FixedOffset>, ()>(d), None => r is Err } { unimplemented!() }
}
pub trait StrX { fn v_starts_with(&self, p: &str) -> (r: bool); }
impl StrX for String { #[verifier::external_body] fn v_starts_with(&self, p: &str) -> (r: bool) ensures r == p@.is_prefix_of(self@) { self.starts_with(p) } }
/// the names of the tags
pub open spec fn tag_name(t: TrackInfoTag) -> Seq<char> {
    match t { TrackInfoTag::Make => "Make"@, TrackInfoTag::Model => "Model"@, TrackInfoTag::Software => "Software"@, TrackInfoTag::CreateDate => "CreateDate"@, TrackInfoTag::DurationMs => "DurationMs"@,
        TrackInfoTag::Width => "Width"@, TrackInfoTag::Height => "Height"@, TrackInfoTag::GpsIso6709 => "GpsIso6709"@, TrackInfoTag::Author => "Author"@ }
}
//@item src/error.rs enum ConvertError | sub `String` => `VMsg`
//@fn src/video.rs impl std::str::FromStr for TrackInfoTag :: from_str
//@wrap none
//@rename tag_from_str
//@presubst `other.to_owned()` => `vmsg()`
//@sig fn tag_from_str(s: &str) -> (res: Result<TrackInfoTag, ConvertError>)
//@spec
    ensures match res { Ok(t) => s@ == tag_name(t), Err(_) => forall|t: TrackInfoTag| s@ != #[trigger] tag_name(t) }
//@end
proof fn names_apart(k: Seq<char>) requires "udta."@.is_prefix_of(k) ensures forall|t: TrackInfoTag| k != #[trigger] tag_name(t)
{
    reveal_strlit("udta."); reveal_strlit("Make"); reveal_strlit("Model"); reveal_strlit("Software"); reveal_strlit("CreateDate"); reveal_strlit("DurationMs"); reveal_strlit("Width"); reveal_strlit("Height"); reveal_strlit("GpsIso6709"); reveal_strlit("Author");
    assert(k[0] == "udta."@[0]);
}
//@fn src/mov.rs convert_video_tags
//@onlyclosure 0
//@rename convert_tag
//@presubst `k == "com.apple.quicktime.creationdate"` => `v_is(k.as_str(), "com.apple.quicktime.creationdate")`
//@presubst `k == "com.apple.quicktime.make"` => `v_is(k.as_str(), "com.apple.quicktime.make")`
//@presubst `k == "com.apple.quicktime.model"` => `v_is(k.as_str(), "com.apple.quicktime.model")`
//@presubst `k == "com.apple.quicktime.software"` => `v_is(k.as_str(), "com.apple.quicktime.software")`
//@presubst `k == "com.apple.quicktime.author"` => `v_is(k.as_str(), "com.apple.quicktime.author")`
//@presubst `k == "com.apple.quicktime.location.ISO6709"` => `v_is(k.as_str(), "com.apple.quicktime.location.ISO6709")`
//@presubst `k == "udta.©xyz"` => `v_is(k.as_str(), "udta.©xyz")`
//@presubst `k == "udta.auth"` => `v_is(k.as_str(), "udta.auth")`
//@presubst `k.as_str().parse::<TrackInfoTag>().ok()` => `tag_from_str(k.as_str()).ok()`
//@closure 0
|s: &str| -> (o: Option<DateTime<FixedOffset>>) ensures o == iso_date(s@)
//@closure 1
|t: DateTime<FixedOffset>| -> (o: (TrackInfoTag, EntryValue)) ensures o == (TrackInfoTag::CreateDate, EntryValue::DateTime(t))
//@closure 2
|v: String| -> (o: (TrackInfoTag, EntryValue)) ensures o == (TrackInfoTag::GpsIso6709, EntryValue::Text(v))
//@closure 3
|v: String| -> (o: (TrackInfoTag, EntryValue)) ensures o == (TrackInfoTag::Author, EntryValue::Text(v))
//@closure 4
|t: TrackInfoTag| -> (o: (TrackInfoTag, EntryValue)) ensures o == (t, v)
//@at before `let tag =`
    proof { names_apart(k@); }
//@sig fn convert_tag(k: String, v: EntryValue) -> (res: Option<(TrackInfoTag, EntryValue)>)
//@spec
    ensures tag_is(tagged(k@, tv(v)), res)
//@end
pub open spec fn tag_g() -> spec_fn((String, EntryValue), Option<(TrackInfoTag, EntryValue)>) -> bool { |x: (String, EntryValue), o: Option<(TrackInfoTag, EntryValue)>| tag_is(tagged(x.0@, tv(x.1)), o) }
proof fn fmap_tags(v: Seq<(String, EntryValue)>, r: Seq<(TrackInfoTag, EntryValue)>)
    requires fmap(v, tag_g(), r)
    ensures tvm(vmap::mview(r)) == tags_of(views(v, pv()))
    decreases v.len()
{
    let ks = views(v, pv()); let g = tag_g();
    if v.len() > 0 {
        assert(ks.drop_last() =~= views(v.drop_last(), pv()));
        if g(v.last(), None) && fmap(v.drop_last(), g, r) { fmap_tags(v.drop_last(), r); }
        else { fmap_tags(v.drop_last(), r.drop_last()); assert(g(v.last(), Some(r.last()))); let m = vmap::mview(r.drop_last()); assert(tvm(m.insert(r.last().0, r.last().1)) =~= tvm(m).insert(r.last().0, tv(r.last().1))); }
    } else { assert(tvm(vmap::mview(r)) =~= Map::empty()); }
}
//@fn src/mov.rs convert_video_tags
//@subst `into_iter` => `v_into_iter`
//@dropclosure 0 => convert_pair
//@sig fn convert_video_tags(entries: Vec<(String, EntryValue)>) -> (res: HashMap<TrackInfoTag, EntryValue>)
//@presubst `entries .into_iter()` => `let ghost e0 = entries@; let r: HashMap<TrackInfoTag, EntryValue> = entries.into_iter()`
//@presubst `.collect()` => `.collect(); assert(fmap(e0, tag_g(), r.v@)); proof { fmap_tags(e0, r.v@); } r`
//@spec
    ensures tvm(res@) == tags_of(views(entries@, pv()))
//@end
pub fn convert_pair(kv: (String, EntryValue)) -> (res: Option<(TrackInfoTag, EntryValue)>) ensures tag_is(tagged(kv.0@, tv(kv.1)), res) { convert_tag(kv.0, kv.1) }
proof fn tvm_facts()
    ensures forall|m: Map<TrackInfoTag, EntryValue>, k: TrackInfoTag, v: EntryValue| #[trigger] tvm(m.insert(k, v)) == tvm(m).insert(k, tv(v)),
        forall|m: Map<TrackInfoTag, EntryValue>, k: TrackInfoTag| #[trigger] tvm(m.remove(k)) == tvm(m).remove(k),
        forall|m: Map<TrackInfoTag, EntryValue>, n: Map<TrackInfoTag, EntryValue>| #[trigger] tvm(m.union_prefer_right(n)) == tvm(m).union_prefer_right(tvm(n)),
        tvm(Map::empty()) == Map::<TrackInfoTag, TV>::empty(),
{
    assert forall|m: Map<TrackInfoTag, EntryValue>, k: TrackInfoTag, v: EntryValue| #[trigger] tvm(m.insert(k, v)) == tvm(m).insert(k, tv(v)) by { assert(tvm(m.insert(k, v)) =~= tvm(m).insert(k, tv(v))); }
    assert forall|m: Map<TrackInfoTag, EntryValue>, k: TrackInfoTag| #[trigger] tvm(m.remove(k)) == tvm(m).remove(k) by { assert(tvm(m.remove(k)) =~= tvm(m).remove(k)); }
    assert forall|m: Map<TrackInfoTag, EntryValue>, n: Map<TrackInfoTag, EntryValue>| #[trigger] tvm(m.union_prefer_right(n)) == tvm(m).union_prefer_right(tvm(n)) by { assert(tvm(m.union_prefer_right(n)) =~= tvm(m).union_prefer_right(tvm(n))); }
    assert(tvm(Map::empty()) =~= Map::<TrackInfoTag, TV>::empty());
}
proof fn mvhd_calendar(s: Seq<u8>) ensures boxed_as(mvhd_f(), s) matches PR::Ok(m, _) ==> calendar(m.created) && 0 <= m.created { }
//@fn src/mov.rs parse_mvhd_tkhd
//@subst `MvhdBox :: parse_box` => `parse_box::<_, MvhdBox>`
//@presubst `mvhd.duration_ms().into()` => `from_U64(mvhd.duration_ms())`
//@presubst `tkhd.width.into()` => `from_U32(tkhd.width)`
//@presubst `tkhd.height.into()` => `from_U32(tkhd.height)`
//@presubst `BTreeMap::new()` => `HashMap::<TrackInfoTag, EntryValue>::new()`
//@sig fn parse_mvhd_tkhd(moov_body: &[u8]) -> (res: HashMap<TrackInfoTag, EntryValue>)
//@at start
    proof { tvm_facts(); boxed_mvhd(); }
//@at before `entries . insert ( TrackInfoTag :: DurationMs`
    proof { mvhd_calendar(bbox.data@); }
//@spec
    ensures tvm(res@) == extras_of(moov_body@)
//@end
//@fn src/mov.rs parse_isobmff
//@presubst `let mut entries: BTreeMap<TrackInfoTag, EntryValue>` => `let mut entries: HashMap<TrackInfoTag, EntryValue>`
//@presubst `for (k, v) in entries {` => `let ghost all = entries.v@; let ghost mut n = 0int; loop { let (k, v) = match entries.v_next() { Some(x) => x, None => break };`
//@loop 0
    invariant 0 <= n <= all.len(), entries.v@ == all.skip(n), info.entries@ == vmap::mview(all.take(n)), info.gps_info is None
    ensures info.entries@ == vmap::mview(all), info.gps_info is None
    decreases all.len() - n
//@at start
    proof { tvm_facts(); }
//@at loop 0 start
    proof { if n < all.len() { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); } else { assert(all.take(n) =~= all); } }
//@at loop 0 end
    proof { n = n + 1; }
//@spec
    ensures res matches Ok(i) && tvm(i.entries@) == movie_of(moov_body@) && i.gps_info is None
//@end
} // verus!
fn main() {}
