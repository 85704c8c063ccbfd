#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include bytes.rs
//@include hashset.rs
//@include hashmap.rs
use nom::{IResult, Parser, Needed, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number::Endianness};
verus! {
global size_of usize == 8;
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@include inc_ifd.vrs
//@include inc_gps.vrs
//@include inc_walk.vrs
//@include inc_items.vrs
//@item src/exif/exif_exif.rs struct Exif
//@item src/exif/ifd.rs struct ParsedImageFileDirectory
//@item src/exif/ifd.rs struct ParsedIdfEntry
//@stub tags src/exif/tags.rs impl ExifTag :: code
//@stub tags src/exif/tags.rs impl TagOrCode :: tag
//@stub tags src/exif/tags.rs impl TagOrCode :: code
//@stub access src/values.rs impl EntryValue :: as_u32
//@stub ifd src/exif/exif_iter.rs impl IfdIter :: try_new
//@stub ifd src/exif/exif_iter.rs impl IfdIter :: tag_code
//@stub gps src/exif/exif_iter.rs impl IfdIter :: parse_gps_info
//@stub walk src/exif/exif_iter.rs impl IfdIndex :: as_usize
//@stub walk src/exif/exif_iter.rs impl ExifIter :: clone_rewound
//@stub walk src/exif/exif_iter.rs impl Iterator for ExifIter :: next
//@include fn_ifd_clone.vrs
//@item src/exif/exif_iter.rs const impl IfdIndex :: MAIN | fn ensures r.0 == 0 | sub `Self` => `IfdIndex`
/// `Option::flatten`
pub trait OptionO<T>: Sized { spec fn oo(self) -> Option<Option<T>>; fn v_flatten(self) -> (r: Option<T>) ensures r == (match self.oo() { Some(x) => x, None => None::<T> }); }
impl<T> OptionO<T> for Option<Option<T>> { open spec fn oo(self) -> Option<Option<T>> { self } fn v_flatten(self) -> (r: Option<T>) { match self { Some(x) => x, None => None } } }
pub proof fn gps_code() ensures tcode(ExifTag::GPSInfo) == 0x8825, forall|t: ExifTag| #[trigger] tcode(t) == 0x8825 <==> t == ExifTag::GPSInfo { reveal(tcode); }

// ---------------------------------------------------------------- entries
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: ifd
//@spec
    ensures res == self.ifd
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: tag
//@spec
    ensures res == self.tag
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: value
//@spec
    ensures match self.res { Ok(v) => res == Some(&v), Err(_) => res is None }
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: error
//@spec
    ensures match self.res { Ok(_) => res is None, Err(e) => res == Some(&e) }
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: result
//@spec
    ensures match self.res { Ok(v) => res == Ok::<&EntryValue, &EntryError>(&v), Err(e) => res == Err::<&EntryValue, &EntryError>(&e) }
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: into_result
//@spec
    ensures res == self.res
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: set_has_embedded_track
//@spec
    ensures *final(self) == (ExifIter { has_embedded_track: v, ..*old(self) })
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: has_embedded_track
//@spec
    ensures res == self.has_embedded_track
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: has_embedded_media
//@spec
    ensures res == self.has_embedded_track
//@end

// ---------------------------------------------------------------- GPS information of a source
pub ghost enum GpsR { Absent, Bad, Found(Option<GPSInfo>) }
/// the GPS directory is the one the first GPSInfo pointer names
pub open spec fn gps_ans(s: St) -> GpsR {
    match find_code(s, 0x8825).1 { None => GpsR::Absent, Some(i) => match i.en { Ent::Sub { off } => GpsR::Found(gps_info_of(sub_dir(i.x, off, i.x.idx, Some(0x8825u16)))), _ => GpsR::Bad } }
}
pub proof fn find_def(s: St, c: u16)
    requires st_wf(s),
    ensures match run(s) { (t, Some(i)) => less(t, s) && st_wf(t) && 0 <= t.cur <= t.blocks.len() && find_code(s, c) == (if i.code == c { (t, Some(i)) } else { find_code(t, c) }), (t, None) => find_code(s, c) == (t, None::<Item>) }
{ run_item(s); }
/// `Iterator::find`, for the entry with a given tag
impl ExifIter {
pub fn v_find<F: Fn(&ExifIterEntry) -> bool>(&mut self, p: F) -> (res: Option<ExifIterEntry>)
    requires old(self).wf(), forall|x: &ExifIterEntry| p.requires((x,)), forall|x: &ExifIterEntry, b: bool| tc_ok(x.tag) && p.ensures((x,), b) ==> b == (tc_code(x.tag) == 0x8825),
    ensures final(self).wf(), final(self).st() == find_code(old(self).st(), 0x8825).0, match find_code(old(self).st(), 0x8825).1 { Some(i) => res matches Some(r) && item_is(i, r), None => res is None }
{
    hide(run); hide(find_code); hide(st_wf); hide(room); hide(left); hide(res_is); hide(good);
    let ghost s0 = self.st();
    loop
        invariant self.wf(), s0 == old(self).st(), find_code(self.st(), 0x8825) == find_code(s0, 0x8825), forall|x: &ExifIterEntry| p.requires((x,)), forall|x: &ExifIterEntry, b: bool| tc_ok(x.tag) && p.ensures((x,), b) ==> b == (tc_code(x.tag) == 0x8825),
        decreases self.st().blocks.len() - self.st().cur, room(self.st()), left(self.st().stack)
    {
        proof { find_def(self.st(), 0x8825); wf_facts(self.st()); }
        let ghost s1 = self.st();
        match self.next() { None => { return None; } Some(x) => { if p(&x) { return Some(x); } } }
    }
}
}
/// what was found, and where
pub proof fn found_item(s: St)
    requires st_wf(s),
    ensures find_code(s, 0x8825).1 matches Some(i) ==> ({ let t = find_code(s, 0x8825).0; i.code == 0x8825 && st_wf(t) && dir_wf(i.x) && i.x.k < i.x.n && 0 <= i.x.idx <= 0x1_0000_0000 && dstep(i.x).1 == DRes::Ent(i.code, i.en)
            && t.stack.len() > 0 && (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..t.stack.last() }) == (Dir { idx: 0, code: None, off: 0, n: 0, k: 0, ..i.x }) })
    decreases s.blocks.len() - s.cur, room(s), left(s.stack)
{ run_item(s); if let (t, Some(i)) = run(s) { if i.code != 0x8825 { found_item(t); } } }
/// a 32-bit value under the GPSInfo tag is an offset no directory can be read at
pub proof fn no_dir(i: Item, r: ExifIterEntry)
    requires item_is(i, r), i.code == 0x8825, dir_wf(i.x), i.x.k < i.x.n, dstep(i.x).1 == DRes::Ent(i.code, i.en), !(i.en is Sub),
    ensures r.res matches Ok(EntryValue::U32(v)) ==> v == 0 || v >= i.x.d.len() || !dir_ok(i.x.d, i.x.e, v as int)
{ num_bounds(); }
pub proof fn sub_facts(i: Item)
    requires dir_wf(i.x), i.x.k < i.x.n, dstep(i.x).1 == DRes::Ent(i.code, i.en),
    ensures i.en matches Ent::Sub { off } ==> 0 < off < i.x.d.len() && dir_ok(i.x.d, i.x.e, off)
{ num_bounds(); }
//@fn src/error.rs impl From < EntryError > for Error :: from
//@wrap none
//@rename v_entry_err
//@subst `Self` => `Error`
//@subst `e.to_string()` => `vmsg()`
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: parse_gps
//@presubst `iter.find(` => `iter.v_find(`
//@presubst `EntryError::InvalidValue("invalid gps offset").into()` => `v_entry_err(EntryError::InvalidValue("invalid gps offset"))`
//@presubst `e.clone().into()` => `v_entry_err(e.clone())`
//@presubst `ifd.header.clone()` => `ifd.header`
//@presubst `ifd.tz.clone()` => `v_clone_tz(&ifd.tz)`
//@closure 0
|x: &ExifIterEntry| -> (o: bool) ensures tc_ok(x.tag) ==> o == (tc_code(x.tag) == 0x8825)
//@closure 1
|t: ExifTag| -> (o: bool) ensures o == (t == ExifTag::GPSInfo)
//@at start
    hide(res_is); hide(st_wf); hide(find_code); hide(dstep); hide(ent); hide(value_is); hide(gps_fold);
    proof { gps_code(); reveal(st_wf); found_item(self.init()); }
//@at before `let offset = match`
    let ghost i = find_code(self.init(), 0x8825).1->0; let ghost r0 = gps;
    proof { wf_facts(iter.st()); assert(iter.ifds@.len() > 0); assert(iter.ifds@.last().dir() == iter.st().stack.last()); if !(i.en is Sub) { no_dir(i, gps); } reveal(res_is); sub_facts(i); }
//@spec
    requires self.wf(),
    ensures match gps_ans(self.init()) { GpsR::Absent => res matches Ok(None), GpsR::Bad => res is Err, GpsR::Found(g) => res == Ok::<Option<GPSInfo>, Error>(g) }
//@end

// ---------------------------------------------------------------- the eager form
impl Exif {
    /// the value held for a directory and tag
    pub open spec fn val(&self, ifd: int, code: u16) -> Option<EntryValue> {
        if 0 <= ifd < self.ifds@.len() && self.ifds@[ifd].entries@.contains_key(code) { Some(self.ifds@[ifd].entries@[code].value) } else { None }
    }
}
//@fn src/exif/ifd.rs impl ParsedImageFileDirectory :: new
//@spec
    ensures res.entries@ == Map::<u16, ParsedIdfEntry>::empty()
//@end
//@fn src/exif/ifd.rs impl ParsedImageFileDirectory :: get
//@subst `self.entries.get(&tag).map(|x| &x.value)` => `match self.entries.get(&tag) { Some(x) => Some(&x.value), None => None }`
//@spec
    ensures match res { Some(v) => self.entries@.contains_key(tag) && self.entries@[tag].value == *v, None => !self.entries@.contains_key(tag) }
//@end
//@fn src/exif/ifd.rs impl ParsedImageFileDirectory :: put
//@spec
    ensures final(self).entries@ == old(self).entries@.insert(code, ParsedIdfEntry { value: v })
//@end
//@fn src/exif/exif_exif.rs impl Exif :: new
//@spec
    ensures res.ifds@.len() == 0, res.errors@.len() == 0, res.gps_info == gps_info, res.has_embedded_track == has_embedded_track
//@end
//@fn src/exif/exif_exif.rs impl Exif :: get
//@subst `IfdIndex::MAIN` => `MAIN()`
//@spec
    ensures match res { Some(v) => self.val(0, tcode(tag)) == Some(*v), None => self.val(0, tcode(tag)) is None }
//@end
//@fn src/exif/exif_exif.rs impl Exif :: get_in
//@spec
    ensures match res { Some(v) => self.val(ifd.0 as int, tcode(tag)) == Some(*v), None => self.val(ifd.0 as int, tcode(tag)) is None }
//@end
//@fn src/exif/exif_exif.rs impl Exif :: get_by_code
//@subst `self.ifds.get(ifd.as_usize()).and_then(|d| d.get(code))` => `match self.ifds.get(ifd.as_usize()) { Some(d) => d.get(code), None => None }`
//@spec
    ensures match res { Some(v) => self.val(ifd.0 as int, code) == Some(*v), None => self.val(ifd.0 as int, code) is None }
//@end
//@fn src/exif/exif_exif.rs impl Exif :: gps_info
//@spec
    ensures match self.gps_info { Some(g) => res == Some(&g), None => res is None }
//@end
//@fn src/exif/exif_exif.rs impl Exif :: has_embedded_track
//@spec
    ensures res == self.has_embedded_track
//@end
//@fn src/exif/exif_exif.rs impl Exif :: errors
//@spec
    ensures res@ == self.errors@
//@end
//@fn src/exif/exif_exif.rs impl Exif :: put_value
//@loop 0
    invariant ifd < usize::MAX, forall|i: int, c: u16| self.val(i, c) == #[trigger] old(self).val(i, c), self.errors == old(self).errors, self.gps_info == old(self).gps_info, self.has_embedded_track == old(self).has_embedded_track,
    decreases ifd + 1 - self.ifds@.len()
//@spec
    requires ifd < usize::MAX,
    ensures forall|i: int, c: u16| #[trigger] final(self).val(i, c) == (if i == ifd && c == code { Some(v) } else { old(self).val(i, c) }),
        final(self).errors == old(self).errors, final(self).gps_info == old(self).gps_info, final(self).has_embedded_track == old(self).has_embedded_track
//@end
pub open spec fn bad_ones(s: Seq<Item>) -> Seq<Item> decreases s.len() { if s.len() == 0 { s } else if good(s.last()) { bad_ones(s.drop_last()) } else { bad_ones(s.drop_last()).push(s.last()) } }
/// values and errors are those of the entries `s`, each under its directory and tag
pub open spec fn exif_is(s: Seq<Item>, x: Exif) -> bool {
    (forall|k: int| 0 <= k < s.len() && good(#[trigger] s[k]) ==> (x.val(s[k].x.idx, s[k].code) matches Some(v) && res_is(s[k], Ok(v))))
    && (forall|i: int, c: u16| (#[trigger] x.val(i, c)) is Some ==> exists|k: int| 0 <= k < s.len() && good(#[trigger] s[k]) && s[k].x.idx == i && s[k].code == c)
    && x.errors@.len() == bad_ones(s).len()
    && (forall|k: int| 0 <= k < x.errors@.len() ==> err_is(bad_ones(s)[k], #[trigger] x.errors@[k]))
}
pub open spec fn err_is(i: Item, e: (IfdIndex, TagOrCode, EntryError)) -> bool { e.0.0 == i.x.idx && tc_ok(e.1) && tc_code(e.1) == i.code && res_is(i, Err(e.2)) }
pub open spec fn once(s: Seq<Item>) -> bool {
    (forall|j: int, k: int| 0 <= j < k < s.len() && good(#[trigger] s[j]) && good(#[trigger] s[k]) ==> key_of(s[j]) != key_of(s[k]))
    && (forall|k: int| 0 <= k < s.len() ==> 0 <= (#[trigger] s[k]).x.idx <= 0x1_0000_0000)
}
pub proof fn put_item(s: Seq<Item>, i: Item, r: ExifIterEntry, a: Exif, b: Exif)
    requires exif_is(s, a), once(s.push(i)), item_is(i, r), r.res is Ok == good(i),
        r.res matches Ok(v) ==> b.errors == a.errors && forall|d: int, c: u16| #[trigger] b.val(d, c) == (if d == i.x.idx && c == i.code { Some(v) } else { a.val(d, c) }),
        r.res matches Err(e) ==> b.errors@ == a.errors@.push((r.ifd, r.tag, e)) && b.ifds == a.ifds,
    ensures exif_is(s.push(i), b)
{
    let t = s.push(i);
    assert(t.drop_last() =~= s);
    assert(t.last() == i);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] t[k] == s[k] by {}
    assert forall|d: int, c: u16| #[trigger] b.val(d, c) == (if d == i.x.idx && c == i.code && r.res is Ok { Some(r.res->Ok_0) } else { a.val(d, c) }) by {}
    assert forall|k: int| 0 <= k < t.len() && good(#[trigger] t[k]) implies (b.val(t[k].x.idx, t[k].code) matches Some(v) && res_is(t[k], Ok(v))) by {
        if k < s.len() { assert(t[k] == s[k]); if good(i) { assert(key_of(t[k]) != key_of(t[s.len() as int])); assert(t[s.len() as int].x.idx <= 0x1_0000_0000); } }
    }
    assert forall|d: int, c: u16| (#[trigger] b.val(d, c)) is Some implies exists|k: int| 0 <= k < t.len() && good(#[trigger] t[k]) && t[k].x.idx == d && t[k].code == c by {
        if d == i.x.idx && c == i.code && r.res is Ok { assert(good(t[s.len() as int])); }
        else { let k = choose|k: int| 0 <= k < s.len() && good(#[trigger] s[k]) && s[k].x.idx == d && s[k].code == c; assert(good(t[k])); }
    }
}
pub proof fn res_good(i: Item, r: Result<EntryValue, EntryError>) requires res_is(i, r), ensures r is Ok == good(i) { if let Ent::Val { f, n, data } = i.en { val_ok_is(i.x.e, i.code, f, n, data, i.x.tz, r); } }
pub proof fn items_def(s: St)
    requires st_wf(s),
    ensures match run(s) { (t, Some(i)) => items(s) == seq![i] + items(t) && less(t, s) && st_wf(t) && i.x.idx <= 0x1_0000_0000, (_, None) => items(s) == Seq::<Item>::empty() }
{ run_item(s); }
//@fn src/exif/exif_exif.rs impl From < ExifIter > for Exif :: from
//@wrap none
//@rename exif_from
//@subst `.flatten()` => `.v_flatten()`
//@subst `Self` => `Exif`
//@presubst `for entry in iter {` => `let mut iter = iter; loop { let Some(entry) = iter.next() else { break; };`
//@at start
    hide(items); hide(run); hide(res_is); hide(st_wf); hide(exif_is); hide(once); hide(room); hide(left); hide(gps_ans); hide(good);
//@at before `loop {`
    let ghost all = items(iter.st()); let ghost mut done: Seq<Item> = seq![]; let ghost g = exif.gps_info;
    proof { reveal(exif_is); reveal(once); items_once(iter.st()); assert(exif_is(done, exif)); assert(done + items(iter.st()) =~= all); }
//@loop 0
    invariant_except_break all == done + items(iter.st()),
    invariant iter.wf(), once(all), exif_is(done, exif), exif.gps_info == g, exif.has_embedded_track == has_embedded_track,
    ensures all == done,
    decreases iter.st().blocks.len() - iter.st().cur, room(iter.st()), left(iter.st().stack)
//@at loop 0 start
    let ghost s1 = iter.st(); let ghost x0 = exif;
    proof { wf_facts(s1); items_def(s1); if items(s1).len() == 0 { assert(done + items(s1) =~= done); } }
//@at before `let ifd = entry.ifd();`
    let ghost i = run(s1).1->0; let ghost e0 = entry;
    proof { assert(items(s1) == seq![i] + items(iter.st())); assert(done + items(s1) =~= done.push(i) + items(iter.st())); res_good(i, entry.res); assert(once(done.push(i))) by { reveal(once); assert forall|k: int| 0 <= k < done.push(i).len() implies #[trigger] done.push(i)[k] == all[k] by {} } }
//@at loop 0 end
    proof { wf_facts(iter.st()); put_item(done, i, e0, x0, exif); done = done.push(i); }
//@spec
    requires iter.wf(),
    ensures exif_is(items(iter.st()), res), res.has_embedded_track == iter.has_embedded_track, res.gps_info == (match gps_ans(iter.init()) { GpsR::Found(g) => g, _ => None::<GPSInfo> })
//@end
} // verus!
fn main() {}
