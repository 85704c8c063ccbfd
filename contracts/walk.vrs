#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
//@include nom.rs
//@include common.rs
//@include bytes.rs
//@include hashset.rs
use nom::{IResult, Parser, Needed, is_inc, is_error, is_failure, s16be, s16, s32, s64, s32be, s32le, s16le, s64be, s64le, number::Endianness};
verus! {
global size_of usize == 8;
broadcast use seq_slices;
//@bconsts
//@include inc_tags.vrs
//@include inc_values.vrs
//@include inc_ifd.vrs
//@include inc_walk.vrs
//@stub tags src/exif/tags.rs impl TagOrCode :: code
//@stub ifd src/exif/exif_exif.rs impl TiffHeader :: parse
//@stub ifd src/exif/exif_iter.rs impl IfdIter :: clone_and_rewind
//@stub ifd src/exif/exif_iter.rs impl IfdIter :: try_new
//@stub ifd src/exif/exif_iter.rs impl IfdIter :: find_tz_offset
//@stub ifd src/exif/exif_iter.rs impl Iterator for IfdIter :: next
//@stub ifd src/error.rs nom_err_to_malformed
//@include fn_ifd_clone.vrs
impl Clone for TiffDataBlock { fn clone(&self) -> (r: TiffDataBlock) ensures blk_of(r) == blk_of(*self) { TiffDataBlock { block_id: self.block_id.clone(), data: self.data.clone(), header: self.header } } }
pub fn v_clone_blocks(v: &Vec<TiffDataBlock>) -> (r: Vec<TiffDataBlock>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> blk_of(#[trigger] r@[i]) == blk_of(v@[i])
{
    let mut r: Vec<TiffDataBlock> = Vec::new(); let mut k: usize = 0;
    while k < v.len() invariant k <= v@.len(), r@.len() == k, forall|i: int| 0 <= i < k ==> blk_of(#[trigger] r@[i]) == blk_of(v@[i]), decreases v@.len() - k { r.push(v[k].clone()); k += 1; }
    r
}
//@fn src/exif/exif_iter.rs impl IfdIndex :: new
//@spec
    ensures res.0 == index
//@end
//@fn src/exif/exif_iter.rs impl IfdIndex :: as_usize
//@spec
    ensures res == self.0
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: make_ok
//@spec
    ensures res.ifd.0 == ifd, res.tag == tag, res.res == Ok::<EntryValue, EntryError>(v)
//@end
//@fn src/exif/exif_iter.rs impl ExifIterEntry :: make_err
//@spec
    ensures res.ifd.0 == ifd, res.tag == tag, res.res == Err::<EntryValue, EntryError>(e)
//@end
//@fn src/exif/exif_iter.rs input_into_iter
//@sig fn input_into_iter(input: Bytes, state: Option<TiffHeader>) -> (res: CResult<ExifIter>)
//@presubst `let input: bytes::Bytes = input.into();` => ``
//@subst `&input[..]` => `input.sl()`
//@subst `header.to_owned()` => `header`
//@subst `tz.clone()` => `v_clone_tz(&tz)`
//@closure 0
|e: nom::Err<nom::error::Error<&[u8]>>| -> (o: Error) ensures o is Malformed
//@at start
    let ghost blk = Blk { d: input@, h: match state { Some(h) => Some((h.endian, h.ifd0_offset as int)), None => None } };
//@spec
    requires state matches Some(h) ==> h.endian !is Native,
    ensures ({
        let blk = Blk { d: input@, h: match state { Some(h) => Some((h.endian, h.ifd0_offset as int)), None => None } };
        match open_block(blk) {
            Some(x) => res matches Ok(it) && it.wf() && it.ifd0.dir() == x && it.st() == it.init() && it.st().blocks.len() == 0 && !it.has_embedded_track,
            None => res is Err && (state is None && tiff_hdr(input@) !is Ok ==> res->Err_0 is Malformed),
        } })
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: new
//@subst? `bytes::Bytes` => `Bytes`
//@at before `ExifIter {`
    { let r =
//@at after `has_embedded_track: false,}`
    ; proof { assert(r.st().stack =~= r.init().stack); assert(r.st().blocks =~= Seq::<Blk>::empty()); } r }
//@spec
    requires ifd0.wf(), ifd0.index == 0, ifd0.ifd_idx == 0,
    ensures res.wf(), res.ifd0.dir() == ifd0.dir(), res.st() == res.init(), res.st().blocks.len() == 0, !res.has_embedded_track
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: clone_rewound
//@at before `Self {`
    { let r =
//@at after `has_embedded_track: self.has_embedded_track,}`
    ; proof { assert(r.st().blocks =~= self.st().blocks); assert(r.st().stack =~= self.init().stack); } r }
//@subst `self.tiff_header.clone()` => `self.tiff_header`
//@subst `self.tz.clone()` => `v_clone_tz(&self.tz)`
//@subst `self.additional_blocks.clone()` => `v_clone_blocks(&self.additional_blocks)`
//@spec
    requires self.wf(),
    ensures res.wf(), res.st() == self.init(), res.init() == self.init(), res.has_embedded_track == self.has_embedded_track
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: rewind
//@at after `self.encountered_tags.clear();`
    proof { assert(self.st().stack =~= old(self).init().stack); assert(self.init().stack =~= old(self).init().stack); }
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).st() == old(self).init(), final(self).init() == old(self).init(), final(self).has_embedded_track == old(self).has_embedded_track
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: add_tiff_block
//@at after `self.additional_blocks.push(TiffDataBlock { block_id, data, header, });`
    proof { let b = Blk { d: data@, h: match header { Some(h) => Some((h.endian, h.ifd0_offset as int)), None => None } }; let o = old(self).st().blocks; assert(self.st().blocks =~= o.push(b)); assert(self.st().stack =~= old(self).st().stack);
        assert forall|i: int| 0 <= i < self.st().blocks.len() implies ((#[trigger] self.st().blocks[i]).h matches Some(h) ==> h.0 !is Native && 0 <= h.1) by { if i < o.len() { assert(self.st().blocks[i] == o[i]); } } }
//@subst? `bytes::Bytes` => `Bytes`
//@spec
    requires old(self).wf(), header matches Some(h) ==> h.endian !is Native,
    ensures final(self).wf(), final(self).st() == (St { blocks: old(self).st().blocks.push(Blk { d: data@, h: match header { Some(h) => Some((h.endian, h.ifd0_offset as int)), None => None } }), ..old(self).st() }), final(self).ifd0 == old(self).ifd0, final(self).has_embedded_track == old(self).has_embedded_track
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: load_next_block
//@at start
    let ghost s0 = self.st();
    proof { if s0.cur < s0.blocks.len() { assert(s0.blocks[s0.cur] == blk_of(self.additional_blocks@[self.current_block_index as int])); } step_wf(s0); }
//@at before `true`
    proof { let t = load(s0); assert(self.st().stack =~= t.stack); assert(self.st().seen =~= t.seen); assert(self.st().vis =~= t.vis); assert(self.st() == t); }
//@at before `self.load_next_block()`
    proof { assert(self.st().stack =~= s0.stack); assert(self.st() == (St { cur: s0.cur + 1, ..s0 })); }
//@subst `block.header.clone()` => `block.header`
//@spec
    requires old(self).wf(), old(self).ifds@.len() == 0,
    ensures final(self).wf(), final(self).st() == load(old(self).st()), res == (final(self).ifds@.len() > 0), final(self).init() == old(self).init(), final(self).has_embedded_track == old(self).has_embedded_track
    decreases old(self).additional_blocks@.len() - old(self).current_block_index
//@end
//@fn src/exif/exif_iter.rs impl ExifIter :: should_include_tag
//@spec
    ensures res == !old(self).encountered_tags@.contains((ifd_index, tag_code)), final(self).encountered_tags@ == old(self).encountered_tags@.insert((ifd_index, tag_code)),
        *final(self) == (ExifIter { encountered_tags: final(self).encountered_tags, ..*old(self) })
//@end
//@fn src/exif/exif_iter.rs impl Iterator for ExifIter :: next
//@wrap impl ExifIter
//@sig fn next(&mut self) -> (res: Option<ExifIterEntry>)
//@presubst? `None => continue,` => `None => { continue; }`
//@at start
    hide(value_is); hide(val_ok); hide(ent); hide(dir_ok); hide(load); hide(tstep); hide(run); hide(dstep); hide(left); hide(st_wf); hide(room); hide(blk_of); hide(dir_wf); hide(at); hide(is_gps);
    proof { wf_facts(self.st()); }
//@loop 0
    invariant self.wf(), run(self.st()) == run(old(self).st()), self.init() == old(self).init(), self.has_embedded_track == old(self).has_embedded_track,
    decreases self.st().blocks.len() - self.st().cur, room(self.st()), left(self.st().stack)
//@at loop 0 start
    let ghost s0 = self.st();
    proof { wf_facts(s0); vis_bound(self.visited_offsets@); run_step(s0); if s0.stack.len() == 0 { load_run(s0); load_less(s0); tstep_def(s0); run_step(load(s0)); wf_facts(load(s0)); } }
//@at after `let mut ifd = self.ifds.pop()?;`
    let ghost x = ifd.dir(); let ghost rest = self.st().stack; let ghost s1 = self.st();
    proof { tstep_def(s0); assert(rest =~= cut(s0.stack).drop_last()); assert(x == cut(s0.stack).last()); assert(tstep(s0) == enter(s0, x, rest)); assert(dir_small(x, s0.vis)); dstep_wf(x);
        assert(forall|i: int| 0 <= i < self.ifds@.len() ==> (#[trigger] self.ifds@[i]).wf()); }
//@at before all `continue;`
    proof { if s0.stack.len() > 0 { if let Tr::Go(t) = tstep(s0) { assert(self.st().stack =~= t.stack); assert(self.st().seen =~= t.seen); assert(self.st().vis =~= t.vis); assert(self.st() == t); } } }
//@at loop 0 end
    proof { if let Tr::Go(t) = tstep(s0) { assert(self.st().stack =~= t.stack); assert(self.st().seen =~= t.seen); assert(self.st().vis =~= t.vis); assert(self.st() == t); } }
//@at before all `return Some(`
    proof { if let Tr::Yield(t, i) = tstep(s0) { assert(self.st().stack =~= t.stack); assert(self.st().seen =~= t.seen); assert(self.st().vis =~= t.vis); assert(self.st() == t); } }
//@at before all `return res;`
    proof { if let Tr::Yield(t, i) = tstep(s0) { assert(self.st().stack =~= t.stack); assert(self.st().seen =~= t.seen); assert(self.st().vis =~= t.vis); assert(self.st() == t); } }
//@at after `IfdEntry::Entry(v) => {`
    proof { if let DRes::Ent(c, Ent::Val { f, n, data }) = dstep(x).1 { val_ok_is(x.e, c, f, n, data, x.tz, Ok(v)); } }
//@at after `IfdEntry::Err(e) => {`
    proof { if let DRes::Ent(c, Ent::Val { f, n, data }) = dstep(x).1 { val_ok_is(x.e, c, f, n, data, x.tz, Err(e)); } }
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).init() == old(self).init(), final(self).has_embedded_track == old(self).has_embedded_track,
        final(self).st() == run(old(self).st()).0, match run(old(self).st()).1 { Some(i) => res matches Some(r) && item_is(i, r), None => res is None }
//@end
} // verus!
fn main() {}
