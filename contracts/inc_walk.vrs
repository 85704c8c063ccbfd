//@item src/exif/exif_iter.rs struct TiffDataBlock
//@item src/exif/exif_iter.rs struct ExifIter
//@item src/exif/exif_iter.rs struct ExifIterEntry
//@item src/exif/exif_iter.rs const MAX_IFD_DEPTH

// ---------------------------------------------------------------- the walk over all directories
pub ghost struct Blk { pub d: Seq<u8>, pub h: Option<(Endianness, int)> }
pub ghost struct St { pub stack: Seq<Dir>, pub vis: Set<usize>, pub seen: Set<(usize, u16)>, pub cur: int, pub blocks: Seq<Blk> }
/// one yielded entry
pub ghost struct Item { pub x: Dir, pub code: u16, pub en: Ent }

/// whether an entry's bytes denote a value (the other case is an error)
pub open spec fn val_ok(tag: u16, f: DataFormat, n: u32, d: Seq<u8>, tz: Option<Seq<char>>) -> bool {
    if n == 0 { false }
    else if is_date_tag(tag) { (tz is Some && aware_of(text_of(d) + seq![' '] + tz_fixed(tz->0)) is Some) || naive_of(text_of(d)) is Some }
    else { match f { DataFormat::I8 | DataFormat::I16 | DataFormat::I32 | DataFormat::F32 | DataFormat::F64 => n == 1, _ => true } }
}
pub proof fn val_ok_is(e: Endianness, tag: u16, f: DataFormat, n: u32, d: Seq<u8>, tz: Option<Seq<char>>, r: Result<EntryValue, EntryError>)
    requires value_is(e, tag, f, n, d, tz, r),
    ensures r is Ok == val_ok(tag, f, n, d, tz)
{}
pub open spec fn ent_good(x: Dir, code: u16, en: Ent) -> bool { match en { Ent::Sub { off } => true, Ent::Val { f, n, data } => val_ok(code, f, n, data, x.tz), _ => false } }

/// where a TIFF block starts to be read
pub open spec fn open_block(b: Blk) -> Option<Dir> {
    let h = match b.h { Some(h) => HdrR::Ok(h.0, h.1), None => tiff_hdr(b.d) };
    match h { HdrR::Ok(e, o) => if o <= b.d.len() && dir_ok(b.d, e, o) {
            let x = Dir { idx: 0, code: None, d: b.d, e, h0: o, tz: None, off: o, n: s16(e, b.d.skip(o)), k: 0 };
            Some(Dir { tz: tz_of(x), ..x })
        } else { None }, _ => None }
}
pub ghost enum Tr { Done, Go(St), Yield(St, Item) }
/// enters directory `y`, if it was not entered before, coming from `rest`
pub open spec fn tstep(s: St) -> Tr {
    if s.stack.len() == 0 {
        if s.cur >= s.blocks.len() { Tr::Done }
        else { match open_block(s.blocks[s.cur]) {
            Some(x) => Tr::Go(St { stack: seq![x], vis: Set::empty(), cur: s.cur + 1, ..s }),
            None => Tr::Go(St { cur: s.cur + 1, ..s }) } }
    } else { enter(s, cut(s.stack).last(), cut(s.stack).drop_last()) }
}
/// directories nested more than eight deep are left at once
pub open spec fn cut(stack: Seq<Dir>) -> Seq<Dir> { if stack.len() > 8 { stack.take(1) } else { stack } }
/// one step of the innermost directory `x`; `rest` are the ones around it
pub open spec fn enter(s: St, x: Dir, rest: Seq<Dir>) -> Tr {
    let y = dstep(x).0;
    match dstep(x).1 {
        DRes::End => Tr::Go(St { stack: rest, ..s }),
        // no directory is entered twice
        DRes::Next(o) => if s.vis.contains(o as usize) { Tr::Go(St { stack: rest, ..s }) }
            else { Tr::Go(St { stack: rest.push(sub_dir(x, o, x.idx + 1, None)), vis: s.vis.insert(o as usize), ..s }) },
        DRes::Ent(code, en) => {
            let key = (x.idx as usize, code);
            match en {
                Ent::Sub { off } => if s.vis.contains(off as usize) { Tr::Go(St { stack: rest.push(y), ..s }) }
                    else { let s2 = St { stack: rest.push(y).push(sub_dir(x, off, x.idx, Some(code))), vis: s.vis.insert(off as usize), ..s };
                        if s.seen.contains(key) { Tr::Go(s2) } else { Tr::Yield(St { seen: s.seen.insert(key), ..s2 }, Item { x, code, en }) } },
                _ => { let s2 = St { stack: rest.push(y), ..s };
                    if s.seen.contains(key) { Tr::Go(s2) }
                    else if ent_good(x, code, en) { Tr::Yield(St { seen: s.seen.insert(key), ..s2 }, Item { x, code, en }) }
                    else { Tr::Yield(s2, Item { x, code, en }) } },
            }
        }
    }
}
pub open spec fn left(stack: Seq<Dir>) -> nat decreases stack.len() { if stack.len() == 0 { 0 } else { left(stack.drop_last()) + (stack.last().n + 2 - stack.last().k) as nat } }
pub open spec fn dir_small(x: Dir, vis: Set<usize>) -> bool { dir_wf(x) && 0 <= x.idx <= vis.len() }
pub open spec fn st_wf(s: St) -> bool {
    s.vis.finite() && (forall|o: usize| #[trigger] s.vis.contains(o) ==> o <= 0xffff_ffff)
    && (forall|i: int| 0 <= i < s.stack.len() ==> dir_small(#[trigger] s.stack[i], s.vis)) && 0 <= s.cur <= s.blocks.len()
    && (forall|i: int| 0 <= i < s.blocks.len() ==> ((#[trigger] s.blocks[i]).h matches Some(h) ==> h.0 !is Native && 0 <= h.1))
}
pub open spec fn room(s: St) -> nat { (0x1_0000_0000 - s.vis.len()) as nat }
/// the next entry, and the state behind it
pub open spec fn run(s: St) -> (St, Option<Item>)
    decreases s.blocks.len() - s.cur, room(s), left(s.stack) via run_ends
{
    if !st_wf(s) { arbitrary() } else { match tstep(s) { Tr::Done => (s, None), Tr::Yield(s2, i) => (s2, Some(i)), Tr::Go(s2) => run(s2) } }
}
#[via_fn]
proof fn run_ends(s: St) { if st_wf(s) { if let Tr::Go(s2) = tstep(s) { step_wf(s); } } }

pub proof fn vis_bound(vis: Set<usize>)
    requires vis.finite(), forall|o: usize| #[trigger] vis.contains(o) ==> o <= 0xffff_ffff,
    ensures vis.len() <= 0x1_0000_0000, forall|o: usize| o <= 0xffff_ffff && !#[trigger] vis.contains(o) ==> vis.len() < 0x1_0000_0000
{
    let m = vis.map(|o: usize| o as int);
    let r = vstd::set_lib::set_int_range(0, 0x1_0000_0000);
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000);
    assert(m.subset_of(r));
    vstd::set_lib::lemma_map_size(vis, m, |o: usize| o as int);
    vstd::set_lib::lemma_len_subset(m, r);
    assert forall|o: usize| o <= 0xffff_ffff && !#[trigger] vis.contains(o) implies vis.len() < 0x1_0000_0000 by {
        assert(!m.contains(o as int));
        assert(m.subset_of(r.remove(o as int)));
        vstd::set_lib::lemma_len_subset(m, r.remove(o as int));
    }
}
pub proof fn left_push(s: Seq<Dir>, x: Dir) ensures left(s.push(x)) == left(s) + (x.n + 2 - x.k) as nat { assert(s.push(x).drop_last() =~= s); }
pub proof fn left_take(s: Seq<Dir>) requires s.len() > 0, ensures left(s.take(1)) <= left(s) decreases s.len() {
    if s.len() > 1 { left_take(s.drop_last()); assert(s.drop_last().take(1) =~= s.take(1)); } else { assert(s.take(1) =~= s); }
}
pub proof fn dstep_wf(x: Dir)
    requires dir_wf(x),
    ensures dir_wf(dstep(x).0) || x.k > x.n, x.k <= x.n ==> dstep(x).0 == (Dir { k: x.k + 1, ..x }),
        dstep(x).1 matches DRes::Next(o) ==> 0 <= o <= 0xffff_ffff && dir_ok(x.d, x.e, o) && x.k == x.n,
        dstep(x).1 matches DRes::Ent(c, Ent::Sub { off }) ==> 0 <= off <= 0xffff_ffff && dir_ok(x.d, x.e, off),
        dstep(x).1 is Ent ==> x.k < x.n,
{ num_bounds(); }
pub proof fn step_wf(s: St)
    requires st_wf(s),
    ensures match tstep(s) { Tr::Done => true,
        Tr::Go(s2) => st_wf(s2) && (s2.blocks.len() - s2.cur < s.blocks.len() - s.cur || (s2.blocks.len() - s2.cur == s.blocks.len() - s.cur && (room(s2) < room(s) || (room(s2) == room(s) && left(s2.stack) < left(s.stack))))) && s2.blocks == s.blocks,
        Tr::Yield(s2, i) => st_wf(s2) && s2.blocks == s.blocks && s2.blocks.len() - s2.cur == s.blocks.len() - s.cur && (room(s2) < room(s) || (room(s2) == room(s) && left(s2.stack) < left(s.stack))) }
{
    vis_bound(s.vis);
    num_bounds();
    if s.stack.len() > 0 {
        let stack = cut(s.stack);
        let x = stack.last(); let rest = stack.drop_last(); let y = dstep(x).0;
        assert(dir_small(x, s.vis)) by { if s.stack.len() > 8 { assert(x == s.stack[0]); } else { assert(x == s.stack[s.stack.len() - 1]); } }
        dstep_wf(x);
        left_take(s.stack);
        assert(left(stack) <= left(s.stack));
        assert(left(rest) < left(stack));
        left_push(rest, y);
        assert forall|i: int| 0 <= i < rest.len() implies dir_small(#[trigger] rest[i], s.vis) by { assert(rest[i] == s.stack[i]); }
        match dstep(x).1 {
            DRes::End => {}
            DRes::Next(o) => { let z = sub_dir(x, o, x.idx + 1, None); left_push(rest, z); assert(x.idx <= s.vis.len()); vis_bound(s.vis.insert(o as usize)); }
            DRes::Ent(code, en) => { match en { Ent::Sub { off } => { vis_bound(s.vis.insert(off as usize)); } _ => {} } }
        }
    } else if s.cur < s.blocks.len() {
        match open_block(s.blocks[s.cur]) { Some(x) => { num_bounds(); assert(seq![x][0] == x); } None => {} }
    }
}
/// reading blocks until one opens
pub open spec fn load(s: St) -> St decreases s.blocks.len() - s.cur {
    if s.cur >= s.blocks.len() { s } else { match open_block(s.blocks[s.cur]) { Some(x) => St { stack: seq![x], vis: Set::empty(), cur: s.cur + 1, ..s }, None => load(St { cur: s.cur + 1, ..s }) } }
}
pub proof fn load_run(s: St)
    requires st_wf(s), s.stack.len() == 0,
    ensures run(s) == run(load(s)), st_wf(load(s)), load(s).blocks == s.blocks, load(s).stack.len() > 0 || tstep(load(s)) is Done
    decreases s.blocks.len() - s.cur
{ step_wf(s); if s.cur < s.blocks.len() { if open_block(s.blocks[s.cur]) is None { load_run(St { cur: s.cur + 1, ..s }); } } }

pub open spec fn less(t: St, s: St) -> bool { t.blocks.len() - t.cur < s.blocks.len() - s.cur || (t.blocks.len() - t.cur == s.blocks.len() - s.cur && (room(t) < room(s) || (room(t) == room(s) && left(t.stack) < left(s.stack)))) }
pub proof fn run_step(s: St)
    requires st_wf(s),
    ensures match tstep(s) { Tr::Done => run(s) == (s, None::<Item>), Tr::Go(t) => run(s) == run(t) && st_wf(t) && less(t, s), Tr::Yield(t, i) => run(s) == (t, Some(i)) && st_wf(t) }
{ step_wf(s); }
pub proof fn load_less(s: St)
    requires s.stack.len() == 0,
    ensures load(s).stack.len() > 0 ==> load(s).cur > s.cur, load(s).cur >= s.cur,
    decreases s.blocks.len() - s.cur
{ if s.cur < s.blocks.len() && open_block(s.blocks[s.cur]) is None { load_less(St { cur: s.cur + 1, ..s }); } }
pub open spec fn blk_of(b: TiffDataBlock) -> Blk { Blk { d: b.data@, h: match b.header { Some(h) => Some((h.endian, h.ifd0_offset as int)), None => None } } }
impl ExifIter {
    /// what is left to be read
    pub open spec fn st(&self) -> St { St { stack: self.ifds@.map_values(|i: IfdIter| i.dir()), vis: self.visited_offsets@, seen: self.encountered_tags@, cur: self.current_block_index as int, blocks: self.additional_blocks@.map_values(|b: TiffDataBlock| blk_of(b)) } }
    /// the state a fresh parse starts in
    pub open spec fn init(&self) -> St { St { stack: seq![Dir { k: 0, ..self.ifd0.dir() }], vis: Set::empty(), seen: Set::empty(), cur: 0, blocks: self.st().blocks } }
    pub open spec fn wf(&self) -> bool {
        self.ifd0.wf() && self.ifd0.dir().idx == 0 && st_wf(self.st()) && (forall|i: int| 0 <= i < self.ifds@.len() ==> (#[trigger] self.ifds@[i]).wf())
    }
}
pub open spec fn res_is(i: Item, r: Result<EntryValue, EntryError>) -> bool {
    match i.en {
        Ent::Stop => false,
        Ent::Sub { off } => r matches Ok(EntryValue::U32(v)) && v == off,
        Ent::BadFmt { format, n } => r matches Err(EntryError::InvalidShape { format: f2, count }) && f2 == format && count == n,
        Ent::Short { needed, available } => r matches Err(EntryError::Truncated { needed: n2, available: a2 }) && n2 == needed && a2 == available,
        Ent::Val { f, n, data } => value_is(i.x.e, i.code, f, n, data, i.x.tz, r),
    }
}
pub open spec fn item_is(i: Item, r: ExifIterEntry) -> bool { r.ifd.0 == i.x.idx && tc_ok(r.tag) && tc_code(r.tag) == i.code && res_is(i, r.res) }
pub proof fn tstep_def(s: St) ensures s.stack.len() > 0 ==> tstep(s) == enter(s, cut(s.stack).last(), cut(s.stack).drop_last()), s.stack.len() == 0 && s.cur >= s.blocks.len() ==> tstep(s) is Done {}
pub proof fn wf_facts(s: St) ensures st_wf(s) ==> s.vis.finite() && (forall|o: usize| #[trigger] s.vis.contains(o) ==> o <= 0xffff_ffff) && (forall|i: int| 0 <= i < s.stack.len() ==> dir_small(#[trigger] s.stack[i], s.vis)) && 0 <= s.cur <= s.blocks.len() {}
