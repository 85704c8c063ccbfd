// ---------------------------------------------------------------- types
//@include inc_err.vrs
//@include inc_tiff.vrs
//@item src/exif/exif_exif.rs const IFD_ENTRY_SIZE
//@item src/exif/exif_iter.rs struct IfdIndex | derive(Clone, Copy)
//@item src/exif/exif_iter.rs struct IfdIter
//@item src/exif/exif_iter.rs enum IfdEntry

// ---------------------------------------------------------------- what a TIFF block says (TIFF 6.0 / Exif)
pub open spec fn tc_code(t: TagOrCode) -> u16 { match t { TagOrCode::Tag(t) => tcode(t), TagOrCode::Unknown(c) => c } }
/// a code that is in the tag table is held as the tag
pub open spec fn tc_ok(t: TagOrCode) -> bool { match t { TagOrCode::Tag(_) => true, TagOrCode::Unknown(c) => forall|t: ExifTag| #[trigger] tcode(t) != c } }

/// a directory at `o` lies wholly inside the block
pub open spec fn dir_ok(d: Seq<u8>, e: Endianness, o: int) -> bool { o + 2 <= d.len() && o + 2 + 12 * s16(e, d.skip(o)) <= d.len() }
/// one entry
pub ghost enum Ent { Stop, BadFmt { format: u16, n: u32 }, Short { needed: int, available: int }, Sub { off: int }, Val { f: DataFormat, n: u32, data: Seq<u8> } }
pub open spec fn ent(d: Seq<u8>, e: Endianness, gps: bool, p: int) -> Ent {
    let tag = s16(e, d.skip(p)) as u16; let fmt = s16(e, d.skip(p + 2)) as u16; let n = s32(e, d.skip(p + 4)) as u32; let vo = s32(e, d.skip(p + 8));
    if tag == 0 && !gps { Ent::Stop }
    else { match fmt_of(fmt) {
        None => Ent::BadFmt { format: fmt, n },
        Some(f) => { let size = n * comp_size(f);
            if size > 4 && vo + size > d.len() { Ent::Short { needed: size, available: if d.len() > vo { d.len() - vo } else { 0 } } }
            else if (tag == 0x8769 || tag == 0x8825) && 0 < vo < d.len() && dir_ok(d, e, vo) { Ent::Sub { off: vo } }
            else { Ent::Val { f, n, data: if size <= 4 { d.subrange(p + 8, p + 8 + size) } else { d.subrange(vo, vo + size) } } } }
    } }
}
/// a directory being read: `k` entries have been taken
pub ghost struct Dir { pub idx: int, pub code: Option<u16>, pub d: Seq<u8>, pub e: Endianness, pub h0: int, pub tz: Option<Seq<char>>, pub off: int, pub n: int, pub k: int }
pub open spec fn dir_wf(x: Dir) -> bool { x.e !is Native && 0 <= x.off && dir_ok(x.d, x.e, x.off) && x.n == s16(x.e, x.d.skip(x.off)) && 0 <= x.k <= x.n + 1 }
pub open spec fn is_gps(x: Dir) -> bool { x.code == Some(0x8825u16) }
pub open spec fn at(x: Dir, k: int) -> int { x.off + 2 + 12 * k }
pub ghost enum DRes { End, Next(int), Ent(u16, Ent) }
/// one step of a directory
pub open spec fn dstep(x: Dir) -> (Dir, DRes) {
    let y = Dir { k: x.k + 1, ..x }; let p = at(x, x.k);
    if x.k > x.n { (x, DRes::End) }
    else if x.k == x.n {
        (y, if p + 4 > x.d.len() { DRes::End } else { let o = s32(x.e, x.d.skip(p)); if o != 0 && o < x.d.len() && dir_ok(x.d, x.e, o) { DRes::Next(o) } else { DRes::End } })
    } else {
        (y, match ent(x.d, x.e, is_gps(x), p) { Ent::Stop => DRes::End, en => DRes::Ent(s16(x.e, x.d.skip(p)) as u16, en) })
    }
}
pub open spec fn sub_dir(x: Dir, o: int, idx: int, code: Option<u16>) -> Dir { Dir { idx, code, off: o, n: s16(x.e, x.d.skip(o)), k: 0, ..x } }

impl IfdIter {
    pub open spec fn dir(&self) -> Dir {
        Dir { idx: self.ifd_idx as int, code: match self.tag_code { Some(t) => Some(tc_code(t)), None => None }, d: self.input@, e: self.header.endian, h0: self.header.ifd0_offset as int, tz: tz_view(self.tz), off: self.offset as int, n: self.entry_num as int, k: self.index as int }
    }
    pub open spec fn wf(&self) -> bool {
        dir_wf(self.dir()) && self.pos == at(self.dir(), if self.index <= self.entry_num { self.index as int } else { self.entry_num as int })
        && (self.tag_code matches Some(t) ==> tc_ok(t))
    }
}
/// the library's answer for one entry
pub open spec fn ent_is(x: Dir, code: u16, en: Ent, r: IfdEntry) -> bool {
    match en {
        Ent::Stop => false,
        Ent::BadFmt { format, n } => r matches IfdEntry::Err(EntryError::InvalidShape { format: f2, count }) && f2 == format && count == n,
        Ent::Short { needed, available } => r matches IfdEntry::Err(EntryError::Truncated { needed: n2, available: a2 }) && n2 == needed && a2 == available,
        Ent::Sub { off } => r matches IfdEntry::IfdNew(it) && it.wf() && it.dir() == sub_dir(x, off, x.idx, Some(code)),
        Ent::Val { f, n, data } => match r {
            IfdEntry::Entry(v) => value_is(x.e, code, f, n, data, x.tz, Ok(v)),
            IfdEntry::Err(er) => value_is(x.e, code, f, n, data, x.tz, Err(er)),
            IfdEntry::IfdNew(_) => false },
    }
}
pub open spec fn dres_is(x: Dir, s: DRes, r: Option<(Option<TagOrCode>, IfdEntry)>) -> bool {
    match s {
        DRes::End => r is None,
        DRes::Next(o) => r matches Some((None, IfdEntry::IfdNew(it))) && it.wf() && it.dir() == sub_dir(x, o, x.idx + 1, None),
        DRes::Ent(code, en) => r matches Some((Some(t), r2)) && tc_ok(t) && tc_code(t) == code && ent_is(x, code, en, r2),
    }
}
/// the text of an entry, if it is one
pub open spec fn ent_text(code: u16, en: Ent) -> Option<Seq<char>> {
    match en { Ent::Val { f, n, data } => if f == DataFormat::Text && n != 0 && !is_date_tag(code) { Some(text_of(data)) } else { None }, _ => None }
}
pub open spec fn tz_scan(x: Dir, acc: Option<Seq<char>>) -> Option<Seq<char>> decreases x.n + 2 - x.k {
    if x.k > x.n { acc } else {
    match dstep(x).1 {
        DRes::End => acc,
        DRes::Next(_) => tz_scan(dstep(x).0, acc),
        DRes::Ent(code, en) =>
            if code == 0x9011 || code == 0x9012 { ent_text(code, en) }
            else if code == 0x9010 { tz_scan(dstep(x).0, ent_text(code, en)) }
            else { tz_scan(dstep(x).0, acc) }
    } }
}
/// the first Exif-directory pointer among entries k.. of a directory
pub open spec fn exif_ptr(x: Dir, k: int) -> Option<int> decreases x.n - k {
    if k >= x.n { None } else if s16(x.e, x.d.skip(at(x, k))) == 0x8769 { Some(at(x, k)) } else { exif_ptr(x, k + 1) }
}
pub open spec fn exif_dir(x: Dir) -> Option<Dir> {
    match exif_ptr(x, 0) { None => None, Some(p) => match ent(x.d, x.e, is_gps(x), p) { Ent::Sub { off } => Some(sub_dir(x, off, x.idx, Some(0x8769u16))), _ => None } }
}
pub open spec fn tz_of(x: Dir) -> Option<Seq<char>> { match exif_dir(x) { Some(y) => tz_scan(y, None), None => None } }
pub proof fn num_bounds()
    ensures forall|e: Endianness, s: Seq<u8>| s.len() >= 2 ==> 0 <= #[trigger] s16(e, s) <= 0xffff, forall|e: Endianness, s: Seq<u8>| s.len() >= 4 ==> 0 <= #[trigger] s32(e, s) <= 0xffff_ffff,
{}
