// ---- CR3: Canon's uuid box inside the movie box holds the TIFF blocks CMT1 (IFD0), CMT2 (Exif), CMT3 (maker notes)
pub ghost struct Cmts { pub c1: Option<Seq<u8>>, pub c2: Option<Seq<u8>>, pub c3: Option<Seq<u8>> }
pub open spec fn no_cmts() -> Cmts { Cmts { c1: None, c2: None, c3: None } }
/// a block that can be used: at least a TIFF header's size, and CMT1 starts with one
pub open spec fn cmt_ok(ty: Seq<char>, b: Seq<u8>) -> bool { b.len() >= 8 && (ty == "CMT1"@ ==> tiff_hdr(b) is Ok) }
pub open spec fn cmt_add(c: Cmts, ty: Seq<char>, b: Seq<u8>) -> Cmts {
    if !cmt_ok(ty, b) { c } else if ty == "CMT1"@ { Cmts { c1: Some(b), ..c } } else if ty == "CMT2"@ { Cmts { c2: Some(b), ..c } } else if ty == "CMT3"@ { Cmts { c3: Some(b), ..c } } else { c }
}
/// the blocks among the boxes `s` consists of, up to the first that is not whole; a later one replaces an earlier one
pub open spec fn cmts(s: Seq<u8>, c: Cmts) -> Cmts decreases s.len() {
    match bx(s) { Hdr::H(h) => if 0 < h.size <= s.len() { cmts(s.skip(h.size), cmt_add(c, h.ty, body(s.take(h.size), h))) } else { c }, _ => c }
}
pub open spec fn canon_id() -> Seq<u8> { seq![0x85u8, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48] }
/// the blocks of the first uuid box that is Canon's, among whole boxes
pub open spec fn moov_cmts(s: Seq<u8>) -> Option<Cmts> decreases s.len() {
    match bx(s) { Hdr::H(h) => if 0 < h.size <= s.len() {
        let b = body(s.take(h.size), h);
        if h.ty == "uuid"@ && b.len() >= 16 && b.take(16) =~= canon_id() { Some(cmts(b.skip(16), no_cmts())) } else { moov_cmts(s.skip(h.size)) } } else { None }, _ => None }
}
/// the file: `ftyp`, and then the first `moov` box
pub open spec fn cr3_of(s: Seq<u8>) -> PR<Option<Option<Cmts>>> {
    if s.len() < 8 { PR::Bad } else {
    match bx(s) { Hdr::Inc => PR::Inc, Hdr::Bad => PR::Bad, Hdr::H(h) =>
        if h.ty != "ftyp"@ || h.size - h.hlen < 4 { PR::Bad } else { match find_path(s.skip(h.size), path_parts("moov"@)) {
            Fnd::Inc => PR::Inc, Fnd::Bad => PR::Bad, Fnd::No => PR::Ok(None, Seq::empty()),
            Fnd::At(b, h, _) => PR::Ok(Some(moov_cmts(body(b, h))), Seq::empty()) } } } }
}
pub open spec fn one(n: Seq<char>, b: Option<Seq<u8>>) -> Seq<(Seq<char>, Seq<u8>)> { match b { None => Seq::empty(), Some(b) => seq![(n, b)] } }
/// the blocks by name, in order
pub open spec fn cmt_list(c: Option<Cmts>) -> Seq<(Seq<char>, Seq<u8>)> { match c { None => Seq::empty(), Some(c) => one("CMT1"@, c.c1) + one("CMT2"@, c.c2) + one("CMT3"@, c.c3) } }
#[verifier::opaque]
pub open spec fn nested(d: Seq<u8>, full: Seq<u8>) -> bool { exists|o: int| 0 <= o && o + d.len() <= full.len() && #[trigger] full.subrange(o, o + d.len()) == d }
/// the range `r` of `full` holds `b`
pub open spec fn rng(r: Range<usize>, full: Seq<u8>, b: Seq<u8>) -> bool { r.start <= r.end <= full.len() && full.subrange(r.start as int, r.end as int) == b }
pub open spec fn orng(r: Option<Range<usize>>, full: Seq<u8>, b: Option<Seq<u8>>) -> bool { match b { None => r is None, Some(b) => r matches Some(x) && rng(x, full, b) } }
pub open spec fn rngs(v: Seq<(&'static str, Range<usize>)>, full: Seq<u8>, l: Seq<(Seq<char>, Seq<u8>)>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0@ == l[i].0 && rng(v[i].1, full, l[i].1) }
