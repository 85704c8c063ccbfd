// ---- what the chunk walk answers
//@item src/png.rs struct PngParseOut
//@item src/png.rs enum PngExifSource
pub open spec fn texts_of(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1@)) }
pub open spec fn src_ok(buf: Seq<u8>, x: Option<PngExifSource>) -> bool { x matches Some(PngExifSource::EXif(r)) ==> r.start <= r.end <= buf.len() }
pub open spec fn src_of(buf: Seq<u8>, x: Option<PngExifSource>) -> Option<Seq<u8>> {
    match x { None => None, Some(PngExifSource::EXif(r)) => Some(buf.subrange(r.start as int, r.end as int)), Some(PngExifSource::Legacy(b)) => Some(b@) }
}
pub open spec fn rep(buf: Seq<u8>, o: PngParseOut, prio: u8, total: usize) -> Pst { Pst { exif: src_of(buf, o.exif), prio: prio as int, texts: texts_of(o.text_chunks@), total: total as int } }
pub open spec fn past(s: Option<ParsingState>) -> bool { s matches Some(x) && (x is PngPastSignature || x is PngCollected) }
pub open spec fn pst_of(s: Option<ParsingState>) -> Pst {
    match s { Some(ParsingState::PngCollected(c)) => Pst { exif: match c.exif { None => None, Some(b) => Some(b@) }, prio: c.exif_priority as int, texts: texts_of(c.text_chunks@), total: c.text_total as int }, _ => pst0() }
}
pub open spec fn keep(s: Option<ParsingState>) -> Option<ParsingState> { if past(s) { s } else { None } }
pub open spec fn extracted(buf: Seq<u8>, s: Option<ParsingState>, r: Result<PngParseOut, ParsingErrorState>) -> bool {
    if !past(s) && buf.len() < 8 { r matches Err(e) && e.state is None && (e.err matches ParsingError::Need(n) && 0 < n <= 8 - buf.len()) }
    else if !past(s) && buf.take(8) != png_sig() { p_fail(r) }
    else { match pwalk(buf, if past(s) { 0 } else { 8 }, pst_of(s)) {
        PO::Need(k) => r matches Err(e) && e.state == keep(s) && (e.err matches ParsingError::Need(n) && 0 < n <= k),
        PO::Skip(k, st) => r matches Err(e) && e.err == ParsingError::ClearAndSkip(k as usize) && past(e.state) && pst_of(e.state) == st && pst_ok(st),
        PO::Done(st) => r matches Ok(o) && src_ok(buf, o.exif) && src_of(buf, o.exif) == st.exif && texts_of(o.text_chunks@) == st.texts,
    } }
}
