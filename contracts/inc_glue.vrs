impl vstd::std_specs::convert::FromSpecImpl<ParsedError> for Error { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ParsedError) -> Error { top_err(v) } }
pub open spec fn top_err(v: ParsedError) -> Error { match v { ParsedError::NoEnoughBytes => Error::UnexpectedEof { context: "media stream" }, ParsedError::IOError(e) => Error::Io(e), ParsedError::Failed { kind, message } => Error::Malformed { kind, message } } }
//@fn src/error.rs impl From<ParsedError> for crate::Error :: from
//@spec
    ensures res == top_err(value)
//@end
// ---------------------------------------------------------------- the whole stream
/// after a skip the walk stands where the walk over the whole stream stands
pub open spec fn png_at(s0: Seq<u8>, pos: int, st: Option<ParsingState>) -> bool {
    if past(st) { pst_ok(pst_of(st)) && s0.len() >= 8 && s0.take(8) == png_sig() && 8 <= pos <= s0.len() && pwalk(s0, 8, pst0()) == shift(pwalk(s0.skip(pos), 0, pst_of(st)), pos) }
    else { st is None && pos == 0 }
}
pub open spec fn png_inv(s0: Seq<u8>) -> Inv { |pos: int, adv: bool, st: Option<ParsingState>| !adv && png_at(s0, pos, st) }
pub open spec fn is_png(s0: Seq<u8>) -> bool { s0.len() >= 8 && s0.take(8) == png_sig() }
pub open spec fn png_rel() -> Rel<PngParseOut> { |b: Seq<u8>, st: Option<ParsingState>, r: Result<PngParseOut, ParsingErrorState>| b.len() <= isize::MAX && extracted(b, st, r) }
/// How parsing a PNG stream ends, whatever reader the bytes come from: with what the chunk walk over the whole stream finds.
pub open spec fn png_ran(s0: Seq<u8>, res: Result<PngParseOut, ParsedError>, end: Seq<u8>) -> bool {
    match res {
        Ok(o) => is_png(s0) && (pwalk(s0, 8, pst0()) matches PO::Done(x) && src_ok(end, o.exif) && src_of(end, o.exif) == x.exif && texts_of(o.text_chunks@) == x.texts),
        Err(ParsedError::Failed { .. }) => s0.len() >= 8 && !is_png(s0),
        Err(ParsedError::NoEnoughBytes) => png_short(s0),
        Err(ParsedError::IOError(e)) => io_src(e) || io_big(e) || png_short(s0),
    }
}
/// the stream ends before its IEND chunk
pub open spec fn png_short(s0: Seq<u8>) -> bool { s0.len() < 8 || is_png(s0) && !(pwalk(s0, 8, pst0()) is Done) }
proof fn pwalk_skip_bound(s: Seq<u8>, c: int, st: Pst)
    requires 0 <= c
    ensures pwalk(s, c, st) matches PO::Skip(n, x) ==> s.len() < n <= s.len() + 0x1_0000_000B
    decreases s.len() - c
{
    if s.len() - c >= 8 { let n = s32be(s.skip(c)); let t = n + 12; if t <= s.len() - c {
        pwalk_skip_bound(s, c + t, Pst { exif: Some(s.subrange(c + 8, c + 8 + n)), prio: 3, ..st }); pwalk_skip_bound(s, c + t, text_step(st, s.subrange(c + 8, c + 8 + n))); pwalk_skip_bound(s, c + t, st); } }
}
/// what the walk over a prefix of what is left says about the walk over all that is left
proof fn pwalk_seen(s0: Seq<u8>, pos: int, b: Seq<u8>, c: int, st: Pst)
    requires sees(s0, pos, b), 0 <= c
    ensures match pwalk(b, c, st) {
        PO::Done(x) => pwalk(s0.skip(pos), c, st) == PO::Done(x),
        PO::Need(_) => b == s0.skip(pos) ==> !(pwalk(s0.skip(pos), c, st) is Done),
        PO::Skip(k, x) => b.len() < k <= b.len() + 0x1_0000_000B && (pos + k <= s0.len() ==> pwalk(s0.skip(pos), c, st) == shift(pwalk(s0.skip(pos + k), 0, x), k)) && (pos + k >= s0.len() ==> !(pwalk(s0.skip(pos), c, st) is Done)) }
{
    let w = s0.skip(pos); let m = w.skip(b.len() as int);
    assert(w =~= b + m);
    pwalk_grow(b, m, c, st); pwalk_skip_bound(b, c, st);
    if let PO::Skip(k, x) = pwalk(b, c, st) {
        pwalk_resume(b, m, c, st);
        if pos + k <= s0.len() { assert(w.skip(k) =~= s0.skip(pos + k)); if pos + k == s0.len() { assert(s0.skip(pos + k).len() == 0); } }
    }
}
/// what one call says about the walk over the whole stream
proof fn png_one(s0: Seq<u8>, pos: int, st: Option<ParsingState>, b: Seq<u8>, r: Result<PngParseOut, ParsingErrorState>)
    requires sees(s0, pos, b), png_at(s0, pos, st), png_rel()(b, st, r)
    ensures match r {
        Ok(o) => is_png(s0) && (pwalk(s0, 8, pst0()) matches PO::Done(x) && src_ok(b, o.exif) && src_of(b, o.exif) == x.exif && texts_of(o.text_chunks@) == x.texts),
        Err(e) => match e.err {
            ParsingError::Failed { .. } => s0.len() >= 8 && !is_png(s0),
            ParsingError::Need(_) => png_at(s0, pos, e.state) && (past(st) ==> past(e.state)) && (b == s0.skip(pos) ==> png_short(s0)),
            ParsingError::ClearAndSkip(n) => n > b.len() && past(e.state) && (pos + n <= s0.len() ==> png_at(s0, pos + n, e.state)) && (pos + n >= s0.len() ==> png_short(s0)),
        } }
{
    hide(pwalk);
    let c = if past(st) { 0int } else { 8 };
    if !past(st) {
        assert(s0.skip(pos) =~= s0);
        if b.len() >= 8 { assert(b.take(8) =~= s0.take(8)); }
    }
    pwalk_seen(s0, pos, b, c, pst_of(st));
}
proof fn png_coherent(s0: Seq<u8>)
    ensures coherent(png_rel(), png_inv(s0), s0), drivable(png_rel(), png_inv(s0), s0)
{
    reveal(coherent); reveal(drivable);
    let rel = png_rel(); let inv = png_inv(s0);
    assert forall|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) implies match e.err {
            ParsingError::Need(_) => inv(pos, adv, e.state) && (st is Some ==> e.state is Some),
            ParsingError::ClearAndSkip(n) => (pos + n <= s0.len() ==> inv(pos + n, adv || n <= b.len(), e.state)) && (n == 0 ==> st is None && e.state is Some) && (adv ==> n <= b.len()),
            ParsingError::Failed { .. } => true,
        } by { png_one(s0, pos, st, b, Err(e)); }
}
broadcast proof fn png_ends(s0: Seq<u8>, res: Result<PngParseOut, ParsedError>, end: Seq<u8>)
    requires #[trigger] ran(png_rel(), png_inv(s0), s0, res, end)
    ensures png_ran(s0, res, end)
{
    hide(pwalk); reveal(ran);
    let rel = png_rel(); let inv = png_inv(s0);
    match res {
        Ok(o) => { let (pos, adv, st) = choose|pos: int, adv: bool, st: Option<ParsingState>| sees(s0, pos, end) && #[trigger] inv(pos, adv, st) && rel(end, st, Ok(o)); png_one(s0, pos, st, end, Ok(o)); }
        Err(ParsedError::Failed { .. }) => {
            let (pos, adv, st, b, e) = choose|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) && e.err is Failed;
            png_one(s0, pos, st, b, Err(e)); }
        Err(x) => { if short(rel, inv, s0) && s0.len() > 0 {
            let (pos, adv, st, b, e) = choose|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) && match e.err {
                ParsingError::Need(n) => b == s0.skip(pos), ParsingError::ClearAndSkip(n) => pos + n >= s0.len() && n > b.len(), ParsingError::Failed { .. } => false };
            png_one(s0, pos, st, b, Err(e)); } }
    }
}
/// what a parse gives for the Exif source the walk found
pub open spec fn opened(d: Seq<u8>, res: CResult<ExifIter>) -> bool {
    match open_block(Blk { d, h: None }) { Some(x) => res matches Ok(it) && it.wf() && it.ifd0.dir() == x && it.st() == it.init() && it.st().blocks.len() == 0 && !it.has_embedded_track, None => res is Err }
}
/// what is the matter with a stream that gives no answer
pub open spec fn png_err(s0: Seq<u8>, e: Error) -> bool {
    match e { Error::Io(x) => io_src(x) || io_big(x) || png_short(s0), Error::UnexpectedEof { .. } => png_short(s0), Error::Malformed { .. } => s0.len() >= 8 && !is_png(s0), _ => false }
}

/// the Exif of a PNG stream, unless the reader fails
pub open spec fn png_exif_is(s0: Seq<u8>, res: CResult<ExifIter>) -> bool {
    ||| res matches Err(e) && png_err(s0, e)
    ||| is_png(s0) && (pwalk(s0, 8, pst0()) matches PO::Done(x) && match x.exif { None => res matches Err(e) && e is ExifNotFound, Some(d) => opened(d, res) })
}
/// the Exif and the text entries of a PNG stream, unless the reader fails
pub open spec fn png_full_is(s0: Seq<u8>, res: CResult<(Option<ExifIter>, Vec<(String, String)>)>) -> bool {
    ||| res matches Err(e) && png_err(s0, e)
    ||| is_png(s0) && (pwalk(s0, 8, pst0()) matches PO::Done(x) && match res {
            Ok(o) => texts_of(o.1@) == x.texts && match x.exif { None => o.0 is None, Some(d) => o.0 matches Some(it) && opened(d, Ok(it)) },
            Err(e) => x.exif matches Some(d) && opened(d, Err(e)) })
}
