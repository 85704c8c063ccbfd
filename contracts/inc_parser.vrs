// ---------------------------------------------------------------- the parser's buffer and the stream behind it
//@item src/parser.rs const INIT_BUF_SIZE
//@item src/parser.rs const MIN_GROW_SIZE
//@item src/parser.rs const MAX_PARSE_BUF_SIZE
//@item src/parser.rs const MAX_REUSE_BUF_SIZE
//@item src/parser.rs struct BufferedParserState | sub `bytes::Bytes` => `Bytes`
//@item src/parser.rs struct MediaParser
//@item src/error.rs enum ParsedError | sub `String` => `VMsg`
impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for ParsedError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: std::io::Error) -> ParsedError { ParsedError::IOError(v) } }
impl BufferedParserState {
    pub open spec fn mem(&self) -> bool { self.memory is Some }
    pub open spec fn all(&self) -> Seq<u8> { match self.memory { Some(m) => m@, None => match self.buf { Some(b) => b@, None => Seq::empty() } } }
    /// one of the two stores is in use and the position lies in it
    pub open spec fn wf(&self) -> bool { (self.memory is Some || self.buf is Some) && self.position <= self.all().len() <= usize::MAX }
    pub open spec fn win(&self) -> Seq<u8> { self.all().skip(self.position as int) }
}
impl MediaParser {
    pub open spec fn mem(&self) -> bool { self.state.mem() }
    pub open spec fn wf(&self) -> bool { self.state.wf() }
    pub open spec fn win(&self) -> Seq<u8> { self.state.win() }
    pub open spec fn pos(&self) -> int { self.state.position as int }
    /// what the input still holds, from the parser's position on
    pub open spec fn stream<R: Read>(&self, r: &R) -> Seq<u8> { if self.mem() { self.win() } else { self.win() + r.rest() } }
}
/// what one call of a format's extractor answers for what it can see and its state
pub type Rel<O> = spec_fn(Seq<u8>, Option<ParsingState>, Result<O, ParsingErrorState>) -> bool;
/// what is known when the extractor is called `pos` bytes into the stream with a state; `adv`: a skip has stayed in the buffer
pub type Inv = spec_fn(int, bool, Option<ParsingState>) -> bool;
pub open spec fn sees(s0: Seq<u8>, pos: int, b: Seq<u8>) -> bool { 0 <= pos <= s0.len() && b.is_prefix_of(s0.skip(pos)) }
/// every step the extractor asks for keeps `inv`
#[verifier::opaque]
pub open spec fn coherent<O>(rel: Rel<O>, inv: Inv, s0: Seq<u8>) -> bool {
    &&& inv(0, false, None)
    &&& forall|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) ==> match e.err {
            ParsingError::Need(_) => inv(pos, adv, e.state),
            ParsingError::ClearAndSkip(n) => pos + n <= s0.len() ==> inv(pos + n, adv || n <= b.len(), e.state),
            ParsingError::Failed { .. } => true,
        }
}
/// the extractor can be driven: it is called as it requires, it gets on, and it leaves the buffer only from its start
#[verifier::opaque]
pub open spec fn drivable<O>(rel: Rel<O>, inv: Inv, s0: Seq<u8>) -> bool {
    forall|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) ==> match e.err {
            ParsingError::Need(_) => st is Some ==> e.state is Some,
            ParsingError::ClearAndSkip(n) => (n == 0 ==> st is None && e.state is Some) && (adv ==> n <= b.len()),
            ParsingError::Failed { .. } => true,
        }
}
/// How a parse ends, on whatever reader and in whatever pieces its bytes come: with what the extractor answers for a state that
/// `inv` allows, at the place the skips add up to; the input is called too short only if the extractor, seeing all of it, wants more.
#[verifier::opaque]
pub open spec fn ran<O>(rel: Rel<O>, inv: Inv, s0: Seq<u8>, res: Result<O, ParsedError>, end: Seq<u8>) -> bool {
    match res {
        Ok(o) => exists|pos: int, adv: bool, st: Option<ParsingState>| sees(s0, pos, end) && #[trigger] inv(pos, adv, st) && rel(end, st, Ok(o)),
        Err(ParsedError::Failed { .. }) => exists|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) && e.err is Failed,
        Err(ParsedError::IOError(x)) => io_src(x)
            || (io_big(x) && exists|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) && match e.err { ParsingError::Need(n) => n + pos + b.len() > MAX_PARSE_BUF_SIZE || n <= MIN_GROW_SIZE && MIN_GROW_SIZE + pos + b.len() > MAX_PARSE_BUF_SIZE, _ => false })
            || (io_eof(x) && short(rel, inv, s0)),
        Err(ParsedError::NoEnoughBytes) => short(rel, inv, s0),
    }
}
pub open spec fn short<O>(rel: Rel<O>, inv: Inv, s0: Seq<u8>) -> bool {
    ||| s0.len() == 0
    ||| exists|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>, e: ParsingErrorState| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) && #[trigger] rel(b, st, Err(e)) && match e.err {
            ParsingError::Need(n) => b == s0.skip(pos),
            ParsingError::ClearAndSkip(n) => pos + n >= s0.len() && n > b.len(),
            ParsingError::Failed { .. } => false,
        }
}

/// `rel` and `inv` describe this extractor on this stream
pub open spec fn fits<O>(rel: Rel<O>, inv: Inv, s0: Seq<u8>, req: spec_fn(Seq<u8>, Option<ParsingState>) -> bool) -> bool {
    &&& coherent(rel, inv, s0) && drivable(rel, inv, s0)
    &&& forall|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>| sees(s0, pos, b) && #[trigger] inv(pos, adv, st) ==> #[trigger] req(b, st)
}
pub open spec fn p_req<O, P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: &P, b: &[u8], st: Option<ParsingState>) -> bool { p.requires((b, st)) }
pub open spec fn p_ens<O, P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: &P, b: &[u8], st: Option<ParsingState>, r: Result<O, ParsingErrorState>) -> bool { p.ensures((b, st), r) }
pub open spec fn within2<O, P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: P, rel: Rel<O>) -> bool {
    forall|b: &[u8], st: Option<ParsingState>, r: Result<O, ParsingErrorState>| #[trigger] p.ensures((b, st), r) ==> rel(b@, st, r)
}
pub open spec fn reqs2<O, P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: P) -> spec_fn(Seq<u8>, Option<ParsingState>) -> bool {
    |b: Seq<u8>, st: Option<ParsingState>| forall|x: &[u8]| x@ == b ==> #[trigger] p.requires((x, st))
}
