#![allow(unused_imports, dead_code, unused_variables, non_upper_case_globals, unused_mut, unused_parens)]
use vstd::prelude::*;
pub mod bytes { pub use super::vbytes::Bytes; }
//@include common.rs
//@include nom.rs
//@include bytes.rs
//@include vio.rs
use nom::{number::Endianness, IResult, Parser, is_inc, is_error, is_failure, s16, s16be, s32, s32be};
verus! {
broadcast use {seq_slices, q_from};
global size_of usize == 8;
//@bconsts
//@include inc_err.vrs
//@include inc_perr.vrs
//@include inc_tiff.vrs
//@include inc_parser.vrs
//@item src/parser.rs enum SkipPlan
//@item src/parser.rs enum LoopAction | sub `String` => `VMsg`
//@item src/parser.rs const HEADER_PARSE_BUF_SIZE

//@stub parser src/error.rs impl From<std::io::Error> for ParsedError :: from
//@stub parser src/parser.rs clear_and_skip_decide
//@stub parser src/parser.rs check_fill_size
//@stub parser src/parser.rs impl BufferedParserState :: is_memory_mode
//@stub parser src/parser.rs impl BufferedParserState :: buf
//@stub parser src/parser.rs impl BufferedParserState :: buf_mut
//@stub parser src/parser.rs impl Buf for MediaParser :: buffer
//@stub parser src/parser.rs impl Buf for MediaParser :: clear
//@stub parser src/parser.rs impl Buf for MediaParser :: set_position
//@stub parser src/parser.rs impl Buf for MediaParser :: position
//@fn src/parser.rs impl AsyncBufParser for MediaParser :: fill_buf
//@sig fn fill_buf<R: Read>(&mut self, reader: &mut R, size: usize) -> (res: std::io::Result<usize>)
//@wrap impl MediaParser
//@presubst `Err(std::io::ErrorKind::UnexpectedEof.into())` => `Err(v_eof())`
//@presubst `reader.take(size as u64).read_to_end(self.state.buf_mut())` => `reader.v_read_upto(size as u64, self.state.buf_mut())`
//@spec
    requires old(self).wf()
    ensures final(self).mem() == old(self).mem(),
        match res {
            Ok(n) => !old(self).mem() && size + old(self).state.all().len() <= MAX_PARSE_BUF_SIZE && 0 < n && n == imin(size as int, old(reader).rest().len() as int)
                && final(self).wf() && final(self).pos() == old(self).pos() && final(self).state.all() == old(self).state.all() + old(reader).rest().take(n as int) && final(reader).rest() == old(reader).rest().skip(n as int),
            Err(e) => (old(self).mem() ==> io_eof(e)) && (io_src(e) || (io_big(e) && !io_src(e) && size + old(self).state.all().len() > MAX_PARSE_BUF_SIZE) || (io_eof(e) && (old(self).mem() || old(reader).rest().len() == 0 || size == 0)
                    && final(self).state.all() == old(self).state.all() && final(reader).rest() == old(reader).rest()))
                && final(self).wf() && final(self).pos() == old(self).pos(),
        }
//@end
//@fn src/parser_async.rs trait AsyncBufParser : Buf + Debug :: clear_and_skip
//@sig fn clear_and_skip<R: Read>(&mut self, reader: &mut R, skip_by_seek: SkipBySeekFn<R>, n: usize) -> (res: Result<(), ParsedError>)
//@wrap impl MediaParser
//@presubst `(skip_by_seek)(` => `skip_by_seek.call(`
//@presubst `min(to_skip` => `v_min(to_skip`
//@at before `let done`
    let ghost sk = old(self).stream(old(reader));
    proof { assert(old(self).mem() ==> sk == old(self).win()); }
//@at before `if self.buffer().is_empty()`
    assert(!self.mem());
    assert(reader.rest() == seeked(old(reader).rest(), skip_n as int));
    assert(self.state.all().len() == 0);
    assert(skip_n <= old(reader).rest().len() ==> old(reader).rest().skip(skip_n as int) == sk.skip(n as int)) by { if skip_n <= old(reader).rest().len() { assert(old(reader).rest().skip(skip_n as int) =~= sk.skip(n as int)); } }
//@loop 0
    invariant old(self).wf(), n == old(self).win().len() + skip_n, skip_n > 0, self.wf(), self.mem() == old(self).mem(), skipped <= skip_n,
        self.mem() ==> skipped == 0,
        !self.mem() ==> self.pos() == 0 && old(self).pos() == 0 && self.state.all().len() == 0 && skipped <= old(reader).rest().len() && reader.rest() == old(reader).rest().skip(skipped as int),
    ensures skipped == skip_n
    decreases skip_n - skipped
//@spec
    requires old(self).wf(), old(self).mem() ==> !skip_by_seek.seeks(), n > old(self).win().len() ==> old(self).mem() || old(self).pos() == 0
    ensures final(self).wf(), final(self).mem() == old(self).mem(),
        match res {
            Ok(()) => n <= old(self).stream(old(reader)).len() && final(self).stream(final(reader)) == old(self).stream(old(reader)).skip(n as int)
                && (n <= old(self).win().len() ==> final(self).pos() == old(self).pos() + n && final(reader).rest() == old(reader).rest()) && (n > old(self).win().len() ==> final(self).pos() == 0),
            Err(ParsedError::IOError(e)) => io_src(e) || (io_eof(e) && n > old(self).win().len() && n >= old(self).stream(old(reader)).len()),
            _ => false,
        }
//@end

// ---------------------------------------------------------------- the parse loop
pub open spec fn within<O, P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: P, offset: usize, rel: Rel<O>) -> bool {
    forall|b: &[u8], st: Option<ParsingState>, r: Result<O, ParsingErrorState>| #[trigger] p.ensures((b, offset, st), r) ==> rel(b@, st, r)
}
pub open spec fn reqs<O, P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: P, offset: usize) -> spec_fn(Seq<u8>, Option<ParsingState>) -> bool {
    |b: Seq<u8>, st: Option<ParsingState>| forall|x: &[u8]| x@ == b ==> #[trigger] p.requires((x, offset, st))
}
pub open spec fn step_of<O, P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>>(p: P, offset: usize, b: Seq<u8>, st: Option<ParsingState>, e: ParsingErrorState) -> bool {
    exists|x: &[u8]| x@ == b && #[trigger] p.ensures((x, offset, st), Err(e))
}
//@stub parser src/parser.rs parse_loop_step

//@fn src/parser_async.rs trait AsyncBufParser : Buf + Debug :: load_and_parse_with_offset
//@sig fn load_and_parse_with_offset<R: Read, P: Fn(&[u8], usize, Option<ParsingState>) -> Result<O, ParsingErrorState>, O>(&mut self, reader: &mut R, skip_by_seek: SkipBySeekFn<R>, parse: P, offset: usize) -> (res: Result<O, ParsedError>)
//@wrap impl MediaParser
//@presubst `&mut parse)` => `&parse)`
//@presubst? `let mut parse = parse;` => ``
//@presubst `max(needed` => `v_max(needed`
//@at start
    let ghost s0 = old(self).stream(old(reader));
    let ghost mut pos = 0int; let ghost mut adv = false;
    proof { reveal(coherent); reveal(drivable); reveal(ran); }
    let ghost (rel0, inv0) = choose|rel: Rel<O>, inv: Inv| within(parse, offset, rel) && fits(rel, inv, s0, reqs(parse, offset));
//@at before loop 0
    assert(self.stream(reader) =~= s0);
    assert(s0.skip(0) =~= s0);
//@loop 0
    invariant self.wf(), self.mem() ==> !skip_by_seek.seeks(), 0 <= pos <= s0.len(), self.stream(reader) == s0.skip(pos), !adv ==> self.pos() == 0, self.pos() <= pos,
        within(parse, offset, rel0), fits(rel0, inv0, s0, reqs(parse, offset)), inv0(pos, adv, parsing_state),
        forall|rel: Rel<O>, inv: Inv| #![trigger within(parse, offset, rel), coherent(rel, inv, s0)] within(parse, offset, rel) && coherent(rel, inv, s0) ==> inv(pos, adv, parsing_state),
        s0 == old(self).stream(old(reader)),
    decreases s0.len() - pos, (if parsing_state is None { 1int } else { 0 }), self.stream(reader).len() - self.win().len()
//@at loop 0 start
    proof { reveal(coherent); reveal(drivable); reveal(ran); }
    let ghost b = self.win(); let ghost st = parsing_state;
    assert(sees(s0, pos, b)) by { assert(b =~= s0.skip(pos).take(b.len() as int)); }
    assert(reqs(parse, offset)(b, st));
//@at before `let to_read`
    let ghost e = choose|e: ParsingErrorState| step_of(parse, offset, b, st, e) && e.err == ParsingError::Need(needed) && e.state == parsing_state;
    assert(rel0(b, st, Err(e)));
//@at before `if n == 0`
    assert(self.stream(reader) =~= s0.skip(pos));
//@at before `self.clear_and_skip(`
    let ghost e = choose|e: ParsingErrorState| step_of(parse, offset, b, st, e) && e.err == ParsingError::ClearAndSkip(n) && e.state == parsing_state;
    assert(rel0(b, st, Err(e)));
//@at after `self.clear_and_skip(reader, skip_by_seek, n)?;`
    proof { assert(s0.skip(pos).skip(n as int) == s0.skip(pos + n)); pos = pos + n; adv = adv || n <= b.len(); }
//@spec
    requires old(self).wf(), old(self).pos() == 0, old(self).mem() ==> !skip_by_seek.seeks(), offset == 0,
        exists|rel: Rel<O>, inv: Inv| within(parse, offset, rel) && fits(rel, inv, old(self).stream(old(reader)), reqs(parse, offset))
    ensures final(self).wf(),
        forall|rel: Rel<O>, inv: Inv| within(parse, offset, rel) && coherent(rel, inv, old(self).stream(old(reader))) ==> #[trigger] ran(rel, inv, old(self).stream(old(reader)), res, final(self).win())
//@end

//@fn src/parser_async.rs trait AsyncBufParser : Buf + Debug :: load_and_parse
//@sig fn load_and_parse<R: Read, P: Fn(&[u8], Option<ParsingState>) -> Result<O, ParsingErrorState>, O>(&mut self, reader: &mut R, skip_by_seek: SkipBySeekFn<R>, parse: P) -> (res: Result<O, ParsedError>)
//@wrap impl MediaParser
//@presubst `self.load_and_parse_with_offset(reader, skip_by_seek, |data, _, state| parse(data, state), 0,)` => `let pr = &parse; let vc = |data, _, state| (*pr)(data, state); self.load_and_parse_with_offset(reader, skip_by_seek, vc, 0)`
//@at before `self.load_and_parse_with_offset(`
    proof {
        let s0 = old(self).stream(old(reader));
        let (rel0, inv0) = choose|rel: Rel<O>, inv: Inv| within2(parse, rel) && fits(rel, inv, s0, reqs2(parse));
        assert forall|rel: Rel<O>| within2(parse, rel) implies within(vc, 0, rel) by {}
        assert(fits(rel0, inv0, s0, reqs(vc, 0))) by {
            assert forall|pos: int, adv: bool, st: Option<ParsingState>, b: Seq<u8>| sees(s0, pos, b) && #[trigger] inv0(pos, adv, st) implies #[trigger] (reqs(vc, 0))(b, st) by { assert((reqs2(parse))(b, st)); }
        }
        assert(within(vc, 0, rel0));
    }
//@closure 0
|data: &[u8], vo: usize, state: Option<ParsingState>| -> (o: Result<O, ParsingErrorState>) requires p_req(pr, data, state) ensures p_ens(pr, data, state, o)
//@spec
    requires old(self).wf(), old(self).pos() == 0, old(self).mem() ==> !skip_by_seek.seeks(),
        exists|rel: Rel<O>, inv: Inv| #![trigger coherent(rel, inv, old(self).stream(old(reader)))] within2(parse, rel) && fits(rel, inv, old(self).stream(old(reader)), reqs2(parse))
    ensures final(self).wf(),
        forall|rel: Rel<O>, inv: Inv| within2(parse, rel) && #[trigger] coherent(rel, inv, old(self).stream(old(reader))) ==> ran(rel, inv, old(self).stream(old(reader)), res, final(self).win())
//@end
// ---------------------------------------------------------------- how a source skips
/// std's checked integer conversion
pub fn v_i64_from_u64(v: u64) -> (r: Result<i64, ()>) ensures v <= i64::MAX ==> r == Ok::<i64, ()>(v as i64), v > i64::MAX ==> r is Err { if v <= i64::MAX as u64 { Ok(v as i64) } else { Err(()) } }
//@fn src/parser_async.rs make_unseekable_skip
//@onlyclosure 0
//@rename skip_unseekable
//@wrap none
//@presubst `Box::pin(async move { Ok(false) })` => `Ok(false)`
//@sig fn skip_unseekable<R: Read>(r: &mut R, n: u64) -> (res: io::Result<bool>)
//@spec
    ensures skips(false, old(r).rest(), final(r).rest(), n as int, res)
//@end
//@fn src/parser_async.rs make_seekable_skip
//@onlyclosure 0
//@rename skip_seekable
//@wrap none
//@presubst `io::Error::from(io::ErrorKind::InvalidInput)` => `v_invalid()`
//@presubst `n.try_into()` => `v_i64_from_u64(n)`
//@presubst `Box::pin(async move` => `(`
//@presubst? `use tokio::io::AsyncSeekExt;` => ``
//@presubst? `use std::io::SeekFrom;` => ``
//@closure 0
|vu: ()| -> (o: std::io::Error) ensures io_src(o)
//@sig fn skip_seekable<R: Read + Seek>(r: &mut R, n: u64) -> (res: io::Result<bool>)
//@spec
    ensures skips(true, old(r).rest(), final(r).rest(), n as int, res)
//@end
} // verus!
fn main() {}
