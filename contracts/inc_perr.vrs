// ---- what format extractors answer while data is still being read
//@item src/png.rs struct PngCollected
//@item src/parser.rs enum ParsingState | sub `crate::png::PngCollected` => `PngCollected`
//@item src/error.rs enum ParsingError | sub `String` => `VMsg`
//@item src/error.rs struct ParsingErrorState
pub open spec fn p_need<T>(r: Result<T, ParsingErrorState>, s: Option<ParsingState>) -> bool { r matches Err(e) && e.err is Need && e.state == s }
pub open spec fn p_skip<T>(r: Result<T, ParsingErrorState>, n: int, s: Option<ParsingState>) -> bool { r matches Err(e) && e.err == ParsingError::ClearAndSkip(n as usize) && e.state == s }
pub open spec fn p_fail<T>(r: Result<T, ParsingErrorState>) -> bool { r matches Err(e) && e.err is Failed }
/// the derived Clone
impl Clone for ParsingState {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
