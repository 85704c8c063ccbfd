//@item src/error.rs enum MalformedKind | derive(Clone, Copy)
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
//@item src/error.rs enum Error | sub `String` => `VMsg`
pub type CResult<T> = Result<T, Error>;
