#![allow(unused)]
#![allow(non_camel_case_types, non_snake_case, dead_code, unused_variables, unused_mut, unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
// message formatting is dropped: the text of error messages is not part of any contract
macro_rules! format { ($($t:tt)*) => { shim_format() } }
verus! {
global size_of usize == 8;

#[verifier::external_body]
fn shim_format() -> String { unimplemented!() }

// ---- errors: those of other crates (assumed), and crate::error::Error as it is
//@include errkind.inc
#[verifier::external_body] struct IoError { }
uninterp spec fn io_kind_of(e: IoError) -> IoErrorKind;
impl IoError {
    #[verifier::external_body]
    fn new<E>(k: IoErrorKind, e: E) -> (r: IoError) ensures io_kind_of(r) == k { unimplemented!() }
    #[verifier::external_body]
    fn kind(&self) -> (r: IoErrorKind) ensures r == io_kind_of(*self) { unimplemented!() }
}
#[verifier::external_body] struct CsvError { }
#[verifier::external_body] struct ClapError { }
#[verifier::external_body] struct ParseError { }
//@itemrw «clap::Error» => «ClapError»
//@itemrw «csv::Error» => «CsvError»
//@itemrw «io::Error» => «IoError»
//@item src/error.rs | enum | Error
//@itemrw
// the conversions of src/error.rs, as status.vrs proves them
uninterp spec fn io_of(e: CsvError) -> Option<IoError>;
impl CsvError {
    #[verifier::external_body]
    fn is_io_error(&self) -> (r: bool) ensures r == (io_of(*self) is Some) { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: IoError) -> Error { Error::Io(e) } }
impl From<IoError> for Error { #[verifier::external_body] fn from(e: IoError) -> Error { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<CsvError> for Error { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: CsvError) -> Error { match io_of(e) { Some(v) => Error::Io(v), None => Error::Csv(e) } } }
impl From<CsvError> for Error { #[verifier::external_body] fn from(e: CsvError) -> Error { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ClapError> for Error { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: ClapError) -> Error { Error::CliParsing(e) } }
impl From<ClapError> for Error { #[verifier::external_body] fn from(e: ClapError) -> Error { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ParseError> for Error { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: ParseError) -> Error { Error::TimeParsing(e) } }
impl From<ParseError> for Error { #[verifier::external_body] fn from(e: ParseError) -> Error { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<String> for Error { closed spec fn obeys_from_spec() -> bool { true } closed spec fn from_spec(e: String) -> Error { Error::Custom(e) } }
impl From<String> for Error { #[verifier::external_body] fn from(e: String) -> Error { unimplemented!() } }
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: &'a str) -> Error { arbitrary() } }
impl<'a> From<&'a str> for Error { #[verifier::external_body] fn from(e: &'a str) -> Error { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
type CliResult<T> = Result<T, Error>;
fn claim(b: bool) requires b { }
spec fn same_val<T>(a: T, b: T) -> bool { a == b }
//@include fmt.inc
//@include std.inc
