#![allow(unused)]
#![allow(non_camel_case_types, non_snake_case, dead_code, unused_variables, unused_mut, unused_imports)]
use vstd::prelude::*;
// what is printed on stderr is not part of any contract (if it cannot be printed the process panics: another status than 0)
macro_rules! write_error { ($($t:tt)*) => { () } }
macro_rules! unreachable { ($($t:tt)*) => { never() } }
verus! {
#[verifier::external_body]
fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body]
fn print_backtrace() { unimplemented!() }
// ---- the process' status (assumed of std::process::exit); finished(): chopper_cli gave Ok
uninterp spec fn finished() -> bool;
mod process {
    use super::*;
    #[verifier::external_body]
    pub(crate) fn exit(code: i32) -> ! requires code == 0 <==> finished() { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
enum ErrorKind { BrokenPipe, Other }
mod io {
    use super::*;
    pub(crate) use super::ErrorKind;
    #[verifier::external_body] pub(crate) struct Error { }
    impl Error {
        #[verifier::external_body]
        pub(crate) fn kind(&self) -> ErrorKind { unimplemented!() }
    }
}
mod csv {
    use super::*;
    // the other kinds of csv's error are one kind here
    pub(crate) enum ErrorKind { Io(io::Error), Other }
    #[verifier::external_body] pub(crate) struct Error { }
    impl Error {
        pub(crate) uninterp spec fn as_kind(&self) -> ErrorKind;
        #[verifier::external_body]
        pub(crate) fn is_io_error(&self) -> (r: bool) ensures r == (self.as_kind() is Io) { unimplemented!() }
        #[verifier::external_body]
        pub(crate) fn into_kind(self) -> (r: ErrorKind) ensures r == self.as_kind() { unimplemented!() }
    }
}
mod clap { #[verifier::external_body] pub(crate) struct Error { } }
#[verifier::external_body] struct ParseError { }
//@item src/error.rs | enum | Error
//@item src/error.rs | type | CliResult
//@rwall «From::from(v)» => «Error::from(v)» (the same function)
//@rwall «$x.to_owned()» => «text_own(&$x)» (std conversion as a function with a contract)
#[verifier::external_body]
fn text_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<clap::Error> for Error {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: clap::Error) -> Error { Error::CliParsing(e) }
}
impl From<clap::Error> for Error {
    //@fn src/error.rs | From<clap::Error> for Error | from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: io::Error) -> Error { Error::Io(e) }
}
impl From<io::Error> for Error {
    //@fn src/error.rs | From<io::Error> for Error | from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<csv::Error> for Error {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: csv::Error) -> Error { match e.as_kind() { csv::ErrorKind::Io(v) => Error::Io(v), _ => Error::Csv(e) } }
}
impl From<csv::Error> for Error {
    //@fn src/error.rs | From<csv::Error> for Error | from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<ParseError> for Error {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: ParseError) -> Error { Error::TimeParsing(e) }
}
impl From<ParseError> for Error {
    //@fn src/error.rs | From<ParseError> for Error | from
    //@end
}
impl vstd::std_specs::convert::FromSpecImpl<String> for Error {
    closed spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(e: String) -> Error { Error::Custom(e) }
}
impl From<String> for Error {
    //@fn src/error.rs | From<String> for Error | from
    //@end
}
impl Error {
    // called on errors made of texts only (src/chopper/types.rs)
    //@fn src/error.rs | Error | exit
        //@rw «err.exit()» => «never()» (clap's own exit)
        //@spec
        requires !finished(), !(*old(self) is CliParsing),
    //@end
}
//@fn src/error.rs | - | handle_drive_error
    //@spec
    requires cli_result is Ok <==> finished(),
//@end
// ---- the tool
mod error { pub(crate) use super::handle_drive_error; }
#[verifier::external_body] struct Given { }
// proved in unit cli: Ok only if everything was written
#[verifier::external_body]
fn chopper_cli(t: Option<Given>, f: Option<Given>, z: Option<Given>) -> (r: CliResult<()>) ensures r is Ok <==> finished() { unimplemented!() }
//@fn chop/src/main.rs | - | main
//@end
} // verus!
