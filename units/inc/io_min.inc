mod io { pub(crate) use super::{IoError as Error, IoErrorKind as ErrorKind}; pub(crate) type Result<T> = core::result::Result<T, Error>; }
