use IoErrorKind as ErrorKind;
mod io {
    use super::*;
    pub(crate) use super::{IoError as Error, IoErrorKind as ErrorKind};
    pub(crate) type Result<T> = core::result::Result<T, Error>;
}
// ---- std::io::Read: rest() are the bytes still to come, sound(): their end is the end of the data, not a failure.
// Assumed of foreign readers, proved of the ones in /repo.  A reader may give any number of bytes at a time.
trait Read {
    spec fn inv(&self) -> bool;
    spec fn rest(&self) -> Seq<u8>;
    spec fn sound(&self) -> bool;
    spec fn steady(&self) -> bool;      // a failure takes nothing away: what follows it is still to come
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires old(self).inv(),
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).steady() == old(self).steady(),
            r matches Ok(n) ==> final(self).inv() && final(self).sound() == old(self).sound() && n <= old(buf)@.len() && n <= old(self).rest().len()
                && final(buf)@.take(n as int) == old(self).rest().take(n as int) && final(self).rest() == old(self).rest().skip(n as int)
                && (n == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0 && old(self).sound()),
            r is Err ==> !old(self).sound() && (old(self).steady() ==> final(self).inv() && final(self).rest() == old(self).rest());
}
