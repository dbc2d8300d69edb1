// ---- std::io and byteorder, as contracts on ghost byte sequences (assumed)
// rest(): the bytes the reader will still deliver; sound(): the reader never fails before their end
mod io {
    use super::*;
    pub(crate) use super::{IoError as Error, IoErrorKind as ErrorKind, io_kind_of as kind_of};
    pub(crate) type Result<T> = core::result::Result<T, Error>;
    pub(crate) trait Read {
        spec fn rest(&self) -> Seq<u8>;
        spec fn sound(&self) -> bool;
    }
    pub(crate) trait BufRead: Read { }
    impl<R: Read> BufRead for BufReader<R> { }
    pub(crate) trait Write { }
    impl<W: Write + ?Sized> Write for Box<W> { }

    #[verifier::external_body]
    #[verifier::reject_recursive_types(R)]
    pub(crate) struct BufReader<R> { r: R }
    impl<R> BufReader<R> {
        pub(crate) uninterp spec fn rest(&self) -> Seq<u8>;
        pub(crate) uninterp spec fn sound(&self) -> bool;
    }
    impl<R: Read> BufReader<R> {
        #[verifier::external_body]
        pub(crate) fn new(r: R) -> (b: BufReader<R>) ensures b.rest() == r.rest(), b.sound() == r.sound() { unimplemented!() }
        #[verifier::external_body]
        pub(crate) fn fill_buf(&mut self) -> (r: Result<&[u8]>)
            ensures
                final(self).rest() == old(self).rest(), final(self).sound() == old(self).sound(),
                r matches Ok(b) ==> b@ == old(self).rest().take(b@.len() as int) && b@.len() <= old(self).rest().len()
                    && (b@.len() == 0 ==> old(self).rest().len() == 0),
                r is Err ==> !old(self).sound(),
        { unimplemented!() }
    }
    impl<R: Read> Read for BufReader<R> {
        open spec fn rest(&self) -> Seq<u8> { self.rest() }
        open spec fn sound(&self) -> bool { self.sound() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(W)]
    pub(crate) struct BufWriter<W> { w: W }
    impl<W> BufWriter<W> {
        // everything written so far, and whether the writer never fails
        pub(crate) uninterp spec fn out(&self) -> Seq<u8>;
        pub(crate) uninterp spec fn sound(&self) -> bool;
        pub(crate) uninterp spec fn flushed(&self) -> bool;     // all of it was handed on, without an error
        #[verifier::external_body]
        pub(crate) fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures wrote(*old(self), *final(self), r, b@) { unimplemented!() }
        #[verifier::external_body]
        pub(crate) fn flush(&mut self) -> (r: Result<()>) ensures wrote(*old(self), *final(self), r, seq![]), r is Ok ==> final(self).flushed() { unimplemented!() }
    }
    pub(crate) open spec fn wrote<W>(a: BufWriter<W>, b: BufWriter<W>, r: Result<()>, bytes: Seq<u8>) -> bool {
        &&& b.sound() == a.sound()
        &&& r is Ok ==> b.out() == a.out() + bytes
        &&& r is Err ==> !a.sound()
    }
    // read_exact of n bytes
    pub(crate) open spec fn took(a_rest: Seq<u8>, a_sound: bool, b_rest: Seq<u8>, b_sound: bool, ok: bool, n: nat) -> bool {
        &&& b_sound == a_sound
        &&& ok ==> a_rest.len() >= n && b_rest == a_rest.skip(n as int)
        &&& !ok ==> (a_sound ==> a_rest.len() < n)
    }
}
use io::{Read, Write, BufReader, BufWriter, wrote, took};

// big endian / little endian bytes of a natural number
spec fn be(v: nat, k: nat) -> Seq<u8> decreases k { if k == 0 { seq![] } else { be(v / 256, (k - 1) as nat).push((v % 256) as u8) } }
spec fn unbe(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { unbe(s.drop_last()) * 256 + s.last() as nat } }
spec fn le(v: nat, k: nat) -> Seq<u8> decreases k { if k == 0 { seq![] } else { seq![(v % 256) as u8] + le(v / 256, (k - 1) as nat) } }
spec fn unle(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * unle(s.skip(1)) } }

trait ByteOrder {
    spec fn enc(v: nat, k: nat) -> Seq<u8>;
    spec fn dec(s: Seq<u8>) -> nat;
}
struct BigEndian;
struct LittleEndian;
impl ByteOrder for BigEndian {
    spec fn enc(v: nat, k: nat) -> Seq<u8> { be(v, k) }
    spec fn dec(s: Seq<u8>) -> nat { unbe(s) }
}
impl ByteOrder for LittleEndian {
    spec fn enc(v: nat, k: nat) -> Seq<u8> { le(v, k) }
    spec fn dec(s: Seq<u8>) -> nat { unle(s) }
}
spec fn u8s(v: u8) -> Seq<u8> { seq![v] }
// byteorder::ReadBytesExt on any reader
trait ReadBytesExt: io::Read + Sized {
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 1),
            r matches Ok(v) ==> v == old(self).rest()[0] { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<T: ByteOrder>(&mut self) -> (r: io::Result<u16>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 2),
            r matches Ok(v) ==> v as nat == T::dec(old(self).rest().take(2)) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<T: ByteOrder>(&mut self) -> (r: io::Result<u32>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 4),
            r matches Ok(v) ==> v as nat == T::dec(old(self).rest().take(4)) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<T: ByteOrder>(&mut self) -> (r: io::Result<u64>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 8),
            r matches Ok(v) ==> v as nat == T::dec(old(self).rest().take(8)) { unimplemented!() }
    #[verifier::external_body]
    fn read_i16<T: ByteOrder>(&mut self) -> (r: io::Result<i16>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 2),
            r matches Ok(v) ==> v as u16 as nat == T::dec(old(self).rest().take(2)) { unimplemented!() }
    #[verifier::external_body]
    fn read_i32<T: ByteOrder>(&mut self) -> (r: io::Result<i32>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 4),
            r matches Ok(v) ==> v as u32 as nat == T::dec(old(self).rest().take(4)) { unimplemented!() }
    #[verifier::external_body]
    fn read_i64<T: ByteOrder>(&mut self) -> (r: io::Result<i64>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 8),
            r matches Ok(v) ==> v as u64 as nat == T::dec(old(self).rest().take(8)) { unimplemented!() }
    #[verifier::external_body]
    fn read_f32<T: ByteOrder>(&mut self) -> (r: io::Result<f32>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 4),
            r matches Ok(v) ==> f32bits(v) as nat == T::dec(old(self).rest().take(4)) { unimplemented!() }
    #[verifier::external_body]
    fn read_f64<T: ByteOrder>(&mut self) -> (r: io::Result<f64>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, 8),
            r matches Ok(v) ==> f64bits(v) as nat == T::dec(old(self).rest().take(8)) { unimplemented!() }
    // std::io::Read::read_exact
    #[verifier::external_body]
    fn read_exact<B: View<V = Seq<u8>> + ?Sized>(&mut self, b: &mut B) -> (r: io::Result<()>)
        ensures took(old(self).rest(), old(self).sound(), final(self).rest(), final(self).sound(), r is Ok, old(b)@.len()),
            final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(b)@ == old(self).rest().take(old(b)@.len() as int) { unimplemented!() }
}
impl<R: io::Read> ReadBytesExt for R { }
uninterp spec fn f32bits(v: f32) -> u32;
uninterp spec fn f64bits(v: f64) -> u64;
// byteorder::WriteBytesExt on BufWriter
impl<W> BufWriter<W> {
    #[verifier::external_body]
    fn write_u8(&mut self, v: u8) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, u8s(v)) { unimplemented!() }
    #[verifier::external_body]
    fn write_u16<T: ByteOrder>(&mut self, v: u16) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as nat, 2)) { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<T: ByteOrder>(&mut self, v: u32) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as nat, 4)) { unimplemented!() }
    #[verifier::external_body]
    fn write_u64<T: ByteOrder>(&mut self, v: u64) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as nat, 8)) { unimplemented!() }
    #[verifier::external_body]
    fn write_i16<T: ByteOrder>(&mut self, v: i16) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as u16 as nat, 2)) { unimplemented!() }
    #[verifier::external_body]
    fn write_i32<T: ByteOrder>(&mut self, v: i32) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as u32 as nat, 4)) { unimplemented!() }
    #[verifier::external_body]
    fn write_i64<T: ByteOrder>(&mut self, v: i64) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(v as u64 as nat, 8)) { unimplemented!() }
    #[verifier::external_body]
    fn write_f32<T: ByteOrder>(&mut self, v: f32) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(f32bits(v) as nat, 4)) { unimplemented!() }
    #[verifier::external_body]
    fn write_f64<T: ByteOrder>(&mut self, v: f64) -> (r: io::Result<()>) ensures wrote(*old(self), *final(self), r, T::enc(f64bits(v) as nat, 8)) { unimplemented!() }
}
proof fn lemma_be(v: nat, k: nat)
    ensures be(v, k).len() == k, v < pow256(k) ==> unbe(be(v, k)) == v
    decreases k
{
    reveal_with_fuel(be, 2); reveal_with_fuel(unbe, 2);
    if k > 0 {
        lemma_be(v / 256, (k - 1) as nat);
        assert(be(v, k).drop_last() =~= be(v / 256, (k - 1) as nat));
        if v < pow256(k) {
            assert(v / 256 < pow256((k - 1) as nat)) by(nonlinear_arith) requires v < 256 * pow256((k - 1) as nat);
        }
    }
}
proof fn lemma_unbe_bound(s: Seq<u8>)
    ensures unbe(s) < pow256(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_unbe_bound(s.drop_last());
        assert(unbe(s) < 256 * pow256((s.len() - 1) as nat)) by(nonlinear_arith)
            requires unbe(s) == unbe(s.drop_last()) * 256 + s.last() as nat, unbe(s.drop_last()) < pow256((s.len() - 1) as nat), s.last() < 256;
    }
}
spec fn pow256(k: nat) -> nat decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
proof fn lemma_pow256()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{
    reveal_with_fuel(pow256, 9);
}

broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
broadcast proof fn skip_take(s: Seq<u8>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len(),
    ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n)
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
