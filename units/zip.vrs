//@include inc/base.inc
use IoErrorKind as ErrorKind;
mod io {
    use super::*;
    pub(crate) type Result<T> = core::result::Result<T, Error>;
    pub(crate) use super::{io, IoError as Error, IoErrorKind as ErrorKind, Read, Seek, SeekFrom};
}
// ---- std::io::Read and Seek (assumed of files and decoders, proved of Crc32Reader): all() is the whole content, pos() how much of it was read,
// sound(): its end is the end of the data, not a failure
trait Read {
    spec fn inv(&self) -> bool;
    spec fn all(&self) -> Seq<u8>;
    spec fn pos(&self) -> nat;
    spec fn sound(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).all() == old(self).all(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> final(self).sound() == old(self).sound() && n <= old(buf)@.len() && final(self).pos() == old(self).pos() + n
                && (n > 0 ==> old(self).pos() + n <= old(self).all().len() && final(buf)@.take(n as int) == old(self).all().subrange(old(self).pos() as int, (old(self).pos() + n) as int))
                && (n == 0 && old(buf)@.len() > 0 ==> old(self).pos() >= old(self).all().len() && old(self).sound()),
            r is Err ==> !old(self).sound() && final(self).pos() == old(self).pos();
}
enum SeekFrom { Start(u64), End(i64), Current(i64) }
spec fn target(p: SeekFrom, len: nat, pos: nat) -> int { match p { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => len + n, SeekFrom::Current(n) => pos + n } }
trait Seek: Read {
    // fails exactly where lseek does: at a position that is negative or too large
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).all() == old(self).all(), final(self).sound() == old(self).sound(), final(self).all().len() <= 0x3fff_ffff_ffff_ffff,
            r matches Ok(n) ==> n == target(p, old(self).all().len(), old(self).pos()) && final(self).pos() == n,
            r is Err ==> target(p, old(self).all().len(), old(self).pos()) < 0 || target(p, old(self).all().len(), old(self).pos()) > 0x7fff_ffff_ffff_ffff;
}
struct LittleEndian;
spec fn unle(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * unle(s.skip(1)) } }
spec fn at(b: Seq<u8>, p: int, n: int) -> nat { unle(b.subrange(p, p + n)) }
spec fn took<R: Read>(a: R, b: R, ok: bool, n: int) -> bool {
    &&& b.inv() && b.all() == a.all()
    &&& ok ==> b.sound() == a.sound() && a.pos() + n <= a.all().len() && b.pos() == a.pos() + n
    &&& !ok ==> !a.sound() || a.pos() + n > a.all().len()
}
trait ReadBytesExt: Read + Sized {
    #[verifier::external_body]
    fn read_u16<T>(&mut self) -> (r: io::Result<u16>) requires old(self).inv() ensures took(*old(self), *final(self), r is Ok, 2), r matches Ok(v) ==> v == at(old(self).all(), old(self).pos() as int, 2) { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<T>(&mut self) -> (r: io::Result<u32>) requires old(self).inv() ensures took(*old(self), *final(self), r is Ok, 4), r matches Ok(v) ==> v == at(old(self).all(), old(self).pos() as int, 4) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<T>(&mut self) -> (r: io::Result<u64>) requires old(self).inv() ensures took(*old(self), *final(self), r is Ok, 8), r matches Ok(v) ==> v == at(old(self).all(), old(self).pos() as int, 8) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: io::Result<()>) requires old(self).inv()
        ensures took(*old(self), *final(self), r is Ok, old(b)@.len() as int), final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(b)@ == old(self).all().subrange(old(self).pos() as int, (old(self).pos() + old(b)@.len()) as int) { unimplemented!() }
    #[verifier::external_body]
    fn take(self, n: u64) -> (r: Take<Self>) requires self.inv()
        ensures r.inv(), r.pos() == 0, r.sound() == self.sound(), r.all() == first(after(self.all(), self.pos() as int), n as int) { unimplemented!() }
}
impl<R: Read> ReadBytesExt for R { }
spec fn after(b: Seq<u8>, p: int) -> Seq<u8> { if p <= b.len() { b.skip(p) } else { seq![] } }
spec fn first(b: Seq<u8>, n: int) -> Seq<u8> { if n <= b.len() { b.take(n) } else { b } }
// ---- dependencies, as contracts (assumed): flate2, bzip2, crc32fast
uninterp spec fn inflated(b: Seq<u8>) -> Seq<u8>;
uninterp spec fn inflates(b: Seq<u8>) -> bool;
uninterp spec fn bunzipped(b: Seq<u8>) -> Seq<u8>;
uninterp spec fn bunzips(b: Seq<u8>) -> bool;
uninterp spec fn crc(b: Seq<u8>) -> u32;
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct Take<R> { r: R }
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct DeflateDecoder<R> { r: R }
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct BzDecoder<R> { r: R }
macro_rules! foreign_reader { ($t:ident) => { verus! {
    impl<R> $t<R> { uninterp spec fn inv_(&self) -> bool; uninterp spec fn all_(&self) -> Seq<u8>; uninterp spec fn pos_(&self) -> nat; uninterp spec fn sound_(&self) -> bool; }
    impl<R> Read for $t<R> {
        spec fn inv(&self) -> bool { self.inv_() } spec fn all(&self) -> Seq<u8> { self.all_() } spec fn pos(&self) -> nat { self.pos_() } spec fn sound(&self) -> bool { self.sound_() }
        #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    }
} } }
foreign_reader!(Take);
foreign_reader!(DeflateDecoder);
foreign_reader!(BzDecoder);
impl<R: Read> DeflateDecoder<R> {
    #[verifier::external_body]
    fn new(r: R) -> (d: DeflateDecoder<R>) requires r.inv(), r.pos() == 0 ensures d.inv(), d.pos() == 0, d.all() == inflated(r.all()), d.sound() == (r.sound() && inflates(r.all())) { unimplemented!() }
}
impl<R: Read> BzDecoder<R> {
    #[verifier::external_body]
    fn new(r: R) -> (d: BzDecoder<R>) requires r.inv(), r.pos() == 0 ensures d.inv(), d.pos() == 0, d.all() == bunzipped(r.all()), d.sound() == (r.sound() && bunzips(r.all())) { unimplemented!() }
}
mod crc32fast {
    use super::*;
    #[verifier::external_body] pub(crate) struct Hasher { }
    impl Hasher {
        pub(crate) uninterp spec fn seen(&self) -> Seq<u8>;
        #[verifier::external_body] pub(crate) fn new() -> (r: Hasher) ensures r.seen() == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub(crate) fn update(&mut self, b: &[u8]) ensures final(self).seen() == old(self).seen() + b@ { unimplemented!() }
        #[verifier::external_body] pub(crate) fn finish(&self) -> (r: u64) ensures r == crc(self.seen()) { unimplemented!() }
    }
}
#[verifier::external_body]
fn range(s: &[u8], a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
fn is_empty(s: &[u8]) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }

// ---- the checksum at the end
//@item src/decompress/crc32.rs | struct | Crc32Reader
impl<R: Read> Crc32Reader<R> {
    //@fn src/decompress/crc32.rs | Crc32Reader | new
        //@ret r
        //@spec
        requires reader.inv(), reader.pos() == 0,
        ensures r.inv(), r.pos() == 0, r.all() == reader.all(), r.sound() == (reader.sound() && crc(reader.all()) == expected_crc32),
        //@start
        assert(reader.all().take(0) =~= Seq::<u8>::empty());
    //@end
}
impl<R: Read> Read for Crc32Reader<R> {
    spec fn inv(&self) -> bool { self.reader.inv() && self.reader.pos() <= self.reader.all().len() && self.hasher.seen() == self.reader.all().take(self.reader.pos() as int) }
    spec fn all(&self) -> Seq<u8> { self.reader.all() }
    spec fn pos(&self) -> nat { self.reader.pos() }
    spec fn sound(&self) -> bool { self.reader.sound() && crc(self.reader.all()) == self.crc32 }
    //@fn src/decompress/crc32.rs | Read for Crc32Reader | read
        //@ret r
        //@rw «&$b[0..$e]» => «range($b, 0, $e)» (std range index as a function with a contract)
        //@rw «$b.is_empty()» => «is_empty($b)» (std method as a function with a contract)
        //@start
        broadcast use take_more;
        assert(self.reader.all().take(self.reader.all().len() as int) =~= self.reader.all());
        assert forall|s: Seq<u8>| (#[trigger] s.subrange(0, 0)) =~= seq![] by { }
    //@end
}
broadcast proof fn take_more(s: Seq<u8>, p: int, n: int, t: Seq<u8>)
    requires 0 <= p, 0 <= n <= t.len(), p + n <= s.len(), n > 0 ==> t.take(n) == s.subrange(p, p + n),
    ensures #![trigger s.take(p) + t.subrange(0, n)] s.take(p) + t.subrange(0, n) == s.take(p + n)
{ assert(t.subrange(0, n) =~= t.take(n)); if n > 0 { assert(s.take(p) + t.take(n) =~= s.take(p + n)); } else { assert(s.take(p) + t.take(n) =~= s.take(p)); } }

// ---- the archive format (APPNOTE.TXT), for one entry
// the end record: the last one whose comment ends at the end of the file, else the last one; d: how far before the end
spec fn sig_at(b: Seq<u8>, d: int) -> bool { 4 <= d < b.len() && d < 0x10_0000 && at(b, b.len() - d, 4) == 0x06054b50 }
spec fn ends_at(b: Seq<u8>, d: int) -> bool { sig_at(b, d) && d >= 22 && at(b, b.len() - d + 20, 2) == d - 22 }
spec fn end_record(b: Seq<u8>, d: int) -> bool {
    &&& sig_at(b, d)
    &&& ends_at(b, d) && (forall|q: int| 0 <= q < d ==> !ends_at(b, q))
        || (forall|q: int| !ends_at(b, q)) && (forall|q: int| 0 <= q < d ==> !sig_at(b, q))
}
proof fn end_record_is_one(b: Seq<u8>, c: int, d: int) requires end_record(b, c), end_record(b, d) ensures c == d { }
spec fn is_place(d: Option<i64>) -> bool { true }
// where the central directory is, given the end record's place e (after its signature)
spec fn dir_of(b: Seq<u8>, e: int) -> Option<nat> {
    if e + 18 > b.len() || at(b, e, 2) != 0 || at(b, e + 2, 2) != 0 || at(b, e + 4, 2) != 1 || at(b, e + 6, 2) != 1 { None }
    else {
        let l = b.len() - (at(b, e + 16, 2) + 42);
        if l < 0 || at(b, l, 4) != 0x07064b50 { Some(at(b, e + 12, 4)) }
        else if at(b, l + 4, 4) != 0 || at(b, l + 16, 4) != 1 { None }
        else { dir_of_64(b, at(b, l + 8, 8) as int) }
    }
}
spec fn dir_of_64(b: Seq<u8>, z: int) -> Option<nat> {
    if z + 56 > b.len() || at(b, z, 4) != 0x06064b50 || at(b, z + 16, 4) != 0 || at(b, z + 20, 4) != 0 || at(b, z + 24, 8) != 1 || at(b, z + 32, 8) != 1 { None }
    else { Some(at(b, z + 48, 8)) }
}
struct Sizes { un: nat, co: nat, off: nat }
// the zip64 values of one extra field at p
spec fn wide(b: Seq<u8>, p: int, z: Sizes) -> (Sizes, int) {
    let (un, p) = if z.un == 0xffff_ffff { (at(b, p, 8), p + 8) } else { (z.un, p) };
    let (co, p) = if z.co == 0xffff_ffff { (at(b, p, 8), p + 8) } else { (z.co, p) };
    let (off, p) = if z.off == 0xffff_ffff { (at(b, p, 8), p + 8) } else { (z.off, p) };
    (Sizes { un, co, off }, p)
}
spec fn extra(b: Seq<u8>, p: int, left: int, z: Sizes) -> Option<(Sizes, int)> decreases if left > 0 { left } else { 0 } {
    if left <= 0 { Some((z, p)) }
    else if p + 4 > b.len() { None }
    else {
        let (w, q) = if at(b, p, 2) == 1 { wide(b, p + 4, z) } else { (z, p + 4) };
        let size = at(b, p + 2, 2) as int;
        if q > b.len() || q - (p + 4) > size { None } else { extra(b, p + 4 + size, left - 4 - size, w) }
    }
}
struct Entry { method: nat, crc: nat, sizes: Sizes, name: Seq<char> }
uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
spec fn ascii_char() -> spec_fn(u8) -> char { |b: u8| if b <= 0x7f { b as char } else { '\u{fffd}' } }
spec fn ascii(b: Seq<u8>) -> Seq<char> { b.map_values(ascii_char()) }
spec fn entry(b: Seq<u8>, c: int) -> Option<Entry> {
    let n = at(b, c + 28, 2);
    let flag = at(b, c + 8, 2) as u16;
    if c + 46 + n > b.len() || at(b, c, 4) != 0x02014b50 { None }
    else {
        let x = extra(b, c + 46 + n, at(b, c + 30, 2) as int, Sizes { un: at(b, c + 24, 4), co: at(b, c + 20, 4), off: at(b, c + 42, 4) });
        if x is None || flag & 1 != 0 || (at(b, c + 34, 2) != 0 && at(b, c + 34, 2) != 0xffff) { None }
        else {
            let name = b.subrange(c + 46, c + 46 + n);
            Some(Entry { method: at(b, c + 10, 2), crc: at(b, c + 16, 4), sizes: x->Some_0.0, name: if flag & 0x800 != 0 { lossy(name) } else { ascii(name) } })
        }
    }
}
// the packed bytes of the entry whose local header is at o
spec fn data(b: Seq<u8>, o: int) -> Option<int> {
    if o + 30 > b.len() || at(b, o, 4) != 0x04034b50 { None } else { Some(o + 30 + at(b, o + 26, 2) + at(b, o + 28, 2)) }
}
struct File { name: Seq<char>, bytes: Seq<u8>, whole: bool }
spec fn unpacked(e: Entry, raw: Seq<u8>) -> Option<File> {
    if e.method == 0 { Some(File { name: e.name, bytes: raw, whole: crc(raw) == e.crc }) }
    else if e.method == 8 { Some(File { name: e.name, bytes: inflated(raw), whole: inflates(raw) && crc(inflated(raw)) == e.crc }) }
    else if e.method == 12 { Some(File { name: e.name, bytes: bunzipped(raw), whole: bunzips(raw) && crc(bunzipped(raw)) == e.crc }) }
    else { None }
}
spec fn file_at(b: Seq<u8>, d: int) -> Option<File> {
    match dir_of(b, b.len() - d + 4) {
        None => None,
        Some(c) => match entry(b, c as int) {
            None => None,
            Some(e) => match data(b, e.sizes.off as int) { None => None, Some(p) => unpacked(e, first(after(b, p), e.sizes.co as int)) },
        },
    }
}

//@rwall «std::cmp::min($a, $b)» => «min($a, $b)» (std function as a function with a contract)
//@rwall «Error::new» => «io::Error::new» (the file imports std::io::Error)
//@item src/decompress/zip.rs | const | LOCAL_FILE_HEADER_SIGNATURE
//@item src/decompress/zip.rs | const | CENTRAL_FILE_HEADER_SIGNATURE
//@item src/decompress/zip.rs | const | END_OF_CENTRAL_DIR_RECORD_SIGNATURE
//@item src/decompress/zip.rs | const | ZIP64_END_OF_CENTRAL_DIR_RECORD_SIGNATURE
//@item src/decompress/zip.rs | const | ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE
//@item src/decompress/zip.rs | const | MAX_EOCDR_SEARCH_BACK_OFFSET
//@item src/decompress/zip.rs | const | LOCAL_HEADER_FIXED_FIELDS_SIZE
//@item src/decompress/zip.rs | const | END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE
//@item src/decompress/zip.rs | const | ZIP64_END_OF_CENTRAL_DIRECTORY_LOCATOR_FIXED_FIELDS_SIZE
//@item src/decompress/zip.rs | const | SIGNATURE_SIZE
//@item src/decompress/zip.rs | struct | EndOfCentralDirRecord
//@item src/decompress/zip.rs | struct | CentralDirHeader
//@fn src/decompress/zip.rs | - | is_zip
    //@ret r
    //@spec
    requires old(reader).inv(),
    ensures
        r matches Ok(x) ==> x == (old(reader).all().len() >= 4 && at(old(reader).all(), 0, 4) == 0x04034b50),
        r is Err ==> !old(reader).sound(),
        final(reader).inv(), final(reader).all() == old(reader).all(),
//@end
//@fn src/decompress/zip.rs | - | find_eocdr_and_prepare_to_read
    //@ret r
    //@spec
    requires old(reader).inv(),
    ensures
        final(reader).inv(), final(reader).all() == old(reader).all(), final(reader).all().len() <= 0x7fff_ffff_ffff_ffff,
        r is Ok ==> final(reader).sound() == old(reader).sound() && end_record(old(reader).all(), old(reader).all().len() - final(reader).pos() + 4),
        r is Err ==> !old(reader).sound() || forall|d: int| !sig_at(old(reader).all(), d),
    //@start
    assert(1i64 << 20 == 0x10_0000) by(bit_vector);
    //@loop 0
        invariant_except_break
            is_place(found), forall|q: int| 0 <= q < pos ==> !ends_at(reader.all(), q),
            found matches Some(d) ==> sig_at(reader.all(), d as int) && d < pos && (forall|q: int| 0 <= q < d ==> !sig_at(reader.all(), q)),
            found is None ==> forall|q: int| 0 <= q < pos ==> !sig_at(reader.all(), q),
        invariant
            reader.inv(), reader.all() == old(reader).all(), reader.sound() == old(reader).sound(), file_size == reader.all().len(), file_size <= 0x7fff_ffff_ffff_ffff,
            max_back == if file_size <= 0x10_0000 { file_size as int } else { 0x10_0000 }, 4 <= pos,
        ensures
            found matches Some(d) ==> end_record(reader.all(), d as int),
            found is None ==> forall|q: int| !sig_at(reader.all(), q),
        decreases max_back - pos,
//@end
impl EndOfCentralDirRecord {
//@fn src/decompress/zip.rs | EndOfCentralDirRecord | read
    //@ret r
    //@spec
    requires old(reader).inv(),
    ensures ({
        let b = old(reader).all(); let e = old(reader).pos() as int;
        &&& final(reader).inv() && final(reader).all() == b
        &&& r is Ok ==> final(reader).sound() == old(reader).sound()
        &&& r matches Ok(x) ==> e + 18 <= b.len() && at(b, e, 2) == 0 && at(b, e + 2, 2) == 0 && at(b, e + 4, 2) == 1 && at(b, e + 6, 2) == 1
            && x.start_of_central_directory_offset == at(b, e + 12, 4) && x.zip_file_comment_length == at(b, e + 16, 2) && 0 <= x.zip_file_comment_length <= 0xffff
        &&& r is Err ==> !old(reader).sound() || dir_of(b, e) is None
    }),
//@end
}
//@fn src/decompress/zip.rs | - | read_zip64_eocdl_and_get_eocdr_offset
    //@ret r
    //@spec
    requires old(reader).inv(),
    ensures ({
        let b = old(reader).all(); let l = old(reader).pos() as int;
        &&& final(reader).inv() && final(reader).all() == b
        &&& r is Ok ==> final(reader).sound() == old(reader).sound()
        &&& r matches Ok(x) ==> x == at(b, l + 4, 8) && at(b, l, 4) == 0 && at(b, l + 12, 4) == 1
        &&& r is Err ==> !old(reader).sound() || l + 16 > b.len() || at(b, l, 4) != 0 || at(b, l + 12, 4) != 1
    }),
//@end
//@fn src/decompress/zip.rs | - | read_zip64_eocdr_and_get_central_dir_offset
    //@ret r
    //@spec
    requires old(reader).inv(), old(reader).pos() >= 4, at(old(reader).all(), old(reader).pos() - 4, 4) == 0x06064b50,
    ensures ({
        let b = old(reader).all(); let z = old(reader).pos() - 4;
        &&& final(reader).inv() && final(reader).all() == b
        &&& r is Ok ==> final(reader).sound() == old(reader).sound()
        &&& r matches Ok(x) ==> dir_of_64(b, z) == Some(x as nat)
        &&& r is Err ==> !old(reader).sound() || dir_of_64(b, z) is None
    }),
//@end
//@fn src/decompress/zip.rs | - | get_start_of_central_dir_offset
    //@ret r
    //@spec
    requires old(reader).inv(), 0 <= eocdr.zip_file_comment_length <= 0xffff,
    ensures ({
        let b = old(reader).all();
        &&& final(reader).inv() && final(reader).all() == b
        &&& r is Ok ==> final(reader).sound() == old(reader).sound()
        &&& forall|e: int| 0 <= e && e + 18 <= b.len() && at(b, e, 2) == 0 && at(b, e + 2, 2) == 0 && at(b, e + 4, 2) == 1 && at(b, e + 6, 2) == 1
            && eocdr.start_of_central_directory_offset == at(b, e + 12, 4) && eocdr.zip_file_comment_length == at(b, e + 16, 2)
            ==> (r is Ok ==> #[trigger] dir_of(b, e) == Some(r->Ok_0 as nat)) && (r is Err ==> !old(reader).sound() || dir_of(b, e) is None)
    }),
//@end
impl CentralDirHeader {
    //@fn src/decompress/zip.rs | CentralDirHeader | read_extra_field
        //@ret r
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires old(reader).inv(), extra_field_length <= 0xffff, old(reader).pos() <= old(reader).all().len(),
        ensures ({
            let b = old(reader).all();
            let x = extra(b, old(reader).pos() as int, extra_field_length as int, Sizes { un: uncompressed_size as nat, co: compressed_size as nat, off: local_header_offset as nat });
            &&& final(reader).inv() && final(reader).all() == b
            &&& r is Ok ==> final(reader).sound() == old(reader).sound() && final(reader).pos() <= b.len() + 0x1_0000
            &&& r matches Ok(v) ==> x == Some((Sizes { un: v.0 as nat, co: v.1 as nat, off: v.2 as nat }, final(reader).pos() as int))
            &&& r is Err ==> !old(reader).sound() || x is None
        }),
        //@start
        let ghost whole = extra(old(reader).all(), old(reader).pos() as int, extra_field_length as int, Sizes { un: uncompressed_size as nat, co: compressed_size as nat, off: local_header_offset as nat });
        //@loop 0
            invariant
                reader.inv(), reader.all() == old(reader).all(), reader.sound() == old(reader).sound(), reader.pos() <= reader.all().len() + 0x1_0000, total_bytes_read <= extra_field_length + 0x10003, extra_field_length <= 0xffff,
                whole == extra(reader.all(), reader.pos() as int, extra_field_length - total_bytes_read, Sizes { un: uncompressed_size as nat, co: compressed_size as nat, off: local_header_offset as nat }),
            decreases if total_bytes_read < extra_field_length { extra_field_length - total_bytes_read } else { 0 },
    //@end
    //@fn src/decompress/zip.rs | CentralDirHeader | read
        //@ret r
        //@rw «vec![0; $n]» => «zeros($n)» (std macro as a function with a contract)
        //@rw «String::from_utf8_lossy(&*$v).into_owned()» => «from_utf8_lossy(&$v)» (std conversion as a function with a contract)
        //@rw «file_name_bytes.into_iter().map(|$b| $e).collect()» => «collect_chars(file_name_bytes, |$b| $e)» (std iterator as a function with a contract)
        //@rw «std::char::from_u32($e).unwrap()» => «char_of($e)» (std function as a function with a contract)
        //@closure 0 «b: u8» «-> (c: char) ensures c == (if b <= 0x7f { b as char } else { '\u{fffd}' })»
        //@spec
        requires old(reader).inv(),
        ensures ({
            let b = old(reader).all(); let e = entry(b, old(reader).pos() as int);
            &&& final(reader).inv() && final(reader).all() == b
            &&& r is Ok ==> final(reader).sound() == old(reader).sound()
            &&& r matches Ok(h) ==> e is Some && h.compression_method == e->Some_0.method && h.crc32 == e->Some_0.crc && h.file_name@ == e->Some_0.name
                && h.compressed_size == e->Some_0.sizes.co && h.local_header_offset == e->Some_0.sizes.off
            &&& r is Err ==> !old(reader).sound() || e is None
        }),
        //@start
        assert(1u16 << 11 == 0x800) by(bit_vector);
    //@end
}
#[verifier::external_body]
fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
fn from_utf8_lossy(b: &Vec<u8>) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body]
fn collect_chars<F: Fn(u8) -> char>(v: Vec<u8>, f: F) -> (r: String) requires forall|b: u8| f.requires((b,)) ensures forall|g: spec_fn(u8) -> char| (forall|b: u8, c: char| #[trigger] f.ensures((b,), c) ==> c == g(b)) ==> r@ == #[trigger] v@.map_values(g) { unimplemented!() }
#[verifier::external_body]
fn char_of(n: u32) -> (r: char) requires n < 0xd800 || 0xe000 <= n < 0x11_0000 ensures r as u32 == n { unimplemented!() }
//@fn src/decompress/zip.rs | - | new_reader_for_single_file_zip_archive
    //@ret r
    //@spec
    requires reader.inv(),
    ensures
        r matches Ok(x) ==> exists|d: int| #[trigger] end_record(reader.all(), d) && gives(file_at(reader.all(), d), x, reader.sound()),
        r is Err ==> !reader.sound() || (forall|d: int| end_record(reader.all(), d) ==> #[trigger] file_at(reader.all(), d) is None),
//@end
spec fn gives(f: Option<File>, x: (Box<dyn Read>, String), sound: bool) -> bool {
    f is Some && x.0.inv() && x.0.pos() == 0 && x.1@ == f->Some_0.name && x.0.all() == f->Some_0.bytes && x.0.sound() == (sound && f->Some_0.whole)
}
fn min(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
fn main() {}
} // verus!
