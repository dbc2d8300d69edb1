mod flate2 { pub(crate) mod read { pub(crate) use super::super::{GzDecoder, MultiGzDecoder}; } }
// ---- std and byteorder, as contracts (assumed)
impl Read for Box<dyn Read> {
    spec fn inv(&self) -> bool { (**self).inv() }
    spec fn rest(&self) -> Seq<u8> { (**self).rest() }
    spec fn sound(&self) -> bool { (**self).sound() }
    spec fn steady(&self) -> bool { (**self).steady() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
fn as_slice(b: &Box<[u8]>) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn no_bytes(a: &[u8]) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn bytes_begin(s: &[u8], p: &[u8]) -> (r: bool) ensures r == opens(s@, p@) { unimplemented!() }
#[verifier::external_body]
fn str_upto(s: &str, n: usize) -> (r: &str)
    requires n <= encode_utf8(s@).len(), valid_utf8(encode_utf8(s@).take(n as int)),
    ensures encode_utf8(r@) == encode_utf8(s@).take(n as int) { unimplemented!() }
#[verifier::external_body]
fn str_ends(s: &str, p: &str) -> (r: bool) ensures r == ends(s@, p@) { unimplemented!() }
#[verifier::external_body]
fn text_upto(s: &str, n: usize) -> (r: String)
    requires n <= encode_utf8(s@).len(), valid_utf8(encode_utf8(s@).take(n as int)),
    ensures encode_utf8(r@) == encode_utf8(s@).take(n as int) { unimplemented!() }
spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
trait ByteOrder { spec fn num(b: Seq<u8>) -> u32; }
struct LittleEndian; struct BigEndian;
spec fn le32(b: Seq<u8>) -> u32 { b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24 }
spec fn be32(b: Seq<u8>) -> u32 { b[3] as u32 | (b[2] as u32) << 8 | (b[1] as u32) << 16 | (b[0] as u32) << 24 }
impl ByteOrder for LittleEndian { spec fn num(b: Seq<u8>) -> u32 { le32(b) } }
impl ByteOrder for BigEndian { spec fn num(b: Seq<u8>) -> u32 { be32(b) } }
spec fn took<R: Read>(a: R, b: R, ok: bool, n: int) -> bool {
    &&& ok ==> b.inv() && b.sound() == a.sound() && b.steady() == a.steady() && n <= a.rest().len() && b.rest() == a.rest().skip(n)
    &&& !ok ==> !a.sound() || n > a.rest().len()
}
trait ReadMore: Read + Sized {
    #[verifier::external_body]
    fn read_u32<T: ByteOrder>(&mut self) -> (r: io::Result<u32>) requires old(self).inv()
        ensures took(*old(self), *final(self), r is Ok, 4), r matches Ok(v) ==> v == T::num(old(self).rest().take(4)) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact<const N: usize>(&mut self, b: &mut [u8; N]) -> (r: io::Result<()>) requires old(self).inv()
        ensures took(*old(self), *final(self), r is Ok, N as int), r is Ok ==> final(b)@ == old(self).rest().take(N as int) { unimplemented!() }
}
impl<R: Read> ReadMore for R { }

// ---- which format
//@static src/decompress/decompress.rs | GZ
//@static src/decompress/decompress.rs | LZ4
//@static src/decompress/decompress.rs | LZF
//@static src/decompress/decompress.rs | ZIP
//@static src/decompress/decompress.rs | ZST
//@item src/decompress/decompress.rs | enum | DecompressionFormat
use DecompressionFormat as Packing;
spec fn by_suffix(s: Seq<char>) -> Option<(Packing, Seq<char>)> {
    if ends(s, ".gz"@) { Some((Packing::GZ, s.take(s.len() - 3))) }
    else if ends(s, ".lz4"@) { Some((Packing::LZ4, s.take(s.len() - 4))) }
    else if ends(s, ".lzf"@) { Some((Packing::LZF, s.take(s.len() - 4))) }
    else if ends(s, ".zip"@) { Some((Packing::ZIP, s.take(s.len() - 4))) }
    else if ends(s, ".zst"@) { Some((Packing::ZST, s.take(s.len() - 4))) }
    else { None }
}
spec fn opens(b: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= b.len() && b.take(p.len() as int) == p }
spec fn jblock_magic() -> Seq<u8> { seq![0x4C, 0x5A, 0x34, 0x42, 0x6C, 0x6F, 0x63, 0x6B] }     // LZ4Block
spec fn by_bytes(b: Seq<u8>) -> Option<Packing> {
    if b.len() < 4 { None }
    else if opens(b, seq![0x1F, 0x8B, 8]) { Some(Packing::GZ) }
    else if opens(b, seq![0x04, 0x22, 0x4D, 0x18]) || opens(b, jblock_magic()) { Some(Packing::LZ4) }
    else if opens(b, seq![0x5A, 0x56, 0]) || opens(b, seq![0x5A, 0x56, 1]) { Some(Packing::LZF) }
    else if opens(b, seq![0x50, 0x4B, 3, 4]) { Some(Packing::ZIP) }
    else if opens(b, seq![0x28, 0xB5, 0x2F, 0xFD]) { Some(Packing::ZST) }
    else { None }
}
proof fn lemma_utf8_add(a: Seq<char>, b: Seq<char>)
    ensures encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b)
    decreases a.len()
{
    reveal_with_fuel(encode_utf8, 2);
    if a.len() == 0 { assert(a + b =~= b); assert(encode_utf8(a) =~= seq![]); assert(seq![] + encode_utf8(b) =~= encode_utf8(b)); }
    else {
        lemma_utf8_add(a.skip(1), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(a.drop_first() =~= a.skip(1));
        assert(encode_utf8(a + b) =~= encode_utf8(a) + encode_utf8(b));
    }
}
// a name without its (ASCII) suffix
broadcast proof fn lemma_without(s: Seq<char>, p: Seq<char>)
    requires ends(s, p), is_ascii_chars(p),
    ensures
        #![trigger ends(s, p)]
        p.len() <= encode_utf8(s).len(), encode_utf8(p).len() == p.len(),
        encode_utf8(s).take(encode_utf8(s).len() - p.len()) == encode_utf8(s.take(s.len() - p.len())),
        valid_utf8(encode_utf8(s).take(encode_utf8(s).len() - p.len())),
{
    let a = s.take(s.len() - p.len());
    assert(s =~= a + p);
    lemma_utf8_add(a, p);
    is_ascii_chars_encode_utf8(p);
    assert(encode_utf8(s).take(encode_utf8(s).len() - p.len()) =~= encode_utf8(a));
    encode_utf8_valid_utf8(a);
}
broadcast proof fn lemma_same_text(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures #![trigger encode_utf8(a), encode_utf8(b)] a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
//@fn src/decompress/decompress.rs | - | is_compressed_using_format
    //@ret r
    //@rw «$s[..$e].to_owned()» => «text_upto($s, $e)» (std range index as a function with a contract)
    //@rw «&$s[..$e]» => «str_upto($s, $e)» (std range index as a function with a contract)
    //@rw «$s.ends_with($p)» => «str_ends($s, $p)» (std method as a function with a contract)
    //@rw «$s.len()» => «str_len($s)» (std method as a function with a contract)
    //@spec
    ensures match by_suffix(format@) { Some(v) => r is Some && r->Some_0.0 == v.0 && r->Some_0.1@ == v.1, None => r is None },
    //@start
    broadcast use lemma_without, lemma_same_text;
    proof {
        reveal_strlit(".gz"); reveal_strlit(".lz4"); reveal_strlit(".lzf"); reveal_strlit(".zip"); reveal_strlit(".zst");
        is_ascii_chars_encode_utf8(".gz"@); is_ascii_chars_encode_utf8(".lz4"@); is_ascii_chars_encode_utf8(".lzf"@); is_ascii_chars_encode_utf8(".zip"@); is_ascii_chars_encode_utf8(".zst"@);
    }
//@end
spec fn previewed(p: ChopperBufPreviewer<Box<dyn Read>>) -> bool { p.reader.inv() && p.trimmed_buf@ == start_of(p.reader.rest()) }
proof fn lemma_start(b: Seq<u8>, p: Seq<u8>)
    requires p.len() <= 8,
    ensures opens(start_of(b), p) == opens(b, p)
{ if b.len() >= 8192 && p.len() <= b.len() { assert(b.take(8192).take(p.len() as int) =~= b.take(p.len() as int)); } }
proof fn lemma_by_bytes(b: Seq<u8>)
    ensures by_bytes(start_of(b)) == by_bytes(b)
{
    lemma_start(b, seq![0x1F, 0x8B, 8]); lemma_start(b, seq![0x04, 0x22, 0x4D, 0x18]); lemma_start(b, jblock_magic()); lemma_start(b, seq![0x5A, 0x56, 0]);
    lemma_start(b, seq![0x5A, 0x56, 1]); lemma_start(b, seq![0x50, 0x4B, 3, 4]); lemma_start(b, seq![0x28, 0xB5, 0x2F, 0xFD]);
}
proof fn lemma_be32(b: Seq<u8>, a0: u8, a1: u8, a2: u8, a3: u8, v: u32)
    requires b.len() == 4, v == a3 + 0x100 * a2 + 0x1_0000 * a1 + 0x100_0000 * a0,
    ensures be32(b) == v <==> b == seq![a0, a1, a2, a3],
        be32(b) & 0xFFFFFF00 == v & 0xFFFFFF00 <==> b.take(3) == seq![a0, a1, a2],
{
    let (x0, x1, x2, x3) = (b[0], b[1], b[2], b[3]);
    assert((a3 as u32 | (a2 as u32) << 8 | (a1 as u32) << 16 | (a0 as u32) << 24) == add(add(a3 as u32, mul(0x100, a2 as u32)), add(mul(0x1_0000, a1 as u32), mul(0x100_0000, a0 as u32)))) by(bit_vector);
    assert((x3 as u32 | (x2 as u32) << 8 | (x1 as u32) << 16 | (x0 as u32) << 24) == (a3 as u32 | (a2 as u32) << 8 | (a1 as u32) << 16 | (a0 as u32) << 24)
        <==> x0 == a0 && x1 == a1 && x2 == a2 && x3 == a3) by(bit_vector);
    assert((x3 as u32 | (x2 as u32) << 8 | (x1 as u32) << 16 | (x0 as u32) << 24) & 0xFFFFFF00 == (a3 as u32 | (a2 as u32) << 8 | (a1 as u32) << 16 | (a0 as u32) << 24) & 0xFFFFFF00
        <==> x0 == a0 && x1 == a1 && x2 == a2) by(bit_vector);
    assert(b.len() == 4 && x0 == a0 && x1 == a1 && x2 == a2 && x3 == a3 ==> b =~= seq![a0, a1, a2, a3]);
    assert(x0 == a0 && x1 == a1 && x2 == a2 ==> b.take(3) =~= seq![a0, a1, a2]);
    if b.take(3) == seq![a0, a1, a2] { assert(b.take(3)[0] == a0 && b.take(3)[1] == a1 && b.take(3)[2] == a2); }
    if b == seq![a0, a1, a2, a3] { assert(b[0] == a0 && b[1] == a1 && b[2] == a2 && b[3] == a3); }
}
proof fn lemma_magics(b: Seq<u8>)
    ensures
        b.len() >= 4 ==> ({
            let x = be32(b.take(4));
            &&& (x & 0xFFFFFF00 == 0x1F8B0800) == opens(b, seq![0x1F, 0x8B, 8])
            &&& (x == 0x04224D18) == opens(b, seq![0x04, 0x22, 0x4D, 0x18])
            &&& (x & 0xFFFFFF00 == 0x5A560000) == opens(b, seq![0x5A, 0x56, 0])
            &&& (x & 0xFFFFFF00 == 0x5A560100) == opens(b, seq![0x5A, 0x56, 1])
            &&& (x == 0x504B0304) == opens(b, seq![0x50, 0x4B, 3, 4])
            &&& (x == 0x28B52FFD) == opens(b, seq![0x28, 0xB5, 0x2F, 0xFD])
            &&& opens(b, jblock_magic()) == (b.len() >= 8 && x == 0x4C5A3442 && be32(b.skip(4).take(4)) == 0x6C6F636B)
            &&& x != 0x4C5A3442 || be32(b.skip(4).take(4)) != 0x6C6F636B ==> !opens(b, jblock_magic())
        }),
{
    if b.len() >= 4 {
        let h = b.take(4);
        assert forall|p: Seq<u8>| p.len() <= 4 implies #[trigger] opens(b, p) == (h.take(p.len() as int) == p) by { assert(h.take(p.len() as int) =~= b.take(p.len() as int)); }
        assert(h.take(4) =~= h);
        assert(0x1F8B0800u32 & 0xFFFFFF00 == 0x1F8B0800u32 && 0x5A560000u32 & 0xFFFFFF00 == 0x5A560000 && 0x5A560100u32 & 0xFFFFFF00 == 0x5A560100) by(bit_vector);
        lemma_be32(h, 0x1F, 0x8B, 8, 0, 0x1F8B0800);
        lemma_be32(h, 0x04, 0x22, 0x4D, 0x18, 0x04224D18);
        lemma_be32(h, 0x5A, 0x56, 0, 0, 0x5A560000);
        lemma_be32(h, 0x5A, 0x56, 1, 0, 0x5A560100);
        lemma_be32(h, 0x50, 0x4B, 3, 4, 0x504B0304);
        lemma_be32(h, 0x28, 0xB5, 0x2F, 0xFD, 0x28B52FFD);
        lemma_be32(h, 0x4C, 0x5A, 0x34, 0x42, 0x4C5A3442);
        if b.len() >= 8 {
            let g = b.skip(4).take(4);
            lemma_be32(g, 0x6C, 0x6F, 0x63, 0x6B, 0x6C6F636B);
            assert(b.take(8) =~= h + g);
            if b.take(8) == jblock_magic() {
                assert(h =~= jblock_magic().take(4)); assert(g =~= jblock_magic().skip(4));
                assert(jblock_magic().take(4) =~= seq![0x4C, 0x5A, 0x34, 0x42]); assert(jblock_magic().skip(4) =~= seq![0x6C, 0x6F, 0x63, 0x6B]);
            }
            if h == seq![0x4Cu8, 0x5A, 0x34, 0x42] && g == seq![0x6Cu8, 0x6F, 0x63, 0x6B] { assert(h + g =~= jblock_magic()); }
        }
    }
}
//@fn src/decompress/decompress.rs | - | is_compressed_using_previewer
    //@ret r
    //@rw «BufReader::new($b.as_ref())» => «as_slice($b)» (a slice is a reader of its bytes)
    //@rw «$s.starts_with($p)» => «bytes_begin($s, $p)» (std method as a function with a contract)
    //@spec
    requires previewed(*previewer),
    ensures r == by_bytes(previewer.reader.rest()),
    //@start
    proof {
        lemma_by_bytes(previewer.reader.rest()); lemma_magics(previewer.trimmed_buf@);
        assert(forall|x: u32| #![trigger x >> 8i32] (x >> 8i32 == 0x1F8B08 <==> x & 0xFFFFFF00 == 0x1F8B0800) && (x >> 8i32 == 0x5A5600 <==> x & 0xFFFFFF00 == 0x5A560000) && (x >> 8i32 == 0x5A5601 <==> x & 0xFFFFFF00 == 0x5A560100)) by(bit_vector);
        assert([0x1Fu8, 0x8B, 8]@ =~= seq![0x1Fu8, 0x8B, 8]); assert([0x04u8, 0x22, 0x4D, 0x18]@ =~= seq![0x04u8, 0x22, 0x4D, 0x18]); assert([76u8, 90u8, 52u8, 66u8, 108u8, 111u8, 99u8, 107u8]@ =~= jblock_magic());
        assert([0x5Au8, 0x56, 0]@ =~= seq![0x5Au8, 0x56, 0]); assert([0x5Au8, 0x56, 1]@ =~= seq![0x5Au8, 0x56, 1]); assert([0x50u8, 0x4B, 3, 4]@ =~= seq![0x50u8, 0x4B, 3, 4]); assert([0x28u8, 0xB5, 0x2F, 0xFD]@ =~= seq![0x28u8, 0xB5, 0x2F, 0xFD]);
    }
//@end
// ---- decoders of other crates: functions of the bytes they read (assumed).  .0: the bytes, .1: the data are complete and undamaged
uninterp spec fn gz_members(b: Seq<u8>) -> (Seq<u8>, bool);             // every member
uninterp spec fn gz_member(b: Seq<u8>) -> (Seq<u8>, bool);              // the first one
uninterp spec fn lzf_chunks(b: Seq<u8>) -> (Seq<u8>, bool);
uninterp spec fn lz4_jblocks(b: Seq<u8>, stop: bool, check: bool) -> (Seq<u8>, bool);
macro_rules! foreign_reader { ($t:ident) => { verus! {
    #[verifier::external_body] #[verifier::reject_recursive_types(R)] struct $t<R> { r: R }
    impl<R> $t<R> { uninterp spec fn inv_(&self) -> bool; uninterp spec fn rest_(&self) -> Seq<u8>; uninterp spec fn sound_(&self) -> bool; }
    impl<R> Read for $t<R> {
        spec fn inv(&self) -> bool { self.inv_() } spec fn rest(&self) -> Seq<u8> { self.rest_() } spec fn sound(&self) -> bool { self.sound_() } spec fn steady(&self) -> bool { false }
        #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    }
} } }
foreign_reader!(MultiGzDecoder);
foreign_reader!(GzDecoder);
foreign_reader!(LzfReader);
foreign_reader!(Lz4JBlockReader);
// a reader of what was packed
spec fn unpacks<D: Read, R: Read>(d: D, r: R, u: (Seq<u8>, bool)) -> bool { d.inv() && d.rest() == u.0 && d.sound() == (u.1 && r.sound()) }
impl<R: Read> MultiGzDecoder<R> { #[verifier::external_body] fn new(r: R) -> (d: MultiGzDecoder<R>) requires r.inv() ensures unpacks(d, r, gz_members(r.rest())) { unimplemented!() } }
impl<R: Read> GzDecoder<R> { #[verifier::external_body] fn new(r: R) -> (d: GzDecoder<R>) requires r.inv() ensures unpacks(d, r, gz_member(r.rest())) { unimplemented!() } }
impl<R: Read> LzfReader<R> { #[verifier::external_body] fn new(r: R) -> (d: LzfReader<R>) requires r.inv() ensures unpacks(d, r, lzf_chunks(r.rest())) { unimplemented!() } }
impl<R: Read> Lz4JBlockReader<R> {
    // stop: an empty block ends the data (else: more may follow it); check: the blocks' checksums are verified
    #[verifier::external_body] fn new(r: R, stop: bool, check: bool) -> (d: Lz4JBlockReader<R>) requires r.inv() ensures unpacks(d, r, lz4_jblocks(r.rest(), stop, check)) { unimplemented!() }
}

// ---- lz4 frames
uninterp spec fn lz4_header(b: Seq<u8>) -> bool;            // a frame's header comes first
uninterp spec fn lz4_content(b: Seq<u8>) -> Seq<u8>;        // what the blocks of the frame hold
uninterp spec fn lz4_checks(b: Seq<u8>) -> bool;            // the frame is complete, and its checksums are right
uninterp spec fn lz4_size(b: Seq<u8>) -> nat;
spec fn lz4_whole(b: Seq<u8>) -> bool { lz4_checks(b) && 0 < lz4_size(b) <= b.len() }
spec fn lz4_frames(b: Seq<u8>) -> (Seq<u8>, bool) decreases b.len() {
    if b.len() == 0 { (seq![], true) }
    else if !lz4_header(b) { (seq![], false) }
    else if !lz4_whole(b) { (lz4_content(b), false) }
    else { let more = lz4_frames(b.skip(lz4_size(b) as int)); (lz4_content(b) + more.0, more.1) }
}
type Rc<T> = T;
type RefCell<T> = T;
#[verifier::reject_recursive_types(R)]
//@item src/decompress/lz4.rs | struct | SharedReader
//@rwall «$c.borrow_mut()» => «$c» (sharing of the reader as passing it)
impl<R: Read> Read for SharedReader<R> {
    spec fn inv(&self) -> bool { self.0.inv() }
    spec fn rest(&self) -> Seq<u8> { self.0.rest() }
    spec fn sound(&self) -> bool { self.0.sound() }
    spec fn steady(&self) -> bool { self.0.steady() }
    //@fn src/decompress/lz4.rs | Read for SharedReader | read
        //@ret r
        //@spec
    //@end
}
#[verifier::external_body] struct Lz4Error { }
// lz-fear's reader of one frame. left(): what it still gives; whole(): the frame is complete and right; at(): what its reader still has; behind(): what follows the frame
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct LZ4FrameReader<R> { r: R }
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct LZ4FrameIoReader<'a, R> { r: R, d: &'a [u8] }
impl<'a, R> LZ4FrameIoReader<'a, R> {
    uninterp spec fn left(&self) -> Seq<u8>;
    uninterp spec fn whole(&self) -> bool;
    uninterp spec fn at(&self) -> Seq<u8>;
    uninterp spec fn behind(&self) -> Seq<u8>;
}
impl<R> LZ4FrameReader<R> {
    uninterp spec fn io(&self) -> LZ4FrameIoReader<'static, R>;
    #[verifier::external_body]
    fn into_read(self) -> (r: LZ4FrameIoReader<'static, R>) ensures r == self.io() { unimplemented!() }
}
impl<T: Read> LZ4FrameReader<SharedReader<T>> {
    #[verifier::external_body]
    fn new_of(r: &mut T) -> (f: Result<LZ4FrameReader<SharedReader<T>>, Lz4Error>)
        requires old(r).inv(),
        ensures
            f matches Ok(d) ==> ({ let b = old(r).rest(); let i = d.io();
                &&& b.len() > 0 && lz4_header(b)
                &&& i.left() == lz4_content(b) && i.whole() == lz4_whole(b) && i.behind() == b.skip(lz4_size(b) as int) && i.at() == final(r).rest()
                &&& final(r).inv() && final(r).sound() == old(r).sound() && final(r).rest().len() < b.len()
            }),
            f is Err ==> !old(r).sound() || !lz4_header(old(r).rest()) || old(r).rest().len() == 0,
    { unimplemented!() }
}
impl<'a, T: Read> LZ4FrameIoReader<'a, SharedReader<T>> {
    #[verifier::external_body]
    fn read_of(&mut self, r: &mut T, buf: &mut [u8]) -> (n: io::Result<usize>)
        requires old(r).inv(), old(self).at() == old(r).rest(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            n matches Ok(n) ==> {
                &&& n <= old(buf)@.len() && n <= old(self).left().len() && final(buf)@.take(n as int) == old(self).left().take(n as int) && final(self).left() == old(self).left().skip(n as int)
                &&& final(self).whole() == old(self).whole() && final(self).behind() == old(self).behind() && final(self).at() == final(r).rest()
                &&& final(r).inv() && final(r).sound() == old(r).sound() && final(r).rest().len() <= old(r).rest().len()
                &&& n == 0 && old(buf)@.len() > 0 ==> old(self).left().len() == 0 && old(self).whole() && final(r).rest() == old(self).behind()
            },
            n is Err ==> !old(self).whole() || !old(r).sound(),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(R)]
//@item src/decompress/lz4.rs | struct | Lz4FramesReader
//@rwall «let inner = Rc::new(RefCell::new($e));» => «let mut inner = $e;» (sharing of the reader as passing it)
//@rwall «LZ4FrameReader::new(SharedReader($c.clone()))» => «LZ4FrameReader::new_of($c)» (sharing of the reader as passing it)
//@rwall «Self::next_frame(&$c)» => «Self::next_frame(&mut $c)» (sharing of the reader as passing it)
//@rwall «inner: &Rc<RefCell<R>>» => «inner: &mut R» (sharing of the reader as passing it)
//@rwall «self.frame.read(buf)» => «self.frame.read_of(&mut self.inner, buf)» (sharing of the reader as passing it)
//@rwall «$b.is_empty()» => «no_bytes($b)» (std method as a function with a contract)
spec fn lz4_frame_of<R: Read>(f: LZ4FrameIoReader<'static, SharedReader<R>>, r: R, b: Seq<u8>) -> bool {
    b.len() > 0 && lz4_header(b) && f.left() == lz4_content(b) && f.whole() == lz4_whole(b) && f.behind() == b.skip(lz4_size(b) as int) && f.at() == r.rest()
}
impl<R: BufRead> Lz4FramesReader<R> {
    //@fn src/decompress/lz4.rs | Lz4FramesReader | new
        //@ret r
        //@spec
        requires reader.inv(),
        ensures
            r matches Ok(d) ==> reader.rest().len() > 0 && unpacks(d, reader, lz4_frames(reader.rest())),
            r is Err ==> reader.rest().len() == 0 || !reader.sound() || !lz4_frames(reader.rest()).1,
    //@end
    //@fn src/decompress/lz4.rs | Lz4FramesReader | next_frame
        //@ret r
        //@spec
        requires old(inner).inv(),
        ensures
            r matches Ok(f) ==> lz4_frame_of(f, *final(inner), old(inner).rest()) && final(inner).inv() && final(inner).sound() == old(inner).sound() && final(inner).rest().len() < old(inner).rest().len(),
            r is Err ==> !old(inner).sound() || !lz4_header(old(inner).rest()) || old(inner).rest().len() == 0,
    //@end
}
impl<R: BufRead> Read for Lz4FramesReader<R> {
    spec fn inv(&self) -> bool { self.inner.inv() && self.frame.at() == self.inner.rest() }
    spec fn rest(&self) -> Seq<u8> { self.frame.left() + if self.frame.whole() { lz4_frames(self.frame.behind()).0 } else { seq![] } }
    spec fn sound(&self) -> bool { self.inner.sound() && self.frame.whole() && lz4_frames(self.frame.behind()).1 }
    spec fn steady(&self) -> bool { false }
    //@fn src/decompress/lz4.rs | Read for Lz4FramesReader | read
        //@ret r
        //@start
        broadcast use lemma_more;
        //@loop 0
            invariant self.inv(), self.rest() == old(self).rest(), self.sound() == old(self).sound(), buf@.len() == old(buf)@.len(),
            decreases self.inner.rest().len(),
    //@end
}
// reading on in the first of two parts
broadcast proof fn lemma_more(a: Seq<u8>, n: int, m: Seq<u8>)
    requires 0 <= n <= a.len(),
    ensures #![trigger a.skip(n) + m] a.skip(n) + m == (a + m).skip(n), (a + m).take(n) == a.take(n), a.len() == 0 ==> a + m == m,
{ assert(a.skip(n) + m =~= (a + m).skip(n)); assert((a + m).take(n) =~= a.take(n)); if a.len() == 0 { assert(a + m =~= m); } }

// ---- zst frames
uninterp spec fn zst_header(b: Seq<u8>) -> bool;            // a frame's header comes first
uninterp spec fn zst_content(b: Seq<u8>) -> Seq<u8>;        // what the blocks of the frame hold
uninterp spec fn zst_blocks(b: Seq<u8>) -> bool;            // the frame is complete and its blocks can be decoded
uninterp spec fn zst_sum(b: Seq<u8>) -> bool;               // the checksum, if the frame has one, is that of the content
uninterp spec fn zst_size(b: Seq<u8>) -> nat;
spec fn zst_whole(b: Seq<u8>) -> bool { zst_blocks(b) && 4 < zst_size(b) <= b.len() }
spec fn skippable(b: Seq<u8>) -> bool { b.len() >= 4 && 0x50 <= b[0] <= 0x5F && b[1] == 0x2A && b[2] == 0x4D && b[3] == 0x18 }
spec fn skip_size(b: Seq<u8>) -> int { 8 + le32(b.subrange(4, 8)) }
spec fn zst_frames(b: Seq<u8>) -> (Seq<u8>, bool) decreases b.len() {
    if b.len() == 0 { (seq![], true) }
    else if skippable(b) { if b.len() >= 8 && b.len() >= skip_size(b) { zst_frames(b.skip(skip_size(b))) } else { (seq![], false) } }
    else if b.len() < 4 || !zst_header(b) { (seq![], false) }
    else if !zst_whole(b) || !zst_sum(b) { (zst_content(b), false) }
    else { let more = zst_frames(b.skip(zst_size(b) as int)); (zst_content(b) + more.0, more.1) }
}
#[verifier::external_body] struct ZstError { }
// ruzstd: left(): what the frame still gives, ready(): how much of it is decoded, done(): all of it is; whole(): the frame is complete and decodable; sum(): its checksum is right;
// at(): what its reader still has; behind(): what follows the frame
#[verifier::external_body] struct FrameDecoder { }
enum BlockDecodingStrategy { All, UptoBlocks(usize), UptoBytes(usize) }
impl FrameDecoder {
    uninterp spec fn left(&self) -> Seq<u8>;
    uninterp spec fn ready(&self) -> nat;
    uninterp spec fn done(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    uninterp spec fn sum(&self) -> bool;
    uninterp spec fn at(&self) -> Seq<u8>;
    uninterp spec fn behind(&self) -> Seq<u8>;
    uninterp spec fn stored(&self) -> Option<u32>;          // the checksum in the data
    uninterp spec fn summed(&self) -> Option<u32>;          // the checksum of what was given so far
    spec fn wf(&self) -> bool {
        &&& self.ready() <= self.left().len() && (self.done() ==> self.whole() && self.ready() == self.left().len())
        &&& self.done() && self.left().len() == 0 ==> self.sum() == (self.stored() is None || self.summed() == self.stored())
    }
    #[verifier::external_body]
    fn new() -> (d: FrameDecoder) ensures d.wf(), d.done(), d.left().len() == 0, d.sum() { unimplemented!() }
    // the bytes of m come before those of r
    #[verifier::external_body]
    fn init_behind<R: Read>(&mut self, m: &[u8; 4], r: &mut R) -> (o: Result<(), ZstError>)
        requires old(r).inv(),
        ensures
            o is Ok ==> ({ let b = m@ + old(r).rest();
                &&& zst_header(b) && final(self).wf() && !final(self).done() && final(self).left() == zst_content(b) && final(self).whole() == zst_whole(b) && final(self).sum() == zst_sum(b)
                &&& (zst_whole(b) ==> final(self).behind() == b.skip(zst_size(b) as int)) && final(self).at() == final(r).rest()
                &&& final(r).inv() && final(r).sound() == old(r).sound() && final(r).rest().len() <= old(r).rest().len()
            }),
            o is Err ==> !old(r).sound() || !zst_header(m@ + old(r).rest()),
    { unimplemented!() }
    #[verifier::external_body]
    fn decode_blocks<R: Read>(&mut self, r: &mut R, s: BlockDecodingStrategy) -> (o: Result<bool, ZstError>)
        requires old(self).wf(), !old(self).done(), old(r).inv(), old(self).at() == old(r).rest(),
        ensures
            o is Ok ==> {
                &&& final(self).wf() && final(self).left() == old(self).left() && final(self).ready() >= old(self).ready() && final(self).whole() == old(self).whole() && final(self).sum() == old(self).sum()
                &&& final(self).behind() == old(self).behind() && final(self).at() == final(r).rest() && (final(self).done() ==> final(r).rest() == final(self).behind())
                &&& final(r).inv() && final(r).sound() == old(r).sound() && (final(r).rest().len() < old(r).rest().len())
            },
            o is Err ==> !old(r).sound() || !old(self).whole(),
    { unimplemented!() }
    #[verifier::external_body]
    fn is_finished(&self) -> (r: bool) ensures r == self.done() { unimplemented!() }
    #[verifier::external_body]
    fn can_collect(&self) -> (r: usize) ensures r == self.ready() { unimplemented!() }
    #[verifier::external_body]
    fn get_checksum_from_data(&self) -> (r: Option<u32>) ensures r == self.stored() { unimplemented!() }
    #[verifier::external_body]
    fn get_calculated_checksum(&self) -> (r: Option<u32>) ensures r == self.summed() { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires old(self).wf(),
        ensures
            r matches Ok(n) && n == (if old(buf)@.len() < old(self).ready() { old(buf)@.len() } else { old(self).ready() })
                && final(buf)@.take(n as int) == old(self).left().take(n as int) && final(self).left() == old(self).left().skip(n as int) && final(self).ready() == old(self).ready() - n,
            final(buf)@.len() == old(buf)@.len(), final(self).wf(), final(self).done() == old(self).done(), final(self).whole() == old(self).whole(), final(self).sum() == old(self).sum(),
            final(self).at() == old(self).at(), final(self).behind() == old(self).behind(),
    { unimplemented!() }
}
// io::copy of at most n bytes to io::sink(): how many there were
#[verifier::external_body]
fn skip_upto<R: Read>(r: &mut R, n: u64) -> (o: io::Result<u64>)
    requires old(r).inv(),
    ensures
        o matches Ok(k) ==> ({ let len = old(r).rest().len();
            &&& k == if n <= len { n as nat } else { len } && (k < n ==> old(r).sound())
            &&& final(r).inv() && final(r).sound() == old(r).sound() && final(r).steady() == old(r).steady() && final(r).rest() == old(r).rest().skip(k as int)
        }),
        o is Err ==> !old(r).sound(),
{ unimplemented!() }
#[verifier::external_body]
fn from_le(b: [u8; 4]) -> (r: u32) ensures r == le32(b@) { unimplemented!() }
#[verifier::external_body]
fn io_error(k: IoErrorKind) -> io::Error { unimplemented!() }
proof fn lemma_skippable(m: Seq<u8>)
    requires m.len() == 4,
    ensures (le32(m) & 0xFFFFFFF0 == 0x184D2A50) == skippable(m)
{
    let (x0, x1, x2, x3) = (m[0], m[1], m[2], m[3]);
    assert((x0 as u32 | (x1 as u32) << 8 | (x2 as u32) << 16 | (x3 as u32) << 24) & 0xFFFFFFF0 == 0x184D2A50 <==> 0x50 <= x0 <= 0x5F && x1 == 0x2A && x2 == 0x4D && x3 == 0x18) by(bit_vector);
}
proof fn lemma_skip_frame(b: Seq<u8>)
    ensures
        b.len() >= 4 ==> (le32(b.take(4)) & 0xFFFFFFF0 == 0x184D2A50) == skippable(b) && b.take(4) + b.skip(4) == b,
        b.len() >= 8 ==> b.skip(4).take(4) == b.subrange(4, 8) && b.skip(4).skip(4) == b.skip(8),
        forall|n: int| 0 <= n && 8 + n <= b.len() ==> #[trigger] b.skip(8).skip(n) == b.skip(8 + n),
{
    if b.len() >= 4 { lemma_skippable(b.take(4)); assert(b.take(4) + b.skip(4) =~= b); }
    if b.len() >= 8 { assert(b.skip(4).take(4) =~= b.subrange(4, 8)); assert(b.skip(4).skip(4) =~= b.skip(8)); }
    assert forall|n: int| 0 <= n && 8 + n <= b.len() implies #[trigger] b.skip(8).skip(n) == b.skip(8 + n) by { assert(b.skip(8).skip(n) =~= b.skip(8 + n)); }
}
//@item src/decompress/zst.rs | const | SKIPPABLE_FRAME_MAGIC
//@item src/decompress/zst.rs | struct | ZstReader
//@rwall «u32::from_le_bytes($m)» => «from_le($m)» (std function as a function with a contract)
//@rwall «let mut $f = (&$m[..]).chain(&mut $r); return match self.decoder.init(&mut $f)» => «return match self.decoder.init_behind(&$m, &mut $r)» (std chain of a slice and a reader as two arguments)
//@rwall «io::copy(&mut (&mut $r).take($n), &mut io::sink())» => «skip_upto(&mut $r, $n)» (std functions as one function with a contract)
//@rwall «io::ErrorKind::UnexpectedEof.into()» => «io_error(io::ErrorKind::UnexpectedEof)» (std conversion as a function)
impl<R: BufRead> ZstReader<R> {
    spec fn next(&self) -> Seq<u8> { if self.decoder.done() { self.inner.rest() } else { self.decoder.behind() } }
    //@fn src/decompress/zst.rs | ZstReader | new
        //@ret r
        //@spec
        requires reader.inv(),
        ensures
            r matches Ok(d) ==> reader.rest().len() > 0 && unpacks(d, reader, zst_frames(reader.rest())),
            r is Err ==> reader.rest().len() == 0 || !reader.sound() || !zst_frames(reader.rest()).1,
    //@end
    //@fn src/decompress/zst.rs | ZstReader | verify_checksum
        //@ret r
        //@spec
        requires self.decoder.wf(), self.decoder.done(), self.decoder.left().len() == 0,
        ensures r is Ok == self.decoder.sum(),
    //@end
    //@fn src/decompress/zst.rs | ZstReader | init_next_frame
        //@ret r
        //@spec
        requires old(self).inv(), old(self).decoder.done(), old(self).decoder.left().len() == 0,
        ensures
            r matches Ok(true) ==> final(self).inv() && final(self).rest() == zst_frames(old(self).inner.rest()).0 && final(self).sound() == (old(self).inner.sound() && zst_frames(old(self).inner.rest()).1)
                && final(self).inner.rest().len() < old(self).inner.rest().len() && !final(self).decoder.done(),
            r matches Ok(false) ==> final(self).inner.inv() && final(self).inner.sound() && old(self).inner.sound() && final(self).decoder == old(self).decoder && final(self).inner.rest().len() == 0
                && zst_frames(old(self).inner.rest()) == (Seq::<u8>::empty(), true),
            r is Err ==> !old(self).inner.sound() || !zst_frames(old(self).inner.rest()).1,
        //@loop 0
            invariant self.inner.inv(), self.inner.sound() == old(self).inner.sound(), self.decoder == old(self).decoder, old(self).inv(), old(self).decoder.done(), old(self).decoder.left().len() == 0,
                zst_frames(self.inner.rest()) == zst_frames(old(self).inner.rest()), self.inner.rest().len() <= old(self).inner.rest().len(),
            ensures self.inner.rest().len() == 0, self.inner.sound(),
            decreases self.inner.rest().len(),
        //@loopstart 0
            proof { lemma_skip_frame(self.inner.rest()); }
    //@end
}
impl<R: BufRead> Read for ZstReader<R> {
    spec fn inv(&self) -> bool { self.inner.inv() && self.decoder.wf() && (!self.decoder.done() ==> self.decoder.at() == self.inner.rest()) }
    spec fn rest(&self) -> Seq<u8> { self.decoder.left() + if self.decoder.whole() && self.decoder.sum() { zst_frames(self.next()).0 } else { seq![] } }
    spec fn sound(&self) -> bool { self.inner.sound() && self.decoder.whole() && self.decoder.sum() && zst_frames(self.next()).1 }
    spec fn steady(&self) -> bool { false }
    //@fn src/decompress/zst.rs | Read for ZstReader | read
        //@ret r
        //@start
        broadcast use lemma_more;
        //@loop 0
            invariant self.inv(), self.rest() == old(self).rest(), self.sound() == old(self).sound(), buf@.len() == old(buf)@.len(),
            ensures self.decoder.ready() == 0 && buf@.len() > 0 ==> self.rest().len() == 0 && self.sound(),
            decreases self.inner.rest().len(),
    //@end
}

// ---- the data unpacked, by their format
spec fn unpacked(f: Packing, b: Seq<u8>) -> (Seq<u8>, bool) {
    match f {
        Packing::GZ => gz_members(b),
        Packing::LZ4 => if opens(b, jblock_magic()) { lz4_jblocks(b, true, true) } else if b.len() == 0 { (seq![], false) } else { lz4_frames(b) },
        Packing::LZF => lzf_chunks(b),
        Packing::ZIP => (seq![], false),
        Packing::ZST => if b.len() == 0 { (seq![], false) } else { zst_frames(b) },
    }
}
spec fn opened(r: CliResult<Box<dyn Read>>, i: ChopperBufReader<Box<dyn Read>>, u: (Seq<u8>, bool)) -> bool {
    &&& r matches Ok(o) ==> (*o).inv() && (*o).rest() == u.0 && (*o).sound() == (u.1 && i.sound())
    &&& r is Err ==> !u.1 || !i.sound()
}
//@rwall «&$b[..$e] == &$c {» => «bytes_eq(range(&$b, 0, $e), &$c) {» (std comparison of slices as a function with a contract)
//@rwall «&$b[..$e] == &$c» => «bytes_eq(range(&$b, 0, $e), &$c)» (std comparison of slices as a function with a contract)
//@fn src/decompress/decompress.rs | - | decompress_gz
    //@ret r
    //@spec
    requires reader.inv(),
    ensures opened(r, reader, gz_members(reader.rest())),
//@end
//@fn src/decompress/decompress.rs | - | decompress_lz4
    //@ret r
    //@rw «$s.starts_with($p)» => «bytes_begin($s, $p)» (std method as a function with a contract)
    //@spec
    requires previewed(previewer),
    ensures opened(r, previewer.reader, unpacked(Packing::LZ4, previewer.reader.rest())),
    //@start
    proof { lemma_start(previewer.reader.rest(), jblock_magic()); assert([76u8, 90u8, 52u8, 66u8, 108u8, 111u8, 99u8, 107u8]@ =~= jblock_magic()); }
//@end
//@fn src/decompress/decompress.rs | - | decompress_lz4_frame
    //@ret r
    //@spec
    requires reader.inv(),
    ensures opened(r, reader, if reader.rest().len() == 0 { (Seq::<u8>::empty(), false) } else { lz4_frames(reader.rest()) }),
//@end
//@fn src/decompress/decompress.rs | - | decompress_lz4_jblock
    //@ret r
    //@spec
    requires reader.inv(),
    ensures opened(r, reader, lz4_jblocks(reader.rest(), true, true)),
//@end
//@fn src/decompress/decompress.rs | - | decompress_lzf
    //@ret r
    //@spec
    requires reader.inv(),
    ensures opened(r, reader, lzf_chunks(reader.rest())),
//@end
//@fn src/decompress/decompress.rs | - | decompress_zst
    //@ret r
    //@spec
    requires reader.inv(),
    ensures opened(r, reader, unpacked(Packing::ZST, reader.rest())),
//@end
//@fn src/decompress/decompress.rs | - | decompress
    //@ret r
    //@spec
    requires previewed(previewer),
    ensures opened(r, previewer.reader, unpacked(decompression_format, previewer.reader.rest())),
//@end
