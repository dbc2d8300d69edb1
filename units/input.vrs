//@include inc/base.inc
//@include inc/iter.inc
//@include inc/text.inc
//@include inc/reader_fns.inc contracts reader
//@include inc/decompress_fns.inc contracts decompress
mod decompress { pub(crate) use super::{is_compressed_using_format, is_compressed_using_previewer, decompress}; }
mod dc_util { pub(crate) use super::{MAGIC_NUM, VERSION}; }
// ---- std, as contracts (assumed)
#[verifier::external_body]
fn at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ unimplemented!() }
spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body]
fn str_begins(s: &str, p: &str) -> (r: bool) ensures r == begins(s@, p@) { unimplemented!() }
#[verifier::external_body]
fn text_add(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
fn text_own(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
spec fn be16(b: Seq<u8>) -> u16 { b[1] as u16 | (b[0] as u16) << 8 }
spec fn be64(b: Seq<u8>) -> u64 {
    b[7] as u64 | (b[6] as u64) << 8 | (b[5] as u64) << 16 | (b[4] as u64) << 24 | (b[3] as u64) << 32 | (b[2] as u64) << 40 | (b[1] as u64) << 48 | (b[0] as u64) << 56
}
trait WideOrder { spec fn num16(b: Seq<u8>) -> u16; spec fn num64(b: Seq<u8>) -> u64; }
impl WideOrder for BigEndian { spec fn num16(b: Seq<u8>) -> u16 { be16(b) } spec fn num64(b: Seq<u8>) -> u64 { be64(b) } }
trait ReadWide: Read + Sized {
    #[verifier::external_body]
    fn read_u16<T: WideOrder>(&mut self) -> (r: io::Result<u16>) requires old(self).inv()
        ensures took(*old(self), *final(self), r is Ok, 2), r matches Ok(v) ==> v == T::num16(old(self).rest().take(2)) { unimplemented!() }
    #[verifier::external_body]
    fn read_u64<T: WideOrder>(&mut self) -> (r: io::Result<u64>) requires old(self).inv()
        ensures took(*old(self), *final(self), r is Ok, 8), r matches Ok(v) ==> v == T::num64(old(self).rest().take(8)) { unimplemented!() }
}
impl<R: Read> ReadWide for R { }


// ---- where data come from
#[verifier::external_body] struct Path { }
type Data = (Seq<u8>, bool);                                // the bytes that can be read, and: they are all
uninterp spec fn exists_(p: Path) -> bool;
uninterp spec fn stored_at(p: Path) -> Data;                // what the file at the path holds
uninterp spec fn path_text(p: Path) -> Option<Seq<char>>;
uninterp spec fn last_name(p: Path) -> Option<Seq<char>>;       // the last component, if there is one, what is no unicode in it replaced
uninterp spec fn path_of(s: Seq<char>) -> Path;
uninterp spec fn path_begins_with(p: Path, s: Seq<char>) -> bool;
uninterp spec fn path_ends_with(p: Path, s: Seq<char>) -> bool;
#[verifier::external_body] struct OsStr { }
impl OsStr {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn unicode(&self) -> bool;
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures r is Some == self.unicode(), r matches Some(x) ==> x@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn to_string_lossy(&self) -> (r: Lossy) ensures r.text() == self.text() { unimplemented!() }
}
#[verifier::external_body] struct Lossy { }
impl Lossy {
    uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    fn into_owned(self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    fn exists(&self) -> (r: bool) ensures r == exists_(*self) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with(&self, s: &str) -> (r: bool) ensures r == path_begins_with(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    fn ends_with(&self, s: &str) -> (r: bool) ensures r == path_ends_with(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    fn to_str(&self) -> (r: Option<&str>) ensures match path_text(*self) { Some(t) => r matches Some(x) && x@ == t, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn file_name(&self) -> (r: Option<&OsStr>) ensures match last_name(*self) { Some(t) => r matches Some(x) && x.text() == t, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn new(s: &String) -> (r: &Path) ensures *r == path_of(s@) { unimplemented!() }
}
// Option::unwrap
#[verifier::external_body]
fn the_one<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }
// the same where a panic is let pass: an url that is not unicode (none comes from the command line)
#[verifier::external_body]
fn must<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
spec fn opened_as(r: io::Result<Box<dyn Read>>, d: Data) -> bool {
    &&& r matches Ok(x) ==> (*x).inv() && (*x).rest() == d.0 && (*x).sound() == d.1
    &&& r is Err ==> !d.1
}
trait StreamingTransport {
    spec fn can(&self, p: Path) -> bool;
    spec fn gives(&self, p: Path) -> Data;
    //@fn src/transport/streaming/streaming_transport.rs | trait StreamingTransport | can_open
        //@ret r
        //@nobody
        //@spec
        ensures r == self.can(*path)
    //@end
    //@fn src/transport/streaming/streaming_transport.rs | trait StreamingTransport | open
        //@ret r
        //@nobody
        //@sig «dyn io::Read» => «dyn Read» (the unit's name for it)
        //@spec
        requires self.can(*path)
        ensures opened_as(r, self.gives(*path))
    //@end
}
mod fs { pub(crate) use super::File; }
#[verifier::external_body] struct File { }
impl File {
    uninterp spec fn holds(&self) -> Data;
    #[verifier::external_body]
    fn open(p: &Path) -> (r: io::Result<File>)
        ensures r matches Ok(f) ==> f.inv() && f.holds() == stored_at(*p), r is Err ==> !stored_at(*p).1 { unimplemented!() }
}
impl Read for File {
    uninterp spec fn inv(&self) -> bool;
    spec fn rest(&self) -> Seq<u8> { self.holds().0 }
    spec fn sound(&self) -> bool { self.holds().1 }
    spec fn steady(&self) -> bool { false }
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
//@item src/transport/streaming/file.rs | struct | FileTransport
impl StreamingTransport for FileTransport {
    spec fn can(&self, p: Path) -> bool { exists_(p) }
    spec fn gives(&self, p: Path) -> Data { stored_at(p) }
    //@fn src/transport/streaming/file.rs | StreamingTransport for FileTransport | can_open
        //@ret r
    //@end
    //@fn src/transport/streaming/file.rs | StreamingTransport for FileTransport | open
        //@ret r
        //@sig «dyn io::Read» => «dyn Read» (the unit's name for it)
    //@end
}

// ---- http: the server's answer to a request for a url (assumed; a function of the url during one run)
ghost struct Answer { ok: bool, header: spec_fn(Seq<char>) -> Option<Seq<char>>, body: Data }
uninterp spec fn answer(url: Seq<char>) -> Answer;
uninterp spec fn as_u64(s: Seq<char>) -> Option<u64>;
// the announced length, where the body's own framing does not tell its end
spec fn announced(a: Answer) -> Option<u64> {
    if (a.header)("transfer-encoding"@) is Some { None }
    else { match (a.header)("content-length"@) { Some(l) => as_u64(trimmed(l)), None => None } }
}
spec fn shorter(n: nat, m: nat) -> nat { if n < m { n } else { m } }
spec fn response_data(a: Answer) -> Data {
    if !a.ok { (seq![], false) }
    else { match announced(a) {
        Some(n) => (a.body.0.take(shorter(n as nat, a.body.0.len()) as int), n <= a.body.0.len()),
        None => a.body,
    } }
}
mod ureq { pub(crate) use super::get; }
#[verifier::external_body] struct Request { }
#[verifier::external_body] struct Response { }
#[verifier::external_body] struct Body { }
impl Request { uninterp spec fn to(&self) -> Seq<char>; #[verifier::external_body] fn call(&mut self) -> (r: Response) ensures r.answer() == answer(old(self).to()) { unimplemented!() } }
#[verifier::external_body]
fn get(url: &str) -> (r: Request) ensures r.to() == url@ { unimplemented!() }
impl Response {
    uninterp spec fn answer(&self) -> Answer;
    #[verifier::external_body]
    fn ok(&self) -> (r: bool) ensures r == self.answer().ok { unimplemented!() }
    #[verifier::external_body]
    fn header(&self, n: &str) -> (r: Option<&str>) ensures match (self.answer().header)(n@) { Some(v) => r matches Some(x) && x@ == v, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn into_reader(self) -> (r: Body) ensures r.inv() && r.data() == self.answer().body { unimplemented!() }
    #[verifier::external_body]
    fn status(&self) -> u16 { unimplemented!() }
    #[verifier::external_body]
    fn into_string(self) -> io::Result<String> { unimplemented!() }
}
impl Body {
    uninterp spec fn data(&self) -> Data;
    #[verifier::external_body]
    fn take(self, n: u64) -> (t: Take<Body>) requires self.inv() ensures t.inv() && t.behind() == self.data() && t.left() == n { unimplemented!() }
}
impl Read for Body {
    uninterp spec fn inv(&self) -> bool;
    spec fn rest(&self) -> Seq<u8> { self.data().0 }
    spec fn sound(&self) -> bool { self.data().1 }
    spec fn steady(&self) -> bool { false }
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
fn text_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
#[verifier::external_body]
fn text_u64(s: &str) -> (r: Option<u64>) ensures r == as_u64(s@) { unimplemented!() }
// std::io::Take: at most left() bytes of behind(); a failure of the reader comes after its bytes
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct Take<R> { r: R }
impl<R> Take<R> {
    uninterp spec fn inv(&self) -> bool;
    uninterp spec fn behind(&self) -> Data;
    uninterp spec fn left(&self) -> u64;
    #[verifier::external_body]
    fn limit(&self) -> (r: u64) ensures r == self.left() { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires old(self).inv(),
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> final(self).inv() && n <= old(buf)@.len() && n <= old(self).left() && n <= old(self).behind().0.len()
                && final(buf)@.take(n as int) == old(self).behind().0.take(n as int) && final(self).behind() == (old(self).behind().0.skip(n as int), old(self).behind().1) && final(self).left() == old(self).left() - n
                && (n == 0 && old(buf)@.len() > 0 ==> old(self).left() == 0 || old(self).behind().0.len() == 0),
            r is Err ==> old(self).left() > 0 && old(self).behind().0.len() == 0 && !old(self).behind().1,
    { unimplemented!() }
}
//@item src/transport/streaming/http.rs | struct | HttpTransport
#[verifier::reject_recursive_types(R)]
//@itemrw «io::Take<R>» => «Take<R>» (the unit's name for it)
//@item src/transport/streaming/http.rs | struct | ContentLengthReader
//@itemrw
//@rwall «$x.and_then(|$l| $l.trim().parse::<u64>().ok())» => «match $x { Some($l) => text_u64(text_trim($l)), None => None }» (std method by its definition)
impl StreamingTransport for HttpTransport {
    spec fn can(&self, p: Path) -> bool { path_begins_with(p, "http://"@) || path_begins_with(p, "https://"@) }
    spec fn gives(&self, p: Path) -> Data { match path_text(p) { Some(t) => response_data(answer(t)), None => (seq![], false) } }
    //@fn src/transport/streaming/http.rs | StreamingTransport for HttpTransport | can_open
        //@ret r
    //@end
    //@fn src/transport/streaming/http.rs | StreamingTransport for HttpTransport | open
        //@ret r
        //@sig «dyn io::Read» => «dyn Read» (the unit's name for it)
        //@rw «$p.to_str().unwrap()» => «must($p.to_str())» (std method as a function with a contract)
    //@end
}
impl<R: Read> Read for ContentLengthReader<R> {
    spec fn inv(&self) -> bool { self.0.inv() }
    spec fn rest(&self) -> Seq<u8> { self.0.behind().0.take(shorter(self.0.left() as nat, self.0.behind().0.len()) as int) }
    spec fn sound(&self) -> bool { self.0.left() <= self.0.behind().0.len() }
    spec fn steady(&self) -> bool { false }
    //@fn src/transport/streaming/http.rs | Read for ContentLengthReader | read
        //@ret r
        //@rw «$b.is_empty()» => «no_bytes($b)» (std method as a function with a contract)
        //@start
        broadcast use lemma_taken;
    //@end
}
broadcast proof fn lemma_taken(s: Seq<u8>, n: int, k: nat)
    requires 0 <= n <= s.len(), n <= k,
    ensures #![trigger s.take(n), s.take(shorter(k, s.len()) as int)]
        s.take(shorter(k, s.len()) as int).take(n) == s.take(n), s.take(shorter(k, s.len()) as int).skip(n) == s.skip(n).take(shorter((k - n) as nat, (s.len() - n) as nat) as int),
{
    assert(s.take(shorter(k, s.len()) as int).take(n) =~= s.take(n));
    assert(s.take(shorter(k, s.len()) as int).skip(n) =~= s.skip(n).take(shorter((k - n) as nat, (s.len() - n) as nat) as int));
}

// ---- seekable transports, and zip archives in them (what is in an archive: proved in unit zip in its terms; here by assumed contracts)
ghost struct Archived { name: Seq<char>, bytes: Seq<u8>, whole: bool }
uninterp spec fn archives(b: Seq<u8>, f: Archived) -> bool;      // the archive holds that one file
uninterp spec fn archive_refused(b: Seq<u8>) -> bool;
spec fn zipped(d: Data) -> bool { opens(d.0, seq![0x50, 0x4B, 3, 4]) }
trait ReadSeek { spec fn all(&self) -> Data; }
impl ReadSeek for File { spec fn all(&self) -> Data { self.holds() } }
trait SeekableTransport {
    spec fn can(&self, p: Path) -> bool;
    spec fn gives(&self, p: Path) -> Data;
    //@fn src/transport/seekable/seekable_transport.rs | trait SeekableTransport | can_open
        //@ret r
        //@nobody
        //@spec
        ensures r == self.can(*path)
    //@end
    //@fn src/transport/seekable/seekable_transport.rs | trait SeekableTransport | open
        //@ret r
        //@nobody
        //@spec
        requires self.can(*path)
        ensures r matches Ok(x) ==> (*x).all() == self.gives(*path), r is Err ==> !self.gives(*path).1
    //@end
}
//@item src/transport/seekable/file.rs | struct | SeekableFileTransport
impl SeekableTransport for SeekableFileTransport {
    spec fn can(&self, p: Path) -> bool { exists_(p) }
    spec fn gives(&self, p: Path) -> Data { stored_at(p) }
    //@fn src/transport/seekable/file.rs | SeekableTransport for SeekableFileTransport | can_open
        //@ret r
    //@end
    //@fn src/transport/seekable/file.rs | SeekableTransport for SeekableFileTransport | open
        //@ret r
    //@end
}
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct BufReader<R> { r: R }
impl<R: ?Sized> BufReader<Box<R>> { uninterp spec fn all(&self) -> Data; }
impl BufReader<Box<dyn ReadSeek>> {
    #[verifier::external_body]
    fn new(r: Box<dyn ReadSeek>) -> (b: BufReader<Box<dyn ReadSeek>>) ensures b.all() == (*r).all() { unimplemented!() }
}
#[verifier::external_body]
fn is_zip(r: &mut BufReader<Box<dyn ReadSeek>>) -> (o: CliResult<bool>)
    ensures final(r).all() == old(r).all(), o matches Ok(x) ==> x == zipped(old(r).all()), o is Err ==> !old(r).all().1
{ unimplemented!() }
#[verifier::external_body]
fn new_reader_for_single_file_zip_archive(r: BufReader<Box<dyn ReadSeek>>) -> (o: CliResult<(Box<dyn Read>, String)>)
    ensures
        o matches Ok(x) ==> (*x.0).inv() && archives(r.all().0, Archived { name: x.1@, bytes: (*x.0).rest(), whole: (*x.0).sound() }),
        o is Err ==> !r.all().1 || archive_refused(r.all().0),
{ unimplemented!() }

// ---- the transports asked: one that can open the path opens it
//@rwall «in &mut $v.iter()» => «in &$v» (the same items in the same order)
//@rwall «in $v.iter()» => «in &$v» (the same items in the same order)
//@item src/transport/streaming/previewer_factory.rs | struct | PreviewerTransportFactory
//@item src/transport/seekable/seekable_factory.rs | struct | SeekableTransportFactory
impl PreviewerTransportFactory {
    spec fn gives(&self, p: Path, i: int, d: Data) -> bool { 0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) && d == (*self.transports@[i]).gives(p) }
    // one of the transports can open the path, and gives these data
    #[verifier::opaque]
    spec fn came(&self, p: Path, d: Data) -> bool { exists|i: int| #[trigger] self.gives(p, i, d) }
    broadcast proof fn lemma_came(self, p: Path, i: int)
        ensures 0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) ==> self.came(p, #[trigger] (*self.transports@[i]).gives(p))
    { reveal(PreviewerTransportFactory::came); assert(0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) ==> self.gives(p, i, (*self.transports@[i]).gives(p))); }
    //@fn src/transport/streaming/previewer_factory.rs | PreviewerTransportFactory | new
        //@ret r
        //@spec
        ensures r.transports == transports,
    //@end
    //@fn src/transport/streaming/previewer_factory.rs | PreviewerTransportFactory | create_previewer
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        ensures
            *final(self) == *old(self),
            r matches Ok(Some(x)) ==> shown(x) && old(self).came(*path, data(x)),
            r matches Ok(None) ==> forall|i: int| 0 <= i < old(self).transports@.len() ==> !(*#[trigger] old(self).transports@[i]).can(*path),
            r is Err ==> exists|d: Data| #[trigger] old(self).came(*path, d) && !d.1,
        //@start
        broadcast use PreviewerTransportFactory::lemma_came;
        //@loop 0
            invariant factory_k <= self.transports@.len(), *self == *old(self),
                reader matches Some(x) ==> (*x).inv() && self.came(*path, ((*x).rest(), (*x).sound())),
                reader is None ==> forall|i: int| 0 <= i < factory_k ==> !(*#[trigger] self.transports@[i]).can(*path),
            decreases self.transports@.len() - factory_k,
    //@end
}
impl SeekableTransportFactory {
    spec fn gives(&self, p: Path, i: int, d: Data) -> bool { 0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) && d == (*self.transports@[i]).gives(p) }
    // one of the transports can open the path, and gives these data
    #[verifier::opaque]
    spec fn came(&self, p: Path, d: Data) -> bool { exists|i: int| #[trigger] self.gives(p, i, d) }
    broadcast proof fn lemma_came(self, p: Path, i: int)
        ensures 0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) ==> self.came(p, #[trigger] (*self.transports@[i]).gives(p))
    { reveal(SeekableTransportFactory::came); assert(0 <= i < self.transports@.len() && (*self.transports@[i]).can(p) ==> self.gives(p, i, (*self.transports@[i]).gives(p))); }
    //@fn src/transport/seekable/seekable_factory.rs | SeekableTransportFactory | new
        //@ret r
        //@spec
        ensures r.transports == transports,
    //@end
    //@fn src/transport/seekable/seekable_factory.rs | SeekableTransportFactory | create_seekable
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        ensures
            *final(self) == *old(self),
            r matches Ok(Some(x)) ==> old(self).came(*path, x.all()),
            r matches Ok(None) ==> forall|i: int| 0 <= i < old(self).transports@.len() ==> !(*#[trigger] old(self).transports@[i]).can(*path),
            r is Err ==> exists|d: Data| #[trigger] old(self).came(*path, d) && !d.1,
        //@start
        broadcast use SeekableTransportFactory::lemma_came;
        //@loop 0
            invariant factory_k <= self.transports@.len(), *self == *old(self),
                reader matches Some(x) ==> self.came(*path, (*x).all()),
                reader is None ==> forall|i: int| 0 <= i < factory_k ==> !(*#[trigger] self.transports@[i]).can(*path),
            decreases self.transports@.len() - factory_k,
    //@end
}

// ---- sources and the factories that make them
// which factory: what it says of names and of data
#[verifier::external_body] struct CSVInputConfig { }
enum Which { Dc, Csv(CSVInputConfig), User(int) }
ghost struct Kind { which: Which, name: spec_fn(Seq<char>) -> bool, bytes: spec_fn(Seq<u8>) -> bool }
// a source: the factory and the data it was made from, or the directory
ghost enum Origin { Data(Kind, Seq<u8>, bool), Dir(Seq<Kind>, Path, InputFormat) }
spec fn origin_of(k: Kind, b: Seq<u8>, s: bool) -> Origin { Origin::Data(k, b, s) }
//@item src/input/input.rs | enum | InputFormat
uninterp spec fn refused(k: Kind, b: Seq<u8>) -> bool;       // the factory cannot make a source from these data
trait Source { spec fn origin(&self) -> Origin; }
// the previewer shows the first bytes and the lines in them
spec fn shown(p: ChopperBufPreviewer<Box<dyn Read>>) -> bool {
    previewed(p) && shows_lines(p.lines, lines_of(start_of(p.reader.rest()), p.reader.rest().len() >= 8192))
}
spec fn made(r: CliResult<Box<dyn Source>>, k: Kind, i: ChopperBufReader<Box<dyn Read>>) -> bool {
    &&& r matches Ok(s) ==> (*s).origin() == origin_of(k, i.rest(), i.sound())
    &&& r is Err ==> !i.sound() || refused(k, i.rest())
}
trait SourceFactory {
    spec fn kind(&self) -> Kind;
    //@fn src/source/source_factory.rs | trait SourceFactory | can_create_from_format
        //@ret r
        //@nobody
        //@spec
        ensures r == (self.kind().name)(format@)
    //@end
    //@fn src/source/source_factory.rs | trait SourceFactory | can_create_from_previewer
        //@ret r
        //@nobody
        //@spec
        requires shown(*previewer)
        ensures r == (self.kind().bytes)(previewer.reader.rest())
    //@end
    //@fn src/source/source_factory.rs | trait SourceFactory | create_source
        //@ret r
        //@nobody
        //@spec
        requires shown(previewer)
        ensures final(self).kind() == old(self).kind(), made(r, old(self).kind(), previewer.reader)
    //@end
}

// ---- dc and csv.  What their sources do with the data is proved in dc_read and csv_source (here by assumed contracts of their constructors)
#[verifier::external_body] #[verifier::reject_recursive_types(R)] struct DCSource<R> { r: R }
impl<R> DCSource<R> { uninterp spec fn of(&self) -> Origin; }
impl<R> Source for DCSource<R> { spec fn origin(&self) -> Origin { self.of() } }
impl<R: Read> DCSource<R> {
    #[verifier::external_body]
    fn new(r: R) -> (s: CliResult<DCSource<R>>)
        requires r.inv(),
        ensures s matches Ok(x) ==> x.origin() == origin_of(dc_kind(), r.rest(), r.sound()), s is Err ==> !r.sound() || refused(dc_kind(), r.rest()),
    { unimplemented!() }
}
#[verifier::external_body] struct CSVSource { }
impl CSVSource { uninterp spec fn of(&self) -> Origin; }
impl Source for CSVSource { spec fn origin(&self) -> Origin { self.of() } }
impl CSVSource {
    #[verifier::external_body]
    fn new(p: ChopperBufPreviewer<Box<dyn Read>>, c: &CSVInputConfig) -> (s: CliResult<CSVSource>)
        requires shown(p),
        ensures
            s matches Ok(x) ==> x.origin() == origin_of(csv_kind(*c), p.reader.rest(), p.reader.sound()),
            s is Err ==> !p.reader.sound() || refused(csv_kind(*c), p.reader.rest()),
    { unimplemented!() }
}
//@item src/util/dc_util.rs | const | MAGIC_NUM
//@item src/util/dc_util.rs | const | VERSION
spec fn dc_magic() -> Seq<u8> { seq![0, 0, 0, 0, 0x44, 0x43, 0x41, 0x54, 0, 2] }       // DCAT, version 2
spec fn dc_kind() -> Kind { Kind { which: Which::Dc, name: |n: Seq<char>| ends(n, ".dc"@), bytes: |b: Seq<u8>| opens(b, dc_magic()) } }
spec fn csv_kind(c: CSVInputConfig) -> Kind {
    // text in its first lines
    Kind { which: Which::Csv(c), name: |n: Seq<char>| ends(n, ".csv"@), bytes: |b: Seq<u8>| lines_of(start_of(b), b.len() >= 8192) is Some }
}
proof fn lemma_dc_magic(b: Seq<u8>)
    ensures opens(b, dc_magic()) == (b.len() >= 10 && be64(b.take(8)) == 0x44434154 && be16(b.skip(8).take(2)) == 2)
{
    if b.len() >= 10 {
        let (h, g) = (b.take(8), b.skip(8).take(2));
        let (a0, a1, a2, a3, a4, a5, a6, a7) = (h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]);
        let (b0, b1) = (g[0], g[1]);
        assert((a7 as u64 | (a6 as u64) << 8 | (a5 as u64) << 16 | (a4 as u64) << 24 | (a3 as u64) << 32 | (a2 as u64) << 40 | (a1 as u64) << 48 | (a0 as u64) << 56) == 0x44434154
            <==> a0 == 0 && a1 == 0 && a2 == 0 && a3 == 0 && a4 == 0x44 && a5 == 0x43 && a6 == 0x41 && a7 == 0x54) by(bit_vector);
        assert((b1 as u16 | (b0 as u16) << 8) == 2 <==> b0 == 0 && b1 == 2) by(bit_vector);
        let t = b.take(10);
        assert(forall|i: int| 0 <= i < 8 ==> t[i] == #[trigger] h[i]);
        assert(t[8] == b0 && t[9] == b1);
        if be64(h) == 0x44434154 && be16(g) == 2 { assert(t =~= dc_magic()); }
        if t == dc_magic() { assert(h[0] == dc_magic()[0] && h[1] == dc_magic()[1] && h[2] == dc_magic()[2] && h[3] == dc_magic()[3] && h[4] == dc_magic()[4] && h[5] == dc_magic()[5] && h[6] == dc_magic()[6] && h[7] == dc_magic()[7]); assert(t[8] == 0 && t[9] == 2); }
    }
}
proof fn lemma_start_dc(b: Seq<u8>)
    ensures opens(start_of(b), dc_magic()) == opens(b, dc_magic())
{ if b.len() >= 8192 { assert(b.take(8192).take(10) =~= b.take(10)); } }
//@rwall «$s.ends_with($p)» => «str_ends($s, $p)» (std method as a function with a contract)
//@rwall «format.starts_with($p)» => «str_begins(&format, $p)» (std method as a function with a contract)
//@rwall «BufReader::new($b.as_ref())» => «as_slice($b)» (a slice is a reader of its bytes)
//@rwall «&$a != &$b {» => «$a != $b {» (comparing through references)
//@item src/source/dc_factory.rs | struct | DCFactory
//@item src/source/csv_factory.rs | struct | CSVFactory
impl SourceFactory for DCFactory {
    spec fn kind(&self) -> Kind { dc_kind() }
    //@fn src/source/dc_factory.rs | SourceFactory for DCFactory | can_create_from_format
        //@ret r
    //@end
    //@fn src/source/dc_factory.rs | SourceFactory for DCFactory | can_create_from_previewer
        //@ret r
        //@start
        proof { lemma_start_dc(previewer.reader.rest()); lemma_dc_magic(previewer.trimmed_buf@); }
    //@end
    //@fn src/source/dc_factory.rs | SourceFactory for DCFactory | create_source
        //@ret r
    //@end
}
impl CSVFactory {
    //@fn src/source/csv_factory.rs | CSVFactory | new
        //@ret r
        //@spec
        ensures r.kind() == csv_kind(csv_input_config),
    //@end
}
impl SourceFactory for CSVFactory {
    spec fn kind(&self) -> Kind { csv_kind(self.csv_input_config) }
    //@fn src/source/csv_factory.rs | SourceFactory for CSVFactory | can_create_from_format
        //@ret r
    //@end
    //@fn src/source/csv_factory.rs | SourceFactory for CSVFactory | can_create_from_previewer
        //@ret r
    //@end
    //@fn src/source/csv_factory.rs | SourceFactory for CSVFactory | create_source
        //@ret r
    //@end
}

// ---- the choice
//@item src/input/single_file.rs | enum | FormatAutodetectResult
//@item src/input/single_file.rs | enum | Format
spec fn kinds(v: Seq<Box<dyn SourceFactory>>) -> Seq<Kind> { Seq::new(v.len(), |i: int| (*v[i]).kind()) }
// the first factory that takes the name / the data
spec fn by_name(ks: Seq<Kind>, n: Seq<char>) -> Option<Kind> decreases ks.len() {
    if ks.len() == 0 { None } else if (ks[0].name)(n) { Some(ks[0]) } else { by_name(ks.skip(1), n) }
}
spec fn by_content(ks: Seq<Kind>, b: Seq<u8>) -> Option<Kind> decreases ks.len() {
    if ks.len() == 0 { None } else if (ks[0].bytes)(b) { Some(ks[0]) } else { by_content(ks.skip(1), b) }
}
// what a source is to be made from, and by which factory; None: it is refused
spec fn of_name(ks: Seq<Kind>, n: Seq<char>, d: Data) -> Option<(Kind, Data)> { match by_name(ks, n) { Some(k) => Some((k, d)), None => None } }
spec fn of_content(ks: Seq<Kind>, d: Data) -> Option<(Kind, Data)> { match by_content(ks, d.0) { Some(k) => Some((k, d)), None => None } }
spec fn unpack(f: Packing, d: Data) -> Data { (unpacked(f, d.0).0, unpacked(f, d.0).1 && d.1) }
spec fn unpack_found(d: Data) -> Data { match by_bytes(d.0) { Some(f) => unpack(f, d), None => d } }
spec fn dotted(f: Seq<char>) -> Seq<char> { if begins(f, "."@) { f } else { "."@ + f } }
spec fn plan_given(ks: Seq<Kind>, f: Seq<char>, d: Data) -> Option<(Kind, Data)> {
    match by_suffix(f) { Some(x) => of_name(ks, x.1, unpack(x.0, d)), None => of_name(ks, f, d) }
}
spec fn plan_named(ks: Seq<Kind>, n: Seq<char>, d: Data) -> Option<(Kind, Data)> {
    match by_suffix(n) {
        Some(x) => if by_name(ks, x.1) is Some { of_name(ks, x.1, unpack(x.0, d)) } else { of_content(ks, unpack(x.0, d)) },
        None => if by_name(ks, n) is Some { of_name(ks, n, d) } else { of_content(ks, unpack_found(d)) },
    }
}
spec fn plan(ks: Seq<Kind>, name: Option<Seq<char>>, given: InputFormat, d: Data) -> Option<(Kind, Data)> {
    match given {
        InputFormat::Extension(f) => plan_given(ks, dotted(f@), d),
        InputFormat::Auto => match name { Some(n) => plan_named(ks, n, d), None => of_content(ks, unpack_found(d)) },
    }
}
spec fn outcome(r: CliResult<Box<dyn Source>>) -> Option<Origin> { match r { Ok(s) => Some((*s).origin()), Err(_) => None } }
spec fn fits(o: Option<Origin>, p: Option<(Kind, Data)>) -> bool {
    match o {
        Some(x) => p is Some && x == origin_of(p->Some_0.0, p->Some_0.1.0, p->Some_0.1.1),
        None => p is None || !p->Some_0.1.1 || refused(p->Some_0.0, p->Some_0.1.0),
    }
}
spec fn follows(r: CliResult<Box<dyn Source>>, p: Option<(Kind, Data)>) -> bool { fits(outcome(r), p) }
spec fn data(p: ChopperBufPreviewer<Box<dyn Read>>) -> Data { (p.reader.rest(), p.reader.sound()) }
spec fn textof(n: Option<String>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
proof fn lemma_by_name(ks: Seq<Kind>, n: Seq<char>, i: int)
    requires 0 <= i <= ks.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] ks[j].name)(n),
    ensures i == ks.len() ==> by_name(ks, n) is None, i < ks.len() && (ks[i].name)(n) ==> by_name(ks, n) == Some(ks[i]),
    decreases i
{
    if i > 0 { assert(!(ks[0].name)(n)); let t = ks.skip(1); assert forall|j: int| 0 <= j < i - 1 implies !(#[trigger] t[j].name)(n) by { assert(t[j] == ks[j + 1]); } lemma_by_name(t, n, i - 1); if i < ks.len() { assert(t[i - 1] == ks[i]); } }
}
proof fn lemma_by_content(ks: Seq<Kind>, b: Seq<u8>, i: int)
    requires 0 <= i <= ks.len(), forall|j: int| 0 <= j < i ==> !(#[trigger] ks[j].bytes)(b),
    ensures i == ks.len() ==> by_content(ks, b) is None, i < ks.len() && (ks[i].bytes)(b) ==> by_content(ks, b) == Some(ks[i]),
    decreases i
{
    if i > 0 { assert(!(ks[0].bytes)(b)); let t = ks.skip(1); assert forall|j: int| 0 <= j < i - 1 implies !(#[trigger] t[j].bytes)(b) by { assert(t[j] == ks[j + 1]); } lemma_by_content(t, b, i - 1); if i < ks.len() { assert(t[i - 1] == ks[i]); } }
}
broadcast proof fn lemma_kinds(v: Seq<Box<dyn SourceFactory>>, i: int, x: Box<dyn SourceFactory>)
    requires 0 <= i < v.len(),
    ensures (*x).kind() == (*v[i]).kind() ==> #[trigger] kinds(v.update(i, x)) == kinds(v)
{ if (*x).kind() == (*v[i]).kind() { assert(kinds(v.update(i, x)) =~= kinds(v)); } }
//@item src/input/single_file.rs | struct | SingleFileInputFactory
//@rwall «$a.to_owned() + $b» => «text_add(&$a, &$b)» (std addition as a function with a contract)
//@rwall «$a.to_owned()» => «text_own(&$a)» (std method as a function with a contract)
//@rwall «$s.starts_with($p)» => «str_begins(&$s, $p)» (std method as a function with a contract)
spec fn name_of(p: Path) -> Option<Seq<char>> { last_name(p) }
//@fn src/util/path.rs | - | get_file_name
    //@ret r
    //@rw «$p.to_str().unwrap()» => «the_one($p.to_str())» (std method as a function with a contract)
    //@spec
    ensures textof(r) == name_of(*path),
//@end
impl SingleFileInputFactory {
    // the data for a path and their name: of an archive the file in it, otherwise the path's own
    spec fn archived(&self, p: Path, n: Option<Seq<char>>, d: Data, z: Data, a: Archived) -> bool {
        self.seekable_transport_factory.came(p, z) && zipped(z) && archives(z.0, a) && n == Some(a.name) && d == (a.bytes, a.whole)
    }
    spec fn plain(&self, p: Path) -> bool {
        ||| forall|i: int| 0 <= i < self.seekable_transport_factory.transports@.len() ==> !(*#[trigger] self.seekable_transport_factory.transports@[i]).can(p)
        ||| exists|z: Data| #[trigger] self.seekable_transport_factory.came(p, z) && !zipped(z)
    }
    spec fn found(&self, p: Path, n: Option<Seq<char>>, d: Data) -> bool {
        ||| exists|z: Data, a: Archived| self.archived(p, n, d, z, a)
        ||| self.plain(p) && self.previewer_transport_factory.came(p, d) && n == name_of(p)
    }
    // the data cannot be read to their end, or are no archive although they look like one
    spec fn unreadable(&self, p: Path) -> bool {
        ||| exists|d: Data| #[trigger] self.seekable_transport_factory.came(p, d) && (!d.1 || zipped(d) && archive_refused(d.0))
        ||| exists|d: Data| #[trigger] self.previewer_transport_factory.came(p, d) && !d.1
        ||| exists|n: Option<Seq<char>>, d: Data| #[trigger] self.found(p, n, d) && !d.1
    }
    // a factory reads a further path as if it had read none before
    spec fn same(&self, o: SingleFileInputFactory) -> bool { self.all() == o.all() && self.seekable_transport_factory == o.seekable_transport_factory && self.previewer_transport_factory == o.previewer_transport_factory }
    spec fn nowhere(&self, p: Path) -> bool {
        forall|i: int| 0 <= i < self.previewer_transport_factory.transports@.len() ==> !(*#[trigger] self.previewer_transport_factory.transports@[i]).can(p)
    }
    #[verifier::opaque]
    spec fn reads(&self, p: Path, given: InputFormat, o: Option<Origin>) -> bool {
        exists|n: Option<Seq<char>>, d: Data| #[trigger] self.found(p, n, d) && fits(o, plan(self.all(), n, given, d))
    }
    broadcast proof fn lemma_reads(self, p: Path, n: Option<Seq<char>>, d: Data, given: InputFormat, o: Option<Origin>)
        requires self.found(p, n, d), fits(o, plan(self.all(), n, given, d)),
        ensures #![trigger self.found(p, n, d), fits(o, plan(self.all(), n, given, d))] self.reads(p, given, o)
    { reveal(SingleFileInputFactory::reads); }
    broadcast proof fn lemma_archived(self, p: Path, z: Data, a: Archived)
        requires #[trigger] self.seekable_transport_factory.came(p, z), zipped(z), #[trigger] archives(z.0, a),
        ensures self.found(p, Some(a.name), (a.bytes, a.whole))
    { assert(self.archived(p, Some(a.name), (a.bytes, a.whole), z, a)); }
    broadcast proof fn lemma_plain(self, p: Path, d: Data)
        requires self.plain(p), #[trigger] self.previewer_transport_factory.came(p, d),
        ensures self.found(p, name_of(p), d)
    { }
    //@fn src/input/single_file.rs | SingleFileInputFactory | new
        //@ret r
        //@spec
        ensures r.all() == kinds(source_factories@), r.seekable_transport_factory == seekable_transport_factory, r.previewer_transport_factory == previewer_transport_factory,
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | create_source_from_path
        //@ret r
        //@spec
        ensures
            final(self).same(*old(self)),
            match r {
                Ok(Some(s)) => old(self).reads(*path, *input_format, Some((*s).origin())),
                Ok(None) => old(self).nowhere(*path),
                Err(_) => old(self).unreadable(*path) || old(self).reads(*path, *input_format, None),
            },
        //@start
        broadcast use SingleFileInputFactory::lemma_reads, SingleFileInputFactory::lemma_archived, SingleFileInputFactory::lemma_plain;
    //@end
    spec fn all(&self) -> Seq<Kind> { kinds(self.source_factories@) }
    //@fn src/input/single_file.rs | SingleFileInputFactory | create_source_from_previewer
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires shown(previewer),
        ensures follows(r, plan(old(self).all(), textof(file_name), *input_format, data(previewer))), final(self).same(*old(self)),
        //@loop 0
            invariant sf_k <= self.source_factories@.len(), self.same(*old(self)), forall|j: int| 0 <= j < sf_k ==> !(#[trigger] self.all()[j].name)(format@),
            decreases self.source_factories@.len() - sf_k,
        //@loopstart 0
            broadcast use lemma_kinds;
            proof { lemma_by_name(self.all(), format@, sf_k as int); }
        //@afterloop 0
            proof { lemma_by_name(self.all(), format@, self.all().len() as int); }
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | decompress_using_format
        //@ret r
        //@spec
        requires shown(previewer),
        ensures
            match by_suffix(format@) {
                Some(x) => {
                    &&& r matches Ok(o) ==> shown(o.1) && o.0 is Detected && data(o.1) == unpack(x.0, data(previewer)) && o.2@ == x.1
                    &&& r is Err ==> !unpack(x.0, data(previewer)).1
                },
                None => r matches Ok(o) && o.0 is NotDetected && o.1 == previewer && o.2@ == format@,
            },
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | decompress_by_autodetecting_format
        //@ret r
        //@spec
        requires shown(previewer),
        ensures
            r matches Ok(o) ==> shown(o.1) && data(o.1) == unpack_found(data(previewer)),
            r is Err ==> by_bytes(previewer.reader.rest()) is Some && !unpack_found(data(previewer)).1,
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | decompress
        //@ret r
        //@spec
        requires shown(previewer),
        ensures
            r matches Ok(p) ==> shown(p) && data(p) == unpack(decompression_format, data(previewer)),
            r is Err ==> !unpack(decompression_format, data(previewer)).1,
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | create_source_from_format
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires shown(previewer),
        ensures follows(r, of_name(old(self).all(), format@, data(previewer))), final(self).same(*old(self)),
        //@loop 0
            invariant sf_k <= self.source_factories@.len(), self.same(*old(self)), forall|j: int| 0 <= j < sf_k ==> !(#[trigger] self.all()[j].name)(format@),
            decreases self.source_factories@.len() - sf_k,
        //@loopstart 0
            broadcast use lemma_kinds;
            proof { lemma_by_name(self.all(), format@, sf_k as int); }
        //@afterloop 0
            proof { lemma_by_name(self.all(), format@, self.all().len() as int); }
    //@end
    //@fn src/input/single_file.rs | SingleFileInputFactory | create_source_by_autodetecting_format
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        requires shown(previewer),
        ensures follows(r, of_content(old(self).all(), data(previewer))), final(self).same(*old(self)),
        //@loop 0
            invariant sf_k <= self.source_factories@.len(), self.same(*old(self)), forall|j: int| 0 <= j < sf_k ==> !(#[trigger] self.all()[j].bytes)(previewer.reader.rest()),
            decreases self.source_factories@.len() - sf_k,
        //@loopstart 0
            broadcast use lemma_kinds;
            proof { lemma_by_content(self.all(), previewer.reader.rest(), sf_k as int); }
        //@afterloop 0
            proof { lemma_by_content(self.all(), previewer.reader.rest(), self.all().len() as int); }
    //@end
}

// ---- every input: stdin, a directory, or a single path
//@item src/input/input.rs | enum | InputType
//@item src/input/input.rs | struct | Input
uninterp spec fn stdin_data() -> Data;
#[verifier::external_body] struct Stdin { }
#[verifier::external_body]
fn stdin() -> (r: Stdin) ensures r.inv() && (r.rest(), r.sound()) == stdin_data() { unimplemented!() }
impl Stdin { uninterp spec fn data(&self) -> Data; }
impl Read for Stdin {
    uninterp spec fn inv(&self) -> bool;
    spec fn rest(&self) -> Seq<u8> { self.data().0 }
    spec fn sound(&self) -> bool { self.data().1 }
    spec fn steady(&self) -> bool { false }
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
// what is made of a directory: proved in unit multi_file in its terms (here by assumed contracts)
uninterp spec fn dir_refused(ks: Seq<Kind>, p: Path, given: InputFormat) -> bool;
trait DirTransport {
    spec fn can(&self, p: Path) -> bool;
    //@fn src/transport/dir/dir_transport.rs | trait DirTransport | can_handle
        //@ret r
        //@nobody
        //@spec
        ensures r == self.can(*path)
    //@end
}
impl Path { #[verifier::external_body] fn is_dir(&self) -> (r: bool) ensures r == directory(*self) { unimplemented!() } }
uninterp spec fn directory(p: Path) -> bool;
//@item src/transport/dir/file.rs | struct | DirFileTransport
impl DirTransport for DirFileTransport {
    spec fn can(&self, p: Path) -> bool { directory(p) }
    //@fn src/transport/dir/file.rs | DirTransport for DirFileTransport | can_handle
        //@ret r
    //@end
}
#[verifier::external_body] struct Header { }
#[verifier::external_body] struct FilesInDirPathProvider { }
impl FilesInDirPathProvider {
    uninterp spec fn of(&self) -> Path;
    uninterp spec fn lists(p: Path) -> bool;
    #[verifier::external_body]
    fn new(t: &Box<dyn DirTransport>, p: &Path) -> (r: CliResult<FilesInDirPathProvider>) ensures r matches Ok(x) ==> x.of() == *p, r is Err ==> !Self::lists(*p) { unimplemented!() }
}
#[verifier::external_body] struct SerialMultiFileSource { }
impl SerialMultiFileSource {
    uninterp spec fn from(&self) -> Origin;
    #[verifier::external_body]
    fn new(f: SingleFileInputFactory, p: Box<FilesInDirPathProvider>, given: InputFormat, h: Option<Header>) -> (r: CliResult<SerialMultiFileSource>)
        ensures h is None ==> (r matches Ok(x) ==> x.origin() == Origin::Dir(f.all(), p.of(), given)), h is None ==> (r is Err ==> dir_refused(f.all(), p.of(), given))
    { unimplemented!() }
}
impl Source for SerialMultiFileSource { spec fn origin(&self) -> Origin { self.from() } }
#[verifier::external_body]
fn copy_of<T: Clone>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external]
impl Clone for SingleFileInputFactory { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external]
impl Clone for InputFormat { fn clone(&self) -> Self { unimplemented!() } }
fn boxed_reader(r: Stdin) -> (o: Box<dyn Read>) ensures (*o).inv() == r.inv(), (*o).rest() == r.rest(), (*o).sound() == r.sound() { Box::new(r) }
//@item src/input/input_factory.rs | struct | InputFactory
spec fn user_kinds(u: Option<Vec<Box<dyn SourceFactory>>>) -> Seq<Kind> { match u { Some(v) => kinds(v@), None => seq![] } }
spec fn csv_last(c: Option<CSVInputConfig>) -> Seq<Kind> { match c { Some(x) => seq![dc_kind(), csv_kind(x)], None => seq![dc_kind()] } }
//@rwall «io::stdin()» => «stdin()» (std function as a function with a contract)
//@rwall «dyn io::Read» => «dyn Read» (the unit's name for it)
//@rwall «Box::new($x) as Box<dyn Read>» => «boxed_reader($x)» (a cast is not in the subset)
//@rwall «Box::new((*self).clone())» => «coerced(Box::new(copy_of(&(*self))))» (the derived copy as a function with a contract)
//@rwall «$x.clone()» => «copy_of(&$x)» (std method as a function with a contract)
//@rwall «push(Box::new($x))» => «push(coerced(Box::new($x)))» (the coercion to a trait object as a call)
//@rwall «Box::new(DirFileTransport)» => «coerced(Box::new(DirFileTransport))» (the coercion to a trait object as a call)
//@rwall «Box::new(SeekableFileTransport)» => «coerced(Box::new(SeekableFileTransport))» (the coercion to a trait object as a call)
//@rwall «Box::new(FileTransport)» => «coerced(Box::new(FileTransport))» (the coercion to a trait object as a call)
//@rwall «Box::new(HttpTransport)» => «coerced(Box::new(HttpTransport))» (the coercion to a trait object as a call)
fn coerced<T: ?Sized>(b: Box<T>) -> (r: Box<T>) ensures r == b { b }
// ---- copies (dispatch to them by the Clone of the boxes is not stated: a trait whose method gives a box of the trait is a cycle to Verus)
#[verifier::external] impl Clone for CSVFactory { fn clone(&self) -> Self { unimplemented!() } }
impl CSVFactory {
    //@fn src/source/csv_factory.rs | SourceFactory for CSVFactory | box_clone
        //@ret r
        //@spec
        ensures (*r).kind() == self.kind()
    //@end
}
#[verifier::external] impl Clone for DCFactory { fn clone(&self) -> Self { unimplemented!() } }
impl DCFactory {
    //@fn src/source/dc_factory.rs | SourceFactory for DCFactory | box_clone
        //@ret r
        //@spec
        ensures (*r).kind() == self.kind()
    //@end
}
#[verifier::external] impl Clone for FileTransport { fn clone(&self) -> Self { unimplemented!() } }
impl FileTransport {
    //@fn src/transport/streaming/file.rs | StreamingTransport for FileTransport | box_clone
        //@ret r
        //@spec
        ensures forall|p: Path| #[trigger] (*r).can(p) == self.can(p), forall|p: Path| #[trigger] (*r).gives(p) == self.gives(p)
    //@end
}
#[verifier::external] impl Clone for HttpTransport { fn clone(&self) -> Self { unimplemented!() } }
impl HttpTransport {
    //@fn src/transport/streaming/http.rs | StreamingTransport for HttpTransport | box_clone
        //@ret r
        //@spec
        ensures forall|p: Path| #[trigger] (*r).can(p) == self.can(p), forall|p: Path| #[trigger] (*r).gives(p) == self.gives(p)
    //@end
}
#[verifier::external] impl Clone for SeekableFileTransport { fn clone(&self) -> Self { unimplemented!() } }
impl SeekableFileTransport {
    //@fn src/transport/seekable/file.rs | SeekableTransport for SeekableFileTransport | box_clone
        //@ret r
        //@spec
        ensures forall|p: Path| #[trigger] (*r).can(p) == self.can(p), forall|p: Path| #[trigger] (*r).gives(p) == self.gives(p)
    //@end
}
#[verifier::external] impl Clone for DirFileTransport { fn clone(&self) -> Self { unimplemented!() } }
impl DirFileTransport {
    //@fn src/transport/dir/file.rs | DirTransport for DirFileTransport | box_clone
        //@ret r
        //@spec
        ensures forall|p: Path| #[trigger] (*r).can(p) == self.can(p)
    //@end
}
//@fn src/input/input_factory.rs | - | create_default_source_factories
    //@ret r
    //@spec
    ensures kinds(r@) =~= csv_last(csv_input_config),
//@end
spec fn only_dirs(v: Seq<Box<dyn DirTransport>>) -> bool { v.len() == 1 && forall|p: Path| (*v[0]).can(p) == #[trigger] directory(p) }
spec fn files_seekable(v: Seq<Box<dyn SeekableTransport>>) -> bool { v.len() == 1 && forall|p: Path| (*v[0]).can(p) == #[trigger] exists_(p) && (*v[0]).gives(p) == stored_at(p) }
// after those the user gives: files, then http
spec fn streams(v: Seq<Box<dyn StreamingTransport>>, u: Seq<Box<dyn StreamingTransport>>) -> bool {
    &&& v.len() == u.len() + 2
    &&& forall|i: int| 0 <= i < u.len() ==> v[i] == u[i]
    &&& forall|p: Path| (*v[u.len() as int]).can(p) == #[trigger] exists_(p) && (*v[u.len() as int]).gives(p) == stored_at(p)
    &&& forall|p: Path| (*v[(u.len() + 1) as int]).can(p) == (#[trigger] path_begins_with(p, "http://"@) || path_begins_with(p, "https://"@))
    &&& forall|p: Path| #[trigger] path_text(p) is Some ==> (*v[(u.len() + 1) as int]).gives(p) == response_data(answer(path_text(p)->0))
}
spec fn user_streams(u: Option<Vec<Box<dyn StreamingTransport>>>) -> Seq<Box<dyn StreamingTransport>> { match u { Some(v) => v@, None => seq![] } }
//@fn src/input/input_factory.rs | - | create_default_dir_transports
    //@ret r
    //@spec
    ensures only_dirs(r@),
//@end
//@fn src/input/input_factory.rs | - | create_default_seekable_transports
    //@ret r
    //@spec
    ensures files_seekable(r@),
//@end
//@fn src/input/input_factory.rs | - | create_default_streaming_transports
    //@ret r
    //@spec
    ensures streams(r@, seq![]),
//@end
impl InputFactory {
    // a further input is read as if none had been read before
    spec fn same(&self, o: InputFactory) -> bool { self.single_file_input_factory.same(o.single_file_input_factory) && self.dir_transports == o.dir_transports }
    spec fn handled(&self, p: Path) -> bool { exists|i: int| 0 <= i < self.dir_transports@.len() && (*#[trigger] self.dir_transports@[i]).can(p) }
    // the source a spelled input asks for, or None: an error
    spec fn answers(&self, input: InputType, given: InputFormat, o: Option<Origin>) -> bool {
        let f = self.single_file_input_factory;
        match input {
            InputType::StdIn => fits(o, plan(f.all(), None, given, stdin_data())) || (o is None && !stdin_data().1),
            InputType::Path(x) => {
                let p = path_of(x@);
                if self.handled(p) { match o { Some(g) => g == Origin::Dir(f.all(), p, given), None => dir_refused(f.all(), p, given) || !FilesInDirPathProvider::lists(p) } }
                else { f.reads(p, given, o) || (o is None && (f.unreadable(p) || f.nowhere(p))) }
            },
        }
    }
    spec fn answers_path(&self, path: Seq<char>, o: Option<Origin>) -> bool { exists|x: String| x@ == path && #[trigger] self.answers(InputType::Path(x), InputFormat::Auto, o) }
    //@fn src/input/input_factory.rs | InputFactory | create_source_from_path
        //@ret r
        //@rw «path.to_owned()» => «text_own(path)» (std method as a function with a contract)
        //@spec
        ensures old(self).answers_path(path@, outcome(r)), final(self).same(*old(self)),
    //@end
    spec fn made(&self, c: Option<CSVInputConfig>, u: Option<Vec<Box<dyn SourceFactory>>>, t: Option<Vec<Box<dyn StreamingTransport>>>) -> bool {
        &&& self.single_file_input_factory.all() =~= user_kinds(u) + csv_last(c)
        &&& only_dirs(self.dir_transports@)
        &&& files_seekable(self.single_file_input_factory.seekable_transport_factory.transports@)
        &&& streams(self.single_file_input_factory.previewer_transport_factory.transports@, user_streams(t))
    }
    //@fn src/input/input_factory.rs | InputFactory | new_without_csv
        //@ret r
        //@spec
        ensures r matches Ok(x) && x.made(None, user_source_factories, user_streaming_transports),
    //@end
    //@fn src/input/input_factory.rs | InputFactory | new
        //@ret r
        //@spec
        ensures r matches Ok(x) && x.made(Some(csv_input_config), user_source_factories, user_streaming_transports),
    //@end
    //@fn src/input/input_factory.rs | InputFactory | new_with_optional_csv
        //@ret r
        //@spec
        ensures r matches Ok(x) && x.made(csv_input_config, user_source_factories, user_streaming_transports),
    //@end
    //@fn src/input/input_factory.rs | InputFactory | create_source_from_input
        //@ret r
        //@forindex
        //@attr #[verifier::loop_isolation(false)]
        //@spec
        ensures old(self).answers(input.input, input.format, outcome(r)), final(self).same(*old(self)),
        //@loop 0
            invariant transport_k <= self.dir_transports@.len(), *self == *old(self), forall|j: int| 0 <= j < transport_k ==> !(*#[trigger] self.dir_transports@[j]).can(*path),
            decreases self.dir_transports@.len() - transport_k,
    //@end
}
fn main() {}
} // verus!
